//! C15: actor identities; C16: registry; C17: send errors; C18: panic errors.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use kameo::registry::{ActorRegistry, ACTOR_REGISTRY};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Records what is fed to it.
#[derive(Default)]
struct Feed(Vec<u8>);
impl Hasher for Feed { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn feed<T: Hash>(t: &T) -> Vec<u8> { let mut f = Feed::default(); t.hash(&mut f); f.0 }
fn le(b: &[u8]) -> u64 { let mut v = 0; for i in (0..8).rev() { v = v << 8 | b[i] as u64 } v }

// Another actor type.
struct Other;
impl Actor for Other { type Error = Code; }
impl Message<M> for Other { type Reply = u64; async fn handle(&mut self, m: M, _: &mut Context<Self, u64>) -> u64 { m.0 } }

#[derive(Clone, Debug, PartialEq)]
struct P(u64, Arc<()>);
#[derive(Clone, Debug, PartialEq)]
struct E2(u64);
/// the k-th variant
fn variant<A, B>(k: usize, m: A, e: B) -> SendError<A, B> {
    match k {
        0 => SendError::ActorNotRunning(m),
        1 => SendError::ActorStopped,
        2 => SendError::MailboxFull(m),
        3 => SendError::HandlerError(e),
        4 => SendError::Timeout(None),
        _ => SendError::Timeout(Some(m)),
    }
}
fn idx<A, B>(e: &SendError<A, B>) -> usize {
    match e { SendError::ActorNotRunning(_) => 0, SendError::ActorStopped => 1, SendError::MailboxFull(_) => 2, SendError::HandlerError(_) => 3, SendError::Timeout(None) => 4, SendError::Timeout(Some(_)) => 5 }
}
fn has_msg(k: usize) -> bool { k == 0 || k == 2 || k == 5 }

fn text(e: &PanicError) -> Option<String> { e.with_str(|s| s.to_string()) }
static SEEN: Mutex<Vec<PanicError>> = Mutex::new(Vec::new());
/// Fails as told, and keeps what its hooks receive.
struct Fails;
enum How { Lit, Fmt(u8), Any(u64), Err(u64), ErrText(u8) }
#[derive(Debug, Clone, PartialEq)]
enum Fail { C(Code), T(String) }
impl Actor for Fails {
    type Error = Code;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
        SEEN.lock().unwrap().push(e.clone());
        Ok(ControlFlow::Break(ActorStopReason::Panicked(e)))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> {
        if let ActorStopReason::Panicked(e) = r { SEEN.lock().unwrap().push(e) }
        Ok(())
    }
}
impl Message<How> for Fails {
    type Reply = Result<(), Code>;
    async fn handle(&mut self, h: How, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        match h {
            How::Lit => panic!("boom"),
            How::Fmt(c) => panic!("{}", String::from_utf8(vec![b'x', c]).unwrap()),
            How::Any(v) => std::panic::panic_any(Code(v)),
            How::Err(v) => Err(Code(v)),
            How::ErrText(_) => Ok(()),
        }
    }
}
struct Txt(u8);
impl Message<Txt> for Fails {
    type Reply = Result<(), String>;
    async fn handle(&mut self, t: Txt, _: &mut Context<Self, Self::Reply>) -> Self::Reply { Err(String::from_utf8(vec![b'y', t.0]).unwrap()) }
}
/// Linked to the failing actor: keeps the reason.
struct Watch;
impl Actor for Watch {
    type Error = Code;
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, _: ActorID, r: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Code> {
        if let ActorStopReason::Panicked(e) = &r { SEEN.lock().unwrap().push(e.clone()) }
        Ok(ControlFlow::Continue(()))
    }
}
/// Reads `e` in one of several ways; every way gives what it was made from.
fn read(e: &PanicError, way: usize, code: Option<u64>, boxed: bool, txt: Option<&str>) {
    match way {
        0 => check(text(e).as_deref() == txt, "a panic message reads as its text"),
        1 => check(e.downcast::<Code>().map(|c| c.0) == if boxed { None } else { code }, "a value of the right type downcasts to an equal value"),
        2 => check(e.with_downcast_ref(|c: &Code| c.0) == if boxed { None } else { code }, "a value of the right type is seen by reference"),
        3 => check(e.downcast::<E2Send>().is_none() && e.with_downcast_ref(|_: &u64| ()).is_none(), "a wrong type gives nothing"),
        4 => check(e.with_downcast_ref(|a: &Box<dyn Any + Send>| a.downcast_ref::<Code>().map(|c| c.0)).flatten() == if boxed { code } else { None }, "an arbitrary panic payload is kept"),
        5 => {
            let r = catch_unwind(AssertUnwindSafe(|| e.with(|_| -> () { panic!("reader") })));
            check(r.is_err(), "a panicking reader unwinds to its caller");
        }
        6 => check(e.to_string() == match txt { Some(t) => format!("panicked: {t}"), None => "panicked".into() }, "a panic error displays its message"),
        _ if code.is_some() => {} // formatting arbitrary numbers has a path per digit
        _ => { let d = format!("{e:?}"); check(txt.map_or(true, |t| d.contains(t)) && d.starts_with("PanicError"), "a panic error debugs its message") }
    }
}
use std::any::Any;
#[derive(Clone, Debug)]
struct E2Send;

crate::sym::harnesses! {
    c15_bytes {
        let all: [u8; 16] = bytes("bytes");
        let n = choose(b(12, 17), "len");
        match ActorID::from_bytes(&all[..n]) {
            Ok(id) => {
                check(n >= 8, "bytes that are too short are rejected");
                check(id.sequence_id() == le(&all), "parsing gives the identity that the bytes name");
                check(id == ActorID::new(le(&all)), "parsing gives an equal identity");
                check(id.to_bytes()[..8] == all[..8], "writing gives the bytes back");
            }
            Err(_) => check(n < 8, "bytes of an identity are accepted"),
        }
        reach("end");
    }
    c15_round_trip {
        let v = u64v("v");
        let id = ActorID::new(v);
        let by = id.to_bytes();
        check(id.sequence_id() == v && by == v.to_le_bytes(), "an identity is written as its sequence number");
        check(ActorID::from_bytes(&by).ok() == Some(id), "an identity round-trips through bytes");
        match choose(3, "format") {
            0 => {
                let s = rmp_serde::to_vec(&id).unwrap();
                check(rmp_serde::from_slice::<ActorID>(&s).ok() == Some(id), "an identity round-trips through a binary format");
                check(rmp_serde::from_read::<_, ActorID>(&s[..]).ok() == Some(id), "an identity round-trips through a reader");
            }
            1 => {
                let s = serde_json::to_value(&id).unwrap();
                check(serde_json::from_value::<ActorID>(s).ok() == Some(id), "an identity round-trips through a format without byte strings");
            }
            _ => {
                let r = ActorStopReason::LinkDied { id, reason: Box::new([ActorStopReason::Normal, ActorStopReason::Killed][choose(2, "reason")].clone()) };
                let s = rmp_serde::to_vec(&r).unwrap();
                check(rmp_serde::from_slice::<ActorStopReason>(&s).ok().map(|x| why(&x)) == Some(why(&r)), "a stop reason round-trips with its identity");
            }
        }
        reach("end");
    }
    // Serialized identities of the wrong size or type are errors.
    c15_malformed {
        let all: [u8; 10] = bytes("bytes");
        let n = choose(11, "len");
        let (s, ok) = match choose(3, "format") {
            0 => { let mut s = vec![0xc4, n as u8]; s.extend(&all[..n]); (s, n >= 8) }
            1 => { let mut s = vec![0xc4, 8]; s.extend(&all[..n]); (s, n >= 8) } // claims 8, has n
            _ => { let mut s = vec![0x90 | n as u8]; s.extend(all[..n].iter().map(|b| b & 0x7f)); (s, n >= 8) }
        };
        check(rmp_serde::from_slice::<ActorID>(&s).is_ok() == ok, "malformed identities are rejected, well-formed ones are not");
        check(rmp_serde::from_read::<_, ActorID>(&s[..]).is_ok() == ok, "malformed identities are rejected by readers, well-formed ones are not");
        check(serde_json::from_value::<ActorID>([serde_json::Value::Null, vec![1, 2].into(), vec![300, 1, 1, 1, 1, 1, 1, 1].into(), vec![1, 1, 1, 1, 1, 1, 1, -1].into(), "abcdefgh".into(), serde_json::Map::new().into(), 7.into()][choose(7, "json")].clone()).is_err(), "other values are rejected");
        reach("end");
    }
    c15_eq_hash {
        let (x, y) = (u64v("x"), u64v("y"));
        let (i, j) = (ActorID::new(x), ActorID::new(y));
        check((i == j) == (x == y) && (i != j) == (x != y), "identities are equal exactly when they name the same actor");
        check(i == i.clone(), "an identity equals its copy");
        let same = feed(&i) == feed(&j);
        check(same == (x == y), "hashing agrees with equality");
        if x == y { let (mut a, mut c) = (DefaultHasher::new(), DefaultHasher::new()); ActorID::new(5).hash(&mut a); ActorID::new(5).hash(&mut c); check(a.finish() == c.finish(), "equal identities hash equally") }
        let k = choose(3, "shown");
        let id = ActorID::new([0, 17, u64::MAX][k]);
        check(id.to_string().contains(["0", "17", "18446744073709551615"][k]) && format!("{id:?}").contains(["0", "17", "18446744073709551615"][k]), "an identity shows its number");
        reach("end");
    }
    // Every way of making an actor gives a fresh identity, and references keep it.
    c15_generate {
        let mut ids = vec![];
        let mut keep = vec![];
        for _ in 0..b(3, 4) {
            match choose(3, "how") {
                0 => ids.push(ActorID::generate()),
                1 => { let (r, run, _) = prepare(Probe::new(1), [0, 1][choose(2, "cap")]); ids.push(r.id()); check(r.downgrade().id() == r.id() && r.clone().id() == r.id() && r.clone().recipient::<M>().id() == r.id(), "references keep the identity"); if flip("keep") { keep.push((r, run)) } }
                _ => { let p = PreparedActor::<Other>::new(mailbox::unbounded()); ids.push(p.actor_ref().id()) }
            }
        }
        for i in 0..ids.len() { for j in 0..i { check(ids[i] != ids[j] && ids[i].sequence_id() != ids[j].sequence_id(), "generated identities are pairwise different") } }
        reach("end");
    }
    // Operations on a registry agree with a map.
    c16_model {
        const NAMES: [&str; 3] = ["a", "", "ab"];
        let (p1, _f1, _) = prepare(Probe::new(1), 0);
        let (p2, _f2, _) = prepare(Probe::new(2), 1);
        let o = PreparedActor::<Other>::new(mailbox::unbounded());
        let ids = [p1.id(), p2.id(), o.actor_ref().id()];
        let mut reg = if flip("capacity") { ActorRegistry::with_capacity(2) } else { ActorRegistry::new() };
        let mut model: [Option<usize>; 3] = [None; 3];
        for _ in 0..b(3, 4) {
            let n = choose(b(2, 3), "name");
            match choose(5, "op") {
                0 => {
                    let w = choose(3, "who");
                    let owned = w == 0 && flip("owned");
                    let name: std::borrow::Cow<'static, str> = if owned { NAMES[n].to_string().into() } else { NAMES[n].into() };
                    let had = match w { 0 => reg.insert(name, p1.clone()), 1 => reg.insert(name, p2.clone()), _ => reg.insert(name, o.actor_ref().clone()) };
                    check(had == model[n].is_some(), "inserting reports whether the name was taken");
                    model[n] = Some(w);
                }
                1 => { let had = reg.remove(NAMES[n]); check(had == model[n].is_some(), "removing reports whether the name was there"); model[n] = None }
                2 => match reg.get::<Probe, str>(NAMES[n]) {
                    Ok(Some(r)) => check(model[n].is_some_and(|w| w < 2 && ids[w] == r.id()), "looking up a name gives the actor registered last under it"),
                    Ok(None) => check(model[n].is_none(), "a registered name is found"),
                    Err(RegistryError::BadActorType) => check(model[n] == Some(2), "a lookup fails only for another actor type"),
                    #[allow(unreachable_patterns)]
                    Err(_) => check(false, "a lookup fails only for another actor type"),
                },
                3 => match reg.get::<Other, str>(NAMES[n]) {
                    Ok(Some(r)) => check(model[n] == Some(2) && r.id() == ids[2], "looking up a name gives the actor registered last under it"),
                    Ok(None) => check(model[n].is_none(), "a registered name is found"),
                    Err(_) => check(model[n].is_some_and(|w| w < 2), "a lookup fails only for another actor type"),
                },
                _ => { reg.clear(); model = [None; 3] }
            }
            for i in 0..3 { check(reg.contains_name(NAMES[i]) == model[i].is_some(), "exactly the registered names are contained") }
            let len = model.iter().flatten().count();
            check(reg.len() == len && reg.is_empty() == (len == 0) && reg.names().count() == len, "the registry's size is the number of names");
            check(reg.names().all(|x| (0..3).any(|i| NAMES[i] == x.as_ref() && model[i].is_some())), "names lists exactly the registered names");
        }
        let n0 = model.iter().flatten().filter(|w| **w == 0).count();
        check(p1.strong_count() == 2 + n0, "the registry holds one reference per name");
        reach("end");
    }
    // The global registry: register and look up by actor type; it keeps actors alive until removed or replaced.
    c16_global {
        let (r, run, out) = prepare(Probe::new(1), [0, 1][choose(2, "cap")]);
        let (q, qrun, _) = prepare(Probe::new(2), 0);
        let mut ex = Exec::new(1);
        let (a, c) = (ex.spawn(run), ex.spawn(qrun));
        check(ActorRef::<Probe>::lookup("x").is_ok_and(|x| x.is_none()), "an unknown name is not found");
        check(r.register("x").is_ok(), "registering works");
        let id = r.id();
        drop(r);
        ex.run();
        check(!ex.done(a), "a registered actor stays alive");
        let x = ActorRef::<Probe>::lookup("x").ok().flatten();
        check(x.as_ref().is_some_and(|x| x.id() == id && x.is_alive()), "looking up gives the registered actor");
        check(matches!(ActorRef::<Other>::lookup("x"), Err(RegistryError::BadActorType)), "looking up another type is an error");
        check(ActorRef::<Probe>::lookup("y").is_ok_and(|x| x.is_none()), "another name is not found");
        let v = u64v("v");
        check(x.unwrap().tell(M(v)).try_send().is_ok(), "the actor found can be sent to");
        ex.run();
        check(handled(1) == vec![v], "and handles what is sent");
        match choose(3, "end") {
            0 => check(ACTOR_REGISTRY.lock().unwrap().remove("x"), "removing reports that the name was there"),
            1 => check(q.register(String::from("x")).is_ok() && ActorRef::<Probe>::lookup("x").unwrap().unwrap().id() == q.id(), "registering a taken name replaces the actor"),
            _ => ACTOR_REGISTRY.lock().unwrap().clear(),
        }
        ex.run();
        check(ex.done(a) && out.why() == Some(Why::Normal), "an actor no longer registered stops");
        check(!ex.done(c), "others keep running");
        ACTOR_REGISTRY.lock().unwrap().clear();
        reach("end");
    }
    c17_map {
        let (v, w, d) = (u64v("m"), u64v("e"), u64v("d"));
        let k = choose(6, "variant");
        let a = Arc::new(());
        let e: SendError<P, Code> = variant(k, P(v, a.clone()), Code(w));
        let copy = e.clone();
        check(copy == e && idx(&copy) == k, "a clone is equal");
        let mut calls = 0;
        match choose(4, "op") {
            0 => {
                let r = e.map_msg(|m| { calls += 1; E2(m.0.wrapping_add(d)) });
                check(idx(&r) == k, "mapping the message keeps the cause");
                match r { SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => check(m.0 == v.wrapping_add(d), "the message is mapped"), SendError::HandlerError(c) => check(c.0 == w, "the error is untouched"), _ => {} }
                check(calls == has_msg(k) as usize, "mapping happens once");
            }
            1 => {
                let r = e.map_err(|c| { calls += 1; E2(c.0.wrapping_add(d)) });
                check(idx(&r) == k, "mapping the error keeps the cause");
                match r { SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => check(m.0 == v, "the message is untouched"), SendError::HandlerError(c) => check(c.0 == w.wrapping_add(d), "the error is mapped"), _ => {} }
                check(calls == (k == 3) as usize, "mapping happens once");
            }
            2 => match catch_unwind(AssertUnwindSafe(|| e.unwrap_msg())) {
                Ok(m) => check(has_msg(k) && m.0 == v, "unwrapping gives the message"),
                Err(_) => check(!has_msg(k), "unwrapping panics only without a message"),
            },
            _ => match catch_unwind(AssertUnwindSafe(|| e.unwrap_err())) {
                Ok(c) => check(k == 3 && c.0 == w, "unwrapping gives the handler's error"),
                Err(_) => check(k != 3, "unwrapping panics only without a handler error"),
            },
        }
        drop(copy);
        check(Arc::strong_count(&a) == 1, "nothing is leaked");
        check(idx(&SendError::<P, Code>::from(variant::<P, Code>(k, P(v, a.clone()), Code(w)))) == k, "identity");
        reach("end");
    }
    c17_boxed {
        let (v, w) = (u64v("m"), u64v("e"));
        let k = choose(6, "variant");
        let a = Arc::new(());
        let e: SendError<P, Code> = variant(k, P(v, a.clone()), Code(w));
        let bx = e.clone().boxed();
        check(idx(&bx) == k, "boxing keeps the cause");
        match choose(3, "to") {
            0 => check(bx.downcast::<P, Code>() == e, "boxing and downcasting gives the original"),
            1 => match bx.try_downcast::<P, Code>() { Ok(x) => check(x == e, "boxing and downcasting gives the original"), Err(_) => check(false, "downcasting to the original types succeeds") },
            _ => match bx.try_downcast::<E2, E2>() {
                Ok(_) => check(k == 1 || k == 4, "downcasting to other types fails when there is anything to downcast") ,
                Err(back) => {
                    check(idx(&back) == k && k != 1 && k != 4, "a failed downcast keeps the cause");
                    check(back.try_downcast::<P, Code>().ok() == Some(e.clone()), "a failed downcast gives the error back intact");
                }
            },
        }
        drop(e);
        check(Arc::strong_count(&a) == 1, "nothing is leaked");
        reach("end");
    }
    // One part has another type than asked for: only that part matters.
    c17_partial {
        let (v, w) = (u64v("m"), u64v("e"));
        let k = choose(6, "variant");
        let bx = variant(k, E2(v), Code(w)).boxed();
        let r = bx.try_downcast::<P, Code>();
        check(r.is_ok() == !has_msg(k), "only the part that is there decides a downcast");
        if let Ok(SendError::HandlerError(c)) = &r { check(c.0 == w, "the error is intact") }
        let bx = variant(k, E2(v), Code(w)).boxed();
        let r = bx.try_downcast::<E2, P>();
        check(r.is_ok() == (k != 3), "only the part that is there decides a downcast");
        if let Err(SendError::HandlerError(c)) = r { check(c.downcast::<Code>().ok().map(|c| c.0) == Some(w), "the error is given back intact") }
        reach("end");
    }
    c17_flatten {
        let (v, w) = (u64v("m"), u64v("e"));
        let (k, j) = (choose(6, "outer"), choose(6, "inner"));
        let e: SendError<u64, SendError<u64, Code>> = variant(k, v, variant(j, v ^ 1, Code(w)));
        let f = e.flatten();
        let want = if k == 3 { variant(j, v ^ 1, Code(w)) } else { variant(k, v, Code(w)) };
        check(f == want, "flattening keeps the cause and the contents of whichever error happened");
        let shown = ["actor not running", "actor stopped", "mailbox full", "", "timeout", "timeout"];
        let i = idx(&want);
        if i != 3 { check(f.map_err(|_| 0u8).to_string() == shown[i], "an error displays its cause") }
        reach("end");
    }
    // Values given to PanicError::new, read repeatedly and through clones.
    c18_reads {
        let v = u64v("v");
        let c = b'a' + choose(2, "char") as u8;
        let kind = choose(5, "kind");
        let s = String::from_utf8(vec![c, b'z']).unwrap();
        let (e, code, boxed, txt) = match kind {
            0 => (PanicError::new(Box::new(Code(v))), Some(v), false, None),
            1 => (PanicError::new(Box::new(s.clone())), None, false, Some(s.as_str())),
            2 => (PanicError::new(Box::new("static")), None, false, Some("static")),
            3 => (PanicError::new(Box::new(())), None, false, None),
            _ => (PanicError::new(Box::new(Box::new(Code(v)) as Box<dyn Any + Send>)), Some(v), true, None),
        };
        let e2 = e.clone();
        for _ in 0..b(2, 3) { read(if flip("clone") { &e2 } else { &e }, choose(8, "way"), code, boxed, txt) }
        drop(e);
        for w in 0..5 { read(&e2, w, code, boxed, txt) }
        check(e2.downcast::<()>().is_some() == (kind == 3), "a wrong type gives nothing");
        check(e2.downcast::<String>().is_some() == (kind == 1), "owned text downcasts to a string");
        reach("end");
    }
    // What an actor failed with, as its panic hook, its stop hook and its links see it.
    c18_actor {
        let (r, run) = { let p = PreparedActor::new(mailbox::unbounded()); (p.actor_ref().clone(), async move { p.run(Fails).await; }) };
        let (w, wrun) = { let p = PreparedActor::new(mailbox::unbounded()); (p.actor_ref().clone(), async move { p.run(Watch).await; }) };
        let mut ex = Exec::new(1);
        ex.spawn(run); ex.spawn(wrun);
        { let (r, w) = (r.clone(), w.clone()); ex.spawn(async move { r.link(&w).await }); }
        ex.run();
        let v = u64v("v");
        let c = b'a' + choose(2, "char") as u8;
        let kind = choose(5, "kind");
        let s = String::from_utf8(vec![if kind == 1 { b'x' } else { b'y' }, c]).unwrap();
        let (code, boxed, txt) = match kind {
            0 => { r.tell(How::Lit).try_send().unwrap(); (None, false, Some("boom")) }
            1 => { r.tell(How::Fmt(c)).try_send().unwrap(); (None, false, Some(s.as_str())) }
            2 => { r.tell(How::Any(v)).try_send().unwrap(); (Some(v), true, None) }
            3 => { r.tell(How::Err(v)).try_send().unwrap(); (Some(v), false, None) }
            _ => { r.tell(Txt(c)).try_send().unwrap(); (None, false, Some(s.as_str())) }
        };
        ex.run();
        let seen = SEEN.lock().unwrap().clone();
        check(seen.len() == 3, "the panic hook, the stop hook and the link see the failure once each");
        let poison = flip("poison");
        if poison { read(&seen[choose(3, "by")], 5, code, boxed, txt) }
        for e in &seen { for way in [0, 1, 2, 3, 4, 6, 7] { read(e, way, code, boxed, txt) } }
        reach("end");
    }
    // Stop reasons that travel between nodes keep their kind, their identities and the message.
    c18_serde {
        let v = u64v("v");
        let c = b'a' + choose(2, "char") as u8;
        let s = String::from_utf8(vec![c, b'!']).unwrap();
        let base = match choose(5, "kind") {
            0 => ActorStopReason::Normal,
            1 => ActorStopReason::Killed,
            2 => ActorStopReason::Panicked(PanicError::new(Box::new(s.clone()))),
            3 => ActorStopReason::Panicked(PanicError::new(Box::new("static"))),
            _ => ActorStopReason::Panicked(PanicError::new(Box::new(Code(v)))),
        };
        let msg = if let ActorStopReason::Panicked(e) = &base { Some(e.to_string()) } else { None };
        let depth = choose(3, "depth");
        let mut r = base;
        for i in 0..depth { r = ActorStopReason::LinkDied { id: ActorID::new(v ^ i as u64), reason: Box::new(r) } }
        let json = flip("json");
        let mut back: ActorStopReason = if json { serde_json::from_value(serde_json::to_value(&r).unwrap()).unwrap() } else { rmp_serde::from_slice(&rmp_serde::to_vec(&r).unwrap()).unwrap() };
        for i in (0..depth).rev() {
            match back {
                ActorStopReason::LinkDied { id, reason } => { check(id == ActorID::new(v ^ i as u64), "a nested reason keeps its identity"); back = *reason }
                _ => { check(false, "a nested reason keeps its nesting"); return }
            }
            let ActorStopReason::LinkDied { reason, .. } = r else { return };
            r = *reason;
        }
        match (&back, &r) {
            (ActorStopReason::Panicked(e), ActorStopReason::Panicked(_)) => check(text(e) == msg, "the failure's message survives"),
            (x, y) => check(why(x) == why(y), "the kind of reason survives"),
        }
        reach("end");
    }
}
