//! C13: references; C14: killing.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;

enum St { R(ActorRef<Probe>), C(Recipient<M>) }
enum Wk { R(WeakActorRef<Probe>), C(WeakRecipient<M>) }
impl St {
    fn counts(&self) -> (usize, usize) { match self { St::R(r) => (r.strong_count(), r.weak_count()), St::C(r) => (r.strong_count(), r.weak_count()) } }
    fn id(&self) -> ActorID { match self { St::R(r) => r.id(), St::C(r) => r.id() } }
    fn alive(&self) -> bool { match self { St::R(r) => r.is_alive(), St::C(r) => r.is_alive() } }
    fn current(&self) -> bool { match self { St::R(r) => r.is_current(), St::C(r) => r.is_current() } }
    fn dup(&self) -> St { match self { St::R(r) => St::R(r.clone()), St::C(r) => St::C(r.clone()) } }
    fn weak(&self) -> Wk { match self { St::R(r) => Wk::R(r.downgrade()), St::C(r) => Wk::C(r.downgrade()) } }
    fn rec(self) -> St { match self { St::R(r) => St::C(r.recipient()), c => c } }
    fn tell(&self, m: M) -> Result<(), SendError<M>> { match self { St::R(r) => r.tell(m).try_send(), St::C(r) => r.tell(m).try_send() } }
    fn kill(&self) { match self { St::R(r) => r.kill(), St::C(r) => r.kill() } }
}
impl Wk {
    fn counts(&self) -> (usize, usize) { match self { Wk::R(r) => (r.strong_count(), r.weak_count()), Wk::C(r) => (r.strong_count(), r.weak_count()) } }
    fn id(&self) -> ActorID { match self { Wk::R(r) => r.id(), Wk::C(r) => r.id() } }
    fn dup(&self) -> Wk { match self { Wk::R(r) => Wk::R(r.clone()), Wk::C(r) => Wk::C(r.clone()) } }
    fn up(&self) -> Option<St> { match self { Wk::R(r) => r.upgrade().map(St::R), Wk::C(r) => r.upgrade().map(St::C) } }
}
fn op(s: &mut Vec<St>, w: &mut Vec<Wk>, o: usize) {
    match o {
        0 => if let Some(x) = s.last() { let y = x.dup(); s.push(y) },
        1 => if let Some(x) = s.last() { w.push(x.weak()) },
        2 => if let Some(x) = w.last() { if let Some(y) = x.up() { s.push(y) } },
        3 => if let Some(x) = s.pop() { s.push(x.rec()) },
        4 => { s.pop(); }
        5 => { w.pop(); }
        6 => if let Some(x) = w.last() { let y = x.dup(); w.push(y) },
        _ => if s.len() > 1 { s.swap_remove(0); },
    }
}

crate::sym::harnesses! {
    // Any sequence of reference operations before, then during, the run.
    c13_model {
        let cap = [0, 2][choose(2, "cap")];
        let (r, run, out) = prepare(Probe::new(1), cap);
        let id = r.id();
        let (mut s, mut w) = (vec![St::R(r.clone()), St::R(r)], Vec::new());
        let mut ex = Exec::new(0);
        let n = b(3, 4);
        let start_at = choose(n + 1, "start");
        let mut run = Some(run);
        let (mut hs, mut hw) = (1, 0); // held by the prepared or running actor
        let mut a = usize::MAX;
        let mut dead = false;
        for i in 0..n {
            if i == start_at { a = ex.spawn(run.take().unwrap()); ex.run(); hs = 0; if s.is_empty() { dead = true } else { hw = s[0].counts().1 - w.len() } }
            op(&mut s, &mut w, choose(8, "op"));
            ex.run();
            if run.is_none() && s.is_empty() { dead = true }
            let up = !s.is_empty() || hs > 0;
            let have = if dead { 0 } else { 1 };
            for x in &s { check(x.counts() == (s.len() + hs, w.len() + hw * have), "reference counts are exact"); check(x.id() == id && x.alive() && !x.current(), "references name their live actor") }
            for x in &w { check(x.counts() == (s.len() + hs, w.len() + hw * have), "reference counts are exact"); check(x.id() == id, "weak references name their actor"); check(x.up().is_some() == up, "a weak reference upgrades exactly while strong ones exist") }
            if a != usize::MAX { check(ex.done(a) == s.is_empty() || (dead && ex.done(a)), "the actor runs exactly while strong references exist") }
        }
        if start_at == n {
            if flip("run") { a = ex.spawn(run.take().unwrap()); ex.run(); check(ex.done(a) == s.is_empty(), "the actor runs exactly while strong references exist"); }
            else { drop(run.take()); for x in &w { check(x.up().is_some() == !s.is_empty(), "a weak reference upgrades exactly while strong ones exist") }
                for x in &s { check(!x.alive() && x.tell(M(1)) == Err(SendError::ActorNotRunning(M(1))), "an actor dropped before running is not alive") } reach("end"); return }
        }
        let v = u64v("v");
        let mut want = vec![];
        if let Some(x) = s.last() { check(x.tell(M(v)) == Ok(()), "a reference to a running actor sends"); want.push(v) }
        s.clear();
        ex.run();
        check(ex.done(a), "the actor stops when its last strong reference goes");
        check(handled(1) == want && out.why() == Some(Why::Normal), "it stops normally, after what was queued");
        for x in &w { check(x.up().is_none() && x.counts().0 == 0, "a weak reference to a stopped actor does not upgrade") }
        reach("end");
    }
    // Dropping the last strong reference, weak upgrades and sends race with the actor and each other.
    c13_race {
        let cap = [0, 1][choose(2, "cap")];
        let (r, run, out) = prepare(Probe::with(1, Cfg { start: [Hook::Ok, Hook::Yield][choose(2, "start")], ..Cfg::default() }), cap);
        let mut ex = Exec::new(b(6, 9));
        let a = ex.spawn(run);
        let w = r.downgrade();
        let sent = Arc::new(Mutex::new(0));
        let s2 = sent.clone();
        let weak_rec = flip("rec");
        ex.spawn(async move {
            for i in 0..2 {
                let ok = if weak_rec { match w.upgrade().map(|x| x.recipient::<M>().downgrade()) { Some(x) => match x.upgrade() { Some(x) => x.tell(M(i)).send().await.is_ok(), None => false }, None => false } }
                    else { match w.upgrade() { Some(x) => x.tell(M(i)).send().await.is_ok(), None => false } };
                if ok { *s2.lock().unwrap() += 1 }
                yield_().await;
            }
            drop(w);
        });
        let hold = flip("hold");
        ex.spawn(async move { if hold { yield_().await } drop(r) });
        ex.run();
        check(ex.done(a), "the actor stops when its last strong reference goes");
        check(handled(1).len() == *sent.lock().unwrap(), "a message sent through an upgraded reference is handled");
        check(out.why() == Some(Why::Normal), "it stops normally");
        reach("end");
    }
    // Links, however made, are not references.
    c13_links {
        let (r, run, out) = prepare(Probe::new(1), [0, 1][choose(2, "cap")]);
        let (q, qrun, qout) = prepare(Probe::new(2), [0, 1][choose(2, "qcap")]);
        let mut ex = Exec::new(b(3, 5));
        let late = flip("late");
        let (mut a, mut c, mut run, mut qrun) = (usize::MAX, usize::MAX, Some(run), Some(qrun));
        if late { a = ex.spawn(run.take().unwrap()); c = ex.spawn(qrun.take().unwrap()); ex.run(); }
        let (how, twice) = (choose(4, "how"), flip("twice"));
        for _ in 0..1 + twice as usize {
            match how { 0 => crate::c_mt::wait(r.link(&q)), 1 => r.blocking_link(&q), 2 => crate::c_mt::wait(q.link(&r)), _ => q.blocking_link(&r) }
        }
        if !late { a = ex.spawn(run.take().unwrap()); c = ex.spawn(qrun.take().unwrap()); ex.run(); }
        check(r.strong_count() == 1 && q.strong_count() == 1, "a link is not a strong reference");
        let w = [r.downgrade(), q.downgrade()];
        if flip("first") {
            drop(r);
            ex.run();
            check(ex.done(a) && out.why() == Some(Why::Normal) && w[0].upgrade().is_none(), "a linked actor stops when its last strong reference goes");
            check(!ex.done(c) && q.is_alive(), "and the other one goes on");
            drop(q);
        } else {
            drop(q);
            ex.run();
            check(ex.done(c) && qout.why() == Some(Why::Normal) && w[1].upgrade().is_none(), "a linked actor stops when its last strong reference goes");
            check(!ex.done(a) && r.is_alive(), "and the other one goes on");
            drop(r);
        }
        ex.run();
        check(ex.done(a) && ex.done(c) && w.iter().all(|w| w.upgrade().is_none()), "both stop");
        reach("end");
    }
    // What hooks and handlers are given, and what keeping it does.
    c13_self {
        struct Keep { keep: usize, s: Option<ActorRef<Keep>>, w: Option<WeakActorRef<Keep>>, rec: Option<Recipient<M>> }
        impl Actor for Keep {
            type Error = Code;
            async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
                check(r.is_current(), "an actor is current in its start hook");
                if self.keep == 1 { self.s = Some(r.clone()) }
                if self.keep == 2 { self.w = Some(r.downgrade()) }
                if self.keep == 3 { self.rec = Some(r.recipient()) }
                Ok(())
            }
            async fn on_panic(&mut self, w: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::Panic(1, w.upgrade().is_some() as u64));
                check(w.strong_count() <= 1 + (self.s.is_some() || self.rec.is_some()) as usize, "hooks hold no strong reference");
                Ok(ControlFlow::Continue(()))
            }
            async fn on_stop(&mut self, w: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> {
                log(Ev::Stop(1, why(&r)));
                check(w.upgrade().is_some() == (self.s.is_some() || self.rec.is_some()), "the stop hook's reference is weak");
                Ok(())
            }
        }
        impl Message<S> for Keep {
            type Reply = ();
            async fn handle(&mut self, m: S, ctx: &mut Context<Self, ()>) {
                log(Ev::Msg(1, m.0));
                check(ctx.actor_ref().is_current(), "an actor is current in its handlers");
                if self.keep == 4 { self.s = Some(ctx.actor_ref()) }
                if self.keep == 5 { self.w = Some(ctx.actor_ref().downgrade()) }
                if m.1 == K::Panic { panic!("x") }
                if m.0 == 9 { self.s = None; self.rec = None }
            }
        }
        impl Message<M> for Keep { type Reply = (); async fn handle(&mut self, m: M, _: &mut Context<Self, ()>) { log(Ev::Msg(1, m.0)) } }
        let keep = choose(6, "keep");
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let w = r.downgrade();
        let mut ex = Exec::new(b(4, 6));
        let a = ex.spawn(async move { pa.run(Keep { keep, s: None, w: None, rec: None }).await; });
        let bad = flip("bad");
        ex.spawn(async move { r.tell(S(1, if bad { K::Panic } else { K::Ok })).send().await.unwrap(); });
        ex.run();
        let strong = keep == 1 || keep == 3 || keep == 4;
        check(ex.done(a) == !strong, "an actor keeping only weak references to itself stops, one keeping a strong one does not");
        if strong {
            match w.upgrade() {
                Some(x) => { check(x.is_alive() && w.strong_count() == 2, "a kept reference counts"); check(x.tell(S(9, K::Ok)).try_send().is_ok(), "it sends"); }
                None => check(false, "a weak reference upgrades while the actor keeps a strong one"),
            }
            ex.run();
            check(ex.done(a), "an actor that drops its own strong reference stops");
        }
        check(w.upgrade().is_none(), "a weak reference to a stopped actor does not upgrade");
        check(count(|e| matches!(e, Ev::Panic(..))) == bad as usize && stops(1).len() == 1, "hooks run");
        reach("end");
    }
    // Identities: different actors, and references of either kind.
    // A recipient kept by its actor, made in the start hook: its own messages come first, and it knows when the actor itself uses it.
    c13_recipient {
        struct Own { rec: Option<Recipient<M>>, other: Recipient<M>, v: u64, gate: Gate, stop: Gate }
        impl Actor for Own {
            type Error = Code;
            async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
                let rec = r.recipient::<M>();
                check(rec.is_current() && rec.clone().is_current() && !self.other.is_current(), "a recipient knows whether its actor is the current one");
                rec.tell(M(self.v)).try_send().unwrap();
                self.gate.wait().await;
                rec.tell(M(self.v.wrapping_add(1))).send().await.unwrap();
                self.rec = Some(rec);
                Ok(())
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, w: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&w))); self.stop.wait().await; Ok(()) }
        }
        impl Message<M> for Own {
            type Reply = ();
            async fn handle(&mut self, m: M, _: &mut Context<Self, ()>) {
                log(Ev::Msg(1, m.0));
                let rec = self.rec.as_ref().unwrap();
                check(rec.is_current() && !self.other.is_current(), "a recipient knows whether its actor is the current one");
                if m.0 == self.v { check(self.other.tell(M(m.0)).try_send().is_ok(), "another actor's recipient sends to it") }
            }
        }
        let v = u64v("v");
        let (cap, end) = ([0, 5][choose(2, "cap")], choose(2, "end"));
        let (gate, stop) = (Gate::default(), Gate::default());
        let (q, qrun, _) = prepare(Probe::new(2), 0);
        let pa = PreparedActor::new(if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) });
        let rec = pa.actor_ref().clone().recipient::<M>();
        let own = Own { rec: None, other: q.recipient(), v, gate: gate.clone(), stop: stop.clone() };
        let mut ex = Exec::new(b(3, 6));
        ex.spawn(qrun);
        rec.tell(M(v.wrapping_add(2))).try_send().unwrap();
        let a = ex.spawn(async move { pa.run(own).await; });
        let started = { let x = rec.clone(); ex.spawn(async move { x.wait_for_startup().await }) };
        let ended = { let x = rec.clone(); ex.spawn(async move { x.wait_for_shutdown().await }) };
        ex.run();
        check(!ex.done(started) && handled(1).is_empty() && !rec.is_current(), "waiting for startup through a recipient ends with the start hook");
        gate.open();
        ex.run();
        check(ex.done(started) && handled(1) == [v, v.wrapping_add(1), v.wrapping_add(2)] && handled(2) == [v], "messages sent through a recipient by its own actor while it starts come first");
        if end == 0 { rec.kill() } else { let x = rec.clone(); ex.spawn(async move { x.stop_gracefully().await.unwrap() }); }
        ex.run();
        check(!ex.done(ended) && !ex.done(a) && stops(1) == [if end == 0 { Why::Killed } else { Why::Normal }], "waiting for shutdown through a recipient does not end before the stop hook");
        stop.open();
        ex.run();
        check(ex.done(ended) && ex.done(a), "but when it has");
        check(rec.tell(M(v)).try_send() == Err(SendError::ActorNotRunning(M(v))) && !rec.is_alive(), "the recipient of a stopped actor refuses messages");
        reach("end");
    }
    c13_identity {
        let (r, run, _) = prepare(Probe::new(1), 0);
        let (q, qrun, _) = prepare(Probe::new(2), [0, 1][choose(2, "cap")]);
        check(r.id() != q.id() && r.downgrade().id() != q.downgrade().id(), "different actors have different identities");
        check(!r.mailbox_sender().same_channel(q.mailbox_sender()) && r.mailbox_sender().same_channel(r.clone().mailbox_sender()), "mailboxes are told apart");
        let mut ex = Exec::new(2);
        let (a, c) = (ex.spawn(run), ex.spawn(qrun));
        let rec = q.clone().recipient::<M>();
        let wr = rec.downgrade();
        check(rec.id() == q.id() && wr.id() == q.id(), "recipients name the actor they came from");
        match choose(4, "how") {
            0 => { rec.kill(); }
            1 => { let x = wr.upgrade().unwrap(); ex.spawn(async move { x.stop_gracefully().await.unwrap() }); }
            2 => { let x = q.downgrade().upgrade().unwrap(); x.kill() }
            _ => { let x = rec.clone(); ex.spawn(async move { x.wait_for_startup().await; x.tell(M(4)).send().await.unwrap(); x.stop_gracefully().await.unwrap(); x.wait_for_shutdown().await; log(Ev::Note(1, 1)) }); }
        }
        ex.run();
        check(ex.done(c) && !rec.is_alive() && !q.is_alive() && !wr.upgrade().unwrap().is_alive(), "a recipient acts on its actor");
        check(!ex.done(a) && r.is_alive(), "and on no other");
        drop(r);
        ex.run();
        check(ex.done(a), "the other stops for its own reasons");
        reach("end");
    }
    // A kill between any two steps of a run with suspensions everywhere.
    c14_any_point {
        let cap = [0, 4][choose(2, "cap")];
        let stop = [Hook::Yield, Hook::Panic][choose(2, "stop")];
        let start = [Hook::Ok, Hook::Yield][choose(2, "start")];
        let (r, run, out) = prepare(Probe::with(1, Cfg { start, stop, self_tell: if flip("self") { vec![50] } else { vec![] }, ..Cfg::default() }), cap);
        let mut ex = Exec::new(b(2, 5));
        let a = ex.spawn(run);
        let callers: Vec<usize> = (0..2).map(|i| {
            let r = r.clone();
            ex.spawn(async move {
                let x = r.ask(S(i, K::Yield)).send().await;
                let done = count(|e| *e == Ev::Done(1, i)) == 1;
                match x {
                    Ok(v) => check(v == i + 1 && done, "a caller gets the reply of a handler that finished"),
                    Err(SendError::ActorStopped) => check(!done, "a caller of a killed actor gets an error if its message was not handled"),
                    Err(SendError::ActorNotRunning(m)) => check(m.0 == i && count(|e| *e == Ev::Msg(1, i)) == 0, "a message not accepted comes back"),
                    _ => check(false, "a caller of a killed actor is told so"),
                }
            })
        }).collect();
        let grace = flip("graceful");
        if grace { let r = r.clone(); ex.spawn(async move { let _ = r.stop_gracefully().await; }); }
        let at = choose(b(10, 16), "at");
        for _ in 0..at { ex.step(); }
        log(Ev::Note(0, 0));
        let (already, begun) = (ex.done(a), stops(1).len() == 1);
        let n = events().len();
        if flip("how") { r.kill() } else { r.clone().recipient::<M>().kill(); r.kill() }
        ex.run();
        check(ex.done(a) && callers.iter().all(|c| ex.done(*c)), "a killed actor stops and its callers continue");
        check(!r.is_alive(), "a killed actor is not alive");
        check(stops(1).len() == 1, "the stop hook runs exactly once");
        if stop != Hook::Panic { check(count(|e| *e == Ev::Stopped(1)) == 1, "the stop hook runs to its end") }
        let after = events()[n..].to_vec();
        check(after.iter().all(|e| matches!(e, Ev::Start(_) | Ev::Started(_) | Ev::Stop(..) | Ev::Stopped(_))), "nothing is handled, or handled further, after the kill");
        check(out.why() == Some(if begun { Why::Normal } else { Why::Killed }), "the reason says that the actor was killed, unless it was stopping already");
        check(!already || after.is_empty(), "killing a stopped actor has no effect");
        check(r.tell(M(9)).try_send() == Err(SendError::ActorNotRunning(M(9))), "a killed actor refuses messages");
        reach("end");
    }
    // An actor that kills itself, and kills from another's handler: nothing queued is handled.
    c14_self {
        struct K1 { who: Option<WeakActorRef<Probe>> }
        impl Actor for K1 { type Error = Code; async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&r))); Ok(()) } }
        impl Message<(u64, usize)> for K1 {
            type Reply = u64;
            async fn handle(&mut self, (v, how): (u64, usize), ctx: &mut Context<Self, u64>) -> u64 {
                log(Ev::Msg(1, v));
                match how {
                    1 => ctx.actor_ref().kill(),
                    2 => { ctx.actor_ref().kill(); yield_().await }
                    3 => { yield_().await; ctx.actor_ref().kill() }
                    4 => if let Some(p) = self.who.as_ref().and_then(|w| w.upgrade()) { p.kill() },
                    _ => {}
                }
                log(Ev::Done(1, v));
                v
            }
        }
        let (q, qrun, qout) = prepare(Probe::new(2), 0);
        let pa = if flip("bounded") { PreparedActor::new(mailbox::bounded(8)) } else { PreparedActor::new(mailbox::unbounded()) };
        let r = pa.actor_ref().clone();
        let wq = q.downgrade();
        let mut ex = Exec::new(b(4, 6));
        let a = ex.spawn(async move { pa.run(K1 { who: Some(wq) }).await; });
        let c = ex.spawn(qrun);
        let pre = flip("queued before it starts");
        if !pre { ex.run() }
        let (how, at) = (1 + choose(4, "how"), choose(3, "at"));
        for i in 0..3 { check(r.tell((i as u64, if i == at { how } else { 0 })).try_send().is_ok(), "queueing") }
        q.tell(S(1, K::Yield)).try_send().unwrap();
        q.tell(S(2, K::Yield)).try_send().unwrap();
        ex.run();
        let want: Vec<u64> = (0..=at as u64).collect();
        if how == 4 {
            check(!ex.done(a) && handled(1) == vec![0, 1, 2], "killing another actor does not disturb the killer");
            check(ex.done(c) && qout.why() == Some(Why::Killed), "an actor killed by another stops");
        } else {
            check(ex.done(a) && stops(1) == vec![Why::Killed], "an actor can kill itself");
            check(handled(1) == want, "nothing queued behind the kill is handled");
            if how == 2 { check(count(|e| *e == Ev::Done(1, at as u64)) == 0, "a handler suspended when the actor is killed is abandoned") }
            check(!ex.done(c), "other actors are unaffected");
        }
        drop(q);
        reach("end");
    }
    // A kill while the start, panic or link hook is suspended.
    c14_hooks {
        struct H { hook: usize, g: Gate }
        impl Actor for H {
            type Error = Code;
            async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
                r.tell(S(40, K::Ok)).try_send().unwrap();
                drop(r);
                if self.hook == 0 { self.g.wait().await }
                Ok(())
            }
            async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> { log(Ev::Panic(1, 0)); self.g.wait().await; log(Ev::Panic(1, 1)); Ok(ControlFlow::Continue(())) }
            async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, _: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Code> { log(Ev::LinkDied(1, id, Why::Other)); self.g.wait().await; log(Ev::LinkDied(1, id, Why::Normal)); Ok(ControlFlow::Continue(())) }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&r))); yield_().await; log(Ev::Stopped(1)); Ok(()) }
        }
        impl Message<S> for H { type Reply = (); async fn handle(&mut self, m: S, _: &mut Context<Self, ()>) { log(Ev::Msg(1, m.0)); if m.1 == K::Panic { panic!("x") } } }
        let hook = choose(3, "hook");
        let g = Gate::default();
        let (q, qrun, _) = prepare(Probe::new(2), 0);
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let mut ex = Exec::new(b(4, 6));
        let g2 = g.clone();
        let a = ex.spawn(async move { pa.run(H { hook, g: g2 }).await; });
        ex.spawn(qrun);
        { let (r, q) = (r.clone(), q.clone()); ex.spawn(async move { r.link(&q).await }); }
        ex.run();
        match hook { 1 => r.tell(S(1, K::Panic)).try_send().unwrap(), 2 => { r.tell(S(1, K::Ok)).try_send().unwrap(); ex.run(); q.kill() } _ => {} }
        ex.run();
        r.tell(S(2, K::Ok)).try_send().unwrap();
        check(g.waiting() == 1, "the hook is suspended");
        let n = events().len();
        r.kill();
        let before = flip("open before");
        if before { g.open() }
        ex.run();
        if hook == 0 && !before { g.open(); ex.run() }
        check(ex.done(a), "an actor killed inside a hook stops");
        let after: Vec<Ev> = events()[n..].iter().filter(|e| matches!(e, Ev::Msg(1, _) | Ev::Panic(1, _) | Ev::LinkDied(1, ..) | Ev::Stop(1, _) | Ev::Stopped(1))).cloned().collect();
        check(after == vec![Ev::Stop(1, Why::Killed), Ev::Stopped(1)], "only the stop hook runs after a kill");
        check(g.waiting() == 0, "the suspended hook is dropped");
        reach("end");
    }
}
