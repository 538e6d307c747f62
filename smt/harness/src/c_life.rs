//! C02: the order of the lifecycle hooks; C03: panics and errors stay inside the actor.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn hook(n: usize) -> Hook { [Hook::Ok, Hook::Err, Hook::Panic, Hook::Yield][n] }
pub fn policy(n: usize) -> Policy { [Policy::Default, Policy::Continue, Policy::Break, Policy::Err][n] }
static HOOKED: AtomicUsize = AtomicUsize::new(0);
fn error_hook(_: &PanicError) { HOOKED.fetch_add(1, SeqCst); }

crate::sym::harnesses! {
    // Any outcome of on_start, one message, any on_panic policy, any cause of stopping, any outcome of on_stop.
    c02_hooks {
        set_actor_error_hook(error_hook);
        let cfg = Cfg { start: hook(choose(4, "start")), panic: policy(choose(4, "policy")), stop: hook(choose(4, "stop")), ..Cfg::default() };
        let (r, run, out) = prepare(Probe::with(1, cfg.clone()), [0, 2][choose(2, "cap")]);
        let how = choose(3, "end");
        let bad = choose(4, "msg");
        let mut ex = Exec::new(b(3, 6));
        let actor = ex.spawn(run);
        let r2 = r.clone();
        ex.spawn(async move {
            let a = match bad { 0 => true, n => r2.tell(S(7, [K::Ok, K::Err, K::PanicAfterYield][n - 1])).send().await.is_ok() };
            let _ = a;
            match how {
                0 => {}
                1 => { let _ = r2.stop_gracefully().await; }
                _ => { yield_().await; r2.kill() }
            }
        });
        if how == 0 { drop(r); ex.run() } else { ex.run(); drop(r) }
        check(ex.done(actor), "the actor stops");
        let ev = events();
        check(ev[0] == Ev::Start(1) && count(|e| *e == Ev::Start(1)) == 1, "on_start runs first and once");
        let started = matches!(cfg.start, Hook::Ok | Hook::Yield);
        check(started == (count(|e| *e == Ev::Started(1)) == 1), "on_start runs to its end");
        check(stops(1).len() == 1, "on_stop runs exactly once, whatever happened before");
        let sp = pos(|e| matches!(e, Ev::Stop(..))).unwrap();
        check(ev.iter().enumerate().all(|(i, e)| i < sp || matches!(e, Ev::Stop(..) | Ev::Stopped(_))), "nothing runs after on_stop");
        let st = pos(|e| *e == Ev::Started(1));
        if let Some(st) = st { check(ev.iter().enumerate().all(|(i, e)| i >= st || matches!(e, Ev::Start(_))), "no message is handled before on_start has finished") }
        if !started {
            check(handled(1).is_empty(), "an actor that failed to start handles no messages");
            check(count(|e| *e == Ev::Panic(1, START_ERR)) == 1, "a failed start is given to on_panic with its error");
        }
        let failed = bad >= 2 && count(|e| *e == Ev::Msg(1, 7)) == 1;
        let killed = how == 2;
        let panics = count(|e| matches!(e, Ev::Panic(..)));
        if !killed { check(panics == (!started) as usize + failed as usize, "on_panic runs once per failure") }
        let why = out.why();
        check(why.clone() == stops(1).first().cloned(), "the reason given to on_stop is the reason run() returns");
        let why = why.unwrap();
        let want = if panics > 0 {
            let code = if !started { START_ERR } else { 7 };
            match cfg.panic {
                Policy::Default => Some(Why::Panicked(code)),
                Policy::Err => Some(Why::Panicked(PANIC_ERR)),
                Policy::Break => Some(Why::Normal),
                Policy::Continue if !started => Some(Why::Panicked(code)),
                Policy::Continue => None,
            }
        } else { None };
        match want {
            Some(w) if !killed => check(why == w, "on_panic decides the reason for stopping"),
            _ => check(why == Why::Normal || (killed && why == Why::Killed) || Some(why) == want, "an actor that did not fail stops normally or by being killed"),
        }
        // an on_panic that itself fails goes only to the stop reason
        check(HOOKED.load(SeqCst) == !started as usize + matches!(cfg.stop, Hook::Err | Hook::Panic) as usize,
              "the error hook is called once for each of on_start and on_stop that fails");
        reach("end");
    }
    // on_panic's own panics are contained.
    c02_on_panic_panics {
        struct P;
        impl Actor for P {
            type Error = Code;
            async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::Panic(1, 0));
                if flip("late") { yield_().await }
                std::panic::panic_any(Code(9))
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&r))); Ok(()) }
        }
        impl Message<M> for P { type Reply = (); async fn handle(&mut self, _: M, _: &mut Context<Self, ()>) { panic!("x") } }
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let mut ex = Exec::new(2);
        let a = ex.spawn(async move { pa.run(P).await; });
        let r2 = r.clone();
        ex.spawn(async move { let _ = r2.tell(M(1)).send().await; });
        ex.run();
        check(ex.done(a), "an actor whose on_panic panics stops");
        check(stops(1) == vec![Why::Panicked(9)], "on_stop still runs, with the panic of on_panic");
        check(!r.is_alive(), "a stopped actor is not alive");
        reach("end");
    }
    // Any sequence of replies, errors and panics sent by tell or ask: each failure is seen exactly once, by the right party.
    c03_contained {
        let pol = policy(choose(4, "policy"));
        let (r, run, out) = prepare(Probe::with(1, Cfg { panic: pol, ..Cfg::default() }), 0);
        let (q, qrun, qout) = prepare(Probe::new(2), 0);
        let n = b(2, 3);
        let mut ex = Exec::new(b(2, 4));
        let actor = ex.spawn(run);
        let other = ex.spawn(qrun);
        let script: Vec<(K, bool)> = (0..n).map(|_| (kind(choose(6, "kind")), flip("ask"))).collect();
        let s2 = script.clone();
        let res = Arc::new(Mutex::new(Vec::new()));
        let (res2, r2, q2) = (res.clone(), r.clone(), q.clone());
        ex.spawn(async move {
            for (i, (k, ask)) in s2.into_iter().enumerate() {
                let m = S(i as u64, k);
                if ask { let x = r2.ask(m).send().await; res2.lock().unwrap().push(Some(x)) }
                else { let _ = r2.tell(m).send().await; res2.lock().unwrap().push(None) }
            }
            check(q2.ask(M(5)).send().await == Ok(6), "other actors are unaffected");
            drop(r2);
        });
        drop(r); drop(q);
        ex.run();
        check(ex.done(actor) && ex.done(other), "both actors stop");
        check(qout.why() == Some(Why::Normal), "other actors are unaffected");
        // the reference semantics
        let mut alive = true;
        let (mut panics, mut want_why) = (Vec::new(), Why::Normal);
        let res = res.lock().unwrap();
        check(res.len() == n, "no caller hangs");
        for (i, (k, ask)) in script.iter().enumerate() {
            let v = i as u64;
            let was = alive;
            let fails = match k { K::Panic | K::PanicAfterYield => Some(v), K::Str => Some(4), K::Err if !*ask => Some(v), _ => None };
            if let (true, Some(c)) = (was, fails) {
                panics.push(c);
                match pol {
                    Policy::Default => { alive = false; want_why = Why::Panicked(c) }
                    Policy::Err => { alive = false; want_why = Why::Panicked(PANIC_ERR) }
                    Policy::Break => alive = false,
                    Policy::Continue => {}
                }
            }
            if let Some(Some(x)) = res.get(i) {
                match (was, k) {
                    (true, K::Ok | K::Yield) => check(*x == Ok(v + 1), "a caller gets the reply"),
                    (true, K::Err) => check(*x == Err(SendError::HandlerError(Code(v))), "a caller gets the handler's error and the actor carries on"),
                    (true, _) => check(*x == Err(SendError::ActorStopped), "a caller whose message made the handler panic is told so"),
                    (false, _) => check(matches!(x, Err(SendError::ActorNotRunning(m)) if m.0 == v) || *x == Err(SendError::ActorStopped), "a caller of a stopped actor is told so"),
                }
            }
        }
        let got: Vec<u64> = events().iter().filter_map(|e| match e { Ev::Panic(1, c) => Some(*c), _ => None }).collect();
        check(got == panics, "on_panic sees every unhandled error and panic exactly once, in order, and no error that a caller got");
        check(out.why() == Some(want_why), "the actor stops as on_panic decided");
        reach("end");
    }
    // A custom on_message sees every message and what it returns is honoured.
    c03_on_message {
        struct H;
        impl Actor for H {
            type Error = Code;
            async fn on_message(&mut self, m: BoxMessage<Self>, r: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
                log(Ev::Note(1, tx.is_some() as u64));
                if flip("skip") { return Ok(()) }
                let x = m.handle_dyn(self, r, tx).await;
                log(Ev::Note(2, x.is_err() as u64));
                x
            }
            async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::Panic(1, code_of(&e)));
                Ok(ControlFlow::Continue(()))
            }
        }
        impl Message<S> for H {
            type Reply = Result<u64, Code>;
            async fn handle(&mut self, m: S, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
                log(Ev::Msg(1, m.0));
                if m.1 == K::Err { Err(Code(m.0)) } else { Ok(m.0) }
            }
        }
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let mut ex = Exec::new(2);
        let a = ex.spawn(async move { pa.run(H).await; });
        let early = flip("early");
        let script: Vec<(bool, bool)> = (0..2).map(|_| (flip("err"), flip("ask"))).collect();
        let s2 = script.clone();
        if !early { ex.run() }
        ex.spawn(async move {
            for (i, (err, ask)) in s2.into_iter().enumerate() {
                let m = S(i as u64, if err { K::Err } else { K::Ok });
                if ask {
                    let x = r.ask(m).send().await;
                    let ran = handled(1).contains(&(i as u64));
                    check(x == if !ran { Err(SendError::ActorStopped) } else if err { Err(SendError::HandlerError(Code(i as u64))) } else { Ok(i as u64) }, "a caller gets the outcome of a message handled through on_message");
                } else { r.tell(m).send().await.unwrap() }
            }
        });
        ex.run();
        check(ex.done(a), "the actor stops");
        let seen: Vec<u64> = events().iter().filter_map(|e| match e { Ev::Note(1, x) => Some(*x), _ => None }).collect();
        check(seen == script.iter().map(|x| x.1 as u64).collect::<Vec<_>>(), "on_message gets every message, with a reply sender exactly when it was asked");
        for (i, (err, ask)) in script.iter().enumerate() {
            let p = count(|e| *e == Ev::Panic(1, i as u64));
            check(p == (*err && !*ask && handled(1).contains(&(i as u64))) as usize, "an unhandled error reaches on_panic through on_message");
        }
        reach("end");
    }
}
