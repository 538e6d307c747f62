//! C04: the order of messages around startup; C05: waiting for startup; C06: waiting for shutdown.
use crate::c_life::hook;
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;

crate::sym::harnesses! {
    // Messages the actor sends itself in on_start come before anything sent from outside while it was starting.
    c04_priority {
        let cap = [0, 1, 2, 3, 4][choose(5, "cap")];
        let gate = Gate::default();
        let nself = choose(3, "self");
        let early = choose(3, "early");
        let late = choose(b(2, 3), "late");
        let after = choose(2, "after");
        let stop = choose(3, "stop");
        struct A { gate: Gate, n: usize, ok: Arc<Mutex<Vec<u64>>> }
        impl Actor for A {
            type Error = Code;
            async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
                check(r.is_current(), "an actor is current in on_start");
                let half = self.n / 2;
                for i in 0..half { if r.tell(M(100 + i as u64)).try_send().is_ok() { self.ok.lock().unwrap().push(100 + i as u64) } }
                self.gate.wait().await;
                for i in half..self.n { if r.tell(M(100 + i as u64)).try_send().is_ok() { self.ok.lock().unwrap().push(100 + i as u64) } }
                Ok(())
            }
        }
        impl Message<M> for A { type Reply = (); async fn handle(&mut self, m: M, _: &mut Context<Self, ()>) { log(Ev::Msg(1, m.0)) } }
        let selfs = Arc::new(Mutex::new(Vec::new()));
        let pa = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
        let r = pa.actor_ref().clone();
        let mut acc = Vec::new();
        for i in 0..early as u64 { if r.tell(M(i)).try_send().is_ok() { acc.push(i) } }
        let (g2, s2) = (gate.clone(), selfs.clone());
        let mut ex = Exec::new(b(3, 5));
        let actor = ex.spawn(async move { pa.run(A { gate: g2, n: nself, ok: s2 }).await; });
        ex.drive(actor);
        for i in 10..10 + late as u64 { if r.tell(M(i)).try_send().is_ok() { acc.push(i) } }
        // a graceful stop is sent while starting: what came before it is still handled
        let stopped = Arc::new(Mutex::new(0));
        if stop > 0 {
            let (r, st) = (r.clone(), stopped.clone());
            let t = ex.spawn(async move { if r.stop_gracefully().await.is_ok() { *st.lock().unwrap() = 1 } });
            if stop == 1 { ex.drive(t) }
        }
        gate.open();
        ex.run();
        check(stop == 0 || *stopped.lock().unwrap() == 1, "a starting actor can be asked to stop");
        let mut rest = Vec::new();
        if stop == 0 { for i in 20..20 + after as u64 { if r.tell(M(i)).try_send().is_ok() { rest.push(i) } } ex.run(); }
        drop(r);
        ex.run();
        check(ex.done(actor), "the actor stops");
        let h = handled(1);
        let selfs = selfs.lock().unwrap().clone();
        let ext: Vec<u64> = h.iter().copied().filter(|v| *v < 100).collect();
        let own: Vec<u64> = h.iter().copied().filter(|v| *v >= 100).collect();
        let mut want = acc.clone(); want.extend(rest);
        check(ext == want, "messages sent from outside while starting are all handled, once, in order");
        if stop == 0 {
            check(own == selfs, "messages sent by the actor itself while starting are all handled, once, in order");
            check(h[..own.len()] == own[..], "messages sent by the actor itself while starting come first, even before earlier external ones");
        } else {
            // a stop queued before a self-sent message stops first; what is handled is a prefix, and still first
            check(selfs.starts_with(&own), "messages sent by the actor itself while starting keep their order");
            check(h[..own.len()] == own[..], "messages sent by the actor itself while starting come first, even before earlier external ones");
        }
        reach("end");
    }
    // A message buffered while starting is not lost when one before it panics.
    c04_panic_keeps_buffer {
        let (r, run, _) = prepare(Probe::with(1, Cfg { panic: Policy::Continue, start: Hook::Yield, ..Cfg::default() }), [0, 3][choose(2, "cap")]);
        let script: Vec<K> = (0..3).map(|_| kind(choose(6, "kind"))).collect();
        let s2 = script.clone();
        let mut ex = Exec::new(3);
        let actor = ex.spawn(run);
        let stop = flip("stop");
        ex.spawn(async move {
            for (i, k) in s2.iter().enumerate() { r.tell(S(i as u64, *k)).send().await.unwrap() }
            if stop { r.stop_gracefully().await.unwrap() }
        });
        ex.run();
        check(ex.done(actor), "the actor stops");
        check(handled(1) == vec![0, 1, 2], "messages received while starting are all handled in order although some fail");
        reach("end");
    }
    // wait_for_startup returns once on_start has finished, whatever its outcome and whenever it is called.
    c05_wait {
        let gate = Gate::default();
        let h = hook(choose(4, "start"));
        let gated = flip("gated");
        let (r, run, _) = prepare(Probe::with(1, Cfg { start: h, start_gate: if gated { Some(gate.clone()) } else { None }, ..Cfg::default() }), [0, 1][choose(2, "cap")]);
        let nw = b(2, 3);
        if flip("fill") { let _ = r.tell(M(1)).try_send(); }
        let mut ex = Exec::new(b(5, 7));
        let actor = ex.spawn(run);
        let woken = Arc::new(Mutex::new(0));
        for i in 0..nw {
            let (r, w) = (r.clone(), woken.clone());
            let how = choose(if h == Hook::Panic { 2 } else { 3 }, "wait");
            let _ = i;
            ex.spawn(async move {
                match how {
                    0 => r.wait_for_startup().await,
                    1 => r.clone().recipient::<M>().wait_for_startup().await,
                    _ => check(r.wait_for_startup_result().await == if h == Hook::Err { Err(Code(START_ERR)) } else { Ok(()) }, "the startup result is the outcome of on_start"),
                }
                check(count(|e| *e == Ev::Start(1)) == 1, "waiting for startup ends after on_start has begun");
                if matches!(h, Hook::Ok | Hook::Yield) { check(count(|e| *e == Ev::Started(1)) == 1, "waiting for startup ends after on_start has finished") }
                *w.lock().unwrap() += 1;
            });
        }
        if gated {
            ex.run();
            check(*woken.lock().unwrap() == 0, "nobody waiting for startup continues before on_start has finished");
            gate.open();
        }
        ex.run();
        check(*woken.lock().unwrap() == nw, "everybody waiting for startup continues once on_start has finished");
        // and later still
        let (r2, w2) = (r.clone(), woken.clone());
        ex.spawn(async move { r2.wait_for_startup().await; *w2.lock().unwrap() += 1 });
        let stop = flip("stop");
        if stop { drop(r) }
        ex.run();
        check(*woken.lock().unwrap() == nw + 1, "waiting for startup returns at once when on_start has already finished");
        check(!stop || ex.done(actor), "the actor stops");
        reach("end");
    }
    // on_start waits for another actor's startup while that one waits for nothing; nobody hangs when the actor dies while starting.
    c05_dead {
        let h = [Hook::Err, Hook::Panic][choose(2, "start")];
        let (r, run, _) = prepare(Probe::with(1, Cfg { start: h, ..Cfg::default() }), [0, 1][choose(2, "cap")]);
        let mut ex = Exec::new(3);
        let actor = ex.spawn(run);
        let r2 = r.clone();
        let t = ex.spawn(async move { r2.wait_for_startup().await; r2.wait_for_shutdown().await });
        let killed = flip("kill");
        if killed { r.kill() }
        ex.run();
        check(ex.done(actor) && ex.done(t), "an actor that fails to start completes both waits");
        let r3 = r.clone();
        let t = ex.spawn(async move { r3.wait_for_startup().await; r3.wait_for_shutdown().await; });
        ex.run();
        check(ex.done(t), "waiting on an actor that is already dead returns at once");
        check(!r.is_alive(), "a stopped actor is not alive");
        reach("end");
    }
    // wait_for_startup_result when on_start panicked (rather than returned an error).
    c05_result_panic {
        let (r, run, _) = prepare(Probe::with(1, Cfg { start: Hook::Panic, ..Cfg::default() }), 0);
        let mut ex = Exec::new(0);
        ex.spawn(run);
        ex.run();
        let mut ok = false;
        ex.spawn(async { let x = std::panic::AssertUnwindSafe(r.wait_for_startup_result()); use futures::FutureExt; ok = x.catch_unwind().await.is_ok() });
        ex.run();
        drop(ex);
        check(ok, "waiting for the startup result does not panic");
        reach("end");
    }
    c05_unrun {
        let pa = PreparedActor::<Probe>::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        drop(pa);
        let mut ex = Exec::new(0);
        let t = ex.spawn(async move { r.wait_for_startup().await });
        ex.run();
        check(ex.done(t), "waiting for the startup of an actor dropped before it ran returns");
        reach("end");
    }
    // wait_for_shutdown returns once on_stop has finished, for every way of stopping, and gives its outcome.
    c06_wait {
        let gate = Gate::default();
        let h = hook(choose(4, "stop"));
        let gated = flip("gated");
        let start = [Hook::Ok, Hook::Err][choose(2, "start")];
        let (r, run, out) = prepare(Probe::with(1, Cfg { start, stop: h, stop_gate: if gated { Some(gate.clone()) } else { None }, ..Cfg::default() }), [0, 1][choose(2, "cap")]);
        let mut ex = Exec::new(b(4, 6));
        let actor = ex.spawn(run);
        let woken = Arc::new(Mutex::new(0));
        let nw = 2;
        for _ in 0..nw {
            let (r, w) = (r.clone(), woken.clone());
            let how = choose(if h == Hook::Panic { 2 } else { 3 }, "wait");
            ex.spawn(async move {
                match how {
                    0 => r.wait_for_shutdown().await,
                    1 => r.clone().recipient::<M>().wait_for_shutdown().await,
                    _ => check(r.wait_for_shutdown_result().await == if h == Hook::Err { Err(Code(STOP_ERR)) } else { Ok(()) }, "the shutdown result is the outcome of on_stop"),
                }
                check(stops(1).len() == 1, "waiting for shutdown ends after on_stop has begun");
                if h != Hook::Panic { check(count(|e| *e == Ev::Stopped(1)) == 1, "waiting for shutdown ends after on_stop has finished") }
                check(!r.is_alive(), "once a wait for shutdown has returned the actor is not alive");
                check(r.tell(M(3)).try_send() == Err(SendError::ActorNotRunning(M(3))), "once a wait for shutdown has returned messages are refused");
                *w.lock().unwrap() += 1;
            });
        }
        ex.run();
        if start == Hook::Ok {
            check(*woken.lock().unwrap() == 0 && r.is_alive(), "waiting for shutdown does not stop the actor");
            let r2 = r.clone();
            match choose(3, "how") {
                0 => { ex.spawn(async move { r2.stop_gracefully().await.unwrap() }); }
                1 => r.kill(),
                _ => { ex.spawn(async move { r2.tell(S(1, K::Panic)).send().await.unwrap() }); }
            }
        }
        ex.run();
        if gated { check(*woken.lock().unwrap() == 0, "nobody waiting for shutdown continues before on_stop has finished"); gate.open(); ex.run() }
        check(*woken.lock().unwrap() == nw, "everybody waiting for shutdown continues once on_stop has finished");
        check(ex.done(actor) && out.get().is_some(), "run() returns");
        let t = ex.spawn(async move { r.wait_for_shutdown().await });
        ex.run();
        check(ex.done(t), "waiting for the shutdown of a stopped actor returns at once");
        reach("end");
    }
    // Two actors waiting for each other's shutdown, and an actor that stops another from its own on_stop.
    c06_cross {
        struct W { a: u8, other: Option<ActorRef<W>>, wait: bool }
        impl Actor for W {
            type Error = Code;
            async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> {
                log(Ev::Stop(self.a, why(&r)));
                if let Some(o) = &self.other { let _ = o.stop_gracefully().await; if self.wait { o.wait_for_shutdown().await } }
                log(Ev::Stopped(self.a));
                Ok(())
            }
        }
        let p1 = PreparedActor::new(mailbox::bounded(1));
        let p2 = PreparedActor::new(mailbox::bounded(1));
        let (r1, r2) = (p1.actor_ref().clone(), p2.actor_ref().clone());
        let wait = flip("wait");
        let linked = flip("link");
        let mut ex = Exec::new(b(6, 8));
        if linked { let (a, c) = (r1.clone(), r2.clone()); ex.spawn(async move { a.link(&c).await }); }
        let o = r2.clone();
        ex.run();
        let a = ex.spawn(async move { p1.run(W { a: 1, other: Some(o), wait }).await; });
        let c = ex.spawn(async move { p2.run(W { a: 2, other: None, wait: false }).await; });
        let k = flip("kill");
        if k { r1.kill() } else { let r = r1.clone(); ex.spawn(async move { r.stop_gracefully().await.unwrap() }); }
        ex.run();
        check(ex.done(a) && ex.done(c), "stopping one actor from another's on_stop completes");
        check(stops(1).len() == 1 && stops(2).len() == 1, "each actor's on_stop runs once");
        if wait { check(pos(|e| *e == Ev::Stopped(2)) < pos(|e| *e == Ev::Stopped(1)), "waiting for shutdown from on_stop waits for the other's on_stop") }
        reach("end");
    }
    c06_result_panic {
        let (r, run, _) = prepare(Probe::with(1, Cfg { stop: Hook::Panic, ..Cfg::default() }), 0);
        let mut ex = Exec::new(0);
        ex.spawn(run);
        r.kill();
        ex.run();
        let mut ok = false;
        ex.spawn(async { let x = std::panic::AssertUnwindSafe(r.wait_for_shutdown_result()); use futures::FutureExt; ok = x.catch_unwind().await.is_ok() });
        ex.run();
        drop(ex);
        check(ok, "waiting for the shutdown result does not panic");
        reach("end");
    }
    c06_deprecated {
        let (r, run, _) = prepare(Probe::new(1), 0);
        let mut ex = Exec::new(2);
        ex.spawn(run);
        let r2 = r.clone();
        let t = ex.spawn(async move { r2.wait_for_stop().await });
        ex.run();
        check(!ex.done(t), "the older name of waiting for shutdown waits for shutdown");
        r.kill();
        ex.run();
        check(ex.done(t), "the older name of waiting for shutdown waits for shutdown");
        let (r, run, _) = prepare(Probe::with(2, Cfg { start: Hook::Err, ..Cfg::default() }), 0);
        let mut ex = Exec::new(2);
        let r2 = r.clone();
        let t = ex.spawn(async move { check(r2.wait_startup_result().await == Err(Code(START_ERR)), "the older name of waiting for startup waits for startup"); r2.wait_startup().await });
        ex.run();
        check(!ex.done(t), "the older name of waiting for startup waits for startup");
        ex.spawn(run);
        ex.run();
        check(ex.done(t), "the older name of waiting for startup waits for startup");
        reach("end");
    }
}
