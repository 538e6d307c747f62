//! C10: link notifications; C11: the default link policy; C12: linking is symmetric, idempotent and never deadlocks.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;

/// An actor with the default link policy.
pub struct Def { pub a: u8 }
impl Actor for Def {
    type Error = Code;
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(self.a, why(&r))); Ok(()) }
}
impl Message<S> for Def {
    type Reply = u64;
    async fn handle(&mut self, m: S, _: &mut Context<Self, u64>) -> u64 { if m.1 == K::Panic { std::panic::panic_any(Code(m.0)) } m.0 }
}
pub fn prepare_def(a: u8, cap: usize) -> (ActorRef<Def>, impl std::future::Future<Output = ()>) {
    let pa = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
    let r = pa.actor_ref().clone();
    (r, async move { pa.run(Def { a }).await; })
}
/// Stop actor in one of four ways; the reason it should stop with.
async fn end<A: Actor + Message<S>>(r: ActorRef<A>, how: usize) -> Why {
    match how {
        0 => { r.stop_gracefully().await.unwrap(); Why::Normal }
        1 => { r.kill(); Why::Killed }
        2 => { r.tell(S(77, K::Panic)).send().await.unwrap(); Why::Panicked(77) }
        _ => { drop(r); Why::Normal }
    }
}

crate::sym::harnesses! {
    // Symbolic linking and unlinking among three actors, then one of them ends in a symbolic way.
    c10_notify {
        let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
        let cap = [0, 2][choose(2, "cap")];
        let (ra, runa, outa) = prepare(Probe::with(1, Cfg { stop: [Hook::Ok, Hook::Panic][choose(2, "stop")], ..cfg.clone() }), cap);
        let (rb, runb, _) = prepare(Probe::with(2, cfg.clone()), cap);
        let (rc, runc, _) = prepare(Probe::with(3, cfg), cap);
        let ida = ra.id();
        let (ops, how): (Vec<usize>, usize) = ((0..2).map(|_| choose(5, "op")).collect(), choose(4, "end"));
        let (mut lb, mut lc) = (false, false);
        for o in &ops { match o { 0 | 1 => lb = true, 2 | 3 => lc = true, _ => lb = false } }
        let mut ex = Exec::new(b(3, 5));
        let ta = ex.spawn(runa);
        ex.spawn(runb);
        ex.spawn(runc);
        let early = flip("early");
        let wp = Arc::new(Mutex::new(Why::Other));
        {
            let (ra, rb, rc) = (ra.clone(), rb.clone(), rc.clone());
            let t = ex.spawn(async move {
                for o in ops { match o { 0 => ra.link(&rb).await, 1 => rb.link(&ra).await, 2 => ra.link(&rc).await, 3 => rc.link(&ra).await, _ => rb.unlink(&ra).await } }
            });
            if early { ex.drive(t) } else { ex.run() }
            check(ex.done(t), "linking completes");
        }
        let w2 = wp.clone();
        ex.spawn(async move { *w2.lock().unwrap() = end(ra, how).await });
        ex.run();
        check(ex.done(ta), "the actor stops");
        let want = wp.lock().unwrap().clone();
        check(outa.why() == Some(want.clone()), "the actor stops for the cause given");
        check(linkdeaths(2) == if lb { vec![(ida, want.clone())] } else { vec![] }, "an actor hears of a death exactly once if it is linked and never otherwise");
        check(linkdeaths(3) == if lc { vec![(ida, want)] } else { vec![] }, "an actor hears of a death exactly once if it is linked and never otherwise");
        check(linkdeaths(1).is_empty(), "the dead actor hears nothing");
        reach("end");
    }
    // The linked actor's mailbox is full and it is busy: the notification waits for room, but the dead actor's shutdown does not.
    c10_full {
        let g = Gate::default();
        let (ra, runa, _) = prepare(Probe::new(1), 0);
        let (rb, runb, _) = prepare(Probe::with(2, Cfg { link: Policy::Continue, ..Cfg::default() }), 1);
        let ida = ra.id();
        let mut ex = Exec::new(b(4, 6));
        ex.spawn(runa);
        ex.spawn(runb);
        let (a2, b2) = (ra.clone(), rb.clone());
        ex.spawn(async move { a2.link(&b2).await });
        let c = ex.choices; ex.choices = 0;
        ex.run();
        rb.tell(G(1, g.clone())).try_send().ok().unwrap();
        ex.run();
        rb.tell(M(2)).try_send().unwrap();
        ex.choices = c;
        let how = choose(3, "end");
        let mut want = Why::Other;
        let (r, wp) = (ra.clone(), Arc::new(Mutex::new(Why::Other)));
        let w2 = wp.clone();
        ex.spawn(async move { *w2.lock().unwrap() = end(r, how).await });
        let a3 = ra.clone();
        let t = ex.spawn(async move { a3.wait_for_shutdown().await });
        ex.run();
        std::mem::swap(&mut want, &mut wp.lock().unwrap());
        check(ex.done(t) && !ra.is_alive(), "a busy linked actor does not hold up the shutdown");
        check(linkdeaths(2).is_empty(), "no notification while the linked actor is busy");
        check(ra.tell(M(3)).try_send() == Err(SendError::ActorNotRunning(M(3))), "a dead actor accepts no messages");
        g.open();
        ex.run();
        check(linkdeaths(2) == vec![(ida, want)], "the notification is delivered once there is room");
        check(handled(2) == vec![1, 2], "messages queued before the notification are handled");
        reach("end");
    }
    // Two actors linked to each other and to a third, all with the smallest mailbox, dying at the same time.
    c10_simultaneous {
        let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
        let (ra, runa, outa) = prepare(Probe::with(1, cfg.clone()), 1);
        let (rb, runb, outb) = prepare(Probe::with(2, cfg.clone()), 1);
        let (rc, runc, _) = prepare(Probe::with(3, cfg), 1);
        let (ida, idb) = (ra.id(), rb.id());
        let mut ex = Exec::new(0);
        let (ta, tb, tc) = (ex.spawn(runa), ex.spawn(runb), ex.spawn(runc));
        { let (ra, rb, rc) = (ra.clone(), rb.clone(), rc.clone());
          ex.spawn(async move { ra.link(&rb).await; rc.link(&ra).await; rb.link(&rc).await }); }
        ex.run();
        ex.choices = b(6, 9);
        let (ha, hb) = (choose(4, "end a"), choose(4, "end b"));
        // fill the third actor's mailbox
        if flip("full") { rc.tell(M(1)).try_send().unwrap() }
        ex.spawn(async move { end(ra, ha).await; });
        ex.spawn(async move { end(rb, hb).await; });
        ex.run();
        check(ex.done(ta) && ex.done(tb), "linked actors that die together both finish");
        check(!ex.done(tc), "the third actor carries on");
        let d = linkdeaths(3);
        check(d.len() == 2, "every death is heard of exactly once");
        check(d.contains(&(ida, outa.why().unwrap())) && d.contains(&(idb, outb.why().unwrap())), "each death is reported with its reason");
        check(linkdeaths(1).len() <= 1 && linkdeaths(2).len() <= 1, "no death is heard of twice");
        drop(rc);
        ex.run();
        check(ex.done(tc), "links do not keep an actor alive");
        reach("end");
    }
    // Linked and unlinked while the actor is stopping: what counts is what holds once it has stopped.
    c10_stopping {
        let g = Gate::default();
        let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
        let (ra, runa, outa) = prepare(Probe::with(1, Cfg { stop: [Hook::Ok, Hook::Err, Hook::Panic][choose(3, "stop")], stop_gate: Some(g.clone()), ..cfg.clone() }), [0, 1][choose(2, "cap")]);
        let (rb, runb, _) = prepare(Probe::with(2, cfg), [0, 1][choose(2, "cap of the other")]);
        let (ida, mut linked, how) = (ra.id(), flip("linked"), choose(3, "end"));
        let mut ex = Exec::new(b(3, 6));
        let ta = ex.spawn(runa);
        let tb = ex.spawn(runb);
        if linked { let (ra, rb) = (ra.clone(), rb.clone()); let t = ex.spawn(async move { ra.link(&rb).await }); ex.drive(t) }
        { let ra = ra.clone(); ex.spawn(async move { end(ra, how).await; }); }
        ex.run();
        check(g.waiting() == 1, "the actor is stopping");
        let ops: Vec<_> = (0..b(1, 2)).map(|_| choose(5, "op while stopping")).collect();
        for o in &ops { match o { 0 | 1 => linked = true, 2 | 3 => linked = false, _ => {} } }
        let (a2, b2, o2) = (ra.clone(), rb.clone(), ops.clone());
        let t = ex.spawn(async move {
            for o in o2 { match o { 0 => a2.link(&b2).await, 1 => b2.link(&a2).await, 2 => a2.unlink(&b2).await, 3 => b2.unlink(&a2).await, _ => {} } }
        });
        ex.run();
        check(ex.done(t), "linking with a stopping actor completes");
        check(linkdeaths(2).is_empty(), "nobody hears of a death before it");
        g.open();
        ex.run();
        check(ex.done(ta) && !ra.is_alive(), "the actor stops");
        check(linkdeaths(2) == if linked { vec![(ida, outa.why().unwrap())] } else { vec![] }, "who is linked when an actor dies hears of it exactly once, nobody else");
        let (a3, b3) = (ra.clone(), rb.clone());
        let late = flip("late");
        if late { let t = ex.spawn(async move { b3.link(&a3).await }); ex.run(); check(ex.done(t), "linking with a stopped actor completes") }
        rb.kill();
        ex.run();
        check(ex.done(tb) && linkdeaths(1).is_empty() && linkdeaths(2).len() <= 1, "a stopped actor hears nothing");
        reach("end");
    }
    // An actor that fails to start, linked before it runs.
    c10_failed_start {
        let (rb, runb, _) = prepare(Probe::with(2, Cfg { link: Policy::Continue, ..Cfg::default() }), [0, 1][choose(2, "cap")]);
        let pol = [Policy::Default, Policy::Continue, Policy::Break, Policy::Err][choose(4, "policy")];
        let (ra, runa, outa) = prepare(Probe::with(1, Cfg { start: [Hook::Err, Hook::Panic, Hook::Ok][choose(3, "start")], panic: pol, ..Cfg::default() }), 0);
        let ida = ra.id();
        let mut ex = Exec::new(b(5, 7));
        ex.spawn(runb);
        let (a2, b2) = (ra.clone(), rb.clone());
        let t = ex.spawn(async move { a2.link(&b2).await });
        ex.drive(t);
        let ta = ex.spawn(runa);
        drop(ra);
        ex.run();
        check(ex.done(ta), "the actor stops");
        check(linkdeaths(2) == vec![(ida, outa.why().unwrap())], "linked actors hear of a failed start exactly once, with its reason");
        drop(rb);
        reach("end");
    }
    // spawn_link: the child cannot die unnoticed. Also threads of links in both directions, dying parent first.
    c10_spawn_link {
        let start = [Hook::Ok, Hook::Err, Hook::Panic, Hook::Yield][choose(4, "start")];
        let which = flip("unbounded");
        let first = flip("parent first");
        let kill = flip("kill");
        block_on(async move {
            let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
            let p = kameo::actor::spawn_with_mailbox(Probe::with(1, cfg.clone()), mailbox::unbounded());
            let child = Probe::with(2, Cfg { start, ..cfg });
            let c = if which { kameo::actor::spawn_link_with_mailbox(&p, child, mailbox::unbounded()).await } else { kameo::actor::spawn_link(&p, child).await };
            let (pid, cid) = (p.id(), c.id());
            if flip("wait") { c.wait_for_startup().await }
            if first && kill { p.kill() } else if first { p.stop_gracefully().await.unwrap() } else if kill { c.kill() } else { let _ = c.stop_gracefully().await; }
            settle().await;
            let failed = start == Hook::Err || start == Hook::Panic;
            if first && !failed {
                let w = if kill { Why::Killed } else { Why::Normal };
                check(linkdeaths(2) == vec![(pid, w)], "a child hears of its parent's death once");
                check(linkdeaths(1).is_empty(), "no other notification");
            } else if !first {
                let w = if failed { Why::Panicked(START_ERR) } else if kill { Why::Killed } else { Why::Normal };
                check(linkdeaths(1) == vec![(cid, w)], "a parent hears of its child's death once, with its reason");
                check(p.is_alive(), "the parent carries on");
            } else { check(linkdeaths(1).len() <= 1, "no notification is repeated") }
        });
        reach("end");
    }
    // When a notification is being handled the dead actor is no longer alive and refuses messages; unlinking concurrently with a death is safe.
    c10_refuses {
        struct Watch { peer: Option<ActorRef<Probe>> }
        impl Actor for Watch {
            type Error = Code;
            async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, r: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::LinkDied(2, id, why(&r)));
                if let Some(p) = &self.peer {
                    check(p.id() == id, "the notification names the dead actor");
                    check(!p.is_alive(), "a dead actor is not alive when its links hear of it");
                    check(p.tell(M(3)).send().await == Err(SendError::ActorNotRunning(M(3))), "a dead actor refuses messages when its links hear of it");
                    p.wait_for_shutdown().await;
                    check(stops(1).len() == 1, "its stop hook has run when its links hear of it");
                }
                Ok(ControlFlow::Continue(()))
            }
        }
        let g = Gate::default();
        let gated = flip("gated");
        let (ra, runa, _) = prepare(Probe::with(1, Cfg { stop: [Hook::Ok, Hook::Yield, Hook::Err][choose(3, "stop")], stop_gate: if gated { Some(g.clone()) } else { None }, ..Cfg::default() }), [0, 1][choose(2, "cap")]);
        let pa = PreparedActor::new(mailbox::unbounded());
        let rb = pa.actor_ref().clone();
        let how = choose(4, "end");
        let peer = if how == 3 { None } else { Some(ra.clone()) };
        let mut ex = Exec::new(b(5, 8));
        let ta = ex.spawn(runa);
        ex.spawn(async move { pa.run(Watch { peer }).await; });
        let unlink = flip("unlink");
        let (a2, b2) = (ra.downgrade(), rb.clone());
        let (a3, b3) = (ra.clone(), rb.clone());
        let t = ex.spawn(async move { a3.link(&b3).await });
        ex.drive(t);
        ex.spawn(async move { end(ra, how).await; });
        if unlink { ex.spawn(async move { if let Some(a) = a2.upgrade() { a.unlink(&b2).await } }); }
        ex.run();
        if gated { check(linkdeaths(2).is_empty(), "links hear of a death after the stop hook"); g.open(); ex.run() }
        check(ex.done(ta), "the actor stops");
        let n = linkdeaths(2).len();
        check(n == 1 || (unlink && n == 0), "a linked actor hears of a death exactly once");
        reach("end");
    }
    // The default policy on a chain or a cycle of three.
    c11_default {
        let caps = [0, 1][choose(2, "cap")];
        let (ra, runa, outa) = prepare(Probe::with(1, Cfg { link: Policy::Continue, start: [Hook::Ok, Hook::Err][choose(2, "start")], ..Cfg::default() }), 0);
        let (rb, runb) = prepare_def(2, caps);
        let (rc, runc) = prepare_def(3, caps);
        let (ida, idb, idc) = (ra.id(), rb.id(), rc.id());
        let cycle = flip("cycle");
        let mut ex = Exec::new(b(4, 7));
        { let (ra, rb, rc) = (ra.clone(), rb.clone(), rc.clone());
          let t = ex.spawn(async move { ra.link(&rb).await; rb.link(&rc).await; if cycle { rc.link(&ra).await } });
          ex.drive(t); }
        let (ta, tb, tc) = (ex.spawn(runa), ex.spawn(runb), ex.spawn(runc));
        let how = choose(4, "end");
        ex.spawn(async move { match how { 0 => { let _ = ra.stop_gracefully().await; } 1 => ra.kill(), 2 => { let _ = ra.tell(S(77, K::Panic)).send().await; } _ => drop(ra) } });
        ex.run();
        check(ex.done(ta), "the actor stops");
        let w = outa.why().unwrap();
        if w == Why::Normal {
            check(!ex.done(tb) && !ex.done(tc) && stops(2).is_empty() && stops(3).is_empty(), "a normal end of a linked actor is ignored");
            drop(rb); drop(rc);
            ex.run();
            check(stops(2) == vec![Why::Normal] && stops(3) == vec![Why::Normal], "links do not keep actors alive nor change how they end");
        } else {
            check(ex.done(tb) && ex.done(tc), "a failure propagates along links");
            check(stops(2).len() == 1 && stops(3).len() == 1 && stops(1).len() == 1, "every actor stops exactly once");
            let ld = |i, w: &Why| Why::LinkDied(i, Box::new(w.clone()));
            let (b1, c1) = (stops(2)[0].clone(), stops(3)[0].clone());
            let bd = ld(ida, &w);
            check(b1 == bd || (cycle && b1 == ld(idc, &ld(ida, &w))), "the reason names the dead actor and nests its reason");
            check(c1 == ld(idb, &bd) || (cycle && c1 == bd), "the reason names the dead actor and nests its reason");
            check(!rb.is_alive() && !rc.is_alive(), "actors stopped by a link are not alive");
        }
        check(linkdeaths(1).len() <= if cycle { 2 } else { 1 }, "no repeated notifications");
        reach("end");
    }
    // A customised policy decides; failures of it are contained and go to the panic hook.
    c11_policy {
        struct P { pol: usize, panic: Policy }
        impl Actor for P {
            type Error = Code;
            async fn on_link_died(&mut self, r: WeakActorRef<Self>, id: ActorID, w: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::LinkDied(2, id, why(&w)));
                if self.pol >= 4 { yield_().await }
                match self.pol % 4 {
                    0 => Ok(ControlFlow::Continue(())),
                    1 => Ok(ControlFlow::Break(w)),
                    2 => Err(Code(LINK_ERR)),
                    _ => { check(r.id() != id, "the hook gets its own reference"); std::panic::panic_any(Code(LINK_ERR)) }
                }
            }
            async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
                log(Ev::Panic(2, code_of(&e)));
                match self.panic { Policy::Continue => Ok(ControlFlow::Continue(())), Policy::Err => Err(Code(PANIC_ERR)), Policy::Break => Ok(ControlFlow::Break(ActorStopReason::Normal)), _ => Ok(ControlFlow::Break(ActorStopReason::Panicked(e))) }
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(2, why(&r))); Ok(()) }
        }
        impl Message<M> for P { type Reply = u64; async fn handle(&mut self, m: M, _: &mut Context<Self, u64>) -> u64 { log(Ev::Msg(2, m.0)); m.0 } }
        let (pol, panic) = (choose(8, "pol"), [Policy::Default, Policy::Continue, Policy::Break, Policy::Err][choose(4, "panic")]);
        let (ra, runa, outa) = prepare(Probe::new(1), 0);
        let (rc, runc, _) = prepare(Probe::with(3, Cfg { link: Policy::Continue, ..Cfg::default() }), 0);
        let pa = PreparedActor::new(mailbox::unbounded());
        let rb = pa.actor_ref().clone();
        let (ida, idb) = (ra.id(), rb.id());
        let mut ex = Exec::new(b(3, 6));
        ex.spawn(runa);
        ex.spawn(runc);
        let tb = ex.spawn(async move { pa.run(P { pol, panic }).await; });
        { let (ra, rb, rc) = (ra.clone(), rb.clone(), rc.clone()); ex.spawn(async move { ra.link(&rb).await; rc.link(&rb).await }); }
        ex.run();
        let how = choose(3, "end");
        ex.spawn(async move { end(ra, how).await; });
        ex.run();
        let w = outa.why().unwrap();
        check(linkdeaths(2) == vec![(ida, w.clone())], "the policy is asked once");
        let fails = pol % 4 >= 2;
        let want = match pol % 4 {
            0 => None,
            1 => Some(w),
            _ => match panic { Policy::Continue => None, Policy::Err => Some(Why::Panicked(PANIC_ERR)), Policy::Break => Some(Why::Normal), Policy::Default => Some(Why::Panicked(LINK_ERR)) },
        };
        // a policy that breaks with a panic as the reason is asked about that panic too
        let relayed = pol % 4 == 1 && how == 2;
        if !relayed {
            check(count(|e| matches!(e, Ev::Panic(2, _))) == fails as usize, "a failing policy is reported to the panic hook once");
            match &want {
                Some(w) => check(ex.done(tb) && stops(2) == vec![w.clone()], "the policy decides whether and why the actor stops"),
                None => { check(!ex.done(tb) && stops(2).is_empty(), "the policy decides whether and why the actor stops");
                    let r = rb.clone();
                    let t = ex.spawn(async move { check(r.ask(M(5)).send().await == Ok(5), "an actor whose policy continues carries on") });
                    ex.run();
                    check(ex.done(t), "an actor whose policy continues carries on"); }
            }
        }
        if ex.done(tb) { check(linkdeaths(3) == vec![(idb, stops(2)[0].clone())], "an actor stopped by its link policy notifies its own links") } else { check(linkdeaths(3).is_empty(), "no notification of a live actor") }
        reach("end");
    }
    // Any sequence of linking and unlinking from either side.
    c12_ops {
        let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
        let (ra, runa, outa) = prepare(Probe::with(1, cfg.clone()), 0);
        let (rb, runb, _) = prepare(Probe::with(2, cfg.clone()), 0);
        let (rc, runc, _) = prepare(Probe::with(3, cfg), 0);
        let mut ex = Exec::new(0);
        let ops: Vec<usize> = (0..b(3, 4)).map(|_| choose(7, "op")).collect();
        let mut linked = false;
        for o in &ops { match o { 0 | 1 | 5 => linked = true, 2 | 3 | 6 => linked = false, _ => {} } }
        let run_first = flip("run first");
        let mut ts = vec![];
        let (mut runa, mut runb) = (Some(runa), Some(runb));
        if run_first { ts.push(ex.spawn(runa.take().unwrap())); ts.push(ex.spawn(runb.take().unwrap())); ex.run() }
        ex.spawn(runc);
        let (a2, b2) = (ra.clone(), rb.clone());
        let t = ex.spawn(async move {
            a2.link(&rc).await; // a bystander
            for o in ops { match o { 0 => a2.link(&b2).await, 1 => b2.link(&a2).await, 2 => a2.unlink(&b2).await, 3 => b2.unlink(&a2).await, 4 => { a2.link(&a2).await; b2.unlink(&b2.clone()).await }
                5 => b2.blocking_link(&a2), _ => a2.blocking_unlink(&b2) } }
            std::mem::forget(rc);
        });
        ex.run();
        check(ex.done(t), "linking completes");
        if !run_first { ts.push(ex.spawn(runa.take().unwrap())); ts.push(ex.spawn(runb.take().unwrap())); ex.run() }
        let (ida, idb) = (ra.id(), rb.id());
        let who = flip("who");
        if who { ra.kill() } else { rb.kill() }
        ex.run();
        if who {
            check(ex.done(ts[0]) && linkdeaths(2) == if linked { vec![(ida, Why::Killed)] } else { vec![] }, "either side's last operation decides whether a death is heard of, once");
            check(linkdeaths(3) == vec![(ida, outa.why().unwrap())], "other links are unaffected");
        } else {
            check(ex.done(ts[1]) && linkdeaths(1) == if linked { vec![(idb, Why::Killed)] } else { vec![] }, "either side's last operation decides whether a death is heard of, once");
            check(linkdeaths(3).is_empty(), "other links are unaffected");
            ra.kill();
            ex.run();
            check(linkdeaths(2).is_empty() && linkdeaths(1).len() == linked as usize, "a link to a dead actor is gone");
        }
        check(linkdeaths(1).iter().all(|d| d.0 != ida), "an actor linked to itself hears nothing of itself");
        reach("end");
    }
    // Concurrent operations on the same two (and a third) actors, each suspended between its lock acquisitions wherever
    // the runtime's cooperative budget can suspend it.
    c12_deadlock {
        let (o1, o2) = (choose(4, "op1"), choose(4, "op2"));
        let (n1, n2) = (125 + choose(4, "budget1"), 125 + choose(4, "budget2"));
        let die = choose(3, "die");
        block_on(async move {
            let a = kameo::actor::spawn_with_mailbox(Probe::with(1, Cfg { link: Policy::Continue, ..Cfg::default() }), mailbox::unbounded());
            let c = kameo::actor::spawn_with_mailbox(Probe::with(2, Cfg { link: Policy::Continue, ..Cfg::default() }), mailbox::unbounded());
            a.wait_for_startup().await;
            c.wait_for_startup().await;
            async fn op(o: usize, n: usize, a: ActorRef<Probe>, c: ActorRef<Probe>) {
                tokio::task::yield_now().await;
                for _ in 0..n { tokio::task::consume_budget().await }
                match o { 0 => a.link(&c).await, 1 => c.link(&a).await, 2 => a.unlink(&c).await, _ => c.unlink(&a).await }
            }
            let j1 = tokio::spawn(op(o1, n1, a.clone(), c.clone()));
            let j2 = tokio::spawn(op(o2, n2, a.clone(), c.clone()));
            if die == 1 { a.kill() }
            if die == 2 { tokio::task::yield_now().await; c.kill() }
            settle().await;
            check(j1.is_finished() && j2.is_finished(), "concurrent linking and unlinking always completes");
            let _ = a.stop_gracefully().await;
            let _ = c.stop_gracefully().await;
            settle().await;
            check(!a.is_alive() && !c.is_alive(), "actors being linked can stop");
            check(linkdeaths(1).len() <= 1 && linkdeaths(2).len() <= 1, "no death is heard of twice");
        });
        reach("end");
    }
}
