//! Several OS threads. Interrupted before any atomic operation, as often as `preempt` says.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use kameo::registry::ACTOR_REGISTRY;
use std::future::Future;
use std::task::{Context as Cx, Poll, Wake, Waker};
use std::thread::{self, JoinHandle, Thread};

struct Unpark(Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) { self.0.unpark() }
    fn wake_by_ref(self: &Arc<Self>) { self.0.unpark() }
}
/// Run a future on this thread.
pub fn wait<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = Waker::from(Arc::new(Unpark(thread::current())));
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Cx::from_waker(&w)) { return v }
        thread::park();
    }
}
pub fn go<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> { thread::spawn(f) }

/// The log is shared between the threads: each event is a point of interruption, too.
fn of(h: &[u64], k: u64) -> Vec<u64> { h.iter().copied().filter(|v| v / 10 == k).collect() }

harnesses! {
    c16_registry_mt {
        let (p, _prun, _) = prepare(Probe::new(1), 0);
        let (q, _qrun, _) = prepare(Probe::new(2), 0);
        let (pid, qid) = (p.id(), q.id());
        let remove = flip("remove");
        ACTOR_REGISTRY.lock().unwrap().len();
        preempt(b(1, 2));
        let a = go(move || {
            p.register("x").unwrap();
            ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id())
        });
        let c = go(move || {
            if remove {
                let there = ACTOR_REGISTRY.lock().unwrap().remove("x");
                (there, ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id()))
            } else {
                q.register("x").unwrap();
                (true, ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id()))
            }
        });
        let (a, (there, c)) = (a.join().unwrap(), c.join().unwrap());
        let end = ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id());
        if remove {
            check(end == if there { None } else { Some(pid) }, "a name is found unless it was removed after it was registered");
            check((a == Some(pid) || (there && a.is_none())) && (c.is_none() || (!there && c == Some(pid))), "looking up agrees with some order of the operations");
        } else {
            check(a.is_some() && c.is_some(), "a registered name is found");
            check(end == Some(pid) || end == Some(qid), "one of the actors is registered");
            check((a == Some(pid) || end == Some(qid)) && (c == Some(qid) || end == Some(pid)), "the actor found is the last one registered");
        }
        reach("end");
    }
    // A name that is registered is found all the time while another actor takes it over.
    c16_replaced_mt {
        let (p, _prun, _) = prepare(Probe::new(1), 0);
        let (q, _qrun, _) = prepare(Probe::new(2), 0);
        let (pid, qid) = (p.id(), q.id());
        let global = flip("global");
        p.register("x").unwrap();
        preempt(b(2, 3));
        let c = go(move || if global { ACTOR_REGISTRY.lock().unwrap().insert("x", q) } else { q.register("x").unwrap(); true });
        let first = ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id());
        let there = ACTOR_REGISTRY.lock().unwrap().contains_name("x");
        let second = ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id());
        check(c.join().unwrap(), "registering a taken name reports that it was taken");
        check(first.is_some() && second.is_some() && there, "a registered name is found at any time");
        check([Some(pid), Some(qid)].contains(&first) && [first, Some(qid)].contains(&second), "the actor found is the last one registered");
        check(ActorRef::<Probe>::lookup("x").unwrap().map(|r| r.id()) == Some(qid), "the actor found is the last one registered");
        reach("end");
    }
    c15_unique_mt {
        preempt(b(2, 4));
        let a = go(|| { let (p, _run, _) = prepare(Probe::new(1), 0); let (q, _run, _) = prepare(Probe::new(2), 0); (p.id(), q.id()) });
        let c = go(|| { let (p, _run, _) = prepare(Probe::new(3), 0); let (q, _run, _) = prepare(Probe::new(4), 0); (p.id(), q.id()) });
        let ((w, x), (y, z)) = (a.join().unwrap(), c.join().unwrap());
        check(w != x && w != y && w != z && x != y && x != z && y != z, "identities are unique");
        reach("end");
    }
    c01_fifo_mt {
        let (r, run, out) = prepare(Probe::new(1), choose(2, "cap"));
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || {
            let first = s.tell(M(10)).try_send().is_ok();
            (first, s.tell(M(11)).try_send().is_ok())
        });
        for i in 0..2 { wait(async { r.tell(M(20 + i)).send().await }).unwrap() }
        let (x, y) = a.join().unwrap();
        drop(r);
        act.join().unwrap();
        let h = handled(1);
        let mut sent = vec![];
        if x { sent.push(10) }
        if y { sent.push(11) }
        check(of(&h, 2) == [20, 21] && of(&h, 1) == sent, "every message accepted is handled once, in the order of its sender");
        check(out.why() == Some(Why::Normal), "the actor ends normally");
        reach("end");
    }
    c01_stop_mt {
        let (r, run, out) = prepare(Probe::new(1), [0, 2][choose(2, "cap")]);
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || {
            let first = s.tell(M(10)).blocking_send().is_ok();
            (first, s.tell(M(11)).blocking_send().is_ok())
        });
        wait(async { r.tell(M(20)).send().await.unwrap(); r.stop_gracefully().await.unwrap() });
        act.join().unwrap();
        let (x, y) = a.join().unwrap();
        let h = handled(1);
        check(of(&h, 2) == [20], "what was sent before stopping is handled");
        check(h.len() <= 3 && [vec![], vec![10], vec![10, 11]].contains(&of(&h, 1)), "other messages are handled at most once and in order");
        check((x || !h.contains(&10)) && (y || !h.contains(&11)) && (x || !y), "a message refused is not handled");
        check(out.why() == Some(Why::Normal) && !r.is_alive() && r.tell(M(30)).try_send() == Err(SendError::ActorNotRunning(M(30))), "the actor has stopped");
        reach("end");
    }
    c04_priority_mt {
        let (r, run, _) = prepare(Probe::with(1, Cfg { self_tell: vec![1, 2], ..Cfg::default() }), [0, 6][choose(2, "cap")]);
        preempt(b(2, 3));
        let act = go(move || wait(run));
        for i in 0..2 { r.tell(M(20 + i)).blocking_send().unwrap() }
        drop(r);
        act.join().unwrap();
        let h = handled(1);
        check(of(&h, 2) == [20, 21] && of(&h, 0) == [1, 2], "nothing sent during startup is lost, duplicated or reordered");
        // only messages sent while starting are overtaken, yet none of them can precede the actor's own
        check(h == [1, 2, 20, 21], "messages to itself come first");
        reach("end");
    }
    c05_wait_mt {
        let how = choose(3, "hook");
        let (r, run, _) = prepare(Probe::with(1, Cfg { start: [Hook::Ok, Hook::Err, Hook::Yield][how], ..Cfg::default() }), 0);
        let way = choose(2, "way");
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let w = go(move || wait(async move {
            if way == 0 { s.wait_for_startup().await; (count(|e| matches!(e, Ev::Start(1))) == 1, None) }
            else { let x = s.wait_for_startup_result().await; (count(|e| matches!(e, Ev::Start(1))) == 1, Some(x)) }
        }));
        if flip("late") { r.kill() }
        let (started, res) = w.join().unwrap();
        check(started && (how == 1 || count(|e| matches!(e, Ev::Started(1))) == 1), "waiting for startup ends after the hook");
        if let Some(res) = res { check(res == if how == 1 { Err(Code(START_ERR)) } else { Ok(()) }, "and gives the outcome of the hook") }
        drop(r);
        act.join().unwrap();
        reach("end");
    }
    c06_wait_mt {
        let how = choose(2, "hook");
        let (r, run, out) = prepare(Probe::with(1, Cfg { stop: [Hook::Ok, Hook::Err][how], ..Cfg::default() }), 0);
        let (way, cause) = (choose(2, "way"), choose(2, "cause"));
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let w = go(move || wait(async move {
            let x = if way == 0 { s.wait_for_shutdown().await; None } else { Some(s.wait_for_shutdown_result().await) };
            (count(|e| matches!(e, Ev::Stopped(1))) == 1, s.is_alive(), s.tell(M(9)).try_send().is_err(), x)
        }));
        if cause == 0 { r.kill() } else { wait(r.stop_gracefully()).unwrap() }
        let (ended, alive, refused, res) = w.join().unwrap();
        check(ended, "waiting for shutdown ends after the stop hook");
        check(!alive && refused, "and then the actor is not alive and refuses messages");
        if let Some(res) = res { check(res == if how == 1 { Err(Code(STOP_ERR)) } else { Ok(()) }, "the result is the outcome of the stop hook") }
        act.join().unwrap();
        check(out.why() == Some([Why::Killed, Why::Normal][cause].clone()), "waiting does not stop the actor");
        reach("end");
    }
    c07_outcomes_mt {
        let cause = choose(3, "cause");
        let cap = if cause == 0 { 1 } else { choose(2, "cap") };
        let blocking = if cause == 2 { cap == 1 } else { flip("blocking") };
        let (r, run, _) = prepare(Probe::new(1), cap);
        let v = 7;
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || if blocking { s.ask(M(v)).blocking_send() } else { wait(async { s.ask(M(v)).send().await }) });
        match cause { 0 => check(matches!(wait(async { r.ask(S(50, K::Err)).send().await }), Err(SendError::HandlerError(Code(50)))), "the caller gets the error of its own handler"), 1 => r.kill(), _ => wait(r.stop_gracefully()).unwrap() }
        drop(r);
        let a = a.join().unwrap();
        act.join().unwrap();
        let done = count(|e| matches!(e, Ev::Done(1, x) if *x == v));
        match a {
            Ok(x) => check(x == v.wrapping_add(1) && done == 1, "a success is the reply of the handler, which ran once"),
            Err(SendError::ActorNotRunning(m)) => check(m == M(v) && cause > 0 && !handled(1).contains(&v), "not delivered: the message comes back, the handler did not run"),
            Err(SendError::ActorStopped) => check(cause > 0, "stopped only if the actor was stopped"),
            Err(_) => check(false, "an ask without timeout has no other outcome"),
        }
        reach("end");
    }
    c08_race_mt {
        let cap = choose(2, "cap");
        let (r, run, _) = prepare(Probe::new(1), cap);
        let v = 7;
        let way = choose(3, "way");
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || match way {
            0 => s.tell(M(v)).try_send(),
            1 => s.tell(M(v)).blocking_send(),
            _ => wait(async { s.tell(M(v)).send().await }),
        });
        r.kill();
        let a = a.join().unwrap();
        drop(r);
        act.join().unwrap();
        match a {
            Ok(()) => {}
            Err(SendError::ActorNotRunning(m)) => check(m == M(v) && handled(1).is_empty(), "the message comes back and was not handled"),
            Err(SendError::MailboxFull(m)) => check(m == M(v) && handled(1).is_empty() && way == 0 && cap == 1, "only a full mailbox is full"),
            Err(_) => check(false, "no other outcome"),
        }
        reach("end");
    }
    c10_notify_mt {
        let (a, arun, _) = prepare(Probe::new(1), 1);
        let (c, crun, _) = prepare(Probe::new(2), 1);
        let kill = flip("kill");
        wait(a.link(&c));
        a.tell(M(5)).try_send().unwrap();
        let id = c.id();
        preempt(b(2, 3));
        let ta = go(move || wait(arun));
        if kill { c.kill() } else { drop(c) }
        wait(crun);
        preempt(0);
        wait(a.stop_gracefully()).unwrap();
        drop(a);
        ta.join().unwrap();
        check(linkdeaths(1) == [(id, if kill { Why::Killed } else { Why::Normal })], "a linked actor is notified once, with the reason");
        check(handled(1) == [5] && linkdeaths(2).is_empty(), "and nothing else happens");
        reach("end");
    }
    c10_simultaneous_mt {
        let (a, arun, aout) = prepare(Probe::new(1), 1);
        let (c, crun, cout) = prepare(Probe::new(2), 1);
        wait(a.link(&c));
        let (ai, ci) = (a.id(), c.id());
        c.kill();
        drop((a, c));
        preempt(b(2, 3));
        let ta = go(move || wait(arun));
        wait(crun);
        ta.join().unwrap();
        check(aout.why() == Some(Why::Normal) && cout.why() == Some(Why::Killed), "both end with their own reason");
        check([vec![], vec![(ci, Why::Killed)]].contains(&linkdeaths(1)) && [vec![], vec![(ai, Why::Normal)]].contains(&linkdeaths(2)), "each learns of the other at most once");
        reach("end");
    }
    c12_ops_mt {
        let (a, _arun, _) = prepare(Probe::new(1), 0);
        let (c, crun, _) = prepare(Probe::new(2), 0);
        let (x, y, linked) = (choose(2, "x"), choose(2, "y"), flip("linked"));
        let blocking = flip("blocking");
        if linked { wait(a.link(&c)) }
        let (a2, c2, a3) = (a.clone(), c.clone(), a.clone());
        preempt(b(1, 2));
        let t = go(move || match (x, blocking) {
            (0, false) => wait(a2.link(&c2)),
            (0, true) => a2.blocking_link(&c2),
            (_, false) => wait(a2.unlink(&c2)),
            (_, true) => a2.blocking_unlink(&c2),
        });
        let c3 = c.clone();
        let u = go(move || match (y, blocking) {
            (0, true) => wait(c3.link(&a3)),
            (0, false) => c3.blocking_link(&a3),
            (_, true) => wait(c3.unlink(&a3)),
            (_, false) => c3.blocking_unlink(&a3),
        });
        t.join().unwrap();
        u.join().unwrap();
        preempt(0);
        let id = c.id();
        c.kill();
        wait(crun);
        let (p, arun, _) = (a.clone(), _arun, ());
        drop(a);
        drop(p);
        wait(arun);
        let n = linkdeaths(1);
        check(n.len() <= 1 && n.iter().all(|n| n.0 == id), "at most one notification");
        if x == 0 && y == 0 { check(n.len() == 1, "linked from both sides at once: notified once") }
        if x == 1 && y == 1 { check(n.is_empty(), "unlinked from both sides at once: not notified") }
        reach("end");
    }
    c12_stop_mt {
        let (a, arun, _) = prepare(Probe::new(1), 1);
        let (c, crun, _) = prepare(Probe::new(2), 1);
        let (op, linked) = (choose(2, "op"), flip("linked"));
        if linked { wait(a.link(&c)) }
        let (a2, c2) = (a.clone(), c.clone());
        preempt(b(1, 2));
        let tc = go(move || wait(crun));
        let t = go(move || if op == 0 { wait(a2.link(&c2)) } else { wait(c2.unlink(&a2)) });
        c.kill();
        tc.join().unwrap();
        t.join().unwrap();
        drop((a, c));
        preempt(0);
        wait(arun);
        check(linkdeaths(1).len() <= 1, "at most one notification");
        if linked && op == 0 { check(linkdeaths(1).len() == 1, "linking again leaves it linked") }
        if !linked && op == 1 { check(linkdeaths(1).is_empty(), "never linked: not notified") }
        reach("end");
    }
    c13_upgrade_mt {
        let (r, run, out) = prepare(Probe::new(1), choose(2, "cap"));
        let w = r.downgrade();
        let w2 = w.clone();
        preempt(b(1, 2));
        let act = go(move || wait(run));
        let u = go(move || match w.upgrade() {
            Some(s) => {
                let alive = s.is_alive();
                let counted = s.strong_count() >= 1;
                (true, alive, counted, s.tell(M(7)).blocking_send().is_ok())
            }
            None => (false, true, true, false),
        });
        drop(r);
        let (up, alive, counted, sent) = u.join().unwrap();
        act.join().unwrap();
        check(alive && counted && up == sent, "an upgraded reference keeps the actor alive and can be sent to");
        check(handled(1) == if up { vec![7] } else { vec![] }, "what was sent is handled");
        check(out.why() == Some(Why::Normal), "with the last strong reference gone the actor stops normally");
        check(w2.upgrade().is_none() && w2.strong_count() == 0, "no strong reference is left");
        reach("end");
    }
    c14_kill_mt {
        let (r, run, out) = prepare(Probe::new(1), 0);
        let v = 7;
        preempt(b(1, 2));
        let (s, k) = (r.clone(), r.clone());
        let act = go(move || wait(run));
        let a = go(move || wait(async { s.ask(S(v, K::Yield)).send().await }));
        let k = go(move || { k.kill(); k.kill() });
        wait(r.wait_for_shutdown());
        let alive = r.is_alive();
        check(!alive && stops(1) == [Why::Killed] && count(|e| matches!(e, Ev::Stopped(1))) == 1, "a killed actor stops, its stop hook having run once");
        let a = a.join().unwrap();
        k.join().unwrap();
        act.join().unwrap();
        check(out.why() == Some(Why::Killed), "its reason is having been killed");
        let done = count(|e| matches!(e, Ev::Done(1, _)));
        match a {
            Ok(x) => check(x == v.wrapping_add(1) && done == 1, "an answer is that of the handler"),
            Err(SendError::ActorNotRunning(S(x, _))) => check(x == v && handled(1).is_empty(), "a message refused comes back"),
            Err(SendError::ActorStopped) => check(done <= 1, "or the actor stopped"),
            Err(_) => check(false, "no other outcome"),
        }
        reach("end");
    }
    c14_last_mt {
        let (r, run, out) = prepare(Probe::new(1), choose(2, "cap"));
        let handle = flip("message");
        preempt(b(2, 3));
        let act = go(move || wait(run));
        if handle { r.tell(M(3)).blocking_send().unwrap() }
        r.kill();
        drop(r);
        act.join().unwrap();
        check(out.why() == Some(Why::Killed) && stops(1) == [Why::Killed], "having been killed is the reason, even if no reference is left by then");
        check(handled(1).len() <= handle as usize, "a message is handled at most once");
        reach("end");
    }
    c29_room_mt {
        let (tx, mut rx) = if flip("bounded") { mailbox::bounded::<Probe>(1) } else { mailbox::unbounded() };
        let t2 = tx.clone();
        let weak = tx.downgrade();
        let t3 = weak.clone();
        preempt(b(1, 2));
        let a = go(move || match weak.upgrade() {
            Some(s) => { check(s.strong_count() >= 1 && !s.is_closed(), "an upgraded sender counts"); true }
            None => false,
        });
        let c = go(move || { let s = t2.clone(); drop(t2); check(s.same_channel(&s) && s.strong_count() >= 1, "a sender counts") });
        drop(tx);
        check(wait(rx.recv()).is_none(), "with all senders gone the mailbox is closed");
        check(rx.sender_strong_count() == 0 && t3.upgrade().is_none(), "no sender is left");
        a.join().unwrap();
        c.join().unwrap();
        reach("end");
    }
    c03_contained_mt {
        let goes_on = flip("goes on");
        let (r, run, out) = prepare(Probe::with(1, Cfg { panic: if goes_on { Policy::Continue } else { Policy::Default }, ..Cfg::default() }), 0);
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || wait(async { s.ask(S(5, K::Panic)).send().await }));
        let other = wait(async { r.ask(S(6, K::Ok)).send().await });
        drop(r);
        check(matches!(a.join().unwrap(), Err(SendError::ActorStopped)), "who asked for what panicked gets an error");
        act.join().unwrap();
        check(out.why() == Some(if goes_on { Why::Normal } else { Why::Panicked(5) }), "the policy decides whether the actor stops");
        check(count(|e| matches!(e, Ev::Panic(1, 5))) == 1 && count(|e| matches!(e, Ev::Panic(..))) == 1, "the panic hook sees it once");
        let h = handled(1);
        match other {
            Ok(v) => check(v == 7 && h.contains(&6), "another caller gets its reply"),
            Err(SendError::ActorNotRunning(S(6, _))) | Err(SendError::ActorStopped) => check(!goes_on && h == [5], "or learns that the actor stopped before its turn"),
            _ => check(false, "no other outcome"),
        }
        reach("end");
    }
    c09_room_mt {
        let (r, run, out) = prepare(Probe::new(1), 1);
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || { for i in 0..2 { s.tell(M(10 + i)).blocking_send().unwrap() } });
        wait(async { for i in 0..2 { r.tell(M(20 + i)).send().await.unwrap() } });
        drop(r);
        a.join().unwrap();
        act.join().unwrap();
        let h = handled(1);
        check(h.len() == 4 && of(&h, 1) == [10, 11] && of(&h, 2) == [20, 21], "waiting senders all get room, in order");
        check(out.why() == Some(Why::Normal), "the actor ends normally");
        reach("end");
    }
    c11_chain_mt {
        let (a, arun, _) = prepare(Probe::new(1), 0);
        let (c, crun) = crate::c_link::prepare_def(2, 1);
        let (d, drun) = crate::c_link::prepare_def(3, 0);
        wait(async { a.link(&c).await; c.link(&d).await; if flip("cycle") { d.link(&a).await } });
        let (ai, ci, di) = (a.id(), c.id(), d.id());
        preempt(b(1, 1));
        let tc = go(move || wait(crun));
        let td = go(move || wait(drun));
        a.kill();
        wait(arun);
        tc.join().unwrap();
        td.join().unwrap();
        let dead = |i, w: &Why| Why::LinkDied(i, Box::new(w.clone()));
        check(stops(1) == [Why::Killed] && stops(2).len() == 1 && stops(3).len() == 1, "every actor of the chain stops once");
        let (s2, s3) = (stops(2)[0].clone(), stops(3)[0].clone());
        let (c1, d1) = (dead(ai, &Why::Killed), dead(ai, &Why::Killed));
        check(s2 == c1 || s2 == dead(di, &d1), "for the death of the one before");
        check(s3 == d1 || s3 == dead(ci, &c1), "for the death of the one before");
        check(!c.is_alive() && !d.is_alive(), "and is not alive");
        reach("end");
    }
    c18_share_mt {
        let e = PanicError::new(Box::new(Code(7)));
        let (x, y) = (e.clone(), e.clone());
        let panics = flip("panics");
        preempt(b(2, 3));
        let a = go(move || (x.downcast::<Code>(), x.with_str(|s| s.len())));
        let c = go(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| y.with_downcast_ref(|c: &Code| { if panics { panic!("reader") } c.0 })));
            match r { Ok(v) => v == Some(7), Err(_) => panics }
        });
        let here = e.with_downcast_ref(|c: &Code| c.0);
        check(a.join().unwrap() == (Some(Code(7)), None) && here == Some(7), "readers get the payload at the same time");
        check(c.join().unwrap(), "also one that panics");
        check(e.downcast::<Code>() == Some(Code(7)), "and it stays readable");
        reach("end");
    }
}
