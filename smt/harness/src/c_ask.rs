//! C07: the outcome of an ask; C08: undeliverable messages come back; C09: capacity, backpressure, timeouts.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::future::IntoFuture;
use std::time::Duration;

pub fn ms(n: usize) -> Duration { Duration::from_millis(n as u64) }
type Res = Result<u64, SendError<S, Code>>;
/// Ask in one of the waiting ways. `None`: the request was abandoned.
async fn ask(r: &ActorRef<Probe>, m: S, how: usize) -> Option<Res> {
    let flat = |e: SendError| match e { SendError::ActorNotRunning(()) => SendError::ActorNotRunning(m), SendError::MailboxFull(()) => SendError::MailboxFull(m), SendError::Timeout(t) => SendError::Timeout(t.map(|_| m)), _ => SendError::ActorStopped };
    match how {
        0 => Some(r.ask(m).send().await),
        1 => Some(r.ask(m).try_send().await),
        2 => Some(match r.ask(m).enqueue().await { Ok(p) => p.await, Err(e) => Err(flat(e)) }),
        3 => Some(match r.ask(m).try_enqueue() { Ok(p) => p.await, Err(e) => Err(flat(e)) }),
        4 => Some(r.ask(m).into_future().await),
        _ => { if let Ok(p) = r.ask(m).try_enqueue() { yield_().await; drop(p) } None }
    }
}

crate::sym::harnesses! {
    // One caller in every way and with every handler outcome, another plain caller, and a stop or kill at any point.
    c07_outcomes {
        let cap = [0, 1][choose(2, "cap")];
        let policy = [Policy::Default, Policy::Continue][choose(2, "policy")];
        let (r, run, out) = prepare(Probe::with(1, Cfg { panic: policy, ..Cfg::default() }), cap);
        let (how, k, end) = (choose(6, "how"), kind(choose(4, "kind")), choose(3, "end"));
        let mut ex = Exec::new(b(4, 6));
        let actor = ex.spawn(run);
        let base = 10u64;
        let res = Arc::new(Mutex::new((None, None)));
        let (r1, s1) = (r.clone(), res.clone());
        let t1 = ex.spawn(async move { let x = ask(&r1, S(base, k), how).await; s1.lock().unwrap().0 = x });
        let (r2, s2) = (r.clone(), res.clone());
        let t2 = ex.spawn(async move { let x = r2.ask(S(base ^ 1, K::Yield)).send().await; s2.lock().unwrap().1 = Some(x) });
        if end > 0 {
            let r3 = r.clone();
            ex.spawn(async move { match end { 1 => { let _ = r3.stop_gracefully().await; } _ => r3.kill() } });
        }
        drop(r);
        ex.run();
        check(ex.done(t1) && ex.done(t2), "every ask completes");
        check(ex.done(actor), "the actor stops");
        let g = res.lock().unwrap();
        for (v, k, x, tried) in [(base, k, &g.0, how == 1 || how == 3), (base ^ 1, K::Yield, &g.1, false)] {
            let (ran, done) = (count(|e| *e == Ev::Msg(1, v)), count(|e| *e == Ev::Done(1, v)));
            check(ran <= 1, "a message is handled at most once");
            match x {
                None => {}
                Some(Ok(y)) => check(*y == v.wrapping_add(1) && done == 1, "a successful ask returns the reply of the handler run for its message"),
                Some(Err(SendError::HandlerError(Code(c)))) => check(*c == v && k == K::Err && ran == 1, "a handler error is that of the handler run for the message"),
                Some(Err(SendError::ActorNotRunning(m))) => check(m.0 == v && m.1 == k && ran == 0, "an undelivered message is returned and was not handled"),
                Some(Err(SendError::MailboxFull(m))) => check(m.0 == v && ran == 0 && tried && cap > 0, "a full mailbox is reported only to a caller that would not wait, whose message was not handled"),
                Some(Err(SendError::ActorStopped)) => check(done == 0 || end > 0, "a caller is told that the actor stopped only if it got no reply"),
                Some(Err(SendError::Timeout(_))) => check(false, "no timeout without a timeout"),
            }
            if done == 1 && end != 2 && x.is_some() { check(matches!(x, Some(Ok(_))), "a caller gets the reply of a handler that finished") }
            if end == 0 && (k == K::Ok || k == K::Yield) && policy == Policy::Continue && !tried && x.is_some() { check(matches!(x, Some(Ok(_))), "an ask of a running actor succeeds") }
        }
        check(out.why().is_some(), "the actor finishes");
        reach("end");
    }
    // Pending replies awaited in any order, some abandoned: each gets its own reply.
    c07_pending {
        let n = b(3, 4);
        let (r, run, _) = prepare(Probe::new(1), [0, 4][choose(2, "cap")]);
        let mut ex = Exec::new(b(4, 6));
        let actor = ex.spawn(run);
        let base = u64v("base");
        let drop_at = choose(n + 1, "drop");
        let order = choose([1, 1, 2, 6, 24][n], "order");
        let t = ex.spawn(async move {
            let mut ps = Vec::new();
            for i in 0..n {
                let m = M(base.wrapping_add(i as u64));
                let p = if flip("try") { r.ask(m).try_enqueue() } else { r.ask(m).enqueue().await };
                ps.push(Some(match p { Ok(p) => p, Err(_) => { check(false, "a mailbox with room accepts a request"); return } }));
            }
            if drop_at < n { ps[drop_at] = None }
            let mut left: Vec<usize> = (0..n).collect();
            let mut o = order;
            while !left.is_empty() {
                let i = left.remove(o % left.len()); o /= left.len() + 1;
                if let Some(p) = ps[i].take() { check(p.await == Ok(base.wrapping_add(i as u64 + 1)), "a pending reply is the reply to its own message") }
            }
            drop(ps);
            check(r.ask(M(9)).send().await == Ok(10), "the actor carries on");
        });
        ex.run();
        check(ex.done(t) && ex.done(actor), "every pending reply arrives");
        check(handled(1).len() == n + 1, "an abandoned request is still handled, once");
        reach("end");
    }
    // A caller cancelled at any point disturbs nobody.
    c07_cancelled {
        let cap = [0, 1][choose(2, "cap")];
        let (r, run, _) = prepare(Probe::new(1), cap);
        let mut ex = Exec::new(b(5, 8));
        let actor = ex.spawn(run);
        let r1 = r.clone();
        let k = [K::Ok, K::Yield, K::Err][choose(3, "kind")];
        let t1 = ex.spawn(async move { let _ = r1.ask(S(1, k)).send().await; log(Ev::Note(1, 0)) });
        let r2 = r.clone();
        let ok = Arc::new(Mutex::new(0));
        let ok2 = ok.clone();
        let t2 = ex.spawn(async move { for i in 0..2 { if r2.ask(S(10 + i, K::Yield)).send().await == Ok(11 + i) { *ok2.lock().unwrap() += 1 } } });
        let at = choose(7, "at");
        for _ in 0..at { ex.step(); }
        ex.cancel(t1);
        drop(r);
        ex.run();
        check(ex.done(t2) && *ok.lock().unwrap() == 2, "other callers get their replies when a caller is cancelled");
        check(ex.done(actor), "the actor stops");
        check(handled(1).iter().filter(|v| **v == 1).count() <= 1, "a cancelled request is handled at most once");
        check(count(|e| matches!(e, Ev::Panic(..))) == 0, "an error reply to a cancelled caller does not reach the panic hook");
        reach("end");
    }
    // An actor asking another one: the outcome of the inner ask reaches the outer caller.
    c07_nested {
        struct Outer { inner: ActorRef<Probe> }
        impl Actor for Outer { type Error = Code; }
        impl Message<S> for Outer {
            type Reply = Res;
            async fn handle(&mut self, m: S, _: &mut Context<Self, Res>) -> Res { self.inner.ask(m).send().await }
        }
        let (q, qrun, _) = prepare(Probe::new(2), [0, 1][choose(2, "cap")]);
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let mut ex = Exec::new(b(5, 8));
        let a = ex.spawn(qrun);
        let q2 = q.clone();
        let o = ex.spawn(async move { pa.run(Outer { inner: q2 }).await; });
        let k = kind(choose(4, "kind"));
        let v = u64v("v");
        let end = choose(3, "end");
        let t = ex.spawn(async move {
            let x = r.ask(S(v, k)).send().await;
            let done = count(|e| *e == Ev::Done(2, v)) == 1;
            match x {
                Ok(y) => check(y == v.wrapping_add(1) && done, "a nested ask returns the inner reply"),
                Err(SendError::HandlerError(SendError::HandlerError(Code(c)))) => check(c == v && k == K::Err, "a nested ask returns the inner error"),
                Err(SendError::HandlerError(SendError::ActorStopped)) => check(k == K::Panic || end > 0, "a nested ask tells that the inner actor stopped"),
                Err(SendError::HandlerError(SendError::ActorNotRunning(m))) => check(m.0 == v && end > 0, "a nested ask returns the inner message"),
                _ => check(false, "a nested ask has the inner outcome"),
            }
        });
        if end > 0 { ex.spawn(async move { if end == 1 { let _ = q.stop_gracefully().await; } else { q.kill() } }); } else { drop(q) }
        ex.run();
        check(ex.done(t) && ex.done(o) && ex.done(a), "nested asks complete and both actors stop");
        reach("end");
    }
    // Every way of sending to an actor that is gone.
    c08_dead {
        let how_dead = choose(4, "dead");
        let cap = [0, 1][choose(2, "cap")];
        let (r, run, _) = prepare(Probe::with(1, Cfg { start: if how_dead == 2 { Hook::Err } else { Hook::Ok }, ..Cfg::default() }), cap);
        let mut ex = Exec::new(1);
        match how_dead {
            0 => { ex.spawn(run); ex.run(); r.kill(); }
            1 => { ex.spawn(run); ex.run(); let r = r.clone(); ex.spawn(async move { r.stop_gracefully().await.unwrap() }); }
            2 => { ex.spawn(run); }
            _ => drop(run),
        }
        ex.run();
        let v = u64v("v");
        let how = choose(16, "how");
        let rec = r.clone().recipient::<M>();
        let dead = Err(SendError::ActorNotRunning(M(v)));
        let t = "a message to a stopped actor comes back unchanged";
        let d = ms(5);
        block_on(async {
            match how {
                0 => check(r.tell(M(v)).send().await == dead, t),
                1 => check(r.tell(M(v)).try_send() == dead, t),
                2 => check(r.tell(M(v)).mailbox_timeout(d).send().await == dead, t),
                3 => check(rec.tell(M(v)).send().await == dead, t),
                4 => check(rec.tell(M(v)).try_send() == dead, t),
                5 => check(rec.tell(M(v)).mailbox_timeout(d).send().await == dead, t),
                6 => check(r.ask(M(v)).send().await == Err(SendError::ActorNotRunning(M(v))), t),
                7 => check(r.ask(M(v)).try_send().await == Err(SendError::ActorNotRunning(M(v))), t),
                8 => check(r.ask(M(v)).mailbox_timeout(d).reply_timeout(d).send().await == Err(SendError::ActorNotRunning(M(v))), t),
                9 => check(matches!(r.ask(M(v)).enqueue().await, Err(SendError::ActorNotRunning(()))), "enqueueing to a stopped actor fails"),
                10 => check(matches!(r.ask(M(v)).try_enqueue(), Err(SendError::ActorNotRunning(()))), "enqueueing to a stopped actor fails"),
                11 => check(matches!(r.ask(M(v)).mailbox_timeout(d).enqueue().await, Err(SendError::ActorNotRunning(()))), "enqueueing to a stopped actor fails"),
                12 => check(r.stop_gracefully().await == Err(SendError::ActorNotRunning(())), "stopping a stopped actor fails"),
                13 => check(rec.stop_gracefully().await == Err(SendError::ActorNotRunning(())), "stopping a stopped actor fails"),
                14 => check(r.tell(M(v)).into_future().await == dead, t),
                _ => check(rec.tell(M(v)).into_future().await == dead, t),
            }
        });
        check(r.tell(M(v)).blocking_send() == dead && rec.tell(M(v)).blocking_send() == dead, t);
        check(r.ask(M(v)).blocking_send() == Err(SendError::ActorNotRunning(M(v))), t);
        check(matches!(r.ask(M(v)).blocking_enqueue(), Err(SendError::ActorNotRunning(()))), "enqueueing to a stopped actor fails");
        check(!r.is_alive() && !rec.is_alive(), "a stopped actor is not alive");
        check(handled(1).is_empty(), "no undelivered message is handled");
        reach("end");
    }
    // A model of the mailbox of an actor that is not being run: the non-waiting sends fail exactly when it is full.
    c08_full {
        let cap = choose(4, "cap");
        let (r, run, _) = prepare(Probe::new(1), cap);
        let rec = r.clone().recipient::<M>();
        let mut want = Vec::new();
        let mut ps = Vec::new();
        let base = u64v("base");
        for i in 0..b(3, 5) {
            let v = base.wrapping_add(i as u64);
            let full = cap > 0 && want.len() == cap;
            let ok = match choose(5, "how") {
                0 => { let x = r.tell(M(v)).try_send(); check(x == if full { Err(SendError::MailboxFull(M(v))) } else { Ok(()) }, "sending without waiting fails exactly when the mailbox is full, returning the message"); x.is_ok() }
                1 => { let x = rec.tell(M(v)).try_send(); check(x == if full { Err(SendError::MailboxFull(M(v))) } else { Ok(()) }, "sending without waiting fails exactly when the mailbox is full, returning the message"); x.is_ok() }
                2 => match r.ask(M(v)).try_enqueue() { Ok(p) => { ps.push((v, p)); check(!full, "enqueueing without waiting fails exactly when the mailbox is full"); true } Err(e) => { check(full && e == SendError::MailboxFull(()), "enqueueing without waiting fails exactly when the mailbox is full"); false } },
                3 => { let mut f = Box::pin(r.ask(M(v)).try_send()); match poll_once(&mut f.as_mut()) { None => { check(!full, "asking without waiting fails exactly when the mailbox is full, returning the message"); true } Some(x) => { check(full && x == Err(SendError::MailboxFull(M(v))), "asking without waiting fails exactly when the mailbox is full, returning the message"); false } } }
                _ => { if !full { check(r.tell(M(v)).blocking_send() == Ok(()), "a blocking send with room succeeds"); true } else { false } }
            };
            if ok { want.push(v) }
        }
        let mut ex = Exec::new(0);
        ex.spawn(run);
        let t = ex.spawn(async move { for (v, p) in ps { check(p.await == Ok(v.wrapping_add(1)), "an enqueued request is answered") } });
        ex.run();
        check(ex.done(t) && handled(1) == want, "exactly the accepted messages are handled");
        reach("end");
    }
    // Every way of sending with a mailbox timeout that passes, or is cut short by the actor stopping.
    c08_timeout {
        let (r, run, _) = prepare(Probe::new(1), 1);
        let mut run = Some(run);
        let rec = r.clone().recipient::<M>();
        let v = u64v("v");
        let (how, stops) = (choose(6, "how"), flip("stops"));
        r.tell(M(0)).try_send().unwrap(); // fills the mailbox
        let e = |m| if stops { SendError::ActorNotRunning(m) } else { SendError::Timeout(Some(m)) };
        let t = "a message that could not be sent in time comes back unchanged";
        block_on(async {
            let stopped = async { if stops { tokio::time::sleep(ms(5)).await; drop(run.take()) } };
            let sent = async {
                let d = ms(10);
                match how {
                    0 => check(r.tell(M(v)).mailbox_timeout(d).send().await == Err(e(M(v))), t),
                    1 => check(rec.tell(M(v)).mailbox_timeout(d).send().await == Err(e(M(v))), t),
                    2 => check(r.ask(S(v, K::Ok)).mailbox_timeout(d).send().await.map_err(|x| x.map_err(|_| ())) == Err(if stops { SendError::ActorNotRunning(S(v, K::Ok)) } else { SendError::Timeout(Some(S(v, K::Ok))) }), t),
                    3 => check(r.tell(M(v)).mailbox_timeout(d).into_future().await == Err(e(M(v))), t),
                    4 => check(rec.tell(M(v)).mailbox_timeout(d).into_future().await == Err(e(M(v))), t),
                    _ => match r.ask(M(v)).mailbox_timeout(d).reply_timeout(d).enqueue().await { Err(x) => check(x == if stops { SendError::ActorNotRunning(()) } else { SendError::Timeout(Some(())) }, t), Ok(_) => check(false, t) },
                }
            };
            tokio::join!(stopped, sent);
        });
        drop((r, rec));
        let mut ex = Exec::new(0);
        if let Some(run) = run.take() { ex.spawn(run); }
        ex.run();
        check(handled(1) == if stops { vec![] } else { vec![0] }, "no undelivered message is handled");
        reach("end");
    }
    // The actor stops while senders wait for room.
    c08_race {
        let cap = 1;
        let (r, run, _) = prepare(Probe::new(1), cap);
        let mut ex = Exec::new(b(6, 9));
        let a = ex.spawn(run);
        let base = u64v("base");
        let n = 2;
        let res = Arc::new(Mutex::new(Vec::new()));
        for i in 0..n as u64 {
            let (r, res) = (r.clone(), res.clone());
            let how = choose(3, "how");
            ex.spawn(async move {
                let v = base ^ i;
                let ok = match how {
                    0 => { let x = r.tell(M(v)).send().await; check(x == Ok(()) || x == Err(SendError::ActorNotRunning(M(v))), "a message not accepted comes back unchanged"); x.is_ok() }
                    1 => { let x = r.clone().recipient::<M>().tell(M(v)).send().await; check(x == Ok(()) || x == Err(SendError::ActorNotRunning(M(v))), "a message not accepted comes back unchanged"); x.is_ok() }
                    _ => { let x = r.ask(M(v)).send().await; check(x == Ok(v.wrapping_add(1)) || x == Err(SendError::ActorNotRunning(M(v))) || x == Err(SendError::ActorStopped), "a message not accepted comes back unchanged"); x != Err(SendError::ActorNotRunning(M(v))) }
                };
                res.lock().unwrap().push((v, ok));
            });
        }
        let kill = flip("kill");
        let r2 = r.clone();
        ex.spawn(async move { if kill { r2.kill() } else { check(matches!(r2.stop_gracefully().await, Ok(()) | Err(SendError::ActorNotRunning(()))), "stopping succeeds or finds the actor stopped") } });
        ex.run();
        check(ex.done(a) && res.lock().unwrap().len() == n, "waiting senders continue when the actor stops");
        for (v, ok) in res.lock().unwrap().iter() { if !ok { check(!handled(1).contains(v), "a message that came back is not handled") } }
        reach("end");
    }
    // Nobody gets more room than the capacity; waiting senders are served in order, as soon as there is room.
    c09_backpressure {
        let cap = 1 + choose(2, "cap");
        let g = Gate::default();
        let (r, run, _) = prepare(Probe::new(1), cap);
        let mut ex = Exec::new(0);
        let a = ex.spawn(run);
        ex.run();
        // occupy the actor so that the mailbox is the only room
        r.tell(G(100, g.clone())).try_send().ok().unwrap();
        ex.run();
        let n = 3;
        let sent = Arc::new(Mutex::new(Vec::new()));
        let base = u64v("base");
        let mut ts = vec![];
        for i in 0..n {
            let (r, s) = (r.clone(), sent.clone());
            let how = choose(3, "how");
            let v = base ^ i as u64;
            ts.push(ex.spawn(async move {
                match how {
                    0 => r.tell(M(v)).send().await.unwrap(),
                    1 => r.clone().recipient::<M>().tell(M(v)).send().await.unwrap(),
                    _ => { let p = r.ask(M(v)).enqueue().await; if p.is_err() { check(false, "enqueue"); } }
                }
                s.lock().unwrap().push(v);
            }));
            ex.drive(ts[i]);
        }
        check(sent.lock().unwrap().len() == cap.min(n), "exactly as many messages are accepted as there is room");
        check(r.tell(M(base ^ 50)).try_send() == if cap < n || cap == n { Err(SendError::MailboxFull(M(base ^ 50))) } else { Ok(()) }, "a full mailbox accepts nothing");
        // a sender that gives up frees its place in the queue
        let quit = choose(n + 1, "quit");
        let mut want: Vec<u64> = (0..n).map(|i| base ^ i as u64).collect();
        if quit < n && quit >= cap { ex.cancel(ts[quit]); want.remove(quit); }
        ex.choices = b(4, 6);
        g.open();
        drop(r);
        ex.run();
        check(ex.done(a), "the actor stops");
        check(handled(1)[1..] == want[..], "waiting senders are served in the order they arrived, each once");
        reach("end");
    }
    // A mailbox timeout: the send fails if and only if there was no room for that long.
    c09_mailbox_timeout {
        struct Busy;
        impl Actor for Busy { type Error = Code; }
        impl Message<usize> for Busy {
            type Reply = ();
            async fn handle(&mut self, n: usize, _: &mut Context<Self, ()>) { tokio::time::sleep(ms(n)).await; }
        }
        impl Message<M> for Busy {
            type Reply = u64;
            async fn handle(&mut self, m: M, _: &mut Context<Self, u64>) -> u64 { log(Ev::Msg(1, m.0)); m.0.wrapping_add(1) }
        }
        let v = u64v("v");
        let d = [0, 10, 30][choose(3, "busy")];
        let t = [0, 9, 11, 40][choose(4, "timeout")];
        let how = choose(5, "how");
        let bounded = flip("bounded");
        let pa = if bounded { PreparedActor::new(mailbox::bounded(1)) } else { PreparedActor::new(mailbox::unbounded()) };
        let r = pa.actor_ref().clone();
        let res = block_on(async {
            let j = tokio::spawn(async move { pa.run(Busy).await; });
            r.wait_for_startup().await;
            settle().await;
            r.tell(d).try_send().unwrap();
            settle().await;
            r.tell(5usize).try_send().unwrap(); // fills the mailbox while busy
            let t0 = tokio::time::Instant::now();
            let rec = r.clone().recipient::<M>();
            let res = match how {
                0 => r.tell(M(v)).mailbox_timeout(ms(t)).send().await.map_err(|e| e == SendError::Timeout(Some(M(v)))),
                1 => rec.tell(M(v)).mailbox_timeout(ms(t)).send().await.map_err(|e| e == SendError::Timeout(Some(M(v)))),
                2 => r.ask(M(v)).mailbox_timeout(ms(t)).send().await.map(|x| check(x == v.wrapping_add(1), "the reply arrives")).map_err(|e| e == SendError::Timeout(Some(M(v)))),
                3 => r.tell(M(v)).mailbox_timeout(ms(t)).into_future().await.map_err(|e| e == SendError::Timeout(Some(M(v)))),
                _ => match r.ask(M(v)).mailbox_timeout(ms(t)).enqueue().await { Ok(p) => { check(p.await == Ok(v.wrapping_add(1)), "the reply arrives"); Ok(()) } Err(e) => Err(e == SendError::Timeout(Some(()))) },
            };
            let waited = t0.elapsed();
            if res.is_err() { check(waited >= ms(t) && waited <= ms(t + 2), "a timeout fires at its time") }
            drop(rec);
            drop(r);
            check(tokio::time::timeout(ms(1000), j).await.is_ok(), "the actor stops");
            res
        });
        if bounded && t < d { check(res == Err(true), "a send whose mailbox had no room for the timeout fails with the message") }
        else if d > 0 || !bounded { check(res == Ok(()), "a send finding room before the timeout succeeds") }
        check(handled(1) == if res.is_ok() { vec![v] } else { vec![] }, "a timed out message is not delivered, any other once");
        reach("end");
    }
    // Both timeouts of an ask: waiting for room does not use up the time a reply may take.
    c09_both {
        struct Busy;
        impl Actor for Busy { type Error = Code; }
        impl Message<usize> for Busy {
            type Reply = ();
            async fn handle(&mut self, n: usize, _: &mut Context<Self, ()>) { tokio::time::sleep(ms(n)).await; }
        }
        impl Message<(usize, u64)> for Busy {
            type Reply = u64;
            async fn handle(&mut self, (n, v): (usize, u64), _: &mut Context<Self, u64>) -> u64 { log(Ev::Msg(1, v)); tokio::time::sleep(ms(n)).await; v.wrapping_add(1) }
        }
        let v = u64v("v");
        let d = [0, 20][choose(2, "busy")];
        let h = [0, 10][choose(2, "slow")];
        let tm = [10, 30][choose(2, "mailbox timeout")];
        let tr = [3, 8, 18][choose(3, "reply timeout")];
        let how = choose(4, "how");
        let pa = PreparedActor::new(mailbox::bounded(1));
        let r = pa.actor_ref().clone();
        block_on(async {
            let j = tokio::spawn(async move { pa.run(Busy).await; });
            r.wait_for_startup().await;
            settle().await;
            r.tell(d).try_send().unwrap();
            settle().await;
            r.tell(5usize).try_send().unwrap(); // fills the mailbox while busy
            let t0 = tokio::time::Instant::now();
            let timed = matches!(how, 0 | 2); // has a mailbox timeout
            let res = match how {
                0 => r.ask((h, v)).mailbox_timeout(ms(tm)).reply_timeout(ms(tr)).send().await.map_err(|e| match e { SendError::Timeout(m) => m.is_none(), _ => { check(false, "only timeouts"); false } }),
                1 => r.ask((h, v)).reply_timeout(ms(tr)).send().await.map_err(|e| { check(e == SendError::Timeout(None), "only the reply is timed"); true }),
                2 => r.ask((h, v)).reply_timeout(ms(tr)).mailbox_timeout(ms(tm)).into_future().await.map_err(|e| matches!(e, SendError::Timeout(None))),
                _ => r.ask((h, v)).reply_timeout(ms(tr)).into_future().await.map_err(|e| { check(e == SendError::Timeout(None), "only the reply is timed"); true }),
            };
            let at = t0.elapsed();
            let near = |n: usize| at >= ms(n) && at <= ms(n + 3);
            if timed && d > tm {
                check(res == Err(false) && near(tm), "without room for that long the send fails, returning the message");
            } else if tr < 5 + h {
                check(res == Err(true) && near(d + tr), "the time for the reply starts when the message is in the mailbox");
            } else {
                check(res == Ok(v.wrapping_add(1)) && near(d + 5 + h), "a reply in time arrives");
            }
            drop(r);
            check(tokio::time::timeout(ms(1000), j).await.is_ok(), "the actor stops");
        });
        check(count(|e| *e == Ev::Msg(1, v)) == if matches!(how, 0 | 2) && d > tm { 0 } else { 1 }, "handled once unless the send failed");
        reach("end");
    }
    // A reply timeout: the ask fails if and only if the reply took longer; the actor carries on.
    c09_reply_timeout {
        struct Slow;
        impl Actor for Slow { type Error = Code; }
        impl Message<(usize, u64)> for Slow {
            type Reply = Result<u64, Code>;
            async fn handle(&mut self, (n, v): (usize, u64), _: &mut Context<Self, Result<u64, Code>>) -> Result<u64, Code> {
                log(Ev::Msg(1, v));
                tokio::time::sleep(ms(n)).await;
                log(Ev::Done(1, v));
                if v & 1 == 1 { Err(Code(v)) } else { Ok(v) }
            }
        }
        let v = u64v("v");
        let d = [0, 10][choose(2, "slow")];
        let t = [0, 9, 12][choose(3, "timeout")];
        let how = choose(6, "how");
        let pa = if flip("bounded") { PreparedActor::new(mailbox::bounded(2)) } else { PreparedActor::new(mailbox::unbounded()) };
        let r = pa.actor_ref().clone();
        block_on(async {
            let j = tokio::spawn(async move { pa.run(Slow).await; });
            r.wait_for_startup().await;
            settle().await;
            let t0 = tokio::time::Instant::now();
            let x = match how {
                0 => r.ask((d, v)).reply_timeout(ms(t)).send().await,
                1 => r.ask((d, v)).reply_timeout(ms(t)).try_send().await,
                2 => r.ask((d, v)).reply_timeout(ms(t)).into_future().await,
                3 => r.ask((d, v)).mailbox_timeout(ms(50)).reply_timeout(ms(t)).send().await,
                4 => match r.ask((d, v)).reply_timeout(ms(t)).enqueue().await { Ok(p) => p.await, Err(_) => { check(false, "a mailbox with room accepts"); return } },
                _ => match r.ask((d, v)).reply_timeout(ms(t)).try_enqueue() { Ok(p) => p.await, Err(_) => { check(false, "a mailbox with room accepts"); return } },
            };
            let waited = t0.elapsed();
            let want = if v & 1 == 1 { Err(SendError::HandlerError(Code(v))) } else { Ok(v) };
            if t < d {
                check(x == Err(SendError::Timeout(None)), "an ask whose reply takes longer than its timeout fails with a timeout");
                check(waited >= ms(t) && waited <= ms(t + 2), "a timeout fires at its time");
            } else if t > d { check(x == want, "an ask whose reply is in time gets it") }
            let y = r.ask((0, 8)).send().await;
            check(y == Ok(8), "the actor carries on after a caller timed out");
            drop(r);
            check(tokio::time::timeout(ms(1000), j).await.is_ok(), "the actor stops");
        });
        check(events() == vec![Ev::Msg(1, v), Ev::Done(1, v), Ev::Msg(1, 8), Ev::Done(1, 8)], "a timed out request is still handled to its end, once");
        reach("end");
    }
}
