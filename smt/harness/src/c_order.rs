//! C01: messages are handled in order, each exactly once; a graceful stop and dropping every reference drain first.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;

crate::sym::harnesses! {
    // Two sending tasks, each sending in a symbolic way, any interleaving with the actor; then every reference is dropped.
    c01_fifo {
        let cap = [0, 1, 2][choose(3, "cap")];
        let (r, run, out) = prepare(Probe::new(1), cap);
        let n = b(2, 3);
        let base = u64v("base");
        let mut ex = Exec::new(b(6, 9));
        let actor = ex.spawn(run);
        let sent = Arc::new(Mutex::new(Vec::new()));
        for s in 0..2u64 {
            let r = r.clone();
            let sent = sent.clone();
            ex.spawn(async move {
                for i in 0..n as u64 {
                    let v = base ^ (s * 16 + i);
                    let ok = match choose(2, "how") { 0 => r.tell(M(v)).send().await.is_ok(), _ => r.tell(M(v)).try_send().is_ok() };
                    if ok { sent.lock().unwrap().push((s, v)) }
                }
            });
        }
        drop(r);
        ex.run();
        check(ex.done(actor), "the actor stops once every reference is gone");
        let h = handled(1);
        let sent = sent.lock().unwrap().clone();
        check(h.len() == sent.len(), "every accepted message is handled exactly once");
        for s in 0..2u64 {
            let want: Vec<u64> = sent.iter().filter(|x| x.0 == s).map(|x| x.1).collect();
            let got: Vec<u64> = h.iter().copied().filter(|v| want.contains(v)).collect();
            check(got == want, "messages of one sender are handled in the order they were sent");
        }
        check(out.get().map(|o| o.2 == Why::Normal && o.1 == h.len()).unwrap_or(false), "dropping every reference is a normal stop");
        reach("end");
    }
    // Every way of sending from one task, in symbolic order: the order of acceptance is the order of handling.
    c01_kinds {
        let cap = [0, 2][choose(2, "cap")];
        let (r, run, _out) = prepare(Probe::new(1), cap);
        let base = u64v("base");
        let mut ex = Exec::new(b(3, 6));
        let actor = ex.spawn(run);
        let sent = Arc::new(Mutex::new(Vec::new()));
        let s2 = sent.clone();
        let done = Arc::new(Mutex::new(0));
        let d2 = done.clone();
        ex.spawn(async move {
            let rec = r.clone().recipient::<M>();
            let mut pending = Vec::new();
            for i in 0..b(3, 4) as u64 {
                let v = base.wrapping_add(i);
                let ok = match choose(7, "how") {
                    0 => r.tell(M(v)).send().await.is_ok(),
                    1 => r.tell(M(v)).try_send().is_ok(),
                    2 => rec.tell(M(v)).send().await.is_ok(),
                    3 => rec.tell(M(v)).try_send().is_ok(),
                    4 => { let a = r.ask(M(v)).send().await; check(a == Ok(v.wrapping_add(1)), "an ask returns the reply to its own message"); true }
                    5 => match r.ask(M(v)).try_enqueue() { Ok(p) => { pending.push((v, p)); true } Err(_) => false },
                    _ => match r.ask(M(v)).enqueue().await { Ok(p) => { pending.push((v, p)); true } Err(_) => false },
                };
                if ok { s2.lock().unwrap().push(v) }
            }
            while let Some((v, p)) = pending.pop() {
                check(p.await == Ok(v.wrapping_add(1)), "an ask returns the reply to its own message");
            }
            *d2.lock().unwrap() = 1;
        });
        ex.run();
        check(*done.lock().unwrap() == 1, "sending to a running actor completes");
        check(ex.done(actor), "the actor stops once every reference is gone");
        check(handled(1) == *sent.lock().unwrap(), "messages are handled in the order they were accepted, once each");
        reach("end");
    }
    // A graceful stop lets everything queued before it be handled and nothing accepted after it.
    c01_stop_drains {
        let cap = [0, 1, 3][choose(3, "cap")];
        let (r, run, out) = prepare(Probe::new(1), cap);
        let base = u64v("base");
        let mut ex = Exec::new(b(5, 9));
        let actor = ex.spawn(run);
        let before = choose(3, "before");
        let after = choose(3, "after");
        let acc = Arc::new(Mutex::new((Vec::new(), Vec::new(), 0)));
        let (a2, r2) = (acc.clone(), r.clone());
        ex.spawn(async move {
            for i in 0..before as u64 {
                if r2.tell(M(base ^ i)).send().await.is_ok() { a2.lock().unwrap().0.push(base ^ i) }
            }
            let ok = r2.stop_gracefully().await.is_ok();
            check(ok, "a running actor can be asked to stop");
            for i in 0..after as u64 {
                let v = base ^ (16 + i);
                match r2.tell(M(v)).send().await {
                    Ok(()) => a2.lock().unwrap().1.push(v),
                    Err(e) => check(e == SendError::ActorNotRunning(M(v)), "a message sent to a stopped actor is returned"),
                }
            }
            a2.lock().unwrap().2 = 1;
        });
        ex.run();
        check(ex.done(actor), "the actor stops after a graceful stop although references remain");
        let a = acc.lock().unwrap();
        check(a.2 == 1, "senders never hang on a stopping actor");
        check(handled(1) == a.0, "exactly the messages queued before the stop are handled, in order");
        check(out.why() == Some(Why::Normal), "a graceful stop is a normal stop");
        check(!r.is_alive(), "a stopped actor is not alive");
        reach("end");
    }
    // Messages an actor sends to itself keep their order and are handled before it stops for lack of references.
    c01_self_sends {
        struct Loop { a: u8, n: u64 }
        impl Actor for Loop { type Error = Code; }
        impl Message<M> for Loop {
            type Reply = ();
            async fn handle(&mut self, m: M, ctx: &mut Context<Self, ()>) {
                log(Ev::Msg(self.a, m.0));
                if m.0 < self.n {
                    let me = ctx.actor_ref();
                    check(me.is_current(), "an actor is current inside its own handler");
                    me.tell(M(m.0 * 2 + 1)).send().await.unwrap();
                    me.tell(M(m.0 * 2 + 2)).send().await.unwrap();
                    if choose(2, "pause") == 1 { yield_().await }
                }
            }
        }
        let n = choose(4, "n") as u64;
        let pa = PreparedActor::new(mailbox::unbounded());
        let r = pa.actor_ref().clone();
        let mut ex = Exec::new(4);
        let actor = ex.spawn(async move { pa.run(Loop { a: 1, n }).await; });
        let early = flip("early");
        if early { r.tell(M(0)).try_send().unwrap() }
        if !early { ex.run(); ex.spawn(async move { r.tell(M(0)).send().await.unwrap() }); } else { drop(r) }
        ex.run();
        check(ex.done(actor), "the actor stops once it has nothing left to do and no references remain");
        let want: Vec<u64> = (0..2 * n + 1).collect();
        check(handled(1) == want, "messages sent by the actor to itself are all handled in order");
        reach("end");
    }
}
