//! Large sizes: the guarantees do not depend on how many messages, actors or waiters there are.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::time::Duration;

async fn quiet() { tokio::time::sleep(Duration::from_secs(1)).await }
fn size() -> usize { [9, b(40, 80)][choose(2, "size")] }
fn go(p: Probe, cap: usize) -> (ActorRef<Probe>, Out, tokio::task::JoinHandle<()>) {
    let (r, f, out) = prepare(p, cap);
    (r, out, tokio::spawn(f))
}
/// A handler that other messages overtake nothing of.
fn end(r: ActorRef<Probe>, how: usize) -> impl std::future::Future<Output = ()> {
    async move { match how { 0 => drop(r), _ => { r.stop_gracefully().await.unwrap(); } } }
}

crate::sym::harnesses! {
    c01_many {
        let (n, cap, how, base) = ([40, b(300, 600)][choose(2, "size")] as u64, [0, 3, 64][choose(3, "cap")], choose(2, "end"), u64v("base"));
        block_on(async {
            let (r, out, _) = go(Probe::new(1), cap);
            for i in 0..n { if i % 5 == 4 { let a = r.ask(M(base ^ i)).send().await; check(a == Ok((base ^ i).wrapping_add(1)), "every ask is answered") } else { check(r.tell(M(base ^ i)).send().await.is_ok(), "a running actor takes messages") } }
            end(r, how).await;
            quiet().await;
            check(handled(1).into_iter().eq((0..n).map(|i| base ^ i)), "messages are handled in the order they were accepted, once each");
            check(out.get() == Some((1, n as usize, Why::Normal)), "a normal stop, after all of them");
        });
        reach("end");
    }
    c03_many {
        let (n, base) = (size() as u64, u64v("base"));
        let err = flip("err");
        block_on(async {
            let (r, out, _) = go(Probe::with(1, Cfg { panic: Policy::Continue, ..Default::default() }), 0);
            for i in 0..n { r.tell(S(base ^ i, if err { K::Err } else { K::Panic })).try_send().unwrap(); r.tell(M(base ^ i)).try_send().unwrap(); }
            quiet().await;
            check(count(|e| matches!(e, Ev::Panic(..))) == n as usize, "on_panic sees every panic and error");
            check(count(|e| matches!(e, Ev::Done(..))) == n as usize && r.is_alive(), "and the actor handles the rest");
            r.kill();
            quiet().await;
            check(out.why() == Some(Why::Killed), "until it is stopped");
        });
        reach("end");
    }
    c04_many {
        let (n, own, how, base) = (size() as u64, [0, 3, 20][choose(3, "own")] as u64, choose(2, "end"), u64v("base"));
        let bounded = flip("bounded");
        block_on(async {
            let g = Gate::default();
            let cfg = Cfg { start_gate: Some(g.clone()), self_tell: (0..own).map(|i| base ^ (1000 + i)).collect(), ..Default::default() };
            let (r, out, _) = go(Probe::with(1, cfg), if bounded { 128 } else { 0 });
            for i in 0..n { check(r.tell(M(base ^ i)).try_send().is_ok(), "a starting actor takes messages") }
            quiet().await;
            check(handled(1).is_empty(), "nothing is handled before the start hook has ended");
            g.open();
            end(r, how).await;
            quiet().await;
            let mut got = handled(1);
            check(got.len() == (n + own) as usize, "every message is handled, once");
            let outside: Vec<u64> = got.iter().copied().filter(|v| (v ^ base) < 1000).collect();
            check(outside.into_iter().eq((0..n).map(|i| base ^ i)), "messages from outside are handled in order");
            got.retain(|v| (v ^ base) >= 1000);
            check(got.into_iter().eq((0..own).map(|i| base ^ (1000 + i))), "its own in order");
            check(out.why() == Some(Why::Normal), "then it stops");
        });
        reach("end");
    }
    c05_many {
        let (n, start) = (size(), [Hook::Ok, Hook::Err, Hook::Panic][choose(3, "start")]);
        block_on(async {
            let g = Gate::default();
            let (r, _, _) = go(Probe::with(1, Cfg { start_gate: Some(g.clone()), start, ..Default::default() }), 0);
            let ws: Vec<_> = (0..n).map(|_| { let r = r.clone(); tokio::spawn(async move { r.wait_for_startup().await }) }).collect();
            let vs: Vec<_> = (0..n).map(|_| { let r = r.clone(); tokio::spawn(async move { r.wait_for_stop().await }) }).collect();
            quiet().await;
            check(ws.iter().all(|w| !w.is_finished()), "nobody waiting for startup continues before the start hook has ended");
            g.open();
            quiet().await;
            check(ws.iter().all(|w| w.is_finished()), "everybody waiting for startup continues once it has");
            check(vs.iter().all(|v| v.is_finished() == (start != Hook::Ok)), "everybody waiting for the stop exactly once stopped");
            r.kill();
            quiet().await;
            check(vs.iter().all(|v| v.is_finished()), "everybody waiting for the stop exactly once stopped");
        });
        reach("end");
    }
    c06_many {
        let n = size();
        let how = choose(3, "end");
        block_on(async {
            let g = Gate::default();
            let (r, _, _) = go(Probe::with(1, Cfg { stop_gate: Some(g.clone()), ..Default::default() }), 0);
            let ws: Vec<_> = (0..n).map(|_| { let w = r.clone(); tokio::spawn(async move { w.wait_for_stop().await }) }).collect();
            quiet().await;
            match how { 0 => r.kill(), 1 => r.stop_gracefully().await.unwrap(), _ => r.tell(S(1, K::Panic)).send().await.unwrap() }
            quiet().await;
            check(ws.iter().all(|w| !w.is_finished()), "nobody waiting for shutdown continues before on_stop has finished");
            g.open();
            quiet().await;
            check(ws.iter().all(|w| w.is_finished()), "everybody waiting for shutdown continues");
        });
        reach("end");
    }
    c07_many {
        let (n, cap, how, at) = (size(), [0, 64][choose(2, "cap")], choose(3, "end"), u64v("base"));
        block_on(async {
            let g = Gate::default();
            let (r, _, _) = go(Probe::new(1), cap);
            r.tell(G(at, g.clone())).send().await.unwrap();
            quiet().await;
            let ws: Vec<_> = (0..n as u64).map(|i| { let r = r.clone(); tokio::spawn(async move { r.ask(M(at.wrapping_add(i))).send().await }) }).collect();
            quiet().await;
            match how { 0 => g.open(), 1 => r.kill(), _ => { let q = r.clone(); tokio::spawn(async move { let _ = q.stop_gracefully().await; }); quiet().await; r.kill() } }
            quiet().await;
            for (i, w) in ws.into_iter().enumerate() {
                check(w.is_finished(), "every ask ends");
                match w.await.unwrap() {
                    Ok(x) => check(how == 0 && x == at.wrapping_add(i as u64 + 1), "with its own reply"),
                    Err(SendError::ActorStopped) => check(how > 0, "an ask whose reply was dropped fails as stopped"),
                    Err(SendError::ActorNotRunning(m)) => check(how > 0 && m == M(at.wrapping_add(i as u64)), "one not delivered returns its message"),
                    _ => check(false, "no other outcome"),
                }
            }
            check(handled(1).len() == if how == 0 { n + 1 } else { 1 }, "and nothing is handled twice or after a kill");
        });
        reach("end");
    }
    c09_many {
        let (n, cap) = (size(), [1, 4][choose(2, "cap")]);
        block_on(async {
            let g = Gate::default();
            let (r, _, _) = go(Probe::new(1), cap);
            r.tell(G(500, g.clone())).send().await.unwrap();
            quiet().await;
            let mut ws = vec![];
            for i in 0..n as u64 { let r = r.clone(); ws.push(tokio::spawn(async move { r.tell(M(i)).send().await })); tokio::task::yield_now().await }
            quiet().await;
            check(ws.iter().filter(|w| w.is_finished()).count() == cap, "a full mailbox makes senders wait");
            g.open();
            quiet().await;
            check(ws.iter().all(|w| w.is_finished()), "senders continue when there is room");
            check(handled(1)[1..].iter().copied().eq(0..n as u64), "in the order they came");
        });
        reach("end");
    }
    // The documented capacity of the mailbox an actor gets by default.
    c09_default {
        let (linked, more) = (flip("linked"), choose(3, "more"));
        block_on(async {
            let (p, _, _) = go(Probe::new(2), 0);
            quiet().await;
            let g = Gate::default();
            let r = if linked { kameo::actor::spawn_link(&p, Probe::new(1)).await } else { kameo::spawn(Probe::new(1)) };
            r.tell(G(0, g.clone())).send().await.unwrap();
            quiet().await;
            for i in 0..64 { check(r.tell(M(i)).try_send().is_ok(), "the default mailbox holds 64 messages") }
            for i in 0..more as u64 { check(r.tell(M(64 + i)).try_send() == Err(SendError::MailboxFull(M(64 + i))), "and not more") }
            let w = tokio::spawn({ let r = r.clone(); async move { r.ask(M(70)).send().await } });
            quiet().await;
            check(!w.is_finished(), "who sends more waits");
            g.open();
            quiet().await;
            check(w.is_finished() && w.await.unwrap() == Ok(71) && handled(1).len() == 66, "until there is room");
        });
        reach("end");
    }
    c10_many {
        let (n, how, dir) = (size(), choose(3, "end"), choose(3, "direction"));
        block_on(async {
            let (r, _, _) = go(Probe::new(0), 0);
            let mut rs = vec![];
            for i in 0..n {
                let (s, _, _) = go(Probe::with(1 + i as u8, Cfg { link: Policy::Continue, ..Default::default() }), [0, 1][i % 2]);
                if dir == 0 || dir == 2 && i % 2 == 0 { s.link(&r).await } else { r.link(&s).await }
                rs.push(s);
            }
            let id = r.id();
            let want = match how { 0 => { r.kill(); Why::Killed } 1 => { r.stop_gracefully().await.unwrap(); Why::Normal } _ => { r.tell(S(7, K::Panic)).send().await.unwrap(); Why::Panicked(7) } };
            r.wait_for_stop().await;
            quiet().await;
            for i in 0..n { check(linkdeaths(1 + i as u8) == vec![(id, want.clone())], "an actor hears of a death exactly once if it is linked and never otherwise") }
        });
        reach("end");
    }
    // A long chain of links with the default policy: a failure stops them all, a normal end none.
    c11_many {
        let n = b(12, 30);
        let how = choose(3, "end");
        block_on(async {
            let mut rs = vec![];
            for i in 0..n {
                let (r, f) = crate::c_link::prepare_def(i as u8, 0);
                tokio::spawn(f);
                if let Some(p) = rs.last() { r.link(p).await }
                rs.push(r);
            }
            match how { 0 => rs[0].kill(), 1 => rs[0].stop_gracefully().await.unwrap(), _ => rs[0].tell(S(7, K::Panic)).send().await.unwrap() }
            quiet().await;
            for i in 1..n {
                check(rs[i].is_alive() == (how == 1), "a failure propagates along links; a normal end does not");
                if how != 1 {
                    let s = stops(i as u8);
                    check(s.len() == 1, "each stops once");
                    let mut w = &s[0];
                    for j in (0..i).rev() { match w { Why::LinkDied(id, r) => { check(*id == rs[j].id(), "the reason names the dead actor and nests its reason"); w = &**r } _ => check(false, "stopped by the link") } }
                    check(*w == if how == 0 { Why::Killed } else { Why::Panicked(7) }, "down to the first");
                }
            }
        });
        reach("end");
    }
    c12_many {
        let n = size();
        let how = choose(3, "unlink");
        block_on(async {
            let (r, _, _) = go(Probe::new(0), 0);
            let mut rs = vec![];
            for i in 0..n { let (s, _, _) = go(Probe::with(1 + i as u8, Cfg { link: Policy::Continue, ..Default::default() }), 0); s.link(&r).await; if i % 3 == 0 { r.link(&s).await } rs.push(s); }
            for (i, s) in rs.iter().enumerate() { if i % 2 == 0 { match how { 0 => s.unlink(&r).await, 1 => r.unlink(s).await, _ => { if i % 4 == 0 { s.unlink(&r).await } else { r.unlink(s).await } } } } }
            r.kill();
            quiet().await;
            for i in 0..n { check(linkdeaths(1 + i as u8).len() == i % 2, "exactly those still linked hear of it") }
            for s in &rs { check(s.is_alive(), "and live on") }
        });
        reach("end");
    }
    c13_many {
        let n = size();
        block_on(async {
            let (r, out, _) = go(Probe::new(1), 0);
            let mut strong: Vec<_> = (0..n).map(|_| r.clone()).collect();
            let weak: Vec<_> = (0..n).map(|_| r.downgrade()).collect();
            drop(r);
            quiet().await;
            while let Some(r) = strong.pop() {
                check(r.strong_count() == strong.len() + 1 && r.weak_count() >= n, "reference counts are exact");
                quiet().await;
                check(out.get().is_none() && weak[0].upgrade().is_some(), "a strong reference keeps the actor");
                drop(r);
            }
            quiet().await;
            check(out.why() == Some(Why::Normal), "none does not");
            check(weak.iter().all(|w| w.upgrade().is_none()), "nothing upgrades then");
        });
        reach("end");
    }
    c16_many {
        let n = size();
        let rm = choose(3, "remove");
        block_on(async {
            let mut reg = kameo::registry::ActorRegistry::new();
            let rs: Vec<_> = (0..n).map(|i| go(Probe::new(i as u8), 0).0).collect();
            for (i, r) in rs.iter().enumerate() { check(!reg.insert(format!("actor {i}"), r.clone()), "a new name replaces nothing"); }
            check(reg.len() == n, "as many names as registered");
            for i in 0..n { if i % 3 == rm { check(reg.remove(format!("actor {i}").as_str()), "a registered name can be removed") } }
            for (i, r) in rs.iter().enumerate() {
                let g = reg.get::<Probe, str>(format!("actor {i}").as_str());
                check(g.unwrap().map(|x| x.id()) == (i % 3 != rm).then(|| r.id()), "each name finds its own actor");
            }
            check(reg.names().count() == reg.len() && reg.len() == rs.iter().enumerate().filter(|(i, _)| i % 3 != rm).count(), "as many names as remain");
        });
        reach("end");
    }
    c21_many {
        let (n, cap, base) = ([40, b(200, 400)][choose(2, "size")] as u64, [0, 2][choose(2, "cap")], u64v("base"));
        struct Sink;
        impl Actor for Sink { type Error = Code; }
        impl Message<StreamMessage<u64, u64, u64>> for Sink {
            type Reply = ();
            async fn handle(&mut self, m: StreamMessage<u64, u64, u64>, _: &mut Context<Self, ()>) {
                match m { StreamMessage::Next(v) => log(Ev::Msg(1, v)), StreamMessage::Started(v) => log(Ev::Note(1, v)), StreamMessage::Finished(v) => log(Ev::Note(2, v)) }
            }
        }
        block_on(async {
            let pa = PreparedActor::new(if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) });
            let r = pa.actor_ref().clone();
            let h = pa.spawn(Sink);
            let j = r.attach_stream(futures::stream::iter((0..n).map(move |i| base ^ i)), 5, 6);
            drop(r);
            check(matches!(j.await, Ok(Ok(_))), "the stream is given back when it ends");
            let _ = h.await;
            check(handled(1).into_iter().eq((0..n).map(|i| base ^ i)), "every item is delivered once, in order");
            let e = events();
            check(e.first() == Some(&Ev::Note(1, 5)) && e.last() == Some(&Ev::Note(2, 6)), "between the markers");
        });
        reach("end");
    }
    c29_many {
        let (n, cap, limit) = (size(), [0, 128][choose(2, "cap")], [1, 7, 64, 100][choose(4, "limit")]);
        let (tx, mut rx) = if cap == 0 { mailbox::unbounded::<Probe>() } else { mailbox::bounded::<Probe>(cap) };
        block_on(async {
            let pa = PreparedActor::<Probe>::new(mailbox::unbounded());
            let r = pa.actor_ref().clone();
            for i in 0..n { check(tx.send(Signal::LinkDied { id: ActorID::new(i as u64), reason: ActorStopReason::Normal }).await.is_ok(), "an open mailbox takes signals") }
            drop(r);
            let mut got = vec![];
            let mut left = n;
            while left > 0 {
                check(rx.len() == left && !rx.is_empty(), "length and emptiness are exact");
                let mut buf = vec![];
                let k = rx.recv_many(&mut buf, limit).await;
                check(k == buf.len() && k == limit.min(left), "a batch is as large as its limit and the queue allow");
                left -= k;
                for s in buf { match s { Signal::LinkDied { id, .. } => got.push(id.sequence_id()), _ => check(false, "what was sent") } }
            }
            check(got.into_iter().eq(0..n as u64) && rx.is_empty(), "what was sent is received once, in order");
        });
        reach("end");
    }
}
