use crate::exec::*;
use crate::rig::*;
use crate::sym::*;
use libp2p::Multiaddr;

const MS: fn(u64) -> Duration = Duration::from_millis;
fn outcome(m: &R) -> End {
    match m.k { 1 => End::Error(m.v), 2 => End::Stopped, 4 => End::SerReply, 5 => End::SerErr, _ => End::Reply(m.v + 1) }
}
#[derive(Clone, Copy, PartialEq)]
enum State { Idle, Busy, Full, Stopped }

crate::sym::harnesses! {
    // A request naming something that does not exist, or unreadable, has no effect and says why.
    c26_wrong {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let o = kameo::spawn(Other(2));
            register(&n, &o, "o").await;
            let to = choose(4, "actor");
            let id = [abroad(r.id()), abroad(o.id()), ActorID::new_with_peer_id(77, peer(ME)), ActorID::new_with_peer_id(r.id().sequence_id(), peer(101))][to];
            let (a, m) = [(PROBE, "r"), (OTHER, "r"), (PROBE, "x"), ("x", "r")][choose(4, "ids")];
            let msg = R { v: 5, k: 0 };
            let mut bytes = payload(&msg);
            let bad = choose(3, "payload");
            match bad { 0 => {} 1 => { bytes.pop(); } _ => bytes.clear() }
            let known = m == "r" && a != "x";
            let good = (to == 0 && a == PROBE) || (to == 1 && a == OTHER);
            let expect = if !known { End::UnknownMessage(a.into(), m.into()) }
                else if to > 1 { End::NotRunning }
                else if !good { End::BadType }
                else if bad > 0 { End::DeMsg }
                else if a == PROBE { End::Reply(6) } else { End::Reply(7) };
            let (a, m) = (Cow::Borrowed(a), Cow::Borrowed(m));
            let immediate = flip("immediate");
            let got = if flip("ask") {
                let q = SwarmRequest::Ask { actor_id: id, actor_remote_id: a, message_remote_id: m, payload: bytes, mailbox_timeout: None, reply_timeout: None, immediate };
                let mut w = n.request(101, wire(&q).unwrap());
                settle().await;
                let Some(Ok(x)) = w.get() else { check(false, "the ask is answered"); return };
                ask_end(x)
            } else {
                let q = SwarmRequest::Tell { actor_id: id, actor_remote_id: a, message_remote_id: m, payload: bytes, mailbox_timeout: None, immediate };
                let mut w = n.request(101, wire(&q).unwrap());
                settle().await;
                let Some(Ok(x)) = w.get() else { check(false, "the tell is answered"); return };
                match tell_end(x) { End::Done => expect.clone(), e => { check(e != expect || !matches!(e, End::Reply(_)), "x"); e } }
            };
            check(got == expect, "the answer says what was wrong, or is the reply");
            let n1 = handled(1); let n2 = handled(2);
            let ok = matches!(expect, End::Reply(_));
            check(n1 == if ok && to == 0 { vec![5] } else { vec![] }, "only a correct request reaches the actor");
            check(n2 == if ok && to == 1 { vec![5] } else { vec![] }, "only a correct request reaches the other actor");
            check(r.is_alive() && o.is_alive(), "the actors survive");
        });
        reach("end");
    }
    // What an ask from another node does and answers, whatever the actor is doing.
    c26_ask {
        block_on(async {
            let n = node(1).await;
            let st = [State::Idle, State::Busy, State::Full, State::Stopped][choose(4, "actor")];
            let gate = Gate::default();
            let (r, f, out) = prepare(Probe::with(1, Cfg { handler_gate: Some(gate.clone()), ..Cfg::default() }), 1);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            match st {
                State::Idle => gate.open(),
                State::Busy | State::Full => {
                    r.tell(M(1)).try_send().unwrap();
                    settle().await;
                    if st == State::Full { r.tell(M(2)).try_send().unwrap() }
                }
                State::Stopped => { gate.open(); r.kill(); settle().await; check(out.get().is_some(), "stopped") }
            }
            let msg = R { v: 5, k: choose(6, "kind") as u8 };
            let immediate = flip("immediate");
            let mt = if immediate { None } else { [None, Some(MS(10))][choose(2, "mailbox timeout")] };
            let rt = [None, Some(MS(20))][choose(2, "reply timeout")];
            let q = SwarmRequest::Ask { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&msg), mailbox_timeout: mt, reply_timeout: rt, immediate };
            let mut w = n.request(101, wire(&q).unwrap());
            settle().await;
            let expect = match st {
                State::Stopped => End::NotRunning,
                State::Idle => outcome(&msg),
                State::Full if immediate => End::Full,
                State::Full if mt.is_some() => End::Timeout,
                _ if rt.is_some() => End::Timeout,
                _ => outcome(&msg),
            };
            let now = matches!(st, State::Idle | State::Stopped) || expect == End::Full;
            let mut x = w.get();
            check(x.is_some() == now, "answered at once exactly when nothing is in the way");
            if x.is_none() {
                let at = if st == State::Full && mt.is_some() { 10 } else { 20 };
                tokio::time::sleep(MS(at - 2)).await;
                check(w.get().is_none(), "not answered early");
                tokio::time::sleep(MS(4)).await;
                settle().await;
                x = w.get();
                // a full mailbox waits for room without limit unless a mailbox timeout is set
                let timed = expect == End::Timeout && !(st == State::Full && mt.is_none());
                check(x.is_some() == timed, "answered once its timeout expires");
                gate.open();
                settle().await;
                if x.is_none() { x = w.get() }
            }
            gate.open();
            settle().await;
            let Some(Ok(x)) = x else { check(false, "the ask is answered"); return };
            let end = ask_end(x);
            if st == State::Full && mt.is_none() && !immediate && rt.is_some() {
                check(end == outcome(&msg), "the reply timeout starts once the message is in the mailbox");
            } else {
                check(end == expect, "the answer is what a local ask gives");
            }
            let sent = !(st == State::Stopped || (st == State::Full && (immediate || mt.is_some())));
            let mut h = match st { State::Busy => vec![1], State::Full => vec![1, 2], _ => vec![] };
            if sent { h.push(5) }
            check(handled(1) == h, "handled once, in turn, or never when not delivered");
            check(out.get().is_some() == (st == State::Stopped || (sent && msg.k == 2)), "the actor goes on unless its handler panicked");
            if out.get().is_none() {
                let q = SwarmRequest::Ask { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&R { v: 8, k: 0 }), mailbox_timeout: None, reply_timeout: None, immediate: false };
                let mut w = n.request(102, q);
                settle().await;
                let Some(Ok(x)) = w.get() else { check(false, "a later ask is answered"); return };
                check(ask_end(x) == End::Reply(9), "a later ask is served");
            }
        });
        reach("end");
    }
    // What a tell from another node does and answers, whatever the actor is doing.
    c26_tell {
        block_on(async {
            let n = node(1).await;
            let st = [State::Idle, State::Busy, State::Full, State::Stopped][choose(4, "actor")];
            let gate = Gate::default();
            let (r, f, out) = prepare(Probe::with(1, Cfg { handler_gate: Some(gate.clone()), ..Cfg::default() }), 1);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            match st {
                State::Idle => gate.open(),
                State::Busy | State::Full => {
                    r.tell(M(1)).try_send().unwrap();
                    settle().await;
                    if st == State::Full { r.tell(M(2)).try_send().unwrap() }
                }
                State::Stopped => { gate.open(); r.kill(); settle().await; check(out.get().is_some(), "stopped") }
            }
            let msg = R { v: 5, k: choose(3, "kind") as u8 };
            let immediate = flip("immediate");
            let mt = if immediate { None } else { [None, Some(MS(10))][choose(2, "mailbox timeout")] };
            let q = SwarmRequest::Tell { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&msg), mailbox_timeout: mt, immediate };
            let mut w = n.request(101, wire(&q).unwrap());
            settle().await;
            let expect = match st {
                State::Stopped => End::NotRunning,
                State::Full if immediate => End::Full,
                State::Full if mt.is_some() => End::Timeout,
                _ => End::Done,
            };
            let mut x = w.get();
            check(x.is_some() == !(st == State::Full && !immediate), "answered at once unless waiting for room");
            if x.is_none() {
                tokio::time::sleep(MS(8)).await;
                check(w.get().is_none(), "not answered early");
                tokio::time::sleep(MS(4)).await;
                settle().await;
                x = w.get();
                check(x.is_some() == mt.is_some(), "answered once its timeout expires");
            }
            gate.open();
            settle().await;
            if x.is_none() { x = w.get() }
            let Some(Ok(x)) = x else { check(false, "the tell is answered"); return };
            check(tell_end(x) == expect, "the answer is what a local tell gives");
            let mut h = match st { State::Busy => vec![1], State::Full => vec![1, 2], _ => vec![] };
            if expect == End::Done { h.push(5) }
            check(handled(1) == h, "handled once, in turn, exactly when acknowledged");
            // an error or panic nobody is told about stops the actor
            check(out.get().is_some() == (st == State::Stopped || (expect == End::Done && msg.k > 0)), "the actor goes on unless its handler failed");
        });
        reach("end");
    }
    // A remote reference to an actor of this node works, whoever this node is connected to.
    c26_local {
        block_on(async {
            let n = node(choose(3, "peers")).await;
            let (r, f, out) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let x = remote::<Probe>(&n, "p").await;
            check(x.id() == r.id(), "the reference found is to the actor registered");
            let msg = R { v: 5, k: choose(6, "kind") as u8 };
            let stop = flip("stopped");
            if stop { r.kill(); settle().await }
            let how = choose(4, "how");
            let (m, y) = (msg.clone(), x.clone());
            let (l, _) = later(async move {
                match how {
                    0 => asked(&y.ask(&m).send().await),
                    1 => asked(&y.ask(&m).try_send().await),
                    2 => told(&y.tell(&m).send().await),
                    _ => told(&y.tell(&m).try_send().await),
                }
            });
            settle().await;
            check(n.sent().is_empty(), "requests to actors of this node stay on this node");
            let expect = if stop { End::NotRunning } else if how < 2 { outcome(&msg) } else { End::Done };
            check(l.get() == Some(expect), "the outcome is that of a local request");
            check(handled(1) == if stop { vec![] } else { vec![5] }, "handled once");
            let fails = msg.k == 2 || (how > 1 && matches!(msg.k, 1 | 5));
            check(out.get().is_some() == (stop || fails), "the actor goes on unless its handler failed");
        });
        reach("end");
    }
    // Its options are honoured too, while the actor is busy or its mailbox full.
    c26_self {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let gate = Gate::default();
            let (r, f, _) = prepare(Probe::with(1, Cfg { handler_gate: Some(gate.clone()), ..Cfg::default() }), 1);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let x = remote::<Probe>(&n, "p").await;
            let full = flip("full");
            r.tell(M(1)).try_send().unwrap();
            settle().await;
            if full { r.tell(M(2)).try_send().unwrap() }
            let (how, mt, rt) = (choose(4, "how"), flip("mailbox timeout"), flip("reply timeout"));
            let (l, _) = later(async move {
                let m = R { v: 5, k: 0 };
                let q = || x.ask(&m);
                match (how, mt, rt) {
                    (0, false, false) => asked(&q().send().await),
                    (0, true, false) => asked(&q().mailbox_timeout(MS(10)).send().await),
                    (0, false, true) => asked(&q().reply_timeout(MS(30)).send().await),
                    (0, true, true) => asked(&q().mailbox_timeout(MS(10)).reply_timeout(MS(30)).send().await),
                    (1, _, false) => asked(&q().try_send().await),
                    (1, _, true) => asked(&q().reply_timeout(MS(30)).try_send().await),
                    (2, false, _) => told(&x.tell(&m).send().await),
                    (2, true, _) => told(&x.tell(&m).mailbox_timeout(MS(10)).send().await),
                    _ => told(&x.tell(&m).try_send().await),
                }
            });
            settle().await;
            check(n.sent().is_empty(), "requests to actors of this node stay on this node");
            let (ask, now) = (how < 2, how % 2 == 1);
            // when it ends if nothing else happens, and how
            let ends = if full && now { Some((0, End::Full)) }
                else if full { mt.then_some((10, End::Timeout)) }
                else if !ask { Some((0, End::Done)) }
                else { rt.then_some((30, End::Timeout)) };
            let mut at = 0;
            for t in [8, 12, 28, 32, 60] {
                if let Some((e, how)) = &ends {
                    if at < *e || *e == 0 { if *e <= at { check(l.get() == Some(how.clone()), "at once when nothing is in the way") } else { check(l.get().is_none(), "not before its timeout") } }
                    else { check(l.get() == Some(how.clone()), "when its timeout expires") }
                } else { check(l.get().is_none(), "without a timeout it waits") }
                tokio::time::sleep(MS(t - at)).await;
                at = t;
            }
            gate.open();
            settle().await;
            let delivered = !full || !matches!(ends, Some((_, End::Full | End::Timeout)));
            check(l.get() == Some(match ends { Some((_, e)) => e, None if ask => End::Reply(6), None => End::Done }), "the outcome is that of a local request");
            check(handled(1) == [vec![1], if full { vec![2] } else { vec![] }, if delivered { vec![5] } else { vec![] }].concat(), "handled once when delivered");
        });
        reach("end");
    }
    // The whole way: caller, wire, the actor's node, wire, caller.
    c26_loop {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let rec = record(&n, &r, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            check(x.id() == ActorID::new_with_peer_id(r.id().sequence_id(), peer(101)), "the reference found is to the actor registered there");
            let v = [0, 5, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX - 2][choose(11, "value")];
            let msg = R { v, k: choose(6, "kind") as u8 };
            let how = choose(4, "how");
            let (m, y) = (msg.clone(), x.clone());
            let mt = if how % 2 == 1 { None } else { Some(MS(3)) };
            let rt = Some(MS(4));
            let (l, _) = later(async move {
                match how {
                    0 => asked(&y.ask(&m).mailbox_timeout(MS(3)).reply_timeout(MS(4)).send().await),
                    1 => asked(&y.ask(&m).reply_timeout(MS(4)).try_send().await),
                    2 => told(&y.tell(&m).mailbox_timeout(MS(3)).send().await),
                    _ => told(&y.tell(&m).try_send().await),
                }
            });
            settle().await;
            let mut s = n.sent();
            check(s.len() == 1 && s[0].1 == peer(101), "one request, to the actor's node");
            let (id, _, q) = s.pop().unwrap();
            // the node it arrives at knows the actor by the same id; here this node plays both
            let q = match wire(&q).unwrap() {
                SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate } => {
                    check(how < 2 && actor_id == x.id() && mailbox_timeout == mt && reply_timeout == rt && immediate == (how == 1), "the request carries what was asked for");
                    SwarmRequest::Ask { actor_id: abroad(actor_id), actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate }
                }
                SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate } => {
                    check(how >= 2 && actor_id == x.id() && mailbox_timeout == mt && immediate == (how == 3), "the request carries what was told");
                    SwarmRequest::Tell { actor_id: abroad(actor_id), actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate }
                }
                _ => { check(false, "an ask or a tell"); return }
            };
            let mut w = n.request(102, q);
            settle().await;
            let Some(Ok(a)) = w.get() else { check(false, "the request is answered"); return };
            check(l.get().is_none(), "the caller waits for the answer");
            n.response(id, wire(&a).unwrap());
            settle().await;
            check(l.get() == Some(if how < 2 { outcome(&msg) } else { End::Done }), "the caller gets the outcome of its request");
            check(handled(1) == vec![v], "handled once");
        });
        reach("end");
    }
    // Every operation that involves the network ends with the answer to it.
    c27_ends {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let rec = record(&n, &r, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let o = op(&n, choose(OPS, "op"), &x, &r, 5, false).await;
            check(o.end.get().is_none(), "no end before an answer");
            // answers to nothing that was asked
            n.response(o.id + 9, SwarmResponse::Tell(Ok(())));
            n.failure(o.id + 8, failure(0).0);
            n.got(o.id as usize + 7, Ok(kad::PeerRecord { peer: None, record: rec.clone() }));
            n.put(o.id as usize + 7, Ok(kad::PutRecordOk { key: rec.key.clone() }));
            settle().await;
            check(o.end.get().is_none(), "no end by the answer to something else");
            let e = if flip("ok") { o.succeed(&n, &rec, r.id().sequence_id(), 9) } else { o.fail(&n, rec.key.clone(), choose(o.failures(), "failure")) };
            settle().await;
            check(o.end.get() == Some(e.clone()), "the operation ends with its answer");
            // the same again is ignored
            o.succeed(&n, &rec, 0, 9);
            o.fail(&n, rec.key.clone(), 0);
            settle().await;
            check(o.end.get() == Some(e), "and only once");
        });
        reach("end");
    }
    // What this node is told to do to the network is done, and the result is reported to who asked.
    c27_swarm {
        block_on(async {
            let n = node(1).await;
            let me = ActorSwarm::get().unwrap();
            check(me.local_peer_id() == &peer(ME), "this node");
            let addr = |i| Multiaddr::empty().with(libp2p::multiaddr::Protocol::Memory(i));
            let abandon = flip("abandoned");
            match choose(5, "command") {
                0 => {
                    let how = choose(3, "address");
                    let f = me.listen_on(match how { 0 => addr(5), 1 => Multiaddr::empty(), _ => addr(5).with(libp2p::multiaddr::Protocol::Memory(6)) });
                    if abandon { drop(f) } else {
                        let (l, _) = later(async move { match f.await { Ok(_) => 0, Err(libp2p::TransportError::Other(_)) => 1, Err(libp2p::TransportError::MultiaddrNotSupported(_)) => 2 } });
                        settle().await;
                        check(l.get() == Some(how), "listening is reported");
                    }
                    settle().await;
                    check(matches!(n.net(|n| n.mode), Some(kad::Mode::Server)), "a node that listens serves records");
                }
                1 => {
                    let how = choose(2, "known");
                    let f = if how == 0 { me.dial(addr(9)) } else { me.dial(peer(50)) };
                    if abandon { drop(f) } else {
                        let (l, _) = later(async move { f.await.is_ok() });
                        settle().await;
                        check(l.get() == Some(how == 0), "dialing is reported");
                    }
                    settle().await;
                    n.turn().await;
                    check(n.connected().len() == 2 - how, "and done");
                }
                2 => {
                    me.add_peer_address(peer(50), addr(3));
                    settle().await;
                    check(n.net(|n| n.learned.clone()) == vec![(peer(50), addr(3))], "the address is known");
                }
                3 => {
                    let p = [101, 50][choose(2, "connected")];
                    me.disconnect_peer_id(peer(p));
                    settle().await;
                    n.turn().await;
                    check(n.connected().len() == usize::from(p == 50), "disconnected");
                }
                _ => {
                    let list: Vec<_> = (0..choose(3, "discovered") as u8).map(|i| (peer(60 + i), addr(i as u64 + 1))).collect();
                    n.discovered(list.clone());
                    check(n.net(|n| n.addresses.clone()) == list, "discovered nodes are known");
                }
            }
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let x = remote::<Probe>(&n, "p").await;
            let (l, _) = later(async move { asked(&x.ask(&R { v: 5, k: 0 }).send().await) });
            settle().await;
            check(l.get() == Some(End::Reply(6)), "and the node goes on");
        });
        reach("end");
    }
    // Undecodable answers are errors, not panics.
    c27_garbage {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let rec = record(&n, &r, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let o = op(&n, ASK, &x, &r, 5, flip("immediate")).await;
            let bytes: Vec<u8> = [&[][..], &[0xc1], &[0xcd, 1], &[0xa1, b'x'], &[0xcf, 1, 2, 3]][choose(5, "garbage")].to_vec();
            if flip("ok") {
                n.response(o.id, SwarmResponse::Ask(Ok(bytes)));
                settle().await;
                check(o.end.get() == Some(End::DeMsg), "an unreadable reply is an error");
            } else {
                n.response(o.id, SwarmResponse::Ask(Err(RemoteSendError::HandlerError(bytes))));
                settle().await;
                check(o.end.get() == Some(End::DeErr), "an unreadable error is an error");
            }
        });
        reach("end");
    }
    // Operations in flight together end each with its own answer, whatever the order; given up ones disturb nothing.
    c27_together {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let rec = record(&n, &r, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let k = b(2, 3);
            let mut ops = vec![];
            for i in 0..k { let o = op(&n, choose(OPS, "op"), &x, &r, 5 + i as u64, false).await; ops.push((o, None, i as u64)) }
            let gone = choose(k + 1, "given up");
            if gone < k { ops[gone].0.task.abort(); settle().await }
            let mut left: Vec<usize> = (0..k).collect();
            while !left.is_empty() {
                let i = left.remove(if left.len() > 1 { choose(left.len(), "which") } else { 0 });
                let (o, e, v) = &mut ops[i];
                let end = if flip("ok") { o.succeed(&n, &rec, r.id().sequence_id(), 100 + *v) } else { o.fail(&n, rec.key.clone(), [0, o.failures() - 1][choose(2, "failure")]) };
                if i != gone { *e = Some(end) }
                settle().await;
                for (j, (o, e, _)) in ops.iter().enumerate() { check(o.end.get() == *e, if j == i { "the operation answered ends with that" } else { "the others are unaffected" }) }
            }
        });
        reach("end");
    }
}
