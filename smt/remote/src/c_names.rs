use crate::exec::*;
use crate::rig::*;
use crate::sym::*;

/// Lets the operation finish, the network keeping to what this node stores.
async fn finish(n: &Node, l: &Later<End>) -> Option<End> {
    settle().await;
    for (q, rec) in n.net(|n| std::mem::take(&mut n.puts)) { n.put(q, Ok(kad::PutRecordOk { key: rec.key })) }
    for (q, key) in n.net(|n| std::mem::take(&mut n.gets)) {
        match n.net(|n| n.store.iter().find(|r| r.key == key).cloned()) {
            Some(record) => n.got(q, Ok(kad::PeerRecord { peer: None, record })),
            None => n.got(q, Err(kad::GetRecordError::NotFound { key, closest_peers: vec![] })),
        }
    }
    settle().await;
    l.get()
}
const NAMES: [&str; 2] = ["a", "b"];

crate::sym::harnesses! {
    // Names found are those registered and not unregistered, with the actor last registered under them.
    c31_names {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::new(2), 4);
            tokio::spawn(g);
            let o = kameo::spawn(Other(3));
            // who holds each name: 0 nobody, 1 r, 2 s, 3 o
            let mut model = [0usize; 2];
            for _ in 0..b(3, 4) {
                let i = choose(2, "name");
                let name = NAMES[i];
                let what = choose(4, "op");
                let (r2, s2, o2) = (r.clone(), s.clone(), o.clone());
                let (l, _) = later(async move {
                    match what {
                        0 => registered(&r2.register(name).await),
                        1 => registered(&s2.register(name).await),
                        2 => registered(&o2.register(name).await),
                        _ => registered(&ActorSwarm::get().unwrap().unregister(name.into()).await),
                    }
                });
                check(finish(&n, &l).await == Some(End::Done), "done");
                model[i] = [1, 2, 3, 0][what];
            }
            for i in 0..2 {
                let name = NAMES[i];
                let seq = |k: usize| End::Reply([0, r.id().sequence_id(), s.id().sequence_id(), o.id().sequence_id()][k]);
                let probe = match model[i] { 0 => End::Absent, 3 => End::BadType, k => seq(k) };
                let other = match model[i] { 0 => End::Absent, 3 => seq(3), _ => End::BadType };
                let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup(name).await) });
                check(finish(&n, &l).await == Some(probe.clone()), "found here by type");
                let (l, _) = later(async move { named_here(&ActorRef::<Other>::lookup(name).await) });
                check(finish(&n, &l).await == Some(other.clone()), "found here by the other type");
                let (l, _) = later(async move { named(&RemoteActorRef::<Probe>::lookup(name).await) });
                check(finish(&n, &l).await == Some(probe), "found anywhere by type");
                let (l, _) = later(async move { named(&RemoteActorRef::<Other>::lookup(name).await) });
                check(finish(&n, &l).await == Some(other), "found anywhere by the other type");
            }
        });
        reach("end");
    }
    // What other nodes put into the network, whatever it is, never breaks this node or a lookup.
    c31_malformed {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let good = n.net(|n| n.store[0].value.clone());
            let mut v = good.clone();
            match choose(5, "how") {
                0 => v.clear(),
                1 => v.truncate(choose(good.len(), "cut")),
                2 => {
                    // the peer id's length, the sequence id, the peer id's kind, length and content, and the actor's name
                    let at = [0, 4, 9, 10, 20, good.len() - 1];
                    let i = choose(b(at.len(), good.len()), "at");
                    v[b(at[i % at.len()], i)] = u64v("byte") as u8
                }
                3 => v = if b(0, 1) == 1 { bytes::<4>("bytes").to_vec() } else { bytes::<2>("bytes").to_vec() },
                _ => v.push(0xff),
            }
            let same = v == good;
            n.net(|n| n.store[0].value = v);
            let here = flip("here");
            let (l, _) = later(async move { if here { named_here(&ActorRef::<Probe>::lookup("p").await) } else { named(&RemoteActorRef::<Probe>::lookup("p").await) } });
            let e = finish(&n, &l).await;
            check(e.is_some(), "the lookup ends");
            if same { check(e == Some(End::Reply(r.id().sequence_id())), "found") }
            // this node still works
            let (l, _) = later(async move { named(&RemoteActorRef::<Probe>::lookup("q").await) });
            check(finish(&n, &l).await == Some(End::Absent), "later lookups work");
            let q = SwarmRequest::Ask { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&R { v: 8, k: 0 }), mailbox_timeout: None, reply_timeout: None, immediate: false };
            let mut w = n.request(102, q);
            settle().await;
            let Some(Ok(x)) = w.get() else { check(false, "a later ask is answered"); return };
            check(ask_end(x) == End::Reply(9), "a later ask is served");
        });
        reach("end");
    }
    // A node whose record store is full reports that and goes on.
    c31_full {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            n.net(|n| n.full = true);
            let (r2, un) = (r.clone(), flip("unregister"));
            let (l, _) = later(async move { if un { registered(&ActorSwarm::get().unwrap().unregister("a".into()).await) } else { registered(&r2.register("a").await) } });
            let e = finish(&n, &l).await;
            check(e.is_some(), "the operation ends");
            if !un { check(e != Some(End::Done), "registering fails") }
            n.net(|n| n.full = false);
            register(&n, &r, "b").await;
            let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup("b").await) });
            check(finish(&n, &l).await == Some(End::Reply(r.id().sequence_id())), "and the node goes on");
            let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup("a").await) });
            check(finish(&n, &l).await == Some(End::Absent), "the name is not taken");
        });
        reach("end");
    }
    // Registering that fails leaves the actor unreachable by name and by other nodes.
    c31_refused {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let r2 = r.clone();
            let (l, _) = later(async move { registered(&r2.register("a").await) });
            settle().await;
            let ask = || SwarmRequest::Ask { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&R { v: 8, k: 0 }), mailbox_timeout: None, reply_timeout: None, immediate: false };
            let mut w = n.request(102, ask());
            settle().await;
            let Some(Ok(x)) = w.get() else { check(false, "answered"); return };
            check(ask_end(x) == End::NotRunning, "not reachable before it is registered");
            let (q, rec) = n.net(|n| n.puts.pop()).unwrap();
            let how = choose(3, "how");
            n.put(q, match how {
                0 => Ok(kad::PutRecordOk { key: rec.key }),
                1 => Err(kad::PutRecordError::QuorumFailed { key: rec.key, success: vec![], quorum: ONE }),
                _ => Err(kad::PutRecordError::Timeout { key: rec.key, success: vec![], quorum: ONE }),
            });
            settle().await;
            check(l.get() == Some([End::Done, End::Quorum, End::Timeout][how].clone()), "registering ends as the network says");
            let mut w = n.request(102, ask());
            settle().await;
            let Some(Ok(x)) = w.get() else { check(false, "answered"); return };
            check(ask_end(x) == if how == 0 { End::Reply(9) } else { End::NotRunning }, "reachable exactly when registered");
        });
        reach("end");
    }
    // The same for an actor that stops while it is being registered, before or after the network answers.
    c31_stopping {
        block_on(async {
            let n = node(1).await;
            let gate = Gate::default();
            let (r, f, out) = prepare(Probe::with(1, Cfg { stop_gate: Some(gate.clone()), ..Cfg::default() }), 4);
            tokio::spawn(f);
            let r2 = r.clone();
            let (l, _) = later(async move { registered(&r2.register("a").await) });
            settle().await;
            let (q, rec) = n.net(|n| n.puts.pop()).unwrap();
            // in what order the actor is killed, its stop hook ends and the network answers
            let at = choose(3, "answer");
            if at == 0 { n.put(q, Ok(kad::PutRecordOk { key: rec.key.clone() })); if flip("settle") { settle().await } }
            match choose(3, "stop") { 0 => r.kill(), 1 => { r.stop_gracefully().await.ok(); } _ => { r.tell(R { v: 1, k: 2 }).try_send().ok(); } }
            settle().await;
            if at == 1 { n.put(q, Ok(kad::PutRecordOk { key: rec.key.clone() })); if flip("settle") { settle().await } }
            gate.open();
            settle().await;
            check(out.get().is_some(), "stopped");
            if at == 2 { n.put(q, Ok(kad::PutRecordOk { key: rec.key })); settle().await }
            check(l.get() == Some(End::Done), "registering ends as the network says");
            let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup("a").await) });
            check(finish(&n, &l).await == Some(End::Absent), "not found here once stopped");
        });
        reach("end");
    }
    // An actor that stopped is not found here any more, and asking it says so; one still registered is kept alive.
    c31_stopped {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let (r, f, out) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "a").await;
            let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup("a").await) });
            check(finish(&n, &l).await == Some(End::Reply(r.id().sequence_id())), "found while running");
            let id = r.id();
            let how = choose(4, "stop");
            match how {
                0 => r.kill(),
                1 => { let _ = r.stop_gracefully().await; }
                2 => r.tell(R { v: 1, k: 2 }).try_send().unwrap(),
                _ => drop(r),
            }
            settle().await;
            check(out.get().is_some() == (how < 3), "a registered actor lives on without other references");
            let (l, _) = later(async move { named_here(&ActorRef::<Probe>::lookup("a").await) });
            check(finish(&n, &l).await == Some(if how < 3 { End::Absent } else { End::Reply(id.sequence_id()) }), "found here while running only");
            let q = SwarmRequest::Ask { actor_id: abroad(id), actor_remote_id: PROBE.into(), message_remote_id: "r".into(), payload: payload(&R { v: 8, k: 0 }), mailbox_timeout: None, reply_timeout: None, immediate: false };
            let mut w = n.request(102, q);
            settle().await;
            let Some(Ok(x)) = w.get() else { check(false, "answered"); return };
            check(ask_end(x) == if how < 3 { End::NotRunning } else { End::Reply(9) }, "served while running only");
        });
        reach("end");
    }
}
