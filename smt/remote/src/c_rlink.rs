use crate::exec::*;
use crate::rig::*;
use crate::sym::*;

fn reason(i: usize, other: ActorID) -> (ActorStopReason, Why) {
    match i {
        0 => (ActorStopReason::Normal, Why::Normal),
        1 => (ActorStopReason::Killed, Why::Killed),
        2 => (ActorStopReason::PeerDisconnected, Why::Other),
        3 => (ActorStopReason::LinkDied { id: other, reason: Box::new(ActorStopReason::Killed) }, Why::LinkDied(other, Box::new(Why::Killed))),
        _ => (ActorStopReason::Panicked(PanicError::new(Box::new("boom"))), Why::Panicked(4)),
    }
}
/// Links `r` to `x`; the other node agrees.
async fn link(n: &Node, r: &ActorRef<Probe>, x: &RemoteActorRef<Probe>) {
    let o = op(n, LINK, x, r, 0, false).await;
    n.response(o.id, SwarmResponse::Link(Ok(())));
    settle().await;
    check(o.end.get() == Some(End::Done), "linked");
    n.sent();
}
fn deaths(n: &Node) -> Vec<(u64, PeerId, ActorID, ActorID, String, ActorStopReason)> {
    n.sent().into_iter().filter_map(|(i, p, q)| match wire(&q) {
        Some(SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason }) => Some((i, p, dead_actor_id, notified_actor_id, notified_actor_remote_id.to_string(), stop_reason)),
        _ => { check(false, "only reports of deaths are sent, and they survive the wire"); None }
    }).collect()
}

crate::sym::harnesses! {
    // Linking to an actor elsewhere tells its node; the death of either reaches the other.
    c28_link {
        block_on(async {
            let n = node(1).await;
            let cfg = Cfg { link: Policy::Continue, ..Cfg::default() };
            let (r, f, out) = prepare(Probe::with(1, cfg), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::new(2), 4);
            tokio::spawn(g);
            let rec = record(&n, &s, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let r2 = r.clone(); let x2 = x.clone();
            let by = flip("linked from here");
            if by {
                let (l, _) = later(async move { told(&r2.link_remote(&x2).await) });
                settle().await;
                let mut q = n.sent();
                check(q.len() == 1 && q[0].1 == peer(101), "the other actor's node is asked");
                let (id, _, q) = q.pop().unwrap();
                let Some(SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id }) = wire(&q) else { check(false, "to link"); return };
                check(actor_id == x.id() && actor_remote_id == PROBE && sibbling_id == r.id() && sibbling_remote_id == PROBE, "the other to this");
                check(sibbling_id.peer_id() == Some(&peer(ME)), "where this node is known");
                n.response(id, SwarmResponse::Link(Ok(())));
                settle().await;
                check(l.get() == Some(End::Done), "linked");
            } else {
                register(&n, &r, "r").await;
                let mut w = n.request(101, SwarmRequest::Link { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), sibbling_id: x.id(), sibbling_remote_id: PROBE.into() });
                settle().await;
                check(matches!(w.get(), Some(Ok(SwarmResponse::Link(Ok(()))))), "linked by the other node");
                n.sent();
            }
            let un = choose(3, "unlink");
            if un == 1 {
                let (r2, x2) = (r.clone(), x.clone());
                let (l, _) = later(async move { told(&r2.unlink_remote(&x2).await) });
                settle().await;
                let mut q = n.sent();
                check(q.len() == 1 && q[0].1 == peer(101), "the other actor's node is asked to unlink");
                let (id, _, q) = q.pop().unwrap();
                let Some(SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id }) = wire(&q) else { check(false, "to unlink"); return };
                check(actor_id == x.id() && actor_remote_id == PROBE && sibbling_id == r.id(), "the other from this");
                n.response(id, SwarmResponse::Unlink(Ok(())));
                settle().await;
                check(l.get() == Some(End::Done), "unlinked");
            } else if un == 2 {
                let mut w = n.request(101, SwarmRequest::Unlink { actor_id: abroad(r.id()), actor_remote_id: PROBE.into(), sibbling_id: x.id() });
                settle().await;
                check(matches!(w.get(), Some(Ok(SwarmResponse::Unlink(Ok(()))))), "unlinked by the other node");
            }
            match choose(3, "what") {
                0 => {
                    let how = choose(3, "cause");
                    match how {
                        0 => r.kill(),
                        1 => r.tell(R { v: 5, k: 2 }).try_send().unwrap(),
                        _ => r.stop_gracefully().await.unwrap(),
                    }
                    settle().await;
                    let d = deaths(&n);
                    if un > 0 { check(d.is_empty(), "unlinked actors are not told") } else {
                        check(d.len() == 1, "the death is reported once");
                        let (id, p, dead, to, kind, why_) = d.into_iter().next().unwrap();
                        check(p == peer(101) && dead == r.id() && dead.peer_id() == Some(&peer(ME)) && to == x.id() && kind == PROBE, "to the linked actor");
                        check(match how { 0 => why(&why_) == Why::Killed, 1 => matches!(why_, ActorStopReason::Panicked(_)), _ => why(&why_) == Why::Normal }, "with the reason");
                        n.response(id, SwarmResponse::SignalLinkDied(Ok(())));
                    }
                    settle().await;
                    check(out.get().is_some(), "and the actor is gone");
                }
                1 => {
                    let (e, y) = reason(choose(5, "reason"), s.id());
                    let q = SwarmRequest::SignalLinkDied { dead_actor_id: x.id(), notified_actor_id: abroad(r.id()), notified_actor_remote_id: PROBE.into(), stop_reason: e };
                    let Some(q) = wire(&q) else { check(false, "reports of deaths survive the wire"); return };
                    let mut w = n.request(101, q);
                    settle().await;
                    check(matches!(w.get(), Some(Ok(SwarmResponse::SignalLinkDied(Ok(()))))), "the report is acknowledged");
                    let d = linkdeaths(1);
                    check(d.len() == 1 && d[0].0 == x.id(), "the linked actor is told once of whose death");
                    check(if let Why::Panicked(_) = y { matches!(d[0].1, Why::Panicked(_)) } else { d[0].1 == y }, "and of the reason");
                    r.kill();
                    settle().await;
                    check(deaths(&n).is_empty(), "the dead are not told");
                }
                _ => {
                    let p = [101, 102][choose(2, "peer")];
                    let left = choose(2, "other connections") as u32;
                    n.closed(p, left);
                    settle().await;
                    let d = linkdeaths(1);
                    let gone = p == 101 && left == 0 && un == 0;
                    check(d == if gone { vec![(x.id(), Why::Other)] } else { vec![] }, "told exactly when the last connection to the linked actor's node is lost");
                    n.closed(101, 0);
                    settle().await;
                    check(linkdeaths(1).len() == usize::from(un == 0), "told once");
                    r.kill();
                    settle().await;
                    check(deaths(&n).is_empty(), "lost actors are not told");
                }
            }
            check(linkdeaths(2).is_empty(), "others are not told");
        });
        reach("end");
    }
    // Linked and unlinked by the other node while the actor is stopping: what counts is what holds once it has stopped.
    c28_stopping {
        block_on(async {
            let n = node(1).await;
            let gate = Gate::default();
            let (r, f, out) = prepare(Probe::with(1, Cfg { stop_gate: Some(gate.clone()), ..Cfg::default() }), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::new(2), 4);
            tokio::spawn(g);
            let rec = record(&n, &s, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            register(&n, &r, "r").await;
            let (me, sib) = (abroad(r.id()), x.id());
            let link = || SwarmRequest::Link { actor_id: me, actor_remote_id: PROBE.into(), sibbling_id: sib, sibbling_remote_id: PROBE.into() };
            let mut linked = flip("linked");
            if linked { let mut w = n.request(101, link()); settle().await; check(matches!(w.get(), Some(Ok(SwarmResponse::Link(Ok(()))))), "linked") }
            let kill = flip("kill");
            if kill { r.kill() } else { r.stop_gracefully().await.unwrap() }
            settle().await;
            check(gate.waiting() == 1, "the actor is stopping");
            for _ in 0..b(1, 2) {
                match choose(3, "op while stopping") {
                    0 => { let mut w = n.request(101, link()); settle().await; linked = matches!(w.get(), Some(Ok(SwarmResponse::Link(Ok(()))))) || linked }
                    1 => {
                        let mut w = n.request(101, SwarmRequest::Unlink { actor_id: me, actor_remote_id: PROBE.into(), sibbling_id: sib });
                        settle().await;
                        if let Some(Ok(SwarmResponse::Unlink(Ok(())))) = w.get() { linked = false }
                    }
                    _ => {}
                }
            }
            check(deaths(&n).is_empty(), "no death is reported before it");
            gate.open();
            settle().await;
            check(out.get().is_some() || linked, "the actor stops");
            let d = deaths(&n);
            check(d.len() == usize::from(linked), "the death is reported exactly when linked at the end");
            for (id, p, dead, to, _, w) in d {
                check(p == peer(101) && dead == r.id() && to == x.id() && why(&w) == if kill { Why::Killed } else { Why::Normal }, "to the linked actor, with its reason");
                // while the report is on its way the actor can no longer be linked
                let mut w = n.request(101, link());
                settle().await;
                check(matches!(w.get(), Some(Ok(SwarmResponse::Link(Err(_))))), "a dead actor is not linked");
                n.response(id, SwarmResponse::SignalLinkDied(Ok(())));
            }
            settle().await;
            check(out.get().is_some(), "and the actor is gone");
            let mut w = n.request(101, link());
            settle().await;
            check(matches!(w.get(), Some(Ok(SwarmResponse::Link(Err(_))))), "a dead actor is not linked");
            check(deaths(&n).is_empty(), "nothing else is reported");
        });
        reach("end");
    }
    // Losing a node is told to exactly the actors linked to actors there, each once; by default they stop.
    c28_lost {
        block_on(async {
            let n = node(2).await;
            let pol = [Policy::Continue, Policy::Break, Policy::Err][choose(3, "policy")];
            let (r, f, out) = prepare(Probe::with(1, Cfg { link: pol, ..Cfg::default() }), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::new(2), 4);
            tokio::spawn(g);
            let rec = record(&n, &s, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let rec = record(&n, &r, 101).await;
            let z = elsewhere::<Probe>(&n, &rec).await;
            let rec = record(&n, &s, 102).await;
            let y = elsewhere::<Probe>(&n, &rec).await;
            let o = kameo::spawn(Other(3));
            settle().await;
            let (rx, ry, sx, ox) = (flip("1-x"), flip("1-y"), flip("2-x"), flip("other-x"));
            // another actor of the same node
            let rz = flip("1-z");
            if rz { link(&n, &r, &z).await }
            if rx { link(&n, &r, &x).await }
            if ry { link(&n, &r, &y).await }
            if sx { link(&n, &s, &x).await }
            if ox { let (o2, x2) = (o.clone(), x.clone()); let (l, _) = later(async move { o2.link_remote(&x2).await.is_ok() }); settle().await; let q = n.sent(); n.response(q[0].0, SwarmResponse::Link(Ok(()))); settle().await; check(l.get() == Some(true), "linked") }
            n.closed(101, 0);
            settle().await;
            let stops_ = (rx || rz) && pol != Policy::Continue;
            let d1 = linkdeaths(1);
            let told_of = |i| d1.iter().filter(|d| **d == (i, Why::Other)).count();
            if stops_ {
                check(d1.len() == 1 && told_of(x.id()) <= usize::from(rx) && told_of(z.id()) <= usize::from(rz) && told_of(y.id()) == 0, "the first stops by one of its lost links");
            } else {
                check(d1.len() == usize::from(rx) + usize::from(rz) && told_of(x.id()) == usize::from(rx) && told_of(z.id()) == usize::from(rz), "the first is told of its lost links only");
            }
            check(linkdeaths(2) == if sx { vec![(x.id(), Why::Other)] } else { vec![] }, "the second is told of its lost link only");
            check(o.is_alive() != ox, "an actor that does not care stops when a link is lost");
            // the other node is told of a death only if linked to it
            let d = deaths(&n);
            check(d.iter().filter(|d| d.2 == r.id() && d.3 == y.id()).count() == usize::from(stops_ && ry), "links to other nodes are told of the death that follows");
            for (id, ..) in d { n.response(id, SwarmResponse::SignalLinkDied(Ok(()))) }
            settle().await;
            check(out.get().is_some() == stops_, "what the actor then does is its own decision");
            n.closed(102, 0);
            settle().await;
            if !stops_ { check(linkdeaths(1).len() == usize::from(rx) + usize::from(rz) + usize::from(ry), "losing the other node is told too") }
        });
        reach("end");
    }
    // Link requests about actors that do not exist change nothing and say why.
    c28_wrong {
        block_on(async {
            let n = node(1).await;
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            register(&n, &r, "p").await;
            let o = kameo::spawn(Other(2));
            register(&n, &o, "o").await;
            let to = choose(4, "actor");
            let id = [abroad(r.id()), abroad(o.id()), ActorID::new_with_peer_id(77, peer(ME)), ActorID::new_with_peer_id(r.id().sequence_id(), peer(101))][to];
            let a = [PROBE, OTHER, "x"][choose(3, "type")];
            let b_ = ActorID::new_with_peer_id(3, peer(101));
            let expect = if a == "x" { End::UnknownActor("x".into()) } else if to > 1 { End::NotRunning } else if (to == 0) != (a == PROBE) { End::BadType } else { End::Done };
            let what = choose(3, "what");
            let q = match what {
                0 => SwarmRequest::Link { actor_id: id, actor_remote_id: a.into(), sibbling_id: b_, sibbling_remote_id: PROBE.into() },
                1 => SwarmRequest::Unlink { actor_id: id, actor_remote_id: a.into(), sibbling_id: b_ },
                _ => SwarmRequest::SignalLinkDied { dead_actor_id: b_, notified_actor_id: id, notified_actor_remote_id: a.into(), stop_reason: ActorStopReason::Normal },
            };
            let mut w = n.request(101, wire(&q).unwrap());
            settle().await;
            let Some(Ok(x)) = w.get() else { check(false, "the request is answered"); return };
            let end = match wire(&x) {
                Some(SwarmResponse::Link(r)) if what == 0 => told(&r),
                Some(SwarmResponse::Unlink(r)) if what == 1 => told(&r),
                Some(SwarmResponse::SignalLinkDied(r)) if what == 2 => told(&r),
                _ => End::Mismatch,
            };
            check(end == expect, "the answer says what was wrong");
            check(linkdeaths(1).len() == usize::from(what == 2 && expect == End::Done && to == 0), "only the actor named is told");
            let linked = what == 0 && expect == End::Done;
            r.kill();
            o.kill();
            settle().await;
            let d = deaths(&n);
            check(d.len() == usize::from(linked), "only correct links are made");
            if linked { check(d[0].2 == [r.id(), o.id()][to] && d[0].3 == b_, "the right ones") }
        });
        reach("end");
    }
    // Linking two actors of other nodes asks both nodes; it succeeds when both agree.
    c28_both {
        block_on(async {
            let n = node(2).await;
            let (s, g, _) = prepare(Probe::new(2), 4);
            tokio::spawn(g);
            let rec = record(&n, &s, 101).await;
            let x = elsewhere::<Probe>(&n, &rec).await;
            let rec = record(&n, &s, 102).await;
            let y = elsewhere::<Probe>(&n, &rec).await;
            let un = flip("unlink");
            let (x2, y2) = (x.clone(), y.clone());
            let (l, _) = later(async move { if un { told(&x2.unlink_remote(&y2).await) } else { told(&x2.link_remote(&y2).await) } });
            settle().await;
            let q = n.sent();
            check(q.len() == 2, "both nodes are asked");
            for (a, b_) in [(&x, &y), (&y, &x)] {
                check(q.iter().filter(|(_, p, q)| Some(p) == a.id().peer_id() && match q {
                    SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id } => !un && *actor_id == a.id() && actor_remote_id == PROBE && *sibbling_id == b_.id() && sibbling_remote_id == PROBE,
                    SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id } => un && *actor_id == a.id() && actor_remote_id == PROBE && *sibbling_id == b_.id(),
                    _ => false,
                }).count() == 1, "each about its actor");
            }
            let first = choose(2, "first");
            let ok = [flip("ok"), flip("ok")];
            for k in 0..2 {
                let i = if k == 0 { first } else { 1 - first };
                let e = if ok[k] { Ok(()) } else { Err(RemoteSendError::BadActorType) };
                n.response(q[i].0, if un { SwarmResponse::Unlink(e) } else { SwarmResponse::Link(e) });
                settle().await;
                if k == 0 { check(l.get() == if ok[0] { None } else { Some(End::BadType) }, "not done until both agree") }
            }
            check(l.get() == Some(if ok[0] && ok[1] { End::Done } else { End::BadType }), "done when both agree");
        });
        reach("end");
    }
    // The same over one node: actors linked through remote references.
    c28_here {
        block_on(async {
            let n = node(choose(2, "peers")).await;
            let (r, f, _) = prepare(Probe::with(1, Cfg { link: Policy::Continue, ..Cfg::default() }), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::with(2, Cfg { link: Policy::Continue, ..Cfg::default() }), 4);
            tokio::spawn(g);
            register(&n, &s, "s").await;
            let x = remote::<Probe>(&n, "s").await;
            let (r2, x2) = (r.clone(), x.clone());
            let (l, _) = later(async move { told(&r2.link_remote(&x2).await) });
            settle().await;
            check(l.get() == Some(End::Done), "linked");
            let un = flip("unlink");
            if un { let (r2, x2) = (r.clone(), x.clone()); let (l, _) = later(async move { told(&r2.unlink_remote(&x2).await) }); settle().await; check(l.get() == Some(End::Done), "unlinked") }
            let first = flip("first");
            if first { r.kill() } else { s.kill() }
            settle().await;
            let (a, b_) = if first { (2, 1) } else { (1, 2) };
            let id = if first { r.id() } else { s.id() };
            check(linkdeaths(a) == if un { vec![] } else { vec![(id, Why::Killed)] }, "the survivor is told");
            check(linkdeaths(b_).is_empty(), "the dead is not");
            check(n.sent().is_empty(), "nothing leaves this node");
        });
        reach("end");
    }
}
