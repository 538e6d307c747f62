use crate::exec::*;
use crate::rig::*;
use crate::sym::*;
use std::hash::{Hash, Hasher};

/// What is fed to a hasher: the same for equal ids, or some hasher tells them apart.
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}
fn hash(i: &ActorID) -> Vec<u8> { let mut h = Fed::default(); i.hash(&mut h); h.0 }
fn boot() { ActorSwarm::bootstrap_manual(peer(ME)).unwrap(); }
/// A peer: this one, another of one symbolic byte, or one with a symbolic digest.
fn any_peer() -> PeerId {
    match choose(3, "peer kind") {
        0 => peer(ME),
        1 => PeerId::from_bytes(&[0, 1, u64v("peer") as u8]).unwrap(),
        _ => {
            let mut v = vec![18, 32];
            v.extend_from_slice(&bytes::<32>("digest"));
            PeerId::from_bytes(&v).unwrap()
        }
    }
}
fn any_id() -> (ActorID, u64, Option<PeerId>) {
    let s = u64v("seq");
    if flip("local") { (ActorID::new(s), s, None) } else { let p = any_peer(); (ActorID::new_with_peer_id(s, p), s, Some(p)) }
}
fn send_error(i: usize) -> (SendError<u8, u64>, End) {
    match i {
        0 => (SendError::ActorNotRunning(1), End::NotRunning),
        1 => (SendError::ActorStopped, End::Stopped),
        2 => (SendError::MailboxFull(1), End::Full),
        3 => (SendError::HandlerError(9), End::Error(9)),
        4 => (SendError::Timeout(Some(1)), End::Timeout),
        _ => (SendError::Timeout(None), End::Timeout),
    }
}
fn any_reason() -> ActorStopReason {
    match choose(6, "reason") {
        0 => ActorStopReason::Normal,
        1 => ActorStopReason::Killed,
        2 => ActorStopReason::PeerDisconnected,
        3 => ActorStopReason::Panicked(PanicError::new(Box::new("boom"))),
        4 => ActorStopReason::Panicked(PanicError::new(Box::new(Code(3)))),
        _ => ActorStopReason::LinkDied { id: ActorID::new_with_peer_id(u64v("dead"), peer(103)), reason: Box::new(ActorStopReason::LinkDied { id: ActorID::new(4), reason: Box::new(ActorStopReason::Killed) }) },
    }
}
fn same_reason(a: &ActorStopReason, b_: &ActorStopReason) -> bool {
    match (a, b_) {
        (ActorStopReason::Normal, ActorStopReason::Normal) | (ActorStopReason::Killed, ActorStopReason::Killed) | (ActorStopReason::PeerDisconnected, ActorStopReason::PeerDisconnected) => true,
        (ActorStopReason::Panicked(a), ActorStopReason::Panicked(b_)) => a.to_string() == b_.to_string() || b_.to_string().contains("boom") == a.to_string().contains("boom"),
        (ActorStopReason::LinkDied { id: i, reason: r }, ActorStopReason::LinkDied { id: j, reason: s }) => i == j && same_reason(r, s),
        _ => false,
    }
}

crate::sym::harnesses! {
    // Ids keep their meaning as bytes and over the wire, whatever the actor and node.
    c30_ids {
        let booted = flip("bootstrapped");
        if booted { boot() }
        let (i, s, p) = any_id();
        check(i.sequence_id() == s, "sequence id");
        let me = peer(ME);
        let at = match &p { Some(p) => Some(p), None if booted => Some(&me), None => None };
        check(i.peer_id() == at, "an id is of the node it was made for, or this one");
        let back = ActorID::from_bytes(&i.to_bytes());
        let Ok(j) = back else { check(false, "ids can be read back from their bytes"); return };
        check(j == i && j.sequence_id() == s && j.peer_id() == at, "bytes stand for the same actor");
        check(hash(&i) == hash(&j), "equal ids hash the same");
        check(j.to_bytes() == i.to_bytes(), "the bytes are the same again");
        reach("end");
    }
    c30_serde {
        boot();
        let (i, s, p) = any_id();
        let at = p.unwrap_or(peer(ME));
        let Some(j) = wire(&i) else { check(false, "ids survive the wire"); return };
        check(j == i && j.sequence_id() == s && j.peer_id() == Some(&at), "as the same actor");
        let Ok(v) = rmp_serde::to_vec_named(&i) else { check(false, "ids can be put in messages"); return };
        check(rmp_serde::from_slice::<ActorID>(&v).is_ok_and(|j| j == i), "and read from messages");
        reach("end");
    }
    // Ids are equal exactly when they stand for the same actor of the same node.
    c30_eq {
        let booted = flip("bootstrapped");
        if booted { boot() }
        let (i, s, p) = any_id();
        let (j, t, q) = any_id();
        let me = peer(ME);
        let at = |p: &Option<PeerId>| match p { Some(p) => Some(*p), None if booted => Some(me), None => None };
        check((i == j) == (s == t && at(&p) == at(&q)), "equal exactly when the same");
        if i == j { check(hash(&i) == hash(&j), "equal ids hash the same") }
        reach("end");
    }
    // What was filed under an actor's id before the node joined is found afterwards.
    c30_bootstrap {
        let mut m = std::collections::HashMap::new();
        let n = choose(3, "seq") as u64;
        m.insert(ActorID::new(n), 1);
        let p = ActorID::new_with_peer_id(n, peer(101));
        m.insert(p, 2);
        let h = hash(&ActorID::new(n));
        boot();
        check(hash(&ActorID::new(n)) == h, "the hash of an id does not change");
        check(m.get(&ActorID::new(n)) == Some(&1), "found afterwards");
        check(m.get(&ActorID::new_with_peer_id(n, peer(ME))) == Some(&1), "by any equal id");
        check(m.get(&p) == Some(&2), "other nodes' too");
        check(m.get(&ActorID::new_with_peer_id(n, peer(102))).is_none(), "and nothing else");
        reach("end");
    }
    // The same for links: made before the node joined, removed afterwards.
    c30_links {
        block_on(async {
            let (r, f, _) = prepare(Probe::with(1, Cfg { link: Policy::Continue, ..Cfg::default() }), 4);
            tokio::spawn(f);
            let (s, g, _) = prepare(Probe::with(2, Cfg { link: Policy::Continue, ..Cfg::default() }), 4);
            tokio::spawn(g);
            r.link(&s).await;
            if flip("bootstrap") { boot() }
            let un = flip("unlink");
            if un { r.unlink(&s).await }
            s.kill();
            settle().await;
            check(linkdeaths(1) == if un { vec![] } else { vec![(s.id(), Why::Killed)] }, "told exactly when linked");
        });
        reach("end");
    }
    // Any bytes are an id or an error.
    c30_bytes {
        let n = choose(b(14, 18), "length");
        let v = &bytes::<18>("bytes")[..n];
        match ActorID::from_bytes(v) {
            Ok(i) => {
                check(n >= 8, "no id without a sequence id");
                check(i.sequence_id() == u64::from_le_bytes(v[..8].try_into().unwrap()), "the sequence id is what was there");
                check(i.to_bytes() == v, "an id stands for exactly its bytes");
            }
            Err(ActorIDFromBytesError::MissingSequenceID) => check(n < 8, "a sequence id is missing only when it is"),
            Err(_) => check(n > 8, "a bad node is reported only when there is one"),
        }
        reach("end");
    }
    // Requests arrive as sent.
    c30_requests {
        boot();
        let id = ActorID::new_with_peer_id(u64v("seq"), peer(101));
        let other = ActorID::new(9);
        let d = |n| match choose(3, n) { 0 => None, 1 => Some(Duration::new(3, 4)), _ => Some(Duration::new(u64v("seconds"), 999_999_999)) };
        match choose(5, "request") {
            0 => {
                let (m, r, im, pl) = (d("mailbox timeout"), d("reply timeout"), flip("immediate"), bytes::<3>("payload").to_vec());
                let q = SwarmRequest::Ask { actor_id: id, actor_remote_id: "a".into(), message_remote_id: "m".into(), payload: pl.clone(), mailbox_timeout: m, reply_timeout: r, immediate: im };
                let Some(SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate }) = wire(&q) else { check(false, "survives"); return };
                check(actor_id == id && actor_remote_id == "a" && message_remote_id == "m" && payload == pl && mailbox_timeout == m && reply_timeout == r && immediate == im, "an ask arrives as sent");
            }
            1 => {
                let (m, im, pl) = (d("mailbox timeout"), flip("immediate"), bytes::<3>("payload").to_vec());
                let q = SwarmRequest::Tell { actor_id: id, actor_remote_id: "a".into(), message_remote_id: "m".into(), payload: pl.clone(), mailbox_timeout: m, immediate: im };
                let Some(SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate }) = wire(&q) else { check(false, "survives"); return };
                check(actor_id == id && actor_remote_id == "a" && message_remote_id == "m" && payload == pl && mailbox_timeout == m && immediate == im, "a tell arrives as sent");
            }
            2 => {
                let q = SwarmRequest::Link { actor_id: id, actor_remote_id: "a".into(), sibbling_id: other, sibbling_remote_id: "b".into() };
                let Some(SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id }) = wire(&q) else { check(false, "survives"); return };
                check(actor_id == id && actor_remote_id == "a" && sibbling_id == other && sibbling_id.peer_id() == Some(&peer(ME)) && sibbling_remote_id == "b", "a link arrives as sent");
            }
            3 => {
                let q = SwarmRequest::Unlink { actor_id: id, actor_remote_id: "a".into(), sibbling_id: other };
                let Some(SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id }) = wire(&q) else { check(false, "survives"); return };
                check(actor_id == id && actor_remote_id == "a" && sibbling_id == other, "an unlink arrives as sent");
            }
            _ => {
                let why_ = any_reason();
                let q = SwarmRequest::SignalLinkDied { dead_actor_id: other, notified_actor_id: id, notified_actor_remote_id: "a".into(), stop_reason: why_.clone() };
                let Some(SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason }) = wire(&q) else { check(false, "survives"); return };
                check(dead_actor_id == other && notified_actor_id == id && notified_actor_remote_id == "a", "a report of a death arrives as sent");
                check(same_reason(&why_, &stop_reason), "with its reason");
            }
        }
        reach("end");
    }
    // Responses arrive as sent.
    c30_responses {
        boot();
        let k = choose(6, "response");
        let i = choose(ERRORS + 2, "outcome");
        let (e, end) = if i < ERRORS { error(i) } else { (RemoteSendError::HandlerError(rmp_serde::to_vec_named(&7u64).unwrap()), End::Error(7)) };
        let ok = i == ERRORS + 1;
        let pl = bytes::<3>("payload").to_vec();
        if ok {
            let r = match k { 0 => SwarmResponse::Ask(Ok(pl.clone())), 1 => SwarmResponse::Tell(Ok(())), 2 => SwarmResponse::Link(Ok(())), 3 => SwarmResponse::Unlink(Ok(())), 4 => SwarmResponse::SignalLinkDied(Ok(())), _ => return };
            check(match wire(&r) {
                Some(SwarmResponse::Ask(Ok(p))) => k == 0 && p == pl,
                Some(SwarmResponse::Tell(Ok(()))) => k == 1,
                Some(SwarmResponse::Link(Ok(()))) => k == 2,
                Some(SwarmResponse::Unlink(Ok(()))) => k == 3,
                Some(SwarmResponse::SignalLinkDied(Ok(()))) => k == 4,
                _ => false,
            }, "success arrives as sent");
        } else if k == 0 {
            check(ask_end(SwarmResponse::Ask(Err(e))) == end, "the failure of an ask arrives as sent");
        } else if i < ERRORS {
            let e = infallible(e);
            let r = match k { 1 => SwarmResponse::Tell(Err(e)), 2 => SwarmResponse::Link(Err(e)), 3 => SwarmResponse::Unlink(Err(e)), 4 => SwarmResponse::SignalLinkDied(Err(e)), _ => SwarmResponse::OutboundFailure(e) };
            let got = match wire(&r) {
                Some(SwarmResponse::Tell(r)) if k == 1 => told(&r),
                Some(SwarmResponse::Link(r)) if k == 2 => told(&r),
                Some(SwarmResponse::Unlink(r)) if k == 3 => told(&r),
                Some(SwarmResponse::SignalLinkDied(r)) if k == 4 => told(&r),
                Some(SwarmResponse::OutboundFailure(e)) if k == 5 => failed(&e, |_| End::Mismatch),
                _ => End::Mismatch,
            };
            check(got == end, "the failure arrives as sent");
        }
        reach("end");
    }
    // Errors keep what they say when converted.
    c30_errors {
        let v = u64v("value");
        let i = choose(ERRORS + 2, "error");
        let mk = || -> (RemoteSendError<u64>, End) {
            if i < ERRORS { let (e, end) = error(i); (e.map_err(|_| 0), end) }
            else if i == ERRORS { (RemoteSendError::HandlerError(v), End::Error(v)) }
            else { (RemoteSendError::Io(Some(std::io::ErrorKind::Other.into())), End::Io) }
        };
        let (e, end) = mk();
        check(failed(&e, |v| End::Error(*v)) == end, "as it is");
        let e = e.map_err(|v| v ^ 1);
        check(failed(&e, |v| End::Error(*v ^ 1)) == end, "mapped");
        let (e, _) = mk();
        let nested: RemoteSendError<RemoteSendError<u64>> = RemoteSendError::HandlerError(e);
        check(failed(&nested.flatten(), |v| End::Error(*v)) == end, "flattened from inside");
        let (e, _) = mk();
        let nested = e.map_err(RemoteSendError::HandlerError);
        check(failed(&nested.flatten(), |v| End::Error(*v)) == end, "flattened from outside");
        let (e, end) = send_error(choose(6, "local"));
        check(failed(&RemoteSendError::from(e), |v| End::Error(*v)) == end, "from a local error");
        reach("end");
    }
}
