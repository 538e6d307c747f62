//! Actors that can be reached from other nodes, and what is expected of requests to them.
use crate::exec::*;
pub use crate::net::*;
pub use crate::probe::*;
use crate::sym::*;
pub use kameo::actor::ActorID;
pub use kameo::remote::*;
pub use libp2p::kad;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub use std::borrow::Cow;
pub use std::time::Duration;

/// A value that some values of cannot be serialized.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val(pub u64);
pub const UNSERIALIZABLE: u64 = 0xBAD;
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == UNSERIALIZABLE { return Err(serde::ser::Error::custom("x")) }
        s.serialize_u64(self.0)
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map(Val) }
}
/// A message from another node. `k`: 0 reply, 1 error, 2 panic, 3 reply later, 4 unserializable reply, 5 unserializable error.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct R { pub v: u64, pub k: u8 }
#[kameo::remote_message("r")]
impl Message<R> for Probe {
    type Reply = Result<Val, Val>;
    async fn handle(&mut self, m: R, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        log(Ev::Msg(self.a, m.v));
        if let Some(g) = self.cfg.handler_gate.clone() { g.wait().await }
        match m.k {
            1 => return Err(Val(m.v)),
            2 => std::panic::panic_any(Code(m.v)),
            3 => yield_().await,
            4 => return Ok(Val(UNSERIALIZABLE)),
            5 => return Err(Val(UNSERIALIZABLE)),
            _ => {}
        }
        Ok(Val(m.v + 1))
    }
}
/// Another type of actor, which takes the same message.
#[derive(Actor, kameo::RemoteActor)]
pub struct Other(pub u8);
#[kameo::remote_message("r")]
impl Message<R> for Other {
    type Reply = Result<Val, Val>;
    async fn handle(&mut self, m: R, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        log(Ev::Msg(self.0, m.v));
        Ok(Val(m.v + 2))
    }
}
/// How a request ends.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done, Reply(u64), Error(u64), NotRunning, Stopped, UnknownActor(String), UnknownMessage(String, String), BadType, Full, Timeout,
    SerMsg, DeMsg, SerReply, SerErr, DeErr, NoSwarm, Dial, NetTimeout, Closed, Unsupported, Io,
    Absent, Quorum,
    /// not the kind of response that was asked for
    Mismatch,
}
pub fn failed<E>(e: &RemoteSendError<E>, inner: impl Fn(&E) -> End) -> End {
    match e {
        RemoteSendError::ActorNotRunning => End::NotRunning,
        RemoteSendError::ActorStopped => End::Stopped,
        RemoteSendError::UnknownActor { actor_remote_id } => End::UnknownActor(actor_remote_id.to_string()),
        RemoteSendError::UnknownMessage { actor_remote_id, message_remote_id } => End::UnknownMessage(actor_remote_id.to_string(), message_remote_id.to_string()),
        RemoteSendError::BadActorType => End::BadType,
        RemoteSendError::MailboxFull => End::Full,
        RemoteSendError::ReplyTimeout => End::Timeout,
        RemoteSendError::HandlerError(e) => inner(e),
        RemoteSendError::SerializeMessage(_) => End::SerMsg,
        RemoteSendError::DeserializeMessage(_) => End::DeMsg,
        RemoteSendError::SerializeReply(_) => End::SerReply,
        RemoteSendError::SerializeHandlerError(_) => End::SerErr,
        RemoteSendError::DeserializeHandlerError(_) => End::DeErr,
        RemoteSendError::SwarmNotBootstrapped => End::NoSwarm,
        RemoteSendError::DialFailure => End::Dial,
        RemoteSendError::NetworkTimeout => End::NetTimeout,
        RemoteSendError::ConnectionClosed => End::Closed,
        RemoteSendError::UnsupportedProtocols => End::Unsupported,
        RemoteSendError::Io(_) => End::Io,
    }
}
pub fn asked(r: &Result<Val, RemoteSendError<Val>>) -> End { match r { Ok(v) => End::Reply(v.0), Err(e) => failed(e, |v| End::Error(v.0)) } }
pub fn told<E>(r: &Result<(), RemoteSendError<E>>) -> End { match r { Ok(()) => End::Done, Err(e) => failed(e, |_| End::Mismatch) } }
pub fn decode(b: &[u8]) -> Option<u64> { rmp_serde::from_slice::<u64>(b).ok() }
/// How an ask from another node ended, from the response sent to it.
pub fn ask_end(r: SwarmResponse) -> End {
    let Some(SwarmResponse::Ask(r)) = wire(&r) else { return End::Mismatch };
    match r {
        Ok(b) => decode(&b).map(End::Reply).unwrap_or(End::Mismatch),
        Err(e) => failed(&e, |b| decode(b).map(End::Error).unwrap_or(End::Mismatch)),
    }
}
pub fn tell_end(r: SwarmResponse) -> End { let Some(SwarmResponse::Tell(r)) = wire(&r) else { return End::Mismatch }; told(&r) }
pub fn payload(r: &R) -> Vec<u8> { rmp_serde::to_vec_named(r).unwrap() }
/// The id as other nodes know it.
pub fn abroad(id: ActorID) -> ActorID { ActorID::new_with_peer_id(id.sequence_id(), peer(ME)) }
pub const PROBE: &str = <Probe as RemoteActor>::REMOTE_ID;
pub const OTHER: &str = <Other as RemoteActor>::REMOTE_ID;
/// Registers `r` under `name`; the network accepts.
pub async fn register<A: Actor + RemoteActor>(n: &Node, r: &ActorRef<A>, name: &'static str) {
    let x = r.clone();
    let t = tokio::spawn(async move { x.register(name).await });
    settle().await;
    for (q, rec) in n.net(|n| std::mem::take(&mut n.puts)) { n.put(q, Ok(kad::PutRecordOk { key: rec.key })) }
    check(t.await.unwrap().is_ok(), "registering succeeds when the network accepts");
}
/// Looks `name` up; the network finds what this node stores.
pub async fn remote<A: Actor + RemoteActor>(n: &Node, name: &'static str) -> RemoteActorRef<A> {
    let t = tokio::spawn(async move { RemoteActorRef::<A>::lookup(name).await });
    settle().await;
    for (q, key) in n.net(|n| std::mem::take(&mut n.gets)) {
        let record = n.net(|n| n.store.iter().find(|r| r.key == key).cloned()).unwrap();
        n.got(q, Ok(kad::PeerRecord { peer: None, record }))
    }
    t.await.unwrap().ok().flatten().unwrap()
}
/// A value that arrives later.
#[derive(Clone)]
pub struct Later<T>(pub Arc<Mutex<Option<T>>>);
impl<T: Clone> Later<T> { pub fn get(&self) -> Option<T> { self.0.lock().unwrap().clone() } }
pub fn later<T: Send + 'static>(f: impl std::future::Future<Output = T> + Send + 'static) -> (Later<T>, tokio::task::JoinHandle<()>) {
    let l = Later(Arc::new(Mutex::new(None)));
    let m = l.0.clone();
    (l, tokio::spawn(async move { let v = f.await; *m.lock().unwrap() = Some(v) }))
}

pub fn named<A: Actor + RemoteActor>(r: &Result<Option<RemoteActorRef<A>>, RegistryError>) -> End {
    match r { Ok(Some(x)) => End::Reply(x.id().sequence_id()), Ok(None) => End::Absent, Err(e) => registry(e) }
}
pub fn named_here<A: Actor>(r: &Result<Option<ActorRef<A>>, RegistryError>) -> End {
    match r { Ok(Some(x)) => End::Reply(x.id().sequence_id()), Ok(None) => End::Absent, Err(e) => registry(e) }
}
pub fn registered(r: &Result<(), RegistryError>) -> End { match r { Ok(()) => End::Done, Err(e) => registry(e) } }
pub fn registry(e: &RegistryError) -> End {
    match e {
        RegistryError::SwarmNotBootstrapped => End::NoSwarm,
        RegistryError::BadActorType => End::BadType,
        RegistryError::QuorumFailed { .. } => End::Quorum,
        RegistryError::Timeout => End::Timeout,
    }
}
/// The record another node (`p`) stores when an actor like `r` registers there.
pub async fn record<A: Actor + RemoteActor>(n: &Node, r: &ActorRef<A>, p: u8) -> kad::Record {
    register(n, r, "there").await;
    let mut rec = n.net(|n| n.store.iter().find(|r| r.key == b"there".to_vec().into()).cloned()).unwrap();
    n.net(|n| n.store.clear());
    let me = peer(ME).to_bytes();
    let i = rec.value.windows(me.len()).position(|w| w == me).unwrap();
    rec.value[i + me.len() - 1] = p;
    rec
}
/// A reference to an actor of another node, found by looking it up.
pub async fn elsewhere<A: Actor + RemoteActor>(n: &Node, rec: &kad::Record) -> RemoteActorRef<A> {
    let t = tokio::spawn(async move { RemoteActorRef::<A>::lookup("there").await });
    settle().await;
    for (q, _) in n.net(|n| std::mem::take(&mut n.gets)) { n.got(q, Ok(kad::PeerRecord { peer: Some(peer(101)), record: rec.clone() })) }
    t.await.unwrap().ok().flatten().unwrap()
}
pub const ONE: std::num::NonZeroUsize = std::num::NonZeroUsize::MIN;
/// Error number `i` of those a node can answer with, and how the request then ends.
pub fn error(i: usize) -> (RemoteSendError<Vec<u8>>, End) {
    match i {
        0 => (RemoteSendError::ActorNotRunning, End::NotRunning),
        1 => (RemoteSendError::ActorStopped, End::Stopped),
        2 => (RemoteSendError::UnknownActor { actor_remote_id: "a".into() }, End::UnknownActor("a".into())),
        3 => (RemoteSendError::UnknownMessage { actor_remote_id: "a".into(), message_remote_id: "m".into() }, End::UnknownMessage("a".into(), "m".into())),
        4 => (RemoteSendError::BadActorType, End::BadType),
        5 => (RemoteSendError::MailboxFull, End::Full),
        6 => (RemoteSendError::ReplyTimeout, End::Timeout),
        7 => (RemoteSendError::SerializeMessage("s".into()), End::SerMsg),
        8 => (RemoteSendError::DeserializeMessage("s".into()), End::DeMsg),
        9 => (RemoteSendError::SerializeReply("s".into()), End::SerReply),
        10 => (RemoteSendError::SerializeHandlerError("s".into()), End::SerErr),
        11 => (RemoteSendError::DeserializeHandlerError("s".into()), End::DeErr),
        12 => (RemoteSendError::SwarmNotBootstrapped, End::NoSwarm),
        13 => (RemoteSendError::DialFailure, End::Dial),
        14 => (RemoteSendError::NetworkTimeout, End::NetTimeout),
        15 => (RemoteSendError::ConnectionClosed, End::Closed),
        _ => (RemoteSendError::UnsupportedProtocols, End::Unsupported),
    }
}
pub const ERRORS: usize = 17;
pub fn failure(i: usize) -> (libp2p::request_response::OutboundFailure, End) {
    use libp2p::request_response::OutboundFailure::*;
    match i {
        0 => (DialFailure, End::Dial),
        1 => (Timeout, End::NetTimeout),
        2 => (ConnectionClosed, End::Closed),
        3 => (UnsupportedProtocols, End::Unsupported),
        _ => (Io(std::io::ErrorKind::Other.into()), End::Io),
    }
}
pub const FAILURES: usize = 5;
pub fn infallible(e: RemoteSendError<Vec<u8>>) -> RemoteSendError<Infallible> {
    match e { RemoteSendError::HandlerError(_) => RemoteSendError::ActorStopped, e => e.map_err(|_| unreachable!()) }
}
/// An operation of this node that another node, or the network, answers.
pub const ASK: usize = 0;
pub const TELL: usize = 1;
pub const LINK: usize = 2;
pub const UNLINK: usize = 3;
pub const LOOKUP: usize = 4;
pub const REGISTER: usize = 5;
pub const UNREGISTER: usize = 6;
pub const OPS: usize = 7;
pub struct Op { pub kind: usize, pub id: u64, pub end: Later<End>, pub task: tokio::task::JoinHandle<()> }
pub async fn op(n: &Node, kind: usize, x: &RemoteActorRef<Probe>, r: &ActorRef<Probe>, v: u64, immediate: bool) -> Op {
    let (x, r) = (x.clone(), r.clone());
    let (end, task) = later(async move {
        let m = R { v, k: 0 };
        match kind {
            ASK => asked(&if immediate { x.ask(&m).try_send().await } else { x.ask(&m).reply_timeout(Duration::from_millis(30)).send().await }),
            TELL => told(&if immediate { x.tell(&m).try_send().await } else { x.tell(&m).send().await }),
            LINK => told(&r.link_remote(&x).await),
            UNLINK => told(&r.unlink_remote(&x).await),
            LOOKUP => named(&RemoteActorRef::<Probe>::lookup("n").await),
            REGISTER => registered(&r.register("n").await),
            _ => registered(&ActorSwarm::get().unwrap().unregister("n".into()).await),
        }
    });
    settle().await;
    let id = n.net(|n| match kind {
        LOOKUP => n.gets.pop().map(|x| x.0 as u64),
        REGISTER | UNREGISTER => n.puts.pop().map(|x| x.0 as u64),
        _ => n.sent.last().map(|x| x.0),
    });
    check(id.is_some(), "the operation asks the network");
    Op { kind, id: id.unwrap(), end, task }
}
impl Op {
    /// The network answers well with `v`; how the operation then ends.
    pub fn succeed(&self, n: &Node, rec: &kad::Record, seq: u64, v: u64) -> End {
        match self.kind {
            ASK => { n.response(self.id, SwarmResponse::Ask(Ok(rmp_serde::to_vec_named(&v).unwrap()))); End::Reply(v) }
            TELL => { n.response(self.id, SwarmResponse::Tell(Ok(()))); End::Done }
            LINK => { n.response(self.id, SwarmResponse::Link(Ok(()))); End::Done }
            UNLINK => { n.response(self.id, SwarmResponse::Unlink(Ok(()))); End::Done }
            LOOKUP => { n.got(self.id as usize, Ok(kad::PeerRecord { peer: None, record: rec.clone() })); End::Reply(seq) }
            _ => { n.put(self.id as usize, Ok(kad::PutRecordOk { key: rec.key.clone() })); End::Done }
        }
    }
    /// Failure number `i` of those possible for this operation.
    pub fn fail(&self, n: &Node, key: kad::RecordKey, i: usize) -> End {
        let id = self.id as usize;
        match self.kind {
            LOOKUP => match i {
                0 => { n.got(id, Err(kad::GetRecordError::NotFound { key, closest_peers: vec![] })); End::Absent }
                1 => { n.got(id, Err(kad::GetRecordError::QuorumFailed { key, records: vec![], quorum: ONE })); End::Quorum }
                2 => { n.got(id, Err(kad::GetRecordError::Timeout { key })); End::Timeout }
                _ => { n.got(id, Ok(kad::PeerRecord { peer: None, record: kad::Record::new(key, vec![]) })); End::Absent }
            },
            REGISTER | UNREGISTER => match i {
                0 => { n.put(id, Err(kad::PutRecordError::QuorumFailed { key, success: vec![], quorum: ONE })); End::Quorum }
                _ => { n.put(id, Err(kad::PutRecordError::Timeout { key, success: vec![], quorum: ONE })); End::Timeout }
            },
            k => {
                if i < FAILURES { let (f, e) = failure(i); n.failure(self.id, f); return e }
                let (e, end) = error(i - FAILURES);
                let r = match k {
                    ASK => SwarmResponse::Ask(Err(e)),
                    TELL => SwarmResponse::Tell(Err(infallible(e))),
                    LINK => SwarmResponse::Link(Err(infallible(e))),
                    _ => SwarmResponse::Unlink(Err(infallible(e))),
                };
                n.response(self.id, wire(&r).unwrap());
                end
            }
        }
    }
    pub fn failures(&self) -> usize { match self.kind { LOOKUP => 4, REGISTER | UNREGISTER => 2, _ => FAILURES + ERRORS } }
}
