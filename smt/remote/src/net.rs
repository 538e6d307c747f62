//! The network as an environment: a libp2p swarm over a transport that only connects, whose behaviour records what the
//! library asks of it. Answers and events are made up by the harness.
use kameo::actor::ActorID;
use kameo::error::*;
use kameo::remote::*;
use libp2p::core::muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent};
use libp2p::core::transport::{DialOpts, ListenerId, PortUse, Transport, TransportError, TransportEvent};
use libp2p::core::upgrade::DeniedUpgrade;
use libp2p::core::Endpoint;
use libp2p::kad;
use libp2p::request_response::{self, OutboundRequestId, ResponseChannel};
use libp2p::swarm::handler::ConnectionEvent;
use libp2p::swarm::*;
use libp2p::{Multiaddr, PeerId, Swarm};
use std::borrow::Cow;
use std::collections::VecDeque;
use std::convert::Infallible as Never;
use std::io;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

/// Peer number `n` (an identity multihash of one byte).
pub fn peer(n: u8) -> PeerId { PeerId::from_bytes(&[0, 1, n]).unwrap() }

pub struct NoMux;
impl StreamMuxer for NoMux {
    type Substream = futures::io::Cursor<Vec<u8>>;
    type Error = io::Error;
    fn poll_inbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Self::Substream>> { Poll::Pending }
    fn poll_outbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Self::Substream>> { Poll::Pending }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<StreamMuxerEvent>> { Poll::Pending }
}
pub struct NoNet(u8);
impl Transport for NoNet {
    type Output = (PeerId, StreamMuxerBox);
    type Error = io::Error;
    type ListenerUpgrade = futures::future::Pending<Result<Self::Output, io::Error>>;
    type Dial = futures::future::Ready<Result<Self::Output, io::Error>>;
    fn listen_on(&mut self, _: ListenerId, a: Multiaddr) -> Result<(), TransportError<io::Error>> {
        if a.is_empty() { Err(TransportError::Other(io::ErrorKind::AddrInUse.into())) } else if a.iter().count() > 1 { Err(TransportError::MultiaddrNotSupported(a)) } else { Ok(()) }
    }
    fn remove_listener(&mut self, _: ListenerId) -> bool { false }
    fn dial(&mut self, _: Multiaddr, _: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        self.0 += 1;
        Ok(futures::future::ready(Ok((peer(100 + self.0), StreamMuxerBox::new(NoMux)))))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<TransportEvent<Self::ListenerUpgrade, io::Error>> { Poll::Pending }
}
pub struct NoHandler;
impl ConnectionHandler for NoHandler {
    type FromBehaviour = Never;
    type ToBehaviour = Never;
    type InboundProtocol = DeniedUpgrade;
    type OutboundProtocol = DeniedUpgrade;
    type InboundOpenInfo = ();
    type OutboundOpenInfo = ();
    fn listen_protocol(&self) -> SubstreamProtocol<DeniedUpgrade> { SubstreamProtocol::new(DeniedUpgrade, ()) }
    fn connection_keep_alive(&self) -> bool { true }
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<ConnectionHandlerEvent<DeniedUpgrade, (), Never>> { Poll::Pending }
    fn on_behaviour_event(&mut self, _: Never) {}
    fn on_connection_event(&mut self, _: ConnectionEvent<DeniedUpgrade, DeniedUpgrade>) {}
}
#[derive(Default)]
pub struct Net {
    /// requests sent to other nodes: id, to whom, what
    pub sent: Vec<(u64, PeerId, SwarmRequest)>,
    pub next: u64,
    pub gets: Vec<(usize, kad::RecordKey)>,
    pub puts: Vec<(usize, kad::Record)>,
    pub queries: usize,
    pub store: Vec<kad::Record>,
    /// the record store refuses new records
    pub full: bool,
    pub addresses: Vec<(PeerId, Multiaddr)>,
    pub learned: Vec<(PeerId, Multiaddr)>,
    pub mode: Option<kad::Mode>,
}
pub fn request_id(n: u64) -> OutboundRequestId { unsafe { std::mem::transmute::<u64, OutboundRequestId>(n) } }
pub fn query_id(n: usize) -> kad::QueryId { unsafe { std::mem::transmute::<usize, kad::QueryId>(n) } }
pub fn channel() -> (ResponseChannel<SwarmResponse>, futures::channel::oneshot::Receiver<SwarmResponse>) {
    let (tx, rx) = futures::channel::oneshot::channel::<SwarmResponse>();
    (unsafe { std::mem::transmute::<futures::channel::oneshot::Sender<SwarmResponse>, ResponseChannel<SwarmResponse>>(tx) }, rx)
}
impl NetworkBehaviour for Net {
    type ConnectionHandler = NoHandler;
    type ToSwarm = Never;
    fn handle_established_inbound_connection(&mut self, _: ConnectionId, _: PeerId, _: &Multiaddr, _: &Multiaddr) -> Result<NoHandler, ConnectionDenied> { Ok(NoHandler) }
    fn handle_established_outbound_connection(&mut self, _: ConnectionId, _: PeerId, _: &Multiaddr, _: Endpoint, _: PortUse) -> Result<NoHandler, ConnectionDenied> { Ok(NoHandler) }
    fn on_swarm_event(&mut self, e: FromSwarm) { if let FromSwarm::NewExternalAddrOfPeer(e) = e { self.learned.push((e.peer_id, e.addr.clone())) } }
    fn on_connection_handler_event(&mut self, _: PeerId, _: ConnectionId, _: Never) {}
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<ToSwarm<Never, Never>> { Poll::Pending }
}
impl Net {
    fn request(&mut self, p: &PeerId, r: SwarmRequest) -> OutboundRequestId {
        self.next += 1;
        self.sent.push((self.next, *p, r));
        request_id(self.next)
    }
    fn respond(&mut self, c: ResponseChannel<SwarmResponse>, r: SwarmResponse) -> Result<(), SwarmResponse> {
        let tx = unsafe { std::mem::transmute::<ResponseChannel<SwarmResponse>, futures::channel::oneshot::Sender<SwarmResponse>>(c) };
        tx.send(r)
    }
}
impl SwarmBehaviour for Net {
    fn ask(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Cow<'static, str>, message_remote_id: Cow<'static, str>, payload: Vec<u8>, mailbox_timeout: Option<Duration>, reply_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.request(peer, SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate })
    }
    fn tell(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Cow<'static, str>, message_remote_id: Cow<'static, str>, payload: Vec<u8>, mailbox_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.request(peer, SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate })
    }
    fn link(&mut self, actor_id: ActorID, actor_remote_id: Cow<'static, str>, sibbling_id: ActorID, sibbling_remote_id: Cow<'static, str>) -> OutboundRequestId {
        let p = *actor_id.peer_id().unwrap();
        self.request(&p, SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id })
    }
    fn unlink(&mut self, actor_id: ActorID, actor_remote_id: Cow<'static, str>, sibbling_id: ActorID) -> OutboundRequestId {
        let p = *actor_id.peer_id().unwrap();
        self.request(&p, SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id })
    }
    fn signal_link_died(&mut self, dead_actor_id: ActorID, notified_actor_id: ActorID, notified_actor_remote_id: Cow<'static, str>, stop_reason: ActorStopReason) -> OutboundRequestId {
        let p = *notified_actor_id.peer_id().unwrap();
        self.request(&p, SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason })
    }
    fn send_ask_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<Vec<u8>, RemoteSendError<Vec<u8>>>) -> Result<(), SwarmResponse> { self.respond(c, SwarmResponse::Ask(r)) }
    fn send_tell_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError>) -> Result<(), SwarmResponse> { self.respond(c, SwarmResponse::Tell(r)) }
    fn send_link_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.respond(c, SwarmResponse::Link(r)) }
    fn send_unlink_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.respond(c, SwarmResponse::Unlink(r)) }
    fn send_signal_link_died_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.respond(c, SwarmResponse::SignalLinkDied(r)) }
    fn kademlia_add_address(&mut self, peer: &PeerId, address: Multiaddr) -> kad::RoutingUpdate { self.addresses.push((*peer, address)); kad::RoutingUpdate::Success }
    fn kademlia_set_mode(&mut self, m: Option<kad::Mode>) { self.mode = m }
    fn kademlia_get_record(&mut self, key: kad::RecordKey) -> kad::QueryId { self.queries += 1; self.gets.push((self.queries, key)); query_id(self.queries) }
    fn kademlia_get_record_local(&mut self, key: &kad::RecordKey) -> Option<Cow<'_, kad::Record>> { self.store.iter().find(|r| r.key == *key).map(Cow::Borrowed) }
    fn kademlia_put_record(&mut self, record: kad::Record, _: kad::Quorum) -> Result<kad::QueryId, kad::store::Error> {
        self.kademlia_put_record_local(record.clone())?;
        self.queries += 1;
        self.puts.push((self.queries, record));
        Ok(query_id(self.queries))
    }
    fn kademlia_put_record_local(&mut self, record: kad::Record) -> Result<(), kad::store::Error> {
        if self.full { return Err(kad::store::Error::MaxRecords) }
        self.store.retain(|r| r.key != record.key);
        self.store.push(record);
        Ok(())
    }
    fn kademlia_remove_record(&mut self, key: &kad::RecordKey) { self.store.retain(|r| r.key != *key) }
    fn kademlia_remove_record_local(&mut self, key: &kad::RecordKey) { self.store.retain(|r| r.key != *key) }
}
struct Tokio;
impl Executor for Tokio {
    fn exec(&self, f: Pin<Box<dyn futures::Future<Output = ()> + Send>>) { tokio::spawn(f); }
}
/// This node (peer 7) and its network.
#[derive(Clone)]
pub struct Node(pub Arc<Mutex<(ActorSwarmHandler, Swarm<Net>)>>);
pub const ME: u8 = 7;
/// Starts this node, connected to `peers` others (101, 102, ...). Inside a runtime.
pub async fn node(peers: usize) -> Node {
    let (_, h) = ActorSwarm::bootstrap_manual(peer(ME)).unwrap();
    let mut swarm = Swarm::new(NoNet(0).boxed(), Net::default(), peer(ME), Config::with_executor(Tokio));
    for n in 0..peers {
        swarm.dial(Multiaddr::empty().with(libp2p::multiaddr::Protocol::Memory(n as u64 + 1))).unwrap();
        while swarm.network_info().num_peers() <= n {
            poll_fn(|cx| { let _ = futures::Stream::poll_next(Pin::new(&mut swarm), cx); Poll::Ready(()) }).await;
            tokio::task::yield_now().await
        }
    }
    let n = Node(Arc::new(Mutex::new((h, swarm))));
    let me = n.clone();
    tokio::spawn(poll_fn(move |cx| {
        let mut g = me.0.lock().unwrap();
        let (h, s) = &mut *g;
        loop {
            let c = std::pin::pin!(h.next_command()).poll(cx);
            match c {
                Poll::Ready(Some(c)) => h.handle_command(s, c),
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Pending => return Poll::Pending,
            }
        }
    }));
    n
}
impl Node {
    fn event(&self, e: ActorSwarmEvent) {
        let mut g = self.0.lock().unwrap();
        let (h, s) = &mut *g;
        h.handle_event(s, e)
    }
    fn rr(&self, e: request_response::Event<SwarmRequest, SwarmResponse>) { self.event(ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(e))) }
    fn kad(&self, id: usize, result: kad::QueryResult) {
        self.event(ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Kademlia(kad::Event::OutboundQueryProgressed {
            id: query_id(id), result, stats: kad::QueryStats::empty(), step: kad::ProgressStep { count: std::num::NonZeroUsize::MIN, last: true },
        })))
    }
    /// Another node sends a request to this one.
    pub fn request(&self, from: u8, request: SwarmRequest) -> Answer {
        let (channel, rx) = channel();
        let message = request_response::Message::Request { request_id: unsafe { std::mem::transmute::<u64, request_response::InboundRequestId>(1) }, request, channel };
        self.rr(request_response::Event::Message { peer: peer(from), connection_id: ConnectionId::new_unchecked(1), message });
        Answer(rx)
    }
    /// The response to this node's request number `id` arrives.
    pub fn response(&self, id: u64, response: SwarmResponse) {
        let message = request_response::Message::Response { request_id: request_id(id), response };
        self.rr(request_response::Event::Message { peer: peer(101), connection_id: ConnectionId::new_unchecked(1), message });
    }
    /// This node's request number `id` failed.
    pub fn failure(&self, id: u64, error: request_response::OutboundFailure) {
        self.rr(request_response::Event::OutboundFailure { peer: peer(101), connection_id: ConnectionId::new_unchecked(1), request_id: request_id(id), error });
    }
    pub fn got(&self, id: usize, r: Result<kad::PeerRecord, kad::GetRecordError>) { self.kad(id, kad::QueryResult::GetRecord(r.map(kad::GetRecordOk::FoundRecord))) }
    pub fn put(&self, id: usize, r: kad::PutRecordResult) { self.kad(id, kad::QueryResult::PutRecord(r)) }
    /// A connection to `p` was closed and `left` others to it remain.
    pub fn closed(&self, p: u8, left: u32) {
        self.event(ActorSwarmEvent::ConnectionClosed {
            peer_id: peer(p), connection_id: ConnectionId::new_unchecked(1), num_established: left, cause: None,
            endpoint: libp2p::core::ConnectedPoint::Dialer { address: Multiaddr::empty(), role_override: Endpoint::Dialer, port_use: PortUse::Reuse },
        })
    }
    /// Nodes were discovered on the local network.
    pub fn discovered(&self, list: Vec<(PeerId, Multiaddr)>) { self.event(ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Mdns(libp2p::mdns::Event::Discovered(list)))) }
    /// Lets the swarm itself go on.
    pub async fn turn(&self) {
        for _ in 0..8 {
            poll_fn(|cx| { let _ = futures::Stream::poll_next(Pin::new(&mut self.0.lock().unwrap().1), cx); Poll::Ready(()) }).await;
            tokio::task::yield_now().await
        }
    }
    pub fn connected(&self) -> Vec<PeerId> { self.0.lock().unwrap().1.connected_peers().copied().collect() }
    pub fn net<R>(&self, f: impl FnOnce(&mut Net) -> R) -> R { f(self.0.lock().unwrap().1.behaviour_mut()) }
    /// The requests sent to other nodes since the last call.
    pub fn sent(&self) -> Vec<(u64, PeerId, SwarmRequest)> { self.net(|n| std::mem::take(&mut n.sent)) }
}
/// Where the response to another node's request ends up.
pub struct Answer(futures::channel::oneshot::Receiver<SwarmResponse>);
impl Answer {
    /// `None` until answered; `Err` when it never will be.
    pub fn get(&mut self) -> Option<Result<SwarmResponse, ()>> {
        match self.0.try_recv() { Ok(None) => None, Ok(Some(r)) => Some(Ok(r)), Err(_) => Some(Err(())) }
    }
}
/// What arrives at the other node when this is sent (the codec that libp2p's cbor behaviour uses).
pub fn wire<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Option<T> {
    let bytes = cbor4ii::serde::to_vec(Vec::new(), v).ok()?;
    cbor4ii::serde::from_slice(&bytes).ok()
}
