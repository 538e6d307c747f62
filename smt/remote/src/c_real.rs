//! The library's own network behaviour (libp2p request-response and the record store) between two nodes, over a
//! transport in memory. Its discovery part needs the network and is left out: never initialised, never touched.
use crate::exec::*;
use crate::net::*;
use crate::rig::*;
use crate::sym::*;
use futures::io::{AsyncRead, AsyncWrite};
use libp2p::core::muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent};
use libp2p::core::transport::{DialOpts, ListenerId, PortUse, Transport, TransportError, TransportEvent};
use libp2p::core::Endpoint;
use libp2p::kad;
use libp2p::request_response::{self, OutboundRequestId, ProtocolSupport, ResponseChannel};
use libp2p::swarm::*;
use libp2p::{Multiaddr, PeerId, StreamProtocol, Swarm};
use std::borrow::Cow;
use std::collections::VecDeque;
use std::convert::Infallible as Never;
use std::io;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::pin::Pin;
use std::ptr::addr_of_mut;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// One direction of a stream.
#[derive(Default)]
struct Pipe { q: VecDeque<u8>, closed: bool, w: Option<Waker> }
struct End2 { r: Arc<Mutex<Pipe>>, w: Arc<Mutex<Pipe>> }
fn pair() -> (End2, End2) {
    let (a, b_) = (Arc::<Mutex<Pipe>>::default(), Arc::<Mutex<Pipe>>::default());
    (End2 { r: a.clone(), w: b_.clone() }, End2 { r: b_, w: a })
}
impl AsyncRead for End2 {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.r.lock().unwrap();
        if p.q.is_empty() && !p.closed { p.w = Some(cx.waker().clone()); return Poll::Pending }
        let n = buf.len().min(p.q.len());
        for x in &mut buf[..n] { *x = p.q.pop_front().unwrap() }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for End2 {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.w.lock().unwrap();
        p.q.extend(buf);
        if let Some(w) = p.w.take() { w.wake() }
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.w.lock().unwrap();
        p.closed = true;
        if let Some(w) = p.w.take() { w.wake() }
        Poll::Ready(Ok(()))
    }
}
impl Drop for End2 { fn drop(&mut self) { let mut p = self.w.lock().unwrap(); p.closed = true; if let Some(w) = p.w.take() { w.wake() } } }
/// The streams opened towards a node and not accepted yet.
#[derive(Default)]
struct Opened { q: VecDeque<End2>, w: Option<Waker>, gone: bool }
struct Mux { to: Arc<Mutex<Opened>>, from: Arc<Mutex<Opened>> }
impl StreamMuxer for Mux {
    type Substream = End2;
    type Error = io::Error;
    fn poll_inbound(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<End2>> {
        let mut o = self.from.lock().unwrap();
        match o.q.pop_front() { Some(e) => Poll::Ready(Ok(e)), None if o.gone => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())), None => { o.w = Some(cx.waker().clone()); Poll::Pending } }
    }
    fn poll_outbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<End2>> {
        let (a, b_) = pair();
        let mut o = self.to.lock().unwrap();
        o.q.push_back(b_);
        if let Some(w) = o.w.take() { w.wake() }
        Poll::Ready(Ok(a))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<StreamMuxerEvent>> { Poll::Pending }
}
impl Drop for Mux { fn drop(&mut self) { let mut o = self.to.lock().unwrap(); o.gone = true; if let Some(w) = o.w.take() { w.wake() } } }
/// The connections being made to the listening node.
#[derive(Default)]
struct Cable { q: VecDeque<(PeerId, Mux)>, listening: Option<(ListenerId, bool)>, server: Option<PeerId> }
struct Wire(PeerId, Arc<Mutex<Cable>>);
impl Transport for Wire {
    type Output = (PeerId, StreamMuxerBox);
    type Error = io::Error;
    type ListenerUpgrade = futures::future::Ready<Result<Self::Output, io::Error>>;
    type Dial = futures::future::Ready<Result<Self::Output, io::Error>>;
    fn listen_on(&mut self, id: ListenerId, _: Multiaddr) -> Result<(), TransportError<io::Error>> {
        let mut c = self.1.lock().unwrap();
        c.listening = Some((id, false)); c.server = Some(self.0);
        Ok(())
    }
    fn remove_listener(&mut self, _: ListenerId) -> bool { false }
    fn dial(&mut self, _: Multiaddr, _: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        let mut c = self.1.lock().unwrap();
        let (a, b_) = (Arc::<Mutex<Opened>>::default(), Arc::<Mutex<Opened>>::default());
        c.q.push_back((self.0, Mux { to: a.clone(), from: b_.clone() }));
        Ok(futures::future::ready(Ok((c.server.unwrap(), StreamMuxerBox::new(Mux { to: b_, from: a })))))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<TransportEvent<Self::ListenerUpgrade, io::Error>> {
        let mut c = self.1.lock().unwrap();
        if c.server != Some(self.0) { return Poll::Pending }
        let listener_id = c.listening.unwrap().0;
        match c.q.pop_front() {
            Some((p, m)) => Poll::Ready(TransportEvent::Incoming {
                listener_id, local_addr: addr(1), send_back_addr: addr(2),
                upgrade: futures::future::ready(Ok((p, StreamMuxerBox::new(m)))),
            }),
            None => Poll::Pending,
        }
    }
}
fn addr(n: u64) -> Multiaddr { Multiaddr::empty().with(libp2p::multiaddr::Protocol::Memory(n)) }
type Rr = request_response::cbor::Behaviour<SwarmRequest, SwarmResponse>;
type Kad = kad::Behaviour<kad::store::MemoryStore>;
/// The library's behaviour; both its parts share it.
#[derive(Clone)]
struct Shared(Arc<Mutex<MaybeUninit<ActorSwarmBehaviour>>>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn new(me: PeerId) -> Self {
        let s = Shared(Arc::new(Mutex::new(MaybeUninit::uninit())));
        unsafe {
            addr_of_mut!((*s.ptr()).kademlia).write(Kad::new(me, kad::store::MemoryStore::new(me)));
            addr_of_mut!((*s.ptr()).request_response).write(Rr::new([(StreamProtocol::new("/kameo/1"), ProtocolSupport::Full)], request_response::Config::default()));
        }
        s
    }
    fn ptr(&self) -> *mut ActorSwarmBehaviour { self.0.lock().unwrap().as_mut_ptr() }
    fn real(&mut self) -> &mut ActorSwarmBehaviour { unsafe { &mut *self.ptr() } }
}
pub struct RrPart(Shared);
pub struct KadPart(Shared);
impl RrPart { fn get(&mut self) -> &mut Rr { unsafe { &mut *addr_of_mut!((*self.0.ptr()).request_response) } } }
impl KadPart { fn get(&mut self) -> &mut Kad { unsafe { &mut *addr_of_mut!((*self.0.ptr()).kademlia) } } }
macro_rules! part { ($t:ident, $of:ty) => {
    impl NetworkBehaviour for $t {
        type ConnectionHandler = <$of as NetworkBehaviour>::ConnectionHandler;
        type ToSwarm = <$of as NetworkBehaviour>::ToSwarm;
        fn handle_established_inbound_connection(&mut self, c: ConnectionId, p: PeerId, a: &Multiaddr, b_: &Multiaddr) -> Result<THandler<Self>, ConnectionDenied> { self.get().handle_established_inbound_connection(c, p, a, b_) }
        fn handle_established_outbound_connection(&mut self, c: ConnectionId, p: PeerId, a: &Multiaddr, e: Endpoint, u: PortUse) -> Result<THandler<Self>, ConnectionDenied> { self.get().handle_established_outbound_connection(c, p, a, e, u) }
        fn handle_pending_outbound_connection(&mut self, c: ConnectionId, p: Option<PeerId>, a: &[Multiaddr], e: Endpoint) -> Result<Vec<Multiaddr>, ConnectionDenied> { self.get().handle_pending_outbound_connection(c, p, a, e) }
        fn on_swarm_event(&mut self, e: FromSwarm) { self.get().on_swarm_event(e) }
        fn on_connection_handler_event(&mut self, p: PeerId, c: ConnectionId, e: THandlerOutEvent<Self>) { self.get().on_connection_handler_event(p, c, e) }
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<ToSwarm<Self::ToSwarm, THandlerInEvent<Self>>> { self.get().poll(cx) }
    }
} }
part!(RrPart, Rr);
part!(KadPart, Kad);
/// The library's behaviour without discovery.
#[derive(NetworkBehaviour)]
#[behaviour(prelude = "libp2p::swarm::derive_prelude")]
pub struct Full { kademlia: KadPart, request_response: RrPart }
impl Full {
    fn new(me: PeerId) -> Self { let s = Shared::new(me); Full { kademlia: KadPart(s.clone()), request_response: RrPart(s) } }
    fn real(&mut self) -> &mut ActorSwarmBehaviour { self.kademlia.0.real() }
}
impl SwarmBehaviour for Full {
    fn ask(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Cow<'static, str>, message_remote_id: Cow<'static, str>, payload: Vec<u8>, mailbox_timeout: Option<Duration>, reply_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.real().ask(peer, actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate)
    }
    fn tell(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Cow<'static, str>, message_remote_id: Cow<'static, str>, payload: Vec<u8>, mailbox_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.real().tell(peer, actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate)
    }
    fn link(&mut self, a: ActorID, r: Cow<'static, str>, s: ActorID, t: Cow<'static, str>) -> OutboundRequestId { self.real().link(a, r, s, t) }
    fn unlink(&mut self, a: ActorID, r: Cow<'static, str>, s: ActorID) -> OutboundRequestId { self.real().unlink(a, r, s) }
    fn signal_link_died(&mut self, d: ActorID, n: ActorID, r: Cow<'static, str>, w: ActorStopReason) -> OutboundRequestId { self.real().signal_link_died(d, n, r, w) }
    fn send_ask_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<Vec<u8>, RemoteSendError<Vec<u8>>>) -> Result<(), SwarmResponse> { self.real().send_ask_response(c, r) }
    fn send_tell_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError>) -> Result<(), SwarmResponse> { self.real().send_tell_response(c, r) }
    fn send_link_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.real().send_link_response(c, r) }
    fn send_unlink_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.real().send_unlink_response(c, r) }
    fn send_signal_link_died_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> { self.real().send_signal_link_died_response(c, r) }
    fn kademlia_add_address(&mut self, p: &PeerId, a: Multiaddr) -> kad::RoutingUpdate { self.real().kademlia_add_address(p, a) }
    fn kademlia_set_mode(&mut self, m: Option<kad::Mode>) { self.real().kademlia_set_mode(m) }
    fn kademlia_get_record(&mut self, k: kad::RecordKey) -> kad::QueryId { self.real().kademlia_get_record(k) }
    fn kademlia_get_record_local(&mut self, k: &kad::RecordKey) -> Option<Cow<'_, kad::Record>> { self.real().kademlia_get_record_local(k) }
    fn kademlia_put_record(&mut self, r: kad::Record, q: kad::Quorum) -> Result<kad::QueryId, kad::store::Error> { self.real().kademlia_put_record(r, q) }
    fn kademlia_put_record_local(&mut self, r: kad::Record) -> Result<(), kad::store::Error> { self.real().kademlia_put_record_local(r) }
    fn kademlia_remove_record(&mut self, k: &kad::RecordKey) { self.real().kademlia_remove_record(k) }
    fn kademlia_remove_record_local(&mut self, k: &kad::RecordKey) { self.real().kademlia_remove_record_local(k) }
}
type Rev = request_response::Event<SwarmRequest, SwarmResponse>;
/// Two nodes, 7 connected to 101.
fn two() -> (Swarm<Full>, Swarm<Full>) {
    let c = Arc::<Mutex<Cable>>::default();
    let (p, q) = (peer(ME), peer(101));
    let cfg = || Config::without_executor().with_idle_connection_timeout(Duration::from_secs(60));
    let mut a = Swarm::new(Wire(p, c.clone()).boxed(), Full::new(p), p, cfg());
    let mut b_ = Swarm::new(Wire(q, c).boxed(), Full::new(q), q, cfg());
    b_.listen_on(addr(1)).unwrap();
    b_.behaviour_mut().kademlia_set_mode(Some(kad::Mode::Server));
    a.dial(addr(1)).unwrap();
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..12 { for s in [&mut a, &mut b_] { let _ = futures::Stream::poll_next(Pin::new(s), &mut cx); } }
    check(a.is_connected(&q) && b_.is_connected(&p), "the nodes are connected");
    (a, b_)
}
fn one(s: &mut Swarm<Full>) -> Option<Rev> {
    let mut cx = Context::from_waker(Waker::noop());
    match futures::Stream::poll_next(Pin::new(s), &mut cx) {
        Poll::Ready(Some(SwarmEvent::Behaviour(FullEvent::RequestResponse(e)))) => Some(e),
        _ => None,
    }
}
/// This node run by the library, connected to another (101) run by the harness.
#[derive(Clone)]
struct Pair(Arc<Mutex<Inner>>);
struct Inner { h: ActorSwarmHandler, a: Swarm<Full>, b: Swarm<Full>, events: Vec<FullEvent>, waker: Option<Waker> }
fn run_pair() -> Pair {
    let (_, h) = ActorSwarm::bootstrap_manual(peer(ME)).unwrap();
    let (mut a, b_) = two();
    let mut h = h;
    h.handle_event(&mut a, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Mdns(libp2p::mdns::Event::Discovered(vec![(peer(101), addr(1))]))));
    let p = Pair(Arc::new(Mutex::new(Inner { h, a, b: b_, events: vec![], waker: None })));
    let me = p.clone();
    tokio::spawn(std::future::poll_fn(move |cx| {
        let g = &mut *me.0.lock().unwrap();
        g.waker = Some(cx.waker().clone());
        loop {
            let mut more = false;
            let c = std::future::Future::poll(std::pin::pin!(g.h.next_command()), cx);
            if let Poll::Ready(Some(c)) = c { g.h.handle_command(&mut g.a, c); more = true }
            if let Poll::Ready(Some(e)) = futures::Stream::poll_next(Pin::new(&mut g.a), cx) {
                more = true;
                let e = match e {
                    SwarmEvent::Behaviour(FullEvent::Kademlia(e)) => Some(ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Kademlia(e))),
                    SwarmEvent::Behaviour(FullEvent::RequestResponse(e)) => Some(ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(e))),
                    SwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause } => Some(ActorSwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause }),
                    _ => None,
                };
                if let Some(e) = e { g.h.handle_event(&mut g.a, e) }
            }
            if let Poll::Ready(Some(e)) = futures::Stream::poll_next(Pin::new(&mut g.b), cx) {
                more = true;
                if let SwarmEvent::Behaviour(e) = e { g.events.push(e) }
            }
            if !more { return Poll::<()>::Pending }
        }
    }));
    p
}
impl Pair {
    fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R { f(&mut self.0.lock().unwrap()) }
    /// The other node does something.
    async fn other<R>(&self, f: impl FnOnce(&mut Swarm<Full>) -> R) -> R {
        let r = self.with(|i| f(&mut i.b));
        self.with(|i| if let Some(w) = i.waker.take() { w.wake() });
        settle().await;
        r
    }
    /// What the other node has stored under a name.
    fn stored(&self, name: &str) -> Option<Vec<u8>> { self.with(|i| i.b.behaviour_mut().kademlia_get_record_local(&key(name)).map(|r| r.value.clone())) }
    /// An actor of the other node, registered as "there" and found from here.
    async fn elsewhere(&self) -> RemoteActorRef<Probe> {
        let (s, g, _) = prepare(Probe::new(2), 4);
        tokio::spawn(g);
        let x = s.clone();
        let (l, _) = later(async move { registered(&x.register("there").await) });
        settle().await;
        check(l.get() == Some(End::Done), "registered");
        self.with(|i| i.a.behaviour_mut().kademlia_remove_record_local(&key("there")));
        let mut v = self.stored("there").unwrap_or_default();
        let me = peer(ME).to_bytes();
        let i = v.windows(me.len()).position(|w| w == me).unwrap();
        v[i + me.len() - 1] = 101;
        self.other(|b_| b_.behaviour_mut().kademlia_put_record_local(kad::Record::new(key("there"), v)).unwrap()).await;
        let t = tokio::spawn(async { RemoteActorRef::<Probe>::lookup("there").await });
        settle().await;
        check(t.is_finished(), "a lookup ends");
        let x = t.await.unwrap().ok().flatten().unwrap();
        check(x.id() == ActorID::new_with_peer_id(s.id().sequence_id(), peer(101)), "the actor found is the one registered there");
        x
    }
    fn events(&self) -> Vec<FullEvent> { self.with(|i| std::mem::take(&mut i.events)) }
    fn requests(&self) -> Vec<(SwarmRequest, ResponseChannel<SwarmResponse>)> {
        self.events().into_iter().filter_map(|e| match e {
            FullEvent::RequestResponse(request_response::Event::Message { message: request_response::Message::Request { request, channel, .. }, .. }) => Some((request, channel)),
            _ => None,
        }).collect()
    }
    fn responses(&self) -> Vec<(OutboundRequestId, SwarmResponse)> {
        self.events().into_iter().filter_map(|e| match e {
            FullEvent::RequestResponse(request_response::Event::Message { message: request_response::Message::Response { request_id, response }, .. }) => Some((request_id, response)),
            _ => None,
        }).collect()
    }
}
fn key(n: &str) -> kad::RecordKey { n.as_bytes().to_vec().into() }
fn dur(n: &'static str) -> Option<Duration> { [None, Some(Duration::from_millis(5)), Some(Duration::new(2, 7))][choose(3, n)] }
fn aid(n: u64) -> ActorID { ActorID::new_with_peer_id(n, peer(if flip("at") { 101 } else { 103 })) }
fn data(n: &'static str) -> Vec<u8> { let v = u64v(n) as u8; vec![v; choose(3, "length")] }

crate::sym::harnesses! {
    // What this node asks of another arrives there as it was meant, and so does the answer.
    c30_real {
        let (mut ta, mut tb) = two();
        let to = peer(101);
        let s = u64v("seq");
        let id = ActorID::new_with_peer_id(s, to);
        let kind = choose(5, "kind");
        let a = ta.behaviour_mut().real();
        let (payload, mt, rt_, imm) = if kind < 2 { (data("payload"), dur("mailbox"), if kind == 0 { dur("reply") } else { None }, flip("immediate")) } else { (vec![], None, None, false) };
        let other = if kind >= 2 { aid(5) } else { id };
        let req = match kind {
            0 => SwarmBehaviour::ask(a, &to, id, "an actor".into(), "a message".into(), payload.clone(), mt, rt_, imm),
            1 => SwarmBehaviour::tell(a, &to, id, "an actor".into(), "a message".into(), payload.clone(), mt, imm),
            2 => SwarmBehaviour::link(a, id, "an actor".into(), other, "its sibling".into()),
            3 => SwarmBehaviour::unlink(a, id, "an actor".into(), other),
            _ => SwarmBehaviour::signal_link_died(a, other, id, "an actor".into(), ActorStopReason::PeerDisconnected),
        };
        let mut got = None;
        for _ in 0..30 {
            let (x, y) = (one(&mut ta), one(&mut tb));
            check(x.is_none(), "no answer before there is one");
            if let Some(e) = y { got = Some(e); break }
        }
        let Some(request_response::Event::Message { peer: from, message: request_response::Message::Request { request, channel, .. }, .. }) = got else { check(false, "the request arrives"); return };
        check(from == peer(ME), "from this node");
        let same = match request {
            SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload: p, mailbox_timeout, reply_timeout, immediate } =>
                kind == 0 && actor_id == id && actor_remote_id == "an actor" && message_remote_id == "a message" && p == payload && mailbox_timeout == mt && reply_timeout == rt_ && immediate == imm,
            SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload: p, mailbox_timeout, immediate } =>
                kind == 1 && actor_id == id && actor_remote_id == "an actor" && message_remote_id == "a message" && p == payload && mailbox_timeout == mt && immediate == imm,
            SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id } =>
                kind == 2 && actor_id == id && actor_remote_id == "an actor" && sibbling_id == other && sibbling_remote_id == "its sibling",
            SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id } => kind == 3 && actor_id == id && actor_remote_id == "an actor" && sibbling_id == other,
            SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason } =>
                kind == 4 && dead_actor_id == other && notified_actor_id == id && notified_actor_remote_id == "an actor" && matches!(stop_reason, ActorStopReason::PeerDisconnected),
        };
        check(same, "the request arrives as it was made");
        let ok = flip("ok");
        let reply = if kind == 0 && ok { data("reply") } else { vec![] };
        let b_ = tb.behaviour_mut().real();
        let sent = match kind {
            0 => SwarmBehaviour::send_ask_response(b_, channel, if ok { Ok(reply.clone()) } else { Err(RemoteSendError::HandlerError(vec![3])) }).is_ok(),
            1 => SwarmBehaviour::send_tell_response(b_, channel, if ok { Ok(()) } else { Err(RemoteSendError::MailboxFull) }).is_ok(),
            2 => SwarmBehaviour::send_link_response(b_, channel, if ok { Ok(()) } else { Err(RemoteSendError::ActorNotRunning) }).is_ok(),
            3 => SwarmBehaviour::send_unlink_response(b_, channel, if ok { Ok(()) } else { Err(RemoteSendError::BadActorType) }).is_ok(),
            _ => SwarmBehaviour::send_signal_link_died_response(b_, channel, if ok { Ok(()) } else { Err(RemoteSendError::ActorStopped) }).is_ok(),
        };
        check(sent, "the answer can be sent");
        let mut got = None;
        for _ in 0..30 {
            let (x, _) = (one(&mut ta), one(&mut tb));
            if let Some(e) = x { got = Some(e); break }
        }
        let Some(request_response::Event::Message { peer: from, message: request_response::Message::Response { request_id, response }, .. }) = got else { check(false, "the answer arrives"); return };
        check(from == to && request_id == req, "as the answer to this request");
        let same = match response {
            SwarmResponse::Ask(Ok(v)) => kind == 0 && ok && v == reply,
            SwarmResponse::Ask(Err(RemoteSendError::HandlerError(v))) => kind == 0 && !ok && v == [3],
            SwarmResponse::Tell(Ok(())) => kind == 1 && ok,
            SwarmResponse::Tell(Err(RemoteSendError::MailboxFull)) => kind == 1 && !ok,
            SwarmResponse::Link(Ok(())) => kind == 2 && ok,
            SwarmResponse::Link(Err(RemoteSendError::ActorNotRunning)) => kind == 2 && !ok,
            SwarmResponse::Unlink(Ok(())) => kind == 3 && ok,
            SwarmResponse::Unlink(Err(RemoteSendError::BadActorType)) => kind == 3 && !ok,
            SwarmResponse::SignalLinkDied(Ok(())) => kind == 4 && ok,
            SwarmResponse::SignalLinkDied(Err(RemoteSendError::ActorStopped)) => kind == 4 && !ok,
            _ => false,
        };
        check(same, "the answer arrives as it was given");
        reach("end");
    }
    // Names registered here are found by other nodes, and theirs here, through the library's own record store.
    c31_network {
        block_on(async {
            let t = run_pair();
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let o = kameo::spawn(Other(3));
            let mut model = 0;
            for _ in 0..b(2, 3) {
                let what = choose(3, "op");
                let (x, y) = (r.clone(), o.clone());
                let (l, _) = later(async move { match what {
                    0 => registered(&ActorSwarm::get().unwrap().unregister("name".into()).await),
                    1 => registered(&x.register("name").await),
                    _ => registered(&y.register("name").await),
                } });
                settle().await;
                check(l.get() == Some(End::Done), "done");
                model = what;
                let there = t.stored("name").filter(|v| !v.is_empty());
                check(there.is_some() == (model != 0), "the other node has the record exactly while registered");
                check(there == t.with(|i| i.a.behaviour_mut().kademlia_get_record_local(&key("name")).map(|r| r.value.clone())), "and the same one");
            }
            let (seq, oseq) = (r.id().sequence_id(), o.id().sequence_id());
            let (l, _) = later(async { [named(&RemoteActorRef::<Probe>::lookup("name").await), named(&RemoteActorRef::<Other>::lookup("name").await), named_here(&ActorRef::<Probe>::lookup("name").await)] });
            settle().await;
            let want = match model { 0 => [End::Absent, End::Absent, End::Absent], 1 => [End::Reply(seq), End::BadType, End::Reply(seq)], _ => [End::BadType, End::Reply(oseq), End::BadType] };
            check(l.get() == Some(want), "found by type");
            reach("end");
        });
    }
    // An actor of another node is found, and only by its type and while it is registered.
    c31_abroad {
        block_on(async {
            let t = run_pair();
            let _ = t.elsewhere().await;
            let (l, _) = later(async { (named(&RemoteActorRef::<Other>::lookup("there").await), named(&RemoteActorRef::<Probe>::lookup("nobody").await), named_here(&ActorRef::<Probe>::lookup("there").await)) });
            settle().await;
            let (wrong, nobody, here) = l.get().unwrap_or((End::Mismatch, End::Mismatch, End::Mismatch));
            check(wrong == End::BadType, "by its type only");
            check(nobody == End::Absent, "names that nobody registered are not found");
            check(here == End::Absent, "actors of other nodes are not here");
            t.other(|b_| b_.behaviour_mut().kademlia_put_record_local(kad::Record::new(key("there"), vec![])).unwrap()).await;
            let (l, _) = later(async { named(&RemoteActorRef::<Probe>::lookup("there").await) });
            settle().await;
            check(l.get() == Some(End::Absent), "not once unregistered");
            reach("end");
        });
    }
    // Requests of another node are executed and answered.
    c26_network {
        block_on(async {
            let t = run_pair();
            let (r, f, _) = prepare(Probe::new(1), 4);
            tokio::spawn(f);
            let x = r.clone();
            let (l, _) = later(async move { registered(&x.register("name").await) });
            settle().await;
            check(l.get() == Some(End::Done), "registered");
            let v = u64v("v");
            assume(v < UNSERIALIZABLE - 1);
            let k = choose(5, "k") as u8;
            let (tell, imm, unknown) = (flip("tell"), flip("immediate"), flip("unknown"));
            let m = R { v, k };
            let id = abroad(r.id());
            let name: Cow<'static, str> = if unknown { "?".into() } else { <Probe as RemoteMessage<R>>::REMOTE_ID.into() };
            let req = t.other(|b_| {
                let a = b_.behaviour_mut();
                if tell { a.tell(&peer(ME), id, PROBE.into(), name, payload(&m), None, imm) } else { a.ask(&peer(ME), id, PROBE.into(), name, payload(&m), None, None, imm) }
            }).await;
            let mut w = t.responses();
            check(w.len() == 1 && w[0].0 == req, "the request is answered once");
            let Some((_, w)) = w.pop() else { return };
            let end = if tell { tell_end(w) } else { ask_end(w) };
            let want = if unknown { End::UnknownMessage(PROBE.into(), "?".into()) } else if tell { End::Done } else { match k { 1 => End::Error(v), 2 => End::Stopped, 4 => End::SerReply, _ => End::Reply(v + 1) } };
            check(end == want, "as if it had been made here");
            check(count(|e| *e == Ev::Msg(1, v)) == usize::from(!unknown), "and executed once");
            reach("end");
        });
    }
    // What this node asks of actors elsewhere ends with the answer given there, or with the loss of the other node.
    c27_network {
        block_on(async {
            let t = run_pair();
            let x = t.elsewhere().await;
            let v = u64v("v");
            assume(v < UNSERIALIZABLE - 1);
            let (tell, imm) = (flip("tell"), flip("immediate"));
            let y = x.clone();
            let (l, _) = later(async move {
                let m = R { v, k: 0 };
                if tell { told(&if imm { y.tell(&m).try_send().await } else { y.tell(&m).mailbox_timeout(Duration::from_millis(3)).send().await }) }
                else { asked(&if imm { y.ask(&m).try_send().await } else { y.ask(&m).mailbox_timeout(Duration::from_millis(3)).reply_timeout(Duration::from_millis(4)).send().await }) }
            });
            settle().await;
            let mut q = t.requests();
            check(q.len() == 1, "the other node is asked once");
            let Some((q, channel)) = q.pop() else { return };
            let (mt, rt_) = if imm { (None, None) } else { (Some(Duration::from_millis(3)), Some(Duration::from_millis(4))) };
            check(match q {
                SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload: p, mailbox_timeout, reply_timeout, immediate } =>
                    !tell && actor_id == x.id() && actor_remote_id == PROBE && message_remote_id == <Probe as RemoteMessage<R>>::REMOTE_ID && p == payload(&R { v, k: 0 }) && mailbox_timeout == mt && (reply_timeout == rt_) && immediate == imm,
                SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload: p, mailbox_timeout, immediate } =>
                    tell && actor_id == x.id() && actor_remote_id == PROBE && message_remote_id == <Probe as RemoteMessage<R>>::REMOTE_ID && p == payload(&R { v, k: 0 }) && mailbox_timeout == mt && immediate == imm,
                _ => false,
            }, "what was asked");
            check(l.get().is_none(), "nothing ends before it is answered");
            let how = choose(4, "how");
            let w = u64v("w");
            assume(w < UNSERIALIZABLE);
            let lost = how >= 2;
            t.other(|b_| match how {
                0 if tell => drop(b_.behaviour_mut().send_tell_response(channel, Ok(()))),
                0 => drop(b_.behaviour_mut().send_ask_response(channel, Ok(rmp_serde::to_vec_named(&w).unwrap()))),
                1 if tell => drop(b_.behaviour_mut().send_tell_response(channel, Err(RemoteSendError::MailboxFull))),
                1 => drop(b_.behaviour_mut().send_ask_response(channel, Err(RemoteSendError::HandlerError(rmp_serde::to_vec_named(&w).unwrap())))),
                2 => drop(channel),
                _ => b_.disconnect_peer_id(peer(ME)).unwrap(),
            }).await;
            let end = l.get();
            check(end.is_some(), "every operation ends");
            let end = end.unwrap_or(End::Mismatch);
            check(if lost { matches!(end, End::Closed | End::Io) } else { end == match (how, tell) { (0, true) => End::Done, (0, false) => End::Reply(w), (_, true) => End::Full, _ => End::Error(w) } }, "with its own answer");
            reach("end");
        });
    }
    // Links between nodes: the death of either is told to the other, as is the loss of the connection.
    c28_network {
        block_on(async {
            let t = run_pair();
            let x = t.elsewhere().await;
            let (r, f, out) = prepare(Probe::with(1, Cfg { link: Policy::Continue, ..Cfg::default() }), 4);
            tokio::spawn(f);
            let (r2, x2) = (r.clone(), x.clone());
            let (l, _) = later(async move { told(&r2.link_remote(&x2).await) });
            settle().await;
            let mut q = t.requests();
            let Some((SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id }, c)) = q.pop() else { check(false, "the other node is asked to link"); return };
            check(actor_id == x.id() && actor_remote_id == PROBE && sibbling_id == abroad(r.id()) && sibbling_remote_id == PROBE && q.is_empty(), "the other to this");
            t.other(|b_| drop(b_.behaviour_mut().send_link_response(c, Ok(())))).await;
            check(l.get() == Some(End::Done), "linked");
            match choose(4, "what") {
                0 => {
                    r.kill();
                    settle().await;
                    let mut q = t.requests();
                    let Some((SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason }, c)) = q.pop() else { check(false, "the death is told"); return };
                    check(dead_actor_id == abroad(r.id()) && notified_actor_id == x.id() && notified_actor_remote_id == PROBE && matches!(stop_reason, ActorStopReason::Killed) && q.is_empty(), "once, to the linked actor, with its reason");
                    t.other(|b_| drop(b_.behaviour_mut().send_signal_link_died_response(c, Ok(())))).await;
                    check(out.get().is_some(), "and the actor is gone");
                }
                1 => {
                    let (id, to) = (x.id(), abroad(r.id()));
                    let req = t.other(|b_| b_.behaviour_mut().signal_link_died(id, to, PROBE.into(), ActorStopReason::Killed)).await;
                    let w = t.responses();
                    check(w.len() == 1 && w[0].0 == req && matches!(w[0].1, SwarmResponse::SignalLinkDied(Ok(()))), "the report is acknowledged");
                    check(linkdeaths(1) == vec![(x.id(), Why::Killed)], "the death elsewhere is told here once");
                }
                2 => {
                    t.other(|b_| b_.disconnect_peer_id(peer(ME)).unwrap()).await;
                    check(linkdeaths(1) == vec![(x.id(), Why::Other)], "the loss of the node is told once");
                }
                _ => {
                    let (id, to) = (x.id(), abroad(r.id()));
                    let req = t.other(|b_| b_.behaviour_mut().unlink(to, PROBE.into(), id)).await;
                    let w = t.responses();
                    check(w.len() == 1 && w[0].0 == req && matches!(w[0].1, SwarmResponse::Unlink(Ok(()))), "unlinking is acknowledged");
                    t.other(|b_| b_.disconnect_peer_id(peer(ME)).unwrap()).await;
                    check(linkdeaths(1).is_empty(), "the loss is not told to those unlinked");
                }
            }
            reach("end");
        });
    }
}
