//! Actors with scripted behaviour that log everything observable.
use crate::exec::{yield_, Gate};
pub use kameo::actor::*;
pub use kameo::error::*;
pub use kameo::mailbox::{self, *};
pub use kameo::message::*;
pub use kameo::reply::*;
pub use kameo::Actor;
use std::any::Any;
pub use std::ops::ControlFlow;
pub use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Code(pub u64);

/// Why an actor stopped, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub enum Why { Normal, Killed, Panicked(u64), LinkDied(ActorID, Box<Why>), Other }
pub fn code_of(e: &PanicError) -> u64 {
    if let Some(c) = e.downcast::<Code>() { return c.0 }
    if let Some(Some(c)) = e.with_downcast_ref(|a: &Box<dyn Any + Send>| a.downcast_ref::<Code>().map(|c| c.0)) { return c }
    if let Some(c) = e.with_str(|s| s.len() as u64) { return c }
    u64::MAX
}
pub fn why(r: &ActorStopReason) -> Why {
    match r {
        ActorStopReason::Normal => Why::Normal,
        ActorStopReason::Killed => Why::Killed,
        ActorStopReason::Panicked(e) => Why::Panicked(code_of(e)),
        ActorStopReason::LinkDied { id, reason } => Why::LinkDied(*id, Box::new(why(reason))),
        #[allow(unreachable_patterns)]
        _ => Why::Other,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Start(u8), Started(u8),
    Msg(u8, u64), Done(u8, u64),
    Panic(u8, u64), LinkDied(u8, ActorID, Why),
    Stop(u8, Why), Stopped(u8),
    Note(u64, u64),
}
/// Threads run one at a time and are interrupted at atomic operations only, so the log needs no lock (which would add many such
/// points). It is one such point.
struct Log(std::cell::UnsafeCell<Vec<Ev>>, std::sync::atomic::AtomicUsize);
unsafe impl Sync for Log {}
static LOG: Log = Log(std::cell::UnsafeCell::new(Vec::new()), std::sync::atomic::AtomicUsize::new(0));
pub fn log(e: Ev) { unsafe { LOG.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst); (*LOG.0.get()).push(e) } }
pub fn events() -> Vec<Ev> { unsafe { LOG.1.load(std::sync::atomic::Ordering::SeqCst); (*LOG.0.get()).clone() } }
pub fn clear() { unsafe { (*LOG.0.get()).clear() } }
pub fn count(f: impl Fn(&Ev) -> bool) -> usize { events().iter().filter(|e| f(e)).count() }
pub fn pos(f: impl Fn(&Ev) -> bool) -> Option<usize> { events().iter().position(|e| f(e)) }
/// payloads of the messages actor `a` began handling, in order
pub fn handled(a: u8) -> Vec<u64> { events().iter().filter_map(|e| match e { Ev::Msg(x, v) if *x == a => Some(*v), _ => None }).collect() }
pub fn linkdeaths(a: u8) -> Vec<(ActorID, Why)> { events().iter().filter_map(|e| match e { Ev::LinkDied(x, i, w) if *x == a => Some((*i, w.clone())), _ => None }).collect() }
pub fn stops(a: u8) -> Vec<Why> { events().iter().filter_map(|e| match e { Ev::Stop(x, w) if *x == a => Some(w.clone()), _ => None }).collect() }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Hook { #[default] Ok, Err, Panic, Yield }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Policy { #[default] Default, Continue, Break, Err }
#[derive(Clone, Default)]
pub struct Cfg {
    pub start: Hook,
    pub start_gate: Option<Gate>,
    pub panic: Policy,
    pub link: Policy,
    pub stop: Hook,
    pub stop_gate: Option<Gate>,
    /// messages the actor sends to itself in on_start
    pub self_tell: Vec<u64>,
    pub handler_gate: Option<Gate>,
}
#[cfg_attr(feature = "remote", derive(kameo::RemoteActor))]
pub struct Probe { pub a: u8, pub cfg: Cfg, pub seen: usize }
impl Probe {
    pub fn new(a: u8) -> Self { Probe { a, cfg: Cfg::default(), seen: 0 } }
    pub fn with(a: u8, cfg: Cfg) -> Self { Probe { a, cfg, seen: 0 } }
}
pub const START_ERR: u64 = 0xA1;
pub const PANIC_ERR: u64 = 0xA2;
pub const LINK_ERR: u64 = 0xA3;
pub const STOP_ERR: u64 = 0xA4;
pub const BREAK_CODE: u64 = 0xA5;

impl Actor for Probe {
    type Error = Code;
    async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
        log(Ev::Start(self.a));
        for v in &self.cfg.self_tell { r.tell(M(*v)).try_send().unwrap(); }
        drop(r);
        if let Some(g) = self.cfg.start_gate.clone() { g.wait().await }
        match self.cfg.start {
            Hook::Ok => {}
            Hook::Err => return Err(Code(START_ERR)),
            Hook::Panic => std::panic::panic_any(Code(START_ERR)),
            Hook::Yield => yield_().await,
        }
        log(Ev::Started(self.a));
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
        log(Ev::Panic(self.a, code_of(&e)));
        match self.cfg.panic {
            Policy::Default => Ok(ControlFlow::Break(ActorStopReason::Panicked(e))),
            Policy::Continue => Ok(ControlFlow::Continue(())),
            Policy::Break => Ok(ControlFlow::Break(ActorStopReason::Normal)),
            Policy::Err => Err(Code(PANIC_ERR)),
        }
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, r: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Code> {
        log(Ev::LinkDied(self.a, id, why(&r)));
        match self.cfg.link {
            Policy::Default | Policy::Continue => Ok(ControlFlow::Continue(())),
            Policy::Break => Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(r) })),
            Policy::Err => Err(Code(LINK_ERR)),
        }
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> {
        log(Ev::Stop(self.a, why(&r)));
        if let Some(g) = self.cfg.stop_gate.clone() { g.wait().await }
        match self.cfg.stop {
            Hook::Ok => {}
            Hook::Err => { log(Ev::Stopped(self.a)); return Err(Code(STOP_ERR)) }
            Hook::Panic => std::panic::panic_any(Code(STOP_ERR)),
            Hook::Yield => yield_().await,
        }
        log(Ev::Stopped(self.a));
        Ok(())
    }
}
/// A plain message: logged, replies payload + 1.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct M(pub u64);
impl Message<M> for Probe {
    type Reply = u64;
    async fn handle(&mut self, m: M, _: &mut Context<Self, u64>) -> u64 {
        log(Ev::Msg(self.a, m.0));
        if let Some(g) = self.cfg.handler_gate.clone() { g.wait().await }
        self.seen += 1;
        log(Ev::Done(self.a, m.0));
        m.0.wrapping_add(1)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Ok, Err, Panic, Str, Yield, PanicAfterYield }
pub fn kind(n: usize) -> K { [K::Ok, K::Err, K::Panic, K::Yield, K::Str, K::PanicAfterYield][n] }
/// A scripted message whose reply is a Result.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct S(pub u64, pub K);
impl Message<S> for Probe {
    type Reply = Result<u64, Code>;
    async fn handle(&mut self, m: S, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        log(Ev::Msg(self.a, m.0));
        match m.1 {
            K::Ok => {}
            K::Err => return Err(Code(m.0)),
            K::Panic => std::panic::panic_any(Code(m.0)),
            K::Str => panic!("boom"),
            K::Yield => yield_().await,
            K::PanicAfterYield => { yield_().await; std::panic::panic_any(Code(m.0)) }
        }
        self.seen += 1;
        log(Ev::Done(self.a, m.0));
        Ok(m.0.wrapping_add(1))
    }
}
/// A message that waits at a gate while being handled.
#[derive(Clone)]
pub struct G(pub u64, pub Gate);
impl Message<G> for Probe {
    type Reply = u64;
    async fn handle(&mut self, m: G, _: &mut Context<Self, u64>) -> u64 {
        log(Ev::Msg(self.a, m.0));
        m.1.wait().await;
        log(Ev::Done(self.a, m.0));
        m.0.wrapping_add(1)
    }
}
/// Where the result of `PreparedActor::run` ends up.
#[derive(Clone, Default)]
pub struct Out(pub Arc<Mutex<Option<(u8, usize, Why)>>>);
impl Out {
    pub fn get(&self) -> Option<(u8, usize, Why)> { self.0.lock().unwrap().clone() }
    pub fn why(&self) -> Option<Why> { self.get().map(|x| x.2) }
}
/// An actor ready to run: its reference, its future and where its outcome goes.
pub fn prepare(p: Probe, cap: usize) -> (ActorRef<Probe>, impl std::future::Future<Output = ()>, Out) {
    let pa = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
    let r = pa.actor_ref().clone();
    let out = Out::default();
    let o = out.clone();
    (r, async move {
        let (p, reason) = pa.run(p).await;
        *o.0.lock().unwrap() = Some((p.a, p.seen, why(&reason)));
    }, out)
}
