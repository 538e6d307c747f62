//! A small executor whose scheduling decisions are symbolic: which woken task is polled next is an input.
use crate::sym::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool, Mutex<Option<Waker>>);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst);
        let w = self.1.lock().unwrap().clone();
        if let Some(w) = w { w.wake_by_ref() }
    }
}
pub struct Exec<'a> {
    tasks: Vec<(Option<Pin<Box<dyn Future<Output = ()> + 'a>>>, Arc<Flag>)>,
    steps: usize,
    /// how many scheduling decisions are still symbolic; afterwards lowest index first
    pub choices: usize,
}
impl<'a> Exec<'a> {
    pub fn new(choices: usize) -> Self { Exec { tasks: vec![], steps: 0, choices } }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) -> usize {
        self.tasks.push((Some(Box::pin(f)), Arc::new(Flag(AtomicBool::new(true), Mutex::new(None)))));
        self.tasks.len() - 1
    }
    pub fn done(&self, i: usize) -> bool { self.tasks[i].0.is_none() }
    pub fn cancel(&mut self, i: usize) { self.tasks[i].0 = None }
    pub fn ready(&self, i: usize) -> bool { self.tasks[i].0.is_some() && self.tasks[i].1 .0.load(SeqCst) }
    pub fn poll(&mut self, i: usize) -> bool {
        self.steps += 1;
        check(self.steps < 3000, "no livelock");
        let (f, w) = &mut self.tasks[i];
        w.0.store(false, SeqCst);
        let waker = Waker::from(w.clone());
        if let Some(t) = f {
            if t.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() { *f = None }
        }
        f.is_none()
    }
    /// Poll one woken task, chosen symbolically. False when no task is woken.
    pub fn step(&mut self) -> bool {
        let mut r = [0usize; 16];
        let mut n = 0;
        for i in 0..self.tasks.len() { if self.ready(i) { r[n] = i; n += 1 } }
        if n == 0 { return false }
        let k = if n > 1 && self.choices > 0 { self.choices -= 1; choose(n, "sched") } else { 0 };
        self.poll(r[k]);
        true
    }
    /// Run until nothing is woken.
    pub fn run(&mut self) { while self.step() {} }
    /// Poll task `i` alone until it is not woken.
    pub fn drive(&mut self, i: usize) { while self.ready(i) { self.poll(i); } }
    /// Run as a future inside a runtime (so that timers, tokio::spawn work): each poll runs until nothing is woken.
    pub fn as_future<'b>(&'b mut self) -> impl Future<Output = ()> + use<'a, 'b> {
        std::future::poll_fn(move |cx| {
            for (_, f) in &self.tasks { *f.1.lock().unwrap() = Some(cx.waker().clone()) }
            self.run();
            if self.tasks.iter().all(|t| t.0.is_none()) { Poll::Ready(()) } else { Poll::Pending }
        })
    }
}
/// Poll a future once.
pub fn poll_once<F: Future + ?Sized>(f: &mut Pin<&mut F>) -> Option<F::Output> {
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}
pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { return Poll::Ready(()) }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub fn yield_() -> Yield { Yield(false) }
/// A gate that tasks wait at until it is opened.
#[derive(Clone, Default)]
pub struct Gate(Arc<(AtomicBool, Mutex<Vec<Waker>>, AtomicUsize)>);
impl Gate {
    pub fn open(&self) {
        self.0 .0.store(true, SeqCst);
        let ws: Vec<Waker> = self.0 .1.lock().unwrap().drain(..).collect();
        for w in ws { w.wake() }
    }
    pub fn waiting(&self) -> usize { self.0 .2.load(SeqCst) }
    pub async fn wait(&self) {
        self.0 .2.fetch_add(1, SeqCst);
        struct D<'a>(&'a AtomicUsize);
        impl Drop for D<'_> { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
        let _d = D(&self.0 .2);
        std::future::poll_fn(|cx| {
            let mut wakers = self.0 .1.lock().unwrap();
            if self.0 .0.load(SeqCst) { return Poll::Ready(()) }
            wakers.push(cx.waker().clone());
            Poll::Pending
        }).await
    }
}
/// Single-threaded runtime with a paused clock that advances when everything is idle.
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
pub fn block_on<F: Future>(f: F) -> F::Output { rt().block_on(f) }
/// Let tasks spawned on the runtime run until they are all idle (bounded).
pub async fn settle() { for _ in 0..b(24, 40) { tokio::task::yield_now().await } }
