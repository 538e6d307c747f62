//! C19: delegated and immediate replies; C20: forwarding; C21: streams.
use crate::c_mt::{go, wait};
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

type R = Result<u64, Code>;
/// Requests deferred by the actor, in order of arrival.
type Shelf = Arc<Mutex<Vec<(u64, Option<ReplySender<R>>)>>>;
struct D { shelf: Shelf, panics: usize }
impl Actor for D {
    type Error = Code;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> { log(Ev::Panic(1, code_of(&e))); self.panics += 1; Ok(ControlFlow::Continue(())) }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&r))); Ok(()) }
}
/// Replies later.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Later(u64);
impl Message<Later> for D {
    type Reply = DelegatedReply<R>;
    async fn handle(&mut self, m: Later, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        log(Ev::Msg(1, m.0));
        let (d, tx) = ctx.reply_sender();
        check(ctx.reply_sender().1.is_none(), "the reply sender is given out once");
        self.shelf.lock().unwrap().push((m.0, tx));
        log(Ev::Done(1, m.0));
        d
    }
}
/// Replies through the context, then goes on.
struct Early(u64, R, bool);
impl Message<Early> for D {
    type Reply = DelegatedReply<R>;
    async fn handle(&mut self, m: Early, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        log(Ev::Msg(1, m.0));
        let d = ctx.reply(m.1);
        check(ctx.reply_sender().1.is_none(), "an answered request has no reply sender");
        if m.2 { yield_().await; let _ = ctx.reply(Ok(77)); }
        log(Ev::Done(1, m.0));
        d
    }
}
impl Message<M> for D { type Reply = u64; async fn handle(&mut self, m: M, _: &mut Context<Self, u64>) -> u64 { log(Ev::Msg(1, m.0)); m.0.wrapping_add(1) } }
/// Returns its content as a reply of some type, directly or through the context.
struct Echo<T>(T, bool);
macro_rules! echo { ($($t:ty),*) => { $(impl Message<Echo<$t>> for D { type Reply = $t; async fn handle(&mut self, m: Echo<$t>, _: &mut Context<Self, $t>) -> $t { m.0 } }
    impl Message<(Echo<$t>,)> for D { type Reply = DelegatedReply<$t>; async fn handle(&mut self, m: (Echo<$t>,), ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if m.0.1 { let (d, tx) = ctx.reply_sender(); if let Some(tx) = tx { tx.send(m.0.0) } d } else { ctx.reply(m.0.0) } } })* } }
echo!(u64, R, Option<u64>, (), (u64, bool), String, Vec<u64>, Arc<u64>, Box<u64>, &'static str, i8, char, [u64; 2], Result<(), ()>, Result<Option<u64>, String>);
fn defer(ex_shelf: &Shelf) -> (ActorRef<D>, impl std::future::Future<Output = ()>) {
    let p = if flip("bounded") { PreparedActor::new(mailbox::bounded(4)) } else { PreparedActor::new(mailbox::unbounded()) };
    let (r, shelf) = (p.actor_ref().clone(), ex_shelf.clone());
    (r, async move { p.run(D { shelf, panics: 0 }).await; })
}
/// Every way of getting `v` back unchanged.
fn same<T: Reply<Ok = T, Error = Infallible, Value = T> + Clone + PartialEq>(v: T) where D: Message<Echo<T>, Reply = T> + Message<(Echo<T>,), Reply = DelegatedReply<T>> {
    let (r, run) = defer(&Shelf::default());
    let mut ex = Exec::new(0);
    ex.spawn(run);
    let way = choose(3, "way");
    ex.spawn(async move {
        let got = match way { 0 => r.ask(Echo(v.clone(), false)).send().await.ok(), 1 => r.ask((Echo(v.clone(), false),)).send().await.ok(), _ => r.ask((Echo(v.clone(), true),)).send().await.ok() };
        check(got == Some(v), "a reply arrives unchanged");
    });
    ex.run();
    check(ex.done(1), "the caller continues");
}
/// The same for results.
fn same_r<T: Clone + PartialEq + Send + 'static, E: ReplyError + Clone + PartialEq>(v: Result<T, E>) where D: Message<Echo<Result<T, E>>, Reply = Result<T, E>> + Message<(Echo<Result<T, E>>,), Reply = DelegatedReply<Result<T, E>>> {
    let (r, run) = defer(&Shelf::default());
    let mut ex = Exec::new(0);
    ex.spawn(run);
    let way = choose(3, "way");
    ex.spawn(async move {
        let got = match way { 0 => r.ask(Echo(v.clone(), false)).send().await.map_err(|e| e.map_msg(|_| ())), 1 => r.ask((Echo(v.clone(), false),)).send().await.map_err(|e| e.map_msg(|_| ())), _ => r.ask((Echo(v.clone(), true),)).send().await.map_err(|e| e.map_msg(|_| ())) };
        check(match (got, v) { (Ok(a), Ok(c)) => a == c, (Err(SendError::HandlerError(a)), Err(c)) => a == c, _ => false }, "a result arrives unchanged");
    });
    ex.run();
    check(ex.done(1), "the caller continues");
}

// ---- forwarding
/// How a forwarder passes a message on.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Fw(usize, S);
struct F { to: ActorRef<Probe> }
type SR = ForwardedReply<S, R>;
impl Actor for F {
    type Error = Code;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> {
        let k = match e.with_downcast_ref(|e: &SendError<S, Code>| match e { SendError::ActorNotRunning(m) => (1, m.0), SendError::MailboxFull(m) => (2, m.0), _ => (3, 0) }) { Some(x) => x, None => (4, 0) };
        log(Ev::Note(k.0, k.1));
        Ok(ControlFlow::Continue(()))
    }
}
impl Message<Fw> for F {
    type Reply = SR;
    async fn handle(&mut self, m: Fw, ctx: &mut Context<Self, SR>) -> SR {
        log(Ev::Msg(3, m.1.0));
        match m.0 { 0 => ctx.forward(&self.to, m.1).await, 1 => ctx.try_forward(&self.to, m.1), _ => ctx.blocking_forward(&self.to, m.1) }
    }
}
/// Forwards to a forwarder.
struct F2 { to: ActorRef<F> }
type SR2 = ForwardedReply<Fw, SR>;
impl Actor for F2 { type Error = Code; async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, Code> { log(Ev::Note(9, 9)); Ok(ControlFlow::Continue(())) } }
impl Message<(usize, Fw)> for F2 {
    type Reply = SR2;
    async fn handle(&mut self, m: (usize, Fw), ctx: &mut Context<Self, SR2>) -> SR2 {
        log(Ev::Msg(4, m.1 .1.0));
        match m.0 { 0 => ctx.forward(&self.to, m.1).await, 1 => ctx.try_forward(&self.to, m.1), _ => ctx.blocking_forward(&self.to, m.1) }
    }
}
fn prep<A: Actor>(a: A) -> (ActorRef<A>, impl std::future::Future<Output = ()>) { let p = PreparedActor::new(mailbox::unbounded()); (p.actor_ref().clone(), async move { p.run(a).await; }) }

/// Hands its reply senders to another thread.
struct H(std::sync::mpsc::Sender<ReplySender<R>>);
impl Actor for H { type Error = Code; }
impl Message<Later> for H {
    type Reply = DelegatedReply<R>;
    async fn handle(&mut self, _: Later, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        self.0.send(tx.unwrap()).unwrap();
        d
    }
}

// ---- streams
/// Yields 1..=n, pending before item i as scripted.
struct Items { next: u64, n: u64, wait: [bool; 4], woken: bool, taken: Arc<AtomicUsize>, gate: Option<(u64, Gate)>, fut: Option<Pin<Box<dyn std::future::Future<Output = ()> + Send>>> }
impl futures::Stream for Items {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<u64>> {
        use std::task::Poll::*;
        let i = self.next as usize;
        if self.next <= self.n && self.wait[i & 3] && !self.woken { self.woken = true; cx.waker().wake_by_ref(); return Pending }
        if let Some((at, g)) = self.gate.clone() { if at == self.next {
            let mut f = self.fut.take().unwrap_or_else(|| Box::pin(async move { g.wait().await }));
            if f.as_mut().poll(cx).is_pending() { self.fut = Some(f); return Pending }
        } }
        if self.next > self.n { return Ready(None) }
        self.woken = false;
        self.next += 1;
        self.taken.fetch_add(1, SeqCst);
        Ready(Some(self.next - 1))
    }
}
struct Sink { stop_at: Option<(u64, usize)>, slow: bool }
impl Actor for Sink { type Error = Code; async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Code> { log(Ev::Stop(1, why(&r))); Ok(()) } }
type SM = StreamMessage<u64, u64, u64>;
impl Message<SM> for Sink {
    type Reply = ();
    async fn handle(&mut self, m: SM, ctx: &mut Context<Self, ()>) {
        let v = match m { StreamMessage::Started(v) => 100 + v, StreamMessage::Next(v) => v, StreamMessage::Finished(v) => 200 + v };
        log(Ev::Msg(1, v));
        if let Some((at, how)) = self.stop_at { if at == v { match how { 0 => ctx.actor_ref().kill(), 1 => { let r = ctx.actor_ref(); tokio::spawn(async move { let _ = r.stop_gracefully().await; }); }, _ => panic!("x") } } }
        if self.slow { yield_().await }
    }
}

crate::sym::harnesses! {
    // Two requests deferred, a third message in between, answered in any order and manner.
    c19_orders {
        let shelf = Shelf::default();
        let (r, run) = defer(&shelf);
        let mut ex = Exec::new(b(3, 5));
        let a = ex.spawn(run);
        let (x, y) = (u64v("x"), u64v("y"));
        let hows = [choose(4, "first"), choose(4, "second")];
        let callers: Vec<usize> = (0..2).map(|i| {
            let r = r.clone();
            let how = hows[i];
            ex.spawn(async move {
                let got = r.ask(Later(i as u64)).send().await;
                let v = [x, y][i];
                match how {
                    0 => check(got == Ok(v), "a delegated reply reaches its caller"),
                    1 => check(got == Err(SendError::HandlerError(Code(v))), "a delegated error reaches its caller"),
                    _ => check(got == Err(SendError::ActorStopped), "a dropped reply sender fails its caller"),
                }
            })
        }).collect();
        let m = { let r = r.clone(); ex.spawn(async move { let e: Result<u64, SendError<M>> = r.ask(M(5)).send().await; check(e == Ok(6), "the actor handles other messages meanwhile") }) };
        ex.run();
        check(ex.done(m) && !ex.done(callers[0]) && !ex.done(callers[1]), "callers wait until they are answered");
        check(count(|e| matches!(e, Ev::Done(..))) == 2, "handlers of delegated replies finish");
        match choose(3, "then") { 0 => {}, 1 => { ex.spawn(async move { let _ = r.stop_gracefully().await; }); ex.run(); check(ex.done(a), "unanswered requests don't keep the actor") } _ => { r.kill(); ex.run(); check(ex.done(a), "unanswered requests don't keep the actor") } }
        check(!ex.done(callers[0]) && !ex.done(callers[1]), "a delegated reply outlives the actor");
        let order = flip("order");
        let mut done = [false; 2];
        for k in 0..2 {
            let i = if order { 1 - k } else { k };
            let tx = { let mut s = shelf.lock().unwrap(); let p = s.iter().position(|e| e.0 == i as u64).unwrap(); s.remove(p).1 };
            let Some(tx) = tx else { check(false, "an ask has a reply sender"); return };
            let v = [x, y][i];
            match hows[i] {
                0 => tx.send(Ok(v)),
                1 => tx.send(Err(Code(v))),
                2 => drop(tx),
                _ => { ex.spawn(async move { yield_().await; let _tx = tx; }); }
            }
            ex.run();
            done[i] = true;
            for j in 0..2 { check(ex.done(callers[j]) == done[j], "exactly the caller whose request is answered continues") }
        }
        reach("end");
    }
    // No caller: no reply sender. Gone caller: answering is harmless. Timeouts end the wait.
    c19_no_caller {
        let shelf = Shelf::default();
        let (r, run) = defer(&shelf);
        let mut ex = Exec::new(b(2, 3));
        let a = ex.spawn(run);
        match choose(4, "case") {
            0 => {
                r.tell(Later(1)).try_send().unwrap();
                ex.run();
                let s = shelf.lock().unwrap().pop();
                check(s.is_some_and(|s| s.1.is_none()), "a message without a caller has no reply sender");
                check(count(|e| matches!(e, Ev::Panic(..))) == 0, "and that is no failure");
            }
            1 => {
                let c = { let r = r.clone(); ex.spawn(async move { let _ = r.ask(Later(1)).send().await; }) };
                ex.run();
                ex.cancel(c);
                let tx = shelf.lock().unwrap().pop().unwrap().1.unwrap();
                if flip("drop") { drop(tx) } else if flip("boxed") { let _ = tx.boxed().send(Err(SendError::ActorStopped)); } else { tx.send(Ok(3)) }
                ex.run();
            }
            2 => {
                let v = u64v("v");
                let how = choose(4, "how");
                let fail = flip("fail");
                let yields = flip("goes on");
                let want: R = if fail { Err(Code(v)) } else { Ok(v) };
                let (r2, w2) = (r.clone(), want.clone());
                let c = ex.spawn(async move {
                    let got = match how {
                        0 => r2.ask(Early(1, w2.clone(), yields)).send().await.map_err(|e| e.map_msg(|_| ())),
                        1 => r2.ask(Early(1, w2.clone(), yields)).try_send().await.map_err(|e| e.map_msg(|_| ())),
                        2 => match r2.ask(Early(1, w2.clone(), yields)).enqueue().await { Ok(p) => p.await.map_err(|e| e.map_msg(|_| ())), Err(_) => Err(SendError::ActorStopped) },
                        _ => { r2.tell(Early(1, w2.clone(), yields)).send().await.unwrap(); return }
                    };
                    check(got == w2.map_err(SendError::HandlerError), "replying through the context equals returning the value");
                });
                ex.run();
                check(ex.done(c), "the caller continues");
                check(count(|e| matches!(e, Ev::Panic(..))) == 0, "an answered error is not a failure of the actor");
            }
            _ => {
                // the context's reply is sent before the handler goes on
                let (r2, v) = (r.clone(), u64v("v"));
                let c = ex.spawn(async move { check(r2.ask(Early(1, Ok(v), true)).send().await.ok() == Some(v), "replying through the context equals returning the value"); log(Ev::Note(1, 1)) });
                while !ex.ready(a) { ex.step(); }
                ex.run();
                check(ex.done(c), "the caller continues");
            }
        }
        let v = u64v("next");
        check(r.tell(M(v)).try_send().is_ok(), "the actor goes on");
        ex.run();
        check(handled(1).last() == Some(&v), "the actor goes on");
        drop(r);
        ex.run();
        check(ex.done(a), "the actor stops");
        reach("end");
    }
    c19_timeout {
        block_on(async {
            let shelf = Shelf::default();
            let (r, run) = defer(&shelf);
            let h = tokio::spawn(run);
            let late = [0u64, 9, 11][choose(3, "late")];
            let s2 = shelf.clone();
            if late > 0 { tokio::spawn(async move { tokio::time::sleep(Duration::from_millis(late)).await; if let Some((_, Some(tx))) = s2.lock().unwrap().pop() { tx.send(Ok(late)) } }); }
            let got = r.ask(Later(1)).reply_timeout(Duration::from_millis(10)).send().await;
            check(got == match late { 9 => Ok(9), _ => Err(SendError::Timeout(None)) }, "a delegated reply counts against the reply timeout");
            check(r.ask(M(1)).send().await.ok() == Some(2), "the actor goes on");
            drop(r);
            let _ = h.await;
        });
        reach("end");
    }
    // Replies of every kind arrive unchanged, returned or sent through the context.
    c19_kinds {
        let v = u64v("v");
        match choose(17, "kind") {
            0 => same(v), 1 => same_r::<u64, Code>(Ok(v)), 2 => same_r::<u64, Code>(Err(Code(v))), 3 => same(Some(v)), 4 => same(None::<u64>), 5 => same(()), 6 => same((v, v & 1 == 1)),
            7 => same(String::from("abc")), 8 => same(vec![v, v ^ 1]), 9 => same(Arc::new(v)), 10 => same(Box::new(v)), 11 => same("static"), 12 => same(v as i8), 13 => same('c'), 14 => same([v, 1]),
            15 => { same_r::<(), ()>(Ok(())); same_r::<(), ()>(Err(())) }
            _ => { same_r::<Option<u64>, String>(Ok(Some(v))); same_r::<Option<u64>, String>(Err("e".into())) }
        }
        reach("end");
    }

    // One forward: the caller gets what asking the target directly gives.
    c20_forward {
        let cap = [0, 1][choose(2, "cap")];
        let (t, trun, _) = prepare(Probe::with(1, Cfg { panic: Policy::Continue, ..Cfg::default() }), cap);
        let (f, frun) = prep(F { to: t.clone() });
        let mut ex = Exec::new(b(3, 5));
        let a = ex.spawn(trun);
        ex.spawn(frun);
        let state = choose(3, "target"); // running, stopped, busy with a full mailbox
        let how = choose(if state == 2 && cap == 1 { 2 } else { 3 }, "how");
        let kd = [K::Ok, K::Err, K::Panic, K::Yield][choose(4, "outcome")];
        let v = 40;
        let g = Gate::default();
        if state == 1 { t.kill(); ex.drive(a); check(ex.done(a), "killed") }
        if state == 2 { ex.drive(a); t.tell(G(1, g.clone())).try_send().unwrap(); ex.drive(a); t.tell(M(2)).try_send().unwrap(); }
        let full = state == 2 && cap == 1;
        let told = flip("tell");
        let f2 = f.clone();
        let c = ex.spawn(async move {
            if told { f2.tell(Fw(how, S(v, kd))).send().await.unwrap(); return }
            let got = f2.ask(Fw(how, S(v, kd))).send().await.map_err(|e| e.map_msg(|_| ()));
            let want = if state == 1 { Err(SendError::HandlerError(SendError::ActorNotRunning(S(v, kd)))) }
                else if full && how == 1 { Err(SendError::HandlerError(SendError::MailboxFull(S(v, kd)))) }
                else { match kd { K::Err => Err(SendError::HandlerError(SendError::HandlerError(Code(v)))), K::Panic => Err(SendError::ActorStopped), _ => Ok(v + 1) } };
            check(got == want, "the caller gets what asking the target itself gives");
        });
        ex.run();
        if state == 2 { if !told && !(full && how == 1) { check(!ex.done(c), "the caller waits for the target") } g.open(); ex.run() }
        check(ex.done(c), "the caller continues");
        let delivered = state != 1 && !(full && how == 1);
        check(handled(1).iter().filter(|x| **x == v).count() == delivered as usize, "a forwarded message is handled once, if it can be delivered");
        let notes: Vec<Ev> = events().into_iter().filter(|e| matches!(e, Ev::Note(..))).collect();
        if told && !delivered { check(notes == vec![Ev::Note(if state == 1 { 1 } else { 2 }, v)], "without a caller a failed forward is the forwarder's failure") }
        else { check(notes.is_empty(), "the forwarder does not fail") }
        if told && delivered { check(count(|e| matches!(e, Ev::Panic(1, _))) == (kd == K::Err || kd == K::Panic) as usize, "without a caller the target's error is the target's failure") }
        if !told && delivered { check(count(|e| matches!(e, Ev::Panic(1, _))) == (kd == K::Panic) as usize, "with a caller an error reply is no failure") }
        drop(t); drop(f);
        ex.run();
        check(ex.done(0) && ex.done(1), "everyone stops");
        reach("end");
    }
    // The forwarder may stop, be killed or handle more while the target works.
    c20_forwarder_gone {
        let (t, trun, _) = prepare(Probe::new(1), 0);
        let (f, frun) = prep(F { to: t.clone() });
        let mut ex = Exec::new(b(3, 5));
        ex.spawn(trun);
        let fa = ex.spawn(frun);
        let kd = [K::Yield, K::Err][choose(2, "outcome")];
        let how = choose(3, "how");
        let cs: Vec<usize> = (0..2).map(|i| { let f = f.clone(); ex.spawn(async move {
            let got = f.ask(Fw(how, S(i, kd))).send().await.map_err(|e| e.map_msg(|_| ()));
            check(got == if kd == K::Err { Err(SendError::HandlerError(SendError::HandlerError(Code(i)))) } else { Ok(i + 1) } || (got == Err(SendError::ActorStopped) && count(|e| *e == Ev::Msg(1, i)) == 0) || matches!(got, Err(SendError::ActorNotRunning(()))), "a forwarded request is answered by the target even if the forwarder is gone");
        }) }).collect();
        let at = choose(b(5, 7), "at");
        for _ in 0..at { ex.step(); }
        match choose(3, "then") { 0 => {}, 1 => f.kill(), _ => { let f = f.clone(); ex.spawn(async move { let _ = f.stop_gracefully().await; }); } }
        drop(f);
        ex.run();
        check(cs.iter().all(|c| ex.done(*c)), "callers continue");
        check(ex.done(fa), "the forwarder stops");
        let mut h = handled(1); h.sort(); h.dedup();
        check(h.len() == handled(1).len(), "a forwarded message is handled once");
        reach("end");
    }
    // Chains of two forwards.
    c20_chain {
        let (t, trun, _) = prepare(Probe::with(1, Cfg { panic: Policy::Continue, ..Cfg::default() }), 0);
        let (f, frun) = prep(F { to: t.clone() });
        let (f2, f2run) = prep(F2 { to: f.clone() });
        let mut ex = Exec::new(b(2, 4));
        let a = ex.spawn(trun);
        let fa = ex.spawn(frun);
        ex.spawn(f2run);
        let dead = choose(3, "dead"); // none, target, first forwarder
        if dead == 1 { t.kill(); ex.drive(a); }
        if dead == 2 { f.kill(); ex.drive(fa); }
        let (h1, h2) = (choose(2, "how1"), choose(2, "how2"));
        let kd = [K::Ok, K::Err, K::Panic][choose(3, "outcome")];
        let c = ex.spawn(async move {
            let m = Fw(h2, S(7, kd));
            let got = f2.ask((h1, m)).send().await.map_err(|e| e.map_msg(|_| ()));
            let want = match (dead, kd) {
                (1, _) => Err(SendError::HandlerError(SendError::HandlerError(SendError::ActorNotRunning(S(7, kd))))),
                (2, _) => Err(SendError::HandlerError(SendError::ActorNotRunning(m))),
                (_, K::Ok) => Ok(8),
                (_, K::Err) => Err(SendError::HandlerError(SendError::HandlerError(SendError::HandlerError(Code(7))))),
                _ => Err(SendError::ActorStopped),
            };
            check(got == want, "the caller gets what asking the target itself gives, through any number of forwards");
        });
        ex.run();
        check(ex.done(c), "the caller continues");
        check(handled(1).len() == (dead == 0) as usize, "a forwarded message is handled once, if it can be delivered");
        reach("end");
    }

    // An uninterrupted stream.
    c21_complete {
        let n = choose(b(3, 4), "items") as u64;
        let cap = [0, 1][choose(2, "cap")];
        let (wait, slow) = ([false, flip("wait1"), flip("wait2"), flip("wait3")], flip("slow"));
        block_on(async move {
            let p = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
            let r = p.actor_ref().clone();
            let taken = Arc::new(AtomicUsize::new(0));
            let before = flip("attached before it runs");
            let mk = || Items { next: 1, n, wait, woken: false, taken: taken.clone(), gate: None, fut: None };
            let (j, h);
            if before { j = r.attach_stream(mk(), 5, 6); settle().await; h = p.spawn(Sink { stop_at: None, slow }); }
            else { h = p.spawn(Sink { stop_at: None, slow }); settle().await; j = r.attach_stream(mk(), 5, 6); }
            drop(r);
            match j.await { Ok(Ok(s)) => check(s.next == n + 1, "the stream is given back when it ends"), _ => check(false, "the stream is given back when it ends") }
            let _ = h.await;
            let mut want = vec![105]; want.extend(1..=n); want.push(206);
            check(handled(1) == want, "every item is delivered once, in order, between the markers");
            check(stops(1) == vec![Why::Normal], "a finished stream does not keep the actor");
        });
        reach("end");
    }
    // The actor stops at some message, by itself or while the stream is idle.
    c21_stopped {
        let n = 3u64;
        let cap = [0, 1][choose(2, "cap")];
        let at = choose(6, "at") as u64;
        let at = [105, 1, 2, 3, 206, 0][at as usize];
        let how = choose(3, "how");
        let wait = flip("wait");
        let gated = choose(4, "idle before") as u64; // the stream has nothing more to give from here on, until after the actor stopped
        block_on(async move {
            let p = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
            let r = p.actor_ref().clone();
            let taken = Arc::new(AtomicUsize::new(0));
            let g = Gate::default();
            let s = Items { next: 1, n, wait: [wait; 4], woken: false, taken: taken.clone(), gate: (gated > 0).then(|| (gated, g.clone())), fut: None };
            let h = p.spawn(Sink { stop_at: Some((at, how)), slow: false });
            let j = r.attach_stream(s, 5, 6);
            settle().await;
            let w = r.downgrade();
            if at == 0 || (gated > 0 && (gated <= at && at <= 206)) { if how == 1 { let _ = r.stop_gracefully().await; } else { r.kill() } settle().await; }
            drop(r);
            settle().await;
            let idle = gated > 0;
            if idle { check(j.is_finished(), "delivery ends as soon as the actor has stopped") }
            g.open();
            let out = j.await;
            let _ = h.await;
            check(w.upgrade().is_none(), "a stream that ended does not keep references");
            let got: Vec<u64> = handled(1);
            let mut all = vec![105u64]; all.extend(1..=n); all.push(206);
            check(all.starts_with(&got), "what is delivered is a prefix, in order");
            let items = got.iter().filter(|v| **v < 100).count();
            match out {
                Ok(Ok(s)) => check(s.next as usize == taken.load(SeqCst) + 1 && s.next as usize > items, "the stream is given back where it was left"),
                Ok(Err(SendError::ActorNotRunning(m))) => check(match m { StreamMessage::Started(v) => v == 5 && taken.load(SeqCst) == 0, StreamMessage::Next(v) => v as usize == taken.load(SeqCst), StreamMessage::Finished(v) => v == 6 && taken.load(SeqCst) == 3 }, "the item that could not be delivered is given back"),
                _ => check(false, "delivery to a stopped actor ends with the stream or the item"),
            }
            if idle { check(taken.load(SeqCst) < gated as usize, "nothing is taken from the stream after the actor stopped") }
        });
        reach("end");
    }
    // Cancelling stops delivery; two streams attached to one actor both arrive.
    c21_two {
        let (n, m) = (choose(3, "first") as u64, choose(3, "second") as u64);
        let cap = [0, 1][choose(2, "cap")];
        let wait = [false, flip("wait1"), flip("wait2"), false];
        let cancel = flip("cancel");
        block_on(async move {
            let p = if cap == 0 { PreparedActor::new(mailbox::unbounded()) } else { PreparedActor::new(mailbox::bounded(cap)) };
            let r = p.actor_ref().clone();
            let h = p.spawn(Sink { stop_at: None, slow: flip("slow") });
            let taken = Arc::new(AtomicUsize::new(0));
            let g = Gate::default();
            let mk = |n, gate| Items { next: 1, n, wait, woken: false, taken: taken.clone(), gate, fut: None };
            let j = r.attach_stream(mk(n, cancel.then(|| (n + 1, g.clone()))), 1, 1);
            let k = r.attach_stream(futures::StreamExt::map(mk(m, None), |x| x + 10), 2, 2);
            drop(r);
            if cancel { settle().await; check(!j.is_finished(), "a stream that has not ended stays attached"); j.abort(); }
            match j.await { Ok(Ok(s)) => check(!cancel && s.next == n + 1, "the stream is given back when it ends"), Ok(_) => check(false, "no error"), Err(e) => check(cancel && e.is_cancelled(), "cancelling ends delivery") }
            check(matches!(k.await, Ok(Ok(_))), "the other stream ends by itself");
            let _ = h.await;
            let (a, c): (Vec<u64>, Vec<u64>) = handled(1).iter().partition(|v| matches!(**v, 101 | 201) || **v < 10);
            let mut wa = vec![101]; wa.extend(1..=n); if !cancel { wa.push(201) }
            let mut wc = vec![102]; wc.extend(11..11 + m); wc.push(202);
            check(a == wa && c == wc, "every item of either stream is delivered once, in order, between its markers");
        });
        reach("end");
    }
    // Several threads.
    c19_delegated_mt {
        let (tx, rx) = std::sync::mpsc::channel();
        let (r, run) = prep(H(tx));
        let (answers, kill) = (flip("answers"), flip("kill"));
        preempt(b(1, 2));
        let s = r.clone();
        let act = go(move || wait(run));
        let a = go(move || wait(async { s.ask(Later(7)).send().await }));
        if kill { r.kill() }
        drop(r);
        let given = match rx.recv() { Ok(tx) => { if answers { tx.send(Ok(9)) } true } Err(_) => false };
        let a = a.join().unwrap();
        act.join().unwrap();
        match a {
            Ok(v) => check(v == 9 && answers && given, "the reply is what was sent, also once the actor stopped"),
            Err(SendError::ActorStopped) => check(!given || !answers, "a dropped reply sender ends the ask"),
            Err(SendError::ActorNotRunning(Later(7))) => check(kill && !given, "or it was not delivered"),
            _ => check(false, "no other outcome"),
        }
        check(given || kill, "a request accepted by a running actor is handled");
        reach("end");
    }
    c20_forward_mt {
        let (way, kill) = (choose(2, "way"), flip("kill"));
        let (r, run, _) = prepare(Probe::new(1), 1 - way);
        let (f, frun) = prep(F { to: r.clone() });
        preempt(b(1, 1));
        let act = go(move || wait(run));
        let a = go(move || wait(async { f.ask(Fw(way, S(7, K::Ok))).send().await }));
        if kill { r.kill() }
        drop(r);
        wait(frun);
        let a = a.join().unwrap();
        act.join().unwrap();
        let done = count(|e| matches!(e, Ev::Done(1, 7)));
        match a {
            Ok(v) => check(v == 8 && done == 1, "the caller gets the reply of the target"),
            Err(_) => check(kill, "or an error if the target stopped"),
        }
        check(handled(1).len() <= 1 && handled(3) == [7], "handled at most once");
        reach("end");
    }
    c21_stream_mt {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
        let _in = rt.enter();
        let (r, run) = prep(Sink { stop_at: None, slow: false });
        let kill = flip("kill");
        preempt(b(1, 1));
        let act = go(move || wait(run));
        let j = r.attach_stream(futures::stream::iter(1..3u64), 5, 6);
        if kill { r.kill() }
        drop(r);
        act.join().unwrap();
        let back = wait(j);
        preempt(0);
        check(back.is_ok(), "the stream task ends");
        let h = handled(1);
        check(if kill { [105, 1, 2, 206].starts_with(&h) } else { h == [105, 1, 2, 206] }, "items and markers in order");
        check(stops(1) == [if kill { Why::Killed } else { Why::Normal }], "and the actor ends");
        reach("end");
    }
}
