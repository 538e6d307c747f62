//! Actors on threads of their own, next to actors on the tasks of a multi-threaded runtime.
use crate::c_mt::{go, wait};
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::sync::mpsc;
use std::thread;
use tokio::runtime::{Builder, Runtime};

fn workers() -> Runtime { Builder::new_multi_thread().worker_threads(1).build().unwrap() }
/// Spawn on its own thread or as a task; what is returned waits for its end.
fn start(rt: &Runtime, own: bool, p: Probe, cap: usize) -> (ActorRef<Probe>, impl FnOnce() -> (Probe, Why)) {
    let _in = rt.enter();
    let pa = PreparedActor::new(if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) });
    let r = pa.actor_ref().clone();
    let (t, j) = if own { (Some(pa.spawn_in_thread(p)), None) } else { (None, Some(pa.spawn(p))) };
    (r, move || {
        let (p, reason) = match (t, j) { (Some(t), _) => t.join().ok().unwrap(), (_, j) => wait(j.unwrap()).ok().unwrap() };
        (p, why(&reason))
    })
}
const HOOKS: [Hook; 4] = [Hook::Ok, Hook::Err, Hook::Panic, Hook::Yield];

harnesses! {
    c92_lifecycle_mt {
        let (start_, stop) = (choose(4, "start"), choose(3, "stop"));
        let (kind_, cause) = (choose(4, "kind"), choose(3, "cause"));
        let own = flip("own thread");
        let rt = workers();
        let (r, end) = start(&rt, own, Probe::with(1, Cfg { start: HOOKS[start_], stop: HOOKS[stop], self_tell: vec![1], ..Cfg::default() }), 0);
        let _ = wait(r.tell(S(2, kind(kind_))).send());
        wait(r.wait_for_startup());
        let failed = start_ == 1 || start_ == 2;
        match cause { 0 => drop(r), 1 => { let _ = wait(r.stop_gracefully()); drop(r) } _ => { r.kill(); wait(r.wait_for_shutdown()); drop(r) } }
        let (p, reason) = end();
        let broken = !failed && (kind_ == 1 || kind_ == 2);
        check(p.a == 1, "the actor is given back");
        let expected = if failed { Why::Panicked(START_ERR) } else if broken { Why::Panicked(2) } else { Why::Normal };
        check(reason == expected || (cause == 2 && !failed && reason == Why::Killed), "it ends with the reason an actor on a task ends with");
        check(stops(1) == [reason.clone()] && count(|e| matches!(e, Ev::Start(1))) == 1, "every hook is run once");
        check(pos(|e| matches!(e, Ev::Start(1))) == Some(0) && pos(|e| matches!(e, Ev::Stop(..))).unwrap() + 1 + (stop != 2) as usize == events().len(), "the start hook first and the stop hook last");
        let h = handled(1);
        check(if failed { h.is_empty() } else if reason == Why::Killed { [vec![], vec![1], vec![1, 2]].contains(&h) } else { h == [1, 2] }, "its own messages come first, and none is lost");
        reach("end");
    }
    c92_blocking_mt {
        // one actor blocks its thread, the other goes on
        let rt = workers();
        let own = Arc::new(Mutex::new(None));
        let (free, blocked) = mpsc::channel::<u64>();
        struct Block(mpsc::Receiver<u64>, Arc<Mutex<Option<thread::ThreadId>>>);
        impl Message<Block> for Probe {
            type Reply = u64;
            async fn handle(&mut self, m: Block, _: &mut Context<Self, u64>) -> u64 {
                *m.1.lock().unwrap() = Some(thread::current().id());
                m.0.recv().unwrap()
            }
        }
        let second = flip("both on threads");
        let (a, aend) = start(&rt, true, Probe::new(1), 0);
        let (c, cend) = start(&rt, second, Probe::new(2), 0);
        let v = 7;
        preempt(b(0, 1));
        let o = own.clone();
        let s = a.clone();
        let x = go(move || wait(async { s.ask(Block(blocked, o)).send().await }));
        check(wait(async { c.ask(M(v)).send().await }) == Ok(v + 1), "an actor blocking its thread does not keep another from handling messages");
        free.send(v).unwrap();
        check(x.join().unwrap().ok() == Some(v), "once unblocked it replies");
        check(own.lock().unwrap().is_some_and(|id| id != thread::current().id()), "on a thread which is not that of its caller");
        drop((a, c));
        check(aend().1 == Why::Normal && cend().1 == Why::Normal, "both end");
        reach("end");
    }
    // The spawning functions for threads: the mailbox given is the one used, and the default is documented to hold 64 messages.
    c92_spawn_mt {
        let (given, end) = (choose(3, "mailbox"), choose(2, "end"));
        let rt = workers();
        let _in = rt.enter();
        let g = Gate::default();
        let r = match given {
            0 => kameo::actor::spawn_in_thread(Probe::new(1)),
            1 => kameo::actor::spawn_in_thread_with_mailbox(Probe::new(1), mailbox::bounded(2)),
            _ => kameo::actor::spawn_in_thread_with_mailbox(Probe::new(1), mailbox::unbounded()),
        };
        check(!r.is_current() && r.is_alive(), "it runs elsewhere");
        wait(r.tell(G(100, g.clone())).send()).unwrap();
        while handled(1).is_empty() { thread::yield_now() }
        let cap = [64, 2, 70][given];
        for i in 0..cap { check(r.tell(M(i)).try_send().is_ok(), "the mailbox holds as many as it should") }
        if given < 2 { check(r.tell(M(7)).try_send() == Err(SendError::MailboxFull(M(7))), "and not more") }
        if end == 0 { g.open() }
        let v = u64v("v");
        if end == 0 { check(wait(r.ask(M(v)).send()) == Ok(v.wrapping_add(1)) && handled(1).len() == cap as usize + 2, "it handles them all") } else { r.kill() }
        if end == 0 { wait(r.stop_gracefully()).unwrap() }
        wait(r.wait_for_shutdown());
        check(stops(1) == [if end == 0 { Why::Normal } else { Why::Killed }] && !r.is_alive(), "and stops");
        check(end == 0 || handled(1) == [100], "a kill leaves the rest unhandled");
        reach("end");
    }
    c92_asks_mt {
        let rt = workers();
        let (a, aend) = start(&rt, true, Probe::new(1), choose(2, "cap"));
        let cause = choose(2, "cause");
        preempt(b(1, 1));
        let s = a.clone();
        let x = go(move || wait(async { s.ask(S(7, K::Ok)).send().await }));
        if cause == 0 { a.kill() } else { let _ = wait(a.stop_gracefully()); }
        drop(a);
        let x = x.join().unwrap();
        let (_, reason) = aend();
        preempt(0);
        check(reason == [Why::Killed, Why::Normal][cause].clone(), "ends for the reason it was stopped");
        let done = count(|e| matches!(e, Ev::Done(1, 7)));
        match x {
            Ok(v) => check(v == 8 && done == 1, "a reply is that of the handler"),
            Err(SendError::ActorNotRunning(S(7, _))) => check(handled(1).is_empty(), "an undelivered message comes back"),
            Err(SendError::ActorStopped) => {}
            _ => check(false, "no other outcome"),
        }
        reach("end");
    }
    c92_links_mt {
        let rt = workers();
        let (a, aend) = start(&rt, false, Probe::new(1), 1);
        let (c, cend) = start(&rt, true, Probe::new(2), 1);
        let kill = flip("kill");
        wait(a.link(&c));
        let id = c.id();
        preempt(b(1, 1));
        if kill { c.kill() }
        drop(c);
        let reason = cend().1;
        check(reason == if kill { Why::Killed } else { Why::Normal }, "ends for the reason it was stopped");
        preempt(0);
        wait(a.stop_gracefully()).unwrap();
        drop(a);
        aend();
        check(linkdeaths(1) == [(id, reason)], "its death is reported to an actor on a task, once");
        reach("end");
    }
    // What hooks and handlers may use of the runtime.
    c92_runtime_mt {
        struct Uses(bool);
        impl Actor for Uses {
            type Error = Code;
            async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), Code> {
                check(r.is_current(), "an actor is current in its start hook");
                check(tokio::spawn(async { 1 }).await.ok() == Some(1), "the start hook may spawn tasks");
                Ok(())
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), Code> {
                check(tokio::spawn(async { 3 }).await.ok() == Some(3), "the stop hook may spawn tasks");
                Ok(())
            }
        }
        impl Message<M> for Uses {
            type Reply = u64;
            async fn handle(&mut self, m: M, ctx: &mut Context<Self, u64>) -> u64 {
                check(ctx.actor_ref().is_current(), "an actor is current in its handlers");
                let x = tokio::spawn(async move { m.0 + 1 }).await.unwrap();
                if self.0 { x + tokio::task::block_in_place(|| 1) } else { x }
            }
        }
        let rt = workers();
        let blocks = flip("blocks");
        let own = flip("own thread");
        let (r, j) = {
            let _in = rt.enter();
            let pa = PreparedActor::new(mailbox::unbounded());
            let r = pa.actor_ref().clone();
            (r, if own { Ok(pa.spawn_in_thread(Uses(blocks))) } else { Err(pa.spawn(Uses(blocks))) })
        };
        check(wait(async { r.ask(M(5)).send().await }) == Ok(6 + blocks as u64), "a handler may use the runtime");
        drop(r);
        let reason = match j { Ok(t) => t.join().ok().unwrap().1, Err(j) => wait(j).ok().unwrap().1 };
        check(why(&reason) == Why::Normal, "it ends with the reason an actor on a task ends with");
        reach("end");
    }
    c92_order_mt {
        let rt = workers();
        let (r, end) = start(&rt, true, Probe::with(1, Cfg { self_tell: vec![1], ..Cfg::default() }), [0, 5][choose(2, "cap")]);
        preempt(b(1, 2));
        for i in 0..2 { wait(r.tell(M(20 + i)).send()).unwrap() }
        drop(r);
        let reason = end().1;
        preempt(0);
        check(handled(1) == [1, 20, 21] && reason == Why::Normal, "messages are handled once, in order, its own first");
        reach("end");
    }
    c92_refused {
        let rt = Builder::new_current_thread().build().unwrap();
        let _in = rt.enter();
        let p = PreparedActor::new(mailbox::unbounded());
        let r = p.actor_ref().clone();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { p.spawn_in_thread(Probe::new(1)); }));
        check(res.is_err() && events().is_empty(), "refused in a runtime of a single thread, without any effect");
        check(!r.is_alive() && r.tell(M(1)).try_send() == Err(SendError::ActorNotRunning(M(1))), "the actor is not running");
        reach("end");
    }
}
