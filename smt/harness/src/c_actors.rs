//! C22: pools; C23: publish-subscribe; C24: the broker; C25: the message bus.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use kameo_actors::broker::{self, Broker};
use kameo_actors::message_bus::{self, MessageBus};
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use kameo_actors::pubsub::{self, PubSub};
use kameo_actors::DeliveryStrategy;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

fn spawn(p: Probe, cap: usize) -> ActorRef<Probe> { kameo::actor::spawn_with_mailbox(p, if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) }) }
fn strategy(n: usize) -> DeliveryStrategy {
    let d = Duration::from_secs(10);
    match n { 0 => DeliveryStrategy::Guaranteed, 1 => DeliveryStrategy::BestEffort, 2 => DeliveryStrategy::TimedDelivery(d), 3 => DeliveryStrategy::Spawned, _ => DeliveryStrategy::SpawnedWithTimeout(d) }
}
/// Actor 0 handles a message until its gate opens, and its mailbox of one is full.
async fn stuck(gate: &Gate) -> ActorRef<Probe> {
    let r = spawn(Probe::with(0, Cfg { handler_gate: Some(gate.clone()), ..Default::default() }), 1);
    r.tell(M(100)).send().await.unwrap();
    settle().await;
    r.tell(M(101)).send().await.unwrap();
    settle().await;
    r
}
async fn pause(s: u64) { tokio::time::sleep(Duration::from_secs(s)).await; settle().await }
/// What a strategy promises when actor 0 is stuck until `opens` seconds after publishing (or dies then).
async fn slow(st: usize, gate: &Gate, slow_first: bool, a: &ActorRef<Probe>, again: impl AsyncFnOnce()) {
    let timed = st == 2 || st == 4;
    let blocks = st == 0 || st == 2;
    settle().await;
    check(handled(0) == [100], "the slow subscriber is stuck");
    if !(blocks && slow_first) { check(handled(1) == [7], "the others are served before the slow one"); }
    let late = flip("late");
    pause(if late { 20 } else { 5 }).await;
    if st != 0 || late && timed { check(handled(1) == [7] || !late && blocks, "nobody waits for the slow one longer than the strategy says"); }
    let dies = flip("dies");
    if dies { a.kill() } else { gate.open() }
    pause(30).await;
    check(handled(1) == [7], "the others get their copy once");
    let gets = !dies && match st { 0 | 3 => true, 1 => false, _ => !late };
    let mut want = if gets { vec![100, 101, 7] } else if dies { vec![100] } else { vec![100, 101] };
    check(handled(0) == want, "the slow one gets its copy exactly when the strategy says");
    again().await;
    settle().await;
    if !dies { want.push(8) }
    check(handled(0) == want && handled(1) == [7, 8], "being slow or having waited for it does not end anyone's subscription");
}
type Crew = Arc<Mutex<Vec<WeakActorRef<Probe>>>>;
/// A pool whose workers are numbered in order of creation.
async fn pool(size: usize, is_async: bool, cap: usize, crew: &Crew, gate: Option<Gate>) -> ActorRef<ActorPool<Probe>> {
    let crew = crew.clone();
    let make = move || {
        let mut c = crew.lock().unwrap();
        let r = spawn(Probe::with(c.len() as u8, Cfg { handler_gate: gate.clone(), ..Default::default() }), cap);
        c.push(r.downgrade());
        r
    };
    let p = if is_async { ActorPool::new_async(size, { let make = Arc::new(Mutex::new(make)); move || { let r = make.clone(); async move { if true { tokio::task::yield_now().await } let f = r.lock().unwrap(); f() } } }).await } else { ActorPool::new(size, move || make()) };
    let p = kameo::spawn(p);
    settle().await;
    p
}
/// A message that waits at the gate of the worker that handles it.
#[derive(Clone)]
struct Each(u64, Vec<Gate>);
impl Message<Each> for Probe {
    type Reply = ();
    async fn handle(&mut self, m: Each, _: &mut Context<Self, ()>) { log(Ev::Msg(self.a, m.0)); m.1[self.a as usize].wait().await; log(Ev::Done(self.a, m.0)) }
}
fn running(crew: &Crew) -> usize { crew.lock().unwrap().iter().filter(|w| w.upgrade().is_some_and(|r| r.is_alive())).count() }
fn times(v: u64) -> usize { count(|e| matches!(e, Ev::Msg(_, x) if *x == v)) }
#[derive(Clone, Copy, PartialEq)]
enum Sub { No, All, Some }
/// An independent matcher for topics: `*` within a level, `?` one character of a level, `**` any levels.
fn matches(p: &[u8], t: &[u8]) -> bool {
    if p.is_empty() { return t.is_empty() }
    if p[0] == b'*' {
        if p.len() > 1 && p[1] == b'*' {
            // a component of its own: any number of levels
            let rest = &p[2..];
            if rest.is_empty() { return true }
            let rest = &rest[1..];
            if matches(rest, t) { return true }
            for i in 0..t.len() { if t[i] == b'/' && matches(rest, &t[i + 1..]) { return true } }
            return false
        }
        if matches(&p[1..], t) { return true }
        return !t.is_empty() && t[0] != b'/' && matches(p, &t[1..])
    }
    if t.is_empty() { return false }
    if p[0] == b'?' { return t[0] != b'/' && matches(&p[1..], &t[1..]) }
    p[0] == t[0] && matches(&p[1..], &t[1..])
}
crate::sym::harnesses! {
    // Tasks, failures, broadcasts and deaths: every task is handled once or its caller gets an error, and the pool recovers.
    c22_model {
        block_on(async {
            let size = 1 + choose(2, "size");
            let crew = Crew::default();
            let p = pool(size, flip("async"), [0, 8][choose(2, "cap")], &crew, None).await;
            check(running(&crew) == size && crew.lock().unwrap().len() == size, "a pool starts with its size");
            let mut dead = 0;
            for n in 0..b(3, 4) as u64 {
                match choose(6, "op") {
                    k @ 0..=2 => {
                        let r = p.ask(Dispatch(S(n, [K::Ok, K::Err, K::Panic][k]))).send().await;
                        let lost = times(n) == 0;
                        check(times(n) == 1 || dead > 0 && lost, "a task is handled by exactly one worker");
                        if lost { check(r.is_err(), "the caller of a lost task gets an error"); dead -= 1 }
                        else { check(match (k, r) { (0, Ok(v)) => v == n + 1, (1, Err(SendError::HandlerError(c))) => c == Code(n), (2, Err(SendError::HandlerError(_))) => false, (2, Err(_)) => true, _ => false }, "the outcome of a task comes back to its caller") }
                    }
                    3 => {
                        check(p.tell(Dispatch(S(n, [K::Ok, K::Panic][choose(2, "panics")]))).send().await.is_ok(), "the pool takes tasks");
                        settle().await;
                        check(times(n) == 1 || dead > 0 && times(n) == 0, "a task is handled by exactly one worker");
                        if times(n) == 0 { dead -= 1 }
                    }
                    4 => {
                        let r = p.ask(Broadcast(S(n, K::Ok))).send().await;
                        check(r.is_ok_and(|v| v.len() == size && v.iter().all(|r| r.is_ok())), "a broadcast reports on every worker");
                        settle().await;
                        check(times(n) == size - dead, "a broadcast reaches every worker once");
                        for w in 0..crew.lock().unwrap().len() { check(handled(w as u8).iter().filter(|v| **v == n).count() <= 1, "a broadcast reaches every worker once") }
                        dead = 0;
                    }
                    _ => {
                        let i = choose(size, "victim");
                        let alive: Vec<_> = crew.lock().unwrap().iter().filter_map(|w| w.upgrade()).filter(|r| r.is_alive()).collect();
                        if i < alive.len() { if flip("gracefully") { let _ = alive[i].stop_gracefully().await; } else { alive[i].kill() } alive[i].wait_for_stop().await; dead += 1 }
                    }
                }
                settle().await;
                check(p.is_alive(), "the pool survives");
                check(running(&crew) == size - dead, "the pool keeps its size");
            }
            for n in 10..10 + 3 * size as u64 {
                let r = p.ask(Dispatch(S(n, K::Ok))).send().await;
                settle().await;
                if r.is_err() { check(dead > 0 && times(n) == 0, "a working pool serves every task"); dead -= 1 } else { check(r.is_ok_and(|v| v == n + 1) && times(n) == 1, "a working pool serves every task") }
            }
            check(running(&crew) == size - dead, "the pool keeps its size");
            check(crew.lock().unwrap().len() >= size, "workers are only replaced");
            reach("end");
        })
    }
    // A task goes to a worker with the fewest unfinished tasks.
    c22_balance {
        block_on(async {
            let size = 2 + choose(b(1, 2), "size");
            let crew = Crew::default();
            let p = pool(size, flip("async"), 0, &crew, None).await;
            let mut gates: Vec<Gate> = vec![];
            let mut open = 0;
            let cast = choose(4, "broadcast_at");
            for n in 0..b(6, 7) as u64 {
                if n == cast as u64 {
                    let own: Vec<Gate> = (0..size).map(|_| Gate::default()).collect();
                    log(Ev::Note(1, n));
                    p.tell(Broadcast(Each(n, own.clone()))).send().await.unwrap();
                    gates.extend(own);
                } else if open < gates.len() && flip("finish") { let i = choose(gates.len() - open, "which"); gates[open..].rotate_left(i); gates[open].open(); open += 1; }
                else {
                    let g = Gate::default();
                    log(Ev::Note(0, n));
                    p.tell(Dispatch(G(n, g.clone()))).send().await.unwrap();
                    gates.push(g);
                }
                settle().await;
            }
            for g in &gates { g.open() }
            settle().await;
            let ev = events();
            let mut load = vec![0; size];
            for e in &ev {
                match e {
                    Ev::Note(1, _) => for l in &mut load { *l += 1 },
                    Ev::Note(_, t) => {
                        let w = ev.iter().find_map(|e| match e { Ev::Msg(w, v) if v == t => Some(*w as usize), _ => None });
                        check(w.is_some_and(|w| w < size && load[w] == *load.iter().min().unwrap()), "a task goes to a worker with the fewest unfinished tasks");
                        if let Some(w) = w { load[w] += 1 }
                    }
                    Ev::Done(w, _) => load[*w as usize] -= 1,
                    _ => {}
                }
            }
            check(load.iter().all(|l| *l == 0), "every task is finished");
            reach("end");
        })
    }
    // A worker dying with tasks running and queued: every caller gets exactly one outcome, and the pool recovers.
    c22_death {
        block_on(async {
            let size = 1 + choose(3, "size");
            let victims = if size == 3 { 1 + choose(3, "victims") } else { 1 };
            let crew = Crew::default();
            let gate = Gate::default();
            let cap = if size < 3 { [0, 1][choose(2, "cap")] } else { 1 };
            let p = pool(size, false, cap, &crew, Some(gate.clone())).await;
            let n = if size < 3 { [1, 2, 3, 4, 8][choose(5, "tasks")] } else { 12 };
            let tasks: Vec<_> = (0..n).map(|i| { let p = p.clone(); tokio::spawn(async move { p.ask(Dispatch(M(i))).send().await }) }).collect();
            settle().await;
            let cast = tokio::spawn({ let p = p.clone(); async move { p.ask(Broadcast(M(50))).send().await } });
            settle().await;
            let at = choose(size, "victim");
            let first = victims == 1 && flip("open_first");
            let all: Vec<_> = (0..victims).map(|i| crew.lock().unwrap()[(at + i) % size].upgrade().unwrap()).collect();
            if first { gate.open(); for _ in 0..choose(6, "polls") { tokio::task::yield_now().await } }
            let gracefully = flip("gracefully");
            for victim in all {
                if gracefully { tokio::spawn(async move { let _ = victim.stop_gracefully().await; }); } else { victim.kill() }
                settle().await;
            }
            gate.open();
            for _ in 0..3 { settle().await }
            for (i, t) in tasks.into_iter().enumerate() {
                check(t.is_finished(), "every caller gets an outcome");
                if t.is_finished() { match t.await { Ok(Ok(v)) => check(v == i as u64 + 1 && times(i as u64) == 1, "a reply means that the task was handled once"), Ok(Err(e)) => { check(!matches!(e, SendError::HandlerError(_) | SendError::Timeout(_)) && times(i as u64) <= 1, "a lost task is an error"); check(victims == size || !matches!(e, SendError::ActorNotRunning(_)), "a task is only refused when no worker is running") } Err(_) => check(false, "callers survive") } }
            }
            check(p.is_alive(), "the pool survives");
            check(cast.is_finished() && cast.await.is_ok_and(|r| r.is_ok_and(|v| v.len() == size && v.iter().filter(|r| r.is_err()).count() <= victims)), "a broadcast reports on every worker");
            check(times(50) <= size && times(50) + victims >= size, "a broadcast reaches every worker once");
            let mut lost = 0;
            for i in 30..34 { match p.ask(Dispatch(M(i))).send().await { Ok(v) => check(v == i + 1 && times(i) == 1, "a recovered pool serves every task"), Err(_) => lost += 1 } settle().await }
            check(lost <= victims, "a dead worker loses at most the task that finds it");
            check(p.ask(Broadcast(M(60))).send().await.is_ok(), "the pool survives");
            settle().await;
            check(running(&crew) == size, "the dead worker is replaced");
            reach("end");
        })
    }
    // Full mailboxes hold tasks back without losing any.
    c22_told {
        block_on(async {
            let size = 1 + choose(2, "size");
            let crew = Crew::default();
            let gate = Gate::default();
            let p = pool(size, flip("async"), [0, 1][choose(2, "cap")], &crew, Some(gate.clone())).await;
            let n = 2 + choose(b(3, 4), "tasks") as u64;
            let bad = choose(2, "bad") as u64;
            let how = [K::Panic, K::Err][choose(2, "how")];
            for i in 0..n {
                let p = p.clone();
                tokio::spawn(async move { if i == bad { let _ = p.tell(Dispatch(S(i, how))).send().await; } else { let _ = p.tell(Dispatch(M(i))).send().await; } });
                if flip("settle") { settle().await }
            }
            settle().await;
            if flip("kill") { for w in crew.lock().unwrap().clone() { if let Some(w) = w.upgrade() { w.kill() } } }
            gate.open();
            for _ in 0..3 { settle().await }
            check(p.is_alive(), "the pool survives failing tasks");
            check((0..n).all(|i| times(i) <= 1), "a task is handled at most once");
            for w in crew.lock().unwrap().clone() { if let Some(w) = w.upgrade() { w.kill() } }
            // Workers notice when they're given a task
            p.tell(Broadcast(M(60))).send().await.ok();
            for _ in 0..3 { settle().await }
            check(p.is_alive(), "a broadcast to dead workers doesn't stop the pool");
            check(running(&crew) == size, "the workers are replaced");
            for i in 30..32 { p.tell(Dispatch(M(i))).send().await.ok(); settle().await }
            check(times(30) == 1 && times(31) == 1, "a recovered pool serves every task");
            reach("end");
        });
    }
    c22_full {
        block_on(async {
            let size = 1 + choose(2, "size");
            let crew = Crew::default();
            let gate = Gate::default();
            let p = pool(size, flip("async"), 1 + choose(2, "cap"), &crew, Some(gate.clone())).await;
            let n = choose(9, "tasks") as u64;
            let asks = flip("ask");
            let tasks: Vec<_> = (0..n).map(|i| { let p = p.clone(); tokio::spawn(async move { if asks { p.ask(Dispatch(M(i))).send().await.ok() == Some(i + 1) } else { p.tell(Dispatch(M(i))).send().await.is_ok() } }) }).collect();
            let cast = if flip("broadcast") { let p = p.clone(); Some(tokio::spawn(async move { p.ask(Broadcast(M(50))).send().await.is_ok_and(|v| v.iter().all(|r| r.is_ok())) })) } else { None };
            settle().await;
            gate.open();
            for _ in 0..6 { settle().await }
            for t in tasks { check(t.is_finished() && t.await.is_ok_and(|ok| ok), "every task is taken") }
            if let Some(t) = cast { check(t.is_finished() && t.await.is_ok_and(|ok| ok) && times(50) == size, "a broadcast reaches every worker once") }
            for i in 0..n { check(times(i) == 1, "every task is handled once") }
            reach("end");
        })
    }
    // A pool that ends lets its workers go.
    c22_end {
        block_on(async {
            let size = 1 + choose(2, "size");
            let crew = Crew::default();
            let p = pool(size, flip("async"), [0, 2][choose(2, "cap")], &crew, None).await;
            for i in 0..choose(3, "tasks") as u64 { p.tell(Dispatch(M(i))).send().await.unwrap() }
            if flip("crash") { let _ = p.tell(Dispatch(S(9, K::Panic))).send().await; settle().await }
            let w = p.downgrade();
            match choose(3, "end") { 0 => p.kill(), 1 => { p.stop_gracefully().await.unwrap() } _ => {} }
            drop(p);
            for _ in 0..2 { settle().await }
            check(w.upgrade().is_none(), "the pool ends");
            check(running(&crew) == 0, "the workers end with their pool");
            reach("end");
        })
    }
    // Every publication reaches exactly the subscribers that want it.
    c23_model {
        block_on(async {
            let actor = flip("actor");
            let cap = [0, 8][choose(2, "cap")];
            let refs: Vec<_> = (0..2).map(|i| spawn(Probe::new(i), cap)).collect();
            let calls: Vec<Arc<AtomicUsize>> = (0..2).map(|_| Default::default()).collect();
            let mut own = PubSub::<M>::new();
            let remote = kameo::spawn(PubSub::<M>::new());
            let mut sub = [Sub::No; 2];
            let mut alive = [true; 2];
            let mut want: [Vec<u64>; 2] = Default::default();
            let mut asked = [0; 2];
            for n in 0..b(3, 4) as u64 {
                let op = choose(4, "op");
                let i = if op == 3 { 0 } else { choose(2, "who") };
                let r = refs[i].clone();
                match op {
                    0 => { if actor { remote.tell(pubsub::Subscribe(r)).send().await.unwrap() } else { own.subscribe(r) } sub[i] = Sub::All }
                    1 => {
                        if actor { remote.tell(pubsub::SubscribeFilter(r, |m: &M| m.0 % 2 == 1)).send().await.unwrap() }
                        else { let c = calls[i].clone(); own.subscribe_filter(r, move |m: &M| { c.fetch_add(1, SeqCst); m.0 % 2 == 1 }) }
                        sub[i] = Sub::Some
                    }
                    2 => { settle().await; refs[i].kill(); refs[i].wait_for_stop().await; alive[i] = false }
                    _ => {
                        let v = 2 * n + choose(2, "odd") as u64;
                        if actor { remote.ask(pubsub::Publish(M(v))).send().await.unwrap() } else { own.publish(M(v)).await }
                        for i in 0..2 {
                            if sub[i] == Sub::Some { asked[i] += 1 }
                            if alive[i] { match sub[i] { Sub::No => {} Sub::All => want[i].push(v), Sub::Some => if v % 2 == 1 { want[i].push(v) } } }
                            else if sub[i] == Sub::All || sub[i] == Sub::Some && v % 2 == 1 { sub[i] = Sub::No }
                        }
                    }
                }
            }
            settle().await;
            for i in 0..2 {
                check(handled(i as u8) == want[i], "a publication reaches exactly the subscribers it is meant for, in order");
                check(actor || !alive[i] || calls[i].load(SeqCst) == asked[i], "a filter sees every publication once");
            }
            reach("end");
        })
    }
    // Filters decide on the message itself.
    c23_filter {
        block_on(async {
            let (r, q) = (spawn(Probe::new(0), 0), spawn(Probe::new(1), 0));
            let mut p = PubSub::<M>::default();
            let (lo, v, w) = (u64v("lo"), u64v("v"), u64v("w"));
            p.subscribe_filter(r, move |m: &M| m.0 >= lo);
            p.subscribe_filter(q, move |m: &M| m.0 < lo);
            p.publish(M(v)).await;
            p.publish(M(w)).await;
            settle().await;
            for i in 0..2 {
                let want: Vec<u64> = [v, w].into_iter().filter(|x| (*x >= lo) == (i == 0)).collect();
                check(handled(i) == want, "exactly the messages a filter accepts arrive");
            }
            reach("end");
        })
    }
    // A slow subscriber, or one stopping while it is being waited for, keeps nobody from their copy.
    c23_slow {
        block_on(async {
            let gate = Gate::default();
            // the order of subscribers depends on their identities: any of them may be the slow one
            let n = 4;
            let at = choose(n, "slow");
            let mut all: Vec<ActorRef<Probe>> = vec![];
            for i in 0..n as u8 {
                if i as usize == at { all.push(stuck(&gate).await) } else { all.push(spawn(Probe::new(i + 1), 0)) }
            }
            let p = kameo::spawn(PubSub::<M>::new());
            for r in &all { p.tell(pubsub::Subscribe(r.clone())).send().await.unwrap() }
            let fast = |want: &[u64]| (0..n).filter(|i| *i != at).all(|i| handled(i as u8 + 1) == want);
            p.tell(pubsub::Publish(M(7))).send().await.unwrap();
            p.tell(pubsub::Publish(M(8))).send().await.unwrap();
            settle().await;
            check((0..n).filter(|i| *i != at).all(|i| handled(i as u8 + 1).starts_with(&[7])), "a slow subscriber does not keep the others from their copy");
            let dies = flip("dies");
            if dies { all[at].kill() } else { gate.open() }
            settle().await;
            check(fast(&[7, 8]), "everyone else gets every publication once, in order");
            check(handled(0) == if dies { vec![100] } else { vec![100, 101, 7, 8] }, "a slow subscriber gets what it was sent, a stopped one nothing");
            p.tell(pubsub::Publish(M(9))).send().await.unwrap();
            settle().await;
            check(fast(&[7, 8, 9]) && handled(0) == if dies { vec![100] } else { vec![100, 101, 7, 8, 9] }, "being slow does not end a subscription");
            reach("end");
        })
    }
    // Subscriptions, cancellations, deaths and publications agree with a table of subscriptions.
    c24_model {
        block_on(async {
            let st = choose(5, "strategy");
            let pats = ["a/*", "a/b"];
            let refs: Vec<_> = (0..2).map(|i| spawn(Probe::new(i), [16, 0][i as usize])).collect();
            let bk = kameo::spawn(Broker::<M>::new(strategy(st)));
            let mut subs: Vec<(usize, usize)> = vec![];
            let mut alive = [true; 2];
            let mut want: [Vec<u64>; 2] = Default::default();
            for (p, i) in [&[][..], &[(0, 0)], &[(0, 0), (0, 1)], &[(0, 0), (1, 0)], &[(0, 0), (0, 0), (1, 1)]][choose(5, "subscribed")] {
                subs.push((*p, *i));
                bk.tell(broker::Subscribe { topic: glob::Pattern::new(pats[*p]).unwrap(), recipient: refs[*i].clone().recipient() }).send().await.unwrap()
            }
            let ops = b(2, 3);
            for n in 0..ops as u64 + 2 {
                match if n < ops as u64 { choose(5, "op") } else { 4 } {
                    0 => { let (p, i) = (choose(2, "pattern"), choose(2, "who")); subs.push((p, i)); bk.tell(broker::Subscribe { topic: glob::Pattern::new(pats[p]).unwrap(), recipient: refs[i].clone().recipient() }).send().await.unwrap() }
                    1 => { let (p, i) = (choose(2, "pattern"), choose(2, "who")); subs.retain(|s| *s != (p, i)); bk.tell(broker::Unsubscribe { topic: Some(glob::Pattern::new(pats[p]).unwrap()), actor_id: refs[i].id() }).send().await.unwrap() }
                    2 => { let i = choose(2, "who"); subs.retain(|s| s.1 != i); bk.tell(broker::Unsubscribe { topic: None, actor_id: refs[i].id() }).send().await.unwrap() }
                    3 => { let i = choose(2, "who"); refs[i].kill(); refs[i].wait_for_stop().await; alive[i] = false }
                    _ => {
                        let t = ["a/b", "a/c", "b"][if n < ops as u64 { choose(3, "topic") } else { n as usize - ops }];
                        bk.ask(broker::Publish { topic: t.into(), message: M(n) }).send().await.unwrap();
                        for (p, i) in &subs { if alive[*i] && (t == "a/b" || t == "a/c" && *p == 0) { want[*i].push(n) } }
                        settle().await;
                    }
                }
            }
            settle().await;
            for i in 0..2 { check(handled(i as u8) == want[i], "a topic reaches exactly its subscriptions, one copy each") }
            check(bk.is_alive(), "the broker survives");
            reach("end");
        })
    }
    // Slow subscribers are treated as the strategy says.
    c24_slow {
        block_on(async {
            let st = choose(5, "strategy");
            let gate = Gate::default();
            let a = stuck(&gate).await;
            let c = spawn(Probe::new(1), 0);
            let bk = kameo::spawn(Broker::<M>::new(strategy(st)));
            let p = glob::Pattern::new("t").unwrap();
            let slow_first = flip("slow_first");
            for i in 0..2 { bk.tell(broker::Subscribe { topic: p.clone(), recipient: if (i == 0) == slow_first { a.clone().recipient() } else { c.clone().recipient() } }).send().await.unwrap() }
            bk.tell(broker::Publish { topic: "t".into(), message: M(7) }).send().await.unwrap();
            slow(st, &gate, slow_first, &a, async || bk.tell(broker::Publish { topic: "t".into(), message: M(8) }).send().await.unwrap()).await;
            check(bk.is_alive(), "the broker survives");
            reach("end");
        })
    }
    // Patterns match topics as globs do: level by level, case by case.
    c24_match {
        block_on(async {
            let pat = ["*", "a/*", "*/a", "a?", "**", "a/**", "**/a", "a", "*a"][choose(9, "pattern")];
            let r = spawn(Probe::new(0), 0);
            let bk = kameo::spawn(Broker::<M>::new(DeliveryStrategy::default()));
            bk.tell(broker::Subscribe { topic: glob::Pattern::new(pat).unwrap(), recipient: r.clone().recipient() }).send().await.unwrap();
            let n = choose(b(4, 5), "length");
            let t: String = (0..n).map(|_| ['a', '/', 'A', '.'][choose(4, "char")]).collect();
            bk.tell(broker::Publish { topic: t.clone(), message: M(1) }).send().await.unwrap();
            settle().await;
            check(handled(0).len() == matches(pat.as_bytes(), t.as_bytes()) as usize, "a subscription gets exactly the topics its pattern matches");
            reach("end");
        })
    }
    // Registrations, removals, deaths and publications agree with a table by type.
    c25_model {
        block_on(async {
            let st = choose(5, "strategy");
            let refs: Vec<_> = (0..2).map(|i| spawn(Probe::new(i), [16, 0][i as usize])).collect();
            let bus = kameo::spawn(MessageBus::new(strategy(st)));
            let mut regs: Vec<(usize, usize)> = vec![];
            let mut alive = [true; 2];
            let mut want: [Vec<u64>; 2] = Default::default();
            for (ty, i) in [&[][..], &[(0, 0)], &[(0, 0), (0, 1)], &[(0, 0), (1, 0)], &[(0, 0), (0, 0), (1, 1)]][choose(5, "registered")] {
                regs.push((*ty, *i));
                if *ty == 0 { bus.tell(message_bus::Register(refs[*i].clone().recipient::<M>())).send().await.unwrap() } else { bus.tell(message_bus::Register(refs[*i].clone().recipient::<S>())).send().await.unwrap() }
            }
            let ops = b(2, 3) as u64;
            for n in 0..ops + 2 {
                let op = if n < ops { choose(4, "op") } else { 3 };
                let ty = if op == 2 { 0 } else if n < ops { choose(2, "type") } else { (n - ops) as usize };
                let i = if op == 3 { 0 } else { choose(2, "who") };
                match op {
                    0 => { regs.push((ty, i)); if ty == 0 { bus.tell(message_bus::Register(refs[i].clone().recipient::<M>())).send().await.unwrap() } else { bus.tell(message_bus::Register(refs[i].clone().recipient::<S>())).send().await.unwrap() } }
                    1 => { regs.retain(|s| *s != (ty, i)); if ty == 0 { bus.tell(message_bus::Unregister::<M>::new(refs[i].id())).send().await.unwrap() } else { bus.tell(message_bus::Unregister::<S>::new(refs[i].id())).send().await.unwrap() } }
                    2 => { refs[i].kill(); refs[i].wait_for_stop().await; alive[i] = false }
                    _ => {
                        let v = 10 * n + ty as u64;
                        if ty == 0 { bus.ask(message_bus::Publish(M(v))).send().await.unwrap() } else { bus.ask(message_bus::Publish(S(v, K::Ok))).send().await.unwrap() }
                        for (t, i) in &regs { if alive[*i] && *t == ty { want[*i].push(v) } }
                        settle().await;
                    }
                }
            }
            settle().await;
            for i in 0..2 { check(handled(i as u8) == want[i], "a value reaches exactly the actors registered for its type, one copy per registration") }
            check(bus.is_alive(), "the bus survives");
            reach("end");
        })
    }
    // Slow actors are treated as the strategy says.
    c25_slow {
        block_on(async {
            let st = choose(5, "strategy");
            let gate = Gate::default();
            let a = stuck(&gate).await;
            let c = spawn(Probe::new(1), 0);
            let bus = kameo::spawn(MessageBus::new(strategy(st)));
            let slow_first = flip("slow_first");
            for i in 0..2 { bus.tell(message_bus::Register(if (i == 0) == slow_first { a.clone().recipient::<M>() } else { c.clone().recipient() })).send().await.unwrap() }
            bus.tell(message_bus::Publish(M(7))).send().await.unwrap();
            slow(st, &gate, slow_first, &a, async || bus.tell(message_bus::Publish(M(8))).send().await.unwrap()).await;
            check(bus.is_alive(), "the bus survives");
            reach("end");
        })
    }
    // Large pools and many subscribers.
    c22_many {
        block_on(async {
            let size = [9, b(16, 40)][choose(2, "size")];
            let (kill, third) = (choose(3, "kill"), choose(3, "which"));
            let crew = Crew::default();
            let p = pool(size, flip("async"), 0, &crew, None).await;
            pause(1).await;
            check(running(&crew) == size, "a pool starts with its size");
            let all: Vec<_> = crew.lock().unwrap().iter().map(|w| w.upgrade().unwrap()).collect();
            let mut dead = 0;
            for (i, r) in all.into_iter().enumerate() { if kill > 0 && (kill == 2 || i % 3 == third) { r.kill(); r.wait_for_shutdown().await; dead += 1 } }
            let mut lost = 0;
            for n in 0..size as u64 { if p.ask(Dispatch(M(n))).send().await.is_err() { lost += 1 } pause(1).await }
            check(lost <= dead, "a dead worker loses at most the task that finds it");
            let r = p.ask(Broadcast(M(1000))).send().await;
            check(r.is_ok_and(|v| v.len() == size), "a broadcast reports on every worker");
            pause(1).await;
            pause(1).await;
            check(running(&crew) == size, "the dead workers are replaced");
            check(p.ask(Broadcast(M(1001))).send().await.is_ok_and(|v| v.iter().all(|r| r.is_ok())), "a broadcast reports on every worker");
            pause(1).await;
            check(times(1001) == size, "a broadcast reaches every worker once");
            let gate = Gate::default();
            for n in 0..2 * size as u64 { p.tell(Dispatch(G(2000 + n, gate.clone()))).send().await.unwrap() }
            pause(1).await;
            check(count(|e| matches!(e, Ev::Msg(_, v) if *v >= 2000)) == size, "tasks go to the workers with the fewest unfinished tasks");
            gate.open();
            pause(1).await;
            for n in 0..2 * size as u64 { check(times(2000 + n) == 1, "every task is handled once") }
            check(p.is_alive(), "the pool survives");
            reach("end");
        })
    }
    c23_many {
        block_on(async {
            let n = [9, b(20, 60)][choose(2, "size")] as u8;
            let (v, tag, third, resub) = (u64v("v"), choose(3, "tag") as u64, choose(3, "gone"), flip("again"));
            assume(v < 1 << 56);
            let refs: Vec<_> = (0..n).map(|i| spawn(Probe::new(i), [0, 8][(i % 2) as usize])).collect();
            let mut p = PubSub::<M>::new();
            for (i, r) in refs.iter().enumerate() {
                if i % 2 == 0 { p.subscribe(r.clone()) } else { p.subscribe_filter(r.clone(), move |m: &M| (m.0 & 0xff) == i as u64 % 3) }
                if resub && i % 4 == 1 { p.subscribe(r.clone()) }
            }
            pause(1).await;
            for (i, r) in refs.iter().enumerate() { if i % 3 == third { r.kill(); r.wait_for_shutdown().await } }
            for k in 0..3u64 { p.publish(M(v << 8 | (tag + k) % 3)).await }
            pause(1).await;
            for i in 0..n as usize {
                let want: Vec<u64> = (0..3).map(|k| (tag + k) % 3).filter(|t| i % 3 != third && (i % 2 == 0 || resub && i % 4 == 1 || *t == i as u64 % 3)).collect();
                let got = handled(i as u8);
                check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| *g == (v << 8 | w)), "a publication reaches exactly the subscribers it is meant for, in order");
            }
            reach("end");
        })
    }
    c24_many {
        block_on(async {
            let n = [9, b(20, 60)][choose(2, "size")];
            let (st, third, v) = (choose(5, "strategy"), choose(3, "gone"), u64v("v"));
            let pats = ["a/*", "a/b", "**", "b/?"];
            let topic = ["a/b", "a/c", "b/c", "d"][choose(4, "topic")];
            let refs: Vec<_> = (0..n).map(|i| spawn(Probe::new(i as u8), [0, 8][i % 2])).collect();
            let bk = kameo::spawn(Broker::new(strategy(st)));
            for (i, r) in refs.iter().enumerate() { bk.tell(broker::Subscribe { topic: glob::Pattern::new(pats[i % 4]).unwrap(), recipient: r.clone().recipient::<M>() }).send().await.unwrap() }
            for (i, r) in refs.iter().enumerate() { if i % 5 == 0 { bk.tell(broker::Unsubscribe { topic: Some(glob::Pattern::new(pats[i % 4]).unwrap()), actor_id: r.id() }).send().await.unwrap() } }
            pause(1).await;
            for (i, r) in refs.iter().enumerate() { if i % 3 == third { r.kill(); r.wait_for_shutdown().await } }
            for k in 0..3u64 { bk.ask(broker::Publish { topic: topic.to_string(), message: M(v ^ k) }).send().await.unwrap(); pause(1).await }
            for i in 0..n {
                let gets = i % 3 != third && i % 5 != 0 && matches(pats[i % 4].as_bytes(), topic.as_bytes());
                check(handled(i as u8) == if gets { vec![v, v ^ 1, v ^ 2] } else { vec![] }, "a topic reaches exactly its subscriptions, one copy each");
            }
            check(bk.is_alive(), "the broker survives");
            reach("end");
        })
    }
    c25_many {
        block_on(async {
            let n = [9, b(20, 60)][choose(2, "size")];
            let (st, third, v) = (choose(5, "strategy"), choose(3, "gone"), u64v("v"));
            let refs: Vec<_> = (0..n).map(|i| spawn(Probe::new(i as u8), [0, 8][i % 2])).collect();
            let bus = kameo::spawn(MessageBus::new(strategy(st)));
            for (i, r) in refs.iter().enumerate() { if i % 4 == 3 { bus.tell(message_bus::Register(r.clone().recipient::<S>())).send().await.unwrap() } else { bus.tell(message_bus::Register(r.clone().recipient::<M>())).send().await.unwrap() } }
            for (i, r) in refs.iter().enumerate() { if i % 5 == 0 { bus.tell(message_bus::Unregister::<M>::new(r.id())).send().await.unwrap() } }
            pause(1).await;
            for (i, r) in refs.iter().enumerate() { if i % 3 == third { r.kill(); r.wait_for_shutdown().await } }
            for k in 0..3u64 { bus.ask(message_bus::Publish(M(v ^ k))).send().await.unwrap(); pause(1).await }
            bus.ask(message_bus::Publish(S(v ^ 3, K::Ok))).send().await.unwrap();
            pause(1).await;
            for i in 0..n {
                let want = if i % 3 == third { vec![] } else if i % 4 == 3 { vec![v ^ 3] } else if i % 5 == 0 { vec![] } else { vec![v, v ^ 1, v ^ 2] };
                check(handled(i as u8) == want, "a value reaches exactly the actors registered for its type, one copy per registration");
            }
            check(bus.is_alive(), "the bus survives");
            reach("end");
        })
    }
}
