//! C93: what the macros generate does what the annotated code says. The programs are a fixed corpus, their values are symbolic.
use crate::exec::*;
use crate::probe::{clear, code_of, count, events, handled, log, pos, why, Code, Ev, Why};
use crate::sym::*;
use kameo::prelude::*;
use kameo::mailbox;
use std::sync::{Arc, Mutex};

mod corpus {
    use super::*;
    /// The struct, and with it the actor, is told apart by its name.
    #[derive(kameo::Actor)]
    pub struct Plain { pub at: u64, pub seen: Vec<u64> }
    #[derive(kameo::Actor)]
    #[actor(name = "another name")]
    pub enum Named { #[allow(dead_code)] A(u64), B { x: u64 } }
    #[derive(kameo::Actor)]
    pub struct Pair<T: Send + 'static, U>(pub Option<T>, pub Vec<U>) where U: Send + 'static;
    #[derive(kameo::Actor)]
    #[actor()]
    pub struct Unit;

    #[derive(kameo::Reply, PartialEq, Debug, Clone)]
    pub struct Answer { pub a: u64, pub b: Option<u64> }
    #[derive(kameo::Reply, PartialEq, Debug)]
    pub enum Either<T: Send + 'static> { Left(T), Right }
    #[derive(kameo::Reply, PartialEq, Debug)]
    pub struct Nothing;

    #[messages]
    impl Plain {
        /// Not a message.
        pub fn new(at: u64) -> Self { Plain { at, seen: vec![] } }
        fn keep(&mut self, v: u64) { self.seen.push(v) }
        /// Arguments of one type keep their places.
        #[message]
        pub fn mix(&mut self, a: u64, b: u64, c: u64, d: u32) -> u64 {
            self.keep(a);
            a.wrapping_sub(b).wrapping_mul(3) ^ c.wrapping_sub(d as u64) ^ self.at
        }
        /// A message derives and has documentation.
        #[message(derive(Clone, Copy, Debug, PartialEq))]
        pub(crate) fn put(&mut self, /** where */ at: u64) { self.at = at }
        #[message]
        pub fn get(&self) -> u64 { self.at }
        #[message(derive(Default))]
        pub async fn wait_and_add(&mut self, mut by: u64, gate: Gate) -> u64 {
            self.keep(1);
            gate.wait().await;
            by = by.wrapping_add(self.at);
            self.at = by;
            self.keep(2);
            by
        }
        #[message]
        pub fn half(&self, v: u64) -> Result<u64, Code> { if v % 2 == 0 { Ok(v / 2) } else { Err(Code(v)) } }
        #[message]
        pub fn ask_answer(&self, a: u64, r#type: bool) -> Answer { Answer { a, b: r#type.then_some(self.at) } }
        #[message]
        pub fn ask_either(&self, left: bool, v: u64) -> Either<u64> { if left { Either::Left(v) } else { Either::Right } }
        #[message]
        pub fn ask_nothing(&mut self) -> Nothing { self.at = 0; Nothing }
        #[message]
        pub fn convert<N>(&mut self, n: N, scale: u64) -> u64 where N: Into<u64> + Send + 'static { n.into().wrapping_mul(scale) }
        #[message]
        pub fn tuple(&self, p: (u64, u8), xs: [u64; 2]) -> u64 { p.0 ^ p.1 as u64 ^ xs[0].wrapping_sub(xs[1]) }
        #[message]
        #[inline]
        #[must_use]
        pub fn seen_so_far(&self) -> Vec<u64> { self.seen.clone() }
        #[message]
        pub fn fall(&self, v: u64) -> u64 { std::panic::panic_any(Code(v)) }
    }
    /// Several blocks for one actor.
    #[messages]
    impl Plain {
        #[message]
        pub async fn later(&mut self) -> u64 { self.at }
    }
    #[messages]
    impl<T: Send + Clone + 'static, U: Send + Clone + 'static> Pair<T, U> {
        #[message]
        pub fn set(&mut self, value: T, item: U, other: T) -> u64 { self.0 = Some(other); drop(value); self.1.push(item); self.1.len() as u64 }
        #[message]
        pub fn items(&mut self, item: U) -> Vec<u64> { self.1.push(item); vec![self.1.len() as u64] }
        /// The parameters of a message are those of its arguments.
        #[message]
        pub fn first(&mut self, n: u64) -> T where T: kameo::Reply { self.1.truncate(n as usize); self.0.clone().unwrap() }
        #[message]
        pub fn take(&mut self) -> T where T: kameo::Reply { self.0.take().unwrap() }
        #[message]
        pub fn swap(&mut self, value: T) -> T where T: kameo::Reply { self.0.replace(value).unwrap() }
        #[message]
        pub fn len(&self) -> u64 { self.1.len() as u64 }
        /// Types mention parameters anywhere.
        #[message]
        pub fn extend(&mut self, items: Vec<U>, last: Option<(T, U)>) -> u64 { self.1.extend(items); if let Some((t, u)) = last { self.0 = Some(t); self.1.push(u) } self.1.len() as u64 }
        #[message]
        pub fn apply(&mut self, f: Box<dyn Fn(u64, U) -> Option<T> + Send>, n: u64) -> u64 { let u = self.1.pop().unwrap(); self.0 = f(n, u.clone()); self.1.push(u); n }
    }
    #[messages]
    impl Named {
        #[message]
        pub fn which(&self) -> u64 { match self { Named::A(_) => 1, Named::B { x } => *x } }
    }
}
use corpus::*;

fn go<A: Actor>(a: A, cap: usize) -> (ActorRef<A>, tokio::task::JoinHandle<(A, kameo::error::ActorStopReason)>) {
    let pa = PreparedActor::new(if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) });
    (pa.actor_ref().clone(), pa.spawn(a))
}
const T: &str = "a generated message does what its method does";

crate::sym::harnesses! {
    // Every message of the corpus, in any sequence, against the methods themselves.
    c93_model {
        let (at, cap) = (u64v("at"), choose(2, "cap"));
        block_on(async {
            let (r, j) = go(Plain::new(at), cap);
            let mut m = Plain::new(at);
            for _ in 0..b(2, 3) {
                let (a, c, d) = (u64v("a"), u64v("b"), u64v("c"));
                match choose(12, "message") {
                    0 => check(r.ask(Mix { a, b: c, c: d, d: a as u32 }).send().await.ok() == Some(m.mix(a, c, d, a as u32)), T),
                    1 => { check(r.tell(Put { at: a }).send().await.is_ok(), T); m.put(a) }
                    2 => check(r.ask(Get).send().await.ok() == Some(m.get()), T),
                    3 => { let g = Gate::default(); g.open(); check(r.ask(WaitAndAdd { by: a, gate: g.clone() }).send().await.ok() == Some(m.wait_and_add(a, g).await), T) }
                    4 => check(match (r.ask(Half { v: a }).send().await, m.half(a)) { (Ok(x), Ok(y)) => x == y, (Err(kameo::error::SendError::HandlerError(x)), Err(y)) => x == y, _ => false }, T),
                    5 => { let f = flip("type"); check(r.ask(AskAnswer { a, r#type: f }).send().await.ok() == Some(m.ask_answer(a, f)), T) }
                    6 => { let f = flip("left"); check(r.ask(AskEither { left: f, v: a }).send().await.ok() == Some(m.ask_either(f, a)), T) }
                    7 => check(r.ask(AskNothing).send().await.ok() == Some(m.ask_nothing()), T),
                    8 => check(r.ask(Convert { n: a as u32, scale: c }).send().await.ok() == Some(m.convert(a as u32, c)), T),
                    9 => check(r.ask(Tuple { p: (a, d as u8), xs: [c, d] }).send().await.ok() == Some(m.tuple((a, d as u8), [c, d])), T),
                    10 => check(r.ask(SeenSoFar).send().await.ok() == Some(m.seen_so_far()), T),
                    _ => check(r.ask(Later).send().await.ok() == Some(m.later().await), T),
                }
            }
            r.stop_gracefully().await.unwrap();
            let (p, w) = j.await.unwrap();
            check(p.at == m.at && p.seen == m.seen && why(&w) == Why::Normal, "and leaves the actor as its method does");
        });
        reach("end");
    }
    // Messages of asynchronous methods end with them; failures of told messages stop the actor, answers of any kind do not.
    c93_outcomes {
        let (v, how) = (u64v("v"), choose(6, "how"));
        block_on(async {
            let g = Gate::default();
            let (r, j) = go(Plain::new(5), 4);
            match how {
                0 => {
                    let w = tokio::spawn({ let (r, g) = (r.clone(), g.clone()); async move { r.ask(WaitAndAdd { by: v, gate: g }).send().await } });
                    settle().await;
                    check(!w.is_finished(), "an asynchronous method is waited for");
                    g.open();
                    check(w.await.unwrap().ok() == Some(v.wrapping_add(5)), T);
                }
                1 => { r.tell(Half { v }).send().await.unwrap(); settle().await; check(r.is_alive() == (v % 2 == 0), "an error nobody waits for stops the actor") }
                2 => { r.tell(AskAnswer { a: v, r#type: true }).send().await.unwrap(); r.tell(AskEither { left: true, v }).send().await.unwrap(); r.tell(AskNothing).send().await.unwrap(); settle().await; check(r.is_alive(), "a derived reply is no error") }
                3 => check(matches!(r.ask(Fall { v }).send().await, Err(kameo::error::SendError::ActorStopped)), "a panic answers nothing"),
                4 => { let p = Put { at: v }; let q = p; check(p == q && p.clone() == q, "a message derives what it is told to"); r.tell(q).send().await.unwrap(); check(r.ask(Get).send().await.ok() == Some(v), T) }
                _ => { g.open(); let d = WaitAndAdd { gate: g.clone(), ..Default::default() }; check(d.by == 0 && r.ask(d).send().await.ok() == Some(5), T) }
            }
            if r.is_alive() { r.stop_gracefully().await.unwrap() }
            let w = why(&j.await.unwrap().1);
            check(w == match how { 1 if v % 2 == 1 => Why::Panicked(v), 3 => Why::Panicked(v), _ => Why::Normal }, "the reason says what happened");
        });
        reach("end");
    }
    c93_generic {
        let (v, w, x) = (u64v("v"), u64v("w"), u64v("x"));
        let which = flip("types");
        block_on(async {
            if which {
                let (r, j) = go(Pair::<u64, u8>(None, vec![]), 0);
                check(r.ask(Set { value: v, item: x as u8, other: w }).send().await.ok() == Some(1), T);
                check(r.ask(Items { item: 9u8 }).send().await.ok() == Some(vec![2]), T);
                check(r.ask(Len).send().await.ok() == Some(2), T);
                check(r.ask(Extend { items: vec![1u8, 2], last: flip("last").then_some((v, x as u8)) }).send().await.ok() >= Some(4), T);
                check(r.ask(Apply { f: Box::new(move |n, u: u8| Some(n ^ u as u64)), n: v }).send().await.ok() == Some(v), T);
                check(r.ask(Set { value: v, item: x as u8, other: w }).send().await.is_ok(), T);
                check(r.ask(First { n: 2 }).send().await.ok() == Some(w), T);
                check(r.ask(First { n: 9 }).send().await.ok() == Some(w), T);
                check(r.ask(Swap { value: v }).send().await.ok() == Some(w), T);
                check(r.ask(Take).send().await.ok() == Some(v), T);
                r.tell(Set { value: v, item: 7, other: w }).send().await.unwrap();
                r.tell(First { n: 2 }).send().await.unwrap();
                r.stop_gracefully().await.unwrap();
                let (p, _) = j.await.unwrap();
                check(p.0 == Some(w) && p.1 == [x as u8, 9], "arguments of one type keep their places");
            } else {
                let (r, j) = go(Pair::<Vec<u64>, u64>(None, vec![]), 1);
                check(r.ask(Set { value: vec![v], item: x, other: vec![w, v] }).send().await.ok() == Some(1), T);
                drop(r);
                let (p, _) = j.await.unwrap();
                check(p.0 == Some(vec![w, v]) && p.1 == [x], "arguments of one type keep their places");
            }
            let (r, _) = go(if which { Named::A(v) } else { Named::B { x } }, 0);
            check(r.ask(Which).send().await.ok() == Some(if which { 1 } else { x }), T);
        });
        reach("end");
    }
    // What is derived for actors and replies.
    c93_derived {
        let v = u64v("v");
        check(Plain::name() == "Plain" && Unit::name() == "Unit" && Pair::<u64, u8>::name() == "Pair", "an actor is named like its type");
        check(Named::name() == "another name", "or as it is told to");
        let a = Answer { a: v, b: Some(v ^ 1) };
        check(a.clone().to_result() == Ok(a.clone()) && a.clone().into_value() == a && a.into_any_err().is_none(), "a derived reply is its own value and no error");
        check(Either::Left(v).into_value() == Either::Left(v) && Either::<u64>::Right.to_result() == Ok(Either::Right) && Either::Left(v).into_any_err().is_none(), "a derived reply is its own value and no error");
        check(Nothing.into_value() == Nothing && Nothing.into_any_err().is_none(), "a derived reply is its own value and no error");
        block_on(async {
            let (r, j) = go(Unit, 0);
            let (q, k) = go(Plain::new(1), 0);
            r.link(&q).await;
            match choose(3, "end") {
                0 => { r.stop_gracefully().await.unwrap(); check(why(&j.await.unwrap().1) == Why::Normal, "a derived actor stops normally"); settle().await; check(q.is_alive(), "which leaves actors linked to it running") }
                1 => { q.tell(Fall { v }).send().await.unwrap(); let id = q.id(); check(why(&k.await.unwrap().1) == Why::Panicked(v), "a panic stops a derived actor"); check(why(&j.await.unwrap().1) == Why::LinkDied(id, Box::new(Why::Panicked(v))), "and those linked to it") }
                _ => { drop(r); check(why(&j.await.unwrap().1) == Why::Normal, "a derived actor stops with its last reference") }
            }
        });
        reach("end");
    }
}
