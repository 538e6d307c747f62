//! C29: mailboxes.
use crate::exec::*;
use crate::probe::*;
use crate::sym::*;
use std::collections::VecDeque;
use std::pin::pin;
use std::task::{Context as Cx, Poll, Waker};
use tokio::sync::mpsc::error::TryRecvError;

fn sig(v: u64) -> Signal<Probe> { Signal::LinkDied { id: ActorID::new(v), reason: ActorStopReason::Normal } }
const STOP: u64 = 1 << 40;
fn val(s: &Signal<Probe>) -> u64 { match s { Signal::LinkDied { id, .. } => id.sequence_id(), Signal::Stop => STOP, Signal::StartupFinished => STOP + 1, _ => u64::MAX } }
struct Mbox { tx: Vec<MailboxSender<Probe>>, weak: Vec<WeakMailboxSender<Probe>>, rx: MailboxReceiver<Probe>, q: VecDeque<u64>, cap: usize, closed: bool, next: u64 }
impl Mbox {
    fn new(cap: usize) -> Self { let (tx, rx) = if cap == 0 { mailbox::unbounded() } else { mailbox::bounded(cap) }; Mbox { tx: vec![tx], weak: vec![], rx, q: VecDeque::new(), cap, closed: false, next: 1 } }
    fn full(&self) -> bool { self.cap > 0 && self.q.len() == self.cap }
    fn send(&mut self, how: usize) {
        let v = self.next; self.next += 1;
        let (closed, full) = (self.closed, self.full());
        let Some(tx) = self.tx.last().cloned() else {
            if let Some(w) = self.weak.last() { let f = w.signal_link_died(ActorID::new(v), ActorStopReason::Normal); let mut f = pin!(f); check(poll_once(&mut f.as_mut()).is_some_and(|r| r.is_err()), "nothing is sent once all senders are gone") }
            return
        };
        let (r, back) = match how {
            0 => { let f = tx.send(sig(v)); let mut f = pin!(f); let r = poll_once(&mut f.as_mut()); let back = match &r { Some(Err(e)) => val(&e.0), _ => v }; (r.map(|r| r.is_ok()), back) }
            1 => { let f = tx.signal_link_died(ActorID::new(v), ActorStopReason::Killed); let mut f = pin!(f); (poll_once(&mut f.as_mut()).map(|r| r.is_ok()), v) }
            2 => { let f = tx.signal_stop(); let mut f = pin!(f); (poll_once(&mut f.as_mut()).map(|r| r.is_ok()), v) }
            _ => {
                let r = if self.weak.is_empty() { tx.signal_startup_finished() } else { self.weak[0].signal_startup_finished() };
                match r { Ok(()) => { check(!closed && !full, "a full or closed mailbox takes no signals"); self.q.push_back(STOP + 1) } Err(SendError::MailboxFull(())) => check(full && !closed, "a mailbox is reported full exactly when it is"), Err(_) => check(closed, "a mailbox is reported closed exactly when it is") }
                return
            }
        };
        match r {
            Some(true) => { check(!closed && !full, "a full or closed mailbox takes nothing"); self.q.push_back(if how == 2 { STOP } else { v }) }
            Some(false) => { check(closed, "sending fails exactly when the mailbox is closed"); check(back == v, "what could not be sent comes back") }
            None => check(!closed && full, "sending waits exactly when the mailbox is full"),
        }
    }
    fn ended(&self) -> bool { self.q.is_empty() && (self.closed || self.tx.is_empty()) }
    fn recv(&mut self, how: usize, limit: usize) {
        let mut cx = Cx::from_waker(Waker::noop());
        let ended = self.ended();
        let one = |q: &mut VecDeque<u64>, r: Option<Option<u64>>| match r {
            Some(Some(v)) => check(q.pop_front() == Some(v), "what was sent is received once, in order"),
            Some(None) => check(ended, "receiving ends exactly when nothing is left and nobody can send"),
            None => check(q.is_empty() && !ended, "receiving waits exactly when nothing is there"),
        };
        match how {
            0 => { let r = { let f = self.rx.recv(); let mut f = pin!(f); poll_once(&mut f.as_mut()) }; one(&mut self.q, r.map(|r| r.as_ref().map(val))) }
            1 => { let r = match self.rx.poll_recv(&mut cx) { Poll::Ready(r) => Some(r), Poll::Pending => None }; one(&mut self.q, r.map(|r| r.as_ref().map(val))) }
            2 => match self.rx.try_recv() { Ok(s) => one(&mut self.q, Some(Some(val(&s)))), Err(TryRecvError::Empty) => one(&mut self.q, None), Err(TryRecvError::Disconnected) => one(&mut self.q, Some(None)) },
            3 if !self.q.is_empty() || ended => { let r = self.rx.blocking_recv(); one(&mut self.q, Some(r.as_ref().map(val))) }
            3 => {}
            _ => {
                let mut buf = vec![sig(77)];
                let r = if how == 4 { let f = self.rx.recv_many(&mut buf, limit); let mut f = pin!(f); poll_once(&mut f.as_mut()) }
                    else if how == 5 { match self.rx.poll_recv_many(&mut cx, &mut buf, limit) { Poll::Ready(n) => Some(n), Poll::Pending => None } }
                    else if !self.q.is_empty() || ended || limit == 0 { Some(self.rx.blocking_recv_many(&mut buf, limit)) } else { return };
                check(val(&buf[0]) == 77, "batches are appended");
                match r {
                    None => check(limit > 0 && self.q.is_empty() && !ended && buf.len() == 1, "receiving waits exactly when nothing is there"),
                    Some(n) => {
                        check(n == limit.min(self.q.len()) && buf.len() == n + 1, "a batch is as large as its limit and the queue allow");
                        for s in &buf[1..] { check(self.q.pop_front() == Some(val(s)), "what was sent is received once, in order") }
                        check(n > 0 || limit == 0 || ended, "an empty batch means the end");
                    }
                }
            }
        }
    }
    fn agree(&self) {
        check(self.rx.len() == self.q.len() && self.rx.is_empty() == self.q.is_empty(), "length and emptiness are exact");
        check(self.rx.is_closed() == (self.closed || self.tx.is_empty()), "closed means that nobody can send");
        check(self.rx.sender_strong_count() == self.tx.len() && self.rx.sender_weak_count() == self.weak.len(), "the receiver counts its senders");
        for t in &self.tx {
            check(t.strong_count() == self.tx.len() && t.weak_count() == self.weak.len(), "senders count each other");
            check(t.is_closed() == self.closed, "senders see the mailbox closed exactly when it is");
            check(t.same_channel(&self.tx[0]), "senders of one mailbox are the same");
            let f = t.closed(); let mut f = pin!(f);
            check(poll_once(&mut f.as_mut()).is_some() == self.closed, "waiting for the mailbox to close ends exactly then");
        }
        for w in &self.weak {
            check(w.strong_count() == self.tx.len() && w.weak_count() == self.weak.len(), "weak senders count too");
            check(w.upgrade().is_some() == !self.tx.is_empty(), "a weak sender upgrades exactly while strong ones exist");
        }
    }
}
crate::sym::harnesses! {
    // Operations on a mailbox agree with a queue.
    c29_model {
        let mut m = Mbox::new([0, 1, 2][choose(3, "cap")]);
        for _ in 0..choose(3, "filled") { if !m.full() { m.send(0) } }
        for _ in 0..b(2, 3) {
            match choose(8, "op") {
                0 => m.send(choose(4, "by")),
                1 | 2 => { let h = choose(7, "how"); let l = if h > 3 { choose(4, "limit") } else { 0 }; m.recv(h, l) }
                3 => if let Some(t) = m.tx.last().cloned() { m.tx.push(t) },
                4 => if let Some(t) = m.tx.last() { m.weak.push(t.downgrade()) },
                5 => { m.tx.pop(); }
                6 => if let Some(w) = m.weak.pop() { if let Some(t) = w.upgrade() { m.tx.push(t) } if flip("keep") { m.weak.push(w.clone()) } },
                _ => { m.rx.close(); m.closed = true }
            }
            m.agree();
        }
        while !m.q.is_empty() { m.recv(2, 0) }
        m.agree();
        reach("end");
    }
    // Two mailboxes are never the same.
    c29_identity {
        let (a, c) = (Mbox::new([0, 2][choose(2, "first")]), Mbox::new([0, 2][choose(2, "second")]));
        check(!a.tx[0].same_channel(&c.tx[0]) && !c.tx[0].same_channel(&a.tx[0]), "senders of different mailboxes differ");
        let t = a.tx[0].clone();
        let w = t.downgrade().upgrade().unwrap();
        check(t.same_channel(&a.tx[0]) && w.same_channel(&t) && !w.same_channel(&c.tx[0]), "senders of one mailbox are the same");
        check(!a.rx.is_closed() && !c.rx.is_closed(), "a new mailbox is open");
        // Nor once either is closed, empty or gone.
        let Mbox { tx: ta, rx: mut ra, .. } = a; let Mbox { tx: tc, rx: mut rc, .. } = c;
        if flip("close a") { ra.close(); if flip("drop a") { drop(ra) } }
        if flip("close c") { rc.close(); if flip("drop c") { drop(rc) } }
        check(!ta[0].same_channel(&tc[0]) && !tc[0].same_channel(&ta[0]) && t.same_channel(&ta[0]) && w.same_channel(&t), "being closed does not change what is the same");
        reach("end");
    }
    // Dropping the receiver: senders fail at once and waiting ones wake up.
    c29_receiver_gone {
        let cap = [0, 1][choose(2, "cap")];
        let Mbox { tx, rx, .. } = Mbox::new(cap);
        let tx = &tx[0];
        let sent = std::cell::Cell::new(0);
        let mut ex = Exec::new(b(3, 5));
        let ids: Vec<usize> = (0..3u64).map(|i| { let sent = &sent; ex.spawn(async move { match tx.send(sig(i)).await { Ok(()) => sent.set(sent.get() + 1), Err(e) => check(val(&e.0) == i, "what could not be sent comes back") } }) }).collect();
        let c = ex.spawn(async move { tx.closed().await });
        let closing = choose(3, "closing");
        let at = choose(5, "at");
        let mut rx = Some(rx);
        for _ in 0..at { ex.step(); }
        match closing { 0 => { rx = None } 1 => rx.as_mut().unwrap().close(), _ => { let _ = rx.as_mut().unwrap().try_recv(); rx.as_mut().unwrap().close() } }
        ex.run();
        check(ids.iter().all(|i| ex.done(*i)) && ex.done(c), "closing a mailbox wakes everyone waiting for it");
        if let Some(mut rx) = rx {
            let mut n = 0;
            while let Ok(_) = rx.try_recv() { n += 1 }
            check(n + (closing == 2) as usize >= sent.get() && n <= sent.get(), "what was sent before closing is received");
        }
        check(tx.is_closed(), "closed");
        reach("end");
    }
    // A waiting receiver is woken by a send, by the last sender going, and by nothing else.
    c29_wakes {
        let cap = [0, 1][choose(2, "cap")];
        let Mbox { mut tx, mut rx, .. } = Mbox::new(cap);
        let got = std::cell::RefCell::new(vec![]);
        let how = choose(3, "how");
        let ended = std::cell::Cell::new(false);
        let mut ex = Exec::new(b(4, 6));
        {
            let (got, ended) = (&got, &ended);
            ex.spawn(async move { loop {
                match how {
                    0 => match rx.recv().await { Some(s) => got.borrow_mut().push(val(&s)), None => break },
                    1 => match std::future::poll_fn(|cx| rx.poll_recv(cx)).await { Some(s) => got.borrow_mut().push(val(&s)), None => break },
                    _ => { let mut buf = vec![]; if rx.recv_many(&mut buf, 2).await == 0 { break } got.borrow_mut().extend(buf.iter().map(val)) }
                }
            } ended.set(true) });
        }
        let t = tx.pop().unwrap();
        let n = 1 + choose(2, "n") as u64;
        let (t2, w) = (t.clone(), t.downgrade());
        ex.spawn(async move { for i in 0..n { check(t.send(sig(i)).await.is_ok(), "an open mailbox accepts"); yield_().await } });
        ex.spawn(async move { check(t2.send(sig(10)).await.is_ok(), "an open mailbox accepts") });
        ex.run();
        check(ended.get(), "receiving ends when the last sender goes");
        let g = got.borrow();
        check(g.len() as u64 == n + 1 && g.iter().filter(|v| **v < 10).copied().collect::<Vec<_>>() == (0..n).collect::<Vec<_>>(), "everything sent is received, each sender's in order");
        check(w.upgrade().is_none(), "a weak sender of a mailbox without senders does not upgrade");
        reach("end");
    }
}
