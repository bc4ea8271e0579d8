//! A default sequence that is filled by one thread and read by another, under every schedule.
use crate::genseq::Strat;
use crate::sched::{self, Job, Opts};
use crate::util::*;
use parcom_core::{SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::{DefaultSegments, DefaultSequence};
use parcom_sequence_core::{
    BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder, GenericSequenceLoader, Iter};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Ev {
    Append(Vec<u64>),
    Done,
    SendB,
    SendE,
    Iter,
    Next,
    Adv(usize),
    PollB(usize),
    Pending,
    Seg(Vec<u64>),
    EndSeg,
    Ok,
    Wake(usize),
    Park,
    Spin,
    Stuck,
    Panic(String),
    End,
}
fn show(e: &Ev) -> Value {
    match e {
        Ev::Append(ids) => json!({"e": "append", "ids": ids}),
        Ev::Done => json!({"e": "done"}),
        Ev::SendB => json!({"e": "send_b"}),
        Ev::SendE => json!({"e": "send_e"}),
        Ev::Iter => json!({"e": "iter"}),
        Ev::Next => json!({"e": "next"}),
        Ev::Adv(n) => json!({"e": "adv", "n": n}),
        Ev::PollB(w) => json!({"e": "poll_b", "w": w}),
        Ev::Pending => json!({"e": "poll_e", "r": "pending"}),
        Ev::Seg(ids) => json!({"e": "poll_e", "r": "seg", "ids": ids}),
        Ev::EndSeg => json!({"e": "poll_e", "r": "end"}),
        Ev::Ok => json!({"e": "poll_e", "r": "ok"}),
        Ev::Wake(w) => json!({"e": "wake", "w": w}),
        Ev::Park => json!({"e": "park"}),
        Ev::Spin => json!({"e": "spin"}),
        Ev::Stuck => json!({"e": "stuck"}),
        Ev::Panic(t) => json!({"e": "panic", "what": t}),
        Ev::End => json!({"e": "end"}),
    }
}

/// What the producer loads: as many items as it is told.
struct Feed {
    want: Arc<AtomicUsize>,
    next: u64,
}
impl SequenceSource for Feed {
    type Item = u64;
    type Error = u64;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u64, Error = u64>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u64, Error = u64>,
    {
        let k = self.want.load(SeqCst);
        if k == usize::MAX {
            return std::future::ready(control.finish());
        }
        let mut w = control.request_writer(k);
        for _ in 0..k {
            self.next += 1;
            w.push_item(self.next).unwrap();
        }
        std::future::ready(w.advance())
    }
}

/// The generic sequence with scheduling points around what the reader does with it; the loader stays outside.
struct Build;
struct Buf(GenericSequenceBuffer<u64>);
struct BufIter<'a>(Iter<'a, u64>);
struct NoLoader;
impl SequenceBuilder<Feed> for Build {
    type Length = usize;
    type Segment = [u64];
    type Buffer = Buf;
    type Loader = NoLoader;
    fn build(&self, _: Feed) -> (Buf, NoLoader) {
        unreachable!()
    }
}
impl SequenceBuffer for Buf {
    type Length = usize;
    type Segment = [u64];
    type Iter<'a> = BufIter<'a>;
    fn advance(&mut self, n: usize) -> usize {
        sched::point();
        let r = self.0.advance(n);
        sched::point();
        r
    }
    fn segments(&self) -> BufIter<'_> {
        BufIter(self.0.segments())
    }
}
impl<'a> Iterator for BufIter<'a> {
    type Item = &'a [u64];
    fn next(&mut self) -> Option<&'a [u64]> {
        sched::point();
        let r = self.0.next();
        sched::point();
        r
    }
}
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [u64];
    type Error = u64;
    type Load<'a> = std::future::Pending<Result<LoadInfo, u64>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        std::future::pending()
    }
}

#[derive(Clone)]
struct World {
    log: Arc<Mutex<Vec<Ev>>>,
    wakers: Arc<AtomicUsize>,
    /// producers still at work
    busy: Arc<AtomicUsize>,
    /// how many items stand for one item of the history
    unit: usize,
}
struct Name {
    w: usize,
    woken: AtomicBool,
    log: Arc<Mutex<Vec<Ev>>>,
}
impl Wake for Name {
    fn wake(self: Arc<Self>) {
        self.log.lock().unwrap().push(Ev::Wake(self.w));
        self.woken.store(true, SeqCst);
    }
}
impl World {
    fn say(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
    /// polls until ready, up to `most` times, or until it is never woken again; None: not ready
    fn drive<F: Future>(&self, mut f: Pin<&mut F>, most: usize, mut note: impl FnMut(&F::Output) -> Ev) -> Option<F::Output> {
        let mut in_vain = 0;
        for k in 1.. {
            sched::point();
            let w = self.wakers.fetch_add(1, SeqCst) + 1;
            let name = Arc::new(Name { w, woken: AtomicBool::new(false), log: self.log.clone() });
            self.say(Ev::PollB(w));
            let waker = Waker::from(name.clone());
            match f.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(v) => {
                    self.say(note(&v));
                    return Some(v);
                }
                Poll::Pending => self.say(Ev::Pending),
            }
            if k == most {
                return None;
            }
            // someone who is woken all the time lets the others go on
            if k % 4 == 0 && self.busy.load(SeqCst) > 0 {
                sched::rest();
            }
            while !name.woken.load(SeqCst) {
                if self.busy.load(SeqCst) == 0 {
                    self.say(Ev::Park);
                    return None;
                }
                sched::rest();
            }
            if self.busy.load(SeqCst) == 0 {
                in_vain += 1;
                if in_vain > 8 {
                    self.say(Ev::Spin);
                    return None;
                }
            }
        }
        unreachable!()
    }
    /// false: it ended suspended
    fn read(&self, segs: &mut DefaultSegments<'_, Feed, Build>, most: usize) -> bool {
        self.say(Ev::Next);
        self.drive(pin!(segs.next(0)), most, |r| match r {
            Some(s) if self.unit > 1 => Ev::Seg(crate::genseq::blocks(s.to_vec(), self.unit)),
            Some(s) => Ev::Seg(s.to_vec()),
            None => Ev::EndSeg,
        })
        .is_some()
    }
}
#[derive(Clone)]
enum Op {
    Append(usize),
    /// what a source does at its end: whatever is left becomes a segment
    Finish,
    Done,
    Send,
    /// reads, one entry per request: how often it polls before it drops the request (0: until it is answered)
    Read(Vec<usize>),
    Adv(usize, usize),
}
fn ops(v: &Value) -> Vec<Op> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let n = o["n"].as_u64().unwrap_or(0) as usize;
            match o["o"].as_str().unwrap() {
                "append" => Op::Append(n),
                "finish" => Op::Finish,
                "done" => Op::Done,
                "send" => Op::Send,
                "read" => Op::Read(o["p"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()),
                "adv" => Op::Adv(n, o["p"].as_u64().unwrap_or(0) as usize),
                x => panic!("unknown op {x}"),
            }
        })
        .collect()
}
type Loader = GenericSequenceLoader<u64, Feed, Strat>;

fn produce(ops: &[Op], world: &World, mut loader: Option<Loader>, want: &AtomicUsize, n: &Notify, done: &AtomicBool, next: &mut u64) {
    for op in ops {
        sched::point();
        match op {
            Op::Append(k) => {
                want.store(*k * world.unit, SeqCst);
                let l = loader.as_mut().unwrap();
                let _ = block_on(l.load());
                l.force_commit();
                world.say(Ev::Append((*next + 1..=*next + *k as u64).collect()));
                *next += *k as u64;
            }
            Op::Finish => {
                want.store(usize::MAX, SeqCst);
                let _ = block_on(loader.as_mut().unwrap().load());
                world.say(Ev::Append(vec![]));
            }
            Op::Done => {
                done.store(true, SeqCst);
                world.say(Ev::Done);
            }
            Op::Send => {
                world.say(Ev::SendB);
                n.send();
                world.say(Ev::SendE);
            }
            _ => panic!("not for a producer"),
        }
    }
    // the loader may be gone before the reader
    drop(loader);
}
fn consume(ops: &[Op], world: &World, seq: DefaultSequence<Feed, Build>) {
    let mut seq = Some(seq);
    for op in ops {
        match op {
            Op::Read(polls) => {
                world.say(Ev::Iter);
                let mut segs = seq.as_mut().unwrap().segments();
                for p in polls {
                    world.read(&mut segs, *p);
                }
            }
            Op::Adv(n, p) => {
                world.say(Ev::Adv(*n));
                match world.drive(Box::pin(seq.take().unwrap().advance(n.saturating_mul(world.unit))).as_mut(), *p, |_| Ev::Ok) {
                    Some(s) => seq = Some(s),
                    None => break,
                }
            }
            _ => panic!("not for a reader"),
        }
    }
}

/// all histories of a program that differ in what matters
pub fn run(case: &Value, o: Opts) -> (usize, bool, Vec<Value>) {
    let producer = ops(&case["producer"]);
    let reader = ops(&case["reader"]);
    let before = ops(&case["before"]);
    let noise = case["noise"].as_u64().unwrap_or(0) as usize;
    let unit = case["unit"].as_u64().unwrap_or(1) as usize;
    let mut seen: HashSet<Vec<Ev>> = HashSet::new();
    let mut out = vec![];
    let _ = catch(|| ()); // installs the panic hook
    let current: std::cell::RefCell<Option<World>> = std::cell::RefCell::new(None);
    let mut make = || -> Vec<Job> {
        let world = World { log: Default::default(), wakers: Default::default(), busy: Arc::new(AtomicUsize::new(1 + (noise > 0) as usize)), unit };
        let want = Arc::new(AtomicUsize::new(0));
        let (b, mut l) = GenericSequenceBuilder::verif_new(Strat::Exact).build(Feed { want: want.clone(), next: 0 });
        let seq = DefaultSequence::<Feed, Build>::new(Buf(b), NoLoader);
        let (n, done) = seq.verif_signals();
        let mut next = 0;
        for op in &before {
            if let Op::Append(k) = op {
                want.store(*k * unit, SeqCst);
                let _ = block_on(l.load());
                l.force_commit();
                world.say(Ev::Append((next + 1..=next + *k as u64).collect()));
                next += *k as u64;
            }
        }
        *current.borrow_mut() = Some(world.clone());
        let guard = |world: World, f: Box<dyn FnOnce(&World) + Send>| -> Job {
            Box::new(move || {
                let r = catch(std::panic::AssertUnwindSafe(|| f(&world)));
                if let Err(t) = r {
                    world.say(Ev::Panic(t));
                }
            })
        };
        let (p, r, n2, w) = (producer.clone(), reader.clone(), n.clone(), want.clone());
        let mut jobs = vec![
            guard(world.clone(), Box::new(move |world| {
                produce(&p, world, Some(l), &w, &n, &done, &mut next);
                world.busy.fetch_sub(1, SeqCst);
            })),
            guard(world.clone(), Box::new(move |world| consume(&r, world, seq))),
        ];
        if noise > 0 {
            jobs.push(guard(world.clone(), Box::new(move |world| {
                for _ in 0..noise {
                    sched::point();
                    n2.send();
                }
                world.busy.fetch_sub(1, SeqCst);
            })));
        }
        jobs
    };
    let mut after = |stuck: bool| {
        let world = current.borrow_mut().take().unwrap();
        let mut ev = std::mem::take(&mut *world.log.lock().unwrap());
        ev.push(if stuck { Ev::Stuck } else { Ev::End });
        // histories that differ only in when the reader polled in vain and was woken are one
        let key: Vec<Ev> = ev.iter().filter(|e| !matches!(e, Ev::PollB(_) | Ev::Pending | Ev::Wake(_) | Ev::SendE)).cloned().collect();
        if !seen.contains(&key) {
            out.push(json!(ev.iter().map(show).collect::<Vec<_>>()));
            seen.insert(key);
        }
        !stuck
    };
    let f = sched::explore(&mut make, &mut after, o);
    (f.runs, f.complete, out)
}
