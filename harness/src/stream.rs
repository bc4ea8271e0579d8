//! Parsers on a default sequence over a generic one that is loaded by another thread meanwhile.
use crate::carrier::{ch, set_base, Carrier, Fut, Kind};
use crate::genseq::Strat;
use crate::peg::{self, DynP};
use crate::sched::{self, Job, Opts};
use crate::util::*;
use parcom_core::primitive::BytesDelta;
use parcom_core::{Parser, ParserOnce, RewindSequence, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::{DefaultSegments, DefaultSequence};
use parcom_sequence_core::{BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder, GenericSequenceLoader, Iter};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug)]
enum Op {
    /// loads up to there (in raw items), and what there is becomes a segment
    Append(usize),
    /// loads up to there; whether that becomes a segment is up to the strategy
    Load(usize),
    Commit,
    Finish,
    Done,
    Send,
}
/// `at`: codes given so far; `offs`: where each code begins in raw items. An order may go some raw items further.
fn ops(v: &Value, (at, raw): &mut (usize, usize), offs: &[usize]) -> Vec<Op> {
    let mut upto = |o: &Value| {
        *at += o["n"].as_u64().unwrap() as usize;
        *raw = (offs[*at] + o["b"].as_u64().unwrap_or(0) as usize).min(offs[offs.len() - 1]).max(*raw);
        *raw
    };
    v.as_array()
        .unwrap()
        .iter()
        .map(|o| match o["o"].as_str().unwrap() {
            "append" => Op::Append(upto(o)),
            "load" => Op::Load(upto(o)),
            "commit" => Op::Commit,
            "finish" => Op::Finish,
            "done" => Op::Done,
            "send" => Op::Send,
            x => panic!("unknown op {x}"),
        })
        .collect()
}

/// What is parsed: slices of items, or strings whose bytes come through the validator.
trait Form: Kind {
    type Item: Copy + Send + Sync + 'static;
    type Source: SequenceSource<Item = Self::Item> + Send + 'static;
    fn source(f: Feed<Self::Item>) -> Self::Source;
    fn encode(code: u32, out: &mut Vec<Self::Item>);
    fn view(items: &[Self::Item]) -> &Self;
    fn from_raw(n: usize) -> Self::Length;
}
impl Form for [u32] {
    type Item = u32;
    type Source = Feed<u32>;
    fn source(f: Feed<u32>) -> Feed<u32> {
        f
    }
    fn encode(code: u32, out: &mut Vec<u32>) {
        out.push(code);
    }
    fn view(items: &[u32]) -> &[u32] {
        items
    }
    fn from_raw(n: usize) -> usize {
        n
    }
}
impl Form for str {
    type Item = u8;
    type Source = Utf8Validator<Feed<u8>>;
    fn source(f: Feed<u8>) -> Self::Source {
        Utf8Validator::new(f)
    }
    fn encode(code: u32, out: &mut Vec<u8>) {
        out.extend_from_slice(ch(code).encode_utf8(&mut [0; 4]).as_bytes());
    }
    fn view(items: &[u8]) -> &str {
        std::str::from_utf8(items).expect("a segment is not a string")
    }
    fn from_raw(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
}

/// gives the content in turn, as far as it is told
struct Feed<T> {
    items: Arc<Vec<T>>,
    next: usize,
    upto: Arc<AtomicUsize>,
}
impl<T: Copy> SequenceSource for Feed<T> {
    type Item = T;
    type Error = u64;
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = u64>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = u64>,
    {
        let k = self.upto.load(SeqCst);
        if k == usize::MAX {
            return std::future::ready(control.finish());
        }
        let mut w = control.request_writer(k - self.next);
        while self.next < k {
            if w.push_item(self.items[self.next]).is_err() {
                panic!("no room for what was requested");
            }
            self.next += 1;
        }
        std::future::ready(w.advance())
    }
}

/// The generic sequence with scheduling points around what the reader does with it; the loader stays outside.
struct Build<K: ?Sized>(PhantomData<K>);
struct Buf<K: ?Sized + Form>(GenericSequenceBuffer<K::Item>);
struct BufIter<'a, K: ?Sized + Form>(Iter<'a, K::Item>);
struct NoLoader<K: ?Sized>(PhantomData<fn() -> Box<K>>);
impl<K: ?Sized + Form> SequenceBuilder<K::Source> for Build<K> {
    type Length = K::Length;
    type Segment = K;
    type Buffer = Buf<K>;
    type Loader = NoLoader<K>;
    fn build(&self, _: K::Source) -> (Buf<K>, NoLoader<K>) {
        unreachable!()
    }
}
impl<K: ?Sized + Form> SequenceBuffer for Buf<K> {
    type Length = K::Length;
    type Segment = K;
    type Iter<'a> = BufIter<'a, K>;
    fn advance(&mut self, n: K::Length) -> K::Length {
        sched::point();
        let r = self.0.advance(K::to_raw(n));
        sched::point();
        K::from_raw(r)
    }
    fn segments(&self) -> BufIter<'_, K> {
        BufIter(self.0.segments())
    }
}
impl<'a, K: ?Sized + Form> Iterator for BufIter<'a, K> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        sched::point();
        let r = self.0.next();
        sched::point();
        r.map(K::view)
    }
}
impl<K: ?Sized + Form> SequenceLoader for NoLoader<K> {
    type Length = K::Length;
    type Segment = K;
    type Error = u64;
    type Load<'a> = std::future::Pending<Result<LoadInfo, u64>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        std::future::pending()
    }
}

/// What is loaded into, and what has been loaded so far.
struct Shared<K: ?Sized + Form> {
    items: Arc<Vec<K::Item>>,
    strat: Strat,
    so_far: Vec<Op>,
    target: Option<Target<K>>,
}
struct Target<K: ?Sized + Form> {
    loader: GenericSequenceLoader<K::Item, K::Source, Strat>,
    upto: Arc<AtomicUsize>,
    signal: Arc<Notify>,
    done: Arc<AtomicBool>,
}
impl<K: ?Sized + Form> Target<K> {
    fn load(&mut self, upto: usize) {
        self.upto.store(upto, SeqCst);
        match block_on(self.loader.load()) {
            Ok(Ok(_)) => {}
            Ok(Err(_)) => panic!("a load failed"),
            Err(e) => panic!("a load does not end: {e}"),
        }
    }
    fn go(&mut self, op: Op) {
        match op {
            Op::Append(k) => {
                self.load(k);
                self.loader.force_commit();
            }
            Op::Load(k) => self.load(k),
            Op::Commit => self.loader.force_commit(),
            Op::Finish => self.load(usize::MAX),
            Op::Done => self.done.store(true, SeqCst),
            Op::Send => {}
        }
    }
}
type Common<K> = Arc<Mutex<Shared<K>>>;
/// waits as the scheduler sees it
fn lock<K: ?Sized + Form>(c: &Common<K>) -> MutexGuard<'_, Shared<K>> {
    loop {
        match c.try_lock() {
            Ok(g) => return g,
            Err(std::sync::TryLockError::Poisoned(_)) => panic!("loading failed"),
            _ => sched::rest(),
        }
    }
}

/// A sequence that can be rewound: it is made anew, with all that was loaded so far.
struct Live<K: ?Sized + Form> {
    seq: DefaultSequence<K::Source, Build<K>>,
    pos: usize,
    common: Common<K>,
}
struct Anchor(usize);
impl<K: ?Sized + Form> Live<K> {
    fn new(common: &Common<K>) -> Self {
        let mut s = lock(common);
        let upto = Arc::new(AtomicUsize::new(0));
        let feed = Feed { items: s.items.clone(), next: 0, upto: upto.clone() };
        let (b, loader) = GenericSequenceBuilder::verif_new(s.strat.clone()).build(K::source(feed));
        let seq = DefaultSequence::<K::Source, Build<K>>::new(Buf(b), NoLoader(PhantomData));
        let (signal, done) = seq.verif_signals();
        let mut t = Target { loader, upto, signal, done };
        for op in &s.so_far {
            t.go(*op);
        }
        s.target = Some(t);
        drop(s);
        Live { seq, pos: 0, common: common.clone() }
    }
}
impl<K: ?Sized + Form> Sequence for Live<K>
where
    K::Length: Default + PartialEq,
{
    type Length = K::Length;
    type Segment = K;
    type Segments<'a> = DefaultSegments<'a, K::Source, Build<K>>;
    type Advance = Fut<'static, Self>;
    fn segments(&mut self) -> Self::Segments<'_> {
        self.seq.segments()
    }
    fn advance(self, n: K::Length) -> Self::Advance {
        let Live { seq, pos, common } = self;
        let k = K::to_raw(n);
        // parsers go no further than they have seen
        Box::pin(async move { Live { seq: seq.advance(K::from_raw(k)).await, pos: pos + k, common } })
    }
}
impl<K: ?Sized + Form> RewindSequence for Live<K>
where
    K::Length: Default + PartialEq,
{
    type Anchor = Anchor;
    type Rewind = Fut<'static, Self>;
    fn anchor(&self) -> Anchor {
        Anchor(self.pos)
    }
    fn rewind(self, a: Anchor) -> Self::Rewind {
        assert!(a.0 <= self.pos, "rewound forwards");
        let Live { seq, common, .. } = self;
        Box::pin(async move {
            drop(seq);
            Live::new(&common).advance(K::from_raw(a.0)).await
        })
    }
}
impl<K: ?Sized + Form> Carrier for Live<K>
where
    K::Length: Default + PartialEq,
{
    fn pos(&self) -> usize {
        K::item_of(self.pos)
    }
    fn checked_pos(self) -> Fut<'static, (usize, Self)> {
        Box::pin(async move { (self.pos(), self) })
    }
    fn adv(self, items: usize) -> Fut<'static, Self> {
        let d = K::delta(self.pos(), items);
        self.advance(d)
    }
    fn adv_most(mut self, items: usize) -> Fut<'static, (usize, Self)> {
        Box::pin(async move {
            let mut k = 0;
            let mut segs = self.segments();
            let mut codes = vec![];
            while k < items {
                match segs.next(Default::default()).await {
                    Some(s) => {
                        K::codes(s, &mut codes);
                        k += std::mem::take(&mut codes).len();
                    }
                    None => break,
                }
            }
            drop(segs);
            let k = k.min(items);
            (k, self.adv(k).await)
        })
    }
    fn leaf_any() -> DynP<Self> {
        K::any()
    }
    fn leaf_the(c: u32) -> DynP<Self> {
        K::the(c)
    }
    fn leaf_atom(w: &[u32], form: usize) -> DynP<Self> {
        K::atom(w, form)
    }
}

struct Name(AtomicBool);
impl Wake for Name {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
/// polls until ready; None: it is never woken again
fn drive<F: Future>(mut f: Pin<&mut F>, busy: &AtomicUsize) -> Option<F::Output> {
    let mut in_vain = 0;
    for k in 1.. {
        sched::point();
        let name = Arc::new(Name(AtomicBool::new(false)));
        let waker = Waker::from(name.clone());
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Some(v);
        }
        if k % 4 == 0 && busy.load(SeqCst) > 0 {
            sched::rest();
        }
        while !name.0.load(SeqCst) {
            if busy.load(SeqCst) == 0 {
                return None;
            }
            sched::rest();
        }
        if busy.load(SeqCst) == 0 {
            in_vain += 1;
            if in_vain > 8 {
                return None;
            }
        }
    }
    unreachable!()
}

fn produce<K: ?Sized + Form>(ops: &[Op], common: &Common<K>) {
    for op in ops {
        sched::point();
        if let Op::Send = op {
            let signal = lock(common).target.as_ref().unwrap().signal.clone();
            signal.send();
            continue;
        }
        let mut s = lock(common);
        s.target.as_mut().unwrap().go(*op);
        s.so_far.push(*op);
    }
}
/// everything from here on, and whether the end was there
async fn read<K: ?Sized + Form>(s: &mut Live<K>, got: &RefCell<Vec<u32>>) -> bool
where
    K::Length: Default + PartialEq,
{
    let mut segs = s.segments();
    while let Some(x) = segs.next(Default::default()).await {
        K::codes(x, &mut got.borrow_mut());
        if got.borrow().len() > 100_000 {
            panic!("endless segments");
        }
    }
    true
}
fn consume<K: ?Sized + Form>(case: &Value, codes: &[u32], live: Live<K>, busy: &AtomicUsize) -> Value
where
    K::Length: Default + PartialEq,
{
    peg::begin(codes, case["chars"].as_u64(), case["ext"].as_bool().unwrap_or(false), 100_000);
    let p = peg::build::<Live<K>>(&case["n"]);
    let anchor = live.anchor();
    let once = case["once"].as_bool().unwrap_or(false);
    let work = async {
        if once {
            p.clone().parse_once(live).await
        } else {
            p.parse(live).await
        }
    };
    let Some(r) = drive(pin!(work), busy) else {
        return json!({"e": "outcome", "res": "none", "v": "", "f": false, "log": peg::noted(), "rest": [], "p": 0, "ended": false});
    };
    let log = peg::noted();
    let (res, v, f, s) = match r {
        Ok((v, s)) => ("ok", v.s, false, Ok(s)),
        Err((e, r)) => ("err", e.s, e.f, Err(r)),
    };
    let got = RefCell::new(vec![]);
    let pos = RefCell::new(0);
    let after = async {
        let mut s = match s {
            Ok(s) => s,
            Err(r) => r.rewind(anchor).await,
        };
        *pos.borrow_mut() = s.pos();
        read(&mut s, &got).await
    };
    let ended = drive(pin!(after), busy).is_some();
    json!({"e": "outcome", "res": res, "v": v, "f": f, "log": log, "rest": got.into_inner(), "p": pos.into_inner(), "ended": ended})
}

/// all outcomes of a program
pub fn run(case: &Value, o: Opts) -> (usize, bool, Vec<Value>) {
    if case["on"] == "str" {
        run_on::<str>(case, o)
    } else {
        run_on::<[u32]>(case, o)
    }
}
fn run_on<K: ?Sized + Form>(case: &Value, o: Opts) -> (usize, bool, Vec<Value>)
where
    K::Length: Default + PartialEq,
{
    let codes = Arc::new(case["input"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect::<Vec<_>>());
    set_base(&codes, case["chars"].as_u64());
    let mut items = vec![];
    let mut offs = vec![0];
    for c in codes.iter() {
        K::encode(*c, &mut items);
        offs.push(items.len());
    }
    let items = Arc::new(items);
    let mut at = (0, 0);
    let before = ops(&case["before"], &mut at, &offs);
    let producer = ops(&case["producer"], &mut at, &offs);
    let strat = Strat::from(&case["strat"]);
    let mut seen: HashSet<String> = HashSet::new();
    let mut out = vec![];
    let _ = catch(|| ()); // installs the panic hook
    let found: Arc<Mutex<Option<Value>>> = Default::default();
    let case = Arc::new(case.clone());
    let mut make = || -> Vec<Job> {
        *found.lock().unwrap() = None;
        let common: Common<K> =
            Arc::new(Mutex::new(Shared { items: items.clone(), strat: strat.clone(), so_far: vec![], target: None }));
        let busy = Arc::new(AtomicUsize::new(1));
        let live = Live::new(&common);
        produce(&before, &common);
        let (p, c2, b2, f2) = (producer.clone(), common.clone(), busy.clone(), found.clone());
        let (case, codes, found) = (case.clone(), codes.clone(), found.clone());
        let panicked = |r: Result<(), String>, f: &Mutex<Option<Value>>| {
            if let Err(t) = r {
                *f.lock().unwrap() = Some(json!({"e": "outcome", "res": "panic", "v": t}));
            }
        };
        vec![
            Box::new(move || {
                let r = catch(std::panic::AssertUnwindSafe(|| produce(&p, &c2)));
                panicked(r, &f2);
                b2.fetch_sub(1, SeqCst);
            }),
            Box::new(move || {
                let r = catch(std::panic::AssertUnwindSafe(|| {
                    let v = consume(&case, &codes, live, &busy);
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some(v);
                    }
                }));
                panicked(r, &found);
            }),
        ]
    };
    let mut after = |stuck: bool| {
        let v = if stuck { None } else { found.lock().unwrap().take() };
        let v = v.unwrap_or_else(|| json!({"e": "outcome", "res": "stuck", "v": ""}));
        if seen.insert(v.to_string()) {
            out.push(json!([v]));
        }
        !stuck
    };
    let f = sched::explore(&mut make, &mut after, o);
    (f.runs, f.complete, out)
}
