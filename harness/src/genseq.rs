//! Histories of the generic sequence: sources, writers, loads, commits, consumption, teardown.
use crate::util::*;
use parcom_sequence_core::{
    BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource,
};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder, GenericSequenceLoader, Iter};
use parcom_sequences::BufferStrategy;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

thread_local! {
    static GONE: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static EVENTS: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
}

/// An item that notes its release.
#[derive(Debug)]
pub struct Item {
    id: u64,
    check: u64,
    _pad: u8, // an odd size
}
impl Item {
    fn new() -> Item {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        Item { id, check: !id, _pad: 7 }
    }
    fn id(&self) -> u64 {
        if self.check == !self.id && self.id < 1_000_000 {
            self.id
        } else {
            999_999
        }
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        let id = self.id();
        GONE.with(|g| g.borrow_mut().push(id));
    }
}

pub trait Thing: 'static + Sized {
    /// notes its release
    const DROPS: bool;
    /// notes its release, but all are alike
    const ALIKE: bool = false;
    fn make() -> Self;
    fn num(&self) -> u64;
}
impl Thing for Item {
    const DROPS: bool = true;
    fn make() -> Item {
        Item::new()
    }
    fn num(&self) -> u64 {
        self.id()
    }
}
impl Thing for u8 {
    const DROPS: bool = false;
    fn make() -> u8 {
        NEXT.with(|n| n.replace(n.get() + 1)) as u8
    }
    fn num(&self) -> u64 {
        *self as u64
    }
}

/// An item with an alignment and a size of its own.
#[repr(align(64))]
#[derive(Debug)]
pub struct Wide {
    item: Item,
    _pad: [u64; 9],
}
impl Thing for Wide {
    const DROPS: bool = true;
    fn make() -> Wide {
        Wide { item: Item::new(), _pad: [3; 9] }
    }
    fn num(&self) -> u64 {
        if (self as *const Wide as usize) % 64 != 0 || self._pad != [3; 9] {
            return 999_998;
        }
        self.item.id()
    }
}
impl Thing for u32 {
    const DROPS: bool = false;
    fn make() -> u32 {
        NEXT.with(|n| n.replace(n.get() + 1)) as u32
    }
    fn num(&self) -> u64 {
        *self as u64
    }
}

/// carries nothing: all are number 1, and there is always room for more
impl Thing for () {
    const DROPS: bool = false;
    fn make() {}
    fn num(&self) -> u64 {
        1
    }
}

/// carries nothing, but notes its release
pub struct Empty;
impl Drop for Empty {
    fn drop(&mut self) {
        GONE.with(|g| g.borrow_mut().push(1));
    }
}
impl Thing for Empty {
    const DROPS: bool = false;
    const ALIKE: bool = true;
    fn make() -> Empty {
        Empty
    }
    fn num(&self) -> u64 {
        1
    }
}

thread_local! {
    /// items without size: room is counted from this down
    static BLANK: Cell<bool> = const { Cell::new(false) };
    /// writers are not watched
    static MUTE: Cell<bool> = const { Cell::new(false) };
    /// item numbers are written as runs [first, last]
    static RUNS: Cell<bool> = const { Cell::new(false) };
    /// how many items stand for one item of the history
    static UNIT: Cell<usize> = const { Cell::new(1) };
}
fn unit() -> usize {
    UNIT.with(|u| u.get())
}
/// an amount of the history in items
fn up(n: u64) -> usize {
    (n as usize).saturating_mul(unit())
}
/// an amount of items as one of the history; -1 if it is none
fn down(n: usize) -> i64 {
    if n % unit() == 0 {
        (n / unit()) as i64
    } else {
        -1
    }
}
/// room in items as room of the history
fn room(n: usize) -> usize {
    if BLANK.with(|b| b.get()) {
        return n.saturating_sub(usize::MAX - 1_000_000);
    }
    (n / unit()).min(1_000_000)
}
/// Items in order as items of the history: each stands for a block of items, complete and in order.
/// What is no such block becomes a number that was never given out.
pub fn blocks(v: Vec<u64>, u: usize) -> Vec<u64> {
    let mut out = vec![];
    let mut j = 0;
    while j < v.len() {
        let x = v[j];
        let whole = x > 0 && (x as usize - 1) % u == 0 && j + u <= v.len() && (0..u).all(|k| v[j + k] == x + k as u64);
        if whole {
            out.push((x - 1) / u as u64 + 1);
            j += u;
        } else {
            // up to the next beginning of a block
            out.push(800_000 + out.len() as u64);
            j += 1;
            while j < v.len() && (v[j] == 0 || (v[j] as usize - 1) % u != 0) {
                j += 1;
            }
            if out.len() > 2000 {
                break;
            }
        }
    }
    out
}
fn nums(v: Vec<u64>) -> Value {
    let v = if unit() > 1 { blocks(v, unit()) } else { v };
    if !RUNS.with(|r| r.get()) {
        return json!(v);
    }
    let mut runs: Vec<[u64; 2]> = vec![];
    for x in v {
        match runs.last_mut() {
            Some(r) if r[1] + 1 == x => r[1] = x,
            _ => runs.push([x, x]),
        }
    }
    json!(runs)
}

fn event(v: Value) {
    EVENTS.with(|e| e.borrow_mut().push(v));
}
fn gone() -> Vec<u64> {
    let mut g = GONE.with(|g| std::mem::take(&mut *g.borrow_mut()));
    if unit() > 1 {
        g.sort();
    }
    g
}

#[derive(Clone)]
pub enum Strat {
    Exact,
    Plus(usize),
    Mul(usize),
    AtLeast(usize),
}
impl Strat {
    pub fn from(v: &Value) -> Strat {
        let a = v["a"].as_u64().unwrap_or(0) as usize;
        match v["k"].as_str().unwrap_or("exact") {
            "exact" => Strat::Exact,
            "plus" => Strat::Plus(a),
            "mul" => Strat::Mul(a),
            _ => Strat::AtLeast(a),
        }
    }
}
impl BufferStrategy for Strat {
    fn calc_capacity(&self, min: usize) -> usize {
        match self {
            Strat::Exact => min,
            Strat::Plus(a) => min + a * unit(),
            Strat::Mul(a) => min * a,
            Strat::AtLeast(a) => min.max(*a * unit()),
        }
    }
}

pub struct Pause(pub usize);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// A source that does what the current command says.
pub struct Script<T> {
    cur: Rc<RefCell<Value>>,
    _t: std::marker::PhantomData<fn() -> T>,
}

fn look<W: BufferWriter>(w: &mut W, what: &str, more: Value)
where
    W::Item: Thing,
{
    if MUTE.with(|m| m.get()) {
        return;
    }
    let items: Vec<u64> = w.as_slice().iter().map(|i| i.num()).collect();
    let items2: Vec<u64> = w.as_mut_slice().iter().map(|i| i.num()).collect();
    let mut e = json!({"e": what, "len": down(w.len()), "cap": room(w.capacity()), "items": nums(items), "items2": nums(items2),
        "spare": room(w.spare_capacity().len())});
    for (k, v) in more.as_object().unwrap() {
        e[k] = v.clone();
    }
    e["gone"] = nums(gone());
    e["drops"] = json!(W::Item::DROPS);
    e["alike"] = json!(W::Item::ALIKE);
    event(e);
}

pub async fn play<T: Thing, C>(cmd: Value, control: C) -> C::Result
where
    C: SequenceControl<Item = T, Error = u64>,
{
    let wait = cmd["wait"].as_u64().unwrap_or(0) as usize;
    Pause(wait).await;
    // a load that is given up after the source has said how it ends
    let late = cmd["late"].as_str().unwrap_or("");
    if late == "fin" || late == "ctl" {
        let r = if late == "fin" { control.finish() } else { control.cancel(79) };
        Pause(usize::MAX).await;
        return r;
    }
    match cmd["out"].as_str().unwrap() {
        "fin" => return control.finish(),
        "ctl" => return control.cancel(77),
        _ => {}
    }
    let n = cmd["n"].as_u64().unwrap();
    let mut w = control.request_writer(up(n));
    look(&mut w, "req", json!({"n": n}));
    for op in cmd["ops"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
        if let Some(k) = op["push"].as_u64() {
            for _ in 0..k {
                let item = T::make();
                let id = item.num();
                let r = w.push_item(item);
                let back = match &r {
                    Ok(()) => 0,
                    Err(i) => i.num(),
                };
                drop(r);
                look(&mut w, "push", json!({"id": id, "back": back}));
            }
        } else if let Some(k) = op["fill"].as_u64() {
            // many at once
            let (mut acc, mut rej, mut back, mut late) = (vec![], vec![], vec![], 0);
            // blocks are written whole
            let k = if unit() > 1 { k.min(room(w.spare_capacity().len()) as u64) } else { k };
            for _ in 0..up(k) {
                let item = T::make();
                let id = item.num();
                match w.push_item(item) {
                    Ok(()) => {
                        acc.push(id);
                        late += !rej.is_empty() as usize;
                    }
                    Err(i) => {
                        rej.push(id);
                        back.push(i.num());
                    }
                }
            }
            look(&mut w, "fill", json!({"n": k, "acc": nums(acc), "rej": nums(rej), "back": nums(back), "late": late}));
        } else if let Some(k) = op["raw"].as_u64() {
            // through the spare room itself
            let k = up(k).min(up(room(w.spare_capacity().len()) as u64));
            let mut ids = vec![];
            for slot in &mut w.spare_capacity()[..k] {
                let item = T::make();
                ids.push(item.num());
                slot.write(item);
            }
            let len = w.len();
            unsafe { w.set_len(len + k) };
            look(&mut w, "raw", json!({"ids": nums(ids)}));
        } else if let Some(m) = op["shrink"].as_u64() {
            // asking for more than there is is a mistake of the caller
            let m = up(m).min(w.len());
            w.shrink_to(m);
            look(&mut w, "shrink", json!({"n": down(m)}));
        } else {
            Pause(op["wait"].as_u64().unwrap() as usize).await;
        }
    }
    Pause(wait).await;
    match cmd["out"].as_str().unwrap() {
        "adv" => w.advance(),
        "cancel" => w.cancel(78),
        // kept waiting until the load is given up
        _ => {
            let r = match late {
                "adv" => w.advance(),
                "cancel" => w.cancel(79),
                _ => {
                    Pause(usize::MAX).await;
                    w.advance()
                }
            };
            Pause(usize::MAX).await;
            r
        }
    }
}

impl<T: Thing> SequenceSource for Script<T> {
    type Item = T;
    type Error = u64;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = T, Error = u64>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = u64>,
    {
        let cmd = self.cur.borrow().clone();
        Box::pin(play(cmd, control))
    }
}

fn report(r: &LoadInfo) -> Value {
    json!({"c": down(r.commited()), "u": down(r.uncommited()), "cap": room(r.buffer_capacity()), "done": r.is_done()})
}

struct Reader<T: 'static> {
    it: Iter<'static, T>,
    /// what it has yielded: where the items are and what they were
    seen: Vec<(&'static [T], Vec<u64>)>,
}

fn run_cmds<T, S, B>(case: &Value, mut start: impl FnMut(&Value) -> Option<Vec<u64>>, buffer: GenericSequenceBuffer<T>, loader: GenericSequenceLoader<T, S, B>)
where
    T: Thing,
    S: SequenceSource<Item = T> + 'static,
    S::Error: Errno,
    B: BufferStrategy + 'static,
{
    let mut buffer: Option<Box<GenericSequenceBuffer<T>>> = Some(Box::new(buffer));
    let mut loader = Some(Box::new(loader));
    let mut readers: BTreeMap<u64, Reader<T>> = BTreeMap::new();
    for cmd in case["cmds"].as_array().unwrap() {
        let op = cmd["op"].as_str().unwrap();
        let mut e = json!({"e": op});
        match op {
            "load" => {
                if let Some(ids) = start(cmd) {
                    e["ids"] = nums(ids);
                }
                let l = loader.as_mut().unwrap();
                let out = cmd["out"].as_str().unwrap();
                e["out"] = json!(out);
                if out == "abandon" {
                    let mut f = Box::pin(l.load());
                    let mut cx = Context::from_waker(Waker::noop());
                    for _ in 0..64 {
                        if f.as_mut().poll(&mut cx).is_ready() {
                            panic!("an abandoned load completed");
                        }
                    }
                } else {
                    match block_on(l.load()) {
                        Ok(Ok(r)) => e["r"] = report(&r),
                        Ok(Err(x)) => e["err"] = json!(x.errno()),
                        Err(x) => e["err"] = json!(x),
                    }
                }
            }
            "burst" => {
                // many loads of the same size in a row, watched as one
                let k = cmd["k"].as_u64().unwrap();
                let m = cmd["m"].as_u64().unwrap();
                let from = NEXT.with(|n| n.get());
                start(&json!({"op": "load", "out": "adv", "n": m, "ops": [{"fill": m}]}));
                MUTE.with(|x| x.set(true));
                let (mut c, mut u) = (0, 0);
                for _ in 0..k {
                    let r = block_on(loader.as_mut().unwrap().load()).unwrap().ok().expect("a load failed");
                    c += r.commited();
                    u = r.uncommited();
                }
                MUTE.with(|x| x.set(false));
                e["ids"] = nums((from..NEXT.with(|n| n.get())).collect());
                e["c"] = json!(c);
                e["u"] = json!(u);
            }
            "drain" => {
                let i = cmd["i"].as_u64().unwrap();
                e["i"] = json!(i);
                let r = readers.get_mut(&i).unwrap();
                let mut all = vec![];
                for (n, s) in r.it.by_ref().enumerate() {
                    assert!(n < 10_000, "endless segments");
                    let ids: Vec<u64> = s.iter().map(|i| i.num()).collect();
                    all.extend(ids.iter().copied());
                    r.seen.push((s, ids));
                }
                e["seg"] = nums(all);
            }
            "force" => loader.as_mut().unwrap().force_commit(),
            "consume" => {
                // published items never change while someone may look at them
                let same = readers.values().all(|r| r.seen.iter().all(|(s, ids)| s.iter().map(|i| i.num()).eq(ids.iter().copied())));
                readers.clear();
                let n = cmd["n"].as_u64().unwrap();
                e["n"] = json!(n);
                e["same"] = json!(same);
                e["ret"] = json!(down(buffer.as_mut().unwrap().advance(up(n))));
            }
            "iter" => {
                let b: &'static GenericSequenceBuffer<T> = unsafe { &*(&**buffer.as_ref().unwrap() as *const _) };
                let i = cmd["i"].as_u64().unwrap();
                e["i"] = json!(i);
                readers.insert(i, Reader { it: b.segments(), seen: vec![] });
            }
            "next" => {
                let i = cmd["i"].as_u64().unwrap();
                e["i"] = json!(i);
                let r = readers.get_mut(&i).unwrap();
                match r.it.next() {
                    Some(s) => {
                        let ids: Vec<u64> = s.iter().map(|i| i.num()).collect();
                        e["seg"] = nums(ids.clone());
                        e["some"] = json!(true);
                        r.seen.push((s, ids));
                    }
                    None => {
                        e["seg"] = json!([]);
                        e["some"] = json!(false);
                    }
                }
            }
            "dropbuf" => {
                let same = readers.values().all(|r| r.seen.iter().all(|(s, ids)| s.iter().map(|i| i.num()).eq(ids.iter().copied())));
                e["same"] = json!(same);
                readers.clear();
                buffer = None;
            }
            "dropldr" => loader = None,
            _ => panic!("unknown command {op}"),
        }
        if let Some(b) = &buffer {
            let mut seen = vec![];
            // where each segment ends, counted from the front
            let mut cuts = vec![];
            for (n, s) in b.segments().enumerate() {
                assert!(n < 10_000, "endless segments");
                seen.extend(s.iter().map(|i| i.num()));
                cuts.push(down(seen.len()));
            }
            e["seen"] = nums(seen);
            e["cuts"] = json!(cuts);
            e["live"] = json!(true);
        } else {
            e["seen"] = json!([]);
            e["cuts"] = json!([]);
            e["live"] = json!(false);
        }
        e["gone"] = nums(gone());
        e["drops"] = json!(T::DROPS);
        e["alike"] = json!(T::ALIKE);
        event(e);
    }
    readers.clear();
}

pub trait Errno {
    fn errno(&self) -> u64;
}
impl Errno for u64 {
    fn errno(&self) -> u64 {
        *self
    }
}
impl Errno for parcom_core::Never {
    fn errno(&self) -> u64 {
        0
    }
}

fn run_iter<T: Thing + Clone>(case: &Value) {
    // the chunks its loads will deliver
    let mut chunks = vec![];
    for c in case["cmds"].as_array().unwrap() {
        if c["op"] == "load" && c["out"] == "adv" {
            chunks.push((0..up(c["k"].as_u64().unwrap())).map(|_| T::make()).collect::<Vec<T>>());
        }
    }
    let mut ids: std::collections::VecDeque<Vec<u64>> = chunks.iter().map(|c| c.iter().map(|i| i.num()).collect()).collect();
    let feed = |c: &Value| if c["out"] == "adv" { ids.pop_front() } else { None };
    let (st, src) = (Strat::from(&case["strat"]), IteratorSource::new(chunks));
    // the strategy itself, or behind a pointer
    match case["via"].as_str() {
        Some("rc") => built(case, feed, Rc::new(st), src),
        Some("arc") => built(case, feed, std::sync::Arc::new(st), src),
        Some("ref") => built(case, feed, &*Box::leak(Box::new(st)), src),
        _ => built(case, feed, st, src),
    }
}

fn built<T, S, B>(case: &Value, feed: impl FnMut(&Value) -> Option<Vec<u64>>, strat: B, src: S)
where
    T: Thing,
    S: SequenceSource<Item = T> + 'static,
    S::Error: Errno,
    B: BufferStrategy + 'static,
{
    let (b, l) = GenericSequenceBuilder::verif_new(strat).build(src);
    run_cmds(case, feed, b, l);
}

fn run_script<T: Thing>(case: &Value) {
    let cur = Rc::new(RefCell::new(Value::Null));
    let src = Script::<T> { cur: cur.clone(), _t: Default::default() };
    let feed = |c: &Value| {
        *cur.borrow_mut() = c.clone();
        None
    };
    let st = Strat::from(&case["strat"]);
    match case["via"].as_str() {
        Some("rc") => built(case, feed, Rc::new(st), src),
        Some("arc") => built(case, feed, std::sync::Arc::new(st), src),
        Some("ref") => built(case, feed, &*Box::leak(Box::new(st)), src),
        _ => built(case, feed, st, src),
    }
}

/// runs one history, returns its events
pub fn run(case: &Value) -> Vec<Value> {
    GONE.with(|g| g.borrow_mut().clear());
    NEXT.with(|n| n.set(1));
    EVENTS.with(|e| e.borrow_mut().clear());
    RUNS.with(|r| r.set(case["runs"] == true));
    UNIT.with(|u| u.set(case["unit"].as_u64().unwrap_or(1) as usize));
    BLANK.with(|b| b.set(case["blank"] == true));
    let r = catch(|| match (case["src"].as_str(), case["runs"] == true || unit() > 1, case["wide"] == true) {
        (Some("iter"), ..) if case["blank"] == true => run_iter::<()>(case),
        _ if case["blank"] == true => run_script::<Empty>(case),
        (Some("iter"), false, _) => run_iter::<u8>(case),
        (Some("iter"), true, _) => run_iter::<u32>(case),
        (_, _, false) => run_script::<Item>(case),
        (_, _, true) => run_script::<Wide>(case),
    });
    let mut ev = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    UNIT.with(|u| u.set(1));
    BLANK.with(|b| b.set(false));
    if let Err(t) = r {
        ev.push(json!({"e": "panic", "what": t}));
    }
    ev
}

/// A sequence of many segments: reads it back, then takes it apart in the order `how` says
/// ("consume", "buffer", "loader": what releases the segments), on a stack of ordinary size.
pub fn long(n: usize, how: &'static str) -> Value {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            GONE.with(|g| g.borrow_mut().clear());
            NEXT.with(|n| n.set(1));
            let builder = GenericSequenceBuilder::verif_new(Strat::Exact);
            let cur = Rc::new(RefCell::new(json!({"out": "adv", "n": 1, "ops": [{"push": 1}]})));
            let src = Script::<Item> { cur, _t: Default::default() };
            let (mut b, mut l) = builder.build(src);
            for _ in 0..n {
                let _ = block_on(l.load());
                EVENTS.with(|e| e.borrow_mut().clear());
            }
            l.force_commit();
            let read: Vec<u64> = b.segments().flatten().map(|i| i.num()).collect();
            let before = gone().len();
            let mut ret = 0;
            match how {
                "consume" => {
                    ret = b.advance(n + 3);
                }
                "buffer" => {
                    drop(l);
                    drop(b);
                }
                _ => {
                    drop(b);
                    drop(l);
                }
            }
            let mut g = gone();
            g.sort();
            json!({"n": n, "how": how, "ret": ret, "before": before, "read_ok": read.iter().copied().eq(1..=n as u64),
                "released_ok": g.iter().copied().eq(1..=n as u64), "released": g.len()})
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| json!({"n": n, "how": how, "panic": true}))
}

/// A loading thread and a reading thread run freely; what the reader gets, with what was published at
/// least (before each call) and at most (after it).
pub fn parallel(case: &Value) -> Vec<Value> {
    catch(|| parallel_run(case)).unwrap_or_else(|t| vec![json!({"e": "panic", "what": t})])
}
fn parallel_run(case: &Value) -> Vec<Value> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    struct Feed {
        sizes: Vec<(usize, usize)>,
        at: usize,
        next: u64,
        written: std::sync::Arc<AtomicUsize>,
    }
    impl SequenceSource for Feed {
        type Item = u64;
        type Error = u64;
        type Next<'a, C>
            = std::future::Ready<C::Result>
        where
            C: 'a + SequenceControl<Item = u64, Error = u64>;
        fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
        where
            C: 'a + SequenceControl<Item = u64, Error = u64>,
        {
            if self.at == self.sizes.len() {
                return std::future::ready(control.finish());
            }
            let (n, k) = self.sizes[self.at];
            self.at += 1;
            let mut w = control.request_writer(n.max(k));
            for _ in 0..k {
                w.push_item(self.next).ok().unwrap();
                self.next += 1;
            }
            self.written.fetch_add(k, SeqCst);
            std::future::ready(w.advance())
        }
    }
    let mut rng = Rng::new(case["seed"].as_u64().unwrap());
    let n = case["loads"].as_u64().unwrap() as usize;
    let sizes: Vec<(usize, usize)> = (0..n).map(|_| (rng.below(4) as usize, rng.below(4) as usize)).collect();
    let total: usize = sizes.iter().map(|x| x.1).sum();
    let consume = rng.below(3) == 0;
    let written = std::sync::Arc::new(AtomicUsize::new(0));
    let published = std::sync::Arc::new(AtomicUsize::new(0));
    let src = Feed { sizes, at: 0, next: 1, written: written.clone() };
    let (mut b, mut l) = GenericSequenceBuilder::verif_new(Strat::Plus(rng.below(3) as usize)).build(src);
    let pauses: Vec<usize> = (0..n + 1).map(|_| rng.below(40)).collect();
    let go = std::sync::Arc::new(std::sync::Barrier::new(2));
    let mut ev = vec![json!({"e": "start", "total": total})];
    std::thread::scope(|sc| {
        let (published2, go2) = (published.clone(), go.clone());
        sc.spawn(move || {
            go2.wait();
            for p in pauses {
                for _ in 0..p {
                    std::hint::spin_loop();
                }
                let Ok(Ok(r)) = block_on(l.load()) else { return };
                published2.fetch_add(r.commited(), SeqCst);
            }
        });
        go.wait();
        let mut pos = 0;
        let mut nones = 0u64;
        let start = std::time::Instant::now();
        while pos < total && nones < 2_000_000 && start.elapsed().as_secs() < 5 {
            let mut it = b.segments();
            let mut at = pos;
            let mut rounds = 0;
            while at < total && nones < 2_000_000 && start.elapsed().as_secs() < 5 {
                let lo = published.load(SeqCst);
                let s = it.next();
                let hi = written.load(SeqCst);
                match s {
                    Some(s) => {
                        at += s.len();
                        ev.push(json!({"e": "next", "some": true, "seg": s, "lo": lo, "hi": hi}));
                        rounds += 1;
                        if consume && rounds % 3 == 0 {
                            break;
                        }
                    }
                    None => {
                        nones += 1;
                        // the same again tells nothing new
                        let again = ev.last().is_some_and(|l| l["e"] == "next" && l["some"] == false && l["lo"] == lo);
                        if !again {
                            ev.push(json!({"e": "next", "some": false, "seg": [], "lo": lo, "hi": hi}));
                        }
                    }
                }
            }
            if !consume {
                break;
            }
            let n = rng.below(6) as usize;
            let lo = published.load(SeqCst);
            let ret = b.advance(n);
            let hi = written.load(SeqCst);
            ev.push(json!({"e": "consume", "n": n, "ret": ret, "lo": lo, "hi": hi}));
            pos += n.saturating_sub(ret);
            if total.saturating_sub(pos) < 6 {
                break;
            }
        }
    });
    let rest: Vec<u64> = b.segments().flatten().copied().collect();
    ev.push(json!({"e": "rest", "seg": rest}));
    ev
}
