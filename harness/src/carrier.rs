//! The inputs a parser can be run on, seen alike.
use crate::peg::{DErr, DynI, DynP, Val};
use parcom_core::measured::{IntoMeasured, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::primitive::{slice, str as pstr};
use parcom_core::{MeasuredSequence, RewindSequence, SegmentStream, Sequence, SequenceSegment};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// item code -> character; several byte lengths, and characters sharing their first bytes
pub const CHARS: [char; 8] = ['a', 'b', 'é', 'è', '字', '孖', '😀', '\u{0}'];
/// the ends of the ranges of each encoded length, of the surrogates, and other particular ones
const EDGES: [char; 20] = [
    '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}', '\n', '\r',
];
thread_local! {
    // which character stands for which code in the current case
    static PERM: Cell<[char; 8]> = const { Cell::new(CHARS) };
}
pub fn ch(code: u32) -> char {
    PERM.with(|p| p.get())[code as usize]
}
/// eight different characters
fn table(r: &mut crate::util::Rng) -> [char; 8] {
    let mut t = CHARS;
    for i in (1..8).rev() {
        t.swap(i, r.below(i + 1));
    }
    let kind = r.below(5);
    if kind < 2 {
        return t;
    }
    let c = r.below(0x80) as u32 + 0x20;
    let mut n = 0;
    while n < 8 {
        let x = match kind {
            2 => *r.pick(&EDGES),
            // alike in their low bits or in their last encoded bytes
            3 => {
                let up = [0, 0x40, 0x80, 0x100, 0x200, 0x800, 0x1000, 0x4100, 0x10000, 0x10100, 0x40000, 0x100000];
                char::from_u32(c + *r.pick(&up)).unwrap()
            }
            _ => match char::from_u32(r.next() as u32 % 0x110000) {
                Some(c) => c,
                None => continue,
            },
        };
        if !t[..n].contains(&x) {
            t[n] = x;
            n += 1;
        }
    }
    t
}
pub fn code_of(c: char) -> u32 {
    (0..8).find(|i| ch(*i) == c).unwrap_or(99)
}

thread_local! {
    // of the current case: the item codes, the text, its byte offsets
    static BASE: RefCell<Base> = RefCell::new(Base::default());
}
#[derive(Default, Clone)]
pub struct Base {
    pub codes: Vec<u32>,
    pub text: &'static str,
    pub items: &'static [u32],
    pub offs: Vec<usize>,
}
pub fn set_base(codes: &[u32], perm: Option<u64>) {
    let chars = perm.map(|seed| table(&mut crate::util::Rng::new(seed))).unwrap_or(CHARS);
    PERM.with(|p| p.set(chars));
    let text: String = codes.iter().map(|c| ch(*c)).collect();
    let mut offs = vec![0];
    for c in codes {
        offs.push(offs.last().unwrap() + ch(*c).len_utf8());
    }
    let b = Base {
        codes: codes.to_vec(),
        text: Box::leak(text.into_boxed_str()),
        items: Box::leak(codes.to_vec().into_boxed_slice()),
        offs,
    };
    BASE.with(|x| *x.borrow_mut() = b);
}
pub fn base() -> Base {
    BASE.with(|b| b.borrow().clone())
}
fn item_of_byte(b: usize) -> usize {
    BASE.with(|x| match x.borrow().offs.binary_search(&b) {
        Ok(i) => i,
        Err(_) => 900_000 + b,
    })
}
fn byte_of_item(i: usize) -> usize {
    BASE.with(|x| x.borrow().offs[i])
}
fn text_len() -> usize {
    BASE.with(|x| x.borrow().text.len())
}
fn total() -> usize {
    BASE.with(|x| x.borrow().codes.len())
}

pub trait Carrier: RewindSequence + 'static {
    /// position in items, from what the sequence shows
    fn pos(&self) -> usize;
    fn left(&self) -> usize {
        total().saturating_sub(self.pos())
    }
    /// position, with the visible content checked against the base
    fn checked_pos(self) -> Fut<'static, (usize, Self)>;
    fn adv(self, items: usize) -> Fut<'static, Self>;
    /// moves by that many items or to the end; and by how many
    fn adv_most(self, items: usize) -> Fut<'static, (usize, Self)> {
        Box::pin(async move {
            let k = items.min(self.left());
            (k, self.adv(k).await)
        })
    }
    fn leaf_any() -> DynP<Self>;
    fn leaf_the(c: u32) -> DynP<Self>;
    fn leaf_atom(w: &[u32], form: usize) -> DynP<Self>;
    /// combinators over parts that yield nothing or large values (where not, those parts are erased first)
    fn typed(_: &serde_json::Value) -> Option<DynP<Self>> {
        None
    }
    fn typed_iter(_: &serde_json::Value) -> Option<DynI<Self>> {
        None
    }
}

/// Which patterns and values the primitive parsers are made of, per kind of segment.
pub trait Kind: 'static + SequenceSegment {
    fn delta(from: usize, items: usize) -> Self::Length;
    fn codes(seg: &Self, out: &mut Vec<u32>);
    fn any<S: Carrier<Segment = Self, Length = Self::Length>>() -> DynP<S>;
    fn the<S: Carrier<Segment = Self, Length = Self::Length>>(c: u32) -> DynP<S>;
    fn atom<S: Carrier<Segment = Self, Length = Self::Length>>(w: &[u32], form: usize) -> DynP<S>;
    fn item_of(raw: usize) -> usize;
    fn slice(&self, a: usize, b: usize) -> &Self;
    fn raw_len(&self) -> usize;
    fn to_raw(l: Self::Length) -> usize;
}

impl Kind for str {
    fn delta(from: usize, items: usize) -> BytesDelta {
        BytesDelta::from_bytes(byte_of_item(from + items) - byte_of_item(from))
    }
    fn codes(seg: &Self, out: &mut Vec<u32>) {
        out.extend(seg.chars().map(code_of));
    }
    fn any<S: Carrier<Segment = str, Length = BytesDelta>>() -> DynP<S> {
        DynP::comb(|| any_char::<S>(), |c| { let k = code_of(c); Val::new(format!("c{k}"), k) }, DErr::miss)
    }
    fn the<S: Carrier<Segment = str, Length = BytesDelta>>(c: u32) -> DynP<S> {
        DynP::comb(move || the_char(ch(c)), move |()| Val::new(format!("t{c}"), c), DErr::miss)
    }
    fn atom<S: Carrier<Segment = str, Length = BytesDelta>>(w: &[u32], form: usize) -> DynP<S> {
        let s: String = w.iter().map(|c| ch(*c)).collect();
        let n = w.len();
        let v = move |()| Val::new(format!("w{n}"), n as u32);
        if form % 2 == 0 {
            let s: &'static str = Box::leak(s.into_boxed_str());
            DynP::comb(move || atom(s), v, DErr::miss)
        } else {
            DynP::comb(move || atom(s.clone()), v, DErr::miss)
        }
    }
    fn item_of(raw: usize) -> usize {
        item_of_byte(raw)
    }
    fn slice(&self, a: usize, b: usize) -> &Self {
        &self[a..b]
    }
    fn raw_len(&self) -> usize {
        self.len()
    }
    fn to_raw(l: BytesDelta) -> usize {
        l.to_bytes()
    }
}

impl Kind for [u32] {
    fn delta(_: usize, items: usize) -> usize {
        items
    }
    fn codes(seg: &Self, out: &mut Vec<u32>) {
        out.extend_from_slice(seg);
    }
    fn any<S: Carrier<Segment = [u32], Length = usize>>() -> DynP<S> {
        DynP::comb(|| any_item::<u32, S>(), |k| Val::new(format!("c{k}"), k), DErr::miss)
    }
    fn the<S: Carrier<Segment = [u32], Length = usize>>(c: u32) -> DynP<S> {
        DynP::comb(move || the_item(c), move |()| Val::new(format!("t{c}"), c), DErr::miss)
    }
    fn atom<S: Carrier<Segment = [u32], Length = usize>>(w: &[u32], form: usize) -> DynP<S> {
        let n = w.len();
        let v = move |()| Val::new(format!("w{n}"), n as u32);
        let w = w.to_vec();
        match (form % 3, n) {
            (0, _) => {
                let s: &'static [u32] = Box::leak(w.into_boxed_slice());
                DynP::comb(move || atom(s), v, DErr::miss)
            }
            (1, 1) => DynP::comb(move || atom([w[0]]), v, DErr::miss),
            (1, 2) => DynP::comb(move || atom([w[0], w[1]]), v, DErr::miss),
            (1, 3) => DynP::comb(move || atom([w[0], w[1], w[2]]), v, DErr::miss),
            _ => DynP::comb(move || atom(w.clone()), v, DErr::miss),
        }
    }
    fn item_of(raw: usize) -> usize {
        raw
    }
    fn slice(&self, a: usize, b: usize) -> &Self {
        &self[a..b]
    }
    fn raw_len(&self) -> usize {
        self.len()
    }
    fn to_raw(l: usize) -> usize {
        l
    }
}

async fn read_codes<S: Sequence>(s: &mut S) -> Vec<u32>
where
    S::Segment: Kind,
    S::Length: Default,
{
    let mut out = vec![];
    let mut it = s.segments();
    let mut n = 0;
    while let Some(seg) = it.next(Default::default()).await {
        <S::Segment as Kind>::codes(seg, &mut out);
        n += 1;
        if n > 10_000 {
            panic!("endless segments");
        }
    }
    out
}

macro_rules! carrier {
    ($t:ty, $k:ty, |$s:ident| $pos:expr $(, $typed:ident)?) => {
        impl Carrier for $t {
            $(fn typed(n: &serde_json::Value) -> Option<DynP<Self>> {
                crate::peg::$typed(n)
            }
            fn typed_iter(n: &serde_json::Value) -> Option<DynI<Self>> {
                crate::peg::typed_iter(n)
            })?
            fn pos(&self) -> usize {
                let $s = self;
                $pos
            }
            fn checked_pos(mut self) -> Fut<'static, (usize, Self)> {
                Box::pin(async move {
                    let p = self.pos();
                    let seen = read_codes(&mut self).await;
                    let b = base();
                    let q = if p <= b.codes.len() && seen == b.codes[p..] { p } else { 800_000 + p };
                    (q, self)
                })
            }
            fn adv(self, items: usize) -> Fut<'static, Self> {
                let d = <$k as Kind>::delta(self.pos(), items);
                let a = self.advance(d);
                Box::pin(async move { std::future::IntoFuture::into_future(a).await })
            }
            fn leaf_any() -> DynP<Self> {
                <$k as Kind>::any()
            }
            fn leaf_the(c: u32) -> DynP<Self> {
                <$k as Kind>::the(c)
            }
            fn leaf_atom(w: &[u32], form: usize) -> DynP<Self> {
                <$k as Kind>::atom(w, form)
            }
        }
    };
}

/// counts bytes
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(pub usize);
#[derive(Clone, Debug)]
pub struct BytesMeter(pub usize);
impl Metrics<str> for Bytes {
    type Meter = BytesMeter;
}
impl Meter<str> for BytesMeter {
    type Metrics = Bytes;
    fn advance(self, s: &str) -> Self {
        BytesMeter(self.0 + s.len())
    }
    fn metrics(&self) -> Bytes {
        Bytes(self.0)
    }
}

pub type PlainStr = &'static str;
pub type MeasStr = pstr::Measured<'static, Bytes>;
pub type PlainSlice = &'static [u32];
pub type MeasSlice = slice::Measured<'static, u32, usize>;

carrier!(PlainStr, str, |s| item_of_byte(text_len() - s.len()), typed);
carrier!(MeasStr, str, |s| item_of_byte(s.metrics().0));
carrier!(PlainSlice, [u32], |s| total() - s.len());
carrier!(MeasSlice, [u32], |s| s.metrics());
carrier!(ChunkStr, str, |s| item_of_byte(s.pos));
carrier!(ChunkSlice, [u32], |s| s.pos, typed);

pub fn meas_str() -> MeasStr {
    IntoMeasured::into_measured_with::<Bytes>(base().text, BytesMeter(0))
}
pub fn meas_slice() -> MeasSlice {
    IntoMeasured::into_measured_with::<usize>(base().items, 0)
}

/// An input delivered in pieces, possibly with waiting.
pub struct Chunk<K: ?Sized + 'static> {
    base: &'static K,
    pos: usize,
    plan: Rc<Plan>,
}
pub type ChunkStr = Chunk<str>;
pub type ChunkSlice = Chunk<[u32]>;

pub struct Plan {
    cuts: Vec<usize>, // sorted raw offsets, the last one = length; repeated ones make empty pieces
    wait: Cell<u64>,  // 0: never wait; otherwise state of the generator that decides when to wait
    empty_tail: bool, // shows an empty piece at the very end
}
impl Plan {
    fn waits(&self) -> u32 {
        let w = self.wait.get();
        if w == 0 {
            return 0;
        }
        let w = w.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        self.wait.set(w);
        ((w >> 33) % 3) as u32
    }
}

impl<K: ?Sized + Kind> Chunk<K> {
    /// cut points in items
    pub fn new(base: &'static K, cut_items: &[usize], wait: u64, empty_tail: bool) -> Self {
        let mut cuts: Vec<usize> =
            cut_items.iter().map(|i| K::to_raw(K::delta(0, *i))).collect();
        cuts.push(base.raw_len());
        cuts.sort();
        Chunk { base, pos: 0, plan: Rc::new(Plan { cuts, wait: Cell::new(wait), empty_tail }) }
    }
}

pub struct Anchored {
    pos: usize,
}
struct Wait<T> {
    n: u32,
    v: Option<T>,
}
impl<T> Unpin for Wait<T> {}
impl<T> Future for Wait<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if self.n > 0 {
            self.n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.v.take().expect("polled after completion"))
    }
}

pub struct Pieces<'a, K: ?Sized + 'static> {
    seq: &'a Chunk<K>,
    at: usize,
    cut: usize,
    tail: bool,
}
impl<'s, K: ?Sized + Kind> SegmentStream for Pieces<'s, K> {
    type Length = K::Length;
    type Segment = K;
    type Next<'b>
        = Pin<Box<dyn Future<Output = Option<&'b K>> + 'b>>
    where
        Self: 'b;
    fn next(&mut self, _: K::Length) -> Self::Next<'_> {
        let cuts = &self.seq.plan.cuts;
        while self.cut < cuts.len() && cuts[self.cut] < self.at {
            self.cut += 1;
        }
        let v = if self.cut < cuts.len() && !(cuts[self.cut] == self.at && self.cut + 1 == cuts.len() && !self.seq.plan.empty_tail) {
            let a = self.at;
            self.at = cuts[self.cut];
            self.cut += 1;
            Some(self.seq.base.slice(a, self.at))
        } else if self.tail {
            self.tail = false;
            Some(self.seq.base.slice(self.at, self.at))
        } else {
            None
        };
        Box::pin(Wait { n: self.seq.plan.waits(), v: Some(v) })
    }
}

impl<K: ?Sized + Kind> Sequence for Chunk<K> {
    type Length = K::Length;
    type Segment = K;
    type Segments<'a> = Pieces<'a, K>;
    type Advance = Fut<'static, Self>;
    fn segments(&mut self) -> Pieces<'_, K> {
        Pieces { at: self.pos, cut: 0, tail: self.plan.empty_tail, seq: self }
    }
    fn advance(mut self, delta: K::Length) -> Self::Advance {
        let d = K::to_raw(delta);
        self.pos = (self.pos + d).min(self.base.raw_len());
        let n = self.plan.waits();
        Box::pin(Wait { n, v: Some(self) })
    }
}
impl<K: ?Sized + Kind> RewindSequence for Chunk<K> {
    type Anchor = Anchored;
    type Rewind = Fut<'static, Self>;
    fn anchor(&self) -> Anchored {
        Anchored { pos: self.pos }
    }
    fn rewind(mut self, a: Anchored) -> Self::Rewind {
        assert!(a.pos <= self.pos, "rewound forwards");
        self.pos = a.pos;
        let n = self.plan.waits();
        Box::pin(Wait { n, v: Some(self) })
    }
}
