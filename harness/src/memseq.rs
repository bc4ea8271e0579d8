//! Histories of in-memory inputs: strings and slices, plain and measured.
use crate::util::*;
use parcom_core::measured::{IntoMeasured, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::{MeasuredSequence, PeekableSequence, RewindSequence, SegmentStream, Sequence, SequenceSegment, UnknownLocation};
use serde_json::{json, Value};
use std::future::IntoFuture;

fn now<F: IntoFuture>(f: F) -> F::Output {
    block_on(f.into_future()).unwrap()
}

/// A metric that is everything the meter was fed.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Log(Vec<u64>);
#[derive(Debug, Default, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct LogMeter(Vec<u64>);
thread_local! {
    /// characters of the current case, in order
    static CHARS: std::cell::RefCell<Vec<char>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn units(s: &str) -> Vec<u64> {
    CHARS.with(|c| {
        let c = c.borrow();
        s.chars().map(|x| c.iter().position(|y| *y == x).map_or(999, |i| i as u64 + 1)).collect()
    })
}
impl Meter<str> for LogMeter {
    type Metrics = Log;
    fn advance(mut self, s: &str) -> Self {
        self.0.extend(units(s));
        self
    }
    fn metrics(&self) -> Log {
        Log(self.0.clone())
    }
}
impl Metrics<str> for Log {
    type Meter = LogMeter;
}
impl<T: Unit> Meter<[T]> for LogMeter {
    type Metrics = Log;
    fn advance(mut self, s: &[T]) -> Self {
        self.0.extend(s.iter().map(|x| x.num()));
        self
    }
    fn metrics(&self) -> Log {
        Log(self.0.clone())
    }
}
impl<T: Unit> Metrics<[T]> for Log {
    type Meter = LogMeter;
}

pub trait Unit: 'static {
    fn from(n: u64) -> Self;
    fn num(&self) -> u64;
}
impl Unit for u8 {
    fn from(n: u64) -> u8 {
        n as u8
    }
    fn num(&self) -> u64 {
        *self as u64
    }
}
impl Unit for u64 {
    fn from(n: u64) -> u64 {
        n << 33
    }
    fn num(&self) -> u64 {
        *self >> 33
    }
}
impl Unit for String {
    fn from(n: u64) -> String {
        format!("{n}")
    }
    fn num(&self) -> u64 {
        self.parse().unwrap_or(999)
    }
}
impl Unit for (u8, u16, [u8; 3]) {
    fn from(n: u64) -> Self {
        (n as u8, 500 + n as u16, [n as u8; 3])
    }
    fn num(&self) -> u64 {
        self.1 as u64 - 500
    }
}
impl Unit for () {
    fn from(_: u64) {}
    fn num(&self) -> u64 {
        0
    }
}

/// what the driver needs to know of an input
trait Input: Sequence + Sized {
    /// length of the next n units
    fn len_of(&self, n: usize) -> Self::Length;
    fn ids(s: &Self::Segment) -> Vec<u64>;
    fn hint() -> Self::Length;
    fn split(&mut self, n: usize, inside: bool, e: &mut Value);
    fn metric(&self, _e: &mut Value, _key: &str) {}
    /// advancing a copy on the side
    fn side(&mut self, n: usize, e: &mut Value);
}
fn read<S: Input>(s: &mut S) -> Vec<u64> {
    let mut out = vec![];
    let mut st = s.segments();
    for k in 0.. {
        assert!(k < 1000, "endless segments");
        match block_on(st.next(S::hint())).unwrap() {
            Some(x) => out.extend(S::ids(x)),
            None => break,
        }
    }
    out
}
/// splits where told, checked and, where it can be done, unchecked
fn halves<G: ?Sized + SequenceSegment>(g: &G, mid: G::Length, again: G::Length, e: &mut Value, ids: fn(&G) -> Vec<u64>) {
    let r = g.split_at_checked(mid);
    e["fits"] = json!(r.is_some());
    if let Some((l, r)) = r {
        e["left"] = json!(ids(l));
        e["right"] = json!(ids(r));
        let (l2, r2) = g.split_at(again);
        e["agree"] = json!(ids(l2) == ids(l) && ids(r2) == ids(r));
    }
}
fn split_str<S: Sequence<Segment = str, Length = BytesDelta>>(s: &mut S, n: usize, inside: bool, e: &mut Value) {
    let text = content(s);
    let mut len = bytes(&text, n);
    // within the next character, where it has an inside; else as told
    let wide = inside && n < FAR && text.chars().nth(n).is_some_and(|c| c.len_utf8() > 1);
    if wide {
        let c = text.chars().nth(n).unwrap().len_utf8();
        len = BytesDelta::from_bytes(len.to_bytes() + 1 + n % (c - 1));
    }
    e["inside"] = json!(wide);
    let mut st = s.segments();
    let g = block_on(st.next(BytesDelta::ZERO)).unwrap().expect("no segment");
    halves(g, len, len, e, units);
}
fn split_slice<T: Unit, S: Sequence<Segment = [T], Length = usize>>(s: &mut S, n: usize, e: &mut Value) {
    e["inside"] = json!(false);
    let n = if n >= FAR { FAR_BYTES[n - FAR] } else { n };
    let mut st = s.segments();
    let g = block_on(st.next(0)).unwrap().expect("no segment");
    halves(g, n, n, e, |g| g.iter().map(|x| x.num()).collect());
}
fn touch<S: Input>(s: &mut S) {
    let mut st = s.segments();
    let _ = block_on(st.next(S::hint())).unwrap();
}

// lengths of strings are in bytes, beyond the end each further unit counts one
// units no input has: standing for amounts far beyond any
const FAR: usize = 10_000_000;
const FAR_BYTES: [usize; 8] = [
    usize::MAX,
    usize::MAX - 1,
    isize::MAX as usize,
    isize::MAX as usize + 1,
    u32::MAX as usize,
    u32::MAX as usize + 1,
    1 << 31,
    1 << 48,
];
fn bytes(s: &str, n: usize) -> BytesDelta {
    if n >= FAR {
        return BytesDelta::from_bytes(FAR_BYTES[n - FAR]);
    }
    let mut b = 0;
    let mut cs = s.chars();
    for _ in 0..n {
        b += cs.next().map_or(1, |c| c.len_utf8());
    }
    BytesDelta::from_bytes(b)
}
impl Input for &'static str {
    fn split(&mut self, n: usize, inside: bool, e: &mut Value) {
        split_str(self, n, inside, e)
    }
    fn len_of(&self, n: usize) -> BytesDelta {
        bytes(self, n)
    }
    fn ids(s: &str) -> Vec<u64> {
        units(s)
    }
    fn hint() -> BytesDelta {
        BytesDelta::ZERO
    }
    fn side(&mut self, n: usize, e: &mut Value) {
        let len = bytes(self, n);
        let mut p = self.peek();
        e["side"] = json!(read(&mut p));
        let mut q = now(p.advance(len));
        e["side2"] = json!(read(&mut q));
    }
}
impl<T: Unit> Input for &'static [T] {
    fn split(&mut self, n: usize, _: bool, e: &mut Value) {
        split_slice(self, n, e)
    }
    fn len_of(&self, n: usize) -> usize {
        n.min(self.len())
    }
    fn ids(s: &[T]) -> Vec<u64> {
        s.iter().map(|x| x.num()).collect()
    }
    fn hint() -> usize {
        0
    }
    fn side(&mut self, n: usize, e: &mut Value) {
        let n = n.min(self.len());
        let mut p = self.peek();
        e["side"] = json!(read(&mut p));
        let mut q = now(p.advance(n));
        e["side2"] = json!(read(&mut q));
    }
}
type MStr<M> = parcom_core::primitive::str::Measured<'static, M>;
type MSlice<T, M> = parcom_core::primitive::slice::Measured<'static, T, M>;
fn content<S: Sequence<Segment = str, Length = BytesDelta>>(s: &mut S) -> String {
    let mut out = String::new();
    let mut st = s.segments();
    while let Some(x) = block_on(st.next(BytesDelta::ZERO)).unwrap() {
        out += x;
        assert!(out.len() < 1_000_000, "endless segments");
    }
    out
}
impl Input for MStr<Log> {
    fn split(&mut self, n: usize, inside: bool, e: &mut Value) {
        split_str(self, n, inside, e)
    }
    fn len_of(&self, n: usize) -> BytesDelta {
        bytes(&content(&mut self.clone()), n)
    }
    fn ids(s: &str) -> Vec<u64> {
        units(s)
    }
    fn hint() -> BytesDelta {
        BytesDelta::ZERO
    }
    fn metric(&self, e: &mut Value, key: &str) {
        e[key] = json!(self.metrics().0);
    }
    fn side(&mut self, n: usize, e: &mut Value) {
        let mut p = self.clone();
        e["side"] = json!(read(&mut p));
        let len = self.len_of(n);
        let mut q = now(p.advance(len));
        e["side2"] = json!(read(&mut q));
        q.metric(e, "metric2");
    }
}
macro_rules! measured_slice {
    ($t:ty, $m:ty, $key:expr, $get:expr) => {
        impl Input for MSlice<$t, $m> {
            fn split(&mut self, n: usize, _: bool, e: &mut Value) {
                split_slice(self, n, e)
            }
            fn len_of(&self, n: usize) -> usize {
                n.min(read(&mut self.clone()).len())
            }
            fn ids(s: &[$t]) -> Vec<u64> {
                s.iter().map(|x| x.num()).collect()
            }
            fn hint() -> usize {
                0
            }
            fn metric(&self, e: &mut Value, key: &str) {
                let get: fn(&$m) -> Value = $get;
                e[key.replace("metric", $key)] = get(&self.metrics());
            }
            fn side(&mut self, n: usize, e: &mut Value) {
                let mut p = self.clone();
                e["side"] = json!(read(&mut p));
                let len = self.len_of(n);
                let mut q = now(p.advance(len));
                e["side2"] = json!(read(&mut q));
                q.metric(e, "metric2");
            }
        }
    };
}
measured_slice!(u8, Log, "metric", |m| json!(m.0));
measured_slice!(String, Log, "metric", |m| json!(m.0));
measured_slice!((), Log, "metric", |m| json!(m.0));
measured_slice!(u64, usize, "count", |m| json!(m));

fn drive<S: Input + RewindSequence>(s: S, cmds: &[Value], ev: &std::cell::RefCell<Vec<Value>>) {
    let mut s = s;
    let mut anchors = vec![];
    for cmd in cmds {
        let op = cmd["op"].as_str().unwrap();
        let n = cmd["n"].as_u64().unwrap_or(0) as usize;
        let mut e = json!({"e": op});
        match op {
            "adv" => {
                e["n"] = json!(n);
                let len = s.len_of(n);
                s = now(s.advance(len));
            }
            "read" => touch(&mut s),
            "peek" => {
                e["n"] = json!(n);
                s.side(n, &mut e);
            }
            "split" => {
                e["n"] = json!(n);
                s.split(n, cmd["inside"].as_bool().unwrap(), &mut e);
            }
            "anchor" => anchors.push(s.anchor()),
            "rewind" => {
                let i = cmd["i"].as_u64().unwrap() as usize;
                e["i"] = json!(i);
                let a = anchors.remove(i - 1);
                // as it is, or as what a failed parse leaves
                s = match ev.borrow().len() % 3 {
                    0 => block_on(s.rewind(a)).unwrap(),
                    1 => block_on(UnknownLocation::from(s).rewind(a)).unwrap(),
                    _ => {
                        let left: UnknownLocation<S> = s.into();
                        let _ = left.as_ref();
                        block_on(unsafe { left.unwrap() }.rewind(a)).unwrap()
                    }
                };
            }
            _ => panic!("unknown command {op}"),
        }
        s.metric(&mut e, "metric");
        e["content"] = json!(read(&mut s));
        s.metric(&mut e, "metric");
        ev.borrow_mut().push(e);
    }
}

pub const CARRIERS: [&str; 11] = ["str", "u8", "u64", "string", "tuple", "unit", "mstr", "mu8", "mstring", "munit", "mu64"];

/// one line per carrier
pub fn run(case: &Value, carrier: &str, seed: u64) -> Value {
    // long contents are told by how they are made, and views of them by where they begin
    let gen = case["gen"].as_array().map(|g| g.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>());
    let full: Vec<u64> = match &gen {
        Some(g) => {
            let mut r = Rng::new(g[2]);
            (0..g[0]).map(|_| r.below(g[1] as usize) as u64 + 1).collect()
        }
        None => case["full"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
    };
    let cmds = case["cmds"].as_array().unwrap();
    let ev = std::cell::RefCell::new(vec![]);
    // which character stands for a unit
    let mut chars: Vec<char> = "a\u{0}é\u{7ff}あ\u{ffff}😀\u{10ffff}\r\nz".chars().collect();
    let mut rng = Rng::new(seed);
    for i in (1..chars.len()).rev() {
        chars.swap(i, rng.below(i + 1));
    }
    let text: String = full.iter().map(|u| chars[*u as usize - 1]).collect();
    CHARS.with(|c| *c.borrow_mut() = chars);
    let start: Vec<u64> = (0..rng.below(3) as u64).map(|x| x + 40).collect();
    let mut used: Vec<u64> = vec![];
    let mut shown = full.clone();
    let text: &'static str = Box::leak(text.into_boxed_str());
    fn slice<T: Unit>(f: &[u64]) -> &'static [T] {
        Box::leak(f.iter().map(|x| T::from(*x)).collect::<Vec<T>>().into_boxed_slice())
    }
    let r = catch(|| match carrier {
        "str" => drive(text, cmds, &ev),
        "u8" => drive(slice::<u8>(&full), cmds, &ev),
        "u64" => drive(slice::<u64>(&full), cmds, &ev),
        "string" => drive(slice::<String>(&full), cmds, &ev),
        "tuple" => drive(slice::<(u8, u16, [u8; 3])>(&full), cmds, &ev),
        "unit" => drive(slice::<()>(&full), cmds, &ev),
        // the meter that is there anyway, when nothing was fed
        "mstr" if start.is_empty() => drive(text.into_measured::<Log>(), cmds, &ev),
        "mu8" if start.is_empty() => drive(slice::<u8>(&full).into_measured::<Log>(), cmds, &ev),
        "mu64" if start.is_empty() => drive(slice::<u64>(&full).into_measured::<usize>(), cmds, &ev),
        "mstr" => drive(text.into_measured_with::<Log>(LogMeter(start.clone())), cmds, &ev),
        "mu8" => drive(slice::<u8>(&full).into_measured_with::<Log>(LogMeter(start.clone())), cmds, &ev),
        "mstring" => drive(slice::<String>(&full).into_measured_with::<Log>(LogMeter(start.clone())), cmds, &ev),
        "munit" => drive(slice::<()>(&full).into_measured_with::<Log>(LogMeter(start.clone())), cmds, &ev),
        "mu64" => drive(slice::<u64>(&full).into_measured_with::<usize>(start.len()), cmds, &ev),
        _ => panic!("unknown carrier"),
    });
    if carrier.starts_with('m') {
        used = start;
    }
    if carrier.ends_with("unit") {
        shown = vec![0; full.len()];
    }
    let mut ev = ev.into_inner();
    if gen.is_some() {
        let ids = |v: &Value| -> Option<Vec<u64>> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()) };
        for e in ev.iter_mut() {
            if let (Some(l), Some(r)) = (ids(&e["left"]), ids(&e["right"])) {
                let all = [l, r.clone()].concat();
                for (to, v) in [("at0", all), ("at", r)] {
                    e[to] = json!(if shown.ends_with(&v) { (shown.len() - v.len()) as i64 } else { -1 });
                }
                e.as_object_mut().unwrap().remove("left");
                e.as_object_mut().unwrap().remove("right");
            }
            for (from, to) in [("content", "c"), ("side", "s"), ("side2", "s2")] {
                if let Some(v) = ids(&e[from]) {
                    e[to] = json!(if shown.ends_with(&v) { (shown.len() - v.len()) as i64 } else { -1 });
                }
                e.as_object_mut().unwrap().remove(from);
            }
            for (from, to) in [("metric", "m"), ("metric2", "m2")] {
                if let Some(v) = ids(&e[from]) {
                    let ok = v.starts_with(&used) && shown.starts_with(&v[used.len().min(v.len())..]);
                    e[to] = json!(if ok { (v.len() - used.len()) as i64 } else { -1 });
                }
                e.as_object_mut().unwrap().remove(from);
            }
        }
    }
    if let Err(t) = r {
        ev.push(json!({"e": "panic", "what": t}));
    }
    let (size, brief) = (full.len(), gen.is_some());
    let (shown, full) = if brief { (vec![], vec![]) } else { (shown, full) };
    json!({"size": size, "brief": brief, "gen": gen, "full": shown, "units": full, "cmds": cmds, "carrier": carrier, "measured": carrier.starts_with('m'), "start": used, "seed": seed, "ev": ev})
}
