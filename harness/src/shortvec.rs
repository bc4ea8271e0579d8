//! Histories of the short vector under a recording allocator.
use crate::util::*;
use crate::watch;
use parcom_internals::ShortVec;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::mem::MaybeUninit;

thread_local! {
    static DROPS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
fn dropped(id: u64) {
    watch::aside(|| DROPS.with(|d| d.borrow_mut().push(id)));
}
const DEAD: u64 = 998;
const JUNK: u64 = 999;

/// an item knows its number; a dropped one says so
trait Elem: 'static {
    const DROPS: bool;
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
}
macro_rules! elem {
    ($name:ident, $body:ty, $(#[$a:meta])* | $make:expr, $read:expr, $dead:expr) => {
        $(#[$a])*
        struct $name($body);
        impl Elem for $name {
            const DROPS: bool = true;
            fn make(id: u64) -> Self {
                let f: fn(u64) -> $body = $make;
                $name(f(id))
            }
            fn id(&self) -> u64 {
                let f: fn(&$body) -> u64 = $read;
                f(&self.0)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                dropped(self.id());
                let dead: $body = $dead;
                unsafe { std::ptr::write_volatile(&mut self.0, dead) };
            }
        }
    };
}
fn small(x: u8) -> u64 {
    match x {
        1..=120 => x as u64,
        0xDD => DEAD,
        _ => JUNK,
    }
}
fn wide(x: u64) -> u64 {
    if x >> 8 == 0x00C0FFEE { small(x as u8) } else { JUNK }
}
fn widen(x: u8) -> u64 {
    0x00C0FFEE << 8 | x as u64
}
elem!(One, u8, | |id| id as u8, |x| small(*x), 0xDD);
elem!(Three, [u8; 3], | |id| [id as u8; 3], |x| if x[0] == x[1] && x[1] == x[2] { small(x[1]) } else { JUNK }, [0xDD; 3]);
elem!(Pair, [u64; 2], | |id| [widen(id as u8), !widen(id as u8)], |x| if x[0] == !x[1] { wide(x[0]) } else { JUNK }, [widen(0xDD), !widen(0xDD)]);
elem!(Wide, u64, #[repr(align(64))] | |id| widen(id as u8), |x| wide(*x), widen(0xDD));
elem!(Big, [u64; 33], | |id| [widen(id as u8); 33], |x| if x.iter().all(|y| *y == x[0]) { wide(x[0]) } else { JUNK }, [widen(0xDD); 33]);
elem!(Zero, (), | |_| (), |_| 0, ());
elem!(ZeroWide, (), #[repr(align(64))] | |_| (), |_| 0, ());
impl Elem for u16 {
    const DROPS: bool = false;
    fn make(id: u64) -> u16 {
        0x5A00 | id as u16
    }
    fn id(&self) -> u64 {
        if self >> 8 == 0x5A { small(*self as u8) } else { JUNK }
    }
}
impl Elem for () {
    const DROPS: bool = false;
    fn make(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}

/// the place a vector lives in
#[repr(C)]
struct Slot<T, const N: usize> {
    pre: [u8; 128],
    v: MaybeUninit<ShortVec<T, N>>,
    post: [u8; 128],
}
fn slot<T, const N: usize>() -> Box<Slot<T, N>> {
    let mut s = Box::new(Slot { pre: [0xCB; 128], v: MaybeUninit::uninit(), post: [0xCB; 128] });
    unsafe { std::ptr::write_bytes(s.v.as_mut_ptr() as *mut u8, 0xEE, std::mem::size_of::<ShortVec<T, N>>()) };
    s
}
fn slot_ok<T, const N: usize>(s: &Slot<T, N>, left: bool) -> bool {
    use watch::all;
    all(s.pre.as_ptr(), 128, 0xCB)
        && all(s.post.as_ptr(), 128, 0xCB)
        && (!left || all(s.v.as_ptr() as *const u8, std::mem::size_of::<ShortVec<T, N>>(), 0xEE))
}

fn drive<T: Elem, const N: usize>(cmds: &[Value]) -> Vec<Value> {
    watch::reset();
    DROPS.with(|d| d.borrow_mut().clear());
    let mut here: Box<Slot<T, N>> = slot();
    let mut left: Vec<Box<Slot<T, N>>> = vec![];
    let mut ev = vec![];
    let mut k = 0u64;
    let mut alive = false;
    for cmd in cmds {
        let op = cmd["op"].as_str().unwrap();
        let n = cmd["n"].as_u64().unwrap_or(0) as usize;
        let mut e = json!({"e": op});
        let next = k % 100 + 1;
        let r = catch(|| {
            let v: *mut ShortVec<T, N> = here.v.as_mut_ptr();
            let vec = || unsafe { &mut *v };
            match op {
                "new" => {
                    let x = if n == 0 && cmd["plain"].as_bool().unwrap_or(true) {
                        watch::track(|| ShortVec::<T, N>::new())
                    } else {
                        watch::track(|| ShortVec::<T, N>::with_capacity(n))
                    };
                    unsafe { v.write(x) };
                    alive = true;
                    e["n"] = json!(n);
                }
                "push" => {
                    let x = T::make(next);
                    k += 1;
                    e["id"] = json!(next);
                    watch::track(|| vec().push(x));
                }
                "pop" => {
                    let x = watch::track(|| vec().pop());
                    e["got"] = match &x {
                        Some(x) => json!([x.id()]),
                        None => json!([]),
                    };
                    std::mem::forget(x);
                }
                "pushes" => {
                    // many pushes in one event: numbers go on from the first, 100 is followed by 1
                    let (mut mem, mut when) = (vec![], n);
                    e["first"] = json!(next);
                    e["n"] = json!(n);
                    for i in 0..n {
                        let x = T::make(k % 100 + 1);
                        k += 1;
                        watch::track(|| vec().push(x));
                        let got = watch::requests();
                        if mem.is_empty() && !got.is_empty() {
                            when = i + 1;
                        }
                        mem.extend(got);
                    }
                    e["mem"] = json!(mem);
                    e["when"] = json!(when);
                }
                "pops" => {
                    let mut got = vec![];
                    for _ in 0..n {
                        if let Some(x) = watch::track(|| vec().pop()) {
                            got.push(x.id());
                            std::mem::forget(x);
                        }
                    }
                    e["n"] = json!(n);
                    e["got"] = json!(got);
                }
                "reserve" => {
                    e["n"] = json!(n);
                    watch::track(|| vec().reserve(n));
                }
                "exact" => {
                    e["n"] = json!(n);
                    watch::track(|| vec().reserve_exact(n));
                }
                "set" => {
                    let i = cmd["i"].as_u64().unwrap() as usize;
                    let x = T::make(next);
                    k += 1;
                    e["i"] = json!(i);
                    e["id"] = json!(next);
                    let old = watch::track(|| std::mem::replace(&mut vec().as_slice_mut()[i - 1], x));
                    e["got"] = json!([old.id()]);
                    std::mem::forget(old);
                }
                "move" => {
                    let mut to: Box<Slot<T, N>> = slot();
                    unsafe {
                        std::ptr::copy_nonoverlapping(v, to.v.as_mut_ptr(), 1);
                        std::ptr::write_bytes(v as *mut u8, 0xEE, std::mem::size_of::<ShortVec<T, N>>());
                    }
                    std::mem::swap(&mut here, &mut to);
                    left.push(to);
                }
                "take" => watch::track(|| drop(std::mem::take(vec()))),
                "drop" => {
                    alive = false;
                    watch::track(|| unsafe { std::ptr::drop_in_place(v) });
                    unsafe { std::ptr::write_bytes(v as *mut u8, 0xEE, std::mem::size_of::<ShortVec<T, N>>()) };
                }
                "huge" => {
                    let way = cmd["way"].as_u64().unwrap();
                    let asked = if way % 2 == 0 || std::mem::size_of::<T>() == 1 { usize::MAX } else { isize::MAX as usize - 8 };
                    let refused = catch(|| match way / 2 {
                        0 => watch::track(|| vec().reserve(asked)),
                        1 => watch::track(|| vec().reserve_exact(asked)),
                        _ => std::mem::forget(watch::track(|| ShortVec::<T, N>::with_capacity(asked))),
                    })
                    .is_err();
                    if refused {
                        watch::forget_gone();
                    }
                    e["refused"] = json!(refused);
                }
                _ => panic!("unknown command {op}"),
            }
            if e["mem"].is_null() {
                e["mem"] = json!(watch::requests());
            }
            e["dropped"] = json!(DROPS.with(|d| std::mem::take(&mut *d.borrow_mut())));
            if alive {
                let v = unsafe { here.v.assume_init_mut() };
                let mut views: Vec<Vec<u64>> = vec![v.as_slice().iter().map(|x| x.id()).collect()];
                views.push(v.as_slice_mut().iter().map(|x| x.id()).collect());
                let p = v.as_ptr();
                let len = v.as_slice().len();
                views.push((0..len).map(|i| unsafe { &*p.add(i) }.id()).collect());
                views.dedup(); // equal views are told once
                e["views"] = json!(views);
                e["empty"] = json!(v.is_empty());
                e["aligned"] = json!([p as usize, v.as_slice().as_ptr() as usize, v.as_slice_mut().as_ptr() as usize]
                    .iter()
                    .all(|a| *a % std::mem::align_of::<T>() == 0));
                let at = p as usize;
                let inside = at >= &*here as *const _ as usize && at <= &*here as *const _ as usize + std::mem::size_of::<Slot<T, N>>();
                e["at"] = json!(if inside || std::mem::size_of::<T>() == 0 { 0 } else { match watch::block_of(at) { 0 => 99999, b => b } });
            }
            let mut harm = vec![];
            if watch::harm() > 0 {
                harm.push("a write outside a block, or to a released one");
            }
            if !slot_ok(&here, !alive) || left.iter().any(|s| !slot_ok(s, true)) {
                harm.push("a write outside the vector, or to where it was before a move");
            }
            e["harm"] = json!(harm);
        });
        watch::off();
        match r {
            Ok(()) => ev.push(e),
            Err(t) => {
                ev.push(json!({"e": "panic", "what": t, "at": op}));
                break; // whatever is left is leaked
            }
        }
    }
    ev
}
fn dims<T: Elem>() -> Value {
    json!([std::mem::size_of::<T>(), std::mem::align_of::<T>(), T::DROPS])
}
fn sized<T: Elem>(n: u64, cmds: &[Value]) -> (Value, Vec<Value>) {
    let ev = match n {
        0 => drive::<T, 0>(cmds),
        1 => drive::<T, 1>(cmds),
        2 => drive::<T, 2>(cmds),
        3 => drive::<T, 3>(cmds),
        4 => drive::<T, 4>(cmds),
        5 => drive::<T, 5>(cmds),
        8 => drive::<T, 8>(cmds),
        16 => drive::<T, 16>(cmds),
        33 => drive::<T, 33>(cmds),
        65 => drive::<T, 65>(cmds),
        300 => drive::<T, 300>(cmds),
        _ => panic!("no such inline size"),
    };
    (dims::<T>(), ev)
}
pub const ITEMS: [&str; 9] = ["one", "three", "pair", "wide", "big", "u16", "zero", "zerowide", "unit"];
pub fn zst(item: &str) -> bool {
    matches!(item, "zero" | "zerowide" | "unit")
}
pub fn run(case: &Value, item: &str) -> Value {
    let n = case["n"].as_u64().unwrap();
    let cmds = case["cmds"].as_array().unwrap();
    let (d, ev) = match item {
        "one" => sized::<One>(n, cmds),
        "three" => sized::<Three>(n, cmds),
        "pair" => sized::<Pair>(n, cmds),
        "wide" => sized::<Wide>(n, cmds),
        "big" => sized::<Big>(n, cmds),
        "u16" => sized::<u16>(n, cmds),
        "zero" => sized::<Zero>(n, cmds),
        "zerowide" => sized::<ZeroWide>(n, cmds),
        "unit" => sized::<()>(n, cmds),
        _ => panic!("unknown item"),
    };
    json!({"n": n, "cmds": cmds, "item": item, "isz": d[0], "al": d[1], "drops": d[2], "ev": ev})
}
/// runs each case with the items fitting it, in turn
pub fn all(case: &Value, i: usize, each: usize) -> Vec<Value> {
    if let Some(item) = case["item"].as_str() {
        return vec![run(case, item)];
    }
    let fit: Vec<&str> = ITEMS.iter().copied().filter(|x| case["zst"].is_null() || case["zst"].as_bool() == Some(zst(x))).collect();
    (0..each.min(fit.len())).map(|k| run(case, fit[(i + k) % fit.len()])).collect()
}
