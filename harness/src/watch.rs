//! An allocator that, while tracking is on, records every request, surrounds blocks with guard bytes and
//! keeps released blocks, so that writes outside a block or to a released one become visible.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;
const MAX: usize = 512;
const GUARD: u8 = 0xCB;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0xDE;

#[derive(Clone, Copy)]
struct Block {
    start: usize, // of the surrounding allocation
    body: usize,
    size: usize,
    align: usize,
    live: bool,
}
#[derive(Clone, Copy)]
enum Req {
    Alloc { b: usize, size: usize, al: usize },
    Free { b: usize, size: usize, al: usize },
    Realloc { b: usize, size: usize, al: usize, to: usize, tosize: usize },
}
struct Table {
    blocks: [Block; MAX],
    n: usize,
    log: [Req; MAX],
    logged: usize,
    harm: usize,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TABLE: Cell<*mut Table> = const { Cell::new(std::ptr::null_mut()) };
}
fn pad(al: usize) -> usize {
    al.max(64)
}
/// whether n bytes all have one value
pub fn all(p: *const u8, n: usize, v: u8) -> bool {
    let p = std::hint::black_box(p);
    let pattern = [v; 64];
    let bytes = unsafe { std::slice::from_raw_parts(p, n) };
    bytes.chunks(64).all(|c| *c == pattern[..c.len()])
}
impl Table {
    unsafe fn get(&mut self, size: usize, al: usize) -> (usize, *mut u8) {
        if self.n == MAX {
            return (0, std::ptr::null_mut());
        }
        let p = pad(al);
        let lay = Layout::from_size_align(size + 2 * p, p).unwrap();
        let start = System.alloc(lay);
        std::ptr::write_bytes(start, GUARD, p);
        std::ptr::write_bytes(start.add(p), FRESH, size);
        std::ptr::write_bytes(start.add(p + size), GUARD, p);
        self.blocks[self.n] = Block { start: start as usize, body: start as usize + p, size, align: al, live: true };
        self.n += 1;
        (self.n, start.add(p))
    }
    fn find(&self, ptr: usize) -> usize {
        (0..self.n).rev().find(|i| self.blocks[*i].body == ptr).map_or(0, |i| i + 1)
    }
    fn log(&mut self, r: Req) {
        if self.logged < MAX {
            self.log[self.logged] = r;
            self.logged += 1;
        }
    }
    unsafe fn guards(&self, b: &Block) -> bool {
        let p = pad(b.align);
        let all = |from: usize, n: usize, v: u8| all(from as *const u8, n, v);
        all(b.start, p, GUARD) && all(b.body + b.size, p, GUARD) && (b.live || all(b.body, b.size, FREED))
    }
    unsafe fn end(&mut self, i: usize) {
        if !self.guards(&self.blocks[i - 1]) {
            self.harm += 1;
        }
        let b = &mut self.blocks[i - 1];
        b.live = false;
        std::ptr::write_bytes(b.body as *mut u8, FREED, b.size);
    }
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.get() {
            return System.alloc(l);
        }
        let t = &mut *TABLE.get();
        let (b, p) = t.get(l.size(), l.align());
        t.log(Req::Alloc { b, size: l.size(), al: l.align() });
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        if !ON.get() {
            // a panic under tracking allocates its message
            let t = TABLE.get();
            let b = if t.is_null() { 0 } else { (*t).find(ptr as usize) };
            return if b == 0 { System.dealloc(ptr, l) } else { (*t).end(b) };
        }
        let t = &mut *TABLE.get();
        let b = t.find(ptr as usize);
        t.log(Req::Free { b, size: l.size(), al: l.align() });
        if b > 0 && t.blocks[b - 1].live {
            t.end(b);
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.get() {
            let t = TABLE.get();
            if t.is_null() || (*t).find(ptr as usize) == 0 {
                return System.realloc(ptr, l, new);
            }
            let to = System.alloc(Layout::from_size_align(new, l.align()).unwrap());
            std::ptr::copy_nonoverlapping(ptr, to, l.size().min(new));
            self.dealloc(ptr, l);
            return to;
        }
        let t = &mut *TABLE.get();
        let b = t.find(ptr as usize);
        let (to, p) = t.get(new, l.align());
        t.log(Req::Realloc { b, size: l.size(), al: l.align(), to, tosize: new });
        if b > 0 && t.blocks[b - 1].live && !p.is_null() {
            std::ptr::copy_nonoverlapping(ptr, p, t.blocks[b - 1].size.min(new));
            t.end(b);
        }
        p
    }
}

pub fn off() {
    ON.set(false);
}
/// runs `f` with tracking off
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.replace(false);
    let r = f();
    ON.set(was);
    r
}
/// forgets all blocks
pub fn reset() {
    ON.set(false);
    unsafe {
        if TABLE.get().is_null() {
            let b = Block { start: 0, body: 0, size: 0, align: 1, live: false };
            TABLE.set(Box::into_raw(Box::new(Table { blocks: [b; MAX], n: 0, log: [Req::Alloc { b: 0, size: 0, al: 0 }; MAX], logged: 0, harm: 0 })));
        }
        let t = &mut *TABLE.get();
        for i in 0..t.n {
            let b = t.blocks[i];
            let p = pad(b.align);
            System.dealloc(b.start as *mut u8, Layout::from_size_align(b.size + 2 * p, p).unwrap());
        }
        t.n = 0;
        t.logged = 0;
        t.harm = 0;
    }
}
/// runs `f` with tracking on
pub fn track<T>(f: impl FnOnce() -> T) -> T {
    ON.set(true);
    let r = f();
    ON.set(false);
    r
}
/// requests since the last call
pub fn requests() -> Vec<Value> {
    let t = unsafe { &mut *TABLE.get() };
    let out = t.log[..t.logged]
        .iter()
        .map(|r| match *r {
            Req::Alloc { b, size, al } => json!({"k": "alloc", "b": b, "size": size, "al": al}),
            Req::Free { b, size, al } => json!({"k": "free", "b": b, "size": size, "al": al}),
            Req::Realloc { b, size, al, to, tosize } => json!({"k": "realloc", "b": b, "size": size, "al": al, "to": to, "tosize": tosize}),
        })
        .collect();
    t.logged = 0;
    out
}
/// forgets requests for blocks that are gone
pub fn forget_gone() {
    let t = unsafe { &mut *TABLE.get() };
    let keep: Vec<Req> = t.log[..t.logged]
        .iter()
        .copied()
        .filter(|r| match *r {
            Req::Alloc { b, .. } | Req::Free { b, .. } => b == 0 || t.blocks[b - 1].live,
            Req::Realloc { to, .. } => to == 0 || t.blocks[to - 1].live,
        })
        .collect();
    t.log[..keep.len()].copy_from_slice(&keep);
    t.logged = keep.len();
}
/// blocks whose guard bytes, or whose bytes after release, were changed
pub fn harm() -> usize {
    let t = unsafe { &mut *TABLE.get() };
    let n = t.harm;
    t.harm = 0;
    n + (0..t.n).filter(|i| unsafe { !t.guards(&t.blocks[*i]) }).count()
}
/// the block an address lies in (or just behind), 0 if none
pub fn block_of(ptr: usize) -> usize {
    let t = unsafe { &mut *TABLE.get() };
    (0..t.n).rev().find(|i| t.blocks[*i].body <= ptr && ptr <= t.blocks[*i].body + t.blocks[*i].size).map_or(0, |i| i + 1)
}
