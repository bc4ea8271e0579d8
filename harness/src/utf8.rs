//! Histories of the UTF-8 validating source, over a control of our own and over the generic sequence.
use crate::genseq::{Errno, Pause, Strat};
use crate::util::*;
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequences::generic::GenericSequenceBuilder;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Waker};

type Events = Rc<RefCell<Vec<Value>>>;

impl<E: Errno> Errno for Utf8ValidationError<E> {
    fn errno(&self) -> u64 {
        match self {
            Utf8ValidationError::InvalidSequence => 1000,
            Utf8ValidationError::Inner(e) => e.errno(),
        }
    }
}

thread_local! {
    /// how many bytes stand for one 'A' of the history
    static UNIT: Cell<usize> = const { Cell::new(1) };
}
fn block(j: usize) -> u8 {
    if j == 0 {
        0x41
    } else {
        (j % 30) as u8 + 1
    }
}
fn widened(bytes: &Value) -> Vec<u8> {
    let u = UNIT.with(|u| u.get());
    let mut out = vec![];
    for b in bytes.as_array().map(|b| b.as_slice()).unwrap_or(&[]) {
        match b.as_u64().unwrap() as u8 {
            0x41 => out.extend((0..u).map(block)),
            b => out.push(b),
        }
    }
    out
}
/// the other way round; what is no whole block becomes a byte the histories do not use
fn narrowed(bytes: &[u8]) -> Vec<u8> {
    let u = UNIT.with(|u| u.get());
    if u == 1 {
        return bytes.to_vec();
    }
    let mut out = vec![];
    let mut i = 0;
    while i < bytes.len() {
        if bytes[i] == 0x41 && i + u <= bytes.len() && (0..u).all(|j| bytes[i + j] == block(j)) {
            out.push(0x41);
            i += u;
        } else {
            // pieces of a block, once
            let odd = bytes[i] <= 31 || bytes[i] == 0x41;
            if !odd {
                out.push(bytes[i]);
            } else if out.last() != Some(&0x00) {
                out.push(0x00);
            }
            i += 1;
        }
    }
    out
}

struct Script {
    cur: Rc<RefCell<Value>>,
    ev: Events,
    /// record what the writer shows
    watch: bool,
}

fn look<W: BufferWriter<Item = u8>>(ev: &Events, w: &mut W, what: &str, more: Value) {
    let items: Vec<u64> = w.as_slice().iter().map(|b| *b as u64 + 1).collect();
    let items2: Vec<u64> = w.as_mut_slice().iter().map(|b| *b as u64 + 1).collect();
    let mut e = json!({"e": what, "len": w.len(), "cap": w.capacity(), "items": items, "items2": items2,
        "spare": w.spare_capacity().len(), "gone": [], "drops": false});
    for (k, v) in more.as_object().unwrap() {
        e[k] = v.clone();
    }
    ev.borrow_mut().push(e);
}

async fn play<C: SequenceControl<Item = u8, Error = u64>>(cmd: Value, ev: Events, watch: bool, control: C) -> C::Result {
    let wait = cmd["wait"].as_u64().unwrap_or(0) as usize;
    Pause(wait).await;
    match (cmd["out"].as_str().unwrap(), cmd["late"].as_str().unwrap_or("")) {
        ("fin", _) => return control.finish(),
        ("ctl", _) => return control.cancel(77),
        // a load given up after the source has said how it ends
        ("abandon", x) if x == "fin" || x == "ctl" => {
            let r = if x == "fin" { control.finish() } else { control.cancel(79) };
            Pause(usize::MAX).await;
            return r;
        }
        _ => {}
    }
    let bytes: Vec<u8> = widened(&cmd["bytes"]);
    let n = bytes.len() + cmd["n"].as_u64().unwrap_or(0) as usize;
    let mut w = control.request_writer(n);
    if watch {
        look(&ev, &mut w, "req", json!({"n": n}));
    }
    let shrink = cmd["junk"].as_u64().unwrap_or(0) as usize;
    let many = bytes.len() > 100;
    let (mut acc, mut rej, mut back, mut late) = (vec![], vec![], vec![], 0);
    for b in &bytes {
        let r = w.push_item(*b);
        if many {
            match r {
                Ok(()) => {
                    acc.push(*b as u64 + 1);
                    late += !rej.is_empty() as usize;
                }
                Err(x) => {
                    rej.push(*b as u64 + 1);
                    back.push(x as u64 + 1);
                }
            }
        } else if watch {
            look(&ev, &mut w, "push", json!({"id": *b as u64 + 1, "back": match r { Ok(()) => 0, Err(b) => b as u64 + 1 }}));
        }
    }
    if many && watch {
        look(&ev, &mut w, "fill", json!({"n": bytes.len(), "acc": acc, "rej": rej, "back": back, "late": late}));
    }
    // written and taken back
    if shrink > 0 && w.len() == bytes.len() {
        let k = shrink.min(w.spare_capacity().len());
        for _ in 0..k {
            let _ = w.push_item(0xFF);
        }
        w.shrink_to(bytes.len());
    }
    Pause(wait).await;
    match cmd["out"].as_str().unwrap() {
        "adv" => w.advance(),
        "cancel" => w.cancel(78),
        _ => {
            // given up before or after the source has said how the load ends
            let res = match cmd["late"].as_str().unwrap_or("") {
                "adv" => w.advance(),
                "cancel" => w.cancel(79),
                _ => {
                    Pause(usize::MAX).await;
                    w.advance()
                }
            };
            Pause(usize::MAX).await;
            res
        }
    }
}

impl SequenceSource for Script {
    type Item = u8;
    type Error = u64;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = u8, Error = u64>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u64>,
    {
        Box::pin(play(self.cur.borrow().clone(), self.ev.clone(), self.watch, control))
    }
}

// ---- a control of our own: hands everything over at once ----
struct OwnControl<'a, E> {
    extra: usize,
    _e: std::marker::PhantomData<fn(&'a u8) -> E>,
}
struct OwnWriter<'a, E> {
    buf: Vec<u8>,
    cap: usize,
    _e: std::marker::PhantomData<fn(&'a u8) -> E>,
}
enum Own<E> {
    /// takes effect when it is received
    Advance(Vec<u8>),
    Finish,
    Cancel(E),
}
impl<'a, E> SequenceControl for OwnControl<'a, E> {
    type Item = u8;
    type Result = Own<E>;
    type Error = E;
    type Writer = OwnWriter<'a, E>;
    fn request_writer(self, n: usize) -> OwnWriter<'a, E> {
        let cap = n + self.extra;
        OwnWriter { buf: Vec::with_capacity(cap), cap, _e: Default::default() }
    }
    fn cancel(self, err: E) -> Own<E> {
        Own::Cancel(err)
    }
    fn finish(self) -> Own<E> {
        Own::Finish
    }
}
impl<'a, E> BufferWriter for OwnWriter<'a, E> {
    type Segment = [u8];
    type Item = u8;
    type Result = Own<E>;
    type Error = E;
    fn capacity(&self) -> usize {
        self.cap
    }
    fn len(&self) -> usize {
        self.buf.len()
    }
    fn as_ptr(&self) -> *const u8 {
        self.buf.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr()
    }
    unsafe fn set_len(&mut self, n: usize) {
        assert!(n <= self.cap, "set_len beyond the capacity");
        self.buf.set_len(n)
    }
    fn advance(self) -> Own<E> {
        Own::Advance(self.buf)
    }
    fn cancel(self, err: E) -> Own<E> {
        Own::Cancel(err)
    }
}

fn result(e: &mut Value, r: Result<&'static str, u64>) {
    match r {
        Ok(x) => e["res"] = json!(x),
        Err(1000) => e["res"] = json!("invalid"),
        Err(x) => {
            e["res"] = json!("inner");
            e["errno"] = json!(x);
        }
    }
}

fn given_up<F: Future>(f: F) {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..32 {
        if f.as_mut().poll(&mut cx).is_ready() {
            panic!("an abandoned load completed");
        }
    }
}

pub fn run(case: &Value) -> Vec<Value> {
    let ev: Events = Rc::new(RefCell::new(vec![]));
    UNIT.with(|u| u.set(case["unit"].as_u64().unwrap_or(1) as usize));
    // where each byte of the history ends
    let mut ends = vec![0usize];
    for c in case["cmds"].as_array().unwrap().iter().filter(|c| c["out"] == "adv") {
        for b in c["bytes"].as_array().unwrap() {
            let k = if b == 0x41 { UNIT.with(|u| u.get()) } else { 1 };
            ends.push(ends.last().unwrap() + k);
        }
    }
    let amount = |n: usize| ends.binary_search(&n).map(|k| k as i64).unwrap_or(-1);
    let r = catch(|| {
        let cur = Rc::new(RefCell::new(Value::Null));
        let watch = case["watch"].as_bool().unwrap_or(true);
        let mut src = Utf8Validator::new(Script { cur: cur.clone(), ev: ev.clone(), watch });
        let cmds = case["cmds"].as_array().unwrap();
        let brief = case["brief"] == true;
        let base = |cmd: &Value| {
            *cur.borrow_mut() = cmd.clone();
            let bytes = if cmd["bytes"].is_array() { cmd["bytes"].clone() } else { json!([]) };
            json!({"e": "load", "out": cmd["out"], "bytes": bytes, "res": "none", "errno": 0})
        };
        if case["ctl"] == "own" {
            let mut to = vec![];
            let extra = case["extra"].as_u64().unwrap_or(0) as usize;
            for cmd in cmds {
                let mut e = base(cmd);
                let f = src.next(OwnControl { extra, _e: Default::default() }, 0);
                if cmd["out"] == "abandon" {
                    given_up(f);
                } else {
                    match block_on(f) {
                        Ok(Own::Advance(x)) => {
                            to.extend(x);
                            result(&mut e, Ok("ok"))
                        }
                        Ok(Own::Finish) => result(&mut e, Ok("done")),
                        Ok(Own::Cancel(x)) => result(&mut e, Err(x.errno())),
                        Err(x) => e["res"] = json!(x),
                    }
                }
                e["deliv"] = json!(if brief { vec![] } else { narrowed(&to) });
                e["total"] = json!(amount(to.len()));
                ev.borrow_mut().push(e);
            }
            ev.borrow_mut().push(json!({"e": "end", "deliv": narrowed(&to), "total": amount(to.len())}));
        } else {
            let (b, mut l) = GenericSequenceBuilder::verif_new(Strat::from(&case["strat"])).build(src);
            let (mut published, mut held) = (0usize, 0usize);
            for cmd in cmds {
                let mut e = base(cmd);
                if cmd["out"] == "abandon" {
                    given_up(l.load());
                } else {
                    match block_on(l.load()) {
                        Ok(Ok(i)) => {
                            published += i.commited();
                            held = i.uncommited();
                            result(&mut e, Ok(if i.is_done() { "done" } else { "ok" }));
                        }
                        Ok(Err(x)) => result(&mut e, Err(x.errno())),
                        Err(x) => e["res"] = json!(x),
                    }
                }
                if cmd["force"] == true {
                    l.force_commit();
                    published += held;
                    held = 0;
                }
                e["deliv"] = json!(narrowed(&b.segments().flatten().copied().take(if brief { 0 } else { usize::MAX }).collect::<Vec<u8>>()));
                e["total"] = json!(amount(published + held));
                ev.borrow_mut().push(e);
            }
            l.force_commit();
            ev.borrow_mut().push(json!({"e": "end", "deliv": narrowed(&b.segments().flatten().copied().collect::<Vec<u8>>()), "total": amount(published + held)}));
        }
    });
    let mut out = std::mem::take(&mut *ev.borrow_mut());
    if let Err(t) = r {
        out.push(json!({"e": "panic", "what": t}));
    }
    out
}
