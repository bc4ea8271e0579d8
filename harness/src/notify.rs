//! Programs of waits, polls and sends on one notifier, run under every schedule.
use crate::sched::{self, Job, Opts};
use crate::util::*;
use parcom_internals::future::notify::{Notify, Wait};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Ev {
    WaitB,
    WaitE(usize),
    PollB(usize, usize, i64),
    PollE(usize, bool),
    SendB(usize),
    SendE(usize),
    SendX(usize),
    Wake(i64),
    Gone(usize),
    Stuck,
    Panic(String),
    End,
}
fn show(e: &Ev) -> Value {
    match e {
        Ev::WaitB => json!({"e": "wait_b"}),
        Ev::WaitE(k) => json!({"e": "wait_e", "k": k}),
        Ev::PollB(k, w, t) => json!({"e": "poll_b", "k": k, "w": w, "t": t}),
        Ev::PollE(k, r) => json!({"e": "poll_e", "k": k, "ready": r}),
        Ev::SendB(s) => json!({"e": "send_b", "s": s}),
        Ev::SendE(s) => json!({"e": "send_e", "s": s}),
        Ev::SendX(s) => json!({"e": "send_x", "s": s}),
        Ev::Wake(t) => json!({"e": "wake", "t": t}),
        Ev::Gone(k) => json!({"e": "gone", "k": k}),
        Ev::Stuck => json!({"e": "stuck"}),
        Ev::Panic(t) => json!({"e": "panic", "what": t}),
        Ev::End => json!({"e": "end"}),
    }
}
#[derive(Default)]
struct Log {
    ev: Vec<Ev>,
    waits: usize,
    wakers: usize,
    sends: usize,
}
#[derive(Clone)]
struct World {
    kept: Arc<Mutex<Vec<Vec<MyWait>>>>,
    n: Arc<Notify>,
    log: Arc<Mutex<Log>>,
    /// wakers of tasks, each for all polls of a task
    tasks: Arc<Mutex<std::collections::HashMap<u64, Waker>>>,
}
#[derive(Clone, Copy, PartialEq)]
enum Act {
    None,
    Send,
    Wait,
    Panic,
}
struct MyWaker {
    t: i64,
    act: Act,
    once: std::sync::atomic::AtomicBool,
    world: World,
}
impl Wake for MyWaker {
    fn wake(self: Arc<Self>) {
        self.world.log.lock().unwrap().ev.push(Ev::Wake(self.t));
        if self.once.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return;
        }
        match self.act {
            Act::None => {}
            Act::Send => self.world.send(),
            Act::Wait => {
                let mut w = self.world.wait();
                self.world.poll(&mut w, Act::None, 0);
                self.world.kept.lock().unwrap().push(vec![w]);
            }
            Act::Panic => std::panic::panic_any("a waker panics"),
        }
    }
}
type MyWait = (usize, Pin<Box<Wait<'static>>>);
impl World {
    fn new() -> Self {
        World { kept: Default::default(), n: Arc::new(Notify::new()), log: Default::default(), tasks: Default::default() }
    }
    fn send(&self) {
        self.sends(1)
    }
    /// many sends in one go look like one long send
    fn sends(&self, n: usize) {
        sched::point();
        let s = {
            let mut l = self.log.lock().unwrap();
            l.sends += 1;
            let s = l.sends;
            l.ev.push(Ev::SendB(s));
            s
        };
        struct Done<'a>(&'a World, usize);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                let e = if std::thread::panicking() { Ev::SendX(self.1) } else { Ev::SendE(self.1) };
                self.0.log.lock().unwrap().ev.push(e);
            }
        }
        let d = Done(self, s);
        for _ in 0..n {
            self.n.send();
        }
        drop(d);
    }
    fn wait(&self) -> MyWait {
        sched::point();
        let k = {
            let mut l = self.log.lock().unwrap();
            l.waits += 1;
            l.ev.push(Ev::WaitB);
            l.waits
        };
        // the notifier outlives all waits of a run
        let n: &'static Notify = unsafe { &*Arc::as_ptr(&self.n) };
        let w = n.wait();
        self.log.lock().unwrap().ev.push(Ev::WaitE(k));
        (k, Box::pin(w))
    }
    /// task: whose waker it is polled with; 0: one of its own
    fn poll(&self, w: &mut MyWait, act: Act, task: u64) -> bool {
        sched::point();
        let id = {
            let mut l = self.log.lock().unwrap();
            l.wakers += 1;
            let id = l.wakers;
            l.ev.push(Ev::PollB(w.0, id, if task == 0 { id as i64 } else { -(task as i64) }));
            id
        };
        let make = |t: i64| Waker::from(Arc::new(MyWaker { t, act, once: Default::default(), world: self.clone() }));
        let waker = match task {
            0 => make(id as i64),
            _ => self.tasks.lock().unwrap().entry(task).or_insert_with(|| make(-(task as i64))).clone(),
        };
        let r = w.1.as_mut().poll(&mut Context::from_waker(&waker)).is_ready();
        self.log.lock().unwrap().ev.push(Ev::PollE(w.0, r));
        r
    }
    /// runs a script; waits are numbered by the script
    fn script(&self, ops: &[Op], waits: &mut Vec<MyWait>) {
        for op in ops {
            match op {
                Op::Wait => waits.push(self.wait()),
                Op::Send => {
                    let _ = catch_quiet(|| self.send());
                }
                Op::Sends(n) => {
                    let _ = catch_quiet(|| self.sends(*n));
                }
                Op::Poll(i, a, t) => {
                    if let Some(w) = waits.get_mut(*i) {
                        self.poll(w, *a, *t);
                    }
                }
                Op::Forget(i) => {
                    if *i < waits.len() {
                        // the wait is gone; its number stays taken
                        self.log.lock().unwrap().ev.push(Ev::Gone(waits[*i].0));
                        waits.remove(*i);
                    }
                }
            }
        }
    }
}
fn catch_quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        match p.downcast_ref::<&str>() {
            Some(&"a waker panics") => String::new(),
            _ => std::panic::resume_unwind(p),
        }
    })
}
#[derive(Clone, Copy)]
enum Op {
    Wait,
    Send,
    Sends(usize),
    Poll(usize, Act, u64),
    Forget(usize),
}
fn ops(v: &Value) -> Vec<Op> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let i = o["i"].as_u64().unwrap_or(0) as usize;
            match o["o"].as_str().unwrap() {
                "wait" => Op::Wait,
                "send" => Op::Send,
                "sends" => Op::Sends(o["n"].as_u64().unwrap() as usize),
                "forget" => Op::Forget(i),
                "poll" => Op::Poll(
                    i,
                    match o["a"].as_str().unwrap_or("none") {
                        "send" => Act::Send,
                        "wait" => Act::Wait,
                        "panic" => Act::Panic,
                        _ => Act::None,
                    },
                    o["t"].as_u64().unwrap_or(0),
                ),
                x => panic!("unknown op {x}"),
            }
        })
        .collect()
}

/// all distinct histories of a program
pub fn run(case: &Value, o: Opts) -> (usize, bool, Vec<Value>) {
    let setup = ops(&case["setup"]);
    let threads: Vec<Vec<Op>> = case["threads"].as_array().unwrap().iter().map(ops).collect();
    // waits made in the setup are given to threads
    let give: Vec<usize> = case["give"].as_array().map_or(vec![], |g| g.iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let mut seen: HashSet<Vec<Ev>> = HashSet::new();
    let mut out = vec![];
    let _ = catch(|| ()); // installs the panic hook
    let current: std::cell::RefCell<Option<World>> = std::cell::RefCell::new(None);
    let mut make = || -> Vec<Job> {
        let world = World::new();
        let mut waits: Vec<MyWait> = vec![];
        world.script(&setup, &mut waits);
        let mut per: Vec<Vec<MyWait>> = threads.iter().map(|_| vec![]).collect();
        for (w, t) in waits.into_iter().zip(give.iter().copied().chain(std::iter::repeat(0))) {
            per[t].push(w);
        }
        let jobs: Vec<Job> = threads
            .iter()
            .cloned()
            .zip(per)
            .map(|(ops, mut waits)| {
                let world = world.clone();
                Box::new(move || {
                    let r = catch(|| world.script(&ops, &mut waits));
                    // they last until all is over
                    world.kept.lock().unwrap().push(std::mem::take(&mut waits));
                    if let Err(t) = r {
                        world.log.lock().unwrap().ev.push(Ev::Panic(t));
                    }
                }) as Job
            })
            .collect();
        *current.borrow_mut() = Some(world);
        jobs
    };
    let mut after = |stuck: bool| {
        let world = current.borrow_mut().take().unwrap();
        let mut ev = std::mem::take(&mut world.log.lock().unwrap().ev);
        if stuck {
            ev.push(Ev::Stuck);
            std::mem::forget(world); // threads may still be in there
        } else {
            ev.push(Ev::End);
            world.kept.lock().unwrap().clear();
            let tasks = std::mem::take(&mut *world.tasks.lock().unwrap());
            drop(tasks);
        }
        if !seen.contains(&ev) {
            out.push(json!(ev.iter().map(show).collect::<Vec<_>>()));
            seen.insert(ev);
        }
        !stuck
    };
    let f = sched::explore(&mut make, &mut after, o);
    (f.runs, f.complete, out)
}

/// polls of an optional future around a scripted one
pub fn option(case: &Value) -> Vec<Value> {
    use parcom_internals::future::option_future::OptionFuture;
    use std::task::Poll;
    struct Name(usize, Arc<Mutex<Vec<usize>>>);
    impl Wake for Name {
        fn wake(self: Arc<Self>) {
            self.1.lock().unwrap().push(self.0);
        }
    }
    struct Inner {
        left: u64,
        value: u64,
        wakes: bool,
        seen: Arc<Mutex<Vec<usize>>>,
        woken: Arc<Mutex<Vec<usize>>>,
        _pin: std::marker::PhantomPinned,
    }
    impl Future for Inner {
        type Output = Box<u64>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Box<u64>> {
            let this = unsafe { self.get_unchecked_mut() };
            // which waker this is: the one called when it is called
            let before: Vec<usize> = std::mem::take(&mut *this.woken.lock().unwrap());
            cx.waker().wake_by_ref();
            this.seen.lock().unwrap().extend(this.woken.lock().unwrap().drain(..));
            *this.woken.lock().unwrap() = before;
            if this.left == 0 {
                return Poll::Ready(Box::new(this.value));
            }
            this.left -= 1;
            if this.wakes {
                cx.waker().wake_by_ref();
            }
            Poll::Pending
        }
    }
    let seen = Arc::new(Mutex::new(vec![]));
    let woken = Arc::new(Mutex::new(vec![]));
    let f = if case["some"].as_bool().unwrap() {
        OptionFuture::some(Inner {
            left: case["pend"].as_u64().unwrap(),
            value: case["value"].as_u64().unwrap(),
            wakes: case["wakes"].as_bool().unwrap(),
            seen: seen.clone(),
            woken: woken.clone(),
            _pin: std::marker::PhantomPinned,
        })
    } else {
        OptionFuture::none()
    };
    let mut f = Box::pin(f);
    let mut ev = vec![];
    for w in 1..=case["polls"].as_u64().unwrap() as usize {
        let waker = Waker::from(Arc::new(Name(w, woken.clone())));
        let r = catch(|| f.as_mut().poll(&mut Context::from_waker(&waker)));
        let result = match r {
            Err(t) => {
                ev.push(json!({"e": "panic", "what": t}));
                break;
            }
            Ok(Poll::Pending) => json!(["pending"]),
            Ok(Poll::Ready(None)) => json!(["none"]),
            Ok(Poll::Ready(Some(v))) => json!(["some", *v]),
        };
        ev.push(json!({"e": "poll", "w": w, "result": result,
            "inside": std::mem::take(&mut *seen.lock().unwrap()), "woken": std::mem::take(&mut *woken.lock().unwrap())}));
    }
    ev
}
