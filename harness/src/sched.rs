//! Runs real threads one at a time, deciding at every scheduling point of the code under test who goes on, and
//! explores the schedules: all of them up to a number of preemptions, or random ones.
use crate::util::Rng;
use parcom_internals::verif;
use std::cell::RefCell;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex, Once};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked, // cannot go on until another thread does something
    Resting, // the same, but it has done something itself before
    Away,    // stuck in the operating system, as far as can be told
    Done,
}
struct State {
    status: Vec<St>,
    /// threads about to try again what blocked them
    retry: Vec<bool>,
    running: Option<usize>,
    steps: u64,
    stuck: bool,
    // decisions of this run: (choice, number of choices)
    path: Vec<(usize, usize)>,
    follow: Vec<usize>,
    last: Option<usize>,
    preemptions: usize,
    bound: usize,
    rng: Option<Rng>,
}
pub struct Ctl {
    st: Mutex<State>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Ctl>, usize)>> = const { RefCell::new(None) };
}
struct Hook;
impl verif::Scheduler for Hook {
    fn point(&self, _label: &'static str) {
        // a drop during thread exit may come here
        let me = ME.try_with(|m| m.borrow().clone()).ok().flatten();
        if let Some((c, t)) = me {
            c.give_up(t, St::Ready);
        }
    }
    fn blocked(&self, _label: &'static str) -> bool {
        let me = ME.try_with(|m| m.borrow().clone()).ok().flatten();
        match me {
            Some((c, t)) => {
                c.give_up(t, St::Blocked);
                true
            }
            None => false,
        }
    }
}
/// a scheduling point of the harness itself
pub fn point() {
    verif::point("harness");
}

/// lets others go on until one of them has done something; only to be called while there are others
pub fn rest() {
    let me = ME.try_with(|m| m.borrow().clone()).ok().flatten();
    if let Some((c, t)) = me {
        c.give_up(t, St::Resting);
    }
}

impl Ctl {
    fn choose(&self, s: &mut State) {
        let mut en: Vec<usize> = vec![];
        let again = s.last.filter(|t| s.status[*t] == St::Ready);
        en.extend(again);
        en.extend((0..s.status.len()).filter(|t| Some(*t) != again && s.status[*t] == St::Ready));
        if en.is_empty() {
            s.running = None;
            if s.status.iter().all(|x| *x == St::Done) || !s.status.contains(&St::Away) {
                if s.status.contains(&St::Blocked) {
                    s.stuck = true;
                }
                self.cv.notify_all();
            }
            return;
        }
        let n = if again.is_some() && s.preemptions >= s.bound { 1 } else { en.len() };
        let k = s.path.len();
        let c = if k < s.follow.len() {
            s.follow[k].min(n - 1)
        } else if let Some(r) = &mut s.rng {
            // mostly go on
            if again.is_some() && r.chance(3, 5) { 0 } else { r.below(n) }
        } else {
            0
        };
        s.path.push((c, n));
        if again.is_some() && c > 0 {
            s.preemptions += 1;
        }
        let t = en[c];
        s.last = Some(t);
        s.running = Some(t);
        s.steps += 1;
    }
    /// the running thread reached a point (or cannot go on)
    fn give_up(&self, t: usize, how: St) {
        let mut s = self.st.lock().unwrap();
        let rest = how == St::Resting;
        let how = if rest { St::Blocked } else { how };
        if s.stuck {
            drop(s);
            forever();
        }
        s.steps += 1;
        if how == St::Ready && std::mem::take(&mut s.retry[t]) && s.running == Some(t) {
            return;
        }
        s.retry[t] = how == St::Blocked && !rest;
        if how == St::Ready || rest {
            for x in s.status.iter_mut() {
                if *x == St::Blocked {
                    *x = St::Ready;
                }
            }
        }
        s.status[t] = how;
        if s.running == Some(t) || s.running.is_none() {
            self.choose(&mut s);
            if s.running == Some(t) {
                return;
            }
            self.cv.notify_all();
        }
        self.wait_turn(s, t);
    }
    fn wait_turn(&self, mut s: std::sync::MutexGuard<'_, State>, t: usize) {
        loop {
            if s.running == Some(t) && s.status[t] == St::Ready {
                return;
            }
            if s.stuck {
                drop(s);
                forever();
            }
            s = self.cv.wait(s).unwrap();
        }
    }
    fn end(&self, t: usize) {
        let mut s = self.st.lock().unwrap();
        if s.stuck {
            return;
        }
        s.steps += 1;
        s.status[t] = St::Done;
        for x in s.status.iter_mut() {
            if *x == St::Blocked {
                *x = St::Ready;
            }
        }
        if s.running == Some(t) || s.running.is_none() {
            self.choose(&mut s);
        }
        self.cv.notify_all();
    }
}
/// a thread that can never go on is left behind
fn forever() -> ! {
    loop {
        std::thread::park();
    }
}

pub type Job = Box<dyn FnOnce() + Send>;
struct Worker {
    tx: Sender<(Arc<Ctl>, usize, Job)>,
    tid: String,
}
const TICK: Duration = Duration::from_millis(50);
/// how long the running thread has been kept from going on: asleep all the time, or busy all the time
#[derive(Default)]
struct Held {
    last: Option<(bool, u64, u64)>,
    ticks: u64,
}
impl Held {
    fn look(&mut self, tid: &str) -> bool {
        let now = crate::util::thread_state(tid);
        let Some(last) = self.last else {
            self.last = Some(now);
            return false;
        };
        if now.0 && last.0 && now.2 == last.2 {
            self.ticks += 1;
            self.last = Some(now);
            true
        } else if now.1 >= last.1 + 1000 {
            // a second of work without a point
            self.ticks += 1000 / TICK.as_millis() as u64;
            self.last = Some(now);
            true
        } else if now.0 || last.0 {
            // fell asleep or woke up
            self.ticks = 0;
            self.last = Some(now);
            false
        } else {
            false
        }
    }
}
fn worker() -> Worker {
    let (tx, rx) = channel::<(Arc<Ctl>, usize, Job)>();
    let (ttx, trx) = channel();
    std::thread::Builder::new()
        .stack_size(1 << 23)
        .spawn(move || {
            let _ = ttx.send(crate::util::my_tid());
            for (c, t, job) in rx {
                ME.with(|m| *m.borrow_mut() = Some((c.clone(), t)));
                {
                    let s = c.st.lock().unwrap();
                    c.wait_turn(s, t);
                }
                job();
                ME.with(|m| *m.borrow_mut() = None);
                c.end(t);
            }
        })
        .unwrap();
    Worker { tx, tid: trx.recv().unwrap_or_default() }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub bound: usize,
    pub max_runs: usize,
    pub random: Option<u64>,
    /// give up for good when nothing happens for this long
    pub patience: Duration,
}
pub struct Found {
    pub runs: usize,
    pub complete: bool,
}

/// Explores the schedules of the jobs `make` gives; `after(stuck)` is called after each run and says whether to go on.
pub fn explore(make: &mut dyn FnMut() -> Vec<Job>, after: &mut dyn FnMut(bool) -> bool, o: Opts) -> Found {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| verif::install(Some(&Hook)));
    let mut workers: Vec<Worker> = vec![];
    let mut follow: Vec<usize> = vec![];
    let mut runs = 0;
    loop {
        let jobs = make();
        let n = jobs.len();
        while workers.len() < n {
            workers.push(worker());
        }
        let ctl = Arc::new(Ctl {
            st: Mutex::new(State {
                status: vec![St::Ready; n],
                retry: vec![false; n],
                running: None,
                steps: 0,
                stuck: false,
                path: vec![],
                follow: std::mem::take(&mut follow),
                last: None,
                preemptions: 0,
                bound: o.bound,
                rng: o.random.map(|s| Rng::new(s.wrapping_add(runs as u64))),
            }),
            cv: Condvar::new(),
        });
        for (t, j) in jobs.into_iter().enumerate() {
            workers[t].tx.send((ctl.clone(), t, j)).unwrap();
        }
        let (stuck, path) = {
            let mut s = ctl.st.lock().unwrap();
            ctl.choose(&mut s);
            ctl.cv.notify_all();
            let mut seen = (s.steps, 0);
            let mut held = Held::default();
            loop {
                if s.stuck || s.status.iter().all(|x| *x == St::Done) {
                    break;
                }
                s = ctl.cv.wait_timeout(s, TICK).unwrap().0;
                if s.stuck {
                    break;
                }
                if s.steps != seen.0 {
                    seen = (s.steps, 0);
                    held = Held::default();
                    continue;
                }
                // the time in which a thread only waits for a processor does not count
                let blocked = match s.running {
                    Some(t) => held.look(&workers[t].tid),
                    None => (0..n).filter(|t| s.status[*t] == St::Away).all(|t| crate::util::thread_state(&workers[t].tid).0),
                };
                if s.running.is_some() {
                    seen.1 = held.ticks;
                } else if blocked {
                    seen.1 += 1;
                }
                if seen.1 * TICK.as_millis() as u64 > o.patience.as_millis() as u64 {
                    s.stuck = true;
                    ctl.cv.notify_all();
                    break;
                }
                if blocked && seen.1 >= 6 {
                    // the running thread does not come to a point: let the others go on meanwhile
                    if let Some(t) = s.running {
                        if s.status.iter().enumerate().any(|(u, x)| u != t && *x == St::Ready) {
                            s.status[t] = St::Away;
                            ctl.choose(&mut s);
                            ctl.cv.notify_all();
                        }
                    }
                }
            }
            (s.stuck, std::mem::take(&mut s.path))
        };
        if stuck {
            workers.clear(); // they are lost
        }
        runs += 1;
        let on = after(stuck);
        if !on || runs >= o.max_runs {
            return Found { runs, complete: false };
        }
        if o.random.is_some() {
            continue;
        }
        // the next path, depth first
        let mut p = path;
        loop {
            match p.pop() {
                None => return Found { runs, complete: true },
                Some((c, n)) if c + 1 < n => {
                    follow = p.iter().map(|x| x.0).collect();
                    follow.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}
