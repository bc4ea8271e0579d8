//! Shared plumbing: executor, random numbers, progress file, watchdog, panics as data.
use std::cell::RefCell;
use std::future::Future;
use std::os::unix::fs::FileExt;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::task::{Context, Poll, Wake, Waker};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// index chosen by weights
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let mut x = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}

/// A waker that remembers whether it was called.
pub struct Flag(AtomicBool);
impl Flag {
    pub fn new() -> std::sync::Arc<Self> {
        std::sync::Arc::new(Flag(AtomicBool::new(false)))
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Runs a future to completion on this thread; `Err` when it suspends without having asked for a
/// wake-up.
pub fn block_on<F: Future>(f: F) -> Result<F::Output, &'static str> {
    let mut f = pin!(f);
    let flag = Flag::new();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => {
                if !flag.take() {
                    return Err("suspended without a wake-up");
                }
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`; a panic comes back as text.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    static HOOK: OnceLock<()> = OnceLock::new();
    HOOK.get_or_init(|| {
        std::panic::set_hook(Box::new(|info| {
            crate::watch::off();
            let text = format!("{info}").replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = Some(text));
        }));
    });
    PANIC.with(|p| *p.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

// Progress: the number of the case being run is kept in a file, so that a crash or a hang of the
// code under test can be attributed to its case.
static TICK: AtomicU64 = AtomicU64::new(0);
static PROGRESS: OnceLock<std::fs::File> = OnceLock::new();
static NOW: Mutex<String> = Mutex::new(String::new());

pub fn start_watchdog(path: &str, limit_secs: u64) {
    let f = std::fs::File::create(path).expect("progress file");
    let _ = PROGRESS.set(f);
    std::thread::spawn(move || {
        let me = my_tid();
        let mut last = u64::MAX;
        let mut stalled = 0; // milliseconds
        let mut cpu = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last {
                last = t;
                stalled = 0;
                cpu = process_cpu();
                continue;
            }
            // time during which this process only waits for a processor does not count
            let now = process_cpu();
            stalled += if others_waiting_for_cpu(&me) { now.saturating_sub(cpu).min(200) } else { 200 };
            cpu = now;
            if stalled >= limit_secs * 1000 {
                eprintln!("HANG {}", NOW.lock().map(|s| s.clone()).unwrap_or_default());
                std::process::exit(3);
            }
        }
    });
}
/// the id of this thread, as the system names it
pub fn my_tid() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| Some(p.file_name()?.to_str()?.to_string()))
        .unwrap_or_default()
}
fn stat(path: &str) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(path).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_ascii_whitespace().collect();
    let cpu: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((f.first()?.chars().next()?, cpu * 10))
}
/// milliseconds of processor time used
fn process_cpu() -> u64 {
    stat("/proc/self/stat").map_or(0, |s| s.1)
}
fn others_waiting_for_cpu(me: &str) -> bool {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    d.filter_map(|e| e.ok()?.file_name().into_string().ok())
        .filter(|t| t != me)
        .any(|t| stat(&format!("/proc/self/task/{t}/stat")).is_some_and(|s| s.0 != 'S'))
}
/// what the system says about a thread: whether it sleeps, milliseconds of processor time used, how often it has gone to sleep
pub fn thread_state(tid: &str) -> (bool, u64, u64) {
    let (st, cpu) = stat(&format!("/proc/self/task/{tid}/stat")).unwrap_or(('?', 0));
    let slept = std::fs::read_to_string(format!("/proc/self/task/{tid}/status"))
        .ok()
        .and_then(|s| s.lines().find_map(|l| l.strip_prefix("voluntary_ctxt_switches:")?.trim().parse().ok()))
        .unwrap_or(0);
    (st == 'S', cpu, slept)
}

/// Notes the case about to be run.
pub fn progress(text: &str) {
    TICK.fetch_add(1, Ordering::Relaxed);
    if let Ok(mut n) = NOW.lock() {
        n.clear();
        n.push_str(text);
    }
    if let Some(f) = PROGRESS.get() {
        let mut line = text.to_string();
        line.push('\n');
        let _ = f.write_all_at(line.as_bytes(), 0);
    }
}

pub struct Args(pub Vec<String>);
impl Args {
    pub fn get(&self, name: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == name)?;
        self.0.get(i + 1).map(|s| s.as_str())
    }
    pub fn num(&self, name: &str, default: usize) -> usize {
        self.get(name).map(|s| s.parse().expect("number")).unwrap_or(default)
    }
    pub fn str(&self, name: &str, default: &str) -> String {
        self.get(name).unwrap_or(default).to_string()
    }
}
