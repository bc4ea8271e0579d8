mod carrier;
mod defseq;
mod filter;
mod genseq;
mod linecol;
mod memseq;
mod notify;
mod peg;
mod peggen;
mod sched;
mod shortvec;
mod stream;
mod utf8;
mod util;
mod watch;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use util::*;

#[global_allocator]
static ALLOCATOR: watch::Watch = watch::Watch;

fn main() {
    let mut argv: Vec<String> = std::env::args().skip(1).collect();
    if argv.is_empty() {
        eprintln!("usage: harness <command> ...");
        std::process::exit(2);
    }
    let cmd = argv.remove(0);
    let a = Args(argv);
    if let Some(p) = a.get("--progress") {
        start_watchdog(p, a.num("--limit", 20) as u64);
    }
    // deep recursion in the code under test should not be an artefact of a small main stack
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || dispatch(&cmd, &a)).unwrap();
    if h.join().is_err() {
        eprintln!("harness failed");
        std::process::exit(2);
    }
}

fn dispatch(cmd: &str, a: &Args) {
    match cmd {
        "peg-gen" => peg_gen(a),
        "peg-run" => peg_run(a),
        "errors-run" => histories(a, |c| match catch(|| peg::terminates(&c["e"])) {
            Ok(t) => vec![json!(t)],
            Err(e) => vec![json!(e)],
        }),
        "sides-run" => histories(a, |c| match catch(|| peg::sides(c)) {
            Ok(t) => vec![t],
            Err(e) => vec![json!(e)],
        }),
        "uniform-run" => histories(a, peg::uniform),
        "genseq-run" => histories(a, genseq::run),
        "memseq-run" => variants(a, &memseq::CARRIERS, memseq::run),
        "linecol-run" => variants(a, &["meter", "measured"], linecol::run),
        "shortvec-run" => shortvec_run(a),
        "filter-run" => histories(a, filter::run),
        "defseq-run" => explored(a, defseq::run),
        "stream-run" => explored(a, stream::run),
        "notify-run" => explored(a, notify::run),
        "option-run" => histories(a, notify::option),
        "utf8-run" => histories(a, utf8::run),
        "genseq-par" => histories(a, genseq::parallel),
        "genseq-long" => {
            let n = a.num("--n", 1000) as usize;
            let mut all = vec![];
            for how in ["consume", "buffer", "loader"] {
                progress(&format!("a sequence of {n} segments, released by: {how}"));
                all.push(genseq::long(n, how));
            }
            println!("{}", json!({"results": all}));
        }
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}

fn lines(path: &str) -> impl Iterator<Item = Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    std::io::BufReader::new(f).lines().map(|l| serde_json::from_str(&l.unwrap()).expect("json line"))
}
fn out(path: &str) -> BufWriter<std::fs::File> {
    BufWriter::new(std::fs::File::create(path).unwrap_or_else(|e| panic!("{path}: {e}")))
}

/// writes cases without outcomes
fn peg_gen(a: &Args) {
    let mut g = peggen::Gen::new(a.num("--seed", 1) as u64, &a.str("--family", "all"));
    let mut w = out(a.get("--out").unwrap());
    for _ in 0..a.num("--n", 1000) {
        writeln!(w, "{}", g.case()).unwrap();
    }
}

/// runs cases in every way; writes one line per case and distinct outcome
fn peg_run(a: &Args) {
    let full = a.num("--full", 1) == 1;
    let mut w = out(a.get("--out").unwrap());
    let seed = a.num("--seed", 1) as u64;
    let (mut cases, mut runs, mut lines_out, mut differing) = (0u64, 0u64, 0u64, 0u64);
    for (i, case) in lines(a.get("--in").unwrap()).enumerate() {
        progress(&i.to_string());
        let outs = peg::run_all(&case, seed.wrapping_add(i as u64), full);
        cases += 1;
        runs += outs.len() as u64;
        // keep distinct outcomes
        let mut seen: Vec<(Value, Vec<String>)> = vec![];
        for (name, o) in outs {
            let v = json!({"obs": o.obs, "log": o.log});
            match seen.iter_mut().find(|(x, _)| *x == v) {
                Some((_, names)) => names.push(name),
                None => seen.push((v, vec![name])),
            }
        }
        if seen.len() > 1 {
            differing += 1;
        }
        let known = !case["obs"].is_null();
        let all: Vec<Vec<String>> = seen.iter().map(|(_, n)| n.clone()).collect();
        for (j, (v, names)) in seen.into_iter().enumerate() {
            if known && v["obs"] == case["obs"] && v["log"] == case["log"] {
                continue; // as predicted
            }
            let mut line = json!({"case": i, "input": case["input"], "cmds": case["cmds"],
                "obs": v["obs"], "log": v["log"], "runs": names, "seed": seed.wrapping_add(i as u64)});
            let others: Vec<&String> =
                all.iter().enumerate().filter(|(k, _)| *k != j).flat_map(|(_, n)| n).collect();
            line["others"] = json!(others);
            if known {
                line["want"] = json!({"obs": case["obs"], "log": case["log"]});
            }
            writeln!(w, "{line}").unwrap();
            lines_out += 1;
        }
    }
    println!("{}", json!({"cases": cases, "runs": runs, "lines": lines_out, "differing": differing}));
}

/// runs histories; writes {case..., ev: [...]} per line
fn histories(a: &Args, run: impl Fn(&Value) -> Vec<Value>) {
    let mut w = out(a.get("--out").unwrap());
    let (mut cases, mut events) = (0u64, 0u64);
    for (i, case) in lines(a.get("--in").unwrap()).enumerate() {
        progress(&i.to_string());
        let ev = run(&case);
        cases += 1;
        events += ev.len() as u64;
        let mut line = case.clone();
        line["case"] = json!(i);
        line["ev"] = json!(ev);
        writeln!(w, "{line}").unwrap();
    }
    println!("{}", json!({"cases": cases, "events": events}));
}

/// runs each case in several variants; one line each
fn variants(a: &Args, all: &[&str], run: impl Fn(&Value, &str, u64) -> Value) {
    let which: Vec<String> = a.str("--carriers", &all.join(",")).split(',').map(|s| s.to_string()).collect();
    let seed = a.num("--seed", 1) as u64;
    let mut w = out(a.get("--out").unwrap());
    let (mut cases, mut rows, mut events) = (0u64, 0u64, 0u64);
    for (i, case) in lines(a.get("--in").unwrap()).enumerate() {
        progress(&i.to_string());
        cases += 1;
        for c in &which {
            let s = case["seed"].as_u64().unwrap_or(seed.wrapping_mul(1_000_003).wrapping_add(i as u64) & 0x3fff_ffff);
            let mut r = run(&case, c, s);
            r["case"] = json!(i);
            events += r["ev"].as_array().unwrap().len() as u64;
            rows += 1;
            writeln!(w, "{r}").unwrap();
        }
    }
    println!("{}", json!({"cases": cases, "rows": rows, "events": events}));
}

fn shortvec_run(a: &Args) {
    let each = a.num("--each", 3) as usize;
    let mut w = out(a.get("--out").unwrap());
    let (mut cases, mut rows, mut events) = (0u64, 0u64, 0u64);
    for (i, case) in lines(a.get("--in").unwrap()).enumerate() {
        progress(&i.to_string());
        cases += 1;
        for r in shortvec::all(&case, i, each) {
            events += r["ev"].as_array().unwrap().len() as u64;
            rows += 1;
            writeln!(w, "{r}").unwrap();
        }
    }
    println!("{}", json!({"cases": cases, "rows": rows, "events": events}));
}

/// explores the schedules of each program; one line per program and distinct history
fn explored(a: &Args, run: impl Fn(&Value, sched::Opts) -> (usize, bool, Vec<Value>) + Sync) {
    let o = sched::Opts {
        bound: a.num("--bound", 2),
        max_runs: a.num("--runs", 100_000),
        random: a.get("--random").map(|s| s.parse().unwrap()),
        patience: std::time::Duration::from_millis(a.num("--patience", 15000) as u64),
    };
    let w = std::sync::Mutex::new(out(a.get("--out").unwrap()));
    let cases: Vec<Value> = lines(a.get("--in").unwrap()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let sums = std::sync::Mutex::new((0u64, 0u64, 0u64, 0u64));
    std::thread::scope(|s| {
        for _ in 0..a.num("--jobs", 6) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(case) = cases.get(i) else { break };
                progress(&i.to_string());
                let (runs, complete, found) = run(case, o);
                let mut sum = sums.lock().unwrap();
                sum.0 += runs as u64;
                sum.1 += complete as u64;
                sum.2 += found.len() as u64;
                let mut w = w.lock().unwrap();
                for ev in found {
                    sum.3 += ev.as_array().unwrap().len() as u64;
                    let mut line = case.clone();
                    line["case"] = json!(i);
                    line["ev"] = ev;
                    writeln!(w, "{line}").unwrap();
                }
            });
        }
    });
    w.lock().unwrap().flush().unwrap();
    let s = sums.into_inner().unwrap();
    println!("{}", json!({"cases": cases.len(), "runs": s.0, "complete": s.1, "histories": s.2, "events": s.3}));
}
