//! Line and column measurements of texts cut into pieces.
use crate::util::*;
use parcom_core::measured::{IntoMeasured, Meter};
use parcom_core::primitive::BytesDelta;
use parcom_core::{MeasuredSequence, Sequence};
use parcom_metrics::*;
use serde_json::{json, Value};
use std::future::IntoFuture;

use end_of_line::{EndOfLine, CR, CRLF, LF};

/// the first place against the second
fn order<E: EndOfLine>(a: &LineColumn<E>, b: &LineColumn<E>) -> &'static str {
    use std::cmp::Ordering::*;
    match (a.cmp(b), a.partial_cmp(b), b.cmp(a)) {
        (Less, Some(Less), Greater) if a != b && a < b && b > a && !(a >= b) => "lt",
        (Equal, Some(Equal), Equal) if a == b && a <= b && a >= b => "eq",
        _ => "other",
    }
}
fn obs<E: EndOfLine>(piece: &[Value], m: LineColumn<E>, m2: LineColumn<E>, prev: &LineColumn<E>, first: &LineColumn<E>) -> Value {
    let c = m.clone();
    json!({"e": "piece", "piece": piece, "count": m.total_count, "line": m.line, "column": m.column,
        "again": m == m2 && c == m && c.line == m.line && c.column == m.column && c.total_count == m.total_count,
        "order": order(prev, &m), "order0": order(first, &m)})
}

fn go<E: EndOfLine>(case: &Value, through: &str, seed: u64) -> Vec<Value> {
    const OTHERS: [char; 18] = [
        'a', 'é', 'あ', '😀', '\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}', '\t', '\u{0}', '\u{feff}', '\u{301}', '\u{200d}',
        // the terminators with another high part
        '\u{10d}', '\u{10a}', '\u{1000d}', '\u{1000a}',
    ];
    // what kind of text: any characters, plain words, only wide characters
    const PLAIN: [char; 6] = ['a', 'b', 'Z', '0', ' ', '.'];
    const WIDE: [char; 4] = ['é', 'あ', '😀', '\u{2028}'];
    let others: &[char] = match case["chars"].as_str() {
        Some("plain") => &PLAIN,
        Some("wide") => &WIDE,
        Some("one") => &['a'],
        _ => &OTHERS,
    };
    let mut rng = Rng::new(seed);
    let mut text_of = |q: &[Value]| -> String {
        let mut t = String::new();
        for c in q {
            let c = c.as_str().unwrap();
            let n = if c.len() == 1 { 1 } else { c[1..].parse().unwrap() };
            for _ in 0..n {
                match &c[..1] {
                    "r" => t.push('\r'),
                    "n" => t.push('\n'),
                    "c" => t.push_str("\r\n"),
                    _ => t.push(*rng.pick(others)),
                }
            }
        }
        t
    };
    let arr = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let before = text_of(&arr(&case["before"]));
    let units = arr(&case["text"]);
    let cuts = arr(&case["cuts"]);
    // pieces: a cut follows the unit at which it is true
    let mut pieces: Vec<Vec<Value>> = vec![vec![]];
    for (u, c) in units.iter().zip(cuts.iter()) {
        pieces.last_mut().unwrap().push(u.clone());
        if c == true {
            pieces.push(vec![]);
        }
    }
    let start: LineColumnMeter<E> = if before.is_empty() {
        LineColumnMeter::default()
    } else {
        LineColumnMeter::new(LineColumnMeter::<E>::default().advance(&before).metrics())
    };
    let mut ev = vec![];
    let first = start.metrics();
    let mut prev = start.metrics();
    if through == "meter" {
        let mut m = start;
        for p in &pieces {
            m = m.advance(&text_of(p));
            let now = m.metrics();
            ev.push(obs(p, now.clone(), m.metrics(), &prev, &first));
            prev = now;
        }
    } else {
        let texts: Vec<String> = pieces.iter().map(|p| text_of(p)).collect();
        let whole: &'static str = Box::leak(texts.concat().into_boxed_str());
        let mut s = if before.is_empty() {
            whole.into_measured::<LineColumn<E>>()
        } else {
            whole.into_measured_with::<LineColumn<E>>(start)
        };
        for (p, t) in pieces.iter().zip(&texts) {
            s = block_on(s.advance(BytesDelta::from_str(t)).into_future()).unwrap();
            let now = s.metrics();
            ev.push(obs(p, now.clone(), s.metrics(), &prev, &first));
            prev = now;
        }
    }
    ev
}

pub fn run(case: &Value, through: &str, seed: u64) -> Value {
    let r = catch(|| match case["conv"].as_str().unwrap() {
        "lf" => go::<LF>(case, through, seed),
        "cr" => go::<CR>(case, through, seed),
        _ => go::<CRLF>(case, through, seed),
    });
    let ev = match r {
        Ok(e) => e,
        Err(t) => vec![json!({"e": "panic", "what": t})],
    };
    let before = if case["before"].is_array() { case["before"].clone() } else { json!([]) };
    json!({"conv": case["conv"], "before": before, "text": case["text"], "cuts": case["cuts"], "chars": case["chars"], "through": through, "seed": seed, "ev": ev})
}
