//! Random cases for the parser machine, per family.
use crate::util::Rng;
use serde_json::{json, Value};

pub struct Gen {
    pub r: Rng,
    pub fam: String,
    eat: u64,
    alphabet: Vec<u32>,
    /// the taste of the case at hand, if it has one
    taste: Option<([usize; 15], [usize; 5], [usize; 6])>,
    /// one in this many parts is of another type
    types: usize,
}

impl Gen {
    pub fn new(seed: u64, fam: &str) -> Gen {
        Gen { r: Rng::new(seed), fam: fam.into(), eat: 0, alphabet: vec![0, 1], taste: None, types: 8 }
    }
    fn is(&self, f: &str) -> bool {
        self.fam == f
    }
    fn binish(&self) -> bool {
        self.fam.starts_with("bin")
    }
    fn show(&self) -> &'static str {
        match self.fam.as_str() {
            "bintree" => "tree",
            "binstop" => "stop",
            _ => "both",
        }
    }
    fn code(&mut self) -> u32 {
        let a = self.alphabet.clone();
        *self.r.pick(&a)
    }
    fn word(&mut self, max: usize) -> Vec<u32> {
        let n = if self.r.chance(1, 60) { 30 + self.r.below(40) } else { self.r.below(max + 1) };
        (0..n).map(|_| self.code()).collect()
    }
    fn eat(&mut self, min: usize) -> Value {
        self.eat += 1;
        let w = match self.fam.as_str() {
            "fatal" => [3, 3, 3],
            "recover" => [3, 5, 1],
            _ => [4, 3, 1],
        };
        let out = ["ok", "miss", "fatal"][self.r.weighted(&w)];
        let lo = if out == "ok" { min } else { 0 };
        json!({"k": "eat", "n": lo + self.r.below(3), "out": out, "id": self.eat % 50})
    }
    fn leaf(&mut self, moving: bool) -> Value {
        let w: [usize; 5] = match self.fam.as_str() {
            "prim" => [3, 4, 8, 0, 0],
            "bin" | "bintree" | "binstop" => [4, 4, 1, 2, 1],
            _ => [3, 4, 2, 5, 1],
        };
        let w = self.taste.map(|t| t.1).unwrap_or(w);
        match self.r.weighted(&w) {
            0 => json!({"k": "any"}),
            1 => json!({"k": "the", "c": self.code()}),
            2 => {
                let mut w = self.word(if self.is("prim") { 4 } else { 2 });
                if moving && w.is_empty() {
                    w.push(self.code());
                }
                json!({"k": "atom", "w": w, "form": self.r.below(6)})
            }
            3 => self.eat(moving as usize),
            _ if moving => json!({"k": "any"}),
            _ => json!({"k": "pure"}),
        }
    }
    fn acc(&mut self) -> Vec<u32> {
        (0..7).filter(|_| self.r.chance(1, 2)).collect()
    }
    /// `moving`: never succeeds without moving
    pub fn tree(&mut self, d: usize, moving: bool) -> Value {
        if d == 0 || self.r.chance(1, 8) {
            return self.leaf(moving);
        }
        //          map err chk join or uni unie opt rep bin ref box col fold drive
        let w: [usize; 15] = match self.fam.as_str() {
            "recover" => [0, 0, 1, 6, 8, 2, 0, 5, 5, 2, 0, 0, 4, 0, 0],
            "fatal" => [1, 5, 2, 5, 6, 2, 2, 4, 4, 3, 1, 1, 2, 2, 1],
            "iter" => [1, 1, 1, 2, 2, 0, 0, 1, 1, 0, 0, 0, 6, 5, 7],
            "bin" | "bintree" | "binstop" => [1, 1, 1, 2, 2, 0, 0, 1, 1, 8, 0, 0, 0, 0, 0],
            "prim" => [0, 0, 0, 3, 3, 0, 0, 2, 3, 0, 0, 0, 0, 0, 0],
            _ => [4, 3, 4, 5, 5, 3, 2, 3, 4, 2, 2, 2, 3, 3, 1],
        };
        let w = self.taste.map(|t| t.0).unwrap_or(w);
        loop {
            let i = self.r.weighted(&w);
            if moving && matches!(i, 7 | 8 | 12 | 13 | 14) {
                continue;
            }
            let e = d - 1;
            let mut t = match i {
                0 => json!({"k": "map", "a": self.tree(e, moving)}),
                1 => {
                    let c = *self.r.pick(&["fatal", "miss", "some", "none", "refe"]);
                    json!({"k": "maperr", "a": self.tree(e, moving), "cls": c})
                }
                2 => json!({"k": "andthen", "a": self.tree(e, moving), "acc": self.acc(), "f": self.r.chance(1, 3)}),
                3 | 6 => {
                    let k = if i == 3 { "join" } else { "unifyerr" };
                    let first = self.r.chance(1, 2);
                    json!({"k": k, "a": self.tree(e, moving && first), "b": self.tree(e, moving && !first)})
                }
                4 | 5 => {
                    let k = if i == 4 { "or" } else { "unify" };
                    json!({"k": k, "a": self.tree(e, moving), "b": self.tree(e, moving)})
                }
                7 => json!({"k": "opt", "a": self.tree(e, false)}),
                8 => json!({"k": "rep", "a": self.tree(e, true)}),
                9 => {
                    let opmoves = !moving && self.r.chance(1, 2);
                    let t = self.tree(if self.binish() { e / 2 } else { e }, !opmoves);
                    let o = self.tree(if self.binish() { e / 2 } else { e }, opmoves);
                    json!({"k": "bin", "a": t, "b": o, "ops": self.ops(), "show": self.show()})
                }
                10 => json!({"k": "ref", "a": self.tree(e, moving)}),
                11 => json!({"k": "boxed", "a": self.tree(e, moving)}),
                12 => json!({"k": "collect", "a": self.iter(e)}),
                13 => json!({"k": "fold", "a": self.iter(e)}),
                _ => json!({"k": "drive", "a": self.iter(e), "n": 1 + self.r.below(5)}),
            };
            let ty = if self.r.chance(1, self.types) { 1 + self.r.below(2) } else { 0 };
            if ty > 0 {
                self.retype(&mut t, "a", ty);
                if t["b"].is_object() && self.r.chance(1, 2) {
                    let u = 1 + self.r.below(2);
                    self.retype(&mut t, "b", u);
                }
            }
            return t;
        }
    }
    /// makes the values of a part nothing, or large, or its errors
    fn retype(&mut self, t: &mut Value, part: &str, ty: usize) {
        let mut inner = t[part].take();
        let iter = crate::peg::is_iter(inner["k"].as_str().unwrap());
        let w = [[1, 1, 1], [4, 1, 1], [1, 1, 4]][self.r.below(3)];
        let both = self.r.below(3);
        if both != 0 {
            let c = ["zm", "zf", "be"][self.r.weighted(&w)];
            let k = if iter { "ietype" } else { "etype" };
            inner = json!({"k": k, "a": inner, "cls": c});
        }
        if both == 1 {
            t[part] = inner;
            return;
        }
        let k = [["unit", "big"], ["iunit", "ibig"]][iter as usize][ty - 1];
        t[part] = json!({"k": k, "a": inner});
    }
    fn ops(&mut self) -> Value {
        let n = 1 + self.r.below(6);
        let mixed = self.r.chance(1, 3);
        // otherwise one associativity per precedence
        let by_rank: Vec<bool> = (0..7).map(|_| self.r.chance(1, 2)).collect();
        let span = 1 + self.r.below(7);
        let base = self.r.below(8 - span);
        (0..n)
            .map(|_| {
                let r = base + self.r.below(span);
                let right = if mixed { self.r.chance(1, 2) } else { by_rank[r] };
                json!({"r": r, "right": right})
            })
            .collect()
    }
    pub fn iter(&mut self, d: usize) -> Value {
        if d == 0 || self.r.chance(1, 4) {
            return match self.r.weighted(&[5, 2, 3]) {
                0 => json!({"k": "irep", "a": self.tree(d.min(2), true)}),
                1 => json!({"k": "iopt", "a": self.tree(d.min(2), false)}),
                _ => {
                    let n = self.r.below(6);
                    let sc: Vec<Value> = (0..n)
                        .map(|_| {
                            let o = ["item", "end", "miss", "fatal"][self.r.weighted(&[8, 2, 1, 1])];
                            json!({"w": self.r.below(3), "o": o})
                        })
                        .collect();
                    json!({"k": "iscript", "sc": sc})
                }
            };
        }
        let e = d - 1;
        let w = self.taste.map(|t| t.2).unwrap_or([1; 6]);
        let mut t = match self.r.weighted(&w) {
            0 => json!({"k": "each", "a": self.iter(e)}),
            1 => json!({"k": "tryeach", "a": self.iter(e), "acc": self.acc(), "f": self.r.chance(1, 2)}),
            2 => json!({"k": "mwhile", "a": self.iter(e), "acc": self.acc()}),
            3 => json!({"k": "scan", "a": self.iter(e), "n": self.r.below(7)}),
            4 => json!({"k": "take", "a": self.iter(e), "n": self.r.below(4)}),
            _ => json!({"k": "iref", "a": self.iter(e)}),
        };
        if self.r.chance(1, self.types) {
            let ty = 1 + self.r.below(2);
            self.retype(&mut t, "a", ty);
        }
        t
    }

    /// few trees, many items: sizes around powers of two
    fn long(&mut self) -> Value {
        self.alphabet = vec![0, 1, 2];
        let n = *self.r.pick(&[63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 384, 511, 512, 513, 520]);
        let n = if self.r.chance(1, 25) { 1023 + self.r.below(3) } else { n };
        let n = if self.is("longbin") { n | 1 } else { n };
        let mut input: Vec<u32> = (0..n).map(|_| self.r.below(2) as u32).collect();
        // what ends it, if anything
        let end = self.r.below(3);
        if end > 0 {
            let at = n - 1 - self.r.below(8);
            input[at] = 2;
        }
        let item = |g: &mut Gen| match g.r.below(6) {
            0 => json!({"k": "any"}),
            1 => json!({"k": "or", "a": {"k": "the", "c": 0}, "b": {"k": "the", "c": 1}}),
            2 => json!({"k": "unit", "a": {"k": "or", "a": {"k": "the", "c": 0}, "b": {"k": "the", "c": 1}}}),
            3 => json!({"k": "big", "a": {"k": "any"}}),
            4 => json!({"k": "join", "a": {"k": "any"}, "b": {"k": "opt", "a": {"k": "the", "c": 1}}}),
            _ => json!({"k": "or", "a": {"k": "eat", "n": 1, "out": "miss", "id": 1},
                        "b": {"k": "or", "a": {"k": "the", "c": 1}, "b": {"k": "the", "c": 0}}}),
        };
        let k = if self.is("longbin") { 0 } else { 1 + self.r.below(8) };
        let t = match k {
            0 => {
                let term = if self.r.chance(1, 2) { json!({"k": "any"}) } else { item(self) };
                // from deep to flat
                let right = self.r.chance(1, 2);
                let ops = match self.r.below(3) {
                    0 => json!([{"r": 1, "right": right}]),
                    1 => json!([{"r": 0, "right": right}, {"r": 3, "right": !right}]),
                    _ => self.ops(),
                };
                json!({"k": "bin", "a": term, "b": {"k": "any"}, "ops": ops, "show": self.r.pick(&["both", "tree", "stop"])})
            }
            1 | 2 => json!({"k": "rep", "a": item(self)}),
            3 => json!({"k": "collect", "a": {"k": "irep", "a": item(self)}}),
            4 => {
                let c = self.r.below(n + 10);
                let k = *self.r.pick(&["collect", "fold"]);
                json!({"k": k, "a": {"k": "take", "n": c, "a": {"k": "irep", "a": item(self)}}})
            }
            5 => {
                let k = *self.r.pick(&["each", "scan", "mwhile", "tryeach"]);
                let i = json!({"k": "irep", "a": item(self)});
                json!({"k": "collect", "a": {"k": k, "a": i, "n": 1, "acc": [0, 1, 2, 3, 4, 5, 6], "f": true}})
            }
            6 => {
                let sc: Vec<Value> = (0..n).map(|i| json!({"w": 1 - (i % 7) / 6, "o": "item"})).collect();
                json!({"k": "collect", "a": {"k": "iscript", "sc": sc}})
            }
            7 => {
                let mut w = input.clone();
                match self.r.below(4) {
                    0 => { let i = n - 1 - self.r.below(3); w[i] = 1 - w[i].min(1) }
                    1 => w.push(0),
                    2 => w.truncate(n - 1),
                    _ => {}
                }
                json!({"k": "or", "a": {"k": "atom", "w": w, "form": self.r.below(6)}, "b": {"k": "rep", "a": {"k": "any"}}})
            }
            // a long attempt that fails, and is taken back
            _ => json!({"k": "or", "a": {"k": "join", "a": {"k": "rep", "a": item(self)}, "b": {"k": "join", "a": {"k": "any"}, "b": {"k": "the", "c": 7}}},
                        "b": {"k": "rep", "a": item(self)}}),
        };
        let at = if self.r.chance(1, 4) { self.r.below(n) } else { 0 };
        json!({"input": input, "cmds": [{"op": "parse", "n": t, "at": at}]})
    }

    pub fn case(&mut self) -> Value {
        self.eat = 0;
        if self.fam.starts_with("long") {
            return self.long();
        }
        self.taste = None;
        self.types = 8;
        if !self.binish() && !self.is("prim") && self.r.chance(1, 2) {
            let mut pick = |heavy: &[usize]| *self.r.pick(heavy);
            let mut t = ([0; 15], [0; 5], [0; 6]);
            t.0.iter_mut().for_each(|x| *x = pick(&[0, 0, 1, 4]));
            t.1.iter_mut().for_each(|x| *x = pick(&[0, 1, 4]));
            t.2.iter_mut().for_each(|x| *x = pick(&[0, 1, 4]));
            // what may stand where something must move, and something at all
            for i in [0, 3, 4] {
                t.0[i] += 1;
            }
            t.1[0] += 1;
            t.2[0] += 1;
            if self.is("iter") {
                for i in [12, 13, 14] {
                    t.0[i] += 1;
                }
            }
            self.taste = Some(t);
            self.types = *self.r.pick(&[2, 8, 20]);
        }
        let k = if self.is("prim") { 5 } else { 2 + self.r.below(2) };
        self.alphabet = (0..k).map(|_| self.r.below(8) as u32).collect();
        let max = if self.binish() { 14 } else { 8 };
        let n = if self.r.chance(1, 60) { 30 + self.r.below(40) } else { self.r.below(max + 1) };
        let mut input: Vec<u32> = (0..n).map(|_| self.code()).collect();
        let d = if self.is("prim") { self.r.below(2) } else { 1 + self.r.below(4) };
        let at = |g: &mut Gen| if g.r.chance(1, 4) { g.r.below(n + 1) } else { 0 };
        let mut cmds = vec![];
        match self.fam.as_str() {
            "reuse" => {
                if self.r.chance(1, 2) {
                    let t = self.tree(d, false);
                    for _ in 0..2 + self.r.below(2) {
                        cmds.push(json!({"op": "parse", "n": t, "at": at(self)}));
                    }
                } else {
                    let t = self.iter(d);
                    let m = 2 + self.r.below(2);
                    let (mut open, steps) = (0, 3 + self.r.below(8));
                    for _ in 0..steps {
                        if open == 0 || (open < m && self.r.chance(1, 3)) {
                            cmds.push(json!({"op": "iter", "slot": open + 1, "n": t, "at": at(self)}));
                            open += 1;
                        } else {
                            cmds.push(json!({"op": "step", "slot": 1 + self.r.below(open)}));
                        }
                    }
                }
            }
            "iter" if self.r.chance(1, 2) => {
                let t = self.iter(d);
                cmds.push(json!({"op": "iter", "slot": 1, "n": t, "at": at(self)}));
                for _ in 0..2 + self.r.below(6) {
                    cmds.push(json!({"op": "step", "slot": 1}));
                }
            }
            "prim" if self.r.chance(1, 2) => {
                // a pattern that is the input's beginning, or nearly so
                let a = if n == 0 { 0 } else { self.r.below(n) };
                let m = if n == a { 0 } else { self.r.below(n - a + 1) };
                let mut w: Vec<u32> = input[a..a + m].to_vec();
                match self.r.below(4) {
                    0 => w.push(self.code()),
                    1 if !w.is_empty() => {
                        let i = self.r.below(w.len());
                        w[i] = self.code();
                    }
                    2 if a + m < n => input.truncate(a + m),
                    _ => {}
                }
                cmds.push(json!({"op": "parse", "n": {"k": "atom", "w": w, "form": self.r.below(6)}, "at": a.min(input.len())}));
            }
            _ => {
                let t = if self.binish() && self.r.chance(3, 4) {
                    // real chains: terms and operators drawn from the alphabet
                    let term = if self.r.chance(1, 2) { json!({"k": "any"}) } else { self.tree(1, true) };
                    let op = if self.r.chance(1, 2) { json!({"k": "any"}) } else { self.tree(1, true) };
                    json!({"k": "bin", "a": term, "b": op, "ops": self.ops(), "show": self.show()})
                } else if !self.binish() && !self.is("prim") && self.r.chance(1, 4) {
                    let e = d.min(2);
                    match self.r.below(3) {
                        0 => json!({"k": "fold", "a": self.iter(e)}),
                        1 => json!({"k": "collect", "a": self.iter(e)}),
                        _ => json!({"k": "drive", "a": self.iter(e), "n": 1 + self.r.below(5)}),
                    }
                } else {
                    self.tree(d, false)
                };
                let t = if self.binish() && self.r.chance(1, 4) {
                    json!({"k": "join", "a": t, "b": {"k": "rep", "a": {"k": "any"}}})
                } else {
                    t
                };
                cmds.push(json!({"op": "parse", "n": t, "at": at(self)}));
            }
        }
        json!({"input": input, "cmds": cmds})
    }
}
