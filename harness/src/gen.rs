//! Random histories, steered per property.  Choices depend only on the seed and on results seen so far.
use crate::configs::*;
use crate::coord::*;
use crate::exec::*;
use crate::pure;
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn to(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1).max(1) as u64) as i64 }
    pub fn p(&mut self, percent: u64) -> bool { self.below(100) < percent }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)); r.next() }

/// Layout of a case's geometry.
struct Lay { dim: usize, lo: i64, g: i64, lim: i64, kind: u64, shape: char }
impl Lay {
    fn point(&self, r: &mut Rng, i: usize) -> Vec<i64> {
        let g = self.g;
        let f = |x: i64| (self.lo + x.clamp(0, g)).clamp(0, self.lim);
        match self.kind {
            0..=4 => (0..self.dim).map(|_| f(r.to(0, g))).collect(),
            5 => { let x = r.to(0, g); vec![f(x); self.dim] }                                     // diagonal
            6 => { let c = (i as i64) % (g + 1); (0..self.dim).map(|a| f(if a == 0 { c } else { r.to(0, g.min(1)) })).collect() } // sorted line
            7 => { let a = r.below(self.dim as u64) as usize; (0..self.dim).map(|b| f(if a == b { r.to(0, g) } else { g / 2 })).collect() } // cross
            8 => { let c = r.to(0, 2) * (g / 2); (0..self.dim).map(|_| f(c + r.to(0, 1))).collect() } // clusters
            9 => vec![f(0); self.dim],                                                             // all equal
            12 => (0..self.dim).map(|a| f(if a == 0 { g - (i as i64) % (g + 1) } else { r.to(0, 1) })).collect(), // coming closer to the lower corner
            13 if i % 9 != 8 => { // equally far from the centre
                let mut p = vec![f(g / 2); self.dim];
                let (a, b) = (r.below(self.dim as u64) as usize, r.below(self.dim as u64) as usize);
                let n2 = [1i64, 5, 25, 65, 325].iter().copied().filter(|n| n * 4 <= g * g).last().unwrap_or(1);
                let v: Vec<(i64, i64)> = (-18i64..=18).flat_map(|x| (-18i64..=18).map(move |y| (x, y))).filter(|(x, y)| x * x + y * y == n2).collect();
                let (x, y) = *r.pick(&v);
                if a != b { p[a] = f(g / 2 + x); p[b] = f(g / 2 + y); }
                p
            }
            13 | 14 => (0..self.dim).map(|_| f(g / 2 + r.to(-2, 2))).collect(),
            _ => { let z = (i as i64) / (g + 1); (0..self.dim).map(|a| f(match a { 0 => (i as i64) % (g + 1), 1 => z % (g + 1), _ => r.to(0, g) })).collect() } // lattice
        }
    }
    fn shape(&self, r: &mut Rng, i: usize, k: char) -> Shape {
        let c = self.point(r, i);
        let lim = self.lim;
        let ext = |r: &mut Rng, c: &Vec<i64>, e: i64| -> Vec<i64> { c.iter().map(|x| (x + r.to(-e, e)).clamp(0, lim)).collect() };
        match k {
            'p' => Shape::P(c),
            'r' | 'm' if self.kind == 14 => { // large and overlapping
                let d = ext(r, &c, self.g);
                if k == 'r' { Shape::R(c, d) } else { let e = ext(r, &c, self.g); Shape::M(vec![d, e]) }
            }
            'r' => { let e = *r.pick(&[0, 1, 1, 2, 3, self.g / 2 + 1]); let d = ext(r, &c, e); Shape::R(c, d) }
            'l' => {
                // squared lengths 0, 1, 2, 4, ..., 64 keep segment distances exact
                let mut d = c.clone();
                let (a, b) = (r.below(self.dim as u64) as usize, r.below(self.dim as u64) as usize);
                let len = *r.pick(&[1, 2, 4, 8]);
                let sg = |r: &mut Rng| if r.p(50) { 1 } else { -1 };
                if !r.p(10) {
                    d[a] += sg(r) * len;
                    if a != b && len <= 4 && r.p(60) { d[b] += sg(r) * len }
                    if self.dim == 4 && len <= 4 && r.p(30) { d = c.iter().map(|x| x + sg(r) * len).collect() }
                }
                if d.iter().any(|x| *x < 0 || *x > lim) { d = c.clone() }
                Shape::L(c, d)
            }
            _ => { let n = r.to(1, 4); let mut v = vec![c.clone()]; for _ in 1..n { let e = *r.pick(&[1, 2, self.g / 2]); v.push(ext(r, &c, e)) } Shape::M(v) }
        }
    }
}

pub struct Gen<'a> {
    pub r: Rng,
    pub run: Run<'a>,
    lay: Lay,
    prop: String,
    force: bool,
    held: Vec<Vec<u32>>,
    dp: Vec<bool>,
    fresh: std::ops::Range<u32>,
    next: u32,
    sc: i64,
}

/// Does a rejected event of this kind falsify the property?
fn owned(prop: &str, op: &Value) -> bool {
    let o = op["op"].as_str().unwrap();
    let t = op["q"]["t"].as_str().unwrap_or("");
    match prop {
        "C01" => matches!(o, "Size" | "Iter" | "Into"),
        "C02" => o == "Has" || (o == "Rem" && t == "eq"),
        "C03" => matches!(o, "Loc" | "Take") && (t == "in" || t == "x"),
        "C04" => (o == "Loc" && t == "at") || o == "One" || (o == "Rem" && t == "at"),
        "C05" => o == "NN",
        "C06" => o == "NNI",
        "C07" => o == "NNs",
        "C08" => matches!(o, "Loc" | "Take") && t == "wd",
        "C09" => o == "Pop",
        "C10" => o == "DrB",
        "C11" => false,
        "C12" | "C13" => o == "Str",
        "C14" => true,
        "C15" => o == "Bulk" || o == "Str" || o == "Big",
        "C16" => o == "Join",
        "C17" => t == "cu",
        "C18" => o == "Visit",
        "C19" => o == "Mut",
        "C21" => o == "Serde",
        "C22" => o == "Clone",
        "C23" => matches!(o, "Has" | "Loc" | "One" | "NN" | "NNI" | "NNs" | "Take" | "Visit" | "Prim"),
        "C26" => !matches!(o, "Clone" | "Serde"),
        _ => matches!(o, "Prim" | "Box" | "Prm"),
    }
}

impl<'a> Gen<'a> {
    pub fn op(&mut self, mut op: Value) -> Vec<Arc<Value>> {
        let o = (self.force || owned(&self.prop, &op)) as u8;
        op["o"] = json!(o);
        self.run.exec(op)
    }
    /// an operation that is owned whatever its kind
    fn opf(&mut self, mut op: Value) -> Vec<Arc<Value>> { op["o"] = json!(1); self.run.exec(op) }
    fn dead(&self) -> bool { self.run.dead }
    fn n(&self) -> usize { self.run.cfg.dim }

    // ---- arguments -----------------------------------------------------------------------------
    fn cl(&self, x: i64) -> i64 { x.clamp(0, self.lay.lim) }
    fn qpoint(&mut self, s: usize) -> Vec<i64> {
        let (lo, g) = (self.lay.lo, self.lay.g);
        let d = self.n();
        if self.lay.kind >= 12 && self.r.p(50) {
            let c = if self.lay.kind == 12 { lo } else { lo + g / 2 };
            let e = *self.r.pick(&[0, 0, 1, 2, 4]);
            return (0..d).map(|_| { let x = c + self.r.to(-e, e); self.cl(x) }).collect();
        }
        match self.r.below(10) {
            0..=3 => { let v: Vec<i64> = (0..d).map(|_| self.r.to(lo - 2, lo + g + 2)).collect(); v.iter().map(|x| self.cl(*x)).collect() }
            4..=6 => self.acorner(s),
            7 => { let mut p = self.acorner(s); let a = self.r.below(d as u64) as usize; let e = self.r.to(-1, 1); p[a] = self.cl(p[a] + e); p }
            8 => { let p = self.acorner(s); let q = self.acorner(s); (0..d).map(|i| (p[i] + q[i]) / 2).collect() }
            _ => { let lim = self.lay.lim.min(lo + 2 * g + 3); (0..d).map(|_| self.r.to(0, lim)).collect() }
        }
    }
    fn acorner(&mut self, s: usize) -> Vec<i64> {
        let i = self.r.below(8) as usize;
        let k = if !self.held[s].is_empty() && self.r.p(85) { *self.r.pick(&self.held[s]) } else { 1 + self.r.below(self.run.objs.len() as u64) as u32 };
        let sh = self.run.def(k as usize).shape.clone();
        if let (Shape::R(c, d), true) = (&sh, self.r.p(40)) { return (0..c.len()).map(|j| if self.r.p(50) { c[j] } else { d[j] }).collect(); }
        sh.corner(i)
    }
    fn qbox(&mut self, s: usize) -> Value {
        let d = self.n();
        let (p, q) = match self.r.below(10) {
            0..=2 => (self.qpoint(s), self.qpoint(s)),
            3..=4 => { let p = self.qpoint(s); (p.clone(), p) }
            5 => (vec![0; d], vec![self.lay.lim; d]),
            6 => { let p = self.acorner(s); let e = self.r.to(0, 2); let q = p.iter().map(|x| self.cl(x + e)).collect(); (p, q) }
            7 => { let k = if self.held[s].is_empty() { 1 } else { *self.r.pick(&self.held[s]) }; let sh = self.run.def(k as usize).shape.clone(); (sh.corner(0), sh.corner(1)) }
            8 => { let p = self.acorner(s); let q = self.acorner(s); (p, q) }
            _ => { let p = self.qpoint(s); let a = self.r.below(d as u64) as usize; let mut q = p.clone(); q[a] = self.cl(q[a] + self.lay.g / 2 + 1); (p, q) }
        };
        let lo: Vec<i64> = (0..d).map(|i| p[i].min(q[i])).collect();
        let hi: Vec<i64> = (0..d).map(|i| p[i].max(q[i])).collect();
        // the empty box; boxes without end on some sides
        match self.r.below(40) {
            0 => return json!([]),
            1..=3 => {
                let far = |r: &mut Rng, x: i64, e: i64| if r.p(40) { e } else { x };
                let lo: Vec<i64> = lo.iter().map(|x| far(&mut self.r, *x, -FAR - 7)).collect();
                let hi: Vec<i64> = hi.iter().map(|x| far(&mut self.r, *x, FAR + 7)).collect();
                return json!([lo, hi]);
            }
            _ => {}
        }
        json!([lo, hi])
    }
    fn radius(&mut self, s: usize, p: &[i64]) -> i64 {
        let c = self.acorner(s);
        let d2: i64 = (0..p.len()).map(|i| (p[i] - c[i]) * (p[i] - c[i])).sum();
        let big = match self.run.cfg.name { "a2i8" => 120, "a2i16" => 30_000, _ => 10_000_000 };
        let x = match self.r.below(12) { 0 => 0, 1 => -1, 2 => big, 3 => d2 + 1, 4 => d2 - 1, 5 => self.r.to(0, 2 * self.lay.g * self.lay.g), 6 => d2 / 2, _ => d2 };
        if self.r.p(4) { return ENDLESS }
        x.min(big) * self.sc.min(64)
    }
    fn cu(&mut self, s: usize) -> Value {
        let d = self.n();
        let np = self.qpoint(s);
        let nt = *self.r.pick(&["all", "none", "thr", "thr", "thr", "mod", "mod", "mod", "mod", "has", "has"]);
        let et = *self.r.pick(&["all", "all", "all", "mod", "mod", "thr", "none"]);
        let (nm, em) = (self.r.to(2, 5), self.r.to(2, 4));
        let nt = if nt == "none" && self.r.p(70) { "mod" } else { nt };
        let et = if et == "none" && self.r.p(70) { "all" } else { et };
        json!({"t":"cu","nt":nt,"ax":self.r.to(1, d as i64),"nv":self.lay.lo + self.r.to(0, self.lay.g),"nm":nm,"nr":self.r.to(0, nm - 1),"np":np,
            "et":et,"em":em,"er":self.r.to(0, em - 1),"ex":self.r.to(1, d as i64),"ev":self.lay.lo + self.r.to(0, self.lay.g)})
    }
    fn query(&mut self, s: usize, t: &str) -> Value {
        match t {
            "all" => json!({"t":"all"}),
            "in" | "x" => { let b = self.qbox(s); json!({"t":t,"b":b}) }
            "at" => { let p = self.qpoint(s); json!({"t":"at","p":p}) }
            "wd" => { let p = self.qpoint(s); let m = self.radius(s, &p); json!({"t":"wd","p":p,"m":m}) }
            "eq" => { // the element to look for must have the tree's element type
                let dp = self.dp[s];
                let mut k = self.akey(s);
                while !self.shape_ok(k, dp) { k = self.akey(s) }
                json!({"t":"eq","k":k})
            }
            _ => self.cu(s),
        }
    }
    /// some key: usually held, sometimes not
    fn akey(&mut self, s: usize) -> u32 {
        if !self.held[s].is_empty() && self.r.p(75) { *self.r.pick(&self.held[s]) } else { 1 + self.r.below(self.run.objs.len() as u64) as u32 }
    }
    fn shape_ok(&self, k: u32, dp: bool) -> bool {
        let want = if dp { self.run.cfg.alt_shape } else { self.run.cfg.shape };
        let c = match self.run.def(k as usize).shape { Shape::P(_) => 'p', Shape::R(..) => 'r', Shape::L(..) => 'l', Shape::M(_) => 'm' };
        c == want
    }
    fn fresh_key(&mut self, dp: bool) -> Option<u32> {
        let n = self.run.objs.len() as u32;
        if !self.run.cfg.tagged {
            return Some(1 + self.r.below(n as u64) as u32);
        }
        for _ in 0..n { // each tagged element is used once
            if self.next > n { return None; }
            let k = self.next;
            self.next += 1;
            if self.shape_ok(k, dp) { return Some(k); }
        }
        None
    }

    // ---- mutations -----------------------------------------------------------------------------
    fn mk(&mut self, s: usize, dp: bool) {
        self.held[s].clear();
        self.dp[s] = dp;
        self.op(json!({"op":"New","s":s,"dp":dp as u8}));
    }
    fn ins(&mut self, s: usize) -> bool {
        let Some(k) = self.fresh_key(self.dp[s]) else { return false };
        self.op(json!({"op":"Ins","s":s,"k":k}));
        self.held[s].push(k);
        true
    }
    fn ins_n(&mut self, s: usize, n: usize) { for _ in 0..n { if self.dead() || !self.ins(s) { break } } }
    fn bulk(&mut self, s: usize, n: usize, dp: bool) {
        self.dp[s] = dp;
        let mut ks = vec![];
        for _ in 0..n { if let Some(k) = self.fresh_key(dp) { ks.push(k) } }
        self.held[s] = ks.clone();
        self.op(json!({"op":"Bulk","s":s,"ks":ks,"dp":dp as u8}));
    }
    fn took(&mut self, s: usize, e: &Value) -> bool {
        if let Some(k) = e["r"].as_array().and_then(|r| r.first()).and_then(|k| k.as_u64()) {
            if let Some(i) = self.held[s].iter().position(|x| *x as u64 == k) { self.held[s].swap_remove(i); }
            return true;
        }
        false
    }
    fn rem(&mut self, s: usize, t: &str, boom: u64) -> bool {
        if t == "cu" { self.see(s, &[]) }
        let q = self.query(s, t);
        let mut op = json!({"op":"Rem","s":s,"q":q});
        if boom > 0 { op["boom"] = json!(boom) }
        let e = self.op(op);
        if self.dead() || e.is_empty() { return false; }
        self.took(s, &e[0])
    }
    fn pop(&mut self, s: usize) {
        let p = self.qpoint(s);
        let e = self.op(json!({"op":"Pop","s":s,"p":p}));
        if !self.dead() { self.took(s, &e[0]); }
    }
    fn drain(&mut self, s: usize, t: &str, n: usize, m: &str, boom: u64) -> usize {
        if t == "cu" { self.see(s, &[]) }
        let q = self.query(s, t);
        let es = self.op(json!({"op":"Drain","s":s,"q":q,"n":n,"m":m,"boom":boom}));
        let mut c = 0;
        for e in &es { if e["op"] == "DrN" && self.took(s, e) { c += 1 } }
        let ended = es.iter().any(|e| e["op"] == "DrN" && e["x"] == 0 && e["r"].as_array().unwrap().is_empty());
        if m == "forget" && !ended { self.held[s].clear() }
        c
    }
    /// any mutation, as the history asks for it
    fn mutate(&mut self, s: usize) {
        match self.r.below(20) {
            0..=9 => { self.ins(s); }
            10..=12 => { self.rem(s, "eq", 0); }
            13 => { self.rem(s, "at", 0); }
            14..=15 => self.pop(s),
            16 => { let n = self.r.to(1, 12) as usize; self.ins_n(s, n) }
            _ => {
                let t = *self.r.pick(&["all", "in", "x", "wd"]);
                let n = if self.r.p(30) { 10_000_000usize.min(self.held[s].len() + 1) } else { self.r.to(0, 6) as usize };
                self.drain(s, t, n, "drop", 0);
            }
        }
    }
    fn build(&mut self, s: usize, n: usize) {
        let was = self.force;
        match self.r.below(10) {
            0..=2 => { self.mk(s, false); self.ins_n(s, n) }
            3..=5 => self.bulk(s, n, false),
            6 => { self.bulk(s, n / 2, false); self.ins_n(s, n - n / 2) }
            7 => { self.mk(s, false); self.ins_n(s, n); for _ in 0..n / 3 { if self.dead() { break } self.rem(s, "eq", 0); } let m = n / 4; self.ins_n(s, m) }
            8 => { self.bulk(s, n, false); let k = self.r.below(n as u64 + 1) as usize; let t = *self.r.pick(&["all", "in", "x", "wd"]); self.drain(s, t, k, "drop", 0); let m = n / 4; self.ins_n(s, m) }
            _ => { self.mk(s, false); self.ins_n(s, n / 2); for _ in 0..6 { if self.dead() { break } self.mutate(s) } }
        }
        self.force = was;
    }

    // ---- observations --------------------------------------------------------------------------
    fn see(&mut self, s: usize, chk: &[&str]) { self.op(json!({"op":"Str","s":s,"chk":chk})); }
    fn seef(&mut self, s: usize, chk: &[&str]) { self.opf(json!({"op":"Str","s":s,"chk":chk})); }
    fn iter(&mut self, s: usize) { let w = self.iter_way(); self.op(json!({"op":"Iter","s":s,"w":w})); }
    fn iterf(&mut self, s: usize) { let w = self.iter_way(); self.opf(json!({"op":"Iter","s":s,"w":w})); }
    fn iter_way(&mut self) -> &'static str {
        let n = if self.run.cfg.tagged { 5 } else { 4 };
        ["iter", "iter_mut", "for", "formut", "debug"][self.r.below(n) as usize]
    }
    fn size(&mut self, s: usize) { self.op(json!({"op":"Size","s":s})); }
    fn has(&mut self, s: usize) { let k = self.query(s, "eq")["k"].clone(); self.op(json!({"op":"Has","s":s,"k":k})); }
    fn loc(&mut self, s: usize, t: &str) {
        if t == "cu" { self.see(s, &[]) }
        let w = match t { "wd" => "ext", "cu" | "all" => *self.r.pick(&["ext", "mut"]), _ => *self.r.pick(&["ext", "mut", "int", "intmut"]) };
        let q = self.query(s, t);
        self.op(json!({"op":"Loc","s":s,"q":q,"w":w}));
    }
    fn take(&mut self, s: usize, t: &str) {
        if t == "cu" { self.see(s, &[]) }
        let w = if t == "wd" { "ext" } else { *self.r.pick(&["ext", "mut"]) };
        let q = self.query(s, t);
        let n = self.r.to(0, 5);
        self.op(json!({"op":"Take","s":s,"q":q,"w":w,"n":n}));
    }
    fn visit(&mut self, s: usize, t: &str) {
        let w = *self.r.pick(&["int", "intmut"]);
        let q = self.query(s, t);
        let n = match self.r.below(4) { 0 => 1_000_000, 1 => 1, _ => { let h = self.held[s].len() as i64; self.r.to(1, h.clamp(2, 40)) } };
        self.op(json!({"op":"Visit","s":s,"q":q,"w":w,"n":n}));
    }
    fn one(&mut self, s: usize) { let w = *self.r.pick(&["ext", "mut", "int", "intmut"]); let p = self.qpoint(s); self.op(json!({"op":"One","s":s,"p":p,"w":w})); }
    fn nn(&mut self, s: usize) { let w = *self.r.pick(&["d2", "plain"]); let p = self.qpoint(s); self.op(json!({"op":"NN","s":s,"p":p,"w":w})); }
    fn nni(&mut self, s: usize) {
        let w = *self.r.pick(&["d2", "d2", "plain", "old"]);
        let p = self.qpoint(s);
        let h = self.held[s].len() as i64;
        let n = if self.r.p(60) { h + 1 } else { self.r.to(0, h + 1) };
        self.op(json!({"op":"NNI","s":s,"p":p,"w":w,"n":n}));
    }
    fn nns(&mut self, s: usize) { let w = *self.r.pick(&["d2", "plain"]); let p = self.qpoint(s); self.op(json!({"op":"NNs","s":s,"p":p,"w":w})); }
    fn obs(&mut self, s: usize) {
        match self.r.below(13) {
            0 => self.iter(s), 1 => self.size(s), 2 => self.has(s),
            3 => self.loc(s, "in"), 4 => self.loc(s, "x"), 5 => self.loc(s, "at"), 6 => self.loc(s, "wd"),
            7 => self.one(s), 8 => self.nn(s), 9 => self.nni(s), 10 => self.nns(s),
            11 => { let t = *self.r.pick(&["in", "x", "at"]); self.visit(s, t) }
            _ => { let t = *self.r.pick(&["all", "in", "x", "at", "wd"]); self.take(s, t) }
        }
    }
    fn all_obs(&mut self, s: usize) {
        self.iter(s); self.size(s); self.has(s);
        for t in ["in", "x", "at", "wd"] { self.loc(s, t) }
        self.one(s); self.nn(s); self.nni(s); self.nns(s);
    }
    fn muta(&mut self, s: usize) {
        let t = *self.r.pick(&["all", "all", "in", "x", "at", "cu"]);
        if t == "cu" { self.see(s, &[]) }
        let w = if t == "all" || t == "cu" { "mut" } else { *self.r.pick(&["mut", "intmut"]) };
        let q = self.query(s, t);
        let n = if self.r.p(50) { 1_000_000 } else { self.r.to(1, 8) };
        let (w, n) = if t == "at" && self.r.p(50) { (*self.r.pick(&["one", "oneint"]), 1) } else { (w, n) };
        let d = self.r.to(1, 9);
        self.op(json!({"op":"Mut","s":s,"q":q,"w":w,"n":n,"d":d}));
    }

    // ---- one case ------------------------------------------------------------------------------
    fn case(&mut self, n: usize) {
        let prop = self.prop.clone();
        let s = 1;
        match prop.as_str() {
            "C01" => {
                self.build(s, n);
                for _ in 0..self.r.to(3, 10) { if self.dead() { return } self.mutate(s); self.size(s); if self.r.p(50) { self.iter(s) } }
                self.iter(s); self.size(s);
                self.op(json!({"op":"Into","s":s}));
            }
            "C02" => {
                self.build(s, n);
                for _ in 0..self.r.to(4, 12) {
                    if self.dead() { return }
                    match self.r.below(4) { 0 => self.has(s), 1 | 2 => { self.iter(s); self.rem(s, "eq", 0); self.iterf(s); self.opf(json!({"op":"Size","s":s})); } _ => self.mutate(s) }
                }
                for _ in 0..4 { self.has(s) }
                if self.r.p(20) { // empty it
                    for _ in 0..self.held[s].len() { if self.dead() || self.held[s].is_empty() { break } let k = self.held[s][0];
                        let e = self.op(json!({"op":"Rem","s":s,"q":{"t":"eq","k":k}})); if self.dead() { return } if !self.took(s, &e[0]) { break } }
                    self.iterf(s); self.has(s);
                }
            }
            "C10" => {
                self.build(s, n);
                for _ in 0..self.r.to(1, 3) {
                    if self.dead() { return }
                    self.see(s, &["wf"]); self.size(s);
                    self.force = true;
                    let t = *self.r.pick(&["all", "in", "x", "x", "wd", "wd"]);
                    let h = self.held[s].len();
                    let k = match self.r.below(4) { 0 => h + 2, 1 => self.r.to(0, 3) as usize, _ => self.r.below(h as u64 + 1) as usize };
                    self.drain(s, t, k, "drop", 0);
                    self.size(s); self.see(s, &["wf"]); self.iter(s);
                    for _ in 0..4 { self.obs(s) }
                    let m = self.r.to(0, 10) as usize;
                    self.ins_n(s, m);
                    self.see(s, &["wf"]);
                    self.nn(s);
                }
                self.all_obs(s);
                for _ in 0..5 { self.mutate(s) }
                self.iter(s);
            }
            "C11" => {
                self.build(s, n);
                self.see(s, &["wf"]); self.size(s); self.iter(s);
                for _ in 0..self.r.to(1, 3) {
                    if self.dead() { return }
                    self.force = true;
                    let h = self.held[s].len() as i64;
                    match self.r.below(5) {
                        0..=1 => { let t = *self.r.pick(&["all", "in", "x", "wd", "cu"]); let k = self.r.to(0, h + 1) as usize; self.drain(s, t, k, "forget", 0); }
                        2..=3 => { let k = self.r.to(0, h + 2) as usize; let b = self.r.to(1, (h + h / 3).max(3)) as u64; let m = if self.r.p(15) { "forget" } else { "drop" }; self.drain(s, "cu", k, m, b); }
                        _ => { let b = self.r.to(1, h.clamp(2, 30)) as u64; let t = if self.run.cfg.tagged && self.r.p(50) { "eq" } else { "cu" }; self.rem(s, t, b); }
                    }
                    self.size(s); self.see(s, &["wf"]); self.iter(s);
                    for _ in 0..3 { self.obs(s) }
                    let m = self.r.to(0, 9) as usize;
                    self.ins_n(s, m);
                }
                self.all_obs(s);
                self.see(s, &["wf"]);
                for _ in 0..4 { self.mutate(s) }
                self.iter(s);
            }
            "C12" => {
                self.build(s, n);
                self.see(s, &["wf"]);
                for _ in 0..self.r.to(4, 12) { if self.dead() { return } self.mutate(s); self.see(s, &["wf"]) }
            }
            "C13" => {
                self.mk(s, false);
                let mut m = 0;
                while m < n && !self.dead() { let k = (1 + self.r.below(9)) as usize; self.ins_n(s, k); m += k; self.see(s, &["inc"]) }
                if self.r.p(50) { for _ in 0..self.r.to(3, 15) { if self.dead() { return } self.mutate(s); self.see(s, &["inc"]) } }
            }
            "C14" => {
                self.build(s, n);
                let mut live = vec![s];
                for _ in 0..self.r.to(6, 25) {
                    if self.dead() { return }
                    let s = *self.r.pick(&live);
                    match self.r.below(12) {
                        0..=4 => self.mutate(s),
                        5 => { if !live.contains(&2) { live.push(2) } let b = self.r.below(40) as usize; self.bulk(2, b, false); }
                        6 => { let h = self.held[s].len(); let t = *self.r.pick(&["all", "in", "x", "wd", "cu"]); self.drain(s, t, h + 1, "drop", 0); }
                        7 => { let m = self.r.to(1, 25) as usize; self.ins_n(s, m) }
                        8 => { if live.len() > 1 && self.run.cfg.max == 6 && self.run.cfg.min == 3 && self.run.cfg.alt_shape == self.run.cfg.shape { self.try_join(s, 3) } else { self.obs(s) } }
                        9 if s != 4 => { self.op(json!({"op":"Clone","s":s,"to":4})); self.held[4] = self.held[s].clone(); self.dp[4] = self.dp[s]; if !live.contains(&4) { live.push(4) } }
                        _ => self.obs(s),
                    }
                }
                self.all_obs(s);
                self.op(json!({"op":"Into","s":s}));
            }
            "C15" => {
                self.force = true;
                self.bulk(s, n, false);
                self.size(s); self.see(s, &["wf", "bulk"]); self.iter(s);
                for _ in 0..4 { self.obs(s) }
                let m = self.r.to(0, 25) as usize;
                for _ in 0..m { if self.dead() { return } self.ins(s); if self.r.p(15) { self.mutate(s) } }
                self.see(s, &["wf"]);
                for _ in 0..3 { self.obs(s) }
                self.iter(s);
            }
            "C16" => {
                self.build(s, n);
                let m = match self.r.below(5) { 0 => 0, 1 => self.r.below(4) as usize, _ => self.r.below(n as u64 + 8) as usize };
                if self.r.p(50) { self.bulk(2, m, true) } else { self.mk(2, true); self.ins_n(2, m) }
                if self.r.p(30) { for _ in 0..m / 2 { if self.dead() { return } self.rem(2, "eq", 0); } }
                self.op(json!({"op":"Join","s":s,"s2":2}));
                for _ in 0..3 { if self.dead() { return } if self.r.p(50) { self.mutate(s) } else { self.mutate(2) } self.op(json!({"op":"Join","s":s,"s2":2})); }
                if self.run.cfg.shape == self.run.cfg.alt_shape && self.run.cfg.name != "t2i" && self.run.cfg.name != "r3i-3-6-2" && self.run.cfg.min == 3 && self.run.cfg.max == 6 && self.run.cfg.rei == 2 {
                    self.op(json!({"op":"Join","s":2,"s2":2}));
                }
            }
            "C17" => {
                self.build(s, n);
                for _ in 0..self.r.to(3, 8) {
                    if self.dead() { return }
                    match self.r.below(8) {
                        0..=3 => self.loc(s, "cu"),
                        4 => self.take(s, "cu"),
                        5 => { self.rem(s, "cu", 0); self.iterf(s) }
                        6 => { let h = self.held[s].len() as i64; let k = self.r.to(0, h + 1) as usize; self.drain(s, "cu", k, "drop", 0); self.opf(json!({"op":"Size","s":s})); self.seef(s, &["wf"]); self.iterf(s) }
                        _ => self.mutate(s),
                    }
                }
            }
            "C18" => { self.build(s, n); for _ in 0..8 { if self.dead() { return } let t = *self.r.pick(&["in", "x", "x", "at"]); self.visit(s, t); if self.r.p(10) { self.mutate(s) } } }
            "C19" => {
                self.build(s, n);
                self.see(s, &["wf"]); self.iter(s);
                for _ in 0..self.r.to(3, 7) {
                    if self.dead() { return }
                    self.muta(s);
                    self.force = true;
                    self.see(s, &["wf"]); self.iter(s); self.obs(s);
                    if self.r.p(40) { self.mutate(s); self.iter(s); self.see(s, &["wf"]) }
                }
                self.all_obs(s);
                self.op(json!({"op":"Into","s":s}));
            }
            "C21" | "C22" => {
                self.build(s, n);
                if self.r.p(20) { let h = self.held[s].len(); let m = if self.r.p(30) { "forget" } else { "drop" }; self.drain(s, "all", h, m, 0); }
                if self.run.cfg.mutable && self.r.p(50) { self.muta(s) }
                self.see(s, &["wf"]); self.iter(s); self.size(s);
                let mut from = false;
                if prop == "C22" && self.r.p(30) { self.bulk(2, 5, false); from = true }
                self.force = true;
                let o = if prop == "C21" { json!({"op":"Serde","s":s,"to":2}) } else { json!({"op":"Clone","s":s,"to":2,"w":if from {"from"} else {"clone"}}) };
                self.op(o);
                self.held[2] = self.held[s].clone(); self.dp[2] = self.dp[s];
                for t in [2, 1] { self.size(t); self.see(t, &["wf"]); self.iter(t) }
                if self.r.p(30) { // one of them is consumed
                    let (a, b) = if self.r.p(50) { (1, 2) } else { (2, 1) };
                    if self.r.p(50) { self.op(json!({"op":"Into","s":a})); } else { self.op(json!({"op":"Kill","s":a})); }
                    self.see(b, &["wf"]); self.iter(b);
                    for _ in 0..4 { self.obs(b); self.mutate(b) }
                    self.iter(b);
                } else {
                    for _ in 0..self.r.to(4, 10) {
                        if self.dead() { return }
                        let t = 1 + self.r.below(2) as usize;
                        if self.r.p(60) { self.mutate(t) } else if self.run.cfg.mutable && self.r.p(50) { self.muta(t) }
                        self.obs(3 - t); self.obs(t);
                        if self.r.p(30) { self.iter(3 - t); self.see(3 - t, &["wf"]) }
                    }
                    for t in [1, 2] { self.size(t); self.see(t, &["wf"]); self.iter(t); self.nni(t) }
                }
            }
            "C23" | "C26" => {
                self.build(s, n);
                self.iter(s);
                for _ in 0..6 { if self.dead() { return } self.obs(s); if self.r.p(30) { self.mutate(s) } }
                self.all_obs(s);
                self.see(s, &["wf"]);
                for _ in 0..3 { self.mutate(s) }
                self.iter(s); self.nni(s); self.loc(s, "x");
            }
            _ => {
                // single-query properties C03..C09
                self.build(s, n);
                for _ in 0..self.r.to(5, 10) {
                    if self.dead() { return }
                    match prop.as_str() {
                        "C03" => { let t = if self.r.p(50) { "in" } else { "x" }; if self.r.p(80) { self.loc(s, t) } else { self.take(s, t) } }
                        "C04" => match self.r.below(5) { 0..=1 => self.loc(s, "at"), 2..=3 => self.one(s), _ => { self.iter(s); self.rem(s, "at", 0); self.iterf(s) } },
                        "C05" => self.nn(s),
                        "C06" => self.nni(s),
                        "C07" => self.nns(s),
                        "C08" => if self.r.p(85) { self.loc(s, "wd") } else { self.take(s, "wd") },
                        "C09" => { self.iter(s); self.size(s); self.pop(s); self.iterf(s); self.opf(json!({"op":"Size","s":s})); }
                        _ => unreachable!(),
                    }
                    if self.r.p(12) { self.mutate(s) }
                }
            }
        }
    }
    fn try_join(&mut self, s: usize, to: usize) {
        let m = self.r.below(12) as usize;
        self.bulk(to, m, true);
        self.op(json!({"op":"Join","s":s,"s2":to}));
    }
}

pub fn eligible(prop: &str, c: &Config) -> bool {
    match prop {
        "C19" => c.mutable,
        "C21" => c.serde,
        "C23" => c.wrap,
        "C26" => !c.tagged && !c.wrap,
        "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => true,
        _ => true,
    }
}

/// Sizes: mostly around the interesting capacities of the parameter set.
/// Sizes around the powers of the node capacity, where bulk loading changes its depth.
fn power(r: &mut Rng, m: i64, top: i64) -> usize {
    let mut x = m;
    while x * m <= top && r.p(70) { x *= m }
    (x * r.to(1, m) + r.to(-2, 3)).clamp(0, top) as usize
}

fn pick_size(r: &mut Rng, c: &Config, scale: u64) -> usize {
    let m = c.max as i64;
    if scale >= 300 && r.below(400) == 0 { return r.to(300, 1500) as usize }
    let x = match r.below(20) {
        0..=2 => r.to(0, 4),
        3..=5 => r.to(0, m + 2),
        6..=9 => r.to(m - 1, 3 * m + 3),
        10..=13 => r.to(2 * m, 6 * m),
        14..=16 => (m * m).min(60) + r.to(-4, 8),
        17 => r.to(20, 90),
        18 => if c.max > 10 && r.p(60) { r.to(m - 2, m + 3) } else { r.to(30, 90) },
        _ => r.to(60, 60 + scale as i64),
    };
    x.max(0) as usize
}

pub fn one(prop: &str, cfgs: &[Config], seed: u64, idx: u64, scale: u64, sink: Arc<Sink>) -> usize {
    let mut r = Rng(mix(seed, idx.wrapping_mul(0x9E37) ^ prop.bytes().fold(7, |a, b| a * 131 + b as u64)));
    let el: Vec<&Config> = cfgs.iter().filter(|c| eligible(prop, c)).collect();
    let cfg = el[((idx + seed) % el.len() as u64) as usize];
    let mut n = pick_size(&mut r, cfg, scale);
    if prop == "C15" && r.p(50) { n = (idx / el.len() as u64 % 140) as usize + r.below(3) as usize }
    let lim = cfg.lim;
    // wide layouts keep areas and distances within the scalar type's exact range
    let wide = lim >= 1000 && (cfg.dim == 2 || cfg.float);
    let g = (*r.pick(&[1i64, 2, 3, 4, 5, 7, 10, 15, 30, 60, if wide { 900 } else { 60 }])).min(lim - 1).max(1);
    let lo = if lim > g + 2 { r.to(0, (lim - g - 1).min(5)) } else { 0 };
    // searches for neighbours: more often crowded around the query point
    let hard = matches!(prop, "C05" | "C06" | "C07" | "C09") && r.p(30);
    let kind = if hard { r.to(12, 14) as u64 } else { r.below(15) };
    if hard && n < 40 { n = r.to(40, 160) as usize }
    let lay = Lay { dim: cfg.dim, lo, g, lim, kind, shape: cfg.shape };
    let (mul, off) = if r.p(40) { *r.pick(cfg.affs) } else { (1.0, 0) };
    let sc = if cfg.shape == 'l' { 64 } else { 1 };
    // the pool of elements
    let total = n * 2 + 60;
    let mut objs: Vec<Def> = vec![];
    let mut classes: std::collections::HashMap<Vec<i64>, u32> = Default::default();
    if cfg.tagged {
        let two = cfg.alt_shape != cfg.shape && prop == "C16";
        for i in 0..total {
            let k = if two && i % 2 == 1 { cfg.alt_shape } else { lay.shape };
            let shape = lay.shape(&mut r, i, k);
            let key = i as u32 + 1;
            let mut sig = vec![k as i64]; sig.extend(match &shape { Shape::M(v) => v.concat(), s => [s.corner(0), s.corner(1)].concat() });
            let eq = if r.p(70) { *classes.entry(sig).or_insert(key) } else { key };
            objs.push(Def { shape, eq, key });
        }
    } else {
        for i in 0..total {
            let shape = lay.shape(&mut r, i, lay.shape);
            let key = objs.len() as u32 + 1;
            if classes.contains_key(&shape.flat()) { continue }
            classes.insert(shape.flat(), key);
            objs.push(Def { shape, eq: key, key });
        }
    }
    let run = Run::begin(cfg, objs, sink, &format!("{prop}-{seed}-{idx}"), prop, mul, off, sc);
    let len = run.objs.len() as u32;
    let mut gen = Gen { r, run, lay, prop: prop.into(), force: false, held: vec![vec![]; 6], dp: vec![false; 6], fresh: 1..len + 1, next: 1, sc };
    let _ = &gen.fresh;
    gen.case(n);
    gen.run.events + 1
}

/// Trees of elements whose distances are rounded.
pub fn rounded_case(prop: &str, cfgs: &[Config], seed: u64, idx: u64, sink: Arc<Sink>) -> usize {
    let mut r = Rng(mix(seed, idx ^ 0xFEED ^ prop.bytes().fold(7, |a, b| a * 131 + b as u64)));
    let mut run = Run::begin(&cfgs[0], vec![], sink, &format!("{prop}-m-{seed}-{idx}"), prop, 1.0, 0, 1);
    let scout = run.sink.hold.is_some();
    for i in 0..4 { let large = if i > 0 { 0 } else if scout && idx % 3200 == 5 { 2 } else { r.p(6) as u8 }; let op = crate::met::make(prop, &mut r, large); run.exec(op); }
    run.events + 1
}

fn general_line(r: &mut Rng, ty: &str, s: &Shape, p: &[i64]) -> Option<Value> {
    let Shape::L(c, d) = s else { return None };
    let dir: Vec<i64> = d.iter().zip(c).map(|(a, b)| a - b).collect();
    let w: Vec<i64> = p.iter().zip(c).map(|(a, b)| a - b).collect();
    let dot = |a: &[i64], b: &[i64]| -> i64 { a.iter().zip(b).map(|(x, y)| x * y).sum() };
    let (t, n) = (dot(&w, &dir), dot(&dir, &dir));
    if n == 0 { return None }
    let d2 = if t <= 0 { n * dot(&w, &w) } else if t >= n { let v: Vec<i64> = p.iter().zip(d).map(|(a, b)| a - b).collect(); n * dot(&v, &v) } else { n * dot(&w, &w) - t * t };
    // on the inner part of the line rounding may decide
    if d2 == 0 && t > 0 && t < n { return None }
    let m = match r.below(4) { 0 => 0.min(d2 - 1), 1 => d2 / 2 - 1, 2 => 2 * d2 + 1, _ => d2 + if r.p(50) { 1 } else { -1 } };
    Some(json!({"op":"Prim","ty":ty,"g":s.json(),"p":p,"m":m,"sc":n,"tol":1,"o":1,"all":1}))
}

/// Case of element, box and parameter function calls.
pub fn pure_case(prop: &str, cfgs: &[Config], seed: u64, idx: u64, sink: Arc<Sink>) -> usize {
    let mut r = Rng(mix(seed, idx ^ 0xBEEF ^ prop.bytes().fold(7, |a, b| a * 131 + b as u64)));
    let cfg = &cfgs[0];
    let mk = |sink, mul, off| Run::begin(cfg, vec![], sink, &format!("{prop}-p-{seed}-{idx}"), prop, mul, off, 1);
    match prop {
        "C20" => {
            let mut run = mk(sink, 1.0, 0);
            let rows = pure::all_params().len();
            for i in (0..rows).filter(|i| *i as u64 % 8 == idx % 8) { run.exec(json!({"op":"Prm","i":i,"o":1})); }
            run.events + 1
        }
        "C23" | "C25" => {
            let tys = pure::prims();
            let (ty, shape, dim, _) = tys[(idx % tys.len() as u64) as usize];
            let f32_ = ty.contains("f32");
            let lim = if f32_ || shape == 'l' { 25 } else { *r.pick(&[3, 8, 60]) };
            let aff: (f64, i64) = if ty.contains('i') || ty.contains('u') || ty.contains('w') || ty == "pm3" { *r.pick(&[(1.0, 0), (1.0, -9), (1.0, 1 << 29), (1.0, -(1 << 29))]) } else { *r.pick(&[(1.0, 0), (1.0, -11), (0.25, 0), (9.094947017729282e-13, 0), (1099511627776.0, 0)]) };
            let mut run = mk(sink, aff.0, aff.1);
            let g = r.to(1, lim - 1);
            for i in 0..24 {
                let kind = r.below(12);
                let lay = Lay { dim, lo: r.to(0, 1), g, lim, kind, shape };
                let s = lay.shape(&mut r, i, shape);
                let p: Vec<i64> = match r.below(4) { 0 => s.corner(i), 1 => { let mut p = s.corner(i); let a = r.below(dim as u64) as usize; p[a] = (p[a] + r.to(-2, 2)).clamp(0, lim); p }
                    2 => { let (a, b) = (s.corner(0), s.corner(1)); (0..dim).map(|j| r.to(a[j].min(b[j]), a[j].max(b[j]))).collect() } _ => (0..dim).map(|_| r.to(0, lim)).collect() };
                let mut s = s;
                if shape == 'l' && ty != "l2f32" && r.p(40) { // any direction, judged up to rounding
                    let c: Vec<i64> = (0..dim).map(|_| r.to(0, lim)).collect();
                    let d: Vec<i64> = (0..dim).map(|_| r.to(0, lim)).collect();
                    s = Shape::L(c, d);
                    if let Some(op) = general_line(&mut r, ty, &s, &p) { run.exec(op); }
                    continue;
                }
                let sc = if shape == 'l' { 64 } else { 1 };
                let d2: i64 = { let c = s.corner(i + 1); (0..dim).map(|j| (p[j] - c[j]).pow(2)).sum() };
                let m = match r.below(6) { 0 => 0, 1 => d2 + 1, 2 => -1, 3 => r.to(0, 2 * d2 + 1), 4 => d2 - 1, _ => d2 };
                run.exec(json!({"op":"Prim","ty":ty,"g":s.json(),"p":p,"m":m * sc,"sc":sc,"o":1,"all":1}));
            }
            if prop != "C23" { return run.events + 1 }
            let mut run = Run::begin(cfg, vec![], run.sink.clone(), &format!("{prop}-o-{seed}-{idx}"), prop, 1.0, 0, 1);
            for _ in 0..8 {
                let dim = *r.pick(&[2usize, 3]);
                let mut v = || (0..dim).map(|_| r.to(0, 20)).collect::<Vec<i64>>();
                let (c, d, p) = (v(), v(), v());
                run.exec(json!({"op":"Prim","ty":if dim == 2 {"odd2"} else {"odd3"},"g":{"s":"o","c":c,"d":d,"k":r.to(0, 999)},"p":p,"m":r.to(0, 90),"sc":1,"o":1,"all":1}));
            }
            run.events + 1
        }
        "C15" => {
            let mut run = mk(sink, 1.0, 0);
            let tys = pure::bigs();
            for _ in 0..2 {
                let (ty, max) = *r.pick(&tys);
                let top = if r.p(15) { 100_000 } else { 12_000 };
                let n = if r.p(10) { top as usize } else if r.p(80) { power(&mut r, max as i64, top) } else { r.to(0, top) as usize };
                run.exec(json!({"op":"Big","ty":ty,"n":n,"k":r.below(8),"g":*r.pick(&[3i64, 20, 150, 900, 900]),"seed":r.below(1 << 30),"o":1}));
            }
            run.events + 1
        }
        _ => {
            let tys = pure::boxes();
            let (ty, dim, _) = tys[(idx % tys.len() as u64) as usize];
            let lim = if dim > 10 { 4 } else if dim > 5 { 6 } else { *r.pick(&[2i64, 4, 9, 30]) };
            let aff: (f64, i64) = if ty.contains('i') || ty.contains('u') || ty.contains('w') || ty == "t3" || ty == "t5" || ty == "t7" || ty == "mint3" { *r.pick(&[(1.0, 0), (1.0, -9), (1.0, -4), (1.0, 1 << 29), (1.0, -(1 << 29))]) }
                else if dim > 8 || ty.contains("f32") { *r.pick(&[(1.0, 0), (1.0, -3), (0.5, -5)]) } else { *r.pick(&[(1.0, 0), (1.0, -3), (0.5, -5), (4.0, 0), (9.094947017729282e-13, 0), (1099511627776.0, 0)]) };
            let mut run = mk(sink, aff.0, aff.1);
            let fs = ["corners", "bounds", "point", "center", "points", "empty", "merge", "hasp", "hasb", "touch", "area", "common", "peri", "mid", "near", "dist", "mmd", "eq", "nth", "gen", "sort", "part", "touch", "hasb", "common", "mmd", "mmd", "merge", "dist"];
            for j in 0..60usize {
                let f = fs[j % fs.len()];
                if prop == "C26" && !matches!(f, "nth" | "gen" | "corners" | "points" | "dist" | "merge" | "touch" | "hasb" | "mmd" | "center" | "sort") { continue }
                let pt = |r: &mut Rng| -> Vec<i64> { (0..dim).map(|_| r.to(0, lim)).collect() };
                let bx = |r: &mut Rng| -> Value {
                    if r.p(8) && !matches!(f, "near" | "dist" | "mmd" | "mid" | "bounds" | "area" | "peri" | "common" | "eq") { return json!([]) }
                    let (p, q) = (pt(r), pt(r));
                    let flat = r.p(25);
                    let ax = r.below(dim as u64) as usize;
                    let lo: Vec<i64> = (0..dim).map(|i| p[i].min(q[i])).collect();
                    let hi: Vec<i64> = (0..dim).map(|i| if flat && i == ax { lo[i] } else { p[i].max(q[i]) }).collect();
                    json!([lo, hi])
                };
                let (a, mut b) = (bx(&mut r), bx(&mut r));
                if r.p(30) && a != json!([]) && b != json!([]) { // touching, nested or overlapping on purpose
                    let i = r.below(dim as u64) as usize;
                    let w = b[1][i].as_i64().unwrap() - b[0][i].as_i64().unwrap();
                    let at = a[r.below(2) as usize][i].as_i64().unwrap();
                    if at + w <= lim { b[0][i] = json!(at); b[1][i] = json!(at + w) }
                }
                if r.p(8) && f == "eq" { b = a.clone() }
                if f == "mid" { // exact centres only (also of the shifted coordinates)
                    let mut a2 = a.clone();
                    for i in 0..dim { let (l, h) = (a[0][i].as_i64().unwrap(), a[1][i].as_i64().unwrap()); if (l + h) % 2 != 0 { a2[1][i] = json!(l) } }
                    run.exec(json!({"op":"Box","ty":ty,"f":f,"a":a2,"o":1,"k":1}));
                    continue;
                }
                let n = r.to(1, 6) as usize;
                let nb = r.to(2, 9) as usize;
                let bs: Vec<Value> = (0..nb).map(|_| { let (p, q) = (pt(&mut r), pt(&mut r)); json!([(0..dim).map(|i| p[i].min(q[i])).collect::<Vec<_>>(), (0..dim).map(|i| p[i].max(q[i])).collect::<Vec<_>>()]) }).collect();
                let pts: Vec<Vec<i64>> = (0..n).map(|_| pt(&mut r)).collect();
                let ps = if r.p(10) { vec![] } else { pts };
                let k = match f { "part" => r.below(nb as u64) as i64, _ => r.to(0, 3) };
                run.exec(json!({"op":"Box","ty":ty,"f":f,"a":a,"b":b,"p":pt(&mut r),"p2":pt(&mut r),"ps":ps,"n":k,"i":r.below(dim as u64),"bs":bs,"dim":dim,"o":1}));
            }
            run.events + 1
        }
    }
}
