//! The scout: a quick native reading of spec/RTree.tla that sorts the histories into those worth
//! TLC's time and those that look ordinary.  It decides nothing: every history it finds suspicious
//! is written to the log and judged by TLC against the specification, and so is a share of the
//! ordinary ones.
use crate::coord::Shape;
use serde_json::Value;
use std::collections::HashMap;

struct Elem { sh: Shape, lo: Vec<i64>, hi: Vec<i64>, eq: u64 }
type Bag = HashMap<u32, u32>;
#[derive(Clone, Default)]
struct Tree { bag: Bag, val: HashMap<u32, i64>, n: usize, hist: u8, rm: bool, str: Option<Value> }
struct Drain { s: usize, sel: Bag, end: bool }

#[derive(Default)]
pub struct Scout {
    tab: Vec<Elem>, sc: i64, min: usize, max: usize, dim: u32,
    db: HashMap<usize, Tree>,
    dr: Option<Drain>,
}

fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(-1_000_000)).collect()).unwrap_or_default() }
fn keys(v: &Value) -> Vec<u32> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default() }
fn us(v: &Value) -> usize { v.as_u64().unwrap_or(u64::MAX) as usize }
fn d2(a: &[i64], b: &[i64]) -> i64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum() }
fn dot(a: &[i64], b: &[i64]) -> i64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
fn sub(a: &[i64], b: &[i64]) -> Vec<i64> { a.iter().zip(b).map(|(x, y)| x - y).collect() }
fn bag_of(r: &[u32]) -> Bag { let mut b = Bag::new(); for k in r { *b.entry(*k).or_default() += 1 } b }
fn some_of(r: &[u32], b: &Bag) -> bool { bag_of(r).iter().all(|(k, n)| b.get(k).copied().unwrap_or(0) >= *n) }
fn total(b: &Bag) -> usize { b.values().map(|x| *x as usize).sum() }
fn lists(r: &[u32], b: &Bag) -> bool { r.len() == total(b) && some_of(r, b) }
fn minus(b: &mut Bag, k: u32) { if let Some(n) = b.get_mut(&k) { *n -= 1; if *n == 0 { b.remove(&k); } } }

impl Elem {
    fn d2(&self, p: &[i64], sc: i64) -> i64 {
        match &self.sh {
            Shape::P(c) => sc * d2(c, p),
            Shape::R(..) => sc * (0..p.len()).map(|i| { let x = p[i].clamp(self.lo[i], self.hi[i]) - p[i]; x * x }).sum::<i64>(),
            Shape::L(c, d) => {
                let (dir, w) = (sub(d, c), sub(p, c));
                let (t, n) = (dot(&w, &dir), dot(&dir, &dir));
                if n == 0 || t <= 0 { sc * d2(c, p) } else if t >= n { sc * d2(d, p) } else { sc * dot(&w, &w) - t * t * (sc / n) }
            }
            Shape::M(v) => sc * v.iter().map(|q| d2(q, p)).min().unwrap(),
        }
    }
    fn has(&self, p: &[i64]) -> bool {
        let inb = || (0..p.len()).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i]);
        match &self.sh {
            Shape::P(c) => c == p,
            Shape::R(..) => inb(),
            Shape::L(c, d) => inb() && self.d2(p, d2(c, d)) == 0,
            Shape::M(v) => v.iter().any(|q| q == p),
        }
    }
    fn touches(&self, o: &Elem) -> bool { (0..self.lo.len()).all(|i| self.lo[i] <= o.hi[i] && o.lo[i] <= self.hi[i]) }
}

impl Tree {
    fn add(&mut self, k: u32) {
        *self.bag.entry(k).or_default() += 1;
        self.val.entry(k).or_insert(0);
        self.n += 1;
        if self.hist == 1 { self.hist = 2 }
        self.str = None;
    }
    fn take(&mut self, k: u32) {
        minus(&mut self.bag, k);
        if !self.bag.contains_key(&k) { self.val.remove(&k); }
        self.n -= 1;
        self.rm = true;
        self.str = None;
    }
    fn paid(&self, r: &[u32], v: &Value) -> bool {
        let v = ints(v);
        v.is_empty() || (v.len() == r.len() && r.iter().zip(&v).all(|(k, x)| self.val.get(k) == Some(x)))
    }
}

impl Scout {
    pub fn begin(e: &Value) -> Scout {
        let tab = e["objs"].as_array().unwrap().iter().map(|o| {
            let sh = Shape::parse(&o["g"]);
            let pts: Vec<&Vec<i64>> = match &sh { Shape::P(c) => vec![c], Shape::R(c, d) | Shape::L(c, d) => vec![c, d], Shape::M(v) => v.iter().collect() };
            let n = pts[0].len();
            let lo = (0..n).map(|i| pts.iter().map(|p| p[i]).min().unwrap()).collect();
            let hi = (0..n).map(|i| pts.iter().map(|p| p[i]).max().unwrap()).collect();
            Elem { sh, lo, hi, eq: o["e"].as_u64().unwrap() }
        }).collect();
        Scout { tab, sc: e["sc"].as_i64().unwrap(), min: us(&e["min"]), max: us(&e["max"]), dim: us(&e["dim"]) as u32, ..Default::default() }
    }
    fn el(&self, k: u32) -> &Elem { &self.tab[k as usize - 1] }
    fn matches(&self, q: &Value, k: u32) -> bool {
        let e = self.el(k);
        let n = e.lo.len();
        match q["t"].as_str().unwrap() {
            "all" => true,
            "in" | "x" if q["b"].as_array().unwrap().is_empty() => false,
            "in" => { let (l, h) = (ints(&q["b"][0]), ints(&q["b"][1])); (0..n).all(|i| l[i] <= e.lo[i] && e.hi[i] <= h[i]) }
            "x" => { let (l, h) = (ints(&q["b"][0]), ints(&q["b"][1])); (0..n).all(|i| l[i] <= e.hi[i] && e.lo[i] <= h[i]) }
            "at" => e.has(&ints(&q["p"])),
            "wd" => e.d2(&ints(&q["p"]), self.sc) <= q["m"].as_i64().unwrap(),
            "eq" => e.eq == self.el(q["k"].as_u64().unwrap() as u32).eq,
            _ => false,
        }
    }
    fn offered(&self, c: &Value, q: &Value, out: &mut Vec<u32>) {
        let (ns, ls) = (c["n"].as_array().unwrap(), c["l"].as_array().unwrap());
        if ns.is_empty() && ls.is_empty() { return }
        let (lo, hi) = (ints(&c["e"][0]), ints(&c["e"][1]));
        let ok = match q["nt"].as_str().unwrap() {
            "all" => true,
            "none" => false,
            "thr" => lo[us(&q["ax"]) - 1] <= q["nv"].as_i64().unwrap(),
            "mod" => (3 * lo.iter().sum::<i64>() + hi.iter().sum::<i64>()).rem_euclid(q["nm"].as_i64().unwrap()) != q["nr"].as_i64().unwrap(),
            _ => { let p = ints(&q["np"]); (0..p.len()).all(|i| lo[i] <= p[i] && p[i] <= hi[i]) }
        };
        if !ok { return }
        out.extend(keys(&c["l"]));
        for n in ns { self.offered(n, q, out) }
    }
    fn elem_test(&self, q: &Value, k: u32) -> bool {
        match q["et"].as_str().unwrap() {
            "all" => true,
            "none" => false,
            "mod" => k as i64 % q["em"].as_i64().unwrap() != q["er"].as_i64().unwrap(),
            _ => self.el(k).lo[us(&q["ex"]) - 1] <= q["ev"].as_i64().unwrap(),
        }
    }
    fn sel(&self, t: &Tree, q: &Value) -> Option<Bag> {
        if q["t"] == "cu" {
            let mut o = vec![];
            self.offered(t.str.as_ref()?, q, &mut o);
            o.retain(|k| self.elem_test(q, *k));
            return Some(bag_of(&o));
        }
        Some(t.bag.iter().filter(|(k, _)| self.matches(q, **k)).map(|(k, n)| (*k, *n)).collect())
    }
    fn dists(&self, r: &[u32], p: &[i64], d: &Value) -> bool {
        let d = ints(d);
        d.is_empty() || (d.len() == r.len() && r.iter().zip(&d).all(|(k, x)| self.el(*k).d2(p, self.sc) == *x))
    }
    /// leaf keys, depths, largest fan, smallest fan below the root; false if malformed
    fn walk(&self, c: &Value, depth: usize, root: bool, out: &mut Vec<u32>, dep: &mut Vec<usize>, fans: &mut (usize, usize)) -> bool {
        let (ns, ls) = (c["n"].as_array().unwrap(), keys(&c["l"]));
        let fan = ns.len() + ls.len();
        fans.0 = fans.0.max(fan);
        if !root { fans.1 = fans.1.min(fan) }
        let mut ok = (ns.is_empty() || ls.is_empty()) && (root || fan > 0);
        let (mut lo, mut hi): (Vec<i64>, Vec<i64>) = (vec![], vec![]);
        let mut grow = |l: &[i64], h: &[i64]| {
            if lo.is_empty() { lo = l.to_vec(); hi = h.to_vec() }
            else { for i in 0..lo.len().min(l.len()) { lo[i] = lo[i].min(l[i]); hi[i] = hi[i].max(h[i]) } }
        };
        for n in ns { ok &= n["e"].as_array().is_some_and(|a| a.len() == 2); let (l, h) = (ints(&n["e"][0]), ints(&n["e"][1])); if !l.is_empty() { grow(&l, &h) } }
        for k in &ls { if *k == 0 || *k as usize > self.tab.len() { return false } let e = self.el(*k); grow(&e.lo, &e.hi) }
        let e = c["e"].as_array().unwrap();
        ok &= if lo.is_empty() { e.is_empty() } else { e.len() == 2 && ints(&e[0]) == lo && ints(&e[1]) == hi };
        if !ls.is_empty() { dep.push(depth) }
        out.extend(ls);
        for n in ns { ok &= self.walk(n, depth + 1, false, out, dep, fans) }
        ok
    }

    /// Is this line a step of the specification?
    pub fn step(&mut self, e: &Value) -> bool {
        if e.get("panic").is_some() { return false }
        let s = us(&e["s"]);
        let op = e["op"].as_str().unwrap();
        let busy = self.dr.as_ref().map(|d| d.s);
        let r = keys(&e["r"]);
        let known = |r: &[u32], t: usize| r.iter().all(|k| *k >= 1 && *k as usize <= t);
        if op != "Join" && !known(&r, self.tab.len()) { return false }
        match op {
            "DrN" | "DrE" => {}
            "Met" => return e["off"] == 0 && e["got"] == e["want"],
            "New" | "Bulk" => if busy == Some(s) { return false },
            _ => if !self.db.contains_key(&s) || busy == Some(s) { return false },
        }
        let t = self.db.get(&s);
        macro_rules! t { () => { t.unwrap() } }
        match op {
            "New" => { self.db.insert(s, Tree::default()); true }
            "Bulk" => {
                let mut t = Tree::default();
                for k in keys(&e["ks"]) { t.add(k) }
                t.hist = 1;
                self.db.insert(s, t);
                true
            }
            "Ins" => { let k = e["k"].as_u64().unwrap() as u32; self.db.get_mut(&s).unwrap().add(k); true }
            "Size" => us(&e["n"]) == t!().n,
            "Iter" => lists(&r, &t!().bag) && t!().paid(&r, &e["v"]),
            "Into" => { let ok = lists(&r, &t!().bag) && t!().paid(&r, &e["v"]); self.db.remove(&s); ok }
            "Kill" => { self.db.remove(&s); true }
            "Has" => { let k = e["k"].as_u64().unwrap() as u32; e["a"] == t!().bag.keys().any(|x| self.el(*x).eq == self.el(k).eq) }
            "Rem" => {
                let Some(b) = self.sel(t!(), &e["q"]) else { return false };
                let t = self.db.get_mut(&s).unwrap();
                if r.is_empty() { t.str = None; return b.is_empty() }
                if r.len() > 1 || !b.contains_key(&r[0]) || !t.paid(&r, &e["v"]) { return false }
                t.take(r[0]);
                true
            }
            "RemBoom" => { let t = self.db.get_mut(&s).unwrap(); t.str = None; t.rm = true; true }
            "Loc" | "Take" | "Visit" => {
                let Some(b) = self.sel(t!(), &e["q"]) else { return false };
                if !t!().paid(&r, &e["v"]) { return false }
                if op == "Loc" {
                    if e["q"]["t"] == "cu" {
                        let mut o = vec![];
                        self.offered(t!().str.as_ref().unwrap(), &e["q"], &mut o);
                        if !some_of(&keys(&e["sh"]), &bag_of(&o)) { return false }
                    }
                    return lists(&r, &b) && e["b"] == false;
                }
                let (n, m) = (us(&e["n"]), total(&b));
                some_of(&r, &b) && r.len() == n.min(m) && (op == "Take" || e["b"] == (n <= m))
            }
            "Mut" => {
                let Some(b) = self.sel(t!(), &e["q"]) else { return false };
                if !some_of(&r, &b) || r.len() != us(&e["n"]).min(total(&b)) { return false }
                let d = e["d"].as_i64().unwrap();
                let t = self.db.get_mut(&s).unwrap();
                for k in &r { *t.val.get_mut(k).unwrap() += d }
                true
            }
            "One" => {
                let p = ints(&e["p"]);
                if r.is_empty() { return !t!().bag.keys().any(|k| self.el(*k).has(&p)) }
                r.len() == 1 && t!().bag.contains_key(&r[0]) && self.el(r[0]).has(&p) && t!().paid(&r, &e["v"])
            }
            "NN" | "NNI" | "NNs" | "Pop" => {
                let p = ints(&e["p"]);
                let t = t!();
                let all: HashMap<u32, i64> = t.bag.keys().map(|k| (*k, self.el(*k).d2(&p, self.sc))).collect();
                let m = all.values().copied().min();
                if !t.paid(&r, &e["v"]) || !self.dists(&r, &p, &e["d"]) { return false }
                match op {
                    "NN" => if r.is_empty() { m.is_none() } else { r.len() == 1 && all.contains_key(&r[0]) && Some(all[&r[0]]) == m },
                    "Pop" => {
                        if r.is_empty() { self.db.get_mut(&s).unwrap().str = None; return m.is_none() }
                        if r.len() > 1 || !all.contains_key(&r[0]) || Some(all[&r[0]]) != m { return false }
                        self.db.get_mut(&s).unwrap().take(r[0]);
                        true
                    }
                    "NNs" => {
                        let b: Bag = t.bag.iter().filter(|(k, _)| Some(all[*k]) == m).map(|(k, n)| (*k, *n)).collect();
                        lists(&r, &b)
                    }
                    _ => {
                        if !some_of(&r, &t.bag) || r.len() != us(&e["n"]).min(t.n) { return false }
                        if r.windows(2).any(|w| all[&w[0]] > all[&w[1]]) { return false }
                        let Some(last) = r.last() else { return true };
                        let got = bag_of(&r);
                        t.bag.iter().all(|(k, n)| got.get(k).copied().unwrap_or(0) >= *n || all[k] >= all[last])
                    }
                }
            }
            "DrB" => {
                if self.dr.is_some() { return false }
                let Some(sel) = self.sel(t!(), &e["q"]) else { return false };
                self.dr = Some(Drain { s, sel, end: false });
                true
            }
            "DrN" => {
                let Some(dr) = &mut self.dr else { return false };
                if e["x"] == 1 { return true }
                if r.is_empty() { dr.end = true; return dr.sel.is_empty() }
                let t = self.db.get_mut(&dr.s).unwrap();
                if r.len() > 1 || !dr.sel.contains_key(&r[0]) || !t.paid(&r, &e["v"]) { return false }
                minus(&mut dr.sel, r[0]);
                t.take(r[0]);
                true
            }
            "DrE" => {
                let Some(dr) = self.dr.take() else { return false };
                let t = self.db.get_mut(&dr.s).unwrap();
                if e["m"] == "forget" && !dr.end { *t = Tree::default() } else { t.str = None; t.rm = true }
                true
            }
            "Clone" | "Serde" => { let t = t!().clone(); self.db.insert(us(&e["to"]), t); true }
            "Join" => {
                let Some(t2) = self.db.get(&us(&e["s2"])) else { return false };
                let mut want: HashMap<(u32, u32), u32> = HashMap::new();
                for (a, n) in &t!().bag { for (b, m) in &t2.bag { if self.el(*a).touches(self.el(*b)) { want.insert((*a, *b), n * m); } } }
                for p in e["r"].as_array().unwrap() {
                    let p = keys(p);
                    match want.get_mut(&(p[0], p[1])) { Some(n) if *n > 0 => *n -= 1, _ => return false }
                }
                want.values().all(|n| *n == 0)
            }
            "Str" => {
                let c = &e["c"];
                if t!().str.as_ref().is_some_and(|x| x != c) { return false }
                let (mut out, mut dep, mut fans) = (vec![], vec![], (0, usize::MAX));
                let wf = self.walk(c, 1, true, &mut out, &mut dep, &mut fans);
                let t = self.db.get_mut(&s).unwrap();
                if !lists(&out, &t.bag) { return false }
                t.str = Some(c.clone());
                e["chk"].as_array().unwrap().iter().all(|k| match k.as_str().unwrap() {
                    "wf" => wf,
                    "inc" => t.hist != 0 || (dep.iter().all(|d| *d == dep[0]) && fans.0 <= self.max && (t.rm || fans.1 >= self.min)),
                    _ => t.hist != 1 || fans.0 <= self.max.max(1usize << self.dim),
                })
            }
            _ => false, // Prim, Box, Prm: left to TLC
        }
    }
}
