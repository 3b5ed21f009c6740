//! Trees of elements with arbitrary floating point coordinates, where every distance is rounded.
//! The driver compares each answer with a look at all elements and reports how many were wrong; what
//! may be wrong by rounding alone (distances that differ by a few units in the last place) does not
//! count as wrong.
use crate::configs::Pm;
use crate::gen::Rng;
use rstar::primitives::*;
use rstar::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeSet;

pub trait Fl: RTreeNum + 'static { const EPS: f64; fn of(x: f64) -> Self; fn f(self) -> f64; }
impl Fl for f64 { const EPS: f64 = f64::EPSILON; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } }
impl Fl for f32 { const EPS: f64 = f32::EPSILON as f64; fn of(x: f64) -> f32 { if x.is_finite() { (x as f32).clamp(f32::MIN, f32::MAX) } else { x as f32 } } fn f(self) -> f64 { self as f64 } }
/// only the numbers at the ends of the range and small ones
impl Fl for i32 { const EPS: f64 = 0.0; fn of(x: f64) -> i32 { x as i32 } fn f(self) -> f64 { self as f64 } }
pub trait Bx: Envelope + 'static { fn mk(a: Self::Point, b: Self::Point) -> Self; fn lo(&self) -> Self::Point; fn hi(&self) -> Self::Point; }
impl<P: Point + 'static> Bx for AABB<P> { fn mk(a: P, b: P) -> Self { AABB::from_corners(a, b) } fn lo(&self) -> P { self.lower() } fn hi(&self) -> P { self.upper() } }
pub trait Shaped: PointDistance<Envelope: Bx<Point = Self::P>> + PartialEq + Clone + std::fmt::Debug + 'static {
    type P: Point<Scalar = Self::S> + 'static;
    type S: Fl;
    const KIND: char;
    fn shaped(a: Self::P, b: Self::P) -> Self;
}
macro_rules! bare {
    ($($t:ty, $s:ty;)*) => { $(
        impl Shaped for $t { type P = $t; type S = $s; const KIND: char = 'p'; fn shaped(a: $t, _: $t) -> Self { a } }
    )* }
}
bare! {
    [f32; 2], f32; [f32; 3], f32; [f64; 2], f64; [f64; 3], f64; [f64; 4], f64; [f64; 9], f64;
    (f32, f32), f32; (f64, f64), f64; (f64, f64, f64), f64; (f32, f32, f32, f32), f32;
    (f64, f64, f64, f64, f64), f64; (f32, f32, f32, f32, f32, f32), f32; (f64, f64, f64, f64, f64, f64, f64), f64;
    (f64, f64, f64, f64, f64, f64, f64, f64), f64; (f64, f64, f64, f64, f64, f64, f64, f64, f64), f64;
    (f64, f64, f64, f64, f64, f64, f64, f64, f64, f64), f64;
    ::mint::Point2<f64>, f64; ::mint::Point3<f32>, f32; Own, f64; [i32; 2], i32; (i32, i32, i32), i32;
}
/// coordinates at the ends of the range of their type, where no number may be computed from them
const ENDS: u64 = 7;
/// a user-defined point, stored the other way round
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Own { z: f64, y: f64, x: f64 }
impl Point for Own {
    type Scalar = f64;
    const DIMENSIONS: usize = 3;
    fn generate(mut g: impl FnMut(usize) -> f64) -> Self { let (x, y) = (g(0), g(1)); Own { x, y, z: g(2) } }
    fn nth(&self, i: usize) -> f64 { match i { 0 => self.x, 1 => self.y, 2 => self.z, _ => unreachable!() } }
    fn nth_mut(&mut self, i: usize) -> &mut f64 { match i { 0 => &mut self.x, 1 => &mut self.y, 2 => &mut self.z, _ => unreachable!() } }
}
impl<P: Point<Scalar: Fl> + 'static> Shaped for Rectangle<P> { type P = P; type S = P::Scalar; const KIND: char = 'r'; fn shaped(a: P, b: P) -> Self { Rectangle::from_corners(a, b) } }
impl<P: Point<Scalar: Fl> + 'static> Shaped for Line<P> { type P = P; type S = P::Scalar; const KIND: char = 'l'; fn shaped(a: P, b: P) -> Self { Line::new(a, b) } }

/// a user-defined envelope, with nothing but the required methods, and an element with nothing but its distance
#[derive(Clone, PartialEq, Debug)]
pub enum Ce { No, Of([f64; 2], [f64; 2]) }
impl Ce { fn all(&self, f: impl Fn(&[f64; 2], &[f64; 2]) -> bool) -> bool { matches!(self, Ce::Of(l, h) if f(l, h)) } }
impl Envelope for Ce {
    type Point = [f64; 2];
    fn new_empty() -> Self { Ce::No }
    fn contains_point(&self, p: &[f64; 2]) -> bool { self.all(|l, h| (0..2).all(|i| l[i] <= p[i] && p[i] <= h[i])) }
    fn contains_envelope(&self, o: &Self) -> bool { self.all(|l, h| o.all(|a, b| (0..2).all(|i| l[i] <= a[i] && b[i] <= h[i]))) }
    fn merge(&mut self, o: &Self) { *self = self.merged(o) }
    fn merged(&self, o: &Self) -> Self { match (self, o) {
        (Ce::No, x) | (x, Ce::No) => x.clone(),
        (Ce::Of(l, h), Ce::Of(a, b)) => Ce::Of([l[0].min(a[0]), l[1].min(a[1])], [h[0].max(b[0]), h[1].max(b[1])]),
    } }
    fn intersects(&self, o: &Self) -> bool { self.all(|l, h| o.all(|a, b| (0..2).all(|i| l[i] <= b[i] && a[i] <= h[i]))) }
    fn intersection_area(&self, o: &Self) -> f64 { match (self, o) { (Ce::Of(l, h), Ce::Of(a, b)) => (0..2).map(|i| (h[i].min(b[i]) - l[i].max(a[i])).max(0.0)).product(), _ => 0.0 } }
    fn area(&self) -> f64 { match self { Ce::Of(l, h) => (h[0] - l[0]) * (h[1] - l[1]), Ce::No => 0.0 } }
    fn distance_2(&self, p: &[f64; 2]) -> f64 { match self { Ce::Of(l, h) => (0..2).map(|i| { let d = p[i] - p[i].max(l[i]).min(h[i]); d * d }).sum(), Ce::No => f64::INFINITY } }
    fn min_max_dist_2(&self, p: &[f64; 2]) -> f64 { match self {
        Ce::Of(l, h) => {
            let (a, b) = ([0, 1].map(|i| (p[i] - l[i]).powi(2).min((p[i] - h[i]).powi(2))), [0, 1].map(|i| (p[i] - l[i]).powi(2).max((p[i] - h[i]).powi(2))));
            (a[0] + b[1]).min(b[0] + a[1])
        }
        Ce::No => f64::INFINITY
    } }
    fn center(&self) -> [f64; 2] { match self { Ce::Of(l, h) => [(l[0] + h[0]) / 2.0, (l[1] + h[1]) / 2.0], Ce::No => [0.0; 2] } }
    fn perimeter_value(&self) -> f64 { match self { Ce::Of(l, h) => h[0] - l[0] + h[1] - l[1], Ce::No => 0.0 } }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) { v.sort_by(|a, b| a.envelope().lo()[axis].partial_cmp(&b.envelope().lo()[axis]).unwrap()) }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], _: usize) { Self::sort_envelopes(axis, v) }
}
impl Bx for Ce {
    fn mk(a: [f64; 2], b: [f64; 2]) -> Self { Ce::Of([a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]) }
    fn lo(&self) -> [f64; 2] { match self { Ce::Of(l, _) => *l, Ce::No => [f64::INFINITY; 2] } }
    fn hi(&self) -> [f64; 2] { match self { Ce::Of(_, h) => *h, Ce::No => [f64::NEG_INFINITY; 2] } }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Cu { a: [f64; 2], b: [f64; 2] }
impl RTreeObject for Cu { type Envelope = Ce; fn envelope(&self) -> Ce { Ce::mk(self.a, self.b) } }
impl PointDistance for Cu { fn distance_2(&self, p: &[f64; 2]) -> f64 { Envelope::distance_2(&self.envelope(), p) } }
impl Shaped for Cu { type P = [f64; 2]; type S = f64; const KIND: char = 'r'; fn shaped(a: [f64; 2], b: [f64; 2]) -> Self { Cu { a, b } } }

/// a selection with a node test and an element test of their own; counts the elements shown and may panic
struct Sel<'a, G> { ax: usize, at: f64, low: bool, m: usize, k: usize, seen: &'a Cell<usize>, boom: usize, g: std::marker::PhantomData<G> }
impl<G: Shaped> SelectionFunction<El<G>> for Sel<'_, G> {
    fn should_unpack_parent(&self, e: &G::Envelope) -> bool {
        if self.boom > 0 { self.seen.set(self.seen.get() + 1); if self.seen.get() == self.boom { panic!("test") } }
        if self.low { e.lo().nth(self.ax).f() <= self.at } else { e.hi().nth(self.ax).f() >= self.at }
    }
    fn should_unpack_leaf(&self, x: &El<G>) -> bool {
        self.seen.set(self.seen.get() + 1);
        if self.seen.get() == self.boom { panic!("test") }
        x.data % self.m != self.k
    }
}
/// the elements selected, and how many are shown to the element test
fn chosen<G: Shaped>(n: &ParentNode<El<G>>, s: &Sel<G>, out: &mut Vec<usize>) -> usize {
    if !s.should_unpack_parent(&n.envelope()) { return 0 }
    n.children().iter().map(|c| match c {
        RTreeNode::Leaf(x) => { if x.data % s.m != s.k { out.push(x.data) } 1 }
        RTreeNode::Parent(p) => chosen(p, s, out),
    }).sum()
}
type El<G> = GeomWithData<G, usize>;
struct World<G: Shaped> { all: Vec<El<G>>, ends: Vec<[Vec<f64>; 2]>, held: BTreeSet<usize>, mag: f64 }
impl<G: Shaped> World<G> {
    /// distances closer than this may be confused
    fn tol(&self, d: f64) -> f64 { if G::KIND == 'l' { G::S::EPS * 256.0 * (d + self.mag * self.mag * if G::S::EPS > 1e-10 { 1e-1 } else { 1.0 }) } else { G::S::EPS * 64.0 * d } }
    /// computed from the coordinates alone
    fn dist(&self, k: usize, p: &G::P) -> f64 {
        let [a, b] = &self.ends[k];
        let n = a.len();
        match G::KIND {
            'p' => (0..n).map(|i| (p.nth(i).f() - a[i]).powi(2)).sum(),
            'r' => (0..n).map(|i| { let (x, l, h) = (p.nth(i).f(), a[i].min(b[i]), a[i].max(b[i])); (x - x.max(l).min(h)).powi(2) }).sum(),
            _ => {
                let dot: f64 = (0..n).map(|i| (p.nth(i).f() - a[i]) * (b[i] - a[i])).sum();
                let len: f64 = (0..n).map(|i| (b[i] - a[i]).powi(2)).sum();
                let s = if len > 0.0 { (dot / len).max(0.0).min(1.0) } else { 0.0 };
                (0..n).map(|i| (p.nth(i).f() - (a[i] + (b[i] - a[i]) * s)).powi(2)).sum()
            }
        }
    }
    fn min(&self, p: &G::P) -> f64 { self.held.iter().map(|k| self.dist(*k, p)).fold(f64::INFINITY, f64::min) }
    fn lohi(&self, k: usize) -> (Vec<f64>, Vec<f64>) {
        let [a, b] = &self.ends[k];
        if G::KIND == 'p' { return (a.clone(), a.clone()) }
        (0..a.len()).map(|i| (a[i].min(b[i]), a[i].max(b[i]))).unzip()
    }
}
#[derive(Default)]
struct Tally { want: Cell<usize>, got: Cell<usize>, off: Cell<usize> }
impl Tally {
    fn check(&self, mut g: Vec<usize>, mut x: Vec<usize>) {
        g.sort();
        x.sort();
        self.want.set(self.want.get() + x.len());
        self.got.set(self.got.get() + g.len());
        self.off.set(self.off.get() + (g != x) as usize);
    }
}
fn coord(r: &mut Rng) -> f64 { (r.next() >> 11) as f64 / (1u64 << 53) as f64 }
fn value(r: &mut Rng, k: u64, base: &[f64]) -> f64 {
    match k {
        0 => coord(r),
        1 => r.to(-20, 20) as f64 * 0.1,
        2 => 1.0e5 + coord(r),
        3 => *r.pick(base),
        4 => { let e = r.to(-12, 12); let s = if r.p(50) { -1.0 } else { 1.0 }; s * coord(r) * 2f64.powi(e as i32) }
        5 => if r.p(40) { *r.pick(&[0.0, -0.0]) } else { r.to(-3, 3) as f64 / 3.0 },
        ENDS => match r.below(8) { 0 => f64::MAX, 1 => f64::MIN, 2 => 2147483646.0, 3 => -2147483647.0, 4 => f32::MAX as f64, _ => r.to(-2, 2) as f64 },
        _ => -coord(r) * 1e-3,
    }
}
fn point<P: Point<Scalar: Fl>>(r: &mut Rng, k: u64, base: &[f64]) -> P {
    let v: Vec<f64> = (0..P::DIMENSIONS).map(|_| value(r, k, base)).collect();
    P::generate(|i| P::Scalar::of(v[i]))
}
/// coordinates of the elements, each from any of them
fn near<G: Shaped>(r: &mut Rng, w: &World<G>, k: u64, base: &[f64]) -> G::P {
    let mut p: G::P = point(r, k, base);
    if k == ENDS && G::S::EPS > 0.0 && r.p(10) { *p.nth_mut(r.below(G::P::DIMENSIONS as u64) as usize) = G::S::of(if r.p(50) { f64::INFINITY } else { f64::NEG_INFINITY }) }
    if w.all.is_empty() || r.p(35) { return p }
    let one = r.below(w.all.len() as u64) as usize;
    if G::KIND == 'l' && r.p(50) { // straight beside an end of a segment
        let [a, b] = &w.ends[one];
        let (i, j) = (r.below(a.len() as u64) as usize, r.below(a.len() as u64) as usize);
        let mut v = if r.p(50) { a.clone() } else { b.clone() };
        let t = if r.p(50) { 1.0 } else { coord(r) } * if r.p(50) { -1.0 } else { 1.0 };
        if i != j { v[i] -= (b[j] - a[j]) * t; v[j] += (b[i] - a[i]) * t }
        return G::P::generate(|i| G::S::of(v[i]));
    }
    let mix = r.p(40);
    let v: Vec<f64> = (0..G::P::DIMENSIONS).map(|i| {
        let j = if mix { r.below(w.all.len() as u64) as usize } else { one };
        let (l, h) = w.lohi(j);
        match r.below(8) { 0 => p.nth(i).f(), 1 if k != ENDS => (l[i] + h[i]) / 2.0, x if x % 2 == 0 => l[i], _ => h[i] }
    }).collect();
    G::P::generate(|i| G::S::of(v[i]))
}
/// depths of the elements and numbers of children
fn measure<T: RTreeObject>(n: &ParentNode<T>, d: usize, top: bool, out: &mut (usize, usize, usize, usize)) {
    out.2 = out.2.max(n.children().len());
    if !top { out.3 = out.3.min(n.children().len()) }
    for c in n.children() {
        match c { RTreeNode::Leaf(_) => { out.0 = out.0.min(d); out.1 = out.1.max(d) } RTreeNode::Parent(p) => measure(p, d + 1, false, out) }
    }
}
fn walk<T: RTreeObject>(n: &ParentNode<T>, top: bool) -> usize {
    let mut off = 0;
    let mut e = T::Envelope::new_empty();
    for c in n.children() {
        match c { RTreeNode::Leaf(t) => e.merge(&t.envelope()), RTreeNode::Parent(p) => { off += walk(p, false); e.merge(&p.envelope()) } }
    }
    if e != n.envelope() || (n.children().is_empty() && !top) { off += 1 }
    off
}

type Via<G, Q> = fn(&RTree<El<G>, Q>) -> RTree<El<G>, Q>;
fn met<G: Shaped, Q: RTreeParams + Clone>(e: &mut Value) { run_met::<G, Q>(e, None) }
/// the tree is also written and read back
fn ser<G: Shaped<P: serde::Serialize + serde::de::DeserializeOwned, Envelope: serde::Serialize + serde::de::DeserializeOwned> + serde::Serialize + serde::de::DeserializeOwned, Q: RTreeParams + Clone>(e: &mut Value) { run_met::<G, Q>(e, Some(crate::api::via_json)) }
fn run_met<G: Shaped, Q: RTreeParams + Clone>(e: &mut Value, via: Option<Via<G, Q>>) {
    let (n, kind, hist, f) = (e["n"].as_u64().unwrap() as usize, e["k"].as_u64().unwrap(), e["h"].as_u64().unwrap(), e["f"].as_str().unwrap().to_string());
    let mut r = Rng(e["seed"].as_u64().unwrap());
    let base: Vec<f64> = (0..4).map(|_| coord(&mut r)).collect();
    let mut w = World::<G> { all: vec![], ends: vec![], held: Default::default(), mag: 0.0 };
    for key in 0..n {
        let a: G::P = point(&mut r, kind, &base);
        let mut b: G::P = point(&mut r, kind, &base);
        match if kind == ENDS { 3 } else { r.below(4) } { // short, along an axis, or anything
            0 => { let a = &a; let c = b.clone(); let s = G::S::of(0.015625); b = G::P::generate(|i| a.nth(i) + (c.nth(i) - a.nth(i)) * s) }
            1 => { let ax = r.below(G::P::DIMENSIONS as u64) as usize; let c = b.clone(); b = G::P::generate(|i| if i == ax { c.nth(i) } else { a.nth(i) }) }
            2 if G::KIND != 'p' => { let s = G::S::of(0.25); let (x, c) = (a.clone(), b.clone()); b = G::P::generate(|i| x.nth(i) + (c.nth(i) - x.nth(i)) * s) }
            _ => {}
        }
        let co = |p: &G::P| (0..G::P::DIMENSIONS).map(|i| p.nth(i).f()).collect::<Vec<f64>>();
        let twin = if key > 0 && r.p(12) { Some(r.below(key as u64) as usize) } else { None };
        let ends = match twin { Some(j) => w.ends[j].clone(), None => [co(&a), co(&b)] };
        let g = match twin { Some(j) => w.all[j].geom().clone(), None => G::shaped(a, b) };
        w.ends.push(ends);
        w.all.push(GeomWithData::new(g, key));
        let (l, h) = w.lohi(key);
        for x in l.iter().chain(&h) { w.mag = w.mag.max(x.abs()) }
    }
    // the tree
    let mut t: RTree<El<G>, Q> = match hist {
        0 => RTree::bulk_load_with_params(w.all.clone()),
        1 => { let m = n / 2; let mut t = RTree::bulk_load_with_params(w.all[..m].to_vec()); for x in &w.all[m..] { t.insert(x.clone()) } t }
        4 => {
            let m = n * 2 / 3;
            let mut t = RTree::new_with_params();
            for x in &w.all[..m] { t.insert(x.clone()) }
            w.held = (0..n).collect();
            for _ in 0..r.to(0, m.min(5000) as i64) {
                let k = r.below(m as u64) as usize;
                if let Some(x) = t.remove(&w.all[k]) { w.held.remove(&x.data); }
            }
            for x in &w.all[m..] { t.insert(x.clone()) }
            t
        }
        _ => { let mut t = RTree::new_with_params(); for x in &w.all { t.insert(x.clone()) } t }
    };
    if hist != 4 { w.held = (0..n).collect() }
    let tally = Tally::default();
    let (mut want, mut got, mut off) = (0usize, 0usize, 0usize);
    if hist == 3 || f == "has" {
        for _ in 0..(n / 3).min(if n > 5000 { 150 } else { 1500 }) {
            let k = r.below(n as u64) as usize;
            want += 1;
            let held = w.held.iter().any(|x| w.all[*x] == w.all[k]);
            match t.remove(&w.all[k]) {
                Some(x) => { got += held as usize; off += (x != w.all[k] || !w.held.remove(&x.data)) as usize }
                None => got += !held as usize,
            }
        }
    }
    let mut other = None;
    if let (Some(v), true) = (via, e["x"] == 1) { t = v(&t) }
    if e["x"] == 2 { let c = t.clone(); other = Some(std::mem::replace(&mut t, c)) }
    if e["x"] == 3 { let mut c = RTree::new_with_params(); c.clone_from(&t); other = Some(std::mem::replace(&mut t, c)) }
    let gone: BTreeSet<usize> = (0..n).filter(|k| !w.held.contains(k)).collect();
    let keys = |w: &World<G>| -> Vec<usize> { w.held.iter().copied().collect() };
    let check = |g: Vec<usize>, x: Vec<usize>| tally.check(g, x);
    let dim = G::P::DIMENSIONS;
    let rounds = if n > 5000 { 4 } else { 12 };
    match f.as_str() {
        "iter" => {
            check(t.iter().map(|x| x.data).collect(), keys(&w));
            check((0..t.size()).collect(), (0..w.held.len()).collect());
            off += t.iter().filter(|x| **x != w.all[x.data]).count();
            let sum = t.iter().count(); check((0..sum).collect(), (0..w.held.len()).collect());
            check(t.into_iter().map(|x| x.data).collect(), keys(&w));
        }
        "has" => for k in 0..n { if n > 5000 && k % 199 != 0 { continue } let a = t.contains(&w.all[k]); off += (a != w.held.iter().any(|x| w.all[*x] == w.all[k])) as usize },
        "hier" => { off += walk(t.root(), true); let mut m = 0; let mut st = vec![t.root()]; while let Some(x) = st.pop() { for c in x.children() { match c { RTreeNode::Leaf(_) => m += 1, RTreeNode::Parent(p) => st.push(p) } } } check((0..m).collect(), (0..w.held.len()).collect()) }
        "box" | "drain" => for _ in 0..rounds {
            let (a, b) = (near(&mut r, &w, kind, &base), near(&mut r, &w, kind, &base));
            let b = if r.p(20) { a.clone() } else { b };
            let (lo, hi): (Vec<f64>, Vec<f64>) = (0..dim).map(|i| { let (x, y) = (a.nth(i).f(), b.nth(i).f()); (x.min(y), x.max(y)) }).unzip();
            let q = G::Envelope::mk(a, b);
            let inside = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| lo[i] <= l[i] && h[i] <= hi[i]) };
            let meets = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| lo[i] <= h[i] && l[i] <= hi[i]) };
            let (i, m): (Vec<usize>, Vec<usize>) = (w.held.iter().copied().filter(|k| inside(k)).collect(), w.held.iter().copied().filter(|k| meets(k)).collect());
            if f == "drain" {
                if r.p(50) { for k in &i { w.held.remove(k); } check(t.drain_in_envelope(q).map(|x| x.data).collect(), i) }
                else { for k in &m { w.held.remove(k); } check(t.drain_in_envelope_intersecting(q).map(|x| x.data).collect(), m) }
                check(t.iter().map(|x| x.data).collect(), keys(&w));
                check((0..t.size()).collect(), (0..w.held.len()).collect());
                off += walk(t.root(), true);
            } else {
                check(t.locate_in_envelope(q.clone()).map(|x| x.data).collect(), i);
                check(t.locate_in_envelope_intersecting(q).map(|x| x.data).collect(), m);
            }
        },
        "at" => for _ in 0..rounds {
            let p: G::P = near(&mut r, &w, kind, &base);
            let c: Vec<f64> = (0..dim).map(|i| p.nth(i).f()).collect();
            let has = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| l[i] <= c[i] && c[i] <= h[i]) };
            let x: Vec<usize> = w.held.iter().copied().filter(|k| has(k)).collect();
            let one = t.locate_at_point(p.clone()).map(|x| x.data);
            if G::KIND == 'l' { // covered points of a segment depend on rounding
                off += t.locate_all_at_point(p.clone()).filter(|e| !x.contains(&e.data) || e.distance_2(&p).f() > w.tol(0.0)).count();
                off += one.is_some_and(|k| !x.contains(&k)) as usize;
                continue
            }
            off += match one { Some(k) => !x.contains(&k), None => !x.is_empty() } as usize;
            check(t.locate_all_at_point(p).map(|x| x.data).collect(), x);
        },
        "nn" => { let mut p: G::P = near(&mut r, &w, kind, &base); let mut again = true; for _ in 0..rounds * 3 {
            if !r.p(60) || !again { p = near(&mut r, &w, kind, &base) }
            again = r.p(70);
            let m = w.min(&p);
            for d2 in [true, false] {
                let x = if d2 { t.nearest_neighbor_with_distance_2(p.clone()).map(|(x, d)| (x.data, d.f())) } else { t.nearest_neighbor(p.clone()).map(|x| (x.data, w.dist(x.data, &p))) };
                check((0..x.is_some() as usize).collect(), (0..!w.held.is_empty() as usize).collect());
                if let Some((k, d)) = x { off += (!w.held.contains(&k) || w.dist(k, &p) > m + w.tol(m) || (d - w.dist(k, &p)).abs() > w.tol(d)) as usize;
                    // without it, the next one is looked for
                    if again && !d2 { off += match t.remove(&w.all[k]) { Some(x) => !w.held.remove(&x.data) as usize, None => 1 } }
                }
            }
        } },
        "nni" => for _ in 0..rounds / 2 {
            let p: G::P = near(&mut r, &w, kind, &base);
            let v: Vec<(usize, f64)> = t.nearest_neighbor_iter_with_distance_2(p.clone()).map(|(x, d)| (x.data, d.f())).collect();
            off += v.windows(2).filter(|x| x[0].1 > x[1].1 + w.tol(x[0].1)).count();
            off += v.iter().filter(|(k, d)| (d - w.dist(*k, &p)).abs() > w.tol(*d)).count();
            check(v.iter().map(|x| x.0).collect(), keys(&w));
            check(t.nearest_neighbor_iter(p).map(|x| x.data).collect(), keys(&w));
        },
        "nns" => for _ in 0..rounds {
            let p: G::P = near(&mut r, &w, kind, &base);
            let m = w.min(&p);
            let v: Vec<usize> = t.nearest_neighbors(&p).iter().map(|x| x.data).collect();
            // all copies of the nearest ones, and nothing farther away
            off += v.iter().filter(|k| !w.held.contains(k) || w.dist(**k, &p) > m + w.tol(m)).count();
                        check((0..!v.is_empty() as usize).collect(), (0..!w.held.is_empty() as usize).collect());
            let set: BTreeSet<&usize> = v.iter().collect();
            let step = v.len() * w.held.len() / 200_000 + 1;
            off += w.held.iter().filter(|k| *k % step == 0 && !set.contains(k) && v.iter().any(|j| w.all[*j].geom() == w.all[**k].geom())).count();
            off += v.len() - set.len();
        },
        "wd" => for _ in 0..rounds {
            let p: G::P = near(&mut r, &w, kind, &base);
            let all = keys(&w);
            let d = if all.is_empty() || r.p(20) { coord(&mut r) } else { let d = w.dist(*r.pick(&all), &p); if r.p(60) { d } else { d * (0.5 + coord(&mut r)) } };
            let rad = G::S::of(d);
            let d = rad.f();
            let sure: BTreeSet<usize> = all.iter().copied().filter(|k| w.dist(*k, &p) + w.tol(d) < d).collect();
            let may: BTreeSet<usize> = all.iter().copied().filter(|k| w.dist(*k, &p) <= d + w.tol(d)).collect();
            let v: Vec<usize> = t.locate_within_distance(p, rad).map(|x| x.data).collect();
            let set: BTreeSet<usize> = v.iter().copied().collect();
            off += (set.len() != v.len() || !sure.is_subset(&set) || !set.is_subset(&may)) as usize;
            want += 1; got += 1;
        },
        "pop" => {
            let p: G::P = near(&mut r, &w, kind, &base);
            for _ in 0..(w.held.len() + 1).min(if n > 5000 { 5 } else if n > 1000 { 40 } else { 1000 }) {
                let m = w.min(&p);
                match t.pop_nearest_neighbor(p.clone()) {
                    Some(x) => { off += (w.dist(x.data, &p) > m + w.tol(m)) as usize; off += !w.held.remove(&x.data) as usize; }
                    None => off += !w.held.is_empty() as usize,
                }
                off += (t.size() != w.held.len()) as usize;
            }
            check(t.iter().map(|x| x.data).collect(), keys(&w));
        }
        "bal" => {
            let mut m = (usize::MAX, 0, 0, usize::MAX);
            measure(t.root(), 0, true, &mut m);
            off += (!w.held.is_empty() && m.0 != m.1) as usize + (m.2 > Q::MAX_SIZE) as usize;
            off += (w.held.len() == n && m.3 < Q::MIN_SIZE) as usize;
        }
        "int" => for _ in 0..rounds {
            use std::ops::ControlFlow;
            let (a, b) = (near(&mut r, &w, kind, &base), near(&mut r, &w, kind, &base));
            let (lo, hi): (Vec<f64>, Vec<f64>) = (0..dim).map(|i| { let (x, y) = (a.nth(i).f(), b.nth(i).f()); (x.min(y), x.max(y)) }).unzip();
            let q = G::Envelope::mk(a, b);
            let (inner, mutable, stop) = (r.p(50), r.p(50), if r.p(40) { r.to(1, 9) as usize } else { usize::MAX });
            let x: Vec<usize> = w.held.iter().copied().filter(|k| { let (l, h) = w.lohi(*k); (0..dim).all(|i| if inner { lo[i] <= l[i] && h[i] <= hi[i] } else { lo[i] <= h[i] && l[i] <= hi[i] }) }).collect();
            let mut seen = vec![];
            let mut see = |e: &El<G>| { seen.push(e.data); if seen.len() == stop { ControlFlow::Break(stop) } else { ControlFlow::Continue(()) } };
            let res = match (inner, mutable) {
                (true, false) => t.locate_in_envelope_int(q, |e| see(e)),
                (true, true) => t.locate_in_envelope_int_mut(q, |e| see(e)),
                (false, false) => t.locate_in_envelope_intersecting_int(q, |e| see(e)),
                (false, true) => t.locate_in_envelope_intersecting_int_mut(q, |e| see(e)),
            };
            if stop <= x.len() {
                off += (res != ControlFlow::Break(stop) || seen.len() != stop || seen.iter().any(|k| !x.contains(k))) as usize;
                let n = seen.len(); seen.sort(); seen.dedup(); off += n - seen.len();
            } else { off += res.is_break() as usize; check(seen, x) }
        },
        "sel" => for _ in 0..rounds {
            let p: G::P = near(&mut r, &w, kind, &base);
            let seen = Cell::new(0);
            let ax = r.below(dim as u64) as usize;
            let (low, m, k) = (r.p(50), r.to(1, 4) as usize, r.below(5) as usize);
            let sel = || Sel::<G> { ax, at: p.nth(ax).f(), low, m, k, seen: &seen, boom: 0, g: std::marker::PhantomData };
            let mut x = vec![];
            let shown = if t.size() == 0 { 0 } else { chosen(t.root(), &sel(), &mut x) };
            match r.below(5) {
                0 => { check(t.locate_with_selection_function(sel()).map(|x| x.data).collect(), x); check((0..seen.get()).collect(), (0..shown).collect()) }
                1 => { check(t.locate_with_selection_function_mut(sel()).map(|x| x.data).collect(), x); check((0..seen.get()).collect(), (0..shown).collect()) }
                2 => { check(t.drain_with_selection_function(sel()).map(|x| x.data).collect(), x.clone()); for k in &x { w.held.remove(k); } off += (seen.get() > shown) as usize }
                3 => match t.remove_with_selection_function(sel()) { Some(e) => off += (!x.contains(&e.data) || !w.held.remove(&e.data)) as usize, None => off += !x.is_empty() as usize },
                _ => { let c = r.below(x.len() as u64 + 1) as usize; for e in t.drain_with_selection_function(sel()).take(c) { off += (!x.contains(&e.data) || !w.held.remove(&e.data)) as usize; got += 1 } want += c }
            }
            off += (t.size() != w.held.len()) as usize;
            if n < 1000 || r.p(10) { check(t.iter().map(|x| x.data).collect(), keys(&w)); off += walk(t.root(), true) }
        },
        "mut" => for _ in 0..rounds {
            use std::ops::ControlFlow::*;
            const FAR: usize = 1 << 40;
            let (a, b) = (near(&mut r, &w, kind, &base), near(&mut r, &w, kind, &base));
            let b = if r.p(20) { a.clone() } else { b };
            let (lo, hi): (Vec<f64>, Vec<f64>) = (0..dim).map(|i| { let (x, y) = (a.nth(i).f(), b.nth(i).f()); (x.min(y), x.max(y)) }).unzip();
            let c: Vec<f64> = (0..dim).map(|i| a.nth(i).f()).collect();
            let inside = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| lo[i] <= l[i] && h[i] <= hi[i]) };
            let meets = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| lo[i] <= h[i] && l[i] <= hi[i]) };
            let has = |k: &usize| { let (l, h) = w.lohi(*k); (0..dim).all(|i| l[i] <= c[i] && c[i] <= h[i]) };
            let of = |f: &dyn Fn(&usize) -> bool| -> Vec<usize> { w.held.iter().copied().filter(|k| f(k)).collect() };
            let (p, q) = (a.clone(), G::Envelope::mk(a.clone(), b.clone()));
            let before = t.root().envelope();
            let mut hit = vec![];
            let mut on = |e: &mut El<G>| { hit.push(e.data); e.data += FAR };
            let x = match r.below(if G::KIND == 'l' { 5 } else { 8 }) {
                0 => { for e in t.iter_mut() { on(e) } of(&|_| true) }
                1 => { for e in t.locate_in_envelope_mut(q) { on(e) } of(&inside) }
                2 => { for e in t.locate_in_envelope_intersecting_mut(q) { on(e) } of(&meets) }
                3 => { off += t.locate_in_envelope_int_mut(q, |e| { on(e); Continue::<(), ()>(()) }).is_break() as usize; of(&inside) }
                4 => { off += t.locate_in_envelope_intersecting_int_mut(q, |e| { on(e); Continue::<(), ()>(()) }).is_break() as usize; of(&meets) }
                5 => { for e in t.locate_all_at_point_mut(p) { on(e) } of(&has) }
                6 => { off += t.locate_all_at_point_int_mut(p, |e| { on(e); Continue::<(), ()>(()) }).is_break() as usize; of(&has) }
                _ => {
                    let x = of(&has);
                    let e = if r.p(50) { t.locate_at_point_mut(p) } else { t.locate_at_point_int_mut(p) };
                    match e { Some(e) => { let k = e.data; on(e); off += !x.contains(&k) as usize; vec![k] } None => { off += !x.is_empty() as usize; vec![] } }
                }
            };
            let set: BTreeSet<usize> = x.iter().copied().collect();
            check(hit, x);
            check(t.iter().map(|x| x.data).collect(), w.held.iter().map(|k| if set.contains(k) { k + FAR } else { *k }).collect());
            // the new data counts
            for _ in 0..4 {
                if w.held.is_empty() { break }
                let k = r.below(n as u64) as usize;
                let now = GeomWithData::new(w.all[k].geom().clone(), w.all[k].data + FAR);
                off += (t.contains(&w.all[k]) != (w.held.contains(&k) && !set.contains(&k)) || t.contains(&now) != set.contains(&k)) as usize;
                if set.contains(&k) && w.held.contains(&k) && kind != ENDS && r.p(30) {
                    off += (t.remove(&w.all[k]).is_some()) as usize;
                    off += t.remove(&now).is_none() as usize;
                    t.insert(now);
                }
            }
            for e in t.iter_mut() { if e.data >= FAR { e.data -= FAR } }
            off += (t.size() != w.held.len() || t.root().envelope() != before) as usize;
            if n < 1000 || r.p(10) { check(t.iter().map(|x| x.data).collect(), keys(&w)); off += walk(t.root(), true) + t.iter().filter(|x| **x != w.all[x.data]).count() }
        },
        "leak" => for _ in 0..rounds / 2 {
            let p: G::P = near(&mut r, &w, kind, &base);
            let seen = Cell::new(0);
            let (ax, c) = (r.below(dim as u64) as usize, r.below(w.held.len() as u64 + 2) as usize);
            let sel = Sel::<G> { ax, at: p.nth(ax).f(), low: r.p(50), m: r.to(1, 4) as usize, k: r.below(5) as usize, seen: &seen, boom: if r.p(60) { c } else { 0 }, g: std::marker::PhantomData };
            if r.p(70) { // the element test panics while draining or removing
                let (one, cut) = (r.p(30), r.below(40));
                let mut out = vec![];
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if one { t.remove_with_selection_function(sel).map(|x| x.data) }
                    else { let mut d = t.drain_with_selection_function(sel); while let Some(x) = d.next() { out.push(x.data); if out.len() as u64 == cut { break } } None }
                }));
                if let Ok(Some(k)) = res { out.push(k) }
                for k in out { off += !w.held.remove(&k) as usize }
            } else {
                let mut d = t.drain_with_selection_function(Sel { boom: 0, ..sel });
                let k = r.below(6);
                let mut end = false;
                for _ in 0..k { match d.next() { Some(x) => off += !w.held.remove(&x.data) as usize, None => end = true } }
                std::mem::forget(d);
                if !end {
                    w.held.clear();
                    off += (t.size() != 0 || t.iter().count() != 0 || !t.root().children().is_empty() || t.root().envelope() != G::Envelope::new_empty()) as usize;
                }
                if kind == ENDS { break }
                for x in w.all.iter().filter(|_| r.p(50)).take(200).collect::<Vec<_>>() { if w.held.insert(x.data) { t.insert(x.clone()) } }
            }
            off += (t.size() != w.held.len()) as usize + walk(t.root(), true);
            check(t.iter().map(|x| x.data).collect(), keys(&w));
            if n > 0 { let k = r.below(n as u64) as usize; off += (t.contains(&w.all[k]) != w.held.contains(&k)) as usize }
        },
        "wrap" => for k in 0..n.min(60) {
            let g = w.all[k].geom().clone();
            let c = CachedEnvelope::new(g.clone());
            let d = CachedEnvelope::new(GeomWithData::new(ObjectRef::new(&g), k));
            let a = std::sync::Arc::new(g.clone());
            let rc = std::rc::Rc::new(CachedEnvelope::new(g.clone()));
            let o = ObjectRef::new(&a);
            let env = g.envelope();
            off += (c.envelope() != env || d.envelope() != env || a.envelope() != env || rc.envelope() != env || o.envelope() != env || w.all[k].envelope() != env) as usize;
            for _ in 0..6 {
                let p: G::P = near(&mut r, &w, kind, &base);
                let (x, y) = (g.distance_2(&p), g.contains_point(&p));
                off += [c.distance_2(&p), d.distance_2(&p), a.distance_2(&p), rc.distance_2(&p), o.distance_2(&p), w.all[k].distance_2(&p)].iter().filter(|v| **v != x).count();
                off += [c.contains_point(&p), d.contains_point(&p), a.contains_point(&p), rc.contains_point(&p), o.contains_point(&p), w.all[k].contains_point(&p)].iter().filter(|v| **v != y).count();
                for m in [x, G::S::of(x.f() * (0.5 + coord(&mut r))), G::S::of(0.0), G::S::of(-1.0), G::S::of(x.f() * (1.0 + 2.0 * G::S::EPS)), G::S::of(x.f() * (1.0 - 2.0 * G::S::EPS))] {
                    let z = g.distance_2_if_less_or_equal(&p, m);
                    off += [c.distance_2_if_less_or_equal(&p, m), d.distance_2_if_less_or_equal(&p, m), a.distance_2_if_less_or_equal(&p, m), rc.distance_2_if_less_or_equal(&p, m), o.distance_2_if_less_or_equal(&p, m), w.all[k].distance_2_if_less_or_equal(&p, m)].iter().filter(|v| **v != z).count();
                }
                want += 1; got += 1;
            }
        },
        "prim" => for k in 0..n.min(60) {
            let g = w.all[k].geom();
            let (l, h) = w.lohi(k);
            let e = g.envelope();
            off += (0..dim).any(|i| e.lo().nth(i).f() != l[i] || e.hi().nth(i).f() != h[i]) as usize;
            for _ in 0..6 {
                let p: G::P = near(&mut r, &w, kind, &base);
                let (x, d) = (w.dist(k, &p), g.distance_2(&p));
                off += ((d.f() - x).abs() > w.tol(x)) as usize;
                off += (e.distance_2(&p).f() > d.f() + w.tol(d.f())) as usize;
                off += (g.contains_point(&p) != (d.f() <= 0.0)) as usize;
                if G::KIND != 'l' { off += (g.contains_point(&p) != (x == 0.0)) as usize }
                let far = G::S::of(d.f() * (0.5 + coord(&mut r)));
                for m in [d, far, G::S::of(0.0), G::S::of(1e38), G::S::of(-1.0), G::S::of(d.f() * (1.0 + 2.0 * G::S::EPS)), G::S::of(d.f() * (1.0 - 2.0 * G::S::EPS))] {
                    // the bounding box of a segment may seem farther away than the segment
                    if G::KIND == 'l' && d <= m && e.distance_2(&p) > m { continue }
                    off += (g.distance_2_if_less_or_equal(&p, m) != (d <= m).then_some(d)) as usize;
                    // wrapped with data
                    off += (w.all[k].distance_2_if_less_or_equal(&p, m) != (d <= m).then_some(d)) as usize;
                }
                off += (w.all[k].distance_2(&p) != d || w.all[k].contains_point(&p) != g.contains_point(&p)) as usize;
                want += 1; got += 1;
            }
        },
        "boxes" => for k in 0..n.min(60) {
            let ((al, ah), j) = (w.lohi(k), r.below(n as u64) as usize);
            let (bl, bh) = w.lohi(j);
            let mk = |l: &[f64], h: &[f64]| AABB::from_corners(G::P::generate(|i| G::S::of(l[i])), G::P::generate(|i| G::S::of(h[i])));
            // corners in any order
            let (mut c, mut d) = (al.clone(), ah.clone());
            for i in 0..dim { if r.p(50) { std::mem::swap(&mut c[i], &mut d[i]) } }
            let (a, b) = (mk(&c, &d), mk(&bl, &bh));
            let is = |x: &AABB<G::P>, l: &[f64], h: &[f64]| (0..dim).all(|i| x.lower().nth(i).f() == l[i] && x.upper().nth(i).f() == h[i]);
            let near_to = |x: f64, y: f64| (x - y).abs() <= G::S::EPS * 64.0 * y.abs() + if G::S::EPS > 1e-10 { 1e-37 } else { 1e-300 };
            let (ml, mh): (Vec<f64>, Vec<f64>) = (0..dim).map(|i| (al[i].min(bl[i]), ah[i].max(bh[i]))).unzip();
            let mut m = a.clone();
            m.merge(&b);
            let sect: f64 = (0..dim).map(|i| (ah[i].min(bh[i]) - al[i].max(bl[i])).max(0.0)).product();
            let two = [a.lower(), a.upper(), b.lower(), b.upper()];
            let oks = [
                is(&a, &al, &ah), is(&m, &ml, &mh), is(&a.merged(&b), &ml, &mh), is(&AABB::from_points(two.iter()), &ml, &mh), is(&AABB::from_bounds(a.lower(), a.upper()), &al, &ah),
                is(&AABB::from_point(a.lower()), &al, &al),
                a.contains_envelope(&b) == (0..dim).all(|i| al[i] <= bl[i] && bh[i] <= ah[i]),
                a.intersects(&b) == (0..dim).all(|i| al[i] <= bh[i] && bl[i] <= ah[i]),
                !a.is_empty() && AABB::<G::P>::new_empty().is_empty() && !m.is_empty(),
                is(&AABB::<G::P>::new_empty().merged(&a), &al, &ah), is(&a.merged(&AABB::new_empty()), &al, &ah),
                !AABB::<G::P>::new_empty().intersects(&a) && !a.intersects(&AABB::new_empty()),
                kind == ENDS || near_to(a.area().f(), (0..dim).map(|i| ah[i] - al[i]).product()), kind == ENDS || near_to(a.perimeter_value().f(), (0..dim).map(|i| ah[i] - al[i]).sum()),
                kind == ENDS || near_to(a.intersection_area(&b).f(), sect),
                kind == ENDS || (0..dim).all(|i| (a.center().nth(i).f() - (al[i] + ah[i]) / 2.0).abs() <= G::S::EPS * 4.0 * (al[i].abs() + ah[i].abs())),
            ];
            off += oks.iter().filter(|x| !**x).count();
            for _ in 0..4 {
                let p: G::P = near(&mut r, &w, kind, &base);
                let c: Vec<f64> = (0..dim).map(|i| p.nth(i).f()).collect();
                let q: Vec<f64> = (0..dim).map(|i| c[i].max(al[i]).min(ah[i])).collect();
                let d: f64 = (0..dim).map(|i| (c[i] - q[i]).powi(2)).sum();
                let (lo, hi): (Vec<f64>, Vec<f64>) = (0..dim).map(|i| { let (x, y) = ((c[i] - al[i]).powi(2), (c[i] - ah[i]).powi(2)); (x.min(y), x.max(y)) }).unzip();
                let mm = (0..dim).map(|i| (0..dim).map(|j| if i == j { lo[j] } else { hi[j] }).sum::<f64>()).fold(f64::INFINITY, f64::min);
                let oks = [
                    a.contains_point(&p) == (0..dim).all(|i| al[i] <= c[i] && c[i] <= ah[i]),
                    kind == ENDS || near_to(Envelope::distance_2(&a, &p).f(), d), kind == ENDS || near_to(a.distance_2(&p).f(), d), kind == ENDS || near_to(a.min_max_dist_2(&p).f(), mm),
                    { let x = a.min_point(&p); (0..dim).all(|i| x.nth(i).f() == q[i]) },
                ];
                off += oks.iter().filter(|x| !**x).count();
                want += 1; got += 1;
            }
            // sorting and selecting along an axis
            let ax = r.below(dim as u64) as usize;
            let mut v: Vec<El<G>> = w.all.clone();
            let key = |x: &El<G>| w.lohi(x.data).0[ax];
            G::Envelope::sort_envelopes(ax, &mut v);
            off += v.windows(2).filter(|x| key(&x[0]) > key(&x[1])).count();
            let at = r.below(n as u64) as usize;
            G::Envelope::partition_envelopes(ax, &mut v, at);
            off += v[..at].iter().filter(|x| key(x) > key(&v[at])).count() + v[at..].iter().filter(|x| key(x) < key(&v[at])).count();
            check(v.iter().map(|x| x.data).collect(), (0..n).collect());
        },
        _ => { // join
            let m = if n < 300 && r.p(12) { r.to(60, 700) as usize } else { r.below(60) as usize };
            let mut v: Vec<El<G>> = (0..m).map(|k| GeomWithData::new(G::shaped(near(&mut r, &w, kind, &base), near(&mut r, &w, kind, &base)), k)).collect();
            for x in v.iter_mut().take(m / 3) { if n > 0 { *x = GeomWithData::new(w.all[r.below(n as u64) as usize].geom().clone(), x.data) } }
            let t2: RTree<El<G>> = if kind == ENDS || r.p(50) { RTree::bulk_load(v.clone()) } else { let mut t = RTree::new(); for x in &v { t.insert(x.clone()) } t };
            let mut pairs = vec![];
            for k in &w.held {
                let (l, h) = w.lohi(*k);
                for x in &v { let e = x.envelope(); if (0..dim).all(|i| l[i] <= e.hi().nth(i).f() && e.lo().nth(i).f() <= h[i]) { pairs.push(k * 1000 + x.data) } }
            }
            check(t.intersection_candidates_with_other_tree(&t2).map(|(a, b)| a.data * 1000 + b.data).collect(), pairs);
        }
    }
    if let Some(o) = other { // never touched
        check(o.iter().map(|x| x.data).collect(), (0..n).filter(|k| !gone.contains(k)).collect());
        off += walk(o.root(), true);
    }
    e["want"] = json!(want + tally.want.get()); e["got"] = json!(got + tally.got.get()); e["off"] = json!(off + tally.off.get());
}
type Fun = fn(&mut Value);
#[cfg(not(feature = "few"))]
static TYPES: &[(&str, Fun)] = &[
    ("p2d", ser::<[f64; 2], DefaultParams>), ("p2s", ser::<[f32; 2], DefaultParams>), ("p3s", ser::<[f32; 3], Pm<2, 4, 1>>), ("p3d", ser::<[f64; 3], Pm<3, 6, 1>>),
    ("r2d", ser::<Rectangle<[f64; 2]>, Pm<2, 4, 1>>), ("r3s", ser::<Rectangle<[f32; 3]>, DefaultParams>),
    ("l2d", ser::<Line<[f64; 2]>, Pm<2, 4, 1>>), ("l3d", ser::<Line<[f64; 3]>, DefaultParams>), ("l2s", ser::<Line<[f32; 2]>, Pm<1, 4, 0>>),
    ("p9d", met::<[f64; 9], DefaultParams>), ("q2s", met::<(f32, f32), Pm<2, 4, 1>>), ("q3d", met::<(f64, f64, f64), DefaultParams>),
    ("q4s", met::<(f32, f32, f32, f32), DefaultParams>), ("q5d", met::<(f64, f64, f64, f64, f64), Pm<2, 4, 1>>), ("q6s", met::<(f32, f32, f32, f32, f32, f32), DefaultParams>),
    ("q7d", met::<(f64, f64, f64, f64, f64, f64, f64), DefaultParams>), ("q8d", met::<(f64, f64, f64, f64, f64, f64, f64, f64), DefaultParams>),
    ("q9d", met::<(f64, f64, f64, f64, f64, f64, f64, f64, f64), DefaultParams>), ("q10d", met::<(f64, f64, f64, f64, f64, f64, f64, f64, f64, f64), DefaultParams>),
    ("m2d", met::<::mint::Point2<f64>, DefaultParams>), ("m3s", met::<::mint::Point3<f32>, Pm<2, 4, 1>>), ("u3d", met::<Own, DefaultParams>),
    ("rq2", met::<Rectangle<(f64, f64)>, DefaultParams>), ("rm3", met::<Rectangle<::mint::Point3<f32>>, DefaultParams>), ("ru3", met::<Rectangle<Own>, Pm<2, 4, 1>>),
    ("r4d", met::<Rectangle<[f64; 4]>, DefaultParams>), ("lm2", met::<Line<::mint::Point2<f64>>, DefaultParams>), ("lu3", met::<Line<Own>, DefaultParams>),
    ("cu2", met::<Cu, Pm<2, 4, 1>>), ("cw2", met::<Cu, DefaultParams>),
    ("p2w", met::<[f64; 2], Pm<16, 40, 12>>),
];
/// array points; the ones after them are represented in other ways
#[cfg(not(feature = "few"))]
const ARRAYS: usize = 9;
// the driver for the many short runs is quicker to build with fewer types
#[cfg(feature = "few")]
static TYPES: &[(&str, Fun)] = &[
    ("p2d", ser::<[f64; 2], DefaultParams>), ("p3s", ser::<[f32; 3], Pm<2, 4, 1>>), ("r2d", ser::<Rectangle<[f64; 2]>, Pm<2, 4, 1>>),
    ("l2d", ser::<Line<[f64; 2]>, Pm<2, 4, 1>>), ("l2s", ser::<Line<[f32; 2]>, Pm<1, 4, 0>>),
    ("q5d", met::<(f64, f64, f64, f64, f64), Pm<2, 4, 1>>), ("ru3", met::<Rectangle<Own>, Pm<2, 4, 1>>), ("cu2", met::<Cu, Pm<2, 4, 1>>), ("p2w", met::<[f64; 2], Pm<16, 40, 12>>),
];
#[cfg(feature = "few")]
const ARRAYS: usize = 5;
/// trees of elements with coordinates at the ends of the range
static FAR: &[(&str, Fun)] = &[
    ("e2i", met::<[i32; 2], Pm<2, 4, 1>>), ("er3i", met::<Rectangle<(i32, i32, i32)>, DefaultParams>),
];
pub fn run(e: &mut Value) {
    let f = TYPES.iter().chain(FAR).find(|x| x.0 == e["ty"].as_str().unwrap()).unwrap().1;
    if e["k"] != ENDS { return f(e) }
    // where sums and products overflow, only answers count
    let mut g = e.clone();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g))).is_ok() { *e = g } else { e["want"] = json!(0); e["got"] = json!(0); e["off"] = json!(0) }
}

/// Which part of a property's answers is looked at.
const PARTS: &[&str] = &["iter", "has", "box", "at", "nn", "nni", "nns", "wd", "pop", "drain", "hier", "join", "int", "sel", "mut", "leak"];
pub fn part(prop: &str) -> Option<&'static str> {
    Some(match prop { "C01" => "iter", "C02" => "has", "C03" => "box", "C04" => "at", "C05" => "nn", "C06" => "nni", "C07" => "nns", "C08" => "wd", "C09" => "pop", "C10" => "drain",
        "C12" => "hier", "C13" => "bal", "C14" | "C15" | "C21" | "C22" | "C26" => "*", "C16" => "join", "C24" => "boxes", "C25" => "prim", "C18" => "int", "C17" => "sel", "C19" => "mut", "C11" => "leak", "C23" => "wrap", _ => return None })
}
pub fn make(prop: &str, r: &mut Rng, large: u8) -> Value {
    let ty = match prop {
        "C05" | "C09" if r.p(40) => { let l: Vec<&str> = TYPES[..ARRAYS].iter().map(|t| t.0).filter(|t| t.starts_with('l')).collect(); *r.pick(&l) }
        "C21" => r.pick(&TYPES[..ARRAYS]).0,
        "C26" => r.pick(&TYPES[ARRAYS..]).0,
        _ => if r.p(70) { r.pick(&TYPES[..ARRAYS]).0 } else { r.pick(TYPES).0 },
    };
    // bulk loading in many dimensions makes wide nodes, where insertion takes its time
    let wide = ["9", "6", "7", "8", "10"].iter().any(|d| ty[1..].starts_with(d));
    let large = if wide { 0 } else { large };
    let line32 = ty == "l2s";
    let k = if line32 { *r.pick(&[0u64, 1, 3, 5]) } else { r.below(7) };
    let n = match r.below(6) { 0 => r.to(0, 8), 1..=3 => r.to(5, 40), 4 => r.to(40, 120), _ => r.to(100, 240) };
    let n = if matches!(prop, "C23" | "C24" | "C25") { r.to(1, 40) } else if large == 2 { *r.pick(&[11_000, 33_000, 65_530, 66_000]) + r.to(0, 400) } else if large == 1 { *r.pick(&[500, 1500, 4000]) + r.to(0, 200) } else if wide { n.min(100) } else { n };
    let f = match part(prop).unwrap() { "*" => *r.pick(PARTS), f => f };
    let h = match prop { "C13" => r.to(2, 4), "C15" => r.to(0, 1), _ => r.to(0, 4) };
    // where nothing is computed from the coordinates
    if large == 0 && !matches!(prop, "C14" | "C21") && matches!(f, "iter" | "has" | "box" | "at" | "drain" | "hier" | "join" | "int" | "sel" | "mut" | "leak" | "boxes") && r.p(12) {
        let l: Vec<&str> = TYPES.iter().map(|t| t.0).filter(|t| !t.starts_with('l')).collect();
        let ty = if r.p(50) { r.pick(FAR).0 } else { *r.pick(&l) };
        return json!({"op":"Met","f":f,"ty":ty,"n":n,"k":ENDS,"h":0,"x":if prop == "C22" { r.to(2, 3) } else { 0 },"seed":r.below(1 << 30),"o":1});
    }
    let x = match prop { "C21" => 1, "C22" => r.to(2, 3), _ => 0 };
    json!({"op":"Met","f":f,"ty":ty,"n":n,"k":k,"h":h,"x":x,"seed":r.below(1 << 30),"o":(prop != "C14") as u8})
}
