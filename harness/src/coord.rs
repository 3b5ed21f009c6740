//! Coordinates, points and elements: everything that is built and read back without going through
//! the code under test (no use of `Point::generate`/`nth`).
use rstar::primitives::*;
use rstar::{Envelope, Point, PointDistance, RTreeNum, RTreeObject, AABB};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::num::Wrapping;
use std::rc::Rc;
use std::sync::Arc;

pub const BAD: i64 = 1_000_000_007;
/// Coordinates of query boxes from here on stand for the largest value of the scalar type (with the
/// opposite sign: the smallest), squared distances for the largest.
pub const FAR: i64 = 900_000;
pub const ENDLESS: i64 = 2_000_000_000;
thread_local! { static SIGN: Cell<u32> = const { Cell::new(0) }; }
/// both signs of a zero are used
fn sign() -> bool { SIGN.set(SIGN.get() + 1); SIGN.get() % 3 == 0 }
pub fn sign_reset() { SIGN.set(0) }

thread_local! {
    /// coordinates are (i + off) * mul
    pub static AFF: Cell<(f64, i64)> = const { Cell::new((1.0, 0)) };
    pub static SC: Cell<i64> = const { Cell::new(1) };
    /// distances are inexact: read them back up to rounding
    pub static TOL: Cell<bool> = const { Cell::new(false) };
    pub static KEYS: RefCell<HashMap<Vec<i64>, u32>> = RefCell::new(HashMap::new());
    /// countdown until an element comparison panics (0: never)
    pub static BOOM_EQ: Cell<u64> = const { Cell::new(0) };
}

pub trait Num: RTreeNum + 'static {
    const FLOAT: bool;
    fn of(i: i64) -> Self;
    fn back(self) -> i64;
    /// a squared distance given in units of 1/SC
    fn dist(m: i64) -> Self;
    fn dist_back(self) -> i64;
    /// a value made of n coordinate factors (n = 0: a plain number)
    fn vol_back(self, n: u32) -> i64;
    fn plain(self) -> f64;
}
macro_rules! num_int {
    ($($t:ty),*) => {$(
        impl Num for $t {
            const FLOAT: bool = false;
            fn of(i: i64) -> Self { if i >= FAR { return <$t>::MAX } if i <= -FAR { return <$t>::MIN } let (m, o) = AFF.get(); ((i + o) * m as i64) as $t }
            fn back(self) -> i64 {
                let (m, o) = AFF.get(); let m = m as i64; let x = self as i64;
                if x % m != 0 || (x / m - o).abs() > 1_000_000 { BAD } else { x / m - o }
            }
            fn dist(i: i64) -> Self { if i >= ENDLESS { return <$t>::MAX } let (m, _) = AFF.get(); (i * (m * m) as i64 / SC.get()) as $t }
            fn dist_back(self) -> i64 {
                let (m, _) = AFF.get(); let m2 = (m * m) as i64; let x = self as i64 * SC.get();
                if x % m2 != 0 || (x / m2).abs() > 2_000_000_000 { -7 } else { x / m2 }
            }
            fn plain(self) -> f64 { self as f64 }
            fn vol_back(self, n: u32) -> i64 {
                let (m, _) = AFF.get(); let f = (m as i64).pow(n); let x = self as i64;
                if x % f != 0 || (x / f).abs() > 2_000_000_000 { -7 } else { x / f }
            }
        }
        impl Num for Wrapping<$t> {
            const FLOAT: bool = false;
            fn of(i: i64) -> Self { Wrapping(<$t as Num>::of(i)) }
            fn back(self) -> i64 { self.0.back() }
            fn dist(i: i64) -> Self { Wrapping(<$t as Num>::dist(i)) }
            fn dist_back(self) -> i64 { self.0.dist_back() }
            fn vol_back(self, n: u32) -> i64 { self.0.vol_back(n) }
            fn plain(self) -> f64 { self.0 as f64 }
        }
    )*};
}
num_int!(i8, i16, i32, i64, i128, isize);
macro_rules! num_float {
    ($($t:ty),*) => {$(
        impl Num for $t {
            const FLOAT: bool = true;
            fn of(i: i64) -> Self {
                if i >= FAR { return <$t>::INFINITY }
                if i <= -FAR { return <$t>::NEG_INFINITY }
                let (m, o) = AFF.get();
                if i + o == 0 && sign() { -0.0 } else { ((i + o) as f64 * m) as $t }
            }
            fn back(self) -> i64 {
                let (m, o) = AFF.get(); let x = self as f64 / m - o as f64;
                if x.fract() != 0.0 || !(x.abs() <= 1e6) { BAD } else { x as i64 }
            }
            fn dist(i: i64) -> Self { if i >= ENDLESS { return <$t>::INFINITY } let (m, _) = AFF.get(); (i as f64 / SC.get() as f64 * m * m) as $t }
            fn dist_back(self) -> i64 {
                let (m, _) = AFF.get(); let mut x = self as f64 / m / m * SC.get() as f64;
                if TOL.get() && (x - x.round()).abs() < 1e-6 { x = x.round() }
                if x.fract() != 0.0 || !(x.abs() <= 2e9) { -7 } else { x as i64 }
            }
            fn plain(self) -> f64 { self as f64 }
            fn vol_back(self, n: u32) -> i64 {
                let (m, _) = AFF.get(); let x = self as f64 / m.powi(n as i32);
                if x.fract() != 0.0 || !(x.abs() <= 2e9) { -7 } else { x as i64 }
            }
        }
    )*};
}
num_float!(f32, f64);

pub trait Pt: Point<Scalar: Num> + 'static {
    fn mk(c: &[i64]) -> Self;
    fn co(&self, i: usize) -> Self::Scalar;
    fn ints(&self) -> Vec<i64> {
        (0..Self::DIMENSIONS).map(|i| self.co(i).back()).collect()
    }
}
impl<S: Num, const N: usize> Pt for [S; N] {
    fn mk(c: &[i64]) -> Self { std::array::from_fn(|i| S::of(c[i])) }
    fn co(&self, i: usize) -> S { self[i] }
}
macro_rules! same { ($i:tt, $s:ident) => { $s } }
macro_rules! tup {
    ($($i:tt),*) => {
        impl<S: Num> Pt for ($(same!($i, S)),*) {
            fn mk(c: &[i64]) -> Self { ($(S::of(c[$i])),*) }
            fn co(&self, i: usize) -> S { match i { $($i => self.$i,)* _ => unreachable!() } }
        }
    };
}
tup!(0, 1);
tup!(0, 1, 2);
tup!(0, 1, 2, 3);
tup!(0, 1, 2, 3, 4);
tup!(0, 1, 2, 3, 4, 5);
tup!(0, 1, 2, 3, 4, 5, 6);
tup!(0, 1, 2, 3, 4, 5, 6, 7);
tup!(0, 1, 2, 3, 4, 5, 6, 7, 8);
tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
impl<S: Num> Pt for mint::Point2<S> {
    fn mk(c: &[i64]) -> Self { mint::Point2 { x: S::of(c[0]), y: S::of(c[1]) } }
    fn co(&self, i: usize) -> S { match i { 0 => self.x, 1 => self.y, _ => unreachable!() } }
}
impl<S: Num> Pt for mint::Point3<S> {
    fn mk(c: &[i64]) -> Self { mint::Point3 { x: S::of(c[0]), y: S::of(c[1]), z: S::of(c[2]) } }
    fn co(&self, i: usize) -> S { match i { 0 => self.x, 1 => self.y, 2 => self.z, _ => unreachable!() } }
}
/// A user-defined point: the coordinates are stored in reverse in a struct.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct UPt { pub b: i32, pub a: i32 }
impl Point for UPt {
    type Scalar = i32;
    const DIMENSIONS: usize = 2;
    fn generate(mut g: impl FnMut(usize) -> i32) -> Self { let a = g(0); let b = g(1); UPt { a, b } }
    fn nth(&self, i: usize) -> i32 { match i { 0 => self.a, 1 => self.b, _ => unreachable!() } }
    fn nth_mut(&mut self, i: usize) -> &mut i32 { match i { 0 => &mut self.a, 1 => &mut self.b, _ => unreachable!() } }
}
impl Pt for UPt {
    fn mk(c: &[i64]) -> Self { UPt { a: i32::of(c[0]), b: i32::of(c[1]) } }
    fn co(&self, i: usize) -> i32 { [self.a, self.b][i] }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Shape { P(Vec<i64>), R(Vec<i64>, Vec<i64>), L(Vec<i64>, Vec<i64>), M(Vec<Vec<i64>>) }
impl Shape {
    pub fn json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            Shape::P(c) => json!({"s":"p","c":c}),
            Shape::R(c, d) => json!({"s":"r","c":c,"d":d}),
            Shape::L(c, d) => json!({"s":"l","c":c,"d":d}),
            Shape::M(c) => json!({"s":"m","c":c}),
        }
    }
    pub fn parse(v: &serde_json::Value) -> Shape {
        let pt = |v: &serde_json::Value| -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
        match v["s"].as_str().unwrap() {
            "p" => Shape::P(pt(&v["c"])),
            "r" => Shape::R(pt(&v["c"]), pt(&v["d"])),
            "l" => Shape::L(pt(&v["c"]), pt(&v["d"])),
            _ => Shape::M(v["c"].as_array().unwrap().iter().map(pt).collect()),
        }
    }
    pub fn flat(&self) -> Vec<i64> {
        match self {
            Shape::P(c) => c.clone(),
            Shape::R(c, d) => { let mut r: Vec<i64> = c.iter().zip(d).map(|(a, b)| *a.min(b)).collect(); r.extend(c.iter().zip(d).map(|(a, b)| *a.max(b))); r }
            Shape::L(c, d) => [c.clone(), d.clone()].concat(),
            Shape::M(c) => c.concat(),
        }
    }
    /// some point of the shape
    pub fn corner(&self, i: usize) -> Vec<i64> {
        match self {
            Shape::P(c) => c.clone(),
            Shape::R(c, d) | Shape::L(c, d) => if i % 2 == 0 { c.clone() } else { d.clone() },
            Shape::M(c) => c[i % c.len()].clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tag { pub key: u32, pub eq: u32, pub val: i64 }
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        let b = BOOM_EQ.get();
        if b > 0 { BOOM_EQ.set(b - 1); if b == 1 { panic!("BOOM") } }
        self.eq == o.eq
    }
}
pub struct Def { pub shape: Shape, pub eq: u32, pub key: u32 }
impl Def { fn tag(&self) -> Tag { Tag { key: self.key, eq: self.eq, val: 0 } } }

/// A bare geometry.
pub trait Geo: PointDistance<Envelope = AABB<Self::P>> + PartialEq + Clone + std::fmt::Debug + 'static {
    type P: Pt;
    fn geo(s: &Shape) -> Self;
    fn flat(&self) -> Vec<i64>;
}
/// Newtype-free marker: bare points are geometries too.
macro_rules! geo_point {
    ([$($g:tt)*], $t:ty) => {
        impl<$($g)*> Geo for $t {
            type P = $t;
            fn geo(s: &Shape) -> Self { match s { Shape::P(c) => <$t as Pt>::mk(c), _ => unreachable!() } }
            fn flat(&self) -> Vec<i64> { self.ints() }
        }
    };
}
geo_point!([S: Num, const N: usize], [S; N]);
geo_point!([S: Num], (S, S));
geo_point!([S: Num], (S, S, S));
geo_point!([S: Num], (S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S, S, S, S, S));
geo_point!([S: Num], (S, S, S, S, S, S, S, S, S, S));
geo_point!([S: Num], mint::Point2<S>);
geo_point!([S: Num], mint::Point3<S>);
geo_point!([], UPt);
impl<P: Pt> Geo for Rectangle<P> {
    type P = P;
    fn geo(s: &Shape) -> Self { match s { Shape::R(c, d) => Rectangle::from_corners(P::mk(c), P::mk(d)), _ => unreachable!() } }
    fn flat(&self) -> Vec<i64> { [self.lower().ints(), self.upper().ints()].concat() }
}
impl<P: Pt> Geo for Line<P> {
    type P = P;
    fn geo(s: &Shape) -> Self { match s { Shape::L(c, d) => Line::new(P::mk(c), P::mk(d)), _ => unreachable!() } }
    fn flat(&self) -> Vec<i64> { [self.from.ints(), self.to.ints()].concat() }
}
/// A user-defined element covering only some points of its envelope; it relies on the default
/// implementations of `contains_point` and `distance_2_if_less_or_equal`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Multi<P> { pub pts: Vec<P> }
impl<P: Pt> RTreeObject for Multi<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> { AABB::from_points(self.pts.iter()) }
}
impl<P: Pt> PointDistance for Multi<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        let mut best: Option<P::Scalar> = None;
        for q in &self.pts {
            let mut s: P::Scalar = num_zero();
            for i in 0..P::DIMENSIONS { let d = q.co(i) - p.co(i); s = s + d * d; }
            best = Some(match best { Some(b) if b <= s => b, _ => s });
        }
        best.unwrap()
    }
}
fn num_zero<S: Num>() -> S { let o = S::of(0); o - o }
impl<P: Pt> Geo for Multi<P> {
    type P = P;
    fn geo(s: &Shape) -> Self { match s { Shape::M(c) => Multi { pts: c.iter().map(|c| P::mk(c)).collect() }, _ => unreachable!() } }
    fn flat(&self) -> Vec<i64> { self.pts.iter().flat_map(|p| p.ints()).collect() }
}
impl<G: Geo> Geo for CachedEnvelope<G> {
    type P = G::P;
    fn geo(s: &Shape) -> Self { CachedEnvelope::new(G::geo(s)) }
    fn flat(&self) -> Vec<i64> { (**self).flat() }
}
impl<G: Geo> Geo for Arc<G> {
    type P = G::P;
    fn geo(s: &Shape) -> Self { Arc::new(G::geo(s)) }
    fn flat(&self) -> Vec<i64> { (**self).flat() }
}
impl<G: Geo> Geo for Rc<G> {
    type P = G::P;
    fn geo(s: &Shape) -> Self { Rc::new(G::geo(s)) }
    fn flat(&self) -> Vec<i64> { (**self).flat() }
}
impl<G: Geo> Geo for ObjectRef<'static, G> {
    type P = G::P;
    fn geo(s: &Shape) -> Self { ObjectRef::new(Box::leak(Box::new(G::geo(s)))) }
    fn flat(&self) -> Vec<i64> { (**self).flat() }
}
impl<G: Geo> Geo for GeomWithData<G, ()> {
    type P = G::P;
    fn geo(s: &Shape) -> Self { GeomWithData::new(G::geo(s), ()) }
    fn flat(&self) -> Vec<i64> { self.geom().flat() }
}

/// An element of a tree.
pub trait Obj: PointDistance<Envelope = AABB<Self::Q>> + PartialEq + Clone + std::fmt::Debug + 'static {
    type Q: Pt;
    const TAGGED: bool;
    fn mk(d: &Def) -> Self;
    fn key(&self) -> u32;
    fn val(&self) -> i64;
    /// false if the type gives no mutable access to its data
    fn bump(&mut self, _d: i64) -> bool { false }
}
/// Untagged element: identified by its coordinates only.
macro_rules! obj_bare {
    ([$($g:tt)*], $t:ty) => {
        impl<$($g)*> Obj for $t {
            type Q = <$t as Geo>::P;
            const TAGGED: bool = false;
            fn mk(d: &Def) -> Self { <$t as Geo>::geo(&d.shape) }
            fn key(&self) -> u32 { let f = Geo::flat(self); KEYS.with(|k| k.borrow().get(&f).copied().unwrap_or(0)) }
            fn val(&self) -> i64 { 0 }
        }
    };
}
obj_bare!([S: Num, const N: usize], [S; N]);
obj_bare!([S: Num], (S, S));
obj_bare!([S: Num], (S, S, S));
obj_bare!([S: Num], (S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S, S, S, S, S));
obj_bare!([S: Num], (S, S, S, S, S, S, S, S, S, S));
obj_bare!([S: Num], mint::Point2<S>);
obj_bare!([S: Num], mint::Point3<S>);
obj_bare!([], UPt);
obj_bare!([P: Pt], Rectangle<P>);
obj_bare!([P: Pt], Line<P>);
obj_bare!([P: Pt], Multi<P>);
obj_bare!([G: Geo], CachedEnvelope<G>);
obj_bare!([G: Geo], Arc<G>);
obj_bare!([G: Geo], Rc<G>);
obj_bare!([G: Geo], ObjectRef<'static, G>);

impl<G: Geo> Obj for GeomWithData<G, Tag> {
    type Q = G::P;
    const TAGGED: bool = true;
    fn mk(d: &Def) -> Self { GeomWithData::new(G::geo(&d.shape), d.tag()) }
    fn key(&self) -> u32 { self.data.key }
    fn val(&self) -> i64 { self.data.val }
    fn bump(&mut self, d: i64) -> bool { self.data.val += d; true }
}
#[allow(deprecated)]
impl<P: Pt> Obj for PointWithData<Tag, P> {
    type Q = P;
    const TAGGED: bool = true;
    fn mk(d: &Def) -> Self { match &d.shape { Shape::P(c) => PointWithData::new(d.tag(), P::mk(c)), _ => unreachable!() } }
    fn key(&self) -> u32 { self.data.key }
    fn val(&self) -> i64 { self.data.val }
    fn bump(&mut self, d: i64) -> bool { self.data.val += d; true }
}
/// A tagged element wrapped once more (no mutable access through these wrappers).
macro_rules! obj_outer {
    ($t:ty, $d:ident => $mk:expr) => {
        impl<G: Geo> Obj for $t {
            type Q = G::P;
            const TAGGED: bool = true;
            fn mk(d: &Def) -> Self { let $d = GeomWithData::new(G::geo(&d.shape), d.tag()); $mk }
            fn key(&self) -> u32 { self.data.key }
            fn val(&self) -> i64 { self.data.val }
        }
    };
}
obj_outer!(CachedEnvelope<GeomWithData<G, Tag>>, d => CachedEnvelope::new(d));
obj_outer!(Arc<GeomWithData<G, Tag>>, d => Arc::new(d));
obj_outer!(Rc<GeomWithData<G, Tag>>, d => Rc::new(d));
obj_outer!(ObjectRef<'static, GeomWithData<G, Tag>>, d => ObjectRef::new(Box::leak(Box::new(d))));

pub fn env_json<P: Pt>(e: &AABB<P>) -> serde_json::Value {
    if *e == AABB::<P>::new_empty() { return serde_json::json!([]); }
    serde_json::json!([e.lower().ints(), e.upper().ints()])
}
