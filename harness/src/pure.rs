//! Calls that do not involve a tree: element functions, box functions, parameter checks.
use crate::api::is_boom;
use crate::configs::*;
use crate::coord::*;
use rstar::primitives::*;
use rstar::*;
use serde_json::{json, Value};
use std::num::Wrapping;
use std::panic::catch_unwind;
use std::rc::Rc;
use std::sync::Arc;

fn ps(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }

pub fn run(_cfg: &Config, op: &Value) -> Option<Value> {
    let mut e = op.clone();
    match op["op"].as_str().unwrap() {
        "Prim" => {
            SC.set(op["sc"].as_i64().unwrap());
            TOL.set(op["tol"] == 1);
            e["rs"] = match op["ty"].as_str().unwrap() {
                "odd2" => odd::<[f64; 2]>(op),
                "odd3" => odd::<(i32, i32, i32)>(op),
                ty => (prims().into_iter().find(|x| x.0 == ty).unwrap().3)(op),
            };
            TOL.set(false);
        }
        "Big" => {
            let f = BIGS.iter().find(|(n, _, _)| *n == op["ty"].as_str().unwrap()).unwrap().2;
            f(&mut e);
        }
        "Box" => {
            SC.set(1);
            let f = boxes().into_iter().find(|(n, _, _)| *n == op["ty"].as_str().unwrap()).unwrap().2;
            e["r"] = f(op);
        }
        "Prm" => {
            let i = op["i"].as_u64().unwrap() as usize;
            let row = &all_params()[i];
            let (n, b) = row.run;
            let b0 = catch_unwind(n);
            let b1 = catch_unwind(b);
            for b in [&b0, &b1] { if let Err(x) = b { if is_boom(x) { unreachable!() } } }
            e["min"] = json!(row.min); e["max"] = json!(row.max); e["rei"] = json!(row.rei); e["dim"] = json!(row.dim);
            e["new"] = json!(b0.is_ok()); e["bulk"] = json!(b1.is_ok());
        }
        _ => return None,
    }
    Some(e)
}

// ---- element functions -------------------------------------------------------------------------
fn probe1<O: PointDistance<Envelope = AABB<P>>, P: Pt>(name: &str, o: &O, p: &P, m: i64) -> Value {
    let b = o.distance_2_if_less_or_equal(p, Num::dist(m));
    json!({"w": name, "e": env_json(&o.envelope()), "d": o.distance_2(p).dist_back(), "h": o.contains_point(p),
        "l": match b { Some(x) => json!([x.dist_back()]), None => json!([]) }})
}
/// The same geometry bare and through all wrappers.
fn prim<Ge: Geo>(op: &Value) -> Value {
    let s = Shape::parse(&op["g"]);
    let p = <Ge::P as Pt>::mk(&ps(&op["p"]));
    let m = op["m"].as_i64().unwrap();
    let g = || Ge::geo(&s);
    let mut out = vec![
        probe1("bare", &g(), &p, m),
        probe1("gwd", &GeomWithData::new(g(), 7u8), &p, m),
        probe1("cached", &CachedEnvelope::new(g()), &p, m),
        probe1("ref", &ObjectRef::new(&g()), &p, m),
        probe1("arc", &Arc::new(g()), &p, m),
        probe1("rc", &Rc::new(g()), &p, m),
        probe1("gwd-cached", &GeomWithData::new(CachedEnvelope::new(g()), 'x'), &p, m),
        probe1("cached-gwd", &CachedEnvelope::new(GeomWithData::new(g(), ())), &p, m),
        probe1("arc-ref", &Arc::new(ObjectRef::new(&g())), &p, m),
    ];
    if out.iter().skip(1).all(|o| { let mut o = o.clone(); o["w"] = out[0]["w"].clone(); o == out[0] }) && op["all"] != 1 {
        out.truncate(1);
        out[0]["same"] = json!(true);
    }
    json!(out)
}
/// An element whose answers have nothing to do with each other (nor with geometry): whatever it says,
/// its wrappers have to say the same.
#[derive(Clone, Debug)]
struct Odd<P> { c: P, d: P, k: i64 }
impl<P: Pt> Odd<P> {
    fn mix(&self, p: &P, n: i64) -> i64 { let mut h = self.k * 31 + n; for x in p.ints() { h = (h * 37 + x) % 10_007 } h }
}
impl<P: Pt> RTreeObject for Odd<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> { AABB::from_corners(self.c.clone(), self.d.clone()) }
}
impl<P: Pt> PointDistance for Odd<P> {
    fn distance_2(&self, p: &P) -> P::Scalar { Num::dist(self.mix(p, 1) % 90) }
    fn contains_point(&self, p: &P) -> bool { self.mix(p, 2) % 2 == 0 }
    fn distance_2_if_less_or_equal(&self, p: &P, m: P::Scalar) -> Option<P::Scalar> {
        match self.mix(p, 3) % 3 { 0 => None, 1 => Some(m), _ => Some(Num::dist(self.mix(p, 4) % 90)) }
    }
}
fn odd<P: Pt>(op: &Value) -> Value {
    let (p, m) = (P::mk(&ps(&op["p"])), op["m"].as_i64().unwrap());
    let g = || Odd { c: P::mk(&ps(&op["g"]["c"])), d: P::mk(&ps(&op["g"]["d"])), k: op["g"]["k"].as_i64().unwrap() };
    json!([
        probe1("bare", &g(), &p, m),
        probe1("gwd", &GeomWithData::new(g(), 7u8), &p, m),
        probe1("cached", &CachedEnvelope::new(g()), &p, m),
        probe1("ref", &ObjectRef::new(&g()), &p, m),
        probe1("arc", &Arc::new(g()), &p, m),
        probe1("rc", &Rc::new(g()), &p, m),
        probe1("gwd-cached", &GeomWithData::new(CachedEnvelope::new(g()), 'x'), &p, m),
        probe1("cached-gwd", &CachedEnvelope::new(GeomWithData::new(g(), ())), &p, m),
        probe1("arc-ref", &Arc::new(ObjectRef::new(&g())), &p, m),
        probe1("rc-arc", &Rc::new(Arc::new(g())), &p, m),
    ])
}
fn prim_point<P: Pt + Geo<P = P>>(op: &Value) -> Value {
    let Value::Array(mut out) = prim::<P>(op) else { unreachable!() };
    let s = Shape::parse(&op["g"]);
    let p = <P as Pt>::mk(&ps(&op["p"]));
    let x = PointWithData::new(3u8, <P as Geo>::geo(&s));
    out.push(probe1("pwd", &x, &p, op["m"].as_i64().unwrap()));
    if x.position().ints() != s.flat() { out.push(json!({"w":"position"})); }
    json!(out)
}
fn prim_rect<P: Pt>(op: &Value) -> Value {
    let Value::Array(mut out) = prim::<Rectangle<P>>(op) else { unreachable!() };
    let s = Shape::parse(&op["g"]);
    let p = <P as Pt>::mk(&ps(&op["p"]));
    let r = <Rectangle<P> as Geo>::geo(&s);
    let r2 = Rectangle::from_aabb(r.envelope());
    let r3: Rectangle<P> = r.envelope().into();
    out.push(probe1("aabb", &r2, &p, op["m"].as_i64().unwrap()));
    if r3 != r2 { out.push(json!({"w":"from"})); }
    out.push(json!({"w":"near","q": r.nearest_point(&p).ints(), "lo": r.lower().ints(), "hi": r.upper().ints()}));
    json!(out)
}
fn prim_line<P: Pt>(op: &Value) -> Value {
    let Value::Array(mut out) = prim::<Line<P>>(op) else { unreachable!() };
    let s = Shape::parse(&op["g"]);
    let p = <P as Pt>::mk(&ps(&op["p"]));
    let l = <Line<P> as Geo>::geo(&s);
    // nearest point in units of 1/len2 where that is exact
    let (m, o) = AFF.get();
    let sc = SC.get();
    let q = l.nearest_point(&p);
    let q: Vec<i64> = (0..P::DIMENSIONS).map(|i| {
        let x = q.co(i).plain();
        let mut y = (x / m - o as f64) * sc as f64;
        if TOL.get() && (y - y.round()).abs() < 1e-6 { y = y.round() }
        if y.fract() == 0.0 && y.abs() < 1e9 { y as i64 } else { BAD }
    }).collect();
    out.push(json!({"w":"lnear","q": q, "len": l.length_2().dist_back()}));
    json!(out)
}
type PrimFn = fn(&Value) -> Value;
/// (type name, shape, dimension, function)
pub fn prims() -> Vec<(&'static str, char, usize, PrimFn)> {
    vec![
        ("p2i32", 'p', 2, prim_point::<[i32; 2]>), ("p2f64", 'p', 2, prim_point::<[f64; 2]>), ("p3f32", 'p', 3, prim_point::<[f32; 3]>),
        ("p4i64", 'p', 4, prim_point::<[i64; 4]>), ("pt2f", 'p', 2, prim_point::<(f64, f64)>), ("pt3i", 'p', 3, prim_point::<(i32, i32, i32)>),
        ("pt4f", 'p', 4, prim_point::<(f64, f64, f64, f64)>), ("pt5i", 'p', 5, prim_point::<(i64, i64, i64, i64, i64)>),
        ("pt9f", 'p', 9, prim_point::<(f64, f64, f64, f64, f64, f64, f64, f64, f64)>),
        ("pm2", 'p', 2, prim_point::<::mint::Point2<f64>>), ("pm3", 'p', 3, prim_point::<::mint::Point3<i32>>), ("pu", 'p', 2, prim_point::<UPt>),
        ("p2w", 'p', 2, prim_point::<[Wrapping<i32>; 2]>), ("p6f", 'p', 6, prim_point::<[f64; 6]>),
        ("r2i32", 'r', 2, prim_rect::<[i32; 2]>), ("r2f64", 'r', 2, prim_rect::<[f64; 2]>), ("r3f32", 'r', 3, prim_rect::<[f32; 3]>),
        ("r4i64", 'r', 4, prim_rect::<[i64; 4]>), ("rt3f", 'r', 3, prim_rect::<(f64, f64, f64)>), ("rm2", 'r', 2, prim_rect::<::mint::Point2<f64>>),
        ("r7f", 'r', 7, prim_rect::<[f64; 7]>),
        ("l2f64", 'l', 2, prim_line::<[f64; 2]>), ("l3f64", 'l', 3, prim_line::<[f64; 3]>), ("lt2f", 'l', 2, prim_line::<(f64, f64)>),
        ("lm3", 'l', 3, prim_line::<::mint::Point3<f64>>), ("l4f64", 'l', 4, prim_line::<[f64; 4]>), ("l2f32", 'l', 2, prim_line::<[f32; 2]>),
        ("pt10f", 'p', 10, prim_point::<(f64, f64, f64, f64, f64, f64, f64, f64, f64, f64)>), ("p8f", 'p', 8, prim_point::<[f64; 8]>), ("p2i128", 'p', 2, prim_point::<[i128; 2]>),
        ("rt10f", 'r', 10, prim_rect::<(f64, f64, f64, f64, f64, f64, f64, f64, f64, f64)>), ("m2i32", 'm', 2, prim::<Multi<[i32; 2]>>), ("m3f64", 'm', 3, prim::<Multi<[f64; 3]>>),
    ]
}

// ---- box functions -----------------------------------------------------------------------------
fn abox<P: Pt>(v: &Value) -> AABB<P> {
    if v.as_array().unwrap().is_empty() { return AABB::new_empty(); }
    AABB::from_bounds(P::mk(&ps(&v[0])), P::mk(&ps(&v[1])))
}
fn boxf<P: Pt>(op: &Value) -> Value {
    let d = P::DIMENSIONS as u32;
    let a = || abox::<P>(&op["a"]);
    let b = || abox::<P>(&op["b"]);
    let p = || P::mk(&ps(&op["p"]));
    match op["f"].as_str().unwrap() {
        "corners" => env_json(&AABB::from_corners(P::mk(&ps(&op["p"])), P::mk(&ps(&op["p2"])))),
        "bounds" => { let x = a(); json!([x.lower().ints(), x.upper().ints()]) }
        "point" => env_json(&AABB::from_point(p())),
        "center" => env_json(&AABB::from_center(p(), {
            let (m, o) = AFF.get();
            let _ = o;
            AFF.set((m, 0));
            let x = P::Scalar::of(op["n"].as_i64().unwrap());
            AFF.set((m, o));
            x
        })),
        "points" => { let pts: Vec<P> = op["ps"].as_array().unwrap().iter().map(|c| P::mk(&ps(c))).collect(); env_json(&AABB::from_points(pts.iter())) }
        "empty" => json!([AABB::<P>::new_empty().is_empty(), a().is_empty()]),
        "merge" => { let mut x = a(); x.merge(&b()); json!([env_json(&x), env_json(&a().merged(&b()))]) }
        "hasp" => json!(a().contains_point(&p())),
        "hasb" => json!(a().contains_envelope(&b())),
        "touch" => json!(a().intersects(&b())),
        "area" => json!(a().area().vol_back(d)),
        "common" => json!(a().intersection_area(&b()).vol_back(d)),
        "peri" => json!(a().perimeter_value().vol_back(1)),
        "mid" => { let c = a().center(); json!(c.ints()) }
        "near" => json!(a().min_point(&p()).ints()),
        "dist" => json!([a().distance_2(&p()).dist_back(), Envelope::distance_2(&a(), &p()).dist_back()]),
        "mmd" => json!(a().min_max_dist_2(&p()).dist_back()),
        "eq" => json!(a() == b()),
        "nth" => { let mut x = p(); let i = op["i"].as_u64().unwrap() as usize; let v = Point::nth(&x, i).back();
            *x.nth_mut(i) = P::Scalar::of(op["n"].as_i64().unwrap()); json!([v, x.ints()]) }
        "gen" => { let c = ps(&op["p"]); let mut seen = vec![]; let x = <P as Point>::generate(|i| { seen.push(i); P::Scalar::of(c[i]) }); json!([x.ints(), seen, P::DIMENSIONS]) }
        "sort" => {
            let mut v: Vec<Rectangle<P>> = op["bs"].as_array().unwrap().iter().map(|b| Rectangle::from_aabb(abox::<P>(b))).collect();
            <AABB<P> as Envelope>::sort_envelopes(op["i"].as_u64().unwrap() as usize, &mut v);
            json!(v.iter().map(|r| env_json(&r.envelope())).collect::<Vec<_>>())
        }
        "part" => {
            let mut v: Vec<Rectangle<P>> = op["bs"].as_array().unwrap().iter().map(|b| Rectangle::from_aabb(abox::<P>(b))).collect();
            <AABB<P> as Envelope>::partition_envelopes(op["i"].as_u64().unwrap() as usize, &mut v, op["n"].as_u64().unwrap() as usize);
            json!(v.iter().map(|r| env_json(&r.envelope())).collect::<Vec<_>>())
        }
        x => panic!("box function {x}"),
    }
}
type BoxFn = fn(&Value) -> Value;
pub fn boxes() -> Vec<(&'static str, usize, BoxFn)> {
    vec![
        ("2i32", 2, boxf::<[i32; 2]>), ("2f64", 2, boxf::<[f64; 2]>), ("2f32", 2, boxf::<[f32; 2]>), ("3i64", 3, boxf::<[i64; 3]>), ("3f64", 3, boxf::<[f64; 3]>),
        ("4f64", 4, boxf::<[f64; 4]>), ("5i64", 5, boxf::<[i64; 5]>), ("6f64", 6, boxf::<[f64; 6]>),
        ("t2", 2, boxf::<(f64, f64)>), ("t3", 3, boxf::<(i32, i32, i32)>), ("t4", 4, boxf::<(f64, f64, f64, f64)>), ("t5", 5, boxf::<(i64, i64, i64, i64, i64)>),
        ("t6", 6, boxf::<(f64, f64, f64, f64, f64, f64)>), ("t7", 7, boxf::<(i64, i64, i64, i64, i64, i64, i64)>),
        ("t8", 8, boxf::<(f64, f64, f64, f64, f64, f64, f64, f64)>), ("t9", 9, boxf::<(f64, f64, f64, f64, f64, f64, f64, f64, f64)>),
        ("mint2", 2, boxf::<::mint::Point2<f64>>), ("mint3", 3, boxf::<::mint::Point3<i32>>), ("upt", 2, boxf::<UPt>), ("2w", 2, boxf::<[Wrapping<i32>; 2]>),
        ("10f", 10, boxf::<[f64; 10]>), ("t10", 10, boxf::<(f64, f64, f64, f64, f64, f64, f64, f64, f64, f64)>),
        ("7i128", 7, boxf::<[i128; 7]>), ("8f32", 8, boxf::<[f32; 8]>), ("9isize", 9, boxf::<[isize; 9]>), ("12f64", 12, boxf::<[f64; 12]>), ("mint2i", 2, boxf::<::mint::Point2<i32>>),
        ("m3f32", 3, boxf::<::mint::Point3<f32>>), ("2i128", 2, boxf::<(i128, i128)>),
        ("1i64", 1, boxf::<[i64; 1]>), ("1f64", 1, boxf::<[f64; 1]>),
    ]
}

// ---- bulk loading many elements ----------------------------------------------------------------
/// What the hierarchy looks like: leaf count, number of keys seen exactly once, largest number of
/// children, inner nodes below the root that are empty, nodes mixing elements and nodes, nodes whose
/// envelope is not the smallest one.
fn look<T: Obj<Q: Pt>>(n: &ParentNode<T>, top: bool, seen: &mut [u8], s: &mut [i64; 5]) {
    let (mut ps, mut ls) = (0, 0);
    let mut e = AABB::<T::Q>::new_empty();
    for c in n.children() {
        match c {
            RTreeNode::Leaf(t) => { ls += 1; s[0] += 1; let k = t.key() as usize; if k < seen.len() { seen[k] = seen[k].saturating_add(1) } e.merge(&t.envelope()) }
            RTreeNode::Parent(p) => { ps += 1; look(p, false, seen, s); e.merge(&p.envelope()) }
        }
    }
    s[1] = s[1].max((ps + ls) as i64);
    if ps + ls == 0 && !top { s[2] += 1 }
    if ps > 0 && ls > 0 { s[3] += 1 }
    let same = if ps + ls == 0 { true } else { let f = n.envelope(); e.lower().ints() == f.lower().ints() && e.upper().ints() == f.upper().ints() };
    if !same { s[4] += 1 }
}
fn big<T: Obj, Q: RTreeParams + Clone + 'static>(e: &mut Value) {
    big_with::<T, Q>(e, |v| RTree::bulk_load_with_params(v))
}
fn big_default<T: Obj>(e: &mut Value) { big_with::<T, DefaultParams>(e, |v| RTree::bulk_load(v)) }
fn big_with<T: Obj, Q: RTreeParams + Clone + 'static>(e: &mut Value, load: fn(Vec<T>) -> RTree<T, Q>) {
    let n = e["n"].as_u64().unwrap() as usize;
    let (kind, g) = (e["k"].as_u64().unwrap(), e["g"].as_i64().unwrap());
    let mut r = crate::gen::Rng(e["seed"].as_u64().unwrap());
    let dim = <T::Q as Point>::DIMENSIONS;
    let rect = std::any::type_name::<T>().contains("Rectangle");
    let defs: Vec<Def> = (0..n).map(|i| {
        let i = i as i64;
        let c: Vec<i64> = match kind {
            0 => (0..dim as i64).map(|a| if a == 0 { i % (g + 1) } else { i / (g + 1) % (g + 1) }).collect(),
            1 => vec![r.to(0, g); dim],
            2 => (0..dim).map(|a| if a == 0 { g - i % (g + 1) } else { 0 }).collect(),
            3 => vec![0; dim],
            _ => (0..dim).map(|_| r.to(0, g)).collect(),
        };
        let shape = if rect { let d = c.iter().map(|x| x + r.to(0, 3)).collect(); Shape::R(c, d) } else { Shape::P(c) };
        Def { shape, eq: i as u32 + 1, key: i as u32 }
    }).collect();
    let mut t = load(defs.iter().map(|d| T::mk(d)).collect());
    let mut seen = vec![0u8; n];
    let mut s = [0i64; 5];
    look(t.root(), true, &mut seen, &mut s);
    let once = seen.iter().filter(|x| **x == 1).count();
    let mut it = vec![0u8; n];
    for x in t.iter() { let k = x.key() as usize; if k < n { it[k] = it[k].saturating_add(1) } }
    let env = |d: &Def| -> (Vec<i64>, Vec<i64>) { match &d.shape { Shape::R(a, b) => (a.clone(), b.clone()), s => (s.corner(0), s.corner(0)) } };
    let mut qs = vec![];
    for j in 0..6 {
        let p: Vec<i64> = (0..dim).map(|_| r.to(0, g)).collect();
        let w = *r.pick(&[0, 1, g / 10 + 1, g]);
        let q: Vec<i64> = p.iter().map(|x| (x + w).min(g)).collect();
        let b = AABB::from_corners(<T::Q as Pt>::mk(&p), <T::Q as Pt>::mk(&q));
        let (mut got, mut want) = (vec![], vec![]);
        if j % 2 == 0 {
            got.extend(t.locate_in_envelope_intersecting(b).map(|x| x.key()));
            want.extend(defs.iter().filter(|d| { let (l, h) = env(d); (0..dim).all(|i| l[i] <= q[i] && p[i] <= h[i]) }).map(|d| d.key));
        } else {
            got.extend(t.locate_in_envelope(b).map(|x| x.key()));
            want.extend(defs.iter().filter(|d| { let (l, h) = env(d); (0..dim).all(|i| p[i] <= l[i] && h[i] <= q[i]) }).map(|d| d.key));
        }
        got.sort(); want.sort();
        let off = if got == want { 0 } else { 1 };
        qs.push(json!([got.len(), want.len(), off]));
    }
    // nearest neighbours: distance reported and the true minimum
    let mut near = vec![];
    for _ in 0..4 {
        let p: Vec<i64> = (0..dim).map(|_| r.to(0, g)).collect();
        let best = defs.iter().map(|d| { let (l, h) = env(d); (0..dim).map(|i| (p[i].clamp(l[i], h[i]) - p[i]).pow(2)).sum::<i64>() }).min().unwrap_or(-1);
        near.push(json!([t.nearest_neighbor_with_distance_2(<T::Q as Pt>::mk(&p)).map(|x| x.1.dist_back()).unwrap_or(-1), best]));
    }
    // a few removals and insertions
    let size = t.size();
    let mut gone = 0i64;
    let picks: std::collections::BTreeSet<usize> = (0..5.min(n)).map(|_| r.below(n as u64) as usize).collect();
    for i in &picks { let d = &defs[*i]; if t.remove(&T::mk(d)).is_some() { gone += 1 } }
    let fit = 7;
    for i in 0..fit { let d = Def { shape: if n > 0 { defs[(i * 31) % n].shape.clone() } else if rect { Shape::R(vec![0; dim], vec![1; dim]) } else { Shape::P(vec![0; dim]) }, eq: (n + i) as u32 + 1, key: (n + i) as u32 }; t.insert(T::mk(&d)) }
    let mut seen2 = vec![0u8; n + fit];
    let mut s2 = [0i64; 5];
    look(t.root(), true, &mut seen2, &mut s2);
    e["size"] = json!(size); e["leaves"] = json!(s[0]); e["once"] = json!(once); e["fan"] = json!(s[1]); e["hollow"] = json!(s[2]); e["mixed"] = json!(s[3]); e["loose"] = json!(s[4]);
    e["iter"] = json!(it.iter().filter(|x| **x == 1).count()); e["qs"] = json!(qs); e["near"] = json!(near);
    e["max"] = json!(Q::MAX_SIZE); e["dim"] = json!(dim);
    e["gone"] = json!(gone); e["picks"] = json!(picks.len()); e["fit"] = json!(fit); e["size2"] = json!(t.size()); e["leaves2"] = json!(s2[0]); e["once2"] = json!(seen2.iter().filter(|x| **x == 1).count());
    e["bad2"] = json!(s2[2] + s2[3] + s2[4]);
}
type Gt<G> = GeomWithData<G, Tag>;
type BigFn = fn(&mut Value);
static BIGS: &[(&str, usize, BigFn)] = &[
    ("d2i", 6, big_default::<Gt<[i32; 2]>>), ("d2r", 6, big_default::<Gt<Rectangle<[i32; 2]>>>),
    ("p2-4", 4, big::<Gt<[f64; 2]>, Pm<2, 4, 1>>), ("p2-32", 32, big::<Gt<[i32; 2]>, Pm<16, 32, 5>>), ("p2-9", 9, big::<Gt<[f64; 2]>, Pm<1, 9, 7>>),
    ("p3-6", 6, big::<Gt<[f64; 3]>, DefaultParams>), ("r3-5", 5, big::<Gt<Rectangle<[i64; 3]>>, Pm<2, 5, 1>>), ("p4-6", 6, big::<Gt<[f64; 4]>, DefaultParams>),
    ("p5-6", 6, big::<Gt<[i64; 5]>, DefaultParams>), ("p2-20", 20, big::<Gt<(f64, f64)>, Pm<10, 20, 5>>), ("p2-10", 10, big::<Gt<[i64; 2]>, Pm<5, 10, 3>>),
];
pub fn bigs() -> Vec<(&'static str, usize)> { BIGS.iter().map(|x| (x.0, x.1)).collect() }

// ---- parameters --------------------------------------------------------------------------------
pub struct Row { pub min: usize, pub max: usize, pub rei: usize, pub dim: usize, pub run: (fn(), fn()) }
fn try_new<const MIN: usize, const MAX: usize, const REI: usize, const D: usize>() {
    let mut t = RTree::<[i32; D], Pm<MIN, MAX, REI>>::new_with_params();
    if MIN % 2 == 0 { t = Default::default(); }
    assert_eq!(t.size(), 0);
}
fn try_bulk<const MIN: usize, const MAX: usize, const REI: usize, const D: usize>() {
    let n = MIN % 3; // 0, 1 or 2 elements
    let t = RTree::<[i32; D], Pm<MIN, MAX, REI>>::bulk_load_with_params(vec![[1; D]; n]);
    assert_eq!(t.size(), n);
}
macro_rules! rows {
    ($v:ident; $(($min:literal, $max:literal, $rei:literal, $dim:literal))*) => {
        $($v.push(Row { min: $min, max: $max, rei: $rei, dim: $dim, run: (try_new::<$min, $max, $rei, $dim>, try_bulk::<$min, $max, $rei, $dim>) });)*
    };
}
include!("params_rows.rs");
/// The constructors that come without parameters use 3, 6, 2.
fn plain_new<const D: usize>() { assert_eq!(RTree::<[f64; D]>::new().size(), 0) }
fn plain_default<const D: usize>() { assert_eq!(<RTree<[i64; D]> as Default>::default().size(), 0) }
fn plain_bulk<const D: usize, const N: usize>() { assert_eq!(RTree::<[f64; D]>::bulk_load(vec![[1.0; D]; N]).size(), N) }
pub fn all_params() -> Vec<Row> {
    let mut v = params_table();
    macro_rules! plain { ($($d:literal)*) => {$(
        v.push(Row { min: 3, max: 6, rei: 2, dim: $d, run: (plain_new::<$d>, plain_bulk::<$d, 0>) });
        v.push(Row { min: 3, max: 6, rei: 2, dim: $d, run: (plain_default::<$d>, plain_bulk::<$d, 9>) });
        v.push(Row { min: 3, max: 6, rei: 2, dim: $d, run: (plain_new::<$d>, plain_bulk::<$d, 40>) });
    )*} }
    plain! { 0 1 2 3 4 5 9 }
    v
}
