//! The public interface of `RTree` behind an object-safe trait, so that the driver is compiled once.
use crate::coord::*;
use rstar::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::ops::ControlFlow;
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Got { pub r: Vec<u32>, pub v: Vec<i64>, pub broke: bool }
impl Got {
    fn see<T: Obj>(&mut self, t: &T) { self.r.push(t.key()); if T::TAGGED { self.v.push(t.val()) } }
}
pub enum Drained { Item(u32, Vec<i64>), End, Boom }

fn pt(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
fn mkp<P: Pt>(v: &Value) -> P { P::mk(&pt(v)) }
fn mkb<P: Pt>(v: &Value) -> AABB<P> { if v.as_array().unwrap().is_empty() { return AABB::new_empty() } AABB::from_corners(mkp(&v[0]), mkp(&v[1])) }

#[derive(Default)]
pub struct Probe { pub shown: RefCell<Vec<u32>>, pub boom: Cell<u64> }
impl Probe {
    fn tick(&self) {
        let b = self.boom.get();
        if b > 0 { self.boom.set(b - 1); if b == 1 { panic!("BOOM") } }
    }
}
pub struct Cu<T: Obj> {
    nt: String, ax: usize, nv: i64, nm: i64, nr: i64, np: Vec<i64>,
    et: String, em: i64, er: i64, ex: usize, ev: i64,
    probe: Rc<Probe>, _p: PhantomData<T>,
}
impl<T: Obj> Cu<T> {
    pub fn new(q: &Value, probe: Rc<Probe>) -> Self {
        let i = |k: &str| q[k].as_i64().unwrap_or(0);
        Cu {
            nt: q["nt"].as_str().unwrap().into(), ax: i("ax") as usize, nv: i("nv"), nm: i("nm"), nr: i("nr"),
            np: if q["np"].is_array() { pt(&q["np"]) } else { vec![] },
            et: q["et"].as_str().unwrap().into(), em: i("em"), er: i("er"), ex: i("ex") as usize, ev: i("ev"),
            probe, _p: PhantomData,
        }
    }
}
impl<T: Obj> SelectionFunction<T> for Cu<T> {
    fn should_unpack_parent(&self, e: &AABB<T::Q>) -> bool {
        self.probe.tick();
        let (lo, hi) = (e.lower().ints(), e.upper().ints());
        match self.nt.as_str() {
            "all" => true,
            "none" => false,
            "thr" => lo[self.ax - 1] <= self.nv,
            "mod" => (3 * lo.iter().sum::<i64>() + hi.iter().sum::<i64>()).rem_euclid(self.nm) != self.nr,
            _ => (0..lo.len()).all(|i| lo[i] <= self.np[i] && self.np[i] <= hi[i]),
        }
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        self.probe.tick();
        self.probe.shown.borrow_mut().push(t.key());
        match self.et.as_str() {
            "all" => true,
            "none" => false,
            "mod" => t.key() as i64 % self.em != self.er,
            _ => t.envelope().lower().ints()[self.ex - 1] <= self.ev,
        }
    }
}

pub trait TreeApi {
    fn ins(&mut self, d: &Def);
    fn size(&self) -> usize;
    fn iter(&mut self, w: &str) -> Got;
    fn into(self: Box<Self>) -> Got;
    fn contains(&self, d: &Def) -> bool;
    fn select(&mut self, q: &Value, w: &str, n: usize, bump: Option<i64>, probe: Rc<Probe>) -> Got;
    fn one(&mut self, p: &Value, w: &str) -> Got;
    fn remove(&mut self, q: &Value, eq: Option<&Def>, probe: Rc<Probe>) -> Got;
    fn nn(&self, p: &Value, w: &str) -> (Got, Vec<i64>);
    fn nn_iter(&self, p: &Value, w: &str, n: usize) -> (Got, Vec<i64>);
    fn nns(&self, p: &Value, w: &str) -> (Got, Vec<i64>);
    fn pop(&mut self, p: &Value) -> Got;
    fn drain(&mut self, q: &Value, n: usize, forget: bool, probe: Rc<Probe>) -> Vec<Drained>;
    fn dup(&self) -> Box<dyn TreeApi>;
    fn dup_from(&mut self, o: &dyn TreeApi);
    fn any(&self) -> &dyn Any;
    fn hier(&self) -> Value;
    fn serde(&self) -> Option<Box<dyn TreeApi>>;
}

pub type SerdeFn<T, Q> = fn(&RTree<T, Q>) -> RTree<T, Q>;
pub fn via_json<T, Q>(t: &RTree<T, Q>) -> RTree<T, Q>
where T: RTreeObject<Envelope: serde::Serialize + serde::de::DeserializeOwned> + serde::Serialize + serde::de::DeserializeOwned, Q: RTreeParams {
    // a text format with named fields, or a binary one that relies on their order
    if turn() {
        let s = serde_json::to_string(t).expect("serialise");
        serde_json::from_str(&s).expect("deserialise")
    } else {
        let s = bincode::serialize(t).expect("serialise");
        bincode::deserialize(&s).expect("deserialise")
    }
}

pub struct Tb<T: Obj, Q: RTreeParams + Clone + 'static> { pub t: RTree<T, Q>, pub ser: Option<SerdeFn<T, Q>> }

fn vis<'a, T: Obj>(g: &'a mut Got, n: usize) -> impl FnMut(&T) -> ControlFlow<usize> + 'a {
    let mut c = 0usize;
    move |t: &T| { c += 1; g.see(t); if c == n { ControlFlow::Break(4711 + n) } else { ControlFlow::Continue(()) } }
}
fn vism<'a, T: Obj>(g: &'a mut Got, n: usize, bump: Option<i64>) -> impl FnMut(&mut T) -> ControlFlow<usize> + 'a {
    let mut c = 0usize;
    move |t: &mut T| {
        c += 1; g.see(t);
        if let Some(d) = bump { t.bump(d); }
        if c == n { ControlFlow::Break(4711 + n) } else { ControlFlow::Continue(()) }
    }
}
fn broke(c: ControlFlow<usize>, n: usize) -> bool { matches!(c, ControlFlow::Break(x) if x == 4711 + n) }
/// Consumes the first `n` items of an iterator, step by step or (sometimes, when all of them are
/// wanted) in one go; an iterator whose size hint is not kept yields one unknown element more.
fn eat<I>(it: impl Iterator<Item = I>, n: usize, mut f: impl FnMut(I)) -> bool {
    let mut c = 0usize;
    let (mut lo, mut hi) = it.size_hint();
    let mut ended = true;
    if n == usize::MAX && turn() {
        it.for_each(|t| { c += 1; f(t) })
    } else {
        let mut it = it;
        loop {
            if c == n { ended = false; break }
            let Some(t) = it.next() else { break };
            c += 1;
            f(t);
            let (l, h) = it.size_hint();
            lo = lo.max(l.saturating_add(c));
            hi = match (hi, h) { (Some(a), Some(b)) => Some(a.min(b.saturating_add(c))), (a, b) => a.or(b.map(|b| b.saturating_add(c))) };
        }
    }
    (!ended || lo <= c) && hi.is_none_or(|h| c <= h)
}
thread_local! { static TURN: Cell<u32> = const { Cell::new(0) }; }
/// alternates within a case
pub fn turn() -> bool { TURN.set(TURN.get() + 1); TURN.get() % 2 == 0 }
pub fn turn_reset() { TURN.set(0) }
fn ext<'a, T: Obj>(g: &mut Got, it: impl Iterator<Item = &'a T>, n: usize) { if !eat(it, n, |t| g.see(t)) { g.r.push(0) } }
fn mutr<'a, T: Obj>(g: &mut Got, it: impl Iterator<Item = &'a mut T>, n: usize, bump: Option<i64>) {
    if !eat(it, n, |t| { g.see(t); if let Some(d) = bump { t.bump(d); } }) { g.r.push(0) }
}

fn hier<T: Obj>(n: &ParentNode<T>) -> Value {
    let (mut ns, mut ls) = (vec![], vec![]);
    for c in n.children() {
        // a node's own account of its kind and envelope has to match what it is
        let honest = match c {
            RTreeNode::Leaf(t) => { ls.push(t.key()); c.is_leaf() && c.envelope() == t.envelope() }
            RTreeNode::Parent(p) => { ns.push(hier(p)); !c.is_leaf() && c.envelope() == p.envelope() }
        };
        if !honest { ls.push(0) }
    }
    json!({"e": env_json(&n.envelope()), "n": ns, "l": ls})
}

impl<T: Obj, Q: RTreeParams + Clone + 'static> TreeApi for Tb<T, Q> {
    fn ins(&mut self, d: &Def) { self.t.insert(T::mk(d)) }
    fn size(&self) -> usize { self.t.size() }
    fn iter(&mut self, w: &str) -> Got {
        let mut g = Got::default();
        match w {
            "iter" => ext(&mut g, self.t.iter(), usize::MAX),
            "iter_mut" => mutr(&mut g, self.t.iter_mut(), usize::MAX, None),
            "for" => for t in &self.t { g.see(t) },
            // the keys as the debug form shows them
            "debug" => {
                let s = format!("{:?}", self.t);
                let num = |s: &str| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                g.r = s.split("key: ").skip(1).map(num).collect();
                if g.r.len() as u32 != s.split("size: ").nth(1).map_or(u32::MAX, num) { g.r.push(0) }
            }
            _ => for t in &mut self.t { g.see(t) },
        }
        g
    }
    fn into(self: Box<Self>) -> Got { let mut g = Got::default(); if !eat(self.t.into_iter(), usize::MAX, |t| g.see(&t)) { g.r.push(0) } g }
    fn contains(&self, d: &Def) -> bool { self.t.contains(&T::mk(d)) }
    fn select(&mut self, q: &Value, w: &str, n: usize, bump: Option<i64>, probe: Rc<Probe>) -> Got {
        let mut g = Got::default();
        match (q["t"].as_str().unwrap(), w) {
            ("all", "ext") => ext(&mut g, self.t.iter(), n),
            ("all", _) => mutr(&mut g, self.t.iter_mut(), n, bump),
            ("in", "ext") => ext(&mut g, self.t.locate_in_envelope(mkb(&q["b"])), n),
            ("in", "mut") => mutr(&mut g, self.t.locate_in_envelope_mut(mkb(&q["b"])), n, bump),
            ("in", "int") => { let c = self.t.locate_in_envelope_int(mkb(&q["b"]), vis(&mut g, n)); g.broke = broke(c, n) }
            ("in", _) => { let c = self.t.locate_in_envelope_int_mut(mkb(&q["b"]), vism(&mut g, n, bump)); g.broke = broke(c, n) }
            ("x", "ext") => ext(&mut g, self.t.locate_in_envelope_intersecting(mkb(&q["b"])), n),
            ("x", "mut") => mutr(&mut g, self.t.locate_in_envelope_intersecting_mut(mkb(&q["b"])), n, bump),
            ("x", "int") => { let c = self.t.locate_in_envelope_intersecting_int(mkb(&q["b"]), vis(&mut g, n)); g.broke = broke(c, n) }
            ("x", _) => { let c = self.t.locate_in_envelope_intersecting_int_mut(mkb(&q["b"]), vism(&mut g, n, bump)); g.broke = broke(c, n) }
            ("at", "ext") => ext(&mut g, self.t.locate_all_at_point(mkp(&q["p"])), n),
            ("at", "mut") => mutr(&mut g, self.t.locate_all_at_point_mut(mkp(&q["p"])), n, bump),
            ("at", "one") => if let Some(t) = self.t.locate_at_point_mut(mkp(&q["p"])) { g.see(t); if let Some(d) = bump { t.bump(d); } },
            ("at", "oneint") => if let Some(t) = self.t.locate_at_point_int_mut(mkp(&q["p"])) { g.see(t); if let Some(d) = bump { t.bump(d); } },
            ("at", "int") => { let c = self.t.locate_all_at_point_int(mkp(&q["p"]), vis(&mut g, n)); g.broke = broke(c, n) }
            ("at", _) => { let c = self.t.locate_all_at_point_int_mut(mkp(&q["p"]), vism(&mut g, n, bump)); g.broke = broke(c, n) }
            ("wd", _) => { let m = Num::dist(q["m"].as_i64().unwrap()); ext(&mut g, self.t.locate_within_distance(mkp(&q["p"]), m), n) }
            ("cu", "ext") => ext(&mut g, self.t.locate_with_selection_function(Cu::new(q, probe)), n),
            ("cu", _) => mutr(&mut g, self.t.locate_with_selection_function_mut(Cu::new(q, probe)), n, bump),
            _ => unreachable!(),
        }
        g
    }
    fn one(&mut self, p: &Value, w: &str) -> Got {
        let p = mkp(p);
        let mut g = Got::default();
        match w {
            "ext" => if let Some(t) = self.t.locate_at_point(p) { g.see(t) },
            "mut" => if let Some(t) = self.t.locate_at_point_mut(p) { g.see(t) },
            "int" => if let Some(t) = self.t.locate_at_point_int(p) { g.see(t) },
            _ => if let Some(t) = self.t.locate_at_point_int_mut(p) { g.see(t) },
        }
        g
    }
    fn remove(&mut self, q: &Value, eq: Option<&Def>, probe: Rc<Probe>) -> Got {
        let r = match q["t"].as_str().unwrap() {
            "eq" => self.t.remove(&T::mk(eq.unwrap())),
            "at" => self.t.remove_at_point(mkp(&q["p"])),
            _ => self.t.remove_with_selection_function(Cu::new(q, probe)),
        };
        let mut g = Got::default();
        if let Some(t) = r { g.see(&t) }
        g
    }
    fn nn(&self, p: &Value, w: &str) -> (Got, Vec<i64>) {
        let mut g = Got::default();
        let mut d = vec![];
        if w == "d2" {
            if let Some((t, x)) = self.t.nearest_neighbor_with_distance_2(mkp(p)) { g.see(t); d.push(x.dist_back()) }
        } else if let Some(t) = self.t.nearest_neighbor(mkp(p)) { g.see(t) }
        (g, d)
    }
    fn nn_iter(&self, p: &Value, w: &str, n: usize) -> (Got, Vec<i64>) {
        let mut g = Got::default();
        let mut d = vec![];
        match w {
            "d2" => if !eat(self.t.nearest_neighbor_iter_with_distance_2(mkp(p)), n, |(t, x)| { g.see(t); d.push(x.dist_back()) }) { g.r.push(0) },
            "old" => {
                #[allow(deprecated)]
                if !eat(self.t.nearest_neighbor_iter_with_distance(mkp(p)), n, |(t, x)| { g.see(t); d.push(x.dist_back()) }) { g.r.push(0) }
            }
            _ => ext(&mut g, self.t.nearest_neighbor_iter(mkp(p)), n),
        }
        (g, d)
    }
    fn nns(&self, p: &Value, w: &str) -> (Got, Vec<i64>) {
        let mut g = Got::default();
        let mut d = vec![];
        if w == "d2" {
            if let Some((ts, x)) = self.t.nearest_neighbors_with_distance_2(&mkp(p)) {
                for t in ts { g.see(t); d.push(x.dist_back()) }
                if d.is_empty() { d.push(-9) } // Some of nothing
            }
        } else { ext(&mut g, self.t.nearest_neighbors(&mkp(p)).into_iter(), usize::MAX) }
        (g, d)
    }
    fn pop(&mut self, p: &Value) -> Got {
        let mut g = Got::default();
        if let Some(t) = self.t.pop_nearest_neighbor(mkp(p)) { g.see(&t) }
        g
    }
    fn drain(&mut self, q: &Value, n: usize, forget: bool, probe: Rc<Probe>) -> Vec<Drained> {
        fn run<T: Obj>(it: impl Iterator<Item = T>, n: usize, forget: bool) -> Vec<Drained> {
            let mut it = it;
            let mut out = vec![];
            let hi = it.size_hint().1;
            for _ in 0..n {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next())) {
                    Ok(Some(t)) => { let v = if T::TAGGED { vec![t.val()] } else { vec![] }; out.push(Drained::Item(t.key(), v)) }
                    Ok(None) => out.push(Drained::End),
                    Err(e) => if is_boom(&e) { out.push(Drained::Boom) } else { std::panic::resume_unwind(e) },
                }
            }
            let got = out.iter().filter(|d| matches!(d, Drained::Item(..))).count();
            if hi.is_some_and(|h| got > h) { out.push(Drained::Item(0, vec![])) }
            if forget { std::mem::forget(it) } else { drop(it) }
            out
        }
        match q["t"].as_str().unwrap() {
            "all" => run(self.t.drain(), n, forget),
            "in" => run(self.t.drain_in_envelope(mkb(&q["b"])), n, forget),
            "x" => run(self.t.drain_in_envelope_intersecting(mkb(&q["b"])), n, forget),
            "wd" => { let m = Num::dist(q["m"].as_i64().unwrap()); run(self.t.drain_within_distance(mkp(&q["p"]), m), n, forget) }
            _ => run(self.t.drain_with_selection_function(Cu::new(q, probe)), n, forget),
        }
    }
    fn dup(&self) -> Box<dyn TreeApi> { Box::new(Tb { t: self.t.clone(), ser: self.ser }) }
    fn dup_from(&mut self, o: &dyn TreeApi) { self.t.clone_from(&o.any().downcast_ref::<Tb<T, Q>>().unwrap().t) }
    fn any(&self) -> &dyn Any { self }
    fn hier(&self) -> Value { hier(self.t.root()) }
    fn serde(&self) -> Option<Box<dyn TreeApi>> { self.ser.map(|f| Box::new(Tb { t: f(&self.t), ser: self.ser }) as Box<dyn TreeApi>) }
}

/// `a` holds a `RTree<T, Q>`, `b` a `RTree<U>`
pub fn join_as<T: Obj, Q: RTreeParams + Clone + 'static, U: Obj<Q = T::Q>>(a: &dyn TreeApi, b: &dyn TreeApi) -> Option<Vec<(u32, u32)>> {
    let b = b.any().downcast_ref::<Tb<U, DefaultParams>>()?;
    let a = a.any().downcast_ref::<Tb<T, Q>>()?;
    let mut r = vec![];
    if !eat(a.t.intersection_candidates_with_other_tree(&b.t), usize::MAX, |(a, b)| r.push((a.key(), b.key()))) { r.push((0, 0)) }
    Some(r)
}

pub fn is_boom(e: &Box<dyn Any + Send>) -> bool { e.downcast_ref::<&str>() == Some(&"BOOM") }
