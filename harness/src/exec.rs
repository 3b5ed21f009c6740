//! Executes operations on real trees and logs one event per call: the call, its arguments and its
//! observable results.  A log line minus its results is an operation again, so logs are replayable.
use crate::api::*;
use crate::configs::*;
use crate::coord::*;
use crate::met;
use crate::pure;
use crate::scout::Scout;
use serde_json::{json, Map, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// Shared with the watchdog thread.
pub struct Sink {
    pub out: Mutex<Box<dyn Write + Send>>,
    pub pending: Mutex<Option<Value>>,
    pub ticks: AtomicU64,
    pub sync: Option<String>,
    pub hold: Option<Mutex<Hold>>,
}
/// Scouting: the lines of the current history are held back until the scout has read them.
#[derive(Default)]
pub struct Hold {
    pub scout: Scout,
    pub lines: Vec<Arc<Value>>,
    /// whether the first suspicious line is the property's own
    pub bad: Option<bool>,
    pub keep: u64,
    pub cases: u64,
    pub events: u64,
    pub own: u64,
    pub other: u64,
    pub calls: std::collections::BTreeMap<String, u64>,
    pub cfgs: std::collections::BTreeMap<String, u64>,
}
pub const ENOUGH: u64 = 6;
impl Sink {
    pub fn log(&self, v: &Arc<Value>) {
        if let Some(h) = &self.hold {
            let mut h = h.lock().unwrap();
            if v["op"] == "Case" {
                self.release(&mut h);
                h.scout = Scout::begin(v);
                h.cases += 1;
                *h.cfgs.entry(v["cfg"].as_str().unwrap().into()).or_default() += 1;
            } else {
                h.events += 1;
                match h.calls.get_mut(v["op"].as_str().unwrap()) { Some(n) => *n += 1, None => { h.calls.insert(v["op"].as_str().unwrap().into(), 1); } }
                if h.bad.is_none() && !h.scout.step(v) {
                    h.bad = Some(v["o"] == 1 || v.get("panic").is_some());
                }
            }
            h.lines.push(v.clone());
            return;
        }
        self.write(v);
    }
    fn write(&self, v: &Value) {
        let mut o = self.out.lock().unwrap();
        serde_json::to_writer(&mut *o, v).unwrap();
        o.write_all(b"\n").unwrap();
        if self.sync.is_some() { o.flush().unwrap(); }
    }
    fn release(&self, h: &mut Hold) {
        let go = match h.bad.take() {
            Some(true) => { h.own += 1; h.own <= ENOUGH }
            Some(false) => { h.other += 1; h.other <= ENOUGH }
            None => h.cases <= h.keep,
        };
        if go { for l in &h.lines { self.write(l) } }
        h.lines.clear();
    }
    pub fn finish(&self) {
        if let Some(h) = &self.hold { let mut h = h.lock().unwrap(); self.release(&mut h) }
        self.out.lock().unwrap().flush().unwrap();
    }
    /// enough suspicious histories to stop here
    pub fn full(&self) -> bool { self.hold.as_ref().is_some_and(|h| { let h = h.lock().unwrap(); h.own >= ENOUGH || h.other >= 500 }) }
    fn start(&self, op: &Value) {
        if let Some(f) = &self.sync { std::fs::write(f, op.to_string()).unwrap(); }
        *self.pending.lock().unwrap() = Some(op.clone());
        self.ticks.fetch_add(1, Relaxed);
    }
    fn done(&self) { *self.pending.lock().unwrap() = None; self.ticks.fetch_add(1, Relaxed); }
}

pub struct Run<'a> {
    pub cfg: &'a Config,
    pub objs: Vec<Def>,
    pub slots: Vec<Option<Box<dyn TreeApi>>>,
    pub sink: Arc<Sink>,
    pub dead: bool,
    pub events: usize,
}
pub type Ev = Map<String, Value>;

fn us(v: &Value, k: &str) -> usize { v[k].as_u64().unwrap_or_else(|| panic!("{k} in {v}")) as usize }
fn st<'v>(v: &'v Value, k: &str) -> &'v str { v[k].as_str().unwrap_or_else(|| panic!("{k} in {v}")) }

impl<'a> Run<'a> {
    /// head: prop, cid, mul, off, sc are filled in by the caller
    pub fn begin(cfg: &'a Config, objs: Vec<Def>, sink: Arc<Sink>, cid: &str, prop: &str, mul: f64, off: i64, sc: i64) -> Run<'a> {
        AFF.set((mul, off));
        SC.set(sc);
        turn_reset();
        sign_reset();
        BOOM_EQ.set(0);
        if !cfg.tagged {
            KEYS.with(|k| { let mut k = k.borrow_mut(); k.clear(); for d in &objs { k.entry(d.shape.flat()).or_insert(d.key); } });
        }
        let tab: Vec<Value> = objs.iter().map(|d| json!({"g": d.shape.json(), "e": d.eq})).collect();
        sink.log(&Arc::new(json!({"op":"Case","cid":cid,"prop":prop,"cfg":cfg.name,"dim":cfg.dim,"min":cfg.min,"max":cfg.max,
            "rei":cfg.rei,"sc":sc,"mul":mul.to_string(),"off":off.to_string(),"objs":tab})));
        Run { cfg, objs, slots: (0..6).map(|_| None).collect(), sink, dead: false, events: 0 }
    }
    pub fn def(&self, k: usize) -> &Def { &self.objs[k - 1] }

    /// Performs one operation; the returned events carry the results. After an unexpected panic the
    /// case is dead.
    pub fn exec(&mut self, op: Value) -> Vec<Arc<Value>> {
        if self.dead { return vec![]; }
        self.sink.start(&op);
        let boom = op["boom"].as_u64().unwrap_or(0);
        let probe = Rc::new(Probe::default());
        probe.boom.set(boom);
        BOOM_EQ.set(if op["op"] == "Rem" && op["q"]["t"] == "eq" { boom } else { 0 });
        let res = catch_unwind(AssertUnwindSafe(|| self.run(&op, probe)));
        BOOM_EQ.set(0);
        self.sink.done();
        let evs = match res {
            Ok(evs) => evs,
            Err(e) if is_boom(&e) => { let mut e = op.clone(); e["op"] = json!("RemBoom"); vec![e] }
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.dead = true;
                let mut e = op.clone();
                e["panic"] = json!(msg);
                vec![e]
            }
        };
        let evs: Vec<Arc<Value>> = evs.into_iter().map(Arc::new).collect();
        for e in &evs { self.sink.log(e); }
        self.events += evs.len();
        evs
    }

    fn run(&mut self, op: &Value, probe: Rc<Probe>) -> Vec<Value> {
        let mut e = op.clone();
        let name = st(op, "op").to_string();
        let got = |e: &mut Value, g: &Got| { e["r"] = json!(g.r); e["v"] = json!(g.v); };
        if name == "Met" { met::run(&mut e); return vec![e]; }
        if let Some(v) = pure::run(self.cfg, op) { return vec![v]; }
        let s = us(op, "s");
        let alt = op["dp"] == 1;
        macro_rules! tree { () => { self.slots[s].as_mut().expect("slot") } }
        match name.as_str() {
            "New" => self.slots[s] = Some(if alt { (self.cfg.new_dp)() } else { (self.cfg.new)() }),
            "Bulk" => {
                let ds: Vec<&Def> = op["ks"].as_array().unwrap().iter().map(|k| self.def(k.as_u64().unwrap() as usize)).collect();
                let t = if alt { (self.cfg.bulk_dp)(&ds) } else { (self.cfg.bulk)(&ds) };
                self.slots[s] = Some(t);
            }
            "Ins" => { let k = us(op, "k"); let d = &self.objs[k - 1]; self.slots[s].as_mut().unwrap().ins(d) }
            "Size" => e["n"] = json!(tree!().size()),
            "Iter" => { let g = tree!().iter(st(op, "w")); got(&mut e, &g) }
            "Into" => { let t = self.slots[s].take().unwrap(); let g = t.into(); got(&mut e, &g) }
            "Kill" => self.slots[s] = None,
            "Has" => { let k = us(op, "k"); let d = &self.objs[k - 1]; e["a"] = json!(self.slots[s].as_ref().unwrap().contains(d)) }
            "Rem" => {
                let d = op["q"]["k"].as_u64().map(|k| &self.objs[k as usize - 1]);
                let g = self.slots[s].as_mut().unwrap().remove(&op["q"], d, probe);
                got(&mut e, &g)
            }
            "Loc" => {
                let g = tree!().select(&op["q"], st(op, "w"), usize::MAX, None, probe.clone());
                got(&mut e, &g);
                e["b"] = json!(g.broke);
                e["sh"] = json!(*probe.shown.borrow());
            }
            "Take" => { let g = tree!().select(&op["q"], st(op, "w"), us(op, "n"), None, probe); got(&mut e, &g) }
            "Visit" => { let g = tree!().select(&op["q"], st(op, "w"), us(op, "n"), None, probe); got(&mut e, &g); e["b"] = json!(g.broke) }
            "Mut" => {
                let d = op["d"].as_i64().unwrap();
                let g = tree!().select(&op["q"], st(op, "w"), us(op, "n"), Some(d), probe);
                e["r"] = json!(g.r);
            }
            "One" => { let g = tree!().one(&op["p"], st(op, "w")); got(&mut e, &g) }
            "NN" => { let (g, d) = tree!().nn(&op["p"], st(op, "w")); got(&mut e, &g); e["d"] = json!(d) }
            "NNI" => { let (g, d) = tree!().nn_iter(&op["p"], st(op, "w"), us(op, "n")); got(&mut e, &g); e["d"] = json!(d) }
            "NNs" => { let (g, d) = tree!().nns(&op["p"], st(op, "w")); got(&mut e, &g); e["d"] = json!(d) }
            "Pop" => { let g = tree!().pop(&op["p"]); got(&mut e, &g) }
            "Drain" | "DrB" => {
                let forget = st(op, "m") == "forget";
                let out = tree!().drain(&op["q"], us(op, "n"), forget, probe);
                e["op"] = json!("DrB");
                let o = &op["o"];
                let mut evs = vec![e];
                for d in out {
                    evs.push(match d {
                        Drained::Item(k, v) => json!({"op":"DrN","r":[k],"v":v,"x":0,"o":o}),
                        Drained::End => json!({"op":"DrN","r":[],"v":[],"x":0,"o":o}),
                        Drained::Boom => json!({"op":"DrN","r":[],"v":[],"x":1,"o":o}),
                    });
                }
                evs.push(json!({"op":"DrE","m":op["m"],"o":o}));
                return evs;
            }
            "Clone" => {
                let to = us(op, "to");
                if op["w"] == "from" && self.slots[to].is_some() {
                    let mut t = self.slots[to].take().unwrap();
                    t.dup_from(&**self.slots[s].as_ref().unwrap());
                    self.slots[to] = Some(t);
                } else { let c = tree!().dup(); self.slots[to] = Some(c) }
            }
            "Serde" => { let to = us(op, "to"); let c = tree!().serde().expect("serde config"); self.slots[to] = Some(c) }
            "Join" => {
                let s2 = us(op, "s2");
                let r = (self.cfg.join)(&**self.slots[s].as_ref().unwrap(), &**self.slots[s2].as_ref().unwrap());
                e["r"] = json!(r);
            }
            "Str" => e["c"] = tree!().hier(),
            _ => panic!("unknown op {name}"),
        }
        vec![e]
    }
}
