#![allow(deprecated)]
mod met;
mod api;
mod configs;
mod coord;
mod exec;
mod gen;
#[cfg(not(feature = "few"))]
mod pure;
#[cfg(feature = "few")]
#[path = "nopure.rs"]
mod pure;
mod scout;

use coord::*;
use exec::*;
use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 { arg(name).map(|x| x.parse().unwrap()).unwrap_or(d) }

/// seconds of processor time used
fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let v: Vec<u64> = s.rsplit(')').next().unwrap().split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    v.iter().sum::<u64>() / 100
}
/// A call that takes this many seconds of processor time hangs (a busy machine makes no hang).
fn watchdog(sink: Arc<Sink>, limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since, mut used) = (0, Instant::now(), 0);
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = sink.ticks.load(Relaxed);
            if t != last { last = t; since = Instant::now(); used = cpu(); continue }
            if since.elapsed().as_secs() < limit { continue }
            let p = sink.pending.lock().unwrap().clone();
            let Some(mut e) = p else { since = Instant::now(); used = cpu(); continue };
            // whole suites of calls on large trees
            let limit = if (e["op"] == "Met" || e["op"] == "Big") && e["n"].as_u64().is_some_and(|n| n > 300) { 5 * limit } else { limit };
            if cpu() - used < limit && since.elapsed().as_secs() < 10 * limit { continue }
            e["panic"] = serde_json::json!("hang");
            sink.log(&Arc::new(e));
            sink.finish();
            std::process::exit(3);
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_default();
    let cfgs = configs::all();
    let out: Box<dyn Write + Send> = match arg("--out") { Some(f) => Box::new(BufWriter::with_capacity(1 << 20, std::fs::File::create(f).unwrap())), None => Box::new(std::io::stdout()) };
    let sink = Arc::new(Sink { out: Mutex::new(out), pending: Mutex::new(None), ticks: AtomicU64::new(0), sync: arg("--sync"),
        hold: arg("--keep").map(|k| Mutex::new(Hold { keep: k.parse().unwrap(), ..Default::default() })) });
    let prog = arg("--progress").map(|f| std::fs::File::create(f).unwrap());
    watchdog(sink.clone(), num("--hang", 20));
    match mode.as_str() {
        "gen" => {
            let prop = arg("--prop").unwrap();
            let (seed, from, n, budget, scale) = (num("--seed", 1), num("--from", 0), num("--n", 10), num("--events", u64::MAX), num("--scale", 100));
            let mut events = 0u64;
            let t0 = Instant::now();
            let secs = num("--secs", 100_000);
            for i in from..from + n {
                if sink.full() || t0.elapsed().as_secs() >= secs { break }
                if let Some(f) = &prog { std::os::unix::fs::FileExt::write_at(f, format!("{i:20}").as_bytes(), 0).unwrap(); }
                let pure = match prop.as_str() { "C20" | "C24" | "C25" => true, "C23" | "C26" => i % 3 == 0, "C15" => i % 25 == 0, _ => false };
                let k = sink.clone();
                if met::part(&prop).is_some() && i % 8 == 5 { events += gen::rounded_case(&prop, &cfgs, seed, i, k) as u64; continue }
                if pure && sink.hold.is_some() { continue }
                events += if !pure { gen::one(&prop, &cfgs, seed, i, scale, k) as u64 }
                    else { gen::pure_case(&prop, &cfgs, seed, match prop.as_str() { "C23" | "C26" => i / 3, "C15" => i / 25, _ => i }, k) as u64 };
                if events > budget { break }
            }
        }
        "replay" => {
            let f = std::io::BufReader::new(std::fs::File::open(arg("--in").unwrap()).unwrap());
            let mut run: Option<Run> = None;
            for line in f.lines() {
                let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
                match v["op"].as_str().unwrap() {
                    "Case" => {
                        let cfg = cfgs.iter().find(|c| c.name == v["cfg"].as_str().unwrap()).expect("config");
                        let objs = v["objs"].as_array().unwrap().iter().enumerate().map(|(i, o)| Def { shape: Shape::parse(&o["g"]), eq: o["e"].as_u64().unwrap() as u32, key: i as u32 + 1 }).collect();
                        let mul: f64 = v["mul"].as_str().unwrap().parse().unwrap();
                        run = Some(Run::begin(cfg, objs, sink.clone(), v["cid"].as_str().unwrap(), v["prop"].as_str().unwrap(), mul, v["off"].as_str().unwrap().parse().unwrap(), v["sc"].as_i64().unwrap()));
                    }
                    "DrN" | "DrE" => {}
                    _ => {
                        let mut v = v;
                        if v["op"] == "RemBoom" { v["op"] = serde_json::json!("Rem") }
                        for k in ["r", "v", "d", "b", "a", "c", "sh", "panic", "rs"] {
                            if (v["op"] == "Box" || v["op"] == "Big" || v["op"] == "Met") && k != "r" && k != "panic" { continue }
                            if v["op"] == "Mut" && k == "d" { continue }
                            if let Value::Object(m) = &mut v { m.remove(k); }
                        }
                        if v["op"] == "Size" { v.as_object_mut().unwrap().remove("n"); }
                        run.as_mut().unwrap().exec(v);
                    }
                }
            }
        }
        "configs" => for c in &cfgs { println!("name={} dim={} min={} max={} rei={} shape={} alt={} lim={} tagged={} mutable={} wrap={} serde={}", c.name, c.dim, c.min, c.max, c.rei, c.shape, c.alt_shape, c.lim, c.tagged, c.mutable, c.wrap, c.serde) },
        _ => { eprintln!("usage: gen|replay|configs"); std::process::exit(2) }
    }
    sink.finish();
    if let (Some(f), Some(h)) = (arg("--stats"), &sink.hold) {
        let h = h.lock().unwrap();
        std::fs::write(f, serde_json::json!({"cases":h.cases,"events":h.events,"own":h.own,"other":h.other,"calls":h.calls,"cfgs":h.cfgs}).to_string()).unwrap();
    }
}
