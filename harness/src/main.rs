//! Replays the cases of the specification against the library and records what the library did.
//! The record (one JSON object per line) is judged by the specification; nothing is decided here.
mod env;
mod errinfo;
mod errs;
mod flow;
mod offer;
mod proof;
mod resp;
mod state;
mod token;
mod total;
mod util;
mod wire;

use env::Env;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use util::*;

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub focus: HashSet<String>,
    pub reps: usize,
    pub other: usize,
    pub random: usize,
    pub shard: usize,
    pub shards: usize,
    pub thorough: bool,
}
impl Cfg {
    fn mine(&self, i: usize) -> bool {
        i % self.shards == self.shard
    }
    fn wants(&self, props: &[&str]) -> bool {
        self.prop.is_empty() || self.prop == "C19" || props.contains(&self.prop.as_str())
    }
}

pub struct Log {
    out: BufWriter<File>,
    journal: Option<File>,
    pub n: u64,
    pub dropped: u64,
    pub steps: u64,
}
thread_local!(static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
pub static BEAT: AtomicU64 = AtomicU64::new(0);

impl Log {
    /// Note the call that is about to be made: all that is left of it if the process dies
    pub fn about(&mut self, op: &str, input: &Value) {
        BEAT.fetch_add(1, Ordering::SeqCst);
        if let Some(j) = &mut self.journal {
            use std::io::{Seek, SeekFrom};
            let text = json!({"op": op, "in": input}).to_string();
            let _ = j.seek(SeekFrom::Start(0));
            let _ = j.write_all(text.as_bytes());
            let _ = j.set_len(text.len() as u64);
        }
    }
    pub fn event(&mut self, mut v: Value) {
        self.n += 1;
        v["id"] = json!(self.n);
        v["panics"] = json!(v["out"].to_string().matches("\"PANIC").count() + v["ops"].to_string().matches("\"PANIC").count()
            + v["pre"].to_string().matches("\"PANIC").count() + v["resolve"].to_string().matches("\"PANIC").count() + v["md"].to_string().matches("\"PANIC").count());
        serde_json::to_writer(&mut self.out, &v).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
}

pub fn cases(path: &str) -> Vec<Value> {
    let f = BufReader::new(File::open(path).unwrap_or_else(|e| panic!("{path}: {e}")));
    let mut v: Vec<Value> = f
        .lines()
        .map(|l| {
            let text: String = serde_json::from_str(&l.unwrap()).unwrap();
            serde_json::from_str(&text).unwrap()
        })
        .collect();
    // TLC's workers write in any order
    v.sort_by_cached_key(canon);
    v
}
pub fn reps(cfg: &Cfg, case: &Value) -> usize {
    let f = case["F"].as_array().map(Vec::as_slice).unwrap_or_default();
    if !f.iter().all(|x| cfg.focus.contains(x.as_str().unwrap_or(""))) {
        cfg.other
    } else if f.len() == 1 && case["n"] == 1 {
        // the smallest refusals, with every way a text can differ
        cfg.reps.max(MUTATORS)
    } else {
        cfg.reps
    }
}
fn key(v: &Value) -> u64 {
    v.to_string().bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(u64::from(b)))
}

fn token_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        for r in 0..reps(cfg, case) {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("token {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
            let Some(call) = token::build(&case["in"], &mut e) else { log.dropped += 1; continue };
            log.about("token", &call.input);
            let out = call.run();
            log.event(json!({"op": "token", "in": call.input, "out": out}));
        }
    }
}

fn proof_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    let one = |case: &Value, i: usize, r: usize, log: &mut Log| {
        let mut e = Env::new(Rng::new(cfg.seed, &format!("proof {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
        let Some(call) = proof::build(case, &mut e) else { log.dropped += 1; return };
        log.about("proof", &call.input);
        let out = call.eval();
        let pre = if cfg.wants(&["C07", "C09", "C11"]) { call.pre() } else { json!([]) };
        let ops = if cfg.wants(&["C04", "C05", "C06", "C07", "C08", "C09", "C10"]) { call.ops() } else { json!([]) };
        log.event(json!({"op": "proof", "in": call.input, "out": out, "pre": pre, "ops": ops}));
    };
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        for r in 0..reps(cfg, case) {
            one(&case["in"], i, r, log);
        }
    }
    for i in (0..cfg.random).filter(|i| cfg.mine(*i)) {
        let case = proof::random_case(&mut Rng::new(cfg.seed, &format!("random {i}")));
        one(&case, 1_000_000 + i, i, log);
    }
}

fn offer_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        for r in 0..reps(cfg, case) {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("offer {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
            let Some(call) = offer::build(&case["in"], &mut e) else { log.dropped += 1; continue };
            log.about("offer", &call.input);
            let mut ev = json!({"op": "offer", "in": call.input, "out": [], "md": [], "resolve": []});
            if cfg.wants(&["C12", "C13"]) {
                ev["out"] = json!([call.run()]);
            }
            if cfg.wants(&["C14"]) {
                ev["md"] = json!([call.md()]);
                ev["resolve"] = json!([call.resolve()]);
            }
            log.event(ev);
        }
    }
}

fn resp_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        if !cfg.wants(&[if case["in"]["kind"] == "token" { "C15" } else { "C16" }]) {
            continue;
        }
        for r in 0..cfg.reps {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("resp {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
            let Some(call) = resp::build(&case["in"], &mut e) else { log.dropped += 1; continue };
            log.about("resp", &call.input);
            let out = call.run();
            log.event(json!({"op": "resp", "in": call.input, "out": out}));
        }
    }
}

fn err_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        let kind = case["in"]["kind"].as_str().unwrap();
        if !cfg.wants(&[if ["info", "return"].contains(&kind) { "C18" } else { "C17" }]) {
            continue;
        }
        for r in 0..cfg.reps {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("err {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
            for ev in errinfo::run(&case["in"], &mut e, log) {
                log.event(ev);
            }
        }
    }
}

fn wire_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        // the small types have few cases
        let big = ["metadata", "offer", "request", "profile"].contains(&case["in"]["type"].as_str().unwrap());
        for r in 0..if big { cfg.reps } else { cfg.reps * 6 } {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("wire {i} {r}")), r);
            let call = wire::build(&case["in"], &mut e, r);
            log.about("wire", &call.input);
            let out = call.run();
            log.event(json!({"op": "wire", "in": call.input, "out": out}));
        }
    }
}

fn flow_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in flow::bundle(all, cfg.seed).iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        for r in 0..cfg.reps {
            let e = Env::new(Rng::new(cfg.seed, &format!("flow {i} {r}")), r + (key(case) % MUTATORS as u64) as usize);
            log.about("flow", case);
            let Some(mut w) = flow::World::new(case, e) else { log.dropped += 1; continue };
            let out: Vec<Value> = case["steps"].as_array().unwrap().iter().map(|s| w.step(s)).collect();
            log.steps += out.len() as u64;
            log.event(json!({"op": "flow", "in": case, "out": out}));
        }
    }
}

fn state_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    let until = std::time::Instant::now() + std::time::Duration::from_secs(400);
    let orders: Vec<Vec<usize>> =
        all.iter().map(|c| c["in"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect()).collect();
    let (bursts, orders): (Vec<_>, Vec<_>) = orders.into_iter().partition(|o| o.len() > state::COUNT);
    for r in (0..cfg.reps).filter(|r| cfg.mine(*r)) {
        let mut rng = Rng::new(cfg.seed, &format!("state {r}"));
        let mut mine = orders.clone();
        rng.shuffle(&mut mine);
        mine.truncate(if cfg.random > 0 { cfg.random } else { usize::MAX });
        mine.extend(bursts.iter().cloned());
        rng.shuffle(&mut mine);
        let seed = rng.next() >> 2;
        match state::history(seed, &mine, until, log) {
            Some((input, out)) => {
                log.steps += out.as_array().unwrap().len() as u64;
                log.event(json!({"op": "state", "in": input, "out": out}));
            }
            None => log.dropped += 1,
        }
    }
}

fn total_suite(cfg: &Cfg, all: &[Value], log: &mut Log) {
    for (i, case) in all.iter().enumerate().filter(|(i, _)| cfg.mine(*i)) {
        let octet = case["in"][0][1].as_str().map_or(false, |t| t.starts_with("o") && t.contains(' '));
        let n = if case["in"].as_array().unwrap().len() < 2 && !octet { cfg.reps } else { cfg.other };
        // of the pairs, a share of them
        if case["in"].as_array().unwrap().len() == 2 && cfg.random > 0 && Rng::new(cfg.seed, &format!("pair {i}")).below(100) >= cfg.random {
            continue;
        }
        for r in 0..n {
            let mut e = Env::new(Rng::new(cfg.seed, &format!("total {i} {r}")), r);
            log.about("total", &json!({"troubles": case["in"], "case": i, "rep": r, "seed": cfg.seed}));
            let out = total::run(&case["in"], &mut e);
            log.steps += out.len() as u64;
            // calls that ended alike are one entry
            let mut seen = HashSet::new();
            let out: Vec<Value> = out.into_iter().filter(|c| seen.insert(c.to_string())).collect();
            log.event(json!({"op": "total", "in": {"troubles": case["in"], "case": i, "rep": r, "seed": cfg.seed}, "out": out}));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    for p in args[2..].chunks(2) {
        o.insert(p[0].trim_start_matches("--").to_owned(), p[1].clone());
    }
    let num = |k: &str, d: usize| o.get(k).map_or(d, |v| v.parse().unwrap());
    let cfg = Cfg {
        prop: o.get("prop").cloned().unwrap_or_default(),
        seed: num("seed", 1) as u64,
        focus: o.get("focus").map(|s| s.split(',').map(ToOwned::to_owned).collect()).unwrap_or_default(),
        reps: num("reps", 1),
        other: num("other", 1),
        random: num("random", 0),
        shard: num("shard", 0),
        shards: num("shards", 1),
        thorough: o.get("tier").map_or(false, |t| t == "thorough"),
    };
    if !clock_works() {
        eprintln!("the library does not read the clock of the harness");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST.with(|l| *l.borrow_mut() = format!("{at}: {i}"));
    }));
    if args[1] == "fresh" {
        return state::fresh(num("seed", 0) as u64, num("call", 0));
    }
    // a call that does not return is an outcome too
    std::thread::spawn(|| {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::SeqCst);
            last = if b == last.0 && b > 0 { (b, last.1 + 1) } else { (b, 0) };
            if last.1 > 60 {
                eprintln!("no progress for a minute");
                std::process::exit(3);
            }
        }
    });
    let mut log = Log {
        out: BufWriter::new(File::create(&o["out"]).unwrap()),
        journal: o.get("journal").map(|p| File::create(p).unwrap()),
        n: 0,
        dropped: 0,
        steps: 0,
    };
    let all = o.get("cases").map(|p| cases(p)).unwrap_or_default();
    let run = std::panic::AssertUnwindSafe(|| match args[1].as_str() {
        "token" => token_suite(&cfg, &all, &mut log),
        "offer" => offer_suite(&cfg, &all, &mut log),
        "proof" => proof_suite(&cfg, &all, &mut log),
        "resp" => resp_suite(&cfg, &all, &mut log),
        "err" => err_suite(&cfg, &all, &mut log),
        "flow" => flow_suite(&cfg, &all, &mut log),
        "state" => state_suite(&cfg, &all, &mut log),
        "total" => total_suite(&cfg, &all, &mut log),
        "wire" => wire_suite(&cfg, &all, &mut log),
        s => panic!("no suite {s}"),
    });
    if std::panic::catch_unwind(run).is_err() {
        // calls are guarded: a panic that comes this far is one of the harness, unless it was raised in the library
        let last = LAST.with(|l| l.borrow().clone());
        eprintln!("{last}");
        let _ = log.out.flush();
        std::process::exit(if last.contains("openid4vci/src") { 101 } else { 2 });
    }
    log.out.flush().unwrap();
    BEAT.store(0, Ordering::SeqCst);
    println!("{}", json!({"events": log.n, "dropped": log.dropped, "cases": all.len(), "steps": if log.steps > 0 { log.steps } else { log.n }}));
}
