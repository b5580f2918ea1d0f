//! Property-based testing framework of the harness: seeded parallel exploration,
//! crash and hang isolation, shrinking, replay files, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Verdict {
    /// the relation does not apply to these inputs
    Skip,
    /// held; was the case non-trivial?
    Ok(bool),
    Fail(String),
}

/// A relation over string inputs: the executable form of (part of) a property.
pub struct Rel {
    pub name: &'static str,
    /// inputs come in groups of this size; shrinking removes whole groups
    pub group: usize,
    /// first inputs that are never removed
    pub fixed: usize,
    pub check: Box<dyn Fn(&[String]) -> Verdict + Send + Sync>,
}

pub fn rel(name: &'static str, group: usize, fixed: usize, check: impl Fn(&[String]) -> Verdict + Send + Sync + 'static) -> Rel {
    Rel { name, group, fixed, check: Box::new(check) }
}

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub dir: PathBuf,
    pub threads: usize,
    pub start: Instant,
}

impl Cfg {
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// case count by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) { Some(f) => ((n as f64) * f) as u64, None => n }
    }
}

#[derive(Default)]
struct Shared {
    evals: u64,
    skipped: u64,
    by_rel: BTreeMap<String, (u64, u64)>,
    distinct: HashSet<u64>,
    samples: BTreeMap<String, Vec<(u64, Vec<String>)>>,
    fail: Option<(u64, usize, Vec<String>, String)>,
    stages: Vec<Value>,
    extra: BTreeMap<String, Value>,
}

pub struct Check {
    pub cfg: Cfg,
    pub rels: Vec<Rel>,
    pub rule: String,
    pub assumptions: Vec<String>,
    shared: Mutex<Shared>,
    stop_at: AtomicU64,
    timed_out: AtomicBool,
    limit: Duration,
}

pub fn hash(inputs: &[String]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    inputs.hash(&mut h);
    h.finish()
}

pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    r.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

pub struct Worker<'a> {
    check: &'a Check,
    journal: Option<std::fs::File>,
    tick: u64,
    pub stage: u64,
    pub idx: u64,
    evals: u64,
    skipped: u64,
    by_rel: BTreeMap<usize, (u64, u64)>,
    distinct: HashSet<u64>,
    samples: BTreeMap<usize, Vec<(u64, Vec<String>)>>,
    extra: BTreeMap<String, u64>,
}

impl Worker<'_> {
    fn journal(&mut self, rel: usize, inputs: &[String]) {
        self.tick += 1;
        if let Some(f) = &self.journal {
            let mut buf = Vec::with_capacity(64 + inputs.iter().map(|s| s.len() + 8).sum::<usize>());
            buf.extend(self.tick.to_le_bytes());
            buf.extend((rel as u64).to_le_bytes());
            buf.extend((inputs.len() as u64).to_le_bytes());
            for s in inputs { buf.extend((s.len() as u64).to_le_bytes()); buf.extend(s.as_bytes()); }
            let _ = f.write_all_at(&buf, 0);
        }
    }
    fn idle(&mut self) {
        if let Some(f) = &self.journal { let _ = f.write_all_at(&[0u8; 24], 0); }
    }
    pub fn count(&mut self, key: &str, n: u64) { *self.extra.entry(key.to_string()).or_default() += n; }
    /// Evaluate a relation on inputs; returns false on a violation (stop this worker's case).
    pub fn eval(&mut self, rel: &str, inputs: Vec<String>) -> bool {
        let ri = self.check.rels.iter().position(|r| r.name == rel).unwrap_or_else(|| panic!("no relation {rel}"));
        self.journal(ri, &inputs);
        let v = self.check.run_rel(ri, &inputs);
        self.evals += 1;
        match v {
            Verdict::Skip => { self.skipped += 1; true }
            Verdict::Ok(nt) => {
                let e = self.by_rel.entry(ri).or_default();
                e.0 += 1;
                if nt {
                    if self.distinct.insert(hash(&inputs) ^ (ri as u64)) {
                        e.1 += 1;
                        let s = self.samples.entry(ri).or_default();
                        let key = hash(&inputs).rotate_left(17) ^ self.check.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15);
                        let size: usize = inputs.iter().map(|s| s.len()).sum();
                        if size < 600 && (s.len() < 3 || key < s.last().unwrap().0) {
                            s.push((key, inputs));
                            s.sort();
                            s.truncate(3);
                        }
                    }
                }
                true
            }
            Verdict::Fail(m) => {
                let order = (self.stage << 40) | self.idx;
                self.check.stop_at.fetch_min(order, Ordering::SeqCst);
                let mut sh = self.check.shared.lock().unwrap();
                if sh.fail.as_ref().map_or(true, |f| order < f.0) { sh.fail = Some((order, ri, inputs, m)); }
                false
            }
        }
    }
}

impl Check {
    pub fn new(cfg: Cfg, rule: &str, rels: Vec<Rel>) -> Self {
        let limit = Duration::from_secs(if cfg.thorough() { 6 * 3600 } else { 600 });
        Check { cfg, rels, rule: rule.to_string(), assumptions: vec![], shared: Default::default(), stop_at: AtomicU64::new(u64::MAX), timed_out: AtomicBool::new(false), limit }
    }
    pub fn failed(&self) -> bool { self.shared.lock().unwrap().fail.is_some() }
    pub fn extra(&self, k: &str, v: Value) { self.shared.lock().unwrap().extra.insert(k.to_string(), v); }

    pub fn run_rel(&self, ri: usize, inputs: &[String]) -> Verdict {
        match quietly(|| (self.rels[ri].check)(inputs)) {
            Ok(v) => v,
            Err(p) if p.starts_with("harness:") => { eprintln!("{p}"); std::process::exit(3) }
            Err(p) => Verdict::Fail(format!("panic: {p}")),
        }
    }

    /// Run `n` cases of a stage over all threads. `f` must depend only on (seed, stage, idx).
    pub fn stage<L>(&self, name: &str, n: u64, init: impl Fn() -> L + Sync, f: impl Fn(&mut L, &mut Worker, u64) + Sync) { self.stage_chunk(name, n, 16, init, f) }
    /// The same, handing out `chunk` cases at a time
    pub fn stage_chunk<L>(&self, name: &str, n: u64, chunk: u64, init: impl Fn() -> L + Sync, f: impl Fn(&mut L, &mut Worker, u64) + Sync) {
        if self.failed() { return; }
        let t0 = Instant::now();
        let stage = { let sh = self.shared.lock().unwrap(); sh.stages.len() as u64 };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let before = self.shared.lock().unwrap().evals;
        std::thread::scope(|sc| {
            for tid in 0..self.cfg.threads {
                let (next, done, init, f) = (&next, &done, &init, &f);
                std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(sc, move || {
                    let journal = std::env::var("FW_JOURNAL").ok().map(|d| std::fs::OpenOptions::new().create(true).write(true).open(format!("{d}/{tid}")).unwrap());
                    let mut w = Worker { check: self, journal, tick: stage << 48, stage, idx: 0, evals: 0, skipped: 0, by_rel: Default::default(), distinct: Default::default(), samples: Default::default(), extra: Default::default() };
                    let mut l = init();
                    // cases are handed out in chunks, each chunk entirely to one worker
                    loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n { break; }
                        if t0.elapsed() > self.limit || self.cfg.start.elapsed() > self.limit { self.timed_out.store(true, Ordering::SeqCst); break; }
                        for i in a..(a + chunk).min(n) {
                            if ((stage << 40) | i) > self.stop_at.load(Ordering::SeqCst) { break; }
                            w.idx = i;
                            f(&mut l, &mut w, i);
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                        if ((stage << 40) | a) > self.stop_at.load(Ordering::SeqCst) { break; }
                    }
                    w.idle();
                    let mut sh = self.shared.lock().unwrap();
                    sh.evals += w.evals;
                    sh.skipped += w.skipped;
                    sh.distinct.extend(w.distinct.iter());
                    for (r, (a, b)) in w.by_rel { let e = sh.by_rel.entry(self.rels[r].name.to_string()).or_default(); e.0 += a; e.1 += b; }
                    for (r, v) in w.samples { let s = sh.samples.entry(self.rels[r].name.to_string()).or_default(); s.extend(v); s.sort(); s.truncate(3); }
                    for (k, v) in w.extra { let e = sh.extra.entry(k).or_insert(json!(0)); *e = json!(e.as_u64().unwrap_or(0) + v); }
                }).unwrap();
            }
        });
        let mut sh = self.shared.lock().unwrap();
        let ev = sh.evals - before;
        sh.stages.push(json!({"stage": name, "cases": done.load(Ordering::SeqCst), "evaluations": ev, "seconds": t0.elapsed().as_secs_f64()}));
    }

    fn shrink(&self, ri: usize, inputs: Vec<String>, msg: String) -> (Vec<String>, String) {
        let t0 = Instant::now();
        let budget = Duration::from_secs(40);
        let r = &self.rels[ri];
        let mut best = inputs;
        let mut best_msg = msg;
        let mut tries = 0u32;
        let class = |m: &str| m.split(':').next().unwrap_or("").to_string();
        let want = class(&best_msg);
        let mut try_it = |cand: &Vec<String>, best: &mut Vec<String>, best_msg: &mut String| -> bool {
            if t0.elapsed() > budget || tries > 200_000 { return false; }
            tries += 1;
            if let Verdict::Fail(m) = self.run_rel(ri, cand) { if class(&m) == want { *best = cand.clone(); *best_msg = m; return true; } }
            false
        };
        // remove groups
        if r.group > 0 {
            let mut size = ((best.len() - r.fixed) / r.group / 2).max(1);
            loop {
                let mut i = 0;
                let mut changed = false;
                while r.fixed + i * r.group < best.len() {
                    let a = r.fixed + i * r.group;
                    let b = (a + size * r.group).min(best.len());
                    let mut c = best.clone();
                    c.drain(a..b);
                    if try_it(&c, &mut best, &mut best_msg) { changed = true; } else { i += size; }
                    if t0.elapsed() > budget { break; }
                }
                if size == 1 && !changed { break; }
                if !changed { size = (size / 2).max(1); }
                if t0.elapsed() > budget { break; }
            }
        }
        // shrink each string: words first, then characters
        for round in 0..3 {
            let mut any = false;
            for k in 0..best.len() {
                let mut size = if round == 0 { best[k].split_inclusive(' ').count() / 2 } else { best[k].chars().count() / 2 }.max(1);
                loop {
                    let mut i = 0;
                    let mut changed = false;
                    loop {
                        let units: Vec<String> = if round == 0 { best[k].split_inclusive(' ').map(String::from).collect() } else { best[k].chars().map(|c| c.to_string()).collect() };
                        if i >= units.len() || t0.elapsed() > budget { break; }
                        let mut c = best.clone();
                        c[k] = units[..i].concat() + &units[(i + size).min(units.len())..].concat();
                        if try_it(&c, &mut best, &mut best_msg) { changed = true; any = true; } else { i += size; }
                    }
                    if size == 1 && !changed { break; }
                    if !changed { size = (size / 2).max(1); }
                    if t0.elapsed() > budget { break; }
                }
            }
            if round > 0 && !any { break; }
        }
        (best, best_msg)
    }

    fn write_replay(&self, rel: &str, inputs: &[String], msg: &str) -> String {
        let name = format!("replays/{}-{:016x}.json", self.cfg.prop, hash(inputs));
        let path = self.cfg.dir.join(&name);
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        let v = json!({"property": self.cfg.prop, "relation": rel, "inputs": inputs, "message": msg, "seed": self.cfg.seed, "tier": self.cfg.tier,
            "replay_cmd": format!("./run.sh {} --replay {}", self.cfg.prop, name)});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        name
    }

    fn report(&self, rel: &str, inputs: &[String], msg: &str) {
        let path = self.write_replay(rel, inputs, msg);
        println!("violated relation: {rel}");
        for l in msg.lines().take(60) { println!("  {l}"); }
        println!("VIOLATION property={} replay={}", self.cfg.prop, path);
    }

    fn evidence(&self, violations: u64) {
        let sh = self.shared.lock().unwrap();
        let samples: Vec<Value> = sh.samples.iter().flat_map(|(r, v)| v.iter().take(3).map(move |(_, i)| json!({"relation": r, "inputs": i}))).collect();
        let by: BTreeMap<&String, Value> = sh.by_rel.iter().map(|(k, (a, b))| (k, json!({"held": a, "distinct_nontrivial": b}))).collect();
        let mut cov = json!({"evaluations": sh.evals, "distinct_nontrivial": sh.distinct.len(), "skipped": sh.skipped, "rule": self.rule, "samples": samples, "relations": by, "stages": sh.stages});
        for (k, v) in &sh.extra { cov[k] = v.clone(); }
        let ev = json!({"property": self.cfg.prop, "tier": self.cfg.tier, "seed": self.cfg.seed, "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions, "wall_s": self.cfg.start.elapsed().as_secs_f64(), "violations": violations});
        let d = self.cfg.dir.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", self.cfg.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{}: {} evaluations, {} distinct non-trivial, {} skipped, {:.1}s", self.cfg.prop, sh.evals, sh.distinct.len(), sh.skipped, self.cfg.start.elapsed().as_secs_f64());
    }

    /// Shrink and report, write evidence; the exit code
    pub fn finish(&self) -> i32 {
        let fail = self.shared.lock().unwrap().fail.clone();
        self.evidence(fail.is_some() as u64);
        match fail {
            None => {
                let sh = self.shared.lock().unwrap();
                if self.timed_out.load(Ordering::SeqCst) { println!("note: stopped at the time limit"); }
                if sh.distinct.is_empty() { eprintln!("harness: no non-trivial case was explored"); return 3; }
                0
            }
            Some((_, ri, inputs, msg)) => {
                let name = self.rels[ri].name;
                // keep the unshrunk case in case shrinking crashes the process
                if let Ok(d) = std::env::var("FW_JOURNAL") { let _ = std::fs::write(format!("{d}/fail.json"), json!({"relation": name, "inputs": inputs, "message": msg}).to_string()); }
                let (i, m) = self.shrink(ri, inputs, msg);
                self.report(name, &i, &m);
                1
            }
        }
    }

    /// Evaluate one stored case: 0 held, 1 violated
    pub fn replay(&self, rel: &str, inputs: &[String]) -> i32 {
        let Some(ri) = self.rels.iter().position(|r| r.name == rel) else { eprintln!("no relation {rel}"); return 3 };
        match self.run_rel(ri, inputs) {
            Verdict::Fail(m) => { println!("relation {rel} violated"); println!("{m}"); 1 }
            Verdict::Ok(_) => { println!("relation {rel} holds"); 0 }
            Verdict::Skip => { println!("relation {rel} does not apply"); 0 }
        }
    }
}

pub fn read_replay(path: &str) -> (String, Vec<String>) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    (v["relation"].as_str().unwrap().to_string(), v["inputs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect())
}

fn read_journal(p: &std::path::Path) -> Option<(u64, u64, Vec<String>)> {
    let b = std::fs::read(p).ok()?;
    let u = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(b.get(i..i + 8)?.try_into().ok()?)) };
    let tick = u(0)?;
    if tick == 0 { return None; }
    let (rel, n) = (u(8)?, u(16)?);
    let mut at = 24;
    let mut v = vec![];
    for _ in 0..n {
        let l = u(at)? as usize;
        at += 8;
        v.push(String::from_utf8(b.get(at..at + l)?.to_vec()).ok()?);
        at += l;
    }
    Some((tick, rel, v))
}

/// How a child process ended
pub enum Ended { Code(i32), Signal(i32), Timeout }

pub fn run_limited(cmd: &mut std::process::Command, limit: Duration) -> Ended {
    let mut c = die_together(cmd).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return match st.code() { Some(c) => Ended::Code(c), None => Ended::Signal(st.signal().unwrap_or(0)) };
        }
        if t0.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); return Ended::Timeout; }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// the process ends when the thread that starts it does
pub fn die_together(c: &mut std::process::Command) -> &mut std::process::Command {
    use std::os::unix::process::CommandExt;
    unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }) }
}
pub fn limit_memory(bytes: u64) {
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: bytes, rlim_max: bytes }); }
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }); }
}

/// Entry point of a check binary: `<bin> PROP [--replay FILE]`.
/// The exploration runs in a child process; if that dies or hangs, the case it was on is found again and reported.
pub fn main(dir: &str, build: impl Fn(Cfg) -> Check, explore: impl Fn(&Check)) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let cfg = Cfg { prop: prop.clone(), tier, seed, dir: PathBuf::from(dir), threads, start: Instant::now() };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    std::panic::set_hook(Box::new(|i| if std::env::var("FW_PANIC").is_ok() { eprintln!("{i}") }));
    if let Some(f) = opt("--replay-inner") {
        limit_memory(16 << 30);
        let (rel, inputs) = read_replay(&f);
        let c = std::thread::Builder::new().stack_size(1 << 29).spawn_scoped_exit(move || build_and_replay(build, cfg, rel, inputs));
        std::process::exit(c);
    }
    if let Some(f) = opt("--replay") {
        let exe = std::env::current_exe().unwrap();
        let code = match run_limited(std::process::Command::new(exe).args([&prop, "--replay-inner", &f]), Duration::from_secs(120)) {
            Ended::Code(c) => c,
            Ended::Signal(s) => { println!("process died with signal {s}"); 1 }
            Ended::Timeout => { println!("no answer within 120 s"); 1 }
        };
        if code == 1 { println!("VIOLATION property={prop} replay={f}"); }
        std::process::exit(code);
    }
    if args.iter().any(|a| a == "--child") {
        limit_memory(28 << 30);
        let c = build(cfg);
        let r = quietly(|| explore(&c));
        if let Err(m) = r { eprintln!("harness: {m}"); std::process::exit(3); }
        std::process::exit(c.finish());
    }
    // parent
    let jdir = PathBuf::from(dir).join("target").join(format!("journal-{prop}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&jdir);
    let exe = std::env::current_exe().unwrap();
    let mut child = die_together(std::process::Command::new(&exe).args([&prop, "--child"]).env("FW_JOURNAL", &jdir)).spawn().unwrap();
    let mut seen: BTreeMap<usize, (u64, Instant)> = BTreeMap::new();
    let hang = Duration::from_secs(std::env::var("FW_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let outcome = loop {
        if let Some(st) = child.try_wait().unwrap() { break match st.code() { Some(c) => Ended::Code(c), None => Ended::Signal(st.signal().unwrap_or(0)) }; }
        std::thread::sleep(Duration::from_millis(50));
        let mut stuck = false;
        for t in 0..cfg.threads {
            if let Ok(f) = std::fs::File::open(jdir.join(t.to_string())) {
                let mut b = [0u8; 8];
                if f.read_exact_at(&mut b, 0).is_ok() {
                    let tick = u64::from_le_bytes(b);
                    if tick == 0 { seen.remove(&t); continue; }
                    match seen.get(&t) { Some((v, at)) if *v == tick => if at.elapsed() > hang { stuck = true }, _ => { seen.insert(t, (tick, Instant::now())); } }
                }
            }
        }
        if stuck { let _ = child.kill(); let _ = child.wait(); break Ended::Timeout; }
    };
    let code = match outcome {
        Ended::Code(c) => c,
        Ended::Signal(_) | Ended::Timeout => {
            match &outcome { Ended::Signal(s) => println!("the exploring process died with signal {s}; looking for the case"), _ => println!("no progress for {} s; looking for the case", hang.as_secs()) }
            let c = build(cfg.clone());
            let mut code = 3;
            let mut cands: Vec<(String, Vec<String>)> = vec![];
            if let Ok(s) = std::fs::read_to_string(jdir.join("fail.json")) {
                let v: Value = serde_json::from_str(&s).unwrap();
                c.report(v["relation"].as_str().unwrap(), &v["inputs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect::<Vec<_>>(), v["message"].as_str().unwrap());
                code = 1;
            } else {
                for t in 0..cfg.threads { if let Some((_, r, i)) = read_journal(&jdir.join(t.to_string())) { if let Some(r) = c.rels.get(r as usize) { cands.push((r.name.to_string(), i)); } } }
            }
            let cands0 = cands.clone();
            for (r, i) in cands {
                let f = jdir.join("cand.json");
                let dies = |i: &[String]| -> Option<String> {
                    std::fs::write(&f, json!({"relation": r, "inputs": i}).to_string()).unwrap();
                    match run_limited(std::process::Command::new(&exe).args([prop.as_str(), "--replay-inner", f.to_str().unwrap()]).stdout(std::process::Stdio::null()), Duration::from_secs(20)) {
                        Ended::Code(_) => None,
                        Ended::Signal(s) => Some(format!("the process dies with signal {s}")),
                        Ended::Timeout => Some("no answer within 20 s".into()),
                    }
                };
                if let Some(mut m) = dies(&i) {
                    // a short shrink, one input at a time
                    let mut best = i;
                    let t0 = Instant::now();
                    for k in 0..best.len() {
                        let mut size = (best[k].chars().count() / 2).max(1);
                        loop {
                            let mut at = 0;
                            while t0.elapsed() < Duration::from_secs(120) {
                                let ch: Vec<char> = best[k].chars().collect();
                                if at >= ch.len() { break; }
                                let mut b = best.clone();
                                b[k] = ch[..at].iter().chain(&ch[(at + size).min(ch.len())..]).collect();
                                if let Some(n) = dies(&b) { best = b; m = n; } else { at += size; }
                            }
                            if size == 1 { break; }
                            size /= 2;
                        }
                    }
                    c.report(&r, &best, &m);
                    c.evidence(1);
                    code = 1;
                    break;
                }
            }
            // what depends on everything that came before, or on several threads: does it happen again?
            if code == 3 && !cands0.is_empty() {
                let _ = std::fs::remove_file(jdir.join("fail.json"));
                let again = run_limited(std::process::Command::new(&exe).args([prop.as_str(), "--child"]).env("FW_JOURNAL", &jdir).stdout(std::process::Stdio::null()), cfg.start.elapsed() + hang * 2);
                let m = match again { Ended::Signal(s) if s != 9 => format!("the exploring process dies with signal {s}, twice"), Ended::Timeout => "the exploring process stops to make progress, twice".into(), _ => String::new() };
                if !m.is_empty() { let (r, i) = &cands0[0]; c.report(r, i, &format!("{m}: no case does it alone; one of those under way")); c.evidence(1); code = 1; }
            }
            if code == 3 { eprintln!("harness: the exploring process ended abnormally and no single case reproduces it"); }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&jdir);
    std::process::exit(code);
}

fn build_and_replay(build: impl Fn(Cfg) -> Check, cfg: Cfg, rel: String, inputs: Vec<String>) -> i32 { build(cfg).replay(&rel, &inputs) }

trait SpawnExit { fn spawn_scoped_exit(self, f: impl FnOnce() -> i32) -> i32; }
impl SpawnExit for std::thread::Builder {
    fn spawn_scoped_exit(self, f: impl FnOnce() -> i32) -> i32 {
        struct Send0<T>(T);
        unsafe impl<T> Send for Send0<T> {}
        let f = Send0(f);
        std::thread::scope(|s| self.spawn_scoped(s, move || { let f = f; (f.0)() }).unwrap().join().unwrap_or(3))
    }
}

/// A value per thread, built on first use
pub struct PerThread<T: 'static> { pub make: Box<dyn Fn() -> T + Send + Sync>, slots: Mutex<std::collections::HashMap<std::thread::ThreadId, Arc<Mutex<T>>>> }
impl<T> PerThread<T> {
    pub fn new(make: impl Fn() -> T + Send + Sync + 'static) -> Self { PerThread { make: Box::new(make), slots: Default::default() } }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let a = { let mut s = self.slots.lock().unwrap(); s.entry(std::thread::current().id()).or_insert_with(|| Arc::new(Mutex::new((self.make)()))).clone() };
        let mut g = a.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut g)
    }
}
