//! Coverage-guided search: a corpus of texts that reach different branches (or reach them a different
//! number of times), which the generators of all checks draw from. Needs the instrumentation run.sh turns on
//! for the crate under test; without it the corpus is empty.
use crate::gens::*;
use fw::Check;
use postgresql_cst_parser::parse;
use refimpl::gen::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;

static EDGES: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static MAP: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let _ = COUNT.try_with(|n| n.set(n.get() + 1));
    let _ = MAP.try_with(|m| { let p = m.get(); if !p.is_null() { unsafe { let p = p.add(*g as usize); *p = (*p).wrapping_add(1); } } });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe { while a < b { *a = EDGES.fetch_add(1, Ordering::Relaxed); a = a.add(1); } }
}
/// branches of the instrumented code, and those this thread executed so far
pub fn edges() -> usize { EDGES.load(Ordering::Relaxed) as usize }
pub fn branches() -> u64 { COUNT.with(|n| n.get()) }

pub struct Entry { pub text: String, pub accepted: bool }
static CORPUS: OnceLock<Vec<Entry>> = OnceLock::new();

/// One text of the corpus, as it is or edited
pub fn guided(r: &mut Rng) -> Option<String> {
    let c = CORPUS.get()?;
    if c.is_empty() { return None; }
    let t = &r.pick(c).text;
    let o = r.below(c.len());
    Some(if r.chance(1, 2) { t.clone() } else { change(r, t, &c[o].text) })
}
pub fn guided_valid(r: &mut Rng) -> Option<String> {
    let c = CORPUS.get()?;
    (0..8).find_map(|_| if c.is_empty() { None } else { let e = r.pick(c); e.accepted.then(|| e.text.clone()) })
}

fn cut(r: &mut Rng, s: &str, max: usize) -> (usize, usize) {
    let f = |mut i: usize| { while !s.is_char_boundary(i) { i -= 1; } i };
    let a = f(r.below(s.len() + 1));
    let b = f((a + r.range(0, max)).min(s.len()));
    (a, b.max(a))
}
fn change(r: &mut Rng, t: &str, other: &str) -> String {
    let mut s = t.to_string();
    for _ in 0..r.range(1, 3) {
        let (a, b) = cut(r, &s, 12);
        match r.below(12) {
            0 | 1 => { let k = r.range(1, 2); s = mutate(r, &s, k); }
            2 => { let (x, y) = cut(r, other, 60); s.insert_str(a, &other[x..y]); }
            3 => { let (x, y) = cut(r, other, 400); s = format!("{}{}", &s[..a], &other[x..y]); }
            4 => { let n = dict().size(r, 300).min(300 / (b - a).max(1)); let f = s[a..b].repeat(n); s.insert_str(b, &f); }
            5 => { let (n, k) = (dict().size(r, 300), r.range(1, 2)); let f = if r.chance(1, 2) { long_trivia(r, n.min(300)) } else { soup(r, k) }; s.insert_str(a, &f); }
            6 => { let f = escapes(r, true); s.insert_str(a, &f); }
            7 => { let f = r.pick(&dict().strs_or()).to_string(); s.replace_range(a..b, &f); }
            8 => { let c = *r.pick(&["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM", "Op"]); let n = dict().size(r, 200); let f = long_word(r, c, n.min(300)); s.replace_range(a..b, &f); }
            9 => s = retoken(r, &s),
            10 => s = format!("{}{}{}", s, r.pick::<&str>(&[";", " ", "\n", "", ",", "("]), &other[..cut(r, other, 1).0]),
            _ => { let k: String = s[a..b].chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(); s.replace_range(a..b, &k); }
        }
    }
    if s.len() > 2000 { let (a, _) = cut(r, &s, 0); s.truncate(a); }
    s
}
fn bucket(n: u8) -> u8 { match n { 0 => 0, 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 } }
/// Runs one text; which (branch, times) pairs are new to `seen`?
fn reach(map: &mut [u8], seen: &mut [u8], text: &str) -> (bool, bool) {
    map.fill(0);
    MAP.with(|m| m.set(map.as_mut_ptr()));
    let r = fw::quietly(|| parse(text).is_ok());
    MAP.with(|m| m.set(std::ptr::null_mut()));
    let mut new = false;
    for (i, &n) in map.iter().enumerate() { if n != 0 { let b = bucket(n); if seen[i] & b == 0 { seen[i] |= b; new = true; } } }
    (new || r.is_err(), r.unwrap_or(false))
}

/// `checks --guide DIR EXECS`: searches for the corpus, in islands that each run a fixed number of texts, merged
/// after every round, so that the result depends on the seed alone. Writes DIR/corpus.json after every round, and
/// DIR/running.N, the text an island is on, so that a text that ends the process is found again.
pub fn main(out_dir: &str, execs: u64, seed: u64) -> i32 {
    fw::limit_memory(16 << 30);
    std::panic::set_hook(Box::new(|_| {}));
    let n = edges();
    if n == 0 { return 2; }
    let (islands, rounds) = (8u64, 5u64);
    let mut seen = vec![0u8; n];
    let mut corpus: Vec<Entry> = vec![];
    for round in 0..rounds {
        let found: Vec<Vec<Entry>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..islands).map(|island| {
                let (corpus, seen) = (&corpus, &seen);
                std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, move || {
                    let mut r = Rng::new(seed ^ 0x601d ^ round << 32, island);
                    let (mut map, mut mine, mut out) = (vec![0u8; n], seen.clone(), Vec::<Entry>::new());
                    let running = std::fs::File::create(format!("{out_dir}/running.{island}")).unwrap();
                    for i in 0..execs / islands / rounds {
                        let total = corpus.len() + out.len();
                        let text = if (round == 0 && i < 400) || total == 0 || i % 50 == 0 { let k = r.range(1, 12); if r.chance(1, 2) { sql(&mut r) } else { soup(&mut r, k) } } else {
                            let at = |k: usize| if k < corpus.len() { &corpus[k].text } else { &out[k - corpus.len()].text };
                            // half of the time one of the newest
                            let k = if r.chance(1, 2) { total - 1 - r.below(total.div_ceil(4)) } else { r.below(total) };
                            let o = r.below(total);
                            change(&mut r, at(k), at(o))
                        };
                        let mut b = (text.len() as u64).to_le_bytes().to_vec();
                        b.extend(text.as_bytes());
                        let _ = running.write_all_at(&b, 0);
                        let (new, accepted) = reach(&mut map, &mut mine, &text);
                        if new { out.push(Entry { text, accepted }); }
                    }
                    let _ = running.set_len(0);
                    out
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        let mut map = vec![0u8; n];
        for e in found.into_iter().flatten() { if reach(&mut map, &mut seen, &e.text).0 { corpus.push(e); } }
        let v = serde_json::json!({"texts_run": execs / rounds * (round + 1), "branches_reached": seen.iter().filter(|&&b| b != 0).count(), "branches_instrumented": n,
            "texts": corpus.iter().map(|e| serde_json::json!([e.text, e.accepted])).collect::<Vec<_>>()});
        std::fs::write(format!("{out_dir}/corpus.new"), v.to_string()).unwrap();
        std::fs::rename(format!("{out_dir}/corpus.new"), format!("{out_dir}/corpus.json")).unwrap();
    }
    0
}

/// Takes over the corpus of an earlier `--guide`, named by GUIDED
pub fn load(c: &Check) {
    let Ok(d) = std::env::var("GUIDED") else { return };
    let mut corpus = vec![];
    if let Some(v) = std::fs::read_to_string(format!("{d}/corpus.json")).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
        for e in v["texts"].as_array().into_iter().flatten() { corpus.push(Entry { text: e[0].as_str().unwrap_or("").to_string(), accepted: e[1].as_bool() == Some(true) }); }
        c.extra("coverage_guided", serde_json::json!({"texts_run": v["texts_run"], "corpus": corpus.len(), "accepted": corpus.iter().filter(|e| e.accepted).count(), "branches_reached": v["branches_reached"], "branches_instrumented": v["branches_instrumented"]}));
    }
    // texts that ended the search
    for i in 0..64 {
        let Ok(b) = std::fs::read(format!("{d}/running.{i}")) else { continue };
        let Some(n) = b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize) else { continue };
        if let Some(t) = b.get(8..8 + n).and_then(|t| String::from_utf8(t.to_vec()).ok()) { corpus.insert(0, Entry { text: t, accepted: false }); }
    }
    let _ = CORPUS.set(corpus);
}
/// every text of the corpus, once
pub fn corpus_stage(c: &Check, rel: &str) {
    let Some(v) = CORPUS.get() else { return };
    c.stage("coverage-guided corpus", v.len() as u64, || (), |_, w, i| { w.eval(rel, vec![v[i as usize].text.clone()]); });
}
