//! P26: the work of a parse grows in proportion to the text.
use crate::gens::*;
use crate::guide::branches;
use crate::sut::*;
use crate::total::floor;
use fw::{rel, Cfg, Check, Verdict};
use postgresql_cst_parser::{parse, ParserError};
use refimpl::gen::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// counts what a thread allocates
pub struct Counting;
thread_local! { static ALLOCATED: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64)); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let _ = ALLOCATED.try_with(|a| a.set(a.get() + l.size() as u64)); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64)); System.realloc(p, l, n) }
}

/// CPU time of this thread, in seconds
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// What a parse came to: comparable when a longer text ends in the same way
#[derive(Clone, Copy, PartialEq)]
enum End { Tree, Lexer, Syntax(usize) }
impl End {
    /// is the error of the longer text the one of the shorter text, in the same place or at the same part of the text?
    fn like(self, longer: End, growth: f64) -> bool {
        match (self, longer) {
            (End::Syntax(a), End::Syntax(b)) => a == b || (b as f64 > a as f64 * growth * 0.8 && (b as f64) < a as f64 * growth * 1.25),
            (a, b) => a == b,
        }
    }
}
#[derive(Clone, Copy)]
struct Cost { seconds: f64, bytes: f64, branches: f64, end: End }
/// of one parse, on a thread whose stack holds deep trees
fn cost(text: &str) -> Cost {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(s, || {
        let (t0, a0, b0) = (cpu(), ALLOCATED.with(|a| a.get()), branches());
        let r = parse(text);
        let (seconds, bytes, branches) = (cpu() - t0, (ALLOCATED.with(|a| a.get()) - a0) as f64, (branches() - b0) as f64);
        let end = match r { Ok(_) => End::Tree, Err(ParserError::ParseError { start_byte_pos, .. }) => End::Syntax(start_byte_pos), Err(_) => End::Lexer };
        Cost { seconds, bytes, branches, end }
    }).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}
fn text(i: &[String], n: usize) -> String { format!("{}{}{}{}{}", i[0], i[1].repeat(n), i[2], i[3].repeat(n), i[4]) }

const BASE: usize = 8 << 10;
/// a run of operator characters: a listed known finding
fn op_run(u: &str) -> bool { !u.is_empty() && u.chars().all(|c| "~!@#^&|`?+-*/%<>=".contains(c)) }

/// the least time of `n` parses; the other measures do not vary
fn least(text: &str, n: usize) -> f64 { (0..n).map(|_| cost(text).seconds).fold(f64::MAX, f64::min) }

/// inputs: prefix, repeated, middle, repeated after, suffix
fn grows(i: &[String], known: bool) -> Verdict {
    let unit = i[1].len() + i[3].len();
    if unit == 0 || unit > BASE / 8 { return Verdict::Skip; }
    let known = known && (op_run(&i[1]) || op_run(&i[3]));
    // multiples of 12, so that quotes and the like pair up in the same way
    let at = |k: usize| text(i, (BASE / 12).div_ceil(unit) * 12 * k);
    let base = at(1);
    let a = cost(&base);
    if known && a.branches > 3e7 { return Verdict::Skip; }
    for k in [4usize, 16] {
        let t = at(k);
        let growth = t.len() as f64 / base.len() as f64;
        let b = cost(&t);
        if !a.end.like(b.end, growth) { return Verdict::Skip; }
        let limit = growth.powf(1.2);
        let what = if b.branches > 1e6 && b.branches / a.branches.max(1.0) > limit { Some(("work", "branches", a.branches, b.branches)) }
            else if b.bytes > 1e6 && b.bytes / a.bytes.max(1.0) > growth.powf(1.35) { Some(("memory", "bytes of allocations", a.bytes, b.bytes)) }
            // what the counts cannot see, such as copies of memory; a measured time is allowed much more
            else if b.seconds > 0.2 && b.seconds / a.seconds.max(1e-4) > growth.powf(1.75) {
                let (x, y) = (least(&base, 5).max(1e-4), least(&t, if b.seconds > 3.0 { 1 } else { 3 }));
                if y / x > growth.powf(1.75) { Some(("time", "ms", x * 1e3, y * 1e3)) } else { None }
            } else { None };
        if let Some((class, unit, x, y)) = what {
            if known { return Verdict::Skip; }
            return Verdict::Fail(format!("{class}: {} bytes of text take {x:.0} {unit}, {} bytes take {y:.0}: text {growth:.1} times as long, {:.1} times as many", base.len(), t.len(), y / x));
        }
    }
    Verdict::Ok(base.len() >= BASE)
}

pub fn p26(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "texts that repeat a fragment (statement, list element, operand, clause, trivia, body of a literal, name or comment, malformed fragment) up to 8, 32 and 128 KiB; the branches executed (counted by instrumentation) and the bytes allocated may grow at most as length^1.2 and length^1.35, the CPU time of the thread at most as length^1.75; non-trivial: all lengths were parsed",
        vec![rel("grows", 0, 0, |i| grows(i, true))]);
    c.assumptions.push("work inside the standard library's precompiled code is seen only by CPU time, where only growth far beyond proportional counts".into());
    c.assumptions.push("runs of operator characters that fail are left out: the listed known finding".into());
    c
}
/// what the repeated fragment stands in
const PLACES: &[[&str; 3]] = &[["", "", ""], ["select ", "", "1"], ["select ", "", ""], ["select '", "", "'"], ["select \"", "", "\""], ["select e'", "", "'"], ["select u&'", "", "'"], ["select $$", "", "$$"], ["select $a$", "", "$a$"], ["/*", "", "*/select 1"], ["--", "", "\nselect 1"], ["select 1 from t where a ", "", ""],
    ["insert into t values (1)", "", ""], ["select 'a'", "", "select 1"], ["select 1 /*", "", ""], ["select '", "", ""], ["select $a$", "", ""], ["select a not", "", "between 1 and 2"], ["select f(", "", "1)"], ["select 1 ", "", "from from"], ["create table t (a int ", "", ")"]];
fn fragment(r: &mut Rng) -> String {
    match r.below(9) {
        0 => { let v = stmt(r); format!("{};\n", g().words.render_fancy(r, &v)) }
        1 => { let v = stmt(r); g().words.render_plain(&v) }
        2 => { let k = r.range(1, 3); soup(r, k) }
        3 => { let k = r.range(1, 6); soup(r, k) }
        4 => { let n = r.range(1, 30); long_trivia(r, n) }
        5 => { let n = r.range(1, 12); let c = *r.pick(&["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM"]); format!("{}{}", long_word(r, c, n), r.pick::<&str>(&[", ", " ", "\n", "", " + ", "; "])) }
        6 => escapes(r, true),
        7 => { let s = sql(r); let a = floor(&s, r.below(s.len() + 1)); let b = floor(&s, (a + r.range(1, 25)).min(s.len())); s[a..b].to_string() }
        _ => (0..r.range(1, 5)).map(|_| *r.pick(&['\'', '"', '$', 'a', 'E', ' ', '\n', '\r', '-', '/', '*', '+', '.', '1', 'e', '_', 'x', '\\', '(', ')', ';', ',', ':', '<', 'é', '&', 'u', '{', '@'])).collect(),
    }
}
pub fn x26(c: &Check) {
    let shapes: Vec<&[&str; 5]> = DEEP.iter().chain(LONG).chain(MORE).filter(|s| !s[1].is_empty() || !s[3].is_empty()).collect();
    c.stage_chunk("shapes", shapes.len() as u64, 1, || (), |_, w, i| { w.eval("grows", shapes[i as usize].iter().map(|s| s.to_string()).collect()); });
    let seed = c.cfg.seed;
    c.stage_chunk("random fragments", c.cfg.n(3000, 60_000), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x9407, i);
        let p = r.pick(PLACES);
        let mut v: Vec<String> = vec![p[0].into(), fragment(&mut r), p[1].into(), String::new(), p[2].into()];
        if r.chance(1, 6) { v[3] = fragment(&mut r); }
        if r.chance(1, 6) { let k = r.range(1, 2); v[2] = soup(&mut r, k); }
        if r.chance(1, 8) { v[0] = { let k = r.range(1, 3); soup(&mut r, k) }; }
        if r.chance(1, 8) { v[4] = { let k = r.range(1, 3); soup(&mut r, k) }; }
        w.eval("grows", v);
    });
    if !c.failed() { known_findings(); }
}
fn known_findings() {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", dir())) else { return };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: property=P26 input=") else { continue };
        let Some(end) = rest.find("] ") else { continue };
        let Ok(v) = serde_json::from_str::<Vec<String>>(&rest[..=end]) else { eprintln!("known_findings.txt: cannot read {l}"); continue };
        if v.len() == 5 && matches!(grows(&v, false), Verdict::Fail(_)) { println!("KNOWN-FINDING: property=P26{}", &rest[end + 1..]); }
    }
}
