//! P02: totality. P14: purity.
use crate::core::*;
use crate::gens::*;
use crate::sut::*;
use fw::{rel, Cfg, Check, Ended, Verdict};
use postgresql_cst_parser::{parse, ParserError, ResolvedNode};
use refimpl::gen::*;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- P02
fn total(text: &str) -> Verdict {
    // a panic in here is turned into a violation by the framework
    match parse(text) {
        Ok(root) => { let n = root.descendants_with_tokens().count(); drop(root); Verdict::Ok(n >= 4) }
        Err(e) => { let _ = format!("{e:?}"); Verdict::Ok(!text.is_empty()) }
    }
}

/// `checks --probe FILE`: parse the file's text on a thread with 8 MB of stack
pub fn probe(path: &str) -> i32 {
    fw::limit_memory(16 << 30);
    let text = std::fs::read_to_string(path).unwrap();
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || match parse(&text) {
        Ok(t) => { let n = usize::from(t.text_range().len()); if n == text.len() { 0 } else { 9 } }
        Err(_) => 1,
    }).unwrap().join();
    r.unwrap_or(101)
}

/// [prefix, repeated, middle, repeated after, suffix, count]
fn big_text(i: &[String]) -> Option<String> {
    let n: usize = i[5].parse().ok()?;
    if n > 50_000_000 || n * (i[1].len() + i[3].len()) > 200_000_000 { return None; }
    Some(format!("{}{}{}{}{}", i[0], i[1].repeat(n), i[2], i[3].repeat(n), i[4]))
}
fn survives(i: &[String]) -> Verdict {
    let Some(text) = big_text(i) else { return Verdict::Skip };
    let f = format!("{}/target/probe-{}-{:?}", dir(), std::process::id(), std::thread::current().id());
    let _ = std::fs::create_dir_all(format!("{}/target", dir()));
    std::fs::write(&f, &text).unwrap();
    let exe = std::env::current_exe().unwrap();
    let e = fw::run_limited(Command::new(exe).args(["--probe", &f]).stdout(Stdio::null()).stderr(Stdio::null()), Duration::from_secs(45));
    let _ = std::fs::remove_file(&f);
    let what = format!("{:?} + {:?}*{n} + {:?} + {:?}*{n} + {:?} ({} bytes)", i[0], i[1], i[2], i[3], i[4], text.len(), n = i[5]);
    match e {
        Ended::Code(0) | Ended::Code(1) => Verdict::Ok(text.len() >= 1000),
        Ended::Code(101) => Verdict::Fail(format!("panic: parsing {what}")),
        Ended::Code(c) => Verdict::Fail(format!("exit: code {c} on {what}")),
        Ended::Signal(s) => Verdict::Fail(format!("crash: signal {s} on {what}")),
        Ended::Timeout => Verdict::Fail(format!("no answer: within 45 s on {what}")),
    }
}

pub fn p02(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "malformed and odd texts: all short strings over a broad alphabet, every Unicode scalar value in several places, fragment soups, truncated and mutated sentences, huge numbers; big and deep texts in a subprocess with 8 MB of stack, memory and time limits; non-trivial: a tree with at least four elements, an error on a non-empty text, or a big text of at least 1000 bytes",
        vec![rel("total", 0, 0, |i| total(&i[0])), rel("survives", 0, 0, survives)]);
    c.assumptions.push("nesting and list lengths beyond the listed known finding are not explored: the tree library recurses over the depth of the tree".into());
    c
}
pub fn x02(c: &Check) {
    const A: &[&str] = &["'", "\"", "$", "\\", "-", "/", "*", "+", ".", ":", "=", "<", "!", "@", "0", "1", "x", "b", "o", "e", "u", "U", "&", "n", "_", " ", "\n", "é", "(", ")", ";", ",", "{", "a", "\u{0}", "%", "[", "😀", "\u{1}"];
    crate::guide::corpus_stage(c, "total");
    let k = A.len() as u64;
    let t = c.cfg.thorough();
    for len in 0..=(if t { 4 } else { 3 }) {
        c.stage(&format!("all strings of length {len}, broad alphabet"), k.pow(len), || (), |_, w, mut i| { let mut s = String::new(); for _ in 0..len { s += A[(i % k) as usize]; i /= k; } w.eval("total", vec![s]); });
    }
    const PLACES: &[(&str, &str)] = &[("", ""), ("select ", ""), ("select 1", ""), ("a", "a"), ("'", "'"), ("e'\\", "'"), ("$", "$ $"), ("\"", "\""), ("$1", ""), ("1.", ""), ("+", "-"), ("/*", "*/"), ("--", "\n"), ("u&'", "'"), ("0x", "f"), ("'a", "")];
    let np = if t { PLACES.len() } else { 6 };
    c.stage("every character", 0x11_0000 / 16, || (), |_, w, i| {
        for j in 0..16 {
            let Some(ch) = char::from_u32(i as u32 * 16 + j) else { continue };
            // beyond the BMP a sample of places is enough
            for p in 0..PLACES.len() {
                if (i >= 0x1000 && p != (i as usize + j as usize) % PLACES.len()) || (i >= 0x20 && i < 0x1000 && (p + i as usize + j as usize) % PLACES.len() >= np) { continue; }
                let (a, b) = PLACES[p];
                if !w.eval("total", vec![format!("{a}{ch}{b}")]) { return; }
            }
        }
    });
    stage_sql(c, "soup", "total", c.cfg.n(250_000, 20_000_000), |r| { let m = *r.pick(&[2usize, 5, 12, 40]); soup(r, m) });
    stage_sql(c, "soup after a statement", "total", c.cfg.n(80_000, 5_000_000), |r| { let v = stmt(r); let s = g().words.render_fancy(r, &v); let cut = floor(&s, r.below(s.len() + 1)); format!("{}{}", &s[..cut], soup(r, 4)) });
    stage_sql(c, "truncated", "total", c.cfg.n(80_000, 5_000_000), |r| { let s = sql(r); let cut = floor(&s, r.below(s.len() + 1)); s[..cut].to_string() });
    stage_sql(c, "mutants", "total", c.cfg.n(100_000, 6_000_000), |r| { let s = sql(r); let k = r.range(1, 5); mutate(r, &s, k) });
    stage_sql(c, "numbers", "total", c.cfg.n(60_000, 2_000_000), |r| {
        let n = *r.pick(&[1usize, 8, 9, 10, 11, 16, 19, 20, 21, 32, 33, 64, 65, 200, 400]);
        let d: String = (0..n).map(|_| *r.pick(&['0', '1', '7', '9', 'f', '_', '.', 'e', '8', '2'])).collect();
        format!("select {}{}{}", r.pick::<&str>(&["", "0x", "0X", "0o", "0b", "$", "-", ".", "1e", "1e-", "0b1", "'a' uescape "]), d, r.pick::<&str>(&["", " ", "a", ".", "e", "'", "..", "$", "é"]))
    });
    stage_sql(c, "escapes", "total", c.cfg.n(100_000, 5_000_000), |r| {
        let mut s = String::from(*r.pick::<&str>(&["E'", "e'", "'", "U&'", "u&\"", "x'", "select e'"]));
        for _ in 0..r.range(1, 8) { if r.chance(1, 3) { s += &escapes(r, true); continue; } s += r.pick::<&str>(&["\\", "\\x", "\\xf", "\\xff", "\\u", "\\uD83D", "\\ude00", "\\u0000", "\\U", "\\UFFFFFFFF", "\\U00110000", "\\U0010ffff", "\\377", "\\400", "\\0", "\\uDBFF", "\\uDFFF", "\\uDC00", "\\uD800", "'", "''", "\n'", "a", "é", "😀", "0", "\\'", "\\U0000D800", "+", "-", "\\U0000DC00"]); }
        if r.chance(2, 3) { s.push('\''); }
        s
    });
    sizes(c, "sizes", if t { 5000 } else { 700 }, |w, t| w.eval("total", vec![t]));
    cells(c, "automaton cells", 3, 100, |w, t| w.eval("total", vec![t]));
    // big texts
    let deep = if t { vec![500usize, 1_500, 2_000] } else { vec![1_500] };
    let long = if t { vec![1_000usize, 20_000, 60_000] } else { vec![20_000] };
    let mut v: Vec<Vec<String>> = vec![];
    for s in DEEP { for n in &deep { v.push(s.iter().map(|x| x.to_string()).chain([n.to_string()]).collect()); } }
    for s in LONG { for n in &long { v.push(s.iter().map(|x| x.to_string()).chain([n.to_string()]).collect()); } }
    c.stage_chunk("big texts", v.len() as u64, 1, || (), |_, w, i| { w.eval("survives", v[i as usize].clone()); });
    let n = c.cfg.n(60, 3000);
    let seed = c.cfg.seed;
    c.stage_chunk("random big texts", n, 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0xb16, i);
        let a = soup(&mut r, 2);
        let rep = if r.chance(1, 2) { soup(&mut r, 2) } else { let v = stmt(&mut r); format!("{};", g().words.render_fancy(&mut r, &v)) };
        let count = if rep.len() > 40 { 1500 } else { 9000 };
        let n = r.range(200, count);
        w.eval("survives", vec![a, rep, soup(&mut r, 1), soup(&mut r, 1), soup(&mut r, 1), n.to_string()]);
    });
    if !c.failed() { known_findings(); }
}
/// Defects that are recorded, not repaired: shapes listed in known_findings.txt as `finding: property=P02 input=[...] what`
fn known_findings() {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", dir())) else { return };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: property=P02 input=") else { continue };
        let Some(end) = rest.find(']') else { continue };
        let Ok(v) = serde_json::from_str::<Vec<serde_json::Value>>(&rest[..=end]) else { eprintln!("known_findings.txt: cannot read {l}"); continue };
        let shape: Vec<String> = v.iter().map(|x| x.as_str().map(String::from).unwrap_or_else(|| x.to_string())).collect();
        if shape.len() == 6 && finding(&shape) { println!("KNOWN-FINDING: property=P02{}", &rest[end + 1..]); }
    }
}
pub fn floor(s: &str, mut i: usize) -> usize { while !s.is_char_boundary(i) { i -= 1; } i }

/// The listed known finding; true when it still fails
pub fn finding(shape: &[String]) -> bool { matches!(survives(shape), Verdict::Fail(_)) }

// ---------------------------------------------------------------- P14
/// everything observable about a result
fn fingerprint(r: &Result<ResolvedNode, ParserError>) -> String {
    match r {
        Ok(t) => {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            let mut n = 0;
            for e in t.descendants_with_tokens() {
                n += 1;
                match e {
                    postgresql_cst_parser::NodeOrToken::Node(x) => (0, x.kind() as u32, u32::from(x.text_range().start()), u32::from(x.text_range().end())).hash(&mut h),
                    postgresql_cst_parser::NodeOrToken::Token(x) => (1, x.kind() as u32, u32::from(x.text_range().start()), x.text()).hash(&mut h),
                }
            }
            format!("tree {n} {:016x}", h.finish())
        }
        Err(e) => format!("{e:?}"),
    }
}
/// `checks --fresh`: fingerprint of the text on stdin, in a process that has parsed nothing else
pub fn fresh_main() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || fingerprint(&parse(&s))).unwrap().join();
    match r { Ok(f) => { print!("{f}"); 0 } Err(_) => { print!("panic"); 0 } }
}
fn fresh(text: &str) -> String {
    static M: OnceLock<Mutex<HashMap<String, String>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(f) = m.lock().unwrap().get(text) { return f.clone(); }
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("--fresh").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    let f = String::from_utf8(o.stdout).unwrap();
    m.lock().unwrap().insert(text.to_string(), f.clone());
    f
}

/// ops: [op, text] pairs; see the match below
fn history(i: &[String]) -> Verdict {
    if i.len() % 2 != 0 { return Verdict::Skip; }
    type R = Result<ResolvedNode, ParserError>;
    let mut kept: Vec<(String, String, Arc<R>)> = vec![];
    let mut parses = 0;
    let mut buffer = String::with_capacity(8192);
    let bad = |what: &str, text: &str, want: &str, got: &str| Verdict::Fail(format!("impure: {what}: the text {text:?} gives {got}, in a fresh process {want}"));
    for p in i.chunks(2) {
        let (op, text) = (p[0].as_str(), &p[1]);
        let mut keep = |r: R, what: &str| -> Option<Verdict> {
            let (want, got) = (fresh(text), fingerprint(&r));
            parses += 1;
            if want == "panic" { return None; }
            if want != got { return Some(bad(what, text, &want, &got)); }
            kept.push((text.clone(), got, Arc::new(r)));
            None
        };
        let v = match op {
            "parse" => keep(parse(text), "parse"),
            // the same memory again and again
            "parse in place" => { buffer.clear(); buffer.push_str(text); keep(parse(&buffer), "parse in reused memory") }
            "on thread" => { let t = text.clone(); let r = std::thread::spawn(move || parse(&t)).join(); match r { Ok(r) => keep(r, "parse on another thread"), Err(_) => return Verdict::Fail(format!("panic: on {text:?}")) } }
            "drop" => { let k = kept.len(); if k > 0 { kept.swap_remove(text.len() % k); } None }
            "drop all" => { kept.clear(); None }
            "drop on thread" => { let k = kept.len(); if k > 0 { let x = kept.swap_remove(text.len() % k); let _ = std::thread::spawn(move || drop(x)).join(); } None }
            "read on thread" => {
                let k = kept.len();
                if k == 0 { None } else {
                    let (t, f, r) = kept[text.len() % k].clone();
                    let got = std::thread::spawn(move || fingerprint(&r)).join().unwrap_or("panic".into());
                    if got != f { Some(bad("a kept tree read on another thread", &t, &f, &got)) } else { None }
                }
            }
            "together" => {
                // this text and the last kept ones, each on its own thread, at the same time
                let mut texts: Vec<String> = kept.iter().rev().take(5).map(|k| k.0.clone()).collect();
                texts.push(text.clone());
                texts.push(text.clone());
                let want: Vec<String> = texts.iter().map(|t| fresh(t)).collect();
                let bar = Arc::new(Barrier::new(texts.len()));
                let hs: Vec<_> = texts.iter().map(|t| { let (t, b) = (t.clone(), bar.clone()); std::thread::spawn(move || { b.wait(); let mut v = vec![]; for _ in 0..4 { v.push(fingerprint(&parse(&t))); } v }) }).collect();
                let mut out = None;
                for ((h, t), w) in hs.into_iter().zip(&texts).zip(&want) {
                    parses += 4;
                    match h.join() { Ok(v) => for g in v { if &g != w && w != "panic" && out.is_none() { out = Some(bad("parsed at the same time as others", t, w, &g)); } }, Err(_) => if w != "panic" { out = Some(Verdict::Fail(format!("panic: parsing {t:?} at the same time as others"))) } }
                }
                out
            }
            _ => return Verdict::Skip,
        };
        if let Some(v) = v { return v; }
    }
    for (t, f, r) in &kept {
        let got = fingerprint(r);
        if got != *f { return bad("a kept tree read at the end", t, f, &got); }
    }
    Verdict::Ok(parses >= 3)
}
pub fn p14(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "histories of parse / parse on another thread / parse several at once / drop / read elsewhere over families of related texts (same length, same prefix, case variants, valid and invalid neighbours); oracle: the fingerprint of the result in a process that has parsed nothing else; non-trivial: at least three parses",
        vec![rel("history", 2, 0, history)]);
    c.assumptions.push("thread interleavings are those the operating system produced; the parser itself is synchronous and takes no locks".into());
    c
}
/// another word that looks like this one
fn near_word(r: &mut Rng, w: &str) -> String {
    let c: Vec<char> = w.chars().collect();
    let n = c.len();
    let s = |c: &[char]| c.iter().collect::<String>();
    let any = |r: &mut Rng| *r.pick(&['a', 's', 'e', '_', 'x', '1', 'é']);
    match r.below(8) {
        0 => format!("{w}{}", any(r)),
        1 if n > 1 => s(&c[..n - 1]),
        2 if n > 1 => { let k = r.range(1, n - 1); format!("{}{}", s(&c[..k]), any(r)) }
        3 if n > 1 => { let k = r.range(1, n - 1); let mut d = c.clone(); d[k] = any(r); s(&d) }
        4 if n > 2 => { let k = r.range(0, n - 2); let mut d = c.clone(); d.swap(k, k + 1); s(&d) }
        5 => format!("{w}_{w}"),
        6 if n > 1 => { let mut d = c.clone(); d[n - 1] = any(r); s(&d) }
        _ => { let k = r.range(1, n.max(1)); format!("{}{}{}", s(&c[..k.min(n)]), any(r), s(&c[k.min(n)..])) }
    }
}
/// the text with one of its words replaced by one that looks like it
fn near_text(r: &mut Rng, text: &str) -> Option<String> {
    let words: Vec<(usize, usize)> = crate::meta::scan(text).ok()?.iter().filter(|t| !refimpl::scan::is_comment(&t.kind) && text[t.start..t.end].starts_with(|c: char| c.is_ascii_alphabetic())).map(|t| (t.start, t.end)).collect();
    if words.is_empty() { return None; }
    let (a, b) = *r.pick(&words);
    Some(format!("{}{}{}", &text[..a], near_word(r, &text[a..b]), &text[b..]))
}
pub fn x14(c: &Check) {
    let seed = c.cfg.seed;
    // a pool of texts in families
    let mut r = Rng::new(seed, 0x9001);
    let mut pool: Vec<String> = vec![String::new(), " ".into(), "select 1".into(), "select 2".into(), "select a".into(), "SELECT A".into(), "select '".into(), "select é".into(), "$".into(), "create type t as (a json)".into(), "create type t as (format json)".into()];
    let n = c.cfg.n(1200, 8000) as usize;
    while pool.len() < n {
        let v = stmt(&mut r);
        let s = g().words.render_fancy(&mut r, &v);
        if s.len() > 3000 { continue; }
        let k = r.range(1, 2);
        pool.push(mutate(&mut r, &s, k));
        let mut w = v.clone();
        edit_terms(&mut r, &mut w);
        pool.push(g().words.render_plain(&w));
        pool.push(soup(&mut r, 6));
        if r.chance(1, 4) { let z = sized(&mut r); if z.len() < 3000 { pool.push(z); } }
        if let Some(p) = s.find('a') { let mut t = s.clone(); t.replace_range(p..p + 1, "b"); pool.push(t); }
        let cut = floor(&s, r.below(s.len() + 1));
        pool.push(s[..cut].to_string());
        pool.push(random_case(&mut r, &s));
        for _ in 0..2 { if let Some(t) = near_text(&mut r, &s) { pool.push(t); } }
        pool.push(s);
    }
    let pool = &pool;
    c.stage("baselines in fresh processes", pool.len() as u64, || (), |_, _, i| { fresh(&pool[i as usize]); });
    c.extra("texts", serde_json::json!(pool.len()));
    let ops: &[(&str, usize)] = &[("parse", 40), ("parse in place", 20), ("on thread", 8), ("drop", 10), ("drop all", 2), ("drop on thread", 3), ("read on thread", 5), ("together", 4)];
    let total: usize = ops.iter().map(|o| o.1).sum();
    let hist = |r: &mut Rng, len: usize| -> Vec<String> {
        let mut v = vec![];
        let base = r.below(pool.len());
        let width = *r.pick(&[2usize, 8, 30, pool.len()]);
        for _ in 0..len {
            let mut k = r.below(total);
            let op = ops.iter().find(|o| if k < o.1 { true } else { k -= o.1; false }).unwrap().0;
            let text = match op { "drop" | "read on thread" | "drop on thread" => "x".repeat(r.below(20)), "drop all" => String::new(), _ => pool[(base + r.below(width)) % pool.len()].clone() };
            v.push(op.to_string());
            v.push(text);
        }
        v
    };
    c.stage_chunk("short histories", c.cfg.n(6_000, 300_000), 4, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x14a, i); let l = r.range(3, 20); let h = hist(&mut r, l); w.eval("history", h); });
    c.stage_chunk("long histories", c.cfg.n(60, 3_000), 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x14b, i); let l = r.range(300, 1500); let h = hist(&mut r, l); w.eval("history", h); });
    // a keyword after words that look like it
    let kw: Vec<String> = spec().kw.iter().map(|k| k.word.clone()).collect();
    let kw = &kw;
    c.stage_chunk("keywords among words like them", c.cfg.n(kw.len() as u64, 20 * kw.len() as u64), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x14c, i);
        let k = &kw[i as usize % kw.len()];
        let form = |w: &str| format!("select {w}");
        let near: Vec<String> = (0..6).map(|_| form(&near_word(&mut r, k))).collect();
        let mut v = vec![];
        for t in near.iter().chain([&form(k)]).chain(near.iter().take(2)).chain([&form(&k.to_uppercase())]) { v.push("parse".to_string()); v.push(t.clone()); }
        w.eval("history", v);
    });
    // every text again and again in one process
    c.stage_chunk("repetition", c.cfg.n(pool.len() as u64, pool.len() as u64), 1, || (), |_, w, i| { let t = &pool[i as usize]; let mut v = vec![]; for _ in 0..12 { v.push("parse".to_string()); v.push(t.clone()); } w.eval("history", v); });
}
