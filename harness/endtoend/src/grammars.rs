//! P28: a generated parser implements its grammar.
//!
//! A case is a list of pieces [kind, text]: those of refimpl::gramgen (left, right, nonassoc, rule), then
//!   layout NUMBER   how the grammar file is written
//!   text TEXT       what is parsed
use crate::slots::*;
use fw::{Check, PerThread, Verdict};
use refimpl::gen::{mutate, unwritable, Paths, Rng, SentenceGen, Words, INF};
use refimpl::gramgen::{chains, fragment, reference, sample};
use refimpl::scan::{read_kwlist, Scanner};
use refimpl::spec::{raw_name, Ev, Outcome, Spec};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::Path;
use std::process::Command;
use std::time::Duration;

/// the grammar file
fn file(pieces: &[String]) -> Option<String> {
    let (mut d, mut rules, mut layout) = (String::new(), vec![], 0u64);
    for i in pieces.chunks(2) {
        let [k, t] = i else { return None };
        match k.as_str() {
            "left" | "right" | "nonassoc" => { if t.trim().is_empty() { return None; } d += &format!("%{k} {t}\n"); }
            "rule" => { let (l, r) = t.split_once(": ")?; if l.trim().is_empty() || l.contains(char::is_whitespace) { return None; } rules.push((l.to_string(), r.trim().to_string())); }
            "layout" => layout = t.parse().ok()?,
            _ => return None,
        }
    }
    if rules.is_empty() { return None; }
    let (grouped, actions, types) = (layout & 1 > 0, layout & 2 > 0, layout & 4 > 0);
    let mut s = String::new();
    if types {
        // as in PostgreSQL's file: a prologue, the types of the non-terminals, the tokens
        s += "%{\n/* prologue: %% is no separator here */\n#define A 1\n%}\n\n%expect 0\n";
        let names: Vec<&String> = { let mut v: Vec<&String> = rules.iter().map(|r| &r.0).collect(); v.dedup(); v };
        let mut seen = HashSet::new();
        for n in names { if seen.insert(n) { s += &format!("%type <node>\t{n}\n"); } }
    }
    s += &d;
    s += "%%\n\n";
    let mut k = 0;
    let mut done = HashSet::new();
    while k < rules.len() {
        let lhs = &rules[k].0;
        if grouped && done.contains(lhs) { k += 1; continue; }
        let mine: Vec<&str> = if grouped { rules.iter().filter(|r| r.0 == *lhs).map(|r| r.1.as_str()).collect() } else { vec![&rules[k].1] };
        done.insert(lhs.clone());
        for (n, r) in mine.iter().enumerate() {
            s += &if n == 0 { format!("{lhs}:{}", if grouped { "\n\t\t\t" } else { " " }) } else { "\t\t\t| ".to_string() };
            if r.is_empty() && actions { s += "/* EMPTY */"; }
            s += r;
            if actions { s += "\n\t\t\t\t{\n\t\t\t\t\t/* ';' and '|' */\n\t\t\t\t\t$$ = \"}\";\n\t\t\t\t}"; }
            s += "\n";
        }
        s += "\t\t;\n\n";
        k += 1;
    }
    s += "%%\n\nint main() { return 0; }\n";
    Some(s)
}
const KINDS: &[&str] = &["Root", "Whitespace", "C_COMMENT", "SQL_COMMENT", "Self", "self", "super", "crate"];
const RUST: &[&str] = &["as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "gen", "try", "do", "box", "abstract", "become", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield"];

/// None: not a case of the property
fn model(pieces: &[String]) -> Option<(String, Spec)> {
    let text = file(pieces)?;
    let (g, l) = reference(&text)?;
    if !l.sr.is_empty() || !l.rr.is_empty() || l.kernels.len() > 1500 { return None; }
    let y = refimpl::gen::Yields::new(&g, |_| 1, |_| 1);
    // useless symbols: bison would drop them
    if (g.nt..g.names.len()).any(|s| y.cost[s] >= INF) { return None; }
    // a parser that follows the precedences may then never stop: no statement about it
    if l.endless(&g) { return None; }
    let kwsrc = std::fs::read_to_string(root_dir().join("spec/kwlist.h")).expect("harness: spec/kwlist.h");
    let mut names: Vec<String> = g.names.iter().map(|n| raw_name(n)).collect();
    let base = names.len() as u32;
    for n in ["Whitespace", "C_COMMENT", "SQL_COMMENT", "Root"] { names.push(n.into()); }
    // the symbols are enum variants
    let mut seen = HashSet::new();
    for (i, n) in names.iter().enumerate() { if !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || !seen.insert(n.clone()) || i < base as usize && KINDS.contains(&n.as_str()) || RUST.contains(&n.as_str()) { return None; } }
    let by_name: HashMap<String, u32> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
    Some((text, Spec { kw: read_kwlist(&kwsrc), g, l, names, by_name, kwsrc, ws: base, c_comment: base + 1, sql_comment: base + 2, root: base + 3 }))
}
pub fn root_dir() -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string())) }

fn show(evs: &[Ev], spec: &Spec, text: &str) -> String {
    let mut s = String::from("tree");
    let mut open: Vec<(usize, usize, String)> = vec![];
    // the range of a node: from its first leaf to its last, or where it stands
    let mut at = 0;
    let mut ends: BTreeMap<usize, usize> = BTreeMap::new();
    let mut st = vec![];
    for (i, e) in evs.iter().enumerate() {
        match e { Ev::Open(_) => st.push(i), Ev::Leaf(_, _, b) => at = *b as usize, Ev::Close => { ends.insert(st.pop().unwrap(), at); } }
    }
    at = 0;
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Open(k) => { s += &format!("\n{} {} {} {}", open.len(), spec.name(*k), at, ends[&i]); open.push((i, at, String::new())); }
            Ev::Leaf(k, a, b) => { s += &format!("\n{} '{} {} {} {:?}", open.len(), spec.name(*k), a, b, &text[*a as usize..*b as usize]); at = *b as usize; }
            Ev::Close => { open.pop(); }
        }
    }
    s
}
fn expected(spec: &Spec, sc: &mut Scanner, text: &str, keep_empty: bool) -> (String, usize) {
    let a = spec.analyze(sc, text);
    match &a.outcome {
        Outcome::Scan(_) => ("error".into(), 0),
        Outcome::Syntax(_, x, y) => (format!("error {x} {y}"), 0),
        Outcome::Tree(evs) => {
            let real: Vec<_> = a.toks.iter().filter(|t| !refimpl::scan::is_comment(&t.kind)).cloned().collect();
            let kept;
            let evs = if keep_empty { kept = spec.events(text, &a.toks, &real, a.tree.as_ref().unwrap(), true); &kept } else { evs };
            (show(evs, spec, text), real.len())
        }
    }
}
/// the positions in a debug-printed error
fn numbers(s: &str, field: &str) -> Option<usize> { let k = s.find(field)? + field.len(); s[k..].trim_start_matches([':', ' ']).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() }

enum Built { Ready(Asked), Failed(String), NoAnswer }
pub struct Bench { slot: Option<Slot>, of: u64, built: Built, bin: u64, model: Option<(String, Spec, Scanner)> }
pub fn bench() -> PerThread<Bench> { PerThread::new(|| Bench { slot: None, of: 0, built: Built::NoAnswer, bin: 0, model: None }) }

fn make_parser(slot: &Slot, gram: &str, keep_empty: bool, n: u64) -> Result<Asked, Option<String>> {
    slot.put("crates/parser-generator/resources/gram.y", gram);
    match slot.cargo("parser-generator") { Some((true, _)) => {} Some((false, e)) => panic!("harness: the parser generator does not build: {}", first_error(&e)), None => return Err(None) }
    for f in ["parser.rs", "syntax_kind.rs"] { let p = slot.tree("crates/postgresql-cst-parser/src").join(f); if p.exists() { std::fs::write(p, "compile_error!{\"not written\"}").unwrap(); } }
    match slot.generator("parser-generator") { Some((true, _)) => {} Some((false, e)) => return Err(Some(format!("generator: the parser generator fails: {}", first_error(&e)))), None => return Err(None) }
    let w = slot.dir.join("worker");
    std::fs::create_dir_all(w.join("src")).unwrap();
    std::fs::write(w.join("src/main.rs"), include_str!("parser_worker.rs.in")).unwrap();
    std::fs::write(w.join("Cargo.toml"), format!("[package]\nname = \"parser-worker\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[features]\nempty-removed = [\"postgresql-cst-parser/remove-empty-node\"]\n\n[dependencies]\npostgresql-cst-parser = {{ path = \"{}\", default-features = false }}\n", slot.tree("crates/postgresql-cst-parser").display())).unwrap();
    if !w.join("Cargo.lock").exists() { let _ = std::fs::copy(root_dir().join("harness/variant/Cargo.lock"), w.join("Cargo.lock")); }
    let mut c = Command::new("cargo");
    c.current_dir(&w).args(["build", "--offline", "-q", "--target-dir"]).arg(slot.dir.join("t")).args(["--config", "profile.dev.debug=0", "--config", "profile.dev.incremental=false"]).env_remove("RUSTFLAGS").env("CARGO_BUILD_JOBS", "4");
    if !keep_empty { c.args(["--features", "empty-removed"]); }
    match run(&mut c, Duration::from_secs(400)) {
        Some((true, _)) => {
            let bin = slot.dir.join(format!("parser-{n}"));
            std::fs::copy(slot.dir.join("t/debug/parser-worker"), &bin).unwrap();
            let a = Asked::start(Path::new(&bin));
            let _ = std::fs::remove_file(&bin);
            Ok(a)
        }
        Some((false, e)) => Err(Some(format!("compile: the generated parser does not compile: {}", first_error(&e)))),
        None => Err(None),
    }
}
/// does the machinery work on the tree as it is?
pub fn baseline() -> Result<(), String> {
    let slot = Slot::acquire("gram");
    let mut a = fw::quietly(|| make_parser(&slot, "%%\n\nstmtblock:\n\t\t\tIDENT stmtblock\n\t\t| ';'\n\t\t;\n\n%%\n", true, 0).map_err(|e| e.unwrap_or("no answer in time".into())))??;
    a.ask("a ;").map_err(|e| format!("the parser {e}"))?;
    drop(a);
    slot.share("gram");
    Ok(())
}

pub fn parses(benches: &PerThread<Bench>, i: &[String]) -> Verdict {
    benches.with(|b| {
        let text_at = i.chunks(2).position(|c| c[0] == "text").unwrap_or(i.len() / 2) * 2;
        let (pieces, texts) = i.split_at(text_at.min(i.len()));
        let h = fw::hash(pieces) | 1;
        let keep = h & 2 == 0;
        if b.of != h {
            let Some((text, spec)) = model(pieces) else { return Verdict::Skip };
            b.built = Built::NoAnswer; // ends the process before
            let slot = b.slot.get_or_insert_with(|| Slot::acquire("gram"));
            b.bin += 1;
            b.built = match make_parser(slot, &text, keep, b.bin) { Ok(a) => Built::Ready(a), Err(Some(e)) => Built::Failed(e), Err(None) => Built::NoAnswer };
            let sc = spec.scanner();
            b.model = Some((text, spec, sc));
            b.of = h;
        }
        let (gram, spec, sc) = b.model.as_mut().unwrap();
        let (mut tokens, mut errors) = (0, 0);
        for c in texts.chunks(2) {
            if c.len() != 2 || c[0] != "text" || c[1].contains('\0') { return Verdict::Skip; }
            let (want, n) = expected(spec, sc, &c[1], keep);
            tokens += n;
            errors += (n == 0) as usize;
            let got = match &mut b.built {
                Built::Failed(e) => return Verdict::Fail(format!("{e}\n--- gram.y\n{gram}")),
                Built::NoAnswer => return Verdict::Skip,
                Built::Ready(a) => a.ask(&c[1]),
            };
            let got = match got { Ok(g) => g, Err(e) => { b.of = 0; return Verdict::Fail(format!("{e}: the generated parser {e} on {:?}, expected\n{want}\n--- gram.y\n{gram}", c[1])); } };
            let same = match want.strip_prefix("error") {
                Some("") => got.starts_with("error"),
                Some(p) => got.starts_with("error ParseError") && p.trim() == format!("{} {}", numbers(&got, "start_byte_pos").unwrap_or(usize::MAX), numbers(&got, "end_byte_pos").unwrap_or(usize::MAX)),
                None => got == want,
            };
            if !same { return Verdict::Fail(format!("tree: the text {:?} is parsed as\n{got}\nexpected\n{want}\n--- gram.y\n{gram}", c[1])); }
        }
        if let Built::Failed(e) = &b.built { return Verdict::Fail(format!("{e}\n--- gram.y\n{gram}")); }
        Verdict::Ok(tokens >= 3 || errors > 0 && spec.l.kernels.len() > 8 && !texts.is_empty() && texts[1].len() > 3)
    })
}

// ---------------------------------------------------------------- generator
/// the terminals that no text denotes become others
fn writable(r: &mut Rng, v: &mut [String], kw: &[refimpl::scan::Keyword]) {
    let classes = ["IDENT", "ICONST", "FCONST", "SCONST", "BCONST", "XCONST", "PARAM", "Op", "TYPECAST", "DOT_DOT", "COLON_EQUALS", "EQUALS_GREATER", "LESS_EQUALS", "GREATER_EQUALS", "NOT_EQUALS", "'('", "')'", "','", "'+'", "'-'", "'*'", "'/'", "'<'", "'>'", "'='", "'['", "']'", "'.'", "':'", "';'", "'%'", "'^'",
        "NOT_LA", "WITH_LA", "WITHOUT_LA", "NULLS_LA", "FORMAT_LA", "NOT", "WITH", "FORMAT", "NULLS_P", "WITHOUT", "IN_P", "TIME", "FIRST_P", "JSON", "ORDINALITY", "BETWEEN"];
    let known: HashSet<&str> = kw.iter().map(|k| k.token.as_str()).chain(classes).collect();
    let lhs: HashSet<String> = v.chunks(2).filter(|c| c[0] == "rule").map(|c| c[1].split(':').next().unwrap().trim().to_string()).collect();
    let used: HashSet<String> = v.iter().flat_map(|t| t.split_whitespace()).map(String::from).collect();
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut taken: HashSet<String> = used.clone();
    for c in v.chunks_mut(2) {
        let (head, tail) = if c[0] == "rule" { c[1].split_once(": ").map(|(a, b)| (format!("{a}: "), b.to_string())).unwrap_or_default() } else { (String::new(), c[1].clone()) };
        let mut out = head;
        let mut prec = false;
        for w in tail.split_whitespace() {
            let n = if w == "%prec" || lhs.contains(w) || known.contains(w) || (prec || c[0] != "rule") && !map.contains_key(w) && (w == "UMINUS" || w == "LOW") { w.to_string() } else {
                map.entry(w.to_string()).or_insert_with(|| {
                    for _ in 0..50 { let n = if r.chance(1, 2) { r.pick(&classes).to_string() } else { r.pick(kw).token.clone() }; if taken.insert(n.clone()) { return n; } }
                    w.to_string()
                }).clone()
            };
            prec = w == "%prec";
            out += &n;
            out.push(' ');
        }
        c[1] = out;
    }
}
/// other names for the non-terminals: in capitals, mixed, long, with digits, prefixes of each other, with the endings that tokens have
fn rename(r: &mut Rng, v: &mut [String]) {
    let is_rule = |v: &[String], i: usize| i % 2 == 0 && v[i] == "rule";
    let mut old: Vec<String> = vec![];
    for i in 0..v.len().saturating_sub(1) { if is_rule(v, i) { if let Some((n, _)) = v[i + 1].split_once(':') { let n = n.trim().to_string(); if !old.contains(&n) { old.push(n); } } } }
    let mut taken: HashSet<String> = v.iter().flat_map(|s| s.split_whitespace().map(|w| w.trim_end_matches(':').to_string())).collect();
    let mut to: HashMap<String, String> = HashMap::new();
    let mut last = String::from("ITEM");
    for n in &old {
        if r.chance(1, 4) { continue; }
        let mut x = match r.below(12) {
            0 => n.to_uppercase(), 1 => format!("{}_LIST", n.to_uppercase()), 2 => format!("{n}_P"), 3 => format!("{n}_LA"),
            4 => format!("{}{}", n, r.below(100)), 5 => format!("{last}{}", r.pick::<&str>(&["_x", "_", "2", "S", "_LIST"])), 6 => format!("_{n}"),
            7 => format!("{}{}", n[..1].to_uppercase(), &n[1..]), 8 => format!("{n}{}", "_long".repeat(r.range(6, 40))), 9 => format!("opt_{n}"),
            10 => r.pick::<&str>(&["Op", "ITEM", "Root", "EMPTY", "IDENT2", "ICONST_list", "sconst", "ident", "SelectStmt", "UMINUS_", "error_", "prec_", "type_", "token_", "left_"]).to_string(),
            _ => r.pick::<&str>(&["A", "Z", "a", "z", "AA", "Zz"]).to_string(),
        };
        while taken.contains(&x) { x.push(*r.pick(&['_', 'x', 'X', '1'])); }
        taken.insert(x.clone());
        last = x.clone();
        to.insert(n.clone(), x);
    }
    for i in 0..v.len().saturating_sub(1) {
        if !is_rule(v, i) { continue; }
        v[i + 1] = v[i + 1].split(' ').map(|w| match w.strip_suffix(':') { Some(n) if to.contains_key(n) => format!("{}:", to[n]), _ => to.get(w).cloned().unwrap_or_else(|| w.to_string()) }).collect::<Vec<_>>().join(" ");
    }
}
fn make(r: &mut Rng, i: u64, src: &refimpl::grammar::GrammarSrc, kw: &[refimpl::scan::Keyword]) -> Option<(Vec<String>, Spec)> {
    for _ in 0..400 {
        let k = r.next() % 8;
        let max = *r.pick(&[3usize, 6, 10, 20, 40]);
        let mut v = if i % 2 == 0 { fragment(src, r, max) } else if k == 6 { chains(r, max * 3) } else { sample(r, k) };
        // the levels of the whole grammar are many
        writable(r, &mut v, kw);
        if r.chance(1, 2) { rename(r, &mut v); }
        v.extend(["layout".into(), r.below(8).to_string()]);
        let Some((_, spec)) = model(&v) else { continue };
        // something can be written in it
        if refimpl::gen::Yields::new(&spec.g, |t| if unwritable(&spec.g, t) { INF } else { 1 }, |_| 0).cost[spec.g.start] >= INF { continue; }
        if i % 2 == 1 && spec.l.kernels.len() < 5 && !r.chance(1, 20) { continue; }
        return Some((v, spec));
    }
    None
}
pub fn explore(c: &Check) {
    let seed = c.cfg.seed;
    let texts = if c.cfg.thorough() { 3000 } else { 500 };
    let src = refimpl::grammar::read(&std::fs::read_to_string(c.cfg.dir.join("spec/gram.y")).expect("harness: spec/gram.y"));
    let kw = read_kwlist(&std::fs::read_to_string(c.cfg.dir.join("spec/kwlist.h")).expect("harness: spec/kwlist.h"));
    c.stage_chunk("generated grammars", c.cfg.n(120, 6_000), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x28a, i);
        let Some((v, spec)) = make(&mut r, i, &src, &kw) else { w.count("no grammar found", 1); return; };
        w.count("grammars", 1);
        w.count("states", spec.l.kernels.len() as u64);
        let words = Words::new(&spec);
        let sg = SentenceGen::new(&spec);
        let paths: Vec<Paths> = (0..3).map(|s| Paths::new(&spec.g, &spec.l, s)).collect();
        let terms: Vec<usize> = (1..spec.g.nt).filter(|t| !unwritable(&spec.g, *t) && !words.plain(*t).is_empty()).collect();
        let n = spec.l.kernels.len();
        for k in 0..texts {
            let t = match r.below(10) {
                // a state, a terminal there, and on to an end
                0..=3 => {
                    let p = r.pick(&paths);
                    let Some(mut w) = p.prefix(r.below(n)) else { continue };
                    if r.chance(2, 3) && !terms.is_empty() { w.push(*r.pick(&terms)); }
                    if let Some(st) = p.run(&w) { if r.chance(5, 6) { w.extend(p.complete(&st)); } }
                    if w.len() > 300 { continue; }
                    if r.chance(1, 2) { words.render_plain(&w) } else { words.render_fancy(&mut r, &w) }
                }
                4..=6 => { let b = *r.pick(&[1usize, 3, 8, 20, 60]); let w = sg.random(&mut r, spec.g.start, b); if w.len() > 400 { continue; } words.render_fancy(&mut r, &w) }
                7 | 8 => {
                    let b = *r.pick(&[3usize, 8, 20]);
                    let mut w = sg.random(&mut r, spec.g.start, b);
                    if w.len() > 400 { continue; }
                    if !terms.is_empty() { for _ in 0..r.range(1, 2) { let k = r.below(w.len() + 1); match r.below(3) { 0 if k < w.len() => { w.remove(k); } 1 if k < w.len() => w[k] = *r.pick(&terms), _ => w.insert(k, *r.pick(&terms)) } } }
                    words.render_fancy(&mut r, &w)
                }
                _ => { let w = sg.random(&mut r, spec.g.start, 10); let t = words.render_fancy(&mut r, &w); let k = r.range(1, 3); mutate(&mut r, &t, k) }
            };
            if t.contains('\0') || t.len() > 20_000 { continue; }
            let mut case = v.clone();
            case.extend(["text".into(), t]);
            if k == 0 { case.extend(["text".into(), words.render_plain(&sg.random(&mut r, spec.g.start, 5))]); }
            if !w.eval("parses", case) { return; }
        }
    });
}
