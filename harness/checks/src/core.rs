//! Checks of single-text properties against the reference.
use crate::gens::*;
use crate::sut::*;
use fw::{rel, Cfg, Check, Verdict};
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, ResolvedNode};
use refimpl::gen::*;
use refimpl::scan::{is_comment, Tok};
use refimpl::spec::{skeleton, Ev, Outcome};

pub fn stage_sql(c: &Check, name: &str, relname: &'static str, n: u64, f: impl Fn(&mut Rng) -> String + Sync) {
    let (seed, salt) = (c.cfg.seed, fw::hash(&[name.to_string()]));
    c.stage(name, n, || (), |_, w, i| { let mut r = Rng::new(seed ^ salt, i); let t = f(&mut r); w.eval(relname, vec![t]); });
}
pub fn corpus_stage(c: &Check, relname: &'static str) {
    c.stage("corpus", g().corpus.len() as u64, || (), |_, w, i| { w.eval(relname, vec![g().corpus[i as usize].clone()]); });
}

// ---------------------------------------------------------------- P01
fn lossless(text: &str) -> Verdict {
    let Ok(root) = parse(text) else { return Verdict::Skip };
    fn u(x: cstree::text::TextSize) -> usize { x.into() }
    fn rec(n: &ResolvedNode, text: &str, pos: &mut usize, all: &mut String, leaves: &mut usize) -> Result<(), String> {
        let r = n.text_range();
        if u(r.start()) != *pos { return Err(format!("node: {:?} starts at {} where {} was expected", n.kind(), u(r.start()), *pos)); }
        for c in n.children_with_tokens() {
            match c {
                NodeOrToken::Node(k) => rec(k, text, pos, all, leaves)?,
                NodeOrToken::Token(t) => {
                    let r = t.text_range();
                    *leaves += 1;
                    if u(r.start()) != *pos { return Err(format!("leaf: {:?} starts at {} where {} was expected", t.kind(), u(r.start()), *pos)); }
                    if t.text().is_empty() { return Err(format!("leaf: empty leaf {:?} at {}", t.kind(), *pos)); }
                    if u(r.end()) - u(r.start()) != t.text().len() { return Err(format!("leaf: {:?} at {} has a range of the wrong length", t.kind(), *pos)); }
                    *pos = u(r.end());
                    all.push_str(t.text());
                }
            }
        }
        if u(r.end()) != *pos { return Err(format!("node: {:?} ends at {} where {} was expected", n.kind(), u(r.end()), *pos)); }
        if text.get(u(r.start())..u(r.end())) != Some(n.text().to_string().as_str()) { return Err(format!("node text: {:?} differs from the input at its range", n.kind())); }
        Ok(())
    }
    let (mut pos, mut all, mut leaves) = (0, String::new(), 0);
    if let Err(e) = rec(&root, text, &mut pos, &mut all, &mut leaves) {
        return Verdict::Fail(format!("{e}\ninput {text:?}\n{}", show(&events(&root), text)));
    }
    if all != text { return Verdict::Fail(format!("text: leaves give {all:?}\ninput {text:?}")); }
    Verdict::Ok(leaves >= 4)
}
pub fn p01(cfg: Cfg) -> Check {
    Check::new(cfg, "accepted texts: grammar sentences with random literal forms and trivia, token-tight renderings, statement lists, corpus statements and their token mutants, scanner fragments between accepted statements; non-trivial: accepted with at least four leaves",
        vec![rel("lossless", 0, 0, |i| lossless(&i[0]))])
}
/// accepted statements with odd trivia between and around them
pub fn wrapped(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        for _ in 0..r.below(5) { if r.chance(1, 2) { s += r.pick(SPACES) } else { s += r.pick(COMMENTS) } }
        if r.chance(3, 4) { s += r.pick::<&str>(&["select 1", "select 'é'", "select /* x */ a -- b\n from t", "values (1,2)", "insert into t select", "begin", "select a\n\n,b", "delete from t where a = $$x$$", "with x as (select 1) table x", "select not a", "select 1+\t2", "table t"]); }
        for _ in 0..r.below(4) { if r.chance(1, 2) { s += r.pick(SPACES) } else { s += r.pick(COMMENTS) } }
        s += ";";
    }
    if r.chance(1, 2) { s.pop(); }
    s
}
pub fn x01(c: &Check) {
    corpus_stage(c, "lossless");
    stage_sql(c, "sentences", "lossless", c.cfg.n(150_000, 6_000_000), valid_sql);
    stage_sql(c, "trivia around statements", "lossless", c.cfg.n(60_000, 2_000_000), wrapped);
    stage_sql(c, "mutants", "lossless", c.cfg.n(60_000, 2_000_000), sql);
    cells(c, "automaton cells", 0, 0, |w, t| w.eval("lossless", vec![t]));
    if c.cfg.thorough() { for s in 1..6 { cells(c, "automaton cells, varied", s, 0, |w, t| w.eval("lossless", vec![t])); } }
    crate::guide::corpus_stage(c, "lossless");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("lossless", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("lossless", vec![t]));
}

// ---------------------------------------------------------------- P03
const WS: &[char] = &[' ', '\t', '\n', '\r', '\u{b}', '\u{c}'];
fn base_kind(k: &str) -> &str { match k { "NOT_LA" => "NOT", "NULLS_LA" => "NULLS_P", "WITH_LA" => "WITH", "WITHOUT_LA" => "WITHOUT", "FORMAT_LA" => "FORMAT", k => k } }
/// the kind of a text that is one token (or one U& literal with its UESCAPE clause)
fn alone(text: &str) -> Option<String> {
    let toks = with_scanner(|s| s.scan(text)).ok()?;
    let f = refimpl::scan::filter(&toks).ok()?;
    match &f[..] { [t] if t.start == 0 && t.end == text.len() => Some(t.kind.clone()), _ => None }
}
fn leaves_are_tokens(text: &str) -> Verdict {
    let got = run(text);
    let Got::Tree(evs) = got else { return Verdict::Skip };
    let sp = spec();
    let bad = |m: String| Verdict::Fail(format!("{m}\ninput {text:?}\n{}", show(&evs, text)));
    let mut prev_ws = false;
    let mut n = 0;
    for e in &evs {
        let Ev::Leaf(k, a, b) = e else { continue };
        let Some(s) = text.get(*a as usize..*b as usize) else { return bad(format!("range: leaf {a}..{b} is not a slice of the input")) };
        if *k == sp.ws {
            if prev_ws { return bad(format!("adjacent whitespace: two whitespace leaves meet at {a}")); }
            if s.is_empty() || !s.chars().all(|c| WS.contains(&c)) { return bad(format!("whitespace: leaf {s:?} at {a} is not whitespace")); }
            prev_ws = true;
            continue;
        }
        prev_ws = false;
        n += 1;
        let want = kind_name(*k);
        let is = alone(s);
        if *k == sp.c_comment || *k == sp.sql_comment {
            if is.as_deref() != Some(&want) { return bad(format!("comment: leaf {s:?} at {a} labelled {want} is {is:?}")); }
            continue;
        }
        // N before a quote is the keyword NCHAR
        if want == "NCHAR" && s.eq_ignore_ascii_case("n") && text[*b as usize..].starts_with('\'') { continue; }
        let is = is.map(|k| refimpl::spec::raw_name(&k));
        if is.as_deref() != Some(base_kind(&want)) { return bad(format!("token: leaf {s:?} at {a} labelled {want} is {is:?} when scanned")); }
    }
    Verdict::Ok(n >= 3)
}
pub fn p03(cfg: Cfg) -> Check {
    Check::new(cfg, "accepted texts from the grammar, corpus and mutants with every literal form and dense trivia; every leaf is rescanned alone by the reference scanner; non-trivial: at least three non-whitespace leaves",
        vec![rel("leaves_are_tokens", 0, 0, |i| leaves_are_tokens(&i[0]))])
}
pub fn x03(c: &Check) {
    corpus_stage(c, "leaves_are_tokens");
    stage_sql(c, "sentences", "leaves_are_tokens", c.cfg.n(120_000, 5_000_000), valid_sql);
    stage_sql(c, "trivia around statements", "leaves_are_tokens", c.cfg.n(60_000, 2_000_000), wrapped);
    stage_sql(c, "literal neighbourhoods", "leaves_are_tokens", c.cfg.n(250_000, 8_000_000), literal_soup);
    cells(c, "automaton cells", 0, 0, |w, t| w.eval("leaves_are_tokens", vec![t]));
    crate::guide::corpus_stage(c, "leaves_are_tokens");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("leaves_are_tokens", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("leaves_are_tokens", vec![t]));
}
/// short selects made of tokens and scanner fragments, often accepted
pub fn literal_soup(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick::<&str>(&["select ", "select", "values(", "select a,"]));
    for i in 0..r.range(1, 5) {
        if i > 0 { s += *r.pick::<&str>(&[",", "+", " ", "||", "::a", ".b", " as x", "\n", "--\n", "/**/", "-", "@-", "=", "<="]); }
        let k = r.below(8);
        if r.chance(1, 40) { let n = dict().size(r, 1200); s += &long_word(r, ["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM", "Op"][k], n); }
        else if k == 1 && r.chance(1, 3) { let w = r.chance(1, 6); s += &escape_const(r, w); }
        else { s += *r.pick::<&str>([IDENTS, SCONSTS, ICONSTS, FCONSTS, BCONSTS, XCONSTS, PARAMS, OPS][k]); }
        if r.chance(1, 8) { s += &soup(r, 1); }
    }
    if s.starts_with("values(") { s.push(')'); }
    s
}

// ---------------------------------------------------------------- P04
#[cfg(feature = "hooks")]
pub fn sut_scan(text: &str) -> Option<Result<Vec<Tok>, Got>> {
    Some(match postgresql_cst_parser::verif::scan(text) {
        Ok(v) => Ok(v.into_iter().map(|(kind, start, end)| Tok { kind, start, end }).collect()),
        Err(e) => Err(map_err(&e)),
    })
}
#[cfg(not(feature = "hooks"))]
pub fn sut_scan(_: &str) -> Option<Result<Vec<Tok>, Got>> { None }

pub fn scan_agrees(text: &str) -> Verdict {
    let want = with_scanner(|s| s.scan(text));
    match sut_scan(text) {
        Some(got) => match (&want, got) {
            (Ok(w), Ok(g)) => {
                if *w == g { return Verdict::Ok(w.len() >= 2) }
                let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
                Verdict::Fail(format!("token: {i} differs\n expected {:?}\n      got {:?}\ninput {text:?}", w.get(i), g.get(i)))
            }
            (Err(w), Err(Got::Scan(g))) if *w == g => Verdict::Ok(true),
            (w, g) => Verdict::Fail(format!("outcome: expected {w:?}\n got {g:?}\ninput {text:?}")),
        },
        None => scan_by_tree(text),
    }
}
/// The same through the public interface: scan errors, and the leaves of accepted texts
pub fn scan_by_tree(text: &str) -> Verdict {
    let want = with_scanner(|s| s.scan(text));
    match (&want, run(text)) {
        (Err(w), Got::Scan(g)) if *w == g => Verdict::Ok(true),
        (Err(w), g) => Verdict::Fail(format!("outcome: expected {w:?} got {}\ninput {text:?}", g.brief())),
        (Ok(w), Got::Scan(e)) => if refimpl::scan::filter(w).is_err() { Verdict::Ok(false) } else { Verdict::Fail(format!("outcome: unexpected scan error {e:?}\ninput {text:?}")) },
        (Ok(w), Got::Tree(evs)) => {
            let Ok(f) = refimpl::scan::filter(w) else { return Verdict::Fail(format!("outcome: accepted, but the UESCAPE clause is malformed\ninput {text:?}")) };
            let sp = spec();
            let got: Vec<Tok> = evs.iter().filter_map(|e| match e { Ev::Leaf(k, a, b) if *k != sp.ws => Some(Tok { kind: kind_name(*k), start: *a as usize, end: *b as usize }), _ => None }).collect();
            let want: Vec<Tok> = f.iter().map(|t| Tok { kind: refimpl::spec::raw_name(&t.kind), ..t.clone() }).collect();
            if got == want { return Verdict::Ok(want.len() >= 2) }
            let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            Verdict::Fail(format!("token: leaf {i} differs\n expected {:?}\n      got {:?}\ninput {text:?}", want.get(i), got.get(i)))
        }
        (Ok(w), Got::Syntax(a, b)) => {
            // the reported token must be a token
            let ok = (a == text.len() && b == a) || refimpl::scan::filter(w).map_or(false, |f| f.iter().any(|t| t.start == a && t.end == b));
            if ok { Verdict::Ok(w.len() >= 2) } else { Verdict::Fail(format!("token: the error range {a}..{b} is no token\ninput {text:?}")) }
        }
    }
}
pub fn p04(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "all strings up to a length bound over alphabets that provoke the scanner, random fragment soups, mutants of sentences and corpus; expected tokens and errors from the reference scanner; non-trivial: at least two tokens, or a scan error",
        vec![rel("scan", 0, 0, |i| scan_agrees(&i[0])), rel("scan_by_tree", 0, 0, |i| scan_by_tree(&i[0]))]);
    c.assumptions.push("comments are tokens and never part of a string continuation; encoding validity of escapes and the contents of U& literals are outside the scanner".into());
    c
}
/// all strings of exactly `len` over an alphabet
fn enumerate(c: &Check, name: &str, prefix: &str, alphabet: &[&str], len: u32, suffix: &str) {
    let k = alphabet.len() as u64;
    c.stage(name, k.pow(len), || (), |_, w, mut i| {
        let mut s = prefix.to_string();
        for _ in 0..len { s += alphabet[(i % k) as usize]; i /= k; }
        s += suffix;
        w.eval("scan", vec![s]);
    });
}
pub fn x04(c: &Check) {
    const A: &[&str] = &["'", "\"", "$", "\\", "-", "/", "*", "+", ".", ":", "=", "<", ">", "!", "@", "|", "?", "0", "1", "8", "x", "b", "o", "e", "u", "U", "&", "n", "_", " ", "\n", "\r", "\t", "é", "(", ";", ",", "{", "a", "\u{b}", "%", "^", "#", "`", "~", "\u{1}"];
    const OPC: &[&str] = &["+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?"];
    const NUM: &[&str] = &["0", "1", "7", "9", "_", ".", "e", "E", "x", "o", "b", "+", "-", "a", "$", " "];
    const STR: &[&str] = &["'", " ", "\n", "-", "a", "\\", "é", "/*"];
    const ESC: &[&str] = &["\\", "'", "u", "U", "x", "0", "1", "4", "D", "8", "C", "\n", "é"];
    const DOL: &[&str] = &["$", "a", "b", "1", "é", "_", "'", " "];
    const COM: &[&str] = &["/", "*", "-", "\n", "+", "a", "'", "\r"];
    const UNI: &[&str] = &["U", "u", "&", "'", "\"", "e", "E", "x", "B", "n", "a", " "];
    let t = c.cfg.thorough();
    enumerate(c, "all strings of length 3, broad alphabet", "", A, 3, "");
    if t { enumerate(c, "all strings of length 4, broad alphabet", "", A, 4, ""); }
    enumerate(c, "operators", "", OPC, if t { 5 } else { 4 }, "");
    enumerate(c, "numbers", "", NUM, if t { 6 } else { 4 }, "");
    enumerate(c, "numbers after a digit", "1", NUM, if t { 5 } else { 4 }, " z");
    enumerate(c, "strings", "'", STR, if t { 8 } else { 5 }, "");
    enumerate(c, "bit strings", "b'", STR, if t { 6 } else { 4 }, "");
    enumerate(c, "escape strings", "E'", ESC, if t { 6 } else { 4 }, "'");
    enumerate(c, "surrogates", "e'\\uD83D", ESC, if t { 5 } else { 4 }, "");
    enumerate(c, "dollar quotes", "$", DOL, if t { 7 } else { 5 }, "$a$");
    enumerate(c, "comments", "/*", COM, if t { 7 } else { 5 }, "*/ x");
    enumerate(c, "prefixes", "", UNI, if t { 6 } else { 4 }, "");
    stage_sql(c, "soup", "scan", c.cfg.n(300_000, 20_000_000), |r| { let m = *r.pick(&[3usize, 6, 12, 40]); soup(r, m) });
    stage_sql(c, "mutants", "scan", c.cfg.n(100_000, 6_000_000), |r| { let s = sql(r); let k = r.below(4); mutate(r, &s, k) });
    stage_sql(c, "integers near the limits", "scan", c.cfg.n(40_000, 1_000_000), |r| {
        let v = match r.below(4) { 0 => 2147483647u64, 1 => 2147483648, 2 => r.next() >> r.below(64), _ => (1u64 << r.below(40)).wrapping_sub(r.below(2) as u64) };
        let mut d = match r.below(4) { 0 => format!("{v}"), 1 => format!("{v:x}"), 2 => format!("{v:o}"), _ => format!("{v:b}") };
        for _ in 0..r.below(3) { let at = r.below(d.len() + 1); d.insert(at, '_'); }
        if r.chance(1, 4) { d = format!("000{d}"); }
        format!("{}{}{}", r.pick::<&str>(&["", "0x", "0X", "0o", "0O", "0b", "0B", "$", "-"]), d, r.pick::<&str>(&["", " ", "..1", ".5", "e1", "x", ";"]))
    });
    stage_sql(c, "escapes", "scan", c.cfg.n(60_000, 3_000_000), |r| { let mut s = escape_const(r, true); if r.chance(1, 2) { s += &soup(r, 2); } s });
    crate::guide::corpus_stage(c, "scan");
    sizes(c, "sizes", if c.cfg.thorough() { 5000 } else { 1300 }, |w, t| w.eval("scan", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("scan", vec![t]));
    stage_sql(c, "long words", "scan", c.cfg.n(30_000, 1_000_000), |r| { let mut s = String::new(); for _ in 0..r.range(1, 3) { let k = *r.pick(&["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM", "Op"]); let n = dict().size(r, 700); s += &long_word(r, k, n); if r.chance(1, 2) { s += &soup(r, 1); } if r.chance(1, 3) { let n = dict().size(r, 300); s += &long_trivia(r, n); } } s });
    stage_sql(c, "words", "scan", c.cfg.n(60_000, 2_000_000), word);
    stage_sql(c, "public interface", "scan_by_tree", c.cfg.n(80_000, 4_000_000), |r| if r.chance(1, 2) { literal_soup(r) } else { let s = sql(r); mutate(r, &s, 1) });
    let mut hits = vec![];
    with_scanner(|s| hits = s.hits.clone());
    c.extra("hooks", serde_json::json!(cfg!(feature = "hooks")));
}
pub fn word(r: &mut Rng) -> String {
    let kw = &spec().kw;
    let mut w = if r.chance(3, 4) { r.pick(kw).word.clone() } else { (0..r.range(1, 9)).map(|_| *r.pick(&['a', 'e', 'n', 'o', 's', 't', 'x', '_', '1', '$', 'é', 'ſ', 'K'])).collect() };
    match r.below(6) {
        0 => {}
        1 => w = random_case(r, &w),
        2 => { let mut ch: Vec<char> = w.chars().collect(); if ch.len() > 1 { let i = r.below(ch.len()); ch.remove(i); } w = ch.into_iter().collect(); }
        3 => { let mut ch: Vec<char> = w.chars().collect(); let i = r.below(ch.len() + 1); ch.insert(i, *r.pick(&['s', 'e', '_', '0', '$', 'é', 'A'])); w = ch.into_iter().collect(); }
        4 => { let k = &r.pick(kw).word; w = format!("{w}{k}"); }
        _ => w = w.replace('k', "\u{212a}").replace('s', "ſ"),
    }
    if r.chance(1, 2) { w } else { format!("{w}{}{}", r.pick::<&str>(&[" ", "'", "\"", ".", "(", "-", "$", "&'", "/**/"]), r.pick(kw).word) }
}

// ---------------------------------------------------------------- P05
pub struct NodeV { pub sym: u32, pub kids: Vec<Kid> }
pub enum Kid { N(NodeV), L(u32, usize, usize) }
pub fn build_tree(evs: &[Ev]) -> Option<NodeV> {
    let mut st: Vec<NodeV> = vec![];
    for e in evs {
        match e {
            Ev::Open(k) => st.push(NodeV { sym: *k, kids: vec![] }),
            Ev::Leaf(k, a, b) => st.last_mut()?.kids.push(Kid::L(*k, *a as usize, *b as usize)),
            Ev::Close => { let n = st.pop()?; match st.last_mut() { Some(p) => p.kids.push(Kid::N(n)), None => return Some(n) } }
        }
    }
    None
}
fn nullable() -> &'static Vec<bool> {
    static S: std::sync::OnceLock<Vec<bool>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let g = &spec().g;
        let mut n = vec![false; g.names.len()];
        loop {
            let mut ch = false;
            for r in &g.rules { if !n[r.lhs] && r.rhs.iter().all(|&s| n[s]) { n[r.lhs] = true; ch = true; } }
            if !ch { break; }
        }
        n
    })
}
/// children spell rhs with some nullable symbols left out
fn matches_rhs(kids: &[u32], rhs: &[usize]) -> bool {
    match (kids.split_first(), rhs.split_first()) {
        (None, None) => true,
        (Some((k, kr)), Some((s, sr))) => (*k as usize == *s && matches_rhs(kr, sr)) || (nullable()[*s] && matches_rhs(kids, sr)),
        (None, Some((s, sr))) => nullable()[*s] && matches_rhs(kids, sr),
        (Some(_), None) => false,
    }
}
fn derivation(text: &str) -> Verdict {
    let Got::Tree(evs) = run(text) else { return Verdict::Skip };
    let sp = spec();
    let bad = |m: String| Verdict::Fail(format!("{m}\ninput {text:?}\n{}", show(&evs, text)));
    let Some(root) = build_tree(&evs) else { return bad("shape: not a tree".into()) };
    let toks = match with_scanner(|s| s.scan(text)).and_then(|t| refimpl::scan::filter(&t)) { Ok(t) => t, Err(e) => return bad(format!("leaf: accepted but the text does not scan ({e:?})")) };
    let real: Vec<&Tok> = toks.iter().filter(|t| !is_comment(&t.kind)).collect();
    if root.sym != sp.root { return bad("root: the outermost node is not Root".into()); }
    fn rec(n: &NodeV, root: bool, real: &[&Tok], at: &mut usize, count: &mut usize) -> Result<(), String> {
        let sp = spec();
        let mut syms = vec![];
        for k in &n.kids {
            match k {
                Kid::L(k, a, b) => {
                    if *k == sp.ws || *k == sp.c_comment || *k == sp.sql_comment { continue; }
                    let Some(t) = real.get(*at) else { return Err(format!("leaf: {} at {a} is beyond the last token", kind_name(*k))) };
                    if t.start != *a || t.end != *b || refimpl::spec::raw_name(&t.kind) != kind_name(*k) { return Err(format!("leaf: {}@{a}..{b} where the text has {}@{}..{}", kind_name(*k), t.kind, t.start, t.end)); }
                    *at += 1;
                    syms.push(*k);
                }
                Kid::N(c) => { syms.push(c.sym); rec(c, false, real, at, count)?; }
            }
        }
        if root {
            let want = sp.g.start as u32;
            if !(syms.is_empty() && real.is_empty() || syms == [want]) { return Err(format!("root: the root holds {:?}", syms.iter().map(|s| kind_name(*s)).collect::<Vec<_>>())); }
            return Ok(());
        }
        *count += 1;
        let s = n.sym as usize;
        if s < sp.g.nt || s >= sp.g.names.len() { return Err(format!("label: inner node labelled {}", kind_name(n.sym))); }
        if !sp.g.rules_of[s].iter().any(|&r| matches_rhs(&syms, &sp.g.rules[r].rhs)) {
            return Err(format!("production: {} -> {} is no production", kind_name(n.sym), syms.iter().map(|s| kind_name(*s)).collect::<Vec<_>>().join(" ")));
        }
        Ok(())
    }
    let (mut at, mut count) = (0, 0);
    if let Err(e) = rec(&root, true, &real, &mut at, &mut count) { return bad(e); }
    if at != real.len() { return bad(format!("leaf: the tree has {at} tokens, the text {}", real.len())); }
    Verdict::Ok(count >= 6)
}
pub fn p05(cfg: Cfg) -> Check {
    Check::new(cfg, "accepted texts from grammar sentences, one text per (state, lookahead) cell of the LALR automaton, corpus and mutants; every node is matched against the productions of the grammar file; non-trivial: at least six inner nodes",
        vec![rel("derivation", 0, 0, |i| derivation(&i[0]))])
}
pub fn x05(c: &Check) {
    corpus_stage(c, "derivation");
    cells(c, "automaton cells", 0, 0, |w, t| w.eval("derivation", vec![t]));
    stage_sql(c, "sentences", "derivation", c.cfg.n(120_000, 6_000_000), valid_sql);
    stage_sql(c, "mutants", "derivation", c.cfg.n(60_000, 3_000_000), sql);
    stage_sql(c, "literal neighbourhoods", "derivation", c.cfg.n(100_000, 3_000_000), literal_soup);
    if c.cfg.thorough() { for s in 1..8 { cells(c, "automaton cells, varied", s, 0, |w, t| w.eval("derivation", vec![t])); } }
    crate::guide::corpus_stage(c, "derivation");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("derivation", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("derivation", vec![t]));
}

// ---------------------------------------------------------------- P06
pub fn same_language(text: &str) -> Verdict {
    let a = analyze(text);
    let want = match &a.outcome { Outcome::Scan(_) => return Verdict::Skip, o => o };
    let got = run(text);
    match (want, &got) {
        (Outcome::Tree(w), Got::Tree(g)) => {
            let (w, g) = (skeleton(w, spec()), skeleton(g, spec()));
            if w == g { Verdict::Ok(a.toks.len() >= 3) } else { Verdict::Fail(format!("tree: {}\ninput {text:?}", diff(&w, &g, text))) }
        }
        (Outcome::Tree(_), g) => Verdict::Fail(format!("rejected: the grammar accepts this text, the parser says {}\ninput {text:?}", g.brief())),
        (Outcome::Syntax(i, s, e), Got::Tree(_)) => Verdict::Fail(format!("accepted: the grammar rejects this text at token {i} ({s}..{e})\ninput {text:?}")),
        (_, Got::Scan(e)) => Verdict::Fail(format!("rejected: the text scans, the parser says {e:?}\ninput {text:?}")),
        _ => Verdict::Ok(a.toks.len() >= 3),
    }
}
pub fn p06(cfg: Cfg) -> Check {
    Check::new(cfg, "one text per (state, lookahead) cell of the reference LALR(1) automaton (shortest prefix reaching the state, the lookahead, cheapest completion), random derivations, edited derivations, corpus and mutants; oracle: an independent LALR(1) parser built from the frozen PostgreSQL 17 grammar file; non-trivial: at least three tokens",
        vec![rel("language", 0, 0, |i| same_language(&i[0]))])
}
pub fn x06(c: &Check) {
    corpus_stage(c, "language");
    cells(c, "automaton cells", 0, 60, |w, t| w.eval("language", vec![t]));
    cells(c, "automaton cells, varied", c.cfg.seed.max(1), 0, |w, t| w.eval("language", vec![t]));
    stage_sql(c, "sentences and neighbours", "language", c.cfg.n(250_000, 10_000_000), sql);
    stage_sql(c, "valid sentences", "language", c.cfg.n(100_000, 5_000_000), valid_sql);
    if c.cfg.thorough() {
        cells(c, "all automaton cells", 0, 1000, |w, t| w.eval("language", vec![t]));
        for s in 1..30 { cells(c, "automaton cells, varied", c.cfg.seed + 1000 + s, 30, |w, t| w.eval("language", vec![t])); }
    }
    coverage(c);
    crate::guide::corpus_stage(c, "language");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("language", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("language", vec![t]));
}
/// which cells of the automaton a run of the main stage takes the reference through
fn coverage(c: &Check) {
    c.extra("automaton_states", serde_json::json!(spec().l.kernels.len()));
}

// ---------------------------------------------------------------- P07
fn error_place(text: &str) -> Verdict {
    let a = analyze(text);
    let (i, s, e) = match &a.outcome { Outcome::Syntax(i, s, e) => (*i, *s, *e), _ => return Verdict::Skip };
    match run(text) {
        Got::Syntax(gs, ge) => {
            if gs > ge || !text.is_char_boundary(gs) || !text.is_char_boundary(ge) { return Verdict::Fail(format!("boundary: the reported range {gs}..{ge} is not a slice of the input\ninput {text:?}")); }
            if (gs, ge) != (s, e) { return Verdict::Fail(format!("place: expected token {i} at {s}..{e} ({:?}), reported {gs}..{ge} ({:?})\ninput {text:?}", &text[s..e], &text[gs..ge])); }
            // a position in the message is that of the range
            if let Err(ParserError::ParseError { message, .. }) = &parse(text) {
                if let Some((_, n)) = message.split_once("byte position ") {
                    let n: String = n.chars().take_while(|c| c.is_ascii_digit()).collect();
                    if n != s.to_string() { return Verdict::Fail(format!("message: the error at {s}..{e} says {message:?}\ninput {text:?}")); }
                }
            }
            Verdict::Ok(i >= 1)
        }
        g => Verdict::Fail(format!("outcome: expected a syntax error at {s}..{e}, got {}\ninput {text:?}", g.brief())),
    }
}
pub fn p07(cfg: Cfg) -> Check {
    Check::new(cfg, "texts that scan but do not parse: (state, lookahead) error cells of the LALR automaton, truncated and edited sentences, corpus mutants, multi-byte tokens and comments around the error; oracle: the reference LALR(1) parser (valid-prefix property); non-trivial: the error is not on the first token",
        vec![rel("error_place", 0, 0, |i| error_place(&i[0]))])
}
pub fn x07(c: &Check) {
    cells(c, "automaton cells", 0, 150, |w, t| w.eval("error_place", vec![t]));
    stage_sql(c, "edited sentences", "error_place", c.cfg.n(200_000, 8_000_000), |r| { let mut v = stmt(r); edit_terms(r, &mut v); if r.chance(1, 3) { dense_trivia(r, &v) } else { g().words.render_fancy(r, &v) } });
    stage_sql(c, "truncated sentences", "error_place", c.cfg.n(100_000, 4_000_000), |r| {
        let mut v = stmt(r);
        let k = r.below(v.len() + 1);
        v.truncate(k);
        let mut s = g().words.render_fancy(r, &v);
        if r.chance(1, 2) { s += &trivia(r); }
        s
    });
    stage_sql(c, "corpus mutants", "error_place", c.cfg.n(60_000, 3_000_000), |r| { let t = r.pick(&g().corpus).clone(); retoken(r, &t) });
    stage_sql(c, "fragments after a sentence", "error_place", c.cfg.n(60_000, 3_000_000), |r| { let v = stmt(r); let s = g().words.render_fancy(r, &v); let sep = if r.chance(1, 2) { " " } else { ";" }; format!("{s}{sep}{}", soup(r, 3)) });
    if c.cfg.thorough() { cells(c, "all automaton cells", c.cfg.seed, 1000, |w, t| w.eval("error_place", vec![t])); }
    crate::guide::corpus_stage(c, "error_place");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("error_place", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("error_place", vec![t]));
    sizes(c, "sizes, then an error", if c.cfg.thorough() { 4200 } else { 400 }, |w, t| { let k = fw::hash(&[t.clone()]) as usize; w.eval("error_place", vec![format!("{t}{}", ["\n) é", " from from", "\n1 1 1", ";)", "/**/ select select", " }"][k % 6])]) });
}

// ---------------------------------------------------------------- P24
fn trivia_placement(text: &str) -> Verdict {
    let a = analyze(text);
    let Outcome::Tree(w) = &a.outcome else { return Verdict::Skip };
    match run(text) {
        Got::Tree(g) => if *w == g { Verdict::Ok(w.iter().filter(|e| matches!(e, Ev::Leaf(k, _, _) if *k >= spec().ws)).count() >= 2) } else { Verdict::Fail(format!("placement: {}\ninput {text:?}", diff(w, &g, text))) },
        g => Verdict::Fail(format!("rejected: {}\ninput {text:?}", g.brief())),
    }
}
pub fn p24(cfg: Cfg) -> Check {
    Check::new(cfg, "accepted texts with random runs of whitespace and comments at every boundary, including before, after and between statements and before omitted optional parts; the full expected tree including trivia comes from the reference; non-trivial: at least two trivia leaves",
        vec![rel("placement", 0, 0, |i| trivia_placement(&i[0]))])
}
pub fn x24(c: &Check) {
    corpus_stage(c, "placement");
    stage_sql(c, "dense trivia", "placement", c.cfg.n(150_000, 6_000_000), |r| { let v = stmt(r); dense_trivia(r, &v) });
    stage_sql(c, "sentences", "placement", c.cfg.n(80_000, 4_000_000), valid_sql);
    stage_sql(c, "trivia around statements", "placement", c.cfg.n(60_000, 3_000_000), wrapped);
    let seed = c.cfg.seed;
    // one trivia run at each boundary of a cell text
    let p = paths(0);
    let _ = &p;
    cells(c, "automaton cells with comments", 0, 0, |w, t| {
        let mut r = Rng::new(seed, fw::hash(&[t.clone()]));
        if !r.chance(1, 3) { return true; }
        let t: String = t.split(' ').map(|x| format!("{x}{}", separator(&mut r))).collect();
        w.eval("placement", vec![t])
    });
    crate::guide::corpus_stage(c, "placement");
    sizes(c, "sizes", if c.cfg.thorough() { 4200 } else { 600 }, |w, t| w.eval("placement", vec![t]));
    big(c, "beyond 64 K", |w, t| w.eval("placement", vec![t]));
}
