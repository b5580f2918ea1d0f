//! Text generators shared by the checks.
use crate::sut::{dir, spec, with_scanner};
use fw::{Check, Worker};
use refimpl::gen::*;
use refimpl::lalr::Act;
use refimpl::scan::{is_comment, Tok};
use std::sync::OnceLock;

pub struct G {
    pub sg: SentenceGen<'static>,
    pub words: Words,
    pub stmts: Vec<usize>,
    pub corpus: Vec<String>,
}
pub fn g() -> &'static G {
    static S: OnceLock<G> = OnceLock::new();
    S.get_or_init(|| {
        let sp = spec();
        let st = sp.g.id("stmt").unwrap();
        let stmts = sp.g.rules_of[st].iter().filter_map(|&r| sp.g.rules[r].rhs.first().copied()).collect();
        let mut corpus = vec![];
        let mut files: Vec<_> = std::fs::read_dir(format!("{}/spec/corpus", dir())).expect("corpus").map(|f| f.unwrap().path()).collect();
        files.sort();
        for f in files {
            let s = std::fs::read_to_string(f).unwrap();
            // statements by the reference scanner
            let toks = with_scanner(|sc| sc.scan(&s)).unwrap();
            let mut a = 0;
            for t in &toks { if t.kind == "';'" { corpus.push(s[a..t.end].to_string()); a = t.end; } }
            if a < s.len() && !s[a..].trim().is_empty() { corpus.push(s[a..].to_string()); }
        }
        G { sg: SentenceGen::new(sp), words: Words::new(sp), stmts, corpus }
    })
}

pub fn paths(salt: u64) -> Paths<'static> { Paths::new(&spec().g, &spec().l, salt) }

/// A statement as terminals
pub fn stmt(rng: &mut Rng) -> Vec<usize> {
    let g = g();
    let budget = *rng.pick(&[4usize, 8, 15, 25, 40, 80]);
    // selects and inserts carry most of the grammar
    let sym = if rng.chance(1, 4) { spec().g.id(rng.pick::<&str>(&["SelectStmt", "InsertStmt", "UpdateStmt", "DeleteStmt", "MergeStmt", "CreateStmt", "a_expr", "ViewStmt", "CreateFunctionStmt"])).unwrap() } else { *rng.pick(&g.stmts) };
    if spec().name(sym as u32) == "a_expr" {
        let mut v = vec![spec().g.id("SELECT").unwrap()];
        v.extend(g.sg.random(rng, sym, budget));
        return v;
    }
    g.sg.random(rng, sym, budget)
}

/// Text of a whole input: sentences, neighbours of sentences, corpus mutants
pub fn sql(rng: &mut Rng) -> String {
    if rng.chance(1, 7) { if let Some(t) = crate::guide::guided(rng) { return t; } }
    let g = g();
    match rng.below(10) {
        0..=4 => { let v = stmt(rng); g.words.render_fancy(rng, &v) }
        5 => { let v = stmt(rng); tight(rng, &v) }
        6 => {
            let mut s = String::new();
            for i in 0..rng.range(2, 4) { if i > 0 { s += ";"; s += &trivia(rng); } let v = stmt(rng); s += &g.words.render_fancy(rng, &v); }
            if rng.chance(1, 2) { s += ";"; }
            s
        }
        7 => { let mut v = stmt(rng); edit_terms(rng, &mut v); g.words.render_fancy(rng, &v) }
        8 => if rng.chance(1, 4) { sized(rng) } else { rng.pick(&g.corpus).clone() },
        _ => { let c = rng.pick(&g.corpus).clone(); retoken(rng, &c) }
    }
}

/// Mostly valid text with rich trivia and literal forms
pub fn valid_sql(rng: &mut Rng) -> String {
    if rng.chance(1, 9) { if let Some(t) = crate::guide::guided_valid(rng) { return t; } }
    let g = g();
    match rng.below(8) {
        0 => if rng.chance(1, 4) { sized(rng) } else { rng.pick(&g.corpus).clone() },
        1 => { let v = stmt(rng); tight(rng, &v) }
        2 => {
            let mut s = trivia(rng);
            for i in 0..rng.range(2, 5) { if i > 0 { s += ";"; s += &trivia(rng); } if rng.chance(4, 5) { let v = stmt(rng); s += &g.words.render_fancy(rng, &v); } }
            if rng.chance(1, 2) { s += ";"; }
            s + &trivia(rng)
        }
        3 => { let v = stmt(rng); dense_trivia(rng, &v) }
        _ => { let v = stmt(rng); g.words.render_fancy(rng, &v) }
    }
}

pub fn dense_trivia(rng: &mut Rng, v: &[usize]) -> String {
    let mut s = trivia(rng);
    for &t in v { s += &if rng.chance(1, 2) { g().words.fancy(rng, t) } else { g().words.plain(t).to_string() }; s += &separator(rng); if rng.chance(1, 3) { s += &trivia(rng); } }
    s
}

/// Tokens with no separator where the scanner still splits them
pub fn tight(rng: &mut Rng, terms: &[usize]) -> String {
    let mut s = String::new();
    let mut last = String::new();
    for &t in terms {
        let w = if rng.chance(1, 3) { g().words.fancy(rng, t) } else { g().words.plain(t).to_string() };
        let glue = with_scanner(|sc| {
            let j = format!("{last}{w}");
            matches!(sc.scan(&j), Ok(v) if v.iter().any(|x| x.end == last.len() && x.start < last.len()) && v.iter().any(|x| x.start == last.len()))
        });
        if !s.is_empty() && !(glue && rng.chance(5, 6)) { if rng.chance(1, 5) { s += rng.pick(COMMENTS); } else { s.push(' '); } }
        s += &w;
        last = w;
    }
    s
}

pub fn edit_terms(rng: &mut Rng, v: &mut Vec<usize>) {
    let nt = spec().g.nt;
    for _ in 0..rng.range(1, 3) {
        let at = rng.below(v.len() + 1);
        let mut t = rng.below(nt);
        while unwritable(&spec().g, t) { t = rng.below(nt); }
        match rng.below(5) {
            0 if at < v.len() => { v.remove(at); }
            1 => v.insert(at, t),
            2 if at < v.len() => v[at] = t,
            3 if at + 1 < v.len() => v.swap(at, at + 1),
            _ if at < v.len() => { let x = v[at]; v.insert(at, x); }
            _ => {}
        }
    }
}

pub fn tokens(text: &str) -> Vec<Tok> { with_scanner(|s| s.scan(text)).unwrap_or_default() }

/// Replace, delete or duplicate tokens of a text
pub fn retoken(rng: &mut Rng, text: &str) -> String {
    let toks: Vec<Tok> = tokens(text).into_iter().filter(|t| !is_comment(&t.kind)).collect();
    if toks.is_empty() { return text.to_string(); }
    let mut s = text.to_string();
    for _ in 0..rng.range(1, 2) {
        let t = rng.pick(&toks);
        if t.end > s.len() || !s.is_char_boundary(t.start) || !s.is_char_boundary(t.end) { continue; }
        let nt = spec().g.nt;
        let mut x = rng.below(nt);
        while unwritable(&spec().g, x) { x = rng.below(nt); }
        let w = g().words.fancy(rng, x);
        match rng.below(4) {
            0 => s.replace_range(t.start..t.end, ""),
            1 => s.replace_range(t.start..t.end, &w),
            2 => s.insert_str(t.start, &format!("{w} ")),
            _ => { let d = s[t.start..t.end].to_string(); s.insert_str(t.end, &format!(" {d}")); }
        }
    }
    s
}

/// One text per (state, lookahead) cell of the reference automaton.
/// `errors`: share of the error cells to include, out of 1000.
pub fn cells(c: &Check, name: &str, salt: u64, errors: usize, eval: impl Fn(&mut Worker, String) -> bool + Sync) {
    let p = paths(salt);
    let sp = spec();
    let seed = c.cfg.seed;
    let n = sp.l.kernels.len() as u64;
    c.stage(name, n, || (), |_, w, s| {
        let s = s as usize;
        let mut rng = Rng::new(seed ^ salt, s as u64);
        let Some(pre) = p.prefix(s) else { return };
        for t in 0..sp.g.nt {
            if t != 0 && unwritable(&sp.g, t) { continue; }
            let err = sp.l.action[s][t] == Act::Error;
            if err && rng.below(1000) >= errors { continue; }
            let mut v = pre.clone();
            if t != 0 { v.push(t); }
            if !err && t != 0 { if let Some(st) = p.run(&v) { v.extend(p.complete(&st)); } }
            let text = if rng.chance(1, 16) { g().words.render_fancy(&mut rng, &v) } else { g().words.render_plain(&v) };
            if !eval(w, text) { return; }
        }
    });
}

/// shapes whose tree is as deep as the count
pub const DEEP: &[[&str; 5]] = &[
    ["select ", "(", "1", ")", ""], ["", "(", "select 1", ")", ""], ["select ", "a+", "1", "", ""], ["select ", "- ", "1", "", ""], ["select ", "not ", "a", "", ""],
    ["select ", "a and ", "b", "", ""], ["select 1", ",1", "", "", ""], ["", "select 1;", "", "", ""], ["select ", "case when a then ", "1", " end", ""],
    ["select a", ".b", "", "", ""], ["select a", "[1]", "", "", ""], ["select a", "::int", "", "", ""], ["select ", "f(", "", ")", ""], ["select 1 from ", "(select 1 from ", "t", ") x", ""],
    ["select 1", " union select 2", "", "", ""], ["select * from t", " join u on true", "", "", ""], ["select ", "array[", "1", "]", ""], ["values (1)", ",(1)", "", "", ""],
    ["", "with a as (", "select 1", ") select 1", ""], ["create table t (a int", ",b int", "", "", ")"], ["select a", " is null", "", "", ""], ["select a in (1", ",1", "", "", ")"],
    ["select ", "exists(select ", "1", ")", ""], ["select * from ", "(", "t join u on true", ")", ""], ["select a", " collate x", "", "", ""], ["grant select on t to a", ",b", "", "", ""],
    ["", "explain ", "select 1", "", ""], ["create schema s ", "create table t() ", "", "", ""], ["select a", " at local", "", "", ""], ["select ", "a <> all (select ", "1", ")", ""], ["", "((", "select 1", ")", ""], ["select (", "(", "", "", ""], ["select ", "", "", ")", ""],
];
/// shapes that are long without being deep
pub const LONG: &[[&str; 5]] = &[
    ["", "/*", "", "*/", "select 1"], ["", "/*", "", "", ""], ["select '", "a", "", "", "'"], ["select '", "''", "", "", "'"], ["select '", "é", "", "", ""], ["select e'", "\\\\", "", "", "'"], ["select e'", "\\u00e9", "", "", "'"], ["select e'", "\\", "", "", ""],
    ["select $$", "$", "", "", "$$"], ["select $a$", "$a", "", "", "$a$"], ["select $a$", "$b$", "", "", ""], ["$", "a", "$ x $", "a", "$"], ["select ", "+", "1", "", ""], ["select ", "<", "", "", ""], ["select 1 ", "-", "", "", ""],
    ["select ", "1", "", "", ""], ["select 0x", "f", "", "", ""], ["select 1", "_1", "", "", ""], ["select .", "1", "", "", "e5"], ["select 1e", "9", "", "", ""], ["select $", "1", "", "", ""],
    ["select ", "a", "", "", ""], ["select \"", "a", "", "", "\""], ["select \"", "\"\"", "", "", "\""], ["select ", "é", "", "", ""], ["", " ", "", "", ""], ["select", "\n", "1", "\n", ""], ["select 1 --", "-", "", "", ""], ["", "--\n", "", "", ""],
    ["", "/**/", "", "", ""], ["select 'a'", "\n'a'", "", "", ""], ["select b'", "1", "", "", "'"], ["", ";", "", "", ""], ["", "}", "", "", ""], ["", "\u{0}", "", "", ""], ["", "'", "", "", ""], ["", "\"", "", "", ""], ["", "$", "", "", ""], ["", "\\", "", "", ""], ["", "U&'", "", "", ""], ["", "E'", "", "", ""], ["select u&'a' ", "uescape '!' ", "", "", ""],
    ["", "not ", "", "", ""], ["select ", "nulls first ", "", "", ""], ["", "with time ", "", "", ""], ["select 1 /*", "*", "", "/", "*/"], ["select '", " ' ", "", "\n", ""],
];
/// shapes for the sizes of one token, one run of trivia, one list, and for what comes before an error
pub const MORE: &[[&str; 5]] = &[
    ["select", " ", "a", " ", ""], ["select a", "\n", "from from", "", ""], ["select a", "\r\n", "", "", "from t"], ["select a, /*", "x", "*/ b", "", ""], ["select a --", "x", "\n, b", "", ""], ["select a --", "é", "", "", ""],
    ["select /*", "é", "*/ 1", "", ""], ["select 1 ", "/**/", "+ 2", "", ""], ["select 1 ", "-- x\n", "from t", "", ""], ["select not", " ", "between", "", ""], ["select not ", "/**/", " in (1)", "", ""], ["select a not ", "\n", "like b", "", ""],
    ["select * from t order by a nulls", " ", "first", "", ""], ["select * from f() with ", "/* x */", "ordinality", "", ""], ["select u&'a'", " ", "uescape '!'", "", ""], ["select u&'a' uescape", "\n", "'!'", "", ""], ["select 'a'", " ", "\n", " ", "'b'"], ["select 'a'", "\n", "'b'", "", ""],
    ["select a", "b", "", "", " from t"], ["select \"", "b", "\" from t", "", ""], ["select $a", "b", "$ x $a", "b", "$"], ["select $$", "x", "$$ a", "", ""], ["select e'", "\\'", "' a", "", ""], ["select '", "a\n", "' a", "", ""], ["select b'", "10", "'", "", ""], ["select x'", "fF", "'", "", ""],
    ["select 0", "0", "1", "", ""], ["select 1.", "0", "1", "", ""], ["select 1", "_0", "e5", "", ""], ["select $", "0", "1", "", ""], ["select 0x", "0", "1", "", ""], ["select 0b", "1", "", "", ""], ["select 0o", "7", "", "", ""], ["select 1 ~", "*", "~ 2", "", ""], ["select 1 @", "-", " 2", "", ""], ["select 1 ", "<", "= 2", "", ""],
    ["", "select 1;\n", "from from", "", ""], ["", ";", "select 1", ";", ""], ["", "begin;", "", "commit;", ""], ["", " ;\n", "select 1", "", ""], ["insert into t values ", "(1),", "(2)", "", ""], ["select ", "a as b, ", "c", "", ""], ["select ", "-1, ", "+ +2", "", ""], ["update t set a = 1", ", b = 2", "", "", " where c"],
    ["select ", "a, ", "from t", "", ""], ["select ", "(1 + ", "2", ")", " from t"], ["select ", "(", "1", ")", ") from t"], ["select f(", "a := 1, ", "b => 2)", "", ""], ["create function f() returns int begin atomic ", "select 1; ", "end", "", ""], ["select case ", "when a then b ", "end", "", ""], ["select a", " || b", " from t", "", ""], ["select a.", "b.", "c", "", ""],
    ["select 1 from t where a", " and b", " or c", "", ""], ["with ", "a as (select 1), ", "b as (select 2) select 3", "", ""], ["select /* a", "/* b */", "*/ 1", "", ""], ["select ", "/* a", " b ", "*/", "1"], ["select 1 -- ", "/*", "\n", "*/", ""], ["select 'a' ", "'b' ", "", "", ""], ["", "a", " select", "", ""], ["", "x ", "", "", ""], ["select", "\t", "", "\u{b}", ""], ["select ", "\"a\".", "\"b\"", "", ""], ["drop table ", "a, ", "b", "", " cascade"], ["select ", "not ", "between", "", ""], ["select a ", "is not null ", "from", "", ""], ["select int ", "'1'", "", "", ""], ["", "\u{0}", "select", "", ""], ["select 1 as ", "é", "", "", ", 2"], ["select 'é", "表", "' x", "", " y z"],
];
/// every shape with every size of the dictionary up to `max` (a tenth of that for trees as deep as the size, beyond 300)
pub fn sizes(c: &Check, name: &str, max: usize, eval: impl Fn(&mut Worker, String) -> bool + Sync) {
    let shapes: Vec<(&[&str; 5], bool)> = DEEP.iter().map(|s| (s, true)).chain(LONG.iter().chain(MORE).map(|s| (s, false))).collect();
    let ns: Vec<usize> = dict().sizes.iter().copied().filter(|&n| n <= max).collect();
    c.stage(name, (shapes.len() * ns.len()) as u64, || (), |_, w, i| {
        let ((s, deep), n) = (shapes[i as usize % shapes.len()], ns[i as usize / shapes.len()]);
        if (deep || s[3] != "") && n > 300.max(max / 10) { return; }
        eval(w, format!("{}{}{}{}{}", s[0], s[1].repeat(n), s[2], s[3].repeat(n), s[4]));
    });
}
/// sizes beyond 64 K: tokens, runs of trivia and texts longer than 16 bits can count
pub fn big(c: &Check, name: &str, eval: impl Fn(&mut Worker, String) -> bool + Sync) {
    let count = |t: &str| with_scanner(|sc| sc.scan(t)).map(|v| v.iter().filter(|t| !is_comment(&t.kind)).count()).unwrap_or(0);
    let make = |s: &[&str; 5], n: usize| format!("{}{}{}{}{}", s[0], s[1].repeat(n), s[2], s[3].repeat(n), s[4]);
    let mut v: Vec<(&[&str; 5], usize)> = vec![];
    for s in LONG.iter().chain(MORE) {
        // quadratic, as in PostgreSQL's scanner (see P26)
        if s[1].trim().chars().all(|c| "+-*/<>=~!@#%^&|`?".contains(c)) && !s[1].trim().is_empty() && s[1] != "/**/" && !s[0].contains(['\'', '"', '$']) && !(s[0].contains("--") || s[0].contains("/*")) || s[1].contains("/*") && !s[1].contains("*/") { continue; }
        // a list: as deep as it is long
        if count(&make(s, 40)) != count(&make(s, 20)) { continue; }
        let l = s[1].len() + s[3].len();
        let all = |n: usize| with_scanner(|sc| sc.scan(&make(s, n))).map_or(0, |v| v.len());
        let many = all(40) != all(20);
        for b in [5_001usize, 8_192, 16_384, 32_768, 65_536, 65_537, 131_073] {
            let n = b.div_ceil(l);
            if many && n > 8_200 { continue; }
            if c.cfg.thorough() || b >= 65_536 || (n + s[0].len()) % 3 == 0 { v.push((s, n)); if l == 1 && b == 65_536 { v.push((s, n - 1)); } }
        }
    }
    c.stage_chunk(name, v.len() as u64, 1, || (), |_, w, i| { let (s, n) = v[i as usize]; eval(w, make(s, n)); });
    // statements before and after a big token
    let seed = c.cfg.seed;
    c.stage_chunk(&format!("{name}, among statements"), c.cfg.n(60, 2000), 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0xb16, i); let t = big_text(&mut r); eval(w, t); });
}
/// a statement after a token or comment of more than 64 K
pub fn big_text(r: &mut Rng) -> String {
    let p = g();
    let mut t = String::new();
    for _ in 0..r.below(3) { let v = stmt(r); t += &p.words.render_fancy(r, &v); t += "\n;"; }
    t += &big_piece(r);
    let v = stmt(r);
    t += &p.words.render_fancy(r, &v);
    if r.chance(1, 3) { let k = r.range(1, 2); t = mutate(r, &t, k); }
    t
}
pub fn big_piece(r: &mut Rng) -> String {
    let fill = *r.pick(&["x", "é", "表", " ", "ab ", "\n", "''"]);
    let n = (*r.pick(&[20_000usize, 65_500, 65_520, 65_536, 131_000]) + r.below(80)) / fill.len();
    let f = fill.repeat(n);
    match r.below(5) { 0 | 1 => format!("/*{f}*/"), 2 => format!("select '{f}';"), 3 => format!("{}\n", " ".repeat(n)), _ => format!("select $a${f}$a$ as x;") }
}
/// a shape with a random size, or a list of sized words
pub fn sized(r: &mut Rng) -> String {
    let k = r.below(DEEP.len() + LONG.len() + MORE.len());
    if r.chance(1, 3) {
        let mut s = String::from("select ");
        for i in 0..r.range(1, 3) { if i > 0 { s += ", "; } let c = *r.pick(&["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM", "Op"]); let n = dict().size(r, 1500); if c == "Op" { s += "a "; } s += &long_word(r, c, n); if c == "Op" { s += " b"; } if r.chance(1, 3) { let n = dict().size(r, 600); s += &long_trivia(r, n); } }
        return s;
    }
    let s = if k < DEEP.len() { &DEEP[k] } else if k < DEEP.len() + LONG.len() { &LONG[k - DEEP.len()] } else { &MORE[k - DEEP.len() - LONG.len()] };
    let n = dict().size(r, 300);
    format!("{}{}{}{}{}", s[0], s[1].repeat(n), s[2], s[3].repeat(n), s[4])
}
/// the sources whose literals feed the dictionary
pub fn load_dict() {
    let repo = std::env::var("REPO_DIR").unwrap_or("/repo".into());
    let mut v = vec![];
    fn walk(d: &std::path::Path, v: &mut Vec<String>) {
        let Ok(e) = std::fs::read_dir(d) else { return };
        let mut e: Vec<_> = e.flatten().map(|x| x.path()).collect();
        e.sort();
        for p in e { if p.is_dir() { walk(&p, v) } else if p.extension().map_or(false, |x| x == "rs") && !["parser.rs", "syntax_kind.rs", "generated.rs"].contains(&p.file_name().unwrap().to_str().unwrap_or("")) { v.push(p.display().to_string()) } }
    }
    for d in ["crates/postgresql-cst-parser/src", "postgresql-cst-parser-wasm/src"] { walk(&std::path::Path::new(&repo).join(d), &mut v); }
    use_dict(&v);
}
