//! P15, P16, P17, P23: other builds and front ends of the parser, run as worker processes.
use crate::core::*;
use crate::gens::*;
use crate::sut::*;
use fw::{rel, Cfg, Check, PerThread, Verdict};
use postgresql_cst_parser::{parse, NodeOrToken, ResolvedNode};
use refimpl::gen::*;
use refimpl::spec::Ev;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;

struct WorkerProc { bin: String, child: Option<Child> }
impl WorkerProc {
    /// None when the process died on this text
    fn ask(&mut self, text: &str) -> Option<Vec<u8>> {
        for attempt in 0..2 {
            if self.child.is_none() { self.child = Some(fw::die_together(&mut Command::new(&self.bin)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("harness: cannot start {}: {e}", self.bin))); }
            let c = self.child.as_mut().unwrap();
            let mut go = || -> std::io::Result<Vec<u8>> {
                let i = c.stdin.as_mut().unwrap();
                i.write_all(&(text.len() as u64).to_le_bytes())?;
                i.write_all(text.as_bytes())?;
                i.flush()?;
                let o = c.stdout.as_mut().unwrap();
                let mut l = [0u8; 8];
                o.read_exact(&mut l)?;
                let mut b = vec![0u8; u64::from_le_bytes(l) as usize];
                o.read_exact(&mut b)?;
                Ok(b)
            };
            match go() { Ok(b) => return Some(b), Err(_) => { if let Some(mut c) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } if attempt == 1 { return None; } } }
        }
        None
    }
}
fn ask(var: &'static str, text: &str) -> Option<Vec<u8>> {
    static W: OnceLock<PerThread<WorkerProc>> = OnceLock::new();
    let _ = var;
    let w = W.get_or_init(|| { let bin = std::env::var("VARIANT_BIN").unwrap_or_else(|_| panic!("harness: VARIANT_BIN is not set")); PerThread::new(move || WorkerProc { bin: bin.clone(), child: None }) });
    w.with(|p| p.ask(text))
}

#[derive(PartialEq, Clone)]
enum X { Open(u32, u32, u32), Leaf(u32, u32, u32, String), Close }
fn decode(b: &[u8]) -> Vec<X> {
    let mut v = vec![];
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => { v.push(X::Open(u(i + 1), u(i + 5), u(i + 9))); i += 13; }
            b')' => { v.push(X::Close); i += 1; }
            _ => { let n = u(i + 13) as usize; v.push(X::Leaf(u(i + 1), u(i + 5), u(i + 9), String::from_utf8_lossy(&b[i + 17..i + 17 + n]).into())); i += 17 + n; }
        }
    }
    v
}
fn own(root: &ResolvedNode) -> Vec<X> {
    fn rec(n: &ResolvedNode, v: &mut Vec<X>) {
        let r = n.text_range();
        v.push(X::Open(n.kind() as u32, r.start().into(), r.end().into()));
        for c in n.children_with_tokens() { match c { NodeOrToken::Node(n) => rec(n, v), NodeOrToken::Token(t) => { let r = t.text_range(); v.push(X::Leaf(t.kind() as u32, r.start().into(), r.end().into(), t.text().to_string())) } } }
        v.push(X::Close);
    }
    let mut v = vec![];
    rec(root, &mut v);
    v
}
fn kn(k: u32) -> String { if k <= postgresql_cst_parser::syntax_kind::SyntaxKind::Root as u32 || true { use cstree::{RawSyntaxKind, Syntax}; format!("{:?}", postgresql_cst_parser::syntax_kind::SyntaxKind::from_raw(RawSyntaxKind(k))) } else { k.to_string() } }
fn brief(x: &X) -> String { match x { X::Open(k, a, b) => format!("({}@{a}..{b}", kn(*k)), X::Leaf(k, a, b, t) => format!("{}@{a}..{b}{t:?}", kn(*k)), X::Close => ")".into() } }
fn first_diff(w: &[X], g: &[X]) -> String {
    let i = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
    let f = |v: &[X]| v[i.saturating_sub(3).min(v.len())..(i + 4).min(v.len())].iter().map(brief).collect::<Vec<_>>().join(" ");
    format!("default build …{}…\n  this build …{}…", f(w), f(g))
}
/// the default build's answer: a tree or the error's text
fn default_result(text: &str) -> Result<Vec<X>, String> { match parse(text) { Ok(r) => Ok(own(&r)), Err(e) => Err(format!("{e:?}")) } }
fn variant_result(text: &str) -> Result<Result<Vec<X>, String>, String> {
    let Some(b) = ask("VARIANT_BIN", text) else { return Err("crash: the other build dies on this text".into()) };
    match b.first() { Some(b'T') => Ok(Ok(decode(&b[1..]))), Some(b'E') => Ok(Err(String::from_utf8_lossy(&b[1..]).into())), _ => Err("panic: the other build panics on this text".into()) }
}

// ---------------------------------------------------------------- P15
fn same_result(i: &[String]) -> Verdict {
    let text = &i[0];
    let want = default_result(text);
    let got = match variant_result(text) { Ok(g) => g, Err(e) => return Verdict::Fail(format!("{e}\ninput {text:?}")) };
    match (want, got) {
        (Ok(w), Ok(g)) => if w == g { Verdict::Ok(w.len() >= 8) } else { Verdict::Fail(format!("tree: {}\ninput {text:?}", first_diff(&w, &g))) },
        (Err(w), Err(g)) => if w == g { Verdict::Ok(!text.is_empty()) } else { Verdict::Fail(format!("error: default build {w}, this build {g}\ninput {text:?}")) },
        (w, g) => Verdict::Fail(format!("outcome: default build {}, this build {}\ninput {text:?}", w.map_or_else(|e| e, |_| "accepts".into()), g.map_or_else(|e| e, |_| "accepts".into()))),
    }
}
/// parts, joined by newlines and tested as one text (building the regex lexer dominates)
fn same_result_joined(i: &[String]) -> Verdict { same_result(&[i.join("\n")]) }
pub fn p15(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "scanner-heavy texts: short strings over broad alphabets joined into texts, fragment soups, escapes, numbers, operators, sentences, corpus and mutants, through a second build with the regex-match feature; trees, leaf texts and error texts compared; non-trivial: a tree with at least eight events, or an error on a non-empty text",
        vec![rel("same_result", 0, 0, same_result), rel("same_result_joined", 1, 0, same_result_joined)]);
    c.assumptions.push("inputs are valid UTF-8 strings, as the interface requires".into());
    c
}
pub fn x15(c: &Check) {
    let t = c.cfg.thorough();
    let seed = c.cfg.seed;
    const A: &[&str] = &["'", "\"", "$", "\\", "-", "/", "*", "+", ".", ":", "=", "<", "!", "@", "0", "1", "8", "x", "b", "o", "e", "u", "U", "&", "n", "_", " ", "\n", "\r", "é", "(", ";", ",", "{", "a", "\u{b}", "%", "~", "\u{1}", "表", "\u{0}"];
    let k = A.len() as u64;
    for len in 1..=(if t { 3 } else { 2 }) { c.stage(&format!("all strings of length {len}"), k.pow(len), || (), |_, w, mut i| { let mut s = String::new(); for _ in 0..len { s += A[(i % k) as usize]; i /= k; } w.eval("same_result", vec![s]); }); }
    // pieces that scan by themselves, many to a text
    const PIECES: &[&str] = &["'a'", "'it''s'", "'a\nb'", "'a'\n'b'", "'a' \n\t'b'", "'a'--c\n'b'", "'a'/**/'b'", "E'\\n\\x41\\101'", "e'\\\\\\''", "E'a'\n'\\x41'", "E'\\u00e9\\U0001F600'", "E'\\uD83D\\uDE00'", "$$ x $$", "$a$ $b$ $ $a$", "$é$é$é$", "$1", "$1 a", "$12::int", "b'01'", "B''", "b'0'\n'1'", "x'1f'", "X'A'\n'B'", "n'a'", "N'é'", "U&'\\00e9'", "u&\"d\\0061\"", "U&'a' uescape '!'", "u&x", "U & 'x'", "\"a\"\"b\"", "\"é\"", "\"a\nb\"", "/* a /* b */ c */", "/**/", "/***/", "/*/ x */", "/* * / */", "/*++*/", "-- x\n", "--\n", "--\r", "- -", "1", "0", "1.5", ".5", "1.", "1..2", "1e5", "1e+5", "1.5E-3", "0x1F", "0o17", "0b101", "1_000", "0x_f", "1_0.0_1e1_0", "2147483648", "99999999999999999999", "0b11111111111111111111111111111111", "a", "a$1", "_x", "été", "表", "select", "SeLeCt", "ſelect", "\u{212a}ey", "between", "+", "-", "*", "/", "<", ">", "=", "%", "^", "||", "<=", ">=", "<>", "!=", "=>", ":=", "::", "..", ":", "->>", "@>", "+-", "*-", "@-", "<=-", "<--x\n", "+/* x */", "|/", "?|", "`", "~!@#^&|`?", "+-+", "=-", "<>-", "!-", "(", ")", "[", "]", ",", ";", "\t", "\u{c}", "\u{b}", "\r\n", "\u{a0}", "{", "}", "\\", "'", "$", "\u{7f}", "\u{1}"];
    c.stage("pairs of pieces", (PIECES.len() * PIECES.len()) as u64 / 8, || (), |_, w, i| {
        // eight pairs to a text, apart
        let v: Vec<String> = (0..8).map(|j| { let n = i as usize * 8 + j; format!("{}{}", PIECES[n % PIECES.len()], PIECES[n / PIECES.len()]) }).collect();
        w.eval("same_result_joined", v);
    });
    c.stage("sequences of pieces", c.cfg.n(6_000, 400_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x15a, i);
        let n = r.range(2, 40);
        let v: Vec<String> = (0..n).map(|_| { let a = *r.pick(PIECES); let b = if r.chance(1, 2) { *r.pick(PIECES) } else { "" }; let sp = if r.chance(1, 3) { " " } else { "" }; format!("{a}{sp}{b}") }).collect();
        w.eval("same_result_joined", v);
    });
    c.stage("accepted statements, many to a text", c.cfg.n(3_000, 200_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x15b, i);
        let n = r.range(3, 12);
        let v: Vec<String> = (0..n).map(|_| { let s = match r.below(4) { 0 => valid_sql(&mut r), 1 => literal_soup(&mut r), _ => { let v = stmt(&mut r); dense_trivia(&mut r, &v) } }; if parse(&s).is_ok() { format!("{s}\n;") } else { String::new() } }).collect();
        w.eval("same_result_joined", v);
    });
    c.stage("corpus", g().corpus.len() as u64 / 6, || (), |_, w, i| { w.eval("same_result_joined", g().corpus[i as usize * 6..i as usize * 6 + 6].to_vec()); });
    stage_sql(c, "sizes", "same_result", c.cfg.n(1_500, 60_000), |r| { let s = sized(r); if s.len() < 1500 { s } else { s[..crate::total::floor(&s, 1500)].to_string() } });
    c.stage_chunk("beyond 64 K", c.cfg.n(16, 64), 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x15d, i); let n = 65_500 + r.below(80); let f = r.pick(&["x", "é", " "]).repeat(n); let t = match i % 8 { 0 => format!("/*{f}*/ a"), 1 => format!("'{f}' a"), 2 => format!("$${f}$$ a"), 3 => format!("\"{f}\" a"), 4 => format!("{} a", "a".repeat(n)), 5 => format!("a{}b", " ".repeat(n)), 6 => format!("--{f}\na"), _ => format!("{} a", "1".repeat(n)) }; w.eval("same_result", vec![t]); });
    stage_sql(c, "soup", "same_result", c.cfg.n(6_000, 400_000), |r| { let m = *r.pick(&[3usize, 8, 30]); soup(r, m) });
    stage_sql(c, "mutants", "same_result", c.cfg.n(5_000, 300_000), |r| { let s = sql(r); let k = r.below(4); mutate(r, &s, k) });
    stage_sql(c, "escapes", "same_result", c.cfg.n(4_000, 200_000), |r| {
        let mut s = String::from(*r.pick::<&str>(&["E'", "e'", "'", "U&'", "u&\"", "x'", "select e'", "$a$", "/*", "b'"]));
        if r.chance(1, 3) { return escape_const(r, true); }
        for _ in 0..r.range(1, 8) { s += r.pick::<&str>(&["\\", "\\x", "\\xf", "\\xff", "\\u", "\\uD83D", "\\ude00", "\\U", "\\U00110000", "\\U0010ffff", "\\377", "\\400", "'", "''", "\n'", "a", "é", "😀", "0", "\\'", "$a$", "$", "*/", "/*", "*", "\""]); }
        if r.chance(2, 3) { s += r.pick::<&str>(&["'", "\"", "$a$", "*/"]); }
        s
    });
}

// ---------------------------------------------------------------- P16
fn nullable() -> &'static Vec<bool> {
    static S: OnceLock<Vec<bool>> = OnceLock::new();
    S.get_or_init(|| {
        let g = &spec().g;
        let mut n = vec![false; g.names.len()];
        loop { let mut ch = false; for r in &g.rules { if !n[r.lhs] && r.rhs.iter().all(|&s| n[s]) { n[r.lhs] = true; ch = true; } } if !ch { break; } }
        n
    })
}
fn keeps_empty(i: &[String]) -> Verdict {
    let text = &i[0];
    let bad = |m: String| Verdict::Fail(format!("{m}\ninput {text:?}"));
    let want = default_result(text);
    let got = match variant_result(text) { Ok(g) => g, Err(e) => return bad(e) };
    let (w, g) = match (want, got) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(a), Err(b)) => return if a == b { Verdict::Ok(false) } else { bad(format!("error: default build {a}, this build {b}")) },
        (a, b) => return bad(format!("outcome: default build {}, this build {}", a.map_or_else(|e| e, |_| "accepts".into()), b.map_or_else(|e| e, |_| "accepts".into()))),
    };
    // lossless, and ranges that tile the text
    let mut pos = 0usize;
    for x in &g {
        match x {
            X::Leaf(_, a, b, t) => { if *a as usize != pos || *b as usize != pos + t.len() || text.get(pos..pos + t.len()) != Some(t) { return bad(format!("lossless: leaf {} where position {pos} of the input was expected", brief(x))); } if t.is_empty() { return bad(format!("lossless: empty leaf {}", brief(x))); } pos += t.len(); }
            X::Open(_, a, _) => if *a as usize != pos { return bad(format!("lossless: node {} starts elsewhere than {pos}", brief(x))); },
            X::Close => {}
        }
    }
    if pos != text.len() { return bad(format!("lossless: the leaves end at {pos}")); }
    let is_trivia = |k: u32| { let k = kind_id_raw(k); k >= spec().ws };
    // zero-length nodes: none in the default tree, nullable symbols here
    if let Some(x) = w.iter().skip(1).find(|x| matches!(x, X::Open(_, a, b) if a == b)) { return bad(format!("default: the default tree has the zero-length node {}", brief(x))); }
    let sp = spec();
    let mut empties = 0;
    let mut stripped: Vec<X> = vec![];
    // every node must spell a whole production
    let mut st: Vec<(u32, Vec<usize>)> = vec![];
    let mut depth_empty = 0usize;
    for (n, x) in g.iter().enumerate() {
        match x {
            X::Open(k, a, b) => {
                let id = kind_id_raw(*k);
                if let Some(p) = st.last_mut() { p.1.push(id as usize); }
                st.push((id, vec![]));
                if a == b && n > 0 {
                    empties += 1;
                    if (id as usize) < sp.g.nt || id as usize >= sp.g.names.len() || !nullable()[id as usize] { return bad(format!("empty: the zero-length node {} derives no empty string", brief(x))); }
                    depth_empty += 1;
                }
                if depth_empty == 0 { stripped.push(X::Open(*k, *a, *b)); }
            }
            X::Leaf(k, ..) => { if !is_trivia(*k) { stripped.push(x.clone()); st.last_mut().unwrap().1.push(kind_id_raw(*k) as usize); } }
            X::Close => {
                let (id, kids) = st.pop().unwrap();
                if depth_empty == 0 { stripped.push(X::Close); } else { depth_empty -= 1; }
                if id == sp.root { continue; }
                let s = id as usize;
                if s < sp.g.nt || s >= sp.g.names.len() || !sp.g.rules_of[s].iter().any(|&r| sp.g.rules[r].rhs == kids) { return bad(format!("production: {} -> {} is no production of the grammar", kind_name(id), kids.iter().map(|k| kind_name(*k as u32)).collect::<Vec<_>>().join(" "))); }
            }
        }
    }
    let w: Vec<X> = w.into_iter().filter(|x| !matches!(x, X::Leaf(k, ..) if is_trivia(*k))).collect();
    // node ranges may differ by trivia: compare labels, leaves and shape
    let shape = |v: &[X]| -> Vec<X> { v.iter().map(|x| match x { X::Open(k, ..) => X::Open(*k, 0, 0), x => x.clone() }).collect() };
    let (a, b) = (shape(&w), shape(&stripped));
    if a != b { return bad(format!("tree: {}", first_diff(&a, &b))); }
    let _ = Ev::Close;
    Verdict::Ok(empties >= 1)
}
fn kind_id_raw(k: u32) -> u32 { use cstree::{RawSyntaxKind, Syntax}; kind_id(postgresql_cst_parser::syntax_kind::SyntaxKind::from_raw(RawSyntaxKind(k))) }
pub fn p16(cfg: Cfg) -> Check {
    Check::new(cfg, "sentences, automaton cells, trivia-rich texts, corpus and mutants, through a second build without the remove-empty-node feature; errors, leaves and the tree without its zero-length nodes compared with the default build, zero-length nodes and all productions checked against the frozen grammar; non-trivial: accepted and at least one zero-length node",
        vec![rel("keeps_empty", 0, 0, keeps_empty)])
}
pub fn x16(c: &Check) {
    corpus_stage(c, "keeps_empty");
    cells(c, "automaton cells", 0, 5, |w, t| if fw::hash(&[t.clone()]) % 5 == 0 || c.cfg.thorough() { w.eval("keeps_empty", vec![t]) } else { true });
    stage_sql(c, "sentences", "keeps_empty", c.cfg.n(60_000, 3_000_000), valid_sql);
    stage_sql(c, "trivia around statements", "keeps_empty", c.cfg.n(30_000, 1_000_000), wrapped);
    stage_sql(c, "dense trivia", "keeps_empty", c.cfg.n(40_000, 2_000_000), |r| { let v = stmt(r); dense_trivia(r, &v) });
    stage_sql(c, "neighbours", "keeps_empty", c.cfg.n(40_000, 2_000_000), |r| { let s = sql(r); let k = r.below(3); mutate(r, &s, k) });
    sizes(c, "sizes", if c.cfg.thorough() { 2000 } else { 130 }, |w, t| w.eval("keeps_empty", vec![t]));
    stage_sql(c, "beyond 64 K", "keeps_empty", c.cfg.n(60, 2_000), big_text);
    stage_sql(c, "soup", "keeps_empty", c.cfg.n(30_000, 1_000_000), |r| soup(r, 8));
}

// ---------------------------------------------------------------- P17
fn wasm_shows(i: &[String]) -> Verdict {
    let text = &i[0];
    let (want, n) = match parse(text) { Ok(t) => { let s = format!("{t:#?}"); let n = s.len(); (s, n) } Err(e) => { let s = format!("Error: {e:?}"); (s, 50) } };
    let Some(b) = ask("VARIANT_BIN", text) else { return Verdict::Fail(format!("crash: the entry point dies on {text:?}")) };
    if b.first() != Some(&b'S') { return Verdict::Fail(format!("panic: the entry point panics on {text:?}")) }
    let got = String::from_utf8_lossy(&b[1..]);
    if got != want { return Verdict::Fail(format!("text: {}\ninput {text:?}", line_diff(&want, &got))) }
    Verdict::Ok(n >= 50)
}
fn line_diff(w: &str, g: &str) -> String {
    let i = w.lines().zip(g.lines()).position(|(a, b)| a != b).unwrap_or(w.lines().count().min(g.lines().count()));
    format!("line {}: expected {:?}, got {:?}", i + 1, w.lines().nth(i).unwrap_or("<nothing>"), g.lines().nth(i).unwrap_or("<nothing>"))
}
fn cli_shows(i: &[String]) -> Verdict {
    let text = &i[0];
    let (out, err) = match parse(text) { Ok(t) => (format!("{t:#?}\n"), String::new()), Err(e) => (String::new(), format!("{e:#?}\n")) };
    let bin = std::env::var("CLI_BIN").unwrap_or_else(|_| panic!("harness: CLI_BIN is not set"));
    let mut c = Command::new(&bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("harness: cannot start {bin}: {e}"));
    let t = text.clone();
    let mut stdin = c.stdin.take().unwrap();
    let h = std::thread::spawn(move || { let _ = stdin.write_all(t.as_bytes()); });
    let o = c.wait_with_output().unwrap();
    let _ = h.join();
    if o.status.code().map_or(true, |c| c == 101) { return Verdict::Fail(format!("crash: the tool ends with {:?} on {text:?}", o.status)) }
    let (so, se) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if so != out { return Verdict::Fail(format!("output: {}\ninput {text:?}", line_diff(&out, &so))) }
    if se != err { return Verdict::Fail(format!("error output: {}\ninput {text:?}", line_diff(&err, &se))) }
    Verdict::Ok(!text.is_empty())
}
pub fn p17(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "sentences, corpus, mutants, soups and malformed texts given to the WebAssembly entry point (called natively) and piped through the command-line tool; expected output is the library's own result, printed; non-trivial: non-empty output of at least 50 bytes",
        vec![rel("wasm_shows", 0, 0, wasm_shows), rel("cli_shows", 0, 0, cli_shows)]);
    c.assumptions.push("the entry point is compiled for the host, not for WebAssembly: no such target is installed".into());
    c
}
pub fn x17(c: &Check) {
    let wild = |r: &mut Rng| -> String { match r.below(7) { 0 => soup(r, 10), 6 => sized(r), 1 => { let s = sql(r); let k = r.range(1, 4); mutate(r, &s, k) } 2 => literal_soup(r), 3 => wrapped(r), _ => valid_sql(r) } };
    for rl in ["wasm_shows", "cli_shows"] { c.stage(&format!("fixed, {rl}"), FIXED.len() as u64, || (), |_, w, i| { w.eval(rl, vec![FIXED[i as usize].to_string()]); }); }
    corpus_stage(c, "wasm_shows");
    stage_sql(c, "entry point", "wasm_shows", c.cfg.n(40_000, 2_000_000), wild);
    stage_sql(c, "command line", "cli_shows", c.cfg.n(6_000, 200_000), wild);
    // characters of several bytes across every boundary of a buffer
    c.stage_chunk("beyond 64 K", 24, 1, || (), |_, w, i| { let k = i as usize; let (f, end) = (["é", "表", "😀", "a\r\n"][k / 6], ["", "\n", "\n\n", " ", ";", "\r\n"][k % 6]); let s = format!("select {}'{}'{}{end}", "x".repeat(1 + k % 4), f.repeat(70_000 / f.len() + k), ["", " from from"][k % 2]); for rl in ["cli_shows", "wasm_shows"] { if !w.eval(rl, vec![s.clone()]) { return; } } });
    c.stage("long texts", c.cfg.n(16, 200), || (), |_, w, i| { let mut r = Rng::new(c.cfg.seed ^ 0x17, i); let n = r.range(50, 400); let mut s = String::new(); for _ in 0..n { let v = stmt(&mut r); s += &g().words.render_fancy(&mut r, &v); s += ";\n"; } let _ = w.eval("cli_shows", vec![s.clone()]) && w.eval("wasm_shows", vec![s]); });
}
const FIXED: &[&str] = &["", " ", "\n", ";", "select 1", "select 1;", "select 1\n", "\nselect 1\n\n", "select 'é表😀'", "select 'a\nb'", "select '", "select \"a\"\"b\"", "\u{0}", "select\u{0}", "\u{feff}select 1", "select 1 -- x", "select 1 -- x\n", "/* a */ select 1 /* b */", "select '\t\u{7f}\u{1}'", "select e'\\n'", "select 1\r\n", "  select 1  ", "selec", "select from where", "select $1", "é", "select é", "select '{}' || '{0}'", "select '%s%n'", "select '\\'", "{", "select 1;;", "--", "/*", "select u&'\\0061'", "select e'\\xff'", "select e'\\uD800'", "select 'Error: x'", "Error", "select\t1\u{b}\u{c}"];

// ---------------------------------------------------------------- P23
fn regen_status() -> Vec<(String, String)> {
    let f = std::env::var("REGEN_STATUS").unwrap_or_else(|_| panic!("harness: REGEN_STATUS is not set"));
    let s = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("harness: {f}: {e}"));
    s.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn regenerates(i: &[String]) -> Verdict {
    match regen_status().into_iter().find(|(s, _)| *s == i[0]) {
        None => Verdict::Skip,
        Some((_, w)) if w.starts_with("ok") => Verdict::Ok(true),
        Some((s, w)) => Verdict::Fail(format!("{s}: {w}")),
    }
}
fn regenerated() -> bool { regen_status().iter().any(|(s, w)| s == "regenerated-builds" && w.starts_with("ok")) }
fn same_parse(i: &[String]) -> Verdict { if regenerated() { same_result(i) } else { Verdict::Skip } }
pub fn p23(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "the generators run on the committed grammar, keyword and scanner files in a copy of the repository (the lexer generator three times, the parser generator once, on a small grammar eight times, and a second time in the thorough tier), and the regenerated crate then parses automaton cells, sentences, corpus, pieces of the lexer's alphabet, soups and mutants next to the committed one; non-trivial: a step that was carried out, a tree with at least eight events, or an error on a non-empty text",
        vec![rel("regenerates", 0, 0, regenerates), rel("same_parse", 0, 0, same_parse)]);
    c.assumptions.push("rustfmt, which the generators call on what they write, is installed".into());
    c
}
pub fn x23(c: &Check) {
    let steps: Vec<String> = regen_status().into_iter().map(|(s, _)| s).collect();
    c.stage("generator runs", steps.len() as u64, || (), |_, w, i| { w.eval("regenerates", vec![steps[i as usize].clone()]); });
    if !regenerated() { return; }
    let t = c.cfg.thorough();
    corpus_stage(c, "same_parse");
    const A: &[&str] = &["'", "\"", "$", "\\", "-", "/", "*", "+", ".", ":", "=", "<", "!", "@", "0", "1", "x", "b", "o", "e", "u", "&", "n", "_", " ", "\n", "\r", "é", "(", ";", "{", "a", "\u{b}", "%", "~", "\u{1}", "表", "\u{0}"];
    let k = A.len() as u64;
    for len in 1..=(if t { 4 } else { 3 }) { c.stage(&format!("all strings of length {len}"), k.pow(len), || (), |_, w, mut i| { let mut s = String::new(); for _ in 0..len { s += A[(i % k) as usize]; i /= k; } w.eval("same_parse", vec![s]); }); }
    cells(c, "automaton cells", 0, 5, |w, s| if fw::hash(&[s.clone()]) % 4 == 0 || t { w.eval("same_parse", vec![s]) } else { true });
    stage_sql(c, "sentences", "same_parse", c.cfg.n(60_000, 3_000_000), valid_sql);
    stage_sql(c, "literals", "same_parse", c.cfg.n(40_000, 2_000_000), literal_soup);
    stage_sql(c, "trivia", "same_parse", c.cfg.n(30_000, 1_000_000), wrapped);
    stage_sql(c, "sizes", "same_parse", c.cfg.n(8_000, 400_000), sized);
    stage_sql(c, "soup", "same_parse", c.cfg.n(60_000, 3_000_000), |r| { let m = *r.pick(&[3usize, 8, 30]); soup(r, m) });
    stage_sql(c, "mutants", "same_parse", c.cfg.n(60_000, 3_000_000), |r| { let s = sql(r); let k = r.below(4); mutate(r, &s, k) });
    let words: Vec<String> = keyword_words();
    c.stage("keywords", words.len() as u64, || (), |_, w, i| { let k = &words[i as usize]; let _ = w.eval("same_parse", vec![k.clone()]) && w.eval("same_parse", vec![format!("select {k}")]) && w.eval("same_parse", vec![format!("select 1 as {k}")]) && w.eval("same_parse", vec![format!("select {k}()")]) && w.eval("same_parse", vec![format!("create table {} (a int)", k.to_uppercase())]); });
}
fn keyword_words() -> Vec<String> { spec().kw.iter().map(|k| k.word.clone()).collect() }
