//! P27: a generated scanner does what its description says.
//!
//! A case is a list of items of five strings, in source order:
//!   x NAME - - -                          start condition
//!   def NAME PATTERN GAP -                named definition
//!   junk TEXT - - -                       comment or blank line between definitions
//!   rule STATES PATTERN ACTION LAYOUT     see `code` for the actions; LAYOUT b: within a block of its start conditions
//!   kw WORD TOKEN REST -                  keyword
//!   text TEXT - - -                       what is scanned
use crate::slots::*;
use fw::{Check, PerThread, Verdict};
use refimpl::gen::Rng;
use refimpl::pat::{sample, size, valid, Gen};
use refimpl::rx::{Matcher, PatParser, Re};
use std::collections::HashMap;
use std::process::Command;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Act { Emit(String), Skip, Begin(usize, Option<String>), Less(String), Kw(String), Err(String), End, Eof(usize), Parity(String) }
struct Desc { states: Vec<String>, defs: Vec<(String, String)>, rules: Vec<(Vec<usize>, String, Act)>, kw: Vec<(String, String)>, scan_l: String, kwlist: String, texts: Vec<String> }

/// the text of an action
fn code(a: &str) -> Option<String> {
    let w: Vec<&str> = a.split(' ').collect();
    let ident = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && s.starts_with(|c: char| c.is_ascii_alphabetic());
    if w[1..].iter().any(|s| !ident(s)) { return None; }
    let emit = |l: &str| format!("self.set_yylloc();\n\t\t\t\t\treturn Ok(Some(TokenKind::RAW(\"{l}\".to_string())));");
    Some(match w.as_slice() {
        ["emit", l] => format!("{{\n\t\t\t\t\t{}\n\t\t\t\t}}", emit(l)),
        ["emit1", l] => format!("{{ self.set_yylloc(); return Ok(Some(TokenKind::RAW(\"{l}\".to_string()))); }}"),
        ["skip"] => "{\n\t\t\t\t\t/* ignore */\n\t\t\t\t}".into(),
        ["skip1"] => "{}".into(),
        ["begin", s] => format!("{{\n\t\t\t\t\tself.begin(State::{s});\n\t\t\t\t}}"),
        ["begin", s, l] => format!("{{\n\t\t\t\t\tself.begin(State::{s});\n\t\t\t\t\t// {{ and }}\n\t\t\t\t\t{}\n\t\t\t\t}}", emit(l)),
        ["less", l] => format!("{{\n\t\t\t\t\tlet first = yytext.chars().next().unwrap().len_utf8();\n\t\t\t\t\tif yytext.len() > first {{\n\t\t\t\t\t\tself.yyless(first);\n\t\t\t\t\t}}\n\t\t\t\t\t{}\n\t\t\t\t}}", emit(l)),
        ["kw", l] => format!("{{\n\t\t\t\t\tself.set_yylloc();\n\t\t\t\t\tmatch self.get_keyword(&self.yytext()) {{\n\t\t\t\t\t\tSome((_, k)) => {{\n\t\t\t\t\t\t\treturn Ok(Some(TokenKind::KEYWORD(k)));\n\t\t\t\t\t\t}}\n\t\t\t\t\t\tNone => return Ok(Some(TokenKind::RAW(\"{l}\".to_string()))),\n\t\t\t\t\t}}\n\t\t\t\t}}"),
        ["err", l] => format!("{{\n\t\t\t\t\tyyerror!(\"{l}\");\n\t\t\t\t}}"),
        ["end"] => "{\n\t\t\t\t\tyyterminate!();\n\t\t\t\t}".into(),
        ["eof", s] => format!("{{ self.begin(State::{s}); }}"),
        ["parity", l] => format!("{{\n\t\t\t\t\tlet even = yytext.len() % 2 == 0;\n\t\t\t\t\tself.set_yylloc();\n\n\t\t\t\t\tif even {{\n\t\t\t\t\t\treturn Ok(Some(TokenKind::RAW(\"{l}e\".to_string())));\n\t\t\t\t\t}} else {{\n\t\t\t\t\t\treturn Ok(Some(TokenKind::RAW(\"{l}o\".to_string())));\n\t\t\t\t\t}}\n\t\t\t\t}}"),
        ["|"] => "|".into(),
        _ => return None,
    })
}
const RUST: &[&str] = &["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "gen", "try", "do", "box", "abstract", "become", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield"];

fn read(i: &[String]) -> Option<Desc> {
    if i.len() % 5 != 0 { return None; }
    let mut d = Desc { states: vec!["INITIAL".into()], defs: vec![], rules: vec![], kw: vec![], scan_l: String::new(), kwlist: "/* keywords */\n\n".into(), texts: vec![] };
    let ident = |s: &str| s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !RUST.contains(&s);
    let mut block: Option<&str> = None;
    let mut rules: Vec<(Vec<usize>, String, &str)> = vec![];
    let mut section = 0;
    for p in i.chunks(5) {
        let [k, a, b, c, l] = p else { return None };
        let s = &mut d.scan_l;
        match k.as_str() {
            "x" if section == 0 => { if !ident(a) || d.states.contains(a) { return None; } *s += &format!("%x {a}\n"); d.states.push(a.clone()); }
            "def" if section == 0 => {
                if !ident(a) || d.defs.iter().any(|x| x.0 == *a) || ["rule_kinds", "actions", "pattern_actions_by_index", "rule_defs", "states", "keyword_map"].contains(&a.as_str()) || !valid(b, &d.defs) || b.contains("\"#") || b.contains(char::is_whitespace) || !["\t", "\t\t", "\t\t\t", "\t "].contains(&c.as_str()) { return None; }
                *s += &format!("{a}{c}{b}\n");
                d.defs.push((a.clone(), b.clone()));
            }
            "junk" if section == 0 => { if !["", "/*\n * comment {x} %x no\n */", "%option 8bit", "%{\n#define X 1\nfoo\tbar\n%}"].contains(&a.as_str()) { return None; } *s += a; *s += "\n"; }
            "rule" => {
                if section == 0 { *s += "%%\n"; section = 1; }
                if section != 1 { return None; }
                let st: Vec<usize> = a.split(',').map(|x| d.states.iter().position(|y| y == x)).collect::<Option<_>>()?;
                let mut u = st.clone(); u.sort(); u.dedup();
                if u.len() != st.len() { return None; }
                if b != "<<EOF>>" && (!valid(b, &d.defs) || b.contains("\"#") || b.contains(char::is_whitespace) || b.starts_with("%%")) { return None; }
                let t = code(c)?;
                let gap = if l.contains('s') { " " } else { "\t\t" };
                let in_block = l.contains('b');
                if block.is_some() && !(in_block && block == Some(a)) { *s += "}\n"; block = None; }
                if in_block && block.is_none() { *s += &format!("<{a}>{{\n"); block = Some(a); }
                if l.contains('e') { *s += "\n"; }
                if in_block || (a == "INITIAL" && !l.contains('p')) { *s += &format!("{b}{gap}{t}\n"); } else { *s += &format!("<{a}>{b}{gap}{t}\n"); }
                rules.push((st, b.clone(), c));
            }
            "kw" => {
                section = 2;
                if !ident(a) && a != "static" || *a != a.to_ascii_lowercase() || d.kw.iter().any(|x| x.0 == *a) || !ident(b) || *b != b.to_ascii_uppercase() { return None; }
                d.kwlist += &format!("PG_KEYWORD(\"{a}\",{c}{b}, UNRESERVED_KEYWORD, BARE_LABEL)\n");
                if !c.chars().all(|c| c == ' ' || c == '\t') { return None; }
                d.kw.push((a.clone(), b.clone()));
            }
            "text" => { section = 2; if a.contains('\0') { return None; } d.texts.push(a.clone()); }
            _ => return None,
        }
    }
    if block.is_some() { d.scan_l += "}\n"; }
    if section == 0 || rules.len() > 254 { return None; }
    d.scan_l += "\n%%\n\nint main() {}\n";
    // what the actions do; a shared one belongs to the next rule
    for (n, (st, p, _)) in rules.iter().enumerate() {
        let c = rules[n..].iter().map(|r| r.2).find(|c| *c != "|")?;
        let w: Vec<&str> = c.split(' ').collect();
        let state = |s: &str| d.states.iter().position(|x| x == s);
        let a = match w.as_slice() {
            ["emit" | "emit1", l] => Act::Emit(l.to_string()), ["skip" | "skip1"] => Act::Skip, ["begin", s] => Act::Begin(state(s)?, None), ["begin", s, l] => Act::Begin(state(s)?, Some(l.to_string())),
            ["less", l] => Act::Less(l.to_string()), ["kw", l] => Act::Kw(l.to_string()), ["err", l] => Act::Err(l.to_string()), ["end"] => Act::End, ["eof", s] => Act::Eof(state(s)?), ["parity", l] => Act::Parity(l.to_string()), _ => return None,
        };
        // at the end of the input only these make sense
        if p == "<<EOF>>" { match &a { Act::End | Act::Err(_) => {} Act::Eof(t) if st.iter().all(|s| s < t) => {} _ => return None } } else if matches!(a, Act::Eof(_)) { return None; }
        d.rules.push((st.clone(), p.clone(), a));
    }
    // every start condition matches something everywhere
    for s in 0..d.states.len() {
        if !d.rules.iter().any(|r| r.0.contains(&s) && r.1 == "<<EOF>>") || !d.rules.iter().any(|r| r.0.contains(&s) && r.1 == "(.|\\n)") { return None; }
    }
    Some(d)
}
fn reference(d: &Desc) -> Option<Vec<Matcher>> {
    let defs: HashMap<String, String> = d.defs.iter().cloned().collect();
    let mut v = vec![];
    for s in 0..d.states.len() {
        let rs: Vec<(usize, Re)> = d.rules.iter().enumerate().filter(|(_, r)| r.0.contains(&s)).map(|(i, r)| (i, PatParser::parse(&r.1, &defs))).collect();
        let mut m = Matcher::new(&rs);
        let mut i = 0;
        while i < m.num_states() { if m.num_states() > 250 { return None; } for b in 1..=255u8 { m.walk(i, b); } i += 1; }
        v.push(m);
    }
    Some(v)
}
/// (what the scanner answers, rules used)
fn expected(d: &Desc, m: &mut [Matcher], text: &str) -> (String, Vec<usize>) {
    let b = text.as_bytes();
    let (mut pos, mut st) = (0, 0);
    let mut out = String::from("tokens");
    let mut used = vec![];
    loop {
        if pos == b.len() {
            let r = m[st].eof().unwrap();
            used.push(r);
            match &d.rules[r].2 { Act::End => return (out, used), Act::Err(l) => return (format!("error {l}"), used), Act::Eof(s) => { st = *s; continue } _ => unreachable!() }
        }
        let (len, r) = m[st].longest(&b[pos..]).unwrap_or_else(|| panic!("harness: nothing matches"));
        let mut e = pos + len;
        while !text.is_char_boundary(e) { e += 1; }
        used.push(r);
        let mut emit = |e: usize, k: String| out += &format!("\n{pos} {e} {k}");
        match &d.rules[r].2 {
            Act::Emit(l) => emit(e, format!("'{l}'")),
            Act::Skip => {}
            Act::Begin(s, l) => { st = *s; if let Some(l) = l { emit(e, format!("'{l}'")); } }
            Act::Less(l) => { e = pos + text[pos..].chars().next().unwrap().len_utf8(); emit(e, format!("'{l}'")) }
            Act::Kw(l) => { let w = text[pos..e].to_ascii_lowercase(); emit(e, d.kw.iter().find(|k| k.0 == w).map_or(format!("'{l}'"), |k| k.1.clone())) }
            Act::Parity(l) => emit(e, format!("'{l}{}'", if (e - pos) % 2 == 0 { "e" } else { "o" })),
            Act::Err(l) => return (format!("error {l}"), used),
            Act::End => return (out, used),
            Act::Eof(_) => unreachable!(),
        }
        pos = e;
    }
}

/// What became of a description
enum Built { Ready(Asked), Failed(String), Refused, NoAnswer }
pub struct Bench { slot: Option<Slot>, of: u64, built: Built, bin: u64, model: Option<(Desc, Vec<Matcher>)> }
pub fn bench() -> PerThread<Bench> { PerThread::new(|| Bench { slot: None, of: 0, built: Built::NoAnswer, bin: 0, model: None }) }

const LIBRARY: (&str, &str) = ("crates/postgresql-cst-parser", "src/lexer");
const GENERATOR: (&str, &str) = ("crates/parser-generator", "src/parser_generator/lexer");

fn make_scanner(slot: &Slot, scan_l: &str, kwlist: &str, copy: (&str, &str), n: u64) -> Result<Asked, Option<String>> {
    slot.put("crates/lexer-generator/resources/scan.l", scan_l);
    slot.put("crates/lexer-generator/resources/kwlist.h", kwlist);
    match slot.cargo("lexer-generator") { Some((true, _)) => {} Some((false, e)) => panic!("harness: the lexer generator does not build: {}", first_error(&e)), None => return Err(None) }
    let out = slot.tree(copy.0).join(copy.1);
    std::fs::write(out.join("generated.rs"), "compile_error!{\"not written\"}").unwrap();
    match slot.generator("lexer-generator") { Some((true, _)) => {} Some((false, e)) => return Err(Some(format!("generator: the lexer generator fails: {}", first_error(&e)))), None => return Err(None) }
    let w = slot.dir.join("worker");
    let _ = std::fs::remove_dir_all(&w);
    std::fs::create_dir_all(&w).unwrap();
    std::fs::write(w.join("main.rs"), include_str!("lexer_worker.rs.in")).unwrap();
    std::os::unix::fs::symlink(slot.tree(copy.0).join(format!("{}.rs", copy.1)), w.join("lexer.rs")).unwrap();
    std::os::unix::fs::symlink(&out, w.join("lexer")).unwrap();
    let edition = std::fs::read_to_string(slot.tree(copy.0).join("Cargo.toml")).unwrap_or_default().lines().find_map(|l| l.strip_prefix("edition = \"").map(|e| e.trim_end_matches('"').to_string())).unwrap_or("2021".into());
    let bin = slot.dir.join(format!("scanner-{n}"));
    match run(Command::new("rustc").current_dir(&w).args(["--edition", &edition, "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "main.rs", "-o"]).arg(&bin), Duration::from_secs(200)) {
        Some((true, _)) => { let a = Asked::start(&bin); let _ = std::fs::remove_file(&bin); Ok(a) }
        Some((false, e)) => Err(Some(format!("compile: the generated scanner does not compile: {}", first_error(&e)))),
        None => Err(None),
    }
}
/// does the machinery work on the tree as it is?
pub fn baseline() -> Result<(), String> {
    let slot = Slot::acquire("lex");
    let read = |p: &str| std::fs::read_to_string(format!("/repo/{p}")).map_err(|e| format!("{p}: {e}"));
    let (s, k) = (read("crates/lexer-generator/resources/scan.l")?, read("crates/lexer-generator/resources/kwlist.h")?);
    let r = fw::quietly(|| [LIBRARY, GENERATOR].into_iter().try_for_each(|c| make_scanner(&slot, &s, &k, c, 0).map(|_| ()).map_err(|e| e.unwrap_or("no answer in time".into()))))?;
    r?;
    slot.share("lex");
    Ok(())
}

pub fn scans(benches: &PerThread<Bench>, i: &[String]) -> Verdict {
    benches.with(|b| {
        let text_at = i.chunks(5).position(|c| c[0] == "text").unwrap_or(i.len() / 5) * 5;
        let (desc, texts) = i.split_at(text_at.min(i.len()));
        let h = fw::hash(desc) | 1;
        if b.of != h {
            let Some(d) = read(desc) else { return Verdict::Skip };
            let Some(m) = reference(&d) else { return Verdict::Skip };
            b.built = Built::NoAnswer; // ends the process before
            let slot = b.slot.get_or_insert_with(|| Slot::acquire("lex"));
            b.bin += 1;
            b.built = match make_scanner(slot, &d.scan_l, &d.kwlist, if h & 2 == 0 { LIBRARY } else { GENERATOR }, b.bin) { Ok(a) => Built::Ready(a), 
                // more states than the scanner can number: the generator may say so
                Err(Some(e)) if e.starts_with("generator:") && m.iter().any(|m| m.num_states() > 60) => Built::Refused,
                Err(Some(e)) => Built::Failed(e), Err(None) => Built::NoAnswer };
            b.model = Some((d, m));
            b.of = h;
        }
        let (d, m) = b.model.as_mut().unwrap();
        let (mut kinds, mut tokens) = (std::collections::HashSet::new(), 0);
        for c in texts.chunks(5) {
            if c.len() != 5 || c[0] != "text" || c[1].contains('\0') { return Verdict::Skip; }
            let (want, used) = expected(d, m, &c[1]);
            tokens += used.len();
            kinds.extend(used);
            let got = match &mut b.built {
                Built::Failed(e) => return Verdict::Fail(format!("{e}\n--- scan.l\n{}", d.scan_l)),
                Built::NoAnswer | Built::Refused => return Verdict::Skip,
                Built::Ready(a) => a.ask(&c[1]),
            };
            let got = match got { Ok(g) => g, Err(e) => { b.of = 0; return Verdict::Fail(format!("{e}: the generated scanner {e} on {:?}, expected\n{want}\n--- scan.l\n{}", c[1], d.scan_l)); } };
            let same = match want.strip_prefix("error ") { Some(l) => got.starts_with("error ") && got.contains(l), None => got == want };
            if !same { return Verdict::Fail(format!("tokens: the text {:?} is scanned as\n{got}\nexpected\n{want}\n--- scan.l\n{}", c[1], d.scan_l)); }
        }
        if let Built::Failed(e) = &b.built { return Verdict::Fail(format!("{e}\n--- scan.l\n{}", d.scan_l)); }
        Verdict::Ok(kinds.len() >= 2 && tokens >= 3)
    })
}

// ---------------------------------------------------------------- generator
const STATES: &[&str] = &["xb", "xc", "xqs", "xdolq", "A", "str_1", "INITIAL2", "quote", "other", "Xx", "z9", "state", "eof", "comment", "x", "xq", "str", "INIT", "xcc", "quote2", "a", "xdolqinside"];
const WORDS: &[&str] = &["select", "a", "ab", "abc", "b", "x", "abab", "e", "x9", "as_", "insert", "ba", "static", "bab", "xx", "current_timestamp", "a_word_longer_than_all_of_them", "x_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789", "generated_always_as", "z", "p_p_"];
struct Made { case: Vec<String>, res: Vec<Re>, words: Vec<String> }
fn make(r: &mut Rng) -> Made {
    let mut case: Vec<[String; 5]> = vec![];
    let row = |k: &str, a: &str, b: &str, c: &str, l: &str| [k.to_string(), a.to_string(), b.to_string(), c.to_string(), l.to_string()];
    let kind = r.below(12);
    let mut states = vec!["INITIAL".to_string()];
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 5, 12]) { let s = r.pick::<&str>(STATES).to_string(); if !states.contains(&s) { states.push(s); } }
    let alpha: Vec<u8> = if r.chance(1, 2) { b"ab".to_vec() } else { b"abcxX019_'e".to_vec() };
    let mut g = Gen { r, names: vec![], alpha };
    for s in &states[1..] { case.push(row("x", s, "", "", "")); }
    let plain = |t: &str| !t.contains("\"#") && !t.contains(char::is_whitespace) && !t.starts_with("%%");
    for k in 0..g.r.below(5) {
        let d = g.r.below(3);
        let (re, t) = g.re(d, 0);
        if size(&re) > 40 || !plain(&t) { continue; }
        let name = format!("{}{}", *g.r.pick(&["n", "dec_digit", "X", "ident9_", "State"]), k);
        let gap = *g.r.pick::<&str>(&["\t", "\t\t", "\t\t\t", "\t "]);
        case.push(row("def", &name, &t, gap, ""));
        g.names.push((name, re));
    }
    if g.r.chance(1, 2) { let n = g.r.below(case.len() + 1); let j = *g.r.pick::<&str>(&["", "/*\n * comment {x} %x no\n */", "%option 8bit", "%{\n#define X 1\nfoo\tbar\n%}"]); case.insert(n, row("junk", j, "", "", "")); }
    let mut res = vec![];
    let mut rules: Vec<[String; 5]> = vec![];
    let sets = |g: &mut Gen| -> String { let mut v: Vec<String> = states.iter().filter(|_| g.r.chance(1, 2)).cloned().collect(); if v.is_empty() || g.r.chance(1, 3) { v = vec![g.r.pick(&states).clone()]; } if g.r.chance(1, 4) { v.reverse(); } v.join(",") };
    let act = |g: &mut Gen, n: usize| -> String {
        let s = g.r.pick(&states).clone();
        match g.r.below(24) { 0..=7 => format!("emit r{n}"), 8 | 9 => format!("emit1 r{n}"), 10 => "skip".into(), 11 => "skip1".into(), 12 | 13 => format!("begin {s}"), 14 | 15 => format!("begin {s} b{n}"), 16 => format!("less l{n}"), 17 | 18 => format!("kw k{n}"), 19 => format!("err e{n}"), 20 => "end".into(), 21 | 22 => format!("parity p{n}"), _ => "|".into() }
    };
    let count = match kind { 0 => g.r.range(120, 225), 1 => g.r.range(20, 60), _ => g.r.range(1, 14) };
    for n in 0..count {
        let (re, t) = if kind <= 1 && g.r.chance(9, 10) || kind == 2 && g.r.chance(1, 2) {
            // many literal words: many rules, or many states
            let l = if kind == 2 { g.r.range(4, 14) } else { g.r.range(1, 3) };
            let s: String = (0..l).map(|_| *g.r.pick(&['a', 'b', 'c', 'd', 'e', '0', '_', 'z', 'Z', '9'])).collect();
            (Re::Cat(s.bytes().map(refimpl::rx::byte).collect()), s)
        } else {
            let d = *g.r.pick(&[0usize, 1, 1, 2, 3]);
            let mut x = g.re(d, 0);
            if size(&x.0) > 120 { x = g.re(0, 0); }
            x
        };
        if !plain(&t) { continue; }
        res.push(re);
        let l = format!("{}{}{}", if g.r.chance(1, 4) { "b" } else { "" }, if g.r.chance(1, 5) { "s" } else { "" }, if g.r.chance(1, 8) { "e" } else if g.r.chance(1, 8) { "p" } else { "" });
        let st = match rules.last() { Some(p) if p[4].contains('b') && g.r.chance(2, 3) => p[1].clone(), _ => sets(&mut g) };
        let a = act(&mut g, n);
        rules.push(row("rule", &st, &t, &a, &l));
    }
    if g.r.chance(2, 3) {
        // words
        let t = *g.r.pick::<&str>(&["[a-zA-Z_][a-zA-Z0-9_]*", "[A-Za-z\\200-\\377_]+", "[a-z0-9_]+"]);
        let defs: HashMap<String, String> = HashMap::new();
        if valid(t, &[]) {
            res.push(PatParser::parse(t, &defs));
            let k = g.r.below(rules.len() + 1);
            let s = sets(&mut g);
            rules.insert(k, row("rule", &s, t, "kw w", ""));
        }
    }
    // the ends: for all conditions together or for each alone, in any place among the rules
    let r = g.r;
    let mut groups: Vec<Vec<usize>> = vec![];
    for s in 0..states.len() { if groups.is_empty() || r.chance(1, 2) { groups.push(vec![s]) } else { let k = r.below(groups.len()); groups[k].push(s) } }
    for v in groups {
        let names = v.iter().map(|s| states[*s].clone()).collect::<Vec<_>>().join(",");
        let max = *v.iter().max().unwrap();
        let a = if max + 1 < states.len() && r.chance(1, 3) { format!("eof {}", states[r.range(max + 1, states.len() - 1)]) } else if r.chance(1, 8) { format!("err end{max}") } else { "end".into() };
        let k = r.below(rules.len() + 1);
        // not after a shared action, which is no end's
        let k = (0..=k).rev().find(|k| *k == 0 || rules[*k - 1][3] != "|").unwrap();
        rules.insert(k, row("rule", &names, "<<EOF>>", &a, if r.chance(1, 4) { "b" } else { "" }));
    }
    for s in 0..states.len() { let a = match r.below(6) { 0 => "skip".into(), 1 => format!("err bad{s}"), 2 => format!("less any{s}"), _ => format!("emit any{s}") }; rules.push(row("rule", &states[s], "(.|\\n)", &a, "")); }
    let mut words: Vec<String> = vec![];
    for _ in 0..r.below(12) { let w = r.pick::<&str>(WORDS).to_string(); if !words.contains(&w) { words.push(w); } }
    case.extend(rules);
    for (n, w) in words.iter().enumerate() { case.push(row("kw", w, &format!("{}{}", w.to_uppercase(), r.pick::<&str>(&["", "_P", "_9"])), if n % 3 == 0 { "\t " } else { " " }, "")); }
    Made { case: case.concat(), res, words }
}
fn text(r: &mut Rng, m: &Made) -> String {
    let mut t: Vec<u8> = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 6, 15]) {
        match r.below(10) {
            0 => t.push(*r.pick(b"ab0 \n'cx_")),
            1 => t.extend(r.pick::<&str>(&["é", "表", "\u{10000}", "\u{ff}", "\u{80}", "\n", "\r", "\u{7f}", "À"]).bytes()),
            2 if !m.words.is_empty() => { if r.chance(1, 2) { t.push(*r.pick(b" '\n0-")); } let w = r.pick(&m.words).clone(); t.extend(if r.chance(1, 3) { w.to_uppercase() } else { w }.bytes()); }
            3 => { let n = r.range(1, 9); let c = *r.pick(b"ab0x"); for _ in 0..n { t.push(c); } }
            4 => t.push(1 + r.below(255) as u8),
            _ => if !m.res.is_empty() { let re = r.pick(&m.res).clone(); sample(r, &re, &mut t); let k = t.len(); if r.chance(1, 6) && k > 0 { t.truncate(k - 1); } }
        }
    }
    let mut s = String::from_utf8_lossy(&t).into_owned();
    if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); }
    s
}
pub fn explore(c: &Check) {
    let seed = c.cfg.seed;
    let texts = if c.cfg.thorough() { 3000 } else { 600 };
    c.stage_chunk("generated descriptions", c.cfg.n(256, 12_000), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x27a, i);
        let m = make(&mut r);
        let Some(d) = read(&m.case) else { panic!("harness: a generated description is outside the supported form: {:?}", m.case) };
        if reference(&d).is_none() { w.count("descriptions set aside for their number of states", 1); return; }
        w.count("descriptions", 1);
        for n in 0..texts {
            // the texts of a few together, too
            let mut v = m.case.clone();
            for _ in 0..if n == 0 { 4 } else { 1 } { v.push("text".into()); v.push(text(&mut r, &m)); v.extend(["", "", ""].map(String::from)); }
            if !w.eval("scans", v) { return; }
        }
    });
}
