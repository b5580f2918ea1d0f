//! P20. A case is a list of pieces [kind, text, gap], from which the grammar file is printed and the model is built:
//!   token/type/left/right/nonassoc: text = words separated by one space, gap = the gaps before them, separated by \u{1}
//!   junk: text = something between declarations that declares nothing
//!   head NAME: gap, name, ":"    sym, prec, act: gap and the symbol, %prec NAME, the action
//!   bar, end: gap and "|" or ";"  rest: a line after the second %%
use crate::parser_generator::verif::read_grammar;
use fw::{rel, Cfg, Check, Verdict};
use refimpl::grammar::{self, Assoc};
use refimpl::r#gen::Rng;
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, PartialEq, Clone, Default)]
struct Model {
    rules: Vec<(String, Vec<(bool, String)>, Option<String>)>,
    tokens: BTreeMap<String, Option<String>>,
    types: BTreeMap<String, String>,
    assoc: BTreeMap<String, (usize, String)>,
}

const JUNK: &[&str] = &[
    "", "\n", "/* %left A\n%token <str> HIDDEN\n   more words */", "// %right NOT_THERE", "%union\n{\n\tint\t\tival;\n\t/* a } comment */\n\tchar\t   *str;\n}", "%pure-parser\n%expect 0\n%name-prefix=\"base_yy\"\n%locations",
    "%{\n#define YYDEBUG 1\nstatic int x;\n\n%}", "%parse-param {core_yyscan_t yyscanner}", "/*\n *\tPrecedence: lowest to highest\n */", "/*%%*/", "/*/ odd */", "/***/", "/*\n%% not yet\n*/", "/* it's a \"quote */", "/* é 表 */", "\r", "/**/ /* two */ // three",
];
const REST: &[&str] = &["", "a: b ;", "%token LATE", "/* open", "static int f(void) { return 1; }", "%%", "'", "{"];

/// white space and comments only
fn trivia(g: &str) -> bool {
    let c: Vec<char> = g.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' || c[i] == '\t' || c[i] == '\n' || c[i] == '\r' && c.get(i + 1) == Some(&'\n') { i += 1; continue; }
        if c[i..].starts_with(&['/', '*']) {
            i += 2;
            while i < c.len() && !c[i..].starts_with(&['*', '/']) { i += 1; }
            if i >= c.len() { return false; }
            i += 2;
        } else if c[i..].starts_with(&['/', '/']) {
            while i < c.len() && c[i] != '\n' { i += 1; }
            if i >= c.len() { return false; }
        } else { return false; }
    }
    !g.contains("\n%%")
}
/// a gap between the words of a declaration: whatever follows a newline is indented or a comment
fn decl_gap(g: &str) -> bool {
    if !trivia(g) || g.is_empty() { return false; }
    // outside comments, the last line is not empty
    let mut flat = String::new();
    let c: Vec<char> = g.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i..].starts_with(&['/', '*']) { i += 2; while !c[i..].starts_with(&['*', '/']) { i += 1; } i += 2; flat.push(' '); }
        else if c[i..].starts_with(&['/', '/']) { while c[i] != '\n' { i += 1; } flat.push(' '); }
        else { flat.push(c[i]); i += 1; }
    }
    !flat.ends_with('\n')
}
fn action(a: &str) -> bool {
    let c: Vec<char> = a.chars().collect();
    if c.first() != Some(&'{') || a.contains("\n%%") { return false; }
    let (mut i, mut d) = (0, 0);
    while i < c.len() {
        if c[i..].starts_with(&['/', '*']) { i += 2; while i < c.len() && !c[i..].starts_with(&['*', '/']) { i += 1; } i += 2; continue; }
        if c[i..].starts_with(&['/', '/']) { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        match c[i] {
            '\'' | '"' => { let q = c[i]; i += 1; while i < c.len() && c[i] != q && c[i] != '\n' { if c[i] == '\\' { i += 1; } i += 1; } if c.get(i) != Some(&q) { return false; } }
            '{' => d += 1,
            '}' => { d -= 1; if d == 0 { return i + 1 == c.len(); } }
            _ => {}
        }
        i += 1;
    }
    false
}
fn ident(n: &str) -> bool { n.starts_with(|c: char| c.is_ascii_alphabetic()) && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }
fn literal(n: &str) -> bool {
    let c: Vec<char> = n.chars().collect();
    match c.as_slice() { ['\'', x, '\''] => !matches!(x, '\'' | '\\' | '\n'), ['\'', '\\', x, '\''] => matches!(x, '\'' | '\\' | 'n' | 't' | '"'), _ => false }
}
fn symbol(n: &str) -> bool { ident(n) || literal(n) }
fn bare(n: &str) -> String { n.trim_matches('\'').to_string() }

fn print(items: &[String]) -> Option<(String, Model)> {
    if items.len() % 3 != 0 { return None; }
    let heads: HashSet<&str> = items.chunks(3).filter(|i| i[0] == "head").map(|i| i[1].as_str()).collect();
    let mut m = Model::default();
    let mut s = String::new();
    let mut section = 0;
    let mut level = 0;
    // in a rule: its name, and what was last printed in the alternative
    let mut head: Option<String> = None;
    let mut cur: (Vec<(bool, String)>, Option<String>) = Default::default();
    let mut acted = false;
    let mut glued = ' ';
    for i in items.chunks(3) {
        let [k, t, g] = i else { return None };
        match k.as_str() {
            "token" | "type" | "left" | "right" | "nonassoc" => {
                if section > 0 { return None; }
                let words: Vec<&str> = t.split(' ').collect();
                let gaps: Vec<&str> = g.split('\u{1}').collect();
                s += &format!("%{k}");
                let tag = words[0].strip_prefix('<').and_then(|w| w.strip_suffix('>'));
                if tag.is_some_and(|t| !ident(t)) || tag.is_some() && (k != "token" && k != "type") || tag.is_none() && k == "type" { return None; }
                let names = &words[tag.is_some() as usize..];
                if names.is_empty() || !names.iter().all(|n| if k == "type" { ident(n) } else { symbol(n) && !heads.contains(n) }) { return None; }
                for (j, w) in words.iter().enumerate() {
                    let gap = gaps[j % gaps.len()];
                    if j == 0 && (gap.contains('\n') || !gap.starts_with([' ', '\t'])) || !decl_gap(gap) { return None; }
                    s += gap;
                    s += w;
                }
                s.push('\n');
                level += 1;
                for n in names {
                    let old = match k.as_str() {
                        "token" => m.tokens.insert(n.to_string(), tag.map(String::from)).is_some(),
                        "type" => m.types.insert(n.to_string(), tag.unwrap().to_string()).is_some(),
                        _ => m.assoc.insert(n.to_string(), (level, match k.as_str() { "left" => "Left", "right" => "Right", _ => "NonAssoc" }.to_string())).is_some(),
                    };
                    if old { return None; }
                }
            }
            "junk" => { if section > 0 || !JUNK.contains(&t.as_str()) { return None; } s += t; s.push('\n'); }
            "rest" => { if head.is_some() || section == 0 || !REST.contains(&t.as_str()) { return None; } if section == 1 { s += "\n%%\n"; section = 2; } s += t; s.push('\n'); }
            _ => {
                if section == 0 { s += "%%\n"; section = 1; }
                if section != 1 || !trivia(g) { return None; }
                // a gap may start a comment only if nothing glues to it
                s += g;
                if !g.is_empty() { glued = ' '; }
                let mut finish = |m: &mut Model, head: &str| { let (c, p) = std::mem::take(&mut cur); m.rules.push((head.to_string(), c, p)); };
                match k.as_str() {
                    "head" => { if head.is_some() || !ident(t) || glued == 'a' { return None; } s += t; if g.contains('\n') { s += g; } s.push(':'); head = Some(t.clone()); acted = false; glued = ':'; }
                    "sym" => {
                        if head.is_none() || !symbol(t) || acted || ident(t) && glued == 'a' { return None; }
                        s += t;
                        glued = if ident(t) { 'a' } else { '\'' };
                        cur.0.push((!heads.contains(t.as_str()), bare(t)));
                    }
                    "prec" => {
                        if head.is_none() || !symbol(t) || heads.contains(t.as_str()) || cur.1.is_some() { return None; }
                        s += "%prec";
                        s += if g.is_empty() { " " } else { g };
                        s += t;
                        glued = if ident(t) { 'a' } else { '\'' };
                        cur.1 = Some(bare(t));
                    }
                    "act" => { if head.is_none() || acted || !action(t) { return None; } s += t; acted = true; glued = '}'; }
                    "bar" => { finish(&mut m, head.as_ref()?); acted = false; s.push('|'); glued = '|'; }
                    "end" => { finish(&mut m, &head.take()?); s.push(';'); glued = ';'; }
                    _ => return None,
                }
            }
        }
    }
    if head.is_some() || section == 0 { return None; }
    if section == 1 { s.push('\n'); }
    Some((s, m))
}

/// what the reader makes of `text`, with levels numbered 1, 2, ...
fn actual(text: &str) -> Model {
    let g = read_grammar(text);
    let mut levels: Vec<usize> = g.assoc.values().map(|a| a.0).collect();
    levels.sort();
    levels.dedup();
    Model {
        rules: g.rules.into_iter().map(|r| (r.name, r.components.into_iter().map(|(t, n)| (t, if t { bare(&n) } else { n })).collect(), r.prec.map(|p| bare(&p)))).collect(),
        tokens: g.tokens,
        types: g.types,
        assoc: g.assoc.into_iter().map(|(k, (l, d))| (k, (levels.binary_search(&l).unwrap() + 1, d))).collect(),
    }
}
fn ranked(mut m: Model) -> Model {
    let mut levels: Vec<usize> = m.assoc.values().map(|a| a.0).collect();
    levels.sort();
    levels.dedup();
    for a in m.assoc.values_mut() { a.0 = levels.binary_search(&a.0).unwrap() + 1; }
    m
}
fn compare(want: &Model, got: &Model, text: &str) -> Option<Verdict> {
    fn first<T: std::fmt::Debug + PartialEq>(what: &str, a: &[T], b: &[T], text: &str) -> Option<Verdict> {
        if a == b { return None; }
        let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let near = if text.len() < 4000 { format!("\n--- source:\n{text}") } else { String::new() };
        Some(Verdict::Fail(format!("{what}: number {k} of {} written is {:?}, of {} read {:?}{near}", a.len(), a.get(k), b.len(), b.get(k))))
    }
    fn v<K: Clone, V: Clone>(m: &BTreeMap<K, V>) -> Vec<(K, V)> { m.iter().map(|(a, b)| (a.clone(), b.clone())).collect() }
    first("productions", &want.rules, &got.rules, text)
        .or_else(|| first("tokens", &v(&want.tokens), &v(&got.tokens), text))
        .or_else(|| first("types", &v(&want.types), &v(&got.types), text))
        .or_else(|| first("precedence", &v(&want.assoc), &v(&got.assoc), text))
}

fn reads_back(items: &[String]) -> Verdict {
    let Some((text, m)) = print(items) else { return Verdict::Skip };
    if m.rules.is_empty() { return Verdict::Skip; }
    let m = ranked(m);
    compare(&m, &actual(&text), &text).unwrap_or(Verdict::Ok(m.rules.len() >= 3 && items.len() >= 30))
}

/// the reference reader's result in the same form
fn reference(text: &str) -> Model {
    let g = grammar::read(text);
    let heads: HashSet<String> = g.rules.iter().map(|r| r.lhs.clone()).collect();
    let mut m = Model::default();
    for r in &g.rules { m.rules.push((r.lhs.clone(), r.rhs.iter().map(|n| (!heads.contains(n), bare(n))).collect(), r.prec.as_ref().map(|p| bare(p)))); }
    for (l, (a, names)) in g.assoc.iter().enumerate() { for n in names { m.assoc.insert(n.clone(), (l + 1, match a { Assoc::Left => "Left", Assoc::Right => "Right", _ => "NonAssoc" }.to_string())); } }
    for n in &g.tokens { m.tokens.insert(n.clone(), None); }
    for n in &g.types { m.types.insert(n.clone(), String::new()); }
    m
}
/// PostgreSQL's grammar in parts
struct Parts { text: String, decls: Vec<String>, rules: Vec<String> }
fn parts(dir: &std::path::Path) -> Parts {
    let text = std::fs::read_to_string(dir.join("spec/gram.y")).expect("harness: spec/gram.y");
    let body = &text[text.find("\n%%").unwrap() + 4..];
    let body = &body[..body.find("\n%%").unwrap()];
    let decls = text[text.find("\n%type").unwrap() + 2..text.find("\n%%").unwrap()].split("\n%").map(|d| format!("%{d}\n")).collect();
    let mut rules: Vec<String> = vec![];
    let mut cur = String::new();
    for l in body.lines() {
        cur += l;
        cur.push('\n');
        if l.trim() == ";" { rules.push(std::mem::take(&mut cur)); }
    }
    Parts { text, decls, rules }
}
/// [numbers of declarations ("all": the whole file), numbers of rule blocks, seed of a layout change]: both readers agree
fn like_reference(p: &Parts, i: &[String]) -> Verdict {
    let text = if i[0] == "all" { p.text.clone() } else {
        let pick = |s: &str, v: &[String]| -> Option<String> { s.split_whitespace().map(|n| n.parse::<usize>().ok().and_then(|n| v.get(n)).cloned()).collect() };
        let (Some(d), Some(r)) = (pick(&i[0], &p.decls), pick(&i[1], &p.rules)) else { return Verdict::Skip };
        let mut n: Vec<&str> = i[0].split_whitespace().collect();
        n.sort();
        // declaring a symbol twice is an error
        if r.is_empty() || n.windows(2).any(|w| w[0] == w[1]) { return Verdict::Skip; }
        format!("{d}\n%%\n{r}\n%%\n")
    };
    let text = relay(&text, &i[2]);
    let mut want = reference(&text);
    let mut got = actual(&text);
    // the reference reader does not keep tags
    for v in got.tokens.values_mut() { *v = None; }
    for v in got.types.values_mut() { v.clear(); }
    want = ranked(want);
    compare(&want, &got, &text).unwrap_or(Verdict::Ok(want.rules.len() > 3))
}
/// insert comments and white space at some line ends of the rules section, and change actions
fn relay(text: &str, seed: &str) -> String {
    let Ok(seed) = seed.parse::<u64>() else { return text.to_string() };
    if seed == 0 { return text.to_string(); }
    let mut r = Rng::new(seed, 77);
    let Some(start) = text.find("\n%%") else { return text.to_string() };
    let (head, body) = text.split_at(start + 3);
    let (body, tail) = match body.find("\n%%") { Some(e) => body.split_at(e), None => (body, "") };
    // pieces of the body outside comments, literals and actions
    let c: Vec<char> = body.chars().collect();
    let mut out = String::from(head);
    let mut i = 0;
    let mut depth = 0;
    while i < c.len() {
        let st = i;
        if c[i..].starts_with(&['/', '*']) { while !c[i..].starts_with(&['*', '/']) { i += 1; } i += 2; out.extend(&c[st..i]); continue; }
        if c[i..].starts_with(&['/', '/']) { while c[i] != '\n' { i += 1; } out.extend(&c[st..i]); continue; }
        if c[i] == '\'' || c[i] == '"' { let q = c[i]; i += 1; while c[i] != q { if c[i] == '\\' { i += 1; } i += 1; } i += 1; out.extend(&c[st..i]); continue; }
        if c[i] == '{' { depth += 1; if r.chance(1, 40) { out.push('{'); out += r.pick::<&str>(ACTS); out.push('}'); } }
        if c[i] == '}' { depth -= 1; }
        i += 1;
        if depth == 0 && (c[st] == ' ' || c[st] == '\t' || c[st] == '\n') && r.chance(1, 30) { out.push(c[st]); out += &gap(&mut r); out.push(' '); } else { out.push(c[st]); }
        if c[st] == '{' && r.chance(1, 40) { out += &format!("{{{}}}", r.pick::<&str>(ACTS)); }
    }
    out + tail
}

// ---------------------------------------------------------------- generators
const NONTERMS: &[&str] = &["stmt", "a_expr", "b_expr", "opt_list", "A", "x1", "TableRef", "e", "IDENT_list", "Op_", "prec"];
const TERMS: &[&str] = &["IDENT", "Op", "SELECT", "WITH_LA", "SCONST", "ICONST", "EOF", "NULL_P", "T", "t_2", "LESS_EQUALS", "UMINUS", "empty", "'+'", "'('", "')'", "','", "';'", "':'", "'|'", "'{'", "'}'", "'%'", "'/'", "'*'", "'<'", "'\\''", "'\\\\'", "'\"'", "'.'", "'='", "'é'", "'#'", "' '"];
const ACTS: &[&str] = &["", " $$ = $1; ", " /* } */ ", " // {\n", " '}' ", " \"}\" ", " '\\'' ", " \"\\\"{\" ", " if (x) { y; } else { z; } ", " {} ", " a / b; ", " /* it's */ ", " \"/*\" ", " '/' ", " \"//\" ", " | ; : %prec X ", "\n\t$$ = list_make1($1);\n", " \"%%\" ", " é '表' ", " /*/ } */ ", " a /* x */ / b ", " x = '\"'; y = '\"'; ", " \"'\" ", "/**/", " {{{}{}}} "];
fn gap(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) { s += r.pick::<&str>(&[" ", " ", "\t", "\n", "\n\t\t\t", " /* c */ ", "/* ; | : ' \" { */", "// ; : | '\n", "/*EMPTY*/", "/* it's */", "\r\n", "/*** x ***/", "/*/ ; */", " /* \n * two } lines\n */\n", "// /* not a comment\n", "/* // */", "/**/", "/* %prec X */", "/* é表 */", "//\n"]); }
    s
}
fn dgap(r: &mut Rng, first: bool) -> String {
    if first { return r.pick::<&str>(&[" ", "\t", "\t\t", "  ", "\t/* tag */ ", " /**/"]).to_string(); }
    match r.below(8) { 0 => "\n\t\t".into(), 1 => r.pick::<&str>(&["\n\n\t", "\t/* c */\n\t ", "/*x*/", " // c\n\t", " /* a\n b c */ ", "\n/* at the start */ ", "\n  \n\t", " /* it's */\n\n\n  ", "\r\n\t", "\n /* %left X */\n "]).to_string(), _ => r.pick::<&str>(&[" ", " ", "\t", "  "]).to_string() }
}
fn make(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let nn = r.range(1, 6);
    let nts: Vec<String> = { let mut n: Vec<String> = vec![]; while n.len() < nn { let x = format!("{}{}", r.pick::<&str>(NONTERMS), if r.chance(1, 2) { String::new() } else { r.below(30).to_string() }); if !n.contains(&x) { n.push(x); } } n };
    let mut ts: Vec<String> = vec![];
    for _ in 0..r.range(1, 8) { let x = if r.chance(1, 3) { format!("K{}_P", r.below(50)) } else { r.pick::<&str>(TERMS).to_string() }; if !ts.contains(&x) && !nts.contains(&x) { ts.push(x); } }
    let mut push = |k: &str, t: String, g: String| v.extend([k.to_string(), t, g]);
    let mut free: Vec<String> = ts.clone();
    let (mut tokens, mut types) = (ts.clone(), nts.clone());
    for _ in 0..r.below(9) {
        let take = |r: &mut Rng, from: &mut Vec<String>| -> Vec<String> { let mut w = vec![]; for _ in 0..r.range(1, 4) { if from.is_empty() { break; } let k = r.below(from.len()); w.push(from.remove(k)); } w };
        let (k, mut words) = match r.below(7) {
            0 | 1 => ("junk", vec![]),
            2 => ("token", take(r, &mut tokens)),
            3 => ("type", take(r, &mut types)),
            _ => (*r.pick(&["left", "right", "nonassoc"]), take(r, &mut free)),
        };
        if k == "junk" { let j = r.pick::<&str>(JUNK).to_string(); push("junk", j, String::new()); continue; }
        if words.is_empty() || words.iter().any(|w| w.contains(' ')) { continue; }
        if k == "type" || k == "token" && r.chance(2, 3) { words.insert(0, format!("<{}>", r.pick::<&str>(&["str", "node", "ival", "list", "t_1"]))); }
        let gaps: Vec<String> = (0..words.len()).map(|j| dgap(r, j == 0)).collect();
        push(k, words.join(" "), gaps.join("\u{1}"));
    }
    for _ in 0..*r.pick(&[1usize, 1, 2, 3, 5, 8]) {
        let (h, g) = (r.pick(&nts).clone(), gap(r));
        push("head", h, g);
        let alts = *r.pick(&[1usize, 1, 2, 3, 4]);
        for a in 0..alts {
            if a > 0 { let g = gap(r); push("bar", String::new(), g); }
            let mut glue = ' ';
            let prec_at = if r.chance(1, 4) { r.below(4) } else { 9 };
            let n = *r.pick(&[0usize, 1, 2, 2, 3, 5]);
            let sep = |r: &mut Rng, x: &str, glue: char| { let g = gap(r); if g.is_empty() && glue == 'a' && !x.starts_with('\'') || g.is_empty() && r.chance(3, 4) { " ".to_string() } else { g } };
            let prec = |r: &mut Rng, glue: char| { let t = if ts.is_empty() || r.chance(1, 4) { "UMINUS_P".to_string() } else { r.pick(&ts).clone() }; let g = sep(r, &t, glue); (t, g) };
            for j in 0..n {
                if j == prec_at { let (t, g) = prec(r, glue); glue = if t.starts_with('\'') { '\'' } else { 'a' }; push("prec", t, g); }
                let x = if r.chance(1, 2) { r.pick(&nts).clone() } else if r.chance(1, 12) || ts.is_empty() { "other".to_string() } else { r.pick(&ts).clone() };
                let g = sep(r, &x, glue);
                glue = if x.starts_with('\'') { '\'' } else { 'a' };
                push("sym", x, g);
            }
            if prec_at >= n && prec_at < 9 { let (t, g) = prec(r, glue); push("prec", t, g); }
            if r.chance(1, 2) {
                let mut a = String::from("{");
                for _ in 0..*r.pick(&[0usize, 1, 1, 2, 4]) { a += r.pick::<&str>(ACTS); }
                a.push('}');
                let g = gap(r);
                push("act", a, g);
            }
        }
        let g = gap(r);
        push("end", String::new(), g);
    }
    if r.chance(1, 3) { for _ in 0..r.range(1, 3) { let t = r.pick::<&str>(REST).to_string(); push("rest", t, String::new()); } }
    v
}

pub fn build(cfg: Cfg) -> Check {
    let p = parts(&cfg.dir);
    let mut c = Check::new(cfg, "grammar files generated as models (declarations, precedence levels, rules with alternatives, character literals, %prec, semantic actions with nested braces, comments and literals), printed in varying layout and read back; oracle: the model; also PostgreSQL's grammar and fragments of it with changed layout and actions, against an independent reader; non-trivial: at least three productions",
        vec![rel("reads back", 3, 0, reads_back), rel("reads as the reference reader", 0, 0, move |i| like_reference(&p, i))]);
    c.assumptions.push("supported layout: identifiers of ASCII letters, digits and underscores that start with a letter; a declaration's first name on its line, further lines indented or blank; character literals, no string aliases; one action per alternative, at its end; rules end with a semicolon; no %empty, %start, %precedence; %% only at the start of a section".into());
    c
}
pub fn explore(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("PostgreSQL's grammar", c.cfg.n(24, 400), || (), |_, w, i| { w.eval("reads as the reference reader", vec!["all".into(), String::new(), if i == 0 { "0".into() } else { (seed * 1000 + i).to_string() }]); });
    let p = parts(&c.cfg.dir);
    c.stage("fragments of PostgreSQL's grammar", c.cfg.n(150_000, 3_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x20f, i);
        let d: Vec<String> = (0..r.below(6)).map(|_| r.below(p.decls.len()).to_string()).collect();
        let a = r.below(p.rules.len());
        let b: Vec<String> = (0..r.range(1, 8)).map(|k| if r.chance(1, 2) { (a + k) % p.rules.len() } else { r.below(p.rules.len()) }.to_string()).collect();
        let s = r.next() % 1_000_000;
        w.eval("reads as the reference reader", vec![d.join(" "), b.join(" "), s.to_string()]);
    });
    c.stage("generated grammars", c.cfg.n(1_500_000, 40_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x20, i); let v = make(&mut r); w.eval("reads back", v); });
    c.stage("long grammars", c.cfg.n(3_000, 60_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x21, i);
        let (mut a, mut b) = (vec![], vec![]);
        let mut seen = HashSet::new();
        for _ in 0..r.range(5, 30) {
            for t in make(&mut r).chunks(3) {
                match t[0].as_str() {
                    "rest" => {}
                    "junk" => a.extend_from_slice(t),
                    "head" | "sym" | "prec" | "act" | "bar" | "end" => b.extend_from_slice(t),
                    _ => if t[1].split(' ').filter(|w| !w.starts_with('<')).all(|w| seen.insert((t[0] == "token", t[0] == "type", w.to_string()))) { a.extend_from_slice(t) }
                }
            }
        }
        a.extend(b);
        w.eval("reads back", a);
    });
}
