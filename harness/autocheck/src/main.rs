//! P18: compiled lexer automata against a reference regular-expression matcher.
//!
//! A case is a list of pairs: ["def NAME", definition] and ["rule 0,1", pattern] in source order; texts are
//! pairs ["text", ...] where each character stands for the byte of the same number.
use automata::{dfa::{DFA, INVALID_STATE}, to_flex_pattern_dfa, FlexPatternDef, NameDefinition};
use fw::{rel, Cfg, Check, Verdict};
use refimpl::gen::Rng;
use refimpl::pat::{sample, size, valid, Gen};
use refimpl::rx::{Matcher, PatParser, Re};
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

struct Case { defs: Vec<(String, String)>, rules: Vec<(Vec<usize>, String)>, texts: Vec<Vec<u8>>, states: usize }

fn read(i: &[String]) -> Option<Case> {
    if i.len() % 2 != 0 { return None; }
    let (mut defs, mut rules, mut texts) = (vec![], vec![], vec![]);
    for p in i.chunks(2) {
        if let Some(n) = p[0].strip_prefix("def ") { defs.push((n.to_string(), p[1].clone())) }
        else if let Some(s) = p[0].strip_prefix("rule ") { rules.push((s.split(',').map(|x| x.parse().ok()).collect::<Option<Vec<usize>>>()?, p[1].clone())) }
        else { texts.push(p[1].chars().map(|c| u8::try_from(c as u32).ok()).collect::<Option<Vec<u8>>>()?) }
    }
    if rules.is_empty() { return None; }
    let used: BTreeSet<usize> = rules.iter().flat_map(|r| r.0.iter().copied()).collect();
    let states = used.len();
    if used.iter().next_back() != Some(&(states.checked_sub(1)?)) { return None; }
    let names: HashSet<&String> = defs.iter().map(|d| &d.0).collect();
    if names.len() != defs.len() { return None; }
    for (_, d) in &defs { if !valid(d, &defs) { return None; } }
    // definitions may refer to later ones, but not to themselves
    fn cyclic(n: usize, defs: &[(String, String)], depth: usize) -> bool {
        depth > 12 || defs.iter().enumerate().any(|(k, d)| defs[n].1.contains(&format!("{{{}}}", d.0)) && cyclic(k, defs, depth + 1))
    }
    if (0..defs.len()).any(|n| cyclic(n, &defs, 0)) { return None; }
    for (_, p) in &rules { if p != "<<EOF>>" && !valid(p, &defs) { return None; } }
    let map: HashMap<String, String> = defs.iter().cloned().collect();
    if rules.iter().map(|r| size(&PatParser::parse(&r.1, &map))).sum::<u64>() > 6_000 { return None; }
    Some(Case { defs, rules, texts, states })
}

fn compile(c: &Case) -> Vec<DFA> {
    to_flex_pattern_dfa(
        &c.rules.iter().map(|(s, p)| FlexPatternDef { state_set: s.clone(), pattern: p.clone() }).collect::<Vec<_>>(),
        &c.defs.iter().map(|(n, d)| NameDefinition { name: n.clone(), definition: d.clone() }).collect::<Vec<_>>(),
    )
}
fn reference(c: &Case) -> Vec<Matcher> {
    let defs: HashMap<String, String> = c.defs.iter().cloned().collect();
    (0..c.states).map(|s| {
        let v: Vec<(usize, Re)> = c.rules.iter().enumerate().filter(|(_, r)| r.0.contains(&s)).map(|(i, r)| (i, PatParser::parse(&r.1, &defs))).collect();
        Matcher::new(&v)
    }).collect()
}
/// Determinising can take exponentially many states; such sets are left out
fn small(m: &mut [Matcher], limit: usize) -> bool {
    m.iter_mut().all(|m| {
        let mut i = 0;
        while i < m.num_states() { if m.num_states() > limit { return false; } for b in 1..=255u8 { m.walk(i, b); } i += 1; }
        true
    })
}
fn show(b: &[u8]) -> String { b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect() }

/// The automaton of every start condition, compared with the reference over all byte strings.
/// Byte 0 is not part of any text: it marks the end of the input.
fn equivalent(i: &[String], limit: usize) -> Verdict {
    let Some(c) = read(i) else { return Verdict::Skip };
    let mut want = reference(&c);
    if !small(&mut want, limit) { return Verdict::Skip; }
    let got = compile(&c);
    if got.len() != c.states { return Verdict::Fail(format!("conditions: {} automata for {} start conditions", got.len(), c.states)); }
    let mut pairs = 0;
    for s in 0..c.states {
        let (d, m) = (&got[s], &mut want[s]);
        let mut seen: HashMap<(Option<usize>, Option<usize>), Vec<u8>> = HashMap::new();
        let mut q = VecDeque::new();
        q.push_back((Some(0usize), Some(0usize)));
        seen.insert((Some(0), Some(0)), vec![]);
        while let Some((a, b)) = q.pop_front() {
            pairs += 1;
            if pairs > 60_000 { return Verdict::Skip; }
            let path = seen[&(a, b)].clone();
            let x = a.and_then(|a| d.states[a].accept_lexer_rule_id.map(|x| x as usize));
            let y = b.and_then(|b| m.accepts(b));
            if x != y { return Verdict::Fail(format!("match: in start condition {s} the text \"{}\" is matched as a whole by {}, expected {}\n{}", show(&path), which(&c, x), which(&c, y), list(&c))); }
            // end of file
            let ex = a.and_then(|a| { let t = d.states[a].transitions[0]; if t == INVALID_STATE { None } else { d.states[t].accept_lexer_rule_id.map(|x| x as usize) } });
            let ey = if path.is_empty() { m.eof() } else { None };
            if path.is_empty() && ex != ey || (!path.is_empty() && ex.is_some()) { return Verdict::Fail(format!("eof: in start condition {s} after \"{}\" the end of the input is matched by {}, expected {}\n{}", show(&path), which(&c, ex), which(&c, ey), list(&c))); }
            for by in 1..=255u8 {
                let na = a.and_then(|a| { let t = d.states[a].transitions[by as usize]; if t == INVALID_STATE { None } else { Some(t) } });
                let nb = b.and_then(|b| m.walk(b, by));
                if let Some(t) = na { if t >= d.states.len() { return Verdict::Fail(format!("table: transition to state {t} of {}", d.states.len())); } }
                if (na, nb) != (None, None) && !seen.contains_key(&(na, nb)) { let mut p = path.clone(); p.push(by); seen.insert((na, nb), p); q.push_back((na, nb)); }
            }
        }
    }
    Verdict::Ok(pairs >= 4)
}
fn which(c: &Case, r: Option<usize>) -> String { match r { Some(r) => format!("rule {r} {}", c.rules.get(r).map_or("?", |x| &x.1)), None => "no rule".into() } }
fn list(c: &Case) -> String {
    c.defs.iter().map(|(n, d)| format!("  {n} {d}\n")).chain(c.rules.iter().enumerate().map(|(i, (s, p))| format!("  {i}: <{}>{p}\n", s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))).collect()
}

/// `match_bytes`: the rule flex would run on this text
fn matches(i: &[String]) -> Verdict {
    let Some(c) = read(i) else { return Verdict::Skip };
    if c.texts.is_empty() || c.texts.iter().any(|t| t.contains(&0)) { return Verdict::Skip; }
    let mut want = reference(&c);
    if !small(&mut want, 90) { return Verdict::Skip; }
    let got = compile(&c);
    let mut hits = 0;
    for s in 0..c.states {
        for t in &c.texts {
            let w = match want[s].longest(t) { Some((_, r)) => Some(r), None if t.is_empty() && want[s].eof().is_some() => want[s].eof(), None => want[s].empty() };
            let g = got[s].match_bytes(t).map(|x| x as usize);
            if w != g { return Verdict::Fail(format!("match_bytes: in start condition {s} the text \"{}\" selects {}, expected {}\n{}", show(t), which(&c, g), which(&c, w), list(&c))); }
            if let Ok(u) = std::str::from_utf8(t) { if got[s].match_string(u).map(|x| x as usize) != w { return Verdict::Fail(format!("match_string: differs from match_bytes on \"{}\"\n{}", show(t), list(&c))); } }
            hits += w.is_some() as usize;
        }
    }
    Verdict::Ok(hits > 0)
}

// ---------------------------------------------------------------- generator
struct Made { case: Vec<String>, rules: Vec<(Vec<usize>, Option<Re>)>, states: usize }
fn make(r: &mut Rng, big: bool) -> Made {
    let alpha: Vec<u8> = if r.chance(1, 2) { b"ab".to_vec() } else { b"abcxX019_'e".to_vec() };
    let mut g = Gen { r, names: vec![], alpha };
    let mut case = vec![];
    for k in 0..g.r.below(4) {
        let d = g.r.below(2);
        let (re, t) = g.re(d, 0);
        if size(&re) > 40 { continue; }
        let name = format!("{}{}", *g.r.pick(&["n", "dec_digit", "X", "ident9_"]), k);
        case.push(format!("def {name}"));
        case.push(t);
        g.names.push((name, re));
    }
    if g.r.chance(1, 3) && case.len() >= 4 { let n = case.len(); case.swap(0, n - 2); case.swap(1, n - 1); }
    let states = g.r.range(1, 3);
    let n = g.r.range(1, if big { 12 } else { 5 });
    let mut rules = vec![];
    for k in 0..n {
        let mut st: Vec<usize> = (0..states).filter(|_| g.r.chance(1, 2)).collect();
        if st.is_empty() { st.push(g.r.below(states)); }
        if k == 0 { st = (0..states).collect(); }
        if g.r.chance(1, 4) { st.reverse(); }
        let sp = format!("rule {}", st.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        if g.r.chance(1, 10) { case.push(sp); case.push("<<EOF>>".into()); rules.push((st, None)); continue; }
        let d = *g.r.pick(&[0usize, 1, 1, 2, 3]);
        let mut x = g.re(d, 0);
        if size(&x.0) > 120 { x = g.re(0, 0); }
        case.push(sp);
        case.push(x.1);
        rules.push((st, Some(x.0)));
    }
    Made { case, rules, states }
}
/// sets that are large in one way: repetition counts, literals, number of rules, number of start conditions, nesting, references
fn make_large(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut rule = |st: &str, p: String| v.extend([format!("rule {st}"), p]);
    let one = |r: &mut Rng| r.pick::<&str>(&["a", "[ab]", "[^a\\n]", ".", "\"x\"", "\\x41", "(a|b)", "[a-z0-9_\\200-\\377]"]).to_string();
    match r.below(7) {
        // a repetition counted out
        0 | 1 => {
            let k = *r.pick(&[13usize, 30, 63, 64, 65, 99, 127, 128, 129, 200, 255, 256, 257, 300]);
            let x = one(r);
            let p = if r.chance(1, 2) { format!("{x}{{{k}}}") } else { let a = r.below(k + 1); format!("{x}{{{a},{k}}}") };
            rule("0", match r.below(3) { 0 => p, 1 => format!("{p}c"), _ => format!("c{p}") });
            if r.chance(1, 2) { rule("0", format!("{x}{}", r.pick::<&str>(&["+", "", "*c", "{2}"]))); }
        }
        // a group counted out
        2 => { let k = r.range(13, 80); let x = r.pick::<&str>(&["ab", "a|b", "ab?", "[ab]c", "aba|abb"]).to_string(); rule("0", format!("({x}){{{k}}}")); if r.chance(1, 2) { rule("0", format!("({x})+")); } }
        // long words, alike in what they begin with
        3 => {
            let w: Vec<u8> = (0..r.range(20, 400)).map(|_| *r.pick(b"abcdefghij_0189")).collect();
            let w = String::from_utf8(w).unwrap();
            for _ in 0..r.range(1, 4) { let k = r.range(1, w.len()); rule("0", if r.chance(1, 2) { w[..k].to_string() } else { format!("\"{}\"", &w[..k]) }); }
            rule("0", format!("{w}z"));
            rule("0", "[a-z]+".into());
        }
        // many rules
        4 | 5 => {
            let n = *r.pick(&[60usize, 127, 130, 200, 255, 256, 257, 300]);
            let states = *r.pick(&[1usize, 1, 3]);
            let w = r.chance(1, 2);
            for k in 0..n {
                let st = if states == 1 || k == 0 { (0..states).map(|s| s.to_string()).collect::<Vec<_>>().join(",") } else { r.below(states).to_string() };
                let p = if r.chance(19, 20) { let s: String = (0..r.range(1, 3)).map(|_| *r.pick(&['a', 'b', 'c', 'd', 'e', 'f', '0', '_', 'Z', '9'])).collect(); if r.chance(1, 3) { format!("\"{s}\"") } else { s } } else { format!("{}{}", one(r), r.pick::<&str>(&["", "?", "b", "{2}"])) };
                if w && k == n / 2 { rule("0", "[a-z_]+".into()); }
                rule(&st, p);
            }
            if !w { rule("0", "[a-z]+".into()); }
        }
        // many start conditions, or rules in deep nesting
        _ if r.chance(1, 2) => {
            let n = r.range(10, 40);
            rule(&(0..n).map(|s| s.to_string()).collect::<Vec<_>>().join(","), "a[ab]?".into());
            for _ in 0..n { let (a, b) = (r.below(n), r.below(n)); let x = one(r); rule(&if a == b { a.to_string() } else { format!("{a},{b}") }, format!("{x}{}", r.pick::<&str>(&["", "+", "c", "{3}"]))); }
        }
        _ => {
            let mut p = one(r);
            for _ in 0..r.range(10, 28) { p = match r.below(5) { 0 => format!("({p})"), 1 => format!("({p}b)"), 2 => format!("(c{p}|b)"), 3 => format!("({p})?"), _ => format!("({p}|d)") }; }
            rule("0", p);
            rule("0", "b".into());
        }
    }
    v
}
fn texts(r: &mut Rng, m: &Made, n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        let mut t = vec![];
        for _ in 0..r.range(1, 2) { if let Some(re) = &r.pick(&m.rules).1 { let re = re.clone(); sample(r, &re, &mut t); } }
        if r.chance(1, 3) && !t.is_empty() { let k = r.below(t.len()); match r.below(3) { 0 => { t.remove(k); } 1 => t[k] = 1 + r.below(255) as u8, _ => t.insert(k, *r.pick(b"ab0\n")) } }
        if r.chance(1, 4) { t.push(*r.pick(b"ab\nz'")); }
        v.push(t);
    }
    v
}
/// the reference's reading of the pattern text against the meaning it was generated with
fn selfcheck(m: &Made, ts: &[Vec<u8>]) {
    let Some(c) = read(&m.case) else { panic!("harness: generated case outside the supported syntax: {:?}", m.case) };
    let mut a = reference(&c);
    for s in 0..m.states {
        let v: Vec<(usize, Re)> = m.rules.iter().enumerate().filter(|(_, r)| r.0.contains(&s)).map(|(i, r)| (i, r.1.clone().unwrap_or(Re::Eof))).collect();
        let mut b = Matcher::new(&v);
        for t in ts { if a[s].longest(t) != b.longest(t) { panic!("harness: the reference reads {:?} differently on {t:?}", m.case); } }
    }
}

fn build(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "sets of named definitions and prioritised patterns over 1 to 3 start conditions, generated as syntax trees and printed in varying flex notation (escapes, quotes, classes, ranges, repetition, nesting, references, end-of-file rules), and PostgreSQL's own scanner rules with rules dropped, moved and reassigned; each compiled automaton is compared with the reference state by state over every byte, which covers all byte strings; non-trivial: at least four reachable state pairs, or a matching text",
        vec![rel("equivalent", 2, 0, |i| equivalent(i, 90)), rel("scanner", 2, 0, |i| equivalent(i, 600)), rel("matches", 2, 0, matches)]);
    c.assumptions.push("byte 0 stands for the end of the input in these automata, so texts and classes do not contain it".into());
    c.assumptions.push("not part of the supported syntax, so not generated: {n,}, a class that starts with ], unescaped ] or } outside classes, anchors, trailing context, POSIX classes, (?...) groups".into());
    c
}
fn explore(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("generated pattern sets", c.cfg.n(20_000, 2_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0xa1, i);
        let m = make(&mut r, i % 7 == 0);
        let ts = texts(&mut r, &m, 12);
        selfcheck(&m, &ts);
        w.eval("equivalent", m.case.clone());
        let mut v = m.case;
        for t in ts { v.push("text".into()); v.push(t.iter().map(|b| *b as char).collect()); }
        w.eval("matches", v);
    });
    // every short pattern over a small alphabet of syntax
    const A: &[&str] = &["a", "b", "(", ")", "|", "*", "+", "?", "{2}", "{0,1}", "{1,2}", ".", "[ab]", "[^a]", "\"ab\"", "\\n", "{d}"];
    let k = A.len() as u64;
    for len in 1..=(if c.cfg.thorough() { 6u32 } else { 5 }) {
        let quick5 = c.cfg.thorough();
        c.stage(if len == 5 && !quick5 { "a fifth of the patterns of five parts" } else { "all short patterns" }, k.pow(len), || (), |_, w, mut i| {
            let i0 = i;
            let mut s = String::new();
            for _ in 0..len { s += A[(i % k) as usize]; i /= k; }
            if !valid(&s, &[("d".into(), "ba|b".into())]) { return; }
            if len == 5 && !quick5 && (i0 % 5) != seed % 5 { return; }
            w.eval("equivalent", ["def d", "ba|b", "rule 0", &s, "rule 0", "a.?"].map(String::from).to_vec());
        });
    }
    // every class of up to n items
    const B: &[&str] = &["a", "-", "c", "^", "\\]", "\\-", "\\n", "+", "z", "\\x41", "\\101", ".", "\"", "*"];
    let k = B.len() as u64;
    for len in 1..=(if c.cfg.thorough() { 6u32 } else { 5 }) {
        c.stage("all short classes", k.pow(len), || (), |_, w, mut i| {
            let mut s = String::from("[");
            for _ in 0..len { s += B[(i % k) as usize]; i /= k; }
            s += "]";
            if !valid(&s, &[]) { return; }
            w.eval("equivalent", vec!["rule 0".into(), s]);
        });
    }
    c.stage_chunk("large in one way", c.cfg.n(600, 20_000), 2, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0xa3, i); let v = make_large(&mut r); if read(&v).is_none() { panic!("harness: large set outside the supported syntax: {v:?}") } w.eval("scanner", v); });
    // PostgreSQL's scanner
    let (states, defs, rules) = refimpl::scan::scan_l();
    let (states, defs, rules) = (&states, &defs, &rules);
    c.stage_chunk("PostgreSQL's scanner rules", c.cfg.n(300, 6000), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0xa2, i);
        let mut v: Vec<String> = vec![];
        let mut rs: Vec<(Vec<usize>, String)> = rules.iter().map(|(s, p)| (s.split(',').map(|x| states.iter().position(|y| y == &x).unwrap()).collect(), p.to_string())).collect();
        if i > 0 {
            let keep = r.range(5, rs.len());
            while rs.len() > keep { let k = r.below(rs.len()); rs.remove(k); }
            for _ in 0..r.below(6) { let (a, b) = (r.below(rs.len()), r.below(rs.len())); rs.swap(a, b); }
            for _ in 0..r.below(4) { let a = r.below(rs.len()); rs[a].0 = vec![r.below(states.len())]; }
            // renumber the start conditions that are left
            let used: BTreeSet<usize> = rs.iter().flat_map(|x| x.0.iter().copied()).collect();
            let used: Vec<usize> = used.into_iter().collect();
            for x in rs.iter_mut() { for s in x.0.iter_mut() { *s = used.iter().position(|u| u == s).unwrap(); } }
        }
        for (n, d) in defs { v.push(format!("def {n}")); v.push(d.to_string()); }
        for (s, p) in rs { v.push(format!("rule {}", s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); v.push(p); }
        w.eval("scanner", v);
    });
}
fn main() {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string());
    fw::main(&dir, build, explore)
}
