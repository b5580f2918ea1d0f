//! Generated grammars. A grammar is a list of pieces [kind, text]:
//!   left/right/nonassoc NAMES: a precedence level, weakest first
//!   rule "LHS: SYMBOLS %prec NAME": a production
use crate::gen::Rng;
use crate::grammar::{self, Grammar, GrammarSrc};
use crate::lalr::Lalr;
use std::collections::HashMap;

pub fn source(items: &[String]) -> Option<String> {
    let (mut d, mut b) = (String::new(), String::new());
    for i in items.chunks(2) {
        let [k, t] = i else { return None };
        match k.as_str() {
            "left" | "right" | "nonassoc" => { if t.trim().is_empty() { return None; } d += &format!("%{k} {t}\n"); }
            "rule" => { if t.trim_start().starts_with(':') || !t.contains(": ") { return None; } b += &format!("{t} ;\n"); }
            _ => return None,
        }
    }
    if b.is_empty() { return None; }
    Some(format!("{d}%%\n{b}%%\n"))
}
/// the reference's view; None if the pieces do not form a grammar
pub fn reference(text: &str) -> Option<(Grammar, Lalr)> {
    let src = std::panic::catch_unwind(|| grammar::read(text)).ok()?;
    let mut seen = std::collections::HashSet::new();
    let lhs: std::collections::HashSet<&String> = src.rules.iter().map(|r| &r.lhs).collect();
    for (_, v) in &src.assoc { for n in v { if !seen.insert(n.clone()) || lhs.contains(n) { return None; } } }
    let symbol = |n: &String| n.starts_with('\'') || n.starts_with(|c: char| c.is_ascii_alphabetic());
    for r in &src.rules {
        if !symbol(&r.lhs) || r.lhs.starts_with('\'') || !r.rhs.iter().all(symbol) { return None; }
        if r.prec.as_ref().is_some_and(|p| lhs.contains(p) || !seen.contains(p)) { return None; }
    }
    let g = Grammar::new(&src);
    let l = Lalr::new(&g);
    Some((g, l))
}

// ---------------------------------------------------------------- generators
const TERMS: &[&str] = &["AA", "BB", "CC", "DD", "'+'", "'*'", "'('", "')'", "IDENT", "Op", "'-'", "','", "EE", "FF"];

pub fn random_grammar(r: &mut Rng, prec: bool) -> Vec<String> {
    let nn = *r.pick(&[1usize, 1, 2, 2, 3, 4, 6]);
    let nt = *r.pick(&[1usize, 2, 2, 3, 4, 5, 8]);
    let off = r.below(TERMS.len());
    let terms: Vec<&str> = (0..nt).map(|i| TERMS[(off + i) % TERMS.len()]).collect();
    let nts: Vec<String> = (0..nn).map(|i| ["S", "e", "list", "opt", "T", "q"][i].to_string()).collect();
    let mut v: Vec<String> = vec![];
    let mut named: Vec<String> = vec![];
    if prec {
        let mut pool: Vec<String> = terms.iter().map(|s| s.to_string()).chain(["UMINUS".to_string(), "LOW".to_string()]).collect();
        while !pool.is_empty() && !r.chance(1, 8) {
            let mut l = vec![];
            for _ in 0..r.range(1, 3) { if pool.is_empty() { break; } let k = r.below(pool.len()); l.push(pool.remove(k)); }
            named.extend(l.clone());
            v.push(r.pick::<&str>(&["left", "right", "nonassoc"]).to_string());
            v.push(l.join(" "));
        }
    }
    for (k, n) in nts.iter().enumerate() {
        let alts = *r.pick(&[1usize, 2, 2, 3, 4]);
        for a in 0..alts {
            let len = if a == 0 { r.range(0, 2) } else { *r.pick(&[0usize, 1, 1, 2, 3, 3, 4]) };
            let mut s = format!("{n}:");
            for _ in 0..len {
                let x = if r.chance(if a == 0 { 1 } else { 3 }, 6) { if r.chance(1, 3) { n.clone() } else { nts[if r.chance(2, 3) { r.range(k, nn - 1) } else { r.below(nn) }].clone() } } else { terms[r.below(nt)].to_string() };
                s += " ";
                s += &x;
            }
            s.push(' ');
            if !named.is_empty() && r.chance(1, 4) { s += &format!("%prec {}", r.pick(&named)); }
            v.extend(["rule".to_string(), s]);
        }
    }
    v
}
/// expression grammars with precedence levels
pub fn expressions(r: &mut Rng) -> Vec<String> {
    let ops = ["'+'", "'-'", "'*'", "'/'", "'<'", "'='", "NOT", "AND", "OR", "IS", "NOTNULL", "Op", "IN_P", "LIKE", "BETWEEN", "ESCAPE", "TYPECAST", "'['", "'.'", "COLLATE", "AT", "CASE", "THEN", "ELSE"];
    let mut pool: Vec<&str> = (0..r.range(2, 12)).map(|_| *r.pick::<&str>(&ops)).collect();
    pool.sort();
    pool.dedup();
    let mut v = vec![];
    let mut left: Vec<String> = pool.iter().map(|s| s.to_string()).chain(["UMINUS".to_string()]).collect();
    for i in (1..left.len()).rev() { let j = r.below(i + 1); left.swap(i, j); }
    let named = left.clone();
    while !left.is_empty() { let k = r.range(1, 3.min(left.len())); let l: Vec<String> = left.drain(..k).collect(); v.extend([r.pick::<&str>(&["left", "left", "right", "nonassoc"]).to_string(), l.join(" ")]); }
    let mut rules: Vec<String> = vec!["e: ID ".into()];
    if r.chance(2, 3) { rules.push("e: '(' e ')' ".into()); }
    for o in &pool {
        for _ in 0..r.range(1, 2) {
            let mut s = match r.below(10) {
                0 => format!("e: {o} e "), 1 => format!("e: e {o} "), 2 => format!("e: e {o} e {} e ", r.pick(&pool)), 3 => format!("e: {o} e {} e ", r.pick(&pool)),
                4 => format!("e: e {o} '(' list ')' "), 5 => format!("e: e NOT {o} e "), 6 => format!("e: e {o} NULL_P "), 7 => format!("e: {o} e {} ", r.pick(&pool)),
                _ => format!("e: e {o} e "),
            };
            if r.chance(1, 4) { s += &format!("%prec {} ", r.pick(&named)); }
            rules.push(s);
        }
    }
    if rules.iter().any(|r| r.contains("list")) { rules.push("list: e ".into()); rules.push(if r.chance(1, 2) { "list: list ',' e ".into() } else { "list: e ',' list ".into() }); }
    if r.chance(1, 3) { rules.insert(0, r.pick::<&str>(&["S: e ", "S: e ';' ", "S: e e2 "]).to_string()); if rules[0].contains("e2") { rules.push("e2: ".into()); rules.push("e2: ';' e ".into()); } }
    // the named tokens of %prec must all be declared: they are; NOT may be missing
    if rules.iter().any(|r| r.contains("NOT ") ) && !named.iter().any(|n| n == "NOT") { v.extend(["left".into(), "NOT".into()]); }
    for s in rules { v.extend(["rule".to_string(), s]); }
    v
}
/// statement-like grammars: optional parts, lists, dangling else, shared prefixes
pub fn statements(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut rules: Vec<String> = vec![];
    let kws = ["SELECT", "FROM", "WHERE", "INTO", "SET", "VALUES", "WITH", "AS", "ON", "IF_P", "THEN", "ELSE", "END_P", "ALL", "CREATE", "TABLE", "DROP"];
    if r.chance(1, 2) { v.extend([r.pick::<&str>(&["left", "right", "nonassoc"]).to_string(), "THEN".into(), r.pick::<&str>(&["left", "right", "nonassoc"]).to_string(), "ELSE".into()]); rules.extend(["stmt: IF_P e THEN stmt ".to_string(), "stmt: IF_P e THEN stmt ELSE stmt ".to_string()]); }
    rules.insert(0, "multi: stmt ".into());
    rules.insert(1, "multi: multi ';' stmt ".into());
    if r.chance(1, 2) { rules.push("stmt: ".into()); }
    let n = r.range(1, 5);
    for i in 0..n {
        let mut s = format!("stmt: {} ", kws[(i * 3) % kws.len()]);
        for _ in 0..r.below(5) {
            s += &match r.below(7) { 0 => "names ".to_string(), 1 => "opt_as ".into(), 2 => "opt_where ".into(), 3 => format!("{} ", r.pick::<&str>(&kws)), 4 => "e ".into(), 5 => "'(' names ')' ".into(), _ => "rel ".into() };
        }
        rules.push(s);
    }
    for s in ["names: name ", "names: names ',' name ", "name: IDENT ", "opt_as: AS name ", "opt_as: ", "opt_where: WHERE e ", "opt_where: ", "e: name ", "e: e '+' name ", "rel: name opt_as ", "rel: '(' stmt ')' opt_as "] { rules.push(s.into()); }
    if r.chance(1, 2) { rules.push("name: nonreserved ".into()); for k in 0..r.range(1, 4) { rules.push(format!("nonreserved: KW{k} ")); } }
    if r.chance(1, 3) { rules.push("opt_as: name ".into()); }
    // only the rules that are reachable matter; the others stay
    for s in rules { v.extend(["rule".to_string(), s]); }
    v
}
/// a fragment of PostgreSQL's grammar: some non-terminals with their rules, the others as tokens
pub fn fragment(src: &GrammarSrc, r: &mut Rng, max: usize) -> Vec<String> {
    let mut of: HashMap<&str, Vec<&grammar::RuleSrc>> = HashMap::new();
    for x in &src.rules { of.entry(&x.lhs).or_default().push(x); }
    let start = &r.pick(&src.rules).lhs;
    let mut inside: Vec<&str> = vec![start];
    let mut i = 0;
    let p = r.range(3, 9);
    while i < inside.len() && inside.len() < max {
        let mut next: Vec<&str> = of[inside[i]].iter().flat_map(|x| x.rhs.iter()).map(|s| s.as_str()).filter(|s| of.contains_key(s)).collect();
        next.sort();
        next.dedup();
        for s in next { if !inside.contains(&s) && (r.chance(p, 10) || i == 0) && !(s.ends_with("_keyword") && r.chance(9, 10)) && inside.len() < max { inside.push(s); } }
        i += 1;
    }
    let mut v = vec![];
    for (a, n) in &src.assoc { v.extend([format!("{a:?}").to_lowercase(), n.join(" ")]); }
    for n in &inside {
        let all = &of[n];
        // large lists of keywords and the like are cut
        for (k, x) in all.iter().enumerate() {
            if all.len() > 40 && !r.chance(40, all.len()) && k > 0 { continue; }
            let mut s = format!("{n}: ");
            for y in &x.rhs { s += &if of.contains_key(y.as_str()) && !inside.contains(&y.as_str()) { format!("N_{y} ") } else { format!("{y} ") }; }
            if let Some(p) = &x.prec { s += &format!("%prec {p} "); }
            v.extend(["rule".to_string(), s]);
        }
    }
    v
}
/// grammars whose analysis takes many rounds: long chains of non-terminals (what is known of the last must reach the first), rows of optional
/// parts, long right-hand sides, many terminals; the rules in any order
pub fn chains(r: &mut Rng, max: usize) -> Vec<String> {
    let mut rules: Vec<String> = vec![];
    let mut t = 0;
    let term = |n: &mut usize| { *n += 1; format!("K{n}") };
    let len = |r: &mut Rng| -> usize { let m = *r.pick(&[3usize, 8, 20, 40, 70, 140, 300]); r.range(2, m.min(max)) };
    let parts = r.range(1, 3);
    let mut top = vec![];
    for p in 0..parts {
        let n = len(r);
        let head = format!("c{p}_0");
        match r.below(6) {
            // a chain that ends in a word or in nothing; here and there with something beside the next
            0 | 1 => {
                for k in 0..n {
                    let (a, b) = (format!("c{p}_{k}"), format!("c{p}_{}", k + 1));
                    rules.push(format!("{a}: {b} "));
                    if r.chance(1, 8) { let x = term(&mut t); rules.push(match r.below(3) { 0 => format!("{a}: {x} {b} "), 1 => format!("{a}: {b} {x} "), _ => format!("{a}: {x} ") }); }
                }
                let x = term(&mut t);
                rules.push(format!("c{p}_{n}: {x} "));
                if r.chance(1, 2) { rules.push(format!("c{p}_{n}: ")); }
            }
            // the same chain in two surroundings: its follow sets differ
            2 => {
                for k in 0..n { rules.push(format!("d{p}_{k}: d{p}_{} ", k + 1)); }
                let (x, y, z, w, v) = (term(&mut t), term(&mut t), term(&mut t), term(&mut t), term(&mut t));
                rules.push(format!("d{p}_{n}: {x} "));
                rules.push(format!("e{p}: {x} "));
                rules.push(format!("{head}: {y} d{p}_0 {z} "));
                rules.push(format!("{head}: {y} e{p} {w} "));
                rules.push(format!("{head}: {v} d{p}_0 {w} "));
                if r.chance(1, 2) { rules.push(format!("{head}: {v} e{p} {z} ")); }
            }
            // a row of optional parts
            3 => {
                let n = n.min(40);
                rules.push(format!("{head}: {} ", (0..n).map(|k| format!("o{p}_{k}")).collect::<Vec<_>>().join(" ")));
                if r.chance(1, 2) { let x = term(&mut t); rules.push(format!("{head}: {x} ")); }
                for k in 0..n { let x = term(&mut t); rules.push(format!("o{p}_{k}: {x} ")); if r.chance(7, 8) { rules.push(format!("o{p}_{k}: ")); } }
            }
            // optional parts one inside the other
            4 => {
                let n = n.min(80);
                for k in 0..n { let x = term(&mut t); rules.push(match r.below(2) { 0 => format!("c{p}_{k}: c{p}_{} {x} ", k + 1), _ => format!("c{p}_{k}: {x} c{p}_{} ", k + 1) }); if r.chance(1, 3) { let y = term(&mut t); rules.push(format!("c{p}_{k}: {y} ")); } }
                if r.chance(1, 2) { rules.push(format!("c{p}_{n}: ")); }
                let x = term(&mut t);
                rules.push(format!("c{p}_{n}: {x} "));
            }
            // one long right-hand side, and another that is the same up to its end
            _ => {
                let n = n.min(150);
                let w: Vec<String> = (0..n).map(|_| if r.chance(1, 3) && t > 0 { format!("K{}", r.range(1, t)) } else { term(&mut t) }).collect();
                rules.push(format!("{head}: {} ", w.join(" ")));
                let mut v = w.clone();
                *v.last_mut().unwrap() = term(&mut t);
                rules.push(format!("{head}: {} ", v.join(" ")));
                if r.chance(1, 2) { rules.push(format!("{head}: {} ", w[..r.range(1, n)].join(" "))); }
            }
        }
        top.push(head);
    }
    for i in (1..rules.len()).rev() { if r.chance(2, 3) { let j = r.below(i + 1); rules.swap(i, j); } }
    let x = term(&mut t);
    rules.insert(0, match r.below(3) { 0 => format!("S: {} ", top.join(&format!(" {x} "))), 1 => format!("S: {} ", top.join(" ")), _ => format!("S: S {x} {} ", top[0]) });
    if rules[0].starts_with("S: S") { for (k, h) in top.iter().enumerate() { rules.push(format!("S: {}{h} ", if k == 0 { String::new() } else { format!("{} ", term(&mut t)) })); } }
    rules.into_iter().flat_map(|s| ["rule".to_string(), s]).collect()
}
pub fn sample(r: &mut Rng, i: u64) -> Vec<String> { match i % 6 { 0 => random_grammar(r, false), 1 | 2 => random_grammar(r, true), 3 => expressions(r), 4 => statements(r), _ => chains(r, 12) } }
