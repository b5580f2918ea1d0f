//! P21, P22. A case is a grammar in the pieces of refimpl::gramgen.
use crate::parser_generator::verif::{build_tables, Cell, Tables};
use fw::{rel, Cfg, Check, Verdict};
use refimpl::gramgen::{chains, fragment, reference, sample, source};
use refimpl::grammar::{self, Grammar};
use refimpl::lalr::{Act, Lalr};
use refimpl::r#gen::{Rng, INF};
use std::collections::HashMap;

#[derive(Debug, PartialEq, Clone)]
enum End { Accept, ErrorAt(usize), Endless }
const STEPS: usize = 5_000;
const DEPTH: usize = 2_000;

/// (rule, tokens shifted before it) of every reduction, and how it ended
fn drive_ref(g: &Grammar, l: &Lalr, w: &[usize]) -> (Vec<(usize, usize)>, End) {
    let (mut st, mut i, mut out) = (vec![0usize], 0, vec![]);
    for _ in 0..STEPS {
        if st.len() > DEPTH { break; }
        let t = w.get(i).copied().unwrap_or(0);
        match l.action[*st.last().unwrap()][t] {
            Act::Shift(n) => { st.push(n); i += 1; }
            Act::Reduce(r) => { let n = st.len() - g.rules[r].rhs.len(); st.truncate(n); let top = *st.last().unwrap(); st.push(l.trans[top][&g.rules[r].lhs]); out.push((r - 1, i)); }
            Act::Accept => return (out, End::Accept),
            Act::Error => return (out, End::ErrorAt(i)),
        }
    }
    (out, End::Endless)
}
struct Sut { t: Tables, term: Vec<Option<usize>>, nonterm: HashMap<String, usize> }
impl Sut {
    fn new(g: &Grammar, t: Tables) -> Result<Sut, String> {
        let id: HashMap<&str, usize> = t.terminals.iter().enumerate().map(|(i, n)| (n.trim_matches('\''), i)).collect();
        let term: Vec<Option<usize>> = (0..g.nt).map(|x| id.get(g.names[x].trim_matches('\'')).copied()).collect();
        let nonterm = t.non_terminals.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
        if t.rules.len() + 1 != g.rules.len() { return Err(format!("{} productions instead of {}", t.rules.len(), g.rules.len() - 1)); }
        Ok(Sut { t, term, nonterm })
    }
    fn drive(&self, w: &[usize]) -> Result<(Vec<(usize, usize)>, End), String> {
        let (mut st, mut i, mut out) = (vec![0usize], 0, vec![]);
        for _ in 0..STEPS {
            if st.len() > DEPTH { break; }
            // a terminal that the tables do not know is one that no rule uses
            let Some(t) = self.term[w.get(i).copied().unwrap_or(0)] else { return Ok((out, End::ErrorAt(i))) };
            match self.t.actions[*st.last().unwrap()][t] {
                Cell::Shift(n) => { st.push(n); i += 1; }
                Cell::Reduce(r) => {
                    let (lhs, len) = self.t.rules.get(r).ok_or(format!("production {r} does not exist"))?;
                    if *len >= st.len() { return Err("a reduction empties the stack".into()); }
                    st.truncate(st.len() - len);
                    let n = self.t.gotos[*st.last().unwrap()][self.nonterm[lhs]].ok_or(format!("no successor state for {lhs}"))?;
                    st.push(n);
                    out.push((r, i));
                }
                Cell::Accept => return Ok((out, End::Accept)),
                Cell::Error => return Ok((out, End::ErrorAt(i))),
            }
        }
        Ok((out, End::Endless))
    }
}
/// cost of the cheapest terminal string of each symbol, and the rule for it
fn yields(g: &Grammar) -> (Vec<u64>, Vec<usize>) {
    let y = refimpl::r#gen::Yields::new(g, |_| 1, |_| 1);
    (y.cost, y.rule)
}
fn expand(g: &Grammar, rule: &[usize], s: usize, out: &mut Vec<usize>) {
    if s < g.nt { out.push(s); return; }
    for &x in &g.rules[rule[s]].rhs { expand(g, rule, x, out); }
}
fn derive(g: &Grammar, cost: &[u64], rule: &[usize], r: &mut Rng, s: usize, fuel: &mut i64, out: &mut Vec<usize>, depth: usize) {
    if s < g.nt { out.push(s); return; }
    let ok: Vec<usize> = g.rules_of[s].iter().copied().filter(|&q| g.rules[q].rhs.iter().all(|&x| cost[x] < INF)).collect();
    let q = if *fuel <= 0 || depth > 200 { rule[s] } else { *r.pick(&ok) };
    *fuel -= 1;
    for &x in &g.rules[q].rhs { derive(g, cost, rule, r, x, fuel, out, depth + 1); }
}

fn follows_bison(items: &[String]) -> Verdict {
    let Some(text) = source(items) else { return Verdict::Skip };
    let Some((g, l)) = reference(&text) else { return Verdict::Skip };
    if !l.sr.is_empty() || !l.rr.is_empty() { return Verdict::Skip; }
    let (cost, rule) = yields(&g);
    // useless symbols: bison would drop them
    if (g.nt..g.names.len()).any(|s| cost[s] >= INF) { return Verdict::Skip; }
    let sut = match Sut::new(&g, build_tables(&text, false)) { Ok(s) => s, Err(m) => return Verdict::Fail(m) };
    let mut r = Rng::new(fw::hash(items), 1);
    let mut strings: Vec<Vec<usize>> = vec![];
    // every state reached by a cheapest path, followed by every terminal (and then a random rest)
    let n = l.kernels.len();
    let mut path: Vec<Option<Vec<usize>>> = vec![None; n];
    path[0] = Some(vec![]);
    let mut queue = std::collections::VecDeque::from([0usize]);
    while let Some(s) = queue.pop_front() {
        let mut e: Vec<(usize, usize)> = l.trans[s].iter().map(|(&x, &t)| (x, t)).collect();
        e.sort();
        for (x, t) in e { if path[t].is_none() { let mut p = path[s].clone().unwrap(); expand(&g, &rule, x, &mut p); path[t] = Some(p); queue.push_back(t); } }
    }
    let few = n * g.nt <= 1_500;
    for p in path.iter().flatten() {
        if p.len() > 300 { continue; }
        for x in 1..g.nt { if few || r.chance(1_500, n * g.nt) { let mut w = p.clone(); w.push(x); for _ in 0..r.below(4) { w.push(r.range(1, g.nt.max(2) - 1)); } strings.push(w); } }
        strings.push(p.clone());
    }
    // short strings
    if g.nt > 1 { let (mut k, mut c) = (1, g.nt - 1); while k < 6 && c * (g.nt - 1) < 300 { k += 1; c *= g.nt - 1; } let c = c.min(300); for i in 0..c { let (mut w, mut q) = (vec![], i); for _ in 0..k { w.push(1 + q % (g.nt - 1)); q /= g.nt - 1; } strings.push(w); } }
    // sentences and their mutations
    for _ in 0..60 {
        let mut w = vec![];
        let mut fuel = r.range(1, 40) as i64;
        derive(&g, &cost, &rule, &mut r, g.start, &mut fuel, &mut w, 0);
        if w.len() > 400 { continue; }
        let mut m = w.clone();
        strings.push(w);
        if g.nt > 1 { for _ in 0..r.range(1, 2) { let i = r.below(m.len() + 1); match r.below(3) { 0 if i < m.len() => { m.remove(i); } 1 if i < m.len() => m[i] = r.range(1, g.nt - 1), _ => m.insert(i, r.range(1, g.nt - 1)) } } strings.push(m); }
    }
    let (mut acc, mut rej) = (0, 0);
    for w in &strings {
        let a = drive_ref(&g, &l, w);
        let show = || w.iter().map(|&x| g.names[x].as_str()).collect::<Vec<_>>().join(" ");
        let b = match sut.drive(w) { Ok(b) => b, Err(m) => return Verdict::Fail(format!("{m}, on: {}\n{text}", show())) };
        let same = a.1 == b.1 && (a.1 != End::Accept || a.0 == b.0);
        if !same {
            return Verdict::Fail(format!("different parses of: {}\n  prescribed {:?}, reductions (production, after tokens) {:?}\n  tables     {:?}, {:?}\n{text}", show(), a.1, short(&a.0), b.1, short(&b.0)));
        }
        if a.1 == End::Accept { acc += 1 } else { rej += 1 }
    }
    Verdict::Ok(acc >= 5 && rej >= 5 && (!l.resolved.is_empty() || n > 8))
}
fn short(v: &[(usize, usize)]) -> &[(usize, usize)] { &v[..v.len().min(30)] }

fn same_decisions(items: &[String]) -> Verdict {
    let Some(text) = source(items) else { return Verdict::Skip };
    if reference(&text).is_none() { return Verdict::Skip; }
    compressed(&text)
}
fn compressed(text: &str) -> Verdict {
    let t = build_tables(text, true);
    let (ca, cg) = (t.compressed_actions.unwrap(), t.compressed_gotos.unwrap());
    let mut kinds = std::collections::HashSet::new();
    let tail = || if text.len() < 3000 { text } else { "" };
    for (s, (a, b)) in t.actions.iter().zip(&ca).enumerate() {
        for (x, (a, b)) in a.iter().zip(b).enumerate() {
            kinds.insert(std::mem::discriminant(a));
            if a != b { return Verdict::Fail(format!("state {s}, terminal {}: {a:?} becomes {b:?}\n{}", t.terminals[x], tail())); }
        }
    }
    for (s, (a, b)) in t.gotos.iter().zip(&cg).enumerate() {
        for (x, (a, b)) in a.iter().zip(b).enumerate() { if a != b { return Verdict::Fail(format!("state {s}, non-terminal {}: successor {a:?} becomes {b:?}\n{}", t.non_terminals[x], tail())); } }
    }
    Verdict::Ok(t.actions.len() > 6 && kinds.len() == 4)
}

pub fn build21(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "grammars: random, expression grammars with random precedence tables, statement grammars, fragments of PostgreSQL's grammar; token strings per grammar: every state's shortest prefix with every terminal, short strings, random sentences and mutations; oracle: independent LALR(1) construction with bison's conflict rules, compared on the derivation or the position of the error; non-trivial: at least 5 accepted and 5 rejected strings, and conflicts settled by precedence or more than 8 states",
        vec![rel("parses as prescribed", 2, 0, follows_bison)]);
    c.assumptions.push("grammars with conflicts that precedence does not settle, or with non-terminals that derive nothing, are left out".into());
    c
}
pub fn build22(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "grammars as for P21, also with unsettled conflicts and useless symbols; every state with every terminal and non-terminal; oracle: the uncompressed tables; non-trivial: more than 6 states and shift, reduce, accept and error cells",
        vec![rel("same decisions", 2, 0, same_decisions)]);
    c.assumptions.push("the compressed tables are read with the lookup of the parser, copied into the hook".into());
    c
}
fn source_grammar(c: &Check) -> grammar::GrammarSrc { grammar::read(&std::fs::read_to_string(c.cfg.dir.join("spec/gram.y")).expect("harness: spec/gram.y")) }

pub fn explore21(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("small grammars", c.cfg.n(400_000, 15_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x210, i); let v = sample(&mut r, i); w.eval("parses as prescribed", v); });
    c.stage_chunk("long chains and rows", c.cfg.n(12_000, 300_000), 4, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x213, i); let v = chains(&mut r, if i % 10 == 0 { 300 } else { 60 }); w.eval("parses as prescribed", v); });
    let src = source_grammar(c);
    c.stage_chunk("fragments of PostgreSQL's grammar", c.cfg.n(2_000, 60_000), 2, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x211, i); let max = *r.pick(&[3usize, 6, 10, 15, 25]); let v = fragment(&src, &mut r, max); w.eval("parses as prescribed", v); });
    if c.cfg.thorough() { c.stage_chunk("large fragments", 800, 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x212, i); let max = r.range(40, 120); let v = fragment(&src, &mut r, max); w.eval("parses as prescribed", v); }); }
}
pub fn explore22(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("small grammars", c.cfg.n(200_000, 15_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x220, i); let v = sample(&mut r, i); w.eval("same decisions", v); });
    c.stage_chunk("long chains and rows", c.cfg.n(12_000, 300_000), 4, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x223, i); let v = chains(&mut r, if i % 10 == 0 { 300 } else { 60 }); w.eval("same decisions", v); });
    let src = source_grammar(c);
    c.stage_chunk("fragments of PostgreSQL's grammar", c.cfg.n(2_000, 60_000), 2, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x221, i); let max = *r.pick(&[3usize, 6, 10, 15, 25]); let v = fragment(&src, &mut r, max); w.eval("same decisions", v); });
    if c.cfg.thorough() { c.stage_chunk("large fragments", 400, 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x222, i); let max = r.range(40, 90); let v = fragment(&src, &mut r, max); w.eval("same decisions", v); }); }
}
