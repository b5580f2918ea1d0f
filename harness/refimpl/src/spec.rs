//! The reference parser: scanner + filter + LALR driver, producing trees in the
//! shape the CST promises (derivation, omitted empty parts, trivia placement).
use crate::grammar::{read, Grammar};
use crate::lalr::{Act, Lalr};
use crate::scan::{filter, is_comment, read_kwlist, Keyword, ScanErr, Scanner, Tok};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Open(u32),
    Leaf(u32, u32, u32),
    Close,
}

#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(u32),
    /// symbol, rule, index of the token after the position where it starts (for empty ones)
    Node(u32, u32, u32, Vec<Tree>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Scan(ScanErr),
    /// index of the offending non-comment token, byte range
    Syntax(usize, usize, usize),
    Tree(Vec<Ev>),
}
impl Outcome {
    pub fn accepted(&self) -> bool { matches!(self, Outcome::Tree(_)) }
}

pub struct Spec {
    pub g: Grammar,
    pub l: Lalr,
    pub kw: Vec<Keyword>,
    /// display name of every symbol (the SyntaxKind variant), plus the extra kinds
    pub names: Vec<String>,
    pub by_name: HashMap<String, u32>,
    pub kwsrc: String,
    pub ws: u32,
    pub c_comment: u32,
    pub sql_comment: u32,
    pub root: u32,
}

pub fn raw_name(sym: &str) -> String {
    let n = match sym {
        "'<'" => "Less", "'>'" => "Greater", "'='" => "Equals", "'+'" => "Plus", "'-'" => "Minus", "'*'" => "Star", "'/'" => "Slash",
        "'%'" => "Percent", "'^'" => "Caret", "'['" => "LBracket", "']'" => "RBracket", "'('" => "LParen", "')'" => "RParen",
        "'.'" => "Dot", "','" => "Comma", "';'" => "Semicolon", "':'" => "Colon", "$end" => "Dollarend", "$accept" => "Dollaraccept",
        s => s,
    };
    n.to_string()
}

impl Spec {
    pub fn load(dir: &str) -> Self {
        let gram = std::fs::read_to_string(format!("{dir}/gram.y")).expect("spec/gram.y");
        let kwsrc = std::fs::read_to_string(format!("{dir}/kwlist.h")).expect("spec/kwlist.h");
        let g = Grammar::new(&read(&gram));
        let l = Lalr::new(&g);
        assert!(l.sr.is_empty() && l.rr.is_empty());
        let mut names: Vec<String> = g.names.iter().map(|n| raw_name(n)).collect();
        let base = names.len() as u32;
        for n in ["Whitespace", "C_COMMENT", "SQL_COMMENT", "Root"] { names.push(n.into()); }
        let by_name = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        Spec { kw: read_kwlist(&kwsrc), g, l, names, by_name, kwsrc, ws: base, c_comment: base + 1, sql_comment: base + 2, root: base + 3 }
    }
    pub fn scanner(&self) -> Scanner { Scanner::new(&self.kwsrc) }
    pub fn name(&self, s: u32) -> &str { &self.names[s as usize] }

    /// LR parse of terminal ids (None: a token the grammar does not know). Err(index of the offending token).
    pub fn parse_terms(&self, terms: &[Option<usize>], mut visit: impl FnMut(usize, usize)) -> Result<Tree, usize> {
        let mut states = vec![0usize];
        let mut trees: Vec<Tree> = vec![];
        let mut i = 0;
        loop {
            let s = *states.last().unwrap();
            let t = if i < terms.len() { match terms[i] { Some(t) => t, None => return Err(i) } } else { 0 };
            visit(s, t);
            match self.l.action[s][t] {
                Act::Shift(n) => { states.push(n); trees.push(Tree::Leaf(i as u32)); i += 1; }
                Act::Reduce(r) => {
                    let rule = &self.g.rules[r];
                    let n = rule.rhs.len();
                    let kids = trees.split_off(trees.len() - n);
                    states.truncate(states.len() - n);
                    trees.push(Tree::Node(rule.lhs as u32, r as u32, i as u32, kids));
                    let top = *states.last().unwrap();
                    states.push(self.l.trans[top][&rule.lhs]);
                }
                Act::Accept => return Ok(trees.pop().unwrap()),
                Act::Error => return Err(i),
            }
        }
    }

    pub fn terms(&self, toks: &[Tok]) -> Vec<Option<usize>> {
        toks.iter().map(|t| self.g.id(&t.kind).filter(|&i| i != 0 && i < self.g.nt)).collect()
    }

    /// Full analysis of a text
    pub fn analyze(&self, sc: &mut Scanner, text: &str) -> Analysis {
        let raw = match sc.scan(text) { Ok(r) => r, Err(e) => return Analysis { raw: vec![], toks: vec![], tree: None, outcome: Outcome::Scan(e), states: vec![] } };
        let toks = match filter(&raw) { Ok(r) => r, Err(e) => return Analysis { raw, toks: vec![], tree: None, outcome: Outcome::Scan(e), states: vec![] } };
        let (tree, outcome, states) = self.parse_toks(text, &toks);
        Analysis { raw, toks, tree, outcome, states }
    }

    pub fn parse_toks(&self, text: &str, toks: &[Tok]) -> (Option<Tree>, Outcome, Vec<(u16, u16)>) {
        let real: Vec<Tok> = toks.iter().filter(|t| !is_comment(&t.kind)).cloned().collect();
        let mut seen = vec![];
        match self.parse_terms(&self.terms(&real), |s, t| seen.push((s as u16, t as u16))) {
            Err(i) => {
                let (a, b) = real.get(i).map(|t| (t.start, t.end)).unwrap_or((text.len(), text.len()));
                (None, Outcome::Syntax(i, a, b), seen)
            }
            Ok(tree) => {
                let evs = self.events(text, toks, &real, &tree, false);
                (Some(tree), Outcome::Tree(evs), seen)
            }
        }
    }

    /// The expected tree, with trivia placed by the rule of the CST
    pub fn events(&self, text: &str, toks: &[Tok], real: &[Tok], tree: &Tree, keep_empty: bool) -> Vec<Ev> {
        // trivia in source order, and the position an empty part before real token i takes
        let mut trivia: Vec<(u32, usize, usize)> = vec![];
        let mut last = 0;
        for t in toks {
            if last < t.start { trivia.push((self.ws, last, t.start)); }
            last = t.end;
            if t.kind == "C_COMMENT" { trivia.push((self.c_comment, t.start, t.end)); }
            else if t.kind == "SQL_COMMENT" { trivia.push((self.sql_comment, t.start, t.end)); }
        }
        if last < text.len() { trivia.push((self.ws, last, text.len())); }
        // gap[i]: end of the last comment or token before real token i
        let g = gaps(toks);
        let mut out = vec![Ev::Open(self.root)];
        let mut ti = 0;
        let mut em = Emit { spec: self, real, g: &g, trivia: &trivia, ti: &mut ti, out: &mut out, keep_empty };
        em.node(tree);
        while ti < trivia.len() { let (k, a, b) = trivia[ti]; out.push(Ev::Leaf(k, a as u32, b as u32)); ti += 1; }
        out.push(Ev::Close);
        out
    }
}

fn gaps(toks: &[Tok]) -> Vec<usize> {
    let mut g = vec![];
    let mut last = 0;
    for t in toks {
        if !is_comment(&t.kind) { g.push(last); }
        last = t.end;
    }
    g.push(last);
    g
}

struct Emit<'a> {
    spec: &'a Spec,
    real: &'a [Tok],
    g: &'a [usize],
    trivia: &'a [(u32, usize, usize)],
    ti: &'a mut usize,
    out: &'a mut Vec<Ev>,
    keep_empty: bool,
}
impl Emit<'_> {
    fn start(&self, t: &Tree) -> usize {
        match t {
            Tree::Leaf(i) => self.real[*i as usize].start,
            Tree::Node(_, _, at, kids) => match kids.first() { Some(k) => self.start(k), None => self.g[*at as usize] },
        }
    }
    fn flush(&mut self, upto: usize) {
        while *self.ti < self.trivia.len() && self.trivia[*self.ti].1 < upto {
            let (k, a, b) = self.trivia[*self.ti];
            self.out.push(Ev::Leaf(k, a as u32, b as u32));
            *self.ti += 1;
        }
    }
    fn node(&mut self, t: &Tree) {
        match t {
            Tree::Leaf(i) => {
                let k = &self.real[*i as usize];
                self.flush(k.start);
                let id = self.spec.g.ids[&k.kind] as u32;
                self.out.push(Ev::Leaf(id, k.start as u32, k.end as u32));
            }
            Tree::Node(sym, _, _, kids) => {
                if !self.keep_empty && yields_nothing(t) { return; }
                let s = self.start(t);
                self.flush(s);
                self.out.push(Ev::Open(*sym));
                for k in kids { self.node(k); }
                self.out.push(Ev::Close);
            }
        }
    }
}

pub fn yields_nothing(t: &Tree) -> bool {
    match t { Tree::Leaf(_) => false, Tree::Node(_, _, _, k) => k.iter().all(yields_nothing) }
}

pub struct Analysis {
    pub raw: Vec<Tok>,
    pub toks: Vec<Tok>,
    pub tree: Option<Tree>,
    pub outcome: Outcome,
    /// (state, lookahead) pairs the LR parser went through
    pub states: Vec<(u16, u16)>,
}

/// Drop trivia leaves (and nodes left without leaves): what must not depend on trivia.
pub fn skeleton(evs: &[Ev], spec: &Spec) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    let mut marks: Vec<(usize, bool)> = vec![];
    for e in evs {
        match e {
            Ev::Open(_) => { marks.push((out.len(), false)); out.push(*e); }
            Ev::Leaf(k, _, _) => if *k != spec.ws && *k != spec.c_comment && *k != spec.sql_comment {
                out.push(*e);
                if let Some(m) = marks.last_mut() { m.1 = true; }
            },
            Ev::Close => {
                let (at, any) = marks.pop().unwrap();
                if !any { out.truncate(at); } else { out.push(*e); if let Some(m) = marks.last_mut() { m.1 = true; } }
            }
        }
    }
    out
}

pub fn show(evs: &[Ev], spec: &Spec, text: &str) -> String {
    let mut s = String::new();
    let mut d = 0;
    for e in evs {
        match e {
            Ev::Open(k) => { s += &format!("{}{}\n", "  ".repeat(d), spec.name(*k)); d += 1; }
            Ev::Close => d -= 1,
            Ev::Leaf(k, a, b) => s += &format!("{}{}@{}..{} {:?}\n", "  ".repeat(d), spec.name(*k), a, b, text.get(*a as usize..*b as usize).unwrap_or("<bad range>")),
        }
    }
    s
}
