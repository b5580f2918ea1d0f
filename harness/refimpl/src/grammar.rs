//! Reader for bison grammar files (character level; no knowledge of layout).
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assoc { Left, Right, NonAssoc, Precedence }

#[derive(Clone, Debug, PartialEq)]
pub struct RuleSrc {
    pub lhs: String,
    pub rhs: Vec<String>,
    pub prec: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct GrammarSrc {
    pub start: Option<String>,
    pub tokens: Vec<String>,
    pub types: Vec<String>,
    /// precedence levels, weakest first
    pub assoc: Vec<(Assoc, Vec<String>)>,
    pub rules: Vec<RuleSrc>,
}

#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Chr(String), Dir(String), Tag, Colon, Semi, Bar, Action, Sep }

fn lex(src: &str) -> Vec<T> {
    let s: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut seps = 0;
    let skip_comment = |i: usize| -> Option<usize> {
        if s[i] == '/' && s.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while !(s[j] == '*' && s[j + 1] == '/') { j += 1; }
            return Some(j + 2);
        }
        if s[i] == '/' && s.get(i + 1) == Some(&'/') {
            let mut j = i;
            while j < s.len() && s[j] != '\n' { j += 1; }
            return Some(j);
        }
        None
    };
    while i < s.len() {
        let c = s[i];
        if c.is_whitespace() { i += 1; continue; }
        if let Some(j) = skip_comment(i) { i = j; continue; }
        if c == '%' && s.get(i + 1) == Some(&'%') {
            seps += 1;
            out.push(T::Sep);
            i += 2;
            if seps == 2 { break; }
            continue;
        }
        if c == '%' && s.get(i + 1) == Some(&'{') {
            while !(s[i] == '%' && s[i + 1] == '}') { i += 1; }
            i += 2;
            continue;
        }
        if c == '%' {
            let st = i;
            i += 1;
            while i < s.len() && (s[i].is_alphanumeric() || s[i] == '-' || s[i] == '_') { i += 1; }
            out.push(T::Dir(s[st..i].iter().collect()));
            continue;
        }
        if c == '<' { while s[i] != '>' { i += 1; } i += 1; out.push(T::Tag); continue; }
        if c == '\'' {
            let st = i;
            i += 1;
            while s[i] != '\'' { if s[i] == '\\' { i += 1; } i += 1; }
            i += 1;
            out.push(T::Chr(s[st..i].iter().collect()));
            continue;
        }
        if c == '"' { i += 1; while s[i] != '"' { if s[i] == '\\' { i += 1; } i += 1; } i += 1; continue; }
        if c == '{' {
            let mut d = 0;
            loop {
                let c = s[i];
                if let Some(j) = skip_comment(i) { i = j; continue; }
                match c {
                    '{' => d += 1,
                    '}' => { d -= 1; if d == 0 { i += 1; break; } }
                    '\'' | '"' => { i += 1; while s[i] != c { if s[i] == '\\' { i += 1; } i += 1; } }
                    _ => {}
                }
                i += 1;
            }
            out.push(T::Action);
            continue;
        }
        if c == ':' { i += 1; out.push(T::Colon); continue; }
        if c == ';' { i += 1; out.push(T::Semi); continue; }
        if c == '|' { i += 1; out.push(T::Bar); continue; }
        if c.is_alphanumeric() || c == '_' || c == '.' || c == '$' {
            let st = i;
            while i < s.len() && (s[i].is_alphanumeric() || s[i] == '_' || s[i] == '.' || s[i] == '$') { i += 1; }
            out.push(T::Id(s[st..i].iter().collect()));
            continue;
        }
        if c == '=' { i += 1; continue; }
        panic!("grammar: unexpected {c:?}");
    }
    out
}

pub fn read(src: &str) -> GrammarSrc {
    let t = lex(src);
    let mut g = GrammarSrc::default();
    let mut i = 0;
    while t[i] != T::Sep {
        if let T::Dir(d) = &t[i] {
            let d = d.clone();
            i += 1;
            let mut names = vec![];
            while let T::Id(n) | T::Chr(n) = &t[i] { names.push(n.clone()); i += 1; }
            // a tag may come first
            if names.is_empty() && t[i] == T::Tag {
                i += 1;
                while let T::Id(n) | T::Chr(n) = &t[i] { names.push(n.clone()); i += 1; }
            }
            match d.as_str() {
                "%token" => g.tokens.extend(names),
                "%type" | "%nterm" => g.types.extend(names),
                "%left" => g.assoc.push((Assoc::Left, names)),
                "%right" => g.assoc.push((Assoc::Right, names)),
                "%nonassoc" => g.assoc.push((Assoc::NonAssoc, names)),
                "%precedence" => g.assoc.push((Assoc::Precedence, names)),
                "%start" => g.start = names.into_iter().next(),
                _ => {}
            }
        } else {
            i += 1;
        }
    }
    i += 1;
    while i < t.len() && t[i] != T::Sep {
        let T::Id(lhs) = &t[i] else { panic!("rule name expected, got {:?}", t[i]) };
        assert_eq!(t[i + 1], T::Colon, "after {lhs}");
        i += 2;
        let mut cur = RuleSrc { lhs: lhs.clone(), rhs: vec![], prec: None };
        loop {
            match t.get(i) {
                Some(T::Id(n)) => {
                    // a following rule without ';'
                    if t.get(i + 1) == Some(&T::Colon) { g.rules.push(cur); break; }
                    cur.rhs.push(n.clone());
                }
                Some(T::Chr(n)) => cur.rhs.push(n.clone()),
                Some(T::Action) => {}
                Some(T::Dir(d)) if d == "%prec" => {
                    i += 1;
                    let (T::Id(n) | T::Chr(n)) = &t[i] else { panic!() };
                    cur.prec = Some(n.clone());
                }
                Some(T::Dir(d)) if d == "%empty" => {}
                Some(T::Bar) => {
                    g.rules.push(cur);
                    cur = RuleSrc { lhs: lhs.clone(), rhs: vec![], prec: None };
                }
                Some(T::Semi) => { g.rules.push(cur); i += 1; break; }
                Some(T::Sep) | None => { g.rules.push(cur); break; }
                x => panic!("in rule {lhs}: {x:?}"),
            }
            i += 1;
        }
        while t.get(i) == Some(&T::Semi) { i += 1; }
    }
    g
}

/// Grammar with numbered symbols: terminals 0..nt (0 is end of input), then non-terminals.
#[derive(Clone, Debug)]
pub struct Grammar {
    pub names: Vec<String>,
    pub ids: HashMap<String, usize>,
    pub nt: usize,
    pub start: usize,
    /// rule 0 is the augmented start
    pub rules: Vec<Rule>,
    pub rules_of: Vec<Vec<usize>>,
    /// precedence of terminals: (level, assoc)
    pub prec: Vec<Option<(usize, Assoc)>>,
}
#[derive(Clone, Debug)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<usize>,
    pub prec: Option<(usize, Assoc)>,
}

impl Grammar {
    pub fn new(g: &GrammarSrc) -> Self {
        let lhs: std::collections::HashSet<&str> = g.rules.iter().map(|r| r.lhs.as_str()).collect();
        let mut names = vec!["$end".to_string()];
        let mut ids = HashMap::new();
        ids.insert("$end".to_string(), 0);
        let mut add = |n: &str, names: &mut Vec<String>| {
            if !ids.contains_key(n) { ids.insert(n.to_string(), names.len()); names.push(n.to_string()); }
        };
        for n in &g.tokens { if !lhs.contains(n.as_str()) { add(n, &mut names) } }
        for (_, v) in &g.assoc { for n in v { if !lhs.contains(n.as_str()) { add(n, &mut names) } } }
        for r in &g.rules { for n in &r.rhs { if !lhs.contains(n.as_str()) { add(n, &mut names) } } }
        let nt = names.len();
        add("$accept", &mut names);
        for r in &g.rules { add(&r.lhs, &mut names) }
        let mut prec = vec![None; names.len()];
        for (lvl, (a, v)) in g.assoc.iter().enumerate() { for n in v { prec[ids[n]] = Some((lvl + 1, *a)); } }
        let start = match &g.start { Some(s) => ids[s], None => ids[&g.rules[0].lhs] };
        let mut rules = vec![Rule { lhs: nt, rhs: vec![start], prec: None }];
        for r in &g.rules {
            let rhs: Vec<usize> = r.rhs.iter().map(|n| ids[n]).collect();
            let p = match &r.prec {
                Some(n) => prec[ids[n]],
                None => rhs.iter().rev().find(|&&s| s < nt).and_then(|&s| prec[s]),
            };
            rules.push(Rule { lhs: ids[&r.lhs], rhs, prec: p });
        }
        let mut rules_of = vec![vec![]; names.len()];
        for (i, r) in rules.iter().enumerate() { rules_of[r.lhs].push(i); }
        Grammar { names, ids, nt, start, rules, rules_of, prec }
    }
    pub fn is_term(&self, s: usize) -> bool { s < self.nt }
    pub fn id(&self, n: &str) -> Option<usize> { self.ids.get(n).copied() }
}
