//! Byte regexes with flex semantics: an independent reference matcher.
//! AST -> Thompson NFA -> lazily determinised simulation.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty,
    Class(Box<[bool; 256]>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    /// flex <<EOF>>
    Eof,
}

pub fn class(f: impl Fn(u8) -> bool) -> Re {
    let mut c = Box::new([false; 256]);
    for b in 0..=255u8 {
        c[b as usize] = f(b);
    }
    Re::Class(c)
}
pub fn byte(b: u8) -> Re {
    class(|x| x == b)
}

/// Parser for flex pattern text (the part of the syntax scan.l uses).
pub struct PatParser<'a> {
    s: &'a [u8],
    i: usize,
    defs: &'a HashMap<String, String>,
}

impl<'a> PatParser<'a> {
    pub fn parse(s: &'a str, defs: &'a HashMap<String, String>) -> Re {
        if s == "<<EOF>>" {
            return Re::Eof;
        }
        let mut p = PatParser { s: s.as_bytes(), i: 0, defs };
        let r = p.alt();
        assert!(p.i == p.s.len(), "trailing pattern text in {s:?} at {}", p.i);
        r
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Re {
        let mut v = vec![self.cat()];
        while self.peek() == Some(b'|') {
            self.i += 1;
            v.push(self.cat());
        }
        if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) }
    }
    fn cat(&mut self) -> Re {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' {
                break;
            }
            let mut a = self.atom();
            loop {
                match self.peek() {
                    Some(b'*') => { self.i += 1; a = Re::Rep(Box::new(a), 0, None) }
                    Some(b'+') => { self.i += 1; a = Re::Rep(Box::new(a), 1, None) }
                    Some(b'?') => { self.i += 1; a = Re::Rep(Box::new(a), 0, Some(1)) }
                    Some(b'{') if self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()) => {
                        self.i += 1;
                        let lo = self.num();
                        let hi = if self.peek() == Some(b',') {
                            self.i += 1;
                            if self.peek() == Some(b'}') { None } else { Some(self.num()) }
                        } else { Some(lo) };
                        assert_eq!(self.peek(), Some(b'}'));
                        self.i += 1;
                        a = Re::Rep(Box::new(a), lo, hi);
                    }
                    _ => break,
                }
            }
            v.push(a);
        }
        if v.len() == 1 { v.pop().unwrap() } else { Re::Cat(v) }
    }
    fn num(&mut self) -> u32 {
        let st = self.i;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap()
    }
    fn esc(&mut self) -> u8 {
        // after the backslash
        let c = self.s[self.i];
        self.i += 1;
        match c {
            b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'f' => 0x0c, b'v' => 0x0b, b'a' => 7, b'b' => 8,
            b'x' => {
                let st = self.i;
                while self.i < st + 2 && self.peek().map_or(false, |c| c.is_ascii_hexdigit()) { self.i += 1; }
                u8::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 16).unwrap()
            }
            b'0'..=b'7' => {
                let st = self.i - 1;
                while self.i < st + 3 && self.peek().map_or(false, |c| (b'0'..=b'7').contains(&c)) { self.i += 1; }
                u16::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 8).unwrap() as u8
            }
            c => c,
        }
    }
    fn atom(&mut self) -> Re {
        let c = self.s[self.i];
        self.i += 1;
        match c {
            b'(' => {
                let r = self.alt();
                assert_eq!(self.peek(), Some(b')'));
                self.i += 1;
                r
            }
            b'.' => class(|b| b != b'\n'),
            b'\\' => { let b = self.esc(); byte(b) }
            b'"' => {
                let mut v = vec![];
                loop {
                    let c = self.s[self.i];
                    self.i += 1;
                    if c == b'"' { break; }
                    if c == b'\\' { let b = self.esc(); v.push(byte(b)); } else { v.push(byte(c)); }
                }
                Re::Cat(v)
            }
            b'[' => {
                let mut neg = false;
                if self.peek() == Some(b'^') { neg = true; self.i += 1; }
                let mut set = [false; 256];
                let mut first = true;
                loop {
                    let c = self.s[self.i];
                    self.i += 1;
                    if c == b']' && !first { break; }
                    first = false;
                    let lo = if c == b'\\' { self.esc() } else { c };
                    let mut hi = lo;
                    if self.peek() == Some(b'-') && self.s.get(self.i + 1) != Some(&b']') {
                        self.i += 1;
                        let c = self.s[self.i];
                        self.i += 1;
                        hi = if c == b'\\' { self.esc() } else { c };
                    }
                    for b in lo..=hi { set[b as usize] = true; }
                }
                class(|b| set[b as usize] != neg)
            }
            b'{' => {
                let st = self.i;
                while self.peek() != Some(b'}') { self.i += 1; }
                let name = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
                self.i += 1;
                let d = self.defs.get(&name).unwrap_or_else(|| panic!("undefined {name}"));
                let mut p = PatParser { s: d.as_bytes(), i: 0, defs: self.defs };
                let r = p.alt();
                assert!(p.i == p.s.len());
                r
            }
            c => byte(c),
        }
    }
}

#[derive(Clone, Debug)]
enum N { Eps(Vec<usize>), On(Box<[bool; 256]>, usize), Eof(usize), Accept(usize) }

/// A set of prioritised rules; longest match, then lowest rule index.
pub struct Matcher {
    nodes: Vec<N>,
    dstates: Vec<Vec<usize>>,
    dmap: HashMap<Vec<usize>, usize>,
    trans: Vec<[u32; 256]>,
    accept: Vec<Option<usize>>,
    eof_accept: Vec<Option<usize>>,
}
const UNK: u32 = u32::MAX;
const DEAD: u32 = u32::MAX - 1;

impl Matcher {
    pub fn new(rules: &[(usize, Re)]) -> Self {
        let mut m = Matcher { nodes: vec![N::Eps(vec![])], dstates: vec![], dmap: HashMap::new(), trans: vec![], accept: vec![], eof_accept: vec![] };
        let mut starts = vec![];
        for (id, re) in rules {
            let acc = m.push(N::Accept(*id));
            let s = m.build(re, acc);
            starts.push(s);
        }
        m.nodes[0] = N::Eps(starts);
        m.dstate(vec![0]);
        m
    }
    fn push(&mut self, n: N) -> usize { self.nodes.push(n); self.nodes.len() - 1 }
    fn build(&mut self, re: &Re, next: usize) -> usize {
        match re {
            Re::Empty => next,
            Re::Class(c) => self.push(N::On(c.clone(), next)),
            Re::Eof => self.push(N::Eof(next)),
            Re::Cat(v) => { let mut n = next; for r in v.iter().rev() { n = self.build(r, n); } n }
            Re::Alt(v) => { let s: Vec<usize> = v.iter().map(|r| self.build(r, next)).collect(); self.push(N::Eps(s)) }
            Re::Rep(r, lo, hi) => {
                let mut n = next;
                match hi {
                    None => {
                        let lp = self.push(N::Eps(vec![]));
                        let body = self.build(r, lp);
                        self.nodes[lp] = N::Eps(vec![body, next]);
                        n = lp;
                    }
                    Some(h) => {
                        for _ in *lo..*h {
                            let body = self.build(r, n);
                            n = self.push(N::Eps(vec![body, next]));
                        }
                    }
                }
                for _ in 0..*lo { n = self.build(r, n); }
                n
            }
        }
    }
    fn closure(&self, seed: Vec<usize>) -> Vec<usize> {
        let mut seen = std::collections::BTreeSet::new();
        let mut st = seed;
        while let Some(x) = st.pop() {
            if seen.insert(x) { if let N::Eps(v) = &self.nodes[x] { st.extend(v); } }
        }
        seen.into_iter().filter(|&x| !matches!(self.nodes[x], N::Eps(_))).collect()
    }
    fn dstate(&mut self, seed: Vec<usize>) -> usize {
        let c = self.closure(seed);
        if let Some(&i) = self.dmap.get(&c) { return i; }
        let i = self.dstates.len();
        let acc = c.iter().filter_map(|&x| if let N::Accept(r) = self.nodes[x] { Some(r) } else { None }).min();
        let eofs: Vec<usize> = c.iter().filter_map(|&x| if let N::Eof(n) = self.nodes[x] { Some(n) } else { None }).collect();
        let ec = self.closure(eofs);
        let eacc = ec.iter().filter_map(|&x| if let N::Accept(r) = self.nodes[x] { Some(r) } else { None }).min();
        self.dmap.insert(c.clone(), i);
        self.dstates.push(c);
        self.trans.push([UNK; 256]);
        self.accept.push(acc);
        self.eof_accept.push(eacc);
        i
    }
    fn step(&mut self, s: usize, b: u8) -> u32 {
        let t = self.trans[s][b as usize];
        if t != UNK { return t; }
        let seed: Vec<usize> = self.dstates[s].iter().filter_map(|&x| match &self.nodes[x] { N::On(c, n) if c[b as usize] => Some(*n), _ => None }).collect();
        let t = if seed.is_empty() { DEAD } else { self.dstate(seed) as u32 };
        self.trans[s][b as usize] = t;
        t
    }
    /// (length, rule) of the longest match with length > 0; earliest rule wins ties.
    pub fn longest(&mut self, s: &[u8]) -> Option<(usize, usize)> {
        let mut st = 0usize;
        let mut best = None;
        for (i, &b) in s.iter().enumerate() {
            let t = self.step(st, b);
            if t == DEAD { return best; }
            st = t as usize;
            if let Some(r) = self.accept[st] { best = Some((i + 1, r)); }
        }
        best
    }
    /// Rule whose empty match applies here (flex never reports one except at end of file).
    pub fn empty(&self) -> Option<usize> { self.accept[0] }
    /// The <<EOF>> rule of this start condition
    pub fn eof(&self) -> Option<usize> { self.eof_accept[0] }
    /// One step for comparing automata: the state after `b`, None when nothing can follow
    pub fn walk(&mut self, s: usize, b: u8) -> Option<usize> { let t = self.step(s, b); if t == DEAD { None } else { Some(t as usize) } }
    pub fn accepts(&self, s: usize) -> Option<usize> { self.accept[s] }
    pub fn num_states(&self) -> usize { self.dstates.len() }
}
