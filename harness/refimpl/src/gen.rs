//! Generators: random numbers, sentences of the grammar, token texts, trivia.
use crate::grammar::Grammar;
use crate::lalr::{Act, Lalr};
use crate::spec::Spec;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

/// Cheapest derivations: per symbol its minimal cost and the rule that attains it.
#[derive(Clone)]
pub struct Yields {
    pub cost: Vec<u64>,
    pub rule: Vec<usize>,
    pub height: Vec<u32>,
}

pub const INF: u64 = 1 << 40;

impl Yields {
    /// `w(rule)` is added for each rule used; terminals cost `tw(t)`.
    pub fn new(g: &Grammar, tw: impl Fn(usize) -> u64, w: impl Fn(usize) -> u64) -> Self {
        let n = g.names.len();
        let mut cost = vec![INF; n];
        let mut rule = vec![usize::MAX; n];
        let mut height = vec![0u32; n];
        for t in 0..g.nt { cost[t] = tw(t); }
        loop {
            let mut ch = false;
            for (i, r) in g.rules.iter().enumerate() {
                let c = r.rhs.iter().fold(w(i), |a, &s| (a + cost[s]).min(INF));
                if c < cost[r.lhs] {
                    cost[r.lhs] = c;
                    rule[r.lhs] = i;
                    height[r.lhs] = 1 + r.rhs.iter().map(|&s| height[s]).max().unwrap_or(0);
                    ch = true;
                }
            }
            if !ch { break; }
        }
        Yields { cost, rule, height }
    }
    pub fn expand(&self, g: &Grammar, s: usize, out: &mut Vec<usize>) {
        if s < g.nt { out.push(s); return; }
        for &x in &g.rules[self.rule[s]].rhs { self.expand(g, x, out); }
    }
}

/// Terminals that no text denotes
pub fn unwritable(g: &Grammar, t: usize) -> bool {
    let n = &g.names[t];
    n == "$end" || n.starts_with("MODE_") || n == "UMINUS" || n == "UIDENT" || n == "USCONST" || n == "error"
}

pub struct SentenceGen<'a> {
    pub spec: &'a Spec,
    pub y: Yields,
    /// per symbol: rules usable in writable sentences
    usable: Vec<Vec<usize>>,
}

impl<'a> SentenceGen<'a> {
    pub fn new(spec: &'a Spec) -> Self {
        let g = &spec.g;
        let y = Yields::new(g, |t| if unwritable(g, t) { INF } else { 1 }, |_| 0);
        let usable = (0..g.names.len()).map(|s| g.rules_of[s].iter().copied().filter(|&r| g.rules[r].rhs.iter().all(|&x| y.cost[x] < INF)).collect()).collect();
        SentenceGen { spec, y, usable }
    }
    /// A random sentence of `sym` with roughly `budget` tokens
    pub fn random(&self, rng: &mut Rng, sym: usize, budget: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut fuel = budget as i64;
        self.rec(rng, sym, &mut fuel, &mut out, 0);
        out
    }
    fn rec(&self, rng: &mut Rng, sym: usize, fuel: &mut i64, out: &mut Vec<usize>, depth: usize) {
        let g = &self.spec.g;
        if sym < g.nt { out.push(sym); *fuel -= 1; return; }
        let rules = &self.usable[sym];
        let r = if *fuel <= 0 || depth > 200 { self.y.rule[sym] } else {
            // three draws, prefer one that fits in the remaining budget
            let mut best = *rng.pick(rules);
            for _ in 0..2 {
                let c: u64 = g.rules[best].rhs.iter().map(|&s| self.y.cost[s]).sum();
                if c as i64 <= *fuel { break; }
                best = *rng.pick(rules);
            }
            best
        };
        for &x in &g.rules[r].rhs { self.rec(rng, x, fuel, out, depth + 1); }
    }
}

/// Shortest-path prefixes and completions over the LALR automaton.
pub struct Paths<'a> {
    pub g: &'a Grammar,
    pub l: &'a Lalr,
    pub y: Yields,
    /// predecessor (state, symbol) on the cheapest path
    pub pred: Vec<Option<(usize, usize)>>,
}

impl<'a> Paths<'a> {
    /// `salt` perturbs the costs so that different salts give different contexts
    pub fn new(g: &'a Grammar, l: &'a Lalr, salt: u64) -> Self {
        let noise = |a: u64, b: u64, m: u64| if salt == 0 { 0 } else { let mut r = Rng::new(salt, a * 0x10001 + b); r.next() % m };
        let y = Yields::new(g, |t| if unwritable(g, t) { INF } else { 4 }, |r| 1 + noise(r as u64, 1, 12));
        let n = l.kernels.len();
        let mut dist = vec![INF; n];
        let mut pred = vec![None; n];
        let mut heap = std::collections::BinaryHeap::new();
        dist[0] = 0;
        heap.push((std::cmp::Reverse(0u64), 0usize));
        while let Some((std::cmp::Reverse(d), s)) = heap.pop() {
            if d > dist[s] { continue; }
            for (&x, &t) in &l.trans[s] {
                let nd = d + y.cost[x] + 1 + noise(s as u64, x as u64, 8);
                if nd < dist[t] || (nd == dist[t] && pred[t].map_or(false, |p| p > (s, x))) { dist[t] = nd; pred[t] = Some((s, x)); heap.push((std::cmp::Reverse(nd), t)); }
            }
        }
        Paths { g, l, y, pred }
    }
    /// symbols along the path to `s`
    pub fn path(&self, s: usize) -> Option<Vec<usize>> {
        let mut v = vec![];
        let mut c = s;
        while c != 0 { let (p, x) = self.pred[c]?; if self.y.cost[x] >= INF { return None; } v.push(x); c = p; }
        v.reverse();
        Some(v)
    }
    pub fn prefix(&self, s: usize) -> Option<Vec<usize>> {
        let mut out = vec![];
        for x in self.path(s)? { self.y.expand(self.g, x, &mut out); }
        Some(out)
    }
    /// Cheapest way to finish the input from the LR state stack (heuristic; the result is only a test input).
    pub fn complete(&self, stack: &[usize]) -> Vec<usize> {
        let mut st = stack.to_vec();
        let mut out = vec![];
        for _ in 0..120 {
            if out.len() > 80 { break; }
            let s = *st.last().unwrap();
            let best = self.l.kernels[s].iter().map(|&(r, d)| {
                let rule = &self.g.rules[r];
                let c: u64 = rule.rhs[d..].iter().map(|&x| self.y.cost[x]).fold(0, |a, b| (a + b).min(INF));
                // A -> A . x only makes the input longer
                (d == 1 && rule.rhs[0] == rule.lhs && rule.rhs.len() > 1, c, rule.rhs.len() - d, r, d)
            }).min().map(|(_, c, l, r, d)| (c, l, r, d));
            let Some((c, _, r, d)) = best else { break };
            if c >= INF { break; }
            if r == 0 { break; }
            for &x in &self.g.rules[r].rhs[d..] { self.y.expand(self.g, x, &mut out); }
            let n = st.len() - d;
            st.truncate(n);
            let top = *st.last().unwrap();
            match self.l.trans[top].get(&self.g.rules[r].lhs) { Some(&t) => st.push(t), None => break }
        }
        out
    }
    /// Run the parser over terms and return the state stack after shifting all of them (None on error)
    pub fn run(&self, terms: &[usize]) -> Option<Vec<usize>> {
        let mut st = vec![0usize];
        for &t in terms {
            loop {
                match self.l.action[*st.last().unwrap()][t] {
                    Act::Shift(n) => { st.push(n); break; }
                    Act::Reduce(r) => { let rule = &self.g.rules[r]; let n = st.len() - rule.rhs.len(); st.truncate(n); let top = *st.last().unwrap(); st.push(self.l.trans[top][&rule.lhs]); }
                    _ => return None,
                }
            }
        }
        Some(st)
    }
}

/// How to write a terminal as text
pub struct Words {
    plain: Vec<String>,
    is_kw: Vec<bool>,
    pub ident: Option<usize>, pub sconst: Option<usize>, pub iconst: Option<usize>, pub fconst: Option<usize>,
    pub bconst: Option<usize>, pub xconst: Option<usize>, pub param: Option<usize>, pub op: Option<usize>,
    pub not_equals: Option<usize>,
}

pub const IDENTS: &[&str] = &["a", "b", "t1", "foo", "_x", "tbl$1", "x9", "\"Quoted\"", "\"a\"\"b\"", "\"select\"", "été", "表", "U&\"d\\0061t\\+000061\"", "u&\"x!0061\" UESCAPE '!'", "\"with space\"", "Abc", "n", "e", "u", "x", "b1", "\"--\"", "\"/*\""];
pub const SCONSTS: &[&str] = &["'s'", "''", "'it''s'", "E'a\\n\\'b'", "e'\\x41\\101\\u0041'", "$$body$$", "$q$ a $$ b $q$", "'a'\n'b'", "U&'\\0061'", "U&'d!0061' uescape '!'", "'é表'", "E'\\\\'", "'-- no'", "'/* no */'", "'x'\n  \n'y'", "$é$x$é$", "'\\'", "E'\\U0001F600'", "E'\\uD83D\\uDE00'", "';'", "'\"'", "'line\nbreak'"];
pub const ICONSTS: &[&str] = &["1", "0", "42", "2147483647", "0x1F", "0o17", "0b101", "1_000", "007", "0X_ff"];
pub const FCONSTS: &[&str] = &["1.5", ".5", "1.", "1e10", "2.5E-3", "2147483648", "0xFFFFFFFF", "1_0.5_0", "9999999999999999999", "1e+5"];
pub const BCONSTS: &[&str] = &["b'101'", "B''", "b'1'\n'0'"];
pub const XCONSTS: &[&str] = &["x'1F'", "X''", "X'a'\n'b'"];
pub const PARAMS: &[&str] = &["$1", "$23", "$99999999999"];
pub const OPS: &[&str] = &["||", "@>", "~", "!~~", "->>", "&&", "?", "#>", "|/", "<->", "@-@", "!!=", "~*", "`", "&<|", "|", "!", "<=>", "*<>", "^@"];

impl Words {
    pub fn new(spec: &Spec) -> Self {
        let g = &spec.g;
        let kw: std::collections::HashMap<&str, &str> = spec.kw.iter().map(|k| (k.token.as_str(), k.word.as_str())).collect();
        let mut is_kw = vec![false; g.nt];
        let plain = (0..g.nt).map(|t| {
            let n = g.names[t].as_str();
            if let Some(w) = kw.get(n) { is_kw[t] = true; return w.to_string(); }
            match n {
                "NOT_LA" => "not", "NULLS_LA" => "nulls", "WITH_LA" => "with", "WITHOUT_LA" => "without", "FORMAT_LA" => "format",
                "IDENT" => "a", "SCONST" => "'s'", "ICONST" => "1", "FCONST" => "1.5", "BCONST" => "b'1'", "XCONST" => "x'1'", "PARAM" => "$1", "Op" => "||",
                "TYPECAST" => "::", "DOT_DOT" => "..", "COLON_EQUALS" => ":=", "EQUALS_GREATER" => "=>", "LESS_EQUALS" => "<=", "GREATER_EQUALS" => ">=", "NOT_EQUALS" => "<>",
                n if n.starts_with('\'') => return n.trim_matches('\'').to_string(),
                _ => "",
            }.to_string()
        }).collect();
        Words { plain, is_kw, ident: g.id("IDENT"), sconst: g.id("SCONST"), iconst: g.id("ICONST"), fconst: g.id("FCONST"), bconst: g.id("BCONST"), xconst: g.id("XCONST"), param: g.id("PARAM"), op: g.id("Op"), not_equals: g.id("NOT_EQUALS") }
    }
    pub fn plain(&self, t: usize) -> &str { &self.plain[t] }
    pub fn is_keyword(&self, t: usize) -> bool { self.is_kw[t] }
    pub fn fancy(&self, rng: &mut Rng, t: usize) -> String {
        let o = Some(t);
        if rng.chance(1, 50) {
            let class = if o == self.ident { "IDENT" } else if o == self.sconst { "SCONST" } else if o == self.iconst { "ICONST" } else if o == self.fconst { "FCONST" }
                else if o == self.bconst { "BCONST" } else if o == self.xconst { "XCONST" } else if o == self.param { "PARAM" } else if o == self.op { "Op" } else { "" };
            if !class.is_empty() { let n = dict().size(rng, 1200); return long_word(rng, class, n); }
        }
        if o == self.sconst && rng.chance(1, 6) { return escape_const(rng, false); }
        if o == self.ident && rng.chance(1, 40) { let d = dict().strs_or(); let w = *rng.pick(&d); return format!("\"{}\"", w.replace(['"', '\0'], "")).replace("\"\"", "\"q\""); }
        let pool: &[&str] = if o == self.ident { IDENTS } else if o == self.sconst { SCONSTS } else if o == self.iconst { ICONSTS } else if o == self.fconst { FCONSTS }
            else if o == self.bconst { BCONSTS } else if o == self.xconst { XCONSTS } else if o == self.param { PARAMS } else if o == self.op { OPS }
            else if o == self.not_equals { &["<>", "!="] } else {
                let p = &self.plain[t];
                return if self.is_kw[t] && rng.chance(1, 3) { random_case(rng, p) } else { p.clone() };
            };
        rng.pick(pool).to_string()
    }
    pub fn render_plain(&self, terms: &[usize]) -> String {
        let mut s = String::new();
        for &t in terms { if !s.is_empty() { s.push(' '); } s += &self.plain[t]; }
        s
    }
    pub fn render_fancy(&self, rng: &mut Rng, terms: &[usize]) -> String {
        let mut s = String::new();
        if rng.chance(1, 6) { s += &trivia(rng); }
        for (i, &t) in terms.iter().enumerate() {
            if i > 0 { if rng.chance(1, 8) { s += &separator(rng); } else { s.push(' '); } }
            if rng.chance(1, 3) { s += &self.fancy(rng, t); } else { s += &self.plain[t]; }
        }
        if rng.chance(1, 6) { s += &trivia(rng); }
        s
    }
}

pub fn random_case(rng: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

pub const SPACES: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\u{c}", "\u{b}", " \n ", "\r", "\n\n"];
pub const COMMENTS: &[&str] = &["/**/", "/* c */", "/* a /* nested */ b */", "-- line\n", "--\n", "/***/", "/* ' \" $$ */", "-- it's /* not\n", "/* é表 */", "/*;*/", "--;\r", "/* -- */", "/*/**/*/", "/* * / */", "-- select\n", "/*+ hint */", "--é\n"];

/// Numbers and texts that matter to the code under test: built-in ones, and the literals of its sources.
pub struct Dict { pub sizes: Vec<usize>, pub strs: Vec<String> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict { DICT.get_or_init(|| Dict::of(&[])) }
/// Literals of these sources, tables left out (they are lines of numbers)
pub fn use_dict(files: &[String]) { let _ = DICT.set(Dict::of(files)); }
impl Dict {
    pub fn of(files: &[String]) -> Dict {
        let mut n: std::collections::BTreeSet<usize> = (0..=34).collect();
        for k in 5..=12 { for d in [-1i64, 0, 1] { n.insert(((1i64 << k) + d) as usize); } }
        for k in [48usize, 50, 60, 80, 99, 100, 101, 120, 150, 200, 250, 254, 300, 400, 500, 600, 700, 800, 999, 1000, 1001, 1500, 2000, 3000] { n.insert(k); }
        let mut t = std::collections::BTreeSet::new();
        for f in files {
            let Ok(s) = std::fs::read_to_string(f) else { continue };
            for l in s.lines() {
                let l = l.trim();
                if l.starts_with("//") || l.chars().all(|c| c.is_ascii_digit() || " ,-[];".contains(c)) { continue; }
                literals(l, &mut n, &mut t);
            }
        }
        Dict { sizes: n.into_iter().filter(|&x| x <= 5000).collect(), strs: t.into_iter().take(3000).collect() }
    }
    pub fn strs_or(&self) -> Vec<&str> { if self.strs.is_empty() { vec!["a", "+", "TODO"] } else { self.strs.iter().map(String::as_str).collect() } }
    pub fn size(&self, rng: &mut Rng, max: usize) -> usize {
        let k = self.sizes.partition_point(|&x| x <= max);
        self.sizes[rng.below(k)]
    }
}
fn literals(l: &str, n: &mut std::collections::BTreeSet<usize>, t: &mut std::collections::BTreeSet<String>) {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '"' || (c[i] == '\'' && (c.get(i + 2) == Some(&'\'') || c.get(i + 1) == Some(&'\\'))) {
            let q = c[i];
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != q {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'),
                        'x' => { let h: String = c[i + 1..].iter().take(2).collect(); if let Ok(v) = u8::from_str_radix(&h, 16) { s.push(v as char); i += 2; } }
                        'u' => { let h: String = c[i + 1..].iter().skip(1).take_while(|c| c.is_ascii_hexdigit()).collect(); i += h.len() + 2; if let Some(v) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { s.push(v) } }
                        x => s.push(x) }
                } else { s.push(c[i]); }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 24 && !s.contains("{}") && !s.contains("{:") { t.insert(s); }
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '.')) {
            let a = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
            let w: String = c[a..i].iter().filter(|c| **c != '_').collect();
            let v = if let Some(h) = w.strip_prefix("0x") { usize::from_str_radix(h, 16) } else { w.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse() };
            if let Ok(v) = v { for x in [v.saturating_sub(1), v, v.saturating_add(1)] { n.insert(x); } }
        } else { i += 1; }
    }
}

/// A token of about `n` characters of the class the terminal names
pub fn long_word(rng: &mut Rng, class: &str, n: usize) -> String {
    let fill = |rng: &mut Rng, set: &[&str], n: usize| -> String { let one = rng.chance(1, 2); let f = *rng.pick(set); (0..n).map(|_| if one { f } else { *rng.pick(set) }).collect() };
    match class {
        "IDENT" => match rng.below(4) {
            0 => format!("\"{}\"", fill(rng, &["a", "B", " ", "\"\"", "é", "-", "\n", "'"], n)),
            1 => format!("z{}", fill(rng, &["é", "a", "_", "1", "$"], n.saturating_sub(1))),
            2 => format!("U&\"{}\"", fill(rng, &["a", "\\0061", "\"\"", "\\+000062"], n.max(1))),
            _ => format!("z{}", fill(rng, &["a", "Q", "_", "x"], n.saturating_sub(1))),
        },
        "SCONST" => match rng.below(7) {
            0 => { let t = format!("t{}", fill(rng, &["a", "é", "_", "1"], n)); format!("${t}$ x $t$ ${t}$") }
            1 => format!("$$ {}$$", fill(rng, &["$a", "a", "'", "\n", "$1 "], n)),
            2 => format!("E'{}'", fill(rng, &["\\n", "''", "a", "\\'", "é", "\\x41", "\\\\"], n)),
            3 => fill(rng, &["'a'\n", "'b' \n\t", "''\r\n"], n.min(400) + 1) + "'z'",
            4 => format!("U&'{}'", fill(rng, &["a", "\\0061", "''", "\\+000062", "\\\\"], n)),
            _ => format!("'{}'", fill(rng, &["a", "''", "é", "\\", "--", "\n", " "], n)),
        },
        "ICONST" => match rng.below(4) { 0 => format!("{}1", "0".repeat(n)), 1 => format!("0x{}f", "0".repeat(n)), 2 => format!("0b{}1", "_0".repeat(n)), _ => format!("0o{}7", "0".repeat(n)) },
        "FCONST" => match rng.below(4) { 0 => format!("{}9999999999", fill(rng, &["1", "9", "0", "1_1"], n)), 1 => format!("1.{}", fill(rng, &["1", "0", "5"], n)), 2 => format!("1e{}1", fill(rng, &["1", "0"], n)), _ => format!("0x1{}00000000", "f".repeat(n)) },
        "BCONST" => format!("b'{}'", fill(rng, &["0", "1"], n)),
        "XCONST" => format!("x'{}'", fill(rng, &["0", "a", "F"], n)),
        "PARAM" => format!("${}1", fill(rng, &["0", "1", "9"], n)),
        "Op" => format!("~{}", fill(rng, &["<", "~", "@", "+~", "*~", "#"], n.min(400))),
        _ => String::new(),
    }
}
/// Whitespace and comments, long in one way
pub fn long_trivia(rng: &mut Rng, n: usize) -> String {
    match rng.below(8) {
        0 => rng.pick(&[" ", "\n", "\t", "\r", "\u{b}"]).repeat(n),
        1 => (0..n).map(|_| *rng.pick(&[" ", "\n", "\t", "\r\n", "  "])).collect(),
        2 => format!("/*{}*/", rng.pick(&["a", " ", "é", "-", "\n", "* ", "'", "\"", "--", "/ ", "x*"]).repeat(n)),
        3 => format!("--{}\n", rng.pick(&["a", " ", "é", "-", "/*", "*/", "'", ";"]).repeat(n)),
        4 => { let n = n.min(300); format!("{}{}{}", "/*".repeat(n + 1), rng.pick(&["", "a", " "]), "*/".repeat(n + 1)) }
        5 => rng.pick(&["/**/", "--\n", "/* a */ ", "-- x\n "]).repeat(n.min(600)),
        6 => format!("/*{}*/", rng.pick(&["/*a*/", "/**/ "]).repeat(n.min(600))),
        _ => format!("{}/**/{}", " ".repeat(n), "\n".repeat(n)),
    }
}

const EDGES: &[u32] = &[0x41, 0x1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfffff, 0x100000, 0x1f600, 0x61];
const HI: &[u32] = &[0xd800, 0xdbff, 0xd83d, 0xd801, 0xdbfe, 0xda00];
const LO: &[u32] = &[0xdc00, 0xdfff, 0xde00, 0xdc01, 0xdffe];
fn hexcase(rng: &mut Rng, s: String) -> String { if rng.chance(1, 3) { s.to_uppercase() } else { s } }
/// The inside of an escape string; `wild` allows malformed pieces
pub fn escapes(rng: &mut Rng, wild: bool) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 6) {
        let v = if rng.chance(1, 3) { rng.below(0x11_0000) as u32 } else { *rng.pick(EDGES) };
        let v = if (0xd800..0xe000).contains(&v) || v == 0 { 0x61 } else { v };
        let u4 = |rng: &mut Rng, v: u32| { let h = format!("{v:04x}"); format!("\\u{}", hexcase(rng, h)) };
        let u8_ = |rng: &mut Rng, v: u32| { let h = format!("{v:08x}"); format!("\\U{}", hexcase(rng, h)) };
        s += &match rng.below(if wild { 14 } else { 10 }) {
            0 if v <= 0xffff => u4(rng, v),
            1 => u8_(rng, v),
            2 | 3 => {
                let h = if rng.chance(1, 3) { 0xd800 + rng.below(0x400) as u32 } else { *rng.pick(HI) };
                let l = if rng.chance(1, 3) { 0xdc00 + rng.below(0x400) as u32 } else { *rng.pick(LO) };
                let a = if rng.chance(3, 4) { u4(rng, h) } else { u8_(rng, h) };
                let b = if rng.chance(3, 4) { u4(rng, l) } else { u8_(rng, l) };
                a + &b
            }
            4 => { let o = rng.range(1, 255); format!("\\{o:o}") }
            5 => { let o = rng.range(1, 127); format!("\\x{o:x}") }
            6 => format!("\\{}", rng.pick(&["n", "t", "b", "f", "r", "v", "\\", "'", "a", "\"", "z", "é", "\n", "-", "$"])),
            7 => "''".into(),
            8 => rng.pick(&["a", "é", "😀", " ", "\n", "--", "/*", "$$", ";", "4", "d", "F"]).to_string(),
            9 if rng.chance(1, 2) => { let o = rng.below(8); format!("\\{o}") }
            10 => { let h = *rng.pick(HI); u4(rng, h) }
            11 => { let l = *rng.pick(LO); u4(rng, l) }
            12 => rng.pick(&["\\", "\\x", "\\u", "\\U", "\\u12", "\\U0012", "\\U00110000", "\\UFFFFFFFF", "\\u0000", "\\U00000000", "\\400", "\\777", "\\8", "\\xg", "\\u{41}"]).to_string(),
            _ => "b".into(),
        };
    }
    s
}
/// A string constant made of escapes
pub fn escape_const(rng: &mut Rng, wild: bool) -> String {
    match rng.below(6) {
        0 => {
            let e = *rng.pick(&["!", "+x", "#", "\\", "é"]);
            let e = &e[..e.chars().next().unwrap().len_utf8()];
            let mut s = String::from(*rng.pick(&["U&'", "u&'"]));
            for _ in 0..rng.range(1, 4) {
                let v = *rng.pick(EDGES);
                s += &match rng.below(5) {
                    0 if v <= 0xffff => format!("\\{v:04X}"),
                    1 => format!("\\+{v:06x}"),
                    2 => { let (h, l) = (*rng.pick(HI), *rng.pick(LO)); format!("\\{h:04x}\\{l:04X}") }
                    3 => "\\\\".into(),
                    _ => rng.pick(&["a", "''", "é", " ", "\n"]).to_string(),
                };
            }
            s.push('\'');
            if rng.chance(1, 3) && e != "+" && e != "\\" { s = s.replace('\\', e); s += &format!(" UESCAPE '{e}'"); }
            s
        }
        _ => { let e = escapes(rng, wild); let mut s = format!("{}'{}", rng.pick(&["E", "e"]), e); if !wild || rng.chance(5, 6) { s.push('\''); } if rng.chance(1, 6) { s += "\n'"; s += &escapes(rng, wild); s.push('\''); } s }
    }
}

/// Any run of whitespace and comments, possibly empty
pub fn trivia(rng: &mut Rng) -> String {
    if rng.chance(1, 60) { let n = dict().size(rng, 1200); return long_trivia(rng, n); }
    if rng.chance(1, 40) { let t = rng.pick(&dict().strs_or()).replace(['/', '*', '\n', '\r'], " "); return if rng.chance(1, 2) { format!("/*{t}*/") } else { format!("--{t}\n") }; }
    let mut s = String::new();
    for _ in 0..rng.below(4) { if rng.chance(1, 2) { s += rng.pick(SPACES) } else { s += rng.pick(COMMENTS) } }
    s
}
/// A run that separates any two tokens (starts and ends with whitespace, no newline-only continuation issue is left to the caller)
pub fn separator(rng: &mut Rng) -> String {
    let mut s = rng.pick(SPACES).to_string();
    for _ in 0..rng.below(3) { s += rng.pick(COMMENTS); s += rng.pick(SPACES); }
    s
}

/// Random text over an alphabet that provokes the scanner
pub fn soup(rng: &mut Rng, max: usize) -> String {
    const FRAG: &[&str] = &[
        "'", "''", "\"", "\"\"", "$", "$$", "$a$", "$a", "$1", "$1_", "\\", "\\'", "\\\\", "\\x", "\\x4", "\\x41", "\\xFF", "\\u", "\\u00", "\\u0041", "\\uD83D", "\\uDE00", "\\U0001F600", "\\U00110000", "\\U0000", "\\0", "\\377", "\\8", "\\n", "\\é",
        "E'", "e'", "b'", "B'", "x'", "X'", "n'", "N'", "U&'", "u&\"", "U&", "UESCAPE", "'!'", "uescape '+'",
        "--", "/*", "*/", "/", "*", "-", "+", "\n", "\r", " ", "\t", "\u{b}", "\u{c}", "é", "表", "\u{a0}", "\u{3000}", "\u{feff}", "😀", "\u{80}", "ß", "\u{7ff}",
        "0", "1", "9", "0x", "0X1f", "0x_", "0o", "0o17", "0o8", "0b", "0b1", "0b2", "0b1_0", "_", "1_", "1_0", "1__0", ".", "..", "1.", ".1", "1..2", "e", "E", "1e", "1e+", "1e-5", "1.5e3", "2147483647", "2147483648", "0x7fffffff", "0x80000000", "0b1111111111111111111111111111111", "1a", "1.5x", "0x1g", "99999999999999999999",
        "a", "z", "Z", "n", "select", "SeLeCt", "nchar", "not", "between", "in", "like", "ilike", "similar", "nulls", "first", "last", "with", "time", "ordinality", "without", "format", "json", "null", "from", "where", "K", "ſelect",
        "~", "!", "@", "#", "^", "&", "|", "`", "?", "%", "<", ">", "=", ":", "::", ":=", "=>", "<=", ">=", "<>", "!=", "<=-", "*-", "@-", "+-+", "||-", "-+*/", "=-", "<+", ">=+", "!=-", "<>--x", "*/*",
        "(", ")", "[", "]", ",", ";", "{", "}", "\u{1}", "\u{7f}", "\u{0}", "\u{1b}",
    ];
    let n = rng.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(24) {
            0 => s.push(char::from_u32(rng.below(128) as u32).unwrap()),
            1 => s.push(char::from_u32(0x80 + rng.below(0x800) as u32).unwrap()),
            2 => { if let Some(c) = char::from_u32(rng.below(0x11_0000) as u32) { s.push(c) } }
            3 => { let f = *rng.pick(FRAG); for _ in 0..rng.range(2, 5) { s += f; } }
            5 if rng.chance(1, 3) => { let d = dict().strs_or(); s += rng.pick(&d) }
            6 if rng.chance(1, 4) => s += &escape_const(rng, true),
            7 if rng.chance(1, 12) => { let n = dict().size(rng, 300); s += &long_trivia(rng, n) }
            8 if rng.chance(1, 12) => { let n = dict().size(rng, 300); let c = *rng.pick(&["IDENT", "SCONST", "ICONST", "FCONST", "BCONST", "XCONST", "PARAM", "Op"]); s += &long_word(rng, c, n) }
            4 => { let k = rng.range(1, 70); let c = *rng.pick(&['+', '-', '*', '<', '=', '@', '~', '/', '?']); for _ in 0..k { s.push(c) } }
            _ => s += rng.pick(FRAG),
        }
    }
    s
}

/// Small edits of a text
pub fn mutate(rng: &mut Rng, text: &str, n: usize) -> String {
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..n {
        let at = rng.below(v.len() + 1);
        match rng.below(6) {
            0 if !v.is_empty() => { let k = rng.range(1, 4).min(v.len() - at.min(v.len() - 1)); let a = at.min(v.len() - 1); v.drain(a..(a + k).min(v.len())); }
            1 if !v.is_empty() => { let a = at.min(v.len() - 1); let b = rng.below(v.len()); v.swap(a, b); }
            2 if !v.is_empty() => { let a = at.min(v.len() - 1); let e = (a + rng.range(1, 12)).min(v.len()); let part: Vec<char> = v[a..e].to_vec(); let to = rng.below(v.len() + 1); for (i, c) in part.into_iter().enumerate() { v.insert(to + i, c); } }
            3 if !v.is_empty() => { let a = at.min(v.len() - 1); v[a] = *rng.pick(&['\'', '"', '$', '\\', '-', '/', '*', ' ', '\n', ';', '(', ')', '0', 'e', 'é', '.', ':']); }
            _ => { let f = soup(rng, 1); for (i, c) in f.chars().enumerate() { v.insert(at + i, c); } }
        }
    }
    v.into_iter().collect()
}
