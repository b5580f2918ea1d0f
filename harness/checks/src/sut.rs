//! The parser under test, seen as the reference sees a parse.
use postgresql_cst_parser::{parse, syntax_kind::SyntaxKind, NodeOrToken, ParserError, ResolvedNode};
use refimpl::scan::{ScanErr, Scanner};
use refimpl::spec::{Analysis, Ev, Spec};
use std::cell::RefCell;
use std::sync::OnceLock;

pub fn dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string()) }

pub fn spec() -> &'static Spec {
    static S: OnceLock<Spec> = OnceLock::new();
    S.get_or_init(|| Spec::load(&format!("{}/spec", dir())))
}

pub fn with_scanner<R>(f: impl FnOnce(&mut Scanner) -> R) -> R {
    thread_local!(static SC: RefCell<Option<Scanner>> = const { RefCell::new(None) });
    SC.with(|s| { let mut s = s.borrow_mut(); f(s.get_or_insert_with(|| spec().scanner())) })
}
pub fn analyze(text: &str) -> Analysis { with_scanner(|s| spec().analyze(s, text)) }

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Tree(Vec<Ev>),
    Syntax(usize, usize),
    Scan(ScanErr),
}
impl Got {
    pub fn accepted(&self) -> bool { matches!(self, Got::Tree(_)) }
    pub fn brief(&self) -> String {
        match self { Got::Tree(_) => "accepted".into(), Got::Syntax(a, b) => format!("syntax error at {a}..{b}"), Got::Scan(e) => format!("scan error {e:?}") }
    }
}

/// SyntaxKind -> id in the reference's numbering, by name
pub fn kind_id(k: SyntaxKind) -> u32 {
    static MAP: OnceLock<std::sync::Mutex<std::collections::HashMap<u32, u32>>> = OnceLock::new();
    thread_local!(static L: RefCell<Vec<u32>> = const { RefCell::new(vec![]) });
    let raw = k as u32;
    L.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(&v) = l.get(raw as usize) { if v != u32::MAX { return v; } }
        let m = MAP.get_or_init(Default::default);
        let v = *m.lock().unwrap().entry(raw).or_insert_with(|| spec().by_name.get(&format!("{k:?}")).copied().unwrap_or(1_000_000 + raw));
        if l.len() <= raw as usize { l.resize(raw as usize + 1, u32::MAX); }
        l[raw as usize] = v;
        v
    })
}

pub fn kind_name(k: u32) -> String { spec().names.get(k as usize).cloned().unwrap_or_else(|| format!("<unknown kind {}>", k - 1_000_000)) }

pub fn events(root: &ResolvedNode) -> Vec<Ev> {
    fn rec(n: &ResolvedNode, out: &mut Vec<Ev>) {
        out.push(Ev::Open(kind_id(n.kind())));
        for c in n.children_with_tokens() {
            match c {
                NodeOrToken::Node(n) => rec(n, out),
                NodeOrToken::Token(t) => { let r = t.text_range(); out.push(Ev::Leaf(kind_id(t.kind()), r.start().into(), r.end().into())); }
            }
        }
        out.push(Ev::Close);
    }
    let mut v = vec![];
    rec(root, &mut v);
    v
}

pub fn map_err(e: &ParserError) -> Got {
    match e {
        ParserError::ParseError { start_byte_pos, end_byte_pos, .. } => Got::Syntax(*start_byte_pos, *end_byte_pos),
        ParserError::ScanReport(r) => Got::Scan(ScanErr::Report { message: r.message.clone(), detail: r.detail.clone(), position: r.position_in_bytes }),
        ParserError::ScanError { message } => Got::Scan(ScanErr::Msg(message.clone())),
    }
}

pub fn run(text: &str) -> Got {
    match parse(text) {
        Ok(t) => Got::Tree(events(&t)),
        Err(e) => map_err(&e),
    }
}

pub fn show(evs: &[Ev], text: &str) -> String {
    let mut s = String::new();
    let mut d = 0usize;
    for e in evs {
        match e {
            Ev::Open(k) => { s += &format!("{}{}\n", "  ".repeat(d), kind_name(*k)); d += 1; }
            Ev::Close => d = d.saturating_sub(1),
            Ev::Leaf(k, a, b) => s += &format!("{}{}@{}..{} {:?}\n", "  ".repeat(d), kind_name(*k), a, b, text.get(*a as usize..*b as usize).unwrap_or("<bad range>")),
        }
    }
    s
}

/// First difference of two event lists, shown in context
pub fn diff(want: &[Ev], got: &[Ev], text: &str) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let f = |v: &[Ev]| v[i.saturating_sub(6).min(v.len())..(i + 6).min(v.len())].iter().map(|e| match e {
        Ev::Open(k) => format!("({}", kind_name(*k)), Ev::Close => ")".into(),
        Ev::Leaf(k, a, b) => format!("{}[{:?}@{}..{}]", kind_name(*k), text.get(*a as usize..*b as usize).unwrap_or("<bad range>"), a, b),
    }).collect::<Vec<_>>().join(" ");
    format!("expected …{}…\n     got …{}…", f(want), f(got))
}
