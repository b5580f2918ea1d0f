//! P11: operator precedence, against an independent operator-precedence parser.
use crate::core::build_tree;
use crate::core::{Kid, NodeV};
use crate::sut::*;
use fw::{rel, Cfg, Check, Verdict};
use refimpl::gen::Rng;
use std::collections::BTreeSet;

/// PostgreSQL's table, lowest first
mod lv { pub const OR: u8 = 1; pub const AND: u8 = 2; pub const NOT: u8 = 3; pub const IS: u8 = 4; pub const CMP: u8 = 5; pub const LIKE: u8 = 6; pub const ESCAPE: u8 = 7; pub const OP: u8 = 8; pub const ADD: u8 = 9; pub const MUL: u8 = 10; pub const POW: u8 = 11; pub const AT: u8 = 12; pub const COLLATE: u8 = 13; pub const UMINUS: u8 = 14; pub const CAST: u8 = 15; }
use lv::*;
fn nonassoc(l: u8) -> bool { matches!(l, IS | CMP | LIKE | ESCAPE) }
fn right(l: u8) -> bool { l == NOT || l == UMINUS }

#[derive(Clone, Copy, PartialEq)]
enum It {
    Atom, Open, Close,
    /// infix or postfix of this level; third: also in b_expr
    In(u8, bool), Post(u8, bool),
    /// prefix, and the infix level of the same sign if it has one
    Pre(u8, bool), Sign,
    Like, Escape, Between, And, Or,
}
use It::*;
const ITEMS: &[(&str, It)] = &[
    ("a", Atom), ("1", Atom), ("'s'", Atom), ("t.b", Atom), ("f(x)", Atom), ("$1", Atom), ("1.5", Atom), ("(select 1)", Atom), ("array[1]", Atom), ("case when a then b end", Atom), ("null", Atom), ("a[1]", Atom), ("exists (select 1)", Atom), ("row(1)", Atom), ("current_date", Atom), ("int '1'", Atom), ("(a).b", Atom), ("count(*)", Atom), ("true", Atom),
    ("(", Open), (")", Close),
    ("or", Or), ("and", And), ("not", Pre(NOT, false)),
    ("is null", Post(IS, false)), ("is not null", Post(IS, false)), ("isnull", Post(IS, false)), ("notnull", Post(IS, false)), ("is true", Post(IS, false)), ("is not unknown", Post(IS, false)), ("is not false", Post(IS, false)), ("is document", Post(IS, true)), ("is not document", Post(IS, true)), ("is normalized", Post(IS, false)), ("is not nfc normalized", Post(IS, false)), ("is json", Post(IS, false)), ("is not json", Post(IS, false)), ("is json object", Post(IS, false)),
    ("is distinct from", In(IS, true)), ("is not distinct from", In(IS, true)),
    ("<", In(CMP, true)), (">", In(CMP, true)), ("=", In(CMP, true)), ("<=", In(CMP, true)), (">=", In(CMP, true)), ("<>", In(CMP, true)), ("!=", In(CMP, true)),
    ("= any (array[1])", Post(CMP, false)), ("<> all (select 1)", Post(CMP, false)), ("< some (array[1])", Post(CMP, false)), ("|| any (array[1])", Post(OP, false)), ("like any (array[1])", Post(LIKE, false)), ("not like all (array[1])", Post(LIKE, false)), ("+ any (array[1])", Post(ADD, false)), ("operator(pg_catalog.=) any (array[1])", Post(OP, false)),
    ("like", Like), ("ilike", Like), ("not like", Like), ("not ilike", Like), ("similar to", Like), ("not similar to", Like), ("escape", Escape),
    ("in (1, 2)", Post(LIKE, false)), ("not in (1, 2)", Post(LIKE, false)), ("in (select 1)", Post(LIKE, false)), ("not in (select 1)", Post(LIKE, false)),
    ("between", Between), ("not between", Between), ("between symmetric", Between), ("not between symmetric", Between), ("between asymmetric", Between),
    ("||", In(OP, true)), ("->>", In(OP, true)), ("~", In(OP, true)), ("!~*", In(OP, true)), ("operator(pg_catalog.+)", In(OP, true)), ("operator(*)", In(OP, true)), ("@>", In(OP, true)), ("&&", In(OP, true)), ("?", In(OP, true)), ("<->", In(OP, true)), ("==", In(OP, true)), ("+@", In(OP, true)), ("**", In(OP, true)), ("%%", In(OP, true)),
    ("@", Pre(OP, true)), ("|/", Pre(OP, true)), ("!!", Pre(OP, true)),
    ("+", Sign), ("-", Sign),
    ("*", In(MUL, true)), ("/", In(MUL, true)), ("%", In(MUL, true)), ("^", In(POW, true)),
    ("at time zone", In(AT, false)), ("at local", Post(AT, false)), ("collate \"C\"", Post(COLLATE, false)), ("collate x.y", Post(COLLATE, false)),
    ("::int", Post(CAST, true)), ("::text[]", Post(CAST, true)), ("::numeric(3,1)", Post(CAST, true)), ("::pg_catalog.int4", Post(CAST, true)),
];
fn class(s: &str) -> Option<It> { ITEMS.iter().find(|i| i.0 == s).map(|i| i.1) }
/// can an operator of generic kind (||, @, …) also stand in prefix position?
fn prefix_op(s: &str) -> bool { matches!(class(s), Some(In(OP, _))) }
fn infix_op(s: &str) -> bool { matches!(class(s), Some(Pre(OP, _))) }

enum No { Skip, Reject }
struct Frame { start: usize, level: u8, infix: bool, like: bool }
struct P<'a> { it: &'a [(String, It)], at: usize, spans: BTreeSet<(usize, usize)> }
impl P<'_> {
    fn peek(&self) -> Option<(&str, It)> { self.it.get(self.at).map(|x| (x.0.as_str(), x.1)) }
    fn reduce(&mut self, ops: &mut Vec<Frame>, vals: &mut Vec<(usize, usize)>) {
        let f = ops.pop().unwrap();
        let r = vals.pop().unwrap();
        if f.infix { vals.pop(); }
        self.spans.insert((f.start, r.1));
        vals.push((f.start, r.1));
    }
    /// resolve pending operators against a token of this level
    fn settle(&mut self, l: u8, ops: &mut Vec<Frame>, vals: &mut Vec<(usize, usize)>) -> Result<(), No> {
        while let Some(f) = ops.last() {
            if f.level > l || (f.level == l && !nonassoc(l) && !right(l)) { self.reduce(ops, vals); }
            else if f.level == l && nonassoc(l) { return Err(No::Reject) }
            else { break }
        }
        Ok(())
    }
    /// an expression; `b`: only what b_expr allows. Stops before the token that cannot continue it.
    fn expr(&mut self, b: bool) -> Result<(usize, usize), No> {
        let mut ops: Vec<Frame> = vec![];
        let mut vals: Vec<(usize, usize)> = vec![];
        loop {
            // operand
            let at = self.at;
            let Some((s, k)) = self.peek() else { return Err(No::Skip) };
            match k {
                Atom => { self.at += 1; vals.push((at, at)); }
                Open => {
                    self.at += 1;
                    self.expr(false)?;
                    if !matches!(self.peek(), Some((_, Close))) { return Err(No::Skip) }
                    vals.push((at, self.at));
                    self.at += 1;
                }
                Sign => { self.at += 1; ops.push(Frame { start: at, level: UMINUS, infix: false, like: false }); continue }
                Pre(l, ok) => { if b && !ok { return Err(No::Reject) } self.at += 1; ops.push(Frame { start: at, level: l, infix: false, like: false }); continue }
                In(OP, _) if prefix_op(s) => { self.at += 1; ops.push(Frame { start: at, level: OP, infix: false, like: false }); continue }
                _ => return Err(No::Skip),
            }
            // operators after the operand
            loop {
                let at = self.at;
                let k = match self.peek() { Some((s, k)) => if infix_op(s) { In(OP, true) } else if k == Sign { In(ADD, true) } else { k }, None => Close };
                match k {
                    Close => { while !ops.is_empty() { self.reduce(&mut ops, &mut vals); } return Ok(vals[0]) }
                    And if b => { while !ops.is_empty() { self.reduce(&mut ops, &mut vals); } return Ok(vals[0]) }
                    Post(l, ok) => {
                        if b && !ok { return Err(No::Reject) }
                        self.settle(l, &mut ops, &mut vals)?;
                        let v = vals.pop().unwrap();
                        self.spans.insert((v.0, at));
                        vals.push((v.0, at));
                        self.at += 1;
                    }
                    In(..) | And | Or | Like => {
                        let (l, ok) = match k { In(l, ok) => (l, ok), And => (AND, false), Or => (OR, false), _ => (LIKE, false) };
                        if b && !ok { return Err(No::Reject) }
                        self.settle(l, &mut ops, &mut vals)?;
                        ops.push(Frame { start: vals.last().unwrap().0, level: l, infix: true, like: k == Like });
                        self.at += 1;
                        break;
                    }
                    Between => {
                        if b { return Err(No::Reject) }
                        self.settle(LIKE, &mut ops, &mut vals)?;
                        let start = vals.last().unwrap().0;
                        self.at += 1;
                        self.expr(true)?;
                        if !matches!(self.peek(), Some((_, And))) { return Err(No::Reject) }
                        self.at += 1;
                        ops.push(Frame { start, level: LIKE, infix: true, like: false });
                        break;
                    }
                    Escape => {
                        if b { return Err(No::Reject) }
                        while ops.last().is_some_and(|f| !f.like) { self.reduce(&mut ops, &mut vals); }
                        let Some(f) = ops.last_mut() else { return Err(No::Reject) };
                        f.like = false;
                        vals.pop();
                        self.at += 1;
                        break;
                    }
                    Atom | Open | Pre(..) => return Err(No::Skip),
                    Sign => unreachable!(),
                }
            }
        }
    }
}

const CTX: &[(&str, &str)] = &[("select ", ""), ("select 1 from t where ", ""), ("values (", ")"), ("update t set a = ", ""), ("select f(", ")"), ("select case when ", " then 1 end"), ("create table t (a int check (", "))"), ("select 1 from t order by ", " desc"), ("insert into t values (", ", 2)"), ("select array[", "]"), ("select ", " as x"), ("select 1 from t join u on ", "")];
/// [context, items…]
fn grouping(i: &[String]) -> Verdict {
    let Some((pre, post)) = i[0].parse::<usize>().ok().and_then(|k| CTX.get(k)) else { return Verdict::Skip };
    let mut it = vec![];
    for s in &i[1..] { let Some(k) = class(s) else { return Verdict::Skip }; it.push((s.clone(), k)); }
    let mut p = P { it: &it, at: 0, spans: Default::default() };
    let want = match p.expr(false) { Ok(_) if p.at == it.len() => Some(p.spans), Ok(_) | Err(No::Skip) => return Verdict::Skip, Err(No::Reject) => None };
    let mut text = pre.to_string();
    let mut st = std::collections::HashMap::new();
    let mut en = std::collections::HashMap::new();
    for (k, (s, _)) in it.iter().enumerate() { if k > 0 { text.push(' '); } st.insert(text.len(), k); text += s; en.insert(text.len(), k); }
    text += post;
    let show = |s: &BTreeSet<(usize, usize)>| -> String { s.iter().map(|(a, b)| format!("[{}]", i[1 + a..=1 + b].join(" "))).collect::<Vec<_>>().join(" ") };
    match (want, run(&text)) {
        (None, Got::Tree(_)) => Verdict::Fail(format!("accepted: these operators do not associate\ninput {text:?}")),
        (None, _) => Verdict::Ok(it.len() >= 4),
        (Some(w), Got::Tree(evs)) => {
            let mut got: BTreeSet<(usize, usize)> = BTreeSet::new();
            let ids = [spec().by_name["a_expr"], spec().by_name["b_expr"]];
            fn range(n: &NodeV, out: &mut Vec<(usize, usize)>) { for k in &n.kids { match k { Kid::N(x) => range(x, out), Kid::L(k, a, b) => if *k < spec().ws { out.push((*a, *b)) } } } }
            fn rec(n: &NodeV, ids: &[u32], f: &mut dyn FnMut(usize, usize)) {
                if ids.contains(&n.sym) {
                    let kids = n.kids.iter().filter(|k| match k { Kid::L(k, ..) => *k < spec().ws, _ => true }).count();
                    if kids >= 2 { let mut v = vec![]; range(n, &mut v); f(v[0].0, v[v.len() - 1].1); }
                }
                for k in &n.kids { if let Kid::N(x) = k { rec(x, ids, f); } }
            }
            rec(&build_tree(&evs).unwrap(), &ids, &mut |a, b| { if let (Some(&x), Some(&y)) = (st.get(&a), en.get(&b)) { got.insert((x, y)); } });
            // an operand such as f(x) is one item and no grouping
            got.retain(|(a, b)| a != b);
            let mut w = w;
            w.retain(|(a, b)| a != b);
            if got != w { return Verdict::Fail(format!("grouping: expected {}\n got {}\ninput {text:?}", show(&w), show(&got))); }
            Verdict::Ok(w.len() >= 2)
        }
        (Some(w), g) => Verdict::Fail(format!("rejected: expected the grouping {}, got {}\ninput {text:?}", show(&w), g.brief())),
    }
}
pub fn p11(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "expressions over 19 operands and 75 operators in 12 contexts: all pairs and triples of operators with and without prefix operators, and random expressions with parentheses; oracle: an operator-precedence parser written from PostgreSQL's documented table; non-trivial: at least two operators group, or a rejected chain of at least four items",
        vec![rel("grouping", 1, 1, grouping)]);
    c.assumptions.push("postfix forms (IS NULL, IN (...), op ANY (...)) are complete once read and may be followed by any operator, as in PostgreSQL's grammar".into());
    c
}
pub fn x11(c: &Check) {
    let seed = c.cfg.seed;
    let ops: Vec<&(&str, It)> = ITEMS.iter().filter(|i| !matches!(i.1, Atom | Open | Close)).collect();
    let n = ops.len();
    let atoms: Vec<&str> = ITEMS.iter().filter(|i| i.1 == Atom).map(|i| i.0).collect();
    // an operator placed after an operand, with what it needs to end in an operand again
    let put = |v: &mut Vec<String>, o: &(&str, It), r: &mut Rng, rich: bool| {
        let a = |r: &mut Rng| if rich { r.pick(&atoms).to_string() } else { "a".to_string() };
        match o.1 {
            Post(..) => v.push(o.0.into()),
            Pre(l, _) if l == NOT => { v.push(r.pick(&["=", "+", "and", "||", "<", "like", "or", "is distinct from"]).to_string()); v.push(o.0.into()); v.push(a(r)); }
            Between => { v.push(o.0.into()); v.push(a(r)); v.push("and".into()); v.push(a(r)); }
            _ => { v.push(o.0.into()); v.push(a(r)); }
        }
    };
    c.stage("all operator triples", (n * n * n) as u64, || (), |_, w, i| {
        let i = i as usize;
        let mut r = Rng::new(seed, i as u64);
        let mut v = vec![if i % 7 == 0 { r.below(CTX.len()) } else { 0 }.to_string()];
        if i % 5 == 1 { v.push(r.pick(&["not", "-", "+", "@"]).to_string()); }
        v.push("a".into());
        for k in [i % n, i / n % n, i / n / n] { put(&mut v, ops[k], &mut r, false); }
        w.eval("grouping", v);
    });
    c.stage("all operator pairs in every context", (n * n * CTX.len()) as u64, || (), |_, w, i| {
        let i = i as usize;
        let mut r = Rng::new(seed ^ 2, i as u64);
        for pre in ["", "not", "-", "@"] {
            let mut v = vec![(i / n / n).to_string()];
            if !pre.is_empty() { v.push(pre.into()); }
            v.push(r.pick(&atoms).to_string());
            put(&mut v, ops[i % n], &mut r, true);
            put(&mut v, ops[i / n % n], &mut r, true);
            if !w.eval("grouping", v) { return; }
        }
    });
    // prefix operators in operand position after every operator
    c.stage("prefix operators as right operands", (n * n * 6) as u64, || (), |_, w, i| {
        let i = i as usize;
        let pre = ["not", "-", "+", "@", "||", "!!"][i / n / n];
        let mut v = vec!["0".to_string(), "a".into()];
        let mut r = Rng::new(seed ^ 3, i as u64);
        put(&mut v, ops[i % n], &mut r, false);
        if class(&v[v.len() - 1]) == Some(Atom) { let l = v.len() - 1; v.insert(l, pre.into()); }
        put(&mut v, ops[i / n % n], &mut r, false);
        w.eval("grouping", v);
    });
    c.stage("random expressions", c.cfg.n(250_000, 10_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 4, i);
        fn gen(r: &mut Rng, v: &mut Vec<String>, depth: usize, ops: &[&(&str, It)], atoms: &[&str], put: &dyn Fn(&mut Vec<String>, &(&str, It), &mut Rng, bool)) {
            let n = r.range(1, 6);
            for k in 0..n {
                if k == 0 {
                    while r.chance(1, 4) { v.push(r.pick(&["not", "-", "+", "@", "!!"]).to_string()); }
                    if depth > 0 && r.chance(1, 3) { v.push("(".into()); gen(r, v, depth - 1, ops, atoms, put); v.push(")".into()); } else { v.push(r.pick(atoms).to_string()); }
                } else {
                    let o = *r.pick(ops);
                    put(v, o, r, true);
                    if class(v.last().unwrap()) == Some(Atom) {
                        if depth > 0 && r.chance(1, 4) { v.pop(); v.push("(".into()); gen(r, v, depth - 1, ops, atoms, put); v.push(")".into()); }
                        else if r.chance(1, 5) { let l = v.len() - 1; v.insert(l, r.pick(&["not", "-", "+", "@", "!!"]).to_string()); }
                    }
                }
            }
        }
        let mut v = vec![r.below(CTX.len()).to_string()];
        gen(&mut r, &mut v, 3, &ops, &atoms, &put);
        w.eval("grouping", v);
    });
    // expressions likely to be accepted: at most one of each non-associative level
    c.stage("random accepted expressions", c.cfg.n(150_000, 6_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 5, i);
        let assoc: Vec<&&(&str, It)> = ops.iter().filter(|o| matches!(o.1, In(l, _) if !nonassoc(l)) || matches!(o.1, And | Or | Sign | Post(..))).collect();
        let mut v = vec![r.below(CTX.len()).to_string(), "a".to_string()];
        for _ in 0..r.range(2, 10) { let o = **r.pick(&assoc); put(&mut v, o, &mut r, true); if r.chance(1, 5) && class(v.last().unwrap()) == Some(Atom) { let l = v.len() - 1; v.insert(l, r.pick(&["-", "@", "+"]).to_string()); } }
        w.eval("grouping", v);
    });
}
