//! Metamorphic properties: P08 P09 P10 P12 P13 P25.
use crate::core::*;
use crate::gens::*;
use crate::sut::*;
use fw::{rel, Cfg, Check, Verdict};
use refimpl::gen::*;
use refimpl::scan::{filter, is_comment, ScanErr, Tok};
use refimpl::spec::{skeleton, Ev};

pub fn scan(t: &str) -> Result<Vec<Tok>, ScanErr> { with_scanner(|s| s.scan(t)) }
fn real(t: &[Tok]) -> Vec<Tok> { t.iter().filter(|t| !is_comment(&t.kind)).cloned().collect() }
/// does the text scan to exactly these pieces (byte ranges), comments aside?
fn scans_to(text: &str, pieces: &[(usize, usize)]) -> Option<Vec<Tok>> {
    let t = real(&scan(text).ok()?);
    (t.len() == pieces.len() && t.iter().zip(pieces).all(|(t, p)| (t.start, t.end) == *p)).then_some(t)
}

// ---------------------------------------------------------------- P08
/// The result with byte positions replaced by token numbers, trivia left out
fn by_token(g: &Got, pieces: &[(usize, usize)], len: usize) -> Result<(String, Vec<Ev>), String> {
    let st = |a: usize| pieces.iter().position(|p| p.0 == a);
    let en = |b: usize| pieces.iter().position(|p| p.1 == b);
    match g {
        Got::Tree(e) => {
            let mut v = skeleton(e, spec());
            for x in &mut v { if let Ev::Leaf(_, a, b) = x { match (st(*a as usize), en(*b as usize)) { (Some(i), Some(j)) => { *a = i as u32; *b = j as u32 } _ => return Err(format!("leaf: {a}..{b} is not a token")) } } }
            Ok(("accepted".into(), v))
        }
        Got::Syntax(a, b) => if let (Some(i), Some(j)) = (st(*a), en(*b)) { Ok((format!("syntax error at token {i}..={j}"), vec![])) } else if *a == len && *b == len { Ok(("syntax error at the end".into(), vec![])) } else { Err(format!("error range: {a}..{b} is not a token")) },
        Got::Scan(_) => Ok(("scan error".into(), vec![])),
    }
}
/// [leading A, leading B] then groups [token, trivia A, trivia B]
fn trivia_free(i: &[String]) -> Verdict {
    if i.len() < 2 || (i.len() - 2) % 3 != 0 { return Verdict::Skip; }
    let (mut a, mut b) = (i[0].clone(), i[1].clone());
    let (mut pa, mut pb) = (vec![], vec![]);
    for g in i[2..].chunks(3) {
        pa.push((a.len(), a.len() + g[0].len()));
        pb.push((b.len(), b.len() + g[0].len()));
        a += &g[0]; b += &g[0];
        a += &g[1]; b += &g[2];
    }
    let (Some(ta), Some(tb)) = (scans_to(&a, &pa), scans_to(&b, &pb)) else { return Verdict::Skip };
    if ta.iter().zip(&tb).any(|(x, y)| x.kind != y.kind) { return Verdict::Skip; }
    let (ga, gb) = (run(&a), run(&b));
    let bad = |m: String| Verdict::Fail(format!("{m}\nA {a:?}\nB {b:?}"));
    match (by_token(&ga, &pa, a.len()), by_token(&gb, &pb, b.len())) {
        (Ok(x), Ok(y)) => {
            if x.0 != y.0 { return bad(format!("outcome: A gives {}, B gives {}", x.0, y.0)); }
            if x.1 != y.1 { return bad(format!("tree: the trees differ\nA {}\nB {}", show(&skeleton_of(&ga), &a), show(&skeleton_of(&gb), &b))); }
            Verdict::Ok(ta.len() >= 2 && a != b)
        }
        (Err(e), _) | (_, Err(e)) => bad(e),
    }
}
fn skeleton_of(g: &Got) -> Vec<Ev> { match g { Got::Tree(e) => skeleton(e, spec()), _ => vec![] } }

/// tokens of a text with the trivia behind each; leading trivia apart
fn pieces(text: &str) -> Option<(String, Vec<(String, String)>)> {
    let t = real(&scan(text).ok()?);
    let lead = text[..t.first().map_or(text.len(), |t| t.start)].to_string();
    let v = t.iter().enumerate().map(|(i, k)| (text[k.start..k.end].to_string(), text[k.end..t.get(i + 1).map_or(text.len(), |n| n.start)].to_string())).collect();
    Some((lead, v))
}
fn any_trivia(r: &mut Rng) -> String {
    match r.below(8) {
        0 => " ".into(),
        1 => "\n".into(),
        2 => r.pick(COMMENTS).to_string(),
        3 => r.pick(SPACES).to_string(),
        4 => String::new(),
        5 if r.chance(1, 3) => { let n = dict().size(r, 900); long_trivia(r, n) }
        5 => { let mut s = String::new(); for _ in 0..r.range(1, 5) { s += r.pick(COMMENTS) } s }
        6 => format!("/*{}*/", soup(r, 2).replace("*/", "").replace("/*", "").replace('/', "").replace('*', "")),
        _ => separator(r),
    }
}
fn retrivia(r: &mut Rng, text: &str) -> Option<Vec<String>> {
    let (lead, ps) = pieces(text)?;
    let mut v = vec![lead, if r.chance(1, 2) { any_trivia(r) } else { String::new() }];
    let all = r.chance(1, 3);
    let n = ps.len();
    let hot = r.below(n.max(1));
    for (k, (t, tr)) in ps.into_iter().enumerate() {
        let other = if all || k == hot || r.chance(1, 6) {
            let x = any_trivia(r);
            // a separator that keeps the tokens apart when nothing else does
            if x.is_empty() && !tr.is_empty() && r.chance(1, 2) { " ".into() } else { x }
        } else { tr.clone() };
        v.push(t); v.push(tr); v.push(other);
    }
    if n > 0 && r.chance(1, 4) { let l = v.len() - 1; v[l] += r.pick::<&str>(&["--", "-- end", "--é", " --\r"]); }
    Some(v)
}
/// [before, gap A, gap B, after]: white space of any kind inside a literal continued over lines, or between tokens
fn gap_free(i: &[String]) -> Verdict {
    let [pre, ga, gb, post] = i else { return Verdict::Skip };
    let blank = |s: &str| !s.is_empty() && s.bytes().all(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c));
    if !blank(ga) || !blank(gb) || ga == gb { return Verdict::Skip; }
    let (a, b) = (format!("{pre}{ga}{post}"), format!("{pre}{gb}{post}"));
    let (Ok(ta), Ok(tb)) = (scan(&a), scan(&b)) else { return Verdict::Skip };
    // the same tokens and comments, cut from the same places
    let shift = |p: usize| if p >= pre.len() + ga.len() { p - ga.len() + gb.len() } else { p };
    if ta.len() != tb.len() || ta.iter().zip(&tb).any(|(x, y)| x.kind != y.kind || shift(x.start) != y.start || shift(x.end) != y.end) { return Verdict::Skip; }
    let (ta, tb) = (real(&ta), real(&tb));
    let at = |t: &[Tok]| t.iter().map(|t| (t.start, t.end)).collect::<Vec<_>>();
    let (ra, rb) = (run(&a), run(&b));
    let bad = |m: String| Verdict::Fail(format!("{m}\nA {a:?}\nB {b:?}"));
    match (by_token(&ra, &at(&ta), a.len()), by_token(&rb, &at(&tb), b.len())) {
        (Ok(x), Ok(y)) => {
            if x.0 != y.0 { return bad(format!("outcome: A gives {}, B gives {}", x.0, y.0)); }
            if x.1 != y.1 { return bad(format!("tree: the trees differ\nA {}\nB {}", show(&skeleton_of(&ra), &a), show(&skeleton_of(&rb), &b))); }
            Verdict::Ok(ta.iter().any(|t| t.start < pre.len() && t.end > pre.len() + ga.len()))
        }
        (Err(e), _) | (_, Err(e)) => bad(e),
    }
}
fn blanks(r: &mut Rng) -> String {
    let mut s: Vec<u8> = (0..*r.pick(&[0usize, 0, 1, 1, 2, 3, 5])).map(|_| *r.pick(b" \t\x0b\x0c\r\n")).collect();
    if r.chance(9, 10) { let k = r.below(s.len() + 1); s.insert(k, *r.pick(b"\n\n\n\r")); }
    if s.is_empty() { s.push(b' '); }
    String::from_utf8(s).unwrap()
}
/// a text with a literal cut in two
fn continued(r: &mut Rng, text: &str) -> Option<Vec<String>> {
    let lits: Vec<(usize, usize)> = scan(text).ok()?.iter().filter(|t| matches!(t.kind.as_str(), "SCONST" | "USCONST" | "BCONST" | "XCONST") && text[t.start..t.end].ends_with('\'') && !text[t.start..t.end].starts_with('$')).map(|t| (t.start, t.end)).collect();
    if lits.is_empty() { return None; }
    let (a, e) = *r.pick(&lits);
    let q = a + text[a..e].find('\'')? + 1;
    let mut k = r.range(q, e - 1);
    while !text.is_char_boundary(k) { k -= 1; }
    Some(vec![format!("{}'", &text[..k]), blanks(r), blanks(r), format!("'{}", &text[k..])])
}
pub fn p08(cfg: Cfg) -> Check {
    Check::new(cfg, "pairs of texts with the same tokens and different whitespace and comments between them (both scanned by the reference scanner to be sure of that), over sentences, corpus, edited and mutated texts and automaton cells; non-trivial: at least two tokens and different trivia",
        vec![rel("trivia", 3, 2, trivia_free), rel("continuation gap", 1, 4, gap_free)])
}
pub fn x08(c: &Check) {
    let seed = c.cfg.seed;
    let st = |name: &str, n: u64, f: &(dyn Fn(&mut Rng) -> String + Sync)| {
        let salt = fw::hash(&[name.to_string()]);
        c.stage(name, n, || (), |_, w, i| { let mut r = Rng::new(seed ^ salt, i); let t = f(&mut r); if let Some(v) = retrivia(&mut r, &t) { w.eval("trivia", v); } });
    };
    c.stage("corpus", g().corpus.len() as u64 * 4, || (), |_, w, i| { let mut r = Rng::new(seed ^ 8, i); if let Some(v) = retrivia(&mut r, &g().corpus[i as usize / 4]) { w.eval("trivia", v); } });
    st("sentences", c.cfg.n(150_000, 6_000_000), &valid_sql);
    st("sentences and neighbours", c.cfg.n(60_000, 3_000_000), &sql);
    st("literal neighbourhoods", c.cfg.n(80_000, 3_000_000), &literal_soup);
    st("sizes", c.cfg.n(12_000, 600_000), &sized);
    st("beyond 64 K", c.cfg.n(100, 3_000), &big_text);
    st("soup", c.cfg.n(60_000, 3_000_000), &|r| soup(r, 6));
    st("two-word forms", c.cfg.n(40_000, 1_000_000), &|r| lookahead_text(r));
    c.stage("literals continued over lines", c.cfg.n(60_000, 2_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 0x8c0, i); let t = match r.below(3) { 0 => valid_sql(&mut r), 1 => format!("select {}", r.pick::<&str>(SCONSTS)), _ => literal_soup(&mut r) }; if let Some(v) = continued(&mut r, &t) { w.eval("continuation gap", v); } });
    cells(c, "automaton cells", 0, 0, |w, t| { let mut r = Rng::new(seed, fw::hash(&[t.clone()])); if !r.chance(1, 5) && !c.cfg.thorough() { return true; } match retrivia(&mut r, &t) { Some(v) => w.eval("trivia", v), None => true } });
}

// ---------------------------------------------------------------- P09
/// may the letters at this position of the token be recased?
fn free_letters(t: &Tok, s: &str) -> Vec<bool> {
    let b = s.as_bytes();
    let all = |v: bool| vec![v; b.len()];
    match t.kind.as_str() {
        "IDENT" if b[0] == b'"' => all(false),
        "SCONST" | "USCONST" | "BCONST" | "XCONST" | "UIDENT" => match b.iter().position(|&c| c == b'\'' || c == b'"' || c == b'$') {
            Some(_) if b[0] == b'$' => all(false),
            Some(p) => (0..b.len()).map(|i| i < p).collect(),
            None => all(false),
        },
        k if is_comment(k) => all(false),
        _ => all(true),
    }
}
fn free_mask(text: &str) -> Option<Vec<bool>> {
    let mut m = vec![false; text.len()];
    for t in scan(text).ok()? { for (i, f) in free_letters(&t, &text[t.start..t.end]).into_iter().enumerate() { m[t.start + i] = f; } }
    Some(m)
}
/// groups [piece A, piece B]
fn case_free(i: &[String]) -> Verdict {
    if i.len() % 2 != 0 { return Verdict::Skip; }
    let a: String = i.iter().step_by(2).cloned().collect();
    let b: String = i.iter().skip(1).step_by(2).cloned().collect();
    if a.len() != b.len() || !a.eq_ignore_ascii_case(&b) { return Verdict::Skip; }
    let (Some(ma), Some(mb)) = (free_mask(&a), free_mask(&b)) else { return Verdict::Skip };
    if a.bytes().zip(b.bytes()).enumerate().any(|(k, (x, y))| x != y && !(ma[k] && mb[k])) { return Verdict::Skip; }
    let (ga, gb) = (run(&a), run(&b));
    if ga != gb {
        let d = match (&ga, &gb) { (Got::Tree(x), Got::Tree(y)) => format!("tree: A and B differ: {}", diff(x, y, &a)), _ => format!("outcome: A gives {}, B gives {}", ga.brief(), gb.brief()) };
        return Verdict::Fail(format!("{d}\nA {a:?}\nB {b:?}"));
    }
    Verdict::Ok(a != b)
}
fn recase(r: &mut Rng, text: &str) -> Option<Vec<String>> {
    let m = free_mask(text)?;
    let (lead, ps) = pieces(text)?;
    let mode = r.below(4);
    let hot = r.below(ps.len().max(1));
    let mut at = lead.len();
    let mut v = vec![lead.clone(), lead];
    for (k, (t, tr)) in ps.into_iter().enumerate() {
        let a = format!("{t}{tr}");
        let b: String = a.char_indices().map(|(i, c)| {
            if !m.get(at + i).copied().unwrap_or(false) || !c.is_ascii() { return c; }
            match mode { 0 => c.to_ascii_uppercase(), 1 => c.to_ascii_lowercase(), 2 if k != hot => c, _ => if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }
        }).collect();
        at += a.len();
        v.push(a); v.push(b);
    }
    Some(v)
}
/// a keyword with a letter replaced by its non-ASCII look-alike is not that keyword
fn lookalike(i: &[String]) -> Verdict {
    let w = &i[0];
    if w.is_empty() || w.is_ascii() || !w.chars().all(|c| c.is_ascii_lowercase() || c == '_' || !c.is_ascii()) { return Verdict::Skip; }
    let t = format!("select 1 as {w}, {w} from {w}");
    let same = format!("select 1 as {}, {} from {}", "z".repeat(w.len()), "z".repeat(w.len()), "z".repeat(w.len()));
    let (x, y) = (run(&t), run(&same));
    if x != y { return Verdict::Fail(format!("lookalike: {w:?} is not read as an identifier ({})", x.brief())); }
    Verdict::Ok(true)
}
pub fn p09(cfg: Cfg) -> Check {
    Check::new(cfg, "pairs of texts that differ only in the ASCII case of letters outside quoted text and comments; keywords with letters replaced by non-ASCII characters that case-fold to ASCII; non-trivial: the two texts differ",
        vec![rel("case", 2, 0, case_free), rel("lookalike", 0, 0, lookalike)])
}
pub fn x09(c: &Check) {
    let seed = c.cfg.seed;
    let st = |name: &str, n: u64, f: &(dyn Fn(&mut Rng) -> String + Sync)| {
        let salt = fw::hash(&[name.to_string()]);
        c.stage(name, n, || (), |_, w, i| { let mut r = Rng::new(seed ^ salt, i); let t = f(&mut r); if let Some(v) = recase(&mut r, &t) { w.eval("case", v); } });
    };
    // every keyword, alone and in name positions, in several case patterns
    let kw = &spec().kw;
    const CTX: &[(&str, &str)] = &[("", ""), ("select 1 as ", ""), ("select ", ""), ("select 1 ", ""), ("create table ", " (a int)"), ("select * from t ", " x"), ("alter table t ", " x"), ("create ", ""), ("drop ", " x"), ("select a.", " from t"), ("select not a ", " b")];
    c.stage("keywords", (kw.len() * CTX.len()) as u64, || (), |_, w, i| {
        let (k, (a, b)) = (&kw[i as usize / CTX.len()].word, CTX[i as usize % CTX.len()]);
        let t = format!("{a}{k}{b}");
        let mut r = Rng::new(seed, i);
        for j in 0..6 {
            let n = match j { 0 => k.to_ascii_uppercase(), 1 => { let mut x = k.clone(); x[..1].make_ascii_uppercase(); x } 2 => { let mut x = k.to_ascii_uppercase(); x[..1].make_ascii_lowercase(); x } 3 => { let mut x = k.clone(); let l = x.len(); x[l - 1..].make_ascii_uppercase(); x } _ => random_case(&mut r, k) };
            if !w.eval("case", vec![t.clone(), format!("{a}{n}{b}")]) { return; }
        }
        for (x, y) in [('k', '\u{212a}'), ('s', 'ſ'), ('i', 'ı'), ('i', 'İ'), ('a', 'ａ'), ('e', 'é')] { if i as usize % CTX.len() == 0 && k.contains(x) { if !w.eval("lookalike", vec![k.replace(x, &y.to_string())]) { return; } if !w.eval("lookalike", vec![k.replacen(x, &y.to_string(), 1)]) { return; } } }
    });
    c.stage("corpus", g().corpus.len() as u64 * 4, || (), |_, w, i| { let mut r = Rng::new(seed ^ 9, i); if let Some(v) = recase(&mut r, &g().corpus[i as usize / 4]) { w.eval("case", v); } });
    st("sentences", c.cfg.n(120_000, 5_000_000), &valid_sql);
    st("sentences and neighbours", c.cfg.n(60_000, 3_000_000), &sql);
    st("literal neighbourhoods", c.cfg.n(120_000, 4_000_000), &literal_soup);
    st("sizes", c.cfg.n(12_000, 600_000), &sized);
    st("soup", c.cfg.n(100_000, 5_000_000), &|r| soup(r, 6));
    st("two-word forms", c.cfg.n(30_000, 1_000_000), &|r| lookahead_text(r));
    st("prefixes and numbers", c.cfg.n(60_000, 2_000_000), &|r| {
        let mut s = String::from("select ");
        for i in 0..r.range(1, 4) { if i > 0 { s += ", " }
            s += r.pick::<&str>(&["e'\\n'", "e'\\x4A'", "e'\\uabCD'", "b'01'", "x'aBcD'", "n'a'", "u&'\\00e9'", "u&\"A\\00E9\"", "u&'a!00e9' uescape '!'", "0xabc", "0xAbC_dEf", "0o17", "0b11", "1e5", "1.5e-3", ".5e+2", "0x80000000", "0b1111", "$1", "a$b", "été", "\"Ab\"", "$Tag$ x $Tag$", "$a$ $A$ $a$", "1 as x", "e'\\\\'", "x'A'\n'b'", "e'a'\n'\\''"]); }
        s
    });
    cells(c, "automaton cells", 0, 0, |w, t| { let mut r = Rng::new(seed, fw::hash(&[t.clone()])); if !r.chance(1, 6) && !c.cfg.thorough() { return true; } match recase(&mut r, &t) { Some(v) => w.eval("case", v), None => true } });
}

// ---------------------------------------------------------------- P10
/// the toplevel_stmt nodes of a tree, without trivia, with their byte ranges
fn statements(evs: &[Ev]) -> Vec<(usize, usize, Vec<Ev>)> {
    let id = spec().by_name["toplevel_stmt"];
    let evs = skeleton(evs, spec());
    let mut out = vec![];
    let mut i = 0;
    while i < evs.len() {
        if evs[i] == Ev::Open(id) {
            let mut d = 0;
            let mut j = i;
            loop { match evs[j] { Ev::Open(_) => d += 1, Ev::Close => { d -= 1; if d == 0 { break } } _ => {} } j += 1; }
            let v: Vec<Ev> = evs[i..=j].to_vec();
            let a = v.iter().find_map(|e| if let Ev::Leaf(_, a, _) = e { Some(*a) } else { None }).unwrap_or(0) as usize;
            let b = v.iter().rev().find_map(|e| if let Ev::Leaf(_, _, b) = e { Some(*b) } else { None }).unwrap_or(0) as usize;
            out.push((a, b, v));
            i = j + 1;
        } else { i += 1; }
    }
    out
}
fn shift(v: &[Ev], by: i64) -> Vec<Ev> { v.iter().map(|e| match e { Ev::Leaf(k, a, b) => Ev::Leaf(*k, (*a as i64 + by) as u32, (*b as i64 + by) as u32), e => *e }).collect() }
/// statements, each possibly empty or only trivia; joined by semicolons
fn joined(i: &[String]) -> Verdict {
    if i.is_empty() { return Verdict::Skip; }
    let mut text = String::new();
    let mut ps = vec![];
    let mut want: Vec<Vec<Ev>> = vec![];
    for (k, s) in i.iter().enumerate() {
        if k > 0 { ps.push((text.len(), text.len() + 1)); text.push(';'); }
        let Ok(t) = scan(s) else { return Verdict::Skip };
        for t in real(&t) { ps.push((text.len() + t.start, text.len() + t.end)); }
        let Got::Tree(e) = run(s) else { return Verdict::Skip };
        let st = statements(&e);
        if st.len() > 1 || (st.is_empty() && !real(&t).is_empty()) { return Verdict::Skip; }
        for x in st { want.push(shift(&x.2, text.len() as i64)); }
        text += s;
    }
    if scans_to(&text, &ps).is_none() { return Verdict::Skip; }
    match run(&text) {
        Got::Tree(e) => {
            let got: Vec<Vec<Ev>> = statements(&e).into_iter().map(|x| x.2).collect();
            if got.len() != want.len() { return Verdict::Fail(format!("count: {} statements joined, {} found\ninput {text:?}", want.len(), got.len())); }
            for (w, g) in want.iter().zip(&got) { if w != g { return Verdict::Fail(format!("tree: {}\ninput {text:?}", diff(w, g, &text))); } }
            Verdict::Ok(i.len() >= 2 && !want.is_empty())
        }
        g => Verdict::Fail(format!("rejected: each statement is accepted alone, together {}\ninput {text:?}", g.brief())),
    }
}
fn split(i: &[String]) -> Verdict {
    let text = &i[0];
    let Got::Tree(e) = run(text) else { return Verdict::Skip };
    let st = statements(&e);
    for (a, b, v) in &st {
        match run(&text[*a..*b]) {
            Got::Tree(x) => { let s = statements(&x); if s.len() != 1 || shift(&s[0].2, *a as i64) != *v { return Verdict::Fail(format!("tree: the statement {:?} parses differently alone\ninput {text:?}", &text[*a..*b])); } }
            g => return Verdict::Fail(format!("rejected: the statement {:?} alone {}\ninput {text:?}", &text[*a..*b], g.brief())),
        }
    }
    // extra semicolons: before, after and between
    let last_line_comment = scan(text).ok().and_then(|t| t.last().cloned()).map_or(false, |t| t.kind == "SQL_COMMENT" && t.end == text.len());
    if !last_line_comment {
        for (pre, post) in [(";", ";"), (";;", ""), ("", ";\n;")] {
            let t = format!("{pre}{text}{post}");
            match run(&t) {
                Got::Tree(x) => { let s = statements(&x); if s.len() != st.len() || s.iter().zip(&st).any(|(p, q)| p.2 != shift(&q.2, pre.len() as i64)) { return Verdict::Fail(format!("semicolons: extra semicolons change the statements of {t:?}")); } }
                g => return Verdict::Fail(format!("semicolons: {t:?} {}", g.brief())),
            }
        }
    }
    Verdict::Ok(!st.is_empty())
}
pub fn p10(cfg: Cfg) -> Check {
    Check::new(cfg, "lists of statements accepted alone (sentences, corpus, empty statements, trivia) joined by semicolons, and accepted texts split at their statements; non-trivial: at least two parts and one non-empty statement, or an accepted text with a statement",
        vec![rel("joined", 1, 0, joined), rel("split", 0, 0, split)])
}
pub fn x10(c: &Check) {
    let seed = c.cfg.seed;
    // accepted statements of every kind, gathered once
    let one = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => trivia(r),
            1 => r.pick::<&str>(&["", "", " ", "begin", "end", "commit", "rollback", "table t", "abort", "select", "select 1 from t where a", "create function f() returns int begin atomic select 1; select 2; end", "create procedure p() begin atomic end", "values (1)", "explain select 1", "checkpoint", "select a from t for update", "select 'a'", "select 1 --x\n", "declare c cursor for select 1", "create rule r as on insert to t do also (select 1; select 2)"]).to_string(),
            2 => { let s = r.pick(&g().corpus).clone(); s.trim_end().trim_end_matches(';').to_string() }
            3 => { let v = stmt(r); dense_trivia(r, &v) }
            _ => { let v = stmt(r); g().words.render_fancy(r, &v) }
        }
    };
    c.stage("joined", c.cfg.n(90_000, 4_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 10, i); let n = r.range(2, 5); w.eval("joined", (0..n).map(|_| { let s = one(&mut r); if s.contains("--") { s + "\n" } else { s } }).collect()); });
    c.stage("corpus pairs", c.cfg.n(8_000, 200_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 11, i); w.eval("joined", (0..2).map(|_| r.pick(&g().corpus).trim_end().trim_end_matches(';').to_string() + "\n").collect()); });
    stage_sql(c, "split sizes", "split", c.cfg.n(8_000, 400_000), sized);
    c.stage("joined sizes", c.cfg.n(8_000, 400_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 14, i); let n = r.range(2, 3); w.eval("joined", (0..n).map(|_| if r.chance(2, 3) { sized(&mut r) + "\n" } else { one(&mut r) + "\n" }).collect()); });
    stage_sql(c, "split sentences", "split", c.cfg.n(50_000, 2_000_000), valid_sql);
    corpus_stage(c, "split");
    cells(c, "split automaton cells", 0, 0, |w, t| { let mut r = Rng::new(seed, fw::hash(&[t.clone()])); if !r.chance(1, 6) && !c.cfg.thorough() { return true; } w.eval("split", vec![t]) });
    // every statement form next to each of a few neighbours
    let kinds = &g().stmts;
    c.stage("statement kinds", kinds.len() as u64 * 12, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 12, i);
        let k = kinds[i as usize % kinds.len()];
        for n in ["select 1", "", "begin", "table t", "insert into t values (1)", "vacuum", "select a as b", "set a to b", "declare c cursor for select 1", "end"] {
            let v = g().sg.random(&mut r, k, 10);
            let s = g().words.render_plain(&v);
            if !w.eval("joined", vec![s.clone(), n.to_string()]) { return; }
            if !w.eval("joined", vec![n.to_string(), s]) { return; }
        }
    });
    c.stage_chunk("beyond 64 K", c.cfg.n(60, 2_000), 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 15, i); let mut v: Vec<String> = (0..r.range(1, 3)).map(|_| one(&mut r) + "\n").collect(); let k = r.below(v.len() + 1); let p = big_piece(&mut r); v.insert(k, p.trim_end_matches(';').to_string()); w.eval("joined", v); });
    // a long list
    c.stage_chunk("long lists", c.cfg.n(24, 400), 1, || (), |_, w, i| { let mut r = Rng::new(seed ^ 13, i); let n = r.range(40, 300); w.eval("joined", (0..n).map(|_| { let v = stmt(&mut r); g().words.render_plain(&v) }).collect()); });
}

// ---------------------------------------------------------------- P12
const FIRST: &[&str] = &["not", "nulls", "with", "without", "format"];
const SECOND: &[&str] = &["between", "in", "like", "ilike", "similar", "first", "last", "time", "ordinality", "json"];
const LA_CTX: &[(&str, &str)] = &[("", ""), ("select a ", " (1)"), ("select a ", " 'x'"), ("select a ", " b and c"), ("select a order by b ", ""), ("select a order by b ", ", c"), ("select * from f() ", " x"), ("select a::timestamp ", " zone"), ("create table t (a time ", " zone)"), ("select json_object(a: b ", ")"), ("select json_serialize(a returning text ", " encoding utf8)"), ("create type t as (a json, ", " int)"), ("select ", ""), ("copy t from 'x' ", " (a)"), ("select a as ", ""), ("create table ", " (a int)"), ("select a.", " b"), ("", ";"), ("select json(a ", " encoding utf8)"), ("select ", " 1")];
pub fn lookahead_text(r: &mut Rng) -> String {
    let sp = spec();
    let mut s = String::new();
    let (a, b) = *r.pick(LA_CTX);
    s += a;
    for _ in 0..r.below(3) { s += r.pick::<&str>(FIRST); s += &separator(r); }
    let w = r.pick(FIRST).to_string();
    s += &random_case(r, &w);
    if r.chance(9, 10) {
        s += &if r.chance(1, 3) { r.pick(COMMENTS).to_string() } else { separator(r) };
        let x = match r.below(6) { 0 => r.pick(&sp.kw).word.clone(), 1 => soup(r, 1), 2 => r.pick::<&str>(&["\"in\"", "'json'", "in_", "firs", "jsonb", "times", "null", "between1", "first$", "ın", "u&\"first\"", "timestamp", "first_value"]).to_string(), _ => r.pick(SECOND).to_string() };
        s += &random_case(r, &x);
        if r.chance(1, 3) { s += &separator(r); s += &r.pick(SECOND).to_string(); }
    }
    s += b;
    if r.chance(1, 5) { s += &trivia(r); }
    s
}
#[cfg(feature = "hooks")]
fn sut_filtered(text: &str) -> Option<Result<Vec<Tok>, Got>> {
    Some(match postgresql_cst_parser::verif::filtered_tokens(text) {
        Ok(v) => Ok(v.into_iter().map(|(kind, start, end)| Tok { kind, start, end }).collect()),
        Err(e) => Err(map_err(&e)),
    })
}
#[cfg(not(feature = "hooks"))]
fn sut_filtered(_: &str) -> Option<Result<Vec<Tok>, Got>> { None }

fn has_first(t: &[Tok]) -> bool { t.iter().any(|t| matches!(t.kind.as_str(), "NOT" | "NULLS_P" | "WITH" | "WITHOUT" | "FORMAT")) }
/// the token stream handed to the parser is the reference's filter of the scanner's own tokens
fn lookahead(i: &[String]) -> Verdict {
    let text = &i[0];
    let (Some(raw), Some(got)) = (sut_scan(text), sut_filtered(text)) else { return lookahead_tree(i) };
    let Ok(raw) = raw else { return Verdict::Skip };
    match (filter(&raw), got) {
        (Ok(w), Ok(g)) => {
            // only the words this property is about
            if w.len() == g.len() {
                for (x, y) in w.iter().zip(&g) { if x.kind != y.kind { return Verdict::Fail(format!("lookahead: {:?} at {} is {} for the parser, expected {}\ninput {text:?}", &text[x.start..x.end], x.start, y.kind, x.kind)); } }
                if w == g { return Verdict::Ok(has_first(&raw)) }
            }
            Verdict::Fail(format!("stream: expected {w:?}\n got {g:?}\ninput {text:?}"))
        }
        (Err(_), Err(_)) => Verdict::Ok(false),
        (w, g) => Verdict::Fail(format!("outcome: expected {w:?}, got {g:?}\ninput {text:?}")),
    }
}
/// the leaves of accepted texts carry the right form
fn lookahead_tree(i: &[String]) -> Verdict {
    let text = &i[0];
    let Got::Tree(evs) = run(text) else { return Verdict::Skip };
    let Ok(raw) = scan(text) else { return Verdict::Skip };
    let Ok(w) = filter(&raw) else { return Verdict::Skip };
    for t in &w {
        if !matches!(t.kind.as_str(), "NOT" | "NULLS_P" | "WITH" | "WITHOUT" | "FORMAT" | "NOT_LA" | "NULLS_LA" | "WITH_LA" | "WITHOUT_LA" | "FORMAT_LA") { continue; }
        let Some(k) = evs.iter().find_map(|e| match e { Ev::Leaf(k, a, b) if *a as usize == t.start && *b as usize == t.end => Some(kind_name(*k)), _ => None }) else { return Verdict::Skip };
        if k != t.kind { return Verdict::Fail(format!("lookahead: the leaf {:?} at {} is {k}, expected {}\ninput {text:?}", &text[t.start..t.end], t.start, t.kind)); }
    }
    Verdict::Ok(has_first(&raw))
}
/// the whole outcome, for texts with one of the words
fn lookahead_outcome(i: &[String]) -> Verdict {
    let text = &i[0];
    match scan(text) { Ok(t) if has_first(&t) => same_language(text), _ => Verdict::Skip }
}
pub fn p12(cfg: Cfg) -> Check {
    Check::new(cfg, "each of the five words followed by every token of the language through every kind of trivia, in several contexts, in runs, last, and with near-miss second words; sentences of the grammar containing the words; oracle: the reference filter over the scanner's own tokens, leaf kinds of accepted texts, and the reference parser's outcome; non-trivial: one of the five words occurs as a token",
        vec![rel("lookahead", 0, 0, lookahead), rel("lookahead_tree", 0, 0, lookahead_tree), rel("lookahead_outcome", 0, 0, lookahead_outcome)])
}
pub fn x12(c: &Check) {
    let sp = spec();
    let seed = c.cfg.seed;
    const SEP: &[&str] = &[" ", "\n", "/**/", " /* x */ ", " --\n", "\t-- in\n/* first */", "/*a*//*b*/", "\u{c}", " -- json\n -- time\n", ""];
    c.extra("hooks", serde_json::json!(cfg!(feature = "hooks")));
    let n = (FIRST.len() * sp.g.nt * SEP.len()) as u64;
    // far apart
    c.stage_chunk("beyond 64 K", (LA_CTX.len() * FIRST.len()) as u64, 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x12b, i);
        let (f, (a, b)) = (FIRST[i as usize % FIRST.len()], LA_CTX[i as usize / FIRST.len()]);
        let n = *r.pick(&[4_000usize, 8_200, 33_000, 65_530]) + r.below(12);
        let sep = match r.below(4) { 0 => " ".repeat(n), 1 => format!("/*{}*/", "x".repeat(n)), 2 => format!(" --{}\n", "x".repeat(n)), _ => "/**/".repeat(n / 32) };
        let x = *r.pick(SECOND);
        for text in [format!("{f}{sep}{x}"), format!("{a}{f}{sep}{x}{b}"), format!("/*{}*/{a}{f} {x}{b}", "x".repeat(n))] {
            for rl in ["lookahead", "lookahead_tree", "lookahead_outcome"] { if !w.eval(rl, vec![text.clone()]) { return; } }
        }
    });
    c.stage("every pair of words, through every trivia", n, || (), |_, w, i| {
        let i = i as usize;
        let (f, t, s) = (FIRST[i % FIRST.len()], i / FIRST.len() % sp.g.nt, SEP[i / FIRST.len() / sp.g.nt]);
        if t != 0 && unwritable(&sp.g, t) { return; }
        let x = g().words.plain(t);
        let (a, b) = LA_CTX[i % LA_CTX.len()];
        for text in [format!("{f}{s}{x}"), format!("{a}{f}{s}{x}{b}")] {
            for rl in ["lookahead", "lookahead_tree", "lookahead_outcome"] { if !w.eval(rl, vec![text.clone()]) { return; } }
        }
    });
    c.stage("pairs in every context", (FIRST.len() * SECOND.len() * LA_CTX.len() * SEP.len()) as u64, || (), |_, w, i| {
        let i = i as usize;
        let (f, s, x, sep) = (FIRST[i % 5], SECOND[i / 5 % SECOND.len()], LA_CTX[i / 5 / SECOND.len() % LA_CTX.len()], SEP[i / 5 / SECOND.len() / LA_CTX.len()]);
        let mut r = Rng::new(seed, i as u64);
        let text = format!("{}{}{sep}{}{}", x.0, random_case(&mut r, f), random_case(&mut r, s), x.1);
        for rl in ["lookahead", "lookahead_tree", "lookahead_outcome"] { if !w.eval(rl, vec![text.clone()]) { return; } }
    });
    for (name, rl) in [("random, stream", "lookahead"), ("random, leaves", "lookahead_tree"), ("random, outcome", "lookahead_outcome")] { stage_sql(c, name, rl, c.cfg.n(60_000, 3_000_000), lookahead_text); }
    let with = |t: &str| { let t = t.to_ascii_lowercase(); FIRST.iter().any(|f| t.contains(f)) };
    cells(c, "automaton cells with the words", 0, 20, |w, t| { if !with(&t) { return true; } w.eval("lookahead", vec![t.clone()]) && w.eval("lookahead_outcome", vec![t]) });
    c.stage("sentences with the words", c.cfg.n(150_000, 5_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 12, i); let t = sql(&mut r); if with(&t) { let _ = w.eval("lookahead", vec![t.clone()]) && w.eval("lookahead_outcome", vec![t]); } });
}

// ---------------------------------------------------------------- P13
/// [before, item A, item B, after]: the item is one literal, quoted name or comment
fn opaque(i: &[String]) -> Verdict {
    if i.len() != 4 { return Verdict::Skip; }
    let (a, b) = (format!("{}{}{}", i[0], i[1], i[3]), format!("{}{}{}", i[0], i[2], i[3]));
    let (s, ea, eb) = (i[0].len(), i[0].len() + i[1].len(), i[0].len() + i[2].len());
    // what the texts are, by the reference
    let (Ok(ra), Ok(rb)) = (scan(&a), scan(&b)) else { return Verdict::Skip };
    let (Ok(fa), Ok(fb)) = (filter(&ra), filter(&rb)) else { return Verdict::Skip };
    let Some(k) = fa.iter().position(|t| t.start == s && t.end == ea) else { return Verdict::Skip };
    if fb.len() != fa.len() || fb[k].start != s || fb[k].end != eb || fa[k].kind != fb[k].kind { return Verdict::Skip; }
    if !(matches!(fa[k].kind.as_str(), "SCONST" | "BCONST" | "XCONST") || is_comment(&fa[k].kind) || (fa[k].kind == "IDENT" && i[1].contains('"') && i[2].contains('"'))) { return Verdict::Skip; }
    let d = eb as i64 - ea as i64;
    let mv = |p: usize| if p >= ea { (p as i64 + d) as usize } else { p };
    if fa.iter().zip(&fb).enumerate().any(|(j, (x, y))| x.kind != y.kind || (j != k && (mv(x.start) != y.start || mv(x.end) != y.end))) { return Verdict::Skip; }
    let bad = |m: String| Verdict::Fail(format!("{m}\nA {a:?}\nB {b:?}"));
    match (run(&a), run(&b)) {
        (Got::Tree(x), Got::Tree(y)) => {
            let w: Vec<Ev> = x.iter().map(|e| match e { Ev::Leaf(k, p, q) => Ev::Leaf(*k, mv(*p as usize) as u32, mv(*q as usize) as u32), e => *e }).collect();
            if w != y { return bad(format!("tree: {}", diff(&w, &y, &b))); }
            let leaf = |v: &[Ev], e: usize| v.iter().any(|x| matches!(x, Ev::Leaf(_, p, q) if *p as usize == s && *q as usize == e));
            if !leaf(&x, ea) || !leaf(&y, eb) { return bad("leaf: no leaf covers exactly the item".into()); }
            Verdict::Ok(i[1] != i[2])
        }
        (Got::Syntax(p, q), Got::Syntax(p2, q2)) => if (mv(p), mv(q)) == (p2, q2) { Verdict::Ok(i[1] != i[2]) } else { bad(format!("error: A reports {p}..{q}, B {p2}..{q2}")) },
        (x, y) => bad(format!("outcome: A {}, B {}", x.brief(), y.brief())),
    }
}
fn raw_content(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => sql(r),
        2 => { let n = r.range(1, 12); soup(r, n) }
        3 => r.pick::<&str>(&["/*", "*/", "--", "--\n", "/* */", "$$", "$a$", "\\", "\\\\", "\\x", "\n", "\r\n", "; drop table t; --", "select", "é表😀", "\u{a0}", "'", "''", "\"", "\"\"", "'/*'", "uescape '!'", "E'", "\t", "\u{feff}", "{", "}", "a", "1", "*", "/", "-", "$", "$1", "\u{7f}", "/**", "**/", "/*/", "//", "*/*"]).to_string(),
        4 => { let a = r.pick::<&str>(&["'", "\"", "/*", "*/", "--", "\\", "$", "\n", " "]).to_string(); a.repeat(r.range(1, 5)) }
        5 => { let n = if r.chance(1, 3) { dict().size(r, 1500) } else { r.range(1, 80) }; r.pick(&["x", "x", "é", " ", "-", "a\n", "''", "\\\\", "*"]).repeat(n) }
        6 => { let d = dict().strs_or(); let a = *r.pick(&d); format!("{}{a}{}", r.pick::<&str>(&["", " ", "x", "*"]), r.pick::<&str>(&["", " ", "x", "\n"])) }
        _ => { let n = r.range(1, 6); (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '\n', '-', '*', '/', '\'', '"', '\\', '$', 'é', '表', ';', '(', ')', '!', '&', 'u'])).collect() }
    }
}
/// An item of a form with random contents valid for it
fn item(r: &mut Rng, form: usize) -> String {
    let mut c = raw_content(r);
    c.retain(|x| x != '\0');
    let bits = |r: &mut Rng, a: &[char]| -> String { let n = if r.chance(1, 20) { dict().size(r, 700) } else { r.below(20) }; (0..n).map(|_| *r.pick(a)).collect() };
    match form {
        0 => format!("'{}'", c.replace('\'', "''")),
        1 => {
            let mut s = String::new();
            for ch in c.chars() { match ch { '\'' => s += if r.chance(1, 2) { "''" } else { "\\'" }, '\\' => s += "\\\\", ch => s.push(ch) } if r.chance(1, 8) { s += r.pick::<&str>(&["\\n", "\\x41", "\\101", "\\u00e9", "\\U0001F600", "\\uD83D\\uDE00", "\\q", "\\é", "\\\n"]); } }
            format!("{}'{s}'", r.pick::<&str>(&["E", "e"]))
        }
        2 => { let mut tag = r.pick::<&str>(&["", "a", "tag", "é", "_x", "A"]).to_string(); if r.chance(1, 20) { tag = "t".repeat(dict().size(r, 300) + 1) } let q = format!("${tag}$"); let mut c = c.replace(&q, ""); while c.contains(&q) || c.ends_with('$') { c.pop(); } format!("{q}{c}{q}") }
        3 => format!("{}'{}'", r.pick::<&str>(&["b", "B"]), bits(r, &['0', '1'])),
        4 => format!("{}'{}'", r.pick::<&str>(&["x", "X"]), bits(r, &['0', '9', 'a', 'F'])),
        5 => format!("{}'{}'", r.pick::<&str>(&["U&", "u&"]), c.replace('\\', "\\\\").replace('\'', "''")),
        6 => { let c = if c.is_empty() { "q".into() } else { c }; format!("\"{}\"", c.replace('"', "\"\"")) }
        7 => { let c = if c.is_empty() { "q".into() } else { c }; format!("{}\"{}\"", r.pick::<&str>(&["U&", "u&"]), c.replace('\\', "\\\\").replace('"', "\"\"")) }
        8 => {
            // a block comment: keep nested markers balanced
            let mut c = c;
            loop { let n = c.replace("/*", "").replace("*/", ""); if n == c { break; } c = n; }
            let c = c.trim_end_matches('/').trim_end_matches('*').trim_start_matches('/').to_string();
            match r.below(3) { 0 => format!("/*{c}*/"), 1 => format!("/* {c} /*{c}*/ */"), _ => format!("/*{c}**/") }
        }
        9 => format!("--{}", c.replace(['\n', '\r'], " ")),
        10 => format!("'{}'{}'{}'", c.replace('\'', "''"), r.pick::<&str>(&["\n", " \n ", "\r\n\t"]), raw_content(r).replace('\'', "''").replace('\0', "")),
        11 => format!("u&'{}' uescape '!'", c.replace('!', "!!").replace('\'', "''")),
        12 => format!("{}'{}'", r.pick::<&str>(&["n", "N"]), c.replace('\'', "''"))[1..].to_string(),
        13 => { let c = if c.is_empty() { "q".into() } else { c }; format!("U&\"{}\" uescape '+'", c.replace('+', "++").replace('"', "\"\"")) }
        _ => format!("'{}'", "é".repeat(r.below(9))),
    }
}
const STRING_FORMS: &[usize] = &[0, 0, 1, 1, 2, 5, 10, 11, 14];
pub fn p13(cfg: Cfg) -> Check {
    Check::new(cfg, "a literal, quoted identifier or comment inside a sentence, corpus text or edited text, with two different contents valid for its form (quotes, comment markers, SQL, multi-byte characters, newlines, long runs); validity judged by the reference scanner; non-trivial: the two contents differ",
        vec![rel("opaque", 0, 0, opaque)])
}
pub fn x13(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("literals and names in sentences", c.cfg.n(200_000, 8_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x13a, i);
        let mut v = stmt(&mut r);
        if r.chance(1, 6) { edit_terms(&mut r, &mut v); }
        let wd = &g().words;
        let o = |t: usize, x: Option<usize>| Some(t) == x;
        let at: Vec<usize> = (0..v.len()).filter(|&k| o(v[k], wd.ident) || o(v[k], wd.sconst) || o(v[k], wd.bconst) || o(v[k], wd.xconst)).collect();
        if at.is_empty() { return; }
        let k = *r.pick(&at);
        let form = if o(v[k], wd.ident) { *r.pick(&[6usize, 6, 7, 13]) } else if o(v[k], wd.sconst) { *r.pick(STRING_FORMS) } else if o(v[k], wd.bconst) { 3 } else { 4 };
        let tight = r.chance(1, 3);
        let sep = |r: &mut Rng| if tight { "" } else if r.chance(1, 3) { "/* ' */" } else { " " };
        let pre = format!("{}{}", wd.render_fancy(&mut r, &v[..k]), sep(&mut r));
        let post = format!("{}{}", sep(&mut r), wd.render_fancy(&mut r, &v[k + 1..]));
        let (a, b) = (item(&mut r, form), item(&mut r, form));
        // forms of one kind may also be exchanged
        let b = if o(v[k], wd.sconst) && r.chance(1, 4) { let f = *r.pick(STRING_FORMS); item(&mut r, f) } else { b };
        w.eval("opaque", vec![pre, a, b, post]);
    });
    c.stage("comments in sentences", c.cfg.n(150_000, 6_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x13b, i);
        let mut v = stmt(&mut r);
        if r.chance(1, 6) { edit_terms(&mut r, &mut v); }
        let k = r.below(v.len() + 1);
        let wd = &g().words;
        let (pre, mut post) = (wd.render_fancy(&mut r, &v[..k]), wd.render_fancy(&mut r, &v[k..]));
        let form = *r.pick(&[8usize, 8, 9]);
        let pre = if r.chance(1, 2) { pre + " " } else { pre };
        if form == 9 && !post.is_empty() { post.insert(0, *r.pick(&['\n', '\r'])); }
        w.eval("opaque", vec![pre, item(&mut r, form), item(&mut r, form), post]);
    });
    c.stage("replacing in texts", c.cfg.n(150_000, 6_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x13c, i);
        let t = match r.below(3) { 0 => r.pick(&g().corpus).clone(), 1 => valid_sql(&mut r), _ => literal_soup(&mut r) };
        let toks: Vec<Tok> = scan(&t).unwrap_or_default().into_iter().filter(|k| matches!(k.kind.as_str(), "SCONST" | "BCONST" | "XCONST" | "UIDENT" | "USCONST") || is_comment(&k.kind) || (k.kind == "IDENT" && t[k.start..].starts_with('"'))).collect();
        if toks.is_empty() { return; }
        let k = r.pick(&toks).clone();
        let form = match k.kind.as_str() { "SCONST" => if t[k.start..].starts_with(['e', 'E']) { 1 } else if t[k.start..].starts_with('$') { 2 } else { *r.pick(&[0usize, 10]) }, "USCONST" => 5, "BCONST" => 3, "XCONST" => 4, "UIDENT" => 7, "IDENT" => 6, "C_COMMENT" => 8, _ => 9 };
        w.eval("opaque", vec![t[..k.start].to_string(), t[k.start..k.end].to_string(), item(&mut r, form), t[k.end..].to_string()]);
    });
    c.stage_chunk("beyond 64 K", c.cfg.n(160, 5_000), 1, || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0x13d, i);
        let v = stmt(&mut r);
        let k = r.below(v.len() + 1);
        let wd = &g().words;
        let (pre, post) = (wd.render_plain(&v[..k]) + " ", format!("\n{}", wd.render_plain(&v[k..])));
        let (a, b) = *r.pick(&[("/*", "*/"), ("--", ""), ("'", "'"), ("e'", "'"), ("$$", "$$"), ("$ab$", "$ab$"), ("\"", "\""), ("u&'", "'"), ("b'", "'"), ("x'", "'")]);
        let fill = if a == "b'" || a == "x'" { "1" } else { *r.pick(&["x", "é", "表", "😀", "ab ", "."]) };
        let n = (*r.pick(&[5_000usize, 32_768, 65_520, 65_536, 131_000]) + r.below(80)) / fill.len();
        w.eval("opaque", vec![pre, format!("{a}1{b}"), format!("{a}{}{b}", fill.repeat(n)), post]);
    });
    // short contents, exhaustively
    const AL: &[&str] = &["", "'", "''", "\\", "\"", "\"\"", "/*", "*/", "--", "\n", "$", "a", "é", "*", "/", " ", ";", "\\'", "\\\\", "b"];
    const SHAPES: &[(&str, &str, &str, &str)] = &[("select ", "'", "'", ", 1"), ("select ", "e'", "'", " as x"), ("select ", "$$", "$$", "::text"), ("select ", "$a$", "$a$", ""), ("select ", "u&'", "'", " || b"), ("select ", "\"", "\"", " from t"), ("select ", "u&\"x", "\"", ""), ("select 1 ", "/*", "*/", "+ 2"), ("select 1 ", "--", "", "\n + 2"), ("select", "/*", "*/", ""), ("select n", "'", "'", ""), ("select '", "'\n'", "'", ""), ("select 'a'\n", "'", "'", " b"), ("copy t from ", "'", "'", " csv"), ("select interval ", "'", "'", " day"), ("select a", "\"", "\"", "")];
    c.stage("short contents", (AL.len().pow(3) * SHAPES.len()) as u64, || (), |_, w, i| {
        let i = i as usize;
        let (p, o, cl, s) = SHAPES[i % SHAPES.len()];
        let j = i / SHAPES.len();
        let x = format!("{}{}{}", AL[j % 20], AL[j / 20 % 20], AL[j / 400]);
        w.eval("opaque", vec![p.into(), format!("{o}z{cl}"), format!("{o}{x}{cl}"), s.into()]);
    });
}

// ---------------------------------------------------------------- P25
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use { ColId, TypeFunc, Label, Bare }
/// contexts of each use; the second member marks the place of the name
const CONTEXTS: &[(Use, &str, &str)] = &[
    (Use::ColId, "drop table ", ""), (Use::ColId, "insert into t (", ") values (1)"), (Use::ColId, "select 1 from t as ", ""), (Use::ColId, "alter table t rename column ", " to x"),
    (Use::ColId, "create table ", " (a int)"), (Use::ColId, "select 1 from ", ".t"), (Use::ColId, "update t set ", " = 1"), (Use::ColId, "drop index ", ""), (Use::ColId, "create index on t using ", " (a)"), (Use::ColId, "create view ", " as select 1"), (Use::ColId, "with x as (select 1), ", " as (select 1) select 1"), (Use::ColId, "select 1 from t join u using (", ")"), (Use::ColId, "alter table t add constraint ", " unique (a)"),
    (Use::TypeFunc, "drop function ", "(int)"), (Use::TypeFunc, "create function ", "() returns int language sql"), (Use::TypeFunc, "create table t (a ", ".foo)"), (Use::TypeFunc, "select 1::", ".foo"),
    (Use::Label, "select 1 as ", ""), (Use::Label, "select a.", ""), (Use::Label, "select 1 as ", ", 2"), (Use::Label, "drop table s.", ""),
    (Use::Bare, "select 1 ", ""), (Use::Bare, "select a ", ", 2"), (Use::Bare, "select 'x' ", " from t"),
];
fn category(w: &str) -> Option<(&'static str, bool)> {
    spec().kw.iter().find(|k| k.word == w.to_ascii_lowercase()).map(|k| (k.category.as_str(), k.bare))
}
/// name nodes collapsed to one identifier leaf
fn anonymous(evs: &[Ev]) -> Vec<Ev> {
    let sp = spec();
    let ids: Vec<u32> = ["unreserved_keyword", "col_name_keyword", "type_func_name_keyword", "reserved_keyword", "bare_label_keyword"].iter().map(|n| sp.by_name[*n]).collect();
    let ident = sp.by_name["IDENT"];
    let mut out = vec![];
    let mut i = 0;
    while i < evs.len() {
        match (&evs[i], evs.get(i + 1), evs.get(i + 2)) {
            (Ev::Open(k), Some(Ev::Leaf(_, a, b)), Some(Ev::Close)) if ids.contains(k) => { out.push(Ev::Leaf(ident, *a, *b)); i += 3; }
            (e, _, _) => { out.push(*e); i += 1; }
        }
    }
    out
}
/// [word, context number]
fn keyword_use(i: &[String]) -> Verdict {
    let w = &i[0];
    let Some((u, a, b)) = i[1].parse::<usize>().ok().and_then(|k| CONTEXTS.get(k)).copied() else { return Verdict::Skip };
    // one unquoted word?
    if scan(w).map_or(true, |t| t.len() != 1 || t[0].start != 0 || t[0].end != w.len()) || w.contains('"') || !w.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') || w.contains('\'') { return Verdict::Skip; }
    let cat = category(w);
    let allowed = match (u, cat) {
        (_, None) => true,
        (Use::ColId, Some((c, _))) => c == "UNRESERVED_KEYWORD" || c == "COL_NAME_KEYWORD",
        (Use::TypeFunc, Some((c, _))) => c == "UNRESERVED_KEYWORD" || c == "TYPE_FUNC_NAME_KEYWORD",
        (Use::Label, Some(_)) => true,
        (Use::Bare, Some((_, bare))) => bare,
    };
    let text = format!("{a}{w}{b}");
    let got = run(&text);
    let plain = format!("{a}{}{b}", "z".repeat(w.len()));
    // a bare label is one only if the tree says so: ISNULL and the like read as something else
    let taken = match &got { Got::Tree(e) => u != Use::Bare || e.contains(&Ev::Open(spec().by_name["BareColLabel"])), _ => false };
    let what = format!("{w:?} ({}) as {u:?} in {text:?}", cat.map_or("no keyword".to_string(), |(c, b)| format!("{c}, bare label {b}")));
    if taken != allowed { return Verdict::Fail(format!("use: {what} should be {}; the parser: {}", if allowed { "accepted" } else { "rejected" }, got.brief())); }
    if allowed && (cat.is_none() || cat.is_some_and(|c| c.0 == "UNRESERVED_KEYWORD")) {
        let (Got::Tree(x), Got::Tree(y)) = (&got, run(&plain)) else { return Verdict::Fail(format!("identifier: {plain:?} is rejected")) };
        let (p, q) = (anonymous(x), anonymous(&y));
        if p != q { return Verdict::Fail(format!("tree: {what} gives another tree than an identifier: {}", diff(&q, &p, &text))); }
    }
    Verdict::Ok(true)
}
pub fn p25(cfg: Cfg) -> Check {
    Check::new(cfg, "every keyword of PostgreSQL 17's list (with its category there) in every context of each name kind, in several case spellings; words that are nearly keywords; oracle: the category table of the frozen keyword list; non-trivial: always (the word is one token)",
        vec![rel("keyword_use", 0, 0, keyword_use), rel("name_in_sentence", 0, 0, name_in_sentence)])
}
pub fn x25(c: &Check) {
    let seed = c.cfg.seed;
    let kw = &spec().kw;
    c.stage("every keyword in every context", (kw.len() * CONTEXTS.len()) as u64, || (), |_, w, i| {
        let (k, x) = (&kw[i as usize / CONTEXTS.len()].word, i as usize % CONTEXTS.len());
        let mut r = Rng::new(seed ^ 25, i);
        for v in [k.clone(), k.to_ascii_uppercase(), random_case(&mut r, k)] { if !w.eval("keyword_use", vec![v, x.to_string()]) { return; } }
    });
    c.stage("one edit from a keyword", kw.len() as u64, || (), |_, w, i| {
        let k = &kw[i as usize].word;
        let mut r = Rng::new(seed ^ 26, i);
        let mut v = vec![];
        for p in 0..k.len() { v.push(format!("{}{}", &k[..p], &k[p + 1..])); }
        for p in 0..=k.len() { for x in ["e", "s", "_", "0", "é", "$"] { v.push(format!("{}{x}{}", &k[..p], &k[p..])); } }
        for p in 0..k.len() { for x in ["a", "e", "_", "1", "s", "\u{212a}"] { v.push(format!("{}{x}{}", &k[..p], &k[p + 1..])); } }
        for p in 1..k.len() { let b = k.as_bytes(); let mut s: Vec<u8> = b.to_vec(); s.swap(p - 1, p); v.push(String::from_utf8(s).unwrap()); }
        for x in v { let ctx = r.below(CONTEXTS.len()); if !w.eval("keyword_use", vec![x.clone(), ctx.to_string()]) { return; } if !w.eval("keyword_use", vec![x, "0".into()]) { return; } }
    });
    c.stage("random words", c.cfg.n(60_000, 3_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 27, i); let x = word(&mut r); let x = x.split([' ', '\'', '"', '.', '(', '-', '$', '&', '/']).next().unwrap().to_string(); let ctx = r.below(CONTEXTS.len()); w.eval("keyword_use", vec![x, ctx.to_string()]); });
    // keywords as names inside whole sentences, judged by the reference parser
    c.stage("names in sentences", c.cfg.n(120_000, 5_000_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 28, i);
        let mut v = stmt(&mut r);
        let at: Vec<usize> = (0..v.len()).filter(|&k| Some(v[k]) == g().words.ident).collect();
        if at.is_empty() { return; }
        for _ in 0..r.range(1, 2) { v[*r.pick(&at)] = spec().g.ids[&r.pick(kw).token]; }
        w.eval("name_in_sentence", vec![g().words.render_plain(&v)]);
    });
}
pub fn name_in_sentence(i: &[String]) -> Verdict { same_language(&i[0]) }
