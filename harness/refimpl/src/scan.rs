//! Reference scanner: PostgreSQL 17's core scanner (scan.l), with comments kept as tokens,
//! driven by flex patterns through the independent matcher in `rx`.
//! A comment is a token of its own, so it is never part of a string continuation.
use crate::rx::{Matcher, PatParser};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub kind: String,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ScanErr {
    Msg(String),
    Report { message: String, detail: String, position: usize },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Ws, SqlComment, XcStart, XcNest, XcStop, Skip, XcEof,
    XbStart, XbEof, XhStart, XhEof, Nchar, XqStart, XeStart, XusStart,
    Quote, QuoteCont, QuoteStop, Lit, XeUnicode, XeuUnicode, XeuBad, UniFail,
    StrEof, DolqStart, DolqFailed, DolqDelim, DolqEof,
    XdStart, XuiStart, XdStop, XuiStop, XdEof, XuFailed,
    Fixed(&'static str), SelfChar, Operator, Param, Int(u32), Fail(&'static str),
    Fconst, NumericFail, Ident, Other, Eof,
}
use Act::*;

pub const INITIAL: usize = 0;
const STATES: [&str; 12] = ["INITIAL", "xb", "xc", "xd", "xh", "xq", "xqs", "xe", "xdolq", "xui", "xus", "xeu"];

const DEFS: &[(&str, &str)] = &[
    ("space", r"[ \t\n\r\f\v]"),
    ("non_newline_space", r"[ \t\f\v]"),
    ("newline", r"[\n\r]"),
    ("non_newline", r"[^\n\r]"),
    ("comment", r#"("--"{non_newline}*)"#),
    ("whitespace", r"({space}+)"),
    ("special_whitespace", r"({space}+)"),
    ("whitespace_with_newline", r"({non_newline_space}*{newline}{special_whitespace}*)"),
    ("quote", r"'"),
    ("quotecontinue", r"{whitespace_with_newline}{quote}"),
    ("quotecontinuefail", r#"{whitespace}*"-"?"#),
    ("xbstart", r"[bB]{quote}"),
    ("xhstart", r"[xX]{quote}"),
    ("xbinside", r"[^']*"),
    ("xhinside", r"[^']*"),
    ("xnstart", r"[nN]{quote}"),
    ("xestart", r"[eE]{quote}"),
    ("xeinside", r"[^\\']+"),
    ("xeescape", r"[\\][^0-7]"),
    ("xeoctesc", r"[\\][0-7]{1,3}"),
    ("xehexesc", r"[\\]x[0-9A-Fa-f]{1,2}"),
    ("xeunicode", r"[\\](u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8})"),
    ("xeunicodefail", r"[\\](u[0-9A-Fa-f]{0,3}|U[0-9A-Fa-f]{0,7})"),
    ("xqstart", r"{quote}"),
    ("xqdouble", r"{quote}{quote}"),
    ("xqinside", r"[^']+"),
    ("dolq_start", r"[A-Za-z\x80-\xFF_]"),
    ("dolq_cont", r"[A-Za-z\x80-\xFF_0-9]"),
    ("dolqdelim", r"\$({dolq_start}{dolq_cont}*)?\$"),
    ("dolqfailed", r"\${dolq_start}{dolq_cont}*"),
    ("dolqinside", r"[^$]+"),
    ("dquote", r#"\""#),
    ("xddouble", r"{dquote}{dquote}"),
    ("xdinside", r#"[^"]+"#),
    ("xuistart", r"[uU]&{dquote}"),
    ("xusstart", r"[uU]&{quote}"),
    ("xufailed", r"[uU]&"),
    ("xcstart", r"\/\*{op_chars}*"),
    ("xcstop", r"\*+\/"),
    ("xcinside", r"[^*/]+"),
    ("ident_start", r"[A-Za-z\x80-\xFF_]"),
    ("ident_cont", r"[A-Za-z\x80-\xFF_0-9\$]"),
    ("identifier", r"{ident_start}{ident_cont}*"),
    ("self", r"[,()\[\].;\:\+\-\*\/\%\^<>\=]"),
    ("op_chars", r"[\~\!\@\#\^\&\|\`\?\+\-\*\/\%<>\=]"),
    ("operator", r"{op_chars}+"),
    ("decdigit", r"[0-9]"),
    ("hexdigit", r"[0-9A-Fa-f]"),
    ("octdigit", r"[0-7]"),
    ("bindigit", r"[0-1]"),
    ("decinteger", r"{decdigit}(_?{decdigit})*"),
    ("hexinteger", r"0[xX](_?{hexdigit})+"),
    ("octinteger", r"0[oO](_?{octdigit})+"),
    ("bininteger", r"0[bB](_?{bindigit})+"),
    ("hexfail", r"0[xX]_?"),
    ("octfail", r"0[oO]_?"),
    ("binfail", r"0[bB]_?"),
    ("numeric", r"(({decinteger}\.{decinteger}?)|(\.{decinteger}))"),
    ("numericfail", r"{decinteger}\.\."),
    ("real", r"({decinteger}|{numeric})[Ee][-+]?{decinteger}"),
    ("realfail", r"({decinteger}|{numeric})[Ee][-+]"),
    ("param", r"\${decdigit}+"),
    ("integer_junk", r"{decinteger}{identifier}"),
    ("numeric_junk", r"{numeric}{identifier}"),
    ("real_junk", r"{real}{identifier}"),
    ("param_junk", r"\${decdigit}+{identifier}"),
    ("other", r"."),
];

/// The start conditions, definitions and (start conditions, pattern) rules of PostgreSQL's scanner
pub fn scan_l() -> (Vec<&'static str>, Vec<(&'static str, &'static str)>, Vec<(&'static str, &'static str)>) {
    (STATES.to_vec(), DEFS.to_vec(), RULES.iter().map(|r| (r.0, r.1)).collect())
}

const JUNK: &str = "trailing junk after numeric literal";
const RULES: &[(&str, &str, Act)] = &[
    ("INITIAL", "{whitespace}", Ws),
    ("INITIAL", "{comment}", SqlComment),
    ("INITIAL", "{xcstart}", XcStart),
    ("xc", "{xcstart}", XcNest),
    ("xc", "{xcstop}", XcStop),
    ("xc", "{xcinside}", Skip),
    ("xc", "{op_chars}", Skip),
    ("xc", r"\*+", Skip),
    ("xc", "<<EOF>>", XcEof),
    ("INITIAL", "{xbstart}", XbStart),
    ("xh", "{xhinside}", Lit),
    ("xb", "{xbinside}", Lit),
    ("xb", "<<EOF>>", XbEof),
    ("INITIAL", "{xhstart}", XhStart),
    ("xh", "<<EOF>>", XhEof),
    ("INITIAL", "{xnstart}", Nchar),
    ("INITIAL", "{xqstart}", XqStart),
    ("INITIAL", "{xestart}", XeStart),
    ("INITIAL", "{xusstart}", XusStart),
    ("xb,xh,xq,xe,xus", "{quote}", Quote),
    ("xqs", "{quotecontinue}", QuoteCont),
    ("xqs", "{quotecontinuefail}", QuoteStop),
    ("xqs", "{other}", QuoteStop),
    ("xqs", "<<EOF>>", QuoteStop),
    ("xq,xe,xus", "{xqdouble}", Lit),
    ("xq,xus", "{xqinside}", Lit),
    ("xe", "{xeinside}", Lit),
    ("xe", "{xeunicode}", XeUnicode),
    ("xeu", "{xeunicode}", XeuUnicode),
    ("xeu", ".", XeuBad),
    ("xeu", r"\n", XeuBad),
    ("xeu", "<<EOF>>", XeuBad),
    ("xe,xeu", "{xeunicodefail}", UniFail),
    ("xe", "{xeescape}", Lit),
    ("xe", "{xeoctesc}", Lit),
    ("xe", "{xehexesc}", Lit),
    ("xe", ".", Lit),
    ("xq,xe,xus", "<<EOF>>", StrEof),
    ("INITIAL", "{dolqdelim}", DolqStart),
    ("INITIAL", "{dolqfailed}", DolqFailed),
    ("xdolq", "{dolqdelim}", DolqDelim),
    ("xdolq", "{dolqinside}", Lit),
    ("xdolq", "{dolqfailed}", Lit),
    ("xdolq", ".", Lit),
    ("xdolq", "<<EOF>>", DolqEof),
    ("INITIAL", "{dquote}", XdStart),
    ("INITIAL", "{xuistart}", XuiStart),
    ("xd", "{dquote}", XdStop),
    ("xui", "{dquote}", XuiStop),
    ("xd,xui", "{xddouble}", Lit),
    ("xd,xui", "{xdinside}", Lit),
    ("xd,xui", "<<EOF>>", XdEof),
    ("INITIAL", "{xufailed}", XuFailed),
    ("INITIAL", "\"::\"", Fixed("TYPECAST")),
    ("INITIAL", r"\.\.", Fixed("DOT_DOT")),
    ("INITIAL", "\":=\"", Fixed("COLON_EQUALS")),
    ("INITIAL", "\"=>\"", Fixed("EQUALS_GREATER")),
    ("INITIAL", "\"<=\"", Fixed("LESS_EQUALS")),
    ("INITIAL", "\">=\"", Fixed("GREATER_EQUALS")),
    ("INITIAL", "\"<>\"", Fixed("NOT_EQUALS")),
    ("INITIAL", "\"!=\"", Fixed("NOT_EQUALS")),
    ("INITIAL", "{self}", SelfChar),
    ("INITIAL", "{operator}", Operator),
    ("INITIAL", "{param}", Param),
    ("INITIAL", "{param_junk}", Fail("trailing junk after parameter")),
    ("INITIAL", "{decinteger}", Int(10)),
    ("INITIAL", "{hexinteger}", Int(16)),
    ("INITIAL", "{octinteger}", Int(8)),
    ("INITIAL", "{bininteger}", Int(2)),
    ("INITIAL", "{hexfail}", Fail("invalid hexadecimal integer")),
    ("INITIAL", "{octfail}", Fail("invalid octal integer")),
    ("INITIAL", "{binfail}", Fail("invalid binary integer")),
    ("INITIAL", "{numeric}", Fconst),
    ("INITIAL", "{numericfail}", NumericFail),
    ("INITIAL", "{real}", Fconst),
    ("INITIAL", "{realfail}", Fail(JUNK)),
    ("INITIAL", "{integer_junk}", Fail(JUNK)),
    ("INITIAL", "{numeric_junk}", Fail(JUNK)),
    ("INITIAL", "{real_junk}", Fail(JUNK)),
    ("INITIAL", "{identifier}", Ident),
    ("INITIAL", "{other}", Other),
    ("INITIAL", "<<EOF>>", Eof),
];

/// One row of the keyword list: word, token name, category, bare-label-able
#[derive(Clone, Debug)]
pub struct Keyword {
    pub word: String,
    pub token: String,
    pub category: String,
    pub bare: bool,
}

pub fn read_kwlist(src: &str) -> Vec<Keyword> {
    let mut v = vec![];
    for line in src.lines() {
        if let Some(r) = line.trim().strip_prefix("PG_KEYWORD(") {
            let inner = r.split(')').next().unwrap();
            let f: Vec<&str> = inner.split(',').map(|x| x.trim()).collect();
            assert_eq!(f.len(), 4, "{line}");
            v.push(Keyword { word: f[0].trim_matches('"').to_string(), token: f[1].to_string(), category: f[2].to_string(), bare: f[3] == "BARE_LABEL" });
        }
    }
    v
}

pub struct Scanner {
    m: Vec<Matcher>,
    kw: HashMap<String, String>,
    /// (state, action) pairs taken, for coverage
    pub hits: Vec<u64>,
}

impl Scanner {
    pub fn new(kwlist: &str) -> Self {
        let defs: HashMap<String, String> = DEFS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let m = STATES.iter().map(|st| {
            let rules: Vec<_> = RULES.iter().enumerate()
                .filter(|(_, r)| r.0.split(',').any(|s| s == *st))
                .map(|(i, r)| (i, PatParser::parse(r.1, &defs))).collect();
            Matcher::new(&rules)
        }).collect();
        Scanner { m, kw: read_kwlist(kwlist).into_iter().map(|k| (k.word, k.token)).collect(), hits: vec![0; RULES.len()] }
    }
    pub fn num_rules() -> usize { RULES.len() }
    pub fn rule_name(i: usize) -> String { format!("<{}>{}", RULES[i].0, RULES[i].1) }
    pub fn keyword(&self, w: &str) -> Option<&String> { self.kw.get(&w.to_ascii_lowercase()) }

    fn int_kind(text: &str, radix: u32) -> &'static str {
        let digits: String = text.chars().filter(|c| *c != '_').collect();
        let d = if radix == 10 { &digits[..] } else { &digits[2..] };
        let mut v: u64 = 0;
        for c in d.chars() {
            v = v * radix as u64 + c.to_digit(radix).unwrap() as u64;
            if v > i32::MAX as u64 { return "FCONST"; }
        }
        "ICONST"
    }

    /// The token stream of the scanner proper.
    pub fn scan(&mut self, src: &str) -> Result<Vec<Tok>, ScanErr> {
        if src.as_bytes().contains(&0) {
            return Err(ScanErr::Msg("invalid byte sequence for encoding \"UTF8\": 0x00".into()));
        }
        let b = src.as_bytes();
        let st = |n: &str| STATES.iter().position(|s| *s == n).unwrap();
        let (xb, xc, xd, xh, xq, xqs, xe, xdolq, xui, xus, xeu) = (st("xb"), st("xc"), st("xd"), st("xh"), st("xq"), st("xqs"), st("xe"), st("xdolq"), st("xui"), st("xus"), st("xeu"));
        let mut state = INITIAL;
        let (mut pos, mut start, mut depth, mut before, mut hi) = (0usize, 0usize, 0usize, 0usize, 0u32);
        let mut dol: &[u8] = b"";
        let mut litlen = 0usize;
        let mut out: Vec<Tok> = vec![];
        let msg = |s: &str| Err(ScanErr::Msg(s.to_string()));
        loop {
            let (len, rule) = match self.m[state].longest(&b[pos..]) {
                Some(x) => x,
                None if pos == b.len() => match self.m[state].eof() {
                    Some(r) => (0, r),
                    None => unreachable!("no eof rule in {}", STATES[state]),
                },
                None => unreachable!("no rule matches in {} at {pos}", STATES[state]),
            };
            self.hits[rule] += 1;
            let act = RULES[rule].2;
            let mut less = len;
            let text = &b[pos..pos + len];
            let mut emit: Option<String> = None; // token start..(pos+less)
            match act {
                Ws | Skip => {}
                Lit => litlen += len,
                SqlComment => { start = pos; emit = Some("SQL_COMMENT".into()) }
                XcStart => { start = pos; depth = 0; state = xc; less = 2 }
                XcNest => { depth += 1; less = 2 }
                XcStop => if depth == 0 { state = INITIAL; emit = Some("C_COMMENT".into()) } else { depth -= 1 },
                XcEof => return msg("unterminated /* comment"),
                XbStart => { start = pos; state = xb }
                XbEof => return msg("unterminated bit string literal"),
                XhStart => { start = pos; state = xh }
                XhEof => return msg("unterminated hexadecimal string literal"),
                Nchar => { start = pos; less = 1; emit = Some(match self.kw.get("nchar") { Some(t) => t.clone(), None => "IDENT".into() }) }
                XqStart => { start = pos; state = xq }
                XeStart => { start = pos; state = xe }
                XusStart => { start = pos; state = xus }
                Quote => { before = state; state = xqs }
                QuoteCont => state = before,
                QuoteStop => {
                    less = 0;
                    state = INITIAL;
                    let k = if before == xb { "BCONST" } else if before == xh { "XCONST" } else if before == xus { "USCONST" } else { "SCONST" };
                    emit = Some(k.into());
                }
                XeUnicode => {
                    let c = u32::from_str_radix(&src[pos + 2..pos + len], 16).unwrap();
                    if (0xD800..0xDC00).contains(&c) { hi = c; state = xeu }
                    else if (0xDC00..0xE000).contains(&c) { return msg("invalid Unicode surrogate pair") }
                    else if c == 0 || c > 0x10FFFF { return msg("invalid Unicode escape value") }
                }
                XeuUnicode => {
                    let c = u32::from_str_radix(&src[pos + 2..pos + len], 16).unwrap();
                    if !(0xDC00..0xE000).contains(&c) { return msg("invalid Unicode surrogate pair") }
                    let _ = hi;
                    state = xe;
                }
                XeuBad => return msg("invalid Unicode surrogate pair"),
                UniFail => return Err(ScanErr::Report { message: "invalid Unicode escape".into(), detail: r"Unicode escapes must be \uXXXX or \UXXXXXXXX.".into(), position: pos }),
                StrEof => return msg("unterminated quoted string"),
                DolqStart => { start = pos; dol = text; state = xdolq }
                DolqFailed => { start = pos; less = 1; emit = Some("'$'".into()) }
                DolqDelim => if text == dol { state = INITIAL; emit = Some("SCONST".into()) } else { less = len - 1 },
                DolqEof => return msg("unterminated dollar-quoted string"),
                XdStart => { start = pos; state = xd; litlen = 0 }
                XuiStart => { start = pos; state = xui; litlen = 0 }
                XdStop | XuiStop => {
                    state = INITIAL;
                    if litlen == 0 { return msg("zero-length delimited identifier") }
                    emit = Some(if act == XdStop { "IDENT" } else { "UIDENT" }.into());
                }
                XdEof => return msg("unterminated quoted identifier"),
                XuFailed => { start = pos; less = 1; emit = Some("IDENT".into()) }
                Fixed(k) => { start = pos; emit = Some(k.into()) }
                SelfChar => { start = pos; emit = Some(format!("'{}'", text[0] as char)) }
                Operator => {
                    start = pos;
                    // an operator stops before the first comment start
                    let mut n = (0..len).find(|&i| text[i..].starts_with(b"/*") || text[i..].starts_with(b"--")).unwrap_or(len);
                    // trailing + and - are dropped unless a non-SQL operator character precedes them
                    while n > 1 && (text[n - 1] == b'+' || text[n - 1] == b'-') && !text[..n - 1].iter().any(|c| b"~!@#^&|`?%".contains(c)) { n -= 1; }
                    less = n;
                    let t = &text[..n];
                    let mut k = None;
                    if n < len {
                        if n == 1 && b",()[].;:+-*/%^<>=".contains(&t[0]) { k = Some(format!("'{}'", t[0] as char)) }
                        if n == 2 { k = match t { b"=>" => Some("EQUALS_GREATER"), b">=" => Some("GREATER_EQUALS"), b"<=" => Some("LESS_EQUALS"), b"<>" | b"!=" => Some("NOT_EQUALS"), _ => None }.map(String::from) }
                    }
                    if k.is_none() && n >= 64 { return msg("operator too long") }
                    emit = Some(k.unwrap_or("Op".into()));
                }
                Param => { start = pos; emit = Some("PARAM".into()) }
                Int(r) => { start = pos; emit = Some(Self::int_kind(&src[pos..pos + len], r).into()) }
                Fail(m) => return msg(m),
                Fconst => { start = pos; emit = Some("FCONST".into()) }
                NumericFail => { start = pos; less = len - 2; emit = Some(Self::int_kind(&src[pos..pos + less], 10).into()) }
                Ident => {
                    start = pos;
                    let w = src[pos..pos + len].to_ascii_lowercase();
                    emit = Some(self.kw.get(&w).cloned().unwrap_or("IDENT".into()));
                }
                Other => { start = pos; emit = Some(format!("'{}'", text[0] as char)) }
                Eof => return Ok(out),
            }
            if let Some(kind) = emit { out.push(Tok { kind, start, end: pos + less }); }
            pos += less;
        }
    }
}

pub fn is_comment(k: &str) -> bool { k == "C_COMMENT" || k == "SQL_COMMENT" }

/// PostgreSQL's base_yylex filter over the scanner's tokens (comments stay where they are):
/// two-word lookahead, and U&'' / U&"" with an optional UESCAPE clause.
pub fn filter(toks: &[Tok]) -> Result<Vec<Tok>, ScanErr> {
    let mut out: Vec<Tok> = vec![];
    let next = |i: usize| (i..toks.len()).find(|&j| !is_comment(&toks[j].kind));
    let mut i = 0;
    while i < toks.len() {
        let mut t = toks[i].clone();
        i += 1;
        let nk = next(i).map(|j| toks[j].kind.as_str()).unwrap_or("");
        match (t.kind.as_str(), nk) {
            ("NOT", "BETWEEN" | "IN_P" | "LIKE" | "ILIKE" | "SIMILAR") => t.kind = "NOT_LA".into(),
            ("NULLS_P", "FIRST_P" | "LAST_P") => t.kind = "NULLS_LA".into(),
            ("WITH", "TIME" | "ORDINALITY") => t.kind = "WITH_LA".into(),
            ("WITHOUT", "TIME") => t.kind = "WITHOUT_LA".into(),
            ("FORMAT", "JSON") => t.kind = "FORMAT_LA".into(),
            ("UIDENT" | "USCONST", _) => {
                t.kind = if t.kind == "UIDENT" { "IDENT" } else { "SCONST" }.into();
                if nk == "UESCAPE" {
                    let u = next(i).unwrap();
                    match next(u + 1) {
                        Some(j) if toks[j].kind == "SCONST" => { t.end = toks[j].end; i = j + 1; }
                        _ => return Err(ScanErr::Msg("UESCAPE must be followed by a simple string literal".into())),
                    }
                }
            }
            _ => {}
        }
        out.push(t);
    }
    Ok(out)
}
