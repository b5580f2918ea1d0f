//! P19: the scanner-description reader returns what is written.
//!
//! A case is a list of items [kind, a, b, layout] in source order; the source text is printed from the items,
//! and the items are what the reader has to return:
//!   x NAME - gap          start condition
//!   def NAME PATTERN gap  named definition
//!   junk - TEXT -         comment, option line, code block or blank line between definitions
//!   open STATES - -       start-condition block, up to `close - COMMENT -`
//!   rule STATES PATTERN ACTION   (ACTION begins with the white space after the pattern)
//!   blank - TEXT -        blank line between rules
//!   rest - TEXT -         a line after the second %%
#[allow(dead_code)]
#[path = "/repo/crates/lexer-generator/src/flex_file.rs"]
mod flex_file;
use fw::{rel, Cfg, Check, Verdict};
use refimpl::r#gen::Rng;

#[derive(Debug, PartialEq, Clone)]
struct Model { states: Vec<String>, defs: Vec<(String, String)>, rules: Vec<(Vec<String>, String, String)>, rest: String }

fn print(items: &[String]) -> Option<(String, Model)> {
    if items.len() % 4 != 0 { return None; }
    let mut s = String::new();
    let mut m = Model { states: vec!["INITIAL".into()], defs: vec![], rules: vec![], rest: String::new() };
    let mut section = 0;
    let mut block: Option<Vec<String>> = None;
    let enter = |s: &mut String, section: &mut i32, to: i32| { while *section < to { s.push_str("%%\n"); *section += 1; } *section <= to };
    let names = |t: &str| -> Vec<String> { t.split(',').map(String::from).collect() };
    for i in items.chunks(4) {
        let [k, a, b, l] = i else { return None };
        match k.as_str() {
            "x" => { if section > 0 || a.is_empty() { return None; } s += &format!("%x {a}\n"); m.states.push(a.clone()); }
            "def" => { if section > 0 || a.is_empty() || b.is_empty() || b.trim() != b || !l.starts_with('\t') { return None; } s += &format!("{a}{l}{b}\n"); m.defs.push((a.clone(), b.clone())); }
            "junk" => { if section > 0 || !harmless(b) { return None; } s += b; s.push('\n'); }
            "open" => { if !enter(&mut s, &mut section, 1) || block.is_some() || a.is_empty() { return None; } s += &format!("<{a}>{{\n"); block = Some(names(a)); }
            "close" => { block.take()?; s += &format!("}}{b}\n"); }
            "rule" => {
                if !enter(&mut s, &mut section, 1) || b.is_empty() || b.contains(char::is_whitespace) || !l.starts_with(|c: char| c == ' ' || c == '\t') || l.trim().is_empty() || depth(l) != Some(()) { return None; }
                if !a.is_empty() && block.is_some() || b.starts_with('}') || b.starts_with("%%") || (b.starts_with('<') && b != "<<EOF>>") { return None; }
                if a.is_empty() { s += &format!("{b}{l}\n"); } else { s += &format!("<{a}>{b}{l}\n"); }
                let st = if !a.is_empty() { names(a) } else { block.clone().unwrap_or(vec!["INITIAL".into()]) };
                m.rules.push((st, b.clone(), l.trim().to_string()));
            }
            "blank" => { if !enter(&mut s, &mut section, 1) || !b.trim().is_empty() { return None; } s += b; s.push('\n'); }
            "rest" => { if block.is_some() || !enter(&mut s, &mut section, 2) { return None; } s += b; s.push('\n'); m.rest += b; m.rest.push('\n'); }
            _ => return None,
        }
    }
    if block.is_some() { return None; }
    if section == 0 { s += "%%\n"; }
    Some((s, m))
}
/// the braces of an action balance exactly at its end
fn depth(l: &str) -> Option<()> {
    let mut d = 0i64;
    let n = l.split('\n').count();
    for (k, line) in l.split('\n').enumerate() {
        for c in line.chars() { match c { '{' => d += 1, '}' => d -= 1, _ => {} } }
        if d < 0 || (d == 0) != (k + 1 == n) { return None; }
    }
    Some(())
}
/// text between definitions that declares nothing
fn harmless(t: &str) -> bool {
    if let Some(r) = t.strip_prefix("%{\n") { return r.ends_with("\n%}") && !r[..r.len() - 2].contains("\n%}\n") && !r.starts_with("%}"); }
    t.split('\n').all(|l| !l.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !l.starts_with("%%") && !l.starts_with("%{") && !l.starts_with("%x "))
}

fn reads_back(items: &[String]) -> Verdict {
    let Some((text, m)) = print(items) else { return Verdict::Skip };
    let f = flex_file::parse_flex_file(&text);
    let at = |what: &str, want: String, got: String| Verdict::Fail(format!("{what}: written {want}, read {got}\n--- source:\n{text}"));
    if f.all_states != m.states { return at("start conditions", format!("{:?}", m.states), format!("{:?}", f.all_states)); }
    let defs: Vec<(String, String)> = f.definitions.iter().map(|d| (d.name.clone(), d.def.clone())).collect();
    if defs != m.defs { let k = defs.iter().zip(&m.defs).position(|(a, b)| a != b).unwrap_or(defs.len().min(m.defs.len())); return at("definitions", format!("{:?} ({} in all)", m.defs.get(k), m.defs.len()), format!("{:?} ({} in all)", defs.get(k), defs.len())); }
    let rules: Vec<(Vec<String>, String, String)> = f.rules.iter().map(|r| (r.states.clone(), r.pattern.clone(), r.actions.trim().to_string())).collect();
    if rules != m.rules { let k = rules.iter().zip(&m.rules).position(|(a, b)| a != b).unwrap_or(rules.len().min(m.rules.len())); return at("rules", format!("{:?} ({} in all)", m.rules.get(k), m.rules.len()), format!("{:?} ({} in all)", rules.get(k), rules.len())); }
    if f.rest_code.trim_end() != m.rest.trim_end() { return at("trailing code", format!("{:?}", m.rest), format!("{:?}", f.rest_code)); }
    Verdict::Ok(m.rules.len() + m.defs.len() >= 3)
}

// ---------------------------------------------------------------- generator
const NAMES: &[&str] = &["xb", "xq", "xqs", "A", "str_1", "INITIAL2", "eof", "x", "_s", "quote", "other"];
const PATS: &[&str] = &["{whitespace}", "a", "[^']*", "\"--\"{non_newline}*", "\\*+", "\\<", "\"<<EOF>>\"", "(a|b){1,2}", "{xcstart}", "\\n", ".", "\\\"", "[{]", "\\}", "\\${x}*", "[<>]", "\\%\\%", "é+", "[^é\\n]", "日本", "{}", "/", "0[xX](_?{h})+", "''", "|", "#", "//", "%x", "%", "\"%%\"", "%{", "_", "\\x80-\\xFF", "}a"];
fn pat(r: &mut Rng) -> String { let mut s = String::new(); for _ in 0..*r.pick(&[1usize, 1, 2, 3]) { s += r.pick::<&str>(PATS); } s }
const LINES: &[&str] = &["return Ok(Some(TokenKind::ICONST));", "\tself.begin(State::xb);", "", "   ", "%%", "<xq>{quote}\t|", "<<EOF>>\t|", "// comment with é 日本", "/* don't */", "%x foo", "foo\tbar", "%{", "yyerror!(\"unterminated /* comment\");", "|", "let s = \"a b\\tc\";", "\t\t  trailing space  ", "a|b", "<xc>", "%}", "}\t{"];
fn action(r: &mut Rng) -> String {
    let gap = *r.pick::<&str>(&["\t", "\t\t", " ", "   \t ", "\t\t\t"]);
    match r.below(6) {
        0 => format!("{gap}|"),
        1 => format!("{gap}{}", r.pick::<&str>(&["return 1;", "; /* nothing */", "yyless(1); BEGIN(xb);", "é", "ECHO;", "|| x"])),
        2 => format!("{gap}{{ {} }}", r.pick::<&str>(&["", "return x;", "yyerror!(\"bad { } \");", "if a { b } else { c }", "<xb>"])),
        3 => format!("{gap}{{}}{}", r.pick::<&str>(&["", " // done", " /* é */"])),
        _ => {
            let mut s = format!("{gap}{}{{", r.pick::<&str>(&["", "", "if x ", "é "]));
            let mut d = 1;
            for _ in 0..r.range(1, 9) {
                s.push('\n');
                match r.below(6) {
                    0 => { s += r.pick::<&str>(&["\tif self.x {", "{", "\t\tloop { match c {", "// {", "<xb>{"]); d += s.rsplit('\n').next().unwrap().matches('{').count(); }
                    1 if d > 1 => { s += r.pick::<&str>(&["}", "\t}", "} else {", "}, // }"][..2]); d -= 1; }
                    2 if d > 2 => { s += "}}"; d -= 2; }
                    3 if d > 1 => s += "\t} else {",
                    _ => s += r.pick::<&str>(LINES),
                }
            }
            s.push('\n');
            for k in 0..d { s += if k + 1 == d && r.chance(1, 2) { "\t\t}" } else { "}" }; }
            if r.chance(1, 5) { s += r.pick::<&str>(&[" ", "// end", "\t/* x */"]); }
            s
        }
    }
}
fn junk(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "/*\n * Comment: with words\tand tabs\n * <xb>{a} %x no\n */".into(),
        2 => format!("%option {}", r.pick::<&str>(&["reentrant", "prefix=\"core_yy\"", "8bit"])),
        3 => "%top{\n/* top */\n#include \"x.h\"\n\n}".into(),
        4 => format!("%{{\n{}\n%}}", r.pick::<&str>(&["", "#define X 1\nfoo\tbar\n%x notastate", "static int\tx;\n%%\n<xb>a\t|\n}", "%{", " %}\nword\tx"])),
        5 => "\t/* indented\tcomment */".into(),
        6 => format!("//{}", "-".repeat(r.below(5))),
        _ => " \t ".into(),
    }
}
fn make(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut push = |k: &str, a: String, b: String, l: String| { v.extend([k.to_string(), a, b, l]); };
    let mut states = vec![];
    for _ in 0..r.below(12) {
        match r.below(5) {
            0 | 1 => { let n = format!("{}{}", r.pick::<&str>(NAMES), if r.chance(1, 2) { String::new() } else { r.below(9).to_string() }); if !states.contains(&n) { states.push(n.clone()); push("x", n, String::new(), String::new()); } }
            2 | 3 => { let n = format!("{}{}", r.pick::<&str>(&["space", "X9_", "_a", "quotecontinue", "x", "xb", "INITIAL", "A_B"]), r.below(20)); let mut d = pat(r); if r.chance(1, 4) { d = format!("{d}[ \\t\\n]\t{}", pat(r)); } let gap = r.pick::<&str>(&["\t", "\t\t", "\t\t\t", "\t  ", "\t "]).to_string(); push("def", n, d, gap); }
            _ => { let j = junk(r); push("junk", String::new(), j, String::new()); }
        }
    }
    let sts = |r: &mut Rng, states: &Vec<String>| -> String { let mut v = vec![]; for _ in 0..r.range(1, 3) { v.push(if states.is_empty() || r.chance(1, 5) { "INITIAL".to_string() } else { r.pick(states).clone() }); } v.join(",") };
    for _ in 0..*r.pick(&[0usize, 1, 2, 4, 8]) {
        let mut rule = |r: &mut Rng, a: String| { let p = if r.chance(1, 8) { "<<EOF>>".to_string() } else { pat(r) }; let l = action(r); push("rule", a, p, l); };
        match r.below(6) {
            0 => { let n = *r.pick(&[0usize, 1, 2, 4]); let a = sts(r, &states); push("open", a, String::new(), String::new()); for _ in 0..n { if r.chance(1, 4) { push("blank", String::new(), r.pick::<&str>(&["", " ", "\t"]).to_string(), String::new()); } let p = if r.chance(1, 8) { "<<EOF>>".to_string() } else { pat(r) }; let l = action(r); push("rule", String::new(), p, l); } push("close", String::new(), r.pick::<&str>(&["", " /* <xc> */", "\t// é", " "]).to_string(), String::new()); }
            1 => push("blank", String::new(), r.pick::<&str>(&["", " ", "\t", "\t \t"]).to_string(), String::new()),
            2 | 3 => { let a = sts(r, &states); rule(r, a) }
            _ => rule(r, String::new()),
        }
    }
    if r.chance(2, 3) { for _ in 0..r.below(6) { let l = if r.chance(1, 4) { "%%".to_string() } else { r.pick::<&str>(LINES).to_string() }; push("rest", String::new(), l, String::new()); } }
    v
}

fn build(cfg: Cfg) -> Check {
    let mut c = Check::new(cfg, "scanner descriptions generated as models (start conditions, definitions, rules with start-condition lists and blocks, shared, one-line and nested multi-line actions, end-of-file rules, comments, code blocks, options, trailing code), printed in varying layout and read back; oracle: the model; non-trivial: at least three rules and definitions",
        vec![rel("reads back", 4, 0, reads_back)]);
    c.assumptions.push("supported layout: one %x per line, a tab after a definition's name, no white space inside rule patterns, a rule's action on its line and its braces balanced as text, blocks not nested".into());
    c
}
fn explore(c: &Check) {
    let seed = c.cfg.seed;
    c.stage("generated descriptions", c.cfg.n(2_400_000, 60_000_000), || (), |_, w, i| { let mut r = Rng::new(seed ^ 0xf1e, i); let v = make(&mut r); w.eval("reads back", v); });
    c.stage("long descriptions", c.cfg.n(6_000, 100_000), || (), |_, w, i| {
        let mut r = Rng::new(seed ^ 0xf1f, i);
        // the definition items of several cases, then their rules, then one tail
        let (mut a, mut b) = (vec![], vec![]);
        for _ in 0..r.range(5, 40) { for t in make(&mut r).chunks(4) { match t[0].as_str() { "x" | "def" | "junk" => a.extend_from_slice(t), "rest" => {} _ => b.extend_from_slice(t) } } }
        a.extend(b);
        w.eval("reads back", a);
    });
}
fn main() {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string());
    fw::main(&dir, build, explore)
}
