//! P27, P28: the generators, end to end.
mod grammars;
mod lexers;
mod slots;
use fw::{rel, Cfg, Check};

fn build(cfg: Cfg) -> Check {
    if cfg.prop == "P28" {
        let b = grammars::bench();
        let mut c = Check::new(cfg, "generated grammars (random, expressions with precedence, statements, fragments of PostgreSQL's grammar) over tokens of the scanner, written in several layouts; the parser generator runs on each in a copy of the working tree, the library it writes is compiled (with and without removal of empty nodes) and parses generated texts; oracle: reference scanner, an independent LALR(1) construction and the tree rules; non-trivial: an accepted text of at least three tokens, or a rejected one of a grammar with more than eight states",
            vec![rel("parses", 2, 0, move |i| grammars::parses(&b, i))]);
        c.assumptions.push("grammars without conflicts that precedence does not settle, without symbols that derive nothing, with at most 1500 states".into());
        return c;
    }
    let b = lexers::bench();
    let mut c = Check::new(cfg, "scanner descriptions generated as models; the lexer generator runs on each in a copy of the working tree, the scanner it writes is compiled (alternately the library's copy and the parser generator's) and scans generated texts; oracle: the reference matcher and an interpreter of the actions; non-trivial: at least three matches of two rules",
        vec![rel("scans", 5, 0, move |i| lexers::scans(&b, i))]);
    c.assumptions.push("descriptions of at most 254 rules and 250 automaton states per start condition, with an <<EOF>> rule and a catch-all in each, without the text \"# in a pattern".into());
    c
}
fn explore(c: &Check) {
    if c.cfg.prop == "P28" {
        if let Err(e) = grammars::baseline() { panic!("the machinery does not work on the tree as it is: {e}"); }
        return grammars::explore(c);
    }
    if let Err(e) = lexers::baseline() { panic!("the machinery does not work on the tree as it is: {e}"); }
    lexers::explore(c)
}
fn main() {
    std::env::set_var("FW_HANG", "400");
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string());
    fw::main(&dir, build, explore)
}
