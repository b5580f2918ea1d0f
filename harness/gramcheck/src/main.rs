//! P20: the grammar reader returns the grammar that is written.
//! P21: the generated tables implement LALR(1) parsing with bison's precedence rules.
//! P22: compression keeps every decision of the tables.
// the generator reports its progress with dbg!
#[allow(unused_macros)]
macro_rules! dbg { ($e:expr $(,)?) => { $e }; }
// src/parser_generator.rs and src/parser_generator are links into /repo
#[allow(dead_code, unused, clippy::all)]
mod parser_generator;
mod read;
mod tables;
use fw::{Cfg, Check};

fn build(cfg: Cfg) -> Check {
    match cfg.prop.as_str() {
        "P20" => read::build(cfg),
        "P21" => tables::build21(cfg),
        "P22" => tables::build22(cfg),
        p => panic!("harness: {p} is not a property of this binary"),
    }
}
fn explore(c: &Check) {
    match c.cfg.prop.as_str() {
        "P20" => read::explore(c),
        "P21" => tables::explore21(c),
        _ => tables::explore22(c),
    }
}
fn main() {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string());
    fw::main(&dir, build, explore)
}
