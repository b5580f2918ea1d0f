mod sut;
mod gens;
mod growth;
mod guide;
mod core;
mod meta;
mod prec;
mod total;
mod variants;
use fw::{Cfg, Check};

#[global_allocator]
static ALLOC: growth::Counting = growth::Counting;

fn build(cfg: Cfg) -> Check {
    match cfg.prop.as_str() {
        "P01" => core::p01(cfg), "P02" => total::p02(cfg), "P03" => core::p03(cfg), "P04" => core::p04(cfg), "P05" => core::p05(cfg), "P06" => core::p06(cfg), "P07" => core::p07(cfg),
        "P08" => meta::p08(cfg), "P09" => meta::p09(cfg), "P10" => meta::p10(cfg), "P11" => prec::p11(cfg), "P12" => meta::p12(cfg), "P13" => meta::p13(cfg), "P14" => total::p14(cfg),
        "P15" => variants::p15(cfg), "P16" => variants::p16(cfg), "P17" => variants::p17(cfg), "P18" | "P19" | "P20" | "P21" | "P22" | "P23" | "P27" | "P28" => variants::p23(cfg),
        "P24" => core::p24(cfg), "P25" => meta::p25(cfg), "P26" => growth::p26(cfg),
        p => { eprintln!("unknown property {p}"); std::process::exit(3) }
    }
}
fn explore(c: &Check) {
    guide::load(c);
    match c.cfg.prop.as_str() {
        "P01" => core::x01(c), "P02" => total::x02(c), "P03" => core::x03(c), "P04" => core::x04(c), "P05" => core::x05(c), "P06" => core::x06(c), "P07" => core::x07(c),
        "P08" => meta::x08(c), "P09" => meta::x09(c), "P10" => meta::x10(c), "P11" => prec::x11(c), "P12" => meta::x12(c), "P13" => meta::x13(c), "P14" => total::x14(c),
        "P15" => variants::x15(c), "P16" => variants::x16(c), "P17" => variants::x17(c), "P18" | "P19" | "P20" | "P21" | "P22" | "P23" | "P27" | "P28" => variants::x23(c),
        "P24" => core::x24(c), "P25" => meta::x25(c), "P26" => growth::x26(c),
        _ => unreachable!(),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--probe") { std::process::exit(total::probe(&a[2])) }
    if a.get(1).map(String::as_str) == Some("--fresh") { std::process::exit(total::fresh_main()) }
    gens::load_dict();
    if a.get(1).map(String::as_str) == Some("--guide") { std::process::exit(guide::main(&a[2], a[3].parse().unwrap(), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1))) }
    fw::main(&sut::dir(), build, explore)
}
