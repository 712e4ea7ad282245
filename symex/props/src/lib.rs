//! The properties, as programs over symbolic inputs. `run(job)` is the entry the engine explores.
#![allow(clippy::all)]
pub mod buf;
pub mod corpus;
pub mod fam;
pub mod sx;
pub mod xml;

mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod symbols;
#[cfg(feature = "cli")]
mod p11;

pub use buf::Buf;
pub use math_core::{
    ConvertResult, Indentation, LatexError, LatexToMathML, MathCoreConfig, MathDisplay, MaxExpansions, PrettyPrint, UnicodeSubstitution,
};

/// Job numbers are `property * STRIDE + k`.
pub const STRIDE: u64 = 1_000_000;

pub fn run(job: u64) -> u64 {
    let k = (job % STRIDE) as u32;
    match job / STRIDE {
        1 => p01::run(k),
        2 => p02::run(k),
        3 => p03::run(k),
        4 => p04::run(k),
        5 => p05::run(k),
        6 => p06::run(k),
        7 => p07::run(k),
        8 => p08::run(k),
        9 => p09::run(k),
        10 => p10::run(k),
        12 => p12::run(k),
        13 => p13::run(k),
        14 => p14::run(k),
        15 => p15::run(k),
        16 => p16::run(k),
        17 => p17::run(k),
        18 => p18::run(k),
        19 => p19::run(k),
        20 => p20::run(k),
        21 => p21::run(k),
        22 => p22::run(k),
        23 => p23::run(k),
        24 => p24::run(k),
        25 => p25::run(k),
        #[cfg(feature = "cli")]
        11 => p11::run(k),
        _ => {}
    }
    0
}

/// The jobs of property `p`: tier 0 is quick, tier 1 thorough.
pub fn jobs(p: u64, tier: u32) -> Vec<u64> {
    let v: Vec<u32> = match p {
        1 => p01::jobs(tier),
        2 => p02::jobs(tier),
        3 => p03::jobs(tier),
        4 => p04::jobs(tier),
        5 => p05::jobs(tier),
        6 => p06::jobs(tier),
        7 => p07::jobs(tier),
        8 => p08::jobs(tier),
        9 => p09::jobs(tier),
        10 => p10::jobs(tier),
        12 => p12::jobs(tier),
        13 => p13::jobs(tier),
        14 => p14::jobs(tier),
        15 => p15::jobs(tier),
        16 => p16::jobs(tier),
        17 => p17::jobs(tier),
        18 => p18::jobs(tier),
        19 => p19::jobs(tier),
        20 => p20::jobs(tier),
        21 => p21::jobs(tier),
        22 => p22::jobs(tier),
        23 => p23::jobs(tier),
        24 => p24::jobs(tier),
        25 => p25::jobs(tier),
        #[cfg(feature = "cli")]
        11 => p11::jobs(tier),
        _ => Vec::new(),
    };
    v.into_iter().map(|k| p * STRIDE + k as u64).collect()
}

pub fn new(cfg: MathCoreConfig) -> LatexToMathML {
    match LatexToMathML::new(cfg) {
        Ok(c) => c,
        Err(_) => panic!("the configuration of the harness was rejected"),
    }
}
pub fn std() -> LatexToMathML {
    new(MathCoreConfig::default())
}
/// Convert with local state; an error is reduced to its message.
pub fn conv(c: &LatexToMathML, s: &str, block: bool) -> Result<String, Box<LatexError>> {
    c.convert_with_local_state(s, if block { MathDisplay::Block } else { MathDisplay::Inline }).map(|r| r.mathml)
}
