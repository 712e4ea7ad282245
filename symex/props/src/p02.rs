//! No input makes the converter panic, abort, overflow or run without end (explored with debug assertions and overflow checks on),
//! neither in a conversion nor in the conversion which follows it on the same converter.
use crate::*;

const NV: u32 = 2;

pub fn jobs(tier: u32) -> Vec<u32> {
    fam::jobs(tier, NV)
}

fn cfg(v: u32) -> MathCoreConfig {
    let mut c = MathCoreConfig::default();
    if v == 1 {
        c.pretty_print = PrettyPrint::Always;
        c.annotation = true;
        c.ignore_unknown_commands = true;
        c.global_group = false;
        c.unicode_substitution = UnicodeSubstitution::Never;
        c.allow_unreliable_rendering = true;
        c.max_expansions = MaxExpansions(3);
    }
    c
}

pub fn run(k: u32) {
    let (tier, k) = (k / fam::TIER, k % fam::TIER);
    let f = fam::nth(tier, (k / NV) as usize);
    let v = k % NV;
    let b = fam::make(f);
    let mut c = new(cfg(v));
    if v == 0 {
        match c.convert_with_local_state(b.as_str(), MathDisplay::Block) {
            Ok(r) => {
                sx::note(&r.mathml);
                sx::cover(1);
            }
            Err(e) => {
                sx::note(&e.to_html(b.as_str(), MathDisplay::Inline, None));
                sx::note(e.label());
                sx::cover(2);
            }
        }
    } else {
        let r = c.convert_with_global_state(b.as_str(), MathDisplay::Inline).is_ok();
        sx::cover(if r { 1 } else { 2 });
        let mut next = Buf::new();
        next.s("\\begin{align}x\\a &\\q{y}\\label{a}\\\\\\ref{a}\\end{align}");
        match c.convert_with_global_state(next.as_str(), MathDisplay::Block) {
            Ok(r) => sx::note(&r.mathml),
            Err(e) => sx::note(&e.error_message()),
        }
    }
}
