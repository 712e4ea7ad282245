//! Independence: what a formula converts to does not depend on what was converted before, apart from what it uses of it.
use crate::*;

pub const VARIANTS: u32 = 8;

/// Formulas which leave something behind: definitions, numbers, labels, failures in the middle of everything.
const OTHERS: &[&str] = &[
    "\\mathbf{x\\left(\\begin{align}a\\tag{1",
    "\\begin{align}a\\label{zz}\\notag\\\\b\\nonumber\\\\c\\label{zy}\\end{align}{\\bf x}\\color{red}y",
    "\\def\\q#1{<#1>}\\let\\alpha=\\beta\\newcommand\\a[2]{#2#1}\\renewcommand{\\sum}{\\int}\\displaystyle x",
    "\\newcommand\\q[1]{#1}\\q{\\begin{cases}a&\\text{b}}\\\\",
    "{\\rm a\\over\\scriptscriptstyle b",
    "\\newcommand\\q{\\q}\\q",
    "\\begingroup\\sf\\begin{array}{r|l}\\hline 1&2\\\\[1em]\\bad",
    "\\sum\\limits_{a",
    "\\begin{align}a\\label{zz}\\\\b\\end{align}\\global\\let\\beta=\\q\\begin{equation}c\\tag{zx}\\label{zy}\\end{equation}",
];
const STATED: u32 = 400_000;
/// Formulas which show whatever there is in the state; `@` is an arbitrary letter.
const PROBES: &[&str] = &[
    "\\begin{equation}@\\end{equation}",
    "\\begin{align}@\\label{zz}\\\\y\\nonumber\\\\z\\end{align}\\eqref{zz}",
    "\\eqref{zz}\\eqref{zy}@",
    "\\begin{multline}x\\\\@\\label{@}\\end{multline}\\eqref{zz}\\eqref{@}",
    "\\q{@}",
    "\\a x@",
    "\\newcommand\\q[1]{#1@}\\q x",
    "\\frac x@",
    "\\sum_@\\alpha\\beta",
    "\\providecommand\\q{@}\\q",
    "\\renewcommand\\q{@}\\q",
    "@\\over\\text{@}",
    "\\def\\q{@}\\begin{gather}\\q\\\\\\q\\end{gather}",
];

pub fn jobs(tier: u32) -> Vec<u32> {
    let mut v = p08::select(tier, VARIANTS);
    if tier == 0 {
        // Each formula with half of the histories.
        v.retain(|k| (k / VARIANTS + k % VARIANTS / 2) % 2 == 0);
    }
    let t = if tier == 0 { 0 } else { fam::TIER };
    v.extend((0..VARIANTS * PROBES.len() as u32).map(|k| t + STATED + k));
    v
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER, k % fam::TIER);
    let v = k % VARIANTS;
    let stated = k >= STATED;
    let mut i = (k / VARIANTS) as usize;
    let b = if stated {
        let p = PROBES[i - (STATED / VARIANTS) as usize];
        i = sx::choose(OTHERS.len() * 2);
        let l = sx::letter();
        let mut b = Buf::new();
        for c in p.bytes() {
            b.b(if c == b'@' { l } else { c });
        }
        // References are to what comes after, too.
        if v == 6 && p.contains("eqref") {
            return sx::cover(1);
        }
        b
    } else {
        fam::make(fam::nth(deep, i))
    };
    let s = b.as_str();
    let d = if v % 2 == 1 { MathDisplay::Block } else { MathDisplay::Inline };
    // The display style of an isolated formula must not depend on that of others.
    let e = if i % 2 == 1 { MathDisplay::Block } else { MathDisplay::Inline };
    let other = OTHERS[i % OTHERS.len()];
    let mut base = new(MathCoreConfig::default());
    let want = base.convert_with_global_state(s, d);
    let mut c = std();
    let r = match v {
        // With a state of its own, after formulas with theirs.
        0 | 1 => {
            let _ = c.convert_with_local_state(other, e);
            c.convert_with_local_state(s, d)
        }
        // The same, after formulas which filled the global state.
        2 => {
            let _ = c.convert_with_global_state(other, e);
            let _ = c.convert_with_global_state("\\gdef\\q#1{y}\\global\\let\\frac=\\sum", e);
            c.convert_with_local_state(s, d)
        }
        // With the global state, after a reset.
        3 => {
            let _ = c.convert_with_global_state("\\gdef\\q#1{y}\\global\\let\\frac=\\sum", e);
            let _ = c.convert_with_global_state(other, e);
            c.reset_global_state();
            c.convert_with_global_state(s, d)
        }
        // With the global state, after formulas with local ones.
        4 => {
            let _ = c.convert_with_local_state("\\gdef\\q#1{y}\\global\\let\\frac=\\sum", e);
            let _ = c.convert_with_local_state(other, e);
            c.convert_with_global_state(s, d)
        }
        // With the global state, after a formula which leaves nothing behind.
        5 => {
            let _ = c.convert_with_global_state("\\def\\q#1{y}\\let\\frac=\\sum\\sf x_{\\displaystyle", e);
            c.convert_with_global_state(s, d)
        }
        // All at once: the first is not affected by the second, except for its references.
        6 => {
            let mut rs = c.convert_all(&[(s, d), (other, e)]);
            rs.truncate(1);
            match rs.pop() {
                Some(r) => r,
                None => return sx::fail("convert_all loses a formula"),
            }
        }
        // Converted twice, the second time on its own terms.
        _ => {
            let mut rs = c.convert_all(&[("x", e), (s, d)]);
            match rs.pop() {
                Some(r) => r,
                None => return sx::fail("convert_all loses a formula"),
            }
        }
    };
    match (&want, &r) {
        (Ok(x), Ok(y)) => {
            sx::note(&x.mathml);
            sx::check(x.mathml == y.mathml, "the result of a formula depends on what was converted before");
            sx::check(x.warnings.has_any() == y.warnings.has_any(), "the warnings of a formula depend on what was converted before");
            sx::cover(1);
        }
        (Err(x), Err(y)) => {
            sx::note(&x.error_message());
            sx::check(x.0 == y.0 && x.error_message() == y.error_message(), "the error of a formula depends on what was converted before");
            sx::cover(2);
        }
        _ => sx::fail("whether a formula converts depends on what was converted before"),
    }
    // What a formula leaves behind does not change one which uses none of it.
    let after = c.convert_with_global_state("\\left\\{x\\over y_1\\right\\}", e);
    let fresh = base.convert_with_local_state("\\left\\{x\\over y_1\\right\\}", e);
    match (&after, &fresh) {
        (Ok(x), Ok(y)) => sx::check(x.mathml == y.mathml, "a formula changes the one after it"),
        _ => {
            // `\gdef` and the like may have redefined a command which is used here.
            sx::check(p05::find(s, "global").is_some() || p05::find(s, "gdef").is_some(), "a formula breaks the one after it")
        }
    }
}
