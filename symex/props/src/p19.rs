//! Scripts: they are at the base and on the side, or above and below, where TeX puts them.
use crate::*;
use xml::El;

#[derive(Clone, Copy, PartialEq)]
enum Base {
    /// Scripts are beside it; there is no choice.
    Atom,
    /// Beside it unless something else is said.
    Beside,
    /// Above and below it in displayed formulas unless something else is said.
    Limits,
}
const ATOMS: &[&str] = &[
    "X", "2", "{XY}", "{X}", "\\alpha ", "\\infty ", "=", "+", "(", ")", ",", "!", "\\hat X", "\\sqrt X", "\\frac XY", "\\binom XY", "\\overline{X}", "\\mathrm X", "\\mathbf{XY}",
    "\\text{X}", "\\left(X\\right)", "\\left.X\\right]", "\\begin{matrix}X\\end{matrix}", "\\begin{pmatrix}X&Y\\end{pmatrix}", "\\mathord{X}", "\\mathrel{X}", "\\bigl(", "\\Big|",
    "\\ldots ", "\\to ", "\\partial ", "{}", "\\phantom{X}", "\\prime ", "\\not=", "\\overset XY", "{\\sum}", "{\\lim}", "{X\\over Y}", "\\%", "\\Gamma ", "\\langle ", "|",
    "{\\int_X^Y}", "\\cancel X", "{X_Y}", "{X^Y}",
];
/// Integrals.
const BESIDE: &[&str] = &[
    "int", "iint", "iiint", "iiiint", "oint", "oiint", "oiiint", "intclockwise", "varointclockwise", "ointctrclockwise", "sumint", "intbar", "intBar", "fint", "cirfnint", "awint",
];
const LIMITS: &[&str] = &[
    "sum", "prod", "coprod", "bigcap", "bigcup", "bigvee", "bigwedge", "bigodot", "bigoplus", "bigotimes", "biguplus", "bigsqcap", "bigsqcup", "bigtimes", "bigcupdot",
];
const NAMES_BESIDE: &[&str] = &[
    "arccos", "arcsin", "arctan", "arg", "cos", "cosh", "cot", "coth", "csc", "deg", "dim", "exp", "hom", "ker", "lg", "ln", "log", "sec", "sin", "sinh", "tan", "tanh",
];
const NAMES_LIMITS: &[&str] = &["det", "gcd", "inf", "lim", "liminf", "limsup", "max", "min", "Pr", "sup", "injlim", "projlim"];
const NAMED: &[&str] = &["operatorname{XY}", "operatorname*{XY}", "sideset{}{'}\\sum", "sideset{_p^q}{}\\prod", "sideset{_q}{^p}\\bigcup"];
/// Formulas with a place for the base and its scripts at `@`: displayed if the formula is, displayed always, or never; may stand after something.
const PLACES: &[(&str, char)] = &[
    ("@", '='),
    ("p@q", '='),
    ("{@}", '='),
    ("\\displaystyle @", 'd'),
    ("\\textstyle p@", 't'),
    ("{\\scriptstyle @}q", 't'),
    ("\\frac{@}{q}", 't'),
    ("\\dfrac{p}{@}", 't'),
    ("\\frac{\\displaystyle @}{q}", 'd'),
    ("{p\\over @}", 't'),
    ("p^{@}", 't'),
    ("p_{q@}", 't'),
    ("p_{\\displaystyle @}", 'd'),
    ("\\sum_{@}^q", 't'),
    ("\\left(@\\right)", '='),
    ("\\sqrt{@}", '='),
    ("\\sqrt[@]{p}", 't'),
    ("\\overline{@}", '='),
    ("\\underbrace{@}_{q}", '='),
    ("\\underbrace{p}_{@}", 't'),
    ("\\overset{@}{p}", 't'),
    ("\\mathrm{@}", '='),
    ("\\binom{@}{q}", 't'),
    ("\\begin{matrix}@\\end{matrix}", 't'),
    ("\\begin{matrix}p\\\\q&@\\end{matrix}", 't'),
    ("\\begin{cases}@\\\\q\\end{cases}", 't'),
    ("\\begin{dcases}@\\\\q\\end{dcases}", 'd'),
    ("\\begin{aligned}p&@\\\\q\\end{aligned}", 'd'),
    ("\\begin{array}{c}@\\end{array}", 't'),
    ("\\xrightarrow{@}", 't'),
    ("\\phantom{@}", '='),
    ("\\color{red}@", '='),
    ("\\newcommand\\f[1]{#1}\\f{@}", '='),
];

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(ATOMS.len() + BESIDE.len() + LIMITS.len() + NAMES_BESIDE.len() + NAMES_LIMITS.len() + NAMED.len() + PLACES.len() * 5) as u32).map(|k| k + t).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Item {
    Sub(u8),
    Sup(u8),
    Prime,
    Lim(char),
}
use Item::*;

/// Does it move its limits by itself? The category J of MathML Core's operator dictionary.
fn movable(c: char) -> bool {
    matches!(c, '\u{220f}'..='\u{2211}' | '\u{22c0}'..='\u{22c3}' | '\u{2a00}'..='\u{2a0a}' | '\u{2a1d}'..='\u{2a1e}' | '\u{2afc}' | '\u{2aff}')
}

/// The elements with scripts, each with whether it is displayed.
fn scripted<'s, 'a>(e: &'s El<'a>, display: bool, out: &mut Vec<(&'s El<'a>, bool)>) {
    let mut display = display;
    match e.attr("displaystyle") {
        Some(d) => display = d == "true",
        None if e.tag == "mtable" => display = false,
        None => {}
    }
    if matches!(e.tag, "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover") {
        out.push((e, display));
    }
    for (i, k) in e.els().enumerate() {
        let inner = match e.tag {
            "mfrac" => false,
            "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mroot" => display && i == 0,
            _ => display,
        };
        scripted(k, inner, out);
    }
}
fn core<'s, 'a>(e: &'s El<'a>) -> &'s El<'a> {
    if matches!(e.tag, "mrow" | "mstyle" | "mpadded") && e.n() == 1 { core(e.el(0).unwrap()) } else { e }
}
/// What is written in a script: a letter, primes or both.
fn is_script(e: &El, primes: usize, letter: Option<u8>) -> bool {
    let mut t = String::new();
    e.all_text(&mut t);
    let t = xml::unescape(&t);
    let (mut n, mut l, mut bad) = (0, None, false);
    for c in t.chars() {
        match c {
            '\u{2032}' => n += 1,
            '\u{2033}' => n += 2,
            '\u{2034}' => n += 3,
            '\u{2057}' => n += 4,
            c if c.is_ascii() && l.is_none() => l = Some(c as u8),
            _ => bad = true,
        }
    }
    !bad && n == primes && l == letter
}

fn check(base: &str, kind: Base, items: &[Item], place: (&str, char), block: bool) {
    let mut s = Buf::new();
    let (before, after) = place.0.split_once('@').unwrap();
    s.s(before).s(base);
    for i in items {
        match i {
            Sub(c) => s.s("_").b(*c),
            Sup(c) => s.s("^").b(*c),
            Prime => s.s("'"),
            Lim('l') => s.s("\\limits "),
            Lim('n') => s.s("\\nolimits "),
            _ => s.s("\\displaylimits "),
        };
    }
    s.s(after);
    sx::show(s.as_str());
    // What TeX does.
    let (mut sub, mut sup, mut primes, mut wrong, mut lim) = (None, None, 0, false, None);
    let mut i = 0;
    let mut upper = false;
    while i < items.len() {
        match items[i] {
            Sub(c) => {
                wrong |= sub.is_some();
                sub = Some(c);
            }
            Sup(c) => {
                wrong |= upper;
                upper = true;
                sup = Some(c);
            }
            Prime => {
                wrong |= upper;
                upper = true;
                // The primes which follow, and a superscript right after them, belong together.
                primes += 1;
                while let Some(Prime) = items.get(i + 1) {
                    primes += 1;
                    i += 1;
                }
                if let Some(Sup(c)) = items.get(i + 1) {
                    sup = Some(*c);
                    i += 1;
                }
            }
            Lim(l) => {
                wrong |= kind == Base::Atom;
                lim = Some(l);
            }
        }
        i += 1;
    }
    let conv = std();
    let got = crate::conv(&conv, s.as_str(), block);
    let o = match (got, wrong) {
        (Err(_), true) => return sx::cover(2),
        (Ok(o), true) => {
            sx::note(&o);
            return sx::fail("a second script, or limits where there can be none, are accepted");
        }
        (Err(_), false) => return sx::fail("scripts are refused"),
        (Ok(o), false) => o,
    };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    let mut all = Vec::new();
    scripted(&root, block, &mut all);
    let displayed = match place.1 {
        '=' => block,
        c => c == 'd',
    };
    let under = kind != Base::Atom
        && match lim {
            Some('l') => true,
            Some('n') => false,
            Some(_) => displayed,
            None => kind == Base::Limits && displayed,
        };
    // The element with these scripts, and no other.
    let lower = sub.is_some();
    let mut found = 0;
    for (e, display) in all {
        let (n, has_lower, has_upper, is_under) = match e.tag {
            "msub" => (2, true, false, false),
            "msup" => (2, false, true, false),
            "msubsup" => (3, true, true, false),
            "munder" => (2, true, false, true),
            "mover" => (2, false, true, true),
            _ => (3, true, true, true),
        };
        if has_lower != lower || has_upper != upper || e.n() != n {
            continue;
        }
        if lower && !is_script(e.el(1).unwrap(), 0, sub) || upper && !is_script(e.el(n - 1).unwrap(), primes, sup) {
            continue;
        }
        // It is not one of the scripts of the base itself, which have other letters.
        found += 1;
        let base = core(e.el(0).unwrap());
        let mut is_under = is_under;
        if is_under && base.tag == "mo" && !display {
            let moves = match base.attr("movablelimits") {
                Some(m) => m == "true",
                None => {
                    let t = xml::unescape(base.text());
                    t.chars().next().is_some_and(movable) && t.chars().count() == 1
                }
            };
            is_under &= !moves;
        }
        if kind != Base::Atom {
            sx::check(base.tag == "mo" || base.tag == "mi" || base.tag == "mmultiscripts", "the scripts of an operator are not at the operator");
        }
        sx::check(is_under == under, if under { "scripts are beside an operator instead of above and below" } else { "scripts are above and below instead of beside" });
    }
    if !lower && !upper {
        sx::cover(3);
    } else {
        sx::check(found == 1, "scripts are lost, doubled, exchanged or elsewhere");
        sx::cover(1);
    }
}

fn item(base: Base) -> Item {
    match sx::choose(if base == Base::Atom { 4 } else { 6 }) {
        0 => Sub(script()),
        1 => Sup(script()),
        2 => Prime,
        3 => Lim('l'),
        4 => Lim('n'),
        _ => Lim('d'),
    }
}
/// A letter which is not one of those around.
fn script() -> u8 {
    let b = sx::byte();
    sx::assume((b.wrapping_sub(b'a') < 15) | (b.wrapping_sub(b'r') < 9));
    b
}
fn items(base: Base, n: usize) -> Vec<Item> {
    (0..n).map(|_| item(base)).collect()
}
/// Some sequences for the longer lists.
fn some(k: usize) -> Vec<Item> {
    match k {
        0 => vec![Sub(script())],
        1 => vec![Sub(script()), Sup(script())],
        2 => vec![Sup(script()), Sub(script())],
        3 => vec![Prime, Sub(script())],
        4 => vec![Lim('l'), Sub(script())],
        5 => vec![Lim('n'), Sub(script()), Sup(script())],
        6 => vec![Lim('d'), Sup(script())],
        _ => vec![Sub(script()), Lim('l'), Sup(script())],
    }
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let block = || sx::choose(2) == 1;
    if k < ATOMS.len() {
        let place = if deep { PLACES[sx::choose(PLACES.len())] } else { PLACES[0] };
        let n = 1 + sx::choose(if deep { 3 } else { 4 });
        return check(ATOMS[k], Base::Atom, &items(Base::Atom, n), place, block());
    }
    let mut k = k - ATOMS.len();
    // Every operator.
    for (names, kind) in [(BESIDE, Base::Beside), (LIMITS, Base::Limits), (NAMES_BESIDE, Base::Beside), (NAMES_LIMITS, Base::Limits), (NAMED, Base::Beside)] {
        if k < names.len() {
            let kind = if names[k].contains('*') || names[k].starts_with('s') && names[k].contains('{') { Base::Limits } else { kind };
            let mut b = Buf::of("\\");
            b.s(names[k]);
            if !names[k].contains('{') {
                b.s(" ");
            }
            if deep {
                let n = 1 + sx::choose(3);
                return check(b.as_str(), kind, &items(kind, n), PLACES[[0, 6, 15][sx::choose(3)]], block());
            }
            return check(b.as_str(), kind, &some(sx::choose(8)), PLACES[[0, 6][sx::choose(2)]], block());
        }
        k -= names.len();
    }
    // Everywhere.
    let place = PLACES[k / 5];
    let (base, kind) = [("X", Base::Atom), ("\\int ", Base::Beside), ("\\sum ", Base::Limits), ("\\log ", Base::Beside), ("\\max ", Base::Limits)][k % 5];
    let n = 1 + sx::choose(if deep { 4 } else { 3 });
    check(base, kind, &items(kind, n), place, block());
}
