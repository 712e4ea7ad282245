//! Alphabets: a letter or digit in a font is the mathematical character Unicode has for the two, exactly where the font applies.
use crate::*;
use xml::El;

#[derive(Clone, Copy, PartialEq)]
enum F {
    None,
    Bold,
    Italic,
    Upright,
    Sans,
    Mono,
    Chancery,
    Roundhand,
    Fraktur,
    Double,
    BoldItalic,
}
use F::*;
/// The commands with an argument, then the switches.
const CMDS: &[(&str, F)] = &[
    ("\\mathbf", Bold),
    ("\\mathit", Italic),
    ("\\mathrm", Upright),
    ("\\mathsf", Sans),
    ("\\mathtt", Mono),
    ("\\mathcal", Chancery),
    ("\\mathscr", Roundhand),
    ("\\mathfrak", Fraktur),
    ("\\mathbb", Double),
    ("\\bm", BoldItalic),
    ("\\boldsymbol", BoldItalic),
    ("\\symbf", BoldItalic),
    ("\\Bbb", Double),
    ("\\frak", Fraktur),
];
const SWITCHES: &[(&str, F)] = &[("\\bf", Bold), ("\\it", Italic), ("\\rm", Upright), ("\\sf", Sans), ("\\tt", Mono), ("\\cal", Chancery)];

/// Letters written as commands, and whether they are upright by themselves.
const GREEK: &[(&str, u32, bool)] = &[
    ("alpha", 0x3b1, false), ("beta", 0x3b2, false), ("gamma", 0x3b3, false), ("delta", 0x3b4, false), ("varepsilon", 0x3b5, false), ("zeta", 0x3b6, false),
    ("eta", 0x3b7, false), ("theta", 0x3b8, false), ("iota", 0x3b9, false), ("kappa", 0x3ba, false), ("lambda", 0x3bb, false), ("mu", 0x3bc, false),
    ("nu", 0x3bd, false), ("xi", 0x3be, false), ("pi", 0x3c0, false), ("rho", 0x3c1, false), ("varsigma", 0x3c2, false), ("sigma", 0x3c3, false),
    ("tau", 0x3c4, false), ("upsilon", 0x3c5, false), ("varphi", 0x3c6, false), ("chi", 0x3c7, false), ("psi", 0x3c8, false), ("omega", 0x3c9, false),
    ("epsilon", 0x3f5, false), ("vartheta", 0x3d1, false), ("varkappa", 0x3f0, false), ("phi", 0x3d5, false), ("varrho", 0x3f1, false), ("varpi", 0x3d6, false),
    ("Gamma", 0x393, true), ("Delta", 0x394, true), ("Theta", 0x398, true), ("Lambda", 0x39b, true), ("Xi", 0x39e, true), ("Pi", 0x3a0, true),
    ("Sigma", 0x3a3, true), ("Upsilon", 0x3a5, true), ("Phi", 0x3a6, true), ("Psi", 0x3a8, true), ("Omega", 0x3a9, true),
    ("varGamma", 0x393, false), ("varDelta", 0x394, false), ("varTheta", 0x398, false), ("varLambda", 0x39b, false), ("varXi", 0x39e, false), ("varPi", 0x3a0, false),
    ("varSigma", 0x3a3, false), ("varUpsilon", 0x3a5, false), ("varPhi", 0x3a6, false), ("varPsi", 0x3a8, false), ("varOmega", 0x3a9, false),
    ("partial", 0x2202, false), ("nabla", 0x2207, true), ("imath", 0x131, false), ("jmath", 0x237, false), ("digamma", 0x3dd, false),
];

/// The mathematical alphanumeric symbol by the blocks of the Unicode Standard; None where there is none.
fn symbol(f: F, c: u32) -> Option<u32> {
    // Where the capital and small letters, Greek and digits of the alphabet begin; 0: it has none.
    let (upper, lower, greek, digits): (u32, u32, u32, u32) = match f {
        Bold => (0x1d400, 0x1d41a, 0x1d6a8, 0x1d7ce),
        Italic => (0x1d434, 0x1d44e, 0x1d6e2, 0),
        BoldItalic => (0x1d468, 0x1d482, 0x1d71c, 0),
        Chancery | Roundhand => (0x1d49c, 0x1d4b6, 0, 0),
        Fraktur => (0x1d504, 0x1d51e, 0, 0),
        Double => (0x1d538, 0x1d552, 0, 0x1d7d8),
        Sans => (0x1d5a0, 0x1d5ba, 0, 0x1d7e2),
        Mono => (0x1d670, 0x1d68a, 0, 0x1d7f6),
        None | Upright => return Option::None,
    };
    // Those which Unicode had before the block.
    let old = match (f, c) {
        (Italic, 0x68) => 0x210e,
        (Italic, 0x131) => 0x1d6a4,
        (Italic, 0x237) => 0x1d6a5,
        (Chancery | Roundhand, 0x42) => 0x212c,
        (Chancery | Roundhand, 0x45) => 0x2130,
        (Chancery | Roundhand, 0x46) => 0x2131,
        (Chancery | Roundhand, 0x48) => 0x210b,
        (Chancery | Roundhand, 0x49) => 0x2110,
        (Chancery | Roundhand, 0x4c) => 0x2112,
        (Chancery | Roundhand, 0x4d) => 0x2133,
        (Chancery | Roundhand, 0x52) => 0x211b,
        (Chancery | Roundhand, 0x65) => 0x212f,
        (Chancery | Roundhand, 0x67) => 0x210a,
        (Chancery | Roundhand, 0x6f) => 0x2134,
        (Fraktur, 0x43) => 0x212d,
        (Fraktur, 0x48) => 0x210c,
        (Fraktur, 0x49) => 0x2111,
        (Fraktur, 0x52) => 0x211c,
        (Fraktur, 0x5a) => 0x2128,
        (Double, 0x43) => 0x2102,
        (Double, 0x48) => 0x210d,
        (Double, 0x4e) => 0x2115,
        (Double, 0x50) => 0x2119,
        (Double, 0x51) => 0x211a,
        (Double, 0x52) => 0x211d,
        (Double, 0x5a) => 0x2124,
        (Double, 0x3c0) => 0x213c,
        (Double, 0x3b3) => 0x213d,
        (Double, 0x393) => 0x213e,
        (Double, 0x3a0) => 0x213f,
        (Bold, 0x3dd) => 0x1d7cb,
        _ => 0,
    };
    if old != 0 {
        return Some(old);
    }
    match c {
        0x41..=0x5a => Some(upper + (c - 0x41)),
        0x61..=0x7a => Some(lower + (c - 0x61)),
        0x30..=0x39 if digits != 0 => Some(digits + (c - 0x30)),
        _ if greek == 0 => Option::None,
        0x391..=0x3a1 | 0x3a3..=0x3a9 => Some(greek + (c - 0x391)),
        0x2207 => Some(greek + 25),
        0x3b1..=0x3c9 => Some(greek + 26 + (c - 0x3b1)),
        0x2202 => Some(greek + 51),
        0x3f5 => Some(greek + 52),
        0x3d1 => Some(greek + 53),
        0x3f0 => Some(greek + 54),
        0x3d5 => Some(greek + 55),
        0x3f1 => Some(greek + 56),
        0x3d6 => Some(greek + 57),
        _ => Option::None,
    }
}

/// What is to be seen: characters, each with whether it has to be in the slanted or the upright default face (0: as it
/// is, 1: slanted, 2: upright, 3: not said), and its variation selector.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Seen(u32, u8, u32);

fn want(f: F, c: u32, upright: bool) -> Seen {
    let latin = (c | 32).wrapping_sub(0x61) < 26;
    let digit = c.wrapping_sub(0x30) < 10;
    match f {
        None => Seen(c, if digit || upright { 2 } else { 1 }, 0),
        Upright => Seen(c, 2, 0),
        _ => match symbol(if upright && f == BoldItalic { Bold } else { f }, c) {
            Some(s) => Seen(
                s,
                0,
                match f {
                    Chancery if latin => 0xfe00,
                    Roundhand if latin => 0xfe01,
                    _ => 0,
                },
            ),
            // Letters an alphabet lacks are left as they are.
            Option::None => Seen(c, 3, 0),
        },
    }
}

fn seen(e: &El, out: &mut Vec<Seen>) {
    for k in e.els() {
        seen(k, out);
    }
    if !matches!(e.tag, "mi" | "mn") {
        return;
    }
    let t = e.text();
    let cs: Vec<char> = t.chars().collect();
    let alone = cs.iter().filter(|c| !matches!(**c as u32, 0xfe00 | 0xfe01)).count() == 1;
    let slanted = e.tag == "mi" && alone && e.attr("mathvariant").is_none();
    for c in cs {
        let c = c as u32;
        if c == 0xfe00 || c == 0xfe01 {
            if let Some(l) = out.last_mut() {
                l.2 = c;
            }
            continue;
        }
        // Digits and symbols have no slanted default face; nor have the letters of other alphabets.
        let letter = (c | 32).wrapping_sub(0x61) < 26 || (0x391..=0x3f5).contains(&c) || matches!(c, 0x131 | 0x237 | 0x2202);
        out.push(Seen(c, if slanted && letter { 1 } else { 2 }, 0));
    }
}

/// The shapes: text to be taken as it is, apart from
/// `%a`, `%b` the command of a font, whose argument follows in braces; `%A` the same followed by a character alone;
/// `%s`, `%t` the switch to a font, up to the end of the group or cell; `%c` a character;
/// `%l` and `%m` a pair of stretched parentheses; `%e` and `%f` the beginning and the end of a table, `%r` the end of a row.
const SHAPES: &[&str] = &[
    "%a{%c}", "%a{%c}%c", "%c%a{%c%c}%c", "%a{%c%c%c}", "{%s%c%c}%c", "%s%c%c", "%s%c{%t%c}%c", "%a{%c%b{%c}%c}%c", "%a{%c{%t%c}%c}%c", "{%s%c{%t%c}%c}%c",
    "{%s%c%b{%c}%c}%c", "%A", "%A%c", "%c%A%c%A", "%a{%A%c}%c", "%a{\\frac{%c}{%c}%c}%c", "%a{%c_{%c}^{%c}}%c", "%a{%c}_{%c}^{%c}", "%c_{%a{%c}%c}^%c", "{%s%c\\sqrt{%c}%c}%c",
    "\\sqrt{%a{%c}%c}%c", "{%s%c\\over %c}%c", "%l%s%c%m%c", "\\sqrt{%s%c}%c", "\\frac{%s%c}{%c}%c", "%e%s%c&%c%r%c%f%c", "%e%c%r%s%c&%c%r%c%f%c", "%s%c%e%c&%c%r%c%f%c",
    "%a{%c%e%c&%t%c%r%c%f%c}%c", "%e%a{%c}%c&%c%f%c", "%e{%s%c}%c&%c%r%c%f%c", "%e%e%s%c&%c%f%c%r%c%f%c", "%c%s%c%t%c", "%a{%c%t%c}%c", "{%s%c%t%c}%c", "%a{%q{%c}%c}%c", "%s%c%q{%c}%c",
    "%q{%a{%c}}%c", "%c^{%a{%c}%c}%c", "\\text{a}%a{%c\\text{a}%c}%c", "\\hat{%a{%c}}%c", "\\hat{%s%c}%c", "\\binom{%a{%c}}{%c}%c", "%a{%c%l%c%m%c}%c", "%a{%c %c}%c", "\\overline{%s%c}%c",
    "%a{(%c)}%c", "\\operatorname{ab}%a{%c\\operatorname{ab}%c}%c", "%a{%c{%c}%c}%c", "%a{%a{%c}%c}", "%a{%b{%c}}", "%a{\\vec{%c}%c}", "%a{\\sum_{%c}%c}%c", "%a{%c+%c}+%c",
    "\\begingroup %s%c\\endgroup %c", "\\bigl(%s%c\\bigr)%c", "\\sqrt{\\sqrt{%s%c}%c}%c", "{\\displaystyle %s%c}%c", "%s%c\\displaystyle %c", "{\\color{red}%s%c}%c", "%s\\color{red}%c", "\\phantom{%s%c}%c",
    "\\boxed{%s%c}%c", "\\underbrace{%s%c}_{%c}%c", "%c_%A%c", "\\mathop{%s%c}%c", "%a{\\mathrel{%c}%c}%c", "{{%s%c}%c}%c", "%a{}%c", "{%s}%c", "%a{%c'}%c",
    "\\xrightarrow[%c%a{%c}%c]{%c}%c", "%a{\\xrightarrow[%b{%c}%c]{%c}%c}%c", "\\xrightarrow[%s%c%a{%c}%c]{%c}%c", "\\xrightarrow[{%s%c}%c]{%s%c}%c", "%s%c\\xleftarrow[%c%t%c]{%c}%c",
];

const NC: usize = CMDS.len();
const NS: usize = SWITCHES.len();

// Jobs: a shape with a font; then the letters written as commands in every font.
pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(SHAPES.len() * NC + GREEK.len()) as u32).map(|k| k + t).collect()
}

struct G {
    tex: Buf,
    want: Vec<Seen>,
}
impl G {
    /// A letter or a digit, or a Greek letter as such.
    fn ch(&mut self, f: F, all: bool) {
        if !all {
            // Without the exceptions of the alphabets.
            let c = sx::byte();
            sx::assume((c.wrapping_sub(b'p') < 8) | (c.wrapping_sub(b'0') < 10));
            self.tex.b(c);
            self.want.push(want(f, c as u32, false));
            return;
        }
        if sx::choose(2) == 1 {
            let w = sx::word();
            sx::assume((w >= 0x3b1) & (w <= 0x3c9));
            self.tex.c(char::from_u32(w).unwrap_or('a'));
            self.want.push(want(f, w, false));
            return;
        }
        let c = sx::byte();
        sx::assume(((c | 32).wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'0') < 10));
        self.tex.b(c);
        self.want.push(want(f, c as u32, false));
    }
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let mut g = G { tex: Buf::new(), want: Vec::new() };
    if k < SHAPES.len() * NC {
        let i = k % NC;
        let shape = SHAPES[k / NC].as_bytes();
        let pairs = SHAPES[k / NC];
        let a = CMDS[i];
        let sa = SWITCHES[i % NS];
        let b = if !pairs.contains("%b") { CMDS[0] } else if deep { CMDS[sx::choose(NC)] } else { CMDS[(i + [1, 5, 9][sx::choose(3)]) % NC] };
        let sb = if !pairs.contains("%t") { SWITCHES[0] } else if deep { SWITCHES[sx::choose(NS)] } else { SWITCHES[(i + 1 + 2 * sx::choose(2)) % NS] };
        if pairs.contains("%q") {
            g.tex.s("\\newcommand\\q[1]{#1}");
        }
        // The whole alphabets where there are few characters.
        let all = pairs.len() < if deep { 13 } else { 9 };
        let mut stack = vec![None];
        let mut j = 0;
        while j < shape.len() {
            let c = shape[j];
            let f = *stack.last().unwrap_or(&None);
            let mut set = |f: F| {
                if let Some(l) = stack.last_mut() {
                    *l = f;
                }
            };
            j += 1;
            match c {
                b'%' => {
                    j += 1;
                    match shape[j - 1] {
                        b'a' | b'b' => {
                            let x = if shape[j - 1] == b'a' { a } else { b };
                            g.tex.s(x.0).s("{");
                            stack.push(x.1);
                            j += 1;
                        }
                        b'A' => {
                            g.tex.s(a.0).s(" ");
                            g.ch(a.1, all);
                        }
                        b's' => {
                            g.tex.s(sa.0).s(" ");
                            set(sa.1);
                        }
                        b't' => {
                            g.tex.s(sb.0).s(" ");
                            set(sb.1);
                        }
                        b'c' => g.ch(f, all),
                        b'l' => {
                            g.tex.s("\\left(");
                            stack.push(f);
                        }
                        b'm' => {
                            g.tex.s("\\right)");
                            stack.pop();
                        }
                        b'e' => {
                            g.tex.s("\\begin{matrix}");
                            stack.push(f);
                        }
                        b'f' => {
                            g.tex.s("\\end{matrix}");
                            stack.pop();
                        }
                        b'r' => {
                            g.tex.s("\\\\");
                            let n = stack.len();
                            stack[n - 1] = stack[n - 2];
                        }
                        _ => {
                            g.tex.s("\\q");
                        }
                    }
                }
                b'&' => {
                    g.tex.s("&");
                    let n = stack.len();
                    stack[n - 1] = stack[n - 2];
                }
                b'{' | b'[' => {
                    g.tex.b(c);
                    stack.push(f);
                }
                b'}' | b']' => {
                    g.tex.b(c);
                    stack.pop();
                }
                _ => {
                    if shape[j - 1..].starts_with(b"\\begingroup") || shape[j - 1..].starts_with(b"\\bigl(") && false {
                        stack.push(f);
                    }
                    if shape[j - 1..].starts_with(b"\\endgroup") {
                        stack.pop();
                    }
                    if shape[j - 1..].starts_with(b"\\\\") {
                        // The end of a row of \substack.
                        let n = stack.len();
                        stack[n - 1] = stack[n - 2];
                    }
                    g.tex.b(c);
                    if c == b'\\' {
                        g.tex.b(shape[j]);
                        j += 1;
                    }
                }
            }
        }
    } else {
        let (name, c, upright) = GREEK[k - SHAPES.len() * NC];
        let f = sx::choose(NC + 1);
        let (cmd, f) = if f == NC { ("", None) } else { CMDS[f] };
        g.tex.s(cmd).s("{\\").s(name).s(" ");
        g.want.push(want(f, c, upright));
        if sx::choose(2) == 1 {
            g.ch(f, false);
        }
        g.tex.s("}");
    }
    sx::show(g.tex.as_str());
    let c = std();
    let out = match conv(&c, g.tex.as_str(), false) {
        Ok(o) => o,
        Err(_) => return sx::fail("letters in a font are rejected"),
    };
    sx::note(&out);
    let root = match xml::parse(&out) {
        Ok(r) => r,
        Err(_) => return sx::fail("the result is not well-formed"),
    };
    let mut got = Vec::new();
    seen(&root, &mut got);
    if got.len() != g.want.len() {
        return sx::fail("letters are lost or added");
    }
    let mut capital_i = false;
    for (g, w) in got.iter().zip(&g.want) {
        if w.0 == 0x2111 && g.0 == 0x210d {
            // A known finding, kept apart so that everything else is still seen.
            capital_i = true;
        } else if g.0 != w.0 {
            return sx::fail("a letter is not the character of its font");
        }
        if w.1 == 1 && g.1 != 1 {
            return sx::fail("a letter in no font is not in the default face");
        }
        if w.1 == 2 && g.1 != 2 {
            return sx::fail("an upright letter or digit is slanted");
        }
        if g.2 != w.2 {
            return sx::fail("a script letter has not the variation selector of its style");
        }
    }
    if capital_i {
        return sx::fail("the capital I of Fraktur is a double-struck H");
    }
    sx::cover(1);
    if g.want.len() > 2 {
        sx::cover(2);
    }
}
