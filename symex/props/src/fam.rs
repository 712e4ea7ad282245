//! The input families which the whole-pipeline properties quantify over: a fixed context with a symbolic part.
use crate::buf::Buf;
use crate::corpus::CORPUS;
use crate::sx;

/// Contexts for arbitrary ASCII bytes: every place where a piece of input is read by a different reader.
pub const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("x", "y"),
    ("{", "}"),
    ("x^{", "}_y"),
    ("x_", ""),
    ("x'", ""),
    ("\\sqrt{", "}"),
    ("\\sqrt[", "]{x}"),
    ("\\frac{", "}2"),
    ("\\frac", "2"),
    ("\\hat", ""),
    ("\\overbrace", "^x"),
    ("\\left(", "\\right)"),
    ("\\left", "x\\right)"),
    ("\\left(x\\middle", "y\\right)"),
    ("\\left(x\\right", ""),
    ("\\bigl", "x"),
    ("\\mathbf{", "}"),
    ("\\mathrm ", "x"),
    ("{\\bf ", "}x"),
    ("\\text{", "}"),
    ("\\text ", "x"),
    ("\\textbf{a\\'", "}"),
    ("\\text{$", "$}"),
    ("\\begin{matrix}", "\\end{matrix}"),
    ("\\begin{align}a&", "\\end{align}"),
    ("\\begin{cases}a&b\\\\", "\\end{cases}"),
    ("\\begin{multline}a\\\\", "\\end{multline}"),
    ("\\begin{array}{", "}x&y\\end{array}"),
    ("\\begin{subarray}{", "}x\\end{subarray}"),
    ("\\begin{matrix}x\\\\", "\\end{matrix}"),
    ("\\begin{matrix}x\\\\[", "]y\\end{matrix}"),
    ("\\begin{", "}x\\end{matrix}"),
    ("\\color{", "}x"),
    ("\\textcolor{", "}x"),
    ("\\hspace{", "}x"),
    ("\\kern", "x"),
    ("\\mskip1", "x"),
    ("\\raisebox{", "}{x}"),
    ("\\genfrac{", "}{)}{1pt}{1}{a}{b}"),
    ("\\genfrac(){", "}{}{a}{b}"),
    ("\\genfrac(){1pt}{", "}{a}{b}"),
    ("\\operatorname{", "}x"),
    ("\\operatorname*{a", "}_x"),
    ("\\begin{equation}x\\tag{", "}\\end{equation}"),
    ("\\begin{equation}x\\tag*{", "}\\end{equation}"),
    ("\\begin{equation}x\\label{", "}\\end{equation}"),
    ("\\begin{equation}x\\label{a", "}\\tag{2}\\end{equation}\\eqref{a}"),
    ("\\ref{", "}"),
    ("\\eqref{", "}"),
    ("\\newcommand{\\a}[", "]{x}\\a yz"),
    ("\\newcommand{\\a}[1]{", "}\\a y"),
    ("\\newcommand{\\a}", "\\a y"),
    ("\\newcommand", "x"),
    ("\\def\\a", "{x}\\a yz"),
    ("\\def\\a#1{", "}\\a y"),
    ("\\let\\a", "\\a x"),
    ("\\global", "x"),
    ("\\not", ""),
    ("\\mathrel{", "}x"),
    ("\\mathop{", "}\\limits_x"),
    ("\\mathchoice{a}{b}{c}{", "}"),
    ("\\sum\\limits", ""),
    ("\\xrightarrow[", "]{x}"),
    ("\\overset{", "}="),
    ("a\\over", "c"),
    ("\\sideset{_a}{", "}\\sum"),
    ("\\prescript{a}{", "}{x}"),
    ("\\phantom{", "}"),
    ("\\boxed{", "}"),
    ("1", ".5"),
    ("%", "\nx"),
    ("\\", ""),
    ("\\\\", "x"),
    ("\\Set{", "}"),
    ("\\pmod", "x"),
    ("{\\rm a", "}"),
    ("\\mathit{fi", "}"),
    ("\\displaystyle", "x"),
    ("\\hline", "x"),
    ("\\begingroup", "\\endgroup x"),
    ("\\begin", "x"),
    ("x\\end", ""),
    ("\\begin{equation}x\\tag{", "}\\label{a}\\end{equation}\\eqref{a}"),
    ("x\\limits", "y"),
    ("\\mathbb ", "x"),
    ("\\underset", "{x}"),
];

/// What follows a command of arbitrary name.
pub const TAILS: &[&str] = &["{a}{b}{c}{d}", " x", "[1em]{a}{b}", "(x)", "\\limits_a^b", "^a_b", "'1", "", "{}", "{\\alpha}{2}", "\u{e9}", "[\u{3b1}]{}"];
/// What precedes a command of arbitrary name, with what closes it.
pub const HEADS: &[(&str, &str)] = &[
    ("", ""),
    ("a", "b"),
    ("x_", ""),
    ("\\left", "x\\right."),
    ("\\left(x\\middle", "\\right)"),
    ("\\bigl", ""),
    ("\\not", ""),
    ("\\begin{align}", "\\end{align}"),
    ("\\begin{array}{c}", "\\end{array}"),
    ("\\text{", "}"),
    ("\\mathbf{", "}"),
    ("\\mathrel{", "}"),
    ("\\hat", ""),
    ("\\frac", "{z}"),
    ("{\\cal ", "}"),
    ("=", "="),
    ("\\newcommand", "{x}"),
    ("\\let\\z", "\\z"),
];

/// Structural fragments, combined freely.
pub const FRAGS: &[&str] = &[
    "x", "2", " ", "{", "}", "^", "_", "'", "&", "\\\\", "=", "-", "(", "]", "|", ",", "<", "%\n", "\\alpha ",
    "\\sum ", "\\sin ", "\\frac", "\\over ", "\\sqrt", "[", "\\left(", "\\right)", "\\middle|", "\\big/", "\\hat",
    "\\mathbf", "\\rm ", "\\text{a<}", "\\not", "\\limits ", "\\nolimits ", "\\displaystyle ", "\\color{red}", "\\mathop",
    "\\begin{matrix}", "\\end{matrix}", "\\begin{align}", "\\end{align}", "\\tag{1}", "\\label{a}", "\\hspace{1em}",
    "\\overbrace", "\\relax ", "\\hline ", "\\,", "\\to ", "\\underline", "\\phantom", "\\newcommand\\q[1]{#1}", "\\q",
    "\\begingroup ", "\\endgroup ", "\\bmod ", "\\cdots ", "#1", "\u{301}", "\u{1d400}",
];

#[derive(Clone, Copy)]
pub enum Fam {
    /// `CTX[i]` around `n` ASCII bytes, the first of them in slice `part` of `parts`.
    Ctx { i: usize, n: usize, part: usize, parts: usize },
    /// `HEADS[h]`, a command whose name is `n` arbitrary letters, `TAILS[t]`.
    Cmd { h: usize, n: usize, t: usize },
    /// `CTX[i]` around any Unicode scalar value, optionally followed by a variation selector.
    Uni { i: usize, lo: u32, hi: u32 },
    /// `CTX[i]` around `CTX[j]` around one character: ASCII (`uni` false) or from the scripts in `some_char`.
    Nest { i: usize, j: usize, uni: bool },
    /// `CORPUS[i]` with one byte inserted anywhere (`insert`), or one character replaced by a byte.
    Mut { i: usize, insert: bool },
    /// `n` fragments in a row, the first of them fixed.
    Seq { first: usize, n: usize },
}

pub fn make(f: Fam) -> Buf {
    let mut b = Buf::new();
    match f {
        Fam::Ctx { i, n, part, parts } => {
            b.s(CTX[i].0);
            for k in 0..n {
                let c = sx::ascii();
                if k == 0 && parts > 1 {
                    let (lo, hi) = (128 * part / parts, 128 * (part + 1) / parts);
                    sx::assume(((c as usize) >= lo) & ((c as usize) < hi));
                }
                b.b(c);
            }
            b.s(CTX[i].1);
        }
        Fam::Cmd { h, n, t } => {
            b.s(HEADS[h].0).s("\\").letters(n).s(TAILS[t]).s(HEADS[h].1);
        }
        Fam::Uni { i, lo, hi } => {
            let c = sx::any_char();
            sx::assume(((c as u32) >= lo) & ((c as u32) < hi));
            b.s(CTX[i].0).c(c).s(CTX[i].1);
        }
        Fam::Nest { i, j, uni } => {
            b.s(CTX[i].0).s(CTX[j].0);
            if uni {
                b.c(some_char());
            } else {
                b.b(sx::ascii());
            }
            b.s(CTX[j].1).s(CTX[i].1);
        }
        Fam::Mut { i, insert } => {
            let t = CORPUS[i];
            let at = sx::choose(t.len() + insert as usize);
            sx::assume(t.is_char_boundary(at));
            b.s(&t[..at]).b(sx::ascii());
            let mut rest = t[at..].chars();
            if !insert {
                rest.next();
            }
            b.s(rest.as_str());
        }
        Fam::Seq { first, n } => {
            b.s(FRAGS[first]);
            for _ in 1..n {
                b.s(sx::pick(FRAGS));
            }
        }
    }
    sx::show(b.as_str());
    b
}

/// A character of two, three or four bytes: a Latin or Greek letter, a combining mark, a variation selector, a letter of another
/// script, a symbol without an operator's meaning, or an emoji.
pub fn some_char() -> char {
    let c = sx::any_char();
    let w = c as u32;
    let r = |lo: u32, hi: u32| w.wrapping_sub(lo) < hi - lo;
    sx::assume(r(0xc0, 0xd0) | r(0x300, 0x310) | r(0x3b1, 0x3c0) | r(0xfe00, 0xfe10) | r(0x3041, 0x3050) | r(0x1f600, 0x1f610));
    c
}

/// The ranges a Unicode character is split into, so that the parts can be explored in parallel.
pub const UNI: &[(u32, u32)] = &[
    (0x80, 0x2000),
    (0x2000, 0x2200),
    (0x2200, 0x2280),
    (0x2280, 0x2300),
    (0x2300, 0x27c0),
    (0x27c0, 0x2980),
    (0x2980, 0x2a00),
    (0x2a00, 0x2a80),
    (0x2a80, 0x2b00),
    (0x2b00, 0x10000),
    (0x10000, 0x11_0000),
];

const NU: usize = 7;
const UCTX: [usize; NU] = [0, 1, 3, 10, 13, 17, 20];
const LEN: usize = 19;
const PARTS: usize = 8;
/// How many of the formulas of the corpus the quick tier uses.
const MUTQ: usize = 400;

/// How many members the families have which the whole-pipeline properties explore, by family in the order of their job numbers.
/// `depth` 0 is what runs on every change, 1 the thorough tier.
fn sizes(depth: u32) -> [usize; 7] {
    let (c, h, t) = (CTX.len(), HEADS.len(), TAILS.len());
    let cmds = if depth == 0 { t + 2 * (h - 1) } else { t * h };
    [2 * c, cmds * LEN, NU * UNI.len(), FRAGS.len(), 2 * c * c, if depth == 0 { MUTQ } else { 2 * CORPUS.len() }, if depth == 0 { 0 } else { c * PARTS }]
}

pub fn count(depth: u32) -> usize {
    sizes(depth).iter().sum()
}

pub fn nth(depth: u32, k: usize) -> Fam {
    let (mut k, mut which) = (k, 0);
    for (i, n) in sizes(depth).iter().enumerate() {
        which = i;
        if k < *n {
            break;
        }
        k -= *n;
    }
    let c = CTX.len();
    match which {
        0 => Fam::Ctx { i: k / 2, n: 1 + k % 2, part: 0, parts: 1 },
        1 => {
            let (n, m) = (1 + k % LEN, k / LEN);
            let (h, t) = if depth > 0 {
                (m / TAILS.len(), m % TAILS.len())
            } else if m < TAILS.len() {
                (0, m)
            } else {
                let (h, z) = (1 + (m - TAILS.len()) / 2, (m - TAILS.len()) % 2);
                // Every surrounding with the first shape of arguments and with one more.
                (h, if z == 0 { 0 } else { 1 + h % (TAILS.len() - 1) })
            };
            Fam::Cmd { h, n, t }
        }
        2 => Fam::Uni { i: UCTX[k / UNI.len()], lo: UNI[k % UNI.len()].0, hi: UNI[k % UNI.len()].1 },
        3 => Fam::Seq { first: k, n: if depth == 0 { 2 } else { 4 } },
        4 => Fam::Nest { i: k / 2 / c, j: k / 2 % c, uni: k % 2 == 1 },
        5 if depth == 0 => Fam::Mut { i: k, insert: k % 2 == 0 },
        5 => Fam::Mut { i: k / 2, insert: k % 2 == 0 },
        _ => Fam::Ctx { i: k / PARTS, n: 3, part: k % PARTS, parts: PARTS },
    }
}

pub const TIER: u32 = 500_000;

/// The jobs of a property which looks at every family member in `nv` variants (`k = index * nv + variant`); of the nested contexts,
/// which are many, each is looked at in one variant.
pub fn jobs(depth: u32, nv: u32) -> Vec<u32> {
    let mut v = Vec::new();
    for i in 0..count(depth) {
        let f = nth(depth, i);
        for w in 0..nv {
            let one = match f {
                Fam::Nest { i, j, .. } => Some(i + j),
                Fam::Mut { i, .. } => Some(i / 2),
                _ => None,
            };
            if one.is_some_and(|x| x as u32 % nv != w) {
                continue;
            }
            v.push(i as u32 * nv + w + if depth > 0 { TIER } else { 0 });
        }
    }
    v
}
