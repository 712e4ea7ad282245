//! Styles: each part is in the style (display, text, script or scriptscript) which TeX gives it.
use crate::*;
use xml::El;

/// A construct with a place for something; the style of the place: `=` as around, `^` that of a script, `/` that of a numerator, or one of its own.
const TABLE: &[(&str, char)] = &[
    ("@", '='),
    ("{@}", '='),
    ("\\sqrt{@}", '='),
    ("\\sqrt[{@}]x", 'Q'),
    ("\\sqrt[x]{@}", '='),
    ("\\frac{@}x", '/'),
    ("\\frac x{@}", '/'),
    ("\\dfrac{@}x", 'T'),
    ("\\dfrac x{@}", 'T'),
    ("\\tfrac{@}x", 'S'),
    ("\\tfrac x{@}", 'S'),
    ("\\cfrac{@}x", 'T'),
    ("\\cfrac x{@}", 'T'),
    ("\\binom{@}x", '/'),
    ("\\binom x{@}", '/'),
    ("\\dbinom{@}x", 'T'),
    ("\\tbinom x{@}", 'S'),
    ("\\genfrac(]{1pt}{}{@}x", '/'),
    ("\\genfrac{}{}{0pt}{0}x{@}", 'T'),
    ("\\genfrac(){}1{@}x", 'S'),
    ("\\genfrac{}{}{}{2}{@}x", 'Q'),
    ("\\genfrac{}{}{}{3}x{@}", 'Q'),
    ("{@\\over x}", '/'),
    ("{x\\over @}", '/'),
    ("{x\\choose @}", '/'),
    ("{@\\atop x}", '/'),
    ("{x\\brack @}", '/'),
    ("{\\displaystyle @\\over x}", 'D'),
    ("{x\\over\\textstyle @}", 'T'),
    ("x^{@}", '^'),
    ("x_{@}", '^'),
    ("x_y^{@}", '^'),
    ("x_{@}^y", '^'),
    ("x'_{@}", '^'),
    ("\\sum_{@}", '^'),
    ("\\sum_x^{@}", '^'),
    ("\\lim_{@}", '^'),
    ("\\int\\limits^{@}", '^'),
    ("\\prod\\nolimits_{@}", '^'),
    ("\\operatorname*{x}_{@}", '^'),
    ("\\mathop{@}", '='),
    ("\\mathop{@}_x", '='),
    ("{@}_x^y", '='),
    ("\\overset{@}x", '^'),
    ("\\overset x{@}", '='),
    ("\\underset{@}x", '^'),
    ("\\underset x{@}", '='),
    ("\\stackrel{@}{=}", '^'),
    ("\\xrightarrow{@}", '^'),
    ("\\xleftarrow[{@}]{x}", '^'),
    ("\\xrightarrow[x]{@}", '^'),
    ("\\overbrace{@}", 'B'),
    ("\\underbrace{@}_x", 'B'),
    ("\\underbrace x_{@}", '^'),
    ("\\overbrace x^{@}", '^'),
    ("\\overline{@}", '='),
    ("\\underline{@}", '='),
    ("\\overrightarrow{@}", '='),
    ("\\hat{@}", '='),
    ("\\vec{@}_x", '='),
    ("\\left(@\\right)", '='),
    ("\\left(x\\middle|@\\right)_x", '='),
    ("\\mathrel{@}", '='),
    ("\\mathord{@}", '='),
    ("\\phantom{@}", '='),
    ("\\vphantom{@}", '='),
    ("\\cancel{@}", '='),
    ("\\boxed{@}", 'B'),
    ("\\textcolor{red}{@}", '='),
    ("\\color{red}@", '='),
    ("\\cramped{@}", '='),
    ("\\pmod{@}", '='),
    ("\\bmod @", '='),
    ("\\bra{@}", '='),
    ("\\Set{@}", '='),
    ("\\displaystyle @", 'D'),
    ("\\textstyle @", 'T'),
    ("{\\scriptstyle @}", 'S'),
    ("{\\scriptscriptstyle x@}", 'Q'),
    ("\\scriptstyle\\displaystyle @", 'D'),
    ("{\\displaystyle x}@", '='),
    ("{\\scriptstyle x}^{@}", '^'),
    ("\\mathrel{\\scriptstyle x}@", '='),
    ("\\sqrt{\\displaystyle x}@", '='),
    ("\\left(\\textstyle x\\right)@", '='),
    ("\\frac xy@", '='),
    ("x^y@", '='),
    ("\\dfrac xy@", '='),
    ("\\sideset{_{@}}{}\\sum", '^'),
    ("\\sideset{}{^{@}_x}\\prod", '^'),
    ("\\prescript{@}xy", '^'),
    ("\\prescript{x}{@}y", '^'),
    ("\\prescript{x}y{@}", '='),
    ("\\mathchoice{@}{@}{@}{@}", '='),
    ("\\Zf{@}", '='),
    ("\\Zg{@}", '^'),
    ("\\Zh{@}", '/'),
    ("\\begin{matrix}@\\end{matrix}", 'T'),
    ("\\begin{matrix}x&@\\\\x\\end{matrix}_x", 'T'),
    ("\\begin{matrix}\\displaystyle x&@\\\\x\\end{matrix}", 'T'),
    ("\\begin{matrix}\\scriptstyle x\\\\x&@\\end{matrix}", 'T'),
    ("\\begin{pmatrix}x\\\\@\\end{pmatrix}", 'T'),
    ("\\begin{array}{rl}x&@\\end{array}", 'T'),
    ("\\begin{cases}@&x\\end{cases}", 'T'),
    ("\\begin{rcases}x\\\\x&@\\end{rcases}", 'T'),
    ("\\begin{dcases}x&@\\end{dcases}", 'D'),
    ("\\begin{aligned}x&@\\end{aligned}", 'D'),
    ("\\begin{gathered}x\\\\@\\end{gathered}", 'D'),
    ("\\begin{subarray}{l}x\\\\@\\end{subarray}", 'S'),
    ("\\begin{matrix}x\\end{matrix}@", '='),
    ("\\begin{aligned}x\\end{aligned}@", '='),
    ("\\begin{subarray}cx\\end{subarray}@", '='),
    ("\\begin{matrix}x\\over y&@\\end{matrix}", 'T'),
    ("\\begin{matrix}x\\over y\\\\@\\end{matrix}", 'T'),
    ("\\begin{aligned}x\\over y&@\\end{aligned}", 'D'),
    ("\\begin{dcases}x\\over y&x\\\\@\\end{dcases}", 'D'),
    ("{x\\over y}@", '='),
    ("\\left(x\\over y\\right)@", '='),
    ("\\sqrt[x]{y}@", '='),
    ("\\tfrac xy@", '='),
    ("\\tbinom xy@", '='),
    ("\\genfrac{}{}{}{0}xy@", '='),
    ("\\overset xy@", '='),
    ("\\underset xy@", '='),
    ("\\underbrace x_y@", '='),
    ("\\xrightarrow[x]y@", '='),
    ("\\sum_x^y@", '='),
    ("\\lim_x@", '='),
    ("\\prescript xyz@", '='),
    ("\\sideset{_x}{}\\sum @", '='),
    ("\\operatorname{x}_y@", '='),
    ("\\begin{array}{c}\\textstyle x\\\\@\\end{array}", 'T'),
    ("\\begin{array}{c|c}\\scriptstyle x&@\\end{array}", 'T'),
    ("x'@", '='),
    ("\\sqrt[\\scriptstyle x]{@}", '='),
    ("\\frac{\\displaystyle x}{@}", '/'),
    ("x'^{@}", '^'),
    ("x''^{@}_y", '^'),
    ("x_y'^{@}", '^'),
    ("x'^{y}_{@}", '^'),
    ("\\sum'^{@}", '^'),
    ("\\operatorname{x}'^{@}", '^'),
    ("\\sum\\limits'^{@}_x", '^'),
    ("x_{\\displaystyle y}^{@}", '^'),
    ("\\mathop{\\scriptstyle x}@", '='),
    ("\\mathchoice xxxx@", '='),
    ("\\begin{cases}\\displaystyle x&@\\end{cases}", 'T'),
    ("\\xrightarrow{\\displaystyle x}@", '='),
    ("\\hat{\\scriptstyle x}@", '='),
    ("\\begin{matrix}\\displaystyle x\\over y&@\\end{matrix}", 'T'),
];
/// Environments which are formulas of their own.
const OUTER: &[&str] = &[
    "\\begin{equation}@\\end{equation}", "\\begin{equation*}@\\end{equation*}", "\\begin{align}x&@\\end{align}", "\\begin{align*}x\\\\@\\end{align*}", "\\begin{gather}@\\\\x\\end{gather}", "\\begin{multline}x\\\\@\\end{multline}",
];
/// The constructs around two others.
const FEW: &[usize] = &[3, 5, 7, 10, 29, 35, 76, 78, 99, 106, 108];
const N: usize = TABLE.len();

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(N + FEW.len() + OUTER.len()) as u32).map(|k| k + t).collect()
}

/// 0: display, 1: text, 2: script, 3: scriptscript.
fn inside(kind: char, s: usize) -> usize {
    match kind {
        '^' => if s < 2 { 2 } else { 3 },
        '/' => (s + 1).min(3),
        'D' | 'B' => 0,
        'T' => 1,
        'S' => 2,
        'Q' => 3,
        _ => s,
    }
}

/// What a browser makes of it: whether it is displayed, and how deep.
fn found(e: &El, parent: Option<(&El, usize)>, mut display: bool, mut depth: i32, letter: u8, out: &mut Vec<usize>) {
    if e.tag == "annotation" {
        return;
    }
    if let Some((p, i)) = parent {
        match p.tag {
            "mfrac" => {
                depth += if display { 0 } else { 1 };
                display = false;
            }
            "mroot" if i > 0 => {
                depth += 2;
                display = false;
            }
            "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" if i > 0 => {
                depth += 1;
                display = false;
            }
            _ => {}
        }
    }
    match e.tag {
        "math" => display = e.attr("display") == Some("block"),
        "mtable" => display = false,
        _ => {}
    }
    match e.attr("displaystyle") {
        Some("true") => display = true,
        Some("false") => display = false,
        Some(_) => return sx::fail("displaystyle is neither true nor false"),
        None => {}
    }
    if let Some(l) = e.attr("scriptlevel") {
        match l.as_bytes() {
            [c @ b'0'..=b'9'] => depth = (*c - b'0') as i32,
            [b'+', c @ b'0'..=b'9'] => depth += (*c - b'0') as i32,
            _ => return sx::fail("a level of scripts is no number"),
        }
    }
    if e.tag == "mi" && e.text().as_bytes() == [letter] {
        out.push(match depth {
            0 => if display { 0 } else { 1 },
            1 => 2,
            _ => 3,
        });
        // In a script nothing is displayed which does not say so.
        sx::check(depth == 0 || !display, "something is displayed in the size of a script");
    }
    for (i, k) in e.els().enumerate() {
        found(k, Some((e, i)), display, depth, letter, out);
    }
}

const LATE: &str = "\\mathchoice does not know that it is in a numerator before \\over, or in a \\genfrac";
const BOXED: &str = "what is in a box, or over or under a brace, is not displayed";

fn examine(parts: &[(&str, char)], block: bool, start: usize) {
    // Four letters of which one is shown, and another one.
    let (l, c) = (sx::byte(), sx::byte());
    sx::assume((l >= b'A') & (l <= b'W') & (c >= b'A') & (c <= b'T') & ((l < c) | (l > c + 3)));
    let mut s = Buf::new();
    s.s("@");
    let mut style = start;
    let (mut boxed, mut late, mut after) = (false, false, false);
    for (text, kind) in parts {
        let mut n = Buf::new();
        for b in &s.0 {
            if *b == b'@' {
                n.s(text);
            } else {
                n.b(*b);
            }
        }
        s = n;
        style = inside(*kind, style);
        boxed |= *kind == 'B';
        after |= late;
        late = (late || text.starts_with("\\genfrac") || text.starts_with("{@\\")) && !matches!(kind, 'D' | 'T' | 'S' | 'Q') || text.starts_with("\\genfrac");
    }
    let mut n = Buf::new();
    if s.as_str().contains("\\Z") {
        n.s("\\newcommand\\Zf[1]{#1}\\newcommand\\Zg[1]{x^{#1}}\\def\\Zh#1{\\frac{#1}x}");
    }
    let mut first = true;
    for b in &s.0 {
        if *b == b'@' {
            if first {
                n.b(l);
            }
            n.s("\\mathchoice ").b(c).b(c + 1).b(c + 2).b(c + 3);
            if !first {
                n.b(l);
            }
            first = false;
        } else {
            n.b(*b);
        }
    }
    sx::show(n.as_str());
    let cv = std();
    let Ok(o) = conv(&cv, n.as_str(), block) else { return sx::fail("a formula is refused") };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    let mut at = Vec::new();
    found(&root, None, false, 0, l, &mut at);
    sx::check(at.len() == 1, "a letter is shown more or less often than once");
    let m = if boxed { BOXED } else if after { LATE } else { "a letter is not in the style which TeX gives it" };
    sx::check(at == [style], m);
    let m = if boxed { BOXED } else if late { LATE } else { "\\mathchoice does not choose what is for the style it is in" };
    for i in 0..4 {
        let mut at = Vec::new();
        found(&root, None, false, 0, c + i as u8, &mut at);
        sx::check(at.len() == if i == style { 1 } else { 0 }, m);
        if i == style {
            sx::check(at == [style], if boxed { BOXED } else if after { LATE } else { "a letter is not in the style which TeX gives it" });
        }
    }
    sx::cover(1);
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let any = || TABLE[sx::choose(N)];
    if k < N {
        let block = sx::choose(2) == 1;
        let start = if block { 0 } else { 1 };
        if deep {
            return examine(&[TABLE[k], TABLE[FEW[sx::choose(FEW.len())]], any()], block, start);
        }
        return examine(&[TABLE[k], any()], block, start);
    }
    let k = k - N;
    if k < FEW.len() {
        let block = sx::choose(2) == 1;
        return examine(&[TABLE[FEW[k]], TABLE[FEW[sx::choose(FEW.len())]], any()], block, if block { 0 } else { 1 });
    }
    let k = k - FEW.len();
    let inner = if deep { [any(), any()] } else { [TABLE[0], any()] };
    examine(&[(OUTER[k], 'D'), inner[0], inner[1]], sx::choose(2) == 1, 0);
    sx::cover(2);
}
