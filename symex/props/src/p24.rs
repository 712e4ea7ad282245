//! Mistakes: what is wrong is refused, and the error's range is exactly what is wrong, wherever it stands.
use crate::*;

/// A mistake, with the part which is wrong between `<` and `>`; part of the message; where it would be none: `b` in braces, `t` in tables, `f` in fences, `m` in arguments of macros, `o` beside infix fractions,
/// `e` in environments, `i` in formulas with definitions, `x` anywhere but directly in the formula, `[` in brackets, `_` as an argument of one token, `g` in groups of numbered environments.
const MISTAKES: &[(&str, &str, &str)] = &[
    ("@<}>@", "Unmatched closing token", "bm"),
    ("@<\\end{matrix}>@", "Unmatched closing token", "te"),
    ("@<\\end{align}>", "Unmatched closing token", "te"),
    ("@<\\right>)@", "Unmatched closing token", "f"),
    ("<\\right>.", "Unmatched closing token", "f"),
    ("<\\endgroup>@", "Unmatched closing token", "b"),
    ("\\left(@<}>@\\right)", "Unmatched closing token", "bm"),
    ("\\left(@<\\end{matrix}>\\right)", "Unmatched closing token", "te"),
    ("\\begin{matrix}@<\\right>)\\end{matrix}", "Unmatched closing token", "f"),
    ("\\begin{matrix}@&@<}>\\end{matrix}", "Unmatched closing token", "bm"),
    ("\\begin{matrix}@<\\end{pmatrix}>", "Expected \"\\end{matrix}\", but found \"\\end{pmatrix}\"", ""),
    ("\\begin{align*}@<\\end{align}>", "Expected \"\\end{align*}\", but found \"\\end{align}\"", ""),
    ("\\sqrt[@<}>]@", "Unmatched closing token", "bm"),
    ("\\frac@<\\right>)", "Expected argument but got closing token", "f"),
    ("{@\\sqrt<}>", "Expected argument but got closing token", ""),
    ("@^<\\end{matrix}>", "Expected argument but got closing token", "te"),
    ("\\left(@_<\\right>)", "Expected argument but got closing token", ""),
    ("\\overset@<\\right>)", "closing token", "f"),
    ("{\\hat<}>@", "Expected argument but got closing token", ""),
    ("\\left <x>@\\right)", "There must be a parenthesis after \"\\left\"", ""),
    ("\\left(@\\right<+>", "There must be a parenthesis after \"\\right\"", ""),
    ("\\left(@\\right<\\alpha>@", "There must be a parenthesis after \"\\right\"", ""),
    ("\\left(@\\middle<1>\\right)", "There must be a parenthesis after \"\\middle\"", ""),
    ("@\\Bigl <x>", "There must be a parenthesis after", ""),
    ("\\genfrac{<x>}{}{}{}@@", "There must be a parenthesis after \"\\genfrac\"", ""),
    ("\\genfrac{}<+>{}{}@@", "There must be a parenthesis after \"\\genfrac\"", ""),
    ("@_1<_>2", "Duplicate subscript or superscript", ""),
    ("@^1_@<^>2", "Duplicate subscript or superscript", ""),
    ("\\sum_@<_>2", "Duplicate subscript or superscript", ""),
    ("@'^@<'>@", "Duplicate subscript or superscript", ""),
    ("\\lim_{@}^@<_>@", "Duplicate subscript or superscript", ""),
    ("\\left(@\\right)_@<_>@", "Duplicate subscript or superscript", ""),
    ("@^<_>@", "directly followed by", ""),
    ("\\int_<^>@", "directly followed by", ""),
    ("@_<'>", "directly followed by", ""),
    ("@<\\limits>@", "Found \"\\limits\"", ""),
    ("{\\sum}<\\nolimits>@", "Found \"\\nolimits\"", ""),
    ("@<\\displaylimits>", "Found \"\\displaylimits\"", ""),
    ("\\sum_<\\limits>@", "Found \"\\limits\"", ""),
    ("\\frac@<\\limits>", "Found \"\\limits\"", ""),
    ("@<&>@", "Found \"&\"", "t"),
    ("{@<&>@}", "Found \"&\"", "t"),
    ("@<\\hline>@", "Found \"\\hline\"", ""),
    ("\\begin{array}{c}@<\\hline>\\end{array}", "Found \"\\hline\"", ""),
    ("\\begin{array}{cc}@&<\\hline>@\\end{array}", "Found \"\\hline\"", ""),
    ("\\begin{array}{c}@\\\\\\hline @\\\\@<\\hdashline>\\end{array}", "Found \"\\hdashline\"", ""),
    ("\\begin{array}<{cxc}>@\\end{array}", "Expected column specification, found \"cxc\"", ""),
    ("\\begin{subarray}<{x}>@\\end{subarray}", "Expected column specification, found \"x\"", ""),
    ("\\begin<{matrx}>@\\end{matrx}", "Unknown environment \"matrx\"", ""),
    ("@<\\tag>{1}", "Found \"\\tag\"", "g"),
    ("@<\\label>{@}", "Found \"\\label\"", "g"),
    ("{@\\over@<\\over>@}", "more than one infix fraction", ""),
    ("{@\\choose{@}<\\atop>@}", "more than one infix fraction", ""),
    ("\\operatorname{@<\\frac>12}@", "Could not extract text", ""),
    ("\\operatorname{@<$>@}@", "Unexpected \"$\"", ""),
    ("@<$>@", "Unexpected \"$\"", ""),
    ("\\text{@<$>@$}", "Math mode within text mode", ""),
    ("\\text{@<\\alpha>}", "Not valid in text mode", ""),
    ("\\textbf{@\\textit{<\\sum>}}", "Not valid in text mode", ""),
    ("\\text{\\large @<\\@zz>}", "Unknown command \"\\@zz\"", ""),
    ("@<\\ae>@", "Not valid in math mode", ""),
    ("@<\\sout>{@}", "Not valid in math mode", ""),
    ("@<\\large>@", "Not valid in math mode", ""),
    ("@<#1>@", "Macro parameter found outside", "m"),
    ("\\newcommand{<x>}{@}", "Expected the name of a command", "a"),
    ("\\newcommand{<\\frac>}{@}@", "already defined", "a"),
    ("\\newcommand<\\sum>@", "already defined", "a"),
    ("\\renewcommand{<\\@zz>}{@}", "not defined", "a"),
    ("\\newcommand{\\@zz}[1]{@<#2>}", "Parameter number 2 is out of range", "am"),
    ("\\newcommand{\\@zz}[<x>]{@}", "Invalid parameter number", "a"),
    ("\\def <x>{@}", "Expected the name of a command", "a"),
    ("\\def\\@zz<#2>{@}", "Expected parameter #1, found #2", "am"),
    ("\\def\\@zz <x>#1{@}", "Delimited parameters are not supported", "am"),
    ("\\let <x>=@", "Expected the name of a command", "a"),
    ("\\let\\@zz=<\\@zy>@", "Unknown command \"\\@zy\"", "a"),
    ("@\\color<{rad}>@", "Unknown color \"rad\"", ""),
    ("@\\textcolor{<rad>}@", "Unknown color \"rad\"", ""),
    ("@\\hspace<{1xx}>@", "Expected length with units, found \"1xx\"", ""),
    ("@\\hspace<{2 mu}>@", "Math unit \"mu\"", ""),
    ("@\\mspace<{x}>", "Expected length with units, found \"x\"", ""),
    ("@\\kern1<xx>@", "invalid unit \"xx\"", ""),
    ("\\genfrac{}{}<{xx}>{}@@", "Expected length with units, found \"xx\"", ""),
    ("\\genfrac{}{}{}{<x>}@@", "", ""),
    ("\\genfrac{}{}{}{<4>}@@", "", ""),
    ("\\raisebox<{1xx}>{@}", "Expected length with units, found \"1xx\"", ""),
    ("\\text{@\\raisebox<{1xx}>{@}}", "Expected length with units, found \"1xx\"", ""),
    ("\\sideset{_1}{}<x>", "Expected a large operator", ""),
    ("\\not<\\frac>@@", "Expected a relation after \\not", ""),
    ("@\\not<\\@zz>@", "Unknown command \"\\@zz\"", ""),
    ("@<\\@zz>", "Unknown command \"\\@zz\"", ""),
    ("\\begin{matrix}@&<\\@zz>\\end{matrix}", "Unknown command \"\\@zz\"", ""),
];
/// What is around; which mistakes are none there.
const AROUND: &[(&str, &str, char)] = &[
    ("", "", ' '),
    ("~+", "-~", ' '),
    ("~_~ ", "^~~", ' '),
    ("{~", "}~", 'b'),
    ("\\sqrt{", "~}", 'b'),
    ("\\frac~{", "}", 'b'),
    ("~^{", "}~", 'b'),
    ("\\hat{", "}", 'b'),
    ("\\left(~", "\\right)~", 'f'),
    ("\\sqrt[~]{", "}", 'b'),
    ("\\begin{matrix}~&", "\\end{matrix}", 't'),
    ("\\begin{cases}~\\\\", "\\end{cases}~", 't'),
    ("\\begin{equation}", "\\end{equation}", 'q'),
    ("\\begin{gather}~\\\\~", "\\end{gather}", 'q'),
    ("\\sum_{~\\to ", "}^~", 'b'),
    ("\\mathrm{~", "}", 'b'),
    ("\\color{red}", " ~", ' '),
    ("\\textcolor{red}{", "~}", 'm'),
    ("\\newcommand\\Zf[1]{~#1~}\\Zf{", "}", 'm'),
    ("\\newcommand\\Zf[2]{\\frac{#1}{#2}}\\Zf~{", "}", 'm'),
    ("\\def\\Zf#1{\\sqrt{#1}}~\\Zf{", "}~", 'm'),
    ("\\pmod{", "}", 'm'),
    ("~\\\\~", "\\\\~", ' '),
];
/// Before all of it.
const FIRST: &[&str] = &["", "é%é\n ", "\\text{é\u{1d4d0}}~"];
/// What is not closed, and what is missing.
const OPEN: &[(&str, &str)] = &[
    ("{", "Expected closing token \"}\""), ("\\left(", "Expected closing token \"\\right\""), ("\\begin{matrix}~&", "Expected closing token \"\\end{...}\""), ("\\sqrt[", "Expected closing token \"]\""),
    ("\\sqrt{", "Expected closing token \"}\""), ("\\frac~{", "Expected closing token \"}\""), ("~^{", "Expected closing token \"}\""), ("\\begin{align}", "Expected closing token \"\\end{...}\""),
    ("\\text{", "Expected closing token \"}\""), ("\\xrightarrow[", "Expected closing token \"]\""), ("\\begingroup ", "Expected closing token \"}\""), ("\\left.\\sqrt{~}", "Expected closing token \"\\right\""),
    ("\\operatorname{", "Expected closing token \"}\""), ("\\mathrm{", "Expected closing token \"}\""),
];
const MISSING: &[&str] = &["\\sqrt", "\\frac", "\\frac@", "@^", "@_", "\\sum_", "\\hat", "\\mathop", "\\binom{@}", "\\overset@", "\\mathrm", "\\textcolor{red}", "\\pmod", "\\newcommand\\Zf[2]{#1}\\Zf@", "\\underbrace", "@'_", "\\left(@\\right)^", "\\text"];

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(MISTAKES.len() + OPEN.len() + MISSING.len()) as u32).map(|k| k + t).collect()
}

/// Letters for `@` and `~`; gives the range between the marks.
fn put(s: &mut Buf, t: &str, l: u8, m: u8, at: &mut (usize, usize)) {
    let mut open = false;
    let mut last = b' ';
    for b in t.bytes() {
        if matches!(b, b'@' | b'~') && last.is_ascii_alphabetic() {
            s.b(b' ');
        }
        if b != b'<' && b != b'>' {
            last = b;
        }
        match b {
            b'@' if s.0.last() == Some(&b'\\') => _ = s.s("Q"),
            b'@' => _ = s.b(l),
            b'~' => _ = s.b(m),
            b'<' if !open => {
                open = true;
                at.0 = s.0.len();
            }
            b'>' => at.1 = s.0.len(),
            b => _ = s.b(b),
        }
    }
}

fn refused(s: &Buf, at: (usize, usize), part: &str, block: bool) {
    sx::show(s.as_str());
    let c = std();
    match c.convert_with_local_state(s.as_str(), if block { MathDisplay::Block } else { MathDisplay::Inline }) {
        Ok(r) => {
            sx::note(&r.mathml);
            sx::fail("a mistake is not refused");
        }
        Err(e) => {
            let m = e.error_message();
            sx::note(&m);
            let mut want = Buf::new();
            put(&mut want, part, 0, 0, &mut (0, 0));
            sx::check(m.contains(want.as_str()), "the message of the error is not about the mistake");
            sx::check(e.0.start == at.0 && e.0.end == at.1, "the range of the error is not what is wrong");
        }
    }
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let (l, m) = (sx::letter(), sx::letter());
    let mut s = Buf::new();
    let mut none = (0, 0);
    let first = sx::choose(FIRST.len());
    put(&mut s, FIRST[first], l, m, &mut none);
    if k < MISTAKES.len() {
        let (text, part, not) = MISTAKES[k];
        let two = if deep { sx::choose(AROUND.len()) } else { 0 };
        let one = sx::choose(AROUND.len());
        for i in [two, one] {
            let (a, _, kind) = AROUND[i];
            let bad = match kind {
                'b' => not.contains('b') || not.contains('a'),
                't' => not.contains('t') || not.contains('a'),
                'q' => not.contains('t') || not.contains('g') || not.contains('a'),
                'm' => not.contains('m') || not.contains('b') || not.contains('a'),
                'f' => not.contains('f') || not.contains('a'),
                _ => false,
            };
            // Macros are defined once, and tables with numbers are not in anything.
            if bad || (two != 0 && (kind == 'q' && i == one || a.contains("\\Zf") && AROUND[two].0.contains("\\Zf") && i == one)) {
                return sx::cover(1);
            }
        }
        put(&mut s, AROUND[two].0, l, m, &mut none);
        put(&mut s, AROUND[one].0, l, m, &mut none);
        let mut at = (0, 0);
        put(&mut s, text, l, m, &mut at);
        s.b(b' ');
        put(&mut s, AROUND[one].1, l, m, &mut none);
        put(&mut s, AROUND[two].1, l, m, &mut none);
        refused(&s, at, part, first == 1);
        return sx::cover(1);
    }
    let k = k - MISTAKES.len();
    // At the end.
    let (open, missing) = if k < OPEN.len() { (OPEN[k].0, None) } else { (AROUND[sx::choose(AROUND.len())].0, Some(MISSING[k - OPEN.len()])) };
    if missing.is_some_and(|m| m.contains("\\Zf")) && open.contains("{") {
        return sx::cover(2);
    }
    let mut part = "";
    if missing.is_none() {
        let (a, _, kind) = AROUND[sx::choose(AROUND.len())];
        put(&mut s, a, l, m, &mut none);
        // In arguments of macros it is the argument which is not closed.
        part = if kind == 'm' { "Expected closing token \"}\"" } else { OPEN[k].1 };
    }
    put(&mut s, open, l, m, &mut none);
    put(&mut s, missing.unwrap_or("@"), l, m, &mut none);
    let n = s.0.len();
    refused(&s, (n, n), part, first == 1);
    sx::cover(2);
}
