//! Commands which are not known: refused by name where they are, or shown as they are written.
use crate::corpus::CORPUS;
use crate::*;

/// After these comes something else than a formula.
const STOP: &[&str] = &["\\newcommand", "\\renewcommand", "\\providecommand", "\\let", "\\global", "\\Declare", "\\sideset", "\\mathchoice", "\\edef", "\\not", "\\slashed", "\\vertoverlay",
    // In fonts letters are put together.
    "\\math", "\\bf", "\\it", "\\rm", "\\tt", "\\sf", "\\bm", "\\bb", "\\bold", "\\cal", "\\frak", "\\scr", "\\sym",
];
const AROUND: &[(&str, &str)] = &[
    ("", ""), ("x", ""), ("", "x"), ("{", "}"), ("x^", ""), ("x_{", "}"), ("\\sqrt", ""), ("\\sqrt[3]{", "}"), ("\\sqrt[", "]{x}"), ("\\frac", "2"), ("\\frac1{", "}"), ("\\left(", "\\right)"), ("\\hat", "+"),
    ("\\begin{matrix}", "&x\\end{matrix}"), ("\\begin{cases}x\\\\", "\\end{cases}"), ("\\newcommand\\f[1]{#1+#1}\\f{", "}"), ("\\newcommand\\f[1]{#1}\\f", ""),
    ("\\overset", "x"), ("\\underbrace{", "}_x"), ("\\color{red}", ""), ("\\displaystyle", "x"), ("{x\\over", "}"), ("\\mathrel{", "}x"), ("\\log", ""), ("x+", "+y"), ("\\xrightarrow[", "]{x}"),
    ("\\begin{align}x&=", "\\\\y\\end{align}"), ("\\def\\f#1{x}\\f{", "}"), ("\\def\\f#1{{#1}}\\f{", "}"), ("\\phantom{", "}"), ("\\big(", "\\big)"), ("1", "2"), ("\\text{x}", "'"), ("(", ",x)"), ("\\bmod", ""),
    ("\\binom", "x"), ("\\sum_", "^x"), ("\\lim\\limits_{x\\to", "}"), ("\\operatorname{x}", ""), ("\\boxed{", "}"), ("\\textcolor{red}{", "}"), ("\\cancel", "x"), ("\\pmod{", "}"), ("\\begingroup", "\\endgroup"),
    ("\\mathchoice{", "}{x}{x}{x}"), ("\\mathchoice{x}{", "}{x}{x}"), ("\\cramped{", "}"), ("\\prescript{x}{", "}{x}"), ("x\\mathbin", "x"), ("\\left.", "\\middle|x\\right."),
];
/// Definitions with an unknown command in them; used after, or not.
const BODIES: &[(&str, &str)] = &[
    ("\\newcommand\\f{", "}x\\f"), ("\\newcommand\\f[1]{#1+", "}\\f{x}"), ("\\def\\f{x", "}\\f\\f"), ("\\providecommand\\f{", "y}\\f"), ("\\newcommand\\f{x}\\renewcommand\\f{", "}\\f"), ("\\gdef\\f#1{", "#1}\\f x"),
];

pub fn jobs(tier: u32) -> Vec<u32> {
    let n = if tier == 0 { 500 } else { CORPUS.len() };
    let mut v: Vec<u32> = (0..n as u32).collect();
    v.extend((0..AROUND.len() as u32).map(|k| 1000 + k));
    v.extend((0..BODIES.len() as u32).map(|k| 2000 + k));
    v.extend((0..1).map(|k| 3000 + k));
    v
}

const STAND_IN: &str = "\\aleph ";
const SEEN: &str = "<mi>\u{2135}</mi>";

/// A name which no command has.
fn name() -> [u8; 5] {
    let mut n = *b"Qzxx ";
    for c in &mut n[2..4] {
        *c = sx::byte();
        sx::assume((c.wrapping_sub(b'a') < 26) | (c.wrapping_sub(b'A') < 26));
    }
    n
}
fn lenient() -> LatexToMathML {
    LatexToMathML::new(MathCoreConfig { ignore_unknown_commands: true, ..Default::default() }).unwrap_or_else(|_| panic!())
}

fn check(pre: &str, post: &str, block: bool) {
    let n = name();
    let n = &n[..4];
    let mut a = Buf::of(pre);
    a.s(STAND_IN).s(post);
    let mut b = Buf::of(pre);
    b.b(b'\\');
    for c in n {
        b.b(*c);
    }
    b.s("   ").s(post);
    // (As long as the other.)
    sx::show(b.as_str());
    let strict = std();
    let known = conv(&strict, a.as_str(), block);
    // (With other commands which are not known.)
    let ignored = conv(&lenient(), a.as_str(), block);
    let refused = conv(&strict, b.as_str(), block);
    let shown = conv(&lenient(), b.as_str(), block);
    let mut said = Buf::of("Unknown command \"\\");
    for c in n {
        said.b(*c);
    }
    said.s("\".");
    let valid = known.is_ok();
    match (ignored, refused, shown) {
        (Ok(known), Err(e), Ok(shown)) => {
            sx::note(&shown);
            let m = e.error_message();
            sx::check(!valid || m == said.as_str(), "another error than the one for an unknown command");
            // (The name is the span; in a use of a macro it may be the use.)
            if valid && !pre.contains("\\f") {
                sx::check(e.0.start == pre.len() && e.0.end == pre.len() + 5, "the error for an unknown command is not where the command is");
            }
            let mut want = Buf::new();
            let mut rest = known.as_str();
            while let Some((x, y)) = rest.split_once(SEEN) {
                want.s(x).s("<merror class=\"math-core-unknown-cmd\"><mtext>\\");
                for c in n {
                    want.b(*c);
                }
                want.s("</mtext></merror>");
                rest = y;
            }
            want.s(rest);
            sx::check(shown == want.as_str(), "an unknown command is not shown like a letter in its place");
            sx::cover(1);
        }
        (Err(_), Err(_), Err(_)) => sx::cover(2),
        (_, Ok(o), _) => {
            // It is gone with the argument of a macro that does not use it: an error all the same.
            sx::note(&o);
            sx::fail("an unknown command is not refused");
        }
        (Ok(_), _, Err(e)) => {
            sx::note(&e.error_message());
            sx::fail("an unknown command is refused although unknown commands are to be ignored");
        }
        (Err(_), _, Ok(o)) => {
            sx::note(&o);
            sx::fail("an unknown command is accepted where a letter is not");
        }
    }
}

pub fn run(k: u32) {
    let k = k as usize;
    match k {
        0..1000 => {
            let s = CORPUS[k];
            if STOP.iter().any(|x| s.contains(x)) {
                return sx::cover(3);
            }
            let at = p04::ends(s);
            let at = at[sx::choose(at.len())];
            check(&s[..at], &s[at..], false);
        }
        1000..2000 => {
            let (pre, post) = AROUND[k - 1000];
            check(pre, post, sx::choose(2) == 1);
        }
        2000..3000 => {
            let (pre, post) = BODIES[k - 2000];
            check(pre, post, false);
        }
        _ => {
            // Names of any letters, in the configuration.
            let n = name();
            let n = core::str::from_utf8(&n[..4]).unwrap_or("");
            let mut body = Buf::of("x\\");
            body.s(n);
            let bodies = [("f", body.as_str()), ("g", "y")];
            let macros: Vec<(String, String)> = bodies.iter().map(|(a, b)| (String::from(*a), String::from(*b))).collect();
            sx::show(body.as_str());
            let c = LatexToMathML::new(MathCoreConfig { macros, ..Default::default() });
            match c {
                Ok(c) => {
                    if let Ok(o) = conv(&c, "g\\f", false) {
                        sx::note(&o);
                        sx::fail("an unknown command in a macro is not refused");
                    }
                }
                Err(_) => {}
            }
            sx::cover(3);
        }
    }
}
