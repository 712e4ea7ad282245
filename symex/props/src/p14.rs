//! Text: what is written in text mode is shown, character for character, each in its style, size and height.
use crate::*;
use xml::El;

/// The commands with an argument; the last is no font but a height.
const STYLES: &[(&str, &str)] = &[
    ("\\textbf", "b"),
    ("\\textit", "i"),
    ("\\emph", "em"),
    ("\\texttt", "code"),
    ("\\textsc", "caps"),
    ("\\textsf", "sans"),
    ("\\textrm", "serif"),
    ("\\sout", "s"),
];
const SIZES: &[(&str, &str)] = &[
    ("\\tiny", "50%"),
    ("\\scriptsize", "70%"),
    ("\\footnotesize", "80%"),
    ("\\small", "90%"),
    ("\\normalsize", "100%"),
    ("\\large", "120%"),
    ("\\Large", "140%"),
    ("\\LARGE", "170%"),
    ("\\huge", "200%"),
    ("\\Huge", "250%"),
];
const ACCENTS: &[(&str, u32)] = &[
    ("\\'", 0x301), ("\\`", 0x300), ("\\^", 0x302), ("\\\"", 0x308), ("\\~", 0x303), ("\\=", 0x304), ("\\.", 0x307),
    ("\\u ", 0x306), ("\\v ", 0x30c), ("\\H ", 0x30b), ("\\c ", 0x327), ("\\r ", 0x30a),
];
/// Commands for a character; whether the space after the command is part of the text.
const CHARS: &[(&str, u32, bool)] = &[
    ("\\&", 0x26, true), ("\\%", 0x25, true), ("\\#", 0x23, true), ("\\$", 0x24, true), ("\\_", 0x5f, true), ("\\{", 0x7b, true), ("\\}", 0x7d, true),
    ("\\,", 0x2009, false), ("\\:", 0x205f, false), ("\\;", 0x2004, false), ("~", 0xa0, true), ("\\ ", 0xa0, false),
    ("\\quad ", 0x2003, false), ("\\enspace ", 0x2002, false), ("\\dots ", 0x2026, false), ("\\ldots ", 0x2026, false),
    ("\\ss ", 0xdf, false), ("\\ae ", 0xe6, false), ("\\AE ", 0xc6, false), ("\\oe ", 0x153, false), ("\\OE ", 0x152, false), ("\\o ", 0xf8, false),
    ("\\O ", 0xd8, false), ("\\aa ", 0xe5, false), ("\\AA ", 0xc5, false), ("\\l ", 0x142, false), ("\\L ", 0x141, false), ("\\i ", 0x131, false),
    ("\\j ", 0x237, false), ("\\textbackslash ", 0x5c, false), ("\\textless ", 0x3c, false), ("\\textgreater ", 0x3e, false), ("\\textbar ", 0x7c, false),
    ("\\textbraceleft ", 0x7b, false), ("\\textbraceright ", 0x7d, false), ("\\textunderscore ", 0x5f, false), ("\\textdollar ", 0x24, false),
    ("\\textendash ", 0x2013, false), ("\\textemdash ", 0x2014, false), ("\\textquoteleft ", 0x2018, false), ("\\textquoteright ", 0x2019, false),
    ("\\textquotedblleft ", 0x201c, false), ("\\textquotedblright ", 0x201d, false), ("\\textregistered ", 0xae, false), ("\\textsterling ", 0xa3, false),
    ("\\textyen ", 0xa5, false), ("\\textdegree ", 0xb0, false), ("\\textdagger ", 0x2020, false), ("\\textdaggerdbl ", 0x2021, false),
];
/// Lengths, and how many hundredths of an em and of an ex they are.
const RAISE: &[(&str, i32, i32)] = &[("1em", 100, 0), ("2ex", 0, 200), ("-1em", -100, 0), (".5em", 50, 0)];
/// Nothing of this has a meaning in text.
const BAD: &[&str] = &[
    "^", "_", "&", "\\\\", "\\alpha ", "\\frac12", "$", "\\left(", "\\right)", "\\sqrt x", "\\mathrm x", "\\over ", "\\color{red}", "\\limits ", "\\sum ", "\\hat x",
    "\\begin{matrix}x\\end{matrix}", "\\label{a}", "\\displaystyle ", "\\mathbin x", "\\big(", "\\middle|", "\\pmod x", "\\sin ", "\\hline ", "\\!", "\\boxed{x}",
];

#[derive(Clone, Copy, PartialEq, Default)]
struct Env {
    style: &'static str,
    size: &'static str,
    em: i32,
    ex: i32,
}

#[derive(Default)]
struct G {
    tex: Buf,
    want: Vec<(u32, Env)>,
    /// How many items may still follow.
    left: usize,
    /// White space has no effect here; a line has just ended.
    skip: bool,
    line: bool,
    /// Rotates the choices that are not explored.
    rot: usize,
    /// There is to be something without meaning, which is not there yet.
    bad: bool,
    had_bad: bool,
    few: bool,
}

/// Bold and slanted add up, emphasis in emphasis is upright; otherwise the inner style replaces the outer one.
fn inner(outer: &str, new: &'static str) -> &'static str {
    match (outer, new) {
        ("em", "em") => "",
        ("b", "i") | ("i", "b") => "bi",
        _ => new,
    }
}

impl G {
    fn turn(&mut self, n: usize) -> usize {
        self.rot += 7;
        self.rot % n
    }
    /// A character that stands for itself, or a quote.
    fn ch(&mut self, e: Env) {
        let c = if self.few { sx::letter() } else { sx::byte() };
        let special = (c == b'#') | (c == b'$') | (c == b'%') | (c == b'&') | (c == b'\\') | (c == b'^') | (c == b'_') | (c == b'{') | (c == b'}') | (c == b'~');
        sx::assume((c > b' ') & (c < 0x7f) & !special);
        self.tex.b(c);
        let shown = match c {
            b'"' => 0x201d,
            b'\'' => 0x2019,
            b'`' => 0x2018,
            _ => c as u32,
        };
        self.want.push((shown, e));
        self.skip = false;
        self.line = false;
    }
    fn blank(&mut self, e: Env) {
        let (s, shown, line) = [(" ", true, false), ("%a\n", false, true), ("  %\\a\n\t", true, true), ("\t \n ", true, true)][if self.few { self.turn(4) } else { sx::choose(4) }];
        // No empty lines.
        sx::assume(!(self.line && line));
        self.tex.s(s);
        if shown && !self.skip {
            self.want.push((0xa0, e));
        }
        self.skip = true;
        self.line = line;
    }
    fn open(&mut self) {
        self.tex.s("{");
        self.skip = false;
        self.line = false;
    }
    fn close(&mut self) {
        self.tex.s("}");
        self.skip = false;
        self.line = false;
    }
    /// Groups of all kinds in one another, with a letter on each side.
    fn nest(&mut self, mut e: Env, depth: usize, first: usize) {
        self.ch(e);
        if depth > 0 {
            let outer = e;
            let k = if first < 4 { first } else { sx::choose(4) };
            match k {
                2 => {
                    let n = self.turn(STYLES.len());
                    self.tex.s(STYLES[n].0);
                    e.style = if STYLES[n].1 == "s" { "s" } else { inner(e.style, STYLES[n].1) };
                }
                3 => {
                    let (s, em, ex) = RAISE[depth & 1];
                    self.tex.s("\\raisebox{").s(s).s("}");
                    e.em += em;
                    e.ex += ex;
                }
                _ => {}
            }
            self.open();
            if k == 1 {
                let n = self.turn(SIZES.len());
                self.tex.s(SIZES[n].0).s(" ");
                e.size = SIZES[n].1;
            }
            self.nest(e, depth - 1, 99);
            self.close();
            self.ch(outer);
        }
    }
    fn items(&mut self, mut e: Env, mut first: usize) {
        while self.left > 0 {
            let kinds = if self.bad { 11 } else { 10 };
            let k = if first < kinds { first } else { sx::choose(kinds) };
            first = 99;
            if k == 0 {
                break;
            }
            self.left -= 1;
            match k {
                1 => self.ch(e),
                2 => self.blank(e),
                3 => {
                    let n = self.turn(CHARS.len());
                    let (s, c, keep) = CHARS[n];
                    self.tex.s(s);
                    self.want.push((c, e));
                    self.skip = !keep;
                    self.line = false;
                }
                4 => {
                    let n = self.turn(SIZES.len());
                    self.tex.s(SIZES[n].0).s(" ");
                    e.size = SIZES[n].1;
                    self.skip = true;
                    self.line = false;
                }
                5 => {
                    let n = self.turn(ACCENTS.len());
                    let group = sx::choose(2) == 1;
                    let l = sx::letter();
                    self.tex.s(ACCENTS[n].0);
                    if group {
                        self.tex.s("{");
                    }
                    self.tex.b(l);
                    if group {
                        self.tex.s("}");
                    }
                    self.want.push((l as u32, e));
                    self.want.push((ACCENTS[n].1, e));
                    self.skip = false;
                    self.line = false;
                }
                6 => {
                    // A style of one character only.
                    let n = self.turn(STYLES.len());
                    self.tex.s(STYLES[n].0).s(" ");
                    let style = STYLES[n].1;
                    let style = if style == "s" { style } else { inner(e.style, style) };
                    self.ch(Env { style, ..e });
                }
                7 => {
                    let n = self.turn(STYLES.len());
                    self.tex.s(STYLES[n].0);
                    let style = STYLES[n].1;
                    self.open();
                    let style = if style == "s" { style } else { inner(e.style, style) };
                    self.items(Env { style, ..e }, 99);
                    self.close();
                }
                8 => {
                    self.open();
                    self.items(e, 99);
                    self.close();
                }
                9 => {
                    let n = self.turn(RAISE.len());
                    let (s, em, ex) = RAISE[n];
                    self.tex.s("\\raisebox{").s(s).s("}");
                    self.open();
                    self.items(Env { em: e.em + em, ex: e.ex + ex, ..e }, 99);
                    self.close();
                }
                _ => {
                    self.tex.s(sx::pick(BAD));
                    self.bad = false;
                    self.had_bad = true;
                    self.skip = false;
                }
            }
        }
    }
}

/// The style an element of HTML in a text stands for.
fn html(e: &El) -> Option<&'static str> {
    Some(match (e.tag, e.attr("style"), e.attr("class")) {
        ("b", None, None) => "b",
        ("i", None, None) => "i",
        ("em", None, None) => "em",
        ("code", None, None) => "code",
        ("s", None, None) => "s",
        ("span", Some("font-variant-caps: small-caps"), None) => "caps",
        ("span", None, Some("math-core-sans-serif-font")) => "sans",
        ("span", None, Some("math-core-serif-font")) => "serif",
        _ => return None,
    })
}

fn seen(e: &El, env: Env, out: &mut Vec<(u32, Env)>) -> bool {
    let mut env = env;
    match e.tag {
        "math" | "mrow" => {}
        "mpadded" => match e.attr("voffset") {
            Some(v) => {
                let (em, ex) = match v {
                    "1em" => (100, 0),
                    "2em" => (200, 0),
                    "3em" => (300, 0),
                    "1.5em" => (150, 0),
                    "2.5em" => (250, 0),
                    "-0.5em" => (-50, 0),
                    "-1.5em" => (-150, 0),
                    "-2em" => (-200, 0),
                    "-3em" => (-300, 0),
                    "0.5em" => (50, 0),
                    "-1em" => (-100, 0),
                    "2ex" => (0, 200),
                    "4ex" => (0, 400),
                    "6ex" => (0, 600),
                    _ => return false,
                };
                env.em += em;
                env.ex += ex;
            }
            None => return false,
        },
        "mtext" => {
            if let Some(s) = e.attr("style") {
                env.size = match SIZES.iter().find(|x| s.strip_prefix("font-size:").is_some_and(|y| y == x.1)) {
                    Some(x) => x.1,
                    None => return false,
                };
            }
            let mut inmost = e;
            let mut style = "";
            while let Some(k) = inmost.els().next() {
                style = match (style, html(k)) {
                    ("", Some(s)) => s,
                    ("b", Some("i")) => "bi",
                    _ => return false,
                };
                inmost = k;
            }
            env.style = style;
            let mut text = String::new();
            e.all_text(&mut text);
            let text = xml::unescape(&text);
            for c in text.chars() {
                out.push((c as u32, env));
            }
            return true;
        }
        _ => return false,
    }
    e.els().all(|k| seen(k, env, out))
}

const TOP: usize = 10;
const KINDS: usize = 10;

// Jobs: the command and the kind of the first item; then the styles in one another; then the same with something without
// meaning; then each of the commands for a character, accents and sizes; arbitrary characters; what is not closed.
const A: usize = TOP * KINDS;
const B: usize = A + STYLES.len();
const C: usize = B + TOP;
const D: usize = C + CHARS.len() + ACCENTS.len() + SIZES.len();
const E: usize = D + 4;
const F: usize = E + TOP;
// Groups in one another.
const H: usize = F + 4;
pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..H as u32).map(|k| k + t).collect()
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let mut g = G { rot: k * 3, ..G::default() };
    let mut unclosed = false;
    let top = match k {
        _ if k < A => k % TOP,
        _ if k < B => k - A,
        _ if k < C => k - B,
        _ if k < E => 0,
        _ if k < F => k - E,
        _ => 9,
    };
    let env = if top < 7 {
        // Strike-through is not a command for a formula.
        g.tex.s(STYLES[top].0);
        Env { style: STYLES[top].1, ..Env::default() }
    } else if top == 7 {
        let (s, em, ex) = sx::pick(RAISE);
        g.tex.s("\\raisebox{").s(s).s("}");
        Env { em, ex, ..Env::default() }
    } else {
        g.tex.s("\\text");
        Env::default()
    };
    if k < A && top == 9 {
        // A single character.
        g.tex.s(" ");
        g.ch(Env::default());
        g.left = 0;
    } else {
        g.open();
        if k < A {
            // Short ones with all characters, longer ones with letters only.
            g.few = sx::choose(2) == 1;
            g.left = if deep { 3 } else { 2 } + (g.few && (deep || matches!(top, 0 | 2 | 8))) as usize;
            g.items(env, k / TOP);
        } else if k < B {
            // Every style in every other.
            g.few = true;
            let inside = STYLES[sx::choose(STYLES.len())];
            let third = STYLES[sx::choose(STYLES.len())];
            let style = |o: &str, s: &'static str| if s == "s" { s } else { inner(o, s) };
            g.ch(env);
            g.tex.s(inside.0);
            g.open();
            let e2 = Env { style: style(env.style, inside.1), ..env };
            g.ch(e2);
            g.tex.s(third.0);
            g.open();
            g.ch(Env { style: style(e2.style, third.1), ..env });
            g.close();
            g.ch(e2);
            g.close();
            g.ch(env);
        } else if k < C {
            g.bad = true;
            g.left = if deep { 3 } else { 2 };
            g.few = true;
            g.items(env, 99);
            sx::assume(g.had_bad);
        } else if k < D {
            let n = k - C;
            let before = sx::choose(3);
            g.few = before > 0 && !deep;
            if before > 0 {
                g.ch(env);
            }
            if before > 1 {
                g.blank(env);
            }
            let mut e = env;
            if n < CHARS.len() {
                g.tex.s(CHARS[n].0);
                g.want.push((CHARS[n].1, env));
                g.skip = !CHARS[n].2;
                g.line = false;
            } else if n < CHARS.len() + ACCENTS.len() {
                let (s, c) = ACCENTS[n - CHARS.len()];
                let l = sx::letter();
                g.tex.s(s).b(l);
                g.want.push((l as u32, env));
                g.want.push((c, env));
                g.skip = false;
                g.line = false;
            } else {
                let (s, z) = SIZES[n - CHARS.len() - ACCENTS.len()];
                g.tex.s(s).s(" ");
                e.size = z;
                g.skip = true;
                g.line = false;
            }
            if sx::choose(2) == 1 {
                g.blank(e);
            }
            g.ch(e);
        } else if k < E {
            // Any character of Unicode that is not ASCII.
            let n = if deep { 1 + (k - D) % 2 } else { 1 };
            g.few = k - D == 3;
            if k - D > 1 {
                g.ch(env);
            }
            for _ in 0..n {
                let c = sx::any_char();
                sx::assume(c as u32 > 0x7f);
                g.tex.c(c);
                g.want.push((c as u32, env));
            }
            if (k - D) % 2 == 1 {
                g.ch(env);
            }
        } else if k < F {
            g.left = if deep { 3 } else { 2 };
            g.items(env, 99);
            unclosed = true;
        } else {
            g.few = true;
            g.nest(env, if deep { 5 } else { 4 }, k - F);
        }
        if !unclosed {
            g.close();
        }
    }
    sx::show(g.tex.as_str());
    let c = std();
    let out = match conv(&c, g.tex.as_str(), false) {
        Ok(_) if g.had_bad => return sx::fail("what has no meaning in text is accepted there"),
        Ok(_) if unclosed => return sx::fail("a text which does not end is accepted"),
        Ok(o) => o,
        Err(_) if g.had_bad || unclosed => return sx::cover(3),
        Err(_) => return sx::fail("a text is rejected"),
    };
    sx::note(&out);
    let root = match xml::parse(&out) {
        Ok(r) => r,
        Err(_) => return sx::fail("the result is not well-formed"),
    };
    let mut got = Vec::new();
    if !seen(&root, Env::default(), &mut got) {
        return sx::fail("a text is shown by something else than text in a style, a size and at a height");
    }
    if got.len() != g.want.len() {
        return sx::fail("characters of a text are lost or added");
    }
    for (g, w) in got.iter().zip(&g.want) {
        if g.0 != w.0 {
            return sx::fail("a character of a text is not the one which was written");
        }
        if g.1.style != w.1.style {
            return sx::fail("a character of a text is not in its style");
        }
        if g.1.size != w.1.size {
            return sx::fail("a character of a text is not in its size");
        }
        if g.1 != w.1 {
            return sx::fail("a character of a text is not at its height");
        }
    }
    sx::cover(1);
    if got.len() > 2 {
        sx::cover(2);
    }
}
