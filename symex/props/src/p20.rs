//! Delimiters: which they are, how large, and the space around them.
use crate::*;
use xml::El;

/// How it is written, and the character it is.
const DELIMS: &[(&str, char)] = &[
    ("(", '('), (")", ')'), ("[", '['), ("]", ']'), ("|", '|'), ("/", '/'), ("\\{", '{'), ("\\}", '}'), ("\\|", '\u{2016}'), ("\\backslash ", '\\'), ("\\langle ", '\u{27e8}'),
    ("\\rangle ", '\u{27e9}'), ("\\uparrow ", '\u{2191}'), ("\\ulcorner ", '\u{231c}'), ("\\lmoustache ", '\u{23b0}'),
    // As good as those before.
    ("\\lbrace ", '{'), ("\\rbrace ", '}'), ("\\lbrack ", '['), ("\\rbrack ", ']'), ("\\vert ", '|'), ("\\Vert ", '\u{2016}'), ("\\lvert ", '|'), ("\\rvert ", '|'), ("\\lVert ", '\u{2016}'), ("\\rVert ", '\u{2016}'),
    ("\\lfloor ", '\u{230a}'), ("\\rfloor ", '\u{230b}'), ("\\lceil ", '\u{2308}'), ("\\rceil ", '\u{2309}'), ("\\lgroup ", '\u{27ee}'), ("\\rgroup ", '\u{27ef}'), ("\\rmoustache ", '\u{23b1}'),
    ("\\downarrow ", '\u{2193}'), ("\\updownarrow ", '\u{2195}'), ("\\Uparrow ", '\u{21d1}'), ("\\Downarrow ", '\u{21d3}'), ("\\Updownarrow ", '\u{21d5}'),
    ("\\urcorner ", '\u{231d}'), ("\\llcorner ", '\u{231e}'), ("\\lrcorner ", '\u{231f}'), ("\\llbracket ", '\u{27e6}'), ("\\rrbracket ", '\u{27e7}'), ("\\lang ", '\u{27e8}'), ("\\rang ", '\u{27e9}'),
    ("\u{27e8}", '\u{27e8}'), ("\u{27e9}", '\u{27e9}'), ("\u{2308}", '\u{2308}'), ("\u{230b}", '\u{230b}'), ("\u{2016}", '\u{2016}'), ("\u{27ea}", '\u{27ea}'), ("\u{27eb}", '\u{27eb}'), ("\u{27ee}", '\u{27ee}'),
    ("\u{231c}", '\u{231c}'), ("\u{231f}", '\u{231f}'), ("\u{23b0}", '\u{23b0}'), ("\u{27c5}", '\u{27c5}'), ("\u{27c6}", '\u{27c6}'), ("\u{2191}", '\u{2191}'), ("\u{2985}", '\u{2985}'), ("\u{29fc}", '\u{29fc}'),
];
const MAIN: usize = 15;
const BIG: &[&str] = &["big", "Big", "bigg", "Bigg"];
/// Around fences and large delimiters; whether it is a script or cell with its own list.
const PLACES: &[(&str, &str)] = &[("", ""), ("\\sqrt{", "}"), ("p^{", "}"), ("\\frac{", "}{q}"), ("\\left[", "\\right]"), ("\\begin{matrix}", "\\\\p\\end{matrix}"), ("\\mathrel{", "}"), ("\\begin{aligned}p&=", "\\end{aligned}")];
/// Commands which take a delimiter: what is before and after it.
const TAKING: &[(&str, &str)] = &[
    ("\\left", "X\\right."), ("\\left.X\\right", "Y"), ("\\left.X\\middle", "Y\\right."), ("\\big", "X"), ("\\Bigl", "X"), ("\\biggm", "X"), ("\\Biggr", "X"), ("\\genfrac{", "}{}{}{}{X}{Y}"),
];
const COMMANDS: usize = symbols::NAMES.len().div_ceil(40);

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(DELIMS.len() * 4 + TAKING.len() + COMMANDS + PLACES.len() + 4) as u32).map(|k| k + t).collect()
}

/// What an operator is drawn with: its space on the left and right (mu), whether it stretches upwards, its size.
struct Drawn<'a> {
    text: char,
    left: i32,
    right: i32,
    stretchy: bool,
    size: Option<&'a str>,
}
fn stretches(c: char, form: usize, explicit: bool) -> bool {
    match c {
        '|' => form != 0,
        '\u{2016}' if explicit => form != 0,
        '(' | '[' | '{' | '\u{2308}' | '\u{230a}' | '\u{27e8}' if explicit => form == 1,
        ')' | ']' | '}' | '\u{2309}' | '\u{230b}' | '\u{27e9}' if explicit => form == 2,
        '/' | '\\' | '\u{231c}'..='\u{231f}' | '\u{23b0}' | '\u{23b1}' | '\u{27c5}' | '\u{27c6}' => false,
        _ => true,
    }
}
/// The n-th of the elements of a list.
fn drawn<'a>(kids: &[&El<'a>], i: usize) -> Option<Drawn<'a>> {
    let e = kids[i];
    if e.tag != "mo" {
        return None;
    }
    let (left, right) = p12::spaces(kids)[i];
    let form = match e.attr("form") {
        Some("infix") => 0,
        Some("prefix") => 1,
        Some("postfix") => 2,
        _ if kids.len() < 2 => 0,
        _ if i == 0 => 1,
        _ if i + 1 == kids.len() => 2,
        _ => 0,
    };
    let t = xml::unescape(e.text());
    let mut c = t.chars();
    let (Some(text), None) = (c.next(), c.next()) else { return None };
    let stretchy = match e.attr("stretchy") {
        Some(s) => s == "true",
        None => stretches(text, form, e.attr("form").is_some()),
    };
    let size = e.attr("minsize");
    if size != e.attr("maxsize") {
        return None;
    }
    Some(Drawn { text, left, right, stretchy, size })
}
/// Corners are never drawn larger; the library says so.
fn fixed(c: char) -> bool {
    ('\u{231c}'..='\u{231f}').contains(&c)
}
/// Delimiters which MathML's dictionary does not have.
fn foreign(c: char) -> bool {
    matches!(c, '\u{231c}'..='\u{231f}' | '\u{23b0}' | '\u{23b1}' | '\u{27c5}' | '\u{27c6}')
}
const FOREIGN: &str = "there is space around a corner, moustache or bag";
fn is(e: &El, t: u8) -> bool {
    e.tag == "mi" && e.text().as_bytes() == [t]
}

/// Finds the list which has the letters in it.
fn list<'s, 'a>(e: &'s El<'a>, letter: u8) -> Option<&'s El<'a>> {
    if e.els().any(|k| is(k, letter)) {
        return Some(e);
    }
    e.els().find_map(|k| list(k, letter))
}

fn convert(s: &Buf) -> Option<String> {
    sx::show(s.as_str());
    let c = std();
    conv(&c, s.as_str(), false).ok()
}

/// A fence with a letter in it, and perhaps something in the middle.
fn fence(open: Option<(&str, char)>, mid: Option<(&str, char)>, close: Option<(&str, char)>, place: (&str, &str)) {
    let (x, y) = (sx::letter(), sx::letter());
    sx::assume((x != b'p') & (x != b'q') & (y != b'p') & (y != b'q') & (x != y));
    let mut s = Buf::new();
    s.s(place.0).s("\\left").s(open.map_or(".", |d| d.0)).b(x);
    if let Some(m) = mid {
        s.s("\\middle").s(m.0).b(y);
    }
    s.s("\\right").s(close.map_or(".", |d| d.0)).s(place.1);
    let Some(o) = convert(&s) else { return sx::fail("a delimiter is refused") };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    let Some(l) = list(&root, x) else { return sx::fail("what is in a fence is lost") };
    let kids: Vec<&El> = l.els().collect();
    if l.tag != "mrow" || kids.len() != if mid.is_some() { 5 } else { 3 } {
        return sx::fail("a fence is not a row of its own with the delimiters first and last");
    }
    if !is(kids[1], x) || mid.is_some() && !is(kids[3], y) {
        return sx::fail("what is in a fence is not in its place");
    }
    let places = [(0, open), (kids.len() - 1, close), (2, mid)];
    for (i, d) in places.into_iter().take(if mid.is_some() { 3 } else { 2 }) {
        match (d, drawn(&kids, i)) {
            (Some((_, c)), Some(d)) => {
                sx::check(d.text == c, "another delimiter than the one written is shown");
                sx::check(d.left == 0 && d.right == 0, if foreign(c) { FOREIGN } else { "there is space around a delimiter" });
                sx::check((d.stretchy || fixed(c)) && d.size.is_none(), "a delimiter does not grow with what is between");
            }
            (None, d) => sx::check(d.is_none_or(|d| d.text == '\u{2063}') && { let mut t = String::new(); kids[i].all_text(&mut t); let t = xml::unescape(&t); t.is_empty() || t == "\u{2063}" }, "something is shown for an empty delimiter"),
            _ => sx::fail("a delimiter is not one operator"),
        }
    }
    sx::cover(1);
}

/// A delimiter of a given size between letters, with a binary operator after or before it.
fn big(size: usize, kind: usize, d: (&str, char), place: (&str, &str), minus: usize) {
    let (x, y) = (sx::letter(), sx::letter());
    sx::assume((x != b'p') & (x != b'q') & (y != b'p') & (y != b'q') & (x != y));
    let mut s = Buf::new();
    s.s(place.0).b(x);
    if minus == 1 {
        s.b(b'+');
    }
    s.s("\\").s(BIG[size]).s(["", "l", "r", "m"][kind]).s(d.0);
    if minus == 2 {
        s.b(b'+');
    }
    s.b(y).s(place.1);
    let Some(o) = convert(&s) else { return sx::fail("a delimiter is refused") };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    let Some(l) = list(&root, x) else { return sx::fail("a letter next to a delimiter is lost") };
    let mut kids: Vec<&El> = l.els().collect();
    let Some(at) = kids.iter().position(|k| is(k, x)) else { return sx::fail("a letter next to a delimiter is lost") };
    let (from, n) = (at, if minus == 0 { 3 } else { 4 });
    if kids.len() < from + n || !is(kids[from + n - 1], y) {
        return sx::fail("a delimiter is not between the letters it is written between");
    }
    let i = from + if minus == 1 { 2 } else { 1 };
    // In a fence and after an equals sign the list is longer.
    kids.truncate(from + n + kids.len().saturating_sub(from + n));
    let Some(g) = drawn(&kids, i) else { return sx::fail("a delimiter is not one operator with a size") };
    sx::check(g.text == d.1, "another delimiter than the one written is shown");
    sx::check(g.stretchy || fixed(d.1), "a large delimiter does not take on its size");
    // The sizes grow, and are the same for all delimiters.
    let em = |s: &str| s.strip_suffix("em").and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    let size_is = em(g.size.unwrap_or(""));
    let (lo, hi) = [(1.1, 1.3), (1.5, 1.9), (2.0, 2.45), (2.46, 3.1)][size];
    sx::check(size_is > lo && size_is < hi, "a large delimiter is not of the size of its command");
    let script = place.0.contains('^') || place.0.contains("frac");
    let rel = if kind == 3 && !script { 5 } else { 0 };
    let sp = p12::spaces(&kids);
    // The operator beside it is binary or not by the delimiter's class.
    let plus = |binary: bool| if binary && !script { 4 } else { 0 };
    let (before, after) = match minus {
        0 => (rel, rel),
        // x+\bigl( is binary; x+\bigr) and x+\bigm| are not.
        1 => (plus(kind < 2).max(rel), rel),
        // \bigl(+y and \bigm|+y are not binary.
        _ => (rel, plus(kind == 0 || kind == 2).max(rel)),
    };
    sx::check(sp[i - 1].1 + g.left == before && g.right + sp[i + 1].0 == after, if foreign(d.1) { FOREIGN } else { "the space around a large delimiter is not that of its class" });
    sx::cover(2);
}

/// Only delimiters can be where one belongs.
fn taken(t: (&str, &str), what: &str, ok: Option<bool>) {
    let mut s = Buf::new();
    s.s(t.0).s(what).s(t.1);
    let o = convert(&s);
    if let Some(o) = &o {
        sx::note(o);
    }
    if let Some(ok) = ok {
        sx::check(o.is_some() == ok, if ok { "a delimiter is refused" } else { "what is no delimiter is taken for one" });
    }
    sx::cover(3);
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let n = DELIMS.len();
    let place = |all: bool| if all || deep { PLACES[sx::choose(PLACES.len())] } else { PLACES[0] };
    let some = || DELIMS[sx::choose(if deep { n } else { MAIN })];
    if k < n {
        let d = DELIMS[k];
        return match sx::choose(6) {
            0 => fence(Some(d), None, Some(some()), place(false)),
            1 => fence(Some(some()), None, Some(d), place(false)),
            2 => fence(None, None, Some(d), place(false)),
            3 => fence(Some(d), None, None, place(false)),
            4 => fence(None, Some(d), None, place(false)),
            _ => fence(Some(d), Some(some()), Some(d), place(false)),
        };
    }
    let k = k - n;
    if k < n * 3 {
        let p = place(false);
        return big(sx::choose(4), sx::choose(4), DELIMS[k / 3], p, k % 3);
    }
    let k = k - n * 3;
    if k < TAKING.len() {
        // Any character.
        let c = sx::byte();
        sx::assume((c >= b' ') & (c < 0x7f));
        let space = sx::choose(3);
        // What is an argument, and what is a character that is not read as one.
        sx::assume((c != b'\\') & (c != b'%') & (c != b' ') & (c != b'{') & (c != b'}'));
        if k == 7 {
            sx::assume((c != b'.') & (space == 0));
        }
        if TAKING[k].0.contains("big") || TAKING[k].0.contains("Big") || TAKING[k].0.contains("middle") {
            // The empty delimiter is refused there.
            sx::assume(c != b'.');
        }
        // TeX takes them for angles; refused by the library.
        sx::assume((c != b'<') & (c != b'>'));
        let ok = matches!(c, b'(' | b')' | b'[' | b']' | b'|' | b'/') || c == b'.' && k < 2;
        let mut w = Buf::new();
        w.s(["", " ", "%(\n"][space]).b(c);
        return taken(TAKING[k], w.as_str(), Some(ok));
    }
    let k = k - TAKING.len();
    if k < COMMANDS {
        let i = k * 40 + sx::choose(40);
        if i >= symbols::NAMES.len() {
            return sx::cover(3);
        }
        let (name, c, class) = symbols::NAMES[i];
        let c = char::from_u32(c).unwrap();
        let ok = match class {
            _ if DELIMS.iter().any(|d| d.1 == c) => Some(true),
            b'l' | b'c' | b'?' => None,
            // Any arrow is.
            _ if matches!(c, '\u{2190}'..='\u{21ff}' | '\u{27f0}'..='\u{297f}' | '\u{2b00}'..='\u{2bff}') => None,
            _ => Some(false),
        };
        let t = TAKING[sx::choose(TAKING.len())];
        let mut w = Buf::of("\\");
        w.s(name).s(" ");
        return taken(t, w.as_str(), ok);
    }
    let k = k - COMMANDS;
    if k < PLACES.len() {
        let d = some();
        return match sx::choose(4) {
            0 => fence(Some(d), None, Some(some()), PLACES[k]),
            1 => fence(Some(DELIMS[0]), Some(d), Some(DELIMS[1]), PLACES[k]),
            2 => fence(None, None, Some(d), PLACES[k]),
            _ => big(sx::choose(4), sx::choose(4), d, PLACES[k], sx::choose(3)),
        };
    }
    // Things which are no character.
    let k = k - PLACES.len();
    let what = [
        &["", "{(}", "{", "}", "\\frac ", "\\alpha ", "\\left(", "\\right)", "\\big(", "\\text{(}", "\\mathrm(", "\\sum ", "_(", "'", "\\color{red}(", "\\not(", "\\log "][..],
        &["\\(", "\\begin{matrix}(\\end{matrix}", "\\hat(", "\\,", "\\quad ", "\\hspace{1em}", "\\displaystyle(", "\\limits ", "\\middle(", "\\end{matrix}", "&", "\\\\", "\\hline ", "$", "#1", "^("][..],
        &["\\cdot ", "\\infty ", "\\times ", "\\le ", "\\colon ", "\\ldots ", "\\int ", "\\prime ", "\\%", "\\$", "\\&", "\\_", "\\#", "\\ ", "~", "\\partial "][..],
        &["+", "=", "-", "!", "?", ":", ";", ",", "x", "1", "@", "\u{b1}", "\u{e9}", "\u{2211}", "\u{3b1}"][..],
    ][k];
    let w = what[sx::choose(what.len())];
    let i = sx::choose(TAKING.len());
    if i == 7 {
        // Braces have another meaning there.
        sx::assume(!matches!(w, "" | "{(}" | "{" | "}"));
    }
    taken(TAKING[i], w, Some(false));
}
