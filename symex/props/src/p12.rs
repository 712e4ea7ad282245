//! Spacing: between neighbouring atoms stands the space of TeX's table, and none at the edges of a list.
use crate::*;
use xml::El;

const ORD: usize = 0;
const OP: usize = 1;
const BIN: usize = 2;
const REL: usize = 3;
const OPEN: usize = 4;
const CLOSE: usize = 5;
const PUNCT: usize = 6;
const INNER: usize = 7;
/// Before a list: the code takes an ordinary atom to be there, TeX takes nothing; only what is the same for both is required.
const ANY: usize = 8;

/// The TeXbook, page 170: spaces in mu; a negative one is not used in script styles. 99: impossible.
const TABLE: [[i32; 8]; 8] = [
    [0, 3, -4, -5, 0, 0, 0, -3],
    [3, 3, 99, -5, 0, 0, 0, -3],
    [-4, -4, 99, 99, -4, 99, 99, -4],
    [-5, -5, 99, 0, -5, 0, 0, -5],
    [0, 0, 99, 0, 0, 0, 0, 0],
    [0, 3, -4, -5, 0, 0, 0, -3],
    [-3, -3, 99, -3, -3, -3, -3, -3],
    [-3, 3, -4, -5, -3, 0, -3, -3],
];

/// The atoms which are not single characters: text, class, elements it becomes.
const ATOMS: &[(&str, usize, usize)] = &[
    ("\\sum ", OP, 1),
    ("\\log ", OP, 1),
    ("\\ldots ", INNER, 3),
    ("\\cdots ", INNER, 1),
    ("\\times ", BIN, 1),
    ("\\mathop{=}", OP, 1),
    ("\\mathbin{=}", BIN, 1),
    ("\\mathinner{=}", INNER, 1),
    ("\\mathrel{+}", REL, 1),
    ("\\mathord{=}", ORD, 1),
    ("\\mathpunct{=}", PUNCT, 1),
    ("\\mathopen{=}", OPEN, 1),
    ("\\mathclose{=}", CLOSE, 1),
    ("\\lim ", OP, 1),
    ("\\int ", OP, 1),
    ("\\gcd ", OP, 1),
    ("\\operatorname{ab}", OP, 1),
    ("\\operatorname*{ab}_2", OP, 1),
    ("\\log_2", OP, 1),
    ("\\sum_i^2", OP, 1),
    ("\\lim_x", OP, 1),
    ("\\mathop{y}", OP, 1),
    ("\\mathclose{y}", CLOSE, 1),
    ("\\mathopen{y}", OPEN, 1),
    ("\\mathrel{y}", REL, 1),
    ("\\mathbin{y}", BIN, 1),
    ("\\to ", REL, 1),
    ("\\le ", REL, 1),
    ("\\in ", REL, 1),
    ("\\mid ", REL, 1),
    ("\\not=", REL, 1),
    ("\\pm ", BIN, 1),
    ("\\cdot ", BIN, 1),
    ("\\circ ", BIN, 1),
    ("\\frac12", ORD, 1),
    ("\\sqrt x", ORD, 1),
    ("\\hat x", ORD, 1),
    ("x^2", ORD, 1),
    (")^2", CLOSE, 1),
    ("\\infty ", ORD, 1),
    ("\\partial ", ORD, 1),
    ("\\mathbf{x}", ORD, 1),
    ("\\text{a}", ORD, 1),
    ("\\{", OPEN, 1),
    ("\\}", CLOSE, 1),
    ("\\bigl(", OPEN, 1),
    ("\\bigr)", CLOSE, 1),
    ("\\bigm|", REL, 1),
    ("\\big|", ORD, 1),
];
/// Those used at the first two places in the quick check.
const FIRST: usize = 13;

/// `a…b` around the list, where it ends up below `math`, whether its style is a script style, the class before
/// it (4: none), and what kind of place.
struct Place(&'static str, &'static str, &'static [usize], bool, usize);
const PLACES: &[Place] = &[
    Place("", "", &[], false, OPEN),
    Place("{\\scriptstyle ", "}", &[0], true, OPEN),
    Place("{", "}", &[0], false, OPEN),
    Place("\\dfrac{", "}y", &[0, 0], false, OPEN),
    Place("\\tfrac{", "}y", &[0, 0], true, OPEN),
    Place("\\tfrac y{", "}", &[0, 1], true, OPEN),
    Place("\\sqrt{", "}", &[0, 0], false, OPEN),
    Place("y^{", "}", &[0, 1], true, OPEN),
    Place("y_{", "}", &[0, 1], true, OPEN),
    Place("\\begin{matrix}", "&y\\end{matrix}", &[0, 0, 0], false, OPEN),
    Place("\\begin{matrix}y&", "\\\\y\\end{matrix}", &[0, 0, 1], false, ANY),
    Place("\\begin{matrix}y=&z+\\\\", "\\end{matrix}", &[0, 1, 0], false, OPEN),
    Place("\\begin{cases}y=&", "\\end{cases}", &[0, 1, 0, 1], false, ANY),
    Place("\\begin{aligned}", "&y\\end{aligned}", &[0, 0, 0], false, OPEN),
    Place("\\begin{aligned}y&", "\\end{aligned}", &[0, 0, 1], false, ORD),
    Place("\\begin{align*}y&=\\\\z&", "\\end{align*}", &[0, 1, 2], false, ORD),
    Place("\\begin{aligned}y&x=&", "\\end{aligned}", &[0, 0, 2], false, ANY),
    Place("\\left[{", "}\\right]", &[0, 1], false, OPEN),
    Place("\\underset{", "}{x}", &[0, 1], true, OPEN),
    Place("\\overline{", "}", &[0, 0], false, OPEN),
    Place("\\displaystyle ", "", &[0], false, OPEN),
    Place("y^2{\\textstyle ", "}", &[1], false, OPEN),
    Place("{\\scriptscriptstyle ", "}", &[0], true, OPEN),
    Place("\\boxed{", "}", &[0, 0], false, OPEN),
    Place("\\newcommand\\q[1]{#1}\\q{", "}", &[], false, OPEN),
    Place("\\newcommand\\q[1]{{#1}}\\q{", "}", &[0], false, OPEN),
    Place("\\color{red} ", "", &[0], false, OPEN),
    Place("\\overset2=z{", "}", &[2], false, OPEN),
    Place("\\underset z{\\overset2+}\\overset2\\cdots {", "}", &[2], false, OPEN),
];

/// What stands between neighbours and is no atom, with the space it adds.
const BETWEEN: &[(&str, i32)] = &[("", 0), (" ", 0), ("%=\n", 0), ("\\,", 3), ("\\;", 5), ("\\!", -3), ("\\q ", 0), ("\\quad ", 18), ("\\hspace{1em}", 18),
    ("\\kern1em ", 18),
    ("\\mspace{-9mu}", -9),
    ("\\mskip 3mu ", 3),
];

const NP: usize = PLACES.len();
const NA: usize = ATOMS.len();

// Jobs: a place with three arbitrary characters; then pairs of atoms in one of the two styles, a character on one side or
// the other; then what stands between.
fn pairs(deep: bool) -> u32 {
    let n = if deep { NA } else { FIRST };
    (n * n) as u32
}
fn count(deep: bool) -> u32 {
    (NP * (NA + 1)) as u32 + pairs(deep) + (BETWEEN.len() * (NA + 1)) as u32
}
pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..count(tier != 0)).map(|k| k + t).collect()
}

struct Seq {
    tex: Buf,
    class: Vec<usize>,
    nodes: Vec<usize>,
    /// Explicit space after each.
    extra: Vec<i32>,
}
/// The class of a character, for the characters of the alphabet.
fn class_of(c: u8) -> usize {
    match c {
        b'+' | b'-' | b'*' => BIN,
        b'=' | b'<' | b'>' | b':' => REL,
        b',' | b';' => PUNCT,
        b'(' | b'[' => OPEN,
        b')' | b']' | b'!' => CLOSE,
        _ => ORD,
    }
}
impl Seq {
    fn ch(&mut self) {
        let c = sx::byte();
        let letter = (c | 32).wrapping_sub(b'a') < 26;
        let mark = matches!(c, b'+' | b'-' | b'*' | b'=' | b'<' | b'>' | b':' | b',' | b';' | b'(' | b'[' | b')' | b']' | b'!' | b'/' | b'|');
        sx::assume(letter | mark);
        self.tex.b(c);
        self.put(class_of(c), 1);
    }
    fn put(&mut self, class: usize, n: usize) {
        self.class.push(class);
        self.nodes.push(n);
        self.extra.push(0);
    }
    fn atom(&mut self, i: usize) {
        if i == NA {
            return self.ch();
        }
        let a = ATOMS[i];
        self.tex.s(a.0);
        self.put(a.1, a.2);
    }
}

/// The spaces TeX puts between the atoms, with the class before the list.
fn expected(class: &[usize], script: bool, before: usize) -> Vec<i32> {
    let before = if before == ANY { ORD } else { before };
    let mut c: Vec<usize> = Vec::new();
    let mut prev = before;
    for (i, &k) in class.iter().enumerate() {
        let next = class.get(i + 1).copied().unwrap_or(CLOSE);
        let lone = matches!(prev, BIN | OP | REL | OPEN | PUNCT) || matches!(next, REL | PUNCT | CLOSE);
        prev = if k == BIN && lone { ORD } else { k };
        c.push(prev);
    }
    let mut out = Vec::new();
    let mut prev = before;
    for &k in &c {
        let e = TABLE[prev][k];
        out.push(if e < 0 { if script { 0 } else { -e } } else { e });
        prev = k;
    }
    out
}

/// A length in em, as mu.
fn mu(s: &str) -> i32 {
    let s = s.strip_suffix("em").unwrap_or(s);
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (whole, part) = s.split_once('.').unwrap_or((s, ""));
    let mut v = 0i32;
    for c in whole.bytes() {
        v = v * 10 + (c - b'0') as i32;
    }
    for i in 0..4 {
        v = v * 10 + part.as_bytes().get(i).map_or(0, |c| (*c - b'0') as i32);
    }
    v = (v * 18 + 5000) / 10000;
    if neg { -v } else { v }
}

/// The space around an operator by MathML's operator dictionary; form 0 is infix, 1 prefix, 2 postfix.
fn dictionary(text: &str, form: usize, explicit: bool) -> (i32, i32) {
    // A negated operator is in the dictionary as the operator.
    let text = match text.strip_suffix(['\u{338}', '\u{20d2}']) {
        Some(t) if t.chars().count() == 1 || t.starts_with('&') => t,
        _ => text,
    };
    if text == "," || text == ";" {
        return (0, 3);
    }
    let pair = match text.chars().next() {
        Some('\u{2016}') => 3,
        // Opening and closing delimiters alternate.
        Some(c @ ('\u{2308}'..='\u{230b}' | '\u{27e6}'..='\u{27ef}' | '\u{29fc}' | '\u{29fd}')) => 1 + (c as usize & 1),
        Some(c @ '\u{2983}'..='\u{2998}') => 2 - (c as usize & 1),
        _ => 0,
    };
    if pair != 0 && (!explicit || pair & form != 0) {
        return (0, 0);
    }
    let order = match form {
        0 => [0, 2, 1],
        1 => [1, 0, 2],
        _ => [2, 0, 1],
    };
    // A form which is given stands.
    for f in order.into_iter().take(if explicit { 1 } else { 3 }) {
        let d = match (f, text) {
            (0, "+" | "-" | "\u{2212}" | "\u{b1}") => 4,
            (0, "=" | "&lt;" | "&gt;" | "<" | ">" | ":" | "|" | "\u{2192}" | "\u{2208}" | "\u{2264}" | "\u{2260}" | "\u{2223}") => 5,
            (0, "*" | "\u{2217}" | "\u{d7}") => 3,
            (0, "\u{22c5}" | "\u{2218}") => 4,
            (0, "/" | "\\") => 0,
            (1, "+" | "-" | "\u{2212}" | "\u{b1}" | "(" | "[" | "{" | "|") => 0,
            (1, "\u{2211}" | "\u{222b}") => 3,
            (2, ")" | "]" | "}" | "!" | "|") => 0,
            (1 | 2, ".") => 0,
            (0, ".") => 3,
            _ => continue,
        };
        return (d, d);
    }
    (5, 5)
}

/// The operator whose properties an element takes on.
fn core<'e>(e: &'e El<'e>) -> Option<&'e El<'e>> {
    match e.tag {
        "mo" => Some(e),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" => e.el(0).and_then(core),
        "mrow" | "mpadded" if !padded(e) => {
            let mut k = e.els().filter(|k| k.tag != "mspace");
            match (k.next(), k.next()) {
                (Some(k), None) => core(k),
                _ => None,
            }
        }
        _ => None,
    }
}
fn padded(e: &El) -> bool {
    e.tag == "mpadded" && e.attr("style").is_some()
}
fn around(e: &El, form: usize) -> (i32, i32) {
    if padded(e) {
        let mut l = (0, 0);
        for p in e.attr("style").unwrap_or("").split(';') {
            match p.split_once(':') {
                Some(("padding-left", v)) => l.0 = mu(v.trim()),
                Some(("padding-right", v)) => l.1 = mu(v.trim()),
                _ => {}
            }
        }
        return l;
    }
    let Some(o) = core(e) else { return (0, 0) };
    let form = match o.attr("form") {
        Some("infix") => 0,
        Some("prefix") => 1,
        Some("postfix") => 2,
        _ => form,
    };
    let d = dictionary(o.text(), form, o.attr("form").is_some());
    (o.attr("lspace").map_or(d.0, mu), o.attr("rspace").map_or(d.1, mu))
}
/// For every element which is not itself a space: the space before it and the space after it.
pub fn spaces(kids: &[&El]) -> Vec<(i32, i32)> {
    let mut out: Vec<(i32, i32)> = Vec::new();
    let real = kids.iter().filter(|k| k.tag != "mspace").count();
    let mut i = 0;
    for k in kids {
        if k.tag == "mspace" {
            if let Some(l) = out.last_mut() {
                l.1 += k.attr("width").map_or(0, mu);
                l.1 += k.attr("style").and_then(|s| s.strip_prefix("margin-left:")).map_or(0, |s| mu(s.trim_end_matches(';')));
            }
            continue;
        }
        let form = if real < 2 {
            0
        } else if i == 0 {
            1
        } else if i + 1 == real {
            2
        } else {
            0
        };
        i += 1;
        out.push(around(k, form));
    }
    out
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let mut s = Seq { tex: Buf::new(), class: Vec::new(), nodes: Vec::new(), extra: Vec::new() };
    let np = pairs(deep) as usize;
    let (mut place, mut late) = (0, false);
    if k < np {
        // Two atoms after, around or before a character, in a list of one of two styles.
        let n = if deep { NA } else { FIRST };
        place = [0, 1, 22][sx::choose(3)];
        s.tex.s(PLACES[place].0);
        let at = sx::choose(3);
        if at == 0 {
            s.ch();
        }
        s.atom(k / n);
        if at == 1 {
            s.ch();
        }
        s.atom(k % n);
        if at == 2 {
            s.ch();
        }
    } else if k < np + NP * (NA + 1) {
        let k = k - np;
        place = k % NP;
        s.tex.s(PLACES[place].0);
        let a = k / NP;
        if a == NA {
            // Characters alone; one of them only must leave no trace of the neighbours either.
            for _ in 0..1 + sx::choose(if deep { 4 } else { 3 }) {
                s.ch();
            }
        } else if sx::choose(2) == 0 {
            s.ch();
            s.atom(a);
        } else {
            s.atom(a);
            s.ch();
        }
    } else {
        let k = k - np - NP * (NA + 1);
        let b = BETWEEN[k % BETWEEN.len()];
        let a = k / BETWEEN.len();
        // The atom itself from a macro.
        let mac = b.0 == "\\q ";
        if mac {
            s.tex.s("\\newcommand\\q{");
            s.atom(a);
            s.tex.s("}");
            let c = (s.class.remove(0), s.nodes.remove(0), s.extra.remove(0));
            s.ch();
            s.tex.s("\\q ");
            s.put(c.0, c.1);
        } else {
            s.ch();
            s.tex.s(b.0);
            s.extra[0] = b.1;
            s.atom(a);
            // What follows a length is not seen from before it.
            let length = b.0.contains("sp") || b.0.contains("k");
            late = b.0.contains("hspace") && sx::choose(2) == 1;
            if length && !late {
                sx::assume(!matches!(s.class[1], REL | CLOSE | PUNCT));
            } else {
                s.tex.s(b.0);
                s.extra[1] = b.1;
            }
        }
        s.ch();
    }
    let p = &PLACES[place];
    s.tex.s(p.1);
    // An ellipsis directly before a binary operator which turns out to be none: the space is left out here.
    let n = s.class.len();
    for i in 0..n {
        let next = s.class.get(i + 2).copied().unwrap_or(CLOSE);
        sx::assume(!(s.class[i] == INNER && s.class.get(i + 1) == Some(&BIN) && matches!(next, REL | PUNCT | CLOSE)));
    }
    // A binary operator after an ampersand: prefix form for a browser, although the code takes it to be infix.
    sx::assume(!(matches!(p.4, ORD | ANY) && matches!(s.class[0], BIN | INNER)));
    // A list of one element is that element itself, with the space of an operator that stands alone.
    let one = s.nodes.iter().sum::<usize>() == 1;
    sx::assume(!one || p.2.is_empty() || matches!(p.0.as_bytes()[0], b'\\') && p.0.contains("begin"));
    sx::show(s.tex.as_str());
    sx::show(s.tex.as_str());
    let c = std();
    let out = match conv(&c, s.tex.as_str(), false) {
        Ok(o) => o,
        Err(_) => return sx::fail("a list of atoms is rejected"),
    };
    sx::note(&out);
    let root = match xml::parse(&out) {
        Ok(r) => r,
        Err(_) => return sx::fail("the result is not well-formed"),
    };
    let mut e = &root;
    for &i in p.2 {
        match e.el(i) {
            Some(x) => e = x,
            None => return sx::fail("the list of atoms is not where it belongs"),
        }
    }
    let kids: Vec<&El> = e.els().collect();
    let got = spaces(&kids);
    if got.len() != s.nodes.iter().sum::<usize>() {
        return sx::fail("atoms are missing from the list, or there are more than written");
    }
    let want = expected(&s.class, p.3, p.4);
    let mut at = 0;
    let mut prev = 0;
    let mut twice = false;
    for i in 0..n {
        let extra = if i > 0 { s.extra[i - 1] } else { 0 };
        let gap = prev + got[at].0 - extra;
        if i > 0 && s.class[i - 1] == INNER && s.class[i] == INNER && gap == 6 && want[i] == 3 {
            // A known finding, kept apart so that everything else is still seen.
            twice = true;
        } else if gap != want[i] && !(i == 0 && p.4 == ANY) {
            return sx::fail(if late {
                "an atom does not count for those before a length in front of it"
            } else if i == 0 {
                "the space before a list of atoms is not the one TeX puts there"
            } else {
                "the space between two atoms is not the one TeX puts there"
            });
        }
        at += s.nodes[i];
        prev = got[at - 1].1;
    }
    sx::check(prev == 0, "there is space after the last atom of a list");
    if twice {
        return sx::fail("two inner atoms are apart by twice the space");
    }
    sx::cover(1);
    if p.3 {
        sx::cover(2);
    }
}
