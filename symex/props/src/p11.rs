//! The command-line tool: a document is its text with every delimited formula replaced by its conversion, against a
//! reference scanner which knows nothing of search windows.
use crate::*;
use vcli::door::{self, Delims};

const N: usize = SETS.len();
const SETS: [(Delims, &[u8]); 9] = [
    (Delims { inline: ("$", "$"), block: ("$$", "$$") }, b""),
    (Delims { inline: ("\\(", "\\)"), block: ("\\[", "\\]") }, b"\\()[]a\n"),
    (Delims { inline: ("$", "$"), block: ("\\[", "\\]") }, b"$\\[]a\n"),
    (Delims { inline: ("<m>", "</m>"), block: ("<M>", "</m>") }, b""),
    (Delims { inline: ("a", "b"), block: ("aa", "ba") }, b"ab\\x\n"),
    (Delims { inline: ("$$$", "$$$"), block: ("$", "$") }, b"$\\x"),
    (Delims { inline: ("|:", ":|"), block: ("|", ":") }, b"|:\\\n"),
    // Closing delimiters which are longer than the opening ones and share their beginning, and the other way round.
    (Delims { inline: ("[", "'"), block: ("<", "''") }, b"[<'\n"),
    (Delims { inline: ("[[[", "''"), block: ("[", "'") }, b"['\\"),
];

fn matches(s: &[u8], p: usize, d: &str) -> bool {
    let d = d.as_bytes();
    if p + d.len() > s.len() {
        return false;
    }
    let mut i = 0;
    while i < d.len() {
        if s[p + i] != d[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// The first occurrence of `d` from `from` on; an escaped one is passed over as a whole.
fn first(s: &[u8], from: usize, to: usize, d: &str, escaped: bool) -> Option<usize> {
    let s = &s[..to];
    let mut p = from;
    while p < to {
        if matches(s, p, d) {
            if escaped && p > from && s[p - 1] == b'\\' {
                p += d.len();
                continue;
            }
            return Some(p);
        }
        p += 1;
    }
    None
}
/// The closer of the two delimiters, the block one if both start here.
fn next(s: &[u8], from: usize, to: usize, inline: &str, block: &str, escaped: bool) -> Option<(bool, usize)> {
    match (first(s, from, to, inline, escaped), first(s, from, to, block, escaped)) {
        (Some(i), Some(b)) => Some(if b <= i { (true, b) } else { (false, i) }),
        (Some(i), None) => Some((false, i)),
        (None, Some(b)) => Some((true, b)),
        (None, None) => None,
    }
}
fn place(out: &mut Buf, s: &[u8], at: usize, sep: &str) {
    let (mut line, mut col, mut i) = (1, 1, 0);
    while i < at {
        if s[i] == b'\n' {
            line += 1;
            col = 1;
        } else if s[i] & 0xC0 != 0x80 {
            col += 1;
        }
        i += 1;
    }
    out.s("line ").num(line).s(sep).s("column ").num(col);
}
/// The text without the five predefined entities.
fn entities(s: &[u8], out: &mut Buf) {
    let mut p = 0;
    while p < s.len() {
        if s[p] == b'&' {
            let mut q = p + 1;
            while q < s.len() && s[q] != b';' {
                q += 1;
            }
            if q < s.len() {
                let n = &s[p + 1..q];
                let r = match n.len() {
                    2 if n == b"lt" => b'<',
                    2 if n == b"gt" => b'>',
                    3 if n == b"amp" || n == b"#38" => b'&',
                    3 if n == b"#34" => b'"',
                    3 if n == b"#39" => b'\'',
                    3 if n == b"#60" => b'<',
                    3 if n == b"#62" => b'>',
                    4 if n == b"quot" => b'"',
                    4 if n == b"apos" => b'\'',
                    _ => 0,
                };
                if r != 0 {
                    out.b(r);
                } else {
                    let mut i = p;
                    while i <= q {
                        out.b(s[i]);
                        i += 1;
                    }
                }
                p = q + 1;
                continue;
            }
        }
        out.b(s[p]);
        p += 1;
    }
}
enum Formula {
    Text,
    Refused,
}
/// What becomes of a document; `f` appends what stands for a formula.
fn model(s: &[u8], d: &Delims, escaped: bool, out: &mut Buf, mut f: impl FnMut(&[u8], bool, &mut Buf) -> Formula) -> Result<(), Option<Buf>> {
    let mut p = 0;
    while p < s.len() {
        let Some((block, o)) = next(s, p, s.len(), d.inline.0, d.block.0, escaped) else {
            break;
        };
        out.0.extend_from_slice(&s[p..o]);
        let start = o + if block { d.block.0.len() } else { d.inline.0.len() };
        let mut e = Buf::new();
        let Some((closes_block, end)) = next(s, start, s.len(), d.inline.1, d.block.1, escaped) else {
            e.s("Unclosed delimiter on ");
            place(&mut e, s, o, ", ");
            e.s(".");
            return Err(Some(e));
        };
        if d.inline.1 != d.block.1 && block != closes_block {
            e.s("Mismatched delimiters: opening at ");
            place(&mut e, s, o, ", ");
            e.s(", closing at ");
            place(&mut e, s, end, ", ");
            e.s(".");
            return Err(Some(e));
        }
        if let Some((_, n)) = next(s, start, end, d.inline.0, d.block.0, escaped) {
            e.s("Nested delimiters are not allowed (on ");
            place(&mut e, s, n, ", ");
            e.s(").");
            return Err(Some(e));
        }
        let mut t = Buf::new();
        entities(&s[start..end], &mut t);
        match f(&t.0, block, out) {
            Formula::Text => {}
            Formula::Refused => return Err(None),
        }
        p = end + if closes_block { d.block.1.len() } else { d.inline.1.len() };
    }
    out.0.extend_from_slice(&s[p..]);
    Ok(())
}

fn outline(b: &Buf, d: &Delims, escaped: bool) {
    let s = b.as_str();
    sx::show(s);
    let r = door::outline(s, d, escaped);
    let mut out = Buf::new();
    let m = model(s.as_bytes(), d, escaped, &mut out, |t, block, out| {
        out.s(if block { "[2:" } else { "[1:" });
        out.0.extend_from_slice(t);
        out.s("]");
        Formula::Text
    });
    match (&r, &m) {
        (Ok(x), Ok(())) => {
            sx::note(x);
            sx::check(x.as_bytes() == &out.0[..], "the document is not its text with the formulas replaced");
            sx::cover(1);
        }
        (Err(x), Err(Some(y))) => {
            sx::note(x);
            sx::check(x.as_bytes() == &y.0[..], "a document is refused for another reason, or at another place");
            sx::cover(2);
        }
        (Ok(_), _) => sx::fail("a document with wrong delimiters is accepted"),
        _ => sx::fail("a document with proper delimiters is refused"),
    }
}

/// Arbitrary bytes, out of `alphabet` if there is one.
fn free(b: &mut Buf, n: usize, alphabet: &[u8]) {
    for _ in 0..n {
        if alphabet.is_empty() {
            b.b(sx::ascii());
        } else {
            let c = sx::byte();
            let mut known = false;
            for a in alphabet {
                known |= c == *a;
            }
            sx::assume(known);
            b.b(c);
        }
    }
}

fn whole(set: usize, escaped: bool, n: usize) {
    let (d, alphabet) = &SETS[set];
    let mut b = Buf::new();
    free(&mut b, n, alphabet);
    outline(&b, d, escaped);
}
/// Whole delimiters and bits of text, in any order.
fn pieces(set: usize, escaped: bool, n: usize) {
    let (d, _) = &SETS[set];
    let all = [d.inline.0, d.inline.1, d.block.0, d.block.1, "\\", "&lt;", "&", "\u{e9}\n", "z;"];
    let mut b = Buf::new();
    for _ in 0..n {
        b.s(all[sx::choose(all.len())]);
    }
    outline(&b, d, escaped);
}
/// The same a long way into the document, or with a long formula.
fn far(set: usize, escaped: bool, inside: bool, len: usize, n: usize) {
    let (d, alphabet) = &SETS[set];
    let mut b = Buf::new();
    if inside {
        b.s(if sx::choose(2) == 0 { d.inline.0 } else { d.block.0 });
    }
    for i in 0..len {
        b.b(if i % 100 == 99 { b'\n' } else { b'z' });
    }
    free(&mut b, n, alphabet);
    if !inside {
        b.s("z").s(d.inline.1);
    }
    outline(&b, d, escaped);
}
fn entity(shape: usize) {
    let mut b = Buf::new();
    b.s("$");
    match shape {
        0..=4 => {
            b.s("x&").ascii(shape).s(";y");
        }
        5 => {
            b.s("&am").ascii(2).s("&lt;\u{e9}");
        }
        6 => {
            b.ascii(2).s("&lt;").ascii(2).s("&gt");
        }
        7 => {
            b.s("&#").ascii(2).s(";").ascii(2);
        }
        8 => {
            b.s("&q").ascii(3).s(";&#39;");
        }
        _ => {
            b.s("&").ascii(1).s("\u{e9};&apos;").ascii(1);
        }
    }
    b.s("$ &lt; ").ascii(1).s("\u{e9}");
    outline(&b, &SETS[0].0, false);
}

const FORMULAS: [&str; 17] = [
    "x", "\\bad", "\\def\\a{y}\\a", "\\gdef\\a{z}", "\\a", "a&lt;b", "\\providecommand\\b{\\bad}\\let\\c=\\b\\gdef\\b{x}\\c", "\\newcommand\\c{1}\\bad", "\\c",
    "\\begin{equation}x\\label{l}\\end{equation}", "\\eqref{l}", "\\text{&quot;}", "x^", "}", "&amp;", "\\begin{matrix}1&amp;2\\end{matrix}", "\u{fc}\\foo{&gt;",
];
fn page() -> Buf {
    let mut b = Buf::new();
    b.s("<p>&amp;\n");
    for _ in 0..2 {
        let q = sx::pick(&["$", "$$"]);
        b.s(q);
        b.s(FORMULAS[sx::choose(FORMULAS.len())]);
        b.s(q);
        b.s(sx::pick(&["", "&lt;\u{e9}"]));
    }
    b
}
/// With real conversions: one converter for all formulas, each converted once.
fn real(variant: usize) {
    let go_on = variant & 1 == 1;
    let config = || MathCoreConfig { global_group: variant & 2 == 2, ignore_unknown_commands: variant & 4 == 4, ..Default::default() };
    let mut b = if variant & 8 == 8 { Buf::of("$x$") } else { page() };
    if variant & 8 == 8 {
        b.s("$\\a ").ascii(1).s("&amp;$\n$$").ascii(1).s("_").ascii(1).s("$$");
    }
    let s = b.as_str();
    sx::show(s);
    let d = &SETS[0].0;
    let mut c = new(config());
    let r = door::convert(s, d, &mut c, go_on);
    let mut c = new(config());
    let mut out = Buf::new();
    let mut why = String::new();
    let m = model(s.as_bytes(), d, false, &mut out, |t, block, out| {
        let t = unsafe { core::str::from_utf8_unchecked(t) };
        let display = if block { MathDisplay::Block } else { MathDisplay::Inline };
        match c.convert_with_global_state(t, display) {
            Ok(r) => out.s(&r.mathml),
            Err(e) if go_on => out.s(&e.to_html(t, display, None)),
            Err(e) => {
                why = e.error_message();
                return Formula::Refused;
            }
        };
        Formula::Text
    });
    match (&r, &m) {
        (Ok(x), Ok(())) => {
            sx::note(x);
            sx::check(x.as_bytes() == &out.0[..], "the document is not its text with the conversions of its formulas");
            sx::cover(3);
        }
        (Err(x), Err(None)) => {
            sx::note(x);
            sx::check(p05::find(x, &why).is_some(), "the report of a wrong formula does not say what is wrong");
            sx::cover(4);
        }
        (Err(x), Err(Some(y))) => {
            sx::note(x);
            sx::check(x.as_bytes() == &y.0[..], "a document is refused for another reason, or at another place");
        }
        (Ok(_), _) => sx::fail("a document with a wrong formula is accepted"),
        _ => sx::fail("a document is refused although its formulas are right"),
    }
}

pub fn run(k: u32) {
    let tier = k / 500_000;
    let k = (k % 500_000) as usize;
    let (set, escaped) = (k % N, k / N % 2 == 1);
    match k / 1000 {
        0 => whole(set, escaped, if SETS[set].1.is_empty() { 6 } else { 5 } + tier as usize),
        1 => pieces(set, escaped, if tier == 0 { 4 } else { 5 }),
        2..=9 => far(set, escaped, false, 1014 + k / (2 * N) % 12, 4),
        10..=19 => far(set, escaped, true, 1014 + k / (2 * N) % 12, 4),
        20 => entity(k % 1000),
        _ => real(k % 1000),
    }
}
pub fn jobs(tier: u32) -> Vec<u32> {
    let mut v = Vec::new();
    let mut add = |k: u32| v.push(tier * 500_000 + k);
    let n = 2 * N as u32;
    // A number of this family which is `a` modulo `m`.
    let at = |family: u32, a: u32, m: u32| family * 1000 + (a + m - family * 1000 % m) % m;
    for a in 0..n {
        for family in [0u32, 1] {
            add(at(family, a, n));
        }
        for family in [2u32, 10] {
            for len in 0..12 {
                if tier > 0 || len >= 6 {
                    add(at(family, a + n * len, 12 * n));
                }
            }
        }
    }
    for i in 0..10 {
        add(20_000 + i);
    }
    for i in 0..16 {
        add(21_000 + i);
    }
    v
}
