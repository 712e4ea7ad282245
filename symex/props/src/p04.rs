//! Layout: between the tokens of a formula, whitespace and comments change nothing.
use crate::corpus::CORPUS;
use crate::*;

pub fn jobs(tier: u32) -> Vec<u32> {
    let n = if tier == 0 { 500 } else { CORPUS.len() };
    let c = fam::CTX.len();
    let mut v: Vec<u32> = (0..n as u32).collect();
    v.extend((0..fam::FRAGS.len() as u32).map(|k| 1000 + k + if tier > 0 { 500 } else { 0 }));
    v.extend((0..c).filter(|i| math(fam::CTX[*i].0)).map(|k| 2000 + k as u32));
    v
}

/// After these, whitespace means something, or letters are read one by one.
const STOP: &[&str] = &[
    "text", "textbf", "textit", "textrm", "textsf", "texttt", "textsc", "textmd", "textup", "textnormal", "emph", "fbox", "mbox", "hbox", "kern", "mkern",
    "hskip", "mskip", "def", "gdef", "edef", "xdef", "tag", "tag*", "label", "ref", "eqref", "raisebox", "sout", "uline", "underline", "href", "url",
    "operatorname", "operatorname*", "pmod", "hspace", "mspace", "hspace*", "color", "textcolor", "genfrac", "large", "Large", "sect",
];

/// Whether the inside of a context is math, read token by token.
fn math(pre: &str) -> bool {
    let cut = ends(pre);
    cut.last() == Some(&pre.len()) && !pre.ends_with('%') && !pre.ends_with("\\") && !pre.ends_with("\\begin") && !pre.ends_with("\\end")
        && !pre.starts_with('1')
        && !pre.starts_with("\\begin{array}{")
        && !pre.ends_with("\\begin{")
}

/// The offsets between the tokens of a formula, up to where whitespace begins to matter.
pub fn ends(s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    let (mut v, mut i) = (vec![0], 0);
    while i < b.len() {
        let c = b[i];
        if c == b'\\' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphabetic() {
                j += 1;
            }
            if j < b.len() && b[j] == b'*' {
                j += 1;
            }
            if j == i + 1 {
                j += s[j..].chars().next().map_or(0, char::len_utf8);
            }
            let name = &s[i + 1..j];
            if STOP.contains(&name) {
                return v;
            }
            if name == "begin" || name == "end" {
                while j < b.len() && b[j] != b'}' {
                    j += 1;
                }
                if j >= b.len() {
                    return v;
                }
                j += 1;
                if s[i..j].contains("array") && name == "begin" {
                    return v;
                }
            }
            i = j;
        } else if c == b'%' {
            return v;
        } else if c == b'#' {
            i += 2;
            if !s.is_char_boundary(i.min(s.len())) || i > s.len() {
                return v;
            }
        } else {
            i += s[i..].chars().next().map_or(1, char::len_utf8);
        }
        // Primes belong together, and with the superscript after them.
        let prime = c == b'\'' || s[..i].ends_with("prime") || s[..i].ends_with('′') || s[..i].ends_with('‵') || s[..i].ends_with('″');
        // `{}` is an empty argument, which stands for an empty group; a blank one stands for nothing.
        if s[..i].ends_with('{') && s[i..].starts_with('}') {
            continue;
        }
        if !prime && v.last() != Some(&i) {
            v.push(i);
        }
    }
    v
}

/// Whether this ends in the name of a command, which a letter would extend.
fn word(s: &str) -> bool {
    match s.rfind('\\') {
        Some(i) => s.len() > i + 1 && s.as_bytes()[i + 1..].iter().all(u8::is_ascii_alphabetic),
        None => false,
    }
}

/// Whitespace or a comment.
fn gap(b: &mut Buf) {
    let w = sx::byte();
    sx::assume((w == b' ') | (w == b'\t') | (w == b'\n') | (w == b'\r') | (w == 0x0c) | (w == b'%'));
    b.b(w);
    if w == b'%' {
        let c = sx::ascii();
        b.b(c);
        if c != b'\n' {
            b.s("\n");
        }
    }
}

fn same(a: &str, b: &str) {
    let c = std();
    sx::show(b);
    let (x, y) = (conv(&c, a, false), conv(&c, b, false));
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            sx::note(x);
            sx::check(x == y, "whitespace or a comment between tokens changes the result");
            sx::cover(1);
        }
        (Err(x), Err(y)) => {
            sx::note(&x.error_message());
            sx::check(x.error_message() == y.error_message(), "whitespace or a comment between tokens changes the error");
            sx::cover(2);
        }
        _ => sx::fail("whitespace or a comment between tokens decides whether the formula converts"),
    }
}

pub fn run(k: u32) {
    let k = k as usize;
    if k < 1000 {
        let s = CORPUS[k];
        let at = ends(s);
        let at = at[sx::choose(at.len())];
        let mut b = Buf::of(&s[..at]);
        gap(&mut b);
        b.s(&s[at..]);
        same(s, b.as_str());
    } else if k < 2000 {
        let (f, n) = if k < 1500 { (k - 1000, 1) } else { (k - 1500, 2) };
        let (mut a, mut b) = (Buf::of(fam::FRAGS[f]), Buf::of(fam::FRAGS[f]));
        let mut last = fam::FRAGS[f];
        for _ in 0..n {
            let g = sx::pick(fam::FRAGS);
            sx::assume(!(last == "{" && g == "}"));
            sx::assume(last != "%\n" && !(last == "'" && (g == "'" || g == "^")));
            gap(&mut b);
            if word(last) && (g.as_bytes()[0].is_ascii_alphabetic()) {
                a.s(" ");
            }
            a.s(g);
            b.s(g);
            last = g;
        }
        same(a.as_str(), b.as_str());
    } else {
        let (p, q) = fam::CTX[k - 2000];
        let c = sx::ascii();
        if p.ends_with('{') {
            sx::assume(c != b'}');
        }
        sx::assume((c != b'\\') & (c != b'%') & (c != b'#') & (c != b'\'') & !c.is_ascii_whitespace());
        let (mut a, mut b) = (Buf::of(p), Buf::of(p));
        if word(p) && (c.is_ascii_alphabetic() || c == b'*') {
            a.s(" ");
        }
        a.b(c).s(q);
        gap(&mut b);
        b.b(c);
        gap(&mut b);
        b.s(q);
        same(a.as_str(), b.as_str());
    }
}
