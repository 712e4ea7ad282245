//! Negation: a symbol after \not is the symbol struck through, in the place and with the space of the symbol.
use crate::*;
use xml::El;

/// Characters and their negations, from Unicode's data.
#[rustfmt::skip]
const NEGATED: &[(u32, u32)] = &[
    (0x2190, 0x219a), (0x2192, 0x219b), (0x2194, 0x21ae), (0x21d0, 0x21cd), (0x21d4, 0x21ce), (0x21d2, 0x21cf), (0x2203, 0x2204), (0x2208, 0x2209), (0x220b, 0x220c), (0x2223, 0x2224), (0x2225, 0x2226), (0x223c, 0x2241),
    (0x2243, 0x2244), (0x2245, 0x2247), (0x2248, 0x2249), (0x3d, 0x2260), (0x2261, 0x2262), (0x224d, 0x226d), (0x3c, 0x226e), (0x3e, 0x226f), (0x2264, 0x2270), (0x2265, 0x2271), (0x2272, 0x2274), (0x2273, 0x2275),
    (0x2276, 0x2278), (0x2277, 0x2279), (0x227a, 0x2280), (0x227b, 0x2281), (0x2282, 0x2284), (0x2283, 0x2285), (0x2286, 0x2288), (0x2287, 0x2289), (0x22a2, 0x22ac), (0x22a8, 0x22ad), (0x22a9, 0x22ae), (0x22ab, 0x22af),
    (0x227c, 0x22e0), (0x227d, 0x22e1), (0x2291, 0x22e2), (0x2292, 0x22e3), (0x22b2, 0x22ea), (0x22b3, 0x22eb), (0x22b4, 0x22ec), (0x22b5, 0x22ed), (0x2add, 0x2adc),
];
/// How it is written, what is before and after the symbol, and the character which strikes it.
const WAYS: &[(&str, &str, char)] = &[
    ("\\not", "", '\u{338}'), ("\\not ", "", '\u{338}'), ("\\not{", "}", '\u{338}'), ("\\not%x\n", "", '\u{338}'), ("\\slashed{", "}", '\u{338}'), ("\\vertoverlay", "", '\u{20d2}'), ("\\vertoverlay{", "}", '\u{20d2}'),
    ("\\newcommand\\Zf[1]{\\not#1}\\Zf{", "}", '\u{338}'), ("\\newcommand\\Zf{\\not}\\Zf ", "", '\u{338}'),
];
const CHUNK: usize = 16;
const CHARS: &[char] = &['\u{2208}', '\u{2261}', '\u{2264}', '\u{227a}', '\u{2282}', '\u{22b2}', '\u{2203}', '\u{2192}', '\u{21d2}', '\u{2223}', '\u{2286}', '\u{2a7d}', '\u{3b1}', '\u{e9}', '\u{2295}', '\u{221e}', '\u{2248}', '\u{223c}', '\u{211d}', '\u{2a00}', '\u{2248}', '\u{22c4}'];

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(symbols::NAMES.len().div_ceil(CHUNK) + 2) as u32).map(|k| k + t).collect()
}

/// The elements of a list, without rows which are nothing of their own.
fn flat<'s, 'a>(e: &'s El<'a>, out: &mut Vec<&'s El<'a>>) {
    for k in e.els() {
        if k.tag == "mrow" && k.attrs.is_empty() {
            flat(k, out);
        } else if !(k.tag == "mspace" && k.attrs.is_empty()) {
            out.push(k);
        }
    }
}
/// The characters of an operator or letter, with the negation taken apart; without selectors of a variant.
fn apart(e: &El) -> Vec<char> {
    let mut v = Vec::new();
    for c in xml::unescape(e.text()).chars() {
        match NEGATED.iter().find(|n| n.1 == c as u32) {
            Some(n) => v.extend([char::from_u32(n.0).unwrap(), '\u{338}']),
            None if ('\u{fe00}'..='\u{fe0f}').contains(&c) => {}
            None => v.push(c),
        }
    }
    v
}

/// The symbol written so, alone and negated.
fn negated(symbol: &str, way: usize, must: bool) {
    let (x, y) = (sx::letter(), sx::letter());
    let c = std();
    let (before, after, with) = WAYS[way];
    let mut s = Buf::new();
    s.b(x).s(symbol).b(b' ').b(y);
    let mut n = Buf::new();
    n.b(x).s(before).s(symbol).s(after).b(b' ').b(y);
    sx::show(n.as_str());
    let (Ok(plain), Ok(o)) = (conv(&c, s.as_str(), false), conv(&c, n.as_str(), false)) else {
        if must && conv(&c, s.as_str(), false).is_ok() {
            sx::fail("a symbol is not negated");
        }
        return sx::cover(1);
    };
    sx::note(&o);
    let (Ok(a), Ok(b)) = (xml::parse(&plain), xml::parse(&o)) else { return sx::fail("the result is not well-formed") };
    let (mut ka, mut kb) = (Vec::new(), Vec::new());
    flat(&a, &mut ka);
    flat(&b, &mut kb);
    if ka.len() != 3 {
        // No symbol, but several.
        return sx::cover(1);
    }
    sx::check(kb.len() == 3 && kb[0].text() == ka[0].text() && kb[2].text() == ka[2].text(), "a negated symbol is not one symbol between those around it");
    let mut want = apart(ka[1]);
    if want.len() > 1 && want.last() != Some(&'\u{338}') || want.is_empty() {
        return sx::cover(1);
    }
    if with == '\u{338}' && want.len() == 2 {
        // It is negated already.
        return sx::cover(1);
    }
    want.push(with);
    sx::check(apart(kb[1]) == want, "a negated symbol is not the symbol struck through");
    sx::check(ka[1].tag == kb[1].tag, "the negation of an operator is none, or of a letter is one");
    // It is drawn as the symbol is; whether and how a precomposed one stretches is its own.
    let single = xml::unescape(kb[1].text()).chars().count() == 1;
    for a in ["mathvariant", "stretchy", "form", "largeop", "movablelimits", "symmetric", "minsize", "maxsize", "style", "class"] {
        if !(single && matches!(a, "stretchy" | "form")) {
            sx::check(ka[1].attr(a) == kb[1].attr(a), "a negated symbol is not drawn as the symbol");
        }
    }
    // Unicode has it as one character.
    let t = xml::unescape(kb[1].text());
    if with == '\u{338}' && t.chars().count() == 2 {
        let c = t.chars().next().unwrap();
        sx::check(!NEGATED.iter().any(|n| n.0 == c as u32), "a negated symbol is shown as two characters although there is one for it");
    }
    // In braces, what is given is ordinary.
    if matches!(way, 2 | 4 | 6) {
        return sx::cover(2);
    }
    let (sa, sb) = (p12::spaces(&ka), p12::spaces(&kb));
    sx::check(sa == sb, "a negated symbol is not spaced as the symbol");
    sx::cover(2);
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let n = symbols::NAMES.len().div_ceil(CHUNK);
    let way = sx::choose(WAYS.len());
    if k < n {
        let i = k * CHUNK + sx::choose(CHUNK);
        if i >= symbols::NAMES.len() || !deep && way > 1 && i % WAYS.len() != way {
            return sx::cover(1);
        }
        let (name, _, class) = symbols::NAMES[i];
        let mut s = Buf::of("\\");
        s.s(name);
        return negated(s.as_str(), way, class == b'r');
    }
    if k == n {
        let c = sx::byte();
        sx::assume((c > b' ') & (c < 0x7f));
        sx::assume((c != b'\\') & (c != b'{') & (c != b'}') & (c != b'%') & (c != b'#') & (c != b'&') & (c != b'~') & (c != b'$') & (c != b'^') & (c != b'_') & (c != b'\''));
        let mut s = Buf::new();
        s.b(c);
        // A letter would be part of the command's name.
        sx::assume(!before_ends(way) | !c.is_ascii_alphabetic());
        return negated(s.as_str(), way, matches!(c, b'=' | b'<' | b'>' | b':'));
    }
    let mut s = Buf::new();
    s.c(sx::pick(CHARS));
    negated(s.as_str(), way, false);
}
fn before_ends(way: usize) -> bool {
    WAYS[way].0.as_bytes().last().is_some_and(|c| c.is_ascii_alphabetic())
}
