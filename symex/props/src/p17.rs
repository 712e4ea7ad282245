//! Lengths: a length is as long as TeX's unit times its number, wherever it is written, and what is no length is refused.
use crate::*;
use xml::El;

/// Name, in the unit of the output, factor, of mathematics.
const UNITS: &[(&[u8; 2], &str, f64, bool)] = &[
    (b"pt", "rem", 0.1, false),
    (b"mm", "rem", 0.284527, false),
    (b"cm", "rem", 2.84527, false),
    (b"in", "rem", 7.227, false),
    (b"sp", "rem", 0.1 / 65536.0, false),
    (b"ex", "ex", 1.0, false),
    (b"em", "em", 1.0, false),
    (b"mu", "em", 1.0 / 18.0, true),
];
/// Before and after the length; is it one of mathematics only (0: no, 1: yes, 2: both); is it written without braces.
const PLACES: &[(&str, &str, u8, bool)] = &[
    ("x\\kern ", " y", 0, true),
    ("x\\hskip ", " y", 0, true),
    ("x\\mkern ", " y", 1, true),
    ("x\\mskip ", " y", 1, true),
    ("x\\hspace{", "}y", 0, false),
    ("x\\mspace{", "}y", 1, false),
    ("x\\raisebox{", "}{b}y", 0, false),
    ("\\text{a\\raisebox{", "}{b}c}", 0, false),
    ("\\genfrac(]{", "}0xy", 2, false),
    ("x\\genfrac{}{}{", "}{}{a}{b}", 2, false),
];
/// Shapes of numbers: d a digit, everything else as it is.
const NUMBERS: &[&str] = &["d", "dd", "-d.d", "d.dd", ".dd", "-0.0d", "dd.", "+d", "d,d", "000d", "1234567d", "0.00000d", "+.d", "-d", "184467440737095516d5", "99999999999999999999d", "+d,d"];


pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    let n = PLACES.len() * (NUMBERS.len() + 4) + BOXES.len();
    (0..n as u32).map(|k| k + t).collect()
}

/// A CSS length as a number in its unit.
fn css(s: &str) -> Option<(f64, &str)> {
    let b = s.as_bytes();
    let (mut v, mut i, mut scale, mut dot, mut any) = (0.0, 0, 1.0, false, false);
    let neg = b.first() == Some(&b'-');
    i += neg as usize;
    while let Some(c) = b.get(i) {
        match c {
            b'0'..=b'9' => {
                v = v * 10.0 + (c - b'0') as f64;
                any = true;
                if dot {
                    scale *= 10.0;
                }
            }
            b'.' if !dot => dot = true,
            _ => break,
        }
        i += 1;
    }
    // An exponent, unless it is the beginning of the unit.
    if b.get(i) == Some(&b'e') && b.get(i + 1).is_some_and(|c| *c == b'-' || c.is_ascii_digit()) {
        i += 1;
        let down = b[i] == b'-';
        i += down as usize;
        let mut e = 0;
        while let Some(c) = b.get(i).filter(|c| c.is_ascii_digit()) {
            e = e * 10 + (c - b'0') as i32;
            i += 1;
        }
        for _ in 0..e {
            if down {
                scale *= 10.0;
            } else {
                v *= 10.0;
            }
        }
    }
    any.then_some((if neg { -v } else { v } / scale, &s[i..]))
}
/// A number as TeX reads it: a sign, digits with a point or a comma; `None` if it is none or too long for the library.
fn number(s: &[u8]) -> Option<f64> {
    let (neg, s) = match s {
        [b'-', r @ ..] => (true, r),
        [b'+', r @ ..] => (false, r),
        _ => (false, s),
    };
    let (mut v, mut scale, mut dot, mut any) = (0u128, 1.0, false, false);
    for &c in s {
        if (c == b'.') | (c == b',') {
            if dot {
                return None;
            }
            dot = true;
        } else if c.wrapping_sub(b'0') < 10 {
            v = v * 10 + (c - b'0') as u128;
            any = true;
            if dot {
                scale *= 10.0;
            }
        } else {
            return None;
        }
    }
    if !any || v > u64::MAX as u128 {
        return None;
    }
    let v = v as u64 as f64 / scale;
    Some(if neg { -v } else { v })
}

/// The length which is to be seen of a place.
fn seen<'a>(root: &El<'a>, place: usize) -> Option<&'a str> {
    match place {
        0..=5 => {
            let e = root.find("mspace")?;
            // A negative one may be a margin.
            match (e.attr("width"), e.attr("style")) {
                (Some(w), None) => Some(w),
                (Some(w), Some(s)) => (s.trim_end_matches(';').strip_prefix("width:").map(str::trim) == Some(w)).then_some(w),
                (None, s) => s?.trim_end_matches(';').strip_prefix("margin-left:").map(str::trim),
            }
        }
        6 | 7 => root.find("mpadded").map_or(Some("0"), |e| e.attr("voffset")),
        _ => root.find("mfrac")?.attr("linethickness"),
    }
}

fn letters(root: &El) -> String {
    let mut s = String::new();
    root.walk(&mut |e| {
        if matches!(e.tag, "mi" | "mtext") {
            s.push_str(e.text());
        }
    });
    s
}

/// A length with the number and the unit.
fn one(place: usize, num: &[u8], gap: &str, unit: [u8; 2]) {
    let (before, after, math, bare) = PLACES[place];
    let mut s = Buf::of(before);
    for &b in num {
        s.b(b);
    }
    s.s(gap).b(unit[0]).b(unit[1]).s(after);
    sx::show(s.as_str());
    let conv = std();
    let got = crate::conv(&conv, s.as_str(), false);
    let mut known = None;
    for (i, u) in UNITS.iter().enumerate() {
        if ((u.0[0] ^ unit[0]) & 0xdf == 0) & ((u.0[1] ^ unit[1]) & 0xdf == 0) {
            known = Some(i);
        }
    }
    let want = match known {
        Some(u) if math == 2 || UNITS[u].3 == (math == 1) => number(num).map(|v| (v * UNITS[u].2, UNITS[u].1)),
        _ => None,
    };
    // A decimal comma where the number stands in braces.
    let comma = !bare && num.contains(&b',');
    match (got, want) {
        (Err(_), None) => sx::cover(2),
        (Err(_), Some(_)) if comma => {}
        (Err(_), Some(_)) => sx::fail("a length is refused"),
        (Ok(o), None) => {
            sx::note(&o);
            sx::fail("what is no length here is accepted")
        }
        (Ok(o), Some((v, u))) => {
            sx::note(&o);
            let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
            let Some((w, unit)) = seen(&root, place).and_then(css) else { return sx::fail("a length is lost") };
            let diff = if w > v { w - v } else { v - w };
            let size = if v < 0.0 { -v } else { v };
            sx::check(diff <= size * 2e-5, "a length is not as long as is written");
            sx::check(v == 0.0 && unit.is_empty() || unit == u, "a length is not in the unit which is written");
            let all = letters(&root);
            sx::check(all == ["xy", "xby", "abc", "xy", "xab"][[0, 0, 0, 0, 0, 0, 1, 2, 3, 4][place]], "a length takes or leaves something else");
            sx::cover(1);
        }
    }
}

/// Boxes in one another: `1` and `2` are the lengths; the digit behind a letter tells whose sum it is raised by.
const BOXES: &[(&str, &str)] = &[
    ("x\\raisebox{1}{\\raisebox{2}{b}}y", "b3"),
    ("\\text{a\\raisebox{1}{b\\raisebox{2}{c}d}e}", "a0b1c3d1e0"),
    ("\\text{\\raisebox{1}{b}\\raisebox{2}{c}e}", "b1c2e0"),
    ("x\\raisebox{1}{b{\\raisebox{2}{c}}d}_{\\raisebox{2}{e}}", "b1c3d1e2"),
    ("\\raisebox{1}{\\textbf{b\\raisebox{2}{c\\emph{d}}}e}", "b1c3d3e1"),
];
fn raised(e: &El, letter: u8, up: &mut Vec<(f64, String)>) -> bool {
    if e.tag == "mtext" && {
        let mut t = String::new();
        e.all_text(&mut t);
        t.as_bytes().contains(&letter)
    } {
        return true;
    }
    for c in e.els() {
        if raised(c, letter, up) {
            if let Some((v, u)) = e.attr("voffset").and_then(css) {
                up.push((v, u.to_string()));
            }
            return true;
        }
    }
    false
}
/// The heights of boxes in one another add up.
fn heights(k: usize) {
    let (shape, letters) = BOXES[k];
    let l = [0, 1].map(|_| {
        let neg = sx::choose(2) == 1;
        let d = sx::conc(sx::digit() as u64) as u8;
        let u = [0, 2, 5, 6][sx::choose(4)];
        (neg, d, u)
    });
    let mut s = Buf::new();
    for &b in shape.as_bytes() {
        if (b == b'1') | (b == b'2') {
            let (neg, d, u) = l[(b - b'1') as usize];
            s.s(if neg { "-" } else { "" }).b(d).b(UNITS[u].0[0]).b(UNITS[u].0[1]);
        } else {
            s.b(b);
        }
    }
    sx::show(s.as_str());
    let conv = std();
    let Ok(o) = crate::conv(&conv, s.as_str(), false) else { return sx::fail("a raised box is refused") };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    for p in letters.as_bytes().chunks(2) {
        let mut up = Vec::new();
        sx::check(raised(&root, p[0], &mut up), "a letter in a box is lost");
        for unit in ["rem", "ex", "em"] {
            let mut want = 0.0;
            let mut size = 0.0;
            for i in 0..2 {
                let (neg, d, u) = l[i];
                if (p[1] - b'0') & (1 << i) != 0 && UNITS[u].1 == unit {
                    let v = (d - b'0') as f64 * UNITS[u].2;
                    want += if neg { -v } else { v };
                    size += v;
                }
            }
            let mut got = 0.0;
            for (v, u) in &up {
                if u == unit {
                    got += v;
                }
            }
            let diff = if got > want { got - want } else { want - got };
            sx::check(diff <= size * 2e-5, "text is not raised by what its boxes say");
        }
    }
    sx::cover(3);
}

/// White space in a length without braces: it may follow the sign and the number, but neither digits nor letters may be apart.
fn parts(place: usize) {
    let (before, after, math, bare) = PLACES[place];
    if !bare {
        return sx::cover(1);
    }
    let shape = ["d", "-d", "d.5", "+3d", "-12d", "d.125", ".d", "7,d"][sx::choose(8)].as_bytes();
    let mut t = Vec::new();
    for &c in shape {
        t.push(if c == b'd' { sx::conc(sx::digit() as u64) as u8 } else { c });
    }
    let n = t.len();
    t.extend(if math == 1 { b"mu" } else { b"ex" });
    let at = sx::choose(n + 2);
    let mut s = Buf::of(before);
    for (i, &b) in t.iter().enumerate() {
        if i == at {
            s.s([" ", "\n ", "\t%\n"][sx::choose(3)]);
        }
        s.b(b);
    }
    s.s(after);
    sx::show(s.as_str());
    let fine = at == 0 || at == n || at == 1 && matches!(t[0], b'-' | b'+');
    let conv = std();
    let got = crate::conv(&conv, s.as_str(), false);
    match (got, fine) {
        (Err(_), false) => sx::cover(2),
        (Err(_), true) => sx::fail("white space after the sign or the number is refused"),
        (Ok(o), false) => {
            sx::note(&o);
            sx::fail("a length in parts is accepted")
        }
        (Ok(o), true) => {
            sx::note(&o);
            let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
            let Some((w, unit)) = seen(&root, place).and_then(css) else { return sx::fail("a length is lost") };
            let Some(want) = number(&t[..n]).map(|v| v * if math == 1 { 1.0 / 18.0 } else { 1.0 }) else { return };
            let diff = if w > want { w - want } else { want - w };
            let size = if want < 0.0 { -want } else { want };
            sx::check(diff <= size * 2e-5, "a length is not as long as is written");
            sx::check(unit == if math == 1 { "em" } else { "ex" } || want == 0.0, "a length is not in the unit which is written");
            sx::check(letters(&root) == "xy", "a length takes or leaves something else");
            sx::cover(1);
        }
    }
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let of_places = PLACES.len() * (NUMBERS.len() + 4);
    if k >= of_places {
        return heights(k - of_places);
    }
    let place = k % PLACES.len();
    let k = k / PLACES.len();
    if k < NUMBERS.len() {
        // Any digits, in each unit.
        let shape = NUMBERS[k].as_bytes();
        let mut num = Vec::new();
        for &c in shape {
            // The arithmetic is on floats, which the engine has for concrete values only.
            num.push(if c == b'd' { sx::conc(sx::digit() as u64) as u8 } else { c });
        }
        let n = shape.iter().filter(|c| **c == b'd').count();
        let u = if n > 1 && !deep && place != 0 { [0, 5, 7][sx::choose(3)] } else { sx::choose(UNITS.len()) };
        let gap = ["", " "][sx::choose(if n > 1 { 1 } else { 2 })];
        one(place, &num, gap, *UNITS[u].0);
        return;
    }
    if k - NUMBERS.len() == 3 {
        return parts(place);
    }
    match k - NUMBERS.len() {
        // Any two letters for a unit.
        0 => {
            let u = [sx::letter(), sx::letter()];
            one(place, b"2", "", u)
        }
        // Anything for a number.
        1 => {
            let mut num = Vec::new();
            for _ in 0..if deep { 4 } else { 3 } {
                let b = sx::byte();
                sx::assume((b.wrapping_sub(b'0') < 10) | (b == b'.') | (b == b',') | (b == b'+') | (b == b'-'));
                num.push(sx::conc(b as u64) as u8);
            }
            one(place, &num, "", if PLACES[place].2 == 1 { *b"mu" } else { *b"ex" })
        }
        // Nothing for one.
        _ => {
            let n: &[u8] = [&b""[..], b"-", b".", b"+", b"-."][sx::choose(5)];
            // A line of no given thickness has the usual one.
            sx::assume(!(n.is_empty() && PLACES[place].2 == 2));
            one(place, n, "", if PLACES[place].2 == 1 { *b"mu" } else { *b"ex" })
        }
    }
}
