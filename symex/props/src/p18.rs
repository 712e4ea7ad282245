//! Declarations of colours and styles: they apply from where they stand to the end of their group, and the innermost one counts.
use crate::*;
use xml::El;

/// `@` and `%` are declarations. What letters they apply to: a to o none, p to w `%`, A to O `@`, P to W `@` and `%`.
const SHAPES: &[&str] = &[
    "a@B", "@A", "ab@CD", "{a@B}c", "{{a@B}c}d", "{a{@B}c}d", "a@B{C}D", "a@{B}C",
    // Scripts.
    "a^{b@C}d", "a_{@B}^{c}d", "a_{b}^{@C}d", "a^{@B}_{%p}c", "a@B^C_D", "@A'B", "a@^B C", "a@{B}_{C}D", "\\sum_{a@B}^{c}d",
    // Arguments.
    "\\frac{a@B}{c}d", "\\frac{a}{b@C}d", "\\frac{@A}{%p}b", "@\\frac A BC", "\\sqrt{a@B}c", "\\sqrt[a@B]{c}d", "\\sqrt[a]{b@C}d", "@A\\sqrt[B%P]{C}D",
    "\\binom{a@B}{c}d", "\\binom{a}{b@C}d", "\\genfrac(]{0pt}{}{a@B}{c}d", "\\overset{a@B}{c}d", "\\underset{a}{b@C}d", "\\overline{a@B}c", "\\hat{a@B}c",
    "\\underbrace{a@B}_{c}d", "\\underbrace{a}_{b@C}d", "\\mathrel{a@B}c", "\\xrightarrow[a@B]{c}d", "\\xrightarrow[a]{b@C}d", "\\boxed{a@B}c", "\\phantom{a@B}c",
    "\\overset{@A}{%p}b", "\\cancel{a@B}c", "\\dfrac{a@B}{c}d", "\\stackrel{@A}{b}c", "\\bigl(a@B\\bigr)C", "(a@B)C",
    "\\sqrt[{a}b@C]{d}e", "\\sqrt[\\frac ab@C]{d}e", "\\xrightarrow[a{b}_c@D%P]{e}f", "\\sqrt[{\\sqrt[a]b}@C]{d}e", "{a}b@C", "\\frac{{a}@B}{c}d", "\\left({a}@B\\right)c",
    "\\begin{matrix}{a}@B&c\\\\d\\end{matrix}e", "\\sqrt[\\left(a\\right)@B]{c}d",
    // Fractions from the middle.
    "{a@B\\over c}d", "{@A\\over b}c", "{a\\over b@C}d", "{a\\over@B}c", "{@A\\over%p}b", "{a@B\\atop c}d", "{a@B\\choose c}d", "@A{B%P\\over C}D", "\\left(a@B\\over c\\right)d",
    "\\sqrt{a@B\\over c}d", "{a@B{C\\over D}E}f",
    // Fences and environments.
    "\\left(a@B\\right)c", "\\left(@A\\right)b", "@A\\left(B\\right)C", "@A\\left(B%P\\right)C", "\\left.a@B\\right.c", "\\left(a@B\\right)^{c}d", "\\begingroup a@B\\endgroup c",
    "\\begin{matrix}a@B&c\\\\d&e\\end{matrix}f", "\\begin{matrix}a&b@C\\\\d&e\\end{matrix}f", "\\begin{matrix}a&b\\\\@C&%p\\end{matrix}d", "\\begin{cases}a@B\\\\c\\end{cases}d",
    "\\begin{aligned}a@B&c\\\\d\\end{aligned}e", "\\begin{aligned}a&@B\\\\c\\end{aligned}d", "\\begin{array}{c|c}a@B&c\\\\\\hline d\\end{array}e", "\\begin{gathered}a@B\\\\c\\end{gathered}d",
    "@A\\begin{matrix}B&C\\\\D\\end{matrix}E", "@A\\begin{pmatrix}B%P&C\\\\D\\end{pmatrix}E", "\\begin{pmatrix}a@B\\end{pmatrix}^{c}d",
    // One after the other and in one another.
    "a@B%P", "a@B{C%P}D", "{a@B%P}c", "@A\\frac{B%P}{C}D", "@{A%P}B", "{@A{%P}B}c", "@A_{%P}^{B}C", "@A^{B%P}C", "{@A}{%p}b", "{@A}b{%p}c", "@%P", "@%P{Q}R",
    // Macros.
    "\\newcommand\\f{@}a\\f B{C}D", "\\newcommand\\f{{@B}}a\\f c", "\\newcommand\\f[1]{a@#1}{\\f{B}C}d", "\\newcommand\\f[1]{\\sqrt{a#1}}\\f{@B}c", "\\newcommand\\f[2]{\\frac{#1}{#2}}\\f{a@B}{c}d",
    // In a formula of its own.
    "\\begin{align*}a@B&c\\\\d\\end{align*}", "\\begin{align*}a&b@C\\\\d\\end{align*}", "\\begin{gather*}a@B\\\\c\\end{gather*}", "\\begin{multline}a@B\\\\c\\end{multline}",
];
const STYLES: &[(&str, &str, &str)] = &[
    ("\\displaystyle ", "true", "0"),
    ("\\textstyle ", "false", "0"),
    ("\\scriptstyle ", "false", "1"),
    ("\\scriptscriptstyle ", "false", "2"),
];
/// Colours by name on which everybody agrees.
const NAMES: &[(&str, &str)] = &[
    ("red", "#FF0000"),
    ("blue", "#0000FF"),
    ("black", "#000000"),
    ("white", "#FFFFFF"),
    ("gray", "#808080"),
    ("darkgray", "#404040"),
    ("lightgray", "#BFBFBF"),
    ("teal", "#008080"),
    ("violet", "#800080"),
];
/// Formulas with a colour at `!`, and their letters: it applies to the capital ones.
const COLOURED: &[(&str, &str)] = &[
    ("\\textcolor!{A}b", "Ab"),
    ("a\\textcolor!{BC}d", "aBCd"),
    ("a\\textcolor!{B}^{c}d", "aBcd"),
    ("a^{\\textcolor!{B}}c", "aBc"),
    ("\\frac{\\textcolor!{A}}{b}c", "Abc"),
    ("\\color!A", "A"),
    ("a\\color!BC", "aBC"),
    ("{\\color!A}b", "Ab"),
    ("\\frac{a\\color!B}{c}d", "aBcd"),
];

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(SHAPES.len() + 15) as u32).map(|k| k + t).collect()
}

/// What applies to a letter: the colour and the style which are the innermost ones around it.
type At<'a> = (Option<&'a str>, Option<(&'a str, &'a str)>);
fn at<'a>(e: &El<'a>, letter: &str, around: At<'a>, found: &mut Vec<At<'a>>) {
    let mut around = around;
    if matches!(e.tag, "mrow" | "mstyle") {
        if let Some(c) = e.attr("style").and_then(|s| s.strip_prefix("color:")) {
            around.0 = Some(c.trim_end_matches(';').trim());
        }
        if let Some(c) = e.attr("mathcolor") {
            around.0 = Some(c);
        }
        if let (Some(d), Some(s)) = (e.attr("displaystyle"), e.attr("scriptlevel")) {
            around.1 = Some((d, s));
        }
    }
    if e.tag == "mi" && e.text() == letter {
        found.push(around);
    }
    for e in e.els() {
        at(e, letter, around, found);
    }
}

/// One of the declarations: writes it and gives what is to be seen.
fn declaration(s: &mut Buf, kind: usize, hex: &[u8; 6]) {
    if kind < 4 {
        s.s(STYLES[kind].0);
    } else {
        s.s("\\color[HTML]{");
        for b in hex {
            s.b(*b);
        }
        s.s("}");
    }
}
fn same(a: Option<&str>, b: Option<&[u8; 6]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == 7 && a.as_bytes()[0] == b'#' && a.as_bytes()[1..].iter().zip(b).fold(true, |ok, (x, y)| ok & (*x == *y)),
        _ => false,
    }
}

fn scope(shape: &str, deep: bool) {
    let two = shape.contains('%');
    let (k1, k2) = if deep {
        (sx::choose(5), if two { sx::choose(5) } else { 0 })
    } else if two {
        [(4, 4), (4, 2), (1, 4), (0, 3), (2, 1)][sx::choose(5)]
    } else {
        ([4, 0, 1, 2, 3][sx::choose(5)], 0)
    };
    // Colours which are different in what is arbitrary.
    let hexdigit = || {
        let b = sx::byte();
        sx::assume((b.wrapping_sub(b'0') < 10) | (b.wrapping_sub(b'A') < 6));
        b
    };
    let c1 = [b'1', hexdigit(), b'3', b'F', b'0', hexdigit()];
    let c2 = [b'2', hexdigit(), b'7', hexdigit(), b'0', b'B'];
    let mut s = Buf::new();
    for &b in shape.as_bytes() {
        match b {
            b'@' => declaration(&mut s, k1, &c1),
            b'%' => declaration(&mut s, k2, &c2),
            b => {
                s.b(b);
            }
        }
    }
    sx::show(s.as_str());
    let conv = std();
    let got = crate::conv(&conv, s.as_str(), true);
    let Ok(o) = got else { return sx::fail("a declaration is refused") };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    // Letters of names do not count: they are those which follow a backslash or stand in an environment's name.
    let b = shape.as_bytes();
    let mut i = 0;
    let mut n = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            i += 1;
            let from = i;
            while i < b.len() && b[i].is_ascii_alphabetic() {
                i += 1;
            }
            match &shape[from..i] {
                "begin" | "end" => {
                    while b[i] != b'}' {
                        i += 1;
                    }
                    if shape[i..].starts_with("}{c") {
                        i += 5;
                    }
                }
                "genfrac" => i += 9,
                "newcommand" => i += 2,
                "" => i += 1,
                _ => {}
            }
            continue;
        }
        if !b[i].is_ascii_alphabetic() {
            i += 1;
            continue;
        }
        let l = b[i];
        i += 1;
        n += 1;
        let mut found = Vec::new();
        at(&root, core::str::from_utf8(&[l]).unwrap(), (None, None), &mut found);
        sx::check(found.len() == 1, "a letter is lost or doubled");
        let Some((colour, style)) = found.first() else { return };
        let outer = l.is_ascii_uppercase();
        let inner = l & 0x1f >= 16;
        let mut want = (None, None);
        if outer {
            if k1 == 4 {
                want.0 = Some(&c1);
            } else {
                want.1 = Some((STYLES[k1].1, STYLES[k1].2));
            }
        }
        if inner {
            if k2 == 4 {
                want.0 = Some(&c2);
            } else {
                want.1 = Some((STYLES[k2].1, STYLES[k2].2));
            }
        }
        sx::check(same(*colour, want.0), "a colour is not where it is declared, or another one is");
        sx::check(*style == want.1, "a style is not where it is declared, or another one is");
    }
    sx::check(n > 0, "nothing to see");
    sx::cover(1);
}

/// A colour as it is to be used, put into a formula.
fn coloured(colour: &[u8], want: Option<&dyn Fn(&str) -> bool>, place: usize) {
    let (shape, letters) = COLOURED[place];
    let mut s = Buf::new();
    let (before, after) = shape.split_once('!').unwrap();
    s.s(before);
    for b in colour {
        s.b(*b);
    }
    s.s(after);
    sx::show(s.as_str());
    let conv = std();
    match (crate::conv(&conv, s.as_str(), false), want) {
        (Err(_), None) => sx::cover(2),
        (Err(_), Some(_)) => sx::fail("a colour is refused"),
        (Ok(o), None) => {
            sx::note(&o);
            sx::fail("what is no colour is accepted")
        }
        (Ok(o), Some(want)) => {
            sx::note(&o);
            let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
            for i in 0..letters.len() {
                let l = &letters[i..i + 1];
                let mut found = Vec::new();
                at(&root, l, (None, None), &mut found);
                sx::check(found.len() == 1, "a letter is lost or doubled");
                let Some((c, _)) = found.first() else { return };
                if l.as_bytes()[0].is_ascii_uppercase() {
                    let Some(c) = c else { return sx::fail("a colour is not applied") };
                    sx::check(want(c), "a colour is not the one which is written");
                } else {
                    sx::check(c.is_none(), "a colour goes beyond its scope");
                }
            }
            sx::cover(3);
        }
    }
}
fn upper(b: u8) -> u8 {
    b ^ (((b.wrapping_sub(b'a') < 26) as u8) << 5)
}
fn is_hex(b: u8) -> bool {
    (b.wrapping_sub(b'0') < 10) | (b.wrapping_sub(b'A') < 6) | (b.wrapping_sub(b'a') < 6)
}
/// A byte which can stand in an argument that is read as a string.
fn plain() -> u8 {
    let b = sx::ascii();
    sx::assume((b > 0x20) & (b != b'\\') & (b != b'{') & (b != b'}') & (b != b'%') & (b != b'#') & (b != b'$') & (b != b'&') & (b != b'^') & (b != b'_') & (b != b'~'));
    b
}
fn byte_of(c: &str, i: usize) -> u8 {
    let v = |b: u8| if b >= b'A' { b - b'A' + 10 } else { b - b'0' };
    v(c.as_bytes()[1 + 2 * i]) * 16 + v(c.as_bytes()[2 + 2 * i])
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    if k < SHAPES.len() {
        return scope(SHAPES[k], deep);
    }
    // A model cannot be given to \textcolor.
    let any_place = || 5 + sx::choose(COLOURED.len() - 5);
    match k - SHAPES.len() {
        // Six hexadecimal digits.
        0..=5 => {
            let at = k - SHAPES.len();
            let mut d = *b"1aF09d";
            d[at] = plain();
            d[(at + 3) % 6] = sx::byte();
            sx::assume(is_hex(d[(at + 3) % 6]));
            let mut c = b"[HTML]{".to_vec();
            c.extend(d);
            c.push(b'}');
            let place = any_place();
            if is_hex(d[at]) {
                coloured(&c, Some(&|got| got.len() == 7 && got.as_bytes()[0] == b'#' && got.as_bytes()[1..].iter().zip(&d).fold(true, |ok, (x, y)| ok & (*x == upper(*y)))), place)
            } else {
                coloured(&c, None, place)
            }
        }
        // Another number of them.
        6 => {
            let n = [0, 1, 2, 3, 4, 5, 7, 8][sx::choose(8)];
            let mut c = b"[HTML]{".to_vec();
            for _ in 0..n {
                let b = sx::byte();
                sx::assume(is_hex(b));
                c.push(b);
            }
            c.push(b'}');
            coloured(&c, None, any_place())
        }
        // Decimal numbers up to 255.
        7..=9 => {
            let at = k - SHAPES.len() - 7;
            let mut v = [7, 200, 31];
            v[at] = sx::conc(sx::byte() as u64) as usize;
            let gap = ["", " "][sx::choose(2)];
            let c = format!("[RGB]{{{},{gap}{},{gap}{}}}", v[0], v[1], v[2]);
            let place = any_place();
            coloured(c.as_bytes(), Some(&|got| got.len() == 7 && (0..3).all(|i| byte_of(got, i) as usize == v[i])), place)
        }
        // Shares up to 1.
        10 | 11 | 12 => {
            let at = k - SHAPES.len() - 10;
            let d = || sx::conc(sx::digit() as u64) as u8;
            let mut parts = [b".25".to_vec(), b"1".to_vec(), b"0.8".to_vec()];
            parts[at] = match sx::choose(5) {
                0 => vec![b'0', b'.', d()],
                1 => vec![b'.', d(), d()],
                2 => vec![b'0'],
                3 => b"1.0".to_vec(),
                _ => vec![b'0', b'.', d(), b'5'],
            };
            let mut v = [0.0f64; 3];
            for i in 0..3 {
                let (mut n, mut scale, mut dot) = (0u64, 1u64, false);
                for b in &parts[i] {
                    if *b == b'.' {
                        dot = true;
                        continue;
                    }
                    n = n * 10 + (b - b'0') as u64;
                    scale *= if dot { 10 } else { 1 };
                }
                v[i] = n as f64 / scale as f64 * 255.0;
            }
            let mut c = b"[rgb]{".to_vec();
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    c.push(b',');
                }
                c.extend(p);
            }
            c.push(b'}');
            let place = [5, 8][sx::choose(2)];
            coloured(&c, Some(&|got| got.len() == 7 && (0..3).all(|i| {
                let x = byte_of(got, i) as f64;
                let diff = if x > v[i] { x - v[i] } else { v[i] - x };
                diff <= 0.501
            })), place)
        }
        // Names.
        13 => {
            let (n, v) = NAMES[sx::choose(NAMES.len())];
            let c = format!("{{{n}}}");
            let place = sx::choose(COLOURED.len());
            coloured(c.as_bytes(), Some(&|got| got == v), place)
        }
        // What is no name, and no model.
        _ => {
            let c = match sx::choose(6) {
                0 => {
                    let w = [sx::letter(), sx::letter(), sx::letter()];
                    sx::assume(!((upper(w[0]) == b'R') & (upper(w[1]) == b'E') & (upper(w[2]) == b'D')));
                    sx::assume(!((upper(w[0]) == b'T') & (upper(w[1]) == b'A') & (upper(w[2]) == b'N')));
                    let mut c = vec![b'{'];
                    c.extend(w);
                    c.push(b'}');
                    c
                }
                1 => b"{}".to_vec(),
                2 => vec![b'{', b'r', b'e', plain(), b'd', b'}'],
                3 => {
                    let w = [sx::letter(), sx::letter(), sx::letter()];
                    sx::assume(!((upper(w[0]) == b'R') & (upper(w[1]) == b'G') & (upper(w[2]) == b'B')));
                    sx::assume(!((upper(w[0]) == b'C') & (upper(w[1]) == b'M') & (upper(w[2]) == b'Y')));
                    sx::assume(!((upper(w[0]) == b'H') & (upper(w[1]) == b'S') & (upper(w[2]) == b'B')));
                    let mut c = vec![b'['];
                    c.extend(w);
                    c.extend(b"]{1,0,1}");
                    c
                }
                4 => format!("[{}]{{{}}}", ["rgb", "RGB"][sx::choose(2)], ["", "1", "1,0", "1,,0", "1,0,", "a,0,1", "1;0;1", "1 0 1", "1,0,b"][sx::choose(9)]).into_bytes(),
                _ => {
                    let b = plain();
                    sx::assume((b.wrapping_sub(b'0') >= 10) & (b != b'.') & (b != b',') & (b != b'+') & (b != b'-'));
                    let mut c = format!("[{}]{{0,", ["rgb", "RGB"][sx::choose(2)]).into_bytes();
                    c.extend([b, b'1', b',', b'0', b'}']);
                    c
                }
            };
            coloured(&c, None, any_place())
        }
    }
}
