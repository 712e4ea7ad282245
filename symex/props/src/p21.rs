//! Commands with arguments: each argument is shown once, in its place, with the mark of the command.
use crate::*;
use xml::El;

/// How it is written, with `@` and a letter for its arguments; what is to be seen; what a script does (s: beside it, u or o: above or below, n: the next one).
/// Lists are written one after the other: an argument by its letter, an operator after a quote, an element with its children.
const TABLE: &[(&str, &str, char)] = &[
    ("\\frac@A@B", "mfrac(A|B)", 's'),
    ("\\dfrac@A@B", "mfrac(A|B)", 's'),
    ("\\tfrac@A@B", "mfrac(A|B)", 's'),
    ("\\cfrac@A@B", "mfrac(A|B)", 's'),
    ("\\binom@A@B", "'(mfrac0(A|B)')", 's'),
    ("\\dbinom@A@B", "'(mfrac0(A|B)')", 's'),
    ("\\tbinom@A@B", "'(mfrac0(A|B)')", 's'),
    ("\\genfrac{(}{]}{0pt}{}@A@B", "'(mfrac0(A|B)']", 's'),
    ("\\genfrac{}{}{}{}@A@B", "mfrac(A|B)", 's'),
    ("\\genfrac\\{\\}{}{1}@A@B", "'{mfrac(A|B)'}", 's'),
    ("\\genfrac|.{0mm}{}@A@B", "", '!'),
    ("\\sqrt@A", "msqrt(A)", 's'),
    ("\\sqrt[@C]@A", "mroot(A|C)", 's'),
    ("\\overset@A@B", "mover(B|A)", 's'),
    ("\\stackrel@A@B", "mover(B|A)", 's'),
    ("\\underset@A@B", "munder(B|A)", 's'),
    ("\\hat@A", "mover!(A|'\u{2c6})", 's'),
    ("\\tilde@A", "mover!(A|'\u{2dc})", 's'),
    ("\\bar@A", "mover!(A|'\u{af})", 's'),
    ("\\dot@A", "mover!(A|'\u{2d9})", 's'),
    ("\\ddot@A", "mover!(A|'\u{a8})", 's'),
    ("\\dddot@A", "mover!(A|'\u{20db})", 's'),
    ("\\ddddot@A", "mover!(A|'\u{20dc})", 's'),
    ("\\acute@A", "mover!(A|'\u{b4})", 's'),
    ("\\grave@A", "mover!(A|'`)", 's'),
    ("\\breve@A", "mover!(A|'\u{2d8})", 's'),
    ("\\check@A", "mover!(A|'\u{2c7})", 's'),
    ("\\mathring@A", "mover!(A|'\u{2da})", 's'),
    ("\\vec@A", "mover!(A|'\u{20d7})", 's'),
    ("\\widehat@A", "mover!(A|'\u{302})", 's'),
    ("\\overline@A", "mover!(A|'\u{332})", 's'),
    ("\\underline@A", "munder!(A|'\u{332})", 's'),
    ("\\overrightarrow@A", "mover!(A|'\u{2192})", 's'),
    ("\\overleftarrow@A", "mover!(A|'\u{2190})", 's'),
    ("\\overleftrightarrow@A", "mover!(A|'\u{2194})", 's'),
    ("\\Overrightarrow@A", "mover!(A|'\u{21d2})", 's'),
    ("\\overrightharpoon@A", "mover!(A|'\u{21c0})", 's'),
    ("\\overleftharpoon@A", "mover!(A|'\u{21bc})", 's'),
    ("\\underrightarrow@A", "munder!(A|'\u{2192})", 's'),
    ("\\underleftarrow@A", "munder!(A|'\u{2190})", 's'),
    ("\\underleftrightarrow@A", "munder!(A|'\u{2194})", 's'),
    ("\\overgroup@A", "mover!(A|'\u{23e0})", 's'),
    ("\\undergroup@A", "munder!(A|'\u{23e1})", 's'),
    ("\\overbrace@A", "mover!(A|'\u{23de})", 'o'),
    ("\\underbrace@A", "munder!(A|'\u{23df})", 'u'),
    ("\\overbracket@A", "mover!(A|'\u{23b4})", 'o'),
    ("\\underbracket@A", "munder!(A|'\u{23b5})", 'u'),
    ("\\overparen@A", "mover!(A|'\u{23dc})", 'o'),
    ("\\underparen@A", "munder!(A|'\u{23dd})", 'u'),
    ("\\xrightarrow@A", "mover('\u{2192}|A)", 's'),
    ("\\xrightarrow[@C]@A", "munderover('\u{2192}|C|A)", 's'),
    ("\\xleftarrow[@C]@A", "munderover('\u{2190}|C|A)", 's'),
    ("\\xleftrightarrow@A", "mover('\u{2194}|A)", 's'),
    ("\\xRightarrow[@C]@A", "munderover('\u{21d2}|C|A)", 's'),
    ("\\xLeftarrow@A", "mover('\u{21d0}|A)", 's'),
    ("\\xLeftrightarrow[@C]@A", "munderover('\u{21d4}|C|A)", 's'),
    ("\\xmapsto@A", "mover('\u{21a6}|A)", 's'),
    ("\\xhookrightarrow@A", "mover('\u{21aa}|A)", 's'),
    ("\\xhookleftarrow[@C]@A", "munderover('\u{21a9}|C|A)", 's'),
    ("\\xrightharpoonup@A", "mover('\u{21c0}|A)", 's'),
    ("\\xrightharpoondown@A", "mover('\u{21c1}|A)", 's'),
    ("\\xleftharpoonup@A", "mover('\u{21bc}|A)", 's'),
    ("\\xleftharpoondown@A", "mover('\u{21bd}|A)", 's'),
    ("\\xleftrightharpoons@A", "mover('\u{21cb}|A)", 's'),
    ("\\xrightleftharpoons[@C]@A", "munderover('\u{21cc}|C|A)", 's'),
    ("\\xtofrom@A", "mover('\u{21c4}|A)", 's'),
    ("\\xlongequal@A", "mover('=|A)", 's'),
    ("\\xtwoheadrightarrow@A", "mover('\u{21a0}|A)", 's'),
    ("\\xtwoheadleftarrow@A", "mover('\u{219e}|A)", 's'),
    ("\\cancel@A", "menclose:updiagonalstrike(A)", 's'),
    ("\\bcancel@A", "menclose:downdiagonalstrike(A)", 's'),
    ("\\xcancel@A", "menclose:updiagonalstrike downdiagonalstrike(A)", 's'),
    ("\\boxed@A", "menclose:box(A)", 's'),
    ("\\phase@A", "menclose:phasorangle(A)", 's'),
    ("\\angl@A", "menclose:actuarial(A)", 's'),
    ("\\phantom@A", "mphantom(A)", 's'),
    ("\\hphantom@A", "mpadded:h(mphantom(A))", 's'),
    ("\\vphantom@A", "mpadded:w(mphantom(A))", 's'),
    ("\\prescript@A@B@C", "multi(C||B|A)", '-'),
    ("\\sideset{_@A^@B}{_@C^@D}\\sum ", "multi('\u{2211}|C|D|A|B)", '-'),
    ("\\sideset{}{^@B}\\prod ", "multi('\u{220f}||B||)", '-'),
    ("\\cramped@A", "A", 's'),
    ("\\textcolor{red}@A", "A", 's'),
    ("\\mathord@A", "A", 's'),
    ("\\mathrel@A", "A", 's'),
    ("\\mathinner@A", "A", 's'),
    ("\\mathbin@A", "A", 's'),
    ("\\bra@A", "'\u{27e8}A'|", '-'),
    ("\\ket@A", "'|A'\u{27e9}", '-'),
    ("\\braket@A", "'\u{27e8}A'\u{27e9}", '-'),
    ("\\Bra@A", "'\u{27e8}A'|", 's'),
    ("\\Ket@A", "'|A'\u{27e9}", 's'),
    ("\\Braket@A", "'\u{27e8}A'\u{27e9}", 's'),
    ("\\Braket{@A|@B}", "'\u{27e8}A'|B'\u{27e9}", 's'),
    ("\\Braket{@A|@B|@C}", "'\u{27e8}A'|B'|C'\u{27e9}", 's'),
    ("\\set@A", "'{A'}", '-'),
    ("\\Set{@A}", "'{A'}", 's'),
    ("\\Set{@A|@B}", "'{A'|B'}", 's'),
    ("\\pod@A", "'(A')", '-'),
    ("\\pmod@A", "'(\"modA')", '-'),
    ("\\mod@A", "\"modA", '-'),
    ("{@A\\over@B}", "mfrac(A|B)", 's'),
    ("{@A\\atop@B}", "mfrac0(A|B)", 's'),
    ("{@A\\choose@B}", "'(mfrac0(A|B)')", 's'),
    ("{@A\\brace@B}", "'{mfrac0(A|B)'}", 's'),
    ("{@A\\brack@B}", "'[mfrac0(A|B)']", 's'),
    ("\\left(@A\\right]", "'(A']", 's'),
    ("\\left.@A\\middle|@B\\right)", "A'|B')", 's'),
    ("{@A}", "A", 's'),
    ("\\begingroup@A\\endgroup ", "A", '-'),
    ("\\operatorname{xy}@A", "\"xyA", 'n'),
    ("\\log@A", "\"logA", 'n'),
    ("\\quad@A", "A", 'n'),
    ("\\displaystyle@A", "A", 'n'),
    ("\\color{red}@A", "A", 'n'),
    ("\\bigl(@A", "'(A", 'n'),
    ("\\begin{matrix}@A\\end{matrix}", "mtable(mtr(mtd(A)))", 's'),
    ("\\begin{pmatrix}@A&@B\\end{pmatrix}", "'(mtable(mtr(mtd(A)mtd(B)))')", 's'),
    ("\\begin{array}{lr}@A&@B\\\\@C&@D\\end{array}", "mtable(mtr(mtd(A)mtd(B))mtr(mtd(C)mtd(D)))", 's'),
    ("\\begin{cases}@A&@B\\\\@C\\end{cases}", "'{mtable(mtr(mtd(A)mtd(B))mtr(mtd(C)))", 's'),
    ("\\def\\f#1#2{#2#1#2}\\f@A@B", "BAB", '-'),
    ("\\def\\f#1{\\frac{#1}2}\\f@A", "mfrac(A|#)", 's'),
    ("{@A@B@C@D\\over@D@C@B@A}", "mfrac(ABCD|DCBA)", 's'),
    ("{@A@B@C@D\\atop@D@C@B@A}", "mfrac0(ABCD|DCBA)", 's'),
    ("{@A@B@C@D\\choose@D@C@B@A}", "'(mfrac0(ABCD|DCBA)')", 's'),
    ("@A^@B", "msup(A|B)", '-'),
    ("@A_@B", "msub(A|B)", '-'),
    ("@A_@B^@C", "msubsup(A|B|C)", '-'),
    ("@A^@C_@B", "msubsup(A|B|C)", '-'),
    ("\\sum_@A^@B", "msubsup('\u{2211}|A|B)", '-'),
    ("\\int\\limits_@A^@B", "munderover('\u{222b}|A|B)", '-'),
    ("\\lim\\nolimits_@A", "msub(\"lim|A)", '-'),
];
const NT: usize = TABLE.len();

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    (0..(NT * 2) as u32).map(|k| k + t).collect()
}

#[derive(Clone, PartialEq)]
enum P {
    L(u8),
    Mo(char),
    Word(String),
    N(String, Vec<Vec<P>>),
}
use P::*;

/// Reads what is to be seen; the arguments are put in.
fn pattern(s: &mut std::iter::Peekable<std::str::Chars>, args: &[Vec<P>; 4]) -> Vec<P> {
    let mut out = Vec::new();
    while let Some(&c) = s.peek() {
        match c {
            '|' | ')' => break,
            'A'..='D' => out.extend(args[(c as u8 - b'A') as usize].iter().cloned()),
            '\'' => {
                s.next();
                out.push(Mo(*s.peek().unwrap()));
            }
            '#' => out.push(L(b'2')),
            '"' => {
                s.next();
                let mut w = String::new();
                while let Some(c) = s.next_if(|c| c.is_ascii_lowercase()) {
                    w.push(c);
                }
                out.push(Word(w));
                continue;
            }
            _ => {
                let mut tag = String::new();
                while let Some(c) = s.next_if(|c| *c != '(') {
                    tag.push(c);
                }
                let mut kids = Vec::new();
                loop {
                    s.next();
                    kids.push(pattern(s, args));
                    if s.peek() == Some(&')') {
                        break;
                    }
                }
                out.push(N(tag, kids));
            }
        }
        s.next();
    }
    out
}

/// What is seen.
fn seen(e: &El, out: &mut Vec<P>) {
    let flat = |e: &El, out: &mut Vec<P>| {
        for k in e.els() {
            seen(k, out);
        }
    };
    let each = |e: &El| -> Vec<Vec<P>> {
        e.els()
            .map(|k| {
                let mut v = Vec::new();
                seen(k, &mut v);
                v
            })
            .collect()
    };
    let all = |e: &El| {
        let mut v = Vec::new();
        flat(e, &mut v);
        vec![v]
    };
    match e.tag {
        "mspace" => {}
        "mi" | "mn" | "mtext" | "ms" | "mo" => {
            let t = xml::unescape(e.text());
            let mut c = t.chars();
            match (c.next(), c.next()) {
                (None, _) => {}
                (Some('\u{2061}' | '\u{2063}'), None) => {}
                (Some(c), None) if e.tag != "mo" && c.is_ascii() => out.push(L(c as u8)),
                (Some(c), None) => out.push(Mo(c)),
                _ => out.push(Word(t)),
            }
        }
        "mover" | "munder" if e.n() == 2 && e.el(1).unwrap().tag == "mspace" => seen(e.el(0).unwrap(), out),
        "mover" | "munder" | "munderover" | "msub" | "msup" | "msubsup" | "mroot" => {
            let mut tag = String::from(e.tag);
            if e.attr("accent").or(e.attr("accentunder")) == Some("true") {
                tag.push('!');
            }
            let kids = each(e);
            // Where the limits of a sum are is not the question here.
            if kids[0] == [Mo('\u{2211}')] {
                tag = String::from(match e.tag {
                    "munder" => "msub",
                    "mover" => "msup",
                    "munderover" => "msubsup",
                    t => t,
                });
            }
            out.push(N(tag, kids));
        }
        "mfrac" => {
            let mut tag = String::from(e.tag);
            if e.attr("linethickness").is_some_and(|l| l == "0" || l.starts_with("0.0") || l.starts_with("0e") || l.starts_with("0r")) {
                tag.push('0');
            }
            // C23 is about the style.
            out.push(N(tag, each(e)));
        }
        "mmultiscripts" => {
            // The base, the scripts after and then those before.
            let mut k = vec![Vec::new(); 5];
            let (mut i, mut pre) = (0, false);
            let mut after = Vec::new();
            for e in e.els() {
                if e.tag == "mprescripts" {
                    pre = true;
                    i = 0;
                    continue;
                }
                let mut v = Vec::new();
                seen(e, &mut v);
                if pre {
                    k[3 + i.min(1)].extend(v);
                } else {
                    after.push(v);
                }
                i += 1;
            }
            if after.len() == 1 {
                // Only scripts before it.
                let v = vec![after.remove(0), Vec::new(), k[3].clone(), k[4].clone()];
                out.push(N("multi".into(), v));
            } else {
                for (i, v) in after.into_iter().enumerate().take(3) {
                    k[i] = v;
                }
                out.push(N("multi".into(), k));
            }
        }
        "msqrt" | "mphantom" | "mtable" | "mtr" | "mtd" => out.push(N(e.tag.into(), all(e))),
        "menclose" => {
            let mut t = String::from("menclose:");
            t.push_str(e.attr("notation").unwrap_or(""));
            out.push(N(t, all(e)));
        }
        "mpadded" if e.attr("height").is_some() || e.attr("width").is_some() => {
            let mut t = String::from("mpadded:");
            if e.attr("height") == Some("0") {
                t.push('h');
            }
            if e.attr("width") == Some("0") {
                t.push('w');
            }
            out.push(N(t, all(e)));
        }
        _ => flat(e, out),
    }
}

/// A letter that is in none of the table's words.
fn letter() -> u8 {
    let b = sx::byte();
    sx::assume((b.wrapping_sub(b'A') < 26) | (b.wrapping_sub(b'a') < 26));
    b
}

/// Writes a construct with the given arguments.
fn put(s: &mut Buf, i: usize, args: &[(Buf, Vec<P>); 4]) -> Vec<P> {
    let t = TABLE[i].0;
    let mut it = t.split('@');
    s.s(it.next().unwrap());
    for part in it {
        let k = (part.as_bytes()[0] - b'A') as usize;
        s.s(args[k].0.as_str()).s(&part[1..]);
    }
    let pats = [args[0].1.clone(), args[1].1.clone(), args[2].1.clone(), args[3].1.clone()];
    pattern(&mut TABLE[i].1.chars().peekable(), &pats)
}
fn uses(i: usize, arg: u8) -> bool {
    TABLE[i].0.as_bytes().windows(2).any(|w| w[0] == b'@' && w[1] == arg)
}
/// A letter as an argument, with or without braces.
fn simple(kind: usize) -> (Buf, Vec<P>) {
    let mut b = Buf::new();
    match kind {
        0 => {
            let l = letter();
            b.b(b' ').b(l);
            (b, vec![L(l)])
        }
        1 => {
            let l = letter();
            b.b(b'{').b(l).b(b'}');
            (b, vec![L(l)])
        }
        2 => {
            let (l, m) = (letter(), letter());
            b.b(b'{').b(l).b(m).b(b'}');
            (b, vec![L(l), L(m)])
        }
        3 => {
            b.s("{}");
            (b, vec![])
        }
        4 => {
            let d = sx::digit();
            b.s("%\n ").b(d);
            (b, vec![L(d)])
        }
        5 => {
            let l = letter();
            b.s(" {{").b(l).s("} }");
            (b, vec![L(l)])
        }
        _ => {
            let (l, m) = (letter(), letter());
            b.s("{").b(l).b(m).b(l).b(m).b(m).b(l).s("}");
            (b, vec![L(l), L(m), L(l), L(m), L(m), L(l)])
        }
    }
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let i = k % NT;
    if TABLE[i].2 == '!' {
        return sx::cover(1);
    }
    let none = || (Buf::new(), Vec::new());
    let mut args = [none(), none(), none(), none()];
    let mut s = Buf::new();
    let want;
    let mut extra: Option<Vec<P>> = None;
    if k < NT {
        let mut n = 0;
        for a in 0..4 {
            if uses(i, b'A' + a) {
                // Digits next to one another are one number.
                args[a as usize] = simple(if n == 0 || deep { sx::choose(7) } else if n == 1 { [0, 1, 2, 3, 6][sx::choose(5)] } else { 1 });
                n += 1;
            }
        }
        let tail = sx::choose(6);
        if tail == 5 {
            s.s("-");
        }
        let mut w = put(&mut s, i, &args);
        let z = letter();
        match tail {
            1 => {
                s.b(z);
                extra = Some(vec![L(z)]);
            }
            2 | 3 => {
                s.b(if tail == 2 { b'^' } else { b'_' }).b(z);
                match TABLE[i].2 {
                    '-' => return sx::cover(1),
                    'n' => {
                        // The script belongs to the argument, which is a group or a letter.
                        let a = args[0].1.clone();
                        let at = w.len() - a.len();
                        w.truncate(at);
                        w.push(N(if tail == 2 { "msup" } else { "msub" }.into(), vec![a, vec![L(z)]]));
                    }
                    c => {
                        let tag = match (c, tail) {
                            ('o', 2) => "mover",
                            ('u', 3) => "munder",
                            // Which of both it is is a matter of taste.
                            ('o' | 'u', _) => return sx::cover(1),
                            (_, 2) => "msup",
                            _ => "msub",
                        };
                        w = vec![N(tag.into(), vec![w, vec![L(z)]])];
                    }
                }
            }
            4 => {
                s.s(" % \n{").b(z).s("}+");
                extra = Some(vec![L(z), Mo('+')]);
            }
            5 => w.insert(0, Mo('\u{2212}')),
            _ => {}
        }
        want = w;
    } else {
        // A construct inside of one.
        let j = sx::choose(NT);
        if TABLE[j].2 == '!' || TABLE[j].0.contains('#') {
            return sx::cover(1);
        }
        // Scripts at scripts before something become one element.
        if TABLE[j].1.starts_with("multi") && TABLE[i].0.starts_with('@') {
            return sx::cover(1);
        }
        let which = sx::choose(4);
        if !uses(i, b'A' + which as u8) {
            return sx::cover(1);
        }
        let mut ia = [none(), none(), none(), none()];
        for a in 0..4 {
            if uses(j, b'A' + a) {
                ia[a as usize] = simple(if deep { sx::choose(3) } else { 1 });
            }
        }
        let mut b = Buf::of("{");
        let p = put(&mut b, j, &ia);
        b.s("}");
        for a in 0..4 {
            if a == which {
                args[a] = (std::mem::take(&mut b), p.clone());
            } else if uses(i, b'A' + a as u8) {
                args[a] = simple(if deep { sx::choose(3) } else { 1 });
            }
        }
        let a = put(&mut s, i, &args);
        // A letter after it.
        let z = letter();
        s.b(z);
        extra = Some(vec![L(z)]);
        want = a;
    }
    let mut want = want;
    want.extend(extra.unwrap_or_default());
    sx::show(s.as_str());
    let c = std();
    let o = match conv(&c, s.as_str(), false) {
        Ok(o) => o,
        Err(_) => return sx::fail("a command with its arguments is refused"),
    };
    sx::note(&o);
    let Ok(root) = xml::parse(&o) else { return sx::fail("the result is not well-formed") };
    let mut got = Vec::new();
    seen(&root, &mut got);
    sx::check(got == want, "arguments are not in their places, or not marked as their command says");
    sx::cover(if k < NT { 2 } else { 3 });
}
