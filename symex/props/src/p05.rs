//! Macros: using a macro means the same as writing its body with the arguments in place, wherever it was defined.
use crate::*;

const FORMS: u32 = 8;

/// Bodies of macros with one parameter: what comes before and after it.
pub const BODY: &[(&str, &str)] = &[
    ("", ""),
    ("x", "y"),
    ("{", "}"),
    ("x^{", "}_y"),
    ("x_", ""),
    ("", "'"),
    ("\\sqrt{", "}"),
    ("\\sqrt[", "]{x}"),
    ("\\frac{", "}2"),
    ("\\frac", "2"),
    ("\\hat", ""),
    ("\\overbrace{x}^{", "}"),
    ("\\left(", "\\right)"),
    ("\\left(x\\middle|", "\\right)"),
    ("\\mathbf{", "}"),
    ("\\mathrm ", "x"),
    ("{\\bf ", "}x"),
    ("\\text{", "}"),
    ("\\begin{matrix}", "\\end{matrix}"),
    ("\\begin{cases}a&b\\\\", "\\end{cases}"),
    ("\\color{red}", "x"),
    ("\\textcolor{red}{", "}"),
    ("\\operatorname{", "}x"),
    ("\\mathrel{", "}x"),
    ("\\overset{", "}="),
    ("{a\\over", "c}"),
    ("\\phantom{", "}"),
    ("1", ".5"),
    ("=", "="),
    ("+", "+"),
    ("\\sum_{", "}"),
    ("\\sin ", "x"),
    ("\\not", ""),
    ("-", ""),
    ("(", ")"),
    ("{\\displaystyle", "x}"),
    ("\\hspace{1em}", "\\,"),
    ("\\bigl(", "\\bigr)"),
    ("\\begin{align}a&", "\\end{align}"),
    ("\\begin{subarray}{c}", "\\end{subarray}"),
    ("\\Set{", "|x}"),
];

/// Where the macro is used.
pub const USE: &[(&str, &str)] = &[
    ("", ""),
    ("x", "y"),
    ("{", "}"),
    ("x^{", "}_y"),
    ("\\sqrt{", "}"),
    ("\\sqrt[", "]{x}"),
    ("\\frac{", "}2"),
    ("\\left(", "\\right)"),
    ("\\mathbf{", "}"),
    ("{\\bf ", "}x"),
    ("\\begin{matrix}", "&\\end{matrix}"),
    ("\\begin{align}a&", "\\\\b\\end{align}"),
    ("\\color{red}", "x"),
    ("=", "="),
    ("+", "+"),
    ("-", "2"),
    ("(", ")"),
    ("\\sum_{", "}"),
    ("\\sin", "x"),
    ("a\\over", "c"),
    ("1", ".5"),
    ("\\overset{", "}="),
    ("\\mathop{", "}\\limits_x"),
    ("x,", "'"),
    ("\\log", "_2"),
    ("\\displaystyle", "^2"),
];

pub fn jobs(tier: u32) -> Vec<u32> {
    let n = (BODY.len() * USE.len()) as u32;
    let mut v = Vec::new();
    for i in 0..BLANK.len() as u32 {
        v.push(NOTHING + i + if tier > 0 { 500_000 } else { 0 });
    }
    for i in 0..MULTI {
        v.push(SEVERAL + i + if tier > 0 { 500_000 } else { 0 });
    }
    for k in 0..n {
        for f in 0..FORMS {
            if tier > 0 || (k / USE.len() as u32 + k) % 2 == f % 2 {
                v.push(k * FORMS + f + if tier > 0 { 500_000 } else { 0 });
            }
        }
    }
    v
}

const SEVERAL: u32 = 100_000;
const NOTHING: u32 = 200_000;
/// Where a macro is an argument.
const BLANK: [(&str, &str); 17] = [
    ("\\frac", "x"),
    ("\\frac{x}", ""),
    ("\\frac x", ""),
    ("\\sqrt", "y"),
    ("\\sqrt[3]", "y"),
    ("\\hat", "y"),
    ("\\overset", "y"),
    ("\\overset{x}", "+y"),
    ("\\mathbf", "y"),
    ("a\\mathrel", "y"),
    ("\\underbrace", "y"),
    ("\\binom", "y"),
    ("\\phantom", "y"),
    ("\\boxed", "y"),
    ("\\xrightarrow", "y"),
    ("\\textcolor{red}", "y"),
    ("\\mathchoice", "yzw"),
];

/// A macro without anything but white space in it is an empty argument, and takes nothing from what follows.
fn nothing(k: usize, deep: bool) {
    let (pre, post) = BLANK[k];
    let n = sx::choose(if deep { 5 } else { 3 });
    let mut body = Buf::new();
    for _ in 0..n {
        let b = sx::byte();
        sx::assume((b == b' ') | (b == b'\t') | (b == b'\n'));
        body.b(b);
    }
    let mut cfg = MathCoreConfig::default();
    let mut s = Buf::new();
    match sx::choose(5) {
        0 => drop(s.s("\\def\\e{").s(body.as_str()).s("}")),
        1 => drop(s.s("\\newcommand{\\e}{").s(body.as_str()).s("}")),
        2 => cfg.macros = vec![("e".into(), body.as_str().into())],
        3 => drop(s.s("\\def\\f#1{#1}\\def\\e{\\f{").s(body.as_str()).s("}}")),
        _ => drop(s.s("\\def\\f{").s(body.as_str()).s("}\\def\\e{\\f}")),
    }
    s.s(pre).s("\\e ").s(post);
    let mut want = Buf::of(pre);
    want.s("{}").s(post);
    sx::show(s.as_str());
    match (conv(&new(cfg), s.as_str(), false), conv(&std(), want.as_str(), false)) {
        (Ok(x), Ok(y)) => {
            sx::note(&x);
            sx::note(&y);
            sx::check(unspaced(&x) == unspaced(&y), "a macro with nothing in it is not an empty argument");
            sx::cover(1);
        }
        (Err(e), _) | (_, Err(e)) => {
            sx::note(&e.error_message());
            sx::fail("a macro with nothing in it is refused as an argument");
        }
    }
}
const MULTI: u32 = 4 * 9;

/// What a macro with several parameters does with them; `@` stands for a use, and what it uses is a choice.
const SHAPES: [&str; 9] = [
    "@@@",
    "{@}x^{@}@",
    "\\frac{@}{@}@",
    "\\frac@@",
    "\\left(@\\middle|@\\right)",
    "\\begin{matrix}@&@\\\\@\\end{matrix}",
    "\\n{@}{@}@",
    "\\n{@}{\\n{@}y}",
    "\\sqrt[@]{@}\\hat{@}",
];

/// A macro with several parameters, some of which get empty arguments, groups, or uses of another macro.
fn several(k: u32, deep: bool) {
    let (shape, how) = (SHAPES[k as usize % 9], k / 9);
    let params = if how == 0 { 2 } else { 3 };
    let (mut args, mut plains) = (Vec::new(), Vec::new());
    for i in 0..params {
        let (mut a, mut p) = (Buf::new(), Buf::new());
        let n = sx::choose(if how == 3 { 5 } else { 4 });
        let c = if n == 0 || n == 4 { 0 } else { sx::letter() };
        match n {
            0 => {}
            1 => drop((a.b(c), p.b(c))),
            2 => drop((a.b(c).s("+{}"), p.b(c).s("+{}"))),
            3 if how == 1 => drop((a.s("\\qq").b(b'{').b(c).s("}"), p.s("<").b(c).s(">"))),
            3 => drop((a.s("{").b(c).s("}"), p.s("{").b(c).s("}"))),
            _ => drop((a.s("\\n{}{k}"), p.s("k=1"))),
        }
        let _ = i;
        args.push(a);
        plains.push(p);
    }
    let (mut body, mut plain) = (Buf::new(), Buf::new());
    let mut depth = Vec::new();
    for c in shape.bytes() {
        if c == b'@' {
            let w = sx::choose(params);
            body.s("#").num(w + 1);
            depth.push(w);
        } else {
            body.b(c);
        }
    }
    // `\n` shows its second argument before its first one.
    let mut i = 0;
    let arg = |w: usize| {
        // Nothing at all counts as an empty group.
        if plains[w].0.is_empty() { Buf::of("{}") } else { Buf::of(plains[w].as_str()) }
    };
    match shape {
        "\\n{@}{@}@" => {
            plain.s(arg(depth[1]).as_str()).s("=1").s(arg(depth[0]).as_str()).s(arg(depth[2]).as_str());
        }
        "\\n{@}{\\n{@}y}" => {
            plain.s("y=1").s(arg(depth[1]).as_str()).s("=1").s(arg(depth[0]).as_str());
        }
        _ => {
            for c in shape.bytes() {
                if c == b'@' {
                    join(&mut plain, &arg(depth[i]).0);
                    i += 1;
                } else {
                    plain.b(c);
                }
            }
        }
    }
    let mut s = Buf::new();
    s.s("\\newcommand\\qq[1]{<#1>}\\newcommand{\\n}[2]{#2=1#1}");
    s.s(if how % 2 == 0 { "\\newcommand{\\m}" } else { "\\def\\m" });
    if how % 2 == 0 {
        s.s("[").num(params).s("]");
    } else {
        s.s(if params == 2 { "#1#2" } else { "#1#2#3" });
    }
    s.s("{").s(body.as_str()).s("}");
    let uses = if deep { 2 } else { 1 };
    let mut want = Buf::new();
    for _ in 0..uses {
        s.s("\\m");
        for a in &args {
            s.s("{").s(a.as_str()).s("}");
        }
        want.s(plain.as_str());
    }
    sx::show(s.as_str());
    sx::show(want.as_str());
    let x = conv(&std(), s.as_str(), false);
    let y = conv(&std(), want.as_str(), false);
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            sx::note(x);
            sx::note(y);
            sx::check(weak(x) == weak(y), "a macro with several parameters does not mean what its body means");
            sx::cover(3);
        }
        (Err(x), Err(y)) => {
            sx::note(&x.error_message());
            sx::note(&y.error_message());
            sx::cover(4);
        }
        (Err(x), Ok(_)) => {
            sx::note(&x.error_message());
            sx::fail("a formula with a macro of several parameters fails, and with its body in place it does not");
        }
        (Ok(_), Err(_)) => sx::fail("a formula with a macro of several parameters converts, and with its body in place it does not"),
    }
}

/// The end of a control word, which a letter would extend.
pub fn word(s: &[u8]) -> bool {
    let mut i = s.len();
    while i > 0 && s[i - 1].is_ascii_alphabetic() {
        i -= 1;
    }
    i > 0 && i < s.len() && s[i - 1] == b'\\' && !(i > 1 && s[i - 2] == b'\\')
}

pub fn join(b: &mut Buf, s: &[u8]) {
    if word(&b.0) && s.first().is_some_and(|c| c.is_ascii_alphabetic() || *c == b'*') {
        b.b(b' ');
    }
    b.0.extend_from_slice(s);
}

/// Converts `a`, in which `\m` with the argument `arg` stands for `body`.
fn with_macro(form: u32, body: &str, pre: &str, arg: &[u8], post: &str) -> Result<String, Box<LatexError>> {
    let mut s = Buf::new();
    let mut cfg = MathCoreConfig::default();
    let mut before = Buf::new();
    match form {
        0 => drop(s.s("\\newcommand{\\m}[1]{").s(body).s("}")),
        1 => drop(s.s("\\def\\m#1{").s(body).s("}")),
        2 => cfg.macros = vec![("m".into(), body.into())],
        3 => drop(s.s("\\newcommand\\m{x}\\renewcommand\\m[1]{").s(body).s("}")),
        4 => drop(before.s("\\gdef\\m#1{").s(body).s("}")),
        5 => drop(s.s("\\providecommand{\\n}[1]{").s(body).s("}\\let\\m=\\n\\def\\n{?}")),
        // A macro which passes its argument on to another one, which is defined later.
        6 => drop(s.s("\\newcommand{\\m}[2]{\\n{#2}}\\newcommand{\\n}[1]{").s(body).s("}")),
        _ => {
            cfg.global_group = true;
            before.s("\\newcommand\\m[1]{").s(body).s("}");
        }
    }
    let mut c = new(cfg);
    s.s(pre).s("\\m");
    if form == 6 {
        s.s("{?}");
    }
    s.s("{");
    s.0.extend_from_slice(arg);
    s.s("}").s(post);
    sx::show(before.as_str());
    sx::show(s.as_str());
    if !before.0.is_empty() {
        if let Err(e) = c.convert_with_global_state(before.as_str(), MathDisplay::Inline) {
            return Err(e);
        }
        return c.convert_with_global_state(s.as_str(), MathDisplay::Inline).map(|r| r.mathml);
    }
    conv(&c, s.as_str(), false)
}

/// What is left when it does not matter how letters and digits are put together.
pub fn weak(s: &str) -> String {
    let mut s = unspaced(s);
    for t in ["<mspace/>", "<mrow>", "</mrow>", " mathvariant=\"normal\"", "</mi><mi>", "</mn><mn>"] {
        let mut o = String::with_capacity(s.len());
        let mut rest = s.as_str();
        while let Some(i) = find(rest, t) {
            o.push_str(&rest[..i]);
            rest = &rest[i + t.len()..];
        }
        o.push_str(rest);
        s = o;
    }
    s
}

pub fn find(s: &str, t: &str) -> Option<usize> {
    let (a, b) = (s.as_bytes(), t.as_bytes());
    let mut i = 0;
    while i + b.len() <= a.len() {
        if a[i] == b[0] && &a[i..i + b.len()] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Without the attributes which only concern the space around an operator.
pub fn unspaced(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let (mut i, mut from) = (0, 0);
    while i < b.len() {
        if b[i] == b' ' && (s[i..].starts_with(" lspace=\"") || s[i..].starts_with(" rspace=\"")) {
            o.push_str(&s[from..i]);
            i += 9;
            while b[i] != b'"' {
                i += 1;
            }
            i += 1;
            from = i;
        } else {
            i += 1;
        }
    }
    o.push_str(&s[from..]);
    o
}

pub fn run(k: u32) {
    let (deep, k) = (k / 500_000, k % 500_000);
    if k >= NOTHING {
        return nothing((k - NOTHING) as usize, deep > 0);
    }
    if k >= SEVERAL {
        return several(k - SEVERAL, deep > 0);
    }
    let form = k % FORMS;
    let (b, u) = ((k / FORMS) as usize / USE.len(), (k / FORMS) as usize % USE.len());
    let mut arg = vec![sx::ascii()];
    if deep > 0 {
        arg.push(sx::ascii());
    }
    for c in &arg {
        // Characters with a meaning of their own in a definition; `\` before anything could be any command.
        sx::assume((*c != b'\\') & (*c != b'{') & (*c != b'}') & (*c != b'%') & (*c != b'#') & !c.is_ascii_whitespace() & (*c != 0));
    }
    // What the input reader decides before it expands anything: a bracket which closes an optional argument, a script or prime
    // and what it belongs to, a cell boundary as an argument.
    for c in &arg {
        sx::assume((*c != b']') & (*c != b'[') & (*c != b'&'));
        if BODY[b].0.starts_with('1') || USE[u].0.starts_with('1') {
            sx::assume(!c.is_ascii_digit() & (*c != b'.') & (*c != b'^') & (*c != b'_') & (*c != b'\''));
        }
        if BODY[b].0.is_empty() {
            sx::assume((*c != b'^') & (*c != b'_') & (*c != b'\''));
        }
    }
    let mut body = Buf::of(BODY[b].0);
    join(&mut body, b"#1");
    body.s(BODY[b].1);
    let mut plain = Buf::of(USE[u].0);
    join(&mut plain, BODY[b].0.as_bytes());
    join(&mut plain, &arg);
    join(&mut plain, BODY[b].1.as_bytes());
    join(&mut plain, USE[u].1.as_bytes());
    sx::show(plain.as_str());
    let x = with_macro(form, body.as_str(), USE[u].0, &arg, USE[u].1);
    let y = conv(&std(), plain.as_str(), false);
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            sx::note(x);
            // The spacing of an operator depends on what follows, which is not known when that is a parameter.
            // Letters in a font and digits are merged up to where a macro begins.
            let merged = |s: &str| s.contains("\\math") || s.contains("\\bf") || s.contains('1');
            let same = if merged(BODY[b].0) || merged(USE[u].0) {
                weak(x) == weak(y)
            } else if BODY[b].0.is_empty() || BODY[b].0 == "\\not" || form == 6 {
                unspaced(x) == unspaced(y)
            } else {
                x == y
            };
            sx::check(same, "a macro does not mean what its body means");
            sx::cover(1);
        }
        (Err(x), Err(_)) => {
            sx::note(&x.error_message());
            sx::cover(2);
        }
        (Err(x), Ok(_)) => {
            sx::note(&x.error_message());
            sx::fail("a formula with a macro fails, and with its body in place it does not");
        }
        (Ok(_), Err(_)) => sx::fail("a formula with a macro converts, and with its body in place it does not"),
    }
}
