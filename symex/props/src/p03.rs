//! Errors point into the input, at character boundaries, and are reported without the input becoming markup.
use crate::*;

const NV: u32 = 3;

pub fn jobs(tier: u32) -> Vec<u32> {
    fam::jobs(tier, NV)
}

fn num(mut n: usize, out: &mut Buf) {
    let mut d = [0u8; 20];
    let mut k = 20;
    loop {
        k -= 1;
        d[k] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for x in &d[k..] {
        out.b(*x);
    }
}

pub fn oracle(e: &LatexError, s: &str, block: bool, html: bool) {
    sx::check(e.0.start <= e.0.end, "the span of an error is reversed");
    sx::check(e.0.end <= s.len(), "the span of an error reaches beyond the input");
    sx::check(s.is_char_boundary(e.0.start) && s.is_char_boundary(e.0.end), "the span of an error splits a character");
    let m = e.error_message();
    sx::check(!m.is_empty(), "an error without a message");
    sx::check(!e.label().is_empty(), "an error without a label");
    if !html {
        sx::note(&m);
        return;
    }
    let mut chars = 0;
    for (i, _) in s.char_indices() {
        if i < e.0.start {
            chars += 1;
        }
    }
    let mut want = Buf::new();
    num(chars, &mut want);
    want.s(": ").s(&m);
    let mut msg = String::new();
    e.to_message(&mut msg, s);
    sx::check(msg == want.as_str(), "the message does not state the character offset of the error");
    let mut html = Buf::new();
    let tag = if block { "p" } else { "span" };
    html.s("<").s(tag).s(" class=\"c\" title=\"");
    for c in msg.chars() {
        match c {
            '&' => html.s("&amp;"),
            '"' => html.s("&quot;"),
            c => html.c(c),
        };
    }
    html.s("\"><code>");
    for c in s.chars() {
        match c {
            '&' => html.s("&amp;"),
            '<' => html.s("&lt;"),
            '>' => html.s("&gt;"),
            c => html.c(c),
        };
    }
    html.s("</code></").s(tag).s(">");
    let got = e.to_html(s, if block { MathDisplay::Block } else { MathDisplay::Inline }, Some("c"));
    sx::note(&got);
    sx::check(got == html.as_str(), "the HTML of an error is not the message and the escaped input");
}

/// What a message quotes from the input is what its span covers.
fn quoted(e: &LatexError, s: &str) {
    let m = e.error_message();
    if m.starts_with("Unknown command") || m.starts_with("Unknown environment") {
        let m = m.as_bytes();
        let (mut a, mut z) = (0, m.len());
        while a < m.len() && m[a] != b'"' {
            a += 1;
        }
        while z > 0 && m[z - 1] != b'"' {
            z -= 1;
        }
        sx::check(a + 2 <= z, "a message without a quotation");
        let (q, t) = (&m[a + 1..z - 1], &s.as_bytes()[e.0.start..e.0.end]);
        let mut found = false;
        let mut i = 0;
        while i + q.len() <= t.len() {
            let mut same = true;
            for j in 0..q.len() {
                same &= t[i + j] == q[j];
            }
            found |= same;
            i += 1;
        }
        sx::check(found, "the span of an error does not cover what its message quotes");
        sx::cover(3);
    }
}

pub fn run(k: u32) {
    let (tier, k) = (k / fam::TIER, k % fam::TIER);
    let f = fam::nth(tier, (k / NV) as usize);
    let v = k % NV;
    let b = fam::make(f);
    let mut cfg = MathCoreConfig::default();
    if v == 1 {
        cfg.macros = vec![("a".into(), "\\frac{#1}".into()), ("q".into(), "éé\\middle".into()), ("z".into(), "éééééééééééééééé\\left".into())];
    }
    let mut c = new(cfg);
    let r = if v == 2 {
        // Definitions of an earlier, longer formula have no place in this one.
        let _ = c.convert_with_global_state(
            "\\gdef\\a#1{ééééééééééééééééééééééééééééééééééééééééééééééé\\frac{#1}\\undefined}\\gdef\\q{éééééééééé\\left}\\gdef\\z{\\begin{matrix}}",
            MathDisplay::Inline,
        );
        let mut s = Buf::new();
        s.s("é\\a").s(b.as_str()).s("\\q");
        let r = c.convert_with_global_state(s.as_str(), MathDisplay::Inline);
        match r {
            Ok(_) => sx::cover(2),
            Err(e) => {
                oracle(&e, s.as_str(), false, false);
                sx::cover(1);
            }
        }
        return;
    } else {
        c.convert_with_local_state(b.as_str(), MathDisplay::Block)
    };
    match r {
        Ok(_) => sx::cover(2),
        Err(e) => {
            oracle(&e, b.as_str(), v == 1, v == 1);
            let defines = match f {
                fam::Fam::Ctx { i, .. } | fam::Fam::Uni { i, .. } => {
                    let c = fam::CTX[i].0;
                    c.starts_with("\\newcommand") || c.starts_with("\\def") || c.starts_with("\\let") || c == "\\" || c == "\\global"
                }
                fam::Fam::Nest { .. } | fam::Fam::Mut { .. } => true,
                fam::Fam::Cmd { h, .. } => h >= 16,
                fam::Fam::Seq { .. } => true,
            };
            if v == 0 && !defines {
                quoted(&e, b.as_str());
            }
            sx::cover(1);
        }
    }
}
