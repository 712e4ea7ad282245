//! Options: each of them changes what it says, and nothing else.
use crate::*;

pub const VARIANTS: u32 = 12;
/// A macro name longer than any command of the families.
const UNUSED: &str = "zzzzzzzzzzzzzzzzzzzzzzzz";

/// The members of the families which are looked at, with the variants for each: all of the simple ones, two for each of the others.
pub fn select(tier: u32, nv: u32) -> Vec<u32> {
    let mut v = Vec::new();
    for i in 0..fam::count(tier) {
        let (every, some) = match fam::nth(tier, i) {
            fam::Fam::Ctx { n, .. } => (n == 1, n == 2 && tier > 0),
            fam::Fam::Cmd { h, n, t } => (tier > 0 && t == 0, t == 0 && n % 2 == 1 || h == 0 && n < 8 || tier > 0),
            fam::Fam::Uni { .. } => (false, tier > 0 || i % 9 == 0),
            fam::Fam::Seq { .. } => (nv == VARIANTS || tier > 0, true),
            fam::Fam::Nest { i, j, .. } => (false, (i * 3 + j) % 23 == 0 || tier > 0),
            fam::Fam::Mut { i, .. } => (false, i % 3 == 0 || tier > 0),
        };
        for w in 0..nv {
            if every || (some && (i as u32 * 5 + w) % (nv / 2) == 0) {
                v.push(i as u32 * nv + w + if tier > 0 { fam::TIER } else { 0 });
            }
        }
    }
    v
}

pub fn jobs(tier: u32) -> Vec<u32> {
    select(tier, VARIANTS)
}

/// Undo pretty-printing: every line is indented by as many units as there are elements open around it.
fn flatten(s: &str, unit: &str) -> Result<String, &'static str> {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let (mut i, mut depth, mut from) = (0, 0usize, 0);
    while i < b.len() {
        match b[i] {
            b'\n' => {
                o.push_str(&s[from..i]);
                i += 1;
                let close = |i: usize| b[i..].starts_with(b"</");
                let mut n = 0;
                while !unit.is_empty() && b[i..].starts_with(unit.as_bytes()) {
                    i += unit.len();
                    n += 1;
                }
                if i >= b.len() || b[i] != b'<' {
                    return Err("a line of the pretty-printed result does not begin with a tag");
                }
                if !unit.is_empty() && n + close(i) as usize != depth {
                    return Err("a line of the pretty-printed result is not indented by its depth");
                }
                from = i;
            }
            b'<' => {
                let close = b[i + 1] == b'/';
                while b[i] != b'>' {
                    i += 1;
                }
                if close {
                    depth = depth.wrapping_sub(1);
                } else if b[i - 1] != b'/' {
                    depth += 1;
                }
                i += 1;
            }
            _ => i += 1,
        }
    }
    o.push_str(&s[from..]);
    Ok(o)
}

/// Take the annotation out of a result.
fn bare<'a>(s: &'a str, input: &str) -> Result<String, &'static str> {
    const A: &str = "<annotation encoding=\"application/x-tex\">";
    let Some(i) = p05::find(s, A) else { return Err("the annotation is missing") };
    let rest = &s[i + A.len()..];
    let Some(e) = p05::find(rest, "</annotation>") else { return Err("the annotation does not end") };
    if xml::unescape(&rest[..e]) != input {
        return Err("the annotation is not the input");
    }
    let mut o = String::from(&s[..i]);
    o.push_str(&rest[e + "</annotation>".len()..]);
    Ok(o)
}

/// `<math><semantics>X</semantics></math>`, with several nodes in one row, without the semantics.
fn unwrap(s: &str, want: &str) -> bool {
    let head = if s.starts_with("<math display=\"block\">") { "<math display=\"block\">" } else { "<math>" };
    let Some(x) = s.strip_prefix(head).and_then(|s| s.strip_prefix("<semantics>")).and_then(|s| s.strip_suffix("</semantics></math>")) else { return false };
    let Some(w) = want.strip_prefix(head).and_then(|s| s.strip_suffix("</math>")) else { return false };
    x == w || x.strip_prefix("<mrow>").and_then(|x| x.strip_suffix("</mrow>")).is_some_and(|x| x == w) || (w.is_empty() && x == "<mrow/>")
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER, k % fam::TIER);
    let v = k % VARIANTS;
    let b = fam::make(fam::nth(deep, (k / VARIANTS) as usize));
    let s = b.as_str();
    // Annotation: always, never, or automatically split into lines, inline or block.
    let how = if v == 4 { (k / VARIANTS + k / VARIANTS / 6) as usize % 4 } else { 9 };
    let block = v % 2 == 1 || how == 2 || how == 3;
    let base = std().convert_with_local_state(s, if block { MathDisplay::Block } else { MathDisplay::Inline });
    let mut c = MathCoreConfig::default();
    let units = ["", " ", "    ", "\t"];
    let mut unit = "    ";
    let pretty = |c: &mut MathCoreConfig, i: usize| {
        c.indentation = [Indentation::Spaces(0), Indentation::Spaces(1), Indentation::Spaces(4), Indentation::tab()][i];
    };
    match v {
        0 | 1 => {
            c.pretty_print = PrettyPrint::Always;
            let i = (k / VARIANTS) as usize % 4;
            unit = units[i];
            pretty(&mut c, i);
        }
        2 | 3 => {
            c.pretty_print = PrettyPrint::Auto;
            c.indentation = Indentation::Spaces(1);
            unit = " ";
        }
        4 => {
            c.annotation = true;
            c.pretty_print = [PrettyPrint::Always, PrettyPrint::Never, PrettyPrint::Never, PrettyPrint::Auto][how];
            c.indentation = Indentation::Spaces(1);
            unit = " ";
        }
        5 => c.xml_namespace = true,
        6 => c.ignore_unknown_commands = true,
        7 => c.allow_unreliable_rendering = true,
        8 => {
            c.macros = vec![(UNUSED.into(), "\\alpha#1".into())];
            c.css_classes.unknown_command = "c".into();
            c.id_prefix = String::new();
        }
        9 => c.global_group = true,
        10 => c.max_expansions = MaxExpansions(1),
        _ => c.unicode_substitution = UnicodeSubstitution::Never,
    }
    let mut c = new(c);
    let display = if block { MathDisplay::Block } else { MathDisplay::Inline };
    let r = if v == 9 { c.convert_with_global_state(s, display) } else { c.convert_with_local_state(s, display) };
    let base = match base {
        Err(e) => {
            let m = e.error_message();
            sx::note(&m);
            match r {
                Err(f) => {
                    let n = f.error_message();
                    sx::note(&n);
                    let other = v == 10 && n.contains("expan") || (v == 6 || v == 7) && m.contains("Unknown command");
                    sx::check(other || m == n && e.0 == f.0, "an option changes an error it has nothing to do with");
                }
                Ok(r) => {
                    sx::note(&r.mathml);
                    match v {
                        6 => {
                            sx::check(m.contains("Unknown command"), "ignoring unknown commands hides another error");
                            // (An unknown command may be in a part which is not shown.)
                            sx::check(r.warnings.has_unknown_commands() || !r.mathml.contains("math-core-unknown-cmd"), "there is no warning about an unknown command which was ignored");
                        }
                        // The parts of a symbol may be several arguments.
                        11 => sx::check(r.mathml.contains(['\u{b7}', '\u{22c5}', ':', '=', '-', '\u{2212}']), "a formula which fails converts with other symbols"),
                        7 => sx::check(m.contains("Unknown command"), "allowing unreliable rendering hides an error"),
                        _ => sx::fail("a formula which fails converts with an option which has nothing to do with it"),
                    }
                }
            }
            return sx::cover(2);
        }
        Ok(r) => r,
    };
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            sx::note(&e.error_message());
            return sx::check(v == 10 && e.error_message().contains("expan"), "a formula which converts fails with an option which has nothing to do with it");
        }
    };
    sx::note(&r.mathml);
    sx::check(base.warnings.has_any() == r.warnings.has_any(), "an option changes the warnings");
    let mut got = r.mathml;
    match v {
        0..=4 => {
            if v == 4 {
                got = match bare(&got, s) {
                    Ok(g) => g,
                    Err(m) => return sx::fail(m),
                };
            }
            let lines = got.contains('\n');
            let want = matches!(v, 0 | 1 | 3) || how == 0 || how == 3;
            sx::check(lines == want, "the result is or is not split into lines as the option says");
            if lines {
                // The annotation's own line is empty now.
                if v == 4 {
                    got = match got.rfind("\n  \n") {
                        Some(i) => {
                            let mut g = String::from(&got[..i]);
                            g.push_str(&got[i + 3..]);
                            g
                        }
                        None => return sx::fail("the annotation is not on a line of its own"),
                    };
                }
                got = match flatten(&got, unit) {
                    Ok(g) => g,
                    Err(m) => return sx::fail(m),
                };
            }
            if v == 4 {
                sx::check(unwrap(&got, &base.mathml), "the annotation changes the formula");
            } else {
                sx::check(got == base.mathml, "pretty-printing changes the formula");
            }
        }
        5 => {
            let mut w = String::from("<math xmlns=\"http://www.w3.org/1998/Math/MathML\"");
            w.push_str(&base.mathml[5..]);
            sx::check(got == w, "the namespace changes more than the root element");
        }
        11 => {
            // Composite symbols become several characters; nothing else changes.
            if base.mathml.chars().any(|c| matches!(c, '⩴' | '⋯' | '≔' | '∹' | '∷' | '≕')) {
                return sx::cover(1);
            }
            sx::check(got == base.mathml, "the choice of symbols changes a formula without any of them");
        }
        _ => sx::check(got == base.mathml, "an option changes the result of a formula it has nothing to do with"),
    }
    sx::cover(1);
}
