//! Equation numbers, tags, labels and references, against a reference model, through histories of formulas.
use crate::*;

/// Environments, with whether their rows are numbered, and whether they take `\tag` and `\label` at all.
const ENVS: &[(&str, Mode)] = &[
    ("align", Mode::Every),
    ("align*", Mode::Tagged),
    ("gather", Mode::Every),
    ("gather*", Mode::Tagged),
    ("multline", Mode::Once),
    ("equation", Mode::Every),
    ("equation*", Mode::Tagged),
    ("aligned", Mode::Never),
    ("matrix", Mode::Never),
    ("gathered", Mode::Never),
    ("cases", Mode::Never),
];
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Every,
    Tagged,
    Once,
    Never,
}

/// What can be written in a row besides its content.
const NOTES: usize = 7;
#[derive(Clone, Copy)]
enum Note {
    No,
    Notag(bool),
    Tag(u8, bool),
    Label(u8),
}
fn note(i: usize) -> Note {
    match i {
        0 => Note::No,
        1 => Note::Notag(true),
        2 => Note::Notag(false),
        3 => Note::Tag(sx::letter(), true),
        4 => Note::Tag(sx::letter(), false),
        5 => Note::Label(b'a'),
        _ => Note::Label(b'b'),
    }
}

#[derive(Clone)]
struct Formula {
    env: usize,
    rows: Vec<Vec<Note>>,
    refs: &'static str,
}

#[derive(Clone, Default)]
struct Doc {
    count: usize,
    labels: Vec<(u8, Vec<u8>)>,
}

/// What is expected of a formula: per row the text of the number and the label it carries.
struct Want {
    rows: Vec<Option<(Vec<u8>, bool, Option<u8>)>>,
    error: Option<&'static str>,
}

const WRONG_PLACE: &str = "may only appear in a numbered equation environment";

impl Formula {
    fn write(&self, b: &mut Buf) {
        for r in self.refs.bytes().filter(|r| r.is_ascii_lowercase()) {
            b.s("\\eqref{").b(r).s("}");
        }
        if self.rows.is_empty() {
            b.s("x");
        } else {
            b.s("\\begin{").s(ENVS[self.env].0).s("}");
            for (i, r) in self.rows.iter().enumerate() {
                if i > 0 {
                    b.s("\\\\");
                }
                b.s("x");
                for n in r {
                    match *n {
                        Note::No => {}
                        Note::Notag(true) => drop(b.s("\\notag ")),
                        Note::Notag(false) => drop(b.s("\\nonumber ")),
                        Note::Tag(c, true) => drop(b.s("\\tag{").b(c).s("}")),
                        Note::Tag(c, false) => drop(b.s("\\tag*{").b(c).s("}")),
                        Note::Label(c) => drop(b.s("\\label{").b(c).s("}")),
                    }
                }
            }
            b.s("\\end{").s(ENVS[self.env].0).s("}");
        }
        for r in self.refs.bytes().filter(|r| r.is_ascii_uppercase()) {
            b.s("\\eqref{").b(r | 32).s("}");
        }
    }
    fn model(&self, d: &mut Doc) -> Want {
        let mode = ENVS[self.env].1;
        let mut w = Want { rows: Vec::new(), error: None };
        let (mut tag, mut quiet, mut label) = (None, false, None);
        for (i, r) in self.rows.iter().enumerate() {
            for n in r {
                match *n {
                    Note::No => {}
                    Note::Notag(_) => quiet = true,
                    Note::Tag(..) | Note::Label(_) if mode == Mode::Never => {
                        w.error = Some(WRONG_PLACE);
                        return w;
                    }
                    Note::Tag(c, p) => tag = Some((vec![c], p)),
                    Note::Label(_) if label.is_some() => {
                        w.error = Some("more than one label");
                        return w;
                    }
                    Note::Label(c) => label = Some(c),
                }
            }
            if mode == Mode::Once && i + 1 < self.rows.len() {
                w.rows.push(None);
                continue;
            }
            // As pinned by the repository's snapshot of `1\nonumber\tag{32}\\2`: where a tag makes the suppression of the number
            // unnecessary, it is left to the next row.
            let left = quiet && tag.is_some();
            let t = match tag.take() {
                Some(t) => Some(t),
                None if quiet || mode == Mode::Tagged || mode == Mode::Never => None,
                None => {
                    d.count += 1;
                    let mut n = Buf::new();
                    n.num(d.count);
                    Some((n.0, true))
                }
            };
            if let (Some((t, _)), Some(l)) = (&t, label) {
                d.labels.retain(|x| x.0 != l);
                d.labels.push((l, t.clone()));
            }
            w.rows.push(t.map(|(t, p)| (t, p, label)));
            (quiet, label) = (left, None);
        }
        w
    }
}

fn compare(f: &Formula, r: Result<ConvertResult, Box<LatexError>>, w: &Want, d: &Doc, prefix: &str) {
    let r = match r {
        Err(e) => {
            let m = e.error_message();
            sx::note(&m);
            match w.error {
                None => sx::fail("a formula with correct tags and labels fails"),
                Some(part) => sx::check(m.contains(part), "the error is not about the misplaced tag or label"),
            }
            sx::cover(2);
            return;
        }
        Ok(r) => r,
    };
    sx::note(&r.mathml);
    if w.error.is_some() {
        return sx::fail("a misplaced tag or label is accepted");
    }
    let root = match xml::parse(&r.mathml) {
        Ok(e) => e,
        Err(m) => return sx::fail(m),
    };
    if let Some(t) = root.find("mtable") {
        sx::check(t.n() == f.rows.len(), "the table does not have the rows of the environment");
        for (row, want) in t.els().zip(&w.rows) {
            if ENVS[f.env].1 == Mode::Never {
                sx::check(row.find("mtext").is_none(), "a row of an environment without numbers has a number");
                continue;
            }
            let n = row.n();
            sx::check(n == 3, "a numbered row does not have its three cells");
            let (Some(first), Some(last)) = (row.el(0), row.el(n - 1)) else { return sx::fail("a row without cells") };
            sx::check(first.n() == 0, "the cell which balances the number is not empty");
            match want {
                None => {
                    sx::check(last.n() == 0, "a row has a number which should not have one");
                    sx::check(last.attr("id").is_none(), "a row without a number is a link target");
                }
                Some((t, p, l)) => {
                    let mut b = Buf::new();
                    if *p {
                        b.s("(");
                    }
                    b.0.extend_from_slice(t);
                    if *p {
                        b.s(")");
                    }
                    let mut got = String::new();
                    last.all_text(&mut got);
                    sx::check(got == b.as_str(), "a row does not have the number or tag it should have");
                    let mut id = Buf::of(prefix);
                    if let Some(l) = l {
                        id.b(*l);
                    }
                    sx::check(last.attr("id") == l.map(|_| id.as_str()), "the id of a row is not its label");
                }
            }
        }
    } else {
        sx::check(f.rows.is_empty(), "an environment is lost");
    }
    let mut refs = Vec::new();
    root.walk(&mut |e| {
        if e.tag == "a" {
            refs.push(e);
        }
    });
    let names: Vec<u8> = f.refs.bytes().map(|c| c | 32).collect();
    sx::check(refs.len() == names.len(), "a reference is lost");
    let mut unknown = false;
    for (e, name) in refs.iter().zip(&names) {
        let mut b = Buf::of("(");
        match d.labels.iter().find(|l| l.0 == *name) {
            Some(l) => b.0.extend_from_slice(&l.1),
            None => {
                unknown = true;
                b.s("??");
            }
        }
        b.s(")");
        sx::check(e.text() == b.as_str(), "a reference does not show the number of the equation with that label");
        let mut h = Buf::of("#");
        h.s(prefix).b(*name);
        sx::check(e.attr("href") == Some(h.as_str()), "a reference does not point at the label");
    }
    sx::check(r.warnings.has_undefined_references() == unknown, "the warning about undefined references is wrong");
    sx::cover(1);
}

fn go(c: &mut LatexToMathML, f: &Formula, d: &mut Doc, local: bool, prefix: &str) {
    let mut b = Buf::new();
    f.write(&mut b);
    sx::show(b.as_str());
    if local {
        let mut d = Doc::default();
        let w = f.model(&mut d);
        compare(f, c.convert_with_local_state(b.as_str(), MathDisplay::Block), &w, &d, prefix);
    } else {
        let w = f.model(d);
        compare(f, c.convert_with_global_state(b.as_str(), MathDisplay::Block), &w, d, prefix);
    }
}

/// The formulas of the histories.
const KINDS: usize = 9;
fn kind(k: usize, deep: bool) -> Formula {
    let tag = || Note::Tag(if deep { sx::letter() } else { b'T' }, true);
    let f = |env, rows, refs| Formula { env, rows, refs };
    match k {
        0 => f(0, vec![], ""),
        1 => f(0, vec![vec![Note::Label(b'a')], vec![]], ""),
        2 => f(5, vec![vec![tag(), Note::Label(b'a')]], ""),
        3 => f(0, vec![], "abC"),
        4 => f(2, vec![vec![Note::Label(b'b')], vec![Note::Notag(true)], vec![Note::Label(b'a')]], ""),
        5 => f(4, vec![vec![], vec![Note::Label(b'b')]], "aB"),
        6 => f(1, vec![vec![Note::Label(b'b'), tag()]], ""),
        7 => f(5, vec![vec![]], "bA"),
        _ => f(0, vec![vec![Note::Notag(false)], vec![Note::Notag(true), Note::Label(b'b')]], ""),
    }
}

const NB: u32 = 8;

pub fn jobs(tier: u32) -> Vec<u32> {
    let mut v = Vec::new();
    for e in 0..ENVS.len() {
        for rows in 1..=3 {
            if rows > 1 && ENVS[e].0.starts_with("equation") {
                continue;
            }
            for a in 0..NOTES * NOTES {
                v.push(((e * 3 + rows - 1) * NOTES * NOTES + a) as u32 + if tier > 0 { 500_000 } else { 0 });
            }
        }
    }
    v.extend((0..NB).map(|k| 10_000 + k + if tier > 0 { 500_000 } else { 0 }));
    v.extend((0..(KINDS * KINDS * 10) as u32).map(|k| 20_000 + k + if tier > 0 { 500_000 } else { 0 }));
    v
}

pub fn run(k: u32) {
    let (deep, k) = (k >= 500_000, (k % 500_000) as usize);
    if k < 10_000 {
        one(deep, k)
    } else if k < 20_000 {
        bytes(deep, k - 10_000)
    } else {
        history(deep, k - 20_000)
    }
}

/// Every combination of tags, labels and suppressed numbers in an environment of up to three rows.
fn one(deep: bool, k: usize) {
    let (a, k) = (k % (NOTES * NOTES), k / (NOTES * NOTES));
    let (rows, env) = (1 + k % 3, k / 3);
    let mut f = Formula { env, rows: vec![vec![note(a / NOTES), note(a % NOTES)]], refs: if a % 2 == 0 { "a" } else { "B" } };
    for i in 1..rows {
        let n = if i == 1 && rows == 2 || deep { 2 } else { 1 };
        f.rows.push((0..n).map(|_| note(sx::choose(NOTES))).collect());
    }
    let mut c = std();
    let mut d = Doc::default();
    go(&mut c, &f, &mut d, false, "");
    if f.model(&mut Doc::default()).error.is_none() {
        go(&mut c, &Formula { env: 2, rows: vec![vec![]], refs: "aB" }, &mut d, false, "");
    }
}

/// Three formulas, each with the state of the ones before it or one of its own; or all at once.
fn history(deep: bool, k: usize) {
    let (how, k) = (k % 10, k / 10);
    let fs = [kind(k % KINDS, deep), kind(k / KINDS, deep), kind(sx::choose(KINDS), deep)];
    let prefix = if how % 2 == 0 { "" } else { "p-" };
    let mut c = new(MathCoreConfig { id_prefix: prefix.into(), ..Default::default() });
    let mut d = Doc::default();
    if how < 8 {
        for (i, f) in fs.iter().enumerate() {
            go(&mut c, f, &mut d, how >> i & 1 == 1, prefix);
        }
        c.reset_global_state();
        go(&mut c, &kind(7, false), &mut Doc::default(), false, prefix);
    } else {
        // A converter with a state of its own, which must not matter.
        if how == 9 {
            go(&mut c, &kind(4, false), &mut Doc::default(), false, prefix);
        }
        let ts: Vec<Buf> = fs
            .iter()
            .map(|f| {
                let mut b = Buf::new();
                f.write(&mut b);
                sx::show(b.as_str());
                b
            })
            .collect();
        let ws: Vec<Want> = fs.iter().map(|f| f.model(&mut d)).collect();
        let rs = c.convert_all(&[
            (ts[0].as_str(), MathDisplay::Inline),
            (ts[1].as_str(), MathDisplay::Block),
            (ts[2].as_str(), MathDisplay::Inline),
        ]);
        sx::check(rs.len() == 3, "convert_all does not return a result for each formula");
        for ((f, w), r) in fs.iter().zip(&ws).zip(rs) {
            compare(f, r, w, &d, prefix);
        }
    }
}

/// Arbitrary characters in tags and labels.
fn bytes(deep: bool, k: usize) {
    let star = k % 2 == 1;
    let label = k / 2 % 2 == 1;
    let n = 1 + k / 4 + deep as usize;
    let mut t = Buf::new();
    t.ascii(n);
    for c in &t.0 {
        sx::assume((*c != b'\\') & (*c != b'{') & (*c != b'}') & (*c != b'%') & (*c != b'#'));
    }
    let (tag, lab) = if label { ("t", t.as_str()) } else { (t.as_str(), "l") };
    let mut b = Buf::of("\\begin{equation}x\\tag");
    b.s(if star { "*{" } else { "{" }).s(tag).s("}\\label{").s(lab).s("}\\end{equation}\\eqref{").s(lab).s("}");
    sx::show(b.as_str());
    let mut c = new(MathCoreConfig { id_prefix: "e:".into(), ..Default::default() });
    match c.convert_with_global_state(b.as_str(), MathDisplay::Inline) {
        Ok(r) => {
            sx::note(&r.mathml);
            let root = match xml::parse(&r.mathml) {
                Ok(e) => e,
                Err(m) => return sx::fail(m),
            };
            let Some(cell) = root.find("mtr").and_then(|e| e.el(2)) else { return sx::fail("the row of the equation is missing") };
            let mut got = String::new();
            cell.all_text(&mut got);
            let got = xml::unescape(&got);
            let mut want = Buf::of(if star { "" } else { "(" });
            // Whitespace of any length is one space.
            let text = |s: &str| -> Vec<u8> {
                let mut v = Vec::new();
                for c in s.bytes() {
                    if !c.is_ascii_whitespace() {
                        v.push(c);
                    } else if v.last() != Some(&b' ') {
                        v.push(b' ');
                    }
                }
                v
            };
            want.0.extend_from_slice(&text(tag));
            want.s(if star { "" } else { ")" });
            sx::check(got == want.as_str(), "the tag does not appear as it was written");
            let Some(a) = root.find("a") else { return sx::fail("the reference is missing") };
            let mut want = Buf::of("(");
            want.0.extend_from_slice(&text(tag));
            want.s(")");
            sx::check(xml::unescape(a.text()) == want.as_str(), "the reference does not show the tag");
            let (Some(h), Some(id)) = (a.attr("href"), cell.attr("id")) else { return sx::fail("the link or its target is missing") };
            let (h, id) = (xml::unescape(h), xml::unescape(id));
            sx::check(h.strip_prefix('#') == Some(id.as_str()), "the link does not point at its target");
            match id.strip_prefix("e:") {
                Some(p) => sx::check(decode(p) == text(lab), "the id of the equation is not its label"),
                None => sx::fail("the id does not begin with the prefix"),
            }
            sx::check(!r.warnings.has_any(), "a warning for a formula without any problem");
            sx::cover(1);
        }
        Err(e) => {
            sx::note(&e.error_message());
            sx::check(!t.0.iter().all(u8::is_ascii_alphanumeric), "a tag or label of letters and digits is refused");
            sx::cover(2);
        }
    }
}

/// Undo percent-encoding; what could end or split a URL fragment must have been encoded.
fn decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let hex = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'A'..=b'F' => c - b'A' + 10,
        _ => {
            sx::fail("a percent sign which encodes nothing");
            0
        }
    };
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            o.push(hex(b[i + 1]) << 4 | hex(b[i + 2]));
            i += 3;
        } else {
            sx::check(b[i] > b' ' && b[i] < 0x7f && !b"\"<>`#%".contains(&b[i]), "a character in an id is not percent-encoded");
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
