//! Tables: each cell is aligned as its column says, and the lines of a table are where they are written.
use crate::*;
use xml::El;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// With a specification of columns; in a subarray the rows are closer.
    Array(bool),
    /// Right and left alternate, without space inside a pair.
    Pairs,
    Centred,
    Cases,
    Multline,
}
use Kind::*;
/// Name, kind, displaystyle, scriptlevel, fences, may have columns, may have lines, has a column for numbers.
const ENVS: &[(&str, Kind, &str, &str, &str, bool, bool, bool)] = &[
    ("array", Array(false), "false", "0", "", true, true, false),
    ("darray", Array(false), "true", "0", "", true, true, false),
    ("subarray", Array(true), "false", "1", "", true, true, false),
    ("align", Pairs, "true", "0", "", true, false, true),
    ("align*", Pairs, "true", "0", "", true, false, true),
    ("aligned", Pairs, "true", "0", "", true, false, false),
    ("gather", Centred, "true", "0", "", false, false, true),
    ("gather*", Centred, "true", "0", "", false, false, true),
    ("gathered", Centred, "true", "0", "", false, false, false),
    ("multline", Multline, "true", "0", "", false, false, true),
    ("cases", Cases, "false", "0", "{.", true, false, false),
    ("rcases", Cases, "false", "0", ".}", true, false, false),
    ("dcases", Cases, "true", "0", "{.", true, false, false),
    ("drcases", Cases, "true", "0", ".}", true, false, false),
    ("matrix", Centred, "false", "0", "", true, true, false),
    ("pmatrix", Centred, "false", "0", "()", true, true, false),
    ("bmatrix", Centred, "false", "0", "[]", true, true, false),
    ("Bmatrix", Centred, "false", "0", "{}", true, true, false),
    ("vmatrix", Centred, "false", "0", "||", true, true, false),
    ("Vmatrix", Centred, "false", "0", "\u{2016}\u{2016}", true, true, false),
];
const NE: usize = ENVS.len();
/// Lengths of the specification of an array.
const SPEC: usize = 5;

pub fn jobs(tier: u32) -> Vec<u32> {
    let t = if tier == 0 { 0 } else { fam::TIER };
    // Specifications by their length (and environment); the first character again by a job for the long ones; contents in
    // each environment; what is known to be wrong; specifications which are none.
    (0..(3 * SPEC + 12 + NE + 2 + 3 + NE) as u32).map(|k| k + t).collect()
}

#[derive(Clone, Copy, PartialEq)]
struct Col {
    align: u8,
    /// The lines to the right: how many, which.
    lines: [u8; 6],
    n: usize,
}
/// The lines left of all columns, and the columns.
fn columns(spec: &[u8]) -> (Col, Vec<Col>) {
    let none = Col { align: 0, lines: [0; 6], n: 0 };
    let (mut left, mut cols) = (none, Vec::new());
    for &c in spec {
        match c {
            b'l' | b'c' | b'r' => cols.push(Col { align: c, ..none }),
            b'|' | b':' => {
                let col = cols.last_mut().unwrap_or(&mut left);
                col.lines[col.n] = c;
                col.n += 1;
            }
            _ => {}
        }
    }
    (left, cols)
}

/// The declarations of a style attribute, in a canonical form.
fn style(e: &El) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for d in e.attr("style").unwrap_or("").split(';') {
        if let Some((a, b)) = d.split_once(':') {
            v.push((a.trim().to_string(), b.trim().to_string()));
        }
    }
    v.sort();
    v
}
fn line(c: u8) -> &'static str {
    if c == b'|' { "0.05em solid currentcolor" } else { "0.05em dashed currentcolor" }
}
struct Want(Vec<(String, String)>);
impl Want {
    fn set(&mut self, a: &str, b: &str) -> &mut Want {
        self.0.push((a.to_string(), b.to_string()));
        self
    }
    fn align(&mut self, c: u8) -> &mut Want {
        match c {
            b'l' => self.set("text-align", "left").set("justify-items", "start"),
            b'r' => self.set("text-align", "right").set("justify-items", "end"),
            _ => self,
        }
    }
    fn is(&mut self, e: &El) -> bool {
        self.0.sort();
        style(e) == self.0
    }
}

struct Row {
    cells: usize,
    top: u8,
}

/// The table which is there, against the one which was written.
fn compare(root: &El, env: usize, spec: &[u8], rows: &[Row]) -> Result<(), &'static str> {
    let (_, kind, display, level, fences, _, _, numbered) = ENVS[env];
    let table = root.find("mtable").ok_or("the table is lost")?;
    if !fences.is_empty() {
        let row = root.find("mrow").ok_or("the fences of a table are lost")?;
        let mut f = fences.chars();
        for i in [0, 2] {
            let c = f.next();
            let got = row.el(i).map(|e| xml::unescape(e.text())).unwrap_or_default();
            let want = match c {
                Some('.') => "\u{2063}".to_string(),
                Some(c) => c.to_string(),
                None => String::new(),
            };
            if got != want {
                return Err("a fence of a table is not the one of its environment");
            }
        }
    }
    if table.attr("displaystyle") != Some(display) || table.attr("scriptlevel") != Some(level) {
        return Err("a table is not in the style of its environment");
    }
    let (left, cols) = columns(if matches!(kind, Array(_)) { spec } else { b"" });
    let sub = kind == Array(true);
    let mut w = Want(Vec::new());
    if left.n > 0 {
        w.set("border-left", line(left.lines[0]));
    }
    // The line on top may be the table's or that of the cells of the first row.
    let mut first = rows[0].top;
    if first != 0 && style(table).iter().any(|d| d.0 == "border-top") {
        w.set("border-top", line(first));
        first = 0;
    }
    if numbered {
        w.set("width", "100%");
    }
    if !w.is(table) {
        return Err("the lines around a table are not the ones which are written");
    }
    if table.n() != rows.len() {
        return Err("a table does not have the rows which are written");
    }
    for (r, row) in rows.iter().enumerate() {
        let mtr = match table.el(r) {
            Some(e) => e,
            None => return Err("a row is lost"),
        };
        let mut cells: Vec<&El> = mtr.els().collect();
        if numbered {
            if cells.len() < 2 {
                return Err("a row of a numbered environment has no place for the number");
            }
            cells.pop();
            cells.remove(0);
        }
        let top = if r == 0 { first } else { row.top };
        let mut at = 0;
        let extra = |w: &mut Want, c: u8, e: Option<&&El>| {
            if top != 0 {
                w.set("border-top", line(top));
            }
            w.set("border-right", line(c)).set("padding-left", "0.1em").set("padding-right", "0.1em");
            if sub {
                w.set("padding-top", "0").set("padding-bottom", "0");
            }
            e.is_some_and(|e| w.is(e) && e.n() == 0)
        };
        for l in 1..left.n {
            if !extra(&mut Want(Vec::new()), left.lines[l], cells.get(at)) {
                return Err("a further line before the first column is not the one which is written");
            }
            at += 1;
        }
        for c in 0..row.cells {
            let Some(e) = cells.get(at) else { return Err("a cell is lost") };
            at += 1;
            let mut w = Want(Vec::new());
            if top != 0 {
                w.set("border-top", line(top));
            }
            match kind {
                Array(_) => {
                    if sub {
                        w.set("padding-top", "0").set("padding-bottom", "0");
                    }
                    if let Some(col) = cols.get(c) {
                        w.align(col.align);
                        if col.n > 0 {
                            w.set("border-right", line(col.lines[0]));
                        }
                    }
                }
                Pairs if c % 2 == 0 => {
                    w.align(b'r').set("padding-right", "0");
                }
                Pairs => {
                    w.align(b'l').set("padding-left", "0");
                }
                Cases => {
                    w.align(b'l').set("padding-right", "0");
                    if c % 2 == 1 {
                        w.set("padding-left", "1em");
                    }
                }
                Multline if r == 0 => {
                    w.align(b'l');
                }
                Multline if r + 1 == rows.len() => {
                    w.align(b'r');
                }
                Multline | Centred => {}
            }
            if !w.is(e) {
                return Err("a cell is not aligned or framed as its column and row say");
            }
            if let Some(col) = cols.get(c) {
                for l in 1..col.n {
                    if !extra(&mut Want(Vec::new()), col.lines[l], cells.get(at)) {
                        return Err("a further line after a column is not the one which is written");
                    }
                    at += 1;
                }
            }
        }
        if at != cells.len() {
            return Err("a row has more cells than are written");
        }
    }
    Ok(())
}

fn hline(s: &mut Buf) -> u8 {
    match sx::choose(3) {
        0 => 0,
        1 => {
            s.s("\\hline ");
            b'|'
        }
        _ => {
            s.s("\\hdashline ");
            b':'
        }
    }
}
fn begin(s: &mut Buf, env: usize, spec: &[u8]) {
    s.s("\\begin{").s(ENVS[env].0).s("}");
    if matches!(ENVS[env].1, Array(_)) {
        s.s("{");
        for &b in spec {
            s.b(b);
        }
        s.s("}");
    }
}
fn finish(mut s: Buf, env: usize, spec: &[u8], rows: &[Row], known: Option<&str>) {
    s.s("\\end{").s(ENVS[env].0).s("}");
    sx::show(s.as_str());
    let c = std();
    let out = match conv(&c, s.as_str(), true) {
        Ok(o) => o,
        Err(_) => return sx::fail("a table is rejected"),
    };
    sx::note(&out);
    let root = match xml::parse(&out) {
        Ok(r) => r,
        Err(_) => return sx::fail("the result is not well-formed"),
    };
    if let Err(m) = compare(&root, env, spec, rows) {
        sx::fail(known.unwrap_or(m));
    }
}
fn letter_of(s: &mut Buf) {
    s.b(sx::letter());
}

/// Many columns, or many rows.
fn large(env: usize, deep: bool) {
    let (_, _, _, _, _, columns, lines, _) = ENVS[env];
    let spec: &[u8] = b"l|cr:lcr||clrcl|r";
    let mut s = Buf::new();
    begin(&mut s, env, spec);
    let high = !columns || sx::choose(2) == 1;
    let n = if high { 1 + sx::choose(if deep { 20 } else { 12 }) } else { 2 };
    let line = if lines && !high { sx::choose(2) == 1 } else { false };
    let mut rows = Vec::new();
    for r in 0..n {
        if r > 0 {
            s.s("\\\\");
        }
        let cells = match (high, r) {
            _ if !columns => 1,
            (true, _) => 1 + (r % 3 == 1) as usize,
            (_, 0) if line => 12,
            (_, 0) => 1 + sx::choose(12),
            _ if line => 12,
            _ => 1 + sx::choose(4) * 3,
        };
        let top = if line && r == 1 { hline(&mut s) } else { 0 };
        for c in 0..cells {
            if c > 0 {
                s.s("&");
            }
            if c < 2 && r < 2 {
                letter_of(&mut s);
            } else {
                s.s("w");
            }
        }
        rows.push(Row { cells, top });
    }
    finish(s, env, spec, &rows, None);
    sx::cover(2);
}

pub fn run(k: u32) {
    let (deep, k) = (k / fam::TIER != 0, (k % fam::TIER) as usize);
    let mut s = Buf::new();
    let alphabet = b"lcr|: ";
    if k < 3 * SPEC + 12 {
        // Every specification of a length.
        let (n, env, fix) = if k < 3 * SPEC { (k % SPEC, k / SPEC, None) } else { (SPEC, 0, Some(k - 3 * SPEC)) };
        let n = match fix {
            _ if n < 4 => n,
            None if env > 0 => 3,
            None => 4,
            Some(_) if deep => 6,
            Some(_) => 5,
        };
        let mut spec = Vec::new();
        for i in 0..n {
            let b = match fix {
                Some(f) if i == 0 => alphabet[f % 6],
                _ => sx::byte(),
            };
            sx::assume((b == b'l') | (b == b'c') | (b == b'r') | (b == b'|') | (b == b':') | (b == b' '));
            spec.push(b);
        }
        // At least one column.
        let mut any = false;
        for &b in &spec {
            any |= (b == b'l') | (b == b'c') | (b == b'r');
        }
        sx::assume(any);
        begin(&mut s, env, &spec);
        let top = if n < 4 { hline(&mut s) } else { 0 };
        let mut rows = vec![Row { cells: 1, top }];
        letter_of(&mut s);
        let wide = match fix {
            Some(f) => f >= 6,
            None => sx::choose(2) == 1,
        };
        s.s("\\\\");
        let top = if n < 4 { hline(&mut s) } else { 0 };
        s.s(if wide { "&c" } else { "c" });
        rows.push(Row { cells: 1 + wide as usize, top });
        let (_, cols) = columns(&spec);
        // Columns which the specification does not have are an error in LaTeX.
        sx::assume(rows[1].cells <= cols.len());
        finish(s, env, &spec, &rows, None);
        sx::cover(1);
        return;
    }
    let k = k - 3 * SPEC - 12;
    if k < NE {
        // Rows and cells in each environment.
        let (_, kind, _, _, _, columns, lines, _) = ENVS[k];
        let spec: &[u8] = b"|l||c:r|";
        begin(&mut s, k, spec);
        let top = if lines { hline(&mut s) } else { 0 };
        let mut rows = vec![Row { cells: 1, top }];
        let mut empty = true;
        let mut most = 1;
        for _ in 0..if deep { 6 } else { 4 } {
            let r = rows.len() - 1;
            match sx::choose(5) {
                0 => {
                    letter_of(&mut s);
                    empty = false;
                }
                1 => {
                    s.s("{x_1}");
                    empty = false;
                }
                2 if columns => {
                    s.s("&");
                    rows[r].cells += 1;
                    most = most.max(rows[r].cells);
                    empty = false;
                }
                3 => {
                    s.s("\\\\");
                    let top = if lines { hline(&mut s) } else { 0 };
                    rows.push(Row { cells: 1, top });
                    empty = true;
                }
                _ => break,
            }
        }
        // See the job for what is known not to work.
        sx::assume(!empty || rows.len() == 1);
        sx::assume(!matches!(kind, Array(_)) || most <= 3);
        for r in &rows {
            sx::assume(r.top == 0 || r.cells == most);
        }
        finish(s, k, spec, &rows, None);
        sx::cover(2);
        return;
    }
    let k = k - NE;
    if k >= 5 {
        return large(k - 5, deep);
    }
    if k < 2 {
        // A line or a line break at the end.
        let env = sx::choose(NE);
        sx::assume(ENVS[env].6);
        let spec: &[u8] = b"cc";
        begin(&mut s, env, spec);
        letter_of(&mut s);
        s.s("&b\\\\");
        let mut rows = vec![Row { cells: 2, top: 0 }];
        if k == 0 {
            finish(s, env, spec, &rows, Some("a line break at the end of a table starts an empty row"));
        } else {
            s.s("\\hline ");
            if sx::choose(2) == 1 {
                s.s("c");
            }
            rows.push(Row { cells: 2, top: b'|' });
            finish(s, env, spec, &rows, Some("a line does not reach over the cells which a row leaves out"));
        }
        return;
    }
    // What is no column is rejected; a line inside a row and cells where there are none, too.
    let conv = std();
    let ok = match k {
        2 => {
            let b = sx::byte();
            let odd = matches!(b, b'\\' | b'{' | b'}' | b'%' | b'#' | b'$' | b'&' | b'~' | b'^' | b'_');
            sx::assume((b > b' ') & (b < 0x7f) & !odd);
            s.s("\\begin{array}{c").b(b).s("}a\\end{array}");
            ((b == b'l') | (b == b'c') | (b == b'r') | (b == b'|') | (b == b':')) as usize
        }
        3 => {
            let e = sx::choose(NE);
            let at = sx::choose(3);
            begin(&mut s, e, b"c");
            s.s(["\\hline x", "x\\hline ", "x\\\\y\\hdashline "][at]).s("\\end{").s(ENVS[e].0).s("}");
            (at == 0 && ENVS[e].6) as usize
        }
        _ => {
            let e = sx::choose(NE);
            begin(&mut s, e, b"cc");
            letter_of(&mut s);
            s.s("&b\\end{").s(ENVS[e].0).s("}");
            ENVS[e].5 as usize
        }
    };
    sx::show(s.as_str());
    let r = crate::conv(&conv, s.as_str(), true).is_ok();
    sx::check(r == (ok == 1), if r { "a line or cell where none can be is accepted" } else { "a table is rejected" });
    sx::cover(3);
}
