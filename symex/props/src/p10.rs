//! Structure: the tree of the result is the tree of the formula, against a reference parser for the core of the language.
use crate::*;

#[derive(Clone, Copy, PartialEq)]
enum T {
    Letter(u8),
    Digit(u8),
    Open,
    Close,
    Sup,
    Sub,
    Prime,
    Frac,
    Sqrt,
    BOpen,
    BClose,
    Left,
    Right,
    Over,
    Hat,
    Sum,
    Plus,
    Binom,
    Overset,
    Under,
    Brace,
    Limits,
    NoLimits,
    Begin,
    Amp,
    Row,
    End,
    Eof,
}
use T::*;
const KINDS: &[T] = &[
    Letter(0), Digit(0), Open, Close, Sup, Sub, Prime, Frac, Sqrt, BOpen, BClose, Left, Right, Over, Hat, Sum, Plus, Binom, Overset, Under, Brace, Limits,
    NoLimits, Begin, Amp, Row, End,
];

struct Fail;
type R<X> = Result<X, Fail>;

/// Chooses the formula, token by token, as far as the reference parser reads it.
struct P {
    tex: Buf,
    cur: Option<T>,
    left: usize,
    /// What is fixed by the job.
    fixed: Vec<usize>,
    /// When no more tokens may be chosen, supply what is missing instead of ending there.
    complete: bool,
    ends: Vec<T>,
    /// Directly inside a cell.
    cell: bool,
}

impl P {
    fn peek(&mut self, arg: bool) -> T {
        if let Some(t) = self.cur {
            return t;
        }
        let t = if self.left > 0 {
            self.left -= 1;
            match KINDS[if self.fixed.is_empty() { sx::choose(KINDS.len()) } else { self.fixed.remove(0) }] {
                Letter(_) => Letter(sx::letter()),
                Digit(_) => Digit(sx::digit()),
                t => t,
            }
        } else if !self.complete {
            Eof
        } else if arg {
            Letter(b'z')
        } else {
            self.ends.last().copied().unwrap_or(Eof)
        };
        match t {
            Letter(c) | Digit(c) => self.tex.b(c),
            _ => self.tex.s(match t {
                Open => "{",
                Close => "}",
                Sup => "^",
                Sub => "_",
                Prime => "'",
                Frac => "\\frac ",
                Sqrt => "\\sqrt ",
                BOpen => "[",
                BClose => "]",
                Left => "\\left(",
                Right => "\\right)",
                Over => "\\over ",
                Hat => "\\hat ",
                Sum => "\\sum ",
                Plus => "+",
                Binom => "\\binom ",
                Overset => "\\overset ",
                Under => "\\underline ",
                Brace => "\\overbrace ",
                Limits => "\\limits ",
                NoLimits => "\\nolimits ",
                Begin => "\\begin{matrix}",
                Amp => "&",
                Row => "\\\\",
                End => "\\end{matrix}",
                _ => "",
            }),
        };
        self.cur = Some(t);
        t
    }
    fn eat(&mut self) {
        self.cur = None;
    }
    fn seq(&mut self, end: T, cell: bool) -> R<String> {
        let outer = core::mem::replace(&mut self.cell, cell);
        self.ends.push(end);
        let r = self.seq_inner(end, cell);
        self.ends.pop();
        self.cell = outer;
        r
    }
    fn seq_inner(&mut self, end: T, cell: bool) -> R<String> {
        let mut done = String::new();
        let mut infix: Option<String> = None;
        let mut o = String::new();
        if cell {
            done.push_str("table[tr[td[");
        }
        let finish = |infix: &mut Option<String>, o: &mut String| match infix.take() {
            Some(n) => *o = two("frac", &n, o),
            None => {}
        };
        loop {
            let t = self.peek(false);
            match t {
                Close | Right | End | Eof | BClose if t == end => {
                    self.eat();
                    finish(&mut infix, &mut o);
                    done.push_str(&o);
                    if cell {
                        done.push_str("]]]");
                    }
                    return Ok(done);
                }
                Close | Right | End | Eof | Limits | NoLimits => return Err(Fail),
                Over => {
                    self.eat();
                    if infix.is_some() {
                        return Err(Fail);
                    }
                    infix = Some(core::mem::take(&mut o));
                }
                Amp | Row => {
                    self.eat();
                    if cell {
                        finish(&mut infix, &mut o);
                        done.push_str(&o);
                        o.clear();
                        done.push_str(if t == Amp { "]td[" } else { "]]tr[td[" });
                    } else if t == Amp {
                        return Err(Fail);
                    }
                }
                Sup | Sub | Prime => {
                    let s = self.scripts(String::new(), false)?;
                    o.push_str(&s);
                }
                Digit(_) => {
                    let mut n = String::from("mn:");
                    while let Digit(d) = self.peek(false) {
                        self.eat();
                        n.push(d as char);
                    }
                    n.push(';');
                    let s = self.scripts(n, false)?;
                    o.push_str(&s);
                }
                _ => {
                    let a = self.atom()?;
                    let s = if t == Sum { a } else { self.scripts(a, false)? };
                    o.push_str(&s);
                }
            }
        }
    }
    /// One argument: a group, a character, or a command with its own arguments.
    fn arg(&mut self) -> R<String> {
        match self.peek(true) {
            Sup | Sub | Prime => self.scripts(String::new(), false),
            Close | Right | End | Eof | Limits | NoLimits | Over | Amp | Begin => Err(Fail),
            Row if self.cell => Err(Fail),
            Row => {
                self.eat();
                Ok(String::new())
            }
            _ => self.atom(),
        }
    }
    fn atom(&mut self) -> R<String> {
        let t = self.peek(false);
        self.eat();
        Ok(match t {
            Letter(c) => leaf("mi:", c),
            Digit(c) => leaf("mn:", c),
            Plus => "mo:+;".into(),
            BOpen => "mo:[;".into(),
            BClose => "mo:];".into(),
            Open => self.seq(Close, false)?,
            Left => {
                let s = self.seq(Right, false)?;
                cat(&["mo:(;", &s, "mo:);"])
            }
            Begin => self.seq(End, true)?,
            Frac => {
                let (a, b) = (self.arg()?, self.arg()?);
                two("frac", &a, &b)
            }
            Binom => {
                let (a, b) = (self.arg()?, self.arg()?);
                let f = two("frac", &a, &b);
                cat(&["mo:(;", &f, "mo:);"])
            }
            Sqrt => {
                if self.peek(true) == BOpen {
                    self.eat();
                    let d = self.seq(BClose, false)?;
                    let a = self.arg()?;
                    two("root", &a, &d)
                } else {
                    let a = self.arg()?;
                    cat(&["sqrt[", &a, "]"])
                }
            }
            Hat => {
                let a = self.arg()?;
                two("over", &a, "mo:ˆ;")
            }
            Under => {
                let a = self.arg()?;
                two("under", &a, "mo:\u{332};")
            }
            Overset => {
                let (a, b) = (self.arg()?, self.arg()?);
                two("over", &b, &a)
            }
            Brace => {
                let a = self.arg()?;
                let b = two("over", &a, "mo:⏞;");
                if self.peek(false) == Sup {
                    self.eat();
                    let s = self.arg()?;
                    two("over", &b, &s)
                } else {
                    b
                }
            }
            Sum => self.scripts("mo:∑;".into(), true)?,
            _ => return Err(Fail),
        })
    }
    fn script_arg(&mut self) -> R<String> {
        match self.peek(true) {
            Sup | Sub | Prime => Err(Fail),
            _ => self.arg(),
        }
    }
    fn scripts(&mut self, base: String, op: bool) -> R<String> {
        let (mut sub, mut sup) = (None, None);
        let mut limits = op;
        loop {
            match self.peek(false) {
                Sub => {
                    self.eat();
                    let a = self.script_arg()?;
                    if sub.replace(a).is_some() {
                        return Err(Fail);
                    }
                }
                Sup => {
                    self.eat();
                    let a = self.script_arg()?;
                    if sup.replace(a).is_some() {
                        return Err(Fail);
                    }
                }
                Prime => {
                    let mut n = 0;
                    while self.peek(false) == Prime {
                        self.eat();
                        n += 1;
                    }
                    let mut a: String = match n {
                        1..=4 => ["mo:′;", "mo:″;", "mo:‴;", "mo:⁗;"][n - 1].into(),
                        _ => "mo:′;".repeat(n),
                    };
                    if self.peek(false) == Sup {
                        self.eat();
                        a.push_str(&self.script_arg()?);
                    }
                    if sup.replace(a).is_some() {
                        return Err(Fail);
                    }
                }
                Limits | NoLimits if !op => return Err(Fail),
                Limits => {
                    self.eat();
                    limits = true;
                }
                NoLimits => {
                    self.eat();
                    limits = false;
                }
                _ => break,
            }
        }
        Ok(match (sub, sup) {
            (None, None) => base,
            (Some(a), None) => two(if limits { "under" } else { "sub" }, &base, &a),
            (None, Some(a)) => two(if limits { "over" } else { "sup" }, &base, &a),
            (Some(a), Some(b)) => cat(&[if limits { "underover[" } else { "subsup[" }, &base, "][", &a, "][", &b, "]"]),
        })
    }
}

fn leaf(t: &str, c: u8) -> String {
    let mut s = String::from(t);
    s.push(c as char);
    s.push(';');
    s
}
fn cat(p: &[&str]) -> String {
    let mut s = String::with_capacity(64);
    for x in p {
        s.push_str(x);
    }
    s
}
fn two(t: &str, a: &str, b: &str) -> String {
    cat(&[t, "[", a, "][", b, "]"])
}

/// The tree of a result in the same form: rows dissolve into what contains them.
pub fn shape(e: &xml::El, o: &mut String) {
    match e.tag {
        "math" | "mrow" => {
            for k in e.els() {
                shape(k, o);
            }
        }
        "mi" | "mn" | "mo" | "mtext" => {
            o.push_str(e.tag);
            o.push(':');
            o.push_str(e.text());
            o.push(';');
        }
        "mspace" => {}
        "msqrt" | "mtd" | "mphantom" | "mstyle" | "mpadded" => {
            o.push_str(&e.tag[1..]);
            o.push('[');
            for k in e.els() {
                shape(k, o);
            }
            o.push(']');
        }
        "mtable" | "mtr" => {
            o.push_str(&e.tag[1..]);
            o.push('[');
            for k in e.els() {
                shape(k, o);
            }
            o.push(']');
        }
        _ => {
            o.push_str(&e.tag[1..]);
            for k in e.els() {
                o.push('[');
                shape(k, o);
                o.push(']');
            }
        }
    }
}

pub fn jobs(tier: u32) -> Vec<u32> {
    let n = (KINDS.len() * KINDS.len() * 2) as u32;
    (0..n).map(|k| k + if tier > 0 { 500_000 } else { 0 }).collect()
}

pub fn run(k: u32) {
    let (deep, k) = (k >= 500_000, (k % 500_000) as usize);
    let (complete, k) = (k % 2 == 1, k / 2);
    let left = if deep { 5 } else { 4 };
    let mut p = P {
        tex: Buf::new(),
        cur: None,
        left,
        fixed: vec![k / KINDS.len(), k % KINDS.len()],
        complete,
        ends: Vec::new(),
        cell: false,
    };
    let want = p.seq(Eof, false);
    if p.fixed.len() == 1 {
        // The formula ends with its first token, whatever the second one is.
        sx::assume(k % KINDS.len() == 0);
    }
    let s = p.tex.as_str();
    sx::show(s);
    match (conv(&std(), s, false), want) {
        (Ok(r), Ok(want)) => {
            sx::note(&r);
            match xml::parse(&r) {
                Ok(e) => {
                    let mut got = String::with_capacity(64);
                    shape(&e, &mut got);
                    if got != want {
                        sx::show(&got);
                        sx::show(&want);
                    }
                    sx::check(got == want, "the tree of the result is not the tree of the formula");
                }
                Err(m) => sx::fail(m),
            }
            sx::cover(1);
        }
        (Err(e), Err(Fail)) => {
            sx::note(&e.error_message());
            sx::cover(2);
        }
        (Err(e), Ok(_)) => {
            sx::note(&e.error_message());
            sx::fail("a correct formula is refused");
        }
        (Ok(r), Err(Fail)) => {
            sx::note(&r);
            sx::fail("a formula with a missing, misplaced or unbalanced part is accepted");
        }
    }
}
