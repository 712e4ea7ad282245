//! Definitions: which definition a command has at each point of a history of formulas, against a reference model of the stores.
use crate::*;

#[derive(Clone, Copy, PartialEq)]
enum Atom {
    /// A letter.
    Ch(u8),
    /// Whatever this command means when the body is used.
    Cmd(usize),
    /// A built-in command, known by its output.
    Sym(char),
}
type Val = Option<Atom>;

#[derive(Clone, Copy)]
struct Model {
    names: [&'static str; 2],
    base: [Val; 2],
    document: [Val; 2],
    local: [Val; 2],
    global_group: bool,
}

enum Fail {
    Unknown,
    Defined,
    NotDefined,
    Endless,
}

impl Model {
    fn get(&self, n: usize) -> Val {
        self.local[n].or(self.document[n]).or(self.base[n])
    }
    fn set(&mut self, n: usize, v: Atom, global: bool) {
        if global || self.global_group {
            self.document[n] = Some(v);
            self.local[n] = None;
        } else {
            self.local[n] = Some(v);
        }
    }
    fn expand(&self, n: usize, out: &mut Buf) -> Result<(), Fail> {
        let mut v = self.get(n);
        for _ in 0..8 {
            match v {
                None => return Err(Fail::Unknown),
                Some(Atom::Ch(c)) => {
                    out.b(c);
                    return Ok(());
                }
                Some(Atom::Sym(c)) => {
                    out.c(c);
                    return Ok(());
                }
                Some(Atom::Cmd(m)) => v = self.get(m),
            }
        }
        Err(Fail::Endless)
    }
}

const OPS: usize = 12;

/// Append one operation on command `t` to the formula and apply it to the model.
fn step(m: &mut Model, op: usize, t: usize, s: &mut Buf, out: &mut Buf) -> Result<(), Fail> {
    let o = 1 - t;
    let (name, other) = (m.names[t], m.names[o]);
    let c = if op < 7 { sx::letter() } else { 0 };
    let def = |s: &mut Buf, pre: &str| {
        let open = if s.0.len() % 2 == 0 { "{" } else { " {" };
        s.s(pre).s("\\").s(name).s(open).b(c).s("}");
    };
    match op {
        0 => {
            def(s, "\\newcommand");
            if m.get(t).is_some() {
                return Err(Fail::Defined);
            }
            m.set(t, Atom::Ch(c), false);
        }
        1 => {
            def(s, "\\renewcommand");
            if m.get(t).is_none() {
                return Err(Fail::NotDefined);
            }
            m.set(t, Atom::Ch(c), false);
        }
        2 => {
            def(s, "\\providecommand");
            if m.get(t).is_none() {
                m.set(t, Atom::Ch(c), false);
            }
        }
        3 => {
            def(s, "\\def");
            m.set(t, Atom::Ch(c), false);
        }
        4 => {
            def(s, "\\gdef");
            m.set(t, Atom::Ch(c), true);
        }
        5 => {
            def(s, "\\global\\def");
            m.set(t, Atom::Ch(c), true);
        }
        6 => {
            s.s("\\let\\").s(name).s("=").b(c);
            m.set(t, Atom::Ch(c), false);
        }
        7 | 8 => {
            if op == 8 {
                s.s("\\global");
            }
            s.s("\\let\\").s(name).s("\\").s(other).s(" ");
            match m.get(o) {
                None => return Err(Fail::Unknown),
                Some(v) => m.set(t, v, op == 8),
            }
        }
        9 | 10 => {
            s.s(if op == 9 { "\\def\\" } else { "\\gdef\\" }).s(name).s("{\\").s(other).s("}");
            m.set(t, Atom::Cmd(o), op == 10);
        }
        _ => {
            s.s("\\").s(name).s(" ");
            return m.expand(t, out);
        }
    }
    Ok(())
}

fn compare(r: Result<ConvertResult, Box<LatexError>>, want: Result<(), Fail>, out: &Buf) {
    match (r, want) {
        (Ok(r), Ok(())) => {
            sx::note(&r.mathml);
            let mut t = String::new();
            match xml::parse(&r.mathml) {
                Ok(e) => e.all_text(&mut t),
                Err(m) => sx::fail(m),
            }
            sx::check(t == out.as_str(), "a command does not have the definition which is in effect");
            sx::cover(1);
        }
        (Ok(_), Err(Fail::Unknown)) => sx::fail("a command which is not defined converts"),
        (Ok(_), Err(Fail::Defined)) => sx::fail("\\newcommand redefines a command"),
        (Ok(_), Err(Fail::NotDefined)) => sx::fail("\\renewcommand defines a command which was not defined"),
        (Ok(_), Err(Fail::Endless)) => sx::fail("an endless expansion converts"),
        (Err(e), Ok(())) => {
            sx::note(&e.error_message());
            sx::fail("a formula fails in which every command is defined");
        }
        (Err(e), Err(f)) => {
            let m = e.error_message();
            sx::note(&m);
            let part = match f {
                Fail::Unknown => "Unknown command",
                Fail::Defined => "already defined",
                Fail::NotDefined => "not defined",
                Fail::Endless => "expansions",
            };
            sx::check(m.contains(part), "the error does not name the reason");
            sx::cover(2);
        }
    }
}

// Variants: how the second command starts out (2 bits), whether definitions are global by default.
const NV: usize = 6;

pub fn jobs(tier: u32) -> Vec<u32> {
    (0..(NV * OPS * 2 * 3) as u32).chain((0..3 * 4 * 3).map(|k| k + CHAINS)).map(|k| k + if tier > 0 { 500_000 } else { 0 }).collect()
}

const CHAINS: u32 = 100_000;
const LINKS: [&str; 5] = ["ka", "kb", "kc", "kd", "ke"];

/// The stores of a chain of definitions with bodies of any length; a body is letters and, for a small number, the command with that number.
#[derive(Clone)]
struct Chain {
    stores: [[Option<usize>; 5]; 3],
    bodies: Vec<Vec<u8>>,
}
impl Chain {
    fn get(&self, n: usize) -> Option<usize> {
        let mut r = None;
        for s in &self.stores {
            r = s[n].or(r);
        }
        r
    }
    fn set(&mut self, n: usize, v: usize, store: usize) {
        self.stores[store][n] = Some(v);
        if store < 2 {
            self.stores[2][n] = None;
        }
    }
    fn expand(&self, n: usize, depth: usize, out: &mut Buf) -> Result<(), Fail> {
        let Some(v) = self.get(n) else { return Err(Fail::Unknown) };
        if depth == 0 {
            return Err(Fail::Endless);
        }
        for c in &self.bodies[v] {
            if *c < 5 {
                self.expand(*c as usize, depth - 1, out)?;
            } else {
                out.b(*c);
            }
        }
        Ok(())
    }
    /// `n` letters, and one of the commands before `below`.
    fn body(&mut self, n: usize, below: usize, s: &mut Buf) -> usize {
        let mut b = Vec::new();
        s.s("{");
        for _ in 0..n {
            let c = sx::letter();
            s.b(c);
            b.push(c);
        }
        if below > 0 {
            let t = sx::choose(below);
            s.s("\\").s(LINKS[t]).s(" z");
            b.push(t as u8);
            b.push(b'z');
        }
        s.s("}");
        self.bodies.push(b);
        self.bodies.len() - 1
    }
}

/// Commands which are copies of copies, in stores of different extent, and then another formula.
fn chain(k: usize, deep: bool) {
    let (how, k) = (k % 3, k / 3);
    let (first, mode) = (k % 4, k / 4);
    let mut m = Chain { stores: [[None; 5]; 3], bodies: Vec::new() };
    let mut cfg = MathCoreConfig::default();
    cfg.max_expansions = MaxExpansions(40);
    cfg.global_group = mode == 1;
    let local = if mode == 1 { 1 } else { 2 };
    let (mut s, mut out) = (Buf::new(), Buf::new());
    match first {
        0 => {
            s.s("\\newcommand\\ka");
            let v = m.body(2, 0, &mut s);
            m.set(0, v, local);
        }
        1 => {
            s.s("\\gdef\\ka");
            let v = m.body(1, 0, &mut s);
            m.set(0, v, 1);
        }
        2 => {
            cfg.macros = vec![("kz".into(), "zzz".into()), ("ka".into(), "xy".into())];
            m.bodies.push(vec![b'x', b'y']);
            m.set(0, 0, 0);
        }
        _ => {
            s.s("\\global\\def\\kz{ww}\\def\\ka");
            let v = m.body(3, 0, &mut s);
            m.set(0, v, local);
        }
    }
    let mut c = new(cfg);
    let links = if deep { 3 } else { 2 };
    for i in 0..links {
        let (a, b) = (LINKS[i], LINKS[i + 1]);
        match sx::choose(6) {
            0 => {
                s.s("\\let\\").s(b).s("=\\").s(a).s(" ");
                let v = m.get(i).unwrap();
                m.set(i + 1, v, local);
            }
            1 => {
                s.s("\\global\\let\\").s(b).s("\\").s(a).s(" ");
                let v = m.get(i).unwrap();
                m.set(i + 1, v, 1);
            }
            2 => {
                // The command which was copied changes afterwards.
                s.s("\\let\\").s(b).s("\\").s(a).s(" \\renewcommand\\").s(a);
                let v = m.get(i).unwrap();
                m.set(i + 1, v, local);
                let v = m.body(1, 0, &mut s);
                m.set(i, v, local);
            }
            3 => {
                s.s("\\global\\let\\").s(b).s("\\").s(a).s(" \\gdef\\").s(a);
                let v = m.get(i).unwrap();
                m.set(i + 1, v, 1);
                let v = m.body(1, 0, &mut s);
                m.set(i, v, 1);
            }
            4 => {
                s.s("\\def\\").s(b);
                let v = m.body(1, i + 1, &mut s);
                m.set(i + 1, v, local);
            }
            _ => {
                s.s("\\gdef\\").s(b);
                let v = m.body(0, i + 1, &mut s);
                m.set(i + 1, v, 1);
            }
        }
    }
    let use_all = |m: &Chain, s: &mut Buf, out: &mut Buf, n: usize| -> Result<(), Fail> {
        for t in 0..n {
            if m.get(t).is_some() {
                s.s("\\").s(LINKS[t]).s(" ");
                m.expand(t, 12, out)?;
            }
        }
        Ok(())
    };
    let mut r = Ok(());
    if mode < 2 {
        r = use_all(&m, &mut s, &mut out, links + 1);
    }
    sx::show(s.as_str());
    compare(c.convert_with_global_state(s.as_str(), MathDisplay::Inline), r, &out);
    m.stores[2] = [None; 5];
    let (mut s, mut out) = (Buf::new(), Buf::new());
    if how > 0 {
        m.stores[1] = [None; 5];
    }
    if how == 2 {
        c.reset_global_state();
    }
    // A definition which takes the place of whatever was kept for the last formula.
    s.s(if sx::choose(2) == 0 { "\\def\\kq{uvw}" } else { "\\gdef\\kq{u}" });
    let r = use_all(&m, &mut s, &mut out, links + 1);
    sx::show(["|", "| local:", "| after a reset:"][how]);
    sx::show(s.as_str());
    compare(if how == 1 { c.convert_with_local_state(s.as_str(), MathDisplay::Inline) } else { c.convert_with_global_state(s.as_str(), MathDisplay::Inline) }, r, &out);
}

pub fn run(k: u32) {
    let (deep, k) = (k >= 500_000, (k % 500_000) as usize);
    if k >= CHAINS as usize {
        return chain(k - CHAINS as usize, deep);
    }
    let (how, k) = (k % 3, k / 3);
    let (first, v) = (k % (OPS * 2), k / (OPS * 2));
    let global_group = v % 2 == 1;
    let mut m = Model { names: ["a", "b"], base: [None, None], document: [None, None], local: [None, None], global_group };
    let mut cfg = MathCoreConfig::default();
    cfg.global_group = global_group;
    cfg.max_expansions = MaxExpansions(20);
    match v / 2 {
        0 => {}
        1 => {
            cfg.macros = vec![("b".into(), "Q".into())];
            m.base[1] = Some(Atom::Ch(b'Q'));
        }
        _ => {
            m.names = ["xi", "pi"];
            m.base = [Some(Atom::Sym('ξ')), Some(Atom::Sym('π'))];
        }
    }
    let mut c = new(cfg);
    // The first formula.
    let n = if deep { 3 } else { 2 };
    let (mut s, mut out) = (Buf::new(), Buf::new());
    let mut r = Ok(());
    for i in 0..n {
        let op = if i == 0 { first } else { sx::choose(OPS * 2) };
        r = step(&mut m, op / 2, op % 2, &mut s, &mut out);
        if r.is_err() {
            break;
        }
        // What is between does not matter.
        s.s(["", " ", "%\\a\n"][how]);
    }
    sx::show(s.as_str());
    compare(c.convert_with_global_state(s.as_str(), MathDisplay::Inline), r, &out);
    m.local = [None, None];
    // A second one: with the state of the first, without it, or after a reset.
    let (mut s, mut out) = (Buf::new(), Buf::new());
    let op = sx::choose(OPS * 2);
    let kept = m;
    if how > 0 {
        m.document = [None, None];
    }
    let mut r = step(&mut m, op / 2, op % 2, &mut s, &mut out);
    if deep && r.is_ok() {
        r = step(&mut m, OPS - 1, 1 - op % 2, &mut s, &mut out);
    }
    sx::show(["|", "| local:", "| after a reset:"][how]);
    sx::show(s.as_str());
    match how {
        1 => {
            compare(c.convert_with_local_state(s.as_str(), MathDisplay::Inline), r, &out);
            m = kept;
        }
        _ => {
            if how == 2 {
                c.reset_global_state();
            }
            compare(c.convert_with_global_state(s.as_str(), MathDisplay::Inline), r, &out);
        }
    }
    m.local = [None, None];
    // What both commands mean after that.
    for t in 0..2 {
        let (mut s, mut out) = (Buf::new(), Buf::new());
        s.s("\\").s(m.names[t]);
        let r = m.expand(t, &mut out);
        compare(c.convert_with_global_state(s.as_str(), MathDisplay::Inline), r, &out);
    }
}
