//! Symbolic execution of the parsed LLVM IR: depth-first exploration of the path tree, one state per
//! path, every two-sided branch decided by Z3.
use crate::expr::{Arena, Bin2, E, K, b2, cbin, mask, sx};
use crate::ir::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

pub const FRAME_BASE: u64 = 0x1000_0000;
const GUARD: u64 = 0x10000;
const FN_BASE: u64 = 1 << 62;
const CHUNK: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

type Chunk = [Option<Rc<Obj>>; CHUNK];

#[derive(Clone)]
pub struct Frame {
    func: u32,
    pc: u32,
    regs: Rc<Vec<V>>,
    mem: Option<Rc<Obj>>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    chunks: Vec<Rc<Chunk>>,
    next_id: u64,
    pc: Rc<Vec<E>>,
    pinned: u128,
    model: Rc<Vec<u64>>,
    vars: Rc<Vec<u8>>,
    notes: Rc<Vec<Vec<E>>>,
    covers: Rc<Vec<u32>>,
    instrs: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(u64),
    Fail(String),
    Panic(String),
    Ub(String),
    Budget,
    Depth,
    Incomplete(String),
    Infeasible,
}

pub enum Stop {
    End(Out),
}
type R<T> = Result<T, Stop>;
fn end<T>(o: Out) -> R<T> {
    Err(Stop::End(o))
}
fn ub<T>(s: impl Into<String>) -> R<T> {
    end(Out::Ub(s.into()))
}
fn inc<T>(s: impl Into<String>) -> R<T> {
    end(Out::Incomplete(s.into()))
}

/// Everything about the program that is shared between threads.
pub struct Prog {
    pub m: Module,
    pub consts: Vec<V>,
    pub gaddr: Vec<u64>,
    pub extern_names: Vec<String>,
    pub extern_addr: HashMap<String, u64>,
    pub gdata: Vec<(Vec<u8>, bool)>,
    pub callee: Vec<Vec<Callee>>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    None,
    Func(u32),
    Ext(Ext),
    Dyn,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Assume,
    Fsh(bool),
    MinMax(u8),
    Ctz,
    Clz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    Ovf(u8),
    Sat(u8),
    Cmp3(bool),
    IsConst,
    Trap,
    FAbs,
    FMath(u8),
    FClass,
    FToSat(bool),
    LoadRel,
    TlsAddr,
    Expect,
    Getenv,
    SxByte,
    SxU32,
    SxAssume,
    SxFail,
    SxNote,
    SxCover,
    SxSymbolic,
    SxConc,
    SxShow,
    Unknown,
}

fn ext_of(n: &str) -> Ext {
    use Ext::*;
    match n {
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return Memalign,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "strlen" => return Strlen,
        "getenv" => return Getenv,
        "sx_byte" => return SxByte,
        "sx_u32" => return SxU32,
        "sx_assume" => return SxAssume,
        "sx_fail" => return SxFail,
        "sx_note" => return SxNote,
        "sx_cover" => return SxCover,
        "sx_symbolic" => return SxSymbolic,
        "sx_conc" => return SxConc,
        "sx_show" => return SxShow,
        "abort" => return Trap,
        "fabs" | "fabsf" => return FAbs,
        "pow" | "powf" => return FMath(5),
        "floor" | "floorf" => return FMath(0),
        "ceil" | "ceilf" => return FMath(1),
        "trunc" | "truncf" => return FMath(2),
        "round" | "roundf" => return FMath(3),
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        if p("memcpy.") || p("memmove.") {
            return Memcpy;
        }
        if p("memset.") {
            return Memset;
        }
        if p("assume") {
            return Assume;
        }
        if p("fshl.") {
            return Fsh(true);
        }
        if p("fshr.") {
            return Fsh(false);
        }
        for (i, s) in ["umin.", "umax.", "smin.", "smax."].iter().enumerate() {
            if p(s) {
                return MinMax(i as u8);
            }
        }
        if p("cttz.") {
            return Ctz;
        }
        if p("ctlz.") {
            return Clz;
        }
        if p("ctpop.") {
            return Ctpop;
        }
        if p("bswap.") {
            return Bswap;
        }
        if p("bitreverse.") {
            return Bitrev;
        }
        if p("abs.") {
            return Abs;
        }
        for (i, s) in ["uadd", "usub", "umul", "sadd", "ssub", "smul"].iter().enumerate() {
            if p(&format!("{s}.with.overflow")) {
                return Ovf(i as u8);
            }
            if p(&format!("{s}.sat")) {
                return Sat(i as u8);
            }
        }
        if p("ucmp.") {
            return Cmp3(false);
        }
        if p("scmp.") {
            return Cmp3(true);
        }
        if p("is.constant") {
            return IsConst;
        }
        if p("trap") || p("ubsantrap") {
            return Trap;
        }
        if p("fabs.") {
            return FAbs;
        }
        for (i, s) in ["floor.", "ceil.", "trunc.", "round.", "rint.", "pow.", "sqrt."].iter().enumerate() {
            if p(s) {
                return FMath(i as u8);
            }
        }
        if p("is.fpclass") {
            return FClass;
        }
        if p("fptoui.sat") {
            return FToSat(false);
        }
        if p("fptosi.sat") {
            return FToSat(true);
        }
        if p("load.relative") {
            return LoadRel;
        }
        if p("threadlocal.address") {
            return TlsAddr;
        }
        if p("expect") {
            return Expect;
        }
    }
    Unknown
}

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut gaddr = vec![0u64; m.globals.len()];
        for (i, g) in m.globals.iter().enumerate() {
            if g.align == 0 {
                continue;
            }
            gaddr[i] = ((i as u64 + 1) << 32) + GUARD;
        }
        let mut extern_names: Vec<String> = m.decls.keys().cloned().collect();
        extern_names.sort();
        let mut extern_addr = HashMap::new();
        for (i, n) in extern_names.iter().enumerate() {
            extern_addr.insert(n.clone(), FN_BASE + (m.funcs.len() + i) as u64 * 16);
        }
        let mut p = Prog { m, consts: vec![], gaddr, extern_names, extern_addr, gdata: vec![], callee: vec![] };
        for i in 0..p.m.globals.len() {
            if p.m.globals[i].align == 0 {
                let c = p.m.globals[i].init.clone().unwrap();
                p.gaddr[i] = p.cint(&c) as u64;
            }
        }
        let mut gd = vec![];
        for g in &p.m.globals {
            let mut d = vec![0u8; g.ty.size() as usize];
            if g.align != 0 {
                if let Some(c) = &g.init {
                    p.ser(&g.ty, c, &mut d, 0);
                }
            }
            gd.push((d, g.constant));
        }
        p.gdata = gd;
        let cs: Vec<V> = p.m.consts.iter().zip(&p.m.consts_ty).map(|(c, t)| p.cval(t, c)).collect();
        p.consts = cs;
        for f in &p.m.funcs {
            let mut v = vec![Callee::None; f.insts.len()];
            for (i, ins) in f.insts.iter().enumerate() {
                if let Inst::Call { name, .. } = ins {
                    v[i] = match name {
                        None => Callee::Dyn,
                        Some(n) => match p.m.fmap.get(&**n) {
                            Some(k) if ext_of(n) == Ext::Unknown => Callee::Func(*k as u32),
                            _ => Callee::Ext(ext_of(n)),
                        },
                    };
                }
            }
            p.callee.push(v);
        }
        p
    }
    fn addr_of(&self, n: &str) -> u64 {
        if let Some(k) = self.m.fmap.get(n) {
            FN_BASE + *k as u64 * 16
        } else if let Some(k) = self.m.gmap.get(n) {
            self.gaddr[*k]
        } else {
            *self.extern_addr.get(n).unwrap_or(&0)
        }
    }
    fn cint(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v, _) => *v,
            Const::Undef(_) | Const::Zero(_) => 0,
            Const::Global(n) => self.addr_of(n) as u128,
            Const::Gep(b, idx, off) => {
                let mut a = (self.cint(b) as u64).wrapping_add(*off);
                for (c, s) in idx {
                    let w = if let Const::Int(_, w) = c { *w } else { 64 };
                    let v = sx(self.cint(c), w) as i64 as u64;
                    a = a.wrapping_add(v.wrapping_mul(*s));
                }
                a as u128
            }
            Const::Bin(o, w, a, b) => {
                let (x, y) = (self.cint(a), self.cint(b));
                let op = match *o {
                    "add" => Bin2::Add,
                    "sub" => Bin2::Sub,
                    "mul" => Bin2::Mul,
                    "and" => Bin2::And,
                    "or" => Bin2::Or,
                    "xor" => Bin2::Xor,
                    _ => Bin2::Shl,
                };
                cbin(op, *w, x, y)
            }
            Const::Cast(w, a) => self.cint(a) & mask(*w),
            _ => 0,
        }
    }
    fn ser(&self, ty: &Ty, c: &Const, d: &mut [u8], off: usize) {
        match (ty, c) {
            (_, Const::Zero(_) | Const::Undef(_)) => {}
            (_, Const::Bytes(b)) => d[off..off + b.len()].copy_from_slice(b),
            (Ty::Struct(..), Const::Agg(fs, _)) => {
                for (i, (t, c)) in fs.iter().enumerate() {
                    let (o, _) = ty.field_off(i);
                    self.ser(t, c, d, off + o as usize);
                }
            }
            (Ty::Arr(_, et), Const::Agg(fs, _)) => {
                let s = et.size() as usize;
                for (i, (t, c)) in fs.iter().enumerate() {
                    self.ser(t, c, d, off + i * s);
                }
            }
            (Ty::Vec(_, et), Const::Vec(v)) => {
                let s = et.size() as usize;
                for (i, c) in v.iter().enumerate() {
                    self.ser(et, c, d, off + i * s);
                }
            }
            _ => {
                let v = self.cint(c);
                let n = ty.size() as usize;
                for i in 0..n.min(16) {
                    d[off + i] = (v >> (8 * i)) as u8;
                }
            }
        }
    }
    fn cval(&self, ty: &Ty, c: &Const) -> V {
        match (ty, c) {
            (Ty::Struct(fs, _), Const::Zero(_) | Const::Undef(_)) => {
                V::A(Arc::new(fs.iter().map(|t| self.cval(t, &Const::Zero(t.clone()))).collect()))
            }
            (Ty::Arr(n, t), Const::Zero(_) | Const::Undef(_)) => {
                V::A(Arc::new(vec![self.cval(t, &Const::Zero((**t).clone())); *n as usize]))
            }
            (Ty::Vec(n, t), Const::Zero(_) | Const::Undef(_)) => {
                V::A(Arc::new(vec![self.cval(t, &Const::Zero((**t).clone())); *n as usize]))
            }
            (Ty::Struct(..) | Ty::Arr(..), Const::Agg(fs, _)) => {
                V::A(Arc::new(fs.iter().map(|(t, c)| self.cval(t, c)).collect()))
            }
            (Ty::Arr(..), Const::Bytes(b)) => V::A(Arc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            (Ty::Vec(_, t), Const::Vec(v)) => V::A(Arc::new(v.iter().map(|c| self.cval(t, c)).collect())),
            _ => mkv(self.cint(c), ty.bits()),
        }
    }
}

#[inline]
fn mkv(v: u128, w: u32) -> V {
    if w > 64 { V::W(Box::new(v)) } else { V::I(v as u64) }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub ok: u64,
    pub infeasible: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub forks: u64,
    pub instrs: u64,
    pub cache_hits: u64,
    pub unfinished: u64,
    pub unknown: u64,
}

pub struct PathRec {
    pub out: Out,
    pub trace: Vec<u64>,
    pub notes: Vec<Vec<u8>>,
    pub instrs: u64,
}

pub struct Exec<'p> {
    p: &'p Prog,
    pub ar: Arena,
    pub z3: Z3,
    cache: HashMap<Vec<E>, Option<Option<Vec<(u32, u64)>>>>,
    renames: HashMap<u128, HashMap<E, E>>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub seen: Vec<bool>,
    pub covers: BTreeSet<u32>,
    pub max_instrs: u64,
    pub max_depth: usize,
    pub deadline: Instant,
    pub recs: Vec<PathRec>,
    pub keep: usize,
    pub stop_after_fail: usize,
    pub fails: usize,
    pub hot: HashMap<(u32, u32), u64>,
    pub prof: bool,
}

fn split(a: u64) -> (u64, i64) {
    (a >> 32, (a & 0xffff_ffff) as i64 - GUARD as i64)
}

impl State {
    fn obj(&self, id: u64) -> Option<&Obj> {
        if id >= FRAME_BASE {
            let d = (id - FRAME_BASE) as usize;
            return self.frames.get(d).and_then(|f| f.mem.as_deref());
        }
        let c = self.chunks.get(id as usize / CHUNK)?;
        c[id as usize % CHUNK].as_deref()
    }
    fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= FRAME_BASE {
            let d = (id - FRAME_BASE) as usize;
            return self.frames.get_mut(d).and_then(|f| f.mem.as_mut()).map(Rc::make_mut);
        }
        let c = self.chunks.get_mut(id as usize / CHUNK)?;
        if c[id as usize % CHUNK].is_none() {
            return None;
        }
        Rc::make_mut(c)[id as usize % CHUNK].as_mut().map(Rc::make_mut)
    }
    fn set_obj(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let c = id as usize / CHUNK;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new([const { None }; CHUNK]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CHUNK] = o;
    }
    fn alloc(&mut self, n: u64) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        self.set_obj(id, Some(Rc::new(Obj { data: vec![0; n as usize], sym: None, ro: false })));
        (id << 32) + GUARD
    }
}

fn desc(a: u64) -> String {
    let (id, off) = split(a);
    if id >= FRAME_BASE { format!("stack#{}+{off}", id - FRAME_BASE) } else { format!("obj#{id}+{off}") }
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, deadline: Instant) -> Self {
        Exec {
            p,
            ar: Arena::new(),
            z3: Z3::new(),
            cache: HashMap::new(),
            renames: HashMap::new(),
            work: vec![],
            stats: Stats::default(),
            seen: vec![false; p.m.funcs.len()],
            covers: BTreeSet::new(),
            max_instrs: 20_000_000,
            max_depth: 1500,
            deadline,
            recs: vec![],
            keep: usize::MAX,
            stop_after_fail: 20,
            fails: 0,
            hot: HashMap::new(),
            prof: false,
        }
    }

    pub fn start(&mut self, func: usize, args: &[u64]) {
        let mut st = State {
            frames: vec![],
            chunks: vec![],
            next_id: self.p.m.globals.len() as u64 + 2,
            pc: Rc::new(vec![]),
            pinned: 0,
            model: Rc::new(vec![]),
            vars: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            covers: Rc::new(vec![]),
            instrs: 0,
        };
        for (i, (d, ro)) in self.p.gdata.iter().enumerate() {
            if self.p.m.globals[i].align != 0 {
                st.set_obj(i as u64 + 1, Some(Rc::new(Obj { data: d.clone(), sym: None, ro: *ro })));
            }
        }
        self.push_frame(&mut st, func as u32, args.iter().map(|a| V::I(*a)).collect());
        self.work.push(st);
    }

    fn push_frame(&mut self, st: &mut State, func: u32, mut args: Vec<V>) {
        let f = &self.p.m.funcs[func as usize];
        self.seen[func as usize] = true;
        args.resize(f.nregs.max(f.nparams), V::I(0));
        let mem = if f.frame > 0 {
            Some(Rc::new(Obj { data: vec![0; f.frame as usize], sym: None, ro: false }))
        } else {
            None
        };
        st.frames.push(Frame { func, pc: 0, regs: Rc::new(args), mem });
    }

    /// Explore everything reachable, until done or the deadline.
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline || self.fails >= self.stop_after_fail {
                self.stats.unfinished += 1 + self.work.len() as u64;
                self.work.clear();
                return;
            }
            let i0 = st.instrs;
            let o = match self.go(&mut st) {
                Ok(o) => o,
                Err(Stop::End(o)) => o,
            };
            self.stats.instrs += st.instrs - i0;
            self.finish(st, o);
        }
    }

    fn finish(&mut self, st: State, o: Out) {
        if o == Out::Infeasible {
            self.stats.infeasible += 1;
            return;
        }
        self.stats.paths += 1;
        let o = match o {
            Out::Panic(s) => Out::Panic(format!("{s} | {}", self.stack(&st))),
            Out::Ub(s) => Out::Ub(format!("{s} | {}", self.stack(&st))),
            Out::Incomplete(s) => Out::Incomplete(format!("{s} | {}", self.stack(&st))),
            o => o,
        };
        match &o {
            Out::Ok(_) => {
                self.stats.ok += 1;
                for c in st.covers.iter() {
                    self.covers.insert(*c);
                }
            }
            Out::Incomplete(s) => {
                *self.stats.incomplete.entry(s.clone()).or_insert(0) += 1;
            }
            _ => self.fails += 1,
        }
        let trace = (0..st.vars.len()).map(|v| st.model.get(v).copied().unwrap_or(0)).collect();
        let notes = st
            .notes
            .iter()
            .map(|n| n.iter().map(|e| self.ar.eval(*e, &st.model) as u8).collect())
            .collect();
        if self.recs.len() < self.keep {
            self.recs.push(PathRec { out: o, trace, notes, instrs: st.instrs });
        }
    }

    fn stack(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6) {
            let g = &self.p.m.funcs[f.func as usize];
            v.push(if g.pretty.is_empty() { g.name.clone() } else { g.pretty.clone() });
        }
        v.join(" < ")
    }

    // ---- solver -----------------------------------------------------------------------------

    fn query(&mut self, st: &State, c: E) -> Option<Option<Vec<(u32, u64)>>> {
        let mut m = self.ar.sup(c);
        let mut take = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, &e) in st.pc.iter().enumerate() {
                if !take[i] && self.ar.sup(e) & m != 0 {
                    take[i] = true;
                    m |= self.ar.sup(e);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<E> = st.pc.iter().zip(&take).filter(|(_, t)| **t).map(|(e, _)| *e).collect();
        cs.push(c);
        // Number the variables from 0, so that the same question about other inputs is found in the cache.
        let mut vars = vec![];
        let mut back = vec![];
        let small = st.vars.len() <= 128;
        for (i, w) in st.vars.iter().enumerate() {
            if m >> (i % 128) & 1 == 1 {
                let to = if small { back.len() as u32 } else { i as u32 };
                let e = self.ar.var(to, *w as u32);
                vars.push((to, e));
                back.push(i as u32);
            }
        }
        if small && m & (m.wrapping_add(1)) != 0 {
            let mut memo = self.renames.remove(&m).unwrap_or_default();
            for e in cs.iter_mut() {
                *e = self.ar.rename(*e, &back, &mut memo);
            }
            if self.renames.len() > 4000 {
                self.renames.clear();
            }
            self.renames.insert(m, memo);
        }
        cs.sort_unstable();
        cs.dedup();
        let r = if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let r = self.z3.check(&self.ar, &cs, &vars);
            if r.is_none() {
                self.stats.unknown += 1;
            }
            self.cache.insert(cs, r.clone());
            r
        };
        r.map(|r| r.map(|v| v.into_iter().map(|(i, x)| (if small { back[i as usize] } else { i }, x)).collect()))
    }

    /// Get ready for another job, keeping terms and solver answers.
    pub fn reset(&mut self, deadline: Instant) {
        if self.ar.nodes.len() > 3_000_000 || self.cache.len() > 1_500_000 {
            self.ar = Arena::new();
            self.z3 = Z3::new();
            self.cache.clear();
            self.renames.clear();
        }
        self.work.clear();
        self.stats = Stats::default();
        self.covers.clear();
        self.recs.clear();
        self.fails = 0;
        self.hot.clear();
        self.deadline = deadline;
        self.z3.reset_counts();
    }

    fn add(&mut self, st: &mut State, c: E) {
        match self.ar.k(c) {
            K::Const(_) => return,
            K::Bin(Bin2::And, a, b) => {
                self.add(st, a);
                self.add(st, b);
                return;
            }
            K::Not(x) => {
                if let K::Bin(Bin2::Or, a, b) = self.ar.k(x) {
                    let (na, nb) = (self.ar.not(a), self.ar.not(b));
                    self.add(st, na);
                    self.add(st, nb);
                    return;
                }
                if let K::Var(v) = self.ar.k(x) {
                    st.pinned |= 1u128 << (v % 128);
                }
            }
            K::Eq(a, b) => {
                if let (K::Var(v), Some(_)) = (self.ar.k(a), self.ar.cv(b)) {
                    st.pinned |= 1u128 << (v % 128);
                }
            }
            K::Var(v) => st.pinned |= 1u128 << (v % 128),
            _ => {}
        }
        if !st.pc.contains(&c) {
            Rc::make_mut(&mut st.pc).push(c);
        }
    }

    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.cv(c) {
            return Ok(v == 1);
        }
        let nc = self.ar.not(c);
        for &e in st.pc.iter() {
            if e == c {
                return Ok(true);
            }
            if e == nc {
                return Ok(false);
            }
        }
        let v = self.ar.eval(c, &st.model) == 1;
        if st.vars.len() <= 128 && self.ar.sup(c) & !st.pinned == 0 {
            return Ok(v);
        }
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(st, other) {
            Some(None) => {}
            Some(Some(m)) => {
                self.stats.forks += 1;
                if self.prof {
                    if let Some(f) = st.frames.last() {
                        *self.hot.entry((f.func, f.pc)).or_insert(0) += 1;
                    }
                }
                let mut s2 = st.clone();
                {
                    let mm = Rc::make_mut(&mut s2.model);
                    for (i, x) in m {
                        if mm.len() <= i as usize {
                            mm.resize(i as usize + 1, 0);
                        }
                        mm[i as usize] = x;
                    }
                }
                self.add(&mut s2, other);
                self.work.push(s2);
                self.add(st, here);
            }
            None => {
                *self.stats.incomplete.entry("solver unknown".into()).or_insert(0) += 1;
                self.add(st, here);
            }
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.ar.cv(e) {
            return Ok(v);
        }
        let v = self.ar.eval(e, &st.model);
        if self.ar.sup(e) & !st.pinned == 0 {
            return Ok(v);
        }
        let w = self.ar.w(e);
        let k = self.ar.konst(v, w);
        let c = self.ar.eq(e, k);
        self.branch(st, c)?;
        Ok(v)
    }

    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::S(e) => Ok(self.concretize(st, *e)? as u64),
            V::W(x) => Ok(**x as u64),
            V::A(_) => inc("aggregate where scalar expected"),
        }
    }

    // ---- values -----------------------------------------------------------------------------

    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(x) => self.ar.konst(*x as u128, w),
            V::W(x) => self.ar.konst(**x, w),
            V::S(e) => *e,
            V::A(_) => panic!("term of aggregate"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.ar.k(e) {
            K::Const(c) => mkv(c, self.ar.w(e)),
            _ => V::S(e),
        }
    }
    fn ci(v: &V) -> Option<u128> {
        match v {
            V::I(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }

    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (Some(x), Some(y)) = (Self::ci(a), Self::ci(b)) {
            if y == 0 && matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                return ub("division by zero");
            }
            return Ok(mkv(cbin(b2(op), w, x, y), w));
        }
        if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
            return inc("vector op on scalar path");
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ar.bin(b2(op), x, y);
        Ok(self.v(r))
    }

    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (Self::ci(a), Self::ci(b)) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return V::I(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ule => self.ar.ule(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sle => self.ar.sle(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sge => self.ar.sle(y, x),
        };
        self.v(r)
    }

    fn ite(&mut self, c: E, ty: &Ty, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut o = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    let t = match ty {
                        Ty::Struct(fs, _) => fs[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => return inc("ite type"),
                    };
                    o.push(self.ite(c, &t, p, q)?);
                }
                Ok(V::A(Arc::new(o)))
            }
            _ => {
                let w = ty.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ar.ite(c, x, y);
                Ok(self.v(r))
            }
        }
    }

    fn to_bits(&mut self, v: &V, ty: &Ty) -> R<E> {
        match (v, ty) {
            (V::A(xs), Ty::Vec(_, t)) => {
                let w = t.bits();
                if w as usize * xs.len() > 128 {
                    return inc("vector wider than 128 bits");
                }
                let mut acc: Option<E> = None;
                for x in xs.iter() {
                    let e = self.e(x, w);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                Ok(acc.unwrap())
            }
            (V::A(_), _) => inc("bits of aggregate"),
            _ => Ok(self.e(v, ty.bits())),
        }
    }
    fn from_bits(&mut self, e: E, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut o = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(e, i * w, w);
                    o.push(self.v(x));
                }
                V::A(Arc::new(o))
            }
            _ => self.v(e),
        }
    }

    // ---- memory -----------------------------------------------------------------------------

    fn load(&mut self, st: &mut State, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                let n = (w as usize).div_ceil(8);
                let (id, off) = split(a);
                let Some(o) = st.obj(id) else { return ub(format!("load from invalid address {}", desc(a))) };
                if off < 0 || off as usize + n > o.data.len() {
                    return ub(format!("load of {n} bytes out of bounds at {} (size {})", desc(a), o.data.len()));
                }
                let off = off as usize;
                if let Some(sy) = &o.sym {
                    if sy[off..off + n].iter().any(|e| *e != 0) {
                        let mut acc: Option<E> = None;
                        for i in 0..n {
                            let b = if sy[off + i] != 0 { sy[off + i] } else { self.ar.konst(o.data[off + i] as u128, 8) };
                            acc = Some(match acc {
                                None => b,
                                Some(l) => self.ar.concat(b, l),
                            });
                        }
                        let mut e = acc.unwrap();
                        if (n * 8) as u32 > w {
                            e = self.ar.extract(e, 0, w);
                        }
                        return Ok(self.v(e));
                    }
                }
                let mut x = 0u128;
                for i in 0..n {
                    x |= (o.data[off + i] as u128) << (8 * i);
                }
                Ok(mkv(x & mask(w), w))
            }
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    let v = self.load(st, &Ty::Int(*n), a)?;
                    let e = self.e(&v, *n);
                    return Ok(self.from_bits(e, ty));
                }
                let s = t.size();
                let mut o = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    o.push(self.load(st, t, a + i * s)?);
                }
                Ok(V::A(Arc::new(o)))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut o = vec![];
                for i in 0..*n {
                    o.push(self.load(st, t, a + i * s)?);
                }
                Ok(V::A(Arc::new(o)))
            }
            Ty::Struct(fs, _) => {
                let mut o = vec![];
                for i in 0..fs.len() {
                    let (off, t) = ty.field_off(i);
                    o.push(self.load(st, t, a + off)?);
                }
                Ok(V::A(Arc::new(o)))
            }
            _ => inc("load type"),
        }
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, a: u64) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), V::A(xs)) => {
                if let Ty::Int(1) = **t {
                    let e = self.to_bits(v, ty)?;
                    let x = self.v(e);
                    return self.store(st, &Ty::Int(*n), &x, a);
                }
                let s = t.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store(st, t, x, a + i as u64 * s)?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), V::A(xs)) => {
                let s = t.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store(st, t, x, a + i as u64 * s)?;
                }
                Ok(())
            }
            (Ty::Struct(..), V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let (off, t) = ty.field_off(i);
                    self.store(st, t, x, a + off)?;
                }
                Ok(())
            }
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => {
                let w = ty.bits();
                let n = (w as usize).div_ceil(8);
                let mut bytes: [E; 16] = [0; 16];
                let mut cx = 0u128;
                let mut symbolic = false;
                match v {
                    V::I(x) => cx = *x as u128,
                    V::W(x) => cx = **x,
                    V::S(e) => {
                        symbolic = true;
                        let e = if (n * 8) as u32 > w { self.ar.zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = self.ar.extract(e, i as u32 * 8, 8);
                            match self.ar.cv(b) {
                                Some(c) => cx |= c << (8 * i),
                                None => bytes[i] = b,
                            }
                        }
                    }
                    V::A(_) => return inc("store aggregate"),
                }
                let (id, off) = split(a);
                let Some(o) = st.obj_mut(id) else { return ub(format!("store to invalid address {}", desc(a))) };
                if off < 0 || off as usize + n > o.data.len() {
                    return ub(format!("store of {n} bytes out of bounds at {} (size {})", desc(a), o.data.len()));
                }
                if o.ro {
                    return ub("store to constant");
                }
                let off = off as usize;
                for i in 0..n {
                    o.data[off + i] = (cx >> (8 * i)) as u8;
                }
                if symbolic {
                    let len = o.data.len();
                    let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                    sy[off..off + n].copy_from_slice(&bytes[..n]);
                } else if let Some(sy) = &mut o.sym {
                    sy[off..off + n].fill(0);
                }
                Ok(())
            }
            _ => inc("store type"),
        }
    }

    fn bytes(&mut self, st: &State, a: u64, n: u64) -> R<(Vec<u8>, Option<Vec<E>>)> {
        if n == 0 {
            return Ok((vec![], None));
        }
        let (id, off) = split(a);
        let Some(o) = st.obj(id) else { return ub(format!("read of {n} bytes at invalid address {}", desc(a))) };
        if off < 0 || off as u64 + n > o.data.len() as u64 {
            return ub(format!("read of {n} bytes out of bounds at {} (size {})", desc(a), o.data.len()));
        }
        let (s, e) = (off as usize, off as usize + n as usize);
        let sy = o.sym.as_ref().and_then(|v| if v[s..e].iter().any(|x| *x != 0) { Some(v[s..e].to_vec()) } else { None });
        Ok((o.data[s..e].to_vec(), sy))
    }
    fn term_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<E>> {
        let (d, s) = self.bytes(st, a, n)?;
        Ok((0..n as usize)
            .map(|i| match &s {
                Some(v) if v[i] != 0 => v[i],
                _ => self.ar.konst(d[i] as u128, 8),
            })
            .collect())
    }
    fn put_bytes(&mut self, st: &mut State, a: u64, d: &[u8], s: Option<&[E]>) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (id, off) = split(a);
        let Some(o) = st.obj_mut(id) else { return ub(format!("write of {} bytes at invalid address {}", d.len(), desc(a))) };
        if off < 0 || off as usize + d.len() > o.data.len() {
            return ub(format!("write of {} bytes out of bounds at {} (size {})", d.len(), desc(a), o.data.len()));
        }
        if o.ro {
            return ub("write to constant");
        }
        let (b, e) = (off as usize, off as usize + d.len());
        o.data[b..e].copy_from_slice(d);
        match s {
            Some(s) => {
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                sy[b..e].copy_from_slice(s);
            }
            None => {
                if let Some(sy) = &mut o.sym {
                    sy[b..e].fill(0);
                }
            }
        }
        Ok(())
    }

    fn tz(&self, e: E, d: u32) -> u32 {
        if d > 8 {
            return 0;
        }
        match self.ar.k(e) {
            K::Const(0) => 64,
            K::Const(c) => c.trailing_zeros(),
            K::Concat(_, l) => {
                let t = self.tz(l, d + 1);
                if t >= self.ar.w(l) { self.ar.w(l) } else { t }
            }
            K::Bin(Bin2::Add | Bin2::Sub | Bin2::Or, a, b) => self.tz(a, d + 1).min(self.tz(b, d + 1)),
            K::Bin(Bin2::Mul, a, b) => self.tz(a, d + 1) + self.tz(b, d + 1),
            K::ZExt(a) => self.tz(a, d + 1),
            K::Ite(_, a, b) => self.tz(a, d + 1).min(self.tz(b, d + 1)),
            _ => 0,
        }
    }

    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: E) -> R<V> {
        let a0 = self.ar.eval(e, &st.model) as u64;
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        if !scalar || self.ar.sup(e) & !st.pinned == 0 || matches!(self.ar.k(e), K::Ite(..)) {
            let a = self.concretize(st, e)? as u64;
            return self.load(st, ty, a);
        }
        let (id, off0) = split(a0);
        let Some(o) = st.obj(id) else { return ub(format!("load from invalid symbolic address {}", desc(a0))) };
        let len = o.data.len() as i64;
        let n = (ty.bits() as i64 + 7) / 8;
        if off0 < 0 || off0 + n > len {
            return ub(format!("symbolic load out of bounds at {} (size {len})", desc(a0)));
        }
        let stride = 1i64 << self.tz(e, 0).min(6);
        let first = off0 % stride;
        let cnt = (len - n - first) / stride + 1;
        if cnt > 8192 {
            let a = self.concretize(st, e)? as u64;
            return self.load(st, ty, a);
        }
        let base = self.ar.konst(((id << 32) + GUARD) as u128, 64);
        let off = self.ar.bin(Bin2::Sub, e, base);
        let lim = self.ar.konst((len - n + 1) as u128, 64);
        let inb = self.ar.ult(off, lim);
        self.branch(st, inb)?;
        // runs of equal values
        let mut runs: Vec<(i64, E)> = vec![];
        let w = ty.bits();
        let mut k = first;
        while k + n <= len {
            let v = self.load(st, ty, ((id << 32) + GUARD) + k as u64)?;
            let x = self.e(&v, w);
            match runs.last_mut() {
                Some(l) if l.1 == x => l.0 = k,
                _ => runs.push((k, x)),
            }
            k += stride;
        }
        if runs.len() > 700 {
            let a = self.concretize(st, e)? as u64;
            return self.load(st, ty, a);
        }
        let mut acc = runs.last().unwrap().1;
        for (hi, x) in runs.iter().rev().skip(1) {
            let h = self.ar.konst(*hi as u128, 64);
            let c = self.ar.ule(off, h);
            acc = self.ar.ite(c, *x, acc);
        }
        Ok(self.v(acc))
    }

    // ---- interpreter ------------------------------------------------------------------------

    #[inline]
    fn val(&self, st: &State, o: Op) -> V {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[r as usize].clone(),
            Op::C(c) => self.p.consts[c as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        let f = st.frames.last_mut().unwrap();
        Rc::make_mut(&mut f.regs)[d as usize] = v;
    }
    fn jump(&self, st: &mut State, e: &Edge) {
        let fi = st.frames.last().unwrap().func as usize;
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.val(st, e.copies[0].1);
                self.set(st, e.copies[0].0, v);
            }
            _ => {
                let vs: Vec<V> = e.copies.iter().map(|(_, o)| self.val(st, *o)).collect();
                let f = st.frames.last_mut().unwrap();
                let r = Rc::make_mut(&mut f.regs);
                for ((d, _), v) in e.copies.iter().zip(vs) {
                    r[*d as usize] = v;
                }
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.pc = self.p.m.funcs[fi].blocks[e.target as usize];
    }

    fn go(&mut self, st: &mut State) -> R<Out> {
        let p = self.p;
        let mut tick = 0u32;
        loop {
            st.instrs += 1;
            tick += 1;
            if tick & 0xffff == 0 {
                if st.instrs > self.max_instrs {
                    return Ok(Out::Budget);
                }
                if Instant::now() > self.deadline {
                    return inc("deadline");
                }
            }
            let (fi, pc) = {
                let f = st.frames.last().unwrap();
                (f.func as usize, f.pc as usize)
            };
            let func = &p.m.funcs[fi];
            match &func.insts[pc] {
                Inst::Bin(op, ty, d, a, b) => {
                    let x = self.val(st, *a);
                    let y = self.val(st, *b);
                    let r = match ty {
                        Ty::Vec(_, t) => {
                            let (V::A(xs), V::A(ys)) = (&x, &y) else { return inc("vec operand") };
                            let w = t.bits();
                            let mut o = vec![];
                            for (p, q) in xs.iter().zip(ys.iter()) {
                                o.push(self.bin(*op, w, p, q)?);
                            }
                            V::A(Arc::new(o))
                        }
                        _ => self.bin(*op, ty.bits(), &x, &y)?,
                    };
                    self.set(st, *d, r);
                }
                Inst::ICmp(pr, ty, d, a, b) => {
                    let x = self.val(st, *a);
                    let y = self.val(st, *b);
                    let r = match ty {
                        Ty::Vec(_, t) => {
                            let (V::A(xs), V::A(ys)) = (&x, &y) else { return inc("vec operand") };
                            let w = t.bits();
                            V::A(Arc::new(xs.iter().zip(ys.iter()).map(|(p, q)| self.cmp(*pr, w, p, q)).collect()))
                        }
                        _ => self.cmp(*pr, ty.bits(), &x, &y),
                    };
                    self.set(st, *d, r);
                }
                Inst::FBin(k, ty, d, a, b) => {
                    let (x, y) = (self.val(st, *a), self.val(st, *b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let r = if ty.bits() == 32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match k {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match k {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        })
                        .to_bits()
                    };
                    self.set(st, *d, V::I(r));
                }
                Inst::FCmp(k, ty, d, a, b) => {
                    let (x, y) = (self.val(st, *a), self.val(st, *b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let (x, y) = if ty.bits() == 32 {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    } else {
                        (f64::from_bits(x), f64::from_bits(y))
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match k {
                        0 => false,
                        1 => x == y,
                        2 => x > y,
                        3 => x >= y,
                        4 => x < y,
                        5 => x <= y,
                        6 => !un && x != y,
                        7 => !un,
                        8 => un || x == y,
                        9 => un || x > y,
                        10 => un || x >= y,
                        11 => un || x < y,
                        12 => un || x <= y,
                        13 => un || x != y,
                        14 => un,
                        _ => true,
                    };
                    self.set(st, *d, V::I(r as u64));
                }
                Inst::FNeg(ty, d, a) => {
                    let x = self.val(st, *a);
                    let w = ty.bits();
                    let s = V::W(Box::new(1u128 << (w - 1)));
                    let s = if w <= 64 { V::I(Self::ci(&s).unwrap() as u64) } else { s };
                    let r = self.bin(Bin::Xor, w, &x, &s)?;
                    self.set(st, *d, r);
                }
                Inst::Cast(k, t1, t2, d, a) => {
                    let x = self.val(st, *a);
                    let r = self.cast(st, k, t1, t2, &x)?;
                    self.set(st, *d, r);
                }
                Inst::Alloca(d, off) => {
                    let id = FRAME_BASE + st.frames.len() as u64 - 1;
                    self.set(st, *d, V::I((id << 32) + GUARD + off));
                }
                Inst::Load(ty, d, a) => {
                    let x = self.val(st, *a);
                    let r = match x {
                        V::I(a) => self.load(st, ty, a)?,
                        V::S(e) => self.load_sym(st, ty, e)?,
                        _ => return inc("load addr"),
                    };
                    self.set(st, *d, r);
                }
                Inst::Store(ty, v, a) => {
                    let x = self.val(st, *a);
                    let a = self.conc(st, &x)?;
                    let v = self.val(st, *v);
                    self.store(st, ty, &v, a)?;
                }
                Inst::Gep(d, b, off, idx) => {
                    let base = self.val(st, *b);
                    let mut cacc: u64 = *off as u64;
                    let mut terms: Vec<E> = vec![];
                    match &base {
                        V::I(x) => cacc = cacc.wrapping_add(*x),
                        V::S(e) => terms.push(*e),
                        _ => return inc("gep base"),
                    }
                    for (o, scale, w) in idx {
                        let v = self.val(st, *o);
                        match &v {
                            V::I(x) => {
                                let s = sx(*x as u128, *w) as i64 as u64;
                                cacc = cacc.wrapping_add(s.wrapping_mul(*scale));
                            }
                            V::S(e) => {
                                let e = if *w < 64 { self.ar.sext(*e, 64) } else { *e };
                                let k = self.ar.konst(*scale as u128, 64);
                                let t = self.ar.bin(Bin2::Mul, e, k);
                                terms.push(t);
                            }
                            _ => return inc("gep idx"),
                        }
                    }
                    let r = if terms.is_empty() {
                        V::I(cacc)
                    } else {
                        let mut t = terms[0];
                        for u in &terms[1..] {
                            t = self.ar.bin(Bin2::Add, t, *u);
                        }
                        let k = self.ar.konst(cacc as u128, 64);
                        let t = self.ar.bin(Bin2::Add, t, k);
                        self.v(t)
                    };
                    self.set(st, *d, r);
                }
                Inst::Br(e) => {
                    self.jump(st, e);
                    continue;
                }
                Inst::CondBr(c, a, b) => {
                    let c = self.val(st, *c);
                    let t = match c {
                        V::I(x) => x & 1 == 1,
                        V::S(e) => self.branch(st, e)?,
                        _ => return inc("cond"),
                    };
                    self.jump(st, if t { a } else { b });
                    continue;
                }
                Inst::Switch(v, w, dflt, cases) => {
                    let x = self.val(st, *v);
                    match &x {
                        V::S(e) => {
                            let e = *e;
                            let cur = self.ar.eval(e, &st.model);
                            // group the cases by target
                            let key = |ed: &Edge| (ed.target, format!("{:?}", ed.copies));
                            let my = cases.iter().find(|(k, _)| *k == cur).map(|(_, e)| key(e));
                            let mut cond: Option<E> = None;
                            let take: &Edge;
                            match &my {
                                Some(t) => {
                                    take = &cases.iter().find(|(k, _)| *k == cur).unwrap().1;
                                    for (k, ed) in cases {
                                        if key(ed) == *t {
                                            let kc = self.ar.konst(*k, *w);
                                            let q = self.ar.eq(e, kc);
                                            cond = Some(match cond {
                                                None => q,
                                                Some(c) => self.ar.bin(Bin2::Or, c, q),
                                            });
                                        }
                                    }
                                }
                                None => {
                                    take = dflt;
                                    for (k, _) in cases {
                                        let kc = self.ar.konst(*k, *w);
                                        let q = self.ar.eq(e, kc);
                                        let q = self.ar.not(q);
                                        cond = Some(match cond {
                                            None => q,
                                            Some(c) => self.ar.bin(Bin2::And, c, q),
                                        });
                                    }
                                }
                            }
                            if let Some(c) = cond {
                                if !self.branch(st, c)? {
                                    return inc("switch model");
                                }
                            }
                            self.jump(st, take);
                        }
                        _ => {
                            let c = Self::ci(&x).unwrap_or(0);
                            let e = cases.iter().find(|(k, _)| *k == c).map(|(_, e)| e).unwrap_or(dflt);
                            self.jump(st, e);
                        }
                    }
                    continue;
                }
                Inst::Ret(v) => {
                    let r = v.map(|o| self.val(st, o));
                    st.frames.pop();
                    let Some(f) = st.frames.last() else {
                        let x = match r {
                            Some(V::I(x)) => x,
                            _ => 0,
                        };
                        return Ok(Out::Ok(x));
                    };
                    let Inst::Call { dst, normal, .. } = &p.m.funcs[f.func as usize].insts[f.pc as usize] else {
                        return inc("return to non-call");
                    };
                    if let (Some(d), Some(v)) = (dst, r) {
                        self.set(st, *d, v);
                    }
                    if let Some(e) = normal {
                        self.jump(st, e);
                        continue;
                    }
                }
                Inst::Unreachable => return ub(format!("reached `unreachable` in {}", func.pretty)),
                Inst::Call { dst, ret, callee, name, args, argtys, noret, normal } => {
                    let mut target = p.callee[fi][pc].clone();
                    let mut nm: Option<&str> = name.as_deref();
                    if let Callee::Dyn = target {
                        let f = self.val(st, *callee);
                        let a = self.conc(st, &f)?;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 {
                            return ub(format!("call through invalid pointer {a:#x}"));
                        }
                        let k = ((a - FN_BASE) / 16) as usize;
                        if k < p.m.funcs.len() {
                            target = Callee::Func(k as u32);
                        } else if let Some(n) = p.extern_names.get(k - p.m.funcs.len()) {
                            nm = Some(n);
                            target = Callee::Ext(ext_of(n));
                        } else {
                            return ub("call through invalid pointer");
                        }
                    }
                    match target {
                        Callee::Func(k) => {
                            let g = &p.m.funcs[k as usize];
                            if *noret || g.noret {
                                let mut loc = String::new();
                                for a in args.iter().rev() {
                                    if let V::I(x) = self.val(st, *a) {
                                        if let Some(s) = self.location(st, x) {
                                            loc = s;
                                            break;
                                        }
                                    }
                                }
                                return Ok(Out::Panic(format!("{} {loc}", g.pretty)));
                            }
                            if st.frames.len() >= self.max_depth {
                                return Ok(Out::Depth);
                            }
                            let vs: Vec<V> = args.iter().map(|a| self.val(st, *a)).collect();
                            self.push_frame(st, k, vs);
                            continue;
                        }
                        Callee::Ext(x) => {
                            let vs: Vec<V> = args.iter().map(|a| self.val(st, *a)).collect();
                            if x == Ext::Unknown {
                                if *noret {
                                    return Ok(Out::Panic(format!("{nm:?}")));
                                }
                                return inc(format!("extern {nm:?}"));
                            }
                            let r = self.ext(st, x, &vs, argtys, ret)?;
                            if let (Some(d), Some(r)) = (dst, r) {
                                self.set(st, *d, r);
                            }
                            if let Some(e) = normal {
                                self.jump(st, e);
                                continue;
                            }
                        }
                        _ => return inc("callee"),
                    }
                }
                Inst::Select(ty, d, c, a, b, vc) => {
                    let c = self.val(st, *c);
                    let x = self.val(st, *a);
                    let y = self.val(st, *b);
                    let r = match (&c, vc) {
                        (V::I(k), false) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        // Lengths and addresses end up in memory accesses: decide them here.
                        (V::S(e), false) if matches!(ty, Ty::Int(64) | Ty::Ptr) => {
                            if self.branch(st, *e)? { x } else { y }
                        }
                        (V::S(e), false) => self.ite(*e, ty, &x, &y)?,
                        (V::A(cs), true) => {
                            let (V::A(xs), V::A(ys)) = (&x, &y) else { return inc("vec select") };
                            let Ty::Vec(_, t) = ty else { return inc("vec select") };
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(match &cs[i] {
                                    V::I(k) => {
                                        if k & 1 == 1 {
                                            xs[i].clone()
                                        } else {
                                            ys[i].clone()
                                        }
                                    }
                                    V::S(e) => self.ite(*e, t, &xs[i], &ys[i])?,
                                    _ => return inc("vec select"),
                                });
                            }
                            V::A(Arc::new(o))
                        }
                        _ => return inc("select"),
                    };
                    self.set(st, *d, r);
                }
                Inst::ExtractValue(d, a, ix) => {
                    let mut v = self.val(st, *a);
                    for i in ix {
                        let V::A(xs) = &v else { return inc("extractvalue") };
                        let n = xs[*i as usize].clone();
                        v = n;
                    }
                    self.set(st, *d, v);
                }
                Inst::InsertValue(d, a, x, ix) => {
                    let v = self.val(st, *a);
                    let x = self.val(st, *x);
                    fn ins(v: V, ix: &[u32], x: V) -> Option<V> {
                        if ix.is_empty() {
                            return Some(x);
                        }
                        let V::A(mut xs) = v else { return None };
                        let m = Arc::make_mut(&mut xs);
                        let o = m[ix[0] as usize].clone();
                        m[ix[0] as usize] = ins(o, &ix[1..], x)?;
                        Some(V::A(xs))
                    }
                    let Some(r) = ins(v, ix, x) else { return inc("insertvalue") };
                    self.set(st, *d, r);
                }
                Inst::ExtractElem(d, a, i) => {
                    let v = self.val(st, *a);
                    let i = self.val(st, *i);
                    let i = self.conc(st, &i)? as usize;
                    let V::A(xs) = &v else { return inc("extractelement") };
                    let r = xs.get(i).cloned().unwrap_or(V::I(0));
                    self.set(st, *d, r);
                }
                Inst::InsertElem(d, a, x, i) => {
                    let v = self.val(st, *a);
                    let x = self.val(st, *x);
                    let i = self.val(st, *i);
                    let i = self.conc(st, &i)? as usize;
                    let V::A(mut xs) = v else { return inc("insertelement") };
                    Arc::make_mut(&mut xs)[i] = x;
                    self.set(st, *d, V::A(xs));
                }
                Inst::Shuffle(d, a, b, m) => {
                    let x = self.val(st, *a);
                    let y = self.val(st, *b);
                    let (V::A(xs), V::A(ys)) = (&x, &y) else { return inc("shuffle") };
                    let o = m
                        .iter()
                        .map(|&i| {
                            let i = i.max(0) as usize;
                            if i < xs.len() { xs[i].clone() } else { ys[i - xs.len()].clone() }
                        })
                        .collect();
                    self.set(st, *d, V::A(Arc::new(o)));
                }
                Inst::AtomicRmw(k, ty, d, a, v) => {
                    let a = self.val(st, *a);
                    let a = self.conc(st, &a)?;
                    let old = self.load(st, ty, a)?;
                    let v = self.val(st, *v);
                    let w = ty.bits();
                    let new = match k {
                        0 => v,
                        1 => self.bin(Bin::Add, w, &old, &v)?,
                        2 => self.bin(Bin::Sub, w, &old, &v)?,
                        3 => self.bin(Bin::And, w, &old, &v)?,
                        4 => self.bin(Bin::Or, w, &old, &v)?,
                        5 => self.bin(Bin::Xor, w, &old, &v)?,
                        _ => return inc("atomicrmw"),
                    };
                    self.store(st, ty, &new, a)?;
                    if *d != u32::MAX {
                        self.set(st, *d, old);
                    }
                }
                Inst::CmpXchg(ty, d, a, c, n) => {
                    let a = self.val(st, *a);
                    let a = self.conc(st, &a)?;
                    let old = self.load(st, ty, a)?;
                    let c = self.val(st, *c);
                    let n = self.val(st, *n);
                    let (x, y) = (self.conc(st, &old)?, self.conc(st, &c)?);
                    if x == y {
                        self.store(st, ty, &n, a)?;
                    }
                    if *d != u32::MAX {
                        self.set(st, *d, V::A(Arc::new(vec![old, V::I((x == y) as u64)])));
                    }
                }
                Inst::Freeze(d, a) => {
                    let v = self.val(st, *a);
                    self.set(st, *d, v);
                }
                Inst::Nop => {}
                Inst::Trap(s) => return inc(format!("unsupported: {s}")),
            }
            st.frames.last_mut().unwrap().pc += 1;
        }
    }

    /// Is `x` the address of a core::panic::Location constant?
    fn location(&mut self, st: &State, x: u64) -> Option<String> {
        let (id, off) = split(x);
        if id == 0 || id > self.p.m.globals.len() as u64 || off != 0 {
            return None;
        }
        let o = st.obj(id)?;
        if o.data.len() != 24 {
            return None;
        }
        let g = |i: usize, n: usize| -> u64 {
            let mut v = 0;
            for k in 0..n {
                v |= (o.data[i + k] as u64) << (8 * k);
            }
            v
        };
        let (fp, fl, line) = (g(0, 8), g(8, 8), g(16, 4));
        let (fid, foff) = split(fp);
        let fo = st.obj(fid)?;
        if foff < 0 || (foff as usize + fl as usize) > fo.data.len() {
            return None;
        }
        Some(format!("{}:{line}", String::from_utf8_lossy(&fo.data[foff as usize..foff as usize + fl as usize])))
    }

    fn cast(&mut self, st: &mut State, k: &CastK, t1: &Ty, t2: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(_, a), Ty::Vec(_, b)) = (t1, t2) {
            if !matches!(k, CastK::Bits) {
                let V::A(xs) = x else { return inc("vec cast") };
                let mut o = vec![];
                for v in xs.iter() {
                    o.push(self.cast(st, k, a, b, v)?);
                }
                return Ok(V::A(Arc::new(o)));
            }
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        Ok(match k {
            CastK::Trunc => match Self::ci(x) {
                Some(c) => mkv(c & mask(w2), w2),
                None => {
                    let e = self.e(x, w1);
                    let r = self.ar.extract(e, 0, w2);
                    self.v(r)
                }
            },
            CastK::ZExt => match Self::ci(x) {
                Some(c) => mkv(c, w2),
                None => {
                    let e = self.e(x, w1);
                    let r = self.ar.zext(e, w2);
                    self.v(r)
                }
            },
            CastK::SExt => match Self::ci(x) {
                Some(c) => mkv((sx(c, w1) as u128) & mask(w2), w2),
                None => {
                    let e = self.e(x, w1);
                    let r = self.ar.sext(e, w2);
                    self.v(r)
                }
            },
            CastK::Bits => {
                if matches!(t1, Ty::Vec(..)) || matches!(t2, Ty::Vec(..)) {
                    let e = self.to_bits(x, t1)?;
                    self.from_bits(e, t2)
                } else {
                    x.clone()
                }
            }
            CastK::FpToUi | CastK::FpToSi => {
                let c = self.conc(st, x)?;
                let f = if w1 == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let r = if matches!(k, CastK::FpToUi) { f as u128 } else { f as i128 as u128 };
                mkv(r & mask(w2), w2)
            }
            CastK::UiToFp | CastK::SiToFp => {
                let c = self.conc(st, x)?;
                let s = if matches!(k, CastK::SiToFp) { sx(c as u128, w1) } else { c as i128 };
                V::I(if w2 == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() })
            }
            CastK::FpTrunc => {
                let c = self.conc(st, x)?;
                V::I((f64::from_bits(c) as f32).to_bits() as u64)
            }
            CastK::FpExt => {
                let c = self.conc(st, x)?;
                V::I((f32::from_bits(c as u32) as f64).to_bits())
            }
        })
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> V {
        let id = st.vars.len() as u32;
        Rc::make_mut(&mut st.vars).push(w as u8);
        Rc::make_mut(&mut st.model).resize(id as usize + 1, 0);
        V::S(self.ar.var(id, w))
    }

    /// Apply a per-lane scalar function when the operands are vectors.
    fn ext(&mut self, st: &mut State, x: Ext, a: &[V], tys: &[Ty], ret: &Ty) -> R<Option<V>> {
        use Ext::*;
        if let Some(Ty::Vec(_, t)) = tys.first() {
            if matches!(x, Fsh(_) | MinMax(_) | Ctz | Clz | Ctpop | Bswap | Bitrev | Abs | Sat(_)) {
                let n = if let V::A(v) = &a[0] { v.len() } else { 0 };
                let mut o = vec![];
                for i in 0..n {
                    let l: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(xs) => xs[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let ts = vec![(**t).clone(); a.len()];
                    o.push(self.ext(st, x, &l, &ts, t)?.unwrap());
                }
                return Ok(Some(V::A(Arc::new(o))));
            }
        }
        let w = tys.first().map(|t| t.bits()).unwrap_or(0);
        Ok(Some(match x {
            Malloc => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 28 {
                    return inc("huge allocation");
                }
                V::I(st.alloc(n))
            }
            Calloc => {
                let n = self.conc(st, &a[0])?;
                let k = self.conc(st, &a[1])?;
                let t = n.saturating_mul(k);
                if t > 1 << 28 {
                    return inc("huge allocation");
                }
                V::I(st.alloc(t))
            }
            Memalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                if n > 1 << 28 {
                    return inc("huge allocation");
                }
                let q = st.alloc(n);
                self.store(st, &Ty::Ptr, &V::I(q), p)?;
                V::I(0)
            }
            Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n > 1 << 28 {
                    return inc("huge allocation");
                }
                if p == 0 {
                    return Ok(Some(V::I(st.alloc(n))));
                }
                let (id, off) = split(p);
                let Some(o) = st.obj(id) else { return ub("realloc of freed memory") };
                if off != 0 || id >= FRAME_BASE || id <= self.p.m.globals.len() as u64 {
                    return ub("realloc of non-heap pointer");
                }
                let mut o = o.clone();
                o.data.resize(n as usize, 0);
                if let Some(s) = &mut o.sym {
                    s.resize(n as usize, 0);
                }
                let q = st.alloc(0);
                st.set_obj(split(q).0, Some(Rc::new(o)));
                st.set_obj(id, None);
                V::I(q)
            }
            Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    let (id, off) = split(p);
                    if off != 0 || id >= FRAME_BASE || id <= self.p.m.globals.len() as u64 {
                        return ub("free of non-heap pointer");
                    }
                    if st.obj(id).is_none() {
                        return ub("double free");
                    }
                    st.set_obj(id, None);
                }
                return Ok(None);
            }
            Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let (b, sy) = self.bytes(st, s, n)?;
                self.put_bytes(st, d, &b, sy.as_deref())?;
                V::I(d)
            }
            Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                if n > 1 << 28 {
                    return ub("huge memset");
                }
                match &a[1] {
                    V::S(e) => {
                        let e = if self.ar.w(*e) > 8 { self.ar.extract(*e, 0, 8) } else { *e };
                        let b = vec![0u8; n as usize];
                        let sy = vec![e; n as usize];
                        self.put_bytes(st, d, &b, Some(&sy))?;
                    }
                    v => {
                        let c = Self::ci(v).unwrap_or(0) as u8;
                        let b = vec![c; n as usize];
                        self.put_bytes(st, d, &b, None)?;
                    }
                }
                V::I(d)
            }
            Bcmp | Memcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let (b1, s1) = self.bytes(st, p, n)?;
                let (b2, s2) = self.bytes(st, q, n)?;
                if s1.is_none() && s2.is_none() {
                    let r: i32 = match b1.cmp(&b2) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    V::I(r as u32 as u64)
                } else {
                    let xs = self.term_bytes(st, p, n)?;
                    let ys = self.term_bytes(st, q, n)?;
                    let zero = self.ar.konst(0, 32);
                    let one = self.ar.konst(1, 32);
                    let neg = self.ar.konst(0xffff_ffff, 32);
                    let mut acc = zero;
                    for i in (0..n as usize).rev() {
                        let eq = self.ar.eq(xs[i], ys[i]);
                        let ne = if x == Memcmp {
                            let lt = self.ar.ult(xs[i], ys[i]);
                            self.ar.ite(lt, neg, one)
                        } else {
                            one
                        };
                        acc = self.ar.ite(eq, acc, ne);
                    }
                    self.v(acc)
                }
            }
            Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(st, &Ty::Int(8), p + n)?;
                    if self.conc(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                V::I(n)
            }
            Assume => {
                match &a[0] {
                    V::I(0) => return ub("llvm.assume violated"),
                    V::S(e) => {
                        if !self.branch(st, *e)? {
                            return ub("llvm.assume violated");
                        }
                    }
                    _ => {}
                }
                return Ok(None);
            }
            Fsh(left) => {
                let s = match Self::ci(&a[2]) {
                    Some(s) => s % w as u128,
                    None => {
                        let e = self.e(&a[2], w);
                        self.concretize(st, e)? % w as u128
                    }
                } as u32;
                let (hi, lo) = (self.e(&a[0], w), self.e(&a[1], w));
                let r = if left {
                    if s == 0 {
                        hi
                    } else {
                        let h = self.ar.extract(hi, 0, w - s);
                        let l = self.ar.extract(lo, w - s, s);
                        self.ar.concat(h, l)
                    }
                } else if s == 0 {
                    lo
                } else {
                    let h = self.ar.extract(hi, 0, s);
                    let l = self.ar.extract(lo, s, w - s);
                    self.ar.concat(h, l)
                };
                self.v(r)
            }
            MinMax(k) => {
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
                let c = self.cmp(p, w, &a[0], &a[1]);
                match c {
                    V::I(1) => a[0].clone(),
                    V::I(_) => a[1].clone(),
                    V::S(e) if w == 64 => {
                        if self.branch(st, e)? { a[0].clone() } else { a[1].clone() }
                    }
                    V::S(e) => self.ite(e, ret, &a[0], &a[1])?,
                    _ => return inc("minmax"),
                }
            }
            Ctz | Clz | Ctpop | Bitrev | Bswap => match Self::ci(&a[0]) {
                Some(c) => {
                    let r = match x {
                        Ctz => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
                        Clz => (c.leading_zeros() - (128 - w)) as u128,
                        Ctpop => c.count_ones() as u128,
                        Bitrev => c.reverse_bits() >> (128 - w),
                        _ => c.swap_bytes() >> (128 - w),
                    };
                    mkv(r, w)
                }
                None => {
                    let e = self.e(&a[0], w);
                    match x {
                        Ctz | Clz => {
                            let mut acc = self.ar.konst(w as u128, w);
                            for i in 0..w {
                                // the last one applied wins: lowest bit for ctz, highest for clz
                                let bit = if x == Ctz { w - 1 - i } else { i };
                                let b = self.ar.extract(e, bit, 1);
                                let val = if x == Ctz { bit } else { w - 1 - bit };
                                let k = self.ar.konst(val as u128, w);
                                acc = self.ar.ite(b, k, acc);
                            }
                            self.v(acc)
                        }
                        Ctpop => {
                            let mut acc = self.ar.konst(0, w);
                            for i in 0..w {
                                let b = self.ar.extract(e, i, 1);
                                let z = self.ar.zext(b, w);
                                acc = self.ar.bin(Bin2::Add, acc, z);
                            }
                            self.v(acc)
                        }
                        Bswap => {
                            let mut acc: Option<E> = None;
                            for i in 0..w / 8 {
                                let b = self.ar.extract(e, w - 8 - i * 8, 8);
                                acc = Some(match acc {
                                    None => b,
                                    Some(l) => self.ar.concat(b, l),
                                });
                            }
                            self.v(acc.unwrap())
                        }
                        _ => {
                            let mut acc: Option<E> = None;
                            for i in 0..w {
                                let b = self.ar.extract(e, w - 1 - i, 1);
                                acc = Some(match acc {
                                    None => b,
                                    Some(l) => self.ar.concat(b, l),
                                });
                            }
                            self.v(acc.unwrap())
                        }
                    }
                }
            },
            Abs => {
                let z = V::I(0);
                let c = self.cmp(Pred::Slt, w, &a[0], &z);
                let n = self.bin(Bin::Sub, w, &z, &a[0])?;
                match c {
                    V::I(1) => n,
                    V::I(_) => a[0].clone(),
                    V::S(e) => self.ite(e, ret, &n, &a[0])?,
                    _ => return inc("abs"),
                }
            }
            Ovf(k) => {
                let (r, o) = self.ovf(k, w, &a[0], &a[1])?;
                V::A(Arc::new(vec![r, o]))
            }
            Sat(k) => {
                let (r, o) = self.ovf(k, w, &a[0], &a[1])?;
                let lim = match k {
                    0 | 2 => V::I(mask(w) as u64),
                    1 => V::I(0),
                    _ => return inc("signed saturation"),
                };
                match o {
                    V::I(1) => lim,
                    V::I(_) => r,
                    V::S(e) => self.ite(e, ret, &lim, &r)?,
                    _ => return inc("sat"),
                }
            }
            Cmp3(s) => {
                let lt = self.cmp(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let gt = self.cmp(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
                let wr = ret.bits();
                let (l, g) = (self.e(&lt, 1), self.e(&gt, 1));
                let (m, o, z) = (self.ar.konst(mask(wr), wr), self.ar.konst(1, wr), self.ar.konst(0, wr));
                let r = self.ar.ite(g, o, z);
                let r = self.ar.ite(l, m, r);
                self.v(r)
            }
            IsConst => V::I(0),
            Trap => return Ok(Some(V::I(end(Out::Panic("trap/abort".into()))?))),
            FAbs => {
                let k = V::I(mask(w - 1) as u64);
                self.bin(Bin::And, w, &a[0], &k)?
            }
            FMath(k) => {
                let c = self.conc(st, &a[0])?;
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let r = match k {
                    0 => f.floor(),
                    1 => f.ceil(),
                    2 => f.trunc(),
                    3 => f.round(),
                    4 => f.round_ties_even(),
                    6 => f.sqrt(),
                    _ => return inc("float function"),
                };
                V::I(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
            }
            FClass => {
                let c = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let sub = if w == 32 { f32::from_bits(c as u32).is_subnormal() } else { f.is_subnormal() };
                let neg = f.is_sign_negative();
                let bit = if f.is_nan() {
                    1
                } else if f.is_infinite() {
                    if neg { 2 } else { 9 }
                } else if f == 0.0 {
                    if neg { 5 } else { 6 }
                } else if sub {
                    if neg { 4 } else { 7 }
                } else if neg {
                    3
                } else {
                    8
                };
                let hit = m >> bit & 1 == 1 || (f.is_nan() && m & 3 != 0);
                V::I(hit as u64)
            }
            FToSat(s) => {
                let c = self.conc(st, &a[0])?;
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let wr = ret.bits();
                if s {
                    let (lo, hi) = (-(1i128 << (wr - 1)), (1i128 << (wr - 1)) - 1);
                    let v = (f as i128).clamp(lo, hi);
                    mkv(v as u128 & mask(wr), wr)
                } else {
                    let v = (f as u128).min(mask(wr));
                    mkv(v, wr)
                }
            }
            LoadRel => {
                let b = self.conc(st, &a[0])?;
                let o = self.conc(st, &a[1])?;
                let _ = (b, o);
                return inc("llvm.load.relative");
            }
            TlsAddr | Expect => a[0].clone(),
            Getenv => V::I(0),
            SxByte => self.fresh(st, 8),
            SxU32 => self.fresh(st, 32),
            SxSymbolic => V::I(1),
            SxAssume => {
                match &a[0] {
                    V::I(c) => {
                        if c & 1 == 0 {
                            return end(Out::Infeasible);
                        }
                    }
                    V::S(e) => {
                        let e = if self.ar.w(*e) > 1 { self.ar.extract(*e, 0, 1) } else { *e };
                        if self.ar.eval(e, &st.model) != 1 {
                            match self.query(st, e) {
                                Some(Some(m)) => {
                                    let mm = Rc::make_mut(&mut st.model);
                                    for (i, x) in m {
                                        mm[i as usize] = x;
                                    }
                                }
                                Some(None) => return end(Out::Infeasible),
                                None => return inc("solver unknown"),
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return inc("assume"),
                }
                return Ok(None);
            }
            SxFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let t = self.term_bytes(st, p, n)?;
                let b: Vec<u8> = t.iter().map(|e| self.ar.eval(*e, &st.model) as u8).collect();
                return end(Out::Fail(String::from_utf8_lossy(&b).into_owned()));
            }
            SxNote => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let t = self.term_bytes(st, p, n)?;
                Rc::make_mut(&mut st.notes).push(t);
                return Ok(None);
            }
            SxCover => {
                let c = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&c) {
                    Rc::make_mut(&mut st.covers).push(c);
                }
                return Ok(None);
            }
            SxConc => V::I(self.conc(st, &a[0])?),
            SxShow => return Ok(None),
            Unknown => return inc("extern"),
        }))
    }

    fn ovf(&mut self, k: u8, w: u32, a: &V, b: &V) -> R<(V, V)> {
        let op = [Bin::Add, Bin::Sub, Bin::Mul][k as usize % 3];
        let r = self.bin(op, w, a, b)?;
        if let (Some(x), Some(y)) = (Self::ci(a), Self::ci(b)) {
            let o = if k < 3 {
                match k {
                    0 => x + y > mask(w),
                    1 => x < y,
                    _ => match x.checked_mul(y) {
                        Some(p) => p > mask(w),
                        None => true,
                    },
                }
            } else {
                let (x, y) = (sx(x, w), sx(y, w));
                let t = match k {
                    3 => x + y,
                    4 => x - y,
                    _ => x * y,
                };
                t != sx(t as u128 & mask(w), w)
            };
            return Ok((r, V::I(o as u64)));
        }
        if w > 64 {
            return inc("wide overflow");
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let ww = if k % 3 == 2 { 2 * w } else { w + 1 };
        let o = match k {
            1 => self.ar.ult(x, y),
            0 | 2 => {
                let (xe, ye) = (self.ar.zext(x, ww), self.ar.zext(y, ww));
                let t = self.ar.bin(b2(op), xe, ye);
                let hi = self.ar.extract(t, w, ww - w);
                let z = self.ar.konst(0, ww - w);
                let e = self.ar.eq(hi, z);
                self.ar.not(e)
            }
            _ => {
                let (xe, ye) = (self.ar.sext(x, ww), self.ar.sext(y, ww));
                let t = self.ar.bin(b2(op), xe, ye);
                let lo = self.ar.extract(t, 0, w);
                let back = self.ar.sext(lo, ww);
                let e = self.ar.eq(t, back);
                self.ar.not(e)
            }
        };
        Ok((r, self.v(o)))
    }
}
