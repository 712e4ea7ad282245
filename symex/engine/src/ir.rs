//! Parser for the textual LLVM IR that rustc emits, into a compact register form.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (*n as u64).div_ceil(8)
                } else {
                    *n as u64 * t.size()
                }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for f in fs {
                    if !*packed {
                        let a = f.align();
                        off = off.div_ceil(a) * a;
                    }
                    off += f.size();
                }
                let a = self.align();
                off.div_ceil(a) * a
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match (*w as u64).div_ceil(8) {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        off = off.div_ceil(a) * a;
                    }
                    if k == i {
                        return (off, f);
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), t),
            _ => panic!("field_off on {self:?}"),
        }
    }
    /// Bit width of a scalar value.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

/// A runtime value.
#[derive(Clone, Debug)]
pub enum V {
    /// concrete, at most 64 bits, zero-extended
    I(u64),
    /// concrete, more than 64 bits
    W(Box<u128>),
    /// symbolic term
    S(u32),
    /// aggregate or vector
    A(Arc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128, u32),
    Undef(Ty),
    Zero(Ty),
    Global(String),
    Agg(Vec<(Ty, Const)>, bool),
    Bytes(Vec<u8>),
    Vec(Vec<Const>),
    Gep(Box<Const>, Vec<(Const, u64)>, u64),
    Bin(&'static str, u32, Box<Const>, Box<Const>),
    Cast(u32, Box<Const>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    R(u32),
    C(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    /// same bits (ptrtoint/inttoptr 64-bit, bitcast between scalars)
    Bits,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, Ty, u32, Op, Op),
    ICmp(Pred, Ty, u32, Op, Op),
    FBin(u8, Ty, u32, Op, Op),
    FCmp(u8, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    Cast(CastK, Ty, Ty, u32, Op),
    Alloca(u32, u64),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u64, u32)>),
    Br(Edge),
    CondBr(Op, Edge, Edge),
    Switch(Op, u32, Edge, Vec<(u128, Edge)>),
    Ret(Option<Op>),
    Unreachable,
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Op,
        name: Option<Arc<str>>,
        args: Vec<Op>,
        argtys: Vec<Ty>,
        noret: bool,
        normal: Option<Edge>,
    },
    Select(Ty, u32, Op, Op, Op, bool),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>),
    AtomicRmw(u8, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    Trap(&'static str),
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: usize,
    pub nregs: usize,
    pub frame: u64,
    pub insts: Vec<Inst>,
    pub blocks: Vec<u32>,
    pub noret: bool,
    pub src_lines: usize,
}

pub struct GlobalVar {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<Const>,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, usize>,
    pub globals: Vec<GlobalVar>,
    pub gmap: HashMap<String, usize>,
    pub decls: HashMap<String, bool>,
    pub consts: Vec<Const>,
    pub consts_ty: Vec<Ty>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    line: &'a str,
}

impl<'a> P<'a> {
    fn new(line: &'a str) -> Self {
        P { s: line.as_bytes(), i: 0, line }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
                match self.line[self.i..].find("*/") {
                    Some(k) => self.i += k + 2,
                    None => return,
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {} in: {}", c as char, self.i, self.line);
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len()
            && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.')
        {
            j += 1;
        }
        &self.line[st..j]
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i] == b'+') {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = &self.line[st..self.i];
        t.parse::<i128>().unwrap_or_else(|_| {
            t.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("num {t} in {}", self.line))
        })
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = self.line[st..self.i].to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric()
                    || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-'))
            {
                self.i += 1;
            }
            self.line[st..self.i].to_string()
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        let mut q = false;
        while d > 0 {
            match self.s[self.i] {
                b'"' => q = !q,
                b'(' if !q => d += 1,
                b')' if !q => d -= 1,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut fs = vec![];
                if !self.eat(b'}') {
                    loop {
                        fs.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(fs, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut fs = vec![];
                    if !self.eat(b'}') {
                        loop {
                            fs.push(self.ty());
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "x86_fp80" | "half" | "fp128" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            panic!("type {w:?} at {} in: {}", self.i, self.line)
                        }
                    }
                }
            }
        };
        // function type `ty (args)` is handled by the caller
        if self.peek_word() == "addrspace" {
            self.word();
            self.skip_parens();
            t = Ty::Ptr;
        }
        t
    }
    /// Skip parameter / return attributes up to a value or type.
    fn attrs(&mut self) {
        loop {
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "nofree" | "readonly" | "writeonly"
                | "readnone" | "returned" | "zeroext" | "signext" | "inreg" | "immarg" | "allocptr"
                | "allocalign" | "nest" | "swiftself" | "swifterror" | "swiftasync" | "dead_on_unwind"
                | "dead_on_return" | "writable" | "noext" => {
                    self.word();
                    if self.i < self.s.len() && self.s[self.i] == b'(' {
                        self.skip_parens();
                    }
                }
                "align" => {
                    self.word();
                    if self.eat(b'(') {
                        self.num();
                        self.expect(b')');
                    } else {
                        self.num();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval"
                | "nofpclass" | "initializes" | "elementtype" | "byref" | "preallocated" | "inalloca"
                | "alignstack" => {
                    self.word();
                    self.skip_parens();
                }
                _ => {
                    if self.peek() == b'"' {
                        // string attribute
                        self.i += 1;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                        if self.eat(b'=') {
                            self.expect(b'"');
                            while self.s[self.i] != b'"' {
                                self.i += 1;
                            }
                            self.i += 1;
                        }
                    } else {
                        return;
                    }
                }
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // after c, at "
        self.expect(b'"');
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = &self.line[self.i + 1..self.i + 3];
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn float(&mut self, ty: &Ty) -> Const {
        self.ws();
        let w = ty.bits();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-'))
        {
            self.i += 1;
        }
        let t = &self.line[st..self.i];
        let (neg, body) = if let Some(b) = t.strip_prefix('-') {
            (true, b)
        } else if let Some(b) = t.strip_prefix('+') {
            (false, b)
        } else {
            (false, t)
        };
        let mk = |f: f64| -> u128 { if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 } };
        let sign = if neg { 1u128 << (w - 1) } else { 0 };
        let bits = if body == "qnan" {
            sign | if w == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 }
        } else if body == "inf" {
            sign | mk(f64::INFINITY)
        } else if let Some(h) = body.strip_prefix("f0x") {
            u128::from_str_radix(h, 16).unwrap()
        } else if let Some(h) = body.strip_prefix("0x") {
            let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
            mk(d)
        } else if body.starts_with("nan") || body.starts_with("snan") {
            sign | if w == 32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 }
        } else {
            mk(t.parse::<f64>().unwrap_or_else(|_| panic!("float {t} in {}", self.line)))
        };
        Const::Int(bits, w)
    }
    /// constant of given type
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.peek() {
            b'@' => {
                self.i += 1;
                return Const::Global(self.name());
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                return Const::Bytes(self.cstr());
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        let t = self.ty();
                        let c = self.konst(&t);
                        v.push((t, c));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                return Const::Agg(v, false);
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b']') {
                    loop {
                        let t = self.ty();
                        let c = self.konst(&t);
                        v.push((t, c));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b']');
                }
                return Const::Agg(v, false);
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let mut v = vec![];
                    if !self.eat(b'}') {
                        loop {
                            let t = self.ty();
                            let c = self.konst(&t);
                            v.push((t, c));
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    return Const::Agg(v, true);
                }
                let mut v = vec![];
                loop {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if !self.eat(b',') {
                        break;
                    }
                }
                self.expect(b'>');
                return Const::Vec(v);
            }
            _ => {}
        }
        if matches!(ty, Ty::F32 | Ty::F64) && !matches!(self.peek_word(), "undef" | "poison" | "zeroinitializer" | "splat" | "bitcast") {
            return self.float(ty);
        }
        let c = self.peek();
        if c == b'-' || c.is_ascii_digit() {
            let n = self.num();
            let w = ty.bits();
            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            return Const::Int(n as u128 & m, w);
        }
        let w = self.word();
        match w {
            "true" => Const::Int(1, 1),
            "false" => Const::Int(0, 1),
            "null" => Const::Int(0, 64),
            "undef" | "poison" => Const::Undef(ty.clone()),
            "zeroinitializer" | "none" => Const::Zero(ty.clone()),
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let c = self.konst(&t);
                self.expect(b')');
                let n = if let Ty::Vec(n, _) = ty { *n } else { panic!("splat") };
                Const::Vec(vec![c; n as usize])
            }
            "getelementptr" => {
                self.gep_flags();
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.konst(&pt);
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                let mut off = 0u64;
                while self.eat(b',') {
                    self.eat_word("inrange");
                    let it = self.ty();
                    let c = self.konst(&it);
                    if first {
                        idx.push((c, cur.size()));
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let k = if let Const::Int(k, _) = c { k as usize } else { panic!() };
                                let (o, f) = cur.field_off(k);
                                off += o;
                                let f = f.clone();
                                cur = f;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                idx.push((c, t.size()));
                                cur = *t;
                            }
                            _ => panic!("gep const"),
                        }
                    }
                }
                self.expect(b')');
                Const::Gep(Box::new(base), idx, off)
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast" => {
                loop {
                    if self.peek() == b'(' {
                        break;
                    }
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let c = self.konst(&t);
                assert!(self.eat_word("to"));
                let t2 = self.ty();
                self.expect(b')');
                Const::Cast(t2.bits(), Box::new(c))
            }
            "sub" | "add" | "xor" | "and" | "or" | "shl" | "mul" => {
                loop {
                    if self.peek() == b'(' {
                        break;
                    }
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(b')');
                let o: &'static str = match w {
                    "sub" => "sub",
                    "add" => "add",
                    "xor" => "xor",
                    "and" => "and",
                    "or" => "or",
                    "mul" => "mul",
                    _ => "shl",
                };
                Const::Bin(o, t.bits(), Box::new(a), Box::new(b))
            }
            "dso_local_equivalent" | "no_cfi" => {
                self.expect(b'@');
                Const::Global(self.name())
            }
            _ => panic!("const {w:?} of {ty:?} at {} in: {}", self.i, self.line),
        }
    }
    fn gep_flags(&mut self) {
        loop {
            match self.peek_word() {
                "inbounds" | "nuw" | "nusw" | "nsw" => {
                    self.word();
                }
                "inrange" => {
                    self.word();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
}

struct FB<'m> {
    regs: HashMap<String, u32>,
    consts: &'m mut Vec<Const>,
    consts_ty: &'m mut Vec<Ty>,
    cmap: &'m mut HashMap<String, u32>,
}

impl FB<'_> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> Op {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            Op::R(self.reg(&n))
        } else {
            let st = p.i;
            let c = p.konst(ty);
            self.konst(c, ty, &format!("{:?} {}", ty, &p.line[st..p.i]))
        }
    }
    fn konst(&mut self, c: Const, ty: &Ty, key: &str) -> Op {
        if let Some(k) = self.cmap.get(key) {
            return Op::C(*k);
        }
        let k = self.consts.len() as u32;
        self.consts.push(c);
        self.consts_ty.push(ty.clone());
        self.cmap.insert(key.to_string(), k);
        Op::C(k)
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Op) {
        let t = p.ty();
        p.attrs();
        if let Ty::Other = t {
            // metadata etc: skip to , or )
            let mut d = 0;
            loop {
                p.ws();
                match p.s[p.i] {
                    b'(' | b'{' => d += 1,
                    b'}' => d -= 1,
                    b')' if d > 0 => d -= 1,
                    b')' | b',' if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            return (t, Op::C(0));
        }
        let v = self.val(p, &t);
        (t, v)
    }
}

fn attr_groups(text: &str) -> HashMap<u32, bool> {
    let mut m = HashMap::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("attributes #") {
            let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
            let noret = r.contains(" noreturn");
            m.insert(n.parse().unwrap(), noret);
        }
    }
    m
}

fn line_noret(rest: &str, ag: &HashMap<u32, bool>) -> bool {
    // rest: text after the argument list
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'#' {
            let n: String = rest[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = n.parse::<u32>() {
                if *ag.get(&n).unwrap_or(&false) {
                    return true;
                }
            }
        }
        i += 1;
    }
    rest.contains(" noreturn")
}

const CCS: &[&str] = &["fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc", "tailcc", "swiftcc"];

pub fn parse_module(text: &str) -> Module {
    let ag = attr_groups(text);
    let mut m = Module {
        funcs: vec![],
        fmap: HashMap::new(),
        globals: vec![],
        gmap: HashMap::new(),
        decls: HashMap::new(),
        consts: vec![Const::Int(0, 64)],
        consts_ty: vec![Ty::Int(64)],
    };
    let mut cmap: HashMap<String, u32> = HashMap::new();
    let mut lines = text.lines();
    let mut last_comment = String::new();
    while let Some(l) = lines.next() {
        if l.starts_with(';') {
            if !l.starts_with("; Function Attrs") {
                last_comment = l[1..].trim().to_string();
            }
            continue;
        }
        if l.starts_with('@') {
            parse_global(&mut m, l);
        } else if l.starts_with("declare") {
            let at = l.find('@').unwrap();
            let mut p = P::new(l);
            p.i = at + 1;
            let n = p.name();
            p.skip_parens();
            let noret = line_noret(&l[p.i..], &ag);
            m.decls.insert(n, noret);
        } else if l.starts_with("define") {
            let mut body = vec![];
            loop {
                let b = lines.next().unwrap();
                if b == "}" {
                    break;
                }
                body.push(b);
            }
            let f = parse_func(l, &body, &ag, &mut m.consts, &mut m.consts_ty, &mut cmap, &last_comment);
            m.fmap.insert(f.name.clone(), m.funcs.len());
            m.funcs.push(f);
            last_comment.clear();
        }
    }
    m
}

fn parse_global(m: &mut Module, l: &str) {
    let mut p = P::new(l);
    p.i = 1;
    let name = p.name();
    p.expect(b'=');
    let mut constant = false;
    let mut ext = false;
    loop {
        let w = p.peek_word();
        match w {
            "constant" => {
                p.word();
                constant = true;
                break;
            }
            "global" => {
                p.word();
                break;
            }
            "alias" => {
                p.word();
                let _t = p.ty();
                p.expect(b',');
                let t = p.ty();
                let c = p.konst(&t);
                m.gmap.insert(name.clone(), m.globals.len());
                m.globals.push(GlobalVar { name, ty: Ty::Void, constant: true, init: Some(c), align: 0 });
                return;
            }
            "external" | "extern_weak" => {
                ext = true;
                p.word();
            }
            "thread_local" => {
                p.word();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
            }
            _ => {
                assert!(!w.is_empty(), "global: {l}");
                p.word();
            }
        }
    }
    let ty = p.ty();
    let init = if ext { None } else { Some(p.konst(&ty)) };
    let mut align = ty.align();
    if let Some(k) = l[p.i..].find(", align ") {
        let r = &l[p.i + k + 8..];
        let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
        align = n.parse().unwrap();
    }
    m.gmap.insert(name.clone(), m.globals.len());
    m.globals.push(GlobalVar { name, ty, constant, init, align });
}

fn parse_func(
    head: &str,
    body: &[&str],
    ag: &HashMap<u32, bool>,
    consts: &mut Vec<Const>,
    consts_ty: &mut Vec<Ty>,
    cmap: &mut HashMap<String, u32>,
    pretty: &str,
) -> Func {
    let at = head.find('@').unwrap();
    let mut p = P::new(head);
    p.i = at + 1;
    let name = p.name();
    let mut fb = FB { regs: HashMap::new(), consts, consts_ty, cmap };
    p.expect(b'(');
    let mut nparams = 0;
    let mut unnamed = 0;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' {
                p.i += 3;
                break;
            }
            let _t = p.ty();
            p.attrs();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = fb.reg(&n);
                assert_eq!(r as usize, nparams);
            } else {
                fb.reg(&format!("{unnamed}"));
                unnamed += 1;
            }
            nparams += 1;
            if !p.eat(b',') {
                break;
            }
        }
        p.expect(b')');
    }
    let noret = line_noret(&head[p.i..], ag);

    // join continuation lines
    let mut stmts: Vec<String> = vec![];
    let mut i = 0;
    while i < body.len() {
        let l = body[i];
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
            i += 1;
            continue;
        }
        let mut s = l.to_string();
        if (t.starts_with("switch ") || t.contains("= switch ")) && t.trim_end().ends_with('[') {
            i += 1;
            while body[i].trim() != "]" && !body[i].trim_start().starts_with("],") {
                s.push(' ');
                s.push_str(body[i].trim());
                i += 1;
            }
            s.push_str(" ]");
        } else if t.starts_with("invoke ") || t.contains("= invoke ") {
            i += 1;
            s.push(' ');
            s.push_str(body[i].trim());
        } else if t.contains("= landingpad ") {
            while i + 1 < body.len() {
                let n = body[i + 1].trim_start();
                if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                    i += 1;
                } else {
                    break;
                }
            }
        }
        stmts.push(s);
        i += 1;
    }
    // pass 1: blocks
    let mut bmap: HashMap<String, u32> = HashMap::new();
    let mut blocks_stmts: Vec<(String, Vec<String>)> = vec![];
    for s in stmts {
        if !s.starts_with(' ') {
            // label
            let lab = if let Some(r) = s.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                s[..s.find(':').unwrap()].to_string()
            };
            bmap.insert(lab.clone(), blocks_stmts.len() as u32);
            blocks_stmts.push((lab, vec![]));
        } else {
            if blocks_stmts.is_empty() {
                let lab = format!("{unnamed}");
                bmap.insert(lab.clone(), 0);
                blocks_stmts.push((lab, vec![]));
            }
            blocks_stmts.last_mut().unwrap().1.push(s);
        }
    }
    // pass 2: phis: target block -> [(dst, Vec<(pred, Op)>)]
    let mut phis: Vec<Vec<(u32, HashMap<String, Op>)>> = vec![vec![]; blocks_stmts.len()];
    for (bi, (_, ss)) in blocks_stmts.iter().enumerate() {
        for s in ss {
            let t = s.trim_start();
            if !t.starts_with('%') || !t.contains(" = phi ") {
                continue;
            }
            let mut p = P::new(t);
            p.i = 1;
            let n = p.name();
            let d = fb.reg(&n);
            p.expect(b'=');
            p.word();
            loop {
                match p.peek_word() {
                    "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "afn" | "arcp" => {
                        p.word();
                    }
                    _ => break,
                }
            }
            let ty = p.ty();
            let mut mm = HashMap::new();
            loop {
                p.expect(b'[');
                let v = fb.val(&mut p, &ty);
                p.expect(b',');
                p.expect(b'%');
                let pn = p.name();
                p.expect(b']');
                mm.insert(pn, v);
                if !p.eat(b',') {
                    break;
                }
                if p.peek() == b'!' {
                    break;
                }
            }
            phis[bi].push((d, mm));
        }
    }
    let mut insts = vec![];
    let mut blocks = vec![];
    let mut frame = 0u64;
    let mut nlines = 0;
    for (lab, ss) in &blocks_stmts {
        blocks.push(insts.len() as u32);
        for s in ss {
            nlines += 1;
            let t = s.trim_start();
            if t.contains(" = phi ") && t.starts_with('%') {
                continue;
            }
            let edge = |tgt: &str| -> Edge {
                let b = *bmap.get(tgt).unwrap_or_else(|| panic!("no block {tgt} in {name}"));
                let copies = phis[b as usize]
                    .iter()
                    .map(|(d, mm)| (*d, *mm.get(lab).unwrap_or_else(|| panic!("phi pred {lab} in {name}"))))
                    .collect();
                Edge { target: b, copies }
            };
            let ins = parse_inst(t, &mut fb, &edge, &mut frame, ag);
            if !matches!(ins, Inst::Nop) {
                insts.push(ins);
            }
        }
    }
    Func {
        name,
        pretty: pretty.to_string(),
        nparams,
        nregs: fb.regs.len(),
        frame,
        insts,
        blocks,
        noret,
        src_lines: nlines,
    }
}

fn label(p: &mut P) -> String {
    assert!(p.eat_word("label"), "label at {} in {}", p.i, p.line);
    p.expect(b'%');
    p.name()
}

fn parse_inst(t: &str, fb: &mut FB, edge: &dyn Fn(&str) -> Edge, frame: &mut u64, ag: &HashMap<u32, bool>) -> Inst {
    let mut p = P::new(t);
    let mut dst: Option<u32> = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(fb.reg(&n));
        p.expect(b'=');
    }
    let mut op = p.word();
    if matches!(op, "tail" | "musttail" | "notail") {
        op = p.word();
    }
    let bin = match op {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "sdiv" => Some(Bin::SDiv),
        "urem" => Some(Bin::URem),
        "srem" => Some(Bin::SRem),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        _ => None,
    };
    if let Some(b) = bin {
        while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
            p.word();
        }
        let ty = p.ty();
        let a = fb.val(&mut p, &ty);
        p.expect(b',');
        let c = fb.val(&mut p, &ty);
        return Inst::Bin(b, ty, dst.unwrap(), a, c);
    }
    match op {
        "icmp" => {
            p.eat_word("samesign");
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => panic!("pred {x}"),
            };
            let ty = p.ty();
            let a = fb.val(&mut p, &ty);
            p.expect(b',');
            let b = fb.val(&mut p, &ty);
            Inst::ICmp(pr, ty, dst.unwrap(), a, b)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let k = match op {
                "fadd" => 0,
                "fsub" => 1,
                "fmul" => 2,
                "fdiv" => 3,
                _ => 4,
            };
            fmf(&mut p);
            let ty = p.ty();
            let a = fb.val(&mut p, &ty);
            p.expect(b',');
            let b = fb.val(&mut p, &ty);
            Inst::FBin(k, ty, dst.unwrap(), a, b)
        }
        "fneg" => {
            fmf(&mut p);
            let ty = p.ty();
            let a = fb.val(&mut p, &ty);
            Inst::FNeg(ty, dst.unwrap(), a)
        }
        "fcmp" => {
            fmf(&mut p);
            let k = match p.word() {
                "false" => 0u8,
                "oeq" => 1,
                "ogt" => 2,
                "oge" => 3,
                "olt" => 4,
                "ole" => 5,
                "one" => 6,
                "ord" => 7,
                "ueq" => 8,
                "ugt" => 9,
                "uge" => 10,
                "ult" => 11,
                "ule" => 12,
                "une" => 13,
                "uno" => 14,
                _ => 15,
            };
            let ty = p.ty();
            let a = fb.val(&mut p, &ty);
            p.expect(b',');
            let b = fb.val(&mut p, &ty);
            Inst::FCmp(k, ty, dst.unwrap(), a, b)
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "fptoui" | "fptosi" | "uitofp"
        | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
            loop {
                match p.peek_word() {
                    "nuw" | "nsw" | "nneg" => {
                        p.word();
                    }
                    _ => break,
                }
            }
            fmf(&mut p);
            let (t1, v) = fb.tyval(&mut p);
            assert!(p.eat_word("to"));
            let t2 = p.ty();
            let k = match op {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if t1.bits() > t2.bits() {
                        CastK::Trunc
                    } else if t1.bits() < t2.bits() {
                        CastK::ZExt
                    } else {
                        CastK::Bits
                    }
                }
                "bitcast" | "addrspacecast" => CastK::Bits,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptrunc" => CastK::FpTrunc,
                _ => CastK::FpExt,
            };
            Inst::Cast(k, t1, t2, dst.unwrap(), v)
        }
        "alloca" => {
            let ty = p.ty();
            let mut n = 1u64;
            let mut al = ty.align();
            while p.eat(b',') {
                if p.eat_word("align") {
                    al = p.num() as u64;
                } else if p.peek() == b'!' {
                    break;
                } else {
                    let it = p.ty();
                    if let Const::Int(k, _) = p.konst(&it) {
                        n = k as u64;
                    }
                }
            }
            *frame = frame.div_ceil(al) * al;
            let off = *frame;
            *frame += (ty.size() * n).max(1);
            Inst::Alloca(dst.unwrap(), off)
        }
        "load" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let ty = p.ty();
            p.expect(b',');
            let (_, v) = fb.tyval(&mut p);
            Inst::Load(ty, dst.unwrap(), v)
        }
        "store" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let (ty, v) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, a) = fb.tyval(&mut p);
            Inst::Store(ty, v, a)
        }
        "getelementptr" => {
            p.gep_flags();
            let ty = p.ty();
            p.expect(b',');
            let (_, base) = fb.tyval(&mut p);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = ty;
            let mut first = true;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let it = p.ty();
                let st = p.peek();
                let scale;
                if first {
                    scale = cur.size();
                    first = false;
                } else {
                    match cur.clone() {
                        Ty::Struct(..) => {
                            let k = p.num() as usize;
                            let (o, f) = cur.field_off(k);
                            off += o as i64;
                            let f = f.clone();
                            cur = f;
                            continue;
                        }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => {
                            scale = t.size();
                            cur = *t;
                        }
                        _ => panic!("gep {t}"),
                    }
                }
                if st == b'-' || st.is_ascii_digit() {
                    off = off.wrapping_add((p.num() as i64).wrapping_mul(scale as i64));
                } else {
                    let v = fb.val(&mut p, &it);
                    idx.push((v, scale, it.bits()));
                }
            }
            Inst::Gep(dst.unwrap(), base, off, idx)
        }
        "br" => {
            if p.peek_word() == "label" {
                let l = label(&mut p);
                Inst::Br(edge(&l))
            } else {
                let (_, c) = fb.tyval(&mut p);
                p.expect(b',');
                let a = label(&mut p);
                p.expect(b',');
                let b = label(&mut p);
                Inst::CondBr(c, edge(&a), edge(&b))
            }
        }
        "switch" => {
            let (ty, v) = fb.tyval(&mut p);
            p.expect(b',');
            let d = label(&mut p);
            p.expect(b'[');
            let mut cs = vec![];
            while p.peek() != b']' {
                let ct = p.ty();
                let k = if let Const::Int(k, _) = p.konst(&ct) { k } else { panic!() };
                p.expect(b',');
                let l = label(&mut p);
                cs.push((k, edge(&l)));
            }
            Inst::Switch(v, ty.bits(), edge(&d), cs)
        }
        "ret" => {
            let ty = p.ty();
            if ty == Ty::Void {
                Inst::Ret(None)
            } else {
                let v = fb.val(&mut p, &ty);
                Inst::Ret(Some(v))
            }
        }
        "unreachable" => Inst::Unreachable,
        "call" | "invoke" => {
            loop {
                let w = p.peek_word();
                if CCS.contains(&w) {
                    p.word();
                } else if w == "cc" {
                    p.word();
                    p.num();
                } else if matches!(w, "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "afn" | "arcp") {
                    p.word();
                } else {
                    break;
                }
            }
            p.attrs();
            let ret = p.ty();
            if p.peek() == b'(' {
                p.skip_parens();
            }
            let mut name: Option<Arc<str>> = None;
            let callee;
            if p.peek_word() == "asm" {
                // inline asm: only compiler barriers / black boxes appear; the value passes through
                return match dst {
                    None => Inst::Nop,
                    Some(_) => Inst::Trap("inline asm"),
                };
            }
            if p.peek() == b'@' {
                p.i += 1;
                let n = p.name();
                callee = Op::C(0);
                name = Some(Arc::from(n.as_str()));
            } else {
                callee = fb.val(&mut p, &Ty::Ptr);
            }
            if let Some(n) = &name {
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.donothing")
                    || n.starts_with("llvm.x86.sse2.pause")
                    || n.starts_with("llvm.prefetch")
                {
                    return Inst::Nop;
                }
            }
            p.expect(b'(');
            let mut args = vec![];
            let mut argtys = vec![];
            if !p.eat(b')') {
                loop {
                    let (t, v) = fb.tyval(&mut p);
                    args.push(v);
                    argtys.push(t);
                    if !p.eat(b',') {
                        break;
                    }
                }
                p.expect(b')');
            }
            let noret = line_noret(&t[p.i..], ag);
            let mut normal = None;
            if op == "invoke" {
                let k = t[p.i..].find(" to label ").unwrap();
                p.i += k + 4;
                let l = label(&mut p);
                normal = Some(edge(&l));
            }
            Inst::Call { dst, ret, callee, name, args, argtys, noret, normal }
        }
        "select" => {
            fmf(&mut p);
            let (ct, c) = fb.tyval(&mut p);
            p.expect(b',');
            let (ty, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, b) = fb.tyval(&mut p);
            Inst::Select(ty, dst.unwrap(), c, a, b, matches!(ct, Ty::Vec(..)))
        }
        "extractvalue" => {
            let (_, a) = fb.tyval(&mut p);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            Inst::ExtractValue(dst.unwrap(), a, ix)
        }
        "insertvalue" => {
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, v) = fb.tyval(&mut p);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            Inst::InsertValue(dst.unwrap(), a, v, ix)
        }
        "extractelement" => {
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, i) = fb.tyval(&mut p);
            Inst::ExtractElem(dst.unwrap(), a, i)
        }
        "insertelement" => {
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, v) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, i) = fb.tyval(&mut p);
            Inst::InsertElem(dst.unwrap(), a, v, i)
        }
        "shufflevector" => {
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, b) = fb.tyval(&mut p);
            p.expect(b',');
            let mt = p.ty();
            let n = if let Ty::Vec(n, _) = &mt { *n } else { panic!() };
            let c = p.konst(&mt);
            let mask = match c {
                Const::Zero(_) | Const::Undef(_) => vec![0; n as usize],
                Const::Vec(v) => v
                    .iter()
                    .map(|c| match c {
                        Const::Int(k, _) => *k as i32,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!("mask"),
            };
            Inst::Shuffle(dst.unwrap(), a, b, mask)
        }
        "atomicrmw" => {
            p.eat_word("volatile");
            let k = match p.word() {
                "xchg" => 0u8,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                "umax" => 6,
                "umin" => 7,
                _ => 255,
            };
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (ty, v) = fb.tyval(&mut p);
            Inst::AtomicRmw(k, ty, dst.unwrap_or(u32::MAX), a, v)
        }
        "cmpxchg" => {
            p.eat_word("weak");
            p.eat_word("volatile");
            let (_, a) = fb.tyval(&mut p);
            p.expect(b',');
            let (ty, c) = fb.tyval(&mut p);
            p.expect(b',');
            let (_, n) = fb.tyval(&mut p);
            Inst::CmpXchg(ty, dst.unwrap_or(u32::MAX), a, c, n)
        }
        "freeze" => {
            let (_, a) = fb.tyval(&mut p);
            Inst::Freeze(dst.unwrap(), a)
        }
        "fence" => Inst::Nop,
        "landingpad" | "resume" | "cleanupret" => Inst::Trap("unwind"),
        _ => {
            // unsupported instruction: becomes a trap if ever reached
            let _ = op;
            Inst::Trap("unsupported instruction")
        }
    }
}

fn fmf(p: &mut P) {
    while matches!(p.peek_word(), "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "afn" | "arcp") {
        p.word();
    }
}
