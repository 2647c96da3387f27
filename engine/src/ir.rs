//! Parser for the subset of textual LLVM IR that rustc emits, decoded into a compact register code.
use std::cell::OnceCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Void | Ty::Meta => 1,
        }
    }
    /// number of bytes a load/store touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((*n * w + 7) / 8) as u64,
                _ => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let s = ((*w + 7) / 8) as u64;
                s.div_ceil(self.align()) * self.align()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for t in v.iter() {
                    if !packed {
                        off = off.div_ceil(t.align()) * t.align();
                    }
                    off += t.size();
                }
                off.div_ceil(self.align()) * self.align()
            }
        }
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                let mut off = 0u64;
                for (i, t) in v.iter().enumerate() {
                    if !packed {
                        off = off.div_ceil(t.align()) * t.align();
                    }
                    if i == idx {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => idx as u64 * t.size(),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, idx: usize) -> &Ty {
        match self {
            Ty::Struct(v, _) => &v[idx],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
}

/// constant tree (before it becomes a runtime value)
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(Rc<(Ty, Const)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    UiToFp,
    FpToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    Bitcast,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Nand,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ind(Opd),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, Opd, Opd, u32),
    VBin(BinOp, Ty, Opd, Opd, u32),
    Icmp(Pred, u32, Opd, Opd, u32),
    VIcmp(Pred, Ty, Opd, Opd, u32),
    Fcmp(String, u32, Opd, Opd, u32),
    Cast(CastOp, Ty, Ty, Opd, u32),
    Load(Ty, u32, Opd, u32, bool),
    Store(Ty, u32, Opd, Opd, bool),
    Gep(Opd, u64, Rc<Vec<(Opd, u32, u64)>>, u32),
    Alloca(u64, u64, u32),
    Call(Callee, Rc<Vec<(Ty, Opd)>>, Ty, Option<u32>, Option<u32>), // callee, args, ret ty, dst, invoke normal dest
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Select(Opd, Ty, Opd, Opd, u32),
    Extract(Opd, Rc<Vec<u32>>, u32),
    Insert(Ty, Opd, Ty, Opd, Rc<Vec<u32>>, u32),
    Rmw(RmwOp, u32, Opd, Opd, u32),
    CmpXchg(u32, Opd, Opd, Opd, u32),
    Fence,
    Freeze(Ty, Opd, u32),
    InsElem(Ty, Opd, Opd, Opd, u32),
    ExtElem(Ty, Opd, Opd, u32),
    Shuffle(Ty, Opd, Opd, Rc<Vec<u32>>, u32),
    LandingPad,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>, // (pred block, value)
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub pretty: String,
    pub weak: bool,
    pub span: Option<(usize, usize)>,
    pub body: OnceCell<&'static Func>,
    pub used: std::cell::Cell<bool>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub tls: bool,
    pub init: Option<(usize, usize)>,
    pub addr: u64, // address, or offset in the tls block
    pub weak: bool,
    pub align: u64,
}

#[derive(Clone, Copy)]
pub enum GSym {
    F(usize),
    G(usize),
}

pub const FUNC_BASE: u64 = 0x40_0000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

pub struct Module {
    pub src: &'static [u8],
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, GSym>,
    pub global_end: u64,
    pub tls_size: u64,
}

struct P<'a> {
    s: &'static [u8],
    i: usize,
    le: usize,
    m: &'a Module,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'-' || c == b'$' || c == b'.' || c == b'_'
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

impl<'a> P<'a> {
    fn ctx(&self) -> String {
        let e = (self.i + 160).min(self.s.len());
        let b = self.i.saturating_sub(80);
        format!("...{} >>>HERE>>> {}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    /// end of a one-line instruction (the scanner may already have moved past it)
    fn eoi(&mut self) {
        self.i = self.i.max(self.le);
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {}", c as char, self.ctx());
        }
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let b = self.i;
        let w = self.word();
        self.i = b;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after % or @ (which was consumed)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let b = self.i + 1;
            let mut e = b;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.i = e + 1;
            String::from_utf8_lossy(&unesc(&self.s[b..e])).into_owned()
        } else {
            let b = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[b..self.i]).unwrap().to_string()
        }
    }
    fn string(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let b = self.i;
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        let r = unesc(&self.s[b..self.i]);
        self.i += 1;
        r
    }
    fn paren_skip(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        let w = self.word();
        w.parse::<u64>().unwrap_or_else(|_| panic!("num {w:?} at {}", self.ctx()))
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty());
                    self.eat(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    match t {
                        Ty::Struct(v, _) => Ty::Struct(v, true),
                        _ => panic!(),
                    }
                } else {
                    let n = self.num();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().unwrap_or_else(|| panic!("type {n}"))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.ws();
                            self.paren_skip();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w} at {}", self.ctx()))),
                    _ => panic!("type {w:?} at {}", self.ctx()),
                }
            }
        }
    }
    fn is_value_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'%' || c == b'@' || c == b'-' || c.is_ascii_digit() || c == b'{' || c == b'[' || c == b'<' || c == b'!' {
            return true;
        }
        matches!(
            self.peek_word(),
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "add" | "sub" | "xor" | "trunc" | "c" | "bitcast" | "addrspacecast" | "asm"
        )
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b',' || c == b')' || c == 0 || c == b'#' || self.is_value_start() {
                return;
            }
            if c == b'"' {
                self.string();
                if self.eat(b'=') {
                    self.string();
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                panic!("attrs at {}", self.ctx());
            }
            if w == "align" && self.peek() != b'(' {
                self.num();
            } else if self.s[self.i] == b'(' {
                self.paren_skip();
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                Const::Int(self.m.sym_addr(&n) as u128)
            }
            b'{' | b'[' => {
                let close = if self.s[self.i] == b'{' { b'}' } else { b']' };
                self.i += 1;
                let mut v = vec![];
                while !self.eat(close) {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat(b',');
                }
                Const::Agg(v)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let c = self.konst(ty);
                    self.expect(b'>');
                    c
                } else {
                    let mut v = vec![];
                    while !self.eat(b'>') {
                        let t = self.ty();
                        v.push(self.konst(&t));
                        self.eat(b',');
                    }
                    Const::Agg(v)
                }
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let b = self.i;
                self.i += 1;
                while self.i < self.s.len() && (is_id(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[b..self.i]).unwrap();
                match ty {
                    Ty::F64 => {
                        if let Some(h) = w.strip_prefix("0x") {
                            Const::Int(u64::from_str_radix(h, 16).unwrap() as u128)
                        } else {
                            Const::Int(w.parse::<f64>().unwrap().to_bits() as u128)
                        }
                    }
                    Ty::F32 => {
                        let d = match w.strip_prefix("0x") {
                            Some(h) => f64::from_bits(u64::from_str_radix(h, 16).unwrap()),
                            None => w.parse::<f64>().unwrap(),
                        };
                        Const::Int((d as f32).to_bits() as u128)
                    }
                    _ => {
                        let wd = ty.width();
                        let v: u128 = if w.starts_with('-') {
                            w.parse::<i128>().unwrap() as u128
                        } else {
                            w.parse::<u128>().unwrap()
                        };
                        Const::Int(if wd >= 128 { v } else { v & ((1u128 << wd) - 1) })
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Const::Int(1),
                    "false" | "null" => Const::Int(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => Const::Zero,
                    "c" => Const::Bytes(self.string()),
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.konst(&t);
                        self.expect(b')');
                        if let Ty::Vec(n, _) = ty {
                            Const::Agg(vec![c; *n as usize])
                        } else {
                            panic!("splat")
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.word();
                            if self.peek() == b'(' && self.s[self.i - 1] != b' ' && false {
                                break;
                            }
                        }
                        // note: inrange(...) does not occur in rustc output
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.konst_int(&pt);
                        let mut off = 0u64;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let w = it.width();
                            let mut ix = self.konst_int(&it) as u64;
                            if w < 64 && ix >> (w - 1) & 1 == 1 {
                                ix |= !0u64 << w;
                            }
                            if first {
                                off = off.wrapping_add(ix.wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_off(ix as usize));
                                cur = cur.elem(ix as usize).clone();
                            }
                        }
                        self.expect(b')');
                        Const::Int((base as u64).wrapping_add(off) as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.konst_int(&t);
                        assert!(self.eat_word("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        let wd = t2.width();
                        Const::Int(if wd >= 128 { c } else { c & ((1u128 << wd) - 1) })
                    }
                    "add" | "sub" | "xor" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.konst_int(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.konst_int(&t2);
                        self.expect(b')');
                        let wd = t.width();
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        };
                        Const::Int(if wd >= 128 { r } else { r & ((1u128 << wd) - 1) })
                    }
                    _ => panic!("const {w:?} at {}", self.ctx()),
                }
            }
        }
    }
    fn konst_int(&mut self, ty: &Ty) -> u128 {
        match self.konst(ty) {
            Const::Int(v) => v,
            Const::Zero => 0,
            _ => panic!("const int at {}", self.ctx()),
        }
    }
}

struct FP<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label_id(&mut self, n: String) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(l)
    }
    fn label(&mut self) -> u32 {
        assert!(self.p.eat_word("label"), "label at {}", self.p.ctx());
        self.p.expect(b'%');
        let n = self.p.name();
        self.label_id(n)
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Opd::R(self.reg(n));
        }
        let c = self.p.konst(ty);
        match (ty, c) {
            (Ty::Int(w), Const::Int(v)) if *w <= 64 => Opd::C(v as u64),
            (Ty::Ptr, Const::Int(v)) | (Ty::F64, Const::Int(v)) | (Ty::F32, Const::Int(v)) => Opd::C(v as u64),
            (Ty::Int(w), Const::Zero) if *w <= 64 => Opd::C(0),
            (Ty::Ptr, Const::Zero) | (Ty::F64, Const::Zero) | (Ty::F32, Const::Zero) => Opd::C(0),
            (t, c) => Opd::K(Rc::new((t.clone(), c))),
        }
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn body(&mut self, params: Vec<u32>, nunnamed: usize, id: usize, name: &str) -> Func {
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut first = true;
        loop {
            self.p.ws();
            if self.p.s[self.p.i] == b'}' {
                break;
            }
            // label?
            let save = self.p.i;
            let mut is_label = None;
            if self.p.s[self.p.i] == b'"' {
                let n = self.p.name();
                if self.p.s[self.p.i] == b':' {
                    is_label = Some(n);
                }
            } else if is_id(self.p.s[self.p.i]) {
                let b = self.p.i;
                while is_id(self.p.s[self.p.i]) {
                    self.p.i += 1;
                }
                if self.p.s[self.p.i] == b':' {
                    is_label = Some(std::str::from_utf8(&self.p.s[b..self.p.i]).unwrap().to_string());
                }
            }
            if let Some(n) = is_label {
                self.p.i += 1;
                self.p.eol();
                let l = self.label_id(n);
                cur = Some(l);
                first = false;
                while blocks.len() <= l as usize {
                    blocks.push(None);
                }
                blocks[l as usize] = Some(Block { phis: vec![], insts: vec![] });
                continue;
            }
            self.p.i = save;
            if first {
                // implicit entry label: its number is the number of unnamed params
                let l = self.label_id(format!("{}", nunnamed));
                cur = Some(l);
                first = false;
                while blocks.len() <= l as usize {
                    blocks.push(None);
                }
                blocks[l as usize] = Some(Block { phis: vec![], insts: vec![] });
            }
            let c = cur.unwrap() as usize;
            let blk = blocks[c].take().unwrap();
            let blk = self.inst(blk);
            blocks[c] = Some(blk);
        }
        let blocks = blocks.into_iter().map(|b| b.expect("undefined block")).collect();
        Func { id, name: name.to_string(), nregs: self.regs.len() as u32, params, blocks }
    }
    fn bin_op(w: &str) -> Option<BinOp> {
        Some(match w {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "fadd" => BinOp::FAdd,
            "fsub" => BinOp::FSub,
            "fmul" => BinOp::FMul,
            "fdiv" => BinOp::FDiv,
            _ => return None,
        })
    }
    fn flags(&mut self) {
        loop {
            match self.p.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak" | "inalloca" => {
                    self.p.word();
                }
                _ => return,
            }
        }
    }
    fn inst(&mut self, mut blk: Block) -> Block {
        self.p.ws();
        let save = self.p.i;
        self.p.eol();
        self.p.le = self.p.i;
        self.p.i = save;
        let mut dst = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            dst = Some(self.reg(n));
            self.p.expect(b'=');
        }
        let mut w = self.p.word();
        if w == "tail" || w == "musttail" || w == "notail" {
            w = self.p.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let ins = &mut blk.insts;
        if let Some(op) = Self::bin_op(w) {
            self.flags();
            let t = self.p.ty();
            let a = self.val(&t);
            self.p.expect(b',');
            let b = self.val(&t);
            match &t {
                Ty::Vec(..) => ins.push(Inst::VBin(op, t, a, b, d)),
                _ => ins.push(Inst::Bin(op, t.width(), a, b, d)),
            }
            self.p.eoi();
            return blk;
        }
        match w {
            "icmp" => {
                self.flags();
                let pr = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {x}"),
                };
                let t = self.p.ty();
                let a = self.val(&t);
                self.p.expect(b',');
                let b = self.val(&t);
                match &t {
                    Ty::Vec(..) => ins.push(Inst::VIcmp(pr, t, a, b, d)),
                    _ => ins.push(Inst::Icmp(pr, t.width(), a, b, d)),
                }
                self.p.eoi();
            }
            "fcmp" => {
                self.flags();
                let pr = self.p.word().to_string();
                let t = self.p.ty();
                assert!(t == Ty::F64 || t == Ty::F32);
                let a = self.val(&t);
                self.p.expect(b',');
                let b = self.val(&t);
                ins.push(Inst::Fcmp(pr, t.width(), a, b, d));
                self.p.eoi();
            }
            "zext" | "sext" | "trunc" | "fpext" | "fptrunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "bitcast" | "ptrtoint" | "inttoptr" => {
                self.flags();
                let (t, v) = self.tyval();
                assert!(self.p.eat_word("to"));
                let t2 = self.p.ty();
                let op = match w {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "fpext" | "fptrunc" => CastOp::FpToFp,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "bitcast" => CastOp::Bitcast,
                    _ => {
                        // ptrtoint / inttoptr
                        let (a, b) = (t.width(), t2.width());
                        if a == b {
                            CastOp::Bitcast
                        } else if a < b {
                            CastOp::ZExt
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                ins.push(Inst::Cast(op, t, t2, v, d));
                self.p.eoi();
            }
            "load" => {
                let atomic = self.p.eat_word("atomic");
                self.flags();
                let t = self.p.ty();
                self.p.expect(b',');
                let (_, ptr) = self.tyval();
                let sz = t.store_size() as u32;
                ins.push(Inst::Load(t, sz, ptr, d, atomic));
                self.p.eoi();
            }
            "store" => {
                let atomic = self.p.eat_word("atomic");
                self.flags();
                let (t, v) = self.tyval();
                self.p.expect(b',');
                let (_, ptr) = self.tyval();
                let sz = t.store_size() as u32;
                ins.push(Inst::Store(t, sz, v, ptr, atomic));
                self.p.eoi();
            }
            "getelementptr" => {
                self.flags();
                let t = self.p.ty();
                self.p.expect(b',');
                let (_, base) = self.tyval();
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = t;
                let mut first = true;
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let it = self.p.ty();
                    let iw = it.width();
                    let ix = self.val(&it);
                    let scale = if first { cur.size() } else { 0 };
                    match ix {
                        Opd::C(mut v) => {
                            if iw < 64 && v >> (iw - 1) & 1 == 1 {
                                v |= !0u64 << iw;
                            }
                            if first {
                                off = off.wrapping_add(v.wrapping_mul(scale));
                            } else {
                                off = off.wrapping_add(cur.field_off(v as usize));
                                cur = cur.elem(v as usize).clone();
                            }
                        }
                        o => {
                            if first {
                                dynv.push((o, iw, scale));
                            } else {
                                let e = cur.elem(0).clone();
                                dynv.push((o, iw, e.size()));
                                cur = e;
                            }
                        }
                    }
                    first = false;
                }
                ins.push(Inst::Gep(base, off, Rc::new(dynv), d));
                self.p.eoi();
            }
            "alloca" => {
                self.flags();
                let t = self.p.ty();
                let mut al = t.align();
                let mut n = 1;
                while self.p.eat(b',') {
                    if self.p.eat_word("align") {
                        al = self.p.num();
                    } else if self.p.peek() == b'!' {
                        break;
                    } else {
                        let (_, c) = self.tyval();
                        match c {
                            Opd::C(v) => n = v,
                            _ => panic!("dynamic alloca"),
                        }
                    }
                }
                ins.push(Inst::Alloca(t.size() * n, al, d));
                self.p.eoi();
            }
            "call" | "invoke" => {
                self.flags();
                // calling conv & ret attrs
                loop {
                    let c = self.p.peek();
                    if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
                        break;
                    }
                    let pw = self.p.peek_word();
                    if pw == "ptr" || pw == "void" || pw == "double" || pw == "float" || (pw.starts_with('i') && pw[1..].parse::<u32>().is_ok()) {
                        break;
                    }
                    self.p.word();
                    if pw == "align" && self.p.peek() != b'(' {
                        self.p.num();
                    } else if self.p.s[self.p.i] == b'(' {
                        self.p.paren_skip();
                    }
                }
                let rt = self.p.ty();
                if self.p.peek() == b'(' {
                    self.p.paren_skip(); // function type of a varargs callee
                }
                let callee = if self.p.eat_word("asm") {
                    // only the empty compiler-fence form is accepted
                    while self.p.peek() != b'"' {
                        self.p.word();
                    }
                    let s = self.p.string();
                    assert!(s.is_empty(), "inline asm {:?}", String::from_utf8_lossy(&s));
                    self.p.expect(b',');
                    self.p.string();
                    Callee::Nop
                } else if self.p.peek() == b'@' {
                    self.p.i += 1;
                    let n = self.p.name();
                    match self.p.m.syms.get(&n) {
                        Some(GSym::F(i)) => Callee::Func(*i),
                        _ => panic!("call to unknown {n}"),
                    }
                } else {
                    Callee::Ind(self.val(&Ty::Ptr))
                };
                self.p.expect(b'(');
                let mut args = vec![];
                while !self.p.eat(b')') {
                    if self.p.peek_word() == "metadata" {
                        // skip the metadata operand
                        let mut depth = 0;
                        loop {
                            let c = self.p.s[self.p.i];
                            if depth == 0 && (c == b',' || c == b')') {
                                break;
                            }
                            if c == b'(' {
                                depth += 1
                            }
                            if c == b')' {
                                depth -= 1
                            }
                            self.p.i += 1;
                        }
                        self.p.eat(b',');
                        continue;
                    }
                    let t = self.p.ty();
                    self.p.skip_attrs();
                    let v = self.val(&t);
                    args.push((t, v));
                    self.p.eat(b',');
                }
                let mut normal = None;
                if w == "invoke" {
                    // skip attributes up to "to label"
                    loop {
                        if self.p.peek_word() == "to" {
                            self.p.word();
                            break;
                        }
                        if self.p.peek() == b'#' {
                            self.p.i += 1;
                            self.p.num();
                        } else if self.p.peek() == b'[' {
                            panic!("operand bundle")
                        } else {
                            let ww = self.p.word();
                            if ww.is_empty() {
                                panic!("invoke at {}", self.p.ctx());
                            }
                        }
                    }
                    normal = Some(self.label());
                    assert!(self.p.eat_word("unwind"));
                    self.label();
                    self.p.eol();
                } else {
                    self.p.eoi();
                }
                let skip = match &callee {
                    Callee::Nop => true,
                    Callee::Func(i) => {
                        let n = &self.p.m.funcs[*i].name;
                        n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n == "llvm.donothing" || n.starts_with("llvm.prefetch")
                    }
                    _ => false,
                };
                if skip {
                    if let Some(n) = normal {
                        ins.push(Inst::Br(n));
                    }
                } else {
                    ins.push(Inst::Call(callee, Rc::new(args), rt, dst, normal));
                }
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    let l = self.label();
                    ins.push(Inst::Br(l));
                } else {
                    let (_, c) = self.tyval();
                    self.p.expect(b',');
                    let a = self.label();
                    self.p.expect(b',');
                    let b = self.label();
                    ins.push(Inst::CondBr(c, a, b));
                }
                self.p.eoi();
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.p.expect(b',');
                let def = self.label();
                self.p.expect(b'[');
                let mut cases = vec![];
                while !self.p.eat(b']') {
                    let ct = self.p.ty();
                    let c = self.p.konst_int(&ct);
                    self.p.expect(b',');
                    cases.push((c as u64, self.label()));
                }
                ins.push(Inst::Switch(v, t.width(), def, Rc::new(cases)));
                self.p.eol();
            }
            "ret" => {
                if self.p.eat_word("void") {
                    ins.push(Inst::Ret(None));
                } else {
                    let tv = self.tyval();
                    ins.push(Inst::Ret(Some(tv)));
                }
                self.p.eoi();
            }
            "unreachable" => {
                ins.push(Inst::Unreachable);
                self.p.eoi();
            }
            "phi" => {
                self.flags();
                let t = self.p.ty();
                let mut inc = vec![];
                loop {
                    self.p.expect(b'[');
                    let v = self.val(&t);
                    self.p.expect(b',');
                    self.p.expect(b'%');
                    let n = self.p.name();
                    let l = self.label_id(n);
                    self.p.expect(b']');
                    inc.push((l, v));
                    self.p.sp();
                    if self.p.s[self.p.i] == b',' {
                        self.p.i += 1;
                        self.p.sp();
                        if self.p.s[self.p.i] != b'[' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                blk.phis.push(Phi { dst: d, inc });
                self.p.eoi();
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval();
                assert!(ct == Ty::Int(1), "vector select");
                self.p.expect(b',');
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (_, b) = self.tyval();
                ins.push(Inst::Select(c, t, a, b, d));
                self.p.eoi();
            }
            "extractvalue" => {
                let (_, a) = self.tyval();
                let mut ix = vec![];
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    ix.push(self.p.num() as u32);
                }
                ins.push(Inst::Extract(a, Rc::new(ix), d));
                self.p.eoi();
            }
            "insertvalue" => {
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (t2, b) = self.tyval();
                let mut ix = vec![];
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    ix.push(self.p.num() as u32);
                }
                ins.push(Inst::Insert(t, a, t2, b, Rc::new(ix), d));
                self.p.eoi();
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "nand" => RmwOp::Nand,
                    x => panic!("rmw {x}"),
                };
                let (_, p) = self.tyval();
                self.p.expect(b',');
                let (t, v) = self.tyval();
                ins.push(Inst::Rmw(op, t.width(), p, v, d));
                self.p.eoi();
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval();
                self.p.expect(b',');
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (_, b) = self.tyval();
                ins.push(Inst::CmpXchg(t.width(), p, a, b, d));
                self.p.eoi();
            }
            "fence" => {
                ins.push(Inst::Fence);
                self.p.eoi();
            }
            "freeze" => {
                let (t, v) = self.tyval();
                ins.push(Inst::Freeze(t, v, d));
                self.p.eoi();
            }
            "insertelement" => {
                let (t, v) = self.tyval();
                self.p.expect(b',');
                let (_, e) = self.tyval();
                self.p.expect(b',');
                let (_, ix) = self.tyval();
                ins.push(Inst::InsElem(t, v, e, ix, d));
                self.p.eoi();
            }
            "extractelement" => {
                let (t, v) = self.tyval();
                self.p.expect(b',');
                let (_, ix) = self.tyval();
                ins.push(Inst::ExtElem(t, v, ix, d));
                self.p.eoi();
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.p.expect(b',');
                let (_, b) = self.tyval();
                self.p.expect(b',');
                let mt = self.p.ty();
                let m = self.p.konst(&mt);
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let mask = match m {
                    Const::Zero => vec![0; n as usize],
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|c| match c {
                            Const::Int(x) => x as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                ins.push(Inst::Shuffle(t, a, b, Rc::new(mask), d));
                self.p.eoi();
            }
            "landingpad" => {
                self.p.eoi();
                loop {
                    match self.p.peek_word() {
                        "cleanup" | "catch" | "filter" => self.p.eol(),
                        _ => break,
                    }
                }
                ins.push(Inst::LandingPad);
            }
            "resume" => {
                ins.push(Inst::Unreachable);
                self.p.eoi();
            }
            _ => panic!("instruction {w:?} at {}", self.p.ctx()),
        }
        blk
    }
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) {
            Some(GSym::F(i)) => {
                if self.funcs[*i].span.is_none() && self.funcs[*i].weak && !matches!(n, "statx_never") {
                    0
                } else {
                    FUNC_BASE + (*i as u64) * 16
                }
            }
            Some(GSym::G(i)) => {
                if self.globals[*i].weak {
                    0
                } else {
                    self.globals[*i].addr
                }
            }
            None => panic!("unknown symbol {n}"),
        }
    }
    pub fn parse(src: &'static [u8]) -> Module {
        let mut m = Module { src, types: HashMap::new(), funcs: vec![], globals: vec![], syms: HashMap::new(), global_end: 0, tls_size: 0 };
        let mut i = 0;
        let mut comment = String::new();
        let mut gspans: Vec<(usize, usize)> = vec![];
        let n = src.len();
        while i < n {
            let mut e = i;
            while e < n && src[e] != b'\n' {
                e += 1;
            }
            let line = &src[i..e];
            if line.starts_with(b"; ") {
                if !line.starts_with(b"; Function Attrs") {
                    comment = String::from_utf8_lossy(&line[2..]).into_owned();
                }
            } else if line.starts_with(b"@") {
                gspans.push((i, e));
                comment.clear();
            } else if line.starts_with(b"%") {
                panic!("named types are not emitted by rustc: {}", String::from_utf8_lossy(line));
            } else if line.starts_with(b"declare ") || line.starts_with(b"define ") {
                let is_def = line.starts_with(b"define ");
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = P { s: src, i: i + at + 1, le: 0, m: &m };
                let name = p.name();
                let weak = line[..at].windows(11).any(|w| w == b"extern_weak");
                let span = if is_def {
                    // up to the line "}"
                    let mut k = e + 1;
                    loop {
                        if src[k] == b'}' && src[k - 1] == b'\n' {
                            break;
                        }
                        while src[k] != b'\n' {
                            k += 1;
                        }
                        k += 1;
                    }
                    let r = (i, k);
                    e = k + 1;
                    Some(r)
                } else {
                    None
                };
                let id = m.funcs.len();
                m.syms.insert(name.clone(), GSym::F(id));
                m.funcs.push(FuncDecl { name, pretty: std::mem::take(&mut comment), weak, span, body: OnceCell::new(), used: std::cell::Cell::new(false) });
            }
            i = e + 1;
        }
        // globals
        let mut addr = GLOBAL_BASE;
        let mut tls = 0u64;
        for (b, e) in gspans {
            let (name, g) = {
                let mut p = P { s: &src[..e], i: b + 1, le: 0, m: &m };
                let name = p.name();
                p.expect(b'=');
                let mut tlsv = false;
                let mut weak = false;
                let mut is_alias = false;
                loop {
                    let w = p.peek_word();
                    match w {
                        "thread_local" => {
                            tlsv = true;
                            p.word();
                            p.ws();
                            if p.s[p.i] == b'(' {
                                p.paren_skip();
                            }
                        }
                        "extern_weak" => {
                            weak = true;
                            p.word();
                        }
                        "alias" => {
                            is_alias = true;
                            p.word();
                            break;
                        }
                        "constant" | "global" => {
                            p.word();
                            break;
                        }
                        _ => {
                            p.word();
                            if p.i < p.s.len() && p.s[p.i] == b'(' {
                                p.paren_skip();
                            }
                        }
                    }
                }
                let ty = p.ty();
                if is_alias {
                    p.expect(b',');
                    p.ty();
                    p.expect(b'@');
                    let target = p.name();
                    let g = *m.syms.get(&target).expect("alias target");
                    (name, Err(g))
                } else {
                    p.sp();
                    let ib = p.i;
                    let has_init = p.i < e && p.s[p.i] != b',' && !weak;
                    // alignment
                    let line = &src[b..e];
                    let mut al = ty.align();
                    let pat = b", align ";
                    if let Some(k) = (0..line.len().saturating_sub(pat.len())).rev().find(|k| &line[*k..*k + pat.len()] == pat) {
                        let mut q = k + pat.len();
                        let mut v = 0u64;
                        while q < line.len() && line[q].is_ascii_digit() {
                            v = v * 10 + (line[q] - b'0') as u64;
                            q += 1;
                        }
                        al = al.max(v);
                    }
                    (name.clone(), Ok(Global { name, ty, tls: tlsv, init: if has_init { Some((ib, e)) } else { None }, addr: 0, weak, align: al }))
                }
            };
            match g {
                Ok(mut g) => {
                    if g.tls {
                        tls = tls.div_ceil(g.align) * g.align;
                        g.addr = tls;
                        tls += g.ty.size();
                    } else if !g.weak {
                        addr = addr.div_ceil(g.align) * g.align;
                        g.addr = addr;
                        addr += g.ty.size().max(1);
                    }
                    m.syms.insert(name, GSym::G(m.globals.len()));
                    m.globals.push(g);
                }
                Err(s) => {
                    m.syms.insert(name, s);
                }
            }
        }
        m.global_end = addr;
        m.tls_size = tls;
        m
    }
    pub fn global_init(&self, g: &Global) -> Option<Const> {
        let (b, e) = g.init?;
        let mut p = P { s: &self.src[..e], i: b, le: 0, m: self };
        Some(p.konst(&g.ty))
    }
    pub fn const_bytes(ty: &Ty, c: &Const, out: &mut [u8]) {
        match (ty, c) {
            (_, Const::Zero) => {}
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Arr(_, t), Const::Agg(v)) | (Ty::Vec(_, t), Const::Agg(v)) => {
                let s = t.size() as usize;
                for (i, c) in v.iter().enumerate() {
                    Self::const_bytes(t, c, &mut out[i * s..(i + 1) * s]);
                }
            }
            (Ty::Struct(ts, _), Const::Agg(v)) => {
                for (i, c) in v.iter().enumerate() {
                    let o = ty.field_off(i) as usize;
                    let s = ts[i].size() as usize;
                    Self::const_bytes(&ts[i], c, &mut out[o..o + s]);
                }
            }
            (t, Const::Int(v)) => {
                let s = t.store_size() as usize;
                out[..s].copy_from_slice(&v.to_le_bytes()[..s]);
            }
            _ => panic!("const_bytes {ty:?} {c:?}"),
        }
    }
    pub fn body(&self, id: usize) -> &'static Func {
        let fd = &self.funcs[id];
        fd.body.get_or_init(|| {
            let (b, e) = fd.span.unwrap();
            let mut p = P { s: &self.src[..e + 1], i: b, le: 0, m: self };
            // skip to the parameter list
            while p.s[p.i] != b'@' {
                p.i += 1;
            }
            p.i += 1;
            p.name();
            p.expect(b'(');
            let mut fp = FP { p, regs: HashMap::new(), labels: HashMap::new() };
            let mut params = vec![];
            let mut unnamed = 0;
            while !fp.p.eat(b')') {
                fp.p.ty();
                // attributes
                loop {
                    let c = fp.p.peek();
                    if c == b'%' {
                        fp.p.i += 1;
                        let n = fp.p.name();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(fp.reg(n));
                        break;
                    }
                    if c == b',' || c == b')' {
                        params.push(fp.reg(format!("{unnamed}")));
                        unnamed += 1;
                        break;
                    }
                    let w = fp.p.word();
                    if w.is_empty() {
                        panic!("param at {}", fp.p.ctx());
                    }
                    if w == "align" && fp.p.peek() != b'(' {
                        fp.p.num();
                    } else if fp.p.s[fp.p.i] == b'(' {
                        fp.p.paren_skip();
                    }
                }
                fp.p.eat(b',');
            }
            while fp.p.s[fp.p.i] != b'{' {
                fp.p.i += 1;
            }
            fp.p.i += 1;
            // the opening brace is followed by newline
            let f = fp.body(params, unnamed, id, &fd.name);
            fd.used.set(true);
            Box::leak(Box::new(f))
        })
    }
}
