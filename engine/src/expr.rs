//! Hash-consed bit-vector expressions with an eager simplifier.
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(BinOp, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Not(E), // 1 bit
    Ite(E, E, E),
    Extract(E, u32), // (value, low bit), width from the node
    Concat(E, E),    // high, low
    ZExt(E),
    SExt(E),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub node: Node,
    pub w: u32,
    pub syms: u128, // symbols occurring (index modulo 128)
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: HashMap<(Node, u32), E>,
    pub t: E,
    pub f: E,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

pub fn x() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            let mut a = Arena { nodes: vec![], map: HashMap::new(), t: 0, f: 0 };
            a.f = a.konst(0, 1);
            a.t = a.konst(1, 1);
            ARENA = Box::into_raw(Box::new(a));
        }
        &mut *ARENA
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn bin_const(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (p, q) = (sext(a, w), sext(b, w));
            if q == 0 {
                0
            } else {
                p.wrapping_div(q) as u128
            }
        }
        BinOp::SRem => {
            let (p, q) = (sext(a, w), sext(b, w));
            if q == 0 {
                a
            } else {
                p.wrapping_rem(q) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
        BinOp::FAdd => unflt(flt(a as u64, w) + flt(b as u64, w), w) as u128,
        BinOp::FSub => unflt(flt(a as u64, w) - flt(b as u64, w), w) as u128,
        BinOp::FMul => unflt(flt(a as u64, w) * flt(b as u64, w), w) as u128,
        BinOp::FDiv => unflt(flt(a as u64, w) / flt(b as u64, w), w) as u128,
    };
    r & m
}
/// The value of a float of `w` bits (f32 arithmetic done in f64 and rounded once is exact for + - * /).
pub fn flt(b: u64, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(b as u32) as f64
    } else {
        f64::from_bits(b)
    }
}
pub fn unflt(v: f64, w: u32) -> u64 {
    if w == 32 {
        (v as f32).to_bits() as u64
    } else {
        v.to_bits()
    }
}
pub fn cmp_const(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Piece {
    C(u128, u32),
    X(E, u32, u32), // atom, low bit, length
}
impl Piece {
    fn len(&self) -> u32 {
        match self {
            Piece::C(_, n) | Piece::X(_, _, n) => *n,
        }
    }
}

impl Arena {
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize].node
    }
    pub fn syms(&self, e: E) -> u128 {
        self.nodes[e as usize].syms
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].node {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn mk(&mut self, node: Node, w: u32) -> E {
        if let Some(e) = self.map.get(&(node, w)) {
            return *e;
        }
        let syms = match node {
            Node::Const(_) => 0,
            Node::Sym(i) => 1u128 << (i % 128),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.syms(a),
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Ule(a, b) | Node::Slt(a, b) | Node::Sle(a, b) | Node::Concat(a, b) => self.syms(a) | self.syms(b),
            Node::Ite(a, b, c) => self.syms(a) | self.syms(b) | self.syms(c),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Info { node, w, syms });
        self.map.insert((node, w), e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn sym(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node::Sym(idx), w)
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.t
        } else {
            self.f
        }
    }

    // ---- pieces: a value as a list (high to low) of constant and extracted runs
    fn pieces_into(&self, e: E, lo: u32, len: u32, out: &mut Vec<Piece>) {
        if len == 0 {
            return;
        }
        match self.node(e) {
            Node::Const(v) => out.push(Piece::C((v >> lo) & mask(len), len)),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + len > wl {
                    let hlo = lo.max(wl) - wl;
                    self.pieces_into(h, hlo, lo + len - wl - hlo, out);
                }
                if lo < wl {
                    self.pieces_into(l, lo, len.min(wl - lo), out);
                }
            }
            Node::ZExt(a) => {
                let wa = self.w(a);
                if lo + len > wa {
                    out.push(Piece::C(0, (lo + len - wa).min(len)));
                }
                if lo < wa {
                    self.pieces_into(a, lo, len.min(wa - lo), out);
                }
            }
            Node::Extract(a, l) => self.pieces_into(a, l + lo, len, out),
            _ => out.push(Piece::X(e, lo, len)),
        }
    }
    fn pieces(&self, e: E) -> Vec<Piece> {
        let mut v = vec![];
        self.pieces_into(e, 0, self.w(e), &mut v);
        v
    }
    fn raw_extract(&mut self, e: E, lo: u32, len: u32) -> E {
        if lo == 0 && len == self.w(e) {
            return e;
        }
        // push the extraction through cheap operators
        match self.node(e) {
            Node::Ite(c, a, b) if self.cval(a).is_some() || self.cval(b).is_some() => {
                let a2 = self.extract(a, lo, len);
                let b2 = self.extract(b, lo, len);
                self.ite(c, a2, b2)
            }
            Node::Bin(op, a, b) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) || (lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul)) => {
                let a2 = self.extract(a, lo, len);
                let b2 = self.extract(b, lo, len);
                self.bin(op, a2, b2)
            }
            Node::SExt(a) if lo + len <= self.w(a) => self.extract(a, lo, len),
            _ => self.mk(Node::Extract(e, lo), len),
        }
    }
    fn from_pieces(&mut self, v: &[Piece]) -> E {
        // merge neighbours
        let mut m: Vec<Piece> = vec![];
        for p in v {
            if p.len() == 0 {
                continue;
            }
            match (m.last().copied(), *p) {
                (Some(Piece::C(a, n)), Piece::C(b, k)) if n + k <= 128 => {
                    let c = if k >= 128 { b } else { (a << k) | b };
                    *m.last_mut().unwrap() = Piece::C(c, n + k);
                }
                (Some(Piece::X(a, l, n)), Piece::X(b, l2, k)) if a == b && l == l2 + k => {
                    *m.last_mut().unwrap() = Piece::X(a, l2, n + k);
                }
                _ => m.push(*p),
            }
        }
        let mut acc: Option<E> = None;
        let nm = m.len();
        // low to high
        for i in (0..nm).rev() {
            let p = m[i];
            let e = match p {
                Piece::C(c, n) => {
                    if i == 0 && c == 0 && acc.is_some() {
                        let a = acc.unwrap();
                        let w = self.w(a) + n;
                        return self.mk(Node::ZExt(a), w);
                    }
                    self.konst(c, n)
                }
                Piece::X(a, l, n) => self.raw_extract(a, l, n),
            };
            acc = Some(match acc {
                None => e,
                Some(a) => {
                    let w = self.w(e) + self.w(a);
                    self.mk(Node::Concat(e, a), w)
                }
            });
        }
        acc.unwrap()
    }
    pub fn extract(&mut self, e: E, lo: u32, len: u32) -> E {
        debug_assert!(lo + len <= self.w(e));
        if lo == 0 && len == self.w(e) {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.konst(v >> lo, len),
            Node::Sym(_) => self.mk(Node::Extract(e, lo), len),
            _ => {
                let mut v = vec![];
                self.pieces_into(e, lo, len, &mut v);
                self.from_pieces(&v)
            }
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let mut v = self.pieces(h);
        v.extend(self.pieces(l));
        self.from_pieces(&v)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.konst(v, w);
        }
        if let Node::ZExt(a) = self.node(e) {
            return self.mk(Node::ZExt(a), w);
        }
        self.mk(Node::ZExt(e), w)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.konst(sext(v, we) as u128, w);
        }
        if let Node::ZExt(a) = self.node(e) {
            return self.mk(Node::ZExt(a), w);
        }
        self.mk(Node::SExt(e), w)
    }
    pub fn not(&mut self, e: E) -> E {
        match self.node(e) {
            Node::Const(v) => self.b(v == 0),
            Node::Not(a) => a,
            Node::Ult(a, b) => self.mk(Node::Ule(b, a), 1),
            Node::Ule(a, b) => self.mk(Node::Ult(b, a), 1),
            Node::Slt(a, b) => self.mk(Node::Sle(b, a), 1),
            Node::Sle(a, b) => self.mk(Node::Slt(b, a), 1),
            _ => self.mk(Node::Not(e), 1),
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if let Node::Not(c2) = self.node(c) {
            return self.mk(Node::Ite(c2, b, a), w);
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    fn logic_pieces(&mut self, op: BinOp, a: E, b: E) -> Option<E> {
        let (pa, pb) = (self.pieces(a), self.pieces(b));
        let has = |v: &Vec<Piece>| v.iter().any(|p| matches!(p, Piece::C(..)));
        if !(has(&pa) || has(&pb)) || (pa.len() == 1 && pb.len() == 1 && !matches!(pa[0], Piece::C(..)) && !matches!(pb[0], Piece::C(..))) {
            return None;
        }
        // cut constants into runs of equal bits
        fn cut(v: Vec<Piece>) -> Vec<Piece> {
            let mut out = vec![];
            for p in v {
                match p {
                    Piece::C(c, n) => {
                        let mut i = n;
                        while i > 0 {
                            let bit = c >> (i - 1) & 1;
                            let mut j = i - 1;
                            while j > 0 && c >> (j - 1) & 1 == bit {
                                j -= 1;
                            }
                            out.push(Piece::C(if bit == 1 { mask(i - j) } else { 0 }, i - j));
                            i = j;
                        }
                    }
                    p => out.push(p),
                }
            }
            out
        }
        let (mut pa, mut pb) = (cut(pa), cut(pb));
        pa.reverse();
        pb.reverse(); // now low-to-high as stacks from the end = high
        let mut sa: Vec<Piece> = pa; // low first; we pop from the end (high)
        let mut sb: Vec<Piece> = pb;
        let mut out = vec![];
        let mut nontriv = 0;
        while let (Some(p), Some(q)) = (sa.pop(), sb.pop()) {
            let n = p.len().min(q.len());
            let split = |p: Piece, st: &mut Vec<Piece>| -> Piece {
                let l = p.len();
                if l == n {
                    return p;
                }
                match p {
                    Piece::C(c, _) => {
                        st.push(Piece::C(c & mask(l - n), l - n));
                        Piece::C(c >> (l - n), n)
                    }
                    Piece::X(e, lo, _) => {
                        st.push(Piece::X(e, lo, l - n));
                        Piece::X(e, lo + l - n, n)
                    }
                }
            };
            let p = split(p, &mut sa);
            let q = split(q, &mut sb);
            let m = mask(n);
            let r = match (p, q) {
                (Piece::C(a, _), Piece::C(b, _)) => Piece::C(bin_const(op, n, a, b), n),
                (Piece::C(c, _), o) | (o, Piece::C(c, _)) => match (op, c == 0, c == m) {
                    (BinOp::And, true, _) => Piece::C(0, n),
                    (BinOp::And, _, true) => o,
                    (BinOp::Or, true, _) => o,
                    (BinOp::Or, _, true) => Piece::C(m, n),
                    (BinOp::Xor, true, _) => o,
                    _ => {
                        nontriv += 1;
                        let e = self.from_pieces(&[o]);
                        let c = self.konst(c, n);
                        let z = self.mk(Node::Bin(op, e, c), n);
                        Piece::X(z, 0, n)
                    }
                },
                (a, b) => {
                    if a == b && !matches!(op, BinOp::Xor) {
                        a
                    } else {
                        nontriv += 1;
                        let ea = self.from_pieces(&[a]);
                        let eb = self.from_pieces(&[b]);
                        let (ea, eb) = if ea <= eb { (ea, eb) } else { (eb, ea) };
                        let z = if n == 1 { self.bin(op, ea, eb) } else { self.mk(Node::Bin(op, ea, eb), n) };
                        Piece::X(z, 0, n)
                    }
                }
            };
            out.push(r);
        }
        if nontriv > 2 && out.len() > 4 {
            return None;
        }
        // pieces may now contain extract of composite atoms: normalise
        let mut flat = vec![];
        for p in out {
            match p {
                Piece::X(e, lo, n) => self.pieces_into(e, lo, n, &mut flat),
                c => flat.push(c),
            }
        }
        Some(self.from_pieces(&flat))
    }
    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(p), Some(q)) = (ca, cb) {
            return self.konst(bin_const(op, w, p, q), w);
        }
        // constant on the right for commutative operators
        let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if comm && ca.is_some() {
            return self.bin(op, b, a);
        }
        let m = mask(w);
        match (op, cb) {
            (BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr, Some(0)) => return a,
            (BinOp::And | BinOp::Mul, Some(0)) => return b,
            (BinOp::And, Some(c)) if c == m => return a,
            (BinOp::Or, Some(c)) if c == m => return b,
            (BinOp::Mul | BinOp::UDiv, Some(1)) => return a,
            (BinOp::Xor, Some(1)) if w == 1 => return self.not(a),
            (BinOp::URem, Some(c)) if c.is_power_of_two() => {
                let k = self.konst(c - 1, w);
                return self.bin(BinOp::And, a, k);
            }
            (BinOp::UDiv, Some(c)) if c.is_power_of_two() => {
                let k = self.konst(c.trailing_zeros() as u128, w);
                return self.bin(BinOp::LShr, a, k);
            }
            (BinOp::Mul, Some(c)) if c.is_power_of_two() => {
                let k = self.konst(c.trailing_zeros() as u128, w);
                return self.bin(BinOp::Shl, a, k);
            }
            (BinOp::LShr, Some(c)) => {
                if c >= w as u128 {
                    return self.konst(0, w);
                }
                let c = c as u32;
                let h = self.extract(a, c, w - c);
                return self.zext(h, w);
            }
            (BinOp::Shl, Some(c)) => {
                if c >= w as u128 {
                    return self.konst(0, w);
                }
                let c = c as u32;
                let l = self.extract(a, 0, w - c);
                let z = self.konst(0, c);
                return self.concat(l, z);
            }
            (BinOp::Sub, Some(c)) => {
                let k = self.konst((!c).wrapping_add(1), w);
                return self.bin(BinOp::Add, a, k);
            }
            (BinOp::Add, Some(c)) => {
                if let Node::Bin(BinOp::Add, p, q) = self.node(a) {
                    if let Some(c2) = self.cval(q) {
                        let k = self.konst(c.wrapping_add(c2), w);
                        return self.bin(BinOp::Add, p, k);
                    }
                }
            }
            _ => {}
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.konst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                BinOp::And | BinOp::Or => {
                    let na = self.not(a);
                    if na == b {
                        return self.b(op == BinOp::Or);
                    }
                }
                BinOp::Add => return self.bin(BinOp::Xor, a, b),
                _ => {}
            }
        } else if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
            if let Some(r) = self.logic_pieces(op, a, b) {
                return r;
            }
        }
        // ite with constants against a constant
        if let (Node::Ite(c, p, q), Some(_)) = (self.node(a), cb) {
            if self.cval(p).is_some() && self.cval(q).is_some() {
                let x1 = self.bin(op, p, b);
                let x2 = self.bin(op, q, b);
                return self.ite(c, x1, x2);
            }
        }
        let (a, b) = if comm && cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Bin(op, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if self.cval(a).is_some() {
                return self.f;
            }
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
            match self.node(a) {
                Node::ZExt(p) => {
                    let wp = self.w(p);
                    if c >> wp != 0 {
                        return self.f;
                    }
                    let k = self.konst(c, wp);
                    return self.eq(p, k);
                }
                Node::SExt(p) => {
                    let wp = self.w(p);
                    if sext(c, w) != sext(c & mask(wp), wp) {
                        return self.f;
                    }
                    let k = self.konst(c, wp);
                    return self.eq(p, k);
                }
                Node::Concat(..) => {
                    let mut r = self.t;
                    let mut pos = w;
                    for p in self.pieces(a) {
                        pos -= p.len();
                        let cc = (c >> pos) & mask(p.len());
                        match p {
                            Piece::C(v, _) => {
                                if v != cc {
                                    return self.f;
                                }
                            }
                            Piece::X(e, lo, n) => {
                                let xe = self.raw_extract(e, lo, n);
                                let k = self.konst(cc, n);
                                let q = self.eq(xe, k);
                                r = self.and1(r, q);
                            }
                        }
                    }
                    return r;
                }
                Node::Ite(cc, p, q) => {
                    if self.cval(p).is_some() || self.cval(q).is_some() {
                        let e1 = self.eq(p, b);
                        let e2 = self.eq(q, b);
                        return self.ite(cc, e1, e2);
                    }
                }
                Node::Bin(BinOp::Add, p, q) => {
                    if let Some(k) = self.cval(q) {
                        let k2 = self.konst(c.wrapping_sub(k), w);
                        return self.eq(p, k2);
                    }
                }
                Node::Bin(BinOp::Xor, p, q) => {
                    if let Some(k) = self.cval(q) {
                        let k2 = self.konst(c ^ k, w);
                        return self.eq(p, k2);
                    }
                    if c == 0 {
                        return self.eq(p, q);
                    }
                }
                Node::Bin(BinOp::Sub, p, q) if c == 0 => return self.eq(p, q),
                Node::Bin(BinOp::Or, p, q) if c == 0 => {
                    let z1 = self.eq(p, b);
                    let z2 = self.eq(q, b);
                    return self.and1(z1, z2);
                }
                _ => {}
            }
        } else if matches!(self.node(a), Node::Concat(..) | Node::ZExt(..)) || matches!(self.node(b), Node::Concat(..) | Node::ZExt(..)) {
            // piecewise
            let (pa, pb) = (self.pieces(a), self.pieces(b));
            if pa.len() == pb.len() && pa.iter().zip(&pb).all(|(p, q)| p.len() == q.len()) {
                let mut r = self.t;
                for (p, q) in pa.iter().zip(&pb) {
                    let ep = self.from_pieces(&[*p]);
                    let eq_ = self.from_pieces(&[*q]);
                    let z = self.eq(ep, eq_);
                    r = self.and1(r, z);
                }
                return r;
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Eq(a, b), 1)
    }
    fn urange(&self, e: E) -> (u128, u128) {
        let w = self.w(e);
        match self.node(e) {
            Node::Const(v) => (v, v),
            Node::ZExt(a) => self.urange(a),
            Node::Ite(_, a, b) => {
                let (l1, h1) = self.urange(a);
                let (l2, h2) = self.urange(b);
                (l1.min(l2), h1.max(h2))
            }
            Node::Concat(h, l) => {
                let wl = self.w(l);
                let (a, b) = self.urange(h);
                let (c, d) = self.urange(l);
                ((a << wl) + c, (b << wl) + d)
            }
            Node::Bin(BinOp::And, _, b) => {
                if let Some(c) = self.cval(b) {
                    (0, c)
                } else {
                    (0, mask(w))
                }
            }
            Node::Bin(BinOp::Add, a, b) => {
                let (l1, h1) = self.urange(a);
                let (l2, h2) = self.urange(b);
                if w < 127 && h1 + h2 <= mask(w) {
                    (l1 + l2, h1 + h2)
                } else {
                    (0, mask(w))
                }
            }
            _ => (0, mask(w)),
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let (la, ha) = self.urange(a);
        let (lb, hb) = self.urange(b);
        if ha < lb {
            return self.t;
        }
        if la >= hb {
            return self.f;
        }
        if lb == 1 && hb == 1 {
            let z = self.konst(0, self.w(a));
            return self.eq(a, z);
        }
        if let (Node::ZExt(p), Some(c)) = (self.node(a), self.cval(b)) {
            let wp = self.w(p);
            if c <= mask(wp) {
                let k = self.konst(c, wp);
                return self.ult(p, k);
            }
        }
        if let (Some(c), Node::ZExt(q)) = (self.cval(a), self.node(b)) {
            let wq = self.w(q);
            if c <= mask(wq) {
                let k = self.konst(c, wq);
                return self.ult(k, q);
            }
        }
        self.mk(Node::Ult(a, b), 1)
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        if let (Some(u), Some(v)) = (self.cval(a), self.cval(b)) {
            let w = self.w(a);
            return self.b(cmp_const(p, w, u, v));
        }
        match p {
            Pred::Eq => self.eq(a, b),
            Pred::Ne => {
                let e = self.eq(a, b);
                self.not(e)
            }
            Pred::Ult => self.ult(a, b),
            Pred::Ugt => self.ult(b, a),
            Pred::Uge => {
                let e = self.ult(a, b);
                self.not(e)
            }
            Pred::Ule => {
                let e = self.ult(b, a);
                self.not(e)
            }
            Pred::Slt => {
                if a == b {
                    return self.f;
                }
                let (z, _) = (self.urange(a), 0);
                let y = self.urange(b);
                let half = 1u128 << (self.w(a) - 1);
                if z.1 < half && y.1 < half {
                    return self.ult(a, b);
                }
                self.mk(Node::Slt(a, b), 1)
            }
            Pred::Sgt => self.cmp(Pred::Slt, b, a),
            Pred::Sle => {
                let e = self.cmp(Pred::Slt, b, a);
                self.not(e)
            }
            Pred::Sge => {
                let e = self.cmp(Pred::Slt, a, b);
                self.not(e)
            }
        }
    }
    /// value under an assignment of the symbols (missing symbols are 0)
    pub fn eval(&self, e: E, model: &[u128]) -> u128 {
        let mut memo: HashMap<E, u128> = HashMap::new();
        self.ev(e, model, &mut memo)
    }
    fn ev(&self, e: E, m: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let Info { node, w, .. } = self.nodes[e as usize];
        match node {
            Node::Const(v) => return v,
            Node::Sym(i) => return m.get(i as usize).copied().unwrap_or(0) & mask(w),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = match node {
            Node::Const(_) | Node::Sym(_) => unreachable!(),
            Node::Bin(op, a, b) => bin_const(op, w, self.ev(a, m, memo), self.ev(b, m, memo)),
            Node::Eq(a, b) => (self.ev(a, m, memo) == self.ev(b, m, memo)) as u128,
            Node::Ult(a, b) => (self.ev(a, m, memo) < self.ev(b, m, memo)) as u128,
            Node::Ule(a, b) => (self.ev(a, m, memo) <= self.ev(b, m, memo)) as u128,
            Node::Slt(a, b) => {
                let wa = self.w(a);
                (sext(self.ev(a, m, memo), wa) < sext(self.ev(b, m, memo), wa)) as u128
            }
            Node::Sle(a, b) => {
                let wa = self.w(a);
                (sext(self.ev(a, m, memo), wa) <= sext(self.ev(b, m, memo), wa)) as u128
            }
            Node::Not(a) => self.ev(a, m, memo) ^ 1,
            Node::Ite(c, a, b) => {
                if self.ev(c, m, memo) == 1 {
                    self.ev(a, m, memo)
                } else {
                    self.ev(b, m, memo)
                }
            }
            Node::Extract(a, lo) => (self.ev(a, m, memo) >> lo) & mask(w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                (self.ev(h, m, memo) << wl) | self.ev(l, m, memo)
            }
            Node::ZExt(a) => self.ev(a, m, memo),
            Node::SExt(a) => sext(self.ev(a, m, memo), self.w(a)) as u128 & mask(w),
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        let Info { node, w, .. } = self.nodes[e as usize];
        if d == 0 {
            return "..".into();
        }
        let s = |e: E| self.show_d(e, d - 1);
        match node {
            Node::Const(v) => format!("{v:#x}:{w}"),
            Node::Sym(i) => format!("s{i}:{w}"),
            Node::Bin(op, a, b) => format!("({op:?} {} {})", s(a), s(b)),
            Node::Eq(a, b) => format!("(= {} {})", s(a), s(b)),
            Node::Ult(a, b) => format!("(<u {} {})", s(a), s(b)),
            Node::Ule(a, b) => format!("(<=u {} {})", s(a), s(b)),
            Node::Slt(a, b) => format!("(<s {} {})", s(a), s(b)),
            Node::Sle(a, b) => format!("(<=s {} {})", s(a), s(b)),
            Node::Not(a) => format!("!{}", s(a)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, w),
            Node::Concat(h, l) => format!("({}++{})", s(h), s(l)),
            Node::ZExt(a) => format!("z{}({})", w, s(a)),
            Node::SExt(a) => format!("sx{}({})", w, s(a)),
        }
    }
}
