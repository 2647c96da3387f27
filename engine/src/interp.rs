//! Symbolic interpreter for the decoded IR.
use crate::env::Ext;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::state::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug)]
pub enum Stop {
    Done,
    Violation(String, String),
    Infeasible,
    /// the current thread cannot go on; the instruction is executed again once it is woken
    Block,
    /// threads were switched / process restarted
    Resched,
    Internal(String),
}
pub type R<T> = Result<T, Stop>;

pub fn viol<T>(k: &str, m: String) -> R<T> {
    Err(Stop::Violation(k.into(), m))
}

#[derive(Default, Clone, Copy)]
#[repr(C)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub branches: u64,
    pub implied: u64,
    pub forks: u64,
    pub choice_forks: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub crash_points: u64,
    pub sched_points: u64,
    pub fault_points: u64,
    pub blocked_paths: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub inst_limit: u64,
    pub yield_limit: u32,
    pub debug: bool,
    pub trace_fns: bool,
    pub profile: bool,
    pub params: HashMap<String, u64>,
}

pub struct Interp {
    pub m: &'static Module,
    pub solver: Solver,
    pub stack: Vec<State>,
    pub stats: Stats,
    pub cfg: Cfg,
    pub ext: Vec<Option<Ext>>,
    pub is_panic: Vec<bool>,
    pub fmt_size: Vec<u8>, // formatting of an integer of that size
    pub init_mem: Mem,
    pub covers: u128,
    pub prof: HashMap<usize, u64>,
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, e) => Val::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(v, _) => Val::A(Rc::new(v.iter().map(zero_of).collect())),
        Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
        _ => Val::C(0),
    }
}
pub fn val_of_const(t: &Ty, c: &Const) -> Val {
    match (t, c) {
        (t, Const::Zero) => zero_of(t),
        (t, Const::Int(v)) => Val::of128(*v, t.width()),
        (Ty::Struct(ts, _), Const::Agg(v)) => Val::A(Rc::new(v.iter().zip(ts.iter()).map(|(c, t)| val_of_const(t, c)).collect())),
        (Ty::Arr(_, t), Const::Agg(v)) | (Ty::Vec(_, t), Const::Agg(v)) => Val::A(Rc::new(v.iter().map(|c| val_of_const(t, c)).collect())),
        (Ty::Arr(..), Const::Bytes(b)) | (Ty::Vec(..), Const::Bytes(b)) => Val::A(Rc::new(b.iter().map(|c| Val::C(*c as u64)).collect())),
        _ => panic!("const {t:?} {c:?}"),
    }
}
#[inline]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    ((v << (64 - w)) as i64) >> (64 - w)
}

/// bytes (little endian) to a scalar value of width w
pub fn buf_to_val(b: &Buf, off: usize, n: usize, w: u32) -> Val {
    if b.sym.is_empty() || !b.sym.iter().any(|p| (p.0 as usize) >= off && (p.0 as usize) < off + n) {
        if n <= 8 {
            return Val::C(rd(&b.bytes[off..off + n]) & m64(w));
        }
        let mut t = [0u8; 16];
        t[..n].copy_from_slice(&b.bytes[off..off + n]);
        return Val::of128(u128::from_le_bytes(t) & mask(w), w);
    }
    let a = x();
    let mut acc: Option<E> = None;
    for i in 0..n {
        let e = match b.byte(off + i) {
            Val::S(e) => e,
            Val::C(c) => a.konst(c as u128, 8),
            _ => unreachable!(),
        };
        acc = Some(match acc {
            None => e,
            Some(l) => a.concat(e, l),
        });
    }
    let e = a.extract(acc.unwrap(), 0, w);
    Val::of(e)
}
pub fn val_to_buf(v: &Val, n: usize, w: u32, out: &mut Buf) {
    let base0 = out.bytes.len();
    match v {
        Val::C(c) => out.bytes.extend_from_slice(&c.to_le_bytes()[..n.min(8)]),
        Val::W(c) => out.bytes.extend_from_slice(&c.to_le_bytes()[..n]),
        Val::S(e) => {
            let a = x();
            let base = out.bytes.len();
            let z = a.zext(*e, n as u32 * 8);
            let _ = w;
            for i in 0..n {
                let b = a.extract(z, i as u32 * 8, 8);
                match a.cval(b) {
                    Some(c) => out.bytes.push(c as u8),
                    None => {
                        out.bytes.push(0);
                        out.sym.push(((base + i) as u32, b));
                    }
                }
            }
        }
        Val::A(_) => panic!("agg to buf"),
    }
    out.bytes.resize(base0 + n, 0);
}
fn agg_to_buf(t: &Ty, v: &Val, out: &mut Buf) {
    // appends t.size() bytes
    let base = out.bytes.len();
    match t {
        Ty::Struct(ts, _) => {
            let Val::A(vs) = v else { panic!("agg") };
            for (i, f) in ts.iter().enumerate() {
                let o = base + t.field_off(i) as usize;
                out.bytes.resize(o, 0);
                agg_to_buf(f, &vs[i], out);
            }
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            let Val::A(vs) = v else { panic!("agg") };
            if let Ty::Int(1) = **e {
                // vector of bools is stored bit packed
                let mut acc = 0u64;
                for (i, v) in vs.iter().enumerate() {
                    match v {
                        Val::C(c) => acc |= (c & 1) << i,
                        _ => panic!("symbolic bool vector store"),
                    }
                }
                let n = t.store_size() as usize;
                out.bytes.extend_from_slice(&acc.to_le_bytes()[..n]);
            } else {
                for v in vs.iter() {
                    agg_to_buf(e, v, out);
                }
            }
        }
        t => {
            let mut b = Buf::default();
            val_to_buf(v, t.store_size() as usize, t.width(), &mut b);
            out.sym.extend(b.sym.iter().map(|(k, e)| (k + base as u32, *e)));
            out.bytes.extend_from_slice(&b.bytes);
        }
    }
    let end = base + t.size() as usize;
    out.bytes.resize(end, 0);
}
fn buf_to_agg(t: &Ty, b: &Buf, off: usize) -> Val {
    match t {
        Ty::Struct(ts, _) => Val::A(Rc::new(ts.iter().enumerate().map(|(i, f)| buf_to_agg(f, b, off + t.field_off(i) as usize)).collect())),
        Ty::Arr(n, e) => {
            let s = e.size() as usize;
            Val::A(Rc::new((0..*n as usize).map(|i| buf_to_agg(e, b, off + i * s)).collect()))
        }
        Ty::Vec(n, e) => {
            let s = e.size() as usize;
            Val::A(Rc::new((0..*n as usize).map(|i| buf_to_agg(e, b, off + i * s)).collect()))
        }
        t => buf_to_val(b, off, t.store_size() as usize, t.width()),
    }
}

fn canon(e: E) -> (E, bool) {
    let a = x();
    match a.node(e) {
        Node::Not(k) => (k, true),
        Node::Ule(p, q) => {
            let n = a.not(e);
            let _ = (p, q);
            (n, true)
        }
        Node::Sle(..) => (a.not(e), true),
        _ => (e, false),
    }
}

impl Interp {
    // ---------------------------------------------------------------- deciding
    pub fn add_pc(&mut self, st: &mut State, e: E) {
        let a = x();
        if a.cval(e).is_some() {
            return;
        }
        if let Node::Bin(BinOp::And, p, q) = a.node(e) {
            self.add_pc(st, p);
            self.add_pc(st, q);
            return;
        }
        if let Node::Not(k) = a.node(e) {
            if let Node::Bin(BinOp::Or, p, q) = a.node(k) {
                let (np, nq) = (a.not(p), a.not(q));
                self.add_pc(st, np);
                self.add_pc(st, nq);
                return;
            }
        }
        Rc::make_mut(&mut st.pc).push(e);
        let (k, neg) = canon(e);
        Rc::make_mut(&mut st.facts).insert(k, !neg);
        // determined symbols
        match a.node(k) {
            Node::Sym(i) => Rc::make_mut(&mut st.det)[i as usize] = true,
            Node::Eq(p, q) if !neg => {
                if let (Node::Sym(i), true) = (a.node(p), a.cval(q).is_some()) {
                    Rc::make_mut(&mut st.det)[i as usize] = true;
                }
            }
            _ => {}
        }
    }
    pub fn set_model(st: &mut State, m: &[(u32, u128)]) {
        let md = Rc::make_mut(&mut st.model);
        for (i, v) in m {
            md[*i as usize] = *v;
        }
    }
    fn fact(st: &State, e: E) -> Option<bool> {
        let (k, neg) = canon(e);
        st.facts.get(&k).map(|v| *v != neg)
    }
    pub fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        let a = x();
        if let Some(v) = a.cval(e) {
            return Ok(v == 1);
        }
        if let Some(v) = Self::fact(st, e) {
            return Ok(v);
        }
        let v = a.eval(e, &st.model) == 1;
        if st.determined(e) {
            return Ok(v);
        }
        self.stats.branches += 1;
        let other = if v { a.not(e) } else { e };
        match self.solver.check(&st.pc, other) {
            Res::Unsat => {
                self.stats.implied += 1;
                let (k, neg) = canon(e);
                Rc::make_mut(&mut st.facts).insert(k, v != neg);
                Ok(v)
            }
            Res::Sat(m) => {
                self.stats.forks += 1;
                let mut s2 = st.clone();
                s2.cursor = 0;
                s2.depth += 1;
                self.add_pc(&mut s2, other);
                Self::set_model(&mut s2, &m);
                self.stack.push(s2);
                let this = if v { e } else { a.not(e) };
                self.add_pc(st, this);
                Ok(v)
            }
            Res::Unknown => Err(Stop::Internal(format!("solver gave up on {}", a.show(other)))),
        }
    }
    pub fn assume(&mut self, st: &mut State, e: E) -> R<()> {
        let a = x();
        if let Some(v) = a.cval(e) {
            return if v == 1 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if let Some(v) = Self::fact(st, e) {
            return if v { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if a.eval(e, &st.model) != 1 {
            match self.solver.check(&st.pc, e) {
                Res::Unsat => return Err(Stop::Infeasible),
                Res::Sat(m) => Self::set_model(st, &m),
                Res::Unknown => return Err(Stop::Internal("solver gave up (assume)".into())),
            }
        }
        self.add_pc(st, e);
        Ok(())
    }
    /// e must hold for every value on this path
    pub fn assert(&mut self, st: &mut State, e: E, msg: impl Fn() -> String) -> R<()> {
        self.stats.asserts += 1;
        let a = x();
        if let Some(v) = a.cval(e) {
            return if v == 1 { Ok(()) } else { viol("assert", msg()) };
        }
        if Self::fact(st, e) == Some(true) {
            return Ok(());
        }
        self.stats.assert_queries += 1;
        let ne = a.not(e);
        match self.solver.check(&st.pc, ne) {
            Res::Unsat => {
                let (k, neg) = canon(e);
                Rc::make_mut(&mut st.facts).insert(k, !neg);
                Ok(())
            }
            Res::Sat(m) => {
                Self::set_model(st, &m);
                viol("assert", msg())
            }
            Res::Unknown => Err(Stop::Internal("solver gave up (assert)".into())),
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let a = x();
                // when the expression is an if-then-else over constants decide the conditions, otherwise enumerate
                let mut e = *e;
                while let Node::Ite(c, p, q) = a.node(e) {
                    e = if self.decide(st, c)? { p } else { q };
                }
                if let Some(v) = a.cval(e) {
                    return Ok(v as u64);
                }
                let k = a.eval(e, &st.model);
                let ke = a.konst(k, w);
                let q = a.eq(e, ke);
                if self.decide(st, q)? {
                    Ok(k as u64)
                } else {
                    // unreachable: the model satisfies q
                    Err(Stop::Internal("concretize".into()))
                }
            }
            Val::W(v) => Ok(**v as u64),
            Val::A(_) => Err(Stop::Internal("concretize aggregate".into())),
        }
    }
    /// nondeterministic choice among n alternatives, all of them explored
    pub fn choose(&mut self, st: &mut State, n: u32) -> R<u32> {
        if st.cursor < st.choices.len() {
            let v = st.choices[st.cursor];
            st.cursor += 1;
            return Ok(v);
        }
        for alt in (1..n).rev() {
            let mut s2 = st.clone();
            s2.choices.push(alt);
            s2.cursor = 0;
            s2.depth += 1;
            self.stats.choice_forks += 1;
            self.stack.push(s2);
        }
        st.choices.push(0);
        st.cursor = st.choices.len();
        Ok(0)
    }

    // ---------------------------------------------------------------- memory
    /// resolve a mapped address to (mapping, inode, offset)
    pub fn map_of(&self, st: &State, a: u64, n: u64) -> R<(u32, u64)> {
        if a >= MMAP_BASE {
            let s = ((a - MMAP_BASE) / MMAP_SLOT) as usize;
            let off = (a - MMAP_BASE) % MMAP_SLOT;
            if let Some(mp) = st.mem.maps.get(s) {
                if mp.live && off + n <= mp.len.div_ceil(PAGE) * PAGE {
                    let ino = &st.fs.inodes[mp.inode as usize];
                    if off + n > ino.size.div_ceil(PAGE) * PAGE {
                        return viol("sigbus", format!("access to a mapped page beyond the end of the file (offset {off}, file size {})", ino.size));
                    }
                    return Ok((mp.inode, off));
                }
            }
        }
        viol("segv", format!("invalid memory access of {n} bytes at {a:#x}"))
    }
    pub fn read_mem(&mut self, st: &State, a: u64, n: usize) -> R<Buf> {
        if n == 0 {
            return Ok(Buf::default());
        }
        if st.mem.valid(a, n as u64) {
            return Ok(st.mem.read(a, n));
        }
        let (ino, off) = self.map_of(st, a, n as u64)?;
        let mut b = Buf::default();
        st.fs.inodes[ino as usize].data.read(off, n, &mut b);
        Ok(b)
    }
    pub fn write_mem(&mut self, st: &mut State, a: u64, b: &Buf) -> R<()> {
        if b.bytes.is_empty() {
            return Ok(());
        }
        if st.mem.valid(a, b.bytes.len() as u64) {
            st.mem.write(a, b);
            return Ok(());
        }
        let (ino, off) = self.map_of(st, a, b.bytes.len() as u64)?;
        let ino = Rc::make_mut(&mut st.fs.inodes[ino as usize]);
        ino.data.write(off, b);
        ino.dirty = true;
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, t: &Ty, a: u64) -> R<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.size() as usize;
                let b = self.read_mem(st, a, n)?;
                if let Ty::Vec(k, e) = t {
                    if **e == Ty::Int(1) {
                        let v = rd(&b.bytes[..n.min(8)]);
                        return Ok(Val::A(Rc::new((0..*k).map(|i| Val::C(v >> i & 1)).collect())));
                    }
                }
                Ok(buf_to_agg(t, &b, 0))
            }
            _ => {
                let n = t.store_size() as usize;
                let w = t.width();
                if n <= 8 && st.mem.valid(a, n as u64) {
                    if let Some(v) = st.mem.load_fast(a, n) {
                        return Ok(Val::C(v & m64(w)));
                    }
                }
                let b = self.read_mem(st, a, n)?;
                Ok(buf_to_val(&b, 0, n, w))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, t: &Ty, v: &Val, a: u64) -> R<()> {
        if let Val::C(c) = v {
            let n = t.store_size() as usize;
            if n <= 8 && st.mem.valid(a, n as u64) && st.mem.store_fast(a, n, *c) {
                return Ok(());
            }
        }
        let mut b = Buf::default();
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => agg_to_buf(t, v, &mut b),
            _ => val_to_buf(v, t.store_size() as usize, t.width(), &mut b),
        }
        self.write_mem(st, a, &b)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<String> {
        let mut s = vec![];
        let mut p = a;
        loop {
            let b = self.read_mem(st, p, 1)?;
            let v = b.byte(0);
            let c = self.concretize(st, &v, 8)? as u8;
            if c == 0 {
                break;
            }
            s.push(c);
            p += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    // ---------------------------------------------------------------- threads
    pub fn runnable(st: &State) -> Vec<usize> {
        (0..st.th.len()).filter(|i| st.th[*i].status == Status::Runnable).collect()
    }
    fn switch(&mut self, st: &mut State, to: usize, forced: bool) {
        let from = st.cur;
        let point = st.th[from].points;
        st.log(Ev::Switch { from, point, to, forced });
        st.cur = to;
        st.choices.clear();
        st.cursor = 0;
        for t in st.th.iter_mut() {
            t.yields = 0;
        }
    }
    /// possible preemption before the current instruction
    #[inline]
    pub fn sched_point(&mut self, st: &mut State) -> R<()> {
        if st.th.len() == 1 {
            return Ok(());
        }
        self.sched_point_slow(st)
    }
    fn sched_point_slow(&mut self, st: &mut State) -> R<()> {
        let c = st.cur;
        if st.th[c].skip_point {
            return Ok(());
        }
        if st.budget > 0 {
            let others: Vec<usize> = Self::runnable(st).into_iter().filter(|t| *t != c).collect();
            if !others.is_empty() {
                if st.cursor == st.choices.len() {
                    self.stats.sched_points += 1;
                }
                let k = self.choose(st, 1 + others.len() as u32)?;
                if k > 0 {
                    st.budget -= 1;
                    self.switch(st, others[k as usize - 1], false);
                    st.th[c].points += 1;
                    st.th[c].skip_point = true;
                    return Err(Stop::Resched);
                }
            }
        }
        st.th[c].points += 1;
        st.th[c].skip_point = true;
        Ok(())
    }
    /// the current thread stopped; pick another one (all alternatives are explored)
    fn reschedule(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.th[0].status == Status::Done {
                return Err(Stop::Done);
            }
            let r = Self::runnable(st);
            if r.is_empty() {
                // timed waiters give up first, then the idle ones
                if let Some(t) = st.th.iter().position(|t| matches!(t.status, Status::Idle)) {
                    st.th[t].status = Status::Runnable;
                    st.th[t].woken = Some(0);
                    continue;
                }
                if let Some(t) = st.th.iter().position(|t| matches!(t.status, Status::Futex { timed: true, .. })) {
                    st.clock += 10_000_000_000;
                    st.th[t].status = Status::Runnable;
                    st.th[t].woken = Some(-110);
                    continue;
                }
                let mut m = String::from("deadlock:");
                for (i, t) in st.th.iter().enumerate() {
                    m += &format!(" thread {i} {:?} [{}];", t.status, self.backtrace(t));
                }
                return viol("deadlock", m);
            }
            let k = if r.len() > 1 && st.pflags & 2 == 0 { self.choose_resched(st, &r)? } else { r[0] };
            self.switch(st, k, true);
            return Ok(());
        }
    }
    fn choose_resched(&mut self, st: &mut State, r: &[usize]) -> R<usize> {
        for alt in (1..r.len()).rev() {
            let mut s2 = st.clone();
            s2.depth += 1;
            self.stats.choice_forks += 1;
            self.switch(&mut s2, r[alt], true);
            self.stack.push(s2);
        }
        Ok(r[0])
    }
    pub fn backtrace(&self, t: &Thread) -> String {
        let mut s = vec![];
        for f in t.frames.iter().rev() {
            let p = &self.m.funcs[f.f.id].pretty;
            let n = if p.is_empty() { &f.f.name } else { p };
            if s.len() < 24 {
                s.push(n.clone());
            }
        }
        s.join(" < ")
    }

    // ---------------------------------------------------------------- crash
    /// a point before a persistent effect; may crash the process here
    #[inline]
    pub fn crash_point(&mut self, st: &mut State, sub: u32) -> R<()> {
        if st.crash.is_none() {
            return Ok(());
        }
        if st.cursor == st.choices.len() {
            self.stats.crash_points += 1;
        }
        let k = self.choose(st, 2)?;
        if k == 1 {
            let ev = st.ev;
            st.log(Ev::Crash { ev, sub });
            self.do_crash(st)?;
            return Err(Stop::Resched);
        }
        Ok(())
    }
    pub fn do_crash(&mut self, st: &mut State) -> R<()> {
        let c = st.crash.take().unwrap();
        st.crashes += 1;
        if c.flags & 1 != 0 {
            // power loss: whatever was not synced is gone
            for i in st.fs.inodes.iter_mut().filter(|i| i.dir.is_none() && i.dirty) {
                let i = Rc::make_mut(i);
                let (data, size) = i.synced.as_deref().cloned().unwrap_or_default();
                i.data = data;
                i.size = size;
                i.dirty = false;
            }
        }
        st.mem = self.init_mem.clone();
        st.fs.ofds.clear();
        st.fs.fds = vec![None; 3];
        st.fs.dirs.clear();
        st.th.clear();
        st.cur = 0;
        st.choices.clear();
        st.cursor = 0;
        st.budget = 0;
        st.ev = 0;
        st.fault_mask = 0;
        let f = self.func_at(c.recover)?;
        self.spawn(st, f, vec![]);
        Ok(())
    }
    pub fn func_at(&self, a: u64) -> R<usize> {
        if a >= FUNC_BASE && a < FUNC_BASE + 16 * self.m.funcs.len() as u64 && a % 16 == 0 {
            Ok(((a - FUNC_BASE) / 16) as usize)
        } else {
            viol("segv", format!("call through bad pointer {a:#x}"))
        }
    }
    pub fn spawn(&mut self, st: &mut State, f: usize, args: Vec<Val>) -> usize {
        let id = st.th.len();
        let top = STACK_BASE + (id as u64 + 1) * STACK_SIZE;
        assert!(top <= HEAP_BASE, "too many threads");
        let tls = st.mem.alloc(self.m.tls_size.max(16), 64).unwrap();
        for g in &self.m.globals {
            if g.tls {
                if let Some(c) = self.m.global_init(g) {
                    let mut b = vec![0u8; g.ty.size() as usize];
                    Module::const_bytes(&g.ty, &c, &mut b);
                    st.mem.write(tls + g.addr, &Buf { bytes: b, sym: vec![] });
                }
            }
        }
        let errno = st.mem.alloc(8, 8).unwrap();
        let func = self.m.body(f);
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (p, v) in func.params.iter().zip(args) {
            regs[*p as usize] = v;
        }
        let fr = Frame { f: func, bb: 0, ip: 0, regs, sp_save: top, dst: None, normal: None };
        st.th.push(Thread { frames: vec![fr], sp: top, tls, errno, status: Status::Runnable, woken: None, skip_point: false, points: 0, yields: 0, name: String::new(), detached: false });
        id
    }

    // ---------------------------------------------------------------- running
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let r = self.run_thread(st);
            match r {
                Stop::Block => {
                    st.choices.clear();
                    st.cursor = 0;
                    match self.reschedule(st) {
                        Ok(()) => {}
                        Err(s) => return s,
                    }
                }
                Stop::Resched => {}
                s => return s,
            }
        }
    }
    fn run_thread(&mut self, st: &mut State) -> Stop {
        let limit = self.cfg.inst_limit;
        loop {
            st.insts += 1;
            if st.insts > limit {
                return Stop::Violation("hang".into(), format!("no end after {limit} instructions: {}", self.backtrace(&st.th[st.cur])));
            }
            if let Err(e) = self.step(st) {
                return e;
            }
        }
    }
    #[inline]
    fn opd(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::C(v) => Val::C(*v),
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => val_of_const(&k.0, &k.1),
        }
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let c = st.cur;
        let fr = st.th[c].frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        self.adv(st);
    }
    /// instruction done
    #[inline]
    fn adv(&mut self, st: &mut State) {
        let t = &mut st.th[st.cur];
        t.skip_point = false;
        t.frames.last_mut().unwrap().ip += 1;
        if !st.choices.is_empty() {
            st.choices.clear();
            st.cursor = 0;
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let t = &mut st.th[st.cur];
        t.skip_point = false;
        let fr = t.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    Opd::C(v) => Val::C(*v),
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(k) => val_of_const(&k.0, &k.1),
                };
                fr.regs[p.dst as usize] = v;
            } else {
                let vals: Vec<(u32, Val)> = b
                    .phis
                    .iter()
                    .map(|p| {
                        let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                        let v = match o {
                            Opd::C(v) => Val::C(*v),
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::K(k) => val_of_const(&k.0, &k.1),
                        };
                        (p.dst, v)
                    })
                    .collect();
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.ip = 0;
        if !st.choices.is_empty() {
            st.choices.clear();
            st.cursor = 0;
        }
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let c = st.cur;
        let t = &mut st.th[c];
        t.skip_point = false;
        let fr = t.frames.pop().unwrap();
        t.sp = fr.sp_save;
        if t.frames.is_empty() {
            return self.thread_done(st, c);
        }
        self.finish_call(st, fr.dst, fr.normal, v);
        Ok(())
    }
    fn thread_done(&mut self, st: &mut State, c: usize) -> R<()> {
        st.th[c].status = Status::Done;
        for t in st.th.iter_mut() {
            if t.status == Status::Join(c) {
                t.status = Status::Runnable;
            }
        }
        if c == 0 {
            return Err(Stop::Done);
        }
        Err(Stop::Block)
    }
    /// deliver a call result to the current frame and move on
    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        let fr = st.th[st.cur].frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (dst, v) {
            fr.regs[d as usize] = v;
        }
        match normal {
            Some(n) => self.jump(st, n),
            None => self.adv(st),
        }
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let fr: &mut Frame = {
            let t = &mut st.th[cur];
            let n = t.frames.len() - 1;
            &mut t.frames[n]
        };
        let f: &'static Func = fr.f;
        let inst: &'static Inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        if self.cfg.trace_fns && self.cfg.debug {
            eprintln!("{} b{} i{} {:?} r={:?}", f.name, fr.bb, fr.ip, inst, fr.regs.iter().take(12).collect::<Vec<_>>());
        }
        match inst {
            Inst::Bin(op, w, a, b, d) => {
                let (va, vb) = (self.opd(fr, a), self.opd(fr, b));
                if let (Val::C(p), Val::C(q)) = (&va, &vb) {
                    let (p, q) = (*p, *q);
                    let w = *w;
                    let m = m64(w);
                    let r = match op {
                        BinOp::Add => p.wrapping_add(q) & m,
                        BinOp::Sub => p.wrapping_sub(q) & m,
                        BinOp::Mul => p.wrapping_mul(q) & m,
                        BinOp::And => p & q,
                        BinOp::Or => p | q,
                        BinOp::Xor => p ^ q,
                        BinOp::Shl => {
                            if q >= w as u64 {
                                0
                            } else {
                                (p << q) & m
                            }
                        }
                        BinOp::LShr => {
                            if q >= w as u64 {
                                0
                            } else {
                                p >> q
                            }
                        }
                        BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if q == 0 => return viol("div0", "division by zero".into()),
                        BinOp::UDiv => p / q,
                        BinOp::URem => p % q,
                        _ => bin_const(*op, w, p as u128, q as u128) as u64,
                    };
                    fr.regs[*d as usize] = Val::C(r);
                    fr.ip += 1;
                    return Ok(());
                }
                if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv) {
                    let p = self.concretize(st, &va, *w)?;
                    let q = self.concretize(st, &vb, *w)?;
                    let r = bin_const(*op, *w, p as u128, q as u128);
                    self.set(st, *d, Val::C(r as u64));
                    return Ok(());
                }
                if let (Some(p), Some(q)) = (va.c128(), vb.c128()) {
                    let r = bin_const(*op, *w, p, q);
                    self.set(st, *d, Val::of128(r, *w));
                    return Ok(());
                }
                let r = x().bin(*op, va.e(*w), vb.e(*w));
                self.set(st, *d, Val::of(r));
            }
            Inst::Icmp(p, w, a, b, d) => {
                let (va, vb) = (self.opd(fr, a), self.opd(fr, b));
                if let (Val::C(u), Val::C(v)) = (&va, &vb) {
                    let (u, v) = (*u, *v);
                    let r = match p {
                        Pred::Eq => u == v,
                        Pred::Ne => u != v,
                        Pred::Ugt => u > v,
                        Pred::Uge => u >= v,
                        Pred::Ult => u < v,
                        Pred::Ule => u <= v,
                        Pred::Sgt => sx64(u, *w) > sx64(v, *w),
                        Pred::Sge => sx64(u, *w) >= sx64(v, *w),
                        Pred::Slt => sx64(u, *w) < sx64(v, *w),
                        Pred::Sle => sx64(u, *w) <= sx64(v, *w),
                    };
                    fr.regs[*d as usize] = Val::C(r as u64);
                    fr.ip += 1;
                    return Ok(());
                }
                let r = x().cmp(*p, va.e(*w), vb.e(*w));
                self.set(st, *d, Val::of(r));
            }
            Inst::Load(t, n, p, d, atomic) => {
                let a = match self.opd(fr, p) {
                    Val::C(c) => c,
                    v => self.concretize(st, &v, 64)?,
                };
                if a >= MMAP_BASE || (*atomic && st.pflags & 4 != 0) {
                    if (a >= MMAP_BASE && st.pflags & 1 != 0) || (*atomic && st.pflags & 4 != 0) {
                        self.sched_point(st)?;
                    }
                } else if !matches!(t, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) && *n <= 8 && st.mem.valid(a, *n as u64) {
                    if let Some(v) = st.mem.load_fast(a, *n as usize) {
                        let fr = st.th[cur].frames.last_mut().unwrap();
                        fr.regs[*d as usize] = Val::C(v & m64(t.width()));
                        self.adv(st);
                        return Ok(());
                    }
                }
                let v = self.load(st, t, a)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, n, v, p, atomic) => {
                let val = self.opd(fr, v);
                let a = match self.opd(fr, p) {
                    Val::C(c) => c,
                    v => self.concretize(st, &v, 64)?,
                };
                if a >= MMAP_BASE {
                    self.sched_point(st)?;
                    self.map_of(st, a, *n as u64)?;
                    self.crash_point(st, 0)?;
                    st.ev += 1;
                } else if *atomic && st.pflags & 4 != 0 {
                    self.sched_point(st)?;
                }
                self.store(st, t, &val, a)?;
                self.adv(st);
            }
            Inst::Gep(base, off, dynv, d) => {
                let b = self.opd(fr, base);
                if let Val::C(b) = b {
                    let mut r = b.wrapping_add(*off);
                    let mut ok = true;
                    for (o, w, s) in dynv.iter() {
                        match self.opd(fr, o) {
                            Val::C(v) => {
                                let v = if *w < 64 { sx64(v, *w) as u64 } else { v };
                                r = r.wrapping_add(v.wrapping_mul(*s))
                            }
                            _ => ok = false,
                        }
                    }
                    if ok {
                        fr.regs[*d as usize] = Val::C(r);
                        fr.ip += 1;
                        return Ok(());
                    }
                }
                let a = x();
                let o = a.konst(*off as u128, 64);
                let mut r = a.bin(BinOp::Add, b.e(64), o);
                for (o, w, s) in dynv.iter() {
                    let v = self.opd(fr, o).e(*w);
                    let v = a.sext(v, 64);
                    let k = a.konst(*s as u128, 64);
                    let v = a.bin(BinOp::Mul, v, k);
                    r = a.bin(BinOp::Add, r, v);
                }
                self.set(st, *d, Val::of(r));
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr(c, t, e) => {
                let v = self.opd(fr, c);
                let b = match v {
                    Val::C(c) => c & 1 == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => panic!("br"),
                };
                self.jump(st, if b { *t } else { *e });
            }
            Inst::Call(callee, args, _rt, dst, normal) => {
                let fid = match callee {
                    Callee::Func(i) => *i,
                    Callee::Nop => {
                        self.finish_call(st, *dst, *normal, None);
                        return Ok(());
                    }
                    Callee::Ind(o) => {
                        let v = self.opd(fr, o);
                        let a = self.concretize(st, &v, 64)?;
                        self.func_at(a)?
                    }
                };
                let fd = &self.m.funcs[fid];
                if fd.span.is_some() {
                    if self.is_panic[fid] {
                        return self.on_panic(st, fid, args);
                    }
                    if self.fmt_size[fid] > 0 {
                        // the text of a message; digits of an arbitrary number are left out
                        let v = self.opd(st.th[cur].frames.last().unwrap(), &args[0].1);
                        let a = self.concretize(st, &v, 64)?;
                        let b = self.read_mem(st, a, self.fmt_size[fid] as usize)?;
                        if !b.sym.is_empty() {
                            self.finish_call(st, *dst, *normal, Some(Val::C(0)));
                            return Ok(());
                        }
                    }
                    let fr = st.th[cur].frames.last().unwrap();
                    let func = self.m.body(fid);
                    let mut regs = vec![Val::C(0); func.nregs as usize];
                    for (p, (_, o)) in func.params.iter().zip(args.iter()) {
                        regs[*p as usize] = self.opd(fr, o);
                    }
                    if self.cfg.trace_fns {
                        eprintln!("{}{} {}", " ".repeat(st.th[cur].frames.len()), cur, if fd.pretty.is_empty() { &fd.name } else { &fd.pretty });
                    }
                    if self.cfg.profile {
                        *self.prof.entry(fid).or_insert(0) += 1;
                    }
                    let t = &mut st.th[cur];
                    let sp_save = t.sp;
                    if t.frames.len() > 400 {
                        return viol("hang", format!("unbounded recursion: {}", self.backtrace(&st.th[cur])));
                    }
                    t.frames.push(Frame { f: func, bb: 0, ip: 0, regs, sp_save, dst: *dst, normal: *normal });
                    t.skip_point = false;
                    if !st.choices.is_empty() {
                        st.choices.clear();
                        st.cursor = 0;
                    }
                } else {
                    let fr = st.th[cur].frames.last().unwrap();
                    let vals: Vec<Val> = args.iter().map(|(_, o)| self.opd(fr, o)).collect();
                    let e = match self.ext[fid] {
                        Some(e) => e,
                        None => return Err(Stop::Internal(format!("external {} is not modelled: {}", fd.name, self.backtrace(&st.th[cur])))),
                    };
                    let r = e(self, st, &vals, args)?;
                    self.finish_call(st, *dst, *normal, r);
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.opd(fr, o));
                return self.ret(st, v);
            }
            Inst::Select(c, t, a, b, d) => {
                let v = match self.opd(fr, c) {
                    Val::C(c) => self.opd(fr, if c & 1 == 1 { a } else { b }),
                    Val::S(ce) => {
                        let scalar = matches!(t, Ty::Int(_));
                        if scalar {
                            let w = t.width();
                            let r = x().ite(ce, self.opd(fr, a).e(w), self.opd(fr, b).e(w));
                            Val::of(r)
                        } else {
                            let (va, vb) = (self.opd(fr, a), self.opd(fr, b));
                            if self.decide(st, ce)? {
                                va
                            } else {
                                vb
                            }
                        }
                    }
                    _ => panic!("select"),
                };
                self.set(st, *d, v);
            }
            Inst::Cast(op, t1, t2, v, d) => {
                let val = self.opd(fr, v);
                let r = self.cast(st, *op, t1, t2, val)?;
                self.set(st, *d, r);
            }
            Inst::Switch(v, w, def, cases) => {
                let val = self.opd(fr, v);
                match val {
                    Val::C(c) => {
                        let t = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        for (k, t) in cases.iter() {
                            let a = x();
                            let ke = a.konst(*k as u128, *w);
                            let q = a.eq(e, ke);
                            if self.decide(st, q)? {
                                self.jump(st, *t);
                                return Ok(());
                            }
                        }
                        self.jump(st, *def);
                    }
                    Val::W(v) => {
                        let t = cases.iter().find(|x| x.0 as u128 == *v).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    _ => panic!("switch"),
                }
            }
            Inst::Alloca(n, al, d) => {
                let t = &mut st.th[cur];
                let sp = (t.sp - n) / al * al;
                if sp < STACK_BASE + cur as u64 * STACK_SIZE + 4096 {
                    return viol("stack overflow", self.backtrace(&st.th[cur]));
                }
                t.sp = sp;
                self.set(st, *d, Val::C(sp));
            }
            Inst::Extract(a, ix, d) => {
                let mut v = self.opd(fr, a);
                for i in ix.iter() {
                    v = match v {
                        Val::A(k) => k[*i as usize].clone(),
                        _ => panic!("extract"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(t, a, _t2, b, ix, d) => {
                let mut v = self.opd(fr, a);
                if !matches!(v, Val::A(_)) {
                    v = zero_of(t);
                }
                let b = self.opd(fr, b);
                fn go(v: &mut Val, ix: &[u32], b: Val) {
                    match v {
                        Val::A(k) => {
                            let k = Rc::make_mut(k);
                            if ix.len() == 1 {
                                k[ix[0] as usize] = b;
                            } else {
                                go(&mut k[ix[0] as usize], &ix[1..], b);
                            }
                        }
                        _ => panic!("insert"),
                    }
                }
                go(&mut v, ix, b);
                self.set(st, *d, v);
            }
            Inst::Rmw(op, w, p, v, d) => {
                let (pv, vv) = (self.opd(fr, p), self.opd(fr, v));
                let a = self.concretize(st, &pv, 64)?;
                self.sched_point(st)?;
                let t = Ty::Int(*w);
                let old = self.load(st, &t, a)?;
                if a >= MMAP_BASE {
                    self.crash_point(st, 0)?;
                    st.ev += 1;
                }
                let ar = x();
                let new = match (&old, &vv) {
                    (Val::C(o), Val::C(v)) => {
                        let (o, v) = (*o, *v);
                        Val::C(
                            m64(*w)
                                & match op {
                                    RmwOp::Xchg => v,
                                    RmwOp::Add => o.wrapping_add(v),
                                    RmwOp::Sub => o.wrapping_sub(v),
                                    RmwOp::And => o & v,
                                    RmwOp::Or => o | v,
                                    RmwOp::Xor => o ^ v,
                                    RmwOp::UMax => o.max(v),
                                    RmwOp::UMin => o.min(v),
                                    RmwOp::Nand => !(o & v),
                                },
                        )
                    }
                    _ => {
                        let (o, v) = (old.e(*w), vv.e(*w));
                        let r = match op {
                            RmwOp::Xchg => v,
                            RmwOp::Add => ar.bin(BinOp::Add, o, v),
                            RmwOp::Sub => ar.bin(BinOp::Sub, o, v),
                            RmwOp::And => ar.bin(BinOp::And, o, v),
                            RmwOp::Or => ar.bin(BinOp::Or, o, v),
                            RmwOp::Xor => ar.bin(BinOp::Xor, o, v),
                            RmwOp::UMax => {
                                let c = ar.ult(o, v);
                                ar.ite(c, v, o)
                            }
                            RmwOp::UMin => {
                                let c = ar.ult(o, v);
                                ar.ite(c, o, v)
                            }
                            RmwOp::Nand => return Err(Stop::Internal("symbolic nand".into())),
                        };
                        Val::of(r)
                    }
                };
                self.store(st, &t, &new, a)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(w, p, e, n, d) => {
                let (pv, ev, nv) = (self.opd(fr, p), self.opd(fr, e), self.opd(fr, n));
                let a = self.concretize(st, &pv, 64)?;
                self.sched_point(st)?;
                let t = Ty::Int(*w);
                let old = self.load(st, &t, a)?;
                let eq = x().eq(old.e(*w), ev.e(*w));
                let ok = self.decide(st, eq)?;
                if ok {
                    if a >= MMAP_BASE {
                        self.crash_point(st, 0)?;
                        st.ev += 1;
                    }
                    self.store(st, &t, &nv, a)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            Inst::Fence => self.adv(st),
            Inst::Freeze(_, v, d) => {
                let v = self.opd(fr, v);
                self.set(st, *d, v);
            }
            Inst::Fcmp(p, w, a, b, d) => {
                let (va, vb) = (self.opd(fr, a), self.opd(fr, b));
                let p1 = flt(self.concretize(st, &va, *w)?, *w);
                let q = flt(self.concretize(st, &vb, *w)?, *w);
                let un = p1.is_nan() || q.is_nan();
                let r = match p.as_str() {
                    "oeq" => p1 == q,
                    "one" => !un && p1 != q,
                    "olt" => p1 < q,
                    "ole" => p1 <= q,
                    "ogt" => p1 > q,
                    "oge" => p1 >= q,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || p1 == q,
                    "une" => p1 != q,
                    "ult" => un || p1 < q,
                    "ule" => un || p1 <= q,
                    "ugt" => un || p1 > q,
                    "uge" => un || p1 >= q,
                    _ => return Err(Stop::Internal(format!("fcmp {p}"))),
                };
                self.set(st, *d, Val::C(r as u64));
            }
            Inst::VBin(op, t, a, b, d) => {
                let Ty::Vec(_, et) = t else { panic!() };
                let w = et.width();
                let (Val::A(va), Val::A(vb)) = (self.opd(fr, a), self.opd(fr, b)) else { panic!("vbin") };
                let r = va
                    .iter()
                    .zip(vb.iter())
                    .map(|(p, q)| match (p, q) {
                        (Val::C(p), Val::C(q)) => Val::C(bin_const(*op, w, *p as u128, *q as u128) as u64),
                        _ => Val::of(x().bin(*op, p.e(w), q.e(w))),
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::VIcmp(pr, t, a, b, d) => {
                let Ty::Vec(_, et) = t else { panic!() };
                let w = et.width();
                let (Val::A(va), Val::A(vb)) = (self.opd(fr, a), self.opd(fr, b)) else { panic!("vicmp") };
                let r = va
                    .iter()
                    .zip(vb.iter())
                    .map(|(p, q)| match (p, q) {
                        (Val::C(p), Val::C(q)) => Val::C(cmp_const(*pr, w, *p as u128, *q as u128) as u64),
                        _ => Val::of(x().cmp(*pr, p.e(w), q.e(w))),
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::InsElem(t, v, e, ix, d) => {
                let (mut v, e, ix) = (self.opd(fr, v), self.opd(fr, e), self.opd(fr, ix));
                let i = self.concretize(st, &ix, 64)? as usize;
                if !matches!(v, Val::A(_)) {
                    v = zero_of(t);
                }
                if let Val::A(k) = &mut v {
                    Rc::make_mut(k)[i] = e;
                }
                self.set(st, *d, v);
            }
            Inst::ExtElem(_, v, ix, d) => {
                let (v, ix) = (self.opd(fr, v), self.opd(fr, ix));
                let i = self.concretize(st, &ix, 64)? as usize;
                let Val::A(k) = v else { panic!() };
                self.set(st, *d, k[i].clone());
            }
            Inst::Shuffle(t, a, b, mask, d) => {
                let (mut a, mut b) = (self.opd(fr, a), self.opd(fr, b));
                if !matches!(a, Val::A(_)) {
                    a = zero_of(t);
                }
                if !matches!(b, Val::A(_)) {
                    b = zero_of(t);
                }
                let (Val::A(a), Val::A(b)) = (a, b) else { panic!() };
                let n = a.len();
                let r = mask
                    .iter()
                    .map(|i| {
                        let i = *i as usize;
                        if i < n {
                            a[i].clone()
                        } else {
                            b.get(i - n).cloned().unwrap_or(Val::C(0))
                        }
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::LandingPad => return Err(Stop::Internal("landing pad".into())),
            Inst::Unreachable => return viol("unreachable", format!("reached code marked unreachable: {}", self.backtrace(&st.th[cur]))),
        }
        Ok(())
    }

    fn cast(&mut self, st: &mut State, op: CastOp, t1: &Ty, t2: &Ty, v: Val) -> R<Val> {
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2), true) = (t1, t2, op != CastOp::Bitcast) {
            let Val::A(k) = v else { panic!() };
            let mut r = vec![];
            for v in k.iter() {
                r.push(self.cast(st, op, e1, e2, v.clone())?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        Ok(match op {
            CastOp::Bitcast => {
                if t1 == t2 || !(matches!(t1, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                    return Ok(v);
                }
                // vector <-> int / vector
                let mut bits: E;
                match (t1, &v) {
                    (Ty::Vec(_, e), Val::A(k)) => {
                        let w = e.width();
                        if k.iter().all(|v| matches!(v, Val::C(_))) && k.len() as u32 * w <= 64 && !matches!(t2, Ty::Vec(..)) {
                            let mut acc = 0u64;
                            for (i, v) in k.iter().enumerate() {
                                if let Val::C(c) = v {
                                    acc |= (c & m64(w)) << (i as u32 * w);
                                }
                            }
                            return Ok(Val::C(acc));
                        }
                        bits = k[0].e(w);
                        for v in &k[1..] {
                            bits = x().concat(v.e(w), bits);
                        }
                    }
                    _ => bits = v.e(t1.width()),
                }
                match t2 {
                    Ty::Vec(n, e) => {
                        let w = e.width();
                        Val::A(Rc::new((0..*n).map(|i| Val::of(x().extract(bits, i * w, w))).collect()))
                    }
                    _ => Val::of(bits),
                }
            }
            CastOp::ZExt => match v {
                Val::C(c) => Val::of128(c as u128, t2.width()),
                Val::S(e) => Val::of(x().zext(e, t2.width())),
                v => v,
            },
            CastOp::SExt => {
                let (w1, w2) = (t1.width(), t2.width());
                match v {
                    Val::C(c) if w2 <= 64 => Val::C(sx64(c, w1) as u64 & m64(w2)),
                    Val::S(e) => Val::of(x().sext(e, w2)),
                    v => Val::of128(sext(v.c128().unwrap(), w1) as u128 & mask(w2), w2),
                }
            }
            CastOp::Trunc => {
                let w2 = t2.width();
                match v {
                    Val::C(c) => Val::C(c & m64(w2)),
                    Val::W(c) => Val::of128(*c & mask(w2), w2),
                    Val::S(e) => Val::of(x().extract(e, 0, w2)),
                    _ => panic!(),
                }
            }
            CastOp::UiToFp => {
                let k = self.concretize(st, &v, t1.width())?;
                Val::C(if t2.width() == 32 { (k as f32).to_bits() as u64 } else { (k as f64).to_bits() })
            }
            CastOp::FpToFp => {
                let k = self.concretize(st, &v, t1.width())?;
                Val::C(unflt(flt(k, t1.width()), t2.width()))
            }
            CastOp::SiToFp => {
                let k = self.concretize(st, &v, t1.width())?;
                Val::C(if t2.width() == 32 { (sx64(k, t1.width()) as f32).to_bits() as u64 } else { (sx64(k, t1.width()) as f64).to_bits() })
            }
            CastOp::FpToUi => {
                let k = self.concretize(st, &v, t1.width())?;
                Val::C(flt(k, t1.width()) as u64 & m64(t2.width()))
            }
            CastOp::FpToSi => {
                let k = self.concretize(st, &v, t1.width())?;
                Val::C(flt(k, t1.width()) as i64 as u64 & m64(t2.width()))
            }
        })
    }

    fn on_panic(&mut self, st: &mut State, fid: usize, args: &[(Ty, Opd)]) -> R<()> {
        let fr = st.th[st.cur].frames.last().unwrap();
        let mut place = String::new();
        if let Some((Ty::Ptr, o)) = args.last() {
            if let Val::C(p) = self.opd(fr, o) {
                // core::panic::Location { file ptr, len, line, col }
                if st.mem.valid(p, 24) {
                    let b = st.mem.read(p, 24);
                    let fp = rd(&b.bytes[0..8]);
                    let fl = rd(&b.bytes[8..16]);
                    let line = rd(&b.bytes[16..20]);
                    if fl < 300 && st.mem.valid(fp, fl) {
                        let s = st.mem.read(fp, fl as usize);
                        place = format!("{}:{}", String::from_utf8_lossy(&s.bytes).trim_end_matches('\0'), line);
                    }
                }
            }
        }
        let n = &self.m.funcs[fid].pretty;
        viol("panic", format!("{n} at {place} [{}]", self.backtrace(&st.th[st.cur])))
    }
}
