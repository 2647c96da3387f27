//! Models of everything the code calls outside of the IR: intrinsics, libc, the file system, threads, and the harness interface.
use crate::expr::*;
use crate::interp::*;
use crate::ir::*;
use crate::mem::*;
use crate::state::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Ext = fn(&mut Interp, &mut State, &[Val], &[(Ty, Opd)]) -> R<Option<Val>>;
type Args<'a> = &'a [(Ty, Opd)];
type Ret = R<Option<Val>>;

const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EAGAIN: i32 = 11;
const EEXIST: i32 = 17;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const ENOSPC: i32 = 28;
const ENOSYS: i32 = 38;

pub const F_OPEN: u64 = 1;
pub const F_WRITE: u64 = 2;
pub const F_TRUNC: u64 = 4;
pub const F_SYNC: u64 = 8;
pub const F_RENAME: u64 = 16;
pub const F_UNLINK: u64 = 32;
pub const F_MMAP: u64 = 64;
pub const F_READ: u64 = 128;

fn ok(v: u64) -> Ret {
    Ok(Some(Val::C(v)))
}
fn zero(_: &mut Interp, _: &mut State, _: &[Val], _: Args) -> Ret {
    ok(0)
}
fn nop(_: &mut Interp, _: &mut State, _: &[Val], _: Args) -> Ret {
    Ok(None)
}
fn fail_errno(st: &mut State, e: i32) {
    let a = st.th[st.cur].errno;
    st.mem.store_fast(a, 4, e as u64);
}
fn err32(st: &mut State, e: i32) -> Ret {
    fail_errno(st, e);
    ok(0xffff_ffff)
}
fn err64(st: &mut State, e: i32) -> Ret {
    fail_errno(st, e);
    ok(u64::MAX)
}

impl Interp {
    fn arg(&mut self, st: &mut State, v: &[Val], t: Args, i: usize) -> R<u64> {
        match &v[i] {
            Val::C(c) => Ok(*c),
            x => {
                let w = t[i].0.width();
                self.concretize(st, x, w)
            }
        }
    }
    fn fault(&mut self, st: &mut State, bit: u64, call: &'static str, errno: i32) -> R<bool> {
        if st.fault_mask & bit == 0 || st.fault_budget == 0 {
            return Ok(false);
        }
        if st.cursor == st.choices.len() {
            self.stats.fault_points += 1;
        }
        let k = self.choose(st, 2)?;
        let idx = st.fault_idx;
        st.fault_idx += 1;
        if k == 1 {
            st.fault_budget -= 1;
            st.log(Ev::Fault { idx, call, errno });
            fail_errno(st, errno);
            return Ok(true);
        }
        Ok(false)
    }
    fn fd(&self, st: &State, fd: u64) -> Option<u32> {
        st.fs.fds.get(fd as usize).copied().flatten()
    }
    fn split(path: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for c in path.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c.to_string()),
            }
        }
        v
    }
    fn lookup(&self, st: &State, path: &str) -> Result<u32, i32> {
        let mut cur = 0u32;
        for c in Self::split(path) {
            match &st.fs.inodes[cur as usize].dir {
                None => return Err(ENOTDIR),
                Some(d) => match d.get(&c) {
                    Some(i) => cur = *i,
                    None => return Err(ENOENT),
                },
            }
        }
        Ok(cur)
    }
    fn parent(&self, st: &State, path: &str) -> Result<(u32, String), i32> {
        let mut v = Self::split(path);
        let name = v.pop().ok_or(EINVAL)?;
        let p = self.lookup(st, &v.join("/"))?;
        if st.fs.inodes[p as usize].dir.is_none() {
            return Err(ENOTDIR);
        }
        Ok((p, name))
    }
    fn wake(&mut self, st: &mut State, addr: u64, n: u64) -> u64 {
        let mut k = 0;
        for t in st.th.iter_mut() {
            if k < n {
                if let Status::Futex { addr: a, .. } = t.status {
                    if a == addr {
                        t.status = Status::Runnable;
                        t.woken = Some(0);
                        k += 1;
                    }
                }
            }
        }
        k
    }
    fn drop_ofd(&mut self, st: &mut State, o: u32) {
        let of = st.fs.ofds[o as usize].as_mut().unwrap();
        of.refs -= 1;
        if of.refs == 0 {
            let ino = of.inode;
            let had = of.lock != 0;
            st.fs.ofds[o as usize] = None;
            if had {
                self.wake_flock(st, ino);
            }
        }
    }
    fn wake_flock(&mut self, st: &mut State, ino: u32) {
        for t in st.th.iter_mut() {
            if t.status == Status::Flock(ino) {
                t.status = Status::Runnable;
            }
        }
    }
    fn new_fd(&mut self, st: &mut State, o: u32, min: usize) -> u64 {
        while st.fs.fds.len() < 3 {
            st.fs.fds.push(None);
        }
        let mut i = min.max(3);
        loop {
            if i >= st.fs.fds.len() {
                st.fs.fds.resize(i + 1, None);
            }
            if st.fs.fds[i].is_none() {
                st.fs.fds[i] = Some(o);
                return i as u64;
            }
            i += 1;
        }
    }
    fn bytes_concrete(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let b = self.read_mem(st, a, n)?;
        let mut out = b.bytes.clone();
        for (k, e) in &b.sym {
            out[*k as usize] = self.concretize(st, &Val::S(*e), 8)? as u8;
        }
        Ok(out)
    }
    /// bulk store with scheduling and crash points when the target is persistent
    fn bulk(&mut self, st: &mut State, dst: u64, b: Buf) -> R<()> {
        if dst >= MMAP_BASE && !b.bytes.is_empty() {
            self.sched_point(st)?;
            self.map_of(st, dst, b.bytes.len() as u64)?;
            self.crash_point(st, 0)?;
            if b.bytes.len() > 8 && st.crash.is_some() {
                self.stats.crash_points += 1;
                let k = self.choose(st, 2)?;
                if k == 1 {
                    let h = (b.bytes.len() / 2).div_ceil(8) * 8;
                    let half = b.slice(0, h.min(b.bytes.len()));
                    self.write_mem(st, dst, &half)?;
                    let ev = st.ev;
                    st.log(Ev::Crash { ev, sub: 1 });
                    self.do_crash(st)?;
                    return Err(Stop::Resched);
                }
            }
            st.ev += 1;
        }
        self.write_mem(st, dst, &b)
    }
}

// ------------------------------------------------------------------ intrinsics
fn memcpy(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 2)?;
    let d = it.arg(st, v, t, 0)?;
    if n > 0 {
        let s = it.arg(st, v, t, 1)?;
        if n > 64 << 20 {
            return viol("segv", format!("copy of {n} bytes"));
        }
        let b = it.read_mem(st, s, n as usize)?;
        it.bulk(st, d, b)?;
    }
    ok(d)
}
fn memset(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 2)?;
    let d = it.arg(st, v, t, 0)?;
    if n > 0 {
        if n > 64 << 20 {
            return viol("segv", format!("memset of {n} bytes"));
        }
        let b = match &v[1] {
            Val::S(e) => {
                let e8 = x().extract(*e, 0, 8);
                Buf { bytes: vec![0; n as usize], sym: (0..n as u32).map(|i| (i, e8)).collect() }
            }
            c => Buf { bytes: vec![c.c128().unwrap() as u8; n as usize], sym: vec![] },
        };
        it.bulk(st, d, b)?;
    }
    ok(d)
}
fn minmax(v: &[Val], t: Args, max: bool, signed: bool) -> Ret {
    let w = t[0].0.width();
    if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
        let lt = cmp_const(if signed { Pred::Slt } else { Pred::Ult }, w, *a as u128, *b as u128);
        return ok(if lt == max { *b } else { *a });
    }
    let (a, b) = (v[0].e(w), v[1].e(w));
    let lt = x().cmp(if signed { Pred::Slt } else { Pred::Ult }, a, b);
    let r = if max { x().ite(lt, b, a) } else { x().ite(lt, a, b) };
    Ok(Some(Val::of(r)))
}
fn umax(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    minmax(v, t, true, false)
}
fn umin(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    minmax(v, t, false, false)
}
fn smax(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    minmax(v, t, true, true)
}
fn smin(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    minmax(v, t, false, true)
}
fn usub_sat(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let (a, b) = (v[0].e(w), v[1].e(w));
    let ar = x();
    let c = ar.ult(a, b);
    let z = ar.konst(0, w);
    let s = ar.bin(BinOp::Sub, a, b);
    Ok(Some(Val::of(ar.ite(c, z, s))))
}
fn uadd_sat(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let (a, b) = (v[0].e(w), v[1].e(w));
    let ar = x();
    let s = ar.bin(BinOp::Add, a, b);
    let c = ar.ult(s, a);
    let m = ar.konst(mask(w), w);
    Ok(Some(Val::of(ar.ite(c, m, s))))
}
fn ovf(v: &[Val], t: Args, op: BinOp, signed: bool) -> Ret {
    let w = t[0].0.width();
    let ar = x();
    let (a, b) = (v[0].e(w), v[1].e(w));
    let r = ar.bin(op, a, b);
    let ww = (2 * w).min(128);
    let (ea, eb) = if signed { (ar.sext(a, ww), ar.sext(b, ww)) } else { (ar.zext(a, ww), ar.zext(b, ww)) };
    let o = match (op, signed) {
        (BinOp::Sub, false) => ar.ult(a, b),
        (BinOp::Add, false) => ar.ult(r, a),
        _ => {
            let wide = ar.bin(op, ea, eb);
            let back = if signed { ar.sext(r, ww) } else { ar.zext(r, ww) };
            let e = ar.eq(wide, back);
            ar.not(e)
        }
    };
    Ok(Some(Val::A(Rc::new(vec![Val::of(r), Val::of(o)]))))
}
macro_rules! ovf {
    ($n:ident, $op:expr, $s:expr) => {
        fn $n(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
            ovf(v, t, $op, $s)
        }
    };
}
ovf!(uadd_o, BinOp::Add, false);
ovf!(usub_o, BinOp::Sub, false);
ovf!(umul_o, BinOp::Mul, false);
ovf!(sadd_o, BinOp::Add, true);
ovf!(ssub_o, BinOp::Sub, true);
ovf!(smul_o, BinOp::Mul, true);

fn cttz(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    match &v[0] {
        Val::S(e) => {
            for i in 0..w {
                let b = x().extract(*e, i, 1);
                if it.decide(st, b)? {
                    return ok(i as u64);
                }
            }
            ok(w as u64)
        }
        c => ok((c.c128().unwrap().trailing_zeros()).min(w) as u64),
    }
}
fn ctlz(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    match &v[0] {
        Val::S(e) => {
            for i in 0..w {
                let b = x().extract(*e, w - 1 - i, 1);
                if it.decide(st, b)? {
                    return ok(i as u64);
                }
            }
            ok(w as u64)
        }
        c => ok((c.c128().unwrap().leading_zeros() - (128 - w)) as u64),
    }
}
fn ctpop(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    match &v[0] {
        Val::S(e) => {
            let a = x();
            let mut s = a.konst(0, w);
            for i in 0..w {
                let b = a.extract(*e, i, 1);
                let b = a.zext(b, w);
                s = a.bin(BinOp::Add, s, b);
            }
            Ok(Some(Val::of(s)))
        }
        c => ok(c.c128().unwrap().count_ones() as u64),
    }
}
fn bswap(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let a = x();
    let e = v[0].e(w);
    let mut r = a.extract(e, 0, 8);
    for i in 1..w / 8 {
        let b = a.extract(e, i * 8, 8);
        r = a.concat(r, b);
    }
    Ok(Some(Val::of(r)))
}
fn bitreverse(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let a = x();
    let e = v[0].e(w);
    let mut r = a.extract(e, 0, 1);
    for i in 1..w {
        let b = a.extract(e, i, 1);
        r = a.concat(r, b);
    }
    Ok(Some(Val::of(r)))
}
fn fsh(it: &mut Interp, st: &mut State, v: &[Val], t: Args, left: bool) -> Ret {
    let w = t[0].0.width();
    let k = (it.arg(st, v, t, 2)? % w as u64) as u32;
    let a = x();
    let c = a.concat(v[0].e(w), v[1].e(w));
    let lo = if left { w - k } else { k };
    Ok(Some(Val::of(a.extract(c, lo, w))))
}
fn fshl(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    fsh(it, st, v, t, true)
}
fn fshr(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    fsh(it, st, v, t, false)
}
fn abs(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let k = it.arg(st, v, t, 0)?;
    let s = sext(k as u128, w);
    ok(s.unsigned_abs() as u64 & m64(w))
}
fn ucmp(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let a = x();
    let (p, q) = (v[0].e(w), v[1].e(w));
    let lt = a.ult(p, q);
    let gt = a.ult(q, p);
    // result width 8
    let (m1, z, o) = (a.konst(255, 8), a.konst(0, 8), a.konst(1, 8));
    let r = a.ite(gt, o, z);
    Ok(Some(Val::of(a.ite(lt, m1, r))))
}
fn scmp(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let a = x();
    let (p, q) = (v[0].e(w), v[1].e(w));
    let lt = a.cmp(Pred::Slt, p, q);
    let gt = a.cmp(Pred::Slt, q, p);
    let (m1, z, o) = (a.konst(255, 8), a.konst(0, 8), a.konst(1, 8));
    let r = a.ite(gt, o, z);
    Ok(Some(Val::of(a.ite(lt, m1, r))))
}
fn is_constant(_: &mut Interp, _: &mut State, _: &[Val], _: Args) -> Ret {
    ok(0)
}
fn expect1(_: &mut Interp, _: &mut State, v: &[Val], _: Args) -> Ret {
    Ok(Some(v[0].clone()))
}
fn trap(it: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    viol("abort", format!("trap [{}]", it.backtrace(&st.th[st.cur])))
}
fn abort(it: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    viol("abort", format!("{} [{}]", String::from_utf8_lossy(&st.out), it.backtrace(&st.th[st.cur])))
}
fn tls_addr(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let o = it.arg(st, v, t, 0)?;
    ok(st.th[st.cur].tls + o)
}
fn maxnum(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let (a, b) = (flt(it.arg(st, v, t, 0)?, w), flt(it.arg(st, v, t, 1)?, w));
    ok(unflt(a.max(b), w))
}
fn minnum(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let (a, b) = (flt(it.arg(st, v, t, 0)?, w), flt(it.arg(st, v, t, 1)?, w));
    ok(unflt(a.min(b), w))
}
fn f_un(it: &mut Interp, st: &mut State, v: &[Val], t: Args, f: fn(f64) -> f64) -> Ret {
    let w = t[0].0.width();
    let a = flt(it.arg(st, v, t, 0)?, w);
    ok(unflt(f(a), w))
}
fn fptoui_sat32(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    ok(flt(it.arg(st, v, t, 0)?, t[0].0.width()) as u32 as u64)
}
fn fptoui_sat64(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    ok(flt(it.arg(st, v, t, 0)?, t[0].0.width()) as u64)
}
fn reduce_or(_: &mut Interp, _: &mut State, v: &[Val], t: Args) -> Ret {
    let Ty::Vec(_, e) = &t[0].0 else { panic!() };
    let w = e.width();
    let Val::A(k) = &v[0] else { panic!() };
    let mut r = k[0].e(w);
    for y in &k[1..] {
        r = x().bin(BinOp::Or, r, y.e(w));
    }
    Ok(Some(Val::of(r)))
}

// ------------------------------------------------------------------ strings and heap
fn bcmp(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 2)? as usize;
    if n == 0 {
        return ok(0);
    }
    let (p, q) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let (a, b) = (it.read_mem(st, p, n)?, it.read_mem(st, q, n)?);
    if a.sym.is_empty() && b.sym.is_empty() {
        return ok((a.bytes != b.bytes) as u64);
    }
    let ar = x();
    let mut e = ar.t;
    for i in 0..n {
        let k = ar.eq(a.byte(i).e(8), b.byte(i).e(8));
        e = ar.and1(e, k);
        if e == ar.f {
            break;
        }
    }
    let (z, o) = (ar.konst(0, 32), ar.konst(1, 32));
    Ok(Some(Val::of(ar.ite(e, z, o))))
}
fn memcmp(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 2)? as usize;
    if n == 0 {
        return ok(0);
    }
    let (p, q) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let (a, b) = (it.read_mem(st, p, n)?, it.read_mem(st, q, n)?);
    if a.sym.is_empty() && b.sym.is_empty() {
        return ok(match a.bytes.cmp(&b.bytes) {
            std::cmp::Ordering::Less => 0xffff_ffff,
            std::cmp::Ordering::Equal => 0,
            _ => 1,
        });
    }
    let ar = x();
    let (z, o, m) = (ar.konst(0, 32), ar.konst(1, 32), ar.konst(0xffff_ffff, 32));
    let mut r = z;
    for i in (0..n).rev() {
        let (p, q) = (a.byte(i).e(8), b.byte(i).e(8));
        let eq = ar.eq(p, q);
        let lt = ar.ult(p, q);
        let s = ar.ite(lt, m, o);
        r = ar.ite(eq, r, s);
    }
    Ok(Some(Val::of(r)))
}
fn strlen(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let s = it.cstr(st, p)?;
    ok(s.len() as u64)
}
fn do_alloc(st: &mut State, n: u64, al: u64) -> Ret {
    if n > 64 << 20 {
        return ok(0);
    }
    match st.mem.alloc(n, al) {
        Some(a) => ok(a),
        None => Err(Stop::Internal("modelled heap exhausted".into())),
    }
}
fn malloc(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 0)?;
    do_alloc(st, n, 16)
}
fn calloc(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 0)?;
    let k = it.arg(st, v, t, 1)?;
    do_alloc(st, n * k, 16)
}
fn realloc(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let n = it.arg(st, v, t, 1)?;
    let r = do_alloc(st, n, 16)?;
    if p != 0 {
        if let Some(Val::C(q)) = &r {
            let k = st.mem.alloc_size(p).min(n);
            let b = st.mem.read(p, k as usize);
            st.mem.write(*q, &b);
        }
    }
    Ok(r)
}
fn posix_memalign(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let al = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    if let Some(Val::C(a)) = do_alloc(st, n, al)? {
        it.store(st, &Ty::Int(64), &Val::C(a), p)?;
    }
    ok(0)
}
fn errno_loc(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    ok(st.th[st.cur].errno)
}
fn strerror_r(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 1)?;
    it.write_mem(st, p, &Buf { bytes: b"os error\0".to_vec(), sym: vec![] })?;
    ok(0)
}

// ------------------------------------------------------------------ files
fn open(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let path = it.cstr(st, p)?;
    let fl = it.arg(st, v, t, 1)?;
    it.sched_point(st)?;
    let found = it.lookup(st, &path);
    let creating = found.is_err() && fl & 0x40 != 0;
    let trunc = found.is_ok() && fl & 0x200 != 0;
    if creating || trunc {
        it.crash_point(st, 0)?;
    }
    if it.fault(st, F_OPEN, "open", EIO)? {
        return ok(0xffff_ffff);
    }
    let ino = match found {
        Ok(i) => {
            if fl & 0x40 != 0 && fl & 0x80 != 0 {
                return err32(st, EEXIST);
            }
            if st.fs.inodes[i as usize].dir.is_some() && fl & 3 != 0 {
                return err32(st, EISDIR);
            }
            if trunc {
                st.ev += 1;
                let n = Rc::make_mut(&mut st.fs.inodes[i as usize]);
                n.data = Sparse::default();
                n.size = 0;
                n.dirty = true;
            }
            i
        }
        Err(e) => {
            if fl & 0x40 == 0 {
                return err32(st, e);
            }
            let (par, name) = match it.parent(st, &path) {
                Ok(x) => x,
                Err(e) => return err32(st, e),
            };
            st.ev += 1;
            let i = st.fs.inodes.len() as u32;
            st.fs.inodes.push(Rc::new(Inode { nlink: 1, dirty: true, ..Default::default() }));
            Rc::make_mut(&mut st.fs.inodes[par as usize]).dir.as_mut().unwrap().insert(name, i);
            i
        }
    };
    let o = st.fs.ofds.len() as u32;
    st.fs.ofds.push(Some(Ofd { inode: ino, pos: 0, refs: 1, lock: 0, append: fl & 0x400 != 0 }));
    let fd = it.new_fd(st, o, 3);
    ok(fd)
}
fn close(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    match it.fd(st, fd) {
        Some(o) => {
            st.fs.fds[fd as usize] = None;
            it.drop_ofd(st, o);
            ok(0)
        }
        None => err32(st, EBADF),
    }
}
fn dup_fd(it: &mut Interp, st: &mut State, fd: u64, min: usize) -> Ret {
    match it.fd(st, fd) {
        Some(o) => {
            st.fs.ofds[o as usize].as_mut().unwrap().refs += 1;
            let f = it.new_fd(st, o, min);
            ok(f)
        }
        None => err32(st, EBADF),
    }
}
fn dup(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    dup_fd(it, st, fd, 3)
}
fn fcntl(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    match it.arg(st, v, t, 1)? {
        0 | 1030 => {
            let m = it.arg(st, v, t, 2)?;
            dup_fd(it, st, fd, m as usize)
        }
        1 | 2 | 3 | 4 => {
            if fd >= 3 && it.fd(st, fd).is_none() {
                return err32(st, EBADF);
            }
            ok(0)
        }
        c => Err(Stop::Internal(format!("fcntl {c}"))),
    }
}
fn mkdir(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let path = it.cstr(st, p)?;
    if it.lookup(st, &path).is_ok() {
        return err32(st, EEXIST);
    }
    it.crash_point(st, 0)?;
    let (par, name) = match it.parent(st, &path) {
        Ok(x) => x,
        Err(e) => return err32(st, e),
    };
    st.ev += 1;
    let i = st.fs.inodes.len() as u32;
    st.fs.inodes.push(Rc::new(Inode { nlink: 1, dir: Some(BTreeMap::new()), ..Default::default() }));
    Rc::make_mut(&mut st.fs.inodes[par as usize]).dir.as_mut().unwrap().insert(name, i);
    ok(0)
}
fn unlink(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let path = it.cstr(st, p)?;
    it.sched_point(st)?;
    let i = match it.lookup(st, &path) {
        Ok(i) => i,
        Err(e) => return err32(st, e),
    };
    if st.fs.inodes[i as usize].dir.is_some() {
        return err32(st, EISDIR);
    }
    it.crash_point(st, 0)?;
    if it.fault(st, F_UNLINK, "unlink", EIO)? {
        return ok(0xffff_ffff);
    }
    let (par, name) = it.parent(st, &path).unwrap();
    st.ev += 1;
    Rc::make_mut(&mut st.fs.inodes[par as usize]).dir.as_mut().unwrap().remove(&name);
    Rc::make_mut(&mut st.fs.inodes[i as usize]).nlink -= 1;
    ok(0)
}
fn rename(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (p, q) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let (a, b) = (it.cstr(st, p)?, it.cstr(st, q)?);
    it.sched_point(st)?;
    let i = match it.lookup(st, &a) {
        Ok(i) => i,
        Err(e) => return err32(st, e),
    };
    it.crash_point(st, 0)?;
    if it.fault(st, F_RENAME, "rename", EIO)? {
        return ok(0xffff_ffff);
    }
    let (pa, na) = it.parent(st, &a).unwrap();
    let (pb, nb) = match it.parent(st, &b) {
        Ok(x) => x,
        Err(e) => return err32(st, e),
    };
    st.ev += 1;
    Rc::make_mut(&mut st.fs.inodes[pa as usize]).dir.as_mut().unwrap().remove(&na);
    let old = Rc::make_mut(&mut st.fs.inodes[pb as usize]).dir.as_mut().unwrap().insert(nb, i);
    if let Some(o) = old {
        if o != i {
            Rc::make_mut(&mut st.fs.inodes[o as usize]).nlink -= 1;
        }
    }
    ok(0)
}
fn ftruncate(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let n = it.arg(st, v, t, 1)?;
    it.sched_point(st)?;
    let Some(o) = it.fd(st, fd) else { return err32(st, EBADF) };
    if n as i64 > 1 << 40 || (n as i64) < 0 {
        return err32(st, EINVAL);
    }
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    if st.fs.inodes[ino as usize].size != n {
        it.crash_point(st, 0)?;
    }
    if it.fault(st, F_TRUNC, "ftruncate", ENOSPC)? {
        return ok(0xffff_ffff);
    }
    let i = Rc::make_mut(&mut st.fs.inodes[ino as usize]);
    if i.size != n {
        st.ev += 1;
        if n < i.size {
            i.data.truncate(n);
        }
        i.size = n;
        i.dirty = true;
    }
    ok(0)
}
fn posix_fallocate(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let off = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    let Some(o) = it.fd(st, fd) else { return ok(EBADF as u64) };
    it.crash_point(st, 0)?;
    if it.fault(st, F_TRUNC, "posix_fallocate", ENOSPC)? {
        return ok(ENOSPC as u64);
    }
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    let i = Rc::make_mut(&mut st.fs.inodes[ino as usize]);
    st.ev += 1;
    i.size = i.size.max(off + n);
    i.dirty = true;
    ok(0)
}
fn fsync(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    it.sched_point(st)?;
    let Some(o) = it.fd(st, fd) else { return err32(st, EBADF) };
    if it.fault(st, F_SYNC, "fsync", EIO)? {
        return ok(0xffff_ffff);
    }
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    let i = Rc::make_mut(&mut st.fs.inodes[ino as usize]);
    i.dirty = false;
    if st.keep_synced {
        i.synced = Some(Rc::new((i.data.clone(), i.size)));
    }
    ok(0)
}
fn write_at(it: &mut Interp, st: &mut State, o: u32, a: u64, n: u64, off: u64) -> Ret {
    it.sched_point(st)?;
    if n > 0 {
        it.crash_point(st, 0)?;
    }
    if it.fault(st, F_WRITE, "write", ENOSPC)? {
        return ok(u64::MAX);
    }
    if n > 64 << 20 {
        return err64(st, EINVAL);
    }
    let b = it.read_mem(st, a, n as usize)?;
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    let i = Rc::make_mut(&mut st.fs.inodes[ino as usize]);
    if n > 0 {
        st.ev += 1;
        i.data.write(off, &b);
        i.size = i.size.max(off + n);
        i.dirty = true;
    }
    ok(n)
}
fn pwrite(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    let off = it.arg(st, v, t, 3)?;
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    write_at(it, st, o, a, n, off)
}
fn write(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    if fd == 1 || fd == 2 {
        let b = it.read_mem(st, a, n as usize)?;
        let out = Rc::make_mut(&mut st.out);
        if out.len() < 4000 {
            out.extend_from_slice(&b.bytes);
        }
        return ok(n);
    }
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    let of = st.fs.ofds[o as usize].as_ref().unwrap();
    let pos = if of.append { st.fs.inodes[of.inode as usize].size } else { of.pos };
    let r = write_at(it, st, o, a, n, pos)?;
    if let Some(Val::C(k)) = r {
        if k != u64::MAX {
            st.fs.ofds[o as usize].as_mut().unwrap().pos = pos + k;
        }
    }
    Ok(r)
}
fn writev(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    if fd != 1 && fd != 2 {
        return Err(Stop::Internal("writev to a file".into()));
    }
    let mut tot = 0;
    for i in 0..n {
        let b = it.read_mem(st, a + 16 * i, 16)?;
        let (p, l) = (rd(&b.bytes[0..8]), rd(&b.bytes[8..16]));
        let d = it.read_mem(st, p, l as usize)?;
        Rc::make_mut(&mut st.out).extend_from_slice(&d.bytes);
        tot += l;
    }
    ok(tot)
}
fn read_at(it: &mut Interp, st: &mut State, o: u32, a: u64, n: u64, off: u64) -> Ret {
    if st.pflags & 8 != 0 {
        it.sched_point(st)?;
    }
    if it.fault(st, F_READ, "read", EIO)? {
        return ok(u64::MAX);
    }
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    let i = st.fs.inodes[ino as usize].clone();
    if i.dir.is_some() {
        return err64(st, EISDIR);
    }
    let k = i.size.saturating_sub(off).min(n);
    let mut b = Buf::default();
    i.data.read(off, k as usize, &mut b);
    it.write_mem(st, a, &b)?;
    ok(k)
}
fn pread(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    let off = it.arg(st, v, t, 3)?;
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    if (off as i64) < 0 {
        return err64(st, EINVAL);
    }
    read_at(it, st, o, a, n, off)
}
fn read(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let n = it.arg(st, v, t, 2)?;
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    let pos = st.fs.ofds[o as usize].as_ref().unwrap().pos;
    let r = read_at(it, st, o, a, n, pos)?;
    if let Some(Val::C(k)) = r {
        if k != u64::MAX {
            st.fs.ofds[o as usize].as_mut().unwrap().pos = pos + k;
        }
    }
    Ok(r)
}
fn lseek(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let off = it.arg(st, v, t, 1)?;
    let wh = it.arg(st, v, t, 2)?;
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    let of = st.fs.ofds[o as usize].as_ref().unwrap();
    let base = match wh {
        0 => 0,
        1 => of.pos,
        2 => st.fs.inodes[of.inode as usize].size,
        _ => return err64(st, EINVAL),
    };
    let p = base.wrapping_add(off);
    if (p as i64) < 0 {
        return err64(st, EINVAL);
    }
    st.fs.ofds[o as usize].as_mut().unwrap().pos = p;
    ok(p)
}
fn put_stat(it: &mut Interp, st: &mut State, ino: u32, a: u64) -> R<()> {
    let i = &st.fs.inodes[ino as usize];
    let mut b = vec![0u8; 144];
    b[8..16].copy_from_slice(&(ino as u64 + 1).to_le_bytes());
    b[16..24].copy_from_slice(&(i.nlink as u64).to_le_bytes());
    let mode: u32 = if i.dir.is_some() { 0o040755 } else { 0o100644 };
    b[24..28].copy_from_slice(&mode.to_le_bytes());
    b[48..56].copy_from_slice(&i.size.to_le_bytes());
    b[56..64].copy_from_slice(&4096u64.to_le_bytes());
    it.write_mem(st, a, &Buf { bytes: b, sym: vec![] })
}
fn fstat(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let Some(o) = it.fd(st, fd) else { return err32(st, EBADF) };
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    put_stat(it, st, ino, a)?;
    ok(0)
}
fn stat(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let a = it.arg(st, v, t, 1)?;
    let path = it.cstr(st, p)?;
    it.sched_point(st)?;
    match it.lookup(st, &path) {
        Ok(i) => {
            put_stat(it, st, i, a)?;
            ok(0)
        }
        Err(e) => err32(st, e),
    }
}
fn fstatat(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 1)?;
    let a = it.arg(st, v, t, 2)?;
    let mut path = it.cstr(st, p)?;
    if !path.starts_with('/') {
        let fd = it.arg(st, v, t, 0)?;
        let Some(o) = it.fd(st, fd) else { return err32(st, EBADF) };
        let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
        match st.fs.inodes[ino as usize].dir.as_ref().and_then(|d| d.get(&path)) {
            Some(i) => {
                let i = *i;
                put_stat(it, st, i, a)?;
                return ok(0);
            }
            None => path = String::from("/nonexistent/x"),
        }
    }
    match it.lookup(st, &path) {
        Ok(i) => {
            put_stat(it, st, i, a)?;
            ok(0)
        }
        Err(e) => err32(st, e),
    }
}
fn opendir(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let path = it.cstr(st, p)?;
    it.sched_point(st)?;
    let i = match it.lookup(st, &path) {
        Ok(i) => i,
        Err(e) => {
            fail_errno(st, e);
            return ok(0);
        }
    };
    let Some(d) = st.fs.inodes[i as usize].dir.clone() else {
        fail_errno(st, ENOTDIR);
        return ok(0);
    };
    let rev = if st.pflags & 16 != 0 { it.choose(st, 2)? == 1 } else { false };
    let mut ents: Vec<(String, bool)> = vec![(".".into(), true), ("..".into(), true)];
    let rest: Vec<(String, bool)> = d.iter().map(|(k, i)| (k.clone(), st.fs.inodes[*i as usize].dir.is_some())).collect();
    if rev {
        ents.extend(rest.into_iter().rev());
    } else {
        ents.extend(rest);
    }
    let o = st.fs.ofds.len() as u32;
    st.fs.ofds.push(Some(Ofd { inode: i, pos: 0, refs: 1, lock: 0, append: false }));
    let fd = it.new_fd(st, o, 3);
    let buf = st.mem.alloc(320, 16).unwrap();
    st.mem.store_fast(buf, 8, st.fs.dirs.len() as u64);
    st.fs.dirs.push(Some((Rc::new(ents), 0, buf + 16, fd as i32)));
    ok(buf)
}
fn dir_of(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> R<usize> {
    let p = it.arg(st, v, t, 0)?;
    Ok(st.mem.load_fast(p, 8).unwrap() as usize)
}
fn readdir(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let d = dir_of(it, st, v, t)?;
    let (ents, pos, buf, _) = st.fs.dirs[d].as_mut().unwrap();
    if *pos >= ents.len() {
        return ok(0);
    }
    let (name, isdir) = ents[*pos].clone();
    *pos += 1;
    let buf = *buf;
    let mut b = vec![0u8; 20 + name.len()];
    b[0] = 1;
    b[16..18].copy_from_slice(&(((19 + name.len() + 1).div_ceil(8) * 8) as u16).to_le_bytes());
    b[18] = if isdir { 4 } else { 8 };
    b[19..19 + name.len()].copy_from_slice(name.as_bytes());
    st.mem.write(buf, &Buf { bytes: b, sym: vec![] });
    ok(buf)
}
fn closedir(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let d = dir_of(it, st, v, t)?;
    if let Some((_, _, _, fd)) = st.fs.dirs[d].take() {
        if let Some(o) = it.fd(st, fd as u64) {
            st.fs.fds[fd as usize] = None;
            it.drop_ofd(st, o);
        }
    }
    ok(0)
}
fn dirfd(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let d = dir_of(it, st, v, t)?;
    ok(st.fs.dirs[d].as_ref().unwrap().3 as u64)
}
fn flock(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let fd = it.arg(st, v, t, 0)?;
    let op = it.arg(st, v, t, 1)?;
    it.sched_point(st)?;
    let Some(o) = it.fd(st, fd) else { return err32(st, EBADF) };
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    let want = match op & !4 {
        1 => 1u8,
        2 => 2,
        8 => {
            st.fs.ofds[o as usize].as_mut().unwrap().lock = 0;
            it.wake_flock(st, ino);
            return ok(0);
        }
        _ => return err32(st, EINVAL),
    };
    for (i, of) in st.fs.ofds.iter().enumerate() {
        if let Some(of) = of {
            if i as u32 != o && of.inode == ino && of.lock != 0 && (want == 2 || of.lock == 2) {
                if op & 4 != 0 {
                    return err32(st, EAGAIN);
                }
                let c = st.cur;
                st.th[c].status = Status::Flock(ino);
                return Err(Stop::Block);
            }
        }
    }
    st.fs.ofds[o as usize].as_mut().unwrap().lock = want;
    ok(0)
}
fn mmap(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let len = it.arg(st, v, t, 1)?;
    let flags = it.arg(st, v, t, 3)?;
    let fd = it.arg(st, v, t, 4)?;
    let off = it.arg(st, v, t, 5)?;
    if flags & 0x20 != 0 {
        return do_alloc(st, len, 4096);
    }
    if off != 0 {
        return Err(Stop::Internal("mmap offset".into()));
    }
    if len == 0 {
        return err64(st, EINVAL);
    }
    if it.fault(st, F_MMAP, "mmap", 12)? {
        return ok(u64::MAX);
    }
    let Some(o) = it.fd(st, fd) else { return err64(st, EBADF) };
    let ino = st.fs.ofds[o as usize].as_ref().unwrap().inode;
    if len > MMAP_SLOT {
        return Err(Stop::Internal("mmap too large".into()));
    }
    let s = st.mem.maps.len() as u64;
    st.mem.maps.push(Mapping { inode: ino, len, live: true });
    ok(MMAP_BASE + s * MMAP_SLOT)
}
fn munmap(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let a = it.arg(st, v, t, 0)?;
    if a >= MMAP_BASE {
        let s = ((a - MMAP_BASE) / MMAP_SLOT) as usize;
        st.mem.maps[s].live = false;
    }
    ok(0)
}
fn realpath(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let q = it.arg(st, v, t, 1)?;
    let path = it.cstr(st, p)?;
    if let Err(e) = it.lookup(st, &path) {
        fail_errno(st, e);
        return ok(0);
    }
    let mut s = format!("/{}", Interp::split(&path).join("/")).into_bytes();
    s.push(0);
    let a = if q == 0 { st.mem.alloc(s.len() as u64, 16).unwrap() } else { q };
    it.write_mem(st, a, &Buf { bytes: s, sym: vec![] })?;
    ok(a)
}

// ------------------------------------------------------------------ threads, time
fn pthread_create(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    let f = it.arg(st, v, t, 2)?;
    let fid = it.func_at(f)?;
    let id = it.spawn(st, fid, vec![v[3].clone()]);
    it.store(st, &Ty::Int(64), &Val::C(id as u64 + 1), p)?;
    ok(0)
}
fn pthread_join(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let k = it.arg(st, v, t, 0)? as usize - 1;
    if st.th[k].status == Status::Done {
        return ok(0);
    }
    let c = st.cur;
    st.th[c].status = Status::Join(k);
    Err(Stop::Block)
}
fn pthread_self(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    ok(st.cur as u64 + 1)
}
fn pthread_key_create(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 0)?;
    st.clock += 1;
    it.store(st, &Ty::Int(32), &Val::C(1), p)?;
    ok(0)
}
fn sched_yield(it: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    let c = st.cur;
    // marked by `woken`: second execution of the same call returns
    if st.th[c].woken.take().is_some() {
        return ok(0);
    }
    let others: Vec<usize> = Interp::runnable(st).into_iter().filter(|k| *k != c).collect();
    if others.is_empty() {
        st.th[c].yields += 1;
        if st.th[c].yields > it.cfg.yield_limit && !st.th.iter().any(|t| matches!(t.status, Status::Futex { timed: true, .. } | Status::Idle)) {
            return viol("deadlock", format!("livelock: thread {c} spins and nobody else can run [{}]", it.backtrace(&st.th[c])));
        }
        return ok(0);
    }
    let y = st.th[c].yields + 1;
    st.th[c].woken = Some(0);
    let next = others.iter().copied().find(|k| *k > c).unwrap_or(others[0]);
    let point = st.th[c].points;
    st.log(Ev::Switch { from: c, point, to: next, forced: true });
    st.cur = next;
    st.th[c].yields = y;
    st.choices.clear();
    st.cursor = 0;
    Err(Stop::Resched)
}
fn clock_gettime(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let p = it.arg(st, v, t, 1)?;
    st.clock += 1000;
    let c = st.clock;
    it.store(st, &Ty::Int(64), &Val::C(1_000_000 + c / 1_000_000_000), p)?;
    it.store(st, &Ty::Int(64), &Val::C(c % 1_000_000_000), p + 8)?;
    ok(0)
}
fn nanosleep(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    st.clock += 1_000_000;
    sched_yield(it, st, v, t)
}
fn futex(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let a = it.arg(st, v, t, 1)?;
    let op = it.arg(st, v, t, 2)? & 0x7f;
    let c = st.cur;
    match op {
        0 | 9 => {
            if let Some(w) = st.th[c].woken.take() {
                if w == 0 {
                    return ok(0);
                }
                return err64(st, -w);
            }
            let want = it.arg(st, v, t, 3)? as u32;
            let timeout = if v.len() > 4 { it.arg(st, v, t, 4)? } else { 0 };
            it.sched_point(st)?;
            let cur = it.load(st, &Ty::Int(32), a)?;
            let cur = it.concretize(st, &cur, 32)? as u32;
            if cur != want {
                return err64(st, EAGAIN);
            }
            st.th[c].status = Status::Futex { addr: a, timed: timeout != 0 };
            Err(Stop::Block)
        }
        1 | 10 => {
            let n = it.arg(st, v, t, 3)? as u32 as u64;
            it.sched_point(st)?;
            let k = it.wake(st, a, n);
            ok(k)
        }
        _ => Err(Stop::Internal(format!("futex op {op}"))),
    }
}
fn syscall(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    match it.arg(st, v, t, 0)? {
        202 => futex(it, st, v, t),
        186 => ok(st.cur as u64 + 100),
        318 => {
            let p = it.arg(st, v, t, 1)?;
            let n = it.arg(st, v, t, 2)?;
            let b = Buf { bytes: (0..n).map(|i| (i * 37 + 11) as u8).collect(), sym: vec![] };
            it.write_mem(st, p, &b)?;
            ok(n)
        }
        332 => err64(st, ENOSYS),
        n => Err(Stop::Internal(format!("syscall {n}"))),
    }
}
fn sysconf(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    match it.arg(st, v, t, 0)? {
        30 => ok(4096),
        83 | 84 => ok(1),
        75 => ok(16384),
        _ => ok(u64::MAX),
    }
}
fn getpid(_: &mut Interp, _: &mut State, _: &[Val], _: Args) -> Ret {
    ok(4242)
}
fn enoent_ptr(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    fail_errno(st, ENOENT);
    ok(0)
}
fn enosys32(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    err32(st, ENOSYS)
}

// ------------------------------------------------------------------ harness interface
fn tag(it: &mut Interp, st: &mut State, a: u64, n: u64) -> R<String> {
    let b = it.read_mem(st, a, n as usize)?;
    Ok(String::from_utf8_lossy(&b.bytes).into_owned())
}
fn vs_choice(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let n = it.arg(st, v, t, 0)? as u32;
    let (a, l) = (it.arg(st, v, t, 1)?, it.arg(st, v, t, 2)?);
    let tg = tag(it, st, a, l)?;
    let k = it.choose(st, n)?;
    let th = st.cur;
    st.log(Ev::Choice { th, n, v: k, tag: tg });
    ok(k as u64)
}
fn vs_sym(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (p, n) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let (a, l) = (it.arg(st, v, t, 2)?, it.arg(st, v, t, 3)?);
    let tg = tag(it, st, a, l)?;
    let first = st.syms.len() as u32;
    let mut b = Buf { bytes: vec![0; n as usize], sym: vec![] };
    for i in 0..n as u32 {
        let e = st.fresh(8, &tg, 0);
        b.sym.push((i, e));
    }
    it.write_mem(st, p, &b)?;
    let th = st.cur;
    st.log(Ev::Sym { th, first, count: n as u32, w: 8, tag: tg });
    Ok(None)
}
/// a symbolic integer in lo..=hi
fn vs_range(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (lo, hi) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let (a, l) = (it.arg(st, v, t, 2)?, it.arg(st, v, t, 3)?);
    let tg = tag(it, st, a, l)?;
    let first = st.syms.len() as u32;
    let w = (64 - hi.leading_zeros()).max(1);
    let e = st.fresh(w, &tg, lo as u128);
    let ar = x();
    let z = ar.zext(e, 64);
    let (kl, kh) = (ar.konst(lo as u128, 64), ar.konst(hi as u128, 64));
    let c1 = ar.cmp(Pred::Uge, z, kl);
    let c2 = ar.cmp(Pred::Ule, z, kh);
    it.assume(st, c1)?;
    it.assume(st, c2)?;
    let th = st.cur;
    st.log(Ev::Sym { th, first, count: 1, w, tag: tg });
    Ok(Some(Val::of(z)))
}
fn vs_assume(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let e = x().extract(v[0].e(w), 0, 1);
    it.assume(st, e)?;
    Ok(None)
}
fn vs_assert(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let w = t[0].0.width();
    let e = x().extract(v[0].e(w), 0, 1);
    let (a, l) = (it.arg(st, v, t, 1)?, it.arg(st, v, t, 2)?);
    let m = tag(it, st, a, l)?;
    it.assert(st, e, || m.clone())?;
    Ok(None)
}
fn vs_cover(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let k = it.arg(st, v, t, 0)?;
    it.covers |= 1u128 << (k & 127);
    Ok(None)
}
fn vs_concretize(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let k = it.arg(st, v, t, 0)?;
    ok(k)
}
fn fnv(b: &[u8], mut h: u64) -> u64 {
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 31)
}
fn vs_hash(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (p, n, out) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)? as usize, it.arg(st, v, t, 2)?);
    let data = it.read_mem(st, p, n)?;
    let recs = st.hashes.clone();
    let mut found = None;
    for r in recs.iter() {
        if r.data.bytes.len() != n {
            continue;
        }
        if data.sym.is_empty() && r.data.sym.is_empty() {
            if data.bytes == r.data.bytes {
                found = Some(r.clone());
                break;
            }
            continue;
        }
        let a = x();
        let mut e = a.t;
        for i in 0..n {
            let k = a.eq(data.byte(i).e(8), r.data.byte(i).e(8));
            e = a.and1(e, k);
            if e == a.f {
                break;
            }
        }
        if it.decide(st, e)? {
            found = Some(r.clone());
            break;
        }
    }
    let r = match found {
        Some(r) => r,
        None => {
            let ns = data.bytes.last().copied().unwrap_or(0) as usize & 15;
            let pol = st.policies.get(ns).copied().unwrap_or(Policy { sym: 0, and: !0, or: 0 });
            let base = (fnv(&data.bytes, 0xcbf29ce484222325) & !pol.sym & pol.and) | (pol.or & !pol.sym);
            let h2 = fnv(&data.bytes, 0x84222325cbf29ce4) | 1;
            let h1 = if pol.sym == 0 {
                Val::C(base)
            } else {
                let first = st.syms.len() as u32;
                let mut i = 0;
                let mut acc: Option<E> = None;
                while i < 64 {
                    let s = pol.sym >> i & 1;
                    let mut j = i;
                    while j < 64 && pol.sym >> j & 1 == s {
                        j += 1;
                    }
                    let w = j - i;
                    let e = if s == 1 { st.fresh(w, "hash", 0) } else { x().konst((base >> i) as u128 & mask(w), w) };
                    acc = Some(match acc {
                        None => e,
                        Some(a) => x().concat(e, a),
                    });
                    i = j;
                }
                let _ = first;
                Val::of(acc.unwrap())
            };
            let r = HashRec { data, h1, h2: Val::C(h2) };
            Rc::make_mut(&mut st.hashes).push(r.clone());
            r
        }
    };
    it.store(st, &Ty::Int(64), &r.h1, out)?;
    it.store(st, &Ty::Int(64), &r.h2, out + 8)?;
    Ok(None)
}
fn vs_hash_policy(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let ns = it.arg(st, v, t, 0)? as usize & 15;
    let p = Policy { sym: it.arg(st, v, t, 1)?, and: it.arg(st, v, t, 2)?, or: it.arg(st, v, t, 3)? };
    let ps = Rc::make_mut(&mut st.policies);
    if ps.len() < 16 {
        ps.resize(16, Policy { sym: 0, and: !0, or: 0 });
    }
    ps[ns] = p;
    Ok(None)
}
fn vs_preempt(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    st.budget = it.arg(st, v, t, 0)? as u32;
    st.pflags = it.arg(st, v, t, 1)?;
    Ok(None)
}
fn vs_crash_begin(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let recover = it.arg(st, v, t, 0)?;
    let flags = it.arg(st, v, t, 1)?;
    st.crash = Some(CrashScope { recover, flags });
    st.keep_synced |= flags & 1 != 0;
    st.ev = 0;
    Ok(None)
}
fn vs_crash_end(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    st.crash = None;
    Ok(None)
}
/// crash right here
fn vs_crash_now(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let recover = it.arg(st, v, t, 0)?;
    let flags = it.arg(st, v, t, 1)?;
    st.crash = Some(CrashScope { recover, flags });
    st.log(Ev::Crash { ev: u64::MAX, sub: 0 });
    it.do_crash(st)?;
    Err(Stop::Resched)
}
fn vs_stash(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (s, p, n) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?, it.arg(st, v, t, 2)?);
    let b = it.read_mem(st, p, n as usize)?;
    Rc::make_mut(&mut st.stash).insert(s, b);
    Ok(None)
}
fn vs_unstash(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (s, p, n) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?, it.arg(st, v, t, 2)?);
    let Some(b) = st.stash.get(&s).cloned() else { return ok(u64::MAX) };
    let l = b.bytes.len().min(n as usize);
    let part = b.slice(0, l);
    it.write_mem(st, p, &part)?;
    ok(b.bytes.len() as u64)
}
fn vs_fault_begin(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    st.fault_mask = it.arg(st, v, t, 0)?;
    st.fault_budget = it.arg(st, v, t, 1)? as u32;
    st.fault_idx = 0;
    Ok(None)
}
/// returns the number of injected faults
fn vs_fault_end(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    st.fault_mask = 0;
    ok(st.fault_budget as u64)
}
/// from now on remember what was synced
fn vs_power(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    st.keep_synced = true;
    Ok(None)
}
fn vs_dirty(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    let n = st.fs.inodes.iter().filter(|i| i.nlink > 0 && i.dir.is_none() && i.dirty).count();
    ok(n as u64)
}
fn vs_run_others(_: &mut Interp, st: &mut State, _: &[Val], _: Args) -> Ret {
    let c = st.cur;
    if st.th[c].woken.take().is_some() {
        return Ok(None);
    }
    if Interp::runnable(st).iter().all(|k| *k == c) {
        return Ok(None);
    }
    st.th[c].status = Status::Idle;
    Err(Stop::Block)
}
fn vs_note(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (p, n) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?);
    let b = it.read_mem(st, p, n as usize)?;
    let s = String::from_utf8_lossy(&b.bytes).into_owned();
    if it.cfg.debug {
        eprintln!("[note] {s}");
    }
    st.log(Ev::Note(s));
    Ok(None)
}
fn vs_param(it: &mut Interp, st: &mut State, v: &[Val], t: Args) -> Ret {
    let (p, n, d) = (it.arg(st, v, t, 0)?, it.arg(st, v, t, 1)?, it.arg(st, v, t, 2)?);
    let b = it.read_mem(st, p, n as usize)?;
    let s = String::from_utf8_lossy(&b.bytes).into_owned();
    ok(it.cfg.params.get(&s).copied().unwrap_or(d))
}
fn vs_is_native(_: &mut Interp, _: &mut State, _: &[Val], _: Args) -> Ret {
    ok(0)
}

pub fn table(m: &Module) -> Vec<Option<Ext>> {
    m.funcs.iter().map(|f| if f.span.is_some() { None } else { ext(&f.name) }).collect()
}
fn ext(n: &str) -> Option<Ext> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let has = |p: &str| r == p || (r.starts_with(p) && r.as_bytes().get(p.len()) == Some(&b'.'));
        let list: &[(&str, Ext)] = &[
            ("memcpy", memcpy),
            ("memmove", memcpy),
            ("memset", memset),
            ("umax", umax),
            ("umin", umin),
            ("smax", smax),
            ("smin", smin),
            ("usub.sat", usub_sat),
            ("uadd.sat", uadd_sat),
            ("uadd.with.overflow", uadd_o),
            ("usub.with.overflow", usub_o),
            ("umul.with.overflow", umul_o),
            ("sadd.with.overflow", sadd_o),
            ("ssub.with.overflow", ssub_o),
            ("smul.with.overflow", smul_o),
            ("cttz", cttz),
            ("ctlz", ctlz),
            ("ctpop", ctpop),
            ("bswap", bswap),
            ("bitreverse", bitreverse),
            ("fshl", fshl),
            ("fshr", fshr),
            ("abs", abs),
            ("ucmp", ucmp),
            ("scmp", scmp),
            ("is.constant", is_constant),
            ("expect", expect1),
            ("trap", trap),
            ("threadlocal.address", tls_addr),
            ("x86.sse2.pause", nop),
            ("maximumnum", maxnum),
            ("maxnum", maxnum),
            ("minnum", minnum),
            ("minimumnum", minnum),
            ("floor", |a, b, c, d| f_un(a, b, c, d, f64::floor)),
            ("ceil", |a, b, c, d| f_un(a, b, c, d, f64::ceil)),
            ("sqrt", |a, b, c, d| f_un(a, b, c, d, f64::sqrt)),
            ("fabs", |a, b, c, d| f_un(a, b, c, d, f64::abs)),
            ("fptoui.sat.i32", fptoui_sat32),
            ("fptoui.sat.i64", fptoui_sat64),
            ("vector.reduce.or", reduce_or),
        ];
        return list.iter().find(|p| has(p.0)).map(|p| p.1);
    }
    let e: Ext = match n {
        "memcpy" | "memmove" => memcpy,
        "memset" => memset,
        "bcmp" => bcmp,
        "memcmp" => memcmp,
        "strlen" => strlen,
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "free" => nop,
        "posix_memalign" => posix_memalign,
        "__errno_location" => errno_loc,
        "__xpg_strerror_r" => strerror_r,
        "abort" => abort,
        "open" | "open64" => open,
        "close" => close,
        "dup" => dup,
        "fcntl" => fcntl,
        "mkdir" => mkdir,
        "unlink" => unlink,
        "rename" => rename,
        "ftruncate" | "ftruncate64" => ftruncate,
        "posix_fallocate" => posix_fallocate,
        "fsync" | "fdatasync" => fsync,
        "pwrite64" => pwrite,
        "write" => write,
        "writev" => writev,
        "pread64" => pread,
        "read" => read,
        "lseek" | "lseek64" => lseek,
        "fstat64" => fstat,
        "stat64" | "lstat64" => stat,
        "fstatat64" => fstatat,
        "opendir" => opendir,
        "readdir64" => readdir,
        "closedir" => closedir,
        "dirfd" => dirfd,
        "flock" => flock,
        "mmap" | "mmap64" => mmap,
        "munmap" => munmap,
        "mlock" | "mprotect" | "msync" | "madvise" => zero,
        "realpath" => realpath,
        "pthread_create" => pthread_create,
        "pthread_join" => pthread_join,
        "pthread_self" => pthread_self,
        "pthread_key_create" => pthread_key_create,
        "pthread_key_delete" | "pthread_setspecific" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "pthread_attr_getguardsize" | "pthread_attr_getstack" | "pthread_getattr_np" => zero,
        "sched_yield" => sched_yield,
        "clock_gettime" => clock_gettime,
        "clock_nanosleep" | "nanosleep" => nanosleep,
        "syscall" => syscall,
        "sysconf" => sysconf,
        "getpid" => getpid,
        "getenv" | "dlsym" | "getauxval" => zero,
        "getcwd" => enoent_ptr,
        "readlink" => enosys32,
        "signal" | "sigaction" | "sigaltstack" | "poll" => zero,
        "vs_choice" => vs_choice,
        "vs_sym" => vs_sym,
        "vs_range" => vs_range,
        "vs_assume" => vs_assume,
        "vs_assert" => vs_assert,
        "vs_cover" => vs_cover,
        "vs_concretize" => vs_concretize,
        "vs_hash" => vs_hash,
        "vs_hash_policy" => vs_hash_policy,
        "vs_preempt" => vs_preempt,
        "vs_crash_begin" => vs_crash_begin,
        "vs_crash_end" => vs_crash_end,
        "vs_crash_now" => vs_crash_now,
        "vs_stash" => vs_stash,
        "vs_unstash" => vs_unstash,
        "vs_fault_begin" => vs_fault_begin,
        "vs_fault_end" => vs_fault_end,
        "vs_dirty" => vs_dirty,
        "vs_power" => vs_power,
        "vs_run_others" => vs_run_others,
        "vs_note" => vs_note,
        "vs_param" => vs_param,
        "vs_is_native" => vs_is_native,
        _ => return None,
    };
    Some(e)
}
