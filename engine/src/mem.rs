//! Copy-on-write byte memory with a symbolic overlay.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: u64 = 4096;

#[derive(Clone)]
pub struct Page {
    pub bytes: [u8; 4096],
    /// symbolic bytes: offset -> 8-bit expression (never a constant)
    pub sym: BTreeMap<u16, E>,
}
impl Page {
    pub fn zero() -> Page {
        Page { bytes: [0; 4096], sym: BTreeMap::new() }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Box<u128>),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn zero() -> Val {
        Val::C(0)
    }
    /// as an expression of the given width
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::C(v) => x().konst(*v as u128, w),
            Val::W(v) => x().konst(**v, w),
            Val::S(e) => {
                debug_assert_eq!(x().w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn of(e: E) -> Val {
        match x().cval(e) {
            Some(v) => {
                if x().w(e) <= 64 {
                    Val::C(v as u64)
                } else {
                    Val::W(Box::new(v))
                }
            }
            None => Val::S(e),
        }
    }
    pub fn of128(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::W(Box::new(v))
        }
    }
    pub fn c128(&self) -> Option<u128> {
        match self {
            Val::C(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
}

/// a run of bytes moved around by bulk operations
#[derive(Clone, Default)]
pub struct Buf {
    pub bytes: Vec<u8>,
    pub sym: Vec<(u32, E)>,
}
impl Buf {
    pub fn byte(&self, i: usize) -> Val {
        if !self.sym.is_empty() {
            if let Ok(k) = self.sym.binary_search_by_key(&(i as u32), |p| p.0) {
                return Val::S(self.sym[k].1);
            }
        }
        Val::C(self.bytes[i] as u64)
    }
    pub fn slice(&self, a: usize, b: usize) -> Buf {
        Buf { bytes: self.bytes[a..b].to_vec(), sym: self.sym.iter().filter(|p| (p.0 as usize) >= a && (p.0 as usize) < b).map(|p| (p.0 - a as u32, p.1)).collect() }
    }
}

fn page_read(p: &Page, off: usize, n: usize, out: &mut Buf) {
    let base = out.bytes.len();
    out.bytes.extend_from_slice(&p.bytes[off..off + n]);
    if !p.sym.is_empty() {
        for (k, e) in p.sym.range(off as u16..=(off + n - 1) as u16) {
            out.sym.push(((base + *k as usize - off) as u32, *e));
        }
    }
}
fn page_write(p: &mut Page, off: usize, src: &Buf, sb: usize, n: usize) {
    p.bytes[off..off + n].copy_from_slice(&src.bytes[sb..sb + n]);
    if !p.sym.is_empty() {
        let ks: Vec<u16> = p.sym.range(off as u16..=(off + n - 1) as u16).map(|x| *x.0).collect();
        for k in ks {
            p.sym.remove(&k);
        }
    }
    if !src.sym.is_empty() {
        for (k, e) in &src.sym {
            let k = *k as usize;
            if k >= sb && k < sb + n {
                p.sym.insert((off + k - sb) as u16, *e);
            }
        }
    }
}

/// sparse page store used for file contents
#[derive(Clone, Default)]
pub struct Sparse {
    pub pages: BTreeMap<u64, Rc<Page>>,
}
impl Sparse {
    pub fn read(&self, mut off: u64, mut n: usize, out: &mut Buf) {
        while n > 0 {
            let po = (off % PAGE) as usize;
            let k = n.min(4096 - po);
            match self.pages.get(&(off / PAGE)) {
                Some(p) => page_read(p, po, k, out),
                None => out.bytes.resize(out.bytes.len() + k, 0),
            }
            off += k as u64;
            n -= k;
        }
    }
    pub fn write(&mut self, mut off: u64, src: &Buf) {
        let mut sb = 0;
        let mut n = src.bytes.len();
        while n > 0 {
            let po = (off % PAGE) as usize;
            let k = n.min(4096 - po);
            let p = self.pages.entry(off / PAGE).or_insert_with(|| Rc::new(Page::zero()));
            page_write(Rc::make_mut(p), po, src, sb, k);
            off += k as u64;
            sb += k;
            n -= k;
        }
    }
    pub fn truncate(&mut self, size: u64) {
        let keep = size.div_ceil(PAGE);
        self.pages.retain(|k, _| *k < keep);
        if size % PAGE != 0 {
            if let Some(p) = self.pages.get_mut(&(size / PAGE)) {
                let p = Rc::make_mut(p);
                let o = (size % PAGE) as usize;
                p.bytes[o..].fill(0);
                p.sym.retain(|k, _| (*k as usize) < o);
            }
        }
    }
}

const CHUNK_PAGES: usize = 256;
type Chunk = [Option<Rc<Page>>; CHUNK_PAGES];

pub const STACK_BASE: u64 = 0x0800_0000;
pub const STACK_SIZE: u64 = 0x10_0000;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const HEAP_LIMIT: u64 = 0x4000_0000;
pub const MMAP_BASE: u64 = 0x40_0000_0000;
pub const MMAP_SLOT: u64 = 0x1000_0000; // 256 MB

#[derive(Clone)]
pub struct Mapping {
    pub inode: u32,
    pub len: u64,
    pub live: bool,
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub heap_top: u64,
    pub global_end: u64,
    pub maps: Vec<Mapping>,
}

impl Mem {
    pub fn new(global_end: u64) -> Mem {
        Mem { chunks: vec![None; (HEAP_LIMIT / PAGE) as usize / CHUNK_PAGES], heap_top: HEAP_BASE, global_end, maps: vec![] }
    }
    #[inline]
    pub fn valid(&self, a: u64, n: u64) -> bool {
        let e = a.wrapping_add(n);
        if e < a {
            return false;
        }
        (a >= HEAP_BASE && e <= self.heap_top) || (a >= STACK_BASE && e <= HEAP_BASE) || (a >= crate::ir::GLOBAL_BASE && e <= self.global_end)
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Rc<Page>> {
        let pn = (a / PAGE) as usize;
        match &self.chunks[pn / CHUNK_PAGES] {
            Some(c) => c[pn % CHUNK_PAGES].as_ref(),
            None => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let pn = (a / PAGE) as usize;
        let c = self.chunks[pn / CHUNK_PAGES].get_or_insert_with(|| Rc::new([const { None }; CHUNK_PAGES]));
        let c = Rc::make_mut(c);
        Rc::make_mut(c[pn % CHUNK_PAGES].get_or_insert_with(|| Rc::new(Page::zero())))
    }
    /// quick scalar load; None when a slow path is needed (symbolic or page crossing)
    #[inline]
    pub fn load_fast(&self, a: u64, n: usize) -> Option<u64> {
        let po = (a % PAGE) as usize;
        if po + n > 4096 {
            return None;
        }
        match self.page(a) {
            None => Some(0),
            Some(p) => {
                if !p.sym.is_empty() && p.sym.range(po as u16..=(po + n - 1) as u16).next().is_some() {
                    return None;
                }
                Some(rd(&p.bytes[po..po + n]))
            }
        }
    }
    #[inline]
    pub fn store_fast(&mut self, a: u64, n: usize, v: u64) -> bool {
        let po = (a % PAGE) as usize;
        if po + n > 4096 {
            return false;
        }
        let p = self.page_mut(a);
        if !p.sym.is_empty() {
            let ks: Vec<u16> = p.sym.range(po as u16..=(po + n - 1) as u16).map(|x| *x.0).collect();
            for k in ks {
                p.sym.remove(&k);
            }
        }
        p.bytes[po..po + n].copy_from_slice(&v.to_le_bytes()[..n]);
        true
    }
    pub fn read(&self, mut a: u64, mut n: usize) -> Buf {
        let mut out = Buf { bytes: Vec::with_capacity(n), sym: vec![] };
        while n > 0 {
            let po = (a % PAGE) as usize;
            let k = n.min(4096 - po);
            match self.page(a) {
                Some(p) => page_read(p, po, k, &mut out),
                None => out.bytes.resize(out.bytes.len() + k, 0),
            }
            a += k as u64;
            n -= k;
        }
        out
    }
    pub fn write(&mut self, mut a: u64, src: &Buf) {
        let mut sb = 0;
        let mut n = src.bytes.len();
        while n > 0 {
            let po = (a % PAGE) as usize;
            let k = n.min(4096 - po);
            let p = self.page_mut(a);
            page_write(p, po, src, sb, k);
            a += k as u64;
            sb += k;
            n -= k;
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> Option<u64> {
        let al = align.max(16);
        let mut a = self.heap_top + 16;
        a = a.div_ceil(al) * al;
        let top = a.checked_add(size)?.div_ceil(16) * 16;
        if top >= HEAP_LIMIT {
            return None;
        }
        self.heap_top = top;
        self.store_fast(a - 8, 8, size);
        Some(a)
    }
    pub fn alloc_size(&self, a: u64) -> u64 {
        self.load_fast(a - 8, 8).unwrap()
    }
}

#[inline]
pub fn rd(b: &[u8]) -> u64 {
    match b.len() {
        1 => b[0] as u64,
        2 => u16::from_le_bytes([b[0], b[1]]) as u64,
        4 => u32::from_le_bytes(b.try_into().unwrap()) as u64,
        8 => u64::from_le_bytes(b.try_into().unwrap()),
        n => {
            let mut t = [0u8; 8];
            t[..n].copy_from_slice(b);
            u64::from_le_bytes(t)
        }
    }
}
