//! Execution state: threads, memory, file system, path condition.
use crate::expr::*;
use crate::ir::Func;
use crate::mem::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp_save: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Runnable,
    Futex { addr: u64, timed: bool },
    Join(usize),
    Flock(u32),
    Idle, // waits until nobody else can run
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub tls: u64,
    pub errno: u64,
    pub status: Status,
    pub woken: Option<i32>,
    pub skip_point: bool,
    pub points: u32,
    pub yields: u32,
    pub name: String,
    pub detached: bool,
}

#[derive(Clone, Default)]
pub struct Inode {
    pub dir: Option<BTreeMap<String, u32>>,
    pub data: Sparse,
    pub size: u64,
    pub nlink: u32,
    pub dirty: bool,
    pub synced: Option<Rc<(Sparse, u64)>>, // content at the last sync
}
#[derive(Clone)]
pub struct Ofd {
    pub inode: u32,
    pub pos: u64,
    pub refs: u32,
    pub lock: u8, // 0 none 1 shared 2 exclusive
    pub append: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub inodes: Vec<Rc<Inode>>,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: Vec<Option<u32>>,
    pub dirs: Vec<Option<(Rc<Vec<(String, bool)>>, usize, u64, i32)>>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Choice { th: usize, n: u32, v: u32, tag: String },
    Sym { th: usize, first: u32, count: u32, w: u32, tag: String },
    Hash { data: Vec<(bool, u64)>, h1: (bool, u64), h2: (bool, u64) }, // (symbolic?, const or expr id)
    Switch { from: usize, point: u32, to: usize, forced: bool },
    Crash { ev: u64, sub: u32 },
    Fault { idx: u32, call: &'static str, errno: i32 },
    Note(String),
}
pub struct LogNode {
    pub ev: Ev,
    pub prev: Option<Rc<LogNode>>,
}

#[derive(Clone)]
pub struct SymInfo {
    pub w: u32,
    pub tag: Rc<str>,
}

#[derive(Clone)]
pub struct CrashScope {
    pub recover: u64,
    pub flags: u64,
}

#[derive(Clone)]
pub struct HashRec {
    pub data: Buf,
    pub h1: Val,
    pub h2: Val,
}
#[derive(Clone, Copy, Default)]
pub struct Policy {
    pub sym: u64,
    pub and: u64,
    pub or: u64,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub fs: Fs,
    pub pc: Rc<Vec<E>>,
    pub facts: Rc<HashMap<E, bool>>,
    pub model: Rc<Vec<u128>>,
    pub det: Rc<Vec<bool>>,
    pub syms: Rc<Vec<SymInfo>>,
    pub log: Option<Rc<LogNode>>,
    pub choices: Vec<u32>,
    pub cursor: usize,
    pub insts: u64,
    pub clock: u64,
    pub budget: u32,
    pub pflags: u64,
    pub crash: Option<CrashScope>,
    pub ev: u64,
    pub crashes: u32,
    pub fault_mask: u64,
    pub fault_budget: u32,
    pub fault_idx: u32,
    pub stash: Rc<BTreeMap<u64, Buf>>,
    pub keep_synced: bool,
    pub hashes: Rc<Vec<HashRec>>,
    pub policies: Rc<Vec<Policy>>,
    pub out: Rc<Vec<u8>>,
    pub depth: u32,
}

impl State {
    pub fn log(&mut self, ev: Ev) {
        let prev = self.log.take();
        self.log = Some(Rc::new(LogNode { ev, prev }));
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        let mut n = self.log.as_ref();
        while let Some(k) = n {
            v.push(k.ev.clone());
            n = k.prev.as_ref();
        }
        v.reverse();
        v
    }
    pub fn fresh(&mut self, w: u32, tag: &str, val: u128) -> E {
        let i = self.syms.len() as u32;
        let s = Rc::make_mut(&mut self.syms);
        let tag: Rc<str> = if let Some(l) = s.last() {
            if &*l.tag == tag {
                l.tag.clone()
            } else {
                tag.into()
            }
        } else {
            tag.into()
        };
        s.push(SymInfo { w, tag });
        Rc::make_mut(&mut self.model).push(val & mask(w));
        Rc::make_mut(&mut self.det).push(false);
        x().sym(i, w)
    }
    /// every symbol of `e` has a known value on this path
    pub fn determined(&self, e: E) -> bool {
        let m = x().syms(e);
        if self.syms.len() <= 128 {
            let mut k = m;
            while k != 0 {
                let i = k.trailing_zeros() as usize;
                if !self.det.get(i).copied().unwrap_or(false) {
                    return false;
                }
                k &= k - 1;
            }
            true
        } else {
            fn go(st: &State, e: E, depth: u32) -> bool {
                if depth == 0 {
                    return false;
                }
                match x().node(e) {
                    Node::Const(_) => true,
                    Node::Sym(i) => st.det[i as usize],
                    Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => go(st, a, depth - 1),
                    Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Ule(a, b) | Node::Slt(a, b) | Node::Sle(a, b) | Node::Concat(a, b) => go(st, a, depth - 1) && go(st, b, depth - 1),
                    Node::Ite(a, b, c) => go(st, a, depth - 1) && go(st, b, depth - 1) && go(st, c, depth - 1),
                }
            }
            go(self, e, 12)
        }
    }
}
