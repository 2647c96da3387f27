//! Reference models and helpers shared by the harnesses.
#![allow(dead_code)]
use crate::vs::{self, Must};
use candystore::*;

pub const DIR: &str = "/db";

pub const NS_USER: u8 = 1;
pub const NS_TYPED: u8 = 2;
pub const NS_LIST: u8 = 3;
pub const NS_ITEM: u8 = 4;
pub const NS_CHAIN: u8 = 5;
pub const NS_QUEUE: u8 = 6;
pub const NS_QITEM: u8 = 7;

pub const H_SHARD0: u64 = 1 << 63; // decides the half at the first split
pub const H_SHARD1: u64 = 1 << 62;
pub const H_ROW: u64 = 1 << 32;
pub const H_SIG1: u64 = 1;
pub const H_SIG2: u64 = 3;

pub fn config() -> Config {
    Config {
        max_shard_size: 1 << 20,
        min_compaction_threashold: 1 << 19,
        expected_number_of_keys: 0,
        max_concurrent_list_ops: 4,
        truncate_up: false,
        num_compaction_threads: 1,
        ..Config::default()
    }
}

pub fn open_with(c: Config) -> CandyStore {
    CandyStore::open(DIR, c).must("open failed")
}
pub fn open() -> CandyStore {
    open_with(config())
}

/// ordered reference map
#[derive(Clone, Default)]
pub struct Map(pub Vec<(Vec<u8>, Vec<u8>)>);
impl Map {
    pub fn pos(&self, k: &[u8]) -> Option<usize> {
        self.0.iter().position(|e| vs::eq(&e.0, k))
    }
    pub fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.pos(k).map(|i| self.0[i].1.clone())
    }
    pub fn set(&mut self, k: &[u8], v: &[u8]) -> Option<Vec<u8>> {
        match self.pos(k) {
            Some(i) => Some(std::mem::replace(&mut self.0[i].1, v.to_vec())),
            None => {
                self.0.push((k.to_vec(), v.to_vec()));
                None
            }
        }
    }
    pub fn remove(&mut self, k: &[u8]) -> Option<Vec<u8>> {
        self.pos(k).map(|i| self.0.remove(i).1)
    }
    /// serialized for the stash
    pub fn save(&self, slot: u64) {
        let mut b = vec![self.0.len() as u8];
        for (k, v) in &self.0 {
            b.push(k.len() as u8);
            b.extend_from_slice(k);
            b.push(v.len() as u8);
            b.extend_from_slice(v);
        }
        vs::stash(slot, &b);
    }
    pub fn load(slot: u64) -> Map {
        let b = vs::unstash(slot).unwrap_or(vec![0]);
        let mut p = 1;
        let mut m = Map::default();
        for _ in 0..b[0] {
            let kl = b[p] as usize;
            let k = b[p + 1..p + 1 + kl].to_vec();
            p += 1 + kl;
            let vl = b[p] as usize;
            let v = b[p + 1..p + 1 + vl].to_vec();
            p += 1 + vl;
            m.0.push((k, v));
        }
        m
    }
}

pub const POINT_OPS: usize = 7;
/// run one point operation on the store and on the reference map and compare the answers
pub fn point_op(db: &CandyStore, m: &mut Map, op: usize, k: &[u8], v: &[u8], exp: &[u8]) {
    match op {
        0 => {
            let r = db.set(k, v).must("set failed");
            let e = m.set(k, v);
            match (r, e) {
                (SetStatus::CreatedNew, None) => vs::cover(0),
                (SetStatus::PrevValue(a), Some(b)) => {
                    vs::cover(1);
                    vs::check(vs::eq(&a, &b), "set returned a wrong previous value")
                }
                _ => vs::fail("set reported created/existing wrongly"),
            }
        }
        1 => {
            let r = db.get(k).must("get failed");
            vs::check(vs::eq_opt(&r, &m.get(k)), "get answered wrongly");
            vs::cover(if r.is_some() { 2 } else { 3 });
        }
        2 => {
            let r = db.remove(k).must("remove failed");
            let e = m.remove(k);
            vs::cover(if r.is_some() { 4 } else { 5 });
            vs::check(vs::eq_opt(&r, &e), "remove answered wrongly");
        }
        3 => {
            let r = db.get_or_create(k, v).must("get_or_create failed");
            match (r, m.get(k)) {
                (GetOrCreateStatus::CreatedNew(a), None) => {
                    vs::cover(6);
                    vs::check(vs::eq(&a, v), "get_or_create returned a wrong default");
                    m.set(k, v);
                }
                (GetOrCreateStatus::ExistingValue(a), Some(b)) => {
                    vs::cover(7);
                    vs::check(vs::eq(&a, &b), "get_or_create returned a wrong value")
                }
                _ => vs::fail("get_or_create reported created/existing wrongly"),
            }
        }
        4 => {
            let r = db.replace(k, v, None::<&[u8]>.map(|x| x)).must("replace failed");
            match (r, m.get(k)) {
                (ReplaceStatus::DoesNotExist, None) => vs::cover(8),
                (ReplaceStatus::PrevValue(a), Some(b)) => {
                    vs::cover(9);
                    vs::check(vs::eq(&a, &b), "replace returned a wrong previous value");
                    m.set(k, v);
                }
                _ => vs::fail("replace reported existence wrongly"),
            }
        }
        5 => {
            let r = db.replace(k, v, Some(exp)).must("replace failed");
            match (r, m.get(k)) {
                (ReplaceStatus::DoesNotExist, None) => vs::cover(10),
                (ReplaceStatus::PrevValue(a), Some(b)) => {
                    vs::cover(11);
                    vs::check(vs::eq(&a, &b), "replace(expected) returned a wrong previous value");
                    vs::check(vs::eq(exp, &b), "replace(expected) replaced another value");
                    m.set(k, v);
                }
                (ReplaceStatus::WrongValue(a), Some(b)) => {
                    vs::cover(12);
                    vs::check(vs::eq(&a, &b), "replace(expected) reported a wrong present value");
                    vs::check(!vs::eq(exp, &b), "replace(expected) refused the right value");
                }
                _ => vs::fail("replace(expected) reported existence wrongly"),
            }
        }
        _ => {
            let r = db.contains(k).must("contains failed");
            vs::check(r == m.get(k).is_some(), "contains answered wrongly");
            vs::cover(13);
        }
    }
}

/// every key of the model is there with its value and the other given keys are not
pub fn verify(db: &CandyStore, m: &Map, keys: &[Vec<u8>], when: &str) {
    for k in keys {
        let r = db.get(k).must("get failed");
        vs::check(vs::eq_opt(&r, &m.get(k)), when);
    }
}
