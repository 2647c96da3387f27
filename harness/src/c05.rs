//! C05: compaction changes nothing observable, also while it runs
use crate::c04::{full_verify, keys};
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

fn cfg() -> Config {
    Config { min_compaction_threashold: 3, ..config() }
}

fn prepare(db: &CandyStore, n: usize, m: &mut Map) -> Vec<Vec<u8>> {
    let ks = keys(n);
    for k in &ks {
        let v = vs::bytes(1, "value");
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    ks
}

/// any history; the compaction thread runs at any moment between operations
#[no_mangle]
pub extern "C" fn h_c05_seq() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0x3fffu64 << 48, 2);
    let db = open_with(cfg());
    let mut m = Map::default();
    let ks = prepare(&db, vs::param("keys", 3), &mut m);
    for i in 0..vs::param("ops", 3) {
        let k = &ks[vs::choice(ks.len(), "key")];
        let v = vs::bytes(1 + i, "new value");
        let exp = vs::bytes(1, "expected");
        point_op(&db, &mut m, vs::choice(POINT_OPS - 1, "operation"), k, &v, &exp);
        if vs::flag("compact now") {
            vs::run_others();
        }
    }
    vs::run_others();
    full_verify(&db, &m, &ks, "content differs after compaction");
    let s = db.stats();
    vs::cover(20 + (s.num_compactions > 0) as u32);
    drop(db);
    full_verify(&open_with(cfg()), &m, &ks, "content differs after compaction and reopening");
}

/// a shard splits while its compaction is due, queued or finished
#[no_mangle]
pub extern "C" fn h_c05_split() {
    vs::hash_policy(NS_USER, H_SHARD0, 0x3fffu64 << 48, 1);
    let size = if vs::flag("split by size") { 60 } else { 1 << 20 };
    let cfg = || Config { max_shard_size: size, ..cfg() };
    let db = open_with(cfg());
    let mut m = Map::default();
    let ks = keys(6);
    let put = |db: &CandyStore, m: &mut Map, i: usize, n: usize| {
        let v = vs::bytes(n, "value");
        point_op(db, m, 0, &ks[i], &v, &[]);
    };
    for i in 0..if size == 60 { 2 } else { 4 } {
        put(&db, &mut m, i, 1);
    }
    // these start a compaction
    for i in 0..2 {
        match vs::choice(3, "before") {
            0 => put(&db, &mut m, i, if size == 60 { 12 } else { 2 }),
            1 => point_op(&db, &mut m, 2, &ks[i], &[], &[]),
            _ => {}
        }
    }
    if vs::flag("compact now") {
        vs::run_others();
    }
    for i in 4..6 {
        put(&db, &mut m, i, 1);
    }
    for i in [0, 4] {
        match vs::choice(3, "after") {
            0 => put(&db, &mut m, i, 2),
            1 => point_op(&db, &mut m, 2, &ks[i], &[], &[]),
            _ => {}
        }
    }
    full_verify(&db, &m, &ks, "content differs after the split");
    if vs::flag("let the compaction run") {
        vs::run_others();
        full_verify(&db, &m, &ks, "content differs after compaction");
    }
    let s = db.stats();
    vs::cover(30 + (((s.num_splits > 0) as u32) << 1 | (s.num_compactions > 0) as u32));
    drop(db);
    full_verify(&open_with(cfg()), &m, &ks, "content differs after reopening");
}

/// operations interleaved with a running compaction
#[no_mangle]
pub extern "C" fn h_c05_live() {
    vs::hash_policy(NS_USER, H_ROW, 0, 1 << 33 | 1);
    let db = open_with(cfg());
    let mut m = Map::default();
    let ks = prepare(&db, vs::param("keys", 2), &mut m);
    let (budget, flags) = (vs::param("preempt", 2) as u64, if vs::param("mmap", 0) == 1 { vs::P_MMAP } else { 0 });
    // the second update starts the compaction
    let begin = vs::param("begin", 0) == 1;
    for i in 0..2 {
        let v = vs::bytes(2, "second value");
        if i == 1 && begin {
            vs::preempt(budget, flags);
        }
        db.set(&ks[0], &v).must("set failed");
        m.set(&ks[0], &v);
    }
    vs::preempt(budget, flags);
    for _ in 0..vs::param("ops", 1) {
        let k = &ks[vs::choice(ks.len(), "key")];
        let v = vs::bytes(1, "new value");
        match vs::choice(4, "operation") {
            0 => {
                let r = db.set(k, &v).must("set failed");
                vs::check(r.was_replaced() == m.set(k, &v).is_some(), "set reported existence wrongly");
            }
            1 => {
                let r = db.remove(k).must("remove failed");
                vs::check(vs::eq_opt(&r, &m.remove(k)), "remove answered wrongly");
            }
            2 => {
                let r = db.get(k).must("get failed");
                vs::check(vs::eq_opt(&r, &m.get(k)), "get answered wrongly");
            }
            _ => full_verify(&db, &m, &ks, "content differs during compaction"),
        }
    }
    vs::preempt(0, 0);
    full_verify(&db, &m, &ks, "content differs during or after compaction");
    vs::run_others();
    full_verify(&db, &m, &ks, "content differs after compaction");
    vs::check(db.stats().num_compactions > 0, "no compaction");
    vs::cover(0);
    drop(db);
    full_verify(&open_with(cfg()), &m, &ks, "content differs after compaction and reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c05_seq", h_c05_seq), ("h_c05_live", h_c05_live), ("h_c05_split", h_c05_split)];
