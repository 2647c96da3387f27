//! C06/C07: process crashes
use crate::c04::keys;
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

// stash slots: 0 the map before, 1 the map after, 2 what is known about the operation in flight,
// 3 configuration, 4 number of crashes so far, 5 keys of interest
const BEFORE: u64 = 0;
const AFTER: u64 = 1;
const DONE: u64 = 2;
const CFG: u64 = 3;
const CRASHES: u64 = 4;

fn stored_cfg() -> Config {
    let c = vs::unstash(CFG).unwrap_or(vec![0, 0, 0]);
    Config { expected_number_of_keys: [0, 8, 28][c[0] as usize], min_compaction_threashold: [1 << 19, 3][c[1] as usize], max_shard_size: [1 << 20, 10][c[2] as usize], ..config() }
}

fn see(db: &CandyStore, before: &Map, after: &Map, done: bool, what: &str) -> Map {
    // every key as before, except for those the operation in flight may have changed
    let mut now = Map::default();
    let mut all = before.clone();
    for (k, v) in &after.0 {
        all.set(k, v);
    }
    for (k, _) in &all.0 {
        let g = db.get(k).must("get failed after a crash");
        let new = vs::eq_opt(&g, &after.get(k));
        let old = vs::eq_opt(&g, &before.get(k));
        vs::check(new | (!done & old), what);
        if let Some(v) = g {
            now.set(k, &v);
        }
    }
    let mut n = 0;
    for kv in db.iter() {
        let (k, v) = kv.must("iteration failed after a crash");
        vs::check(vs::eq_opt(&now.get(&k), &Some(v)), "iteration differs from the lookups after a crash");
        n += 1;
        if n > now.0.len() {
            break;
        }
    }
    vs::check(n == now.0.len(), "iteration differs from the lookups after a crash");
    now
}

/// after a crash: reopen (possibly crashing again), compare, use the store, reopen once more
extern "C" fn recover() {
    let n = vs::unstash(CRASHES).map_or(0, |v| v[0]) + 1;
    vs::stash(CRASHES, &[n]);
    if (n as usize) < vs::param("crashes", 1) {
        vs::crash_begin(recover);
    }
    let cfg = stored_cfg();
    let db = match CandyStore::open(DIR, Config { ..stored_cfg() }) {
        Ok(db) => db,
        Err(_) => vs::fail("the store cannot be opened after a crash"),
    };
    vs::crash_end();
    let (before, after) = (Map::load(BEFORE), Map::load(AFTER));
    let done = vs::unstash(DONE).map_or(0, |v| v[0]) == 1;
    vs::cover(40 + done as u32);
    if n > 1 {
        vs::cover(42);
    }
    let mut m = see(&db, &before, &after, done, "an entry was lost or altered by a crash");
    vs::check(db.stats().num_entries() == m.0.len(), "the entry count is wrong after a crash");
    // the store works
    let ks = keys(4);
    let k = &ks[vs::choice(vs::param("after", 2), "key afterwards")];
    match vs::choice(2, "operation afterwards") {
        0 => {
            let r = db.set(k, "zz").must("set failed after a crash");
            vs::check(r.was_replaced() == m.set(k, b"zz").is_some(), "set answered wrongly after a crash");
        }
        _ => {
            let r = db.remove(k).must("remove failed after a crash");
            vs::check(vs::eq_opt(&r, &m.remove(k)), "remove answered wrongly after a crash");
        }
    }
    see(&db, &m, &m, true, "the store does not work after a crash");
    vs::check(db.stats().num_entries() == m.0.len(), "the entry count is wrong after a crash and an operation");
    drop(db);
    let db = open_with(cfg);
    see(&db, &m, &m, true, "the store does not work after a crash and reopening");
}

fn finish() {
    vs::stash(DONE, &[1]);
    vs::crash_now(recover);
}

fn setup(c: [u8; 3], before: &Map, after: &Map) {
    vs::stash(CFG, &c);
    before.save(BEFORE);
    after.save(AFTER);
}

/// a crash at any point of a point operation
#[no_mangle]
pub extern "C" fn h_c06_point() {
    vs::hash_policy(NS_USER, H_ROW | H_SIG1, 0, 2);
    let mut m = Map::default();
    let ks = keys(3);
    let db = open();
    for k in &ks {
        if vs::flag("present") {
            let v = vs::bytes(1, "value");
            db.set(k, &v).must("set failed");
            m.set(k, &v);
        }
    }
    let mut after = m.clone();
    let k = &ks[vs::choice(vs::param("target", 1), "key in flight")];
    let v = vs::bytes(2, "new value");
    let op = vs::choice(4, "operation in flight");
    match op {
        0 => drop(after.set(k, &v)),
        1 if m.get(k).is_some() => drop(after.set(k, &v)),
        2 if m.get(k).is_none() => drop(after.set(k, &v)),
        3 => drop(after.remove(k)),
        _ => {}
    }
    setup([0, 0, 0], &m, &after);
    vs::crash_begin(recover);
    match op {
        0 => drop(db.set(k, &v).must("set failed")),
        1 => drop(db.replace(k, &v, None).must("replace failed")),
        2 => drop(db.get_or_create(k, &v).must("get_or_create failed")),
        _ => drop(db.remove(k).must("remove failed")),
    }
    vs::crash_end();
    finish();
}

/// a crash while the store is created
#[no_mangle]
pub extern "C" fn h_c07_create() {
    let m = Map::default();
    setup([vs::choice(3, "initial shards") as u8, 0, 0], &m, &m);
    vs::crash_begin(recover);
    let db = open_with(stored_cfg());
    vs::crash_end();
    drop(db);
    finish();
}

fn fill(db: &CandyStore, n: usize) -> Map {
    let mut m = Map::default();
    for k in &keys(n) {
        let v = vs::bytes(1, "value");
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    m
}

/// a crash while the store is cleared
#[no_mangle]
pub extern "C" fn h_c07_clear() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_SHARD1, 0, 1);
    let c = [vs::choice(3, "initial shards") as u8, 0, vs::choice(2, "split shards") as u8];
    vs::stash(CFG, &c);
    let db = open_with(stored_cfg());
    let m = fill(&db, vs::param("keys", 2));
    setup(c, &m, &Map::default());
    vs::crash_begin(recover);
    db.clear().must("clear failed");
    vs::crash_end();
    finish();
}

/// a crash while an insert splits the shard
#[no_mangle]
pub extern "C" fn h_c07_split() {
    let bysize = vs::flag("split by size");
    vs::hash_policy(NS_USER, H_SHARD0, 0x3fffu64 << 48, 1);
    let c = [0, 0, bysize as u8];
    vs::stash(CFG, &c);
    let db = open_with(stored_cfg());
    let m = fill(&db, if bysize { 3 } else { 4 });
    let k = b"e";
    let v = vs::bytes(1, "new value");
    let mut after = m.clone();
    after.set(k, &v);
    setup(c, &m, &after);
    vs::crash_begin(recover);
    db.set(k, &v).must("set failed");
    vs::crash_end();
    vs::cover(if db.stats().num_shards > 1 { 1 } else { 2 });
    finish();
}

/// a crash while a shard is compacted, also with an operation going on
#[no_mangle]
pub extern "C" fn h_c07_compact() {
    vs::hash_policy(NS_USER, H_ROW, 0x3fffu64 << 48, 1);
    let c = [0, 1, 0];
    vs::stash(CFG, &c);
    let db = open_with(stored_cfg());
    let mut m = fill(&db, vs::param("keys", 3));
    // an entry that is removed again: must not come back
    match vs::choice(2, "garbage") {
        0 => drop(m.remove(b"a").map(|_| db.remove("a").must("remove failed"))),
        _ => {
            db.set("a", "new").must("set failed");
            m.set(b"a", b"new");
        }
    }
    let v = vs::bytes(1, "new value");
    let k: &[u8] = [b"b", b"a"][vs::choice(2, "key in flight")];
    let mut after = m.clone();
    after.set(k, &v);
    setup(c, &m, &after);
    vs::crash_begin(recover);
    // starts the compaction, which then runs in the background
    db.set(k, &v).must("set failed");
    vs::stash(DONE, &[1]);
    let budget = vs::param("preempt", 0) as u64;
    if budget > 0 {
        vs::preempt(budget, 0);
        let m = after.clone();
        match vs::choice(2, "second operation") {
            0 => {
                after.set(b"b", b"2");
                setup(c, &m, &after);
                vs::stash(DONE, &[0]);
                db.set("b", "2").must("set failed");
            }
            _ => {
                after.remove(b"b");
                setup(c, &m, &after);
                vs::stash(DONE, &[0]);
                db.remove("b").must("remove failed");
            }
        }
        vs::stash(DONE, &[1]);
        vs::preempt(0, 0);
    }
    vs::run_others();
    vs::crash_end();
    vs::check(db.stats().num_compactions > 0, "no compaction");
    finish();
}

/// a crash while shards are merged
#[no_mangle]
pub extern "C" fn h_c07_merge() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_SHARD1, 0, 1);
    vs::stash(CFG, &[1 + vs::choice(2, "initial shards") as u8, 0, 0]);
    let m;
    {
        let db = open_with(stored_cfg());
        m = fill(&db, vs::param("keys", 2));
    }
    setup([0, 0, 0], &m, &m);
    let db = open_with(stored_cfg());
    vs::crash_begin(recover);
    let r = db.merge_small_shards(0.3).must("merge failed");
    vs::crash_end();
    vs::cover(r as u32);
    finish();
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c06_point", h_c06_point),
    ("h_c07_create", h_c07_create),
    ("h_c07_clear", h_c07_clear),
    ("h_c07_split", h_c07_split),
    ("h_c07_compact", h_c07_compact),
    ("h_c07_merge", h_c07_merge),
];
