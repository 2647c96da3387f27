use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

/// arbitrary operation sequences over arbitrary keys with arbitrary hashes
#[no_mangle]
pub extern "C" fn h_c01_seq() {
    let nops = vs::param("ops", 2);
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW | H_SIG2, 0, 0);
    let keys = [vs::bytes(1, "key0"), vs::bytes(1, "key1"), vec![]];
    let db = open();
    let mut m = Map::default();
    for k in keys.iter().take(2) {
        if vs::flag("present") {
            let v = vs::bytes(1, "initial value");
            point_op(&db, &mut m, 0, k, &v, &[]);
        }
    }
    for _ in 0..nops {
        let k = &keys[vs::choice(keys.len(), "key")];
        let op = vs::choice(POINT_OPS, "operation");
        let v = vs::bytes(1, "value");
        let e = vs::bytes(1, "expected");
        point_op(&db, &mut m, op, k, &v, &e);
    }
    verify(&db, &m, &keys, "content differs after the operations");
    drop(db);
    let db = open();
    verify(&db, &m, &keys, "content differs after reopening");
}

/// keys, values and expected values of different lengths, prefixes of each other among them
#[no_mangle]
pub extern "C" fn h_c01_lens() {
    vs::hash_policy(NS_USER, 0, 0, 0);
    let keys = [vs::bytes(1, "key of 1"), vs::bytes(2, "key of 2")];
    let db = open();
    let mut m = Map::default();
    let some = |what: &str, kinds: usize| vs::bytes(vs::choice(kinds, "length"), what);
    for k in &keys {
        if vs::flag("present") {
            let v = some("initial value", 3);
            point_op(&db, &mut m, 0, k, &v, &[]);
        }
    }
    for _ in 0..vs::param("ops", 1) {
        let k = &keys[vs::choice(2, "key")];
        let op = vs::choice(POINT_OPS, "operation");
        let v = if matches!(op, 0 | 3 | 4 | 5) { some("value", 3) } else { vec![] };
        let e = if op == 5 { some("expected", 4) } else { vec![] };
        point_op(&db, &mut m, op, k, &v, &e);
    }
    verify(&db, &m, &keys, "content differs after the operations");
    drop(db);
    verify(&open(), &m, &keys, "content differs after reopening");
}

/// rows of the real geometry up to the last entry
#[no_mangle]
pub extern "C" fn h_c01_row() {
    let row = [0u64, 63][vs::choice(2, "row")];
    let sig = vs::choice(2, "equal signatures") as u64;
    vs::hash_policy(NS_USER, 0, if sig == 1 { 0x3fff << 48 } else { 0x3fff << 48 | 0xffff_ffff }, row << 32 | 4);
    let db = open_with(Config { max_shard_size: 1 << 24, min_compaction_threashold: 1 << 23, ..config() });
    let sizes = [1, 8, 15, 16, 17, 64, 257, 511, 512];
    let n = sizes[vs::choice(if sig == 1 { 6 } else { sizes.len() }, "entries in the row")];
    let mut m = Map::default();
    let key = |i: usize| vec![i as u8, (i >> 8) as u8];
    for i in 0..n {
        db.set(&key(i), &[i as u8]).must("set failed");
        m.set(&key(i), &[i as u8]);
    }
    let keys = [key([0, n / 2, n - 1][vs::choice(3, "column")]), key(n)];
    for i in 0..vs::param("ops", 2) {
        let v = vs::bytes(1, "value");
        let e = vs::bytes(1, "expected");
        point_op(&db, &mut m, vs::choice(POINT_OPS, "operation"), &keys[vs::choice(2, "key")], &v, &e);
        vs::cover(20 + i as u32);
    }
    verify(&db, &m, &keys, "content differs after the operations");
    let count = db.iter().map(|r| r.must("iteration failed")).count();
    vs::check(count == m.0.len(), "another number of entries after the operations");
    drop(db);
    let db = open();
    let some: Vec<_> = [0, 7, 8, 255, 256, n / 2, n - 1, n].iter().map(|i| key(*i)).collect();
    verify(&db, &m, &some, "content differs after reopening");
    vs::check(db.iter().count() == m.0.len(), "another number of entries after reopening");
}

/// self test of the machinery: a false claim that needs a particular value and crash point
extern "C" fn selftest_recover() {
    let db = open();
    let r = db.get("k").must("get failed");
    if let Some(v) = r {
        vs::check(v.len() == 1 && v[0] != 77, "self test: found 77 after the crash");
    }
}
#[no_mangle]
pub extern "C" fn h_selftest() {
    let db = open();
    db.set("k", "a").must("set");
    vs::crash_begin(selftest_recover);
    let v = vs::bytes(1, "v");
    db.set("k", &v).must("set");
    vs::crash_end();
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c01_seq", h_c01_seq), ("h_c01_lens", h_c01_lens), ("h_c01_row", h_c01_row)];
