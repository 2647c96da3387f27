//! C04: splits and merges
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

pub fn key(i: usize) -> Vec<u8> {
    vec![b'a' + i as u8]
}
pub fn keys(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(key).collect()
}

/// all keys as in the model, and iteration shows exactly as many entries
pub fn full_verify(db: &CandyStore, m: &Map, keys: &[Vec<u8>], what: &str) {
    verify(db, m, keys, what);
    let mut n = 0;
    for kv in db.iter() {
        let (k, v) = kv.must("iteration failed");
        vs::check(vs::eq_opt(&m.get(&k), &Some(v)), what);
        n += 1;
        if n > m.0.len() {
            break;
        }
    }
    vs::check(n == m.0.len(), what);
}

/// a set that may only fail when a row could be full of colliding keys
fn try_set(db: &CandyStore, m: &mut Map, k: &[u8], v: &[u8], width: usize) {
    match db.set(k, v) {
        Ok(r) => {
            let p = m.set(k, v);
            match r {
                SetStatus::CreatedNew => vs::check(p.is_none(), "set reported an existing key as created"),
                SetStatus::PrevValue(a) => vs::check(vs::eq_opt(&p, &Some(a)), "set returned a wrong previous value"),
            }
        }
        Err(_) => {
            vs::check(m.0.len() >= width, "set failed although no row can be full");
            vs::cover(9);
        }
    }
}

/// rows fill up and shards split, with removals and updates in between
#[no_mangle]
pub extern "C" fn h_c04_split() {
    let n = vs::param("keys", 5);
    let shard = [H_SHARD0, H_SHARD0 | H_SHARD1][vs::param("shardbits", 1).min(2) - 1];
    // the remaining shard bits are those of a fixed hash function, or equal for all keys
    let rest = if vs::param("separable", 1) == 1 { 0x3fffu64 << 48 } else { 0 };
    vs::hash_policy(NS_USER, shard | H_ROW, rest, 1);
    let db = open();
    let ks = keys(n);
    let mut m = Map::default();
    let first = n - 1;
    for k in ks.iter().take(first) {
        let v = vs::bytes(1, "value");
        try_set(&db, &mut m, k, &v, 4);
    }
    let i = vs::choice(first, "changed key");
    match vs::choice(3, "change") {
        0 => {}
        1 => {
            db.remove(&ks[i]).must("remove failed");
            m.remove(&ks[i]);
        }
        _ => {
            let v = vs::bytes(2, "new value");
            try_set(&db, &mut m, &ks[i], &v, 4);
        }
    }
    let v = vs::bytes(1, "value");
    try_set(&db, &mut m, &ks[n - 1], &v, 4);
    if db.stats().num_shards > 1 {
        vs::cover(0);
    }
    full_verify(&db, &m, &ks, "content differs after splits");
    drop(db);
    full_verify(&open(), &m, &ks, "content differs after splits and reopening");
}

/// shards split because they are full by size; entries of different sizes
#[no_mangle]
pub extern "C" fn h_c04_size() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_SHARD1, 0x3fffu64 << 48 | H_ROW, 1);
    let cfg = || Config { max_shard_size: 64, min_compaction_threashold: 1 << 19, ..config() };
    let db = open_with(cfg());
    let n = vs::param("keys", 4);
    let ks = keys(n);
    let mut m = Map::default();
    for k in &ks {
        let len = [1, 20, 60][vs::choice(3, "value length")];
        let mut v = vec![1u8; len];
        v[len - 1] = vs::bytes(1, "value byte")[0];
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    for _ in 0..vs::param("more", 1) {
        let k = &ks[vs::choice(n, "updated key")];
        let mut v = vec![2u8; 30];
        v[0] = vs::bytes(1, "value byte")[0];
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    if db.stats().num_shards > 1 {
        vs::cover(0);
    }
    full_verify(&db, &m, &ks, "content differs after splits");
    drop(db);
    full_verify(&open_with(cfg()), &m, &ks, "content differs after splits and reopening");
}

/// shard trees of arbitrary shape, then a merge
#[no_mangle]
pub extern "C" fn h_c04_merge() {
    let n = vs::param("keys", 4);
    vs::hash_policy(NS_USER, [0, H_SHARD0 | H_SHARD1, H_SHARD0 | H_SHARD1 | 1 << 61][vs::param("shardbits", 1).min(2)] | if vs::param("rowbit", 1) == 1 { H_ROW } else { 0 }, 0, 1);
    let cfg = |max: u32, expected: usize| Config { max_shard_size: max, min_compaction_threashold: 1 << 19, expected_number_of_keys: expected, ..config() };
    // initially 1, 2 or 4 shards; small shards split after a few entries
    // `fixed`: only two initial shards, none split, highest fill level (for merges that do not fit)
    let fixed = vs::param("fixed", 0) == 1;
    let expected = [0, 8, 28][if fixed { 1 } else { vs::choice(3, "initial shards") }];
    let max = [1 << 20, vs::param("max", 10) as u32][if fixed { 0 } else { vs::choice(2, "shard size") }];
    let ks = keys(n);
    let mut m = Map::default();
    {
        let db = open_with(cfg(max, expected));
        for k in &ks {
            let v = vs::bytes(2, "value");
            match db.set(k, &v) {
                Ok(_) => drop(m.set(k, &v)),
                Err(_) => vs::check(m.0.len() >= 4, "set failed although no row can be full"),
            }
        }
        let r = vs::choice(n + 1, "removed key");
        if r < n {
            db.remove(&ks[r]).must("remove failed");
            m.remove(&ks[r]);
        }
    }
    let db = open_with(cfg(1 << 20, 0));
    let before = db.stats().num_shards;
    let level = [0.15f32, 0.3, 0.49][if fixed { 2 } else { vs::choice(3, "fill level") }];
    let r = db.merge_small_shards(level).must("merge_small_shards failed");
    let after = db.stats().num_shards;
    vs::check(r == (after != before) && after <= before, "merge_small_shards answered wrongly");
    vs::cover(r as u32);
    if before > 4 {
        vs::cover(2);
    }
    full_verify(&db, &m, &ks, "content differs after a merge");
    // still fully usable
    let v = vs::bytes(1, "value");
    let k = &ks[vs::choice(2, "key") * (n - 1)];
    try_set(&db, &mut m, k, &v, 4);
    full_verify(&db, &m, &ks, "content differs after a merge and a set");
    drop(db);
    full_verify(&open_with(cfg(1 << 20, 0)), &m, &ks, "content differs after a merge and reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c04_split", h_c04_split), ("h_c04_size", h_c04_size), ("h_c04_merge", h_c04_merge)];
