//! C08: iteration and cookies
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

const NK: usize = 3;
fn key(i: usize) -> Vec<u8> {
    vec![b'a' + i as u8]
}

/// mark the entry as seen; it must be one of the model and new
fn see(m: &Map, seen: &mut Vec<bool>, k: &[u8], v: &[u8], what: &str) {
    let p = m.pos(k);
    vs::check(p.is_some(), what);
    let p = p.unwrap();
    vs::check(!seen[p], "iteration yielded an entry twice");
    seen[p] = true;
    vs::check(vs::eq(v, &m.0[p].1), "iteration yielded a wrong value");
}

fn fill(db: &CandyStore, m: &mut Map, n: usize) {
    for i in 0..n {
        if vs::flag("present") {
            let v = vs::bytes(1, "value");
            db.set(&key(i), &v).must("set failed");
            m.set(&key(i), &v);
        }
    }
    if vs::flag("other collections") {
        db.set_in_list("list", "item", "val").must("set_in_list failed");
    }
}

/// all entries exactly once; resuming from the cookie after any prefix yields exactly the rest
#[no_mangle]
pub extern "C" fn h_c08_cookie() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW | H_SIG1, 0, 2);
    // initial number of shards 1 or 2
    let db = open_with(Config { expected_number_of_keys: [0, 16][vs::choice(2, "expected keys")], ..config() });
    let mut m = Map::default();
    fill(&db, &mut m, vs::param("keys", NK as u64));
    let n = m.0.len();
    let mut seen = vec![false; n];
    let mut it = db.iter();
    let prefix = vs::choice(n + 2, "prefix");
    let mut got = 0;
    for _ in 0..prefix {
        match it.next() {
            Some(kv) => {
                let (k, v) = kv.must("iteration failed");
                see(&m, &mut seen, &k, &v, "iteration yielded something that is not in the store");
                got += 1;
            }
            None => {
                vs::cover(0);
                break;
            }
        }
    }
    vs::check(got == prefix.min(n), "iteration ended early");
    let cookie = it.cookie();
    let mut it2 = db.iter_from_cookie(cookie);
    for _ in 0..n - got {
        let kv = it2.next().must("resumed iteration skipped an entry");
        let (k, v) = kv.must("iteration failed");
        see(&m, &mut seen, &k, &v, "resumed iteration yielded something that is not in the store");
        vs::cover(1);
    }
    vs::check(it2.next().is_none(), "resumed iteration yielded an entry again");
    vs::check(it2.next().is_none(), "a finished iteration started again");
    vs::cover(2);
    if vs::flag("raw") {
        let raw = db.iter_raw().map(|r| r.must("raw iteration failed")).filter(|kv| kv.0.ends_with(&[NS_USER])).count();
        vs::check(raw == n, "raw iteration yields another number of plain entries");
        vs::cover(3);
    }
}

/// changes to some entries during an iteration do not affect the others
#[no_mangle]
pub extern "C" fn h_c08_modify() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0, 1);
    // changes may also start a compaction
    let compact = vs::flag("compaction");
    let db = open_with(Config { expected_number_of_keys: [0, 16][vs::choice(2, "expected keys")], min_compaction_threashold: if compact { 3 } else { 1 << 19 }, ..config() });
    let mut m = Map::default();
    let n = vs::param("keys", NK as u64);
    for i in 0..n {
        let v = vs::bytes(1, "value");
        db.set(&key(i), &v).must("set failed");
        m.set(&key(i), &v);
    }
    let mut count = vec![0; n];
    let mut it = db.iter();
    let at = vs::choice(n + 1, "change after");
    let victim = vs::choice(n, "changed entry");
    let other = if compact { (victim + 1) % n } else { victim };
    for step in 0..n + 2 {
        if step == at {
            let v = vs::bytes(1, "new value");
            match vs::choice(4, "change") {
                0 => drop(db.remove(&key(victim)).must("remove failed")),
                1 => drop(db.set(&key(victim), &v).must("set failed")),
                2 => {
                    db.remove(&key(victim)).must("remove failed");
                    db.set(&key(victim), &v).must("set failed");
                }
                _ => drop(db.set("new", &v).must("set failed")),
            }
            if compact {
                db.set(&key(other), &[9, 9]).must("set failed");
                vs::run_others();
            }
        }
        match it.next() {
            Some(kv) => {
                let (k, v) = kv.must("iteration failed");
                match m.pos(&k) {
                    Some(p) => {
                        count[p] += 1;
                        vs::check(p == victim || p == other || vs::eq(&v, &m.0[p].1), "iteration yielded a wrong value");
                    }
                    None => vs::check(vs::eq(&k, b"new"), "iteration yielded a foreign key"),
                }
            }
            None => break,
        }
    }
    vs::check(it.next().is_none(), "iteration does not end");
    for p in 0..n {
        vs::check(p == victim || p == other || count[p] == 1, "an untouched entry was skipped or repeated");
    }
    vs::cover(0);
}

/// a row of the real geometry, as full as it gets: at every position the cookie resumes with the next entry
#[no_mangle]
pub extern "C" fn h_c08_full_row() {
    let n = vs::param("keys", 512);
    let row = [0u64, 1, 62, 63][vs::choice(4, "row")];
    vs::hash_policy(NS_USER, 0, 0xffff_ffff, row << 32 | 1);
    let db = open_with(Config { max_shard_size: 1 << 24, min_compaction_threashold: 1 << 23, ..config() });
    let key = |i: usize| [i as u8, (i >> 8) as u8];
    let values: Vec<_> = (0..n).map(|i| vs::bytes((i % 16 == 0) as usize, "value")).collect();
    for i in 0..n {
        db.set(&key(i), &values[i]).must("set failed");
    }
    let mut seen = vec![false; n];
    let mut it = db.iter();
    for i in 0..=n {
        let mut it2 = db.iter_from_cookie(it.cookie());
        match (it.next(), it2.next()) {
            (None, None) => vs::check(i == n, "iteration ended early"),
            (Some(a), Some(b)) => {
                let (ka, va) = a.must("iteration failed");
                let (kb, vb) = b.must("iteration failed");
                vs::check(vs::eq(&ka, &kb), "an iteration resumed from a cookie continues elsewhere");
                let j = ka[0] as usize | (ka[1] as usize) << 8;
                vs::check(!seen[j], "iteration yielded an entry twice");
                vs::check(vs::eq(&va, &values[j]) && vs::eq(&vb, &values[j]), "iteration yielded a wrong value");
                seen[j] = true;
                vs::cover(0);
            }
            _ => vs::fail("an iteration resumed from a cookie ends elsewhere"),
        }
    }
    vs::check(seen.iter().all(|s| *s), "iteration skipped an entry");
    vs::cover(1);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c08_cookie", h_c08_cookie), ("h_c08_modify", h_c08_modify), ("h_c08_full_row", h_c08_full_row)];
