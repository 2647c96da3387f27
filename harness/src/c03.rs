//! C03: entries within the limits round-trip, oversized ones have no effect
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

/// `n` bytes, the first and the last arbitrary
fn blob(n: usize, tag: &str) -> Vec<u8> {
    let mut v = vec![7u8; n];
    if n > 0 {
        v[0] = vs::bytes(1, tag)[0];
        v[n - 1] = vs::bytes(1, tag)[0];
    }
    v
}

/// plain keys: every length around the limits
#[no_mangle]
pub extern "C" fn h_c03_plain() {
    let kls = [0, 1, MAX_KEY_SIZE - 1, MAX_KEY_SIZE, MAX_KEY_SIZE + 1, 0x3ffe, 0x3fff, 0x4000, 0xffff, 0x10000, 0x10001];
    let vls = [0, 1, MAX_VALUE_SIZE - 1, MAX_VALUE_SIZE, MAX_VALUE_SIZE + 1, 0xffff, 0x10000, 0x10001];
    let db = open();
    let other = vs::bytes(1, "other value");
    db.set("other key", &other).must("set failed");
    let kl = kls[vs::choice(kls.len(), "key length")];
    let vl = vls[vs::choice(vls.len(), "value length")];
    let k = blob(kl, "key bytes");
    let present = kl <= MAX_KEY_SIZE && vs::flag("present");
    let old = vs::bytes(1, "old value");
    if present {
        db.set(&k, &old).must("set failed");
    }
    let v = blob(vl, "value bytes");
    let fits = kl <= MAX_KEY_SIZE && vl <= MAX_VALUE_SIZE;
    let before = if present { Some(old.clone()) } else { None };
    let mut after = before.clone();
    match vs::choice(3, "operation") {
        0 => match db.set(&k, &v) {
            Ok(r) => {
                vs::check(fits, "an oversized entry was accepted by set");
                vs::check(r.was_replaced() == present, "set reported existence wrongly");
                after = Some(v.clone());
                vs::cover(0);
            }
            Err(_) => {
                vs::check(!fits, "an entry within the limits was rejected by set");
                vs::cover(1);
            }
        },
        1 => match db.replace(&k, &v, None) {
            Ok(r) => {
                vs::check(fits, "an oversized entry was accepted by replace");
                vs::check(r.was_replaced() == present, "replace reported existence wrongly");
                if present {
                    after = Some(v.clone());
                }
                vs::cover(2);
            }
            Err(_) => vs::check(!fits, "an entry within the limits was rejected by replace"),
        },
        _ => match db.get_or_create(&k, &v) {
            Ok(r) => {
                vs::check(fits, "an oversized entry was accepted by get_or_create");
                vs::check(r.already_exists() == present, "get_or_create reported existence wrongly");
                if !present {
                    after = Some(v.clone());
                }
                vs::cover(3);
            }
            Err(_) => vs::check(!fits, "an entry within the limits was rejected by get_or_create"),
        },
    }
    let see = |db: &CandyStore| {
        if kl <= MAX_KEY_SIZE {
            let g = db.get(&k).must("get failed");
            vs::check(vs::eq_opt(&g, &after), "entry did not round-trip");
        }
        let g = db.get("other key").must("get failed");
        vs::check(vs::eq_opt(&g, &Some(other.clone())), "another entry changed");
        let n = db.iter().map(|r| r.must("iter failed")).count();
        vs::check(n == 1 + after.is_some() as usize, "number of entries changed");
    };
    see(&db);
    drop(db);
    see(&open());
}

/// entries around the shard size limit, several in one shard, also when a split cannot separate them
#[no_mangle]
pub extern "C" fn h_c03_shard() {
    let same = vs::param("same", 1);
    vs::hash_policy(NS_USER, if same == 1 { H_SHARD0 } else { H_SHARD0 | H_SHARD1 }, !0u64 >> 16, 1);
    let max = 40usize;
    let cfg = || Config { max_shard_size: max as u32, min_compaction_threashold: 1 << 19, ..config() };
    let db = open_with(cfg());
    let mut m = Map::default();
    let n = vs::param("n", 3);
    let mut keys = vec![];
    for i in 0..n {
        let k = vec![b'a' + i as u8];
        keys.push(k.clone());
        // full key has one more byte
        let vl = [max - 2, max - 1, 0, max / 2, 5][vs::choice(5, "value length")];
        let mut v = vec![i as u8; vl];
        if vl > 0 {
            v[vl - 1] = vs::bytes(1, "value byte")[0];
        }
        match db.set(&k, &v) {
            Ok(r) => {
                vs::check(r.was_created(), "set reported a key twice");
                vs::check(2 + vl <= max, "an entry larger than a shard was accepted");
                m.set(&k, &v);
                vs::cover(0);
            }
            Err(_) => {
                vs::check(2 + vl > max, "an entry that fits in a shard was rejected");
                vs::cover(1);
            }
        }
        verify(&db, &m, &keys, "content differs after inserting entries of about the shard size");
    }
    drop(db);
    verify(&open_with(cfg()), &m, &keys, "content differs after reopening");
}

/// oversized elements of lists, queues and big values
#[no_mangle]
pub extern "C" fn h_c03_coll() {
    let small = vs::flag("small shards");
    let max = if small { 400 } else { 1 << 20 };
    let db = open_with(Config { max_shard_size: max, ..config() });
    let lk: Vec<u8> = vec![b'L'; [1, MAX_KEY_SIZE, 0x3ffe, 0x4000][vs::choice(if small { 1 } else { 4 }, "name length")]];
    let kl = lk.len();
    let val = |t: &str| -> Vec<u8> {
        let n = if small { [1usize, 500][vs::choice(2, t)] } else { [1usize, MAX_VALUE_SIZE, 0xffff - 8, 0xffff - 7, 0x10000][vs::choice(5, t)] };
        blob(n, "value bytes")
    };
    let exists = kl <= MAX_KEY_SIZE && vs::flag("collection exists");
    let (a, b) = (vs::bytes(1, "first"), vs::bytes(1, "second"));
    match vs::choice(3, "kind") {
        0 => {
            let mut m: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            if exists {
                db.set_in_list(&lk, "a", &a).must("set_in_list failed");
                db.set_in_list(&lk, "b", &b).must("set_in_list failed");
                m = vec![(b"a".to_vec(), a), (b"b".to_vec(), b)];
            }
            let ik: Vec<u8> = match vs::choice(if small { 2 } else { 5 }, "item key") {
                0 => b"a".to_vec(),
                1 => b"new".to_vec(),
                2 => vec![b'i'; MAX_KEY_SIZE],
                3 => vec![b'i'; 0x3fff - 9],
                _ => vec![b'i'; 0x3fff - 8],
            };
            let v = val("value length");
            let fits = kl <= MAX_KEY_SIZE && ik.len() <= MAX_KEY_SIZE && v.len() <= MAX_VALUE_SIZE && (!small || v.len() < 300);
            let p = m.iter().position(|e| vs::eq(&e.0, &ik));
            let op = vs::choice(4, "operation");
            let r = match op {
                0 => db.set_in_list(&lk, &ik, &v).is_ok(),
                1 => db.set_in_list_promoting(&lk, &ik, &v).is_ok(),
                2 => db.replace_in_list(&lk, &ik, &v, None).is_ok(),
                _ => db.get_or_create_in_list(&lk, &ik, &v).is_ok(),
            };
            vs::check(r || !fits, "a list item within the limits was rejected");
            vs::cover(r as u32);
            if r {
                match p {
                    Some(i) if op == 1 => {
                        m.remove(i);
                        m.push((ik.clone(), v.clone()));
                    }
                    Some(i) if op != 3 => m[i].1 = v.clone(),
                    None if op != 2 => m.push((ik.clone(), v.clone())),
                    _ => {}
                }
            }
            let what = if r { "accepted list item did not round-trip" } else { "a rejected list operation had an effect" };
            vs::check(db.list_len(&lk).must("list_len failed") == m.len(), what);
            let got: Vec<_> = db.iter_list(&lk).map(|x| x.must("iter_list failed")).collect();
            vs::check(got.len() == m.len() && got.iter().zip(m.iter()).all(|(x, y)| vs::eq(&x.0, &y.0) && vs::eq(&x.1, &y.1)), what);
            if kl <= MAX_KEY_SIZE && ik.len() <= MAX_KEY_SIZE {
                let g = db.get_from_list(&lk, &ik).must("get_from_list failed");
                let e = m.iter().find(|e| vs::eq(&e.0, &ik)).map(|e| e.1.clone());
                vs::check(vs::eq_opt(&g, &e), what);
            }
        }
        1 => {
            let mut m: Vec<Vec<u8>> = vec![];
            if exists {
                db.push_to_queue_tail(&lk, &a).must("push failed");
                db.push_to_queue_tail(&lk, &b).must("push failed");
                m = vec![a, b];
            }
            let v = val("value length");
            let fits = kl <= MAX_KEY_SIZE && v.len() <= MAX_VALUE_SIZE && (!small || v.len() < 300);
            let op = vs::choice(4, "operation");
            let one = vec![1u8];
            let old_end = db.queue_range(&lk).must("queue_range failed").end;
            let r = match op {
                0 => db.push_to_queue_head(&lk, &v).is_ok(),
                1 => db.push_to_queue_tail(&lk, &v).is_ok(),
                2 => db.extend_queue(&lk, [&one, &v].iter()).is_ok(),
                _ => db.extend_queue(&lk, [&v, &one].iter()).is_ok(),
            };
            vs::check(r || !fits, "a queue element within the limits was rejected");
            vs::cover(2 + r as u32);
            if r {
                match op {
                    0 => m.insert(0, v),
                    1 => m.push(v),
                    2 => {
                        m.push(one.clone());
                        m.push(v)
                    }
                    _ => {
                        m.push(v);
                        m.push(one.clone())
                    }
                }
            }
            let what = if r { "accepted queue element did not round-trip" } else { "a rejected queue operation had an effect" };
            vs::check(db.queue_len(&lk).must("queue_len failed") == m.len(), what);
            let got: Vec<_> = db.iter_queue(&lk).map(|x| x.must("iter_queue failed").1).collect();
            vs::check(got.len() == m.len() && got.iter().zip(m.iter()).all(|(x, y)| vs::eq(x, y)), what);
            if !r {
                for i in 0..2 {
                    let g = db.remove_from_queue(&lk, old_end + i).must("remove_from_queue failed");
                    vs::check(g.is_none(), "a rejected queue operation left an element behind");
                }
            }
        }
        _ => {
            let mut m = None;
            if exists {
                db.set_big(&lk, &a).must("set_big failed");
                m = Some(a);
            }
            let n = if small { [1usize, 500][vs::choice(2, "big value length")] } else { [1usize, MAX_VALUE_SIZE + 1][vs::choice(2, "big value length")] };
            let v = blob(n, "value bytes");
            let r = db.set_big(&lk, &v).is_ok();
            vs::check(r || kl > MAX_KEY_SIZE || small && n > 300, "a big value within the limits was rejected");
            vs::cover(4 + r as u32);
            if r {
                m = Some(v);
            }
            vs::check(vs::eq_opt(&db.get_big(&lk).must("get_big failed"), &m), if r { "accepted big value did not round-trip" } else { "a rejected set_big had an effect" });
        }
    }
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c03_plain", h_c03_plain), ("h_c03_shard", h_c03_shard), ("h_c03_coll", h_c03_coll)];
