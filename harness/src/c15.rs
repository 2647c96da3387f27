//! C15: any two operations at the same time, including splits, compaction, merging and clearing
use crate::c04::full_verify;
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;
use std::sync::Arc;

const KINDS: usize = 11;
const CLEAR: usize = 8;
/// one call (or a few) of thread `t`, which owns the keys u<t> and n<t>
fn run(db: &CandyStore, kind: usize, t: u8) {
    let (own, new) = ([b'u', t], [b'n', t]);
    match kind {
        0 => drop(db.set(&new, "1").must("set failed")),
        1 => drop(db.set(&own, "2").must("set failed")),
        2 => drop(db.get(&own).must("get failed")),
        3 => drop(db.remove(&own).must("remove failed")),
        4 => {
            for x in db.iter() {
                x.must("iteration failed");
            }
        }
        5 => {
            let s = db.stats();
            vs::check(s.num_entries() < 100, "the statistics report an absurd number of entries");
            vs::check(s.data_bytes() < 10000, "the statistics report an absurd number of bytes");
        }
        6 => db.flush().must("flush failed"),
        7 => drop(db.merge_small_shards(0.49).must("merge_small_shards failed")),
        CLEAR => db.clear().must("clear failed"),
        9 => {
            db.set_in_list("l", &own, "3").must("set_in_list failed");
            db.pop_list_tail("l").must("pop_list_tail failed");
        }
        _ => {
            db.push_to_queue_tail("q", "3").must("push_to_queue_tail failed");
            db.pop_queue_head("q").must("pop_queue_head failed");
        }
    }
}
fn expect(m: &mut Map, kind: usize, t: u8) {
    let (own, new) = ([b'u', t], [b'n', t]);
    match kind {
        0 => drop(m.set(&new, b"1")),
        1 => drop(m.set(&own, b"2")),
        3 => drop(m.remove(&own)),
        _ => {}
    }
}

#[no_mangle]
pub extern "C" fn h_c15_pairs() {
    // plain keys fall in the lower half and one row, lists too, queues in the upper half
    for ns in [NS_USER, NS_LIST, NS_ITEM, NS_CHAIN, NS_QUEUE, NS_QITEM] {
        let user = ns == NS_USER;
        vs::hash_policy(ns, 0, 0x3fffu64 << 48 | if user { 0 } else { H_ROW }, if ns >= NS_QUEUE { H_SHARD0 | 1 } else { 1 });
    }
    let cfg = |expected| Config { min_compaction_threashold: 4, expected_number_of_keys: expected, num_compaction_threads: vs::param("threads", 1),
        #[cfg(feature = "agg")]
        flush_aggregation_delay: Some(std::time::Duration::from_millis(1)),
        ..config()
    };
    if vs::param("shards", 2) == 2 {
        drop(open_with(cfg(8)));
    }
    let db = Arc::new(open_with(cfg(0)));
    let mut m = Map::default();
    let mut ks: Vec<Vec<u8>> = vec![b"x".to_vec(), b"y".to_vec()];
    for t in 0..2u8 {
        ks.push(vec![b'u', t]);
    }
    let init = vs::bytes(1, "initial value");
    for k in &ks {
        db.set(k, &init).must("set failed");
        m.set(k, &init);
    }
    for t in 0..2u8 {
        ks.push(vec![b'n', t]);
    }
    let pick = |from: &str, to: &str, tag: &str| {
        let lo = vs::param(from, 0);
        lo + vs::choice(vs::param(to, KINDS as u64) - lo, tag)
    };
    let (a, b) = (pick("a0", "a1", "first operation"), pick("b0", "b1", "second operation"));
    // nothing to compact; the next insertion starts a compaction; a compaction has been started
    let waste = match vs::param("waste", 3) {
        // the operations on collections are made of the others
        3 if a >= 9 || b >= 9 => 2,
        3 => vs::choice(3, "compaction"),
        w => w,
    };
    for v in ["w", "ww", "www"].iter().take([0, 2, 3][waste]) {
        db.set("x", v).must("set failed");
        m.set(b"x", v.as_bytes());
        db.push_to_queue_tail("q", v).must("push_to_queue_tail failed");
    }
    // the second thread may go on with another one
    let c = if vs::param("c1", 0) > 0 { Some(pick("c0", "c1", "third operation")) } else { None };
    vs::preempt(vs::param("preempt", 1) as u64, vs::param("flags", 0) as u64);
    let db2 = db.clone();
    let t = std::thread::spawn(move || {
        run(&db2, b, 1);
        if let Some(c) = c {
            run(&db2, c, 1);
        }
    });
    run(&db, a, 0);
    t.join().must("a thread panicked");
    vs::preempt(0, 0);
    vs::cover(0);
    expect(&mut m, a, 0);
    expect(&mut m, b, 1);
    if let Some(c) = c {
        expect(&mut m, c, 1);
    }
    let mut f = Map::default();
    let cleared = a == CLEAR || b == CLEAR || c == Some(CLEAR);
    for k in &ks {
        let got = db.get(k).must("get failed");
        match got {
            Some(v) => {
                vs::check(vs::eq_opt(&Some(v.clone()), &m.get(k)), "an entry has a wrong value after concurrent operations");
                f.set(k, &v);
            }
            None => vs::check(cleared || m.get(k).is_none(), "an entry was lost by concurrent operations"),
        }
    }
    if cleared {
        vs::check(f.get(b"x").is_none() && f.get(b"y").is_none(), "an entry survived clear");
        vs::cover(1);
    } else if db.stats().num_compactions > 0 {
        vs::cover(2);
    }
    let n = db.stats().num_shards;
    vs::cover(9 + n.min(4) as u32);
    full_verify(&db, &f, &ks, "iteration differs from the lookups after concurrent operations");
    db.set("x", "9").must("set failed after concurrent operations");
    f.set(b"x", b"9");
    drop(db);
    full_verify(&open_with(cfg(0)), &f, &ks, "content differs after concurrent operations and reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c15_pairs", h_c15_pairs)];
