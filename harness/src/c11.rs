//! C11 queues, C12 big values
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

/// elements with the indices they were given
#[derive(Clone, Default)]
pub struct Que(pub Vec<(usize, Vec<u8>)>);
fn eq_iv(a: &Option<(usize, Vec<u8>)>, b: Option<&(usize, Vec<u8>)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0 == b.0 && vs::eq(&a.1, &b.1),
        _ => false,
    }
}
fn eq_v(a: &Option<Vec<u8>>, b: Option<&(usize, Vec<u8>)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => vs::eq(a, &b.1),
        _ => false,
    }
}

pub const QUEUE_OPS: usize = 8;
pub fn queue_op(db: &CandyStore, m: &mut Que, q: &[u8], op: usize, v: &[u8], sel: usize) {
    match op {
        0 => {
            let i = db.push_to_queue_head(q, v).must("push_to_queue_head failed");
            vs::check(m.0.first().map_or(true, |e| i < e.0), "pushed at the head but not before the first");
            m.0.insert(0, (i, v.to_vec()));
            vs::cover(0);
        }
        1 => {
            let i = db.push_to_queue_tail(q, v).must("push_to_queue_tail failed");
            vs::check(m.0.last().map_or(true, |e| i > e.0), "pushed at the tail but not after the last");
            m.0.push((i, v.to_vec()));
            vs::cover(1);
        }
        2 => {
            if vs::flag("with index") {
                let r = db.pop_queue_head_with_idx(q).must("pop_queue_head failed");
                vs::check(eq_iv(&r, m.0.first()), "pop_queue_head answered wrongly");
            } else {
                let r = db.pop_queue_head(q).must("pop_queue_head failed");
                vs::check(eq_v(&r, m.0.first()), "pop_queue_head answered wrongly");
            }
            if !m.0.is_empty() {
                m.0.remove(0);
                vs::cover(2);
            }
        }
        3 => {
            if vs::flag("with index") {
                let r = db.pop_queue_tail_with_idx(q).must("pop_queue_tail failed");
                vs::check(eq_iv(&r, m.0.last()), "pop_queue_tail answered wrongly");
            } else {
                let r = db.pop_queue_tail(q).must("pop_queue_tail failed");
                vs::check(eq_v(&r, m.0.last()), "pop_queue_tail answered wrongly");
            }
            if m.0.pop().is_some() {
                vs::cover(3);
            }
        }
        4 => {
            // remove by index: an element, or an index just outside
            let n = m.0.len();
            if sel < n {
                let r = db.remove_from_queue(q, m.0[sel].0).must("remove_from_queue failed");
                vs::check(eq_v(&r, Some(&m.0[sel])), "remove_from_queue answered wrongly");
                m.0.remove(sel);
                vs::cover(4);
            } else {
                let i = if n == 0 { 1usize << 63 } else { m.0[n - 1].0 + 1 };
                let r = db.remove_from_queue(q, i).must("remove_from_queue failed");
                vs::check(r.is_none(), "remove_from_queue removed an element that is not there");
                vs::cover(5);
            }
        }
        5 => {
            let r = db.extend_queue(q, [v, b"e2"].iter()).must("extend_queue failed");
            vs::check(r.end - r.start == 2, "extend_queue returned a wrong range");
            vs::check(m.0.last().map_or(true, |e| r.start > e.0), "extended but not after the last");
            m.0.push((r.start, v.to_vec()));
            m.0.push((r.start + 1, b"e2".to_vec()));
            vs::cover(6);
        }
        6 => {
            let r = db.discard_queue(q).must("discard_queue failed");
            vs::check(r || m.0.is_empty(), "discard_queue reported a missing queue");
            m.0.clear();
            vs::cover(7);
        }
        _ => {
            let none: [&[u8]; 0] = [];
            let r = db.extend_queue(q, none.iter()).must("extend_queue failed");
            vs::check(r.end == r.start, "extend_queue returned a wrong range");
        }
    }
}

pub fn queue_verify(db: &CandyStore, m: &Que, q: &[u8], what: &str) {
    vs::check(db.queue_len(q).must("queue_len failed") == m.0.len(), what);
    let r = db.queue_range(q).must("queue_range failed");
    vs::check(m.0.iter().all(|e| r.contains(&e.0)), what);
    let mut it = db.iter_queue(q);
    for e in &m.0 {
        let (i, v) = it.next().must(what).must("iter_queue failed");
        vs::check(i == e.0 && vs::eq(&v, &e.1), what);
    }
    vs::check(it.next().is_none(), what);
    let mut it = db.iter_queue_backwards(q);
    for e in m.0.iter().rev() {
        let (i, v) = it.next().must(what).must("iter_queue_backwards failed");
        vs::check(i == e.0 && vs::eq(&v, &e.1), what);
    }
    vs::check(it.next().is_none(), what);
    vs::check(eq_iv(&db.peek_queue_head_with_idx(q).must("peek failed"), m.0.first()), what);
    vs::check(eq_iv(&db.peek_queue_tail_with_idx(q).must("peek failed"), m.0.last()), what);
    vs::check(eq_v(&db.peek_queue_head(q).must("peek failed"), m.0.first()), what);
    vs::check(eq_v(&db.peek_queue_tail(q).must("peek failed"), m.0.last()), what);
}

fn collide() {
    if vs::param("collide", 1) == 1 {
        for ns in 1..=7 {
            vs::hash_policy(ns, 0, 0, 1);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c11_seq() {
    collide();
    let db = open();
    let mut m = Que::default();
    let mut o = Que::default();
    queue_op(&db, &mut o, b"other", 1, b"x", 0);
    queue_op(&db, &mut o, b"other", 0, b"y", 0);
    let q = b"queue";
    let n0 = vs::choice(vs::param("initial", 3) + 1, "initial elements");
    for i in 0..n0 {
        let v = vs::bytes(1, "initial value");
        queue_op(&db, &mut m, q, if i == 1 { 0 } else { 1 }, &v, 0);
    }
    for _ in 0..vs::param("ops", 2) {
        let op = vs::choice(QUEUE_OPS, "operation");
        let sel = if op == 4 { vs::choice(m.0.len() + 1, "which") } else { 0 };
        let v = vs::bytes(1, "value");
        queue_op(&db, &mut m, q, op, &v, sel);
    }
    queue_verify(&db, &m, q, "queue differs after the operations");
    queue_verify(&db, &o, b"other", "another queue changed");
    if vs::flag("reopen") {
        drop(db);
        queue_verify(&open(), &m, q, "queue differs after reopening");
        vs::cover(8);
    }
}

/// lengths around the chunk size; the bytes next to chunk boundaries are arbitrary
fn big(n: usize) -> Vec<u8> {
    let mut v = vec![3u8; n];
    for p in [0, MAX_VALUE_SIZE - 1, MAX_VALUE_SIZE, 2 * MAX_VALUE_SIZE - 1, 2 * MAX_VALUE_SIZE, n.wrapping_sub(1)] {
        if p < n {
            v[p] = vs::bytes(1, "value byte")[0];
        }
    }
    v
}

#[no_mangle]
pub extern "C" fn h_c12_seq() {
    collide();
    let c = MAX_VALUE_SIZE;
    let lens = [0, 1, c, c + 1, c - 1, 2 * c, 2 * c + 1, 2 * c - 1];
    let nl = vs::param("lens", 6);
    let db = open();
    db.set_big("other", b"o").must("set_big failed");
    db.set("big", b"plain").must("set failed");
    let mut m: Option<Vec<u8>> = None;
    let n = vs::param("ops", 3);
    for _ in 0..n {
        match vs::choice(3, "operation") {
            0 => {
                let v = big(lens[vs::choice(nl, "length")]);
                let r = db.set_big("big", &v).must("set_big failed");
                vs::check(r == m.is_some(), "set_big reported existence wrongly");
                m = Some(v);
                vs::cover(0);
            }
            1 => {
                let r = db.remove_big(b"big").must("remove_big failed");
                vs::check(r == m.is_some(), "remove_big reported existence wrongly");
                vs::cover(1 + r as u32);
                m = None;
            }
            _ => {}
        }
        let g = db.get_big(b"big").must("get_big failed");
        vs::check(vs::eq_opt(&g, &m), "big value did not round-trip");
    }
    let see = |db: &CandyStore| {
        vs::check(vs::eq_opt(&db.get_big(b"big").must("get_big failed"), &m), "big value differs");
        vs::check(vs::eq_opt(&db.get_big(b"other").must("get_big failed"), &Some(b"o".to_vec())), "another big value changed");
        vs::check(vs::eq_opt(&db.get("big").must("get failed"), &Some(b"plain".to_vec())), "a plain key changed");
        // nothing of removed or overwritten values is left: one header and one chunk per present chunk
        let raw = db.iter_raw().map(|r| r.must("raw iteration failed")).count();
        let chunks = |v: &Vec<u8>| (v.len() + MAX_VALUE_SIZE - 1) / MAX_VALUE_SIZE;
        let want = 1 + 2 + m.as_ref().map_or(0, |v| 1 + chunks(v).max(1));
        vs::check(raw <= want, "a trace of an old big value is left");
    };
    see(&db);
    drop(db);
    see(&open());
    vs::cover(3);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c11_seq", h_c11_seq), ("h_c12_seq", h_c12_seq)];
