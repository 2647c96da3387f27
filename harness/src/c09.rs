//! C09 lists, C10 list compaction
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

/// insertion-ordered dictionary
#[derive(Clone, Default)]
pub struct Lst(pub Vec<(Vec<u8>, Vec<u8>)>);
impl Lst {
    pub fn pos(&self, k: &[u8]) -> Option<usize> {
        self.0.iter().position(|e| vs::eq(&e.0, k))
    }
    pub fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.pos(k).map(|i| self.0[i].1.clone())
    }
}
fn eq_kv(a: &Option<(Vec<u8>, Vec<u8>)>, b: Option<&(Vec<u8>, Vec<u8>)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => vs::eq(&a.0, &b.0) && vs::eq(&a.1, &b.1),
        _ => false,
    }
}

pub const LIST_OPS: usize = 10;
pub fn list_op(db: &CandyStore, m: &mut Lst, l: &[u8], op: usize, k: &[u8], v: &[u8], exp: &[u8]) {
    match op {
        0 => {
            let r = db.set_in_list(l, k, v).must("set_in_list failed");
            match (r, m.pos(k)) {
                (SetStatus::CreatedNew, None) => {
                    m.0.push((k.to_vec(), v.to_vec()));
                    vs::cover(0)
                }
                (SetStatus::PrevValue(a), Some(p)) => {
                    vs::check(vs::eq(&a, &m.0[p].1), "set_in_list returned a wrong previous value");
                    m.0[p].1 = v.to_vec();
                    vs::cover(1)
                }
                _ => vs::fail("set_in_list reported created/existing wrongly"),
            }
        }
        1 => {
            let r = db.set_in_list_promoting(l, k, v).must("set_in_list_promoting failed");
            if let Some(p) = m.pos(k) {
                // remove + insert: reporting the item as created is accepted
                if let SetStatus::PrevValue(a) = r {
                    vs::check(vs::eq(&a, &m.0[p].1), "set_in_list_promoting returned a wrong previous value");
                }
                m.0.remove(p);
                vs::cover(2);
            } else {
                vs::check(r == SetStatus::CreatedNew, "set_in_list_promoting reported existence wrongly");
            }
            m.0.push((k.to_vec(), v.to_vec()));
        }
        2 | 3 => {
            let e = if op == 3 { Some(exp) } else { None };
            let r = db.owned_replace_in_list(l.to_vec(), k.to_vec(), v.to_vec(), e).must("replace_in_list failed");
            match (r, m.pos(k)) {
                (ReplaceStatus::DoesNotExist, None) => vs::cover(3),
                (ReplaceStatus::PrevValue(a), Some(p)) => {
                    vs::check(vs::eq(&a, &m.0[p].1), "replace_in_list returned a wrong previous value");
                    vs::check(op == 2 || vs::eq(exp, &a), "replace_in_list replaced another value than the expected one");
                    m.0[p].1 = v.to_vec();
                    vs::cover(2 + op as u32);
                }
                (ReplaceStatus::WrongValue(a), Some(p)) => {
                    vs::check(vs::eq(&a, &m.0[p].1), "replace_in_list reported a wrong present value");
                    vs::check(op == 3 && !vs::eq(exp, &a), "replace_in_list refused the expected value");
                    vs::cover(6);
                }
                _ => vs::fail("replace_in_list reported existence wrongly"),
            }
        }
        4 => {
            let r = db.get_or_create_in_list(l, k, v).must("get_or_create_in_list failed");
            match (r, m.pos(k)) {
                (GetOrCreateStatus::CreatedNew(a), None) => {
                    vs::check(vs::eq(&a, v), "get_or_create_in_list returned a wrong default");
                    m.0.push((k.to_vec(), v.to_vec()));
                }
                (GetOrCreateStatus::ExistingValue(a), Some(p)) => {
                    vs::check(vs::eq(&a, &m.0[p].1), "get_or_create_in_list returned a wrong value");
                    vs::cover(7);
                }
                _ => vs::fail("get_or_create_in_list reported existence wrongly"),
            }
        }
        5 => {
            let r = db.remove_from_list(l, k).must("remove_from_list failed");
            vs::check(vs::eq_opt(&r, &m.get(k)), "remove_from_list answered wrongly");
            if let Some(p) = m.pos(k) {
                m.0.remove(p);
                vs::cover(8);
            }
        }
        6 => {
            let r = db.pop_list_head(l).must("pop_list_head failed");
            vs::check(eq_kv(&r, m.0.first()), "pop_list_head answered wrongly");
            if !m.0.is_empty() {
                m.0.remove(0);
                vs::cover(9);
            }
        }
        7 => {
            let r = db.pop_list_tail(l).must("pop_list_tail failed");
            vs::check(eq_kv(&r, m.0.last()), "pop_list_tail answered wrongly");
            if m.0.pop().is_some() {
                vs::cover(10);
            }
        }
        8 => {
            let r = db.discard_list(l).must("discard_list failed");
            // a list all of whose items were removed may or may not still exist
            vs::check(r || m.0.is_empty(), "discard_list reported a missing list");
            m.0.clear();
            vs::cover(11);
        }
        _ => {
            let r = db.get_from_list(l, k).must("get_from_list failed");
            vs::check(vs::eq_opt(&r, &m.get(k)), "get_from_list answered wrongly");
        }
    }
}

/// everything observable about a list agrees with the model
pub fn list_verify(db: &CandyStore, m: &Lst, l: &[u8], items: &[Vec<u8>], what: &str) {
    vs::check(db.list_len(l).must("list_len failed") == m.0.len(), what);
    let mut it = db.iter_list(l);
    for e in &m.0 {
        let (k, v) = it.next().must(what).must("iter_list failed");
        vs::check(vs::eq(&k, &e.0), what);
        vs::check(vs::eq(&v, &e.1), what);
    }
    vs::check(it.next().is_none(), what);
    let mut it = db.iter_list_backwards(l);
    for e in m.0.iter().rev() {
        let (k, v) = it.next().must(what).must("iter_list_backwards failed");
        vs::check(vs::eq(&k, &e.0), what);
        vs::check(vs::eq(&v, &e.1), what);
    }
    vs::check(it.next().is_none(), what);
    vs::check(eq_kv(&db.peek_list_head(l).must("peek failed"), m.0.first()), what);
    vs::check(eq_kv(&db.peek_list_tail(l).must("peek failed"), m.0.last()), what);
    for k in items {
        vs::check(vs::eq_opt(&db.get_from_list(l, k).must("get_from_list failed"), &m.get(k)), what);
    }
}

pub fn items(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| vec![b'a' + i as u8]).collect()
}

/// a prefix of the items inserted, then one removed (a hole), or not
fn prefill(db: &CandyStore, m: &mut Lst, l: &[u8], its: &[Vec<u8>]) {
    let n = vs::choice(its.len() + 1, "initial items");
    for k in its.iter().take(n) {
        let v = vs::bytes(1, "initial value");
        list_op(db, m, l, 0, k, &v, &[]);
    }
    if n > 2 && vs::flag("hole") {
        list_op(db, m, l, 5, &its[1], &[], &[]);
    }
}

#[no_mangle]
pub extern "C" fn h_c09_seq() {
    collide();
    let db = open();
    let its = items(vs::param("items", 3));
    let mut m = Lst::default();
    // a second list with the same item keys, which nothing may touch
    db.set_in_list("other", &its[0], "x").must("set_in_list failed");
    db.set_in_list("other", &its[1], "y").must("set_in_list failed");
    let l = b"list";
    prefill(&db, &mut m, l, &its);
    let n = vs::param("ops", 2);
    for _ in 0..n {
        let op = vs::choice(LIST_OPS, "operation");
        // pops and discard take no item
        let k = if op >= 6 && op <= 8 { &its[0] } else { &its[vs::choice(its.len(), "item")] };
        let v = vs::bytes(1, "value");
        let e = vs::bytes(1, "expected");
        list_op(&db, &mut m, l, op, k, &v, &e);
    }
    list_verify(&db, &m, l, &its, "list differs after the operations");
    let o = Lst(vec![(its[0].clone(), b"x".to_vec()), (its[1].clone(), b"y".to_vec())]);
    list_verify(&db, &o, b"other", &its, "another list changed");
    if vs::flag("reopen") {
        drop(db);
        list_verify(&open(), &m, l, &its, "list differs after reopening");
        vs::cover(12);
    }
}
/// all list items, chains and headers hash to one row and signature, but different lists have different names' hashes
fn collide() {
    if vs::param("collide", 1) == 1 {
        for ns in 1..=7 {
            vs::hash_policy(ns, 0, if ns == NS_LIST { 0xff00 } else { 0 }, 1);
        }
    }
}

/// compaction of a list at any point of a history
#[no_mangle]
pub extern "C" fn h_c10_compact() {
    collide();
    let db = open();
    let its = items(vs::param("items", 3));
    let mut m = Lst::default();
    db.set_in_list("other", &its[0], "x").must("set_in_list failed");
    let l = b"list";
    for k in its.iter() {
        let v = vs::bytes(1, "initial value");
        list_op(&db, &mut m, l, 0, k, &v, &[]);
    }
    for _ in 0..vs::param("before", 2) {
        let op = [9, 1, 5, 6, 7][vs::choice(5, "operation")];
        let k = &its[if op == 1 || op == 5 { vs::choice(its.len(), "item") } else { 0 }];
        list_op(&db, &mut m, l, op, k, b"n", &[]);
    }
    let p = match vs::choice(4, "parameters") {
        0 => ListCompactionParams { min_length: 0, min_holes_ratio: 0.0 },
        1 => ListCompactionParams { min_length: 0, min_holes_ratio: 0.3 },
        2 => ListCompactionParams { min_length: 3, min_holes_ratio: 0.0 },
        _ => ListCompactionParams::default(),
    };
    let always = p.min_length == 0 && p.min_holes_ratio == 0.0;
    let never = p.min_length > 50;
    let existed = db.list_len(l).must("list_len failed") > 0;
    let r = db.compact_list_if_needed(l, p).must("compact_list_if_needed failed");
    vs::check(!(never && r), "a list shorter than the minimal length was compacted");
    vs::check(!(always && existed && !r), "a list was not compacted although the parameters demand it");
    vs::cover(20 + r as u32);
    list_verify(&db, &m, l, &its, "list differs after its compaction");
    for _ in 0..vs::param("after", 1) {
        let op = vs::choice(LIST_OPS, "operation after");
        let k = if op >= 6 && op <= 8 { &its[0] } else { &its[vs::choice(its.len(), "item")] };
        let v = vs::bytes(1, "value");
        list_op(&db, &mut m, l, op, k, &v, &v);
    }
    list_verify(&db, &m, l, &its, "list unusable after its compaction");
    let o = Lst(vec![(its[0].clone(), b"x".to_vec())]);
    list_verify(&db, &o, b"other", &its, "another list changed");
    drop(db);
    list_verify(&open(), &m, l, &its, "list differs after its compaction and reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c09_seq", h_c09_seq), ("h_c10_compact", h_c10_compact)];
