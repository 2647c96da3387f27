//! C21: a crash at any point of an operation on a list, a queue or a big value
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

type Kv = Vec<(Vec<u8>, Vec<u8>)>;
const OP: u64 = 20; // [collection, kind, item, index, crashed after completion, crashes so far]
const ALLOWED: u64 = 21; // states allowed afterwards
const L: &str = "l";
const OTHER: &str = "m";
const FIRST: u64 = 1 << 63;

fn put(b: &mut Vec<u8>, s: &Kv) {
    b.push(s.len() as u8);
    for (k, v) in s {
        for x in [k, v] {
            b.push(x.len() as u8);
            b.extend_from_slice(x);
        }
    }
}
fn save(slot: u64, states: &[Kv]) {
    let mut b = vec![states.len() as u8];
    for s in states {
        put(&mut b, s);
    }
    vs::stash(slot, &b);
}
fn load(slot: u64) -> Vec<Kv> {
    let b = vs::unstash(slot).must("stash");
    let mut p = 1;
    let mut take = |p: &mut usize| {
        let n = b[*p] as usize;
        let r = b[*p + 1..*p + 1 + n].to_vec();
        *p += 1 + n;
        r
    };
    (0..b[0])
        .map(|_| {
            let n = b[p];
            p += 1;
            (0..n).map(|_| (take(&mut p), take(&mut p))).collect()
        })
        .collect()
}
fn same(a: &Kv, b: &Kv) -> bool {
    a.len() == b.len() && {
        let mut ok = true;
        for (x, y) in a.iter().zip(b) {
            ok &= vs::eq(&x.0, &y.0) & vs::eq(&x.1, &y.1);
        }
        ok
    }
}
/// b with some elements missing
fn sub(a: &Kv, b: &Kv) -> bool {
    let mut i = 0;
    for x in a {
        while i < b.len() && !vs::eq(&x.0, &b[i].0) {
            i += 1;
        }
        if i == b.len() || !vs::eq(&x.1, &b[i].1) {
            return false;
        }
        i += 1;
    }
    true
}

fn policy() {
    for ns in [NS_USER, NS_LIST, NS_ITEM, NS_CHAIN, NS_QUEUE, NS_QITEM] {
        let rows = vs::param("rows", 0) == 1 && matches!(ns, NS_ITEM | NS_CHAIN | NS_QUEUE | NS_QITEM);
        vs::hash_policy(ns, if rows { H_ROW } else { 0 }, if ns == NS_LIST { 0xff00 } else { 0 }, 1);
    }
}

/// what a list holds; what lookups find, iteration must find as well
fn see_list(db: &CandyStore, l: &str) -> Kv {
    let mut m: Kv = vec![];
    for x in db.iter_list(l) {
        m.push(x.must("iter_list failed after a crash"));
        vs::check(m.len() < 12, "iteration over a list does not end after a crash");
    }
    let mut back: Kv = db.iter_list_backwards(l).map(|x| x.must("iter_list_backwards failed after a crash")).collect();
    back.reverse();
    vs::check(same(&m, &back), "iterating a list backwards differs after a crash");
    for k in ["a", "b", "c", "d"] {
        let g = db.get_from_list(l, k).must("get_from_list failed after a crash");
        let e = m.iter().find(|x| vs::eq(&x.0, k.as_bytes())).map(|x| x.1.clone());
        vs::check(vs::eq_opt(&g, &e), "lookups and iteration of a list differ after a crash");
    }
    let n = db.list_len(l).must("list_len failed after a crash");
    vs::check(n >= m.len() && n < 14, "the length of a list is absurd after a crash");
    m
}
fn see_queue(db: &CandyStore, q: &str) -> Kv {
    let mut m: Kv = vec![];
    for x in db.iter_queue(q) {
        let (i, v) = x.must("iter_queue failed after a crash");
        m.push(((i as u64).to_be_bytes().to_vec(), v));
        vs::check(m.len() < 12, "iteration over a queue does not end after a crash");
    }
    let mut back: Kv = db.iter_queue_backwards(q).map(|x| x.must("iter_queue failed after a crash")).map(|(i, v)| ((i as u64).to_be_bytes().to_vec(), v)).collect();
    back.reverse();
    vs::check(same(&m, &back), "iterating a queue backwards differs after a crash");
    let n = db.queue_len(q).must("queue_len failed after a crash");
    vs::check(n >= m.len() && n < 14, "the length of a queue is absurd after a crash");
    m
}

fn list_apply(m: &mut Kv, kind: usize, k: &str, v: &[u8]) {
    let p = m.iter().position(|x| vs::eq(&x.0, k.as_bytes()));
    let mut put = |m: &mut Kv| match p {
        Some(i) => m[i].1 = v.to_vec(),
        None => m.push((k.into(), v.to_vec())),
    };
    match kind {
        0 => put(m),
        1 => {
            if let Some(i) = p {
                m.remove(i);
            }
            m.push((k.into(), v.to_vec()));
        }
        2 => {
            if let Some(i) = p {
                m.remove(i);
            }
        }
        3 if !m.is_empty() => drop(m.remove(0)),
        4 => drop(m.pop()),
        5 if p.is_none() => put(m),
        6 if p.is_some() => put(m),
        7 => m.clear(),
        _ => {}
    }
}
const LIST_KINDS: usize = 8;
/// runs one operation; the answer is checked against `m`, which holds the present content
fn list_op(db: &CandyStore, m: &mut Kv, kind: usize, k: &str, v: &[u8]) {
    let p = m.iter().position(|x| vs::eq(&x.0, k.as_bytes()));
    let old = p.map(|i| m[i].1.clone());
    match kind {
        0 => match db.set_in_list(L, k, v).must("set_in_list failed") {
            SetStatus::CreatedNew => vs::check(old.is_none(), "set_in_list answered wrongly"),
            SetStatus::PrevValue(o) => vs::check(vs::eq_opt(&Some(o), &old), "set_in_list answered wrongly"),
        },
        1 => drop(db.set_in_list_promoting(L, k, v).must("set_in_list_promoting failed")),
        2 => vs::check(vs::eq_opt(&db.remove_from_list(L, k).must("remove_from_list failed"), &old), "remove_from_list answered wrongly"),
        3 | 4 => {
            let r = if kind == 3 { db.pop_list_head(L) } else { db.pop_list_tail(L) }.must("pop failed");
            let e = if kind == 3 { m.first() } else { m.last() };
            vs::check(
                match (&r, e) {
                    (None, None) => true,
                    (Some(r), Some(e)) => vs::eq(&r.0, &e.0) & vs::eq(&r.1, &e.1),
                    _ => false,
                },
                "pop answered wrongly",
            );
        }
        5 => {
            let r = db.get_or_create_in_list(L, k, v).must("get_or_create_in_list failed");
            vs::check(r.was_created() == old.is_none(), "get_or_create_in_list answered wrongly");
            vs::check(vs::eq(&r.value(), old.as_ref().map_or(v, |o| &o[..])), "get_or_create_in_list answered wrongly");
        }
        6 => {
            let r = db.replace_in_list(L, k, v, None).must("replace_in_list failed");
            vs::check(r.was_replaced() == old.is_some(), "replace_in_list answered wrongly");
        }
        _ => drop(db.discard_list(L).must("discard_list failed")),
    }
    list_apply(m, kind, k, v);
}

fn queue_apply(m: &mut Kv, range: &mut (u64, u64), kind: usize, i: u64, v: &[u8]) {
    let key = |i: u64| i.to_be_bytes().to_vec();
    let first = range.0 == range.1;
    if first {
        *range = (FIRST, FIRST);
    }
    match kind {
        0 if !first => {
            range.0 -= 1;
            m.insert(0, (key(range.0), v.to_vec()));
        }
        0 | 1 => {
            m.push((key(range.1), v.to_vec()));
            range.1 += 1;
        }
        2 if !m.is_empty() => drop(m.remove(0)),
        3 => drop(m.pop()),
        4 => m.retain(|x| !vs::eq(&x.0, &key(i))),
        5 => {
            for s in [v, b"+"] {
                m.push((key(range.1), s.to_vec()));
                range.1 += 1;
            }
        }
        6 => m.clear(),
        _ => {}
    }
}
const QUEUE_KINDS: usize = 7;
fn queue_op(db: &CandyStore, m: &mut Kv, kind: usize, i: u64, v: &[u8], strict: bool) {
    let key = |i: u64| i.to_be_bytes().to_vec();
    match kind {
        // where a crash has left a hole at an end, pushing may skip its index, but indices stay in order
        0 => {
            let r = db.push_to_queue_head(L, v).must("push failed") as u64;
            vs::check(m.is_empty() || key(r) < m[0].0, "push_to_queue_head returned an index out of order");
            m.insert(0, (key(r), v.to_vec()));
        }
        1 => {
            let r = db.push_to_queue_tail(L, v).must("push failed") as u64;
            vs::check(m.is_empty() || key(r) > m[m.len() - 1].0, "push_to_queue_tail returned an index out of order");
            m.push((key(r), v.to_vec()));
        }
        2 | 3 => {
            let r = if kind == 2 { db.pop_queue_head_with_idx(L) } else { db.pop_queue_tail_with_idx(L) }.must("pop failed");
            let e = if m.is_empty() { None } else { Some(m.remove(if kind == 2 { 0 } else { m.len() - 1 })) };
            vs::check(
                match (&r, &e) {
                    (None, None) => true,
                    (Some(r), Some(e)) => vs::eq(&key(r.0 as u64), &e.0) & vs::eq(&r.1, &e.1),
                    _ => false,
                },
                "pop answered wrongly",
            );
        }
        4 => {
            let r = db.remove_from_queue(L, i as usize).must("remove_from_queue failed");
            let e = m.iter().find(|x| vs::eq(&x.0, &key(i))).map(|x| x.1.clone());
            vs::check(vs::eq_opt(&r, &e), "remove_from_queue answered wrongly");
            m.retain(|x| !vs::eq(&x.0, &key(i)));
        }
        5 => {
            let r = db.extend_queue(L, [v, b"+"].iter()).must("extend_queue failed");
            vs::check(r.end - r.start == 2 && (m.is_empty() || key(r.start as u64) > m[m.len() - 1].0), "extend_queue returned a wrong range");
            m.push((key(r.start as u64), v.to_vec()));
            m.push((key(r.start as u64 + 1), b"+".to_vec()));
        }
        _ => {
            let r = db.discard_queue(L).must("discard_queue failed");
            vs::check(r | m.is_empty(), "discard_queue answered wrongly");
            m.clear();
        }
    }
    _ = strict;
}

fn others(db: &CandyStore) {
    vs::check(vs::eq_opt(&db.get("a").must("get failed"), &Some(b"p".to_vec())), "a plain key was affected by a crash");
    vs::check(same(&see_list(db, OTHER), &vec![(b"a".to_vec(), b"x".to_vec())]), "another list was affected by a crash");
    vs::check(same(&see_queue(db, OTHER), &vec![(FIRST.to_be_bytes().to_vec(), b"y".to_vec())]), "another queue was affected by a crash");
}
fn setup_others(db: &CandyStore) {
    db.set("a", "p").must("set failed");
    db.set_in_list(OTHER, "a", "x").must("set_in_list failed");
    db.push_to_queue_tail(OTHER, "y").must("push failed");
}

extern "C" fn recover_list() {
    let o = vs::unstash(OP).must("stash");
    let (kind, n) = (o[1] as usize, o[5] + 1);
    vs::stash(OP, &[o[0], o[1], o[2], o[3], o[4], n]);
    let allowed = load(ALLOWED);
    let db = match CandyStore::open(DIR, config()) {
        Ok(db) => db,
        Err(_) => vs::fail("the store cannot be opened after a crash"),
    };
    vs::cover(40 + o[4] as u32);
    others(&db);
    let mut m = see_list(&db, L);
    if o[4] == 1 {
        vs::check(same(&m, &allowed[0]), "a completed list operation was lost by a crash");
    } else {
        let mut ok = false;
        for a in &allowed {
            ok |= same(&m, a);
        }
        if kind == 7 {
            ok |= sub(&m, allowed.last().unwrap());
        }
        vs::check(ok, "a crash in a list operation lost, altered or reordered items");
    }
    vs::note("recovered");
    // the list is usable
    let kind = vs::choice(LIST_KINDS, "operation afterwards");
    let k = if kind == 3 || kind == 4 || kind == 7 { "a" } else { [["a", "c", "b"][o[2] as usize % 3], "b", "d"][vs::choice(vs::param("after", 2), "item afterwards")] };
    let again = (n as usize) < vs::param("crashes", 1);
    if again {
        let mut after = m.clone();
        list_apply(&mut after, kind, k, b"zz");
        let mut st = vec![after, m.clone()];
        if kind == 1 {
            let mut gone = m.clone();
            list_apply(&mut gone, 2, k, b"");
            st.insert(1, gone);
        }
        save(ALLOWED, &st);
        vs::stash(OP, &[0, kind as u8, o[2], 0, 0, n]);
        vs::crash_begin(recover_list);
    }
    list_op(&db, &mut m, kind, k, b"zz");
    if again {
        vs::crash_end();
        vs::cover(42);
        return;
    }
    vs::check(same(&see_list(&db, L), &m), "a list does not work after a crash");
    others(&db);
    drop(db);
    vs::check(same(&see_list(&open(), L), &m), "a list does not work after a crash and reopening");
}

#[no_mangle]
pub extern "C" fn h_c21_list() {
    policy();
    let db = open();
    setup_others(&db);
    let mut m: Kv = vec![];
    let init = vs::bytes(1, "initial value");
    let n = vs::choice(vs::param("items", 3) + 1, "initial items");
    for k in ["a", "b", "c"].iter().take(n) {
        list_op(&db, &mut m, 0, k, &init);
    }
    if n == 3 && vs::flag("hole") {
        list_op(&db, &mut m, 2, "b", &init);
    }
    let kind = vs::choice(LIST_KINDS, "operation in flight");
    let i = if kind == 3 || kind == 4 || kind == 7 { 0 } else { vs::choice(3, "item in flight") };
    let k = ["a", "c", "b"][i];
    let v = vs::bytes(1, "new value");
    let mut after = m.clone();
    list_apply(&mut after, kind, k, &v);
    let mut st = vec![after];
    if kind == 1 {
        let mut gone = m.clone();
        list_apply(&mut gone, 2, k, b"");
        st.push(gone);
    }
    st.push(m.clone());
    save(ALLOWED, &st);
    vs::stash(OP, &[0, kind as u8, i as u8, 0, 0, 0]);
    vs::crash_begin(recover_list);
    list_op(&db, &mut m, kind, k, &v);
    vs::crash_end();
    vs::stash(OP, &[0, kind as u8, i as u8, 0, 1, 0]);
    vs::cover(kind as u32);
    vs::crash_now(recover_list);
}

extern "C" fn recover_queue() {
    let o = vs::unstash(OP).must("stash");
    let (kind, n) = (o[1] as usize, o[5] + 1);
    let allowed = load(ALLOWED);
    let db = match CandyStore::open(DIR, config()) {
        Ok(db) => db,
        Err(_) => vs::fail("the store cannot be opened after a crash"),
    };
    vs::cover(40 + o[4] as u32);
    others(&db);
    let mut m = see_queue(&db, L);
    if o[4] == 1 {
        vs::check(same(&m, &allowed[0]), "a completed queue operation was lost by a crash");
    } else {
        let mut ok = false;
        for a in &allowed {
            ok |= same(&m, a);
        }
        if kind == 6 {
            ok |= sub(&m, allowed.last().unwrap());
        }
        vs::check(ok, "a crash in a queue operation lost or altered elements");
    }
    let kind = vs::choice(QUEUE_KINDS, "operation afterwards");
    // an index in use, a hole, or just outside
    let i = FIRST + if kind == 4 { vs::choice(5, "index afterwards") as u64 } else { 1 } - 1;
    let again = (n as usize) < vs::param("crashes", 1);
    if again {
        let mut st = vec![];
        let mut after = m.clone();
        // pushes may skip an index here, so only operations that remove, or any state with the new element
        let mut range = db.queue_range(L).map_or((FIRST, FIRST), |r| (r.start as u64, r.end as u64));
        queue_apply(&mut after, &mut range, kind, i, b"zz");
        st.push(after.clone());
        if kind == 5 {
            after.pop();
            st.push(after);
        }
        if kind == 0 && m.is_empty() {
            // the queue may exist without elements
            st.push(vec![((FIRST - 1).to_be_bytes().to_vec(), b"zz".to_vec())]);
        }
        st.push(m.clone());
        save(ALLOWED, &st);
        vs::stash(OP, &[1, kind as u8, 0, 0, 0, n]);
        vs::crash_begin(recover_queue);
    }
    queue_op(&db, &mut m, kind, i, b"zz", false);
    if again {
        vs::crash_end();
        vs::cover(42);
        return;
    }
    vs::check(same(&see_queue(&db, L), &m), "a queue does not work after a crash");
    // and once more
    let kind = vs::choice(4, "second operation afterwards");
    queue_op(&db, &mut m, kind, 0, b"ww", false);
    vs::check(same(&see_queue(&db, L), &m), "a queue does not work after a crash");
    others(&db);
    drop(db);
    vs::check(same(&see_queue(&open(), L), &m), "a queue does not work after a crash and reopening");
}

#[no_mangle]
pub extern "C" fn h_c21_queue() {
    policy();
    let db = open();
    setup_others(&db);
    let mut m: Kv = vec![];
    let mut range = (FIRST, FIRST);
    let n = vs::choice(vs::param("items", 3) + 1, "initial elements");
    for _ in 0..n {
        let v = vs::bytes(1, "initial value");
        queue_op(&db, &mut m, 1, 0, &v, true);
        range.1 += 1;
    }
    if n == 3 && vs::flag("hole") {
        queue_op(&db, &mut m, 4, FIRST + 1, b"", true);
    }
    let kind = vs::choice(QUEUE_KINDS, "operation in flight");
    let i = FIRST + if kind == 4 { vs::choice(3, "index in flight") as u64 } else { 0 };
    let v = vs::bytes(1, "new value");
    let mut after = m.clone();
    queue_apply(&mut after, &mut range, kind, i, &v);
    let mut st = vec![after.clone()];
    if kind == 5 {
        after.pop();
        st.push(after);
    }
    st.push(m.clone());
    save(ALLOWED, &st);
    vs::stash(OP, &[1, kind as u8, 0, 0, 0, 0]);
    vs::crash_begin(recover_queue);
    queue_op(&db, &mut m, kind, i, &v, true);
    vs::crash_end();
    vs::stash(OP, &[1, kind as u8, 0, 0, 1, 0]);
    vs::cover(kind as u32);
    vs::crash_now(recover_queue);
}

const LENS: [usize; 4] = [0, 1, MAX_VALUE_SIZE + 1, 2 * MAX_VALUE_SIZE + 1];
fn big(len: usize, c: u8) -> Vec<u8> {
    // every chunk is recognizable
    (0..len).map(|i| c + (i / MAX_VALUE_SIZE) as u8).collect()
}
extern "C" fn recover_big() {
    let o = vs::unstash(OP).must("stash");
    let db = match CandyStore::open(DIR, config()) {
        Ok(db) => db,
        Err(_) => vs::fail("the store cannot be opened after a crash"),
    };
    vs::cover(40 + o[4] as u32);
    let (old, new) = (if o[0] == 0 { None } else { Some(big(LENS[o[0] as usize - 1], b'a')) }, if o[1] == 0 { None } else { Some(big(LENS[o[1] as usize - 1], b'n')) });
    let got = db.get_big(L.as_bytes()).must("get_big failed after a crash");
    if o[4] == 1 {
        vs::check(got == new, "a completed big value operation was lost by a crash");
    } else if got != old && got != new {
        // partial results are possible, but they consist of the old or of the new chunks
        match &got {
            None => {}
            Some(g) => vs::check(old.as_ref().is_some_and(|x| x.ends_with(g)) || new.as_ref().is_some_and(|x| x.starts_with(g)), "a big value is garbled after a crash"),
        }
    }
    vs::check(vs::eq_opt(&db.get_big(OTHER.as_bytes()).must("get_big failed"), &Some(b"other".to_vec())), "another big value was affected by a crash");
    if vs::flag("set afterwards") {
        let len = LENS[vs::choice(3, "length afterwards")];
        db.set_big(L, &big(len, b'z')).must("set_big failed after a crash");
        vs::check(db.get_big(L.as_bytes()).must("get_big failed") == Some(big(len, b'z')), "a big value cannot be set after a crash");
        drop(db);
        vs::check(open().get_big(L.as_bytes()).must("get_big failed") == Some(big(len, b'z')), "a big value cannot be set after a crash");
    } else {
        db.remove_big(L.as_bytes()).must("remove_big failed after a crash");
        vs::check(db.get_big(L.as_bytes()).must("get_big failed").is_none(), "a big value cannot be removed after a crash");
    }
}
#[no_mangle]
pub extern "C" fn h_c21_big() {
    policy();
    let db = open();
    db.set_big(OTHER, "other").must("set_big failed");
    let old = vs::choice(1 + LENS.len(), "old length");
    if old > 0 {
        db.set_big(L, &big(LENS[old - 1], b'a')).must("set_big failed");
    }
    let new = vs::choice(1 + LENS.len(), "new length");
    vs::stash(OP, &[old as u8, new as u8, 0, 0, 0, 0]);
    vs::crash_begin(recover_big);
    if new > 0 {
        vs::check(db.set_big(L, &big(LENS[new - 1], b'n')).must("set_big failed") == (old > 0), "set_big answered wrongly");
    } else {
        vs::check(db.remove_big(L.as_bytes()).must("remove_big failed") == (old > 0), "remove_big answered wrongly");
    }
    vs::crash_end();
    vs::stash(OP, &[old as u8, new as u8, 0, 0, 1, 0]);
    vs::crash_now(recover_big);
}

// ------------------------------------------------------------------ C22: one failing file operation
fn fault_store() -> (CandyStore, Config) {
    policy();
    let c = Config { min_compaction_threashold: [1 << 19, 40][vs::choice(2, "compaction threshold")], ..config() };
    let db = open_with(c.clone());
    setup_others(&db);
    (db, c)
}
/// whether the operation failed, and whether a file operation did
fn faulty(f: impl FnOnce() -> bool) -> (bool, bool) {
    vs::fault_begin(0xff, 1);
    let failed = f();
    let left = vs::fault_end();
    vs::check(!failed || left == 0, "an operation failed although no file operation did");
    if left == 0 {
        vs::cover(40 + failed as u32);
    }
    (failed, left == 0)
}

#[no_mangle]
pub extern "C" fn h_c22_list() {
    let (db, c) = fault_store();
    let mut m: Kv = vec![];
    let init = vs::bytes(1, "initial value");
    let n = vs::choice(vs::param("items", 3) + 1, "initial items");
    for k in ["a", "b", "c"].iter().take(n) {
        list_op(&db, &mut m, 0, k, &init);
    }
    if n == 3 && vs::flag("hole") {
        list_op(&db, &mut m, 2, "b", &init);
    }
    let kind = vs::choice(LIST_KINDS + 1, "operation");
    let i = if matches!(kind, 3 | 4 | 7 | 8) { 0 } else { vs::choice(3, "item") };
    let k = ["a", "c", "b"][i];
    let v = vs::bytes(1, "new value");
    let (failed, hit) = faulty(|| match kind {
        0 => db.set_in_list(L, k, &v).is_err(),
        1 => db.set_in_list_promoting(L, k, &v).is_err(),
        2 => db.remove_from_list(L, k).is_err(),
        3 => db.pop_list_head(L).is_err(),
        4 => db.pop_list_tail(L).is_err(),
        5 => db.get_or_create_in_list(L, k, &v).is_err(),
        6 => db.replace_in_list(L, k, &v, None).is_err(),
        7 => db.discard_list(L).is_err(),
        _ => db.iter_list(L).any(|x| x.is_err()) || db.get_from_list(L, k).is_err() || db.list_len(L).is_err() || db.peek_list_tail(L).is_err(),
    });
    if !hit {
        return;
    }
    vs::cover(kind as u32);
    let db = if vs::flag("reopen at once") {
        drop(db);
        open_with(c.clone())
    } else {
        db
    };
    others(&db);
    let now = see_list(&db, L);
    let mut after = m.clone();
    list_apply(&mut after, kind, k, &v);
    let mut ok = same(&now, &after);
    if failed {
        ok |= same(&now, &m);
        if kind == 1 {
            let mut gone = m.clone();
            list_apply(&mut gone, 2, k, b"");
            ok |= same(&now, &gone);
        }
        if kind == 7 {
            ok |= sub(&now, &m);
        }
    }
    vs::check(ok, if failed { "a failed list operation lost, altered or reordered items" } else { "a list operation reported success but did not happen" });
    // a failure in the background may surface once
    vs::run_others();
    others(&db);
    if db.set("b", "bb").is_err() {
        db.set("b", "bb").must("set fails again after a single failing file operation");
    }
    m = now;
    let kind = vs::choice(vs::param("after", 5).min(LIST_KINDS), "operation afterwards");
    let k = if kind == 3 || kind == 4 || kind == 7 || vs::param("after", 5) <= LIST_KINDS { k } else { [k, "b"][vs::choice(2, "item afterwards")] };
    list_op(&db, &mut m, kind, k, b"zz");
    vs::check(same(&see_list(&db, L), &m), "a list does not work after a failing file operation");
    others(&db);
    drop(db);
    vs::check(same(&see_list(&open_with(c), L), &m), "a list does not work after a failing file operation and reopening");
}

#[no_mangle]
pub extern "C" fn h_c22_queue() {
    let (db, c) = fault_store();
    let mut m: Kv = vec![];
    let mut range = (FIRST, FIRST);
    let n = vs::choice(vs::param("items", 3) + 1, "initial elements");
    for _ in 0..n {
        let v = vs::bytes(1, "initial value");
        queue_op(&db, &mut m, 1, 0, &v, true);
        range.1 += 1;
    }
    if n == 3 && vs::flag("hole") {
        queue_op(&db, &mut m, 4, FIRST + 1, b"", true);
    }
    let kind = vs::choice(QUEUE_KINDS + 1, "operation");
    let i = FIRST + if kind == 4 { vs::choice(3, "index") as u64 } else { 0 };
    let v = vs::bytes(1, "new value");
    let (failed, hit) = faulty(|| match kind {
        0 => db.push_to_queue_head(L, &v).is_err(),
        1 => db.push_to_queue_tail(L, &v).is_err(),
        2 => db.pop_queue_head(L).is_err(),
        3 => db.pop_queue_tail(L).is_err(),
        4 => db.remove_from_queue(L, i as usize).is_err(),
        5 => db.extend_queue(L, [&v[..], b"+"].iter()).is_err(),
        6 => db.discard_queue(L).is_err(),
        _ => db.iter_queue(L).any(|x| x.is_err()) || db.queue_len(L).is_err() || db.peek_queue_head(L).is_err(),
    });
    if !hit {
        return;
    }
    vs::cover(kind as u32);
    let db = if vs::flag("reopen at once") {
        drop(db);
        open_with(c.clone())
    } else {
        db
    };
    others(&db);
    let now = see_queue(&db, L);
    let mut after = m.clone();
    queue_apply(&mut after, &mut range, kind, i, &v);
    let mut ok = same(&now, &after);
    if failed {
        ok |= same(&now, &m);
        if kind == 5 {
            after.pop();
            ok |= same(&now, &after);
        }
        if kind == 6 {
            ok |= sub(&now, &m);
        }
    }
    vs::check(ok, if failed { "a failed queue operation lost or altered elements" } else { "a queue operation reported success but did not happen" });
    vs::run_others();
    others(&db);
    if db.set("b", "bb").is_err() {
        db.set("b", "bb").must("set fails again after a single failing file operation");
    }
    m = now;
    for _ in 0..2 {
        let kind = vs::choice(4, "operation afterwards");
        queue_op(&db, &mut m, kind, 0, b"ww", false);
        vs::check(same(&see_queue(&db, L), &m), "a queue does not work after a failing file operation");
    }
    others(&db);
    drop(db);
    vs::check(same(&see_queue(&open_with(c), L), &m), "a queue does not work after a failing file operation and reopening");
}

#[no_mangle]
pub extern "C" fn h_c22_big() {
    let (db, c) = fault_store();
    let old = vs::choice(1 + LENS.len(), "old length");
    if old > 0 {
        db.set_big(L, &big(LENS[old - 1], b'a')).must("set_big failed");
    }
    let new = vs::choice(2 + LENS.len(), "new length");
    let (failed, hit) = faulty(|| match new {
        0 => db.remove_big(L.as_bytes()).is_err(),
        5 => db.get_big(L.as_bytes()).is_err(),
        _ => db.set_big(L, &big(LENS[new - 1], b'n')).is_err(),
    });
    if !hit {
        return;
    }
    let some = |n: usize, c: u8| if n == 0 { None } else { Some(big(LENS[n - 1], c)) };
    let old = some(old, b'a');
    let new = if new == 5 { old.clone() } else { some(new, b'n') };
    others(&db);
    let got = db.get_big(L.as_bytes()).must("get_big failed after a failing file operation");
    if got != new {
        vs::check(failed, "a big value operation reported success but did not happen");
        if got != old {
            // what is left consists of the old or of the new chunks
            match &got {
                None => {}
                Some(g) => vs::check(old.as_ref().is_some_and(|x| x.ends_with(g)) || new.as_ref().is_some_and(|x| x.starts_with(g)), "a big value is garbled after a failing file operation"),
            }
        }
    }
    vs::run_others();
    if db.set("b", "bb").is_err() {
        db.set("b", "bb").must("set fails again after a single failing file operation");
    }
    let v = some(vs::choice(4, "length afterwards"), b'z');
    match &v {
        None => drop(db.remove_big(L.as_bytes()).must("remove_big failed after a failing file operation")),
        Some(v) => drop(db.set_big(L, v).must("set_big failed after a failing file operation")),
    }
    vs::check(db.get_big(L.as_bytes()).must("get_big failed") == v, "a big value cannot be changed after a failing file operation");
    others(&db);
    drop(db);
    let db = open_with(c);
    vs::check(db.get_big(L.as_bytes()).must("get_big failed") == v, "a big value cannot be changed after a failing file operation");
    others(&db);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c21_list", h_c21_list), ("h_c21_queue", h_c21_queue), ("h_c21_big", h_c21_big), ("h_c22_list", h_c22_list), ("h_c22_queue", h_c22_queue), ("h_c22_big", h_c22_big)];
