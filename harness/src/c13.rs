//! C13 C14 C15: concurrent use
use crate::c04::{full_verify, keys};
use crate::c09::Lst;
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Op {
    kind: usize,
    key: Vec<u8>,
    val: Vec<u8>,
    exp: Vec<u8>,
}
/// what a call answered: a case and a value
type Res = (u8, Option<Vec<u8>>);

fn same(a: &Res, b: &Res) -> bool {
    a.0 == b.0 && vs::eq_opt(&a.1, &b.1)
}

/// some sequential order of the two threads' calls explains all answers and the final state
fn explained<M: Clone>(m: &M, a: &[(Op, Res)], b: &[(Op, Res)], apply: &dyn Fn(&mut M, &Op, &Res) -> bool, fin: &dyn Fn(&M) -> bool) -> bool {
    if a.is_empty() && b.is_empty() {
        return fin(m);
    }
    if let Some((x, rest)) = a.split_first() {
        let mut m2 = m.clone();
        if apply(&mut m2, &x.0, &x.1) && explained(&m2, rest, b, apply, fin) {
            return true;
        }
    }
    if let Some((x, rest)) = b.split_first() {
        let mut m2 = m.clone();
        if apply(&mut m2, &x.0, &x.1) && explained(&m2, a, rest, apply, fin) {
            return true;
        }
    }
    false
}

fn both(db: &Arc<CandyStore>, a: &[Op], b: &[Op], run: fn(&CandyStore, &Op) -> Res) -> (Vec<(Op, Res)>, Vec<(Op, Res)>) {
    let (db2, b2) = (db.clone(), b.to_vec());
    vs::preempt(vs::param("preempt", 2) as u64, vs::param("flags", 0) as u64);
    let t = std::thread::spawn(move || b2.iter().map(|o| (o.clone(), run(&db2, o))).collect::<Vec<_>>());
    let ra = a.iter().map(|o| (o.clone(), run(db, o))).collect::<Vec<_>>();
    let rb = t.join().must("a thread panicked");
    vs::preempt(0, 0);
    (ra, rb)
}

// ------------------------------------------------------------------ C13
const MAP_OPS: usize = 6;
fn map_run(db: &CandyStore, o: &Op) -> Res {
    match o.kind {
        0 => match db.set(&o.key, &o.val).must("set failed") {
            SetStatus::CreatedNew => (0, None),
            SetStatus::PrevValue(v) => (1, Some(v)),
        },
        1 => (0, db.get(&o.key).must("get failed")),
        2 => (0, db.remove(&o.key).must("remove failed")),
        3 => match db.get_or_create(&o.key, &o.val).must("get_or_create failed") {
            GetOrCreateStatus::CreatedNew(v) => (0, Some(v)),
            GetOrCreateStatus::ExistingValue(v) => (1, Some(v)),
        },
        k => match db.replace(&o.key, &o.val, if k == 4 { None } else { Some(&o.exp) }).must("replace failed") {
            ReplaceStatus::DoesNotExist => (0, None),
            ReplaceStatus::PrevValue(v) => (1, Some(v)),
            ReplaceStatus::WrongValue(v) => (2, Some(v)),
        },
    }
}
fn map_apply(m: &mut Map, o: &Op, r: &Res) -> bool {
    let e: Res = match o.kind {
        0 => match m.set(&o.key, &o.val) {
            None => (0, None),
            v => (1, v),
        },
        1 => (0, m.get(&o.key)),
        2 => (0, m.remove(&o.key)),
        3 => match m.get(&o.key) {
            None => {
                m.set(&o.key, &o.val);
                (0, Some(o.val.clone()))
            }
            v => (1, v),
        },
        k => match m.get(&o.key) {
            None => (0, None),
            Some(v) if k == 5 && !vs::eq(&v, &o.exp) => (2, Some(v)),
            v => {
                m.set(&o.key, &o.val);
                (1, v)
            }
        },
    };
    same(&e, r)
}

/// two threads, point operations on the same or colliding keys; optionally the shard splits or compacts meanwhile
#[no_mangle]
pub extern "C" fn h_c13_lin() {
    let mode = vs::param("mode", 0); // 0 plain, 1 row nearly full (splits), 2 compaction
    vs::hash_policy(NS_USER, if mode == 1 { H_SHARD0 } else { H_ROW | H_SIG1 }, 0x3fffu64 << 48, 2);
    let cfg = || Config { min_compaction_threashold: if mode == 2 { 3 } else { 1 << 19 }, ..config() };
    let db = Arc::new(open_with(cfg()));
    let mut m = Map::default();
    let put = |m: &mut Map, k: &[u8], v: &[u8]| {
        db.set(k, v).must("set failed");
        m.set(k, v);
    };
    let mut ks = vec![b"a".to_vec(), b"b".to_vec()];
    if mode == 1 {
        // leave no room or one free entry
        for k in ["c", "d", "e"] {
            put(&mut m, k.as_bytes(), b"x");
            ks.push(k.as_bytes().to_vec());
        }
    }
    if vs::flag("a present") {
        put(&mut m, b"a", b"0");
    }
    if mode == 2 {
        put(&mut m, b"c", b"x");
        put(&mut m, b"c", b"yy");
        ks.push(b"c".to_vec());
    }
    let one = |t: usize, i: usize| Op {
        kind: vs::choice(MAP_OPS, "operation"),
        key: if t == 0 && i == 0 { b"a".to_vec() } else { ks[vs::choice(vs::param("keys", 2), "key")].clone() },
        val: vec![b'1' + (2 * t + i) as u8],
        exp: vec![b'0' + i as u8],
    };
    let a: Vec<Op> = (0..1).map(|i| one(0, i)).collect();
    let b: Vec<Op> = (0..vs::param("ops", 1)).map(|i| one(1, i)).collect();
    let (ra, rb) = both(&db, &a, &b, map_run);
    let fin: Vec<Option<Vec<u8>>> = ks.iter().map(|k| db.get(k).must("get failed")).collect();
    let ok = explained(&m, &ra, &rb, &map_apply, &|m: &Map| ks.iter().zip(fin.iter()).all(|(k, v)| vs::eq_opt(&m.get(k), v)));
    vs::check(ok, "no sequential order of the calls explains their results and the final content");
    vs::cover(0);
    if db.stats().num_shards > 1 {
        vs::cover(1);
    }
    let mut f = Map::default();
    for (k, v) in ks.iter().zip(fin.iter()) {
        if let Some(v) = v {
            f.set(k, v);
        }
    }
    if db.stats().num_compactions > 0 {
        vs::cover(2);
    }
    full_verify(&db, &f, &ks, "iteration differs from the lookups after concurrent operations");
    vs::check(db.stats().num_entries() == f.0.len(), "the entry count is wrong after concurrent operations");
    if vs::param("reopen", 1) == 0 {
        return;
    }
    drop(db);
    full_verify(&open_with(cfg()), &f, &ks, "content differs after concurrent operations and reopening");
}

// ------------------------------------------------------------------ C14 lists
const L: &[u8] = b"l";
fn list_run(db: &CandyStore, o: &Op) -> Res {
    let kv = |x: Option<(Vec<u8>, Vec<u8>)>| match x {
        None => (0, None),
        Some((k, v)) => (1 + k[0], Some(v)),
    };
    match o.kind {
        0 | 1 => {
            let r = if o.kind == 0 { db.set_in_list(L, &o.key, &o.val) } else { db.set_in_list_promoting(L, &o.key, &o.val) };
            match r.must("set_in_list failed") {
                SetStatus::CreatedNew => (0, None),
                SetStatus::PrevValue(v) => (1, Some(v)),
            }
        }
        2 => (0, db.remove_from_list(L, &o.key).must("remove_from_list failed")),
        3 => kv(db.pop_list_head(L).must("pop_list_head failed")),
        4 => kv(db.pop_list_tail(L).must("pop_list_tail failed")),
        5 => match db.get_or_create_in_list(L, &o.key, &o.val).must("get_or_create_in_list failed") {
            GetOrCreateStatus::CreatedNew(v) => (0, Some(v)),
            GetOrCreateStatus::ExistingValue(v) => (1, Some(v)),
        },
        6 => match db.replace_in_list(L, &o.key, &o.val, Some(&o.exp)).must("replace_in_list failed") {
            ReplaceStatus::DoesNotExist => (0, None),
            ReplaceStatus::PrevValue(v) => (1, Some(v)),
            ReplaceStatus::WrongValue(v) => (2, Some(v)),
        },
        7 => {
            db.compact_list_if_needed(L, ListCompactionParams { min_length: 0, min_holes_ratio: 0.0 }).must("compact_list_if_needed failed");
            (0, None)
        }
        _ => (db.discard_list(L).must("discard_list failed") as u8, None),
    }
}
const LIST_MUT: usize = 9;
fn list_apply(m: &mut Lst, o: &Op, r: &Res) -> bool {
    let old = m.get(&o.key);
    let p = m.pos(&o.key);
    let mut put = |m: &mut Lst| match p {
        Some(i) => m.0[i].1 = o.val.clone(),
        None => m.0.push((o.key.clone(), o.val.clone())),
    };
    let e: Res = match o.kind {
        0 => {
            put(m);
            (old.is_some() as u8, old)
        }
        1 => {
            if let Some(i) = p {
                m.0.remove(i);
            }
            m.0.push((o.key.clone(), o.val.clone()));
            return r.0 == 0 || same(&(1, old), r);
        }
        2 => {
            if let Some(i) = p {
                m.0.remove(i);
            }
            (0, old)
        }
        3 | 4 => {
            if m.0.is_empty() {
                (0, None)
            } else {
                let (k, v) = m.0.remove(if o.kind == 3 { 0 } else { m.0.len() - 1 });
                (1 + k[0], Some(v))
            }
        }
        5 => {
            if old.is_none() {
                put(m);
                (0, Some(o.val.clone()))
            } else {
                (1, old)
            }
        }
        6 => match old {
            None => (0, None),
            Some(v) if !vs::eq(&v, &o.exp) => (2, Some(v)),
            v => {
                put(m);
                (1, v)
            }
        },
        7 => (0, None),
        _ => {
            let e = m.0.is_empty();
            m.0.clear();
            return r.0 == 1 || e;
        }
    };
    same(&e, r)
}

/// two threads, operations on one list
#[no_mangle]
pub extern "C" fn h_c14_list() {
    for ns in [NS_LIST, NS_ITEM, NS_CHAIN] {
        vs::hash_policy(ns, if vs::param("rows", 0) == 1 { H_ROW } else { 0 }, 0, 1);
    }
    let db = Arc::new(open());
    let mut m = Lst::default();
    let init = vs::bytes(1, "initial value");
    for k in ["a", "b"].iter().take(vs::choice(3, "initial items")) {
        db.set_in_list(L, k, &init).must("set_in_list failed");
        m.0.push((k.as_bytes().to_vec(), init.clone()));
        if vs::param("holes", 0) == 1 {
            db.set_in_list(L, "hole", "").must("set_in_list failed");
        }
    }
    db.remove_from_list(L, "hole").must("remove_from_list failed");
    let one = |t: usize, i: usize| {
        let fixed = vs::param("a0", LIST_MUT as u64);
        let kind = if t == 0 && fixed < LIST_MUT { fixed } else { vs::choice(LIST_MUT, "operation") };
        let keyed = matches!(kind, 0 | 1 | 2 | 5 | 6);
        Op { kind, key: [b"a".to_vec(), b"c".to_vec()][if keyed { vs::choice(2, "item") } else { 0 }].clone(), val: vec![b'1' + (2 * t + i) as u8], exp: if kind == 6 { vs::bytes(1, "expected") } else { vec![] } }
    };
    let a = [one(0, 0)];
    let b: Vec<Op> = (0..vs::param("ops", 1)).map(|i| one(1, i)).collect();
    let (ra, rb) = both(&db, &a, &b, list_run);
    let check = |db: &CandyStore, what: &str| {
        let got: Vec<_> = db.iter_list(L).map(|x| x.must("iter_list failed")).collect();
        let mut back: Vec<_> = db.iter_list_backwards(L).map(|x| x.must("iter_list failed")).collect();
        back.reverse();
        let n = db.list_len(L).must("list_len failed");
        let gets: Vec<_> = [b"a", b"b", b"c"].iter().map(|k| db.get_from_list(L, *k).must("get_from_list failed")).collect();
        let ok = explained(&m, &ra, &rb, &list_apply, &|m: &Lst| {
            let eq = |x: &Vec<(Vec<u8>, Vec<u8>)>| x.len() == m.0.len() && x.iter().zip(m.0.iter()).all(|(x, y)| vs::eq(&x.0, &y.0) && vs::eq(&x.1, &y.1));
            eq(&got) && eq(&back) && n == m.0.len() && [b"a", b"b", b"c"].iter().zip(gets.iter()).all(|(k, g)| vs::eq_opt(&m.get(*k), g))
        });
        vs::check(ok, what);
    };
    check(&db, "no sequential order of the list operations explains their results and the final list");
    vs::cover(0);
    if vs::param("reopen", 1) == 0 {
        return;
    }
    drop(db);
    check(&open(), "the list differs after reopening");
}

// ------------------------------------------------------------------ C14 queues
#[derive(Clone, Default)]
struct Q {
    at: Vec<(u64, Vec<u8>)>,
    range: (u64, u64),
    exists: bool,
}
const QUEUE_MUT: usize = 7;
fn queue_run(db: &CandyStore, o: &Op) -> Res {
    let iv = |x: Option<(usize, Vec<u8>)>| match x {
        None => (0, None),
        Some((i, v)) => (i as u8, Some(v)),
    };
    match o.kind {
        0 => (db.push_to_queue_head(L, &o.val).must("push failed") as u8, None),
        1 => (db.push_to_queue_tail(L, &o.val).must("push failed") as u8, None),
        2 => iv(db.pop_queue_head_with_idx(L).must("pop failed")),
        3 => iv(db.pop_queue_tail_with_idx(L).must("pop failed")),
        4 => (0, db.remove_from_queue(L, (1usize << 63) + o.key[0] as usize).must("remove_from_queue failed")),
        5 => {
            let r = db.extend_queue(L, [&o.val, &o.exp].iter()).must("extend_queue failed");
            vs::check(r.end - r.start == 2, "extend_queue returned a wrong range");
            (r.start as u8, None)
        }
        _ => (db.discard_queue(L).must("discard_queue failed") as u8, None),
    }
}
fn queue_apply(q: &mut Q, o: &Op, r: &Res) -> bool {
    const F: u64 = 1 << 63;
    if !q.exists && matches!(o.kind, 0 | 1 | 5) {
        *q = Q { exists: true, range: (F, F), at: vec![] };
    }
    let was = q.exists;
    let first = was && q.range.0 == q.range.1;
    let ok = match o.kind {
        0 if !first => {
            q.range.0 -= 1;
            q.at.insert(0, (q.range.0, o.val.clone()));
            same(&(q.range.0 as u8, None), r)
        }
        0 | 1 => {
            q.at.push((q.range.1, o.val.clone()));
            q.range.1 += 1;
            same(&((q.range.1 - 1) as u8, None), r)
        }
        2 | 3 => {
            if q.at.is_empty() {
                same(&(0, None), r)
            } else {
                let (i, v) = q.at.remove(if o.kind == 2 { 0 } else { q.at.len() - 1 });
                if o.kind == 2 {
                    q.range.0 = i + 1
                } else {
                    q.range.1 = i
                }
                same(&(i as u8, Some(v)), r)
            }
        }
        4 => {
            let i = F + o.key[0] as u64;
            match q.at.iter().position(|e| e.0 == i) {
                None => same(&(0, None), r),
                Some(p) => {
                    let (_, v) = q.at.remove(p);
                    if i == q.range.0 {
                        q.range.0 += 1
                    } else if i + 1 == q.range.1 {
                        q.range.1 -= 1
                    }
                    same(&(0, Some(v)), r)
                }
            }
        }
        5 => {
            let s = q.range.1;
            q.at.push((s, o.val.clone()));
            q.at.push((s + 1, o.exp.clone()));
            q.range.1 += 2;
            same(&(s as u8, None), r)
        }
        _ => {
            let ok = r.0 == was as u8;
            *q = Q::default();
            ok
        }
    };
    if q.exists && q.range.0 == q.range.1 {
        *q = Q::default();
    }
    ok
}

/// two threads, operations on one queue
#[no_mangle]
pub extern "C" fn h_c14_queue() {
    for ns in [NS_QUEUE, NS_QITEM] {
        vs::hash_policy(ns, if vs::param("rows", 0) == 1 { H_ROW } else { 0 }, 0, 1);
    }
    let db = Arc::new(open());
    let mut q = Q::default();
    for _ in 0..vs::choice(3, "initial elements") {
        let o = Op { kind: 1, key: vec![], val: vs::bytes(1, "initial value"), exp: vec![] };
        let r = queue_run(&db, &o);
        vs::check(queue_apply(&mut q, &o, &r), "push answered wrongly");
    }
    let one = |t: usize, i: usize| {
        let kind = vs::choice(QUEUE_MUT, "operation");
        Op { kind, key: vec![if kind == 4 { vs::choice(2, "index") as u8 } else { 0 }], val: vec![b'1' + (2 * t + i) as u8], exp: b"0".to_vec() }
    };
    let a = [one(0, 0)];
    let b: Vec<Op> = (0..vs::param("ops", 1)).map(|i| one(1, i)).collect();
    let (ra, rb) = both(&db, &a, &b, queue_run);
    let check = |db: &CandyStore, what: &str| {
        let got: Vec<_> = db.iter_queue(L).map(|x| x.must("iter_queue failed")).collect();
        let n = db.queue_len(L).must("queue_len failed");
        let rg = db.queue_range(L).must("queue_range failed");
        let ok = explained(&q, &ra, &rb, &queue_apply, &|q: &Q| {
            n == q.at.len() && got.len() == n && got.iter().zip(q.at.iter()).all(|(x, y)| x.0 as u64 == y.0 && vs::eq(&x.1, &y.1)) && (!q.exists || (rg.start as u64, rg.end as u64) == q.range)
        });
        vs::check(ok, what);
    };
    check(&db, "no sequential order of the queue operations explains their results and the final queue");
    vs::cover(0);
    if vs::param("reopen", 1) == 0 {
        return;
    }
    drop(db);
    check(&open(), "the queue differs after reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c13_lin", h_c13_lin), ("h_c14_list", h_c14_list), ("h_c14_queue", h_c14_queue)];
