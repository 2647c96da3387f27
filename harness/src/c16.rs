//! C16: typed stores, lists and deques
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;
use std::sync::Arc;

pub trait Sym: CandyTypedKey + PartialEq + Clone {
    fn sym(tag: &str) -> Self;
}
macro_rules! sym_int {
    ($($t:ty),*) => { $(impl Sym for $t {
        fn sym(tag: &str) -> Self {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            b.copy_from_slice(&vs::bytes(std::mem::size_of::<$t>(), tag));
            <$t>::from_le_bytes(b)
        }
    })* };
}
sym_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
impl Sym for bool {
    fn sym(tag: &str) -> Self {
        vs::bytes(1, tag)[0] & 1 == 1
    }
}
impl Sym for char {
    fn sym(tag: &str) -> Self {
        let c = vs::range(0, 0x10ffff, tag) as u32;
        vs::assume(c < 0xd800 || c > 0xdfff);
        char::from_u32(c).unwrap()
    }
}
impl Sym for Vec<u8> {
    fn sym(tag: &str) -> Self {
        vs::bytes(vs::choice(4, "length"), tag)
    }
}
impl Sym for String {
    fn sym(tag: &str) -> Self {
        let b = vs::bytes(vs::choice(3, "length"), tag);
        for x in &b {
            vs::assume(*x < 0x80);
        }
        String::from_utf8(b).unwrap()
    }
}
impl Sym for [u8; 16] {
    fn sym(tag: &str) -> Self {
        let mut b = [0u8; 16];
        b.copy_from_slice(&vs::bytes(16, tag));
        b
    }
}

trait DynKey {
    fn set(&self, db: &Arc<CandyStore>, v: u32) -> Option<u32>;
    fn get(&self, db: &Arc<CandyStore>) -> Option<u32>;
    fn remove(&self, db: &Arc<CandyStore>) -> Option<u32>;
}
struct Holder<K>(K);
impl<K: Sym> DynKey for Holder<K> {
    fn set(&self, db: &Arc<CandyStore>, v: u32) -> Option<u32> {
        CandyTypedStore::<K, u32>::new(db.clone()).set(&self.0, &v).must("typed set failed")
    }
    fn get(&self, db: &Arc<CandyStore>) -> Option<u32> {
        let t = CandyTypedStore::<K, u32>::new(db.clone());
        let r = t.get(&self.0).must("typed get failed");
        vs::check(t.contains(&self.0).must("typed contains failed") == r.is_some(), "contains and get differ");
        r
    }
    fn remove(&self, db: &Arc<CandyStore>) -> Option<u32> {
        CandyTypedStore::<K, u32>::new(db.clone()).remove(&self.0).must("typed remove failed")
    }
}
const TYPES: usize = 17;
macro_rules! of_type {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*),
            5 => $f::<i8>($($a),*), 6 => $f::<i16>($($a),*), 7 => $f::<i32>($($a),*), 8 => $f::<i64>($($a),*), 9 => $f::<i128>($($a),*),
            10 => $f::<bool>($($a),*), 11 => $f::<usize>($($a),*), 12 => $f::<isize>($($a),*), 13 => $f::<char>($($a),*),
            14 => $f::<String>($($a),*), 15 => $f::<Vec<u8>>($($a),*), _ => $f::<[u8; 16]>($($a),*),
        }
    };
}
fn make<K: Sym + 'static>(tag: &str) -> Box<dyn DynKey> {
    Box::new(Holder(K::sym(tag)))
}

fn hash_all() {
    for ns in [NS_USER, NS_TYPED, NS_LIST, NS_ITEM, NS_CHAIN, NS_QUEUE, NS_QITEM] {
        vs::hash_policy(ns, 0, 0, 1);
    }
}

/// keys of different types never denote the same entry
#[no_mangle]
pub extern "C" fn h_c16_types() {
    hash_all();
    let db = Arc::new(open());
    let a = vs::choice(TYPES, "first key type");
    let b = vs::choice(TYPES - 1, "second key type");
    let b = b + (b >= a) as usize;
    let (ka, kb) = (of_type!(a, make("first key")), of_type!(b, make("second key")));
    vs::check(ka.set(&db, 1).is_none(), "set of a new typed key found another");
    vs::check(kb.get(&db).is_none(), "a key of one type shows under another type");
    vs::check(kb.remove(&db).is_none(), "a key of one type was removed under another type");
    vs::check(kb.set(&db, 2).is_none(), "set of a new typed key found one of another type");
    vs::check(ka.get(&db) == Some(1), "a typed value was changed by a key of another type");
    vs::check(kb.get(&db) == Some(2), "a typed value was changed by a key of another type");
    vs::check(ka.remove(&db) == Some(1), "remove of a typed key answered wrongly");
    vs::check(kb.get(&db) == Some(2), "a typed value was removed by a key of another type");
    vs::check(db.iter().next().is_none(), "iteration shows typed entries");
    vs::cover(0);
}

/// two keys of the same type: the same entry exactly if they are equal
fn same_type<K: Sym>(db: &Arc<CandyStore>) {
    let t = CandyTypedStore::<K, u32>::new(db.clone());
    let (k1, k2) = (K::sym("first key"), K::sym("second key"));
    let v = u32::sym("value");
    let eq = k1 == k2;
    t.set(&k1, &v).must("typed set failed");
    let r = t.get(&k2).must("typed get failed");
    vs::check(r == if eq { Some(v) } else { None }, "typed get answered wrongly for an equal or different key");
    let r = t.set(&k2, &7).must("typed set failed");
    vs::check(r == if eq { Some(v) } else { None }, "typed set answered wrongly for an equal or different key");
    let r = t.get(&k1).must("typed get failed");
    vs::check(r == Some(if eq { 7 } else { v }), "typed get answered wrongly after setting another key");
    vs::cover(eq as u32);
    let l = CandyTypedList::<u8, K, K>::new(db.clone());
    l.set(&1, &k1, &k2).must("typed list set failed");
    l.set(&1, &k2, &k1).must("typed list set failed");
    let want = if eq { vec![(k1.clone(), k1.clone())] } else { vec![(k1.clone(), k2.clone()), (k2.clone(), k1.clone())] };
    let got: Vec<_> = l.iter(&1).map(|x| x.must("typed list iteration failed")).collect();
    vs::check(got == want, "a typed list shows other keys or values than were set");
    let q = CandyTypedDeque::<K, K>::new(db.clone());
    q.push_tail(&k1, &k2).must("typed push failed");
    q.push_tail(&k2, &k1).must("typed push failed");
    vs::check(q.len(&k1).must("len failed") == if eq { 2 } else { 1 }, "typed deques of different keys are mixed, or those of equal ones not");
    vs::check(q.pop_head(&k1).must("typed pop failed") == Some(k2.clone()), "a typed deque returned another value than was pushed");
}
#[no_mangle]
pub extern "C" fn h_c16_same() {
    hash_all();
    let db = Arc::new(open());
    let i = vs::choice(TYPES, "key type");
    of_type!(i, same_type(&db));
    vs::cover(10 + i as u32);
}

type V = (u16, String);
fn value(tag: &str) -> V {
    (u16::sym(tag), ["", "x"][vs::choice(2, "string part")].to_string())
}

/// typed operations answer like a map
#[no_mangle]
pub extern "C" fn h_c16_map() {
    hash_all();
    let db = Arc::new(open());
    let t = CandyTypedStore::<i16, V>::new(db.clone());
    let (mut m, mut big): (Vec<(i16, V)>, Vec<(i16, V)>) = (vec![], vec![]);
    fn pos(m: &[(i16, V)], k: i16) -> Option<usize> {
        m.iter().position(|e| e.0 == k)
    }
    fn put(m: &mut Vec<(i16, V)>, k: i16, v: V) -> Option<V> {
        match pos(m, k) {
            Some(i) => Some(std::mem::replace(&mut m[i].1, v)),
            None => {
                m.push((k, v));
                None
            }
        }
    }
    for _ in 0..vs::param("ops", 2) {
        let k = i16::sym("key");
        let op = vs::choice(10, "operation");
        vs::cover(op as u32);
        let old = pos(&m, k).map(|i| m[i].1.clone());
        match op {
            0 => {
                let v = value("value");
                let r = t.set(&k, &v).must("typed set failed");
                vs::check(r == put(&mut m, k, v), "typed set answered wrongly");
            }
            1 => vs::check(t.get(&k).must("typed get failed") == old, "typed get answered wrongly"),
            2 => vs::check(t.contains(&k).must("typed contains failed") == old.is_some(), "typed contains answered wrongly"),
            3 => {
                let r = t.remove(&k).must("typed remove failed");
                vs::check(r == pos(&m, k).map(|i| m.remove(i).1), "typed remove answered wrongly");
            }
            4 => {
                let v = value("value");
                let r = t.get_or_create(&k, &v).must("typed get_or_create failed");
                let e = old.unwrap_or(v.clone());
                vs::check(r == e, "typed get_or_create answered wrongly");
                put(&mut m, k, e);
            }
            5 | 6 => {
                let (v, e) = (value("value"), value("expected"));
                let r = t.replace(&k, &v, if op == 5 { None } else { Some(&e) }).must("typed replace failed");
                let does = old.is_some() && (op == 5 || old == Some(e));
                vs::check(r == if does { old } else { None }, "typed replace answered wrongly");
                if does {
                    put(&mut m, k, v);
                }
            }
            7 => {
                let v = value("value");
                let r = t.set_big(&k, &v).must("typed set_big failed");
                vs::check(r == put(&mut big, k, v).is_some(), "typed set_big answered wrongly");
            }
            8 => vs::check(t.get_big(&k).must("typed get_big failed") == pos(&big, k).map(|i| big[i].1.clone()), "typed get_big answered wrongly"),
            _ => {
                let r = t.remove_big(&k).must("typed remove_big failed");
                vs::check(r == pos(&big, k).map(|i| big.remove(i)).is_some(), "typed remove_big answered wrongly");
            }
        }
    }
    for (k, v) in &m {
        vs::check(t.get(k).must("typed get failed").as_ref() == Some(v), "a typed value differs from the one set");
    }
    for (k, v) in &big {
        vs::check(t.get_big(k).must("typed get_big failed").as_ref() == Some(v), "a typed big value differs from the one set");
    }
    drop(t);
    drop(db);
    let t = CandyTypedStore::<i16, V>::new(Arc::new(open()));
    for (k, v) in &m {
        vs::check(t.get(k).must("typed get failed").as_ref() == Some(v), "a typed value differs after reopening");
    }
}

/// typed lists answer like an insertion-ordered dictionary
#[no_mangle]
pub extern "C" fn h_c16_list() {
    hash_all();
    vs::hash_policy(NS_LIST, 0, 0xff_ffff, 1); // lists are told apart by the hash of their name
    let db = Arc::new(open());
    let t = CandyTypedList::<String, u16, V>::new(db.clone());
    let l = "li".to_string();
    let mut m: Vec<(u16, V)> = vec![];
    let other = "lj".to_string();
    t.set(&other, &5, &(9, "z".into())).must("typed list set failed");
    for _ in 0..vs::param("ops", 2) {
        let op = vs::choice(14, "operation");
        vs::cover(op as u32);
        let k = if matches!(op, 0..=6 | 13) { u16::sym("key") } else { 0 };
        let p = m.iter().position(|e| e.0 == k);
        let old = p.map(|i| m[i].1.clone());
        match op {
            0 => {
                let v = value("value");
                vs::check(t.set(&l, &k, &v).must("typed list set failed") == old, "typed list set answered wrongly");
                match p {
                    Some(i) => m[i].1 = v,
                    None => m.push((k, v)),
                }
            }
            1 => {
                let v = value("value");
                let r = t.set_promoting(&l, &k, &v).must("typed list set_promoting failed");
                vs::check(r.is_none() || r == old, "typed list set_promoting answered wrongly");
                if let Some(i) = p {
                    m.remove(i);
                }
                m.push((k, v));
            }
            2 => vs::check(t.get(&l, &k).must("typed list get failed") == old, "typed list get answered wrongly"),
            3 => vs::check(t.contains(&l, &k).must("typed list contains failed") == old.is_some(), "typed list contains answered wrongly"),
            4 => {
                vs::check(t.remove(&l, &k).must("typed list remove failed") == old, "typed list remove answered wrongly");
                if let Some(i) = p {
                    m.remove(i);
                }
            }
            5 => {
                let v = value("value");
                let r = t.get_or_create(&l, &k, &v).must("typed list get_or_create failed");
                vs::check(r == old.clone().unwrap_or(v.clone()), "typed list get_or_create answered wrongly");
                if p.is_none() {
                    m.push((k, v));
                }
            }
            6 | 13 => {
                let (v, e) = (value("value"), value("expected"));
                let r = t.replace(&l, &k, &v, if op == 6 { None } else { Some(&e) }).must("typed list replace failed");
                let does = old.is_some() && (op == 6 || old == Some(e));
                vs::check(r == if does { old } else { None }, "typed list replace answered wrongly");
                if does {
                    m[p.unwrap()].1 = v;
                }
            }
            7 => {
                let e = if m.is_empty() { None } else { Some(m.remove(0)) };
                vs::check(t.pop_head(&l).must("typed pop_head failed") == e, "typed pop_head answered wrongly");
            }
            8 => vs::check(t.pop_tail(&l).must("typed pop_tail failed") == m.pop(), "typed pop_tail answered wrongly"),
            9 => vs::check(t.peek_head(&l).must("typed peek_head failed").as_ref() == m.first(), "typed peek_head answered wrongly"),
            10 => vs::check(t.peek_tail(&l).must("typed peek_tail failed").as_ref() == m.last(), "typed peek_tail answered wrongly"),
            11 => {
                let r = t.discard(&l).must("typed discard failed");
                vs::check(r || m.is_empty(), "typed discard answered wrongly");
                m.clear();
            }
            _ => drop(t.compact_if_needed(&l, ListCompactionParams { min_length: 0, min_holes_ratio: 0.0 }).must("typed compact_if_needed failed")),
        }
    }
    vs::check(t.len(&l).must("typed len failed") == m.len(), "typed len answered wrongly");
    let got: Vec<_> = t.iter(&l).map(|x| x.must("typed iteration failed")).collect();
    vs::check(got == m, "typed list iteration differs");
    let mut got: Vec<_> = t.iter_backwards(&l).map(|x| x.must("typed iteration failed")).collect();
    got.reverse();
    vs::check(got == m, "typed list backwards iteration differs");
    vs::check(t.get(&other, &5).must("typed list get failed") == Some((9, "z".into())), "another typed list was changed");
}

/// typed deques answer like a deque
#[no_mangle]
pub extern "C" fn h_c16_deque() {
    hash_all();
    let db = Arc::new(open());
    let t = CandyTypedDeque::<Vec<u8>, V>::new(db.clone());
    let k = b"q".to_vec();
    let mut m: std::collections::VecDeque<V> = Default::default();
    for _ in 0..vs::param("ops", 3) {
        let op = vs::choice(6, "operation");
        vs::cover(op as u32);
        match op {
            0 => {
                let v = value("value");
                t.push_head(&k, &v).must("typed push_head failed");
                m.push_front(v);
            }
            1 => {
                let v = value("value");
                t.push_tail(&k, &v).must("typed push_tail failed");
                m.push_back(v);
            }
            2 => vs::check(t.pop_head(&k).must("typed pop_head failed") == m.pop_front(), "typed pop_head answered wrongly"),
            3 => vs::check(t.pop_tail(&k).must("typed pop_tail failed") == m.pop_back(), "typed pop_tail answered wrongly"),
            4 => vs::check(t.peek_head(&k).must("typed peek_head failed").as_ref() == m.front(), "typed peek_head answered wrongly"),
            _ => vs::check(t.peek_tail(&k).must("typed peek_tail failed").as_ref() == m.back(), "typed peek_tail answered wrongly"),
        }
        vs::check(t.len(&k).must("typed len failed") == m.len(), "typed len answered wrongly");
    }
    let r = t.range(&k).must("typed range failed");
    vs::check(r.len() == m.len(), "typed range answered wrongly");
    let got: Vec<_> = t.iter(&k).map(|x| x.must("typed iteration failed")).collect();
    vs::check(got.len() == m.len() && got.iter().zip(m.iter()).enumerate().all(|(i, (a, b))| a.1 == *b && a.0 == r.start + i), "typed deque iteration differs");
    let mut got: Vec<_> = t.iter_backwards(&k).map(|x| x.must("typed iteration failed").1).collect();
    got.reverse();
    vs::check(got.iter().eq(m.iter()), "typed deque backwards iteration differs");
    vs::check(t.peek_head_with_idx(&k).must("failed").map(|x| x.0) == if m.is_empty() { None } else { Some(r.start) }, "typed peek_head_with_idx answered wrongly");
    let h = t.pop_head_with_idx(&k).must("failed");
    vs::check(h == m.pop_front().map(|v| (r.start, v)), "typed pop_head_with_idx answered wrongly");
    let h = t.pop_tail_with_idx(&k).must("failed");
    vs::check(h == m.pop_back().map(|v| (r.end - 1, v)), "typed pop_tail_with_idx answered wrongly");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c16_types", h_c16_types), ("h_c16_same", h_c16_same), ("h_c16_map", h_c16_map), ("h_c16_list", h_c16_list), ("h_c16_deque", h_c16_deque)];
