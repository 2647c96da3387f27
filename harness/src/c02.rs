//! C02: collections and plain keys never interfere
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;
use std::sync::Arc;

const KINDS: usize = 6;
const PLAIN: usize = 0;
const TYPED_U: usize = 1;
const TYPED_I: usize = 2;
const LIST: usize = 3;
const QUEUE: usize = 4;
const BIG: usize = 5;

struct Coll {
    db: Arc<CandyStore>,
    tu: CandyTypedStore<u16, u8>,
    ti: CandyTypedStore<i16, u8>,
    kind: usize,
    key: Vec<u8>,
    item: Vec<u8>,
}
impl Coll {
    fn new(db: &Arc<CandyStore>, kind: usize, key: Vec<u8>, item: Vec<u8>) -> Self {
        Coll { db: db.clone(), tu: CandyTypedStore::new(db.clone()), ti: CandyTypedStore::new(db.clone()), kind, key, item }
    }
    fn num(&self) -> u16 {
        u16::from_le_bytes([self.key[0], self.key[1]])
    }
    /// add the entry, true if there was one already
    fn put(&self, v: u8) -> bool {
        let db = &self.db;
        match self.kind {
            PLAIN => db.set(&self.key, &[v]).must("set failed").was_replaced(),
            TYPED_U => self.tu.set(&self.num(), &v).must("typed set failed").is_some(),
            TYPED_I => self.ti.set(&(self.num() as i16), &v).must("typed set failed").is_some(),
            LIST => db.set_in_list(&self.key, &self.item, &[v]).must("set_in_list failed").was_replaced(),
            QUEUE => {
                let was = db.queue_len(&self.key).must("queue_len failed") != 0;
                db.push_to_queue_tail(&self.key, &[v]).must("push failed");
                was
            }
            _ => db.set_big(&self.key, &[v]).must("set_big failed"),
        }
    }
    fn get(&self) -> Option<Vec<u8>> {
        let db = &self.db;
        match self.kind {
            PLAIN => db.get(&self.key).must("get failed"),
            TYPED_U => self.tu.get(&self.num()).must("typed get failed").map(|v| vec![v]),
            TYPED_I => self.ti.get(&(self.num() as i16)).must("typed get failed").map(|v| vec![v]),
            LIST => {
                let n = db.list_len(&self.key).must("list_len failed");
                let r = db.get_from_list(&self.key, &self.item).must("get_from_list failed");
                vs::check(n == r.is_some() as usize, "list length changed by another collection");
                let mut it = db.iter_list(&self.key);
                match it.next() {
                    None => vs::check(r.is_none(), "list iteration lost an item through another collection"),
                    Some(kv) => {
                        let (k, v) = kv.must("iter_list failed");
                        vs::check(vs::eq(&k, &self.item) && r.is_some() && vs::eq(&v, r.as_ref().unwrap()), "list iteration changed by another collection");
                        vs::check(it.next().is_none(), "phantom item in a list");
                    }
                }
                r
            }
            QUEUE => {
                let n = db.queue_len(&self.key).must("queue_len failed");
                let r = db.peek_queue_head(&self.key).must("peek failed");
                vs::check(n == r.is_some() as usize, "queue length changed by another collection");
                r
            }
            _ => db.get_big(&self.key).must("get_big failed"),
        }
    }
    fn del(&self) -> Option<Vec<u8>> {
        let db = &self.db;
        match self.kind {
            PLAIN => db.remove(&self.key).must("remove failed"),
            TYPED_U => self.tu.remove(&self.num()).must("typed remove failed").map(|v| vec![v]),
            TYPED_I => self.ti.remove(&(self.num() as i16)).must("typed remove failed").map(|v| vec![v]),
            LIST => {
                if vs::flag("discard") {
                    let g = self.get();
                    let r = db.discard_list(&self.key).must("discard_list failed");
                    vs::check(r == g.is_some(), "discard_list answered wrongly");
                    g
                } else {
                    db.remove_from_list(&self.key, &self.item).must("remove_from_list failed")
                }
            }
            QUEUE => db.pop_queue_head(&self.key).must("pop failed"),
            _ => {
                let g = self.get();
                let r = db.remove_big(&self.key).must("remove_big failed");
                vs::check(r == g.is_some(), "remove_big answered wrongly");
                g
            }
        }
    }
}

/// two entries in different collections (or different keys of one), all internal keys hashed to one place
#[no_mangle]
pub extern "C" fn h_c02_pair() {
    for ns in 1..=7 {
        vs::hash_policy(ns, 0, 0, 1);
    }
    let a = vs::choice(KINDS, "kind A");
    let b = vs::choice(KINDS, "kind B");
    // a big value is a queue by design, so the two share their names
    vs::assume(!(a == QUEUE && b == BIG || a == BIG && b == QUEUE));
    let lens = [1usize, 0, 2, 6, 9, 10, 16, 17];
    let nl = vs::param("lens", lens.len() as u64);
    let len = |k: usize, t: &str| if k == TYPED_U || k == TYPED_I { 2 } else { lens[vs::choice(nl, t)] };
    let (la, lb) = (len(a, "length A"), len(b, "length B"));
    let lists = a == LIST && b == LIST;
    if lists {
        // two lists whose names have equal 64-bit hashes are out of scope
        vs::hash_policy(NS_LIST, 0, !0, 1);
        vs::assume(la == 1 && lb == 1);
    }
    let ka = if lists { vec![1] } else { vs::bytes(la, "key A") };
    let kb = if lists { vec![2] } else { vs::bytes(lb, "key B") };
    if a == b {
        vs::assume(!vs::eq(&ka, &kb));
    }
    let ia = vs::bytes(if a == LIST { 1 } else { 0 }, "item A");
    let ib = vs::bytes(if b == LIST { 1 } else { 0 }, "item B");
    let db = Arc::new(open_with(Config { expected_number_of_keys: 0, ..config() }));
    let ca = Coll::new(&db, a, ka.clone(), ia);
    let cb = Coll::new(&db, b, kb.clone(), ib);
    let va = vs::bytes(1, "value A")[0];
    let vb = vs::bytes(1, "value B")[0];
    vs::check(!ca.put(va), "entry exists in an empty store");
    vs::check(cb.get().is_none(), "entry of one collection visible in another");
    match vs::choice(3, "operation on B") {
        0 => {
            vs::check(cb.del().is_none(), "removed something of another collection");
            vs::cover(0);
        }
        1 => {
            vs::check(!cb.put(vb), "entry of one collection taken for one of another");
            vs::check(vs::eq_opt(&cb.get(), &Some(vec![vb])), "wrong content");
            vs::check(vs::eq_opt(&ca.get(), &Some(vec![va])), "write to one collection changed another");
            // plain iteration shows the plain entries only
            let mut n = 0;
            for kv in db.iter() {
                let (k, v) = kv.must("iter failed");
                let isa = a == PLAIN && vs::eq(&k, &ka) && vs::eq(&v, &[va]);
                let isb = b == PLAIN && vs::eq(&k, &kb) && vs::eq(&v, &[vb]);
                vs::check(isa || isb, "iteration shows an entry that is not a plain one");
                n += 1;
            }
            vs::check(n == (a == PLAIN) as usize + (b == PLAIN) as usize, "iteration count wrong");
            vs::cover(1);
        }
        _ => {
            vs::check(!cb.put(vb), "entry of one collection taken for one of another");
            vs::check(vs::eq_opt(&cb.del(), &Some(vec![vb])), "removal answered wrongly");
            vs::check(cb.get().is_none(), "removed entry still there");
            vs::cover(2);
        }
    }
    vs::check(vs::eq_opt(&ca.get(), &Some(vec![va])), "operation on one collection changed another");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c02_pair", h_c02_pair)];
