//! C22: one failing file operation is reported, and nothing else is lost or altered
use crate::c04::{full_verify, key, keys};
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;

const ALL: u64 = 0xff;

fn variant(i: usize) -> Config {
    let big = (1 << 19, 1 << 20, 0);
    let (t, s, n) = [(3, 1 << 20, 0), (1 << 19, 12, 0), (3, 12, 0), (big.0, big.1, 16), (3, 12, 16), (3, 1 << 20, 16)][i];
    Config { min_compaction_threashold: t, max_shard_size: s, expected_number_of_keys: n, ..config() }
}

/// the content, with at most one entry in one of two states
struct State {
    m: Map,
    flight: Option<(Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>)>,
}
impl State {
    fn settle(&mut self, db: &CandyStore) {
        if let Some((k, old, new)) = self.flight.take() {
            let r = db.get(&k).must("get failed after a failed operation");
            vs::check(vs::eq_opt(&r, &old) | vs::eq_opt(&r, &new), "the entry in flight is neither in its old nor in its new state");
            match r {
                Some(v) => drop(self.m.set(&k, &v)),
                None => drop(self.m.remove(&k)),
            }
        }
    }
}

const ACTS: usize = 9;
/// returns whether it failed
fn act(db: &CandyStore, s: &mut State, kind: usize, step: usize) -> bool {
    let set = |s: &mut State, k: Vec<u8>, v: Vec<u8>| {
        let old = s.m.get(&k);
        match db.set(&k, &v) {
            Ok(r) => {
                match r {
                    SetStatus::CreatedNew => vs::check(old.is_none(), "set reported an existing key as created"),
                    SetStatus::PrevValue(p) => vs::check(vs::eq_opt(&Some(p), &old), "set returned a wrong previous value"),
                }
                s.m.set(&k, &v);
                false
            }
            Err(_) => {
                s.flight = Some((k, old, Some(v)));
                true
            }
        }
    };
    match kind {
        0 => set(s, key(0), vs::bytes(2, "value")),
        1 => set(s, key(6 + step), vs::bytes(1, "value")),
        2 => {
            let old = s.m.get(&key(0));
            match db.remove(&key(0)) {
                Ok(r) => {
                    vs::check(vs::eq_opt(&r, &old), "remove answered wrongly");
                    s.m.remove(&key(0));
                    false
                }
                Err(_) => {
                    s.flight = Some((key(0), old, None));
                    true
                }
            }
        }
        3 => match db.get(&key(0)) {
            Ok(r) => {
                vs::check(vs::eq_opt(&r, &s.m.get(&key(0))), "get answered wrongly");
                false
            }
            Err(_) => true,
        },
        4 => {
            let mut n = 0;
            for r in db.iter() {
                match r {
                    Ok((k, v)) => vs::check(vs::eq_opt(&s.m.get(&k), &Some(v)), "iteration yielded a wrong entry"),
                    Err(_) => return true,
                }
                n += 1;
                if n > s.m.0.len() {
                    break;
                }
            }
            vs::check(n == s.m.0.len(), "iteration skipped or repeated an entry");
            false
        }
        5 => db.merge_small_shards(0.49).is_err(),
        6 => db.flush().is_err(),
        7 => {
            let st = db.stats();
            vs::check(st.num_entries() == s.m.0.len(), "the entry count is wrong");
            false
        }
        _ => {
            vs::run_others();
            false
        }
    }
}

/// the store works; an earlier failure may surface once
fn usable(db: &CandyStore, s: &mut State, ks: &[Vec<u8>], failed: bool) {
    let n = vs::param("more", 5);
    s.settle(db);
    full_verify(db, &s.m, ks, "a failing file operation lost or altered an entry");
    vs::run_others();
    full_verify(db, &s.m, ks, "a failing file operation lost or altered an entry (after the background work)");
    let mut errors = failed as usize;
    for (i, k) in ks.iter().enumerate().take(n) {
        let v = [b'w', i as u8];
        if db.set(k, &v).is_err() {
            errors += 1;
            vs::check(errors <= 2, "operations keep failing after a single failing file operation");
            db.set(k, &v).must("an operation fails again after a single failing file operation");
        }
        s.m.set(k, &v);
        if i == n / 2 {
            vs::run_others();
        }
    }
    full_verify(db, &s.m, ks, "the store does not work after a failing file operation");
    vs::check(db.stats().num_entries() == s.m.0.len(), "the entry count is wrong after a failing file operation");
    vs::run_others();
    full_verify(db, &s.m, ks, "the store does not work after a failing file operation");
}

#[no_mangle]
pub extern "C" fn h_c22_fault() {
    vs::hash_policy(NS_USER, [0, H_ROW, H_SHARD0 | H_ROW][vs::param("symbolic", 0)], 0x3fffu64 << 48, 2);
    let ci = vs::choice(6, "configuration");
    // merging needs more shards than are expected
    drop(open_with(variant(ci)));
    let variant = |i| Config { expected_number_of_keys: 0, ..variant(i) };
    let db = open_with(variant(ci));
    let mut s = State { m: Map::default(), flight: None };
    // every key with an arbitrary hash costs
    let ks = if vs::param("symbolic", 0) > 0 { vec![key(0), key(1), key(6)] } else { keys(8) };
    for k in ks.iter().take(vs::param("keys", 2)) {
        let v = vs::bytes(1, "initial value");
        db.set(k, &v).must("set failed");
        s.m.set(k, &v);
    }
    vs::fault_begin(ALL, 1);
    let mut failed = false;
    for i in 0..vs::param("ops", 2) {
        let kind = vs::choice(ACTS, "activity");
        if act(&db, &mut s, kind, i) {
            vs::cover(kind as u32);
            failed = true;
            break;
        }
    }
    let left = vs::fault_end();
    if left > 0 {
        vs::check(!failed, "an operation failed although no file operation did");
        vs::cover(20);
        if vs::param("faulty", 1) == 1 {
            return;
        }
    }
    vs::cover(21 + failed as u32);
    if vs::flag("reopen at once") {
        drop(db);
        let db = open_with(variant(ci));
        usable(&db, &mut s, &ks, true);
        return;
    }
    usable(&db, &mut s, &ks, failed);
    drop(db);
    full_verify(&open_with(variant(ci)), &s.m, &ks, "content differs after a failing file operation and reopening");
}

/// the files may have to be repaired when the store is opened: a failure of that may only delay it
extern "C" fn recover() {
    let o = vs::unstash(10).must("stash");
    let cfg = || Config { expected_number_of_keys: 0, ..variant(o[0] as usize) };
    let mut s = State { m: Map::load(11), flight: None };
    let after = Map::load(12);
    if o[1] < 3 {
        let k = key([0, 6, 0][o[1] as usize]);
        s.flight = Some((k.clone(), s.m.get(&k), after.get(&k)));
    }
    vs::fault_begin(ALL, 1);
    let r = CandyStore::open(DIR, cfg());
    let left = vs::fault_end();
    let db = match r {
        Ok(db) => db,
        Err(_) => {
            vs::check(left == 0, "the store cannot be opened after a crash");
            vs::cover(10);
            open_with(cfg())
        }
    };
    vs::cover(11 + left as u32);
    usable(&db, &mut s, &keys(8), true);
    drop(db);
    full_verify(&open_with(cfg()), &s.m, &keys(8), "content differs after a failing file operation while opening and reopening");
}
#[no_mangle]
pub extern "C" fn h_c22_open() {
    vs::hash_policy(NS_USER, 0, 0x3fffu64 << 48, 2);
    let ci = vs::choice(6, "configuration");
    drop(open_with(variant(ci)));
    let mut s = State { m: Map::default(), flight: None };
    let db = open_with(Config { expected_number_of_keys: 0, ..variant(ci) });
    for k in keys(vs::param("keys", 3)) {
        let v = vs::bytes(1, "initial value");
        db.set(&k, &v).must("set failed");
        s.m.set(&k, &v);
    }
    let kind = vs::choice(5, "activity");
    if kind >= 3 && vs::flag("remove first") {
        act(&db, &mut s, 2, 0);
    }
    s.m.save(11);
    let mut after = s.m.clone();
    let v = vs::bytes(2, "value");
    match kind {
        0 => drop(after.set(&key(0), &v)),
        1 => drop(after.set(&key(6), &v)),
        2 => drop(after.remove(&key(0))),
        _ => {}
    }
    after.save(12);
    vs::stash(10, &[ci as u8, kind as u8]);
    vs::crash_begin(recover);
    match kind {
        0 => drop(db.set(&key(0), &v).must("set failed")),
        1 => drop(db.set(&key(6), &v).must("set failed")),
        2 => drop(db.remove(&key(0)).must("remove failed")),
        3 => drop(db.merge_small_shards(0.49).must("merge failed")),
        _ => {}
    }
    vs::run_others();
    vs::crash_end();
    vs::crash_now(recover);
}

/// clearing fails halfway
#[no_mangle]
pub extern "C" fn h_c22_clear() {
    vs::hash_policy(NS_USER, 0, 0x3fffu64 << 48, 2);
    let ci = vs::choice(6, "configuration");
    drop(open_with(variant(ci)));
    let cfg = || Config { expected_number_of_keys: [0, 16][vs::param("expected", 0)], ..variant(ci) };
    let db = open_with(cfg());
    let mut s = State { m: Map::default(), flight: None };
    let ks = keys(8);
    for k in ks.iter().take(vs::param("keys", 3)) {
        let v = vs::bytes(1, "initial value");
        db.set(k, &v).must("set failed");
        s.m.set(k, &v);
    }
    if vs::flag("something before") {
        let kind = [0, 2, 8][vs::choice(3, "activity")];
        act(&db, &mut s, kind, 0);
    }
    vs::fault_begin(ALL, 1);
    let failed = db.clear().is_err();
    let left = vs::fault_end();
    vs::check(!failed || left == 0, "clear failed although no file operation did");
    if left == 0 {
        vs::cover(1 + failed as u32);
    }
    // what was not removed is unchanged
    let mut rest = Map::default();
    for (k, v) in &s.m.0 {
        let r = db.get(k).must("get failed after clearing failed");
        if let Some(r) = r {
            vs::check(failed, "clear reported success but left an entry");
            vs::check(vs::eq(&r, v), "clearing altered an entry");
            rest.set(k, &r);
        }
    }
    s.m = rest;
    let db = if failed && vs::flag("reopen at once") {
        drop(db);
        open_with(cfg())
    } else {
        db
    };
    if failed && vs::flag("clear again") {
        db.clear().must("clear fails again after a single failing file operation");
        s.m = Map::default();
        vs::cover(3);
    }
    usable(&db, &mut s, &ks, true);
    drop(db);
    full_verify(&open_with(cfg()), &s.m, &ks, "content differs after clearing failed and reopening");
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[("h_c22_fault", h_c22_fault), ("h_c22_open", h_c22_open), ("h_c22_clear", h_c22_clear)];
