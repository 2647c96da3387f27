//! C17 statistics, C18 lock, C19 format, C20 flush, C23 clear
use crate::c04::{full_verify, keys};
use crate::common::*;
use crate::vs::{self, Must};
use candystore::*;
use std::sync::Arc;

/// names and sizes of the store's files, without the lock
fn files() -> Vec<(String, u64)> {
    let mut v = vec![];
    let Ok(dir) = std::fs::read_dir(DIR) else {
        return v;
    };
    for e in dir {
        let e = e.must("read_dir failed");
        let n = e.file_name().into_string().unwrap();
        if n != ".lock" {
            v.push((n, e.metadata().must("metadata failed").len()));
        }
    }
    v.sort();
    v
}

const HEADER: u64 = Stats::FILE_HEADER_SIZE as u64;

// ------------------------------------------------------------------ C17
fn check_stats(db: &CandyStore) -> Stats {
    let s = db.stats();
    let (mut n, mut bytes) = (0, 0);
    for kv in db.iter_raw() {
        let (k, v) = kv.must("iteration failed");
        n += 1;
        bytes += k.len() + v.len();
    }
    vs::check(s.num_entries() == n, "the statistics report another number of entries than are stored");
    vs::check(s.data_bytes() == bytes, "the statistics report another data size than is stored");
    let f = files();
    vs::check(f.iter().all(|e| e.0.starts_with("shard_")), "files other than shards are left");
    vs::check(s.num_shards == f.len(), "the statistics report another number of shards than there are");
    vs::check(s.total_occupied_bytes() as u64 == f.iter().map(|e| e.1).sum::<u64>(), "the statistics report another file size than is occupied");
    vs::check(s.average_entry_size() == if n == 0 { 0 } else { bytes / n }, "the statistics report a wrong average entry size");
    s
}

#[no_mangle]
pub extern "C" fn h_c17_plain() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0x3fffu64 << 48, 2);
    let c = (vs::choice(2, "compaction threshold"), vs::choice(2, "shard size"), vs::choice(2, "initial shards"));
    let cfg = || Config { min_compaction_threashold: [3, 1 << 19][c.0], max_shard_size: [12, 1 << 20][c.1], expected_number_of_keys: [0, 8][c.2], ..config() };
    let mut db = open_with(cfg());
    let ks = keys(vs::param("keys", 3));
    let mut m = Map::default();
    for k in &ks {
        let v = vs::bytes(1, "value");
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    for _ in 0..vs::param("ops", 2) {
        let op = vs::choice(7, "operation");
        let i = if op < 4 { vs::choice(ks.len() + 1, "key") } else { 0 };
        let k = ks.get(i).cloned().unwrap_or(b"new".to_vec());
        let v = vec![7u8; if op == 0 { vs::choice(2, "length") * 3 } else { 1 }];
        vs::cover(op as u32);
        match op {
            0 => {
                db.set(&k, &v).must("set failed");
                m.set(&k, &v);
            }
            1 => {
                db.remove(&k).must("remove failed");
                m.remove(&k);
            }
            2 => {
                db.get_or_create(&k, &v).must("get_or_create failed");
                if m.get(&k).is_none() {
                    m.set(&k, &v);
                }
            }
            3 => {
                db.replace(&k, &v, None).must("replace failed");
                if m.get(&k).is_some() {
                    m.set(&k, &v);
                }
            }
            4 => drop(db.merge_small_shards(0.49).must("merge failed")),
            5 => vs::run_others(),
            _ => {
                drop(db);
                db = open_with(cfg());
            }
        }
        vs::check(db.stats().num_entries() == m.0.len(), "the statistics report a wrong number of entries");
    }
    let s = check_stats(&db);
    vs::cover(10 + (s.num_compactions > 0) as u32);
    vs::cover(12 + (s.num_splits > 0) as u32);
    drop(db);
    let db = open_with(cfg());
    check_stats(&db);
    vs::check(db.stats().num_entries() == m.0.len(), "the statistics report a wrong number of entries after reopening");
}

#[no_mangle]
pub extern "C" fn h_c17_coll() {
    for ns in [NS_USER, NS_LIST, NS_ITEM, NS_CHAIN, NS_QUEUE, NS_QITEM] {
        vs::hash_policy(ns, 0, H_ROW, 3);
    }
    let c = vs::choice(2, "compaction threshold");
    let cfg = || Config { min_compaction_threashold: [60, 1 << 19][c], ..config() };
    let mut db = open_with(cfg());
    for _ in 0..vs::param("ops", 3) {
        let op = vs::choice(12, "operation");
        vs::cover(op as u32);
        match op {
            0 => drop(db.set_in_list("l", &vs::bytes(1, "item"), "v").must("set_in_list failed")),
            1 => drop(db.remove_from_list("l", "i").must("remove_from_list failed")),
            2 => drop(db.pop_list_head("l").must("pop failed")),
            3 => drop(db.discard_list("l").must("discard failed")),
            4 => drop(db.push_to_queue_tail("l", "v").must("push failed")),
            5 => drop(db.pop_queue_head("l").must("pop failed")),
            6 => drop(db.set_big(b"l", &vec![1; 70000][..65000 + 600 * vs::choice(2, "big value length")]).must("set_big failed")),
            7 => drop(db.discard_queue("l").must("discard failed")),
            8 => drop(db.set("l", "v").must("set failed")),
            9 => vs::run_others(),
            10 => drop(db.set_in_list_promoting("l", "i", "w").must("set_in_list_promoting failed")),
            _ => {
                drop(db);
                db = open_with(cfg());
            }
        }
    }
    check_stats(&db);
    drop(db);
    check_stats(&open_with(cfg()));
}

// ------------------------------------------------------------------ C18
fn is_ok(r: candystore::Result<CandyStore>) -> Option<CandyStore> {
    r.ok()
}

/// every order of open attempts and closes, by one or two threads
#[no_mangle]
pub extern "C" fn h_c18_order() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0, 1);
    let mut db: Option<CandyStore> = None;
    let mut m = Map::default();
    let ks = keys(2);
    for _ in 0..vs::param("ops", 4) {
        match vs::choice(4, "step") {
            0 => {
                let c = vs::choice(2, "configuration");
                let before = files();
                let r = CandyStore::open(DIR, Config { expected_number_of_keys: [0, 28][c], clear_on_unsupported_version: c == 1, ..config() });
                if db.is_some() {
                    vs::check(r.is_err(), "a store was opened twice");
                    vs::check(files() == before, "a refused open changed files");
                    vs::cover(1);
                } else {
                    vs::check(r.is_ok(), "a closed store cannot be opened");
                    db = r.ok();
                    vs::cover(0);
                }
            }
            1 => db = None,
            _ => {
                if let Some(db) = &db {
                    let k = &ks[vs::choice(2, "key")];
                    let v = vs::bytes(1, "value");
                    db.set(k, &v).must("set failed");
                    m.set(k, &v);
                }
            }
        }
        if let Some(db) = &db {
            full_verify(db, &m, &ks, "an attempt to open a store twice changed it");
        }
    }
}

/// two processes (here threads) open at the same time; the one that succeeded closes while a compaction runs
#[no_mangle]
pub extern "C" fn h_c18_race() {
    vs::hash_policy(NS_USER, H_ROW, 0, 1);
    let cfg = || Config { min_compaction_threashold: 3, ..config() };
    let ks = keys(2);
    let mut m = Map::default();
    let mode = vs::choice(2, "mode");
    if mode == 0 {
        vs::preempt(vs::param("preempt", 1) as u64, vs::param("flags", 0) as u64);
        let t = std::thread::spawn(move || is_ok(CandyStore::open(DIR, config())));
        let a = is_ok(CandyStore::open(DIR, config()));
        let b = t.join().must("a thread panicked");
        vs::preempt(0, 0);
        vs::check(!(a.is_some() && b.is_some()), "two opens at the same time both succeeded");
        vs::check(a.is_some() || b.is_some(), "two opens at the same time both failed");
        let db = a.or(b).unwrap();
        for k in &ks {
            let v = vs::bytes(1, "value");
            db.set(k, &v).must("set failed");
            m.set(k, &v);
        }
        full_verify(&db, &m, &ks, "two opens at the same time disturbed the store");
        drop(db);
        full_verify(&open(), &m, &ks, "two opens at the same time disturbed the store");
        vs::cover(0);
        return;
    }
    let db = open_with(cfg());
    for (k, v) in [(0, "1"), (1, "2"), (0, "33"), (0, "44")] {
        db.set(&ks[k], v).must("set failed");
        m.set(&ks[k], v.as_bytes());
    }
    // the last set started a compaction
    vs::preempt(vs::param("preempt", 1) as u64, vs::param("flags", 0) as u64);
    let m2 = m.clone();
    let t = std::thread::spawn(move || {
        let Ok(db) = CandyStore::open(DIR, config()) else {
            return false;
        };
        vs::cover(2);
        let ks = keys(2);
        full_verify(&db, &m2, &ks, "a store was opened before it was closed");
        db.set(&ks[1], "55").must("set failed");
        true
    });
    drop(db);
    if t.join().must("a thread panicked") {
        m.set(&ks[1], b"55");
    }
    vs::preempt(0, 0);
    full_verify(&open(), &m, &ks, "opening while another closes disturbed the store");
    vs::cover(1);
}

extern "C" fn recover_open() {
    let n = vs::unstash(4).map_or(0, |v| v[0]) + 1;
    vs::stash(4, &[n]);
    let ks = keys(2);
    let m = Map::load(0);
    if (n as usize) < vs::param("crashes", 2) {
        vs::crash_begin(recover_open);
    }
    let db = match CandyStore::open(DIR, config()) {
        Ok(db) => db,
        Err(_) => vs::fail("a store cannot be opened after its process died"),
    };
    vs::check(CandyStore::open(DIR, config()).is_err(), "a store was opened twice after a crash");
    vs::crash_end();
    full_verify(&db, &m, &ks, "content differs after a crash while open");
    vs::cover(10 + n as u32);
}

/// the process dies at any point while opening, or while open
#[no_mangle]
pub extern "C" fn h_c18_crash() {
    vs::hash_policy(NS_USER, H_ROW, 0, 1);
    let ks = keys(2);
    let mut m = Map::default();
    if vs::flag("existing") {
        let db = open();
        for k in &ks {
            let v = vs::bytes(1, "value");
            db.set(k, &v).must("set failed");
            m.set(k, &v);
        }
    }
    m.save(0);
    vs::crash_begin(recover_open);
    let db = open();
    if vs::flag("second open") {
        vs::check(CandyStore::open(DIR, config()).is_err(), "a store was opened twice");
    }
    let closed = vs::flag("closed");
    if closed {
        drop(db);
        vs::crash_now(recover_open);
    } else {
        vs::crash_now(recover_open);
        drop(db);
    }
}

// ------------------------------------------------------------------ C19
/// a shard file with arbitrary format marker and length
#[no_mangle]
pub extern "C" fn h_c19_format() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0, 1);
    let two = vs::flag("two shards");
    let clear = vs::flag("clear_on_unsupported_version");
    let trunc_up = vs::flag("truncate_up");
    let cfg = || Config { clear_on_unsupported_version: clear, truncate_up: trunc_up, max_shard_size: 300, expected_number_of_keys: [0, 8][two as usize], ..config() };
    let ks = keys(2);
    let mut m = Map::default();
    {
        let db = open_with(cfg());
        for k in &ks {
            let v = vs::bytes(1, "value");
            db.set(k, &v).must("set failed");
            m.set(k, &v);
        }
    }
    let name = if two { ["shard_0000-8000", "shard_8000-10000"][vs::choice(2, "damaged shard")] } else { "shard_0000-10000" };
    let path = format!("{DIR}/{name}");
    let good = std::fs::read(&path).must("read failed");
    let mut b = good.clone();
    match vs::choice(3, "damage") {
        0 => {
            let magic = vs::bytes(16, "format marker");
            b[..16].copy_from_slice(&magic);
        }
        1 => b.truncate([0, 1, 8, 15, 16, 17, HEADER as usize - 1][vs::choice(7, "file length")]),
        _ => {
            let magic = vs::bytes(16, "format marker");
            b[..16].copy_from_slice(&magic);
            b.truncate([16, 4096, HEADER as usize - 1, HEADER as usize][vs::choice(4, "file length")]);
        }
    }
    std::fs::write(&path, &b).must("write failed");
    // created, but not yet marked as initialized
    let zero = b.len() >= HEADER as usize && vs::eq(&b[..8], &[0; 8]) & (vs::eq(&b[8..16], &[0; 8]) | vs::eq(&b[8..16], &good[8..16])) & vs::eq(&b[16..HEADER as usize], &vec![0; HEADER as usize - 16]);
    let fine = b.len() >= HEADER as usize && vs::eq(&b[..16], &good[..16]);
    let lost = |m: &mut Map| {
        // the entries of the damaged shard: those that are in its half
        let names = files();
        vs::check(names.iter().any(|f| f.0 == name), "the damaged shard has vanished");
        m.0.retain(|e| {
            let h = &good[HEADER as usize..];
            !h.windows(3).any(|w| w[0] == e.0[0] && w[1] == 1 && vs::eq(&w[2..], &e.1))
        });
    };
    match CandyStore::open(DIR, cfg()) {
        Ok(db) => {
            vs::check(fine || zero || b.is_empty() || clear, "a file of unknown format was accepted");
            if fine {
                vs::cover(0);
                if b.len() == good.len() {
                    full_verify(&db, &m, &ks, "a well-formed file was misread");
                }
            } else {
                vs::cover(1);
                lost(&mut m);
                full_verify(&db, &m, &ks, "a file of unknown format was not cleared");
                // the store works
                for k in &ks {
                    db.set(k, "zz").must("set failed");
                    m.set(k, b"zz");
                }
                full_verify(&db, &m, &ks, "the store does not work after clearing a shard");
                drop(db);
                full_verify(&open_with(cfg()), &m, &ks, "the store does not work after clearing a shard");
            }
        }
        Err(_) => {
            vs::cover(2);
            vs::check(!clear, "a file of unknown format was refused although clearing is enabled");
            vs::check(!fine, "a well-formed file was refused");
            vs::check(vs::eq(&std::fs::read(&path).must("read failed"), &b), "a refused file was changed");
            // with the file restored everything is as before
            std::fs::write(&path, &good).must("write failed");
            full_verify(&open_with(cfg()), &m, &ks, "refusing a shard changed another one");
        }
    }
}

/// the process died during a compaction, then the shard file is damaged
#[no_mangle]
pub extern "C" fn h_c19_compact() {
    vs::hash_policy(NS_USER, H_ROW, 0, 1);
    let cfg = || Config { min_compaction_threashold: 3, ..config() };
    let db = open_with(cfg());
    let ks = keys(2);
    let mut m = Map::default();
    for k in [0, 1, 0] {
        let v = vs::bytes(1 + (k == 0 && m.0.len() == 2) as usize, "value");
        db.set(&ks[k], &v).must("set failed");
        m.set(&ks[k], &v);
    }
    m.save(0);
    vs::crash_begin(recover_damaged);
    db.set(&ks[0], "a").must("set failed");
    m.set(&ks[0], b"a");
    m.save(1);
    vs::run_others();
    vs::crash_now(recover_damaged);
}
extern "C" fn recover_damaged() {
    let ks = keys(2);
    let path = format!("{DIR}/shard_0000-10000");
    let good = std::fs::read(&path).must("read failed");
    let mut b = good.clone();
    let mark = vs::bytes(16, "format marker");
    vs::assume(!vs::eq(&mark, &good[..16]));
    b[..16].copy_from_slice(&mark);
    std::fs::write(&path, &b).must("write failed");
    let clear = vs::flag("clear_on_unsupported_version");
    let before = files();
    vs::cover((before.len() == 1) as u32);
    match CandyStore::open(DIR, Config { clear_on_unsupported_version: clear, ..config() }) {
        Err(_) => {
            vs::check(!clear, "a file of unknown format was refused although clearing is enabled");
            vs::check(files() == before, "a refused open changed files");
            std::fs::write(&path, &good).must("write failed");
            let db = open();
            for k in &ks {
                let g = db.get(k).must("get failed");
                let old = vs::eq_opt(&g, &Map::load(0).get(k));
                let new = vs::unstash(1).is_some_and(|_| vs::eq_opt(&g, &Map::load(1).get(k)));
                vs::check(old | new | (k[0] == ks[0][0]) & vs::eq_opt(&g, &Some(b"a".to_vec())), "content differs after a refused open");
            }
        }
        Ok(db) => {
            vs::check(clear, "a file of unknown format was accepted");
            let mut m = Map::default();
            full_verify(&db, &m, &ks, "a shard of unknown format was not cleared");
            vs::check(files() == [("shard_0000-10000".to_string(), HEADER)], "files are left after clearing a shard of unknown format");
            for k in &ks {
                db.set(k, "zz").must("set failed");
                m.set(k, b"zz");
            }
            drop(db);
            full_verify(&open(), &m, &ks, "the store does not work after clearing a shard");
            vs::cover(2);
        }
    }
}

// ------------------------------------------------------------------ C20
/// one of several activities that write or move data; keys in `m` only change with the model
const ACTS: usize = 8;
fn act(db: &CandyStore, m: &mut Map, ks: &[Vec<u8>], n: usize) {
    match vs::choice(n, "activity") {
        0 => vs::run_others(),
        1 => {
            let k = &ks[vs::choice(ks.len(), "key")];
            let v = vs::bytes(2, "value");
            db.set(k, &v).must("set failed");
            m.set(k, &v);
        }
        2 => {
            let k = &ks[vs::choice(ks.len(), "key")];
            db.remove(k).must("remove failed");
            m.remove(k);
        }
        3 => drop(db.merge_small_shards(0.49).must("merge failed")),
        4 => drop(db.set_in_list("l", "i", "v").must("set_in_list failed")),
        5 => drop(db.push_to_queue_tail("q", "v").must("push failed")),
        6 => drop(db.set("other", "v").must("set failed")),
        _ => drop(db.set("other2", "v").must("set failed")),
    }
}

fn some_cfg(c: &[u8]) -> Config {
    Config { min_compaction_threashold: [3, 1 << 19][c[0] as usize], max_shard_size: [12, 1 << 20][c[1] as usize], expected_number_of_keys: [0, 8][c[2] as usize], ..config() }
}

extern "C" fn after_power_loss() {
    let ks = keys(vs::param("keys", 2));
    let m = Map::load(0);
    let touched = Map::load(1); // keys changed since the flush
    let db = match CandyStore::open(DIR, some_cfg(&vs::unstash(3).unwrap())) {
        Ok(db) => db,
        Err(_) => vs::fail("the store cannot be opened after a power loss"),
    };
    for k in &ks {
        if touched.get(k).is_none() {
            vs::check(vs::eq_opt(&db.get(k).must("get failed after a power loss"), &m.get(k)), "flushed data was lost with the power");
            vs::cover(20);
        }
    }
    vs::cover(21);
}

/// whatever was flushed survives a loss of everything that was not synced, whatever happened before and afterwards
#[no_mangle]
pub extern "C" fn h_c20_power() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0x3fffu64 << 48, 2);
    vs::power_prepare();
    let c: Vec<u8> = (0..3).map(|_| vs::choice(2, "configuration") as u8).collect();
    drop(open_with(some_cfg(&c)));
    // one or two shards, which may be merged
    let c = [c[0], c[1], 0];
    vs::stash(3, &c);
    let db = open_with(some_cfg(&c));
    let mut m = Map::default();
    let ks = keys(vs::param("keys", 2));
    for k in &ks {
        let v = vs::bytes(1, "value");
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    }
    for _ in 0..vs::param("before", 1) {
        act(&db, &mut m, &ks, 4);
    }
    db.flush().must("flush failed");
    vs::check(vs::dirty_files() == 0, "flush returned although a file has data that was not synced");
    m.save(0);
    let mut touched = Map::default();
    vs::power_begin(after_power_loss);
    for _ in 0..vs::param("after", 1) {
        match vs::choice(4, "activity after the flush") {
            0 => vs::run_others(),
            1 => vs::cover(22 + db.merge_small_shards(0.49).must("merge failed") as u32),
            2 => {
                let k = &ks[vs::choice(ks.len(), "key")];
                touched.set(k, b"");
                touched.save(1);
                db.set(k, "zzz").must("set failed");
            }
            _ => drop(db.set("other", "v").must("set failed")),
        }
    }
    vs::run_others();
    vs::power_now(after_power_loss);
}

/// flush while a compaction or another thread's split is in progress
#[no_mangle]
pub extern "C" fn h_c20_live() {
    vs::hash_policy(NS_USER, H_ROW, 0x3fffu64 << 48, 2);
    vs::power_prepare();
    let c = [0, 1, 0];
    vs::stash(3, &c);
    let mode = vs::choice(2, "mode");
    let cfg = if mode == 0 { some_cfg(&c) } else { Config { max_shard_size: 15, ..config() } };
    let db = Arc::new(open_with(cfg));
    let mut m = Map::default();
    let ks = keys(2);
    let put = |m: &mut Map, k: &[u8], v: Vec<u8>| {
        db.set(k, &v).must("set failed");
        m.set(k, &v);
    };
    for k in &ks {
        put(&mut m, k, vs::bytes(1, "value"));
    }
    let mut t = None;
    if mode == 0 {
        put(&mut m, &ks[0], vs::bytes(2, "value"));
        put(&mut m, &ks[0], vs::bytes(2, "value")); // starts the compaction
        vs::preempt(vs::param("preempt", 1) as u64, vs::param("flags", 0) as u64);
    } else {
        // the other thread splits the shard
        let db2 = db.clone();
        vs::preempt(vs::param("preempt", 1) as u64, vs::param("flags", 0) as u64);
        t = Some(std::thread::spawn(move || drop(db2.set("other", "vvvv").must("set failed"))));
    }
    if vs::flag("set during") {
        let k = &ks[vs::choice(2, "key")];
        put(&mut m, k, vs::bytes(1, "value"));
    }
    db.flush().must("flush failed");
    m.save(0);
    if vs::flag("wait") {
        vs::preempt(0, 0);
        if let Some(t) = t {
            t.join().must("a thread panicked");
        }
        vs::run_others();
        vs::cover(mode as u32);
    }
    vs::power_now(after_power_loss);
}

// ------------------------------------------------------------------ C23
fn check_cleared(db: &CandyStore, ks: &[Vec<u8>], cfg: &Config) {
    for k in ks {
        vs::check(db.get(k).must("get failed").is_none(), "an entry is there after clear");
    }
    vs::check(db.iter_raw().next().is_none(), "iteration shows entries after clear");
    vs::check(db.iter_list("l").next().is_none() && db.list_len("l").must("failed") == 0, "a list is there after clear");
    vs::check(db.iter_queue("q").next().is_none() && db.queue_len("q").must("failed") == 0, "a queue is there after clear");
    let s = db.stats();
    vs::check(s.num_entries() == 0 && s.data_bytes() == 0, "statistics show entries after clear");
    let want = [("notes", 2)].iter().map(|e| (e.0.to_string(), e.1));
    let spans: &[&str] = match cfg.expected_number_of_keys {
        0 => &["shard_0000-10000"],
        8 => &["shard_0000-8000", "shard_8000-10000"],
        _ => &["shard_0000-4000", "shard_4000-8000", "shard_8000-c000", "shard_c000-10000"],
    };
    let want: Vec<_> = want.chain(spans.iter().map(|n| (n.to_string(), HEADER))).collect();
    vs::check(files() == want, "files of the former content are left after clear, or others are gone");
}

/// any history, possibly with a crash in it, then clear
extern "C" fn clear_after() {
    let c = vs::unstash(3).unwrap();
    let cfg = || Config { expected_number_of_keys: [0, 8, 28][c[2] as usize], ..some_cfg(&[c[0], c[1], 0]) };
    let db = open_with(cfg());
    clear_and_check(db, cfg, vs::param("between", 0) == 1);
}

fn clear_and_check(db: CandyStore, cfg: impl Fn() -> Config, more: bool) {
    let ks = keys(vs::param("keys", 2));
    let mut m = Map::default();
    std::fs::write(format!("{DIR}/notes"), "xx").must("write failed");
    if more {
        act(&db, &mut m, &ks, 4);
    }
    db.clear().must("clear failed");
    let mut m = Map::default();
    check_cleared(&db, &ks, &cfg());
    vs::run_others();
    check_cleared(&db, &ks, &cfg());
    let reopen = vs::flag("reopen");
    let db = if reopen {
        drop(db);
        let db = open_with(cfg());
        check_cleared(&db, &ks, &cfg());
        db
    } else {
        db
    };
    for k in &ks {
        let v = vs::bytes(1, "value");
        vs::check(matches!(db.set(k, &v).must("set failed after clear"), SetStatus::CreatedNew), "set found an entry from before clear");
        m.set(k, &v);
    }
    let mut m2 = m.clone();
    if vs::param("crash", 0) == 0 {
        act(&db, &mut m2, &ks, 3);
    }
    full_verify(&db, &m2, &ks, "the store does not work after clear");
    drop(db);
    full_verify(&open_with(cfg()), &m2, &ks, "the store does not work after clear and reopening");
    vs::cover(2 + reopen as u32);
}

#[no_mangle]
pub extern "C" fn h_c23_clear() {
    vs::hash_policy(NS_USER, H_SHARD0 | H_ROW, 0x3fffu64 << 48, 2);
    let crash = vs::param("crash", 0) == 1;
    let c: Vec<u8> = [2, 2, 3].iter().map(|n| vs::choice(*n, "configuration") as u8).collect();
    vs::stash(3, &c);
    let cfg = || Config { expected_number_of_keys: [0, 8, 28][c[2] as usize], ..some_cfg(&[c[0], c[1], 0]) };
    let db = open_with(cfg());
    let mut m = Map::default();
    let ks = keys(vs::param("keys", 2));
    for k in &ks {
        db.set(k, "1").must("set failed");
        m.set(k, b"1");
    }
    if crash {
        vs::crash_begin(clear_after);
    }
    for _ in 0..vs::param("ops", 2) {
        act(&db, &mut m, &ks, if c[1] == 0 { 4 } else { ACTS });
    }
    if crash {
        vs::cover(1);
        vs::crash_now(clear_after);
    }
    vs::cover(0);
    clear_and_check(db, cfg, false);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c17_plain", h_c17_plain),
    ("h_c17_coll", h_c17_coll),
    ("h_c18_order", h_c18_order),
    ("h_c18_race", h_c18_race),
    ("h_c18_crash", h_c18_crash),
    ("h_c19_format", h_c19_format),
    ("h_c19_compact", h_c19_compact),
    ("h_c20_power", h_c20_power),
    ("h_c20_live", h_c20_live),
    ("h_c23_clear", h_c23_clear),
];
