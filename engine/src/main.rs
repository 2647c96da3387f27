mod env;
mod expr;
mod interp;
mod ir;
mod mem;
mod solver;
mod state;

use interp::*;
use ir::*;
use mem::*;
use state::*;
use std::collections::HashMap;
use std::ffi::c_int;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, fl: c_int) -> c_int;
    fn prctl(a: c_int, b: u64, c: u64, d: u64, e: u64) -> c_int;
    fn mmap(a: *mut u8, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut u8;
    fn _exit(c: c_int) -> !;
}

#[repr(C)]
struct Shared {
    active: AtomicI64,
    stop: AtomicU64,
    incomplete: AtomicU64,
    violations: AtomicU64,
    internal: AtomicU64,
    pending: AtomicU64,
    covers: [AtomicU64; 2],
    stats: [AtomicU64; 32],
    procs: AtomicU64,
    samples: AtomicU64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn event_json(st: &State, e: &Ev) -> String {
    match e {
        Ev::Choice { th, n, v, tag } => format!("{{\"k\":\"choice\",\"th\":{th},\"n\":{n},\"v\":{v},\"tag\":{}}}", js(tag)),
        Ev::Sym { th, first, count, w, tag } => {
            let vals: Vec<String> = (0..*count).map(|i| format!("{}", st.model[(*first + i) as usize])).collect();
            format!("{{\"k\":\"sym\",\"th\":{th},\"w\":{w},\"vals\":[{}],\"tag\":{}}}", vals.join(","), js(tag))
        }
        Ev::Hash { .. } => "{\"k\":\"hash\"}".into(),
        Ev::Switch { from, point, to, forced } => format!("{{\"k\":\"switch\",\"from\":{from},\"point\":{point},\"to\":{to},\"forced\":{forced}}}"),
        Ev::Crash { ev, sub } => format!("{{\"k\":\"crash\",\"ev\":{},\"sub\":{sub}}}", *ev),
        Ev::Fault { idx, call, errno } => format!("{{\"k\":\"fault\",\"idx\":{idx},\"call\":{},\"errno\":{errno}}}", js(call)),
        Ev::Note(s) => format!("{{\"k\":\"note\",\"text\":{}}}", js(s)),
    }
}

fn report(it: &Interp, st: &State, entry: &str, kind: &str, msg: &str) -> String {
    let a = expr::x();
    let evs: Vec<String> = st.events().iter().map(|e| event_json(st, e)).collect();
    let hashes: Vec<String> = st
        .hashes
        .iter()
        .map(|h| {
            let d: Vec<String> = (0..h.data.bytes.len()).map(|i| format!("{}", a.eval(h.data.byte(i).e(8), &st.model))).collect();
            format!("{{\"data\":[{}],\"h1\":{},\"h2\":{}}}", d.join(","), a.eval(h.h1.e(64), &st.model), a.eval(h.h2.e(64), &st.model))
        })
        .collect();
    format!(
        "{{\"tls\":{},\"params\":{{{}}},\"entry\":{},\"kind\":{},\"msg\":{},\"thread\":{},\"crashes\":{},\"insts\":{},\"events\":[{}],\"hashes\":[{}],\"stderr\":{}}}",
        it.m.tls_size,
        it.cfg.params.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        js(entry),
        js(kind),
        js(msg),
        st.cur,
        st.crashes,
        st.insts,
        evs.join(","),
        hashes.join(","),
        js(&String::from_utf8_lossy(&st.out))
    )
}

fn stats_arr(s: &Stats) -> &[u64] {
    unsafe { std::slice::from_raw_parts(s as *const Stats as *const u64, std::mem::size_of::<Stats>() / 8) }
}

fn flush(it: &mut Interp, sh: &Shared, out: &str) {
    let pid = std::process::id();
    for (i, v) in stats_arr(&it.stats).iter().enumerate() {
        sh.stats[i].fetch_add(*v, SeqCst);
    }
    let s = &it.solver;
    for (i, v) in [s.queries, s.cached, s.sat, s.unsat, s.unknown, s.nanos].iter().enumerate() {
        sh.stats[20 + i].fetch_add(*v, SeqCst);
    }
    sh.covers[0].fetch_or(it.covers as u64, SeqCst);
    sh.covers[1].fetch_or((it.covers >> 64) as u64, SeqCst);
    let mut f = std::fs::File::create(format!("{out}/fn.{pid}")).unwrap();
    let mut text = String::new();
    for fd in &it.m.funcs {
        if fd.used.get() {
            text.push_str(if fd.pretty.is_empty() { &fd.name } else { &fd.pretty });
            text.push('\n');
        }
    }
    f.write_all(text.as_bytes()).unwrap();
    if it.cfg.profile {
        let mut v: Vec<_> = it.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in v.iter().take(40) {
            eprintln!("{n:10} {}", it.m.funcs[**f].pretty);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: vsym FILE.ll ENTRY --out DIR [--jobs N] [--time S] [--inst N] [--keep-going]");
        std::process::exit(2);
    }
    let mut jobs = 8i64;
    let mut time = 600.0f64;
    let mut out = String::from("/tmp/vsym-out");
    let mut cfg = Cfg { inst_limit: 20_000_000, yield_limit: 400, debug: false, trace_fns: false, profile: false, params: HashMap::new() };
    let mut keep = 0u64;
    let mut rlimit = 40_000_000u32;
    let mut i = 3;
    let mut show_paths = false;
    let mut samples = 0u64;
    while i < args.len() {
        match args[i].as_str() {
            "--jobs" => {
                jobs = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--time" => {
                time = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--inst" => {
                cfg.inst_limit = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 1;
            }
            "--rlimit" => {
                rlimit = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--keep-going" => {
                keep = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--param" => {
                let (k, v) = args[i + 1].split_once('=').unwrap();
                cfg.params.insert(k.to_string(), v.parse().unwrap());
                i += 1;
            }
            "--samples" => {
                samples = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--debug" => cfg.debug = true,
            "--trace" => cfg.trace_fns = true,
            "--profile" => cfg.profile = true,
            "--paths" => show_paths = true,
            a => panic!("argument {a}"),
        }
        i += 1;
    }
    std::fs::create_dir_all(&out).unwrap();
    let t0 = Instant::now();
    let src: &'static [u8] = Box::leak(std::fs::read(&args[1]).unwrap().into_boxed_slice());
    let m: &'static Module = Box::leak(Box::new(Module::parse(src)));
    let entry = &args[2];
    let ext = env::table(m);
    let panics = ["core::panicking::panic_fmt", "core::panicking::panic_nounwind_fmt", "core::panicking::panic_display", "alloc::alloc::handle_alloc_error", "std::panicking::begin_panic_handler", "std::panicking::begin_panic"];
    let is_panic: Vec<bool> = m.funcs.iter().map(|f| panics.iter().any(|p| f.pretty == *p || f.pretty.starts_with(&format!("{p}::<")))).collect();
    let fmt_size: Vec<u8> = m
        .funcs
        .iter()
        .map(|f| {
            // not u32: parts of file names
            let Some((t, r)) = f.pretty.strip_prefix('<').and_then(|s| s.split_once(" as core::fmt::")) else { return 0 };
            if !matches!(r, "Debug>::fmt" | "Display>::fmt" | "LowerHex>::fmt" | "UpperHex>::fmt") {
                return 0;
            }
            match t {
                "u8" | "i8" => 1,
                "u16" | "i16" => 2,
                "u64" | "i64" | "usize" | "isize" => 8,
                _ => 0,
            }
        })
        .collect();
    let mut mem = Mem::new(m.global_end);
    for g in &m.globals {
        if !g.tls && !g.weak {
            if let Some(c) = m.global_init(g) {
                let mut b = vec![0u8; g.ty.size() as usize];
                Module::const_bytes(&g.ty, &c, &mut b);
                mem.write(g.addr, &Buf { bytes: b, sym: vec![] });
            }
        }
    }
    let mut it = Interp { m, solver: solver::Solver::new(rlimit), stack: vec![], stats: Stats::default(), cfg, ext, is_panic, fmt_size, init_mem: mem.clone(), covers: 0, prof: HashMap::new() };
    let root = Inode { dir: Some(Default::default()), nlink: 1, ..Default::default() };
    let mut st = State {
        th: vec![],
        cur: 0,
        mem,
        fs: Fs { inodes: vec![Rc::new(root)], ofds: vec![], fds: vec![None; 3], dirs: vec![] },
        pc: Default::default(),
        facts: Default::default(),
        model: Default::default(),
        det: Default::default(),
        syms: Default::default(),
        log: None,
        choices: vec![],
        cursor: 0,
        insts: 0,
        clock: 0,
        budget: 0,
        pflags: 0,
        crash: None,
        ev: 0,
        crashes: 0,
        fault_mask: 0,
        fault_budget: 0,
        fault_idx: 0,
        stash: Default::default(),
        keep_synced: false,
        hashes: Default::default(),
        policies: Default::default(),
        out: Default::default(),
        depth: 0,
    };
    let fid = match m.syms.get(entry.as_str()) {
        Some(GSym::F(i)) => *i,
        _ => {
            eprintln!("no entry {entry}");
            std::process::exit(2);
        }
    };
    it.spawn(&mut st, fid, vec![]);
    it.stack.push(st);
    let sh: &'static Shared = unsafe {
        prctl(36, 1, 0, 0, 0);
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.active.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    let mut is_root = true;
    let mut last_fork = Instant::now();
    let mut npaths = 0u64;
    while let Some(mut st) = it.stack.pop() {
        if sh.stop.load(Relaxed) != 0 {
            sh.pending.fetch_add(1 + it.stack.len() as u64, SeqCst);
            break;
        }
        if t0.elapsed().as_secs_f64() > time {
            sh.incomplete.store(1, SeqCst);
            sh.stop.store(1, SeqCst);
            sh.pending.fetch_add(1 + it.stack.len() as u64, SeqCst);
            break;
        }
        let i0 = st.insts;
        let r = it.run(&mut st);
        it.stats.insts += st.insts - i0;
        npaths += 1;
        if show_paths {
            let evs: Vec<String> = st.events().iter().map(|e| event_json(&st, e)).collect();
            eprintln!("path {npaths} {:?} insts {} depth {} {}", r, st.insts, st.depth, evs.join(" "));
        }
        match r {
            Stop::Done => {
                it.stats.paths += 1;
                if npaths.is_power_of_two() && sh.samples.load(Relaxed) < samples {
                    let n = sh.samples.fetch_add(1, SeqCst);
                    if n < samples {
                        std::fs::write(format!("{out}/path.{n}.json"), report(&it, &st, entry, "path", "")).unwrap();
                    }
                }
            }
            Stop::Infeasible => it.stats.infeasible += 1,
            Stop::Violation(k, msg) => {
                it.stats.paths += 1;
                let n = sh.violations.fetch_add(1, SeqCst);
                std::fs::write(format!("{out}/viol.{n}.json"), report(&it, &st, entry, &k, &msg)).unwrap();
                if n >= keep {
                    sh.stop.store(1, SeqCst);
                    sh.pending.fetch_add(it.stack.len() as u64, SeqCst);
                    break;
                }
            }
            Stop::Internal(msg) => {
                let n = sh.internal.fetch_add(1, SeqCst);
                std::fs::write(format!("{out}/internal.{n}"), report(&it, &st, entry, "internal", &msg)).unwrap();
                eprintln!("internal: {msg}");
                sh.stop.store(1, SeqCst);
                break;
            }
            Stop::Block | Stop::Resched => unreachable!(),
        }
        drop(st);
        // share work
        if it.stack.len() >= 2 && last_fork.elapsed().as_micros() > 3000 && sh.active.load(Relaxed) < jobs {
            let a = sh.active.fetch_add(1, SeqCst);
            if a >= jobs {
                sh.active.fetch_sub(1, SeqCst);
            } else {
                let p = unsafe { fork() };
                last_fork = Instant::now();
                if p < 0 {
                    sh.active.fetch_sub(1, SeqCst);
                } else {
                    let child = p == 0;
                    let old = std::mem::take(&mut it.stack);
                    for (i, s) in old.into_iter().enumerate() {
                        if (i % 2 == 0) == child {
                            it.stack.push(s);
                        }
                    }
                    if child {
                        is_root = false;
                        sh.procs.fetch_add(1, SeqCst);
                        it.stats = Stats::default();
                        let s = &mut it.solver;
                        s.queries = 0;
                        s.cached = 0;
                        s.sat = 0;
                        s.unsat = 0;
                        s.unknown = 0;
                        s.nanos = 0;
                    }
                }
            }
        }
        // reap children without waiting
        unsafe {
            let mut s = 0;
            while waitpid(-1, &mut s, 1) > 0 {
                if s != 0 {
                    sh.internal.fetch_add(1, SeqCst);
                    sh.stop.store(1, SeqCst);
                }
            }
        }
    }
    flush(&mut it, sh, &out);
    sh.active.fetch_sub(1, SeqCst);
    if !is_root {
        unsafe { _exit(0) };
    }
    unsafe {
        let mut s = 0;
        loop {
            let r = waitpid(-1, &mut s, 0);
            if r < 0 {
                break;
            }
            if s != 0 {
                eprintln!("worker failed: status {s}");
                sh.internal.fetch_add(1, SeqCst);
                sh.stop.store(1, SeqCst);
            }
        }
    }
    let names = ["paths", "infeasible", "insts", "branches", "implied", "forks", "choice_forks", "asserts", "assert_queries", "crash_points", "sched_points", "fault_points", "blocked_paths"];
    let mut o = String::from("{");
    for (i, n) in names.iter().enumerate() {
        o.push_str(&format!("\"{n}\":{},", sh.stats[i].load(SeqCst)));
    }
    for (i, n) in ["queries", "cached", "sat", "unsat", "unknown", "solver_ns"].iter().enumerate() {
        o.push_str(&format!("\"{n}\":{},", sh.stats[20 + i].load(SeqCst)));
    }
    let cov: Vec<String> = (0..128u64).filter(|i| sh.covers[(*i / 64) as usize].load(SeqCst) >> (i % 64) & 1 == 1).map(|i| i.to_string()).collect();
    o.push_str(&format!(
        "\"covers\":[{}],\"violations\":{},\"internal\":{},\"incomplete\":{},\"pending\":{},\"procs\":{},\"wall_s\":{:.3}}}",
        cov.join(","),
        sh.violations.load(SeqCst),
        sh.internal.load(SeqCst),
        sh.incomplete.load(SeqCst),
        sh.pending.load(SeqCst),
        sh.procs.load(SeqCst),
        t0.elapsed().as_secs_f64()
    ));
    println!("{o}");
    std::fs::write(format!("{out}/result.json"), &o).unwrap();
}
