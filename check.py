#!/usr/bin/env python3
"""Decide one property: rebuild the IR from /repo's working tree, explore it symbolically within the
stated bounds, replay any counterexample natively, write the evidence.

  check.py setup
  check.py <property> [--tier quick|thorough] [--only ENTRY] [--time S]
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "replay"))
sys.path.insert(0, HERE)
import replay as native
from specs import SPECS

TARGET = "x86_64-unknown-linux-gnu"
VARIANTS = {
    "small": dict(cfg=["candystore_verif_small"], feats=[]),
    "wide": dict(cfg=["candystore_verif_small", "candystore_verif_wide"], feats=[]),
    "real": dict(cfg=[], feats=[]),
    "smallagg": dict(cfg=["candystore_verif_small"], feats=["agg"]),
}


def env():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


class Broken(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Broken("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


def engine_start():
    """start building the symbolic executor"""
    return subprocess.Popen(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "engine"), env=env(),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def engine_wait(p):
    out, _ = p.communicate()
    if p.returncode:
        raise Broken("engine build failed:\n" + out[-4000:])
    return os.path.join(HERE, "engine/target/release/vsym")


def source_key(variant):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/build.rs"]
    for d in ("harness", "shim"):
        files += sorted(glob.glob(os.path.join(HERE, d, "**/*.rs"), recursive=True)) + sorted(glob.glob(os.path.join(HERE, d, "**/Cargo.*"), recursive=True))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(json.dumps(VARIANTS[variant], sort_keys=True).encode())
    return h.hexdigest()[:20]


def build_ir(variant):
    """LLVM IR of harness + candystore + its dependencies + std, from the current tree"""
    key = source_key(variant)
    cache = os.path.join(HERE, "cache")
    os.makedirs(cache, exist_ok=True)
    ll = os.path.join(cache, f"{variant}-{key}.ll")
    if os.path.exists(ll):
        return ll
    tgt = os.path.join(HERE, "target", variant)
    flags = ["--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=/bin/true", "-A", "warnings"]
    for c in VARIANTS[variant]["cfg"]:
        flags += ["--cfg", c]
    e = env()
    e["RUSTFLAGS"] = " ".join(flags)
    e["CARGO_TARGET_DIR"] = tgt
    hd = os.path.join(HERE, "harness")
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--target", TARGET]
    if VARIANTS[variant]["feats"]:
        cmd += ["--features", ",".join(VARIANTS[variant]["feats"])]
    subprocess.run(["cargo", "clean", "--release", "--offline", "--target", TARGET, "-p", "candystore", "-p", "harness"],
                   cwd=hd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(os.path.join(tgt, "**", "harness*.ll"), recursive=True):
        os.remove(f)
    run(cmd, cwd=hd, env=e)
    got = [f for f in glob.glob(os.path.join(tgt, "**", "harness*.ll"), recursive=True)]
    if len(got) != 1:
        raise Broken(f"expected one harness IR file, found {got}")
    for old in glob.glob(os.path.join(cache, variant + "-*")):
        if os.path.isdir(old):
            shutil.rmtree(old, ignore_errors=True)
        else:
            os.remove(old)
    shutil.copyfile(got[0], ll + ".tmp")
    os.rename(ll + ".tmp", ll)
    return ll


def explore(vsym, ll, r, tier, seconds, outdir):
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    params = dict(r.get("params", {}))
    params.update(r.get(tier) or r.get("quick") or {})
    cmd = [vsym, ll, r["entry"], "--out", outdir, "--jobs", str(os.cpu_count() or 4), "--time", str(int(seconds)), "--samples", "6", "--keep-going", "3"]
    if "inst" in r:
        cmd += ["--inst", str(r["inst"])]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    f = os.path.join(outdir, "result.json")
    if not os.path.exists(f):
        raise Broken(f"{r['entry']}: executor failed: {p.stderr[-3000:]}")
    res = json.load(open(f))
    res["params"] = params
    res["stderr"] = p.stderr[-2000:]
    res["cmd"] = " ".join(cmd)
    return res


def describe(v):
    """one readable line per event"""
    o = []
    for e in v["events"]:
        if e["k"] == "choice":
            o.append(f"{e['tag']}={e['v']}")
        elif e["k"] == "sym":
            o.append(f"{e['tag']}={e['vals']}")
        elif e["k"] == "crash":
            o.append(f"crash before persistent effect {e['ev']}" + (" (half done)" if e["sub"] == 1 else ""))
        elif e["k"] == "fault":
            o.append(f"fault in {e['call']}")
        elif e["k"] == "switch":
            o.append(f"switch {e['from']}->{e['to']} at {e['point']}" + (" (blocked)" if e["forced"] else ""))
        elif e["k"] == "note":
            o.append(e["text"])
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--time", type=float)
    a = ap.parse_args()
    os.chdir(HERE)
    lock = open(os.path.join(HERE, ".build.lock"), "w")
    if a.property == "setup":
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = engine_start()
        vs = sorted({r["variant"] for s in SPECS.values() for r in s["runs"]})
        for v in vs:
            build_ir(v)
        engine_wait(p)
        print("setup done:", ", ".join(vs))
        return 0
    prop, tier = a.property, a.tier
    spec = SPECS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fcntl.flock(lock, fcntl.LOCK_EX)
    p = engine_start()
    try:
        lls = {}
        runs = [r for r in spec["runs"] if (a.only is None or r["entry"] == a.only) and not (tier == "quick" and r.get("quick", 1) is None)]
        for r in runs:
            if r["variant"] not in lls:
                lls[r["variant"]] = build_ir(r["variant"])
    finally:
        vsym = engine_wait(p)
    build_s = time.time() - t0
    total = a.time or (600 if tier == "quick" else 6 * 3600)
    deadline = time.time() + total
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [k for k in known.get("findings", []) if k["property"] == prop]
    work = os.path.join(HERE, "work", prop)
    os.makedirs(work, exist_ok=True)
    fns, per, samples = set(), [], []
    tot = dict(paths=0, insts=0, queries=0, sat=0, unsat=0, unknown=0, solver_ns=0, asserts=0, assert_queries=0, crash_points=0, sched_points=0, fault_points=0, branches=0, forks=0, choice_forks=0)
    confirmed, known_hit, problems = [], set(), []
    validated = diverged = 0
    exes = {}
    for i, r in enumerate(runs):
        left = deadline - time.time()
        share = max(20, left / (len(runs) - i) * (1 if i == len(runs) - 1 else 1.6))
        out = os.path.join(work, r["entry"])
        res = explore(vsym, lls[r["variant"]], r, tier, min(left, share), out)
        for f in glob.glob(out + "/fn.*"):
            fns.update(l for l in open(f).read().split("\n") if l)
        for k in tot:
            tot[k] += res.get(k, 0)
        want = set(r.get("covers", []))
        missing = sorted(want - set(res["covers"]))
        viols = []
        for f in sorted(glob.glob(out + "/viol.*.json")):
            v = json.load(open(f))
            v["file"] = f
            viols.append(v)
        complete = not (res["incomplete"] or res["pending"] or res["internal"] or res["unknown"])
        if res["internal"]:
            msgs = []
            for f in glob.glob(out + "/internal.*"):
                msgs.append(json.load(open(f)).get("msg", "?"))
            problems.append(f"{r['entry']}: executor error: {'; '.join(msgs) or res['stderr'][-300:]}")
        # replay
        need = viols or glob.glob(out + "/path.*.json")
        if need and r["variant"] not in exes:
            exes[r["variant"]] = native.build(lls[r["variant"]], os.path.join(HERE, "cache", r["variant"] + "-native"))
        for v in viols:
            code, text = native.replay(exes[r["variant"]], v)
            ok = {"assert": code == 10, "panic": code in (11, 13), "deadlock": code == 12, "segv": code in (13, 11)}.get(v["kind"], code in (10, 11, 12, 13))
            v["replay"] = dict(code=code, output=text, confirmed=ok)
            if not ok:
                problems.append(f"{r['entry']}: counterexample does not reproduce natively (code {code}): {v['kind']}: {v['msg'][:300]} / {text[-300:]}")
                continue
            kf = next((k for k in known if k["entry"] == r["entry"] and re.search(k["match"], v["kind"] + ": " + v["msg"])), None)
            if kf:
                known_hit.add(kf["id"])
                continue
            confirmed.append((r, v))
        for f in sorted(glob.glob(out + "/path.*.json")):
            v = json.load(open(f))
            code, text = native.replay(exes[r["variant"]], v)
            if code == 0:
                validated += 1
            else:
                diverged += 1
                if diverged <= 3:
                    print(f"note: {r['entry']}: native run of a passing path differs (code {code}): {text[-300:]}", file=sys.stderr)
            if len(samples) < 12:
                samples.append(dict(harness=r["entry"], path=describe(v)[:40], native_exit=code))
        if missing and complete and not viols:
            problems.append(f"{r['entry']}: vacuous: witnesses {missing} not reached")
        b = r["bounds"].format(**res["params"]) if res["params"] else r["bounds"]
        per.append(dict(harness=r["entry"], geometry=r["variant"], bounds=b, complete=complete, paths=res["paths"], instructions=res["insts"],
                        assertions=res["asserts"], solver_queries=res["queries"], unsat=res["unsat"], sat=res["sat"], unknown=res["unknown"],
                        answered_from_cached_models=res["cached"], solver_s=round(res["solver_ns"] / 1e9, 3), crash_points=res["crash_points"], preemption_points=res["sched_points"],
                        fault_points=res["fault_points"], witnesses=res["covers"], wall_s=res["wall_s"], pending_paths=res["pending"], violations=len(viols)))
        print(f"{r['entry']}[{r['variant']}] {res['params']}: paths {res['paths']} queries {res['queries']} asserts {res['asserts']} {'complete' if complete else 'INCOMPLETE'} {res['wall_s']}s", flush=True)
        if confirmed:
            break
    repo_fns = sorted(f for f in fns if "candystore::" in f)
    cov = dict(
        states=tot["paths"], transitions=tot["insts"], traces_validated_against_impl=validated, samples=samples or [dict(note="no complete path")],
        exhaustive=all(x["complete"] for x in per),
        explanation="bounded symbolic execution of the compiled IR of the real code; states = symbolic paths explored to the end, transitions = IR instructions executed",
        harnesses=per, functions_encoded=repo_fns, functions_encoded_total=len(fns), queries=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"],
        solver_s=round(tot["solver_ns"] / 1e9, 3), assertions_checked=tot["asserts"], branch_decisions=tot["branches"], crash_points=tot["crash_points"],
        preemption_points=tot["sched_points"], fault_points=tot["fault_points"], native_replays_diverged=diverged, build_s=round(build_s, 1),
        problems=problems)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if confirmed:
        r, v = confirmed[0]
        f = os.path.join(work, "violation.json")
        json.dump(dict(property=prop, harness=r["entry"], variant=r["variant"], kind=v["kind"], msg=v["msg"], steps=describe(v), native=v["replay"], trace=v), open(f, "w"), indent=1)
        print(f"  {v['kind']}: {v['msg'][:600]}")
        for l in describe(v)[:60]:
            print("   ", l)
        print(f"VIOLATION property={prop} replay={f}")
        return 1
    if problems:
        for x in problems:
            print("ERROR:", x)
        return 2
    return 0


COMMON = [
    "the hash function is an arbitrary function of the key bytes, except for the hash bits a harness fixes (stated in its bounds)",
    "sequentially consistent memory; a process crash keeps every completed store to a mapped page and every completed write",
    "the libc/kernel model of the executor (files, mmap, flock, futex, threads), checked against the real one by replaying sampled paths natively",
    "rustc's lowering to LLVM IR at opt-level 1 with overflow checks on; z3",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR:", e)
        sys.exit(2)
