"""Native replay of a counterexample found by the symbolic executor."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def sysroot_bin():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    return os.path.join(r, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build(ll, outdir):
    """native program for one IR file (cached next to it)"""
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, "replay")
    rt = os.path.join(HERE, "rt.c")
    ins = os.path.join(HERE, "instr.py")
    if os.path.exists(exe) and all(os.path.getmtime(exe) > os.path.getmtime(f) for f in (ll, rt, ins)):
        return exe
    inst = os.path.join(outdir, "inst.ll")
    subprocess.run([sys.executable, ins, ll, inst], check=True)
    names = re.findall(r"^define [^@]*@(h_\w+)\(", open(ll).read(), re.M)
    tab = os.path.join(outdir, "table.c")
    with open(tab, "w") as f:
        f.write("#include <string.h>\n#include <stdio.h>\n")
        for n in names:
            f.write(f"extern void {n}(void);\n")
        f.write("void vr_entry(const char*n){\n")
        for n in names:
            f.write(f'if(!strcmp(n,"{n}")){{{n}();return;}}\n')
        f.write('fprintf(stderr,"replay: no entry\\n");_Exit(20);}\n')
    txt = open(tab).read().replace("#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n")
    open(tab, "w").write(txt)
    b = sysroot_bin()
    subprocess.run([os.path.join(b, "llc"), "-O1", "-filetype=obj", "-relocation-model=pic", inst, "-o", os.path.join(outdir, "inst.o")], check=True)
    subprocess.run(["cc", "-O1", "-g", "-w", rt, tab, os.path.join(outdir, "inst.o"), "-o", exe, "-lpthread", "-lm", "-ldl", "-lgcc_s"], check=True)
    os.remove(inst)
    return exe


def trace_text(v):
    o = [f"tls {v['tls']} 16", f"entry {v['entry']}"]
    for k, x in v["params"].items():
        o.append(f"param {k} {x}")
    for h in v["hashes"]:
        o.append("hash %d %d %d %s" % (h["h1"], h["h2"], len(h["data"]), " ".join(map(str, h["data"]))))
    for e in v["events"]:
        k = e["k"]
        if k == "choice":
            o.append(f"choice {e['n']} {e['v']}")
        elif k == "sym":
            o.append(f"sym {e['w']} {len(e['vals'])} " + " ".join(map(str, e["vals"])))
        elif k == "switch":
            o.append(f"switch {e['from']} {e['point']} {e['to']} {1 if e['forced'] else 0}")
        elif k == "crash":
            o.append(f"crash {e['ev']} {e['sub']}")
        elif k == "fault":
            o.append(f"fault {e['idx']} {e['errno']}")
    return "\n".join(o) + "\n"


def replay(exe, v, keep=None):
    """returns (code, text)"""
    d = tempfile.mkdtemp(prefix="vr.")
    try:
        t = os.path.join(d, "trace")
        open(t, "w").write(trace_text(v))
        os.mkdir(os.path.join(d, "root"))
        env = {"PATH": os.environ["PATH"], "VR_TRACE": t, "VR_ROOT": os.path.join(d, "root")}
        r = subprocess.run([exe], env=env, cwd=d, capture_output=True, text=True, errors="replace", timeout=120)
        return r.returncode, r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return 20, "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ll, vf = sys.argv[1], sys.argv[2]
    exe = build(ll, os.path.join(os.path.dirname(ll), "native"))
    print(*replay(exe, json.load(open(vf))))
