#!/usr/bin/env python3
"""Instrument the harness IR for native replay: calls to the replay runtime before every memory
operation that the symbolic executor treats as a scheduling or crash point, and the executor's libc
boundary renamed to the runtime's."""
import re, sys

LIBC = """memcpy memmove memset malloc calloc realloc free posix_memalign __xpg_strerror_r abort open open64
close dup fcntl mkdir unlink rename ftruncate ftruncate64 posix_fallocate fsync fdatasync pwrite64 write writev
pread64 read lseek lseek64 fstat64 stat64 lstat64 fstatat64 opendir readdir64 closedir dirfd flock mmap mmap64
munmap mlock mprotect msync madvise realpath pthread_create pthread_join pthread_self pthread_key_create
pthread_key_delete pthread_setspecific pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize
pthread_setname_np pthread_detach pthread_attr_getguardsize pthread_attr_getstack pthread_getattr_np sched_yield
clock_gettime clock_nanosleep nanosleep syscall sysconf getpid getenv dlsym getauxval getcwd readlink signal
sigaction sigaltstack poll""".split()
MAP = {"memmove": "memcpy", "open64": "open", "ftruncate64": "ftruncate", "fdatasync": "fsync", "lseek": "lseek64",
       "lstat64": "stat64", "mmap": "mmap64", "clock_nanosleep": "nanosleep", "getcwd": "enoent", "readlink": "enosys"}
for z in """mlock mprotect msync madvise pthread_key_delete pthread_setspecific pthread_attr_init pthread_attr_destroy
pthread_attr_setstacksize pthread_setname_np pthread_detach pthread_attr_getguardsize pthread_attr_getstack
pthread_getattr_np getenv dlsym getauxval signal sigaction sigaltstack poll""".split():
    MAP[z] = "zero"


def split_args(s):
    out, d, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                d += 1
            elif c in ")]}>":
                d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    out.append(cur.strip())
    return out


def operand(a):
    """value part of 'type attrs value'"""
    if a.endswith(")"):  # constant expression
        i = a.index("(")
        j = a.rfind(" ", 0, i)
        k = a.rfind(" ", 0, j) if not re.match(r"^[a-z]+$", a[j + 1:i].strip() or "x") else j
        m = re.search(r"(getelementptr|inttoptr|ptrtoint|bitcast|addrspacecast)\b.*$", a)
        return m.group(0)
    return a.split()[-1]


def main(src, dst):
    text = open(src).read()
    weak = set(re.findall(r"^declare extern_weak [^@]*@([\w.$]+)\(", text, re.M)) | set(re.findall(r"^@([\w.$]+) = extern_weak ", text, re.M))
    names = {}
    for n in LIBC:
        names[n] = "vr_" + MAP.get(n, n)
    for n in weak:
        names[n] = "vr_weak_" + n
    out = []
    need = set()
    declared = set()
    pat = re.compile(r"@(" + "|".join(sorted((re.escape(n) for n in names), key=len, reverse=True)) + r")(?![\w.$])")
    allocas = set()
    infn = False
    for line in text.split("\n"):
        if line.startswith("declare "):
            m = re.search(r"@([\w.$]+)\(", line)
            if m and m.group(1) in names:
                new = names[m.group(1)]
                if new in declared:
                    continue
                declared.add(new)
                # attributes that let the optimizer assume things about libc are dropped
                ret = line[: m.start()]
                va = "..." in line
                weakkw = "extern_weak " if new.startswith("vr_weak_") else ""
                ret = re.sub(r"\b(noalias|noundef|nonnull|extern_weak|range\([^)]*\)|allockind\([^)]*\)|dereferenceable\w*\(\d+\)|align \d+|signext|zeroext|unnamed_addr|local_unnamed_addr|dso_local|nosync|noinline)\b", "", ret[8:]).split()
                args = line[m.end():]
                d, i = 1, 0
                while d:
                    d += {"(": 1, ")": -1}.get(args[i], 0)
                    i += 1
                al = [a.split()[0] for a in split_args(args[: i - 1]) if a.strip()]
                out.append(f"declare {weakkw}{' '.join(ret)} @{new}({', '.join(al)})")
                continue
            out.append(line)
            continue
        if line.startswith("define "):
            infn = True
            allocas = set()
            line = re.sub(r"@main\(", "@vr_rust_main(", line)
        elif line.startswith("}"):
            infn = False
        if infn and line.startswith("  "):
            s = line.lstrip()
            if " = alloca " in s:
                allocas.add(s.split(" = ")[0])
            elif s.startswith("store "):
                body = s.split(", !")[0]
                atomic = 1 if s.startswith("store atomic") else 0
                a = split_args(body)
                p = re.sub(r'( syncscope\("[^"]*"\))?( (unordered|monotonic|release|seq_cst))?$', "", a[1]).strip()
                v = p[4:]
                if v not in allocas and not (v.startswith("@") and not atomic):
                    out.append(f"  call void @vr_store(ptr {v}, i32 {atomic})")
                    need.add("vr_store")
            elif " = load " in s:
                body = s.split(", !")[0]
                atomic = 1 if " = load atomic" in s else 0
                a = split_args(body)
                p = re.sub(r'( syncscope\("[^"]*"\))?( (unordered|monotonic|acquire|seq_cst))?$', "", a[1]).strip()
                v = p[4:]
                if v not in allocas and not (v.startswith("@") and not atomic):
                    out.append(f"  call void @vr_ld(ptr {v}, i32 {atomic})")
                    need.add("vr_ld")
            elif " = atomicrmw " in s:
                a = split_args(s.split(", !")[0])
                v = re.search(r"ptr (.*)$", a[0]).group(1)
                out.append(f"  call void @vr_rmw(ptr {v})")
            elif " = cmpxchg " in s:
                a = split_args(s.split(", !")[0])
                v = re.search(r"ptr (.*)$", a[0]).group(1)
                t, e = a[1].split(" ", 1)
                t2 = t
                if t == "ptr":
                    out.append(f"  call void @vr_casp(ptr {v}, ptr {e})")
                else:
                    out.append(f"  call void @vr_cas{t}(ptr {v}, {t} {e})")
            elif "@llvm.memcpy." in s or "@llvm.memmove." in s or "@llvm.memset." in s:
                i = s.index("(", s.index("@llvm.mem"))
                j = s.rindex(")")
                d, k = 0, i
                while True:
                    d += {"(": 1, ")": -1}.get(s[k], 0)
                    if d == 0:
                        break
                    k += 1
                a = split_args(s[i + 1:k])
                dst_ = operand(a[0])
                if dst_ not in allocas:
                    if "memset" in s[:i]:
                        out.append(f"  call void @vr_bulkset(ptr {dst_}, i8 {operand(a[1])}, i64 {operand(a[2])})")
                    else:
                        out.append(f"  call void @vr_bulkcpy(ptr {dst_}, ptr {operand(a[1])}, i64 {operand(a[2])})")
        if "@" in line:
            line = pat.sub(lambda m: "@" + names[m.group(1)], line)
        out.append(line)
    out.append("""
declare void @vr_store(ptr, i32)
declare void @vr_ld(ptr, i32)
declare void @vr_rmw(ptr)
declare void @vr_cas(ptr, i64, i32)
declare void @vr_bulkcpy(ptr, ptr, i64)
declare void @vr_bulkset(ptr, i8, i64)
define internal void @vr_casp(ptr %p, ptr %e) {
  %x = ptrtoint ptr %e to i64
  call void @vr_cas(ptr %p, i64 %x, i32 8)
  ret void
}
define internal void @vr_casi64(ptr %p, i64 %e) {
  call void @vr_cas(ptr %p, i64 %e, i32 8)
  ret void
}""")
    for w in (8, 16, 32):
        out.append(f"""define internal void @vr_casi{w}(ptr %p, i{w} %e) {{
  %x = zext i{w} %e to i64
  call void @vr_cas(ptr %p, i64 %x, i32 {w // 8})
  ret void
}}""")
    open(dst, "w").write("\n".join(out))


main(sys.argv[1], sys.argv[2])
