// Native replay runtime. The harness and the code under test are compiled to machine code from the
// same LLVM IR the symbolic executor read; this runtime feeds them the values, hashes, schedule, crash
// point and fault of one counterexample and reports whether the violation happens for real.
//   exit 0: the run ended normally      10: harness check failed   11: panic/abort
//   12: deadlock   13: bad memory access   20: the run diverged from the recorded one
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum { CHOICE, SYM, SWITCH, CRASH, FAULT };
typedef struct { int k; u64 a, b, c, d; u64 *v; } Ev;
static Ev *evs;
static size_t nev, pos;
typedef struct { u8 *d; size_t n; u64 h1, h2; } Hash;
static Hash *hashes;
static size_t nhash;
typedef struct { char name[64]; u64 v; } Param;
static Param params[64];
static int nparams;
static u64 tls_size, tls_align;
static char entry[128], root[512];
static char **g_argv;

static void die(int code, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "replay: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    _exit(code);
}

// ---------------------------------------------------------------- recorded events
static void load(void) {
    FILE *f = fopen(getenv("VR_TRACE"), "r");
    if (!f) die(20, "no trace");
    char w[32];
    while (fscanf(f, "%31s", w) == 1) {
        Ev e = {0};
        if (!strcmp(w, "tls")) {
            if (fscanf(f, "%lu %lu", &tls_size, &tls_align) != 2) die(20, "tls");
            continue;
        } else if (!strcmp(w, "entry")) {
            if (fscanf(f, "%127s", entry) != 1) die(20, "entry");
            continue;
        } else if (!strcmp(w, "param")) {
            if (fscanf(f, "%63s %lu", params[nparams].name, &params[nparams].v) != 2) die(20, "param");
            nparams++;
            continue;
        } else if (!strcmp(w, "hash")) {
            hashes = realloc(hashes, (nhash + 1) * sizeof(Hash));
            Hash *h = &hashes[nhash++];
            if (fscanf(f, "%lu %lu %zu", &h->h1, &h->h2, &h->n) != 3) die(20, "hash");
            h->d = malloc(h->n + 1);
            for (size_t i = 0; i < h->n; i++) {
                unsigned x;
                if (fscanf(f, "%u", &x) != 1) die(20, "hash");
                h->d[i] = x;
            }
            continue;
        } else if (!strcmp(w, "choice")) {
            e.k = CHOICE;
            if (fscanf(f, "%lu %lu", &e.a, &e.b) != 2) die(20, "choice");
        } else if (!strcmp(w, "sym")) {
            e.k = SYM;
            if (fscanf(f, "%lu %lu", &e.a, &e.b) != 2) die(20, "sym");
            e.v = malloc(8 * (e.b + 1));
            for (u64 i = 0; i < e.b; i++)
                if (fscanf(f, "%lu", &e.v[i]) != 1) die(20, "sym");
        } else if (!strcmp(w, "switch")) {
            e.k = SWITCH;
            if (fscanf(f, "%lu %lu %lu %lu", &e.a, &e.b, &e.c, &e.d) != 4) die(20, "switch");
        } else if (!strcmp(w, "crash")) {
            e.k = CRASH;
            if (fscanf(f, "%lu %lu", &e.a, &e.b) != 2) die(20, "crash");
        } else if (!strcmp(w, "fault")) {
            e.k = FAULT;
            if (fscanf(f, "%lu %lu", &e.a, &e.b) != 2) die(20, "fault");
        } else
            die(20, "trace word %s", w);
        evs = realloc(evs, (nev + 1) * sizeof(Ev));
        evs[nev++] = e;
    }
    fclose(f);
}
static Ev *next(int k) { return pos < nev && evs[pos].k == k ? &evs[pos] : 0; }
static Ev *take(int k, const char *what) {
    Ev *e = next(k);
    if (!e) die(20, "expected a recorded %s at event %zu of %zu", what, pos, nev);
    pos++;
    return e;
}

// ---------------------------------------------------------------- heap (same layout as the executor's)
#define HEAP_BASE 0x10000000ul
#define HEAP_LIMIT 0x40000000ul
static u64 heap_top = HEAP_BASE;
static u64 bump(u64 size, u64 align) {
    u64 al = align < 16 ? 16 : align;
    u64 a = heap_top + 16;
    a = (a + al - 1) / al * al;
    u64 top = (a + size + 15) / 16 * 16;
    if (top >= HEAP_LIMIT) return 0;
    heap_top = top;
    *(u64 *)(a - 8) = size;
    return a;
}
void *vr_malloc(u64 n) { return n > (64u << 20) ? 0 : (void *)bump(n, 16); }
void *vr_calloc(u64 a, u64 b) { return vr_malloc(a * b); }
void vr_free(void *p) {}
void *vr_realloc(void *p, u64 n) {
    void *q = vr_malloc(n);
    if (q && p) {
        u64 k = *(u64 *)((char *)p - 8);
        memcpy(q, p, k < n ? k : n);
    }
    return q;
}
int vr_posix_memalign(void **p, u64 al, u64 n) {
    void *q = n > (64u << 20) ? 0 : (void *)bump(n, al);
    if (q) *p = q;
    return 0;
}

// ---------------------------------------------------------------- threads: one runs at a time
enum { RUNNABLE, FUTEX, JOIN, FLOCK, IDLE, DONE };
typedef struct {
    int status, timed, has_woken, woken;
    u64 addr;
    u32 points, yields;
    void *(*f)(void *);
    void *arg;
    pthread_t t;
} Th;
static Th th[64];
static int nth, cur;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me;
static u64 pclock, budget, pflags;

static void run_as(int t) {
    pthread_mutex_lock(&mu);
    cur = t;
    pthread_cond_broadcast(&cv);
    while (cur != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
}
static void hand_over(Ev *e) {
    int to = e->c;
    pos++;
    for (int i = 0; i < nth; i++) th[i].yields = 0;
    if (to >= nth || th[to].status == DONE) die(20, "switch to thread %d", to);
    if (th[to].status != RUNNABLE) {
        // chosen because nobody could run: timeout or idle
        if (th[to].status == FUTEX && th[to].timed) {
            pclock += 10000000000ul;
            th[to].woken = -110;
        } else if (th[to].status == IDLE)
            th[to].woken = 0;
        else
            die(20, "switch to blocked thread %d", to);
        th[to].has_woken = 1;
        th[to].status = RUNNABLE;
    }
    if (to != me) run_as(to);
}
static void blocked(void) {
    Ev *e = next(SWITCH);
    if (!e) {
        for (int i = 0; i < nth; i++)
            if (th[i].status == RUNNABLE || th[i].status == IDLE || (th[i].status == FUTEX && th[i].timed)) die(20, "no recorded switch while blocked (event %zu of %zu)", pos, nev);
        die(12, "REPRODUCED deadlock: all %d threads are blocked", nth);
    }
    if ((int)e->a != me || !e->d) die(20, "recorded switch does not match a blocking thread %d", me);
    hand_over(e);
}
static void point(void) {
    if (nth == 1) return;
    Ev *e = next(SWITCH);
    if (e && (int)e->a == me && !e->d && e->b == th[me].points) {
        th[me].points++;
        pos++;
        int to = e->c;
        for (int i = 0; i < nth; i++) th[i].yields = 0;
        if (to >= nth || th[to].status != RUNNABLE) die(20, "preemption to thread %d", to);
        run_as(to);
        return;
    }
    th[me].points++;
}
static int runnable_other(void) {
    int first = -1;
    for (int i = 0; i < nth; i++)
        if (i != me && th[i].status == RUNNABLE) {
            if (i > me) return i;
            if (first < 0) first = i;
        }
    return first;
}
static void done(void) {
    th[me].status = DONE;
    for (int i = 0; i < nth; i++)
        if (th[i].status == JOIN && (int)th[i].addr == me) th[i].status = RUNNABLE;
    if (me == 0) _exit(0);
    Ev *e = next(SWITCH);
    if (!e) {
        for (int i = 0; i < nth; i++)
            if (th[i].status == RUNNABLE) die(20, "no recorded switch at thread end");
        die(12, "REPRODUCED deadlock: no thread can run");
    }
    if ((int)e->a != me || !e->d) die(20, "recorded switch does not match a finished thread");
    int to = e->c;
    pos++;
    if (th[to].status != RUNNABLE) {
        if (th[to].status == FUTEX && th[to].timed) {
            pclock += 10000000000ul;
            th[to].woken = -110;
        } else if (th[to].status == IDLE)
            th[to].woken = 0;
        else
            die(20, "switch to blocked thread %d", to);
        th[to].has_woken = 1;
        th[to].status = RUNNABLE;
    }
    pthread_mutex_lock(&mu);
    cur = to;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
    for (;;) pause();
}
static int new_thread(void) {
    int id = nth++;
    if (id >= 64) die(20, "too many threads");
    bump(tls_size < 16 ? 16 : tls_size, 64);
    bump(8, 8);
    th[id].status = RUNNABLE;
    return id;
}
static void *tmain(void *p) {
    Th *t = p;
    me = t - th;
    pthread_mutex_lock(&mu);
    while (cur != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    t->f(t->arg);
    done();
    return 0;
}
int vr_pthread_create(u64 *out, void *attr, void *(*f)(void *), void *arg) {
    int id = new_thread();
    th[id].f = f;
    th[id].arg = arg;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 8 << 20);
    if (pthread_create(&th[id].t, &a, tmain, &th[id])) die(20, "pthread_create");
    *out = id + 1;
    return 0;
}
int vr_pthread_join(u64 t, void *r) {
    int k = t - 1;
    if (th[k].status == DONE) return 0;
    th[me].status = JOIN;
    th[me].addr = k;
    blocked();
    return 0;
}
u64 vr_pthread_self(void) { return me + 1; }
int vr_pthread_key_create(u32 *k, void *d) {
    pclock++;
    *k = 1;
    return 0;
}
int vr_zero() { return 0; }
int vr_sched_yield(void) {
    int n = runnable_other();
    if (n < 0) {
        if (++th[me].yields > 400) {
            for (int i = 0; i < nth; i++)
                if (th[i].status == IDLE || (th[i].status == FUTEX && th[i].timed)) return 0;
            die(12, "REPRODUCED livelock: thread %d spins and nobody else can run", me);
        }
        return 0;
    }
    Ev *e = next(SWITCH);
    u32 y = th[me].yields + 1;
    if (!e || (int)e->a != me || !e->d || (int)e->c != n) die(20, "yield does not match");
    pos++;
    th[me].yields = y;
    run_as(n);
    return 0;
}
int vr_nanosleep() {
    pclock += 1000000;
    return vr_sched_yield();
}
int vr_clock_gettime(int c, u64 *t) {
    pclock += 1000;
    t[0] = 1000000 + pclock / 1000000000;
    t[1] = pclock % 1000000000;
    return 0;
}
static long futex(u32 *a, int op, u64 val, u64 timeout) {
    switch (op & 0x7f) {
    case 0:
    case 9:
        point();
        if (*a != (u32)val) {
            errno = EAGAIN;
            return -1;
        }
        th[me].status = FUTEX;
        th[me].addr = (u64)a;
        th[me].timed = timeout != 0;
        th[me].has_woken = 0;
        blocked();
        th[me].has_woken = 0;
        if (th[me].woken) {
            errno = -th[me].woken;
            return -1;
        }
        return 0;
    case 1:
    case 10: {
        point();
        u64 k = 0, n = (u32)val;
        for (int i = 0; i < nth && k < n; i++)
            if (th[i].status == FUTEX && th[i].addr == (u64)a) {
                th[i].status = RUNNABLE;
                th[i].woken = 0;
                th[i].has_woken = 1;
                k++;
            }
        return k;
    }
    }
    die(20, "futex op %d", op);
    return 0;
}
long vr_syscall(long n, u64 a, u64 b, u64 c, u64 d) {
    switch (n) {
    case 202:
        return futex((u32 *)a, b, c, d);
    case 186:
        return me + 100;
    case 318:
        for (u64 i = 0; i < b; i++) ((u8 *)a)[i] = i * 37 + 11;
        return b;
    case 332:
        errno = ENOSYS;
        return -1;
    }
    die(20, "syscall %ld", n);
    return 0;
}
long vr_sysconf(int n) { return n == 30 ? 4096 : n == 83 || n == 84 ? 1 : n == 75 ? 16384 : -1; }
int vr_getpid(void) { return 4242; }

// ---------------------------------------------------------------- crash
static int in_crash;
static u64 evcount;
static void (*recover)(void);
typedef struct { u64 slot; u8 *d; size_t n; } Stash;
static Stash stash[256];
static int nstash;

static int cflags, power;
static void shadow(u64 ino, char *p) { snprintf(p, 700, "%s.synced.%lu", root, ino); }
static void copy_into(int s, const char *p, int flags) {
    int d = open(p, O_WRONLY | flags, 0600);
    if (d < 0) die(20, "shadow");
    if (ftruncate(d, 0)) die(20, "shadow");
    char b[4096];
    long n, off = 0;
    while (s >= 0 && (n = pread(s, b, sizeof b, off)) > 0) {
        if (pwrite(d, b, n, off) != n) die(20, "shadow");
        off += n;
    }
    close(d);
}
static void lose(const char *p) {
    DIR *d = opendir(p);
    if (!d) return;
    struct dirent64 *e;
    while ((e = readdir64(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char q[2048], w[700];
        snprintf(q, sizeof q, "%s/%s", p, e->d_name);
        struct stat s;
        if (lstat(q, &s)) continue;
        if (S_ISDIR(s.st_mode)) {
            lose(q);
            continue;
        }
        shadow(s.st_ino, w);
        int f = open(w, O_RDONLY);
        copy_into(f, q, 0);
        if (f >= 0) close(f);
    }
    closedir(d);
}
static void crash(void) {
    char p[700];
    if (cflags & 1) lose(root);
    snprintf(p, sizeof p, "%s.state", root);
    FILE *f = fopen(p, "w");
    fprintf(f, "%zu %d\n", pos, nstash);
    for (int i = 0; i < nstash; i++) {
        fprintf(f, "%lu %zu", stash[i].slot, stash[i].n);
        for (size_t j = 0; j < stash[i].n; j++) fprintf(f, " %u", stash[i].d[j]);
        fprintf(f, "\n");
    }
    fclose(f);
    char off[32];
    extern void vr_anchor(void) __attribute__((weak));
    snprintf(off, sizeof off, "%ld", (long)((char *)recover - (char *)&crash));
    setenv("VR_RECOVER", off, 1);
    execv("/proc/self/exe", g_argv);
    die(20, "exec");
}
static void crash_point(int sub) {
    if (!in_crash) return;
    Ev *e = next(CRASH);
    if (e && e->a == evcount && (int)e->b == sub) {
        pos++;
        crash();
    }
}
static int fault(u64 bit, int no);

// ---------------------------------------------------------------- mapped files
typedef struct { u64 a, n; u64 ino; int live; } Map;
static Map maps[4096];
static int nmaps;
static Map *map_of(u64 a) {
    for (int i = nmaps - 1; i >= 0; i--)
        if (maps[i].live && a >= maps[i].a && a < maps[i].a + maps[i].n) return &maps[i];
    return 0;
}
typedef struct { u64 ino; int dirty; } Dirty;
static Dirty dirt[4096];
static int ndirt;
static void set_dirty(u64 ino, int d) {
    for (int i = 0; i < ndirt; i++)
        if (dirt[i].ino == ino) {
            dirt[i].dirty = d;
            return;
        }
    dirt[ndirt].ino = ino;
    dirt[ndirt++].dirty = d;
}
void vr_store(void *p, int atomic) {
    Map *m = map_of((u64)p);
    if (m) {
        point();
        crash_point(0);
        evcount++;
        set_dirty(m->ino, 1);
    } else if (atomic && pflags & 4)
        point();
}
void vr_ld(void *p, int atomic) {
    if ((map_of((u64)p) && pflags & 1) || (atomic && pflags & 4)) point();
}
void vr_rmw(void *p) {
    point();
    Map *m = map_of((u64)p);
    if (m) {
        crash_point(0);
        evcount++;
        set_dirty(m->ino, 1);
    }
}
void vr_cas(void *p, u64 expected, int size) {
    point();
    Map *m = map_of((u64)p);
    if (m) {
        u64 v = 0;
        memcpy(&v, p, size);
        if (size < 8) expected &= (1ul << (8 * size)) - 1;
        if (v == expected) {
            crash_point(0);
            evcount++;
            set_dirty(m->ino, 1);
        }
    }
}
static void bulk(void *d, const void *s, int c, u64 n) {
    if (!n) return;
    Map *m = map_of((u64)d);
    if (!m) return;
    point();
    crash_point(0);
    if (n > 8 && in_crash) {
        Ev *e = next(CRASH);
        if (e && e->a == evcount && e->b == 1) {
            u64 h = (n / 2 + 7) / 8 * 8;
            if (h > n) h = n;
            if (s)
                memmove(d, s, h);
            else
                memset(d, c, h);
        }
        crash_point(1);
    }
    evcount++;
    set_dirty(m->ino, 1);
}
void vr_bulkcpy(void *d, void *s, u64 n) { bulk(d, s, 0, n); }
void vr_bulkset(void *d, u8 c, u64 n) { bulk(d, 0, c, n); }
void *vr_memcpy(void *d, void *s, u64 n) {
    bulk(d, s, 0, n);
    return memmove(d, s, n);
}
void *vr_memset(void *d, int c, u64 n) {
    bulk(d, 0, c, n);
    return memset(d, c, n);
}

// ---------------------------------------------------------------- faults
static u64 fmask, fbudget, fidx;
static int fault(u64 bit, int no) {
    if (!(fmask & bit) || !fbudget) return 0;
    u64 i = fidx++;
    Ev *e = next(FAULT);
    if (e && e->a == i) {
        pos++;
        fbudget--;
        errno = e->b;
        return 1;
    }
    return 0;
}

// ---------------------------------------------------------------- files
static const char *pth(const char *p, char *b) {
    if (p[0] != '/') return p;
    snprintf(b, 1024, "%s%s", root, p);
    return b;
}
static int exists(const char *p) { return access(p, F_OK) == 0; }
static u64 ino_of(int fd) {
    struct stat s;
    if (fstat(fd, &s)) return 0;
    return s.st_ino;
}
int vr_open(const char *p0, int fl, int mode) {
    char b[1024];
    const char *p = pth(p0, b);
    point();
    int found = exists(p);
    if ((!found && fl & 0x40) || (found && fl & 0x200)) crash_point(0);
    if (fault(1, EIO)) return -1;
    int r = open(p, fl, 0644);
    if (r >= 0 && ((!found && fl & 0x40) || (found && fl & 0x200))) {
        evcount++;
        set_dirty(ino_of(r), 1);
    }
    return r;
}
static void wake_flock(u64 ino) {
    for (int i = 0; i < nth; i++)
        if (th[i].status == FLOCK && th[i].addr == ino) th[i].status = RUNNABLE;
}
int vr_close(int fd) {
    u64 i = ino_of(fd);
    int r = close(fd);
    wake_flock(i);
    return r;
}
int vr_dup(int fd) { return fcntl(fd, F_DUPFD, 3); }
int vr_fcntl(int fd, int op, long a) { return op == 0 || op == 1030 ? fcntl(fd, op, a) : op <= 4 ? (fcntl(fd, F_GETFD) < 0 && fd >= 3 ? -1 : 0) : fcntl(fd, op, a); }
int vr_mkdir(const char *p0, int m) {
    char b[1024];
    const char *p = pth(p0, b);
    if (exists(p)) {
        errno = EEXIST;
        return -1;
    }
    crash_point(0);
    int r = mkdir(p, 0755);
    if (!r) evcount++;
    return r;
}
int vr_unlink(const char *p0) {
    char b[1024];
    const char *p = pth(p0, b);
    point();
    struct stat s;
    if (lstat(p, &s)) return -1;
    if (S_ISDIR(s.st_mode)) {
        errno = EISDIR;
        return -1;
    }
    crash_point(0);
    if (fault(32, EIO)) return -1;
    evcount++;
    return unlink(p);
}
int vr_rename(const char *a0, const char *b0) {
    char x[1024], y[1024];
    const char *a = pth(a0, x), *b = pth(b0, y);
    point();
    if (!exists(a)) {
        errno = ENOENT;
        return -1;
    }
    crash_point(0);
    if (fault(16, EIO)) return -1;
    evcount++;
    return rename(a, b);
}
int vr_ftruncate(int fd, long n) {
    point();
    struct stat s;
    if (fstat(fd, &s)) return -1;
    if (s.st_size != n) crash_point(0);
    if (fault(4, ENOSPC)) return -1;
    if (s.st_size != n) {
        evcount++;
        set_dirty(s.st_ino, 1);
    }
    return ftruncate(fd, n);
}
int vr_posix_fallocate(int fd, long off, long n) {
    struct stat s;
    if (fstat(fd, &s)) return EBADF;
    crash_point(0);
    if (fault(4, ENOSPC)) return ENOSPC;
    evcount++;
    set_dirty(s.st_ino, 1);
    if (s.st_size < off + n) return ftruncate(fd, off + n) ? EIO : 0;
    return 0;
}
int vr_fsync(int fd) {
    point();
    if (ino_of(fd) == 0) return -1;
    if (fault(8, EIO)) return -1;
    set_dirty(ino_of(fd), 0);
    if (power) {
        char p[700];
        shadow(ino_of(fd), p);
        copy_into(fd, p, O_CREAT);
    }
    return 0;
}
static void pre_write(int fd, u64 n, int *f) {
    point();
    if (n) crash_point(0);
    *f = fault(2, ENOSPC);
    if (!*f && n) {
        evcount++;
        set_dirty(ino_of(fd), 1);
    }
}
long vr_pwrite64(int fd, void *p, u64 n, long off) {
    int f;
    if (ino_of(fd) == 0) return -1;
    pre_write(fd, n, &f);
    return f ? -1 : pwrite(fd, p, n, off);
}
long vr_write(int fd, void *p, u64 n) {
    if (fd == 1 || fd == 2) return write(2, p, n);
    int f;
    if (ino_of(fd) == 0) return -1;
    pre_write(fd, n, &f);
    return f ? -1 : write(fd, p, n);
}
long vr_writev(int fd, void **v, int n) {
    long t = 0;
    for (int i = 0; i < n; i++) t += write(2, v[2 * i], (u64)v[2 * i + 1]);
    return t;
}
long vr_pread64(int fd, void *p, u64 n, long off) {
    if (off < 0) {
        errno = EINVAL;
        return -1;
    }
    if (pflags & 8) point();
    if (fault(128, EIO)) return -1;
    return pread(fd, p, n, off);
}
long vr_read(int fd, void *p, u64 n) {
    if (pflags & 8) point();
    if (fault(128, EIO)) return -1;
    return read(fd, p, n);
}
long vr_lseek64(int fd, long o, int w) { return lseek(fd, o, w); }
int vr_fstat64(int fd, struct stat *s) { return fstat(fd, s); }
int vr_stat64(const char *p, struct stat *s) {
    char b[1024];
    point();
    return lstat(pth(p, b), s);
}
int vr_fstatat64(int fd, const char *p, struct stat *s, int fl) {
    char b[1024];
    return fstatat(fd, pth(p, b), s, fl);
}
typedef struct { u64 pad; int n, i, fd; char *names[256]; u8 types[256]; struct dirent64 ent; } Dir;
static int cmpn(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
void *vr_opendir(const char *p0) {
    char b[1024];
    const char *p = pth(p0, b);
    point();
    DIR *d = opendir(p);
    if (!d) return 0;
    int rev = 0;
    if (pflags & 16) rev = take(CHOICE, "directory order")->b;
    bump(320, 16);
    Dir *r = calloc(1, sizeof(Dir));
    struct dirent64 *e;
    char *v[256];
    int n = 0;
    while ((e = readdir64(d)))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v[n++] = strdup(e->d_name);
    closedir(d);
    qsort(v, n, sizeof(char *), cmpn);
    r->names[0] = ".";
    r->names[1] = "..";
    r->types[0] = r->types[1] = 4;
    r->n = 2;
    for (int i = 0; i < n; i++) {
        char q[2048];
        struct stat s;
        r->names[r->n] = v[rev ? n - 1 - i : i];
        snprintf(q, sizeof q, "%s/%s", p, r->names[r->n]);
        r->types[r->n] = !lstat(q, &s) && S_ISDIR(s.st_mode) ? 4 : 8;
        r->n++;
    }
    r->fd = open(p, O_RDONLY | O_DIRECTORY);
    return r;
}
void *vr_readdir64(Dir *d) {
    if (d->i >= d->n) return 0;
    memset(&d->ent, 0, sizeof d->ent);
    d->ent.d_ino = 1;
    strcpy(d->ent.d_name, d->names[d->i]);
    d->ent.d_type = d->types[d->i];
    d->ent.d_reclen = (19 + strlen(d->ent.d_name) + 1 + 7) / 8 * 8;
    d->i++;
    return &d->ent;
}
int vr_closedir(Dir *d) {
    close(d->fd);
    return 0;
}
int vr_dirfd(Dir *d) { return d->fd; }
int vr_flock(int fd, int op) {
    point();
    for (;;) {
        int r = flock(fd, op | LOCK_NB);
        if (r == 0) {
            if (op & 8) wake_flock(ino_of(fd));
            return 0;
        }
        if (errno != EWOULDBLOCK || op & 4) return -1;
        th[me].status = FLOCK;
        th[me].addr = ino_of(fd);
        blocked();
    }
}
void *vr_mmap64(void *a, u64 n, int prot, int fl, int fd, long off) {
    if (fl & 0x20) return (void *)bump(n, 4096);
    if (!n) {
        errno = EINVAL;
        return (void *)-1;
    }
    if (fault(64, 12)) return (void *)-1;
    void *p = mmap(a, n, prot, fl, fd, off);
    if (p != (void *)-1) {
        maps[nmaps].a = (u64)p;
        maps[nmaps].n = n;
        maps[nmaps].ino = ino_of(fd);
        maps[nmaps++].live = 1;
    }
    return p;
}
int vr_munmap(void *p, u64 n) {
    Map *m = map_of((u64)p);
    if (!m) return 0;
    m->live = 0;
    // keep the addresses reserved so that a use after unmapping faults
    mmap(p, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    return 0;
}
char *vr_realpath(const char *p, char *out) {
    char b[1024];
    if (!exists(pth(p, b))) {
        errno = ENOENT;
        return 0;
    }
    char *r = out ? out : (char *)bump(strlen(p) + 1, 16);
    strcpy(r, p);
    return r;
}
void *vr_enoent(void) {
    errno = ENOENT;
    return 0;
}
int vr_enosys(void) {
    errno = ENOSYS;
    return -1;
}
void vr_abort(void) { die(11, "REPRODUCED panic or abort"); }
int vr___xpg_strerror_r(int e, char *b, u64 n) {
    snprintf(b, n, "os error");
    return 0;
}

// ---------------------------------------------------------------- harness interface
u32 vs_choice(u32 n, const char *t, u64 l) { return take(CHOICE, "choice")->b; }
void vs_sym(u8 *p, u64 n, const char *t, u64 l) {
    Ev *e = take(SYM, "symbolic bytes");
    if (e->b != n) die(20, "symbolic bytes: %lu recorded, %lu wanted", e->b, n);
    for (u64 i = 0; i < n; i++) p[i] = e->v[i];
}
u64 vs_range(u64 lo, u64 hi, const char *t, u64 l) {
    u64 v = take(SYM, "symbolic integer")->v[0];
    if (v < lo || v > hi) die(20, "symbolic integer out of range");
    return v;
}
void vs_assume(u8 c) {
    if (!(c & 1)) die(20, "assumption fails");
}
void vs_assert(u8 c, const char *m, u64 n) {
    if (!(c & 1)) die(10, "REPRODUCED check failed: %.*s", (int)n, m);
}
void vs_cover(u32 i) {}
u64 vs_concretize(u64 v) { return v; }
void vs_hash(const u8 *d, u64 n, u64 *out) {
    for (size_t i = 0; i < nhash; i++)
        if (hashes[i].n == n && !memcmp(hashes[i].d, d, n)) {
            out[0] = hashes[i].h1;
            out[1] = hashes[i].h2;
            return;
        }
    die(20, "hash of unrecorded data");
}
void vs_hash_policy(u64 a, u64 b, u64 c, u64 d) {}
void vs_preempt(u64 b, u64 f) {
    budget = b;
    pflags = f;
}
void vs_crash_begin(void (*r)(void), u64 f) {
    recover = r;
    in_crash = 1;
    cflags = f;
    power |= f & 1;
    evcount = 0;
}
void vs_crash_end(void) { in_crash = 0; }
void vs_power(void) { power = 1; }
void vs_crash_now(void (*r)(void), u64 f) {
    recover = r;
    cflags = f;
    Ev *e = take(CRASH, "crash");
    crash();
}
static void put_stash(u64 s, const u8 *p, u64 n) {
    int i = 0;
    while (i < nstash && stash[i].slot != s) i++;
    if (i == nstash) nstash++;
    stash[i].slot = s;
    stash[i].n = n;
    stash[i].d = malloc(n + 1);
    memcpy(stash[i].d, p, n);
}
void vs_stash(u64 s, const u8 *p, u64 n) { put_stash(s, p, n); }
u64 vs_unstash(u64 s, u8 *p, u64 cap) {
    for (int i = 0; i < nstash; i++)
        if (stash[i].slot == s) {
            memcpy(p, stash[i].d, stash[i].n < cap ? stash[i].n : cap);
            return stash[i].n;
        }
    return -1ul;
}
void vs_fault_begin(u64 m, u64 b) {
    fmask = m;
    fbudget = b;
    fidx = 0;
}
u64 vs_fault_end(void) {
    fmask = 0;
    return fbudget;
}
static u64 walk(const char *p) {
    DIR *d = opendir(p);
    if (!d) return 0;
    struct dirent64 *e;
    u64 n = 0;
    while ((e = readdir64(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char q[2048];
        snprintf(q, sizeof q, "%s/%s", p, e->d_name);
        struct stat s;
        if (lstat(q, &s)) continue;
        if (S_ISDIR(s.st_mode))
            n += walk(q);
        else
            for (int i = 0; i < ndirt; i++)
                if (dirt[i].ino == s.st_ino && dirt[i].dirty) n++;
    }
    closedir(d);
    return n;
}
u64 vs_dirty(void) { return walk(root); }
void vs_run_others(void) {
    int any = 0;
    for (int i = 0; i < nth; i++) any |= i != me && th[i].status == RUNNABLE;
    if (!any) return;
    th[me].status = IDLE;
    blocked();
    th[me].has_woken = 0;
}
void vs_note(const char *p, u64 n) {}
u64 vs_param(const char *p, u64 n, u64 d) {
    for (int i = 0; i < nparams; i++)
        if (strlen(params[i].name) == n && !memcmp(params[i].name, p, n)) return params[i].v;
    return d;
}
u64 vs_is_native(void) { return 1; }

// ---------------------------------------------------------------- start
static void on_sig(int s) {
    const char m[] = "replay: REPRODUCED bad memory access\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(13);
}
extern void vr_entry(const char *name);
int main(int argc, char **argv) {
    g_argv = argv;
    load();
    snprintf(root, sizeof root, "%s", getenv("VR_ROOT"));
    if (mmap((void *)HEAP_BASE, HEAP_LIMIT - HEAP_BASE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void *)HEAP_BASE) die(20, "heap");
    stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536};
    sigaltstack(&ss, 0);
    struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK};
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    alarm(60);
    me = new_thread();
    char *r = getenv("VR_RECOVER");
    if (r) {
        char p[700];
        snprintf(p, sizeof p, "%s.state", root);
        FILE *f = fopen(p, "r");
        int n;
        if (fscanf(f, "%zu %d", &pos, &n) != 2) die(20, "state");
        for (int i = 0; i < n; i++) {
            u64 s;
            size_t k;
            if (fscanf(f, "%lu %zu", &s, &k) != 2) die(20, "state");
            u8 *d = malloc(k + 1);
            for (size_t j = 0; j < k; j++) {
                unsigned x;
                if (fscanf(f, "%u", &x) != 1) die(20, "state");
                d[j] = x;
            }
            put_stash(s, d, k);
        }
        fclose(f);
        long off = atol(r);
        unsetenv("VR_RECOVER");
        ((void (*)(void))((char *)&crash + off))();
    } else
        vr_entry(entry);
    _exit(0);
}
