// Compiled without instrumentation.
#include "thr.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#define HOOK extern "C" __attribute__((visibility("default"), noinline, used))
#define PC ((uintptr_t)__builtin_return_address(0))

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void  __libc_free(void *);
extern char __executable_start, etext;
}

namespace abi_ {
extern "C" char *__cxa_demangle(const char *, char *, size_t *, int *);
}
namespace {

enum { MAXT = 3 };
typedef uint32_t Clock;

struct VC {
    Clock c[MAXT];
};
struct Sync {
    VC       rel;       // what an acquire learns
    int      owner;     // exclusive holder, -1
    int      depth;
    int      readers[MAXT];
    int      nreaders;
};
struct Cell {
    uint32_t  gen;
    uint8_t   wtid, wmask, freed, pad;
    Clock     w;
    uintptr_t wpc;
    Clock     r[MAXT];
    uint8_t   rmask[MAXT];
    uint32_t  sync;      // index + 1
    uintptr_t rpc[MAXT];
};
struct Page {
    uintptr_t base;
    Cell      cell[512];
};

struct Thr {
    int              id;
    int              go;          // futex
    pthread_t        th;
    bool             done, started;
    const void      *waitLock;    // blocked on this lock (or condition)
    bool             waitCond;
    VC               vc, acq, relf;
    uintptr_t        stkLo, stkHi;
    int              quiet;       // hooks off
    int              hold;        // no preemption
    uint64_t         ops;
    std::function<void()> body;
};

Thr                   g_t[MAXT];
int                   g_n;
bool                  g_active;
uint32_t              g_gen = 1;
int                   g_mainGo;
vx::Chooser          *g_c;
bool                  g_preempt;
uint64_t              g_salt;
thr::Result           g_res;
bool                  g_deadlock, g_diverged;
std::vector<Sync>    *g_sync;
std::vector<void *>  *g_quar;
thread_local Thr     *t_self __attribute__((tls_model("initial-exec")));

enum { PBITS = 16 };
Page  *g_pages[1 << PBITS];

void futexWait(int *a, int v, const struct timespec *ts) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, ts, nullptr, 0); }
void futexWake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

inline uint32_t pageHash(uintptr_t p) { return (uint32_t)((p * 0x9E3779B97F4A7C15ull) >> (64 - PBITS)); }

Page *pageOf(uintptr_t a, bool make)
{
    uintptr_t p = a >> 12;
    uint32_t  i = pageHash(p);
    for (;; i = (i + 1) & ((1 << PBITS) - 1)) {
        Page *x = g_pages[i];
        if (!x) {
            if (!make)
                return nullptr;
            x = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            x->base    = p;
            g_pages[i] = x;
            return x;
        }
        if (x->base == p)
            return x;
    }
}
Cell *cellOf(uintptr_t a, bool make = true)
{
    Page *p = pageOf(a, make);
    if (!p)
        return nullptr;
    Cell *c = &p->cell[(a >> 3) & 511];
    if (c->gen != g_gen) {
        if (!make)
            return nullptr;
        memset(c, 0, sizeof *c);
        c->gen = g_gen;
    }
    return c;
}
Sync &syncOf(const void *a)
{
    Cell *c = cellOf((uintptr_t)a);
    if (!c->sync) {
        Sync s;
        memset(&s, 0, sizeof s);
        s.owner = -1;
        g_sync->push_back(s);
        c->sync = g_sync->size();
    }
    return (*g_sync)[c->sync - 1];
}

std::string where(uintptr_t pc)
{
    Dl_info     d;
    std::string r;
    if (dladdr((void *)pc, &d) && d.dli_sname) {
        int   st = 0;
        char *n  = abi_::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        r        = n ? n : d.dli_sname;
        free(n);
        size_t p = r.find('(');
        if (p != std::string::npos && p > 0)
            r = r.substr(0, p);
        if (r.size() > 110)
            r = r.substr(0, 110);
    }
    char b[40];
    snprintf(b, sizeof b, "+%lx", (unsigned long)(pc - (uintptr_t)&__executable_start));
    return r + b;
}
void report(const char *key, const std::string &msg)
{
    if (g_res.bad)
        return;
    g_res.bad = true;
    g_res.key = key;
    g_res.msg = msg;
}

inline void join(VC &a, const VC &b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

void conflict(const char *what, Thr *t, uintptr_t pc, int other, uintptr_t opc, const char *owhat)
{
    report("data-race", std::string(what) + " in " + where(pc) + " by thread " + std::to_string(t->id) + " is not ordered with the " + owhat + " in " +
                            where(opc) + " by thread " + std::to_string(other));
}

inline void accessCell(Thr *t, uintptr_t a, uint8_t mask, bool write, uintptr_t pc)
{
    Cell *c = cellOf(a);
    if (c->freed) {
        report("use-after-free", std::string(write ? "write" : "read") + " in " + where(pc) + " by thread " + std::to_string(t->id) +
                                     " of memory freed in " + where(c->wpc) + " by thread " + std::to_string(c->wtid));
        return;
    }
    if (c->w && c->wtid != t->id && (c->wmask & mask) && c->w > t->vc.c[c->wtid])
        conflict(write ? "write" : "read", t, pc, c->wtid, c->wpc, "write");
    if (write) {
        for (int i = 0; i < g_n; ++i)
            if (i != t->id && c->r[i] > t->vc.c[i] && (c->rmask[i] & mask))
                conflict("write", t, pc, i, c->rpc[i], "read");
        if (c->wtid == t->id && c->w == t->vc.c[t->id])
            c->wmask |= mask;
        else
            c->wmask = mask;
        c->wtid = t->id;
        c->w    = t->vc.c[t->id];
        c->wpc  = pc;
    }
    else {
        if (c->r[t->id] == t->vc.c[t->id])
            c->rmask[t->id] |= mask;
        else
            c->rmask[t->id] = mask;
        c->r[t->id]   = t->vc.c[t->id];
        c->rpc[t->id] = pc;
    }
}
inline bool onStack(uintptr_t a)
{
    for (int i = 0; i < g_n; ++i)
        if (a >= g_t[i].stkLo && a < g_t[i].stkHi)
            return true;
    return false;
}
inline Thr *live()
{
    Thr *t = t_self;
    return t && g_active && !t->quiet ? t : nullptr;
}
void access(const void *p, size_t n, bool write, uintptr_t pc)
{
    Thr *t = live();
    if (!t || !n)
        return;
    uintptr_t a = (uintptr_t)p;
    if (a < 4096 || onStack(a))
        return;
    ++t->quiet;
    g_res.accesses++;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g    = a & ~7ull;
        unsigned  lo   = a - g, hi = std::min<uintptr_t>(8, e - g);
        uint8_t   mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        accessCell(t, g, mask, write, pc);
        a = g + 8;
    }
    --t->quiet;
}
void forget(void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
    while (a < e) {
        Page *pg = pageOf(a, false);
        if (!pg) {
            a = (a | 4095) + 1;
            continue;
        }
        pg->cell[(a >> 3) & 511].gen = 0;
        a += 8;
    }
}

// ------------------------------------------------------------ scheduling
bool runnable(const Thr &t) { return !t.done && !t.waitLock; }

void park(Thr *t)
{
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
        futexWait(&t->go, 0, nullptr);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void resume(Thr *t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futexWake(&t->go);
}
void wakeMain()
{
    __atomic_store_n(&g_mainGo, 1, __ATOMIC_RELEASE);
    futexWake(&g_mainGo);
}
int choose(vx::Kind k, int n, const char *label)
{
    if (g_diverged)
        return 0;
    try {
        return g_c->choose(k, n, label);
    }
    catch (vx::EndExecution &) {
        g_diverged = true;
        return 0;
    }
}
// Give the processor to another thread; the caller cannot go on.
void leave(Thr *t)
{
    int ids[MAXT], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (runnable(g_t[i]))
            ids[n++] = i;
    if (!n) {
        bool all = true;
        for (int i = 0; i < g_n; ++i) all &= g_t[i].done;
        if (!all) {
            g_deadlock = true;
            std::string m = "no thread can go on:";
            for (int i = 0; i < g_n; ++i)
                if (!g_t[i].done)
                    m += " thread " + std::to_string(i) + (g_t[i].waitCond ? " waits for a condition;" : " waits for a lock;");
            report("deadlock", m);
        }
        wakeMain();
    }
    else {
        int k = n > 1 ? choose(vx::FREE, n, "next thread") : 0;
        resume(&g_t[ids[k]]);
    }
    if (!t->done)
        park(t);  // for good, in a deadlock
}
void point(Thr *t, uintptr_t pc)
{
    ++t->ops;
    g_res.ops++;
    uint64_t fp = g_salt;
    for (int i = 0; i < g_n; ++i) fp = vx::mix(fp, g_t[i].ops);
    g_c->step(fp);
    if (!g_preempt || t->hold)
        return;
    if (pc && (pc < (uintptr_t)&__executable_start || pc >= (uintptr_t)&etext))
        return;  // inside a library
    int ids[MAXT], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (i != t->id && runnable(g_t[i]))
            ids[n++] = i;
    if (!n)
        return;
    int k = choose(vx::SCHED, n + 1, "preempt");
    if (g_c->verbose() && k)
        g_c->log("      thread " + std::to_string(t->id) + " preempted before " + where(pc));
    if (!k)
        return;
    g_res.switches++;
    resume(&g_t[ids[k - 1]]);
    park(t);
}

struct Busy {
    Thr *t;
    explicit Busy(Thr *t) : t(t) { ++t->quiet; }
    ~Busy() { --t->quiet; }
};

void acquireHb(Thr *t, Sync &s) { join(t->vc, s.rel); }
void releaseHb(Thr *t, Sync &s)
{
    join(s.rel, t->vc);
    t->vc.c[t->id]++;
}
void wakeWaiters(const void *l, bool cond, bool all)
{
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].waitLock == l && g_t[i].waitCond == cond) {
            g_t[i].waitLock = nullptr;
            if (!all)
                return;
        }
}
void checkAlive(Thr *t, const void *l, uintptr_t pc)
{
    Cell *c = cellOf((uintptr_t)l);
    if (c->freed)
        report("use-after-free", "lock operation in " + where(pc) + " by thread " + std::to_string(t->id) + " on memory freed in " + where(c->wpc) +
                                     " by thread " + std::to_string(c->wtid));
}
bool canLock(Sync &s, Thr *t, bool shared, bool recursive)
{
    if (s.owner == t->id)
        return recursive;
    if (s.owner >= 0)
        return false;
    if (shared)
        return true;
    return s.nreaders == 0;
}
int lockOp(Thr *t, const void *l, bool shared, bool tryOnly, bool recursive, uintptr_t pc)
{
    Busy b(t);
    checkAlive(t, l, pc);
    point(t, pc);
    for (;;) {
        Sync &s = syncOf(l);
        if (canLock(s, t, shared, recursive)) {
            if (shared) {
                s.readers[t->id]++;
                s.nreaders++;
            }
            else {
                s.owner = t->id;
                s.depth++;
            }
            acquireHb(t, s);
            return 0;
        }
        if (tryOnly)
            return EBUSY;
        t->waitLock = l;
        t->waitCond = false;
        leave(t);
    }
}
int unlockOp(Thr *t, const void *l, uintptr_t pc)
{
    Busy  b(t);
    checkAlive(t, l, pc);
    Sync &s = syncOf(l);
    if (s.owner == t->id) {
        if (--s.depth == 0)
            s.owner = -1;
    }
    else if (s.readers[t->id]) {
        s.readers[t->id]--;
        s.nreaders--;
    }
    releaseHb(t, s);
    wakeWaiters(l, false, true);
    return 0;
}

template <class F>
F real(const char *name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

void *threadMain(void *p)
{
    Thr *t = (Thr *)p;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void  *sa;
    size_t ss;
    pthread_attr_getstack(&at, &sa, &ss);
    pthread_attr_destroy(&at);
    t->stkLo = (uintptr_t)sa;
    t->stkHi = (uintptr_t)sa + ss;
    t->started = true;
    wakeMain();
    park(t);
    t_self = t;
    try {
        t->body();
    }
    catch (vx::EndExecution &) {
    }
    catch (std::exception &e) {
        ++t->quiet;
        report("exception", std::string("thread ") + std::to_string(t->id) + " ended by an exception: " + e.what());
        --t->quiet;
    }
    ++t->quiet;
    t->done = true;
    t_self  = nullptr;
    leave(t);
    return nullptr;
}
bool mainWait()
{
    for (int k = 0; k < 30; ++k) {
        if (__atomic_load_n(&g_mainGo, __ATOMIC_ACQUIRE)) {
            __atomic_store_n(&g_mainGo, 0, __ATOMIC_RELAXED);
            return true;
        }
        struct timespec ts = {2, 0};
        futexWait(&g_mainGo, 0, &ts);
    }
    return false;
}
}

namespace thr {
Quiet::Quiet()
{
    if (t_self)
        ++t_self->quiet;
}
Quiet::~Quiet()
{
    if (t_self)
        --t_self->quiet;
}
int self() { return t_self ? t_self->id : -1; }

Result run(vx::Chooser &c, const std::vector<std::function<void()>> &bodies, uint64_t salt, bool preempt)
{
    g_c        = &c;
    g_n        = bodies.size();
    g_res      = Result();
    g_deadlock = g_diverged = false;
    g_preempt  = preempt;
    g_salt     = salt;
    ++g_gen;
    if (!g_sync) {
        g_sync = new std::vector<Sync>;
        g_quar = new std::vector<void *>;
        g_sync->reserve(1 << 16);
    }
    g_sync->clear();
    for (int i = 0; i < g_n; ++i) {
        Thr &t = g_t[i];
        t.id       = i;
        t.go       = 0;
        t.done     = t.started = false;
        t.waitLock = nullptr;
        t.waitCond = false;
        memset(&t.vc, 0, sizeof t.vc);
        t.acq = t.relf = t.vc;
        t.vc.c[i]  = 1;
        t.quiet = t.hold = 0;
        t.ops      = 0;
        t.body     = bodies[i];
        g_mainGo   = 0;
        if (pthread_create(&t.th, nullptr, threadMain, &t) != 0 || !mainWait()) {
            fprintf(stderr, "cannot start a thread\n");
            _exit(2);
        }
    }
    g_mainGo = 0;
    g_active = true;
    int k    = g_n > 1 ? choose(vx::FREE, g_n, "first thread") : 0;
    resume(&g_t[k]);
    bool ok  = mainWait();
    g_active = false;
    if (!ok)
        g_res.stuck = true;
    if (ok && !g_deadlock)
        for (int i = 0; i < g_n; ++i) pthread_join(g_t[i].th, nullptr);
    for (int i = 0; i < g_n; ++i) g_t[i].body = nullptr;
    if (!g_deadlock && ok)
        for (void *p : *g_quar) __libc_free(p);
    g_quar->clear();
    if (g_diverged || !ok) {
        c.diverged = true;
        throw vx::EndExecution();
    }
    return g_res;
}
}

// ---------------------------------------------------------------- memory
namespace {
inline void *fresh(void *p, size_t n)
{
    Thr *t = t_self;
    if (p && t && g_active)
        forget(p, n);
    return p;
}
void release(void *p, uintptr_t pc)
{
    Thr *t = t_self;
    if (!p)
        return;
    if (!t || !g_active) {
        __libc_free(p);
        return;
    }
    if (t->quiet) {
        __libc_free(p);
        return;
    }
    size_t n = malloc_usable_size(p);
    Busy   b(t);
    // bookkeeping of freed memory: a write to all of it
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        Cell *c = cellOf(g);
        if (c->freed) {
            report("double-free", "memory freed in " + where(pc) + " was freed before in " + where(c->wpc));
            return;
        }
        accessCell(t, g, 0xff, true, pc);
        c->freed = 1;
    }
    g_quar->push_back(p);
}
}
HOOK void *malloc(size_t n) { return fresh(__libc_malloc(n), n); }
HOOK void *calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), a * b); }
HOOK void *memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
HOOK void *aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
HOOK int posix_memalign(void **out, size_t a, size_t n)
{
    void *p = __libc_memalign(a, n);
    if (!p)
        return ENOMEM;
    *out = fresh(p, n);
    return 0;
}
HOOK void free(void *p) { release(p, PC); }
HOOK void *realloc(void *p, size_t n)
{
    Thr *t = t_self;
    if (!t || !g_active || t->quiet)
        return __libc_realloc(p, n);
    void *q = malloc(n);
    if (p && q) {
        memcpy(q, p, std::min(n, malloc_usable_size(p)));
        release(p, PC);
    }
    return q;
}
void *operator new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void  operator delete(void *p) noexcept { release(p, PC); }
void  operator delete[](void *p) noexcept { release(p, PC); }
void  operator delete(void *p, size_t) noexcept { release(p, PC); }
void  operator delete[](void *p, size_t) noexcept { release(p, PC); }
void  operator delete(void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void  operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, PC); }

// ------------------------------------------------------- instrumentation
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void *) {}
HOOK void __tsan_func_exit() {}
#define RW(n)                                                             \
    HOOK void __tsan_read##n(void *a) { access(a, n, false, PC); }        \
    HOOK void __tsan_write##n(void *a) { access(a, n, true, PC); }        \
    HOOK void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } \
    HOOK void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
    HOOK void __tsan_read_write##n(void *a) { access(a, n, true, PC); }   \
    HOOK void __tsan_unaligned_read_write##n(void *a) { access(a, n, true, PC); } \
    HOOK void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } \
    HOOK void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
HOOK void __tsan_read_range(void *a, size_t n) { access(a, n, false, PC); }
HOOK void __tsan_write_range(void *a, size_t n) { access(a, n, true, PC); }
HOOK void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
HOOK void __tsan_vptr_update(void **a, void *v)
{
    if (*a != v)
        access(a, 8, true, PC);
}
HOOK void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
HOOK void *__tsan_memmove(void *d, const void *s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
HOOK void *__tsan_memset(void *d, int v, size_t n)
{
    access(d, n, true, PC);
    return memset(d, v, n);
}

namespace {
inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// An atomic operation: kinds 0 load, 1 store, 2 read-modify-write.
template <class F>
auto atomicOp(const volatile void *va, int kind, int mo, uintptr_t pc, F f)
{
    Thr        *t = live();
    const void *a = (const void *)va;
    if (!t)
        return f();
    Busy b(t);
    checkAlive(t, a, pc);
    point(t, pc);
    // an atomic still conflicts with plain accesses: plain accesses of others must be ordered before it
    {
        Cell *c = cellOf((uintptr_t)a);
        if (c->w && c->wtid != t->id && c->w > t->vc.c[c->wtid])
            conflict("atomic access", t, pc, c->wtid, c->wpc, "plain write");
    }
    Sync &s = syncOf(a);
    auto  r = f();
    if (kind != 1) {
        if (isAcq(mo))
            join(t->vc, s.rel);
        else
            join(t->acq, s.rel);
    }
    if (kind != 0) {
        if (isRel(mo)) {
            if (kind == 1)
                s.rel = t->vc;
            else
                join(s.rel, t->vc);
            t->vc.c[t->id]++;
        }
        else {
            if (kind == 1)
                s.rel = t->relf;
            else
                join(s.rel, t->relf);
        }
    }
    return r;
}
}
#define ATOM(N, T)                                                                                                               \
    HOOK T __tsan_atomic##N##_load(const volatile T *a, int mo)                                                                   \
    {                                                                                                                             \
        return atomicOp(a, 0, mo, PC, [&] { return __atomic_load_n(a, __ATOMIC_SEQ_CST); });                                      \
    }                                                                                                                             \
    HOOK void __tsan_atomic##N##_store(volatile T *a, T v, int mo)                                                                \
    {                                                                                                                             \
        atomicOp(a, 1, mo, PC, [&] {                                                                                              \
            __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                             \
            return 0;                                                                                                             \
        });                                                                                                                       \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo)                                                                \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); });                               \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo)                                                               \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); });                                \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo)                                                               \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); });                                \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo)                                                               \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); });                                \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo)                                                                \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); });                                 \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo)                                                               \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); });                                \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo)                                                              \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); });                               \
    }                                                                                                                             \
    HOOK int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int)                                    \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); \
    }                                                                                                                             \
    HOOK int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int)                                      \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] { return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); \
    }                                                                                                                             \
    HOOK T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int mo, int)                                          \
    {                                                                                                                             \
        return atomicOp(a, 2, mo, PC, [&] {                                                                                       \
            __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                     \
            return e;                                                                                                             \
        });                                                                                                                       \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
HOOK void __tsan_atomic_thread_fence(int mo)
{
    Thr *t = live();
    if (!t)
        return;
    if (isAcq(mo))
        join(t->vc, t->acq);
    if (isRel(mo)) {
        t->relf = t->vc;
        t->vc.c[t->id]++;
    }
}
HOOK void __tsan_atomic_signal_fence(int) {}

// -------------------------------------------------------------- locks
#define REAL(name, ...)                                              \
    static auto fn = real<decltype(&name)>(#name);                   \
    return fn(__VA_ARGS__)
HOOK int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, false, false, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE, PC);
    REAL(pthread_mutex_lock, m);
}
HOOK int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, false, true, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE, PC);
    REAL(pthread_mutex_trylock, m);
}
HOOK int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (Thr *t = live())
        return unlockOp(t, m, PC);
    REAL(pthread_mutex_unlock, m);
}
HOOK int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (live())
        return 0;
    REAL(pthread_mutex_destroy, m);
}
HOOK int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, true, false, false, PC);
    REAL(pthread_rwlock_rdlock, m);
}
HOOK int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, false, false, false, PC);
    REAL(pthread_rwlock_wrlock, m);
}
HOOK int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, true, true, false, PC);
    REAL(pthread_rwlock_tryrdlock, m);
}
HOOK int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    if (Thr *t = live())
        return lockOp(t, m, false, true, false, PC);
    REAL(pthread_rwlock_trywrlock, m);
}
HOOK int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (Thr *t = live())
        return unlockOp(t, m, PC);
    REAL(pthread_rwlock_unlock, m);
}
HOOK int pthread_rwlock_destroy(pthread_rwlock_t *m)
{
    if (live())
        return 0;
    REAL(pthread_rwlock_destroy, m);
}
HOOK int pthread_spin_lock(pthread_spinlock_t *m)
{
    if (Thr *t = live())
        return lockOp(t, (void *)m, false, false, false, PC);
    REAL(pthread_spin_lock, m);
}
HOOK int pthread_spin_unlock(pthread_spinlock_t *m)
{
    if (Thr *t = live())
        return unlockOp(t, (void *)m, PC);
    REAL(pthread_spin_unlock, m);
}
HOOK int pthread_cond_wait(pthread_cond_t *cv, pthread_mutex_t *m)
{
    if (Thr *t = live()) {
        uintptr_t pc = PC;
        unlockOp(t, m, pc);
        {
            Busy b(t);
            t->waitLock = cv;
            t->waitCond = true;
            leave(t);
            acquireHb(t, syncOf(cv));
        }
        return lockOp(t, m, false, false, false, pc);
    }
    REAL(pthread_cond_wait, cv, m);
}
HOOK int pthread_cond_signal(pthread_cond_t *cv)
{
    if (Thr *t = live()) {
        Busy b(t);
        releaseHb(t, syncOf(cv));
        wakeWaiters(cv, true, false);
        return 0;
    }
    REAL(pthread_cond_signal, cv);
}
HOOK int pthread_cond_broadcast(pthread_cond_t *cv)
{
    if (Thr *t = live()) {
        Busy b(t);
        releaseHb(t, syncOf(cv));
        wakeWaiters(cv, true, true);
        return 0;
    }
    REAL(pthread_cond_broadcast, cv);
}
HOOK int pthread_once(pthread_once_t *o, void (*f)(void))
{
    static auto fn = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
    Thr        *t  = live();
    if (t) {
        Busy b(t);  // nothing inside is monitored or preempted
        int  r = fn(o, f);
        acquireHb(t, syncOf(o));
        releaseHb(t, syncOf(o));
        return r;
    }
    return fn(o, f);
}

// ------------------------------------------------------- static objects
HOOK int __cxa_guard_acquire(uint64_t *g)
{
    if (Thr *t = live()) {
        Busy b(t);
        if (*(volatile char *)g) {
            acquireHb(t, syncOf(g));
            return 0;
        }
        t->hold++;
        return 1;
    }
    if (*(volatile char *)g)
        return 0;
    if (t_self && g_active)
        return 1;
    static auto fn = real<int (*)(uint64_t *)>("__cxa_guard_acquire");
    return fn(g);
}
HOOK void __cxa_guard_release(uint64_t *g)
{
    if (Thr *t = live()) {
        Busy b(t);
        releaseHb(t, syncOf(g));
        *(volatile char *)g = 1;
        t->hold--;
        return;
    }
    if (t_self && g_active) {
        *(volatile char *)g = 1;
        return;
    }
    static auto fn = real<void (*)(uint64_t *)>("__cxa_guard_release");
    fn(g);
}
HOOK void __cxa_guard_abort(uint64_t *g)
{
    if (Thr *t = live()) {
        t->hold--;
        return;
    }
    static auto fn = real<void (*)(uint64_t *)>("__cxa_guard_abort");
    fn(g);
}

// ------------------------------------- containers compiled elsewhere
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    using F        = void (*)(const bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &);
    static F   fn = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    access(&h, sizeof h, true, PC);
    access(x, sizeof *x, true, PC);
    access(p, sizeof *p, true, PC);
    fn(left, x, p, h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    using F       = _Rb_tree_node_base *(*)(_Rb_tree_node_base *const, _Rb_tree_node_base &);
    static F   fn = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    access(&h, sizeof h, true, PC);
    access(z, sizeof *z, true, PC);
    return fn(z, h);
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    access(p, sizeof *p, true, PC);
    access(p->_M_prev, sizeof *p, true, PC);
    access(this, sizeof *this, true, PC);
    _M_next          = p;
    _M_prev          = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev       = this;
}
void _List_node_base::_M_unhook() noexcept
{
    access(this, sizeof *this, true, PC);
    access(_M_next, sizeof *this, true, PC);
    access(_M_prev, sizeof *this, true, PC);
    _List_node_base *const n = _M_next, *const p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
}
}
