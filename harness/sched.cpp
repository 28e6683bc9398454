// Controlled runtime for exploring thread schedules of the real library.
//
// The library is compiled with -fsanitize=thread, but this file is linked in
// place of the sanitizer's own runtime. It
//  - runs one thread at a time and decides, before every synchronisation
//    operation (locks, condition variables, once, guards of function-local
//    statics, atomics, futexes, thread creation, join and exit), which thread
//    goes on: first as prescribed by the explorer, then the running thread;
//  - keeps vector clocks and reports every pair of conflicting memory accesses
//    that no synchronisation orders, whatever their order in this execution.
// It is not instrumented itself and uses no code shared with instrumented files.
#include "sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sched;

static inline long raw(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

namespace
{
    struct Thread {
        int baton;
        bool live, finished, signalled;
        Pend next;
        uint32_t vc[MAXT];
        uint32_t finalvc[MAXT];
        pthread_t handle;
        void *(*fn)(void *);
        void *arg;
        void *ret;
    };
    struct Obj { // state of a synchronisation object
        uint64_t addr;
        int owner, count, readers; // mutex / rwlock; guard or once in progress: owner
        uint32_t vc[MAXT];
        int waiters[MAXT], nwait; // condition variable, futex
    };
    Thread T[MAXT];
    int nthreads = 0, cur = 0;
    volatile bool active = false;
    Trace *tr;
    uint8_t plan[MAXE];
    int nplan;
    uint8_t sleepset;
    __thread int me = 0;
    __thread int inside = 0;

    const int NOBJ = 1 << 15;
    Obj *objs;
    Obj &obj(uint64_t a)
    {
        uint32_t i = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 49);
        for (int k = 0; k < NOBJ; k++, i = (i + 1) & (NOBJ - 1)) {
            if (objs[i].addr == a)
                return objs[i];
            if (!objs[i].addr) {
                objs[i].addr = a;
                objs[i].owner = -1;
                return objs[i];
            }
        }
        _exit(90);
    }

    // ---- shadow memory ----
    // accesses to 8 bytes of memory, by thread: two records of plain writes, two of
    // plain reads (for different bytes), one of atomic writes and one of atomic reads
    enum { W0, W1, R0, R1, AW, AR, NREC };
    struct Cell {
        uint32_t clk[MAXT][NREC];
        uint8_t mask[MAXT][NREC];
        uint8_t who; // threads with records
        void *wpc;
        void *rpc;
    };
    struct Page {
        uint64_t key;
        Cell *cells;
    };
    const int NPAGE = 1 << 16;
    Page *pages;
    char *arena, *arenaEnd;
    uint64_t lastKey = 0;
    Cell *lastCells = nullptr;
    Cell *page(uint64_t key, bool make)
    {
        if (key == lastKey)
            return lastCells;
        uint32_t i = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 48);
        for (int k = 0; k < NPAGE; k++, i = (i + 1) & (NPAGE - 1)) {
            if (pages[i].key == key) {
                lastKey = key;
                return lastCells = pages[i].cells;
            }
            if (!pages[i].key) {
                if (!make)
                    return nullptr;
                if (arena + 512 * sizeof(Cell) > arenaEnd) {
                    size_t sz = 64u << 20;
                    arena = (char *)raw(SYS_mmap, 0, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                    arenaEnd = arena + sz;
                }
                pages[i].key = key;
                pages[i].cells = (Cell *)arena;
                arena += 512 * sizeof(Cell);
                lastKey = key;
                return lastCells = pages[i].cells;
            }
        }
        _exit(91);
    }

    void where(void *pc, char *out, size_t n)
    {
        Dl_info d;
        memset(&d, 0, sizeof d);
        if (pc && dladdr(pc, &d) && d.dli_sname) {
            int st;
            char *s = abi::__cxa_demangle(d.dli_sname, 0, 0, &st);
            snprintf(out, n, "%s", s ? s : d.dli_sname);
            free(s);
            // parameters and template arguments are of no use here
            for (char *p = out; *p; p++)
                if (*p == '(' && p != out && strncmp(p, "(anonymous", 10)) {
                    *p = 0;
                    break;
                }
        } else
            snprintf(out, n, "unknown code");
    }
    void race(uint64_t addr, bool w1, int t1, void *pc1, bool w2, int t2, void *pc2)
    {
        if (tr->races >= 4)
            return;
        char a[300], b[300];
        where(pc1, a, sizeof a);
        where(pc2, b, sizeof b);
        snprintf(tr->race[tr->races++], sizeof tr->race[0], "%s in %s (thread %d) is not ordered with %s in %s (thread %d)",
                 w1 ? "write" : "read", a, t1, w2 ? "write" : "read", b, t2);
        (void)addr;
    }
    inline void access1(uint64_t a, unsigned mask, bool write, bool atomic, void *pc)
    {
        Cell &c = page(a >> 12, true)[(a >> 3) & 511];
        Thread &t = T[me];
        for (int i = 0; i < nthreads; i++) {
            if (i == me || !(c.who >> i & 1))
                continue;
            const uint32_t *k = c.clk[i];
            const uint8_t *m = c.mask[i];
            auto late = [&](int r) { return (m[r] & mask) && k[r] > t.vc[i]; };
            if (late(W0) || late(W1) || (!atomic && late(AW)))
                race(a, true, i, c.wpc, write, me, pc);
            else if (write && (late(R0) || late(R1) || (!atomic && late(AR))))
                race(a, false, i, c.rpc, true, me, pc);
        }
        c.who |= (uint8_t)(1 << me);
        uint32_t *k = c.clk[me], now = t.vc[me];
        uint8_t *m = c.mask[me];
        int r = atomic ? (write ? AW : AR) : (write ? W0 : R0);
        if (k[r] == now)
            m[r] |= (uint8_t)mask;
        else {
            if (!atomic && (m[r] & ~mask)) { // other bytes: keep their time
                k[r + 1] = k[r];
                m[r + 1] = (uint8_t)(m[r] & ~mask);
            }
            k[r] = now;
            m[r] = (uint8_t)mask;
        }
        (write ? c.wpc : c.rpc) = pc;
    }
    inline bool watching() { return active && nthreads > 1 && !inside; }
    inline void access(uint64_t a, size_t n, bool write, bool atomic, void *pc)
    {
        if (!watching())
            return;
        inside++;
        tr->accesses++;
        while (n) {
            unsigned off = a & 7, k = 8 - off;
            if (k > n)
                k = (unsigned)n;
            access1(a, ((1u << k) - 1) << off, write, atomic, pc);
            a += k;
            n -= k;
        }
        inside--;
    }
    void forget(uint64_t a, size_t n)
    {
        for (uint64_t p = a >> 12; p <= (a + n - 1) >> 12; p++) {
            Cell *c = page(p, false);
            if (!c)
                continue;
            uint64_t lo = p == a >> 12 ? (a >> 3) & 511 : 0;
            uint64_t hi = p == (a + n - 1) >> 12 ? ((a + n - 1) >> 3) & 511 : 511;
            memset(&c[lo], 0, (hi - lo + 1) * sizeof(Cell));
        }
    }

    // ---- clocks ----
    void joinclk(uint32_t *a, const uint32_t *b)
    {
        for (int i = 0; i < MAXT; i++)
            if (b[i] > a[i])
                a[i] = b[i];
    }
    void acquire(Obj &o) { joinclk(T[me].vc, o.vc); }
    void release(Obj &o)
    {
        joinclk(o.vc, T[me].vc);
        T[me].vc[me]++;
    }

    // ---- scheduling ----
    void wake(int t)
    {
        __atomic_store_n(&T[t].baton, 1, __ATOMIC_SEQ_CST);
        raw(SYS_futex, (long)&T[t].baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
    }
    void sleep_until_woken(int t)
    {
        while (!__atomic_load_n(&T[t].baton, __ATOMIC_SEQ_CST))
            raw(SYS_futex, (long)&T[t].baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
        __atomic_store_n(&T[t].baton, 0, __ATOMIC_SEQ_CST);
    }
    bool enabled(int t)
    {
        Thread &x = T[t];
        if (!x.live || x.finished)
            return false;
        switch (x.next.op) {
            case LOCK: {
                Obj &o = obj(x.next.a);
                return (o.owner < 0 || o.owner == t) && !o.readers;
            }
            case RDLOCK:
                return obj(x.next.a).owner < 0;
            case CBLOCKED: {
                Obj &o = obj(x.next.a);
                return x.signalled && o.owner < 0 && !o.readers;
            }
            case FBLOCKED:
                return x.signalled;
            case GACQ:
            case ONCE: {
                Obj &o = obj(x.next.a);
                return o.owner < 0;
            }
            case JOIN:
                return T[x.next.b].finished;
            default:
                return true;
        }
    }
    [[noreturn]] void stop(int status)
    {
        tr->status = status;
        fflush(0);
        _exit(0);
    }
    // the running thread announces its next operation and goes on when it is its turn
    int choose()
    {
        uint8_t en = 0, live = 0;
        for (int i = 0; i < nthreads; i++) {
            if (T[i].live && !T[i].finished)
                live |= 1 << i;
            if (enabled(i))
                en |= 1 << i;
        }
        if (tr->n >= MAXE)
            stop(TOOLONG);
        Event &e = tr->e[tr->n];
        for (int i = 0; i < nthreads; i++)
            e.p[i] = T[i].next;
        e.enabled = en;
        e.live = live;
        e.sleep = sleepset;
        if (!en)
            stop(DEADLOCK);
        int pick = -1;
        if (tr->n < nplan) {
            pick = plan[tr->n];
            if (!(en >> pick & 1))
                _exit(92); // the execution did not repeat
            if (tr->n == nplan - 1) {
                // the explorer's sleep set holds after this event
                e.tid = (uint8_t)pick;
                tr->n++;
                return pick;
            }
        } else {
            uint8_t ok = en & ~sleepset;
            if (!ok)
                stop(REDUNDANT);
            if (ok >> cur & 1 && T[cur].next.op != YIELD)
                pick = cur;
            else {
                for (int k = 1; k <= nthreads && pick < 0; k++) {
                    int i = (cur + k) % nthreads;
                    if (ok >> i & 1)
                        pick = i;
                }
            }
            for (int i = 0; i < nthreads; i++)
                if (sleepset >> i & 1 && dependent(T[i].next, T[pick].next))
                    sleepset &= ~(1 << i);
        }
        e.tid = (uint8_t)pick;
        tr->n++;
        return pick;
    }
    void point(Op op, uint64_t a, uint64_t b = 0)
    {
        T[me].next = {op, a, b};
        int p = choose();
        int self = me;
        cur = p;
        if (p != self) {
            wake(p);
            sleep_until_woken(self);
        }
    }
    inline bool on() { return active && !inside; }
    // Guards of function-local statics (and once controls) only ever change from
    // "not done" to "done": a thread that has seen "done" sees it for ever, and
    // its further looks are no operations of their own.
    const int NGUARD = 1 << 12;
    uint64_t guards[NGUARD];
    uint8_t seen[NGUARD];
    int guardSlot(uint64_t a, bool make)
    {
        uint32_t i = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 52);
        for (int k = 0; k < NGUARD; k++, i = (i + 1) & (NGUARD - 1)) {
            if (guards[i] == a)
                return (int)i;
            if (!guards[i]) {
                if (!make)
                    return -1;
                guards[i] = a;
                return (int)i;
            }
        }
        return -1;
    }
    // true: seen before by this thread
    bool look(uint64_t a, bool make)
    {
        int i = guardSlot(a, make);
        if (i < 0)
            return false;
        if (seen[i] >> me & 1)
            return true;
        seen[i] |= (uint8_t)(1 << me);
        return false;
    }
    struct Guard {
        Guard() { inside++; }
        ~Guard() { inside--; }
    };

    void *(*realsym(const char *n))(void *) { return (void *(*)(void *))dlsym(RTLD_NEXT, n); }

    void *body(void *p)
    {
        int t = (int)(intptr_t)p;
        me = t;
        sleep_until_woken(t); // scheduled for its first operation (START)
        void *r = T[t].fn(T[t].arg);
        {
            Guard g;
            T[t].next = {EXIT, (uint64_t)&T[t], 0};
            int pck = choose();
            cur = pck;
            if (pck != t) {
                wake(pck);
                sleep_until_woken(t);
            }
            memcpy(T[t].finalvc, T[t].vc, sizeof T[t].vc);
            T[t].ret = r;
            T[t].finished = true;
            T[t].next = {NONE, 0, 0};
            // hand over without an operation of our own
            int q = choose();
            cur = q;
            wake(q);
        }
        inside = 1;
        return r;
    }
} // namespace

namespace sched
{
    const char *name(Op o)
    {
        static const char *n[] = {"none", "lock", "unlock", "trylock", "rdlock", "cond-wait", "cond-resume", "signal", "broadcast", "load", "rmw/store",
                                  "guard-acquire", "guard-release", "once", "once-end", "create", "join", "start", "exit", "futex-wait", "futex-resume", "futex-wake", "yield", "end"};
        return n[o];
    }
    static bool silent(Op o) { return o == NONE || o == START || o == YIELD || o == END; }
    bool dependent(const Pend &x, const Pend &y)
    {
        if (silent(x.op) || silent(y.op))
            return false;
        bool same = (x.a && (x.a == y.a || x.a == y.b)) || (x.b && x.b > 64 && (x.b == y.a || x.b == y.b));
        if (!same)
            return false;
        auto reads = [](Op o) { return o == ALOAD || o == RDLOCK; };
        if (reads(x.op) && reads(y.op))
            return false;
        // taking a guard does not change what a reader of the guard sees
        if ((x.op == ALOAD && (y.op == GACQ || y.op == ONCE)) || (y.op == ALOAD && (x.op == GACQ || x.op == ONCE)))
            return false;
        return true;
    }
    bool coenabled(const Pend &x, const Pend &y)
    {
        auto pair = [&](Op a, Op b) { return (x.op == a && y.op == b) || (x.op == b && y.op == a); };
        if (pair(LOCK, UNLOCK) || pair(RDLOCK, UNLOCK) || pair(LOCK, CWAIT) || pair(CBLOCKED, UNLOCK) || pair(CBLOCKED, CWAIT) ||
            pair(CBLOCKED, SIGNAL) || pair(CBLOCKED, BCAST) || pair(FBLOCKED, FWAKE) || pair(JOIN, EXIT) || pair(GACQ, GREL) || pair(ONCE, ONCEEND) || x.op == CREATE || y.op == CREATE)
            return false;
        return true;
    }
    void begin(Trace *t, const uint8_t *prefix, int n, uint8_t sleep)
    {
        tr = t;
        tr->status = RUNNING;
        tr->n = tr->races = tr->fails = 0;
        tr->accesses = 0;
        tr->outcome[0] = 0;
        memcpy(plan, prefix, n);
        nplan = n;
        sleepset = sleep;
        objs = (Obj *)raw(SYS_mmap, 0, NOBJ * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pages = (Page *)raw(SYS_mmap, 0, NPAGE * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        memset(T, 0, sizeof T);
        memset(seen, 0, sizeof seen);
        T[0].live = true;
        T[0].vc[0] = 1;
        nthreads = 1;
        me = cur = 0;
        active = true;
    }
    void end()
    {
        active = false;
        tr->status = DONE;
    }
    void fail(const char *what)
    {
        for (int i = 0; i < tr->fails && i < 8; i++)
            if (!strcmp(tr->fail[i], what))
                return;
        if (tr->fails < 8)
            snprintf(tr->fail[tr->fails++], sizeof tr->fail[0], "%s", what);
    }
} // namespace sched

// ---------------------------------------------------------------- pthreads
extern "C" {
int pthread_create(pthread_t *h, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    typedef int (*F)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    F real = (F)dlsym(RTLD_NEXT, "pthread_create");
    if (!on())
        return real(h, attr, fn, arg);
    Guard g;
    int t = nthreads;
    if (t >= MAXT)
        _exit(93);
    point(CREATE, (uint64_t)&T[t], 0);
    Thread &x = T[t];
    x.live = true;
    x.fn = fn;
    x.arg = arg;
    x.next = {START, 0, 0};
    memcpy(x.vc, T[me].vc, sizeof x.vc);
    x.vc[t] = 1;
    T[me].vc[me]++;
    nthreads++;
    int r = real(&x.handle, attr, body, (void *)(intptr_t)t);
    *h = x.handle;
    return r;
}
int pthread_join(pthread_t h, void **ret)
{
    typedef int (*F)(pthread_t, void **);
    F real = (F)dlsym(RTLD_NEXT, "pthread_join");
    if (!on())
        return real(h, ret);
    Guard g;
    for (int i = 1; i < nthreads; i++)
        if (T[i].live && pthread_equal(T[i].handle, h)) {
            point(JOIN, (uint64_t)&T[i], (uint64_t)i);
            joinclk(T[me].vc, T[i].finalvc);
            T[i].live = false;
            real(h, nullptr);
            if (ret)
                *ret = T[i].ret;
            return 0;
        }
    return real(h, ret);
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *)
{
    memset(m, 0, sizeof *m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!on())
        return 0;
    Guard g;
    point(LOCK, (uint64_t)m);
    Obj &o = obj((uint64_t)m);
    if (o.owner == me && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE) {
        fail("a thread locks a mutex it already holds");
        stop(DEADLOCK);
    }
    o.owner = me;
    o.count++;
    acquire(o);
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!on())
        return 0;
    Guard g;
    point(TRYLOCK, (uint64_t)m);
    Obj &o = obj((uint64_t)m);
    if (o.owner >= 0 || o.readers)
        return EBUSY;
    o.owner = me;
    o.count++;
    acquire(o);
    return 0;
}
static int unlock(uint64_t m)
{
    if (!on())
        return 0;
    Guard g;
    point(UNLOCK, m);
    Obj &o = obj(m);
    if (o.owner == me) {
        if (--o.count == 0)
            o.owner = -1;
    } else if (o.readers > 0)
        o.readers--;
    else
        fail("a mutex is unlocked that is not held");
    release(o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlock((uint64_t)m); }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *)
{
    memset(m, 0, sizeof *m);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!on())
        return 0;
    Guard g;
    point(LOCK, (uint64_t)m);
    Obj &o = obj((uint64_t)m);
    o.owner = me;
    o.count = 1;
    acquire(o);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!on())
        return 0;
    Guard g;
    point(RDLOCK, (uint64_t)m);
    Obj &o = obj((uint64_t)m);
    o.readers++;
    acquire(o);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    if (!on())
        return 0;
    Guard g;
    point(TRYLOCK, (uint64_t)m);
    Obj &o = obj((uint64_t)m);
    if (o.owner >= 0)
        return EBUSY;
    o.readers++;
    acquire(o);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return pthread_mutex_trylock((pthread_mutex_t *)m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock((uint64_t)m); }
int pthread_spin_init(pthread_spinlock_t *, int) { return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { return pthread_rwlock_wrlock((pthread_rwlock_t *)m); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return unlock((uint64_t)m); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
    if (!on())
        return timed ? ETIMEDOUT : 0;
    Guard g;
    point(CWAIT, (uint64_t)m, (uint64_t)c);
    Obj &o = obj((uint64_t)m);
    o.owner = -1;
    int count = o.count;
    o.count = 0;
    release(o);
    Obj &k = obj((uint64_t)c);
    T[me].signalled = timed; // a timed wait may end at any time
    if (!timed)
        k.waiters[k.nwait++] = me;
    point(CBLOCKED, (uint64_t)m, (uint64_t)c);
    Obj &o2 = obj((uint64_t)m);
    o2.owner = me;
    o2.count = count;
    acquire(o2);
    return timed ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return condwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return condwait(c, m, true); }
static void wakeone(Obj &k)
{
    if (!k.nwait)
        return;
    T[k.waiters[0]].signalled = true;
    for (int i = 1; i < k.nwait; i++)
        k.waiters[i - 1] = k.waiters[i];
    k.nwait--;
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!on())
        return 0;
    Guard g;
    point(SIGNAL, (uint64_t)c);
    wakeone(obj((uint64_t)c));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!on())
        return 0;
    Guard g;
    point(BCAST, (uint64_t)c);
    Obj &k = obj((uint64_t)c);
    while (k.nwait)
        wakeone(k);
    return 0;
}
int pthread_once(pthread_once_t *ctl, void (*fn)())
{
    if (!on()) {
        if (*ctl != 2) {
            fn();
            *ctl = 2;
        }
        return 0;
    }
    if (*ctl == 2) { // stays so: no more than a look
        Guard g;
        if (look((uint64_t)ctl, true))
            return 0;
        point(ALOAD, (uint64_t)ctl);
        acquire(obj((uint64_t)ctl));
        return 0;
    }
    {
        Guard g;
        point(ONCE, (uint64_t)ctl);
        Obj &o = obj((uint64_t)ctl);
        acquire(o);
        if (*ctl == 2)
            return 0;
        o.owner = me;
    }
    bool ok = false;
    struct Undo {
        pthread_once_t *c;
        bool *ok;
        ~Undo()
        {
            Guard g;
            point(ONCEEND, (uint64_t)c);
            Obj &o = obj((uint64_t)c);
            o.owner = -1;
            if (*ok)
                *c = 2;
            release(o);
        }
    } undo{ctl, &ok};
    fn();
    ok = true;
    return 0;
}
int sem_init(sem_t *s, int, unsigned v)
{
    memset(s, 0, sizeof *s);
    *(unsigned *)s = v;
    return 0;
}
int sched_yield()
{
    if (!on())
        return 0;
    Guard g;
    point(YIELD, 0);
    return 0;
}
int nanosleep(const struct timespec *r, struct timespec *)
{
    if (!on()) {
        raw(SYS_nanosleep, (long)r, 0, 0, 0, 0, 0);
        return 0;
    }
    return sched_yield();
}
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *q) { return nanosleep(r, q); }
int usleep(useconds_t us)
{
    struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    struct timespec t = {(time_t)s, 0};
    nanosleep(&t, nullptr);
    return 0;
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int cmd = (int)b & FUTEX_CMD_MASK;
        Guard g;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            point(FWAIT, (uint64_t)a);
            if (*(int *)a != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            if (d) { // with a time limit: it may end at once
                errno = ETIMEDOUT;
                return -1;
            }
            Obj &k = obj((uint64_t)a);
            T[me].signalled = false;
            k.waiters[k.nwait++] = me;
            point(FBLOCKED, (uint64_t)a);
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            point(FWAKE, (uint64_t)a);
            Obj &k = obj((uint64_t)a);
            int w = 0;
            for (; k.nwait && w < (int)c; w++)
                wakeone(k);
            return w;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- function-local statics
int __cxa_guard_acquire(long long *gd)
{
    if (!on()) {
        if (*(char *)gd)
            return 0;
        return 1;
    }
    Guard g;
    point(GACQ, (uint64_t)gd);
    Obj &o = obj((uint64_t)gd);
    acquire(o);
    if (*(char *)gd)
        return 0;
    o.owner = me;
    return 1;
}
void __cxa_guard_release(long long *gd)
{
    guardSlot((uint64_t)gd, true);
    if (!on()) {
        *(char *)gd = 1;
        return;
    }
    Guard g;
    point(GREL, (uint64_t)gd);
    Obj &o = obj((uint64_t)gd);
    o.owner = -1;
    *(char *)gd = 1;
    release(o);
}
void __cxa_guard_abort(long long *gd)
{
    if (!on())
        return;
    Guard g;
    point(GREL, (uint64_t)gd);
    Obj &o = obj((uint64_t)gd);
    o.owner = -1;
    release(o);
}

// ---------------------------------------------------------------- memory accesses
#define PC __builtin_return_address(0)
#define RW(N)                                                                                       \
    void __tsan_read##N(void *a) { access((uint64_t)a, N, false, false, PC); }                       \
    void __tsan_write##N(void *a) { access((uint64_t)a, N, true, false, PC); }                       \
    void __tsan_unaligned_read##N(void *a) { access((uint64_t)a, N, false, false, PC); }             \
    void __tsan_unaligned_write##N(void *a) { access((uint64_t)a, N, true, false, PC); }             \
    void __tsan_volatile_read##N(void *a) { access((uint64_t)a, N, false, false, PC); }              \
    void __tsan_volatile_write##N(void *a) { access((uint64_t)a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uint64_t)a, n, false, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uint64_t)a, n, true, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void **a) { access((uint64_t)a, 8, false, false, PC); }
void __tsan_vptr_update(void **a, void *v)
{
    if (*a != v)
        access((uint64_t)a, 8, true, false, PC);
}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

static inline bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static inline bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void aread(void *a, size_t n, int o, void *pc)
{
    if (!on() || nthreads < 2)
        return;
    if (n == 1 && *(volatile char *)a && look((uint64_t)a, false))
        return;
    access((uint64_t)a, n, false, true, pc);
    Guard g;
    point(ALOAD, (uint64_t)a);
    if (acq(o))
        acquire(obj((uint64_t)a));
}
static void awrite(void *a, size_t n, int o, bool rmw, void *pc)
{
    if (!on())
        return;
    if (nthreads >= 2) {
        access((uint64_t)a, n, true, true, pc);
        Guard g;
        point(AWRITE, (uint64_t)a);
    }
    Guard g;
    Obj &x = obj((uint64_t)a);
    if (rmw && acq(o))
        acquire(x);
    if (rel(o))
        release(x);
    else if (!rmw)
        memset(x.vc, 0, sizeof x.vc); // a relaxed store publishes nothing
}
#define ATOMIC(B, T)                                                                                \
    T __tsan_atomic##B##_load(const volatile T *a, int o)                                            \
    {                                                                                                \
        aread((void *)a, sizeof(T), o, PC);                                                          \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                \
    void __tsan_atomic##B##_store(volatile T *a, T v, int o)                                         \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, false, PC);                                                  \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int o)                                         \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                          \
    }                                                                                                \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int o)                                        \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                           \
    }                                                                                                \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int o)                                        \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                           \
    }                                                                                                \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int o)                                        \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                           \
    }                                                                                                \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int o)                                         \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                            \
    }                                                                                                \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int o)                                        \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                           \
    }                                                                                                \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int)             \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int)               \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int o, int)                   \
    {                                                                                                \
        awrite((void *)a, sizeof(T), o, true, PC);                                                   \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                \
        return c;                                                                                    \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

// ---------------------------------------------------------------- calls into code that is not instrumented
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    access((uint64_t)s, n, false, false, PC);
    access((uint64_t)d, n, true, false, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    access((uint64_t)s, n, false, false, PC);
    access((uint64_t)d, n, true, false, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
    access((uint64_t)d, n, true, false, PC);
    return __real_memset(d, v, n);
}
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void *, void *, void *);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void *x, void *p, void *h)
{
    access((uint64_t)x, 32, true, false, PC);
    access((uint64_t)p, 32, true, false, PC);
    access((uint64_t)h, 32, true, false, PC);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void *__real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *, void *);
void *__wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *x, void *h)
{
    access((uint64_t)x, 32, true, false, PC);
    access((uint64_t)h, 32, true, false, PC);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(x, h);
}
// strings: functions of the C++ library that are not instantiated here
struct Str {
    char *p;
    size_t n;
};
#define SR(s, pc) (access((uint64_t)(s), 16, false, false, pc), access((uint64_t)((Str *)(s))->p, ((Str *)(s))->n, false, false, pc))
#define SW(s, pc) (access((uint64_t)(s), 16, true, false, pc), access((uint64_t)((Str *)(s))->p, ((Str *)(s))->n, true, false, pc))
void __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void *, const void *);
void __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void *t, const void *o)
{
    SR(o, PC);
    SW(t, PC);
    __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(t, o);
}
void *__real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(void *, const char *, size_t);
void *__wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(void *t, const char *o, size_t n)
{
    access((uint64_t)o, n, false, false, PC);
    SW(t, PC);
    return __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(t, o, n);
}
void *__real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void *, size_t, size_t, const char *, size_t);
void *__wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void *t, size_t a, size_t b, const char *o, size_t n)
{
    access((uint64_t)o, n, false, false, PC);
    SW(t, PC);
    return __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(t, a, b, o, n);
}
void __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm(void *, size_t, size_t, const char *, size_t);
void __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm(void *t, size_t a, size_t b, const char *o, size_t n)
{
    if (o)
        access((uint64_t)o, n, false, false, PC);
    SW(t, PC);
    __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm(t, a, b, o, n);
}
void __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4swapERS4_(void *, void *);
void __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4swapERS4_(void *t, void *o)
{
    SW(t, PC);
    SW(o, PC);
    __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4swapERS4_(t, o);
}
// the big-number functions: R(n bytes) read, W written
#define R(p, n) access((uint64_t)(p), n, false, false, PC)
#define W(p, n) access((uint64_t)(p), n, true, false, PC)
#define BIN(F, A, B, O, RET)                                                                        \
    RET __real_##F(uint64_t *, uint64_t *, uint64_t *);                                              \
    RET __wrap_##F(uint64_t *a, uint64_t *b, uint64_t *o)                                            \
    {                                                                                                \
        R(a, A);                                                                                     \
        R(b, B);                                                                                     \
        W(o, O);                                                                                     \
        return __real_##F(a, b, o);                                                                  \
    }
BIN(Hacl_Bignum4096_add, 512, 512, 512, uint64_t)
BIN(Hacl_Bignum4096_sub, 512, 512, 512, uint64_t)
BIN(Hacl_Bignum4096_mul, 512, 512, 1024, void)
BIN(Hacl_Bignum4096_mod, 512, 1024, 512, bool)
BIN(Hacl_Bignum256_add, 32, 32, 32, uint64_t)
BIN(Hacl_Bignum256_sub, 32, 32, 32, uint64_t)
BIN(Hacl_Bignum256_mul, 32, 32, 64, void)
BIN(Hacl_Bignum256_mod, 32, 64, 32, bool)
#define CTX2(F, A, O)                                                                               \
    void __real_##F(void *, uint64_t *, uint64_t *);                                                 \
    void __wrap_##F(void *k, uint64_t *a, uint64_t *o)                                               \
    {                                                                                                \
        R(a, A);                                                                                     \
        W(o, O);                                                                                     \
        __real_##F(k, a, o);                                                                         \
    }
CTX2(Hacl_Bignum4096_mod_precomp, 1024, 512)
CTX2(Hacl_Bignum256_mod_precomp, 64, 32)
CTX2(Hacl_GenericField64_to_field, 512, 512)
CTX2(Hacl_GenericField64_from_field, 512, 512)
#define CTX3(F, A, B, O)                                                                            \
    void __real_##F(void *, uint64_t *, uint64_t *, uint64_t *);                                     \
    void __wrap_##F(void *k, uint64_t *a, uint64_t *b, uint64_t *o)                                  \
    {                                                                                                \
        R(a, A);                                                                                     \
        R(b, B);                                                                                     \
        W(o, O);                                                                                     \
        __real_##F(k, a, b, o);                                                                      \
    }
CTX3(Hacl_GenericField64_mul, 512, 512, 512)
#define EXPP(F, N)                                                                                  \
    void __real_##F(void *, uint64_t *, uint32_t, uint64_t *, uint64_t *);                           \
    void __wrap_##F(void *k, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *o)                   \
    {                                                                                                \
        R(a, N);                                                                                     \
        R(b, ((bits + 63) / 64) * 8);                                                                \
        W(o, N);                                                                                     \
        __real_##F(k, a, bits, b, o);                                                                \
    }
EXPP(Hacl_Bignum4096_mod_exp_consttime_precomp, 512)
EXPP(Hacl_Bignum4096_mod_exp_vartime_precomp, 512)
EXPP(Hacl_Bignum256_mod_exp_consttime_precomp, 32)
EXPP(Hacl_Bignum256_mod_exp_vartime_precomp, 32)
#define LT(F, N)                                                                                    \
    uint64_t __real_##F(uint64_t *, uint64_t *);                                                     \
    uint64_t __wrap_##F(uint64_t *a, uint64_t *b)                                                    \
    {                                                                                                \
        R(a, N);                                                                                     \
        R(b, N);                                                                                     \
        return __real_##F(a, b);                                                                     \
    }
LT(Hacl_Bignum4096_lt_mask, 512)
LT(Hacl_Bignum256_lt_mask, 32)
#define TOB(F, N)                                                                                   \
    void __real_##F(uint64_t *, uint8_t *);                                                          \
    void __wrap_##F(uint64_t *a, uint8_t *o)                                                         \
    {                                                                                                \
        R(a, N);                                                                                     \
        W(o, N);                                                                                     \
        __real_##F(a, o);                                                                            \
    }
TOB(Hacl_Bignum4096_bn_to_bytes_be, 512)
TOB(Hacl_Bignum256_bn_to_bytes_be, 32)
void __real_Lib_Memzero0_memzero(void *, uint64_t);
void __wrap_Lib_Memzero0_memzero(void *a, uint64_t n)
{
    W(a, n);
    __real_Lib_Memzero0_memzero(a, n);
}
uint32_t __real_Hacl_Streaming_SHA2_update_256(void *, uint8_t *, uint32_t);
uint32_t __wrap_Hacl_Streaming_SHA2_update_256(void *s, uint8_t *d, uint32_t n)
{
    R(d, n);
    W(s, 8); // the hash state belongs to one thread at a time
    return __real_Hacl_Streaming_SHA2_update_256(s, d, n);
}
void __real_Hacl_Streaming_SHA2_finish_256(void *, uint8_t *);
void __wrap_Hacl_Streaming_SHA2_finish_256(void *s, uint8_t *d)
{
    W(d, 32);
    W(s, 8);
    __real_Hacl_Streaming_SHA2_finish_256(s, d);
}
}

// ---------------------------------------------------------------- randomness that repeats
static int rndfd = -1;
static uint64_t rndctr[MAXT]; // per thread: no thread's values depend on the schedule
static uint64_t clkctr[MAXT];
static void rnd(void *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        uint64_t x = ++rndctr[me] * 0x9E3779B97F4A7C15ull + (uint64_t)me * 0xD1B54A32D192ED03ull;
        x ^= x >> 31;
        x *= 0x94D049BB133111EBull;
        x ^= x >> 29;
        ((uint8_t *)b)[i] = (uint8_t)(x >> 24);
    }
}
extern "C" {
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    long r = raw(SYS_openat, -100, (long)path, flags, mode, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))
        rndfd = (int)r;
    return (int)r;
}
int close(int fd)
{
    if (fd == rndfd)
        rndfd = -1;
    long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (fd == rndfd && fd >= 0) {
        rnd(b, n);
        return (ssize_t)n;
    }
    long r = raw(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (active) {
        uint64_t k = clkctr[me]++;
        t->tv_sec = (time_t)(1700000000 + k / 1000);
        t->tv_nsec = (long)(k % 1000) * 1000000;
        return 0;
    }
    long r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}
time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out)
        *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned)
{
    rnd(b, n);
    return (ssize_t)n;
}
}

// ---------------------------------------------------------------- allocation
extern "C" size_t malloc_usable_size(void *);
static void *take(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p)
        abort();
    if (active) {
        int k = inside++;
        forget((uint64_t)p, malloc_usable_size(p));
        inside = k;
    }
    return p;
}
extern "C" size_t malloc_usable_size(void *);
static void give(void *p, void *pc)
{
    if (!p)
        return;
    if (active && nthreads > 1 && !inside) {
        size_t n = malloc_usable_size(p);
        // releasing memory conflicts with every access to it
        access((uint64_t)p, n > 4096 ? 4096 : n, true, false, pc);
        inside++;
        forget((uint64_t)p, n);
        inside--;
    }
    free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p, PC); }
void operator delete[](void *p) noexcept { give(p, PC); }
void operator delete(void *p, size_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t) noexcept { give(p, PC); }
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void *p)
{
    if (p && active && !inside) {
        inside++;
        forget((uint64_t)p, malloc_usable_size(p));
        inside--;
    }
    __real_free(p);
}
