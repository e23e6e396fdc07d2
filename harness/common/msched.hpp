/*
 * Controlled scheduler: runs the real library's threads as fibers of one
 * process and explores their schedules.
 *
 * The library is compiled with thread-sanitizer instrumentation, but linked
 * against the functions below instead of the sanitizer's runtime, and the
 * pthread functions it calls are wrapped.  So every synchronisation and every
 * memory access of the library comes through here:
 *
 * - mutex acquisition, atomic accesses to locations more than one thread
 *   uses, thread creation and blocking are the points where another thread
 *   may be chosen.  Between two of them a thread runs alone, which is no loss
 *   as long as there are no data races;
 * - data races are looked for in every execution, by vector clocks;
 * - time is virtual: a timed wait may expire whenever nothing else can run,
 *   or (as a deviation) at any other point.
 *
 * A schedule is the default one (keep running the current thread, else the
 * lowest numbered one that can) plus a list of deviations (run another
 * thread, let a wait time out, wake a wait spuriously).  All schedules with
 * at most `bound` deviations are explored by depth first search.
 *
 * Memory allocated during an execution comes from per-thread arenas that are
 * never reused within it, which makes addresses reproducible and any access
 * to freed or reallocated memory detectable.
 *
 * Include from one source file only; link with MS_WRAPS.
 */
#ifndef VERIF_MSCHED_HPP
#define VERIF_MSCHED_HPP

#include <errno.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "mc.hpp"

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_poll(struct pollfd *, nfds_t, int);
void __real___assert_fail(const char *, const char *, unsigned, const char *)
    __attribute__((noreturn));
void ms_switch(void **save, void *load);
extern char __executable_start;
}
asm(".text\n.globl ms_switch\n.type ms_switch,@function\nms_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size ms_switch,.-ms_switch\n");

namespace ms {

static const int MAXF = 12;
static const size_t STACK = 512 * 1024;
static const size_t ARENA = 8u << 20;

struct VC {
    uint32_t c[MAXF];
    void clear() { memset(c, 0, sizeof(c)); }
    void join(const VC &o)
    {
        for (int i = 0; i < MAXF; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum St { RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_POLL, B_IDLE, DONE };
static const char *const stname[] = {"runnable", "waiting for a mutex",
                                     "waiting for a condition", "joining",
                                     "sleeping", "polling",
                                     "waiting for nothing to happen", "finished"};

struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    int id = 0;
    St st = DONE;
    void *obj = nullptr; /* mutex, condition or fiber waited for */
    void *mutex = nullptr; /* to reacquire after a condition */
    bool timed = false, timedout = false;
    int64_t deadline = 0; /* virtual ns */
    struct pollfd *pfd = nullptr;
    nfds_t npfd = 0;
    std::function<void()> fn;
    VC vc;
    bool detached = false;
    int tag = 0; /* for the harness */
};

struct Mutex {
    int owner = -1;
    VC vc;
};
struct Atom {
    VC vc;
};

/* A_EXPIRE: its time is over, but it does not get the mutex yet */
enum AltKind { A_RUN = 0, A_TIMEOUT = 1, A_SPURIOUS = 2, A_EXPIRE = 3 };
struct Dev {
    uint32_t step;
    uint8_t kind, th;
};
typedef std::vector<Dev> Devs;
struct Branch {
    uint32_t step;
    uint8_t kind, th;
};

/* ------------------------------------------------------------- shadow */
struct Cell {
    uint8_t th, mask, write, atomic;
    uint32_t clk;
    void *pc;
};
struct Shadow {
    uint64_t key;
    uint32_t gen;
    uint8_t n, freed;
    Cell c[6];
};
static const uint32_t SHBITS = 17;

struct Cfg {
    int bound = 2;
    bool spurious = true;
    bool races = true;
    uint32_t fair = 24;        /* forced switch after this many points */
    uint32_t maxsteps = 20000; /* longer executions count as not ending */
    int idle = 40;             /* timeouts in a row with nothing else running */
    int pthread_fail = -1;     /* which pthread_create fails */
    int64_t alloc_fail = -1;   /* which allocation fails (of thread af_th) */
    int spin_tick_ms = 30;
    bool pthread_fail_all = false;
    bool spurious_main = false;
    bool unlock_points = false; /* switches also right after an unlock */
};

struct Sched {
    bool active = false;
    Cfg cfg;
    Fiber f[MAXF];
    int nf = 0, cur = 0;
    void *main_sp = nullptr;
    int64_t now = 0, ticks = 0;
    uint32_t step = 0, lastdev = 0, runlen = 0, quiet = 0;
    int idle = 0;
    const Devs *devs = nullptr;
    size_t devpos = 0;
    std::vector<Branch> *branches = nullptr;
    std::unordered_map<void *, Mutex> mutexes;
    std::unordered_map<uintptr_t, Atom> atoms;
    /* which threads use an atomic location: bit mask, plus written */
    std::unordered_map<uintptr_t, uint32_t> used;
    /* locations that are points, and those found to be shared */
    std::unordered_set<uintptr_t> shared, found;
    bool sharedgrew = false, stopgrow = false;
    std::vector<std::pair<uintptr_t, uintptr_t>> ignore;
    std::string viol; /* of this execution */
    bool hung = false, aborted = false;
    char *arena[MAXF] = {};
    size_t apos[MAXF] = {};
    int64_t nlive = 0, nalloc = 0;
    int ncreate = 0;
    std::vector<std::pair<uintptr_t, uintptr_t>> bigfreed;
    Shadow *sh = nullptr;
    uint32_t gen = 0;
    uint64_t execs = 0, points = 0;
    std::vector<uint8_t> trace; /* chosen threads, for the report */
    bool nosched = false;
    uint64_t fails_injected = 0;

    Fiber &me() { return f[cur]; }
};
static Sched S;

static inline std::string devtext(const Devs &d)
{
    std::string s;
    for (auto &x : d)
        s += mc::fmt("%s%s@%u:T%d", s.empty() ? "" : " ",
                     x.kind == A_RUN       ? "run"
                     : x.kind == A_TIMEOUT ? "timeout"
                     : x.kind == A_EXPIRE  ? "expire"
                                           : "spurious",
                     x.step, x.th);
    return s.empty() ? "default schedule" : s;
}

static inline void leave_execution() __attribute__((noreturn));
static inline void leave_execution()
{
    void *dummy;
    S.aborted = true;
    S.active = false;
    ms_switch(&dummy, S.main_sp);
    abort();
}
/* a violation that makes going on pointless */
static inline void fatal(const std::string &s) __attribute__((noreturn));
static inline void fatal(const std::string &s)
{
    if (S.viol.empty())
        S.viol = s;
    leave_execution();
}
static inline void complain(const std::string &s)
{
    if (S.viol.empty())
        S.viol = s;
}

static inline bool runnable(Fiber &x)
{
    switch (x.st) {
    case RUN:
        return true;
    case B_MUTEX: {
        auto it = S.mutexes.find(x.obj);
        return it == S.mutexes.end() || it->second.owner < 0;
    }
    case B_JOIN:
        return S.f[(intptr_t)x.obj].st == DONE;
    case B_POLL:
        return __real_poll(x.pfd, x.npfd, 0) != 0;
    default:
        return false;
    }
}
static inline void take(void *m, Fiber &x)
{
    Mutex &mu = S.mutexes[m];
    mu.owner = x.id;
    x.vc.join(mu.vc);
}
/* make the chosen thread runnable and switch to it */
static inline void go(int t)
{
    Fiber &x = S.f[t];
    if (x.st == B_MUTEX)
        take(x.obj, x);
    else if (x.st == B_JOIN)
        x.vc.join(S.f[(intptr_t)x.obj].vc);
    x.st = RUN;
    int from = S.cur;
    if (from == t)
        return;
    S.runlen = 0;
    S.cur = t;
    ms_switch(&S.f[from].sp, x.sp);
}
static inline void expire(Fiber &x)
{
    if (x.deadline > S.now)
        S.now = x.deadline;
    x.timedout = true;
    if (x.st == B_COND) {
        x.st = B_MUTEX;
        x.obj = x.mutex;
    } else {
        x.st = RUN;
    }
}
static inline void apply(uint8_t kind, Fiber &x)
{
    if (kind == A_TIMEOUT || kind == A_EXPIRE)
        expire(x);
    else if (kind == A_SPURIOUS) {
        x.st = B_MUTEX;
        x.obj = x.mutex;
    }
}
static inline bool timeoutable(Fiber &x)
{
    return (x.st == B_COND || x.st == B_SLEEP || x.st == B_POLL) && x.timed;
}

/*
 * A point where another thread may be chosen.  The current thread's state
 * says whether it can go on.
 */
static inline void point()
{
    S.points++;
    S.quiet = 0;
    uint32_t step = ++S.step;
    if (step > S.cfg.maxsteps) {
        S.hung = true;
        fatal("the execution does not come to an end");
    }
    int cur = S.cur;
    bool can = runnable(S.f[cur]);
    S.runlen++;
    /* default choice */
    int choice = -1;
    bool forced_time = false;
    if (can && S.runlen <= S.cfg.fair)
        choice = cur;
    else {
        for (int k = 1; k < S.nf && choice < 0; k++) {
            int t = (cur + k) % S.nf;
            if (S.f[t].st != DONE && runnable(S.f[t]))
                choice = t;
        }
        /* nothing (else) can run: let time pass */
        if (choice < 0) {
            int best = -1;
            for (int t = 0; t < S.nf; t++)
                if (timeoutable(S.f[t]) &&
                    (best < 0 || S.f[t].deadline < S.f[best].deadline))
                    best = t;
            if (can)
                S.runlen = 0;
            if (best < 0 && can)
                choice = cur;
            else if (best < 0) {
                bool all = true;
                for (int t = 0; t < S.nf; t++)
                    all = all && S.f[t].st == DONE;
                if (all)
                    leave_execution();
            }
            bool stuck = choice < 0 && (best < 0 || (!can && ++S.idle > S.cfg.idle));
            if (stuck) {
                for (int t = 0; t < S.nf && stuck; t++)
                    if (S.f[t].st == B_IDLE) {
                        S.f[t].st = RUN;
                        S.idle = 0;
                        choice = t;
                        forced_time = true;
                        stuck = false;
                    }
            }
            if (stuck) {
                std::string d =
                    best < 0 ? "deadlock:" : "no thread makes progress:";
                for (int t = 0; t < S.nf; t++)
                    d += mc::fmt(" T%d is %s%s;", t, stname[S.f[t].st],
                                 timeoutable(S.f[t]) ? " with a timeout" : "");
                S.hung = true;
                fatal(d);
            }
            if (choice < 0) {
                expire(S.f[best]);
                forced_time = true;
                choice = runnable(S.f[best]) ? best : can ? cur : -1;
                if (choice < 0) {
                    /* its mutex is held by a thread that is blocked */
                    S.step--;
                    point();
                    return;
                }
            }
        }
    }
    /* deviation */
    bool deviated = false;
    if (S.devs && S.devpos < S.devs->size() &&
        (*S.devs)[S.devpos].step == step) {
        const Dev &d = (*S.devs)[S.devpos++];
        Fiber &x = S.f[d.th];
        apply(d.kind, x);
        deviated = true;
        if (runnable(x) && d.kind != A_EXPIRE)
            choice = d.th;
        S.lastdev = step;
        S.idle = 0;
    }
    if (!deviated && S.branches && (!S.devs || S.devpos >= S.devs->size()) &&
        !forced_time) {
        for (int t = 0; t < S.nf; t++) {
            Fiber &x = S.f[t];
            if (x.st == DONE || t == choice)
                continue;
            if (runnable(x))
                S.branches->push_back({step, A_RUN, (uint8_t)t});
            else if (x.st == B_COND || x.st == B_SLEEP || x.st == B_POLL) {
                bool mfree = true;
                if (x.st == B_COND) {
                    auto it = S.mutexes.find(x.mutex);
                    mfree = it == S.mutexes.end() || it->second.owner < 0;
                }
                if (x.timed && mfree)
                    S.branches->push_back({step, A_TIMEOUT, (uint8_t)t});
                if (x.timed && x.st == B_COND && choice >= 0 &&
                    S.f[choice].st != B_IDLE)
                    S.branches->push_back({step, A_EXPIRE, (uint8_t)t});
                if (x.st == B_COND && S.cfg.spurious && mfree && (t > 0 || S.cfg.spurious_main))
                    S.branches->push_back({step, A_SPURIOUS, (uint8_t)t});
            }
        }
    }
    if (S.trace.size() < 4000)
        S.trace.push_back((uint8_t)choice);
    go(choice);
}

/* --------------------------------------------------------------- fibers */
static inline void fiber_main()
{
    Fiber &x = S.me();
    x.fn();
    x.fn = nullptr;
    x.st = DONE;
    x.vc.c[x.id]++;
    S.idle = 0;
    point();
    abort();
}
static inline int new_fiber(std::function<void()> fn)
{
    if (S.nf >= MAXF)
        fatal("too many threads for the harness");
    int id = S.nf++;
    Fiber &x = S.f[id];
    if (!x.stack) {
        x.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        S.arena[id] = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                   -1, 0);
    }
    S.apos[id] = 0;
    x.id = id;
    x.st = RUN;
    x.timed = x.timedout = x.detached = false;
    x.tag = 0;
    x.fn = std::move(fn);
    x.vc.clear();
    x.vc.c[id] = 1;
    void **top = (void **)(x.stack + STACK - 64);
    *--top = nullptr; /* alignment */
    *--top = (void *)fiber_main;
    for (int i = 0; i < 6; i++)
        *--top = nullptr;
    x.sp = top;
    return id;
}
static inline int spawn(std::function<void()> fn)
{
    Fiber &p = S.me();
    int id = new_fiber(std::move(fn));
    S.f[id].vc.join(p.vc);
    S.f[id].vc.c[id] = 1;
    p.vc.c[p.id]++;
    S.idle = 0;
    point();
    return id;
}
static inline void join(int id)
{
    S.me().st = B_JOIN;
    S.me().obj = (void *)(intptr_t)id;
    point();
}
static inline void yield() { point(); }
/* until nothing but timeouts can happen any more */
static inline void wait_idle()
{
    S.me().st = B_IDLE;
    point();
}

/* run one execution; false when there was a violation */
static inline bool execute(const std::function<void()> &fn, const Devs &devs,
                           std::vector<Branch> *br)
{
    S.execs++;
    S.gen++;
    if (!S.sh)
        S.sh = (Shadow *)mmap(nullptr, sizeof(Shadow) << SHBITS,
                              PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S.nf = 0;
    S.cur = 0;
    S.now = 1000000000000ll;
    S.ticks = 0;
    S.step = S.lastdev = S.runlen = 0;
    S.idle = 0;
    S.devs = &devs;
    S.devpos = 0;
    S.branches = br;
    S.mutexes.clear();
    S.atoms.clear();
    S.used.clear();
    S.viol.clear();
    S.hung = S.aborted = false;
    S.nlive = S.nalloc = 0;
    S.ncreate = 0;
    S.bigfreed.clear();
    S.trace.clear();
    if (br)
        br->clear();
    new_fiber(fn);
    S.active = true;
    ms_switch(&S.main_sp, S.f[0].sp);
    S.active = false;
    for (int i = 0; i < S.nf; i++)
        S.f[i].fn = nullptr;
    if (S.viol.empty() && S.devpos < devs.size())
        S.viol = "harness: execution is not reproducible";
    return S.viol.empty();
}

/* ------------------------------------------------------------ races */
static inline bool ignored(uintptr_t a)
{
    for (auto &r : S.ignore)
        if (a >= r.first && a < r.second)
            return true;
    return false;
}
static inline Shadow *shadow(uintptr_t g, bool create)
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS));
    for (uint32_t k = 0; k < 64; k++) {
        Shadow *s = &S.sh[(h + k) & ((1u << SHBITS) - 1)];
        if (s->gen == S.gen) {
            if (s->key == g)
                return s;
            continue;
        }
        if (!create)
            return nullptr;
        s->gen = S.gen;
        s->key = g;
        s->n = 0;
        s->freed = 0;
        return s;
    }
    return nullptr; /* table full: this location is not looked at */
}
std::string where(void *pc);
static inline void race(Shadow *s, const Cell &o, bool write, bool atomic,
                        void *pc, uintptr_t a)
{
    if (!S.viol.empty() || ignored(a))
        return;
    complain(mc::fmt("data race: T%d %s%s at %s, T%d %s%s at %s", o.th,
                     o.atomic ? "atomic " : "", o.write ? "write" : "read",
                     where(o.pc).c_str(), S.cur, atomic ? "atomic " : "",
                     write ? "write" : "read", where(pc).c_str()));
    (void)s;
}
static inline void access1(uintptr_t g, uint8_t mask, bool write, bool atomic,
                           void *pc)
{
    Shadow *s = shadow(g, true);
    if (!s)
        return;
    if (s->freed & mask)
        fatal(mc::fmt("T%d uses freed memory at %s", S.cur, where(pc).c_str()));
    if (!S.cfg.races)
        return;
    Fiber &x = S.me();
    int slot = -1;
    for (int i = 0; i < s->n; i++) {
        Cell &o = s->c[i];
        if (o.th == x.id) {
            if (o.mask == mask && o.write == write && o.atomic == atomic)
                slot = i;
            continue;
        }
        if (!(o.mask & mask) || (!o.write && !write) || (o.atomic && atomic))
            continue;
        if (o.clk > x.vc.c[o.th]) {
            race(s, o, write, atomic, pc, g << 3);
        }
    }
    if (slot < 0) {
        if (s->n < 6)
            slot = s->n++;
        else {
            static uint8_t rr;
            slot = rr++ % 6;
        }
    }
    s->c[slot] = Cell{(uint8_t)x.id, mask, write, atomic, x.vc.c[x.id], pc};
}
static inline void access(const void *p, size_t n, bool write, bool atomic,
                          void *pc)
{
    if (!S.active)
        return;
    uintptr_t a = (uintptr_t)p;
    Fiber &x = S.me();
    if (a - (uintptr_t)x.stack < STACK)
        return;
    /* a loop without any point must not keep others from running */
    if (++S.quiet > 4000) {
        S.runlen = S.cfg.fair;
        point();
    }
    for (auto &b : S.bigfreed)
        if (a < b.second && a + n > b.first)
            fatal(mc::fmt("T%d uses freed memory at %s", S.cur,
                          where(pc).c_str()));
    uintptr_t e = a + n;
    if (n > 512) {
        access(p, 64, write, atomic, pc);
        a = e - 64;
    }
    while (a < e) {
        uintptr_t g = a >> 3;
        unsigned lo = a & 7;
        uintptr_t ge = std::min<uintptr_t>(e, (g + 1) << 3);
        unsigned cnt = (unsigned)(ge - a);
        access1(g, (uint8_t)(((1u << cnt) - 1) << lo), write, atomic, pc);
        a = ge;
    }
}
/* an atomic operation is about to happen */
static inline void atomic_pre(const volatile void *p, bool write)
{
    if (!S.active)
        return;
    uintptr_t a = (uintptr_t)p & ~(uintptr_t)7;
    if (++S.quiet > 4000) {
        S.runlen = S.cfg.fair;
        point();
    }
    uint32_t &u = S.used[a];
    u |= 1u << S.cur;
    if (write)
        u |= 0x80000000u;
    if ((u & 0x80000000u) && __builtin_popcount(u) > 2 && !ignored((uintptr_t)p)) {
        if (!S.shared.count(a)) {
            S.found.insert(a);
            S.sharedgrew = true;
        }
    }
    if (S.shared.count(a))
        point();
}
static inline void acq(const volatile void *p, int mo)
{
    if (S.active && (mo == 1 || mo == 2 || mo >= 4)) {
        auto it = S.atoms.find((uintptr_t)p);
        if (it != S.atoms.end())
            S.me().vc.join(it->second.vc);
    }
}
static inline void rel(const volatile void *p, int mo)
{
    if (S.active && mo >= 3) {
        Fiber &x = S.me();
        S.atoms[(uintptr_t)p].vc.join(x.vc);
        x.vc.c[x.id]++;
    }
}

/* ------------------------------------------------------------ memory */
struct Hdr {
    uint64_t size;
    uint64_t magic; /* 1 live, 2 freed */
};
static inline bool in_arena(const void *p, int *who = nullptr)
{
    for (int i = 0; i < MAXF; i++)
        if (S.arena[i] && (char *)p >= S.arena[i] && (char *)p < S.arena[i] + ARENA) {
            if (who)
                *who = i;
            return true;
        }
    return false;
}
static inline void *arena_alloc(size_t n)
{
    if (S.cfg.alloc_fail >= 0 && S.nalloc++ == S.cfg.alloc_fail) {
        S.fails_injected++;
        return nullptr;
    }
    int t = S.cur;
    size_t need = (n + sizeof(Hdr) + 31) & ~(size_t)15;
    if (S.apos[t] + need > ARENA)
        fatal("the harness's arena is exhausted");
    Hdr *h = (Hdr *)(S.arena[t] + S.apos[t]);
    S.apos[t] += need;
    h->size = n;
    h->magic = 1;
    S.nlive++;
    memset(h + 1, 0xa5, n < 4096 ? n : 4096);
    return h + 1;
}
static inline void arena_free(void *p)
{
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != 1)
        fatal("double or invalid free");
    h->magic = 2;
    S.nlive--;
    /* freeing is a write: whoever still uses it races */
    if (h->size > 4096)
        S.bigfreed.push_back({(uintptr_t)p, (uintptr_t)p + h->size});
    else {
        uintptr_t a = (uintptr_t)p, e = a + h->size;
        for (uintptr_t g = a >> 3; g << 3 < e; g++) {
            Shadow *s = shadow(g, true);
            if (!s)
                continue;
            uintptr_t ge = std::min<uintptr_t>(e, (g + 1) << 3);
            s->freed |= (uint8_t)((1u << (ge - (g << 3))) - 1);
        }
    }
}

struct Result {
    uint64_t execs = 0, points = 0;
    bool ok = true;
    std::string viol;
    Devs devs;
};

/*
 * Explore all schedules of `fn` with at most `bound` deviations.  `check` is
 * called after each execution that ended and returns a violation or "".
 * Only deviations number `shard` modulo `nshards` are followed at the first
 * level.
 */
static inline bool dfs(const std::function<void()> &fn,
                       const std::function<std::string()> &check, Devs &devs,
                       int left, int shard, int nshards, Result &r,
                       mc::Explorer *X)
{
    std::vector<Branch> br;
    bool ok = execute(fn, devs, left > 0 ? &br : nullptr);
    r.execs++;
    r.points += S.step;
    if (X && (r.execs & 63) == 0)
        X->beat();
    std::string v = ok ? check() : S.viol;
    if (ok && v.empty() && !S.viol.empty())
        v = S.viol;
    if (!v.empty()) {
        r.ok = false;
        r.viol = v;
        r.devs = devs;
        return false;
    }
    if (left <= 0 || (S.sharedgrew && S.stopgrow))
        return true;
    uint32_t i = 0;
    for (auto &b : br) {
        if (nshards > 1 && (int)(i++ % (uint32_t)nshards) != shard)
            continue;
        devs.push_back(Dev{b.step, b.kind, b.th});
        bool o = dfs(fn, check, devs, left - 1, 0, 1, r, X);
        devs.pop_back();
        if (!o)
            return false;
        if (S.sharedgrew && S.stopgrow)
            break;
    }
    return true;
}
static inline Result explore(const std::function<void()> &fn,
                             const std::function<std::string()> &check,
                             int shard, int nshards, mc::Explorer *X)
{
    Result r;
    Devs d;
    /*
     * Which locations are shared is found out on the way: the search starts
     * again with more points whenever another one shows up.
     */
    S.found.clear();
    for (int round = 0; round < 40; round++) {
        S.sharedgrew = false;
        S.stopgrow = round < 39;
        S.shared = S.found;
        d.clear();
        r = Result();
        dfs(fn, check, d, S.cfg.bound, shard, nshards, r, X);
        if (!r.ok || !S.sharedgrew)
            break;
    }
    return r;
}

std::string where(void *pc)
{
    if (!pc)
        return "?";
    char cmd[300];
    char exe[200];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    if (n <= 0)
        return mc::fmt("%p", pc);
    exe[n] = 0;
    snprintf(cmd, sizeof(cmd), "llvm-symbolizer-18 -e %s 0x%lx 2>/dev/null", exe,
             (unsigned long)((char *)pc - 1 - &__executable_start));
    FILE *f = popen(cmd, "r");
    std::string s;
    char b[300];
    for (int i = 0; f && i < 2 && fgets(b, sizeof(b), f); i++) {
        std::string l = b;
        while (!l.empty() && l.back() == '\n')
            l.pop_back();
        size_t q = l.rfind('/');
        if (i == 1 && q != std::string::npos)
            l = l.substr(q + 1);
        s += (i ? " " : "") + l;
    }
    if (f)
        pclose(f);
    return s.empty() ? mc::fmt("%p", pc) : s;
}

} // namespace ms

/* --------------------------------------------------- instrumentation */
extern "C" {
#define MS_PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define MS_RW(n)                                                              \
    void __tsan_read##n(void *p) { ms::access(p, n, false, false, MS_PC); }   \
    void __tsan_write##n(void *p) { ms::access(p, n, true, false, MS_PC); }   \
    void __tsan_unaligned_read##n(void *p)                                    \
    {                                                                         \
        ms::access(p, n, false, false, MS_PC);                                \
    }                                                                         \
    void __tsan_unaligned_write##n(void *p)                                   \
    {                                                                         \
        ms::access(p, n, true, false, MS_PC);                                 \
    }                                                                         \
    void __tsan_read_write##n(void *p)                                        \
    {                                                                         \
        ms::access(p, n, true, false, MS_PC);                                 \
    }
MS_RW(1) MS_RW(2) MS_RW(4) MS_RW(8) MS_RW(16)
void __tsan_read_range(void *p, unsigned long n)
{
    ms::access(p, n, false, false, MS_PC);
}
void __tsan_write_range(void *p, unsigned long n)
{
    ms::access(p, n, true, false, MS_PC);
}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    ms::access(s, n, false, false, MS_PC);
    ms::access(d, n, true, false, MS_PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    ms::access(s, n, false, false, MS_PC);
    ms::access(d, n, true, false, MS_PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    ms::access(d, n, true, false, MS_PC);
    return memset(d, c, n);
}
#define MS_ATOMIC(bits, T)                                                    \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo)                 \
    {                                                                         \
        ms::atomic_pre(p, false);                                             \
        ms::access((const void *)p, sizeof(T), false, true, MS_PC);           \
        ms::acq(p, mo);                                                       \
        return *p;                                                            \
    }                                                                         \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo)              \
    {                                                                         \
        ms::atomic_pre(p, true);                                              \
        ms::access((void *)p, sizeof(T), true, true, MS_PC);                  \
        *p = v;                                                               \
        ms::rel(p, mo);                                                       \
    }                                                                         \
    MS_RMW(bits, T, exchange, v)                                              \
    MS_RMW(bits, T, fetch_add, (T)(o + v))                                    \
    MS_RMW(bits, T, fetch_sub, (T)(o - v))                                    \
    MS_RMW(bits, T, fetch_and, (T)(o & v))                                    \
    MS_RMW(bits, T, fetch_or, (T)(o | v))                                     \
    MS_RMW(bits, T, fetch_xor, (T)(o ^ v))                                    \
    MS_RMW(bits, T, fetch_nand, (T)(~(o & v)))                                \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v,     \
                                                 int mo, int fmo)             \
    {                                                                         \
        ms::atomic_pre(p, true);                                              \
        ms::access((void *)p, sizeof(T), true, true, MS_PC);                  \
        T o = *p;                                                             \
        if (o == c) {                                                         \
            ms::acq(p, mo);                                                   \
            *p = v;                                                           \
            ms::rel(p, mo);                                                   \
        } else                                                                \
            ms::acq(p, fmo);                                                  \
        return o;                                                             \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_strong(                        \
        volatile T *p, T *c, T v, int mo, int fmo)                            \
    {                                                                         \
        T o = __tsan_atomic##bits##_compare_exchange_val(p, *c, v, mo, fmo);  \
        int r = o == *c;                                                      \
        *c = o;                                                               \
        return r;                                                             \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, \
                                                    int mo, int fmo)          \
    {                                                                         \
        return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo,     \
                                                             fmo);            \
    }
#define MS_RMW(bits, T, op, expr)                                             \
    T __tsan_atomic##bits##_##op(volatile T *p, T v, int mo)                  \
    {                                                                         \
        ms::atomic_pre(p, true);                                              \
        ms::access((void *)p, sizeof(T), true, true, MS_PC);                  \
        ms::acq(p, mo);                                                       \
        T o = *p;                                                             \
        *p = expr;                                                            \
        ms::rel(p, mo);                                                       \
        return o;                                                             \
    }
MS_ATOMIC(8, uint8_t)
MS_ATOMIC(16, uint16_t)
MS_ATOMIC(32, uint32_t)
MS_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

/* ------------------------------------------------------------ pthread */
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *)
{
    if (ms::S.active)
        ms::S.mutexes[m] = ms::Mutex();
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!ms::S.active)
        return 0;
    auto it = ms::S.mutexes.find(m);
    if (it != ms::S.mutexes.end() && it->second.owner >= 0)
        ms::fatal("a locked mutex is destroyed");
    for (int t = 0; t < ms::S.nf; t++)
        if ((ms::S.f[t].st == ms::B_MUTEX && ms::S.f[t].obj == m) ||
            (ms::S.f[t].st == ms::B_COND && ms::S.f[t].mutex == m))
            ms::fatal("a mutex is destroyed while a thread waits for it");
    ms::S.mutexes.erase(m);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!ms::S.active)
        return 0;
    ms::access(m, 1, false, true, MS_PC);
    ms::Fiber &x = ms::S.me();
    x.st = ms::B_MUTEX;
    x.obj = m;
    ms::point();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!ms::S.active)
        return 0;
    ms::point();
    ms::Mutex &mu = ms::S.mutexes[m];
    if (mu.owner >= 0)
        return EBUSY;
    ms::take(m, ms::S.me());
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!ms::S.active)
        return 0;
    ms::Fiber &x = ms::S.me();
    ms::Mutex &mu = ms::S.mutexes[m];
    if (mu.owner != x.id)
        ms::fatal("a mutex is unlocked by a thread that does not hold it");
    mu.owner = -1;
    mu.vc.join(x.vc);
    x.vc.c[x.id]++;
    if (ms::S.cfg.unlock_points)
        ms::point();
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *)
{
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    if (ms::S.active)
        for (int t = 0; t < ms::S.nf; t++)
            if (ms::S.f[t].st == ms::B_COND && ms::S.f[t].obj == c)
                ms::fatal("a condition variable is destroyed while a thread "
                          "waits for it");
    return 0;
}
static int ms_cond_wait(pthread_cond_t *c, pthread_mutex_t *m,
                        const struct timespec *ts)
{
    if (!ms::S.active)
        abort();
    ms::Fiber &x = ms::S.me();
    ms::Mutex &mu = ms::S.mutexes[m];
    if (mu.owner != x.id)
        ms::fatal("waiting for a condition without its mutex");
    x.timed = ts != nullptr;
    x.timedout = false;
    if (ts) {
        /* far future deadlines must not overflow */
        x.deadline = ts->tv_sec > 9000000000ll
                         ? INT64_MAX
                         : (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (x.deadline <= ms::S.now)
            x.deadline = ms::S.now;
    }
    x.st = ms::B_COND;
    x.obj = c;
    x.mutex = m;
    mu.owner = -1;
    mu.vc.join(x.vc);
    x.vc.c[x.id]++;
    ms::point();
    bool to = x.timed && x.timedout;
    x.timed = false;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return ms_cond_wait(c, m, nullptr);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  const struct timespec *ts)
{
    return ms_cond_wait(c, m, ts);
}
static void ms_wake(pthread_cond_t *c, int max)
{
    if (!ms::S.active)
        return;
    for (int k = 0; k < ms::S.nf && max > 0; k++) {
        ms::Fiber &x = ms::S.f[k];
        if (x.st == ms::B_COND && x.obj == c) {
            x.st = ms::B_MUTEX;
            x.obj = x.mutex;
            ms::S.idle = 0;
            max--;
        }
    }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    ms_wake(c, 1);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    ms_wake(c, 1 << 20);
    return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *,
                          void *(*fn)(void *), void *arg)
{
    if (!ms::S.active)
        abort();
    if (ms::S.ncreate++ == ms::S.cfg.pthread_fail || ms::S.cfg.pthread_fail_all)
        return EAGAIN;
    int id = ms::S.nf;
    *t = (pthread_t)(id + 1);
    ms::spawn([fn, arg] { fn(arg); });
    return 0;
}
int __wrap_pthread_detach(pthread_t t)
{
    if (ms::S.active)
        ms::S.f[t - 1].detached = true;
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **)
{
    ms::join((int)t - 1);
    return 0;
}
pthread_t __wrap_pthread_self(void)
{
    return (pthread_t)(ms::S.active ? ms::S.cur + 1 : 1);
}
int __wrap_sched_yield(void)
{
    if (ms::S.active)
        ms::point();
    return 0;
}

/* --------------------------------------------------------------- time */
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!ms::S.active)
        return __real_clock_gettime(id, ts);
    /* makes the interpreter keep its check interval */
    int64_t t = ms::S.now;
    if (id == CLOCK_MONOTONIC)
        t += ++ms::S.ticks * ms::S.cfg.spin_tick_ms * 1000000ll;
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
    return 0;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!ms::S.active)
        return __real_nanosleep(ts, rem);
    ms::Fiber &x = ms::S.me();
    x.st = ms::B_SLEEP;
    x.timed = true;
    x.deadline = ms::S.now + ts->tv_sec * 1000000000ll + ts->tv_nsec;
    ms::point();
    x.timed = false;
    return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms_)
{
    if (!ms::S.active)
        return __real_poll(p, n, ms_);
    int r = __real_poll(p, n, 0);
    if (r != 0 || ms_ == 0)
        return r;
    ms::Fiber &x = ms::S.me();
    x.st = ms::B_POLL;
    x.pfd = p;
    x.npfd = n;
    x.timed = ms_ > 0;
    x.timedout = false;
    x.deadline = ms::S.now + ms_ * 1000000ll;
    ms::point();
    x.timed = false;
    return __real_poll(p, n, 0);
}

/* ------------------------------------------------------------- memory */
void *__wrap_malloc(size_t n)
{
    return ms::S.active ? ms::arena_alloc(n) : __real_malloc(n);
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!ms::S.active)
        return __real_calloc(a, b);
    void *p = ms::arena_alloc(a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p)
{
    if (!p)
        return;
    if (!ms::in_arena(p))
        __real_free(p);
    else if (ms::S.active)
        ms::arena_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!ms::S.active)
        return __real_realloc(p, n);
    if (!p)
        return ms::arena_alloc(n);
    size_t old = ms::in_arena(p) ? ((ms::Hdr *)p - 1)->size : malloc_usable_size(p);
    void *q = ms::arena_alloc(n);
    if (!q)
        return nullptr;
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
void __wrap___assert_fail(const char *e, const char *file, unsigned line,
                          const char *fn)
{
    if (!ms::S.active)
        __real___assert_fail(e, file, line, fn);
    const char *b = strrchr(file, '/');
    ms::fatal(mc::fmt("assertion `%s' failed in %s (%s:%u)", e, fn,
                      b ? b + 1 : file, line));
}
}

#endif
