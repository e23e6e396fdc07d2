/*
 * C15: a wasi-threads program, its spawned threads and their ways to end,
 * under every schedule within the bounds, with failing thread creation and
 * failing allocations.
 */
#include "msched.hpp"
#include "threadsc.h"
#include "wb.hpp"

using namespace wb;

static mc::Explorer *X;
static int c_exec, c_pts, c_scen, c_fault, c_spawn;
static tw_env *Env;

enum Op {
    SP0, SP1, SP2,    /* spawn a child */
    SO0, SO1,         /* the same with the old interface */
    TRAP, EXIT, TEXIT,
    LOOP, WAITF, GROW,
    JN0, JN1,         /* wait for the end of a child's program */
    RETN,             /* nothing more: return */
    DIV,              /* another trap */
    AF0, AF1,         /* (in the host) until a child has ended */
};
static const char *const opname[] = {"spawn A", "spawn B", "spawn C", "spawn A (old)", "spawn B (old)", "trap", "exit", "thread_exit", "loop",
                                     "wait", "grow", "join A", "join B", "return", "divide by 0", "after A", "after B"};
typedef std::vector<uint8_t> Prog;
struct Scen {
    Prog main;
    std::vector<Prog> ch;
    int bound;
    bool faults;
    int loop = 0; /* 1: spawns which all fail, 2: one thread after the other */
};
static const Scen *Sc;

/* ---------------------------------------------------------- the guest */
static const uint32_t FLAG = 0, NEVER = 32, SLOT = 64;
static void atop(Bytes &b, unsigned op, unsigned al, uint32_t off)
{
    u8(b, 0xfe);
    uleb(b, op);
    uleb(b, al);
    uleb(b, off);
}
enum { F_SPAWN, F_SPAWNOLD, F_TEXIT, F_EXIT, F_LOG, F_AFTER };
static void call(Bytes &b, uint32_t f)
{
    u8(b, 0x10);
    uleb(b, f);
}
/* log(who, what); who is the thread's index */
static void log_(Bytes &b, unsigned who, uint32_t what)
{
    i32c(b, who);
    i32c(b, what);
    call(b, F_LOG);
}
enum { L_START = 0x1000, L_OP = 0x2000, L_ERR = 0x3000, L_TID = 0x4000, L_END = 0x5000, L_MYTID = 0x6000, L_MEM = 0x7000 };
/* exit codes are 10 + index */
static void emit(Bytes &b, unsigned who, const Prog &p)
{
    for (size_t k = 0; k < p.size(); k++) {
        log_(b, who, L_OP + (uint32_t)k);
        switch (p[k]) {
        case SP0:
        case SP1:
        case SP2: {
            uint32_t slot = SLOT + 32 * who + 8 * (uint32_t)k;
            i32c(b, p[k] - SP0 + 1u);
            i32c(b, slot);
            call(b, F_SPAWN);
            i32c(b, who);
            i32c(b, slot);
            u8(b, 0x2d);
            uleb(b, 0);
            uleb(b, 0);
            i32c(b, L_ERR);
            u8(b, 0x6a);
            call(b, F_LOG);
            i32c(b, who);
            i32c(b, slot);
            u8(b, 0x28);
            uleb(b, 2);
            uleb(b, 4);
            /* an error is only one byte */
            i32c(b, slot);
            u8(b, 0x2d);
            uleb(b, 0);
            uleb(b, 0);
            i32c(b, 1);
            u8(b, 0x6b);
            i32c(b, 255);
            u8(b, 0x72);
            u8(b, 0x71);
            i32c(b, L_TID);
            u8(b, 0x6a);
            call(b, F_LOG);
            break;
        }
        case SO0:
        case SO1:
            i32c(b, p[k] - SO0 + 1u);
            call(b, F_SPAWNOLD);
            lset(b, 2);
            i32c(b, who);
            lget(b, 2);
            i32c(b, 31);
            u8(b, 0x76); /* shr_u: sign */
            i32c(b, L_ERR);
            u8(b, 0x6a);
            call(b, F_LOG);
            i32c(b, who);
            lget(b, 2);
            i32c(b, L_TID);
            u8(b, 0x6a);
            call(b, F_LOG);
            break;
        case TRAP:
            u8(b, 0x00);
            break;
        case DIV:
            i32c(b, 1);
            i32c(b, 0);
            u8(b, 0x6d);
            u8(b, 0x1a);
            break;
        case EXIT:
            i32c(b, 10 + who);
            call(b, F_EXIT);
            break;
        case TEXIT:
            call(b, F_TEXIT);
            break;
        case LOOP: {
            static const uint8_t c[] = {0x03, 0x40, 0x0c, 0x00, 0x0b};
            raw(b, c, 5);
            break;
        }
        case WAITF:
            i32c(b, NEVER);
            i32c(b, 0);
            i64c(b, (uint64_t)-1);
            atop(b, 1, 2, 0);
            u8(b, 0x1a);
            break;
        case GROW:
            i32c(b, 8);
            u8(b, 0x40);
            u8(b, 0);
            u8(b, 0x1a);
            break;
        case JN0:
        case JN1:
            u8(b, 0x03);
            u8(b, 0x40);
            i32c(b, FLAG + 4u * (p[k] - JN0));
            i32c(b, 0);
            i64c(b, (uint64_t)-1);
            atop(b, 1, 2, 0);
            u8(b, 0x1a);
            i32c(b, FLAG + 4u * (p[k] - JN0));
            atop(b, 0x10, 2, 0);
            u8(b, 0x45);
            u8(b, 0x0d);
            u8(b, 0);
            u8(b, 0x0b);
            break;
        case AF0:
        case AF1:
            i32c(b, p[k] - AF0 + 1u);
            call(b, F_AFTER);
            break;
        case RETN:
            if (who > 0) {
                log_(b, who, L_END);
                i32c(b, FLAG + 4 * (who - 1));
                i32c(b, 1);
                atop(b, 0x17, 2, 0);
                i32c(b, FLAG + 4 * (who - 1));
                i32c(b, 100);
                atop(b, 0, 2, 0);
                u8(b, 0x1a);
            }
            u8(b, 0x0f);
            break;
        }
    }
}
static const uint32_t MIN = 256, MAX = 320;
static Bytes guest(const Scen &s)
{
    Module m;
    auto imp = [&](const char *mod, const char *name, FT t) {
        Import i;
        i.mod = mod;
        i.name = name;
        i.kind = 0;
        i.typeidx = m.type(t);
        m.imports.push_back(i);
    };
    imp("wasi", "thread-spawn", FT{{T_I32, T_I32}, {}});
    imp("wasi", "thread_spawn", FT{{T_I32}, {T_I32}});
    imp("wasi", "thread_exit", FT{{}, {}});
    imp("wasi_snapshot_preview1", "proc_exit", FT{{T_I32}, {}});
    imp("h", "log", FT{{T_I32, T_I32}, {}});
    imp("h", "after", FT{{T_I32}, {}});
    Import i;
    i.mod = "env";
    i.name = "memory";
    i.kind = 2;
    i.l.min = MIN;
    i.l.hasmax = true;
    i.l.max = MAX;
    i.l.shared = true;
    i.l.custom = true;
    i.l.shift = 0;
    m.imports.push_back(i);
    Bytes b;
    log_(b, 0, L_START);
    if (s.loop) {
        /* for (i = 0; i < n; i++) { spawn(1); wait for it; log(memory) } */
        u8(b, 0x03);
        u8(b, 0x40);
        i32c(b, 1);
        i32c(b, SLOT);
        call(b, F_SPAWN);
        lget(b, 0);
        i32c(b, 1);
        u8(b, 0x6a);
        lset(b, 0);
        if (s.loop == 2) {
            lget(b, 0);
            call(b, F_AFTER);
        }
        log_(b, 0, L_MEM);
        lget(b, 0);
        i32c(b, s.loop == 2 ? 9 : 200);
        u8(b, 0x49);
        u8(b, 0x0d);
        u8(b, 0);
        u8(b, 0x0b);
    } else
        emit(b, 0, s.main);
    uint32_t start = m.func(FT{{}, {}}, b, {{3, T_I32}});
    Bytes c;
    for (unsigned k = 0; k < s.ch.size(); k++) {
        lget(c, 1);
        i32c(c, k + 1);
        u8(c, 0x46);
        u8(c, 0x04);
        u8(c, 0x40);
        log_(c, k + 1, L_START);
        i32c(c, k + 1);
        lget(c, 0);
        i32c(c, L_MYTID);
        u8(c, 0x6a);
        call(c, F_LOG);
        emit(c, k + 1, s.ch[k]);
        u8(c, 0x0b);
    }
    log_(c, 99, 0);
    uint32_t ts = m.func(FT{{T_I32, T_I32}, {}}, c, {{1, T_I32}});
    m.exp("_start", 0, start);
    m.exp("wasi_thread_start", 0, ts);
    return m.encode();
}
static std::map<Bytes, tw_mod *> mods;
static tw_mod *getmod(const Bytes &b)
{
    auto it = mods.find(b);
    if (it != mods.end())
        return it->second;
    int err = 0;
    char msg[200] = "";
    tw_mod *m = tw_load(Env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
    if (!m) {
        fprintf(stderr, "module does not load: %d %s\n", err, msg);
        abort();
    }
    return mods[b] = m;
}

/* ---------------------------------------------------------- execution */
static struct {
    uint32_t who, what;
} lg[512];
static int nlg, atend;
static tw_mod *Gm;
static struct tc_main M;
static uint32_t exitcode;
static char bodyviol[300];
static bool hadfault; /* an allocation failed while setting up */
static size_t base_alloc;
static int64_t alloc_begin, alloc_end;

static size_t mems[256];
static int nmems;
static int hostafter(void *, struct exec_context *, const twv *a, twv *)
{
    ms::join((int)a[0].lo);
    return 0;
}
static int hostlog(void *, struct exec_context *, const twv *a, twv *)
{
    if (a[1].lo == L_MEM) {
        if (nmems < 256)
            mems[nmems++] = tw_env_allocated(Env);
        return 0;
    }
    if (Sc->loop)
        return 0;
    if (nlg < 512) {
        lg[nlg].who = (uint32_t)a[0].lo;
        lg[nlg].what = (uint32_t)a[1].lo;
        nlg++;
    }
    return 0;
}
static void body()
{
    int err = 0, trap = 0;
    struct wasi_threads_instance *wt = tc_wt_new(Env);
    struct wasi_instance *wi = tc_wasi_new(Env);
    tw_imports *im = tw_imports_new(Env);
    uint8_t pt[2] = {T_I32, T_I32};
    tw_imports_add_host(im, "h", "log", pt, 2, nullptr, 0, hostlog, nullptr);
    tw_imports_add_host(im, "h", "after", pt, 1, nullptr, 0, hostafter, nullptr);
    if (tc_shared_memories(Env, Gm, im) || tc_wt_imports(im, Env, wt) || tc_wasi_imports(im, Env, wi)) {
        snprintf(bodyviol, sizeof(bodyviol), "imports cannot be created");
        return;
    }
    tw_inst *in = tw_instantiate(Gm, im, &err, &trap);
    if (!in) {
        snprintf(bodyviol, sizeof(bodyviol), "the program cannot be instantiated: %d %s", err, tw_trap_name(trap));
        return;
    }
    if (tc_wt_spawn_args(wt, Gm, im) != 0) {
        snprintf(bodyviol, sizeof(bodyviol), "wasi_threads_instance_set_thread_spawn_args fails");
        return;
    }
    tc_wt_memory(wt, in, 0);
    tc_wasi_memory(wi, in, 0);
    uint32_t f = 0;
    tw_find_export(in, "_start", 0, &f);
    alloc_begin = ms::S.nalloc;
    tc_wt_run(wt, Env, in, f, 1, &M);
    alloc_end = ms::S.nalloc;
    atend = nlg;
    exitcode = tc_wasi_exit_code(wi);
    tw_inst_destroy(in);
    tw_imports_free(im);
    tc_wt_free(wt);
    tc_wasi_free(wi);
    /* nothing the threads used may be left, whatever they still do */
    if (tw_env_allocated(Env) != base_alloc)
        snprintf(bodyviol, sizeof(bodyviol), "resources are still held after the wait: %lld bytes",
                 (long long)(tw_env_allocated(Env) - base_alloc));
}

static bool isspawn(int o) { return o <= SO1; }
static int child_of(int o) { return o <= SP2 ? o - SP0 : o - SO0; }

static std::string check()
{
    const Scen &s = *Sc;
    if (bodyviol[0])
        return bodyviol;
    bool fault = ms::S.fails_injected > 0;
    if (atend != nlg)
        return "a thread is still running after the wait returned";
    if (ms::S.nlive != 0)
        return mc::fmt("%lld allocations leaked", (long long)ms::S.nlive);
    if (s.loop) {
        if (M.ret != 0 || nmems < 9)
            return mc::fmt("a sequence of spawns ends with %d after %d", M.ret, nmems);
        for (int i = 3; i < nmems; i++)
            if (mems[i] != mems[2])
                return mc::fmt("%s threads hold memory: %zu bytes after 3, %zu bytes after %d", s.loop == 1 ? "unsuccessful" : "finished",
                               mems[2], mems[i], i + 1);
        return "";
    }
    size_t nth = 1 + s.ch.size();
    struct T {
        size_t ops = 0;      /* operations begun */
        bool started = false, ended = false;
        uint32_t mytid = 0;
        int from = -1, to = 1 << 30; /* in the log */
        uint32_t spawntid = 0;
        bool gottid = false, spawned = false, failed = false, attempted = false;
    };
    std::vector<T> t(nth);
    /* walk through the log */
    std::vector<int> pend(nth, -1); /* child whose spawn result comes next */
    for (int i = 0; i < nlg; i++) {
        uint32_t w = lg[i].who, x = lg[i].what;
        if (w >= nth)
            return mc::fmt("a thread got a wrong argument");
        T &a = t[w];
        const Prog &p = w ? s.ch[w - 1] : s.main;
        uint32_t kind = x & 0xf000;
        bool hastid = kind == L_TID || kind == L_MYTID;
        /* tids are added to the kind; they are small here */
        if (hastid || kind == L_ERR || kind == L_START || kind == L_OP || kind == L_END)
            ;
        else
            return mc::fmt("a thread id is out of range: %#x", x);
        if (kind == L_START) {
            if (a.started)
                return mc::fmt("thread %u was started twice", w);
            a.started = true;
            a.from = i;
            continue;
        }
        if (!a.started)
            return mc::fmt("thread %u runs without having been started", w);
        if (kind == L_MYTID) {
            a.mytid = x - L_MYTID;
        } else if (kind == L_OP) {
            size_t k = x - L_OP;
            if (k != a.ops)
                return mc::fmt("thread %u executes operation %zu after %zu", w, k, a.ops);
            if (k > 0 && (p[k - 1] == TRAP || p[k - 1] == DIV || p[k - 1] == EXIT || p[k - 1] == TEXIT || p[k - 1] == LOOP ||
                          p[k - 1] == RETN || p[k - 1] == WAITF))
                return mc::fmt("thread %u goes on after `%s'", w, opname[p[k - 1]]);
            a.ops++;
            pend[w] = isspawn(p[k]) ? child_of(p[k]) : -1;
            if (pend[w] >= 0)
                t[(size_t)pend[w] + 1].attempted = true;
            if (p[k] == TRAP || p[k] == DIV || p[k] == EXIT || p[k] == TEXIT)
                a.to = i;
        } else if (kind == L_ERR) {
            T &c = t[(size_t)pend[w] + 1];
            if (x == L_ERR)
                c.spawned = true;
            else
                c.failed = true;
        } else if (kind == L_TID) {
            T &c = t[(size_t)pend[w] + 1];
            if (c.spawned)
                c.spawntid = x - L_TID, c.gottid = true;
            else if (p[a.ops - 1] <= SP2 && x != L_TID) /* AGAIN */
                return mc::fmt("the error of a failed spawn is %u", x - L_TID);
        } else if (kind == L_END) {
            a.ended = true;
            a.to = i;
        }
    }
    for (size_t k = 1; k < nth; k++) {
        T &c = t[k];
        if (c.started && c.failed)
            return mc::fmt("thread %zu runs although spawning it failed", k);
        if (c.started && !c.attempted)
            return mc::fmt("thread %zu runs although nobody spawned it", k);
        if (c.started && c.mytid && c.gottid && c.spawntid != c.mytid)
            return mc::fmt("thread %zu was given id %u but its spawner %u", k, c.mytid, c.spawntid);
        if (c.gottid && (c.spawntid == 0 || c.spawntid > 0x1fffffff))
            return mc::fmt("thread id %u", c.spawntid);
        if (c.failed && !fault && ms::S.cfg.pthread_fail < 0)
            return mc::fmt("spawning thread %zu failed", k);
        if (c.started && c.ops && c.mytid == 0)
            return "thread id 0";
        for (size_t j = 1; j < k; j++)
            if (t[j].mytid && t[j].mytid == c.mytid && t[j].from < c.to && c.from < t[j].to)
                return mc::fmt("threads %zu and %zu both have id %u", j, k, c.mytid);
        X->outcome(mc::fnv(mc::fmt("%d%d%d%zu %u", c.spawned, c.failed, c.started, c.ops, c.mytid)));
    }
    if (ms::S.cfg.pthread_fail >= 0) {
        int nf = 0, na = 0;
        for (size_t k = 1; k < nth; k++) {
            nf += t[k].failed;
            na += t[k].attempted;
        }
        if (nf > 1)
            return "more spawns failed than threads could not be created";
    }
    /* what made the program end */
    std::set<int> causes;
    std::set<uint32_t> codes;
    bool mainret = false;
    for (size_t k = 0; k < nth; k++) {
        const Prog &p = k ? s.ch[k - 1] : s.main;
        if (t[k].ops == 0)
            continue;
        int o = p[t[k].ops - 1];
        if (o == TRAP)
            causes.insert(TWT_UNREACHABLE);
        if (o == DIV)
            causes.insert(TWT_DIV0);
        if (o == EXIT) {
            causes.insert(TWT_EXIT);
            codes.insert(10 + (uint32_t)k);
        }
        if (k == 0 && o == TEXIT) {
            causes.insert(TWT_EXIT);
            codes.insert(0);
        }
        if (k == 0 && o == RETN)
            mainret = true;
        if (o == JN0 || o == JN1) {
        }
    }
    X->outcome(mc::fnv(mc::fmt("%d %d %d %u", M.ret, M.trap, M.reported, exitcode)));
    if (fault && M.ret == ENOMEM)
        return "";
    if (M.ret == 0) {
        if (!mainret)
            return "the main thread reports that it returned, but it did not";
        if (M.reported != TWT_NONE)
            return mc::fmt("a normal return is reported as %s", tw_trap_name(M.reported));
    } else if (M.ret == TW_TRAP) {
        if (!causes.count(M.reported) && !(fault && M.reported == TWT_EXIT))
            return mc::fmt("reported status is %s, which no thread caused", tw_trap_name(M.reported));
        if (M.reported == TWT_EXIT && !codes.count(exitcode) && !fault)
            return mc::fmt("exit code %u, which no thread passed", exitcode);
        /* one way to end only */
        if (t[0].ops && (s.main[t[0].ops - 1] == TRAP || s.main[t[0].ops - 1] == DIV) && causes.size() == 1 &&
            M.trap != TWT_UNREACHABLE && M.trap != TWT_DIV0 && M.trap != TWT_THREXIT)
            return mc::fmt("the main thread trapped with %s", tw_trap_name(M.trap));
    } else
        return mc::fmt("the main thread ended with %d", M.ret);
    /* what was over before the other began comes first */
    for (size_t k = 0; k < nth; k++) {
        const Prog &p = k ? s.ch[k - 1] : s.main;
        for (size_t i = 0; i + 1 < t[k].ops; i++)
            if (p[i] == AF0 || p[i] == AF1) {
                size_t c = (size_t)(p[i] - AF0) + 1;
                if (!t[c].ops)
                    continue;
                int o = s.ch[c - 1][t[c].ops - 1];
                int cause = o == TRAP ? TWT_UNREACHABLE : o == DIV ? TWT_DIV0 : o == EXIT ? TWT_EXIT : -1;
                if (cause >= 0 && M.ret != 0 && M.reported != cause && nth <= 3)
                    return mc::fmt("reported status is %s, not that of the thread which had ended before", tw_trap_name(M.reported));
            }
    }
    /* everything a joined thread does has happened */
    for (size_t k = 0; k + 1 < t[0].ops; k++) {
        int o = s.main[k];
        if ((o == JN0 || o == JN1) && !t[(size_t)(o - JN0) + 1].ended)
            return "a join ended before the thread";
    }
    return "";
}
static std::string text(const Scen &s)
{
    if (s.loop)
        return s.loop == 1 ? "200 spawns which fail" : "9 threads, one after the other";
    std::string r = "main:";
    for (auto o : s.main)
        r += std::string(" ") + opname[o] + ",";
    for (size_t i = 0; i < s.ch.size(); i++) {
        r += mc::fmt(" %c:", 'A' + (int)i);
        for (auto o : s.ch[i])
            r += std::string(" ") + opname[o] + ",";
    }
    return r;
}

static std::vector<Scen> scens;
static bool has(const Prog &p, int o) { return std::find(p.begin(), p.end(), o) != p.end(); }

int main(int argc, char **argv)
{
    mc::Explorer ex(argc, argv, "thrwasi");
    X = &ex;
    c_exec = ex.counter("executions");
    c_pts = ex.counter("transitions");
    c_scen = ex.counter("scenarios");
    c_fault = ex.counter("faults");
    c_spawn = ex.counter("failed_thread_creations");
    bool th = ex.opt.thorough();
    auto add = [&](Prog m, std::vector<Prog> ch, int bound, bool faults) {
        /* somebody has to get to end it, whatever the schedule */
        std::vector<const Prog *> p{&m};
        for (auto &c : ch)
            p.push_back(&c);
        std::vector<size_t> at(p.size(), 0);
        std::vector<bool> live(p.size(), false), done(p.size(), false);
        live[0] = true;
        for (bool again = true; again;) {
            again = false;
            for (size_t k = 0; k < p.size(); k++) {
                if (!live[k])
                    continue;
                int o = (*p[k])[at[k]];
                if (o == TRAP || o == DIV || o == EXIT || (k == 0 && (o == RETN || o == TEXIT))) {
                    scens.push_back({m, ch, bound, faults});
                    return;
                }
                if (o == LOOP || o == WAITF || o == TEXIT)
                    live[k] = false;
                else if (o == RETN) {
                    done[k] = true;
                    live[k] = false;
                } else if (o == AF0 || o == AF1) {
                    at[k]++;
                } else if (o == JN0 || o == JN1) {
                    size_t c = (size_t)(o - JN0) + 1;
                    if (c >= p.size())
                        return;
                    if (!done[c])
                        continue;
                    at[k]++;
                } else {
                    if (isspawn(o)) {
                        if ((size_t)child_of(o) + 1 >= p.size())
                            return;
                        live[(size_t)child_of(o) + 1] = true;
                    }
                    at[k]++;
                }
                again = true;
            }
        }
    };
    std::vector<uint8_t> mend{RETN, TRAP, EXIT, TEXIT, LOOP, WAITF};
    std::vector<Prog> c1{{RETN}, {TRAP}, {EXIT}, {TEXIT}, {LOOP}, {WAITF}, {GROW, RETN}, {DIV}, {GROW, LOOP}};
    std::vector<Prog> c2{{RETN}, {TRAP}, {EXIT}, {TEXIT}, {LOOP}, {GROW, RETN}};
    int b1 = th ? 3 : 2, b2 = th ? 2 : 1;
    for (auto e : mend) {
        add({e}, {}, b1, e == RETN);
        for (auto &a : c1) {
            add({SP0, e}, {a}, b1, e == RETN && a.back() != LOOP && a.back() != WAITF);
            add({SO0, e}, {a}, b1, false);
            add({SP0, JN0, e}, {a}, b1, false);
            add({SP0, GROW, e}, {a}, th ? 2 : 1, false);
            for (auto &b : c2) {
                add({SP0, SP1, e}, {a, b}, b2, false);
                add({SO1, SP0, e}, {a, b}, b2, false);
                /* a child spawns the other */
                if (a.size() == 1) {
                    add({SP0, e}, {{SP1, a[0]}, b}, b2, e == RETN && a.back() == RETN && b.back() == RETN);
                    add({SP0, JN0, e}, {{SP1, a[0]}, b}, b2, false);
                }
                add({SP0, JN0, SP1, e}, {a, b}, b2, false);
                add({SP0, SP1, JN0, JN1, e}, {a, b}, b2, false);
            }
        }
    }
    for (auto a : {TRAP, DIV, EXIT}) {
        for (auto e : {TRAP, DIV, EXIT, TEXIT, RETN})
            add({SP0, AF0, (uint8_t)e}, {{(uint8_t)a}}, b1, false);
        for (auto b : {TRAP, DIV, EXIT, TEXIT})
            for (auto e : {WAITF, LOOP})
                add({SP0, SP1, (uint8_t)e}, {{(uint8_t)a}, {AF0, (uint8_t)b}}, b2, false);
    }
    scens.push_back({{RETN}, {{RETN}}, 0, false, 1});
    scens.push_back({{RETN}, {{RETN}}, 0, false, 2});
    for (auto &a : c2)
        for (auto &b : c2)
            for (auto &c : c2)
                add({SP0, SP1, SP2, RETN}, {a, b, c}, 1, false);
    ex.run(scens.size(), [&](uint64_t idx) {
        Sc = &scens[idx];
        if (!Env) {
            Env = tw_env_new();
            ms::S.ignore.push_back({(uintptr_t)tw_env_mctx(Env),
                                    (uintptr_t)tw_env_mctx(Env) + tc_mctx_size()});
        }
        Gm = getmod(guest(*Sc));
        base_alloc = tw_env_allocated(Env);
        auto go = [&](int bound, int pfail, int64_t afail) {
            ms::S.cfg = ms::Cfg();
            ms::S.cfg.bound = bound;
            ms::S.cfg.pthread_fail = pfail;
            ms::S.cfg.alloc_fail = afail;
            ms::S.cfg.unlock_points = true;
            ms::S.cfg.spurious_main = true;
            ms::S.cfg.pthread_fail_all = Sc->loop == 1;
            auto r = ms::explore(
                [] {
                    nlg = nmems = 0;
                    atend = 0;
                    bodyviol[0] = 0;
                    ms::S.fails_injected = 0;
                    memset(&M, 0, sizeof(M));
                    body();
                },
                check, 0, 1, X);
            X->add(c_exec, r.execs);
            X->add(c_pts, r.points);
            if (!r.ok) {
                X->fail("%s%s%s\nschedule: %s\n%s", text(*Sc).c_str(),
                        pfail >= 0 ? mc::fmt(" (thread creation %d fails)", pfail).c_str() : "",
                        afail >= 0 ? mc::fmt(" (allocation %d fails)", (int)afail).c_str() : "",
                        ms::devtext(r.devs).c_str(), r.viol.c_str());
                Env = nullptr;
                mods.clear();
                ms::S.ignore.clear();
            }
            return r.ok;
        };
        X->add(c_scen);
        if (!go(Sc->bound, -1, -1))
            return;
        /* creation of each thread fails */
        size_t ns = 0;
        for (auto o : Sc->main)
            ns += isspawn(o);
        bool ret = Sc->main.back() == RETN || Sc->main.back() == EXIT || Sc->main.back() == TRAP;
        bool joins = Sc->loop || has(Sc->main, JN0) || has(Sc->main, JN1) || has(Sc->main, AF0);
        for (auto &c : Sc->ch)
            joins = joins || has(c, AF0);
        if (ret && !joins)
            for (size_t k = 0; k < ns; k++) {
                X->add(c_spawn);
                if (!go(std::min(Sc->bound, 1), (int)k, -1))
                    return;
            }
        if (Sc->faults) {
            if (!go(0, -1, 1ll << 60))
                return;
            int64_t a0 = alloc_begin, a1 = alloc_end;
            for (int64_t k = a0; k < a1; k++) {
                X->add(c_fault);
                if (!go(th ? 1 : 0, -1, k))
                    return;
            }
        }
    });
    for (size_t i = 0; i < scens.size(); i += scens.size() / 6 + 1)
        ex.sample(text(scens[i]));
    return ex.finish();
}
