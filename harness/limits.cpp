/*
 * C12: frame and cell limits are exact, tail calls and unwinding give
 * everything back, growth respects maxima, and an instance stays usable
 * after a limit trap.
 */
#include "hostc.h"
#include <cerrno>
#include "pair.hpp"

using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_runs, c_traps, c_mods, c_grow;
static tw_env *Env;
static bool smallcells = true, seplocals = true, eh = true;
typedef std::vector<uint8_t> TL;

static unsigned csz(uint8_t t)
{
    if (!smallcells)
        return 1;
    switch (t) {
    case T_I32: case T_F32: return 1;
    case T_V128: return 4;
    default: return 2;
    }
}
static unsigned cells(const TL &l)
{
    unsigned n = 0;
    for (auto t : l)
        n += csz(t);
    return n;
}
static void konst(Bytes &b, uint8_t t, unsigned k)
{
    switch (t) {
    case T_FUNCREF: case T_EXTERNREF:
        u8(b, 0xd0);
        u8(b, t);
        break;
    default: constant(b, t, {k * 0x01010101ull, k});
    }
}
static const uint8_t ALLT[7] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};

/* how f recurses */
enum { C_CALL, C_IND, C_CROSS, C_TRY, C_TAILMID, NFORM };
static const char *form_name[] = {"call", "call_indirect", "call through another instance", "call inside try_table",
                                  "call of a function that tail-calls"};

struct Inst {
    tw_mod *mod = nullptr;
    tw_imports *im = nullptr;
    tw_inst *in = nullptr;
    std::vector<hc_host *> hosts;
    ~Inst()
    {
        tw_inst_destroy(in);
        tw_imports_free(im);
        tw_unload(mod);
        for (auto h : hosts)
            hc_host_free(h);
    }
    std::string load(Module &m)
    {
        Bytes b = m.encode();
        int err, trap;
        char msg[200];
        mod = tw_load(Env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
        if (!mod)
            return mc::fmt("load failed: %d %s", err, msg);
        in = tw_instantiate(mod, im, &err, &trap);
        if (!in)
            return mc::fmt("instantiation failed: %d trap %s", err, tw_trap_name(trap));
        return "";
    }
};

/*
 * f(P, n): pushes O; n == 0: calls g; otherwise recurses with n - 1; returns
 * the sum of 1 for each level (i32 result).  g has locals L2 and pushes O2.
 */
struct Shape {
    TL P, L, O, L2, O2;
};
static void counter(Bytes &b)
{
    gget(b, 0);
    i32c(b, 1);
    u8(b, 0x6a);
    gset(b, 0);
}
static Module build(const Shape &s, int form, uint32_t &ff, uint32_t &fg)
{
    Module m;
    FT ft{s.P, {T_I32}};
    ft.p.push_back(T_I32);
    uint32_t n = (uint32_t)s.P.size();
    FT gt{{}, {T_I32}};
    if (form == C_CROSS) {
        Import i;
        i.mod = "x";
        i.name = "f";
        i.kind = 0;
        i.typeidx = m.type(ft);
        m.imports.push_back(i);
    }
    Bytes z;
    i32c(z, 0);
    m.globals.push_back({T_I32, true, z});
    uint32_t base = m.nimp(0);
    ff = base, fg = base + 1;
    Bytes b;
    counter(b);
    for (size_t i = 0; i < s.O.size(); i++)
        konst(b, s.O[i], (unsigned)i + 3);
    lget(b, n);
    u8(b, 0x45); /* eqz */
    u8(b, 0x04), u8(b, T_I32);
    u8(b, 0x10), uleb(b, fg);
    u8(b, 0x05);
    if (form == C_TRY)
        u8(b, 0x1f), u8(b, T_I32), u8(b, 0); /* no clauses */
    for (size_t i = 0; i < s.P.size(); i++)
        lget(b, (uint32_t)i);
    lget(b, n);
    i32c(b, 1);
    u8(b, 0x6b);
    switch (form) {
    case C_CALL: case C_TRY: u8(b, 0x10), uleb(b, ff); break;
    case C_IND: i32c(b, 0), u8(b, 0x11), uleb(b, m.type(ft)), u8(b, 0); break;
    case C_CROSS: u8(b, 0x10), uleb(b, 0); break;
    case C_TAILMID: u8(b, 0x10), uleb(b, base + 2); break;
    }
    if (form == C_TRY)
        u8(b, 0x0b);
    u8(b, 0x0b);
    i32c(b, 1);
    u8(b, 0x6a);
    /* the result is on top of O: keep it in a local, drop O */
    uint32_t nl = n + 1;
    TL L = s.L;
    L.push_back(T_I32);
    lset(b, nl + (uint32_t)s.L.size());
    for (size_t i = 0; i < s.O.size(); i++)
        u8(b, 0x1a);
    lget(b, nl + (uint32_t)s.L.size());
    std::vector<std::pair<uint32_t, uint8_t>> ls;
    for (auto t : L)
        ls.push_back({1, t});
    m.func(ft, b, ls);
    b.clear();
    counter(b);
    for (size_t i = 0; i < s.O2.size(); i++)
        konst(b, s.O2[i], (unsigned)i + 3);
    for (size_t i = 0; i < s.O2.size(); i++)
        u8(b, 0x1a);
    i32c(b, 1);
    ls.clear();
    for (auto t : s.L2)
        ls.push_back({1, t});
    m.func(gt, b, ls);
    b.clear();
    /* tail-calls f: its own frame is gone while f runs */
    for (size_t i = 0; i <= s.P.size(); i++)
        lget(b, (uint32_t)i);
    u8(b, 0x12), uleb(b, ff);
    m.func(ft, b);
    m.tables.push_back({T_FUNCREF, {1, false}});
    Elem e;
    i32c(e.off, 0);
    e.funcs = {ff};
    m.elems.push_back(e);
    m.exp("f", 0, ff);
    return m;
}
static unsigned mx(unsigned a, unsigned b) { return a > b ? a : b; }

/* the number of cells needed for f(P, n) */
static unsigned need(const Shape &s, int form, unsigned n)
{
    unsigned L = cells(s.P) + 1 + cells(s.L) + 1;
    unsigned O = cells(s.O), P = cells(s.P);
    unsigned args = P + 2;
    if (form == C_IND)
        args = P + 2; /* n and the table index after n - 1 */
    unsigned ops = mx(mx(O + args, O + 2), 2); /* result + 1 for the addition; counter */
    unsigned g = (seplocals ? 0 : cells(s.L2)) + mx(cells(s.O2), 2);
    unsigned t = 0, h = 0;
    unsigned fl = seplocals ? 0 : L;
    for (unsigned i = 0; i <= n; i++) {
        t = mx(t, h + fl + ops);
        if (form == C_TAILMID && i < n) {
            /* f calls the trampoline with its arguments as locals, which pushes them again */
            unsigned tl = seplocals ? 0 : P + 1;
            t = mx(t, h + fl + O + tl + P + 1);
        }
        h += fl + O;
    }
    return mx(t, h + g);
}
static std::string call(Inst &I, uint32_t f, const Shape &s, unsigned n, struct tw_exec &x, int &rc, int &trap, uint32_t &res)
{
    std::vector<twv> a;
    for (size_t i = 0; i < s.P.size(); i++)
        a.push_back({s.P[i] == T_FUNCREF ? 0 : i + 1, 0});
    a.push_back({n, 0});
    twv r;
    rc = tw_call(I.in, f, a.data(), &r, &x, &trap);
    res = (uint32_t)r.lo;
    X->add(c_runs);
    if (rc)
        X->add(c_traps);
    return "";
}

static bool recursion(const Shape &s, int form)
{
    uint32_t ff, fg;
    Module m = build(s, form, ff, fg);
    Inst I, I2;
    std::string d;
    Module m2;
    if (form == C_CROSS) {
        /* x.f forwards to f through a table owned by the second instance */
        uint32_t f2, g2;
        m2 = build(s, C_CALL, f2, g2);
        d = I2.load(m2);
        I.im = tw_imports_new(Env);
        tw_imports_add_exports(I.im, I2.in, "x");
    }
    if (d.empty())
        d = I.load(m);
    X->add(c_mods);
    std::string what;
    for (unsigned n = 0; n <= 4 && d.empty(); n++) {
        unsigned frames = n + 2;
        unsigned nc = need(s, form, n);
        /* frames */
        for (unsigned lim = 1; lim <= frames + 3 && d.empty(); lim++)
            for (int intr = 0; intr < 2 && d.empty(); intr++) {
                struct tw_exec x;
                memset(&x, 0, sizeof(x));
                x.max_frames = lim;
                x.intr = intr;
                x.intr_delay = 1;
                x.check_interval = 1;
                int rc, trap;
                uint32_t res;
                uint32_t g0 = (uint32_t)tw_global_get(I.in, 0).lo + (form == C_CROSS ? (uint32_t)tw_global_get(I2.in, 0).lo : 0);
                call(I, ff, s, n, x, rc, trap, res);
                uint32_t g1 = (uint32_t)tw_global_get(I.in, 0).lo + (form == C_CROSS ? (uint32_t)tw_global_get(I2.in, 0).lo : 0);
                bool t = lim < frames;
                if (t ? !(rc == TW_TRAP && trap == TWT_FRAMES) : !(rc == 0 && res == n + 2))
                    d = mc::fmt("depth %u (%u frames), frame limit %u: got %d/%s result %u, expected %s", n, frames, lim, rc, tw_trap_name(trap), res,
                                t ? "a frame limit trap" : "success");
                else if (g1 - g0 != (t ? lim : frames))
                    d = mc::fmt("depth %u (%u frames), frame limit %u: %u functions were entered", n, frames, lim, g1 - g0);
            }
        /* cells */
        for (unsigned lim = 1; lim <= nc + 3 && d.empty(); lim++) {
            struct tw_exec x;
            memset(&x, 0, sizeof(x));
            x.max_stackcells = lim;
            int rc, trap;
            uint32_t res;
            call(I, ff, s, n, x, rc, trap, res);
            bool t = lim < nc;
            if (t ? !(rc == TW_TRAP && trap == TWT_STACK) : !(rc == 0 && res == n + 2))
                d = mc::fmt("depth %u needing %u cells, cell limit %u: got %d/%s result %u, expected %s", n, nc, lim, rc, tw_trap_name(trap), res,
                            t ? "a cell limit trap" : "success");
        }
        uint64_t h = mc::fnv(&nc, sizeof(nc));
        X->outcome(h + (unsigned)form * 1000003u + n);
    }
    if (!d.empty()) {
        X->fail("%s, %zu parameters, %zu locals, %zu operands: %s\nmodule %s", form_name[form], s.P.size() + 1, s.L.size() + 1, s.O.size(), d.c_str(),
                hex(m.encode()).c_str());
        return false;
    }
    return true;
}

/*
 * loops that must run in constant space: n rounds of (a) tail calls, self and
 * mutual, direct and indirect, with growing and shrinking argument lists,
 * (b) a call that returns, (c) a call chain left by an exception, (d) by a
 * branch out of nested blocks, (e) a host function tail-called
 */
enum { K_TAIL, K_TAILIND, K_MUTUAL, K_CALL, K_THROW, K_THROWDEEP, K_BR, K_HOSTTAIL, K_HOSTTAILBACK, K_TAILTRY, NLOOP };
static const char *loop_name[] = {"self tail call", "indirect tail call", "mutual tail calls with different parameter lists", "calls in a loop",
                                  "exceptions in a loop", "exceptions from a nested call in a loop", "branches out of blocks with operands",
                                  "tail call of a host function", "host function tail-calling back", "tail call out of a try_table"};
static bool loops(int kind, const TL &P, const TL &Q)
{
    if (!eh && (kind == K_THROW || kind == K_THROWDEEP || kind == K_TAILTRY))
        return true;
    Module m;
    FT v{{}, {}};
    TL Pn = P, Qn = Q;
    Pn.push_back(T_I32);
    Qn.push_back(T_I32);
    FT fp{Pn, {T_I32}}, fq{Qn, {T_I32}};
    uint32_t np = (uint32_t)P.size(), nq = (uint32_t)Q.size();
    {
        Import i;
        i.mod = "h";
        i.name = "h";
        i.kind = 0;
        i.typeidx = m.type(fp);
        m.imports.push_back(i);
    }
    Bytes z;
    i32c(z, 0);
    m.globals.push_back({T_I32, true, z});
    if (eh)
        m.tags.push_back(m.type(v));
    auto ret0 = [&](Bytes &b, uint32_t n) {
        counter(b);
        lget(b, n);
        u8(b, 0x45);
        u8(b, 0x04), u8(b, 0x40);
        i32c(b, 99);
        u8(b, 0x0f);
        u8(b, 0x0b);
    };
    auto args = [&](Bytes &b, const TL &to, uint32_t n) {
        for (auto t : to)
            konst(b, t, 5);
        lget(b, n);
        i32c(b, 1);
        u8(b, 0x6b);
    };
    Bytes b;
    unsigned frames = 1, cellsneed = 0;
    unsigned cP = cells(P) + 1, cQ = cells(Q) + 1;
    auto L = [&](unsigned c) { return seplocals ? 0 : c; };
    uint32_t F = 1;
    switch (kind) {
    case K_TAIL: case K_TAILIND: case K_TAILTRY:
        ret0(b, np);
        if (kind == K_TAILTRY)
            u8(b, 0x02), u8(b, 0x40), u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 2), u8(b, 0); /* catch_all 0 */
        i64c(b, 3); /* junk below */
        args(b, P, np);
        if (kind == K_TAILIND)
            i32c(b, 0), u8(b, 0x13), uleb(b, m.type(fp)), u8(b, 0);
        else
            u8(b, 0x12), uleb(b, F);
        if (kind == K_TAILTRY)
            u8(b, 0x0b), u8(b, 0x0b), u8(b, 0x00);
        m.func(fp, b);
        cellsneed = L(cP) + csz(T_I64) + cells(P) + 2;
        break;
    case K_MUTUAL:
        ret0(b, np);
        args(b, Q, np);
        u8(b, 0x12), uleb(b, F + 1);
        m.func(fp, b);
        b.clear();
        ret0(b, nq);
        args(b, P, nq);
        u8(b, 0x12), uleb(b, F);
        m.func(fq, b);
        cellsneed = mx(L(cP) + cells(Q) + 2, L(cQ) + cells(P) + 2);
        break;
    case K_CALL: case K_THROW: case K_THROWDEEP: {
        /* loop: [try] call q [catch]; n-- ; br_if */
        u8(b, 0x03), u8(b, 0x40);
        counter(b);
        u8(b, 0x02), u8(b, 0x40);
        if (kind != K_CALL)
            u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 2), u8(b, 0);
        args(b, Q, np);
        u8(b, 0x10), uleb(b, F + 1);
        u8(b, 0x1a);
        if (kind != K_CALL)
            u8(b, 0x0b);
        u8(b, 0x0b);
        lget(b, np);
        i32c(b, 1);
        u8(b, 0x6b);
        u8(b, 0x22), uleb(b, np);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x0b);
        i32c(b, 99);
        m.func(fp, b);
        b.clear();
        for (auto t : P)
            konst(b, t, 6);
        if (kind == K_CALL) {
            for (size_t i = 0; i < P.size(); i++)
                u8(b, 0x1a);
            i32c(b, 0);
        } else if (kind == K_THROW)
            u8(b, 0x08), u8(b, 0);
        else /* a further level */
            u8(b, 0x10), uleb(b, F + 2), u8(b, 0x00);
        m.func(fq, b);
        if (kind == K_THROWDEEP) {
            Bytes t;
            u8(t, 0x08), u8(t, 0);
            m.func(v, t);
        }
        frames = kind == K_THROWDEEP ? 3 : 2;
        cellsneed = mx(L(cP) + mx(cells(Q) + 2, 2), L(cP) + L(cQ) + (kind == K_CALL ? mx(cells(P), 1) : cells(P)));
        break;
    }
    case K_BR:
        u8(b, 0x03), u8(b, 0x40);
        counter(b);
        u8(b, 0x02), u8(b, 0x40);
        for (auto t : Q)
            konst(b, t, 5);
        u8(b, 0x02), u8(b, 0x40);
        for (auto t : P)
            konst(b, t, 5);
        u8(b, 0x0c), u8(b, 1);
        u8(b, 0x0b), u8(b, 0x00), u8(b, 0x0b);
        lget(b, np);
        i32c(b, 1);
        u8(b, 0x6b);
        u8(b, 0x22), uleb(b, np);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x0b);
        i32c(b, 99);
        m.func(fp, b);
        cellsneed = L(cP) + mx(cells(P) + cells(Q), 2);
        break;
    case K_HOSTTAIL: case K_HOSTTAILBACK:
        /* return_call h; h returns, or tail-calls f back */
        ret0(b, np);
        args(b, P, np);
        u8(b, 0x12), u8(b, 0);
        m.func(fp, b);
        cellsneed = L(cP) + cells(P) + 2;
        break;
    }
    m.tables.push_back({T_FUNCREF, {1, false}});
    Elem e;
    i32c(e.off, 0);
    e.funcs = {F};
    m.elems.push_back(e);
    Inst I;
    I.im = tw_imports_new(Env);
    std::string tstr = "(";
    for (auto t : Pn)
        tstr += t == T_I32 ? 'i' : t == T_I64 ? 'I' : t == T_F32 ? 'f' : t == T_F64 ? 'F' : t == T_V128 ? 'v' : t == T_FUNCREF ? 'c' : 'e';
    tstr += ")i";
    I.hosts.push_back(hc_host_new(Env, I.im, "h", "h", tstr.c_str()));
    std::string d = I.load(m);
    X->add(c_mods);
    hc_plan *pl = hc_getplan(I.hosts[0], 0);
    if (d.empty()) {
        memset(pl, 0, sizeof(*pl));
        pl->results[0] = {99, 0};
        if (kind == K_HOSTTAILBACK) {
            pl->final = HC_TAIL;
            pl->tail = tw_func_identity(I.in, F);
        }
    }
    Shape s;
    s.P = P;
    /* entering needs the arguments on the stack, too */
    cellsneed = mx(cellsneed, mx(L(cP) + 2, cP));
    if (kind == K_THROW || kind == K_THROWDEEP) {
        /* how an exception is kept on the stack is up to the implementation: find what one round needs */
        unsigned lim = cellsneed;
        for (; lim < cellsneed + 80 && d.empty(); lim++) {
            struct tw_exec x;
            memset(&x, 0, sizeof(x));
            x.max_stackcells = lim;
            int rc, trap;
            uint32_t res;
            call(I, F, s, 1, x, rc, trap, res);
            if (rc == 0)
                break;
        }
        cellsneed = lim;
    }
    for (unsigned rounds : {1u, 2u, 3u, 7u, 40u}) {
        for (int off = -1; off <= 1 && d.empty(); off++)
            for (int which = 0; which < 2 && d.empty(); which++) {
                struct tw_exec x;
                memset(&x, 0, sizeof(x));
                if (which == 0)
                    x.max_frames = frames + (unsigned)off;
                else
                    x.max_stackcells = cellsneed + (unsigned)off;
                if (which == 0 && x.max_frames == 0)
                    continue;
                int rc, trap;
                uint32_t res;
                call(I, F, s, rounds, x, rc, trap, res);
                bool t = off < 0;
                int tt = which ? TWT_STACK : TWT_FRAMES;
                if (t ? !(rc == TW_TRAP && trap == tt) : !(rc == 0 && res == 99))
                    d = mc::fmt("%u rounds needing %u frames and %u cells, %s limit %u: got %d/%s result %u, expected %s", rounds, frames, cellsneed,
                                which ? "cell" : "frame", which ? x.max_stackcells : x.max_frames, rc, tw_trap_name(trap), res, t ? "a trap" : "success");
            }
    }
    if (!d.empty()) {
        X->fail("%s, parameters %zu/%zu: %s\nmodule %s", loop_name[kind], P.size(), Q.size(), d.c_str(), hex(m.encode()).c_str());
        return false;
    }
    return true;
}

/* runaway recursion under a heap limit: an error, and the instance works afterwards */
static void runaway(int kind)
{
    Module m;
    FT t{{T_I32}, {T_I32}};
    Bytes b;
    lget(b, 0);
    u8(b, 0x04), u8(b, T_I32);
    lget(b, 0);
    if (kind == 1) { /* many operands */
        for (int i = 0; i < 100; i++)
            i64c(b, 1);
        i32c(b, 1);
        u8(b, 0x10), u8(b, 0);
        for (int i = 0; i < 101; i++)
            u8(b, 0x1a);
        i32c(b, 5);
        u8(b, 0x6a);
    } else
        u8(b, 0x10), u8(b, 0);
    u8(b, 0x05);
    i32c(b, 7);
    u8(b, 0x0b);
    m.func(t, b, kind == 2 ? std::vector<std::pair<uint32_t, uint8_t>>{{100, T_V128}} : std::vector<std::pair<uint32_t, uint8_t>>{});
    tw_env *env = tw_env_new();
    tw_env *save = Env;
    Env = env;
    std::string d;
    {
        Inst I;
        d = I.load(m);
        size_t base = tw_env_allocated(env), peak0 = tw_env_peak(env);
        for (size_t lim = base + 1; lim < base + 60000 && d.empty(); lim = lim < base + 2000 ? lim + 7 : lim + 3331) {
            if (tw_env_setlimit(env, lim) != 0) {
                d = "cannot set the limit";
                break;
            }
            int trap;
            twv a{1, 0}, r;
            int rc = tw_call(I.in, 0, &a, &r, nullptr, &trap);
            X->add(c_runs);
            if (rc != ENOMEM)
                d = mc::fmt("endless recursion with heap limit +%zu: got %d/%s, expected ENOMEM", lim - base, rc, tw_trap_name(trap));
            else if (tw_env_allocated(env) != base)
                d = mc::fmt("%zu bytes not given back", tw_env_allocated(env) - base);
            else if (tw_env_peak(env) > lim && tw_env_peak(env) > peak0)
                d = mc::fmt("heap use %zu exceeded the limit %zu", tw_env_peak(env), lim);
        }
        tw_env_setlimit(env, SIZE_MAX);
        int trap;
        twv a{0, 0}, r;
        int rc = d.empty() ? tw_call(I.in, 0, &a, &r, nullptr, &trap) : 0;
        if (d.empty() && (rc != 0 || r.lo != 7))
            d = mc::fmt("call after exhaustion gave %d, %u", rc, (unsigned)r.lo);
    }
    Env = save;
    size_t left = tw_env_free(env);
    if (d.empty() && left)
        d = mc::fmt("%zu bytes still accounted", left);
    if (!d.empty())
        X->fail("runaway recursion kind %d: %s", kind, d.c_str());
}

/* growth of a memory or table with limits (min, max): all sequences of deltas */
static bool growth(int kind, uint64_t mn, int64_t mxm, size_t depth)
{
    /* kinds: 0 memory, 1 memory with 1-byte pages, 2 shared memory, 3 funcref table, 4 externref table, 5 second memory, 6 imported memory */
    Module m, ex;
    bool table = kind == 3 || kind == 4;
    Lim l{mn, mxm >= 0, (uint64_t)(mxm < 0 ? 0 : mxm)};
    if (kind == 2) {
        if (mxm < 0)
            return true;
        l.shared = true;
    }
    if (kind == 1)
        l.custom = true, l.shift = 0;
    Bytes b;
    FT t{{T_I32}, {T_I32}}, q{{}, {T_I32}};
    if (table) {
        m.tables.push_back({(uint8_t)(kind == 3 ? T_FUNCREF : T_EXTERNREF), l});
        u8(b, 0xd0), u8(b, kind == 3 ? T_FUNCREF : T_EXTERNREF);
        lget(b, 0);
        u8(b, 0xfc), u8(b, 15), u8(b, 0);
        m.func(t, b);
        b.clear();
        u8(b, 0xfc), u8(b, 16), u8(b, 0);
        m.func(q, b);
    } else {
        unsigned mi = kind == 5 ? 1 : 0;
        if (kind == 5)
            m.mems.push_back({1, true, 1});
        if (kind == 6) {
            ex.mems.push_back(l);
            ex.exp("m", 2, 0);
            Import i;
            i.mod = "x", i.name = "m", i.kind = 2, i.l = l;
            i.l.hasmax = false;
            m.imports.push_back(i);
        } else
            m.mems.push_back(l);
        lget(b, 0);
        u8(b, 0x40), u8(b, mi);
        m.func(t, b);
        b.clear();
        u8(b, 0x3f), u8(b, mi);
        m.func(q, b);
    }
    static const uint32_t deltas[] = {0, 1, 2, 3, 5, 0x8000, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu};
    const size_t ND = 10;
    uint64_t cap = table ? 0xffffffffull : kind == 1 ? 0xffffffffull : 65536;
    uint64_t seqs = 1;
    for (size_t i = 0; i < depth; i++)
        seqs *= ND;
    std::string d, hist;
    for (uint64_t sq = 0; sq < seqs && d.empty(); sq++) {
        Inst E, I;
        if (kind == 6) {
            d = E.load(ex);
            I.im = tw_imports_new(Env);
            if (d.empty())
                tw_imports_add_exports(I.im, E.in, "x");
        }
        if (d.empty())
            d = I.load(m);
        uint64_t size = mn, mxv = mxm < 0 ? cap : (uint64_t)mxm;
        uint64_t z = sq;
        hist = "";
        for (size_t i = 0; i < depth && d.empty(); i++, z /= ND) {
            uint32_t dl = deltas[z % ND];
            bool ok = size + dl <= mxv;
            bool may = ok && dl > 5; /* may be refused for want of memory */
            if (ok && dl > (table || kind == 1 ? 0x10000 : 5))
                continue; /* would really allocate gigabytes */
            twv a{dl, 0}, r;
            int trap;
            int rc = tw_call(I.in, 0, &a, &r, nullptr, &trap);
            X->add(c_grow);
            hist += mc::fmt(" +%u->%d", dl, (int)r.lo);
            uint32_t want = ok ? (uint32_t)size : 0xffffffffu;
            if (rc != 0)
                d = mc::fmt("grow failed with %d/%s", rc, tw_trap_name(trap));
            else if ((uint32_t)r.lo != want && !(may && (uint32_t)r.lo == 0xffffffffu))
                d = mc::fmt("grow by %u from %llu (max %llu) gave %u", dl, (unsigned long long)size, (unsigned long long)mxv, (unsigned)r.lo);
            else if ((uint32_t)r.lo != 0xffffffffu)
                size += dl;
            if (d.empty()) {
                rc = tw_call(I.in, 1, nullptr, &r, nullptr, &trap);
                if (rc != 0 || r.lo != size)
                    d = mc::fmt("size is %u, expected %llu", (unsigned)r.lo, (unsigned long long)size);
            }
        }
        X->outcome(mc::fnv(hist) + (unsigned)kind);
    }
    if (!d.empty()) {
        X->fail("growth kind %d min %llu max %lld after%s: %s", kind, (unsigned long long)mn, (long long)mxm, hist.c_str(), d.c_str());
        return false;
    }
    return true;
}

/* locals that do not fit are refused at load time or reported, never wrap */
static void hugelocals(int k)
{
    struct H {
        TL p;
        std::vector<std::pair<uint32_t, uint8_t>> l;
    };
    std::vector<H> hs = {
        {{T_I32, T_I32}, {{0xffffffffu, T_I32}}},
        {{T_I32}, {{0xffffffffu, T_I32}}},
        {{}, {{0x40000000u, T_V128}}},
        {{}, {{0x40000000u, T_V128}, {1, T_V128}}},
        {{}, {{0x80000000u, T_I64}, {1, T_I64}}},
        {{}, {{0x80000000u, T_I64}, {2, T_I32}}},
        {{T_I64}, {{0x7fffffffu, T_I64}}},
        {{}, {{0x80000000u, T_I32}, {0x80000000u, T_I32}}},
        {{}, {{0xffffffffu, T_I32}, {1, T_I32}}},
        {{}, {{0xffffffffu, T_F32}, {0xffffffffu, T_F64}, {3, T_I64}}},
    };
    H &h = hs[(size_t)k];
    Module m;
    Bytes b;
    uint32_t n = (uint32_t)h.p.size();
    uint8_t t = h.l[0].second;
    konst(b, t, 0x41);
    lset(b, n + 5);
    lget(b, n + 5);
    u8(b, 0x1a);
    i32c(b, 1);
    m.func(FT{h.p, {T_I32}}, b, h.l);
    Bytes bin = m.encode();
    int err, trap;
    struct rlimit rl, old;
    getrlimit(RLIMIT_AS, &old);
#ifndef MC_ASAN
    rl = old;
    rl.rlim_cur = 3ull << 30;
    setrlimit(RLIMIT_AS, &rl);
#else
    (void)rl;
    tw_env_setlimit(Env, 1ull << 30);
#endif
    tw_mod *md = tw_load(Env, bin.data(), bin.size(), 0, &err, nullptr, 0);
    if (md) {
        tw_inst *in = tw_instantiate(md, nullptr, &err, &trap);
        if (in) {
            twv a[4] = {{1, 0}, {2, 0}, {3, 0}, {4, 0}}, r;
            int rc = tw_call(in, 0, a, &r, nullptr, &trap);
            X->add(c_runs);
            if (rc == 0 && r.lo != 1)
                X->fail("huge locals %d: wrong result", k);
            tw_inst_destroy(in);
        }
        tw_unload(md);
    }
    setrlimit(RLIMIT_AS, &old);
    tw_env_setlimit(Env, SIZE_MAX);
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "limits");
    X = &x;
    c_runs = x.counter("limited_executions");
    c_traps = x.counter("limit_traps");
    c_mods = x.counter("modules");
    c_grow = x.counter("growth_operations");
    smallcells = x.opt.get("nocell") != "1";
    seplocals = x.opt.get("localsonstack") != "1";
    eh = x.opt.get("noeh") != "1";
    bool th = x.opt.thorough();
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    std::vector<TL> ls{{}};
    for (auto t : ALLT)
        ls.push_back({t});
    ls.push_back({T_I32, T_V128});
    ls.push_back({T_I64, T_I32, T_F64});
    for (auto a : ALLT)
        for (auto b : ALLT)
            ls.push_back({a, b});
    struct Case {
        int kind;
        TL a, b, c;
        int k;
        uint64_t mn;
        int64_t mx;
    };
    std::vector<Case> cs;
    for (int f = 0; f < NFORM; f++) {
        if ((f == C_TRY && !eh))
            continue;
        for (auto &p : ls)
            for (auto &l : ls)
                for (auto &o : ls)
                    if (p.size() + l.size() + o.size() <= (th ? 5 : 3))
                        cs.push_back({0, p, l, o, f, 0, 0});
    }
    for (int k = 0; k < NLOOP; k++)
        for (auto &p : ls)
            for (auto &q : ls)
                cs.push_back({1, p, q, {}, k, 0, 0});
    for (int k = 0; k < 3; k++)
        cs.push_back({2, {}, {}, {}, k, 0, 0});
    for (int kind = 0; kind < 7; kind++)
        for (uint64_t mn = 0; mn <= 5; mn++)
            for (int64_t mxm = -1; mxm <= 7; mxm++)
                if (mxm < 0 || (uint64_t)mxm >= mn)
                    cs.push_back({3, {}, {}, {}, kind, mn, mxm});
    for (int k = 0; k < 10; k++)
        cs.push_back({4, {}, {}, {}, k, 0, 0});
    x.run(cs.size(), [&](uint64_t i) {
        Case &c = cs[i];
        size_t before = tw_env_allocated(Env);
        switch (c.kind) {
        case 0: {
            static const TL l2s[] = {{}, {T_I64, T_V128}};
            for (auto &l2 : l2s)
                for (auto &o2 : l2s)
                    if (!recursion({c.a, c.b, c.c, l2, o2}, c.k))
                        return;
            break;
        }
        case 1: loops(c.k, c.a, c.b); break;
        case 2: runaway(c.k); break;
        case 3: growth(c.k, c.mn, c.mx, th ? 4 : 3); break;
        case 4: hugelocals(c.k); break;
        }
        if (tw_env_allocated(Env) != before)
            X->fail("%zu bytes still accounted at the end", tw_env_allocated(Env) - before);
    });
    x.sample("f(i64, n) with a v128 operand below the call, recursing 4 deep through a table, with every frame limit 1..9 and every cell limit");
    x.sample("40 rounds of mutual tail calls with different parameter lists under the exact frame and cell limit");
    return x.finish();
}
