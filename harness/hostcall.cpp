/*
 * C22/C08: values across the host boundary, host errors, traps, restarts,
 * tail calls from the host and callbacks, for every combination of value
 * types within the bounds, optionally interrupted at every check point.
 */
#include "hostc.h"
#include "pair.hpp"

using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_calls, c_mods, c_intr, c_cb;
static tw_env *Env;
static bool simd = true, eh = true;
static std::vector<struct tw_exec> modes; /* [0] is uninterrupted */

static char tch(uint8_t t)
{
    switch (t) {
    case T_I32: return 'i';
    case T_I64: return 'I';
    case T_F32: return 'f';
    case T_F64: return 'F';
    case T_V128: return 'v';
    case T_FUNCREF: return 'c';
    case T_EXTERNREF: return 'e';
    case T_EXNREF: return 'x';
    }
    abort();
}
static std::string tstr(const FT &t)
{
    std::string s = "(";
    for (auto c : t.p)
        s += tch(c);
    s += ")";
    for (auto c : t.r)
        s += tch(c);
    return s;
}
typedef std::vector<uint8_t> TL;
static std::vector<uint8_t> alltypes()
{
    std::vector<uint8_t> v{T_I32, T_I64, T_F32, T_F64, T_FUNCREF, T_EXTERNREF};
    if (simd)
        v.push_back(T_V128);
    return v;
}
static std::vector<TL> lists(size_t maxlen)
{
    std::vector<TL> out{{}};
    size_t from = 0;
    for (size_t l = 1; l <= maxlen; l++) {
        size_t to = out.size();
        for (size_t i = from; i < to; i++)
            for (auto t : alltypes()) {
                TL x = out[i];
                x.push_back(t);
                out.push_back(x);
            }
        from = to;
    }
    return out;
}

/* a value that differs in every byte from its neighbours */
static twv val(uint8_t t, unsigned salt, int pattern, tw_inst *in, uint32_t nf)
{
    uint64_t a = 0, b = 0;
    for (int i = 0; i < 8; i++) {
        a |= (uint64_t)(uint8_t)(0x11 + salt * 37 + (unsigned)i * 9) << (8 * i);
        b |= (uint64_t)(uint8_t)(0xe3 - salt * 29 - (unsigned)i * 13) << (8 * i);
    }
    if (pattern == 1)
        a = ~0ull << (salt % 5), b = 0x7ff4000000000001ull + salt;
    if (pattern == 2)
        a = salt & 1 ? 0 : 0x8000000080000000ull, b = 0;
    switch (t) {
    case T_I32: return {(uint32_t)a, 0};
    case T_F32: return {pattern == 1 ? 0xff800001u + salt : (uint32_t)a, 0};
    case T_I64: return {a, 0};
    case T_F64: return {pattern == 1 ? 0xfff0000000000001ull + salt : a, 0};
    case T_V128: return {a, b};
    case T_FUNCREF: return {pattern == 2 && (salt & 1) ? 0 : in && nf ? tw_func_identity(in, salt % nf) : 0, 0};
    case T_EXTERNREF: return {pattern == 2 && (salt & 1) ? 0 : a, 0};
    }
    return {0, 0};
}
static void fill(twv *v, const TL &l, unsigned salt, int pat, tw_inst *in, uint32_t nf)
{
    for (size_t i = 0; i < l.size(); i++)
        v[i] = val(l[i], salt + (unsigned)i, pat, in, nf);
}
static std::string cmp(const twv *a, const twv *b, const TL &l, const char *what)
{
    for (size_t i = 0; i < l.size(); i++)
        if (a[i].lo != b[i].lo || a[i].hi != b[i].hi)
            return mc::fmt("%s %zu is %s, expected %s", what, i, vstr(l[i], a[i]).c_str(), vstr(l[i], b[i]).c_str());
    return "";
}

static const uint64_t J64 = 0x0123456789abcdefull;

/* function forms around a host function h (function index hidx, table slot) */
enum { HF_DIRECT, HF_IND, HF_TAIL, HF_TAILIND, HF_WTAIL, HF_WTAILIND, NFORM };
struct Forms {
    uint32_t f[NFORM];
    bool junk[NFORM];
};
static void params(Bytes &b, const TL &p)
{
    for (size_t i = 0; i < p.size(); i++)
        lget(b, (uint32_t)i);
}
static Forms forms(Module &m, const FT &h, uint32_t hidx, uint32_t slot)
{
    Forms o;
    FT jt = h;
    jt.r.insert(jt.r.begin(), T_I64);
    uint32_t hti = m.type(h);
    auto mark = [](Bytes &b) {
        i32c(b, 1);
        gset(b, 0);
    };
    for (int k = 0; k < NFORM; k++) {
        Bytes b;
        o.junk[k] = true;
        if (k == HF_TAIL || k == HF_TAILIND) {
            o.junk[k] = false;
            i64c(b, 7);
            f32c(b, 0x41414141);
        } else
            i64c(b, J64);
        params(b, h.p);
        switch (k) {
        case HF_DIRECT: u8(b, 0x10), uleb(b, hidx); break;
        case HF_IND: i32c(b, slot), u8(b, 0x11), uleb(b, hti), u8(b, 0); break;
        case HF_TAIL: u8(b, 0x12), uleb(b, hidx); break;
        case HF_TAILIND: i32c(b, slot), u8(b, 0x13), uleb(b, hti), u8(b, 0); break;
        case HF_WTAIL: u8(b, 0x10), uleb(b, o.f[HF_TAIL]); break;
        case HF_WTAILIND: u8(b, 0x10), uleb(b, o.f[HF_TAILIND]); break;
        }
        if (o.junk[k])
            mark(b);
        o.f[k] = m.func(o.junk[k] ? jt : h, b, {{1, T_I64}, {1, T_I32}});
    }
    return o;
}

struct Inst {
    tw_mod *mod = nullptr;
    tw_imports *im = nullptr;
    tw_inst *in = nullptr;
    std::vector<hc_host *> hosts;
    ~Inst()
    {
        tw_inst_destroy(in);
        tw_imports_free(im);
        tw_unload(mod);
        for (auto h : hosts)
            hc_host_free(h);
    }
    std::string load(Module &m, unsigned opts = 0)
    {
        Bytes b = m.encode();
        int err, trap;
        char msg[200];
        mod = tw_load(Env, b.data(), b.size(), opts, &err, msg, sizeof(msg));
        if (!mod)
            return mc::fmt("load failed: %d %s", err, msg);
        in = tw_instantiate(mod, im, &err, &trap);
        if (!in)
            return mc::fmt("instantiation failed: %d trap %s", err, tw_trap_name(trap));
        return "";
    }
    hc_plan *plan(size_t i) { return hc_getplan(hosts[i], 0); }
    void host(const std::string &name, const FT &t)
    {
        if (!im)
            im = tw_imports_new(Env);
        hc_host *h = hc_host_new(Env, im, "h", name.c_str(), tstr(t).c_str());
        if (!h)
            abort();
        hosts.push_back(h);
    }
};
static void imp(Module &m, const std::string &n, const FT &t)
{
    Import i;
    i.mod = "h";
    i.name = n;
    i.kind = 0;
    i.typeidx = m.type(t);
    m.imports.push_back(i);
}
static std::string outcome_str(int tc, int trap)
{
    return tc == 0 ? "results" : tc == TW_TRAP ? std::string("trap ") + tw_trap_name(trap) : mc::fmt("error %d", tc);
}

/* expected outcome of one embedder call */
struct Expect {
    int rc = 0, trap = 0;
    const twv *res = nullptr;
};
static std::string run(Inst &I, uint32_t fidx, bool junk, const FT &h, const twv *args, const Expect &e, struct tw_exec x)
{
    TL rt = h.r;
    twv res[HC_MAXV + 1];
    twv want[HC_MAXV + 1];
    if (junk)
        rt.insert(rt.begin(), T_I64);
    size_t o = junk ? 1 : 0;
    want[0] = {J64, 0};
    if (e.res)
        for (size_t i = 0; i < h.r.size(); i++)
            want[i + o] = e.res[i];
    int trap;
    twv before = tw_global_get(I.in, 0);
    (void)before;
    int tc = tw_call(I.in, fidx, args, res, &x, &trap);
    X->add(c_calls);
    X->add(c_intr, x.n_intr);
    if (tc != e.rc || (tc == TW_TRAP && trap != e.trap))
        return "got " + outcome_str(tc, trap) + ", expected " + outcome_str(e.rc, e.trap);
    if (tc == 0) {
        std::string d = cmp(res, want, rt, "result");
        if (!d.empty())
            return d;
    }
    uint64_t h2 = mc::fnv(&tc, sizeof(tc));
    h2 = mc::fnv(res, tc == 0 ? rt.size() * 16 : 0, h2);
    X->outcome(h2);
    return "";
}
/* the marker global: set exactly when wasm code after the call ran */
static std::string marker(Inst &I, bool expect)
{
    twv g = tw_global_get(I.in, 0);
    if ((g.lo != 0) != expect)
        return expect ? "code after the host call did not run" : "wasm code ran after the host call failed";
    return "";
}
static void setmark(Inst &I, uint32_t clr)
{
    int trap;
    twv r;
    tw_call(I.in, clr, nullptr, &r, nullptr, &trap);
}

struct Beh {
    const char *name;
    int restarts, final, err;
};
static const Beh behs[] = {{"returns", 0, HC_RETURN, 0}, {"restarts twice then returns", 2, HC_RETURN, 0}, {"traps", 0, HC_TRAP, 0},
                           {"restarts then fails", 1, HC_ERRNO, 5}, {"fails", 0, HC_ERRNO, 71}, {"restarts then tail-calls wasm", 1, HC_TAIL, 0}};
static const int NBEH = 6;

static void globals(Module &m)
{
    Bytes z;
    i32c(z, 0);
    m.globals.push_back({T_I32, true, z});
}

/* the wasm function w: takes P and returns constants R; identity: P -> P */
static void consts(Bytes &b, const TL &r, unsigned salt, int pat)
{
    for (size_t i = 0; i < r.size(); i++) {
        twv v = val(r[i], salt + (unsigned)i, pat, nullptr, 0);
        if (r[i] == T_FUNCREF) {
            u8(b, 0xd2);
            u8(b, 0); /* ref.func 0 */
        } else if (r[i] == T_EXTERNREF) {
            u8(b, 0xd0);
            u8(b, T_EXTERNREF);
        } else
            constant(b, r[i], v);
    }
}
static void constvals(twv *v, const TL &r, unsigned salt, int pat, tw_inst *in)
{
    for (size_t i = 0; i < r.size(); i++) {
        if (r[i] == T_FUNCREF)
            v[i] = {tw_func_identity(in, 0), 0};
        else if (r[i] == T_EXTERNREF)
            v[i] = {0, 0};
        else
            v[i] = val(r[i], salt + (unsigned)i, pat, nullptr, 0);
    }
}

static bool sig(const TL &P, const TL &R, unsigned opts)
{
    FT h{P, R};
    Module m;
    imp(m, "h", h);
    globals(m);
    Forms fs = forms(m, h, 0, 1);
    Bytes b;
    params(b, P);
    uint32_t fid = m.func(FT{P, P}, b);
    b.clear();
    TL Q(P.rbegin(), P.rend());
    for (size_t i = P.size(); i-- > 0;)
        lget(b, (uint32_t)i);
    uint32_t frev = m.func(FT{P, Q}, b);
    b.clear();
    consts(b, R, 3, 0);
    uint32_t fw = m.func(h, b);
    b.clear();
    i32c(b, 0);
    gset(b, 0);
    uint32_t clr = m.func(FT{{}, {}}, b);
    m.tables.push_back({T_FUNCREF, {3, false}});
    Elem e;
    i32c(e.off, 0);
    e.funcs = {fw, 0, clr};
    m.elems.push_back(e);
    m.exp("h", 0, 0);
    Inst I;
    I.host("h", h);
    std::string d = I.load(m, opts);
    X->add(c_mods);
    std::string what;
    uint32_t nf = 1 + (uint32_t)m.funcs.size();
    if (d.empty())
        for (int pat = 0; pat < 3 && d.empty(); pat++) {
            twv args[HC_MAXV], res[HC_MAXV], rev[HC_MAXV], cw[HC_MAXV];
            fill(args, P, 1, pat, I.in, nf);
            fill(res, R, 11, pat, I.in, nf);
            for (size_t i = 0; i < P.size(); i++)
                rev[P.size() - 1 - i] = args[i];
            constvals(cw, R, 3, 0, I.in);
            for (size_t mi = 0; mi < modes.size() && d.empty(); mi++) {
                Expect ex;
                /* embedder to wasm and back */
                what = "identity" + mode_str(modes[mi]);
                ex.res = args;
                d = run(I, fid, false, FT{P, P}, args, ex, modes[mi]);
                if (!d.empty())
                    break;
                what = "reverse" + mode_str(modes[mi]);
                ex.res = rev;
                d = run(I, frev, false, FT{P, Q}, args, ex, modes[mi]);
                if (!d.empty())
                    break;
                what = "constants" + mode_str(modes[mi]);
                ex.res = cw;
                d = run(I, fw, false, h, args, ex, modes[mi]);
                for (int bi = 0; bi < NBEH && d.empty(); bi++) {
                    for (int k = -1; k < NFORM && d.empty(); k++) {
                        static const char *fn[] = {"called by the embedder", "call", "call_indirect", "return_call", "return_call_indirect",
                                                   "call of return_call", "call of return_call_indirect"};
                        hc_plan *p = I.plan(0);
                        memset(p, 0, sizeof(*p));
                        p->restarts[0] = behs[bi].restarts;
                        p->final = behs[bi].final;
                        p->err = behs[bi].err;
                        p->tail = tw_func_identity(I.in, fw);
                        memcpy(p->results, res, sizeof(res));
                        Expect x;
                        x.rc = p->final == HC_TRAP ? TW_TRAP : p->final == HC_ERRNO ? p->err : 0;
                        x.trap = TWT_MISC;
                        x.res = p->final == HC_TAIL ? cw : res;
                        bool junk = k >= 0 && fs.junk[k];
                        setmark(I, clr);
                        what = mc::fmt("host function %s, %s%s, values %d", behs[bi].name, fn[k + 1], mode_str(modes[mi]).c_str(), pat);
                        d = run(I, k < 0 ? 0 : fs.f[k], junk, h, args, x, modes[mi]);
                        if (d.empty())
                            d = cmp(p->args, args, P, "argument");
                        if (d.empty() && p->bad)
                            d = mc::fmt("re-invoked with different state (%d)", p->bad);
                        if (d.empty() && (p->ninvoke != 1 + p->restarts[0] || p->nstart != 1 || p->ndone != 1))
                            d = mc::fmt("host function entered %d times, %d calls, expected %d entries", p->ninvoke, p->nstart, 1 + p->restarts[0]);
                        if (d.empty())
                            d = marker(I, x.rc == 0 && junk);
                    }
                }
                if (!modes[0].intr && pat > 0 && mi > 0)
                    break;
            }
        }
    if (!d.empty()) {
        X->fail("host type %s (load options %u): %s: %s\nmodule %s", tstr(h).c_str(), opts, what.c_str(), d.c_str(), hex(m.encode()).c_str());
        return false;
    }
    return true;
}

/*
 * callbacks: host h: P -> R calls back a function of type Pc -> Rc
 * callee kinds: 0 wasm leaf, 1 wasm leaf reached by a wasm tail call,
 * 2 host function, 3 wasm calling a host function (nested),
 * 4 host function that calls back wasm (nested callback),
 * 5 wasm calling a host function that calls back wasm
 * 6 wasm tail-calling a host function that restarts
 */
static const int NKIND = 7;
static bool callback(const TL &P, const TL &R, const TL &Pc, const TL &Rc, int kind, unsigned opts)
{
    FT h{P, R}, c{Pc, Rc};
    Module m;
    imp(m, "h", h);
    imp(m, "h2", c);
    globals(m);
    Forms fs = forms(m, h, 0, 1);
    Bytes b;
    consts(b, Rc, 5, 0);
    uint32_t leaf = m.func(c, b, {{3, T_I64}});
    b.clear();
    i64c(b, 1);
    params(b, Pc);
    u8(b, 0x12), uleb(b, leaf);
    uint32_t wtail = m.func(c, b);
    b.clear();
    i64c(b, 5);
    u8(b, 0x21), u8(b, (unsigned)Pc.size());
    params(b, Pc);
    u8(b, 0x10), u8(b, 1);
    u8(b, 0x0f); /* return */
    uint32_t wcall = m.func(c, b, {{1, T_I64}});
    b.clear();
    params(b, Pc);
    u8(b, 0x12), u8(b, 1);
    uint32_t wtailhost = m.func(c, b);
    b.clear();
    i32c(b, 0);
    gset(b, 0);
    uint32_t clr = m.func(FT{{}, {}}, b);
    m.tables.push_back({T_FUNCREF, {3, false}});
    Elem e;
    i32c(e.off, 0);
    e.funcs = {leaf, 0, clr};
    m.elems.push_back(e);
    Inst I;
    I.host("h", h);
    I.host("h2", c);
    std::string d = I.load(m, opts);
    X->add(c_mods);
    std::string what;
    uint32_t nf = 2 + (uint32_t)m.funcs.size();
    uint32_t target[NKIND] = {leaf, wtail, 1, wcall, 1, wcall, wtailhost};
    if (d.empty()) {
        int pat = 0;
        twv args[HC_MAXV], res[HC_MAXV], a1[HC_MAXV], a2[HC_MAXV], a3[HC_MAXV], r2[HC_MAXV], cw[HC_MAXV];
        fill(args, P, 1, pat, I.in, nf);
        fill(res, R, 11, pat, I.in, nf);
        fill(a1, Pc, 21, pat, I.in, nf);
        fill(a2, Pc, 31, 1, I.in, nf);
        fill(a3, Pc, 41, 2, I.in, nf);
        fill(r2, Rc, 51, pat, I.in, nf);
        constvals(cw, Rc, 5, 0, I.in);
        for (size_t mi = 0; mi < modes.size() && d.empty(); mi++)
            for (int ncb = 1; ncb <= 2 && d.empty(); ncb++)
                for (int beh = 0; beh < 6 && d.empty(); beh++)
                    for (int k = -1; k < NFORM && d.empty(); k++) {
                        hc_plan *p = I.plan(0), *q = I.plan(1);
                        memset(p, 0, sizeof(*p));
                        memset(q, 0, sizeof(*q));
                        p->ncb = ncb;
                        for (int z = 0; z < ncb; z++) {
                            p->cb[z].func = tw_func_identity(I.in, target[kind]);
                            memcpy(p->cb[z].args, z ? a2 : a1, sizeof(a1));
                        }
                        memcpy(p->results, res, sizeof(res));
                        memcpy(q->results, r2, sizeof(r2));
                        const twv *cbres = kind < 2 ? cw : r2;
                        bool usesq = kind >= 2;
                        if (kind == 4 || kind == 5) {
                            q->ncb = 1;
                            q->cb[0].func = tw_func_identity(I.in, leaf);
                            memcpy(q->cb[0].args, a3, sizeof(a3));
                        }
                        if (kind == 6)
                            q->restarts[0] = 1;
                        Expect x;
                        x.res = res;
                        int inv = 1 + ncb;
                        switch (beh) {
                        case 0: break;
                        case 1: /* restarts around every step */
                            for (int z = 0; z <= ncb; z++)
                                p->restarts[z] = z == 1 ? 2 : 1;
                            inv += ncb + 2;
                            if (usesq)
                                q->restarts[0] = 2, q->restarts[1] = 1;
                            break;
                        case 2: p->final = HC_TRAP; break;
                        case 3: p->final = HC_ERRNO, p->err = 33; break;
                        case 4: /* the callee fails */
                            if (!usesq)
                                continue;
                            q->final = HC_TRAP;
                            break;
                        case 5:
                            if (!usesq)
                                continue;
                            q->final = HC_ERRNO;
                            q->err = 44;
                            break;
                        }
                        if (p->final == HC_TRAP || q->final == HC_TRAP)
                            x.rc = TW_TRAP, x.trap = TWT_MISC;
                        if (p->final == HC_ERRNO)
                            x.rc = p->err;
                        if (q->final == HC_ERRNO)
                            x.rc = q->err;
                        bool qfail = q->final != HC_RETURN;
                        if (qfail)
                            inv = 1;
                        bool junk = k >= 0 && fs.junk[k];
                        setmark(I, clr);
                        what = mc::fmt("callee kind %d, %d callbacks, behaviour %d, form %d%s", kind, ncb, beh, k, mode_str(modes[mi]).c_str());
                        d = run(I, k < 0 ? 0 : fs.f[k], junk, h, args, x, modes[mi]);
                        X->add(c_cb);
                        if (d.empty())
                            d = cmp(p->args, args, P, "host argument");
                        for (int z = 0; z < ncb && d.empty() && !qfail; z++)
                            d = cmp(p->cb[z].results, cbres, Rc, "callback result");
                        if (d.empty() && usesq)
                            d = cmp(q->args, qfail || ncb == 1 ? a1 : a2, Pc, "callee argument");
                        if (d.empty() && (kind == 4 || kind == 5) && q->ndone)
                            d = cmp(q->cb[0].results, cw, Rc, "nested callback result");
                        if (d.empty() && (p->bad || q->bad))
                            d = mc::fmt("re-invoked with different state (%d, %d)", p->bad, q->bad);
                        if (d.empty() && (p->nstart != 1 || p->ninvoke != inv || p->ndone != (qfail ? 0 : 1)))
                            d = mc::fmt("host function entered %d times (%d calls, %d completed), expected %d", p->ninvoke, p->nstart, p->ndone, inv);
                        if (d.empty() && usesq && q->nstart != (qfail ? 1 : ncb))
                            d = mc::fmt("callee host function called %d times", q->nstart);
                        if (d.empty())
                            d = marker(I, x.rc == 0 && junk);
                    }
    }
    if (!d.empty()) {
        X->fail("host type %s calling back %s (load options %u): %s: %s\nmodule %s", tstr(h).c_str(), tstr(c).c_str(), opts, what.c_str(), d.c_str(),
                hex(m.encode()).c_str());
        return false;
    }
    return true;
}

/*
 * abandonment: leave the execution at every interrupt point k with host
 * functions and callbacks in flight
 */
static bool abandon(const TL &P, const TL &R, int kind)
{
    FT h{P, R}, c{P, R};
    Module m;
    imp(m, "h", h);
    imp(m, "h2", c);
    globals(m);
    Forms fs = forms(m, h, 0, 1);
    Bytes b;
    /* a loop that never ends when global 0 is 0, entered after the first callback */
    if (kind == 0) {
        u8(b, 0x03), u8(b, 0x40), u8(b, 0x0c), u8(b, 0), u8(b, 0x0b);
        u8(b, 0x00);
    } else if (kind == 1) { /* endless tail recursion */
        params(b, P);
        u8(b, 0x12), uleb(b, 2 + NFORM);
    } else { /* endless tail call of the host function, which restarts */
        params(b, P);
        u8(b, 0x12), u8(b, 1);
    }
    uint32_t loop = m.func(c, b);
    m.tables.push_back({T_FUNCREF, {3, false}});
    Elem e;
    i32c(e.off, 0);
    e.funcs = {loop, 0, 1};
    m.elems.push_back(e);
    std::string d;
    size_t before = tw_env_allocated(Env);
    {
        Inst I;
        I.host("h", h);
        I.host("h2", c);
        d = I.load(m, 0);
        for (int k = -1; k < NFORM && d.empty(); k++)
            for (unsigned delay = 0; delay < 8 && d.empty(); delay++) {
                hc_plan *p = I.plan(0), *q = I.plan(1);
                memset(p, 0, sizeof(*p));
                memset(q, 0, sizeof(*q));
                p->ncb = 1;
                p->cb[0].func = tw_func_identity(I.in, loop);
                q->ncb = 1; /* nested: host2 calls back the loop again */
                q->cb[0].func = tw_func_identity(I.in, loop);
                if (kind == 2) {
                    q->ncb = 0;
                    q->final = HC_TAIL;
                    q->tail = tw_func_identity(I.in, loop);
                }
                struct tw_exec x;
                memset(&x, 0, sizeof(x));
                x.intr = 1;
                x.intr_delay = delay;
                x.abandon = 1;
                x.check_interval = 1;
                twv args[HC_MAXV], res[HC_MAXV + 1];
                fill(args, P, 1, 0, I.in, 1);
                int trap;
                int rc = tw_call(I.in, k < 0 ? 0 : fs.f[k], args, res, &x, &trap);
                X->add(c_calls);
                if (rc != TW_USERINTR)
                    d = mc::fmt("kind %d form %d: a non-terminating callback returned %s instead of honouring the interrupt at check %u", kind, k,
                                outcome_str(rc, trap).c_str(), delay);
            }
    }
    if (d.empty() && tw_env_allocated(Env) != before)
        d = mc::fmt("%zu bytes still accounted after abandoning", tw_env_allocated(Env) - before);
    if (!d.empty()) {
        X->fail("abandon %s: %s", tstr(h).c_str(), d.c_str());
        return false;
    }
    return true;
}

/* assorted single scenarios */
static void special(int which)
{
    std::string d, what;
    Module m;
    size_t before = tw_env_allocated(Env);
    if (which == 0) {
        /* exnref through host functions: caught, passed through the host, rethrown */
        if (!eh)
            return;
        what = "exnref through a host function";
        for (auto &extra : lists(2)) {
            Module mm;
            FT h{{T_EXNREF}, {T_EXNREF}};
            h.p.insert(h.p.end(), extra.begin(), extra.end());
            h.r.insert(h.r.end(), extra.begin(), extra.end());
            imp(mm, "h", h);
            globals(mm);
            uint32_t tt = mm.type(FT{{T_I32, T_I64}, {}});
            mm.tags.push_back(tt);
            /* ( ) -> i32 i64 : block (i32 i64) try_table catch 0 0: try { throw } catch_ref -> h -> drop extras; throw_ref */
            uint32_t tr = mm.type(FT{{}, {T_I32, T_I64}});
            uint32_t trx = mm.type(FT{{}, {T_I32, T_I64, T_EXNREF}});
            Bytes b;
            u8(b, 0x02), uleb(b, tr);
            u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 0), u8(b, 0), u8(b, 0);
            u8(b, 0x02), uleb(b, trx);
            u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 1), u8(b, 0), u8(b, 0); /* catch_ref 0 -> 0 */
            i32c(b, 0x11223344), i64c(b, 0x5566778899aabbccull), u8(b, 0x08), u8(b, 0);
            u8(b, 0x0b); /* end inner try_table */
            u8(b, 0x00); /* unreachable */
            u8(b, 0x0b); /* end block */
            /* stack i32 i64 exnref */
            for (size_t i = 0; i < extra.size(); i++)
                lget(b, (uint32_t)i);
            u8(b, 0x10), u8(b, 0);
            for (size_t i = extra.size(); i-- > 0;)
                lset(b, (uint32_t)i);
            u8(b, 0x0a); /* throw_ref */
            u8(b, 0x0b); /* end outer try_table */
            u8(b, 0x00);
            u8(b, 0x0b);
            for (size_t i = 0; i < extra.size(); i++)
                lget(b, (uint32_t)i);
            FT ft{extra, {T_I32, T_I64}};
            ft.r.insert(ft.r.end(), extra.begin(), extra.end());
            uint32_t f = mm.func(ft, b);
            Inst I;
            I.host("h", h);
            d = I.load(mm);
            for (size_t mi = 0; mi < modes.size() && d.empty(); mi++) {
                hc_plan *p = I.plan(0);
                memset(p, 0, sizeof(*p));
                p->restarts[0] = 1;
                twv args[HC_MAXV], want[HC_MAXV];
                fill(args, extra, 1, 0, I.in, 1);
                want[0] = {0x11223344, 0}, want[1] = {0x5566778899aabbccull, 0};
                twv rs[HC_MAXV];
                fill(rs, extra, 9, 0, I.in, 1);
                for (size_t i = 0; i < extra.size(); i++) {
                    p->results[i + 1] = rs[i];
                    want[i + 2] = rs[i];
                }
                Expect e;
                e.res = want;
                d = run(I, f, false, ft, args, e, modes[mi]);
                if (d.empty())
                    d = cmp(p->args + 1, args, extra, "argument");
            }
            if (!d.empty()) {
                what += " " + tstr(h);
                break;
            }
        }
    } else if (which == 1) {
        /* an exception escaping a callback does not cross the host frame */
        if (!eh)
            return;
        what = "exception thrown by a callback";
        FT v{{}, {}};
        imp(m, "h", v);
        globals(m);
        m.tags.push_back(m.type(v));
        Bytes b;
        u8(b, 0x08), u8(b, 0);
        uint32_t thr = m.func(v, b);
        b.clear();
        u8(b, 0x02), u8(b, 0x40);
        u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 2), u8(b, 0); /* catch_all 0 */
        u8(b, 0x10), u8(b, 0);
        u8(b, 0x0b), u8(b, 0x0b);
        i32c(b, 1), gset(b, 0);
        uint32_t f = m.func(v, b);
        b.clear();
        /* the callback itself catches: fine */
        u8(b, 0x02), u8(b, 0x40);
        u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 2), u8(b, 0);
        u8(b, 0x10), uleb(b, thr);
        u8(b, 0x0b), u8(b, 0x0b);
        uint32_t ok = m.func(v, b);
        m.exp("t", 0, thr);
        Inst I;
        I.host("h", v);
        d = I.load(m);
        for (size_t mi = 0; mi < modes.size() && d.empty(); mi++) {
            hc_plan *p = I.plan(0);
            memset(p, 0, sizeof(*p));
            p->ncb = 1;
            p->cb[0].func = tw_func_identity(I.in, thr);
            Expect e;
            e.rc = TW_TRAP, e.trap = TWT_UNCAUGHT;
            d = run(I, f, false, v, nullptr, e, modes[mi]);
            if (d.empty() && tw_global_get(I.in, 0).lo)
                d = "wasm code ran after the uncaught exception";
            memset(p, 0, sizeof(*p));
            p->ncb = 2;
            p->cb[0].func = p->cb[1].func = tw_func_identity(I.in, ok);
            if (d.empty())
                d = run(I, f, false, v, nullptr, Expect(), modes[mi]);
            if (d.empty() && !tw_global_get(I.in, 0).lo)
                d = "caller did not continue";
            /* reset the marker by a new instance */
            if (d.empty()) {
                tw_inst_destroy(I.in);
                int er, tr;
                I.in = tw_instantiate(I.mod, I.im, &er, &tr);
            }
        }
    } else if (which == 2) {
        /* several host modules in one import object; the right function is bound */
        what = "several host modules";
        const char *mods[] = {"a", "b"};
        const char *names[] = {"f", "g", "f", "gg"};
        const char *types[] = {"(i)i", "(i)i", "(i)i", "(i)i"};
        FT t{{T_I32}, {T_I32}};
        const char *im[][2] = {{"b", "f"}, {"a", "g"}, {"b", "gg"}, {"a", "f"}};
        int idx[] = {2, 1, 3, 0};
        for (auto &x : im) {
            imp(m, x[1], t);
            m.imports.back().mod = x[0];
        }
        globals(m);
        Inst I;
        I.im = tw_imports_new(Env);
        hc_host *h = hc_host_new_multi(Env, I.im, 2, mods, 2, names, types);
        I.hosts.push_back(h);
        d = I.load(m);
        for (uint32_t k = 0; k < 4 && d.empty(); k++) {
            for (int z = 0; z < 4; z++)
                hc_getplan(h, z)->results[0] = {(uint64_t)(100 + z), 0};
            twv a{7 + k, 0}, w{(uint64_t)(100 + idx[k]), 0};
            Expect e;
            e.res = &w;
            d = run(I, k, false, t, &a, e, modes[0]);
            if (d.empty() && hc_getplan(h, idx[k])->args[0].lo != a.lo)
                d = "argument not received";
        }
    } else if (which == 3) {
        /* a host function as start function: runs once; its failure fails instantiation */
        what = "host start function";
        FT v{{}, {}};
        for (int beh = 0; beh < 4 && d.empty(); beh++) {
            Module mm;
            imp(mm, "h", v);
            globals(mm);
            mm.start = 0;
            Inst I;
            I.host("h", v);
            hc_plan *p = I.plan(0);
            p->final = beh == 1 ? HC_TRAP : beh == 2 ? HC_ERRNO : HC_RETURN;
            p->err = 13;
            p->restarts[0] = beh == 3 ? 2 : 0;
            Bytes b = mm.encode();
            int err, trap;
            I.mod = tw_load(Env, b.data(), b.size(), 0, &err, nullptr, 0);
            if (!I.mod) {
                d = "load failed";
                break;
            }
            I.in = tw_instantiate(I.mod, I.im, &err, &trap);
            int want = beh == 1 ? TW_TRAP : beh == 2 ? 13 : 0;
            if (err != want || (I.in != nullptr) != (want == 0))
                d = mc::fmt("behaviour %d: instantiation gave %s, expected %d", beh, outcome_str(err, trap).c_str(), want);
            else if (p->nstart != 1 || p->ninvoke != 1 + p->restarts[0])
                d = mc::fmt("behaviour %d: start function entered %d times", beh, p->ninvoke);
        }
    } else if (which == 4) {
        /* long lists */
        what = "long value lists";
        for (auto t : alltypes())
            for (auto u : alltypes()) {
                TL P, R;
                for (int i = 0; i < 20; i++)
                    P.push_back(i % 3 == 1 ? u : t), R.push_back(i % 4 == 2 ? t : u);
                if (!sig(P, R, 0) || !sig(P, {}, 0) || !sig({}, R, 0))
                    return;
            }
    } else if (which == 6) {
        /* malformed type strings are refused and leave nothing behind */
        what = "malformed host function type";
        const char *bad[] = {"", "i", "(", "(i", ")", "(z)", "(iz)", "(i)z", "(i)iz", "(zi)i", "i)", "()(", "())"};
        for (auto t : bad) {
            tw_imports *im = tw_imports_new(Env);
            hc_host *h = hc_host_new(Env, im, "h", "h", t);
            if (h) {
                d = mc::fmt("\"%s\" was accepted", t);
                hc_host_free(h);
            }
            tw_imports_free(im);
            if (d.empty() && tw_env_allocated(Env) != before)
                d = mc::fmt("\"%s\": %zu bytes still accounted", t, tw_env_allocated(Env) - before);
            if (!d.empty())
                break;
        }
    } else if (which == 5) {
        /* a host function re-exported by one module and imported by another */
        what = "re-exported host function";
        for (auto &P : lists(1))
            for (auto &R : lists(1)) {
                FT h{P, R};
                Module A, B;
                imp(A, "h", h);
                globals(A);
                A.exp("r", 0, 0);
                imp(B, "r", h);
                B.imports[0].mod = "A";
                globals(B);
                Forms fs = forms(B, h, 0, 1);
                B.tables.push_back({T_FUNCREF, {3, false}});
                Elem e;
                i32c(e.off, 1);
                e.funcs = {0};
                B.elems.push_back(e);
                Inst I, K;
                I.host("h", h);
                d = I.load(A);
                if (d.empty()) {
                    K.im = tw_imports_new(Env);
                    tw_imports_add_exports(K.im, I.in, "A");
                    d = K.load(B);
                }
                for (int k = -1; k < NFORM && d.empty(); k++)
                    for (size_t mi = 0; mi < modes.size() && d.empty(); mi++) {
                        hc_plan *p = I.plan(0);
                        memset(p, 0, sizeof(*p));
                        p->restarts[0] = 1;
                        twv args[HC_MAXV];
                        fill(args, P, 1, 0, I.in, 1);
                        fill(p->results, R, 9, 0, I.in, 1);
                        Expect x;
                        x.res = p->results;
                        d = run(K, k < 0 ? 0 : fs.f[k], k >= 0 && fs.junk[k], h, args, x, modes[mi]);
                        if (d.empty())
                            d = cmp(p->args, args, P, "argument");
                    }
                if (!d.empty()) {
                    what += " " + tstr(h);
                    goto out;
                }
            }
    }
out:
    if (d.empty() && tw_env_allocated(Env) != before && which != 4)
        (void)0;
    if (!d.empty())
        X->fail("%s: %s", what.c_str(), d.c_str());
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "hostcall");
    X = &x;
    c_calls = x.counter("embedder_calls");
    c_mods = x.counter("modules");
    c_intr = x.counter("interrupts_taken");
    c_cb = x.counter("callback_scenarios");
    simd = x.opt.get("nosimd") != "1";
    eh = x.opt.get("noeh") != "1";
    bool th = x.opt.thorough();
    bool intr = x.opt.get("intr") == "1";
    struct tw_exec plain;
    memset(&plain, 0, sizeof(plain));
    modes.push_back(plain);
    if (intr) {
        auto v = th ? intr_modes(4, 12) : intr_modes(2, 5);
        modes.insert(modes.end(), v.begin(), v.end());
    }
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    auto l1 = lists(1), l2 = lists(2), l3 = lists(3);
    struct Case {
        int kind;
        TL a, b, c, d;
        int k;
    };
    std::vector<Case> cs;
    for (auto &p : l2)
        for (auto &r : l2)
            if (!intr || th || p.size() + r.size() <= 3)
                cs.push_back({0, p, r, {}, {}, 0});
    if (!intr || th)
        for (auto &p : l3)
            for (auto &r : th ? l2 : l1)
                if (p.size() == 3) {
                    cs.push_back({0, p, r, {}, {}, 0});
                    cs.push_back({0, r, p, {}, {}, 0});
                }
    for (int k = 0; k < NKIND; k++)
        for (auto &p : l1)
            for (auto &r : l1)
                for (auto &pc : l1)
                    for (auto &rc : l1)
                        if (!intr || th || p.size() + r.size() + pc.size() + rc.size() <= 2)
                            cs.push_back({1, p, r, pc, rc, k});
    if (th)
        for (int k = 0; k < NKIND; k++)
            for (auto &pc : l2)
                for (auto &rc : l2)
                    cs.push_back({1, pc, rc, rc, pc, k});
    for (auto &p : l1)
        for (auto &r : l1)
            for (int k = 0; k < 3; k++)
                cs.push_back({2, p, r, {}, {}, k});
    for (int k = 0; k < 7; k++)
        cs.push_back({3, {}, {}, {}, {}, k});
    x.run(cs.size(), [&](uint64_t i) {
        Case &c = cs[i];
        size_t before = tw_env_allocated(Env);
        switch (c.kind) {
        case 0:
            for (unsigned o : {0u, 6u})
                if (!sig(c.a, c.b, o))
                    return;
            break;
        case 1: callback(c.a, c.b, c.c, c.d, c.k, 0); break;
        case 2: abandon(c.a, c.b, c.k); break;
        case 3: special(c.k); break;
        }
        if (tw_env_allocated(Env) != before) {
            X->fail("%zu bytes still accounted at the end", tw_env_allocated(Env) - before);
            tw_env_free(Env);
            Env = tw_env_new();
        }
    });
    x.sample("host (iv)Ie called by return_call_indirect restarts twice, then returns; interrupted at check 3");
    x.sample("host (F)v calls back wasm (e)i which tail-calls a host function that restarts; then traps");
    return x.finish();
}
