/*
 * C07: exceptions across functions and module instances.  Two modules with
 * exported/imported/aliased/own tags; every clause list up to a length for an
 * inner try_table, every single clause for an outer one, every way of
 * throwing, every handler action and a set of payload types.
 */
#include "world.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_mods, c_calls, c_traps;
static tw_env *Env;

typedef std::vector<uint8_t> TL;
static twv val(uint8_t t, unsigned k)
{
    uint64_t a = 0x0101010101010101ull * (k + 1) + 0x8070605040302010ull;
    switch (t) {
    case T_I32: return {(uint32_t)a ^ 0x80000000u, 0};
    case T_F32: return {0x3f800000u + k, 0};
    case T_F64: return {0x3ff0000000000000ull + k, 0};
    case T_V128: return {a, ~a * 3};
    }
    return {a, 0};
}
static void push(Bytes &b, const TL &l, unsigned seed)
{
    for (size_t i = 0; i < l.size(); i++)
        if (l[i] == T_FUNCREF) {
            u8(b, 0xd2);
            uleb(b, 0); /* function 0 */
        } else
            constant(b, l[i], val(l[i], seed * 7 + (unsigned)i));
}
/* globals: one per payload position and type, plus a trace */
static const TL GT = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};
static uint32_t gidx(size_t pos, uint8_t t)
{
    for (size_t i = 0; i < GT.size(); i++)
        if (GT[i] == t)
            return (uint32_t)(1 + pos * GT.size() + i);
    abort();
}
static void globals(Module &m)
{
    Bytes z;
    i32c(z, 1);
    m.globals.push_back({T_I32, true, z});
    for (int p = 0; p < 4; p++)
        for (auto t : GT) {
            Bytes c;
            constant(c, t, {0, 0});
            m.globals.push_back({t, true, c});
        }
}
static void trace(Bytes &b, unsigned k)
{
    gget(b, 0);
    i32c(b, 31);
    u8(b, 0x6c);
    i32c(b, k);
    u8(b, 0x6a);
    gset(b, 0);
}
static void record(Bytes &b, const TL &l)
{
    for (size_t i = l.size(); i-- > 0;)
        gset(b, gidx(i, l[i]));
}

struct Clause {
    int op;  /* 0 catch, 1 catch_ref, 2 catch_all, 3 catch_all_ref */
    int tag; /* in B's index space: 0 A.t1, 1 A.t0, 2 A.t0, 3 A.t2, 4 own */
};
static const Clause CL[] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {2, 0}, {3, 0}};
static const int NCL = 12;
static std::string cstr(const std::vector<int> &v)
{
    static const char *on[] = {"catch", "catch_ref", "catch_all", "catch_all_ref"};
    static const char *tn[] = {"A.t1", "A.t0", "A.t0'", "A.t2", "own"};
    std::string s = "[";
    for (int c : v)
        s += std::string(s.size() > 1 ? " " : "") + on[CL[c].op] + (CL[c].op < 2 ? std::string(" ") + tn[CL[c].tag] : "");
    return s + "]";
}

/* module A */
static Module modA(const TL &P0, const TL &P2)
{
    Module m;
    uint32_t ft0 = m.type(FT{P0, {}}), ft2 = m.type(FT{P2, {}});
    m.tags = {ft0, ft0, ft2};
    globals(m);
    const TL *P[3] = {&P0, &P0, &P2};
    for (int t = 0; t < 3; t++) {
        Bytes b;
        constant(b, T_I64, val(T_I64, 99));
        push(b, *P[t], (unsigned)t);
        u8(b, 0x08);
        uleb(b, (uint32_t)t);
        m.func(FT{{}, {}}, b);
    }
    /* mid(sel): handlers of seven kinds around a call to th<sel> */
    for (int k = 0; k < 8; k++) {
        Bytes b, body;
        for (int t = 0; t < 3; t++) {
            lget(body, 0);
            i32c(body, (uint32_t)t);
            u8(body, 0x46);
            u8(body, 0x04);
            u8(body, 0x40);
            u8(body, 0x10);
            uleb(body, (uint32_t)t);
            u8(body, 0x0b);
        }
        TL res;
        Bytes cl;
        uint32_t ncl = 1;
        switch (k) {
        case 0: ncl = 0; break;
        case 1: cl = {2, 0}; break;
        case 2: cl = {0, 1, 0}; res = P0; break;
        case 3: cl = {3, 0}; res = {T_EXNREF}; break;
        case 4: cl = {1, 0, 0}; res = P0; res.push_back(T_EXNREF); break;
        case 5: cl = {0, 0, 0}; res = P0; break;
        case 6: cl = {0, 2, 0}; res = P2; break;
        case 7: cl = {1, 2, 0}; res = P2; res.push_back(T_EXNREF); break;
        }
        uint32_t bt = m.type(FT{{}, res});
        constant(b, T_F64, val(T_F64, 5));
        u8(b, 0x02);
        sleb(b, bt);
        constant(b, T_I32, val(T_I32, 6));
        u8(b, 0x1f);
        u8(b, 0x40);
        uleb(b, ncl);
        cat(b, cl);
        cat(b, body);
        u8(b, 0x0b);
        trace(b, 40);
        u8(b, 0x0f); /* return normally */
        u8(b, 0x0b);
        trace(b, 41 + (unsigned)k);
        switch (k) {
        case 2: case 6: record(b, res); break;
        case 3: u8(b, 0x0a); break;
        case 4: case 7:
            u8(b, 0x0a);
            break;
        case 5: /* rethrow the payload under another tag */
            u8(b, 0x08);
            uleb(b, 1);
            break;
        }
        u8(b, 0x0f);
        m.func(FT{{T_I32}, {}}, b);
    }
    for (int t = 0; t < 3; t++)
        m.exp("t" + std::to_string(t), 4, (uint32_t)t);
    for (int f = 0; f < 3; f++)
        m.exp("th" + std::to_string(f), 0, (uint32_t)f);
    for (int f = 0; f < 8; f++)
        m.exp("mid" + std::to_string(f), 0, (uint32_t)(3 + f));
    return m;
}
static const int NACT = 5 + 3 + 24 + 3 + 3 + 2 + 2 + 1;

/* handler: operands payload [exnref]; action 0 drop, 1 throw_ref, 2 stash, throw and catch another, throw_ref, 3 throw own */
static void handler(Bytes &b, const TL &pay, bool ref, int action, unsigned code, unsigned depth_end, const TL &P0, uint32_t xloc)
{
    trace(b, code);
    if (ref) {
        switch (action) {
        case 0: u8(b, 0x1a); break;
        case 1:
            u8(b, 0x0a);
            return;
        case 2:
            lset(b, xloc);
            record(b, pay);
            u8(b, 0x02);
            u8(b, 0x40);
            u8(b, 0x1f);
            u8(b, 0x40);
            uleb(b, 1);
            u8(b, 2);
            u8(b, 0);
            push(b, P0, 17);
            u8(b, 0x08);
            uleb(b, 4);
            u8(b, 0x0b);
            u8(b, 0x0b);
            lget(b, xloc);
            u8(b, 0x0a);
            return;
        }
        record(b, pay);
    } else {
        record(b, pay);
        if (action == 2) {
            push(b, P0, 23);
            u8(b, 0x08);
            uleb(b, 4);
            return;
        }
    }
    i32c(b, code);
    u8(b, 0x0c);
    uleb(b, depth_end);
}

static Module modB(const TL &P0, const TL &P2, const std::vector<int> &inner, const std::vector<int> &outer, int action)
{
    Module m;
    uint32_t ft0 = m.type(FT{P0, {}}), ft2 = m.type(FT{P2, {}});
    uint32_t fv = m.type(FT{{}, {}}), fi = m.type(FT{{T_I32}, {}});
    const char *tn[] = {"t1", "t0", "t0", "t2"};
    for (int i = 0; i < 4; i++)
        m.imports.push_back({"A", tn[i], 4, i == 3 ? ft2 : ft0, 0, false, Lim()});
    for (int i = 0; i < 3; i++)
        m.imports.push_back({"A", "th" + std::to_string(i), 0, fv, 0, false, {}});
    for (int i = 0; i < 8; i++)
        m.imports.push_back({"A", "mid" + std::to_string(i), 0, fi, 0, false, {}});
    m.imports.push_back({"h", "trap", 0, fv, 0, false, {}});
    m.tags = {ft0};
    globals(m);
    Table tb;
    tb.t = T_FUNCREF;
    tb.l.min = 3;
    m.tables.push_back(tb);
    Elem el;
    i32c(el.off, 0);
    el.funcs = {0, 1, 2};
    m.elems.push_back(el);
    const TL pays[5] = {P0, P0, P0, P2, P0};
    uint32_t base = 12; /* first own function */
    /* tail0..2: try_table (catch_all) around return_call th<k>: handlers of the left frame do not apply */
    for (uint32_t k = 0; k < 3; k++) {
        Bytes b;
        u8(b, 0x02);
        u8(b, 0x40);
        u8(b, 0x1f);
        u8(b, 0x40);
        uleb(b, 1);
        u8(b, 2);
        u8(b, 0);
        if (k == 1) {
            i32c(b, 1);
            u8(b, 0x13); /* return_call_indirect */
            uleb(b, fv);
            uleb(b, 0);
        } else {
            u8(b, 0x12);
            uleb(b, k);
        }
        u8(b, 0x0b);
        u8(b, 0x0b);
        m.func(FT{{}, {}}, b);
    }
    { /* deep(n): n more frames, alternately with non-matching handlers, then th0 */
        Bytes b;
        lget(b, 0);
        u8(b, 0x45);
        u8(b, 0x04);
        u8(b, 0x40);
        u8(b, 0x10);
        uleb(b, 0);
        u8(b, 0x0b);
        u8(b, 0x02);
        uint32_t r2 = m.type(FT{{}, P2});
        sleb(b, r2);
        u8(b, 0x1f);
        u8(b, 0x40);
        uleb(b, 1);
        u8(b, 0);
        uleb(b, 3);
        uleb(b, 0);
        lget(b, 0);
        i32c(b, 1);
        u8(b, 0x6b);
        u8(b, 0x10);
        uleb(b, base + 3);
        u8(b, 0x0b);
        push(b, P2, 3);
        u8(b, 0x0b);
        record(b, P2);
        m.func(FT{{T_I32}, {}}, b);
    }
    /* main(sel) */
    Bytes acts;
    int na = 0;
    auto begin = [&]() {
        lget(acts, 0);
        i32c(acts, (uint32_t)na++);
        u8(acts, 0x46);
        u8(acts, 0x04);
        u8(acts, 0x40);
    };
    auto end = [&]() { u8(acts, 0x0b); };
    for (uint32_t t = 0; t < 5; t++) {
        begin();
        i64c(acts, 5);
        push(acts, pays[t], 30 + t);
        u8(acts, 0x08);
        uleb(acts, t);
        end();
    }
    for (uint32_t f = 0; f < 3; f++) {
        begin();
        u8(acts, 0x10);
        uleb(acts, f);
        end();
    }
    for (uint32_t f = 0; f < 8; f++)
        for (uint32_t s = 0; s < 3; s++) {
            begin();
            i32c(acts, s);
            u8(acts, 0x10);
            uleb(acts, 3 + f);
            end();
        }
    for (uint32_t f = 0; f < 3; f++) {
        begin();
        i32c(acts, f);
        u8(acts, 0x11);
        uleb(acts, fv);
        uleb(acts, 0);
        end();
    }
    for (uint32_t f = 0; f < 3; f++) {
        begin();
        u8(acts, 0x10);
        uleb(acts, base + f);
        end();
    }
    for (uint32_t n = 1; n < 3; n++) {
        begin();
        i32c(acts, n);
        u8(acts, 0x10);
        uleb(acts, base + 3);
        end();
    }
    begin();
    u8(acts, 0x00); /* a trap is not an exception */
    end();
    begin();
    u8(acts, 0xd0);
    u8(acts, T_EXNREF);
    u8(acts, 0x0a);
    end();
    begin();
    u8(acts, 0x10);
    uleb(acts, 11); /* host trap */
    end();
    if (na != NACT)
        abort();

    auto clauses = [&](Bytes &b, const std::vector<int> &cl) {
        /* clause k goes to label k, counted from inside the enclosing blocks */
        uleb(b, cl.size());
        for (size_t k = 0; k < cl.size(); k++) {
            u8(b, (unsigned)CL[cl[k]].op);
            if (CL[cl[k]].op < 2)
                uleb(b, (uint32_t)CL[cl[k]].tag);
            uleb(b, k);
        }
    };
    auto labtype = [&](int c) {
        TL r;
        if (CL[c].op < 2)
            r = pays[CL[c].tag];
        if (CL[c].op & 1)
            r.push_back(T_EXNREF);
        return r;
    };
    auto pay = [&](int c) { return CL[c].op < 2 ? pays[CL[c].tag] : TL(); };
    uint32_t xloc = 1;
    Bytes b;
    i64c(b, 0x1234567890ull);
    u8(b, 0x02);
    u8(b, T_I32); /* end label */
    for (size_t k = outer.size(); k-- > 0;) {
        u8(b, 0x02);
        sleb(b, m.type(FT{{}, labtype(outer[k])}));
        i32c(b, 7);
    }
    u8(b, 0x1f);
    u8(b, 0x40);
    clauses(b, outer);
    i64c(b, 8);
    for (size_t k = inner.size(); k-- > 0;) {
        u8(b, 0x02);
        sleb(b, m.type(FT{{}, labtype(inner[k])}));
        constant(b, k & 1 ? T_V128 : T_I32, val(T_V128, 9));
    }
    u8(b, 0x1f);
    u8(b, 0x40);
    clauses(b, inner);
    cat(b, acts);
    u8(b, 0x0b); /* end inner try */
    /* depth of the end label from here: inner blocks + outer try + outer blocks */
    i32c(b, 100);
    u8(b, 0x0c);
    uleb(b, inner.size() + 1 + outer.size());
    for (size_t k = 0; k < inner.size(); k++) {
        u8(b, 0x0b);
        int c = inner[k];
        handler(b, pay(c), CL[c].op & 1, action, (unsigned)(10 + k), (unsigned)(inner.size() - 1 - k + 1 + outer.size()), P0, xloc);
    }
    u8(b, 0x0b); /* end outer try */
    u8(b, 0x00);
    for (size_t k = 0; k < outer.size(); k++) {
        u8(b, 0x0b);
        int c = outer[k];
        handler(b, pay(c), CL[c].op & 1, action == 1 ? 0 : action, (unsigned)(20 + k), (unsigned)(outer.size() - 1 - k), P0, xloc);
    }
    u8(b, 0x0b); /* end label */
    u8(b, 0xad); /* i64.extend_i32_u */
    u8(b, 0x7c);
    std::vector<std::pair<uint32_t, uint8_t>> locals = {{1, T_EXNREF}};
    m.func(FT{{T_I32}, {T_I64}}, b, locals);
    return m;
}

static std::vector<struct tw_exec> modes;
static void one(const TL &P0, const TL &P2, const std::vector<int> &inner, const std::vector<int> &outer, int action)
{
    X->beat();
    std::string what = mc::fmt("payload sizes %zu/%zu (%02x..), inner %s outer %s action %d", P0.size(), P2.size(), P0.empty() ? 0 : P0[0], cstr(inner).c_str(),
                               cstr(outer).c_str(), action);
    static const unsigned optsets[] = {0, 7};
    for (size_t oi = 0; oi < (modes.empty() ? 2 : modes.size()); oi++) {
        unsigned o = optsets[oi % 2];
        if (o && !X->opt.thorough() && inner.size() > 1)
            continue;
        World w(Env);
        if (!modes.empty())
            w.xt = modes[oi];
        w.opts = o;
        w.host("h", "trap", FT{{}, {}}, [](const std::vector<twv> &, std::vector<twv> &) { return 1; });
        Module a = modA(P0, P2), b = modB(P0, P2, inner, outer, action);
        if (o == 0) {
            Validator va(a), vb(b);
            if (!va.module() || !vb.module()) {
                fprintf(stderr, "harness error: invalid module: %s: %s %s\n", what.c_str(), va.why.c_str(), vb.why.c_str());
                abort();
            }
        }
        std::string d = w.add("A", a);
        if (d.empty())
            d = w.add("B", b);
        uint64_t h = 1;
        uint32_t mainf = 12 + 4;
        for (int s = 0; d.empty() && s < NACT; s++) {
            d = w.call(1, mainf, {{(uint64_t)s, 0}}, &h);
            X->add(c_calls);
            if (d == "?")
                abort();
            if (d.empty())
                d = w.diff_state();
            if (!d.empty())
                d = mc::fmt("action selector %d: ", s) + d;
            if (w.ref->trap)
                X->add(c_traps);
        }
        X->add(c_mods);
        X->outcome(h);
        if (!d.empty()) {
            X->fail("%s (load options %u%s): %s\nA %s\nB %s", what.c_str(), o, mode_str(w.xt).c_str(), d.c_str(), hex(a.encode(), 1500).c_str(), hex(b.encode(), 2500).c_str());
            return;
        }
    }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "ehx");
    X = &x;
    c_mods = x.counter("module_pairs");
    c_calls = x.counter("calls");
    if (x.opt.get("intr") == "1")
        modes = x.opt.thorough() ? intr_modes(3, 8) : intr_modes(2, 2);
    c_traps = x.counter("trapped_calls");
    bool simd = x.opt.get("nosimd") != "1";
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    std::vector<std::pair<TL, TL>> pays = {
        {{T_I32}, {T_I64}},
        {{}, {T_I32}},
        {{T_I64, T_F32}, {}},
        {{T_I32, T_I32, T_F32}, {T_F64, T_I32}},
        {{T_FUNCREF}, {T_I32, T_EXTERNREF}},
        {{T_F64}, {T_I32, T_I32, T_I32, T_I32}},
    };
    if (simd)
        pays.push_back({{T_V128}, {T_EXTERNREF, T_FUNCREF}});
    size_t maxin = x.opt.thorough() ? 3 : 2;
    size_t maxout = x.opt.thorough() ? 2 : 1;
    std::vector<std::vector<int>> in = {{}}, out = {{}};
    auto grow = [](std::vector<std::vector<int>> &l, size_t n) {
        size_t from = 0;
        for (size_t k = 0; k < n; k++) {
            size_t to = l.size();
            for (size_t i = from; i < to; i++)
                for (int c = 0; c < NCL; c++) {
                    auto v = l[i];
                    v.push_back(c);
                    l.push_back(v);
                }
            from = to;
        }
    };
    grow(in, maxin);
    grow(out, maxout);
    uint64_t n = pays.size() * in.size() * 3;
    x.run(n, [&](uint64_t i) {
        int action = (int)(i % 3);
        i /= 3;
        auto &inner = in[i % in.size()];
        auto &p = pays[i / in.size()];
        for (auto &o : out) {
            if (x.sh->stop)
                return;
            if (inner.size() > 2 && o.size() > 1)
                continue;
            one(p.first, p.second, inner, o, action);
        }
    });
    x.sample("inner [catch A.t0' catch_all_ref] outer [catch own] action rethrow, selector mid5(0)");
    return x.finish();
}
