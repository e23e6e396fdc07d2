/*
 * C06: structured control flow, locals and calls, enumerated over value type
 * lists (hence cell layouts), junk below the operands, branch kinds, nesting
 * and sizes; results, traps and side effects against the reference engine.
 */
#include "pair.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_mods, c_calls;
static tw_env *Env;
static bool simd = true;

static std::vector<uint8_t> TY = {T_I32, T_I64, T_V128, T_EXTERNREF, T_F32};
static std::vector<std::vector<uint8_t>> lists(size_t maxlen, const std::vector<uint8_t> &ty)
{
    std::vector<std::vector<uint8_t>> r = {{}};
    size_t from = 0;
    for (size_t l = 0; l < maxlen; l++) {
        size_t to = r.size();
        for (size_t i = from; i < to; i++)
            for (auto t : ty) {
                auto v = r[i];
                v.push_back(t);
                r.push_back(v);
            }
        from = to;
    }
    return r;
}
static std::string lstr(const std::vector<uint8_t> &l)
{
    std::string s = "[";
    for (auto t : l)
        s += t == T_I32 ? "i" : t == T_I64 ? "l" : t == T_V128 ? "v" : t == T_EXTERNREF ? "x" : t == T_F32 ? "f" : t == T_F64 ? "d" : "r";
    return s + "]";
}
/* a distinctive value for position k */
static twv val(uint8_t t, unsigned k)
{
    uint64_t a = 0x0101010101010101ull * (k + 1) + 0x8070605040302010ull;
    switch (t) {
    case T_I32: return {(uint32_t)a ^ 0x80000000u, 0};
    case T_F32: return {0x3f800000u + k, 0};
    case T_F64: return {0x3ff0000000000000ull + k, 0};
    case T_V128: return {a, ~a * 3};
    case T_FUNCREF: return {0, 0};
    case T_EXTERNREF: return {0x7000 + k * 16ull, 0};
    }
    return {a, 0};
}
static Bytes trace(int k)
{
    Bytes b;
    gget(b, 0);
    i32c(b, 31);
    u8(b, 0x6c);
    i32c(b, (uint32_t)k);
    u8(b, 0x6a);
    gset(b, 0);
    return b;
}
static void globals(Module &m)
{
    Bytes z;
    i32c(z, 1);
    m.globals.push_back({T_I32, true, z});
}
typedef std::vector<std::vector<twv>> Calls;

static bool intr;
static std::vector<struct tw_exec> modes;

/* loads under every option set, runs the calls twice in order and reversed */
static bool run(const Module &m, uint32_t fi, const Calls &calls, const std::string &what, uint64_t fuel = 200000, std::vector<Host> hosts = {})
{
    if (!Env)
        Env = tw_env_new();
    Bytes bin = m.encode();
    Validator v(m);
    if (!v.module()) {
        fprintf(stderr, "harness error: generated module is invalid: %s (%s)\n%s\n", what.c_str(), v.why.c_str(), hex(bin).c_str());
        abort();
    }
    static const unsigned optsets[] = {0, 7, 1, 2, 4, 3, 5, 6};
    Pair p(Env);
    p.m = m;
    p.hosts = hosts;
    for (int oi = 0; oi < (intr ? (int)modes.size() : X->opt.thorough() ? 8 : 3); oi++) {
        p.opts = optsets[intr ? oi % 2 : oi];
        if (intr)
            p.xt = modes[(size_t)oi];
        if (!p.load(bin)) {
            X->fail("%s: refused: %s\nmodule %s", what.c_str(), p.msg.c_str(), hex(bin, 1200).c_str());
            return false;
        }
        int err, trap;
        p.ref_instantiate();
        if (!p.tw_instantiate_(err, trap)) {
            X->fail("%s: instantiation failed: %d %s", what.c_str(), err, tw_trap_name(trap));
            return false;
        }
        X->add(c_mods);
        uint64_t h = 1;
        for (int pass = 0; pass < 2; pass++)
            for (size_t c = 0; c < calls.size(); c++) {
                const auto &a = calls[pass ? calls.size() - 1 - c : c];
                std::string d = p.call(fi, a, &h, fuel);
                X->add(c_calls);
                if (d == "?") {
                    fprintf(stderr, "harness error: fuel: %s\n", what.c_str());
                    abort();
                }
                if (d.empty())
                    d = p.diff_state();
                if (!d.empty()) {
                    std::string as;
                    for (auto &x : a)
                        as += mc::fmt(" %llx", (unsigned long long)x.lo);
                    X->fail("%s: called with%s (load options %u%s, pass %d): %s\nmodule %s", what.c_str(), as.c_str(), p.opts, mode_str(p.xt).c_str(), pass, d.c_str(), hex(bin, 1500).c_str());
                    return false;
                }
            }
        X->outcome(h);
        if (intr)
            for (auto &a : calls) {
                std::string d = p.abandon(fi, a, (unsigned)oi, false);
                if (!d.empty()) {
                    X->fail("%s: %s\nmodule %s", what.c_str(), d.c_str(), hex(bin, 1500).c_str());
                    return false;
                }
            }
        p.reset();
        if (tw_env_allocated(Env) != 0) {
            X->fail("%s: unloading left %zu bytes allocated\nmodule %s", what.c_str(), tw_env_allocated(Env), hex(bin, 1500).c_str());
            return false;
        }
    }
    return true;
}

/* A: branches carrying value lists over junk */
static void branch_case(const std::vector<uint8_t> &L)
{
    auto junk = lists(2, simd ? std::vector<uint8_t>{T_I32, T_I64, T_V128} : std::vector<uint8_t>{T_I32, T_I64});
    for (auto &J : junk)
        for (int kind = 0; kind < 14; kind++) {
            Module m;
            globals(m);
            FT ft;
            ft.p = L;
            ft.p.push_back(T_I32); /* selector, last */
            ft.r = {T_I64};
            for (auto t : L)
                ft.r.push_back(t);
            uint32_t bt = m.type(FT{{}, L}), lt = m.type(FT{L, L});
            uint32_t sel = (uint32_t)L.size();
            Bytes b;
            i64c(b, 0x1122334455667788ull);
            auto pushL = [&]() {
                for (size_t i = 0; i < L.size(); i++)
                    lget(b, (uint32_t)i);
            };
            auto pushJ = [&]() {
                for (size_t i = 0; i < J.size(); i++)
                    constant(b, J[i], val(J[i], 50 + (unsigned)i));
            };
            auto dropn = [&](size_t n) {
                for (size_t i = 0; i < n; i++)
                    u8(b, 0x1a);
            };
            auto op = [&](int o, uint64_t x) {
                u8(b, (unsigned)o);
                uleb(b, x);
            };
            auto open = [&](int o, uint32_t t) {
                u8(b, (unsigned)o);
                sleb(b, t);
            };
            switch (kind) {
            case 0: /* br */
                open(2, bt);
                pushJ();
                pushL();
                op(0x0c, 0);
                u8(b, 0x0b);
                break;
            case 1: /* br_if both ways; not taken removes junk by another br */
                open(2, bt);
                pushJ();
                pushL();
                lget(b, sel);
                op(0x0d, 0);
                cat(b, trace(1));
                op(0x0c, 0);
                u8(b, 0x0b);
                break;
            case 2: /* br_table into two nested blocks of the same type */
                open(2, bt);
                open(2, bt);
                pushJ();
                pushL();
                lget(b, sel);
                u8(b, 0x0e);
                uleb(b, 2);
                uleb(b, 0);
                uleb(b, 1);
                uleb(b, 0);
                u8(b, 0x0b);
                cat(b, trace(2));
                u8(b, 0x0b);
                cat(b, trace(3));
                break;
            case 3: /* loop with parameters, branching back and out with junk */
                open(2, bt);
                pushL();
                open(3, lt);
                cat(b, trace(4));
                dropn(L.size());
                pushJ();
                pushL();
                lget(b, sel);
                lget(b, sel);
                i32c(b, 1);
                u8(b, 0x6b);
                lset(b, sel);
                op(0x0d, 0);
                op(0x0c, 1);
                u8(b, 0x0b);
                u8(b, 0x0b);
                break;
            case 4: /* if with else, junk inside and below */
                open(2, bt);
                pushJ();
                lget(b, sel);
                open(4, bt);
                pushJ();
                pushL();
                op(0x0c, 0);
                u8(b, 0x05);
                cat(b, trace(5));
                pushL();
                u8(b, 0x0b);
                op(0x0c, 0);
                u8(b, 0x0b);
                break;
            case 5: /* return from within */
                open(2, bt);
                pushJ();
                i64c(b, 77);
                pushL();
                u8(b, 0x0f);
                u8(b, 0x0b);
                break;
            case 6: /* fall through nested blocks */
                open(2, bt);
                open(2, bt);
                pushL();
                u8(b, 0x0b);
                u8(b, 0x0b);
                break;
            case 7: /* br over two levels with junk at each */
                open(2, bt);
                pushJ();
                open(2, m.type(FT{{}, {}}));
                pushJ();
                pushL();
                op(0x0c, 1);
                u8(b, 0x0b);
                pushL();
                op(0x0c, 0);
                u8(b, 0x0b);
                break;
            case 8: /* block taking parameters */
                pushL();
                open(2, lt);
                cat(b, trace(6));
                lget(b, sel);
                op(0x0d, 0);
                cat(b, trace(7));
                u8(b, 0x0b);
                break;
            case 9: /* if taking parameters without else */
                pushL();
                lget(b, sel);
                open(4, lt);
                cat(b, trace(8));
                u8(b, 0x0b);
                break;
            case 10: /* if taking parameters, else drops and repushes */
                pushL();
                lget(b, sel);
                open(4, lt);
                cat(b, trace(9));
                u8(b, 0x05);
                dropn(L.size());
                pushJ();
                pushL();
                op(0x0c, 0);
                u8(b, 0x0b);
                break;
            case 11: /* br to the function label */
                pushJ();
                open(2, m.type(FT{{}, {}}));
                pushJ();
                i64c(b, 78);
                pushL();
                op(0x0c, 1);
                u8(b, 0x0b);
                dropn(J.size());
                pushL();
                break;
            case 12: /* select and drop between values of all widths */
                pushL();
                for (size_t i = 0; i < J.size(); i++) {
                    constant(b, J[i], val(J[i], 60 + (unsigned)i));
                    constant(b, J[i], val(J[i], 70 + (unsigned)i));
                    lget(b, sel);
                    u8(b, 0x1c);
                    u8(b, 1);
                    u8(b, J[i]);
                }
                /* typed select chooses: expose the last as a trace */
                dropn(J.size());
                break;
            case 13: /* br_table with the function label as default */
                open(2, bt);
                pushJ();
                i64c(b, 79);
                pushL();
                lget(b, sel);
                open(2, m.type(FT{{T_I32}, {T_I32}}));
                u8(b, 0x0b);
                u8(b, 0x04);
                u8(b, 0x40);
                cat(b, trace(10));
                u8(b, 0x0b);
                u8(b, 0x0f);
                u8(b, 0x0b);
                break;
            }
            uint32_t fi = m.func(ft, b);
            Calls calls;
            for (uint32_t s = 0; s < 4; s++) {
                std::vector<twv> a;
                for (size_t i = 0; i < L.size(); i++)
                    a.push_back(val(L[i], (unsigned)i));
                a.push_back({s, 0});
                calls.push_back(a);
            }
            if (!run(m, fi, calls, mc::fmt("branch kind %d carrying %s over %s", kind, lstr(L).c_str(), lstr(J).c_str())))
                return;
        }
}

/* B: parameters and locals */
static void locals_case(const std::vector<uint8_t> &P)
{
    auto G = lists(2, TY);
    for (auto &g : G)
        for (uint32_t c1 = 0; c1 < 3; c1++)
            for (uint32_t c2 = 0; c2 < 3; c2++)
                for (int form = 0; form < 3; form++) {
                    if (g.size() < 2 && c2)
                        continue;
                    if (g.empty() && c1)
                        continue;
                    std::vector<std::pair<uint32_t, uint8_t>> loc;
                    std::vector<uint8_t> all = P;
                    for (size_t i = 0; i < g.size(); i++) {
                        uint32_t n = i ? c2 : c1;
                        loc.push_back({n, g[i]});
                        for (uint32_t k = 0; k < n; k++)
                            all.push_back(g[i]);
                    }
                    Module m;
                    globals(m);
                    Bytes b;
                    if (form == 0) { /* initial values of everything */
                    } else if (form == 1) { /* write all, in order */
                        for (size_t i = 0; i < all.size(); i++) {
                            twv v = val(all[i], 20 + (unsigned)i);
                            if (all[i] == T_EXTERNREF) {
                                /* only params carry non-null references: rotate them */
                                uint32_t src = 0;
                                bool found = false;
                                for (size_t k = 0; k < P.size(); k++)
                                    if (P[k] == T_EXTERNREF) {
                                        src = (uint32_t)k;
                                        found = true;
                                    }
                                if (found)
                                    lget(b, src);
                                else
                                    constant(b, T_EXTERNREF, {0, 0});
                            } else
                                constant(b, all[i], v);
                            lset(b, (uint32_t)i);
                        }
                    } else { /* tee every second one from the previous of the same type */
                        for (size_t i = 0; i < all.size(); i++)
                            for (size_t k = 0; k < i; k++)
                                if (all[k] == all[i] && (i & 1)) {
                                    lget(b, (uint32_t)k);
                                    u8(b, 0x22);
                                    uleb(b, i);
                                    u8(b, 0x1a);
                                }
                    }
                    for (size_t i = 0; i < all.size(); i++)
                        lget(b, (uint32_t)i);
                    FT ft{P, all};
                    uint32_t fi = m.func(ft, b, loc);
                    std::vector<twv> a;
                    for (size_t i = 0; i < P.size(); i++)
                        a.push_back(val(P[i], (unsigned)i));
                    if (!run(m, fi, {a}, mc::fmt("params %s locals %s x%u,%u form %d", lstr(P).c_str(), lstr(g).c_str(), c1, c2, form)))
                        return;
                }
}

/* C: many locals; writing one leaves the neighbours alone */
static void many_locals_case(int n)
{
    for (int pat = 0; pat < 4; pat++) {
        Module m;
        globals(m);
        FT ft{{T_I32, T_I64}, {}};
        std::vector<std::pair<uint32_t, uint8_t>> loc;
        std::vector<uint8_t> all = {T_I32, T_I64};
        auto pt = [&](int i) -> uint8_t {
            switch (pat) {
            case 0: return T_I32;
            case 1: return T_I64;
            case 2: return simd ? (i % 3 == 0 ? T_V128 : i % 3 == 1 ? T_I32 : T_I64) : (i % 2 ? T_I32 : T_I64);
            default: return i % 7 == 0 ? T_I64 : T_I32;
            }
        };
        for (int i = 0; i < n; i++) {
            uint8_t t = pt(i);
            if (!loc.empty() && loc.back().second == t)
                loc.back().first++;
            else
                loc.push_back({1, t});
            all.push_back(t);
        }
        for (int at : {2, n / 2 + 1, n + 1}) {
            if (at < 2 || at >= (int)all.size())
                continue;
            Bytes b;
            /* fill every local with its own value, then overwrite one */
            for (size_t i = 2; i < all.size(); i++) {
                constant(b, all[i], val(all[i], (unsigned)i));
                lset(b, (uint32_t)i);
            }
            constant(b, all[(size_t)at], val(all[(size_t)at], 9999));
            lset(b, (uint32_t)at);
            FT f2 = ft;
            for (int k = std::max(0, at - 2); k <= at + 2 && k < (int)all.size(); k++) {
                lget(b, (uint32_t)k);
                f2.r.push_back(all[(size_t)k]);
            }
            lget(b, 0);
            f2.r.push_back(T_I32);
            lget(b, 1);
            f2.r.push_back(T_I64);
            Module mm = m;
            uint32_t fi = mm.func(f2, b, loc);
            if (!run(mm, fi, {{twv{5, 0}, twv{6, 0}}}, mc::fmt("%d locals pattern %d, writing %d", n, pat, at)))
                return;
        }
    }
}

/* D: many blocks, long jumps, switches */
static void many_blocks_case(int n, int filler)
{
    auto fill = [&](Bytes &b) {
        b.insert(b.end(), (size_t)filler, 0x01);
    };
    { /* a sequence of blocks each skipped or not */
        Module m;
        globals(m);
        Bytes b;
        for (int k = 0; k < n; k++) {
            u8(b, 0x02);
            u8(b, 0x40);
            lget(b, 0);
            i32c(b, (uint32_t)k);
            u8(b, 0x46);
            u8(b, 0x0d);
            uleb(b, 0);
            fill(b);
            cat(b, trace(k % 64));
            u8(b, 0x0b);
            /* and an if/else */
            lget(b, 0);
            i32c(b, (uint32_t)k);
            u8(b, 0x4a);
            u8(b, 0x04);
            u8(b, 0x40);
            cat(b, trace(3));
            fill(b);
            u8(b, 0x05);
            fill(b);
            cat(b, trace(5));
            u8(b, 0x0b);
        }
        gget(b, 0);
        uint32_t fi = m.func(FT{{T_I32}, {T_I32}}, b);
        Calls c;
        for (uint32_t k = 0; k <= (uint32_t)n; k += n > 20 ? (uint32_t)n / 10 : 1)
            c.push_back({twv{k, 0}});
        if (!run(m, fi, c, mc::fmt("%d blocks in sequence, filler %d", n, filler), 10000000))
            return;
    }
    { /* nested blocks and a br_table to each */
        Module m;
        globals(m);
        Bytes b;
        for (int k = 0; k < n; k++) {
            u8(b, 0x02);
            u8(b, 0x40);
        }
        lget(b, 0);
        u8(b, 0x0e);
        uleb(b, (uint64_t)n);
        for (int k = 0; k < n; k++)
            uleb(b, (uint64_t)k);
        uleb(b, (uint64_t)n - 1);
        for (int k = 0; k < n; k++) {
            u8(b, 0x0b);
            fill(b);
            cat(b, trace(k % 64));
        }
        gget(b, 0);
        uint32_t fi = m.func(FT{{T_I32}, {T_I32}}, b);
        Calls c;
        for (uint32_t k = 0; k <= (uint32_t)n + 1; k += n > 60 ? 7 : 1)
            c.push_back({twv{k, 0}});
        c.push_back({twv{0xffffffff, 0}});
        c.push_back({twv{0x80000000, 0}});
        if (!run(m, fi, c, mc::fmt("br_table over %d nested blocks, filler %d", n, filler), 10000000))
            return;
    }
    { /* nested loops continuing at each level */
        int d = n > 12 ? 12 : n;
        Module m;
        globals(m);
        Bytes b;
        std::vector<std::pair<uint32_t, uint8_t>> loc = {{(uint32_t)d, T_I32}};
        for (int k = 0; k < d; k++) {
            u8(b, 0x03);
            u8(b, 0x40);
            cat(b, trace(k));
        }
        for (int k = d - 1; k >= 0; k--) {
            fill(b);
            /* repeat level k while its counter < 1 */
            lget(b, 1 + (uint32_t)k);
            i32c(b, 1);
            u8(b, 0x6a);
            u8(b, 0x22);
            uleb(b, 1 + (uint64_t)k);
            lget(b, 0);
            u8(b, 0x48);
            u8(b, 0x0d);
            uleb(b, 0);
            u8(b, 0x0b);
        }
        gget(b, 0);
        uint32_t fi = m.func(FT{{T_I32}, {T_I32}}, b, loc);
        if (!run(m, fi, {{twv{0, 0}}, {twv{2, 0}}, {twv{3, 0}}}, mc::fmt("%d nested loops, filler %d", d, filler), 50000000))
            return;
    }
}

/* E: calls between functions with every pair of parameter/result lists */
static void call_case(const std::vector<uint8_t> &P)
{
    auto RL = lists(2, TY);
    std::vector<std::vector<uint8_t>> junk = {{}, {T_I32}, {T_I64, T_I32}};
    for (auto &R : RL)
        for (size_t j = 0; j < junk.size(); j++)
            for (int form = 0; form < 6; form++) {
                auto &J = junk[j];
                Module m;
                globals(m);
                std::vector<Host> hosts;
                /* callee: returns values derived from its parameters where types agree */
                Bytes cb = trace(11);
                auto pick = [&](Bytes &b, uint8_t t, unsigned k) {
                    for (size_t i = P.size(); i-- > 0;)
                        if (P[i] == t) {
                            lget(b, (uint32_t)i);
                            return;
                        }
                    constant(b, t, t == T_EXTERNREF ? twv{0, 0} : val(t, 100 + k));
                };
                for (size_t i = 0; i < R.size(); i++)
                    pick(cb, R[i], (unsigned)i);
                bool host = form >= 4;
                uint32_t ti = m.type(FT{P, R});
                uint32_t callee;
                if (host) {
                    Import im;
                    im.mod = "e";
                    im.name = "h";
                    im.kind = 0;
                    im.typeidx = ti;
                    m.imports.push_back(im);
                    Host h;
                    h.mod = "e";
                    h.name = "h";
                    h.ft = FT{P, R};
                    auto PP = P;
                    auto RR = R;
                    h.f = [PP, RR](const std::vector<twv> &a, std::vector<twv> &r) {
                        for (size_t i = 0; i < RR.size(); i++) {
                            r[i] = val(RR[i], 200 + (unsigned)i);
                            for (size_t k = 0; k < PP.size(); k++)
                                if (PP[k] == RR[i])
                                    r[i] = a[k];
                        }
                        return 0;
                    };
                    hosts.push_back(h);
                    callee = 0;
                } else
                    callee = m.func(FT{P, R}, cb, {{1, T_I64}, {2, T_F32}});
                m.tables.push_back({T_FUNCREF, {3, false, 0}});
                Elem e;
                i32c(e.off, 1);
                e.funcs = {callee};
                m.elems.push_back(e);
                Bytes b;
                for (size_t i = 0; i < J.size(); i++)
                    constant(b, J[i], val(J[i], 40 + (unsigned)i));
                for (size_t i = 0; i < P.size(); i++)
                    lget(b, (uint32_t)i);
                FT ft{P, {}};
                bool tail = form == 2 || form == 3 || form == 5;
                if (form == 1 || form == 3)
                    i32c(b, 1);
                switch (form) {
                case 0: case 4: u8(b, 0x10); uleb(b, callee); break;
                case 1: u8(b, 0x11); uleb(b, ti); uleb(b, 0); break;
                case 2: case 5: u8(b, 0x12); uleb(b, callee); break;
                case 3: u8(b, 0x13); uleb(b, ti); uleb(b, 0); break;
                }
                if (!tail)
                    ft.r = J;
                for (auto t : R)
                    ft.r.push_back(t);
                if (!tail)
                    cat(b, trace(12));
                uint32_t fi = m.func(ft, b, {{1, T_I32}});
                /* an outer caller, so that the tail call returns into a frame */
                Bytes o;
                i32c(o, 0x5a5a);
                for (size_t i = 0; i < P.size(); i++)
                    lget(o, (uint32_t)i);
                u8(o, 0x10);
                uleb(o, fi);
                cat(o, trace(13));
                FT oft{P, {T_I32}};
                for (auto t : ft.r)
                    oft.r.push_back(t);
                uint32_t oi = m.func(oft, o);
                std::vector<twv> a;
                for (size_t i = 0; i < P.size(); i++)
                    a.push_back(val(P[i], (unsigned)i));
                if (!run(m, oi, {a}, mc::fmt("call form %d params %s results %s junk %s", form, lstr(P).c_str(), lstr(R).c_str(), lstr(J).c_str()), 10000, hosts))
                    return;
            }
}

/* F: tail calls between functions of different parameter and local sizes */
static void tail_case(const std::vector<uint8_t> &P)
{
    auto QL = lists(3, TY);
    for (auto &Q : QL)
        for (int form = 0; form < 2; form++) {
            /* f(P) tail-calls g(Q), which tail-calls h() returning its inputs as trace + results */
            Module m;
            globals(m);
            std::vector<uint8_t> R = Q;
            Bytes gb;
            for (size_t i = 0; i < Q.size(); i++)
                lget(gb, (uint32_t)i);
            uint32_t g = m.func(FT{Q, R}, gb, {{3, T_I32}, {1, T_I64}});
            m.tables.push_back({T_FUNCREF, {1, false, 0}});
            Elem e;
            i32c(e.off, 0);
            e.funcs = {g};
            m.elems.push_back(e);
            Bytes fb;
            for (size_t i = 0; i < Q.size(); i++) {
                bool found = false;
                for (size_t k = 0; k < P.size(); k++)
                    if (P[k] == Q[i]) {
                        lget(fb, (uint32_t)k);
                        found = true;
                        break;
                    }
                if (!found)
                    constant(fb, Q[i], Q[i] == T_EXTERNREF ? twv{0, 0} : val(Q[i], 30 + (unsigned)i));
            }
            if (form) {
                i32c(fb, 0);
                u8(fb, 0x13);
                uleb(fb, m.type(FT{Q, R}));
                uleb(fb, 0);
            } else {
                u8(fb, 0x12);
                uleb(fb, g);
            }
            uint32_t f = m.func(FT{P, R}, fb, {{1, T_I64}});
            Bytes o;
            i64c(o, 0x77);
            for (size_t i = 0; i < P.size(); i++)
                lget(o, (uint32_t)i);
            u8(o, 0x10);
            uleb(o, f);
            FT oft{P, {T_I64}};
            for (auto t : R)
                oft.r.push_back(t);
            uint32_t oi = m.func(oft, o);
            std::vector<twv> a;
            for (size_t i = 0; i < P.size(); i++)
                a.push_back(val(P[i], (unsigned)i));
            if (!run(m, oi, {a}, mc::fmt("tail call from %s to %s form %d", lstr(P).c_str(), lstr(Q).c_str(), form), 10000))
                return;
        }
}

/* G: recursion */
static void recursion_case(int k)
{
    Module m;
    globals(m);
    FT II{{T_I32}, {T_I32}};
    auto code = [](std::initializer_list<int> l) {
        Bytes b;
        for (int x : l)
            b.push_back((uint8_t)x);
        return b;
    };
    switch (k) {
    case 0: { /* fib */
        uint32_t f = m.func(II, code({0x20, 0, 0x41, 2, 0x49, 0x04, 0x7f, 0x20, 0, 0x05, 0x20, 0, 0x41, 1, 0x6b, 0x10, 0, 0x20, 0, 0x41, 2, 0x6b, 0x10, 0, 0x6a, 0x0b}));
        Calls c;
        for (uint32_t i = 0; i <= 14; i++)
            c.push_back({twv{i, 0}});
        run(m, f, c, "fib", 10000000);
        break;
    }
    case 1: { /* factorial over i64 with locals live across the call */
        FT LL{{T_I64}, {T_I64}};
        uint32_t f = m.func(LL, code({0x20, 0, 0x50, 0x04, 0x7e, 0x42, 1, 0x05, 0x20, 0, 0x22, 2, 0x42, 1, 0x7d, 0x10, 0, 0x20, 2, 0x7e, 0x0b}), {{1, T_I32}, {1, T_I64}});
        Calls c;
        for (uint32_t i = 0; i <= 20; i++)
            c.push_back({twv{i, 0}});
        run(m, f, c, "factorial", 10000000);
        break;
    }
    case 2: { /* even/odd by mutual tail calls, far beyond the frame limit */
        m.func(II, code({0x20, 0, 0x45, 0x04, 0x40, 0x41, 1, 0x0f, 0x0b, 0x20, 0, 0x41, 1, 0x6b, 0x12, 1}));
        m.func(II, code({0x20, 0, 0x45, 0x04, 0x40, 0x41, 0, 0x0f, 0x0b, 0x20, 0, 0x41, 1, 0x6b, 0x12, 0}));
        run(m, 0, {{twv{0, 0}}, {twv{1, 0}}, {twv{5000, 0}}, {twv{5001, 0}}}, "even/odd by tail calls", 10000000);
        break;
    }
    case 3: { /* ackermann, indirect */
        m.types.push_back(FT{{T_I32, T_I32}, {T_I32}});
        m.tables.push_back({T_FUNCREF, {1, false, 0}});
        Elem e;
        i32c(e.off, 0);
        e.funcs = {0};
        m.elems.push_back(e);
        m.funcs.push_back({0, {}, code({0x20, 0, 0x45, 0x04, 0x7f, 0x20, 1, 0x41, 1, 0x6a, 0x05, 0x20, 1, 0x45, 0x04, 0x7f, 0x20, 0, 0x41, 1, 0x6b, 0x41, 1, 0x41, 0, 0x11, 0, 0, 0x05,
                                        0x20, 0, 0x41, 1, 0x6b, 0x20, 0, 0x20, 1, 0x41, 1, 0x6b, 0x41, 0, 0x11, 0, 0, 0x41, 0, 0x11, 0, 0, 0x0b, 0x0b})});
        Calls c;
        for (uint32_t a = 0; a <= 2; a++)
            for (uint32_t b = 0; b <= 3; b++)
                c.push_back({twv{a, 0}, twv{b, 0}});
        run(m, 0, c, "ackermann", 10000000);
        break;
    }
    }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "flow");
    X = &x;
    simd = x.opt.get("nosimd") != "1";
    if (!simd)
        TY.erase(TY.begin() + 2);
    intr = x.opt.get("intr") == "1";
    if (intr)
        modes = x.opt.thorough() ? intr_modes(3, 8) : intr_modes(2, 2);
    c_mods = x.counter("modules");
    c_calls = x.counter("calls");
    auto L3 = lists(3, TY);
    auto L2 = lists(2, TY);
    std::vector<std::function<void()>> cs;
    for (int n : {1, 2, 3, 7, 16, 17, 64, 150})
        for (int f : {0, 3, 130, 9000}) {
            if (n * f > 200000)
                continue;
            cs.push_back([=] { many_blocks_case(n, f); });
        }
    for (int n : {1, 2, 5, 63, 64, 65, 100, 126, 127, 128, 129, 200, 255, 256, 257, 300})
        cs.push_back([=] { many_locals_case(n); });
    for (int k = 0; k < 4; k++)
        cs.push_back([=] { recursion_case(k); });
    for (auto &l : L3) {
        cs.push_back([=] { branch_case(l); });
        cs.push_back([=] { call_case(l); });
        cs.push_back([=] { tail_case(l); });
    }
    for (auto &l : (x.opt.thorough() ? L3 : L2))
        cs.push_back([=] { locals_case(l); });
    x.run(cs.size(), [&](uint64_t i) { cs[i](); });
    x.sample(mc::fmt("%zu value lists x 13 junk lists x 14 branch shapes; %zu x 31 call signatures x 6 forms; %zu x %zu tail call pairs", L3.size(), L3.size(), L3.size(), L3.size()));
    return x.finish();
}
