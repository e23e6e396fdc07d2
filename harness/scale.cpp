/*
 * Modules with many of everything: locals, parameters, labels, branches,
 * functions, types, globals, tables, memories, segments, tags, exports,
 * imports, names, frames and code bytes, for every count up to a bound and
 * around every power of two beyond it.
 */
#include <fcntl.h>
#include <functional>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.hpp"
#include "tw.h"
#include "wb.hpp"

using namespace wb;

static mc::Explorer *X;
static int c_calls, c_mods, c_bad;
static tw_env *Env;
static bool eh = true, Th, Write;

static std::vector<uint32_t> sizes(uint32_t dense, uint32_t max)
{
    std::set<uint32_t> s;
    for (uint32_t i = 1; i <= dense && i <= max; i++)
        s.insert(i);
    for (uint32_t p = 2; p <= max; p *= 2)
        for (uint32_t v : {p - 1, p, p + 1})
            if (v <= max)
                s.insert(v);
    return {s.begin(), s.end()};
}
/* the indexes of n things to look at: all of a few, else those around powers of two and at the ends */
static std::vector<uint32_t> some(uint32_t n, uint32_t all = 80)
{
    std::vector<uint32_t> v;
    if (n <= all) {
        for (uint32_t i = 0; i < n; i++)
            v.push_back(i);
        return v;
    }
    std::set<uint32_t> s{0, n - 1, n - 2, n / 2, n / 3};
    for (uint32_t p : sizes(0, n - 1))
        s.insert(p);
    return {s.begin(), s.end()};
}
struct Call {
    uint32_t f;
    std::vector<twv> args;
    std::vector<uint64_t> want; /* low words of the results */
    int trap = TWT_NONE;
};
struct Case {
    Module m;
    std::vector<Call> calls;
    std::vector<Module> bad; /* to be rejected */
    std::vector<std::pair<uint32_t, std::string>> names; /* debug names of functions */
    Bytes tail;              /* custom sections */
    bool once = false;       /* calls change what later ones see */
};
typedef std::function<Case(uint32_t)> Family;

static twv val(uint8_t t, uint32_t i)
{
    uint64_t h = (i + 1) * 0x9e3779b97f4a7c15ull;
    twv v{h | 1, 0};
    if (t == T_I32 || t == T_F32)
        v.lo = (uint32_t)(h >> 32 | 1);
    if (t == T_F32)
        v.lo &= 0x7f7fffff;
    if (t == T_F64)
        v.lo &= 0x7fefffffffffffffull;
    if (t == T_V128)
        v.hi = ~h;
    if (t == T_EXTERNREF || t == T_FUNCREF)
        v.lo = 0;
    return v;
}
/* ( t -- i32 ) : does it equal the value? */
static void eq(Bytes &b, uint8_t t, twv v)
{
    switch (t) {
    case T_F32: u8(b, 0xbc); i32c(b, (uint32_t)v.lo); u8(b, 0x46); break;
    case T_I32: i32c(b, (uint32_t)v.lo); u8(b, 0x46); break;
    case T_F64: u8(b, 0xbd); i64c(b, v.lo); u8(b, 0x51); break;
    case T_I64: i64c(b, v.lo); u8(b, 0x51); break;
    case T_V128: v128c(b, v); u8(b, 0xfd), uleb(b, 0x23); u8(b, 0xfd), uleb(b, 0x63); break;
    default: u8(b, 0xd1); break;
    }
}
static const std::vector<std::vector<uint8_t>> PAT{
    {T_I32}, {T_I64}, {T_V128}, {T_I32, T_I64, T_V128, T_F64, T_EXTERNREF, T_F32, T_FUNCREF}};
static uint8_t ty(int p, uint32_t i)
{
    return PAT[(size_t)p][i % PAT[(size_t)p].size()];
}
static void call(Bytes &b, uint32_t f) { u8(b, 0x10), uleb(b, f); }

/* ------------------------------------------------------------ families */
static Case f_locals(uint32_t n, int p, bool chunks, uint32_t params)
{
    Case c;
    std::vector<std::pair<uint32_t, uint8_t>> l;
    for (uint32_t i = 0; i < n; i++)
        if (chunks && !l.empty() && l.back().second == ty(p, i))
            l.back().first++;
        else
            l.push_back({1, ty(p, i)});
    FT t;
    for (uint32_t i = 0; i < params; i++)
        t.p.push_back(ty(p, i + 1));
    t.r = {T_I32};
    Bytes b;
    auto ks = some(n, 300);
    /* twice, so that what an earlier call left is not seen */
    i32c(b, 0);
    for (uint32_t k : ks) { /* zero at first */
        lget(b, params + k);
        eq(b, ty(p, k), {0, 0});
        u8(b, 0x6a);
    }
    for (uint32_t k : ks)
        if (val(ty(p, k), k).lo)
            constant(b, ty(p, k), val(ty(p, k), k)), lset(b, params + k);
    for (uint32_t k : ks) {
        lget(b, params + k);
        eq(b, ty(p, k), val(ty(p, k), k));
        u8(b, 0x6a);
    }
    for (uint32_t k : some(params)) {
        lget(b, k);
        eq(b, ty(p, k + 1), val(ty(p, k + 1), k + 7));
        u8(b, 0x6a);
    }
    uint32_t f = c.m.func(t, b, l);
    Bytes d;
    for (int r = 0; r < 2; r++) {
        for (uint32_t i = 0; i < params; i++)
            constant(d, ty(p, i + 1), val(ty(p, i + 1), i + 7));
        call(d, f);
    }
    u8(d, 0x6a);
    uint32_t g = c.m.func({{}, {T_I32}}, d);
    c.calls.push_back({g, {}, {2 * (2 * ks.size() + some(params).size())}});
    Module bad = c.m;
    lget(bad.funcs[0].body, params + n), u8(bad.funcs[0].body, 0x1a);
    c.bad.push_back(bad);
    return c;
}
/* n values through calls, blocks and branches */
static Case f_values(uint32_t n, int p, int form)
{
    Case c;
    FT t;
    for (uint32_t i = 0; i < n; i++)
        t.p.push_back(ty(p, i));
    t.r = t.p;
    std::reverse(t.r.begin(), t.r.end());
    Bytes b;
    for (uint32_t i = n; i-- > 0;)
        lget(b, i);
    uint32_t f = c.m.func(t, b);
    FT id;
    id.p = id.r = t.r;
    uint32_t ti = c.m.type(id), tt = c.m.type(t);
    Bytes d;
    i32c(d, 0x5a5a5a5a);
    for (uint32_t i = 0; i < n; i++)
        constant(d, ty(p, i), val(ty(p, i), i));
    switch (form) {
    case 0: call(d, f); break;
    case 1:
        c.m.tables.push_back({T_FUNCREF, {1, true, 1}});
        c.m.elems.emplace_back();
        i32c(c.m.elems[0].off, 0);
        c.m.elems[0].funcs = {f};
        i32c(d, 0), u8(d, 0x11), uleb(d, tt), uleb(d, 0);
        break;
    case 2: { /* by tail call */
        Bytes e;
        for (uint32_t i = 0; i < n; i++)
            lget(e, i);
        u8(e, 0x12), uleb(e, f);
        call(d, c.m.func(t, e));
        break;
    }
    case 3: /* branch over junk out of blocks */
        call(d, f);
        u8(d, 0x02), sleb(d, ti);
        u8(d, 0x02), sleb(d, ti);
        u8(d, 0x0c), uleb(d, 1);
        u8(d, 0x0b), u8(d, 0x0b);
        break;
    case 4: /* loop once more, then leave */
        call(d, f);
        u8(d, 0x03), sleb(d, ti);
        lget(d, 0), i32c(d, 1), u8(d, 0x6a), u8(d, 0x22), uleb(d, 0), i32c(d, 3), u8(d, 0x49);
        u8(d, 0x0d), uleb(d, 0);
        u8(d, 0x0b);
        break;
    case 5: /* if */
        call(d, f);
        i32c(d, 0), u8(d, 0x04), sleb(d, ti);
        u8(d, 0x00), u8(d, 0x05), i32c(d, 1), u8(d, 0x0d), uleb(d, 0), u8(d, 0x0b);
        break;
    }
    i32c(d, 0), lset(d, 1);
    for (uint32_t i = 0; i < n; i++) { /* the first value is on top */
        eq(d, ty(p, i), val(ty(p, i), i));
        lget(d, 1), u8(d, 0x6a), lset(d, 1);
    }
    lget(d, 1);
    uint32_t g = c.m.func({{}, {T_I32, T_I32}}, d, {{2, T_I32}});
    c.calls.push_back({g, {}, {0x5a5a5a5a, n}});
    /* directly from the embedder */
    Call h{f, {}, {}};
    for (uint32_t i = 0; i < n; i++)
        h.args.push_back(val(ty(p, i), i));
    for (uint32_t i = n; i-- > 0;)
        h.want.push_back(val(ty(p, i), i).lo);
    c.calls.push_back(h);
    return c;
}
/* n nested blocks left by a br_table of n entries */
static Case f_nest(uint32_t n, bool loops)
{
    Case c;
    Bytes b;
    for (uint32_t i = 0; i < n; i++) {
        u8(b, 0x02), u8(b, 0x40);
        if (loops && i % 3 == 0)
            u8(b, 0x03), u8(b, 0x40), u8(b, 0x0b);
    }
    lget(b, 0), u8(b, 0x0e), uleb(b, n);
    for (uint32_t i = 0; i < n; i++)
        uleb(b, i);
    uleb(b, n - 1);
    for (uint32_t i = 0; i < n; i++) {
        u8(b, 0x0b);
        i32c(b, i + 1), u8(b, 0x0f);
    }
    u8(b, 0x00);
    uint32_t f = c.m.func({{T_I32}, {T_I32}}, b);
    for (uint32_t k : some(n, 300))
        c.calls.push_back({f, {{k, 0}}, {k + 1}});
    c.calls.push_back({f, {{n, 0}}, {n}});
    c.calls.push_back({f, {{0xffffffff, 0}}, {n}});
    /* a single branch of each depth, from the innermost block */
    for (uint32_t k : some(n + 1, 20)) {
        Bytes d;
        for (uint32_t i = 0; i < n; i++)
            u8(d, 0x02), u8(d, 0x40);
        if (k == n)
            i32c(d, 0);
        u8(d, 0x0c), uleb(d, k);
        for (uint32_t i = 0; i < n; i++) {
            u8(d, 0x0b);
            i32c(d, i + 1), u8(d, 0x0f);
        }
        u8(d, 0x00);
        c.calls.push_back({c.m.func({{}, {T_I32}}, d), {}, {k == n ? 0 : k + 1}});
    }
    Module bad = c.m;
    bad.funcs[0].body.clear();
    Bytes &x = bad.funcs[0].body;
    for (uint32_t i = 0; i < n; i++)
        u8(x, 0x02), u8(x, 0x40);
    u8(x, 0x0c), uleb(x, n + 1);
    for (uint32_t i = 0; i < n; i++)
        u8(x, 0x0b);
    u8(x, 0x00);
    c.bad.push_back(bad);
    return c;
}
/* n conditionals in a row, preceded by pad bytes of code */
static Case f_ifs(uint32_t n, uint32_t pad)
{
    Case c;
    Bytes b(pad, 0x01);
    for (uint32_t i = 0; i < n; i++) {
        lget(b, 0), i32c(b, i), u8(b, 0x46);
        u8(b, 0x04), u8(b, 0x40);
        u8(b, 0x02), u8(b, 0x40), lget(b, 0), u8(b, 0x0d), uleb(b, 0), i32c(b, 1000), lset(b, 2), u8(b, 0x0b);
        i32c(b, i), lset(b, 1);
        u8(b, 0x05);
        lget(b, 2), i32c(b, 1), u8(b, 0x6a), lset(b, 2);
        u8(b, 0x0b);
    }
    lget(b, 1), lget(b, 2);
    uint32_t f = c.m.func({{T_I32}, {T_I32, T_I32}}, b, {{2, T_I32}});
    for (uint32_t k : some(n, 130))
        c.calls.push_back({f, {{k, 0}}, {k, k ? n - 1 : 1000 + n - 1}});
    c.calls.push_back({f, {{n, 0}}, {0, n}});
    return c;
}
/* n functions called directly, indirectly and by reference */
static Case f_funcs(uint32_t n)
{
    Case c;
    for (uint32_t i = 0; i < n; i++) {
        Bytes b;
        i32c(b, i * 3 + 1);
        c.m.func({{}, {T_I32}}, b);
    }
    c.m.tables.push_back({T_FUNCREF, {n, true, n}});
    c.m.tables.push_back({T_FUNCREF, {1, true, 1}});
    c.m.elems.emplace_back();
    Elem &e = c.m.elems.back();
    i32c(e.off, 0);
    for (uint32_t i = 0; i < n; i++)
        e.funcs.push_back(i);
    uint32_t t = c.m.type({{}, {T_I32}});
    Bytes b;
    lget(b, 0), u8(b, 0x11), uleb(b, t), uleb(b, 0);
    uint32_t f = c.m.func({{T_I32}, {T_I32}}, b);
    for (uint32_t k : some(n)) {
        c.calls.push_back({f, {{k, 0}}, {k * 3 + 1}});
        Bytes d;
        call(d, k);
        i32c(d, 0), u8(d, 0xd2), uleb(d, k), u8(d, 0x26), uleb(d, 1);
        i32c(d, 0), u8(d, 0x11), uleb(d, t), uleb(d, 1);
        c.calls.push_back({c.m.func({{}, {T_I32, T_I32}}, d), {}, {k * 3 + 1, k * 3 + 1}});
    }
    c.calls.push_back({f, {{n, 0}}, {}, TWT_CI_OOB});
    for (int w = 0; w < 3; w++) {
        Module bad = c.m;
        uint32_t all = (uint32_t)bad.funcs.size();
        if (w == 0)
            call(bad.funcs[0].body, all), u8(bad.funcs[0].body, 0x1a);
        else if (w == 1)
            bad.elems[0].funcs.back() = all;
        else
            bad.exp("x", 0, all);
        c.bad.push_back(bad);
    }
    return c;
}
/* n different types */
static Case f_types(uint32_t n)
{
    Case c;
    auto t = [](uint32_t i) {
        FT f;
        for (uint32_t v = i + 1; v; v /= 2)
            f.p.push_back(v & 1 ? T_I64 : T_I32);
        f.r = {T_I32};
        return f;
    };
    for (uint32_t i = 0; i < n; i++)
        c.m.types.push_back(t(i));
    auto ks = some(n, 24);
    c.m.tables.push_back({T_FUNCREF, {ks.size(), true, ks.size()}});
    c.m.elems.emplace_back();
    i32c(c.m.elems[0].off, 0);
    for (uint32_t k : ks) {
        Bytes b;
        i32c(b, k + 5);
        c.m.elems[0].funcs.push_back((uint32_t)c.m.funcs.size());
        c.m.funcs.push_back({k, {}, b});
    }
    FT dt{{T_I32}, {T_I32}};
    c.m.types.push_back(dt);
    for (size_t i = 0; i < ks.size(); i++) {
        Bytes b;
        for (auto v : t(ks[i]).p)
            constant(b, v, {1, 0});
        lget(b, 0), u8(b, 0x11), uleb(b, ks[i]), uleb(b, 0);
        c.m.funcs.push_back({n, {}, b});
        uint32_t f = (uint32_t)c.m.funcs.size() - 1;
        for (size_t j = 0; j < ks.size(); j++) {
            Call x{f, {{j, 0}}, {}};
            if (i == j)
                x.want = {ks[i] + 5};
            else
                x.trap = TWT_CI_TYPE;
            c.calls.push_back(x);
        }
    }
    Module bad = c.m;
    bad.funcs[0].type = n + 1;
    c.bad.push_back(bad);
    return c;
}
static Case f_globals(uint32_t n, int p)
{
    Case c;
    for (uint32_t i = 0; i < n; i++) {
        Bytes b;
        constant(b, ty(p, i), val(ty(p, i), i + 3));
        c.m.globals.push_back({ty(p, i), true, b});
    }
    Bytes b;
    auto ks = some(n, 300);
    i32c(b, 0);
    for (uint32_t k : ks)
        gget(b, k), eq(b, ty(p, k), val(ty(p, k), k + 3)), u8(b, 0x6a);
    for (uint32_t k : ks)
        constant(b, ty(p, k), val(ty(p, k), k)), gset(b, k);
    for (uint32_t k : ks)
        gget(b, k), eq(b, ty(p, k), val(ty(p, k), k)), u8(b, 0x6a);
    for (uint32_t k : ks)
        constant(b, ty(p, k), val(ty(p, k), k + 3)), gset(b, k);
    c.calls.push_back({c.m.func({{}, {T_I32}}, b), {}, {2 * ks.size()}});
    for (int w = 0; w < 2; w++) {
        Module bad = c.m;
        gget(bad.funcs[0].body, n), u8(bad.funcs[0].body, 0x1a);
        if (w)
            bad.funcs[0].body = c.m.funcs[0].body, bad.exp("x", 3, n);
        c.bad.push_back(bad);
    }
    return c;
}
/* n tables, n passive element segments */
static Case f_tables(uint32_t n)
{
    Case c;
    for (int i = 0; i < 2; i++) {
        Bytes b;
        i32c(b, 40 + (uint32_t)i);
        c.m.func({{}, {T_I32}}, b);
    }
    for (uint32_t i = 0; i < n; i++) {
        c.m.tables.push_back({T_FUNCREF, {1 + i % 3, true, 5}});
        Elem e;
        e.flags = 1;
        e.funcs = {i % 2};
        if (i % 5 == 4)
            e.funcs.push_back(1 - i % 2);
        c.m.elems.push_back(e);
    }
    uint32_t t = c.m.type({{}, {T_I32}});
    for (uint32_t k : some(n, 40)) {
        uint32_t s = n - 1 - k;
        Bytes b;
        i32c(b, 0), i32c(b, 0), i32c(b, 1), u8(b, 0xfc), uleb(b, 12), uleb(b, s), uleb(b, k);
        i32c(b, 0), u8(b, 0x11), uleb(b, t), uleb(b, k);
        u8(b, 0xfc), uleb(b, 16), uleb(b, k); /* table.size */
        /* second entry of the segment */
        c.calls.push_back({c.m.func({{}, {T_I32, T_I32}}, b), {}, {40 + s % 2, 1 + k % 3}});
        Bytes d;
        i32c(d, 0), i32c(d, s % 5 == 4 ? 2 : 1), i32c(d, 1), u8(d, 0xfc), uleb(d, 12), uleb(d, s), uleb(d, k);
        c.calls.push_back({c.m.func({{}, {}}, d), {}, {}, TWT_OOB_ELEM});
        Bytes e;
        i32c(e, 1 + k % 3), u8(e, 0x25), uleb(e, k), u8(e, 0x1a);
        c.calls.push_back({c.m.func({{}, {}}, e), {}, {}, TWT_OOB_TABLE});
    }
    for (int w = 0; w < 2; w++) {
        Module bad = c.m;
        Bytes &b = bad.funcs[0].body;
        if (w == 0)
            u8(b, 0xfc), uleb(b, 16), uleb(b, n), u8(b, 0x1a);
        else
            u8(b, 0xfc), uleb(b, 13), uleb(b, n);
        c.bad.push_back(bad);
    }
    return c;
}
/* n memories, n data segments */
static Case f_mems(uint32_t n, uint32_t nd)
{
    Case c;
    c.m.datacount = true;
    for (uint32_t i = 0; i < n; i++)
        c.m.mems.push_back({1, true, 2});
    auto by = [](uint32_t i) { return (uint8_t)(i * 7 + i / 256 + 1); };
    for (uint32_t i = 0; i < nd; i++) {
        Data d;
        d.flags = i % 3 == 0 ? 1 : 2;
        d.mem = i % n;
        if (d.flags == 2)
            i32c(d.off, i);
        d.bytes = {by(i)};
        c.m.datas.push_back(d);
    }
    for (uint32_t k : some(nd, 60)) {
        bool act = k % 3 != 0;
        Bytes b;
        if (!act)
            i32c(b, k), i32c(b, 0), i32c(b, 1), u8(b, 0xfc), uleb(b, 8), uleb(b, k), uleb(b, k % n);
        i32c(b, k), u8(b, 0x2d), uleb(b, k % n ? 0x40 : 0);
        if (k % n)
            uleb(b, k % n);
        uleb(b, 0);
        c.calls.push_back({c.m.func({{}, {T_I32}}, b), {}, {by(k)}});
        Bytes d; /* dropped */
        u8(d, 0xfc), uleb(d, 9), uleb(d, k);
        i32c(d, 0), i32c(d, 0), i32c(d, 1), u8(d, 0xfc), uleb(d, 8), uleb(d, k), uleb(d, 0);
        if (act)
            c.calls.push_back({c.m.func({{}, {}}, d), {}, {}, TWT_OOB_DATA});
    }
    for (uint32_t k : some(n, 60)) { /* store and read back, others unaffected */
        uint32_t o = (k + 1) % n;
        auto ma = [&](Bytes &b, uint32_t m, uint32_t off) {
            uleb(b, m ? 0x42 : 2);
            if (m)
                uleb(b, m);
            uleb(b, off);
        };
        Bytes b;
        i32c(b, 0), i32c(b, k + 77), u8(b, 0x36), ma(b, k, 65000);
        i32c(b, 0), i32c(b, 5), u8(b, 0x36), ma(b, o, 64000);
        i32c(b, 0), u8(b, 0x28), ma(b, k, 65000);
        i32c(b, 0), i32c(b, 0), u8(b, 0x36), ma(b, k, 65000);
        i32c(b, 0), u8(b, 0x28), ma(b, o, 65000);
        u8(b, 0x3f), uleb(b, k);
        c.calls.push_back({c.m.func({{}, {T_I32, T_I32, T_I32}}, b), {}, {k + 77, 0, 1}});
    }
    for (int w = 0; w < 2; w++) {
        Module bad = c.m;
        if (bad.funcs.empty())
            break;
        Bytes &b = bad.funcs[0].body;
        if (w == 0)
            u8(b, 0x3f), uleb(b, n), u8(b, 0x1a);
        else
            u8(b, 0xfc), uleb(b, 9), uleb(b, nd);
        c.bad.push_back(bad);
    }
    return c;
}
/* n tags, n clauses */
static Case f_tags(uint32_t n)
{
    Case c;
    uint32_t t = c.m.type({{T_I32}, {}});
    for (uint32_t i = 0; i < n; i++)
        c.m.tags.push_back(t);
    /* throws the tag given */
    Bytes b;
    for (uint32_t i = 0; i < n; i++)
        u8(b, 0x02), u8(b, 0x40);
    lget(b, 0), u8(b, 0x0e), uleb(b, n - 1);
    for (uint32_t i = 0; i < n; i++)
        uleb(b, i);
    for (uint32_t i = 0; i < n; i++)
        u8(b, 0x0b), i32c(b, i + 9), u8(b, 0x08), uleb(b, i);
    uint32_t th = c.m.func({{T_I32}, {}}, b);
    /* catches all but the last, in reverse order */
    Bytes d;
    for (uint32_t i = 0; i < n; i++)
        u8(d, 0x02), u8(d, T_I32);
    u8(d, 0x1f), u8(d, 0x40), uleb(d, n - 1);
    for (uint32_t i = n - 1; i-- > 0;)
        u8(d, 0x00), uleb(d, i), uleb(d, i);
    lget(d, 0), call(d, th);
    u8(d, 0x0b);
    u8(d, 0x00);
    for (uint32_t i = 0; i < n; i++)
        u8(d, 0x0b), i32c(d, i * 1000), u8(d, 0x6a), u8(d, 0x0f);
    u8(d, 0x00);
    uint32_t f = c.m.func({{T_I32}, {T_I32}}, d);
    for (uint32_t k : some(n - 1))
        c.calls.push_back({f, {{k, 0}}, {k + 9 + k * 1000}});
    c.calls.push_back({f, {{n - 1, 0}}, {}, TWT_UNCAUGHT});
    Module bad = c.m;
    Bytes &x = bad.funcs[0].body;
    i32c(x, 0), u8(x, 0x08), uleb(x, n);
    c.bad.push_back(bad);
    return c;
}
/* recursion n deep with locals of every size */
static Case f_recur(uint32_t n, int p)
{
    Case c;
    uint8_t t = ty(p, 0);
    Bytes b; /* (i32 d, t) -> i32 : at the way back the locals are what they were */
    constant(b, t, val(t, 1)), lset(b, 3);
    lget(b, 0), lset(b, 2);
    lget(b, 0), u8(b, 0x04), u8(b, T_I32);
    lget(b, 0), i32c(b, 1), u8(b, 0x6b), lget(b, 1), call(b, 0);
    u8(b, 0x05), i32c(b, 0), u8(b, 0x0b);
    lget(b, 3), eq(b, t, val(t, 1)), u8(b, 0x6a);
    lget(b, 1), eq(b, t, val(t, 2)), u8(b, 0x6a);
    lget(b, 2), lget(b, 0), u8(b, 0x46), u8(b, 0x6a);
    uint32_t f = c.m.func({{T_I32, t}, {T_I32}}, b, {{1, T_I32}, {1, t}});
    c.calls.push_back({f, {{n, 0}, val(t, 2)}, {3 * (n + 1)}});
    return c;
}
/* n entries, pages */
static Case f_grow(uint32_t n)
{
    Case c;
    c.once = true;
    c.m.tables.push_back({T_FUNCREF, {0, false, 0}});
    c.m.mems.push_back({0, true, 2000});
    uint32_t t = c.m.type({{}, {T_I32}});
    Bytes one;
    i32c(one, 11);
    uint32_t f = c.m.func({{}, {T_I32}}, one);
    c.m.exp("f", 0, f);
    Bytes b;
    u8(b, 0xd2), uleb(b, f), i32c(b, n), u8(b, 0xfc), uleb(b, 15), uleb(b, 0); /* old size */
    u8(b, 0xd0), u8(b, T_FUNCREF), i32c(b, n), u8(b, 0xfc), uleb(b, 15), uleb(b, 0);
    i32c(b, n - 1), u8(b, 0x11), uleb(b, t), uleb(b, 0);
    i32c(b, n), u8(b, 0x25), uleb(b, 0), u8(b, 0xd1);
    i32c(b, 2 * n - 1), u8(b, 0x25), uleb(b, 0), u8(b, 0xd1);
    u8(b, 0xfc), uleb(b, 16), uleb(b, 0);
    c.calls.push_back({c.m.func({{}, {T_I32, T_I32, T_I32, T_I32, T_I32, T_I32}}, b), {}, {0, n, 11, 1, 1, 2 * n}});
    Bytes e;
    i32c(e, 2 * n), u8(e, 0x25), uleb(e, 0), u8(e, 0x1a);
    c.calls.push_back({c.m.func({{}, {}}, e), {}, {}, TWT_OOB_TABLE});
    if (n <= 1000) {
        Bytes m;
        i32c(m, n), u8(m, 0x40), u8(m, 0);
        i32c(m, n * 65536 - 8), i64c(m, ~0ull), u8(m, 0x37), u8(m, 3), u8(m, 0);
        i32c(m, n), u8(m, 0x40), u8(m, 0);
        i32c(m, n * 65536 - 4), u8(m, 0x29), u8(m, 2), u8(m, 0), u8(m, 0x50), u8(m, 0x45);
        i32c(m, 2 * n * 65536 - 4), u8(m, 0x28), u8(m, 2), u8(m, 0);
        u8(m, 0x3f), u8(m, 0);
        c.calls.push_back({c.m.func({{}, {T_I32, T_I32, T_I32, T_I32, T_I32}}, m), {}, {0, n, 1, 0, 2 * n}});
        Bytes o;
        i32c(o, 2 * n * 65536 - 3), u8(o, 0x28), u8(o, 2), u8(o, 0), u8(o, 0x1a);
        c.calls.push_back({c.m.func({{}, {}}, o), {}, {}, TWT_OOB_MEM});
    }
    return c;
}
/* debug names of every other function, export names for the rest */
static Case f_names(uint32_t n)
{
    Case c;
    Bytes map;
    uint32_t cnt = 0;
    for (uint32_t i = 0; i < n; i++) {
        c.m.func({{}, {}}, {});
        std::string en = mc::fmt("e%u", i), nn = mc::fmt("n%u", i);
        if (i % 3)
            c.m.exp(en, 0, i);
        if (i % 2 == 0)
            uleb(map, i), name(map, nn), cnt++;
        c.names.push_back({i, i % 2 == 0 ? nn : i % 3 ? en : "<unknown>"});
    }
    Bytes sub, sec;
    uleb(sub, cnt);
    cat(sub, map);
    name(sec, "name");
    u8(sec, 1), uleb(sec, sub.size()), cat(sec, sub);
    section(c.tail, 0, sec);
    return c;
}

/* ------------------------------------------------------------ running */
static void run_calls(const Case &c, tw_mod *m, const char *what)
{
    int err = 0, trap = 0;
    tw_inst *in = tw_instantiate(m, nullptr, &err, &trap);
    if (!in) {
        X->fail("%s: cannot be instantiated: %d", what, err);
        return;
    }
    for (int rep = 0; rep < (c.once ? 1 : 2); rep++)
        for (auto &k : c.calls) {
            std::vector<twv> r(k.want.size() + 1, twv{0, 0});
            trap = 0;
            int ret = tw_call(in, k.f, k.args.data(), r.data(), nullptr, &trap);
            X->add(c_calls);
            if (k.trap != TWT_NONE) {
                if (ret != TW_TRAP || trap != k.trap)
                    X->fail("%s: function %u (%llx): %d %s instead of trap %s", what, k.f, (unsigned long long)(k.args.empty() ? 0 : k.args[0].lo), ret, tw_trap_name(trap), tw_trap_name(k.trap));
                continue;
            }
            if (ret) {
                X->fail("%s: function %u (%llx): %d %s", what, k.f, (unsigned long long)(k.args.empty() ? 0 : k.args[0].lo), ret, tw_trap_name(trap));
                continue;
            }
            for (size_t i = 0; i < k.want.size(); i++)
                if (r[i].lo != k.want[i]) {
                    X->fail("%s: function %u (%llx): result %zu is %llx instead of %llx", what, k.f, (unsigned long long)(k.args.empty() ? 0 : k.args[0].lo), i, (unsigned long long)r[i].lo, (unsigned long long)k.want[i]);
                    break;
                }
        }
    tw_inst_destroy(in);
}
static void run_case(const std::string &nm, const Case &c)
{
    Bytes b = c.m.encode();
    cat(b, c.tail);
    for (unsigned o : {0u, (unsigned)(TWL_NO_JUMP_TABLE | TWL_NO_RT_CELLIDX | TWL_NO_LT_CELLIDX)}) {
        int err = 0;
        char msg[200] = "";
        tw_mod *m = tw_load(Env, b.data(), b.size(), o, &err, msg, sizeof(msg));
        X->add(c_mods);
        if (!m) {
            X->fail("%s: does not load: %d %s", nm.c_str(), err, msg);
            return;
        }
        run_calls(c, m, nm.c_str());
        struct tw_names *t = tw_names_begin();
        for (auto &k : c.names) {
            uint32_t len = 0;
            const char *s = tw_name(t, m, 0, k.first, &len);
            if (std::string(s, len) != k.second)
                X->fail("%s: function %u is called %.*s instead of %s", nm.c_str(), k.first, (int)len, s, k.second.c_str());
        }
        tw_names_end(t);
        if (Write && !o) {
            int fd = memfd_create("w", 0);
            std::string path = mc::fmt("/proc/self/fd/%d", fd);
            err = tw_module_write(m, path.c_str());
            off_t sz = lseek(fd, 0, SEEK_END);
            Bytes w((size_t)sz);
            if (err || pread(fd, w.data(), w.size(), 0) != sz)
                X->fail("%s: cannot be written: %d", nm.c_str(), err);
            close(fd);
            tw_mod *m2 = tw_load(Env, w.data(), w.size(), o, &err, msg, sizeof(msg));
            if (!m2)
                X->fail("%s: does not load after being written: %d %s", nm.c_str(), err, msg);
            else {
                run_calls(c, m2, (nm + " written").c_str());
                tw_unload(m2);
            }
        }
        tw_unload(m);
    }
    for (auto &x : c.bad) {
        Bytes q = x.encode();
        int err = 0;
        char msg[200] = "";
        tw_mod *m = tw_load(Env, q.data(), q.size(), 0, &err, msg, sizeof(msg));
        X->add(c_bad);
        if (m) {
            X->fail("%s: accepted with an index one too large (variant %zu)", nm.c_str(), (size_t)(&x - c.bad.data()));
            tw_unload(m);
        }
    }
    X->outcome(mc::fnv(nm.data(), nm.size()));
}
/* n functions of which only d is declared (in one of the ways): may r be referred to? */
static void refdecl(uint32_t n, uint32_t d, int way)
{
    for (uint32_t r : some(n, 300)) {
        Module m;
        for (uint32_t i = 0; i < n; i++)
            m.func({{}, {}}, {});
        Bytes b;
        u8(b, 0xd2), uleb(b, r), u8(b, 0x1a);
        m.func({{}, {}}, b);
        Bytes e;
        switch (way) {
        case 0: {
            Elem x;
            x.flags = 3, x.funcs = {d};
            m.elems.push_back(x);
            break;
        }
        case 1: m.exp("x", 0, d); break;
        case 2:
            u8(e, 0xd2), uleb(e, d);
            m.globals.push_back({T_FUNCREF, false, e});
            break;
        case 3: {
            Elem x;
            x.flags = 5;
            u8(e, 0xd2), uleb(e, d);
            x.exprs = {e};
            m.elems.push_back(x);
            break;
        }
        }
        Bytes q = m.encode();
        int err = 0;
        char msg[200] = "";
        tw_mod *k = tw_load(Env, q.data(), q.size(), 0, &err, msg, sizeof(msg));
        X->add(c_mods);
        X->outcome(((uint64_t)n << 32) + (uint64_t)r * 2 + !!k);
        if (!!k != (r == d))
            X->fail("%u functions, %u declared in way %d: a reference to %u is %s", n, d, way, r, k ? "accepted" : "rejected");
        if (k)
            tw_unload(k);
    }
}
/* n exports of each kind, imported in reverse order by another module */
static void linkcase(uint32_t n)
{
    Module a;
    for (uint32_t i = 0; i < n; i++) {
        Bytes b, g;
        i32c(b, i + 3);
        a.exp(mc::fmt("f%u", i), 0, a.func({{}, {T_I32}}, b));
        i32c(g, i * 2 + 1);
        a.globals.push_back({T_I32, false, g});
        a.exp(mc::fmt("g%u", i), 3, i);
        a.tables.push_back({T_FUNCREF, {i % 7, true, 10}});
        a.exp(mc::fmt("t%u", i), 1, i);
    }
    Module b;
    FT t{{}, {T_I32}};
    for (uint32_t i = n; i-- > 0;) {
        Import f, g, tb;
        f.mod = g.mod = tb.mod = "a";
        f.name = mc::fmt("f%u", i), f.kind = 0, f.typeidx = b.type(t);
        g.name = mc::fmt("g%u", i), g.kind = 3, g.vt = T_I32;
        tb.name = mc::fmt("t%u", i), tb.kind = 1, tb.vt = T_FUNCREF, tb.l = {i % 7, true, 10};
        b.imports.push_back(f), b.imports.push_back(g), b.imports.push_back(tb);
    }
    std::vector<Call> cs;
    for (uint32_t k : some(n)) {
        Bytes x;
        call(x, k), gget(x, k), u8(x, 0xfc), uleb(x, 16), uleb(x, k);
        uint32_t i = n - 1 - k;
        cs.push_back({b.func({{}, {T_I32, T_I32, T_I32}}, x), {}, {i + 3, i * 2 + 1, i % 7}});
    }
    int err = 0, trap = 0;
    char msg[200] = "";
    Bytes ab = a.encode();
    tw_mod *ma = tw_load(Env, ab.data(), ab.size(), 0, &err, msg, sizeof(msg));
    if (!ma) {
        X->fail("%u exports: does not load: %d %s", n, err, msg);
        return;
    }
    tw_inst *ia = tw_instantiate(ma, nullptr, &err, &trap);
    tw_imports *im = tw_imports_new(Env);
    tw_imports_add_exports(im, ia, "a");
    /* as it is, and with one import of each kind not provided */
    for (int w = -1; w < 6; w++) {
        Module q = b;
        uint32_t at = w < 3 ? 0 : n - 1;
        if (w >= 0)
            q.imports[at * 3 + (uint32_t)w % 3].name += "x";
        Bytes qb = q.encode();
        tw_mod *mb = tw_load(Env, qb.data(), qb.size(), 0, &err, msg, sizeof(msg));
        X->add(c_mods);
        if (!mb) {
            X->fail("%u imports: does not load: %d %s", n, err, msg);
            continue;
        }
        tw_inst *ib = tw_instantiate(mb, im, &err, &trap);
        if (!!ib != (w < 0))
            X->fail("%u imports, missing %d: %s", n, w, ib ? "instantiated" : "not instantiated");
        if (ib) {
            for (auto &k : cs) {
                twv r[3];
                int ret = tw_call(ib, k.f, nullptr, r, nullptr, &trap);
                X->add(c_calls);
                for (int i = 0; i < 3; i++)
                    if (ret || r[i].lo != k.want[(size_t)i])
                        X->fail("%u imports: function %u result %d: %d, %llx instead of %llx", n, k.f, i, ret, (unsigned long long)r[i].lo, (unsigned long long)k.want[(size_t)i]);
            }
            tw_inst_destroy(ib);
        }
        tw_unload(mb);
    }
    tw_imports_free(im);
    tw_inst_destroy(ia);
    tw_unload(ma);
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "scale");
    X = &x;
    c_calls = x.counter("calls");
    c_mods = x.counter("modules");
    c_bad = x.counter("modules_to_be_rejected");
    eh = x.opt.get("noeh") != "1";
    Th = x.opt.thorough();
    Write = x.opt.get("write") == "1";
    std::string part = x.opt.get("part", "all");
    uint32_t D = Th ? 300 : 70, cap = (uint32_t)atoi(x.opt.get("cap", "10000000").c_str());
    std::vector<std::function<void()>> cases;
    auto want = [&](const char *p) { return part == "all" || ("," + part + ",").find(std::string(",") + p + ",") != std::string::npos; };
    auto fam = [&](std::string nm, const std::vector<uint32_t> &ns, Family f) {
        for (uint32_t n : ns)
            if (n <= cap)
                cases.push_back([=] { run_case(mc::fmt("%s %u", nm.c_str(), n), f(n)); });
    };
    if (want("control")) {
        for (int p = 0; p < 4; p++) {
            for (bool ch : {false, true})
                fam(mc::fmt("locals pattern %d%s,", p, ch ? " in chunks" : "").c_str(), sizes(D, Th || ch ? 70000 : 5000), [=](uint32_t n) { return f_locals(n, p, ch, n % 3); });
            fam(mc::fmt("parameters pattern %d,", p).c_str(), sizes(D, 1025), [=](uint32_t n) { return f_locals(3, p, false, n); });
            for (int form = 0; form < 6; form++)
                fam(mc::fmt("values pattern %d form %d,", p, form).c_str(), sizes(Th ? 300 : form ? 20 : 70, Th ? 20000 : form ? 600 : 2050), [=](uint32_t n) { return f_values(n, p, form); });
            fam(mc::fmt("recursion pattern %d,", p).c_str(), sizes(D, Th ? 100000 : 20000), [=](uint32_t n) { return f_recur(n, p); });
        }
        for (bool l : {false, true})
            fam(l ? "nested blocks and loops" : "nested blocks", sizes(D, Th ? 9000 : 1030), [=](uint32_t n) { return f_nest(n, l); });
        fam("conditionals", sizes(D, Th ? 5000 : 1030), [=](uint32_t n) { return f_ifs(n, 0); });
        fam("code bytes", sizes(D, Th ? 5000000 : 1100000), [=](uint32_t n) { return f_ifs(5, n); });
    }
    if (want("funcs")) {
        fam("functions", sizes(D, Th ? 70000 : 17000), f_funcs);
        fam("types", sizes(D, Th ? 70000 : 17000), f_types);
    }
    if (want("tables")) {
        for (int p = 0; p < 4; p++)
            fam(mc::fmt("globals pattern %d,", p).c_str(), sizes(D, Th ? 70000 : 17000), [=](uint32_t n) { return f_globals(n, p); });
        fam("tables", sizes(D, Th ? 5000 : 1030), f_tables);
    }
    if (want("tables") || want("mems"))
        fam("grow", sizes(D, Th ? 1000000 : 70000), f_grow);
    if (want("mems")) {
        fam("memories", sizes(D, Th ? 1030 : 260), [=](uint32_t n) { return f_mems(n, n + 3); });
        fam("data segments", sizes(D, Th ? 60000 : 17000), [=](uint32_t n) { return f_mems(2, n); });
    }
    if (want("tags") && eh) {
        auto s = sizes(D, Th ? 5000 : 1030);
        s.erase(s.begin());
        fam("tags", s, f_tags);
    }
    if (want("names"))
        fam("names", sizes(D, Th ? 70000 : 5000), f_names);
    if (want("link"))
        for (uint32_t n : sizes(D, Th ? 3000 : 520))
            cases.push_back([=] { linkcase(n); });
    if (want("decl")) {
        for (int way = 0; way < 4; way++) {
            for (uint32_t d = 0; d < 70; d++)
                cases.push_back([=] { refdecl(70, d, way); });
            for (uint32_t n : {31u, 32u, 33u, 64u, 65u, 129u, 260u, 1030u})
                for (uint32_t d : some(n, 0))
                    cases.push_back([=] { refdecl(n, d, way); });
        }
    }
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    x.run(cases.size(), [&](uint64_t i) { cases[i](); });
    x.sample("300 locals of i32, i64, v128, f64, externref, f32, funcref in turn: each read, set and read back");
    x.sample("1025 nested blocks left by a br_table of 1025 entries");
    x.sample("70 functions of which the 33rd is declared: ref.func is valid for that one only");
    return x.finish();
}
