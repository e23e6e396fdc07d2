/*
 * C03, C04: every sequence of memory / table / global operations up to a
 * depth, over boundary arguments, on fresh instances; each result and trap,
 * and the whole state after the last operation, against the reference.
 */
#include "pair.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_seq, c_ops, c_traps, c_single;
static tw_env *Env;
static const size_t HEAPLIM = (size_t)512 << 20;

struct Op {
    std::string name;
    uint32_t f;
    std::vector<twv> a;
};
struct Sys {
    std::string name;
    Module m;
    std::vector<Host> hosts;
    std::shared_ptr<Module> ex;
    std::vector<Op> ops;
    unsigned depth = 3;
    bool operator<(const Sys &o) const { return name < o.name; }
};
static std::vector<Sys> systems;

static std::string opstr(const Op &o)
{
    std::string s = o.name + "(";
    for (size_t i = 0; i < o.a.size(); i++)
        s += mc::fmt("%s0x%llx", i ? "," : "", (unsigned long long)o.a[i].lo);
    return s + ")";
}

/* ---- memory systems ---- */
struct MemCfg {
    std::string name;
    std::vector<Lim> mems;
    int alias = 0; /* the first two indices are one imported memory; 2: only the first is imported */
};
static Lim L(uint64_t min, int64_t max, int shift = 16, bool shared = false)
{
    Lim l;
    l.min = min;
    l.hasmax = max >= 0;
    l.max = l.hasmax ? (uint64_t)max : 0;
    l.custom = shift != 16;
    l.shift = (unsigned)shift;
    l.shared = shared;
    return l;
}
static void memarg(Bytes &b, unsigned align, uint32_t mem, uint32_t off)
{
    if (mem) {
        u8(b, align | 0x40);
        uleb(b, mem);
    } else
        u8(b, align);
    uleb(b, off);
}
static Bytes params(unsigned n)
{
    Bytes b;
    for (unsigned i = 0; i < n; i++)
        lget(b, i);
    return b;
}
static Sys memsys(const MemCfg &c, unsigned depth)
{
    Sys s;
    s.name = c.name;
    s.depth = depth;
    Module &m = s.m;
    for (size_t i = 0; i < c.mems.size(); i++) {
        if (c.alias && (i == 0 || (c.alias == 1 && i == 1))) {
            m.imports.push_back({"x", "m", 2, 0, 0, false, c.mems[0]});
            if (!s.ex) {
                s.ex.reset(new Module);
                s.ex->mems.push_back(c.mems[0]);
                s.ex->exp("m", 2, 0);
            }
        } else
            m.mems.push_back(c.mems[i]);
    }
    Data d0, d1, d2;
    d0.flags = d1.flags = 1;
    for (int i = 0; i < 8; i++)
        d0.bytes.push_back((uint8_t)(0xa0 + i));
    d2.flags = 0;
    i32c(d2.off, 0);
    uint64_t S0 = c.mems[0].min << c.mems[0].shift;
    if (S0 >= 4)
        d2.bytes = {1, 2, 3, 4};
    m.datas = {d0, d1, d2};
    m.datacount = true;
    const uint8_t I = T_I32, L64 = T_I64;
    size_t nm = c.mems.size();
    std::set<std::string> seen;
    auto add = [&](const std::string &n, uint32_t f, std::vector<uint64_t> a) {
        Op o;
        o.name = n;
        o.f = f;
        for (auto v : a)
            o.a.push_back({v, 0});
        if (seen.insert(opstr(o)).second)
            s.ops.push_back(o);
    };
    for (uint32_t k = 0; k < nm; k++) {
        std::string t = nm > 1 ? mc::fmt("%u", k) : "";
        bool few = nm > 1;
        uint32_t S = (uint32_t)(c.mems[k].min << c.mems[k].shift);
        uint32_t P = 1u << c.mems[k].shift;
        Bytes b = params(1);
        u8(b, 0x40);
        uleb(b, k);
        uint32_t f = m.func(FT{{I}, {I}}, b);
        bool unl = !c.mems[k].hasmax;
        std::vector<uint64_t> gs = {1, 2, 3, 0, 0xffffffff, 0xfffffffe};
        if (c.mems[k].shift == 0)
            gs = {1, 3, 5, 9, 0, 0xffffffff, 0xfffffff0};
        if (few)
            gs = {1, 2, 0xffffffff};
        if (unl)
            gs.push_back(0x8000);
        for (auto g : gs)
            if (!(c.mems[k].shift == 0 && unl && g == 0x8000))
                add("grow" + t, f, {g});
        b.clear();
        u8(b, 0x3f);
        uleb(b, k);
        f = m.func(FT{{}, {I}}, b);
        if (!few)
            add("size" + t, f, {});
        /* fill */
        b = params(3);
        u8(b, 0xfc);
        uleb(b, 11);
        uleb(b, k);
        f = m.func(FT{{I, I, I}, {}}, b);
        add("fill" + t, f, {S - 1, 0xbb, 1});
        add("fill" + t, f, {S - 1, 0xbc, 2});
        add("fill" + t, f, {S, 0xcc, P});
        add("fill" + t, f, {S + 1, 0xcc, 0});
        if (!few) {
            add("fill" + t, f, {S, 0xcd, 0});
            add("fill" + t, f, {S - 3, 0x1ff, 3});
            add("fill" + t, f, {0xffffffff, 1, 1});
            add("fill" + t, f, {0xffffffff, 1, 0});
            add("fill" + t, f, {1, 7, 0xffffffff});
            add("fill" + t, f, {0, 0xee, S});
        }
        /* init from the passive segment */
        b = params(3);
        u8(b, 0xfc);
        uleb(b, 8);
        uleb(b, 0);
        uleb(b, k);
        f = m.func(FT{{I, I, I}, {}}, b);
        add("init" + t, f, {3, 2, 4});
        add("init" + t, f, {S - 8, 0, 8});
        add("init" + t, f, {S - 7, 0, 8});
        add("init" + t, f, {0, 0, 0});
        if (!few) {
            add("init" + t, f, {0, 1, 8});
            add("init" + t, f, {0, 8, 0});
            add("init" + t, f, {0, 9, 0});
            add("init" + t, f, {S, 8, 0});
            add("init" + t, f, {S + 1, 0, 0});
            add("init" + t, f, {S, 0, 8});
            add("init" + t, f, {0xffffffff, 0, 1});
            add("init" + t, f, {0, 0xffffffff, 1});
            add("init" + t, f, {0, 1, 0xffffffff});
        }
        if (!few) {
            /* from the empty and from the active (already dropped) segment */
            for (uint32_t seg = 1; seg <= 2; seg++) {
                b = params(3);
                u8(b, 0xfc);
                uleb(b, 8);
                uleb(b, seg);
                uleb(b, k);
                f = m.func(FT{{I, I, I}, {}}, b);
                add(mc::fmt("init_seg%u", seg), f, {0, 0, 0});
                add(mc::fmt("init_seg%u", seg), f, {0, 0, 1});
            }
        }
        /* accesses */
        b = params(2);
        u8(b, 0x37);
        memarg(b, 0, k, 0);
        f = m.func(FT{{I, L64}, {}}, b);
        add("store64" + t, f, {S - 8, 0x1122334455667788ull});
        add("store64" + t, f, {S - 7, 0x1122334455667788ull});
        add("store64" + t, f, {S, 0x99aabbccddeeff00ull});
        if (!few) {
            add("store64" + t, f, {2, 0x0102030405060708ull});
            add("store64" + t, f, {0xfffffffc, 5});
            add("store64" + t, f, {S + P, 6});
        }
        b = params(1);
        u8(b, 0x29);
        memarg(b, 0, k, 4);
        f = m.func(FT{{I}, {L64}}, b);
        add("load64+4" + t, f, {S - 12});
        add("load64+4" + t, f, {S - 4});
        if (!few)
            add("load64+4" + t, f, {S + P - 12});
    }
    for (uint32_t a = 0; a < nm; a++)
        for (uint32_t b2 = 0; b2 < nm; b2++) {
            Bytes b = params(3);
            u8(b, 0xfc);
            uleb(b, 10);
            uleb(b, a);
            uleb(b, b2);
            uint32_t f = m.func(FT{{I, I, I}, {}}, b);
            uint32_t S = (uint32_t)(c.mems[a].min << c.mems[a].shift), T = (uint32_t)(c.mems[b2].min << c.mems[b2].shift);
            std::string t = nm > 1 ? mc::fmt("copy%u<-%u", a, b2) : "copy";
            bool few = nm > 1;
            add(t, f, {0, T - 4, 4});
            add(t, f, {S - 4, 0, 4});
            add(t, f, {S - 4, 1, 5});
            add(t, f, {1, T - 4, 5});
            add(t, f, {S, 0, 0});
            add(t, f, {0, T + 1, 0});
            if (!few) {
                add(t, f, {2, 0, 6});
                add(t, f, {0, 2, 6});
                add(t, f, {0, T, 0});
                add(t, f, {S + 1, 0, 0});
                add(t, f, {0, 0xffffffff, 2});
                add(t, f, {0xffffffff, 0, 2});
                add(t, f, {0, 1, 0xffffffff});
                add(t, f, {S, 0, 4});
                add(t, f, {0, S, 4});
                add(t, f, {S - 2, S - 4, 4});
            }
        }
    Bytes b;
    u8(b, 0xfc);
    uleb(b, 9);
    uleb(b, 0);
    add("drop", m.func(FT{{}, {}}, b), {});
    return s;
}

/* ---- table systems ---- */
static Sys tabsys(int cfg, unsigned depth)
{
    Sys s;
    s.name = mc::fmt("tables%d", cfg);
    s.depth = depth;
    Module &m = s.m;
    const uint8_t I = T_I32, F = T_FUNCREF, E = T_EXTERNREF;
    uint32_t tyA = m.type(FT{{}, {I}});
    m.types.push_back(FT{{}, {I}}); /* structurally equal, other index */
    uint32_t tyA2 = 1;
    m.types.push_back(FT{{}, {T_I64}});
    uint32_t tyB = 2;
    m.types.push_back(FT{{I}, {I}});
    uint32_t tyC = 3;
    m.imports.push_back({"h", "f", 0, tyA, 0, false, Lim()});
    s.hosts.push_back({"h", "f", FT{{}, {I}}, [](const std::vector<twv> &, std::vector<twv> &r) {
                           r[0] = {777, 0};
                           return 0;
                       }});
    Bytes b;
    i32c(b, 11);
    m.funcs.push_back({tyA, {}, b}); /* 1 */
    b.clear();
    i32c(b, 22);
    m.funcs.push_back({tyA2, {}, b}); /* 2 */
    b.clear();
    i64c(b, 33);
    m.funcs.push_back({tyB, {}, b}); /* 3 */
    b.clear();
    lget(b, 0);
    m.funcs.push_back({tyC, {}, b}); /* 4 */
    struct T {
        uint8_t t;
        Lim l;
    };
    std::vector<T> ts;
    switch (cfg) {
    case 0: ts = {{F, L(3, 6)}}; break;
    case 1: ts = {{F, L(2, -1)}, {E, L(3, 5)}}; break;
    case 2: ts = {{E, L(0, -1)}, {F, L(4, 4)}, {F, L(1, 9)}}; break;
    case 3: ts = {{F, L(3, 6)}, {F, L(3, 6)}}; break; /* one imported table under two indices */
    case 4: ts = {{F, L(3, 5)}, {E, L(2, 3)}}; break; /* both imported */
    }
    if (cfg >= 3) {
        s.ex.reset(new Module);
        for (size_t i = 0; i < (cfg == 3 ? 1 : ts.size()); i++) {
            Table tb;
            tb.t = ts[i].t;
            tb.l = ts[i].l;
            s.ex->tables.push_back(tb);
            s.ex->exp(mc::fmt("t%zu", i), 1, (uint32_t)i);
        }
    }
    for (auto &t : ts) {
        if (cfg >= 3) {
            m.imports.push_back({"x", cfg == 3 ? "t0" : mc::fmt("t%zu", &t - &ts[0]), 1, 0, t.t, false, t.l});
            continue;
        }
        Table tb;
        tb.t = t.t;
        tb.l = t.l;
        m.tables.push_back(tb);
    }
    uint32_t ft = cfg == 2 ? 1 : 0; /* main funcref table */
    auto rf = [](uint32_t f) {
        Bytes x;
        u8(x, 0xd2);
        uleb(x, f);
        return x;
    };
    auto rn = [](uint8_t t) {
        Bytes x;
        u8(x, 0xd0);
        u8(x, t);
        return x;
    };
    Bytes z;
    /* globals: funcref, externref, i32, i64, f32, f64, v128 */
    m.globals.push_back({F, true, rf(2)});
    m.globals.push_back({E, true, rn(E)});
    const uint8_t gt[] = {T_I32, T_I64, T_F32, T_F64, T_V128};
    for (auto t : gt) {
        Bytes x;
        constant(x, t, {3, 4});
        m.globals.push_back({t, true, x});
    }
    Bytes ig;
    u8(ig, 0xd2);
    uleb(ig, 3);
    m.globals.push_back({F, false, ig}); /* 7 */
    Elem e0; /* passive, function indices */
    e0.flags = 1;
    e0.funcs = {1, 2, 0, 3};
    Elem e1; /* passive, expressions */
    e1.flags = 5;
    e1.t = F;
    e1.exprs = {rn(F), rf(4), rf(1)};
    Elem e2; /* passive externref */
    e2.flags = 5;
    e2.t = E;
    e2.exprs = {rn(E), rn(E)};
    Elem e3; /* active */
    e3.flags = 2;
    e3.table = ft;
    i32c(e3.off, 1);
    e3.funcs = {1};
    Elem e4; /* declarative */
    e4.flags = 3;
    e4.funcs = {0, 1, 2, 3, 4};
    m.elems = {e0, e1, e2, e3, e4};
    std::set<std::string> seen;
    auto add = [&](const std::string &n, uint32_t f, std::vector<uint64_t> a) {
        Op o;
        o.name = n;
        o.f = f;
        for (auto v : a)
            o.a.push_back({v, 0});
        if (seen.insert(opstr(o)).second)
            s.ops.push_back(o);
    };
    bool few = ts.size() > 1;
    for (uint32_t k = 0; k < ts.size(); k++) {
        uint8_t t = ts[k].t;
        uint32_t S = (uint32_t)ts[k].l.min;
        std::string n = mc::fmt("%u", k);
        /* get, with is_null */
        b = params(1);
        u8(b, 0x25);
        uleb(b, k);
        uint32_t f = m.func(FT{{I}, {t}}, b);
        add("get" + n, f, {S - 1});
        add("get" + n, f, {S});
        if (!few)
            add("get" + n, f, {0xffffffff});
        b = params(1);
        u8(b, 0x25);
        uleb(b, k);
        u8(b, 0xd1);
        f = m.func(FT{{I}, {I}}, b);
        add("isnull" + n, f, {1});
        /* set */
        if (t == F) {
            for (uint32_t v : {3u, 0u}) {
                b = params(1);
                cat(b, rf(v));
                u8(b, 0x26);
                uleb(b, k);
                f = m.func(FT{{I}, {}}, b);
                add(mc::fmt("set%u_f%u", k, v), f, {S - 1});
                if (v == 3) {
                    add(mc::fmt("set%u_f%u", k, v), f, {S});
                    add(mc::fmt("set%u_f%u", k, v), f, {0});
                }
            }
            b = params(1);
            cat(b, rn(F));
            u8(b, 0x26);
            uleb(b, k);
            f = m.func(FT{{I}, {}}, b);
            add("setnull" + n, f, {1});
        } else {
            b = params(2);
            u8(b, 0x26);
            uleb(b, k);
            f = m.func(FT{{I, E}, {}}, b);
            add("set" + n, f, {S - 1, 0x51});
            add("set" + n, f, {S, 0x52});
            add("set" + n, f, {0, 0x53});
        }
        /* size, grow */
        b.clear();
        u8(b, 0xfc);
        uleb(b, 16);
        uleb(b, k);
        f = m.func(FT{{}, {I}}, b);
        if (!few)
            add("size" + n, f, {});
        b.clear();
        if (t == F)
            cat(b, rf(2));
        else
            lget(b, 1);
        lget(b, 0);
        u8(b, 0xfc);
        uleb(b, 15);
        uleb(b, k);
        f = m.func(t == F ? FT{{I}, {I}} : FT{{I, E}, {I}}, b);
        for (uint64_t g : {0ull, 1ull, 2ull, 4ull, 0xffffffffull, 0xfffffffdull}) {
            if (few && (g == 0 || g == 4))
                continue;
            if (t == F)
                add("grow" + n, f, {g});
            else
                add("grow" + n, f, {g, 0x60 + (g & 7)});
        }
        /* fill */
        b.clear();
        lget(b, 0);
        if (t == F)
            cat(b, rf(0));
        else
            lget(b, 2);
        lget(b, 1);
        u8(b, 0xfc);
        uleb(b, 17);
        uleb(b, k);
        f = m.func(t == F ? FT{{I, I}, {}} : FT{{I, I, E}, {}}, b);
        std::vector<std::pair<uint32_t, uint32_t>> fl = {{S - 2, 2}, {S - 1, 2}, {S, 0}, {S + 1, 0}, {S, 1}, {0xffffffff, 2}, {1, 0xffffffff}, {0, S}};
        if (few)
            fl = {{S - 2, 2}, {S - 1, 2}, {S + 1, 0}, {S, 1}};
        for (auto &q : fl)
            if (t == F)
                add("fill" + n, f, {q.first, q.second});
            else
                add("fill" + n, f, {q.first, q.second, 0x77});
        /* init */
        for (uint32_t seg = 0; seg < 4; seg++) {
            if (m.elems[seg].t != t)
                continue;
            if (seg == 3 && few)
                continue;
            uint32_t z2 = seg == 0 ? 4 : seg == 1 ? 3 : seg == 2 ? 2 : 1;
            b = params(3);
            u8(b, 0xfc);
            uleb(b, 12);
            uleb(b, seg);
            uleb(b, k);
            f = m.func(FT{{I, I, I}, {}}, b);
            std::string nm = mc::fmt("init%u_seg%u", k, seg);
            add(nm, f, {0, 1, 2});
            add(nm, f, {0, z2, 0});
            if (seg == 0 || !few) {
                add(nm, f, {S - 2, 0, 2});
                add(nm, f, {S - 1, 0, 2});
                add(nm, f, {0, z2 - 1, 2});
            }
            if (!few) {
                add(nm, f, {0, z2 + 1, 0});
                add(nm, f, {S, 0, 0});
                add(nm, f, {S + 1, 0, 0});
                add(nm, f, {0, 0xffffffff, 1});
                add(nm, f, {0xffffffff, 0, 1});
                add(nm, f, {0, 0, 0xffffffff});
            }
        }
        /* calls */
        if (t == F) {
            for (uint32_t ty : {tyA, tyA2, tyB, tyC}) {
                b.clear();
                if (ty == tyC)
                    i32c(b, 99);
                lget(b, 0);
                u8(b, 0x11);
                uleb(b, ty);
                uleb(b, k);
                f = m.func(FT{{I}, {ty == tyB ? (uint8_t)T_I64 : I}}, b);
                std::string nm = mc::fmt("call%u_type%u", k, ty);
                if (few && ty == tyA2)
                    continue;
                add(nm, f, {1});
                if (ty == tyA || !few)
                    add(nm, f, {S - 1});
                if (ty == tyA) {
                    add(nm, f, {S});
                    add(nm, f, {0});
                    if (!few)
                        add(nm, f, {0xffffffff});
                }
            }
        }
    }
    for (uint32_t a = 0; a < ts.size(); a++)
        for (uint32_t c = 0; c < ts.size(); c++) {
            if (ts[a].t != ts[c].t)
                continue;
            uint32_t S = (uint32_t)ts[a].l.min, T2 = (uint32_t)ts[c].l.min;
            b = params(3);
            u8(b, 0xfc);
            uleb(b, 14);
            uleb(b, a);
            uleb(b, c);
            uint32_t f = m.func(FT{{I, I, I}, {}}, b);
            std::string nm = mc::fmt("copy%u<-%u", a, c);
            add(nm, f, {0, 1, 2});
            add(nm, f, {1, 0, 2});
            add(nm, f, {S - 1, 0, 2});
            add(nm, f, {0, T2 - 1, 2});
            if (!few) {
                add(nm, f, {S, 0, 0});
                add(nm, f, {0, T2 + 1, 0});
                add(nm, f, {S + 1, 0, 0});
                add(nm, f, {S, 0, 1});
                add(nm, f, {0xffffffff, 0, 2});
                add(nm, f, {0, 1, 0xffffffff});
            }
        }
    for (uint32_t seg = 0; seg < 3; seg++) {
        b.clear();
        u8(b, 0xfc);
        uleb(b, 13);
        uleb(b, seg);
        uint32_t f = m.func(FT{{}, {}}, b);
        if (!few || seg == 0)
            add(mc::fmt("elem.drop%u", seg), f, {});
    }
    /* references through globals */
    if (!few) {
        b = params(1);
        gget(b, 0);
        u8(b, 0x26);
        uleb(b, ft);
        add("set_from_global", m.func(FT{{I}, {}}, b), {0});
        b = params(1);
        u8(b, 0x25);
        uleb(b, ft);
        gset(b, 0);
        add("global_from_table", m.func(FT{{I}, {}}, b), {1});
        b.clear();
        gget(b, 7);
        gset(b, 0);
        add("global_from_const", m.func(FT{{}, {}}, b), {});
    }
    return s;
}
/* globals of every type and select */
static Sys globsys(unsigned depth)
{
    Sys s;
    s.name = "globals";
    s.depth = depth;
    Module &m = s.m;
    const uint8_t ty[] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};
    const twv v[2] = {{0x8000000180000001ull, 0x1111222233334444ull}, {0x7ff8000000000001ull, 0xffffffffffffffffull}};
    for (auto t : ty) {
        Bytes c;
        constant(c, t, {5, 6});
        m.globals.push_back({t, true, c});
        m.globals.push_back({t, true, c});
    }
    auto trunc = [](uint8_t t, twv x) -> twv {
        if (t == T_I32 || t == T_F32)
            return {(uint32_t)x.lo, 0};
        if (t == T_V128)
            return x;
        if (t == T_FUNCREF)
            return {x.lo & 1, 0};
        return {x.lo, 0};
    };
    Bytes b;
    for (uint32_t k = 0; k < 7; k++) {
        for (uint32_t q = 0; q < 2; q++) {
            b = params(1);
            gset(b, 2 * k + q);
            uint32_t f = m.func(FT{{ty[k]}, {}}, b);
            for (int w = 0; w < 2; w++)
                s.ops.push_back({mc::fmt("set_g%u", 2 * k + q), f, {trunc(ty[k], v[w])}});
            b.clear();
            gget(b, 2 * k + q);
            f = m.func(FT{{}, {ty[k]}}, b);
            s.ops.push_back({mc::fmt("get_g%u", 2 * k + q), f, {}});
        }
        /* move and select */
        b.clear();
        gget(b, 2 * k);
        gset(b, 2 * k + 1);
        s.ops.push_back({mc::fmt("move_g%u", 2 * k), m.func(FT{{}, {}}, b), {}});
        for (int typed = 0; typed < 2; typed++) {
            if (!typed && k >= 5)
                continue;
            b.clear();
            gget(b, 2 * k);
            gget(b, 2 * k + 1);
            lget(b, 0);
            if (typed) {
                u8(b, 0x1c);
                uleb(b, 1);
                u8(b, ty[k]);
            } else
                u8(b, 0x1b);
            uint32_t f = m.func(FT{{T_I32}, {ty[k]}}, b);
            for (uint64_t c : {0ull, 1ull, 0x80000000ull, 0x100ull})
                s.ops.push_back({mc::fmt("select%s_g%u", typed ? "t" : "", k), f, {{c, 0}}});
        }
        if (k >= 5) {
            b.clear();
            gget(b, 2 * k);
            u8(b, 0xd1);
            s.ops.push_back({mc::fmt("isnull_g%u", 2 * k), m.func(FT{{}, {T_I32}}, b), {}});
        }
    }
    return s;
}

/* ---- the runner: loaded module kept per worker, fresh instance per sequence ---- */
struct Runner {
    const Sys *s = nullptr;
    std::unique_ptr<Pair> p;
    struct Snap {
        std::vector<RMem> mems;
        std::vector<RTable> tables;
        std::vector<RGlobal> globals;
        std::vector<bool> dd, ed;
    } snap;
    void select(const Sys &sys, unsigned opts)
    {
        if (s == &sys && p->opts == opts)
            return;
        p.reset(new Pair(Env));
        snap = Snap();
        s = &sys;
        p->m = sys.m;
        p->hosts = sys.hosts;
        p->ex = sys.ex;
        p->opts = opts;
        Bytes bin = sys.m.encode();
        Validator v(p->m);
        if (!v.module()) {
            fprintf(stderr, "harness error: %s invalid: %s\n", sys.name.c_str(), v.why.c_str());
            abort();
        }
        if (!p->load(bin)) {
            X->fail("%s: refused: %s", sys.name.c_str(), p->msg.c_str());
            X->sh->stop = 1;
            _exit(0);
        }
        if (p->ref_instantiate() != 0)
            abort();
        for (auto *q : p->ri->mems) {
            q->grow_limit = q->shift == 16 ? 1000 : 1 << 20;
            snap.mems.push_back(*q);
        }
        for (auto *q : p->ri->tables) {
            q->grow_limit = 1 << 20;
            snap.tables.push_back(*q);
        }
        for (auto *q : p->ri->globals)
            snap.globals.push_back(*q);
        snap.dd = p->ri->data_dropped;
        snap.ed = p->ri->elem_dropped;
    }
    bool fresh(std::string &d)
    {
        tw_inst_destroy(p->inst);
        p->inst = nullptr;
        tw_imports_free(p->im);
        p->im = nullptr;
        for (size_t i = 0; i < snap.mems.size(); i++)
            *p->ri->mems[i] = snap.mems[i];
        for (size_t i = 0; i < snap.tables.size(); i++)
            *p->ri->tables[i] = snap.tables[i];
        for (size_t i = 0; i < snap.globals.size(); i++)
            *p->ri->globals[i] = snap.globals[i];
        p->ri->data_dropped = snap.dd;
        p->ri->elem_dropped = snap.ed;
        int err, trap;
        if (!p->tw_instantiate_(err, trap)) {
            d = mc::fmt("instantiation failed: %d %s", err, tw_trap_name(trap));
            return false;
        }
        return true;
    }
    bool seq(const std::vector<size_t> &q)
    {
        std::string d;
        uint64_t h = mc::fnv(s->name);
        size_t at = 0;
        if (fresh(d))
            for (at = 0; at < q.size(); at++) {
                const Op &o = s->ops[q[at]];
                d = p->call(o.f, o.a, &h);
                X->add(c_ops);
                if (p->ref->trap)
                    X->add(c_traps);
                if (!d.empty())
                    break;
            }
        if (d.empty()) {
            d = p->diff_state();
            at = q.size() - 1;
        }
        X->add(c_seq);
        X->outcome(h);
        if (!d.empty()) {
            std::string t;
            for (size_t i = 0; i < q.size(); i++)
                t += (i ? "; " : "") + opstr(s->ops[q[i]]);
            X->fail("%s: %s -> at step %zu: %s", s->name.c_str(), t.c_str(), at + 1, d.c_str());
            return false;
        }
        return true;
    }
};
static Runner Rn;

/* single accesses of every width */
static void accesses(const MemCfg &c, unsigned op)
{
    MemOp mo;
    if (!memop(op, mo))
        abort();
    for (uint32_t mem = 0; mem < c.mems.size(); mem++) {
        uint64_t S = c.mems[mem].min << c.mems[mem].shift;
        std::vector<uint32_t> offs = {0, 1, 3, 8, (uint32_t)S - 1, (uint32_t)S, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff};
        for (auto off : offs)
            for (unsigned al = 0; al < 4; al++) {
                if ((1 << al) > mo.bytes)
                    break;
                if (al && off != 0 && off != 3)
                    continue;
                Module m;
                m.mems = c.mems;
                Bytes b;
                lget(b, 0);
                if (mo.store)
                    lget(b, 1);
                u8(b, op);
                memarg(b, al, mem, off);
                if (mo.store)
                    m.func(FT{{T_I32, mo.t}, {}}, b);
                else
                    m.func(FT{{T_I32}, {mo.t}}, b);
                /* a writer to make content */
                b.clear();
                lget(b, 0);
                lget(b, 1);
                u8(b, 0x37);
                memarg(b, 0, mem, 0);
                m.func(FT{{T_I32, T_I64}, {}}, b);
                std::set<uint32_t> addrs;
                for (int k = -9; k <= 9; k++) {
                    addrs.insert((uint32_t)k);
                    addrs.insert((uint32_t)(S + (uint64_t)(int64_t)k));
                    addrs.insert((uint32_t)(S - off + (uint64_t)(int64_t)k));
                    addrs.insert((uint32_t)(0x80000000u + (uint32_t)k));
                }
                Pair p(Env);
                p.m = m;
                Bytes bin = m.encode();
                if (!p.load(bin)) {
                    X->fail("%s: op %02x refused: %s", c.name.c_str(), op, p.msg.c_str());
                    return;
                }
                for (int pre = 0; pre < 3; pre++) {
                    p.ref_instantiate();
                    int err, trap;
                    if (!p.tw_instantiate_(err, trap)) {
                        X->fail("%s: instantiation failed %d", c.name.c_str(), err);
                        return;
                    }
                    std::string d;
                    /* content at the end (allocates everything), at the start, or nothing */
                    if (pre == 1 && S >= 16) {
                        d = p.call(1, {{S - 16, 0}, {0x8192a3b4c5d6e7f8ull, 0}});
                        if (d.empty())
                            d = p.call(1, {{S - 8, 0}, {0xf1e2d3c4b5a69788ull, 0}});
                    }
                    if (pre && S >= 16 && d.empty())
                        d = p.call(1, {{0, 0}, {0x9182736455463728ull, 0}});
                    std::vector<uint32_t> al2(addrs.begin(), addrs.end());
                    if (pre == 2)
                        std::reverse(al2.begin(), al2.end());
                    uint64_t h = op;
                    uint32_t n = 0;
                    for (auto a : al2) {
                        if (!d.empty())
                            break;
                        std::vector<twv> ar = {{a, 0}};
                        if (mo.store)
                            ar.push_back({mo.t == T_I32 || mo.t == T_F32 ? 0x80c1d2e3u + n : 0x80c1d2e3f4a5b697ull + n, 0});
                        n++;
                        d = p.call(0, ar, &h);
                        X->add(c_single);
                        if (p.ref->trap)
                            X->add(c_traps);
                        if (d.empty() && (mo.store || n == al2.size()))
                            d = p.diff_state();
                        if (!d.empty())
                            d = mc::fmt("address %x: ", a) + d;
                    }
                    X->outcome(h);
                    if (!d.empty()) {
                        X->fail("%s: memory %u opcode 0x%02x offset %x align %u (prefix %d): %s", c.name.c_str(), mem, op, off, al, pre, d.c_str());
                        return;
                    }
                    tw_inst_destroy(p.inst);
                    p.inst = nullptr;
                    tw_imports_free(p.im);
                    p.im = nullptr;
                }
            }
    }
}

/* the top of the address space, with hand-written expectations */
static void large(int which)
{
    struct St {
        const char *n;
        uint32_t f;
        std::vector<uint64_t> a;
        int trap;
        uint64_t r;
    };
    Module m;
    const uint8_t I = T_I32;
    m.mems = {which == 0 ? L(1, -1) : which == 1 ? L(65536, 65536) : which == 2 ? L(65536, 65536, 16, true) : L(65535, 65536, 16, true)};
    Bytes b = params(1);
    u8(b, 0x40);
    u8(b, 0);
    m.func(FT{{I}, {I}}, b);
    b.clear();
    u8(b, 0x3f);
    u8(b, 0);
    m.func(FT{{}, {I}}, b);
    b = params(1);
    u8(b, 0x2d);
    memarg(b, 0, 0, 0);
    m.func(FT{{I}, {I}}, b);
    b = params(2);
    u8(b, 0x3a);
    memarg(b, 0, 0, 0);
    m.func(FT{{I, I}, {}}, b);
    b = params(3);
    u8(b, 0xfc);
    uleb(b, 11);
    u8(b, 0);
    m.func(FT{{I, I, I}, {}}, b);
    b = params(3);
    u8(b, 0xfc);
    uleb(b, 10);
    u8(b, 0);
    u8(b, 0);
    m.func(FT{{I, I, I}, {}}, b);
    b = params(1);
    u8(b, 0x29);
    memarg(b, 0, 0, 0);
    m.func(FT{{I}, {T_I64}}, b);
    std::vector<St> st;
    const int O = TWT_OOB_MEM;
    if (which == 0)
        st = {{"grow", 0, {0x10000}, 0, 0xffffffff}, {"grow", 0, {65535}, 0, 1}};
    if (which == 3)
        st = {{"load8", 2, {0xfffeffff}, 0, 0}, {"load8", 2, {0xffff0000}, O, 0}, {"store8", 3, {0xfffeffff, 0x5a}, 0, 0}, {"grow", 0, {2}, 0, 0xffffffff}, {"grow", 0, {1}, 0, 65535}, {"load8", 2, {0xfffeffff}, 0, 0x5a}};
    std::vector<St> rest = {
        {"size", 1, {}, 0, 65536},
        {"grow", 0, {1}, 0, 0xffffffff},
        {"grow", 0, {0}, 0, 65536},
        {"load8", 2, {0}, 0, 0},
        {"load8", 2, {0x80000000}, 0, 0},
        {"load8", 2, {0xffffffff}, 0, 0},
        {"store8", 3, {0xffffffff, 0xab}, 0, 0},
        {"load8", 2, {0xffffffff}, 0, 0xab},
        {"load64", 6, {0xfffffff8}, 0, 0xab00000000000000ull},
        {"load64", 6, {0xfffffff9}, O, 0},
        {"fill", 4, {0xfffffff0, 0x11, 16}, 0, 0},
        {"fill", 4, {0xfffffff0, 0x22, 17}, O, 0},
        {"fill", 4, {0xffffffff, 0x33, 2}, O, 0},
        {"fill", 4, {0xffffffff, 0x33, 0}, 0, 0},
        {"load8", 2, {0xfffffff0}, 0, 0x11},
        {"copy", 5, {0, 0xfffffff0, 16}, 0, 0},
        {"load8", 2, {15}, 0, 0x11},
        {"load8", 2, {16}, 0, 0},
        {"copy", 5, {0xfffffff8, 0, 9}, O, 0},
        {"copy", 5, {0, 0xfffffff8, 9}, O, 0},
        {"size", 1, {}, 0, 65536},
    };
    st.insert(st.end(), rest.begin(), rest.end());
    tw_env *env = tw_env_new();
    {
        Pair p(env);
        p.m = m;
        if (!p.load(m.encode())) {
            X->fail("large %d: refused: %s", which, p.msg.c_str());
            return;
        }
        int err, trap;
        if (!p.tw_instantiate_(err, trap)) {
            if (err == ENOMEM)
                return;
            X->fail("large %d: instantiation failed: %d", which, err);
            return;
        }
        for (auto &s : st) {
            std::vector<twv> a;
            for (auto v : s.a)
                a.push_back({v, 0});
            twv r[2] = {{0, 0}, {0, 0}};
            struct tw_exec x;
            memset(&x, 0, sizeof(x));
            trap = 0;
            int rc = tw_call(p.inst, s.f, a.data(), r, &x, &trap);
            X->add(c_single);
            bool bad = s.trap ? rc != TW_TRAP || trap != s.trap : rc != 0 || ((s.f < 3 || s.f == 6) && r[0].lo != s.r);
            if (bad) {
                X->fail("large %d: %s(%llx..) gave %d %s %llx, expected %s %llx", which, s.n, (unsigned long long)(s.a.empty() ? 0 : s.a[0]), rc, tw_trap_name(trap),
                        (unsigned long long)r[0].lo, tw_trap_name(s.trap), (unsigned long long)s.r);
                return;
            }
        }
    }
    tw_env_free(env);
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "opseq");
    X = &x;
    c_seq = x.counter("sequences");
    c_ops = x.counter("operations");
    c_traps = x.counter("traps");
    c_single = x.counter("single_accesses");
    std::string set = x.opt.get("set", "mem");
    std::string big = x.opt.get("large");
    int dd = atoi(x.opt.get("depth", x.opt.thorough() ? "1" : "0").c_str());
    x.worker_init.push_back([](int) {
        Env = tw_env_new();
        tw_env_setlimit(Env, HEAPLIM);
    });
    std::vector<MemCfg> cfgs = {
        {"mem 1..5", {L(1, 5)}},           {"mem 0..", {L(0, -1)}},         {"mem 3..6", {L(3, 6)}},
        {"bytes 12..25", {L(12, 25, 0)}},  {"bytes 0..", {L(0, -1, 0)}},    {"shared 1..3", {L(1, 3, 16, true)}},
        {"two", {L(1, 2), L(6, 12, 0)}, 0},   {"imported twice", {L(1, 3), L(1, 3)}, 1},
        {"imported+own", {L(1, 2), L(2, 3)}, 2},
    };
    std::vector<std::function<void()>> cases;
    if (set == "mem") {
        for (auto &c : cfgs)
            systems.push_back(memsys(c, (unsigned)((c.mems.size() > 1 ? 3 : 3) + dd)));
        static std::vector<MemCfg> acfg = {{"mem1", {L(1, 2)}}, {"mem0", {L(0, 2)}}, {"bytes20", {L(20, 30, 0)}}, {"three", {L(1, 2), L(24, -1, 0), L(2, 2)}}, {"shared", {L(1, 2, 16, true)}}};
        for (auto &c : acfg)
            for (unsigned op = 0x28; op <= 0x3e; op++)
                cases.push_back([&c, op]() { accesses(c, op); });
        /* one case, so that only one such memory exists at a time */
        if (big == "1")
            cases.push_back([]() {
                for (int w = 0; w < 4; w++)
                    large(w);
            });
        else if (big == "2")
            cases.push_back([]() { large(2); });
    } else {
        for (int c = 0; c < 5; c++)
            systems.push_back(tabsys(c, (unsigned)(3 + dd)));
        systems.push_back(globsys((unsigned)(2 + dd)));
    }
    size_t nbase = cases.size();
    struct SC {
        size_t s, first;
    };
    std::vector<SC> sc;
    for (size_t s = 0; s < systems.size(); s++) {
        x.notes["operations of " + systems[s].name] = mc::fmt("%zu", systems[s].ops.size());
        for (size_t f = 0; f < systems[s].ops.size(); f++)
            sc.push_back({s, f});
    }
    x.run(nbase + sc.size(), [&](uint64_t i) {
        if (i < nbase) {
            cases[i]();
            return;
        }
        const Sys &s = systems[sc[i - nbase].s];
        Rn.select(s, (i & 1) ? 7 : 0);
        std::vector<size_t> q = {sc[i - nbase].first};
        std::function<bool()> rec = [&]() -> bool {
            if (x.sh->stop)
                return false;
            x.beat();
            if (!Rn.seq(q))
                return false;
            if (q.size() >= s.depth)
                return true;
            for (size_t k = 0; k < s.ops.size(); k++) {
                q.push_back(k);
                bool ok = rec();
                q.pop_back();
                if (!ok)
                    return false;
            }
            return true;
        };
        rec();
    });
    for (size_t s = 0; s < systems.size(); s++)
        x.sample(systems[s].name + ": " + opstr(systems[s].ops[0]) + "; " + opstr(systems[s].ops[systems[s].ops.size() / 2]) + "; " + opstr(systems[s].ops.back()));
    return x.finish();
}
