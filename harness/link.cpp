/*
 * C10: instantiation links imports and initialises state as specified.
 *
 * match: every provided external (exported directly, re-exported through a
 *   weaker import, grown first, or a host function) against every required
 *   import type;
 * names: every pair of export and import names of a set of near misses;
 * init: every combination of active segments, global initialisers and start
 *   function, any of which may fail, on private or imported objects;
 * constexpr: every constant expression up to a length.
 */
#include "world.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_pairs, c_linked, c_init, c_fail, c_calls;
static tw_env *Env;
static bool eh = true, threads = true, customps = true, multimem = true;

struct Item {
    int kind;
    FT ft;
    uint8_t vt = 0;
    bool mut = false;
    Lim l;
};
static std::string istr(const Item &i)
{
    std::string s;
    auto tl = [](const std::vector<uint8_t> &v) {
        std::string r;
        for (auto t : v)
            r += mc::fmt("%02x ", t);
        return r;
    };
    switch (i.kind) {
    case 0: return "func (" + tl(i.ft.p) + "-> " + tl(i.ft.r) + ")";
    case 1: return mc::fmt("table %02x min %d max %d", i.vt, (int)i.l.min, i.l.hasmax ? (int)i.l.max : -1);
    case 2: return mc::fmt("memory min %d max %d%s shift %u", (int)i.l.min, i.l.hasmax ? (int)i.l.max : -1, i.l.shared ? " shared" : "", i.l.custom ? i.l.shift : 16);
    case 3: return mc::fmt("global %02x%s", i.vt, i.mut ? " mut" : "");
    default: return "tag (" + tl(i.ft.p) + ")";
    }
}
static std::vector<Item> items;
static void mkitems(bool th)
{
    static const uint8_t T[] = {T_I32, T_I64, T_F32, T_FUNCREF, T_EXTERNREF, T_F64, T_V128};
    size_t nt = th ? 7 : 5;
    std::vector<std::vector<uint8_t>> l{{}};
    for (size_t a = 0; a < nt; a++) {
        l.push_back({T[a]});
        for (size_t b = 0; b < (th ? nt : 2); b++)
            l.push_back({T[a], T[b]});
    }
    for (auto &p : l)
        for (auto &r : l)
            if (p.size() + r.size() <= 3 || th) {
                Item i;
                i.kind = 0, i.ft = {p, r};
                items.push_back(i);
            }
    for (uint8_t t : {T_FUNCREF, T_EXTERNREF})
        for (int mn = 0; mn <= 3; mn++)
            for (int mx = -1; mx <= 4; mx++)
                if (mx < 0 || mx >= mn) {
                    Item i;
                    i.kind = 1, i.vt = t;
                    i.l = {(uint64_t)mn, mx >= 0, (uint64_t)(mx < 0 ? 0 : mx)};
                    items.push_back(i);
                }
    for (int sh = 0; sh < 2; sh++)
        for (int form = 0; form < 3; form++)
            for (int mn = 0; mn <= (form == 1 ? 3 : 2); mn++)
                for (int mx = -1; mx <= 4; mx++)
                    if (mx < 0 ? !sh : mx >= mn) {
                        Item i;
                        i.kind = 2;
                        i.l = {(uint64_t)mn, mx >= 0, (uint64_t)(mx < 0 ? 0 : mx)};
                        i.l.shared = sh;
                        if (form) {
                            if (!customps)
                                continue;
                            i.l.custom = true;
                            i.l.shift = form == 1 ? 0 : 16;
                            if (form == 2 && mn != 1)
                                continue;
                        }
                        if (sh && !threads)
                            continue;
                        items.push_back(i);
                    }
    for (auto t : T)
        for (int m = 0; m < 2; m++) {
            Item i;
            i.kind = 3, i.vt = t, i.mut = m;
            items.push_back(i);
        }
    if (eh)
        for (auto &p : l) {
            unsigned c = 0;
            for (auto t : p)
                c += t == T_V128 ? 4 : t == T_I32 || t == T_F32 ? 1 : 2;
            if (c > 4)
                continue;
            Item i;
            i.kind = 4, i.ft = {p, {}};
            items.push_back(i);
        }
}
static Bytes zero(uint8_t t)
{
    Bytes b;
    constant(b, t, {0, 0});
    return b;
}
/* a module that defines and exports the item as "e" (and a grow function) */
static Module provide(const Item &i)
{
    Module m;
    Bytes g;
    lget(g, 0);
    switch (i.kind) {
    case 0: {
        Bytes b;
        u8(b, 0x00);
        m.func(i.ft, b);
        break;
    }
    case 1:
        m.tables.push_back({i.vt, i.l});
        g.clear();
        u8(g, 0xd0), u8(g, i.vt);
        lget(g, 0);
        u8(g, 0xfc), u8(g, 15), u8(g, 0);
        break;
    case 2:
        m.mems.push_back(i.l);
        u8(g, 0x40), u8(g, 0);
        break;
    case 3: m.globals.push_back({i.vt, i.mut, zero(i.vt)}); break;
    case 4: m.tags = {m.type(i.ft)}; break;
    }
    m.exp("e", i.kind, 0);
    m.func({{T_I32}, {T_I32}}, g);
    return m;
}
static Import want(Module &m, const Item &i, const char *mod)
{
    Import im;
    im.mod = mod, im.name = "e", im.kind = i.kind;
    if (i.kind == 0 || i.kind == 4)
        im.typeidx = m.type(i.ft);
    im.vt = i.vt;
    im.mut = i.mut;
    im.l = i.l;
    return im;
}

/* how the item is provided: 0 as is, 1..2 grown by 1..2, 3 re-exported through a weaker import, 4 through an exact one, 5 as a host function */
static void match(size_t pi, int how)
{
    const Item &p = items[pi];
    if ((how == 1 || how == 2) && p.kind != 1 && p.kind != 2)
        return;
    if (how == 5 && p.kind != 0)
        return;
    for (size_t k = 0; k < items.size(); k++) {
        const Item &q = items[k];
        /* provide a different kind only for a representative */
        World w(Env);
        std::string d;
        const char *mod = "x";
        if (how == 5)
            w.host("x", "e", p.ft, nullptr);
        else {
            d = w.add("x", provide(p));
            if (d.empty() && (how == 1 || how == 2))
                d = w.call(0, (uint32_t)w.objs[0]->m.funcs.size() - 1, {{(uint64_t)how, 0}});
            if (d.empty() && (how == 3 || how == 4)) {
                Module m;
                Item weak = p;
                if (how == 3 && (p.kind == 1 || p.kind == 2)) {
                    weak.l.min = 0;
                    if (!weak.l.shared)
                        weak.l.hasmax = false;
                    else
                        weak.l.max += 3;
                }
                m.imports.push_back(want(m, weak, "x"));
                m.exp("e", p.kind, 0);
                d = w.add("y", m);
                mod = "y";
            }
        }
        Module m;
        m.imports.push_back(want(m, q, mod));
        World::R r;
        bool linked = false;
        if (d.empty())
            d = w.add("z", m, &r, &linked);
        X->add(c_pairs);
        if (linked)
            X->add(c_linked);
        if (!d.empty()) {
            X->fail("provided %s (form %d), required %s: %s", istr(p).c_str(), how, istr(q).c_str(), d.c_str());
            return;
        }
        X->outcome(k * 7 + pi * 100003 + linked + (size_t)how * 1000000007ull);
    }
}

/* names: export name x import name, module name x module name */
static void names(size_t a)
{
    static const std::string N[] = {"", "a", "b", "ab", "aa", "a.", "A", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "abc", "\xc3\xa9", "\xc3\xa8"};
    static const char *M[] = {"", "m", "mm", "M", "mn"};
    const size_t NN = 13, NM = 5;
    FT v{{}, {}};
    for (size_t m0 = 0; m0 < NM; m0++)
        for (size_t m1 = 0; m1 < NM; m1++)
            for (size_t b = 0; b < NN; b++) {
                Module p, c;
                p.func(v, {});
                p.exp(N[a], 0, 0);
                p.globals.push_back({T_I32, false, zero(T_I32)});
                Import i;
                i.mod = M[m1], i.name = N[b], i.kind = 0, i.typeidx = c.type(v);
                c.imports.push_back(i);
                /* World leaves out providers with an empty name: link by hand */
                Bytes pb = p.encode(), cb = c.encode();
                int err, trap;
                tw_mod *pm = tw_load(Env, pb.data(), pb.size(), 0, &err, nullptr, 0), *cm = tw_load(Env, cb.data(), cb.size(), 0, &err, nullptr, 0);
                if (!pm || !cm) {
                    X->fail("a module with export name %zu / import name %zu does not load: %d", a, b, err);
                    return;
                }
                tw_inst *pin = tw_instantiate(pm, nullptr, &err, &trap);
                tw_imports *im = tw_imports_new(Env);
                tw_imports_add_exports(im, pin, M[m0]);
                tw_inst *cin = tw_instantiate(cm, im, &err, &trap);
                bool ok = cin != nullptr, exp = a == b && m0 == m1;
                X->add(c_pairs);
                if (ok != exp)
                    X->fail("export \"%s\".\"%s\" (%zu bytes), import \"%s\".\"%s\" (%zu bytes): %s", M[m0], N[a].c_str(), N[a].size(), M[m1], N[b].c_str(), N[b].size(),
                            ok ? "linked" : "not linked");
                X->outcome(a * 1000 + b * 10 + ok);
                tw_inst_destroy(cin);
                tw_imports_free(im);
                tw_inst_destroy(pin);
                tw_unload(cm);
                tw_unload(pm);
                if (ok != exp)
                    return;
            }
    /* several exports and imports in every order: each import gets its own */
    for (size_t b = 0; b < NN; b++)
        for (size_t c = 0; c < NN; c++) {
            if (a == b || b == c || a == c)
                continue;
            World w(Env);
            Module p;
            for (uint32_t k = 0; k < 3; k++) {
                Bytes body;
                i32c(body, 10 + k);
                p.func({{}, {T_I32}}, body);
            }
            p.exp(N[a], 0, 0), p.exp(N[b], 0, 1), p.exp(N[c], 0, 2);
            Module q;
            for (size_t k : {c, a, b, c}) {
                Import i;
                i.mod = "p", i.name = N[k], i.kind = 0, i.typeidx = q.type({{}, {T_I32}});
                q.imports.push_back(i);
            }
            Bytes body;
            for (unsigned k = 0; k < 4; k++)
                u8(body, 0x10), u8(body, k);
            q.func({{}, {T_I32, T_I32, T_I32, T_I32}}, body);
            std::string d = w.add("p", p);
            if (d.empty())
                d = w.add("q", q);
            if (d.empty())
                d = w.call(1, 4, {});
            X->add(c_calls);
            if (!d.empty()) {
                X->fail("exports %zu %zu %zu imported together: %s", a, b, c, d.c_str());
                return;
            }
        }
}

/* ------------------------------------------------------------------ */
/* segment alphabet: offset form x length */
struct Seg {
    int off; /* value, or -1: imported global (value 2), -2: huge */
    unsigned len;
    int flags;
};
static const Seg DS[] = {{0, 2, 0}, {1, 1, 0}, {-1, 2, 0}, {6, 2, 0}, {7, 2, 0}, {8, 0, 0}, {9, 0, 0}, {-2, 1, 0}, {0, 3, 1}, {3, 1, 2}};
static const int NDS = 10;
static const Seg ES[] = {{0, 2, 0}, {1, 1, 4}, {-1, 1, 2}, {2, 1, 0}, {2, 2, 0}, {3, 0, 0}, {4, 0, 0}, {-2, 1, 6}, {0, 2, 1}, {0, 1, 3}, {0, 2, 5}};
static const int NES = 11;
enum { S_NONE, S_STORE, S_TRAP, S_HOST, S_CALLTABLE, S_GROW, S_INIT, S_THROW, S_HOSTTRAP, NSTART };

static Bytes offexpr(int o)
{
    Bytes b;
    if (o == -1)
        gget(b, 0);
    else if (o == -2)
        i32c(b, 0xfffffff0u);
    else
        i32c(b, (uint32_t)o);
    return b;
}
static void initcase(int imported, int e1, int e2, int d1, int d2, int st)
{
    if (!eh && st == S_THROW)
        return;
    /* instance_create() destroys an instance that fails to initialise: no element may refer to it */
    bool oneshot = imported & 2;
    imported &= 1;
    if (oneshot && (e1 >= 0 || st == S_GROW))
        return;
    World w(Env);
    w.oneshot = oneshot;
    w.host("h", "log", {{T_I32}, {}}, nullptr);
    w.host("h", "bad", {{}, {}}, [](const std::vector<twv> &, std::vector<twv> &) { return 1; });
    Module p;
    FT v{{}, {}}, i{{}, {T_I32}};
    Lim ml{8, true, 12};
    if (customps) {
        ml.custom = true;
        ml.shift = 0;
    }
    Bytes c2;
    i32c(c2, 2);
    p.globals.push_back({T_I32, false, c2});
    p.globals.push_back({T_I32, true, c2});
    p.mems.push_back(ml);
    p.tables.push_back({T_FUNCREF, {3, true, 6}});
    p.exp("c", 3, 0), p.exp("g", 3, 1), p.exp("m", 2, 0), p.exp("t", 1, 0);
    Bytes pb;
    lget(pb, 0);
    u8(pb, 0x11), u8(pb, p.type(i)), u8(pb, 0);
    p.func({{T_I32}, {T_I32}}, pb);
    std::string d = w.add("p", p);
    Module m;
    auto imp = [&](const char *n, int kind, uint8_t vt, bool mut, Lim l) {
        Import im;
        im.mod = "p", im.name = n, im.kind = kind, im.vt = vt, im.mut = mut, im.l = l;
        m.imports.push_back(im);
    };
    imp("c", 3, T_I32, false, {});
    imp("g", 3, T_I32, true, {});
    Import hi;
    hi.mod = "h", hi.name = "log", hi.kind = 0, hi.typeidx = m.type({{T_I32}, {}});
    m.imports.push_back(hi);
    hi.name = "bad", hi.typeidx = m.type(v);
    m.imports.push_back(hi);
    if (imported) {
        Lim l = ml;
        l.min = 1;
        imp("m", 2, 0, false, l);
        imp("t", 1, T_FUNCREF, false, {1, true, 6});
    } else {
        m.mems.push_back(ml);
        m.tables.push_back({T_FUNCREF, {3, true, 6}});
    }
    Bytes gi;
    gget(gi, 0);
    m.globals.push_back({T_I32, true, gi}); /* 2 */
    Bytes rf;
    u8(rf, 0xd2), u8(rf, 3);
    m.globals.push_back({T_FUNCREF, false, rf}); /* 3 */
    if (eh)
        m.tags = {m.type(v)};
    /* functions 2 start, 3 and 4 table entries, then probes */
    Bytes b;
    switch (st) {
    case S_STORE:
        /* copies memory[1] to memory[5] and bumps both globals */
        i32c(b, 5), i32c(b, 1), u8(b, 0x2d), u8(b, 0), u8(b, 0), u8(b, 0x3a), u8(b, 0), u8(b, 0);
        gget(b, 1), i32c(b, 1), u8(b, 0x6a), gset(b, 1);
        gget(b, 2), i32c(b, 5), u8(b, 0x6a), gset(b, 2);
        break;
    case S_TRAP:
        i32c(b, 4), i32c(b, 99), u8(b, 0x3a), u8(b, 0), u8(b, 0);
        u8(b, 0x00);
        break;
    case S_HOST:
        i32c(b, 0), u8(b, 0x2d), u8(b, 0), u8(b, 0);
        u8(b, 0x10), u8(b, 0);
        gget(b, 2), u8(b, 0x10), u8(b, 0);
        break;
    case S_CALLTABLE:
        i32c(b, 1), u8(b, 0x11), uleb(b, m.type(i)), u8(b, 0), u8(b, 0x10), u8(b, 0);
        break;
    case S_GROW:
        i32c(b, 2), u8(b, 0x40), u8(b, 0), u8(b, 0x10), u8(b, 0);
        u8(b, 0xd2), u8(b, 3), i32c(b, 1), u8(b, 0xfc), u8(b, 15), u8(b, 0), u8(b, 0x10), u8(b, 0);
        break;
    case S_INIT:
        if (d1 >= 0)
            i32c(b, 3), i32c(b, 0), i32c(b, 1), u8(b, 0xfc), u8(b, 8), u8(b, 0), u8(b, 0);
        if (e1 >= 0)
            i32c(b, 0), i32c(b, 0), i32c(b, 1), u8(b, 0xfc), u8(b, 12), u8(b, 0), u8(b, 0);
        break;
    case S_THROW: u8(b, 0x08), u8(b, 0); break;
    case S_HOSTTRAP: u8(b, 0x10), u8(b, 1); break;
    }
    m.func(v, b);
    if (st != S_NONE)
        m.start = 2;
    for (unsigned k = 0; k < 2; k++) {
        b.clear();
        gget(b, 2);
        i32c(b, 100 * (k + 1));
        u8(b, 0x6a);
        m.func(i, b);
    }
    for (int e : {e1, e2})
        if (e >= 0) {
            Elem x;
            x.flags = ES[e].flags;
            x.off = offexpr(ES[e].off);
            for (unsigned k = 0; k < ES[e].len; k++) {
                uint32_t f = 3 + (k + (e == e2)) % 2;
                if (x.flags & 4) {
                    Bytes y;
                    if (k == 1)
                        gget(y, 3);
                    else
                        u8(y, 0xd2), u8(y, f);
                    if (k == 1) {
                        y.clear();
                        u8(y, 0xd0), u8(y, 0x70);
                    }
                    x.exprs.push_back(y);
                } else
                    x.funcs.push_back(f);
            }
            m.elems.push_back(x);
        }
    for (int x : {d1, d2})
        if (x >= 0) {
            Data y;
            y.flags = DS[x].flags;
            y.off = offexpr(DS[x].off);
            for (unsigned k = 0; k < DS[x].len; k++)
                y.bytes.push_back((uint8_t)(0x11 * (k + 1) + x));
            m.datas.push_back(y);
        }
    m.datacount = true;
    /* probes: is each segment still there? */
    size_t nd = m.datas.size(), ne = m.elems.size();
    uint32_t probe0 = m.nimp(0) + (uint32_t)m.funcs.size();
    for (size_t k = 0; k < nd; k++) {
        Bytes y;
        i32c(y, 0), i32c(y, 0), i32c(y, 1), u8(y, 0xfc), u8(y, 8), u8(y, (unsigned)k), u8(y, 0);
        m.func(v, y);
    }
    for (size_t k = 0; k < ne; k++) {
        Bytes y;
        i32c(y, 0), i32c(y, 0), i32c(y, 1), u8(y, 0xfc), u8(y, 12), u8(y, (unsigned)k), u8(y, 0);
        m.func(v, y);
    }
    World::R r;
    if (d.empty())
        d = w.add("m", m, &r);
    X->add(c_init);
    uint64_t h = 0;
    if (d.empty()) {
        if (r.flow)
            X->add(c_fail);
        d = w.diff_state();
    }
    auto call = [&](size_t o, uint32_t f, std::vector<twv> a) {
        if (!d.empty())
            return;
        d = w.call(o, f, a, &h);
        X->add(c_calls);
        if (d.empty())
            d = w.diff_state();
        else
            d = mc::fmt("calling function %u of instance %zu: ", f, o) + d;
    };
    /* what an earlier step stored stays reachable even if a later step failed */
    for (uint32_t k = 0; k < 5; k++)
        call(0, 0, {{k, 0}});
    if (!r.flow)
        for (uint32_t k = 0; k < nd + ne; k++)
            call(1, probe0 + k, {});
    X->outcome(h + (unsigned)r.flow);
    if (!d.empty())
        X->fail("%s objects, elements %d %d, data %d %d, start %d: %s\nmodule %s", imported ? "imported" : "private", e1, e2, d1, d2, st, d.c_str(), hex(m.encode()).c_str());
}

/* constant expressions: sequences over an alphabet, as global initialisers and offsets */
static void constexprs(uint8_t t, std::vector<unsigned> ops)
{
    /* alphabet: 0..5 constants, 6,7 imported globals, 8 add 9 sub 10 mul */
    Bytes e;
    int h = 0;
    for (auto o : ops) {
        static const uint64_t K[6] = {0, 1, ~0ull, 0x8000000000000000ull, 0x7fffffffull, 0x80000000ull};
        if (o < 6) {
            if (t == T_I32)
                i32c(e, (uint32_t)(o == 3 ? 0x12345678u : K[o]));
            else
                i64c(e, K[o]);
            h++;
        } else if (o < 8) {
            gget(e, (t == T_I32 ? 0 : 2) + o - 6);
            h++;
        } else {
            if (h < 2)
                return;
            u8(e, (t == T_I32 ? 0x6a : 0x7c) + o - 8);
            h--;
        }
    }
    if (h != 1)
        return;
    World w(Env);
    Module p, m;
    Bytes b;
    i32c(b, 0xdeadbeefu);
    p.globals.push_back({T_I32, false, b});
    b.clear();
    i32c(b, 3);
    p.globals.push_back({T_I32, false, b});
    b.clear();
    i64c(b, 0xfeedfacecafebeefull);
    p.globals.push_back({T_I64, false, b});
    b.clear();
    i64c(b, 3);
    p.globals.push_back({T_I64, false, b});
    for (uint32_t k = 0; k < 4; k++) {
        p.exp(mc::fmt("g%u", k), 3, k);
        Import i;
        i.mod = "p", i.name = mc::fmt("g%u", k), i.kind = 3, i.vt = k < 2 ? T_I32 : T_I64;
        m.imports.push_back(i);
    }
    m.globals.push_back({t, true, e});
    m.globals.push_back({t, false, e});
    if (t == T_I32) {
        Lim ml{16, false};
        ml.custom = customps;
        ml.shift = 0;
        if (!customps)
            ml = {1, false};
        m.mems.push_back(ml);
        m.datas.push_back({0, 0, e, {0xaa, 0xbb}});
    }
    std::string d = w.add("p", p);
    if (d.empty())
        d = w.add("m", m);
    if (d.empty())
        d = w.diff_state();
    X->add(c_init);
    X->outcome(mc::fnv(e.data(), e.size()));
    if (!d.empty())
        X->fail("constant expression %s: %s", hex(e).c_str(), d.c_str());
}

/* imports of all kinds in any order: each index space is filled in order with the right objects */
static void mixed(const std::vector<unsigned> &seq)
{
    World w(Env);
    Module p, m;
    FT i{{}, {T_I32}}, v{{}, {}};
    for (uint32_t k = 0; k < 2; k++) {
        Bytes b, c;
        i32c(b, 10 + k);
        p.func(i, b);
        p.tables.push_back({T_FUNCREF, {2 + k, false}});
        p.mems.push_back({1 + k, false});
        i32c(c, 20 + k);
        p.globals.push_back({T_I32, true, c});
        if (eh)
            p.tags.push_back(p.type(v));
        Elem e;
        e.flags = 2, e.table = k, e.funcs = {k}, e.off = zero(T_I32);
        p.elems.push_back(e);
        Bytes one;
        i32c(one, k);
        p.datas.push_back({2, k, one, {(uint8_t)(0x30 + k)}});
        for (int kind = 0; kind < (eh ? 5 : 4); kind++)
            p.exp(mc::fmt("%d%u", kind, k), kind, k);
    }
    if (eh)
        for (uint32_t k = 0; k < 2; k++) {
            Bytes b;
            u8(b, 0x08), u8(b, k);
            p.func(v, b);
            p.exp(mc::fmt("t%u", k), 0, 2 + k);
        }
    std::vector<Import> im;
    for (auto t : seq) {
        Import x;
        x.mod = "p", x.name = mc::fmt("%u%u", t / 2, t % 2), x.kind = (int)t / 2;
        x.vt = x.kind == 1 ? T_FUNCREF : T_I32, x.mut = true;
        x.typeidx = x.kind == 4 ? m.type(v) : m.type(i);
        m.imports.push_back(x);
    }
    /* observers over every index of every space */
    uint32_t nf = m.nimp(0), ng = m.nimp(3), nm = m.nimp(2), nt = m.nimp(1), ntag = m.nimp(4);
    if (eh)
        for (uint32_t k = 0; k < 2; k++) {
            Import x;
            x.mod = "p", x.name = mc::fmt("t%u", k), x.kind = 0, x.typeidx = m.type(v);
            m.imports.push_back(x);
        }
    uint32_t base = m.nimp(0);
    Bytes own;
    i32c(own, 77);
    m.globals.push_back({T_I32, true, own});
    std::vector<uint32_t> obs;
    for (uint32_t k = 0; k < nf; k++) {
        Bytes b;
        u8(b, 0x10), u8(b, k);
        m.func(i, b);
    }
    for (uint32_t k = 0; k <= ng; k++) {
        Bytes b;
        gget(b, k), i32c(b, 1), u8(b, 0x6a), gset(b, k), gget(b, k);
        m.func(i, b);
    }
    for (uint32_t k = 0; k < nm; k++) {
        Bytes b;
        u8(b, 0x3f), u8(b, k);
        i32c(b, 1), u8(b, 0x2d), u8(b, 0x40), u8(b, k), u8(b, 0);
        i32c(b, 5), u8(b, 0x74), u8(b, 0x6a);
        m.func(i, b);
    }
    for (uint32_t k = 0; k < nt; k++) {
        Bytes b;
        i32c(b, 0), u8(b, 0x11), uleb(b, m.type(i)), u8(b, k);
        m.func(i, b);
    }
    for (uint32_t k = 0; k < ntag; k++)
        for (uint32_t f = 0; f < 2; f++) {
            /* block: try_table (catch k -> outer) call t_f; 0 return */
            Bytes b;
            u8(b, 0x02), u8(b, 0x40);
            u8(b, 0x1f), u8(b, 0x40), u8(b, 1), u8(b, 0), u8(b, k), u8(b, 0);
            u8(b, 0x10), u8(b, nf + f);
            u8(b, 0x0b), u8(b, 0x0b);
            i32c(b, 1);
            m.func(i, b);
        }
    std::string d = w.add("p", p);
    if (d.empty())
        d = w.add("m", m);
    for (uint32_t k = 0; d.empty() && k < m.funcs.size(); k++) {
        uint64_t h = 0;
        d = w.call(1, base + k, {}, &h);
        if (d.empty())
            d = w.diff_state();
        X->add(c_calls);
    }
    X->add(c_init);
    if (!d.empty()) {
        std::string s;
        for (auto t : seq)
            s += mc::fmt(" %u.%u", t / 2, t % 2);
        X->fail("imports%s: %s", s.c_str(), d.c_str());
    }
}
/* the same name in two import objects: the one with a matching type is used */
static void twice(size_t a, size_t b)
{
    const Item &p = items[a], &q = items[b];
    for (int sw = 0; sw < 2; sw++) {
        tw_inst *in[2];
        tw_mod *md[2];
        int err, trap;
        tw_imports *im = tw_imports_new(Env);
        for (int k = 0; k < 2; k++) {
            Bytes e = provide(k ? q : p).encode();
            md[k] = tw_load(Env, e.data(), e.size(), 0, &err, nullptr, 0);
            in[k] = tw_instantiate(md[k], nullptr, &err, &trap);
        }
        for (int k = 0; k < 2; k++)
            tw_imports_add_exports(im, in[k ^ sw], "x");
        Module m;
        m.imports.push_back(want(m, p, "x"));
        Bytes e = m.encode();
        tw_mod *cm = tw_load(Env, e.data(), e.size(), 0, &err, nullptr, 0);
        tw_inst *ci = tw_instantiate(cm, im, &err, &trap);
        X->add(c_pairs);
        if (!ci)
            X->fail("%s is not found when another import object has %s under that name (order %d)", istr(p).c_str(), istr(q).c_str(), sw);
        tw_inst_destroy(ci);
        tw_imports_free(im);
        tw_unload(cm);
        for (int k = 0; k < 2; k++) {
            tw_inst_destroy(in[k]);
            tw_unload(md[k]);
        }
    }
}

struct Case {
    int kind, a, b, c, d, e, f;
    std::vector<unsigned> ops;
};

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "link");
    X = &x;
    c_pairs = x.counter("type_and_name_pairs");
    c_linked = x.counter("linked");
    c_init = x.counter("instantiations");
    c_fail = x.counter("failed_initialisations");
    c_calls = x.counter("calls");
    bool th = x.opt.thorough();
    eh = x.opt.get("noeh") != "1";
    mkitems(th);
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    std::vector<Case> cs;
    for (size_t i = 0; i < items.size(); i++)
        for (int how = 0; how < 6; how++)
            cs.push_back({0, (int)i, how, 0, 0, 0, 0, {}});
    for (int i = 0; i < 13; i++)
        cs.push_back({1, i, 0, 0, 0, 0, 0, {}});
    for (int im = 0; im < 4; im++)
        for (int e1 = -1; e1 < NES; e1++)
            for (int e2 = -1; e2 < NES; e2++)
                for (int d1 = -1; d1 < NDS; d1++)
                    for (int d2 = -1; d2 < NDS; d2++) {
                        if ((e1 < 0 && e2 >= 0) || (d1 < 0 && d2 >= 0))
                            continue;
                        for (int st = 0; st < NSTART; st++)
                            cs.push_back({2, im, e1, e2, d1, d2, st, {}});
                    }
    std::vector<unsigned> ops;
    size_t maxlen = th ? 7 : 5;
    std::function<void(int)> rec = [&](int t) {
        if (!ops.empty())
            cs.push_back({3, t, 0, 0, 0, 0, 0, ops});
        if (ops.size() == maxlen)
            return;
        int h = 0;
        for (auto o : ops)
            h += o < 8 ? 1 : -1;
        for (unsigned o = 0; o < 11; o++) {
            if (o >= 8 && h < 2)
                continue;
            if (o < 8 && (size_t)h + ops.size() + 1 > maxlen)
                continue;
            if (maxlen - ops.size() < (size_t)h - 1 + 1)
                continue;
            /* longer expressions use fewer constants */
            if (ops.size() >= 3 && o < 8 && o != 2 && o != 6)
                continue;
            ops.push_back(o);
            rec(t);
            ops.pop_back();
        }
    };
    rec(T_I32);
    rec(T_I64);
    std::function<void(size_t)> mix = [&](size_t max) {
        cs.push_back({4, 0, 0, 0, 0, 0, 0, ops});
        if (ops.size() == max)
            return;
        for (unsigned t = 0; t < (eh ? 10u : 8u); t++) {
            ops.push_back(t);
            mix(max);
            ops.pop_back();
        }
    };
    ops.clear();
    mix(th ? 5 : 4);
    for (size_t a = 0; a < items.size(); a++)
        cs.push_back({5, (int)a, 0, 0, 0, 0, 0, {}});
    x.run(cs.size(), [&](uint64_t i) {
        Case &c = cs[i];
        size_t before = tw_env_allocated(Env);
        switch (c.kind) {
        case 0: match((size_t)c.a, c.b); break;
        case 1: names((size_t)c.a); break;
        case 2: initcase(c.a, c.b, c.c, c.d, c.e, c.f); break;
        case 3: constexprs((uint8_t)c.a, c.ops); break;
        case 4: mixed(c.ops); break;
        case 5:
            for (size_t b = 0; b < items.size(); b++)
                twice((size_t)c.a, b);
            break;
        }
        if (tw_env_allocated(Env) != before)
            X->fail("case kind %d: %zu bytes still accounted", c.kind, tw_env_allocated(Env) - before);
    });
    x.sample("memory (min 1, max 3) grown by 1 and re-exported through an import (min 0), required as (min 2, max 3)");
    x.sample("two active element segments, the second out of bounds, on an imported table; then calling what the first one stored");
    return x.finish();
}
