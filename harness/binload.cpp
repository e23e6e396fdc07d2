/*
 * C09: the loader accepts exactly the well-formed valid binaries, and
 * rejects everything else without crashing, hanging or leaking.
 *
 * Every truncation, single-byte replacement / insertion / deletion, LEB128
 * re-encoding, section permutation and (for a subset of values) every pair
 * of byte replacements of a set of modules that together use every section
 * and construct.
 */
#include "mc.hpp"
#include "refbin.hpp"

using namespace wb;
using rb::Verdict;

static mc::Explorer *X;
static int c_loads, c_acc, c_rej, c_either, c_inst, c_names;
static tw_env *Env;
static size_t base_acc, base_heap;
static const char *cur = "";
static size_t heap_live()
{
#ifdef MC_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

/* debug names: exact for a well-formed name section, harmless otherwise */
static std::string names(tw_mod *md, const rb::Parser &q)
{
    struct tw_names *t = tw_names_begin();
    std::string d;
    for (int kind = 0; kind < 4 && d.empty(); kind++)
        for (uint32_t i = 0; i < (kind < 3 ? 6u : 1u) && d.empty(); i++) {
            uint32_t len;
            const char *s = tw_name(t, md, kind, i, &len);
            X->add(c_names);
            std::string got(s, len); /* touches every byte */
            if (!q.names_ok)
                continue;
            std::set<std::string> want;
            if (kind == 3) {
                if (q.has_modname)
                    want.insert(q.modname);
            } else {
                auto it = q.names[kind].find(i);
                if (it != q.names[kind].end())
                    want.insert(it->second);
                else if (kind < 2)
                    for (auto &e : q.m.exports)
                        if (e.kind == (kind == 0 ? 0 : 3) && e.idx == i)
                            want.insert(e.name);
            }
            if (want.empty())
                want.insert("<unknown>");
            if (!want.count(got))
                d = mc::fmt("the name of %s %u is \"%s\", expected \"%s\"", kind == 0 ? "function" : kind == 1 ? "global" : kind == 2 ? "data segment" : "module", i,
                            got.c_str(), want.begin()->c_str());
        }
    tw_names_end(t);
    return d;
}

static bool check(const Bytes &b, const char *what, size_t pos, unsigned v, bool inst = false)
{
    std::string why;
    rb::Parser q(b);
    Verdict vd = rb::verdict(q, why);
    size_t heap0 = heap_live();
    unsigned opts = (pos & 1) ? TWL_NO_JUMP_TABLE | TWL_NO_RT_CELLIDX | TWL_NO_LT_CELLIDX : 0;
    int err = 0;
    char msg[160];
    msg[0] = 0;
    /* an exact-size heap copy, so that reads past the end are seen */
    uint8_t *copy = (uint8_t *)malloc(b.size() ? b.size() : 1);
    if (!b.empty())
        memcpy(copy, b.data(), b.size());
    tw_mod *md = tw_load(Env, copy, b.size(), opts, &err, msg, sizeof(msg));
    X->add(c_loads);
    X->add(md ? c_acc : c_rej);
    if (vd == rb::EITHER)
        X->add(c_either);
    bool ok = true;
    if (md && vd == rb::REJECT) {
        X->fail("%s, %s at %zu value 0x%x: accepted although %s\nmodule %s", cur, what, pos, v, why.c_str(), hex(b).c_str());
        ok = false;
    }
    if (!md && vd == rb::ACCEPT) {
        X->fail("%s, %s at %zu value 0x%x: a valid module was rejected with %d (%s)\nmodule %s", cur, what, pos, v, err, msg, hex(b).c_str());
        ok = false;
    }
    if (!md && (err == 0 || err < 0)) {
        X->fail("%s, %s at %zu value 0x%x: rejected with error code %d\nmodule %s", cur, what, pos, v, err, hex(b).c_str());
        ok = false;
    }
    if (md && ok && q.nname) {
        std::string d = names(md, q);
        if (!d.empty()) {
            X->fail("%s, %s at %zu value 0x%x: %s\nmodule %s", cur, what, pos, v, d.c_str(), hex(b).c_str());
            ok = false;
        }
    }
    if (md && ok && inst) {
        int trap;
        X->add(c_inst);
        tw_inst *in = tw_instantiate(md, nullptr, &err, &trap);
        tw_inst_destroy(in);
    }
    tw_unload(md);
    free(copy);
    if (ok && tw_env_allocated(Env) != base_acc) {
        X->fail("%s, %s at %zu value 0x%x: %zu bytes still accounted after %s\nmodule %s", cur, what, pos, v, tw_env_allocated(Env) - base_acc,
                md ? "unloading" : "a rejected load", hex(b).c_str());
        base_acc = tw_env_allocated(Env);
        ok = false;
    }
    if (ok && heap_live() != heap0) {
        X->fail("%s, %s at %zu value 0x%x: %zd bytes leaked after %s\nmodule %s", cur, what, pos, v, (ssize_t)(heap_live() - heap0), md ? "unloading" : "a rejected load",
                hex(b).c_str());
        ok = false;
    }
    X->outcome(mc::fnv(why) * 2 + (md != nullptr) + mc::fnv(msg));
    return ok;
}

/* ------------------------------------------------------------------ */
struct Base {
    std::string name;
    Bytes b;
};
static std::vector<Base> bases;
static void custom(Bytes &out, const std::string &n, const Bytes &c)
{
    Bytes s;
    name(s, n);
    cat(s, c);
    section(out, 0, s);
}
static Bytes C(uint32_t v)
{
    Bytes b;
    i32c(b, v);
    return b;
}
static Bytes B(std::initializer_list<unsigned> l)
{
    Bytes b;
    for (auto x : l)
        b.push_back((uint8_t)x);
    return b;
}
static bool four = true, eh = true, simd = true, threads = true;
static void mkbases()
{
    auto add = [&](const char *n, const Module &m) { bases.push_back({n, m.encode()}); };
    FT v{{}, {}}, i{{}, {T_I32}}, ii{{T_I32}, {T_I32}};
    {
        Module m;
        add("empty", m);
    }
    {
        Module m;
        m.types = {{{T_I32, T_I64, T_F32}, {T_F64}}, {{}, {T_FUNCREF, T_EXTERNREF}}};
        add("types", m);
    }
    {
        Module m;
        m.type(ii);
        Import a;
        a.mod = "m", a.name = "f", a.kind = 0, a.typeidx = 0;
        m.imports.push_back(a);
        a.name = "t", a.kind = 1, a.vt = T_FUNCREF, a.l = {1, true, 2};
        m.imports.push_back(a);
        a.name = "", a.kind = 2, a.l = {1, false};
        m.imports.push_back(a);
        a.name = "\xc3\xa9", a.kind = 3, a.vt = T_I32, a.mut = false;
        m.imports.push_back(a);
        m.globals.push_back({T_I32, true, B({0x23, 0})});
        add("imports", m);
    }
    {
        Module m;
        Import a;
        a.mod = "x", a.name = "g", a.kind = 3, a.vt = T_I64, a.mut = true;
        m.imports.push_back(a);
        a.kind = 2, a.name = "m", a.l = {1, true, 3};
        if (threads)
            a.l.shared = true;
        m.imports.push_back(a);
        m.mems.push_back({2, true, 3});
        m.exp("a", 2, 1);
        m.exp("b", 3, 0);
        add("memories", m);
    }
    {
        Module m;
        m.func(v, {});
        m.tables.push_back({T_FUNCREF, {2, false}});
        m.tables.push_back({T_EXTERNREF, {0, true, 5}});
        Elem e;
        e.off = C(0);
        e.funcs = {0};
        m.elems.push_back(e);
        e = Elem();
        e.flags = 1;
        e.funcs = {0, 0};
        m.elems.push_back(e);
        e = Elem();
        e.flags = 2, e.table = 0, e.off = C(1);
        m.elems.push_back(e);
        e = Elem();
        e.flags = 3, e.funcs = {0};
        m.elems.push_back(e);
        add("elements 0-3", m);
    }
    {
        Module m;
        m.func(v, {});
        m.tables.push_back({T_FUNCREF, {2, false}});
        m.tables.push_back({T_EXTERNREF, {1, true, 5}});
        Elem e;
        e.flags = 4;
        e.off = C(0);
        e.exprs = {B({0xd2, 0}), B({0xd0, 0x70})};
        m.elems.push_back(e);
        e = Elem();
        e.flags = 5, e.t = T_EXTERNREF, e.exprs = {B({0xd0, 0x6f})};
        m.elems.push_back(e);
        e = Elem();
        e.flags = 6, e.table = 1, e.t = T_EXTERNREF, e.off = C(0);
        m.elems.push_back(e);
        e = Elem();
        e.flags = 7, e.exprs = {B({0xd2, 0})};
        m.elems.push_back(e);
        add("elements 4-7", m);
    }
    {
        Module m;
        m.mems.push_back({1, false});
        m.datas.push_back({0, 0, C(1), B({1, 2, 3})});
        m.datas.push_back({1, 0, {}, B({9})});
        m.datas.push_back({2, 0, C(5), {}});
        m.datacount = true;
        m.func(v, B({0x41, 0, 0x41, 0, 0x41, 1, 0xfc, 8, 1, 0, 0xfc, 9, 0}));
        add("data with datacount", m);
        m.funcs.clear();
        m.datacount = false;
        add("data without datacount", m);
    }
    {
        Module m;
        m.func(v, {});
        m.start = 0;
        m.exp("_start", 0, 0);
        m.exp("", 0, 0);
        add("start and exports", m);
    }
    {
        Module m;
        m.globals.push_back({T_I32, false, C(7)});
        m.globals.push_back({T_F64, true, B({0x44, 0, 0, 0, 0, 0, 0, 0xf8, 0x7f})});
        m.globals.push_back({T_FUNCREF, true, B({0xd0, 0x70})});
        m.globals.push_back({T_I64, true, B({0x42, 0x80, 0x80, 0x80, 0x80, 0x78, 0x42, 1, 0x7c})});
        m.exp("g", 3, 1);
        add("globals", m);
    }
    {
        Module m;
        Bytes b = B({0x20, 0, 0x04, 0x7f, 0x41, 1, 0x05, 0x02, 0x40, 0x20, 1, 0x0e, 1, 0, 1, 0x0b, 0x41, 2, 0x0b, 0x22, 1, 0x1a, 0x03, 0x40, 0x20, 0, 0x0d, 0, 0x0b, 0x20, 1});
        m.func(ii, b, {{2, T_I32}, {0, T_I64}, {1, T_F64}});
        m.func(ii, B({0x20, 0, 0x10, 0, 0x20, 0, 0x41, 1, 0x1b, 0x0f}));
        add("control flow", m);
    }
    {
        Module m;
        m.tables.push_back({T_FUNCREF, {3, true, 4}});
        m.func(ii, B({0x20, 0, 0x41, 1, 0x11, 0, 0, 0x1a, 0x41, 0, 0x12, 0}));
        m.func(ii, B({0x20, 0, 0x20, 0, 0x13, 0, 0}));
        m.func(v, B({0xd2, 0, 0x41, 1, 0xfc, 15, 0, 0x1a, 0xfc, 16, 0, 0x1a, 0x41, 0, 0x25, 0, 0xd1, 0x1a, 0x41, 0, 0xd0, 0x70, 0x41, 1, 0xfc, 17, 0, 0xfc, 13, 0}));
        Elem e;
        e.flags = 3, e.funcs = {0};
        m.elems.push_back(e);
        add("calls and tables", m);
    }
    {
        Module m;
        m.mems.push_back({1, true, 2});
        m.mems.push_back({1, true, 2});
        Bytes b = B({0x41, 0, 0x28, 2, 0x80, 1, 0x1a, 0x41, 0, 0x42, 1, 0x37, 0x43, 1, 8, 0x3f, 0, 0x40, 1, 0x1a, 0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 10, 1, 0, 0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 11, 0});
        m.func(v, b);
        add("memory instructions", m);
    }
    {
        Module m;
        m.func(FT{{T_F32}, {T_I64}}, B({0x20, 0, 0xfc, 4, 0xac, 0xc2, 0x50, 0xad}));
        m.funcs[0].body = B({0x20, 0, 0xfc, 4});
        m.func(FT{{}, {T_I32}}, B({0x41, 0xff, 0xff, 0xff, 0xff, 0x07, 0xc0, 0x67}));
        m.func(FT{{}, {T_F32}}, B({0x43, 1, 2, 3, 4, 0x91}));
        m.func(FT{{T_I32}, {T_I32, T_I64}}, B({0x20, 0, 0x02, 0x00, 0x42, 5, 0x0b}));
        m.types.insert(m.types.begin(), FT{{T_I32}, {T_I32, T_I64}});
        for (auto &f : m.funcs)
            f.type++;
        m.funcs[3].type = 0;
        m.func(FT{{}, {T_I32}}, B({0x41, 1, 0x41, 2, 0x41, 0, 0x1c, 1, 0x7f}));
        add("numeric", m);
    }
    if (simd) {
        Module m;
        m.mems.push_back({1, false});
        Bytes c = B({0xfd, 12});
        for (int k = 0; k < 16; k++)
            c.push_back((uint8_t)k);
        Bytes sh = c;
        cat(sh, c);
        u8(sh, 0xfd), u8(sh, 13);
        for (int k = 0; k < 16; k++)
            sh.push_back((uint8_t)(k * 2));
        m.func(FT{{}, {T_V128}}, sh);
        m.func(FT{{T_V128}, {T_I32}}, B({0x20, 0, 0xfd, 21, 15}));
        m.func(FT{{T_V128}, {T_V128}}, B({0x41, 0, 0x20, 0, 0xfd, 0x54, 0, 0, 3, 0x20, 0, 0x20, 0, 0xfd, 0x9b, 1, 0xfd, 0x4d}));
        m.func(v, B({0x41, 0, 0xfd, 0, 4, 0x10, 0x1a}));
        add("simd", m);
    }
    if (threads) {
        Module m;
        m.mems.push_back({1, true, 1, true});
        m.func(v, B({0x41, 0, 0x41, 1, 0xfe, 0, 2, 0, 0x1a, 0x41, 0, 0x41, 1, 0x42, 1, 0xfe, 1, 2, 4, 0x1a, 0xfe, 3, 0, 0x41, 0, 0x41, 1, 0xfe, 0x1e, 2, 0, 0x1a, 0x41, 8, 0x42, 1, 0x42, 2, 0xfe, 0x49, 3, 0, 0x1a}));
        add("atomics", m);
    }
    if (eh) {
        Module m;
        m.tags = {m.type(FT{{T_I32}, {}})};
        Import a;
        a.mod = "e", a.name = "t", a.kind = 4, a.typeidx = 0;
        m.imports.push_back(a);
        m.func(i, B({0x02, 0x7f, 0x1f, 0x40, 1, 0, 0, 0, 0x41, 3, 0x08, 1, 0x0b, 0x41, 1, 0x0b}));
        m.func(i, B({0x41, 1, 0x02, 0x00, 0x1a, 0x02, 0x7f, 0x1f, 0x7f, 1, 0, 0, 0, 0x41, 3, 0x0b, 0x0b, 0x1a, 0x41, 3, 0x0b, 0x1a, 0x41, 2}));
        m.func(v, B({0x02, 0x69, 0x1f, 0x40, 2, 3, 0, 2, 1, 0x0b, 0x0f, 0x0b, 0x0a}));
        m.exp("t", 4, 1);
        add("exceptions", m);
    }
    {
        Module m;
        m.func(v, {});
        m.exp("f", 0, 0);
        Bytes b;
        Module::header(b);
        custom(b, "x", B({1, 2, 3}));
        for (int id : {1, 3, 7, 10}) {
            section(b, id, m.sec(id));
            custom(b, id == 7 ? "name" : "", B({0xff, 0x80}));
        }
        bases.push_back({"custom sections", b});
    }
    {
        Module m;
        m.func(v, {});
        m.func(v, {});
        m.func(v, {});
        m.mems.push_back({1, false});
        m.globals.push_back({T_I32, false, C(1)});
        m.globals.push_back({T_I32, false, C(1)});
        m.datas.push_back({1, 0, {}, {}});
        m.exp("ef", 0, 1);
        m.exp("eg", 3, 0);
        Bytes b = m.encode();
        Bytes nb = B({0, 3, 2, 'm', 'n', 1, 8, 2, 0, 2, 'f', '0', 2, 1, 'x', 2, 3, 1, 0, 0, 7, 5, 1, 1, 2, 'g', '1', 9, 5, 1, 0, 2, 'd', '0'});
        custom(b, "name", nb);
        bases.push_back({"names", b});
        m.exports.clear();
        m.datas.clear();
        m.globals.clear();
        m.mems.clear();
        b = m.encode();
        custom(b, "name", B({1, 19, 5, 0, 0, 1, 1, 'b', 2, 0, 3, 4, 0xf0, 0x9f, 0x98, 0x80, 5, 1, 'f'}));
        bases.push_back({"function names", b});
    }
    {
        Module m;
        Bytes b;
        Module::header(b);
        Bytes d = B({1, 4, 16, 2, 1, 0, 2, 6, 1, 4, 'a', '.', 's', 'o', 4, 8, 1, 1, 'e', 1, 'f', 0x01});
        d = B({1, 4, 16, 2, 1, 0, 2, 6, 1, 4, 'a', '.', 's', 'o', 4, 6, 1, 1, 'e', 1, 'f', 0x01});
        custom(b, "dylink.0", d);
        m.func(v, {});
        section(b, 1, m.sec(1));
        section(b, 3, m.sec(3));
        section(b, 10, m.sec(10));
        bases.push_back({"dylink", b});
        b.clear();
        Module::header(b);
        custom(b, "dylink.0", B({3, 4, 1, 1, 'x', 0, 1, 4, 16, 2, 1, 0, 9, 1, 7}));
        bases.push_back({"dylink with unknown subsections", b});
    }
    if (threads) {
        Module m;
        Lim l{5, true, 9};
        l.custom = true;
        l.shift = 0;
        m.mems.push_back(l);
        l = {0, false};
        l.custom = true;
        l.shift = 16;
        m.mems.push_back(l);
        add("custom page sizes", m);
    }
}

/* re-encode a field with a given value in exactly n bytes (n >= 1) */
static Bytes reenc(int64_t v, bool sgn, int n, unsigned top)
{
    Bytes b;
    for (int i = 0; i < n; i++) {
        uint8_t c = (uint8_t)((sgn ? (uint64_t)(v >> (7 * i < 64 ? 7 * i : 63)) : (7 * i < 64 ? (uint64_t)v >> (7 * i) : 0)) & 0x7f);
        if (i == n - 1 && top != 0xff)
            c = (uint8_t)(c | top) & 0x7f;
        if (i < n - 1)
            c |= 0x80;
        b.push_back(c);
    }
    return b;
}
/* replace a field and fix up the enclosing size fields */
static Bytes splice(const Base &bs, const std::vector<rb::Field> &fs, size_t k, const Bytes &n)
{
    /* process from the inside out: the enclosing fields come earlier in the file */
    Bytes b = bs.b;
    const rb::Field &f = fs[k];
    b.erase(b.begin() + (long)f.pos, b.begin() + (long)(f.pos + f.len));
    b.insert(b.begin() + (long)f.pos, n.begin(), n.end());
    long delta = (long)n.size() - (long)f.len;
    for (size_t q = f.enclosing.size(); q-- > 0;) {
        const rb::Field &e = fs[f.enclosing[q]];
        uint64_t sz = (uint64_t)((long)(e.endpos - e.pos - e.len) + delta);
        Bytes nn;
        uleb(nn, sz);
        b.erase(b.begin() + (long)e.pos, b.begin() + (long)(e.pos + e.len));
        b.insert(b.begin() + (long)e.pos, nn.begin(), nn.end());
        delta += (long)nn.size() - (long)e.len;
    }
    return b;
}

enum { W_TRUNC, W_BYTE, W_INS, W_DEL, W_LEB, W_SECT, W_PAIR, W_RANGE, W_SHORT };
struct Case {
    int kind;
    size_t base, pos;
};
static std::vector<std::vector<rb::Field>> fields;
static std::vector<std::vector<rb::Section>> sections;

/* a section with arbitrary contents of up to 3 bytes (4 in a reduced alphabet); id 14: anything after the header */
static void shorts(int id, unsigned first, bool th)
{
    static char nm[64];
    snprintf(nm, sizeof(nm), "arbitrary contents of section %d", id);
    cur = nm;
    Bytes pre, post;
    Module::header(pre);
    if (id < 14) {
        Module m;
        m.func(FT{{}, {}}, {});
        m.tables.push_back({T_FUNCREF, {1, false}});
        m.mems.push_back({1, false});
        m.globals.push_back({T_I32, false, C(0)});
        m.tags = {0};
        m.datas.push_back({1, 0, {}, {}});
        static const int order[] = {1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11};
        bool after = id == 0;
        for (int o : order) {
            if (o == id) {
                after = true;
                continue;
            }
            Bytes c = m.sec(o);
            if (!c.empty() && !(o == 13 && !eh))
                section(after && id ? post : pre, o, c);
        }
    }
    auto run = [&](const Bytes &c) {
        Bytes b = pre;
        if (id < 14)
            section(b, id, c);
        else
            cat(b, c);
        cat(b, post);
        return check(b, "contents", c.size(), c.size() > 1 ? c[1] : 0);
    };
    if (first == 256) {
        run({});
        return;
    }
    static const uint8_t R[] = {0, 1, 2, 3, 4, 7, 0x0b, 0x10, 0x40, 0x41, 0x60, 0x6f, 0x70, 0x7e, 0x7f, 0x80, 0x81, 0xd0, 0xd2, 0xfc, 0xfd, 0xff};
    uint8_t f = (uint8_t)first;
    if (!run({f}))
        return;
    for (unsigned a = 0; a < 256; a++) {
        if (!run({f, (uint8_t)a}))
            return;
        if (th) {
            for (unsigned b = 0; b < 256; b++)
                if (!run({f, (uint8_t)a, (uint8_t)b}))
                    return;
        }
    }
    bool inr = false;
    for (auto r : R)
        inr |= r == f;
    if (!inr)
        return;
    for (auto a : R)
        for (auto b : R) {
            if (!run({f, a, b}))
                return;
            for (auto c : R) {
                if (!four)
                    break;
                if (!run({f, a, b, c}))
                    return;
                if (th)
                    for (auto d : R)
                        if (!run({f, a, b, c, d}))
                            return;
            }
        }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "binload");
    X = &x;
    c_loads = x.counter("binaries_loaded");
    c_acc = x.counter("accepted");
    c_rej = x.counter("rejected");
    c_either = x.counter("verdict_open");
    c_inst = x.counter("instantiated");
    c_names = x.counter("name_lookups");
    eh = x.opt.get("noeh") != "1";
    bool th = x.opt.thorough();
    four = x.opt.get("four", "1") == "1";
    bool pairs = x.opt.get("pairs", "1") == "1";
    mkbases();
    for (auto &b : bases) {
        rb::Parser p(b.b);
        p.record = true;
        if (!p.parse()) {
            fprintf(stderr, "base module %s: %s\n", b.name.c_str(), p.why.c_str());
            return 2;
        }
        fields.push_back(p.fields);
        sections.push_back(p.secs);
    }
    x.worker_init.push_back([](int) {
        Env = tw_env_new();
        tw_env_setlimit(Env, 200u << 20);
        base_acc = tw_env_allocated(Env);
    });
    std::vector<Case> cs;
    for (size_t k = 0; k < bases.size(); k++) {
        size_t n = bases[k].b.size();
        cs.push_back({W_TRUNC, k, 0});
        for (size_t p = 0; p < n; p++) {
            cs.push_back({W_BYTE, k, p});
            cs.push_back({W_DEL, k, p});
        }
        for (size_t p = 0; p <= n; p++)
            cs.push_back({W_INS, k, p});
        for (size_t p = 0; p < fields[k].size(); p++)
            cs.push_back({W_LEB, k, p});
        cs.push_back({W_SECT, k, 0});
        for (size_t p = 0; p < n; p++)
            cs.push_back({W_RANGE, k, p});
        if (pairs)
            for (size_t p = 8; p < n; p++)
                cs.push_back({W_PAIR, k, p});
    }
    /* arbitrary short section contents in a context that has everything they can refer to */
    for (size_t id = 0; id < 15; id++)
        for (size_t first = 0; first < 257; first++)
            cs.push_back({W_SHORT, id, first});
    x.run(cs.size(), [&](uint64_t ci) {
        Case &c = cs[ci];
        if (c.kind == W_SHORT) {
            shorts((int)c.base, (unsigned)c.pos, th);
            return;
        }
        const Base &bs = bases[c.base];
        cur = bs.name.c_str();
        size_t n = bs.b.size();
        switch (c.kind) {
        case W_TRUNC:
            if (!check(bs.b, "unchanged", 0, 0, true) || !check(bs.b, "unchanged", 1, 0, true))
                return;
            for (size_t k = 0; k < n; k++) {
                Bytes b(bs.b.begin(), bs.b.begin() + (long)k);
                if (!check(b, "truncated", k, 0))
                    return;
            }
            break;
        case W_BYTE:
            for (unsigned v = 0; v < 256; v++) {
                Bytes b = bs.b;
                b[c.pos] = (uint8_t)v;
                if (!check(b, "byte replaced", c.pos, v))
                    return;
                /* the same with the other load options */
                if (!check(b, "byte replaced", c.pos + 1, v))
                    return;
            }
            break;
        case W_INS:
            for (unsigned v = 0; v < 256; v++) {
                Bytes b = bs.b;
                b.insert(b.begin() + (long)c.pos, (uint8_t)v);
                if (!check(b, "byte inserted", c.pos, v))
                    return;
                /* with the sizes of the section and body around it adjusted */
                for (size_t k = 0; k < fields[c.base].size(); k++) {
                    const rb::Field &f = fields[c.base][k];
                    if (!f.size || c.pos < f.pos + f.len || c.pos > f.endpos)
                        continue;
                    Bytes q = b;
                    /* inner fields first would be needed for nested sizes: adjust this one and those around it */
                    std::vector<size_t> adj = f.enclosing;
                    adj.push_back(k);
                    bool fits = true;
                    for (auto a : adj) {
                        const rb::Field &g = fields[c.base][a];
                        uint64_t sz = g.endpos - g.pos - g.len + 1;
                        Bytes nn;
                        uleb(nn, sz);
                        if (nn.size() != g.len) {
                            fits = false;
                            break;
                        }
                        std::copy(nn.begin(), nn.end(), q.begin() + (long)g.pos);
                    }
                    if (fits && !check(q, "byte inserted and sizes adjusted", c.pos, v))
                        return;
                }
            }
            break;
        case W_DEL:
            for (size_t l = 1; l <= 4 && c.pos + l <= n; l++) {
                Bytes b = bs.b;
                b.erase(b.begin() + (long)c.pos, b.begin() + (long)(c.pos + l));
                if (!check(b, "bytes deleted", c.pos, (unsigned)l))
                    return;
            }
            break;
        case W_LEB: {
            const rb::Field &f = fields[c.base][c.pos];
            rw::Dec d{bs.b};
            d.p = f.pos;
            int64_t v = f.sgn ? d.sleb(f.bits) : (int64_t)d.uleb(f.bits);
            int max = (f.bits + 6) / 7;
            std::vector<int64_t> vals{v, 0, 1, 2, 3, 7, 8, v - 1, v + 1, 0x3f, 0x40, 0x7f, 0x80, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 0x10001, 0x7fffffff, (int64_t)0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, -1, -2, -64, -65, -0x80000000ll};
            for (auto val : vals) {
                if (!f.sgn && val < 0)
                    continue;
                for (int l = 1; l <= max + 2; l++)
                    for (unsigned top : {0xffu, 0x08u, 0x10u, 0x40u, 0x70u, 0x7fu}) {
                        Bytes e = reenc(val, f.sgn, l, top);
                        if (!check(splice(bs, fields[c.base], c.pos, e), "integer re-encoded", f.pos, (unsigned)val))
                            return;
                    }
            }
            break;
        }
        case W_SECT: {
            auto &ss = sections[c.base];
            auto part = [&](const rb::Section &s) { return Bytes(bs.b.begin() + (long)s.start, bs.b.begin() + (long)s.end); };
            /* remove any subset of up to 3, swap any two, duplicate any at any place, empty any, add an unknown one anywhere */
            size_t ns = ss.size();
            for (unsigned mask = 0; mask < (1u << ns) && ns <= 12; mask++) {
                Bytes b(bs.b.begin(), bs.b.begin() + 8);
                for (size_t k = 0; k < ns; k++)
                    if (mask >> k & 1)
                        cat(b, part(ss[k]));
                if (!check(b, "subset of the sections", mask, 0))
                    return;
            }
            for (size_t k = 0; k < ns; k++)
                for (size_t l = 0; l <= ns; l++) {
                    Bytes mv(bs.b.begin(), bs.b.begin() + 8), dup = mv;
                    for (size_t q = 0; q <= ns; q++) {
                        if (q == l) {
                            cat(mv, part(ss[k]));
                            cat(dup, part(ss[k]));
                        }
                        if (q < ns) {
                            if (q != k)
                                cat(mv, part(ss[q]));
                            cat(dup, part(ss[q]));
                        }
                    }
                    if (!check(mv, "section moved", k, (unsigned)l) || !check(dup, "section duplicated", k, (unsigned)l))
                        return;
                }
            for (size_t l = 0; l <= ns; l++)
                for (unsigned id = 0; id < 256; id++)
                    for (int body = 0; body < 5; body++) {
                        Bytes b(bs.b.begin(), bs.b.begin() + 8);
                        static const Bytes bodies[] = {B({}), B({0}), B({0, 0}), B({1, 'q', 5}), B({0x80, 0})};
                        for (size_t q = 0; q <= ns; q++) {
                            if (q == l)
                                section(b, (int)id, bodies[body]);
                            if (q < ns)
                                cat(b, part(ss[q]));
                        }
                        if (!check(b, "section inserted", l, id))
                            return;
                    }
            break;
        }
        default: break;
        case W_RANGE: {
            /* ranges overwritten with a constant, and ranges copied elsewhere */
            for (size_t l = 2; l <= 6 && c.pos + l <= n; l++) {
                for (unsigned v : {0u, 1u, 0x0bu, 0x40u, 0x7fu, 0x80u, 0xffu}) {
                    Bytes b = bs.b;
                    for (size_t k = 0; k < l; k++)
                        b[c.pos + k] = (uint8_t)v;
                    if (!check(b, "range overwritten", c.pos, v))
                        return;
                }
                for (size_t d = 8; d + l <= n; d++) {
                    Bytes b = bs.b;
                    for (size_t k = 0; k < l; k++)
                        b[d + k] = bs.b[c.pos + k];
                    if (!check(b, "range copied", c.pos, (unsigned)d))
                        return;
                }
            }
            break;
        }
        case W_PAIR: {
            auto vals = [&](uint8_t o, std::vector<uint8_t> &r) {
                static const uint8_t V[] = {0, 1, 2, 0x0b, 0x40, 0x7f, 0x80, 0xff};
                static const uint8_t T[] = {3, 4, 5, 0x05, 0x0c, 0x10, 0x1a, 0x20, 0x41, 0x60, 0x6f, 0x70, 0x7c, 0x7e, 0xfc, 0xfd, 0xfe};
                r.assign(V, V + sizeof(V));
                if (th)
                    r.insert(r.end(), T, T + sizeof(T));
                r.push_back((uint8_t)(o + 1));
                r.push_back((uint8_t)(o - 1));
            };
            std::vector<uint8_t> va, vb;
            vals(bs.b[c.pos], va);
            for (size_t q = c.pos + 1; q < n; q++) {
                vals(bs.b[q], vb);
                for (auto a : va)
                    for (auto e : vb) {
                        Bytes b = bs.b;
                        b[c.pos] = a;
                        b[q] = e;
                        if (!check(b, "two bytes replaced", c.pos * 1000 + q, (unsigned)(a << 8 | e)))
                            return;
                    }
            }
            break;
        }
        }
    });
    x.sample("the module 'elements 4-7' with every byte replaced by every value");
    x.sample("the section size of 'simd' re-encoded in 1..7 bytes with every unused-bit pattern and boundary values");
    x.sample("every section of 'custom sections' moved to and duplicated at every place");
    return x.finish();
}
