/*
 * C20: writing a loaded module back.
 *
 * Every module of a set of families (one per section, all subsets of sections,
 * all forms and LEB128 size boundaries) is loaded, written and compared, via
 * an independent decoder, with what was loaded; the written bytes are loaded
 * and written again.  For I/O failures, the file size limit is put at every
 * offset of the output.
 */
#include "refbin.hpp"
#include "mc.hpp"
#include <algorithm>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace wb;

static mc::Explorer *X;
static int c_mods, c_faults;
static tw_env *Env;
static int Mfd = -1;
static std::string Mpath;

/* a description of a module that does not depend on the encoding chosen */
static std::string canon(const Module &m)
{
    std::string s;
    auto hx = [](const Bytes &b) {
        std::string r;
        for (auto c : b)
            r += mc::fmt("%02x", c);
        return r;
    };
    auto ls = [](const Lim &l) {
        return mc::fmt("%llu..%s %d %u", (unsigned long long)l.min, l.hasmax ? mc::fmt("%llu", (unsigned long long)l.max).c_str() : "-", l.shared, l.custom ? l.shift : 16);
    };
    /* a memory without a maximum has that of its type */
    auto ms = [&](Lim l) {
        if (!l.hasmax) {
            l.hasmax = true;
            l.max = l.custom && l.shift == 0 ? 0xffffffffull : 65536;
        }
        return ls(l);
    };
    auto nm = [](const std::string &n) {
        std::string r = mc::fmt("%zu:", n.size());
        return r + n;
    };
    for (auto &t : m.types)
        s += "type " + hx(t.p) + "->" + hx(t.r) + "\n";
    for (auto &i : m.imports) {
        s += "import " + nm(i.mod) + " " + nm(i.name) + mc::fmt(" %d ", i.kind);
        switch (i.kind) {
        case 0:
        case 4: s += mc::fmt("%u", i.typeidx); break;
        case 1: s += mc::fmt("%02x ", i.vt) + ls(i.l); break;
        case 2: s += ms(i.l); break;
        case 3: s += mc::fmt("%02x %d", i.vt, i.mut); break;
        }
        s += "\n";
    }
    for (auto &f : m.funcs) {
        s += mc::fmt("func %u", f.type);
        /* adjacent chunks of one type are the same declaration */
        std::vector<std::pair<uint64_t, uint8_t>> l;
        for (auto &c : f.locals) {
            if (!c.first)
                continue;
            if (!l.empty() && l.back().second == c.second)
                l.back().first += c.first;
            else
                l.push_back({c.first, c.second});
        }
        for (auto &c : l)
            s += mc::fmt(" %llux%02x", (unsigned long long)c.first, c.second);
        s += " " + hx(f.body) + "\n";
    }
    for (auto &t : m.tables)
        s += mc::fmt("table %02x ", t.t) + ls(t.l) + "\n";
    for (auto &l : m.mems)
        s += "memory " + ms(l) + "\n";
    for (auto t : m.tags)
        s += mc::fmt("tag %u\n", t);
    for (auto &g : m.globals)
        s += mc::fmt("global %02x %d ", g.t, g.mut) + hx(g.init) + "\n";
    std::vector<Export> ex = m.exports; /* the order has no meaning */
    std::sort(ex.begin(), ex.end(), [](const Export &a, const Export &b) { return a.name < b.name; });
    for (auto &e : ex)
        s += "export " + nm(e.name) + mc::fmt(" %d %u\n", e.kind, e.idx);
    s += mc::fmt("start %lld\n", (long long)m.start);
    for (auto &e : m.elems) {
        int mode = !(e.flags & 1) ? 0 : e.flags & 2 ? 2 : 1;
        uint8_t t = (e.flags & 4) && (e.flags & 3) ? e.t : T_FUNCREF;
        s += mc::fmt("elem mode %d type %02x ", mode, t);
        if (!mode)
            s += mc::fmt("table %u off ", e.flags & 2 ? e.table : 0) + hx(e.off);
        for (auto f : e.funcs) {
            Bytes b;
            u8(b, 0xd2);
            uleb(b, f);
            s += " " + hx(b);
        }
        for (auto &x : e.exprs)
            s += " " + hx(x);
        s += "\n";
    }
    for (auto &d : m.datas)
        s += mc::fmt("data %d %u ", d.flags == 1, d.flags == 2 ? d.mem : 0) + (d.flags == 1 ? "" : hx(d.off)) + " " + hx(d.bytes) + "\n";
    return s;
}
static Bytes slurp()
{
    struct stat st;
    fstat(Mfd, &st);
    Bytes b((size_t)st.st_size);
    if (!b.empty() && pread(Mfd, b.data(), b.size(), 0) != (ssize_t)b.size())
        b.clear();
    return b;
}
static std::string firstdiff(const std::string &a, const std::string &b)
{
    size_t i = 0, l = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        if (a[i] == '\n')
            l = i + 1;
        i++;
    }
    return "\"" + b.substr(l, std::min<size_t>(b.find('\n', l) - l, 200)) + "\", loaded was \"" + a.substr(l, std::min<size_t>(a.find('\n', l) - l, 200)) + "\"";
}

static void one(const char *family, const Bytes &bin, const std::string &what)
{
    rb::Parser in(bin);
    std::string why;
    if (rb::verdict(in, why) != rb::ACCEPT) {
        X->fail("%s %s: the generated module is not valid: %s", family, what.c_str(), why.c_str());
        return;
    }
    char msg[300];
    int err;
    tw_mod *m = tw_load(Env, bin.data(), bin.size(), 0, &err, msg, sizeof(msg));
    if (!m) {
        X->fail("%s %s: load failed: %s", family, what.c_str(), msg);
        return;
    }
    if (ftruncate(Mfd, 0)) {
    }
    int rc = tw_module_write(m, Mpath.c_str());
    Bytes out = slurp();
    tw_unload(m);
    X->add(c_mods);
    if (rc) {
        X->fail("%s %s: writing failed with %d", family, what.c_str(), rc);
        return;
    }
    rb::Parser q(out);
    if (rb::verdict(q, why) == rb::REJECT) {
        X->fail("%s %s: what was written is not a valid module: %s", family, what.c_str(), why.c_str());
        return;
    }
    std::string a = canon(in.m), b = canon(q.m);
    if (a != b) {
        X->fail("%s %s: written as %s", family, what.c_str(), firstdiff(a, b).c_str());
        return;
    }
    X->outcome(mc::fnv(out.data(), out.size()));
    m = tw_load(Env, out.data(), out.size(), 0, &err, msg, sizeof(msg));
    if (!m) {
        X->fail("%s %s: what was written does not load: %s", family, what.c_str(), msg);
        return;
    }
    rc = tw_module_write(m, Mpath.c_str());
    Bytes again = slurp();
    tw_unload(m);
    if (rc || again != out)
        X->fail("%s %s: writing a second time gives %d and %s bytes", family, what.c_str(), rc, again == out ? "the same" : "other");
}

static void faults(const Bytes &bin, size_t lo, size_t hi)
{
    int err;
    tw_mod *m = tw_load(Env, bin.data(), bin.size(), 0, &err, nullptr, 0);
    struct rlimit old, l;
    getrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, SIG_IGN);
    for (size_t k = lo; k < hi; k++) {
        l = old;
        l.rlim_cur = k;
        setrlimit(RLIMIT_FSIZE, &l);
        int rc = tw_module_write(m, Mpath.c_str());
        setrlimit(RLIMIT_FSIZE, &old);
        Bytes out = slurp();
        X->add(c_faults);
        X->outcome(k * 31 + (rc != 0));
        if (rc == 0 && out.size() <= k && (out.size() < k || k < bin.size())) {
            /* success: then it has to be all there */
            rb::Parser in(bin), q(out);
            if (!in.parse() || !q.parse() || canon(in.m) != canon(q.m)) {
                X->fail("writing with the file size limited to %zu bytes reports success; %zu bytes written", k, out.size());
                break;
            }
        }
    }
    tw_unload(m);
}
static void badpaths(const Bytes &bin)
{
    int err;
    tw_mod *m = tw_load(Env, bin.data(), bin.size(), 0, &err, nullptr, 0);
    static const char *P[] = {"/dev/full", "/", "/dev/null/x", "/proc/self/nonexistent", ""};
    for (auto p : P) {
        int rc = tw_module_write(m, p);
        X->add(c_faults);
        if (rc == 0)
            X->fail("writing to \"%s\" reports success", p);
    }
    tw_unload(m);
}

struct Case {
    const char *family;
    Bytes bin;
    std::string what;
    int fault = 0;
    size_t lo = 0, hi = 0;
};
static std::vector<Case> cs;
static void put(const char *f, const Module &m, const std::string &w) { cs.push_back({f, m.encode(), w}); }
static bool eh = true;

static const std::vector<std::string> &Names()
{
    static std::vector<std::string> n{"", "a", std::string("\0", 1), std::string("a\0b", 3), "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", std::string(127, 'x'), std::string(128, 'y'), std::string(16384, 'z')};
    return n;
}
static const uint8_t VT[] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF, T_EXNREF};
static Bytes konst(uint8_t t)
{
    Bytes b;
    constant(b, t, {0x123456789abcdef0ull, 0xfedcba9876543210ull});
    return b;
}
static Module base()
{
    Module m;
    FT v{{}, {}};
    m.func(v, {});
    m.func({{T_I32}, {T_I32}}, [] {
        Bytes b;
        lget(b, 0);
        return b;
    }());
    return m;
}
static void gen(bool th)
{
    FT v{{}, {}};
    Bytes z;
    i32c(z, 0);
    /* element segments, with the even or the odd tables holding functions */
    std::vector<Elem> el;
    uint32_t odd;
    auto elgen = [&]() {
    el.clear();
    for (int f = 0; f < 8; f++)
        for (uint8_t t : {T_FUNCREF, T_EXTERNREF}) {
            if (t != T_FUNCREF && (f < 5))
                continue;
            for (uint32_t tab = 0; tab < 4; tab++) {
                bool act = !(f & 1);
                if (!act && tab)
                    continue;
                if (act && !(f & 2) && tab)
                    continue;
                if (act && ((tab + odd) % 2 ? T_EXTERNREF : T_FUNCREF) != t)
                    continue;
                for (unsigned n : {0u, 1u, 2u, 3u, 130u}) {
                    Elem e;
                    e.flags = f, e.table = tab, e.t = t;
                    i32c(e.off, n == 2 ? 0x7fffffffu : n == 3 ? 0xffffffffu : 1);
                    for (unsigned k = 0; k < n; k++) {
                        if (f & 4) {
                            Bytes b;
                            if (t == T_EXTERNREF || k % 3 == 1)
                                u8(b, 0xd0), u8(b, t);
                            else if (k % 3 == 2)
                                gget(b, 0);
                            else
                                u8(b, 0xd2), u8(b, k % 2);
                            e.exprs.push_back(b);
                        } else
                            e.funcs.push_back(k % 2);
                    }
                    el.push_back(e);
                }
            }
        }
    };
    auto elbase = [&]() {
        Module m = base();
        Import i;
        i.mod = "p", i.name = "g", i.kind = 3, i.vt = T_FUNCREF;
        m.imports.push_back(i);
        i.name = "o", i.vt = T_I32;
        m.imports.push_back(i);
        for (uint32_t k = 0; k < 4; k++)
            m.tables.push_back({(k + odd) % 2 ? T_EXTERNREF : T_FUNCREF, {10, false}});
        return m;
    };
    for (odd = 2; odd-- > 0;) {
    elgen();
    for (size_t a = 0; a < el.size(); a++) {
        Module m = elbase();
        m.elems = {el[a]};
        put("element", m, mc::fmt("flags %d type %02x table %u n %zu", el[a].flags, el[a].t, el[a].table, el[a].funcs.size() + el[a].exprs.size()));
        if (!(el[a].flags & 1)) {
            m.elems[0].off.clear();
            gget(m.elems[0].off, 1);
            put("element", m, "offset from a global");
        }
        for (size_t b = 0; b < el.size(); b++) {
            if (el[a].funcs.size() + el[a].exprs.size() > 3 || el[b].funcs.size() + el[b].exprs.size() > 3)
                continue;
            Module q = elbase();
            q.elems = {el[a], el[b]};
            put("elements", q, mc::fmt("%zu %zu", a, b));
        }
    }
    }
    odd = 0;
    /* data segments */
    std::vector<Data> dl;
    for (int f = 0; f < 3; f++)
        for (uint32_t mem = 0; mem < (f == 2 ? 3u : 1u); mem++)
            for (size_t n : {0, 1, 2, 127, 128, 20000}) {
                Data d;
                d.flags = f, d.mem = mem, d.off = z;
                for (size_t k = 0; k < n; k++)
                    d.bytes.push_back((uint8_t)(k * 7 + 1));
                dl.push_back(d);
            }
    for (size_t a = 0; a < dl.size(); a++)
        for (size_t b = 0; b <= dl.size(); b++)
            for (int dc = 0; dc < 2; dc++) {
                Module m = base();
                for (int k = 0; k < 3; k++)
                    m.mems.push_back({(uint64_t)k, true, 5});
                m.datas = {dl[a]};
                if (b < dl.size())
                    m.datas.push_back(dl[b]);
                m.datacount = dc;
                if (dc) {
                    Bytes x;
                    u8(x, 0xfc), u8(x, 9), u8(x, (unsigned)m.datas.size() - 1);
                    m.func(v, x);
                }
                put("data", m, mc::fmt("%zu %zu datacount %d", a, b, dc));
            }
    for (int dc = 0; dc < 2; dc++) {
        Module m = base();
        m.datacount = dc;
        put("data", m, "none");
    }
    /* imports */
    std::vector<Import> il;
    {
        Import i;
        i.kind = 0, i.typeidx = 1;
        il.push_back(i);
        for (uint8_t t : {T_FUNCREF, T_EXTERNREF})
            for (int mx = 0; mx < 2; mx++) {
                i.kind = 1, i.vt = t, i.l = {3, mx != 0, 200};
                il.push_back(i);
            }
        for (int sh = 0; sh < 2; sh++)
            for (int c = 0; c < 3; c++)
                for (int mx = sh; mx < 2; mx++) {
                    i.kind = 2, i.l = {1, mx != 0, 3};
                    i.l.shared = sh, i.l.custom = c, i.l.shift = c == 1 ? 0 : 16;
                    il.push_back(i);
                }
        i.l = {};
        for (uint8_t t : VT)
            for (int mu = 0; mu < 2; mu++) {
                if (t == T_EXNREF && !eh)
                    continue;
                i.kind = 3, i.vt = t, i.mut = mu;
                il.push_back(i);
            }
        i.kind = 4, i.typeidx = 0;
        if (eh)
            il.push_back(i);
    }
    for (size_t a = 0; a < il.size(); a++)
        for (size_t b = 0; b <= il.size(); b++) {
            Module m = base();
            m.imports.push_back(il[a]);
            m.imports.back().mod = "m", m.imports.back().name = "n";
            if (b < il.size()) {
                m.imports.push_back(il[b]);
                m.imports.back().mod = "m", m.imports.back().name = "n2";
            }
            put("imports", m, mc::fmt("%zu %zu", a, b));
        }
    for (auto &n1 : Names())
        for (auto &n2 : Names()) {
            Module m = base();
            Import i = il[0];
            i.mod = n1, i.name = n2;
            m.imports.push_back(i);
            m.exp(n1, 0, 0);
            if (n1 != n2)
                m.exp(n2, 0, 1);
            put("names", m, mc::fmt("%zu %zu bytes", n1.size(), n2.size()));
        }
    /* exports of every kind and index, in every order of two */
    for (int k = 0; k < (eh ? 5 : 4); k++)
        for (uint32_t x : {0u, 1u, 129u})
            for (int k2 = 0; k2 < (eh ? 5 : 4); k2++) {
                Module m = base();
                for (int j = 2; j < 130; j++)
                    m.func(v, {});
                for (int j = 0; j < 130; j++) {
                    m.tables.push_back({T_FUNCREF, {0, false}});
                    m.mems.push_back({0, false});
                    m.globals.push_back({T_I32, false, z});
                    if (eh)
                        m.tags.push_back(0);
                }
                m.exp("e", k, x);
                m.exp("f", k2, 129 - x);
                put("exports", m, mc::fmt("kind %d index %u, kind %d", k, x, k2));
            }
    /* limits */
    static const uint64_t L[] = {0, 1, 127, 128, 16383, 16384, 65535, 65536, 0xffffff, 0x1000000, 0xfffffffe};
    for (auto a : L)
        for (int mx = -1; mx < 11; mx++) {
            if (mx >= 0 && L[mx] < a)
                continue;
            Lim l{a, mx >= 0, mx >= 0 ? L[mx] : 0};
            for (uint8_t t : {T_FUNCREF, T_EXTERNREF}) {
                Module m;
                m.tables.push_back({t, l});
                m.tables.push_back({T_FUNCREF, {1, false}});
                put("table limits", m, mc::fmt("%llu %d", (unsigned long long)a, mx));
            }
            for (int form = 0; form < 3; form++)
                for (int sh = 0; sh < 2; sh++) {
                    Lim q = l;
                    q.custom = form;
                    q.shift = form == 1 ? 0 : 16;
                    q.shared = sh;
                    if (sh && mx < 0)
                        continue;
                    if (form != 1 && (a > 65536 || (mx >= 0 && q.max > 65536)))
                        continue;
                    Module m;
                    m.mems.push_back(q);
                    m.mems.push_back({1, false});
                    put("memory limits", m, mc::fmt("%llu %d form %d shared %d", (unsigned long long)a, mx, form, sh));
                    Module mi;
                    Import i;
                    i.mod = "m", i.name = "n", i.kind = 2, i.l = q;
                    mi.imports.push_back(i);
                    put("imported memory limits", mi, mc::fmt("%llu %d form %d shared %d", (unsigned long long)a, mx, form, sh));
                }
        }
    /* types */
    for (size_t np = 0; np <= 3; np++)
        for (size_t nr = 0; nr <= 3; nr++) {
            size_t tot = 1;
            for (size_t k = 0; k < np + nr; k++)
                tot *= 8;
            if (np + nr > (th ? 4u : 3u))
                continue;
            for (size_t c = 0; c < tot; c++) {
                FT t;
                size_t x = c;
                for (size_t k = 0; k < np + nr; k++, x /= 8)
                    (k < np ? t.p : t.r).push_back(VT[x % 8]);
                Module m;
                m.types = {v, t, t};
                Bytes un;
                u8(un, 0);
                m.funcs.push_back({2, {}, un});
                put("types", m, mc::fmt("%zu %zu %zu", np, nr, c));
            }
        }
    for (size_t n : {127, 128, 130, 1000}) {
        Module m;
        FT t{std::vector<uint8_t>(n, T_I64), std::vector<uint8_t>(n, T_F32)};
        m.types = {t};
        Bytes un;
        u8(un, 0);
        m.funcs.push_back({0, {}, un});
        put("types", m, "long");
        m.types.assign(n, v);
        m.types.back() = t;
        m.funcs[0].type = (uint32_t)n - 1;
        put("types", m, "many");
    }
    /* functions: number, locals, body sizes */
    for (size_t n : {0, 1, 127, 128, 300}) {
        Module m;
        for (size_t k = 0; k < n; k++)
            m.func(v, Bytes(k % 5, 0x01));
        put("functions", m, mc::fmt("%zu", n));
        if (n) {
            m.start = (int64_t)n - 1;
            put("functions", m, "start");
            m.start = 0;
            put("functions", m, "start 0");
        }
    }
    for (size_t len = 0; len < (th ? 17000u : 400u); len++) {
        Module m;
        m.func(v, Bytes(len, 0x01));
        m.func(v, {});
        put("body size", m, mc::fmt("%zu", len));
    }
    for (size_t len : {16380, 16381, 16382, 16383, 16384, 16385, 40000}) {
        Module m;
        m.func(v, Bytes(len, 0x01));
        m.func(v, {});
        put("body size", m, mc::fmt("%zu", len));
    }
    static const uint32_t LC[] = {0, 1, 2, 127, 128, 5000};
    for (size_t a = 0; a < 6; a++)
        for (size_t ta = 0; ta < 8; ta++)
            for (size_t b = 0; b < 7; b++)
                for (size_t tb = 0; tb < 8; tb++) {
                    if (b == 6 && tb)
                        continue;
                    Module m = base();
                    std::vector<std::pair<uint32_t, uint8_t>> l{{LC[a], VT[ta]}};
                    if (b < 6)
                        l.push_back({LC[b], VT[tb]});
                    m.func(v, {}, l);
                    put("locals", m, mc::fmt("%zu %zu %zu %zu", a, ta, b, tb));
                }
    /* globals */
    for (uint8_t t : VT)
        for (int mu = 0; mu < 2; mu++)
            for (int form = 0; form < 4; form++) {
                if (t == T_EXNREF && !eh)
                    continue;
                Module m = base();
                Import i;
                i.mod = "m", i.name = "g", i.kind = 3, i.vt = t;
                m.imports.push_back(i);
                Bytes e = konst(t);
                if (form == 1)
                    e.clear(), gget(e, 0);
                if (form == 2) {
                    if (t != T_FUNCREF)
                        continue;
                    e.clear(), u8(e, 0xd2), u8(e, 1);
                }
                if (form == 3) {
                    if (t != T_I32 && t != T_I64)
                        continue;
                    Bytes f = e;
                    cat(e, f);
                    u8(e, t == T_I32 ? 0x6a : 0x7e);
                    gget(e, 0);
                    u8(e, t == T_I32 ? 0x6b : 0x7d);
                }
                m.globals.push_back({t, mu != 0, e});
                m.globals.push_back({T_I32, true, z});
                put("globals", m, mc::fmt("%02x %d %d", t, mu, form));
            }
    /* tags */
    if (eh)
        for (size_t n : {1, 2, 127, 128})
            for (uint32_t ty = 0; ty < 2; ty++) {
                Module m = base();
                m.types.push_back({{T_I32, T_I64}, {}});
                for (size_t k = 0; k < n; k++)
                    m.tags.push_back(k == n - 1 ? ty * 2 : 0);
                put("tags", m, mc::fmt("%zu %u", n, ty));
            }
    /* every subset of sections, with and without custom sections between */
    for (unsigned set = 0; set < 1u << 10; set++)
        for (int cust = 0; cust < 2; cust++) {
            Module m = base();
            if (set & 1) {
                Import i;
                i.mod = "m", i.name = "g", i.kind = 3, i.vt = T_I32;
                m.imports.push_back(i);
            }
            if (set & 2)
                m.tables.push_back({T_FUNCREF, {2, false}});
            if (set & 4)
                m.mems.push_back({1, false});
            if (set & 8) {
                if (!eh)
                    continue;
                m.tags.push_back(0);
            }
            if (set & 16)
                m.globals.push_back({T_I64, true, konst(T_I64)});
            if (set & 32)
                m.exp("f", 0, 1);
            if (set & 64)
                m.start = 0;
            if (set & 128) {
                Elem e;
                e.flags = set & 2 ? 0 : 3;
                e.off = z;
                e.funcs = {1, 0};
                m.elems.push_back(e);
            }
            if (set & 256) {
                Data d;
                d.flags = set & 4 ? 0 : 1;
                d.off = z;
                d.bytes = {1, 2, 3};
                m.datas.push_back(d);
            }
            m.datacount = set & 512;
            Bytes b = m.encode();
            if (cust) {
                rb::Parser q(b);
                q.parse();
                Bytes o(b.begin(), b.begin() + 8), c;
                name(c, "custom");
                u8(c, 1), u8(c, 2);
                section(o, 0, c);
                for (auto &s : q.secs) {
                    o.insert(o.end(), b.begin() + (long)s.start, b.begin() + (long)s.end);
                    section(o, 0, c);
                }
                b = o;
            }
            cs.push_back({"sections", b, mc::fmt("%x custom %d", set, cust)});
        }
    /* nothing at all, and a module with several of everything */
    put("empty", Module(), "");
    /* write faults on a module larger than a few stdio buffers */
    Module big = elbase();
    big.mems.push_back({1, false});
    big.elems = {el[0], el[1], el[2]};
    for (int k = 0; k < 3; k++) {
        Data d;
        d.flags = k == 1 ? 1 : 0;
        d.off = z;
        d.bytes = Bytes(k == 1 ? 3000 : 5000, (uint8_t)(k + 1));
        big.datas.push_back(d);
    }
    for (int k = 0; k < 40; k++)
        big.func(v, Bytes((size_t)k * 4, 1));
    for (const Module *m : {(const Module *)&big, (const Module *)nullptr}) {
        Bytes b = m ? m->encode() : cs[0].bin;
        for (size_t lo = 0; lo <= b.size(); lo += 500) {
            Case c{"fault", b, "", 1, lo, std::min(lo + 500, b.size() + 2)};
            cs.push_back(c);
        }
        Case c{"paths", b, "", 2};
        cs.push_back(c);
    }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "writer");
    X = &x;
    c_mods = x.counter("modules_written");
    c_faults = x.counter("write_faults");
    eh = x.opt.get("noeh") != "1";
    gen(x.opt.thorough());
    x.worker_init.push_back([](int) {
        Env = tw_env_new();
        Mfd = memfd_create("w", 0);
        Mpath = mc::fmt("/proc/self/fd/%d", Mfd);
    });
    x.run(cs.size(), [&](uint64_t i) {
        Case &c = cs[i];
        size_t before = tw_env_allocated(Env);
        if (c.fault == 1)
            faults(c.bin, c.lo, c.hi);
        else if (c.fault == 2)
            badpaths(c.bin);
        else
            one(c.family, c.bin, c.what);
        if (tw_env_allocated(Env) != before)
            X->fail("memory leaked");
    });
    x.sample("two element segments, passive externref expressions and active functions on table 2");
    x.sample("file size limit at byte 4097 of the output: the write has to be reported as failed");
    return x.finish();
}
