/*
 * Dynamic linking.  Sets of modules are generated together with a model of
 * how they have to be linked: which modules are loaded and in which order,
 * who provides each symbol, and what a module may assume about its addresses.
 * The modules report what they see through a host function.
 *
 * Addresses are not predicted: regions have to be aligned, inside the memory
 * or table, disjoint, and still to contain what their module put there.
 */
#include <algorithm>
#include <functional>
#include <set>
#include <string.h>
#include "common/dyldc.h"
#include "common/mc.hpp"
#include "common/scratch.hpp"
#include "common/wb.hpp"

using namespace wb;
typedef std::string Str;
static mc::Explorer *X;
static int c_loads, c_calls;
static tw_env *Env;
static Str Dir;
static scratch::Root *R;

static const uint32_t PAGE = 65536, NOVAL = 0xdeadbeef;

enum { E_FUNC, E_I32, E_MUTI32, E_I64, E_BADFUNC };
enum { U_ENV, U_GOTFUNC, U_GOTMEM };
struct Exp {
    Str name;
    int kind;
    uint32_t idx; /* which function, or the offset of the datum */
};
struct Use {
    Str name;
    int kind;
    bool weak;
};
enum { CT_NONE, CT_CTORS, CT_INIT };
/* ways in which a module is unusable */
enum { B_NONE, B_NODYLINK, B_GARBAGE, B_TRUNC, B_IMPORT, B_START, B_RELOCSIG, B_CTORSIG, B_RELOCTRAP, B_CTORTRAP, B_EMPTY, B_DIR, B_ELEM, B_DATA, NBAD };
struct Mod {
    int id = 0;
    Str file;
    std::vector<Str> needs;
    uint32_t msz = 16, mal = 0, tsz = 1, tal = 0;
    bool fill = true;
    std::vector<Exp> exps;
    std::vector<Use> uses;
    int ctor = CT_CTORS;
    bool reloc = true, lay = false, dl = false, dlexp = false;
    bool pie = true; /* false: a main module with its own memory */
    int shift = 16;
    int bad = B_NONE;
    Str opens; /* loads this from its constructor */
};
struct World {
    std::vector<Mod> mods; /* [0] is the main module */
    bool bindnow = false;
    uint32_t stack = 4096;
    bool nobase = false;
    bool mayfail = false, mustfail = false;
};

struct Log {
    int id, code;
    uint32_t v;
};
static std::vector<Log> Logs;
enum { L_RELOC = 1, L_CTOR, L_MBASE, L_TBASE, L_SP, L_SLOW, L_SHIGH, L_HBASE, L_HEND, L_CTOREND, L_NEST, L_VAL = 32, L_CALL = 64 };

static int hlog(void *, struct exec_context *, const twv *a, twv *)
{
    Logs.push_back({(int)((uint32_t)a[0].lo >> 8), (int)((uint32_t)a[0].lo & 255), (uint32_t)a[1].lo});
    return 0;
}

static std::vector<Str> Opened;
static bool Recording;
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int fl, ...)
{
    mode_t mode = 0;
    if (fl & O_CREAT) {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (Recording)
        Opened.push_back(p);
    return __real_open(p, fl, mode);
}

static uint32_t fval(int id, uint32_t k) { return (uint32_t)id * 100 + k; }
static const FT VI = {{}, {T_I32}}, VV = {{}, {}}, II = {{T_I32}, {T_I32}}, IIV = {{T_I32, T_I32}, {}}, VL = {{}, {T_I64}};

static Bytes dylink(const Mod &m)
{
    Bytes c;
    name(c, "dylink.0");
    Bytes s;
    uleb(s, m.msz);
    uleb(s, m.mal);
    uleb(s, m.tsz);
    uleb(s, m.tal);
    section(c, 1, s);
    s.clear();
    uleb(s, m.needs.size());
    for (auto &n : m.needs)
        name(s, n);
    if (!m.needs.empty())
        section(c, 2, s);
    s.clear();
    uint32_t n = 0;
    Bytes e;
    auto info = [&](const char *mod, const Str &nm, unsigned flags) {
        n++;
        name(e, mod);
        name(e, nm);
        uleb(e, flags);
    };
    for (auto &u : m.uses) {
        if (m.id == 1) {
            info("other", u.name, u.weak ? 0x10 : 0x11);
            info("env", u.name + "x", u.weak ? 0x10 : 0x11);
        }
        /* weak ones have to be listed, others may be */
        if (u.weak)
            info("env", u.name, 0x11);
        else if (m.id != 2)
            info("env", u.name, 0x10);
    }
    if (n) {
        uleb(s, n);
        cat(s, e);
        section(c, 4, s);
    }
    Bytes out;
    Module::header(out);
    section(out, 0, c);
    return out;
}

static Bytes build(const Mod &m)
{
    Module w;
    auto impg = [&](const char *mod, const Str &n, bool mut) {
        Import i;
        i.mod = mod;
        i.name = n;
        i.kind = 3;
        i.vt = T_I32;
        i.mut = mut;
        w.imports.push_back(i);
        return w.nimp(3) - 1;
    };
    auto impf = [&](const char *mod, const Str &n, const FT &t) {
        Import i;
        i.mod = mod;
        i.name = n;
        i.kind = 0;
        i.typeidx = w.type(t);
        w.imports.push_back(i);
        return w.nimp(0) - 1;
    };
    uint32_t g_mb = 0, g_tb = 0, g_sp = 0;
    if (m.pie) {
        Import i;
        i.mod = "env";
        i.name = "memory";
        i.kind = 2;
        if (m.shift != 16) {
            i.l.custom = true;
            i.l.shift = (unsigned)m.shift;
        }
        w.imports.push_back(i);
        Import t;
        t.mod = "env";
        t.name = "__indirect_function_table";
        t.kind = 1;
        t.vt = T_FUNCREF;
        w.imports.push_back(t);
        g_sp = impg("env", "__stack_pointer", true);
        g_mb = impg("env", "__memory_base", false);
        g_tb = impg("env", "__table_base", false);
    }
    bool host = !(m.reloc == false && m.ctor == CT_NONE);
    uint32_t f_log = host ? impf("host", "log", IIV) : 0, f_open = 0, f_sym = 0;
    if (m.dl) {
        /* a main module with its own memory gets them from a library */
        f_open = impf(m.pie ? "dyld" : "env", m.pie ? "load_object" : "dlo", {{T_I32, T_I32, T_I32, T_I32}, {T_I32}});
        f_sym = impf(m.pie ? "dyld" : "env", m.pie ? "resolve_symbol" : "dls", {{T_I32, T_I32, T_I32, T_I32, T_I32}, {T_I32}});
    }
    if (m.bad == B_IMPORT)
        impf("host", "nonexistent", IIV);
    uint32_t lay[4] = {};
    if (m.lay) {
        static const char *n[4] = {"__stack_low", "__stack_high", "__heap_base", "__heap_end"};
        for (int k = 0; k < 4; k++)
            lay[k] = impg("GOT.mem", n[k], true);
    }
    std::vector<uint32_t> ui;
    for (auto &u : m.uses) {
        if (u.kind == U_ENV)
            ui.push_back(impf("env", u.name, VI));
        else
            ui.push_back(impg(u.kind == U_GOTFUNC ? "GOT.func" : "GOT.mem", u.name, true));
    }
    uint32_t ng = w.nimp(3);
    auto defg = [&](uint8_t t, bool mut, uint64_t v) {
        Global g;
        g.t = t;
        g.mut = mut;
        if (t == T_I32)
            i32c(g.init, (uint32_t)v);
        else
            i64c(g.init, v);
        w.globals.push_back(g);
        return ng + (uint32_t)w.globals.size() - 1;
    };
    if (!m.pie) {
        Lim l;
        l.min = (1024 + (uint64_t)m.msz + PAGE - 1) / PAGE;
        w.mems.push_back(l);
        Table t;
        t.t = T_FUNCREF;
        t.l.min = 1 + m.tsz;
        w.tables.push_back(t);
        w.exp("memory", 2, 0);
        w.exp("__indirect_function_table", 1, 0);
        g_sp = defg(T_I32, true, 512);
        w.exp("__stack_pointer", 3, g_sp);
        static const char *n[4] = {"__stack_low", "__stack_high", "__heap_base", "__heap_end"};
        for (uint32_t k = 0; k < 4; k++)
            w.exp(n[k], 3, defg(T_I32, false, k == 0 ? 16 : k == 1 ? 512 : k == 2 ? 600 : 900));
    }
    /* exported functions 0..9 and bad ones, then table functions */
    uint32_t nf = 0, nfuncs[10];
    for (auto &e : m.exps)
        if (e.kind == E_FUNC)
            nf = std::max(nf, e.idx + 1);
    for (uint32_t k = 0; k < nf; k++) {
        Bytes b;
        i32c(b, fval(m.id, k));
        nfuncs[k] = w.func(VI, b);
    }
    uint32_t badf = NOVAL;
    for (auto &e : m.exps) {
        switch (e.kind) {
        case E_FUNC: w.exp(e.name, 0, nfuncs[e.idx]); break;
        case E_BADFUNC:
            if (badf == NOVAL) {
                Bytes b;
                i64c(b, 7);
                badf = w.func(VL, b);
            }
            w.exp(e.name, 0, badf);
            break;
        case E_I32: w.exp(e.name, 3, defg(T_I32, false, e.idx)); break;
        case E_MUTI32: w.exp(e.name, 3, defg(T_I32, true, e.idx)); break;
        case E_I64: w.exp(e.name, 3, defg(T_I64, false, e.idx)); break;
        }
    }
    std::vector<uint32_t> tf;
    if (m.tsz <= 64)
        for (uint32_t k = 0; k < m.tsz; k++) {
            Bytes b;
            i32c(b, fval(m.id, 50 + k));
            tf.push_back(w.func(VI, b));
        }
    if (!tf.empty() || m.bad == B_ELEM) {
        Elem e;
        if (m.pie)
            gget(e.off, g_tb);
        else
            i32c(e.off, 1);
        e.funcs = tf;
        if (m.bad == B_ELEM) {
            e.off.clear();
            i32c(e.off, 0xfffffff0);
            e.funcs.push_back(0);
        }
        w.elems.push_back(e);
    }
    if (m.fill && m.msz) {
        Data d;
        if (m.pie)
            gget(d.off, g_mb);
        else
            i32c(d.off, 1024);
        d.bytes.assign(m.msz, (uint8_t)(m.id + 1));
        if (!m.opens.empty())
            memcpy(d.bytes.data(), m.opens.data(), m.opens.size());
        w.datas.push_back(d);
    }
    if (m.bad == B_DATA) {
        Data d;
        i32c(d.off, 0xfffffff0);
        d.bytes.assign(3, 1);
        w.datas.push_back(d);
    }
    /* what is reported */
    Bytes b;
    auto log = [&](Bytes &b, int code, const std::function<void(Bytes &)> &v) {
        i32c(b, (uint32_t)m.id << 8 | (uint32_t)code);
        v(b);
        u8(b, 0x10);
        uleb(b, f_log);
    };
    auto logg = [&](Bytes &b, int code, uint32_t g) {
        log(b, code, [&](Bytes &b) { gget(b, g); });
    };
    auto logc = [&](Bytes &b, int code) {
        log(b, code, [&](Bytes &b) { i32c(b, 0); });
    };
    if (m.reloc) {
        logc(b, L_RELOC);
        if (m.pie) {
            logg(b, L_MBASE, g_mb);
            logg(b, L_TBASE, g_tb);
        }
        logg(b, L_SP, g_sp);
        if (m.lay)
            for (int k = 0; k < 4; k++)
                logg(b, L_SLOW + k, lay[k]);
        for (size_t k = 0; k < m.uses.size(); k++)
            if (m.uses[k].kind != U_ENV)
                logg(b, L_VAL + (int)k, ui[k]);
        if (m.bad == B_RELOCTRAP)
            u8(b, 0);
        if (m.bad == B_RELOCSIG) {
            i32c(b, 0);
            w.exp("__wasm_apply_data_relocs", 0, w.func(VI, b));
        } else
            w.exp("__wasm_apply_data_relocs", 0, w.func(VV, b));
    }
    if (m.ctor != CT_NONE) {
        b.clear();
        logc(b, L_CTOR);
        for (size_t k = 0; k < m.uses.size(); k++) {
            if (m.uses[k].kind == U_ENV)
                log(b, L_CALL + (int)k, [&](Bytes &b) {
                    u8(b, 0x10);
                    uleb(b, ui[k]);
                });
            else if (m.uses[k].kind == U_GOTFUNC) {
                gget(b, ui[k]);
                u8(b, 0x04); /* if */
                u8(b, 0x40);
                log(b, L_CALL + (int)k, [&](Bytes &b) {
                    gget(b, ui[k]);
                    u8(b, 0x11);
                    uleb(b, w.type(VI));
                    uleb(b, 0);
                });
                u8(b, 0x0b);
            }
        }
        if (!m.opens.empty())
            log(b, L_NEST, [&](Bytes &b) {
                gget(b, g_mb);
                i32c(b, (uint32_t)m.opens.size());
                i32c(b, 0);
                gget(b, g_mb);
                i32c(b, (m.msz - 4) & ~3u);
                u8(b, 0x6a);
                u8(b, 0x10);
                uleb(b, f_open);
            });
        if (m.bad == B_CTORTRAP)
            u8(b, 0);
        logc(b, L_CTOREND);
        if (m.bad == B_CTORSIG) {
            u8(b, 0x1a); /* unused parameter: see the type */
            b.pop_back();
        }
        w.exp(m.ctor == CT_INIT ? "_initialize" : "__wasm_call_ctors", 0, w.func(m.bad == B_CTORSIG ? FT{{T_I32}, {}} : VV, b));
    }
    if (m.dlexp) {
        w.exp("dlo", 0, f_open);
        w.exp("dls", 0, f_sym);
    }
    if (m.id == 0) {
        b.clear();
        lget(b, 0);
        u8(b, 0x11);
        uleb(b, w.type(VI));
        uleb(b, 0);
        w.exp("calli", 0, w.func(II, b));
        if (m.dl) {
            b.clear();
            for (uint32_t k = 0; k < 4; k++)
                lget(b, k);
            u8(b, 0x10);
            uleb(b, f_open);
            w.exp("open", 0, w.func({{T_I32, T_I32, T_I32, T_I32}, {T_I32}}, b));
            b.clear();
            for (uint32_t k = 0; k < 5; k++)
                lget(b, k);
            u8(b, 0x10);
            uleb(b, f_sym);
            w.exp("sym", 0, w.func({{T_I32, T_I32, T_I32, T_I32, T_I32}, {T_I32}}, b));
            b.clear();
            lget(b, 0);
            u8(b, 0x40); /* memory.grow */
            u8(b, 0);
            w.exp("growm", 0, w.func(II, b));
            b.clear();
            u8(b, 0xd0);
            u8(b, T_FUNCREF);
            lget(b, 0);
            u8(b, 0xfc); /* table.grow */
            uleb(b, 15);
            uleb(b, 0);
            w.exp("growt", 0, w.func(II, b));
        }
    }
    if (m.bad == B_START) {
        b.clear();
        u8(b, 0);
        w.start = (int64_t)w.func(VV, b);
    }
    Bytes enc = w.encode();
    if (m.bad == B_NODYLINK)
        return enc;
    Bytes out = dylink(m);
    out.insert(out.end(), enc.begin() + 8, enc.end());
    if (m.bad == B_GARBAGE)
        out[3] = 'x';
    if (m.bad == B_TRUNC)
        out.resize(out.size() - 2);
    if (m.bad == B_EMPTY)
        out.clear();
    return out;
}

static std::map<Str, Bytes> Files;
static void put(const Str &path, const Bytes &b)
{
    auto it = Files.find(path);
    if (it != Files.end() && it->second == b)
        return;
    Files[path] = b;
    int fd = __real_open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size())
        abort();
    close(fd);
}
static void gone(const Str &path)
{
    Files.erase(path);
    rmdir(path.c_str());
    unlink(path.c_str());
}

/* -- observation ------------------------------------------------------- */
struct Region {
    uint64_t lo, hi;
    Str what;
};
static bool disjoint(std::vector<Region> v)
{
    std::sort(v.begin(), v.end(), [](const Region &a, const Region &b) { return a.lo < b.lo; });
    const Region *prev = nullptr;
    for (auto &r : v) {
        if (r.lo == r.hi)
            continue;
        if (prev && r.lo < prev->hi) {
            X->fail("%s [%" PRIx64 ",%" PRIx64 ") and %s [%" PRIx64 ",%" PRIx64 ") overlap", prev->what.c_str(), prev->lo, prev->hi, r.what.c_str(), r.lo, r.hi);
            return false;
        }
        prev = &r;
    }
    return true;
}
static bool aligned(uint32_t a, uint32_t log)
{
    return log >= 32 ? a == 0 : (a & ((1u << log) - 1)) == 0;
}
static int calli(dz *z, uint32_t slot, uint32_t *v, int *trap)
{
    uint32_t f;
    if (tw_find_export(dz_main(z), "calli", 0, &f) != 0)
        abort();
    twv a = {slot, 0}, r = {0, 0};
    X->add(c_calls);
    int e = tw_call(dz_main(z), f, &a, &r, nullptr, trap);
    *v = (uint32_t)r.lo;
    return e;
}
static bool filled(dz *z, uint64_t lo, uint64_t n, uint8_t v, const char *what, size_t skip = 0, size_t skipend = 0)
{
    static std::vector<uint8_t> buf;
    buf.resize(n);
    if (n == 0)
        return true;
    if (tw_mem_read(dz_main(z), 0, lo, buf.data(), n) != 0) {
        X->fail("%s is not inside the memory", what);
        return false;
    }
    for (size_t k = skip; k + skipend < n; k++)
        if (buf[k] != v) {
            X->fail("%s byte %zu is %u instead of %u", what, k, buf[k], v);
            return false;
        }
    return true;
}
struct Inst {
    const Mod *m;
    uint32_t mb = 0, tb = 0;
    bool known = false;
};
/* one module's own regions */
static bool check_inst(dz *z, const Inst &i, std::vector<Region> &mr, std::vector<Region> &tr)
{
    const Mod &m = *i.m;
    Str n = mc::fmt("module %d", m.id);
    if (m.pie && !i.known)
        return true;
    uint32_t mb = m.pie ? i.mb : 1024, tb = m.pie ? i.tb : 1;
    if (m.pie && (!aligned(mb, m.mal) || (m.tsz && !aligned(tb, m.tal)))) {
        X->fail("%s: base %x (2^%u) or table base %x (2^%u) is not aligned", n.c_str(), mb, m.mal, tb, m.tal);
        return false;
    }
    if ((uint64_t)mb + m.msz > dz_memsize(z)) {
        X->fail("%s: [%x,+%x) is outside the memory of %" PRIx64, n.c_str(), mb, m.msz, dz_memsize(z));
        return false;
    }
    if ((uint64_t)tb + m.tsz > dz_tabsize(z)) {
        X->fail("%s: [%x,+%x) is outside the table of %x", n.c_str(), tb, m.tsz, dz_tabsize(z));
        return false;
    }
    mr.push_back({mb, (uint64_t)mb + m.msz, n});
    tr.push_back({tb, (uint64_t)tb + m.tsz, n});
    if (m.fill && !filled(z, mb, m.msz, (uint8_t)(m.id + 1), n.c_str(), m.opens.size(), m.opens.empty() ? 0 : 8))
        return false;
    if (m.tsz <= 64)
        for (uint32_t k = 0; k < m.tsz; k++) {
            uint32_t v;
            int trap;
            int e = calli(z, tb + k, &v, &trap);
            if (e != 0 || v != fval(m.id, 50 + k)) {
                X->fail("%s: table entry %u gives %d (%s), %u", n.c_str(), k, e, tw_trap_name(trap), v);
                return false;
            }
        }
    return true;
}

/* -- the model --------------------------------------------------------- */
static const Mod *byname(const World &w, const Str &n)
{
    for (size_t i = 1; i < w.mods.size(); i++)
        if (w.mods[i].file == n)
            return &w.mods[i];
    return nullptr;
}
static const Exp *findexp(const Mod &m, const Str &n, bool func)
{
    for (auto &e : m.exps)
        if (e.name == n) {
            if (func && (e.kind == E_FUNC || e.kind == E_BADFUNC))
                return &e;
            if (!func && e.kind == E_I32)
                return &e;
        }
    return nullptr;
}
static const Mod *owner(const std::vector<const Mod *> &L, const Str &n, bool func, const Exp **e)
{
    for (auto m : L)
        if ((*e = findexp(*m, n, func)))
            return m;
    return nullptr;
}

static Str show(const World &w)
{
    Str s = mc::fmt("%s%sstack=%u ", w.mods[0].pie ? "" : "nonpie ", w.bindnow ? "bindnow " : "", w.stack);
    for (auto &m : w.mods) {
        s += mc::fmt("{%d %s needs[", m.id, m.file.c_str());
        for (auto &n : m.needs)
            s += n + " ";
        s += mc::fmt("] mem %x/%u tab %x/%u", m.msz, m.mal, m.tsz, m.tal);
        for (auto &e : m.exps)
            s += mc::fmt(" exp %s:%d:%u", e.name.c_str(), e.kind, e.idx);
        for (auto &u : m.uses)
            s += mc::fmt(" use %s:%d%s", u.name.c_str(), u.kind, u.weak ? "w" : "");
        if (m.bad)
            s += mc::fmt(" bad %d", m.bad);
        s += "} ";
    }
    return s;
}

static Str Ctx;
#define FAIL(f, ...) X->fail("%s: " f, Ctx.c_str(), ##__VA_ARGS__)

static void run_world(const World &w, tw_imports *base)
{
    Ctx = show(w);
    /* model: what is loaded, and does that work */
    std::vector<const Mod *> L{&w.mods[0]};
    bool lfail = w.mods[0].bad && w.mods[0].bad != B_RELOCSIG && w.mods[0].bad != B_CTORSIG && w.mods[0].bad != B_RELOCTRAP && w.mods[0].bad != B_CTORTRAP;
    bool ifail = w.mods[0].bad && !lfail;
    for (size_t i = 0; i < L.size() && !lfail; i++)
        for (auto &n : L[i]->needs) {
            const Mod *m = byname(w, n);
            if (!m) {
                lfail = true;
                break;
            }
            if (std::find(L.begin() + 1, L.end(), m) != L.end())
                continue;
            if (m->bad) {
                if (m->bad == B_RELOCSIG || m->bad == B_CTORSIG || m->bad == B_RELOCTRAP || m->bad == B_CTORTRAP)
                    ifail = true;
                else
                    lfail = true;
            }
            L.push_back(m);
        }
    if (!lfail)
        for (auto m : L)
            for (auto &u : m->uses) {
                const Exp *e;
                const Mod *o = owner(L, u.name, u.kind != U_GOTMEM, &e);
                if (u.weak)
                    continue;
                if (u.kind != U_ENV && !o)
                    lfail = true;
                if (u.kind == U_ENV && w.bindnow && (!o || e->kind != E_FUNC))
                    lfail = true;
            }
    for (auto &m : w.mods) {
        Str p = Dir + "/" + m.file;
        if (m.bad == B_DIR) {
            gone(p);
            mkdir(p.c_str(), 0700);
        } else
            put(p, build(m));
    }
    const char *paths[1] = {Dir.c_str()};
    struct dz_opts o = {paths, 1, w.stack, w.bindnow, 0};
    Logs.clear();
    dz *z = dz_new(Env, w.nobase ? nullptr : base, &o);
    int e = dz_load(z, (Dir + "/" + w.mods[0].file).c_str());
    X->add(c_loads);
    for (auto &m : w.mods)
        if (m.bad == B_DIR)
            gone(Dir + "/" + m.file);
    X->outcome(mc::fnv(Ctx));
    if (!Logs.empty())
        FAIL("code ran during loading");
    if (w.mustfail ? e == 0 : w.mayfail ? false : (e != 0) != lfail) {
        FAIL("loading gives %d", e);
        dz_free(z);
        return;
    }
    if (e != 0) {
        dz_free(z);
        return;
    }
    e = dz_init(z);
    /* relocations come first */
    std::map<int, Inst> inst;
    std::map<int, std::vector<Log>> per;
    std::vector<int> rel, ctor, done;
    for (auto &l : Logs) {
        per[l.id].push_back(l);
        if (l.code == L_RELOC) {
            rel.push_back(l.id);
            if (!ctor.empty())
                FAIL("relocation of %d after a constructor", l.id);
        } else if (l.code == L_CTOR)
            ctor.push_back(l.id);
        else if (l.code == L_CTOREND)
            done.push_back(l.id);
    }
    auto reach = [&](const Mod *a, const Mod *b) {
        std::set<const Mod *> seen{a};
        std::vector<const Mod *> st{a};
        while (!st.empty()) {
            const Mod *m = st.back();
            st.pop_back();
            for (auto &n : m->needs) {
                const Mod *t = byname(w, n);
                if (t == b)
                    return true;
                if (seen.insert(t).second)
                    st.push_back(t);
            }
        }
        return false;
    };
    auto pos = [](const std::vector<int> &v, int id) { return std::find(v.begin(), v.end(), id) - v.begin(); };
    /* who has to fail, whenever its turn comes */
    auto callfails = [&](const Mod *m) {
        for (auto &u : m->uses) {
            if (u.kind == U_GOTMEM)
                continue;
            const Exp *x;
            const Mod *o = owner(L, u.name, true, &x);
            if (u.kind == U_GOTFUNC && !o)
                continue;
            if (!o || x->kind != E_FUNC)
                return true;
        }
        return m->bad == B_CTORTRAP;
    };
    bool anyfail = ifail;
    for (auto m : L)
        anyfail |= m->ctor != CT_NONE && callfails(m);
    if ((e != 0) != anyfail)
        FAIL("initialisation gives %d", e);
    if (!ctor.empty())
        for (size_t i = 0; i + 1 < ctor.size(); i++)
            if (pos(done, ctor[i]) == (ptrdiff_t)done.size())
                FAIL("module %d's constructor did not end but others ran", ctor[i]);
    for (auto v : {&rel, &ctor}) {
        std::set<int> s(v->begin(), v->end());
        if (s.size() != v->size())
            FAIL("something ran twice");
    }
    for (auto m : L) {
        bool r = pos(rel, m->id) < (ptrdiff_t)rel.size(), c = pos(ctor, m->id) < (ptrdiff_t)ctor.size();
        if (e == 0 && (r != m->reloc || c != (m->ctor != CT_NONE)))
            FAIL("module %d: relocation ran %d, constructor ran %d", m->id, r, c);
        for (auto n : L)
            if (std::find(m->needs.begin(), m->needs.end(), n->file) != m->needs.end() && n != m && !reach(n, m)) {
                /* no cycle: n before m */
                if (r && n->reloc && pos(rel, n->id) > pos(rel, m->id))
                    FAIL("relocation of %d before its dependency %d", m->id, n->id);
                if (c && n->ctor != CT_NONE && pos(ctor, n->id) > pos(ctor, m->id))
                    FAIL("constructor of %d before its dependency %d", m->id, n->id);
            }
        if (pos(done, m->id) < (ptrdiff_t)done.size() && callfails(m))
            FAIL("module %d called what cannot be called", m->id);
    }
    for (auto &p : per) {
        bool in = false;
        for (auto m : L)
            in |= m->id == p.first;
        if (!in)
            FAIL("module %d ran", p.first);
    }
    /* regions */
    for (auto m : L) {
        Inst &i = inst[m->id];
        i.m = m;
        for (auto &l : per[m->id]) {
            if (l.code == L_MBASE)
                i.mb = l.v;
            if (l.code == L_TBASE) {
                i.tb = l.v;
                i.known = true;
            }
        }
    }
    std::vector<Region> mr, tr{{0, 1, "the null entry"}};
    for (auto &p : inst)
        if (!check_inst(z, p.second, mr, tr))
            FAIL("layout");
    uint32_t v;
    int trap;
    if (calli(z, 0, &v, &trap) == 0)
        FAIL("table entry 0 is callable");
    uint32_t layv[4];
    bool havelay = false;
    for (auto m : L)
        for (auto &l : per[m->id]) {
            if (l.code == L_SP && w.mods[0].pie && !aligned(l.v, 4))
                FAIL("stack pointer %x", l.v);
            if (l.code >= L_SLOW && l.code <= L_HEND) {
                if (havelay && layv[l.code - L_SLOW] != l.v)
                    FAIL("modules see different layouts");
                layv[l.code - L_SLOW] = l.v;
                if (l.code == L_HEND)
                    havelay = true;
                if (!w.mods[0].pie) {
                    static const uint32_t want[4] = {16, 512, 600, 900};
                    if (l.v != want[l.code - L_SLOW])
                        FAIL("module %d sees layout value %d as %u", m->id, l.code - L_SLOW, l.v);
                }
            }
        }
    if (havelay && w.mods[0].pie) {
        for (auto m : L)
            for (auto &l : per[m->id])
                if (l.code == L_SP && l.v != layv[1])
                    FAIL("stack pointer %x instead of %x", l.v, layv[1]);
        if (layv[1] < layv[0] || layv[1] - layv[0] < w.stack)
            FAIL("stack %x - %x", layv[0], layv[1]);
        if (layv[3] < layv[2] || layv[3] > dz_memsize(z))
            FAIL("heap %x - %x", layv[2], layv[3]);
        mr.push_back({layv[0], layv[1], "the stack"});
        mr.push_back({layv[2], layv[3], "the heap"});
    }
    /* symbols */
    std::map<std::pair<int, uint32_t>, uint32_t> slot;
    std::map<uint32_t, std::pair<int, uint32_t>> fn;
    for (auto m : L) {
        for (auto &l : per[m->id]) {
            if (l.code < L_VAL)
                continue;
            const Use &u = m->uses[(size_t)(l.code & 31)];
            const Exp *x = nullptr;
            const Mod *o = owner(L, u.name, u.kind != U_GOTMEM, &x);
            if (l.code >= L_CALL) {
                if (!o || x->kind != E_FUNC || l.v != fval(o->id, x->idx))
                    FAIL("module %d: calling %s gives %u", m->id, u.name.c_str(), l.v);
                continue;
            }
            if (!o) {
                if (l.v != 0)
                    FAIL("module %d: missing %s has address %x", m->id, u.name.c_str(), l.v);
                continue;
            }
            if (u.kind == U_GOTMEM) {
                const Inst &i = inst[o->id];
                if (o->pie && !i.known)
                    continue;
                if (l.v != (o->pie ? i.mb : 0) + x->idx)
                    FAIL("module %d: address of %s is %x, not %x+%x of module %d", m->id, u.name.c_str(), l.v, i.mb, x->idx, o->id);
                continue;
            }
            auto key = std::make_pair(o->id, x->kind == E_BADFUNC ? 99u : x->idx);
            if (slot.count(key) && slot[key] != l.v)
                FAIL("function %d.%u has table entries %u and %u", key.first, key.second, slot[key], l.v);
            if (fn.count(l.v) && fn[l.v] != key)
                FAIL("functions %d.%u and %d.%u share table entry %u", key.first, key.second, fn[l.v].first, fn[l.v].second, l.v);
            if (!slot.count(key))
                tr.push_back({l.v, (uint64_t)l.v + 1, mc::fmt("function %d.%u", key.first, key.second)});
            slot[key] = l.v;
            fn[l.v] = key;
            int ee = calli(z, l.v, &v, &trap);
            if (x->kind == E_FUNC ? ee != 0 || v != fval(o->id, x->idx) : !(ee == TW_TRAP && trap == TWT_CI_TYPE))
                FAIL("module %d: address %u of %s gives %d (%s), %u", m->id, l.v, u.name.c_str(), ee, tw_trap_name(trap), v);
        }
    }
    if (!disjoint(mr) || !disjoint(tr))
        FAIL("layout");
    dz_free(z);
}

static std::vector<std::function<void(tw_imports *)>> Cases;
static void world(const World &w)
{
    Cases.push_back([w](tw_imports *b) { run_world(w, b); });
}

static Mod mk(int id, const Str &f)
{
    Mod m;
    m.id = id;
    m.file = f;
    return m;
}
#include "common/dyldcases.hpp"

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "dyld");
    X = &x;
    c_loads = x.counter("loads");
    c_calls = x.counter("calls");
    gen(x.opt.thorough());
    scratch::Root root;
    R = &root;
    x.worker_init.push_back([](int w) {
        Dir = R->enter(w);
        Env = tw_env_new();
        tw_env_setlimit(Env, 128u << 20);
    });
    x.run(Cases.size(), [&](uint64_t i) {
        size_t before = tw_env_allocated(Env);
        static const uint8_t pt[2] = {T_I32, T_I32};
        tw_imports *base = tw_imports_new(Env);
        tw_imports_add_host(base, "host", "log", pt, 2, nullptr, 0, hlog, nullptr);
        Cases[i](base);
        tw_imports_free(base);
        if (tw_env_allocated(Env) != before)
            X->fail("%s: memory leaked", Ctx.c_str());
    });
    root.done();
    x.sample("main needs a and b, a needs b and a, b needs c: each library is loaded once and initialised after what it needs");
    x.sample("f is exported by a with another type and by b: an eager binding fails, a lazy one traps at the call");
    x.sample("main grows its memory, opens y (which needs x), opens x again: nothing overlaps");
    return x.finish();
}
