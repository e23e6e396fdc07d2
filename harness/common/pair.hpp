/*
 * The same module in the library and in the reference engine, with mirrored
 * host functions, and comparison of everything observable.
 */
#ifndef VERIF_PAIR_HPP
#define VERIF_PAIR_HPP
#include "mc.hpp"
#include "refwasm.hpp"

namespace pr {
using namespace rw;

struct HostCall {
    int id;
    std::vector<twv> args;
    bool operator==(const HostCall &o) const
    {
        if (id != o.id || args.size() != o.args.size())
            return false;
        for (size_t i = 0; i < args.size(); i++)
            if (args[i].lo != o.args[i].lo || args[i].hi != o.args[i].hi)
                return false;
        return true;
    }
};
static inline std::string vstr(uint8_t t, twv v)
{
    switch (t) {
    case T_I32: case T_F32: return mc::fmt("%08x", (unsigned)v.lo);
    case T_V128: return mc::fmt("%016llx:%016llx", (unsigned long long)v.hi, (unsigned long long)v.lo);
    default: return mc::fmt("%llx", (unsigned long long)v.lo);
    }
}
static inline std::string callstr(const std::vector<HostCall> &v)
{
    std::string s;
    for (auto &c : v) {
        s += mc::fmt(" h%d(", c.id);
        for (auto &a : c.args)
            s += mc::fmt("%s%llx", &a == &c.args[0] ? "" : ",", (unsigned long long)a.lo);
        s += ")";
    }
    return s.empty() ? " none" : s;
}

/* a host function: results are a fixed function of the arguments */
struct Host {
    std::string mod, name;
    FT ft;
    std::function<int(const std::vector<twv> &, std::vector<twv> &)> f; /* 0, 1: trap */
};

/* ways of interrupting: periodically, and once at each of the first points */
static inline std::vector<struct tw_exec> intr_modes(unsigned periodic, unsigned single)
{
    std::vector<struct tw_exec> v;
    struct tw_exec x;
    for (unsigned d = 1; d <= periodic; d++) {
        memset(&x, 0, sizeof(x));
        x.intr = 1;
        x.check_interval = 1;
        x.intr_delay = d;
        v.push_back(x);
    }
    for (unsigned k = 0; k < single; k++) {
        memset(&x, 0, sizeof(x));
        x.intr = 1;
        x.check_interval = 1;
        x.intr_delay = k;
        x.intr_max = 1;
        v.push_back(x);
    }
    return v;
}
static inline std::string mode_str(const struct tw_exec &x)
{
    if (!x.intr)
        return "";
    if (x.abandon)
        return mc::fmt(", abandoned at check %u", x.intr_delay);
    return x.intr_max ? mc::fmt(", interrupted at check %u", x.intr_delay) : mc::fmt(", interrupted every %u checks", x.intr_delay + 1);
}

struct Pair;
struct HostSlot {
    Pair *p;
    int id;
};

struct Pair {
    Module m;
    std::vector<Host> hosts; /* must be the function imports, in order */
    std::shared_ptr<Module> ex; /* provides the other imports, by export name */
    tw_mod *exmod = nullptr;
    tw_inst *exinst = nullptr;
    tw_env *env = nullptr;
    bool own_env = false;
    tw_mod *mod = nullptr;
    tw_inst *inst = nullptr;
    tw_imports *im = nullptr;
    std::unique_ptr<Machine> ref;
    RInst *ri = nullptr;
    std::vector<HostCall> tlog, rlog;
    std::vector<HostSlot> slots;
    unsigned opts = 0;
    std::string msg;
    int load_err = 0;
    uint32_t max_frames = 200;
    struct tw_exec xt;

    Pair(tw_env *e = nullptr) : env(e)
    {
        if (!env) {
            env = tw_env_new();
            own_env = true;
        }
        memset(&xt, 0, sizeof(xt));
    }
    ~Pair()
    {
        reset();
        if (own_env)
            tw_env_free(env);
    }
    void reset()
    {
        tw_inst_destroy(inst);
        inst = nullptr;
        tw_imports_free(im);
        im = nullptr;
        tw_inst_destroy(exinst);
        exinst = nullptr;
        tw_unload(exmod);
        exmod = nullptr;
        tw_unload(mod);
        mod = nullptr;
    }
    bool load(const Bytes &b)
    {
        char buf[300];
        mod = tw_load(env, b.data(), b.size(), opts, &load_err, buf, sizeof(buf));
        msg = buf;
        return mod != nullptr;
    }
    static int thunk(void *user, struct exec_context *ctx, const twv *args, twv *results)
    {
        HostSlot *s = (HostSlot *)user;
        const Host &h = s->p->hosts[(size_t)s->id];
        HostCall c;
        c.id = s->id;
        c.args.assign(args, args + h.ft.p.size());
        for (size_t i = 0; i < c.args.size(); i++)
            if (h.ft.p[i] == T_FUNCREF)
                c.args[i] = {s->p->norm_func(c.args[i].lo), 0};
        s->p->tlog.push_back(c);
        std::vector<twv> r(h.ft.r.size());
        if (h.f) {
            int x = h.f(c.args, r);
            if (x)
                return tw_host_trap(ctx, "host");
        }
        for (size_t i = 0; i < r.size(); i++)
            results[i] = r[i];
        return 0;
    }
    /* function identity as (index + 1), 0 for null, ~0 for unknown */
    uint64_t norm_func(uint64_t p)
    {
        if (p == 0)
            return 0;
        if (!inst)
            return ~0ull;
        uint32_t n = m.nimp(0) + (uint32_t)m.funcs.size();
        for (uint32_t i = 0; i < n; i++)
            if (tw_func_identity(inst, i) == p)
                return i + 1;
        return ~0ull;
    }
    uint64_t norm_rfunc(RFunc *f)
    {
        if (!f)
            return 0;
        for (size_t i = 0; i < ri->funcs.size(); i++)
            if (ri->funcs[i] == f)
                return i + 1;
        return ~0ull;
    }
    twv rnorm(const Val &v)
    {
        if (v.t == T_FUNCREF)
            return {norm_rfunc(v.f), 0};
        if (v.t == T_EXNREF)
            return {v.e ? 1ull : 0ull, 0};
        return v.v;
    }
    twv tnorm(uint8_t t, twv v)
    {
        if (t == T_FUNCREF)
            return {norm_func(v.lo), 0};
        if (t == T_EXNREF)
            return {v.lo != 0, 0};
        return v;
    }
    /* build the reference instance; returns the flow of init */
    int ref_instantiate()
    {
        ref.reset(new Machine);
        ref->max_depth = max_frames;
        Machine::Imports imp;
        for (size_t i = 0; i < hosts.size(); i++) {
            Host &h = hosts[i];
            int id = (int)i;
            imp.funcs.push_back(ref->new_host(h.ft, [this, id](Machine &mm, const std::vector<Val> &a, std::vector<Val> &r) -> int {
                const Host &hh = hosts[(size_t)id];
                HostCall c;
                c.id = id;
                for (auto &v : a)
                    c.args.push_back(rnorm(v));
                rlog.push_back(c);
                std::vector<twv> out(hh.ft.r.size());
                if (hh.f && hh.f(c.args, out)) {
                    mm.trap = TS(TWT_MISC);
                    return -1;
                }
                r.clear();
                for (size_t k = 0; k < out.size(); k++)
                    r.push_back(mk(hh.ft.r[k], out[k].lo, out[k].hi));
                return 0;
            }));
        }
        if (ex) {
            RInst *xi = ref->allocate(*ex, Machine::Imports());
            if (ref->init(xi) != 0)
                abort();
            for (auto &i : m.imports)
                for (auto &e : ex->exports)
                    if (i.kind != 0 && e.kind == i.kind && e.name == i.name)
                        switch (e.kind) {
                        case 1: imp.tables.push_back(xi->tables[e.idx]); break;
                        case 2: imp.mems.push_back(xi->mems[e.idx]); break;
                        case 3: imp.globals.push_back(xi->globals[e.idx]); break;
                        case 4: imp.tags.push_back(xi->tags[e.idx]); break;
                        }
        }
        ri = ref->allocate(m, imp);
        return ref->init(ri);
    }
    bool tw_instantiate_(int &err, int &trap)
    {
        slots.clear();
        im = tw_imports_new(env);
        for (size_t i = 0; i < hosts.size(); i++)
            slots.push_back({this, (int)i});
        for (size_t i = 0; i < hosts.size(); i++)
            tw_imports_add_host(im, hosts[i].mod.c_str(), hosts[i].name.c_str(), hosts[i].ft.p.data(), hosts[i].ft.p.size(), hosts[i].ft.r.data(),
                                hosts[i].ft.r.size(), thunk, &slots[i]);
        if (ex) {
            tw_inst_destroy(exinst);
            exinst = nullptr;
            if (!exmod) {
                Bytes b = ex->encode();
                exmod = tw_load(env, b.data(), b.size(), opts, &err, nullptr, 0);
                if (!exmod)
                    return false;
            }
            exinst = tw_instantiate(exmod, nullptr, &err, &trap);
            if (!exinst)
                return false;
            tw_imports_add_exports(im, exinst, "x");
        }
        inst = tw_instantiate(mod, im, &err, &trap);
        return inst != nullptr;
    }
    static bool val_eq(const Val &r, uint8_t t, twv g)
    {
        if (t == T_V128)
            return r.v.lo == g.lo && r.v.hi == g.hi;
        if (r.nan && t == T_F32)
            return r.nan == 1 ? ref::iscanon<32>(g.lo) : ref::isarith<32>(g.lo);
        if (r.nan && t == T_F64)
            return r.nan == 1 ? ref::iscanon<64>(g.lo) : ref::isarith<64>(g.lo);
        return r.v.lo == g.lo;
    }
    /* compare state; empty string when equal */
    std::string diff_state()
    {
        for (size_t i = 0; i < ri->globals.size(); i++) {
            const Val &v = ri->globals[i]->v;
            twv g = tnorm(v.t, tw_global_get(inst, (uint32_t)i));
            Val rv = v;
            rv.v = rnorm(v);
            if (!val_eq(rv, v.t, g))
                return mc::fmt("global %zu is %s, expected %s", i, vstr(v.t, g).c_str(), vstr(v.t, rv.v).c_str());
        }
        for (size_t i = 0; i < ri->tables.size(); i++) {
            RTable *t = ri->tables[i];
            uint32_t n = tw_table_size(inst, (uint32_t)i);
            if (n != t->e.size())
                return mc::fmt("table %zu has size %u, expected %zu", i, n, t->e.size());
            for (uint32_t k = 0; k < n; k++) {
                twv g = tnorm(t->t, tw_table_get(inst, (uint32_t)i, k));
                twv w = rnorm(t->e[k]);
                if (g.lo != w.lo)
                    return mc::fmt("table %zu entry %u is %llx, expected %llx", i, k, (unsigned long long)g.lo, (unsigned long long)w.lo);
            }
        }
        for (size_t i = 0; i < ri->mems.size(); i++) {
            RMem *mm = ri->mems[i];
            uint32_t n = tw_mem_pages(inst, (uint32_t)i);
            if (n != mm->pages)
                return mc::fmt("memory %zu has %u pages, expected %llu", i, n, (unsigned long long)mm->pages);
            std::vector<uint8_t> buf(mm->b.size());
            if (!buf.empty() && tw_mem_read(inst, (uint32_t)i, 0, buf.data(), buf.size()) != 0)
                return mc::fmt("memory %zu cannot be read in full", i);
            if (buf != mm->b) {
                size_t k = 0;
                while (buf[k] == mm->b[k])
                    k++;
                return mc::fmt("memory %zu byte %zu is %02x, expected %02x", i, k, buf[k], mm->b[k]);
            }
        }
        return "";
    }
    /*
     * call function fidx in both; "" when equal, "?" when the reference
     * did not terminate (the library is not run)
     */
    std::string call(uint32_t fidx, const std::vector<twv> &args, uint64_t *hash = nullptr, uint64_t fuel = 20000)
    {
        RFunc *rf = ri->funcs[fidx];
        std::vector<Val> ra, rr;
        for (size_t i = 0; i < args.size(); i++) {
            Val v = mk(rf->ft.p[i], args[i].lo, args[i].hi);
            if (v.t == T_FUNCREF && args[i].lo)
                v.f = ri->funcs[args[i].lo - 1];
            ra.push_back(v);
        }
        std::vector<twv> targs = args;
        for (size_t i = 0; i < args.size(); i++)
            if (rf->ft.p[i] == T_FUNCREF && args[i].lo)
                targs[i] = {tw_func_identity(inst, (uint32_t)args[i].lo - 1), 0};
        rlog.clear();
        tlog.clear();
        ref->fuel = fuel;
        int rc = ref->call(rf, ra, rr);
        if (rc == 2)
            return "?";
        std::vector<twv> res(rf->ft.r.size() + 1);
        int trap;
        struct tw_exec x = xt;
        x.max_frames = max_frames;
        int tc = tw_call(inst, fidx, targs.data(), res.data(), &x, &trap);
        if (hash) {
            *hash = mc::fnv(&tc, sizeof(tc), *hash);
            *hash = mc::fnv(&trap, sizeof(trap), *hash);
            if (tc == 0)
                for (size_t i = 0; i < rf->ft.r.size(); i++) {
                    twv g = tnorm(rf->ft.r[i], res[i]);
                    *hash = mc::fnv(&g, 16, *hash);
                }
        }
        std::string got = tc == 0 ? "results" : tc == TW_TRAP ? std::string("trap ") + tw_trap_name(trap) : mc::fmt("error %d", tc);
        if (rc == 1) {
            if (tc != TW_TRAP || !trap_ok(ref->trap, trap))
                return "got " + got + ", expected trap " + trapset_str(ref->trap);
        } else {
            if (tc != 0)
                return "got " + got + ", expected results";
            for (size_t i = 0; i < rf->ft.r.size(); i++) {
                uint8_t t = rf->ft.r[i];
                twv g = tnorm(t, res[i]);
                Val v = rr[i];
                v.v = rnorm(v);
                if (!val_eq(v, t, g))
                    return mc::fmt("result %zu is %s, expected %s", i, vstr(t, g).c_str(), vstr(t, v.v).c_str());
            }
        }
        if (!(tlog == rlog))
            return "host calls" + callstr(tlog) + ", expected" + callstr(rlog);
        return "";
    }
    /* runs with an interrupt at check k and gives up there; "" or a problem */
    std::string abandon(uint32_t fidx, const std::vector<twv> &args, unsigned k, bool must)
    {
        RFunc *rf = ri->funcs[fidx];
        std::vector<twv> res(rf->ft.r.size() + 1);
        int trap;
        struct tw_exec x;
        memset(&x, 0, sizeof(x));
        x.max_frames = max_frames;
        x.intr = 1;
        x.check_interval = 1;
        x.intr_delay = k;
        x.abandon = 1;
        int tc = tw_call(inst, fidx, args.data(), res.data(), &x, &trap);
        if (tc != 0 && tc != TW_TRAP && tc != TW_USERINTR)
            return mc::fmt("abandoned at check %u: error %d", k, tc);
        if (must && tc == 0)
            return mc::fmt("a program that does not terminate returned (interrupt at check %u)", k);
        return "";
    }
};
} // namespace pr
#endif
