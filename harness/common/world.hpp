/*
 * Several linked instances in the library and in the reference engine.
 */
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "pair.hpp"

namespace pr {
struct World;
struct WHost {
    std::string mod, name;
    FT ft;
    /* reference and library share the function: args normalised */
    std::function<int(const std::vector<twv> &, std::vector<twv> &)> f;
    World *w = nullptr;
    int id = 0;
};
struct WObj {
    std::string name; /* import module name of its exports */
    Module m;
    Bytes bin;
    tw_mod *mod = nullptr;
    tw_inst *inst = nullptr;
    tw_imports *im = nullptr;
    RInst *ri = nullptr;
};
/* an external value in the reference world */
struct Ext {
    int kind = -1;
    RFunc *f = nullptr;
    RTable *t = nullptr;
    RMem *m = nullptr;
    RGlobal *g = nullptr;
    RTag *tag = nullptr;
};

struct World {
    tw_env *env;
    std::unique_ptr<Machine> ref;
    std::vector<std::unique_ptr<WObj>> objs;
    std::vector<std::unique_ptr<WHost>> hosts;
    std::vector<RFunc *> rhosts;
    std::vector<HostCall> tlog, rlog;
    uint32_t max_frames = 200;
    unsigned opts = 0;
    bool oneshot = false; /* instance_create() instead of its two halves */
    struct tw_exec xt;
    tw_imports *shim = nullptr; /* one import object per host function, so that identity is shared */

    World(tw_env *e) : env(e), ref(new Machine)
    {
        memset(&xt, 0, sizeof(xt));
        ref->max_depth = max_frames;
    }
    ~World()
    {
        for (size_t i = objs.size(); i-- > 0;) {
            tw_inst_destroy(objs[i]->inst);
            tw_imports_free(objs[i]->im);
            tw_unload(objs[i]->mod);
        }
    }
    void host(const std::string &mod, const std::string &name, const FT &ft, std::function<int(const std::vector<twv> &, std::vector<twv> &)> f)
    {
        hosts.emplace_back(new WHost{mod, name, ft, f, this, (int)hosts.size()});
        WHost *h = hosts.back().get();
        rhosts.push_back(ref->new_host(ft, [this, h](Machine &mm, const std::vector<Val> &a, std::vector<Val> &r) -> int {
            HostCall c;
            c.id = h->id;
            for (auto &v : a)
                c.args.push_back(rnorm(v));
            rlog.push_back(c);
            std::vector<twv> out(h->ft.r.size());
            if (h->f && h->f(c.args, out)) {
                mm.trap = TS(TWT_MISC);
                return -1;
            }
            r.clear();
            for (size_t k = 0; k < out.size(); k++)
                r.push_back(mk(h->ft.r[k], out[k].lo, out[k].hi));
            return 0;
        }));
    }
    static int thunk(void *user, struct exec_context *ctx, const twv *args, twv *results)
    {
        WHost *h = (WHost *)user;
        HostCall c;
        c.id = h->id;
        for (size_t i = 0; i < h->ft.p.size(); i++)
            c.args.push_back(h->w->tnorm(h->ft.p[i], args[i]));
        h->w->tlog.push_back(c);
        std::vector<twv> r(h->ft.r.size());
        if (h->f && h->f(c.args, r))
            return tw_host_trap(ctx, "host");
        for (size_t i = 0; i < r.size(); i++)
            results[i] = r[i];
        return 0;
    }
    uint64_t norm_func(uint64_t p)
    {
        if (!p)
            return 0;
        for (size_t o = 0; o < objs.size(); o++) {
            WObj &w = *objs[o];
            if (!w.inst)
                continue;
            uint32_t n = w.m.nimp(0) + (uint32_t)w.m.funcs.size();
            for (uint32_t i = 0; i < n; i++)
                if (tw_func_identity(w.inst, i) == p)
                    return (o + 1) * 1000 + i;
        }
        return ~0ull;
    }
    uint64_t norm_rfunc(RFunc *f)
    {
        if (!f)
            return 0;
        for (size_t o = 0; o < objs.size(); o++)
            if (objs[o]->ri)
                for (size_t i = 0; i < objs[o]->ri->funcs.size(); i++)
                    if (objs[o]->ri->funcs[i] == f)
                        return (o + 1) * 1000 + i;
        return ~0ull;
    }
    twv rnorm(const Val &v)
    {
        if (v.t == T_FUNCREF)
            return {norm_rfunc(v.f), 0};
        if (v.t == T_EXNREF)
            return {v.e ? 1ull : 0ull, 0};
        return v.v;
    }
    twv tnorm(uint8_t t, twv v)
    {
        if (t == T_FUNCREF)
            return {norm_func(v.lo), 0};
        if (t == T_EXNREF)
            return {v.lo != 0, 0};
        return v;
    }
    /* name resolution in the reference world: the latest object of that module name, then host functions */
    Ext find(const std::string &mod, const std::string &name)
    {
        Ext e;
        for (size_t o = objs.size(); o-- > 0;) {
            WObj &w = *objs[o];
            if (w.name != mod || !w.ri)
                continue;
            for (auto &x : w.m.exports)
                if (x.name == name) {
                    e.kind = x.kind;
                    switch (x.kind) {
                    case 0: e.f = w.ri->funcs[x.idx]; break;
                    case 1: e.t = w.ri->tables[x.idx]; break;
                    case 2: e.m = w.ri->mems[x.idx]; break;
                    case 3: e.g = w.ri->globals[x.idx]; break;
                    case 4: e.tag = w.ri->tags[x.idx]; break;
                    }
                    return e;
                }
        }
        for (size_t i = 0; i < hosts.size(); i++)
            if (hosts[i]->mod == mod && hosts[i]->name == name) {
                e.kind = 0;
                e.f = rhosts[i];
                return e;
            }
        return e;
    }
    static bool lim_ok(uint64_t cur, uint64_t emax, bool ehas, const wb::Lim &want)
    {
        if (cur < want.min)
            return false;
        if (!want.hasmax)
            return true;
        return ehas && emax <= want.max;
    }
    static bool match(const Module &m, const wb::Import &im, const Ext &e)
    {
        if (e.kind != im.kind)
            return false;
        switch (im.kind) {
        case 0: return e.f->ft == m.types[im.typeidx];
        case 1: return e.t->t == im.vt && lim_ok(e.t->e.size(), e.t->max, e.t->hasmax, im.l);
        case 2:
            return lim_ok(e.m->pages, e.m->max, e.m->hasmax, im.l) && e.m->shared == im.l.shared && e.m->shift == (im.l.custom ? im.l.shift : 16);
        case 3: return e.g->v.t == im.vt && e.g->mut == im.mut;
        case 4: return e.tag->ft == m.types[im.typeidx];
        }
        return false;
    }
    struct R {
        bool linked;  /* imports matched */
        int flow;     /* init outcome in the reference: 0, 1 trap */
        TrapSet trap = 0;
    };
    /* reference half of instantiation */
    R ref_add(WObj &w)
    {
        R r;
        r.flow = 0;
        Machine::Imports imp;
        r.linked = true;
        for (auto &im : w.m.imports) {
            Ext e = find(im.mod, im.name);
            if (e.kind < 0 || !match(w.m, im, e)) {
                r.linked = false;
                return r;
            }
            switch (im.kind) {
            case 0: imp.funcs.push_back(e.f); break;
            case 1: imp.tables.push_back(e.t); break;
            case 2: imp.mems.push_back(e.m); break;
            case 3: imp.globals.push_back(e.g); break;
            case 4: imp.tags.push_back(e.tag); break;
            }
        }
        w.ri = ref->allocate(w.m, imp);
        ref->fuel = 100000;
        ref->trap = 0;
        r.flow = ref->init(w.ri);
        r.trap = ref->trap;
        return r;
    }
    /* "" or a difference; keep: leave a failed object's reference instance in place */
    std::string add(const std::string &name, const Module &m, R *rout = nullptr, bool *linked_out = nullptr)
    {
        tlog.clear();
        rlog.clear();
        std::unique_ptr<WObj> w(new WObj);
        w->name = name;
        w->m = m;
        w->bin = m.encode();
        int err = 0, trap = 0;
        char buf[300];
        w->mod = tw_load(env, w->bin.data(), w->bin.size(), opts, &err, buf, sizeof(buf));
        if (!w->mod)
            return mc::fmt("load failed: %s", buf);
        w->im = tw_imports_new(env);
        /* the list is searched from its head; the latest object first */
        for (size_t i = 0; i < hosts.size(); i++) {
            WHost *h = hosts[i].get();
            tw_imports_add_host(w->im, h->mod.c_str(), h->name.c_str(), h->ft.p.data(), h->ft.p.size(), h->ft.r.data(), h->ft.r.size(), thunk, h);
        }
        for (auto &o : objs)
            if (o->inst && !o->name.empty())
                tw_imports_add_exports(w->im, o->inst, o->name.c_str());
        objs.push_back(std::move(w));
        WObj &o = *objs.back();
        R r = ref_add(o);
        if (rout)
            *rout = r;
        o.inst = oneshot ? tw_instantiate_oneshot(o.mod, o.im, &err) : tw_instantiate_noinit(o.mod, o.im, &err);
        if (linked_out)
            *linked_out = o.inst != nullptr;
        if (!r.linked) {
            std::string d = o.inst ? "linked although an import does not match" : "";
            tw_inst_destroy(o.inst);
            o.inst = nullptr;
            return d;
        }
        if (oneshot) {
            if (r.flow ? err != TW_TRAP : err != 0)
                return mc::fmt("instantiation gave %d, expected %s", err, r.flow ? "a trap" : "success");
            if (!(tlog == rlog))
                return "host calls during initialisation" + callstr(tlog) + ", expected" + callstr(rlog);
            return "";
        }
        if (!o.inst)
            return mc::fmt("linking failed (%d) although every import matches", err);
        int rc = tw_inst_init(o.inst, &trap);
        if (r.flow) {
            if (rc != TW_TRAP || !trap_ok(r.trap, trap))
                return mc::fmt("initialisation gave %d %s, expected trap %s", rc, tw_trap_name(trap), trapset_str(r.trap).c_str());
        } else if (rc != 0)
            return mc::fmt("initialisation failed: %d %s", rc, tw_trap_name(trap));
        if (!(tlog == rlog))
            return "host calls during initialisation" + callstr(tlog) + ", expected" + callstr(rlog);
        return "";
    }
    std::string diff_state()
    {
        for (size_t o = 0; o < objs.size(); o++) {
            RInst *ri = objs[o]->ri;
            tw_inst *inst = objs[o]->inst;
            if (!ri || !inst)
                continue;
            for (size_t i = 0; i < ri->globals.size(); i++) {
                const Val &v = ri->globals[i]->v;
                twv g = tnorm(v.t, tw_global_get(inst, (uint32_t)i));
                Val rv = v;
                rv.v = rnorm(v);
                if (!Pair::val_eq(rv, v.t, g))
                    return mc::fmt("instance %zu global %zu is %s, expected %s", o, i, vstr(v.t, g).c_str(), vstr(v.t, rv.v).c_str());
            }
            for (size_t i = 0; i < ri->tables.size(); i++) {
                RTable *t = ri->tables[i];
                uint32_t n = tw_table_size(inst, (uint32_t)i);
                if (n != t->e.size())
                    return mc::fmt("instance %zu table %zu has size %u, expected %zu", o, i, n, t->e.size());
                for (uint32_t k = 0; k < n; k++) {
                    twv g = tnorm(t->t, tw_table_get(inst, (uint32_t)i, k));
                    twv w = rnorm(t->e[k]);
                    if (g.lo != w.lo)
                        return mc::fmt("instance %zu table %zu entry %u is %llu, expected %llu", o, i, k, (unsigned long long)g.lo, (unsigned long long)w.lo);
                }
            }
            for (size_t i = 0; i < ri->mems.size(); i++) {
                RMem *mm = ri->mems[i];
                uint32_t n = tw_mem_pages(inst, (uint32_t)i);
                if (n != mm->pages)
                    return mc::fmt("instance %zu memory %zu has %u pages, expected %llu", o, i, n, (unsigned long long)mm->pages);
                std::vector<uint8_t> buf(mm->b.size());
                if (!buf.empty() && tw_mem_read(inst, (uint32_t)i, 0, buf.data(), buf.size()) != 0)
                    return mc::fmt("instance %zu memory %zu cannot be read in full", o, i);
                if (buf != mm->b) {
                    size_t k = 0;
                    while (buf[k] == mm->b[k])
                        k++;
                    return mc::fmt("instance %zu memory %zu byte %zu is %02x, expected %02x", o, i, k, buf[k], mm->b[k]);
                }
            }
        }
        return "";
    }
    std::string call(size_t oi, uint32_t fidx, const std::vector<twv> &args, uint64_t *hash = nullptr, uint64_t fuel = 20000)
    {
        WObj &o = *objs[oi];
        RFunc *rf = o.ri->funcs[fidx];
        std::vector<Val> ra, rr;
        for (size_t i = 0; i < args.size(); i++)
            ra.push_back(mk(rf->ft.p[i], args[i].lo, args[i].hi));
        rlog.clear();
        tlog.clear();
        ref->fuel = fuel;
        int rc = ref->call(rf, ra, rr);
        if (rc == 2)
            return "?";
        std::vector<twv> res(rf->ft.r.size() + 1);
        int trap;
        struct tw_exec x = xt;
        x.max_frames = max_frames;
        int tc = tw_call(o.inst, fidx, args.data(), res.data(), &x, &trap);
        if (hash) {
            *hash = mc::fnv(&tc, sizeof(tc), *hash);
            *hash = mc::fnv(&trap, sizeof(trap), *hash);
            if (tc == 0)
                for (size_t i = 0; i < rf->ft.r.size(); i++) {
                    twv g = tnorm(rf->ft.r[i], res[i]);
                    *hash = mc::fnv(&g, 16, *hash);
                }
        }
        std::string got = tc == 0 ? "results" : tc == TW_TRAP ? std::string("trap ") + tw_trap_name(trap) : mc::fmt("error %d", tc);
        if (rc == 1) {
            if (tc != TW_TRAP || !trap_ok(ref->trap, trap))
                return "got " + got + ", expected trap " + trapset_str(ref->trap);
        } else {
            if (tc != 0)
                return "got " + got + ", expected results";
            for (size_t i = 0; i < rf->ft.r.size(); i++) {
                uint8_t t = rf->ft.r[i];
                twv g = tnorm(t, res[i]);
                Val v = rr[i];
                v.v = rnorm(v);
                if (!Pair::val_eq(v, t, g))
                    return mc::fmt("result %zu is %s, expected %s", i, vstr(t, g).c_str(), vstr(t, v.v).c_str());
            }
        }
        if (!(tlog == rlog))
            return "host calls" + callstr(tlog) + ", expected" + callstr(rlog);
        return "";
    }
};
} // namespace pr
#endif
