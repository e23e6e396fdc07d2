/*
 * C13: threads of one cluster that access, measure and grow a shared memory,
 * under every schedule within the bounds.
 */
#include "msched.hpp"
#include "threadsc.h"
#include "wb.hpp"

using namespace wb;

static mc::Explorer *X;
static int c_exec, c_pts, c_scen;
static tw_env *Env;

enum Op { G1, G2, GX, GW, SZ, W, AD, WT, NT, LP, LW, PR, NOPS };
static const char *const opname[] = {"grow1", "grow2", "growmax", "grow+write",
                                     "size", "write", "add", "wait", "notify",
                                     "loop", "waitforever", "probe"};
/* results per op */
static const int nres[] = {1, 1, 1, 3, 1, 1, 1, 1, 1, 0, 1, 1};
typedef std::vector<uint8_t> Prog;

struct Conf {
    unsigned shift; /* page shift */
    uint32_t min, max, unit; /* pages */
};
static Conf conf;

static void memop(Bytes &b, unsigned op, unsigned al, uint32_t off)
{
    u8(b, op);
    uleb(b, al);
    uleb(b, off);
}
static void atop(Bytes &b, unsigned op, unsigned al, uint32_t off)
{
    u8(b, 0xfe);
    uleb(b, op);
    uleb(b, al);
    uleb(b, off);
}
static void checkpoint(Bytes &b)
{
    static const uint8_t c[] = {0x02, 0x40, 0x0c, 0x00, 0x0b};
    raw(b, c, 5);
}
static const uint32_t CTR = 32, WORD = 40, NEVER = 44;

static void emit(Bytes &b, int op, int th, uint32_t val)
{
    switch (op) {
    case G1:
    case G2:
    case GX:
        i32c(b, op == G1 ? conf.unit : op == G2 ? 2 * conf.unit : conf.max);
        u8(b, 0x40);
        u8(b, 0);
        break;
    case GW:
        /* local 0: old size; local 1: address */
        i32c(b, conf.unit);
        u8(b, 0x40);
        u8(b, 0);
        u8(b, 0x22);
        uleb(b, 0);
        lget(b, 0);
        i32c(b, 0);
        u8(b, 0x48); /* lt_s */
        u8(b, 0x04);
        u8(b, 0x40);
        i32c(b, (uint32_t)(4 * th));
        lset(b, 1);
        u8(b, 0x05);
        lget(b, 0);
        i32c(b, conf.shift);
        u8(b, 0x74);
        lset(b, 1);
        u8(b, 0x0b);
        /* what is there before */
        lget(b, 1);
        memop(b, 0x28, 0, 0);
        checkpoint(b);
        lget(b, 1);
        i32c(b, val);
        memop(b, 0x36, 0, 0);
        checkpoint(b);
        lget(b, 1);
        memop(b, 0x28, 0, 0);
        break;
    case SZ:
        u8(b, 0x3f);
        u8(b, 0);
        break;
    case W:
        i32c(b, (uint32_t)(4 * th));
        i32c(b, val);
        memop(b, 0x36, 2, 0);
        checkpoint(b);
        i32c(b, (uint32_t)(4 * th));
        memop(b, 0x28, 2, 0);
        break;
    case AD:
        i32c(b, CTR);
        i32c(b, 1);
        atop(b, 0x1e, 2, 0);
        break;
    case WT:
        i32c(b, WORD);
        i32c(b, 0);
        i64c(b, (uint64_t)-1);
        atop(b, 0x01, 2, 0);
        break;
    case LW:
        i32c(b, NEVER);
        i32c(b, 0);
        i64c(b, (uint64_t)-1);
        atop(b, 0x01, 2, 0);
        break;
    case NT:
        i32c(b, WORD);
        i32c(b, 1);
        atop(b, 0x17, 2, 0);
        i32c(b, WORD);
        i32c(b, 100);
        atop(b, 0x00, 2, 0);
        break;
    case PR: /* the first byte beyond the initial size */
        i32c(b, conf.min << conf.shift);
        memop(b, 0x2d, 0, conf.unit > 1 ? 7 : 100);
        break;
    case LP:
        u8(b, 0x03);
        u8(b, 0x40);
        u8(b, 0x0c);
        u8(b, 0);
        u8(b, 0x0b);
        break;
    }
}
static Lim memlim()
{
    Lim l;
    l.min = conf.min;
    l.hasmax = true;
    l.max = conf.max;
    l.shared = true;
    if (conf.shift != 16) {
        l.custom = true;
        l.shift = conf.shift;
    }
    return l;
}
static uint32_t valof(int th, int k) { return (uint32_t)(0x1000 * (th + 1) + k + 1); }
static Bytes progmod(const Prog &p, int th)
{
    Module m;
    Import i;
    i.mod = "o";
    i.name = "m";
    i.kind = 2;
    i.l = memlim();
    m.imports.push_back(i);
    FT t;
    Bytes b;
    for (size_t k = 0; k < p.size(); k++) {
        emit(b, p[k], th, valof(th, (int)k));
        for (int j = 0; j < nres[p[k]]; j++)
            t.r.push_back(T_I32);
        checkpoint(b);
    }
    m.func(t, b, {{2, T_I32}});
    return m.encode();
}
static Bytes ownermod()
{
    Module m;
    m.mems.push_back(memlim());
    m.exp("m", 2, 0);
    return m.encode();
}
static std::map<Bytes, tw_mod *> mods;
static tw_mod *getmod(const Bytes &b)
{
    auto it = mods.find(b);
    if (it != mods.end())
        return it->second;
    int err = 0;
    char msg[200] = "";
    tw_mod *m = tw_load(Env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
    if (!m) {
        fprintf(stderr, "module does not load: %d %s\n", err, msg);
        abort();
    }
    return mods[b] = m;
}

struct Scen {
    std::vector<Prog> th;
    bool term = false; /* somebody asks the cluster to terminate */
    int bound = 2;
    int conf = 0;
};
struct ThRes {
    bool done = false;
    int ret = -99, trap = 0;
    twv r[16];
};
static const Scen *Sc;
static std::vector<tw_mod *> Pm;
static tw_mod *Om;
static std::vector<ThRes> R;
static uint32_t fpages, fctr;
static std::vector<uint32_t> fpriv;
static std::string bodyviol;
static size_t base_alloc;

static void body()
{
    const Scen &s = *Sc;
    size_t n = s.th.size();
    int err, trap;
    tw_inst *owner = tw_instantiate(Om, nullptr, &err, &trap);
    if (!owner) {
        bodyviol = mc::fmt("the memory cannot be created: %d", err);
        return;
    }
    tw_imports *im = tw_imports_new(Env);
    tw_imports_add_exports(im, owner, "o");
    std::vector<tw_inst *> in(n);
    for (size_t i = 0; i < n; i++) {
        in[i] = tw_instantiate(Pm[i], im, &err, &trap);
        if (!in[i]) {
            bodyviol = mc::fmt("a thread cannot be instantiated: %d", err);
            return;
        }
    }
    struct cluster *c = tc_new();
    for (size_t i = 0; i < n; i++)
        tc_add(c);
    std::vector<int> ids;
    for (size_t i = 0; i < n; i++)
        ids.push_back(ms::spawn([i, c, &in] {
            struct tw_exec x;
            memset(&x, 0, sizeof(x));
            x.cluster = c;
            x.check_interval = 1;
            ThRes &r = R[i];
            r.ret = tw_call(in[i], 0, nullptr, r.r, &x, &r.trap);
            tc_remove(c);
            r.done = true;
        }));
    if (s.term)
        ids.push_back(ms::spawn([c] { tc_interrupt(c); }));
    tc_join(c);
    for (int id : ids)
        ms::join(id);
    fpages = tw_mem_pages(owner, 0);
    fpriv.assign(n, 0);
    for (size_t i = 0; i < n; i++)
        tw_mem_read(owner, 0, 4 * i, &fpriv[i], 4);
    tw_mem_read(owner, 0, CTR, &fctr, 4);
    for (size_t i = 0; i < n; i++)
        tw_inst_destroy(in[i]);
    tw_imports_free(im);
    tw_inst_destroy(owner);
    tc_free(c);
}

/* ---------------------------------------------------------- reference */
struct MState {
    uint32_t size, ctr;
    std::vector<size_t> pc;
    std::vector<std::vector<int64_t>> res;
    std::vector<bool> oob;
};
static const int64_t ANY = INT64_MIN;
/* all outcomes, as text */
static void outcomes(const Scen &s, MState &m, std::set<std::string> &out,
                     const std::function<std::string(const MState &)> &key)
{
    bool end = true;
    for (size_t i = 0; i < s.th.size(); i++)
        end = end && (m.oob[i] || m.pc[i] == s.th[i].size());
    if (end || s.term)
        out.insert(key(m));
    if (end)
        return;
    for (size_t i = 0; i < s.th.size(); i++) {
        if (m.oob[i] || m.pc[i] == s.th[i].size())
            continue;
        int op = s.th[i][m.pc[i]];
        if (op == LP || op == LW)
            continue; /* never completes */
        MState k = m;
        uint32_t g = op == G1 || op == GW ? conf.unit
                     : op == G2           ? 2 * conf.unit
                                          : conf.max;
        auto &r = k.res[i];
        switch (op) {
        case G1:
        case G2:
        case GX:
        case GW:
            if ((uint64_t)m.size + g > conf.max)
                r.push_back(0xffffffffll);
            else {
                r.push_back(m.size);
                k.size += g;
            }
            if (op == GW) {
                bool failed = r.back() == 0xffffffffll;
                uint32_t before = 0;
                /* falls back to its own word, which it may have written */
                if (failed) {
                    for (size_t q = 0; q < m.pc[i]; q++) {
                        if (s.th[i][q] == W)
                            before = valof((int)i, (int)q);
                    }
                    size_t ri = 0;
                    for (size_t q = 0; q < m.pc[i]; q++) {
                        if (s.th[i][q] == GW && r[ri] == 0xffffffffll)
                            before = valof((int)i, (int)q);
                        else if (s.th[i][q] == W)
                            before = valof((int)i, (int)q);
                        ri += (size_t)nres[s.th[i][q]];
                    }
                }
                r.push_back(before);
                r.push_back(valof((int)i, (int)m.pc[i]));
            }
            break;
        case PR:
            if (m.size == conf.min) {
                k.oob[i] = true;
                outcomes(s, k, out, key);
                continue;
            }
            r.push_back(ANY);
            break;
        case SZ:
            r.push_back(m.size);
            break;
        case W:
            r.push_back(valof((int)i, (int)m.pc[i]));
            break;
        case AD:
            r.push_back(m.ctr);
            k.ctr++;
            break;
        case WT:
        case NT:
            r.push_back(ANY);
            break;
        }
        k.pc[i]++;
        outcomes(s, k, out, key);
    }
}
static std::set<std::string> allowed;
static std::string keyof(const Scen &s, const std::vector<std::vector<int64_t>> &res,
                         const std::vector<bool> &full,
                         const std::vector<bool> &oob, uint32_t size,
                         uint32_t ctr)
{
    std::string k = mc::fmt("size=%u ctr=%u", size, ctr);
    for (size_t i = 0; i < s.th.size(); i++) {
        k += mc::fmt(" T%zu:", i);
        if (oob[i]) {
            k += "out of bounds";
            continue;
        }
        if (!full[i]) {
            k += "terminated";
            continue;
        }
        for (auto v : res[i])
            k += v == ANY ? "*," : mc::fmt("%lld,", (long long)v);
    }
    return k;
}
static std::string check()
{
    const Scen &s = *Sc;
    if (!bodyviol.empty())
        return bodyviol;
    std::vector<std::vector<int64_t>> res(s.th.size());
    std::vector<bool> full(s.th.size()), oob(s.th.size());
    for (size_t i = 0; i < s.th.size(); i++) {
        ThRes &r = R[i];
        if (!r.done)
            return mc::fmt("thread %zu never finished", i);
        if (r.ret == TW_TRAP && r.trap == TWT_THREXIT && s.term) {
            full[i] = false;
            continue;
        }
        if (r.ret == TW_TRAP && r.trap == TWT_OOB_MEM) {
            oob[i] = true;
            continue;
        }
        if (r.ret != 0)
            return mc::fmt("thread %zu ended with %d (%s)", i, r.ret,
                           tw_trap_name(r.trap));
        full[i] = true;
        size_t k = 0;
        for (auto op : s.th[i])
            for (int j = 0; j < nres[op]; j++, k++) {
                uint32_t v = (uint32_t)r.r[k].lo;
                if (op == WT && v > 1)
                    return mc::fmt("thread %zu: wait returned %u", i, v);
                if (op == NT && v > s.th.size())
                    return mc::fmt("thread %zu: notify returned %u", i, v);
                res[i].push_back(op == WT || op == NT || op == PR ? ANY : (int64_t)v);
            }
        for (size_t q = s.th[i].size(); q-- > 0;)
            if (s.th[i][q] == W) {
                bool later = false;
                for (size_t z = q + 1; z < s.th[i].size(); z++)
                    later = later || s.th[i][z] == GW;
                if (!later && fpriv[i] != valof((int)i, (int)q))
                    return mc::fmt("thread %zu's write of %#x was lost: %#x", i,
                                   valof((int)i, (int)q), fpriv[i]);
                break;
            }
    }
    std::string k = keyof(s, res, full, oob, fpages, fctr);
    X->outcome(mc::fnv(k));
    if (!allowed.count(k)) {
        std::string w;
        int n = 0;
        for (auto &a : allowed)
            if (n++ < 6)
                w += "\n  " + a;
        return "outcome is none of any sequential order: " + k + "; allowed:" + w;
    }
    if (ms::S.nlive != 0)
        return mc::fmt("%lld allocations leaked", (long long)ms::S.nlive);
    if (tw_env_allocated(Env) != base_alloc)
        return "heap accounting does not return to its value";
    return "";
}
static std::string text(const Scen &s)
{
    std::string t;
    for (size_t i = 0; i < s.th.size(); i++) {
        t += mc::fmt("T%zu:", i);
        for (auto o : s.th[i])
            t += std::string(" ") + opname[o];
        t += "; ";
    }
    if (s.term)
        t += "terminate; ";
    return t + mc::fmt("pages of %u", 1u << conf.shift);
}

static std::vector<Scen> scens;
static std::vector<Conf> confs;
static void add(std::vector<Prog> th, bool term, int bound, int cf)
{
    scens.push_back({th, term, bound, cf});
}

int main(int argc, char **argv)
{
    mc::Explorer ex(argc, argv, "thrgrow");
    X = &ex;
    c_exec = ex.counter("executions");
    c_pts = ex.counter("transitions");
    c_scen = ex.counter("scenarios");
    confs = {{0, 64, 64 + 24, 8}, {16, 1, 4, 1}};
    bool th = ex.opt.thorough();
    int b2 = atoi(ex.opt.get("bound", th ? "4" : "3").c_str());
    int b3 = th ? 3 : 2;
    auto has = [](const Prog &p, int o) {
        return std::find(p.begin(), p.end(), o) != p.end();
    };
    auto needs_notify = [&](const std::vector<Prog> &v) {
        bool w = false, n = false;
        for (auto &p : v) {
            w = w || has(p, WT);
            n = n || has(p, NT);
            /* a thread that waits before it notifies cannot wake itself,
               and neither can two that do so */
            if (has(p, WT) && has(p, NT) &&
                std::find(p.begin(), p.end(), WT) < std::find(p.begin(), p.end(), NT))
                return true;
        }
        return w && !n;
    };
    /* two threads, every pair of programs of up to two operations */
    std::vector<Prog> progs;
    const std::vector<uint8_t> A{G1, G2, GX, GW, SZ, PR, W, AD, WT, NT};
    for (auto a : A)
        progs.push_back({a});
    size_t n1 = progs.size();
    for (auto a : A)
        for (auto b : A)
            progs.push_back({a, b});
    auto grows = [&](const std::vector<Prog> &v) {
        for (auto &p : v)
            for (auto o : p)
                if (o == G1 || o == G2 || o == GX || o == GW)
                    return true;
        return false;
    };
    for (size_t i = 0; i < progs.size(); i++)
        for (size_t j = i; j < progs.size(); j++) {
            std::vector<Prog> v{progs[i], progs[j]};
            if (needs_notify(v) || !grows(v))
                continue;
            bool one = i < n1 && j < n1;
            if (!one && !th && progs[i].size() + progs[j].size() > 3)
                continue;
            add(v, false, b2, 0);
            if (one)
                add(v, false, b2, 1);
        }
    /* three threads with one operation each */
    for (size_t i = 0; i < n1; i++)
        for (size_t j = i; j < n1; j++)
            for (size_t k = j; k < n1; k++) {
                std::vector<Prog> v{progs[i], progs[j], progs[k]};
                if (needs_notify(v) || !grows(v))
                    continue;
                add(v, false, b3, 0);
            }
    /* termination at any time */
    std::vector<Prog> tp{{G1}, {GW}, {G1, G1}, {W}, {LP}, {LW}, {SZ, G1}};
    for (size_t i = 0; i < tp.size(); i++)
        for (size_t j = i; j < tp.size(); j++) {
            add({tp[i], tp[j]}, true, b3, 0);
            for (size_t k = j; k < tp.size() && (th || k == j); k++)
                add({tp[i], tp[j], tp[k]}, true, b3, 0);
        }
    /* growth that stops loops and waits, which then go on */
    for (auto &p : std::vector<Prog>{{G1, NT}, {GW, G1, NT}, {G1, G2, G1, NT}})
        for (auto &q : std::vector<Prog>{{WT}, {WT, W}, {WT, G1}}) {
            add({p, q}, false, b2, 0);
            add({p, q, q}, false, b3, 0);
        }
    const int NS = th ? 8 : 1;
    uint64_t n = scens.size() * (uint64_t)NS;
    ex.run(n, [&](uint64_t idx) {
        Sc = &scens[idx / NS];
        conf = confs[(size_t)Sc->conf];
        if (!Env) {
            Env = tw_env_new();
            ms::S.ignore.push_back({(uintptr_t)tw_env_mctx(Env),
                                    (uintptr_t)tw_env_mctx(Env) + tc_mctx_size()});
        }
        Om = getmod(ownermod());
        Pm.clear();
        for (size_t i = 0; i < Sc->th.size(); i++)
            Pm.push_back(getmod(progmod(Sc->th[i], (int)i)));
        base_alloc = tw_env_allocated(Env);
        allowed.clear();
        MState m0;
        m0.size = conf.min;
        m0.ctr = 0;
        m0.pc.assign(Sc->th.size(), 0);
        m0.res.resize(Sc->th.size());
        m0.oob.assign(Sc->th.size(), false);
        outcomes(*Sc, m0, allowed, [&](const MState &m) {
            std::vector<bool> full(Sc->th.size());
            for (size_t i = 0; i < full.size(); i++)
                full[i] = m.pc[i] == Sc->th[i].size();
            return keyof(*Sc, m.res, full, m.oob, m.size, m.ctr);
        });
        /* a thread may also be terminated after its last operation */
        if (Sc->term) {
            std::set<std::string> more;
            size_t nt = Sc->th.size();
            MState mm = m0;
            outcomes(*Sc, mm, more, [&](const MState &m) {
                for (unsigned mask = 0; mask < 1u << nt; mask++) {
                    std::vector<bool> full(nt);
                    for (size_t i = 0; i < nt; i++)
                        full[i] = m.pc[i] == Sc->th[i].size() && !(mask >> i & 1);
                    allowed.insert(keyof(*Sc, m.res, full, m.oob, m.size, m.ctr));
                }
                return std::string();
            });
        }
        ms::S.cfg = ms::Cfg();
        ms::S.cfg.bound = Sc->bound;
        auto r = ms::explore(
            [] {
                R.assign(Sc->th.size(), ThRes());
                bodyviol.clear();
                body();
            },
            check, (int)(idx % NS), NS, X);
        X->add(c_exec, r.execs);
        X->add(c_pts, r.points);
        if (idx % NS == 0)
            X->add(c_scen);
        if (!r.ok) {
            X->fail("%s\nschedule: %s\n%s", text(*Sc).c_str(),
                    ms::devtext(r.devs).c_str(), r.viol.c_str());
            Env = nullptr;
            mods.clear();
            ms::S.ignore.clear();
        }
    });
    for (size_t i = 0; i < scens.size(); i += scens.size() / 6 + 1) {
        conf = confs[(size_t)scens[i].conf];
        ex.sample(text(scens[i]));
    }
    return ex.finish();
}
