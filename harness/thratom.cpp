/*
 * C14: threads of one cluster that use atomic instructions on a shared
 * memory, wait and notify, under every schedule within the bounds.
 */
#include "atops.hpp"
#include "msched.hpp"
#include "threadsc.h"

using namespace wb;

static mc::Explorer *X;
static int c_exec, c_pts, c_scen, c_stuck;
static tw_env *Env;

enum Kind { AT, WAIT, NOTIFY, GROW };
struct Op {
    Kind kind;
    std::string name;
    unsigned mem;
    uint32_t addr;
    unsigned bits;
    uint64_t a, b; /* operands; expected; count */
    int64_t timeout;
    at::Op o;
};
typedef std::vector<Op> Prog;
static const uint32_t SLOTS = 64, PERTH = 64, MIN = SLOTS + 5 * PERTH, MAX = MIN + 64;
/* where the words operated on are in the memories */
static const uint32_t DATA = 16;
static const uint64_t NONE = 0xeeeeeeeeeeeeeeeeull;
static const uint64_t INIT[2] = {0x0706050403020100ull, 0};

struct Scen {
    std::vector<Prog> th;
    int bound;
    uint64_t init; /* first 8 bytes of both memories */
    /* user interrupts of the first thread, and how long they last */
    unsigned intr = 0, intrmax = 0;
    int64_t away = 0;
    bool change = false; /* the word changes meanwhile */
};

static Lim memlim()
{
    Lim l;
    l.min = MIN;
    l.hasmax = true;
    l.max = MAX;
    l.shared = true;
    l.custom = true;
    l.shift = 0;
    return l;
}
static Bytes progmod(const Prog &p, int th)
{
    Module m;
    for (int k = 0; k < 2; k++) {
        Import i;
        i.mod = "o";
        i.name = k ? "n" : "m";
        i.kind = 2;
        i.l = memlim();
        m.imports.push_back(i);
    }
    Bytes b;
    for (size_t k = 0; k < p.size(); k++) {
        const Op &o = p[k];
        i32c(b, SLOTS + PERTH * (uint32_t)th + 8 * (uint32_t)k);
        bool wide = false, res = true;
        /* the same word is reached with various static offsets */
        uint32_t off = ((uint32_t)th + (uint32_t)k) % 3 * 8;
        if (o.kind != GROW)
            i32c(b, o.addr + DATA - off);
        switch (o.kind) {
        case AT:
            if (o.o.kind != at::LOAD)
                o.o.stack == 64 ? i64c(b, o.a) : i32c(b, (uint32_t)o.a);
            if (o.o.kind == at::CMPX)
                o.o.stack == 64 ? i64c(b, o.b) : i32c(b, (uint32_t)o.b);
            at::emit(b, o.o, off, o.mem);
            wide = o.o.stack == 64;
            res = o.o.kind != at::STORE;
            break;
        case WAIT: {
            o.bits == 64 ? i64c(b, o.a) : i32c(b, (uint32_t)o.a);
            i64c(b, (uint64_t)o.timeout);
            at::Op x{"", o.bits == 64 ? 2u : 1u, at::WAIT, o.bits, o.bits, at::ADD};
            at::emit(b, x, off, o.mem);
            break;
        }
        case NOTIFY: {
            i32c(b, (uint32_t)o.a);
            at::Op x{"", 0, at::NOTIFY, 32, 32, at::ADD};
            at::emit(b, x, off, o.mem);
            break;
        }
        case GROW:
            i32c(b, 8);
            u8(b, 0x40);
            uleb(b, o.mem);
            break;
        }
        if (!res)
            i64c(b, 0);
        else if (!wide)
            u8(b, 0xad); /* i64.extend_i32_u */
        u8(b, 0x37);
        uleb(b, 3);
        uleb(b, 0);
        static const uint8_t c[] = {0x02, 0x40, 0x0c, 0x00, 0x0b};
        raw(b, c, 5);
    }
    FT t;
    m.func(t, b);
    return m.encode();
}
static Bytes ownermod()
{
    Module m;
    m.mems.push_back(memlim());
    m.mems.push_back(memlim());
    m.exp("m", 2, 0);
    m.exp("n", 2, 1);
    return m.encode();
}
static std::map<Bytes, tw_mod *> mods;
static tw_mod *getmod(const Bytes &b)
{
    auto it = mods.find(b);
    if (it != mods.end())
        return it->second;
    int err = 0;
    char msg[200] = "";
    tw_mod *m = tw_load(Env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
    if (!m) {
        fprintf(stderr, "module does not load: %d %s\n", err, msg);
        abort();
    }
    return mods[b] = m;
}

/* ---------------------------------------------------------- execution */
struct ThRes {
    bool done = false;
    int ret = -99, trap = 0;
    int64_t t0 = 0, t1 = 0;
};
static const Scen *Sc;
static std::vector<tw_mod *> Pm;
static tw_mod *Om;
static std::vector<ThRes> R;
static std::vector<std::vector<uint64_t>> slots;
static uint8_t fimg[2][16];
static uint32_t fsize[2];
static std::string bodyviol;
static size_t base_alloc;

static int64_t lastresume;
static tw_inst *Owner;
static void at_intr(struct tw_exec *)
{
    uint64_t slot = 0;
    tw_mem_read(Owner, 0, SLOTS, &slot, 8);
    if (slot != NONE) /* the wait is over */
        return;
    ms::S.now += Sc->away;
    lastresume = ms::S.now;
    if (Sc->change) {
        uint32_t v = 77;
        tw_mem_write(Owner, 0, DATA, &v, 4);
    }
}
static void body()
{
    const Scen &s = *Sc;
    size_t n = s.th.size();
    int err, trap;
    tw_inst *owner = tw_instantiate(Om, nullptr, &err, &trap);
    if (!owner) {
        bodyviol = mc::fmt("the memory cannot be created: %d", err);
        return;
    }
    Owner = owner;
    uint8_t w[16];
    at::put(w, 64, s.init);
    at::put(w + 8, 64, INIT[1]);
    tw_mem_write(owner, 0, DATA, w, 16);
    tw_mem_write(owner, 1, DATA, w, 16);
    for (uint32_t o = SLOTS; o < MIN; o += 8)
        tw_mem_write(owner, 0, o, &NONE, 8);
    tw_imports *im = tw_imports_new(Env);
    tw_imports_add_exports(im, owner, "o");
    std::vector<tw_inst *> in(n);
    for (size_t i = 0; i < n; i++) {
        in[i] = tw_instantiate(Pm[i], im, &err, &trap);
        if (!in[i]) {
            bodyviol = mc::fmt("a thread cannot be instantiated: %d", err);
            return;
        }
    }
    struct cluster *c = tc_new();
    for (size_t i = 0; i < n; i++)
        tc_add(c);
    std::vector<int> ids;
    for (size_t i = 0; i < n; i++)
        ids.push_back(ms::spawn([i, c, &in] {
            struct tw_exec x;
            memset(&x, 0, sizeof(x));
            x.cluster = c;
            x.check_interval = 1;
            ThRes &r = R[i];
            if (i == 0 && Sc->intr) {
                x.intr = 1;
                x.intr_delay = Sc->intr;
                x.intr_max = Sc->intrmax;
                x.at_intr = at_intr;
            }
            lastresume = r.t0 = ms::S.now;
            r.ret = tw_call(in[i], 0, nullptr, nullptr, &x, &r.trap);
            r.t1 = ms::S.now;
            tc_remove(c);
            r.done = true;
        }));
    /* whoever still waits when nothing happens any more waits forever */
    ms::wait_idle();
    tc_interrupt(c);
    tc_join(c);
    for (int id : ids)
        ms::join(id);
    slots.assign(n, {});
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < s.th[i].size(); k++) {
            uint64_t v = 0;
            tw_mem_read(owner, 0, SLOTS + PERTH * i + 8 * k, &v, 8);
            slots[i].push_back(v);
        }
    for (uint32_t k = 0; k < 2; k++) {
        tw_mem_read(owner, k, DATA, fimg[k], 16);
        fsize[k] = tw_mem_pages(owner, k);
    }
    for (size_t i = 0; i < n; i++)
        tw_inst_destroy(in[i]);
    tw_imports_free(im);
    tw_inst_destroy(owner);
    tc_free(c);
}

/* ---------------------------------------------------------- reference */
enum { RUNNING, QUEUED, LIMBO };
struct MState {
    uint8_t img[2][16];
    uint32_t size[2];
    std::vector<size_t> pc;
    std::vector<int> st;
    std::vector<std::vector<uint64_t>> res;
};
static std::set<std::string> allowed;
static std::string keyof(const uint8_t img[2][16], const uint32_t *size,
                         const std::vector<std::vector<uint64_t>> &res)
{
    std::string k = mc::fmt("size=%u,%u mem=", size[0], size[1]);
    for (int j = 0; j < 2; j++) {
        for (int i = 15; i >= 0; i--)
            k += mc::fmt("%02x", img[j][i]);
        k += " ";
    }
    for (size_t i = 0; i < res.size(); i++) {
        k += mc::fmt("T%zu:", i);
        for (auto v : res[i])
            k += v == NONE ? " stuck" : mc::fmt(" %llx", (unsigned long long)v);
        k += "; ";
    }
    return k;
}
static void outcomes(const Scen &s, const MState &m, std::set<std::string> &seen)
{
    size_t n = s.th.size();
    bool grow = false;
    for (auto &p : s.th)
        for (auto &o : p)
            grow = grow || o.kind == GROW;
    std::string key = keyof(m.img, m.size, m.res);
    for (size_t i = 0; i < n; i++)
        key += mc::fmt("%zu/%d ", m.pc[i], m.st[i]);
    if (!seen.insert(key).second)
        return;
    bool must = false;
    auto finish = [&](MState &k, size_t i, uint64_t v) {
        k.res[i].push_back(v);
        k.pc[i]++;
        k.st[i] = RUNNING;
    };
    for (size_t i = 0; i < n; i++) {
        if (m.pc[i] == s.th[i].size())
            continue;
        const Op &o = s.th[i][m.pc[i]];
        MState k = m;
        switch (o.kind) {
        case AT:
            must = true;
            finish(k, i, at::apply(o.o, &k.img[o.mem][o.addr], o.a, o.b));
            outcomes(s, k, seen);
            break;
        case GROW:
            must = true;
            if (m.size[o.mem] + 8 > MAX)
                finish(k, i, 0xffffffff);
            else {
                k.size[o.mem] += 8;
                finish(k, i, m.size[o.mem]);
            }
            outcomes(s, k, seen);
            break;
        case NOTIFY: {
            must = true;
            std::vector<size_t> q;
            for (size_t j = 0; j < n; j++)
                if (m.st[j] == QUEUED && s.th[j][m.pc[j]].mem == o.mem &&
                    s.th[j][m.pc[j]].addr == o.addr)
                    q.push_back(j);
            size_t want = std::min<size_t>(q.size(), (size_t)o.a);
            for (unsigned mask = 0; mask < 1u << q.size(); mask++) {
                if ((size_t)__builtin_popcount(mask) != want)
                    continue;
                MState z = m;
                for (size_t j = 0; j < q.size(); j++)
                    if (mask >> j & 1)
                        finish(z, q[j], 0);
                finish(z, i, want);
                outcomes(s, z, seen);
            }
            break;
        }
        case WAIT: {
            bool eq = at::get(&m.img[o.mem][o.addr], o.bits) == o.a;
            if (!eq) {
                must = true;
                finish(k, i, 1);
                outcomes(s, k, seen);
            } else if (m.st[i] != QUEUED) {
                must = true;
                k.st[i] = QUEUED;
                outcomes(s, k, seen);
            }
            if (m.st[i] != RUNNING && o.timeout >= 0) {
                must = true;
                MState z = m;
                finish(z, i, 2);
                outcomes(s, z, seen);
            }
            /* suspended by a growing thread */
            if (m.st[i] == QUEUED && grow) {
                MState z = m;
                z.st[i] = LIMBO;
                outcomes(s, z, seen);
            }
            break;
        }
        }
    }
    if (!must) {
        auto r = m.res;
        for (size_t i = 0; i < n; i++)
            while (r[i].size() < s.th[i].size())
                r[i].push_back(NONE);
        allowed.insert(keyof(m.img, m.size, r));
    }
}
static std::string check()
{
    const Scen &s = *Sc;
    if (!bodyviol.empty())
        return bodyviol;
    for (size_t i = 0; i < s.th.size(); i++) {
        ThRes &r = R[i];
        if (!r.done)
            return mc::fmt("thread %zu never finished", i);
        bool stuck = false;
        int64_t least = 0;
        for (size_t k = 0; k < s.th[i].size(); k++) {
            stuck = stuck || slots[i][k] == NONE;
            if (s.th[i][k].kind == WAIT && slots[i][k] == 2)
                least += s.th[i][k].timeout;
        }
        if (r.ret != 0 && !(stuck && r.ret == TW_TRAP && r.trap == TWT_THREXIT))
            return mc::fmt("thread %zu ended with %d (%s)", i, r.ret,
                           tw_trap_name(r.trap));
        if (r.t1 - r.t0 < least)
            return mc::fmt("thread %zu timed out after %lld ns instead of %lld", i,
                           (long long)(r.t1 - r.t0), (long long)least);
        if (stuck)
            X->add(c_stuck);
        /* alone, a wait lasts exactly as long as it has to */
        if (s.th.size() == 1 && s.th[0].size() == 1 && s.th[0][0].kind == WAIT && !stuck) {
            uint64_t res = slots[0][0];
            int64_t end = lastresume, t = s.th[0][0].timeout;
            if (res == 2)
                end = std::max(end, r.t0 + t);
            if (s.change && lastresume != r.t0 && res != 1)
                return mc::fmt("the changed value was not noticed after an interruption: %llu",
                               (unsigned long long)res);
            if (r.t1 < end || r.t1 > end + 100000000)
                return mc::fmt("a wait of %lld ns ended with %llu after %lld ns, %lld ns after it was last "
                               "resumed", (long long)t, (unsigned long long)res, (long long)(r.t1 - r.t0),
                               (long long)(r.t1 - lastresume));
        }
        if (s.intr)
            continue;
    }
    std::string k = keyof(fimg, fsize, slots);
    X->outcome(mc::fnv(k));
    if (!s.intr && !allowed.count(k)) {
        std::string w;
        int n = 0;
        for (auto &a : allowed)
            if (n++ < 6)
                w += "\n  " + a;
        return "outcome is none of any sequential order: " + k + "; allowed:" + w;
    }
    if (ms::S.nlive != 0)
        return mc::fmt("%lld allocations leaked", (long long)ms::S.nlive);
    if (tw_env_allocated(Env) != base_alloc)
        return "heap accounting does not return to its value";
    return "";
}
static std::string text(const Scen &s)
{
    std::string t;
    for (size_t i = 0; i < s.th.size(); i++) {
        t += mc::fmt("T%zu:", i);
        for (auto &o : s.th[i])
            t += " [" + o.name + "]";
        t += "; ";
    }
    return t + mc::fmt("initially %llx", (unsigned long long)s.init);
}

static std::vector<Scen> scens;

static Op atop(const at::Op &o, uint32_t addr, uint64_t a, uint64_t b, unsigned mem = 0)
{
    return Op{AT, mc::fmt("%s @%u %llx %llx", o.name.c_str(), addr, (unsigned long long)a,
                          (unsigned long long)b),
              mem, addr, o.bits, a, b, 0, o};
}
static Op wait(unsigned bits, uint32_t addr, uint64_t e, int64_t t, unsigned mem = 0)
{
    return Op{WAIT, mc::fmt("wait%u m%u@%u %llx timeout %lld", bits, mem, addr, (unsigned long long)e, (long long)t),
              mem, addr, bits, e, 0, t, at::Op()};
}
static Op notify(uint32_t addr, uint32_t n, unsigned mem = 0)
{
    return Op{NOTIFY, mc::fmt("notify m%u@%u %u", mem, addr, n), mem, addr, 32, n, 0, 0, at::Op()};
}

int main(int argc, char **argv)
{
    mc::Explorer ex(argc, argv, "thratom");
    X = &ex;
    c_exec = ex.counter("executions");
    c_pts = ex.counter("transitions");
    c_scen = ex.counter("scenarios");
    c_stuck = ex.counter("waits_that_last");
    bool th = ex.opt.thorough();
    std::string part = ex.opt.get("part", "wait");
    auto all = at::ops();
    if (part == "ops") {
        /* every pair of instructions on overlapping bytes */
        std::vector<Op> v;
        for (auto &o : all) {
            if (o.kind == at::CMPX) {
                /* expected: what is there, or what the partner may write */
                v.push_back(atop(o, 0, INIT[0] & at::mask(o.bits), 0xa1a2a3a4a5a6a7a8ull));
            } else
                v.push_back(atop(o, 0, o.rmw == at::AND ? 0x0ff00ff00ff00ff1ull : 0x8182838485868788ull, 0));
            if (o.bits < 64 && o.stack == 32)
                v.push_back(atop(o, o.bits / 8, o.kind == at::CMPX ? (INIT[0] >> o.bits) & at::mask(o.bits) : 0x91929394, 0xb1b2b3b4));
        }
        for (size_t i = 0; i < v.size(); i++)
            for (size_t j = i; j < v.size(); j++)
                scens.push_back({{{v[i]}, {v[j]}}, 2, INIT[0]});
        /* two instructions each */
        std::vector<Op> w;
        for (auto &o : all) {
            if (o.bits != 32 && !(o.bits == 8 && o.stack == 32) && !(o.bits == 64))
                continue;
            if (o.kind == at::RMW && o.rmw != at::ADD && o.rmw != at::XCHG)
                continue;
            if (o.stack == 64 && o.bits == 32)
                continue;
            w.push_back(atop(o, o.bits == 8 ? 1 : 0, o.kind == at::CMPX ? 5 : 5, 7));
        }
        for (size_t a = 0; a < w.size(); a++)
            for (size_t b = 0; b < w.size(); b++)
                for (size_t c = a; c < w.size(); c++)
                    for (size_t d = 0; d < w.size(); d++) {
                        if (!th && (w[a].bits != w[b].bits || w[c].bits != w[d].bits))
                            continue;
                        scens.push_back({{{w[a], w[b]}, {w[c], w[d]}}, th ? 3 : 2, 5});
                    }
        /* three threads */
        for (size_t a = 0; a < w.size(); a++)
            for (size_t b = a; b < w.size(); b++)
                for (size_t c = b; c < w.size(); c++)
                    scens.push_back({{{w[a]}, {w[b]}, {w[c]}}, th ? 3 : 2, 5});
    } else if (part == "intr") {
        for (int64_t t : {0ll, 1ll, 49999999ll, 50000000ll, 50000001ll, 130000000ll, 400000000ll, 999999999ll, 1000000000ll})
            for (unsigned bits : {32u, 64u})
                for (unsigned k : {1u, 2u, 3u, 4u, 5u})
                    for (unsigned mx : {1u, 2u, 3u})
                        for (int64_t away : {0ll, 1ll, 20000000ll, 49999999ll, 60000000ll, 500000000ll, 3000000000ll})
                            for (bool ch : {false, true})
                                scens.push_back({{{wait(bits, 0, 0, t)}}, 0, 0, k, mx, away, ch});
    } else {
        const int64_t INF = -1, T70 = 70000000;
        auto find = [&](unsigned code) {
            for (auto &o : all)
                if (o.code == code)
                    return o;
            abort();
        };
        at::Op st = find(0x17), add = find(0x1e), st64 = find(0x18);
        std::vector<Op> A{wait(32, 0, 0, INF), wait(32, 0, 0, T70), wait(32, 0, 1, INF), wait(32, 8, 0, INF),
                          wait(64, 0, 0, INF), wait(32, 0, 0, INF, 1), wait(32, 0, 0, 0), notify(0, 1), notify(0, 0),
                          notify(0, 0xffffffff), notify(8, 1), notify(4, 1), notify(0, 1, 1), atop(st, 0, 1, 0),
                          atop(st, 0, 0, 0), atop(st64, 0, 1ull << 40, 0), atop(add, 0, 1, 0),
                          Op{GROW, "grow", 0, 0, 32, 0, 0, 0, at::Op()}};
        size_t nA = A.size();
        auto waits = [](const std::vector<Prog> &v) {
            for (auto &p : v)
                for (auto &o : p)
                    if (o.kind == WAIT)
                        return true;
            return false;
        };
        auto addsc = [&](const std::vector<Prog> &v, int b) {
            if (waits(v))
                scens.push_back({v, b, 0});
        };
        for (size_t a = 0; a < nA; a++) {
            addsc({{A[a]}}, 3);
            for (size_t b = a; b < nA; b++)
                addsc({{A[a]}, {A[b]}}, th ? 3 : 2);
        }
        auto core = [](size_t i) {
            return i < 3 || i == 4 || i == 7 || i == 9 || i == 13 || i == 16 || i == 17;
        };
        for (size_t a = 0; a < nA; a++)
            for (size_t b = 0; b < nA; b++)
                for (size_t c = 0; c < nA; c++) {
                    if (th || (core(a) && core(b) && core(c)))
                        addsc({{A[a], A[b]}, {A[c]}}, 2);
                    if (a <= b && b <= c)
                        addsc({{A[a]}, {A[b]}, {A[c]}}, th ? 2 : 1);
                }
        /* more waiters and notifiers */
        std::vector<Prog> P{{notify(0, 1), notify(0, 1)},
                            {notify(0, 2)},
                            {notify(0, 3)},
                            {atop(st, 0, 1, 0), notify(0, 1)},
                            {atop(st, 0, 1, 0), notify(0, 0xffffffff)},
                            {notify(0, 1), atop(st, 0, 1, 0), notify(0, 1)},
                            {notify(0, 0), notify(0, 1), notify(8, 1)}};
        std::vector<Op> W{wait(32, 0, 0, INF), wait(32, 0, 0, T70), wait(64, 0, 0, INF), wait(32, 8, 0, INF)};
        for (auto &p : P)
            for (size_t a = 0; a < W.size(); a++)
                for (size_t b = a; b < W.size(); b++) {
                    addsc({p, {W[a]}, {W[b]}}, 2);
                    addsc({{W[a]}, {W[b]}, p, {notify(0, 1)}}, th ? 2 : 1);
                    for (size_t c = b; c < W.size(); c++)
                        addsc({{W[a]}, {W[b]}, {W[c]}, p}, th ? 2 : 1);
                }
        if (th)
            for (size_t a = 0; a < nA; a++)
                for (size_t b = 0; b < nA; b++)
                    for (size_t c = 0; c < nA; c++)
                        for (size_t d = a; d < nA; d++)
                            addsc({{A[a], A[b]}, {A[d], A[c]}}, 2);
        /* timeouts */
        for (int64_t t : {(int64_t)0, (int64_t)1, (int64_t)49999999, (int64_t)50000000, (int64_t)50000001,
                          (int64_t)130000000, INT64_MAX, INT64_MIN, (int64_t)-2, (int64_t)999999999, (int64_t)1000000000})
            for (unsigned bits : {32u, 64u}) {
                if (t < 100000000 || t < 0)
                    scens.push_back({{{wait(bits, 0, 0, t)}}, 2, 0});
                scens.push_back({{{wait(bits, 0, 0, t)}, {notify(0, 1)}}, 2, 0});
                scens.push_back({{{wait(bits, 0, 1, t)}, {notify(0, 1)}}, 2, 0});
            }
    }
    const int NS = 1;
    ex.run(scens.size() * (uint64_t)NS, [&](uint64_t idx) {
        Sc = &scens[idx / NS];
        if (!Env) {
            Env = tw_env_new();
            ms::S.ignore.push_back({(uintptr_t)tw_env_mctx(Env),
                                    (uintptr_t)tw_env_mctx(Env) + tc_mctx_size()});
        }
        if (mods.size() > 3000) {
            for (auto &m : mods)
                tw_unload(m.second);
            mods.clear();
        }
        Om = getmod(ownermod());
        Pm.clear();
        bool longw = false;
        for (size_t i = 0; i < Sc->th.size(); i++) {
            Pm.push_back(getmod(progmod(Sc->th[i], (int)i)));
            for (auto &o : Sc->th[i])
                longw = longw || (o.kind == WAIT && o.timeout > 100000000);
        }
        base_alloc = tw_env_allocated(Env);
        allowed.clear();
        MState m0;
        for (int k = 0; k < 2; k++) {
            at::put(m0.img[k], 64, Sc->init);
            at::put(m0.img[k] + 8, 64, INIT[1]);
            m0.size[k] = MIN;
        }
        m0.pc.assign(Sc->th.size(), 0);
        m0.st.assign(Sc->th.size(), RUNNING);
        m0.res.resize(Sc->th.size());
        std::set<std::string> seen;
        outcomes(*Sc, m0, seen);
        bool huge = false;
        for (auto &p : Sc->th)
            for (auto &o : p)
                huge = huge || (o.kind == WAIT && o.timeout > 1000000000000ll);
        if (huge) { /* does not end within the bounds, if nobody wakes it */
            Scen s2 = *Sc;
            for (auto &p : s2.th)
                for (auto &o : p)
                    if (o.kind == WAIT)
                        o.timeout = -1;
            std::set<std::string> seen2;
            allowed.clear();
            outcomes(s2, m0, seen2);
        }
        ms::S.cfg = ms::Cfg();
        ms::S.cfg.bound = Sc->bound;
        ms::S.cfg.idle = longw ? 30 : 3 * (int)Sc->th.size();
        auto r = ms::explore(
            [] {
                R.assign(Sc->th.size(), ThRes());
                bodyviol.clear();
                body();
            },
            check, (int)(idx % NS), NS, X);
        X->add(c_exec, r.execs);
        X->add(c_pts, r.points);
        X->add(c_scen);
        if (!r.ok) {
            X->fail("%s\nschedule: %s\n%s", text(*Sc).c_str(),
                    ms::devtext(r.devs).c_str(), r.viol.c_str());
            Env = nullptr;
            mods.clear();
            ms::S.ignore.clear();
        }
    });
    for (size_t i = 0; i < scens.size(); i += scens.size() / 6 + 1)
        ex.sample(text(scens[i]));
    return ex.finish();
}
