/*
 * Heap accounting shared by threads: every interleaving (within the deviation
 * bound) of allocating, extending, shrinking and freeing on two contexts with
 * a common parent, with limits on any of them.
 */
#include <cstring>
#include "mc.hpp"
#include "msched.hpp"
#include "tw.h"

extern "C" {
void *mem_alloc(struct mem_context *, size_t);
void mem_free(struct mem_context *, void *, size_t);
void *mem_extend(struct mem_context *, void *, size_t, size_t);
void *mem_shrink(struct mem_context *, void *, size_t, size_t);
}

static mc::Explorer *X;
static int c_exec, c_pts, c_scen;

/* A: allocate 10, E: extend 10 -> 16, S: shrink 16 -> 4, G: allocate 7 more */
struct Scen {
    std::vector<std::string> th;
    size_t lim[3]; /* contexts 0, 1 and their parent */
    int bound;
};
static const Scen *Sc;
static std::string text(const Scen &s)
{
    std::string d = mc::fmt("limits %zd/%zd/%zd", (ssize_t)s.lim[0], (ssize_t)s.lim[1], (ssize_t)s.lim[2]);
    for (auto &t : s.th)
        d += " | " + t;
    return d;
}
static tw_env *Env[3];
static bool ok[4][6];
static size_t held[4];
static char viol[200];
static size_t seen[3], peak[3], left[3];

static void look()
{
    for (int i = 0; i < 3; i++) {
        size_t a = tw_env_allocated(Env[i]);
        if (a > Sc->lim[i])
            snprintf(viol, sizeof(viol), "%zu bytes are accounted with the limit %zu (context %d)", a, Sc->lim[i], i);
        if (a > seen[i])
            seen[i] = a;
    }
}
/* "xy..": the first letter picks the context */
static void thread(size_t t)
{
    const std::string &p = Sc->th[t];
    struct mem_context *c = tw_env_mctx(Env[p[0] - '0']);
    void *v = nullptr, *g = nullptr;
    size_t sz = 0;
    for (size_t k = 1; k < p.size(); k++) {
        void *n;
        switch (p[k]) {
        case 'A':
            v = mem_alloc(c, 10);
            ok[t][k] = v != nullptr;
            if (v) {
                sz = 10;
                memset(v, 1, 10);
            }
            break;
        case 'E':
            if (!v)
                break;
            n = mem_extend(c, v, sz, 16);
            ok[t][k] = n != nullptr;
            if (n) {
                v = n;
                sz = 16;
            }
            break;
        case 'S':
            if (!v)
                break;
            n = mem_shrink(c, v, sz, 4);
            if (n) {
                v = n;
                sz = 4;
            }
            break;
        case 'G':
            g = mem_alloc(c, 7);
            ok[t][k] = g != nullptr;
            break;
        case 'F':
            if (v)
                mem_free(c, v, sz);
            v = nullptr;
            sz = 0;
            break;
        }
        look();
    }
    held[t] = sz + (g ? 7 : 0);
    if (v)
        mem_free(c, v, sz);
    if (g)
        mem_free(c, g, 7);
    look();
}
static void body()
{
    size_t n = Sc->th.size();
    int id[4];
    for (int i = 0; i < 3; i++)
        Env[i] = tw_env_new();
    for (int i = 0; i < 2; i++)
        tw_env_setparent(Env[i], Env[2]);
    for (int i = 0; i < 3; i++)
        tw_env_setlimit(Env[i], Sc->lim[i]);
    for (size_t t = 0; t < n; t++)
        id[t] = ms::spawn([t] { thread(t); });
    for (size_t t = 0; t < n; t++)
        ms::join(id[t]);
    for (int i = 0; i < 3; i++) {
        peak[i] = tw_env_peak(Env[i]);
        left[i] = tw_env_free(Env[i]);
    }
}
static size_t most(const std::string &p)
{
    size_t m = 0, v = 0, g = 0;
    for (size_t k = 1; k < p.size(); k++) {
        if (p[k] == 'A')
            v = 10;
        if (p[k] == 'E')
            v = 16;
        if (p[k] == 'S')
            v = 4;
        if (p[k] == 'F')
            v = 0;
        if (p[k] == 'G')
            g = 7;
        m = std::max(m, v + g);
    }
    return m;
}
static std::string check()
{
    if (viol[0])
        return viol;
    if (ms::S.nlive != 0)
        return mc::fmt("%lld allocations leaked", (long long)ms::S.nlive);
    for (int i = 0; i < 3; i++) {
        if (left[i])
            return mc::fmt("%zd bytes stay accounted to context %d", (ssize_t)left[i], i);
        size_t p = peak[i];
        if (p > Sc->lim[i])
            return mc::fmt("the peak of context %d is %zu with the limit %zu", i, p, Sc->lim[i]);
        if (p < seen[i])
            return mc::fmt("the peak of context %d is %zu, but %zu bytes were accounted", i, p, seen[i]);
    }
    /* never refused if everything the threads ever hold fits */
    size_t need[3] = {0, 0, 0};
    uint64_t h = 0;
    for (size_t t = 0; t < Sc->th.size(); t++) {
        size_t m = most(Sc->th[t]);
        need[Sc->th[t][0] - '0'] += m;
        need[2] += m;
        for (int k = 0; k < 6; k++)
            h = h * 2 + ok[t][k];
    }
    bool fits = need[0] <= Sc->lim[0] && need[1] <= Sc->lim[1] && need[2] <= Sc->lim[2];
    for (size_t t = 0; t < Sc->th.size(); t++)
        for (size_t k = 1; k < Sc->th[t].size(); k++)
            if (fits && strchr("AEG", Sc->th[t][k]) && !ok[t][k])
                return mc::fmt("thread %zu is refused memory although everything fits", t + 1);
    X->outcome(mc::fnv(text(*Sc)) ^ h);
    return "";
}

static std::vector<Scen> scens;
int main(int argc, char **argv)
{
    mc::Explorer ex(argc, argv, "thrmem");
    X = &ex;
    c_exec = ex.counter("executions");
    c_pts = ex.counter("transitions");
    c_scen = ex.counter("scenarios");
    bool th = ex.opt.thorough();
    const char *progs[] = {"A", "AE", "AES", "AG", "AF", "AEF"};
    std::vector<std::string> p;
    for (const char *c : {"0", "1"})
        for (const char *q : progs)
            p.push_back(std::string(c) + q);
    size_t U = SIZE_MAX;
    const size_t lims[][3] = {{U, U, U}, {16, U, U}, {26, U, U}, {U, U, 16}, {U, U, 26}, {U, U, 20}, {20, 16, 26}, {32, 32, 32}, {33, 23, 46}};
    for (auto &l : lims)
        for (size_t i = 0; i < p.size(); i++)
            for (size_t j = i; j < p.size(); j++) {
                if (p[i][0] == '1')
                    continue;
                scens.push_back({{p[i], p[j]}, {l[0], l[1], l[2]}, th ? 4 : 3});
                for (size_t k = j; k < p.size(); k++)
                    if (p[i].size() + p[j].size() + p[k].size() <= (th ? 10u : 8u))
                        scens.push_back({{p[i], p[j], p[k]}, {l[0], l[1], l[2]}, th ? 3 : 2});
            }
    ex.run(scens.size(), [&](uint64_t idx) {
        Sc = &scens[idx];
        ms::S.cfg = ms::Cfg();
        ms::S.cfg.bound = Sc->bound;
        auto r = ms::explore(
            [] {
                viol[0] = 0;
                memset(ok, 0, sizeof(ok));
                memset(seen, 0, sizeof(seen));
                body();
            },
            check, 0, 1, X);
        X->add(c_scen);
        X->add(c_exec, r.execs);
        X->add(c_pts, r.points);
        if (!r.ok)
            X->fail("%s\nschedule: %s\n%s", text(*Sc).c_str(), ms::devtext(r.devs).c_str(), r.viol.c_str());
    });
    for (size_t i = 0; i < scens.size(); i += scens.size() / 6 + 1)
        ex.sample(text(scens[i]));
    return ex.finish();
}
