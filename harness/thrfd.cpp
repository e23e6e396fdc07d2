/*
 * C16: the WASI descriptor table used by several threads, under every
 * schedule within the bounds, against an atomic table.
 */
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include "msched.hpp"
#include "threadsc.h"
#include "scratch.hpp"
#include "wasi.hpp"

using namespace ws;

static mc::Explorer *X;
static int c_exec, c_pts, c_scen;
static tw_env *Env;
static tw_mod *Gm;

/* at the start 3 is the preopened directory, 4 and 5 are files, 6 the directory */
enum OpK { CL, RN, RD, OP, ST, LS };
struct Op {
    OpK k;
    uint32_t a, b;
};
static std::string optext(const Op &o)
{
    switch (o.k) {
    case CL: return mc::fmt("close(%u)", o.a);
    case RN: return mc::fmt("renumber(%u, %u)", o.a, o.b);
    case RD: return mc::fmt("pread(%u)", o.a);
    case OP: return "open";
    case ST: return mc::fmt("filestat(%u)", o.a);
    case LS: return mc::fmt("readdir(%u)", o.a);
    }
    return "";
}
typedef std::vector<Op> Prog;
struct Scen {
    std::vector<Prog> th;
    int bound;
};
static const Scen *Sc;
static std::string text(const Scen &s)
{
    std::string r;
    for (size_t i = 0; i < s.th.size(); i++) {
        r += mc::fmt("T%zu:", i + 1);
        for (auto &o : s.th[i])
            r += " " + optext(o) + ";";
        r += " ";
    }
    return r;
}

/* ---------------------------------------------------------- the guest */
static const Fn used[] = {fd_close, fd_renumber, fd_pread, path_open, fd_filestat_get, fd_readdir};
static Bytes guest()
{
    Module m;
    for (Fn f : used) {
        FT t;
        for (const char *s = fn_sig[f]; *s; s++)
            t.p.push_back(*s == 'i' ? T_I32 : T_I64);
        t.r.push_back(T_I32);
        Import i;
        i.mod = "wasi_snapshot_preview1";
        i.name = fn_name[f];
        i.kind = 0;
        i.typeidx = m.type(t);
        m.imports.push_back(i);
    }
    for (uint32_t f = 0; f < sizeof(used) / sizeof(used[0]); f++) {
        Bytes b;
        FT t = m.types[m.imports[f].typeidx];
        for (uint32_t k = 0; k < t.p.size(); k++)
            lget(b, k);
        u8(b, 0x10), uleb(b, f);
        m.func(t, b);
    }
    Lim l;
    l.min = 1;
    m.mems.push_back(l);
    m.exp("memory", 2, 0);
    return m.encode();
}
static tw_inst *In;
static int wcall(Fn f, std::initializer_list<uint64_t> a)
{
    twv v[12], r[1] = {{0, 0}};
    size_t n = 0;
    for (uint64_t k : a)
        v[n++] = {k, 0};
    uint32_t nu = sizeof(used) / sizeof(used[0]), idx = 0;
    while (used[idx] != f)
        idx++;
    int trap = 0;
    int rc = tw_call(In, nu + idx, v, r, nullptr, &trap);
    return rc ? 10000 + trap : (int)r[0].lo;
}

/* ------------------------------------------------ host descriptors */
static bool watching;
static int bad_close;
extern "C" {
int __real_close(int);
int __real_closedir(DIR *);
int __wrap_close(int);
int __wrap_closedir(DIR *);
int __wrap_close(int fd)
{
    int r = __real_close(fd), e = errno;
    if (watching && r != 0)
        bad_close = 1;
    errno = e;
    return r;
}
int __wrap_closedir(DIR *d)
{
    int r = __real_closedir(d), e = errno;
    if (watching && r != 0)
        bad_close = 1;
    errno = e;
    return r;
}
}
static int nfds()
{
    int n = 0;
    for (int i = 0; i < 120; i++)
        n += fcntl(i, F_GETFD) >= 0;
    return n;
}

/* ---------------------------------------------------------- execution */
/* per operation: errno * 256 + value */
static int res[4][4];
static uint32_t finalt[12];
static char bodyviol[200];
static std::string dir;
static size_t base_alloc;
static int base_fds;
static uint32_t area(size_t t) { return 1024 + 2048 * (uint32_t)t; }
static int pread1(uint32_t fd, uint32_t at)
{
    tw_mem_write(In, 0, at + 64, "\0", 1);
    int e = wcall(fd_pread, {fd, at, 1, 0, at + 16});
    uint8_t c = 0;
    uint32_t n = 0;
    tw_mem_read(In, 0, at + 64, &c, 1);
    tw_mem_read(In, 0, at + 16, &n, 4);
    return e ? e * 256 : n == 1 ? c : 255;
}
static int open1(int file, uint32_t at)
{
    char name[2] = {'f', (char)('a' + file)};
    tw_mem_write(In, 0, at + 80, name, 2);
    uint32_t fd = 0;
    int e = wcall(path_open, {3, 0, at + 80, 2, 0, R_READ, 0, 0, at + 24});
    tw_mem_read(In, 0, at + 24, &fd, 4);
    return e ? e * 256 : (int)fd;
}
static void iov(uint32_t at)
{
    uint32_t v[2] = {at + 64, 1};
    tw_mem_write(In, 0, at, v, 8);
}
static int nent;
static void thread(size_t t)
{
    const Prog &p = Sc->th[t];
    uint32_t at = area(t);
    for (size_t k = 0; k < p.size(); k++) {
        const Op &o = p[k];
        int r = 0;
        switch (o.k) {
        case CL:
            r = wcall(fd_close, {o.a}) * 256;
            break;
        case RN:
            r = wcall(fd_renumber, {o.a, o.b}) * 256;
            break;
        case RD:
            r = pread1(o.a, at);
            break;
        case OP:
            r = open1(2 + (int)(2 * t + k), at);
            break;
        case ST: {
            uint64_t size = 0;
            r = wcall(fd_filestat_get, {o.a, at + 128}) * 256;
            if (r == 0) {
                tw_mem_read(In, 0, at + 128 + 32, &size, 8);
                r = (int)size;
            }
            break;
        }
        case LS: {
            uint32_t n = 0;
            r = wcall(fd_readdir, {o.a, at + 256, 1024, 0, at + 28}) * 256;
            if (r == 0) {
                /* number of entries; their names have one or two bytes */
                tw_mem_read(In, 0, at + 28, &n, 4);
                uint32_t e = 0, q = 0;
                while (q + 24 <= n) {
                    uint32_t l = 0;
                    tw_mem_read(In, 0, at + 256 + q + 16, &l, 4);
                    if (l > 2)
                        break;
                    q += 24 + l;
                    e++;
                }
                r = q == n ? (int)e : 254;
            }
            break;
        }
        }
        res[t][k] = r;
    }
}
static void body()
{
    int err = 0, trap = 0;
    size_t n = Sc->th.size();
    wz *w = wz_new(Env, &err);
    if (!w || wz_preopen(w, (dir + "::/d").c_str()) != 0) {
        snprintf(bodyviol, sizeof(bodyviol), "no wasi instance");
        return;
    }
    tw_imports *im = tw_imports_new(Env);
    if (wz_imports(w, im) != 0 || !(In = tw_instantiate(Gm, im, &err, &trap))) {
        snprintf(bodyviol, sizeof(bodyviol), "no instance");
        return;
    }
    wz_memory(w, In, 0);
    for (size_t t = 0; t <= n; t++)
        iov(area(t));
    for (int f = 0; f < 2; f++)
        if (open1(f, area(n)) != 4 + f) {
            snprintf(bodyviol, sizeof(bodyviol), "the files cannot be opened");
            return;
        }
    tw_mem_write(In, 0, area(n) + 80, ".", 1);
    if (wcall(path_open, {3, 0, area(n) + 80, 1, O_W_DIRECTORY, R_READ, 0, 0, area(n) + 24}) != 0) {
        snprintf(bodyviol, sizeof(bodyviol), "the directory cannot be opened");
        return;
    }
    int id[4];
    for (size_t t = 0; t < n; t++)
        id[t] = ms::spawn([t] { thread(t); });
    for (size_t t = 0; t < n; t++)
        ms::join(id[t]);
    for (uint32_t fd = 4; fd < 12; fd++)
        finalt[fd] = fd == 6 ? 256 : (uint32_t)pread1(fd, area(n));
    tw_inst_destroy(In);
    tw_imports_free(im);
    wz_free(w);
    if (tw_env_allocated(Env) != base_alloc)
        snprintf(bodyviol, sizeof(bodyviol), "heap accounting does not return to its start");
}

/* ---------------------------------------------------------- reference */
struct MState {
    int tab[12];
    size_t pc[4];
    int res[4][4];
};
static std::string key(const int (*r)[4], const uint32_t *ft)
{
    std::string s;
    for (size_t t = 0; t < Sc->th.size(); t++)
        for (size_t k = 0; k < Sc->th[t].size(); k++)
            s += r[t][k] >= 256 ? mc::fmt("T%zu.%zu=e%d ", t + 1, k, r[t][k] / 256) : mc::fmt("T%zu.%zu=%d ", t + 1, k, r[t][k]);
    for (int fd = 4; fd < 12; fd++)
        s += ft[fd] >= 256 ? mc::fmt("-") : mc::fmt("%c", ft[fd]);
    return s;
}
static void model(MState &m, std::set<std::string> &out)
{
    bool end = true;
    for (size_t t = 0; t < Sc->th.size(); t++) {
        if (m.pc[t] == Sc->th[t].size())
            continue;
        end = false;
        MState k = m;
        const Op &o = Sc->th[t][m.pc[t]];
        int r = 0;
        auto isopen = [&](uint32_t a) { return a < 12 && k.tab[a] >= 0; };
        switch (o.k) {
        case CL:
            if (isopen(o.a))
                k.tab[o.a] = -1;
            else
                r = E_BADF * 256;
            break;
        case RN:
            if (!isopen(o.a) || !isopen(o.b))
                r = E_BADF * 256;
            else if (o.a != o.b) {
                k.tab[o.b] = k.tab[o.a];
                k.tab[o.a] = -1;
            }
            break;
        case RD:
            r = isopen(o.a) ? k.tab[o.a] + 'a' : E_BADF * 256;
            break;
        case ST:
            r = isopen(o.a) ? k.tab[o.a] + 1 : E_BADF * 256;
            break;
        case LS:
            r = nent;
            break;
        case OP: {
            uint32_t n = 4;
            while (k.tab[n] >= 0)
                n++;
            k.tab[n] = 2 + (int)(2 * t + m.pc[t]);
            r = (int)n;
            break;
        }
        }
        k.res[t][k.pc[t]++] = r;
        model(k, out);
    }
    if (end) {
        uint32_t ft[12];
        for (int i = 4; i < 12; i++)
            ft[i] = i != 6 && m.tab[i] >= 0 ? (uint32_t)('a' + m.tab[i]) : 256u;
        out.insert(key(m.res, ft));
    }
}
static std::set<std::string> legal;

static std::string check()
{
    if (bodyviol[0])
        return bodyviol;
    if (bad_close)
        return "a host descriptor is closed twice";
    if (nfds() != base_fds)
        return mc::fmt("%d host descriptors are open at the end, not %d", nfds(), base_fds);
    if (ms::S.nlive != 0)
        return mc::fmt("%lld allocations leaked", (long long)ms::S.nlive);
    std::string k = key(res, finalt);
    X->outcome(mc::fnv(k));
    if (!legal.count(k)) {
        std::string l;
        for (auto &s : legal)
            l += "\n  " + s;
        return "outcome " + k + " is none of" + l;
    }
    return "";
}

static std::vector<Scen> scens;
int main(int argc, char **argv)
{
    scratch::Root root;
    mc::Explorer ex(argc, argv, "thrfd");
    X = &ex;
    c_exec = ex.counter("executions");
    c_pts = ex.counter("transitions");
    c_scen = ex.counter("scenarios");
    bool th = ex.opt.thorough();
    std::vector<Op> al{{CL, 4, 0}, {CL, 5, 0}, {RN, 4, 5}, {RN, 5, 4}, {RD, 4, 0}, {RD, 5, 0}, {OP, 0, 0}, {RN, 4, 7}, {ST, 4, 0}};
    std::vector<Prog> p1, p2;
    for (auto &a : al)
        p1.push_back({a});
    p1.push_back({{LS, 6, 0}});
    for (auto &a : al)
        for (auto &b : al)
            p2.push_back({a, b});
    p2.push_back({{LS, 6, 0}, {LS, 6, 0}});
    auto changes = [](const Prog &p) {
        for (auto &o : p)
            if (o.k != RD && o.k != ST)
                return true;
        return false;
    };
    /* a long operation */
    auto ls = [](const Prog &p) { return p[0].k == LS ? 1 : 0; };
    for (size_t i = 0; i < p1.size(); i++)
        for (size_t j = i; j < p1.size(); j++) {
            scens.push_back({{p1[i], p1[j]}, (th ? 4 : 3) - ls(p1[j])});
            for (size_t k = j; k < p1.size(); k++)
                if (changes(p1[i]) || changes(p1[j]) || changes(p1[k]))
                    scens.push_back({{p1[i], p1[j], p1[k]}, (th ? 3 : 2) - ls(p1[k])});
        }
    for (auto &a : p1)
        for (auto &b : p2)
            if (changes(a) || changes(b))
                scens.push_back({{a, b}, (th ? 3 : 2) - (ls(a) | ls(b))});
    for (size_t i = 0; i < p2.size(); i++)
        for (size_t j = i; j < p2.size(); j++)
            if (changes(p2[i]) || changes(p2[j]))
                scens.push_back({{p2[i], p2[j]}, th ? 2 : 1});
    ex.worker_init.push_back([&](int w) {
        dir = root.enter(w) + "/d";
        if (mkdir(dir.c_str(), 0755) != 0)
            abort();
        for (int i = 0; i < 12; i++) {
            std::string n = dir + "/f" + (char)('a' + i);
            int fd = open(n.c_str(), O_CREAT | O_WRONLY, 0644);
            std::string c((size_t)i + 1, (char)('a' + i));
            if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size())
                abort();
            close(fd);
        }
        nent = 14;
    });
    ex.run(scens.size(), [&](uint64_t idx) {
        Sc = &scens[idx];
        if (!Env) {
            Env = tw_env_new();
            Bytes b = guest();
            int err;
            char msg[200];
            Gm = tw_load(Env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
            if (!Gm)
                abort();
            ms::S.ignore.push_back({(uintptr_t)tw_env_mctx(Env), (uintptr_t)tw_env_mctx(Env) + tc_mctx_size()});
        }
        base_alloc = tw_env_allocated(Env);
        base_fds = nfds();
        legal.clear();
        MState m;
        memset(&m, 0, sizeof(m));
        for (int i = 0; i < 12; i++)
            m.tab[i] = -1;
        m.tab[4] = 0;
        m.tab[5] = 1;
        m.tab[6] = 99;
        model(m, legal);
        ms::S.cfg = ms::Cfg();
        ms::S.cfg.bound = Sc->bound;
        ms::S.cfg.unlock_points = true;
        auto r = ms::explore(
            [] {
                bodyviol[0] = 0;
                bad_close = 0;
                memset(res, 0, sizeof(res));
                watching = true;
                body();
                watching = false;
            },
            check, 0, 1, X);
        X->add(c_scen);
        X->add(c_exec, r.execs);
        X->add(c_pts, r.points);
        if (!r.ok) {
            X->fail("%s\nschedule: %s\n%s", text(*Sc).c_str(), ms::devtext(r.devs).c_str(), r.viol.c_str());
            Env = nullptr;
            ms::S.ignore.clear();
        }
    });
    root.done();
    for (size_t i = 0; i < scens.size(); i += scens.size() / 6 + 1)
        ex.sample(text(scens[i]));
    return ex.finish();
}
