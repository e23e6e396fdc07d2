/*
 * WASI arguments, environment, preopens, clocks, random, polling, blocking
 * descriptors, sockets and exit. Time is virtual: the clocks and poll are
 * replaced, so that every combination of timeouts, readiness instants and
 * interruptions is explored without waiting.
 */
#include <algorithm>
#include <poll.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include "scratch.hpp"
#include "wasi.hpp"

using namespace ws;
static mc::Explorer *X;
static int c_runs, c_calls;
static std::string W;
static tw_env *Env;
static tw_mod *Mod;
static size_t base_alloc;

/* ---- virtual time ---- */
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_clock_getres(clockid_t, struct timespec *);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
ssize_t __real_getrandom(void *, size_t, unsigned);
int __wrap_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_getres(clockid_t, struct timespec *);
int __wrap_poll(struct pollfd *, nfds_t, int);
int __wrap_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
ssize_t __wrap_getrandom(void *, size_t, unsigned);
}
static const uint64_t SEC = 1000000000ull, MS = 1000000ull, NEVER = ~0ull;
static const uint64_t RBASE = 1700000000ull * SEC + 123456789, MBASE = 5000ull * SEC + 987654321;
static struct {
    bool on = false;
    uint64_t vt = 0, tick = 0;
    uint64_t ev_at = NEVER;
    bool fired = false;
    bool hang = false;
    std::function<void()> fire;
    uint64_t polls = 0;
} V;
static void maybe_fire()
{
    if (!V.fired && V.ev_at <= V.vt) {
        V.fired = true;
        V.fire();
    }
}
/* fixed answers of the clocks, for the clock calls */
static struct {
    bool on = false;
    int err = 0;
    struct timespec ts[8];
} CK;
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (CK.on) {
        if (CK.err) {
            errno = CK.err;
            return -1;
        }
        *ts = CK.ts[(unsigned)id & 7];
        return 0;
    }
    if (!V.on)
        return __real_clock_gettime(id, ts);
    uint64_t t = (id == CLOCK_REALTIME ? RBASE : MBASE) + V.vt;
    V.vt += V.tick;
    ts->tv_sec = (time_t)(t / SEC);
    ts->tv_nsec = (long)(t % SEC);
    return 0;
}
int __wrap_clock_getres(clockid_t id, struct timespec *ts)
{
    return CK.on ? __wrap_clock_gettime(id, ts) : __real_clock_getres(id, ts);
}
static int vpoll(struct pollfd *p, nfds_t n, uint64_t wait)
{
    V.polls++;
    for (;;) {
        maybe_fire();
        int r = __real_poll(p, n, 0);
        if (r != 0)
            return r;
        if (wait == 0)
            return 0;
        uint64_t next = wait == NEVER ? NEVER : V.vt + wait;
        if (!V.fired && V.ev_at <= next && V.ev_at != NEVER) {
            uint64_t d = V.ev_at > V.vt ? V.ev_at - V.vt : 0;
            V.vt += d;
            wait = wait == NEVER ? NEVER : wait - d;
            continue;
        }
        if (next == NEVER || V.vt > 40 * 86400 * SEC || V.polls > 100000) {
            V.hang = true;
            errno = ENOMEM;
            return -1;
        }
        V.vt = next;
        wait = 0;
    }
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    if (!V.on)
        return __real_poll(p, n, ms);
    return vpoll(p, n, ms < 0 ? NEVER : (uint64_t)ms * MS);
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s)
{
    if (!V.on)
        return __real_ppoll(p, n, ts, s);
    return vpoll(p, n, ts ? (uint64_t)ts->tv_sec * SEC + (uint64_t)ts->tv_nsec : NEVER);
}
/* scripted getrandom: each call takes the next step */
static struct {
    bool on = false;
    std::vector<int> script; /* -errno, 0: all, n: at most n bytes */
    size_t pos = 0, filled = 0;
    bool badflags = false;
} RN;
ssize_t __wrap_getrandom(void *p, size_t n, unsigned fl)
{
    if (!RN.on)
        return __real_getrandom(p, n, fl);
    int s = RN.pos < RN.script.size() ? RN.script[RN.pos++] : 0;
    if (s < 0) {
        errno = -s;
        return -1;
    }
    size_t k = s == 0 ? n : std::min<size_t>(n, (size_t)s);
    for (size_t i = 0; i < k; i++)
        ((uint8_t *)p)[i] = (uint8_t)(1 + (RN.filled + i) % 251);
    RN.filled += k;
    return (ssize_t)k;
}

static std::string leakcheck()
{
    if (tw_env_allocated(Env) != base_alloc)
        return mc::fmt("%zd bytes stay accounted", (ssize_t)(tw_env_allocated(Env) - base_alloc));
    return "";
}
struct G : Guest {
    G()
    {
        std::string e = start(Env, Mod);
        if (!e.empty()) {
            fprintf(stderr, "%s\n", e.c_str());
            abort();
        }
    }
    void go()
    {
        std::string e = link();
        if (!e.empty()) {
            fprintf(stderr, "%s\n", e.c_str());
            abort();
        }
    }
};

/* ---- arguments and environment ---- */
static const char *const strs[] = {"", "a", "bc", "=", "x=y", "A=b=c ", "\xc3\xa9\x01"};
static const int NS = 8; /* the last one is long */
static std::string longstr(300, 'L');
static std::string check_list(Guest &g, bool env, bool un, const std::vector<const char *> &l, uint32_t at)
{
    const char *what = env ? "environ" : "args";
    uint32_t total = 0;
    for (auto s : l)
        total += (uint32_t)strlen(s) + 1;
    g.fill(0, 0xa5, 4096);
    X->add(c_calls, 2);
    Res r = g.call(env ? environ_sizes_get : args_sizes_get, {16, 24}, un);
    if (!r.ok())
        return mc::fmt("%s_sizes_get: %s", what, r.str().c_str());
    if (g.get32(16) != l.size() || g.get32(24) != total)
        return mc::fmt("%s_sizes_get reports %u strings in %u bytes, set were %zu in %u", what, g.get32(16), g.get32(24), l.size(), total);
    g.put32(16, 0xa5a5a5a5), g.put32(24, 0xa5a5a5a5);
    uint32_t buf = at + (uint32_t)l.size() * 4 + 3;
    r = g.call(env ? environ_get : args_get, {at, buf}, un);
    if (!r.ok())
        return mc::fmt("%s_get: %s", what, r.str().c_str());
    std::string exp(4096, (char)0xa5);
    uint32_t p = buf;
    for (size_t i = 0; i < l.size(); i++) {
        memcpy(&exp[at + 4 * i], &p, 4);
        memcpy(&exp[p], l[i], strlen(l[i]) + 1);
        p += (uint32_t)strlen(l[i]) + 1;
    }
    std::string got = g.gets(0, 4096);
    if (got != exp) {
        size_t i = 0;
        while (got[i] == exp[i])
            i++;
        return mc::fmt("%s_get of %zu strings: byte %zu is %02x instead of %02x", what, l.size(), i, (uint8_t)got[i], (uint8_t)exp[i]);
    }
    return "";
}
static std::string part_env(uint64_t idx, int n)
{
    std::vector<const char *> a, e;
    for (int i = 0; i < n; i++) {
        int k = (int)(idx % NS);
        idx /= NS;
        a.push_back(k == NS - 1 ? longstr.c_str() : strs[k]);
    }
    e.assign(a.rbegin(), a.rend());
    if (!e.empty())
        e.push_back("Z=");
    X->add(c_runs);
    {
        G g;
        wz_args(g.w, (int)a.size(), a.data());
        wz_environ(g.w, (int)e.size(), e.data());
        g.go();
        for (int un = 0; un < 2; un++)
            for (int env = 0; env < 2; env++) {
                std::string d = check_list(g, env, un, env ? e : a, 32 + 4 * (uint32_t)un);
                if (!d.empty())
                    return d;
            }
    }
    return leakcheck();
}

/* ---- preopens ---- */
struct Pre {
    const char *host; /* below the scratch directory */
    const char *guest; /* null: the host path */
};
static const Pre pres[] = {{"p1", "/"}, {"p2", "."}, {"p1/sub", "a"}, {"p2", ""}, {"p1", "x y/z::w"}, {"p2", nullptr}, {"p1/sub", nullptr}, {"p2/", "/p/"}};
static const int NP = 8;
static std::string part_pre(uint64_t idx, int n)
{
    std::vector<Pre> l;
    for (int i = 0; i < n; i++) {
        l.push_back(pres[idx % NP]);
        idx /= NP;
    }
    X->add(c_runs);
    {
        G g;
        std::vector<std::string> names;
        for (auto &p : l) {
            std::string h = W + "/" + p.host;
            std::string spec = p.guest ? h + "::" + p.guest : h;
            names.push_back(p.guest ? p.guest : h);
            if (wz_preopen(g.w, spec.c_str()))
                return "cannot preopen " + spec;
        }
        g.go();
        for (int un = 0; un < 2; un++) {
            for (size_t i = 0; i < l.size(); i++) {
                uint32_t fd = 3 + (uint32_t)i;
                g.fill(0, 0xa5, 1024);
                X->add(c_calls, 4);
                Res r = g.call(fd_prestat_get, {fd, 16}, un);
                if (!r.ok() || g.get8(16) != 0 || g.get32(20) != names[i].size())
                    return mc::fmt("fd_prestat_get of preopen %zu (%s): %s, type %d, length %u", i, names[i].c_str(), r.str().c_str(), g.get8(16), g.get32(20));
                for (uint32_t extra = 0; extra < 3; extra++) {
                    g.fill(0, 0xa5, 1024);
                    r = g.call(fd_prestat_dir_name, {fd, 33, names[i].size() + extra}, un);
                    std::string m = g.gets(0, 1024), e(1024, (char)0xa5);
                    memcpy(&e[33], names[i].data(), names[i].size());
                    if (extra) /* whether the rest is touched is not said */
                        for (uint32_t k = 0; k < extra; k++)
                            m[33 + names[i].size() + k] = (char)0xa5;
                    if (!r.ok() || m != e)
                        return mc::fmt("fd_prestat_dir_name of preopen %zu (%s) with %u spare bytes: %s or a different name", i, names[i].c_str(), extra, r.str().c_str());
                }
                if (!names[i].empty()) {
                    r = g.call(fd_prestat_dir_name, {fd, 33, names[i].size() - 1}, un);
                    if (r.ok())
                        return "fd_prestat_dir_name succeeds with a buffer that is too small for " + names[i];
                }
                /* the descriptor is the directory it stands for */
                g.put(100, "id");
                r = g.call(path_filestat_get, {fd, 0, 100, 2, 128}, un);
                struct stat st;
                if (stat((W + "/" + l[i].host + "/id").c_str(), &st) != 0)
                    abort();
                if (!r.ok() || g.get64(136) != st.st_ino)
                    return mc::fmt("a file below preopen %zu (%s): %s or a different one", i, names[i].c_str(), r.str().c_str());
            }
            uint32_t past = 3 + (uint32_t)l.size();
            for (uint32_t fd : {past, past + 1, 0u, 0xffffffffu}) {
                Res r = g.call(fd_prestat_get, {fd, 16}, un);
                Res r2 = g.call(fd_prestat_dir_name, {fd, 16, 100}, un);
                if (r.rc || r.err != E_BADF || r2.rc || r2.err != E_BADF)
                    return mc::fmt("fd_prestat_get/dir_name of %u with %zu preopens: %s, %s", fd, l.size(), r.str().c_str(), r2.str().c_str());
            }
        }
    }
    return leakcheck();
}

/* ---- clocks and random ---- */
static std::string part_clock()
{
    static const uint64_t secs[] = {0, 1, 1000, 4294967295ull, 4294967296ull, 1700000000ull, 9223372036ull};
    static const long nsecs[] = {0, 1, 999, 1000000, 500000000, 999999999};
    static const clockid_t host[] = {CLOCK_REALTIME, CLOCK_MONOTONIC, CLOCK_PROCESS_CPUTIME_ID, CLOCK_THREAD_CPUTIME_ID};
    G g;
    g.go();
    for (int un = 0; un < 2; un++)
        for (uint32_t id = 0; id < 4; id++)
            for (uint64_t s : secs)
                for (long ns : nsecs)
                    for (int res = 0; res < 2; res++) {
                        X->add(c_runs);
                        X->add(c_calls);
                        CK.err = 0;
                        for (int i = 0; i < 8; i++)
                            CK.ts[i] = {77 + i, 55};
                        CK.ts[host[id]] = {(time_t)s, ns};
                        g.fill(0, 0xa5, 64);
                        CK.on = true;
                        Res r = res ? g.call(clock_res_get, {id, 16}, un) : g.call(clock_time_get, {id, 1000, 16}, un);
                        CK.on = false;
                        uint64_t e = s * SEC + (uint64_t)ns;
                        if (!r.ok() || g.get64(16) != e)
                            return mc::fmt("clock_%s_get of clock %u at %llu s %ld ns: %s, %llu", res ? "res" : "time", id, (unsigned long long)s, ns, r.str().c_str(), (unsigned long long)g.get64(16));
                        if (g.get64(8) != 0xa5a5a5a5a5a5a5a5ull || g.get64(24) != 0xa5a5a5a5a5a5a5a5ull)
                            return "clock call writes elsewhere";
                    }
    for (int un = 0; un < 2; un++)
        for (uint32_t id : {4u, 5u, 7u, 255u, 256u, 65536u, 0x80000000u, 0xffffffffu})
            for (int res = 0; res < 2; res++) {
                X->add(c_runs);
                Res r = res ? g.call(clock_res_get, {id, 16}, un) : g.call(clock_time_get, {id, 1, 16}, un);
                if (r.rc || r.err == 0)
                    return mc::fmt("unknown clock id %u: %s", id, r.str().c_str());
            }
    for (int e : {EINVAL, EPERM}) {
        CK.err = e;
        CK.on = true;
        Res r = g.call(clock_time_get, {1, 1, 16}), r2 = g.call(clock_res_get, {1, 16});
        CK.on = false;
        CK.err = 0;
        if (r.rc || !err_matches(r.err, e) || r2.rc || !err_matches(r2.err, e))
            return mc::fmt("failing host clock: %s", r.str().c_str());
    }
    /* real clocks */
    for (uint32_t id = 0; id < 4; id++) {
        struct timespec a, b;
        clock_gettime(host[id], &a);
        Res r = g.call(clock_time_get, {id, 0, 16});
        clock_gettime(host[id], &b);
        uint64_t t = g.get64(16);
        if (!r.ok() || t < (uint64_t)a.tv_sec * SEC + (uint64_t)a.tv_nsec || t > (uint64_t)b.tv_sec * SEC + (uint64_t)b.tv_nsec)
            return mc::fmt("clock %u is not the host's", id);
    }
    return "";
}
static std::string part_random(uint64_t idx)
{
    static const int steps[] = {-EINTR, 0, 1, 2, 100};
    static const uint32_t lens[] = {0, 1, 2, 5, 255, 256, 300, 1000};
    std::vector<int> sc;
    uint32_t len = lens[idx % 8];
    idx /= 8;
    int fail = (int)(idx % 3); /* none, EIO, ENOSYS at the end */
    idx /= 3;
    while (idx) {
        sc.push_back(steps[(idx - 1) % 5]);
        idx = (idx - 1) / 5;
    }
    X->add(c_runs);
    X->add(c_calls);
    size_t prefix = sc.size();
    if (fail)
        sc.push_back(fail == 1 ? -EIO : -ENOSYS);
    G g;
    g.go();
    g.fill(0, 0xa5, 2048);
    RN.script = sc;
    RN.pos = RN.filled = 0;
    RN.on = true;
    Res r = g.call(random_get, {33, len});
    RN.on = false;
    bool hit = RN.pos > prefix && fail; /* the failure was reached */
    std::string m = g.gets(0, 2048);
    for (size_t i = 0; i < 2048; i++)
        if ((i < 33 || i >= 33 + len) && (uint8_t)m[i] != 0xa5)
            return mc::fmt("random_get of %u bytes writes at offset %zd", len, (ssize_t)i - 33);
    if (hit) {
        if (r.rc || r.err == 0)
            return mc::fmt("random_get of %u bytes: %s although the host source failed", len, r.str().c_str());
        return "";
    }
    if (!r.ok())
        return mc::fmt("random_get of %u bytes with %zu interruptions or short counts: %s", len, prefix, r.str().c_str());
    if (RN.pos || RN.filled) {
        for (size_t i = 0; i < len; i++)
            if ((uint8_t)m[33 + i] != 1 + i % 251)
                return mc::fmt("random_get of %u bytes: byte %zu is not from the random source (%zu interruptions or short counts)", len, i, prefix);
        if (RN.filled != len)
            return "random_get asks for too much";
    } else if (len >= 16 && m.substr(33, len) == std::string(len, (char)0xa5))
        return "random_get leaves the buffer as it was";
    return "";
}

/* ---- exit ---- */
static std::string part_exit()
{
    for (uint32_t code : {0u, 1u, 2u, 125u, 126u, 127u, 255u, 256u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
        for (int how = 0; how < 3; how++) {
            X->add(c_runs);
            X->add(c_calls);
            G g;
            g.go();
            g.put32(0, 0x11111111);
            Res r = how == 0 ? g.exit_and_store(code) : g.call(proc_exit, {code}, how == 2);
            if (r.rc != TW_TRAP || r.trap != TWT_EXIT)
                return mc::fmt("proc_exit %u: %s", code, r.str().c_str());
            if (wz_exit_code(g.w) != code)
                return mc::fmt("proc_exit %u: exit code %u", code, wz_exit_code(g.w));
            if (g.get32(0) != 0x11111111)
                return mc::fmt("proc_exit %u: the program runs on", code);
            Res y = g.call(ws::sched_yield, {});
            if (!y.ok())
                return "sched_yield: " + y.str();
            if (wz_exit_code(g.w) != code)
                return "the exit code changes";
        }
    return leakcheck();
}

/* ---- polling ---- */
enum { K_RR, K_RN, K_WR, K_WN, K_RH, K_WE, K_FR, K_FW, K_BAD, K_PRE, K_ID2, K_ID9, K_TYPE, K_CLK };
struct Clk {
    uint32_t id;
    bool abs;
    int64_t t; /* absolute: relative to the start of the call */
};
static const Clk clks[] = {
    {1, false, 0}, {1, false, 1}, {1, false, 999999}, {1, false, 1000001}, {1, false, 49000000}, {1, false, 50000000},
    {1, false, 51000001}, {1, false, 120500000}, {0, false, 0}, {0, false, 2500000}, {0, false, 50000000},
    {1, true, -5000000000000ll}, {1, true, -1}, {1, true, 0}, {1, true, 3700000}, {0, true, -1000000000ll}, {0, true, 60000000},
    {1, false, 864000ll * 1000000000},
};
static const int NC = 18, NK = K_CLK + NC;
struct PollFds {
    int a[2], b[2], c[2], d[2], e[2], f[2], file;
    PollFds()
    {
        for (int *p : {a, b, c, d, e, f})
            if (pipe(p) != 0)
                abort();
        fcntl(d[1], F_SETPIPE_SZ, 4096);
        if (write(a[1], "x", 1) != 1)
            abort();
        fcntl(d[1], F_SETFL, O_NONBLOCK);
        static char z[4096];
        while (write(d[1], z, sizeof(z)) > 0)
            ;
        close(e[1]), e[1] = -1;
        close(f[0]), f[0] = -1;
        file = open("file", O_RDWR | O_CREAT, 0644);
    }
    ~PollFds()
    {
        for (int *p : {a, b, c, d, e, f})
            for (int i = 0; i < 2; i++)
                if (p[i] >= 0)
                    close(p[i]);
        close(file);
    }
    void event()
    {
        char z[4096];
        if (write(b[1], "y", 1) != 1 || read(d[0], z, sizeof(z)) <= 0)
            abort();
    }
};
enum { F_A = 10, F_B, F_C, F_D, F_E, F_F, F_FILE };
static const char *const knames[] = {"readable pipe", "empty pipe", "writable pipe", "full pipe", "hung-up pipe", "broken pipe", "file read", "file write", "bad descriptor", "preopen", "clock id 2", "clock id 9", "unknown type"};
static std::string kname(int k)
{
    if (k < K_CLK)
        return knames[k];
    const Clk &c = clks[k - K_CLK];
    return mc::fmt("%s %s %lldns", c.id ? "monotonic" : "realtime", c.abs ? "at now" : "after", (long long)c.t);
}
static uint64_t intr_advance;
static std::string part_poll(const std::vector<int> &l, uint64_t ev_at, uint64_t tick, int intr, uint64_t adv)
{
    /* a wait that nothing can end is not a question */
    bool ends = false;
    for (int k : l)
        if (k == K_RN || k == K_WN)
            ends = ev_at != NEVER;
    for (int k : l)
        if (k != K_RN && k != K_WN && (k < K_CLK || clks[k - K_CLK].t < 1000000000))
            ends = true;
    if (!ends)
        return "";
    X->add(c_runs);
    X->add(c_calls);
    std::string d, title = "poll_oneoff of";
    for (int k : l)
        title += " [" + kname(k) + "]";
    if (ev_at != NEVER)
        title += mc::fmt(", pipes becoming ready after %llu ns", (unsigned long long)ev_at);
    if (intr >= 0)
        title += mc::fmt(", interrupted at check %d for %llu ns", intr, (unsigned long long)adv);
    {
        PollFds p;
        G g;
        if (wz_preopen(g.w, W.c_str()))
            abort();
        int hf[] = {p.a[0], p.b[0], p.c[1], p.d[1], p.e[0], p.f[1], p.file};
        for (int i = 0; i < 7; i++)
            if (wz_addfd(g.w, F_A + (uint32_t)i, hf[i]))
                abort();
        g.go();
        V.vt = 1000000007;
        V.tick = tick;
        V.fired = V.hang = false;
        V.polls = 0;
        V.ev_at = ev_at == NEVER ? NEVER : V.vt + ev_at;
        V.fire = [&] { p.event(); };
        uint64_t t0 = V.vt;
        g.fill(0, 0, 1024);
        uint32_t n = (uint32_t)l.size();
        int nclk = 0;
        uint64_t deadline = NEVER;
        bool bad = false, other = false;
        std::vector<int> errs;
        for (uint32_t i = 0; i < n; i++) {
            uint32_t s = 64 + 48 * i;
            int k = l[i];
            g.put64(s, 0xabcdef0123456700ull + i);
            uint8_t type = 1;
            uint32_t fd = 0;
            switch (k) {
            case K_RR: fd = F_A; break;
            case K_RN: fd = F_B; break;
            case K_WR: fd = F_C; type = 2; break;
            case K_WN: fd = F_D; type = 2; break;
            case K_RH: fd = F_E; break;
            case K_WE: fd = F_F; type = 2; break;
            case K_FR: fd = F_FILE; break;
            case K_FW: fd = F_FILE; type = 2; break;
            case K_BAD: fd = 77; type = 2; break;
            case K_PRE: fd = 3; break;
            case K_TYPE: type = 3; break;
            case K_ID2: type = 0; fd = 2; break;
            case K_ID9: type = 0; fd = 9; break;
            default: type = 0; fd = clks[k - K_CLK].id; break;
            }
            g.put(s + 8, &type, 1);
            g.put32(s + 16, fd);
            if (k == K_TYPE)
                errs.push_back(E_INVAL);
            if (k == K_ID2 || k == K_ID9)
                errs.push_back(E_NOTSUP), errs.push_back(E_INVAL);
            if (k == K_BAD || k == K_PRE)
                bad = true;
            if (k >= K_CLK) {
                const Clk &c = clks[k - K_CLK];
                uint64_t t = c.abs ? (uint64_t)((int64_t)((c.id ? MBASE : RBASE) + t0) + c.t) : (uint64_t)c.t;
                if (c.abs && c.id && c.t < -1000000000)
                    t = 1; /* long ago */
                g.put64(s + 24, t);
                uint16_t fl = c.abs;
                g.put(s + 40, &fl, 2);
                nclk++;
                deadline = std::min(deadline, c.t < 0 ? t0 : t0 + (uint64_t)c.t);
            }
        }
        struct tw_exec x;
        memset(&x, 0, sizeof(x));
        if (intr >= 0) {
            x.intr = 1;
            x.intr_delay = (unsigned)intr;
            x.intr_max = 1;
            x.check_interval = 1;
            intr_advance = adv;
            x.at_intr = [](struct tw_exec *) { V.vt += intr_advance; };
        }
        std::string before = g.gets(0, 1024);
        V.on = true;
        Res r = g.call(poll_oneoff, {64, 256, n, 512}, false, &x);
        V.on = false;
        std::string after = g.gets(0, 1024);
        for (uint32_t i = 0; i < 1024; i++)
            if ((i < 256 || i >= 256 + 32 * n) && (i < 512 || i >= 516) && before[i] != after[i])
                return title + mc::fmt(" writes at %u", i);
        if (V.hang)
            return title + " waits forever";
        (void)other;
        if (r.rc)
            return title + " gives " + r.str();
        if (nclk > 1 && r.err == E_NOTSUP)
            return ""; /* only one clock is supported */
        if (!errs.empty()) {
            if (std::find(errs.begin(), errs.end(), r.err) == errs.end())
                return title + " gives " + r.str();
            return "";
        }
        if (r.err)
            return title + " gives " + r.str();
        uint32_t ne = g.get32(512);
        if (ne < 1 || ne > n)
            return title + mc::fmt(" reports %u events", ne);
        std::vector<bool> seen(n);
        bool fdev = false;
        for (uint32_t i = 0; i < ne; i++) {
            uint32_t e = 256 + 32 * i;
            uint64_t ud = g.get64(e);
            uint32_t si = (uint32_t)(ud & 0xff);
            if ((ud >> 8) != 0xabcdef01234567ull || si >= n || seen[si])
                return title + mc::fmt(" reports userdata %llx", (unsigned long long)ud);
            seen[si] = true;
            int k = l[si];
            uint16_t err = g.get16(e + 8);
            uint8_t type = g.get8(e + 10), st = g.get8(64 + 48 * si + 8);
            int xe = 0;
            bool ready = true;
            switch (k) {
            case K_RN:
            case K_WN: ready = V.fired; break;
            case K_RH: xe = E_PIPE; break;
            case K_WE: xe = E_IO; break;
            case K_BAD:
            case K_PRE: xe = E_BADF; break;
            default: break;
            }
            if (type != st)
                return title + mc::fmt(" reports type %d for subscription %u", type, si);
            if (err != xe)
                return title + mc::fmt(" reports error %d for [%s]", err, kname(k).c_str());
            if (!ready)
                return title + " reports [" + kname(k) + "] although it is not ready";
            if (k < K_CLK)
                fdev = true;
            else {
                const Clk &c = clks[k - K_CLK];
                uint64_t dl = c.t < 0 ? t0 : t0 + (uint64_t)c.t;
                if (V.vt < dl)
                    return title + mc::fmt(" reports [%s] %llu ns too early", kname(k).c_str(), (unsigned long long)(dl - V.vt));
            }
        }
        for (uint32_t i = 0; i < n; i++) {
            if (seen[i])
                continue;
            int k = l[i];
            bool ready;
            switch (k) {
            case K_RN:
            case K_WN: ready = V.fired; break;
            case K_BAD:
            case K_PRE: ready = true; break;
            default: ready = k < K_CLK && !bad; break;
            }
            if (bad && k != K_BAD && k != K_PRE)
                ready = false;
            if (k >= K_CLK && !fdev)
                ready = V.vt >= t0 + (uint64_t)std::max<int64_t>(clks[k - K_CLK].t, 0);
            if (ready)
                return title + " does not report [" + kname(k) + "]";
        }
        /* when it should have returned at the latest */
        uint64_t due = std::min(deadline, V.ev_at);
        for (int k : l)
            if (k != K_RN && k != K_WN && k < K_CLK)
                due = t0;
        bool ev_matters = std::count(l.begin(), l.end(), (int)K_RN) + std::count(l.begin(), l.end(), (int)K_WN) > 0;
        if (!ev_matters && due == V.ev_at && deadline != NEVER)
            due = deadline;
        if (x.n_intr)
            due = std::max(due, t0) + adv;
        if (V.vt > due + 60 * MS)
            return title + mc::fmt(" returns %llu ns late", (unsigned long long)(V.vt - due));
        X->outcome(mc::fnv(title));
    }
    return leakcheck();
}

/* ---- blocking operations ---- */
enum { B_READ, B_PREADV, B_WRITE, B_RECV, B_SEND, B_ACCEPT, NB };
static const char *const bnames[] = {"fd_read of an empty pipe", "fd_read with two vectors", "fd_write to a full pipe", "sock_recv", "sock_send to a full socket", "sock_accept"};
static std::string part_block(int op, bool nonblock, uint64_t ev_at, int intr, int nintr, uint64_t adv, bool abandon)
{
    X->add(c_runs);
    X->add(c_calls);
    std::string title = mc::fmt("%s%s, becoming ready after %llu ns, interrupted %d times from check %d for %llu ns%s", nonblock ? "non-blocking " : "", bnames[op], (unsigned long long)ev_at, nintr, intr, (unsigned long long)adv, abandon ? " and abandoned" : "");
    {
        int h[2] = {-1, -1}, guestfd = -1, lst = -1;
        G g;
        static char z[65536];
        if (op == B_READ || op == B_PREADV || op == B_WRITE) {
            if (pipe(h) != 0)
                abort();
            guestfd = op == B_WRITE ? h[1] : h[0];
        } else if (op == B_ACCEPT) {
            lst = socket(AF_UNIX, SOCK_STREAM, 0);
            struct sockaddr_un sa;
            memset(&sa, 0, sizeof(sa));
            sa.sun_family = AF_UNIX;
            strcpy(sa.sun_path, "ls");
            unlink("ls");
            if (bind(lst, (struct sockaddr *)&sa, sizeof(sa)) != 0 || listen(lst, 4) != 0)
                abort();
            guestfd = lst;
        } else {
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, h) != 0)
                abort();
            guestfd = h[0];
        }
        if (op == B_WRITE || op == B_SEND) {
            if (op == B_WRITE)
                fcntl(h[1], F_SETPIPE_SZ, 4096);
            fcntl(guestfd, F_SETFL, O_NONBLOCK);
            while (write(guestfd, z, op == B_WRITE ? 4096 : 65536) > 0)
                ;
            while (write(guestfd, z, 1) > 0)
                ;
            fcntl(guestfd, F_SETFL, 0);
        }
        int client = -1;
        if (wz_addfd(g.w, 10, guestfd))
            abort();
        g.go();
        Res r;
        if (nonblock) {
            r = g.call(fd_fdstat_set_flags, {10, FD_NONBLOCK});
            if (!r.ok())
                return "cannot make it non-blocking";
        }
        V.vt = 5;
        V.tick = 137;
        V.fired = V.hang = false;
        V.polls = 0;
        V.ev_at = V.vt + ev_at;
        uint64_t evt = V.ev_at;
        V.fire = [&] {
            static char zz[1 << 20];
            switch (op) {
            case B_READ:
            case B_PREADV:
            case B_RECV:
                if (write(h[1], "data", 4) != 4)
                    abort();
                break;
            case B_WRITE:
                if (read(h[0], zz, 4096) <= 0)
                    abort();
                break;
            case B_SEND: {
                fcntl(h[1], F_SETFL, O_NONBLOCK);
                while (read(h[1], zz, sizeof(zz)) > 0)
                    ;
                break;
            }
            case B_ACCEPT: {
                client = socket(AF_UNIX, SOCK_STREAM, 0);
                struct sockaddr_un sa;
                memset(&sa, 0, sizeof(sa));
                sa.sun_family = AF_UNIX;
                strcpy(sa.sun_path, "ls");
                if (connect(client, (struct sockaddr *)&sa, sizeof(sa)) != 0)
                    abort();
                break;
            }
            }
        };
        struct tw_exec x;
        memset(&x, 0, sizeof(x));
        if (intr >= 0) {
            x.intr = 1;
            x.intr_delay = (unsigned)intr;
            x.intr_max = (unsigned)nintr;
            x.check_interval = 1;
            x.abandon = abandon;
            intr_advance = adv;
            x.at_intr = [](struct tw_exec *) { V.vt += intr_advance; };
        }
        g.fill(0, 0, 256);
        g.put32(16, 64), g.put32(20, op == B_PREADV ? 2 : 6), g.put32(24, 80), g.put32(28, 6);
        bool wr = op == B_WRITE || op == B_SEND;
        if (wr)
            g.put(64, "guest1");
        uint32_t cnt = op == B_PREADV ? 2 : 1;
        V.on = true;
        if (ev_at == 0)
            maybe_fire();
        switch (op) {
        case B_READ:
        case B_PREADV: r = g.call(fd_read, {10, 16, cnt, 128}, false, &x); break;
        case B_WRITE: r = g.call(fd_write, {10, 16, cnt, 128}, false, &x); break;
        case B_RECV: r = g.call(sock_recv, {10, 16, cnt, 0, 128, 136}, false, &x); break;
        case B_SEND: r = g.call(sock_send, {10, 16, cnt, 0, 128}, false, &x); break;
        case B_ACCEPT: r = g.call(sock_accept, {10, 0, 128}, false, &x); break;
        }
        V.on = false;
        std::string d;
        if (V.hang)
            d = "waits forever";
        else if (abandon && x.n_intr) {
            if (r.rc != TW_USERINTR)
                d = "gives " + r.str() + " when abandoned";
            else if (g.get32(128) == 0) { /* otherwise it was complete */
                std::string m = g.gets(64, 64);
                if (!wr && m != std::string(64, 0))
                    d = "has written to the guest although it was abandoned";
                if (d.empty() && V.fired && !wr && op != B_ACCEPT) {
                    /* nothing is lost: the data are still there */
                    r = g.call(fd_read, {10, 16, 1, 128});
                    if (!r.ok() || g.get32(128) != (op == B_PREADV ? 2u : 4u))
                        d = "loses data when abandoned";
                }
            }
        } else if (nonblock && ev_at != 0 && !V.fired) {
            if (r.rc || r.err != E_AGAIN)
                d = "gives " + r.str();
        } else if (!r.ok())
            d = "gives " + r.str();
        else {
            if (!V.fired || V.vt < evt)
                d = "returns before it can";
            else if (V.vt > evt + 60 * MS + (uint64_t)nintr * adv)
                d = mc::fmt("returns %llu ns late", (unsigned long long)(V.vt - evt));
            else if (op == B_READ || op == B_RECV) {
                if (g.get32(128) != 4 || g.gets(64, 8) != std::string("data\0\0\0\0", 8))
                    d = "transfers other bytes";
            } else if (op == B_PREADV) {
                if (g.get32(128) != 4 || g.gets(64, 4) != std::string("da\0\0", 4) || g.gets(80, 4) != std::string("ta\0\0", 4))
                    d = "transfers other bytes";
            } else if (wr) {
                if (g.get32(128) != 6)
                    d = mc::fmt("transfers %u bytes", g.get32(128));
                else {
                    static char zz[1 << 20];
                    std::string all;
                    int from = op == B_WRITE ? h[0] : h[1];
                    fcntl(from, F_SETFL, O_NONBLOCK);
                    ssize_t k;
                    while ((k = read(from, zz, sizeof(zz))) > 0)
                        all.append(zz, (size_t)k);
                    if (all.size() < 6 || all.substr(all.size() - 6) != "guest1" || all.find("guest1") != all.size() - 6)
                        d = "does not deliver its bytes exactly once";
                }
            } else if (op == B_ACCEPT) {
                uint32_t nf = g.get32(128);
                g.put(64, "guest1");
                g.put32(20, 6);
                r = g.call(fd_write, {nf, 16, 1, 132});
                char zz[8];
                if (!r.ok() || read(client, zz, 8) != 6 || memcmp(zz, "guest1", 6))
                    d = "accepts a descriptor that is not connected";
            }
        }
        g.stop();
        for (int f : {h[0], h[1], lst, client})
            if (f >= 0)
                close(f);
        if (!d.empty())
            return title + ": " + d;
        X->outcome(mc::fnv(title));
    }
    return leakcheck();
}

/* ---- sockets against the host's own calls on a second pair ---- */
enum { S_SEND2, S_SEND0, S_SENDV, S_SENDBIG, S_WRITE, S_RECV1, S_RECV4V, S_PEEK2, S_READ3, S_RECV0, S_SHRD, S_SHWR, S_SHBOTH, S_SH0, S_SHBAD, S_BADRI, S_BADSI, S_PWRITE, S_PWRITE2, S_PREAD, S_PSHWR, S_PSHRD, S_PCLOSE, NSOP };
static const char *const sops[] = {"send 2", "send 0", "send 1+3", "send 5000", "fd_write 2", "recv 1", "recv 2+2", "peek 2", "fd_read 3", "recv 0", "shutdown read", "shutdown write", "shutdown both", "shutdown 0", "shutdown 4", "recv with flag 4", "send with flag 1", "peer writes 3", "peer writes 1", "peer reads", "peer stops writing", "peer stops reading", "peer closes"};
static std::string part_sock(uint64_t idx, int depth, int type)
{
    int ops[8];
    std::string title = type == SOCK_STREAM ? "stream socket:" : "datagram socket:";
    for (int i = 0; i < depth; i++) {
        ops[i] = (int)(idx % NSOP);
        idx /= NSOP;
        title += mc::fmt(" [%s]", sops[ops[i]]);
    }
    X->add(c_runs);
    int a[2], b[2];
    if (socketpair(AF_UNIX, type, 0, a) != 0 || socketpair(AF_UNIX, type, 0, b) != 0)
        abort();
    std::string d;
    {
        G g;
        if (wz_addfd(g.w, 10, a[0]))
            abort();
        g.go();
        Res r = g.call(fd_fdstat_set_flags, {10, FD_NONBLOCK});
        if (!r.ok())
            return "set-up";
        for (int f : {b[0], a[1], b[1]})
            fcntl(f, F_SETFL, O_NONBLOCK);
        bool closed = false;
        uint64_t h = 0;
        static std::string big(5000, 'Q');
        for (int i = 0; i < depth && d.empty(); i++) {
            X->add(c_calls);
            int op = ops[i];
            char ca = (char)('a' + i);
            std::string data2{ca, ca};
            g.fill(0, 0, 10000);
            char hb[6000];
            struct iovec iov[2] = {{hb, 2}, {hb + 100, 2}};
            memset(hb, 0, sizeof(hb));
            struct msghdr mh;
            memset(&mh, 0, sizeof(mh));
            mh.msg_iov = iov;
            auto cmp = [&](const char *what, ssize_t ref, int e) {
                if (r.rc)
                    d = mc::fmt("step %d %s: %s", i, what, r.str().c_str());
                else if (ref < 0) {
                    if (!err_matches(r.err, e))
                        d = mc::fmt("step %d %s: %s, the host says %s", i, what, r.str().c_str(), strerror(e));
                } else if (r.err)
                    d = mc::fmt("step %d %s: %s, the host transfers %zd", i, what, r.str().c_str(), ref);
                else if (g.get32(128) != (uint32_t)ref)
                    d = mc::fmt("step %d %s: %u bytes, the host transfers %zd", i, what, g.get32(128), ref);
                h = h * 31 + (uint64_t)(ref + 2) * 7 + (uint64_t)op;
            };
            ssize_t n;
            switch (op) {
            case S_SEND2:
            case S_WRITE:
            case S_SEND0:
            case S_SENDV:
            case S_SENDBIG: {
                std::string p0 = op == S_SEND0 ? "" : op == S_SENDV ? data2.substr(0, 1) : op == S_SENDBIG ? big : data2;
                std::string p1 = op == S_SENDV ? std::string("xyz") : "";
                uint32_t cnt = op == S_SENDV ? 2 : 1;
                g.put(1000, p0);
                g.put(8000, p1);
                g.put32(16, 1000), g.put32(20, (uint32_t)p0.size()), g.put32(24, 8000), g.put32(28, (uint32_t)p1.size());
                r = op == S_WRITE ? g.call(fd_write, {10, 16, cnt, 128}) : g.call(sock_send, {10, 16, cnt, 0, 128});
                iov[0] = {(void *)p0.data(), p0.size()};
                iov[1] = {(void *)p1.data(), p1.size()};
                mh.msg_iovlen = cnt;
                n = op == S_WRITE ? writev(b[0], iov, (int)cnt) : sendmsg(b[0], &mh, 0);
                cmp(sops[op], n, errno);
                break;
            }
            case S_RECV1:
            case S_RECV4V:
            case S_PEEK2:
            case S_RECV0:
            case S_READ3: {
                uint32_t l0 = op == S_RECV1 ? 1 : op == S_READ3 ? 3 : op == S_RECV0 ? 0 : 2, cnt = op == S_RECV4V ? 2 : 1;
                g.put32(16, 1000), g.put32(20, l0), g.put32(24, 1100), g.put32(28, 2);
                g.put32(136, 0xffffffff);
                r = op == S_READ3 ? g.call(fd_read, {10, 16, cnt, 128}) : g.call(sock_recv, {10, 16, cnt, op == S_PEEK2 ? 1ull : 0ull, 128, 136});
                iov[0].iov_len = l0;
                mh.msg_iovlen = cnt;
                n = op == S_READ3 ? readv(b[0], iov, 1) : recvmsg(b[0], &mh, op == S_PEEK2 ? MSG_PEEK : 0);
                int e = errno;
                cmp(sops[op], n, e);
                if (d.empty() && n >= 0) {
                    if (g.gets(1000, 100) != std::string(hb, 100) || g.gets(1100, 100) != std::string(hb + 100, 100))
                        d = mc::fmt("step %d %s: other bytes than the host receives", i, sops[op]);
                    if (op != S_READ3) {
                        uint16_t fl = g.get16(136), ref = (mh.msg_flags & MSG_TRUNC) ? 1 : 0;
                        if (fl != ref || g.get16(138) != 0xffff)
                            d = mc::fmt("step %d %s: flags %x, the host says %x", i, sops[op], fl, ref);
                    }
                }
                break;
            }
            case S_SHRD:
            case S_SHWR:
            case S_SHBOTH: {
                r = g.call(sock_shutdown, {10, op == S_SHRD ? 1ull : op == S_SHWR ? 2ull : 3ull});
                int s = shutdown(b[0], op == S_SHRD ? SHUT_RD : op == S_SHWR ? SHUT_WR : SHUT_RDWR);
                if (r.rc || !err_matches(r.err, s ? errno : 0))
                    d = mc::fmt("step %d %s: %s", i, sops[op], r.str().c_str());
                break;
            }
            case S_SH0:
            case S_SHBAD:
                r = g.call(sock_shutdown, {10, op == S_SH0 ? 0ull : 4ull});
                if (r.rc || r.err != E_INVAL)
                    d = mc::fmt("step %d %s: %s", i, sops[op], r.str().c_str());
                break;
            case S_BADRI:
                g.put32(16, 1000), g.put32(20, 2);
                r = g.call(sock_recv, {10, 16, 1, 4, 128, 136});
                if (r.rc || r.err == 0)
                    d = mc::fmt("step %d %s: %s", i, sops[op], r.str().c_str());
                break;
            case S_BADSI:
                g.put32(16, 1000), g.put32(20, 2);
                r = g.call(sock_send, {10, 16, 1, 1, 128});
                if (r.rc || r.err == 0)
                    d = mc::fmt("step %d %s: %s", i, sops[op], r.str().c_str());
                break;
            case S_PWRITE:
            case S_PWRITE2:
                if (!closed) {
                    std::string p(op == S_PWRITE ? 3 : 1, (char)(ca - 32));
                    if (write(a[1], p.data(), p.size()) != write(b[1], p.data(), p.size()))
                        d = mc::fmt("step %d: the peer can write on one side only", i);
                }
                break;
            case S_PREAD:
                if (!closed) {
                    static char x1[6000], x2[6000];
                    ssize_t n1 = read(a[1], x1, sizeof(x1)), n2 = read(b[1], x2, sizeof(x2));
                    if (n1 != n2 || (n1 > 0 && memcmp(x1, x2, (size_t)n1)))
                        d = mc::fmt("step %d: the peer receives %zd bytes instead of %zd", i, n1, n2);
                }
                break;
            case S_PSHWR:
            case S_PSHRD:
                if (!closed) {
                    shutdown(a[1], op == S_PSHWR ? SHUT_WR : SHUT_RD);
                    shutdown(b[1], op == S_PSHWR ? SHUT_WR : SHUT_RD);
                }
                break;
            case S_PCLOSE:
                if (!closed) {
                    close(a[1]), close(b[1]);
                    closed = true;
                }
                break;
            }
        }
        if (closed)
            a[1] = b[1] = -1;
        X->outcome(h);
    }
    for (int f : {a[0], a[1], b[0], b[1]})
        if (f >= 0)
            close(f);
    if (!d.empty())
        return title + ": " + d;
    return leakcheck();
}
/* accept: order, flags, errors */
static std::string part_accept()
{
    for (int fl : {0, 4})
        for (int un = 0; un < 2; un++) {
            X->add(c_runs);
            int lst = socket(AF_UNIX, SOCK_STREAM, 0), cl[3];
            struct sockaddr_un sa;
            memset(&sa, 0, sizeof(sa));
            sa.sun_family = AF_UNIX;
            strcpy(sa.sun_path, "ls");
            unlink("ls");
            if (bind(lst, (struct sockaddr *)&sa, sizeof(sa)) != 0 || listen(lst, 4) != 0)
                abort();
            for (int i = 0; i < 3; i++) {
                cl[i] = socket(AF_UNIX, SOCK_STREAM, 0);
                if (connect(cl[i], (struct sockaddr *)&sa, sizeof(sa)) != 0)
                    abort();
                std::string s(1, (char)('0' + i));
                if (write(cl[i], s.data(), 1) != 1)
                    abort();
            }
            int file = open("file", O_RDWR | O_CREAT, 0644), sp[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0)
                abort();
            {
                G g;
                if (wz_addfd(g.w, 10, lst) || wz_addfd(g.w, 11, file) || wz_addfd(g.w, 12, sp[0]))
                    abort();
                g.go();
                std::vector<uint32_t> fds;
                for (int i = 0; i < 3; i++) {
                    X->add(c_calls);
                    Res r = g.call(sock_accept, {10, (uint64_t)fl, 128}, un);
                    if (!r.ok())
                        return mc::fmt("sock_accept of a pending connection: %s", r.str().c_str());
                    uint32_t fd = g.get32(128);
                    if (std::find(fds.begin(), fds.end(), fd) != fds.end())
                        return "sock_accept returns a descriptor twice";
                    fds.push_back(fd);
                    g.put32(16, 1000), g.put32(20, 4);
                    r = g.call(fd_read, {fd, 16, 1, 132}, un);
                    if (!r.ok() || g.get32(132) != 1 || g.get8(1000) != '0' + i)
                        return "an accepted connection is not the pending one";
                    r = g.call(fd_fdstat_get, {fd, 200}, un);
                    if (!r.ok() || g.get8(200) != FT_STREAM || (g.get16(202) & FD_NONBLOCK) != fl)
                        return mc::fmt("an accepted connection has type %d flags %x", g.get8(200), g.get16(202));
                    if (fl) {
                        r = g.call(fd_read, {fd, 16, 1, 132}, un);
                        if (r.rc || r.err != E_AGAIN)
                            return "a connection accepted as non-blocking: read gives " + r.str();
                    }
                }
                Res r = g.call(fd_fdstat_set_flags, {10, FD_NONBLOCK}, un);
                r = g.call(sock_accept, {10, (uint64_t)fl, 128}, un);
                if (r.rc || r.err != E_AGAIN)
                    return "sock_accept with nothing pending: " + r.str();
                struct {
                    uint32_t fd;
                    int f, e;
                } bad[] = {{11, sock_accept, E_NOTSOCK}, {12, sock_accept, E_INVAL}, {77, sock_accept, E_BADF}, {11, sock_recv, E_NOTSOCK}, {11, sock_send, E_NOTSOCK}, {11, sock_shutdown, E_NOTSOCK}, {77, sock_recv, E_BADF}, {77, sock_send, E_BADF}, {77, sock_shutdown, E_BADF}, {10, sock_recv, -1}, {10, sock_send, -1}};
                g.put32(16, 1000), g.put32(20, 4);
                for (auto &b : bad) {
                    std::vector<uint64_t> v;
                    switch (b.f) {
                    case sock_accept: v = {b.fd, (uint64_t)fl, 128}; break;
                    case sock_recv: v = {b.fd, 16, 1, 0, 128, 136}; break;
                    case sock_send: v = {b.fd, 16, 1, 0, 128}; break;
                    default: v = {b.fd, 1}; break;
                    }
                    r = g.callv(b.f, v, un);
                    if (r.rc || r.err == 0 || (b.e >= 0 && r.err != b.e))
                        return mc::fmt("%s on %s: %s", fn_name[b.f], b.fd == 11 ? "a file" : b.fd == 77 ? "a closed descriptor" : "an unsuitable socket", r.str().c_str());
                }
            }
            for (int f : {lst, cl[0], cl[1], cl[2], file, sp[0], sp[1]})
                close(f);
        }
    return leakcheck();
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "wasimisc");
    X = &x;
    c_runs = x.counter("histories");
    c_calls = x.counter("calls");
    std::string part = x.opt.get("part", "lists");
    int depth = atoi(x.opt.get("depth", "3").c_str());
    scratch::Root root;
    x.worker_init.push_back([&](int w) {
        W = root.enter(w);
        signal(SIGPIPE, SIG_IGN);
        if (chdir(W.c_str()) != 0)
            abort();
        for (const char *d : {"p1", "p2", "p1/sub"})
            mkdir(d, 0755);
        for (const char *f : {"p1/id", "p2/id", "p1/sub/id", "file"})
            close(open(f, O_WRONLY | O_CREAT, 0644));
        Env = tw_env_new();
        Mod = Guest::load(Env, Lim{1, true, 1});
        base_alloc = tw_env_allocated(Env);
    });
    auto pw = [](uint64_t b, int e) {
        uint64_t r = 1;
        while (e-- > 0)
            r *= b;
        return r;
    };
    auto report = [&](const std::string &d) {
        if (!d.empty())
            x.fail("%s", d.c_str());
        else
            x.beat();
        return d.empty();
    };
    if (part == "lists") {
        uint64_t ne = 0, np = 0;
        for (int n = 0; n <= depth; n++)
            ne += pw(NS, n), np += pw(NP, n);
        uint64_t nr = 8 * 3 * 156; /* scripts of up to 3 steps */
        x.run(ne + np + nr + 3, [&](uint64_t i) {
            std::string d;
            if (i < ne) {
                int n = 0;
                while (i >= pw(NS, n))
                    i -= pw(NS, n++);
                d = part_env(i, n);
                x.outcome(i * 16 + (uint64_t)n);
            } else if ((i -= ne) < np) {
                int n = 0;
                while (i >= pw(NP, n))
                    i -= pw(NP, n++);
                d = part_pre(i, n);
                x.outcome(i * 16 + (uint64_t)n + 8);
            } else if ((i -= np) < nr)
                d = part_random(i);
            else if ((i -= nr) == 0)
                d = part_clock();
            else if (i == 1)
                d = part_exit();
            else
                d = part_accept();
            report(d);
        });
        x.sample(mc::fmt("argument and environment lists of up to %d strings over %d strings; preopen lists of up to %d; random sources with up to 3 interruptions or short counts; 4 clocks x 42 values; exit codes", depth, NS, depth));
    } else if (part == "poll") {
        static const uint64_t evs[] = {NEVER, 0, 500000, 50 * MS, 75 * MS};
        uint64_t total = 0;
        for (int n = 1; n <= depth; n++)
            total += pw(NK, n);
        x.run(total, [&](uint64_t i) {
            int n = 1;
            while (i >= pw(NK, n))
                i -= pw(NK, n++);
            std::vector<int> l;
            int nclk = 0, nerr = 0;
            for (int k = 0; k < n; k++) {
                l.push_back((int)(i % NK));
                i /= NK;
                nclk += l.back() >= K_CLK;
                nerr += l.back() >= K_ID2 && l.back() <= K_TYPE;
            }
            if (n == 3 && (nclk > 1 || nerr))
                return; /* one error is enough */
            bool waits = std::count(l.begin(), l.end(), (int)K_RN) + std::count(l.begin(), l.end(), (int)K_WN) > 0;
            for (uint64_t ev : evs) {
                if (!waits && ev != NEVER && !(nclk && n == 1))
                    continue;
                for (uint64_t tick : {0ull, 137ull})
                    for (int intr = -1; intr < (n == 3 ? 1 : 4); intr++)
                        for (uint64_t adv : {0ull, 80000000ull}) {
                            if (intr < 0 && adv)
                                continue;
                            if (!report(part_poll(l, ev, tick, intr, adv)))
                                return;
                        }
            }
        });
        x.sample(mc::fmt("all lists of up to %d subscriptions over %d kinds x readiness instants x clock granularity x interruption points", depth, NK));
    } else if (part == "block") {
        static const uint64_t evs[] = {0, 500000, 50 * MS, 75 * MS, 260 * MS};
        x.run(NB * 2 * 5, [&](uint64_t i) {
            int op = (int)(i % NB);
            bool nb = (i / NB) % 2;
            uint64_t ev = evs[i / NB / 2];
            for (int intr = -1; intr < 12; intr++)
                for (int nintr = 1; nintr <= (intr < 0 ? 1 : 4); nintr++)
                    for (uint64_t adv : {0ull, 30000000ull, 400000000ull})
                        for (int ab = 0; ab < (intr < 0 ? 1 : 2); ab++)
                            if (!report(part_block(op, nb, ev, intr, nintr, adv, ab)))
                                return;
        });
        x.sample("every blocking operation x readiness instants x interruption points x up to 4 interruptions, continued or abandoned");
    } else {
        uint64_t n = pw(NSOP, depth);
        x.run(2 * n, [&](uint64_t i) {
            report(part_sock(i % n, depth, i < n ? SOCK_STREAM : SOCK_DGRAM));
        });
        x.sample(mc::fmt("all sequences of %d over %d socket operations, on stream and datagram pairs", depth, NSOP));
    }
    root.done();
    return x.finish();
}
