/*
 * Guest pointers in WASI calls: every function with every pointer argument
 * over a boundary alphabet, two pointers at a time, with length and count
 * variants and memories of different sizes and allocation states.
 *
 * A call is described by slots: the ranges of guest memory its arguments
 * designate. Where every slot is inside the memory and aligned and no output
 * overlaps anything, the call has to do what it does at the canonical
 * placement; where a slot that has to be accessed is not, it has to trap or
 * fail; and nothing outside the output slots may change in any case.
 */
#include <algorithm>
#include <set>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "scratch.hpp"
#include "wasi.hpp"

using namespace ws;
static mc::Explorer *X;
static int c_calls, c_ok, c_fail, c_free;
static std::string W;
static tw_env *Env;
static size_t base_alloc;

typedef std::vector<uint64_t> Addr;
struct Slot {
    bool out;
    uint32_t align;
    uint64_t size;  /* what the arguments designate */
    uint64_t need;  /* what has to be accessed for the call to succeed */
    uint64_t cmp;   /* bytes of the output that do not vary */
    std::function<std::string(const Addr &)> data;
};
static Slot in(uint32_t align, const std::string &d)
{
    return {false, align, d.size(), d.size(), 0, [d](const Addr &) { return d; }};
}
static Slot inlen(uint32_t align, uint64_t n, const std::string &d)
{
    return {false, align, n, n, 0, [d, n](const Addr &) { return d.substr(0, std::min<uint64_t>(n, d.size())); }};
}
static Slot out(uint32_t align, uint64_t n, uint64_t cmp)
{
    return {true, align, n, n, cmp, nullptr};
}
static Slot outneed(uint64_t n, uint64_t need, uint64_t cmp)
{
    return {true, 1, n, need, cmp, nullptr};
}
struct Call {
    int f;
    bool un;
    std::string name;
    std::vector<Slot> s;
    std::function<std::vector<uint64_t>(const Addr &)> args;
    bool must_work = true; /* the canonical placement has to succeed */
};
static std::vector<Call> Calls;

static std::string le32(std::initializer_list<uint32_t> v)
{
    std::string s;
    for (uint32_t x : v)
        s.append((const char *)&x, 4);
    return s;
}
/* an iovec array for the given slots */
static Slot iovs(std::vector<std::pair<int, uint32_t>> v, uint64_t count = 0)
{
    uint64_t n = count ? count : v.size();
    return {false, 4, n * 8, n * 8, 0, [v](const Addr &a) {
                std::string s;
                for (auto &k : v)
                    s += le32({(uint32_t)a[(size_t)k.first], k.second});
                return s;
            }};
}
static std::string sub_clock(uint64_t ud, uint32_t id, uint64_t timeout)
{
    std::string s(48, 0);
    memcpy(&s[0], &ud, 8);
    s[8] = 0;
    memcpy(&s[16], &id, 4);
    memcpy(&s[24], &timeout, 8);
    return s;
}
static std::string sub_fd(uint64_t ud, int type, uint32_t fd)
{
    std::string s(48, 0);
    memcpy(&s[0], &ud, 8);
    s[8] = (char)type;
    memcpy(&s[16], &fd, 4);
    return s;
}
enum { FD_PRE = 3, FD_FILE = 4, FD_DIR_ = 5, FD_SOCK = 6, FD_LISTEN = 7 };
static const std::string GNAME = "guestname";
static uint64_t dirtotal; /* bytes of a complete listing of d */

static void build()
{
    for (int u = 0; u < 2; u++) {
        bool un = u;
        auto add = [&](int f, const std::string &n, std::vector<Slot> s, std::function<std::vector<uint64_t>(const Addr &)> a, bool mw = true) {
            Calls.push_back({f, un, std::string(un ? "unstable " : "") + fn_name[f] + " " + n, std::move(s), std::move(a), mw});
        };
        typedef std::vector<uint64_t> V;
        for (int f : {(int)args_get, (int)environ_get})
            add(f, "", {out(4, 12, 0), out(1, 10, 10)}, [](const Addr &a) { return V{a[0], a[1]}; });
        for (int f : {(int)args_sizes_get, (int)environ_sizes_get})
            add(f, "", {out(4, 4, 4), out(1, 4, 4)}, [](const Addr &a) { return V{a[0], a[1]}; });
        add(clock_res_get, "", {out(8, 8, 8)}, [](const Addr &a) { return V{1, a[0]}; });
        add(clock_time_get, "", {out(8, 8, 0)}, [](const Addr &a) { return V{0, 0, a[0]}; });
        add(fd_fdstat_get, "", {out(8, 24, 24)}, [](const Addr &a) { return V{FD_FILE, a[0]}; });
        uint64_t fss = un ? 56 : 64;
        add(fd_filestat_get, "", {out(8, fss, fss - 24)}, [](const Addr &a) { return V{FD_FILE, a[0]}; });
        add(fd_prestat_get, "", {out(4, 8, 8)}, [](const Addr &a) { return V{FD_PRE, a[0]}; });
        for (uint64_t n : {9, 8, 10, 0})
            add(fd_prestat_dir_name, mc::fmt("len %d", (int)n), {outneed(n, n < 9 ? 0 : 9, n < 9 ? 0 : 9)}, [n](const Addr &a) { return V{FD_PRE, a[0], n}; }, n >= 9);
        add(fd_seek, "", {out(8, 8, 8)}, [](const Addr &a) { return V{FD_FILE, 2, 0, a[0]}; });
        add(fd_tell, "", {out(8, 8, 8)}, [](const Addr &a) { return V{FD_FILE, a[0]}; });

        /* vectors */
        const uint64_t counts[] = {0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff};
        struct IO {
            int f;
            std::vector<uint64_t> (*mk)(uint64_t iov, uint64_t n, uint64_t ret, uint64_t ro);
            bool rd, ro;
        };
        static const IO ios[] = {
            {fd_read, [](uint64_t i, uint64_t n, uint64_t r, uint64_t) { return V{FD_FILE, i, n, r}; }, true, false},
            {fd_pread, [](uint64_t i, uint64_t n, uint64_t r, uint64_t) { return V{FD_FILE, i, n, 0, r}; }, true, false},
            {fd_write, [](uint64_t i, uint64_t n, uint64_t r, uint64_t) { return V{FD_FILE, i, n, r}; }, false, false},
            {fd_pwrite, [](uint64_t i, uint64_t n, uint64_t r, uint64_t) { return V{FD_FILE, i, n, 0, r}; }, false, false},
            {sock_recv, [](uint64_t i, uint64_t n, uint64_t r, uint64_t o) { return V{FD_SOCK, i, n, 0, r, o}; }, true, true},
            {sock_send, [](uint64_t i, uint64_t n, uint64_t r, uint64_t) { return V{FD_SOCK, i, n, 0, r}; }, false, false},
        };
        for (auto &io : ios) {
            auto mk = io.mk;
            bool ro = io.ro;
            auto buf = [&](uint64_t n, uint64_t need) {
                return io.rd ? Slot{true, 1, n, need, need, nullptr} : in(1, std::string("WXYZ0123456789abcdef").substr(0, n));
            };
            auto tail = [&](std::vector<Slot> s) {
                s.push_back(out(4, 4, 4));
                if (io.ro)
                    s.push_back(out(2, 2, 2));
                return s;
            };
            /* the file and the socket hold 5 bytes */
            add(io.f, "one vector", tail({iovs({{1, 5}}), buf(5, 5)}), [mk, ro](const Addr &a) { return mk(a[0], 1, a[2], ro ? a[3] : 0); });
            add(io.f, "two vectors", tail({iovs({{1, 2}, {2, 3}}), buf(2, 2), buf(3, 3)}), [mk, ro](const Addr &a) { return mk(a[0], 2, a[3], ro ? a[4] : 0); });
            add(io.f, "three vectors", tail({iovs({{1, 1}, {2, 0}, {3, 3}}), buf(1, 1), buf(0, 0), buf(3, 3)}), [mk, ro](const Addr &a) { return mk(a[0], 3, a[4], ro ? a[5] : 0); });
            if (io.rd)
                add(io.f, "long vector", tail({iovs({{1, 20}}), buf(20, 5)}), [mk, ro](const Addr &a) { return mk(a[0], 1, a[2], ro ? a[3] : 0); });
            add(io.f, "no vectors", tail({iovs({})}), [mk, ro](const Addr &a) { return mk(a[0], 0, a[1], ro ? a[2] : 0); }, false);
            for (uint64_t c : counts)
                add(io.f, mc::fmt("count %llx", (unsigned long long)c), tail({iovs({{1, 5}}, c), buf(5, 5)}), [mk, ro, c](const Addr &a) { return mk(a[0], c, a[2], ro ? a[3] : 0); }, false);
            for (uint32_t l : {0x10000u, 0x10001u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
                Slot big = io.rd ? Slot{true, 1, l, 5, 5, nullptr} : inlen(1, l, "WXYZ0");
                add(io.f, mc::fmt("vector length %x", l), tail({iovs({{1, l}}), big}), [mk, ro](const Addr &a) { return mk(a[0], 1, a[2], ro ? a[3] : 0); }, false);
            }
        }
        /* listings */
        for (uint64_t n : {0ull, 1ull, 23ull, 24ull, 25ull, 40ull, 60ull, 100ull, 200ull, 4096ull, 0x80000000ull, 0xffffffffull})
            add(fd_readdir, mc::fmt("len %llu", (unsigned long long)n), {outneed(n, n < 25 ? 0 : std::min<uint64_t>(n, dirtotal) / 2, 0), out(4, 4, 4)}, [n](const Addr &a) { return V{FD_DIR_, a[0], n, 0, a[1]}; }, n < 5000);
        /* random */
        for (uint64_t n : {0ull, 1ull, 16ull, 300ull, 65536ull, 65537ull, 0x7fffffffull, 0xffffffffull})
            add(random_get, mc::fmt("len %llu", (unsigned long long)n), {out(1, n, 0)}, [n](const Addr &a) { return V{a[0], n}; }, n <= 65536);
        /* paths */
        auto one = [&](int f, const std::string &p, std::vector<Slot> more, std::function<V(uint64_t, uint64_t, const Addr &)> mkargs) {
            std::vector<Slot> s{in(1, p)};
            s.insert(s.end(), more.begin(), more.end());
            uint64_t n = p.size();
            add(f, "", s, [mkargs, n](const Addr &a) { return mkargs(a[0], n, a); });
            for (uint64_t l : {0ull, 2ull, 4000ull, 65536ull, 65537ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull}) {
                s[0] = inlen(1, l, p);
                add(f, mc::fmt("path length %llu", (unsigned long long)l), s, [mkargs, l](const Addr &a) { return mkargs(a[0], l, a); }, false);
            }
        };
        one(path_create_directory, "n", {}, [](uint64_t p, uint64_t n, const Addr &) { return V{FD_PRE, p, n}; });
        one(path_remove_directory, "e", {}, [](uint64_t p, uint64_t n, const Addr &) { return V{FD_PRE, p, n}; });
        one(path_unlink_file, "u", {}, [](uint64_t p, uint64_t n, const Addr &) { return V{FD_PRE, p, n}; });
        one(path_filestat_get, "f", {out(8, fss, fss - 24)}, [](uint64_t p, uint64_t n, const Addr &a) { return V{FD_PRE, 0, p, n, a[1]}; });
        one(path_filestat_set_times, "f", {}, [](uint64_t p, uint64_t n, const Addr &) { return V{FD_PRE, 0, p, n, 1000000, 2000000, 5}; });
        one(path_open, "f", {out(4, 4, 4)}, [](uint64_t p, uint64_t n, const Addr &a) { return V{FD_PRE, 0, p, n, 0, R_READ, 0, 0, a[1]}; });
        one(path_open, "n", {out(4, 4, 4)}, [](uint64_t p, uint64_t n, const Addr &a) { return V{FD_PRE, 0, p, n, O_W_CREAT, R_READ | R_WRITE, 0, 0, a[1]}; });
        for (uint64_t n : {0ull, 1ull, 4ull, 5ull, 64ull, 65536ull, 65537ull, 0xffffffffull})
            add(path_readlink, mc::fmt("buffer %llu", (unsigned long long)n), {in(1, "s"), outneed(n, std::min<uint64_t>(n, 4), std::min<uint64_t>(n, 4)), out(4, 4, 4)}, [n](const Addr &a) { return V{FD_PRE, a[0], 1, a[1], n, a[2]}; }, n && n < 65536);
        one(path_readlink, "s", {out(1, 4, 4), out(4, 4, 4)}, [](uint64_t p, uint64_t n, const Addr &a) { return V{FD_PRE, p, n, a[1], 4, a[2]}; });
        for (int sw = 0; sw < 2; sw++) {
            one(path_symlink, sw ? "n" : "target", {in(1, sw ? "target" : "n")}, [sw](uint64_t p, uint64_t n, const Addr &a) { return sw ? V{a[1], 6, FD_PRE, p, n} : V{p, n, FD_PRE, a[1], 1}; });
            one(path_link, sw ? "n" : "f", {in(1, sw ? "f" : "n")}, [sw](uint64_t p, uint64_t n, const Addr &a) { return sw ? V{FD_PRE, 1, a[1], 1, FD_PRE, p, n} : V{FD_PRE, 1, p, n, FD_PRE, a[1], 1}; });
            one(path_rename, sw ? "n" : "u", {in(1, sw ? "u" : "n")}, [sw](uint64_t p, uint64_t n, const Addr &a) { return sw ? V{FD_PRE, a[1], 1, FD_PRE, p, n} : V{FD_PRE, p, n, FD_PRE, a[1], 1}; });
        }
        add(sock_accept, "", {out(4, 4, 4)}, [](const Addr &a) { return V{FD_LISTEN, 0, a[0]}; });
        /* polling: events that are there at once */
        std::string s1 = sub_fd(0x1111111111111111ull, 2, FD_FILE), s2 = sub_fd(0x2222222222222222ull, 1, FD_SOCK), s3 = sub_clock(0x3333333333333333ull, 1, 0), s4 = sub_fd(0x4444444444444444ull, 1, 77);
        struct PS {
            std::string subs;
            uint64_t n, ev;
        } ps[] = {{s1, 1, 1}, {s3, 1, 1}, {s4, 1, 1}, {s1 + s2, 2, 2}, {s2 + s1 + s3, 3, 2}, {s3 + s2, 2, 1}, {s4 + s4 + s1, 3, 2}};
        for (auto &p : ps) {
            uint64_t n = p.n;
            add(poll_oneoff, mc::fmt("%d subscriptions", (int)n), {in(8, p.subs), {true, 8, n * 32, n * 32, p.ev * 32, nullptr}, out(4, 4, 4)}, [n](const Addr &a) { return V{a[0], a[1], n, a[2]}; });
        }
        for (uint64_t n : {0ull, 89478485ull, 89478486ull, 134217728ull, 134217729ull, 0x80000000ull, 0xffffffffull})
            add(poll_oneoff, mc::fmt("count %llu", (unsigned long long)n), {inlen(8, n * 48, s1 + s2), out(8, n * 32, 0), out(4, 4, 4)}, [n](const Addr &a) { return V{a[0], a[1], n, a[2]}; }, false);
    }
}

/* ---- memories ---- */
struct MemKind {
    const char *name;
    Lim lim;
    uint32_t grow;
    bool fill;
};
static const MemKind kinds[] = {
    {"one page, written", {1, true, 4}, 0, true},
    {"one page, untouched", {1, true, 4}, 0, false},
    {"grown from nothing", {0, true, 4}, 2, false},
    {"empty", {0, true, 4}, 0, false},
    {"three pages, untouched", {3, true, 3}, 0, false},
    {"shared", {1, true, 3, true}, 0, true},
    {"shared and grown", {1, true, 3, true}, 1, true},
};
static const int NK = 7;
static tw_mod *Mods[NK];

static int dir_fd = -1, listen_fd = -1;
static std::string sockname;

static void ensure()
{
    unlink("n");
    rmdir("n");
    close(open("u", O_WRONLY | O_CREAT, 0644));
    mkdir("e", 0755);
}
static bool is_sock(int f) { return f == sock_accept || f == sock_recv || f == sock_send || f == poll_oneoff; }

struct Outcome {
    Res r;
    std::vector<std::string> outs;
    std::string bad; /* memory damage */
};
static Outcome exec(const Call &c, const Addr &a, const MemKind &k, tw_mod *mod, uint64_t M)
{
    Outcome o;
    ensure();
    int ff = open("f", O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (pwrite(ff, "hello", 5, 0) != 5)
        abort();
    int sp[2] = {-1, -1}, cl = -1;
    {
        Guest g;
        std::string e = g.start(Env, mod);
        static const char *const av[] = {"prog", "-x", "y"}; /* 10 bytes */
        static const char *const ev[] = {"A=bcd", "=", "1"};
        if (e.empty()) {
            wz_args(g.w, 3, av);
            wz_environ(g.w, 3, ev);
        }
        if (e.empty() && (wz_preopen(g.w, (W + "/t::" + GNAME).c_str()) || wz_addfd(g.w, FD_FILE, ff) || wz_addfd(g.w, FD_DIR_, dir_fd)))
            e = "set-up";
        if (e.empty() && is_sock(c.f)) {
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0 || write(sp[1], "sockd", 5) != 5 || wz_addfd(g.w, FD_SOCK, sp[0]))
                abort();
            if (c.f == sock_accept) {
                cl = socket(AF_UNIX, SOCK_STREAM, 0);
                struct sockaddr_un sa;
                memset(&sa, 0, sizeof(sa));
                sa.sun_family = AF_UNIX;
                strcpy(sa.sun_path, sockname.c_str());
                if (connect(cl, (struct sockaddr *)&sa, sizeof(sa)) != 0 || wz_addfd(g.w, FD_LISTEN, listen_fd))
                    abort();
            }
        }
        if (e.empty())
            e = g.link();
        if (!e.empty()) {
            fprintf(stderr, "%s\n", e.c_str());
            abort();
        }
        if (k.grow && g.grow(k.grow) != k.lim.min)
            abort();
        std::string model(M, 0);
        if (k.fill) {
            for (size_t i = 0; i < M; i++)
                model[i] = (char)(0x80 | (i * 7 + (i >> 8)));
            g.put(0, model);
        }
        for (size_t i = 0; i < c.s.size(); i++) {
            const Slot &s = c.s[i];
            if (s.out)
                continue;
            std::string d = s.data(a);
            if (d.size() && a[i] + d.size() <= M) {
                g.put((uint32_t)a[i], d);
                memcpy(&model[a[i]], d.data(), d.size());
            }
        }
        o.r = g.callv(c.f, c.args(a), c.un);
        std::string now(M, 0);
        if (M)
            g.get(0, &now[0], M);
        for (size_t i = 0; i < c.s.size(); i++) {
            const Slot &s = c.s[i];
            if (!s.out)
                continue;
            if (a[i] + std::min(s.size, s.cmp) <= M)
                o.outs.push_back(now.substr(a[i], std::min(s.size, s.cmp)));
            else
                o.outs.push_back("");
            if (c.f == poll_oneoff && s.align == 8) {
                /* padding, and what only descriptor events have */
                std::string &q = o.outs.back();
                for (size_t e = 0; e + 32 <= q.size(); e += 32)
                    for (size_t b = 11; b < 32; b++)
                        if (b < 16 || b >= 26 || q[e + 10] == 0)
                            q[e + b] = 0;
            }
            for (uint64_t j = a[i]; j < a[i] + s.size && j < M; j++)
                now[j] = model[j];
        }
        if (now != model) {
            size_t i = 0;
            while (now[i] == model[i])
                i++;
            o.bad = mc::fmt("byte %zu changes from %02x to %02x although no argument designates it as output", i, (uint8_t)model[i], (uint8_t)now[i]);
        }
    }
    close(ff);
    if (cl >= 0) {
        /* drain a connection that was not accepted */
        fcntl(listen_fd, F_SETFL, O_NONBLOCK);
        int q = accept(listen_fd, nullptr, nullptr);
        if (q >= 0)
            close(q);
        close(cl);
    }
    for (int s : sp)
        if (s >= 0)
            close(s);
    return o;
}
static uint64_t memsize(const MemKind &k) { return (k.lim.min + k.grow) * 65536; }
/* canonical placement: slots one after another */
static bool canon(const Call &c, uint64_t M, Addr &a)
{
    uint64_t at = 64;
    a.clear();
    for (auto &s : c.s) {
        at = (at + 15) & ~15ull;
        if (s.size > M || at + s.size > M) {
            /* a big one goes to the start if it is the only big one */
            if (s.size <= M && s.size > 4096 && a.size() == 0 && c.s.size() == 1) {
                a.push_back(0);
                continue;
            }
            a.push_back(at);
            at += 64;
            continue;
        }
        a.push_back(at);
        at += s.size + 5;
    }
    return true;
}
static std::string show(const Call &c, const Addr &a, const MemKind &k)
{
    std::string s = c.name + mc::fmt(" (memory: %s, %llu bytes), designating", k.name, (unsigned long long)memsize(k));
    for (size_t i = 0; i < c.s.size(); i++)
        s += mc::fmt(" %s[0x%llx+%llu]", c.s[i].out ? "out" : "in", (unsigned long long)a[i], (unsigned long long)c.s[i].size);
    return s;
}
struct CanonRes {
    bool have = false, fits = true;
    Outcome o;
};
static std::map<std::pair<size_t, int>, CanonRes> Canon;

static std::string judge(size_t ci, const Addr &a, int ki)
{
    const Call &c = Calls[ci];
    const MemKind &k = kinds[ki];
    uint64_t M = memsize(k);
    X->add(c_calls);
    Outcome o = exec(c, a, k, Mods[ki], M);
    if (!o.bad.empty())
        return show(c, a, k) + " gives " + o.r.str() + ": " + o.bad;
    if (o.r.rc != 0 && o.r.rc != TW_TRAP)
        return show(c, a, k) + " gives " + o.r.str();
    bool must_fail = false, inside = true, overlap = false, clobbered = false;
    for (size_t i = 0; i < c.s.size(); i++) {
        const Slot &s = c.s[i];
        if (s.need && (a[i] + s.need > M || a[i] % s.align))
            must_fail = true;
        if (a[i] + s.size > M || a[i] % s.align)
            inside = false;
        for (size_t j = 0; j < c.s.size(); j++)
            if (i != j && s.out && s.size && c.s[j].size && a[i] < a[j] + c.s[j].size && a[j] < a[i] + s.size)
                overlap = true;
            else if (i != j && !s.out && !c.s[j].out && s.size && c.s[j].size && a[i] < a[j] + c.s[j].size && a[j] < a[i] + s.size)
                clobbered = true; /* the inputs are not what they should be */
    }
    /* an output range that is named but need not be reached leaves it open */
    if (must_fail && !clobbered) {
        X->add(c_fail);
        if (o.r.ok())
            return show(c, a, k) + " succeeds although a designated range is outside the memory or misaligned";
        return "";
    }
    if (!inside || overlap || clobbered) {
        X->add(c_free);
        return "";
    }
    CanonRes &cr = Canon[{ci, ki}];
    if (!cr.have) {
        Addr ca;
        canon(c, M, ca);
        cr.o = exec(c, ca, k, Mods[ki], M);
        cr.have = true;
        bool fits = true;
        for (size_t i = 0; i < c.s.size(); i++)
            fits = fits && ca[i] + c.s[i].size <= M;
        cr.fits = fits;
        if (fits && c.must_work && !cr.o.r.ok())
            return show(c, ca, k) + " does not work: " + cr.o.r.str();
    }
    X->add(c_ok);
    /*
     * what an over-long input holds depends on where it is, and whether the
     * canonical place of a big range fits depends on its size
     */
    if (!c.must_work || !cr.fits)
        return "";
    if (o.r.rc != cr.o.r.rc || o.r.err != cr.o.r.err)
        return show(c, a, k) + " gives " + o.r.str() + ", elsewhere in memory " + cr.o.r.str();
    if (o.r.ok() && o.outs != cr.o.outs)
        return show(c, a, k) + " gives an output that differs from the one elsewhere in memory";
    return "";
}
static std::vector<uint64_t> alphabet(const Slot &s, uint64_t M, uint64_t c, bool small)
{
    if (small) {
        uint64_t e = (M - s.size) & ~(uint64_t)(s.align - 1);
        std::vector<uint64_t> r{c, 0, M, 0xffffffff, c + 1};
        if (s.size <= M) {
            r.push_back(e);
            r.push_back(e + s.align);
        }
        if (s.size && s.size < 65536)
            r.push_back((1ull << 32) - s.size);
        if (M > 65536)
            r.push_back(M / 2);
        return r;
    }
    std::vector<uint64_t> v{c, 0, M, M - 1, M + 1, 0x7ffffff8, 0x80000000, 0xfffffff8, 0xffffffff, c + 1, c + 2, c + 4};
    uint64_t al = std::max<uint32_t>(s.align, 1);
    for (uint64_t z : {s.size, s.need}) {
        v.push_back(M - z);
        v.push_back(M - z + 1);
        v.push_back(M - z + al);
        v.push_back((M - z) & ~(al - 1));
        v.push_back(((M - z) & ~(al - 1)) - al);
        v.push_back((1ull << 32) - z);
        v.push_back((1ull << 32) - z + 1);
        v.push_back((1ull << 32) - z + al);
        v.push_back((1ull << 32) - z - al);
    }
    if (M > 65536) {
        v.push_back(M / 2);
        v.push_back(65536 - 8);
        v.push_back(M - 4096);
    }
    std::set<uint64_t> u;
    std::vector<uint64_t> r;
    for (uint64_t x : v)
        if (x <= 0xffffffff && u.insert(x).second)
            r.push_back(x);
    return r;
}
/* all placements of one call on one kind of memory, two slots at a time */
static std::vector<Addr> placements(const Call &c, uint64_t M, bool full)
{
    Addr b;
    canon(c, M, b);
    std::vector<Addr> v{b};
    for (size_t i = 0; i < c.s.size(); i++) {
        for (uint64_t x : alphabet(c.s[i], M, b[i], false)) {
            Addr a = b;
            a[i] = x;
            v.push_back(a);
        }
        for (uint64_t x : alphabet(c.s[i], M, b[i], !full))
            for (size_t j = i + 1; j < c.s.size(); j++)
                for (uint64_t y : alphabet(c.s[j], M, b[j], !full)) {
                    Addr a = b;
                    a[i] = x;
                    a[j] = y;
                    v.push_back(a);
                }
    }
    return v;
}

/*
 * lengths that only a memory of the largest size can hold: a path of
 * 2^32 - 1 bytes designates nothing outside of it.
 */
static std::string giant(int which)
{
    X->add(c_calls);
    X->add(c_ok);
    tw_mod *m = Guest::load(Env, Lim{65536, true, 65536});
    std::string d;
    {
        Guest g;
        std::string e = g.start(Env, m);
        if (e.empty() && wz_preopen(g.w, (W + "/t::" + GNAME).c_str()))
            e = "set-up";
        if (e.empty())
            e = g.link();
        if (!e.empty())
            return e;
        std::vector<uint64_t> v;
        int f;
        switch (which) {
        case 0:
            f = path_create_directory;
            v = {FD_PRE, 0, 0xffffffff};
            break;
        case 1:
            f = path_symlink;
            v = {0, 0xffffffff, FD_PRE, 0, 1};
            break;
        default:
            f = path_symlink;
            v = {0, 1, FD_PRE, 1, 0xffffffff};
            break;
        }
        Res r = g.callv(f, v, false);
        if (r.ok() || (r.rc && r.rc != TW_TRAP && r.rc != ENOMEM))
            d = mc::fmt("%s with a path of 2^32-1 bytes in a memory of 65536 pages gives %s", fn_name[f], r.str().c_str());
    }
    tw_unload(m);
    return d;
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "wasiptr");
    X = &x;
    c_calls = x.counter("calls");
    c_ok = x.counter("calls_that_must_work");
    c_fail = x.counter("calls_that_must_fail");
    c_free = x.counter("calls_judged_for_memory_only");
    bool full = x.opt.get("alphabet", "small") == "full";
    /* listing of a directory with ".", "..", "x", "longer" */
    dirtotal = 24 * 4 + 1 + 2 + 1 + 6;
    build();
    scratch::Root root;
    x.worker_init.push_back([&](int w) {
        W = root.enter(w);
        signal(SIGPIPE, SIG_IGN);
        mkdir((W + "/t").c_str(), 0755);
        if (chdir((W + "/t").c_str()) != 0)
            abort();
        unlink("s");
        if (symlink("some", "s") != 0)
            abort();
        mkdir("d", 0755);
        close(open("d/x", O_WRONLY | O_CREAT, 0644));
        close(open("d/longer", O_WRONLY | O_CREAT, 0644));
        dir_fd = open("d", O_RDONLY | O_DIRECTORY);
        listen_fd = socket(AF_UNIX, SOCK_STREAM, 0);
        sockname = "../ls";
        unlink(sockname.c_str());
        struct sockaddr_un sa;
        memset(&sa, 0, sizeof(sa));
        sa.sun_family = AF_UNIX;
        strcpy(sa.sun_path, sockname.c_str());
        if (bind(listen_fd, (struct sockaddr *)&sa, sizeof(sa)) != 0 || listen(listen_fd, 8) != 0)
            abort();
#ifndef MC_ASAN
        struct rlimit rl = {6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &rl);
#endif
        Env = tw_env_new();
        for (int i = 0; i < NK; i++)
            Mods[i] = Guest::load(Env, kinds[i].lim);
        base_alloc = tw_env_allocated(Env);
    });
    uint64_t n = Calls.size() * NK;
    bool big = x.opt.get("giant", "0") == "1";
    x.run(n + (big ? 1 : 0), [&](uint64_t idx) {
        if (idx == n) {
            for (int i = 0; i < 3; i++) {
                std::string d = giant(i);
                x.beat();
                if (!d.empty())
                    x.fail("%s", d.c_str());
            }
            return;
        }
        size_t ci = idx / NK;
        int ki = (int)(idx % NK);
        if (!full && Calls[ci].un && ki > 1)
            return; /* the older interface shares all but the layouts */
        uint64_t M = memsize(kinds[ki]);
        auto ps = placements(Calls[ci], M, full);
        int bad = 0;
        for (auto &a : ps) {
            std::string d = judge(ci, a, ki);
            x.beat();
            if (d.empty() && tw_env_allocated(Env) != base_alloc)
                d = show(Calls[ci], a, kinds[ki]) + mc::fmt(" leaves %zd bytes accounted", (ssize_t)(tw_env_allocated(Env) - base_alloc));
            if (!d.empty()) {
                x.fail("%s", d.c_str());
                if (++bad >= 1)
                    return;
            }
        }
        x.outcome(mc::fnv(Calls[ci].name) + (uint64_t)ki);
    });
    x.sample(mc::fmt("%zu calls x %d memories, every pointer and every pair of pointers over its alphabet", Calls.size(), NK));
    x.sample(Calls[20].name);
    root.done();
    return x.finish();
}
