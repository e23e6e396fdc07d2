/*
 * WASI descriptor table: every sequence of opening, accepting, renumbering,
 * closing, listing and adding descriptors up to a depth, against a model
 * table, with the process' host descriptors watched after every step.
 */
#include <algorithm>
#include <set>
#include <sys/socket.h>
#include <sys/un.h>
#include "scratch.hpp"
#include "wasi.hpp"

using namespace ws;
static mc::Explorer *X;
static int c_ops, c_probes, c_badf;
static tw_env *Env;
static tw_mod *Mod;
static std::string Dir;
static Lim MEM{1, true, 4};

/* ---- watching close: a closed number is occupied by a sentinel at once, so
 * that a second close of it is seen ---- */
static int sent_src = -1;
static std::set<int> sentinels;
static int bad_close = -1;
static bool watching;
extern "C" {
int __real_close(int);
int __real_closedir(DIR *);
int __wrap_close(int);
int __wrap_closedir(DIR *);
static void place(int fd)
{
    if (watching && sent_src >= 0) {
        dup2(sent_src, fd);
        sentinels.insert(fd);
    }
}
int __wrap_close(int fd)
{
    int r = __real_close(fd);
    if (watching && (r != 0 || sentinels.count(fd)))
        bad_close = fd;
    int e = errno;
    if (r == 0)
        place(fd);
    errno = e;
    return r;
}
int __wrap_closedir(DIR *d)
{
    int fd = d ? dirfd(d) : -1;
    bool was = sentinels.count(fd);
    int r = __real_closedir(d);
    int e = errno;
    if (watching && (r != 0 || was))
        bad_close = fd;
    if (fd >= 0 && r == 0)
        place(fd);
    errno = e;
    return r;
}
}
static bool sentinel_ok(int fd)
{
    struct stat a, b;
    return fstat(fd, &a) == 0 && fstat(sent_src, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}
static std::string reap()
{
    std::string d;
    watching = false;
    for (int fd : sentinels) {
        if (!sentinel_ok(fd))
            d = mc::fmt("host descriptor %d was released twice", fd);
        else
            __real_close(fd);
    }
    sentinels.clear();
    if (d.empty() && bad_close >= 0)
        d = mc::fmt("host descriptor %d was released twice or while not open", bad_close);
    bad_close = -1;
    return d;
}

typedef std::pair<uint64_t, uint64_t> DI;
static const int MAXFD = 96;
static std::map<DI, int> hostfds(const std::set<int> &base)
{
    std::map<DI, int> m;
    for (int i = 0; i < MAXFD; i++) {
        struct stat st;
        if (base.count(i))
            continue;
        if (fstat(i, &st) == 0)
            m[{st.st_dev, st.st_ino}]++;
    }
    return m;
}
static std::set<int> openfds()
{
    std::set<int> s;
    for (int i = 0; i < MAXFD; i++)
        if (fcntl(i, F_GETFD) >= 0)
            s.insert(i);
    return s;
}

enum { K_FILE, K_DIR, K_STDIO, K_PRE, K_LISTEN, K_CONN };
struct Obj {
    int kind;
    DI id{0, 0};
    int64_t off = -1;
    char tag = 0;
    bool listed = false;
};

struct Op {
    int k; /* 0 open file, 1 open dir, 2 open fails, 3 accept, 4 close, 5 renumber, 6 readdir, 7 add host descriptor, 8 all functions on closed */
    uint32_t a, b;
};
static std::string opstr(const Op &o)
{
    static const char *n[] = {"open", "opendir", "open-fail", "accept", "close", "renumber", "readdir", "add-hostfd", "closed-use"};
    return mc::fmt(" %s(%u,%u)", n[o.k], o.a, o.b);
}

static const uint32_t PATHS = 1024, OUT = 2048, IOV = 4096, BUF = 8192;

struct Case {
    Guest g;
    std::map<uint32_t, Obj> t;
    std::set<int> base;
    int lsock = -1;
    std::vector<int> clients;
    int64_t next_off = 1;
    char next_tag = 'A';
    int pipes[2] = {-1, -1};
    std::string hist;
    struct sockaddr_un sa;

    DI idof(int fd)
    {
        struct stat st;
        if (fstat(fd, &st) != 0)
            return {0, 0};
        return {st.st_dev, st.st_ino};
    }
    DI idof(const std::string &p)
    {
        struct stat st;
        if (stat(p.c_str(), &st) != 0)
            return {0, 0};
        return {st.st_dev, st.st_ino};
    }
    uint32_t lowest()
    {
        uint32_t n = 3;
        while (t.count(n))
            n++;
        return n;
    }
    std::string init()
    {
        if (pipe2(pipes, O_CLOEXEC) != 0)
            abort();
        lsock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        unlink("l");
        memset(&sa, 0, sizeof(sa));
        sa.sun_family = AF_UNIX;
        strcpy(sa.sun_path, "l");
        if (bind(lsock, (struct sockaddr *)&sa, sizeof(sa)) != 0 || listen(lsock, 8) != 0)
            abort();
        std::string d = g.start(Env, Mod);
        if (!d.empty())
            return d;
        base = openfds();
        int e = wz_addfd(g.w, 0, pipes[0]);
        e = e ? e : wz_addfd(g.w, 1, pipes[1]);
        e = e ? e : wz_addfd(g.w, 2, pipes[1]);
        e = e ? e : wz_preopen(g.w, (Dir + "::/guest").c_str());
        e = e ? e : wz_addfd(g.w, 4, lsock);
        if (e)
            return mc::fmt("set up failed with %d", e);
        t[0] = {K_STDIO, idof(pipes[0])};
        t[1] = t[2] = {K_STDIO, idof(pipes[1])};
        t[3] = {K_PRE};
        t[4] = {K_LISTEN, idof(lsock)};
        d = g.link();
        if (!d.empty())
            return d;
        g.put(PATHS, "abdx");
        return "";
    }
    void fini()
    {
        for (int c : clients)
            __real_close(c);
        clients.clear();
        if (lsock >= 0)
            __real_close(lsock);
        for (int p : pipes)
            if (p >= 0)
                __real_close(p);
        unlink("l");
    }
    std::string expect(const Res &r, int err, const char *what)
    {
        if (r.rc != 0 || r.err != err)
            return mc::fmt("%s: %s, expected errno %d", what, r.str().c_str(), err);
        return "";
    }
    std::string closed_use(uint32_t n)
    {
        struct C {
            int f;
            std::vector<uint64_t> a;
        };
        g.put32(IOV, BUF), g.put32(IOV + 4, 4);
        g.put64(IOV + 64, 77), g.put64(IOV + 72, 1), g.put32(IOV + 80, n);
        std::vector<C> cs = {
            {fd_advise, {n, 0, 0, 0}}, {fd_allocate, {n, 0, 1}}, {fd_close, {n}}, {fd_datasync, {n}},
            {fd_fdstat_get, {n, OUT}}, {fd_fdstat_set_flags, {n, 0}}, {fd_fdstat_set_flags, {n, FD_NONBLOCK}}, {fd_fdstat_set_rights, {n, 0, 0}},
            {fd_filestat_get, {n, OUT}}, {fd_filestat_set_size, {n, 0}}, {fd_filestat_set_times, {n, 0, 0, 10}},
            {fd_pread, {n, IOV, 1, 0, OUT}}, {fd_prestat_dir_name, {n, OUT, 100}}, {fd_prestat_get, {n, OUT}},
            {fd_pwrite, {n, IOV, 1, 0, OUT}}, {fd_read, {n, IOV, 1, OUT}}, {fd_readdir, {n, BUF, 100, 0, OUT}},
            {fd_renumber, {n, 3}}, {fd_renumber, {3, n}}, {fd_renumber, {n, n}}, {fd_seek, {n, 0, 0, OUT}}, {fd_sync, {n}}, {fd_tell, {n, OUT}},
            {fd_write, {n, IOV, 1, OUT}}, {path_create_directory, {n, PATHS + 3, 1}}, {path_filestat_get, {n, 1, PATHS, 1, OUT}},
            {path_filestat_set_times, {n, 1, PATHS, 1, 0, 0, 10}}, {path_link, {n, 1, PATHS, 1, 3, PATHS + 3, 1}},
            {path_link, {3, 1, PATHS, 1, n, PATHS + 3, 1}}, {path_open, {n, 1, PATHS, 1, 0, 2, 0, 0, OUT}},
            {path_readlink, {n, PATHS, 1, BUF, 100, OUT}}, {path_remove_directory, {n, PATHS + 2, 1}},
            {path_rename, {n, PATHS, 1, 3, PATHS + 3, 1}}, {path_rename, {3, PATHS, 1, n, PATHS + 3, 1}},
            {path_symlink, {PATHS, 1, n, PATHS + 3, 1}}, {path_unlink_file, {n, PATHS, 1}},
            {sock_accept, {n, 0, OUT}}, {sock_recv, {n, IOV, 1, 0, OUT, OUT + 8}}, {sock_send, {n, IOV, 1, 0, OUT}}, {sock_shutdown, {n, 1}},
        };
        if (t.count(3) == 0 || t[3].kind != K_PRE)
            cs.erase(std::remove_if(cs.begin(), cs.end(), [&](const C &c) { return c.a[0] == 3; }), cs.end());
        g.fill(OUT, 0xa5, 128), g.fill(BUF, 0x5a, 128);
        for (int u = 0; u < 2; u++)
            for (auto &c : cs) {
                Res r = g.callv(c.f, c.a, u != 0);
                X->add(c_badf);
                if (r.rc != 0 || r.err != E_BADF)
                    return mc::fmt("%s%s on closed descriptor %u: %s, expected BADF", u ? "unstable " : "", fn_name[c.f], n, r.str().c_str());
            }
        if (g.gets(OUT, 128) != std::string(128, (char)0xa5) || g.gets(BUF, 128) != std::string(128, 0x5a))
            return mc::fmt("a call on closed descriptor %u wrote to memory", n);
        /* poll reports it as an event */
        Res r = g.call(poll_oneoff, {IOV + 64, BUF, 1, OUT});
        if (!r.ok() || g.get32(OUT) != 1 || g.get64(BUF) != 77 || g.get16(BUF + 8) != E_BADF || g.get8(BUF + 10) != 1)
            return mc::fmt("poll on closed descriptor %u: %s", n, r.str().c_str());
        if (idof(Dir + "/a") == DI{0, 0} || idof(Dir + "/d") == DI{0, 0} || idof(Dir + "/x") != DI{0, 0})
            return "a call on a closed descriptor changed the file system";
        return "";
    }
    std::string apply(const Op &o)
    {
        X->add(c_ops);
        Res r;
        std::string d;
        switch (o.k) {
        case 0:
        case 1: {
            uint32_t want = lowest();
            char nm = o.k == 1 ? 'd' : (char)('a' + o.a);
            uint32_t pa = PATHS + (o.k == 1 ? 2 : o.a);
            uint32_t dirfd = 3;
            if (!t.count(3) || t[3].kind != K_PRE) {
                /* the preopen moved or is gone */
                dirfd = ~0u;
                for (auto &e : t)
                    if (e.second.kind == K_PRE)
                        dirfd = e.first;
                if (dirfd == ~0u)
                    return "";
            }
            r = g.call(path_open, {dirfd, 0, pa, 1, o.k == 1 ? (uint64_t)O_W_DIRECTORY : 0, R_READ, 0, 0, OUT});
            d = expect(r, 0, "open");
            if (d.empty() && g.get32(OUT) != want)
                d = mc::fmt("open gave descriptor %u, lowest free is %u", g.get32(OUT), want);
            if (!d.empty())
                return d;
            Obj ob{o.k == 1 ? K_DIR : K_FILE, idof(Dir + "/" + nm)};
            if (o.k == 0) {
                ob.off = next_off++;
                r = g.call(fd_seek, {want, (uint64_t)ob.off, 0, OUT});
                d = expect(r, 0, "seek");
            }
            t[want] = ob;
            return d;
        }
        case 2:
            if (!t.count(3) || t[3].kind != K_PRE)
                return "";
            return expect(g.call(path_open, {3, 0, PATHS + 3, 1, 0, R_READ, 0, 0, OUT}), E_NOENT, "open of a missing file");
        case 3: {
            uint32_t lf = ~0u;
            for (auto &e : t)
                if (e.second.kind == K_LISTEN)
                    lf = e.first;
            if (lf == ~0u)
                return "";
            int c = -1;
            if (o.a == 0) {
                c = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
                int hi = fcntl(c, F_DUPFD_CLOEXEC, MAXFD + 2);
                __real_close(c);
                c = hi;
                clients.push_back(c);
                if (connect(c, (struct sockaddr *)&sa, sizeof(sa)) != 0)
                    abort();
                char tg = next_tag++;
                if (send(c, &tg, 1, 0) != 1)
                    abort();
            } else {
                r = g.call(fd_fdstat_set_flags, {lf, FD_NONBLOCK});
                d = expect(r, 0, "set nonblocking");
                if (!d.empty())
                    return d;
            }
            uint32_t want = lowest();
            r = g.call(sock_accept, {lf, o.a ? 0u : FD_NONBLOCK, OUT});
            if (o.a)
                return expect(r, E_AGAIN, "accept with nobody waiting");
            d = expect(r, 0, "accept");
            if (d.empty() && g.get32(OUT) != want)
                d = mc::fmt("accept gave descriptor %u, lowest free is %u", g.get32(OUT), want);
            if (d.empty()) {
                Obj ob{K_CONN};
                ob.tag = (char)(next_tag - 1);
                r = g.call(fd_filestat_get, {want, OUT});
                FileStat s = get_filestat(g, OUT);
                ob.id = {s.dev, s.ino};
                t[want] = ob;
            }
            return d;
        }
        case 4:
            r = g.call(fd_close, {o.a});
            d = expect(r, t.count(o.a) ? 0 : E_BADF, "close");
            t.erase(o.a);
            return d;
        case 5:
            r = g.call(fd_renumber, {o.a, o.b});
            if (t.count(o.a) && t.count(o.b)) {
                d = expect(r, 0, "renumber");
                if (o.a != o.b) {
                    t[o.b] = t[o.a];
                    t.erase(o.a);
                }
            } else
                d = expect(r, E_BADF, "renumber");
            return d;
        case 6: {
            g.fill(BUF, 0, 512);
            r = g.call(fd_readdir, {o.a, BUF, 512, 0, OUT});
            bool open = t.count(o.a) != 0;
            if (!open || t[o.a].kind == K_PRE)
                return expect(r, E_BADF, "readdir");
            if (t[o.a].kind != K_DIR)
                return expect(r, E_NOTDIR, "readdir");
            d = expect(r, 0, "readdir");
            t[o.a].listed = true;
            if (d.empty()) {
                std::string all = g.gets(BUF, g.get32(OUT));
                if (all.find("entry1") == std::string::npos || all.find("entry2") == std::string::npos)
                    d = "readdir misses an entry";
            }
            return d;
        }
        case 7: {
            int e = wz_addfd(g.w, o.a, pipes[0]);
            if (t.count(o.a)) {
                if (e == 0)
                    d = "an occupied descriptor number was given to a host descriptor";
            } else {
                if (e != 0)
                    d = mc::fmt("adding a host descriptor failed with %d", e);
                t[o.a] = {K_STDIO, idof(pipes[0])};
            }
            return d;
        }
        case 8: {
            uint32_t n = o.a;
            if (t.count(n))
                return "";
            return closed_use(n);
        }
        }
        return "";
    }
    std::string verify()
    {
        std::map<DI, int> want, slack;
        static const uint32_t extra[] = {100, 0x7fffffff, 0xffffffff};
        for (uint32_t k = 0; k < 15; k++) {
            uint32_t n = k < 12 ? k : extra[k - 12];
            X->add(c_probes);
            Res r = g.call(fd_fdstat_get, {n, OUT});
            auto it = t.find(n);
            if (it == t.end()) {
                std::string d = expect(r, E_BADF, mc::fmt("fdstat of closed %u", n).c_str());
                if (!d.empty())
                    return d;
                continue;
            }
            Obj &o = it->second;
            std::string d = expect(r, 0, mc::fmt("fdstat of %u", n).c_str());
            if (!d.empty())
                return d;
            int ty = g.get8(OUT);
            static const int types[] = {FT_REG, FT_DIR, FT_UNKNOWN, FT_DIR, FT_STREAM, FT_STREAM};
            if (ty != types[o.kind])
                return mc::fmt("descriptor %u has type %d, expected %d", n, ty, types[o.kind]);
            r = g.call(fd_prestat_get, {n, OUT});
            if (o.kind == K_PRE) {
                d = expect(r, 0, "prestat_get");
                if (d.empty() && g.get32(OUT + 4) != 6)
                    d = "wrong preopen name length";
                if (d.empty())
                    d = expect(g.call(fd_prestat_dir_name, {n, OUT, 6}), 0, "prestat_dir_name");
                if (d.empty() && g.gets(OUT, 6) != "/guest")
                    d = "wrong preopen name";
                if (!d.empty())
                    return mc::fmt("descriptor %u: %s", n, d.c_str());
                continue;
            }
            d = expect(r, E_BADF, "prestat_get of a non-preopen");
            if (!d.empty())
                return d;
            want[o.id]++;
            if (o.listed)
                slack[o.id]++;
            d = expect(g.call(fd_filestat_get, {n, OUT}), 0, "filestat");
            if (!d.empty())
                return d;
            FileStat s = get_filestat(g, OUT);
            if (DI{s.dev, s.ino} != o.id)
                return mc::fmt("descriptor %u refers to another file than it was opened for", n);
            if (o.kind == K_FILE) {
                d = expect(g.call(fd_tell, {n, OUT}), 0, "tell");
                if (d.empty() && (int64_t)g.get64(OUT) != o.off)
                    d = mc::fmt("descriptor %u has offset %lld, expected %lld", n, (long long)g.get64(OUT), (long long)o.off);
            }
            if (o.kind == K_CONN) {
                g.put32(IOV, BUF), g.put32(IOV + 4, 1);
                d = expect(g.call(sock_recv, {n, IOV, 1, 1, OUT, OUT + 8}), 0, "peek");
                if (d.empty() && (g.get32(OUT) != 1 || g.get8(BUF) != (uint8_t)o.tag))
                    d = mc::fmt("descriptor %u is another connection", n);
            }
            if (!d.empty())
                return d;
        }
        auto have = hostfds(base);
        for (auto &h : have)
            if (h.second > want[h.first] + slack[h.first])
                return mc::fmt("%d host descriptors are open on an object that %d descriptors refer to", h.second, want[h.first]);
        for (auto &h : want)
            if (h.second > have[h.first])
                return mc::fmt("only %d host descriptors are open on an object that %d descriptors refer to", have[h.first], h.second);
        return "";
    }
};

static std::vector<Op> Ops;
static void build_ops(bool full)
{
    Ops.clear();
    Ops.push_back({0, 0, 0});
    Ops.push_back({0, 1, 0});
    Ops.push_back({1, 0, 0});
    Ops.push_back({2, 0, 0});
    Ops.push_back({3, 0, 0});
    Ops.push_back({3, 1, 0});
    for (uint32_t n : {0u, 3u, 4u, 5u, 6u, 7u})
        Ops.push_back({4, n, 0});
    std::vector<uint32_t> f = {0, 3, 4, 5, 6, 7}, to = {0, 3, 5, 6};
    for (uint32_t a : f)
        for (uint32_t b : to)
            if (full || a == b || (a >= 4 && b != 6) || (a == 3 && b == 5))
                Ops.push_back({5, a, b});
    Ops.push_back({5, 5, 100});
    Ops.push_back({5, 3, 0xffffffffu});
    Ops.push_back({5, 0xffffffffu, 5});
    Ops.push_back({5, 5, 0x7fffffffu});
    Ops.push_back({6, 5, 0});
    Ops.push_back({6, 6, 0});
    Ops.push_back({7, 0, 0});
    Ops.push_back({7, 5, 0});
    Ops.push_back({7, 7, 0});
    for (uint32_t n : {0u, 5u, 7u, 0xffffffffu})
        Ops.push_back({8, n, 0});
}
static void seq(const std::vector<int> &s)
{
    Case c;
    std::string d = c.init();
    for (size_t i = 0; i < s.size() && d.empty(); i++) {
        const Op &o = Ops[(size_t)s[i]];
        c.hist += opstr(o);
        watching = true;
        d = c.apply(o);
        std::string e = reap();
        if (d.empty())
            d = e;
        if (d.empty())
            d = c.verify();
    }
    watching = true;
    c.g.stop();
    std::string e = reap();
    if (d.empty())
        d = e.empty() ? e : "destroying: " + e;
    if (d.empty()) {
        auto have = hostfds(c.base);
        if (!have.empty())
            d = mc::fmt("%zu host objects are still open after everything was destroyed", have.size());
        for (int b : c.base)
            if (fcntl(b, F_GETFD) < 0)
                d = mc::fmt("the embedder's own descriptor %d was closed", b);
    }
    c.fini();
    X->outcome(mc::fnv(c.hist));
    if (!d.empty())
        X->fail("after%s: %s", c.hist.c_str(), d.c_str());
}

static size_t base_alloc;
int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "wasifd");
    X = &x;
    c_ops = x.counter("operations");
    c_probes = x.counter("descriptor probes");
    c_badf = x.counter("calls on closed descriptors");
    signal(SIGPIPE, SIG_IGN);
    scratch::Root root;
    int depth = atoi(x.opt.get("depth", "3").c_str());
    build_ops(x.opt.get("full", "0") == "1");
    size_t NO = Ops.size();
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
        n *= NO;
    const uint64_t CH = 64;
    x.worker_init.push_back([&](int w) {
        Dir = root.enter(w) + "/t";
        mkdir(Dir.c_str(), 0700);
        mkdir((Dir + "/d").c_str(), 0700);
        for (const char *f : {"/a", "/b", "/d/entry1", "/d/entry2"}) {
            int fd = open((Dir + f).c_str(), O_CREAT | O_RDWR, 0600);
            if (fd < 0 || write(fd, "0123456789", 10) != 10)
                abort();
            __real_close(fd);
        }
        int s = open("/dev/null", O_RDWR | O_CLOEXEC);
        sent_src = fcntl(s, F_DUPFD_CLOEXEC, MAXFD + 1);
        __real_close(s);
        Env = tw_env_new();
        Mod = Guest::load(Env, MEM);
        base_alloc = tw_env_allocated(Env);
    });
    x.run((n + CH - 1) / CH, [&](uint64_t i) {
        for (uint64_t k = i * CH; k < (i + 1) * CH && k < n; k++) {
            std::vector<int> s;
            uint64_t v = k;
            for (int j = 0; j < depth; j++, v /= NO)
                s.push_back((int)(v % NO));
            int before = x.sh->nviol;
            seq(s);
            if (x.sh->nviol > before)
                return;
            size_t a = tw_env_allocated(Env);
            if (a != base_alloc) {
                x.fail("sequence %llu leaves %zd bytes accounted", (unsigned long long)k, (ssize_t)(a - base_alloc));
                return;
            }
        }
    });
    x.sample(mc::fmt("%zu operations, every sequence of %d, e.g.%s%s%s", NO, depth, opstr(Ops[2]).c_str(), opstr(Ops[NO - 8]).c_str(), opstr(Ops[9]).c_str()));
    root.done();
    return x.finish();
}
