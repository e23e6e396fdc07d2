/*
 * WASI file and directory calls against POSIX calls: the guest works on tree A
 * through WASI, an independent reference makes the corresponding POSIX calls
 * on an identical tree B, and errors, values and the resulting trees are
 * compared.
 *
 *  --part flags    every flag combination of path_open and every path operation
 *  --part fd       every descriptor operation with its argument tables
 *  --part dir      directory listing with every buffer size and cookie
 *  --part seq      every sequence of --depth operations
 */
#include <algorithm>
#include <set>
#include <sys/time.h>
#include <sys/uio.h>
#include "scratch.hpp"
#include "wasi.hpp"

using namespace ws;
static mc::Explorer *X;
static int c_ops, c_ok, c_err, c_snap;
static tw_env *Env;
static tw_mod *Mod;
static std::string W;
static size_t base_alloc;

static const uint32_t OUT = 512, P1 = 1024, P2 = 8192, IOV = 16384, BUF = 20480, DIRB = 32768;
static const uint64_t T0 = 1000000000ull * 1000000000ull; /* times in the initial tree */
static const uint64_t SPECIAL[] = {0, 1000ull, 1234567891234567000ull, 999999999999000ull, 4102444800000001000ull};

/* ---- the trees ---- */
static void must(bool ok, const char *what)
{
    if (!ok) {
        fprintf(stderr, "set-up of the tree: %s: %s\n", what, strerror(errno));
        abort();
    }
}
static void mkfile(int d, const char *n, const char *c, int mode)
{
    int fd = openat(d, n, O_WRONLY | O_CREAT | O_EXCL, mode);
    must(fd >= 0, n);
    must(write(fd, c, strlen(c)) == (ssize_t)strlen(c), n);
    close(fd);
}
static void settimes(int d, const char *n)
{
    struct timespec ts[2] = {{(time_t)(T0 / 1000000000), 0}, {(time_t)(T0 / 1000000000), 0}};
    must(utimensat(d, n, ts, AT_SYMLINK_NOFOLLOW) == 0, n);
}
static void mktree(int d)
{
    mkfile(d, "f", "0123456", 0644);
    mkfile(d, "e", "", 0644);
    mkfile(d, "ro", "readonly", 0444);
    must(mkdirat(d, "d", 0755) == 0, "d");
    mkfile(d, "d/x", "xyz", 0644);
    must(mkdirat(d, "d/sub", 0755) == 0, "d/sub");
    must(mkdirat(d, "em", 0755) == 0, "em");
    must(mkdirat(d, "lk", 0755) == 0, "lk");
    must(symlinkat("f", d, "s") == 0, "s");
    must(symlinkat("d", d, "sd") == 0, "sd");
    must(symlinkat("nosuch", d, "dang") == 0, "dang");
    must(symlinkat("loop", d, "loop") == 0, "loop");
    must(linkat(d, "f", d, "h", 0) == 0, "h");
    must(mkfifoat(d, "p", 0644) == 0, "p");
    for (const char *n : {"f", "e", "ro", "d/x", "d/sub", "em", "lk", "s", "sd", "dang", "loop", "p", "d", "."})
        settimes(d, n);
    must(fchmodat(d, "lk", 0, 0) == 0, "lk");
}
static std::string tclass(const struct timespec &t)
{
    uint64_t ns = (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec;
    if (ns == T0)
        return "old";
    for (uint64_t s : SPECIAL)
        if (s == ns)
            return mc::fmt("%llu", (unsigned long long)ns);
    struct timespec n;
    clock_gettime(CLOCK_REALTIME, &n);
    if (n.tv_sec - t.tv_sec < 3600 && n.tv_sec >= t.tv_sec)
        return "now";
    return mc::fmt("%llu", (unsigned long long)ns);
}
struct Snap {
    std::map<std::string, std::string> e;
};
static void snap_dir(int d, const std::string &pre, Snap &s, std::map<ino_t, std::string> &inos)
{
    int d2 = openat(d, ".", O_RDONLY | O_DIRECTORY | O_NOATIME);
    if (d2 < 0) {
        s.e[pre + "/"] = "unreadable";
        return;
    }
    DIR *dp = fdopendir(d2);
    std::vector<std::string> names;
    while (struct dirent *e = readdir(dp))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
            names.push_back(e->d_name);
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
        struct stat st;
        std::string p = pre + "/" + n;
        if (fstatat(d2, n.c_str(), &st, AT_SYMLINK_NOFOLLOW) != 0) {
            s.e[p] = "gone";
            continue;
        }
        std::string r = mc::fmt("mode %o links %d mtime %s", (unsigned)st.st_mode, S_ISDIR(st.st_mode) ? 0 : (int)st.st_nlink, tclass(st.st_mtim).c_str());
        auto it = inos.insert({st.st_ino, p});
        if (!it.second && !S_ISDIR(st.st_mode))
            r += " same as " + it.first->second;
        if (S_ISREG(st.st_mode)) {
            r += mc::fmt(" size %lld", (long long)st.st_size);
            int fd = openat(d2, n.c_str(), O_RDONLY | O_NOATIME | O_NOFOLLOW);
            if (fd >= 0) {
                char b[2048];
                ssize_t k = read(fd, b, sizeof(b));
                close(fd);
                r += " \"" + std::string(b, (size_t)(k < 0 ? 0 : k)) + "\"";
            }
        } else if (S_ISLNK(st.st_mode)) {
            char b[2048];
            ssize_t k = readlinkat(d2, n.c_str(), b, sizeof(b));
            r += " -> " + std::string(b, (size_t)(k < 0 ? 0 : k));
        }
        s.e[p] = r;
        if (S_ISDIR(st.st_mode)) {
            int sd = openat(d2, n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
            if (sd >= 0) {
                snap_dir(sd, p, s, inos);
                close(sd);
            } else
                s.e[p] += " closed";
        }
    }
    closedir(dp);
}
static Snap snap(int d)
{
    Snap s;
    std::map<ino_t, std::string> inos;
    snap_dir(d, "", s, inos);
    X->add(c_snap);
    return s;
}
static std::string snapdiff(const Snap &a, const Snap &b)
{
    for (auto &k : a.e) {
        auto it = b.e.find(k.first);
        if (it == b.e.end())
            return k.first + " exists (" + k.second + ") but should not";
        if (it->second != k.second)
            return k.first + " is <" + k.second + ">, should be <" + it->second + ">";
    }
    for (auto &k : b.e)
        if (!a.e.count(k.first))
            return k.first + " is missing, should be <" + k.second + ">";
    return "";
}

/* ---- operations ---- */
enum { X_SCAN = NFN, X_NOPS };
struct Op {
    int f;
    uint32_t d = 3;
    std::string p;
    uint32_t d2 = 3;
    std::string p2;
    uint32_t fl = 0, fl2 = 0, fl3 = 0; /* lookup / oflags / fdflags, whence, fstflags */
    uint64_t a = 0, b = 0;             /* offsets, times, rights */
    std::vector<uint32_t> iov;
    std::string data;
    bool un = false;
};
static std::string vis(const std::string &s)
{
    if (s.size() > 60)
        return mc::fmt("<%zu bytes>", s.size());
    std::string r;
    for (char c : s)
        r += c == 0 ? std::string("\\0") : std::string(1, c);
    return "\"" + r + "\"";
}
static std::string opstr(const Op &o)
{
    if (o.f == X_SCAN)
        return mc::fmt("scan(%u)", o.d);
    std::string s = std::string(o.un ? "unstable " : "") + fn_name[o.f] + mc::fmt("(%u", o.d);
    if (strncmp(fn_name[o.f], "path_", 5) == 0)
        s += " " + vis(o.p);
    if (o.f == path_link || o.f == path_rename || o.f == path_symlink)
        s += mc::fmt(" %u ", o.d2) + vis(o.p2);
    if (!o.iov.empty()) {
        s += " iov";
        for (auto n : o.iov)
            s += mc::fmt(" %u", n);
    }
    if (!o.data.empty())
        s += " data " + vis(o.data);
    return s + mc::fmt(" fl %u %u %u a %lld b %lld)", o.fl, o.fl2, o.fl3, (long long)o.a, (long long)o.b);
}

struct HF {
    int b = -1;  /* host descriptor in B */
    int a = -1;  /* O_PATH descriptor of the object in A */
    bool dir = false, pre = false, nonblock = false;
};
/* an expected result: an exact host error, or any refusal */
struct Exp {
    int he = 0;
    bool refuse = false;
    static Exp err(int e) { Exp x; x.he = e; return x; }
    static Exp ref() { Exp x; x.refuse = true; return x; }
};

static bool dirty = true;
static int RA = -1, RB = -1;
static Snap Init;

static void reset()
{
    if (!dirty)
        return;
    for (int *r : {&RA, &RB})
        if (*r >= 0)
            close(*r);
    for (const char *n : {"A", "B"}) {
        std::string p = W + "/" + n;
        scratch::wipe(p);
        mkdir(p.c_str(), 0755);
        mkdir((p + "/r").c_str(), 0755);
        int fd = open((p + "/r").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        must(fd >= 0, "root");
        mktree(fd);
        (n[0] == 'A' ? RA : RB) = fd;
    }
    Init = snap(RB);
    dirty = false;
}

struct Run {
    Guest g;
    std::map<uint32_t, HF> t;
    std::string hist;

    ~Run()
    {
        for (auto &k : t) {
            if (k.second.b >= 0)
                close(k.second.b);
            if (k.second.a >= 0)
                close(k.second.a);
        }
    }
    std::string fail(const std::string &d) { return "after " + hist + ": " + d; }

    std::string begin()
    {
        reset();
        std::string e = g.start(Env, Mod);
        if (!e.empty())
            return e;
        int r = wz_preopen(g.w, (W + "/A/r::/").c_str());
        if (r)
            return mc::fmt("preopen: %d", r);
        e = g.link();
        if (!e.empty())
            return e;
        HF h;
        h.a = dup(RA);
        h.b = dup(RB);
        h.dir = h.pre = true;
        t[3] = h;
        /* 4: directory d, 5: file f */
        Op o{path_open};
        o.p = "d";
        o.fl2 = O_W_DIRECTORY;
        o.a = R_READ;
        e = step(o);
        if (!e.empty())
            return e;
        o.p = "f";
        o.fl2 = 0;
        o.a = R_READ | R_WRITE;
        e = step(o);
        if (!e.empty())
            return e;
        if (!t.count(4) || !t.count(5))
            return "set-up could not open d and f";
        hist.clear();
        return "";
    }
    /* path refusal, then descriptor */
    bool pathprep(uint32_t d, const std::string &p, Exp &x, HF *&h)
    {
        h = nullptr;
        if (p.find('\0') != std::string::npos || (!p.empty() && p[0] == '/')) {
            x = Exp::ref();
            return false;
        }
        auto it = t.find(d);
        if (it == t.end()) {
            x = Exp::err(EBADF);
            return false;
        }
        if (!it->second.dir) {
            x = Exp::err(ENOTDIR);
            return false;
        }
        h = &it->second;
        return true;
    }
    std::string judge(const Op &o, const Res &r, const Exp &x)
    {
        X->add(r.err == 0 ? c_ok : c_err);
        if (r.rc != 0)
            return opstr(o) + ": " + r.str();
        if (x.refuse) {
            if (r.err == 0)
                return opstr(o) + " succeeds but has to be refused";
            return "";
        }
        if (!err_matches(r.err, x.he))
            return opstr(o) + mc::fmt(": errno %d, POSIX says %s", r.err, x.he ? strerror(x.he) : "success");
        return "";
    }
    std::string stat_cmp(const Op &o, const struct stat &st)
    {
        FileStat s = get_filestat(g, OUT, o.un);
        uint64_t type = S_ISREG(st.st_mode) ? FT_REG : S_ISDIR(st.st_mode) ? FT_DIR : S_ISLNK(st.st_mode) ? FT_LINK : S_ISCHR(st.st_mode) ? FT_CHAR : FT_UNKNOWN;
        auto ns = [](const struct timespec &t) { return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec; };
        if (s.dev != st.st_dev || s.ino != st.st_ino || s.type != type || s.nlink != st.st_nlink || s.size != (uint64_t)st.st_size || s.atim != ns(st.st_atim) || s.mtim != ns(st.st_mtim) || s.ctim != ns(st.st_ctim))
            return opstr(o) + mc::fmt(": reports ino %llu type %llu nlink %llu size %llu atim %llu mtim %llu ctim %llu; the file has ino %llu type %llu nlink %llu size %llu atim %llu mtim %llu ctim %llu",
                                      (unsigned long long)s.ino, (unsigned long long)s.type, (unsigned long long)s.nlink, (unsigned long long)s.size, (unsigned long long)s.atim, (unsigned long long)s.mtim, (unsigned long long)s.ctim,
                                      (unsigned long long)st.st_ino, (unsigned long long)type, (unsigned long long)st.st_nlink, (unsigned long long)st.st_size, (unsigned long long)ns(st.st_atim), (unsigned long long)ns(st.st_mtim), (unsigned long long)ns(st.st_ctim));
        return "";
    }
    static Exp times(const Op &o, struct timespec ts[2])
    {
        uint32_t fl = o.fl3;
        if (fl == (FST_ATIM_NOW | FST_MTIM_NOW)) {
            ts[0].tv_nsec = ts[1].tv_nsec = UTIME_NOW;
            ts[0].tv_sec = ts[1].tv_sec = 0;
        } else if (fl == (FST_ATIM | FST_MTIM)) {
            ts[0].tv_sec = (time_t)(o.a / 1000000000), ts[0].tv_nsec = (long)(o.a % 1000000000);
            ts[1].tv_sec = (time_t)(o.b / 1000000000), ts[1].tv_nsec = (long)(o.b % 1000000000);
        } else
            return Exp::ref();
        return Exp();
    }
    static int whence(const Op &o)
    {
        if (o.un)
            return o.fl == 0 ? SEEK_CUR : o.fl == 1 ? SEEK_END : o.fl == 2 ? SEEK_SET : -1;
        return o.fl == 0 ? SEEK_SET : o.fl == 1 ? SEEK_CUR : o.fl == 2 ? SEEK_END : -1;
    }
    void putpath(uint32_t at, const std::string &s) { g.put(at, s); }

    /* one operation on both sides */
    std::string step(const Op &o)
    {
        X->add(c_ops);
        hist += (hist.empty() ? "" : "; ") + opstr(o);
        if (o.f == X_SCAN)
            return scan(o);
        Exp x;
        HF *h = nullptr, *h2 = nullptr;
        auto fdl = [&](bool user) -> HF * {
            auto it = t.find(o.d);
            if (it == t.end() || (user && it->second.pre))
                return nullptr;
            return &it->second;
        };
        auto E = [](int r) { return r < 0 ? Exp::err(errno) : Exp(); };
        putpath(P1, o.p);
        putpath(P2, o.p2);
        Res r;
        std::string d;
        switch (o.f) {
        case path_open: {
            r = g.call(o.f, {o.d, o.fl, P1, o.p.size(), o.fl2, o.a, ~0ull, o.fl3, OUT}, o.un);
            int bf = -1;
            bool both = (o.fl2 & O_W_DIRECTORY) && (o.a & R_WRITE);
            if (pathprep(o.d, o.p, x, h)) {
                bool rd = o.a & R_READ, wr = o.a & R_WRITE;
                int hf = wr ? (rd ? O_RDWR : O_WRONLY) : O_RDONLY;
                if (o.fl2 & O_W_CREAT)
                    hf |= O_CREAT;
                if (o.fl2 & O_W_DIRECTORY)
                    hf |= O_DIRECTORY;
                if (o.fl2 & O_W_EXCL)
                    hf |= O_EXCL;
                if (o.fl2 & O_W_TRUNC)
                    hf |= O_TRUNC;
                if (o.fl3 & FD_APPEND)
                    hf |= O_APPEND;
                if (!(o.fl & LOOKUP_FOLLOW))
                    hf |= O_NOFOLLOW;
                if (both) {
                    /* never possible; which error comes first is left open */
                    x = Exp::ref();
                } else {
                    bf = openat(h->b, o.p.c_str(), hf | O_NONBLOCK | O_CLOEXEC, 0666);
                    x = E(bf);
                }
            } else if (both)
                x = Exp::ref();
            d = judge(o, r, x);
            if (!d.empty()) {
                if (bf >= 0)
                    close(bf);
                return fail(d);
            }
            if (r.err == 0) {
                uint32_t n = g.get32(OUT);
                uint32_t want = 3;
                while (t.count(want))
                    want++;
                if (n != want) {
                    close(bf);
                    return fail(opstr(o) + mc::fmt(" returns descriptor %u, the lowest free one is %u", n, want));
                }
                struct stat st;
                fstat(bf, &st);
                HF k;
                k.b = bf;
                k.dir = S_ISDIR(st.st_mode);
                k.nonblock = o.fl3 & FD_NONBLOCK;
                k.a = openat(h->a, o.p.c_str(), O_PATH | O_CLOEXEC | (o.fl & LOOKUP_FOLLOW ? 0 : O_NOFOLLOW));
                t[n] = k;
            }
            return "";
        }
        case path_create_directory:
            r = g.call(o.f, {o.d, P1, o.p.size()}, o.un);
            if (pathprep(o.d, o.p, x, h))
                x = E(mkdirat(h->b, o.p.c_str(), 0777));
            break;
        case path_remove_directory:
            r = g.call(o.f, {o.d, P1, o.p.size()}, o.un);
            if (pathprep(o.d, o.p, x, h))
                x = E(unlinkat(h->b, o.p.c_str(), AT_REMOVEDIR));
            break;
        case path_unlink_file:
            r = g.call(o.f, {o.d, P1, o.p.size()}, o.un);
            if (pathprep(o.d, o.p, x, h))
                x = E(unlinkat(h->b, o.p.c_str(), 0));
            break;
        case path_readlink: {
            char b[4096];
            ssize_t n = 0;
            g.fill(BUF, 0xa5, o.fl + 16);
            r = g.call(o.f, {o.d, P1, o.p.size(), BUF, o.fl, OUT}, o.un);
            if (pathprep(o.d, o.p, x, h)) {
                n = readlinkat(h->b, o.p.c_str(), b, o.fl);
                x = E((int)n);
            }
            d = judge(o, r, x);
            if (d.empty() && r.err == 0 && (g.get32(OUT) != (uint32_t)n || g.gets(BUF, (size_t)n) != std::string(b, (size_t)n)))
                d = opstr(o) + mc::fmt(" gives %u bytes %s, should be %zd bytes %s", g.get32(OUT), vis(g.gets(BUF, o.fl)).c_str(), n, vis(std::string(b, (size_t)n)).c_str());
            return d.empty() ? d : fail(d);
        }
        case path_symlink:
            /* p2: target */
            r = g.call(o.f, {P2, o.p2.size(), o.d, P1, o.p.size()}, o.un);
            if (o.p2.find('\0') != std::string::npos)
                x = Exp::ref();
            else if (pathprep(o.d, o.p, x, h))
                x = E(symlinkat(o.p2.c_str(), h->b, o.p.c_str()));
            break;
        case path_link:
            r = g.call(o.f, {o.d, o.fl, P1, o.p.size(), o.d2, P2, o.p2.size()}, o.un);
            if (!(o.fl & LOOKUP_FOLLOW))
                x = Exp::ref();
            else if (pathprep(o.d, o.p, x, h)) {
                if (pathprep(o.d2, o.p2, x, h2))
                    x = E(linkat(h->b, o.p.c_str(), h2->b, o.p2.c_str(), AT_SYMLINK_FOLLOW));
            } else if (Exp y; !pathprep(o.d2, o.p2, y, h2))
                x = Exp::ref(); /* both are bad: which one is reported is left open */
            break;
        case path_rename:
            r = g.call(o.f, {o.d, P1, o.p.size(), o.d2, P2, o.p2.size()}, o.un);
            if (pathprep(o.d, o.p, x, h)) {
                if (pathprep(o.d2, o.p2, x, h2))
                    x = E(renameat(h->b, o.p.c_str(), h2->b, o.p2.c_str()));
            } else if (Exp y; !pathprep(o.d2, o.p2, y, h2))
                x = Exp::ref();
            break;
        case path_filestat_get: {
            struct stat st;
            g.fill(OUT, 0xa5, 80);
            r = g.call(o.f, {o.d, o.fl, P1, o.p.size(), OUT}, o.un);
            int fl = o.fl & LOOKUP_FOLLOW ? 0 : AT_SYMLINK_NOFOLLOW;
            if (pathprep(o.d, o.p, x, h))
                x = E(fstatat(h->b, o.p.c_str(), &st, fl));
            d = judge(o, r, x);
            if (d.empty() && r.err == 0) {
                if (fstatat(h->a, o.p.c_str(), &st, fl) != 0)
                    d = opstr(o) + " succeeds but the file is gone";
                else
                    d = stat_cmp(o, st);
            }
            return d.empty() ? d : fail(d);
        }
        case path_filestat_set_times: {
            struct timespec ts[2];
            int fl = o.fl & LOOKUP_FOLLOW ? 0 : AT_SYMLINK_NOFOLLOW;
            r = g.call(o.f, {o.d, o.fl, P1, o.p.size(), o.a, o.b, o.fl3}, o.un);
            x = times(o, ts);
            if (!x.refuse && pathprep(o.d, o.p, x, h))
                x = E(utimensat(h->b, o.p.c_str(), ts, fl));
            d = judge(o, r, x);
            if (d.empty() && r.err == 0) {
                struct stat a, b;
                fstatat(h->a, o.p.c_str(), &a, fl);
                fstatat(h->b, o.p.c_str(), &b, fl);
                if (tclass(a.st_atim) != tclass(b.st_atim) || tclass(a.st_mtim) != tclass(b.st_mtim))
                    d = opstr(o) + " sets atime " + tclass(a.st_atim) + " mtime " + tclass(a.st_mtim) + ", should be " + tclass(b.st_atim) + " and " + tclass(b.st_mtim);
            }
            return d.empty() ? d : fail(d);
        }
        case fd_filestat_set_times: {
            struct timespec ts[2];
            r = g.call(o.f, {o.d, o.a, o.b, o.fl3}, o.un);
            x = times(o, ts);
            h = fdl(true);
            if (!x.refuse) {
                if (!h)
                    x = Exp::err(EBADF);
                else
                    x = E(futimens(h->b, ts));
            }
            d = judge(o, r, x);
            if (d.empty() && r.err == 0) {
                struct stat a, b;
                fstatat(h->a, "", &a, AT_EMPTY_PATH);
                fstat(h->b, &b);
                if (tclass(a.st_atim) != tclass(b.st_atim) || tclass(a.st_mtim) != tclass(b.st_mtim))
                    d = opstr(o) + " sets atime " + tclass(a.st_atim) + " mtime " + tclass(a.st_mtim) + ", should be " + tclass(b.st_atim) + " and " + tclass(b.st_mtim);
            }
            return d.empty() ? d : fail(d);
        }
        case fd_filestat_get: {
            struct stat st;
            g.fill(OUT, 0xa5, 80);
            r = g.call(o.f, {o.d, OUT}, o.un);
            h = fdl(true);
            x = h ? Exp() : Exp::err(EBADF);
            d = judge(o, r, x);
            if (d.empty() && r.err == 0) {
                if (fstatat(h->a, "", &st, AT_EMPTY_PATH) != 0)
                    abort();
                d = stat_cmp(o, st);
            }
            return d.empty() ? d : fail(d);
        }
        case fd_fdstat_get: {
            g.fill(OUT, 0xa5, 32);
            r = g.call(o.f, {o.d, OUT}, o.un);
            h = fdl(false);
            d = judge(o, r, h ? Exp() : Exp::err(EBADF));
            if (d.empty() && r.err == 0) {
                struct stat st;
                fstat(h->b, &st);
                unsigned type = S_ISREG(st.st_mode) ? FT_REG : S_ISDIR(st.st_mode) ? FT_DIR : S_ISCHR(st.st_mode) ? FT_CHAR : FT_UNKNOWN;
                unsigned fl = (fcntl(h->b, F_GETFL) & O_APPEND ? FD_APPEND : 0) | (h->nonblock ? FD_NONBLOCK : 0);
                unsigned gfl = g.get16(OUT + 2) & (FD_APPEND | FD_NONBLOCK);
                if (g.get8(OUT) != type || (!h->pre && gfl != fl))
                    d = opstr(o) + mc::fmt(": type %u flags %u, should be %u %u", g.get8(OUT), gfl, type, fl);
            }
            return d.empty() ? d : fail(d);
        }
        case fd_fdstat_set_flags:
            r = g.call(o.f, {o.d, o.fl}, o.un);
            h = fdl(true);
            if (o.fl & ~(uint32_t)FD_NONBLOCK)
                x = Exp::ref();
            else if (!h)
                x = Exp::err(EBADF);
            else
                h->nonblock = o.fl & FD_NONBLOCK;
            break;
        case fd_fdstat_set_rights:
            r = g.call(o.f, {o.d, o.a, o.b}, o.un);
            x = fdl(true) ? Exp() : Exp::err(EBADF);
            break;
        case fd_read: case fd_pread: case fd_write: case fd_pwrite: {
            bool wr = o.f == fd_write || o.f == fd_pwrite, po = o.f == fd_pread || o.f == fd_pwrite;
            std::vector<struct iovec> v;
            std::string mem(8192, (char)0xa5);
            uint32_t at = 0, k = 0;
            for (uint32_t n : o.iov) {
                g.put32(IOV + k * 8, BUF + at);
                g.put32(IOV + k * 8 + 4, n);
                v.push_back({&mem[at], n});
                for (uint32_t j = 0; wr && j < n; j++)
                    mem[at + j] = o.data[(at + j) % o.data.size()];
                at += n + 3;
                k++;
            }
            g.put(BUF, mem.data(), at + 16);
            g.put32(OUT, 0xdeadbeef);
            if (po)
                r = g.call(o.f, {o.d, IOV, o.iov.size(), o.a, OUT}, o.un);
            else
                r = g.call(o.f, {o.d, IOV, o.iov.size(), OUT}, o.un);
            h = fdl(true);
            ssize_t n = 0;
            if (!h)
                x = Exp::err(EBADF);
            else if (o.iov.empty()) {
                if (r.rc == 0 && (r.err == E_INVAL || (r.err == 0 && g.get32(OUT) == 0)))
                    return "";
                return fail(opstr(o) + ": " + r.str());
            } else {
                int c = (int)v.size();
                n = o.f == fd_read ? readv(h->b, v.data(), c) : o.f == fd_write ? writev(h->b, v.data(), c) : o.f == fd_pread ? preadv(h->b, v.data(), c, (off_t)o.a) : pwritev(h->b, v.data(), c, (off_t)o.a);
                x = E((int)n);
            }
            d = judge(o, r, x);
            if (d.empty() && r.err == 0) {
                if (g.get32(OUT) != (uint32_t)n)
                    d = opstr(o) + mc::fmt(" transfers %u bytes, should be %zd", g.get32(OUT), n);
                else if (g.gets(BUF, at + 16) != mem.substr(0, at + 16))
                    d = opstr(o) + " leaves " + vis(g.gets(BUF, at + 16)) + " in the buffers, should be " + vis(mem.substr(0, at + 16));
            }
            return d.empty() ? d : fail(d);
        }
        case fd_seek: case fd_tell: {
            g.put64(OUT, 0xdeadbeefdeadbeefull);
            if (o.f == fd_seek)
                r = g.call(o.f, {o.d, o.a, o.fl, OUT}, o.un);
            else
                r = g.call(o.f, {o.d, OUT}, o.un);
            h = fdl(true);
            off_t n = 0;
            if (!h)
                x = Exp::err(EBADF);
            else if (h->dir)
                x = Exp::ref();
            else if (o.f == fd_seek && whence(o) < 0)
                x = Exp::err(EINVAL);
            else {
                n = o.f == fd_seek ? lseek(h->b, (off_t)o.a, whence(o)) : lseek(h->b, 0, SEEK_CUR);
                x = E(n < 0 ? -1 : 0);
            }
            d = judge(o, r, x);
            if (d.empty() && r.err == 0 && g.get64(OUT) != (uint64_t)n)
                d = opstr(o) + mc::fmt(" gives %lld, should be %lld", (long long)g.get64(OUT), (long long)n);
            return d.empty() ? d : fail(d);
        }
        case fd_sync: case fd_datasync:
            r = g.call(o.f, {o.d}, o.un);
            h = fdl(true);
            x = !h ? Exp::err(EBADF) : E(o.f == fd_sync ? fsync(h->b) : fdatasync(h->b));
            break;
        case fd_advise:
            r = g.call(o.f, {o.d, o.a, o.b, o.fl}, o.un);
            x = fdl(true) ? Exp() : Exp::err(EBADF);
            break;
        case fd_allocate:
            r = g.call(o.f, {o.d, o.a, o.b}, o.un);
            h = fdl(true);
            x = !h ? Exp::err(EBADF) : Exp::err(posix_fallocate(h->b, (off_t)o.a, (off_t)o.b));
            break;
        case fd_filestat_set_size:
            r = g.call(o.f, {o.d, o.a}, o.un);
            h = fdl(true);
            x = !h ? Exp::err(EBADF) : E(ftruncate(h->b, (off_t)o.a));
            break;
        case fd_close:
            r = g.call(o.f, {o.d}, o.un);
            h = fdl(true);
            if (!h)
                x = Exp::err(EBADF);
            else {
                close(h->b);
                close(h->a);
                t.erase(o.d);
            }
            break;
        default:
            abort();
        }
        d = judge(o, r, x);
        return d.empty() ? d : fail(d);
    }

    struct Ent {
        uint64_t next, ino;
        uint32_t type;
        std::string name, raw;
    };
    static bool parse(const std::string &s, size_t &at, Ent &e)
    {
        if (s.size() - at < 24)
            return false;
        uint32_t nl;
        memcpy(&e.next, &s[at], 8);
        memcpy(&e.ino, &s[at + 8], 8);
        memcpy(&nl, &s[at + 16], 4);
        e.type = (uint8_t)s[at + 20];
        if (s.size() - at - 24 < nl)
            return false;
        e.name = s.substr(at + 24, nl);
        e.raw = s.substr(at, 24 + nl);
        at += 24 + nl;
        return true;
    }
    Res readdir1(uint32_t fd, uint64_t cookie, uint32_t len, std::string &out, bool un, std::string &d)
    {
        g.fill(DIRB, 0xa5, len + 32);
        g.put32(OUT, 0xdeadbeef);
        Res r = g.call(fd_readdir, {fd, DIRB, len, cookie, OUT}, un);
        if (r.ok()) {
            uint32_t n = g.get32(OUT);
            if (n > len)
                d = mc::fmt("fd_readdir with a buffer of %u claims %u bytes", len, n);
            else {
                out = g.gets(DIRB, n);
                if (g.gets(DIRB + len, 32) != std::string(32, (char)0xa5))
                    d = mc::fmt("fd_readdir with a buffer of %u writes past it", len);
            }
        }
        return r;
    }
    /* list a directory completely and compare with the host's listing */
    std::string scan(const Op &o, std::vector<Ent> *outv = nullptr)
    {
        std::string s, d;
        Exp x;
        auto it = t.find(o.d);
        if (it == t.end() || it->second.pre)
            x = Exp::err(EBADF);
        else if (!it->second.dir)
            x = Exp::err(ENOTDIR);
        std::vector<Ent> v;
        uint64_t cookie = 0;
        for (int round = 0;; round++) {
            Res r = readdir1(o.d, cookie, 2048, s, o.un, d);
            if (!d.empty())
                return fail(d);
            d = judge(o, r, x);
            if (!d.empty() || r.err != 0)
                return d.empty() ? d : fail(d);
            size_t at = 0, before = v.size();
            Ent e;
            while (parse(s, at, e))
                v.push_back(e), cookie = e.next;
            if (s.size() < 2048) {
                if (at != s.size())
                    return fail("fd_readdir ends with a partial entry in a buffer that is not full");
                break;
            }
            if (v.size() == before || round > 20)
                return fail("fd_readdir makes no progress");
        }
        std::map<std::string, std::pair<uint64_t, uint32_t>> host;
        int f = openat(it->second.a, ".", O_RDONLY | O_DIRECTORY | O_NOATIME);
        if (f < 0)
            return fail("directory vanished");
        DIR *dp = fdopendir(f);
        while (struct dirent *e = readdir(dp)) {
            uint32_t ty = e->d_type == DT_REG ? FT_REG : e->d_type == DT_DIR ? FT_DIR : e->d_type == DT_LNK ? FT_LINK : FT_UNKNOWN;
            host[e->d_name] = {e->d_ino, ty};
        }
        closedir(dp);
        std::set<std::string> seen;
        for (auto &e : v) {
            if (!seen.insert(e.name).second)
                return fail("fd_readdir lists " + vis(e.name) + " twice");
            auto hi = host.find(e.name);
            if (hi == host.end())
                return fail("fd_readdir lists " + vis(e.name) + " which does not exist");
            if (hi->second.first != e.ino || hi->second.second != e.type)
                return fail("fd_readdir: " + vis(e.name) + mc::fmt(" has inode %llu type %u, should be %llu %u", (unsigned long long)e.ino, e.type, (unsigned long long)hi->second.first, hi->second.second));
        }
        for (auto &k : host)
            if (!seen.count(k.first))
                return fail("fd_readdir does not list " + vis(k.first));
        if (outv)
            *outv = v;
        return "";
    }
    std::string finish()
    {
        Snap a = snap(RA), b = snap(RB);
        std::string d = snapdiff(a, b);
        uint64_t hh = 0;
        for (auto &k : b.e)
            hh = mc::fnv(k.first + k.second, hh + 1);
        X->outcome(hh);
        if (!d.empty() || !snapdiff(b, Init).empty())
            dirty = true;
        return d.empty() ? d : fail(d);
    }
};

typedef std::vector<Op> Script;
static std::vector<Script> Cases;

static std::vector<std::string> paths()
{
    return {"f", "e", "ro", "d", "d/x", "d/sub", "em", "s", "sd", "sd/x", "dang", "loop", "loop/x", "h", "p", "lk", "lk/x", "nosuch", "nosuch/y", "f/x", "f/", "d/", "n/", "s/", "sd/", "dang/", ".", "./f", "d//x", "d/../f", "d/.", "d/sub/..", std::string("f\0x", 3), std::string("f\0", 2), std::string("\0", 1), "/f", "//", W + "/A/r/f", std::string(255, 'l'), std::string(256, 'l'), std::string(2100, 'l'), std::string("d/") + std::string(4094, 'z')};
}
static Op mk(int f) { return Op{f}; }
static Op rw(int f, uint32_t fd, std::vector<uint32_t> iov, uint64_t off = 0, const std::string &data = "ABCDEFGHIJKLMNOP")
{
    Op o{f};
    o.d = fd;
    o.iov = iov;
    o.a = off;
    o.data = data;
    return o;
}
static Op op_open(uint32_t d, const std::string &p, uint32_t oflags, uint64_t rights, uint32_t fdflags = 0, uint32_t lookup = 0)
{
    Op o{path_open};
    o.d = d;
    o.p = p;
    o.fl = lookup;
    o.fl2 = oflags;
    o.fl3 = fdflags;
    o.a = rights;
    return o;
}
static Op simple(int f, uint32_t d, uint64_t a = 0, uint64_t b = 0, uint32_t fl = 0)
{
    Op o{f};
    o.d = d;
    o.a = a;
    o.b = b;
    o.fl = fl;
    return o;
}
static Op pop(int f, uint32_t d, const std::string &p, uint32_t fl = 0, uint32_t d2 = 3, const std::string &p2 = "")
{
    Op o{f};
    o.d = d;
    o.p = p;
    o.fl = fl;
    o.d2 = d2;
    o.p2 = p2;
    return o;
}
static void add_flags()
{
    auto P = paths();
    const uint64_t rights[] = {0, R_READ, R_WRITE, R_READ | R_WRITE};
    auto probe = [&](Script &s, bool fifo) {
        s.push_back(simple(fd_fdstat_get, 6));
        s.push_back(simple(fd_filestat_get, 6));
        if (!fifo) {
            s.push_back(rw(fd_write, 6, {2}));
            s.push_back(simple(fd_tell, 6));
            s.push_back(rw(fd_read, 6, {4}));
            s.push_back(rw(fd_pread, 6, {3, 6}, 0));
        }
        s.push_back(pop(path_filestat_get, 6, "x"));
    };
    for (auto &p : P)
        for (uint32_t of = 0; of < 16; of++)
            for (uint64_t r : rights)
                for (uint32_t ff : {0u, (uint32_t)FD_APPEND, (uint32_t)FD_NONBLOCK, (uint32_t)(FD_APPEND | FD_NONBLOCK)})
                    for (uint32_t lk = 0; lk < 2; lk++) {
                        Script s{op_open(3, p, of, r, ff, lk)};
                        probe(s, p == "p");
                        Cases.push_back(s);
                    }
    for (uint32_t d : {0u, 3u, 4u, 5u, 6u, 99u})
        for (const char *p : {"x", "sub", d == 4 ? "../f" : "f", "nosuch", "sub/..", ".", "s", "em"})
            for (uint32_t of : {0u, 1u, 2u, 5u, 8u})
                for (uint64_t r : rights)
                    for (uint32_t ff : {0u, 2u, 8u, 16u, 31u})
                        for (bool un : {false, true}) {
                            Script s{op_open(d, p, of, r, ff, 0)};
                            s[0].un = un;
                            probe(s, false);
                            Cases.push_back(s);
                        }
    P.push_back("k");
    P.push_back("d/k");
    for (uint32_t d : {3u, 4u, 5u, 0u, 99u})
        for (auto &p : P)
            for (bool un : {false, true}) {
                auto push = [&](Op o) {
                    o.un = un;
                    Cases.push_back({o});
                };
                push(pop(path_create_directory, d, p));
                push(pop(path_remove_directory, d, p));
                push(pop(path_unlink_file, d, p));
                for (uint32_t n : {0u, 1u, 3u, 6u, 64u})
                    push(pop(path_readlink, d, p, n));
                for (uint32_t fl = 0; fl < 2; fl++) {
                    push(pop(path_filestat_get, d, p, fl));
                    for (uint32_t fst = 0; fst < (d == 3 ? 17 : 4); fst++) {
                        static const uint32_t few[] = {5, 10, 0, 3};
                        for (int v = 0; v < 3; v++) {
                            Op o = pop(path_filestat_set_times, d, p, fl);
                            o.fl3 = d == 3 ? fst : few[fst];
                            o.a = SPECIAL[v == 0 ? 2 : v == 1 ? 0 : 4];
                            o.b = SPECIAL[v == 0 ? 3 : v == 1 ? 1 : 2];
                            push(o);
                        }
                    }
                }
                for (auto &tg : {std::string("f"), std::string("d/x"), std::string("/nosuch"), std::string("a\0b", 3), std::string("a\0", 2), std::string(300, 'q'), std::string("..")})
                    push(pop(path_symlink, d, p, 0, 3, tg));
            }
    /* two paths */
    for (auto &p : P)
        for (auto &q : P) {
            Cases.push_back({pop(path_rename, 3, p, 0, 3, q)});
            for (uint32_t fl = 0; fl < 2; fl++)
                Cases.push_back({pop(path_link, 3, p, fl, 3, q)});
        }
    for (uint32_t d1 : {3u, 4u, 5u, 0u, 99u})
        for (uint32_t d2 : {3u, 4u, 5u, 0u, 99u})
            for (const char *p : {"f", "x", "sub", "s", "em", "nosuch", "/f"})
                for (const char *q : {"f", "x", "sub", "s", "new", "nosuch/y", "/f"})
                    for (bool un : {false, true}) {
                        Op o = pop(path_rename, d1, p, 0, d2, q);
                        o.un = un;
                        Cases.push_back({o});
                        o.f = path_link;
                        o.fl = 1;
                        Cases.push_back({o});
                    }
}
static void add_fd()
{
    /* ways in which 6 is opened */
    std::vector<Op> opens = {op_open(3, "f", 0, R_READ | R_WRITE), op_open(3, "f", 0, R_READ), op_open(3, "f", 0, R_WRITE), op_open(3, "f", 0, R_READ | R_WRITE, FD_APPEND), op_open(3, "d", O_W_DIRECTORY, R_READ), op_open(3, "p", 0, R_READ), op_open(3, "e", 0, R_READ | R_WRITE), op_open(3, "nosuch", 0, R_READ)};
    std::vector<std::vector<uint32_t>> iovs{{}};
    const uint32_t L[] = {0, 1, 3, 5};
    for (uint32_t a : L) {
        iovs.push_back({a});
        for (uint32_t b : L) {
            iovs.push_back({a, b});
            for (uint32_t c : L)
                iovs.push_back({a, b, c});
        }
    }
    iovs.push_back({1000, 600});
    iovs.push_back(std::vector<uint32_t>(17, 2));
    const uint64_t offs[] = {0, 2, 6, 7, 8, 1000, 1ull << 40, 1ull << 63, ~0ull};
    auto push = [&](Script s) { Cases.push_back(s); };
    for (auto &op : opens)
        for (bool un : {false, true}) {
            for (auto &v : iovs) {
                for (uint64_t o : offs) {
                    Op r = rw(fd_pread, 6, v, o), w = rw(fd_pwrite, 6, v, o);
                    r.un = w.un = un;
                    push({op, r, simple(fd_tell, 6)});
                    push({op, w, simple(fd_tell, 6), simple(fd_filestat_get, 6), rw(fd_read, 6, {9})});
                    if (o > 8)
                        continue;
                    r.f = fd_read;
                    w.f = fd_write;
                    push({op, simple(fd_seek, 6, o), r, simple(fd_tell, 6), r});
                    push({op, simple(fd_seek, 6, o), w, simple(fd_tell, 6), w, simple(fd_seek, 6, 0), rw(fd_read, 6, {20})});
                }
            }
            for (uint32_t wh : {0u, 1u, 2u, 3u, 255u, 256u})
                for (uint64_t o : std::vector<uint64_t>{0, 1, ~0ull, 7, (uint64_t)-7ll, (uint64_t)-8ll, 1ull << 31, (uint64_t)-(1ll << 31), (1ull << 63) - 1, 1ull << 63})
                    for (uint64_t pos : {0ull, 3ull}) {
                        Op k = simple(fd_seek, 6, o, 0, wh);
                        k.un = un;
                        push({op, simple(fd_seek, 6, pos), k, simple(fd_tell, 6), rw(fd_read, 6, {3})});
                    }
            for (uint64_t z : {0ull, 3ull, 7ull, 8ull, 100ull, 1ull << 33, (1ull << 63) - 1, 1ull << 63, ~0ull}) {
                Op k = simple(fd_filestat_set_size, 6, z);
                k.un = un;
                push({op, simple(fd_seek, 6, 5), k, simple(fd_tell, 6), simple(fd_filestat_get, 6), rw(fd_write, 6, {2})});
                for (uint64_t a : {0ull, 2ull, 7ull, 1ull << 33, 1ull << 62, 1ull << 63}) {
                    uint64_t len = z;
                    if (len > 100 && len < (1ull << 60))
                        len = 1ull << 60;
                    Op q = simple(fd_allocate, 6, a, len);
                    q.un = un;
                    push({op, q, simple(fd_filestat_get, 6), rw(fd_pread, 6, {20}, 0)});
                }
            }
            for (uint32_t fl = 0; fl < 33; fl++) {
                Op k = simple(fd_fdstat_set_flags, 6, 0, 0, fl);
                k.un = un;
                push({op, k, simple(fd_fdstat_get, 6), simple(fd_seek, 6, 1), rw(fd_write, 6, {2})});
                for (int v = 0; v < 3; v++) {
                    Op q = simple(fd_filestat_set_times, 6, SPECIAL[v == 0 ? 2 : v == 1 ? 0 : 4], SPECIAL[v == 0 ? 3 : v == 1 ? 1 : 2]);
                    q.fl3 = fl;
                    q.un = un;
                    push({op, q, simple(fd_filestat_get, 6)});
                }
            }
            for (int f : {(int)fd_sync, (int)fd_datasync, (int)fd_fdstat_get, (int)fd_filestat_get, (int)fd_tell, (int)fd_fdstat_set_rights, (int)fd_close}) {
                Op k = simple(f, 6);
                k.un = un;
                push({op, k, simple(fd_fdstat_get, 6), simple(fd_fdstat_get, 5)});
            }
            for (uint32_t ad = 0; ad < 6; ad++) {
                Op k = simple(fd_advise, 6, 1, 3, ad);
                k.un = un;
                push({op, k, simple(fd_tell, 6), simple(fd_filestat_get, 6)});
            }
        }
    /* two descriptors of one file have their own offsets; append always goes to the end */
    std::vector<Op> io;
    for (uint32_t fd : {5u, 6u, 7u}) {
        io.push_back(rw(fd_write, fd, {2}));
        io.push_back(rw(fd_read, fd, {3}));
        io.push_back(simple(fd_seek, fd, 1));
        io.push_back(rw(fd_pwrite, fd, {1}, 4));
        io.push_back(simple(fd_filestat_set_size, fd, 3));
    }
    for (auto &a : io)
        for (auto &b : io)
            for (auto &c : io)
                push({op_open(3, "f", 0, R_READ | R_WRITE, FD_APPEND), op_open(3, "f", 0, R_READ), a, b, c});
}

static std::vector<Op> alphabet()
{
    return {
        op_open(3, "n", O_W_CREAT | O_W_EXCL, R_READ | R_WRITE),
        op_open(3, "f", O_W_TRUNC, R_READ | R_WRITE),
        op_open(3, "f", 0, R_WRITE, FD_APPEND),
        op_open(3, "s", 0, R_READ, 0, 1),
        op_open(3, "d/sub", O_W_DIRECTORY, R_READ),
        op_open(4, "x", O_W_CREAT, R_READ | R_WRITE, FD_APPEND),
        rw(fd_write, 5, {3}, 0, "abc"),
        rw(fd_write, 6, {1, 1}, 0, "XY"),
        rw(fd_read, 5, {4}),
        rw(fd_read, 6, {2, 2}),
        rw(fd_pwrite, 5, {1}, 10, "Q"),
        rw(fd_pread, 6, {5}, 1),
        simple(fd_seek, 5, (uint64_t)-2ll, 0, 2),
        simple(fd_seek, 6, 1, 0, 0),
        simple(fd_filestat_set_size, 5, 3),
        simple(fd_allocate, 5, 0, 20),
        pop(path_unlink_file, 3, "f"),
        pop(path_unlink_file, 4, "x"),
        pop(path_rename, 3, "f", 0, 3, "n"),
        pop(path_rename, 3, "n", 0, 4, "x"),
        pop(path_rename, 4, "x", 0, 3, "f"),
        pop(path_link, 3, "f", 1, 4, "l"),
        pop(path_symlink, 4, "s2", 0, 3, "x"),
        pop(path_readlink, 4, "s2", 9),
        pop(path_create_directory, 3, "d/m"),
        pop(path_create_directory, 6, "k"),
        pop(path_remove_directory, 4, "m"),
        pop(path_filestat_get, 3, "n"),
        pop(path_filestat_get, 4, "s2", 1),
        simple(fd_filestat_get, 5),
        simple(fd_filestat_get, 6),
        Op{X_SCAN, 4},
        Op{X_SCAN, 6},
        simple(fd_close, 6),
    };
}

static std::string dir_case(int which)
{
    Run r;
    std::string d = r.begin();
    if (!d.empty())
        return d;
    /* directories of different shapes: d, sub (empty), the root */
    uint32_t fd = 4;
    if (which == 1)
        d = r.step(op_open(3, "d/sub", O_W_DIRECTORY, R_READ)), fd = 6;
    if (which == 2)
        d = r.step(op_open(3, ".", O_W_DIRECTORY, R_READ)), fd = 6;
    if (which == 3)
        d = r.step(pop(path_create_directory, 4, std::string(200, 'w'))), d = r.step(pop(path_symlink, 4, "zz", 0, 3, "x"));
    if (!d.empty())
        return d;
    std::vector<Run::Ent> v;
    Op o{X_SCAN, fd};
    d = r.scan(o, &v);
    if (!d.empty())
        return d;
    std::vector<std::string> tail(v.size() + 1);
    for (size_t i = v.size(); i-- > 0;)
        tail[i] = v[i].raw + tail[i + 1];
    for (bool un : {false, true})
        for (uint32_t len = 0; len <= tail[0].size() + 24; len++)
            for (size_t i = 0; i <= v.size(); i++) {
                uint64_t c = i == 0 ? 0 : v[i - 1].next;
                std::string s;
                Res q = r.readdir1(fd, c, len, s, un, d);
                X->add(c_ops);
                if (!d.empty())
                    return d;
                if (!q.ok())
                    return mc::fmt("fd_readdir of %u bytes at entry %zu: %s", len, i, q.str().c_str());
                std::string want = tail[i].substr(0, len);
                /*
                 * what does not fit completely may be cut or left out, but a
                 * header that fits is there: it tells how much is needed
                 */
                size_t sure = 0;
                for (size_t j = i; j < v.size() && sure + 24 <= len; j++) {
                    if (sure + v[j].raw.size() > len) {
                        sure += 24;
                        break;
                    }
                    sure += v[j].raw.size();
                }
                bool same = s.size() == want.size();
                for (size_t j = 0; same && j < want.size(); j++)
                    same = s[j] == want[j] || (j >= sure && s[j] == (char)0xa5);
                if (!same)
                    return mc::fmt("fd_readdir of %u bytes at entry %zu of %zu gives %zu bytes, should be the first %zu bytes of the remaining entries", len, i, v.size(), s.size(), want.size());
            }
    /* a cookie that no entry can have */
    std::string s;
    Res q = r.readdir1(fd, ~0ull, 100, s, false, d);
    if (q.rc != 0)
        return "fd_readdir with an impossible cookie: " + q.str();
    return r.finish();
}

static std::vector<Op> Alpha;
static std::string run_script(const Script &s)
{
    Run r;
    std::string d = r.begin();
    if (d.empty())
        for (auto &o : s) {
            d = r.step(o);
            if (!d.empty())
                break;
        }
    if (!d.empty()) {
        dirty = true;
        return d;
    }
    return r.finish();
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "wasifs");
    X = &x;
    c_ops = x.counter("operations");
    c_ok = x.counter("successes");
    c_err = x.counter("errors");
    c_snap = x.counter("trees_compared");
    std::string part = x.opt.get("part", "flags");
    int depth = atoi(x.opt.get("depth", "3").c_str());
    scratch::Root root;
    uint64_t n;
    const uint64_t CH = 32;
    W = root.root + "/w0"; /* only lengths and numbers of paths matter here */
    if (part == "flags")
        add_flags();
    else if (part == "fd")
        add_fd();
    Alpha = alphabet();
    n = Cases.size();
    if (part == "seq") {
        n = 1;
        for (int i = 0; i < depth; i++)
            n *= Alpha.size();
    } else if (part == "dir")
        n = 4;
    x.worker_init.push_back([&](int w) {
        W = root.enter(w);
        for (auto &s : Cases)
            for (auto &o : s)
                for (std::string *p : {&o.p, &o.p2})
                    if (p->size() > 10 && p->compare(0, root.root.size(), root.root) == 0)
                        *p = W + "/A/r/f";
        signal(SIGPIPE, SIG_IGN);
        Env = tw_env_new();
        Mod = Guest::load(Env, Lim{1, true, 4});
        base_alloc = tw_env_allocated(Env);
    });
    auto one = [&](uint64_t k) {
        std::string d;
        if (part == "dir")
            d = dir_case((int)k);
        else if (part == "seq") {
            Script s;
            uint64_t v = k;
            for (int j = 0; j < depth; j++, v /= Alpha.size())
                s.push_back(Alpha[v % Alpha.size()]);
            d = run_script(s);
        } else
            d = run_script(Cases[k]);
        if (d.empty()) {
            size_t a = tw_env_allocated(Env);
            if (a != base_alloc)
                d = mc::fmt("case %llu leaves %zd bytes accounted", (unsigned long long)k, (ssize_t)(a - base_alloc));
        }
        if (!d.empty()) {
            x.fail("%s", d.c_str());
            return false;
        }
        return true;
    };
    x.run((n + CH - 1) / CH, [&](uint64_t i) {
        for (uint64_t k = i * CH; k < (i + 1) * CH && k < n; k++)
            if (!one(k))
                return;
    });
    x.sample(mc::fmt("part %s: %llu cases", part.c_str(), (unsigned long long)n));
    if (part == "seq")
        x.sample(mc::fmt("sequences of %d over %zu operations such as ", depth, Alpha.size()) + opstr(Alpha[1]) + ", " + opstr(Alpha[18]));
    else if (!Cases.empty())
        x.sample(opstr(Cases[Cases.size() / 3][0]));
    root.done();
    return x.finish();
}
