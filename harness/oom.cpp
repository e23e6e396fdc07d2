/*
 * Every allocation of a scenario refused in turn: alone, from then on, or
 * because a heap limit of the memory context (or of its parent) is reached.
 * A step that hits the refusal has to report it (or not to be affected), and
 * once memory is available again, the step repeated and the steps after it
 * have to give the results of an undisturbed run.  Whatever happens,
 * everything can be destroyed and nothing stays behind.
 */
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <set>
#include <sys/socket.h>
#include <sys/un.h>
#include "dyldc.h"
#include "oom/mods.h"
#include "scratch.hpp"
#include "wasi.hpp"
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(HAVE_ASAN)
#include <sanitizer/allocator_interface.h>
#endif

using namespace ws;
static mc::Explorer *X;
static int c_runs, c_points, c_reported, c_unaffected, c_limits;
static std::string Dir;

/* ---- refusing allocations ---- */
static struct {
    bool armed;
    long n;      /* allocations seen */
    long failat; /* 0: none */
    bool persist;
    long fired;
    struct World *w;
    std::set<size_t> *levels; /* accounted bytes at each allocation */
} J;
static void note_levels();
static bool refuse()
{
    if (!J.armed)
        return false;
    J.n++;
    if (J.levels) {
        J.armed = false;
        note_levels();
        J.armed = true;
    }
    if (J.failat && (J.n == J.failat || (J.persist && J.n > J.failat))) {
        J.fired++;
        errno = ENOMEM;
        return true;
    }
    return false;
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
FILE *__real_fopen(const char *, const char *);
DIR *__real_fdopendir(int);
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? nullptr : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return refuse() ? nullptr : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return refuse() ? nullptr : __real_strndup(s, n); }
FILE *__wrap_fopen(const char *a, const char *b) { return refuse() ? nullptr : __real_fopen(a, b); }
DIR *__wrap_fdopendir(int fd) { return refuse() ? nullptr : __real_fdopendir(fd); }
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **r, const char *f, va_list ap)
{
    return refuse() ? -1 : __real_vasprintf(r, f, ap);
}
int __wrap_asprintf(char **r, const char *f, ...)
{
    if (refuse())
        return -1;
    va_list ap;
    va_start(ap, f);
    int n = __real_vasprintf(r, f, ap);
    va_end(ap);
    return n;
}
}
struct Armed {
    bool was;
    Armed() : was(J.armed) { J.armed = true; }
    ~Armed() { J.armed = was; }
};
static bool wantarm; /* the present step may be refused memory */
struct Arm {
    Arm() { J.armed = wantarm; }
    ~Arm() { J.armed = false; }
};

/* ---- the world of a run ---- */
/* separate memory contexts for modules, instances, execution, import lists
 * and WASI, and their common parent */
enum { EM, EI0, EI1, EX, EP, EW, EPARENT, NENV };
static const char *const envname[] = {"modules", "first instance", "instances", "execution", "imports", "wasi", "parent"};
struct World {
    tw_env *e[NENV];
    tw_mod *m[10] = {};
    tw_inst *in[10] = {};
    tw_imports *im[4] = {};
    std::vector<tw_inst *> dead;
    wz *w = nullptr;
    dz *z = nullptr;
    bool zfailed = false;
    int fds[8];
    int nfds = 0;
    Guest g;
    World()
    {
        for (auto &i : e)
            i = tw_env_new();
        for (int i = 0; i < EPARENT; i++)
            tw_env_setparent(e[i], e[EPARENT]);
        dead.reserve(16);
    }
    /* returns what is wrong afterwards */
    std::string destroy()
    {
        {
            Arm a;
            if (z)
                dz_free(z);
            for (auto i : dead)
                tw_inst_destroy(i);
            for (auto &i : in)
                tw_inst_destroy(i);
            for (auto &i : im)
                tw_imports_free(i);
            if (w)
                wz_free(w);
            for (auto &i : m)
                tw_unload(i);
        }
        g.in = nullptr;
        for (int i = 0; i < nfds; i++)
            close(fds[i]);
        std::string d;
        for (int i = 0; i < NENV; i++)
            if (size_t l = tw_env_free(e[i]))
                d = mc::fmt("%zu bytes stay accounted to the context \"%s\" after everything was destroyed", l, envname[i]);
        return d;
    }
};
static void note_levels()
{
    for (int i = 0; i < NENV; i++)
        J.levels[i].insert(tw_env_allocated(J.w->e[i]));
}

struct Out {
    bool nomem = false;
    std::string v;
    bool soft = false; /* when memory was refused, the value may differ */
};
static Out R0(int err)
{
    Out o;
    if (err == ENOMEM)
        o.nomem = true;
    else
        o.v = mc::fmt("error %d", err);
    return o;
}
struct Step {
    std::string name;
    std::function<Out(World &)> f;
};
struct Scen {
    std::string name;
    std::vector<Step> steps;
    /* of an undisturbed run */
    std::vector<std::string> base;
    std::vector<long> upto; /* allocations seen after each step */
    long n = 0;
    std::set<size_t> levels[NENV];
    size_t peak[NENV] = {};
    size_t heap = 0;
    bool norepeat = false;
};
static std::vector<Scen> Sc;

/* ---- steps ---- */
static Step load(int i, const Bytes &b, unsigned opts = 0)
{
    return {mc::fmt("load %d", i), [=](World &w) {
                int err;
                char msg[100];
                Arm a;
                tw_mod *m = tw_load(w.e[EM], b.data(), b.size(), opts, &err, msg, sizeof(msg));
                J.armed = false;
                if (m && w.m[i])
                    tw_unload(m); /* cannot happen */
                else
                    w.m[i] = m;
                if (m)
                    tw_mod_envs(m, w.e[i ? EI1 : EI0], w.e[EX]);
                return R0(err);
            }};
}
/* a module that is refused, or accepted and dropped at once */
static Step tryload(const std::string &what, const Bytes &b, unsigned opts = 0)
{
    return {"load " + what, [=](World &w) {
                int err;
                char msg[100];
                Arm a;
                tw_mod *m = tw_load(w.e[EM], b.data(), b.size(), opts, &err, msg, sizeof(msg));
                tw_unload(m);
                J.armed = false;
                return R0(err);
            }};
}
static int hostlog(void *, struct exec_context *, const twv *, twv *)
{
    return 0;
}
static Step newimports(int i)
{
    return {"import list", [=](World &w) {
                w.im[i] = tw_imports_new(w.e[EP]);
                return R0(0);
            }};
}
static Step addhost(int i)
{
    return {"host function", [=](World &w) {
                Arm a;
                uint8_t p = T_I32;
                int e = tw_imports_add_host(w.im[i], "h", "log", &p, 1, nullptr, 0, hostlog, nullptr);
                J.armed = false;
                return R0(e);
            }};
}
static Step addexports(int i, int in, const char *n)
{
    return {"exports as imports", [=](World &w) {
                Arm a;
                int e = tw_imports_add_exports(w.im[i], w.in[in], n);
                J.armed = false;
                return R0(e);
            }};
}
static Step inst(int i, int im)
{
    return {mc::fmt("link %d", i), [=](World &w) {
                Arm a;
                int err;
                w.in[i] = tw_instantiate_noinit(w.m[i], im >= 0 ? w.im[im] : nullptr, &err);
                J.armed = false;
                return R0(err);
            }};
}
/* an instance whose initialisation failed is kept: others may refer to it */
static Step init(int i, int im)
{
    return {mc::fmt("initialise %d", i), [=](World &w) {
                int trap, err;
                if (!w.in[i]) {
                    w.in[i] = tw_instantiate_noinit(w.m[i], im >= 0 ? w.im[im] : nullptr, &err);
                    if (!w.in[i])
                        return R0(err);
                }
                Arm a;
                err = tw_inst_init(w.in[i], &trap);
                J.armed = false;
                if (err) {
                    w.dead.push_back(w.in[i]);
                    w.in[i] = nullptr;
                }
                Out o = R0(err);
                o.v += mc::fmt(" trap %s", tw_trap_name(trap));
                return o;
            }};
}
static Step oneshot(int i, int m)
{
    return {mc::fmt("create %d", i), [=](World &w) {
                Arm a;
                int err;
                w.in[i] = tw_instantiate_oneshot(w.m[m], nullptr, &err);
                J.armed = false;
                return R0(err);
            }};
}
static Step call(int i, const char *fn, std::vector<uint64_t> args, bool grows = false, int intr = 0, bool abandon = false)
{
    std::string n = fn;
    for (auto a : args)
        n += mc::fmt(" %llu", (unsigned long long)a);
    return {"call " + n, [=](World &w) {
                uint32_t fi;
                if (tw_find_export(w.in[i], fn, 0, &fi) != 0)
                    abort();
                twv a[8], r[4] = {};
                for (size_t k = 0; k < args.size(); k++)
                    a[k] = {args[k], 0};
                struct tw_exec x;
                memset(&x, 0, sizeof(x));
                x.max_frames = 400;
                if (intr) {
                    x.intr = 1;
                    x.check_interval = 1;
                    x.intr_delay = (unsigned)intr - 1;
                    x.intr_max = 20;
                    x.abandon = abandon;
                }
                int trap, e;
                {
                    Arm ar;
                    e = tw_call(w.in[i], fi, a, r, &x, &trap);
                }
                Out o = R0(e);
                if (grows && e == 0 && (uint32_t)r[0].lo == UINT32_MAX)
                    o.nomem = true;
                o.v += mc::fmt(" trap %s result %llx", tw_trap_name(trap), e == 0 ? (unsigned long long)r[0].lo : 0ull);
                return o;
            }};
}
static Step addshared(int i, int m)
{
    return {"shared memories", [=](World &w) {
                Arm a;
                int e = tw_imports_add_shared(w.im[i], w.e[EI1], w.m[m]);
                J.armed = false;
                return R0(e);
            }};
}
/* ---- dynamic linking ---- */
static Step dload(bool bindnow)
{
    return {"link dynamically", [=](World &w) {
                if (w.z)
                    dz_free(w.z);
                static std::string path;
                static const char *pp;
                path = Dir + "/t";
                pp = path.c_str();
                struct dz_opts o = {};
                o.paths = &pp;
                o.npaths = 1;
                o.stack_size = 4096;
                o.bindnow = bindnow;
                o.dlfcn = 1;
                w.z = dz_new(w.e[EX], nullptr, &o);
                std::string f = path + "/m";
                int e;
                {
                    Arm a;
                    e = dz_load(w.z, f.c_str());
                }
                if (e) {
                    dz_free(w.z);
                    w.z = nullptr;
                }
                return R0(e);
            }};
}
/* initialisers cannot be run again: that takes a new start */
static Step dinit(bool bindnow)
{
    return {"run initialisers", [=](World &w) {
                if (w.zfailed) {
                    w.zfailed = false;
                    dload(bindnow).f(w);
                    if (!w.z)
                        abort();
                }
                Arm a;
                int e = dz_init(w.z);
                J.armed = false;
                w.zfailed = e != 0;
                return R0(e);
            }};
}
static Step dcall(const char *fn)
{
    return {std::string("call ") + fn, [=](World &w) {
                uint32_t fi;
                if (tw_find_export(dz_main(w.z), fn, 0, &fi) != 0)
                    abort();
                twv a[1], r[1] = {};
                int trap, e;
                {
                    Arm ar;
                    e = tw_call(dz_main(w.z), fi, a, r, nullptr, &trap);
                }
                Out o = R0(e);
                if (e == 0 && !strcmp(fn, "open") && r[0].lo)
                    o.nomem = true; /* it has only one error code */
                o.v += mc::fmt(" trap %s result %llx", tw_trap_name(trap), e == 0 ? (unsigned long long)r[0].lo : 0ull);
                return o;
            }};
}

static Step names(int m)
{
    return {"names", [=](World &w) {
                Arm a;
                struct tw_names *n = tw_names_begin();
                std::string v;
                for (int k = 0; k < 4; k++)
                    for (uint32_t i = 0; i < 6; i++) {
                        uint32_t len;
                        const char *s = tw_name(n, w.m[m], k, i, &len);
                        v += std::string(s, len) + " ";
                    }
                tw_names_end(n);
                J.armed = false;
                Out o;
                o.v = v;
                o.soft = true;
                return o;
            }};
}
static std::string slurp(const std::string &p)
{
    std::string s;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0)
        return "-";
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof(b))) > 0)
        s.append(b, (size_t)n);
    close(fd);
    return s;
}
static uint64_t hash(const std::string &s)
{
    uint64_t h = 14695981039346656037ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
static Step writer(int m)
{
    return {"write module", [=](World &w) {
                std::string f = Dir + "/out.wasm";
                int e;
                {
                    Arm a;
                    e = tw_module_write(w.m[m], f.c_str());
                }
                Out o = R0(e);
                if (e == 0)
                    o.v += mc::fmt(" %llx", (unsigned long long)hash(slurp(f)));
                unlink(f.c_str());
                return o;
            }};
}

/* ---- WASI ---- */
static Step wnew()
{
    return {"wasi instance", [=](World &w) {
                Arm a;
                int err;
                w.w = wz_new(w.e[EW], &err);
                J.armed = false;
                if (w.w) {
                    static const char *const av[] = {"prog", "arg1", "arg 2"};
                    static const char *const ev[] = {"A=1", "LONGER=value"};
                    wz_args(w.w, 3, av);
                    wz_environ(w.w, 2, ev);
                }
                return R0(err);
            }};
}
static Step wpre(const char *suffix)
{
    return {std::string("preopen ") + suffix, [=](World &w) {
                std::string s = Dir + suffix;
                Arm a;
                int e = wz_preopen(w.w, s.c_str());
                J.armed = false;
                return R0(e);
            }};
}
static Step wstdio()
{
    return {"stdio", [=](World &w) {
                Arm a;
                int e = wz_stdio(w.w);
                J.armed = false;
                return R0(e);
            }};
}
/* kind 0: listening socket with pending connections, 1: one end of a pair */
static Step waddfd(int wasifd, int kind)
{
    return {mc::fmt("add host descriptor as %d", wasifd), [=](World &w) {
                int sv[2];
                bool bound = kind == 0;
                if (bound) {
                    struct sockaddr_un a;
                    memset(&a, 0, sizeof(a));
                    a.sun_family = AF_UNIX;
                    std::string p = Dir + "/sock";
                    unlink(p.c_str());
                    snprintf(a.sun_path, sizeof(a.sun_path), "%s", p.c_str());
                    sv[0] = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
                    if (bind(sv[0], (struct sockaddr *)&a, sizeof(a)) || listen(sv[0], 4))
                        abort();
                    for (int i = 0; i < 3; i++) {
                        int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
                        if (connect(c, (struct sockaddr *)&a, sizeof(a)))
                            abort();
                        w.fds[w.nfds++] = c;
                    }
                    unlink(p.c_str());
                } else {
                    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
                        abort();
                    if (write(sv[1], "abcdefgh", 8) != 8)
                        abort();
                    w.fds[w.nfds++] = sv[1];
                }
                int e;
                {
                    Arm a;
                    e = wz_addfd(w.w, (uint32_t)wasifd, sv[0]);
                }
                if (e) { /* still ours; everything is made anew next time */
                    close(sv[0]);
                    for (int i = 0; i < (bound ? 3 : 1); i++)
                        close(w.fds[--w.nfds]);
                } else
                    w.fds[w.nfds++] = sv[0];
                return R0(e);
            }};
}
static Step wimports(int i)
{
    return {"wasi imports", [=](World &w) {
                Arm a;
                int e = wz_imports(w.w, w.im[i]);
                J.armed = false;
                return R0(e);
            }};
}
static Step wmem(int i)
{
    return {"wasi memory", [=](World &w) {
                wz_memory(w.w, w.in[i], 0);
                w.g.in = w.in[i];
                /* have the host memory of the pages used below allocated */
                Arm a;
                int e = tw_mem_write(w.in[i], 0, 16384, "", 1);
                J.armed = false;
                return R0(e ? ENOMEM : 0);
            }};
}
/* scratch layout of the guest: strings at 1024.., results at 4096..8192 */
static Step wcall(int fn, std::vector<uint64_t> args, std::function<void(Guest &)> prep = nullptr, bool novalue = false,
                  bool unstable = false)
{
    std::string n = fn_name[fn];
    for (auto a : args)
        n += mc::fmt(" %llu", (unsigned long long)a);
    return {n, [=](World &w) {
                w.g.fill(1024, 0, 7168);
                if (prep)
                    prep(w.g);
                Res r;
                {
                    /* build the argument vector before arming */
                    std::vector<uint64_t> av = args;
                    Arm a;
                    r = w.g.callv(fn, av, unstable);
                }
                Out o;
                if (r.rc == ENOMEM || (r.rc == 0 && r.err == E_NOMEM))
                    o.nomem = true;
                o.v = r.str();
                if (!novalue && r.rc == 0)
                    o.v += mc::fmt(" out %llx", (unsigned long long)hash(w.g.gets(4096, 4096)));
                return o;
            }};
}
static void strs(Guest &g, const char *a, const char *b = "")
{
    g.put(1024, a);
    g.put(1280, b);
}
static std::function<void(Guest &)> S(const char *a, const char *b = "")
{
    return [=](Guest &g) { strs(g, a, b); };
}
static std::function<void(Guest &)> IOV(int n)
{
    return [=](Guest &g) {
        for (int i = 0; i < n; i++) {
            g.put32(2048 + 8 * (uint32_t)i, 5000 + 16 * (uint32_t)i);
            g.put32(2052 + 8 * (uint32_t)i, 3);
            g.put(5000 + 16 * (uint32_t)i, "xyz");
        }
    };
}

static Bytes tobytes(const unsigned char *p, size_t n)
{
    return Bytes(p, p + n);
}
#define MODB(x) tobytes(x, sizeof(x))

/* exceptions with parameters, caught in the same and in an outer frame, and rethrown */
static Bytes eh_module()
{
    Module m;
    uint32_t tt = m.type({{T_I64, T_I32}, {}});
    m.tags.push_back(tt);
    Bytes b;
    u8(b, 0x42), sleb(b, 7);
    lget(b, 0);
    u8(b, 0x08), uleb(b, 0);
    uint32_t thrower = m.func({{T_I32}, {}}, b);
    /* catch: result i32 */
    auto catcher = [&](uint8_t kind) {
        Bytes c;
        uint32_t bt = m.type(kind == 0 ? FT{{}, {T_I64, T_I32}} : FT{{}, {T_EXNREF}});
        u8(c, 0x02), sleb(c, (int64_t)bt); /* block */
        u8(c, 0x1f), u8(c, 0x40);          /* try_table, no results */
        uleb(c, 1);
        u8(c, kind == 0 ? 0 : 3);
        if (kind == 0)
            uleb(c, 0);
        uleb(c, 0);
        lget(c, 0);
        u8(c, 0x10), uleb(c, thrower);
        u8(c, 0x0b);
        u8(c, 0x00); /* unreachable */
        u8(c, 0x0b);
        return c;
    };
    Bytes c1 = catcher(0);
    u8(c1, 0x1a); /* drop i32 */
    u8(c1, 0xa7); /* wrap */
    uint32_t f1 = m.func({{T_I32}, {T_I32}}, c1);
    Bytes c2 = catcher(1);
    u8(c2, 0x0a); /* throw_ref */
    uint32_t f2 = m.func({{T_I32}, {T_I32}}, c2);
    Bytes c3;
    uint32_t bt = m.type({{}, {T_I64, T_I32}});
    u8(c3, 0x02), sleb(c3, (int64_t)bt);
    u8(c3, 0x1f), u8(c3, 0x40);
    uleb(c3, 1), u8(c3, 0), uleb(c3, 0), uleb(c3, 0);
    lget(c3, 0);
    u8(c3, 0x10), uleb(c3, f2);
    u8(c3, 0x1a);
    u8(c3, 0x0b);
    u8(c3, 0x00);
    u8(c3, 0x0b);
    u8(c3, 0x1a), u8(c3, 0xa7);
    uint32_t f3 = m.func({{T_I32}, {T_I32}}, c3);
    m.exp("throw", 0, thrower);
    m.exp("catch", 0, f1);
    m.exp("rethrow", 0, f2);
    m.exp("outer", 0, f3);
    m.exp("tag", 4, 0);
    return m.encode();
}

static void build(bool thorough)
{
    Bytes A = MODB(oom_a), B = MODB(oom_b), C = MODB(oom_c), E = eh_module();
    Bytes G = guest_module({1, true, 4}).encode();
    {
        Scen s;
        s.name = "load";
        s.steps = {load(0, A), load(1, B), load(2, C), load(3, E), load(4, B, TWL_NO_JUMP_TABLE | TWL_NO_RT_CELLIDX | TWL_NO_LT_CELLIDX), names(1)};
        Sc.push_back(s);
        s.name = "load guest";
        s.steps = {load(0, G)};
        Sc.push_back(s);
    }
    /* truncated and damaged modules */
    for (size_t part = 0; part < 8; part++) {
        Scen s;
        s.name = mc::fmt("damaged %zu", part);
        size_t st = thorough ? 1 : 3;
        for (size_t n = 8 + part; n < B.size(); n += 8 * st) {
            Bytes t(B.begin(), B.begin() + (long)n);
            s.steps.push_back(tryload(mc::fmt("first %zu bytes", n), t));
            t = B;
            t[n] ^= 0x15;
            s.steps.push_back(tryload(mc::fmt("byte %zu changed", n), t));
        }
        Sc.push_back(s);
    }
    std::vector<Step> linked = {load(0, A), load(1, B), inst(0, -1), init(0, -1), newimports(0), addhost(0), addexports(0, 0, "a"), inst(1, 0), init(1, 0)};
    {
        Scen s;
        s.name = "link";
        s.steps = linked;
        s.steps.push_back(newimports(1));
        s.steps.push_back(addexports(1, 1, "b"));
        s.steps.push_back(load(2, C));
        s.steps.push_back(oneshot(2, 2));
        s.steps.push_back(writer(1));
        s.steps.push_back(writer(2));
        s.steps.push_back(load(3, E));
        s.steps.push_back(writer(3));
        /* unresolvable imports */
        s.steps.push_back(load(4, B));
        s.steps.push_back(inst(4, 1));
        s.steps.push_back(inst(4, -1));
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "execute";
        s.steps = linked;
        for (Step t : {call(1, "rec", {3}), call(1, "rec", {200}), call(1, "sum", {30}), call(1, "multi", {1, 2}), call(1, "deep", {0}),
                       call(1, "deep", {1}), call(1, "growmem", {1}, true), call(1, "growmem", {9}, true), call(1, "growtab", {3}, true),
                       call(1, "growtab", {100}, true), call(1, "ind", {0}), call(1, "ind", {3}), call(1, "ind", {9}), call(1, "ind", {5}), call(1, "store", {70000}),
                       call(1, "store", {200000}), call(1, "bulk", {}), call(1, "trap", {}), call(1, "div", {0}), call(1, "host", {4}), call(1, "startf", {}),
                       call(1, "rec", {40}, false, 1), call(1, "rec", {40}, false, 7), call(1, "rec", {40}, false, 9, true), call(1, "rec", {500})})
            s.steps.push_back(t);
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "execute more";
        s.steps = {load(2, C), oneshot(2, 2), load(3, E), inst(3, -1), init(3, -1)};
        for (Step t : {call(2, "wait", {0}), call(2, "wait", {1000}), call(2, "notify", {}), call(2, "grow", {1}, true), call(2, "grow", {7}, true), call(2, "tail", {50}),
                       call(2, "simd", {5}), call(2, "manylocals", {6}), call(3, "throw", {5}), call(3, "catch", {5}), call(3, "rethrow", {5}), call(3, "outer", {5})})
            s.steps.push_back(t);
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "shared imports";
        s.steps = {load(0, MODB(oom_d)), newimports(0), addshared(0, 0), inst(0, 0), init(0, 0), call(0, "grow", {1}, true), call(0, "grow", {9}, true), call(0, "store", {70000})};
        Sc.push_back(s);
        s.name = "dynamic linking";
        s.steps = {dload(false), dinit(false), dcall("direct"), dcall("indirect"), dcall("data"), dcall("missing"), dcall("direct")};
        Sc.push_back(s);
        s.name = "dynamic linking, bound early";
        s.steps = {dload(true), dinit(true), dcall("direct"), dcall("indirect"), dcall("data"), dcall("missing")};
        Sc.push_back(s);
        s.name = "dynamic loading";
        s.steps = {dload(false), dinit(false), dcall("open"), dcall("sym")};
        s.norepeat = true;
        Sc.push_back(s);
    }
    std::vector<Step> wl = {load(0, G), wnew(), wpre("/t"), newimports(0), wimports(0), inst(0, 0), init(0, 0), wmem(0)};
    {
        Scen s;
        s.name = "wasi setup";
        s.steps = {wnew(), wpre("/t"), wpre("/t/d::guestname"), waddfd(7, 1), waddfd(9, 0), newimports(0), wimports(0), load(0, G), inst(0, 0), init(0, 0), wmem(0)};
        s.steps.push_back(wcall(fd_prestat_get, {4, 4096}));
        s.steps.push_back(wcall(fd_prestat_dir_name, {4, 4096, 9}));
        s.steps.push_back(wcall(fd_read, {7, 2048, 1, 4096}, IOV(1)));
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "wasi stdio";
        s.steps = {wnew(), wstdio()};
        s.norepeat = true; /* the descriptors added so far stay */
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "wasi files";
        s.steps = wl;
        auto rd = [](int fd) { return wcall(fd_pread, {(uint64_t)fd, 2048, 2, 0, 4096}, IOV(2)); };
        for (Step t : {
                 wcall(path_open, {3, 1, 1024, 1, 0, 66, 0, 0, 4096}, S("a")),
                 rd(4),
                 wcall(path_open, {3, 1, 1024, 1, O_W_DIRECTORY, 2, 0, 0, 4096}, S("d")),
                 wcall(fd_readdir, {5, 6000, 200, 0, 4096}, nullptr, true),
                 wcall(fd_readdir, {5, 6000, 200, 0, 4096}, nullptr, true),
                 wcall(path_open, {3, 1, 1024, 3, O_W_CREAT, 66, 0, 0, 4096}, S("new")),
                 wcall(path_open, {3, 1, 1024, 4, 0, 66, 0, 0, 4096}, S("nope")),
                 wcall(path_open, {5, 1, 1024, 6, 0, 2, 0, 0, 4096}, S("entry1")),
                 wcall(fd_write, {6, 2048, 3, 4096}, IOV(3)),
                 wcall(fd_pwrite, {6, 2048, 2, 4, 4096}, IOV(2)),
                 rd(6),
                 wcall(fd_fdstat_get, {6, 4096}),
                 wcall(fd_filestat_get, {6, 4096}, nullptr, true),
                 wcall(fd_tell, {6, 4096}),
                 wcall(fd_renumber, {4, 20}),
                 rd(20),
                 wcall(fd_renumber, {20, 4}),
                 wcall(fd_close, {4}),
                 wcall(fd_close, {4}),
                 wcall(path_create_directory, {3, 1024, 2}, S("nd")),
                 wcall(path_filestat_get, {3, 1, 1024, 1, 4096}, S("a"), true),
                 wcall(path_filestat_set_times, {3, 1, 1024, 1, 5, 6, FST_ATIM | FST_MTIM}, S("a")),
                 wcall(path_symlink, {1024, 1, 3, 1280, 2}, S("a", "sl")),
                 wcall(path_readlink, {3, 1280, 2, 5000, 10, 4096}, S("", "sl")),
                 wcall(path_link, {3, 0, 1024, 1, 3, 1280, 2}, S("a", "hl")),
                 wcall(path_rename, {3, 1024, 2, 3, 1280, 2}, S("hl", "h2")),
                 wcall(path_unlink_file, {3, 1024, 2}, S("h2")),
                 wcall(path_unlink_file, {3, 1024, 2}, S("sl")),
                 wcall(path_remove_directory, {3, 1024, 2}, S("nd")),
                 wcall(path_unlink_file, {3, 1024, 3}, S("new")),
                 wcall(path_open, {3, 1, 1024, 4, 0, 2, 0, 0, 4096}, S("nope"), false, true),
             })
            s.steps.push_back(t);
        Sc.push_back(s);
    }
    {
        Scen s;
        s.name = "wasi other";
        s.steps = {load(0, G), wnew(), wpre("/t"), waddfd(7, 1), waddfd(9, 0), newimports(0), wimports(0), inst(0, 0), init(0, 0), wmem(0)};
        auto sub = [](Guest &g) {
            g.put64(2048, 11); /* clock, relative, 0 */
            g.put(2056, std::string(1, 0));
            g.put32(2064, 1);
            g.put64(2096, 12); /* fd_read */
            g.put(2104, std::string(1, 1));
            g.put32(2112, 7);
        };
        for (Step t : {
                 wcall(args_sizes_get, {4096, 4100}),
                 wcall(args_get, {4096, 4160}),
                 wcall(environ_sizes_get, {4096, 4100}),
                 wcall(environ_get, {4096, 4160}),
                 wcall(clock_res_get, {0, 4096}, nullptr, true),
                 wcall(clock_time_get, {1, 0, 4096}, nullptr, true),
                 wcall(random_get, {4096, 8}, nullptr, true),
                 wcall(ws::sched_yield, {}),
                 wcall(poll_oneoff, {2048, 4200, 2, 4096}, sub, true),
                 wcall(fd_fdstat_get, {7, 4096}),
                 wcall(sock_recv, {7, 2048, 1, 0, 4096, 4104}, IOV(1)),
                 wcall(sock_send, {7, 2048, 2, 0, 4096}, IOV(2)),
                 wcall(sock_accept, {9, 0, 4096}),
                 wcall(fd_fdstat_get, {4, 4096}),
                 wcall(fd_close, {4}),
                 wcall(sock_accept, {9, 0, 4096}, nullptr, false, true),
                 wcall(sock_shutdown, {7, 3}),
                 wcall(proc_exit, {3}),
             })
            s.steps.push_back(t);
        Sc.push_back(s);
    }
}

/* ---- running ---- */
static void where(const std::string &s)
{
    /* left in the captured stderr if the process dies */
    if (X->opt.only < 0 && ftruncate(2, 0) == 0)
        lseek(2, 0, SEEK_SET);
    dprintf(2, "%s\n", s.c_str());
}
static int nopenfds()
{
    int n = 0;
    for (int i = 0; i < 128; i++)
        if (fcntl(i, F_GETFD) >= 0)
            n++;
    return n;
}
static size_t heap_now()
{
#if defined(HAVE_ASAN)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static void reset_tree()
{
    for (const char *f : {"/t/new", "/t/hl", "/t/h2", "/t/sl", "/out.wasm"})
        unlink((Dir + f).c_str());
    rmdir((Dir + "/t/nd").c_str());
}
enum Mode { SINGLE, PERSIST, LIMIT, NMODE = LIMIT + NENV };
static std::string modename(int m)
{
    return m == SINGLE ? "refused once" : m == PERSIST ? "refused from" : std::string("heap limit (") + envname[m - LIMIT] + ")";
}

static void baseline(Scen &s)
{
    for (int round = 0; round < 2; round++) {
        size_t h0 = heap_now();
        {
            World w;
            J = {};
            s.base.clear();
            s.upto.clear();
            for (auto &l : s.levels)
                l.clear();
            J.w = &w;
            J.levels = s.levels;
            for (auto &st : s.steps) {
                wantarm = true;
                Out o = st.f(w);
                if (o.nomem && o.v.find("result ffffffff") == std::string::npos) {
                    fprintf(stderr, "%s: %s: out of memory without refusal\n", s.name.c_str(), st.name.c_str());
                    abort();
                }
                if (X->opt.only >= 0 && round == 0)
                    fprintf(stderr, "%s: %s: %s (%ld allocations)\n", s.name.c_str(), st.name.c_str(), o.v.c_str(), J.n);
                s.base.push_back(o.v);
                s.upto.push_back(J.n);
            }
            s.n = J.n;
            for (int i = 0; i < NENV; i++)
                s.peak[i] = tw_env_peak(w.e[i]);
            wantarm = false;
            J.levels = nullptr;
            std::string d = w.destroy();
            if (!d.empty()) {
                X->fail("%s undisturbed: %s", s.name.c_str(), d.c_str());
            }
            reset_tree();
        }
        s.heap = heap_now() - h0;
    }
}

/* one disturbed run; returns what is wrong */
static std::string disturbed(Scen &s, int mode, uint64_t at)
{
    std::string bad;
    World w;
    J = {};
    tw_env *lim = mode >= LIMIT ? w.e[mode - LIMIT] : nullptr;
    if (mode == SINGLE || mode == PERSIST) {
        J.failat = (long)at;
        J.persist = mode == PERSIST;
    } else
        tw_env_setlimit(lim, at);
    bool over = false; /* memory is available again */
    bool stopped = false;
    wantarm = true;
    for (size_t i = 0; i < s.steps.size() && !stopped; i++) {
        auto &st = s.steps[i];
        long f0 = J.fired;
        Out o = st.f(w);
        bool same = o.v == s.base[i] && !(o.nomem && s.base[i].find("result ffffffff") == std::string::npos);
        bool hit = J.fired > f0 || (lim && !over);
        if (lim && !over && tw_env_peak(lim) > at) {
            bad = mc::fmt("%s: %zu bytes accounted with the limit %zu", st.name.c_str(), tw_env_peak(lim), (size_t)at);
            break;
        }
        if (!hit && !same) {
            bad = mc::fmt("%s gives \"%s\"%s, \"%s\" undisturbed", st.name.c_str(), o.v.c_str(), o.nomem ? " (out of memory)" : "", s.base[i].c_str());
            break;
        }
        if (!hit || (same && !o.nomem)) {
            if (J.fired > f0)
                X->add(c_unaffected);
            continue;
        }
        if (same && !lim)
            continue;
        if (!o.nomem && !(o.soft && hit)) {
            bad = mc::fmt("%s fails with \"%s\" instead of reporting the lack of memory (undisturbed: \"%s\")", st.name.c_str(), o.v.c_str(), s.base[i].c_str());
            break;
        }
        if (o.soft)
            continue;
        if (lim && at >= s.peak[mode - LIMIT] && !same) {
            bad = mc::fmt("%s is refused memory with the limit %zu, though %zu bytes suffice", st.name.c_str(), (size_t)at, s.peak[mode - LIMIT]);
            break;
        }
        if (same && lim) /* growth refused anyway */
            continue;
        X->add(c_reported);
        if (mode == PERSIST || s.norepeat) {
            stopped = true;
            break;
        }
        if (lim) {
            over = true;
            if (tw_env_setlimit(lim, SIZE_MAX) != 0)
                bad = "cannot raise the limit";
        }
        wantarm = false;
        o = st.f(w);
        wantarm = true;
        if (bad.empty() && o.v != s.base[i])
            bad = mc::fmt("%s, repeated with memory available, gives \"%s\", \"%s\" undisturbed", st.name.c_str(), o.v.c_str(), s.base[i].c_str());
        if (!bad.empty())
            break;
    }
    wantarm = mode == PERSIST;
    if (lim && !over && bad.empty())
        tw_env_setlimit(lim, tw_env_allocated(lim));
    std::string d = w.destroy();
    if (bad.empty())
        bad = d;
    wantarm = false;
    J = {};
    reset_tree();
    return bad;
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "oom");
    X = &x;
    c_runs = x.counter("disturbed runs");
    c_points = x.counter("allocation points");
    c_limits = x.counter("heap limits");
    c_reported = x.counter("steps that reported the lack of memory");
    c_unaffected = x.counter("steps not affected by a refusal");
    signal(SIGPIPE, SIG_IGN);
    scratch::Root root;
    build(x.opt.thorough());
    const unsigned CH = 16;
    std::string only = x.opt.get("scen", "");
    x.worker_init.push_back([&](int w) {
        Dir = root.enter(w);
        mkdir((Dir + "/t").c_str(), 0700);
        mkdir((Dir + "/t/d").c_str(), 0700);
        for (const char *f : {"/t/a", "/t/b", "/t/d/entry1", "/t/d/entry2"}) {
            int fd = open((Dir + f).c_str(), O_CREAT | O_RDWR, 0600);
            if (fd < 0 || write(fd, "0123456789", 10) != 10)
                abort();
            close(fd);
        }
        auto file = [](const char *n, const Bytes &b) {
            int fd = open((Dir + n).c_str(), O_CREAT | O_RDWR, 0600);
            if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size())
                abort();
            close(fd);
        };
        file("/t/m", MODB(oom_m));
        file("/t/l", MODB(oom_l));
        file("/t/k", MODB(oom_k));
        file("/t/z", MODB(oom_z));
    });
    x.run(Sc.size() * NMODE * CH, [&](uint64_t idx) {
        Scen &s = Sc[idx / (NMODE * CH)];
        int mode = (int)(idx / CH % NMODE);
        unsigned ch = (unsigned)(idx % CH);
        if (!only.empty() && s.name != only)
            return;
        if (s.base.empty()) {
            where("undisturbed " + s.name);
            baseline(s);
            if (s.heap != 0) {
                x.fail("%s, undisturbed, leaves %zd bytes of host heap behind", s.name.c_str(), (ssize_t)s.heap);
                return;
            }
        }
        std::vector<uint64_t> pts;
        if (mode == SINGLE || mode == PERSIST) {
            for (long k = 1 + (long)ch; k <= s.n; k += CH)
                pts.push_back((uint64_t)k);
        } else {
            std::set<uint64_t> v;
            for (size_t l : s.levels[mode - LIMIT])
                v.insert(l ? l - 1 : 0), v.insert(l);
            v.insert(s.peak[mode - LIMIT]);
            unsigned n = 0;
            for (uint64_t l : v)
                if (n++ % CH == ch)
                    pts.push_back(l);
        }
        int fd0 = nopenfds();
        for (uint64_t k : pts) {
            std::string nm = mc::fmt("%s, %s %llu", s.name.c_str(), modename(mode).c_str(), (unsigned long long)k);
            where(nm);
            size_t leak = 0;
            std::string bad;
            for (int round = 0; round < 3; round++) {
                size_t h0 = heap_now();
                bad = disturbed(s, mode, k);
                size_t h1 = heap_now() - (bad.capacity() > 15 ? bad.capacity() + 1 : 0);
                leak = h1 - h0;
                if (!bad.empty() || leak == 0)
                    break;
            }
            x.add(c_runs);
            x.add(mode < LIMIT ? c_points : c_limits);
            if (bad.empty() && leak != 0)
                bad = mc::fmt("%zd bytes of host heap stay behind", (ssize_t)leak);
            int fd1 = nopenfds();
            if (bad.empty() && fd1 != fd0)
                bad = mc::fmt("%d host descriptors stay open", fd1 - fd0);
            x.outcome((uint64_t)idx << 32 ^ k);
            x.beat();
            if (!bad.empty()) {
                x.fail("%s: %s", nm.c_str(), bad.c_str());
                return;
            }
        }
    });
    for (auto &s : Sc)
        x.sample(mc::fmt("scenario \"%s\": %zu steps", s.name.c_str(), s.steps.size()));
    root.done();
    return x.finish();
}
