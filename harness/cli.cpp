/*
 * C23: the command line front end.  The real program is run on enumerated
 * command lines and scripts for its prompt; what it prints and its exit
 * status are compared with a model of what the commands mean.
 */
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string.h>
#include "common/mc.hpp"
#include "common/scratch.hpp"
#include "common/wb.hpp"

using namespace wb;
typedef std::string Str;
static mc::Explorer *X;
static int c_cmds, c_runs;
static int CliFd = -1;
static Str Dir;
static scratch::Root *Rt;

static void put_file(const Str &n, const Bytes &b)
{
    int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size())
        abort();
    close(fd);
}
static Str slurp(const Str &n)
{
    Str s;
    int fd = open(n.c_str(), O_RDONLY);
    char buf[65536];
    ssize_t k;
    while (fd >= 0 && (k = read(fd, buf, sizeof(buf))) > 0)
        s.append(buf, (size_t)k);
    close(fd);
    return s;
}
struct Run {
    int st = 0;
    Str out, err;
    bool sig() const { return WIFSIGNALED(st) || WEXITSTATUS(st) == 99; }
    int code() const { return WIFEXITED(st) ? WEXITSTATUS(st) : -1; }
};
/* run the program in the worker's directory */
static Run run(const std::vector<Str> &args, const Str &in, int limit_s = 50, bool nonblock = false)
{
    Run r;
    int ip[2], op[2];
    if (nonblock) { /* small pipes */
        if (pipe(ip) || pipe(op) || write(ip[1], in.data(), in.size()) != (ssize_t)in.size())
            abort();
        fcntl(op[1], F_SETPIPE_SZ, 4096);
        fcntl(op[1], F_SETFL, O_NONBLOCK);
        fcntl(ip[0], F_SETFL, O_NONBLOCK);
    }
    put_file("stdin", Bytes(in.begin(), in.end()));
    pid_t pid = fork();
    if (pid == 0) {
        int i = nonblock ? ip[0] : open("stdin", O_RDONLY);
        int o = nonblock ? op[1] : open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int e = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0), dup2(o, 1), dup2(e, 2);
        for (int f = 3; f < 64; f++)
            if (f != CliFd)
                close(f);
        fcntl(CliFd, F_SETFD, FD_CLOEXEC);
        alarm((unsigned)limit_s);
        std::vector<char *> a{(char *)"toywasm"};
        for (auto &s : args)
            a.push_back((char *)s.c_str());
        a.push_back(nullptr);
        fexecve(CliFd, a.data(), environ);
        kill(getpid(), SIGUSR1);
    }
    if (nonblock) {
        char buf[1000];
        ssize_t k;
        close(ip[0]), close(op[1]);
        usleep(30000);
        close(ip[1]);
        while ((k = read(op[0], buf, sizeof(buf))) > 0) {
            r.out.append(buf, (size_t)k);
            if (r.out.size() < 8000)
                usleep(2000);
        }
        close(op[0]);
    }
    if (waitpid(pid, &r.st, 0) != pid)
        abort();
    if (!nonblock)
        r.out = slurp("stdout");
    r.err = slurp("stderr");
    X->add(c_runs);
    X->beat();
    if (WIFSIGNALED(r.st) && WTERMSIG(r.st) == SIGUSR1) {
        fprintf(stderr, "cannot run the program\n");
        abort();
    }
    return r;
}
static Str quote(const Str &s)
{
    Str o;
    for (unsigned char c : s)
        if (c < 32 || c > 126)
            o += mc::fmt("\\%02x", c);
        else
            o += (char)c;
    return o;
}
static Str tail(const Str &s, size_t n = 900)
{
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == Str::npos)
        p = s.find("Assertion");
    if (p != Str::npos)
        return s.substr(p, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}

/* ---------------------------------------------------------------- prompt */
enum { OK, RESULT, TRAP, TRAPLOAD, FAIL, NORESULT };
struct Cmd {
    Str line;
    int kind;
    Str text; /* result or trap message */
};
static const char *PR = "@1@2@";
static void script(const Str &ctx, const std::vector<Str> &opts, const std::vector<Cmd> &cmds)
{
    Str in;
    for (auto &c : cmds)
        in += c.line + "\n";
    std::vector<Str> a = opts;
    a.insert(a.end(), {"--repl", "--repl-prompt", PR});
    Run r = run(a, in);
    Str p = Str(PR) + "> ";
    std::vector<Str> ch;
    for (size_t i = r.out.find(p); i != Str::npos;) {
        size_t j = r.out.find(p, i + p.size());
        ch.push_back(r.out.substr(i + p.size(), j == Str::npos ? j : j - i - p.size()));
        i = j;
    }
    X->add(c_cmds, cmds.size());
    for (size_t i = 0; i < cmds.size(); i++) {
        auto &c = cmds[i];
        auto hist = [&]() {
            Str h;
            for (size_t k = i + 1; k-- > 0 && i - k < 8;) {
                if (k != i && cmds[k].line == ":init")
                    break;
                h = cmds[k].line + "; " + h;
            }
            return ctx + ": " + quote(h);
        };
        if (i >= ch.size()) {
            X->fail("%s: no more output (%s)\n%s", hist().c_str(), r.st ? mc::Explorer::status_text(r.st).c_str() : "ended", tail(r.err).c_str());
            return;
        }
        auto &o = ch[i];
        bool res = o.find("Result: ") != Str::npos, cmderr = o.find("Error: command '") != Str::npos, trap = o.find("Error: [trap] ") == 0;
        bool good = false;
        Str want;
        switch (c.kind) {
        case OK: good = !res && o.find("Error") == Str::npos; want = "success"; break;
        case RESULT: good = o == "Result: " + c.text + "\n"; want = "result " + c.text; break;
        case TRAP: good = !res && cmderr && trap && o.find("Error: [trap] " + c.text + " (") == 0; want = "trap " + c.text; break;
        case TRAPLOAD: good = !res && !cmderr && trap && o.find("Error: [trap] " + c.text + " (") == 0; want = "loaded, trap " + c.text; break;
        case FAIL: good = !res && cmderr && !trap; want = "an error"; break;
        case NORESULT: good = !res; want = "no result"; break;
        }
        X->outcome(mc::fnv(c.line + "|" + o));
        if (!good) {
            X->fail("%s: expected %s, got: %s", hist().c_str(), want.c_str(), quote(o.substr(0, 300)).c_str());
            return;
        }
    }
    if (r.st != 0)
        X->fail("%s: ended with %s\n%s", ctx.c_str(), mc::Explorer::status_text(r.st).c_str(), tail(r.err).c_str());
}
static std::vector<std::function<void()>> Cases;

/* ---------------------------------------------------------------- values */
static const uint8_t TY[7] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_EXTERNREF, T_FUNCREF};
struct SV {
    Str in, out; /* out without the type */
};
static Str tname(int t)
{
    static const char *n[7] = {"i32", "i64", "f32", "f64", "v128", "externref", "funcref"};
    return n[t];
}
static std::vector<SV> valid(int t, bool all)
{
    std::vector<SV> v;
    auto num = [&](uint64_t x) {
        Str d = mc::fmt("%" PRIu64, x);
        v.push_back({d, d});
        v.push_back({mc::fmt("0x%" PRIx64, x), d});
        if (all)
            v.push_back({mc::fmt("0X%" PRIX64, x), d});
    };
    switch (t) {
    case 0:
    case 2:
        for (uint32_t x : {0u, 1u, 2147483648u, 4294967295u})
            num(x);
        if (all)
            for (uint32_t x : {9u, 10u, 127u, 255u, 256u, 65535u, 65536u, 2147483647u, 0x7fc00001u, 0xff800000u, 0x12345678u, 4294967294u})
                num(x);
        break;
    case 1:
    case 3:
        for (uint64_t x : {0ull, 4294967296ull, 0x8000000000000000ull, 0xffffffffffffffffull})
            num(x);
        if (all)
            for (uint64_t x : {1ull, 9ull, 0xffffffffull, 0x80000000ull, 0x7fffffffffffffffull, 0x123456789abcdef0ull, 0x7ff8000000000001ull})
                num(x);
        break;
    case 4: {
        for (Str s : {"00000000000000000000000000000000", "0123456789abcdef0f1e2d3c4b5a6978", "80000000000000000000000000000001", "ffffffffffffffffffffffffffffffff"})
            v.push_back({s, s});
        v.push_back({"0123456789ABCDEF0F1E2D3C4B5A6978", "0123456789abcdef0f1e2d3c4b5a6978"});
        if (all)
            for (int i = 0; i < 32; i++) {
                Str s(32, '0');
                s[(size_t)i] = (char)(i % 2 ? 'a' : '7');
                v.push_back({s, s});
            }
        break;
    }
    case 5:
        v.push_back({"null", "null"});
        for (uint64_t x : {0ull, 1ull, 4294967295ull, 4294967296ull, 0x8000000000000000ull})
            num(x);
        break;
    case 6: v.push_back({"null", "null"}); break;
    }
    return v;
}
static std::vector<Str> invalid(int t)
{
    std::vector<Str> v{"x", "1x", "0x", "0xg", "1.5", "--1", "1e3", "0x1g", "+", "-", "\"1\"", "1,", "nul", "nulll"};
    switch (t) {
    case 0:
    case 2:
        for (Str s : {"4294967296", "0x100000000", "18446744073709551616", "99999999999999999999", "0x123456789", "8589934592"})
            v.push_back(s);
        [[fallthrough]];
    case 1:
    case 3:
        for (Str s : {"18446744073709551616", "0x10000000000000000", "99999999999999999999999", "null"})
            v.push_back(s);
        break;
    case 4:
        v.push_back("null");
        for (int n : {0, 1, 15, 16, 17, 31, 33, 64})
            if (n)
                v.push_back(Str((size_t)n, '1'));
        for (size_t i = 0; i < 32; i++)
            for (char c : {'g', '-', '.'}) {
                Str s(32, '1');
                s[i] = c;
                v.push_back(s);
            }
        break;
    case 5: v.push_back("18446744073709551616"); break;
    case 6: v = {"x", "nul", "nulll", "null,"}; break;
    }
    return v;
}
static void gen_values()
{
    std::vector<std::vector<int>> lists{{}};
    for (size_t k = 0; k < lists.size(); k++)
        if (lists[k].size() < 3)
            for (int t = 0; t < 7; t++) {
                auto l = lists[k];
                l.push_back(t);
                lists.push_back(l);
            }
    for (int n : {8, 40, 300}) /* long lists */
        for (int o = 0; o < 7; o++) {
            std::vector<int> l;
            for (int i = 0; i < n; i++)
                l.push_back((i + o) % 7);
            lists.push_back(l);
        }
    for (auto &l : lists)
        Cases.push_back([l] {
            Module m;
            FT ft;
            Bytes b;
            for (size_t i = 0; i < l.size(); i++) {
                ft.p.push_back(TY[l[i]]);
                ft.r.push_back(TY[l[l.size() - 1 - i]]);
                lget(b, (uint32_t)(l.size() - 1 - i));
            }
            m.exp("f", 0, m.func(ft, b));
            put_file("v.wasm", m.encode());
            std::vector<Cmd> c{{":load v.wasm", OK, ""}};
            Str ctx = "values";
            for (int t : l)
                ctx += " " + tname(t);
            auto call = [&](const std::vector<Str> &a, int kind, const Str &res) {
                Str s = ":invoke f";
                for (auto &x : a)
                    s += " " + x;
                c.push_back({s, kind, res});
            };
            std::vector<std::vector<SV>> vs;
            for (int t : l)
                vs.push_back(valid(t, l.size() == 1));
            if (l.size() == 3) /* fewer values each */
                for (auto &v : vs)
                    if (v.size() > 3)
                        v = {v[1], v[v.size() - 2], v[v.size() / 2]};
            if (l.size() > 3)
                for (size_t i = 0; i < vs.size(); i++)
                    vs[i] = {vs[i][i / 7 % vs[i].size()]};
            std::vector<size_t> ix(l.size(), 0);
            for (;;) {
                std::vector<Str> a;
                Str res;
                for (size_t i = 0; i < l.size(); i++)
                    a.push_back(vs[i][ix[i]].in);
                for (size_t i = l.size(); i-- > 0;)
                    res += (res.empty() ? "" : ", ") + vs[i][ix[i]].out + ":" + tname(l[i]);
                call(a, RESULT, l.empty() ? "<Empty Stack>" : res);
                size_t k = 0;
                while (k < l.size() && ++ix[k] == vs[k].size())
                    ix[k++] = 0;
                if (k == l.size())
                    break;
            }
            std::vector<Str> a;
            for (size_t i = 0; i < l.size(); i++)
                a.push_back(vs[i].back().in);
            for (size_t n = 0; n < l.size(); n++) /* too few */
                call(std::vector<Str>(a.begin(), a.begin() + (long)n), FAIL, "");
            for (Str e : {"0", "x", "0 0"}) { /* too many */
                auto w = a;
                w.push_back(e);
                call(w, FAIL, "");
            }
            for (size_t i = 0; i < l.size(); i++) {
                auto bad = invalid(l[i]);
                for (auto &s : bad) {
                    auto w = a;
                    w[i] = s;
                    call(w, FAIL, "");
                }
            }
            script(ctx, {}, c);
            /* the same by options */
            if (l.size() <= 2) {
                Str s = "f", res;
                for (size_t i = 0; i < l.size(); i++)
                    s += " " + a[i];
                for (size_t i = l.size(); i-- > 0;)
                    res += (res.empty() ? "" : ", ") + vs[i].back().out + ":" + tname(l[i]);
                Run r = run({"--load", "v.wasm", "--invoke", s}, "");
                if (r.st || r.out != "Result: " + (l.empty() ? Str("<Empty Stack>") : res) + "\n")
                    X->fail("%s: --invoke '%s' gives %s, %s", ctx.c_str(), s.c_str(), mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
                for (Str e : {s + " 0", Str("nosuch"), Str(""), l.empty() ? s + " x" : Str("f")}) {
                    r = run({"--load", "v.wasm", "--invoke", e}, "");
                    if (r.sig() || r.code() == 0 || r.out.find("Result") != Str::npos)
                        X->fail("%s: --invoke '%s' gives %s, %s", ctx.c_str(), e.c_str(), mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
                }
            }
        });
    /* globals of each type */
    for (int t = 0; t < 7; t++)
        for (bool mut : {false, true})
            Cases.push_back([t, mut] {
                Module m;
                std::vector<Cmd> c{{":load v.wasm", OK, ""}};
                uint32_t n = 0;
                for (auto &v : valid(t, true)) {
                    if (t == 5 && v.out != "null")
                        continue;
                    Bytes b;
                    twv x{0, 0};
                    if (t == 4)
                        sscanf(v.out.c_str(), "%16" SCNx64 "%16" SCNx64, &x.hi, &x.lo);
                    else if (t < 4)
                        x.lo = strtoull(v.out.c_str(), nullptr, 10);
                    constant(b, TY[t], x);
                    m.globals.push_back({TY[t], mut, b});
                    m.exp(mc::fmt("g%u", n), 3, n);
                    c.push_back({mc::fmt(":global-get g%u", n), RESULT, v.out + ":" + tname(t)});
                    n++;
                }
                m.exp("f", 0, m.func({{}, {}}, {}));
                c.push_back({":global-get f", FAIL, ""});
                c.push_back({":global-get nosuch", FAIL, ""});
                c.push_back({":invoke g0", FAIL, ""});
                put_file("v.wasm", m.encode());
                script("globals " + tname(t), {}, c);
            });
}

/* ---------------------------------------------------------------- names */
static void gen_names()
{
    static const std::vector<Str> U{"a", "b", " ", "\"", "\\", Str(1, '\0'), "\x7f", "\n", "\xc3\xa9", "%", "x", ":"};
    std::vector<Str> names{""};
    for (size_t k = 0; k < names.size(); k++) {
        static std::map<Str, int> depth;
        int d = depth[names[k]];
        if (d < 2)
            for (auto &u : U) {
                Str n = names[k] + u;
                depth[n] = d + 1;
                names.push_back(n);
            }
    }
    auto esc = [](const Str &s, bool upper) {
        Str o;
        for (unsigned char c : s)
            o += mc::fmt(upper ? "\\x%02X" : "\\x%02x", c);
        return o;
    };
    for (int glob = 0; glob < 2; glob++)
        Cases.push_back([esc, glob] {
            std::vector<Str> names{""};
            for (auto &u : U)
                names.push_back(u);
            for (auto &u : U)
                for (auto &w : U)
                    names.push_back(u + w);
            /* every other name exists */
            Module m;
            std::vector<Cmd> c{{":load n.wasm", OK, ""}};
            Str cmd = glob ? ":global-get " : ":invoke ";
            for (size_t i = 0; i < names.size(); i++) {
                Bytes b;
                i32c(b, (uint32_t)i);
                bool have = i % 2 == 0;
                if (have) {
                    if (glob) {
                        m.globals.push_back({T_I32, false, b});
                        m.exp(names[i], 3, (uint32_t)m.globals.size() - 1);
                    } else
                        m.exp(names[i], 0, m.func({{}, {T_I32}}, b));
                }
                auto q = [&](const Str &form) { c.push_back({cmd + form, have ? RESULT : FAIL, mc::fmt("%zu:i32", i)}); };
                if (!names[i].empty()) {
                    q(esc(names[i], false));
                    q(esc(names[i], true));
                }
                q("\"" + esc(names[i], false) + "\"");
                q(esc(names[i], false) + "\"\"");
                bool plain = !names[i].empty();
                for (char ch : names[i])
                    if (!strchr("abx%:", ch) || !ch)
                        plain = false;
                if (plain) {
                    q(names[i]);
                    q("\"" + names[i] + "\"");
                    q(names[i].substr(0, 1) + esc(names[i].substr(1), false));
                }
            }
            for (Str s : {"\\", "\\x", "\\x4", "\\y", "\\xzz", "\\x4z", "\"", "\"a", "a\"", "a\"b", "\"a\"\""})
                c.push_back({cmd + s, FAIL, ""});
            put_file("n.wasm", m.encode());
            script("names", {}, c);
        });
}

/* ---------------------------------------------------------------- sequences */
struct Kind {
    int k = -1; /* 0 A, 1 A2, 2 B, 3 T */
};
struct Glob {
    uint32_t v;
};
struct Inst {
    int k;
    int f;  /* what the function f returns; -1: unresolved, traps */
    int g;  /* index of the global */
    Str name;
};
struct Seq {
    std::vector<Inst> mods;
    std::vector<uint32_t> globs;
    std::vector<std::pair<Str, size_t>> regs; /* latest last */
    int saved = -1;
    bool inuse = false; /* the saved file is loaded */
    Inst *find(const Str &n)
    {
        if (n.empty())
            return mods.empty() ? nullptr : &mods.back();
        for (auto &m : mods)
            if (m.name == n)
                return &m;
        return nullptr;
    }
};
static Module modA(uint32_t f, uint32_t g)
{
    Module m;
    Bytes b;
    i32c(b, g);
    m.globals.push_back({T_I32, true, b});
    Bytes fb;
    i32c(fb, f);
    m.exp("f", 0, m.func({{}, {T_I32}}, fb));
    Bytes ib;
    gget(ib, 0), i32c(ib, 1), u8(ib, 0x6a), gset(ib, 0), gget(ib, 0);
    m.exp("inc", 0, m.func({{}, {T_I32}}, ib));
    m.exp("g", 3, 0);
    return m;
}
static Str HexA;
static void seq_files()
{
    put_file("A", modA(11, 5).encode());
    put_file("A2", modA(22, 50).encode());
    Module b;
    Import i;
    i.mod = "m", i.name = "f", i.kind = 0, i.typeidx = b.type({{}, {T_I32}});
    b.imports.push_back(i);
    Import j;
    j.mod = "m", j.name = "g", j.kind = 3, j.vt = T_I32, j.mut = true;
    b.imports.push_back(j);
    Bytes x;
    u8(x, 0x10), uleb(x, 0), gget(x, 0), u8(x, 0x6a);
    b.exp("call", 0, b.func({{}, {T_I32}}, x));
    Bytes y;
    gget(y, 0), i32c(y, 1), u8(y, 0x6a), gset(y, 0), gget(y, 0);
    b.exp("inc", 0, b.func({{}, {T_I32}}, y));
    b.exp("g", 3, 0);
    b.exp("f", 0, 0);
    put_file("B", b.encode());
    Module t = modA(44, 7);
    Bytes s;
    i32c(s, 9), gset(s, 0), u8(s, 0x00);
    t.start = t.func({{}, {}}, s);
    put_file("T", t.encode());
    Module u; /* imports a function only */
    u.imports.push_back(i);
    u.imports[0].typeidx = u.type({{}, {T_I32}});
    Bytes cb;
    u8(cb, 0x10), uleb(cb, 0);
    u.exp("call", 0, u.func({{}, {T_I32}}, cb));
    Bytes one;
    i32c(one, 1);
    u.exp("f", 0, u.func({{}, {T_I32}}, one));
    put_file("U", u.encode());
    Bytes bad = modA(1, 1).encode();
    bad.pop_back();
    put_file("X", bad);
    if (HexA.empty())
        for (uint8_t x : modA(11, 5).encode())
            HexA += mc::fmt("%02x", x);
}
static int fval(const Inst &m)
{
    return m.k == 4 ? 1 : m.f;
}
/* the commands; returns the expected outcome and moves the model on */
static const int NCMD = 34;
static bool step(Seq &s, int c, bool unres, const Str &sv, Cmd &o)
{
    auto loadk = [&](int k, const Str &name) {
        if (!name.empty() && s.find(name))
            return false; /* names are not reused */
        o.kind = OK;
        Inst in;
        in.k = k, in.name = name, in.g = -1, in.f = 0;
        auto prov = [&]() -> Inst * {
            for (size_t r = s.regs.size(); r-- > 0;)
                if (s.regs[r].first == "m")
                    return &s.mods[s.regs[r].second];
            return nullptr;
        };
        switch (k) {
        case 0:
        case 1:
            in.f = k ? 22 : 11;
            s.globs.push_back(k ? 50 : 5);
            in.g = (int)s.globs.size() - 1;
            break;
        case 2: {
            Inst *p = prov();
            if (p && p->g < 0)
                for (auto &r : s.regs)
                    if (r.first == "m" && s.mods[r.second].g >= 0)
                        return false; /* an earlier registration may provide it: not judged */
            if (!p || p->g < 0) {
                o.kind = FAIL; /* the global is missing */
                return true;
            }
            in.f = fval(*p), in.g = p->g;
            break;
        }
        case 3:
            s.globs.push_back(9);
            in.g = (int)s.globs.size() - 1;
            in.f = 44;
            o.kind = TRAPLOAD, o.text = "unreachable executed";
            break;
        case 4: {
            Inst *p = prov();
            if (!p && !unres) {
                o.kind = FAIL;
                return true;
            }
            in.f = p ? fval(*p) : -1;
            break;
        }
        }
        s.mods.push_back(in);
        return true;
    };
    auto invoke = [&](const Str &n, const Str &fn) {
        Inst *m = s.find(n);
        o.kind = FAIL;
        if (!m)
            return;
        auto res = [&](uint32_t v) { o.kind = RESULT, o.text = mc::fmt("%u:i32", v); };
        if (fn == "f") {
            if (m->k == 4)
                res(1);
            else
                res((uint32_t)m->f);
        } else if (fn == "inc" && m->k != 4)
            res(++s.globs[(size_t)m->g]);
        else if (fn == "call" && (m->k == 2 || m->k == 4)) {
            if (m->f < 0)
                o.kind = TRAP, o.text = "unknown";
            else
                res((uint32_t)m->f + (m->k == 2 ? s.globs[(size_t)m->g] : 0));
        }
    };
    auto reg = [&](const Str &n, const Str &as) {
        Inst *m = s.find(n);
        o.kind = m ? OK : FAIL;
        if (m)
            s.regs.push_back({as, (size_t)(m - s.mods.data())});
    };
    auto gg = [&](const Str &n) {
        Inst *m = s.find(n);
        o.kind = m && m->k != 4 ? RESULT : FAIL;
        if (o.kind == RESULT)
            o.text = mc::fmt("%u:i32", s.globs[(size_t)m->g]);
    };
    if ((c == 25 || c == 26) && s.inuse)
        return false; /* overwriting a file that is in use */
    static const char *K[5] = {"A", "A2", "B", "T", "U"};
    o.text.clear();
    if (c < 5) {
        o.line = Str(":load ") + K[c];
        return loadk(c, "");
    }
    if (c < 9) {
        static const int kk[4] = {0, 1, 2, 4};
        Str n = c < 7 ? "P" : "PQ";
        o.line = ":module " + n + " load " + K[kk[c - 5]];
        return loadk(kk[c - 5], n);
    }
    switch (c) {
    case 9: o.line = ":load X"; o.kind = FAIL; break;
    case 10: o.line = ":module P load X"; o.kind = FAIL; break;
    case 11: o.line = ":load nosuch"; o.kind = FAIL; break;
    case 12: o.line = ":register m"; reg("", "m"); break;
    case 13: o.line = ":module P register m"; reg("P", "m"); break;
    case 14: o.line = ":module PQ register m"; reg("PQ", "m"); break;
    case 15: o.line = ":register mm"; reg("", "mm"); break;
    case 16: o.line = ":invoke f"; invoke("", "f"); break;
    case 17: o.line = ":invoke inc"; invoke("", "inc"); break;
    case 18: o.line = ":invoke call"; invoke("", "call"); break;
    case 19: o.line = ":module P invoke inc"; invoke("P", "inc"); break;
    case 20: o.line = ":module PQ invoke call"; invoke("PQ", "call"); break;
    case 21: o.line = ":module PQ invoke inc"; invoke("PQ", "inc"); break;
    case 22: o.line = ":module PQR invoke f"; o.kind = FAIL; break;
    case 23: o.line = ":global-get g"; gg(""); break;
    case 24: o.line = ":module P global-get g"; gg("P"); break;
    case 25: o.line = ":save " + sv; o.kind = FAIL; if (auto m = s.find("")) s.saved = m->k, o.kind = OK; break;
    case 26: o.line = ":module P save " + sv; o.kind = FAIL; if (auto m = s.find("P")) s.saved = m->k, o.kind = OK; break;
    case 27:
        o.line = ":load " + sv;
        if (s.saved >= 0) {
            s.inuse = true;
            return loadk(s.saved, "");
        }
        o.kind = FAIL;
        break;
    case 28: {
        o.line = ":init";
        o.kind = OK;
        int sav = s.saved;
        s = Seq();
        s.saved = sav;
        break;
    }
    case 29: o.line = ":invoke nosuch"; o.kind = FAIL; break;
    case 31: {
        o.line = mc::fmt(":load-hex %zu\n", HexA.size() / 2) + HexA;
        return loadk(0, "");
    }
    case 32: o.line = ""; o.kind = OK; break;
    case 33: o.line = "  :invoke   inc  "; invoke("", "inc"); break;
    case 30: o.line = ":module P foo"; o.kind = NORESULT; break;
    }
    return true;
}
static void gen_seqs(int depth, const std::vector<int> &al)
{
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
        n *= al.size();
    const uint64_t B = 600;
    for (int unres = 0; unres < 2; unres++)
        for (uint64_t b = 0; b * B < n; b++)
            Cases.push_back([=] {
                seq_files();
                std::vector<Cmd> out;
                for (uint64_t i = b * B; i < n && i < (b + 1) * B; i++) {
                    Seq s;
                    uint64_t v = i;
                    std::vector<Cmd> cs;
                    bool ok = true;
                    for (int d = 0; d < depth && ok; d++) {
                        Cmd o;
                        ok = step(s, al[v % al.size()], unres, mc::fmt("s%u", (unsigned)(i - b * B)), o);
                        v /= al.size();
                        if (ok)
                            cs.push_back(o);
                    }
                    if (!ok)
                        continue; /* a name used twice */
                    out.insert(out.end(), cs.begin(), cs.end());
                    out.push_back({":init", OK, ""});
                }
                std::vector<Str> opts;
                if (unres)
                    opts.push_back("--allow-unresolved-functions");
                if (!out.empty())
                    script("sequence", opts, out);
                scratch::wipe(Dir + "/cwd");
            });
}

static Str join(const std::vector<Str> &v)
{
    Str s;
    for (auto &x : v)
        s += "'" + quote(x) + "' ";
    return s;
}
/* each sequence in a process of its own, under other options */
static void gen_solo(int depth)
{
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
        n *= NCMD;
    for (uint64_t i = 0; i < n; i++)
        for (int o = 0; o < 3; o++)
            Cases.push_back([=] {
                seq_files();
                Seq s;
                uint64_t v = i;
                std::vector<Cmd> cs;
                for (int d = 0; d < depth; d++) {
                    Cmd c;
                    if (!step(s, (int)(v % NCMD), o == 2, "s", c))
                        return;
                    v /= NCMD;
                    cs.push_back(c);
                }
                static const std::vector<Str> opts[3] = {
                    {"--wasi"}, {"--wasi", "--wasi-env", "A=1", "--timeout", "100000", "--disable-jump-table"}, {"--timeout", "100000", "--allow-unresolved-functions", "--wasi"}};
                script("sequence under " + join(opts[o]), opts[o], cs);
            });
}
/* sequences of options */
static void gen_options(int depth)
{
    static const int C[] = {0, 1, 2, 3, 4, 9, 16, 17, 18, 29};
    const uint64_t N = sizeof(C) / sizeof(C[0]);
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
        n *= N;
    for (uint64_t b = 0; b < n; b += N)
        Cases.push_back([=] {
            seq_files();
            for (uint64_t i = b; i < b + N; i++) {
                Seq s;
                uint64_t v = i;
                std::vector<Str> a;
                Str out;
                bool bad = false, unres = i / N % 2;
                if (unres)
                    a.push_back("--allow-unresolved-functions");
                for (int d = 0; d < depth; d++) {
                    Cmd c;
                    c.kind = OK;
                    if (!bad)
                        step(s, C[v % N], unres, "s", c);
                    else {
                        Seq z;
                        step(z, C[v % N], unres, "s", c);
                    }
                    v /= N;
                    a.push_back("--" + c.line.substr(1, c.line.find(' ') - 1));
                    a.push_back(c.line.substr(c.line.find(' ') + 1));
                    if (bad)
                        continue;
                    if (c.kind == RESULT)
                        out += "Result: " + c.text + "\n";
                    else if (c.kind != OK)
                        bad = true;
                }
                Run r = run(a, "");
                if (r.sig() || bad != (r.code() != 0))
                    X->fail("%s: expected %s, got %s and %s", join(a).c_str(), bad ? "a failure" : "success", mc::Explorer::status_text(r.st).c_str(), tail(r.out).c_str());
                Str got;
                for (size_t p = 0; p < r.out.size();) {
                    size_t e = r.out.find('\n', p);
                    e = e == Str::npos ? r.out.size() : e + 1;
                    if (!r.out.compare(p, 7, "Result:"))
                        got += r.out.substr(p, e - p);
                    p = e;
                }
                if (bad ? got != out : r.out != out)
                    X->fail("%s: expected %s, got %s", join(a).c_str(), quote(out).c_str(), quote(r.out).c_str());
            }
        });
}
/* which memory WASI works on: that of the module loaded last */
static void gen_wasimem()
{
    for (int i = 0; i < 4 * 4 * 4 * 3; i++)
        Cases.push_back([i] {
            for (int k = 0; k < 3; k++) {
                Module m;
                Import im;
                im.mod = "wasi_snapshot_preview1", im.name = "clock_res_get", im.kind = 0, im.typeidx = m.type({{T_I32, T_I32}, {T_I32}});
                if (k < 2)
                    m.imports.push_back(im);
                if (k < 2) {
                    m.mems.push_back({1, true, 1});
                    m.exp("memory", 2, 0);
                    /* fill, call, read back */
                    Bytes b;
                    i32c(b, 64 + 64 * (uint32_t)k), i64c(b, 0), u8(b, 0x37), u8(b, 3), u8(b, 0);
                    i32c(b, 1), i32c(b, 64 + 64 * (uint32_t)k), u8(b, 0x10), uleb(b, 0), u8(b, 0x1a);
                    i32c(b, 64 + 64 * (uint32_t)k), u8(b, 0x29), u8(b, 3), u8(b, 0), u8(b, 0x50);
                    m.exp("z", 0, m.func({{}, {T_I32}}, b));
                } else {
                    Bytes b;
                    i32c(b, 0);
                    m.exp("z", 0, m.func({{}, {T_I32}}, b));
                }
                put_file(k == 0 ? "W0" : k == 1 ? "W1" : "W2", m.encode());
            }
            std::vector<Cmd> c;
            int v = i;
            for (int d = 0; d < 4; d++) {
                int k = d == 3 ? v % 3 : v % 4;
                v /= 4;
                if (k == 3)
                    continue;
                c.push_back({mc::fmt(":load W%d", k), OK, ""});
                c.push_back({":invoke z", RESULT, "0:i32"});
                c.push_back({":invoke z", RESULT, "0:i32"});
            }
            script("memory of WASI", {"--wasi"}, c);
        });
}
/* ---------------------------------------------------------------- programs */
/* prints arguments, environment, preopened directories and the file x in them */
static Bytes dumper(bool trap, int64_t code)
{
    Module m;
    uint8_t I = T_I32, L = T_I64;
    auto imp = [&](const char *n, std::vector<uint8_t> p, std::vector<uint8_t> r) {
        Import i;
        i.mod = "wasi_snapshot_preview1", i.name = n, i.kind = 0, i.typeidx = m.type({p, r});
        m.imports.push_back(i);
        return (uint32_t)m.imports.size() - 1;
    };
    uint32_t asz = imp("args_sizes_get", {I, I}, {I}), ag = imp("args_get", {I, I}, {I});
    uint32_t esz = imp("environ_sizes_get", {I, I}, {I}), eg = imp("environ_get", {I, I}, {I});
    uint32_t pg = imp("fd_prestat_get", {I, I}, {I}), pn = imp("fd_prestat_dir_name", {I, I, I}, {I});
    uint32_t po = imp("path_open", {I, I, I, I, I, L, L, I, I}, {I});
    uint32_t rd = imp("fd_read", {I, I, I, I}, {I}), wr = imp("fd_write", {I, I, I, I}, {I});
    uint32_t px = imp("proc_exit", {I}, {});
    m.mems.push_back({1, false});
    m.exp("memory", 2, 0);
    m.datas.push_back({});
    i32c(m.datas[0].off, 100);
    m.datas[0].bytes = {'x', '\n'};
    Bytes b;
    auto call = [&](uint32_t f, bool drop = true) {
        u8(b, 0x10), uleb(b, f);
        if (drop)
            u8(b, 0x1a);
    };
    auto k = [&](uint32_t v) { i32c(b, v); };
    auto load = [&](uint32_t a) { k(a), u8(b, 0x28), u8(b, 2), u8(b, 0); };
    auto st = [&]() { u8(b, 0x36), u8(b, 2), u8(b, 0); };
    auto write = [&](uint32_t a, uint32_t lenat) { /* mem[40..] = {a, len} */
        k(40), k(a), st();
        k(44), load(lenat), st();
        k(1), k(40), k(1), k(48), call(wr);
    };
    auto nl = [&]() {
        k(60), k(1), st();
        write(101, 60);
    };
    k(0), k(4), call(asz);
    k(1024), k(4096), call(ag);
    write(4096, 4), nl();
    k(8), k(12), call(esz);
    k(2048), k(16384), call(eg);
    write(16384, 12), nl();
    /* local 0: fd */
    k(3), lset(b, 0);
    u8(b, 0x02), u8(b, 0x40), u8(b, 0x03), u8(b, 0x40);
    lget(b, 0), k(32), call(pg, false), u8(b, 0x0d), uleb(b, 1);
    lget(b, 0), k(32768), load(36), call(pn);
    write(32768, 36), nl();
    lget(b, 0), k(0), k(100), k(1), k(0), i64c(b, 2), i64c(b, 0), k(0), k(64), call(po, false);
    u8(b, 0x04), u8(b, 0x40); /* failed */
    u8(b, 0x05);
    k(40), k(40000), st();
    k(44), k(100), st();
    load(64), k(40), k(1), k(68), call(rd);
    write(40000, 68);
    u8(b, 0x0b);
    nl();
    lget(b, 0), k(1), u8(b, 0x6a), lset(b, 0);
    u8(b, 0x0c), uleb(b, 0), u8(b, 0x0b), u8(b, 0x0b);
    if (trap)
        u8(b, 0x00);
    else if (code >= 0)
        k((uint32_t)code), call(px, false);
    m.exp("_start", 0, m.func({{}, {}}, b, {{1, T_I32}}));
    return m.encode();
}
static void lists(size_t n, size_t max, const std::function<void(const std::vector<size_t> &)> &f)
{
    std::vector<std::vector<size_t>> q{{}};
    for (size_t i = 0; i < q.size(); i++) {
        f(q[i]);
        if (q[i].size() < max)
            for (size_t k = 0; k < n; k++) {
                auto v = q[i];
                v.push_back(k);
                q.push_back(v);
            }
    }
}
static void expect(const Str &ctx, const Run &r, int code, const Str &out)
{
    X->outcome(mc::fnv(ctx + r.out));
    if (r.code() != code || r.out != out)
        X->fail("%s: expected status %d and %s, got %s and %s\n%s", ctx.c_str(), code, quote(out).c_str(), mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str(),
                tail(r.err, 400).c_str());
}
static void expect_bad(const Str &ctx, const Run &r)
{
    X->outcome(mc::fnv(ctx + "bad"));
    if (r.sig() || r.code() <= 0 || r.out.find("Result") != Str::npos)
        X->fail("%s: expected a failure, got %s and %s\n%s", ctx.c_str(), mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str(), tail(r.err).c_str());
}
static void gen_programs(bool th)
{
    /* exit status */
    for (uint32_t c = 0; c < 256; c++)
        Cases.push_back([c] {
            put_file("p.wasm", dumper(false, c));
            Str out = Str("p.wasm") + Str(1, 0) + "\n\n";
            expect(mc::fmt("exit %u", c), run({"--wasi", "p.wasm"}, ""), (int)c, out);
            expect(mc::fmt("exit %u, timeout", c), run({"--timeout", "100000", "--wasi", "p.wasm"}, ""), (int)c, out);
        });
    Cases.push_back([] {
        Str out = Str("p.wasm") + Str(1, 0) + "\n\n";
        put_file("p.wasm", dumper(false, -1));
        expect("return", run({"--wasi", "p.wasm"}, ""), 0, out);
        put_file("p.wasm", dumper(true, -1));
        Run r = run({"--wasi", "p.wasm"}, "");
        expect_bad("trap", r);
        expect_bad("no wasi", run({"p.wasm"}, ""));
        expect_bad("no file", run({"--wasi", "nosuch.wasm"}, ""));
        expect_bad("directory", run({"--wasi", "."}, ""));
        put_file("e.wasm", {});
        expect_bad("empty file", run({"--wasi", "e.wasm"}, ""));
        put_file("e.wasm", Bytes{0, 'a', 's', 'm', 1, 0, 0, 0});
        expect_bad("no _start", run({"--wasi", "e.wasm"}, ""));
        expect_bad("unknown option", run({"--nosuchoption"}, ""));
        expect_bad("bad number", run({"--max-frames", "x", "--wasi", "p.wasm"}, ""));
        expect_bad("bad number", run({"--max-frames", "4294967296", "--wasi", "p.wasm"}, ""));
        expect_bad("bad directory", run({"--wasi", "--wasi-dir", "nosuch", "p.wasm"}, ""));
        Module m;
        Bytes b;
        u8(b, 0);
        m.start = m.func({{}, {}}, b);
        m.exp("_start", 0, m.func({{}, {}}, {}));
        put_file("e.wasm", m.encode());
        expect_bad("start function traps", run({"--wasi", "e.wasm"}, ""));
        expect_bad("start function traps", run({"--load", "e.wasm"}, ""));
        m.start = -1;
        put_file("e.wasm", m.encode());
        expect("no wasi needed", run({"e.wasm"}, ""), 0, "");
        expect("unused wasi", run({"--wasi", "e.wasm"}, ""), 0, "");
        if (run({"--version"}, "").st || run({"--print-build-options"}, "").st)
            X->fail("--version");
    });
    Cases.push_back([] { /* by --invoke */
        Str out = "\n\n";
        for (uint32_t c : {0u, 1u, 7u, 255u}) {
            put_file("p.wasm", dumper(false, c));
            Run r = run({"--wasi", "--load", "p.wasm", "--invoke", "_start"}, "");
            if (c)
                expect_bad("exit by --invoke", r);
            else
                expect("exit by --invoke", r, 0, out);
        }
        put_file("p.wasm", dumper(false, -1));
        expect("return by --invoke", run({"--wasi", "--load", "p.wasm", "--invoke", "_start"}, ""), 0, out + "Result: <Empty Stack>\n");
        put_file("p.wasm", dumper(true, -1));
        expect_bad("trap by --invoke", run({"--wasi", "--load", "p.wasm", "--invoke", "_start"}, ""));
    });
    for (bool wasi : {false, true})
        for (int n : {1, 50, 700})
            Cases.push_back([=] { /* pipes which do not block */
                seq_files();
                Str in = ":load A\n";
                for (int i = 0; i < n; i++)
                    in += ":invoke inc\n";
                std::vector<Str> a{"--repl"};
                if (wasi)
                    a.insert(a.begin(), "--wasi");
                if (n == 50) {
                    Str p;
                    for (int i = 0; i < 1500; i++)
                        p += mc::fmt("%06d", i);
                    a.insert(a.end(), {"--repl-prompt", p});
                }
                Run r = run(a, in), q = run(a, in, 50, true);
                if (r.st || r.out.find(mc::fmt("Result: %d:i32\n", 5 + n)) == Str::npos)
                    X->fail("output to a file: %s, %s", mc::Explorer::status_text(r.st).c_str(), tail(r.out).c_str());
                if (r.st != q.st || r.out != q.out)
                    X->fail("output to a pipe which does not block: %s, %s", mc::Explorer::status_text(q.st).c_str(), tail(q.out).c_str());
            });
    /* arguments */
    static const std::vector<Str> A{"", "a", "--wasi", "-x", "\xc3\xa9 b", "a=b", "--"};
    lists(A.size(), th ? 3 : 2, [](const std::vector<size_t> &l) {
        Cases.push_back([l] {
            put_file("p.wasm", dumper(false, 7));
            for (Str f : {Str("p.wasm"), Str("./p.wasm"), Dir + "/cwd/p.wasm", Str(".//p.wasm")}) {
                std::vector<Str> a{"--wasi", "--", f};
                Str out = Str("p.wasm") + '\0';
                bool dash = false;
                for (size_t i : l) {
                    a.push_back(A[i]);
                    out += A[i] + '\0';
                    dash |= A[i].size() && A[i][0] == '-';
                }
                expect("arguments " + join(a), run(a, ""), 7, out + "\n\n");
                if (!dash) {
                    a.erase(a.begin() + 1);
                    expect("arguments " + join(a), run(a, ""), 7, out + "\n\n");
                }
            }
        });
    });
    static const std::vector<Str> E{"A=1", "B=", "C", "A=2", "=x", "", "D=a=b c"};
    lists(E.size(), th ? 3 : 2, [](const std::vector<size_t> &l) {
        Cases.push_back([l] {
            put_file("p.wasm", dumper(false, 7));
            std::vector<Str> a{"--wasi"};
            Str out = Str("p.wasm") + '\0' + "\n";
            for (size_t i : l) {
                a.push_back("--wasi-env");
                a.push_back(E[i]);
                out += E[i] + '\0';
            }
            a.push_back("p.wasm");
            expect("environment " + join(a), run(a, ""), 7, out + "\n");
        });
    });
    struct D {
        Str opt, name, file;
    };
    static const std::vector<D> DS{{"d1", "d1", "one"}, {"d2", "d2", "two"}, {"d1::g", "g", "one"}, {"d2::/", "/", "two"}, {"./d1", "./d1", "one"}, {"d3::d1", "d1", ""}, {"d2::g::h", "g::h", "two"}};
    lists(DS.size(), th ? 3 : 2, [](const std::vector<size_t> &l) {
        Cases.push_back([l] {
            put_file("p.wasm", dumper(false, 7));
            for (Str d : {"d1", "d2", "d3"})
                mkdir(d.c_str(), 0700);
            put_file("d1/x", {'o', 'n', 'e'});
            put_file("d2/x", {'t', 'w', 'o'});
            std::vector<Str> a{"--wasi"};
            Str out = Str("p.wasm") + '\0' + "\n\n";
            for (size_t i : l) {
                a.push_back("--wasi-dir");
                a.push_back(DS[i].opt);
                out += DS[i].name + "\n" + DS[i].file + "\n";
            }
            a.push_back("p.wasm");
            expect("directories " + join(a), run(a, ""), 7, out);
        });
    });
    /* limits and options */
    for (uint32_t d = 0; d < 6; d++)
        for (uint32_t lim = 1; lim < 9; lim++)
            Cases.push_back([d, lim] {
                Module m;
                Bytes b; /* rec(n) = n ? rec(n - 1) + 1 : 0 */
                lget(b, 0), u8(b, 0x04), u8(b, T_I32);
                lget(b, 0), i32c(b, 1), u8(b, 0x6b), u8(b, 0x10), uleb(b, 0), i32c(b, 1), u8(b, 0x6a);
                u8(b, 0x05), i32c(b, 0), u8(b, 0x0b);
                m.exp("rec", 0, m.func({{T_I32}, {T_I32}}, b));
                put_file("r.wasm", m.encode());
                Str inv = mc::fmt("rec %u", d), ok = mc::fmt("Result: %u:i32\n", d);
                for (Str fmtn : {mc::fmt("%u", lim), mc::fmt("0x%x", lim)}) {
                    Run r = run({"--max-frames", fmtn, "--load", "r.wasm", "--invoke", inv}, "");
                    if (d + 1 <= lim)
                        expect("frames " + inv + " of " + fmtn, r, 0, ok);
                    else if (r.out.find("Error: [trap] stack overflow (") != 0 || r.code() <= 0 || r.sig())
                        X->fail("frames %s of %s: %s, %s", inv.c_str(), fmtn.c_str(), mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
                }
                static const std::vector<Str> fl{"--disable-jump-table", "--disable-localtype-cellidx", "--disable-resulttype-cellidx"};
                std::vector<Str> a;
                for (unsigned k = 0; k < 3; k++)
                    if (lim >> k & 1)
                        a.push_back(fl[k]);
                a.insert(a.end(), {"--load", "r.wasm", "--invoke", inv, "--invoke", inv});
                expect(join(a), run(a, ""), 0, ok + ok);
                Run r = run({"--print-stats", "--load", "r.wasm", "--invoke", inv}, "");
                if (r.st || r.out.find("\n" + ok) == Str::npos)
                    X->fail("--print-stats: %s, %s", mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
                /* cells: enough or not, and nothing in between */
                r = run({"--max-stack-cells", mc::fmt("%u", lim == 8 ? 100 : lim), "--load", "r.wasm", "--invoke", inv}, "");
                if (lim == 8 ? (r.st != 0 || r.out != ok) : !(r.st == 0 && r.out == ok) && (r.sig() || r.code() <= 0 || r.out.find("Error: [trap] stack overflow (") != 0))
                    X->fail("cells %s of %u: %s, %s", inv.c_str(), lim, mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
                r = run({"--max-memory", lim == 8 ? "10000000" : mc::fmt("%u", lim * 200), "--load", "r.wasm", "--invoke", inv}, "");
                if (lim == 8 ? (r.st != 0 || r.out != ok) : r.sig() || (r.st == 0 ? r.out != ok : r.out.find("Result") != Str::npos))
                    X->fail("memory %u: %s, %s", lim, mc::Explorer::status_text(r.st).c_str(), quote(r.out).c_str());
            });
    /* limits in start functions */
    for (uint32_t d = 0; d < 6; d++)
        for (uint32_t lim = 1; lim < 9; lim++)
            Cases.push_back([d, lim] {
                Module m;
                Bytes b;
                lget(b, 0), u8(b, 0x04), u8(b, 0x40);
                i32c(b, 0), lget(b, 0), i32c(b, 1), u8(b, 0x6b), u8(b, 0x10), uleb(b, 0), u8(b, 0x1a), u8(b, 0x0b);
                uint32_t f = m.func({{T_I32}, {}}, b);
                Bytes s;
                i32c(s, d), u8(s, 0x10), uleb(s, f);
                m.start = m.func({{}, {}}, s);
                put_file("r.wasm", m.encode());
                Str l = mc::fmt("%u", lim);
                Run r = run({"--max-frames", l, "--load", "r.wasm"}, "");
                if (d + 2 <= lim)
                    expect("frames of a start function", r, 0, "");
                else {
                    expect_bad("frames of a start function", r);
                    if (r.out.find("Error: [trap] stack overflow (") != 0)
                        X->fail("start function: %s", quote(r.out).c_str());
                }
                r = run({"--max-stack-cells", lim == 8 ? "100" : "3", "--load", "r.wasm"}, "");
                if (lim == 8)
                    expect("cells of a start function", r, 0, "");
                else if (d > 3)
                    expect_bad("cells of a start function", r);
            });
    /* time limit */
    for (int where = 0; where < 3; where++)
        for (int ms : {0, 1, 50})
            Cases.push_back([where, ms] {
                Module m;
                Bytes b;
                u8(b, 0x03), u8(b, 0x40), u8(b, 0x0c), uleb(b, 0), u8(b, 0x0b);
                uint32_t f = m.func({{}, {}}, b);
                m.exp("loop", 0, f);
                m.exp("_start", 0, f);
                Bytes one;
                i32c(one, 1);
                m.exp("one", 0, m.func({{}, {T_I32}}, one));
                if (where == 2)
                    m.start = f;
                put_file("l.wasm", m.encode());
                Str t = mc::fmt("%d", ms);
                if (where == 1)
                    expect_bad("timeout", run({"--timeout", t, "l.wasm"}, ""));
                else
                    expect_bad("timeout", run({"--timeout", t, "--load", "l.wasm", "--invoke", "loop"}, ""));
                if (where != 2)
                    expect("no timeout", run({"--timeout", "100000", "--load", "l.wasm", "--invoke", "one"}, ""), 0, "Result: 1:i32\n");
            });
    /* traps by name */
    Cases.push_back([] {
        Module m;
        m.mems.push_back({1, true, 1});
        m.tables.push_back({T_FUNCREF, {3, true, 3}});
        Bytes one;
        i32c(one, 1);
        uint32_t f1 = m.func({{}, {T_I32}}, one);
        Elem e;
        i32c(e.off, 0);
        e.funcs = {f1};
        m.elems.push_back(e);
        m.tags.push_back(m.type({{}, {}}));
        std::vector<Cmd> c{{":load t.wasm", OK, ""}};
        auto add = [&](const char *n, const Bytes &b, const char *msg, std::vector<uint8_t> r = {}) {
            m.exp(n, 0, m.func({{}, r}, b));
            c.push_back({Str(":invoke ") + n, TRAP, msg});
        };
        auto bin = [&](uint32_t x, uint32_t y, unsigned op) {
            Bytes b;
            i32c(b, x), i32c(b, y), u8(b, op), u8(b, 0x1a);
            return b;
        };
        add("div0", bin(1, 0, 0x6d), "integer divide by zero");
        add("rem0", bin(1, 0, 0x70), "integer divide by zero");
        add("ovf", bin(0x80000000u, 0xffffffffu, 0x6d), "integer overflow");
        Bytes b;
        f32c(b, 0x7fc00000), u8(b, 0xa8), u8(b, 0x1a);
        add("nan", b, "invalid conversion to integer");
        b.clear();
        f32c(b, 0x7f000000), u8(b, 0xa8), u8(b, 0x1a);
        add("big", b, "integer overflow");
        b.clear();
        i32c(b, 65536), u8(b, 0x2d), u8(b, 0), u8(b, 0), u8(b, 0x1a);
        add("mem", b, "out of bounds memory access");
        b.clear();
        i32c(b, 3), u8(b, 0x25), u8(b, 0), u8(b, 0x1a);
        add("tab", b, "out of bounds table access");
        b.clear();
        i32c(b, 1), u8(b, 0x11), uleb(b, m.type({{}, {T_I32}})), u8(b, 0), u8(b, 0x1a);
        add("null", b, "uninitialized element");
        b.clear();
        i32c(b, 3), u8(b, 0x11), uleb(b, m.type({{}, {T_I32}})), u8(b, 0), u8(b, 0x1a);
        add("undef", b, "undefined element");
        b.clear();
        i32c(b, 0), u8(b, 0x11), uleb(b, m.type({{}, {}})), u8(b, 0);
        add("mism", b, "indirect call type mismatch");
        b.clear();
        u8(b, 0);
        add("unr", b, "unreachable executed");
        b.clear();
        u8(b, 0x10), uleb(b, (uint32_t)m.funcs.size());
        add("rec", b, "stack overflow");
        b.clear();
        u8(b, 0x08), uleb(b, 0);
        add("exn", b, "uncaught exception");
        put_file("t.wasm", m.encode());
        auto again = c;
        c.insert(c.end(), again.begin() + 1, again.end());
        script("traps", {"--max-frames", "1000"}, c);
    });
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "cli");
    X = &x;
    c_cmds = x.counter("commands");
    c_runs = x.counter("processes");
    CliFd = open(x.opt.get("cli").c_str(), O_RDONLY);
    if (CliFd < 0) {
        perror("cli");
        return 2;
    }
    CliFd = fcntl(CliFd, F_DUPFD, 60);
    gen_programs(x.opt.thorough());
    gen_values();
    gen_names();
    std::vector<int> all;
    for (int i = 0; i < NCMD; i++)
        all.push_back(i);
    int depth = atoi(x.opt.get("depth", x.opt.thorough() ? "5" : "4").c_str());
    gen_seqs(depth, all);
    /* longer ones of fewer commands: registrations */
    gen_seqs(x.opt.thorough() ? depth + 3 : depth + 2, {0, 1, 2, 4, 12, 18, 17});
    gen_options(x.opt.thorough() ? depth : std::min(depth, 4));
    gen_wasimem();
    gen_solo(x.opt.thorough() ? 3 : 2);
    scratch::Root root;
    Rt = &root;
    x.worker_init.push_back([](int w) { Dir = Rt->enter(w); });
    x.run(Cases.size(), [&](uint64_t i) {
        Cases[i]();
        scratch::wipe(Dir + "/cwd");
    });
    root.done();
    x.sample(":module P load A; :module P register m; :load B; :invoke call: B's import is A's function");
    x.sample("--wasi --wasi-dir d1::g -- ./p.wasm '' --wasi: arguments p.wasm, '', --wasi; directory g");
    x.sample("--max-frames 3 --load r.wasm --invoke 'rec 3': trap, stack overflow");
    return x.finish();
}
