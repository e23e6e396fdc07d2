/*
 * C05/C06/C07: all instruction sequences up to a length over small alphabets.
 *
 * A sequence is extended only while the reference validator finds its prefix
 * viable (validation fails at the first offending instruction whatever
 * follows), so the tree below covers every sequence over the alphabet up to
 * the bound.  At every node the module is given to the library
 *  - with the open blocks closed as they are, and
 *  - with the open blocks closed in a stack-polymorphic way,
 * and acceptance must agree with the reference (--check valid); accepted
 * programs are run in both and must agree (--check exec).
 */
#include "pair.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_nodes, c_valid, c_invalid, c_exec, c_traps, c_nonterm;
static bool check_valid, check_exec, intr;
static std::vector<struct tw_exec> modes;

enum { K_PLAIN, K_OPEN, K_IF, K_ELSE, K_END };
struct Tok {
    const char *name;
    Bytes b;
    int kind = K_PLAIN;
};
struct Family {
    const char *name;
    std::vector<Tok> toks;
    std::vector<FT> fts; /* signatures of the function under test */
    std::function<void(Module &)> ctx;  /* adds everything before the function */
    std::vector<std::pair<uint32_t, uint8_t>> locals;
    int qlen, tlen;
    std::vector<Host> hosts;
    bool eh = false;
    bool simd = false;
};
static std::vector<Family> fams;

static Bytes B(std::initializer_list<int> l)
{
    Bytes b;
    for (int x : l)
        b.push_back((uint8_t)x);
    return b;
}
static Bytes trace(int k)
{
    /* g0 = g0 * 31 + k */
    Bytes b;
    gget(b, 0);
    i32c(b, 31);
    u8(b, 0x6c);
    i32c(b, (uint32_t)k);
    u8(b, 0x6a);
    gset(b, 0);
    return b;
}
static const FT V_V{{}, {}}, V_I{{}, {T_I32}}, I_I{{T_I32}, {T_I32}}, I_V{{T_I32}, {}};

static Bytes blk(int op, int type)
{
    Bytes b;
    u8(b, (unsigned)op);
    if (type < 0)
        u8(b, (unsigned)(type & 0x7f));
    else
        sleb(b, type);
    return b;
}
static void std_globals(Module &m)
{
    Bytes z;
    i32c(z, 1);
    m.globals.push_back({T_I32, true, z});
}

static void build_families()
{
    { /* control flow over i32 with empty and single types */
        Family f;
        f.name = "ctl";
        f.toks = {
            {"block", B({0x02, 0x40}), K_OPEN},
            {"block:i32", B({0x02, 0x7f}), K_OPEN},
            {"loop", B({0x03, 0x40}), K_OPEN},
            {"loop:i32", B({0x03, 0x7f}), K_OPEN},
            {"if", B({0x04, 0x40}), K_IF},
            {"if:i32", B({0x04, 0x7f}), K_IF},
            {"else", B({0x05}), K_ELSE},
            {"end", B({0x0b}), K_END},
            {"br0", B({0x0c, 0})},
            {"br1", B({0x0c, 1})},
            {"br_if0", B({0x0d, 0})},
            {"br_if1", B({0x0d, 1})},
            {"br_table(0)1", B({0x0e, 1, 0, 1})},
            {"return", B({0x0f})},
            {"unreachable", B({0x00})},
            {"dec0", B({0x20, 0, 0x41, 1, 0x6b, 0x22, 0})}, /* i32: --local0 */
            {"trace1", trace(1)},
            {"get0", B({0x20, 0})},
            {"drop", B({0x1a})},
        };
        f.fts = {I_I, I_V};
        f.ctx = [](Module &m) { std_globals(m); };
        f.qlen = 5;
        f.tlen = 6;
        fams.push_back(f);
    }
    { /* a leaner alphabet, longer sequences */
        Family f;
        f.name = "loop";
        f.toks = {
            {"block:i32", B({0x02, 0x7f}), K_OPEN},
            {"loop", B({0x03, 0x40}), K_OPEN},
            {"if", B({0x04, 0x40}), K_IF},
            {"else", B({0x05}), K_ELSE},
            {"end", B({0x0b}), K_END},
            {"br1", B({0x0c, 1})},
            {"br_if0", B({0x0d, 0})},
            {"dec0", B({0x20, 0, 0x41, 1, 0x6b, 0x22, 0})},
            {"trace2", trace(2)},
        };
        f.fts = {I_I, I_V};
        f.ctx = [](Module &m) { std_globals(m); };
        f.qlen = 8;
        f.tlen = 9;
        fams.push_back(f);
    }
    { /* multi-value block types with values of different cell widths */
        Family f;
        f.name = "multi";
        FT a{{T_I32}, {T_I64, T_I32}}, b{{T_I64, T_I32}, {T_I32}}, c{{T_I64}, {T_I64}};
        f.toks = {
            {"block:t0", blk(0x02, 0), K_OPEN},
            {"block:t1", blk(0x02, 1), K_OPEN},
            {"loop:t1", blk(0x03, 1), K_OPEN},
            {"loop:t2", blk(0x03, 2), K_OPEN},
            {"if:t0", blk(0x04, 0), K_IF},
            {"if:t2", blk(0x04, 2), K_IF},
            {"else", B({0x05}), K_ELSE},
            {"end", B({0x0b}), K_END},
            {"br0", B({0x0c, 0})},
            {"br_if0", B({0x0d, 0})},
            {"br_if1", B({0x0d, 1})},
            {"br_table(1 0)0", B({0x0e, 2, 1, 0, 0})},
            {"i64const", B({0x42, 5})},
            {"dec0", B({0x20, 0, 0x41, 1, 0x6b, 0x22, 0})},
            {"drop", B({0x1a})},
            {"trace1", trace(1)},
        };
        f.fts = {{{T_I32}, {T_I64, T_I32}}, I_I};
        f.ctx = [=](Module &m) {
            m.types = {a, b, c};
            std_globals(m);
        };
        f.qlen = 5;
        f.tlen = 6;
        fams.push_back(f);
    }
    { /* operand typing: every value type, locals, select, references */
        Family f;
        f.name = "types";
        f.toks = {
            {"i32.const", B({0x41, 3})},
            {"i64.const", B({0x42, 4})},
            {"f32.const", B({0x43, 0, 0, 0x80, 0x3f})},
            {"f64.const", B({0x44, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f})},
            {"ref.null func", B({0xd0, 0x70})},
            {"ref.null extern", B({0xd0, 0x6f})},
            {"ref.func 0", B({0xd2, 0})},
            {"ref.func 1", B({0xd2, 1})},
            {"ref.is_null", B({0xd1})},
            {"select", B({0x1b})},
            {"select i32", B({0x1c, 1, 0x7f})},
            {"select func", B({0x1c, 1, 0x70})},
            {"select extern", B({0x1c, 1, 0x6f})},
            {"drop", B({0x1a})},
            {"unreachable", B({0x00})},
            {"local.get0", B({0x20, 0})},
            {"local.get1", B({0x20, 1})},
            {"local.set1", B({0x21, 1})},
            {"local.tee2", B({0x22, 2})},
            {"local.set3", B({0x21, 3})},
            {"local.get4", B({0x20, 4})},
            {"global.get1", B({0x23, 1})},
            {"global.set1", B({0x24, 1})},
            {"global.set2", B({0x24, 2})},
            {"i32.add", B({0x6a})},
            {"i64.eqz", B({0x50})},
        };
        f.locals = {{1, T_I64}, {1, T_FUNCREF}, {1, T_EXTERNREF}};
        f.fts = {I_I, {{T_I32}, {T_FUNCREF}}, {{T_I32}, {T_I64, T_EXTERNREF}}};
        f.ctx = [](Module &m) {
            std_globals(m);
            Bytes z;
            i64c(z, 9);
            m.globals.push_back({T_I64, true, z});
            m.globals.push_back({T_I64, false, z});
            m.func(V_V, {}); /* exported: declared */
            m.exp("d", 0, 0);
        };
        f.qlen = 4;
        f.tlen = 5;
        fams.push_back(f);
    }
    { /* v128 among the others */
        Family f;
        f.name = "v128";
        f.simd = true;
        Bytes vc;
        v128c(vc, {0x1111222233334444ull, 0x5555666677778888ull});
        f.toks = {
            {"v128.const", vc},
            {"i32.const", B({0x41, 1})},
            {"i64.const", B({0x42, 2})},
            {"splat", B({0xfd, 0x11})},
            {"extract", B({0xfd, 0x1b, 1})},
            {"select", B({0x1b})},
            {"select v128", B({0x1c, 1, 0x7b})},
            {"block:t0", blk(0x02, 0), K_OPEN},
            {"loop:t0", blk(0x03, 0), K_OPEN},
            {"if:v128", B({0x04, 0x7b}), K_IF},
            {"else", B({0x05}), K_ELSE},
            {"end", B({0x0b}), K_END},
            {"br0", B({0x0c, 0})},
            {"br_if0", B({0x0d, 0})},
            {"get0", B({0x20, 0})},
            {"get2", B({0x20, 2})},
            {"set2", B({0x21, 2})},
            {"tee2", B({0x22, 2})},
            {"drop", B({0x1a})},
        };
        f.locals = {{1, T_I32}, {2, T_V128}};
        f.fts = {{{T_I32}, {T_V128}}, {{T_I32}, {T_I32, T_V128}}};
        f.ctx = [](Module &m) {
            m.types = {FT{{T_I32}, {T_V128}}};
            std_globals(m);
        };
        f.qlen = 5;
        f.tlen = 6;
        fams.push_back(f);
    }
    { /* calls */
        Family f;
        f.name = "calls";
        f.hosts = {{"e", "h", FT{{T_I64}, {T_I32}}, [](const std::vector<twv> &a, std::vector<twv> &r) {
                        r[0] = {(uint32_t)(a[0].lo * 3 + 1), 0};
                        return 0;
                    }}};
        f.toks = {
            {"call host", B({0x10, 0})},
            {"call 1", B({0x10, 1})},
            {"call 2", B({0x10, 2})},
            {"call self", B({0x10, 3})},
            {"call_indirect t1", B({0x11, 1, 0})},
            {"call_indirect t0", B({0x11, 0, 0})},
            {"call_indirect t1 tab1", B({0x11, 1, 1})},
            {"return_call 1", B({0x12, 1})},
            {"return_call 2", B({0x12, 2})},
            {"return_call self", B({0x12, 3})},
            {"return_call host", B({0x12, 0})},
            {"return_call_indirect t1", B({0x13, 1, 0})},
            {"return_call_indirect t0", B({0x13, 0, 0})},
            {"i64.const", B({0x42, 7})},
            {"i32.const2", B({0x41, 2})},
            {"dec0", B({0x20, 0, 0x41, 1, 0x6b, 0x22, 0})},
            {"if:i32", B({0x04, 0x7f}), K_IF},
            {"else", B({0x05}), K_ELSE},
            {"end", B({0x0b}), K_END},
            {"drop", B({0x1a})},
            {"trace1", trace(1)},
        };
        f.fts = {I_I, {{T_I32}, {T_I32, T_I64}}};
        f.ctx = [](Module &m) {
            m.types = {FT{{T_I64}, {T_I32}}, I_I, FT{{T_I32}, {T_I32, T_I64}}};
            m.imports.push_back({"e", "h", 0, 0});
            std_globals(m);
            /* 1: i32 -> i32, traces */
            Bytes b = trace(5);
            cat(b, B({0x20, 0, 0x41, 0x11, 0x6a}));
            m.func(I_I, b);
            /* 2: i32 -> i32 i64 with locals of its own */
            Bytes c = trace(7);
            cat(c, B({0x20, 0, 0x42, 9, 0x22, 2, 0x1a, 0x20, 2}));
            m.func(FT{{T_I32}, {T_I32, T_I64}}, c, {{1, T_F32}, {1, T_I64}});
            m.tables.push_back({T_FUNCREF, {6, false, 0}});
            m.tables.push_back({T_EXTERNREF, {2, false, 0}});
            Elem e;
            e.flags = 0;
            i32c(e.off, 0);
            e.funcs = {1, 0, 2, 3};
            m.elems.push_back(e);
        };
        f.qlen = 4;
        f.tlen = 5;
        fams.push_back(f);
    }
    { /* exception handling */
        Family f;
        f.name = "eh";
        f.eh = true;
        f.toks = {
            {"try catch_all 0", B({0x1f, 0x40, 1, 2, 0}), K_OPEN},
            {"try catch t0 0", B({0x1f, 0x40, 1, 0, 0, 0}), K_OPEN},
            {"try catch t1 1", B({0x1f, 0x40, 1, 0, 1, 1}), K_OPEN},
            {"try:i32 catch t1 0; catch_all 1", B({0x1f, 0x7f, 2, 0, 1, 0, 2, 1}), K_OPEN},
            {"try catch_ref t1 1", B({0x1f, 0x40, 1, 1, 1, 1}), K_OPEN},
            {"try catch_all_ref 0", B({0x1f, 0x40, 1, 3, 0}), K_OPEN},
            {"try t2 none", B({0x1f, 0x40, 0}), K_OPEN},
            {"block", B({0x02, 0x40}), K_OPEN},
            {"block:i32", B({0x02, 0x7f}), K_OPEN},
            {"block:i32 exn", blk(0x02, 0), K_OPEN},
            {"block:exn", B({0x02, 0x69}), K_OPEN},
            {"end", B({0x0b}), K_END},
            {"throw 0", B({0x08, 0})},
            {"throw 1", B({0x08, 1})},
            {"throw 2", B({0x08, 2})},
            {"throw_ref", B({0x0a})},
            {"ref.null exn", B({0xd0, 0x69})},
            {"call thrower", B({0x10, 0})},
            {"get0", B({0x20, 0})},
            {"drop", B({0x1a})},
            {"trace1", trace(1)},
        };
        f.fts = {I_I, I_V};
        f.ctx = [](Module &m) {
            m.types = {FT{{}, {T_I32, T_EXNREF}}, V_V, I_V};
            std_globals(m);
            m.tags = {1, 2, 2};
            /* 0: throws tag 1 with the argument when nonzero */
            Bytes b = trace(3);
            cat(b, B({0x20, 0, 0x04, 0x40, 0x20, 0, 0x08, 1, 0x0b}));
            m.func(I_V, b);
        };
        f.qlen = 5;
        f.tlen = 6;
        fams.push_back(f);
    }
    { /* exception handling, focused on reaching handlers */
        Family f;
        f.name = "eh2";
        f.eh = true;
        f.toks = {
            {"block:i64 i32", blk(0x02, 0), K_OPEN},
            {"block:i64 i32 exn", blk(0x02, 3), K_OPEN},
            {"try catch t0 0", B({0x1f, 0x40, 1, 0, 0, 0}), K_OPEN},
            {"try catch t1 0; catch t0 1", B({0x1f, 0x40, 2, 0, 1, 0, 0, 0, 1}), K_OPEN},
            {"try catch_ref t0 0", B({0x1f, 0x40, 1, 1, 0, 0}), K_OPEN},
            {"try catch_ref t0 1; catch_all 2", B({0x1f, 0x40, 2, 1, 0, 1, 2, 2}), K_OPEN},
            {"end", B({0x0b}), K_END},
            {"(5,get0) throw 0", B({0x42, 5, 0x20, 0, 0x08, 0})},
            {"(6,get0) throw 1", B({0x42, 6, 0x20, 0, 0x08, 1})},
            {"call thrower", B({0x20, 0, 0x10, 0})},
            {"throw_ref", B({0x0a})},
            {"junk", B({0x42, 0x33})},
            {"drop", B({0x1a})},
            {"trace1", trace(1)},
            {"return", B({0x0f})},
        };
        FT t0{{}, {T_I64, T_I32}};
        f.fts = {{{T_I32}, {T_I64, T_I32}}};
        f.ctx = [=](Module &m) {
            m.types = {t0, I_V, FT{{T_I64, T_I32}, {}}, FT{{}, {T_I64, T_I32, T_EXNREF}}};
            std_globals(m);
            m.tags = {2, 2};
            Bytes b = trace(3);
            cat(b, B({0x20, 0, 0x04, 0x40, 0x42, 8, 0x20, 0, 0x08, 0, 0x0b}));
            m.func(I_V, b);
        };
        f.qlen = 6;
        f.tlen = 7;
        fams.push_back(f);
    }
}

struct Node {
    std::vector<int> seq;
    std::vector<int> open; /* 0: no else possible, 1: if, 2: if after else */
};

static tw_env *Env;

struct Ctx {
    Family *f;
    size_t ft;
    uint64_t nviol = 0;
};

static std::string seqname(const Family &f, const std::vector<int> &s)
{
    std::string r;
    for (int t : s)
        r += std::string(r.empty() ? "" : "; ") + f.toks[(size_t)t].name;
    return r;
}


/* returns the reference's verdict */
static int visits;
static bool test(Ctx &c, const Module &base, const Bytes &body, const std::vector<int> &seq, const char *closing, bool run)
{
    if (++visits % 1024 == 0)
        X->beat();
    Module m = base;
    uint32_t fi = m.nimp(0) + (uint32_t)m.funcs.size();
    m.funcs.push_back({m.type(c.f->fts[c.ft]), c.f->locals, body});
    m.exp("f", 0, fi);
    Validator v(m);
    bool ok = v.module();
    X->add(ok ? c_valid : c_invalid);
    auto what = [&]() {
        return mc::fmt("family %s, function type %zu, body [%s] closed %s\nmodule %s\n", c.f->name, c.ft, seqname(*c.f, seq).c_str(), closing,
                       hex(m.encode()).c_str());
    };
    if (check_exec && !ok)
        return false;
    Bytes bin = m.encode();
    Pair p(Env);
    p.m = m;
    p.hosts = c.f->hosts;
    p.max_frames = 40;
    static const unsigned optsets[] = {0, 7, 1, 2, 4, 3, 5, 6};
    int nopt = !check_exec || !run ? 1 : intr ? (int)modes.size() : X->opt.thorough() ? 8 : 2;
    for (int oi = 0; oi < nopt; oi++) {
        p.opts = optsets[intr ? oi % 2 : oi];
        if (intr)
            p.xt = modes[(size_t)oi];
        bool got = p.load(bin);
        if (got != ok) {
            X->fail("%s%s although the specification says %s%s%s", what().c_str(), got ? "accepted" : ("refused (" + p.msg + ")").c_str(),
                    ok ? "valid" : "invalid: ", ok ? "" : v.why.c_str(), "");
            p.reset();
            return ok;
        }
        if (!got) {
            if (tw_env_allocated(Env) != 0)
                X->fail("%srejection left %zu bytes allocated", what().c_str(), tw_env_allocated(Env));
            return ok;
        }
        if (check_exec && run) {
            int err, trap;
            p.ref_instantiate();
            if (!p.tw_instantiate_(err, trap)) {
                X->fail("%sinstantiation failed: error %d", what().c_str(), err);
                return ok;
            }
            uint64_t h = 1;
            static const uint32_t args[] = {0, 1, 2, 1};
            for (uint32_t a : args) {
                std::string d = p.call(fi, {twv{a, 0}}, &h, 700);
                if (d == "?") {
                    X->add(c_nonterm);
                    if (intr) {
                        d = p.abandon(fi, {twv{a, 0}}, (unsigned)oi, true);
                        if (!d.empty())
                            X->fail("%scalled with %u (load options %u): %s", what().c_str(), a, p.opts, d.c_str());
                    }
                    break;
                }
                X->add(c_exec);
                if (p.ref->trap) {
                    X->add(c_traps);
                    if (p.ref->trap & TS(TWT_FRAMES)) {
                        /* the exact depth is another property's business */
                        break;
                    }
                }
                if (d.empty())
                    d = p.diff_state();
                if (!d.empty()) {
                    X->fail("%scalled with %u (load options %u%s): %s", what().c_str(), a, p.opts, mode_str(p.xt).c_str(), d.c_str());
                    return ok;
                }
            }
            if (intr)
                for (uint32_t a : {0u, 1u}) {
                    std::string d = p.abandon(fi, {twv{a, 0}}, (unsigned)oi, false);
                    X->add(c_exec);
                    if (!d.empty()) {
                        X->fail("%scalled with %u (load options %u): %s", what().c_str(), a, p.opts, d.c_str());
                        return ok;
                    }
                }
            h = mc::fnv(&p.ri->globals[0]->v.v.lo, 8, h);
            X->outcome(h);
        }
        p.reset();
        if (tw_env_allocated(Env) != 0) {
            X->fail("%sunloading left %zu bytes allocated", what().c_str(), tw_env_allocated(Env));
            return ok;
        }
    }
    return ok;
}

static Bytes flat(const Family &f, const std::vector<int> &s)
{
    Bytes b;
    for (int t : s)
        cat(b, f.toks[(size_t)t].b);
    return b;
}

static bool applicable(const Family &f, const Node &n, int t)
{
    switch (f.toks[(size_t)t].kind) {
    case K_END: return !n.open.empty();
    case K_ELSE: return !n.open.empty() && n.open.back() == 1;
    }
    return true;
}
static void extend(const Family &f, Node &n, int t)
{
    n.seq.push_back(t);
    switch (f.toks[(size_t)t].kind) {
    case K_OPEN: n.open.push_back(0); break;
    case K_IF: n.open.push_back(1); break;
    case K_ELSE: n.open.back() = 2; break;
    case K_END: n.open.pop_back(); break;
    }
}
/* tests the node; true when its prefix is viable */
static bool visit(Ctx &c, const Module &base, const Node &n)
{
    X->add(c_nodes);
    Bytes b = flat(*c.f, n.seq);
    Bytes plain = b, poly = b;
    for (size_t i = 0; i < n.open.size(); i++)
        u8(plain, 0x0b);
    u8(poly, 0x00);
    for (size_t i = n.open.size(); i-- > 0;) {
        if (n.open[i] == 1) {
            u8(poly, 0x05);
            u8(poly, 0x00);
        }
        u8(poly, 0x0b);
        u8(poly, 0x00);
    }
    /* when the plain form is valid, so is the prefix */
    bool v1 = test(c, base, plain, n.seq, "plainly", true);
    bool v2 = test(c, base, poly, n.seq, "polymorphically", !v1);
    return v1 || v2;
}
static void dfs(Ctx &c, const Module &base, Node &n, int maxlen)
{
    if (X->sh->stop)
        return;
    if ((int)n.seq.size() >= maxlen)
        return;
    for (int t = 0; t < (int)c.f->toks.size(); t++) {
        if (!applicable(*c.f, n, t))
            continue;
        Node k = n;
        extend(*c.f, k, t);
        if (visit(c, base, k))
            dfs(c, base, k, maxlen);
    }
}

struct Case {
    size_t fam, ft;
    int t1, t2; /* -1: the node itself only */
};
static std::vector<Case> cases;

static void run_case(uint64_t i)
{
    if (!Env)
        Env = tw_env_new();
    Case &cs = cases[i];
    Ctx c{&fams[cs.fam], cs.ft};
    Module base;
    c.f->ctx(base);
    int maxlen = X->opt.thorough() ? c.f->tlen : c.f->qlen;
    if (X->opt.get("len") != "")
        maxlen += atoi(X->opt.get("len").c_str());
    Node n;
    if (cs.t1 < 0) {
        visit(c, base, n);
        return;
    }
    if (!applicable(*c.f, n, cs.t1))
        return;
    extend(*c.f, n, cs.t1);
    /* the one-token node is tested once, by the case t2 == 0 */
    if (cs.t2 == 0) {
        if (!visit(c, base, n))
            return;
    } else {
        /* viability only */
        Module m = base;
        Bytes poly = flat(*c.f, n.seq);
        u8(poly, 0);
        for (size_t k = n.open.size(); k-- > 0;) {
            if (n.open[k] == 1) {
                u8(poly, 0x05);
                u8(poly, 0x00);
            }
            u8(poly, 0x0b);
            u8(poly, 0x00);
        }
        m.funcs.push_back({m.type(c.f->fts[c.ft]), c.f->locals, poly});
        Validator v(m);
        if (!v.module())
            return;
    }
    if (!applicable(*c.f, n, cs.t2))
        return;
    extend(*c.f, n, cs.t2);
    if (visit(c, base, n))
        dfs(c, base, n, maxlen);
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "seq");
    X = &x;
    std::string chk = x.opt.get("check", "exec");
    check_valid = chk == "valid";
    check_exec = !check_valid;
    intr = x.opt.get("intr") == "1";
    if (intr)
        modes = x.opt.thorough() ? intr_modes(3, 8) : intr_modes(2, 2);
    std::string set = x.opt.get("set", "all");
    c_nodes = x.counter("nodes");
    c_valid = x.counter("valid_modules");
    c_invalid = x.counter("invalid_modules");
    c_exec = x.counter("executions");
    c_traps = x.counter("traps");
    c_nonterm = x.counter("nonterminating");
    build_families();
    for (size_t f = 0; f < fams.size(); f++) {
        bool want = set == "all" || (set == "eh" && fams[f].eh) || (set == "noeh" && !fams[f].eh) || set == fams[f].name;
        if (!want)
            continue;
        if (x.opt.get("nosimd") == "1" && fams[f].simd)
            continue;
        for (size_t t = 0; t < fams[f].fts.size(); t++) {
            cases.push_back({f, t, -1, -1});
            for (int a = 0; a < (int)fams[f].toks.size(); a++)
                for (int b = 0; b < (int)fams[f].toks.size(); b++)
                    cases.push_back({f, t, a, b});
        }
    }
    for (size_t f = 0; f < fams.size(); f++)
        x.sample(mc::fmt("family %s: %zu tokens, length <= %d", fams[f].name, fams[f].toks.size(), x.opt.thorough() ? fams[f].tlen : fams[f].qlen));
    x.run(cases.size(), run_case);
    return x.finish();
}
