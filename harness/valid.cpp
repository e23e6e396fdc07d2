/*
 * C05: validation verdicts, one dimension at a time but exhaustively:
 * every opcode against every operand stack, every immediate range, every
 * index space, and module-level rules.
 */
#include "pair.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_mods, c_ok, c_bad;
static tw_env *Env;
static bool simd = true, eh = true;
static size_t maxstack = 3;

static Bytes B(std::initializer_list<int> l)
{
    Bytes b;
    for (int x : l)
        b.push_back((uint8_t)x);
    return b;
}
static bool failed;
static void expect(const Bytes &bin, bool ok, const std::string &why, const std::string &what)
{
    if (!Env)
        Env = tw_env_new();
    int err;
    char msg[200];
    X->add(c_mods);
    X->add(ok ? c_ok : c_bad);
    tw_mod *m = tw_load(Env, bin.data(), bin.size(), 0, &err, msg, sizeof(msg));
    bool got = m != nullptr;
    X->outcome(mc::fnv(std::string(msg)));
    tw_unload(m);
    if (got != ok) {
        X->fail("%s: %s although the specification says %s%s\nmodule %s", what.c_str(), got ? "accepted" : mc::fmt("refused (%d %s)", err, msg).c_str(),
                ok ? "valid" : "invalid: ", why.c_str(), hex(bin, 1500).c_str());
        failed = true;
    }
    if (tw_env_allocated(Env) != 0) {
        X->fail("%s: %zu bytes left allocated\nmodule %s", what.c_str(), tw_env_allocated(Env), hex(bin, 1500).c_str());
        failed = true;
        Env = tw_env_new();
    }
}
static void expect(const Module &m, const std::string &what)
{
    Validator v(m);
    bool ok = v.module();
    expect(m.encode(), ok && !v.unsupported, v.unsupported ? "beyond the tag payload limit" : v.why, what);
}

static std::vector<uint8_t> TY = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};
static const char *tname(uint8_t t)
{
    switch (t) {
    case T_I32: return "i32";
    case T_I64: return "i64";
    case T_F32: return "f32";
    case T_F64: return "f64";
    case T_V128: return "v128";
    case T_FUNCREF: return "funcref";
    case T_EXTERNREF: return "externref";
    case T_EXNREF: return "exnref";
    }
    return "?";
}

/* a module with a few of everything */
static Module rich()
{
    Module m;
    m.types = {FT{{}, {}}, FT{{T_I32}, {T_I32}}, FT{{T_I64, T_F32}, {T_F64}}};
    m.tables = {{T_FUNCREF, {2, false, 0}}, {T_EXTERNREF, {2, false, 0}}};
    Lim a{1, true, 2};
    Lim sh{1, true, 2};
    sh.shared = true;
    m.mems = {a, sh};
    if (eh)
        m.tags = {0};
    for (auto t : TY) {
        Bytes c;
        constant(c, t, {1, 0});
        m.globals.push_back({t, true, c});
    }
    m.funcs.push_back({0, {}, {}});
    m.exp("f0", 0, 0);
    Elem e;
    e.flags = 1;
    e.funcs = {0};
    m.elems.push_back(e);
    Data d;
    d.flags = 1;
    d.bytes = {1, 2};
    m.datas.push_back(d);
    m.datacount = true;
    return m;
}

/* opcodes: single bytes, then 0xfc/0xfd/0xfe prefixed */
static std::vector<unsigned> all_ops()
{
    std::vector<unsigned> r;
    for (unsigned i = 0; i < 256; i++)
        if (i != 0xfc && i != 0xfd && i != 0xfe && i != 0x0b && i != 0x05 && i != 0x02 && i != 0x03 && i != 0x04 && i != 0x1f && i != 0x08 && i != 0x0a)
            r.push_back(i);
    for (unsigned i = 0; i < 0x30; i++)
        r.push_back(0xfc00 | i);
    if (simd)
        for (unsigned i = 0; i < 0x100; i++)
            r.push_back(0xfd00 | i);
    for (unsigned i = 0; i < 0x60; i++)
        r.push_back(0xfe00 | i);
    return r;
}
static Bytes opbytes(unsigned op)
{
    Bytes b;
    if (op > 0xff) {
        u8(b, op >> 8);
        uleb(b, op & 0xff);
    } else
        u8(b, op);
    return b;
}
/* zero immediates that decode; natural alignment for atomics */
static bool with_imm(unsigned op, Bytes &out, bool &known)
{
    Bytes base = opbytes(op);
    if (op == 0x1c) {
        out = B({0x1c, 1, 0x7f});
        known = true;
        return true;
    }
    if (op == 0xd0) {
        out = B({0xd0, 0x70});
        known = true;
        return true;
    }
    if (op >= 0xfe00 && op != 0xfe03 && op <= 0xfe4e && !(op > 0xfe03 && op < 0xfe10)) {
        int bytes;
        uint8_t t;
        if (op <= 0xfe02)
            bytes = op == 0xfe02 ? 8 : 4;
        else
            atomic_shape((op - 0xfe10) % 7, bytes, t);
        out = base;
        uleb(out, 0x40u | (unsigned)log2i(bytes));
        u8(out, 1); /* memory 1, shared */
        u8(out, 0);
        known = true;
        return true;
    }
    for (int n = 0; n <= 20; n++) {
        Bytes b = base;
        b.insert(b.end(), (size_t)n, 0);
        std::vector<Instr> v;
        Bytes c = b;
        c.push_back(0x0b);
        Dec d{c};
        int t = d.seq(v, 0);
        if (t == 0x0b && !d.bad && d.p == c.size() && v.size() == 1) {
            out = b;
            known = true;
            return true;
        }
    }
    out = base;
    known = false;
    return true;
}

static std::vector<unsigned> ops;
static void sig_case(unsigned op)
{
    Bytes ib;
    bool known;
    with_imm(op, ib, known);
    std::vector<Bytes> imms = {ib};
    if (op == 0x1c)
        for (auto t : TY)
            imms.push_back(B({0x1c, 1, t}));
    if (op == 0x1c) {
        imms.push_back(B({0x1c, 0}));
        imms.push_back(B({0x1c, 2, 0x7f, 0x7f}));
    }
    if (op == 0xd0)
        imms.push_back(B({0xd0, 0x6f}));
    if (op == 0x23 || op == 0x24 || op == 0x20 || op == 0x21 || op == 0x22) {
        imms.clear();
        for (int k = 0; k < (int)TY.size(); k++)
            imms.push_back(B({(int)op, k}));
    }
    if (op == 0x25 || op == 0x26 || op == 0xfc0f || op == 0xfc10 || op == 0xfc11) {
        Bytes o = opbytes(op);
        u8(o, 1);
        imms.push_back(o);
    }
    if (op == 0x10 || op == 0x12) {
        imms.push_back(B({(int)op, 1}));
        imms.push_back(B({(int)op, 2}));
    }
    if (op == 0x11 || op == 0x13) {
        imms.push_back(B({(int)op, 1, 0}));
        imms.push_back(B({(int)op, 2, 0}));
    }
    Module base = rich();
    {
        /* two more callees */
        Bytes b;
        lget(b, 0);
        base.funcs.push_back({1, {}, b});
        Bytes c;
        f64c(c, 0);
        base.funcs.push_back({2, {}, c});
    }
    std::vector<std::pair<uint32_t, uint8_t>> locals;
    for (auto t : TY)
        locals.push_back({1, t});
    size_t nt = TY.size();
    for (auto &imm : imms)
        for (int poly = 0; poly < 2; poly++)
            for (size_t len = 0; len <= maxstack; len++) {
                size_t total = 1;
                for (size_t i = 0; i < len; i++)
                    total *= nt;
                for (size_t k = 0; k < total; k++) {
                    Bytes body;
                    if (poly)
                        u8(body, 0);
                    size_t q = k;
                    std::string st;
                    for (size_t i = 0; i < len; i++) {
                        uint8_t t = TY[q % nt];
                        q /= nt;
                        constant(body, t, {0, 0});
                        st += std::string(" ") + tname(t);
                    }
                    cat(body, imm);
                    for (size_t r = 0; r <= nt; r++) {
                        /* an unknown opcode needs no result sweep */
                        if (!known && r > 0)
                            break;
                        Module m = base;
                        FT ft;
                        if (r)
                            ft.r = {TY[r - 1]};
                        m.funcs.push_back({m.type(ft), locals, body});
                        expect(m, mc::fmt("opcode %x, %sstack [%s ], result %s", op, poly ? "polymorphic " : "", st.c_str(), r ? tname(TY[r - 1]) : "none"));
                        if (failed) {
                            failed = false;
                            return;
                        }
                    }
                }
                X->beat();
            }
}

/* alignment, memory index, offset, lane immediates */
static void imm_case(unsigned op)
{
    MemOp mo;
    Module base = rich();
    auto fn = [&](const Bytes &body) {
        Module m = base;
        Bytes b;
        u8(b, 0); /* polymorphic: only the immediates decide */
        cat(b, body);
        u8(b, 0);
        m.funcs.push_back({0, {}, b});
        return m;
    };
    unsigned s = op & 0xff;
    bool lanemem = (op >> 8) == 0xfd && s >= 0x54 && s <= 0x5b;
    bool ismem = memop(op, mo) || ((op >> 8) == 0xfd && (s <= 0x0b || s == 0x5c || s == 0x5d || lanemem)) ||
                 ((op >> 8) == 0xfe && op != 0xfe03 && op <= 0xfe4e && !(op > 0xfe03 && op < 0xfe10));
    if (ismem) {
        for (uint64_t align : {0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 6ull, 7ull, 31ull, 32ull, 63ull, 0x80ull, 0x100ull, 0x1000ull, 0x40000000ull, 0x80000000ull, 0xffffff80ull, 0xffffffbfull})
            for (int mi = -1; mi < 4; mi++)
                for (uint64_t off : {0ull, 1ull, 0xffffffffull})
                    for (int nm = 0; nm <= 2; nm++)
                        for (int lane = 0; lane < (lanemem ? 20 : 1); lane++) {
                            Bytes b = opbytes(op);
                            if (mi >= 0) {
                                uleb(b, align | 0x40);
                                uleb(b, (uint64_t)mi);
                            } else
                                uleb(b, align & ~0x40ull);
                            uleb(b, off);
                            if (lanemem)
                                u8(b, (unsigned)lane);
                            Module m = fn(b);
                            m.mems.resize((size_t)nm);
                            expect(m, mc::fmt("opcode %x align %llu memory %d of %d offset %llu lane %d", op, (unsigned long long)align, mi, nm,
                                              (unsigned long long)off, lane));
                            if (failed) {
                                failed = false;
                                return;
                            }
                        }
        return;
    }
    if ((op >> 8) == 0xfd && s >= 0x15 && s <= 0x22) {
        for (int lane = 0; lane < 256; lane++) {
            Bytes b = opbytes(op);
            u8(b, (unsigned)lane);
            expect(fn(b), mc::fmt("opcode %x lane %d", op, lane));
            if (failed) {
                failed = false;
                return;
            }
        }
        return;
    }
    if (op == 0xfd0d) {
        for (int pos = 0; pos < 16; pos++)
            for (int v = 0; v < 256; v++) {
                Bytes b = opbytes(op);
                for (int i = 0; i < 16; i++)
                    u8(b, i == pos ? (unsigned)v : 31u - (unsigned)i);
                expect(fn(b), mc::fmt("shuffle selector %d = %d", pos, v));
                if (failed) {
                    failed = false;
                    return;
                }
            }
        return;
    }
    /* index immediates, one or two, over small ranges, in contexts of every size */
    Bytes dummy;
    bool known;
    with_imm(op, dummy, known);
    size_t nimm = dummy.size() - opbytes(op).size();
    if (!known || nimm == 0 || nimm > 2 || op == 0x1c || op == 0xd0 || op == 0x41 || op == 0x42 || op == 0xfe03 || (op >> 8) == 0xfd)
        return;
    if (op == 0x0e)
        return;
    std::vector<uint64_t> idx = {0, 1, 2, 3, 4, 7, 8, 127, 128, 0x7fffffff, 0xffffffff};
    for (uint64_t a : idx)
        for (uint64_t b2 : nimm == 2 ? idx : std::vector<uint64_t>{0})
            for (int ctx = 0; ctx < 6; ctx++) {
                Bytes b = opbytes(op);
                uleb(b, a);
                if (nimm == 2)
                    uleb(b, b2);
                Module m = fn(b);
                switch (ctx) {
                case 1: m.tables.clear(); break;
                case 2: m.mems.clear(); break;
                case 3: m.datacount = false; break;
                case 4: m.elems.clear(); break;
                case 5: m.datas.clear(); break;
                }
                if (ctx == 3 && !m.datas.empty())
                    ;
                m.funcs.back().locals = {{2, T_I32}, {1, T_I64}};
                expect(m, mc::fmt("opcode %x immediates %llu %llu context %d", op, (unsigned long long)a, (unsigned long long)b2, ctx));
                if (failed) {
                    failed = false;
                    return;
                }
            }
}

/* labels: br, br_if, br_table in nests of every depth, label types */
static void label_case(int depth)
{
    static const std::vector<FT> lt = {FT{{}, {}}, FT{{}, {T_I32}}, FT{{T_I32}, {T_I64}}, FT{{T_I64}, {}}};
    /* all nests of the given depth over block/loop x 3 types */
    int kinds = 8;
    int total = 1;
    for (int i = 0; i < depth; i++)
        total *= kinds;
    for (int n = 0; n < total; n++) {
        Module base;
        for (auto &t : lt)
            base.types.push_back(t);
        Bytes open;
        int q = n;
        for (int i = 0; i < depth; i++, q /= kinds) {
            u8(open, 0); /* polymorphic */
            u8(open, (q % kinds) & 1 ? 0x03 : 0x02);
            sleb(open, (q % kinds) / 2);
        }
        for (int res = 0; res < 2; res++)
            for (int stack = 0; stack < 4; stack++)
                for (int form = 0; form < 3 + depth + 2; form++)
                    for (int l = 0; l <= depth + 1; l++) {
                        Bytes b = open;
                        u8(b, 0);
                        if (stack == 1)
                            i32c(b, 1);
                        if (stack == 2)
                            i64c(b, 1);
                        if (stack == 3) {
                            i32c(b, 1);
                            i64c(b, 1);
                        }
                        if (form == 0) {
                            u8(b, 0x0c);
                            uleb(b, (uint64_t)l);
                        } else if (form == 1) {
                            i32c(b, 0);
                            u8(b, 0x0d);
                            uleb(b, (uint64_t)l);
                        } else if (form == 2) {
                            i32c(b, 0);
                            u8(b, 0x0e);
                            uleb(b, 0);
                            uleb(b, (uint64_t)l);
                        } else {
                            i32c(b, 0);
                            u8(b, 0x0e);
                            uleb(b, 1);
                            uleb(b, (uint64_t)(form - 3));
                            uleb(b, (uint64_t)l);
                        }
                        u8(b, 0);
                        for (int i = 0; i < depth; i++) {
                            u8(b, 0x0b);
                            u8(b, 0x00);
                        }
                        Module m = base;
                        m.funcs.push_back({(uint32_t)res, {}, b});
                        expect(m, mc::fmt("nest %d of depth %d, form %d, label %d, stack %d", n, depth, form, l, stack));
                        if (failed) {
                            failed = false;
                            return;
                        }
                    }
    }
}

/* constant expressions: all sequences up to length 3 */
struct CTok {
    const char *n;
    Bytes b;
};
static std::vector<CTok> ctoks()
{
    std::vector<CTok> r = {
        {"i32.const", B({0x41, 1})}, {"i64.const", B({0x42, 1})}, {"f32.const", B({0x43, 0, 0, 0, 0})}, {"f64.const", B({0x44, 0, 0, 0, 0, 0, 0, 0, 0})},
        {"ref.null func", B({0xd0, 0x70})}, {"ref.null extern", B({0xd0, 0x6f})}, {"ref.func 0", B({0xd2, 0})}, {"ref.func 9", B({0xd2, 9})},
        {"global.get 0 (const i32)", B({0x23, 0})}, {"global.get 1 (mut i32)", B({0x23, 1})}, {"global.get 2 (const i64)", B({0x23, 2})},
        {"global.get 3 (const funcref)", B({0x23, 3})}, {"global.get 4 (local const i32)", B({0x23, 4})}, {"global.get 5", B({0x23, 5})}, {"global.get 9", B({0x23, 9})},
        {"i32.add", B({0x6a})}, {"i32.sub", B({0x6b})}, {"i32.mul", B({0x6c})}, {"i64.add", B({0x7c})}, {"i64.sub", B({0x7d})}, {"i64.mul", B({0x7e})},
        {"i32.div_s", B({0x6d})}, {"nop", B({0x01})}, {"drop", B({0x1a})}, {"unreachable", B({0x00})}, {"call 0", B({0x10, 0})}, {"i32.eqz", B({0x45})}, {"f32.add", B({0x92})},
        {"i32.and", B({0x71})}, {"i64.and", B({0x83})}, {"memory.size", B({0x3f, 0})}, {"block", B({0x02, 0x40, 0x0b})}, {"local.get", B({0x20, 0})}, {"select", B({0x1b})}};
    if (simd) {
        Bytes v;
        v128c(v, {1, 2});
        r.push_back({"v128.const", v});
        r.push_back({"i32x4.splat", B({0xfd, 0x11})});
    }
    return r;
}
static Module cbase()
{
    Module m;
    m.types = {FT{{}, {}}};
    m.imports.push_back({"m", "a", 3, 0, T_I32, false});
    m.imports.push_back({"m", "b", 3, 0, T_I32, true});
    m.imports.push_back({"m", "c", 3, 0, T_I64, false});
    m.imports.push_back({"m", "d", 3, 0, T_FUNCREF, false});
    m.funcs.push_back({0, {}, {}});
    m.mems.push_back({1, false, 0});
    m.tables.push_back({T_FUNCREF, {4, false, 0}});
    m.tables.push_back({T_EXTERNREF, {4, false, 0}});
    Bytes c;
    i32c(c, 3);
    m.globals.push_back({T_I32, false, c});
    return m;
}
static void const_case(int which)
{
    auto tk = ctoks();
    size_t n = tk.size();
    /* which: first token (or n: the empty expression) */
    auto run = [&](const Bytes &e, const std::string &s) {
        for (auto t : TY)
            for (int mut = 0; mut < 2; mut++) {
                Module m = cbase();
                m.globals.push_back({t, (bool)mut, e});
                expect(m, mc::fmt("global %s initialised by [%s]", tname(t), s.c_str()));
            }
        {
            Module m = cbase();
            Data d;
            d.off = e;
            m.datas.push_back(d);
            expect(m, mc::fmt("data offset [%s]", s.c_str()));
        }
        {
            Module m = cbase();
            Elem el;
            el.off = e;
            el.funcs = {0};
            m.elems.push_back(el);
            expect(m, mc::fmt("element offset [%s]", s.c_str()));
        }
        for (int fl : {4, 5, 6, 7})
            for (uint8_t t : {T_FUNCREF, T_EXTERNREF}) {
                Module m = cbase();
                Elem el;
                el.flags = fl;
                el.t = t;
                el.table = t == T_EXTERNREF;
                i32c(el.off, 0);
                el.exprs = {e};
                m.elems.push_back(el);
                expect(m, mc::fmt("element expression [%s] flags %d type %s", s.c_str(), fl, tname(t)));
            }
        if (failed) {
            failed = false;
            return false;
        }
        return true;
    };
    if ((size_t)which == n) {
        run({}, "");
        return;
    }
    Bytes a = tk[(size_t)which].b;
    std::string sa = tk[(size_t)which].n;
    if (!run(a, sa))
        return;
    for (size_t j = 0; j < n; j++) {
        Bytes b = a;
        cat(b, tk[j].b);
        std::string sb = sa + "; " + tk[j].n;
        if (!run(b, sb))
            return;
        for (size_t k = 0; k < n; k++) {
            if (!X->opt.thorough() && k >= 15 && k > 22)
                ;
            Bytes c = b;
            cat(c, tk[k].b);
            if (!run(c, sb + "; " + tk[k].n))
                return;
        }
    }
}

static std::string limstr(const Lim &l)
{
    return mc::fmt("min %llu%s%s%s", (unsigned long long)l.min, l.hasmax ? mc::fmt(" max %llu", (unsigned long long)l.max).c_str() : "", l.shared ? " shared" : "",
                   l.custom ? mc::fmt(" page 2^%u", l.shift).c_str() : "");
}

static void module_case(int k)
{
    switch (k) {
    case 0: { /* limits */
        std::vector<uint64_t> v = {0, 1, 2, 65535, 65536, 65537, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull};
        for (int imp = 0; imp < 2; imp++)
            for (int kind = 1; kind <= 2; kind++)
                for (auto mn : v)
                    for (size_t mx = 0; mx <= v.size(); mx++)
                        for (int sh = 0; sh < 2; sh++)
                            for (int cp = -1; cp <= 33; cp++) {
                                if (kind == 1 && (sh || cp >= 0))
                                    continue;
                                Lim l;
                                l.min = mn;
                                if (mx) {
                                    l.hasmax = true;
                                    l.max = v[mx - 1];
                                }
                                l.shared = sh;
                                l.custom = cp >= 0;
                                l.shift = cp >= 0 ? (unsigned)cp : 16;
                                Module m;
                                if (imp) {
                                    Import i;
                                    i.mod = "a";
                                    i.name = "b";
                                    i.kind = kind;
                                    i.vt = T_FUNCREF;
                                    i.l = l;
                                    m.imports.push_back(i);
                                } else if (kind == 1)
                                    m.tables.push_back({T_FUNCREF, l});
                                else
                                    m.mems.push_back(l);
                                expect(m, mc::fmt("%s%s %s", imp ? "imported " : "", kind == 1 ? "table" : "memory", limstr(l).c_str()));
                            }
        break;
    }
    case 1: { /* exports: kind x index x context, duplicate names */
        for (int kind = 0; kind <= 4; kind++) {
            if (kind == 4 && !eh)
                continue;
            for (uint32_t idx = 0; idx < 4; idx++)
                for (int impn = 0; impn < 3; impn++)
                    for (int defn = 0; defn < 3; defn++) {
                        Module m;
                        m.types = {FT{{}, {}}};
                        for (int i = 0; i < impn; i++) {
                            Import im;
                            im.mod = "m";
                            im.name = "n";
                            im.kind = kind;
                            im.vt = kind == 1 ? T_FUNCREF : T_I32;
                            im.l.min = 1;
                            m.imports.push_back(im);
                        }
                        Bytes c;
                        i32c(c, 0);
                        for (int i = 0; i < defn; i++) {
                            switch (kind) {
                            case 0: m.funcs.push_back({0, {}, {}}); break;
                            case 1: m.tables.push_back({T_FUNCREF, {1, false, 0}}); break;
                            case 2: m.mems.push_back({1, false, 0}); break;
                            case 3: m.globals.push_back({T_I32, false, c}); break;
                            case 4: m.tags.push_back(0); break;
                            }
                        }
                        m.exp("x", kind, idx);
                        expect(m, mc::fmt("export kind %d index %u of %d+%d", kind, idx, impn, defn));
                    }
        }
        static const char *names[] = {"", "a", "b", "aa", "ab", "ba", "abc", "a ", "\xc3\xa9", "\xc3\xaa"};
        for (auto a : names)
            for (auto b : names)
                for (auto c : names)
                    for (int ka = 0; ka < 3; ka++)
                        for (int kb = 0; kb < 3; kb++) {
                            Module m;
                            m.types = {FT{{}, {}}};
                            m.funcs.push_back({0, {}, {}});
                            m.funcs.push_back({0, {}, {}});
                            m.tables.push_back({T_FUNCREF, {1, false, 0}});
                            m.mems.push_back({1, false, 0});
                            m.exp(a, ka, 0);
                            m.exp(b, kb, 0);
                            m.exp(c, 0, 1);
                            expect(m, mc::fmt("exports '%s' kind %d, '%s' kind %d, '%s'", a, ka, b, kb, c));
                        }
        break;
    }
    case 2: { /* start */
        for (int64_t idx : {0, 1, 2, 3, 100})
            for (int t = 0; t < 4; t++)
                for (int imp = 0; imp < 2; imp++) {
                    Module m;
                    m.types = {FT{{}, {}}, FT{{T_I32}, {}}, FT{{}, {T_I32}}, FT{{T_I32}, {T_I32}}};
                    if (imp) {
                        Import im;
                        im.mod = "m";
                        im.name = "n";
                        im.kind = 0;
                        im.typeidx = (uint32_t)t;
                        m.imports.push_back(im);
                    }
                    Bytes u;
                    u8(u, 0);
                    m.funcs.push_back({(uint32_t)t, {}, u});
                    m.funcs.push_back({0, {}, u});
                    m.start = idx;
                    expect(m, mc::fmt("start %lld, type %d, imported %d", (long long)idx, t, imp));
                }
        break;
    }
    case 3: { /* element segments */
        for (int fl = 0; fl < 8; fl++)
            for (int ti = 0; ti < 4; ti++)
                for (uint8_t et : {T_FUNCREF, T_EXTERNREF})
                    for (int ntab = 0; ntab < 4; ntab++)
                        for (int items = 0; items < 3; items++)
                            for (uint32_t fi = 0; fi < 4; fi++)
                                for (int off = 0; off < 3; off++) {
                                    Module m;
                                    m.types = {FT{{}, {}}};
                                    m.funcs.push_back({0, {}, {}});
                                    m.funcs.push_back({0, {}, {}});
                                    static const uint8_t tt[] = {T_FUNCREF, T_EXTERNREF, T_FUNCREF};
                                    for (int i = 0; i < ntab; i++)
                                        m.tables.push_back({tt[i], {3, false, 0}});
                                    Elem e;
                                    e.flags = fl;
                                    e.table = (uint32_t)ti;
                                    e.t = et;
                                    if (off == 0)
                                        i32c(e.off, 0);
                                    else if (off == 1)
                                        i64c(e.off, 0);
                                    else {
                                        i32c(e.off, 0);
                                        i32c(e.off, 0);
                                    }
                                    for (int i = 0; i < items; i++) {
                                        e.funcs.push_back(fi);
                                        Bytes x;
                                        if (fi == 3) {
                                            u8(x, 0xd0);
                                            u8(x, et);
                                        } else {
                                            u8(x, 0xd2);
                                            uleb(x, fi);
                                        }
                                        e.exprs.push_back(x);
                                    }
                                    if (fl & 4)
                                        e.funcs.clear();
                                    else
                                        e.exprs.clear();
                                    m.elems.push_back(e);
                                    expect(m, mc::fmt("element flags %d table %d of %d type %s items %d func %u offset %d", fl, ti, ntab, tname(et), items, fi, off));
                                    if (failed) {
                                        failed = false;
                                        return;
                                    }
                                }
        break;
    }
    case 4: { /* data segments and the data count rule */
        for (int fl = 0; fl < 3; fl++)
            for (uint32_t mi = 0; mi < 4; mi++)
                for (int nm = 0; nm < 4; nm++)
                    for (int off = 0; off < 3; off++)
                        for (int dc = 0; dc < 2; dc++)
                            for (int use = 0; use < 5; use++)
                                for (uint32_t di = 0; di < 3; di++) {
                                    Module m;
                                    m.types = {FT{{}, {}}};
                                    for (int i = 0; i < nm; i++)
                                        m.mems.push_back({1, false, 0});
                                    Data d;
                                    d.flags = fl;
                                    d.mem = mi;
                                    if (off == 0)
                                        i32c(d.off, 0);
                                    else if (off == 1)
                                        i64c(d.off, 0);
                                    m.datas.push_back(d);
                                    m.datas.push_back(d);
                                    m.datacount = dc;
                                    Bytes b;
                                    if (use == 1) {
                                        u8(b, 0);
                                        cat(b, B({0xfc, 0x08, (int)di, 0}));
                                    } else if (use == 2)
                                        cat(b, B({0xfc, 0x09, (int)di}));
                                    else if (use == 3) {
                                        u8(b, 0); /* in dead code */
                                        cat(b, B({0xfc, 0x09, (int)di}));
                                    } else if (use == 4) {
                                        u8(b, 0);
                                        cat(b, B({0xfc, 0x08, (int)di, 1}));
                                    }
                                    m.funcs.push_back({0, {}, b});
                                    expect(m, mc::fmt("data flags %d memory %u of %d offset %d datacount %d use %d of segment %u", fl, mi, nm, off, dc, use, di));
                                    if (failed) {
                                        failed = false;
                                        return;
                                    }
                                }
        break;
    }
    case 5: { /* declared function references */
        for (int decl = 0; decl < 12; decl++)
            for (uint32_t target = 0; target < 3; target++)
                for (uint32_t use = 0; use < 4; use++)
                    for (int dead = 0; dead < 2; dead++) {
                        Module m;
                        m.types = {FT{{}, {}}};
                        Import im;
                        im.mod = "m";
                        im.name = "n";
                        im.kind = 0;
                        m.imports.push_back(im);
                        Bytes b;
                        if (dead)
                            u8(b, 0);
                        cat(b, B({0xd2, (int)use, 0x1a}));
                        m.funcs.push_back({0, {}, b});
                        m.funcs.push_back({0, {}, {}});
                        m.tables.push_back({T_FUNCREF, {4, false, 0}});
                        Bytes rf = B({0xd2, (int)target});
                        Bytes z;
                        i32c(z, 0);
                        if (decl == 1)
                            m.exp("x", 0, target);
                        else if (decl == 2)
                            m.globals.push_back({T_FUNCREF, false, rf});
                        else if (decl == 3)
                            m.start = target;
                        else if (decl >= 4) {
                            Elem e;
                            e.flags = decl - 4;
                            e.off = z;
                            e.t = T_FUNCREF;
                            if (e.flags & 4)
                                e.exprs = {rf};
                            else
                                e.funcs = {target};
                            m.elems.push_back(e);
                        }
                        expect(m, mc::fmt("ref.func %u with function %u declared by %d%s", use, target, decl, dead ? " (dead code)" : ""));
                    }
        break;
    }
    case 6: { /* type indices of functions, imports and tags; block type indices */
        for (uint32_t nt = 0; nt < 4; nt++)
            for (uint32_t ti : {0u, 1u, 2u, 3u, 4u, 127u, 128u, 0x7fffffffu, 0xffffffffu})
                for (int where = 0; where < 7; where++) {
                    Module m;
                    for (uint32_t i = 0; i < nt; i++)
                        m.types.push_back(i == 2 ? FT{{}, {T_I32}} : i == 1 ? FT{{T_I32}, {}} : FT{{}, {}});
                    Bytes u = B({0});
                    switch (where) {
                    case 0: m.funcs.push_back({ti, {}, u}); break;
                    case 1: {
                        Import im;
                        im.mod = "m";
                        im.name = "n";
                        im.kind = 0;
                        im.typeidx = ti;
                        m.imports.push_back(im);
                        break;
                    }
                    case 2:
                        if (!eh)
                            continue;
                        m.tags.push_back(ti);
                        break;
                    case 3: {
                        if (!eh)
                            continue;
                        Import im;
                        im.mod = "m";
                        im.name = "n";
                        im.kind = 4;
                        im.typeidx = ti;
                        m.imports.push_back(im);
                        break;
                    }
                    case 4: case 5: case 6: {
                        if (nt == 0 || ti == 0xffffffffu)
                            continue;
                        Bytes b = u;
                        u8(b, where == 4 ? 0x02 : where == 5 ? 0x03 : 0x04);
                        sleb(b, ti);
                        u8(b, 0);
                        if (where == 6)
                            u8(b, 0x05), u8(b, 0);
                        u8(b, 0x0b);
                        u8(b, 0);
                        m.funcs.push_back({0, {}, b});
                        break;
                    }
                    }
                    expect(m, mc::fmt("type index %u of %u used at %d", ti, nt, where));
                }
        /* single-byte block types */
        for (int bt = 0; bt < 128; bt++)
            for (int op = 2; op <= 4; op++) {
                if ((bt == 0x69 && !eh) || (bt == T_V128 && !simd))
                    continue;
                Module m;
                m.types = {FT{{}, {}}};
                Bytes b = B({0, op, bt, 0});
                if (op == 4)
                    u8(b, 0x05), u8(b, 0);
                u8(b, 0x0b);
                u8(b, 0);
                m.funcs.push_back({0, {}, b});
                /* 0..0x3f are type indices */
                expect(m, mc::fmt("block type byte %x on opcode %x", bt, op));
            }
        break;
    }
    case 7: { /* tag payloads: every list up to length 3 plus arity in throw */
        if (!eh)
            break;
        for (size_t len = 0; len <= 4; len++) {
            size_t total = 1;
            for (size_t i = 0; i < len; i++)
                total *= TY.size();
            for (size_t k = 0; k < total; k++) {
                FT t;
                size_t q = k;
                for (size_t i = 0; i < len; i++, q /= TY.size())
                    t.p.push_back(TY[q % TY.size()]);
                for (int r = 0; r < 2; r++) {
                    Module m;
                    FT tt = t;
                    if (r)
                        tt.r = {T_I32};
                    m.types = {FT{{}, {}}, tt, FT{{}, tt.p}};
                    m.tags.push_back(1);
                    Bytes b = B({0});
                    for (auto x : t.p)
                        constant(b, x, {0, 0});
                    cat(b, B({0x08, 0}));
                    m.funcs.push_back({0, {}, b});
                    /* catch delivering to a block of exactly that type */
                    Bytes c = B({0x02, 2, 0x1f, 0x40, 1, 0, 0, 0, 0x0b, 0x00, 0x0b, 0x00});
                    m.funcs.push_back({0, {}, c});
                    std::string s;
                    for (auto x : t.p)
                        s += std::string(" ") + tname(x);
                    expect(m, mc::fmt("tag with payload%s%s", s.c_str(), r ? " and a result" : ""));
                    if (failed) {
                        failed = false;
                        return;
                    }
                }
            }
        }
        break;
    }
    case 8: { /* try_table clauses: kind x tag x label x label type */
        if (!eh)
            break;
        std::vector<FT> lt = {FT{{}, {}}, FT{{}, {T_I32}}, FT{{}, {T_EXNREF}}, FT{{}, {T_I32, T_EXNREF}}, FT{{}, {T_I64}}, FT{{T_I32}, {}}, FT{{T_EXNREF}, {T_I32}}};
        for (size_t a = 0; a < lt.size(); a++)
            for (int aloop = 0; aloop < 2; aloop++)
                for (size_t b = 0; b < lt.size(); b++)
                    for (int bloop = 0; bloop < 2; bloop++)
                        for (int kind = 0; kind < 5; kind++)
                            for (int tag = 0; tag < 4; tag++)
                                for (int label = 0; label < 10; label++) {
                                    if (kind >= 2 && tag)
                                        continue;
                                    Module m;
                                    m.types = lt;
                                    m.types.push_back(FT{{T_I32}, {}});
                                    m.tags = {0, (uint32_t)lt.size(), 0};
                                    Bytes x = B({0, aloop ? 3 : 2, (int)a, 0, bloop ? 3 : 2, (int)b, 0, 0x1f, label < 5 ? 0x40 : 0x7f, 1, kind});
                                    if (kind < 2)
                                        uleb(x, (uint64_t)tag);
                                    uleb(x, (uint64_t)label % 5);
                                    if (label >= 5)
                                        u8(x, 0);
                                    cat(x, B({0x0b, 0, 0x0b, 0, 0x0b, 0}));
                                    m.funcs.push_back({0, {}, x});
                                    expect(m, mc::fmt("clause kind %d tag %d label %d in types %zu/%d %zu/%d", kind, tag, label, a, aloop, b, bloop));
                                    if (failed) {
                                        failed = false;
                                        return;
                                    }
                                }
        break;
    }
    case 9: { /* locals: indices at and beyond the end, with grouped declarations and params */
        for (int np = 0; np < 4; np++)
            for (int g1 = 0; g1 < 4; g1++)
                for (int g2 = 0; g2 < 4; g2++)
                    for (int idx = 0; idx < 12; idx++)
                        for (int op = 0x20; op <= 0x22; op++)
                            for (size_t vt = 0; vt < TY.size(); vt++) {
                                Module m;
                                FT ft;
                                for (int i = 0; i < np; i++)
                                    ft.p.push_back(TY[(size_t)i]);
                                Bytes b;
                                if (op != 0x20)
                                    constant(b, TY[vt], {0, 0});
                                u8(b, (unsigned)op);
                                uleb(b, (uint64_t)idx);
                                if (op != 0x21) {
                                    FT d;
                                    u8(b, 0x21);
                                    uleb(b, (uint64_t)(np + g1 + g2)); /* a local of the expected type */
                                }
                                m.funcs.push_back({m.type(ft), {{(uint32_t)g1, T_I64}, {(uint32_t)g2, T_F64}, {1, TY[vt]}, {0, T_I32}}, b});
                                expect(m, mc::fmt("opcode %x local %d with %d params, groups %d %d, value %s", op, idx, np, g1, g2, tname(TY[vt])));
                                if (failed) {
                                    failed = false;
                                    return;
                                }
                            }
        break;
    }
    case 10: { /* call / call_indirect / tail call signatures: every pair of small types */
        std::vector<FT> fts;
        std::vector<std::vector<uint8_t>> lists = {{}, {T_I32}, {T_I64}, {T_FUNCREF}, {T_I32, T_I64}, {T_I64, T_I32}, {T_F64, T_F64, T_I32}};
        for (auto &p : lists)
            for (auto &r : lists)
                fts.push_back({p, r});
        for (size_t callee = 0; callee < fts.size(); callee++)
            for (size_t caller = 0; caller < lists.size(); caller++)
                for (size_t st = 0; st < lists.size(); st++)
                    for (int form = 0; form < 4; form++)
                        for (int poly = 0; poly < 2; poly++) {
                            Module m;
                            m.types = fts;
                            m.funcs.push_back({(uint32_t)callee, {}, B({0})});
                            m.tables.push_back({T_FUNCREF, {1, false, 0}});
                            Bytes b;
                            if (poly)
                                u8(b, 0);
                            for (auto t : lists[st])
                                constant(b, t, {0, 0});
                            if (form >= 2)
                                i32c(b, 0);
                            static const int opc[] = {0x10, 0x12, 0x11, 0x13};
                            u8(b, (unsigned)opc[form]);
                            if (form >= 2) {
                                uleb(b, callee);
                                uleb(b, 0);
                            } else
                                uleb(b, 0);
                            m.func(FT{{}, lists[caller]}, b);
                            expect(m, mc::fmt("call form %d of type %zu with stack %zu%s in function returning %zu", form, callee, st, poly ? " (polymorphic)" : "", caller));
                            if (failed) {
                                failed = false;
                                return;
                            }
                        }
        break;
    }
    case 11: { /* if/else typing: every combination of arm contents and block type */
        std::vector<std::vector<uint8_t>> lists = {{}, {T_I32}, {T_I64}, {T_I32, T_I64}};
        std::vector<FT> fts;
        for (auto &p : lists)
            for (auto &r : lists)
                fts.push_back({p, r});
        /* arms: drop n inputs, push list, or unreachable */
        for (size_t bt = 0; bt < fts.size(); bt++)
            for (size_t in = 0; in < lists.size(); in++)
                for (int a1 = 0; a1 < 13; a1++)
                    for (int a2 = 0; a2 < 14; a2++)
                        for (size_t out = 0; out < lists.size(); out++) {
                            auto arm = [&](Bytes &b, int a) {
                                if (a == 12) {
                                    u8(b, 0);
                                    return;
                                }
                                for (int i = 0; i < a / 4; i++)
                                    u8(b, 0x1a);
                                for (auto t : lists[(size_t)a % 4])
                                    constant(b, t, {0, 0});
                            };
                            Module m;
                            m.types = fts;
                            Bytes b;
                            for (auto t : lists[in])
                                constant(b, t, {0, 0});
                            i32c(b, 1);
                            u8(b, 0x04);
                            sleb(b, (int64_t)bt);
                            arm(b, a1);
                            if (a2 < 13) {
                                u8(b, 0x05);
                                arm(b, a2);
                            }
                            u8(b, 0x0b);
                            m.func(FT{{}, lists[out]}, b);
                            expect(m, mc::fmt("if of type %zu, input %zu, arms %d %d, output %zu", bt, in, a1, a2, out));
                            if (failed) {
                                failed = false;
                                return;
                            }
                        }
        break;
    }
    case 12: { /* global import types, mutability of set; table element types of set/grow/fill */
        for (auto t : TY)
            for (int mut = 0; mut < 2; mut++)
                for (int imp = 0; imp < 2; imp++)
                    for (auto vt : TY)
                        for (int set = 0; set < 2; set++) {
                            Module m;
                            m.types = {FT{{}, {}}};
                            Bytes c;
                            constant(c, t, {0, 0});
                            if (imp) {
                                Import im;
                                im.mod = "m";
                                im.name = "n";
                                im.kind = 3;
                                im.vt = t;
                                im.mut = mut;
                                m.imports.push_back(im);
                            } else
                                m.globals.push_back({t, (bool)mut, c});
                            Bytes b;
                            if (set) {
                                constant(b, vt, {0, 0});
                                gset(b, 0);
                            } else {
                                gget(b, 0);
                                constant(b, vt, {0, 0});
                                u8(b, 0x1a);
                                u8(b, 0x1a);
                            }
                            m.funcs.push_back({0, {}, b});
                            expect(m, mc::fmt("global %s mutable %d imported %d, %s %s", tname(t), mut, imp, set ? "set from" : "get beside", tname(vt)));
                        }
        break;
    }
    case 13: { /* deep nesting and large counts stay valid */
        for (int depth : {1, 10, 100, 127, 128, 129, 255, 256, 1000}) {
            for (int op = 2; op <= 4; op++) {
                Module m;
                m.types = {FT{{}, {}}};
                Bytes b;
                for (int i = 0; i < depth; i++) {
                    if (op == 4)
                        i32c(b, 1);
                    u8(b, (unsigned)op);
                    u8(b, 0x40);
                }
                u8(b, 0x0c);
                uleb(b, (uint64_t)depth); /* outermost */
                for (int i = 0; i < depth; i++)
                    u8(b, 0x0b);
                m.funcs.push_back({0, {}, b});
                expect(m, mc::fmt("nest of depth %d opcode %x", depth, op));
                Module bad = m;
                Bytes b2(b.begin(), b.begin() + (long)(b.size() - (size_t)depth));
                /* label one too far */
                Bytes b3;
                for (int i = 0; i < depth; i++) {
                    if (op == 4)
                        i32c(b3, 1);
                    u8(b3, (unsigned)op);
                    u8(b3, 0x40);
                }
                u8(b3, 0x0c);
                uleb(b3, (uint64_t)depth + 1);
                for (int i = 0; i < depth; i++)
                    u8(b3, 0x0b);
                bad.funcs[0].body = b3;
                expect(bad, mc::fmt("nest of depth %d opcode %x with label out of range", depth, op));
            }
        }
        for (int n : {1, 127, 128, 1000, 10000}) {
            Module m;
            m.types = {FT{{}, {}}};
            Bytes b = B({0x02, 0x40});
            i32c(b, 0);
            u8(b, 0x0e);
            uleb(b, (uint64_t)n);
            for (int i = 0; i < n; i++)
                uleb(b, (uint64_t)(i & 1));
            uleb(b, 0);
            u8(b, 0x0b);
            m.funcs.push_back({0, {}, b});
            expect(m, mc::fmt("br_table with %d targets", n));
        }
        for (int n : {1, 127, 128, 1000, 50000}) {
            Module m;
            m.types = {FT{{}, {}}};
            Bytes b;
            lget(b, (uint32_t)n - 1);
            u8(b, 0x1a);
            m.funcs.push_back({0, {{(uint32_t)n, T_I64}}, b});
            expect(m, mc::fmt("%d locals", n));
            m.funcs[0].body = {};
            lget(m.funcs[0].body, (uint32_t)n);
            u8(m.funcs[0].body, 0x1a);
            expect(m, mc::fmt("%d locals, index out of range", n));
        }
        break;
    }
    }
    failed = false;
}
static const int NMODCASES = 14;

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "valid");
    X = &x;
    simd = x.opt.get("nosimd") != "1";
    eh = x.opt.get("noeh") != "1";
    maxstack = (size_t)atoi(x.opt.get("stack", "3").c_str());
    if (!simd)
        TY.erase(TY.begin() + 4);
    c_mods = x.counter("modules");
    c_ok = x.counter("valid_modules");
    c_bad = x.counter("invalid_modules");
    ops = all_ops();
    size_t n1 = ops.size(), n2 = ops.size(), n3 = 4, n4 = ctoks().size() + 1;
    x.run(n1 + n2 + n3 + n4 + NMODCASES, [&](uint64_t i) {
        if (i < NMODCASES)
            return module_case((int)i);
        i -= NMODCASES;
        if (i < n3)
            return label_case((int)i);
        i -= n3;
        if (i < n4)
            return const_case((int)i);
        i -= n4;
        if (i < n1)
            return sig_case(ops[i]);
        i -= n1;
        imm_case(ops[i]);
    });
    x.sample(mc::fmt("%zu opcodes x operand stacks of length 0..%zu over %zu types x result types", n1, maxstack, TY.size()));
    return x.finish();
}
