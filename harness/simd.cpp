/* C02: SIMD instructions against the lane-wise reference. */
#include "mc.hpp"
#include "refsimd.hpp"
#include "wb.hpp"
using namespace wb;
using ref::V;

static mc::Explorer *X;
static int c_exec;
static const uint64_t JUNK = 0xdeadbeefcafef00dull;

struct Case {
    int form;
    size_t op;
    int part, nparts;
};
static std::vector<Case> cases;

struct Env {
    tw_env *env;
    tw_mod *mod = nullptr;
    tw_inst *inst = nullptr;
    Env() { env = tw_env_new(); }
    bool load(const Bytes &b, const char *what)
    {
        int err, trap;
        char msg[256];
        mod = tw_load(env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
        if (!mod) {
            X->fail("%s: a valid module was refused: error %d %s\nmodule %s", what, err, msg, hex(b, 600).c_str());
            return false;
        }
        inst = tw_instantiate(mod, nullptr, &err, &trap);
        if (!inst) {
            X->fail("%s: instantiation failed: error %d trap %s", what, err, tw_trap_name(trap));
            return false;
        }
        return true;
    }
    ~Env()
    {
        tw_inst_destroy(inst);
        tw_unload(mod);
        tw_env_free(env);
    }
};
static void sop(Bytes &b, unsigned op)
{
    u8(b, 0xfd);
    uleb(b, op);
}
static std::string vs(twv v) { return mc::fmt("%016llx:%016llx", (unsigned long long)v.hi, (unsigned long long)v.lo); }

static void generic(const Case &c)
{
    const ref::SimdOp &op = ref::simd_ops[c.op];
    ref::SimdFn fn = ref::simd_fn(op.name);
    Module m;
    FT ft;
    Bytes body;
    i64c(body, JUNK);
    for (size_t i = 0; i < fn.p.size(); i++) {
        char k = fn.p[i];
        ft.p.push_back(k == 'v' ? T_V128 : k == 'i' ? T_I32 : k == 'l' ? T_I64 : k == 'f' ? T_F32 : T_F64);
        lget(body, (uint32_t)i);
    }
    sop(body, op.op);
    ft.r = {T_I64, (uint8_t)(fn.r == 'v' ? T_V128 : T_I32)};
    m.func(ft, body);
    Env e;
    if (!e.load(m.encode(), op.name))
        return;
    bool stop = false;
    auto test = [&](const V &a, const V &b, const V &cc, uint64_t s) {
        if (stop)
            return;
        twv args[3], res[2] = {};
        const V *vv[3] = {&a, &b, &cc};
        int nv = 0;
        for (size_t i = 0; i < fn.p.size(); i++)
            args[i] = fn.p[i] == 'v' ? vv[nv++]->t() : twv{s, 0};
        int trap;
        int err = tw_call(e.inst, 0, args, res, nullptr, &trap);
        ref::VOut o = fn.f(a, b, cc, s);
        X->add(c_exec);
        X->outcome(mc::fnv(&res[1], 16, op.op));
        if (err != 0 || !o.match(res[1]) || res[0].lo != JUNK) {
            std::string as;
            for (size_t i = 0; i < fn.p.size(); i++)
                as += " " + vs(args[i]);
            X->fail("%s operands%s: err %d trap %s got %s expected %s%s%s", op.name, as.c_str(), err, tw_trap_name(trap), vs(res[1]).c_str(),
                    o.scalar ? mc::fmt("%llu", (unsigned long long)o.s).c_str() : vs(o.v.t()).c_str(), o.fw ? " (up to allowed nans)" : "",
                    res[0].lo != JUNK ? " and the value below was disturbed" : "");
            stop = true;
        }
    };
    V z = V::zero();
    int w = fn.lw, N = 128 / w;
    if (fn.p == "i" || fn.p == "l" || fn.p == "f" || fn.p == "d") {
        uint8_t t = fn.p == "i" ? T_I32 : fn.p == "l" ? T_I64 : fn.p == "f" ? T_F32 : T_F64;
        for (auto s : ref::alpha(t, 2))
            test(z, z, z, s);
        return;
    }
    if (fn.p == "vvv") { /* bitselect: every bit combination in every bit position */
        for (int k = 0; k < 8; k++)
            for (int bit = 0; bit < 128; bit++)
                for (int bg = 0; bg < 8; bg++) {
                    V a, b, cc;
                    memset(a.b, bg & 1 ? 0xff : 0, 16);
                    memset(b.b, bg & 2 ? 0xff : 0, 16);
                    memset(cc.b, bg & 4 ? 0xff : 0, 16);
                    auto setb = [&](V &v, int x) { v.b[bit / 8] = (uint8_t)((v.b[bit / 8] & ~(1 << (bit % 8))) | (x << (bit % 8))); };
                    setb(a, k & 1);
                    setb(b, k >> 1 & 1);
                    setb(cc, k >> 2 & 1);
                    test(a, b, cc, 0);
                }
        return;
    }
    if (op.op == 0x0e) { /* swizzle */
        V a;
        for (int i = 0; i < 16; i++)
            a.b[i] = (uint8_t)(0xa0 + i);
        for (int pos = 0; pos < 16; pos++)
            for (int v = 0; v < 256; v++)
                for (int bg = 0; bg < 4; bg++) {
                    V b;
                    for (int i = 0; i < 16; i++)
                        b.b[i] = (uint8_t)(bg == 0 ? i : bg == 1 ? 15 - i : bg == 2 ? 255 : 16 + i);
                    b.b[pos] = (uint8_t)v;
                    test(a, b, z, 0);
                }
        return;
    }
    if (fn.whole) { /* all_true, any_true, bitmask: every zero pattern */
        uint64_t M = w == 64 ? ~0ull : (1ull << w) - 1;
        uint64_t vals[] = {0, 1, M, 1ull << (w - 1), (1ull << (w - 1)) - 1, 2, M - 1, 0x10};
        int n = N;
        for (int p = 0; p < 8; p++)
            for (int q = 0; q < 8; q++) {
                if (p == q)
                    continue;
                for (uint64_t pat = 0; pat < (1ull << n); pat++) {
                    if (n == 16 && !(p == 0 || (p == 3 && q == 4) || (p == 2 && q == 1)) && __builtin_popcountll(pat) > 2 && __builtin_popcountll(pat) < 14)
                        continue;
                    V a;
                    for (int i = 0; i < n; i++)
                        a.set(w, i, pat >> i & 1 ? vals[q] : vals[p]);
                    test(a, z, z, 0);
                }
            }
        /* single-bit vectors */
        for (int bit = 0; bit < 128; bit++) {
            V a = z;
            a.b[bit / 8] = (uint8_t)(1 << (bit % 8));
            test(a, z, z, 0);
            for (int i = 0; i < 16; i++)
                a.b[i] = (uint8_t)~a.b[i];
            test(a, z, z, 0);
        }
        return;
    }
    if (fn.shift) {
        auto A = ref::lane_alpha(w, false, 2);
        std::vector<uint64_t> S;
        for (uint64_t s = 0; s < 140; s++)
            S.push_back(s);
        for (auto s : ref::ialpha(32, 1))
            S.push_back(s);
        for (auto s : S)
            for (size_t k = 0; k < A.size(); k++) {
                V a;
                for (int i = 0; i < N; i++)
                    a.set(w, i, A[(k + (size_t)i * 7) % A.size()]);
                test(a, z, z, s);
            }
        return;
    }
    auto A = ref::lane_alpha(w, fn.fl, 2);
    if (X->opt.thorough() && w >= 16 && !fn.adjacent) {
        uint64_t s = 88172645463325252ull;
        size_t n0 = A.size();
        for (size_t i = 0; i < n0 * 2; i++) {
            s ^= s << 13, s ^= s >> 7, s ^= s << 17;
            A.push_back((A[i % n0] ^ (i < n0 ? s & 0xfff : s)) & (w == 64 ? ~0ull : (1ull << w) - 1));
        }
    }
    size_t n = A.size();
    if (fn.adjacent && fn.p == "v") {
        /* all adjacent pairs, at every pair position */
        size_t half = (size_t)N / 2;
        for (size_t i = (size_t)c.part; i < n; i += (size_t)c.nparts) {
            X->beat();
            for (size_t j = 0; j < n; j += half)
                for (size_t rot = 0; rot < half; rot++) {
                    V a;
                    for (size_t k = 0; k < half; k++) {
                        a.set(w, (int)(2 * ((k + rot) % half)), A[i]);
                        a.set(w, (int)(2 * ((k + rot) % half) + 1), A[(j + k) % n]);
                    }
                    test(a, z, z, 0);
                }
        }
        return;
    }
    if (fn.adjacent) { /* dot */
        static const uint64_t E[] = {0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x100, 0xff00, 0x1234, 0x4000};
        const size_t ne = 12;
        for (size_t i = (size_t)c.part; i < ne * ne * ne * ne; i += (size_t)c.nparts) {
            uint64_t e[4] = {E[i % ne], E[i / ne % ne], E[i / ne / ne % ne], E[i / ne / ne / ne]};
            V a, b;
            for (int k = 0; k < 4; k++) {
                int r = k & 1;
                a.set(16, 2 * k, e[r ? 2 : 0]);
                a.set(16, 2 * k + 1, e[r ? 3 : 1]);
                b.set(16, 2 * k, e[(k & 2) ? 0 : 2]);
                b.set(16, 2 * k + 1, e[(k & 2) ? 1 : 3]);
            }
            test(a, b, z, 0);
        }
        return;
    }
    if (fn.p == "v") {
        if (w == 16) {
            A.clear();
            for (uint64_t i = 0; i < 65536; i++)
                A.push_back(i);
            n = A.size();
        } else if (w > 16) {
            A = ref::lane_alpha(w, fn.fl, 2);
            n = A.size();
        }
        for (size_t i = (size_t)c.part; i < n; i += (size_t)c.nparts)
            for (int stride : {1, 3}) {
                V a;
                for (int k = 0; k < N; k++)
                    a.set(w, k, A[(i + (size_t)k * (size_t)stride) % n]);
                test(a, z, z, 0);
            }
        return;
    }
    /* binary: every pair of lane values, in every lane */
    for (size_t i = (size_t)c.part; i < n; i += (size_t)c.nparts) {
        X->beat();
        for (size_t j = 0; j < n; j += (size_t)N)
            for (int rot = 0; rot < N; rot++) {
                V a, b;
                for (int k = 0; k < N; k++) {
                    int l = (k + rot) % N;
                    a.set(w, l, A[(i + (size_t)(k % 2) * 5) % n]);
                    b.set(w, l, A[(j + (size_t)k) % n]);
                }
                test(a, b, z, 0);
            }
    }
}

/* extract/replace lane, shuffle, const */
static void lanes(const Case &)
{
    struct L {
        unsigned ext_s, ext_u, rep;
        int w;
        uint8_t t;
        const char *n;
    };
    static const L ls[] = {{0x15, 0x16, 0x17, 8, T_I32, "i8x16"}, {0x18, 0x19, 0x1a, 16, T_I32, "i16x8"}, {0x1b, 0, 0x1c, 32, T_I32, "i32x4"},
                           {0x1d, 0, 0x1e, 64, T_I64, "i64x2"}, {0x1f, 0, 0x20, 32, T_F32, "f32x4"}, {0x21, 0, 0x22, 64, T_F64, "f64x2"}};
    for (auto &l : ls) {
        int N = 128 / l.w;
        Module m;
        for (int i = 0; i < N; i++) {
            for (int k = 0; k < 3; k++) {
                Bytes b;
                i64c(b, JUNK);
                lget(b, 0);
                if (k == 2)
                    lget(b, 1);
                unsigned op = k == 0 ? l.ext_s : k == 1 ? (l.ext_u ? l.ext_u : l.ext_s) : l.rep;
                sop(b, op);
                u8(b, (unsigned)i);
                if (k == 2)
                    m.func(FT{{T_V128, l.t}, {T_I64, T_V128}}, b);
                else
                    m.func(FT{{T_V128}, {T_I64, l.t}}, b);
            }
        }
        Env e;
        if (!e.load(m.encode(), l.n))
            return;
        auto A = l.w <= 16 ? ref::lane_alpha(l.w, false, 2) : ref::alpha(l.t, 2);
        auto S = ref::alpha(l.t, 1);
        uint64_t M = l.w == 64 ? ~0ull : (1ull << l.w) - 1;
        for (int i = 0; i < N; i++) {
            X->beat();
            for (size_t ai = 0; ai < A.size(); ai++) {
                V v;
                for (int k = 0; k < N; k++)
                    v.set(l.w, k, A[(ai + (size_t)((k - i + N) % N) * 13) % A.size()]);
                for (int k = 0; k < 2; k++) {
                    twv a = v.t(), r[2] = {};
                    int trap;
                    int err = tw_call(e.inst, (uint32_t)(i * 3 + k), &a, r, nullptr, &trap);
                    uint64_t want = v.get(l.w, i);
                    if (k == 0 && l.w < 32)
                        want = (uint64_t)v.sget(l.w, i) & 0xffffffffull;
                    X->add(c_exec);
                    if (err || r[1].lo != want || r[0].lo != JUNK) {
                        X->fail("%s.extract_lane%s %d of %s: err %d got %llx expected %llx", l.n, l.w < 32 ? (k ? "_u" : "_s") : "", i, vs(a).c_str(), err,
                                (unsigned long long)r[1].lo, (unsigned long long)want);
                        return;
                    }
                }
            }
            for (auto s : S) {
                V v;
                for (int k = 0; k < 16; k++)
                    v.b[k] = (uint8_t)(0x11 * k + 3);
                twv a[2] = {v.t(), {s, 0}}, r[2] = {};
                int trap;
                int err = tw_call(e.inst, (uint32_t)(i * 3 + 2), a, r, nullptr, &trap);
                V want = v;
                want.set(l.w, i, s & M);
                X->add(c_exec);
                if (err || memcmp(&r[1], want.b, 16) || r[0].lo != JUNK) {
                    X->fail("%s.replace_lane %d with %llx: err %d got %s expected %s", l.n, i, (unsigned long long)s, err, vs(r[1]).c_str(), vs(want.t()).c_str());
                    return;
                }
            }
        }
    }
}
static void shuffles(const Case &)
{
    std::vector<std::vector<uint8_t>> pats;
    for (int pos = 0; pos < 16; pos++)
        for (int v = 0; v < 32; v++)
            for (int bg = 0; bg < 3; bg++) {
                std::vector<uint8_t> p(16);
                for (int i = 0; i < 16; i++)
                    p[(size_t)i] = (uint8_t)(bg == 0 ? i : bg == 1 ? 31 - i : (i * 7 + 3) % 32);
                p[(size_t)pos] = (uint8_t)v;
                pats.push_back(p);
            }
    Module m;
    for (auto &p : pats) {
        Bytes b;
        i64c(b, JUNK);
        lget(b, 0);
        lget(b, 1);
        sop(b, 0x0d);
        raw(b, p.data(), 16);
        m.func(FT{{T_V128, T_V128}, {T_I64, T_V128}}, b);
    }
    /* constants: every byte position, and consts mixed with shuffles */
    std::vector<twv> consts;
    for (int pos = 0; pos < 16; pos++)
        for (int v : {0, 1, 0x7f, 0x80, 0xff, 0x0b, 0x05}) {
            V c;
            for (int i = 0; i < 16; i++)
                c.b[i] = (uint8_t)(0xf0 + i);
            c.b[pos] = (uint8_t)v;
            consts.push_back(c.t());
        }
    for (auto &c : consts) {
        Bytes b;
        v128c(b, c);
        m.func(FT{{}, {T_V128}}, b);
        Bytes g;
        v128c(g, c);
        m.globals.push_back({T_V128, false, g});
    }
    Env e;
    if (!e.load(m.encode(), "shuffle"))
        return;
    uint32_t f = 0;
    for (auto &p : pats) {
        V a, b, w;
        for (int i = 0; i < 16; i++) {
            a.b[i] = (uint8_t)(0x40 + i);
            b.b[i] = (uint8_t)(0x80 + i);
        }
        for (int i = 0; i < 16; i++)
            w.b[i] = p[(size_t)i] < 16 ? a.b[p[(size_t)i]] : b.b[p[(size_t)i] - 16];
        twv args[2] = {a.t(), b.t()}, r[2] = {};
        int trap;
        int err = tw_call(e.inst, f++, args, r, nullptr, &trap);
        X->add(c_exec);
        if (err || memcmp(&r[1], w.b, 16) || r[0].lo != JUNK) {
            X->fail("i8x16.shuffle %s: err %d got %s expected %s", hex(Bytes(p.begin(), p.end())).c_str(), err, vs(r[1]).c_str(), vs(w.t()).c_str());
            return;
        }
    }
    uint32_t g = 0;
    for (auto &c : consts) {
        twv r[1] = {};
        int trap;
        int err = tw_call(e.inst, f++, nullptr, r, nullptr, &trap);
        twv gv = tw_global_get(e.inst, g++);
        X->add(c_exec, 2);
        if (err || memcmp(&r[0], &c, 16) || memcmp(&gv, &c, 16)) {
            X->fail("v128.const %s: err %d got %s, as global %s", vs(c).c_str(), err, vs(r[0]).c_str(), vs(gv).c_str());
            return;
        }
    }
}

/* memory instructions: mop index in part */
struct MOp {
    unsigned op;
    const char *n;
    int bytes;
    int kind; /* 0 load 1 store 2 load lane 3 store lane */
};
static const MOp mops[] = {
    {0, "v128.load", 16, 0}, {1, "v128.load8x8_s", 8, 0}, {2, "v128.load8x8_u", 8, 0}, {3, "v128.load16x4_s", 8, 0}, {4, "v128.load16x4_u", 8, 0},
    {5, "v128.load32x2_s", 8, 0}, {6, "v128.load32x2_u", 8, 0}, {7, "v128.load8_splat", 1, 0}, {8, "v128.load16_splat", 2, 0},
    {9, "v128.load32_splat", 4, 0}, {10, "v128.load64_splat", 8, 0}, {11, "v128.store", 16, 1},
    {0x54, "v128.load8_lane", 1, 2}, {0x55, "v128.load16_lane", 2, 2}, {0x56, "v128.load32_lane", 4, 2}, {0x57, "v128.load64_lane", 8, 2},
    {0x58, "v128.store8_lane", 1, 3}, {0x59, "v128.store16_lane", 2, 3}, {0x5a, "v128.store32_lane", 4, 3}, {0x5b, "v128.store64_lane", 8, 3},
    {0x5c, "v128.load32_zero", 4, 0}, {0x5d, "v128.load64_zero", 8, 0},
};
static const size_t nmops = sizeof(mops) / sizeof(mops[0]);
static const uint32_t MEMSZ = 65536;

static V load_ref(const MOp &o, const uint8_t *p)
{
    V r = V::zero();
    auto rd = [&](int w, int i) {
        uint64_t v = 0;
        for (int k = 0; k < w / 8; k++)
            v |= (uint64_t)p[i * w / 8 + k] << (8 * k);
        return v;
    };
    auto sxt = [&](uint64_t v, int w) { return (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)); };
    switch (o.op) {
    case 0: memcpy(r.b, p, 16); break;
    case 1: case 2: for (int i = 0; i < 8; i++) r.set(16, i, o.op == 1 ? sxt(rd(8, i), 8) : rd(8, i)); break;
    case 3: case 4: for (int i = 0; i < 4; i++) r.set(32, i, o.op == 3 ? sxt(rd(16, i), 16) : rd(16, i)); break;
    case 5: case 6: for (int i = 0; i < 2; i++) r.set(64, i, o.op == 5 ? sxt(rd(32, i), 32) : rd(32, i)); break;
    case 7: for (int i = 0; i < 16; i++) r.set(8, i, rd(8, 0)); break;
    case 8: for (int i = 0; i < 8; i++) r.set(16, i, rd(16, 0)); break;
    case 9: for (int i = 0; i < 4; i++) r.set(32, i, rd(32, 0)); break;
    case 10: for (int i = 0; i < 2; i++) r.set(64, i, rd(64, 0)); break;
    case 0x5c: r.set(32, 0, rd(32, 0)); break;
    case 0x5d: r.set(64, 0, rd(64, 0)); break;
    }
    return r;
}
static void memops(const Case &c)
{
    const MOp &o = mops[c.op];
    static const uint32_t offs[] = {0, 1, 8, 15, 16, 0x7fff, 65519, 65520, 65521, 65528, 65535, 65536, 0x7fffffff, 0xfffffff0u, 0xffffffffu};
    int nl = o.kind >= 2 ? 16 / o.bytes : 1;
    int maxalign = o.bytes == 16 ? 4 : o.bytes == 8 ? 3 : o.bytes == 4 ? 2 : o.bytes == 2 ? 1 : 0;
    Module m;
    Lim l;
    l.min = 1;
    m.mems.push_back(l);
    m.mems.push_back(l);
    struct Fn { uint32_t off; int lane, align, mem; };
    std::vector<Fn> fns;
    for (int mem = 0; mem < 2; mem++)
        for (int lane = 0; lane < nl; lane++)
            for (int al = 0; al <= maxalign; al++)
                for (auto off : offs) {
                    if (al != maxalign && lane != nl - 1 && al != 0)
                        continue;
                    Bytes b;
                    if (o.kind == 1 || o.kind == 3) {
                        lget(b, 0);
                        lget(b, 1);
                    } else {
                        i64c(b, JUNK);
                        lget(b, 0);
                        if (o.kind == 2)
                            lget(b, 1);
                    }
                    sop(b, o.op);
                    uleb(b, (unsigned)al | (mem ? 0x40u : 0));
                    if (mem)
                        uleb(b, 1);
                    uleb(b, off);
                    if (o.kind >= 2)
                        u8(b, (unsigned)lane);
                    FT ft;
                    ft.p = {T_I32, T_V128};
                    if (o.kind == 0 || o.kind == 2)
                        ft.r = {T_I64, T_V128};
                    m.func(ft, b);
                    fns.push_back({off, lane, al, mem});
                }
    Env e;
    if (!e.load(m.encode(), o.n))
        return;
    std::vector<uint8_t> img[2];
    for (int mem = 0; mem < 2; mem++) {
        img[mem].resize(MEMSZ);
        for (uint32_t i = 0; i < MEMSZ; i++)
            img[mem][i] = (uint8_t)(i * 37 + (i >> 8) * 11 + 0x80 + (unsigned)mem * 101);
        tw_mem_write(e.inst, (uint32_t)mem, 0, img[mem].data(), MEMSZ);
    }
    std::vector<uint32_t> addrs;
    for (uint32_t i = 0; i < 20; i++)
        addrs.push_back(i);
    for (uint32_t i = 0; i < 36; i++)
        addrs.push_back(MEMSZ - 34 + i);
    for (uint32_t a : {0x7fffu, 0x8000u, 0x1ffffu, 0x20000u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffeffffu, 0xffff0000u, 0xffff0010u, 0xfffffff0u, 0xfffffff1u, 0xfffffffeu, 0xffffffffu})
        addrs.push_back(a);
    V v;
    for (int i = 0; i < 16; i++)
        v.b[i] = (uint8_t)(0xc1 + i * 3);
    std::vector<uint8_t> tmp(MEMSZ);
    for (size_t fi = 0; fi < fns.size(); fi++) {
        Fn &fn = fns[fi];
        X->beat();
        for (auto addr : addrs) {
            twv args[2] = {{addr, 0}, v.t()}, r[2] = {};
            int trap;
            int err = tw_call(e.inst, (uint32_t)fi, args, r, nullptr, &trap);
            uint64_t ea = (uint64_t)addr + fn.off;
            bool oob = ea + (uint64_t)o.bytes > MEMSZ;
            X->add(c_exec);
            X->outcome(mc::fnv(&r[1], 16, o.op * 2 + oob));
            bool bad = false;
            std::string want;
            std::vector<uint8_t> &im = img[fn.mem];
            if (oob) {
                bad = err != TW_TRAP || trap != TWT_OOB_MEM;
                want = "out-of-bounds trap";
            } else if (err != 0) {
                bad = true;
                want = "success";
            } else if (o.kind == 0) {
                V w = load_ref(o, &im[ea]);
                want = vs(w.t());
                bad = memcmp(&r[1], w.b, 16) != 0 || r[0].lo != JUNK;
            } else if (o.kind == 2) {
                V w = v;
                memcpy(&w.b[fn.lane * o.bytes], &im[ea], (size_t)o.bytes);
                want = vs(w.t());
                bad = memcmp(&r[1], w.b, 16) != 0 || r[0].lo != JUNK;
            }
            if (!bad && (o.kind == 1 || o.kind == 3)) {
                std::vector<uint8_t> save;
                if (!oob) {
                    save.assign(im.begin() + (long)ea, im.begin() + (long)ea + o.bytes);
                    memcpy(&im[ea], &v.b[o.kind == 3 ? fn.lane * o.bytes : 0], (size_t)o.bytes);
                }
                for (int mem = 0; mem < 2 && !bad; mem++) {
                    tw_mem_read(e.inst, (uint32_t)mem, 0, tmp.data(), MEMSZ);
                    if (memcmp(tmp.data(), img[mem].data(), MEMSZ)) {
                        bad = true;
                        want = "memory contents";
                    }
                }
                if (!oob && !bad) { /* restore */
                    memcpy(&im[ea], save.data(), save.size());
                    tw_mem_write(e.inst, (uint32_t)fn.mem, ea, save.data(), save.size());
                }
            }
            if (bad) {
                X->fail("%s addr 0x%x offset 0x%x lane %d align %d memory %d: err %d trap %s result %s, expected %s", o.n, addr, fn.off, fn.lane, fn.align,
                        fn.mem, err, tw_trap_name(trap), vs(r[1]).c_str(), want.c_str());
                return;
            }
        }
    }
    for (int mem = 0; mem < 2; mem++) {
        tw_mem_read(e.inst, (uint32_t)mem, 0, tmp.data(), MEMSZ);
        if (memcmp(tmp.data(), img[mem].data(), MEMSZ))
            X->fail("%s: memory %d changed by loads", o.n, mem);
    }
}

static void run_case(uint64_t i)
{
    const Case &c = cases[i];
    switch (c.form) {
    case 0: generic(c); break;
    case 1: lanes(c); break;
    case 2: shuffles(c); break;
    case 3: memops(c); break;
    }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "simd");
    X = &x;
    c_exec = x.counter("transitions");
    for (size_t i = 0; i < nmops; i++)
        cases.push_back({3, i, 0, 1});
    cases.push_back({1, 0, 0, 1});
    cases.push_back({2, 0, 0, 1});
    for (size_t i = 0; i < ref::nsimd; i++) {
        ref::SimdFn fn = ref::simd_fn(ref::simd_ops[i].name);
        bool split = (fn.p == "vv" || fn.p == "v") && !fn.whole && ref::simd_ops[i].op != 0x0e;
        int n = split ? (x.opt.thorough() ? 16 : 4) : 1;
        for (int p = 0; p < n; p++)
            cases.push_back({0, i, p, n});
    }
    x.sample("i8x16.add_sat_s: all 65536 lane pairs in all 16 lanes");
    x.sample("f64x2.pmin: all pairs of the f64 alphabet in both lanes");
    x.sample("v128.store64_lane: 2 lanes x alignments x 15 offsets x 70 addresses around both memory ends, whole memory compared");
    x.run(cases.size(), run_case);
    return x.finish();
}
