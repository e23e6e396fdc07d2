/* Reference semantics of the SIMD instructions, lane by lane. */
#ifndef VERIF_REFSIMD_HPP
#define VERIF_REFSIMD_HPP
#include <functional>
#include <string>
#include "refnum.hpp"

namespace ref {
struct V {
    uint8_t b[16];
    uint64_t get(int w, int i) const
    {
        uint64_t r = 0;
        for (int k = 0; k < w / 8; k++)
            r |= (uint64_t)b[i * (w / 8) + k] << (8 * k);
        return r;
    }
    void set(int w, int i, uint64_t v)
    {
        for (int k = 0; k < w / 8; k++)
            b[i * (w / 8) + k] = (uint8_t)(v >> (8 * k));
    }
    int64_t sget(int w, int i) const { return (int64_t)(get(w, i) << (64 - w)) >> (64 - w); }
    twv t() const
    {
        twv r = {get(64, 0), get(64, 1)};
        return r;
    }
    static V of(twv x)
    {
        V v;
        v.set(64, 0, x.lo);
        v.set(64, 1, x.hi);
        return v;
    }
    static V zero() { V v; memset(v.b, 0, 16); return v; }
};
/* a vector result; float lanes may allow a set of NaNs */
struct VOut {
    V v = V::zero();
    int fw = 0; /* float lane width, 0: exact */
    Kind k[4] = {EXACT, EXACT, EXACT, EXACT};
    bool scalar = false;
    uint64_t s = 0;
    bool match(twv got) const
    {
        if (scalar)
            return got.lo == s;
        V g = V::of(got);
        if (!fw)
            return memcmp(g.b, v.b, 16) == 0;
        for (int i = 0; i < 128 / fw; i++) {
            Out o;
            o.bits = v.get(fw, i);
            o.kind = k[i];
            if (!(fw == 32 ? matches<32>(o, g.get(32, i)) : matches<64>(o, g.get(64, i))))
                return false;
        }
        return true;
    }
    void flane(int w, int i, const Out &o)
    {
        fw = w;
        v.set(w, i, o.bits);
        k[i] = o.kind;
    }
};

struct SimdOp {
    unsigned op;
    const char *name;
};
static const SimdOp simd_ops[] = {
    {0x0e, "i8x16.swizzle"},
    {0x0f, "i8x16.splat"}, {0x10, "i16x8.splat"}, {0x11, "i32x4.splat"}, {0x12, "i64x2.splat"}, {0x13, "f32x4.splat"}, {0x14, "f64x2.splat"},
    {0x23, "i8x16.eq"}, {0x24, "i8x16.ne"}, {0x25, "i8x16.lt_s"}, {0x26, "i8x16.lt_u"}, {0x27, "i8x16.gt_s"}, {0x28, "i8x16.gt_u"},
    {0x29, "i8x16.le_s"}, {0x2a, "i8x16.le_u"}, {0x2b, "i8x16.ge_s"}, {0x2c, "i8x16.ge_u"},
    {0x2d, "i16x8.eq"}, {0x2e, "i16x8.ne"}, {0x2f, "i16x8.lt_s"}, {0x30, "i16x8.lt_u"}, {0x31, "i16x8.gt_s"}, {0x32, "i16x8.gt_u"},
    {0x33, "i16x8.le_s"}, {0x34, "i16x8.le_u"}, {0x35, "i16x8.ge_s"}, {0x36, "i16x8.ge_u"},
    {0x37, "i32x4.eq"}, {0x38, "i32x4.ne"}, {0x39, "i32x4.lt_s"}, {0x3a, "i32x4.lt_u"}, {0x3b, "i32x4.gt_s"}, {0x3c, "i32x4.gt_u"},
    {0x3d, "i32x4.le_s"}, {0x3e, "i32x4.le_u"}, {0x3f, "i32x4.ge_s"}, {0x40, "i32x4.ge_u"},
    {0xd6, "i64x2.eq"}, {0xd7, "i64x2.ne"}, {0xd8, "i64x2.lt_s"}, {0xd9, "i64x2.gt_s"}, {0xda, "i64x2.le_s"}, {0xdb, "i64x2.ge_s"},
    {0x41, "f32x4.eq"}, {0x42, "f32x4.ne"}, {0x43, "f32x4.lt"}, {0x44, "f32x4.gt"}, {0x45, "f32x4.le"}, {0x46, "f32x4.ge"},
    {0x47, "f64x2.eq"}, {0x48, "f64x2.ne"}, {0x49, "f64x2.lt"}, {0x4a, "f64x2.gt"}, {0x4b, "f64x2.le"}, {0x4c, "f64x2.ge"},
    {0x4d, "v128.not"}, {0x4e, "v128.and"}, {0x4f, "v128.andnot"}, {0x50, "v128.or"}, {0x51, "v128.xor"}, {0x52, "v128.bitselect"},
    {0x53, "v128.any_true"},
    {0x60, "i8x16.abs"}, {0x61, "i8x16.neg"}, {0x62, "i8x16.popcnt"}, {0x63, "i8x16.all_true"}, {0x64, "i8x16.bitmask"},
    {0x65, "i8x16.narrow_i16x8_s"}, {0x66, "i8x16.narrow_i16x8_u"}, {0x6b, "i8x16.shl"}, {0x6c, "i8x16.shr_s"}, {0x6d, "i8x16.shr_u"},
    {0x6e, "i8x16.add"}, {0x6f, "i8x16.add_sat_s"}, {0x70, "i8x16.add_sat_u"}, {0x71, "i8x16.sub"}, {0x72, "i8x16.sub_sat_s"},
    {0x73, "i8x16.sub_sat_u"}, {0x76, "i8x16.min_s"}, {0x77, "i8x16.min_u"}, {0x78, "i8x16.max_s"}, {0x79, "i8x16.max_u"}, {0x7b, "i8x16.avgr_u"},
    {0x7c, "i16x8.extadd_pairwise_i8x16_s"}, {0x7d, "i16x8.extadd_pairwise_i8x16_u"},
    {0x7e, "i32x4.extadd_pairwise_i16x8_s"}, {0x7f, "i32x4.extadd_pairwise_i16x8_u"},
    {0x80, "i16x8.abs"}, {0x81, "i16x8.neg"}, {0x82, "i16x8.q15mulr_sat_s"}, {0x83, "i16x8.all_true"}, {0x84, "i16x8.bitmask"},
    {0x85, "i16x8.narrow_i32x4_s"}, {0x86, "i16x8.narrow_i32x4_u"},
    {0x87, "i16x8.extend_low_i8x16_s"}, {0x88, "i16x8.extend_high_i8x16_s"}, {0x89, "i16x8.extend_low_i8x16_u"}, {0x8a, "i16x8.extend_high_i8x16_u"},
    {0x8b, "i16x8.shl"}, {0x8c, "i16x8.shr_s"}, {0x8d, "i16x8.shr_u"}, {0x8e, "i16x8.add"}, {0x8f, "i16x8.add_sat_s"}, {0x90, "i16x8.add_sat_u"},
    {0x91, "i16x8.sub"}, {0x92, "i16x8.sub_sat_s"}, {0x93, "i16x8.sub_sat_u"}, {0x95, "i16x8.mul"},
    {0x96, "i16x8.min_s"}, {0x97, "i16x8.min_u"}, {0x98, "i16x8.max_s"}, {0x99, "i16x8.max_u"}, {0x9b, "i16x8.avgr_u"},
    {0x9c, "i16x8.extmul_low_i8x16_s"}, {0x9d, "i16x8.extmul_high_i8x16_s"}, {0x9e, "i16x8.extmul_low_i8x16_u"}, {0x9f, "i16x8.extmul_high_i8x16_u"},
    {0xa0, "i32x4.abs"}, {0xa1, "i32x4.neg"}, {0xa3, "i32x4.all_true"}, {0xa4, "i32x4.bitmask"},
    {0xa7, "i32x4.extend_low_i16x8_s"}, {0xa8, "i32x4.extend_high_i16x8_s"}, {0xa9, "i32x4.extend_low_i16x8_u"}, {0xaa, "i32x4.extend_high_i16x8_u"},
    {0xab, "i32x4.shl"}, {0xac, "i32x4.shr_s"}, {0xad, "i32x4.shr_u"}, {0xae, "i32x4.add"}, {0xb1, "i32x4.sub"}, {0xb5, "i32x4.mul"},
    {0xb6, "i32x4.min_s"}, {0xb7, "i32x4.min_u"}, {0xb8, "i32x4.max_s"}, {0xb9, "i32x4.max_u"}, {0xba, "i32x4.dot_i16x8_s"},
    {0xbc, "i32x4.extmul_low_i16x8_s"}, {0xbd, "i32x4.extmul_high_i16x8_s"}, {0xbe, "i32x4.extmul_low_i16x8_u"}, {0xbf, "i32x4.extmul_high_i16x8_u"},
    {0xc0, "i64x2.abs"}, {0xc1, "i64x2.neg"}, {0xc3, "i64x2.all_true"}, {0xc4, "i64x2.bitmask"},
    {0xc7, "i64x2.extend_low_i32x4_s"}, {0xc8, "i64x2.extend_high_i32x4_s"}, {0xc9, "i64x2.extend_low_i32x4_u"}, {0xca, "i64x2.extend_high_i32x4_u"},
    {0xcb, "i64x2.shl"}, {0xcc, "i64x2.shr_s"}, {0xcd, "i64x2.shr_u"}, {0xce, "i64x2.add"}, {0xd1, "i64x2.sub"}, {0xd5, "i64x2.mul"},
    {0xdc, "i64x2.extmul_low_i32x4_s"}, {0xdd, "i64x2.extmul_high_i32x4_s"}, {0xde, "i64x2.extmul_low_i32x4_u"}, {0xdf, "i64x2.extmul_high_i32x4_u"},
    {0x67, "f32x4.ceil"}, {0x68, "f32x4.floor"}, {0x69, "f32x4.trunc"}, {0x6a, "f32x4.nearest"},
    {0x74, "f64x2.ceil"}, {0x75, "f64x2.floor"}, {0x7a, "f64x2.trunc"}, {0x94, "f64x2.nearest"},
    {0xe0, "f32x4.abs"}, {0xe1, "f32x4.neg"}, {0xe3, "f32x4.sqrt"}, {0xe4, "f32x4.add"}, {0xe5, "f32x4.sub"}, {0xe6, "f32x4.mul"},
    {0xe7, "f32x4.div"}, {0xe8, "f32x4.min"}, {0xe9, "f32x4.max"}, {0xea, "f32x4.pmin"}, {0xeb, "f32x4.pmax"},
    {0xec, "f64x2.abs"}, {0xed, "f64x2.neg"}, {0xef, "f64x2.sqrt"}, {0xf0, "f64x2.add"}, {0xf1, "f64x2.sub"}, {0xf2, "f64x2.mul"},
    {0xf3, "f64x2.div"}, {0xf4, "f64x2.min"}, {0xf5, "f64x2.max"}, {0xf6, "f64x2.pmin"}, {0xf7, "f64x2.pmax"},
    {0xf8, "i32x4.trunc_sat_f32x4_s"}, {0xf9, "i32x4.trunc_sat_f32x4_u"}, {0xfa, "f32x4.convert_i32x4_s"}, {0xfb, "f32x4.convert_i32x4_u"},
    {0xfc, "i32x4.trunc_sat_f64x2_s_zero"}, {0xfd, "i32x4.trunc_sat_f64x2_u_zero"},
    {0xfe, "f64x2.convert_low_i32x4_s"}, {0xff, "f64x2.convert_low_i32x4_u"},
    {0x5e, "f32x4.demote_f64x2_zero"}, {0x5f, "f64x2.promote_low_f32x4"},
};
static const size_t nsimd = sizeof(simd_ops) / sizeof(simd_ops[0]);

struct SimdFn {
    std::string p; /* operand kinds: v vector, i i32, l i64, f f32, d f64 */
    char r = 'v';  /* v, or i */
    int lw = 8;    /* lane width of the operands, for choosing the alphabet */
    bool fl = false; /* float operands */
    bool adjacent = false; /* result lanes combine adjacent operand lanes */
    bool whole = false; /* depends on all lanes at once */
    bool shift = false;
    std::function<VOut(const V &, const V &, const V &, uint64_t)> f; /* a, b, c, scalar */
};

static inline int shape_w(const std::string &s)
{
    return s == "i8x16" ? 8 : s == "i16x8" ? 16 : (s == "i32x4" || s == "f32x4") ? 32 : 64;
}
static inline uint64_t satu(int64_t v, int w) { return v < 0 ? 0 : v > (1ll << w) - 1 ? (1ull << w) - 1 : (uint64_t)v; }
static inline uint64_t sats(int64_t v, int w)
{
    int64_t lo = -(1ll << (w - 1)), hi = (1ll << (w - 1)) - 1;
    return (uint64_t)(v < lo ? lo : v > hi ? hi : v);
}

static inline SimdFn simd_fn(const char *cname)
{
    std::string n = cname;
    size_t dot = n.find('.');
    std::string sh = n.substr(0, dot), op = n.substr(dot + 1);
    SimdFn R;
    int w = shape_w(sh);
    int N = 128 / w;
    R.lw = w;
    R.fl = sh[0] == 'f';
    auto starts = [&](const char *p) { return op.rfind(p, 0) == 0; };
    bool u = op.size() > 2 && (op.find("_u") != std::string::npos);
    /* unary lane functions on integers */
    auto un = [&](std::function<uint64_t(uint64_t)> g) {
        R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++)
                o.v.set(w, i, g(a.get(w, i)));
            return o;
        };
    };
    auto bin = [&](std::function<uint64_t(uint64_t, uint64_t)> g) {
        R.p = "vv";
        R.f = [=](const V &a, const V &b, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++)
                o.v.set(w, i, g(a.get(w, i), b.get(w, i)));
            return o;
        };
    };
    auto funo = [&](std::function<Out(uint64_t)> g) {
        R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++)
                o.flane(w, i, g(a.get(w, i)));
            return o;
        };
    };
    auto fbin = [&](std::function<Out(uint64_t, uint64_t)> g) {
        R.p = "vv";
        R.f = [=](const V &a, const V &b, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++)
                o.flane(w, i, g(a.get(w, i), b.get(w, i)));
            return o;
        };
    };
    auto SX = [w](uint64_t v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
    uint64_t ones = ~0ull;
    if (sh == "v128") {
        if (op == "not") { R.p = "v"; R.f = [](const V &a, const V &, const V &, uint64_t) { VOut o; for (int i = 0; i < 16; i++) o.v.b[i] = (uint8_t)~a.b[i]; return o; }; R.lw = 8; }
        else if (op == "any_true") { R.p = "v"; R.r = 'i'; R.whole = true; R.lw = 8; R.f = [](const V &a, const V &, const V &, uint64_t) { VOut o; o.scalar = true; for (int i = 0; i < 16; i++) o.s |= a.b[i] != 0; return o; }; }
        else if (op == "bitselect") {
            R.p = "vvv"; R.lw = 8;
            R.f = [](const V &a, const V &b, const V &c, uint64_t) {
                VOut o;
                for (int i = 0; i < 16; i++)
                    for (int k = 0; k < 8; k++) {
                        int bit = (c.b[i] >> k & 1) ? (a.b[i] >> k & 1) : (b.b[i] >> k & 1);
                        o.v.b[i] |= (uint8_t)(bit << k);
                    }
                return o;
            };
        } else {
            int which = op == "and" ? 0 : op == "andnot" ? 1 : op == "or" ? 2 : 3;
            R.p = "vv"; R.lw = 8;
            R.f = [=](const V &a, const V &b, const V &, uint64_t) {
                VOut o;
                for (int i = 0; i < 16; i++)
                    o.v.b[i] = (uint8_t)(which == 0 ? a.b[i] & b.b[i] : which == 1 ? a.b[i] & ~b.b[i] : which == 2 ? a.b[i] | b.b[i] : a.b[i] ^ b.b[i]);
                return o;
            };
        }
        return R;
    }
    if (op == "swizzle") {
        R.p = "vv"; R.whole = true;
        R.f = [](const V &a, const V &b, const V &, uint64_t) { VOut o; for (int i = 0; i < 16; i++) o.v.b[i] = b.b[i] < 16 ? a.b[b.b[i]] : 0; return o; };
    } else if (op == "splat") {
        R.p = sh == "i64x2" ? "l" : sh == "f32x4" ? "f" : sh == "f64x2" ? "d" : "i";
        R.f = [=](const V &, const V &, const V &, uint64_t s) { VOut o; for (int i = 0; i < N; i++) o.v.set(w, i, s); return o; };
    } else if (op == "all_true") {
        R.p = "v"; R.r = 'i'; R.whole = true;
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; o.scalar = true; o.s = 1; for (int i = 0; i < N; i++) if (a.get(w, i) == 0) o.s = 0; return o; };
    } else if (op == "bitmask") {
        R.p = "v"; R.r = 'i'; R.whole = true;
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; o.scalar = true; for (int i = 0; i < N; i++) o.s |= (a.get(w, i) >> (w - 1) & 1) << i; return o; };
    } else if (op == "shl" || op == "shr_s" || op == "shr_u") {
        R.p = "vi"; R.shift = true;
        int which = op == "shl" ? 0 : op == "shr_s" ? 1 : 2;
        R.f = [=](const V &a, const V &, const V &, uint64_t s) {
            VOut o;
            unsigned k = (unsigned)(s % (unsigned)w);
            for (int i = 0; i < N; i++)
                o.v.set(w, i, which == 0 ? a.get(w, i) << k : which == 1 ? (uint64_t)(a.sget(w, i) >> k) : a.get(w, i) >> k);
            return o;
        };
    } else if (!R.fl && (op == "eq" || op == "ne" || starts("lt_") || starts("gt_") || starts("le_") || starts("ge_"))) {
        int code = op == "eq" ? 0 : op == "ne" ? 1 : op == "lt_s" ? 2 : op == "lt_u" ? 3 : op == "gt_s" ? 4 : op == "gt_u" ? 5 : op == "le_s" ? 6 : op == "le_u" ? 7 : op == "ge_s" ? 8 : 9;
        bin([=](uint64_t a, uint64_t b) {
            bool r = w == 8 ? icmp<8>(code, a, b) : w == 16 ? icmp<16>(code, a, b) : w == 32 ? icmp<32>(code, a, b) : icmp<64>(code, a, b);
            return r ? ones : 0;
        });
    } else if (R.fl && (op == "eq" || op == "ne" || op == "lt" || op == "gt" || op == "le" || op == "ge")) {
        int code = op == "eq" ? 0 : op == "ne" ? 1 : op == "lt" ? 2 : op == "gt" ? 3 : op == "le" ? 4 : 5;
        bin([=](uint64_t a, uint64_t b) { return (w == 32 ? fcmp<32>(code, a, b) : fcmp<64>(code, a, b)) ? ones : 0; });
    } else if (!R.fl && op == "abs") {
        un([=](uint64_t a) { return SX(a) < 0 ? 0 - a : a; });
    } else if (!R.fl && op == "neg") {
        un([=](uint64_t a) { return 0 - a; });
    } else if (op == "popcnt") {
        un([=](uint64_t a) { return (uint64_t)pop_(a, 8); });
    } else if (!R.fl && op == "add") {
        bin([](uint64_t a, uint64_t b) { return a + b; });
    } else if (!R.fl && op == "sub") {
        bin([](uint64_t a, uint64_t b) { return a - b; });
    } else if (!R.fl && op == "mul") {
        bin([](uint64_t a, uint64_t b) { return a * b; });
    } else if (op == "add_sat_s") {
        bin([=](uint64_t a, uint64_t b) { return sats(SX(a) + SX(b), w); });
    } else if (op == "add_sat_u") {
        bin([=](uint64_t a, uint64_t b) { return satu((int64_t)(a + b), w); });
    } else if (op == "sub_sat_s") {
        bin([=](uint64_t a, uint64_t b) { return sats(SX(a) - SX(b), w); });
    } else if (op == "sub_sat_u") {
        bin([=](uint64_t a, uint64_t b) { return satu((int64_t)a - (int64_t)b, w); });
    } else if (op == "min_s") {
        bin([=](uint64_t a, uint64_t b) { return SX(a) < SX(b) ? a : b; });
    } else if (op == "max_s") {
        bin([=](uint64_t a, uint64_t b) { return SX(a) > SX(b) ? a : b; });
    } else if (op == "min_u") {
        bin([](uint64_t a, uint64_t b) { return a < b ? a : b; });
    } else if (op == "max_u") {
        bin([](uint64_t a, uint64_t b) { return a > b ? a : b; });
    } else if (op == "avgr_u") {
        bin([](uint64_t a, uint64_t b) { return (a + b + 1) / 2; });
    } else if (op == "q15mulr_sat_s") {
        bin([=](uint64_t a, uint64_t b) { return sats((SX(a) * SX(b) + 0x4000) >> 15, 16); });
    } else if (starts("narrow_")) {
        int sw = w * 2;
        R.p = "vv"; R.lw = sw;
        R.f = [=](const V &a, const V &b, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++) {
                int64_t x = i < N / 2 ? a.sget(sw, i) : b.sget(sw, i - N / 2);
                o.v.set(w, i, u ? satu(x, w) : sats(x, w));
            }
            return o;
        };
    } else if (starts("extend_") || starts("extmul_")) {
        bool high = op.find("_high_") != std::string::npos;
        bool mul = starts("extmul_");
        int sw = w / 2;
        R.p = mul ? "vv" : "v";
        R.lw = sw;
        R.f = [=](const V &a, const V &b, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++) {
                int j = i + (high ? N : 0);
                uint64_t x = u ? a.get(sw, j) : (uint64_t)a.sget(sw, j);
                uint64_t y = u ? b.get(sw, j) : (uint64_t)b.sget(sw, j);
                o.v.set(w, i, mul ? x * y : x);
            }
            return o;
        };
    } else if (starts("extadd_pairwise_")) {
        int sw = w / 2;
        R.p = "v"; R.lw = sw; R.adjacent = true;
        R.f = [=](const V &a, const V &, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < N; i++)
                o.v.set(w, i, u ? a.get(sw, 2 * i) + a.get(sw, 2 * i + 1) : (uint64_t)(a.sget(sw, 2 * i) + a.sget(sw, 2 * i + 1)));
            return o;
        };
    } else if (op == "dot_i16x8_s") {
        R.p = "vv"; R.lw = 16; R.adjacent = true;
        R.f = [=](const V &a, const V &b, const V &, uint64_t) {
            VOut o;
            for (int i = 0; i < 4; i++)
                o.v.set(32, i, (uint64_t)(a.sget(16, 2 * i) * b.sget(16, 2 * i) + a.sget(16, 2 * i + 1) * b.sget(16, 2 * i + 1)));
            return o;
        };
    } else if (op == "ceil" || op == "floor" || op == "trunc" || op == "nearest") {
        int m = op == "ceil" ? 0 : op == "floor" ? 1 : op == "trunc" ? 2 : 3;
        funo([=](uint64_t a) { return w == 32 ? fround<32>(m, a) : fround<64>(m, a); });
    } else if (op == "abs") {
        un([=](uint64_t a) { return a & ~(1ull << (w - 1)); });
    } else if (op == "neg") {
        un([=](uint64_t a) { return a ^ (1ull << (w - 1)); });
    } else if (op == "sqrt") {
        funo([=](uint64_t a) { return w == 32 ? farith<32>(4, a, 0) : farith<64>(4, a, 0); });
    } else if (op == "add" || op == "sub" || op == "mul" || op == "div") {
        int m = op == "add" ? 0 : op == "sub" ? 1 : op == "mul" ? 2 : 3;
        fbin([=](uint64_t a, uint64_t b) { return w == 32 ? farith<32>(m, a, b) : farith<64>(m, a, b); });
    } else if (op == "min" || op == "max") {
        bool mx = op == "max";
        fbin([=](uint64_t a, uint64_t b) { return w == 32 ? fminmax<32>(mx, a, b) : fminmax<64>(mx, a, b); });
    } else if (op == "pmin") {
        bin([=](uint64_t a, uint64_t b) { return (w == 32 ? fcmp<32>(2, b, a) : fcmp<64>(2, b, a)) ? b : a; });
    } else if (op == "pmax") {
        bin([=](uint64_t a, uint64_t b) { return (w == 32 ? fcmp<32>(2, a, b) : fcmp<64>(2, a, b)) ? b : a; });
    } else if (starts("trunc_sat_f32x4")) {
        R.fl = true;
        un([=](uint64_t a) { return ftoi<32>(a, 32, !u, true).bits; });
    } else if (starts("trunc_sat_f64x2")) {
        R.fl = true; R.lw = 64; R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; for (int i = 0; i < 2; i++) o.v.set(32, i, ftoi<64>(a.get(64, i), 32, !u, true).bits); return o; };
    } else if (starts("convert_i32x4")) {
        R.fl = false;
        un([=](uint64_t a) { return u ? itof<32>((__int128)a) : itof<32>(sx<32>(a)); });
    } else if (starts("convert_low_i32x4")) {
        R.fl = false; R.lw = 32; R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; for (int i = 0; i < 2; i++) o.v.set(64, i, u ? itof<64>((__int128)a.get(32, i)) : itof<64>(sx<32>(a.get(32, i)))); return o; };
    } else if (op == "demote_f64x2_zero") {
        R.fl = true; R.lw = 64; R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; o.fw = 32; for (int i = 0; i < 2; i++) o.flane(32, i, demote(a.get(64, i))); return o; };
    } else if (op == "promote_low_f32x4") {
        R.fl = true; R.lw = 32; R.p = "v";
        R.f = [=](const V &a, const V &, const V &, uint64_t) { VOut o; for (int i = 0; i < 2; i++) o.flane(64, i, promote(a.get(32, i))); return o; };
    } else {
        fprintf(stderr, "no reference for %s\n", cname);
        abort();
    }
    return R;
}

static inline std::vector<uint64_t> lane_alpha(int w, bool fl, int level)
{
    if (fl)
        return w == 32 ? falpha<32>(level) : falpha<64>(level);
    if (w == 8) {
        std::vector<uint64_t> v;
        for (int i = 0; i < 256; i++)
            v.push_back((uint64_t)i);
        return v;
    }
    if (w == 16) {
        auto v = ialpha(16, 2);
        return v;
    }
    return ialpha(w, level);
}
} // namespace ref
#endif
