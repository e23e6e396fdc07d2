/*
 * Reference semantics of the scalar numeric instructions, written from the
 * WebAssembly core specification, on raw bit patterns.
 * Floating point goes through wider formats (f32 via double, f64 via
 * __float128), where the final rounding is provably innocuous.
 */
#ifndef VERIF_REFNUM_HPP
#define VERIF_REFNUM_HPP
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include "tw.h"

namespace ref {

enum Kind { EXACT, NAN_CANON, NAN_ARITH };
struct Out {
    uint64_t bits = 0;
    Kind kind = EXACT;
    int trap = TWT_NONE;
    static Out v(uint64_t b) { Out o; o.bits = b; return o; }
    static Out t(int trap) { Out o; o.trap = trap; return o; }
};

/* ---- IEEE helpers on bits ---- */
template <int W> struct F;
template <> struct F<32> {
    typedef uint32_t U;
    static const int MB = 23, EB = 8;
};
template <> struct F<64> {
    typedef uint64_t U;
    static const int MB = 52, EB = 11;
};
template <int W> static inline uint64_t fmask() { return W == 64 ? ~0ull : 0xffffffffull; }
template <int W> static inline uint64_t fexpmask() { return ((1ull << F<W>::EB) - 1) << F<W>::MB; }
template <int W> static inline uint64_t fmant() { return (1ull << F<W>::MB) - 1; }
template <int W> static inline uint64_t fsign() { return 1ull << (W - 1); }
template <int W> static inline bool isnan_(uint64_t b)
{
    return (b & fexpmask<W>()) == fexpmask<W>() && (b & fmant<W>()) != 0;
}
template <int W> static inline bool isinf_(uint64_t b)
{
    return (b & ~fsign<W>() & fmask<W>()) == fexpmask<W>();
}
template <int W> static inline bool iszero_(uint64_t b)
{
    return (b & ~fsign<W>() & fmask<W>()) == 0;
}
template <int W> static inline uint64_t canon() { return fexpmask<W>() | (1ull << (F<W>::MB - 1)); }
template <int W> static inline bool iscanon(uint64_t b)
{
    return (b & ~fsign<W>() & fmask<W>()) == canon<W>();
}
template <int W> static inline bool isarith(uint64_t b)
{
    return isnan_<W>(b) && (b & (1ull << (F<W>::MB - 1)));
}
static inline float b2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline uint32_t f2b(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline double b2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint64_t d2b(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }

/* the NaN a numeric operator may return for the given operands */
template <int W> static inline Out nans(uint64_t a)
{
    Out o;
    o.bits = canon<W>();
    o.kind = (!isnan_<W>(a) || iscanon<W>(a)) ? NAN_CANON : NAN_ARITH;
    return o;
}
template <int W> static inline Out nans(uint64_t a, uint64_t b)
{
    Out o;
    o.bits = canon<W>();
    bool ca = !isnan_<W>(a) || iscanon<W>(a);
    bool cb = !isnan_<W>(b) || iscanon<W>(b);
    o.kind = ca && cb ? NAN_CANON : NAN_ARITH;
    return o;
}
template <int W> static inline bool matches(const Out &o, uint64_t got)
{
    got &= fmask<W>();
    switch (o.kind) {
    case EXACT: return got == (o.bits & fmask<W>());
    case NAN_CANON: return iscanon<W>(got);
    case NAN_ARITH: return isarith<W>(got);
    }
    return false;
}

/* arithmetic, exactly rounded */
template <int W> static inline Out farith(int op, uint64_t a, uint64_t b)
{
    if (isnan_<W>(a) || (op != 4 && isnan_<W>(b)))
        return op == 4 ? nans<W>(a) : nans<W>(a, b);
    uint64_t r;
    if (W == 32) {
        double x = b2f((uint32_t)a), y = b2f((uint32_t)b), z = 0;
        switch (op) {
        case 0: z = x + y; break;
        case 1: z = x - y; break;
        case 2: z = x * y; break;
        case 3: z = x / y; break;
        case 4: z = std::sqrt(x); break;
        }
        r = f2b((float)z);
    } else {
        __float128 x = b2d(a), y = b2d(b), z = 0;
        switch (op) {
        case 0: z = x + y; break;
        case 1: z = x - y; break;
        case 2: z = x * y; break;
        case 3: z = x / y; break;
        case 4: {
            if (iszero_<64>(a)) { z = x; break; }
            if (a >> 63) return nans<64>(0);
            if (isinf_<64>(a)) { z = x; break; }
            /* Newton in binary128 from the double estimate */
            __float128 s = std::sqrt(b2d(a));
            for (int i = 0; i < 3; i++)
                s = (s + x / s) / 2;
            z = s;
            break;
        }
        }
        r = d2b((double)z);
    }
    if (isnan_<W>(r))
        return op == 4 ? nans<W>(a) : nans<W>(a, b);
    return Out::v(r);
}

/* integer rounding on bits: 0 ceil 1 floor 2 trunc 3 nearest-even */
template <int W> static inline uint64_t roundbits(int mode, uint64_t b)
{
    const int MB = F<W>::MB;
    const int bias = (1 << (F<W>::EB - 1)) - 1;
    uint64_t s = b & fsign<W>();
    uint64_t mag = b & ~fsign<W>() & fmask<W>();
    int e = (int)(mag >> MB) - bias;
    if (e >= MB)
        return b; /* already an integer, or inf */
    if (mag == 0)
        return b;
    uint64_t one = (uint64_t)bias << MB;
    if (e < 0) {
        /* 0 < |x| < 1 */
        bool up;
        uint64_t half = (uint64_t)(bias - 1) << MB;
        switch (mode) {
        case 0: up = !s; break;
        case 1: up = s != 0; break;
        case 2: up = false; break;
        default: up = mag > half; break;
        }
        return s | (up ? one : 0);
    }
    int fb = MB - e; /* fraction bits, 1..MB */
    uint64_t fm = (1ull << fb) - 1;
    uint64_t frac = mag & fm;
    uint64_t base = mag & ~fm;
    if (frac == 0)
        return b;
    bool up;
    uint64_t half = 1ull << (fb - 1);
    switch (mode) {
    case 0: up = !s; break;
    case 1: up = s != 0; break;
    case 2: up = false; break;
    default:
        if (frac != half) {
            up = frac > half;
        } else {
            /* tie: to even; the integer's low bit */
            if (fb == MB) /* e == 0: value in [1,2), integer part is 1 */
                up = true;
            else
                up = (base >> fb) & 1;
        }
    }
    return s | (up ? base + (1ull << fb) : base);
}
template <int W> static inline Out fround(int mode, uint64_t a)
{
    if (isnan_<W>(a))
        return nans<W>(a);
    return Out::v(roundbits<W>(mode, a));
}

/* total order key for non-NaN: -0 and +0 differ */
template <int W> static inline int64_t okey(uint64_t b)
{
    uint64_t mag = b & ~fsign<W>() & fmask<W>();
    return (b & fsign<W>()) ? -(int64_t)mag - 1 : (int64_t)mag;
}
template <int W> static inline Out fminmax(bool mx, uint64_t a, uint64_t b)
{
    if (isnan_<W>(a) || isnan_<W>(b))
        return nans<W>(a, b);
    int64_t x = okey<W>(a), y = okey<W>(b);
    return Out::v(mx ? (x > y ? a : b) : (x < y ? a : b));
}
/* comparison: eq ne lt gt le ge = 0..5 */
template <int W> static inline bool fcmp(int op, uint64_t a, uint64_t b)
{
    if (isnan_<W>(a) || isnan_<W>(b))
        return op == 1;
    int64_t x = okey<W>(a), y = okey<W>(b);
    if (iszero_<W>(a)) x = 0;
    if (iszero_<W>(b)) y = 0;
    switch (op) {
    case 0: return x == y;
    case 1: return x != y;
    case 2: return x < y;
    case 3: return x > y;
    case 4: return x <= y;
    default: return x >= y;
    }
}

/*
 * truncation of a float to an integer; result as __int128 magnitude.
 * cls: 0 finite, 1 nan, 2 +inf/too large, 3 -inf/too small (beyond 2^70)
 */
template <int W> static inline int ftrunc_int(uint64_t b, __int128 &out)
{
    if (isnan_<W>(b))
        return 1;
    bool neg = b & fsign<W>();
    if (isinf_<W>(b))
        return neg ? 3 : 2;
    const int MB = F<W>::MB;
    const int bias = (1 << (F<W>::EB - 1)) - 1;
    uint64_t mag = b & ~fsign<W>() & fmask<W>();
    int e = (int)(mag >> MB) - bias;
    if (e < 0) {
        out = 0;
        return 0;
    }
    if (e > 70)
        return neg ? 3 : 2;
    unsigned __int128 m = (mag & fmant<W>()) | (1ull << MB);
    if (e >= MB)
        m <<= (e - MB);
    else
        m >>= (MB - e);
    out = neg ? -(__int128)m : (__int128)m;
    return 0;
}
template <int W> static inline Out ftoi(uint64_t b, int ibits, bool sgn, bool sat)
{
    __int128 lo = sgn ? -((__int128)1 << (ibits - 1)) : 0;
    __int128 hi = sgn ? ((__int128)1 << (ibits - 1)) - 1 : ((__int128)1 << ibits) - 1;
    __int128 v = 0;
    uint64_t mask = ibits == 64 ? ~0ull : (1ull << ibits) - 1;
    int cls = ftrunc_int<W>(b, v);
    if (cls == 1)
        return sat ? Out::v(0) : Out::t(TWT_INVCONV);
    bool over = cls == 2 || (cls == 0 && v > hi);
    bool under = cls == 3 || (cls == 0 && v < lo);
    if (over)
        return sat ? Out::v((uint64_t)hi & mask) : Out::t(TWT_INTOVF);
    if (under)
        return sat ? Out::v((uint64_t)lo & mask) : Out::t(TWT_INTOVF);
    return Out::v((uint64_t)v & mask);
}
/* integer (as __int128 value) to float, round to nearest even, on bits */
template <int W> static inline uint64_t itof(__int128 v)
{
    if (v == 0)
        return 0;
    uint64_t s = 0;
    unsigned __int128 m;
    if (v < 0) {
        s = fsign<W>();
        m = (unsigned __int128)(-v);
    } else
        m = (unsigned __int128)v;
    int e = 127;
    while (!((m >> e) & 1))
        e--;
    const int MB = F<W>::MB;
    const int bias = (1 << (F<W>::EB - 1)) - 1;
    uint64_t mant;
    if (e <= MB) {
        mant = (uint64_t)(m << (MB - e));
    } else {
        int sh = e - MB;
        mant = (uint64_t)(m >> sh);
        unsigned __int128 rem = m & (((unsigned __int128)1 << sh) - 1);
        unsigned __int128 half = (unsigned __int128)1 << (sh - 1);
        if (rem > half || (rem == half && (mant & 1)))
            mant++;
        if (mant >> (MB + 1)) {
            mant >>= 1;
            e++;
        }
    }
    return s | ((uint64_t)(e + bias) << MB) | (mant & fmant<W>());
}

static inline Out demote(uint64_t b)
{
    if (isnan_<64>(b)) {
        Out o;
        o.bits = canon<32>();
        o.kind = iscanon<64>(b) ? NAN_CANON : NAN_ARITH;
        return o;
    }
    uint64_t s = (b >> 63) << 31;
    uint64_t mag = b & ~fsign<64>();
    if (mag == 0)
        return Out::v(s);
    if (isinf_<64>(b))
        return Out::v(s | fexpmask<32>());
    int e = (int)(mag >> 52) - 1023;
    uint64_t m = mag & fmant<64>();
    if ((mag >> 52) == 0)
        e = -1022; /* subnormal double: far below f32's smallest */
    else
        m |= 1ull << 52;
    /* value = m * 2^(e-52); want units of 2^max(e-23, -149) */
    int unit = e - 23;
    if (unit < -149)
        unit = -149;
    int sh = unit - (e - 52);
    uint64_t q, rem, half;
    if (sh > 62)
        q = 0, rem = 1, half = 2;
    else {
        q = m >> sh;
        rem = m & ((1ull << sh) - 1);
        half = 1ull << (sh - 1);
    }
    if (rem > half || (rem == half && (q & 1)))
        q++;
    /* compose: q * 2^unit */
    if (q == 0)
        return Out::v(s);
    while (q >> 24) {
        q >>= 1;
        unit++;
    }
    uint64_t r;
    if (q < (1ull << 23)) {
        r = q; /* subnormal */
    } else {
        int ee = unit + 23;
        if (ee > 127)
            return Out::v(s | fexpmask<32>());
        r = ((uint64_t)(ee + 127) << 23) | (q & fmant<32>());
    }
    return Out::v(s | r);
}
static inline Out promote(uint64_t b)
{
    if (isnan_<32>(b)) {
        Out o;
        o.bits = canon<64>();
        o.kind = iscanon<32>(b) ? NAN_CANON : NAN_ARITH;
        return o;
    }
    uint64_t s = (b >> 31 & 1) << 63;
    uint64_t mag = b & 0x7fffffff;
    if (mag == 0)
        return Out::v(s);
    if (mag == fexpmask<32>())
        return Out::v(s | fexpmask<64>());
    int e = (int)(mag >> 23) - 127;
    uint64_t m = mag & fmant<32>();
    if ((mag >> 23) == 0) {
        e = -126;
        while (!(m & (1 << 23))) {
            m <<= 1;
            e--;
        }
        m &= fmant<32>();
    }
    return Out::v(s | ((uint64_t)(e + 1023) << 52) | (m << 29));
}

template <int W> static inline int64_t sx(uint64_t v)
{
    return (int64_t)(v << (64 - W)) >> (64 - W);
}
template <int W> static inline Out ibin(int op, uint64_t a, uint64_t b)
{
    /* add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr */
    const uint64_t M = W == 64 ? ~0ull : (1ull << W) - 1;
    a &= M;
    b &= M;
    __int128 sa = sx<W>(a), sb = sx<W>(b);
    unsigned k = (unsigned)(b % W);
    unsigned __int128 r = 0;
    switch (op) {
    case 0: r = (unsigned __int128)a + b; break;
    case 1: r = (unsigned __int128)a + (M - b) + 1; break;
    case 2: r = (unsigned __int128)a * b; break;
    case 3:
        if (b == 0) return Out::t(TWT_DIV0);
        if (sb == -1 && sa == -((__int128)1 << (W - 1))) return Out::t(TWT_INTOVF);
        {
            unsigned __int128 x = sa < 0 ? (unsigned __int128)-sa : (unsigned __int128)sa;
            unsigned __int128 y = sb < 0 ? (unsigned __int128)-sb : (unsigned __int128)sb;
            __int128 q = (__int128)(x / y);
            r = (unsigned __int128)(((sa < 0) != (sb < 0)) ? -q : q);
        }
        break;
    case 4:
        if (b == 0) return Out::t(TWT_DIV0);
        r = a / b;
        break;
    case 5:
        if (b == 0) return Out::t(TWT_DIV0);
        {
            unsigned __int128 x = sa < 0 ? (unsigned __int128)-sa : (unsigned __int128)sa;
            unsigned __int128 y = sb < 0 ? (unsigned __int128)-sb : (unsigned __int128)sb;
            __int128 q = (__int128)(x % y);
            r = (unsigned __int128)(sa < 0 ? -q : q);
        }
        break;
    case 6:
        if (b == 0) return Out::t(TWT_DIV0);
        r = a - (a / b) * b;
        break;
    case 7: r = a & b; break;
    case 8: r = a | b; break;
    case 9: r = a ^ b; break;
    case 10: r = (unsigned __int128)a << k; break;
    case 11: r = (unsigned __int128)(sa >> k); break;
    case 12: r = a >> k; break;
    case 13: r = ((unsigned __int128)a << k) | (a >> (W - k) % 128 * (k != 0)); if (k == 0) r = a; break;
    case 14: r = ((unsigned __int128)a << (W - k)) | (a >> k); if (k == 0) r = a; break;
    }
    return Out::v((uint64_t)r & M);
}
template <int W> static inline bool icmp(int op, uint64_t a, uint64_t b)
{
    /* eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u */
    const uint64_t M = W == 64 ? ~0ull : (1ull << W) - 1;
    a &= M;
    b &= M;
    int64_t x = sx<W>(a), y = sx<W>(b);
    switch (op) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return x < y;
    case 3: return a < b;
    case 4: return x > y;
    case 5: return a > b;
    case 6: return x <= y;
    case 7: return a <= b;
    case 8: return x >= y;
    default: return a >= b;
    }
}
static inline unsigned clz_(uint64_t v, int w)
{
    unsigned n = 0;
    for (int i = w - 1; i >= 0 && !((v >> i) & 1); i--)
        n++;
    return n;
}
static inline unsigned ctz_(uint64_t v, int w)
{
    unsigned n = 0;
    for (int i = 0; i < w && !((v >> i) & 1); i++)
        n++;
    return n;
}
static inline unsigned pop_(uint64_t v, int w)
{
    unsigned n = 0;
    for (int i = 0; i < w; i++)
        n += (v >> i) & 1;
    return n;
}

/* opcode table ----------------------------------------------------------- */
struct OpInfo {
    unsigned op;      /* 0x45..0xc4, or 0xfc00 + sub */
    const char *name;
    uint8_t p[2];
    int np;
    uint8_t r;
};
#define I T_I32
#define L T_I64
#define S T_F32
#define D T_F64
static const OpInfo ops[] = {
    {0x45, "i32.eqz", {I}, 1, I}, {0x46, "i32.eq", {I, I}, 2, I}, {0x47, "i32.ne", {I, I}, 2, I},
    {0x48, "i32.lt_s", {I, I}, 2, I}, {0x49, "i32.lt_u", {I, I}, 2, I}, {0x4a, "i32.gt_s", {I, I}, 2, I},
    {0x4b, "i32.gt_u", {I, I}, 2, I}, {0x4c, "i32.le_s", {I, I}, 2, I}, {0x4d, "i32.le_u", {I, I}, 2, I},
    {0x4e, "i32.ge_s", {I, I}, 2, I}, {0x4f, "i32.ge_u", {I, I}, 2, I},
    {0x50, "i64.eqz", {L}, 1, I}, {0x51, "i64.eq", {L, L}, 2, I}, {0x52, "i64.ne", {L, L}, 2, I},
    {0x53, "i64.lt_s", {L, L}, 2, I}, {0x54, "i64.lt_u", {L, L}, 2, I}, {0x55, "i64.gt_s", {L, L}, 2, I},
    {0x56, "i64.gt_u", {L, L}, 2, I}, {0x57, "i64.le_s", {L, L}, 2, I}, {0x58, "i64.le_u", {L, L}, 2, I},
    {0x59, "i64.ge_s", {L, L}, 2, I}, {0x5a, "i64.ge_u", {L, L}, 2, I},
    {0x5b, "f32.eq", {S, S}, 2, I}, {0x5c, "f32.ne", {S, S}, 2, I}, {0x5d, "f32.lt", {S, S}, 2, I},
    {0x5e, "f32.gt", {S, S}, 2, I}, {0x5f, "f32.le", {S, S}, 2, I}, {0x60, "f32.ge", {S, S}, 2, I},
    {0x61, "f64.eq", {D, D}, 2, I}, {0x62, "f64.ne", {D, D}, 2, I}, {0x63, "f64.lt", {D, D}, 2, I},
    {0x64, "f64.gt", {D, D}, 2, I}, {0x65, "f64.le", {D, D}, 2, I}, {0x66, "f64.ge", {D, D}, 2, I},
    {0x67, "i32.clz", {I}, 1, I}, {0x68, "i32.ctz", {I}, 1, I}, {0x69, "i32.popcnt", {I}, 1, I},
    {0x6a, "i32.add", {I, I}, 2, I}, {0x6b, "i32.sub", {I, I}, 2, I}, {0x6c, "i32.mul", {I, I}, 2, I},
    {0x6d, "i32.div_s", {I, I}, 2, I}, {0x6e, "i32.div_u", {I, I}, 2, I}, {0x6f, "i32.rem_s", {I, I}, 2, I},
    {0x70, "i32.rem_u", {I, I}, 2, I}, {0x71, "i32.and", {I, I}, 2, I}, {0x72, "i32.or", {I, I}, 2, I},
    {0x73, "i32.xor", {I, I}, 2, I}, {0x74, "i32.shl", {I, I}, 2, I}, {0x75, "i32.shr_s", {I, I}, 2, I},
    {0x76, "i32.shr_u", {I, I}, 2, I}, {0x77, "i32.rotl", {I, I}, 2, I}, {0x78, "i32.rotr", {I, I}, 2, I},
    {0x79, "i64.clz", {L}, 1, L}, {0x7a, "i64.ctz", {L}, 1, L}, {0x7b, "i64.popcnt", {L}, 1, L},
    {0x7c, "i64.add", {L, L}, 2, L}, {0x7d, "i64.sub", {L, L}, 2, L}, {0x7e, "i64.mul", {L, L}, 2, L},
    {0x7f, "i64.div_s", {L, L}, 2, L}, {0x80, "i64.div_u", {L, L}, 2, L}, {0x81, "i64.rem_s", {L, L}, 2, L},
    {0x82, "i64.rem_u", {L, L}, 2, L}, {0x83, "i64.and", {L, L}, 2, L}, {0x84, "i64.or", {L, L}, 2, L},
    {0x85, "i64.xor", {L, L}, 2, L}, {0x86, "i64.shl", {L, L}, 2, L}, {0x87, "i64.shr_s", {L, L}, 2, L},
    {0x88, "i64.shr_u", {L, L}, 2, L}, {0x89, "i64.rotl", {L, L}, 2, L}, {0x8a, "i64.rotr", {L, L}, 2, L},
    {0x8b, "f32.abs", {S}, 1, S}, {0x8c, "f32.neg", {S}, 1, S}, {0x8d, "f32.ceil", {S}, 1, S},
    {0x8e, "f32.floor", {S}, 1, S}, {0x8f, "f32.trunc", {S}, 1, S}, {0x90, "f32.nearest", {S}, 1, S},
    {0x91, "f32.sqrt", {S}, 1, S}, {0x92, "f32.add", {S, S}, 2, S}, {0x93, "f32.sub", {S, S}, 2, S},
    {0x94, "f32.mul", {S, S}, 2, S}, {0x95, "f32.div", {S, S}, 2, S}, {0x96, "f32.min", {S, S}, 2, S},
    {0x97, "f32.max", {S, S}, 2, S}, {0x98, "f32.copysign", {S, S}, 2, S},
    {0x99, "f64.abs", {D}, 1, D}, {0x9a, "f64.neg", {D}, 1, D}, {0x9b, "f64.ceil", {D}, 1, D},
    {0x9c, "f64.floor", {D}, 1, D}, {0x9d, "f64.trunc", {D}, 1, D}, {0x9e, "f64.nearest", {D}, 1, D},
    {0x9f, "f64.sqrt", {D}, 1, D}, {0xa0, "f64.add", {D, D}, 2, D}, {0xa1, "f64.sub", {D, D}, 2, D},
    {0xa2, "f64.mul", {D, D}, 2, D}, {0xa3, "f64.div", {D, D}, 2, D}, {0xa4, "f64.min", {D, D}, 2, D},
    {0xa5, "f64.max", {D, D}, 2, D}, {0xa6, "f64.copysign", {D, D}, 2, D},
    {0xa7, "i32.wrap_i64", {L}, 1, I},
    {0xa8, "i32.trunc_f32_s", {S}, 1, I}, {0xa9, "i32.trunc_f32_u", {S}, 1, I},
    {0xaa, "i32.trunc_f64_s", {D}, 1, I}, {0xab, "i32.trunc_f64_u", {D}, 1, I},
    {0xac, "i64.extend_i32_s", {I}, 1, L}, {0xad, "i64.extend_i32_u", {I}, 1, L},
    {0xae, "i64.trunc_f32_s", {S}, 1, L}, {0xaf, "i64.trunc_f32_u", {S}, 1, L},
    {0xb0, "i64.trunc_f64_s", {D}, 1, L}, {0xb1, "i64.trunc_f64_u", {D}, 1, L},
    {0xb2, "f32.convert_i32_s", {I}, 1, S}, {0xb3, "f32.convert_i32_u", {I}, 1, S},
    {0xb4, "f32.convert_i64_s", {L}, 1, S}, {0xb5, "f32.convert_i64_u", {L}, 1, S},
    {0xb6, "f32.demote_f64", {D}, 1, S},
    {0xb7, "f64.convert_i32_s", {I}, 1, D}, {0xb8, "f64.convert_i32_u", {I}, 1, D},
    {0xb9, "f64.convert_i64_s", {L}, 1, D}, {0xba, "f64.convert_i64_u", {L}, 1, D},
    {0xbb, "f64.promote_f32", {S}, 1, D},
    {0xbc, "i32.reinterpret_f32", {S}, 1, I}, {0xbd, "i64.reinterpret_f64", {D}, 1, L},
    {0xbe, "f32.reinterpret_i32", {I}, 1, S}, {0xbf, "f64.reinterpret_i64", {L}, 1, D},
    {0xc0, "i32.extend8_s", {I}, 1, I}, {0xc1, "i32.extend16_s", {I}, 1, I},
    {0xc2, "i64.extend8_s", {L}, 1, L}, {0xc3, "i64.extend16_s", {L}, 1, L}, {0xc4, "i64.extend32_s", {L}, 1, L},
    {0xfc00, "i32.trunc_sat_f32_s", {S}, 1, I}, {0xfc01, "i32.trunc_sat_f32_u", {S}, 1, I},
    {0xfc02, "i32.trunc_sat_f64_s", {D}, 1, I}, {0xfc03, "i32.trunc_sat_f64_u", {D}, 1, I},
    {0xfc04, "i64.trunc_sat_f32_s", {S}, 1, L}, {0xfc05, "i64.trunc_sat_f32_u", {S}, 1, L},
    {0xfc06, "i64.trunc_sat_f64_s", {D}, 1, L}, {0xfc07, "i64.trunc_sat_f64_u", {D}, 1, L},
};
#undef I
#undef L
#undef S
#undef D
static const size_t nops = sizeof(ops) / sizeof(ops[0]);

static inline const OpInfo *find_op(unsigned op)
{
    for (auto &o : ops)
        if (o.op == op)
            return &o;
    return nullptr;
}

static inline Out num(unsigned op, uint64_t a, uint64_t b)
{
    const uint64_t M32 = 0xffffffffull;
    if (op == 0x45) return Out::v((a & M32) == 0);
    if (op >= 0x46 && op <= 0x4f) return Out::v(icmp<32>((int)op - 0x46, a, b));
    if (op == 0x50) return Out::v(a == 0);
    if (op >= 0x51 && op <= 0x5a) return Out::v(icmp<64>((int)op - 0x51, a, b));
    if (op >= 0x5b && op <= 0x60) return Out::v(fcmp<32>((int)op - 0x5b, a, b));
    if (op >= 0x61 && op <= 0x66) return Out::v(fcmp<64>((int)op - 0x61, a, b));
    if (op == 0x67) return Out::v(clz_(a & M32, 32));
    if (op == 0x68) return Out::v(ctz_(a & M32, 32));
    if (op == 0x69) return Out::v(pop_(a & M32, 32));
    if (op >= 0x6a && op <= 0x78) return ibin<32>((int)op - 0x6a, a, b);
    if (op == 0x79) return Out::v(clz_(a, 64));
    if (op == 0x7a) return Out::v(ctz_(a, 64));
    if (op == 0x7b) return Out::v(pop_(a, 64));
    if (op >= 0x7c && op <= 0x8a) return ibin<64>((int)op - 0x7c, a, b);
    switch (op) {
    case 0x8b: return Out::v(a & M32 & ~fsign<32>());
    case 0x8c: return Out::v((a & M32) ^ fsign<32>());
    case 0x8d: return fround<32>(0, a);
    case 0x8e: return fround<32>(1, a);
    case 0x8f: return fround<32>(2, a);
    case 0x90: return fround<32>(3, a);
    case 0x91: return farith<32>(4, a, 0);
    case 0x92: case 0x93: case 0x94: case 0x95: return farith<32>((int)op - 0x92, a, b);
    case 0x96: return fminmax<32>(false, a, b);
    case 0x97: return fminmax<32>(true, a, b);
    case 0x98: return Out::v((a & M32 & ~fsign<32>()) | (b & fsign<32>()));
    case 0x99: return Out::v(a & ~fsign<64>());
    case 0x9a: return Out::v(a ^ fsign<64>());
    case 0x9b: return fround<64>(0, a);
    case 0x9c: return fround<64>(1, a);
    case 0x9d: return fround<64>(2, a);
    case 0x9e: return fround<64>(3, a);
    case 0x9f: return farith<64>(4, a, 0);
    case 0xa0: case 0xa1: case 0xa2: case 0xa3: return farith<64>((int)op - 0xa0, a, b);
    case 0xa4: return fminmax<64>(false, a, b);
    case 0xa5: return fminmax<64>(true, a, b);
    case 0xa6: return Out::v((a & ~fsign<64>()) | (b & fsign<64>()));
    case 0xa7: return Out::v(a & M32);
    case 0xa8: return ftoi<32>(a, 32, true, false);
    case 0xa9: return ftoi<32>(a, 32, false, false);
    case 0xaa: return ftoi<64>(a, 32, true, false);
    case 0xab: return ftoi<64>(a, 32, false, false);
    case 0xac: return Out::v((uint64_t)sx<32>(a));
    case 0xad: return Out::v(a & M32);
    case 0xae: return ftoi<32>(a, 64, true, false);
    case 0xaf: return ftoi<32>(a, 64, false, false);
    case 0xb0: return ftoi<64>(a, 64, true, false);
    case 0xb1: return ftoi<64>(a, 64, false, false);
    case 0xb2: return Out::v(itof<32>(sx<32>(a)));
    case 0xb3: return Out::v(itof<32>((__int128)(a & M32)));
    case 0xb4: return Out::v(itof<32>((int64_t)a));
    case 0xb5: return Out::v(itof<32>((__int128)a));
    case 0xb6: return demote(a);
    case 0xb7: return Out::v(itof<64>(sx<32>(a)));
    case 0xb8: return Out::v(itof<64>((__int128)(a & M32)));
    case 0xb9: return Out::v(itof<64>((int64_t)a));
    case 0xba: return Out::v(itof<64>((__int128)a));
    case 0xbb: return promote(a & M32);
    case 0xbc: case 0xbe: return Out::v(a & M32);
    case 0xbd: case 0xbf: return Out::v(a);
    case 0xc0: return Out::v((uint64_t)sx<8>(a) & M32);
    case 0xc1: return Out::v((uint64_t)sx<16>(a) & M32);
    case 0xc2: return Out::v((uint64_t)sx<8>(a));
    case 0xc3: return Out::v((uint64_t)sx<16>(a));
    case 0xc4: return Out::v((uint64_t)sx<32>(a));
    case 0xfc00: return ftoi<32>(a, 32, true, true);
    case 0xfc01: return ftoi<32>(a, 32, false, true);
    case 0xfc02: return ftoi<64>(a, 32, true, true);
    case 0xfc03: return ftoi<64>(a, 32, false, true);
    case 0xfc04: return ftoi<32>(a, 64, true, true);
    case 0xfc05: return ftoi<32>(a, 64, false, true);
    case 0xfc06: return ftoi<64>(a, 64, true, true);
    case 0xfc07: return ftoi<64>(a, 64, false, true);
    }
    return Out::t(TWT_MISC);
}

static inline bool out_matches(const Out &o, uint8_t t, uint64_t got)
{
    if (t == T_F32)
        return matches<32>(o, got);
    if (t == T_F64)
        return matches<64>(o, got);
    return got == o.bits;
}

/* operand alphabets ------------------------------------------------------ */

static inline void uniq(std::vector<uint64_t> &v)
{
    std::vector<uint64_t> o;
    for (auto x : v) {
        bool dup = false;
        for (auto y : o)
            dup |= x == y;
        if (!dup)
            o.push_back(x);
    }
    v.swap(o);
}
static inline std::vector<uint64_t> ialpha(int w, int level)
{
    const uint64_t M = w == 64 ? ~0ull : (1ull << w) - 1;
    std::vector<uint64_t> v = {0, 1, 2, 3, M, M - 1, 1ull << (w - 1), (1ull << (w - 1)) - 1,
                               (1ull << (w - 1)) + 1, 0x5555555555555555ull & M, 0x123456789abcdef0ull & M,
                               0xfedcba9876543210ull >> (64 - w), 7, 10};
    if (level >= 1) {
        static const int sh[] = {3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 47, 48, 62, 63};
        for (int s : sh)
            if (s < w) {
                v.push_back(1ull << s);
                v.push_back((1ull << s) - 1);
                v.push_back(M & ~(1ull << s));
                v.push_back(M & (0 - (1ull << s)));
            }
        v.push_back((uint64_t)w);
        v.push_back((uint64_t)w - 1);
        v.push_back((uint64_t)w + 1);
        v.push_back((uint64_t)w * 2);
        v.push_back(0xaaaaaaaaaaaaaaaaull & M);
        v.push_back(0x00ff00ff00ff00ffull & M);
    }
    if (level >= 2) {
        for (int s = 0; s < w; s++) {
            v.push_back(1ull << s);
            v.push_back((1ull << s) - 1);
            v.push_back((1ull << s) + 1);
            v.push_back(M & ~(1ull << s));
            v.push_back(M & (0 - (1ull << s)));
        }
        uint64_t x = 0x9E3779B97F4A7C15ull;
        for (int i = 0; i < 40; i++) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            v.push_back((x >> (64 - w)) & M);
        }
    }
    uniq(v);
    return v;
}
template <int W> static inline std::vector<uint64_t> falpha(int level)
{
    const int MB = F<W>::MB;
    const int bias = (1 << (F<W>::EB - 1)) - 1;
    auto mk = [&](int e, uint64_t m) { return ((uint64_t)(e + bias) << MB) | (m & fmant<W>()); };
    const uint64_t top = fmant<W>();
    std::vector<uint64_t> p = {
        0, 1, top, 1ull << MB /* min normal */, mk(0, 0) /* 1 */, mk(0, 1), mk(-1, top),
        mk(-1, 0) /* .5 */, mk(-1, 1), mk(-2, top), mk(0, 1ull << (MB - 1)) /* 1.5 */, mk(1, 1ull << (MB - 2)) /* 2.5 */,
        fexpmask<W>() - 1 /* max */, fexpmask<W>(), canon<W>(), canon<W>() | 1, fexpmask<W>() | 1,
        fexpmask<W>() | (1ull << (MB - 2)), fexpmask<W>() | top,
        mk(1, 0x243f6a8885a308d3ull >> (64 - MB)),
    };
    if (level >= 1) {
        for (int e : {7, 8, 15, 16, 22, 23, 24, 30, 31, 32, 51, 52, 53, 62, 63, 64}) {
            p.push_back(mk(e, 0));
            p.push_back(mk(e, 1));
            p.push_back(mk(e - 1, top));
            /* 2^e + .5 and neighbours where representable */
            if (e + 1 <= MB) {
                p.push_back(mk(e, 1ull << (MB - e - 1)));
                p.push_back(mk(e, (1ull << (MB - e - 1)) | (1ull << (MB - e) )));
            }
        }
        /* values just above and below an integer boundary of 2^31 and 2^32 (f64: fractions) */
        if (W == 64) {
            p.push_back(d2b(2147483647.5));
            p.push_back(d2b(2147483647.9999998));
            p.push_back(d2b(2147483648.5));
            p.push_back(d2b(2147483648.9999995));
            p.push_back(d2b(2147483649.0));
            p.push_back(d2b(4294967295.0));
            p.push_back(d2b(4294967295.5));
            p.push_back(d2b(4294967295.9999995));
            p.push_back(d2b(4294967296.5));
            /* demotion: ties, overflow and subnormal boundaries of f32 */
            p.push_back(0x3ff0000010000000ull);
            p.push_back(0x3ff0000030000000ull);
            p.push_back(0x3ff0000010000001ull);
            p.push_back(0x47efffffe0000000ull);
            p.push_back(0x47efffffefffffffull);
            p.push_back(0x47effffff0000000ull);
            p.push_back(0x3690000000000000ull);
            p.push_back(0x3690000000000001ull);
            p.push_back(0x36a0000000000000ull);
            p.push_back(0x380fffffe0000000ull);
            p.push_back(0x380ffffff0000000ull);
        }
        p.push_back(mk(0, top));
        p.push_back(mk(1, 1ull << (MB - 1)));                       /* 3 */
        p.push_back(mk(1, (1ull << (MB - 1)) | (1ull << (MB - 2)))); /* 3.5 */
        p.push_back(mk(2, 1ull << (MB - 3)));                       /* 4.5 */
        p.push_back(mk(-1, 1ull << (MB - 1)));                      /* .75 */
        p.push_back(mk(-2, 0));
        p.push_back(mk(-3, 0x5555555555555555ull));
        p.push_back(mk(3, 1ull << (MB - 2)));                       /* 10 */
        p.push_back(1ull << (MB - 1));
        p.push_back(2);
        p.push_back(3);
        p.push_back((1ull << MB) + 1);
    }
    if (level >= 2) {
        uint64_t x = 0x9E3779B97F4A7C15ull;
        for (int e = -bias + 1; e <= bias; e += W == 32 ? 3 : 31) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            p.push_back(mk(e, x >> (64 - MB)));
        }
        for (int e = -2; e <= 70; e++) {
            p.push_back(mk(e, 0));
            p.push_back(mk(e, 1));
            p.push_back(mk(e, top));
            p.push_back(mk(e, 1ull << (MB - 1)));
            if (e > 0 && e + 1 <= MB) {
                p.push_back(mk(e, 1ull << (MB - e - 1)));
                p.push_back(mk(e, 3ull << (MB - e - 1)));
                p.push_back(mk(e, (1ull << (MB - e - 1)) - 1));
                p.push_back(mk(e, (1ull << (MB - e - 1)) + 1));
            }
        }
    }
    std::vector<uint64_t> v;
    for (auto a : p) {
        v.push_back(a);
        v.push_back(a | fsign<W>());
    }
    uniq(v);
    return v;
}
static inline std::vector<uint64_t> alpha(uint8_t t, int level)
{
    switch (t) {
    case T_I32: return ialpha(32, level);
    case T_I64: return ialpha(64, level);
    case T_F32: return falpha<32>(level);
    default: return falpha<64>(level);
    }
}
} // namespace ref
#endif
