/*
 * Reference WebAssembly engine: a decoder to a tree, the specification's
 * validation algorithm, and a direct tree-walking interpreter.  Written from
 * the specification; slow and simple on purpose.
 */
#ifndef VERIF_REFWASM_HPP
#define VERIF_REFWASM_HPP
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "refnum.hpp"
#include "refsimd.hpp"
#include "wb.hpp"

namespace rw {
using wb::Bytes;
using wb::FT;
using wb::Module;

struct Catch {
    int kind;
    uint32_t tag = 0, label = 0;
};
struct Instr {
    unsigned op = 0; /* 0xfcNN/0xfdNN/0xfeNN for prefixed */
    int64_t bt = -0x40; /* block type as s33 */
    uint32_t a = 0, b = 0; /* indices */
    uint64_t off = 0;
    uint32_t align = 0, mem = 0;
    twv c = {0, 0};
    std::vector<uint32_t> labels;
    std::vector<uint8_t> types;
    std::vector<Catch> catches;
    std::vector<Instr> body, els;
    bool has_else = false;
    size_t pos = 0; /* byte offset, for diagnostics */
};

struct LebLog {
    size_t pos, len;
    int bits;
    bool sgn;
};
struct Dec {
    const Bytes &b;
    size_t p = 0;
    bool bad = false;
    bool amb = false; /* an encoding on which implementations may differ */
    std::vector<LebLog> *log = nullptr;
    uint8_t u8()
    {
        if (p >= b.size()) {
            bad = true;
            return 0;
        }
        return b[p++];
    }
    /* decoding with the specification's LEB128 constraints */
    uint64_t uleb(int bits)
    {
        uint64_t r = 0;
        int sh = 0;
        size_t start = p;
        for (;;) {
            uint8_t c = u8();
            if (bad)
                return 0;
            if (sh >= bits || (bits - sh < 7 && ((c & 0x7f) >> (bits - sh)) != 0)) {
                bad = true;
                return 0;
            }
            r |= (uint64_t)(c & 0x7f) << sh;
            sh += 7;
            if (!(c & 0x80)) {
                if (log)
                    log->push_back({start, p - start, bits, false});
                return r;
            }
        }
    }
    int64_t sleb(int bits)
    {
        uint64_t r = 0;
        int sh = 0;
        size_t start = p;
        for (;;) {
            uint8_t c = u8();
            if (bad)
                return 0;
            if (sh >= bits) {
                bad = true;
                return 0;
            }
            if (bits - sh < 7) {
                /* the unused bits must be a sign extension */
                int used = bits - sh;
                int rest = (int8_t)(c << 1) >> 1;
                rest >>= used - 1;
                if (rest != 0 && rest != -1) {
                    bad = true;
                    return 0;
                }
            }
            r |= (uint64_t)(c & 0x7f) << sh;
            sh += 7;
            if (!(c & 0x80)) {
                if (sh < 64 && (c & 0x40))
                    r |= ~0ull << sh;
                if (log)
                    log->push_back({start, p - start, bits, true});
                return (int64_t)r;
            }
        }
    }
    bool blocktype(int64_t &bt)
    {
        size_t start = p;
        bt = sleb(33);
        if (bt < 0 && p - start > 1)
            amb = true;
        return !bad;
    }
    static bool is_vt(unsigned t)
    {
        return t == T_I32 || t == T_I64 || t == T_F32 || t == T_F64 || t == T_V128 || t == T_FUNCREF || t == T_EXTERNREF || t == T_EXNREF;
    }
    /*
     * parse instructions until end (0x0b) or else (0x05); returns the
     * terminator or -1
     */
    int seq(std::vector<Instr> &out, int depth)
    {
        if (depth > 2000) {
            bad = true;
            return -1;
        }
        for (;;) {
            if (bad)
                return -1;
            size_t pos = p;
            unsigned op = u8();
            if (bad)
                return -1;
            if (op == 0x0b || op == 0x05)
                return (int)op;
            Instr i;
            i.pos = pos;
            if (op == 0xfc || op == 0xfd || op == 0xfe) {
                uint64_t sub = uleb(32);
                if (sub > 0xff) {
                    bad = true;
                    return -1;
                }
                i.op = op << 8 | (unsigned)sub;
            } else
                i.op = op;
            if (!imm(i, depth))
                return -1;
            out.push_back(std::move(i));
        }
    }
    void memarg(Instr &i)
    {
        uint32_t a = (uint32_t)uleb(32);
        i.mem = 0;
        if (a & 0x40) {
            a &= ~0x40u;
            i.mem = (uint32_t)uleb(32);
        }
        i.align = a;
        i.off = uleb(32);
    }
    bool imm(Instr &i, int depth)
    {
        unsigned op = i.op;
        switch (op) {
        case 0x00: case 0x01: case 0x0f: case 0x1a: case 0x1b: case 0xd1: case 0x0a:
            break;
        case 0x02: case 0x03: case 0x04: {
            if (!blocktype(i.bt))
                return false;
            int t = seq(i.body, depth + 1);
            if (t == 0x05) {
                if (op != 0x04) {
                    bad = true;
                    return false;
                }
                i.has_else = true;
                t = seq(i.els, depth + 1);
            }
            if (t != 0x0b)
                bad = true;
            break;
        }
        case 0x1f: {
            if (!blocktype(i.bt))
                return false;
            uint32_t n = (uint32_t)uleb(32);
            for (uint32_t k = 0; k < n && !bad; k++) {
                Catch c;
                c.kind = u8();
                if (c.kind > 3) {
                    bad = true;
                    return false;
                }
                if (c.kind < 2)
                    c.tag = (uint32_t)uleb(32);
                c.label = (uint32_t)uleb(32);
                i.catches.push_back(c);
            }
            if (bad)
                return false;
            if (seq(i.body, depth + 1) != 0x0b)
                bad = true;
            break;
        }
        case 0x08: case 0x0c: case 0x0d: case 0x10: case 0x12: case 0x20: case 0x21: case 0x22: case 0x23: case 0x24: case 0x25: case 0x26: case 0xd2:
            i.a = (uint32_t)uleb(32);
            break;
        case 0x0e: {
            uint32_t n = (uint32_t)uleb(32);
            for (uint32_t k = 0; k < n && !bad; k++)
                i.labels.push_back((uint32_t)uleb(32));
            i.labels.push_back((uint32_t)uleb(32));
            break;
        }
        case 0x11: case 0x13:
            i.a = (uint32_t)uleb(32); /* type */
            i.b = (uint32_t)uleb(32); /* table */
            break;
        case 0x1c: {
            uint32_t n = (uint32_t)uleb(32);
            for (uint32_t k = 0; k < n && !bad; k++) {
                unsigned t = u8();
                if (!is_vt(t))
                    bad = true;
                i.types.push_back((uint8_t)t);
            }
            break;
        }
        case 0x3f: case 0x40:
            i.mem = (uint32_t)uleb(32);
            break;
        case 0x41: i.c.lo = (uint32_t)sleb(32); break;
        case 0x42: i.c.lo = (uint64_t)sleb(64); break;
        case 0x43:
            for (int k = 0; k < 4; k++)
                i.c.lo |= (uint64_t)u8() << (8 * k);
            break;
        case 0x44:
            for (int k = 0; k < 8; k++)
                i.c.lo |= (uint64_t)u8() << (8 * k);
            break;
        case 0xd0: {
            unsigned t = u8();
            if (t != T_FUNCREF && t != T_EXTERNREF && t != T_EXNREF)
                bad = true;
            i.types.push_back((uint8_t)t);
            break;
        }
        case 0xfc08: i.a = (uint32_t)uleb(32); i.mem = (uint32_t)uleb(32); break; /* data, mem */
        case 0xfc09: i.a = (uint32_t)uleb(32); break;
        case 0xfc0a: i.mem = (uint32_t)uleb(32); i.b = (uint32_t)uleb(32); break; /* dst, src */
        case 0xfc0b: i.mem = (uint32_t)uleb(32); break;
        case 0xfc0c: i.a = (uint32_t)uleb(32); i.b = (uint32_t)uleb(32); break; /* elem, table */
        case 0xfc0d: i.a = (uint32_t)uleb(32); break;
        case 0xfc0e: i.a = (uint32_t)uleb(32); i.b = (uint32_t)uleb(32); break; /* dst, src table */
        case 0xfc0f: case 0xfc10: case 0xfc11: i.a = (uint32_t)uleb(32); break;
        case 0xfe03:
            if (u8() != 0)
                bad = true;
            break;
        case 0xfd0c:
            for (int k = 0; k < 8; k++)
                i.c.lo |= (uint64_t)u8() << (8 * k);
            for (int k = 0; k < 8; k++)
                i.c.hi |= (uint64_t)u8() << (8 * k);
            break;
        case 0xfd0d:
            for (int k = 0; k < 16; k++)
                i.types.push_back(u8());
            break;
        default:
            if (op >= 0x28 && op <= 0x3e)
                memarg(i);
            else if (op >= 0x45 && op <= 0xc4)
                ;
            else if (op >= 0xfc00 && op <= 0xfc07)
                ;
            else if (op >= 0xfe00 && op <= 0xfe4e && !(op > 0xfe03 && op < 0xfe10))
                memarg(i);
            else if ((op >= 0xfd00 && op <= 0xfd0b) || op == 0xfd5c || op == 0xfd5d)
                memarg(i);
            else if (op >= 0xfd54 && op <= 0xfd5b) {
                memarg(i);
                i.a = u8();
            } else if (op >= 0xfd15 && op <= 0xfd22)
                i.a = u8();
            else if ((op >> 8) == 0xfd) {
                bool found = false;
                for (auto &s : ref::simd_ops)
                    found |= s.op == (op & 0xff);
                if (!found)
                    bad = true;
            } else
                bad = true;
        }
        return !bad;
    }
};

/* decode an expression body (without its final end) */
static inline bool decode(const Bytes &body, std::vector<Instr> &out)
{
    Bytes b = body;
    b.push_back(0x0b);
    Dec d{b};
    int t = d.seq(out, 0);
    return t == 0x0b && !d.bad && d.p == b.size();
}

/* ------------------------------------------------------------------ */
struct MemOp {
    int bytes;
    uint8_t t;
    bool store;
    bool sgn;
};
static inline bool memop(unsigned op, MemOp &m)
{
    static const MemOp L[] = {
        {4, T_I32, 0, 0}, {8, T_I64, 0, 0}, {4, T_F32, 0, 0}, {8, T_F64, 0, 0}, {1, T_I32, 0, 1}, {1, T_I32, 0, 0}, {2, T_I32, 0, 1}, {2, T_I32, 0, 0},
        {1, T_I64, 0, 1}, {1, T_I64, 0, 0}, {2, T_I64, 0, 1}, {2, T_I64, 0, 0}, {4, T_I64, 0, 1}, {4, T_I64, 0, 0},
        {4, T_I32, 1, 0}, {8, T_I64, 1, 0}, {4, T_F32, 1, 0}, {8, T_F64, 1, 0}, {1, T_I32, 1, 0}, {2, T_I32, 1, 0}, {1, T_I64, 1, 0}, {2, T_I64, 1, 0}, {4, T_I64, 1, 0}};
    if (op >= 0x28 && op <= 0x3e) {
        m = L[op - 0x28];
        return true;
    }
    return false;
}
/* atomic access shape: index within a group of seven */
static inline void atomic_shape(unsigned k, int &bytes, uint8_t &t)
{
    static const int B[] = {4, 8, 1, 2, 1, 2, 4};
    static const uint8_t T[] = {T_I32, T_I64, T_I32, T_I32, T_I64, T_I64, T_I64};
    bytes = B[k];
    t = T[k];
}
static inline int simd_mem_bytes(unsigned op)
{
    switch (op & 0xff) {
    case 0: case 0x0b: return 16;
    case 1: case 2: case 3: case 4: case 5: case 6: case 0x0a: case 0x57: case 0x5b: case 0x5d: return 8;
    case 9: case 0x56: case 0x5a: case 0x5c: return 4;
    case 8: case 0x55: case 0x59: return 2;
    default: return 1;
    }
}
static inline int log2i(int n) { int r = 0; while (n > 1) n >>= 1, r++; return r; }

/* ------------------------------------------------------------------ */
struct Validator {
    const Module &m;
    bool ok = true;
    bool unsupported = false; /* valid, but beyond a documented implementation limit */
    std::string why;
    std::vector<uint32_t> functypes;
    std::vector<uint8_t> gtypes;
    std::vector<bool> gmut, gimp;
    std::vector<uint8_t> ttypes;
    std::vector<wb::Lim> mems;
    std::vector<uint32_t> tagtypes;
    std::set<uint32_t> declared;

    Validator(const Module &mm) : m(mm) {}
    bool fail(const std::string &s)
    {
        if (ok)
            why = s;
        ok = false;
        return false;
    }
    static const uint8_t UNK = 0;
    struct Ctl {
        unsigned op;
        std::vector<uint8_t> s, e;
        size_t h;
        bool unreach;
    };
    std::vector<uint8_t> vals;
    std::vector<Ctl> ctls;
    std::vector<uint8_t> locals;

    void push(uint8_t t) { vals.push_back(t); }
    void pushv(const std::vector<uint8_t> &v) { for (auto t : v) push(t); }
    uint8_t pop()
    {
        Ctl &c = ctls.back();
        if (vals.size() == c.h && c.unreach)
            return UNK;
        if (vals.size() == c.h) {
            fail("stack underflow");
            return UNK;
        }
        uint8_t t = vals.back();
        vals.pop_back();
        return t;
    }
    uint8_t pop(uint8_t want)
    {
        uint8_t t = pop();
        if (t != want && t != UNK && want != UNK)
            fail("type mismatch");
        return t;
    }
    std::vector<uint8_t> popv(const std::vector<uint8_t> &v)
    {
        std::vector<uint8_t> r(v.size());
        for (size_t i = v.size(); i-- > 0 && ok;)
            r[i] = pop(v[i]);
        return r;
    }
    void pushc(unsigned op, const std::vector<uint8_t> &s, const std::vector<uint8_t> &e)
    {
        ctls.push_back({op, s, e, vals.size(), false});
        pushv(s);
    }
    Ctl popc()
    {
        Ctl c = ctls.back();
        popv(c.e);
        if (ok && vals.size() != c.h)
            fail("values left on the stack");
        ctls.pop_back();
        return c;
    }
    const std::vector<uint8_t> &label(uint32_t l)
    {
        Ctl &c = ctls[ctls.size() - 1 - l];
        return c.op == 0x03 ? c.s : c.e;
    }
    void unreach()
    {
        vals.resize(ctls.back().h);
        ctls.back().unreach = true;
    }
    bool bt(int64_t b, FT &ft)
    {
        if (b == -0x40) {
            ft = FT{};
            return true;
        }
        if (b < 0) {
            unsigned t = (unsigned)(b & 0x7f);
            if (!Dec::is_vt(t))
                return fail("bad block type");
            ft = FT{{}, {(uint8_t)t}};
            return true;
        }
        if ((uint64_t)b >= m.types.size())
            return fail("block type index");
        ft = m.types[(size_t)b];
        return true;
    }
    static bool isnumvec(uint8_t t) { return t == T_I32 || t == T_I64 || t == T_F32 || t == T_F64 || t == T_V128 || t == UNK; }
    static bool isref(uint8_t t) { return t == T_FUNCREF || t == T_EXTERNREF || t == T_EXNREF || t == UNK; }

    bool seq(const std::vector<Instr> &v)
    {
        for (auto &i : v)
            if (!instr(i))
                return false;
        return ok;
    }
    bool memchk(const Instr &i, int bytes)
    {
        if (i.mem >= mems.size())
            return fail("memory index");
        if (i.align > 31 || (1u << i.align) > (unsigned)bytes)
            return fail("alignment");
        return true;
    }
    bool instr(const Instr &i)
    {
        unsigned op = i.op;
        const ref::OpInfo *oi;
        MemOp mo;
        if ((op >= 0x45 && op <= 0xc4) || (op >= 0xfc00 && op <= 0xfc07)) {
            oi = ref::find_op(op);
            for (int k = oi->np - 1; k >= 0; k--)
                pop(oi->p[k]);
            push(oi->r);
            return ok;
        }
        if (memop(op, mo)) {
            if (!memchk(i, mo.bytes))
                return false;
            if (mo.store) {
                pop(mo.t);
                pop(T_I32);
            } else {
                pop(T_I32);
                push(mo.t);
            }
            return ok;
        }
        switch (op) {
        case 0x00: unreach(); return ok;
        case 0x01: return ok;
        case 0x02: case 0x03: {
            FT ft;
            if (!bt(i.bt, ft))
                return false;
            popv(ft.p);
            if (!ok)
                return false;
            pushc(op, ft.p, ft.r);
            if (!seq(i.body))
                return false;
            Ctl c = popc();
            pushv(c.e);
            return ok;
        }
        case 0x04: {
            FT ft;
            if (!bt(i.bt, ft))
                return false;
            pop(T_I32);
            popv(ft.p);
            if (!ok)
                return false;
            pushc(op, ft.p, ft.r);
            if (!seq(i.body))
                return false;
            Ctl c = popc();
            if (!ok)
                return false;
            if (i.has_else) {
                pushc(0x05, c.s, c.e);
                if (!seq(i.els))
                    return false;
                popc();
                if (!ok)
                    return false;
            } else if (c.s != c.e)
                return fail("if without else needs equal types");
            pushv(c.e);
            return ok;
        }
        case 0x1f: {
            FT ft;
            if (!bt(i.bt, ft))
                return false;
            popv(ft.p);
            for (auto &c : i.catches) {
                std::vector<uint8_t> t;
                if (c.kind < 2) {
                    if (c.tag >= tagtypes.size())
                        return fail("tag index");
                    t = m.types[tagtypes[c.tag]].p;
                }
                if (c.kind & 1)
                    t.push_back(T_EXNREF);
                if (c.label >= ctls.size())
                    return fail("catch label");
                if (label(c.label) != t)
                    return fail("catch label type");
            }
            if (!ok)
                return false;
            pushc(op, ft.p, ft.r);
            if (!seq(i.body))
                return false;
            Ctl c = popc();
            pushv(c.e);
            return ok;
        }
        case 0x08:
            if (i.a >= tagtypes.size())
                return fail("tag index");
            popv(m.types[tagtypes[i.a]].p);
            unreach();
            return ok;
        case 0x0a:
            pop(T_EXNREF);
            unreach();
            return ok;
        case 0x0c:
            if (i.a >= ctls.size())
                return fail("label");
            popv(label(i.a));
            unreach();
            return ok;
        case 0x0d: {
            if (i.a >= ctls.size())
                return fail("label");
            pop(T_I32);
            auto l = label(i.a);
            popv(l);
            pushv(l);
            return ok;
        }
        case 0x0e: {
            pop(T_I32);
            uint32_t d = i.labels.back();
            if (d >= ctls.size())
                return fail("label");
            size_t ar = label(d).size();
            for (size_t k = 0; k + 1 < i.labels.size() && ok; k++) {
                uint32_t l = i.labels[k];
                if (l >= ctls.size())
                    return fail("label");
                if (label(l).size() != ar)
                    return fail("br_table arity");
                pushv(popv(label(l)));
            }
            popv(label(d));
            unreach();
            return ok;
        }
        case 0x0f:
            popv(ctls[0].e);
            unreach();
            return ok;
        case 0x10: case 0x12: {
            if (i.a >= functypes.size())
                return fail("func index");
            const FT &ft = m.types[functypes[i.a]];
            popv(ft.p);
            if (op == 0x12) {
                if (ft.r != ctls[0].e)
                    return fail("tail call result");
                unreach();
            } else
                pushv(ft.r);
            return ok;
        }
        case 0x11: case 0x13: {
            if (i.b >= ttypes.size())
                return fail("table index");
            if (ttypes[i.b] != T_FUNCREF)
                return fail("call_indirect table type");
            if (i.a >= m.types.size())
                return fail("type index");
            const FT &ft = m.types[i.a];
            pop(T_I32);
            popv(ft.p);
            if (op == 0x13) {
                if (ft.r != ctls[0].e)
                    return fail("tail call result");
                unreach();
            } else
                pushv(ft.r);
            return ok;
        }
        case 0x1a: pop(); return ok;
        case 0x1b: {
            pop(T_I32);
            uint8_t a = pop(), b = pop();
            if (!ok)
                return false;
            if (!isnumvec(a) || !isnumvec(b))
                return fail("select on references");
            if (a != b && a != UNK && b != UNK)
                return fail("select operand types");
            push(a == UNK ? b : a);
            return ok;
        }
        case 0x1c:
            if (i.types.size() != 1)
                return fail("select arity");
            pop(T_I32);
            pop(i.types[0]);
            pop(i.types[0]);
            push(i.types[0]);
            return ok;
        case 0x20: case 0x21: case 0x22:
            if (i.a >= locals.size())
                return fail("local index");
            if (op != 0x20)
                pop(locals[i.a]);
            if (op != 0x21)
                push(locals[i.a]);
            return ok;
        case 0x23:
            if (i.a >= gtypes.size())
                return fail("global index");
            push(gtypes[i.a]);
            return ok;
        case 0x24:
            if (i.a >= gtypes.size())
                return fail("global index");
            if (!gmut[i.a])
                return fail("immutable global");
            pop(gtypes[i.a]);
            return ok;
        case 0x25:
            if (i.a >= ttypes.size())
                return fail("table index");
            pop(T_I32);
            push(ttypes[i.a]);
            return ok;
        case 0x26:
            if (i.a >= ttypes.size())
                return fail("table index");
            pop(ttypes[i.a]);
            pop(T_I32);
            return ok;
        case 0x3f:
            if (i.mem >= mems.size())
                return fail("memory index");
            push(T_I32);
            return ok;
        case 0x40:
            if (i.mem >= mems.size())
                return fail("memory index");
            pop(T_I32);
            push(T_I32);
            return ok;
        case 0x41: push(T_I32); return ok;
        case 0x42: push(T_I64); return ok;
        case 0x43: push(T_F32); return ok;
        case 0x44: push(T_F64); return ok;
        case 0xd0: push(i.types[0]); return ok;
        case 0xd1: {
            uint8_t t = pop();
            if (ok && !isref(t))
                return fail("ref.is_null on a number");
            push(T_I32);
            return ok;
        }
        case 0xd2:
            if (i.a >= functypes.size())
                return fail("func index");
            if (!declared.count(i.a))
                return fail("undeclared function reference");
            push(T_FUNCREF);
            return ok;
        case 0xfc08:
            if (i.mem >= mems.size())
                return fail("memory index");
            if (!m.datacount || i.a >= m.datas.size())
                return fail("data index");
            pop(T_I32), pop(T_I32), pop(T_I32);
            return ok;
        case 0xfc09:
            if (!m.datacount || i.a >= m.datas.size())
                return fail("data index");
            return ok;
        case 0xfc0a:
            if (i.mem >= mems.size() || i.b >= mems.size())
                return fail("memory index");
            pop(T_I32), pop(T_I32), pop(T_I32);
            return ok;
        case 0xfc0b:
            if (i.mem >= mems.size())
                return fail("memory index");
            pop(T_I32), pop(T_I32), pop(T_I32);
            return ok;
        case 0xfc0c:
            if (i.b >= ttypes.size())
                return fail("table index");
            if (i.a >= m.elems.size())
                return fail("elem index");
            if (etype(m.elems[i.a]) != ttypes[i.b])
                return fail("table.init type");
            pop(T_I32), pop(T_I32), pop(T_I32);
            return ok;
        case 0xfc0d:
            if (i.a >= m.elems.size())
                return fail("elem index");
            return ok;
        case 0xfc0e:
            if (i.a >= ttypes.size() || i.b >= ttypes.size())
                return fail("table index");
            if (ttypes[i.a] != ttypes[i.b])
                return fail("table.copy type");
            pop(T_I32), pop(T_I32), pop(T_I32);
            return ok;
        case 0xfc0f:
            if (i.a >= ttypes.size())
                return fail("table index");
            pop(T_I32);
            pop(ttypes[i.a]);
            push(T_I32);
            return ok;
        case 0xfc10:
            if (i.a >= ttypes.size())
                return fail("table index");
            push(T_I32);
            return ok;
        case 0xfc11:
            if (i.a >= ttypes.size())
                return fail("table index");
            pop(T_I32);
            pop(ttypes[i.a]);
            pop(T_I32);
            return ok;
        case 0xfe00: case 0xfe01: case 0xfe02: {
            int bytes = op == 0xfe02 ? 8 : 4;
            if (i.mem >= mems.size())
                return fail("memory index");
            if (i.align != (uint32_t)log2i(bytes))
                return fail("atomic alignment");
            if (op == 0xfe00)
                pop(T_I32), pop(T_I32);
            else
                pop(T_I64), pop(op == 0xfe01 ? T_I32 : T_I64), pop(T_I32);
            push(T_I32);
            return ok;
        }
        case 0xfe03: return ok;
        case 0xfd0c: push(T_V128); return ok;
        case 0xfd0d:
            for (auto l : i.types)
                if (l >= 32)
                    return fail("shuffle lane");
            pop(T_V128), pop(T_V128), push(T_V128);
            return ok;
        }
        if (op >= 0xfe10 && op <= 0xfe4e) {
            unsigned g = (op - 0xfe10) / 7, k = (op - 0xfe10) % 7;
            int bytes;
            uint8_t t;
            atomic_shape(k, bytes, t);
            if (i.mem >= mems.size())
                return fail("memory index");
            if (i.align != (uint32_t)log2i(bytes))
                return fail("atomic alignment");
            if (g == 0)
                pop(T_I32), push(t);
            else if (g == 1)
                pop(t), pop(T_I32);
            else if (g == 8)
                pop(t), pop(t), pop(T_I32), push(t);
            else
                pop(t), pop(T_I32), push(t);
            return ok;
        }
        if ((op >> 8) == 0xfd) {
            unsigned s = op & 0xff;
            if (s <= 0x0b || s == 0x5c || s == 0x5d || (s >= 0x54 && s <= 0x5b)) {
                int bytes = simd_mem_bytes(op);
                if (!memchk(i, bytes))
                    return false;
                if (s >= 0x54 && s <= 0x5b && i.a >= 16u / (unsigned)bytes)
                    return fail("lane index");
                bool lane = s >= 0x54 && s <= 0x5b;
                bool store = s == 0x0b || (s >= 0x58 && s <= 0x5b);
                if (lane || store)
                    pop(T_V128);
                pop(T_I32);
                if (!store)
                    push(T_V128);
                return ok;
            }
            if (s >= 0x15 && s <= 0x22) {
                static const int N[] = {16, 16, 16, 8, 8, 8, 4, 4, 2, 2, 4, 4, 2, 2};
                static const uint8_t T[] = {T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I64, T_I64, T_F32, T_F32, T_F64, T_F64};
                static const bool rep[] = {0, 0, 1, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1};
                unsigned k = s - 0x15;
                if (i.a >= (uint32_t)N[k])
                    return fail("lane index");
                if (rep[k])
                    pop(T[k]), pop(T_V128), push(T_V128);
                else
                    pop(T_V128), push(T[k]);
                return ok;
            }
            for (auto &so : ref::simd_ops)
                if (so.op == s) {
                    const ref::SimdFn &fn = simdfn(s);
                    for (size_t k = fn.p.size(); k-- > 0;) {
                        char c = fn.p[k];
                        pop(c == 'v' ? T_V128 : c == 'i' ? T_I32 : c == 'l' ? T_I64 : c == 'f' ? T_F32 : T_F64);
                    }
                    push(fn.r == 'v' ? T_V128 : T_I32);
                    return ok;
                }
        }
        return fail("unknown opcode");
    }
    static const ref::SimdFn &simdfn(unsigned s)
    {
        static std::unique_ptr<ref::SimdFn> cache[256];
        if (!cache[s])
            for (auto &so : ref::simd_ops)
                if (so.op == s)
                    cache[s].reset(new ref::SimdFn(ref::simd_fn(so.name)));
        return *cache[s];
    }
    static uint8_t etype(const wb::Elem &e)
    {
        return (e.flags & 4) && (e.flags & 3) ? e.t : (uint8_t)T_FUNCREF;
    }
    bool func(const wb::Func &f)
    {
        std::vector<Instr> body;
        if (!decode(f.body, body))
            return fail("malformed body");
        return func(f, body);
    }
    bool func(const wb::Func &f, const std::vector<Instr> &body)
    {
        const FT &ft = m.types[f.type];
        locals = ft.p;
        for (auto &l : f.locals)
            locals.insert(locals.end(), l.first, l.second);
        vals.clear();
        ctls.clear();
        pushc(0x02, {}, ft.r);
        if (!seq(body))
            return false;
        popc();
        return ok;
    }
    bool constexpr_(const Bytes &b, uint8_t want)
    {
        std::vector<Instr> v;
        if (!decode(b, v))
            return fail("malformed constant expression");
        vals.clear();
        ctls.clear();
        pushc(0x02, {}, {want});
        for (auto &i : v) {
            bool c = i.op == 0x41 || i.op == 0x42 || i.op == 0x43 || i.op == 0x44 || i.op == 0xfd0c || i.op == 0xd0 || i.op == 0xd2 ||
                     i.op == 0x6a || i.op == 0x6b || i.op == 0x6c || i.op == 0x7c || i.op == 0x7d || i.op == 0x7e;
            if (i.op == 0x23) {
                if (i.a >= gtypes.size())
                    return fail("global index");
                if (gmut[i.a] || !gimp[i.a])
                    return fail("non-constant global");
                c = true;
            }
            if (!c)
                return fail("non-constant instruction");
            if (!instr(i))
                return false;
        }
        popc();
        return ok;
    }
    bool limits(const wb::Lim &l, uint64_t range)
    {
        if (l.min > range)
            return fail("minimum too large");
        if (l.hasmax && (l.max > range || l.max < l.min))
            return fail("bad maximum");
        return true;
    }
    bool memtype(const wb::Lim &l)
    {
        unsigned sh = l.custom ? l.shift : 16;
        if (sh != 0 && sh != 16)
            return fail("page size");
        if (l.shared && !l.hasmax)
            return fail("shared without maximum");
        return limits(l, sh == 16 ? 65536 : 0xffffffffull);
    }
    static int cells(const std::vector<uint8_t> &v)
    {
        int n = 0;
        for (auto t : v)
            n += t == T_V128 ? 4 : (t == T_I32 || t == T_F32) ? 1 : t == T_EXNREF ? 100 : 2;
        return n;
    }
    bool module()
    {
        for (auto &i : m.imports) {
            switch (i.kind) {
            case 0:
                if (i.typeidx >= m.types.size())
                    return fail("import type");
                functypes.push_back(i.typeidx);
                break;
            case 1:
                if (!limits(i.l, 0xffffffffull))
                    return false;
                ttypes.push_back(i.vt);
                break;
            case 2:
                if (!memtype(i.l))
                    return false;
                mems.push_back(i.l);
                break;
            case 3:
                gtypes.push_back(i.vt);
                gmut.push_back(i.mut);
                gimp.push_back(true);
                break;
            case 4:
                if (i.typeidx >= m.types.size() || !m.types[i.typeidx].r.empty())
                    return fail("tag type");
                if (cells(m.types[i.typeidx].p) > 4)
                    unsupported = true;
                tagtypes.push_back(i.typeidx);
                break;
            }
        }
        for (auto &f : m.funcs) {
            if (f.type >= m.types.size())
                return fail("func type");
            functypes.push_back(f.type);
        }
        for (auto &t : m.tables) {
            if (!limits(t.l, 0xffffffffull))
                return false;
            ttypes.push_back(t.t);
        }
        for (auto &l : m.mems) {
            if (!memtype(l))
                return false;
            mems.push_back(l);
        }
        for (auto t : m.tags) {
            if (t >= m.types.size() || !m.types[t].r.empty())
                return fail("tag type");
            if (cells(m.types[t].p) > 4)
                unsupported = true;
            tagtypes.push_back(t);
        }
        /* declared references */
        auto declare = [&](const Bytes &b) {
            std::vector<Instr> v;
            if (decode(b, v))
                for (auto &i : v)
                    if (i.op == 0xd2)
                        declared.insert(i.a);
        };
        for (auto &g : m.globals)
            declare(g.init);
        for (auto &e : m.elems) {
            for (auto f : e.funcs)
                declared.insert(f);
            for (auto &x : e.exprs)
                declare(x);
        }
        for (auto &e : m.exports)
            if (e.kind == 0)
                declared.insert(e.idx);
        size_t nimpg = gtypes.size();
        (void)nimpg;
        for (auto &g : m.globals) {
            if (!constexpr_(g.init, g.t))
                return false;
            gtypes.push_back(g.t);
            gmut.push_back(g.mut);
            gimp.push_back(false);
        }
        std::set<std::string> names;
        for (auto &e : m.exports) {
            size_t n = e.kind == 0 ? functypes.size() : e.kind == 1 ? ttypes.size() : e.kind == 2 ? mems.size() : e.kind == 3 ? gtypes.size() : tagtypes.size();
            if (e.idx >= n)
                return fail("export index");
            if (!names.insert(e.name).second)
                return fail("duplicate export");
        }
        if (m.start >= 0) {
            if ((uint64_t)m.start >= functypes.size())
                return fail("start index");
            const FT &ft = m.types[functypes[(size_t)m.start]];
            if (!ft.p.empty() || !ft.r.empty())
                return fail("start type");
        }
        for (auto &e : m.elems) {
            uint8_t t = etype(e);
            if (!(e.flags & 1)) {
                uint32_t ti = (e.flags & 2) ? e.table : 0;
                if (ti >= ttypes.size())
                    return fail("elem table");
                if (ttypes[ti] != t)
                    return fail("elem type");
                if (!constexpr_(e.off, T_I32))
                    return false;
            }
            for (auto f : e.funcs)
                if (f >= functypes.size())
                    return fail("elem func");
            for (auto &x : e.exprs)
                if (!constexpr_(x, t))
                    return false;
        }
        for (auto &d : m.datas)
            if (d.flags != 1) {
                uint32_t mi = d.flags == 2 ? d.mem : 0;
                if (mi >= mems.size())
                    return fail("data memory");
                if (!constexpr_(d.off, T_I32))
                    return false;
            }
        for (auto &f : m.funcs)
            if (!func(f))
                return false;
        return ok;
    }
};

/* ------------------------------------------------------------------ */
struct RFunc;
struct RInst;
struct RTag {
    FT ft;
};
struct Exn;
struct Val {
    uint8_t t = T_I32;
    twv v = {0, 0};
    RFunc *f = nullptr;           /* funcref */
    std::shared_ptr<Exn> e;       /* exnref */
    int nan = 0;                  /* 1: any canonical, 2: any arithmetic NaN of the type (taints) */
};
struct Exn {
    RTag *tag;
    std::vector<Val> vals;
};
static inline Val mk(uint8_t t, uint64_t lo, uint64_t hi = 0)
{
    Val v;
    v.t = t;
    v.v = {lo, hi};
    return v;
}
struct RMem {
    std::vector<uint8_t> b;
    uint64_t pages = 0, max = 0;
    unsigned shift = 16;
    bool shared = false, hasmax = false;
    uint64_t grow_limit = ~0ull; /* implementation limit, pages */
};
struct RTable {
    std::vector<Val> e;
    uint64_t max = 0xffffffff;
    bool hasmax = false;
    uint64_t grow_limit = 100000000; /* implementation limit */
    uint8_t t;
};
struct RGlobal {
    Val v;
    bool mut;
};
typedef uint32_t TrapSet; /* bit per TWT_ */
static inline TrapSet TS(int t) { return 1u << t; }

struct Machine;
typedef std::function<int(Machine &, const std::vector<Val> &, std::vector<Val> &)> HostFn; /* 0, -1 trap (set m.trap), -2 throw */
struct RFunc {
    FT ft;
    RInst *inst = nullptr;
    uint32_t idx = 0; /* index in the defining instance's function space */
    const wb::Func *code = nullptr;
    std::vector<Instr> body;
    HostFn host;
};
struct RInst {
    const Module *m = nullptr;
    std::vector<RFunc *> funcs;
    std::vector<RTable *> tables;
    std::vector<RMem *> mems;
    std::vector<RGlobal *> globals;
    std::vector<RTag *> tags;
    std::vector<bool> data_dropped, elem_dropped;
};

enum Flow { F_NEXT, F_BR, F_RET, F_TAIL, F_TRAP, F_THROW };

struct Machine {
    /* outcome of the last run */
    TrapSet trap = 0;
    std::shared_ptr<Exn> exn;
    uint64_t fuel = 1000000;
    bool out_of_fuel = false;
    uint32_t depth = 0, max_depth = 900;
    uint32_t peak = 0;

    std::vector<std::unique_ptr<RFunc>> ofuncs;
    std::vector<std::unique_ptr<RTable>> otables;
    std::vector<std::unique_ptr<RMem>> omems;
    std::vector<std::unique_ptr<RGlobal>> oglobals;
    std::vector<std::unique_ptr<RTag>> otags;
    std::vector<std::unique_ptr<RInst>> oinsts;

    RFunc *new_host(const FT &ft, HostFn h)
    {
        ofuncs.emplace_back(new RFunc);
        RFunc *f = ofuncs.back().get();
        f->ft = ft;
        f->host = h;
        return f;
    }

    /* frame state */
    struct Frame {
        RInst *inst;
        std::vector<Val> locals;
        std::vector<Val> st;
        size_t nres;
        /* branch */
        uint32_t br = 0;
        /* tail call */
        RFunc *tail = nullptr;
    };
    int trapped(int t)
    {
        trap = TS(t);
        return F_TRAP;
    }
    static Val pop(Frame &f)
    {
        Val v = f.st.back();
        f.st.pop_back();
        return v;
    }
    uint32_t pop32(Frame &f) { return (uint32_t)pop(f).v.lo; }

    static void btype(const Module &m, int64_t b, size_t &np, size_t &nr)
    {
        if (b == -0x40)
            np = nr = 0;
        else if (b < 0)
            np = 0, nr = 1;
        else {
            np = m.types[(size_t)b].p.size();
            nr = m.types[(size_t)b].r.size();
        }
    }
    /* keep the top n values above height h */
    static void unwind(Frame &f, size_t h, size_t n)
    {
        size_t from = f.st.size() - n;
        if (from != h)
            for (size_t i = 0; i < n; i++)
                f.st[h + i] = f.st[from + i];
        f.st.resize(h + n);
    }

    int seq(Frame &f, const std::vector<Instr> &v)
    {
        for (auto &i : v) {
            int r = step(f, i);
            if (r != F_NEXT)
                return r;
        }
        return F_NEXT;
    }
    bool burn()
    {
        if (fuel == 0) {
            out_of_fuel = true;
            trap = 0;
            return false;
        }
        fuel--;
        return true;
    }
    int step(Frame &f, const Instr &i)
    {
        const Module &m = *f.inst->m;
        unsigned op = i.op;
        if (!burn())
            return F_TRAP;
        if ((op >= 0x45 && op <= 0xc4) || (op >= 0xfc00 && op <= 0xfc07)) {
            const ref::OpInfo *oi = ref::find_op(op);
            Val b, a;
            if (oi->np == 2)
                b = pop(f);
            a = pop(f);
            ref::Out o = ref::num(op, a.v.lo, b.v.lo);
            if (o.trap)
                return trapped(o.trap);
            Val r = mk(oi->r, o.bits);
            r.nan = o.kind == ref::EXACT ? 0 : o.kind == ref::NAN_CANON ? 1 : 2;
            f.st.push_back(r);
            return F_NEXT;
        }
        MemOp mo;
        if (memop(op, mo)) {
            RMem *mem = f.inst->mems[i.mem];
            Val v;
            if (mo.store)
                v = pop(f);
            uint64_t ea = (uint64_t)pop32(f) + i.off;
            if (ea + (uint64_t)mo.bytes > mem->b.size())
                return trapped(TWT_OOB_MEM);
            if (mo.store) {
                for (int k = 0; k < mo.bytes; k++)
                    mem->b[ea + (uint64_t)k] = (uint8_t)(v.v.lo >> (8 * k));
            } else {
                uint64_t r = 0;
                for (int k = 0; k < mo.bytes; k++)
                    r |= (uint64_t)mem->b[ea + (uint64_t)k] << (8 * k);
                if (mo.sgn) {
                    int sh = 64 - 8 * mo.bytes;
                    r = (uint64_t)((int64_t)(r << sh) >> sh);
                }
                if (mo.t == T_I32 || mo.t == T_F32)
                    r &= 0xffffffff;
                f.st.push_back(mk(mo.t, r));
            }
            return F_NEXT;
        }
        switch (op) {
        case 0x00: return trapped(TWT_UNREACHABLE);
        case 0x01: return F_NEXT;
        case 0x02: case 0x04: case 0x1f: {
            size_t np, nr;
            btype(m, i.bt, np, nr);
            const std::vector<Instr> *body = &i.body;
            if (op == 0x04) {
                if (pop32(f) == 0)
                    body = &i.els;
            }
            size_t h = f.st.size() - np;
            int r = seq(f, *body);
            if (op == 0x1f && r == F_THROW) {
                for (auto &c : i.catches) {
                    if (c.kind < 2 && f.inst->tags[c.tag] != exn->tag)
                        continue;
                    f.st.resize(h);
                    if (c.kind < 2)
                        for (auto &v : exn->vals)
                            f.st.push_back(v);
                    if (c.kind & 1) {
                        Val v = mk(T_EXNREF, 1);
                        v.e = exn;
                        f.st.push_back(v);
                    }
                    exn.reset();
                    /* the label is relative to the enclosing block */
                    f.br = c.label;
                    return F_BR;
                }
                return r;
            }
            if (r == F_BR) {
                if (f.br == 0) {
                    unwind(f, h, nr);
                    return F_NEXT;
                }
                f.br--;
                return F_BR;
            }
            return r;
        }
        case 0x03: {
            size_t np, nr;
            btype(m, i.bt, np, nr);
            size_t h = f.st.size() - np;
            for (;;) {
                int r = seq(f, i.body);
                if (r == F_BR) {
                    if (f.br == 0) {
                        unwind(f, h, np);
                        if (!burn())
                            return F_TRAP;
                        continue;
                    }
                    f.br--;
                }
                return r;
            }
        }
        case 0x08: {
            RTag *t = f.inst->tags[i.a];
            auto e = std::make_shared<Exn>();
            e->tag = t;
            size_t n = t->ft.p.size();
            e->vals.assign(f.st.end() - (long)n, f.st.end());
            exn = e;
            return F_THROW;
        }
        case 0x0a: {
            Val v = pop(f);
            if (!v.e)
                return trapped(TWT_THROW_NULL);
            exn = v.e;
            return F_THROW;
        }
        case 0x0c: f.br = i.a; return F_BR;
        case 0x0d:
            if (pop32(f)) {
                f.br = i.a;
                return F_BR;
            }
            return F_NEXT;
        case 0x0e: {
            uint32_t k = pop32(f);
            size_t n = i.labels.size() - 1;
            f.br = i.labels[k < n ? k : n];
            return F_BR;
        }
        case 0x0f: return F_RET;
        case 0x10: case 0x11: case 0x12: case 0x13: {
            RFunc *callee;
            if (op == 0x10 || op == 0x12)
                callee = f.inst->funcs[i.a];
            else {
                uint32_t k = pop32(f);
                RTable *t = f.inst->tables[i.b];
                if (k >= t->e.size())
                    return trapped(TWT_CI_OOB);
                callee = t->e[k].f;
                if (!callee)
                    return trapped(TWT_CI_NULL);
                if (!(callee->ft == m.types[i.a]))
                    return trapped(TWT_CI_TYPE);
            }
            if (op == 0x12 || op == 0x13) {
                f.tail = callee;
                return F_TAIL;
            }
            size_t n = callee->ft.p.size();
            std::vector<Val> args(f.st.end() - (long)n, f.st.end());
            f.st.resize(f.st.size() - n);
            std::vector<Val> res;
            int r = invoke(callee, args, res);
            if (r != F_NEXT)
                return r;
            for (auto &v : res)
                f.st.push_back(v);
            return F_NEXT;
        }
        case 0x1a: pop(f); return F_NEXT;
        case 0x1b: case 0x1c: {
            uint32_t c = pop32(f);
            Val b = pop(f), a = pop(f);
            f.st.push_back(c ? a : b);
            return F_NEXT;
        }
        case 0x20: f.st.push_back(f.locals[i.a]); return F_NEXT;
        case 0x21: f.locals[i.a] = pop(f); return F_NEXT;
        case 0x22: f.locals[i.a] = f.st.back(); return F_NEXT;
        case 0x23: f.st.push_back(f.inst->globals[i.a]->v); return F_NEXT;
        case 0x24: f.inst->globals[i.a]->v = pop(f); return F_NEXT;
        case 0x25: {
            uint32_t k = pop32(f);
            RTable *t = f.inst->tables[i.a];
            if (k >= t->e.size())
                return trapped(TWT_OOB_TABLE);
            f.st.push_back(t->e[k]);
            return F_NEXT;
        }
        case 0x26: {
            Val v = pop(f);
            uint32_t k = pop32(f);
            RTable *t = f.inst->tables[i.a];
            if (k >= t->e.size())
                return trapped(TWT_OOB_TABLE);
            t->e[k] = v;
            return F_NEXT;
        }
        case 0x3f: f.st.push_back(mk(T_I32, f.inst->mems[i.mem]->pages)); return F_NEXT;
        case 0x40: {
            uint32_t n = pop32(f);
            f.st.push_back(mk(T_I32, (uint32_t)grow(*f.inst->mems[i.mem], n)));
            return F_NEXT;
        }
        case 0x41: f.st.push_back(mk(T_I32, i.c.lo)); return F_NEXT;
        case 0x42: f.st.push_back(mk(T_I64, i.c.lo)); return F_NEXT;
        case 0x43: f.st.push_back(mk(T_F32, i.c.lo)); return F_NEXT;
        case 0x44: f.st.push_back(mk(T_F64, i.c.lo)); return F_NEXT;
        case 0xd0: f.st.push_back(mk(i.types[0], 0)); return F_NEXT;
        case 0xd1: {
            Val v = pop(f);
            bool null = v.t == T_FUNCREF ? v.f == nullptr : v.t == T_EXNREF ? !v.e : v.v.lo == 0;
            f.st.push_back(mk(T_I32, null));
            return F_NEXT;
        }
        case 0xd2: {
            Val v = mk(T_FUNCREF, 0);
            v.f = f.inst->funcs[i.a];
            f.st.push_back(v);
            return F_NEXT;
        }
        case 0xfc08: { /* memory.init */
            uint64_t n = pop32(f), s = pop32(f), d = pop32(f);
            RMem *mem = f.inst->mems[i.mem];
            const Bytes &db = m.datas[i.a].bytes;
            uint64_t dl = f.inst->data_dropped[i.a] ? 0 : db.size();
            TrapSet t = 0;
            if (d + n > mem->b.size())
                t |= TS(TWT_OOB_MEM);
            if (s + n > dl)
                t |= TS(TWT_OOB_DATA);
            if (t) {
                trap = t;
                return F_TRAP;
            }
            for (uint64_t k = 0; k < n; k++)
                mem->b[d + k] = db[s + k];
            return F_NEXT;
        }
        case 0xfc09: f.inst->data_dropped[i.a] = true; return F_NEXT;
        case 0xfc0a: {
            uint64_t n = pop32(f), s = pop32(f), d = pop32(f);
            RMem *dm = f.inst->mems[i.mem], *sm = f.inst->mems[i.b];
            if (d + n > dm->b.size() || s + n > sm->b.size())
                return trapped(TWT_OOB_MEM);
            std::vector<uint8_t> tmp(sm->b.begin() + (long)s, sm->b.begin() + (long)(s + n));
            for (uint64_t k = 0; k < n; k++)
                dm->b[d + k] = tmp[k];
            return F_NEXT;
        }
        case 0xfc0b: {
            uint64_t n = pop32(f);
            uint8_t v = (uint8_t)pop32(f);
            uint64_t d = pop32(f);
            RMem *mem = f.inst->mems[i.mem];
            if (d + n > mem->b.size())
                return trapped(TWT_OOB_MEM);
            for (uint64_t k = 0; k < n; k++)
                mem->b[d + k] = v;
            return F_NEXT;
        }
        case 0xfc0c: {
            uint64_t n = pop32(f), s = pop32(f), d = pop32(f);
            RTable *t = f.inst->tables[i.b];
            const wb::Elem &e = m.elems[i.a];
            uint64_t el = f.inst->elem_dropped[i.a] ? 0 : ((e.flags & 4) ? e.exprs.size() : e.funcs.size());
            TrapSet ts = 0;
            if (d + n > t->e.size())
                ts |= TS(TWT_OOB_TABLE);
            if (s + n > el)
                ts |= TS(TWT_OOB_ELEM);
            if (ts) {
                trap = ts;
                return F_TRAP;
            }
            for (uint64_t k = 0; k < n; k++)
                t->e[d + k] = elemval(f.inst, e, s + k);
            return F_NEXT;
        }
        case 0xfc0d: f.inst->elem_dropped[i.a] = true; return F_NEXT;
        case 0xfc0e: {
            uint64_t n = pop32(f), s = pop32(f), d = pop32(f);
            RTable *dt = f.inst->tables[i.a], *st = f.inst->tables[i.b];
            if (d + n > dt->e.size() || s + n > st->e.size())
                return trapped(TWT_OOB_TABLE);
            std::vector<Val> tmp(st->e.begin() + (long)s, st->e.begin() + (long)(s + n));
            for (uint64_t k = 0; k < n; k++)
                dt->e[d + k] = tmp[k];
            return F_NEXT;
        }
        case 0xfc0f: {
            uint64_t n = pop32(f);
            Val v = pop(f);
            RTable *t = f.inst->tables[i.a];
            uint64_t old = t->e.size();
            if (old + n > t->max || old + n > t->grow_limit) {
                f.st.push_back(mk(T_I32, 0xffffffff));
                return F_NEXT;
            }
            t->e.resize(old + n, v);
            f.st.push_back(mk(T_I32, old));
            return F_NEXT;
        }
        case 0xfc10: f.st.push_back(mk(T_I32, f.inst->tables[i.a]->e.size())); return F_NEXT;
        case 0xfc11: {
            uint64_t n = pop32(f);
            Val v = pop(f);
            uint64_t d = pop32(f);
            RTable *t = f.inst->tables[i.a];
            if (d + n > t->e.size())
                return trapped(TWT_OOB_TABLE);
            for (uint64_t k = 0; k < n; k++)
                t->e[d + k] = v;
            return F_NEXT;
        }
        case 0xfe03: return F_NEXT;
        case 0xfd0c: f.st.push_back(mk(T_V128, i.c.lo, i.c.hi)); return F_NEXT;
        }
        if (op >= 0xfe10 && op <= 0xfe4e)
            return atomic(f, i);
        if (op == 0xfd00 || op == 0xfd0b) {
            RMem *mem = f.inst->mems[i.mem];
            Val v;
            if (op == 0xfd0b)
                v = pop(f);
            uint64_t ea = (uint64_t)pop32(f) + i.off;
            if (ea + 16 > mem->b.size())
                return trapped(TWT_OOB_MEM);
            if (op == 0xfd0b)
                memcpy(&mem->b[ea], &v.v, 16);
            else {
                Val r = mk(T_V128, 0);
                memcpy(&r.v, &mem->b[ea], 16);
                f.st.push_back(r);
            }
            return F_NEXT;
        }
        if (op >= 0xfd15 && op <= 0xfd22) {
            static const int W[] = {8, 8, 8, 16, 16, 16, 32, 32, 64, 64, 32, 32, 64, 64};
            static const uint8_t T[] = {T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I32, T_I64, T_I64, T_F32, T_F32, T_F64, T_F64};
            static const int K[] = {1, 0, 2, 1, 0, 2, 0, 2, 0, 2, 0, 2, 0, 2}; /* 1: sign extend, 2: replace */
            unsigned k = op - 0xfd15;
            Val s;
            if (K[k] == 2)
                s = pop(f);
            Val v = pop(f);
            uint8_t b[16];
            memcpy(b, &v.v, 16);
            int n = W[k] / 8;
            if (K[k] == 2) {
                for (int q = 0; q < n; q++)
                    b[(int)i.a * n + q] = (uint8_t)(s.v.lo >> (8 * q));
                memcpy(&v.v, b, 16);
                f.st.push_back(v);
            } else {
                uint64_t r = 0;
                for (int q = 0; q < n; q++)
                    r |= (uint64_t)b[(int)i.a * n + q] << (8 * q);
                if (K[k] == 1)
                    r = (uint32_t)((int32_t)((uint32_t)r << (32 - W[k])) >> (32 - W[k]));
                f.st.push_back(mk(T[k], r));
            }
            return F_NEXT;
        }
        if ((op >> 8) == 0xfd) {
            for (auto &so : ref::simd_ops)
                if (so.op == (op & 0xff)) {
                    const ref::SimdFn &fn = Validator::simdfn(op & 0xff);
                    ref::V vv[3] = {ref::V::zero(), ref::V::zero(), ref::V::zero()};
                    uint64_t sc = 0;
                    int nv = 0;
                    for (char ch : fn.p)
                        nv += ch == 'v';
                    for (size_t k = fn.p.size(); k-- > 0;) {
                        Val v = pop(f);
                        if (fn.p[k] == 'v')
                            vv[--nv] = ref::V::of(v.v);
                        else
                            sc = v.v.lo;
                    }
                    ref::VOut o = fn.f(vv[0], vv[1], vv[2], sc);
                    Val r;
                    if (o.scalar)
                        r = mk(T_I32, o.s);
                    else {
                        twv t = o.v.t();
                        r = mk(T_V128, t.lo, t.hi);
                    }
                    f.st.push_back(r);
                    return F_NEXT;
                }
        }
        fprintf(stderr, "reference interpreter: unhandled opcode %x\n", op);
        abort();
    }
    int atomic(Frame &f, const Instr &i)
    {
        unsigned g = (i.op - 0xfe10) / 7, k = (i.op - 0xfe10) % 7;
        int bytes;
        uint8_t t;
        atomic_shape(k, bytes, t);
        uint64_t M = bytes == 8 ? ~0ull : (1ull << (8 * bytes)) - 1;
        uint64_t v = 0, x = 0;
        if (g == 8) {
            v = pop(f).v.lo;
            x = pop(f).v.lo; /* expected */
        } else if (g >= 1)
            v = pop(f).v.lo;
        RMem *mem = f.inst->mems[i.mem];
        uint64_t ea = (uint64_t)pop32(f) + i.off;
        TrapSet ts = 0;
        if (ea % (uint64_t)bytes)
            ts |= TS(TWT_UNALIGNED_ATOMIC);
        if (ea + (uint64_t)bytes > mem->b.size())
            ts |= TS(TWT_OOB_MEM);
        if (ts) {
            trap = ts;
            return F_TRAP;
        }
        uint64_t old = 0;
        for (int q = 0; q < bytes; q++)
            old |= (uint64_t)mem->b[ea + (uint64_t)q] << (8 * q);
        uint64_t nv = old;
        switch (g) {
        case 1: nv = v; break;
        case 2: nv = old + v; break;
        case 3: nv = old - v; break;
        case 4: nv = old & v; break;
        case 5: nv = old | v; break;
        case 6: nv = old ^ v; break;
        case 7: nv = v; break;
        case 8:
            /* the expected operand is wrapped for narrow accesses */
            if (old == (x & M))
                nv = v;
            break;
        }
        if (g)
            for (int q = 0; q < bytes; q++)
                mem->b[ea + (uint64_t)q] = (uint8_t)(nv >> (8 * q));
        if (g != 1)
            f.st.push_back(mk(t, old));
        return F_NEXT;
    }
    int64_t grow(RMem &mem, uint64_t n)
    {
        uint64_t old = mem.pages, nw = old + n;
        uint64_t lim = mem.max;
        if (lim > mem.grow_limit)
            lim = mem.grow_limit;
        if (nw > lim)
            return -1;
        mem.pages = nw;
        mem.b.resize(nw << mem.shift, 0);
        return (int64_t)old;
    }
    Val elemval(RInst *in, const wb::Elem &e, uint64_t k)
    {
        if (e.flags & 4)
            return constval(in, e.exprs[k]);
        Val v = mk(T_FUNCREF, 0);
        v.f = in->funcs[e.funcs[k]];
        return v;
    }
    Val constval(RInst *in, const Bytes &b)
    {
        std::vector<Instr> v;
        decode(b, v);
        Frame f;
        f.inst = in;
        fuel += 100;
        seq(f, v);
        return f.st.back();
    }
    int invoke(RFunc *fn, std::vector<Val> args, std::vector<Val> &res)
    {
        bool counted = false;
        for (;;) {
            if (fn->host) {
                /* host functions use no wasm frame */
                int r = fn->host(*this, args, res);
                if (counted)
                    depth--;
                return r == 0 ? F_NEXT : r == -2 ? F_THROW : F_TRAP;
            }
            if (!counted) {
                if (depth + 1 > max_depth) {
                    trap = TS(TWT_FRAMES);
                    return F_TRAP;
                }
                depth++;
                counted = true;
                if (depth > peak)
                    peak = depth;
            }
            Frame f;
            f.inst = fn->inst;
            f.locals = args;
            for (auto &l : fn->code->locals)
                for (uint32_t k = 0; k < l.first; k++)
                    f.locals.push_back(mk(l.second, 0));
            f.nres = fn->ft.r.size();
            int r = seq(f, fn->body);
            if (r == F_TAIL) {
                size_t n = f.tail->ft.p.size();
                args.assign(f.st.end() - (long)n, f.st.end());
                fn = f.tail;
                continue;
            }
            depth--;
            if (r == F_TRAP || r == F_THROW)
                return r;
            res.assign(f.st.end() - (long)f.nres, f.st.end());
            return F_NEXT;
        }
    }

    /* imports resolved by the caller */
    struct Imports {
        std::vector<RFunc *> funcs;
        std::vector<RTable *> tables;
        std::vector<RMem *> mems;
        std::vector<RGlobal *> globals;
        std::vector<RTag *> tags;
    };
    RInst *allocate(const Module &m, const Imports &im)
    {
        oinsts.emplace_back(new RInst);
        RInst *in = oinsts.back().get();
        in->m = &m;
        in->funcs = im.funcs;
        in->tables = im.tables;
        in->mems = im.mems;
        in->globals = im.globals;
        in->tags = im.tags;
        for (auto &f : m.funcs) {
            ofuncs.emplace_back(new RFunc);
            RFunc *r = ofuncs.back().get();
            r->ft = m.types[f.type];
            r->inst = in;
            r->idx = (uint32_t)in->funcs.size();
            r->code = &f;
            decode(f.body, r->body);
            in->funcs.push_back(r);
        }
        for (auto &t : m.tables) {
            otables.emplace_back(new RTable);
            RTable *r = otables.back().get();
            r->t = t.t;
            r->max = t.l.hasmax ? t.l.max : 0xffffffff;
            r->hasmax = t.l.hasmax;
            r->e.resize(t.l.min, mk(t.t, 0));
            in->tables.push_back(r);
        }
        for (auto &l : m.mems) {
            omems.emplace_back(new RMem);
            RMem *r = omems.back().get();
            r->shift = l.custom ? l.shift : 16;
            r->shared = l.shared;
            r->hasmax = l.hasmax;
            r->max = l.hasmax ? l.max : (r->shift == 16 ? 65536 : 0xffffffffull);
            r->pages = l.min;
            r->b.resize(l.min << r->shift, 0);
            in->mems.push_back(r);
        }
        for (auto t : m.tags) {
            otags.emplace_back(new RTag{m.types[t]});
            in->tags.push_back(otags.back().get());
        }
        for (auto &g : m.globals) {
            oglobals.emplace_back(new RGlobal);
            RGlobal *r = oglobals.back().get();
            r->mut = g.mut;
            Val v = constval(in, g.init);
            r->v = v;
            in->globals.push_back(r);
        }
        in->data_dropped.assign(m.datas.size(), false);
        in->elem_dropped.assign(m.elems.size(), false);
        return in;
    }
    /* element segments, data segments, start; 0 or F_TRAP/F_THROW */
    int init(RInst *in)
    {
        const Module &m = *in->m;
        for (size_t i = 0; i < m.elems.size(); i++) {
            auto &e = m.elems[i];
            if (!(e.flags & 1)) {
                RTable *t = in->tables[(e.flags & 2) ? e.table : 0];
                uint64_t off = (uint32_t)constval(in, e.off).v.lo;
                uint64_t n = (e.flags & 4) ? e.exprs.size() : e.funcs.size();
                if (off + n > t->e.size())
                    return trapped(TWT_OOB_TABLE);
                for (uint64_t k = 0; k < n; k++)
                    t->e[off + k] = elemval(in, e, k);
                in->elem_dropped[i] = true;
            } else if (e.flags & 2)
                in->elem_dropped[i] = true; /* declarative */
        }
        for (size_t i = 0; i < m.datas.size(); i++) {
            auto &d = m.datas[i];
            if (d.flags != 1) {
                RMem *mem = in->mems[d.flags == 2 ? d.mem : 0];
                uint64_t off = (uint32_t)constval(in, d.off).v.lo;
                if (off + d.bytes.size() > mem->b.size())
                    return trapped(TWT_OOB_MEM);
                for (size_t k = 0; k < d.bytes.size(); k++)
                    mem->b[off + k] = d.bytes[k];
                in->data_dropped[i] = true;
            }
        }
        if (m.start >= 0) {
            std::vector<Val> r;
            int x = invoke(in->funcs[(size_t)m.start], {}, r);
            if (x == F_THROW)
                trap = TS(TWT_UNCAUGHT);
            return x;
        }
        return F_NEXT;
    }
    /* 0: results in res; 1: trap (set in trap); 2: fuel exhausted */
    int call(RFunc *fn, const std::vector<Val> &args, std::vector<Val> &res)
    {
        trap = 0;
        exn.reset();
        out_of_fuel = false;
        depth = 0;
        peak = 0;
        int r = invoke(fn, args, res);
        if (out_of_fuel)
            return 2;
        if (r == F_THROW) {
            trap = TS(TWT_UNCAUGHT);
            return 1;
        }
        return r == F_NEXT ? 0 : 1;
    }
};

static inline bool trap_ok(TrapSet s, int t) { return (s >> t) & 1; }
static inline std::string trapset_str(TrapSet s)
{
    std::string r;
    for (int t = 0; t <= TWT_MISC; t++)
        if (s >> t & 1)
            r += std::string(r.empty() ? "" : "|") + tw_trap_name(t);
    return r.empty() ? "none" : r;
}
} // namespace rw
#endif
