/* the atomic instructions and what they do, from the threads proposal */
#ifndef VERIF_ATOPS_HPP
#define VERIF_ATOPS_HPP
#include <string>
#include <vector>
#include "wb.hpp"

namespace at {
enum Kind { LOAD, STORE, RMW, CMPX, NOTIFY, WAIT, FENCE };
enum Rmw { ADD, SUB, AND, OR, XOR, XCHG };
struct Op {
    std::string name;
    unsigned code;
    Kind kind;
    unsigned stack; /* 32, 64 */
    unsigned bits;  /* accessed */
    Rmw rmw;
};
static inline std::vector<Op> ops()
{
    std::vector<Op> v;
    struct {
        unsigned s, b;
    } w[7] = {{32, 32}, {64, 64}, {32, 8}, {32, 16}, {64, 8}, {64, 16}, {64, 32}};
    static const char *const rn[] = {"add", "sub", "and", "or", "xor", "xchg", "cmpxchg"};
    auto nm = [&](unsigned i, const std::string &x) {
        return "i" + std::to_string(w[i].s) + ".atomic." + x + " " + std::to_string(w[i].b);
    };
    for (unsigned i = 0; i < 7; i++)
        v.push_back({nm(i, "load"), 0x10 + i, LOAD, w[i].s, w[i].b, ADD});
    for (unsigned i = 0; i < 7; i++)
        v.push_back({nm(i, "store"), 0x17 + i, STORE, w[i].s, w[i].b, ADD});
    for (unsigned r = 0; r < 7; r++)
        for (unsigned i = 0; i < 7; i++)
            v.push_back({nm(i, rn[r]), 0x1e + 7 * r + i, r == 6 ? CMPX : RMW, w[i].s,
                         w[i].b, (Rmw)r});
    return v;
}
static inline uint64_t mask(unsigned bits)
{
    return bits == 64 ? ~0ull : (1ull << bits) - 1;
}
static inline uint64_t get(const uint8_t *p, unsigned bits)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < bits / 8; i++)
        v |= (uint64_t)p[i] << (8 * i);
    return v;
}
static inline void put(uint8_t *p, unsigned bits, uint64_t v)
{
    for (unsigned i = 0; i < bits / 8; i++)
        p[i] = (uint8_t)(v >> (8 * i));
}
/* a: operand or expected; b: replacement.  returns the result */
static inline uint64_t apply(const Op &o, uint8_t *p, uint64_t a, uint64_t b)
{
    a &= mask(o.stack);
    b &= mask(o.stack);
    uint64_t old = get(p, o.bits);
    switch (o.kind) {
    case LOAD:
        return old;
    case STORE:
        put(p, o.bits, a);
        return 0;
    case RMW: {
        uint64_t n = 0;
        switch (o.rmw) {
        case ADD: n = old + a; break;
        case SUB: n = old - a; break;
        case AND: n = old & a; break;
        case OR: n = old | a; break;
        case XOR: n = old ^ a; break;
        case XCHG: n = a; break;
        }
        put(p, o.bits, n);
        return old;
    }
    case CMPX:
        if (old == a)
            put(p, o.bits, b);
        return old;
    default:
        return 0;
    }
}
static inline unsigned lg(unsigned bits)
{
    return bits == 8 ? 0 : bits == 16 ? 1 : bits == 32 ? 2 : 3;
}
static inline void emit(wb::Bytes &b, const Op &o, uint32_t off, uint32_t mem = 0)
{
    wb::u8(b, 0xfe);
    wb::uleb(b, o.code);
    if (o.kind == FENCE) {
        wb::u8(b, 0);
        return;
    }
    wb::uleb(b, lg(o.bits) | (mem ? 0x40u : 0));
    if (mem)
        wb::uleb(b, mem);
    wb::uleb(b, off);
}
}
#endif
