/* wasm binary builder */
#ifndef VERIF_WB_HPP
#define VERIF_WB_HPP
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "tw.h"

namespace wb {
typedef std::vector<uint8_t> Bytes;

static inline void u8(Bytes &b, unsigned v) { b.push_back((uint8_t)v); }
static inline void uleb(Bytes &b, uint64_t v)
{
    do {
        uint8_t c = v & 0x7f;
        v >>= 7;
        if (v)
            c |= 0x80;
        b.push_back(c);
    } while (v);
}
static inline void sleb(Bytes &b, int64_t v)
{
    for (;;) {
        uint8_t c = v & 0x7f;
        v >>= 7;
        if ((v == 0 && !(c & 0x40)) || (v == -1 && (c & 0x40))) {
            b.push_back(c);
            return;
        }
        b.push_back(c | 0x80);
    }
}
static inline void raw(Bytes &b, const void *p, size_t n)
{
    const uint8_t *q = (const uint8_t *)p;
    b.insert(b.end(), q, q + n);
}
static inline void cat(Bytes &b, const Bytes &o)
{
    b.insert(b.end(), o.begin(), o.end());
}
static inline void name(Bytes &b, const std::string &s)
{
    uleb(b, s.size());
    raw(b, s.data(), s.size());
}
static inline void i32c(Bytes &b, uint32_t v)
{
    u8(b, 0x41);
    sleb(b, (int32_t)v);
}
static inline void i64c(Bytes &b, uint64_t v)
{
    u8(b, 0x42);
    sleb(b, (int64_t)v);
}
static inline void f32c(Bytes &b, uint32_t v)
{
    u8(b, 0x43);
    raw(b, &v, 4);
}
static inline void f64c(Bytes &b, uint64_t v)
{
    u8(b, 0x44);
    raw(b, &v, 8);
}
static inline void v128c(Bytes &b, twv v)
{
    u8(b, 0xfd);
    uleb(b, 12);
    raw(b, &v, 16);
}
static inline void constant(Bytes &b, int t, twv v)
{
    switch (t) {
    case T_I32: i32c(b, (uint32_t)v.lo); break;
    case T_I64: i64c(b, v.lo); break;
    case T_F32: f32c(b, (uint32_t)v.lo); break;
    case T_F64: f64c(b, v.lo); break;
    case T_V128: v128c(b, v); break;
    case T_FUNCREF:
    case T_EXTERNREF:
    case T_EXNREF:
        u8(b, 0xd0);
        u8(b, (unsigned)t);
        break;
    }
}
static inline void lget(Bytes &b, uint32_t i) { u8(b, 0x20); uleb(b, i); }
static inline void lset(Bytes &b, uint32_t i) { u8(b, 0x21); uleb(b, i); }
static inline void gget(Bytes &b, uint32_t i) { u8(b, 0x23); uleb(b, i); }
static inline void gset(Bytes &b, uint32_t i) { u8(b, 0x24); uleb(b, i); }

struct FT {
    std::vector<uint8_t> p, r;
    bool operator==(const FT &o) const { return p == o.p && r == o.r; }
};
struct Lim {
    uint64_t min = 0;
    bool hasmax = false;
    uint64_t max = 0;
    bool shared = false;
    bool custom = false;
    unsigned shift = 16;
};
static inline void lim(Bytes &b, const Lim &l)
{
    u8(b, (l.hasmax ? 1u : 0u) | (l.shared ? 2u : 0u) | (l.custom ? 8u : 0u));
    uleb(b, l.min);
    if (l.hasmax)
        uleb(b, l.max);
    if (l.custom)
        uleb(b, l.shift);
}

struct Import {
    std::string mod, name;
    int kind;
    uint32_t typeidx = 0; /* func, tag */
    uint8_t vt = 0;       /* table elem type, global type */
    bool mut = false;
    Lim l;
};
struct Func {
    uint32_t type;
    std::vector<std::pair<uint32_t, uint8_t>> locals;
    Bytes body; /* without the final end */
};
struct Global {
    uint8_t t;
    bool mut;
    Bytes init; /* without end */
};
struct Export {
    std::string name;
    int kind;
    uint32_t idx;
};
struct Table {
    uint8_t t;
    Lim l;
};
struct Elem {
    int flags = 0; /* 0..7 as in the binary format */
    uint32_t table = 0;
    Bytes off;
    uint8_t t = T_FUNCREF;
    std::vector<uint32_t> funcs;
    std::vector<Bytes> exprs; /* for flags & 4 */
};
struct Data {
    int flags = 0; /* 0 active, 1 passive, 2 active with memidx */
    uint32_t mem = 0;
    Bytes off;
    Bytes bytes;
};

static inline void section(Bytes &out, int id, const Bytes &c)
{
    u8(out, (unsigned)id);
    uleb(out, c.size());
    cat(out, c);
}

struct Module {
    std::vector<FT> types;
    std::vector<Import> imports;
    std::vector<Func> funcs;
    std::vector<Table> tables;
    std::vector<Lim> mems;
    std::vector<uint32_t> tags; /* type idx */
    std::vector<Global> globals;
    std::vector<Export> exports;
    int64_t start = -1;
    std::vector<Elem> elems;
    std::vector<Data> datas;
    bool datacount = false;

    uint32_t type(const FT &t)
    {
        for (size_t i = 0; i < types.size(); i++)
            if (types[i] == t)
                return (uint32_t)i;
        types.push_back(t);
        return (uint32_t)types.size() - 1;
    }
    uint32_t nimp(int kind) const
    {
        uint32_t n = 0;
        for (auto &i : imports)
            n += i.kind == kind;
        return n;
    }
    uint32_t func(const FT &t, const Bytes &body,
                  std::vector<std::pair<uint32_t, uint8_t>> locals = {})
    {
        funcs.push_back({type(t), locals, body});
        return nimp(0) + (uint32_t)funcs.size() - 1;
    }
    void exp(const std::string &n, int kind, uint32_t idx)
    {
        exports.push_back({n, kind, idx});
    }
    static void ftype(Bytes &b, const FT &t)
    {
        u8(b, 0x60);
        uleb(b, t.p.size());
        raw(b, t.p.data(), t.p.size());
        uleb(b, t.r.size());
        raw(b, t.r.data(), t.r.size());
    }
    /* contents of a section, empty when the section is absent */
    Bytes sec(int id) const
    {
        Bytes c;
        switch (id) {
        case 1:
            if (types.empty())
                break;
            uleb(c, types.size());
            for (auto &t : types)
                ftype(c, t);
            break;
        case 2:
            if (imports.empty())
                break;
            uleb(c, imports.size());
            for (auto &i : imports) {
                name(c, i.mod);
                name(c, i.name);
                u8(c, (unsigned)i.kind);
                switch (i.kind) {
                case 0: uleb(c, i.typeidx); break;
                case 1:
                    u8(c, i.vt);
                    lim(c, i.l);
                    break;
                case 2: lim(c, i.l); break;
                case 3:
                    u8(c, i.vt);
                    u8(c, i.mut);
                    break;
                case 4:
                    u8(c, 0);
                    uleb(c, i.typeidx);
                    break;
                }
            }
            break;
        case 3:
            if (funcs.empty())
                break;
            uleb(c, funcs.size());
            for (auto &f : funcs)
                uleb(c, f.type);
            break;
        case 4:
            if (tables.empty())
                break;
            uleb(c, tables.size());
            for (auto &t : tables) {
                u8(c, t.t);
                lim(c, t.l);
            }
            break;
        case 5:
            if (mems.empty())
                break;
            uleb(c, mems.size());
            for (auto &m : mems)
                lim(c, m);
            break;
        case 13:
            if (tags.empty())
                break;
            uleb(c, tags.size());
            for (auto t : tags) {
                u8(c, 0);
                uleb(c, t);
            }
            break;
        case 6:
            if (globals.empty())
                break;
            uleb(c, globals.size());
            for (auto &g : globals) {
                u8(c, g.t);
                u8(c, g.mut);
                cat(c, g.init);
                u8(c, 0x0b);
            }
            break;
        case 7:
            if (exports.empty())
                break;
            uleb(c, exports.size());
            for (auto &e : exports) {
                name(c, e.name);
                u8(c, (unsigned)e.kind);
                uleb(c, e.idx);
            }
            break;
        case 8:
            if (start < 0)
                break;
            uleb(c, (uint64_t)start);
            break;
        case 9:
            if (elems.empty())
                break;
            uleb(c, elems.size());
            for (auto &e : elems) {
                uleb(c, (uint64_t)e.flags);
                if (e.flags == 2 || e.flags == 6)
                    uleb(c, e.table);
                if (!(e.flags & 1)) {
                    cat(c, e.off);
                    u8(c, 0x0b);
                }
                if (e.flags & 3) {
                    if (e.flags & 4)
                        u8(c, e.t);
                    else
                        u8(c, 0);
                }
                if (e.flags & 4) {
                    uleb(c, e.exprs.size());
                    for (auto &x : e.exprs) {
                        cat(c, x);
                        u8(c, 0x0b);
                    }
                } else {
                    uleb(c, e.funcs.size());
                    for (auto f : e.funcs)
                        uleb(c, f);
                }
            }
            break;
        case 12:
            if (!datacount)
                break;
            uleb(c, datas.size());
            break;
        case 10:
            if (funcs.empty())
                break;
            uleb(c, funcs.size());
            for (auto &f : funcs) {
                Bytes b;
                uleb(b, f.locals.size());
                for (auto &l : f.locals) {
                    uleb(b, l.first);
                    u8(b, l.second);
                }
                cat(b, f.body);
                u8(b, 0x0b);
                uleb(c, b.size());
                cat(c, b);
            }
            break;
        case 11:
            if (datas.empty())
                break;
            uleb(c, datas.size());
            for (auto &d : datas) {
                uleb(c, (uint64_t)d.flags);
                if (d.flags == 2)
                    uleb(c, d.mem);
                if (d.flags != 1) {
                    cat(c, d.off);
                    u8(c, 0x0b);
                }
                uleb(c, d.bytes.size());
                cat(c, d.bytes);
            }
            break;
        }
        return c;
    }
    static void header(Bytes &b)
    {
        static const uint8_t h[8] = {0, 'a', 's', 'm', 1, 0, 0, 0};
        raw(b, h, 8);
    }
    Bytes encode() const
    {
        static const int order[] = {1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11};
        Bytes b;
        header(b);
        for (int id : order) {
            Bytes c = sec(id);
            if (!c.empty())
                section(b, id, c);
        }
        return b;
    }
};

static inline std::string hex(const Bytes &b, size_t max = 2000)
{
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < b.size() && s.size() < max; i++) {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    return s;
}
} // namespace wb
#endif
