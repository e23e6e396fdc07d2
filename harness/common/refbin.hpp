/*
 * Reference decoder of the binary format: bytes -> wb::Module, recording
 * where every LEB128 field and size field is.  Written from the
 * specification; nothing is shared with the implementation.
 */
#ifndef VERIF_REFBIN_HPP
#define VERIF_REFBIN_HPP
#include "refwasm.hpp"
#include <map>

namespace rb {
using namespace wb;

enum Verdict { ACCEPT, REJECT, EITHER };

struct Field {
    size_t pos, len;
    int bits;
    bool sgn;
    std::vector<size_t> enclosing; /* indices of size fields whose range contains this */
    bool size;                     /* a size field itself (section or body) */
    size_t endpos;                 /* for size fields: end of the range */
};
struct Section {
    int id;
    size_t start, body, end;
};

struct Parser {
    const Bytes &b;
    size_t p = 0, ep;
    bool bad = false;
    bool either = false; /* the specification (or an implementation limit) leaves the verdict open */
    std::string why;
    Module m;
    std::vector<Field> fields;
    std::vector<size_t> encl;
    std::vector<Section> secs;
    bool record = false;
    uint64_t codecount = 0;
    bool has_code = false, has_dc = false;
    uint64_t dc = 0;

    Parser(const Bytes &bb) : b(bb), ep(bb.size()) {}
    bool fail(const char *w)
    {
        if (!bad)
            why = w;
        bad = true;
        return false;
    }
    uint8_t byte()
    {
        if (p >= ep) {
            fail("unexpected end");
            return 0;
        }
        return b[p++];
    }
    uint64_t u32(bool size = false)
    {
        size_t s = p;
        uint64_t r = 0;
        for (int sh = 0;; sh += 7) {
            uint8_t c = byte();
            if (bad)
                return 0;
            if (sh > 28 || (sh == 28 && (c & 0x70))) {
                fail("LEB128 too long or too large");
                return 0;
            }
            r |= (uint64_t)(c & 0x7f) << sh;
            if (!(c & 0x80))
                break;
        }
        if (record)
            fields.push_back({s, p - s, 32, false, encl, size, 0});
        return r;
    }
    std::string nm()
    {
        uint64_t n = u32();
        if (bad)
            return "";
        if (n > ep - p) {
            fail("name too long");
            return "";
        }
        std::string s((const char *)b.data() + p, (size_t)n);
        p += (size_t)n;
        if (!utf8(s))
            fail("bad UTF-8");
        return s;
    }
    static bool utf8(const std::string &s)
    {
        size_t i = 0;
        auto cont = [&](size_t k) { return k < s.size() && ((uint8_t)s[k] & 0xc0) == 0x80; };
        while (i < s.size()) {
            uint8_t c = (uint8_t)s[i];
            if (c < 0x80)
                i++;
            else if (c >= 0xc2 && c <= 0xdf) {
                if (!cont(i + 1))
                    return false;
                i += 2;
            } else if (c >= 0xe0 && c <= 0xef) {
                if (!cont(i + 1) || !cont(i + 2))
                    return false;
                uint8_t d = (uint8_t)s[i + 1];
                if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0))
                    return false;
                i += 3;
            } else if (c >= 0xf0 && c <= 0xf4) {
                if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3))
                    return false;
                uint8_t d = (uint8_t)s[i + 1];
                if ((c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90))
                    return false;
                i += 4;
            } else
                return false;
        }
        return true;
    }
    uint8_t valtype()
    {
        uint8_t t = byte();
        if (!bad && !rw::Dec::is_vt(t))
            fail("value type");
        return t;
    }
    uint8_t reftype()
    {
        uint8_t t = byte();
        if (!bad && t != T_FUNCREF && t != T_EXTERNREF && t != T_EXNREF)
            fail("reference type");
        return t;
    }
    void limits(Lim &l, bool mem)
    {
        uint8_t f = byte();
        if (bad)
            return;
        if (f & ~(mem ? 0x0bu : 0x01u)) {
            fail("limits flags");
            return;
        }
        l.hasmax = f & 1;
        l.shared = f & 2;
        l.custom = f & 8;
        l.min = u32();
        if (l.hasmax)
            l.max = u32();
        if (l.custom) {
            uint64_t s = u32();
            if (!bad && s != 0 && s != 16)
                fail("page size");
            l.shift = (unsigned)s;
        }
    }
    void tagtype(uint32_t &t)
    {
        size_t s = p;
        uint64_t a = u32();
        if (!bad && a != 0)
            fail("tag attribute");
        if (p - s > 1)
            either = true; /* a byte in the specification */
        t = (uint32_t)u32();
    }
    /* an expression up to and including its end */
    void expr(Bytes &out)
    {
        if (bad)
            return;
        Bytes sub(b.begin() + (long)p, b.begin() + (long)ep);
        rw::Dec d{sub};
        if (record)
            d.log = &dlog;
        dlog.clear();
        std::vector<rw::Instr> v;
        int t = d.seq(v, 0);
        either |= d.amb;
        if (d.bad || t != 0x0b) {
            fail("malformed expression");
            return;
        }
        if (record)
            for (auto &f : dlog)
                fields.push_back({p + f.pos, f.len, f.bits, f.sgn, encl, false, 0});
        out.assign(sub.begin(), sub.begin() + (long)d.p - 1);
        p += d.p;
    }
    std::vector<rw::LebLog> dlog;
    /* every count of elements needs at least that many bytes */
    uint64_t count()
    {
        uint64_t n = u32();
        if (!bad && n > ep - p)
            fail("count too large");
        return n;
    }
    void section_body(int id)
    {
        switch (id) {
        case 1:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                if (byte() != 0x60)
                    fail("function type");
                FT t;
                for (uint64_t k = count(); k-- > 0 && !bad;)
                    t.p.push_back(valtype());
                for (uint64_t k = count(); k-- > 0 && !bad;)
                    t.r.push_back(valtype());
                m.types.push_back(t);
            }
            break;
        case 2:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Import i;
                i.mod = nm();
                i.name = nm();
                i.kind = byte();
                if (bad)
                    return;
                switch (i.kind) {
                case 0: i.typeidx = (uint32_t)u32(); break;
                case 1: i.vt = reftype(), limits(i.l, false); break;
                case 2: limits(i.l, true); break;
                case 3: {
                    i.vt = valtype();
                    uint8_t mu = byte();
                    if (!bad && mu > 1)
                        fail("mutability");
                    i.mut = mu;
                    break;
                }
                case 4: tagtype(i.typeidx); break;
                default: fail("import kind");
                }
                m.imports.push_back(i);
            }
            break;
        case 3:
            for (uint64_t n = count(); n-- > 0 && !bad;)
                m.funcs.push_back({(uint32_t)u32(), {}, {}});
            break;
        case 4:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Table t;
                t.t = reftype();
                limits(t.l, false);
                m.tables.push_back(t);
            }
            break;
        case 5:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Lim l;
                limits(l, true);
                m.mems.push_back(l);
            }
            break;
        case 13:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                uint32_t t = 0;
                tagtype(t);
                m.tags.push_back(t);
            }
            break;
        case 6:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Global g;
                g.t = valtype();
                uint8_t mu = byte();
                if (!bad && mu > 1)
                    fail("mutability");
                g.mut = mu;
                expr(g.init);
                m.globals.push_back(g);
            }
            break;
        case 7:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Export e;
                e.name = nm();
                e.kind = byte();
                e.idx = (uint32_t)u32();
                if (!bad && e.kind > 4)
                    fail("export kind");
                m.exports.push_back(e);
            }
            break;
        case 8: m.start = (int64_t)u32(); break;
        case 9:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Elem e;
                uint64_t f = u32();
                if (bad || f > 7) {
                    fail("element flags");
                    return;
                }
                e.flags = (int)f;
                if (f == 2 || f == 6)
                    e.table = (uint32_t)u32();
                if (!(f & 1))
                    expr(e.off);
                if (f & 3) {
                    if (f & 4)
                        e.t = reftype();
                    else if (byte() != 0)
                        fail("element kind");
                }
                for (uint64_t k = count(); k-- > 0 && !bad;) {
                    if (f & 4) {
                        Bytes x;
                        expr(x);
                        e.exprs.push_back(x);
                    } else
                        e.funcs.push_back((uint32_t)u32());
                }
                m.elems.push_back(e);
            }
            break;
        case 12:
            dc = u32();
            has_dc = true;
            m.datacount = true;
            break;
        case 10: {
            codecount = count();
            has_code = true;
            if (!bad && codecount != m.funcs.size()) {
                fail("function and code counts differ");
                return;
            }
            for (uint64_t n = 0; n < codecount && !bad; n++) {
                uint64_t sz = u32(true);
                if (bad || sz > ep - p) {
                    fail("body size");
                    return;
                }
                size_t save = ep;
                ep = p + (size_t)sz;
                if (record) {
                    fields.back().endpos = ep;
                    encl.push_back(fields.size() - 1);
                }
                uint64_t tot = 0;
                for (uint64_t k = count(); k-- > 0 && !bad;) {
                    uint64_t c = u32();
                    uint8_t t = valtype();
                    tot += c;
                    if (tot > 0xffffffffull)
                        fail("too many locals");
                    m.funcs[n].locals.push_back({(uint32_t)c, t});
                }
                if (tot > 50000) {
                    either = true; /* beyond implementation limits; too large for the validator */
                    m.funcs[n].locals.clear();
                    big = true;
                }
                expr(m.funcs[n].body);
                if (!bad && p != ep)
                    fail("trailing bytes after a body");
                if (record)
                    encl.pop_back();
                ep = save;
            }
            break;
        }
        case 11:
            for (uint64_t n = count(); n-- > 0 && !bad;) {
                Data d;
                uint64_t f = u32();
                if (bad || f > 2) {
                    fail("data flags");
                    return;
                }
                d.flags = (int)f;
                if (f == 2)
                    d.mem = (uint32_t)u32();
                if (f != 1)
                    expr(d.off);
                uint64_t k = u32();
                if (bad || k > ep - p) {
                    fail("data size");
                    return;
                }
                d.bytes.assign(b.begin() + (long)p, b.begin() + (long)(p + k));
                p += (size_t)k;
                m.datas.push_back(d);
            }
            break;
        default: fail("unknown section");
        }
    }
    bool big = false;
    void dylink()
    {
        /* tool convention: well-formed subsections are accepted; what happens to malformed ones is not specified */
        size_t q0 = p;
        bool good = true;
        unsigned seen = 0;
        std::vector<Field> keep;
        bool rec = record;
        record = false;
        if (p == ep)
            good = false;
        while (p < ep && !bad) {
            uint8_t t = byte();
            uint64_t n = u32();
            if (bad || n > ep - p) {
                good = false;
                break;
            }
            if (t < 8 && (seen >> t & 1))
                good = false;
            if (t < 8)
                seen |= 1u << t;
            size_t save = ep;
            ep = p + (size_t)n;
            switch (t) {
            case 1: u32(), u32(), u32(), u32(); break;
            case 2:
                for (uint64_t k = count(); k-- > 0 && !bad;)
                    nm();
                break;
            case 4:
                for (uint64_t k = count(); k-- > 0 && !bad;) {
                    nm();
                    nm();
                    u32();
                }
                break;
            default: p = ep;
            }
            if (bad || p != ep)
                good = false;
            ep = save;
            if (!good)
                break;
        }
        record = rec;
        if (!good || bad || ndylink++)
            either = true;
        bad = false;
        why.clear();
        p = q0;
    }
    int ndylink = 0;
    /* the name section, when it is well formed */
    int nname = 0;
    bool names_ok = false, has_modname = false;
    std::string modname;
    std::map<uint64_t, std::string> names[3]; /* func, global, data */
    void namesec()
    {
        size_t q0 = p, ep0 = ep;
        bool rec = record;
        record = false;
        names_ok = nname++ == 0;
        int prev = -1;
        while (p < ep && !bad) {
            uint64_t t = u32(), n = u32();
            if (bad || n > ep - p || t > 0x7f || (int)t <= prev) {
                names_ok = false;
                break;
            }
            prev = (int)t;
            size_t save = ep, end = p + (size_t)n;
            ep = end;
            if (t == 0) {
                modname = nm();
                has_modname = true;
                if (p != ep)
                    names_ok = false;
            } else if (t == 1 || t == 7 || t == 9) {
                int64_t last = -1;
                for (uint64_t k = count(); k-- > 0 && !bad;) {
                    uint64_t i = u32();
                    std::string s = nm();
                    if ((int64_t)i <= last)
                        names_ok = false;
                    last = (int64_t)i;
                    names[t == 1 ? 0 : t == 7 ? 1 : 2][i] = s;
                }
                if (p != ep)
                    names_ok = false;
            }
            if (bad)
                names_ok = false;
            p = end;
            ep = save;
        }
        if (bad)
            names_ok = false;
        bad = false;
        why.clear();
        record = rec;
        p = q0;
        ep = ep0;
    }
    bool parse()
    {
        static const uint8_t H[8] = {0, 'a', 's', 'm', 1, 0, 0, 0};
        if (b.size() < 8 || memcmp(b.data(), H, 8))
            return fail("header");
        p = 8;
        static const int order[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6};
        int last = 0;
        while (p < b.size() && !bad) {
            size_t start = p;
            ep = b.size();
            uint8_t id = byte();
            uint64_t sz = u32(true);
            if (bad || sz > ep - p)
                return fail("section size");
            if (id > 13)
                return fail("unknown section");
            if (id) {
                if (order[id] <= last)
                    return fail("section order");
                last = order[id];
            }
            ep = p + (size_t)sz;
            if (record) {
                fields.back().endpos = ep;
                encl.push_back(fields.size() - 1);
            }
            secs.push_back({id, start, p, ep});
            if (id == 0) {
                std::string n = nm();
                if (!bad && n == "dylink.0")
                    dylink();
                if (!bad && n == "name")
                    namesec();
                if (!bad)
                    p = ep;
            } else
                section_body(id);
            if (!bad && p != ep)
                fail("trailing bytes in a section");
            if (record)
                encl.pop_back();
        }
        if (!bad && !has_code && !m.funcs.empty())
            fail("no code section");
        if (!bad && has_dc && dc != m.datas.size())
            fail("data count");
        return !bad;
    }
};

static inline Verdict verdict(Parser &q, std::string &why)
{
    if (!q.parse()) {
        why = q.why;
        return REJECT;
    }
    if (q.big)
        return EITHER;
    rw::Validator v(q.m);
    if (!v.module()) {
        why = v.why;
        return REJECT;
    }
    return q.either || v.unsupported ? EITHER : ACCEPT;
}
} // namespace rb
#endif
