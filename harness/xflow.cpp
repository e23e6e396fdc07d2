/*
 * C06: control flow across module instances.  Two or three modules that agree
 * byte for byte up to the bodies, so that program counters of one are also
 * block addresses of the others, calling each other in the middle of and
 * between branches; every pair of bodies, call form and order.
 */
#include "world.hpp"
using namespace wb;
using namespace pr;

static mc::Explorer *X;
static int c_mods, c_calls;
static tw_env *Env;

/* block shapes at one address: selector in local 0, accumulator in local 1 */
static const int NSHAPE = 12;
static void acc(Bytes &b, uint32_t k)
{
    lget(b, 1);
    i32c(b, 31);
    u8(b, 0x6c);
    i32c(b, k & 63);
    u8(b, 0x6a);
    lset(b, 1);
}
static void shape(Bytes &b, int s, unsigned pad)
{
    auto nops = [&](unsigned n) {
        for (unsigned i = 0; i < n; i++)
            u8(b, 0x01);
    };
    switch (s) {
    case 0: /* block, br_if out */
        u8(b, 0x02), u8(b, 0x40);
        lget(b, 0);
        u8(b, 0x0d), u8(b, 0);
        nops(pad);
        acc(b, 3);
        u8(b, 0x0b);
        acc(b, 5);
        break;
    case 1: /* if without else */
        lget(b, 0);
        u8(b, 0x04), u8(b, 0x40);
        nops(pad);
        acc(b, 7);
        u8(b, 0x0b);
        acc(b, 9);
        break;
    case 2: /* if with else */
        lget(b, 0);
        u8(b, 0x04), u8(b, 0x40);
        nops(pad);
        acc(b, 11);
        u8(b, 0x05);
        nops(pad / 2);
        acc(b, 13);
        u8(b, 0x0b);
        acc(b, 15);
        break;
    case 3: /* block with a result, br_if */
        u8(b, 0x02), u8(b, T_I32);
        i32c(b, 17);
        lget(b, 0);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x1a);
        nops(pad);
        i32c(b, 19);
        u8(b, 0x0b);
        lget(b, 1);
        u8(b, 0x6a);
        lset(b, 1);
        break;
    case 4: /* loop, twice when the selector is set */
        u8(b, 0x03), u8(b, 0x40);
        acc(b, 21);
        nops(pad);
        lget(b, 0);
        i32c(b, 0);
        lset(b, 0);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x0b);
        acc(b, 23);
        break;
    case 5: /* nested blocks, br_table */
        u8(b, 0x02), u8(b, 0x40);
        u8(b, 0x02), u8(b, 0x40);
        lget(b, 0);
        u8(b, 0x0e), u8(b, 1), u8(b, 0), u8(b, 1);
        u8(b, 0x0b);
        acc(b, 25);
        nops(pad);
        u8(b, 0x0b);
        acc(b, 27);
        break;
    case 6: /* block with an i64 result over junk */
        u8(b, 0x02), u8(b, T_I64);
        i32c(b, 1);
        i64c(b, 29);
        lget(b, 0);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x1a);
        u8(b, 0x1a);
        nops(pad);
        i64c(b, 31);
        u8(b, 0x0b);
        u8(b, 0xa7);
        lget(b, 1);
        u8(b, 0x6a);
        lset(b, 1);
        break;
    case 7: /* if result else */
        lget(b, 0);
        u8(b, 0x04), u8(b, T_I32);
        nops(pad);
        i32c(b, 33);
        u8(b, 0x05);
        i32c(b, 35);
        u8(b, 0x0b);
        lget(b, 1);
        u8(b, 0x6a);
        lset(b, 1);
        break;
    case 8: /* block, return from inside */
        u8(b, 0x02), u8(b, 0x40);
        u8(b, 0x02), u8(b, 0x40);
        lget(b, 0);
        u8(b, 0x0d), u8(b, 1);
        acc(b, 37);
        u8(b, 0x0c), u8(b, 0);
        nops(pad);
        u8(b, 0x0b);
        acc(b, 39);
        u8(b, 0x0b);
        acc(b, 41);
        break;
    case 9: /* v128 result */
        u8(b, 0x02), u8(b, T_V128);
        v128c(b, {43, 44});
        lget(b, 0);
        u8(b, 0x0d), u8(b, 0);
        u8(b, 0x1a);
        nops(pad);
        v128c(b, {45, 46});
        u8(b, 0x0b);
        u8(b, 0xfd), uleb(b, 29), u8(b, 0); /* i64x2.extract_lane 0 */
        u8(b, 0xa7);
        lget(b, 1);
        u8(b, 0x6a);
        lset(b, 1);
        break;
    case 10: /* unconditional br */
        u8(b, 0x02), u8(b, 0x40);
        acc(b, 47);
        u8(b, 0x0c), u8(b, 0);
        nops(pad);
        acc(b, 49);
        u8(b, 0x0b);
        break;
    case 11:
        nops(pad);
        acc(b, 51);
        break;
    }
}
/* body: shape at a fixed address, call the import, the same-kind shape again */
static Module mod(int s, unsigned pad, int form, bool leaf, int level)
{
    Module m;
    const uint8_t I = T_I32;
    uint32_t t = m.type(FT{{I}, {I}});
    m.imports.push_back({mc::fmt("n%d", level), "f", 0, t, 0, false, Lim()});
    Table tb;
    tb.t = T_FUNCREF;
    tb.l.min = 1;
    m.tables.push_back(tb);
    Elem el;
    i32c(el.off, 0);
    el.funcs = {0};
    m.elems.push_back(el);
    Bytes b;
    /* one loop of two rounds, so that later branches repeat earlier ones */
    u8(b, 0x03), u8(b, 0x40);
    shape(b, s, pad);
    acc(b, 1);
    if (!leaf) {
        lget(b, 2);
        u8(b, 0x45);
        u8(b, 0x04), u8(b, 0x40);
        lget(b, 0);
        if (form == 1) {
            i32c(b, 0);
            u8(b, 0x11);
            uleb(b, t);
            u8(b, 0);
        } else {
            u8(b, 0x10);
            u8(b, 0);
        }
        lget(b, 1);
        u8(b, 0x6a);
        lset(b, 1);
        u8(b, 0x0b);
    }
    lget(b, 2);
    i32c(b, 1);
    u8(b, 0x6a);
    u8(b, 0x22), u8(b, 2);
    i32c(b, 3);
    u8(b, 0x48); /* lt_s */
    u8(b, 0x0d), u8(b, 0);
    u8(b, 0x0b);
    lget(b, 1);
    if (form == 2 && !leaf) {
        /* and leave through a tail call */
        u8(b, 0x12);
        u8(b, 0);
    }
    m.func(FT{{I}, {I}}, b, {{2, I}});
    m.exp("f", 0, 1);
    return m;
}

static std::vector<struct tw_exec> modes;
static bool one(int sa, unsigned pa, int sb, unsigned pb, int form, int depth)
{
    std::string what = mc::fmt("shapes %d/%d pads %u/%u form %d modules %d", sa, sb, pa, pb, form, depth);
    for (size_t oi = 0; oi < (modes.empty() ? 2 : modes.size()); oi++) {
        unsigned o = oi % 2;
        World w(Env);
        w.opts = o;
        if (!modes.empty())
            w.xt = modes[oi];
        w.host("n0", "f", FT{{T_I32}, {T_I32}}, [](const std::vector<twv> &a, std::vector<twv> &r) {
            r[0] = {(uint32_t)(a[0].lo + 1000), 0};
            return 0;
        });
        std::vector<Module> ms;
        ms.push_back(mod(sa, pa, form, false, 0));
        if (depth > 1)
            ms.push_back(mod(sb, pb, form, false, 1));
        if (depth > 2)
            ms.push_back(mod(sa, pa, form, false, 2));
        std::string d;
        for (size_t i = 0; i < ms.size() && d.empty(); i++) {
            Validator v(ms[i]);
            if (!v.module()) {
                fprintf(stderr, "harness error: %s\n", v.why.c_str());
                abort();
            }
            d = w.add(mc::fmt("n%zu", i + 1), ms[i]); /* same length: same addresses */
        }
        uint64_t h = 1;
        for (int rep = 0; rep < 2 && d.empty(); rep++)
            for (uint32_t sel : {0u, 1u, 2u}) {
                d = w.call(ms.size() - 1, 1, {{sel, 0}}, &h);
                X->add(c_calls);
                if (d == "?")
                    abort();
                if (!d.empty())
                    break;
            }
        X->add(c_mods);
        X->outcome(h);
        if (!d.empty()) {
            X->fail("%s (load options %u%s): %s\nmodules %s %s", what.c_str(), o, mode_str(w.xt).c_str(), d.c_str(), hex(ms[0].encode()).c_str(), ms.size() > 1 ? hex(ms[1].encode()).c_str() : "");
            return false;
        }
    }
    return true;
}
int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "xflow");
    X = &x;
    c_mods = x.counter("module_sets");
    c_calls = x.counter("calls");
    if (x.opt.get("intr") == "1")
        modes = x.opt.thorough() ? intr_modes(3, 8) : intr_modes(2, 2);
    x.worker_init.push_back([](int) { Env = tw_env_new(); });
    unsigned maxpad = x.opt.thorough() ? 14 : modes.empty() ? 8 : 3;
    x.run((uint64_t)NSHAPE * NSHAPE * 3, [&](uint64_t i) {
        int sa = (int)(i % NSHAPE), sb = (int)(i / NSHAPE % NSHAPE), form = (int)(i / NSHAPE / NSHAPE);
        for (unsigned pa = 0; pa <= maxpad; pa++)
            for (unsigned pb = 0; pb <= maxpad; pb++)
                for (int depth = 2; depth <= 3; depth++) {
                    if (x.sh->stop || !one(sa, pa, sb, pb, form, depth))
                        return;
                    x.beat();
                }
    });
    x.sample("A: if/else at pc P; B: block at pc P+0..8; B calls A between two rounds of its own branch");
    return x.finish();
}
