/*
 * C14, single-threaded part: every atomic instruction over boundary operands,
 * memory contents, addresses and static offsets, on shared and unshared
 * memories, compared with the reference; waits and notifies without partner.
 */
#include "atops.hpp"
#include "mc.hpp"
#include "tw.h"
using namespace wb;

static mc::Explorer *X;
static int c_exec, c_trap;
static const uint32_t PAGES = 1, SIZE = 65536;

struct Mem {
    bool shared;
    unsigned idx; /* memory index used; others exist below it */
    bool custom;  /* 1-byte pages */
};
static std::vector<Mem> mems{{true, 0, false}, {false, 0, false}, {true, 2, false}, {true, 0, true}, {false, 1, true}};
static uint32_t memsize(const Mem &m) { return m.custom ? 1003 : SIZE; }

struct Case {
    at::Op op;
    size_t mem;
    int part; /* 0 values, 1 addresses */
};
static std::vector<Case> cases;

static Module base(const Mem &m)
{
    Module mod;
    for (unsigned i = 0; i <= m.idx + 1; i++) {
        Lim l;
        if (i == m.idx && m.custom) {
            l.min = memsize(m);
            l.custom = true;
            l.shift = 0;
        } else
            l.min = PAGES;
        l.hasmax = true;
        l.max = i == m.idx ? l.min : l.min + 1;
        /* neighbours are of the other kind */
        l.shared = i == m.idx ? m.shared : !m.shared;
        mod.mems.push_back(l);
        mod.exp("m" + std::to_string(i), 2, i);
    }
    return mod;
}
static FT ftype(const at::Op &o)
{
    uint8_t t = o.stack == 64 ? T_I64 : T_I32;
    FT f;
    if (o.kind == at::FENCE)
        return f;
    f.p.push_back(T_I32);
    switch (o.kind) {
    case at::LOAD:
        f.r.push_back(t);
        break;
    case at::STORE:
        f.p.push_back(t);
        break;
    case at::RMW:
        f.p.push_back(t);
        f.r.push_back(t);
        break;
    case at::CMPX:
        f.p.push_back(t);
        f.p.push_back(t);
        f.r.push_back(t);
        break;
    case at::NOTIFY:
        f.p.push_back(T_I32);
        f.r.push_back(T_I32);
        break;
    case at::WAIT:
        f.p.push_back(o.bits == 64 ? T_I64 : T_I32);
        f.p.push_back(T_I64);
        f.r.push_back(T_I32);
        break;
    default:
        break;
    }
    return f;
}
/* a value below and above that must survive */
static void addfunc(Module &m, const at::Op &o, uint32_t off, uint32_t mem)
{
    FT f = ftype(o), g;
    g.p = f.p;
    g.r.push_back(T_I64);
    for (auto r : f.r)
        g.r.push_back(r);
    Bytes b;
    i64c(b, 0x1122334455667788ull);
    for (uint32_t i = 0; i < f.p.size(); i++)
        lget(b, i);
    at::emit(b, o, off, mem);
    m.func(g, b);
}

struct Inst {
    tw_env *env = tw_env_new();
    tw_mod *mod = nullptr;
    tw_inst *inst = nullptr;
    bool open(const Module &m, const std::string &what)
    {
        Bytes b = m.encode();
        int err = 0, trap = 0;
        char msg[256] = "";
        mod = tw_load(env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
        if (!mod) {
            X->fail("%s: a valid module was refused: %d %s", what.c_str(), err, msg);
            return false;
        }
        inst = tw_instantiate(mod, nullptr, &err, &trap);
        if (!inst) {
            X->fail("%s: instantiation failed: %d %s", what.c_str(), err, tw_trap_name(trap));
            return false;
        }
        return true;
    }
    ~Inst()
    {
        if (inst)
            tw_inst_destroy(inst);
        if (mod)
            tw_unload(mod);
        size_t left = tw_env_free(env);
        if (left)
            X->fail("%zu bytes are still accounted", left);
    }
};

static bool one(Inst &in, const Case &c, const Mem &m, uint32_t fidx, uint32_t addr,
                uint32_t off, uint64_t a, uint64_t b, std::vector<uint8_t> &img)
{
    const at::Op &o = c.op;
    uint32_t size = memsize(m);
    uint64_t ea = (uint64_t)addr + off;
    bool oob = ea + o.bits / 8 > size, una = ea % (o.bits / 8) != 0;
    twv args[3] = {{addr, 0}, {a & at::mask(o.kind == at::WAIT ? o.bits : o.stack), 0},
                   {b & at::mask(o.kind == at::WAIT ? 64 : o.stack), 0}};
    twv res[2] = {{0, 0}, {0, 0}};
    struct tw_exec x;
    memset(&x, 0, sizeof(x));
    int trap = 0;
    int ret = tw_call(in.inst, fidx, args, res, &x, &trap);
    X->add(c_exec);
    auto where = [&] {
        return mc::fmt("%s on %s memory %u of %u bytes, address %#x offset %#x operands %#llx %#llx",
                       o.name.c_str(), m.shared ? "shared" : "unshared", m.idx, size, addr, off,
                       (unsigned long long)a, (unsigned long long)b);
    };
    if (o.kind == at::WAIT && !m.shared) {
        X->add(c_trap);
        if (ret != TW_TRAP || (trap != TWT_WAIT_UNSHARED && !(oob && trap == TWT_OOB_MEM) &&
                               !(una && trap == TWT_UNALIGNED_ATOMIC))) {
            X->fail("%s: ended with %d %s instead of a trap", where().c_str(), ret, tw_trap_name(trap));
            return false;
        }
    } else if (oob || una) {
        X->add(c_trap);
        bool ok = ret == TW_TRAP && ((oob && trap == TWT_OOB_MEM) || (una && trap == TWT_UNALIGNED_ATOMIC));
        if (!ok) {
            X->fail("%s: ended with %d %s instead of a trap", where().c_str(), ret, tw_trap_name(trap));
            return false;
        }
    } else {
        if (ret != 0) {
            X->fail("%s: failed with %d %s", where().c_str(), ret, tw_trap_name(trap));
            return false;
        }
        uint64_t want;
        bool hasres = o.kind != at::STORE;
        if (o.kind == at::NOTIFY)
            want = 0;
        else if (o.kind == at::WAIT)
            want = at::get(&img[ea], o.bits) == (a & at::mask(o.bits)) ? 2 : 1;
        else
            want = at::apply(o, &img[ea], a, b);
        if (res[0].lo != 0x1122334455667788ull ||
            (hasres && (res[1].lo & at::mask(o.kind == at::NOTIFY || o.kind == at::WAIT ? 32 : o.stack)) != want)) {
            X->fail("%s: result %#llx instead of %#llx", where().c_str(), (unsigned long long)res[1].lo,
                    (unsigned long long)want);
            return false;
        }
        X->outcome(mc::fnv(mc::fmt("%u %llx %u", o.code, (unsigned long long)want, (unsigned)ea & 15)));
    }
    return true;
}
static bool compare(Inst &in, const Case &c, const Mem &m, const std::vector<uint8_t> &img, uint64_t from,
                    uint64_t n, const char *what)
{
    std::vector<uint8_t> got(n);
    if (tw_mem_read(in.inst, m.idx, from, got.data(), n) != 0 ||
        memcmp(got.data(), img.data() + from, n)) {
        X->fail("%s (%s): memory differs from the reference", c.op.name.c_str(), what);
        return false;
    }
    return true;
}

static void run_case(const Case &c)
{
    const Mem &m = mems[c.mem];
    const at::Op &o = c.op;
    uint32_t size = memsize(m);
    static const uint64_t V[] = {0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x180, 0x7fff,
                                 0x8000, 0xfffe, 0xffff, 0x10000, 0x100ff, 0x7fffffff, 0x80000000, 0xffffff80,
                                 0xffff8000, 0xfffffffe, 0xffffffff, 0x100000000ull, 0x1000000ffull,
                                 0x7fffffffffffffffull, 0x8000000000000000ull, 0x0123456789abcdefull,
                                 0xfedcba9876543210ull, 0xffffffffffffff80ull, ~0ull};
    std::vector<uint8_t> img(size, 0);
    if (c.part == 0) {
        Module mod = base(m);
        addfunc(mod, o, 0, m.idx);
        Inst in;
        if (!in.open(mod, o.name))
            return;
        static const uint64_t P[] = {0, ~0ull, 0x0123456789abcdefull, 0x8080808080808080ull,
                                     0x7f7f7f7f7f7f7f7full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull,
                                     0x8000000000000000ull, 0x00000000ffffffffull};
        bool two = o.kind == at::CMPX;
        std::vector<uint64_t> A(V, V + sizeof(V) / sizeof(*V));
        if (two) /* the expected values that match */
            for (auto p : P)
                for (unsigned s = 0; s < 64; s += 8) {
                    A.push_back((p >> s) & at::mask(o.bits));
                    A.push_back(((p >> s) & at::mask(o.bits)) | (1ull << (o.bits % 64)));
                }
        std::sort(A.begin(), A.end());
        A.erase(std::unique(A.begin(), A.end()), A.end());
        if (o.kind == at::LOAD)
            A = {0};
        std::vector<uint64_t> B{0};
        if (two)
            B = {0, 1, 0xff, 0x1ff, 0x18000, 0x123456789ull, ~0ull};
        for (auto p : P)
            for (uint32_t ea = 64; ea < 72; ea += o.bits / 8)
                for (auto a : A)
                    for (auto b : B) {
                        uint8_t w[24];
                        for (int i = 0; i < 24; i++)
                            w[i] = (uint8_t)(0xc0 + i);
                        at::put(w + 8, 64, p);
                        memcpy(&img[56], w, 24);
                        tw_mem_write(in.inst, m.idx, 56, w, 24);
                        if (!one(in, c, m, 0, ea, 0, a, b, img))
                            return;
                        if (!compare(in, c, m, img, 48, 40, "values"))
                            return;
                    }
        compare(in, c, m, img, 0, size, "whole memory");
        return;
    }
    /* addresses and offsets */
    std::vector<uint32_t> offs{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, size - 9, size - 8, size - 7, size - 4, size - 3,
                               size - 2, size - 1, size, size + 1, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff8u,
                               0xfffffffcu, 0xfffffffeu, 0xffffffffu};
    std::vector<uint32_t> addrs{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, size - 17, size - 16, size - 9,
                                size - 8, size - 7, size - 6, size - 5, size - 4, size - 3, size - 2, size - 1, size,
                                size + 1, size + 8, 0x7ffffff8u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u,
                                0xfffffffcu, 0xfffffffeu, 0xffffffffu};
    Module mod = base(m);
    for (auto f : offs)
        addfunc(mod, o, f, m.idx);
    Inst in;
    if (!in.open(mod, o.name))
        return;
    for (uint32_t i = 0; i < size; i++)
        img[i] = (uint8_t)(i * 7 + 3);
    tw_mem_write(in.inst, m.idx, 0, img.data(), size);
    std::vector<std::vector<uint8_t>> other;
    for (unsigned k = 0; k <= m.idx + 1; k++) {
        std::vector<uint8_t> w(256, (uint8_t)(0x30 + k));
        if (k != m.idx)
            tw_mem_write(in.inst, k, 0, w.data(), w.size());
        other.push_back(w);
    }
    for (size_t f = 0; f < offs.size(); f++)
        for (auto ad : addrs) {
            uint64_t ea = (uint64_t)ad + offs[f];
            std::vector<uint64_t> A{0x5a5a5a5aa5a5a5a5ull, 0};
            if (ea + o.bits / 8 <= size) /* what is there: compare-exchange and wait see it */
                A.push_back(at::get(&img[ea], o.bits));
            for (auto a : A)
                /* 0 and 1 ns: the only timeouts used here */
                if (!one(in, c, m, (uint32_t)f, ad, offs[f], a, o.kind == at::WAIT ? (ad & 1) : 0x1234, img))
                    return;
        }
    if (!compare(in, c, m, img, 0, size, "addresses"))
        return;
    for (unsigned k = 0; k <= m.idx + 1; k++) {
        if (k == m.idx)
            continue;
        std::vector<uint8_t> got(256);
        tw_mem_read(in.inst, k, 0, got.data(), 256);
        if (got != other[k])
            X->fail("%s on memory %u changed memory %u", o.name.c_str(), m.idx, k);
    }
}

int main(int argc, char **argv)
{
    mc::Explorer ex(argc, argv, "atomics");
    X = &ex;
    c_exec = ex.counter("executions");
    c_trap = ex.counter("traps");
    auto all = at::ops();
    for (size_t k = 0; k < mems.size(); k++) {
        for (auto &o : all) {
            cases.push_back({o, k, 0});
            cases.push_back({o, k, 1});
        }
        cases.push_back({{"memory.atomic.notify", 0, at::NOTIFY, 32, 32, at::ADD}, k, 1});
        cases.push_back({{"memory.atomic.wait32", 1, at::WAIT, 32, 32, at::ADD}, k, 1});
        cases.push_back({{"memory.atomic.wait64", 2, at::WAIT, 64, 64, at::ADD}, k, 1});
    }
    ex.run(cases.size() + 1, [&](uint64_t i) {
        if (i < cases.size()) {
            run_case(cases[i]);
            return;
        }
        /* fences leave everything alone */
        Module mod = base(mems[0]);
        addfunc(mod, {"atomic.fence", 3, at::FENCE, 32, 32, at::ADD}, 0, 0);
        Inst in;
        if (!in.open(mod, "fence"))
            return;
        twv r[1];
        int trap = 0;
        struct tw_exec x;
        memset(&x, 0, sizeof(x));
        if (tw_call(in.inst, 0, nullptr, r, &x, &trap) != 0 || r[0].lo != 0x1122334455667788ull)
            X->fail("atomic.fence fails");
    });
    for (size_t i = 0; i < cases.size(); i += cases.size() / 6 + 1)
        ex.sample(cases[i].op.name + (cases[i].part ? ", addresses" : ", values"));
    return ex.finish();
}
