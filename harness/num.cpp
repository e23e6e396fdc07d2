/* C01: scalar numeric instructions against the reference, exhaustively over
 * the operand alphabets. */
#include "mc.hpp"
#include "refnum.hpp"
#include "wb.hpp"
using namespace wb;

struct Case {
    int form; /* 0 locals, 1 immediates, 2 constant expressions, 3 constants */
    const ref::OpInfo *op;
    uint8_t t;
    int part, nparts;
};
static std::vector<Case> cases;
static mc::Explorer *X;
static int c_exec, c_trap, c_nan;

static void emit_op(Bytes &b, unsigned op)
{
    if (op >= 0xfc00) {
        u8(b, 0xfc);
        uleb(b, op & 0xff);
    } else
        u8(b, op);
}

struct Env {
    tw_env *env;
    tw_mod *mod = nullptr;
    tw_inst *inst = nullptr;
    Env() { env = tw_env_new(); }
    bool load(const Bytes &b, const char *what)
    {
        int err, trap;
        char msg[256];
        mod = tw_load(env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
        if (!mod) {
            X->fail("%s: a valid module was refused: error %d %s\nmodule %s", what, err, msg, hex(b, 600).c_str());
            return false;
        }
        inst = tw_instantiate(mod, nullptr, &err, &trap);
        if (!inst) {
            X->fail("%s: instantiation failed: error %d trap %s", what, err, tw_trap_name(trap));
            return false;
        }
        return true;
    }
    ~Env()
    {
        tw_inst_destroy(inst);
        tw_unload(mod);
        tw_env_free(env);
    }
};

static const uint64_t JUNK = 0xdeadbeefcafef00dull;

static bool judge(const ref::OpInfo &op, uint64_t a, uint64_t b, int err, int trap, bool junk, uint64_t j, uint64_t got, const char *form)
{
    ref::Out o = ref::num(op.op, a, b);
    X->add(c_exec);
    X->outcome(((uint64_t)op.op << 32) ^ ((uint64_t)o.kind << 8) ^ ((uint64_t)o.trap << 16) ^ (o.kind == ref::EXACT && !o.trap ? o.bits * 0x9E3779B97F4A7C15ull : 0));
    if (o.trap != TWT_NONE) {
        X->add(c_trap);
        if (err != TW_TRAP || trap != o.trap) {
            X->fail("%s (%s) a=0x%llx b=0x%llx: expected trap %s, got err %d trap %s value 0x%llx", op.name, form,
                    (unsigned long long)a, (unsigned long long)b, tw_trap_name(o.trap), err, tw_trap_name(trap), (unsigned long long)got);
            return false;
        }
        return true;
    }
    if (o.kind != ref::EXACT)
        X->add(c_nan);
    if (err != 0) {
        X->fail("%s (%s) a=0x%llx b=0x%llx: expected 0x%llx, got err %d trap %s", op.name, form,
                (unsigned long long)a, (unsigned long long)b, (unsigned long long)o.bits, err, tw_trap_name(trap));
        return false;
    }
    if (!ref::out_matches(o, op.r, got)) {
        X->fail("%s (%s) a=0x%llx b=0x%llx: expected 0x%llx%s, got 0x%llx", op.name, form,
                (unsigned long long)a, (unsigned long long)b, (unsigned long long)o.bits,
                o.kind == ref::EXACT ? "" : (o.kind == ref::NAN_CANON ? " (canonical nan)" : " (arithmetic nan)"), (unsigned long long)got);
        return false;
    }
    if (junk && j != JUNK) {
        X->fail("%s (%s) a=0x%llx b=0x%llx: disturbed the value below its operands: 0x%llx", op.name, form,
                (unsigned long long)a, (unsigned long long)b, (unsigned long long)j);
        return false;
    }
    return true;
}

static void run_case(uint64_t idx)
{
    const Case &c = cases[idx];
    int lv = 2;
    if (c.form == 0) {
        const ref::OpInfo &op = *c.op;
        Module m;
        FT ft;
        Bytes body;
        i64c(body, JUNK);
        for (int i = 0; i < op.np; i++) {
            ft.p.push_back(op.p[i]);
            lget(body, (uint32_t)i);
        }
        emit_op(body, op.op);
        ft.r = {T_I64, op.r};
        m.func(ft, body);
        Env e;
        if (!e.load(m.encode(), op.name))
            return;
        auto A = ref::alpha(op.p[0], lv);
        if (X->opt.thorough() && op.np == 2) {
            /* three times as many values per operand */
            uint64_t s = 88172645463325252ull;
            size_t n = A.size();
            for (size_t i = 0; i < n; i++) {
                uint64_t v = A[i];
                s ^= s << 13, s ^= s >> 7, s ^= s << 17;
                bool w32 = op.p[0] == T_I32 || op.p[0] == T_F32;
                A.push_back((v ^ (s & 0xffff)) & (w32 ? 0xffffffffull : ~0ull));
                A.push_back((v ^ (s >> 40)) & (w32 ? 0xffffffffull : ~0ull));
            }
        }
        if (op.np == 1) {
            /* every 16-bit upper half, with a few lower parts */
            bool w32 = op.p[0] == T_I32 || op.p[0] == T_F32;
            int nlow = X->opt.thorough() ? 64 : 8;
            for (uint64_t h = (uint64_t)c.part; h < 65536; h += (uint64_t)c.nparts)
                for (int l = 0; l < nlow; l++) {
                    static const uint64_t lows[8] = {0, 1, 0x7fff, 0x8000, 0x8001, 0xffff, 0x4000, 0x5a5a};
                    uint64_t lo = l < 8 ? lows[l] : (uint64_t)l * 0x3f1 + h % 7;
                    uint64_t v = w32 ? (h << 16 | (lo & 0xffff)) : (h << 48 | (lo & 0xffff) << (l & 1 ? 32 : 16) | (lo >> 3));
                    twv args[1] = {{v, 0}}, res[2] = {};
                    int trap;
                    int err = tw_call(e.inst, 0, args, res, nullptr, &trap);
                    if (!judge(op, v, 0, err, trap, true, res[0].lo, res[1].lo, "locals"))
                        return;
                }
        }
        std::vector<uint64_t> B = op.np == 2 ? ref::alpha(op.p[1], lv) : std::vector<uint64_t>{0};
        for (size_t i = (size_t)c.part; i < A.size(); i += (size_t)c.nparts) {
            X->beat();
            for (auto b : B) {
                twv args[2] = {{A[i], 0}, {b, 0}}, res[2] = {};
                int trap;
                int err = tw_call(e.inst, 0, args, res, nullptr, &trap);
                if (!judge(op, A[i], b, err, trap, true, res[0].lo, res[1].lo, "locals"))
                    return;
            }
        }
    } else if (c.form == 1) {
        const ref::OpInfo &op = *c.op;
        auto A = ref::alpha(op.p[0], op.np == 1 ? 2 : 0);
        std::vector<uint64_t> B = op.np == 2 ? ref::alpha(op.p[1], 0) : std::vector<uint64_t>{0};
        Module m;
        for (auto a : A)
            for (auto b : B) {
                Bytes body;
                constant(body, op.p[0], {a, 0});
                if (op.np == 2)
                    constant(body, op.p[1], {b, 0});
                emit_op(body, op.op);
                m.func(FT{{}, {op.r}}, body);
            }
        Env e;
        if (!e.load(m.encode(), op.name))
            return;
        uint32_t f = 0;
        for (auto a : A)
            for (auto b : B) {
                twv res[1] = {};
                int trap;
                int err = tw_call(e.inst, f++, nullptr, res, nullptr, &trap);
                if (!judge(op, a, b, err, trap, false, 0, res[0].lo, "immediates"))
                    return;
            }
    } else if (c.form == 2) {
        const ref::OpInfo &op = *c.op;
        auto A = ref::alpha(op.p[0], 1);
        Module m;
        for (auto a : A)
            for (auto b : A) {
                Bytes init;
                constant(init, op.p[0], {a, 0});
                constant(init, op.p[0], {b, 0});
                emit_op(init, op.op);
                m.globals.push_back({op.r, false, init});
            }
        Env e;
        if (!e.load(m.encode(), op.name))
            return;
        uint32_t g = 0;
        for (auto a : A)
            for (auto b : A) {
                twv v = tw_global_get(e.inst, g++);
                if (!judge(op, a, b, 0, 0, false, 0, v.lo, "constant expression"))
                    return;
            }
    } else {
        auto A = ref::alpha(c.t, 2);
        Module m;
        for (auto a : A) {
            Bytes init;
            constant(init, c.t, {a, 0});
            m.globals.push_back({c.t, true, init});
        }
        uint32_t n = (uint32_t)A.size();
        for (uint32_t i = 0; i < n; i++) {
            Bytes b;
            constant(b, c.t, {A[i], 0});
            m.func(FT{{}, {c.t}}, b);
            Bytes b2;
            gget(b2, i);
            m.func(FT{{}, {c.t}}, b2);
        }
        Env e;
        if (!e.load(m.encode(), "constants"))
            return;
        for (uint32_t i = 0; i < n; i++) {
            twv res[1] = {};
            int trap;
            for (uint32_t k = 0; k < 2; k++) {
                int err = tw_call(e.inst, i * 2 + k, nullptr, res, nullptr, &trap);
                X->add(c_exec);
                if (err != 0 || res[0].lo != A[i]) {
                    X->fail("constant 0x%llx of type %x (%s): err %d got 0x%llx", (unsigned long long)A[i], c.t,
                            k ? "global" : "body", err, (unsigned long long)res[0].lo);
                    return;
                }
            }
        }
    }
}

int main(int argc, char **argv)
{
    mc::Explorer x(argc, argv, "num");
    X = &x;
    c_exec = x.counter("transitions");
    c_trap = x.counter("traps");
    c_nan = x.counter("nans");
    int parts = x.opt.thorough() ? 64 : 8;
    for (size_t i = 0; i < ref::nops; i++) {
        int n = parts;
        for (int p = 0; p < n; p++)
            cases.push_back({0, &ref::ops[i], 0, p, n});
        cases.push_back({1, &ref::ops[i], 0, 0, 1});
    }
    for (unsigned op : {0x6au, 0x6bu, 0x6cu, 0x7cu, 0x7du, 0x7eu})
        cases.push_back({2, ref::find_op(op), 0, 0, 1});
    for (uint8_t t : {T_I32, T_I64, T_F32, T_F64})
        cases.push_back({3, nullptr, t, 0, 1});
    x.sample("i32.div_s over all pairs of " + std::to_string(ref::ialpha(32, x.opt.thorough() ? 2 : 1).size()) + " values: result or trap per spec");
    x.sample("f64.nearest over " + std::to_string(ref::falpha<64>(2).size()) + " values incl. ties, subnormals, all NaN classes");
    x.sample(mc::fmt("alphabet sizes i32 %zu i64 %zu f32 %zu f64 %zu", ref::alpha(T_I32, 1).size(), ref::alpha(T_I64, 1).size(),
                     ref::alpha(T_F32, 1).size(), ref::alpha(T_F64, 1).size()));
    x.run(cases.size(), run_case);
    return x.finish();
}
