/* the enumerated sets of modules */

/* dependency graphs */
static void gen_graphs(bool thorough)
{
    std::vector<std::vector<Str>> lists{{}};
    for (const char *a : {"a", "b", "c"}) {
        lists.push_back({a});
        for (const char *b : {"a", "b", "c"})
            if (a != b)
                lists.push_back({a, b});
    }
    std::vector<std::vector<Str>> ml = lists;
    ml.push_back({"a", "b", "c"});
    ml.push_back({"c", "b", "a"});
    ml.push_back({"a", "a"});
    int n = 0;
    for (auto &l0 : ml)
        for (auto &la : lists)
            for (auto &lb : lists)
                for (auto &lc : lists) {
                    /* who provides what everybody uses */
                    for (int def = 0; def < 7; def++) {
                        if (!thorough && def != n % 7 && def != 6)
                            continue;
                        World w;
                        w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b"), mk(3, "c")};
                        w.mods[0].needs = l0;
                        w.mods[1].needs = la;
                        w.mods[2].needs = lb;
                        w.mods[3].needs = lc;
                        for (size_t k = 0; k < 4; k++) {
                            if (k && !((def + 1) >> (k - 1) & 1))
                                continue;
                            if (k) {
                                w.mods[k].exps = {{"f", E_FUNC, 1}, {"d", E_I32, (uint32_t)k}};
                            }
                        }
                        for (auto &m : w.mods)
                            m.uses = {{"f", U_ENV, true}, {"f", U_GOTFUNC, true}, {"d", U_GOTMEM, true}};
                        /* the main module's call is left out where nobody provides it */
                        std::set<Str> seen;
                        std::vector<Str> st(l0.begin(), l0.end());
                        bool any = false;
                        while (!st.empty()) {
                            Str s = st.back();
                            st.pop_back();
                            if (!seen.insert(s).second)
                                continue;
                            size_t k = (size_t)(s[0] - 'a') + 1;
                            any |= !w.mods[k].exps.empty();
                            for (auto &t : w.mods[k].needs)
                                st.push_back(t);
                        }
                        if (!any)
                            for (auto &m : w.mods)
                                m.uses.erase(m.uses.begin());
                        w.mods[0].pie = n & 1;
                        w.bindnow = n & 2;
                        w.mods[1].ctor = CT_INIT;
                        world(w);
                    }
                    n++;
                }
}

/* who defines a symbol in which form, and who uses it how */
static void gen_symbols(bool thorough)
{
    static const std::vector<std::vector<Str>> graphs[5] = {
        {{"a", "b"}, {}, {}}, {{"b", "a"}, {}, {}}, {{"a"}, {"b"}, {}}, {{"b"}, {}, {"a"}}, {{"a"}, {"b"}, {"a"}}};
    for (int g = 0; g < 5; g++)
        for (int pie = 0; pie < 2; pie++) {
            World w;
            w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
            for (size_t k = 0; k < 3; k++)
                w.mods[k].needs = graphs[g][k];
            w.mods[0].pie = pie;
            /* functions */
            for (int defs = 0; defs < 64; defs++)
                for (int now = 0; now < 2; now++)
                    for (int c = 0; c < 26; c++) {
                        if (!thorough && g >= 3 && c < 18 && c % 3 != defs % 3)
                            continue;
                        World x = w;
                        x.bindnow = now;
                        for (int k = 0; k < 3; k++) {
                            int d = defs >> 2 * k & 3;
                            if (d)
                                x.mods[(size_t)k].exps = {{"f", d == 1 ? E_FUNC : d == 2 ? E_BADFUNC : E_I32, 2}};
                            if (c < 18) {
                                /* one user */
                                if (c % 3 == k) {
                                    bool weak = c / 9;
                                    int kind = c / 3 % 3;
                                    if (kind != 1)
                                        x.mods[(size_t)k].uses.push_back({"f", U_ENV, weak});
                                    if (kind != 0)
                                        x.mods[(size_t)k].uses.push_back({"f", U_GOTFUNC, weak});
                                }
                            } else {
                                bool weak = (c - 18) >> k & 1;
                                x.mods[(size_t)k].uses = {{"f", U_GOTFUNC, weak}, {"f", U_ENV, weak}};
                            }
                        }
                        world(x);
                    }
            /* data */
            for (int defs = 0; defs < 125; defs++)
                for (int c = 0; c < 14; c++) {
                    World x = w;
                    int dd = defs;
                    for (int k = 0; k < 3; k++, dd /= 5) {
                        static const int kinds[5] = {-1, E_I32, E_MUTI32, E_I64, E_FUNC};
                        if (dd % 5)
                            x.mods[(size_t)k].exps = {{"d", kinds[dd % 5], 5}};
                        if (c < 6) {
                            if (c % 3 == k)
                                x.mods[(size_t)k].uses = {{"d", U_GOTMEM, c / 3 != 0}};
                        } else
                            x.mods[(size_t)k].uses = {{"d", U_GOTMEM, ((c - 6) >> k & 1) != 0}};
                    }
                    world(x);
                }
        }
    /* one slot per function: names for the same and for different functions */
    for (int pie = 0; pie < 2; pie++)
        for (int ea = 0; ea < 27; ea++)
            for (int eb = 0; eb < 27; eb++) {
                World w;
                w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
                w.mods[0].pie = pie;
                w.mods[0].needs = {"a", "b"};
                w.mods[1].exps = {{"f", E_FUNC, (uint32_t)ea % 3}, {"g", E_FUNC, (uint32_t)ea / 3 % 3}, {"h", E_FUNC, (uint32_t)ea / 9}};
                w.mods[2].exps = {{"i", E_FUNC, (uint32_t)eb % 3}, {"j", E_FUNC, (uint32_t)eb / 3 % 3}, {"g", E_FUNC, (uint32_t)eb / 9}};
                for (const char *n : {"f", "g", "h", "i", "j"})
                    for (auto &m : w.mods)
                        m.uses.push_back({n, U_GOTFUNC, false});
                for (const char *n : {"j", "i", "h", "g", "f"})
                    w.mods[2].uses.push_back({n, U_ENV, false});
                world(w);
            }
    /* many symbols in each order of use */
    static const char *names[4] = {"p", "q", "r", "s"};
    int perm[4] = {0, 1, 2, 3};
    do
        for (int who = 0; who < 16; who++)
            for (int pie = 0; pie < 2; pie++) {
                World w;
                w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
                w.mods[0].pie = pie;
                w.mods[0].needs = {"a"};
                w.mods[1].needs = {"b"};
                for (uint32_t k = 0; k < 4; k++) {
                    Mod &m = w.mods[who >> k & 1 ? 1 : 2];
                    m.exps.push_back({names[k], E_FUNC, k});
                    m.exps.push_back({Str("D") + names[k], E_I32, k * 3});
                }
                for (int k = 0; k < 4; k++)
                    for (auto &m : w.mods) {
                        m.uses.push_back({names[perm[k]], k & 1 ? U_ENV : U_GOTFUNC, false});
                        m.uses.push_back({Str("D") + names[perm[3 - k]], U_GOTMEM, false});
                    }
                world(w);
            }
    while (std::next_permutation(perm, perm + 4));
    /* optional initialisers */
    for (int c = 0; c < 6 * 6 * 6; c++)
        for (int pie = 0; pie < 2; pie++) {
            World w;
            w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
            w.mods[0].pie = pie;
            w.mods[0].needs = {"a"};
            w.mods[1].needs = {"b"};
            int k = c;
            for (auto &m : w.mods) {
                m.reloc = k % 2;
                m.ctor = k % 6 / 2;
                k /= 6;
                m.exps = {{mc::fmt("f%d", m.id), E_FUNC, 0}};
                m.uses = {{"f2", U_GOTFUNC, false}, {"f0", U_ENV, false}};
            }
            world(w);
        }
}

/* sizes and alignments */
static void gen_layout(bool thorough)
{
    static const uint32_t sz[] = {0, 1, 17, 65536, 65537}, al[] = {0, 2, 4, 16};
    for (int c = 0; c < 8000; c++)
        for (int pie = 0; pie < 2; pie++) {
            if (!thorough && (c + c / 20 + c / 400 + pie) % 2)
                continue;
            World w;
            w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
            w.mods[0].pie = pie;
            w.mods[0].needs = {"a", "b"};
            int k = c;
            for (auto &m : w.mods) {
                m.msz = sz[k % 5];
                m.mal = al[k / 5 % 4];
                m.lay = m.pie;
                k /= 20;
                m.exps = {{mc::fmt("d%d", m.id), E_I32, m.msz}};
                for (const char *n : {"d0", "d1", "d2"})
                    m.uses.push_back({n, U_GOTMEM, false});
            }
            w.stack = c % 3 == 0 ? 0 : c % 3 == 1 ? 4097 : 70000;
            world(w);
        }
    static const uint32_t tsz[] = {0, 1, 5}, tal[] = {0, 1, 3, 6};
    for (int c = 0; c < 12 * 12 * 12; c++)
        for (int pie = 0; pie < 2; pie++) {
            World w;
            w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
            w.mods[0].pie = pie;
            w.mods[0].needs = {"a", "b"};
            int k = c;
            for (auto &m : w.mods) {
                m.tsz = tsz[k % 3];
                m.tal = tal[k / 3 % 4];
                k /= 12;
                m.exps = {{mc::fmt("f%d", m.id), E_FUNC, 0}, {mc::fmt("g%d", m.id), E_FUNC, 1}};
                for (const char *n : {"f0", "f1", "f2", "g2"})
                    m.uses.push_back({n, U_GOTFUNC, false});
            }
            world(w);
        }
    /* stack sizes after odd sizes */
    for (uint32_t st : {0u, 1u, 15u, 16u, 17u, 65519u, 65520u, 65535u, 65536u, 65537u, 1048576u})
        for (uint32_t s : {0u, 1u, 8u, 15u, 16u, 17u, 65535u, 65536u})
            for (int lib = 0; lib < 2; lib++)
                for (int shift = 0; shift <= 16; shift += 16) {
                    World w;
                    w.mods = {mk(0, "m")};
                    if (lib) {
                        w.mods.push_back(mk(1, "a"));
                        w.mods[0].needs = {"a"};
                        w.mods[1].msz = s;
                    }
                    w.mods[0].msz = lib ? 3 : s;
                    for (auto &m : w.mods) {
                        m.lay = true;
                        m.shift = shift;
                    }
                    w.stack = st;
                    world(w);
                }
    /* pages of one byte */
    for (int c = 0; c < 400; c++) {
        World w;
        w.mods = {mk(0, "m"), mk(1, "a")};
        w.mods[0].needs = {"a"};
        int k = c;
        for (auto &m : w.mods) {
            m.msz = sz[k % 5];
            m.mal = al[k / 5 % 4];
            m.lay = true;
            m.shift = 0;
            k /= 20;
        }
        world(w);
    }
    /* what cannot be satisfied */
    static const uint32_t hs[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffeffff, 0xffff0000, 0xffff0001, 0xffffffff};
    static const uint32_t ha[] = {0, 1, 16, 30, 31, 32, 33, 63, 64, 255, 0xffffffff};
    for (int who = 0; who < 4; who++)
        for (uint32_t s : hs)
            for (uint32_t a : ha)
                for (uint32_t s2 : hs)
                    for (int pie = 0; pie < 2; pie++) {
                        World w;
                        w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
                        w.mods[0].pie = pie;
                        w.mods[0].needs = {"a", "b"};
                        if (!pie && (who == 0 || who == 3))
                            continue;
                        for (auto &m : w.mods)
                            m.fill = false;
                        Mod &h = w.mods[who == 3 ? 0 : (size_t)who];
                        h.msz = s;
                        h.mal = a;
                        w.mods[who == 0 ? 1 : 2].msz = s2;
                        if (who == 2)
                            w.mods[1].msz = s2, w.mods[2].msz = s;
                        uint64_t sum = 0, room = 0;
                        bool odd = false;
                        for (auto &m : w.mods) {
                            sum += m.msz;
                            room += m.msz + (m.mal < 32 ? (uint64_t)1 << m.mal : 0);
                            odd |= m.mal >= 32;
                        }
                        room += w.stack + 3 * PAGE;
                        w.mustfail = sum > 0x100000000ull;
                        w.mayfail = !w.mustfail && (room > 0x4000000 || odd);
                        world(w);
                    }
    /* tables: the limit of the memory context makes big ones fail */
    for (uint32_t s : {0u, 1u, 64u, 0x10000000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu})
        for (uint32_t a : {0u, 1u, 6u, 27u, 30u, 31u, 32u, 33u, 63u, 64u, 255u, 0xffffffffu})
            for (int who = 0; who < 3; who++)
                for (int pie = 0; pie < 2; pie++) {
                    if (!pie && who == 0)
                        continue;
                    World w;
                    w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
                    w.mods[0].pie = pie;
                    w.mods[0].needs = {"a", "b"};
                    w.mods[(size_t)who].tsz = s;
                    w.mods[(size_t)who].tal = a;
                    w.mustfail = s >= 0x10000000;
                    w.mayfail = !w.mustfail && a > 6;
                    world(w);
                }
}

/* libraries that cannot be loaded or initialised */
static void gen_errors()
{
    for (int bad = 1; bad < NBAD; bad++)
        for (int who = 0; who < 4; who++)
            for (int shape = 0; shape < 3; shape++)
                for (int pie = 0; pie < 2; pie++)
                    for (int now = 0; now < 2; now++) {
                        World w;
                        w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b"), mk(3, "c")};
                        w.mods[0].pie = pie;
                        w.bindnow = now;
                        w.mods[0].needs = {"a"};
                        w.mods[shape == 0 ? 0 : 1].needs.push_back("b");
                        w.mods[shape == 2 ? 2 : 0].needs.push_back("c");
                        for (auto &m : w.mods) {
                            m.exps = {{mc::fmt("f%d", m.id), E_FUNC, 0}, {mc::fmt("d%d", m.id), E_I32, 1}};
                            m.uses = {{"f0", U_ENV, false}, {"f2", U_GOTFUNC, false}, {"d3", U_GOTMEM, false}};
                        }
                        w.mods[(size_t)who].bad = bad;
                        world(w);
                    }
    /* missing libraries, at each place of a list */
    for (int who = 0; who < 3; who++)
        for (int at = 0; at < 3; at++)
            for (int pie = 0; pie < 2; pie++) {
                World w;
                w.mods = {mk(0, "m"), mk(1, "a"), mk(2, "b")};
                w.mods[0].pie = pie;
                w.mods[0].needs = {"a", "b"};
                w.mods[1].needs = {"b", "a"};
                w.mods[2].needs = {"a", "b"};
                auto &n = w.mods[(size_t)who].needs;
                n.insert(n.begin() + at, "missing");
                world(w);
            }
    /* no imports from the embedder */
    for (int pie = 0; pie < 2; pie++)
        for (int lib = 0; lib < 2; lib++) {
            World w;
            w.nobase = true;
            w.mods = {mk(0, "m")};
            if (lib) {
                w.mods.push_back(mk(1, "a"));
                w.mods[0].needs = {"a"};
            }
            w.mods[0].pie = pie;
            for (auto &m : w.mods) {
                m.reloc = false;
                m.ctor = CT_NONE;
            }
            world(w);
        }
}

/* names of libraries */
static void name_case(const Str &n, bool dl, bool swap, tw_imports *base)
{
    static const char *inpath[][2] = {{"p1", "a"}, {"p2", "a"}, {"p2", "aa"}, {"p1", ".a"}, {"p1", "a."}, {"p2", "a.a"}, {"p2", "a.."}, {"p1", ".aa"}};
    for (const char *d : {"p1", "p2", "p1/a.a", "p1/aaa"})
        mkdir((Dir + "/" + d).c_str(), 0700);
    auto lib = [&](const Str &p, int id) {
        Mod m = mk(id, "");
        put(Dir + "/" + p, build(m));
    };
    int id = 10;
    for (auto &e : inpath)
        lib(Str(e[0]) + "/" + e[1], id++);
    for (const char *o : {"a", "aa", "p1/aaa/a", "p1/a.a/a", ".a"})
        lib(o, 50);
    /* in p1 a.a is a directory: only looked up with the other order */
    Str pa = Dir + "/p1", pb = Dir + "/p2";
    const char *paths[2] = {pa.c_str(), pb.c_str()};
    if (swap)
        std::swap(paths[0], paths[1]);
    int want = -1;
    for (int r = 0; r < 2 && want < 0; r++)
        for (size_t k = 0; k < 8; k++)
            if (n == inpath[k][1] && Str(paths[r]) == Dir + "/" + inpath[k][0]) {
                want = 10 + (int)k;
                break;
            }
    bool dubious = n.find("..") != Str::npos || (n == "a.a" && !swap);
    bool refuse = n.find('/') != Str::npos || n.find('\0') != Str::npos || n == "..";
    if (refuse)
        want = -1;
    Str shown;
    for (char c : n)
        shown += c ? c : '0';
    Ctx = mc::fmt("name \"%s\"%s%s", shown.c_str(), dl ? " opened" : " needed", swap ? " other order" : "");
    Mod m = mk(0, "m");
    m.msz = 4096;
    m.dl = dl;
    if (!dl)
        m.needs = {n};
    put(Dir + "/m", build(m));
    struct dz_opts o = {paths, 2, 4096, 0, dl};
    Logs.clear();
    Opened.clear();
    dz *z = dz_new(Env, base, &o);
    Recording = true;
    int e = dz_load(z, (Dir + "/m").c_str());
    Recording = false;
    X->add(c_loads);
    bool ok = e == 0;
    if (e == 0)
        e = dz_init(z);
    if (dl && (!ok || e != 0))
        FAIL("main module gives %d", e);
    if (ok && dl) {
        uint32_t mb = 0;
        for (auto &l : Logs)
            if (l.code == L_MBASE)
                mb = l.v;
        tw_mem_write(dz_main(z), 0, mb + 64, n.data(), n.size());
        uint32_t f;
        tw_find_export(dz_main(z), "open", 0, &f);
        twv a[4] = {{mb + 64, 0}, {n.size(), 0}, {0, 0}, {mb + 16, 0}}, r = {7, 0};
        int trap;
        Recording = true;
        int e2 = tw_call(dz_main(z), f, a, &r, nullptr, &trap);
        Recording = false;
        if (e2 != 0 || r.lo > 1)
            FAIL("load_object gives %d, %" PRIu64, e2, r.lo);
        ok = e2 == 0 && r.lo == 0;
    }
    for (auto &p : Opened) {
        size_t s = p.rfind('/');
        Str d = p.substr(0, s), b = p.substr(s + 1);
        if (p == Dir + "/m")
            continue;
        if ((d != pa && d != pb) || b == "..")
            FAIL("%s was opened", p.c_str());
    }
    int got = -1;
    for (auto &l : Logs)
        if (l.code == L_RELOC && l.id)
            got = l.id;
    if (ok != (got >= 0))
        FAIL("success %d but module %d ran", ok, got);
    if (refuse ? ok : dubious ? ok && got != want : got != want)
        FAIL("module %d instead of %d", got, want);
    X->outcome(mc::fnv(Ctx));
    dz_free(z);
}
static void gen_names(bool thorough)
{
    static const char alpha[4] = {'a', '.', '/', 0};
    std::vector<Str> all{""};
    size_t from = 0;
    for (int len = 1; len <= (thorough ? 6 : 5); len++) {
        size_t to = all.size();
        for (; from < to; from++)
            for (char c : alpha)
                all.push_back(all[from] + c);
    }
    for (const char *s : {"a.a/a", "../a", "./a", "//a", "aaa/a", "/../a", "../p2/aa", "aaa/../../a"})
        all.push_back(s);
    for (size_t n : {255u, 256u, 4000u, 4096u, 5000u})
        all.push_back(Str(n > 3000 ? 3000 : n, 'b') + Str(n > 3000 ? n - 3000 : 0, 'c'));
    for (auto &n : all)
        for (int dl = 0; dl < 2; dl++)
            for (int swap = 0; swap < 2; swap++) {
                if (dl && n.size() > 3000)
                    continue;
                Cases.push_back([n, dl, swap](tw_imports *b) { name_case(n, dl, swap, b); });
            }
}

/* libraries opened while running */
static const Mod *dlmod(const Str &n)
{
    static std::map<Str, Mod> ms;
    if (ms.empty()) {
        Mod x = mk(1, "x");
        x.exps = {{"fx", E_FUNC, 0}, {"gx", E_FUNC, 0}, {"dx", E_I32, 3}};
        x.msz = 40000;
        ms["x"] = x;
        Mod y = mk(2, "y");
        y.needs = {"x"};
        y.exps = {{"fy", E_FUNC, 1}, {"dy", E_I32, 5}, {"my", E_MUTI32, 5}, {"mainf", E_FUNC, 3}};
        y.uses = {{"fx", U_ENV, false}, {"fx", U_GOTFUNC, false}, {"dx", U_GOTMEM, false}, {"mainf", U_ENV, false}, {"nothere", U_GOTFUNC, true}};
        y.mal = 4;
        y.ctor = CT_INIT;
        y.tsz = 3;
        ms["y"] = y;
        Mod z = mk(3, "z");
        z.needs = {"x", "missing"};
        ms["z"] = z;
        Mod u = mk(4, "u");
        u.uses = {{"undef", U_GOTFUNC, false}};
        ms["u"] = u;
        Mod t = mk(5, "t");
        t.bad = B_CTORTRAP;
        ms["t"] = t;
        Mod v = mk(6, "v");
        v.opens = "x";
        v.dl = true;
        v.msz = 64;
        v.mal = 3;
        v.exps = {{"fv", E_FUNC, 2}};
        ms["v"] = v;
        Mod g = mk(7, "g");
        g.bad = B_GARBAGE;
        ms["g"] = g;
        Mod p = mk(8, "p");
        p.msz = 70000;
        p.mal = 16;
        p.exps = {{"fp", E_FUNC, 0}};
        p.needs = {"p"};
        p.tal = 3;
        ms["p"] = p;
        Mod l = mk(9, "l");
        l.dl = l.dlexp = true;
        ms["l"] = l;
    }
    auto it = ms.find(n);
    return it == ms.end() ? nullptr : &it->second;
}
static void dl_case(const std::vector<int> &ops, bool pie, bool need, tw_imports *base)
{
    static const char *open[] = {"x", "y", "z", "u", "t", "v", "g", "none", "p"};
    Ctx = mc::fmt("%s%s:", pie ? "pie" : "nonpie", need ? " needs x" : "");
    for (int o : ops)
        Ctx += o < 9 ? mc::fmt(" open %s", open[o]) : o == 9 ? Str(" memory.grow") : Str(" table.grow");
    World w;
    Mod m = mk(0, "m");
    m.pie = pie;
    m.dl = true;
    m.msz = 4096;
    m.lay = pie;
    m.exps = {{"mainf", E_FUNC, 0}};
    if (!pie)
        m.needs = {"l"};
    if (need)
        m.needs.push_back("x");
    put(Dir + "/l", build(*dlmod("l")));
    put(Dir + "/m", build(m));
    for (const char *n : open)
        if (const Mod *l = dlmod(n))
            put(Dir + "/" + n, build(*l));
    unlink((Dir + "/none").c_str());
    const char *paths[1] = {Dir.c_str()};
    struct dz_opts o = {paths, 1, 4096, 0, 1};
    Logs.clear();
    dz *z = dz_new(Env, base, &o);
    int e = dz_load(z, (Dir + "/m").c_str());
    if (e == 0)
        e = dz_init(z);
    X->add(c_loads);
    if (e != 0) {
        FAIL("main module gives %d", e);
        dz_free(z);
        return;
    }
    /* every instance that came to life, in order */
    struct In {
        Inst i;
        bool ok;
        uint32_t handle;
        std::map<Str, uint32_t> sym;
    };
    std::vector<In> ins;
    std::vector<Region> fixed, grown;
    std::map<int, int> inits;
    auto absorb = [&](size_t from, bool ok, std::vector<In> &to) {
        int cur = -1;
        std::vector<int> open;
        for (size_t k = from; k < Logs.size(); k++) {
            const Log &l = Logs[k];
            if (l.code == L_RELOC) {
                const Mod *d = l.id == 0 ? &m : nullptr;
                for (const char *n : {"x", "y", "z", "u", "t", "v", "p", "l"})
                    if (dlmod(n)->id == l.id)
                        d = dlmod(n);
                if (!d) {
                    FAIL("module %d ran", l.id);
                    return;
                }
                to.push_back({{d, 0, 0, false}, ok, 0, {}});
                cur = (int)to.size() - 1;
            }
            if (cur < 0)
                continue;
            In &c = to[(size_t)cur];
            if (l.code == L_MBASE)
                c.i.mb = l.v;
            if (l.code == L_TBASE) {
                c.i.tb = l.v;
                c.i.known = true;
            }
            if (l.code >= L_SLOW && l.code <= L_HEND && l.id == 0) {
                if (l.code == L_SLOW || l.code == L_HBASE)
                    fixed.push_back({l.v, 0, l.code == L_SLOW ? "the stack" : "the heap"});
                else
                    fixed.back().hi = l.v;
            }
        }
    };
    absorb(0, true, ins);
    if (ins.size() != (need ? 2u : 1u) + !pie)
        FAIL("%zu modules initialised at the start", ins.size());
    uint32_t mb = pie ? 0 : 1024;
    for (auto &i : ins)
        if (i.i.m->id == 0 && pie)
            mb = i.i.mb;
    uint32_t f_open, f_sym, f_gm, f_gt;
    tw_find_export(dz_main(z), "open", 0, &f_open);
    tw_find_export(dz_main(z), "sym", 0, &f_sym);
    tw_find_export(dz_main(z), "growm", 0, &f_gm);
    tw_find_export(dz_main(z), "growt", 0, &f_gt);
    std::set<uint32_t> handles;
    std::vector<uint32_t> grownt;
    auto call = [&](uint32_t f, std::vector<uint32_t> a) {
        twv v[5] = {}, r = {~0ull, 0};
        for (size_t k = 0; k < a.size(); k++)
            v[k].lo = a[k];
        int trap;
        int e = tw_call(dz_main(z), f, v, &r, nullptr, &trap);
        X->add(c_calls);
        if (e != 0) {
            FAIL("call ends with %d (%s)", e, tw_trap_name(trap));
            return NOVAL;
        }
        return (uint32_t)r.lo;
    };
    auto lookup = [&](uint32_t h, int type, const Str &n, uint32_t *addr) {
        tw_mem_write(dz_main(z), 0, mb + 64, n.data(), n.size());
        uint32_t v = NOVAL;
        tw_mem_write(dz_main(z), 0, mb + 16, &v, 4);
        uint32_t r = call(f_sym, {h, (uint32_t)type, mb + 64, (uint32_t)n.size(), mb + 16});
        tw_mem_read(dz_main(z), 0, mb + 16, addr, 4);
        if (r != 0 && *addr != NOVAL)
            FAIL("a failed lookup stored %x", *addr);
        return r;
    };
    /* main's scratch area is given back as it was */
    auto refill = [&]() {
        std::vector<uint8_t> b(1024, 1);
        tw_mem_write(dz_main(z), 0, mb, b.data(), b.size());
    };
    for (int op : ops) {
        size_t from = Logs.size();
        if (op == 9) {
            uint64_t old = dz_memsize(z);
            uint32_t r = call(f_gm, {1});
            if (r != old >> 16 || dz_memsize(z) != old + PAGE)
                FAIL("memory.grow gives %x", r);
            std::vector<uint8_t> b(PAGE, (uint8_t)(100 + grown.size()));
            tw_mem_write(dz_main(z), 0, old, b.data(), PAGE);
            grown.push_back({old, old + PAGE, mc::fmt("page grown %zu", grown.size())});
        } else if (op == 10) {
            uint32_t old = dz_tabsize(z);
            uint32_t r = call(f_gt, {2});
            if (r != old || dz_tabsize(z) != old + 2)
                FAIL("table.grow gives %x", r);
            grownt.push_back(old);
        } else {
            Str n = open[op];
            tw_mem_write(dz_main(z), 0, mb + 64, n.data(), n.size());
            uint32_t h = 0;
            tw_mem_write(dz_main(z), 0, mb + 16, &h, 4);
            uint32_t r = call(f_open, {mb + 64, (uint32_t)n.size(), 0, mb + 16});
            tw_mem_read(dz_main(z), 0, mb + 16, &h, 4);
            bool good = n == "x" || n == "y" || n == "v" || n == "p";
            if (r != (good ? 0u : 1u))
                FAIL("opening %s gives %u", n.c_str(), r);
            if (!good && h != 0)
                FAIL("a failed load stored handle %u", h);
            std::vector<In> fresh;
            absorb(from, good, fresh);
            /* what has to have been initialised */
            int nrel = 0, nctor = 0, nend = 0;
            std::map<int, int> cnt;
            for (size_t k = from; k < Logs.size(); k++) {
                nrel += Logs[k].code == L_RELOC;
                nctor += Logs[k].code == L_CTOR;
                nend += Logs[k].code == L_CTOREND;
                cnt[Logs[k].id] += Logs[k].code == L_RELOC;
                if (Logs[k].code == L_NEST && Logs[k].v != 0)
                    FAIL("nested load gives %u", Logs[k].v);
            }
            auto loaded = [&](const char *n) {
                for (auto &i : ins)
                    if (i.i.m == dlmod(n) && i.ok)
                        return true;
                return false;
            };
            if (good) {
                if (nrel != nctor || nctor != nend)
                    FAIL("opening %s: %d relocations, %d constructors, %d completed", n.c_str(), nrel, nctor, nend);
                const Mod *d = dlmod(n);
                if (cnt[d->id] > 1 || (cnt[d->id] == 0 && !loaded(n.c_str())))
                    FAIL("opening %s initialised it %d times", n.c_str(), cnt[d->id]);
                bool left = false; /* a failed load may leave x behind */
                for (int q : ops)
                    left |= q == 2;
                if (n == "y" && cnt[1] && loaded("x") && !left)
                    FAIL("x was loaded again for y");
                if (n == "y" && !cnt[1] && !loaded("x") && !left)
                    FAIL("x was not initialised for y");
                for (auto &c : cnt)
                    if (c.second && c.first != d->id && !(n == "y" && c.first == 1) && !(n == "v" && c.first == 1))
                        FAIL("opening %s initialised module %d", n.c_str(), c.first);
                if (h == 0 || !handles.insert(h).second)
                    FAIL("opening %s gives handle %u", n.c_str(), h);
                for (auto &f : fresh)
                    if (f.i.m == d)
                        f.handle = h;
            }
            for (auto &f : fresh)
                ins.push_back(f);
        }
        refill();
        /* everything that lives */
        std::vector<Region> mr = fixed, tr{{0, 1, "the null entry"}};
        for (auto &g : grown) {
            mr.push_back(g);
            if (!filled(z, g.lo, PAGE, (uint8_t)(100 + (&g - &grown[0])), g.what.c_str()))
                FAIL("contents");
        }
        for (uint32_t g : grownt) {
            tr.push_back({g, (uint64_t)g + 2, "grown entries"});
            for (uint32_t k = 0; k < 2; k++) {
                uint32_t v;
                int trap;
                int e = calli(z, g + k, &v, &trap);
                if (!(e == TW_TRAP && trap == TWT_CI_NULL))
                    FAIL("a table entry main grew is used");
            }
        }
        for (auto &i : ins)
            if (!check_inst(z, i.i, mr, tr))
                FAIL("module %d", i.i.m->id);
        std::map<uint32_t, Str> slots;
        for (auto &i : ins) {
            if (!i.handle)
                continue;
            for (auto &x : i.i.m->exps) {
                uint32_t a;
                bool fn = x.kind == E_FUNC;
                uint32_t r = lookup(i.handle, fn ? 1 : 2, x.name, &a);
                if (x.kind == E_MUTI32) {
                    if (r == 0)
                        FAIL("%s is not a datum", x.name.c_str());
                    continue;
                }
                if (r != 0) {
                    FAIL("%s not found", x.name.c_str());
                    continue;
                }
                if (i.sym.count(x.name) && i.sym[x.name] != a)
                    FAIL("%s moved", x.name.c_str());
                i.sym[x.name] = a;
                if (fn) {
                    uint32_t v;
                    int trap;
                    int e = calli(z, a, &v, &trap);
                    if (e != 0 || v != fval(i.i.m->id, x.idx))
                        FAIL("calling %s gives %d, %u", x.name.c_str(), e, v);
                    Str key = mc::fmt("%p.%u", (void *)&i, x.idx);
                    if (slots.count(a) && slots[a] != key)
                        FAIL("%s shares its table entry", x.name.c_str());
                    if (!slots.count(a))
                        tr.push_back({a, (uint64_t)a + 1, x.name});
                    slots[a] = key;
                } else if (a != i.i.mb + x.idx)
                    FAIL("%s is at %x", x.name.c_str(), a);
                if (lookup(i.handle, fn ? 2 : 1, x.name, &a) == 0)
                    FAIL("%s found as the other kind", x.name.c_str());
            }
            if (i.i.m->id == 1) {
                if (i.sym["fx"] != i.sym["gx"])
                    FAIL("one function has two addresses");
            }
            uint32_t a;
            if (lookup(i.handle, 1, "nosuch", &a) == 0 || lookup(i.handle, 3, "fx", &a) == 0 || lookup(i.handle, 1, "", &a) == 0)
                FAIL("something that does not exist was found");
            if (i.i.m->id != 2 && lookup(i.handle, 1, "fy", &a) == 0)
                FAIL("a symbol of another library was found");
        }
        uint32_t a;
        for (uint32_t bad : {0u, (uint32_t)ops.size() + 40, 0xffffffffu})
            if (!handles.count(bad) && lookup(bad, 1, "fx", &a) == 0)
                FAIL("handle %u works", bad);
        refill();
        /* symbols the libraries were bound to */
        for (size_t k = 0; k < ins.size(); k++)
            if (ins[k].i.m->id == 0 && !filled(z, mb, 4096, 1, "main"))
                FAIL("contents");
        if (!disjoint(mr) || !disjoint(tr))
            FAIL("layout");
    }
    /* what y saw of x and of the main module */
    for (auto &l : Logs)
        if (l.id == 2 && l.code >= L_VAL) {
            const Use &u = dlmod("y")->uses[(size_t)(l.code & 31)];
            if (l.code >= L_CALL) {
                uint32_t want = u.name == "fx" ? fval(1, 0) : fval(0, 0);
                if (l.v != want)
                    FAIL("y calling %s gives %u", u.name.c_str(), l.v);
            } else if (u.weak) {
                if (l.v != 0)
                    FAIL("a missing weak symbol is %x", l.v);
            } else {
                bool any = false, left = false;
                for (auto &i : ins)
                    if (i.i.m->id == 1 && u.name == "dx")
                        any |= l.v == i.i.mb + 3;
                for (int q : ops)
                    left |= q == 2;
                if (u.name == "dx" && !any && !left)
                    FAIL("y sees dx at %x", l.v);
            }
        }
    X->outcome(mc::fnv(Ctx));
    dz_free(z);
}
static void gen_dl(bool thorough)
{
    std::vector<std::vector<int>> seqs{{}};
    size_t from = 0;
    for (int len = 1; len <= (thorough ? 4 : 3); len++) {
        size_t to = seqs.size();
        for (; from < to; from++)
            for (int o = 0; o < 11; o++) {
                auto s = seqs[from];
                s.push_back(o);
                seqs.push_back(s);
            }
    }
    for (auto &s : seqs)
        for (int pie = 0; pie < 2; pie++)
            for (int need = 0; need < 2; need++)
                Cases.push_back([s, pie, need](tw_imports *b) { dl_case(s, pie, need, b); });
}

/* calls across modules */
static const uint8_t PT[5] = {T_I32, T_I64, T_F32, T_F64, T_V128};
static twv pval(int t, int k)
{
    twv v = {0x1122334455667788ull * (uint64_t)(k + 1) + (uint64_t)k, 0xa1b2c3d4e5f60718ull + (uint64_t)k};
    if (t == T_I32 || t == T_F32)
        v = {(uint32_t)(0x01020304u * (unsigned)(k + 3)), 0};
    if (t == T_I64 || t == T_F64)
        v.hi = 0;
    return v;
}
enum { CF_CALL, CF_TAIL, CF_INDIRECT, CF_TAILIND, CF_GOT, CF_REEXP, CF_THROW, CF_TRAP, CF_PINGPONG, NCF };
static void plt_case(const FT &t, int form, bool pie, bool now, int intr, tw_imports *base)
{
    Ctx = mc::fmt("call form %d%s%s interrupts %d (", form, pie ? " pie" : "", now ? " bindnow" : "", intr);
    for (auto c : t.p)
        Ctx += mc::fmt("%x ", c);
    Ctx += ") -> (";
    for (auto c : t.r)
        Ctx += mc::fmt("%x ", c);
    Ctx += ")";
    auto common = [](Module &w) {
        Import i;
        i.mod = "env";
        i.name = "memory";
        i.kind = 2;
        w.imports.push_back(i);
        Import tb;
        tb.mod = "env";
        tb.name = "__indirect_function_table";
        tb.kind = 1;
        tb.vt = T_FUNCREF;
        w.imports.push_back(tb);
    };
    auto impg = [](Module &w, const char *mod, const char *n, bool mut) {
        Import g;
        g.mod = mod;
        g.name = n;
        g.kind = 3;
        g.vt = T_I32;
        g.mut = mut;
        w.imports.push_back(g);
        return w.nimp(3) - 1;
    };
    auto impf = [](Module &w, const char *n, const FT &t) {
        Import f;
        f.mod = "env";
        f.name = n;
        f.kind = 0;
        f.typeidx = w.type(t);
        w.imports.push_back(f);
        return w.nimp(0) - 1;
    };
    auto tag = [](Module &w) {
        Import g;
        g.mod = "env";
        g.name = "__cpp_exception";
        g.kind = 4;
        g.typeidx = w.type({{T_I32}, {}});
        w.imports.push_back(g);
    };
    auto finish = [](const Module &w, const Mod &m) {
        Bytes enc = w.encode(), out = dylink(m);
        out.insert(out.end(), enc.begin() + 8, enc.end());
        return out;
    };
    Mod ma = mk(1, "a"), mm = mk(0, "m"), mb = mk(2, "b");
    /* the callee */
    Module a;
    Bytes b;
    common(a);
    uint32_t amb = impg(a, "env", "__memory_base", false);
    ma.msz = 64;
    ma.mal = 4;
    ma.tsz = 0;
    if (form == CF_PINGPONG) {
        uint32_t f = impf(a, "even", II);
        lget(b, 0);
        u8(b, 0x45);
        u8(b, 0x04);
        u8(b, T_I32);
        i32c(b, 0);
        u8(b, 0x05);
        lget(b, 0);
        i32c(b, 1);
        u8(b, 0x6b);
        u8(b, 0x12);
        uleb(b, f);
        u8(b, 0x0b);
        a.exp("odd", 0, a.func(II, b));
    } else {
        if (form == CF_THROW)
            tag(a);
        for (uint32_t k = 0; k < t.p.size(); k++) {
            gget(b, amb);
            lget(b, k);
            switch (t.p[k]) {
            case T_I32: u8(b, 0x36); break;
            case T_I64: u8(b, 0x37); break;
            case T_F32: u8(b, 0x38); break;
            case T_F64: u8(b, 0x39); break;
            case T_V128:
                u8(b, 0xfd);
                uleb(b, 11);
                break;
            }
            u8(b, 0);
            uleb(b, 16 * k);
        }
        if (form == CF_THROW) {
            i32c(b, 4711);
            u8(b, 0x08);
            uleb(b, 0);
        } else if (form == CF_TRAP)
            u8(b, 0);
        else
            for (size_t k = 0; k < t.r.size(); k++)
                constant(b, t.r[k], pval(t.r[k], 10 + (int)k));
        a.exp("f", 0, a.func(t, b));
    }
    put(Dir + "/a", finish(a, ma));
    /* passes on what it imports */
    if (form == CF_REEXP) {
        Module w;
        common(w);
        w.exp("g", 0, impf(w, "f", t));
        mb.msz = mb.tsz = 0;
        put(Dir + "/b", finish(w, mb));
    }
    /* the caller */
    Module w;
    if (pie)
        common(w);
    uint32_t got = form == CF_GOT ? impg(w, "GOT.func", "f", true) : 0;
    uint32_t tb = pie ? impg(w, "env", "__table_base", false) : 0;
    uint32_t f = form == CF_GOT ? 0 : impf(w, form == CF_PINGPONG ? "odd" : form == CF_REEXP ? "g" : "f", form == CF_PINGPONG ? II : t);
    /* a non-pie main module does not share the tag */
    if (form == CF_THROW)
        tag(w);
    if (!pie) {
        Lim l;
        l.min = 1;
        w.mems.push_back(l);
        Table tt;
        tt.t = T_FUNCREF;
        tt.l.min = 2;
        w.tables.push_back(tt);
        w.exp("memory", 2, 0);
        w.exp("__indirect_function_table", 1, 0);
        uint32_t ng = w.nimp(3);
        for (uint32_t k = 0; k < 5; k++) {
            Global g;
            g.t = T_I32;
            g.mut = k == 0;
            i32c(g.init, 256);
            w.globals.push_back(g);
            static const char *n[5] = {"__stack_pointer", "__stack_low", "__stack_high", "__heap_base", "__heap_end"};
            w.exp(n[k], 3, ng + k);
        }
    }
    mm.needs = form == CF_REEXP ? std::vector<Str>{"b", "a"} : std::vector<Str>{"a"};
    mm.tsz = 1;
    mm.msz = 32;
    if (form == CF_INDIRECT || form == CF_TAILIND) {
        Elem e;
        if (pie)
            gget(e.off, tb);
        else
            i32c(e.off, 1);
        e.funcs = {f};
        w.elems.push_back(e);
    }
    b.clear();
    FT rt = {{}, t.r};
    if (form == CF_PINGPONG) {
        lget(b, 0);
        u8(b, 0x45);
        u8(b, 0x04);
        u8(b, T_I32);
        i32c(b, 1);
        u8(b, 0x05);
        lget(b, 0);
        i32c(b, 1);
        u8(b, 0x6b);
        u8(b, 0x12);
        uleb(b, f);
        u8(b, 0x0b);
        w.exp("even", 0, w.func(II, b));
        rt = II;
        b.clear();
        lget(b, 0);
        u8(b, 0x10);
        uleb(b, f);
    } else {
        if (form == CF_THROW) {
            rt = VI;
            u8(b, 0x02);
            u8(b, T_I32);
            u8(b, 0x1f);
            u8(b, 0x40);
            uleb(b, 1);
            u8(b, 0);
            uleb(b, 0);
            uleb(b, 0);
        }
        for (size_t k = 0; k < t.p.size(); k++)
            constant(b, t.p[k], pval(t.p[k], (int)k));
        switch (form) {
        case CF_TAIL:
            u8(b, 0x12);
            uleb(b, f);
            break;
        case CF_INDIRECT:
        case CF_TAILIND:
            if (pie)
                gget(b, tb);
            else
                i32c(b, 1);
            u8(b, form == CF_INDIRECT ? 0x11 : 0x13);
            uleb(b, w.type(t));
            uleb(b, 0);
            break;
        case CF_GOT:
            gget(b, got);
            u8(b, 0x11);
            uleb(b, w.type(t));
            uleb(b, 0);
            break;
        default:
            u8(b, 0x10);
            uleb(b, f);
        }
        if (form == CF_THROW) {
            for (size_t k = 0; k < t.r.size(); k++)
                u8(b, 0x1a);
            u8(b, 0x0b);
            i32c(b, 99);
            u8(b, 0x0b);
        }
    }
    w.exp("run", 0, w.func(rt, b));
    put(Dir + "/m", finish(w, mm));
    const char *paths[1] = {Dir.c_str()};
    struct dz_opts o = {paths, 1, 4096, now, 0};
    dz *z = dz_new(Env, base, &o);
    int e = dz_load(z, (Dir + "/m").c_str());
    X->add(c_loads);
    if (e == 0)
        e = dz_init(z);
    if (e != 0) {
        FAIL("loading gives %d", e);
        dz_free(z);
        return;
    }
    uint32_t fi;
    tw_find_export(dz_main(z), "run", 0, &fi);
    for (int round = 0; round < 2; round++) {
        struct tw_exec x;
        memset(&x, 0, sizeof(x));
        if (intr) {
            x.intr = 1;
            x.check_interval = 1;
            x.intr_delay = (unsigned)intr;
        }
        int n = intr ? 300 : 30000;
        x.max_frames = form == CF_PINGPONG ? 6 : 4;
        twv arg = {(uint64_t)n + (unsigned)round, 0}, res[4];
        memset(res, 0xee, sizeof(res));
        int trap;
        int e = tw_call(dz_main(z), fi, &arg, res, &x, &trap);
        X->add(c_calls);
        if (form == CF_TRAP ? !(e == TW_TRAP && trap == TWT_UNREACHABLE) : e != 0) {
            FAIL("round %d ends with %d (%s)", round, e, tw_trap_name(trap));
            break;
        }
        if (form == CF_PINGPONG) {
            /* run(n) is odd(n) */
            if (res[0].lo != (unsigned)(n + round) % 2)
                FAIL("round %d gives %" PRIu64, round, res[0].lo);
            continue;
        }
        if (form == CF_THROW) {
            if (res[0].lo != 4711)
                FAIL("round %d: the exception gives %" PRIu64, round, res[0].lo);
        } else if (form != CF_TRAP)
            for (size_t k = 0; k < t.r.size(); k++) {
                twv want = pval(t.r[k], 10 + (int)k);
                if (res[k].lo != want.lo || (t.r[k] == T_V128 && res[k].hi != want.hi))
                    FAIL("round %d: result %zu is %" PRIx64 ":%" PRIx64, round, k, res[k].hi, res[k].lo);
            }
        /* the callee's memory is at a multiple of 16: find the parameters */
        uint64_t sz = dz_memsize(z);
        static std::vector<uint8_t> mem;
        mem.resize(sz);
        tw_mem_read(dz_main(z), 0, 0, mem.data(), sz);
        static const unsigned len[5] = {4, 8, 4, 8, 16};
        bool found = t.p.empty();
        for (uint64_t at = 0; at + 64 <= sz && !found; at += 16) {
            bool all = true;
            for (size_t k = 0; k < t.p.size() && all; k++) {
                twv v = pval(t.p[k], (int)k);
                all = memcmp(&mem[at + 16 * k], &v, len[std::find(PT, PT + 5, t.p[k]) - PT]) == 0;
            }
            if (all) {
                found = true;
                std::vector<uint8_t> zero(64, 0);
                tw_mem_write(dz_main(z), 0, at, zero.data(), 64);
            }
        }
        if (!found)
            FAIL("round %d: the parameters did not arrive", round);
    }
    X->outcome(mc::fnv(Ctx));
    dz_free(z);
}
static void gen_plt(bool thorough)
{
    std::vector<std::vector<uint8_t>> ls{{}};
    for (auto a : PT)
        ls.push_back({a});
    for (auto a : PT)
        for (auto b : PT)
            ls.push_back({a, b});
    if (thorough)
        for (auto a : PT)
            for (auto b : PT)
                for (auto c : PT)
                    ls.push_back({a, b, c});
    int n = 0;
    for (auto &p : ls)
        for (auto &r : ls) {
            if (p.size() == 3 && r.size() == 3)
                continue;
            for (int form = 0; form <= CF_TRAP; form++) {
                n++;
                if (!thorough && p.size() == 2 && r.size() == 2 && n % 3)
                    continue;
                for (int pie = 0; pie < 2; pie++)
                    for (int now = 0; now < 2; now++) {
                        if (form == CF_THROW && !pie)
                            continue;
                        int intr = n % 4;
                        FT t{p, r};
                        Cases.push_back([t, form, pie, now, intr](tw_imports *b) { plt_case(t, form, pie, now, intr, b); });
                    }
            }
        }
    for (int pie = 0; pie < 2; pie++)
        for (int now = 0; now < 2; now++)
            for (int intr = 0; intr < 12; intr++)
                Cases.push_back([pie, now, intr](tw_imports *b) { plt_case({{}, {}}, CF_PINGPONG, pie, now, intr, b); });
}

static void gen(bool thorough)
{
    gen_plt(thorough);
    gen_errors();
    gen_names(thorough);
    gen_dl(thorough);
    gen_layout(thorough);
    gen_symbols(thorough);
    gen_graphs(thorough);
}
