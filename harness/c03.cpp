// C03: a union has at most one active member, consistent with its discriminator
#include "model.hpp"
#include "tree.hpp"
using namespace m; using mc::refused_rt;

static std::vector<T> discriminators()
{
    std::vector<T> r;
    for (K k : { I32, U8, C8, I8, U16, I64, I16, U32, U64, C16, WC, BOOL }) r.push_back(prim_t(k));
    std::vector<std::pair<std::string, uint32_t>> en = { {"A", 0}, {"B", 1}, {"C", 5}, {"D", 9}, {"E", 200} };
    for (K k : { E8, E16, E32 }) r.push_back(enum_t(k, en));
    r.push_back(alias_t(prim_t(I32))); r.push_back(alias_t(alias_t(enum_t(E8, en)))); r.push_back(alias_t(prim_t(U8))); r.push_back(alias_t(enum_t(E32, en)));
    return r;
}
// label alphabet of a discriminator: the first ones are used in most layouts
static std::vector<int64_t> alphabet(const T& disc)
{
    switch (rget(disc)->k)
    {
        case BOOL: return { 1, 0 };
        case I8: return { 3, -1, 0, -128, 100 };
        case U8: return { 3, 200, 0, 255, 128 };
        case I16: return { 3, -1, 0, -32768, 300 };
        case U16: return { 3, 65535, 0, 256, 40000 };
        case I32: return { 3, -1, 0, INT32_MIN, 70000 };
        case U32: return { 3, 4000000000LL, 0, 65536, 0x80000000LL };
        case I64: return { 3, -1, 0, INT64_MIN, 1LL << 40 };
        case U64: return { 3, 1LL << 40, 0, (1LL << 62) + 1, 256 };
        case C8: return { 'a', 'z', 0, '0', 'b' };
        case C16: return { 'a', 0x20AC, 0, 0xD7FF, 'b' };
        case WC: return { 'a', 0x20AC, 0, 0x1F600, 'b' };
        default: return { 1, 9, 0, 5, 200 };
    }
}
// values that are nobody's label, some of them outside of the range of the discriminator
static std::vector<int64_t> foreign(const T& disc, const T& u)
{
    K k = rget(disc)->k;
    std::vector<int64_t> c = { 2, 77 };
    if (k == BOOL) c = { 2, 256, 257 };
    else if (k == I8 || k == U8 || k == C8 || k == E8) { c.push_back(256 + alphabet(disc)[0]); c.push_back(-257); c.push_back(INT64_MAX); }
    else if (k == I16 || k == U16 || k == C16 || k == E16) { c.push_back(65536 + alphabet(disc)[0]); c.push_back(INT64_MAX); }
    else if (k == I32 || k == U32 || k == WC || k == E32) { c.push_back((1LL << 32) + alphabet(disc)[0]); c.push_back(INT64_MAX - 1); }
    std::vector<int64_t> r;
    for (auto l : c) if (label_owner(*rget(u), l) < 0) r.push_back(l);
    return r;
}

struct Sys
{
    T ut, root; int where;   // 0: top, 1: struct member, 2: sequence element, 3: map value, 4: alias
    std::unique_ptr<DynamicData> d, key; Val v, r0;
    std::vector<int64_t> ls, fs;
    static T holder(const T& u, int where)
    {
        switch (where) { case 1: return struct_t({ str_t(STR), u, prim_t(U8) }); case 2: return seq_t(u); case 3: return map_t(prim_t(U8), u); case 4: return alias_t(u); case 5: return arr_t(u, 2); default: return u; }
    }
    Sys(const T& u, int where) : ut(u), root(holder(u, where)), where(where), d(new DynamicData(root->rt())), key(new DynamicData(xt::primitive_type<uint8_t>()))
    {
        if (where == 2) d->resize(2);
        if (where == 3) { auto r = (*d)[*key]; (void)r; }
        v = defaults(ut); r0 = read(*d, root);
        std::set<int64_t> s; for (auto& x : ut->mem) for (auto l : x.labels) s.insert(l);
        ls.assign(s.begin(), s.end()); fs = foreign(ut->a, ut);
        M = int(ut->mem.size());
    }
    int M;
    WritableDynamicDataRef u() const
    {
        WritableDynamicDataRef w = d->ref();
        switch (where) { case 1: return w[1]; case 2: return w[1]; case 3: return w.at(*key); case 5: return w[1]; default: return w; }
    }
    // ops: [0,M) activate; [M,2M) activate and write content; then labels by number, labels by data, foreign, copy, move, assign, refused reads
    int nops() const { return 2 * M + int(ls.size()) * 2 + int(fs.size()) + 6; }
    std::string op_name(int o) const
    {
        if (o < M) return "[" + ut->mem[o].name + "]"; o -= M;
        if (o < M) return "[" + ut->mem[o].name + "]=B"; o -= M;
        if (o < (int)ls.size()) return cat("d(", ls[o], ")"); o -= ls.size();
        if (o < (int)ls.size()) return cat("d(data ", ls[o], ")"); o -= ls.size();
        if (o < (int)fs.size()) return cat("d(foreign ", fs[o], ")"); o -= fs.size();
        static const char* n[] = { "copy", "move", "assignOver", "assignFrom", "selfAssign", "misuse" };
        return n[o];
    }
    void refresh(int sel, const Val& content)
    {
        Val g = read(u().cref(), ut);           // fails itself if discriminator and active member are not consistent
        MC_CHECK(g.sel == sel, "active member is ", g.sel, " expected ", sel);
        v = active(*ut, sel, g.n, content);
    }
    void select(int64_t l, bool by_data)
    {
        int o = label_owner(*ut, l);
        auto f = [&]
        {
            if (by_data)
            {
                DynamicData x(ut->a->rt());
                prim(rget(ut->a)->k, [&](auto tag) { using X = typename decltype(tag)::type; x.value<X>(X(l)); return 0; });
                u().d(x);
            }
            else u().d(l);
        };
        if (v.sel >= 0 && o != v.sel) { MC_CHECK(refused_rt(f), "d() with a label of another member is not refused"); return; }
        f();
        Val content = v.sel < 0 ? defaults(ut->mem[o].t) : v.k[0];
        v = active(*ut, o, real_t(l), content);
    }
    bool apply(int o)
    {
        if (o < 2 * M)
        {
            bool wr = o >= M; o %= M;
            WritableDynamicDataRef c = u()[ut->mem[o].name];
            Val content = v.sel == o ? v.k[0] : defaults(ut->mem[o].t);
            MC_CHECK(read(c, ut->mem[o].t) == content, "content after access by name is ", show(ut->mem[o].t, read(c, ut->mem[o].t)), " expected ", show(ut->mem[o].t, content));
            if (v.sel != o) refresh(o, content);
            if (wr) { Val b = samples(ut->mem[o].t, 4).back(); auto x = make(ut->mem[o].t, b); u()[ut->mem[o].name] = x->ref(); v.k[0] = b; }
            return true;
        }
        o -= 2 * M;
        if (o < (int)ls.size()) { select(ls[o], false); return true; } o -= ls.size();
        if (o < (int)ls.size()) { select(ls[o], true); return true; } o -= ls.size();
        if (o < (int)fs.size())
        {
            bool ref = refused_rt([&] { u().d(fs[o]); }); (void)ref;
            if (default_member(*ut) < 0) { expect(u().cref(), ut, v, "union after d() with a value that is no label"); return true; }
            Val g = read(u().cref(), ut);
            MC_CHECK(g.sel == v.sel && g.k == v.k, "d() with a value that is no label changed the content");
            v.n = g.n; return true;
        }
        o -= fs.size();
        switch (o)
        {
            case 0: { std::unique_ptr<DynamicData> c(new DynamicData(*d)); d = std::move(c); return true; }
            case 1: { std::unique_ptr<DynamicData> c(new DynamicData(std::move(*d))); d = std::move(c); return true; }
            case 2: { DynamicData other(ut->rt()); auto r = other[ut->mem.back().name]; (void)r; auto b = make(ut->mem.back().t, samples(ut->mem.back().t, 4).back()); other[ut->mem.back().name] = b->ref();
                      other = u(); expect(other, ut, v, "union assigned over another one"); u() = other.ref(); return true; }
            case 3: { DynamicData other(ut->rt()); auto b = make(ut->mem[0].t, samples(ut->mem[0].t, 4).back()); other[ut->mem[0].name] = b->ref();
                      Val x = read(other, ut); u() = other.ref(); v = x; return true; }
            case 4: { u() = u(); return true; }
            case 5: { WritableDynamicDataRef w = u(); ReadableDynamicDataRef r = w.cref();
                      MC_CHECK(refused_rt([&] { w["nobody"]; }) && refused_rt([&] { r["nobody"]; }) && refused_rt([&] { w.get_member("nobody"); }), "unknown member");
                      MC_CHECK(refused_rt([&] { w["discriminator"]; }) && refused_rt([&] { r["discriminator"]; }), "the discriminator by name");
                      MC_CHECK(refused_rt([&] { auto x = r[0]; (void)x; }) && refused_rt([&] { auto x = w[1]; (void)x; }), "index access");
                      return true; }
        }
        return false;
    }
    void check()
    {
        WritableDynamicDataRef w = u(); ReadableDynamicDataRef r = w.cref();
        expect(r, ut, v, "union");
        for (int i = 0; i < M; ++i)
        {
            auto& n = ut->mem[i].name;
            if (i == v.sel)
            {
                MC_CHECK(r[n].instance_id() == w.get_member(n).instance_id(), "get_member and [] differ");
                MC_CHECK(read(w.get_member(n), ut->mem[i].t) == v.k[0], "get_member gives other content");
                MC_CHECK(r.current_case().name() == n && w.current_case().name() == n, "current_case");
                MC_CHECK(r.current_case().type().name() == ut->mem[i].t->rt().name(), "type of current_case");
            }
            else MC_CHECK(refused_rt([&] { auto x = r[n]; (void)x; }) && refused_rt([&] { auto x = w.get_member(n); (void)x; }), "reading the inactive member ", n, " is not refused");
        }
        if (v.sel < 0) MC_CHECK(refused_rt([&] { r.current_case(); }), "current_case without active member is not refused");
        if (v.sel >= 0) { auto c = w[ut->mem[v.sel].name]; MC_CHECK(c.instance_id() == r[ut->mem[v.sel].name].instance_id(), "writable and readable access differ"); }
        expect(r, ut, v, "union after its observation");
        auto f = make(ut, v, 1);
        MC_CHECK(read(*f, ut) == v, "model/fill mismatch ", show(ut, read(*f, ut)), " vs ", show(ut, v));
        MC_CHECK(*f == r && r == *f && f->hash() == r.hash(), "not equal to the same union built directly");
        // nothing around the union changed
        Val all = read(*d, root);
        if (where == 1) { MC_CHECK(all.k[0] == r0.k[0] && all.k[2] == r0.k[2], "neighbour member changed"); }
        if (where == 2 || where == 5) MC_CHECK(all.k[0] == r0.k[0], "neighbour element changed");
    }
};

static void run_tree(mc::Run& run, const T& u, int where, int depth)
{
    Sys probe(u, where);
    mc::tree(run, cat(u->desc, "@", where), probe.nops(), depth, [&] { return std::make_unique<Sys>(u, where); });
}

static std::vector<T> layouts(const T& d)
{
    T str = str_t(STR), i32 = prim_t(I32), st = struct_t({prim_t(U8), str}), sq = seq_t(str);
    auto a = alphabet(d);
    if (rget(d)->k == BOOL) return { union_t(d, { {{1}, str}, {{0}, i32} }), union_t(d, { {{0}, st, true}, {{1}, str} }), union_t(d, { {{1, 0}, sq, true} }), union_t(d, { {{1}, str} }),
        union_t(d, { {{}, str, true}, {{1}, sq} }), union_t(d, { {{0}, str}, {{}, st, true} }) };
    std::vector<T> r = {
        union_t(d, { {{a[0]}, str}, {{a[1], a[2]}, st} }),
        union_t(d, { {{a[0], a[1]}, i32}, {{}, str, true} }),
        union_t(d, { {{a[2], a[0]}, sq, true}, {{a[3]}, str}, {{a[1]}, prim_t(F64)} }),
        union_t(d, { {{}, st, true}, {{a[3], a[1]}, str} }),
        union_t(d, { {{a[4]}, str}, {{a[3]}, str}, {{a[2], a[1], a[0]}, sq} }),
    };
    return r;
}

SUITE(tree)
{
    int i = 0, dd = mc::thorough() ? 1 : 0;
    for (auto& d : discriminators())
    {
        // the discriminators with a code path of their own go deeper with the first layouts
        size_t l = 0; K k = rget(d)->k;
        for (auto& u : layouts(d)) run_tree(run, u, 0, (l++ < (k == I32 || k == BOOL ? 3 : k == E8 || k == I8 ? 2 : 0) ? 3 : 2) + dd);
        ++i;
    }
    T d = prim_t(I32), str = str_t(STR);
    T inner = union_t(enum_t(E8), { {{1}, str}, {{5, 9}, prim_t(I32), true} });
    for (auto& u : std::vector<T>{ union_t(d, { {{1, 2}, str}, {{3}, seq_t(str)} }), union_t(prim_t(U8), { {{7}, inner}, {{}, str, true} }), union_t(d, { {{2}, map_t(prim_t(U8), str)}, {{1, -5}, inner, true} }) })
        for (int where = 0; where < 6; ++where) run_tree(run, u, where, (where > 3 ? 2 : 3) + dd);
}

// every assignment of 4 labels to 3 members (or to none), with every choice of default member
SUITE(layouts)
{
    std::vector<T> ds = { prim_t(I8) }; if (mc::thorough()) ds = { enum_t(E16, { {"A", 0}, {"B", 1}, {"C", 5}, {"D", 9}, {"E", 200} }) };
    if (mc::thorough()) for (auto& d : discriminators()) if (rget(d)->k != BOOL) ds.push_back(d);
    T str = str_t(STR), i32 = prim_t(I32), st = struct_t({prim_t(U8), str});
    for (auto& d : ds) for (int code = 0; code < 256; ++code) for (int def = -1; def < 3; ++def)
    {
        auto a = alphabet(d); std::vector<Case> cs = { {{}, str, def == 0}, {{}, i32, def == 1}, {{}, st, def == 2} };
        int c = code; for (int l = 0; l < 4; ++l, c /= 4) if (c % 4 < 3) cs[c % 4].labels.push_back(a[l]);
        bool ok = true; for (auto& x : cs) if (x.labels.empty() && !x.def) ok = false;
        if (!ok) continue;
        T u = union_t(d, cs);
        run_tree(run, u, 0, 2);
    }
}

// definition of unions: labels, defaults and refusals
SUITE(defs)
{
    T str = str_t(STR), i32 = prim_t(I32);
    for (auto& d : discriminators()) for (auto& u : layouts(d)) run.test(u->desc, [&]
    {
        const xt::UnionType& t = static_cast<const xt::UnionType&>(u->rt());
        auto verify = [&](const xt::UnionType& t, const std::string& what)
        {
            MC_CHECK(t.discriminator().name() == d->rt().name(), what, ": discriminator()");
            std::vector<std::string> names; for (auto& x : u->mem) names.push_back(x.name);
            MC_CHECK(t.get_case_members() == names, what, ": get_case_members()");
            int def = default_member(*u);
            MC_CHECK(t.get_default() == (def >= 0 ? u->mem[def].name : ""), what, ": get_default() is ", t.get_default());
            for (size_t i = 0; i < u->mem.size(); ++i)
            {
                MC_CHECK(t.is_default(u->mem[i].name) == (int(i) == def), what, ": is_default(", u->mem[i].name, ")");
                auto got = t.get_labels(u->mem[i].name); std::set<int64_t> a(got.begin(), got.end()), b(u->mem[i].labels.begin(), u->mem[i].labels.end());
                MC_CHECK(a == b && got.size() == a.size(), what, ": get_labels(", u->mem[i].name, ")");
            }
            run.transition();
        };
        verify(t, "type");
        xt::UnionType c(t); verify(c, "copy");
        // refused definitions change nothing
        auto refuse = [&](const std::string& what, std::function<void(xt::UnionType&)> f)
        {
            xt::UnionType x(t);
            MC_CHECK(refused_rt([&] { f(x); }), what, " is not refused"); verify(x, "after refused " + what);
            size_t n = x.memory_size(); MC_CHECK(n == t.memory_size(), "memory_size after refused ", what);
            DynamicData data(x); expect(data, u, defaults(u), "data of the type after refused " + what);
        };
        std::vector<int64_t> used; for (auto& x : u->mem) for (auto l : x.labels) used.push_back(l);
        std::set<int64_t> us(used.begin(), used.end()); std::vector<int64_t> freel; for (auto l : alphabet(d)) if (!us.count(l)) freel.push_back(l);
        for (auto l : used)
        {
            refuse(cat("used label ", l), [&](xt::UnionType& x) { x.add_case_member<int64_t>({l}, "extra", xt::StringType()); });
            if (!freel.empty()) refuse(cat("used label ", l, " after a free one"), [&](xt::UnionType& x) { x.add_case_member<int64_t>({freel[0], l}, "extra", xt::StringType()); });
        }
        refuse("no label", [&](xt::UnionType& x) { x.add_case_member<int64_t>({}, "extra", xt::StringType()); });
        refuse("name discriminator", [&](xt::UnionType& x) { x.add_case_member<int64_t>({}, "discriminator", xt::StringType(), true); });
        if (default_member(*u) >= 0) refuse("second default", [&](xt::UnionType& x) { x.add_case_member<int64_t>(freel.empty() ? std::vector<int64_t>{} : std::vector<int64_t>{freel[0]}, "extra", xt::StringType(), true); });
        if (!freel.empty()) refuse("used name", [&](xt::UnionType& x) { x.add_case_member<int64_t>({freel[0]}, u->mem[0].name, xt::StringType()); });
        if (is_enum(rget(d)->k)) refuse("label that is no enumerator", [&](xt::UnionType& x) { x.add_case_member<int64_t>({3}, "extra", xt::StringType()); });
        // data keeps the type it was created with
        DynamicData data(t); xt::UnionType grow(t);
        if (!freel.empty()) { grow.add_case_member<int64_t>({freel[0]}, "extra", xt::ArrayType(xt::StringType(), 5)); MC_CHECK(grow.memory_size() >= t.memory_size(), "memory_size"); }
        verify(static_cast<const xt::UnionType&>(data.type()), "type of earlier data");
        run.trace(); run.state();
    });
    for (K k : { F32, F64, F128 }) run.test(cat("refused-discriminator-", kname(k)), [&]
    {
        T t = prim_t(k); MC_CHECK(refused_rt([&] { xt::UnionType u("u", t->rt()); }), "floating point discriminator is not refused"); run.trace();
    });
    for (auto& t : std::vector<T>{ str, struct_t({i32}), seq_t(i32), arr_t(i32, 2), map_t(i32, i32), alias_t(str), alias_t(prim_t(F32)) }) run.test("refused-discriminator-" + t->desc, [&]
    {
        MC_CHECK(refused_rt([&] { xt::UnionType u("u", t->rt()); }), "discriminator of this type is not refused"); run.trace();
    });
    // order of adding: larger/smaller members, storage of the largest
    std::vector<T> cts = { prim_t(U8), prim_t(F128), str_t(STR), arr_t(str_t(STR), 3), struct_t({prim_t(U8), str_t(S16)}) };
    std::vector<size_t> p = { 0, 1, 2, 3, 4 };
    do
    {
        std::string id; for (auto i : p) id += std::to_string(i);
        run.test("order/" + id, [&]
        {
            xt::UnionType x("x", xt::primitive_type<int16_t>()); size_t mx = 0;
            for (size_t i = 0; i < p.size(); ++i)
            {
                x.add_case_member<int64_t>({int64_t(i)}, "c" + std::to_string(i), cts[p[i]]->rt());
                mx = std::max(mx, cts[p[i]]->rt().memory_size());
                MC_CHECK(x.memory_size() >= 2 + mx, "memory_size ", x.memory_size(), " does not hold the largest member");
                DynamicData d(x);
                for (size_t j = 0; j <= i; ++j)
                {
                    Val b = samples(cts[p[j]], 4).back(); auto e = make(cts[p[j]], b); d["c" + std::to_string(j)] = e->ref();
                    MC_CHECK(read(d.cref()["c" + std::to_string(j)], cts[p[j]]) == b, "content"); MC_CHECK(d.cref().d().value<int16_t>() == int16_t(j), "discriminator");
                    run.transition();
                }
            }
            run.trace(); run.state();
        });
    }
    while (std::next_permutation(p.begin(), p.end()));
}

// labels given as text mean the same as their values
SUITE(text)
{
    struct C { T d; std::vector<std::pair<std::string, int64_t>> l; };
    T en8 = enum_t(E8, { {"ZERO", 0}, {"B1", 1}, {"Cx", 5} }), en16 = enum_t(E16, { {"ZERO", 0}, {"B1", 1}, {"Cx", 5} }), en32 = enum_t(E32, { {"ZERO", 0}, {"B1", 1}, {"Cx", 5} });
    std::vector<C> cs = {
        { prim_t(BOOL), { {"TRUE", 1}, {"FALSE", 0} } },
        { prim_t(I8), { {"5", 5}, {"-5", -5}, {"0x10", 16}, {"010", 8}, {"0", 0} } },
        { prim_t(U8), { {"5", 5}, {"255", 255}, {"0xFE", 254}, {"017", 15}, {"0", 0} } },
        { prim_t(I16), { {"5", 5}, {"-300", -300}, {"0X7F", 127}, {"0", 0} } },
        { prim_t(U16), { {"5", 5}, {"65535", 65535}, {"0xABCD", 0xABCD}, {"0", 0} } },
        { prim_t(I32), { {"5", 5}, {"-70000", -70000}, {"0x7FFF0000", 0x7FFF0000}, {"010", 8}, {"0", 0} } },
        { prim_t(U32), { {"5", 5}, {"4000000000", 4000000000LL}, {"0xFFFFFFFF", 0xFFFFFFFFLL}, {"0", 0} } },
        { prim_t(I64), { {"5", 5}, {"-5000000000", -5000000000LL}, {"0x100000000", 0x100000000LL}, {"0", 0} } },
        { prim_t(U64), { {"5", 5}, {"5000000000", 5000000000LL}, {"0", 0} } },
        { prim_t(C8), { {"a", 'a'}, {"'b'", 'b'}, {"0", '0'} } },
        { prim_t(C16), { {"a", 'a'}, {"'b'", 'b'} } },
        { prim_t(WC), { {"a", 'a'}, {"'b'", 'b'} } },
        { en8, { {"ZERO", 0}, {"B1", 1}, {"Cx", 5} } }, { en16, { {"Cx", 5}, {"B1", 1}, {"0", 0} } }, { en32, { {"5", 5}, {"B1", 1}, {"ZERO", 0} } },
        { alias_t(prim_t(I8)), { {"-5", -5}, {"5", 5} } }, { alias_t(en32), { {"Cx", 5}, {"B1", 1} } }, { alias_t(en8), { {"Cx", 5}, {"ZERO", 0} } },
    };
    for (auto& c : cs) for (size_t mask = 0; mask < (1u << c.l.size()); ++mask) for (int def = -1; def < 2; ++def) run.test(cat(c.d->desc, "/", mask, "/", def), [&]
    {
        // the labels of the mask go to the first member, the others to the second one
        std::vector<std::string> s[2]; std::vector<int64_t> v[2];
        for (size_t i = 0; i < c.l.size(); ++i) { int w = (mask >> i) & 1; s[w].push_back(c.l[i].first); v[w].push_back(c.l[i].second); }
        if (def >= 0) s[def].insert(s[def].begin() + s[def].size() / 2, "default");
        for (int w = 0; w < 2; ++w) if (s[w].empty()) return;
        xt::UnionType t("u", c.d->rt());
        t.add_case_member(s[0], xt::Member("m0", xt::StringType())); t.add_case_member(s[1], xt::Member("m1", xt::primitive_type<int32_t>()));
        for (int w = 0; w < 2; ++w)
        {
            std::string n = w ? "m1" : "m0"; auto got = t.get_labels(n);
            MC_CHECK(std::set<int64_t>(got.begin(), got.end()) == std::set<int64_t>(v[w].begin(), v[w].end()), "labels of ", n, " differ from the given texts");
            MC_CHECK(t.is_default(n) == (def == w), "default of ", n);
            for (auto l : v[w]) { DynamicData d(t); auto r = d[n]; (void)r; d.d(l); MC_CHECK(d.current_case().name() == n && read(d.cref().d(), c.d).n == real_t(l), "label ", l, " does not select ", n); }
        }
        run.trace(); run.state();
    });
}

// boolean discriminator, one label and an unlabelled default: the discriminator of the default is not that label
SUITE(booldefault)
{
    for (bool label : { false, true }) run.test(label ? "TRUE" : "FALSE", [&]
    {
        xt::UnionType t("u", xt::primitive_type<bool>());
        t.add_case_member<int64_t>({int64_t(label)}, "m0", xt::StringType()); t.add_case_member<int64_t>({}, "m1", xt::StringType(), true);
        DynamicData d(t);
        MC_CHECK(d.current_case().name() == "m1", "the default member is not active at the start");
        uint8_t byte; memcpy(&byte, &d.cref().d().value<bool>(), 1);
        MC_CHECK((byte != 0) != label, "the discriminator of the default member reads as ", label ? "TRUE" : "FALSE", ", the label of the other member");
        run.trace();
    });
}
static Val nth(int i) { return i % 3 == 1 ? text(cat("text ", i)) : num(i % 113); }
// many members, many labels: every member by its name, every label by d()
SUITE(many)
{
    struct L { K k; int members, labels; int64_t from, step; };
    std::vector<L> ls; for (int n : { 127, 128, 129, 255, 256, 257, 400 }) for (K k : { I32, U16, I16, U32, I64 }) ls.push_back({ k, n, 1, k == I32 || k == I64 || k == I16 ? -100 : 0, k == I64 ? 1LL << 30 : 3 });
    for (int n : { 127, 128, 129, 255, 256, 257, 1000 }) for (K k : { I32, U16, I64 }) ls.push_back({ k, 3, n, k == U16 ? 0 : -600, 2 });
    for (K k : { U8, I8, C8, E8 }) for (int n : { 1, 2, 5 }) for (int total : { 130, k == U8 || k == E8 ? 255 : 250 }) { ls.push_back({ k, total / n, n, k == I8 || k == C8 ? -128 : 0, 1 }); ls.push_back({ k, n, total / n, k == I8 || k == C8 ? -128 : 0, 1 }); }
    ls.push_back({ E16, 300, 1, 0, 2 }); ls.push_back({ E32, 300, 1, 0, 70000 }); ls.push_back({ E16, 3, 100, 5, 200 });
    for (auto& l : ls) for (int def = -1; def < 2; ++def) for (int spread = 0; spread < 2; ++spread)
    {
        if (spread && (l.labels == 1 || l.members == 1)) continue;
        if (def >= 0 && int64_t(l.members) * l.labels >= 255 && (l.k == U8 || l.k == I8 || l.k == C8 || l.k == E8)) continue;   // no value is left for the default
        run.test(cat(int(l.k), "/", l.members, "x", l.labels, "/def ", def, "/", spread), [&]
        {
            T disc = prim_t(I32); int total = l.members * l.labels;
            if (l.k == E8 || l.k == E16 || l.k == E32) { std::vector<std::pair<std::string, uint32_t>> en; for (int i = 0; i < total; ++i) en.push_back({ cat("e", i), uint32_t(l.from + l.step * i + (l.k == E8 && i >= 127)) }); if (l.k != E8 || total < 255) en.push_back({ "more", uint32_t(l.from + l.step * total + (l.k == E8)) }); disc = enum_t(l.k, en); } else disc = prim_t(l.k);
            std::vector<std::vector<int64_t>> lab(l.members); for (int i = 0; i < total; ++i) { int64_t v = l.from + l.step * i; if ((l.k == U8 || l.k == E8) && v >= 127) ++v; if (l.k == C8) v = (signed char)v; lab[spread ? i % l.members : i / l.labels].push_back(v); }
            std::vector<T> ct{ prim_t(U8), str_t(STR), prim_t(I32) };
            xt::UnionType ut("Many", disc->rt()); int dm = def < 0 ? -1 : def == 0 ? 0 : l.members - 1;
            for (int i = 0; i < l.members; ++i) ut.add_case_member(lab[i], xt::Member(cat("u", i), ct[i % 3]->rt()), i == dm);
            const int64_t ANY = INT64_MIN + 5;
            auto is = [&](const DynamicData& u, int m, int64_t d)
            {
                MC_CHECK(u.current_case().name() == cat("u", m), "the active member is ", u.current_case().name(), ", expected u", m);
                int64_t got = int64_t(read(u.d(), disc).n); if (d != ANY) MC_CHECK(got == d, "the discriminator is ", got, ", expected ", d); else MC_CHECK(std::find(lab[m].begin(), lab[m].end(), got) != lab[m].end(), "the discriminator is ", got, ", which does not label u", m);
            };
            auto mark = [&](DynamicData& u, int m) { auto w = u[cat("u", m)]; write_leaf(w, ct[m % 3], nth(m)); };
            auto marked = [&](const DynamicData& u, int m) { MC_CHECK(read(u[cat("u", m)], ct[m % 3]) == nth(m), "content of u", m); };
            DynamicData u(ut);
            for (int m = 0; m < l.members; ++m)
            {
                mark(u, m); is(u, m, ANY); marked(u, m);
                if (l.members < 60 || m % 16 == 0 || m > l.members - 4 || (m > 124 && m < 131) || (m > 252 && m < 259)) { for (int o : { 0, m - 1, m + 1, l.members - 1, (m + 128) % l.members, (m + 256) % l.members }) if (o >= 0 && o < l.members && o != m) { run.note(cat("u", m, " to u", o)); MC_CHECK(refused_rt([&] { auto r = u.cref()[cat("u", o)]; (void)r; }), "u", o, " is readable while u", m, " is active"); MC_CHECK(refused_rt([&] { u.d(lab[o].back()); }), "label of u", o, " accepted while u", m, " is active"); } DynamicData c(u); is(c, m, ANY); marked(c, m); MC_CHECK(c == u && c.hash() == u.hash(), "copy"); }
                for (auto x : lab[m]) { u.d(x); is(u, m, x); run.transition(); } marked(u, m); if (lab[m].size() > 1) { auto w = u[cat("u", m)]; is(u, m, lab[m].back()); }
            }
            for (int m = 0; m < l.members; ++m) for (auto x : lab[m]) if (m % (1 + total / 500) == 0 || m + 2 > l.members) { DynamicData v(ut); if (dm < 0) { v.d(x); is(v, m, x); } else if (m == dm) { v.d(x); is(v, m, x); } else MC_CHECK(refused_rt([&] { v.d(x); }), "label of another member accepted by new data whose default member is active"); run.transition(); }
            run.state(); run.trace();
        });
    }
}
MC_MAIN
