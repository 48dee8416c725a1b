// C18: an alias is indistinguishable from the type it names
#include "nav.hpp"
#include "tree.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

// ---- substitution: t with aliases (depth levels each) at chosen nodes; user types keep the names they have without aliases ----
struct Subst
{
    std::function<int(int)> at;     // node number (preorder) -> levels of alias
    int n = 0, levels = 0;
    T go(const T& t0)
    {
        const T& t = rget(t0); int me = n++; T r;
        switch (t->k)
        {
            case ARR: r = arr_t(go(t->a), t->bound); break;
            case SEQ: r = seq_t(go(t->a), t->bound); break;
            case MAP: { T a = go(t->a), b = go(t->b); r = map_t(a, b, t->bound); break; }
            case STRUCT:
            {
                auto x = std::make_shared<Ty>(*t); xt::StructType s("N " + t->desc);
                for (auto& mm : x->mem) { mm.t = go(mm.t); s.add_member(mm.name, mm.t->rt()); }
                x->real = DynamicType::Ptr(s); r = x; break;
            }
            case UNION:
            {
                auto x = std::make_shared<Ty>(*t); x->a = go(t->a); xt::UnionType u("N " + t->desc, x->a->rt());
                for (auto& mm : x->mem) { mm.t = go(mm.t); u.add_case_member<int64_t>(mm.labels, mm.name, mm.t->rt(), mm.def); }
                x->real = DynamicType::Ptr(u); r = x; break;
            }
            default: r = t;
        }
        for (int i = 0, l = at(me); i < l; ++i) { r = alias_t(r, cat("Alias", me, "_", i)); ++levels; }
        return r;
    }
};
static T plain(const T& t, int* nodes = nullptr) { Subst s; s.at = [](int) { return 0; }; T r = s.go(t); if (nodes) *nodes = s.n; return r; }
static T with(const T& t, std::function<int(int)> at) { Subst s; s.at = at; return s.go(t); }

// ---- observations, as text, of everything the public interface offers; the type names of collections are left out since they
// ---- are composed with the name of their content type
using Log = std::vector<std::string>;
static std::string dump(const ReadableDynamicDataRef& r, const T& t) { return show(t, norm_labels(t, read(r, t))); }
template<class F> std::string outcome(F f) { try { return f(); } catch (const std::runtime_error&) { return "refused"; } }
static std::string kind_of(const DynamicType& t) { return std::to_string(uint32_t(t.kind())) + "/" + std::to_string(t.memory_size()); }
static std::string strip_names(const std::string& s)
{
    std::string r; bool in = false; std::istringstream is(s); std::string line, all;
    while (std::getline(is, line)) { auto u = line.find("Unsupported type"); all += line.substr(0, u) + "\n"; }
    for (char c : all) { if (c == '<') in = true; if (!in) r += c; if (c == '>') in = false; } return r;
}
static std::string tell_nodes(const DynamicData& d)
{
    std::string s;
    d.for_each([&](const ReadableDynamicDataRef::ReadableNode& n)
    {
        s += cat("|", n.deep(), ",", n.from_index(), ",", n.from_member() ? n.from_member()->name() : std::string("-"), ",", kind_of(n.type()), ",", kind_of(n.data().type()), n.has_parent() ? "," + kind_of(n.parent().type()) : std::string());
        if (n.type().is_primitive_type() && n.type().kind() != xt::TypeKind::BOOLEAN_TYPE) s += "=" + n.data().cast<std::string>();
    });
    return s;
}
static void reading(Log& l, const DynamicData& d, const T& t)
{
    auto add = [&](const char* what, auto f) { l.push_back(std::string(what) + ": " + outcome([&] { return std::string(f()); })); };
    add("type", [&] { return kind_of(d.type()); });
    add("value", [&] { return dump(d, t); });
    add("value by other paths", [&] { return show(t, read_alt(d, t)); });
    add("hash", [&] { return std::to_string(d.hash()); });
    add("size", [&] { return std::to_string(d.size()); });
    add("bounds", [&] { return std::to_string(d.bounds()); });
    add("text", [&] { return strip_names(d.to_string()); });
    add("nodes", [&] { return tell_nodes(d); });
    add("disc", [&] { return kind_of(d.d().type()); });
    add("active", [&] { return d.current_case().name(); });
    add("int", [&] { return std::to_string(d.cast<int64_t>()); });
    add("double", [&] { return std::to_string(d.cast<double>()); });
    add("string", [&] { return d.cast<std::string>(); });
    add("not", [&] { return std::to_string(!d); });
    add("minus", [&] { return show(t, read(-d, t)); });
    add("complement", [&] { return show(t, read(~d, t)); });
    add("vector<u8>", [&] { return std::to_string(d.as_vector<uint8_t>().size()); });
    add("vector<i32>", [&] { auto v = d.as_vector<int32_t>(); std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; });
    add("vector<string>", [&] { auto v = d.as_vector<std::string>(); std::string s; for (auto& x : v) s += x + ","; return s; });
    for (int i : { 0, 1, 2, 9 }) add("index", [&] { auto r = d[i]; return kind_of(r.type()); });
    for (const char* n : { "m0", "m1", "d0", "u0", "u1", "u2", "discriminator", "" }) add(n, [&] { auto r = d[n]; return kind_of(r.type()); });
    add("iteration", [&] { std::string s; auto r = d.cref(); for (ReadableDynamicDataRef e : r) s += kind_of(e.type()) + ","; return s; });
    add("items", [&] { std::string s; auto r = d.cref(); for (ReadableDynamicDataRef::MemberPair i : r.items()) s += i.member().name() + kind_of(i.data().type()) + ","; return s; });
    add("u8", [&] { return std::to_string(d.value<uint8_t>()); });
    add("i32", [&] { return std::to_string(d.value<int32_t>()); });
    add("str", [&] { return d.value<std::string>(); });
    add("u16str", [&] { return std::to_string(d.value<std::u16string>().size()); });
}
// operations on fresh data holding v, with operands of the plain type p or of the aliased one a: the outcome and the value they leave
static void working(Log& l, const T& t, const Val& v, const T& operand, mc::Run& run)
{
    auto op = [&](const std::string& what, auto f)
    {
        D d = make(t, v); std::string r = outcome([&] { f(*d); return std::string("done"); });
        l.push_back(what + ": " + r + ", leaving " + show(t, norm_labels(t, read(*d, t)))); run.transition();
    };
    const T& o = rget(operand); auto vs = samples(operand, 3);
    for (auto& x : vs)
    {
        D e = make(operand, x, 1); std::string s = show(operand, x);
        op("= " + s, [&](DynamicData& d) { d = *e; }); op("ref = " + s, [&](DynamicData& d) { d.ref() = e->ref(); });
        op("== " + s, [&](DynamicData& d) { bool a = d == *e, b = d != *e, c = *e == d; if (a == b || a != c) throw std::runtime_error(""); if (a != (v == x)) throw std::logic_error(cat("== gives ", a)); });
        op("copy of " + s, [&](DynamicData& d) { DynamicData c(*e, t->rt()); d = c; }); op("and back " + s, [&](DynamicData& d) { DynamicData c(d, operand->rt()); DynamicData f(*e); f = c; d = f; });
        if (is_num(o->k)) { op("+ ", [&](DynamicData& d) { if (!is_enum(o->k)) { if (x.n > 1000 || v.n > 1000 || v.n < -1000 || x.n < -1000) return; d = d + *e; } }); op("< ", [&](DynamicData& d) { bool b = d < *e; if (b != (v.n < x.n)) throw std::logic_error(cat("< gives ", b, " for ", double(v.n), " and ", double(x.n))); }); }
    }
    if (o->k == SEQ || o->k == ARR)
    {
        for (auto& x : samples(o->a, 3)) { D e = make(o->a, x); op("push " + show(o->a, x), [&](DynamicData& d) { d.push(*e); }); op("[0] = " + show(o->a, x), [&](DynamicData& d) { d[0] = *e; }); op("[0] ref = ", [&](DynamicData& d) { d.ref()[0] = e->ref(); }); }
        op("push u8", [&](DynamicData& d) { d.push(uint8_t(1)); }); op("push i32", [&](DynamicData& d) { d.push(int32_t(1)); }); op("push text", [&](DynamicData& d) { d.push(std::string("text")); });
    }
    if (o->k == MAP)
    {
        for (auto& k : samples(o->a, 3)) for (auto& x : samples(o->b, 2))
        {
            D key = make(o->a, k), val = make(o->b, x); std::string s = show(o->a, k);
            op("[" + s + "] = ", [&](DynamicData& d) { d[*key] = *val; }); op("at " + s, [&](DynamicData& d) { d.at(*key) = *val; }); op("has_key " + s, [&](DynamicData& d) { if (!d.has_key(*key)) throw std::runtime_error(""); });
            DynamicData p(static_cast<const xt::MapType&>(operand->k == ALIAS ? static_cast<const xt::AliasType&>(operand->rt()).rget() : operand->rt()).content_type()); p.ref()[0] = key->ref(); p.ref()[1] = val->ref();
            op("insert " + s, [&](DynamicData& d) { if (!d.insert(p)) throw std::runtime_error(""); });
        }
    }
    if (o->k == STRUCT) for (auto& mm : o->mem) for (auto& x : samples(mm.t, 3)) { D e = make(mm.t, x); op(mm.name + " = " + show(mm.t, x), [&](DynamicData& d) { d[mm.name] = *e; }); }
    if (o->k == UNION)
    {
        for (auto& mm : o->mem) for (auto& x : samples(mm.t, 2)) { D e = make(mm.t, x); op(mm.name + " = " + show(mm.t, x), [&](DynamicData& d) { d[mm.name] = *e; }); op(mm.name, [&](DynamicData& d) { auto r = d[mm.name]; (void)r; }); op("read " + mm.name, [&](DynamicData& d) { auto r = d.cref()[mm.name]; (void)r; }); }
        for (int64_t x : { 0, 1, 2, 3, 5, 9, 97, 98, 99, 77 }) op(cat("d(", x, ")"), [&](DynamicData& d) { d.d(x); });
        for (auto& x : samples(o->a, 5)) { D e = make(o->a, x); op("d(data " + show(o->a, x) + ")", [&](DynamicData& d) { d.d(*e); }); }
    }
}
static void kinds_only(Log& l, const T& t, const Val& v, mc::Run& run)
{
    auto op = [&](const std::string& what, auto f)
    {
        D d = make(t, v); std::string r = outcome([&] { f(*d); return std::string("done"); });
        l.push_back(what + ": " + r + ", leaving " + show(t, norm_labels(t, read(*d, t)))); run.transition();
    };
    op("= u8", [&](DynamicData& d) { d = uint8_t(1); }); op("= i32", [&](DynamicData& d) { d = int32_t(1); }); op("= u16", [&](DynamicData& d) { d = uint16_t(5); }); op("= u16 undeclared", [&](DynamicData& d) { d = uint16_t(4); }); op("= text", [&](DynamicData& d) { d = std::string("some text"); }); op("= u16 text", [&](DynamicData& d) { d = std::u16string(u"some text"); });
    op("resize", [&](DynamicData& d) { d.resize(2); }); op("resize 9", [&](DynamicData& d) { d.resize(9); }); op("++", [&](DynamicData& d) { ++d; }); op("--", [&](DynamicData& d) { d--; });
    op("+= i32", [&](DynamicData& d) { d += int32_t(-1); }); op("+= u8", [&](DynamicData& d) { d += uint8_t(1); }); op("^= itself", [&](DynamicData& d) { d ^= d; });
    op("copy", [&](DynamicData& d) { DynamicData c(d), e(std::move(c)); DynamicData f(t->rt()); f = e; DynamicData g(e.cref()); if (!(f == d) || !(g == d) || f.hash() != d.hash()) throw std::logic_error("a copy differs"); d = f; });
    op("member of struct", [&](DynamicData& d) { xt::StructType s("X"); s.add_member("x", t->rt()); DynamicData h(s); h["x"] = d; DynamicData w(h["x"]); if (!(w == d)) throw std::logic_error("a member differs"); });
    op("element", [&](DynamicData& d) { DynamicData h(xt::SequenceType(t->rt())); h.push(d); h.push(h[0]); if (!(h[1] == d)) throw std::logic_error("an element differs"); });
    op("value of a map", [&](DynamicData& d) { DynamicData k(xt::primitive_type<uint8_t>()), h(xt::MapType(k.type(), t->rt())); h[k] = d; if (!(h.at(k) == d)) throw std::logic_error("a value differs"); });
    op("key of a map", [&](DynamicData& d) { DynamicData h(xt::MapType(t->rt(), xt::primitive_type<uint8_t>())); h[d] = uint8_t(9); if (!h.has_key(d) || h.at(d).value<uint8_t>() != 9) throw std::logic_error("a key differs"); });
}
static void same(const Log& a, const Log& b, const char* which)
{
    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        if (i >= a.size() || i >= b.size() || a[i] != b[i]) fail(cat(which, ": with the alias  ", i < b.size() ? b[i] : "nothing", "  without it  ", i < a.size() ? a[i] : "nothing"));
}
// component types of a type, aliases apart
static std::string components(const DynamicType& t)
{
    std::string s;
    t.for_each([&](const DynamicType::TypeNode& n) { s += cat("|", n.deep(), ",", n.from_index(), ",", n.from_member() ? n.from_member()->name() : std::string("-"), ",", kind_of(n.type().kind() == xt::TypeKind::ALIAS_TYPE ? static_cast<const xt::AliasType&>(n.type()).rget() : n.type())); });
    return s;
}
static void compare(mc::Run& run, const T& p, const T& a, size_t nvals, bool full)
{
    MC_CHECK(components(p->rt()) == components(a->rt()), "components with the alias ", components(a->rt()), " without it ", components(p->rt()));
    MC_CHECK(p->rt().memory_size() == a->rt().memory_size(), "memory_size()");
    MC_CHECK(p->rt().is_compatible(a->rt()) == xt::TypeConsistency::EQUALS && a->rt().is_compatible(p->rt()) == xt::TypeConsistency::EQUALS, "the type with the alias is not EQUALS to the one without it");
    auto vs = samples(p, nvals);
    for (auto& v : vs)
    {
        run.note(cat(a->desc, " = ", show(p, v)));
        { Log x, y; D dp = make(p, v), da = make(a, v); reading(x, *dp, p); reading(y, *da, a); same(x, y, "reading"); MC_CHECK(*dp == *da && *da == *dp && !(*dp != *da), "data with and without the alias are not equal"); run.transition(40); }
        { D da = make(a, v, 1); expect(*da, a, v, "data of the aliased type"); DynamicData c(*da, p->rt()); expect(c, p, v, "converted to the type without aliases"); DynamicData b(*make(p, v), a->rt()); expect(b, a, v, "converted to the type with aliases"); }
        { Log x, y; kinds_only(x, p, v, run); kinds_only(y, a, v, run); same(x, y, "working"); }
        Log x, y, z, w;
        working(x, p, v, p, run); working(y, a, v, a, run); same(x, y, "with operands of the aliased types");
        if (full) { working(z, a, v, p, run); same(x, z, "with operands of the types without alias"); working(w, p, v, a, run); same(x, w, "on the type without alias, with operands of the aliased types"); }
        // every one-step modification
        auto ms = mutations(p, v, 1), ma = mutations(a, v, 1); MC_CHECK(ms.size() == ma.size(), "modifications");
        for (size_t i = 0; i < ms.size(); ++i) { D dp = make(p, v), da = make(a, v); ms[i].f(dp->ref()); ma[i].f(da->ref()); expect(*da, a, ms[i].v, ms[i].name); MC_CHECK(*dp == *da && dp->hash() == da->hash(), "after ", ms[i].name, " the data differ"); run.transition(); }
        run.state();
    }
    run.trace();
}
static bool usable(const T& t) { return t->desc.find('@') == std::string::npos && t->desc.find(":D{") == std::string::npos; }
SUITE(single)       // an alias of one node, of 1, 2 and 3 levels
{
    for (auto& t : universe(3)) if (usable(t))
    {
        int n; plain(t, &n);
        for (int i = 0; i < n; ++i) run.test(cat(t->desc, "/", i), [&] { T p = plain(t); for (int d = 1; d <= (mc::thorough() ? 3 : 2); ++d) compare(run, p, with(t, [&](int x) { return x == i ? d : 0; }), mc::thorough() ? 5 : 3, d == 1); });
    }
}
SUITE(all_subsets)  // aliases of every set of nodes, 1 level or 2
{
    for (auto& t : universe(2)) if (usable(t))
    {
        int n; plain(t, &n); if (n > (mc::thorough() ? 8 : 6)) n = mc::thorough() ? 8 : 6;
        run.test(t->desc, [&] { T p = plain(t); for (int s = 1; s < (1 << n); ++s) compare(run, p, with(t, [&](int x) { return x < n && (s >> x & 1) ? 1 + (x + s) % 2 : 0; }), 2, false); });
    }
}
SUITE(everything)   // aliases everywhere
{
    for (auto& t : universe(3)) if (usable(t)) run.test(t->desc, [&] { compare(run, plain(t), with(t, [](int) { return 1; }), 4, true); compare(run, plain(t), with(t, [](int x) { return x % 3; }), 3, false); });
}
// the alias itself
SUITE(chains)
{
    for (auto& t : universe(3)) run.test(t->desc, [&]
    {
        std::vector<DynamicType::Ptr> chain{ t->real };
        const DynamicType& base = t->k == ALIAS ? static_cast<const xt::AliasType&>(t->rt()).rget() : t->rt();
        MC_CHECK(base.kind() != xt::TypeKind::ALIAS_TYPE, "rget() of an alias is an alias");
        for (int d = 0; d < 5; ++d)
        {
            std::string n = "Level" + std::to_string(d);
            xt::AliasType a(*chain.back(), n), b(a), moved(std::move(b)), ptr(chain.back(), n), rv(DynamicType::Ptr(*chain.back()), n);
            for (const xt::AliasType* x : { &a, &moved, &ptr, &rv })
            {
                MC_CHECK(x->name() == n && x->kind() == xt::TypeKind::ALIAS_TYPE, "name or kind of an alias");
                MC_CHECK(x->get().kind() == chain.back()->kind() && x->get().name() == chain.back()->name(), "get() of an alias is ", x->get().name());
                MC_CHECK(x->rget().kind() == base.kind() && x->rget().name() == base.name(), "rget() of an alias is ", x->rget().name());
                MC_CHECK((*x)->name() == chain.back()->name() && (**x).name() == chain.back()->name(), "-> or * of an alias");
                DynamicData d1(*x), d2(base); MC_CHECK(d1.type().kind() == base.kind() && d1.type().name() == base.name(), "data of an alias has the type ", d1.type().name()); MC_CHECK(d1 == d2 && d2 == d1, "default data of an alias"); expect(d1, t, defaults(t), "default data of an alias");
                Val v = samples(t, 4).back(); D dv = make(t, v); d1 = *dv; expect(d1, t, v, "data of an alias"); d2 = d1; expect(d2, t, v, "data assigned from data of an alias"); MC_CHECK(d1 == d2 && d1.hash() == d2.hash(), "equality");
                run.transition(4);
            }
            switch (rget(t)->k)
            {
                case STRUCT: if (d == 0 && t->k != ALIAS) { const xt::StructType& s = a; MC_CHECK(s.members().size() == t->mem.size(), "conversion to the struct"); MC_CHECK(mc::refused_rt([&] { const xt::UnionType& u = a; (void)u; }), "conversion to another kind"); } break;
                case SEQ: if (d == 0 && t->k != ALIAS) { const xt::SequenceType& s = a; MC_CHECK(s.bounds() == t->bound, "conversion to the sequence"); MC_CHECK(mc::refused_rt([&] { const xt::MapType& u = a; (void)u; }), "conversion to another kind"); } break;
                default: break;
            }
            chain.push_back(DynamicType::Ptr(a)); run.state();
        }
        run.trace();
    });
}
// histories on unions, sequences and maps with aliases in every position, in lockstep with the plain type
SUITE(histories)
{
    T str = str_t(STR), i32 = prim_t(I32), u8 = prim_t(U8);
    std::vector<T> ts{ union_t(i32, { {{1, 2}, str}, {{3}, u8} }), union_t(enum_t(E8), { {{1}, str}, {{5, 9}, seq_t(str)}, {{}, i32, true} }), union_t(prim_t(BOOL), { {{1}, str}, {{0}, i32} }), union_t(prim_t(C8), { {{'a'}, str, true}, {{'b', 'c'}, u8} }),
        seq_t(str, 3), seq_t(struct_t({ str, i32 })), map_t(str, seq_t(i32), 2), map_t(struct_t({ u8, u8 }), str), struct_t({ seq_t(str), map_t(u8, str), i32 }), arr_t(union_t(u8, { {{1}, str}, {{2}, i32} }), 2) };
    for (auto& t : ts) run.test(t->desc, [&]
    {
        T p = plain(t), a = with(t, [](int) { return 1; }); int depth = mc::thorough() ? 4 : 3; size_t per = 1;
        std::function<void(const Val&, std::vector<int>&)> rec = [&](const Val& v, std::vector<int>& path)
        {
            auto cur = mutations(p, v, per);
            for (size_t i = 0; i < cur.size(); ++i)
            {
                path.push_back(int(i));
                D dp = make(p, defaults(p)), da = make(a, defaults(a)); Val x = defaults(p);
                for (int j : path) { auto mp = mutations(p, x, per), ma = mutations(a, x, per); run.note(mp[j].name); mp[j].f(dp->ref()); ma[j].f(da->ref()); x = mp[j].v; run.transition(); }
                expect(*da, a, x, "aliased data"); MC_CHECK(*dp == *da && *da == *dp && dp->hash() == da->hash(), "data with and without aliases differ"); DynamicData c(*da), q(*dp); q = c; expect(q, p, x, "assigned"); run.trace();
                if (int(path.size()) < depth) rec(x, path);
                path.pop_back();
            }
        };
        std::vector<int> path; rec(defaults(p), path); run.state();
    });
}
MC_MAIN
