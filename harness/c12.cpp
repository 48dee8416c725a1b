// C12: traversal visits exactly the nodes of a value, once, in order
#include "nav.hpp"
using namespace m;
using xt::AggregationType; using xt::CollectionType; using xt::MapType; using xt::PairType; using xt::UnionType;
using RNode = ReadableDynamicDataRef::ReadableNode; using WNode = WritableDynamicDataRef::WritableNode;

// a node that for_each must visit; t is null for a pair
struct N { int parent; size_t deep; T t; Val v; long index; int member; size_t id; std::string label; Path path; bool key; std::string type; };

// derives the nodes of a value from the model, and their places from access by member and index
static void nodes_of(std::vector<N>& r, const ReadableDynamicDataRef& d, const T& t0, const Val& v, int parent, long index, int member, const std::string& label, const Path& path, bool key)
{
    const T& t = rget(t0); int me = int(r.size());
    r.push_back(N{ parent, parent < 0 ? 0 : r[parent].deep + 1, t, v, index, member, d.instance_id(), label, path, key, t->rt().name() });
    auto step = [&](int i) { Path p = path; p.push_back(i); return p; };
    switch (t->k)
    {
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) { auto c = d[i]; nodes_of(r, c, t->mem[i].t, v.k[i], me, long(i), int(i), t->mem[i].name, step(int(i)), key); } break;
        case ARR: case SEQ: for (size_t i = 0; i < v.k.size(); ++i) { auto c = d[i]; nodes_of(r, c, t->a, v.k[i], me, long(i), -1, std::to_string(i), step(int(i)), key); } break;
        case MAP:
        {
            size_t i = 0;
            for (ReadableDynamicDataRef p : d)
            {
                auto first = p[0], second = p[1]; Val k = read(first, t->a); size_t at = 0; while (at < v.k.size() && v.k[at].k[0] != k) ++at;
                MC_CHECK(at < v.k.size(), "iteration gives an unknown key");
                auto kd = make(t->a, k); MC_CHECK(d.at(*kd).instance_id() == second.instance_id(), "at() and iteration differ");
                int pn = int(r.size()); r.push_back(N{ me, r[me].deep + 1, nullptr, Val{}, long(i), -1, p.instance_id(), std::to_string(i), path, true, p.type().name() });
                nodes_of(r, first, t->a, k, pn, 0, -2, "", path, true);
                nodes_of(r, second, t->b, v.k[at].k[1], pn, 1, -2, "", step(int(at)), key);
                ++i;
            }
            MC_CHECK(i == v.k.size(), "iteration of a map visits ", i, " pairs of ", v.k.size());
            break;
        }
        case UNION: if (v.sel >= 0) { auto c = d[t->mem[v.sel].name]; nodes_of(r, c, t->mem[v.sel].t, v.k[0], me, -1, v.sel + 1, t->mem[v.sel].name, step(0), key); } break;
        default: break;
    }
}
static std::vector<N> nodes_of(const ReadableDynamicDataRef& d, const T& t, const Val& v) { std::vector<N> r; nodes_of(r, d, t, v, -1, 0, -3, "", {}, false); return r; }

static void check_node(const RNode& n, const std::vector<N>& e, size_t i, bool deep_read = true)
{
    MC_CHECK(i < e.size(), "node ", i, " is visited, there are ", e.size());
    const N& x = e[i];
    MC_CHECK(n.deep() == x.deep, "deep() of node ", i, " is ", n.deep(), " expected ", x.deep);
    MC_CHECK(n.data().instance_id() == x.id, "node ", i, " (", x.type, ") is not the data reached by member and index");
    MC_CHECK(n.data().type().name() == x.type && n.type().name() == x.type && n.type().kind() == n.data().type().kind(), "node ", i, " has the type ", n.type().name(), " expected ", x.type);
    if (x.t && deep_read) { Val g = read(n.data(), x.t); MC_CHECK(g == x.v, "node ", i, " holds ", show(x.t, g), " expected ", show(x.t, x.v)); }
    MC_CHECK(n.has_parent() == (x.parent >= 0), "has_parent() of node ", i);
    if (x.parent < 0) { MC_CHECK(mc::refused_rt([&] { (void)n.parent(); }), "parent() of the first node is not refused"); return; }
    if (x.index >= 0) MC_CHECK(n.from_index() == size_t(x.index), "from_index() of node ", i, " is ", n.from_index(), " expected ", x.index);
    if (x.member == -1) MC_CHECK(n.from_member() == nullptr, "from_member() of node ", i, " is not null in a ", e[x.parent].type);
    if (x.member >= 0)
    {
        RNode up = n.parent(); auto& a = static_cast<const AggregationType&>(up.type());
        MC_CHECK(n.from_member() && n.from_member()->name() == x.label, "from_member() of node ", i, " is ", n.from_member() ? n.from_member()->name() : "null", " expected ", x.label);
        MC_CHECK(n.from_member() == &a.member(size_t(x.member)), "from_member() of node ", i, " is not the member of its parent's type");
    }
    int p = x.parent; RNode up = n.parent();
    std::function<void(const RNode&, int)> climb = [&](const RNode& u, int at)
    {
        MC_CHECK(u.data().instance_id() == e[at].id && u.deep() == e[at].deep && u.type().name() == e[at].type && u.has_parent() == (e[at].parent >= 0), "ancestor ", at, " of node ", i);
        if (e[at].index >= 0 && e[at].parent >= 0) MC_CHECK(u.from_index() == size_t(e[at].index), "from_index() of ancestor ", at, " of node ", i);
        if (e[at].parent >= 0) climb(u.parent(), e[at].parent);
    };
    climb(up, p);
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::string c; for (char x : s) if (x == '\n') { r.push_back(c); c.clear(); } else c += x; if (!c.empty()) r.push_back(c); return r; }

// every read-only traversal of d, which holds v
static void traverse(mc::Run& run, const DynamicData& d, const T& t, const Val& v)
{
    ReadableDynamicDataRef r = d.cref(); auto e = nodes_of(r, t, v); size_t n = 0;
    bool all = r.for_each([&](const RNode& x) { check_node(x, e, n); ++n; }); run.transition(n);
    MC_CHECK(all, "for_each() returns false without being stopped"); MC_CHECK(n == e.size(), "for_each() visits ", n, " nodes of ", e.size());
    n = 0; all = d.for_each([&](const RNode& x) { check_node(x, e, n, false); ++n; }); MC_CHECK(all && n == e.size(), "for_each() of const data");
    auto ls = lines(d.to_string());
    MC_CHECK(ls.size() == e.size(), "to_string() has ", ls.size(), " lines for ", e.size(), " nodes");
    for (size_t i = 0; i < ls.size(); ++i)
    {
        std::string want(e[i].deep * 4, ' '); if (e[i].parent >= 0 && e[e[i].parent].t) want += "[" + e[i].label + "]";
        MC_CHECK(ls[i].compare(0, want.size(), want) == 0, "line ", i, " of to_string() is '", ls[i], "' expected '", want, "...'");
        MC_CHECK(ls[i].find(e[i].type) != std::string::npos, "line ", i, " of to_string() is '", ls[i], "' without the name of the type ", e[i].type);
        if (!e[i].t || is_enum(e[i].t->k) || e[i].t->k == C16 || e[i].t->k == WC) continue;
        std::string text; if (e[i].t->k == STR) for (char32_t c : e[i].v.s) text += char(c);
        if (is_num(e[i].t->k)) prim(e[i].t->k, [&](auto tag) { using X = typename decltype(tag)::type; std::ostringstream os; os << X(e[i].v.n); text = os.str(); return 0; });
        MC_CHECK(ls[i].size() >= text.size() && ls[i].compare(ls[i].size() - text.size(), text.size(), text) == 0, "line ", i, " of to_string() is '", ls[i], "' without the value '", text, "'");
    }
    // iterators and items of every node
    n = 0;
    r.for_each([&](const RNode& x)
    {
        const N& at = e[n]; size_t me = n++; ReadableDynamicDataRef c = x.data(); std::vector<size_t> kids;
        for (size_t i = me + 1; i < e.size(); ++i) if (e[i].parent == int(me)) kids.push_back(e[i].id);
        if (!at.t) { auto a = c[0], b = c[1]; MC_CHECK(kids.size() == 2 && a.instance_id() == kids[0] && b.instance_id() == kids[1], "the parts of a pair"); return; }
        if (at.t->k == SEQ || at.t->k == ARR || at.t->k == MAP)
        {
            std::vector<size_t> got, got2; for (ReadableDynamicDataRef y : c) got.push_back(y.instance_id());
            MC_CHECK(got == kids, "iteration of node ", me, " gives other elements than for_each()");
            MC_CHECK((c.begin() == c.end()) == kids.empty() && (c.begin() != c.end()) == !kids.empty(), "begin() and end() of node ", me);
            auto it = c.begin(); while (it != c.end()) { auto old = it++; got2.push_back((*old).instance_id()); auto cp = old; ++cp; MC_CHECK(cp == it && !(cp == old) && cp != old, "iterators of node ", me); }
            MC_CHECK(got2 == kids, "iteration by it++ of node ", me);
        }
        else if (!is_str(at.t->k)) MC_CHECK(mc::refused_rt([&] { (void)c.begin(); }) && mc::refused_rt([&] { (void)c.end(); }), "begin() or end() of a non-collection is not refused");
        if (at.t->k == STRUCT || at.t->k == UNION)
        {
            auto& a = static_cast<const AggregationType&>(c.type()); std::vector<size_t> got; std::vector<std::string> names, want; size_t i = 0;
            for (ReadableDynamicDataRef::MemberPair p : c.items())
            {
                MC_CHECK(i < a.members().size() && &p.member() == &a.member(i) && p.kind() == a.member(i).type().kind(), "member() or kind() of an item of node ", me);
                names.push_back(p.member().name()); if (at.t->k == STRUCT || (at.v.sel >= 0 && int(i) == at.v.sel + 1)) got.push_back(p.data().instance_id()); ++i;
            }
            if (at.t->k == UNION) want.push_back("discriminator");
            for (auto& y : at.t->mem) want.push_back(y.name);
            MC_CHECK(names == want, "items() of node ", me, " does not follow the members"); MC_CHECK(got == kids, "items() of node ", me, " gives other data than for_each()");
        }
        else MC_CHECK(mc::refused_rt([&] { (void)c.items(); }), "items() of a non-aggregation is not refused");
    });
    run.trace();
}
// stopping at every node
static void stops(mc::Run& run, DynamicData& d, const T& t, const Val& v)
{
    auto e = nodes_of(d.cref(), t, v); WritableDynamicDataRef w = d.ref(); ReadableDynamicDataRef r = d.cref();
    for (size_t at = 0; at < e.size(); ++at) for (bool b : { false, true })
    {
        size_t n = 0, k = 0;
        MC_CHECK(r.for_each([&](const RNode& x) { check_node(x, e, n, false); if (n++ == at) throw b; }) == b && n == at + 1, "a bool thrown at node ", at, " does not stop for_each(), or is not returned");
        MC_CHECK(w.for_each([&](WNode& x) { MC_CHECK(x.data().instance_id() == e[k].id, "writable node ", k); if (k++ == at) throw b; }) == b && k == at + 1, "a bool thrown at writable node ", at, " does not stop for_each(), or is not returned");
        if (b) { n = 0; bool out = false; try { r.for_each([&](const RNode&) { if (n++ == at) throw int(at); }); } catch (int i) { out = i == int(at); } MC_CHECK(out && n == at + 1, "another exception thrown at node ", at, " does not leave for_each()"); }
        run.transition(2);
    }
    expect(d, t, v, "after traversals");
}
// writing through nodes, iterators and items
static const Val* other(const T& t, const Val& v, std::vector<Val>& keep) { keep = samples(t, 4); for (size_t i = keep.size(); i-- > 0;) if (keep[i] != v) return &keep[i]; return nullptr; }
static void writes(mc::Run& run, const T& t, const Val& v)
{
    std::vector<Val> keep; size_t count; { auto d = make(t, v); count = nodes_of(d->cref(), t, v).size(); }
    for (size_t at = 0; at < count; ++at)
    {
        // how: 0 a node, stopping there, 1 through the iterator or the items of its parent node
        for (int how = 0; how < 2; ++how)
        {
            auto d = make(t, v); auto e = nodes_of(d->cref(), t, v); const N& x = e[at];
            if (!x.t || x.key) break;
            const Val* o = other(x.t, x.v, keep); if (!o) break;
            Val want = v; sub(t, want, x.path) = *o; auto src = make(x.t, *o, int(at));
            size_t n = 0; WritableDynamicDataRef w = d->ref();
            auto put = [&](WritableDynamicDataRef to) { if (is_num(x.t->k) && at % 2) write_leaf(to, x.t, *o); else to = src->ref(); };
            if (how == 0) { bool b = w.for_each([&](WNode& y) { if (n++ == at) { put(y.data()); throw true; } }); MC_CHECK(b, "stopped"); }
            else
            {
                if (x.parent < 0 || !e[x.parent].t) break;
                K pk = e[x.parent].t->k; int pos = int(x.index); bool done = false;
                w.for_each([&](WNode& y)
                {
                    if (int(n++) != x.parent) return;
                    WritableDynamicDataRef p = y.data(); int i = 0;
                    if (pk == STRUCT) { for (WritableDynamicDataRef::MemberPair it : p.items()) if (i++ == pos) { put(it.data()); done = true; } }
                    else if (pk == UNION) { for (WritableDynamicDataRef::MemberPair it : p.items()) if (it.member().name() == x.label) { put(it.data()); done = true; } }
                    else for (WritableDynamicDataRef el : p) if (i++ == pos) { put(el); done = true; }
                    throw true;
                });
                MC_CHECK(done, "iterators and items of node ", x.parent, " miss node ", at);
            }
            expect(*d, t, want, cat("after a write to node ", at, how ? " by iteration" : "")); run.transition();
        }
    }
    // all the leaves in one traversal
    auto d = make(t, v); auto e = nodes_of(d->cref(), t, v); Val want = v; size_t n = 0; WritableDynamicDataRef w = d->ref();
    bool b = w.for_each([&](WNode& y)
    {
        const N& x = e[n++]; check_node(y, e, n - 1, false);
        if (!x.t || x.key || !(is_num(x.t->k) || is_str(x.t->k))) return;
        const Val* o = other(x.t, x.v, keep); if (!o) return;
        write_leaf(y.data(), x.t, *o); sub(t, want, x.path) = *o;
    });
    MC_CHECK(b && n == e.size(), "writing in the leaves disturbs for_each()"); expect(*d, t, want, "after writes to every leaf"); traverse(run, *d, t, want);
}

static std::vector<T> types()
{
    auto r = universe(3); T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    // three constructors
    for (auto& a : { map_t(u8, map_t(str, seq_t(i32))), seq_t(map_t(struct_t({u8, str}), union_t(i32, { {{1}, seq_t(str)}, {{2}, u8, true} }))), struct_t({map_t(seq_t(u8), struct_t({arr_t(str, 2), u8})), arr_t(map_t(u8, u8), 2)}),
                     arr_t(arr_t(arr_t(u8, 2), 3), 2), alias_t(struct_t({alias_t(map_t(alias_t(str), alias_t(seq_t(alias_t(u8)))))})), union_t(u8, { {{0}, map_t(str, seq_t(u8))}, {{1, 2}, arr_t(seq_t(str), 2)}, {{9}, struct_t({str, seq_t(str)}), true} }),
                     derived_t(struct_t({str, u8}), {seq_t(str), map_t(u8, str)}) }) r.push_back(a);
    return r;
}
SUITE(values)
{
    for (auto& t : types()) run.test(t->desc, [&]
    {
        for (auto& v : samples(t, mc::thorough() ? 12 : 6)) for (int style = 0; style < 2; ++style)
        {
            run.note(show(t, v)); auto d = make(t, v, style); traverse(run, *d, t, v); if (!style) { stops(run, *d, t, v); writes(run, t, v); } run.state();
        }
        DynamicData d(t->rt()); traverse(run, d, t, defaults(t)); DynamicData c(d); traverse(run, c, t, defaults(t));
    });
}
// traversals after every chain of modifications
SUITE(after)
{
    for (auto& t : types()) run.test(t->desc, [&]
    {
        size_t left = mc::thorough() ? 12000 : 1500;
        for (auto& v0 : samples(t, 3))
        {
            std::function<void(std::vector<Mut>&, const Val&, int)> rec = [&](std::vector<Mut>& chain, const Val& v, int depth)
            {
                if (!left) return; --left;
                auto d = make(t, v0); for (auto& x : chain) x.f(d->ref());
                std::string s; for (auto& x : chain) s += x.name + ";"; run.note(show(t, v0) + " " + s);
                traverse(run, *d, t, v); run.state();
                if (!depth) return;
                for (auto& x : mutations(t, v)) { chain.push_back(x); rec(chain, x.v, depth - 1); chain.pop_back(); }
            };
            std::vector<Mut> chain; rec(chain, v0, 3);
        }
    });
}

// ---- traversal of types ------------------------------------------------------------------------------
struct TN { int parent; size_t deep; std::string type; long index; int member; std::string label; xt::TypeKind kind; };
static void types_of(std::vector<TN>& r, const T& t0, int parent, long index, int member, const std::string& label)
{
    const T& t = rget(t0); int me = int(r.size());
    r.push_back(TN{ parent, parent < 0 ? 0 : r[parent].deep + 1, t0->rt().name(), index, member, label, t0->rt().kind() });
    switch (t->k)
    {
        case STRUCT: for (size_t i = 0; i < t->mem.size(); ++i) types_of(r, t->mem[i].t, me, long(i), int(i), t->mem[i].name); break;
        case UNION: types_of(r, t->a, me, 0, 0, "discriminator"); for (size_t i = 0; i < t->mem.size(); ++i) types_of(r, t->mem[i].t, me, long(i + 1), int(i + 1), t->mem[i].name); break;
        case ARR: case SEQ: types_of(r, t->a, me, 0, -1, ""); break;
        case MAP:
        {
            auto& pt = static_cast<const MapType&>(t->rt()).content_type(); int pn = int(r.size());
            r.push_back(TN{ me, r[me].deep + 1, pt.name(), 0, -1, "", pt.kind() });
            types_of(r, t->a, pn, 0, -2, ""); types_of(r, t->b, pn, 1, -2, ""); break;
        }
        default: break;
    }
}
SUITE(of_types)
{
    auto ts = types(); std::vector<T> more; for (auto& t : ts) { more.push_back(t); if (t->k != ALIAS) more.push_back(alias_t(t)); more.push_back(alias_t(alias_t(t), "AA")); }
    for (auto& t : more) run.test(t->desc, [&]
    {
        std::vector<TN> e; types_of(e, t, -1, 0, -3, ""); size_t n = 0;
        // the aliases of arrays of several dimensions are named by the library, so kinds and names are checked against the model's own types
        auto visit = [&](const DynamicType::TypeNode& x)
        {
            MC_CHECK(n < e.size(), "more types than ", e.size()); const TN& w = e[n];
            MC_CHECK(x.deep() == w.deep && x.type().name() == w.type && x.type().kind() == w.kind, "type ", n, " is ", x.type().name(), " at ", x.deep(), " expected ", w.type, " at ", w.deep);
            MC_CHECK(x.has_parent() == (w.parent >= 0), "has_parent() of type ", n);
            if (w.parent >= 0)
            {
                MC_CHECK(x.from_index() == size_t(w.index), "from_index() of type ", n, " is ", x.from_index(), " expected ", w.index);
                if (w.member == -1) MC_CHECK(!x.from_member(), "from_member() of type ", n, " is not null");
                if (w.member >= 0) MC_CHECK(x.from_member() && x.from_member()->name() == w.label, "from_member() of type ", n, " is not ", w.label);
                const DynamicType::TypeNode* u = &x.parent(); int at = w.parent;
                while (true) { MC_CHECK(u->type().name() == e[at].type && u->deep() == e[at].deep && u->has_parent() == (e[at].parent >= 0), "ancestor ", at, " of type ", n); if (e[at].parent < 0) break; at = e[at].parent; u = &u->parent(); }
            }
            ++n;
        };
        MC_CHECK(t->rt().for_each(visit) && n == e.size(), "for_each() of a type visits ", n, " types of ", e.size());
        n = 0; DynamicType::Ptr copy(t->rt()); MC_CHECK(copy->for_each(visit) && n == e.size(), "for_each() of a copied type"); run.transition(n);
        for (size_t at = 0; at < e.size(); ++at) for (bool b : { false, true })
        {
            size_t k = 0; MC_CHECK(t->rt().for_each([&](const DynamicType::TypeNode&) { if (k++ == at) throw b; }) == b && k == at + 1, "a bool thrown at type ", at, " does not stop for_each(), or is not returned"); run.transition();
        }
        run.state(); run.trace();
    });
}
// pairs alone, long collections, deep values
SUITE(extents)
{
    T u8 = prim_t(U8), str = str_t(STR);
    for (size_t n : { 1u, 7u, 8u, 9u, 16u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 1000u }) run.test(cat("long ", n), [&, n]
    {
        T s = seq_t(u8), a = arr_t(str, uint32_t(n)), m = map_t(prim_t(U32), u8); Val sv, av, mv;
        for (size_t i = 0; i < n; ++i) { sv.k.push_back(num(real_t(i * 7 % 100 + 33))); av.k.push_back(text(std::to_string(i))); Val p; p.k = { num(real_t(i * 13)), num(real_t(i % 90 + 33)) }; mv.k.push_back(p); }
        sort_map(mv);
        for (auto& c : std::vector<std::pair<T, Val>>{ {s, sv}, {a, av}, {m, mv} }) for (int style = 0; style < 2; ++style) { auto d = make(c.first, c.second, style); traverse(run, *d, c.first, c.second); run.state(); }
    });
    for (int n : { 3, 10, 40, 130, 260 }) for (int c = 0; c < 5; ++c) run.test(cat("deep ", n, "/", c), [&, n, c]
    {
        T t = u8; Val v = num(65);
        for (int i = 0; i < n; ++i)
        {
            Val o; if (c == 3) { t = union_t(prim_t(I32), { {{1}, str}, {{2}, t} }); o = active(*t, 1, 2, v); }
            else if (c == 4) { t = map_t(u8, t); Val p; p.k = { num(i % 100 + 40), v }; o.k = { p }; }
            else if (c == 2) { t = struct_t({str, t}, "m", cat("S", i)); o.k = { text("x"), v }; }
            else if (c == 1) { t = arr_t(t, 1); o.k = { v }; }
            else { t = seq_t(t); o.k = { v }; }
            v = o;
        }
        auto d = make(t, v); traverse(run, *d, t, v); if (n < 100) stops(run, *d, t, v); run.state();
    });
    // data of a pair type
    for (auto& a : { u8, str, seq_t(str), struct_t({u8, str}) }) for (auto& b : { str, arr_t(str, 2), map_t(u8, str) }) run.test(cat("pair ", a->desc, " ", b->desc), [&]
    {
        for (auto& x : samples(a, 4)) for (auto& y : samples(b, 4))
        {
            PairType pt(a->rt(), b->rt()); DynamicData d(pt); fill(d[0], a, x); fill(d[1], b, y);
            ReadableDynamicDataRef r = d.cref(); std::vector<N> e; e.push_back(N{ -1, 0, nullptr, Val{}, 0, -3, d.instance_id(), "", {}, true, d.type().name() });
            auto f = r[0], s = r[1]; nodes_of(e, f, a, x, 0, 0, -2, "", {}, true); nodes_of(e, s, b, y, 0, 1, -2, "", {}, false);
            size_t n = 0; MC_CHECK(r.for_each([&](const RNode& q) { check_node(q, e, n); ++n; }) && n == e.size(), "for_each() of a pair visits ", n, " of ", e.size());
            MC_CHECK(lines(d.to_string()).size() == e.size(), "to_string() of a pair"); run.state(); run.transition(n);
        }
    });
}
MC_MAIN
