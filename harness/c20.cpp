// C20: running out of memory. Every allocation an operation makes is made to fail, one execution per allocation:
// the operation then either did nothing or all it had to do, its operands are untouched, nothing is leaked or
// released twice (ASan), and the same operation succeeds afterwards.
#include "nav.hpp"
#include "compat.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;
using mc::Run;

// text long enough to live outside the string object
static Val grow(const T& t0, Val v)
{
    const T& t = rget(t0);
    if (is_str(t->k)) { Val w = text("a text long enough to be allocated, whatever the library"); for (auto& c : v.s) w.s += c; return cut(t, w); }
    switch (t->k)
    {
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) v.k[i] = grow(t->mem[i].t, v.k[i]); break;
        case ARR: case SEQ: for (auto& e : v.k) e = grow(t->a, e); break;
        case MAP: for (auto& p : v.k) { p.k[0] = grow(t->a, p.k[0]); p.k[1] = grow(t->b, p.k[1]); } sort_map(v); break;
        case UNION: if (v.sel >= 0) v.k[0] = grow(t->mem[v.sel].t, v.k[0]); break;
        default: break;
    }
    return v;
}
static bool map_ok(const T& t0, const Val& v)   // no two equal keys after grow() on bounded keys
{
    const T& t = rget(t0);
    if (t->k == MAP) for (size_t i = 1; i < v.k.size(); ++i) if (v.k[i].k[0] == v.k[i - 1].k[0]) return false;
    switch (t->k)
    {
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) if (!map_ok(t->mem[i].t, v.k[i])) return false; break;
        case ARR: case SEQ: for (auto& e : v.k) if (!map_ok(t->a, e)) return false; break;
        case MAP: for (auto& p : v.k) if (!map_ok(t->a, p.k[0]) || !map_ok(t->b, p.k[1])) return false; break;
        case UNION: return v.sel < 0 || map_ok(t->mem[v.sel].t, v.k[0]);
        default: break;
    }
    return true;
}

struct Armed { Armed(long k) { mc::fail_after() = k; } ~Armed() { mc::fail_after() = -1; } };

// runs f with allocation k failing. 0: f finished without reaching it, 1: refused, 2: finished although it failed
template<class F> static int attempt(long k, F f)
{
    int r = 0;
    {
        Armed a(k);
        try { f(); r = mc::fail_after() >= 0 ? 0 : 2; }
        catch (const std::bad_alloc&) { r = 1; }
    }
    return r;
}

// one world per fault: what setup builds, what op does to it, what may be found afterwards
struct World { virtual ~World() = default; };
template<class W> static void faults(Run& run, const std::string& what, std::function<std::unique_ptr<W>()> setup, std::function<void(W&)> op,
        std::function<void(W&, int)> check /* 0: after success, 1: after a refusal */, bool redo = true)
{
    { auto w = setup(); op(*w); check(*w, 0); }     // without faults; also fills every cache of the process
    for (long k = 0; k < 4000; ++k)
    {
        run.note(cat(what, ", allocation ", k, " fails"));
        long before = mc::live_allocs().load();
        int r;
        {
            auto w = setup();
            r = attempt(k, [&] { op(*w); });
            run.transition();
            check(*w, r == 1);
            if (r == 1 && redo) { op(*w); check(*w, 0); }
        }
        long left = mc::live_allocs().load() - before;
        MC_CHECK(left == 0, left, " allocations left behind");
        run.state();
        if (r == 0) { run.note(""); run.trace(); return; }
    }
    fail("more than 4000 allocations in one operation");
}

struct Data : World { D d, src; };

// constructions: nothing exists afterwards if they fail
static void constructions(Run& run, const T& t, const Val& v)
{
    std::shared_ptr<DynamicData> src(make(t, v).release());
    struct Made : World { D d; };
    auto ctor = [&](const std::string& what, std::function<DynamicData*()> f, const Val& expected)
    {
        faults<Made>(run, what, [] { return std::make_unique<Made>(); }, [f](Made& w) { w.d.reset(); w.d.reset(f()); },
            [&, src](Made& w, int refused)
            {
                MC_CHECK(!!w.d == !refused, "an object exists after a refused construction, or none after a successful one");
                if (w.d) expect(w.d->cref(), t, expected, "constructed");
                expect(src->cref(), t, v, "source");
            });
    };
    ctor("construction", [&] { return new DynamicData(t->rt()); }, defaults(t));
    ctor("copy", [src] { return new DynamicData(*src); }, v);
    ctor("copy of a reference", [src] { return new DynamicData(src->cref()); }, v);
    ctor("copy of a writable reference", [src] { return new DynamicData(src->ref()); }, v);
    ctor("conversion", [&, src] { return new DynamicData(*src, t->rt()); }, v);
    ctor("clone of a moved one", [src] { DynamicData d(*src); return new DynamicData(std::move(d)); }, v);
}

// operations on existing data
static void operations(Run& run, const T& t, const Val& from, const Val& to)
{
    auto two = [&]() { auto w = std::make_unique<Data>(); w->d = make(t, from); w->src = make(t, to); return w; };
    auto check = [&](const Val& after) { return [&, after](Data& w, int refused)
        {
            Val g = read(w.d->cref(), t);
            MC_CHECK(g == after || (refused && g == from), "the target holds ", show(t, g), " instead of ", show(t, after), refused ? cat(" or ", show(t, from)) : std::string());
            expect(w.src->cref(), t, to, "the other operand");
        }; };
    faults<Data>(run, "assignment", two, [](Data& w) { *w.d = *w.src; }, check(to));
    faults<Data>(run, "assignment through references", two, [](Data& w) { w.d->ref() = w.src->ref(); }, check(to));
    auto constant = check(from);
    faults<Data>(run, "reading", two, [&](Data& w)
        {
            (void)(*w.d == *w.src); (void)(*w.d == *w.d); (void)w.d->hash(); (void)w.d->to_string();
            size_t n = 0; w.d->for_each([&](const ReadableDynamicDataRef::ReadableNode& node) { n += node.deep(); });
            (void)w.d->type().is_compatible(w.src->type());
            n += w.d->type().for_each([&](const DynamicType::TypeNode& node) { n += node.deep(); });
            const ReadableDynamicDataRef r = w.d->cref();
            switch (rget(t)->k)
            {
                case STRUCT: case UNION: for (ReadableDynamicDataRef::MemberPair item : r.items()) { n += item.member().name().size() + (rget(t)->k == STRUCT ? item.data().hash() : 0); if (rget(t)->k == STRUCT) n += r[item.member().name()].hash(); } break;
                case SEQ: case ARR: for (ReadableDynamicDataRef e : r) n += e.hash(); break;
                case MAP: for (ReadableDynamicDataRef p : r) { n += p.hash(); n += r.at(p[0]).hash(); n += w.d->has_key(p[0]); } break;
                case STR: n += r.cast<std::string>().size() + r.value<std::string>().size(); break;
                case WSTR: { std::wstring x = r; n += x.size(); break; }
                case S16: { std::u16string x = r; n += x.size(); break; }
                default: n += size_t(r.cast<bool>());
            }
            (void)n;
        }, constant);
    faults<Data>(run, "move", two, [](Data& w) { if (w.src) w.d = std::make_unique<DynamicData>(std::move(*w.src)); w.src = nullptr; },
        [&](Data& w, int refused)
        {
            expect(w.d->cref(), t, refused ? from : to, "the target of a move");
            if (refused) { MC_CHECK(!!w.src, "no source"); expect(w.src->cref(), t, to, "the source of a refused move"); }
        });
}

static void changes(Run& run, const T& t, const Val& from, size_t per_node)
{
    for (auto& x : mutations(t, from, per_node))
    {
        Val to = x.v;
        // a step of several library calls (a new key, an activated member) may stop between two of them; what is
        // found there is judged by the invariants that read() checks and by the step working afterwards
        bool several = x.name.find("new key") != std::string::npos || x.name.find("activate") != std::string::npos || x.name.find("[k") != std::string::npos;
        faults<Data>(run, x.name, [&] { auto w = std::make_unique<Data>(); w->d = make(t, from); return w; }, [&](Data& w) { x.f(w.d->ref()); },
            [&](Data& w, int refused)
            {
                Val g = read(w.d->cref(), t);
                if (refused && several) return;
                MC_CHECK(norm_labels(t, g) == norm_labels(t, to) || (refused && g == from), "the target holds ", show(t, g), " instead of ", show(t, to), refused ? cat(" or ", show(t, from)) : std::string());
            }, !several);
    }
}

static std::vector<Val> values(const T& t, size_t n)
{
    std::vector<Val> r;
    for (auto& v : samples(t, 4)) { add_uniq(r, v); Val g = grow(t, v); if (map_ok(t, g)) add_uniq(r, g); }
    // the first, and the richest ones
    if (r.size() > n) { std::vector<Val> s{ r[0] }; for (size_t i = r.size() - (n - 1); i < r.size(); ++i) s.push_back(r[i]); return s; }
    return r;
}

SUITE(construct)
{
    for (auto& t : universe(3)) run.test(t->desc, [&] { for (auto& v : values(t, 4)) constructions(run, t, v); });
}
SUITE(assign)
{
    for (auto& t : universe(3)) run.test(t->desc, [&] { auto vs = values(t, 3); for (auto& a : vs) for (auto& b : vs) operations(run, t, a, b); });
}
SUITE(change)
{
    for (auto& t : universe(3)) run.test(t->desc, [&] { for (auto& v : values(t, 3)) changes(run, t, v, 1); });
}

// ---- pushes of every kind, parts of the data itself, pairs, discriminators -----------------------------
SUITE(own)
{
    T u8 = prim_t(U8), i32 = prim_t(I32), str = str_t(STR);
    std::vector<T> ts{ str, str_t(STR, 80), str_t(WSTR), str_t(S16, 60), seq_t(str), seq_t(u8, 3), arr_t(str, 3), arr_t(seq_t(u8, 2), 2), map_t(u8, str), map_t(str, str, 3), struct_t({ u8, str, str }),
        struct_t({ seq_t(u8, 2), map_t(u8, u8, 2) }), union_t(i32, { {{1}, str}, {{2}, seq_t(str, 2)} }), union_t(i32, { {{1}, str_t(STR, 60), true}, {{2}, u8} }), i32, enum_t(E16), alias_t(str) };
    for (auto& t : ts) for (uint32_t bound : { 0u, 4u }) run.test(cat(t->desc, " bound ", bound), [&]
    {
        auto vs = values(t, 3);
        Val x = vs.back(), y = vs.size() > 1 ? vs[vs.size() - 2] : vs[0], z = defaults(t);
        T q = seq_t(t, bound), a = arr_t(t, 3), mm = map_t(i32, t, bound), st = struct_t({ t, u8, t });
        auto both = [&](const std::string& what, const T& tt, const Val& from, const std::vector<Val>& to, std::function<void(DynamicData&, DynamicData&)> f, bool redo = true, bool mixed = false)
        {
            faults<Data>(run, what, [&, from] { auto w = std::make_unique<Data>(); w->d = make(tt, from); w->src = make(t, x); return w; }, [f](Data& w) { f(*w.d, *w.src); },
                [&](Data& w, int refused)
                {
                    Val g = read(w.d->cref(), tt);
                    bool ok = norm_labels(tt, g) == norm_labels(tt, to[0]) || (refused && g == from);
                    for (size_t i = 1; i < to.size() && refused; ++i) ok = ok || g == to[i];
                    MC_CHECK(ok, "the target holds ", show(tt, g), " instead of ", show(tt, to[0]), refused ? cat(" or ", show(tt, from)) : std::string());
                    expect(w.src->cref(), t, x, "the other operand");
                }, redo);
        };
        auto list = [](std::vector<Val> k) { Val v; v.k = k; return v; };
        auto pr = [](int64_t k, const Val& v) { Val p; p.k = { num(k), v }; return p; };
        auto mp = [](std::vector<Val> k) { Val v; v.k = k; sort_map(v); return v; };
        for (size_t n = 0; n < 4; ++n)
        {
            std::vector<Val> e; for (size_t i = 0; i < n; ++i) e.push_back(i % 2 ? x : y);
            auto plus = [&](const Val& v) { auto k = e; k.push_back(v); return list(k); };
            both(cat("push data on ", n), q, list(e), { plus(x) }, [](DynamicData& d, DynamicData& s) { d.push(s); });
            if (n) both(cat("push own first on ", n), q, list(e), { plus(e[0]) }, [](DynamicData& d, DynamicData&) { d.push(d[0]); });
            if (n) both(cat("own first over own last of ", n), q, list(e), { [&] { auto k = e; k.back() = e[0]; return list(k); }() }, [n](DynamicData& d, DynamicData&) { d[n - 1] = d[0]; });
            if (n) both(cat("self assignment of ", n), q, list(e), { list(e) }, [](DynamicData& d, DynamicData&) { d = d.cref(); });
            { auto k = e; while (k.size() < 4) k.push_back(z); both(cat("resize from ", n), q, list(e), { list(k) }, [](DynamicData& d, DynamicData&) { d.resize(4); }); }
            if (rget(t)->k == STR) { std::string w = "pushed natively, longer than what fits inside"; both(cat("push native on ", n), q, list(e), { plus(cut(rget(t), text(w))) }, [&](DynamicData& d, DynamicData&) { d.push(w); }); }
            if (rget(t)->k == S16) { std::u16string w = u"pushed natively, longer than what fits inside"; Val wv; for (auto c : w) wv.s += c; both(cat("push native on ", n), q, list(e), { plus(cut(rget(t), wv)) }, [&](DynamicData& d, DynamicData&) { d.push(w); }); }
            std::vector<Val> m; for (size_t i = 0; i < n; ++i) m.push_back(pr(10 * int(i), e[i]));
            auto key = [&](int64_t k) { return std::shared_ptr<DynamicData>(make(i32, num(k)).release()); };
            for (int64_t k : { -5, 5, 15, 25 })
            {
                auto kd = key(k); auto m2 = m, m3 = m; m2.push_back(pr(k, x)); m3.push_back(pr(k, z));
                both(cat("map [", k, "] of ", n), mm, mp(m), { mp(m2), mp(m3) }, [kd](DynamicData& d, DynamicData& s) { d[*kd] = s; });
                both(cat("map [", k, "] of ", n, ", no value"), mm, mp(m), { mp(m3) }, [kd](DynamicData& d, DynamicData&) { auto r = d[*kd]; (void)r; });
                T pt = map_t(i32, t); xt::PairType pair(i32->rt(), t->rt()); auto pd = std::make_shared<DynamicData>(pair);
                (*pd)[0] = *kd; (*pd)[1] = make(t, x)->ref();
                both(cat("map insert ", k, " in ", n), mm, mp(m), { mp(m2) }, [pd](DynamicData& d, DynamicData&) { d.insert(pd->cref()); });
            }
            if (n) { auto kd = key(0); auto m2 = m; m2[0] = pr(0, x); both(cat("map [0] of ", n), mm, mp(m), { mp(m2) }, [kd](DynamicData& d, DynamicData& s) { d[*kd] = s; }); }
        }
        both("array element", a, list({ y, x, z }), { list({ y, x, x }) }, [](DynamicData& d, DynamicData& s) { d[2] = s; });
        both("array element from another", a, list({ y, x, z }), { list({ x, x, z }) }, [](DynamicData& d, DynamicData&) { d[0] = d[1]; });
        both("member", st, list({ y, num(3), z }), { list({ x, num(3), z }) }, [](DynamicData& d, DynamicData& s) { d["m0"] = s; });
        both("member from another", st, list({ y, num(3), x }), { list({ x, num(3), x }) }, [](DynamicData& d, DynamicData&) { d["m0"] = d["m2"]; });
        // unions: activation, selection by the discriminator, contents of the active member
        for (bool def : { false, true })
        {
            T u = union_t(i32, { {{3, 4}, t}, {{7}, str_t(STR, 60)}, {def ? std::vector<int64_t>{} : std::vector<int64_t>{9}, seq_t(t, 2), def} });
            Val s; s = active(*u, 1, 7, text("held by the union, too long to be inside of it"));
            both("activate", u, s, { active(*u, 0, 3, z) }, [](DynamicData& d, DynamicData&) { auto r = d["u0"]; (void)r; });
            both("activate and assign", u, s, { active(*u, 0, 3, x), active(*u, 0, 3, z) }, [](DynamicData& d, DynamicData& v) { d["u0"] = v; });
            both("activate a sequence", u, s, { active(*u, 2, def ? DEFAULT_DISC : 9, Val{}) }, [](DynamicData& d, DynamicData&) { auto r = d["u2"]; (void)r; });
            both("activate a text", u, active(*u, 0, 4, x), { active(*u, 1, 7, Val{}) }, [](DynamicData& d, DynamicData&) { auto r = d["u1"]; (void)r; });
            both("the active member", u, active(*u, 0, 4, y), { active(*u, 0, 4, x) }, [](DynamicData& d, DynamicData& v) { d["u0"] = v; });
            both("another label", u, active(*u, 0, 4, y), { active(*u, 0, 3, y) }, [](DynamicData& d, DynamicData&) { d.d(int32_t(3)); });
            if (!def) both("selection", u, Val{}, { active(*u, 1, 7, Val{}) }, [](DynamicData& d, DynamicData&) { d.d(int32_t(7)); });
            if (!def) both("selection of the first", u, Val{}, { active(*u, 0, 3, z) }, [](DynamicData& d, DynamicData&) { d.d(int32_t(3)); });
        }
    });
}

// ---- conversions between different types ----------------------------------------------------------------
SUITE(convert)
{
    auto ts = pair_universe();
    for (auto& a : ts) if (a->rt().is_constructed_type() || a->k == ALIAS) run.test(a->desc, [&]
    {
        auto vs = values(a, mc::thorough() ? 4 : 2);
        for (auto& b : ts)
        {
            if (b->rt().is_compatible(a->rt()) == xt::TypeConsistency::NONE) continue;
            bool same = b->rt().is_compatible(a->rt()) == xt::TypeConsistency::EQUALS;
            for (auto& v : vs)
            {
                std::shared_ptr<DynamicData> src(make(a, v).release());
                try { DynamicData probe(*src, b->rt()); } catch (const std::runtime_error&) { continue; }   // judged by the conversion check
                Val expected; { DynamicData probe(*src, b->rt()); expected = read(probe.cref(), b); }
                struct Made : World { D d; };
                faults<Made>(run, cat("into ", b->desc), [] { return std::make_unique<Made>(); }, [src, b](Made& w) { w.d = std::make_unique<DynamicData>(*src, b->rt()); },
                    [&, src](Made& w, int refused)
                    {
                        MC_CHECK(!!w.d == !refused, "an object exists after a refused conversion, or none after a successful one");
                        if (w.d) expect(w.d->cref(), b, expected, "converted");
                        expect(src->cref(), a, v, "source");
                    });
                if (!same) continue;
                Val from = values(b, 2).back();
                faults<Made>(run, cat("assigned to ", b->desc), [&] { auto w = std::make_unique<Made>(); w->d = make(b, from); return w; }, [src](Made& w) { *w.d = *src; },
                    [&, src](Made& w, int refused)
                    {
                        Val g = read(w.d->cref(), b);
                        MC_CHECK(g == expected || (refused && g == from), "the target holds ", show(b, g), " instead of ", show(b, expected), refused ? cat(" or ", show(b, from)) : std::string());
                        expect(src->cref(), a, v, "source");
                    });
            }
        }
    });
}

// ---- refusals: the message of an error needs memory too -------------------------------------------------
SUITE(refusals)
{
    T u8 = prim_t(U8), i32 = prim_t(I32), str = str_t(STR), bs = str_t(STR, 60);
    struct Bad { std::string name; T t; std::function<void(DynamicData&)> f; };
    auto other = std::make_shared<DynamicData>(seq_t(prim_t(F64))->rt());
    auto text_data = std::shared_ptr<DynamicData>(make(str, text("a key that isn't there, too long to be inside")).release());
    auto i32_data = std::shared_ptr<DynamicData>(make(i32, num(77)).release());
    std::vector<Bad> bad;
    for (auto& t : { str, seq_t(bs, 2), map_t(i32, str, 2), map_t(str, bs, 2), struct_t({ str, u8 }), arr_t(bs, 2), union_t(i32, { {{1}, str}, {{2}, seq_t(bs, 2)} }) })
    {
        bad.push_back({ "assignment of another type", t, [=](DynamicData& d) { d = *other; } });
        bad.push_back({ "conversion of another type", t, [=](DynamicData& d) { DynamicData e(*other, d.type()); } });
        bad.push_back({ "wrong native value", t, [=](DynamicData& d) { d.value<double>(1.5); } });
        bad.push_back({ "wrong native read", t, [=](DynamicData& d) { (void)d.value<double>(); } });
        bad.push_back({ "wrong cast", t, [=](DynamicData& d) { (void)d.cast<double>(); } });
        bad.push_back({ "wrong comparison", t, [=](DynamicData& d) { (void)(d < *other); } });
        if (t->k == SEQ || t->k == ARR) bad.push_back({ "index", t, [=](DynamicData& d) { (void)d[7]; } });
        if (t->k == SEQ) { bad.push_back({ "resize", t, [=](DynamicData& d) { d.resize(3); } }); bad.push_back({ "push of another type", t, [=](DynamicData& d) { d.push(*other); } }); bad.push_back({ "push of a wrong native value", t, [=](DynamicData& d) { d.push(1.5); } }); }
        if (t->k == MAP) { bad.push_back({ "absent key", t, [=](DynamicData& d) { (void)d.at(t->a->k == STR ? *text_data : *i32_data); } }); bad.push_back({ "wrong key", t, [=](DynamicData& d) { (void)d[*other]; } });
            bad.push_back({ "one key too many", t, [=](DynamicData& d) { for (int i = 0; i < 4; ++i) { auto k = make(t->a, t->a->k == STR ? text(cat("key number ", i, ", long enough to be allocated")) : num(1000 + i)); (void)d[*k]; } } }); }
        if (t->k == STRUCT || t->k == UNION) bad.push_back({ "unknown member", t, [=](DynamicData& d) { (void)d["a member that nobody has, with a long name"]; } });
        if (t->k == UNION) { bad.push_back({ "assignment to the discriminator", t, [=](DynamicData& d) { d.d(*other); } }); }
        if (t->k != MAP && t->k != SEQ && t->k != ARR) bad.push_back({ "push", t, [=](DynamicData& d) { d.push(*other); } });
    }
    for (auto& b : bad) run.test(cat(b.t->desc, ": ", b.name), [&]
    {
        bool fills = b.name == "one key too many";
        for (auto& v : values(b.t, 3))
        {
            if (fills) { auto d = make(b.t, v); MC_CHECK(mc::refused([&] { b.f(*d); }), "not refused"); }
            faults<Data>(run, b.name, [&] { auto w = std::make_unique<Data>(); w->d = make(b.t, v); return w; },
                [&](Data& w) { bool done = false; try { b.f(*w.d); done = true; } catch (const std::runtime_error&) {} MC_CHECK(!done, "not refused"); },
                [&](Data& w, int) { Val g = read(w.d->cref(), b.t); if (!fills) MC_CHECK(g == v, "holds ", show(b.t, g), " after a refusal instead of ", show(b.t, v)); }, !fills);
        }
    });
}

// ---- histories with a fault in each of two operations --------------------------------------------------
SUITE(histories)
{
    T u8 = prim_t(U8), str = str_t(STR), bs = str_t(STR, 60);
    for (auto& t : std::vector<T>{ seq_t(str), seq_t(bs, 3), map_t(u8, str), map_t(str, bs, 3), struct_t({ str, seq_t(bs, 2) }), union_t(u8, { {{1}, str}, {{2}, seq_t(bs, 2)}, {{3}, bs, true} }), arr_t(bs, 2), seq_t(struct_t({ bs, bs })) })
        for (auto& v : values(t, 2)) run.test(cat(t->desc, " ", show(t, v)), [&]
        {
            auto ms = mutations(t, v, 1);
            auto extra = values(t, 3).back();
            ms.push_back({ "whole", [&](WritableDynamicDataRef w) { auto s = make(t, extra); w = s->ref(); }, extra });
            const long limit = mc::thorough() ? 60 : 25;
            for (auto& x : ms) for (auto& y : ms) for (long k = 0; k < limit; ++k)
            {
                bool more1 = false;
                for (long l = 0; l < limit; ++l)
                {
                    run.note(cat(x.name, ", allocation ", k, " fails; then ", y.name, ", allocation ", l, " fails"));
                    long before = mc::live_allocs().load();
                    bool more2;
                    {
                        auto d = make(t, v);
                        auto step = [&](const Mut& m, long n) { try { return attempt(n, [&] { m.f(d->ref()); }) != 0; } catch (const std::runtime_error&) { return true; } };
                        more1 = step(x, k); (void)read(d->cref(), t);
                        more2 = step(y, l);
                        // whatever is there is a value: it can be copied, compared and replaced
                        Val g = read(d->cref(), t);
                        DynamicData copy(*d); expect(copy.cref(), t, g, "copy of what was left");
                        MC_CHECK(copy == *d, "the copy of what was left differs from it");
                        auto s = make(t, extra); *d = *s; expect(d->cref(), t, extra, "assigned afterwards");
                        run.transition(2); run.state();
                    }
                    MC_CHECK(mc::live_allocs().load() == before, mc::live_allocs().load() - before, " allocations left behind");
                    if (!more2) break;
                }
                run.trace();
                if (!more1) break;
            }
            run.note("");
        });
}

// ---- types ------------------------------------------------------------------------------------------------
static std::string describe(const DynamicType& t)
{
    std::string s = t.name();
    if (t.is_aggregation_type())
    {
        auto& a = static_cast<const xt::AggregationType&>(t);
        for (auto& m : a.members())
        {
            MC_CHECK(a.has_member(m.name()), "member ", m.name(), " isn't known by its name");
            MC_CHECK(&a.member(m.name()) == &m, "the name ", m.name(), " finds another member");
            s += cat("{", m.name(), "@", m.offset(), ":", m.type().name(), "}");
        }
        for (const char* n : { "a", "b", "c", "the third member, whose name is long enough" })
        {
            bool there = false; for (auto& m : a.members()) there = there || m.name() == n;
            MC_CHECK(a.has_member(n) == there, "has_member(", n, ") is ", !there);
        }
    }
    if (t.kind() == xt::TypeKind::UNION_TYPE)
    {
        auto& u = static_cast<const xt::UnionType&>(t);
        for (auto& c : u.get_case_members()) { s += c + (u.is_default(c) ? "*" : "") + "<"; for (auto l : u.get_labels(c)) s += std::to_string(l) + ","; s += ">"; }
        s += u.get_default();
    }
    return s;
}
static void use(const DynamicType& t)   // data of the type behave
{
    DynamicData d(t), e(d);
    MC_CHECK(d == e, "data of the type differs from its copy");
    if (t.is_aggregation_type())
    {
        auto& a = static_cast<const xt::AggregationType&>(t);
        for (auto& m : a.members()) if (m.name() != "discriminator")
        {
            if (m.type().kind() == xt::TypeKind::STRING_TYPE) { std::string x = "written through the member, allocated"; d[m.name()] = x; MC_CHECK(d[m.name()].value<std::string>() == x, "text lost"); }
            else d[m.name()] = DynamicData(m.type());
        }
    }
}
template<class TYPE, class... A> struct TypeWorld : World { TYPE t; TypeWorld(const A&... a) : t(a...) {} };
SUITE(types)
{
    T u8 = prim_t(U8), i32 = prim_t(I32), str = str_t(STR);
    std::vector<T> members{ u8, str, seq_t(str, 2), struct_t({ u8, str }), enum_t(E8), map_t(u8, str), alias_t(str), arr_t(str, 2), union_t(i32, { {{1}, str} }) };
    const std::string third = "the third member, whose name is long enough";
    for (auto& m : members) run.test(cat("structure with ", m->desc), [&]
    {
        for (size_t n = 0; n < 4; ++n) for (bool derived : { false, true })
        {
            xt::StructType base("base, a name that needs memory"); base.add_member("p", str->rt());
            auto fresh = [&] { auto s = std::make_unique<xt::StructType>("structure, a name that needs memory", derived ? &base : nullptr);
                for (size_t i = 0; i < n; ++i) s->add_member(i == 2 ? third : std::string(1, char('a' + i)), i % 2 ? str->rt() : m->rt()); return s; };
            struct W : World { std::unique_ptr<xt::StructType> t; };
            std::string name = n == 2 ? third : std::string(1, char('a' + n));
            std::string before = describe(*fresh()), after; { auto s = fresh(); s->add_member(name, m->rt()); after = describe(*s); }
            auto check = [&](W& w, int refused) { std::string g = describe(*w.t); MC_CHECK(g == (refused ? before : after), "the type is ", g, " instead of ", refused ? before : after); use(*w.t); };
            faults<W>(run, cat("add_member to ", n), [&] { auto w = std::make_unique<W>(); w->t = fresh(); return w; }, [&](W& w) { w.t->add_member(name, m->rt()); }, check);
            faults<W>(run, cat("add_member to ", n, " (Member)"), [&] { auto w = std::make_unique<W>(); w->t = fresh(); return w; }, [&](W& w) { w.t->add_member(xt::Member(name, m->rt())); }, check);
            auto original = fresh();
            struct C : World { std::unique_ptr<DynamicType> t; DynamicType::Ptr p; bool had = false; };
            auto same = [&](C& w, int refused) { if (refused && w.had) MC_CHECK(w.p.get() && w.p->kind() == xt::TypeKind::STRING_TYPE, "the handle leads to another type after a refusal"); if (!refused) { MC_CHECK(describe(w.t ? *w.t : *w.p) == before, "the copy differs"); use(w.t ? *w.t : *w.p); } MC_CHECK(describe(*original) == before, "the original changed"); };
            faults<C>(run, cat("copy of ", n), [] { return std::make_unique<C>(); }, [&](C& w) { w.t.reset(); w.t = std::make_unique<xt::StructType>(*original); }, same);
            faults<C>(run, cat("handle of ", n), [] { return std::make_unique<C>(); }, [&](C& w) { w.p = DynamicType::Ptr(*original); }, same);
            faults<C>(run, cat("handle assigned, ", n), [&] { auto c = std::make_unique<C>(); c->p = DynamicType::Ptr(str->rt()); c->had = true; return c; }, [&](C& w) { DynamicType::Ptr q(*original); w.p = q; }, same);
            struct X : World { std::unique_ptr<DynamicType> t; };
            auto built = [&](const std::string& what, std::function<DynamicType*()> f) { faults<X>(run, cat(what, " of ", n), [] { return std::make_unique<X>(); }, [&](X& w) { w.t.reset(); w.t.reset(f()); },
                [&](X& w, int refused) { MC_CHECK(!!w.t == !refused, "a type exists after a refused construction, or none after a successful one"); if (w.t) DynamicData d(*w.t); MC_CHECK(describe(*original) == before, "the content changed"); }); };
            built("array", [&] { return new xt::ArrayType(*original, 2); });
            built("arrays", [&] { return new xt::ArrayType(*original, std::vector<uint32_t>{ 2, 3 }); });
            built("sequence", [&] { return new xt::SequenceType(*original, 3); });
            built("map", [&] { return new xt::MapType(str->rt(), *original, 3); });
            built("alias", [&] { return new xt::AliasType(*original, "alias, a name that needs memory"); });
            built("pair", [&] { return new xt::PairType(str->rt(), *original); });
            built("derived", [&] { return new xt::StructType("derived, a name that needs memory", original.get()); });
            built("union", [&] { return new xt::UnionType("union, a name that needs memory", i32->rt()); });
        }
    });
    for (auto& m : members) for (auto& disc : { i32, u8, enum_t(E8), prim_t(C8), prim_t(BOOL) }) run.test(cat("union (", disc->desc, ") with ", m->desc), [&]
    {
        std::vector<std::vector<int64_t>> ls = disc->k == BOOL ? std::vector<std::vector<int64_t>>{ {1}, {0} } : std::vector<std::vector<int64_t>>{ {1, 5}, {9}, {0} };
        for (size_t n = 0; n < ls.size(); ++n) for (int def = 0; def < 3; ++def)    // default: none, the new one, the new one without labels
        {
            auto fresh = [&] { auto s = std::make_unique<xt::UnionType>("union, a name that needs memory", disc->rt());
                for (size_t i = 0; i < n; ++i) s->add_case_member<int64_t>(ls[i], i == 2 ? third : std::string(1, char('a' + i)), i % 2 ? str->rt() : m->rt()); return s; };
            struct W : World { std::unique_ptr<xt::UnionType> t; };
            std::string name = n == 2 ? third : std::string(1, char('a' + n));
            auto op = [&](xt::UnionType& u) { u.add_case_member<int64_t>(def == 2 ? std::vector<int64_t>{} : ls[n], name, m->rt(), def > 0); };
            std::string before = describe(*fresh()), after; { auto s = fresh(); op(*s); after = describe(*s); }
            faults<W>(run, cat("add_case_member to ", n, ", default ", def), [&] { auto w = std::make_unique<W>(); w->t = fresh(); return w; }, [&](W& w) { op(*w.t); },
                [&](W& w, int refused) { std::string g = describe(*w.t); MC_CHECK(g == (refused ? before : after), "the type is ", g, " instead of ", refused ? before : after); use(*w.t); });
            if (def != 2 && !is_enum(disc->k) && disc->k != C8 && disc->k != BOOL)
            {
                std::vector<std::string> text; for (auto l : ls[n]) text.push_back(std::to_string(l)); if (def) text.push_back("default");
                faults<W>(run, cat("add_case_member by text to ", n, ", default ", def), [&] { auto w = std::make_unique<W>(); w->t = fresh(); return w; }, [&](W& w) { w.t->add_case_member(text, xt::Member(name, m->rt())); },
                    [&](W& w, int refused) { std::string g = describe(*w.t); MC_CHECK(g == (refused ? before : after), "the type is ", g, " instead of ", refused ? before : after); use(*w.t); });
            }
            auto original = fresh();
            struct C : World { std::unique_ptr<xt::UnionType> t; };
            faults<C>(run, cat("copy of ", n), [] { return std::make_unique<C>(); }, [&](C& w) { w.t.reset(); w.t = std::make_unique<xt::UnionType>(*original); },
                [&](C& w, int refused) { if (!refused) { MC_CHECK(describe(*w.t) == before, "the copy differs"); use(*w.t); } MC_CHECK(describe(*original) == before, "the original changed"); });
        }
    });
    run.test("enumeration", [&]
    {
        for (size_t n = 0; n < 5; ++n) for (bool given : { false, true })
        {
            struct W : World { xt::EnumerationType<uint16_t> t{ "enumeration, a name that needs memory" }; };
            auto fill_up = [&](xt::EnumerationType<uint16_t>& e) { for (size_t i = 0; i < n; ++i) e.add_enumerator(cat("an enumerator with a long name, ", i), uint16_t(3 * i)); };
            auto text = [](const xt::EnumerationType<uint16_t>& e) { std::string s; for (auto& x : e.enumerators()) s += cat(x.first, "=", x.second, ";"); s += std::to_string(e.default_value()); return s; };
            auto op = [&](xt::EnumerationType<uint16_t>& e) { if (given) e.add_enumerator("one more enumerator with a long name", 40); else e.add_enumerator("one more enumerator with a long name"); };
            std::string before, after; { xt::EnumerationType<uint16_t> e("e"); fill_up(e); before = text(e); op(e); after = text(e); }
            faults<W>(run, cat("add_enumerator to ", n), [&] { auto w = std::make_unique<W>(); fill_up(w->t); return w; }, [&](W& w) { op(w.t); },
                [&](W& w, int refused) { std::string g = text(w.t); MC_CHECK(g == (refused ? before : after), "the enumerators are ", g, " instead of ", refused ? before : after); });
        }
    });
}

MC_MAIN
