// C07: a compatible copy keeps every value both types can represent; an incompatible one is refused without effect
#include "compat.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

static void pair_case(mc::Run& run, const T& a, const T& b, const std::vector<Val>& vs, bool deep)
{
    unsigned c = compat(a, b); bool maps = maps_match(a, b);
    auto avs = samples(a, 3); const Val& old = avs.back();
    // an old value of a that != default, to be overwritten
    for (auto& v : vs)
    {
        run.note(cat("from ", b->desc, " ", show(b, v)));
        D s = make(b, v);
        if (c == NONE)
        {
            long n = mc::live_allocs().load();
            bool ref = mc::refused_rt([&] { DynamicData x(*s, a->rt()); });
            MC_CHECK(ref, "creation from an incompatible type is not refused");
            if (mc::live_allocs().load() != n) MC_CHECK(mc::leaked([&] { (void)mc::refused_rt([&] { DynamicData x(*s, a->rt()); }); }) == 0, "refused creation leaves allocations");
            D t = make(a, old);
            MC_CHECK(mc::refused_rt([&] { *t = *s; }), "assignment of an incompatible type is not refused");
            expect(*t, a, old, "target of the refused assignment"); expect(*s, b, v, "source of the refused assignment");
            run.transition(2); run.trace();
            return;
        }
        Val want;
        try { want = convert(a, b, v); } catch (const Undefined&) { continue; }
        if (!maps)
        {
            // maps of other key or value types: whether they can be converted is not promised, but nothing may break
            try { DynamicData x(*s, a->rt()); (void)read(x, a); } catch (const std::runtime_error&) {}
            expect(*s, b, v, "source"); D t = make(a, old);
            try { *t = *s; (void)read(*t, a); } catch (const std::runtime_error&) { expect(*t, a, old, "target of a refused assignment"); }
            run.transition(2);
            continue;
        }
        auto check = [&](const ReadableDynamicDataRef& r, const char* what)
        {
            Val got = read(r, a);
            if (!same_converted(a, b, v, want, got)) fail(cat(what, ": expected ", show(a, want), " but holds ", show(a, got)));
            return got;
        };
        D x = std::make_unique<DynamicData>(*s, a->rt());
        Val got = check(*x, "created data");
        MC_CHECK(x->type().name() == rget(a)->rt().name(), "the result has type ", x->type().name());
        expect(*s, b, v, "source after the creation");
        if (c == 0)
        {
            D t = make(a, old, 1); *t = *s; check(*t, "assigned data"); expect(*s, b, v, "source after the assignment");
            D t2 = make(a, old); t2->ref() = s->ref(); check(*t2, "assigned reference");
            T q = seq_t(a); D sq = std::make_unique<DynamicData>(q->rt()); sq->push(*s); check((*sq)[0], "pushed element");
            T st = struct_t({ prim_t(U8), a, str_t(STR) }); D sd = make(st, samples(st, 4).back()); (*sd)[1] = s->ref(); check((*sd)[1], "assigned member");
            Val all = samples(st, 4).back(); MC_CHECK(read((*sd)[0].cref(), st->mem[0].t) == all.k[0] && read((*sd)[2].cref(), st->mem[2].t) == all.k[2], "neighbours of the assigned member");
            run.transition(4);
        }
        else
        {
            D t = make(a, old);
            MC_CHECK(mc::refused_rt([&] { *t = *s; }), "assignment of a type that is not EQUALS is not refused");
            expect(*t, a, old, "target of the refused assignment");
            T q = seq_t(a); D sq = std::make_unique<DynamicData>(q->rt());
            MC_CHECK(mc::refused_rt([&] { sq->push(*s); }) && sq->size() == 0, "push of a type that is not EQUALS is not refused");
            run.transition(2);
        }
        if (deep)
        {
            // independent and usable: modify either side, destroy the source first
            for (auto& mu : mutations(a, got, 1)) { D y = std::make_unique<DynamicData>(*s, a->rt()); mu.f(y->ref()); expect(*y, a, mu.v, cat("result modified by ", mu.name)); expect(*s, b, v, "source after a modification of the result"); run.transition(); }
            for (auto& mu : mutations(b, v, 1)) { D z = make(b, v); DynamicData y(*z, a->rt()); mu.f(z->ref()); expect(y, a, got, "result after a modification of the source"); run.transition(); }
            D z = make(b, v); DynamicData y(*z, a->rt()); z.reset(); expect(y, a, got, "result after the destruction of the source");
            DynamicData copy(y); MC_CHECK(copy == y && copy.hash() == y.hash(), "copy of the result");
            // equal to the same value made directly
            D direct = make(a, got); MC_CHECK(*direct == y && direct->hash() == y.hash(), "the result is not equal to the same value made directly");
            MC_CHECK(mc::leaked([&] { DynamicData l(*s, a->rt()); }) == 0, "the creation leaves allocations");
        }
        run.trace();
    }
    run.state();
}
SUITE(pairs)
{
    auto ts = pair_universe();
    for (auto& a : ts) run.test(a->desc, [&]
    {
        for (auto& b : ts) { bool one = compat(a, b) == NONE; pair_case(run, a, b, one ? samples(b, 1) : samples(b, 5), true); }
    });
}
// every pair of primitive types, every 8-bit value and the boundaries of the wider ones
SUITE(primitives)
{
    std::vector<T> ps; for (int k = BOOL; k <= WC; ++k) ps.push_back(prim_t(K(k))); for (K k : { E8, E16, E32 }) ps.push_back(enum_t(k));
    for (auto& b : ps) run.test(b->desc, [&]
    {
        std::vector<Val> vs;
        prim(b->k, [&](auto tag)
        {
            using X = typename decltype(tag)::type;
            if (is_enum(b->k)) vs = samples(b, 9);
            else if (std::is_same<X, bool>::value) vs = { num(0), num(1) };
            else if (sizeof(X) == 1) for (int i = 0; i < 256; ++i) vs.push_back(num(real_t(X(i))));
            else if (std::is_floating_point<X>::value) for (real_t x : { 0.0L, 1.0L, -1.0L, 0.5L, 0.99L, -0.99L, 1.5L, 127.0L, 127.9L, 128.0L, 255.0L, 255.9L, -128.0L, -128.9L, 65535.0L, 32767.5L, 1e6L, 3.0e9L, -2147483648.0L, 2147483647.0L, 1e15L, 16777217.0L }) vs.push_back(num(real_t(X(x))));
            else for (size_t bit = 0; bit < sizeof(X) * 8; ++bit) for (int s : { 1, -1 }) for (int o : { -1, 0, 1 }) { real_t x = s * std::ldexp(1.0L, int(bit)) + o; if (x >= real_t(std::numeric_limits<X>::lowest()) && x <= real_t(std::numeric_limits<X>::max())) add_uniq(vs, num(x)); }
            return 0;
        });
        for (auto& a : ps)
        {
            pair_case(run, a, b, vs, false);
            // in bulk: as elements of arrays and sequences, as members
            if (compat(a, b) == NONE) continue;
            Val all, want;
            for (auto& v : vs) try { Val w = convert(a, b, v); all.k.push_back(v); want.k.push_back(w); } catch (const Undefined&) {}
            if (all.k.empty()) continue;
            uint32_t n = uint32_t(all.k.size());
            for (int h = 0; h < 4; ++h)
            {
                T from = h == 0 ? arr_t(b, n) : h == 1 ? seq_t(b) : h == 2 ? arr_t(b, n) : seq_t(b), to = h == 0 ? arr_t(a, n) : h == 1 ? seq_t(a) : h == 2 ? arr_t(a, n + 2) : seq_t(a, std::max(1u, n / 2));
                Val w = want; if (h == 2) { w.k.push_back(defaults(a)); w.k.push_back(defaults(a)); } if (h == 3) w.k.resize(std::max(1u, n / 2));
                D s = make(from, all); DynamicData x(*s, to->rt()); run.note(cat(from->desc, " to ", to->desc));
                expect(x, to, w, "converted collection"); expect(*s, from, all, "source collection");
                run.transition(); run.state();
            }
        }
    });
}
// all pairs of unions: labels, defaults and members in different arrangements
SUITE(unions)
{
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    std::vector<std::vector<Case>> arr;
    std::vector<int64_t> L{ 1, 2, 3 };
    // members u0: text, u1: number; every assignment of the labels 1..3 to {u0, u1, nobody}, default: none, u0, u1
    for (int x = 0; x < 27; ++x) for (int def = -1; def < 2; ++def)
    {
        Case c0{ {}, str, def == 0 }, c1{ {}, u8, def == 1 };
        int y = x; for (int i = 0; i < 3; ++i, y /= 3) if (y % 3 == 0) c0.labels.push_back(L[i]); else if (y % 3 == 1) c1.labels.push_back(L[i]);
        if ((c0.labels.empty() && def != 0) || (c1.labels.empty() && def != 1)) continue;
        arr.push_back({ c0, c1 });
    }
    auto discs = mc::thorough() ? std::vector<T>{ i32, u8, prim_t(I64), prim_t(C8), prim_t(I16), prim_t(U16) } : std::vector<T>{ i32, u8, prim_t(I64) };
    for (auto& d1 : discs) for (auto& d2 : discs) for (size_t i = 0; i < arr.size(); ++i) run.test(cat(d1->desc, "/", d2->desc, "/", i), [&]
    {
        T a = union_t(d1, arr[i]);
        for (auto& c : arr)
        {
            T b = union_t(d2, c);
            std::vector<Val> vs{ defaults(b) };
            for (int m = 0; m < 2; ++m)
            {
                Val x = m ? num(9) : text("a text that is stored in the heap");
                for (auto l : c[m].labels) vs.push_back(active(*b, m, real_t(l), x));
                if (c[m].labels.empty()) vs.push_back(active(*b, m, DEFAULT_DISC, x));
            }
            pair_case(run, a, b, vs, false);
        }
    });
}
// sizes around the limits of narrower counters, converted to other sizes, bounds and contents
SUITE(extents)
{
    std::vector<int> ns{ 1, 127, 128, 129, 255, 256, 257, 300, 512, 700 };
    T u8 = prim_t(U8), str = str_t(STR);
    std::vector<std::pair<T, T>> contents{ { u8, u8 }, { prim_t(I32), prim_t(I16) }, { str, str }, { prim_t(U8), prim_t(U64) }, { struct_t({ u8, str }), struct_t({ prim_t(U16), str }) } };
    auto value = [](const T& t, int n) { Val v; if (is_str(t->k)) { for (int i = 0; i < n; ++i) v.s += char32_t('a' + (i + i / 256) % 26); return v; } for (int i = 0; i < n; ++i) { const T& e = t->k == STRUCT ? t->mem[i].t : t->a; std::function<Val(const T&)> f = [&](const T& x) { if (is_str(x->k)) return text(cat("t", i)); Val w; if (x->k == STRUCT) { for (auto& m : x->mem) w.k.push_back(f(m.t)); return w; } return num((i + i / 256 * 3) % 120); }; v.k.push_back(f(e)); } return v; };
    for (int a : ns) for (size_t c = 0; c < contents.size(); ++c) run.test(cat("to ", a, "/", contents[c].first->desc), [&]
    {
        const T &ca = contents[c].first, &cb = contents[c].second;
        for (int b : ns)
        {
            std::vector<std::pair<T, T>> ts{ { arr_t(ca, a), arr_t(cb, b) }, { seq_t(ca, a), seq_t(cb, b) }, { seq_t(ca), seq_t(cb, b) }, { seq_t(ca, a), seq_t(cb) } };
            if (c == 0) for (K k : { STR, WSTR, S16 }) { ts.push_back({ str_t(k, a), str_t(k, b) }); ts.push_back({ str_t(k, a), str_t(k) }); }
            if (a > 1 && b > 1 && a <= 300 && b <= 300) { ts.push_back({ struct_t(std::vector<T>(a, ca)), struct_t(std::vector<T>(b, cb)) }); }
            for (auto& t : ts) { std::vector<Val> vs{ value(t.second, b) }; if (t.second->k == SEQ && b > 1) vs.push_back(value(t.second, b - 1)); pair_case(run, t.first, t.second, vs, false); }
        }
    });
}
MC_MAIN
