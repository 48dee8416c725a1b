// C06: equality is value equality, equal values hash equally, small different values hash differently
#include "nav.hpp"
#include "big.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

// the histories by which a value is reached
static const int HIST = 8;
static D by(const T& t, const Val& v, const std::vector<Val>& vs, int h, size_t salt)
{
    const Val& other = vs[salt % vs.size()];
    switch (h)
    {
        case 0: return make(t, v, 0);
        case 1: return make(t, v, 1);
        case 2: { D d = make(t, other, 1); *d = *make(t, v, 0); return d; }                       // overwritten
        case 3: { D s = make(t, v, 1); return std::make_unique<DynamicData>(*s); }                // copied
        case 4: { T st = struct_t({ prim_t(U8), t, str_t(STR) }); D d = std::make_unique<DynamicData>(st->rt()); fill((*d)[1], t, v, 0); return std::make_unique<DynamicData>((*d)[1]); }   // out of a member
        case 5: { D s = make(t, v, 0), o = make(t, other, 0); D d = std::make_unique<DynamicData>(*o); *o = *s; *d = *o; *o = *make(t, other); return d; }
        case 6:     // detour: a one-step modification and back (by assignment of the parts)
        {
            D d = make(t, v, 0); auto ms = mutations(t, v, 1); if (ms.empty()) return d;
            ms[salt % ms.size()].f(d->ref()); *d = *make(t, v, 1); return d;
        }
        default:    // detour over other leaf values, same shape: written leaf by leaf
        {
            D d = make(t, v, 1);
            leaves_of(t, v, [&](const Path& p, const T& lt, const Val& lv)
            {
                auto xs = samples(lt, 4);
                for (auto& x : xs) if (!(x == lv)) reach(d->ref(), t, v, p, 0, [&](WritableDynamicDataRef w) { write_leaf(w, lt, x); });
                reach(d->ref(), t, v, p, 0, [&](WritableDynamicDataRef w) { write_leaf(w, lt, lv); });
            });
            return d;
        }
    }
}
static std::vector<Val> values(const T& t, size_t n)
{
    std::vector<Val> r = samples(t, 5); for (auto& v : distinct(t, n)) add_uniq(r, v);
    // every neighbour of the first values: they differ in exactly one place
    size_t base = std::min<size_t>(r.size(), 4);
    for (size_t i = 0; i < base && r.size() < 2 * n + 10; ++i) for (auto& x : mutations(t, r[i], 2)) if (r.size() < 2 * n + 10) add_uniq(r, x.v);
    return r;
}
// is the difference a member default without label? then the two have the same discriminator or not by choice of the library
SUITE(pairs)
{
    for (auto& t : universe(3))
    {
        auto vs = values(t, mc::thorough() ? 30 : 12);
        for (size_t i = 0; i < vs.size(); ++i) run.test(cat(t->desc, "/", show(t, vs[i])), [&]
        {
            std::vector<D> a; for (int h = 0; h < HIST; ++h) { a.push_back(by(t, vs[i], vs, h, i * 7 + h)); expect(*a[h], t, vs[i], cat("value of history ", h)); }
            for (size_t j = 0; j < vs.size(); ++j)
            {
                bool same = i == j;
                for (int h = 0; h < HIST; ++h)
                {
                    run.note(cat("against ", show(t, vs[j]), " of history ", h));
                    D b = by(t, vs[j], vs, h, j * 5 + h + 3);
                    uint64_t hb = b->hash();
                    for (int g = 0; g < HIST; ++g) if (g == h || g == 0 || h == 0 || same)
                    {
                        const DynamicData &x = *a[g], &y = *b;
                        MC_CHECK((x == y) == same, "== says ", x == y, " (left of history ", g, ")");
                        MC_CHECK((x != y) == !same, "!= says ", x != y, " (left of history ", g, ")");
                        MC_CHECK((y == x) == same && (y != x) == !same, "== is not symmetric");
                        MC_CHECK((x.cref() == y.cref()) == same && (x.ref() == y.ref()) == same, "== of references");
                        if (same) MC_CHECK(x.hash() == hb, "equal values with different hash (histories ", g, ", ", h, ")");
                        else MC_CHECK(x.hash() != hb, "different values with the same hash");
                        run.transition();
                    }
                }
                run.trace();
            }
            run.state();
        });
    }
}
// complete small domains: all values of a type, all pairs
static void domain(mc::Run& run, const std::string& id, const T& t, const std::vector<Val>& vs, bool all_pairs)
{
    const size_t CH = all_pairs ? 16 : 1;
    for (size_t c = 0; c < CH; ++c) run.test(cat(id, "/", c), [&]
    {
        std::vector<D> ds; std::vector<uint64_t> hs;
        for (auto& v : vs) { ds.push_back(make(t, v)); hs.push_back(ds.back()->hash()); }
        std::map<uint64_t, size_t> by_hash;
        for (size_t i = 0; i < vs.size(); ++i) { auto p = by_hash.emplace(hs[i], i); if (!p.second) fail(cat(show(t, vs[i]), " and ", show(t, vs[p.first->second]), " have the same hash")); run.transition(); }
        if (all_pairs) for (size_t i = c; i < vs.size(); i += CH) for (size_t j = 0; j < vs.size(); ++j)
        {
            bool e = *ds[i] == *ds[j];
            if (e != (i == j)) fail(cat(show(t, vs[i]), (e ? " == " : " is not equal to "), show(t, vs[j])));
            run.transition();
        }
        run.state(vs.size()); run.trace();
    });
}
SUITE(domains)
{
    T u8 = prim_t(U8), i16 = prim_t(I16), str = str_t(STR), c8 = prim_t(C8), bo = prim_t(BOOL);
    auto byte = [](int i) { return num(i); };
    for (K k : { U8, I8, C8 }) { std::vector<Val> vs; for (int i = 0; i < 256; ++i) vs.push_back(num(k == U8 ? i : i - 128)); domain(run, kname(k), prim_t(k), vs, true); }
    for (K k : { U16, I16, C16 }) { std::vector<Val> vs; for (int i = 0; i < 65536; ++i) vs.push_back(num(k == I16 ? i - 32768 : i)); domain(run, kname(k), prim_t(k), vs, false); }
    for (K k : { U32, I32, U64, I64, F32, F64, F128 })
    {
        std::vector<Val> vs; real_t lo, hi;
        prim(k, [&](auto tag) { using X = typename decltype(tag)::type; if constexpr (std::is_arithmetic<X>::value) { lo = real_t(std::numeric_limits<X>::lowest()); hi = real_t(std::numeric_limits<X>::max()); } return 0; });
        vs.push_back(num(0));
        for (int b = 0; b < (k == U32 || k == I32 ? 33 : k == F32 ? 24 : 64); ++b) for (int s : { 1, -1 }) for (int o : { 0, 1 }) { real_t x = s * (std::ldexp(1.0L, b) - o); if (k == F64 && b > 52 && o) continue; if (x >= lo && x <= hi) add_uniq(vs, num(x)); }
        if (k == F32 || k == F64 || k == F128) for (int i = 1; i < 50; ++i) { add_uniq(vs, num(std::ldexp(1.0L, -i))); add_uniq(vs, num(-std::ldexp(3.0L, -i))); }
        domain(run, kname(k), prim_t(k), vs, true);
    }
    auto two = [&](const std::string& id, const T& t, int n) { std::vector<Val> vs; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { Val v; v.k = { byte(a), byte(b) }; vs.push_back(v); } domain(run, id, t, vs, n < 40); };
    two("{u8,u8}", struct_t({ u8, u8 }), 256); two("{u8,u8} pairs", struct_t({ u8, u8 }), 20);
    two("{i16,u8}", struct_t({ i16, u8 }), 20); two("{u8,i16}", struct_t({ u8, i16 }), 20); two("u8[2]", arr_t(u8, 2), 256); two("u8[2] pairs", arr_t(u8, 2), 20);
    two("{u64,u8}", struct_t({ prim_t(U64), u8 }), 20);
    { std::vector<Val> vs; for (int n = 0; n < 6; ++n) for (int x = 0; x < (1 << n); ++x) { Val v; for (int i = 0; i < n; ++i) v.k.push_back(num((x >> i) & 1)); vs.push_back(v); } domain(run, "seq<bool>", seq_t(bo), vs, true); domain(run, "seq<u8>", seq_t(u8), vs, true); domain(run, "seq<i16,5>", seq_t(i16, 5), vs, true); }
    for (K k : { STR, WSTR, S16 })
    {   // all texts of up to 5 characters over two characters, one of them NUL-like short
        std::vector<Val> vs; for (int n = 0; n < 6; ++n) for (int x = 0; x < (1 << n); ++x) { Val v; for (int i = 0; i < n; ++i) v.s += char32_t((x >> i) & 1 ? 'b' : k == STR ? 'a' : 0xABCD); vs.push_back(v); }
        for (int n = 1; n < 4; ++n) for (int x = 0; x < (1 << n); ++x) { Val v; for (int i = 0; i < n; ++i) v.s += char32_t((x >> i) & 1 ? 'q' : 0); vs.push_back(v); }
        std::vector<Val> u; for (auto& v : vs) add_uniq(u, v);
        domain(run, kname(k), str_t(k), u, true);
        std::vector<Val> two; for (size_t i = 0; i < 12; ++i) for (size_t j = 0; j < 12; ++j) { Val v; v.k = { u[i], u[j] }; two.push_back(v); }
        domain(run, cat("{", kname(k), ",", kname(k), "}"), struct_t({ str_t(k), str_t(k) }), two, true);
        domain(run, cat(kname(k), "[2]"), arr_t(str_t(k), 2), two, true);
    }
    // maps over two-element domains: all contents
    for (auto& kt : std::vector<T>{ u8, bo, str })
    {
        std::vector<Val> ks = kt == str ? std::vector<Val>{ text(""), text("a") } : std::vector<Val>{ num(0), num(1) };
        std::vector<Val> vs; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { Val v, p; if (a) { p.k = { ks[0], num(a - 1) }; v.k.push_back(p); } if (b) { p.k = { ks[1], num(b - 1) }; v.k.push_back(p); } sort_map(v); vs.push_back(v); }
        domain(run, cat("map<", kt->desc, ",u8>"), map_t(kt, u8), vs, true);
    }
    // unions: all labels x contents
    {
        T ut = union_t(u8, { {{0, 1, 2}, u8}, {{3, 4}, str}, {{5}, u8} });
        std::vector<Val> vs{ Val{} };
        for (int l : { 0, 1, 2 }) for (int x = 0; x < 10; ++x) vs.push_back(active(*ut, 0, l, num(x)));
        for (int l : { 3, 4 }) for (auto s : { "", "a", "b", "ab" }) vs.push_back(active(*ut, 1, l, text(s)));
        for (int x = 0; x < 10; ++x) vs.push_back(active(*ut, 2, 5, num(x)));
        domain(run, "union", ut, vs, true);
        T sq = struct_t({ ut, u8 }); std::vector<Val> ws; for (auto& v : vs) for (int x = 0; x < 4; ++x) { Val w; w.k = { v, num(x) }; ws.push_back(w); } domain(run, "{union,u8}", sq, ws, true);
        T du = union_t(prim_t(I32), { {{-1, 7}, u8}, {{}, str, true} });
        std::vector<Val> dv; for (int l : { -1, 7 }) for (int x = 0; x < 6; ++x) dv.push_back(active(*du, 0, l, num(x))); for (auto s : { "", "a", "b", "ab" }) dv.push_back(active(*du, 1, DEFAULT_DISC, text(s)));
        domain(run, "union with default", du, dv, true);
    }
}
// values that are equal although their bytes differ
SUITE(negative_zero)
{
    for (K k : { F32, F64, F128 }) for (int h = 0; h < 5; ++h) run.test(cat(kname(k), "/", h), [&]
    {
        T f = prim_t(k), u8 = prim_t(U8);
        T t = h == 0 ? f : h == 1 ? struct_t({ u8, f }) : h == 2 ? arr_t(f, 2) : h == 3 ? seq_t(f) : union_t(u8, { {{1}, f} });
        Val v; if (h == 0) v = num(0); else if (h == 4) v = active(*t, 0, 1, num(0)); else v.k = { num(0), num(0) };
        D a = make(t, v), b = make(t, v);
        Path p = h == 0 ? Path{} : h == 4 ? Path{ 0 } : Path{ 1 };
        reach(b->ref(), t, v, p, 0, [&](WritableDynamicDataRef w) { prim(k, [&](auto tag) { using X = typename decltype(tag)::type; if constexpr (std::is_floating_point<X>::value) w.value<X>(X(-0.0)); return 0; }); });
        MC_CHECK(*a == *b && !(*a != *b), "0.0 and -0.0 are not equal");
        MC_CHECK(a->hash() == b->hash(), "equal values 0.0 and -0.0 hash differently");
        if (h == 0) { T mt = map_t(f, u8); D mp = std::make_unique<DynamicData>(mt->rt()); (*mp)[*a] = uint8_t(4); MC_CHECK(mp->has_key(*b) && uint8_t(mp->at(*b)) == 4, "map key -0.0"); (*mp)[*b] = uint8_t(5); MC_CHECK(mp->size() == 1 && uint8_t(mp->at(*a)) == 5, "0.0 and -0.0 are different keys"); }
        run.state(); run.transition(2); run.trace();
    });
    // long double: padding bytes
    for (int h = 0; h < 4; ++h) run.test(cat("f128 padding/", h), [&]
    {
        T f = prim_t(F128), t = h == 0 ? f : h == 1 ? arr_t(f, 2) : h == 2 ? struct_t({ f, f }) : seq_t(f, 2);
        for (real_t x : { 0.0L, 1.0L, -2.5L, 1e300L })
        {
            auto put = [&](int dirt) { D d = std::make_unique<DynamicData>(t->rt()); if (h == 3) d->resize(2); auto w = [&](WritableDynamicDataRef r) { alignas(16) unsigned char buf[sizeof(long double)]; memset(buf, dirt, sizeof buf); *reinterpret_cast<volatile long double*>(buf) = x; r.value<long double>(*reinterpret_cast<long double*>(buf)); }; if (h == 0) w(d->ref()); else for (int i = 0; i < 2; ++i) w((*d)[i]); return d; };
            D a = put(0), b = put(0xff);
            MC_CHECK(*a == *b, "same value, other padding: not equal"); MC_CHECK(a->hash() == b->hash(), "same value, other padding: other hash");
            run.transition(2);
        }
        run.state(); run.trace();
    });
}
// sizes around the limits of narrower counters: values that differ at one place
SUITE(big)
{
    for (auto& b : bigs()) run.test(name(b), [&]
    {
        D x = make(b.t, b.v, 0), y = make(b.t, b.v, 1);
        MC_CHECK(*x == *y && !(*x != *y) && x->hash() == y->hash(), "equal values are not equal or hash differently");
        if (b.t->k == SEQ || b.t->k == MAP) { Val w = b.v; w.k.pop_back(); D z = make(b.t, w); MC_CHECK(*x != *z && *z != *x && x->hash() != z->hash(), "one without the last element"); }
        if (b.t->k == SEQ) for (int cut : { 128, 256, 512, 65536 }) if (int(b.v.k.size()) > cut) { Val w = b.v; w.k.resize(w.k.size() - cut); D z = make(b.t, w); MC_CHECK(*x != *z && *z != *x && x->hash() != z->hash(), "one without the last ", cut, " elements"); }
        for (auto& p : b.spots)
        {
            T lt = leaf_at(b.t, b.v, p); run.note(show_path(p));
            std::vector<Val> others; if (!is_str(lt->k)) others = { num(121) }; else { const Val& o = sub(b.t, const_cast<Val&>(b.v), p); for (int i : marks(int(o.s.size()))) { Val w = o; w.s[i] = U'#'; others.push_back(w); } { Val w = o; w.s.pop_back(); others.push_back(w); } for (size_t cut : { 128, 256, 65536 }) if (o.s.size() > cut) { Val w = o; w.s.resize(w.s.size() - cut); others.push_back(w); } }
            for (auto& o : others)
            {
                Val w = b.v; sub(b.t, w, p) = o; reach(y->ref(), b.t, w, p, 0, [&](WritableDynamicDataRef r) { write_leaf(r, lt, o); });
                MC_CHECK(*x != *y && *y != *x && !(*x == *y), "values that differ at ", show_path(p), " are equal"); MC_CHECK(x->hash() != y->hash(), "values that differ at ", show_path(p), " hash equally"); run.transition();
            }
            reach(y->ref(), b.t, b.v, p, 0, [&](WritableDynamicDataRef r) { write_leaf(r, lt, sub(b.t, const_cast<Val&>(b.v), p)); });
            MC_CHECK(*x == *y && x->hash() == y->hash(), "after writing the old value again at ", show_path(p));
        }
        run.state(); run.trace();
    });
}
MC_MAIN
