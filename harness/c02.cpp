// C02: a map behaves like an associative array under every operation history
#include "model.hpp"
#include "tree.hpp"
using namespace m; using mc::refused_rt;

static Val kv(const Val& k, const Val& v) { Val p; p.k = { k, v }; return p; }
static int find(const Val& m, const Val& k) { for (size_t i = 0; i < m.k.size(); ++i) if (m.k[i].k[0] == k) return int(i); return -1; }
static void put(Val& m, const Val& k, const Val& v) { int i = find(m, k); if (i >= 0) m.k[i].k[1] = v; else { m.k.push_back(kv(k, v)); sort_map(m); } }

// every observation of a map must agree with the model
static void observe(const DynamicData& d, const T& t, const Val& v, const std::vector<Val>& keys)
{
    expect(d, t, v, "map content");
    MC_CHECK(d.size() == v.k.size(), "size() is ", d.size(), " expected ", v.k.size());
    MC_CHECK(d.bounds() == t->bound, "bounds() is ", d.bounds());
    WritableDynamicDataRef w = d.ref();
    for (auto& k : keys)
    {
        auto key = make(t->a, k, 1);
        int i = find(v, k);
        MC_CHECK(w.has_key(*key) == (i >= 0), "has_key(", show(t->a, k), ") is ", w.has_key(*key));
        if (i >= 0)
        {
            ReadableDynamicDataRef r = d.cref().at(*key); WritableDynamicDataRef x = w.at(*key);
            MC_CHECK(read(r, t->b) == v.k[i].k[1], "at(", show(t->a, k), ") gives ", show(t->b, read(r, t->b)));
            MC_CHECK(r.instance_id() == x.instance_id(), "at() and writable at() differ");
            WritableDynamicDataRef y = w[*key];
            MC_CHECK(y.instance_id() == r.instance_id(), "operator[] of a present key is not at()");
        }
        else
        {
            MC_CHECK(refused_rt([&] { auto r = d.cref().at(*key); (void)r; }), "at() of the absent key ", show(t->a, k), " is not refused");
            MC_CHECK(refused_rt([&] { auto r = w.at(*key); (void)r; }), "writable at() of an absent key is not refused");
        }
    }
    MC_CHECK(d.size() == v.k.size(), "lookups changed the size");
    std::set<size_t> ids; size_t n = 0; Val seen;
    for (WritableDynamicDataRef p : w) { ids.insert(p.instance_id()); seen.k.push_back(kv(read(p[0], t->a), read(p[1], t->b))); ++n; }
    sort_map(seen);
    MC_CHECK(n == v.k.size() && ids.size() == n && seen == v, "writable iteration does not visit every pair exactly once");
    MC_CHECK(refused_rt([&] { auto r = d.cref()[size_t(0)]; (void)r; }), "index access to a map is not refused");
}

static std::unique_ptr<DynamicData> pair_data(const T& t, const Val& k, const Val& v)
{
    auto p = std::make_unique<DynamicData>(xt::PairType(t->a->rt(), t->b->rt()));
    fill((*p)[0], t->a, k); fill((*p)[1], t->b, v);
    return p;
}

struct Sys
{
    T t; Val v; std::unique_ptr<DynamicData> d; std::vector<Val> ks, es;
    explicit Sys(const T& t) : t(t), d(new DynamicData(t->rt())), ks(distinct(t->a, 4)), es(samples(t->b, 4)) {}
    static const int NOPS = 15;
    std::string op_name(int o) const
    {
        static const char* n[NOPS] = { "m[k0]=A", "m[k1]=B", "m[k2]=A", "m[k3]", "insert(k0,B)", "insert(k1,A)", "insert(k2,B)", "at(k0)=B", "lastPair[1]=A",
            "copy", "move", "assignToFresh", "assignToFilled", "compatCopy", "insert(ownPair)" };
        return n[o];
    }
    bool full() const { return t->bound && v.k.size() >= t->bound; }
    void set(size_t ki, const Val* e)
    {
        auto key = make(t->a, ks[ki % ks.size()]);
        bool present = find(v, ks[ki % ks.size()]) >= 0;
        auto f = [&] { WritableDynamicDataRef r = (*d)[*key]; if (e) { auto x = make(t->b, *e); r = x->ref(); } };
        if (!present && full()) { MC_CHECK(refused_rt(f), "a new key beyond the bound is not refused"); return; }
        f();
        const Val& k = ks[ki % ks.size()];
        if (e) put(v, k, *e); else if (!present) put(v, k, defaults(t->b));
    }
    void insert(size_t ki, const Val& e)
    {
        const Val& k = ks[ki % ks.size()];
        auto p = pair_data(t, k, e);
        bool expect_ok = find(v, k) < 0 && !full();
        bool ok = d->insert(*p);
        MC_CHECK(ok == expect_ok, "insert(", show(t->a, k), ") returns ", ok);
        if (ok) put(v, k, e);
        Val pk = read((*p)[0], t->a), pv = read((*p)[1], t->b);
        MC_CHECK(pk == k && pv == e, "insert changed the given pair");
    }
    bool apply(int o)
    {
        const Val &A = es.size() > 1 ? es[1] : es[0], &B = es.back();
        switch (o)
        {
            case 0: set(0, &A); return true;
            case 1: set(1, &B); return true;
            case 2: if (ks.size() < 3) return false; set(2, &A); return true;
            case 3: if (ks.size() < 4) return false; set(3, nullptr); return true;
            case 4: insert(0, B); return true;
            case 5: insert(1, A); return true;
            case 6: if (ks.size() < 3) return false; insert(2, B); return true;
            case 7: { if (find(v, ks[0]) < 0) return false; auto key = make(t->a, ks[0]); auto x = make(t->b, B); d->at(*key) = x->ref(); put(v, ks[0], B); return true; }
            case 8: { if (v.k.empty()) return false;
                      std::unique_ptr<WritableDynamicDataRef> last; WritableDynamicDataRef w = d->ref();
                      for (WritableDynamicDataRef p : w) last.reset(new WritableDynamicDataRef(p));
                      Val k = read((*last)[0], t->a); auto x = make(t->b, A); (*last)[1] = x->ref(); put(v, k, A); return true; }
            case 9: { std::unique_ptr<DynamicData> c(new DynamicData(*d)); d = std::move(c); return true; }
            case 10: { std::unique_ptr<DynamicData> c(new DynamicData(std::move(*d))); d = std::move(c); return true; }
            case 11: { std::unique_ptr<DynamicData> c(new DynamicData(t->rt())); *c = *d; d = std::move(c); return true; }
            case 12: { Val f = samples(t, 6).back(); auto c = make(t, f); *c = *d; d = std::move(c); return true; }
            case 13: { std::unique_ptr<DynamicData> c(new DynamicData(*d, t->rt())); d = std::move(c); return true; }
            case 14: { if (v.k.empty()) return false; auto it = d->cref().begin(); bool ok = d->insert(*it); MC_CHECK(!ok, "insert of a present pair returns true"); return true; }
        }
        return false;
    }
    void check()
    {
        observe(*d, t, v, ks);
        auto f = make(t, v, 1);
        MC_CHECK(*f == *d && *d == *f && !(*d != *f), "not equal to the same content built in another order");
        MC_CHECK(f->hash() == d->hash(), "hash differs from the one of the same content built in another order");
    }
};

static std::vector<T> key_types()
{
    T str = str_t(STR), i32 = prim_t(I32), u8 = prim_t(U8);
    return { u8, str, i32, struct_t({u8, str}), seq_t(str), arr_t(i32, 2), union_t(i32, { {{1, 4}, str}, {{2}, i32} }), enum_t(E16), str_t(S16), prim_t(F64),
             alias_t(str), struct_t({i32, prim_t(I64)}), arr_t(str, 2), seq_t(i32), map_t(u8, str), str_t(WSTR), enum_t(E32), enum_t(E8), prim_t(F128), prim_t(C16), prim_t(I64), prim_t(BOOL),
             union_t(enum_t(E8), { {{1}, u8}, {{5, 9}, str}, {{}, u8, true} }), seq_t(struct_t({str, u8})), alias_t(struct_t({u8})), prim_t(F32), prim_t(I16), prim_t(U64), prim_t(I8), prim_t(U16), prim_t(U32), prim_t(C8), prim_t(WC) };
}
static std::vector<T> value_types()
{
    T str = str_t(STR), i32 = prim_t(I32);
    return { i32, str, struct_t({prim_t(U8), str}), seq_t(str), map_t(prim_t(U8), str), union_t(i32, { {{1}, str}, {{2}, i32, true} }), alias_t(seq_t(i32, 2)) };
}

SUITE(tree)
{
    auto ks = key_types(); auto vs = value_types(); int dd = mc::thorough() ? 1 : 0;
    auto go = [&](const T& t, int depth) { mc::tree(run, t->desc, Sys::NOPS, depth, [&] { return std::make_unique<Sys>(t); }); };
    for (uint32_t b : { 0u, 2u, 3u }) go(map_t(prim_t(U8), str_t(STR), b), 4 + dd);
    go(map_t(str_t(STR), prim_t(I32)), 4 + dd);
    for (size_t i = 0; i < ks.size(); ++i) for (uint32_t b : { 0u, 1u, 3u }) go(map_t(ks[i], vs[i % vs.size()], b), (b == 1 ? 2 : 3) + dd);
    for (auto& v : vs) for (uint32_t b : { 0u, 2u }) go(map_t(str_t(STR), v, b), 3 + dd);
}

// every order of insertion of n keys, by either insertion operation
SUITE(orders)
{
    size_t n = mc::thorough() ? 7 : 6;
    for (auto& kt : key_types()) for (int how = 0; how < 3; ++how)
    {
        T t = map_t(kt, how == 1 ? str_t(STR) : prim_t(I32), how == 2 ? uint32_t(n - 1) : 0);
        run.test(cat(t->desc, "/", how), [&]
        {
            auto ks = distinct(kt, n); auto es = distinct(t->b, n);
            std::vector<size_t> p; for (size_t i = 0; i < ks.size(); ++i) p.push_back(i);
            do
            {
                DynamicData d(t->rt()); Val v; std::string order; for (size_t i : p) order += cat(i, " ");
                run.note("insertion order " + order);
                for (size_t j = 0; j < p.size(); ++j)
                {
                    size_t i = p[j]; bool full = t->bound && v.k.size() >= t->bound;
                    if ((i + how) % 2) { auto pr = pair_data(t, ks[i], es[i]); bool ok = d.insert(*pr); MC_CHECK(ok == !full, "insert returns ", ok); }
                    else
                    {
                        auto k = make(kt, ks[i]);
                        auto f = [&] { WritableDynamicDataRef r = d[*k]; write_leaf(r, t->b, es[i]); };
                        if (full) MC_CHECK(refused_rt(f), "a key beyond the bound is not refused"); else f();
                    }
                    if (!full) put(v, ks[i], es[i]);
                    run.transition();
                }
                observe(d, t, v, ks);
                auto f = make(t, v);
                MC_CHECK(*f == d && f->hash() == d.hash(), "the order of insertion shows in == or hash()");
                run.trace(); run.state();
            }
            while (std::next_permutation(p.begin(), p.end()));
        });
    }
}

// many keys: complete 8-bit domain and 1000 keys of wider types, in several systematic orders, checked after each insertion batch
SUITE(many)
{
    struct C { T k; size_t n; };
    size_t big = mc::thorough() ? 3000 : 1000;
    for (auto& c : std::vector<C>{ {prim_t(U8), 256}, {prim_t(I8), 256}, {prim_t(C8), 128}, {prim_t(I32), big}, {prim_t(U16), big}, {prim_t(I64), big}, {str_t(STR), big}, {prim_t(F64), big}, {struct_t({prim_t(U8), str_t(STR)}), 300} })
        for (int order = 0; order < 5; ++order) for (int how = 0; how < 2; ++how)
        {
            T t = map_t(c.k, prim_t(U32));
            run.test(cat(t->desc, "/", order, "/", how), [&]
            {
                std::vector<Val> ks;
                if (is_num(c.k->k) && c.k->k != F64)
                    prim(c.k->k, [&](auto tag) { using X = typename decltype(tag)::type; for (size_t i = 0; i < c.n; ++i) ks.push_back(num(real_t(X(c.n <= 256 ? i : i * 61 - (i % 2) * 7)))); return 0; });
                else if (c.k->k == F64) for (size_t i = 0; i < c.n; ++i) ks.push_back(num(real_t(i) * 0.25 - 10));
                else if (c.k->k == STR) for (size_t i = 0; i < c.n; ++i) ks.push_back(text("key" + std::to_string(i)));
                else for (size_t i = 0; i < c.n; ++i) { Val v; v.k = { num(i % 16), text(std::to_string(i / 16)) }; ks.push_back(v); }
                size_t n = ks.size();
                auto at = [&](size_t i) { switch (order) { case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; case 3: return (i * 7 + 3) % n == i ? i : (n % 7 ? (i * 7 + 3) % n : i); default: return (n / 2 + (i % 2 ? n - (i + 1) / 2 : i / 2)) % n; } };
                DynamicData d(t->rt()); std::set<Val> in;
                for (size_t i = 0; i < n; ++i)
                {
                    const Val& k = ks[at(i)];
                    auto key = make(c.k, k);
                    bool fresh = in.insert(k).second;
                    if (how) { auto p = pair_data(t, k, num(real_t(at(i)))); MC_CHECK(d.insert(*p) == fresh, "insert of key ", i); }
                    else d[*key] = uint32_t(at(i));
                    MC_CHECK(d.size() == in.size(), "size() after ", i + 1, " keys is ", d.size());
                    run.transition();
                }
                for (size_t i = 0; i < n; ++i)
                {
                    auto key = make(c.k, ks[i]);
                    MC_CHECK(d.has_key(*key) && d.at(*key).value<uint32_t>() == i, "value of key ", show(c.k, ks[i]));
                    run.transition();
                }
                std::set<uint32_t> seen;
                for (ReadableDynamicDataRef p : d.cref()) { uint32_t i = p[1].value<uint32_t>(); MC_CHECK(i < n && read(p[0], c.k) == ks[i], "pair has a wrong value"); MC_CHECK(seen.insert(i).second, "a pair is visited twice"); }
                MC_CHECK(seen.size() == n, "iteration visits ", seen.size(), " of ", n);
                DynamicData copy(d); MC_CHECK(copy == d && copy.size() == n, "copy");
                run.trace(); run.state(n);
            });
        }
}

// bounds around the limits of narrower counters: the last key that fits and the first one that does not, by either operation
SUITE(bounds)
{
    struct C { T k; uint32_t b; };
    std::vector<C> cs; for (uint32_t b : { 1u, 2u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 1000u }) for (auto& k : { prim_t(U16), prim_t(I32), str_t(STR) }) cs.push_back({ k, b });
    for (uint32_t b : { 32768u, 65536u }) cs.push_back({ prim_t(U32), b });
    for (auto& c : cs) for (int how = 0; how < 4; ++how)
    {
        T t = map_t(c.k, prim_t(U32), c.b); uint32_t n = c.b; bool large = n > 2000; if (large && how != (n > 40000 ? 0 : 2) && !mc::thorough()) continue;
        run.test(cat(t->desc, "/", how), [&]
        {
            auto key = [&](uint32_t i) { return make(c.k, c.k->k == STR ? text(cat("key ", i)) : num(i)); };
            DynamicData d(t->rt());
            auto put = [&](uint32_t i, bool ins) { auto k = key(i); if (ins) { auto p = std::make_unique<DynamicData>(xt::PairType(c.k->rt(), t->b->rt())); fill((*p)[0], c.k, c.k->k == STR ? text(cat("key ", i)) : num(i)); (*p)[1] = i * 3; return d.insert(*p); } return !refused_rt([&] { d[*k] = i * 3; }); };
            for (uint32_t i = 0; i < n; ++i)
            {
                if (how == 2 && i == n / 2) { DynamicData e(d); d = e; }
                uint32_t x = how == 1 && !large ? n - 1 - i : i; MC_CHECK(put(x, how == 3 || (i + how) % 2), "key ", i, " of ", n, " is refused"); run.transition();
                if (!large || i % 4096 == 4095) MC_CHECK(d.size() == i + 1, "size is ", d.size(), " after ", i + 1, " keys");
            }
            auto all = [&](const DynamicData& d)
            {
                MC_CHECK(d.size() == n && d.bounds() == n, "size is ", d.size(), ", bounds ", d.bounds());
                for (uint32_t i = 0; i < n; i += large ? 97 : 1) { auto k = key(i); MC_CHECK(d.has_key(*k) && d.cref().at(*k).value<uint32_t>() == i * 3, "value of key ", i); }
                size_t seen = 0; for (ReadableDynamicDataRef p : d.cref()) { (void)p; ++seen; } MC_CHECK(seen == n, "iteration visits ", seen);
                for (uint32_t i : { n, n + 1, n + 128, n + 200 }) { auto k = key(i); MC_CHECK(!d.has_key(*k), "has_key of the absent ", i); }
            };
            all(d);
            for (uint32_t i : { n, n + 1, n + 128, n + 200 }) { MC_CHECK(!put(i, true), "insert of key ", i, " beyond the bound"); MC_CHECK(!put(i, false), "new key ", i, " beyond the bound"); }
            MC_CHECK(!put(0, true) && put(0, false) && !put(n / 2, true) && put(n / 2, false), "present keys of a full map");
            all(d); DynamicData e(d); all(e); MC_CHECK(e == d, "copy");
            run.trace(); run.state();
        });
    }
}

// two maps must not influence each other
struct Two
{
    T t; Val v[2]; std::unique_ptr<DynamicData> d[2]; std::vector<Val> ks, es;
    explicit Two(const T& t) : t(t), ks(distinct(t->a, 4)), es(samples(t->b, 4)) { for (auto& x : d) x.reset(new DynamicData(t->rt())); }
    static const int NOPS = 10;
    std::string op_name(int o) const { static const char* n[NOPS] = { "0[k0]=B", "1[k1]=A", "0[k2]", "1.insert(k0,A)", "0=1", "1=0", "1=copy(0)", "0=move(1)", "1.insert(pair of 0)", "0[k3]=1[k]" }; return n[o]; }
    bool put_ok(int i, const Val& k) { return find(v[i], k) >= 0 || !t->bound || v[i].k.size() < t->bound; }
    bool apply(int o)
    {
        const Val& A = es.size() > 1 ? es[1] : es[0];
        auto set = [&](int i, const Val& k, const Val& e) { if (!put_ok(i, k)) return false; auto key = make(t->a, k); auto x = make(t->b, e); (*d[i])[*key] = x->ref(); put(v[i], k, e); return true; };
        switch (o)
        {
            case 0: return set(0, ks[0], es.back());
            case 1: return set(1, ks[1], A);
            case 2: { const Val& k = ks[2 % ks.size()]; if (!put_ok(0, k)) return false; auto key = make(t->a, k); auto r = (*d[0])[*key]; (void)r; if (find(v[0], k) < 0) put(v[0], k, defaults(t->b)); return true; }
            case 3: { auto p = pair_data(t, ks[0], A); bool ok = d[1]->insert(*p); bool e = find(v[1], ks[0]) < 0 && put_ok(1, ks[0]); MC_CHECK(ok == e, "insert returns ", ok); if (ok) put(v[1], ks[0], A); return true; }
            case 4: *d[0] = *d[1]; v[0] = v[1]; return true;
            case 5: *d[1] = *d[0]; v[1] = v[0]; return true;
            case 6: d[1].reset(new DynamicData(*d[0])); v[1] = v[0]; return true;
            case 7: d[0].reset(new DynamicData(std::move(*d[1]))); v[0] = v[1]; d[1].reset(new DynamicData(t->rt())); v[1] = Val{}; return true;
            case 8: { if (v[0].k.empty()) return false; auto it = d[0]->cref().begin(); ReadableDynamicDataRef p = *it; Val k = read(p[0], t->a), e = read(p[1], t->b);
                      bool exp = find(v[1], k) < 0 && put_ok(1, k); MC_CHECK(d[1]->insert(p) == exp, "insert of a pair of another map"); if (exp) put(v[1], k, e); return true; }
            case 9: { if (v[1].k.empty() || !put_ok(0, ks.back())) return false; auto key = make(t->a, ks.back()); auto k1 = make(t->a, v[1].k[0].k[0]); (*d[0])[*key] = d[1]->at(*k1); put(v[0], ks.back(), v[1].k[0].k[1]); return true; }
        }
        return false;
    }
    void check() { for (int i = 0; i < 2; ++i) observe(*d[i], t, v[i], ks); MC_CHECK((*d[0] == *d[1]) == (v[0] == v[1]), "comparison of the two maps"); }
};
SUITE(two)
{
    T str = str_t(STR), i32 = prim_t(I32);
    for (auto& t : std::vector<T>{ map_t(i32, str), map_t(str, seq_t(str), 2), map_t(struct_t({prim_t(U8), str}), map_t(i32, str)), map_t(prim_t(U8), union_t(i32, { {{1}, str}, {{2}, i32, true} })) })
        mc::tree(run, t->desc, Two::NOPS, mc::thorough() ? 5 : 4, [&] { return std::make_unique<Two>(t); });
}
MC_MAIN
