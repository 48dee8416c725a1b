// C01: a sequence behaves like a vector under every operation history
#include "model.hpp"
#include "tree.hpp"
using namespace m; using mc::refused_rt;

template<class X> std::vector<X> native_vec(const ReadableDynamicDataRef& r) { return r.as_vector<X>(); }

// every observation of a sequence must agree with the model vector
static void observe(const DynamicData& d, const T& t, const Val& v)
{
    expect(d, t, v, "sequence content");
    MC_CHECK(d.size() == v.k.size(), "size() is ", d.size(), " expected ", v.k.size());
    MC_CHECK(d.bounds() == t->bound, "bounds() is ", d.bounds());
    size_t i = 0;
    for (ReadableDynamicDataRef e : d.cref())
    {
        MC_CHECK(i < v.k.size(), "iteration yields too many elements");
        MC_CHECK(read(e, t->a) == v.k[i], "iteration yields a different element at ", i);
        MC_CHECK(e.instance_id() == d[i].instance_id(), "iteration and index disagree on element ", i);
        ++i;
    }
    MC_CHECK(i == v.k.size(), "iteration yields ", i, " of ", v.k.size(), " elements");
    WritableDynamicDataRef w = d.ref(); i = 0;
    for (WritableDynamicDataRef e : w) { MC_CHECK(read(e, t->a) == v.k[i], "writable iteration differs at ", i); ++i; }
    MC_CHECK(refused_rt([&] { auto r = d[v.k.size()]; (void)r; }), "index size() is not refused");
    MC_CHECK(refused_rt([&] { auto r = d.ref()[v.k.size() + 3]; (void)r; }), "index size()+3 is not refused");
    K ck = rget(t->a)->k;
    if (is_num(ck) && !is_enum(ck))
        prim(ck, [&](auto tag) { using X = typename decltype(tag)::type;
            if constexpr (!std::is_same<X, bool>::value) {
                std::vector<X> x = d.as_vector<X>();
                MC_CHECK(x.size() == v.k.size(), "as_vector size ", x.size());
                for (size_t j = 0; j < x.size(); ++j) MC_CHECK(real_t(x[j]) == v.k[j].n, "as_vector differs at ", j);
            } return 0; });
    if (ck == STR) { auto x = d.as_vector<std::string>(); MC_CHECK(x.size() == v.k.size(), "as_vector size ", x.size());
        for (size_t j = 0; j < x.size(); ++j) MC_CHECK(x[j] == native_str<char>(v.k[j]), "as_vector differs at ", j); }
    if (ck == S16) { auto x = d.as_vector<std::u16string>(); MC_CHECK(x.size() == v.k.size(), "as_vector size ", x.size());
        for (size_t j = 0; j < x.size(); ++j) MC_CHECK(x[j] == native_str<char16_t>(v.k[j]), "as_vector differs at ", j); }
}

static bool push_native(WritableDynamicDataRef w, const T& c0, const Val& v)
{
    const T& c = rget(c0);
    if (is_enum(c->k)) return false;
    if (is_num(c->k)) { prim(c->k, [&](auto tag) { using X = typename decltype(tag)::type; w.push(X(v.n)); return 0; }); return true; }
    if (c->k == STR) { w.push(native_str<char>(v)); return true; }
    if (c->k == WSTR) { w.push(native_str<wchar_t>(v)); return true; }
    if (c->k == S16) { w.push(native_str<char16_t>(v)); return true; }
    return false;
}

struct Sys
{
    T t; Val v; std::unique_ptr<DynamicData> d; std::vector<Val> e;
    explicit Sys(const T& t) : t(t), d(new DynamicData(t->rt())), e(samples(t->a, 4)) {}
    static const int NOPS = 14;
    std::string op_name(int o) const
    {
        static const char* n[NOPS] = { "pushA", "pushB", "pushNative", "pushOwnFirst", "resize+1", "resize+2", "resizeDown", "setLast", "copy", "move",
            "assignToFresh", "assignToFilled", "compatCopy", "overBound" };
        return n[o];
    }
    bool full(size_t more = 1) const { return t->bound && v.k.size() + more > t->bound; }
    template<class F> void op(bool must_refuse, F f, const std::function<void()>& model)
    {
        if (must_refuse) MC_CHECK(mc::refused_rt(f), "operation beyond the bound is not refused");
        else { f(); model(); }
    }
    bool apply(int o)
    {
        const Val &A = e.size() > 1 ? e[1] : e[0], &B = e.back();
        switch (o)
        {
            case 0: case 1: { const Val& x = o ? B : A; auto el = make(t->a, x, o); op(full(), [&] { d->push(*el); }, [&] { v.k.push_back(x); }); return true; }
            case 2: { if (!is_num(rget(t->a)->k) && !is_str(rget(t->a)->k)) return false; if (is_enum(rget(t->a)->k)) return false;
                      op(full(), [&] { push_native(d->ref(), t->a, B); }, [&] { v.k.push_back(B); }); return true; }
            case 3: if (v.k.empty()) return false;
                    op(full(), [&] { d->push((*d)[0]); }, [&] { Val x = v.k[0]; v.k.push_back(x); }); return true;
            case 4: case 5: { size_t n = v.k.size() + (o - 3); op(full(o - 3), [&] { d->resize(n); }, [&] { v.k.resize(n, defaults(t->a)); }); return true; }
            case 6: d->resize(v.k.size()); if (!v.k.empty()) d->resize(v.k.size() - 1); d->resize(0); return true;
            case 7: { if (v.k.empty()) return false; auto el = make(t->a, B); (*d)[v.k.size() - 1] = el->ref(); v.k.back() = B; return true; }
            case 8: { std::unique_ptr<DynamicData> c(new DynamicData(*d)); d = std::move(c); return true; }
            case 9: { std::unique_ptr<DynamicData> c(new DynamicData(std::move(*d))); d = std::move(c); return true; }
            case 10: { std::unique_ptr<DynamicData> c(new DynamicData(t->rt())); *c = *d; d = std::move(c); return true; }
            case 11: { Val f = samples(t, 6).back(); auto c = make(t, f); *c = *d; d = std::move(c); return true; }
            case 12: { std::unique_ptr<DynamicData> c(new DynamicData(*d, t->rt())); d = std::move(c); return true; }
            case 13: { if (!t->bound) return false; MC_CHECK(mc::refused_rt([&] { d->resize(t->bound + 1); }), "resize beyond the bound is not refused");
                       MC_CHECK(mc::refused_rt([&] { d->resize(t->bound * 2 + 5); }), "resize beyond the bound is not refused"); return true; }
        }
        return false;
    }
    void check() { observe(*d, t, v); auto f = make(t, v, 1); MC_CHECK(*f == *d && *d == *f && !(*d != *f), "not equal to the same content built directly"); }
};

static std::vector<T> contents()
{
    T str = str_t(STR), i32 = prim_t(I32);
    std::vector<T> r = { i32, str, prim_t(U8), struct_t({prim_t(U8), str}), seq_t(str), union_t(i32, { {{1}, str}, {{2}, i32, true} }), str_t(S16, 2),
        arr_t(str, 2), map_t(i32, str), alias_t(str), enum_t(E16), prim_t(F128), seq_t(i32, 2), str_t(WSTR), prim_t(C16), prim_t(BOOL), alias_t(seq_t(str, 2)) };
    if (mc::thorough()) for (K k : { I8, I16, U16, U32, I64, U64, F32, F64, C8, WC }) r.push_back(prim_t(k));
    return r;
}

SUITE(tree)
{
    std::vector<uint32_t> bounds = { 0, 1, 2, 3, 5 };
    int i = 0;
    for (auto& c : contents())
    {
        int depth = (i < 6 ? 4 : 3) + (mc::thorough() ? 1 : 0); ++i;
        for (uint32_t b : bounds)
        {
            T t = seq_t(c, b);
            if (depth == 4 && b && i > 3 && !mc::thorough()) { mc::tree(run, t->desc, Sys::NOPS, 3, [&] { return std::make_unique<Sys>(t); }); continue; }
            mc::tree(run, t->desc, Sys::NOPS, depth, [&] { return std::make_unique<Sys>(t); });
        }
    }
}

// histories that reach larger sizes: p pushes, one operation, q pushes, for every p, q and operation
SUITE(grow)
{
    size_t N = mc::thorough() ? 40 : 18, Q = mc::thorough() ? 20 : 6;
    for (auto& c : contents()) for (uint32_t b : { 0u, 7u, 16u, 17u }) for (int op = 3; op < 13; ++op)
    {
        T t = seq_t(c, b);
        Sys probe(t);
        run.test(cat(t->desc, "/", probe.op_name(op)), [&]
        {
            auto es = samples(c, 4);
            for (size_t p = 0; p <= N; ++p) for (size_t q : { size_t(0), size_t(1), Q })
            {
                run.note(cat(p, " pushes, ", probe.op_name(op), ", ", q, " pushes"));
                auto go = [&](bool chk)
                {
                    Sys s(t);
                    auto push = [&](size_t i) { const Val& x = es[i % es.size()]; auto el = make(c, x); s.op(s.full(), [&] { s.d->push(*el); }, [&] { s.v.k.push_back(x); }); run.transition(); };
                    for (size_t i = 0; i < p; ++i) push(i);
                    if (!s.apply(op)) return;
                    for (size_t i = 0; i < q; ++i) push(p + i + 1);
                    if (chk) s.check();
                };
                go(true); run.trace(); run.state();
                if (q == Q) { long l; { long b0 = mc::live_allocs().load(); go(false); l = mc::live_allocs().load() - b0; } if (l) l = mc::leaked([&] { go(false); });
                    MC_CHECK(l == 0, "history leaves ", l, " allocation(s) behind"); }
            }
        });
    }
}

// two sequences must not influence each other: all short two-slot histories
struct Two
{
    T t; Val v[2]; std::unique_ptr<DynamicData> d[2]; std::vector<Val> e;
    explicit Two(const T& t) : t(t), e(samples(t->a, 4)) { for (auto& x : d) x.reset(new DynamicData(t->rt())); }
    static const int NOPS = 10;
    std::string op_name(int o) const { static const char* n[NOPS] = { "push0", "push1", "resize0", "resize1", "0=1", "1=0", "push1(0[0])", "set0", "1=copy(0)", "0=move(1)" }; return n[o]; }
    bool apply(int o)
    {
        const Val& A = e.size() > 1 ? e[1] : e[0];
        switch (o)
        {
            case 0: case 1: { const Val& x = o ? A : e.back(); if (t->bound && v[o].k.size() >= t->bound) return false; auto el = make(t->a, x); d[o]->push(*el); v[o].k.push_back(x); return true; }
            case 2: case 3: { int s = o - 2; size_t n = v[s].k.size() + 2; if (t->bound && n > t->bound) return false; d[s]->resize(n); v[s].k.resize(n, defaults(t->a)); return true; }
            case 4: *d[0] = *d[1]; v[0] = v[1]; return true;
            case 5: *d[1] = *d[0]; v[1] = v[0]; return true;
            case 6: { if (v[0].k.empty() || (t->bound && v[1].k.size() >= t->bound)) return false; d[1]->push((*d[0])[0]); v[1].k.push_back(v[0].k[0]); return true; }
            case 7: { if (v[0].k.empty()) return false; auto el = make(t->a, A); (*d[0])[0] = el->ref(); v[0].k[0] = A; return true; }
            case 8: d[1].reset(new DynamicData(*d[0])); v[1] = v[0]; return true;
            case 9: d[0].reset(new DynamicData(std::move(*d[1]))); v[0] = v[1]; d[1].reset(new DynamicData(t->rt())); v[1] = Val{}; return true;
        }
        return false;
    }
    void check() { for (int i = 0; i < 2; ++i) observe(*d[i], t, v[i]); MC_CHECK((*d[0] == *d[1]) == (v[0] == v[1]), "comparison of the two sequences"); }
};
SUITE(two)
{
    T str = str_t(STR), i32 = prim_t(I32);
    for (auto& c : std::vector<T>{ i32, str, struct_t({prim_t(U8), str}), seq_t(str), union_t(i32, { {{1}, str}, {{2}, i32, true} }) })
        for (uint32_t b : { 0u, 3u })
        {
            T t = seq_t(c, b);
            mc::tree(run, t->desc, Two::NOPS, mc::thorough() ? 5 : 4, [&] { return std::make_unique<Two>(t); });
        }
}
// sizes around the limits of narrower counters, reached in different ways
SUITE(big)
{
    T u8 = prim_t(U8), str = str_t(STR);
    for (auto& c : std::vector<T>{ u8, prim_t(I16), str, struct_t({ u8, str }), seq_t(u8) })
        for (size_t n : { 127u, 128u, 129u, 255u, 256u, 257u, 512u, 1025u, 32769u, 65536u, 65537u })
        {
            if (n > 2000 && c->k != U8) continue;
            for (size_t b : { size_t(0), n, n + 1, n + 200 }) run.test(cat(seq_t(c, uint32_t(b))->desc, "/", n), [&]
            {
                T t = seq_t(c, uint32_t(b)); auto es = distinct(c, 5);
                auto el = [&](size_t i) -> const Val& { return es[(i + i / 256 + i / 65536) % es.size()]; };
                for (int way = 0; way < 4; ++way)
                {
                    DynamicData d(t->rt()); Val v; run.note(cat("way ", way));
                    auto push = [&](size_t i) { auto x = make(c, el(i)); d.push(*x); v.k.push_back(el(i)); };
                    if (way == 0) for (size_t i = 0; i < n; ++i) push(i);
                    else if (way == 1) { d.resize(n); v.k.resize(n, defaults(c)); for (size_t i = 0; i < n; i += 1 + n / 300) { auto x = make(c, el(i)); d[i] = *x; v.k[i] = el(i); } }
                    else if (way == 2) { for (size_t i = 0; i < n / 2; ++i) push(i); d.resize(n - 1); v.k.resize(n - 1, defaults(c)); push(n); }
                    else { for (size_t i = 0; i + 1 < n; ++i) push(i); DynamicData e(d); d = e; push(n); DynamicData f(std::move(e)); }
                    observe(d, t, v); run.transition(n);
                    if (b == n) { auto x = make(c, el(0)); MC_CHECK(refused_rt([&] { d.push(*x); }) && refused_rt([&] { d.resize(n + 1); }) && refused_rt([&] { d.resize(n + 256); }), "the bound ", b, " is exceeded"); observe(d, t, v); }
                    else { push(1); observe(d, t, v); }
                }
                run.state(); run.trace();
            });
        }
}
MC_MAIN
