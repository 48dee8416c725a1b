// C11: misuse is refused and leaves the data unchanged
#include "compat.hpp"
#include "big.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

template<class X> struct NTag { using type = X; };
template<class F> static void natives(F f)
{
    f(NTag<bool>(), BOOL); f(NTag<int8_t>(), I8); f(NTag<uint8_t>(), U8); f(NTag<int16_t>(), I16); f(NTag<uint16_t>(), U16); f(NTag<int32_t>(), I32); f(NTag<uint32_t>(), U32); f(NTag<int64_t>(), I64); f(NTag<uint64_t>(), U64);
    f(NTag<float>(), F32); f(NTag<double>(), F64); f(NTag<long double>(), F128); f(NTag<char>(), C8); f(NTag<char16_t>(), C16); f(NTag<wchar_t>(), WC); f(NTag<std::string>(), STR); f(NTag<std::wstring>(), WSTR); f(NTag<std::u16string>(), S16);
}
template<class X> static X some() { if constexpr (std::is_arithmetic<X>::value) return X(1); else return X(40, typename X::value_type('z')); }
// the values an enumeration may be given by a native of its width
static bool declared(const T& t, real_t n) { for (auto& e : t->en) if (real_t(e.second) == n) return true; return false; }

static const std::vector<T>& others()
{
    static std::vector<T> r;
    if (r.empty())
    {
        T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
        r = { u8, i32, prim_t(F64), prim_t(C8), str, str_t(STR, 2), str_t(WSTR), enum_t(E8), enum_t(E32), seq_t(str), seq_t(i32), seq_t(str, 2), arr_t(i32, 2), arr_t(str, 3), map_t(u8, str), map_t(str, i32, 2), struct_t({ str, u8 }), struct_t({ str }), struct_t({ seq_t(str), map_t(u8, str) }),
              union_t(i32, { {{1, 2}, str}, {{3}, u8} }), alias_t(str), alias_t(struct_t({ u8, str })) };
    }
    return r;
}

struct Abuse
{
    mc::Run& run; const T& whole; const Val& v; DynamicData& d; size_t n = 0;
    void same(const char* what) { expect(d, whole, v, cat("after the refused ", what)); }
    template<class F> void refuse(const char* what, F f)
    {
        if (!mc::refused_rt(f)) fail(cat("accepted: ", what));
        ++n; same(what);
    }
    void indices(WritableDynamicDataRef w, uint64_t size)
    {
        ReadableDynamicDataRef r = w.cref(); const uint64_t B = 1;
        std::vector<uint64_t> is{ size, size + 1, size + 255, size + 256, B << 31, (B << 31) + size, B << 32, B << 33, ~uint64_t(0), uint64_t(-2), B << 63, uint64_t(INT64_MIN) + 1 };
        if (size) for (uint64_t s : { 8, 16, 31, 32, 33, 40, 56, 63 }) { is.push_back(B << s); is.push_back((B << s) + size - 1); is.push_back((B << s) + size / 2); is.push_back(~uint64_t(0) << s); }
        for (uint64_t i : is) if (i >= size)
        {
            refuse("index", [&] { (void)w[i]; }); refuse("read-only index", [&] { (void)r[i]; });
            refuse("signed index", [&] { (void)w[int64_t(i)]; });
        }
        for (int i : { -1, -2, INT_MIN, INT_MAX }) { refuse("index of int", [&] { (void)w[i]; }); refuse("read-only index of int", [&] { (void)r[i]; }); }
        refuse("index of char", [&] { (void)w[int8_t(-1)]; }); refuse("index of short", [&] { (void)r[int16_t(-1)]; });
        if (size < 255) refuse("index of byte", [&] { (void)w[uint8_t(255)]; });
        if (size < 65535) refuse("index of 16 bits", [&] { (void)r[uint16_t(65535)]; });
        if (size < 0xffffffff) refuse("index of 32 bits", [&] { (void)w[uint32_t(0xffffffff)]; });
    }
    void node(WritableDynamicDataRef w, const T& t0, const Val& x)
    {
        const T& t = rget(t0); ReadableDynamicDataRef r = w.cref(); K k = t->k;
        natives([&](auto tag, K nk)
        {
            using X = typename decltype(tag)::type; X val = some<X>();
            bool fits = k == nk || (is_enum(k) && std::is_integral<X>::value && sizeof(X) == width(k));
            if (!fits)
            {
                refuse("reading of a native value", [&] { (void)r.value<X>(); }); refuse("reading of a native value", [&] { (void)w.template value<X>(); }); refuse("conversion to a native value", [&] { X y = r; (void)y; });
                refuse("writing of a native value", [&] { w.template value<X>(val); }); refuse("assignment of a native value", [&] { w = val; });
            }
            else if (is_enum(k)) if constexpr (std::is_integral<X>::value && !std::is_same<X, bool>::value)
                for (long i : { 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 100L, 127L, 128L, 200L, 255L, 256L, 65535L, 0x7fffffffL, -1L, -2L, -128L })
                {
                    X y = X(i); using U = typename std::make_unsigned<X>::type;
                    if (!declared(t, real_t(U(y)))) { refuse("undeclared value of an enumeration", [&] { w.template value<X>(y); }); refuse("undeclared value of an enumeration", [&] { w = y; }); }
                }
            bool element = (k == SEQ || k == ARR) && rget(t->a)->k == nk;
            if (!element || k != SEQ) refuse("push of a native value", [&] { w.push(val); });
            else if (t->bound && x.k.size() >= t->bound) refuse("push of a native value beyond the bound", [&] { w.push(val); });
            if constexpr (!std::is_same<X, bool>::value)
            {
                bool unit = (k == STR && nk == C8) || (k == WSTR && nk == WC) || (k == S16 && nk == C16);
                if (!element && !unit) refuse("as_vector()", [&] { (void)r.as_vector<X>(); });
            }
            if constexpr (std::is_arithmetic<X>::value) if (!is_num(k)) refuse("cast()", [&] { (void)r.cast<X>(); });
        });
        if (!is_num(k) && k != STR) refuse("cast() to text", [&] { (void)r.cast<std::string>(); });
        // containers
        bool coll = k == SEQ || k == ARR || k == MAP || is_str(k), aggr = k == STRUCT || k == UNION;
        if (!coll && !aggr) refuse("size()", [&] { (void)r.size(); });
        if (!coll) { refuse("bounds()", [&] { (void)w.bounds(); }); refuse("begin()", [&] { (void)w.begin(); }); refuse("end()", [&] { (void)w.end(); }); refuse("read-only begin()", [&] { (void)r.begin(); }); refuse("read-only end()", [&] { (void)r.end(); }); }
        if (!aggr) { refuse("items()", [&] { (void)w.items(); }); refuse("read-only items()", [&] { (void)r.items(); }); refuse("citems()", [&] { (void)w.citems(); }); }
        if (k == SEQ || k == ARR || k == STRUCT) indices(w, x.k.size());
        else if (is_str(k)) indices(w, x.s.size());
        else { for (uint64_t i : { 0, 1, 2, 100 }) { refuse("index", [&] { (void)w[i]; }); refuse("read-only index", [&] { (void)r[i]; }); } refuse("index", [&] { (void)w[-1]; }); }
        // members
        for (std::string n : { "", "no such member", "M0", "m", "m00", "m0 ", " m0", "u", "discriminator", "first", "0", "size", "m99" })
        {
            bool has = false; if (aggr) for (auto& y : t->mem) has |= y.name == n;
            if (has) continue;
            refuse("unknown member", [&] { (void)w[n]; }); refuse("unknown member", [&] { (void)w[n.c_str()]; }); refuse("unknown member", [&] { (void)r[n]; }); refuse("unknown member", [&] { (void)r[n.c_str()]; }); refuse("unknown member", [&] { (void)w.get_member(n); });
        }
        if (aggr && !t->mem.empty()) { std::string n = t->mem[0].name; n += '\0'; refuse("unknown member", [&] { (void)w[n]; }); refuse("unknown member", [&] { (void)r[n]; }); }
        if (k == UNION)
        {
            for (int i = 0; i < int(t->mem.size()); ++i) if (i != x.sel)
            {
                auto& n = t->mem[i].name; refuse("reading of another member", [&] { (void)r[n]; }); refuse("reading of another member", [&] { (void)r[n.c_str()]; }); refuse("get_member() of another member", [&] { (void)w.get_member(n); });
                if (x.sel >= 0) for (auto l : t->mem[i].labels) { refuse("label of another member", [&] { w.d(l); }); if (is_num(rget(t->a)->k)) { D ld = make(t->a, num(real_t(l))); refuse("label of another member", [&] { w.d(*ld); }); } }
            }
            if (x.sel < 0) refuse("current_case()", [&] { (void)r.current_case(); });
            for (int64_t l : { 77, 99, 101 }) if (label_owner(*t, real_t(l)) < 0)
            { if (default_member(*t) >= 0) refuse("value that is nobody's label", [&] { w.d(l); }); else { try { w.d(l); } catch (const std::runtime_error&) {} same("value that is nobody's label"); } }
            for (auto& o : { str_t(STR), seq_t(prim_t(U8)), struct_t({ str_t(STR), prim_t(U8) }) }) { D od = make(o, samples(o, 3).back()); refuse("discriminator of another type", [&] { w.d(*od); }); }
        }
        else { refuse("d()", [&] { (void)r.d(); }); refuse("d(1)", [&] { w.d(1); }); D od = make(prim_t(I32), num(1)); refuse("d(data)", [&] { w.d(*od); }); refuse("current_case()", [&] { (void)r.current_case(); }); }
        if (k == SEQ)
        {
            if (t->bound)
            {
                uint64_t b = t->bound;
                for (uint64_t s : { b + 1, b + 2, b * 2 + 1, uint64_t(1) << 32, (uint64_t(1) << 32) + 1, (uint64_t(1) << 32) + b, uint64_t(1) << 40, ~uint64_t(0), uint64_t(1) << 63 }) refuse("resize() beyond the bound", [&] { w.resize(s); });
                if (x.k.size() >= b) for (auto& e : samples(t->a, 3)) { D ed = make(t->a, e); refuse("push() beyond the bound", [&] { w.push(*ed); }); }
            }
        }
        else for (size_t s : { 0, 1, 2, 1000 }) refuse("resize()", [&] { w.resize(s); });
        // data of other types
        for (auto& o : others())
        {
            unsigned c = compat(t, o); D od = make(o, samples(o, 3).back(), int(n));
            if (c) refuse("assignment", [&] { w = od->ref(); });
            if (c == NONE) refuse("conversion", [&] { DynamicData y(*od, t->rt()); });
            if (compat(o, t)) { D ok = make(o, samples(o, 3).back()); refuse("assignment from", [&] { *ok = r; }); expect(*ok, o, samples(o, 3).back(), "the target of a refused assignment"); }
            if (compat(o, t) == NONE) refuse("conversion from", [&] { DynamicData y(r, o->rt()); });
            if (k != SEQ || compat(t->a, o)) refuse("push of data", [&] { w.push(*od); });
            if (k != MAP || compat(t->a, o)) { refuse("[key]", [&] { (void)w[od->cref()]; }); refuse("at()", [&] { (void)w.at(*od); }); refuse("read-only at()", [&] { (void)r.at(*od); }); refuse("has_key()", [&] { (void)w.has_key(*od); }); }
            refuse("insert()", [&] { w.insert(*od); });
            if (k == MAP && compat(t->a, o))
            {
                xt::PairType pt(o->rt(), t->b->rt()); DynamicData p(pt); refuse("insert() of a pair with another key", [&] { w.insert(p); });
            }
            if (k == MAP && compat(t->b, o)) { xt::PairType pt(t->a->rt(), o->rt()); DynamicData p(pt); refuse("insert() of a pair with another value", [&] { w.insert(p); }); }
        }
        if (k == MAP) for (auto& key : distinct(t->a, 8))
        {
            bool in = false; for (auto& p : x.k) in |= p.k[0] == key;
            D kd = make(t->a, key); DynamicData p(static_cast<const xt::MapType&>(t->rt()).content_type()); fill(p[0], t->a, key); fill(p[1], t->b, samples(t->b, 3).back());
            if (!in) { refuse("at() of an absent key", [&] { (void)w.at(*kd); }); refuse("read-only at() of an absent key", [&] { (void)r.at(*kd); }); }
            bool full = t->bound && x.k.size() >= t->bound;
            if (!in && full) refuse("new key beyond the bound", [&] { (void)w[kd->cref()]; });
            if (in || full) { MC_CHECK(!w.insert(p), "insert() of ", in ? "a present key" : "a key beyond the bound", " returns true"); same("insert()"); }
        }
    }
    // every node that can be reached
    void nodes(WritableDynamicDataRef w, const T& t0, const Val& x)
    {
        const T& t = rget(t0); node(w, t, x);
        switch (t->k)
        {
            case STRUCT: for (size_t i = 0; i < x.k.size(); ++i) nodes(w[i], t->mem[i].t, x.k[i]); break;
            case SEQ: case ARR: for (size_t i = 0; i < x.k.size(); i += x.k.size() > 2 ? x.k.size() - 1 : 1) nodes(w[i], t->a, x.k[i]); break;
            case MAP: for (auto& p : x.k) { D key = make(t->a, p.k[0]); nodes(w.at(*key), t->b, p.k[1]); break; } break;
            case UNION: if (x.sel >= 0) nodes(w[t->mem[x.sel].name], t->mem[x.sel].t, x.k[0]); break;
            default: break;
        }
    }
};
static void exercise(mc::Run& run, const T& t, const Val& v, int style, const std::function<void(DynamicData&)>& prepare = nullptr)
{
    auto fresh = [&] { D d = make(t, v, style); return d; };
    D d = fresh(); if (prepare) prepare(*d); D twin = make(t, v, 1 - style); uint64_t h = twin->hash();
    Abuse a{ run, t, v, *d }; a.nodes(d->ref(), t, v); run.transition(a.n); run.state(); run.trace();
    MC_CHECK(*d == *twin && d->hash() == h, "after all the refused operations the data differs from its twin");
    // it is still usable
    auto ms = mutations(t, v); size_t step = ms.size() > 6 ? ms.size() / 6 : 1;
    for (size_t i = 0; i < ms.size(); i += step)
    {
        D e = fresh(); Abuse b{ run, t, v, *e }; b.node(e->ref(), t, v); ms[i].f(e->ref()); expect(*e, t, ms[i].v, cat("modified by ", ms[i].name, " after refused operations")); run.transition(b.n);
        Abuse c{ run, t, ms[i].v, *e }; c.node(e->ref(), t, ms[i].v); run.transition(c.n);
    }
    DynamicData copy(*d); expect(copy, t, v, "a copy after refused operations");
}
SUITE(misuse)
{
    auto ts = universe(mc::thorough() ? 3 : 2);
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    for (auto& x : { seq_t(seq_t(str, 2), 2), map_t(str, map_t(u8, str, 2), 2), struct_t({ union_t(i32, { {{1, 2}, str}, {{3}, seq_t(u8, 1)} }), enum_t(E16) }), seq_t(union_t(u8, { {{1}, str}, {{2, 4}, enum_t(E8), true} }), 3), arr_t(struct_t({ u8, str }), 3), map_t(struct_t({ u8, str }), enum_t(E32), 1),
                     seq_t(arr_t(arr_t(u8, 2), 3), 2), union_t(i32, { {{-1, 5}, map_t(u8, str, 1)}, {{7}, struct_t({ str, str })} }), alias_t(map_t(alias_t(u8), alias_t(seq_t(alias_t(str), 2)), 2)), struct_t({ struct_t({ str }), arr_t(enum_t(E8), 2), str_t(WSTR, 2), str_t(S16) }) }) ts.push_back(x);
    for (auto& t : ts) { size_t i = 0; for (auto& v : samples(t, mc::thorough() ? 8 : 3)) { run.test(cat(t->desc, "/", show(t, v)), [&] { exercise(run, t, v, int(i % 2)); }); ++i; } }
}
// collections and maps at and around their bounds after having grown in different ways
SUITE(bounds)
{
    T str = str_t(STR);
    for (auto& e : { prim_t(U8), str, enum_t(E32), struct_t({ prim_t(I32), str }), seq_t(str, 2) }) for (uint32_t b : { 1u, 2u, 3u, 8u }) for (uint32_t n = 0; n <= b; ++n) for (int how = 0; how < 3; ++how)
    {
        T t = seq_t(e, b); run.test(cat("seq ", e->desc, " ", b, " ", n, " ", how), [&]
        {
            auto es = distinct(e, 4); Val v; for (uint32_t i = 0; i < n; ++i) v.k.push_back(how == 1 ? defaults(e) : es[i % es.size()]);
            DynamicData d(t->rt());
            if (how == 0) for (auto& x : v.k) { D ed = make(e, x); d.push(*ed); } else if (how == 1) d.resize(n); else { d.resize(n); for (uint32_t i = 0; i < n; ++i) fill(d[i], e, v.k[i]); DynamicData c(std::move(d)); d = c; }
            Abuse a{ run, t, v, d }; a.nodes(d.ref(), t, v); run.transition(a.n); run.state();
        });
        T mt = map_t(prim_t(U16), e, b); run.test(cat("map ", e->desc, " ", b, " ", n, " ", how), [&]
        {
            auto es = distinct(e, 4); Val v; for (uint32_t i = 0; i < n; ++i) { Val p; p.k = { num(i * 3), how == 1 ? defaults(e) : es[i % es.size()] }; v.k.push_back(p); }
            DynamicData d(mt->rt()); for (size_t i = v.k.size(); i-- > 0;) { D k = make(mt->a, v.k[i].k[0]); if (how == 2) { DynamicData p(static_cast<const xt::MapType&>(mt->rt()).content_type()); fill(p[0], mt->a, v.k[i].k[0]); fill(p[1], e, v.k[i].k[1]); d.insert(p); } else if (how == 1) (void)d[*k]; else fill(d[*k], e, v.k[i].k[1]); }
            sort_map(v); Abuse a{ run, mt, v, d }; a.nodes(d.ref(), mt, v); run.transition(a.n); run.state();
        });
    }
}
// whole data assigned from whole data of every other type
SUITE(whole)
{
    auto ts = others(); for (auto& x : leaves()) ts.push_back(x);
    for (auto& a : ts) run.test(a->desc, [&]
    {
        for (auto& b : ts) for (auto& va : samples(a, 2)) for (auto& vb : samples(b, 2))
        {
            D x = make(a, va), y = make(b, vb); unsigned c = compat(a, b);
            if (c) { MC_CHECK(mc::refused_rt([&] { *x = static_cast<const DynamicData&>(*y); }), "assignment of ", b->desc, " to ", a->desc, " is not refused"); expect(*x, a, va, "after a refused assignment"); expect(*y, b, vb, "source of a refused assignment");
                     MC_CHECK(mc::refused_rt([&] { x->ref() = y->ref(); }), "assignment of ", b->desc, " to ", a->desc, " is not refused"); expect(*x, a, va, "after a refused assignment"); }
            if (c == NONE) { MC_CHECK(mc::refused_rt([&] { DynamicData z(*y, a->rt()); }), "conversion of ", b->desc, " to ", a->desc, " is not refused"); expect(*y, b, vb, "source of a refused conversion"); }
            run.transition(3);
        }
        run.state(); run.trace();
    });
}
// sizes around the limits of narrower counters
SUITE(big)
{
    for (auto& b : bigs()) run.test(name(b), [&]
    {
        D d = make(b.t, b.v); Abuse a{ run, b.t, b.v, *d }; WritableDynamicDataRef w = d->ref(); ReadableDynamicDataRef r = d->cref(); uint64_t n = b.v.k.size();
        auto refused = [&](const char* what, auto f) { if (!mc::refused_rt(f)) fail(cat("accepted: ", what)); ++a.n; };
        if (b.t->k == ARR || b.t->k == SEQ || b.t->k == STRUCT) for (uint64_t i : { n, n + 1, n + 127, n + 128, n + 255, n + 256, n + 512, n + 65535, n + 65536, (uint64_t(1) << 32) + n - 1, ~uint64_t(0) }) { run.note(cat("index ", i)); refused("index", [&] { (void)w[i]; }); refused("read-only index", [&] { (void)r[i]; }); }
        if (b.t->k == SEQ && b.t->bound) { D e = make(b.t->a, nth(b.t->a, 3)); refused("push", [&] { w.push(*e); }); refused("resize", [&] { w.resize(n + 1); }); refused("resize by 256", [&] { w.resize(n + 256); }); }
        if (b.t->k == MAP && b.t->bound) { DynamicData k(b.t->a->rt()); fill(k.ref(), b.t->a, b.t->a->k == STR ? text("new") : num(60000)); refused("another key", [&] { (void)w[k]; }); refused("another key", [&] { (void)w.at(k); }); }
        if (b.t->k == STRUCT || b.t->k == UNION) for (auto s : { "", "m", "u", "m300 ", "discriminator " }) refused("member", [&] { (void)w[s]; });
        if (b.t->k == UNION) for (size_t i = 0; i < b.t->mem.size(); ++i) if (int(i) != b.v.sel) { auto l = b.t->mem[i].labels[0]; refused("label of another member", [&] { w.d(l); }); refused("member that is not the selected one", [&] { (void)r[b.t->mem[i].name]; }); }
        a.same("operations"); run.transition(a.n); run.state(); run.trace();
    });
}
MC_MAIN
