// C05: no leak, double free or out-of-bounds access over any history of whole values, references and types
// (AddressSanitizer watches every access; the engine balances every allocation of a complete history)
#include <fstream>
#include "nav.hpp"
#include "big.hpp"
#include "tree.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

// types t converts to or refuses
static std::vector<T> partners(const T& t)
{
    T str = str_t(STR), u8 = prim_t(U8);
    std::vector<T> r{ struct_t({t}), seq_t(t), arr_t(t, 1), map_t(u8, t), struct_t({ t, str }), union_t(u8, { {{1}, str}, {{2}, t} }), str, prim_t(I64), str_t(STR, 2), alias_t(t) };
    switch (t->k)
    {
        case SEQ: r.push_back(seq_t(t->a, 1)); r.push_back(seq_t(t->a)); break;
        case ARR: r.push_back(arr_t(t->a, 1)); r.push_back(arr_t(t->a, 3)); break;
        case MAP: r.push_back(map_t(t->a, t->b, 1)); r.push_back(map_t(t->a, struct_t({t->b}))); break;
        case STRUCT: { std::vector<T> p; for (auto& x : t->mem) p.push_back(x.t); p.push_back(str); r.push_back(struct_t(p)); p.pop_back(); if (p.size() > 1) { p.pop_back(); r.push_back(struct_t(p)); } break; }
        case UNION: { std::vector<Case> cs; for (auto& x : t->mem) cs.push_back({ x.labels, x.t, x.def }); r.push_back(union_t(t->a, cs, "other")); cs.pop_back(); if (cs.size()) r.push_back(union_t(t->a, cs)); break; }
        default: break;
    }
    return r;
}

// everything that does not fit the type and must be refused
static void refusals(WritableDynamicDataRef w, const T& t0)
{
    const T& t = rget(t0);
    auto tr = [&](const char* what, auto f) { if (!mc::refused_rt(f)) fail(cat("accepted: ", what)); };
    T odd = struct_t({ str_t(STR), map_t(prim_t(U8), str_t(STR)) });
    T more = map_t(seq_t(prim_t(U8)), odd);
    D o = make(more, samples(more, 4).back());
    if (t->k != MAP) { tr("assignment", [&] { w = o->ref(); }); tr("conversion", [&] { DynamicData x(*o, t->rt()); }); tr("conversion to", [&] { DynamicData x(w.cref(), more->rt()); }); }
    if (t->k != SEQ) { tr("push", [&] { w.push(*o); }); tr("push text", [&] { w.push(std::string("some text that is stored in the heap")); }); tr("resize", [&] { w.resize(4); }); }
    else
    {
        tr("push of an incompatible data", [&] { w.push(*o); });
        if (rget(t->a)->k != U16) tr("push of a native value", [&] { w.push(uint16_t(3)); });
        if (t->bound)
        {
            tr("resize beyond the bound", [&] { w.resize(t->bound + 1); });
            if (w.size() == t->bound) { D e = make(t->a, samples(t->a, 4).back()); tr("push beyond the bound", [&] { w.push(*e); }); }
        }
        tr("access beyond the size", [&] { w[w.size()]; });
    }
    if (t->k == MAP)
    {
        tr("key of another type", [&] { w[*o]; }); tr("key of another type", [&] { w.at(*o); });
        for (auto& k : distinct(t->a, 8))
        {
            D key = make(t->a, k);
            if (!w.has_key(*key))
            {
                tr("absent key", [&] { w.at(*key); });
                if (t->bound && w.size() == t->bound)
                {
                    tr("key beyond the bound", [&] { w[*key]; });
                    DynamicData p(static_cast<const xt::MapType&>(t->rt()).content_type());
                    p.ref()[0] = key->ref(); MC_CHECK(!w.insert(p), "insert beyond the bound");
                }
            }
        }
        tr("pair of another type", [&] { w.insert(*o); });
    }
    else tr("at", [&] { w.at(*o); });
    if (t->k == ARR) tr("access beyond the size", [&] { w[t->bound]; });
    if (t->k == STRUCT || t->k == UNION) tr("unknown member", [&] { w["no such member"]; });
    if (t->k == UNION) { tr("text as discriminator", [&] { w.d(*o); }); if (w.size()) tr("index", [&] { w[0]; }); }
    if (!is_str(t->k)) tr("text", [&] { w = std::string("some text that is stored in the heap"); });
    else { tr("number", [&] { w = uint16_t(4); }); if (t->k != STR) tr("text of another kind", [&] { w = std::string("some text that is stored in the heap"); }); else tr("text of another kind", [&] { w = std::u16string(u"some text that is stored in the heap"); }); }
}

struct Sys
{
    const T& t; std::vector<Val> vs; std::vector<T> ps;
    D d[2]; Val v[2]; bool moved[2] = { false, false };
    explicit Sys(const T& t, bool built = false) : t(t), vs(samples(t, 5))
    {
        if (built) { v[0] = vs.back(); d[0] = make(t, v[0], 1); v[1] = vs[vs.size() / 2]; d[1] = make(t, v[1]); }
    }
    static constexpr int N = 17;
    std::string op_name(int o)
    {
        static const char* n[N] = { "a=new default", "a=new sample", "b=new sample (type released)", "b=copy of a", "b=moved from a", "a assigned from b", "ref of a assigned from ref of b", "b move-assigned from a",
            "a modified (first)", "a modified (last)", "b modified", "a destroyed", "b destroyed", "a assigned to itself", "a converted to every partner", "refused operations on a", "a read, compared, hashed, printed" };
        return n[o];
    }
    bool apply(int o)
    {
        auto ok = [&](int i) { return d[i] && !moved[i]; };
        switch (o)
        {
            case 0: if (d[0]) return false; d[0] = std::make_unique<DynamicData>(t->rt()); v[0] = defaults(t); moved[0] = false; return true;
            case 1: if (d[0]) return false; d[0] = make(t, vs.back(), 0); v[0] = vs.back(); moved[0] = false; return true;
            case 2:
            {
                if (d[1]) return false;
                { DynamicType::Ptr p(t->rt()); d[1] = std::make_unique<DynamicData>(*p); }      // the data outlives this copy of the type
                const Val& x = vs.size() > 2 ? vs[2] : vs.back();
                fill(d[1]->ref(), t, x, 1); v[1] = x; moved[1] = false; return true;
            }
            case 3: if (!ok(0) || d[1]) return false; d[1] = std::make_unique<DynamicData>(static_cast<const DynamicData&>(*d[0])); v[1] = v[0]; moved[1] = false; return true;
            case 4: if (!ok(0) || d[1]) return false; d[1] = std::make_unique<DynamicData>(std::move(*d[0])); v[1] = v[0]; moved[1] = false; moved[0] = true; return true;
            case 5: if (!d[0] || !ok(1)) return false; *d[0] = static_cast<const DynamicData&>(*d[1]); v[0] = v[1]; moved[0] = false; return true;
            case 6: if (!d[0] || !ok(1)) return false; d[0]->ref() = d[1]->ref(); v[0] = v[1]; moved[0] = false; return true;
            case 7: if (!ok(0) || !d[1]) return false; *d[1] = std::move(*d[0]); v[1] = v[0]; moved[1] = false; return true;
            case 8: case 9: case 10:
            {
                int i = o == 10; if (!ok(i)) return false;
                auto ms = mutations(t, v[i], 1); if (ms.empty()) return false;
                auto& x = o == 8 ? ms.front() : o == 9 ? ms.back() : ms[ms.size() / 2];
                x.f(d[i]->ref()); v[i] = x.v; return true;
            }
            case 11: case 12: { int i = o - 11; if (!d[i]) return false; d[i].reset(); moved[i] = false; return true; }
            case 13: if (!ok(0)) return false; *d[0] = *d[0]; d[0]->ref() = d[0]->ref(); *d[0] = d[0]->cref(); return true;
            case 14:
                if (!ok(0)) return false;
                if (ps.empty()) ps = partners(t);
                for (auto& p : ps)
                {
                    try { DynamicData x(*d[0], p->rt()); DynamicData y(x); y = x; DynamicData back(y, t->rt()); back = *d[0]; } catch (const std::runtime_error&) {}
                    try { DynamicData x(p->rt()); x = *d[0]; *d[0] = x; } catch (const std::runtime_error&) {}
                    try { D x = make(p, samples(p, 4).back()); *d[0] = *x; *d[0] = *make(t, v[0]); } catch (const std::runtime_error&) {}
                }
                *d[0] = *make(t, v[0]);
                return true;
            case 15: if (!ok(0)) return false; refusals(d[0]->ref(), t); return true;
            default:
            {
                if (!ok(0)) return false;
                const DynamicData& c = *d[0];
                (void)c.hash(); bool eq = c == c; MC_CHECK(eq, "not equal to itself");
                MC_CHECK(read_alt(c, t) == v[0], "reading by other paths");
                size_t n = 0; c.for_each([&](const ReadableDynamicDataRef::ReadableNode& node) { n += node.deep(); });
                std::string s = c.to_string(); (void)s;
                return true;
            }
        }
    }
    void check() { for (int i = 0; i < 2; ++i) if (d[i] && !moved[i]) expect(*d[i], t, v[i], i ? "b" : "a"); }
};

SUITE(histories)
{
    for (auto& t : universe(3)) mc::tree(run, t->desc, Sys::N, mc::thorough() ? 4 : 3, [&] { return std::make_unique<Sys>(t); });
}
SUITE(two_values)
{
    for (auto& t : universe(3)) mc::tree(run, t->desc, Sys::N, mc::thorough() ? 3 : 2, [&] { return std::make_unique<Sys>(t, true); });
}
SUITE(deep)
{
    T str = str_t(STR), i32 = prim_t(I32);
    std::vector<T> ts{ str, seq_t(str), map_t(str, seq_t(str)), struct_t({ str, seq_t(i32), map_t(i32, str) }), union_t(i32, { {{1, 2}, str}, {{3}, seq_t(str)}, {{}, i32, true} }), arr_t(struct_t({ str, i32 }), 2) };
    for (auto& t : ts) mc::tree(run, t->desc, Sys::N, mc::thorough() ? 5 : 4, [&] { return std::make_unique<Sys>(t); });
}
// types: built, copied, changed and released in every order with respect to the data made from them
SUITE(types)
{
    // ops on a type under construction, a composite holding it and data of both; any order of release
    struct TSys
    {
        std::unique_ptr<xt::StructType> s; std::unique_ptr<xt::SequenceType> q; std::unique_ptr<xt::UnionType> u; std::unique_ptr<xt::AliasType> al;
        std::unique_ptr<xt::StructType> child; D ds, dq, du; int n = 0;
        enum { N = 15 };
        std::string op_name(int o) { static const char* n[N] = { "new struct", "add member", "add string member", "sequence of it", "union of it", "alias of it", "child of it", "data of struct", "data of sequence", "data of union", "release struct", "release composites", "release data", "struct replaced by its copy", "work on the data" }; return n[o]; }
        bool apply(int o)
        {
            switch (o)
            {
                case 0: if (s) return false; s = std::make_unique<xt::StructType>("S"); return true;
                case 1: if (!s) return false; s->add_member("i" + std::to_string(n++), xt::primitive_type<uint32_t>()); return true;
                case 2: if (!s) return false; s->add_member("s" + std::to_string(n++), xt::SequenceType(xt::StringType())); return true;
                case 3: if (!s || q) return false; q = std::make_unique<xt::SequenceType>(*s); return true;
                case 4: if (!s || u) return false; u = std::make_unique<xt::UnionType>("U", xt::primitive_type<int32_t>()); u->add_case_member(std::vector<int>{1}, "a", *s); u->add_case_member(std::vector<int>{2}, "b", xt::StringType(), true); return true;
                case 5: if (!s || al) return false; al = std::make_unique<xt::AliasType>(*s, "A"); return true;
                case 6: if (!s || child) return false; child = std::make_unique<xt::StructType>("C", s.get()); child->add_member("c", xt::StringType()); return true;
                case 7: if (ds) return false; if (child) ds = std::make_unique<DynamicData>(*child); else if (al) ds = std::make_unique<DynamicData>(*al); else if (s) ds = std::make_unique<DynamicData>(*s); else return false; return true;
                case 8: if (!q || dq) return false; dq = std::make_unique<DynamicData>(*q); return true;
                case 9: if (!u || du) return false; du = std::make_unique<DynamicData>(*u); return true;
                case 10: if (!s) return false; s.reset(); return true;
                case 11: if (!q && !u && !al && !child) return false; q.reset(); u.reset(); al.reset(); child.reset(); return true;
                case 12: if (!ds && !dq && !du) return false; du.reset(); dq.reset(); ds.reset(); return true;
                case 13: { if (!s) return false; xt::StructType copy(*s); s = std::make_unique<xt::StructType>(std::move(copy)); xt::StructType again(*s); DynamicType::Ptr p(again), r = p; p = DynamicType::Ptr(*s); p = r; return true; }
                default:
                {
                    if (!ds && !dq && !du) return false;
                    auto touch = [](WritableDynamicDataRef w) { for (WritableDynamicDataRef::MemberPair item : w.items()) if (item.kind() == xt::TypeKind::SEQUENCE_TYPE) { item.data().push(std::string("a text that is stored in the heap")); } else if (item.kind() == xt::TypeKind::UINT_32_TYPE) item.data() = uint32_t(7); else item.data() = std::string("another text, stored in the heap"); };
                    if (ds) { touch(ds->ref()); DynamicData c(*ds); MC_CHECK(c == *ds, "copy"); }
                    if (dq) { dq->resize(dq->size() + 1); touch((*dq)[dq->size() - 1]); DynamicData c(*dq); MC_CHECK(c == *dq, "copy"); }
                    if (du) { touch((*du)["a"]); (*du)["b"] = std::string("text in a union, stored in the heap"); touch((*du)["a"]); DynamicData c(*du); MC_CHECK(c == *du, "copy"); }
                    return true;
                }
            }
        }
        void check() { if (ds) (void)ds->hash(); if (dq) { DynamicData c(*dq); MC_CHECK(c == *dq, "copy"); } if (du) { DynamicData c(*du); MC_CHECK(c == *du, "copy"); } }
    };
    mc::tree(run, "types", TSys::N, mc::thorough() ? 7 : 6, [&] { return std::make_unique<TSys>(); });
}
// sizes around the limits of narrower counters: everything that is constructed is destroyed once
SUITE(big)
{
    for (auto& b : bigs(mc::thorough() ? 70000 : 4000)) run.test(name(b), [&]
    {
        auto once = [&](const char* what, std::function<void()> f) { run.note(what); long l = mc::leaked(f); MC_CHECK(l == 0, what, " leaves ", l, " allocation(s) behind"); run.transition(); };
        D s = make(b.t, b.v);
        once("new data", [&] { DynamicData d(b.t->rt()); });
        once("filling", [&] { D d = make(b.t, b.v); });
        once("copy", [&] { DynamicData d(*s); DynamicData e(std::move(d)); });
        once("assignment", [&] { DynamicData d(b.t->rt()); d = *s; d = *s; DynamicData e(b.t->rt()); d = e; e = std::move(d); });
        once("element of a sequence", [&] { DynamicData d(xt::SequenceType(b.t->rt())); d.push(*s); d.push(*s); d.resize(5); DynamicData e(d); d[0] = *s; });
        once("values of a map", [&] { DynamicData d(xt::MapType(xt::primitive_type<uint8_t>(), b.t->rt())), k(xt::primitive_type<uint8_t>()); for (int i = 0; i < 3; ++i) { k = uint8_t(i); d[k] = *s; } DynamicData e(d); });
        if (b.t->k == SEQ) once("growing", [&] { DynamicData d(*s); if (!b.t->bound) { d.resize(b.v.k.size() + 1); d.resize(b.v.k.size() * 2); } else (void)mc::refused_rt([&] { d.resize(b.v.k.size() + 1); }); });
        if (b.t->k == ARR || b.t->k == STRUCT) once("refused index", [&] { DynamicData d(*s); (void)mc::refused_rt([&] { (void)d[b.v.k.size()]; }); });
        if (b.t->k == UNION) once("each case", [&] { DynamicData d(b.t->rt()); for (auto& x : b.t->mem) { auto w = d[x.name]; if (is_str(x.t->k)) w.value(std::string("some text that is long enough")); } });
        run.state(); run.trace();
    });
}
// sizes beyond 32 bits: refused, or done entirely
static double available_gb() { std::ifstream f("/proc/meminfo"); std::string k, u; double n; while (f >> k >> n) { std::getline(f, u); if (k == "MemAvailable:") return n / 1048576; } return 0; }
SUITE(huge)
{
    T u8 = prim_t(U8), str = str_t(STR);
    for (auto& c : std::vector<T>{ u8, prim_t(I64), str, struct_t({ u8, str }), seq_t(str), arr_t(prim_t(I32), 3), map_t(u8, str) }) run.test(cat("resize ", c->desc), [&]
    {
        T t = seq_t(c); auto es = samples(c, 3);
        for (size_t n : { size_t(0), size_t(1), size_t(3) }) for (size_t to : { size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + n, (size_t(1) << 32) + n + 2, size_t(1) << 33, size_t(1) << 63, size_t(PTRDIFF_MAX), SIZE_MAX - 1, SIZE_MAX })
        {
            run.note(cat(n, " to ", to)); Val v; for (size_t i = 0; i < n; ++i) v.k.push_back(es[i % es.size()]); D d = make(t, v);
            MC_CHECK(mc::refused([&] { d->resize(to); }), "a sequence of ", to, " elements is accepted"); expect(*d, t, v, "after the refused resize");
            auto e = make(c, es[0]); d->push(*e); v.k.push_back(es[0]); expect(*d, t, v, "used on"); run.transition();
        }
        run.state(); run.trace();
    });
    // types whose size does not fit are refused, by themselves or when data is made of them
    auto large = [&](const char* name, std::function<void()> f) { run.test(cat("type ", name), [&] { MC_CHECK(mc::refused(f), "data larger than the memory is accepted"); run.state(); run.trace(); }); };
    auto& b = xt::primitive_type<uint8_t>(); auto& q = xt::primitive_type<uint64_t>(); using V = std::vector<uint32_t>; const uint32_t H = 1u << 31, X = 0xffffffffu;
    large("2^31 x 2^31 x 4", [&] { DynamicData d(xt::ArrayType(b, V{ H, H, 4 })); });
    large("2^31 x 2^31 x 8", [&] { DynamicData d(xt::ArrayType(b, V{ H, H, 8 })); });
    large("2^31 x 2^30 x 8", [&] { DynamicData d(xt::ArrayType(q, V{ H, H / 2 })); });
    large("max x max x max", [&] { DynamicData d(xt::ArrayType(b, V{ X, X, X })); });
    large("array of an array", [&] { DynamicData d(xt::ArrayType(xt::ArrayType(xt::ArrayType(q, H), H), H)); });
    large("two members", [&] { xt::ArrayType a(b, V{ H, H, 2 }); xt::StructType s("S"); s.add_member("a", a).add_member("b", a); DynamicData d(s); });
    large("three members", [&] { xt::ArrayType a(b, V{ H, X }); xt::StructType s("S"); s.add_member("a", a).add_member("b", a).add_member("c", b); DynamicData d(s); });
    large("derived", [&] { xt::ArrayType a(b, V{ H, X }); xt::StructType s("S"); s.add_member("a", a); xt::StructType z("Z", &s); z.add_member("b", a).add_member("c", b); DynamicData d(z); });
    large("sequence element", [&] { xt::ArrayType a(b, V{ H, H }); DynamicData d(xt::SequenceType(xt::ArrayType(a, 1))); d.resize(4); });
    large("sequence of 2^62", [&] { xt::ArrayType a(b, V{ H, H }); DynamicData d((xt::SequenceType(a))); d.resize(8); });
    large("sequence of 2^32", [&] { xt::ArrayType a(b, V{ H, 2 }); DynamicData d((xt::SequenceType(a))); d.resize(X); });
    large("map value", [&] { xt::ArrayType a(b, V{ H, H }); DynamicData d(xt::MapType(b, a)), k(b); (void)d[k]; });
    large("union member", [&] { xt::ArrayType a(b, V{ H, X }); xt::UnionType u("U", q); u.add_case_member(std::vector<int>{ 1 }, "a", a, true); DynamicData d(xt::ArrayType(u, 2)); });
    // more than 4 GiB in one sequence
    run.test("sequence of more than 4 GiB", [&]
    {
        if (available_gb() < 12) return;
        xt::SequenceType t(xt::ArrayType(xt::primitive_type<long double>(), 1 << 20)); DynamicData d(t); d.resize(257);
        for (size_t i : { 0, 1, 2, 255, 256 }) d[i][i] = (long double)(i + 1);
        for (size_t i : { 0, 1, 2, 255, 256 }) for (size_t j : { 0, 1, 2, 255, 256 }) MC_CHECK(d[i][j].value<long double>() == (i == j ? (long double)(i + 1) : 0), "element ", i, " at ", j);
        MC_CHECK(d.size() == 257, "size"); run.state(); run.trace();
    });
    if (mc::thorough())
    {
        run.test("map of more than 4 GiB", [&]
        {
            if (available_gb() < 18) return;
            auto& u = xt::primitive_type<uint16_t>(); xt::MapType t(u, xt::ArrayType(xt::primitive_type<long double>(), 1 << 20)); DynamicData d(t), k(u);
            for (int i = 0; i < 260; ++i) { k = uint16_t(i); d[k][i] = (long double)i; run.transition(); }
            for (int i = 0; i < 260; ++i) { k = uint16_t(i); MC_CHECK(d.at(k)[i].value<long double>() == i && d.at(k)[i + 1].value<long double>() == 0, "value of ", i); }
            run.state(); run.trace();
        });
        run.test("push to 2^31 elements", [&]
        {
            if (available_gb() < 12) return;
            DynamicData d(xt::SequenceType(xt::primitive_type<uint8_t>())); d.resize(size_t(1) << 31); run.transition(); d[5] = uint8_t(5); d.push(uint8_t(7));
            MC_CHECK(d.size() == (size_t(1) << 31) + 1 && d[size_t(1) << 31].value<uint8_t>() == 7 && d[5].value<uint8_t>() == 5 && d[6].value<uint8_t>() == 0, "after the push"); run.state(); run.trace();
        });
    }
}
MC_MAIN
