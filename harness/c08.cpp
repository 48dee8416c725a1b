// C08: is_compatible reports exactly the differences between two types
#include "compat.hpp"
using namespace m;

static unsigned real_compat(const DynamicType& a, const DynamicType& b) { return unsigned(a.is_compatible(b)); }

SUITE(pairs)
{
    auto ts = pair_universe();
    for (auto& a : ts) run.test(a->desc, [&]
    {
        T aa = alias_t(a), aaa = alias_t(aa, "Another");
        MC_CHECK(real_compat(a->rt(), a->rt()) == 0, "not EQUALS with itself but ", flags(real_compat(a->rt(), a->rt())));
        MC_CHECK(real_compat(a->rt(), aa->rt()) == 0 && real_compat(aa->rt(), a->rt()) == 0 && real_compat(aa->rt(), aaa->rt()) == 0 && real_compat(aaa->rt(), a->rt()) == 0, "not EQUALS with an alias of it");
        { DynamicType::Ptr copy(a->rt()); MC_CHECK(real_compat(*copy, a->rt()) == 0 && real_compat(a->rt(), *copy) == 0, "not EQUALS with a copy of it"); }
        for (auto& b : ts)
        {
            run.note(cat("with ", b->desc));
            unsigned want = compat(a, b), got = real_compat(a->rt(), b->rt());
            if (got != want) fail(cat("is_compatible is ", flags(got), ", the differences are ", flags(want)));
            T ab = alias_t(b);
            MC_CHECK(real_compat(a->rt(), ab->rt()) == want, "with an alias of it");
            MC_CHECK(real_compat(aa->rt(), b->rt()) == want && real_compat(aaa->rt(), ab->rt()) == want, "of an alias");
            run.transition(4); run.trace();
        }
        run.state();
    });
}
// every difference at every depth, alone and accumulated
SUITE(nested)
{
    struct D { T a, b; };
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    std::vector<D> base{ { u8, prim_t(I8) }, { u8, prim_t(U16) }, { u8, prim_t(I32) }, { str, str_t(STR, 4) }, { seq_t(u8), seq_t(u8, 3) }, { arr_t(u8, 2), arr_t(u8, 3) }, { map_t(u8, str), map_t(u8, str, 3) }, { struct_t({ u8, str }), struct_t({ u8, str }, "r") },
        { struct_t({ u8, str }), struct_t({ u8, str, u8 }) }, { struct_t({ u8, str, u8 }), struct_t({ u8, str }) }, { u8, str }, { str, str_t(WSTR) }, { u8, u8 }, { struct_t({ u8 }), u8 }, { u8, struct_t({ struct_t({ u8 }) }) }, { enum_t(E8), u8 }, { u8, enum_t(E8) },
        { union_t(i32, { {{1}, u8}, {{2}, str} }), union_t(i32, { {{1}, u8}, {{2}, str} }, "r") }, { union_t(i32, { {{1}, u8}, {{2}, str} }), union_t(u8, { {{1}, u8}, {{2}, str} }) }, { union_t(i32, { {{1}, u8}, {{2}, str} }), union_t(i32, { {{1}, u8} }) }, { alias_t(u8), prim_t(I16) } };
    auto nest = [&](const D& d, int w) -> D
    {
        switch (w)
        {
            case 0: return { seq_t(d.a), seq_t(d.b) }; case 1: return { arr_t(d.a, 2), arr_t(d.b, 2) }; case 2: return { map_t(u8, d.a), map_t(u8, d.b) }; case 3: return { map_t(d.a, u8), map_t(d.b, u8) };
            case 4: return { struct_t({ str, d.a, u8 }), struct_t({ str, d.b, u8 }) }; case 5: return { struct_t({ d.a }), struct_t({ d.b }) }; case 6: return { union_t(i32, { {{1}, str}, {{2}, d.a} }), union_t(i32, { {{1}, str}, {{2}, d.b} }) };
            case 7: return { alias_t(d.a), d.b }; case 8: return { d.a, alias_t(d.b) }; default: return { seq_t(d.a, 2), seq_t(d.b, 5) };
        }
    };
    int depth = mc::thorough() ? 4 : 3;
    for (size_t i = 0; i < base.size(); ++i) for (int first = 0; first < 10; ++first) run.test(cat(i, "/", first), [&]
    {
        std::function<void(const D&, int, std::string)> rec = [&](const D& d, int left, std::string how)
        {
            run.note(cat(d.a->desc, "  with  ", d.b->desc));
            unsigned want = compat(d.a, d.b), got = real_compat(d.a->rt(), d.b->rt());
            if (got != want) fail(cat("is_compatible is ", flags(got), ", the differences are ", flags(want)));
            run.transition(); run.state();
            if (!left) return;
            for (int w = 0; w < 10; ++w) rec(nest(d, w), left - 1, how + std::to_string(w));
        };
        rec(nest(base[i], first), depth - 1, std::to_string(first));
        run.trace();
    });
    // two differences side by side
    for (size_t i = 0; i < base.size(); ++i) run.test(cat("side by side/", i), [&]
    {
        for (size_t j = 0; j < base.size(); ++j) for (int w = 0; w < 3; ++w)
        {
            auto mk = [&](const T& x, const T& y) { return w == 0 ? struct_t({ x, y }) : w == 1 ? map_t(x, y) : union_t(i32, { {{1}, x}, {{2}, y} }); };
            T a = mk(base[i].a, base[j].a), b = mk(base[i].b, base[j].b);
            run.note(cat(a->desc, "  with  ", b->desc));
            unsigned want = compat(a, b), got = real_compat(a->rt(), b->rt());
            if (got != want) fail(cat("is_compatible is ", flags(got), ", the differences are ", flags(want)));
            run.transition(); run.state();
        }
        run.trace();
    });
}
// extents around the limits of narrower counters
SUITE(extents)
{
    std::vector<uint32_t> xs{ 0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131072, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
    for (uint32_t x : xs) run.test(cat(x), [&]
    {
        for (uint32_t y : xs)
        {
            run.note(cat(y)); auto same = [&](const DynamicType& a, const DynamicType& b, xt::TypeConsistency diff, const char* what) { unsigned want = x == y ? 0 : unsigned(diff), got = real_compat(a, b); if (got != want) fail(cat(what, " of ", x, " and ", y, ": is_compatible is ", flags(got), ", the differences are ", flags(want))); run.transition(); };
            const DynamicType& c = xt::primitive_type<uint8_t>();
            if (x && y) { same(xt::ArrayType(c, x), xt::ArrayType(c, y), xt::TypeConsistency::IGNORE_ARRAY_BOUNDS, "arrays"); if (x < 70000 && y < 70000) same(xt::ArrayType(c, std::vector<uint32_t>{ 2, x, 2 }), xt::ArrayType(c, std::vector<uint32_t>{ 2, y, 2 }), xt::TypeConsistency::IGNORE_ARRAY_BOUNDS, "dimensions"); }
            same(xt::SequenceType(c, x), xt::SequenceType(c, y), xt::TypeConsistency::IGNORE_SEQUENCE_BOUNDS, "sequences"); same(xt::MapType(c, c, x), xt::MapType(c, c, y), xt::TypeConsistency::IGNORE_MAP_BOUNDS, "maps");
            same(xt::StringType(x), xt::StringType(y), xt::TypeConsistency::IGNORE_STRING_BOUNDS, "strings"); same(xt::WStringType(x), xt::WStringType(y), xt::TypeConsistency::IGNORE_STRING_BOUNDS, "wide strings"); same(xt::String16Type(x), xt::String16Type(y), xt::TypeConsistency::IGNORE_STRING_BOUNDS, "16 bit strings");
            if (x < 600 && y < 600)
            {
                xt::StructType a("A"), b("B"), p("P"); for (uint32_t i = 0; i < x; ++i) a.add_member(cat("m", i), c); for (uint32_t i = 0; i < y; ++i) b.add_member(cat("m", i), c);
                if (x > 1 && y > 1) same(a, b, xt::TypeConsistency::IGNORE_MEMBERS, "structures");
                if (x > 1 && y == 2) { xt::StructType r("R"); for (uint32_t i = 0; i < x; ++i) r.add_member(cat(i + 1 == x ? "other" : "m", i), c); unsigned got = real_compat(a, r), want = unsigned(xt::TypeConsistency::IGNORE_MEMBER_NAMES); if (got != want) fail(cat("structures of ", x, " members the last of which has another name: ", flags(got))); xt::StructType q("Q"); for (uint32_t i = 0; i < x; ++i) q.add_member(cat("m", i), i + 1 == x ? static_cast<const DynamicType&>(xt::primitive_type<uint16_t>()) : c); got = real_compat(a, q); if (got != unsigned(xt::TypeConsistency::IGNORE_TYPE_WIDTH)) fail(cat("structures of ", x, " members the last of which is wider: ", flags(got))); }
            }
        }
        run.state(); run.trace();
    });
}
MC_MAIN
