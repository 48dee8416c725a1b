// C10: arithmetic, logic and casts agree with native C++
#include "nav.hpp"
using namespace m;

template<class X> bool same(X a, X b) { return a == b || (a != a && b != b); }
template<class X> DynamicData data(X x) { DynamicData d(xt::primitive_type<X>()); d = x; return d; }
template<class X> std::string str(X x) { if constexpr (std::is_floating_point<X>::value) { std::ostringstream os; os.precision(21); os << x; return os.str(); } else return std::to_string((long long)x) + (x > X(INT64_MAX >> 1) ? "(as signed)" : ""); }

enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, XOR, OR, NB, LAND = NB, LOR, LT, GT, LE, GE, NALL };
static const char* OPN[] = { "+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "&&", "||", "<", ">", "<=", ">=" };

template<class X> struct Is
{
    static constexpr bool flt = std::is_floating_point<X>::value;
    static constexpr bool chr = std::is_same<X, char>::value || std::is_same<X, char16_t>::value || std::is_same<X, wchar_t>::value || std::is_same<X, bool>::value;
    static constexpr bool integer = !flt && !chr;
    static bool offers(int op) { return op >= LAND ? true : flt ? op <= DIV : integer; }
};
// the native result, if native C++ defines it
template<class X> bool native(int op, X a, X b, X& r)
{
    if constexpr (Is<X>::flt)
    {
        switch (op) { case ADD: r = a + b; return true; case SUB: r = a - b; return true; case MUL: r = a * b; return true; case DIV: if (b == 0) return false; r = a / b; return true; default: return false; }
    }
    else if constexpr (Is<X>::integer)
    {
        using P = decltype(a + b);      // after integral promotion
        P x = a, y = b, z = 0;
        int bits = int(sizeof(P) * 8);
        if constexpr (std::is_signed<P>::value)
        {
            switch (op)
            {
                case ADD: if (__builtin_add_overflow(x, y, &z)) return false; break;
                case SUB: if (__builtin_sub_overflow(x, y, &z)) return false; break;
                case MUL: if (__builtin_mul_overflow(x, y, &z)) return false; break;
                case DIV: case MOD: if (y == 0 || (y == -1 && x == std::numeric_limits<P>::min())) return false; z = op == DIV ? x / y : x % y; break;
                case SHL: if (y < 0 || y >= bits || x < 0 || (y && x > (std::numeric_limits<P>::max() >> y))) return false; z = x << y; break;
                case SHR: if (y < 0 || y >= bits) return false; z = x >> y; break;
                case AND: z = x & y; break; case XOR: z = x ^ y; break; case OR: z = x | y; break; default: return false;
            }
        }
        else
        {
            switch (op)
            {
                case ADD: z = x + y; break; case SUB: z = x - y; break; case MUL: z = x * y; break;
                case DIV: case MOD: if (!y) return false; z = op == DIV ? x / y : x % y; break;
                case SHL: case SHR: if (y >= P(bits)) return false; z = op == SHL ? P(x << y) : P(x >> y); break;
                case AND: z = x & y; break; case XOR: z = x ^ y; break; case OR: z = x | y; break; default: return false;
            }
        }
        r = static_cast<X>(z); return true;
    }
    else return false;
}
template<class X> bool native_bool(int op, X a, X b)
{
    switch (op) { case LAND: return a && b; case LOR: return a || b; case LT: return a < b; case GT: return a > b; case LE: return a <= b; default: return a >= b; }
}
static DynamicData arith(int op, const DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case MOD: return a % b; case SHL: return a << b; case SHR: return a >> b; case AND: return a & b; case XOR: return a ^ b; default: return a | b; }
}
static DynamicData& compound(int op, DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op) { case ADD: return a += b; case SUB: return a -= b; case MUL: return a *= b; case DIV: return a /= b; case MOD: return a %= b; case SHL: return a <<= b; case SHR: return a >>= b; case AND: return a &= b; case XOR: return a ^= b; default: return a |= b; }
}
template<class X> DynamicData& compound_native(int op, DynamicData& a, X b)
{
    if constexpr (Is<X>::flt) switch (op) { case ADD: return a += b; case SUB: return a -= b; case MUL: return a *= b; default: return a /= b; }
    else switch (op) { case ADD: return a += b; case SUB: return a -= b; case MUL: return a *= b; case DIV: return a /= b; case MOD: return a %= b; case SHL: return a <<= b; case SHR: return a >>= b; case AND: return a &= b; case XOR: return a ^= b; default: return a |= b; }
}
static bool logic(int op, const DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op) { case LAND: return a && b; case LOR: return a || b; case LT: return a < b; case GT: return a > b; case LE: return a <= b; default: return a >= b; }
}

template<class X> std::vector<X> grid()
{
    std::vector<X> r; std::set<X> seen;
    auto add = [&](X x) { if (seen.insert(x).second) r.push_back(x); };
    if constexpr (std::is_same<X, bool>::value) return { false, true };
    else if constexpr (sizeof(X) == 1) { for (int i = 0; i < 256; ++i) add(X(i)); return r; }
    else if constexpr (Is<X>::flt)
    {
        for (double x : { 0.0, 1.0, -1.0, 0.5, -0.25, 1.5, 2.0, 3.0, 10.0, -7.0, 100.125, 16777216.0, 16777217.0, 1e10, -1e10, 1e-10, 1.0 / 3 }) add(X(x));
        add(std::numeric_limits<X>::max()); add(std::numeric_limits<X>::lowest()); add(std::numeric_limits<X>::min()); add(std::numeric_limits<X>::denorm_min()); add(std::numeric_limits<X>::epsilon()); add(std::numeric_limits<X>::infinity());
        return r;
    }
    else
    {
        for (int i = 0; i <= (mc::thorough() ? 70 : 9); ++i) { add(X(i)); add(X(-i)); }
        for (size_t b = 3; b < sizeof(X) * 8; ++b) for (int o : { -1, 0, 1 }) { add(X((uint64_t(1) << b) + o)); if (mc::thorough() || b + 2 > sizeof(X) * 8) add(X(-(uint64_t(1) << b) + o)); }
        for (uint64_t x : { 12345ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x123456789ABCDEFull }) add(X(x));
        return r;
    }
}

template<class X> void binary(mc::Run& run, const char* tn)
{
    auto g = grid<X>();
    const size_t CH = 8;
    for (int op = 0; op < NALL; ++op) for (size_t c = 0; c < CH; ++c) if (Is<X>::offers(op)) run.test(cat(tn, " ", OPN[op], "/", c), [&]
    {
        T st = struct_t({ prim_t(U8), prim_t(BOOL) });
        DynamicData a(xt::primitive_type<X>()), b(xt::primitive_type<X>());
        DynamicData s(xt::StructType("S").add_member("x", xt::primitive_type<uint8_t>()).add_member("b", xt::primitive_type<X>()));
        for (size_t i = c; i < g.size(); i += CH) for (size_t j = 0; j < g.size(); ++j)
        {
            X x = g[i], y = g[j];
            a = x; b = y;
            auto at = [&] { return cat(str(x), " ", OPN[op], " ", str(y)); };
            if (op >= LAND)
            {
                bool w = native_bool<X>(op, x, y), r = logic(op, a, b);
                if (w != r) fail(cat(at(), " gives ", r));
                if (i == c || j == 0) { s["b"] = y; if (logic(op, a, s["b"]) != w) fail(cat(at(), " with a member as operand")); }
                if (x == y && logic(op, a, a) != native_bool<X>(op, x, x)) fail(cat(at(), " with itself"));
            }
            else
            {
                X w;
                if (!native<X>(op, x, y, w)) continue;
                DynamicData r = arith(op, a, b);
                if (r.type().kind() != xt::primitive_type<X>().kind()) fail(cat(at(), " has type ", r.type().name()));
                X got = r.template value<X>();
                if (!same(got, w)) fail(cat(at(), " gives ", str(got), " instead of ", str(w)));
                if (j % 3 == 0 || i == c) { s["b"] = y; X g2 = arith(op, a, s["b"]).template value<X>(); if (!same(g2, w)) fail(cat(at(), " with a member as operand gives ", str(g2))); }
                if (!same<X>(a.template value<X>(), x) || !same<X>(b.template value<X>(), y)) fail(cat(at(), " changed an operand"));
                DynamicData e(a); DynamicData& ret = compound(op, e, b);
                if (&ret != &e || !same<X>(e.template value<X>(), w)) fail(cat(at(), " as compound assignment gives ", str(e.template value<X>())));
                if constexpr (!Is<X>::chr) { e = x; DynamicData& r2 = compound_native<X>(op, e, y); if (&r2 != &e || !same<X>(e.template value<X>(), w)) fail(cat(at(), " as compound assignment with a native operand gives ", str(e.template value<X>()))); }
                if (same(x, y)) { e = x; compound(op, e, e); if (!same<X>(e.template value<X>(), w)) fail(cat(at(), " as compound assignment with itself gives ", str(e.template value<X>()))); }
            }
            if (!same<X>(a.template value<X>(), x) || !same<X>(b.template value<X>(), y)) fail(cat(at(), " changed an operand"));
            run.transition();
        }
        run.trace(); run.state();
    });
}
template<class X> void unary(mc::Run& run, const char* tn)
{
    auto g = grid<X>();
    run.test(tn, [&]
    {
        for (X x : g)
        {
            run.note(str(x));
            DynamicData a = data<X>(x);
            using P = decltype(+x);
            if constexpr (Is<X>::flt || (Is<X>::integer && std::is_signed<X>::value))
            {
                bool ok = true; if constexpr (Is<X>::integer) ok = !(P(x) == std::numeric_limits<P>::min());
                if (ok) { DynamicData r = -a; MC_CHECK(r.type().kind() == a.type().kind() && same<X>(r.template value<X>(), X(-x)), "unary - gives ", str(r.template value<X>())); }
            }
            else MC_CHECK(mc::refused_rt([&] { -a; }), "unary - is not refused");
            if constexpr (Is<X>::integer && std::is_signed<X>::value) { DynamicData r = ~a; MC_CHECK(r.type().kind() == a.type().kind() && r.template value<X>() == X(~x), "~ gives ", str(r.template value<X>())); }
            else MC_CHECK(mc::refused_rt([&] { ~a; }), "~ is not refused");
            if constexpr (!Is<X>::flt) MC_CHECK(!a == !x, "! gives ", !a); else MC_CHECK(mc::refused_rt([&] { (void)!a; }), "! is not refused");
            MC_CHECK(same<X>(a.template value<X>(), x), "an operator changed its operand");
            for (int k = 0; k < 4; ++k)
            {
                DynamicData d(a); bool inc = k < 2;
                if constexpr (Is<X>::integer)
                {
                    if (std::is_signed<P>::value && sizeof(X) >= sizeof(int) && x == (inc ? std::numeric_limits<X>::max() : std::numeric_limits<X>::min())) continue;
                    X w = inc ? X(x + 1) : X(x - 1);
                    switch (k)
                    {
                        case 0: { DynamicData& r = ++d; MC_CHECK(&r == &d, "++ returns something else"); break; }
                        case 1: { DynamicData r = d++; MC_CHECK(r.template value<X>() == w, "postfix ++ returns ", str(r.template value<X>())); break; }
                        case 2: { DynamicData& r = --d; MC_CHECK(&r == &d, "-- returns something else"); break; }
                        default: { DynamicData r = d--; MC_CHECK(r.template value<X>() == w, "postfix -- returns ", str(r.template value<X>())); break; }
                    }
                    MC_CHECK(d.template value<X>() == w, inc ? "++" : "--", " leaves ", str(d.template value<X>()));
                }
                else
                {
                    MC_CHECK(mc::refused_rt([&] { switch (k) { case 0: ++d; break; case 1: d++; break; case 2: --d; break; default: d--; } }), "++/-- is not refused");
                    MC_CHECK(same<X>(d.template value<X>(), x), "a refused ++/-- changed the value");
                }
            }
            run.transition(8);
        }
        run.trace(); run.state();
    });
}
template<class F> void each_type(F f)
{
    f(bool(), "bool"); f(int8_t(), "int8"); f(uint8_t(), "uint8"); f(int16_t(), "int16"); f(uint16_t(), "uint16"); f(int32_t(), "int32"); f(uint32_t(), "uint32"); f(int64_t(), "int64"); f(uint64_t(), "uint64");
    f(float(), "float"); f(double(), "double"); f((long double)0, "long double"); f(char(), "char"); f(char16_t(), "char16"); f(wchar_t(), "wchar");
}
SUITE(binary_ops) { each_type([&](auto x, const char* n) { binary<decltype(x)>(run, n); }); }
SUITE(unary_ops) { each_type([&](auto x, const char* n) { unary<decltype(x)>(run, n); }); }

template<class X, class Y> void cast_one(const ReadableDynamicDataRef& r, X x, const char* yn)
{
    if constexpr (Is<X>::flt && !std::is_same<Y, bool>::value)
    {
        real_t v = std::is_floating_point<Y>::value ? real_t(x) : std::trunc(real_t(x));
        if (!(v >= real_t(std::numeric_limits<Y>::lowest()) && v <= real_t(std::numeric_limits<Y>::max()))) return;
    }
    Y got = r.cast<Y>();
    if (!same<Y>(got, static_cast<Y>(x))) fail(cat("cast<", yn, "> of ", str(x), " gives ", str(got)));
}
SUITE(casts)
{
    each_type([&](auto tag, const char* n)
    {
        using X = decltype(tag);
        run.test(n, [&]
        {
            for (X x : grid<X>())
            {
                DynamicData d = data<X>(x);
                DynamicData s(xt::StructType("S").add_member("x", xt::primitive_type<uint8_t>()).add_member("b", xt::primitive_type<X>())); s["b"] = x;
                each_type([&](auto y, const char* yn) { cast_one<X, decltype(y)>(d, x, yn); cast_one<X, decltype(y)>(s["b"], x, yn); run.transition(2); });
                std::string t = d.template cast<std::string>();
                if (t != std::to_string(x)) fail(cat("cast<std::string> of ", str(x), " gives ", t));
                MC_CHECK(same<X>(d.template value<X>(), x), "a cast changed the data");
            }
            run.trace(); run.state();
        });
    });
    for (auto& t : universe(2)) run.test("non-primitive/" + t->desc, [&]
    {
        const T& r = rget(t);
        auto vs = samples(t, 4);
        for (auto& v : vs)
        {
            auto d = make(t, v); run.note(show(t, v));
            if (is_num(r->k))
            {
                MC_CHECK(real_t(d->cast<double>()) == real_t(double(v.n)), "cast<double>");
                prim(r->k, [&](auto tag) { using X = typename decltype(tag)::type; MC_CHECK(d->cast<std::string>() == std::to_string(X(v.n)), "cast<std::string> gives ", d->cast<std::string>()); if (is_enum(r->k)) each_type([&](auto y, const char* yn) { cast_one<X, decltype(y)>(*d, X(v.n), yn); }); return 0; });
            }
            else
            {
                each_type([&](auto y, const char* yn) { using Y = decltype(y); MC_CHECK(mc::refused_rt([&] { (void)d->cast<Y>(); }), "cast<", yn, "> is not refused"); });
                if (r->k == STR) MC_CHECK(d->cast<std::string>() == native_str<char>(v), "cast<std::string> of a string");
                else MC_CHECK(mc::refused_rt([&] { (void)d->cast<std::string>(); }), "cast<std::string> is not refused");
            }
            expect(*d, t, v, "data after the casts"); run.transition(16);
        }
        run.trace(); run.state();
    });
}
// operators that are not offered, and operands of another type
SUITE(refused_ops)
{
    std::vector<T> ts = universe(2);
    for (auto& t : ts) run.test(t->desc, [&]
    {
        const T& r = rget(t); K k = r->k;
        for (auto& v : samples(t, 3))
        {
            auto a = make(t, v), b = make(t, v);
            bool flt = k == F32 || k == F64 || k == F128, chr = k == BOOL || k == C8 || k == C16 || k == WC, num_ = is_num(k) && !is_enum(k);
            for (int op = 0; op < NALL; ++op)
            {
                bool offered = num_ && (op >= LAND || (flt ? op <= DIV : !chr));
                run.note(cat(OPN[op], " of ", show(t, v)));
                if (!offered)
                {
                    if (op >= LAND) MC_CHECK(mc::refused_rt([&] { (void)logic(op, *a, *b); }), "not refused");
                    else
                    {
                        MC_CHECK(mc::refused_rt([&] { arith(op, *a, *b); }), "not refused");
                        MC_CHECK(mc::refused_rt([&] { compound(op, *a, *b); }), "compound assignment not refused");
                    }
                }
                if (op < LAND)
                {
                    // native operands: of a type that is not the data's own, or not offered
                    each_type([&](auto y, const char* yn)
                    {
                        using Y = decltype(y);
                        if constexpr (!Is<Y>::flt)
                        {
                            bool own = false; if (is_num(k)) own = prim(k, [&](auto tag) { return std::is_same<typename decltype(tag)::type, Y>::value; });
                            if (own && !(chr)) return;
                            if (is_enum(k) && prim(k, [](auto tag) { return sizeof(typename decltype(tag)::type); }) == sizeof(Y)) return;     // read by width
                            MC_CHECK(mc::refused_rt([&] { compound_native<Y>(op, *a, Y(1)); }), "compound assignment with a native ", yn, " not refused");
                        }
                    });
                }
                // an operand of another type
                for (K o : { BOOL, I8, U16, I32, U64, F32, F64, C8, STR })
                {
                    if (o == k || is_enum(k)) continue;
                    T ot = o == STR ? str_t(STR) : prim_t(o);
                    auto other = make(ot, samples(ot, 2).back());
                    if (op >= LAND)
                    {
                        // && and || do not read the right operand when the left one decides
                        if (num_) { bool l = v.n != 0; if (std::string(OPN[op]) == (l ? "||" : "&&")) continue; }
                        MC_CHECK(mc::refused_rt([&] { (void)logic(op, *a, *other); }), "with an operand of type ", kname(o), " not refused");
                    }
                    else MC_CHECK(mc::refused_rt([&] { arith(op, *a, *other); }) && mc::refused_rt([&] { compound(op, *a, *other); }), "with an operand of type ", kname(o), " not refused");
                }
                expect(*a, t, v, "left operand of a refused operator"); expect(*b, t, v, "right operand of a refused operator");
                run.transition();
            }
            if (is_str(k)) MC_CHECK(!*a == v.s.empty(), "! of a string");
            else if (!num_) MC_CHECK(mc::refused_rt([&] { (void)!*a; }), "! not refused");
            if (!num_)
            {
                MC_CHECK(mc::refused_rt([&] { -*a; }) && mc::refused_rt([&] { ~*a; }), "unary - or ~ not refused");
                MC_CHECK(mc::refused_rt([&] { ++*a; }) && mc::refused_rt([&] { (*a)++; }) && mc::refused_rt([&] { --*a; }) && mc::refused_rt([&] { (*a)--; }), "++ or -- not refused");
            }
            expect(*a, t, v, "operand of refused operators");
        }
        run.trace(); run.state();
    });
}
MC_MAIN
