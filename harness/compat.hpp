// Reference model of type compatibility and of conversion between compatible types, and the universe of types
// the pairs are taken from.
#ifndef VERIF_COMPAT_HPP
#define VERIF_COMPAT_HPP
#include "nav.hpp"
namespace m {

enum F : unsigned { SIGN = 1, WIDTH = 2, SEQB = 4, ARRB = 8, STRB = 16, NAMES = 32, MEMBERS = 64, MAPB = 128, NONE = 0xffffffffu };
inline std::string flags(unsigned f)
{
    if (f == NONE) return "NONE"; if (!f) return "EQUALS";
    std::string s; const char* n[] = { "SIGN", "WIDTH", "SEQ_BOUNDS", "ARRAY_BOUNDS", "STRING_BOUNDS", "NAMES", "MEMBERS", "MAP_BOUNDS" };
    for (int i = 0; i < 8; ++i) if (f & (1u << i)) s += std::string(s.empty() ? "" : "|") + n[i];
    if (f >> 8) s += "|?"; return s;
}
inline bool is_unsigned(K k) { return k == U8 || k == U16 || k == U32 || k == U64 || is_enum(k); }
inline size_t width(K k) { return prim(k, [](auto tag) { return sizeof(typename decltype(tag)::type); }); }
inline unsigned both(unsigned a, unsigned b) { return a == NONE || b == NONE ? unsigned(NONE) : a | b; }

// can data of type a be made from data of type b, and ignoring which differences?
inline unsigned compat(const T& a0, const T& b0)
{
    const T &a = rget(a0), &b = rget(b0);
    bool one_a = a->k == STRUCT && a->mem.size() == 1, one_b = b->k == STRUCT && b->mem.size() == 1;
    if (one_a) return compat(a->mem[0].t, one_b ? b->mem[0].t : b);
    if (one_b && a->k != STRUCT) return compat(a, b->mem[0].t);
    if (is_num(a->k))
    {
        if (!is_num(b->k) || (is_enum(b->k) && !is_enum(a->k))) return NONE;
        return (width(a->k) != width(b->k) ? WIDTH : 0u) | (is_unsigned(a->k) != is_unsigned(b->k) ? SIGN : 0u);
    }
    if (a->k != b->k) return NONE;
    switch (a->k)
    {
        case STR: case WSTR: case S16: return a->bound != b->bound ? STRB : 0u;
        case ARR: return both(compat(a->a, b->a), a->bound != b->bound ? ARRB : 0u);
        case SEQ: return both(compat(a->a, b->a), a->bound != b->bound ? SEQB : 0u);
        case MAP: return both(both(compat(a->a, b->a), compat(a->b, b->b)), a->bound != b->bound ? MAPB : 0u);
        default:
        {
            unsigned r = a->k == UNION ? compat(a->a, b->a) : 0u;
            if (a->mem.size() != b->mem.size()) r = both(r, MEMBERS);
            for (size_t i = 0; i < std::min(a->mem.size(), b->mem.size()); ++i)
                r = both(r, both(compat(a->mem[i].t, b->mem[i].t), a->mem[i].name != b->mem[i].name ? NAMES : 0u));
            return r;
        }
    }
}
inline std::string strip(const T& t0)
{
    const T& t = rget(t0);
    switch (t->k)
    {
        case ARR: return cat(strip(t->a), "[", t->bound, "]");
        case SEQ: return cat("seq<", strip(t->a), ",", t->bound, ">");
        case MAP: return cat("map<", strip(t->a), ",", strip(t->b), ",", t->bound, ">");
        default: return t->desc;
    }
}
// every map of the target has the key and value types of the map it corresponds to
inline bool maps_match(const T& a0, const T& b0)
{
    const T &a = rget(a0), &b = rget(b0);
    bool one_a = a->k == STRUCT && a->mem.size() == 1, one_b = b->k == STRUCT && b->mem.size() == 1;
    if (one_a) return maps_match(a->mem[0].t, one_b ? b->mem[0].t : b);
    if (one_b && a->k != STRUCT) return maps_match(a, b->mem[0].t);
    if (a->k != b->k) return true;
    switch (a->k)
    {
        case ARR: case SEQ: return maps_match(a->a, b->a);
        case MAP: return strip(a->a) == strip(b->a) && strip(a->b) == strip(b->b);
        case STRUCT: case UNION: for (size_t i = 0; i < std::min(a->mem.size(), b->mem.size()); ++i) if (!maps_match(a->mem[i].t, b->mem[i].t)) return false; return true;
        default: return true;
    }
}
// map keys and values of exactly the same named type (no alias resolution needed below the key itself)
struct Undefined {};        // native C++ leaves the conversion of the value undefined, or the enumeration has no such value
inline Val convert(const T& a0, const T& b0, const Val& v)
{
    const T &a = rget(a0), &b = rget(b0);
    bool one_a = a->k == STRUCT && a->mem.size() == 1, one_b = b->k == STRUCT && b->mem.size() == 1;
    Val r;
    if (one_a) { r.k = { one_b ? convert(a->mem[0].t, b->mem[0].t, v.k[0]) : convert(a->mem[0].t, b, v) }; return r; }
    if (one_b && a->k != STRUCT) return convert(a, b->mem[0].t, v.k[0]);
    if (is_num(a->k))
    {
        if (a->k == b->k && !is_enum(a->k)) return v;
        r.n = prim(b->k, [&](auto bt) { using B = typename decltype(bt)::type; B x = B(v.n);
            return prim(a->k, [&](auto at) -> real_t { using A = typename decltype(at)::type;
                if constexpr (std::is_floating_point<B>::value && !std::is_same<A, bool>::value)
                {
                    real_t lo = real_t(std::numeric_limits<A>::lowest()), hi = real_t(std::numeric_limits<A>::max());
                    real_t tr = std::is_floating_point<A>::value ? real_t(x) : std::trunc(real_t(x));
                    if (tr < lo || tr > hi) throw Undefined{};
                }
                return real_t(static_cast<A>(x)); }); });
        if (is_enum(a->k))
        {
            bool declared = false; for (auto& e : a->en) if (real_t(e.second) == r.n) declared = true;
            if (!declared) throw Undefined{};
        }
        return r;
    }
    switch (a->k)
    {
        case STR: case WSTR: case S16: return cut(a, v);
        case SEQ: for (auto& e : v.k) if (!a->bound || r.k.size() < a->bound) r.k.push_back(convert(a->a, b->a, e)); return r;
        case ARR: for (size_t i = 0; i < a->bound; ++i) r.k.push_back(i < v.k.size() ? convert(a->a, b->a, v.k[i]) : defaults(a->a)); return r;
        case MAP: return v;
        case STRUCT: for (size_t i = 0; i < a->mem.size(); ++i) r.k.push_back(i < b->mem.size() ? convert(a->mem[i].t, b->mem[i].t, v.k[i]) : defaults(a->mem[i].t)); return r;
        default:    // UNION
        {
            if (v.sel < 0 || size_t(v.sel) >= a->mem.size()) return defaults(a);
            auto& ls = a->mem[v.sel].labels;
            bool keep = v.n != DEFAULT_DISC && std::find(ls.begin(), ls.end(), int64_t(v.n)) != ls.end();
            return active(*a, v.sel, keep ? v.n : some_label(*a, v.sel), convert(a->mem[v.sel].t, b->mem[v.sel].t, v.k[0]));
        }
    }
}
// unions: which labels must be kept, and which may be any label of the member
inline bool same_converted(const T& a0, const T& b0, const Val& src, const Val& want, const Val& got)
{
    const T &a = rget(a0), &b = rget(b0);
    bool one_a = a->k == STRUCT && a->mem.size() == 1, one_b = b->k == STRUCT && b->mem.size() == 1;
    if (one_a) return got.k.size() == 1 && (one_b ? same_converted(a->mem[0].t, b->mem[0].t, src.k[0], want.k[0], got.k[0]) : same_converted(a->mem[0].t, b, src, want.k[0], got.k[0]));
    if (one_b && a->k != STRUCT) return same_converted(a, b->mem[0].t, src.k[0], want, got);
    switch (a->k)
    {
        case SEQ: case ARR: case STRUCT:
            if (want.k.size() != got.k.size()) return false;
            for (size_t i = 0; i < want.k.size(); ++i)
            {
                bool from = i < src.k.size();
                if (a->k == STRUCT ? (from ? !same_converted(a->mem[i].t, b->mem[i].t, src.k[i], want.k[i], got.k[i]) : want.k[i] != got.k[i])
                                   : (from ? !same_converted(a->a, b->a, src.k[i], want.k[i], got.k[i]) : want.k[i] != got.k[i])) return false;
            }
            return true;
        case MAP:
            if (!a->bound || src.k.size() <= a->bound) return want == got;
            if (got.k.size() != a->bound) return false;
            for (auto& p : got.k) if (std::find(src.k.begin(), src.k.end(), p) == src.k.end()) return false;
            return true;
        case UNION:
        {
            if (want.sel != got.sel || want.k.size() != got.k.size()) return false;
            if (want.sel < 0) return true;
            if (src.sel != want.sel) return want == got;      // default of the target
            auto& ls = a->mem[want.sel].labels;
            bool keep = src.n != DEFAULT_DISC && std::find(ls.begin(), ls.end(), int64_t(src.n)) != ls.end();
            if (keep && want.n != got.n) return false;
            return same_converted(a->mem[want.sel].t, b->mem[want.sel].t, src.k[0], want.k[0], got.k[0]);
        }
        default: return want == got;
    }
}

inline T renamed(const T& t)
{
    std::vector<T> ts; for (auto& x : t->mem) ts.push_back(x.t);
    if (t->k == STRUCT) return struct_t(ts, "r");
    std::vector<Case> cs; for (auto& x : t->mem) cs.push_back({ x.labels, x.t, x.def }); return union_t(t->a, cs, "r");
}
// types that differ from t in one respect
inline std::vector<T> variants(const T& t)
{
    std::vector<T> r; T u8 = prim_t(U8), str = str_t(STR);
    switch (t->k)
    {
        case ARR: r = { arr_t(t->a, 1), arr_t(t->a, 3) }; break;
        case SEQ: r = { seq_t(t->a, 1), seq_t(t->a, 3), seq_t(t->a) }; break;
        case MAP: r = { map_t(t->a, t->b, 1), map_t(t->a, t->b, 2), map_t(alias_t(t->a), t->b), map_t(t->a, struct_t({ t->b })), map_t(t->a, alias_t(t->b)) }; break;
        case STRUCT:
        {
            std::vector<T> ts; for (auto& x : t->mem) ts.push_back(x.t);
            r.push_back(renamed(t));
            auto more = ts; more.push_back(u8); r.push_back(struct_t(more)); more.push_back(str); r.push_back(struct_t(more));
            auto less = ts; less.pop_back(); r.push_back(struct_t(less));
            auto first = ts; first.insert(first.begin(), u8); r.push_back(struct_t(first));
            for (size_t i = 0; i < ts.size(); ++i) { auto o = ts; o[i] = alias_t(o[i]); r.push_back(struct_t(o)); o[i] = struct_t({ ts[i] }); r.push_back(struct_t(o)); }
            break;
        }
        case UNION:
        {
            std::vector<Case> cs; for (auto& x : t->mem) cs.push_back({ x.labels, x.t, x.def });
            r.push_back(renamed(t));
            auto more = cs; more.push_back({ {100, 101}, str }); if (!is_enum(t->a->k)) r.push_back(union_t(t->a, more));
            auto less = cs; if (less.size() > 1) { less.pop_back(); r.push_back(union_t(t->a, less)); }
            auto al = cs; al[0].t = alias_t(al[0].t); r.push_back(union_t(t->a, al));
            if (!is_enum(t->a->k))
            {
                auto lab = cs; for (size_t i = 0; i < lab.size(); ++i) for (auto& l : lab[i].labels) l += 20; r.push_back(union_t(t->a, lab));           // other labels
                if (cs.size() == 2 && cs[0].labels.size() && cs[1].labels.size()) { auto sw = cs; std::swap(sw[0].labels, sw[1].labels); r.push_back(union_t(t->a, sw)); }
                for (K k : { U8, I64 }) r.push_back(union_t(prim_t(k), cs));
            }
            break;
        }
        default: break;
    }
    return r;
}
inline std::vector<T> pair_universe()
{
    std::vector<T> r = leaves();
    for (K k : { STR, WSTR, S16 }) r.push_back(str_t(k, 5));
    r.push_back(enum_t(E8, { {"A", 0}, {"B", 1}, {"C", 2} }));
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    std::vector<T> level2;
    for (auto& c : std::vector<T>{ i32, str, u8, enum_t(E16), str_t(S16, 3), prim_t(F64), prim_t(U32), prim_t(BOOL), str_t(STR, 3), enum_t(E8), prim_t(I16) })
    {
        bool rep = c->k == STR || c->k == U8 || c->k == I32 || c->k == E16 || mc::thorough();
        for (auto& w : wrap(c, c->k == STR ? u8 : str)) { if (!rep && (w->k == UNION || (w->k == STRUCT && w->mem.size() > 2) || w->k == ALIAS)) continue; level2.push_back(w); if (c->k == I32 || (c->k == STR && !c->bound)) for (auto& x : variants(w)) level2.push_back(x); }
    }
    r.insert(r.end(), level2.begin(), level2.end());
    std::vector<T> inner{ seq_t(str, 2), seq_t(str), arr_t(i32, 2), arr_t(prim_t(I16), 3), struct_t({ str, i32 }), struct_t({ str, i32 }, "r"), struct_t({ i32 }), map_t(u8, str), map_t(u8, str, 2), map_t(u8, i32),
        union_t(i32, { {{1, 2}, str}, {{3}, u8} }), union_t(prim_t(U8), { {{3}, str_t(STR, 3)}, {{1}, u8} }), alias_t(str_t(STR, 3)), alias_t(seq_t(i32, 2)) };
    if (mc::thorough()) for (auto& w : wrap(i32, str)) inner.push_back(w);
    for (auto& c : inner)
        for (auto& w : std::vector<T>{ arr_t(c, 2), arr_t(c, 3), seq_t(c), seq_t(c, 1), map_t(u8, c), struct_t({ c }), struct_t({ c, u8 }), struct_t({ c, u8, str }), union_t(i32, { {{1, 2}, u8}, {{4, 5}, c} }), alias_t(alias_t(c)) }) r.push_back(w);
    std::vector<T> u; std::set<std::string> seen;
    for (auto& t : r) if (seen.insert(t->desc).second) u.push_back(t);
    return u;
}
} // namespace m
#endif
