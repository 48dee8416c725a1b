// Reference model of xtypes values (boring on purpose) plus factories that build the real types.
// Only the public API of the library is used.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "mc.hpp"
#include <xtypes/xtypes.hpp>
#include <algorithm>
#include <climits>
#include <cmath>
#include <memory>

namespace m {
namespace xt = eprosima::xtypes;
using xt::DynamicData; using xt::DynamicType; using xt::ReadableDynamicDataRef; using xt::WritableDynamicDataRef;
using mc::cat; using mc::fail;

enum K { BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC, E8, E16, E32,
         STR, WSTR, S16, ARR, SEQ, MAP, STRUCT, UNION, ALIAS };

struct Ty;
using T = std::shared_ptr<const Ty>;
struct Mem { std::string name; T t; std::vector<int64_t> labels; bool def = false; };
using real_t = long double;
struct Ty
{
    K k; std::string desc; uint32_t bound = 0;
    T a, b;                                   // content | key,value | discriminator | alias target
    std::vector<Mem> mem;
    std::vector<std::pair<std::string, uint32_t>> en;
    DynamicType::Ptr real;
    const DynamicType& rt() const { return *real; }
};

inline const T& rget(const T& t) { const T* p = &t; while ((*p)->k == ALIAS) p = &(*p)->a; return *p; }
inline bool is_num(K k) { return k <= E32; }
inline bool is_str(K k) { return k == STR || k == WSTR || k == S16; }
inline bool is_enum(K k) { return k >= E8 && k <= E32; }

struct Val
{
    real_t n = 0; std::u32string s; std::vector<Val> k; int sel = -1;
};
inline int cmp(const Val& a, const Val& b)
{
    if (a.n != b.n) return a.n < b.n ? -1 : 1;
    if (a.s != b.s) return a.s < b.s ? -1 : 1;
    if (a.sel != b.sel) return a.sel < b.sel ? -1 : 1;
    if (a.k.size() != b.k.size()) return a.k.size() < b.k.size() ? -1 : 1;
    for (size_t i = 0; i < a.k.size(); ++i) { int c = cmp(a.k[i], b.k[i]); if (c) return c; }
    return 0;
}
inline bool operator==(const Val& a, const Val& b) { return cmp(a, b) == 0; }
inline bool operator!=(const Val& a, const Val& b) { return cmp(a, b) != 0; }
inline bool operator<(const Val& a, const Val& b) { return cmp(a, b) < 0; }

constexpr real_t DEFAULT_DISC = 1e30L;      // discriminator of a default member that is nobody's label

inline std::string show(const T& t, const Val& v)
{
    std::ostringstream os;
    K k = t->k;
    if (k == ALIAS) return show(t->a, v);
    if (is_num(k)) { os << (double)v.n; if (v.n == std::floor(v.n) && std::fabs(v.n) > 1e6L) os << "(" << (long long)v.n << ")"; }
    else if (is_str(k)) { os << '"'; for (char32_t c : v.s) { if (c >= 32 && c < 127) os << char(c); else os << "\\x" << std::hex << uint32_t(c) << std::dec; } os << '"'; }
    else if (k == UNION)
    {
        if (v.sel < 0) os << "<none>";
        else { os << "<" << t->mem[v.sel].name << "@"; if (v.n == DEFAULT_DISC) os << "default"; else os << (double)v.n;
               os << ":" << (v.k.empty() ? std::string("?") : show(t->mem[v.sel].t, v.k[0])) << ">"; }
    }
    else if (k == STRUCT)
    {
        os << "{"; for (size_t i = 0; i < v.k.size() && i < t->mem.size(); ++i) os << (i ? "," : "") << show(t->mem[i].t, v.k[i]); os << "}";
    }
    else if (k == MAP)
    {
        os << "{"; for (size_t i = 0; i < v.k.size(); ++i) os << (i ? "," : "") << show(t->a, v.k[i].k[0]) << "=" << show(t->b, v.k[i].k[1]); os << "}";
    }
    else { os << "["; for (size_t i = 0; i < v.k.size(); ++i) os << (i ? "," : "") << show(t->a, v.k[i]); os << "]"; }
    return os.str();
}

// ---- primitive dispatch ------------------------------------------------------------------------------
template<class X> struct Tag { using type = X; };
template<class F> auto prim(K k, F f)
{
    switch (k)
    {
        case BOOL: return f(Tag<bool>{});
        case I8: return f(Tag<int8_t>{});
        case U8: case E8: return f(Tag<uint8_t>{});
        case I16: return f(Tag<int16_t>{});
        case U16: case E16: return f(Tag<uint16_t>{});
        case I32: return f(Tag<int32_t>{});
        case U32: case E32: return f(Tag<uint32_t>{});
        case I64: return f(Tag<int64_t>{});
        case U64: return f(Tag<uint64_t>{});
        case F32: return f(Tag<float>{});
        case F64: return f(Tag<double>{});
        case F128: return f(Tag<long double>{});
        case C8: return f(Tag<char>{});
        case C16: return f(Tag<char16_t>{});
        case WC: return f(Tag<wchar_t>{});
        default: fail("prim: not a primitive kind");
    }
}
inline const char* kname(K k)
{
    static const char* n[] = { "bool","i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","f128","c8","c16","wc","e8","e16","e32",
        "str","wstr","s16","arr","seq","map","struct","union","alias" };
    return n[k];
}

// ---- factories ---------------------------------------------------------------------------------------
inline T prim_t(K k)
{
    auto t = std::make_shared<Ty>(); t->k = k; t->desc = kname(k);
    t->real = prim(k, [](auto tag) { return DynamicType::Ptr(xt::primitive_type<typename decltype(tag)::type>()); });
    return t;
}
template<class E> DynamicType::Ptr build_enum(const std::string& name, const std::vector<std::pair<std::string, uint32_t>>& en)
{
    xt::EnumerationType<E> e(name);
    for (auto& x : en) e.add_enumerator(x.first, E(x.second));
    return DynamicType::Ptr(e);
}
inline T enum_t(K k, std::vector<std::pair<std::string, uint32_t>> en = {{"ZERO", 0}, {"ONE", 1}, {"FIVE", 5}, {"NINE", 9}})
{
    auto t = std::make_shared<Ty>(); t->k = k; t->desc = kname(k); t->en = en;
    for (auto& x : en) if (!(en.size() == 4 && en[0].first == "ZERO")) t->desc += cat("_", x.second);
    t->real = k == E8 ? build_enum<uint8_t>(t->desc, en) : k == E16 ? build_enum<uint16_t>(t->desc, en) : build_enum<uint32_t>(t->desc, en);
    return t;
}
inline T str_t(K k, uint32_t bound = 0)
{
    auto t = std::make_shared<Ty>(); t->k = k; t->bound = bound; t->desc = kname(k) + (bound ? std::to_string(bound) : "");
    t->real = k == STR ? DynamicType::Ptr(xt::StringType(bound)) : k == WSTR ? DynamicType::Ptr(xt::WStringType(bound)) : DynamicType::Ptr(xt::String16Type(bound));
    return t;
}
inline T arr_t(const T& c, uint32_t n)
{
    auto t = std::make_shared<Ty>(); t->k = ARR; t->bound = n; t->a = c; t->desc = cat(c->desc, "[", n, "]");
    t->real = DynamicType::Ptr(xt::ArrayType(c->rt(), n));
    return t;
}
inline T seq_t(const T& c, uint32_t b = 0)
{
    auto t = std::make_shared<Ty>(); t->k = SEQ; t->bound = b; t->a = c; t->desc = cat("seq<", c->desc, b ? cat(",", b) : std::string(), ">");
    t->real = DynamicType::Ptr(xt::SequenceType(c->rt(), b));
    return t;
}
inline T map_t(const T& k, const T& v, uint32_t b = 0)
{
    auto t = std::make_shared<Ty>(); t->k = MAP; t->bound = b; t->a = k; t->b = v;
    t->desc = cat("map<", k->desc, ",", v->desc, b ? cat(",", b) : std::string(), ">");
    t->real = DynamicType::Ptr(xt::MapType(k->rt(), v->rt(), b));
    return t;
}
inline T struct_t(const std::vector<T>& ts, const std::string& prefix = "m", const std::string& name = "")
{
    auto t = std::make_shared<Ty>(); t->k = STRUCT; t->desc = "S{";
    for (size_t i = 0; i < ts.size(); ++i) { t->mem.push_back({prefix + std::to_string(i), ts[i], {}, false}); t->desc += (i ? "," : "") + ts[i]->desc; }
    t->desc += "}"; if (prefix != "m") t->desc += prefix;
    xt::StructType s(name.empty() ? t->desc : name);
    for (auto& x : t->mem) s.add_member(x.name, x.t->rt());
    t->real = DynamicType::Ptr(s);
    return t;
}
inline T derived_t(const T& parent, const std::vector<T>& ts)
{
    auto t = std::make_shared<Ty>(); t->k = STRUCT; t->desc = parent->desc + ":D{";
    t->mem = parent->mem;
    xt::StructType s(t->desc + "}", &static_cast<const xt::StructType&>(parent->rt()));
    for (size_t i = 0; i < ts.size(); ++i)
    {
        t->mem.push_back({"d" + std::to_string(i), ts[i], {}, false}); t->desc += (i ? "," : "") + ts[i]->desc;
        s.add_member(t->mem.back().name, ts[i]->rt());
    }
    t->desc += "}";
    t->real = DynamicType::Ptr(s);
    return t;
}
// members: {labels, type, is_default}
struct Case { std::vector<int64_t> labels; T t; bool def = false; };
inline T union_t(const T& disc, const std::vector<Case>& cs, const std::string& prefix = "u")
{
    auto t = std::make_shared<Ty>(); t->k = UNION; t->a = disc; t->desc = "U(" + disc->desc + "){";
    for (size_t i = 0; i < cs.size(); ++i)
    {
        t->mem.push_back({prefix + std::to_string(i), cs[i].t, cs[i].labels, cs[i].def});
        t->desc += i ? ";" : "";
        for (auto l : cs[i].labels) t->desc += std::to_string(l) + ":";
        if (cs[i].def) t->desc += "default:";
        t->desc += cs[i].t->desc;
    }
    t->desc += "}"; if (prefix != "u") t->desc += prefix;
    xt::UnionType u(t->desc, disc->rt());
    for (auto& x : t->mem) u.add_case_member<int64_t>(x.labels, x.name, x.t->rt(), x.def);
    t->real = DynamicType::Ptr(u);
    return t;
}
inline T alias_t(const T& x, const std::string& name = "")
{
    auto t = std::make_shared<Ty>(); t->k = ALIAS; t->a = x; t->desc = "@" + x->desc;
    t->real = DynamicType::Ptr(xt::AliasType(x->rt(), name.empty() ? "A_" + x->desc : name));
    return t;
}

// ---- values ------------------------------------------------------------------------------------------
inline int default_member(const Ty& u) { for (size_t i = 0; i < u.mem.size(); ++i) if (u.mem[i].def) return int(i); return -1; }
inline int label_owner(const Ty& u, real_t d)
{
    for (size_t i = 0; i < u.mem.size(); ++i) for (auto l : u.mem[i].labels) if (real_t(l) == d) return int(i);
    return -1;
}
inline Val num(real_t n) { Val v; v.n = n; return v; }
inline Val text(const std::string& s) { Val v; for (unsigned char c : s) v.s += char32_t(c); return v; }
inline Val defaults(const T& t);
inline Val active(const Ty& u, int i, real_t d, const Val& c) { (void)u; Val v; v.sel = i; v.n = d; v.k = {c}; return v; }
// any label of the member (or the default marker)
inline real_t some_label(const Ty& u, int i) { return u.mem[i].labels.empty() ? DEFAULT_DISC : real_t(u.mem[i].labels[0]); }

inline Val defaults(const T& t)
{
    Val v;
    switch (t->k)
    {
        case ALIAS: return defaults(t->a);
        case ARR: { Val e = defaults(t->a); v.k.assign(t->bound, e); break; }
        case STRUCT: for (auto& x : t->mem) v.k.push_back(defaults(x.t)); break;
        case UNION: { int d = default_member(*t); if (d >= 0) v = active(*t, d, some_label(*t, d), defaults(t->mem[d].t)); break; }
        default: break;
    }
    return v;
}
inline Val cut(const T& t, Val v) { if (t->bound && v.s.size() > t->bound) v.s.resize(t->bound); return v; }

// a union of equal content may carry any label of its active member when it was activated by name:
// normal form for comparing against models that do not prescribe which label was chosen
inline Val norm_labels(const T& t, Val v)
{
    if (t->k == ALIAS) return norm_labels(t->a, v);
    if (t->k == UNION) { if (v.sel >= 0) { v.n = some_label(*t, v.sel); v.k[0] = norm_labels(t->mem[v.sel].t, v.k[0]); } }
    else if (t->k == STRUCT) for (size_t i = 0; i < v.k.size(); ++i) v.k[i] = norm_labels(t->mem[i].t, v.k[i]);
    else if (t->k == MAP) for (auto& p : v.k) { p.k[0] = norm_labels(t->a, p.k[0]); p.k[1] = norm_labels(t->b, p.k[1]); }
    else for (auto& e : v.k) e = norm_labels(t->a, e);
    return v;
}

inline void sort_map(Val& v)
{
    std::sort(v.k.begin(), v.k.end(), [](const Val& a, const Val& b) { return a.k[0] < b.k[0]; });
}

inline Val read(const ReadableDynamicDataRef& r, const T& t)
{
    Val v;
    switch (t->k)
    {
        case ALIAS: return read(r, t->a);
        case STR: { const std::string& s = r.value<std::string>(); for (unsigned char c : s) v.s += char32_t(c); break; }
        case WSTR: { const std::wstring& s = r.value<std::wstring>(); for (wchar_t c : s) v.s += char32_t(c); break; }
        case S16: { const std::u16string& s = r.value<std::u16string>(); for (char16_t c : s) v.s += char32_t(c); break; }
        case ARR: case SEQ:
        {
            size_t n = r.size();
            if (t->k == ARR && n != t->bound) fail(cat("array of dimension ", t->bound, " reports size ", n));
            for (size_t i = 0; i < n; ++i) v.k.push_back(read(r[i], t->a));
            break;
        }
        case MAP:
        {
            size_t n = 0;
            for (ReadableDynamicDataRef p : r)
            {
                Val e; e.k = { read(p[0], t->a), read(p[1], t->b) }; v.k.push_back(e); ++n;
            }
            if (n != r.size()) fail(cat("map iteration visits ", n, " pairs, size() is ", r.size()));
            sort_map(v);
            for (size_t i = 1; i < v.k.size(); ++i) if (v.k[i].k[0] == v.k[i - 1].k[0]) fail("map holds a key twice");
            break;
        }
        case STRUCT:
            for (size_t i = 0; i < t->mem.size(); ++i) v.k.push_back(read(r[i], t->mem[i].t));
            break;
        case UNION:
        {
            const xt::Member* cur = nullptr;
            try { cur = &r.current_case(); } catch (const std::runtime_error&) {}
            real_t d = read(r.d(), t->a).n;
            if (!cur)
            {
                int o = label_owner(*t, d);
                if (o >= 0) fail(cat("no member active although the discriminator is label ", (double)d));
                if (default_member(*t) >= 0) fail("union with a default member has no active member");
                break;
            }
            for (size_t i = 0; i < t->mem.size(); ++i) if (t->mem[i].name == cur->name()) v.sel = int(i);
            if (v.sel < 0) fail("current_case() is not a member");
            int o = label_owner(*t, d);
            if (o >= 0 && o != v.sel) fail(cat("discriminator ", (double)d, " is a label of member ", o, " but member ", v.sel, " is active"));
            if (o < 0 && !(t->mem[v.sel].def)) fail(cat("discriminator ", (double)d, " is no label of the active member ", v.sel));
            v.n = o >= 0 ? d : DEFAULT_DISC;
            v.k.push_back(read(r[t->mem[v.sel].name], t->mem[v.sel].t));
            break;
        }
        case BOOL: { uint8_t byte; memcpy(&byte, &r.value<bool>(), 1); v.n = byte; break; }   // whatever is stored
        default:
            v.n = prim(t->k, [&](auto tag) { return real_t(r.value<typename decltype(tag)::type>()); });
    }
    return v;
}

template<class C> std::basic_string<C> native_str(const Val& v) { std::basic_string<C> s; for (char32_t c : v.s) s += C(c); return s; }

inline void write_leaf(WritableDynamicDataRef w, const T& t0, const Val& v)
{
    const T& t = rget(t0);
    switch (t->k)
    {
        case STR: w.value<std::string>(native_str<char>(v)); break;
        case WSTR: w.value<std::wstring>(native_str<wchar_t>(v)); break;
        case S16: w.value<std::u16string>(native_str<char16_t>(v)); break;
        default: prim(t->k, [&](auto tag) { using X = typename decltype(tag)::type; w.value<X>(X(v.n)); });
    }
}

// brings freshly default-constructed data to value v. style selects different histories leading to it
inline void fill(WritableDynamicDataRef w, const T& t, const Val& v, int style = 0)
{
    switch (t->k)
    {
        case ALIAS: fill(w, t->a, v, style); break;
        case ARR: for (size_t i = 0; i < v.k.size(); ++i) fill(w[i], t->a, v.k[i], style); break;
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) fill(style & 1 ? w[t->mem[i].name] : w[i], t->mem[i].t, v.k[i], style); break;
        case SEQ:
            if (style & 1) { w.resize(v.k.size()); for (size_t i = 0; i < v.k.size(); ++i) fill(w[i], t->a, v.k[i], style); }
            else for (auto& e : v.k) { DynamicData d(t->a->rt()); fill(d.ref(), t->a, e, style); w.push(d); }
            break;
        case MAP:
            for (size_t j = 0; j < v.k.size(); ++j)
            {
                auto& e = v.k[style & 1 ? v.k.size() - 1 - j : j];
                DynamicData key(t->a->rt()); fill(key.ref(), t->a, e.k[0], style);
                fill(w[key], t->b, e.k[1], style);
            }
            break;
        case UNION:
            if (v.sel < 0) break;
            if (style & 1)   // detour over the other members
                for (size_t i = 0; i < t->mem.size(); ++i) if (int(i) != v.sel) { auto r = w[t->mem[i].name]; (void)r; }
            fill(w[t->mem[v.sel].name], t->mem[v.sel].t, v.k[0], style);
            if (v.n != DEFAULT_DISC && read(w.cref().d(), t->a).n != v.n) w.d(int64_t(v.n));
            break;
        default: write_leaf(w, t, v);
    }
}

inline std::unique_ptr<DynamicData> make(const T& t, const Val& v, int style = 0)
{
    auto d = std::make_unique<DynamicData>(t->rt());
    fill(d->ref(), t, v, style);
    return d;
}
inline void expect(const ReadableDynamicDataRef& r, const T& t, const Val& v, const std::string& what)
{
    Val g = read(r, t);
    if (!(g == v)) fail(cat(what, ": expected ", show(t, v), " but holds ", show(t, g), " (", t->desc, ")"));
}

// small value alphabet of a type: default first, then simplest-first distinct values
inline void add_uniq(std::vector<Val>& r, const Val& v) { for (auto& x : r) if (x == v) return; r.push_back(v); }
inline std::vector<Val> samples(const T& t, size_t n = 4)
{
    std::vector<Val> r;
    switch (t->k)
    {
        case ALIAS: return samples(t->a, n);
        case BOOL: r = { num(0), num(1) }; break;
        case E8: case E16: case E32: for (auto& e : t->en) r.push_back(num(e.second)); break;
        case F32: case F64: case F128: r = { num(0), num(1.5), num(-2.25), num(1048576) }; break;
        case STR: case WSTR: case S16:
            for (auto s : { std::string(), std::string("a"), std::string("a\0b", 3), std::string("a text longer than the small-string buffer") }) add_uniq(r, cut(t, text(s)));
            if (t->k != STR) { Val v; v.s = { 0x20AC, 0xD7FF }; add_uniq(r, cut(t, v)); }
            break;
        case ARR:
        {
            auto e = samples(t->a, n); Val d = defaults(t); r.push_back(d);
            for (size_t p : { size_t(t->bound - 1), size_t(0) }) for (size_t i = 1; i < e.size(); ++i) { Val v = d; v.k[p] = e[i]; add_uniq(r, v); if (p == 0 && e.size() > 2) { v.k[t->bound - 1] = e[2]; add_uniq(r, v); } }
            if (r.size() > n && n >= 3) r = { r[0], r[1], r.back() , r[2] };
            break;
        }
        case SEQ:
        {
            auto e = samples(t->a, n); size_t cap = t->bound ? t->bound : 9;
            r.push_back(Val{});
            Val v1; v1.k = { e.size() > 1 ? e[1] : e[0] }; r.push_back(v1);
            if (cap >= 2) { Val v; v.k = { e[0], e.back() }; add_uniq(r, v); v.k = { e.back(), e[0] }; add_uniq(r, v); }
            Val v0; v0.k = { e[0] }; add_uniq(r, v0);
            if (cap >= 3) { Val v; v.k = { e.back(), e[0], e[0] }; add_uniq(r, v); }
            break;
        }
        case MAP:
        {
            auto k = samples(t->a, n), e = samples(t->b, n); size_t cap = t->bound ? t->bound : 9;
            auto pr = [](const Val& a, const Val& b) { Val p; p.k = { a, b }; return p; };
            r.push_back(Val{});
            Val v; v.k = { pr(k.size() > 1 ? k[1] : k[0], e.size() > 1 ? e[1] : e[0]) }; r.push_back(v);
            if (cap >= 2 && k.size() > 1) { Val w; w.k = { pr(k[0], e.back()), pr(k.back(), e[0]) }; sort_map(w); add_uniq(r, w); }
            v.k[0].k[1] = e[0]; add_uniq(r, v);
            v.k = { pr(k[0], e[0]) }; add_uniq(r, v);
            break;
        }
        case STRUCT:
        {
            Val d = defaults(t); r.push_back(d);
            for (size_t i = 0; i < t->mem.size(); ++i) { auto e = samples(t->mem[i].t, n); if (e.size() > 1) { Val v = d; v.k[i] = e[1]; add_uniq(r, v); } }
            Val v = d; for (size_t i = 0; i < t->mem.size(); ++i) { auto e = samples(t->mem[i].t, n); v.k[i] = e.back(); } add_uniq(r, v);
            for (size_t i = 0; i < t->mem.size(); ++i) { auto e = samples(t->mem[i].t, n); if (e.size() > 2) { Val w = d; w.k[i] = e[2]; add_uniq(r, w); } }
            break;
        }
        case UNION:
            r.push_back(defaults(t));
            for (size_t i = 0; i < t->mem.size(); ++i)
            {
                auto e = samples(t->mem[i].t, n);
                add_uniq(r, active(*t, int(i), some_label(*t, int(i)), e.size() > 1 ? e[1] : e[0]));
            }
            for (size_t i = 0; i < t->mem.size(); ++i)
            {
                auto e = samples(t->mem[i].t, n);
                add_uniq(r, active(*t, int(i), some_label(*t, int(i)), e[0]));
                for (auto l : t->mem[i].labels) add_uniq(r, active(*t, int(i), real_t(l), e.back()));
            }
            break;
        case C8: r = { num(0), num('a'), num('~'), num(127) }; break;
        case C16: case WC: r = { num(0), num('a'), num(0x20AC), num(0xFFFD) }; break;
        default:
            r = { num(0), num(1) };
            prim(t->k, [&](auto tag) { using X = typename decltype(tag)::type;
                if constexpr (std::is_arithmetic<X>::value) {
                    r.push_back(num(real_t(std::numeric_limits<X>::max())));
                    r.push_back(std::numeric_limits<X>::lowest() < 0 ? num(real_t(std::numeric_limits<X>::lowest())) : num(7)); } return 0; });
    }
    if (r.size() > n) r.resize(n);
    return r;
}

// n pairwise different values of a type (fewer if it has fewer), not related to samples()
inline std::vector<Val> distinct(const T& t, size_t n)
{
    std::vector<Val> r;
    auto combos = [&](const std::vector<T>& parts, auto build)
    {
        // vary one part, then two, ... : value i uses element (i / stride) % size of each part
        std::vector<std::vector<Val>> e; for (auto& p : parts) e.push_back(distinct(p, n));
        for (size_t i = 0; r.size() < n && i < n * n + 4; ++i)
        {
            std::vector<Val> k; size_t x = i;
            for (size_t j = 0; j < e.size(); ++j) { size_t m = j + 1 < e.size() ? std::min<size_t>(3, e[j].size()) : e[j].size(); k.push_back(e[j][x % m]); x /= m; }
            add_uniq(r, build(k));
        }
    };
    switch (t->k)
    {
        case ALIAS: return distinct(t->a, n);
        case BOOL: r = { num(1), num(0) }; break;
        case E8: case E16: case E32: for (auto& e : t->en) r.push_back(num(e.second)); break;
        case STR: case WSTR: case S16:
            for (size_t i = 0; r.size() < n && i < 4 * n; ++i)
            {
                Val v; size_t x = i; while (x) { v.s += char32_t('a' + x % 26); x /= 26; }
                if (i % 5 == 4) v.s += U"a rather long text that does not fit in a small buffer";
                if (i % 7 == 6) v.s = std::u32string(1, 'Z') + v.s;
                if (i == 2 || i == 3) { v.s.insert(0, 2, U'a'); v.s[1] = 0; }  // "a", "a\0b", "a\0c"
                add_uniq(r, cut(t, v));
            }
            break;
        case ARR: combos(std::vector<T>(std::min<uint32_t>(t->bound, 3), t->a), [&](const std::vector<Val>& k) { Val v = defaults(t); for (size_t j = 0; j < k.size(); ++j) v.k[j] = k[j]; return v; }); break;
        case STRUCT: { std::vector<T> p; for (auto& x : t->mem) p.push_back(x.t); combos(p, [&](const std::vector<Val>& k) { Val v; v.k = k; return v; }); break; }
        case SEQ:
        {
            size_t cap = t->bound ? t->bound : 4; auto e = distinct(t->a, n);
            for (size_t i = 0; r.size() < n && i < 8 * n; ++i)
            {
                Val v; size_t x = i; for (size_t l = 0; l < i % (cap + 1); ++l) { v.k.push_back(e[(x / (cap + 1)) % e.size()]); x = x / 2 + l; }
                add_uniq(r, v);
            }
            break;
        }
        case MAP:
        {
            auto k = distinct(t->a, n), e = distinct(t->b, n);
            r.push_back(Val{});
            for (size_t i = 0; r.size() < n && i < n * n; ++i) { Val p; p.k = { k[i % k.size()], e[(i / k.size()) % e.size()] }; Val v; v.k = { p }; add_uniq(r, v); }
            break;
        }
        case UNION:
            if (default_member(*t) < 0) r.push_back(Val{});
            for (size_t i = 0; r.size() < n && i < n * t->mem.size(); ++i)
            {
                int mi = int(i % t->mem.size()); auto e = distinct(t->mem[mi].t, n);
                auto& ls = t->mem[mi].labels;
                add_uniq(r, active(*t, mi, ls.empty() ? DEFAULT_DISC : real_t(ls[i % ls.size()]), e[(i / t->mem.size()) % e.size()]));
            }
            break;
        case F32: case F64: case F128: for (size_t i = 0; i < n; ++i) r.push_back(num(i % 3 == 2 ? -real_t(i) : real_t(i) / 2)); break;
        default:
            prim(t->k, [&](auto tag) { using X = typename decltype(tag)::type;
                if constexpr (std::is_arithmetic<X>::value) {
                    real_t lo = real_t(std::numeric_limits<X>::lowest()), hi = real_t(std::numeric_limits<X>::max());
                    for (size_t i = 0; r.size() < n && i < 2 * n; ++i)
                    {
                        real_t x = i == 1 ? hi : i == 2 ? lo : i % 4 == 3 && lo < 0 ? -real_t(i) : i % 5 == 4 && hi > 70000 ? real_t(i) * 65537 : real_t(i);
                        if (x >= lo && x <= hi) add_uniq(r, num(x));
                    } } return 0; });
    }
    if (r.size() > n) r.resize(n);
    return r;
}

// ---- type universes ----------------------------------------------------------------------------------
inline std::vector<T> leaves()
{
    std::vector<T> r;
    for (K k : { BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC }) r.push_back(prim_t(k));
    for (K k : { E8, E16, E32 }) r.push_back(enum_t(k));
    for (K k : { STR, WSTR, S16 }) { r.push_back(str_t(k)); r.push_back(str_t(k, 3)); r.push_back(str_t(k, 40)); }
    return r;
}
inline std::vector<T> few_leaves() { return { prim_t(I32), str_t(STR), prim_t(U8), enum_t(E16), str_t(S16, 3) }; }

// every constructor applied to c (o: another type for the second operand)
inline std::vector<T> wrap(const T& c, const T& o)
{
    T i32 = prim_t(I32);
    return { arr_t(c, 2), seq_t(c), seq_t(c, 2), map_t(prim_t(U8), c), map_t(c, o, 2), struct_t({c}), struct_t({o, c}), struct_t({c, o, c}),
             derived_t(struct_t({o, c}), {c}), union_t(i32, { {{1, 2}, c}, {{3}, o} }), union_t(enum_t(E8), { {{1}, o}, {{5, 9}, c}, {{}, c, true} }),
             union_t(prim_t(C8), { {{'a'}, c, true}, {{'b', 'c'}, o} }), alias_t(c) };
}
// a universe of types: level 1 = leaves, 2 = + one constructor, 3 = + two constructors
inline std::vector<T> universe(int level)
{
    std::vector<T> r = leaves();
    if (level < 2) return r;
    T str = str_t(STR), u8 = prim_t(U8);
    std::vector<T> l2;
    for (auto& c : few_leaves()) for (auto& w : wrap(c, c->k == STR ? u8 : str)) l2.push_back(w);
    r.insert(r.end(), l2.begin(), l2.end());
    if (level < 3) return r;
    // two constructors: over one representative of each constructor with a heap-owning and a plain leaf
    std::vector<T> reps;
    for (auto& w : wrap(str, u8)) reps.push_back(w);
    if (mc::thorough()) for (auto& w : wrap(prim_t(I32), str)) reps.push_back(w);
    for (auto& c : reps) for (auto& w : wrap(c, str)) r.push_back(w);
    return r;
}

} // namespace m
#endif
