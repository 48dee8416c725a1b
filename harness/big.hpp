// Values whose sizes lie around the limits of narrower counters: 2^7, 2^8, 2^9, 2^15, 2^16.
#ifndef VERIF_BIG_HPP
#define VERIF_BIG_HPP
#include "nav.hpp"
namespace m {
struct Big { T t; Val v; std::vector<Path> spots; };
inline std::vector<int> marks(int n)
{
    std::vector<int> r; for (int i : { 0, 1, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, n / 2, n - 2, n - 1 }) if (i >= 0 && i < n) r.push_back(i);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
inline Val nth(const T& t, int i)   // different for neighbours and for i, i + 256 and i + 65536
{
    if (is_str(t->k)) return text(cat("text ", i));
    if (t->k == STRUCT) { Val v; for (auto& x : t->mem) v.k.push_back(nth(x.t, i++)); return v; }
    if (t->k == SEQ) { Val v; v.k = { nth(t->a, i), nth(t->a, i + 1) }; return v; }
    return num((i + i / 256 * 3 + i / 65536 * 5) % (t->k == BOOL ? 2 : 113));
}
inline std::vector<Path> paths(const T& t, const Val& v, const std::vector<int>& ms)
{
    std::vector<Path> r; for (int i : ms) { Path first; const T& e = t->k == STRUCT ? t->mem[i].t : t->k == MAP ? t->b : t->a; const Val& x = t->k == MAP ? v.k[i].k[1] : v.k[i]; Path l; bool any = false; leaves_of(e, x, [&](const Path& p, const T&, const Val&) { l = p; any = true; }); if (!any) continue; Path p{ i }; p.insert(p.end(), l.begin(), l.end()); r.push_back(p); }
    return r;
}
inline T leaf_at(const T& t0, const Val& v, const Path& p)
{
    T t = t0; const Val* x = &v;
    for (size_t i = 0;; ++i)
    {
        while (t->k == ALIAS) { T a = t->a; t = a; } if (i == p.size()) return t;
        T e = t->k == STRUCT ? t->mem[p[i]].t : t->k == UNION ? t->mem[x->sel].t : t->k == MAP ? t->b : t->a; x = t->k == MAP ? &x->k[p[i]].k[1] : &x->k[p[i]]; t = e;
    }
}
inline std::vector<Big> bigs(int limit = 70000)
{
    std::vector<Big> r; T u8 = prim_t(U8), i16 = prim_t(I16), i32 = prim_t(I32), str = str_t(STR);
    auto add = [&](const T& t, Val v, std::vector<int> ms) { Big b{ t, v, {} }; b.spots = paths(t, v, ms); r.push_back(b); };
    for (int n : { 127, 128, 129, 255, 256, 257, 512, 1000, 32769, 65535, 65536, 65537 })
    {
        if (n > limit) continue;
        std::vector<T> contents{ u8 }; if (n <= 1000 && n != 512) { contents.push_back(i16); contents.push_back(str); } if (n == 255 || n == 256 || n == 257) { contents.push_back(struct_t({ u8, str })); contents.push_back(seq_t(u8)); }
        for (auto& c : contents)
        {
            Val v; for (int i = 0; i < n; ++i) v.k.push_back(nth(c, i));
            add(arr_t(c, n), v, marks(n)); add(seq_t(c), v, marks(n)); add(seq_t(c, n), v, marks(n));
        }
        for (K k : { STR, WSTR, S16 }) for (uint32_t bound : { 0, n }) { Val v; for (int i = 0; i < n; ++i) v.s += char32_t('a' + (i + i / 256) % 26); r.push_back({ str_t(k, bound), v, { {} } }); }
        if (n > 128 && n <= 257) { T in = arr_t(u8, n); Val v, w; for (int i = 0; i < n; ++i) v.k.push_back(nth(u8, i)); w.k = { v, v, v }; T t = arr_t(in, 3); r.push_back({ t, w, { { 0, n - 1 }, { 1, 0 }, { 1, n - 1 }, { 2, n / 2 }, { 2, n - 1 } } }); }
        if (n <= 512) { std::vector<T> ts; Val v; for (int i = 0; i < n; ++i) { ts.push_back(i % 3 == 0 ? u8 : i % 3 == 1 ? str : i32); v.k.push_back(nth(ts.back(), i)); } add(struct_t(ts), v, marks(n)); }
        if (n <= 1000) for (auto& k : { prim_t(U16), str }) { T t = map_t(k, n % 2 ? u8 : str, n % 2 ? 0 : n); Val v; for (int i = 0; i < n; ++i) { Val p; p.k = { k->k == STR ? text(cat("key", i)) : num(i), nth(t->b, i) }; v.k.push_back(p); } sort_map(v); add(t, v, marks(n)); }
    }
    // many ancestors, many levels
    { T p = struct_t({ u8 }); Val v; v.k = { nth(u8, 0) }; for (int i = 1; i < 60; ++i) { T a = i % 2 ? str : i32; { auto t = std::make_shared<Ty>(); t->k = STRUCT; t->desc = cat("ancestors ", i); t->mem = p->mem; xt::StructType st(t->desc, &static_cast<const xt::StructType&>(p->rt())); for (auto& c : { a, u8 }) { std::string n = cat("a", t->mem.size()); t->mem.push_back({ n, c }); st.add_member(n, c->rt()); } t->real = DynamicType::Ptr(std::move(st)); p = t; } v.k.push_back(nth(a, i)); v.k.push_back(nth(u8, i)); } add(p, v, marks(static_cast<int>(v.k.size()))); }
    for (int n : { 20, 140, 270 }) { if (n > limit) continue; T t = u8; Val v = num(7); Path p; for (int i = 0; i < n; ++i) { Val w; w.k = { num(i % 100), v }; t = struct_t({ u8, t }); v = w; p.push_back(1); } r.push_back({ t, v, { p, { 0 }, Path(p.begin(), p.begin() + n / 2) } }); r.back().spots[2].push_back(0); }
    for (int n : { 20, 60 }) { T t = u8; Val v = num(7); for (int i = 0; i < n; ++i) { Val w; w.k = { v }; if (i == n - 1) w.k = { v, v }; t = i % 2 ? seq_t(t) : arr_t(t, i == n - 1 ? 2 : 1); v = w; } Path p(n, 0), q(n, 0); q[0] = 1; r.push_back({ t, v, { p, q } }); }
    // many members and labels
    for (int n : { 127, 128, 255, 256, 257, 400 }) for (auto& d : { i32, prim_t(U16), prim_t(I64) }) for (int sel : { 0, 1, 126, 127, 128, 254, 255, 256, n - 1 })
    {
        if (sel >= n || sel < 0 || (d->k != I32 && sel != n - 1)) continue;
        std::vector<Case> cs; for (int i = 0; i < n; ++i) cs.push_back({ { i * 2 }, i % 3 == 0 ? u8 : i % 3 == 1 ? str : i32 });
        T t = union_t(d, cs); r.push_back({ t, active(*t, sel, sel * 2, nth(t->mem[sel].t, sel)), { { 0 } } });
    }
    return r;
}
inline std::string name(const Big& b) { return cat(b.t->desc.substr(0, 40), "#", b.t->desc.size(), "/", b.v.k.size() + b.v.s.size(), b.v.sel >= 0 ? cat("@", b.v.sel) : std::string()); }
} // namespace m
#endif
