// Navigation by every access path, leaf enumeration and single-step mutations of a value, for any type.
#ifndef VERIF_NAV_HPP
#define VERIF_NAV_HPP
#include "model.hpp"
namespace m {

using Path = std::vector<int>;
inline std::string show_path(const Path& p) { std::string s; for (int i : p) s += "/" + std::to_string(i); return s.empty() ? "/" : s; }

// every leaf of value v (keys of maps are not leaves: they are not writable in place)
inline void leaves_of(const T& t, const Val& v, const std::function<void(const Path&, const T&, const Val&)>& cb, Path p = {})
{
    switch (t->k)
    {
        case ALIAS: leaves_of(t->a, v, cb, p); break;
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) { p.push_back(int(i)); leaves_of(t->mem[i].t, v.k[i], cb, p); p.pop_back(); } break;
        case ARR: case SEQ: for (size_t i = 0; i < v.k.size(); ++i) { p.push_back(int(i)); leaves_of(t->a, v.k[i], cb, p); p.pop_back(); } break;
        case MAP: for (size_t i = 0; i < v.k.size(); ++i) { p.push_back(int(i)); leaves_of(t->b, v.k[i].k[1], cb, p); p.pop_back(); } break;
        case UNION: if (v.sel >= 0) { p.push_back(0); leaves_of(t->mem[v.sel].t, v.k[0], cb, p); p.pop_back(); } break;
        default: cb(p, t, v);
    }
}
inline Val& sub(const T& t0, Val& v, const Path& p, size_t i = 0)
{
    const T& t = rget(t0);
    if (i == p.size()) return v;
    switch (t->k)
    {
        case STRUCT: return sub(t->mem[p[i]].t, v.k[p[i]], p, i + 1);
        case ARR: case SEQ: return sub(t->a, v.k[p[i]], p, i + 1);
        case MAP: return sub(t->b, v.k[p[i]].k[1], p, i + 1);
        case UNION: return sub(t->mem[v.sel].t, v.k[0], p, i + 1);
        default: fail("sub: bad path");
    }
}
const int STYLES = 5;
// reaches the node of path p by access style s, giving f a writable reference to it
inline void reach(WritableDynamicDataRef w, const T& t0, const Val& v, const Path& p, int s, const std::function<void(WritableDynamicDataRef)>& f, size_t i = 0)
{
    const T& t = rget(t0);
    if (i == p.size()) { f(w); return; }
    int x = p[i];
    switch (t->k)
    {
        case STRUCT:
        {
            const T& c = t->mem[x].t; const Val& cv = v.k[x];
            auto go = [&](WritableDynamicDataRef r) { reach(r, c, cv, p, s, f, i + 1); };
            switch (s % STYLES)
            {
                case 0: go(w[size_t(x)]); break;
                case 1: go(w[t->mem[x].name]); break;
                case 2: { int n = 0; for (WritableDynamicDataRef::MemberPair item : w.items()) { if (n++ == x) go(item.data()); } if (n != int(t->mem.size())) fail("items() visits a wrong number of members"); break; }
                case 3: { auto it = w.items(); for (int n = 0; n < x; ++n) it++; WritableDynamicDataRef::MemberPair item = *it; if (item.member().name() != t->mem[x].name) fail("items() gives another member"); go(item.data()); break; }
                default: go(w[t->mem[x].name.c_str()]);
            }
            break;
        }
        case ARR: case SEQ:
        {
            const Val& cv = v.k[x];
            auto go = [&](WritableDynamicDataRef r) { reach(r, t->a, cv, p, s, f, i + 1); };
            switch (s % STYLES)
            {
                case 0: case 4: go(w[x]); break;
                case 1: { int n = 0; for (WritableDynamicDataRef e : w) { if (n++ == x) { go(e); break; } } break; }
                case 2: { auto it = w.begin(); for (int n = 0; n < x; ++n) it++; go(*it); break; }
                default: { auto it = w.begin(); for (int n = 0; n < x; ++n) ++it; auto copy = it; go(*copy); }
            }
            break;
        }
        case MAP:
        {
            const Val& cv = v.k[x].k[1]; auto key = make(t->a, v.k[x].k[0], s & 1);
            auto go = [&](WritableDynamicDataRef r) { reach(r, t->b, cv, p, s, f, i + 1); };
            switch (s % STYLES)
            {
                case 0: go(w.at(*key)); break;
                case 1: case 4: go(w[*key]); break;
                default: { bool found = false; for (WritableDynamicDataRef pr : w) if (read(pr[0], t->a) == v.k[x].k[0]) { found = true; go(pr[1]); break; } if (!found) fail("iteration does not find a key"); }
            }
            break;
        }
        case UNION: reach(s % 2 ? w[t->mem[v.sel].name] : w[t->mem[v.sel].name.c_str()], t->mem[v.sel].t, v.k[0], p, s, f, i + 1); break;
        default: fail("reach: bad path");
    }
}

// reads a value by other access paths than m::read does
inline Val read_alt(const ReadableDynamicDataRef& r, const T& t)
{
    Val v;
    switch (t->k)
    {
        case ALIAS: return read_alt(r, t->a);
        case STRUCT:
        {
            size_t i = 0;
            for (ReadableDynamicDataRef::MemberPair item : r.items())
            {
                if (i >= t->mem.size() || item.member().name() != t->mem[i].name) fail("items() does not follow the members");
                Val a = read_alt(item.data(), t->mem[i].t), b = read(r[t->mem[i].name], t->mem[i].t); // read: no doubling per level
                if (a != b) fail(cat("member ", t->mem[i].name, " reads differently by name and by items()"));
                v.k.push_back(a); ++i;
            }
            if (i != t->mem.size()) fail("items() misses members");
            break;
        }
        case ARR: case SEQ: for (ReadableDynamicDataRef e : r) v.k.push_back(read_alt(e, t->a)); break;
        case MAP:
            for (ReadableDynamicDataRef p : r)
            {
                Val k = read_alt(p[0], t->a); auto key = make(t->a, k);
                Val e; e.k = { k, read_alt(r.at(*key), t->b) }; v.k.push_back(e);
            }
            sort_map(v);
            break;
        case UNION:
        {
            v = read(r, t);
            if (v.sel >= 0) v.k[0] = read_alt(r[r.current_case().name()], t->mem[v.sel].t);
            break;
        }
        case STR: { std::string s = r; for (unsigned char c : s) v.s += char32_t(c); break; }
        case WSTR: { std::wstring s = r; for (wchar_t c : s) v.s += char32_t(c); break; }
        case S16: { std::u16string s = r; for (char16_t c : s) v.s += char32_t(c); break; }
        default: v.n = prim(t->k, [&](auto tag) { using X = typename decltype(tag)::type; X x = r; return real_t(x); });
    }
    return v;
}

// one-step modifications of data holding v
struct Mut { std::string name; std::function<void(WritableDynamicDataRef)> f; Val v; };
inline std::vector<Mut> mutations(const T& t, const Val& v, size_t per_node = 2)
{
    std::vector<Mut> r;
    auto lift = [&](const T& c, const Val& cv, const std::string& step, auto get, auto put)
    {
        for (auto& x : mutations(c, cv, per_node))
        {
            Val nv = v; put(nv, x.v);
            auto f = x.f;
            r.push_back({step + x.name, [get, f](WritableDynamicDataRef w) { f(get(w)); }, nv});
        }
    };
    switch (t->k)
    {
        case ALIAS: return mutations(t->a, v, per_node);
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) lift(t->mem[i].t, v.k[i], cat(".", i), [i](WritableDynamicDataRef w) { return w[i]; }, [i](Val& n, const Val& c) { n.k[i] = c; }); break;
        case ARR: case SEQ:
        {
            for (size_t i : std::set<size_t>{ 0, v.k.empty() ? 0 : v.k.size() - 1 }) if (i < v.k.size())
                lift(t->a, v.k[i], cat("[", i, "]"), [i](WritableDynamicDataRef w) { return w[i]; }, [i](Val& n, const Val& c) { n.k[i] = c; });
            if (t->k == SEQ && (!t->bound || v.k.size() < t->bound))
            {
                Val x = samples(t->a, 4).back(); T a = t->a;
                Val nv = v; nv.k.push_back(x);
                r.push_back({"push", [a, x](WritableDynamicDataRef w) { auto e = make(a, x); w.push(*e); }, nv});
                size_t n = v.k.size() + 1; nv = v; nv.k.push_back(defaults(t->a));
                r.push_back({"resize", [n](WritableDynamicDataRef w) { w.resize(n); }, nv});
            }
            break;
        }
        case MAP:
        {
            T kt = t->a, vt = t->b;
            for (size_t i = 0; i < v.k.size() && i < per_node; ++i)
            {
                Val k = v.k[i].k[0];
                lift(t->b, v.k[i].k[1], cat("[k", i, "]"), [kt, k](WritableDynamicDataRef w) { auto key = make(kt, k); return w.at(*key); }, [i](Val& n, const Val& c) { n.k[i].k[1] = c; });
            }
            if (!t->bound || v.k.size() < t->bound)
                for (auto& k : samples(t->a, 4))
                {
                    bool present = false; for (auto& p : v.k) if (p.k[0] == k) present = true;
                    if (present) continue;
                    Val nv = v, p, x = samples(t->b, 4).back(); p.k = { k, x }; nv.k.push_back(p); sort_map(nv);
                    r.push_back({"new key", [kt, vt, k, x](WritableDynamicDataRef w) { auto key = make(kt, k); auto e = make(vt, x); w[*key] = e->ref(); }, nv});
                    break;
                }
            break;
        }
        case UNION:
            if (v.sel >= 0) { std::string n = t->mem[v.sel].name; lift(t->mem[v.sel].t, v.k[0], ".act", [n](WritableDynamicDataRef w) { return w[n]; }, [](Val& n, const Val& c) { n.k[0] = c; }); }
            for (size_t i = 0; i < t->mem.size(); ++i) if (int(i) != v.sel && !t->mem[i].labels.empty())
            {
                T ct = t->mem[i].t; std::string n = t->mem[i].name; int64_t l = t->mem[i].labels[0];
                Val x = samples(ct, 4).back();
                r.push_back({"activate " + n, [ct, n, x, l](WritableDynamicDataRef w) { fill(w[n], ct, x); w.d(l); }, active(*t, int(i), real_t(l), x)});
            }
            break;
        default:
        {
            size_t n = 0;
            for (auto& s : samples(t, 4)) if (s != v && n++ < (per_node > 1 ? 2u : 1u)) { T tt = t; Val x = s; r.push_back({"=" + show(t, s), [tt, x](WritableDynamicDataRef w) { write_leaf(w, tt, x); }, s}); }
        }
    }
    return r;
}
} // namespace m
#endif
