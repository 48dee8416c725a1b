// C14: a module tree resolves each name to the symbol its scope rules determine
#include "tree.hpp"
#include <xtypes/xtypes.hpp>
#include <xtypes/idl/Module.hpp>
#include <algorithm>
#include <map>
#include <set>
namespace xt = eprosima::xtypes;
using xt::DynamicType; using xt::DynamicData; using xt::idl::Module; using mc::cat; using mc::refused_rt;
using Enum = xt::EnumerationType<uint32_t>;

enum { STRUCT, UNION, ALIAS, ENUM, CONST, KINDS };
static const char* KIND[] = { "structure", "union", "alias", "enumeration", "constant" };

// ---- the reference: a tree of tables -----------------------------------------------------------------
struct Sym { uint32_t tag; bool from_enum = false; };
struct Mod
{
    std::string name; Mod* outer; Module* real; std::map<std::string, std::unique_ptr<Mod>> inner; std::map<std::string, Sym> tab[KINDS];
    std::string scope() const { std::string s = outer ? outer->scope() : ""; return s.empty() ? name : s + "::" + name; }
    bool any(const std::string& n) const { for (auto& t : tab) if (t.count(n)) return true; return inner.count(n); }
    Mod* sub(const std::string& n) const { auto i = inner.find(n); return i == inner.end() ? nullptr : i->second.get(); }
    void all(std::vector<Mod*>& r) { r.push_back(this); for (auto& i : inner) i.second->all(r); }
    std::vector<Mod*> all() { std::vector<Mod*> r; all(r); return r; }
};
using Found = std::pair<Mod*, std::string>;
static bool split(const std::string& q, std::string& head, std::string& tail) { auto p = q.find("::"); if (p == std::string::npos) return false; head = q.substr(0, p); tail = q.substr(p + 2); return true; }
static Found down(Mod* m, const std::string& q)
{
    std::string h, t;
    if (split(q, h, t)) { Mod* s = h.empty() ? nullptr : m->sub(h); return s ? down(s, t) : Found{ nullptr, "" }; }
    return m->any(q) ? Found{ m, q } : Found{ nullptr, "" };
}
static Found resolve(Mod* m, const std::string& q)
{
    std::string h, t;
    if (q.compare(0, 2, "::") == 0) { while (m->outer) m = m->outer; return down(m, q.substr(2)); }
    bool scoped = split(q, h, t);
    for (; m; m = m->outer) { if (scoped) { if (Mod* s = m->sub(h)) return down(s, t); } else if (m->any(q)) return { m, q }; }
    return { nullptr, "" };
}
static const Sym* lookup(Mod* m, int kind, const std::string& q, Mod** where = nullptr)
{
    auto f = resolve(m, q); if (!f.first) return nullptr;
    auto i = f.first->tab[kind].find(f.second); if (i == f.first->tab[kind].end()) return nullptr;
    if (where) *where = f.first; return &i->second;
}

// ---- symbols that carry a tag --------------------------------------------------------------------------
static std::string T(uint32_t tag) { return "t" + std::to_string(tag); }
static xt::StructType struct_of(const std::string& n, uint32_t tag) { xt::StructType s(n); s.add_member(T(tag), xt::primitive_type<uint32_t>()); return s; }
static xt::UnionType union_of(const std::string& n, uint32_t tag) { xt::UnionType u(n, xt::primitive_type<int32_t>()); u.add_case_member(std::vector<int>{ 1 }, T(tag), xt::primitive_type<uint8_t>()); return u; }
static DynamicData data_of(uint32_t tag) { DynamicData d(xt::primitive_type<uint32_t>()); d = tag; return d; }
// kind and tag of a type
static std::string about(const DynamicType& t)
{
    switch (t.kind())
    {
        case xt::TypeKind::STRUCTURE_TYPE: return cat("structure ", static_cast<const xt::StructType&>(t).members().at(0).name());
        case xt::TypeKind::UNION_TYPE: return cat("union ", static_cast<const xt::UnionType&>(t).get_case_members().at(0));
        case xt::TypeKind::ENUMERATION_TYPE: return cat("enumeration ", static_cast<const Enum&>(t).enumerators().begin()->first);
        case xt::TypeKind::ALIAS_TYPE: return cat("alias ", T(static_cast<const xt::StringType&>(static_cast<const xt::AliasType&>(t).get()).bounds()));
        default: return "another type";
    }
}
static std::string about(int kind, const Sym& s) { return cat(KIND[kind], " ", T(s.tag)); }
static bool has(const Module& m, int kind, const std::string& q)
{
    switch (kind) { case STRUCT: return m.has_structure(q); case UNION: return m.has_union(q); case ALIAS: return m.has_alias(q); case ENUM: return m.has_enum_32(q); default: return m.has_constant(q); }
}
static const DynamicType& get(Module& m, int kind, const std::string& q, bool writable)
{
    const Module& c = m;
    switch (kind)
    {
        case STRUCT: if (writable) return m.structure(q); return c.structure(q);
        case UNION: if (writable) return m.union_switch(q); return c.union_switch(q);
        case ALIAS: if (writable) return m.alias(q); return c.alias(q);
        default: if (writable) return m.enum_32(q); return c.enum_32(q);
    }
}

// adds a symbol by one of the interfaces; style 0: by reference (or the plain one), 1: by rvalue, 2: by rvalue with replacement
static void add(Mod& m, int kind, const std::string& n, uint32_t tag, int style)
{
    bool scoped = n.find("::") != std::string::npos, taken = m.tab[kind].count(n), ok = false, replace = false; std::string full = m.scope().empty() ? n : m.scope() + "::" + n;
    bool named = true;
    switch (kind)
    {
        case STRUCT: { auto s = struct_of(n, tag); if (style == 0) { ok = m.real->structure(s); named = s.name() == (ok ? full : n); s.add_member("later", xt::primitive_type<bool>()); s.name("later"); } else ok = m.real->structure(std::move(s), replace = style == 2); break; }
        case UNION: { auto u = union_of(n, tag); if (style == 0) { ok = m.real->union_switch(u); named = u.name() == (ok ? full : n); u.add_case_member(std::vector<int>{ 9 }, "later", xt::primitive_type<bool>()); u.name("later"); } else ok = m.real->union_switch(std::move(u), replace = style == 2); break; }
        case ALIAS: { if (style == 0) ok = m.real->create_alias(DynamicType::Ptr(xt::StringType(tag)), n); else if (style == 1) { xt::AliasType a(xt::StringType(tag), n); ok = m.real->add_alias(a); named = a.name() == (ok ? full : n); a.name("later"); } else ok = m.real->add_alias(xt::AliasType(xt::StringType(tag), n)); break; }
        case ENUM: { Enum e(n); e.add_enumerator(T(tag)); ok = m.real->enum_32(std::move(e), replace = style == 2); break; }
        default: { DynamicData d = data_of(tag); ok = m.real->create_constant(n, d, replace = style == 2, style == 1); d = uint32_t(77777); break; }
    }
    bool want = !scoped && (!taken || replace);
    MC_CHECK(ok == want, "adding the ", KIND[kind], " '", n, "' to '", m.scope(), "' gives ", ok);
    MC_CHECK(named, "the ", KIND[kind], " '", n, "' added to '", m.scope(), "' gets another name");
    if (ok) m.tab[kind][n] = Sym{ tag, kind == CONST && style == 1 };
}
static Mod& submodule(Mod& m, const std::string& n)
{
    Module& r = m.real->create_submodule(n); Mod* old = m.sub(n);
    if (old) { MC_CHECK(&r == old->real, "creating the submodule '", n, "' again gives another one"); return *old; }
    auto& p = m.inner[n]; p.reset(new Mod{ n, &m, &r }); return *p;
}

// ---- observations ---------------------------------------------------------------------------------------
static void shape(Mod& root)
{
    for (Mod* m : root.all())
    {
        Module& r = *m->real; const Module& c = r; std::string sc = m->scope();
        MC_CHECK(c.name() == m->name && c.scope() == sc, "scope() is '", c.scope(), "' expected '", sc, "'");
        MC_CHECK(r.submodule_size() == m->inner.size(), "submodule_size() of '", sc, "' is ", r.submodule_size());
        for (auto& i : m->inner) MC_CHECK(c.has_submodule(i.first) && &r[i.first] == i.second->real && &c[i.first] == i.second->real && r.submodule(i.first).get() == i.second->real, "submodule '", i.first, "' of '", sc, "'");
        for (const char* n : { "x", "A", "B", "C", "", "A::B" }) if (!m->inner.count(n)) MC_CHECK(!c.has_submodule(n) && !r.submodule(n), "a submodule '", n, "' of '", sc, "' that was not created");
        std::vector<const Module*> v, w; auto all = m->all(); for (auto* a : all) w.push_back(a->real);
        c.for_each([&](const Module& x) { v.push_back(&x); }); MC_CHECK(v == w, "for_each() from '", sc, "'");
        v.clear(); w.erase(w.begin()); c.for_each_submodule([&](const Module& x) { v.push_back(&x); }); MC_CHECK(v == w, "for_each_submodule() from '", sc, "'");
        v.clear(); w.clear(); for (auto& i : m->inner) w.push_back(i.second->real); c.for_each_submodule([&](const Module& x) { v.push_back(&x); }, false); MC_CHECK(v == w, "for_each_submodule() without recursion from '", sc, "'");
        for (int scoped = 0; scoped < 2; ++scoped)
        {
            std::map<std::string, std::set<std::string>> want;
            for (auto* a : all) for (int k = 0; k < CONST; ++k) for (auto& s : a->tab[k])
            { std::string full = a->scope().empty() ? s.first : a->scope() + "::" + s.first; want[scoped ? full : s.first].insert(full + "|" + about(k, s.second)); }
            auto got = c.get_all_types(scoped);
            MC_CHECK(got.size() == want.size(), "get_all_types(", scoped, ") of '", sc, "' gives ", got.size(), " types expected ", want.size());
            for (auto& g : got) { auto i = want.find(g.first); std::string is = g.second->name() + "|" + about(*g.second); MC_CHECK(i != want.end() && i->second.count(is), "get_all_types(", scoped, ") of '", sc, "' gives ", g.first, " = ", is); }
        }
    }
}
static void lookups(mc::Run& run, Mod& root, const std::vector<std::string>& qs, bool refusals)
{
    for (Mod* m : root.all()) for (auto& q : qs)
    {
        Module& r = *m->real; const Module& c = r; std::string where = cat("'", q, "' from '", m->scope(), "'"); run.transition();
        std::string present;
        for (int k = 0; k < KINDS; ++k)
        {
            Mod* at = nullptr; const Sym* s = lookup(m, k, q, &at); bool h = has(c, k, q);
            MC_CHECK(h == !!s, "has ", KIND[k], " ", where, " is ", h);
            if (k == CONST)
            {
                DynamicData d = c.constant(q);
                if (s) MC_CHECK(d.type().kind() == xt::TypeKind::UINT_32_TYPE && d.value<uint32_t>() == s->tag, "constant ", where, " is not ", s->tag);
                else MC_CHECK(d.type().kind() == xt::TypeKind::BOOLEAN_TYPE && !d.value<bool>(), "an unknown constant ", where, " has a value");
                continue;
            }
            if (s)
            {
                std::string full = at->scope().empty() ? resolve(m, q).second : at->scope() + "::" + resolve(m, q).second;
                for (int w = 0; w < 2; ++w) { auto& t = get(r, k, q, w); MC_CHECK(about(t) == about(k, *s) && t.name() == full, KIND[k], " ", where, " is ", about(t), " ", t.name(), " expected ", about(k, *s), " ", full); }
                MC_CHECK(&get(r, k, q, false) == &get(r, k, q, true), KIND[k], " ", where, ": two accesses give two types");
                present += "|" + about(k, *s) + "|";
            }
            else if (refusals) { bool out = false; try { (void)get(r, k, q, (q.size() + k) & 1); } catch (const std::exception&) { out = true; } MC_CHECK(out, "an unknown ", KIND[k], " ", where, " is not refused"); }
        }
        auto t = r.type(q);
        MC_CHECK((t.get() != nullptr) == !present.empty(), "type ", where, t.get() ? " exists" : " is missing");
        if (t.get()) MC_CHECK(present.find("|" + about(*t) + "|") != std::string::npos && (q.compare(0, 2, "::") || t->name() == q), "type ", where, " is ", about(*t), " ", t->name());
        auto t2 = r.type(q, true); std::string deep = present;
        if (present.empty()) for (Mod* d : m->all()) for (int k = 0; k < CONST; ++k) if (const Sym* s = lookup(d, k, q)) deep += "|" + about(k, *s) + "|";
        MC_CHECK((t2.get() != nullptr) == !deep.empty() && (!t2.get() || deep.find("|" + about(*t2) + "|") != std::string::npos), "recursive type ", where, t2.get() ? " is " + about(*t2) : " is missing");
        unsigned n = 0; bool own = m->any(q); for (Mod* o = m; o; o = o->outer) n += o->any(q);
        MC_CHECK(c.has_symbol(q, false) == own && c.has_symbol(q) == (n > 0) && c.symbol_count(q) == n, "has_symbol() or symbol_count() of ", where);
        auto i = m->tab[CONST].find(q); MC_CHECK(c.is_const_from_enum(q) == (i != m->tab[CONST].end() && i->second.from_enum), "is_const_from_enum() of ", where);
    }
}
static void check(mc::Run& run, Mod& root, const std::vector<std::string>& qs, bool refusals) { shape(root); lookups(run, root, qs, refusals); shape(root); run.state(); run.trace(); }

static std::vector<std::string> queries(const std::vector<std::string>& names, int depth = 3)
{
    std::vector<std::string> r, scopes{ "" };
    const char* mods[] = { "A", "B", "C" };
    for (size_t i = 0, d = 0; int(d) < depth; ++d) { size_t e = scopes.size(); for (; i < e; ++i) for (auto& m : mods) if (!(std::string(m) == "C" && i == 0 && depth > 2 && d > 0)) scopes.push_back(scopes[i] + m + "::"); }
    for (auto& s : scopes) for (auto& n : names) { if (std::count(s.begin(), s.end(), 'C') > 1) continue; r.push_back(s + n); r.push_back("::" + s + n); }
    for (auto s : { "", "::", "A::", "::A::", "A::::x", "::::x", "x::A", "x::x", ":x", ":::x", "A:x", "D::x", "::D::x", "A::D::x", "A::B::", "a::x", "::A::::x" }) r.push_back(s);
    return r;
}
// module trees as lists of paths
static const std::vector<std::vector<std::string>> TREES = {
    { "A", "A/B", "A/B/C", "B" }, { "A", "A/A", "A/A/A" }, { "A", "A/B", "B", "B/A" }, { "A", "B", "C" }, { "A", "A/B", "A/B/A", "A/B/A/B" }, { "A", "A/B", "A/C", "A/B/C" }, { "A", "A/A", "A/B", "A/A/B" }, {} };
struct World
{
    Module module; std::unique_ptr<Mod> root;
    World() : root(new Mod{ "", nullptr, &module }) {}
    void build(const std::vector<std::string>& paths) { for (auto& p : paths) { Mod* m = root.get(); std::string c; std::istringstream is(p); while (std::getline(is, c, '/')) m = &submodule(*m, c); } }
};
#ifndef LIGHT
// every placement of two symbols of one name and of two names
SUITE(placements)
{
    struct P { int a, b; std::string na, nb; };
    std::vector<P> ps; for (int a = 0; a < KINDS; ++a) for (int b = a + 1; b < KINDS; ++b) ps.push_back({ a, b, "x", "x" });
    for (int a = 0; a < KINDS; ++a) { ps.push_back({ a, (a + 1) % KINDS, a % 2 ? "x" : "B", a % 2 ? "A" : "x" }); if (mc::thorough()) { ps.push_back({ a, a, "x", "A" }); ps.push_back({ a, a, "B", "x" }); ps.push_back({ a, (a + 2) % KINDS, "B", "A" }); } }
    ps.push_back({ STRUCT, CONST, "B", "A" });
    auto short_qs = queries({ "x" }, 2), qs = queries({ "x", "A", "B" }, 2); if (mc::thorough()) { short_qs = queries({ "x" }, 3); qs = queries({ "x", "A", "B" }, 3); }
    for (size_t t = 0; t < TREES.size(); ++t) for (auto& p : ps)
    {
        size_t n = TREES[t].size() + 1;
        for (size_t sa = 0; sa < (size_t(1) << n); ++sa) run.test(cat("tree ", t, ": ", KIND[p.a], " ", p.na, "@", sa, " ", KIND[p.b], " ", p.nb), [&]
        {
            for (size_t sb = 0; sb < (size_t(1) << n); ++sb)
            {
                if (!mc::thorough() && n == 5 && p.b != p.a + 1 && (sa * 7 + sb) % 3) continue;
                run.note(cat("@", sb)); World w; w.build(TREES[t]); auto all = w.root->all(); uint32_t tag = 10;
                for (size_t i = 0; i < n; ++i) { if (sa >> i & 1) add(*all[i], p.a, p.na, ++tag, int(i + sb) % 3); if (sb >> i & 1) add(*all[i], p.b, p.nb, ++tag, int(i + sa) % 3); }
                check(run, *w.root, p.na == "x" && p.nb == "x" ? short_qs : qs, sb % 8 == 5 && sa % 4 == 2);
            }
        });
    }
}
#endif
// histories of definitions, refused definitions, replacements and new modules
struct Sys
{
    World w; mc::Run& run; std::vector<Mod*> at; uint32_t tag = 10; std::vector<std::string> qs; bool few;
    enum { NOPS = 26 };
    Sys(mc::Run& run, int start, const std::vector<std::string>& qs) : run(run), qs(qs)
    {
        if (start) { w.build({ "A", "A/B", "B" }); auto all = w.root->all(); add(*all[0], STRUCT, "x", ++tag, 0); add(*all[1], ALIAS, "x", ++tag, 0); add(*all[2], CONST, "x", ++tag, 1); add(*all[2], ENUM, "y", ++tag, 0); add(*all[3], UNION, "A", ++tag, 0); }
    }
    Mod* mod(int i) { Mod* m = w.root.get(); static const char* p[] = { "", "A", "A/B", "B" }; std::string c; std::istringstream is(p[i]); while (m && std::getline(is, c, '/')) m = m->sub(c); return m; }
    std::string op_name(int o) const
    {
        static const char* n[NOPS] = { "new A", "new A/B", "new A/B/C", "new B", "new A/A", "new A/x", "struct x in root", "struct x in A", "union x in A", "alias x in A/B", "enum x in B", "const x in A", "enum const x in A/B", "replace struct x in A", "replace union x in root", "replace enum x in A", "replace const x in A/B",
            "scoped names", "change struct x", "change union x", "change enum y", "rename", "struct A in B", "alias B in root", "const y in root", "lookups" };
        return n[o];
    }
    bool in(int m, int kind, const std::string& n, int style) { Mod* x = mod(m); if (!x) return false; add(*x, kind, n, ++tag, style); return true; }
    bool sub(int m, const std::string& n) { Mod* x = mod(m); if (!x) return false; submodule(*x, n); return true; }
    bool apply(int o)
    {
        switch (o)
        {
            case 0: return sub(0, "A"); case 1: return sub(1, "B"); case 2: return sub(2, "C"); case 3: return sub(0, "B"); case 4: return sub(1, "A"); case 5: return sub(1, "x");
            case 6: return in(0, STRUCT, "x", 0); case 7: return in(1, STRUCT, "x", 1); case 8: return in(1, UNION, "x", 0); case 9: return in(2, ALIAS, "x", 1); case 10: return in(3, ENUM, "x", 1);
            case 11: return in(1, CONST, "x", 0); case 12: return in(2, CONST, "x", 1); case 13: return in(1, STRUCT, "x", 2); case 14: return in(0, UNION, "x", 2); case 15: return in(1, ENUM, "x", 2); case 16: return in(2, CONST, "x", 2);
            case 17: for (int k = 0; k < KINDS; ++k) for (int s = 0; s < 3; ++s) for (auto n : { "::z", "A::z", "A::x" }) if (Mod* m = mod((k + s) % 4)) add(*m, k, n, ++tag, s); return true;
            // what a lookup returns is the symbol itself
            case 18: case 19: case 20:
            {
                int k = o == 18 ? STRUCT : o == 19 ? UNION : ENUM; std::string q = o == 20 ? "y" : "x", h = q; Mod* m = mod(2) ? mod(2) : w.root.get(); if (!lookup(m, k, q)) { m = w.root.get(); if (!lookup(m, k, q)) return false; }
                std::string more = cat("more", ++tag);
                if (k == STRUCT) { m->real->structure(q).add_member(more, xt::primitive_type<bool>()); MC_CHECK(m->real->structure(q).has_member(more), "a change of a structure is lost"); }
                else if (k == UNION) { m->real->union_switch(q).add_case_member(std::vector<uint32_t>{ tag }, more, xt::primitive_type<bool>()); MC_CHECK(m->real->union_switch(q).has_member(more), "a change of a union is lost"); }
                else { m->real->enum_32(q).add_enumerator("z" + more); MC_CHECK(m->real->enum_32(q).has_enumerator("z" + more), "a change of an enumeration is lost"); }
                return true;
            }
            // what type() and get_all_types() return is a copy
            case 21: for (Mod* m : w.root->all()) for (auto q : { "x", "y", "::x", "A::x" }) { auto t = m->real->type(q); if (t.get()) t->name("changed"); for (auto& g : m->real->get_all_types()) { auto p = g.second; p->name("changed"); } } return true;
            case 22: return in(3, STRUCT, "A", 0); case 23: return in(0, ALIAS, "B", 2); case 24: return in(0, CONST, "y", 1);
            default: lookups(run, *w.root, qs, true); return true;
        }
    }
    void check() { ::check(run, *w.root, qs, false); }
};
#ifdef LIGHT
#define DEPTH 2
#else
#define DEPTH (mc::thorough() ? 4 : 3)
#endif
SUITE(histories)
{
    auto qs = queries({ "x", "y", "B" }, 1); for (auto q : { "A::B::x", "::A::B::x", "B::C::x", "A::A::x", "A::x::x", "A::B::y", "::A::B::y" }) qs.push_back(q);
    for (int start : { 0, 1 }) mc::tree(run, start ? "populated" : "empty", Sys::NOPS, DEPTH, [&, start] { return std::unique_ptr<Sys>(new Sys(run, start, qs)); });
}
#ifndef LIGHT
// long chains of modules
SUITE(chains)
{
    for (int n : { 3, 4, 6, 10 }) for (int same = 0; same < 3; ++same) for (int kind = 0; kind < KINDS; ++kind) run.test(cat(n, "/", same, "/", KIND[kind]), [&]
    {
        for (int put = 0; put <= n; ++put) for (int second = put; second <= n; second += n > 4 ? 2 : 1)
        {
            World w; std::vector<Mod*> ms{ w.root.get() };
            for (int i = 0; i < n; ++i) ms.push_back(&submodule(*ms.back(), same == 0 ? cat("M", i) : same == 1 ? "M" : cat("M", i % 2)));
            add(*ms[put], kind, "x", 11, 0); if (second != put) add(*ms[second], (kind + second) % KINDS, "x", 12, 1);
            std::vector<std::string> qs{ "x", "::x", "y" }; for (int from = 0; from < n; from += 1 + n / 5) for (int to = from; to <= n; to += 1 + n / 5) { std::string q; for (int i = from; i < to; ++i) q += ms[i + 1]->name + "::"; qs.push_back(q + "x"); qs.push_back("::" + q + "x"); }
            run.note(cat(put, " ", second)); check(run, *w.root, qs, false);
        }
    });
}
#endif
// one name defined three times: every kind, by every interface, in two modules
SUITE(again)
{
    std::vector<std::string> qs{ "x", "::x", "A::x", "::A::x" };
    for (int a = 0; a < KINDS * 6; ++a) for (int b = 0; b < KINDS * 6; ++b) run.test(cat(a, " ", b), [&]
    {
        for (int c = 0; c < KINDS * 6; ++c)
        {
            if (DEPTH == 2 && (a + b + c) % 8) continue;
            World w; w.build({ "A" }); auto all = w.root->all(); uint32_t tag = 10; run.note(cat("then ", c));
            for (int o : { a, b, c }) { add(*all[o % 2], o / 6, "x", ++tag, o / 2 % 3); if (o != c) shape(*w.root); }
            check(run, *w.root, qs, false);
        }
    });
}
// symbols in bulk: names that sort, prefix and case neighbours
SUITE(many)
{
    std::vector<std::string> names{ "x", "X", "xx", "x_", "_x", "x1", "y", "a", "A", "AA", "struct", "" };
    for (int kind = 0; kind < KINDS; ++kind) for (size_t set = 0; set < (size_t(1) << names.size()); set += DEPTH == 2 ? 97 : mc::thorough() ? 1 : 5) run.test(cat(KIND[kind], " ", set), [&]
    {
        World w; w.build({ "A", "A/x", "x" }); uint32_t tag = 10; auto all = w.root->all();
        for (size_t i = 0; i < names.size(); ++i) if (set >> i & 1) { add(*all[i % all.size()], kind, names[i], ++tag, int(i) % 3); add(*all[(i + set) % all.size()], (kind + 1) % KINDS, names[i], ++tag, 1); }
        std::vector<std::string> qs; for (auto& n : names) for (auto p : { "", "::", "A::", "x::", "::A::", "::A::x::" }) qs.push_back(p + n);
        check(run, *w.root, qs, set % 64 == 5);
    });
}
MC_MAIN
