// C09: types compose by value and lay out members without overlap
#include "model.hpp"
#include "tree.hpp"
using namespace m;
using xt::Member; using xt::StructType; using xt::UnionType; using xt::AggregationType; using xt::AliasType; using xt::SequenceType; using xt::ArrayType; using xt::MapType; using xt::PairType; using xt::StringType;
using Enum = xt::EnumerationType<uint16_t>;

// what the public interface tells about a type, as text; audits accessors and layout of every aggregation on the way
static std::string tell(const DynamicType& t);
static void audit(const AggregationType& a)
{
    const auto& ms = a.members();
    for (size_t i = 0; i < ms.size(); ++i)
    {
        MC_CHECK(&a.member(i) == &ms[i] && a.has_member(ms[i].name()) && &a.member(ms[i].name()) == &ms[i], "members(), member(", i, "), member(\"", ms[i].name(), "\") or has_member() of ", a.name(), " disagree");
        for (size_t j = 0; j < i; ++j) MC_CHECK(ms[i].name() != ms[j].name(), "two members named ", ms[i].name(), " in ", a.name());
    }
    for (const char* n : { "", "absent", "m", "M0", "discriminato" }) { bool in = false; for (auto& x : ms) in |= x.name() == n; if (in) continue;
        MC_CHECK(!a.has_member(n) && mc::refused_rt([&] { (void)a.member(std::string(n)); }), "absent member '", n, "' of ", a.name(), " is not refused"); }
    MC_CHECK(mc::refused_rt([&] { (void)a.member(ms.size()); }), "member(", ms.size(), ") of ", a.name(), " is not refused");
    if (a.kind() == xt::TypeKind::STRUCTURE_TYPE)
    {
        size_t end = 0;
        for (auto& x : ms) { MC_CHECK(x.offset() >= end, "member ", x.name(), " of ", a.name(), " starts at ", x.offset(), " but its predecessor ends at ", end); end = x.offset() + x.type().memory_size(); }
        MC_CHECK(a.memory_size() >= end, "memory_size() of ", a.name(), " is ", a.memory_size(), " but its members end at ", end);
        MC_CHECK(a.memory_size() <= end + 16 * ms.size() + 16, "memory_size() of ", a.name(), " is ", a.memory_size(), " for ", end, " bytes of members");
        if (a.has_parent()) { auto& p = a.parent().members(); MC_CHECK(p.size() <= ms.size(), "fewer members than the parent");
            for (size_t i = 0; i < p.size(); ++i) MC_CHECK(p[i].name() == ms[i].name() && p[i].offset() == ms[i].offset() && tell(p[i].type()) == tell(ms[i].type()), "member ", i, " of ", a.name(), " is not the parent's one"); }
    }
    else
    {
        MC_CHECK(!ms.empty() && ms[0].name() == "discriminator" && ms[0].offset() == 0, "the first member of a union is not its discriminator");
        size_t disc = ms[0].type().memory_size(), big = 0;
        for (size_t i = 1; i < ms.size(); ++i)
        {
            MC_CHECK(ms[i].offset() >= disc, "case member ", ms[i].name(), " of ", a.name(), " overlaps the discriminator");
            MC_CHECK(ms[i].offset() + ms[i].type().memory_size() <= a.memory_size(), "case member ", ms[i].name(), " of ", a.name(), " ends at ", ms[i].offset() + ms[i].type().memory_size(), " of ", a.memory_size());
            big = std::max(big, ms[i].type().memory_size());
        }
        MC_CHECK(ms.size() == 1 || a.memory_size() <= disc + big + 32, "memory_size() of ", a.name(), " is ", a.memory_size());
    }
}
static std::string tell(const DynamicType& t)
{
    using K_ = xt::TypeKind;
    std::string s;
    switch (t.kind())
    {
        case K_::STRING_TYPE: case K_::WSTRING_TYPE: case K_::STRING16_TYPE: return "str/" + std::to_string(static_cast<const xt::MutableCollectionType&>(t).bounds());
        case K_::SEQUENCE_TYPE: { auto& c = static_cast<const SequenceType&>(t); return "seq(" + tell(c.content_type()) + "," + std::to_string(c.bounds()) + ")"; }
        case K_::ARRAY_TYPE: { auto& c = static_cast<const ArrayType&>(t); MC_CHECK(c.memory_size() >= c.content_type().memory_size() * c.dimension(), "memory_size() of an array"); return "arr(" + tell(c.content_type()) + "," + std::to_string(c.dimension()) + ")"; }
        case K_::MAP_TYPE: { auto& c = static_cast<const MapType&>(t); return "map(" + tell(static_cast<const PairType&>(c.content_type()).first()) + "," + tell(static_cast<const PairType&>(c.content_type()).second()) + "," + std::to_string(c.bounds()) + ")"; }
        case K_::ALIAS_TYPE: { auto& a = static_cast<const AliasType&>(t); return "alias " + t.name() + "=" + tell(a.get()); }
        case K_::ENUMERATION_TYPE:
        {
            auto& e = static_cast<const Enum&>(t); s = "enum " + t.name() + "{";
            for (auto& p : e.enumerators()) { s += p.first + "=" + std::to_string(p.second) + ","; MC_CHECK(e.has_enumerator(p.first) && e.value(p.first) == p.second && e.is_allowed_value(p.second), "enumerator ", p.first); }
            return s + "}";
        }
        case K_::STRUCTURE_TYPE:
        {
            auto& a = static_cast<const StructType&>(t); audit(a); s = "struct " + t.name() + (a.has_parent() ? ":" + tell(a.parent()) : "") + "{";
            for (auto& x : a.members()) { s += x.name() + (x.is_key() ? "!" : "") + (x.is_optional() ? "?" : "") + (x.has_id() ? "#" + std::to_string(x.get_id()) : "") + ":" + tell(x.type()) + ";"; }
            return s + "}";
        }
        case K_::UNION_TYPE:
        {
            auto& u = static_cast<const UnionType&>(t); audit(u); s = "union " + t.name() + "(" + tell(u.discriminator()) + "){"; std::vector<std::string> names;
            for (size_t i = 1; i < u.members().size(); ++i)
            {
                auto& x = u.members()[i]; names.push_back(x.name());
                for (auto l : u.get_labels(x.name())) s += std::to_string(l) + ",";
                s += std::string(u.is_default(x.name()) ? "default " : "") + x.name() + ":" + tell(x.type()) + ";";
            }
            MC_CHECK(u.get_case_members() == names, "get_case_members() of ", t.name());
            return s + "}" + u.get_default();
        }
        default: return t.name();
    }
}

// writes something different in every leaf, and reads everything
static void fill(WritableDynamicDataRef r, int& n)
{
    using K_ = xt::TypeKind; const DynamicType& t = r.type(); int c = ++n;
    switch (t.kind())
    {
        case K_::UINT_8_TYPE: r.value(uint8_t(c)); break; case K_::INT_16_TYPE: r.value(int16_t(c)); break; case K_::INT_32_TYPE: r.value(int32_t(c)); break; case K_::INT_64_TYPE: r.value(int64_t(c) << 33 | c); break; case K_::UINT_32_TYPE: r.value(uint32_t(c)); break;
        case K_::FLOAT_128_TYPE: r.value((long double)c + 0.5L); break; case K_::BOOLEAN_TYPE: r.value(bool(c & 1)); break;
        case K_::ENUMERATION_TYPE: { auto& e = static_cast<const Enum&>(t); if (!e.enumerators().empty()) { auto it = e.enumerators().begin(); std::advance(it, c % e.enumerators().size()); r.value(uint16_t(it->second)); } break; }
        case K_::STRING_TYPE: r.value(std::string("text ") + std::to_string(c)); break;
        case K_::SEQUENCE_TYPE: if (r.size() < 2) r.resize(2); for (size_t i = 0; i < r.size(); ++i) fill(r[i], n); break;
        case K_::ARRAY_TYPE: for (size_t i = 0; i < r.size(); ++i) fill(r[i], n); break;
        case K_::MAP_TYPE: { auto& mt = static_cast<const MapType&>(t); DynamicData k(static_cast<const PairType&>(mt.content_type()).first()); fill(r[k], n); fill(k.ref(), n); fill(r[k], n); break; }
        case K_::STRUCTURE_TYPE: for (size_t i = 0; i < r.size(); ++i) fill(r[i], n); break;
        case K_::UNION_TYPE: { auto& u = static_cast<const UnionType&>(t); auto cs = u.get_case_members(); if (!cs.empty()) fill(r[cs[c % cs.size()]], n); break; }
        default: fail("fill: kind");
    }
}
static std::string dump(const ReadableDynamicDataRef& r)
{
    using K_ = xt::TypeKind; const DynamicType& t = r.type(); std::string s;
    switch (t.kind())
    {
        case K_::UINT_8_TYPE: return std::to_string(r.value<uint8_t>()); case K_::INT_16_TYPE: return std::to_string(r.value<int16_t>()); case K_::INT_32_TYPE: return std::to_string(r.value<int32_t>()); case K_::INT_64_TYPE: return std::to_string(r.value<int64_t>());
        case K_::UINT_32_TYPE: return std::to_string(r.value<uint32_t>()); case K_::FLOAT_128_TYPE: return std::to_string(r.value<long double>()); case K_::BOOLEAN_TYPE: return r.value<bool>() ? "true" : "false";
        case K_::ENUMERATION_TYPE: return "e" + std::to_string(r.value<uint16_t>()); case K_::STRING_TYPE: return '"' + r.value<std::string>() + '"';
        case K_::SEQUENCE_TYPE: case K_::ARRAY_TYPE: for (size_t i = 0; i < r.size(); ++i) s += dump(r[i]) + ","; return "[" + s + "]";
        case K_::MAP_TYPE: for (ReadableDynamicDataRef p : r) s += dump(p[0]) + "=" + dump(p[1]) + ","; return "<" + s + ">";
        case K_::STRUCTURE_TYPE: for (size_t i = 0; i < r.size(); ++i) s += dump(r[i]) + ";"; return "{" + s + "}";
        case K_::UNION_TYPE: try { auto m = r.current_case(); return "(" + m.name() + ":" + dump(r[m.name()]) + ")"; } catch (std::runtime_error&) { return "()"; }
        default: fail("dump: kind");
    }
}
// the bytes of the parts of a value never overlap and lie within it
static void bytes(const ReadableDynamicDataRef& r)
{
    if (r.type().kind() != xt::TypeKind::STRUCTURE_TYPE && r.type().kind() != xt::TypeKind::ARRAY_TYPE) return;
    size_t at = r.instance_id(), end = at + r.type().memory_size(), last = at;
    for (size_t i = 0; i < r.size(); ++i)
    {
        auto e = r[i]; size_t a = e.instance_id(), z = a + e.type().memory_size();
        MC_CHECK(a >= last && z <= end, "part ", i, " of ", r.type().name(), " overlaps another one or exceeds the value"); last = z; bytes(e);
    }
}

// ---- histories that build, capture and then go on changing types -------------------------------------------------------
// the model is the text tell() must give, composed from the texts at the moment of the composition
struct MS { std::string name, parent; std::vector<std::pair<std::string, std::string>> mem; std::string text() const { std::string s = "struct " + name + (parent.empty() ? "" : ":" + parent) + "{"; for (auto& m : mem) s += m.first + ":" + m.second + ";"; return s + "}"; } };
struct MU { std::string name; std::vector<std::pair<std::string, std::string>> mem; std::string def; std::string text() const { std::string s = "union " + name + "(int32_t){"; for (auto& m : mem) s += m.first + ":" + m.second + ";"; return s + "}" + def; } };
struct ME { std::string name; std::map<std::string, int> en; std::string text() const { std::string s = "enum " + name + "{"; for (auto& e : en) s += e.first + "=" + std::to_string(e.second) + ","; return s + "}"; } };
struct Kept { DynamicType::Ptr type; std::string text; size_t size; std::unique_ptr<DynamicData> d, twin; std::string content; int seed; };

// a type that goes on changing, held directly or (sharing it) by a DynamicType::Ptr
static bool in_ptr = false;
template<class T> struct Held
{
    std::unique_ptr<T> u; DynamicType::Ptr p;
    Held() {}
    explicit Held(T* t) { reset(t); }
    Held(Held&&) = default;
    Held& operator=(Held&& o) { u = std::move(o.u); p = std::move(o.p); return *this; }
    void reset(T* t) { if (in_ptr) { std::unique_ptr<T> x(t); p = DynamicType::Ptr(*x); } else u.reset(t); }
    const DynamicType* raw() const { return p.get(); }
    T* get() const { return in_ptr ? const_cast<T*>(static_cast<const T*>(raw())) : u.get(); }
    T& operator*() const { return *get(); }
    T* operator->() const { return get(); }
    explicit operator bool() const { return get(); }
};

struct Sys
{
    Held<StructType> s, p; Held<UnionType> u; Held<Enum> e; std::unique_ptr<Member> m;
    MS ms, mp; MU mu; ME me; std::string mm; std::vector<Kept> kept; std::vector<std::pair<Held<StructType>, std::string>> old; int n = 0; bool primed;
    enum { NOPS = 20 };
    explicit Sys(int start) : primed(start == 1)
    {
        in_ptr = start == 2; s.reset(new StructType("S")); u.reset(new UnionType("U", xt::primitive_type<int32_t>())); e.reset(new Enum("E"));
        ms.name = "S"; mu.name = "U"; me.name = "E";
        if (primed) { for (int o : { 0, 2, 6, 8, 3 }) apply(o); }
    }
    std::string op_name(int o) const
    {
        static const char* x[] = { "S+u8", "S+i64", "S+str", "S+E", "S+U", "S+taken", "E+a", "U+S", "U+u8", "U+default seq<E>", "U+refused", "derive", "P+i16", "D+ancestor's", "S+alias(E)", "capture", "S copy", "rename", "keep Member(S)", "add Member" };
        return x[o];
    }
    std::string fresh(const char* p) { return p + std::to_string(n++); }
    void keep(DynamicType::Ptr t, const std::string& text)
    {
        Kept k{ t, text, t->memory_size(), nullptr, nullptr, "", int(kept.size()) }; int c = k.seed;
        if (kept.size() % 2) { k.d.reset(new DynamicData(*t)); fill(k.d->ref(), c); k.content = dump(*k.d); k.twin.reset(new DynamicData(*k.d)); }
        kept.push_back(std::move(k));
    }
    void capture()
    {
        std::string S = ms.text(), U = mu.text(), E = me.text();
        size_t before = kept.size(); if (before > 60) return;
        keep(DynamicType::Ptr(SequenceType(*s)), "seq(" + S + ",0)"); keep(DynamicType::Ptr(*s), S);
        keep(DynamicType::Ptr(ArrayType(*s, 2)), "arr(" + S + ",2)"); keep(DynamicType::Ptr(SequenceType(*u, 3)), "seq(" + U + ",3)");
        keep(DynamicType::Ptr(MapType(*e, *s)), "map(" + E + "," + S + ",0)"); keep(DynamicType::Ptr(MapType(*s, *u)), "map(" + S + "," + U + ",0)");
        { StructType c("C"); c.add_member("x", *s).add_member(Member("y", *e)).add_member("z", *u); keep(DynamicType::Ptr(c), "struct C{x:" + S + ";y:" + E + ";z:" + U + ";}"); keep(DynamicType::Ptr(SequenceType(c)), "seq(struct C{x:" + S + ";y:" + E + ";z:" + U + ";},0)");
          c.add_member("w", xt::primitive_type<bool>()); keep(DynamicType::Ptr(c), "struct C{x:" + S + ";y:" + E + ";z:" + U + ";w:bool;}"); }
        { StructType d("D", s.get()); d.add_member("dd", *u); MS md{ "D", S, ms.mem }; md.mem.push_back({ "dd", U }); keep(DynamicType::Ptr(d), md.text()); }
        { UnionType c("W", xt::primitive_type<uint8_t>()); c.add_case_member(std::vector<int>{ 1, 2 }, "x", *s).add_case_member(std::vector<int>{ 3 }, Member("y", *u)); keep(DynamicType::Ptr(c), "union W(uint8_t){1,2,x:" + S + ";3,y:" + U + ";}"); }
        if (!me.en.empty()) { UnionType c("X", *e); c.add_case_member(std::vector<int>{ 0 }, "x", AliasType(*u, "B")); keep(DynamicType::Ptr(c), "union X(" + E + "){0,x:alias B=" + U + ";}"); }
        keep(DynamicType::Ptr(SequenceType(AliasType(AliasType(*s, "A1"), "A2"))), "seq(alias A2=alias A1=" + S + ",0)");
        keep(DynamicType::Ptr(ArrayType(*e, std::vector<uint32_t>{ 2, 3 })), "arr(arr(" + E + ",3),2)"); keep(DynamicType::Ptr(*u), U); keep(DynamicType::Ptr(*e), E);
        keep(DynamicType::Ptr(AliasType(DynamicType::Ptr(*u), "AP")), "alias AP=" + U);
    }
    bool apply(int o)
    {
        switch (o)
        {
            case 0: { auto f = fresh("m"); s->add_member(f, xt::primitive_type<uint8_t>()); ms.mem.push_back({ f, "uint8_t" }); return true; }
            case 1: { auto f = fresh("m"); s->add_member(Member(f, xt::primitive_type<int64_t>())); ms.mem.push_back({ f, "int64_t" }); return true; }
            case 2: { auto f = fresh("m"); s->add_member(f, StringType()); ms.mem.push_back({ f, "str/0" }); return true; }
            case 3: { auto f = fresh("m"); s->add_member(f, *e); ms.mem.push_back({ f, me.text() }); return true; }
            case 4: { auto f = fresh("m"); s->add_member(f, *u); ms.mem.push_back({ f, mu.text() }); return true; }
            case 5: if (ms.mem.empty()) return false; MC_CHECK(mc::refused_rt([&] { s->add_member(ms.mem.back().first, xt::primitive_type<int64_t>()); }) && mc::refused_rt([&] { s->add_member(Member(ms.mem[0].first, *e)); }), "a taken member name is not refused"); return true;
            case 6: { auto f = fresh("e"); e->add_enumerator(f); int c = int(me.en.size()); me.en[f] = c; return true; }
            case 7: { auto f = fresh("u"); int l = n * 3; u->add_case_member(std::vector<int>{ l, l + 1 }, f, *s); mu.mem.push_back({ std::to_string(l) + "," + std::to_string(l + 1) + "," + f, ms.text() }); return true; }
            case 8: { auto f = fresh("u"); int l = n * 3; u->add_case_member(std::vector<int>{ l }, Member(f, xt::primitive_type<uint8_t>())); mu.mem.push_back({ std::to_string(l) + "," + f, "uint8_t" }); return true; }
            case 9:
            {
                auto f = fresh("u"); auto add = [&] { u->add_case_member(std::vector<int>{}, f, SequenceType(*e), true); };
                if (!mu.def.empty()) { MC_CHECK(mc::refused_rt(add), "a second default is not refused"); return true; }
                add(); mu.mem.push_back({ "default " + f, "seq(" + me.text() + ",0)" }); mu.def = f; return true;
            }
            case 10:
            {
                if (mu.mem.empty()) return false; std::string taken = u->get_case_members().back(); auto l = u->get_labels(u->get_case_members()[0]);
                MC_CHECK(mc::refused_rt([&] { u->add_case_member(std::vector<int>{ 7777 }, taken, *s); }), "a taken case name is not refused");
                if (!l.empty()) MC_CHECK(mc::refused_rt([&] { u->add_case_member(std::vector<int64_t>{ 7778, l.back() }, "other", *s); }), "a taken label is not refused");
                MC_CHECK(mc::refused_rt([&] { u->add_case_member(std::vector<int>{}, "other", *s); }) && mc::refused_rt([&] { u->add_case_member(std::vector<int>{ 7779 }, "discriminator", *s); }), "a wrong case is not refused");
                return true;
            }
            case 11:
            {
                if (p) old.emplace_back(std::move(p), mp.text());
                p = std::move(s); mp = ms; auto f = fresh("D"); s.reset(new StructType(f, p.get())); ms = MS{ f, mp.text(), mp.mem }; return true;
            }
            case 12: { if (!p) return false; auto f = fresh("p"); p->add_member(f, xt::primitive_type<int16_t>()); mp.mem.push_back({ f, "int16_t" }); return true; }
            case 13: if (!s->has_parent() || s->parent().members().empty()) return false;
                for (auto& x : s->parent().members()) MC_CHECK(mc::refused_rt([&] { s->add_member(x.name(), xt::primitive_type<uint8_t>()); }), "the name of an inherited member is not refused");
                return true;
            case 14: { auto f = fresh("m"); AliasType a(*e, "A"); s->add_member(f, a); ms.mem.push_back({ f, "alias A=" + me.text() }); return true; }
            case 15: capture(); return true;
            case 16: { Held<StructType> c(new StructType(*s)); old.emplace_back(std::move(s), ms.text()); s = std::move(c);
                       Held<UnionType> cu(new UnionType(*u)); keep(DynamicType::Ptr(*u), mu.text()); u = std::move(cu); return true; }
            case 17: { auto f = fresh("R"); s->name(f); ms.name = f; f = fresh("R"); e->name(f); me.name = f; f = fresh("R"); u->name(f); mu.name = f; return true; }
            case 18: m.reset(new Member("kept" + std::to_string(n++), *s)); mm = ms.text(); return true;
            default: { if (!m) return false; bool taken = false; for (auto& x : ms.mem) taken |= x.first == m->name(); if (taken) { MC_CHECK(mc::refused_rt([&] { s->add_member(*m); }), "a taken member name is not refused"); return true; }
                       s->add_member(*m); ms.mem.push_back({ m->name(), mm }); m->key().id(7).optional(); m.reset(new Member(m->name(), *e)); mm = me.text(); return true; }
        }
    }
    void same(const DynamicType& t, const std::string& want, const char* what) { std::string got = tell(t); if (got != want) fail(cat(what, " is  ", got, "  instead of  ", want)); }
    void check()
    {
        same(*s, ms.text(), "the struct"); same(*u, mu.text(), "the union"); same(*e, me.text(), "the enumeration"); if (p) same(*p, mp.text(), "the parent");
        for (auto& o : old) same(*o.first, o.second, "an earlier struct"); if (m) same(m->type(), mm, "the type of a member");
        for (auto& k : kept)
        {
            same(*k.type, k.text, "a composed type");
            MC_CHECK(k.type->memory_size() == k.size, "memory_size() of a composed type changed");
            if (!k.d) continue;
            MC_CHECK(tell(k.d->type()) == tell(k.type->kind() == xt::TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(*k.type).rget() : *k.type), "the type of data changed");
            MC_CHECK(dump(*k.d) == k.content && *k.d == *k.twin, "data changed when its type's origin did: ", dump(*k.d), " instead of ", k.content);
            int c = k.seed; DynamicData again(*k.type); fill(again.ref(), c); MC_CHECK(dump(again) == k.content, "new data of a composed type differs: ", dump(again), " instead of ", k.content);
            bytes(*k.d);
        }
        int c = 0; DynamicData d(*s); fill(d.ref(), c); bytes(d); DynamicData x(d); MC_CHECK(x == d && dump(x) == dump(d), "data of the struct");
    }
};
SUITE(histories)
{
    int depth = mc::thorough() ? 4 : 3;
    for (int start : { 0, 1 }) mc::tree(run, start ? "from members" : "from nothing", Sys::NOPS, depth, [=] { return std::unique_ptr<Sys>(new Sys(start)); });
}
// longer histories over the operations that matter most for capturing
struct Deep : Sys
{
    Deep() : Sys(0) {}
    enum { N = 8 };
    static int op(int o) { static const int x[] = { 0, 3, 6, 7, 11, 12, 15, 16 }; return x[o]; }
    std::string op_name(int o) const { return Sys::op_name(op(o)); }
    bool apply(int o) { return Sys::apply(op(o)); }
};
// the same over types that are shared by a DynamicType::Ptr while they change
struct DeepShared : Sys
{
    DeepShared() : Sys(2) {}
    enum { N = 10 };
    static int op(int o) { static const int x[] = { 0, 3, 4, 6, 7, 9, 11, 12, 15, 18 }; return x[o]; }
    std::string op_name(int o) const { return Sys::op_name(op(o)); }
    bool apply(int o) { return Sys::apply(op(o)); }
};
SUITE(shared) { mc::tree(run, "shared", DeepShared::N, mc::thorough() ? 5 : 3, [=] { return std::unique_ptr<DeepShared>(new DeepShared()); }); }
SUITE(captures) { mc::tree(run, "capture", Deep::N, mc::thorough() ? 6 : 4, [=] { return std::unique_ptr<Deep>(new Deep()); }); }

// ---- layouts: every arrangement of members of different sizes --------------------------------------------------------
static std::vector<DynamicType::Ptr> parts()
{
    std::vector<DynamicType::Ptr> r{ DynamicType::Ptr(xt::primitive_type<uint8_t>()), DynamicType::Ptr(xt::primitive_type<int16_t>()), DynamicType::Ptr(xt::primitive_type<int64_t>()), DynamicType::Ptr(xt::primitive_type<long double>()), DynamicType::Ptr(StringType()),
        DynamicType::Ptr(SequenceType(xt::primitive_type<uint8_t>())), DynamicType::Ptr(ArrayType(xt::primitive_type<uint8_t>(), 3)), DynamicType::Ptr(MapType(xt::primitive_type<uint8_t>(), StringType())) };
    Enum e("E"); e.add_enumerator("a").add_enumerator("b"); r.push_back(DynamicType::Ptr(e));
    r.push_back(DynamicType::Ptr(StructType("In").add_member("a", xt::primitive_type<uint8_t>()).add_member("b", StringType()).add_member("c", xt::primitive_type<bool>())));
    r.push_back(DynamicType::Ptr(UnionType("Un", xt::primitive_type<uint8_t>()).add_case_member(std::vector<int>{ 1 }, "a", StringType()).add_case_member(std::vector<int>{ 2 }, "b", xt::primitive_type<int64_t>())));
    r.push_back(DynamicType::Ptr(StructType("Empty")));
    r.push_back(DynamicType::Ptr(AliasType(ArrayType(StringType(), 2), "Al")));
    return r;
}
SUITE(layouts)
{
    static const auto ps = parts(); size_t N = ps.size(); size_t len = mc::thorough() ? 4 : 3;
    for (size_t f = 0; f < N; ++f) for (int cut = 0; cut <= 3; ++cut) run.test(cat("struct/", ps[f]->name(), "/", cut), [&]
    {
        std::vector<size_t> pick{ f };
        std::function<void()> rec = [&]
        {
            std::string how; for (size_t i : pick) how += ps[i]->name() + " "; run.note(how);
            // the first `cut` members belong to ancestors, one each
            std::vector<std::unique_ptr<StructType>> chain; chain.emplace_back(new StructType("S0"));
            for (size_t i = 0; i < pick.size(); ++i)
            {
                if (i && int(i) <= cut) chain.emplace_back(new StructType("S" + std::to_string(i), chain.back().get()));
                chain.back()->add_member("m" + std::to_string(i), *ps[pick[i]]);
            }
            const StructType& t = *chain.back(); tell(t);
            MC_CHECK(t.members().size() == pick.size(), "number of members"); for (size_t i = 0; i < pick.size(); ++i) MC_CHECK(t.member(i).name() == "m" + std::to_string(i) && tell(t.member(i).type()) == tell(*ps[pick[i]]), "member ", i);
            // all members filled, each one rewritten in turn: nothing else changes
            DynamicData d(t); int n = 100; fill(d.ref(), n); bytes(d);
            std::vector<std::string> now; for (size_t i = 0; i < pick.size(); ++i) now.push_back(dump(d[i]));
            if (chain.size() > 1) { chain[0]->add_member("later", StringType()); MC_CHECK(!t.has_member("later"), "a derived struct follows its parent"); }
            for (size_t i = 0; i < pick.size(); ++i)
            {
                n = 50 + int(i); fill(d["m" + std::to_string(i)], n); now[i] = dump(d[i]);
                for (size_t j = 0; j < pick.size(); ++j) MC_CHECK(dump(d["m" + std::to_string(j)]) == now[j], "writing member ", i, " changed member ", j);
                run.transition();
            }
            run.state();
            if (pick.size() < len) for (size_t i = 0; i < N; ++i) { pick.push_back(i); rec(); pick.pop_back(); }
        };
        rec(); run.trace();
    });
    for (size_t a = 0; a < N; ++a) run.test(cat("union/", ps[a]->name()), [&]
    {
        for (int disc = 0; disc < 4; ++disc) for (size_t b = 0; b < N; ++b) for (size_t c = 0; c < N; ++c) for (int def = 0; def < 2; ++def)
        {
            run.note(cat(disc, " ", ps[b]->name(), " ", ps[c]->name(), def ? " default" : ""));
            const DynamicType* dt[] = { &xt::primitive_type<uint8_t>(), &xt::primitive_type<int64_t>(), &xt::primitive_type<char>(), &xt::primitive_type<uint16_t>() };
            UnionType u("U", *dt[disc]); u.add_case_member(std::vector<int>{ 1 }, "a", *ps[a]).add_case_member(std::vector<int>{ 2, 5 }, "b", *ps[b]); tell(u); u.add_case_member(std::vector<int>{ 3 }, "c", *ps[c], def); tell(u);
            DynamicData d(u), e(xt::primitive_type<bool>());
            // the discriminator survives any content, and the content any neighbour
            StructType s("S"); s.add_member("x", xt::primitive_type<int64_t>()).add_member("u", u).add_member("y", xt::primitive_type<int64_t>()); DynamicData w(s); w["x"] = int64_t(-1); w["y"] = int64_t(-1);
            for (const char* m : { "a", "b", "c", "a" })
            {
                int n = 200; fill(w["u"][m], n); std::string want = dump(w["u"][m]);
                MC_CHECK(w["u"].current_case().name() == m && w["x"].value<int64_t>() == -1 && w["y"].value<int64_t>() == -1 && dump(w.cref()["u"][m]) == want, "writing the case ", m, " changed something else");
                size_t at = w["u"].instance_id(), ma = w["u"][m].instance_id(); auto& mem = u.member(std::string(m));
                MC_CHECK(ma >= at + u.discriminator().memory_size() && ma + mem.type().memory_size() <= at + u.memory_size(), "the case ", m, " lies outside the union");
                run.transition();
            }
            run.state();
        }
        run.trace();
    });
}
// members that are large or many: offsets and sizes beyond the limits of narrower counters
SUITE(wide)
{
    static std::vector<DynamicType::Ptr> ps; ps.clear();
    for (uint32_t n : { 100u, 200u, 256u, 300u, 40000u, 70000u }) ps.emplace_back(ArrayType(xt::primitive_type<uint8_t>(), n));
    ps.emplace_back(xt::primitive_type<uint8_t>()); ps.emplace_back(xt::primitive_type<int64_t>()); ps.emplace_back(StringType()); ps.emplace_back(ArrayType(StringType(), 10)); ps.emplace_back(SequenceType(StringType()));
    auto put = [](WritableDynamicDataRef r, int c)
    {
        auto leaf = [](WritableDynamicDataRef x, int c) { if (x.type().kind() == xt::TypeKind::UINT_8_TYPE) x.value(uint8_t(c)); else if (x.type().kind() == xt::TypeKind::INT_64_TYPE) x.value(int64_t(c) << 40 | c); else x.value(cat("some longer text ", c)); };
        if (r.type().kind() == xt::TypeKind::ARRAY_TYPE) { leaf(r[0], c); leaf(r[r.size() - 1], c + 1); leaf(r[r.size() / 2], c + 2); } else if (r.type().kind() == xt::TypeKind::SEQUENCE_TYPE) { r.resize(2); leaf(r[0], c); leaf(r[1], c + 1); } else leaf(r, c);
    };
    auto get = [](const ReadableDynamicDataRef& r)
    {
        auto leaf = [](const ReadableDynamicDataRef& x) { return x.type().kind() == xt::TypeKind::UINT_8_TYPE ? cat(int(x.value<uint8_t>())) : x.type().kind() == xt::TypeKind::INT_64_TYPE ? cat(x.value<int64_t>()) : x.value<std::string>(); };
        if (r.type().kind() == xt::TypeKind::ARRAY_TYPE) return leaf(r[0]) + "," + leaf(r[r.size() - 1]) + "," + leaf(r[r.size() / 2]); if (r.type().kind() == xt::TypeKind::SEQUENCE_TYPE) return r.size() == 2 ? leaf(r[0]) + "," + leaf(r[1]) : cat("size ", r.size()); return leaf(r);
    };
    size_t N = ps.size(); auto what = [](size_t i) { return ps[i]->kind() == xt::TypeKind::ARRAY_TYPE ? cat("array ", static_cast<const ArrayType&>(*ps[i]).dimension()) : ps[i]->name(); };
    auto go = [&](const std::vector<size_t>& pick, size_t parents)
    {
        std::vector<std::unique_ptr<StructType>> chain; chain.emplace_back(new StructType("S0"));
        for (size_t i = 0; i < pick.size(); ++i) { if (i && i <= parents) chain.emplace_back(new StructType(cat("S", i), chain.back().get())); chain.back()->add_member(cat("m", i), *ps[pick[i]]); }
        const StructType& t = *chain.back(); size_t last = 0;
        for (size_t i = 0; i < pick.size(); ++i) { auto& m = t.member(i); MC_CHECK(m.offset() >= last && m.offset() + m.type().memory_size() <= t.memory_size(), "member ", i, " overlaps another one or exceeds the struct: offset ", m.offset()); last = m.offset() + m.type().memory_size(); MC_CHECK(last > m.offset(), "member ", i, " has no size"); }
        StructType out("Out"); out.add_member("x", xt::primitive_type<uint8_t>()).add_member("s", t).add_member("y", StringType());
        UnionType un("Un", xt::primitive_type<uint8_t>()); un.add_case_member(std::vector<int>{ 1 }, "small", xt::primitive_type<uint8_t>()).add_case_member(std::vector<int>{ 2 }, "s", t);
        StructType holder("Holder"); holder.add_member("u", un).add_member("y", StringType());
        struct P { const char* name; std::unique_ptr<DynamicData> d; std::function<WritableDynamicDataRef(DynamicData&)> at; std::function<void(DynamicData&)> rest; }; std::vector<P> places;
        auto add = [&](const char* n, const DynamicType& ty, std::function<WritableDynamicDataRef(DynamicData&)> at, std::function<void(DynamicData&)> rest = [](DynamicData&) {}) { places.push_back({ n, std::make_unique<DynamicData>(ty), at, rest }); };
        add("alone", t, [](DynamicData& d) { return d.ref(); });
        add("member", out, [](DynamicData& d) { return d["s"]; }, [](DynamicData& d) { MC_CHECK(d["x"].value<uint8_t>() == 0 && d["y"].value<std::string>() == "", "a neighbour changed"); });
        add("case", holder, [](DynamicData& d) { return d["u"]["s"]; }, [](DynamicData& d) { MC_CHECK(d["y"].value<std::string>() == "", "a neighbour changed"); });
        add("array", ArrayType(t, 3), [](DynamicData& d) { return d[1]; }, [&](DynamicData& d) { DynamicData e(t); MC_CHECK(d[0] == e && d[2] == e, "a neighbour changed"); });
        add("sequence", SequenceType(t, 3), [](DynamicData& d) { if (!d.size()) d.resize(3); return d[1]; }, [&](DynamicData& d) { DynamicData e(t); MC_CHECK(d[0] == e && d[2] == e, "a neighbour changed"); });
        add("map", MapType(xt::primitive_type<uint8_t>(), t), [](DynamicData& d) { DynamicData k(xt::primitive_type<uint8_t>()); for (int i = 0; i < 3; ++i) { k = uint8_t(i); (void)d[k]; } k = uint8_t(1); return d[k]; }, [&](DynamicData& d) { DynamicData e(t), k(xt::primitive_type<uint8_t>()); MC_CHECK(d.at(k) == e, "a neighbour changed"); k = uint8_t(2); MC_CHECK(d.at(k) == e, "a neighbour changed"); });
        for (auto& p : places)
        {
            run.note(p.name); DynamicData& d = *p.d; std::vector<std::string> now; { auto w = p.at(d); for (size_t i = 0; i < pick.size(); ++i) now.push_back(get(w[i])); }
            for (size_t i = 0; i < pick.size(); ++i)
            {
                auto w = p.at(d); put(w[i], int(i) % 90 + 3); now[i] = get(w[i]); if (pick.size() > 10 && i % 32 != 31 && i + 2 < pick.size()) continue;
                for (size_t j = 0; j < pick.size(); ++j) MC_CHECK(get(w[cat("m", j)]) == now[j], "writing member ", i, " changed member ", j, ": ", get(w[j]), " instead of ", now[j]);
                p.rest(d); run.transition();
            }
            DynamicData c(d); MC_CHECK(c == d && c.hash() == d.hash(), "copy"); auto w = p.at(c); for (size_t j = 0; j < pick.size(); ++j) MC_CHECK(get(w[j]) == now[j], "member ", j, " of the copy");
        }
        run.state();
    };
    for (size_t a = 0; a < N; ++a) for (size_t parents = 0; parents < 3; ++parents) run.test(cat(what(a), "/", parents), [&]
    {
        for (size_t b = 0; b < N; ++b) for (size_t c = 0; c < N; ++c) { bool big = (a == 5) + (b == 5) + (c == 5) + (a == 4) + (b == 4) + (c == 4) > 1; if (big && !mc::thorough() && (parents || c > 6)) continue; run.note(what(b) + " " + what(c)); go({ a, b, c }, parents); }
        run.trace();
    });
    for (int n : { 31, 33, 127, 128, 129, 255, 256, 257, 300, 520 }) for (size_t parents : { size_t(0), size_t(1), size_t(40) }) run.test(cat("members ", n, "/", parents), [&] { std::vector<size_t> pick; for (int i = 0; i < n; ++i) pick.push_back(i % 50 == 49 ? 3 : 6 + i % 5); go(pick, parents); run.trace(); });
}
MC_MAIN
