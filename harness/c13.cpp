// C13: enumerations hold their declared values and nothing else, under every history of definitions
#include "model.hpp"
#include "tree.hpp"
using namespace m; using mc::refused_rt; using mc::cat;

// the table that the definitions determine
struct Table
{
    std::vector<std::pair<std::string, uint64_t>> e;      // in order of definition
    uint64_t next = 0, max;
    bool has(const std::string& n) const { for (auto& x : e) if (x.first == n) return true; return false; }
    bool allowed(uint64_t v) const { for (auto& x : e) if (x.second == v) return true; return false; }
    bool add(const std::string& n, uint64_t v) { if (has(n) || v < next || v > max) return false; e.emplace_back(n, v); next = v + 1; return true; }
    bool add(const std::string& n) { return add(n, next); }
};
template<class X> xt::TypeKind kind_of() { return xt::primitive_type<X>().kind(); }

// the type agrees with the table
template<class X> void agree(const xt::EnumerationType<X>& t, const Table& m, const std::vector<uint64_t>& vals, const std::vector<std::string>& names)
{
    MC_CHECK(t.name() == "En" && t.kind() == xt::TypeKind::ENUMERATION_TYPE && static_cast<const xt::DynamicType&>(t).memory_size() == sizeof(X) && t.is_enumerated_type(), "the type changed");
    std::map<std::string, X> want; for (auto& x : m.e) want[x.first] = X(x.second);
    MC_CHECK(t.enumerators() == want, "enumerators() has ", t.enumerators().size(), " entries, expected ", want.size(), " (or other values)");
    for (auto& n : names)
    {
        MC_CHECK(t.has_enumerator(n) == (want.count(n) != 0), "has_enumerator(", n, ") is ", t.has_enumerator(n));
        if (want.count(n)) MC_CHECK(t.value(n) == want[n], "value(", n, ") is ", uint64_t(t.value(n)), " expected ", uint64_t(want[n]));
        else MC_CHECK(refused_rt([&] { t.value(n); }), "value() of the unknown ", n, " is not refused");
    }
    for (uint64_t v : vals)
    {
        MC_CHECK(t.is_allowed_value(X(v)) == m.allowed(v), "is_allowed_value(", v, ") is ", t.is_allowed_value(X(v)));
        std::string n; for (auto& x : m.e) if (x.second == v) n = x.first;
        MC_CHECK(t.enumerator(X(v)) == n, "enumerator(", v, ") is '", t.enumerator(X(v)), "' expected '", n, "'");
    }
    uint64_t def = m.e.empty() ? 0 : m.e.front().second;
    MC_CHECK(t.default_value() == X(def), "default_value() is ", uint64_t(t.default_value()));
}
// data of the type, in several places, accepts exactly the declared values of the own width
template<class X, class Y> void other_width(DynamicData& d, const Table& m, uint64_t v)
{
    if (std::is_same<X, Y>::value) return;
    X before = d.value<X>();
    MC_CHECK(refused_rt([&] { d = Y(v); }), "assignment of a value of ", sizeof(Y), " bytes (", v, ") is not refused");
    MC_CHECK(refused_rt([&] { d.value<Y>(Y(v)); }), "value<>() of ", sizeof(Y), " bytes (", v, ") is not refused");
    MC_CHECK(d.value<X>() == before, "a refused assignment changed the data");
}
template<class X> void data(const xt::EnumerationType<X>& t, const Table& m, const std::vector<uint64_t>& vals, bool places)
{
    xt::StructType st("S"); st.add_member("a", xt::primitive_type<uint8_t>()).add_member("e", t).add_member("b", xt::primitive_type<uint8_t>());
    DynamicData d(t), s(st), arr(xt::ArrayType(t, 3)), seq(xt::SequenceType(t, 4)), al(xt::AliasType(t, "Al"));
    MC_CHECK(d.value<X>() == 0, "new data is not zero");
    X cur = 0;
    s["a"] = uint8_t(0x5A); s["b"] = uint8_t(0xA5);
    for (uint64_t v : vals)
    {
        bool ok = m.allowed(v);
        bool r1 = refused_rt([&] { d = X(v); });
        MC_CHECK(r1 == !ok, "assignment of ", v, (ok ? " is refused" : " is accepted"));
        MC_CHECK(refused_rt([&] { d.value<X>(X(v)); }) == !ok, "value(", v, ")", (ok ? " is refused" : " is accepted"));
        if (ok) cur = X(v);
        MC_CHECK(d.value<X>() == cur && X(d.cref()) == cur && d.cast<std::string>() == std::to_string(cur), "data reads ", uint64_t(d.value<X>()), " expected ", uint64_t(cur));
        if (places)
        {
            MC_CHECK(refused_rt([&] { s["e"] = X(v); }) == !ok && refused_rt([&] { arr[1] = X(v); }) == !ok && refused_rt([&] { al = X(v); }) == !ok, "member, element or alias: ", v, (ok ? " is refused" : " is accepted"));
            if (ok)
            {
                seq.push(d); MC_CHECK(seq.size() == 1 && seq[0].template value<X>() == X(v), "the pushed element is other");
                seq.resize(2); MC_CHECK(seq[1].template value<X>() == 0, "a new element is not zero");
                seq[1] = X(v); MC_CHECK(seq[1].template value<X>() == X(v) && seq[0] == seq[1], "the written element is other");
                seq = DynamicData(xt::SequenceType(t, 4));
            }
            MC_CHECK(s["e"].template value<X>() == cur && arr[1].template value<X>() == cur && arr[0].template value<X>() == 0 && arr[2].template value<X>() == 0
                && s["a"].template value<uint8_t>() == 0x5A && s["b"].template value<uint8_t>() == 0xA5 && al.value<X>() == cur, "a write of ", v, " changed or missed something");
        }
    }
    if (places || m.e.size() < 2) for (uint64_t v : { uint64_t(0), m.e.empty() ? uint64_t(1) : m.e.back().second })
    {
        other_width<X, uint8_t>(d, m, v); other_width<X, uint16_t>(d, m, v); other_width<X, uint32_t>(d, m, v);
        other_width<X, uint64_t>(d, m, v); other_width<X, double>(d, m, v);
    }
}

template<class X> std::vector<uint64_t> probes(const Table& m)
{
    std::set<uint64_t> s{ 0, 1, 2, 3, 5, 6, m.max, m.max - 1, m.max / 2, m.max / 2 + 1 };
    for (auto& x : m.e) for (int k = -1; k <= 1; ++k) s.insert((x.second + k) & m.max);
    return { s.begin(), s.end() };
}
static const std::vector<std::string> NAMES { "m", "b", "z", "a", "q", "c", "y", "" };

template<class X> struct Sys
{
    xt::DynamicType::Ptr p; Table m; int steps = 0;
    Sys() : p(xt::EnumerationType<X>("En")) { m.max = std::numeric_limits<X>::max(); }
    xt::EnumerationType<X>& t() { return const_cast<xt::EnumerationType<X>&>(static_cast<const xt::EnumerationType<X>&>(*p)); }
    enum { NOPS = 16 };
    std::string op_name(int o) const
    {
        static const char* n[NOPS] = { "add", "add=0", "add=1", "add=2", "add=5", "add=max-1", "add=max", "add=last", "add=last+1", "add=last-1", "add=half",
            "addTaken", "addTaken=last+1", "addTaken=last", "copy", "addLastNameAgain" };
        return n[o];
    }
    template<class F> void step(bool want, F f)
    {
        bool r = refused_rt(f);
        MC_CHECK(r == !want, "the definition is ", (r ? "refused" : "accepted"));
    }
    bool apply(int o)
    {
        ++steps;
        std::string fresh = NAMES[m.e.size() % 7], taken = m.e.empty() ? "" : m.e.front().first;
        uint64_t last = m.e.empty() ? 0 : m.e.back().second;
        auto with = [&](const std::string& n, uint64_t v) { v &= m.max; bool ok = m.add(n, v); step(ok, [&] { t().add_enumerator(n, X(v)); }); };
        auto without = [&](const std::string& n) { bool ok = m.add(n); step(ok, [&] { t().add_enumerator(n); }); };
        switch (o)
        {
            case 0: without(fresh); return true;
            case 1: with(fresh, 0); return true;
            case 2: with(fresh, 1); return true;
            case 3: with(fresh, 2); return true;
            case 4: with(fresh, 5); return true;
            case 5: with(fresh, m.max - 1); return true;
            case 6: with(fresh, m.max); return true;
            case 7: if (m.e.empty()) return false; with(fresh, last); return true;
            case 8: if (m.e.empty()) return false; with(fresh, last + 1); return true;
            case 9: if (m.e.empty()) return false; with(fresh, last - 1); return true;
            case 10: with(fresh, m.max / 2 + 1); return true;
            case 11: if (m.e.empty()) return false; without(taken); return true;
            case 12: if (m.e.empty()) return false; with(taken, last + 1); return true;
            case 13: if (m.e.empty()) return false; with(taken, last); return true;
            case 14: { xt::DynamicType::Ptr q(*p); p = q; return true; }
            default: if (m.e.size() < 2) return false; without(m.e.back().first); return true;
        }
    }
    void check()
    {
        auto pr = probes<X>(m);
        agree(t(), m, pr, NAMES);
        xt::DynamicType::Ptr q(*p);
        MC_CHECK(q->kind() == xt::TypeKind::ENUMERATION_TYPE && q->name() == "En", "the copy is not an enumeration");
        agree(static_cast<const xt::EnumerationType<X>&>(*q), m, pr, NAMES);
        data(t(), m, pr, steps <= 3);
    }
};
SUITE(histories)
{
    int d = mc::thorough() ? 5 : 4;
    mc::tree(run, "8 bit", Sys<uint8_t>::NOPS, d, [] { return std::make_unique<Sys<uint8_t>>(); });
    mc::tree(run, "16 bit", Sys<uint16_t>::NOPS, d, [] { return std::make_unique<Sys<uint16_t>>(); });
    mc::tree(run, "32 bit", Sys<uint32_t>::NOPS, d, [] { return std::make_unique<Sys<uint32_t>>(); });
}

// every value of the width, on enumerations of every set of boundary values
template<class X> void full(mc::Run& run, const std::string& w)
{
    Table z; z.max = std::numeric_limits<X>::max();
    std::vector<uint64_t> cand { 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFEull, 0xFFFFFFFFull }, c;
    for (auto v : cand) if (v <= z.max) c.push_back(v);
    if (sizeof(X) == 1) c.insert(c.end() - 1, 254);
    std::vector<uint64_t> all;
    if (sizeof(X) == 1) for (int i = 0; i < 256; ++i) all.push_back(i);
    else if (sizeof(X) == 2) for (int i = 0; i < 65536; ++i) all.push_back(i);
    else { std::set<uint64_t> s; for (int b = 0; b < 32; ++b) for (int k = -2; k <= 2; ++k) s.insert(((1ull << b) + k) & z.max); for (auto v : c) s.insert(v); all.assign(s.begin(), s.end()); }
    size_t n = c.size(), few = mc::thorough() || sizeof(X) == 1 ? n : sizeof(X) == 2 ? 1 : 3;
    for (size_t mask = 0; mask < (size_t(1) << n); ++mask)
    {
        if (size_t(__builtin_popcountll(mask)) > few && mask + 1 != size_t(1) << n) continue;
        run.test(cat(w, "/set ", mask), [&]
        {
            xt::EnumerationType<X> t("En"); Table m = z; int k = 0;
            for (size_t i = 0; i < n; ++i) if (mask >> i & 1)
            {
                std::string nm = cat("e", char('z' - k++));
                MC_CHECK(m.add(nm, c[i]) && !refused_rt([&] { t.add_enumerator(nm, X(c[i])); }), "the definition with ", c[i], " is refused");
            }
            agree(t, m, all, NAMES); data(t, m, all, false);
            run.state(); run.transition(all.size()); run.trace();
        });
    }
}
SUITE(values) { full<uint8_t>(run, "8 bit"); full<uint16_t>(run, "16 bit"); full<uint32_t>(run, "32 bit"); }

// long enumerations: filled up to the last value
SUITE(filled)
{
    for (int start = 0; start < 8; ++start) for (int copy : { 0, 1, 2 }) run.test(cat("8 bit from ", start * 36, " copied ", copy), [&]
    {
        xt::DynamicType::Ptr p(xt::EnumerationType<uint8_t>("En")); Table m; m.max = 255;
        auto t = [&]() -> xt::EnumerationType<uint8_t>& { return const_cast<xt::EnumerationType<uint8_t>&>(static_cast<const xt::EnumerationType<uint8_t>&>(*p)); };
        std::vector<uint64_t> all; for (int i = 0; i < 256; ++i) all.push_back(i);
        t().add_enumerator("first", uint8_t(start * 36)); m.add("first", start * 36);
        for (int i = 0; i < 260; ++i)
        {
            if (copy == 1 || (copy == 2 && i % 50 == 49)) { xt::DynamicType::Ptr q(*p); p = q; }
            std::string n = cat("n", (i * 37) % 260);
            bool ok = m.add(n);
            MC_CHECK(refused_rt([&] { t().add_enumerator(n); }) == !ok, "definition ", i, (ok ? " is refused" : " is accepted"));
            if (i % 20 == 19 || i > 250) agree(t(), m, all, { "first", n, "n0", "other" });
            run.transition();
        }
        data(t(), m, all, true); run.state(); run.trace();
    });
    run.test("16 bit", [&]
    {
        xt::EnumerationType<uint16_t> t("En");
        for (int i = 0; i < 65536; ++i) { t.add_enumerator(cat("n", i)); }
        MC_CHECK(refused_rt([&] { t.add_enumerator("more"); }) && t.enumerators().size() == 65536 && t.value("n0") == 0 && t.value("n65535") == 65535 && t.value("n40000") == 40000, "the filled enumeration is wrong");
        MC_CHECK(!t.has_enumerator("more") && t.enumerator(65535) == "n65535" && t.default_value() == 0, "the filled enumeration is wrong");
        run.state(); run.trace();
    });
}
MC_MAIN
