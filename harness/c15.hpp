// C15: generated IDL declares every symbol of a module once, before its use
#include "mc.hpp"
#include <xtypes/xtypes.hpp>
#include <xtypes/idl/generator.hpp>
#include <xtypes/idl/Module.hpp>
#ifdef PARSE
#include <xtypes/idl/idl.hpp>
#endif
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
namespace xt = eprosima::xtypes;
using xt::DynamicType; using xt::DynamicData; using xt::idl::Module; using mc::cat;
using Enum = xt::EnumerationType<uint32_t>;
enum { STRUCT, UNION, ALIAS, ENUM, CONST };
static const char* KIND[] = { "struct", "union", "alias", "enum", "const" };

// ---- the reference: abstract declarations ---------------------------------------------------------------
struct TE // a type expression
{
    std::string word;          // keyword; "seq", "map", "string", "wstring", "name"
    int ref = -1;              // expected: the symbol named
    std::string text;          // parsed: the name as written
    size_t bound = 0;
    std::vector<TE> sub;
    std::vector<uint32_t> dims; // only at the top
    int prim = -1;             // which primitive to build (char16 and wide characters have the same word)
};
struct Mem { std::string name; TE type; std::vector<int64_t> labels; bool def = false; };
struct Sym
{
    int kind, mod; std::string name;
    std::vector<Mem> members; int parent = -1; TE disc; TE type;  // type: alias target, type of a constant
    std::vector<std::pair<std::string, uint32_t>> values;          // enumerators
    std::string value;                                             // constant, canonical
    std::function<DynamicData(const DynamicType&)> make;            // constant
};
struct Tree { std::vector<std::string> name; std::vector<int> outer; };   // module 0 is the root
static std::string scope(const Tree& t, int m) { if (m == 0) return ""; std::string o = scope(t, t.outer[m]); return o.empty() ? t.name[m] : o + "::" + t.name[m]; }
static std::string full(const Tree& t, const Sym& s) { auto o = scope(t, s.mod); return o.empty() ? s.name : o + "::" + s.name; }

struct Prim { const char* word; DynamicType::Ptr (*make)(); };
template<typename T> static DynamicType::Ptr mk() { return xt::primitive_type<T>(); }
static const Prim PRIM[] = { { "boolean", mk<bool> }, { "char", mk<char> }, { "wchar", mk<char16_t> }, { "wchar", mk<wchar_t> }, { "int8", mk<int8_t> }, { "uint8", mk<uint8_t> }, { "int16", mk<int16_t> }, { "uint16", mk<uint16_t> },
    { "int32", mk<int32_t> }, { "uint32", mk<uint32_t> }, { "int64", mk<int64_t> }, { "uint64", mk<uint64_t> }, { "float", mk<float> }, { "double", mk<double> }, { "long double", mk<long double> } };
static const int NPRIM = 15;
static TE prim(int i) { TE e; e.word = PRIM[i].word; e.prim = i; return e; }
static TE str(int kind, size_t bound = 0) { TE e; e.word = kind ? "wstring" : "string"; e.prim = kind; e.bound = bound; return e; }
static TE ref(int s) { TE e; e.word = "name"; e.ref = s; return e; }
static TE seq(TE c, size_t b = 0) { TE e; e.word = "seq"; e.bound = b; e.sub = { c }; return e; }
static TE map(TE k, TE v, size_t b = 0) { TE e; e.word = "map"; e.bound = b; e.sub = { k, v }; return e; }
static TE arr(TE c, std::vector<uint32_t> d) { c.dims = d; return c; }
static Mem mem(const std::string& n, TE t, std::vector<int64_t> l = {}, bool d = false) { Mem m; m.name = n; m.type = t; m.labels = l; m.def = d; return m; }

// ---- building the real modules -----------------------------------------------------------------------------
struct World
{
    Tree tree; std::vector<Sym> syms; Module root; std::vector<Module*> mods;
    bool early = false; std::vector<DynamicType::Ptr> solo;  // types are used before they belong to a module: without scope in their names
    explicit World(const Tree& t) : tree(t) { mods.push_back(&root); for (size_t i = 1; i < t.name.size(); ++i) mods.push_back(&mods[t.outer[i]]->create_submodule(t.name[i])); }
    const DynamicType& real(int s)
    {
        if (early) return *solo[s];
        auto& y = syms[s]; Module& m = *mods[y.mod];
        switch (y.kind) { case STRUCT: return m.structure(y.name); case UNION: return m.union_switch(y.name); case ALIAS: return m.alias(y.name); default: return m.enum_32(y.name); }
    }
    DynamicType::Ptr real(const TE& e)
    {
        DynamicType::Ptr r;
        if (e.word == "name") r = DynamicType::Ptr(real(e.ref));
        else if (e.word == "seq") r = xt::SequenceType(*real(e.sub[0]), e.bound);
        else if (e.word == "map") r = xt::MapType(*real(e.sub[0]), *real(e.sub[1]), e.bound);
        else if (e.word == "string") r = xt::StringType(e.bound);
        else if (e.word == "wstring") { if (e.prim == 2) r = xt::String16Type(e.bound); else r = xt::WStringType(e.bound); }
        else r = PRIM[e.prim].make();
        for (size_t i = e.dims.size(); i-- > 0;) r = xt::ArrayType(*r, e.dims[i]);
        return r;
    }
    void keep(const DynamicType& t) { if (early) solo.push_back(DynamicType::Ptr(t)); }
    void add(const Sym& s)
    {
        Module& m = *mods[s.mod]; bool ok = true;
        switch (s.kind)
        {
            case STRUCT:
            {
                std::unique_ptr<xt::StructType> t(s.parent < 0 ? new xt::StructType(s.name) : new xt::StructType(s.name, &static_cast<const xt::StructType&>(real(s.parent))));
                for (auto& x : s.members) t->add_member(x.name, *real(x.type));
                keep(*t); ok = m.structure(std::move(*t)); break;
            }
            case UNION:
            {
                auto d = real(s.disc); xt::UnionType t(s.name, *d);
                for (auto& x : s.members) t.add_case_member(x.labels, xt::Member(x.name, *real(x.type)), x.def);
                keep(t); ok = m.union_switch(std::move(t)); break;
            }
            case ALIAS: { xt::AliasType t(*real(s.type), s.name); keep(t); ok = m.add_alias(std::move(t)); break; }
            case ENUM: { Enum t(s.name); for (auto& v : s.values) t.add_enumerator(v.first, v.second); keep(t); ok = m.enum_32(std::move(t)); break; }
            default: { auto t = real(s.type); ok = m.create_constant(s.name, s.make(*t)); break; }
        }
        if (!ok) mc::fail(cat("the module refused symbol ", s.name));
        syms.push_back(s);
    }
};

// ---- a reader of IDL ---------------------------------------------------------------------------------------
struct Bad { std::string what; };
struct Tok { char k; std::string s; std::u32string u; };   // k: i(dentifier) n(umber) c(har) t(ext) p(unctuation) e(nd)
static std::vector<Tok> lex(const std::string& in)
{
    std::vector<Tok> r; size_t i = 0, n = in.size();
    auto literal = [&](bool wide)
    {
        char q = in[i++]; Tok t; t.k = q == '\'' ? 'c' : 't'; t.s = wide ? "L" : "";
        for (;;)
        {
            if (i >= n) throw Bad{ "literal without end" };
            unsigned char c = in[i++];
            if (c == static_cast<unsigned char>(q)) break;
            if (c == '\n') throw Bad{ "line end in a literal" };
            if (c == '\\')
            {
                if (i >= n) throw Bad{ "literal without end" };
                char e = in[i++]; const char* p; static const char from[] = "ntvbrfa\\?'\"", to[] = "\n\t\v\b\r\f\a\\?'\"";
                auto hex = [&](int max) { char32_t v = 0; int k = 0; for (; k < max && i < n && isxdigit(static_cast<unsigned char>(in[i])); ++k) { char h = in[i++]; v = v * 16 + (isdigit(static_cast<unsigned char>(h)) ? h - '0' : (h | 32) - 'a' + 10); } if (!k) throw Bad{ "escape without digits" }; return v; };
                if (e == 'x') t.u += hex(2);
                else if (e == 'u') t.u += hex(4);
                else if (e >= '0' && e <= '7') { char32_t v = e - '0'; for (int k = 0; k < 2 && i < n && in[i] >= '0' && in[i] <= '7'; ++k) v = v * 8 + (in[i++] - '0'); t.u += v; }
                else if ((p = strchr(from, e)) && e) t.u += static_cast<unsigned char>(to[p - from]);
                else throw Bad{ "unknown escape" };
            }
            else if (!wide || c < 0x80) { if (c < 0x20) throw Bad{ "control character in a literal" }; t.u += c; }
            else
            {
                int more = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1; char32_t v = c & (0x3f >> more); if (c < 0xc0) throw Bad{ "text is no UTF-8" };
                while (more--) { if (i >= n || (in[i] & 0xc0) != 0x80) throw Bad{ "text is no UTF-8" }; v = v * 64 + (in[i++] & 0x3f); }
                t.u += v;
            }
        }
        r.push_back(t);
    };
    while (i < n)
    {
        char c = in[i];
        if (isspace(static_cast<unsigned char>(c))) { ++i; continue; }
        if (c == 'L' && i + 1 < n && (in[i + 1] == '\'' || in[i + 1] == '"')) { ++i; literal(true); continue; }
        if (c == '\'' || c == '"') { literal(false); continue; }
        if (isalpha(static_cast<unsigned char>(c)) || c == '_') { size_t b = i; while (i < n && (isalnum(static_cast<unsigned char>(in[i])) || in[i] == '_')) ++i; r.push_back({ 'i', in.substr(b, i - b), {} }); continue; }
        if (isdigit(static_cast<unsigned char>(c)) || (c == '.' && i + 1 < n && isdigit(static_cast<unsigned char>(in[i + 1]))))
        {
            size_t b = i; bool hex = c == '0' && i + 1 < n && (in[i + 1] | 32) == 'x';
            while (i < n && (isalnum(static_cast<unsigned char>(in[i])) || in[i] == '.' || (!hex && (in[i] == '+' || in[i] == '-') && (in[i - 1] | 32) == 'e'))) ++i;
            r.push_back({ 'n', in.substr(b, i - b), {} }); continue;
        }
        if (in.compare(i, 2, "::") == 0) { r.push_back({ 'p', "::", {} }); i += 2; continue; }
        if (in.compare(i, 2, "//") == 0) { while (i < n && in[i] != '\n') ++i; continue; }
        if (!strchr("{}()<>[];:,=-+@", c)) throw Bad{ cat("unexpected character '", c, "'") };
        r.push_back({ 'p', std::string(1, c), {} }); ++i;
    }
    r.push_back({ 'e', "", {} }); return r;
}
struct Lit { char k = 0; std::string s; std::u32string u; bool wide = false, neg = false; };  // k: n, c, t, i
struct PMod { std::string name; PMod* outer = nullptr; std::map<std::string, std::unique_ptr<PMod>> inner; int opened = 0; };
struct PMem { std::string name; TE type; std::vector<Lit> labels; bool def = false; };
struct PDecl { int kind; PMod* mod; std::string name; int pos; std::vector<PMem> members; std::string parent; TE disc, type; std::vector<std::pair<std::string, uint32_t>> values; Lit value; };
struct Idl
{
    PMod root; std::vector<PDecl> decls; std::vector<Tok> t; size_t i = 0; int pos = 0;
    explicit Idl(const std::string& text) : t(lex(text)) { body(&root); if (t[i].k != 'e') throw Bad{ cat("unexpected '", t[i].s, "'") }; }
    bool is(const char* s) const { return (t[i].k == 'i' || t[i].k == 'p') && t[i].s == s; }
    bool eat(const char* s) { if (!is(s)) return false; ++i; return true; }
    void need(const char* s) { if (!eat(s)) throw Bad{ cat("'", s, "' expected before '", t[i].s, "'") }; }
    std::string ident() { if (t[i].k != 'i') throw Bad{ cat("name expected before '", t[i].s, "'") }; return t[i++].s; }
    size_t number() { if (t[i].k != 'n') throw Bad{ cat("number expected before '", t[i].s, "'") }; return std::stoull(t[i++].s, nullptr, 0); }
    std::string scoped() { std::string r; if (eat("::")) r = "::"; r += ident(); while (eat("::")) r += "::" + ident(); return r; }
    TE type()
    {
        TE e; bool u = false;
        if (is("::")) { e.word = "name"; e.text = scoped(); return e; }
        if (t[i].k != 'i') throw Bad{ cat("type expected before '", t[i].s, "'") };
        static const std::set<std::string> simple = { "boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double" };
        if (simple.count(t[i].s)) { e.word = ident(); return e; }
        if (eat("octet")) { e.word = "uint8"; return e; }
        if (eat("unsigned")) u = true;
        if (eat("short")) { e.word = u ? "uint16" : "int16"; return e; }
        if (eat("long")) { if (!u && eat("double")) { e.word = "long double"; return e; } bool l = eat("long"); e.word = l ? (u ? "uint64" : "int64") : (u ? "uint32" : "int32"); return e; }
        if (u) throw Bad{ "unsigned what" };
        if (is("string") || is("wstring")) { e.word = ident(); if (eat("<")) { e.bound = number(); need(">"); } return e; }
        if (eat("sequence")) { e.word = "seq"; need("<"); e.sub.push_back(type()); if (eat(",")) e.bound = number(); need(">"); return e; }
        if (eat("map")) { e.word = "map"; need("<"); e.sub.push_back(type()); need(","); e.sub.push_back(type()); if (eat(",")) e.bound = number(); need(">"); return e; }
        e.word = "name"; e.text = scoped(); return e;
    }
    void dims(TE& e) { while (eat("[")) { e.dims.push_back(static_cast<uint32_t>(number())); need("]"); } }
    Lit lit()
    {
        Lit l; while (is("-") || is("+")) if (t[i++].s == "-") l.neg = !l.neg;
        if (t[i].k == 'n') { l.k = 'n'; l.s = t[i++].s; return l; }
        if (t[i].k == 'c' || t[i].k == 't') { l.k = t[i].k; l.wide = t[i].s == "L"; l.u = t[i].u; ++i; while (l.k == 't' && t[i].k == 't') l.u += t[i++].u; return l; }
        l.k = 'i'; l.s = scoped(); return l;
    }
    uint32_t annotation(bool& got) // @value(n)
    {
        std::string n = scoped(); Lit l; bool has = false;
        if (eat("(")) { if (t[i].k == 'i' && t[i + 1].s == "=") i += 2; l = lit(); need(")"); has = true; }
        if (n == "value" && has && l.k == 'n' && !l.neg) { got = true; return static_cast<uint32_t>(std::stoull(l.s, nullptr, 0)); }
        throw Bad{ cat("annotation ", n) };
    }
    void body(PMod* m)
    {
        while (t[i].k != 'e' && !is("}"))
        {
            if (eat("module"))
            {
                std::string n = ident(); auto& s = m->inner[n]; if (!s) { s.reset(new PMod); s->name = n; s->outer = m; s->opened = pos++; }
                need("{"); body(s.get()); need("}"); need(";"); continue;
            }
            PDecl d; d.mod = m; d.pos = pos++;
            if (eat("struct"))
            {
                d.kind = STRUCT; d.name = ident(); if (eat(":")) d.parent = scoped(); need("{");
                while (!is("}")) { PMem x; x.type = type(); x.name = ident(); dims(x.type); need(";"); d.members.push_back(x); }
                need("}");
            }
            else if (eat("union"))
            {
                d.kind = UNION; d.name = ident(); need("switch"); need("("); d.disc = type(); need(")"); need("{");
                while (!is("}"))
                {
                    PMem x;
                    for (;;) { if (eat("default")) { need(":"); x.def = true; } else if (eat("case")) { x.labels.push_back(lit()); need(":"); } else break; }
                    if (x.labels.empty() && !x.def) throw Bad{ "union member without label" };
                    x.type = type(); x.name = ident(); dims(x.type); need(";"); d.members.push_back(x);
                }
                need("}");
            }
            else if (eat("typedef")) { d.kind = ALIAS; d.type = type(); d.name = ident(); dims(d.type); }
            else if (eat("const")) { d.kind = CONST; d.type = type(); d.name = ident(); need("="); d.value = lit(); }
            else if (eat("enum"))
            {
                d.kind = ENUM; d.name = ident(); need("{"); uint32_t next = 0;
                do { bool got = false; while (eat("@")) next = annotation(got); std::string n = ident(); if (eat("=")) next = static_cast<uint32_t>(number()); d.values.emplace_back(n, next++); } while (eat(","));
                need("}");
            }
            else throw Bad{ cat("unexpected '", t[i].s, "'") };
            need(";"); decls.push_back(d);
        }
    }
    // IDL scoping, with what is declared before position p
    const PDecl* in(const PMod* m, const std::string& n, int p) const { for (auto& d : decls) if (d.mod == m && d.name == n && d.pos <= p) return &d; return nullptr; }
    static const PMod* sub(const PMod* m, const std::string& n, int p) { auto x = m->inner.find(n); return x == m->inner.end() || x->second->opened > p ? nullptr : x->second.get(); }
    const PDecl* down(const PMod* m, std::string q, int p) const { size_t c; while ((c = q.find("::")) != std::string::npos) { m = sub(m, q.substr(0, c), p); if (!m) return nullptr; q = q.substr(c + 2); } return in(m, q, p); }
    const PDecl* resolve(const PMod* m, const std::string& q, int p) const
    {
        if (q.compare(0, 2, "::") == 0) { while (m->outer) m = m->outer; return down(m, q.substr(2), p); }
        size_t c = q.find("::"); std::string head = q.substr(0, c);
        for (; m; m = m->outer)
        {
            if (c != std::string::npos) { if (auto s = sub(m, head, p)) return down(s, q.substr(c + 2), p); }
            else { if (auto d = in(m, q, p)) return d; if (sub(m, q, p)) return nullptr; }
        }
        return nullptr;
    }
};

// ---- judging a text -------------------------------------------------------------------------------------
static std::string utf(const std::u32string& u) { std::string r; for (char32_t c : u) r += cat(static_cast<unsigned>(c), "."); return r; }
struct Judge
{
    World& w; Idl& idl; std::vector<const PDecl*> of; std::string err; const PDecl* cur = nullptr;
    Judge(World& w_, Idl& i_) : w(w_), idl(i_) {}
    bool bad(const std::string& s) { if (err.empty()) err = s; return false; }
    bool names(const std::string& q, int s)
    {
        const PDecl* late = idl.resolve(cur->mod, q, idl.pos); const PDecl* now = idl.resolve(cur->mod, q, cur->pos);
        if (late != of[s]) return bad(cat(KIND[cur->kind], " ", cur->name, " names ", q, ", which is not ", full(w.tree, w.syms[s])));
        if (now != of[s] || now == cur) return bad(cat(KIND[cur->kind], " ", cur->name, " uses ", q, " before its declaration"));
        return true;
    }
    bool type(const TE& want, const TE& got, const std::string& where)
    {
        if (want.word != got.word || want.bound != got.bound || want.dims != got.dims) return bad(cat(where, " has another type: ", got.word, " instead of ", want.word, ", bound ", got.bound, " instead of ", want.bound));
        if (want.word == "name" && !names(got.text, want.ref)) return false;
        for (size_t i = 0; i < want.sub.size(); ++i) if (!type(want.sub[i], got.sub[i], where)) return false;
        return true;
    }
    int final_of(const TE& e) { if (e.word != "name") return -1; auto& s = w.syms[e.ref]; return s.kind == ALIAS ? final_of(s.type) : e.ref; }
    const TE& final_type(const TE& e) { return e.word == "name" && w.syms[e.ref].kind == ALIAS ? final_type(w.syms[e.ref].type) : e; }
    // canonical value of a literal for a type
    std::string value(const Lit& l, const TE& type)
    {
        const TE& e = final_type(type);
        if (e.word == "name") // an enumeration
        {
            auto& s = w.syms[e.ref];
            if (l.k == 'n') return (l.neg ? "-" : "") + std::to_string(std::stoull(l.s, nullptr, 0));
            if (l.k != 'i') return "?";
            size_t c = l.s.rfind("::"); std::string n = c == std::string::npos ? l.s : l.s.substr(c + 2);
            for (auto& v : s.values) if (v.first == n) return std::to_string(v.second);
            return "? " + l.s;
        }
        if (e.word == "boolean") return l.k != 'i' ? "?" : l.s == "TRUE" ? "1" : l.s == "FALSE" ? "0" : "?";
        if (e.word == "char" || e.word == "wchar") { bool wide = e.word == "wchar"; return l.k != 'c' || l.wide != wide || l.u.size() != 1 ? "?" : std::to_string(static_cast<unsigned>(l.u[0])); }
        if (e.word == "string" || e.word == "wstring") return l.k != 't' || l.wide != (e.word == "wstring") ? "?" : utf(l.u);
        if (l.k != 'n') return "?";
        if (e.word == "float" || e.word == "double" || e.word == "long double")
        {
            if (l.s.find_first_of(".eE") == std::string::npos) return "? no floating literal";
            char b[80]; long double v = strtold(l.s.c_str(), nullptr); if (l.neg) v = -v;
            if (e.word == "float") { v = strtof(l.s.c_str(), nullptr); if (l.neg) v = -v; } else if (e.word == "double") { v = strtod(l.s.c_str(), nullptr); if (l.neg) v = -v; }
            snprintf(b, sizeof b, "%La", v); return b;
        }
        if (l.s.find_first_of(".eE") != std::string::npos && l.s.compare(0, 2, "0x")) return "?";
        return (l.neg && std::stoull(l.s, nullptr, 0) ? "-" : "") + std::to_string(std::stoull(l.s, nullptr, 0));
    }
    std::string label(int64_t v, const TE& disc)
    {
        const TE& e = final_type(disc);
        if (e.word == "uint64") return std::to_string(static_cast<uint64_t>(v));
        if (e.word == "char") return std::to_string(static_cast<unsigned char>(v));
        if (e.word == "wchar") return std::to_string(static_cast<uint32_t>(v));
        return std::to_string(v);
    }
    bool run()
    {
        of.assign(w.syms.size(), nullptr);
        if (idl.decls.size() != w.syms.size()) bad(cat(idl.decls.size(), " declarations for ", w.syms.size(), " symbols"));
        for (auto& d : idl.decls)
        {
            std::string f = d.name; for (const PMod* m = d.mod; m->outer; m = m->outer) f = m->name + "::" + f;
            bool found = false;
            for (size_t s = 0; s < w.syms.size(); ++s) if (w.syms[s].kind == d.kind && full(w.tree, w.syms[s]) == f) { if (of[s]) return bad(cat(f, " is declared twice")); of[s] = &d; found = true; }
            if (!found) return bad(cat("declaration of ", KIND[d.kind], " ", f, ", which the module has not"));
        }
        for (size_t s = 0; s < w.syms.size(); ++s) if (!of[s]) return bad(cat(full(w.tree, w.syms[s]), " is not declared"));
        if (!err.empty()) return false;
        for (size_t m = 1; m < w.tree.name.size(); ++m)
        {
            std::string p = scope(w.tree, m); const PMod* x = &idl.root; size_t c;
            for (;;) { c = p.find("::"); x = Idl::sub(x, p.substr(0, c), idl.pos); if (!x) return bad(cat("module ", scope(w.tree, m), " is missing")); if (c == std::string::npos) break; p = p.substr(c + 2); }
        }
        for (size_t s = 0; s < w.syms.size(); ++s)
        {
            auto& y = w.syms[s]; cur = of[s]; auto& d = *cur; std::string f = full(w.tree, y);
            if (y.kind == STRUCT && (y.parent >= 0) != !d.parent.empty()) return bad(cat(f, ": parent lost or invented"));
            if (y.parent >= 0 && !names(d.parent, y.parent)) return false;
            if (y.kind == UNION && !type(y.disc, d.disc, f + " discriminator")) return false;
            if ((y.kind == ALIAS || y.kind == CONST) && !type(y.type, d.type, f)) return false;
            if (y.kind == CONST && value(d.value, y.type) != y.value) return bad(cat(f, " has value ", value(d.value, y.type), " instead of ", y.value));
            if (y.kind == ENUM && y.values != d.values) return bad(cat(f, " has other enumerators or values"));
            if (y.members.size() != d.members.size()) return bad(cat(f, " has ", d.members.size(), " members"));
            for (size_t i = 0; i < y.members.size(); ++i)
            {
                auto& a = y.members[i]; auto& b = d.members[i];
                if (a.name != b.name) return bad(cat(f, ": member ", i, " is ", b.name));
                if (!type(a.type, b.type, f + "." + a.name)) return false;
                std::set<std::string> la, lb; for (auto l : a.labels) la.insert(label(l, y.disc)); for (auto& l : b.labels) lb.insert(value(l, y.disc));
                if (la != lb || a.labels.size() != b.labels.size()) { std::string x, z; for (auto& l : la) x += l + " "; for (auto& l : lb) z += l + " "; return bad(cat(f, ".", a.name, " has labels ", z, "instead of ", x)); }
                if (a.def != b.def) return bad(cat(f, ".", a.name, ": default lost or invented"));
            }
        }
        return err.empty();
    }
};
// whether every module can be written in one piece
static bool orderable(const World& w)
{
    auto deps = [&](const Sym& s) { std::set<int> r; std::function<void(const TE&)> go = [&](const TE& e) { if (e.ref >= 0) r.insert(e.ref); for (auto& x : e.sub) go(x); }; for (auto& m : s.members) go(m.type); go(s.disc); go(s.type); if (s.parent >= 0) r.insert(s.parent); return r; };
    std::map<int, std::map<int, std::set<int>>> g; // module -> unit -> units before it; units: 1000+symbol or module
    auto path = [&](int m) { std::vector<int> p; for (; m; m = w.tree.outer[m]) p.insert(p.begin(), m); p.insert(p.begin(), 0); return p; };
    for (size_t s = 0; s < w.syms.size(); ++s)
        for (int t : deps(w.syms[s]))
        {
            auto a = path(w.syms[s].mod), b = path(w.syms[t].mod); size_t k = 0; while (k + 1 < a.size() && k + 1 < b.size() && a[k + 1] == b[k + 1]) ++k;
            int u = k + 1 < a.size() ? a[k + 1] : 1000 + static_cast<int>(s), v = k + 1 < b.size() ? b[k + 1] : 1000 + t;
            g[a[k]][u].insert(v);
        }
    for (auto& m : g)
    {
        std::map<int, int> st; bool cyc = false;
        std::function<void(int)> go = [&](int u) { if (st[u] == 1) { cyc = true; return; } if (st[u] == 2) return; st[u] = 1; auto i = m.second.find(u); if (i != m.second.end()) for (int v : i->second) go(v); st[u] = 2; };
        for (auto& u : m.second) go(u.first);
        if (cyc) return false;
    }
    return true;
}
static std::string all_names(World& w)
{
    std::string r; for (auto& x : w.root.get_all_types(true)) { r += x.first + "=" + x.second->name(); if (x.second->is_aggregation_type()) for (auto& m : static_cast<const xt::AggregationType&>(*x.second).members()) r += "," + m.name() + ":" + m.type().name(); r += ";"; }
    return r;
}
#ifdef PARSE
static void reparse(mc::Run& run, World& w, std::string text);
#endif
static void check(mc::Run& run, World& w, bool twice = false)
{
    run.state(); std::string text; bool ord = orderable(w);
    std::string before = twice ? all_names(w) : "";
    try { text = xt::idl::generator::module(w.root); }
    catch (const std::runtime_error& e) { run.transition(); if (ord) mc::fail(cat("refused: ", e.what())); return; }
    run.transition();
    std::string err;
    try { Idl idl(text); Judge j(w, idl); if (!j.run()) err = j.err; }
    catch (const Bad& b) { err = "no IDL: " + b.what; }
    if (!err.empty()) mc::fail(cat(err, "\n", text));
    if (twice)
    {
        run.transition(2); if (xt::idl::generator::module(w.root) != text) mc::fail("a second generation gives another text");
        std::map<std::string, std::string> parts; if (xt::idl::generator::module(w.root, &parts) != text) mc::fail("the text generated with its parts differs");
        if (all_names(w) != before) mc::fail("generating changed the module");
    }
#ifdef PARSE
    reparse(run, w, text);
#endif
    run.trace();
}

// ---- the explored space -----------------------------------------------------------------------------------
static const Tree FLAT{ { "", "A", "B" }, { -1, 0, 0 } };
static const Tree NEST{ { "", "A", "AB", "B" }, { -1, 0, 1, 0 } };
static const Tree DEEP{ { "", "M", "N", "O" }, { -1, 0, 1, 2 } };
static const Tree SAME{ { "", "A", "B", "A", "B" }, { -1, 0, 1, 2, 0 } };        // A, A::B, A::B::A, B
static const Tree WIDE{ { "", "P", "Q", "R", "T" }, { -1, 0, 0, 1, 1 } };        // P, Q, P::R, P::T
static const Tree ZIG{ { "", "Z", "A", "A", "Z" }, { -1, 0, 1, 0, 3 } };         // Z, Z::A, A, A::Z
static Sym sym(int kind, int mod, const std::string& n) { Sym s; s.kind = kind; s.mod = mod; s.name = n; return s; }
static Sym a_struct(int mod, const std::string& n) { Sym s = sym(STRUCT, mod, n); s.members = { mem("m", prim(8)) }; return s; }
static Sym an_enum(int mod, const std::string& n, std::vector<uint32_t> v = { 0, 1, 2 }) { Sym s = sym(ENUM, mod, n); for (size_t i = 0; i < v.size(); ++i) s.values.emplace_back(n + "_" + std::to_string(i), v[i]); return s; }
static Sym a_union(int mod, const std::string& n) { Sym s = sym(UNION, mod, n); s.disc = prim(8); s.members = { mem("u", prim(5), { 1 }) }; return s; }
static Sym an_alias(int mod, const std::string& n, TE t) { Sym s = sym(ALIAS, mod, n); s.type = t; return s; }
static std::string show(const TE& e) { std::string r = e.word == "name" ? "#" + std::to_string(e.ref) : e.word + (e.prim >= 0 ? std::to_string(e.prim) : ""); if (!e.sub.empty()) { r += "<"; for (auto& x : e.sub) r += show(x) + ","; r += ">"; } if (e.bound) r += ":" + std::to_string(e.bound); for (auto d : e.dims) r += "[" + std::to_string(d) + "]"; return r; }

// type expressions over primitive types, strings and the symbols 0..nrefs-1
static std::vector<TE> leaf_exprs(int nrefs) { std::vector<TE> r; for (int i = 0; i < NPRIM; ++i) r.push_back(prim(i)); for (int k = 0; k < 3; ++k) { r.push_back(str(k)); r.push_back(str(k, 7)); } for (int i = 0; i < nrefs; ++i) r.push_back(ref(i)); return r; }
static std::vector<TE> exprs(int nrefs)
{
    auto l = leaf_exprs(nrefs); std::vector<TE> one, r = l; TE k = str(0);
    for (auto& x : l) { one.push_back(seq(x)); one.push_back(seq(x, 5)); one.push_back(map(prim(5), x)); one.push_back(map(k, x, 9)); one.push_back(map(x, prim(8))); }
    r.insert(r.end(), one.begin(), one.end());
    for (size_t i = 0; i < one.size(); ++i) { if (i % 3 == 0 || mc::thorough()) r.push_back(seq(one[i])); if (i % 3 == 1 || mc::thorough()) r.push_back(seq(one[i], 3)); if (i % 3 == 2 || mc::thorough()) r.push_back(map(k, one[i])); r.push_back(map(one[i], one[(i + 7) % one.size()], i % 2 ? 4 : 0)); }
    return r;
}
// one declaration of every shape, its types declared in every place
SUITE(shape)
{
    static const std::vector<std::vector<uint32_t>> DIMS = { {}, { 3 }, { 2, 3 }, { 4, 1, 2, 3 } };
    std::vector<Sym> targets; { int n = 0; for (int m = 0; m < 4; ++m) { std::string q = std::to_string(n++); targets.push_back(a_struct(m, "S" + q)); targets.push_back(an_enum(m, "E" + q)); targets.push_back(a_union(m, "U" + q)); targets.push_back(an_alias(m, "L" + q, prim(9))); } }
    auto all = exprs(static_cast<int>(targets.size()));
    for (int user = 0; user < 4; ++user)
        for (size_t x = 0; x < all.size(); ++x)
            run.test(cat(user, "/", show(all[x])), [&]
            {
                for (size_t d = 0; d < DIMS.size(); ++d)
                    for (int place = 0; place < 6; ++place)
                    {
                        if (d == 3 && place % 2) continue;
                        World w(NEST); for (auto& t : targets) w.add(t);
                        TE e = arr(all[x], DIMS[d]); Sym s;
                        std::string n = place % 2 ? "Aaa" : "Zzz";
                        if (place < 2) { s = sym(STRUCT, user, n); s.members = { mem("first", prim(0)), mem("x", e), mem("last", prim(14)) }; }
                        else if (place < 4) { s = sym(UNION, user, n); s.disc = prim(6); s.members = { mem("a", prim(1), { -3, 4 }), mem("x", e, { 0 }), mem("z", e, { 7, 9 }, place == 3) }; }
                        else s = an_alias(user, n, e);
                        w.add(s); check(run, w, d == 1);
                    }
            });
}
// inheritance and discriminators from every place
SUITE(parent)
{
    for (auto* tree : { &NEST, &SAME, &ZIG, &WIDE })
        for (size_t a = 0; a < tree->name.size(); ++a) for (size_t b = 0; b < tree->name.size(); ++b) for (size_t c = 0; c < tree->name.size(); ++c)
            run.test(cat(tree->name[1], tree->name.size(), tree->name[2], "/", a, b, c), [&]
            {
                for (int perm = 0; perm < 6; ++perm) for (int members = 0; members < 3; ++members)
                {
                    static const char* N[6][3] = { { "a", "b", "c" }, { "a", "c", "b" }, { "b", "a", "c" }, { "b", "c", "a" }, { "c", "a", "b" }, { "c", "b", "a" } };
                    World w(*tree); w.add(a_struct(a, N[perm][0]));
                    Sym s = sym(STRUCT, b, N[perm][1]); s.parent = 0; for (int i = 0; i < members; ++i) s.members.push_back(mem(cat("p", i), prim(5))); w.add(s);
                    Sym g = sym(STRUCT, c, N[perm][2]); g.parent = 1; g.members = { mem("q", ref(0)) }; w.add(g);
                    check(run, w, perm == 0);
                    World v(*tree); v.add(an_enum(a, N[perm][0], { 0, 3, 4 })); v.add(an_alias(b, N[perm][1], ref(0)));
                    Sym u = sym(UNION, c, N[perm][2]); u.disc = ref(members % 2); u.members = { mem("x", prim(3), { 3 }), mem("y", prim(4), { 0, 4 }, members == 2) }; v.add(u);
                    check(run, v, perm == 0);
                }
            });
}
// every label of every discriminator type
SUITE(labels)
{
    static const int DISC[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 };
    for (int alias = 0; alias < 3; ++alias)
        for (int d : DISC)
        {
            std::vector<int64_t> v;
            switch (d)
            {
                case 0: v = { 0, 1 }; break;
                case 1: for (int c = 0; c < 256; ++c) v.push_back(static_cast<signed char>(c)); break;
                case 2: case 3: for (int c = 0; c < 128; ++c) v.push_back(c); for (int64_t c : { 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd }) v.push_back(c); if (d == 3) { v.push_back(0x10000); v.push_back(0x1f600); } break;
                case 4: for (int c = -128; c < 128; ++c) v.push_back(c); break;
                case 5: for (int c = 0; c < 256; ++c) v.push_back(c); break;
                default:
                {
                    int bits = d < 8 ? 16 : d < 10 ? 32 : 64; bool sign = d % 2 == 0;
                    for (int64_t c : { 0, 1, 9, 10, 100 }) v.push_back(c);
                    for (int b = 7; b < bits; ++b) for (int k = -1; k < 2; ++k) { uint64_t x = (uint64_t(1) << b) + k; if (sign && b == bits - 1 && k > -1) continue; v.push_back(static_cast<int64_t>(x)); if (sign) v.push_back(-static_cast<int64_t>(x)); }
                    if (sign) { v.push_back(-1); v.push_back(bits == 64 ? INT64_MIN : -(int64_t(1) << (bits - 1))); } else v.push_back(bits == 64 ? -1 : (int64_t(1) << bits) - 1);
                }
            }
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            for (size_t i = 0; i < v.size(); ++i)
                run.test(cat(alias, "/", PRIM[d].word, d, "/", v[i]), [&]
                {
                    for (size_t j = 0; j < v.size(); j += (v.size() > 40 ? 7 : 1)) for (int def = 0; def < 3; ++def)
                    {
                        if (i == j) continue;
                        World w(FLAT); TE disc = prim(d); for (int k = 0; k < alias; ++k) { w.add(an_alias(k ? 1 : 2, cat("L", k), disc)); disc = ref(k); }
                        Sym u = sym(UNION, 1, "U"); u.disc = disc;
                        // a default member with the reserved label among its own is another matter: none here
                        u.members = { mem("a", prim(8), { v[i] }), mem("b", prim(9), { v[j] }, def == 1) };
                        if (def == 2) u.members.push_back(mem("c", prim(4), {}, true));
                        if (def == 2 && d == 0) continue;
                        try { w.add(u); } catch (const std::runtime_error&) { continue; } // the reserved label
                        check(run, w);
                    }
                });
        }
}
SUITE(enumerators)
{
    const std::vector<uint32_t> V = { 0, 1, 2, 3, 5, 255, 256, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu };
    for (unsigned set = 1; set < (1u << V.size()); ++set)
    {
        if (__builtin_popcount(set) > 5 && !mc::thorough()) continue;
        run.test(cat(set), [&]
        {
            std::vector<uint32_t> v; for (size_t i = 0; i < V.size(); ++i) if (set >> i & 1) v.push_back(V[i]);
            for (int order = 0; order < 2; ++order)
            {
                World w(FLAT); Sym e = an_enum(1, "E", v); if (order) for (size_t i = 0; i < e.values.size(); ++i) e.values[i].first = cat("E", e.values.size() - i);
                w.add(e); Sym u = sym(UNION, 0, "U"); u.disc = ref(0); std::vector<int64_t> l(v.begin(), v.end());
                u.members = { mem("a", prim(8), { l[0] }) }; for (size_t i = 1; i < l.size(); ++i) u.members.push_back(mem(cat("b", i), prim(3), { l[i] }));
                bool reserved = false; try { w.add(u); } catch (const std::runtime_error&) { reserved = true; }
                if (!reserved) check(run, w, true);
                for (uint32_t x : v)
                {
                    World c(FLAT); c.add(e); Sym k = sym(CONST, order, "K"); k.type = ref(0); k.value = std::to_string(x); k.make = [x](const DynamicType& t) { DynamicData d(t); d = x; return d; };
                    c.add(k); c.mods[1]->create_constant("E_0", k.make(c.real(0)), false, true); // the constant a parser makes of an enumerator
                    check(run, c, true);
                }
            }
        });
    }
}
// constants of every type
template<typename T> static void constants(mc::Run& run, int p, const std::vector<T>& vs, std::function<std::string(T)> canon)
{
    for (size_t i = 0; i < vs.size(); ++i)
        run.test(cat(PRIM[p].word, p, "/", i), [&]
        {
            T x = vs[i];
            for (int m = 0; m < 3; ++m)
            {
                World w(FLAT); Sym s = sym(CONST, m, "K"); s.type = prim(p); s.value = canon(x); s.make = [x](const DynamicType& ty) { DynamicData d(ty); d = x; return d; };
                w.add(s); s.name = "Another"; w.add(s); check(run, w, true);
            }
        });
}
template<typename T> static std::vector<T> grid() { std::vector<T> v; if (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) v.push_back(static_cast<T>(i)); return v; } for (size_t b = 0; b < 8 * sizeof(T); ++b) for (int k = -1; k < 2; ++k) { T x = static_cast<T>((uint64_t(1) << b) + k); v.push_back(x); v.push_back(static_cast<T>(0 - static_cast<uint64_t>(x))); } return v; }
template<typename T> static void floats(mc::Run& run, int p)
{
    std::vector<T> v = { T(0), -T(0), T(1), T(-1), T(0.1L), T(1) / 3, T(-2.5), T(1e10), T(123456789), T(16777217), T(1e-7L), T(-1e-10L), T(3.14159265358979323846L), T(1e15L), T(1e16L), T(1e21L), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), 1 + std::numeric_limits<T>::epsilon() };
    for (int e = -30; e <= 30; ++e) v.push_back(std::ldexp(T(1), e) + std::ldexp(T(1), e - std::numeric_limits<T>::digits + 1));
    constants<T>(run, p, v, [](T x) { char b[80]; snprintf(b, sizeof b, "%La", static_cast<long double>(x)); return std::string(b); });
}
SUITE(constant)
{
    auto num = [](auto x) { return std::to_string(x); }; auto code = [](auto x) { return std::to_string(static_cast<uint32_t>(x)); };
    constants<bool>(run, 0, { false, true }, num);
    constants<char>(run, 1, grid<char>(), [](char x) { return std::to_string(static_cast<unsigned char>(x)); });
    std::vector<char16_t> c; for (unsigned i = 0; i < 0x180; ++i) c.push_back(static_cast<char16_t>(i)); for (unsigned i : { 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff }) c.push_back(static_cast<char16_t>(i));
    constants<char16_t>(run, 2, c, code);
    std::vector<wchar_t> w(c.begin(), c.end()); for (unsigned i : { 0x10000u, 0x1f600u, 0x10ffffu }) w.push_back(static_cast<wchar_t>(i)); constants<wchar_t>(run, 3, w, code);
    constants<int8_t>(run, 4, grid<int8_t>(), num); constants<uint8_t>(run, 5, grid<uint8_t>(), num); constants<int16_t>(run, 6, grid<int16_t>(), num); constants<uint16_t>(run, 7, grid<uint16_t>(), num);
    constants<int32_t>(run, 8, grid<int32_t>(), num); constants<uint32_t>(run, 9, grid<uint32_t>(), num); constants<int64_t>(run, 10, grid<int64_t>(), num); constants<uint64_t>(run, 11, grid<uint64_t>(), num);
    floats<float>(run, 12); floats<double>(run, 13); floats<long double>(run, 14);
}
SUITE(text)
{
    // all texts of up to 2 (3) of these units
    const std::vector<char32_t> U = { 'a', ' ', '"', '\'', '\\', '\n', '\t', '\r', 0x01, 0x7f, '0', 'f', '?', '/', 0xe9, 0x20ac, 0x1f600 };
    std::vector<std::u32string> all = { U"" }; size_t done = 0; for (int l = 0; l < (mc::thorough() ? 3 : 2); ++l) { size_t end = all.size(); for (; done < end; ++done) for (char32_t u : U) all.push_back(all[done] + u); }
    for (int kind = 0; kind < 3; ++kind)
        for (size_t i = 0; i < all.size(); ++i)
            run.test(cat(kind, "/", utf(all[i])), [&]
            {
                auto& x = all[i]; std::string s, s8; std::wstring ws(x.begin(), x.end()); std::u16string u16;
                for (char32_t c : x)
                {
                    if (c < 0x80) s8 += static_cast<char>(c); else if (c < 0x800) { s8 += static_cast<char>(0xc0 | c >> 6); s8 += static_cast<char>(0x80 | (c & 0x3f)); } else if (c < 0x10000) { s8 += static_cast<char>(0xe0 | c >> 12); s8 += static_cast<char>(0x80 | (c >> 6 & 0x3f)); s8 += static_cast<char>(0x80 | (c & 0x3f)); } else { s8 += static_cast<char>(0xf0 | c >> 18); s8 += static_cast<char>(0x80 | (c >> 12 & 0x3f)); s8 += static_cast<char>(0x80 | (c >> 6 & 0x3f)); s8 += static_cast<char>(0x80 | (c & 0x3f)); }
                    if (c < 0x10000) u16 += static_cast<char16_t>(c); else { u16 += static_cast<char16_t>(0xd800 + ((c - 0x10000) >> 10)); u16 += static_cast<char16_t>(0xdc00 + ((c - 0x10000) & 0x3ff)); }
                }
                for (int m = 0; m < 3; ++m) for (int bound = 0; bound < 2; ++bound)
                {
                    World w(FLAT); Sym k = sym(CONST, m, "K"); k.type = str(kind, bound ? 20 : 0);
                    std::u32string want = kind ? x : std::u32string(); if (!kind) for (unsigned char c : s8) want += c;
                    k.value = utf(want); k.make = [&](const DynamicType& t) { DynamicData d(t); if (kind == 0) d = s8; else if (kind == 1) d = ws; else d = u16; return d; };
                    w.add(k); check(run, w);
                }
            });
}
// symbol s of kind k that uses others: how[i] in the way i of its kind
static bool uses(Sym& s, const std::vector<int>& on, int way, const std::vector<Sym>& syms)
{
    if (s.kind == ENUM) { if (!on.empty()) return false; s.values = { { s.name + "_0", 0 }, { s.name + "_1", 1 } }; return true; }
    auto wrap = [&](int i, int way) -> TE { switch (way % 6) { case 0: return ref(i); case 1: return seq(ref(i)); case 2: return arr(ref(i), { 2 }); case 3: return map(prim(5), ref(i)); case 4: return seq(map(str(0), seq(ref(i), 2))); default: return map(ref(i), prim(5)); } };
    if (s.kind == ALIAS) { if (on.size() > 1) return false; s.type = on.empty() ? prim(9) : wrap(on[0], way); return true; }
    if (s.kind == UNION) { s.disc = prim(8); int l = 0; s.members = { mem("u0", prim(5), { l++ }) }; for (int i : on) { if (way == 6 && syms[i].kind == ENUM) { s.disc = ref(i); continue; } s.members.push_back(mem(cat("u", i + 1), wrap(i, way), { l++ })); } if (s.disc.word == "name") { if (s.members.size() > 2) return false; } return true; }
    s.members = { mem("m", prim(8)) }; for (int i : on) { if (way == 6 && syms[i].kind == STRUCT && s.parent < 0) { s.parent = i; s.members.erase(s.members.begin()); continue; } s.members.push_back(mem(cat("m", i + 1, "of", syms.size()), wrap(i, way))); }
    return true;
}
static void placement(mc::Run& run, const Tree& tree, int n, unsigned dag, int kinds, int place, int names, int way, bool early = false)
{
    static const char* PERM[24] = { "abcd", "abdc", "acbd", "acdb", "adbc", "adcb", "bacd", "badc", "bcad", "bcda", "bdac", "bdca", "cabd", "cadb", "cbad", "cbda", "cdab", "cdba", "dabc", "dacb", "dbac", "dbca", "dcab", "dcba" };
    int M = static_cast<int>(tree.name.size()); std::vector<Sym> syms; std::vector<int> mods; int bit = 0;
    for (int i = 0; i < n; ++i)
    {
        Sym s; s.kind = kinds % 4; kinds /= 4; s.mod = place % M; place /= M; s.name = names < 24 ? std::string(1, PERM[names][i]) : "x";
        if (names >= 24) { for (int m : mods) if (m == s.mod || (m == 0 || s.mod == 0)) return; mods.push_back(s.mod); } // the same name everywhere; see scoping of the root's names below
        std::vector<int> on; for (int j = 0; j < i; ++j) if (dag >> bit++ & 1) on.push_back(j);
        if (!uses(s, on, way, syms)) return;
        syms.push_back(s);
    }
    World w(tree); w.early = early; for (auto& s : syms) w.add(s);
    run.note(cat("dag ", dag, " kinds ", kinds, " way ", way, " names ", names));
    check(run, w);
}
static int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
static const Tree* TREES[] = { &FLAT, &NEST, &DEEP, &SAME, &WIDE, &ZIG };
static const int NAMES[] = { 0, 1, 2, 3, 4, 5, 24 };
// three symbols of every kind, related in every way, in every place, under names of every order
SUITE(three)
{
    for (int t = 0; t < 6; ++t) for (int place = 0; place < ipow(static_cast<int>(TREES[t]->name.size()), 3); ++place)
        run.test(cat(t, "/", place), [&]
        {
            for (unsigned dag = 1; dag < 8; ++dag) for (int kinds = 0; kinds < 64; ++kinds) for (int names : NAMES)
                for (int way = 0; way < 7; ++way)
                {
                    int n = way * 5 + kinds + names + place + static_cast<int>(dag);
                    if (mc::thorough() || n % (way == 0 || way == 6 ? 8 : 25) == 0) placement(run, *TREES[t], 3, dag, kinds, place, names, way);
                    if (names < 24 && (mc::thorough() || n % 25 == 1)) placement(run, *TREES[t], 3, dag, kinds, place, names, way, true);
                }
        });
}
SUITE(four)
{
    for (int t = 0; t < 6; ++t) for (int place = 0; place < ipow(static_cast<int>(TREES[t]->name.size()), 4); ++place)
        run.test(cat(t, "/", place), [&]
        {
            for (unsigned dag = 1; dag < 64; ++dag) for (int names = 0; names < 25; ++names)
            {
                if (!mc::thorough() && (names * 7 + dag + place) % 50) continue;
                placement(run, *TREES[t], 4, dag, (dag * 3 + names) % 2 ? 0 : (dag + names) % 3 ? 0x40 : 0x88, place, names, (dag + names) % 7, (dag + names) % 5 == 0 && names < 24);
            }
        });
}
