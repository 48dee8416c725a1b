// A stand-in for cpp-peglib, which the build of xtypes downloads and which is not available here: the part of its interface
// that xtypes/idl/parser.hpp uses, with the same meaning (PEG matching, tokens, abstract syntax trees and their optimization).
#ifndef VERIF_PEGLIB_H
#define VERIF_PEGLIB_H
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace peg {
constexpr unsigned tag_of(const char* s, size_t n, unsigned h = 0) { return n == 0 ? h : tag_of(s + 1, n - 1, (h * 33) ^ static_cast<unsigned char>(*s)); }
inline unsigned tag_of(const std::string& s) { return tag_of(s.data(), s.size()); }
namespace udl { constexpr unsigned operator "" _(const char* s, size_t n) { return tag_of(s, n); } }
struct EmptyType {};
template<class A> struct AstBase : A
{
    std::string path; size_t line = 1, column = 1; std::string name; size_t position = 0, length = 0; std::string original_name; unsigned tag = 0, original_tag = 0;
    bool is_token = false; std::string_view token; std::vector<std::shared_ptr<AstBase>> nodes; std::weak_ptr<AstBase> parent;
};
using Tree = AstBase<EmptyType>;
struct Op
{
    enum K { SEQ, ALT, STAR, PLUS, OPT, AND, NOT, LIT, CLASS, ANY, REF, TOKEN, IGNORE } k; std::vector<std::shared_ptr<Op>> in; std::string text; std::vector<std::pair<unsigned, unsigned>> ranges; bool negated = false; int rule = -1;
    bool has_token() const { if (k == TOKEN) return true; for (auto& i : in) if (i->has_token()) return true; return false; }
    bool has_ref() const { if (k == AND || k == NOT) return false; if (k == REF) return true; for (auto& i : in) if (i->has_ref()) return true; return false; }
    bool literals() const { if (k == LIT) return true; if (k != ALT) return false; for (auto& i : in) if (i->k != LIT) return false; return true; }
};
struct Grammar;
struct Values { std::vector<std::shared_ptr<Tree>> v; std::vector<std::pair<size_t, size_t>> t; void add(Values&& o) { for (auto& x : o.v) v.push_back(x); for (auto& x : o.t) t.push_back(x); } };
struct Result { bool ret; size_t len; };
struct Definition { std::string name; std::shared_ptr<Op> op; bool ignored = false, token = false; Grammar* g = nullptr; int id = 0; Result parse(const char* s) const; };
struct Grammar
{
    static constexpr size_t FAIL = size_t(-1);
    std::map<std::string, Definition> rules; std::vector<Definition*> by_id; std::string start;
    // ---- reading the grammar
    const char* p = nullptr; [[noreturn]] void bad(const std::string& m) { throw std::logic_error("grammar: " + m + " at '" + std::string(p).substr(0, 40) + "'"); }
    void ws() { for (;;) { while (*p && strchr(" \t\r\n", *p)) ++p; if (*p == '#') { while (*p && *p != '\n') ++p; continue; } return; } }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
    std::string ident() { std::string r; while (idc(*p)) r += *p++; ws(); return r; }
    bool at_definition() { const char* q = p; if (*q == '~') ++q; if (!idc(*q)) return false; while (idc(*q)) ++q; while (*q && strchr(" \t", *q)) ++q; return q[0] == '<' && q[1] == '-'; }
    static std::shared_ptr<Op> op(Op::K k, std::vector<std::shared_ptr<Op>> in = {}) { auto o = std::make_shared<Op>(); o->k = k; o->in = in; return o; }
    unsigned chr() { if (*p != '\\') return (unsigned char)*p++; ++p; char c = *p++; switch (c) { case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'f': return '\f'; case 'v': return '\v'; default: return (unsigned char)c; } }
    std::shared_ptr<Op> alt() { std::vector<std::shared_ptr<Op>> a{ seq() }; while (*p == '/') { ++p; ws(); a.push_back(seq()); } return a.size() == 1 ? a[0] : op(Op::ALT, a); }
    std::shared_ptr<Op> seq() { std::vector<std::shared_ptr<Op>> a; while (*p && *p != '/' && *p != ')' && *p != '>' && !at_definition()) a.push_back(prefix()); return a.size() == 1 ? a[0] : op(Op::SEQ, a); }
    std::shared_ptr<Op> prefix()
    {
        if (*p == '~') { ++p; ws(); return op(Op::IGNORE, { suffix() }); }
        if (*p == '!') { ++p; ws(); return op(Op::NOT, { suffix() }); }
        if (*p == '&') { ++p; ws(); return op(Op::AND, { suffix() }); }
        return suffix();
    }
    std::shared_ptr<Op> suffix() { auto o = primary(); for (;;) { Op::K k; if (*p == '*') k = Op::STAR; else if (*p == '+') k = Op::PLUS; else if (*p == '?') k = Op::OPT; else return o; ++p; ws(); o = op(k, { o }); } }
    std::shared_ptr<Op> primary()
    {
        if (*p == '(') { ++p; ws(); auto o = alt(); if (*p != ')') bad(") expected"); ++p; ws(); return o; }
        if (*p == '<') { ++p; ws(); auto o = alt(); if (*p != '>') bad("> expected"); ++p; ws(); return op(Op::TOKEN, { o }); }
        if (*p == '\'' || *p == '"') { char q = *p++; auto o = op(Op::LIT); while (*p != q) { if (!*p) bad("literal"); o->text += char(chr()); } ++p; ws(); return o; }
        if (*p == '[')
        {
            auto o = op(Op::CLASS); ++p; if (*p == '^') { o->negated = true; ++p; }
            while (*p != ']') { if (!*p) bad("class"); unsigned a = chr(), b = a; if (*p == '-' && p[1] != ']') { ++p; b = chr(); } o->ranges.push_back({ a, b }); }
            ++p; ws(); return o;
        }
        if (*p == '.') { ++p; ws(); return op(Op::ANY); }
        if (!idc(*p)) bad("unexpected"); auto o = op(Op::REF); o->text = ident(); return o;
    }
    void link(Op& o) { if (o.k == Op::REF) { auto i = rules.find(o.text); if (i == rules.end()) throw std::logic_error("grammar: '" + o.text + "' is not defined"); o.rule = i->second.id; } for (auto& i : o.in) link(*i); }
    explicit Grammar(const char* text)
    {
        p = text; ws();
        while (*p)
        {
            if (!at_definition()) bad("definition expected"); Definition d; if (*p == '~') { d.ignored = true; ++p; ws(); } d.name = ident(); p += 2; ws(); d.op = alt(); d.g = this;
            if (start.empty()) start = d.name; if (rules.count(d.name)) bad("'" + d.name + "' defined twice"); rules[d.name] = d;
        }
        for (auto& r : rules) { r.second.id = int(by_id.size()); by_id.push_back(&r.second); }
        for (auto& r : rules) { link(*r.second.op); r.second.token = r.second.op->literals() || r.second.op->has_token() || !r.second.op->has_ref(); }
    }
    Grammar(const Grammar&) = delete;
    // ---- matching
    struct Run
    {
        const Grammar& g; const char* s; size_t n; bool trees; size_t far = 0; std::vector<size_t> lines; int depth = 0;
        struct Memo { size_t len; std::shared_ptr<Tree> tree; }; std::unordered_map<size_t, Memo> memo;
        Run(const Grammar& g, const char* s, bool trees) : g(g), s(s), n(strlen(s)), trees(trees) { if (!trees) return; lines.push_back(0); for (size_t i = 0; i < n; ++i) if (s[i] == '\n') lines.push_back(i + 1); }
        std::pair<size_t, size_t> line(size_t at) const { size_t l = size_t(std::upper_bound(lines.begin(), lines.end(), at) - lines.begin()); return { l, at - lines[l - 1] + 1 }; }
        size_t fail(size_t at) { far = std::max(far, at); return FAIL; }
        size_t rule(int id, size_t at, std::shared_ptr<Tree>& out)
        {
            size_t key = size_t(id) * (n + 1) + at; if (trees) { auto i = memo.find(key); if (i != memo.end()) { out = i->second.tree; return i->second.len; } }
            if (++depth > 20000) throw std::logic_error("the text is nested too deep");
            const Definition& d = *g.by_id[id]; Values c; size_t len = match(*d.op, at, c); --depth;
            if (len != FAIL && trees && !d.ignored)
            {
                out = std::make_shared<Tree>(); auto lc = line(at); out->line = lc.first; out->column = lc.second; out->name = out->original_name = d.name; out->tag = out->original_tag = tag_of(d.name); out->position = at; out->length = len; out->is_token = d.token;
                if (d.token) out->token = c.t.empty() ? std::string_view(s + at, len) : std::string_view(s + c.t[0].first, c.t[0].second); else { out->nodes = c.v; }
            }
            if (trees) memo[key] = Memo{ len, out }; return len;
        }
        size_t match(const Op& o, size_t at, Values& out)
        {
            switch (o.k)
            {
                case Op::SEQ: { Values c; size_t len = 0; for (auto& i : o.in) { size_t l = match(*i, at + len, c); if (l == FAIL) return FAIL; len += l; } out.add(std::move(c)); return len; }
                case Op::ALT: for (auto& i : o.in) { Values c; size_t l = match(*i, at, c); if (l != FAIL) { out.add(std::move(c)); return l; } } return FAIL;
                case Op::STAR: case Op::PLUS: case Op::OPT:
                {
                    size_t len = 0, count = 0; for (;;) { Values c; size_t l = match(*o.in[0], at + len, c); if (l == FAIL) break; out.add(std::move(c)); len += l; ++count; if (o.k == Op::OPT || l == 0) break; }
                    return o.k == Op::PLUS && count == 0 ? FAIL : len;
                }
                case Op::AND: { Values c; return match(*o.in[0], at, c) != FAIL ? 0 : FAIL; }
                case Op::NOT: { Values c; size_t f = far; size_t l = match(*o.in[0], at, c); far = f; return l == FAIL ? 0 : fail(at); }
                case Op::LIT: return at + o.text.size() <= n && !memcmp(s + at, o.text.data(), o.text.size()) ? o.text.size() : fail(at);
                case Op::CLASS: case Op::ANY:
                {
                    if (at >= n) return fail(at); unsigned char b = s[at]; size_t l = b < 0x80 ? 1 : b >= 0xf0 ? 4 : b >= 0xe0 ? 3 : b >= 0xc0 ? 2 : 1; if (at + l > n) return fail(at);
                    if (o.k == Op::ANY) return l; bool in = false; if (l == 1) for (auto& r : o.ranges) in = in || (b >= r.first && b <= r.second); return in != o.negated ? l : fail(at);
                }
                case Op::REF: { std::shared_ptr<Tree> t; size_t l = rule(o.rule, at, t); if (l != FAIL && t) out.v.push_back(t); return l; }
                case Op::TOKEN: { size_t l = match(*o.in[0], at, out); if (l != FAIL) out.t.push_back({ at, l }); return l; }
                case Op::IGNORE: { Values c; return match(*o.in[0], at, c); }
            }
            return FAIL;
        }
    };
};
inline Result Definition::parse(const char* s) const { Grammar::Run r(*g, s, false); Values v; size_t l = r.match(*op, 0, v); return l != Grammar::FAIL && l == r.n ? Result{ true, l } : Result{ false, 0 }; }
class parser
{
public:
    parser() {}
    parser(const char* text) : g_(new Grammar(text)) {}
    bool load_grammar(const char* text) { try { g_.reset(new Grammar(text)); return true; } catch (const std::logic_error& e) { if (log_) log_(0, 0, e.what()); return false; } }
    explicit operator bool() const { return bool(g_); }
    void enable_ast() {}
    void set_logger(std::function<void(size_t, size_t, const std::string&)> log) { log_ = log; }
    void set_logger(std::function<void(size_t, size_t, const std::string&, const std::string&)> log) { log_ = [log](size_t l, size_t c, const std::string& m) { log(l, c, m, ""); }; }
    template<class T> bool parse(const char* s, std::shared_ptr<T>& ast) const
    {
        Grammar::Run r(*g_, s, true); std::shared_ptr<Tree> t; size_t l = r.rule(g_->rules.at(g_->start).id, 0, t);
        if (l == r.n) { ast = t; return true; }
        if (log_) { size_t at = l == Grammar::FAIL ? r.far : std::max(r.far, l); auto lc = r.line(std::min(at, r.n)); log_(lc.first, lc.second, "syntax error, unexpected '" + std::string(s + std::min(at, r.n)).substr(0, 10) + "'"); }
        return false;
    }
    std::shared_ptr<Tree> optimize_ast(const std::shared_ptr<Tree>& t) const
    {
        if (t->nodes.size() == 1)
        {
            auto r = std::make_shared<Tree>(*optimize_ast(t->nodes[0])); r->original_name = t->name; r->original_tag = t->tag; r->position = t->position; r->length = t->length;
            for (auto& n : r->nodes) n->parent = r; return r;
        }
        auto r = std::make_shared<Tree>(*t); r->nodes.clear(); for (auto& n : t->nodes) { r->nodes.push_back(optimize_ast(n)); r->nodes.back()->parent = r; } return r;
    }
    const std::map<std::string, Definition>& get_grammar() const { return g_->rules; }
private:
    std::shared_ptr<Grammar> g_; std::function<void(size_t, size_t, const std::string&)> log_;
};
} // namespace peg
#endif
