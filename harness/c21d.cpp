// C21: what is declared by an IDL text: its literals, expressions, labels, dimensions, layout, names and refusals
#include "mc.hpp"
#include <xtypes/idl/idl.hpp>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <unistd.h>
namespace xt = eprosima::xtypes; using mc::cat; using S = std::string;
using xt::DynamicData; using xt::DynamicType; using xt::TypeKind;
using Enum = xt::EnumerationType<uint32_t>;
static xt::idl::Parser& parser() { static std::shared_ptr<xt::idl::Parser> p = std::make_shared<xt::idl::Parser>(); return *p; }
struct Doc { xt::idl::Context c; bool ok = false; S err; };
static void parse(Doc& d, const S& text, bool pre = false) { d.c.preprocess = pre; try { d.ok = parser().parse_string(text, d.c); } catch (const std::exception& e) { d.err = e.what(); } }
static S in(const S& text) { return "\nin: " + text; }
#define DOC(d, text) Doc d; parse(d, text); run.state(); run.transition(); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(text))); return; }
static S hex(const S& s) { S r; char b[4]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += char(c); else { snprintf(b, 4, "%02X", c); r += cat("<", b, ">"); } } return r; }
static S utf(char32_t c) { S s; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } return s; }
static std::u16string u16(const std::u32string& t) { std::u16string r; for (char32_t c : t) if (c < 0x10000) r += char16_t(c); else { r += char16_t(0xD800 + ((c - 0x10000) >> 10)); r += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); } return r; }
template<class T> static S shown(const T& x) { std::stringstream s; s.precision(25); s << +x; return s.str(); }
template<class T> static bool same(const T& a, const T& b) { return a == b && (!std::is_floating_point<T>::value || std::signbit(static_cast<long double>(a)) == std::signbit(static_cast<long double>(b))); }
// the constant `name` has the value x
template<class T> static void constant(mc::Run& run, Doc& d, const S& text, const S& name, const T& x)
{
    run.transition(); if (!d.c.module().has_constant(name)) { mc::fail(cat(name, " isn't declared", in(text))); return; }
    DynamicData k = d.c.module().constant(name); if (k.type().kind() != xt::primitive_type<T>().kind()) { mc::fail(cat(name, " is a ", k.type().name(), in(text))); return; }
    if (!same<T>(k.value<T>(), x)) mc::fail(cat(name, " is ", shown(k.value<T>()), " instead of ", shown(x), in(text)));
}
template<class T> static void literal(mc::Run& run, const S& type, const S& lit, T x)
{
    run.test(cat(type, "/", hex(lit)), [&] { S t = cat("const ", type, " K = ", lit, ";\nmodule M { const ", type, " L = (", lit, ") ; };"); DOC(d, t) constant(run, d, t, "K", x); constant(run, d, t, "M::L", x); run.trace(); });
}
template<class T> static void integers(mc::Run& run, const S& type)
{
    std::set<T> v; if (sizeof(T) == 1) for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) v.insert(T(i));
    for (unsigned b = 0; b < 8 * sizeof(T); ++b) for (int k = -1; k < 2; ++k) { uint64_t x = (uint64_t(1) << b) + k; v.insert(T(x)); v.insert(T(0 - x)); }
    char b[64];
    for (T x : v)
    {
        bool neg = x < 0; unsigned long long m = neg ? 0 - uint64_t(int64_t(x)) : uint64_t(x); S sign = neg ? "-" : "";
        for (const char* f : { "%llu", "0x%llx", "0X%llX", "0%llo" }) { snprintf(b, 64, f, m); literal<T>(run, type, sign + b, x); if (!neg && f[0] == '%') literal<T>(run, type, S("+") + b, x); }
    }
}
#ifndef MEMORY
SUITE(integer)
{
    integers<int8_t>(run, "int8"); integers<uint8_t>(run, "uint8"); integers<int16_t>(run, "int16"); integers<uint16_t>(run, "uint16"); integers<int32_t>(run, "int32"); integers<uint32_t>(run, "uint32"); integers<int64_t>(run, "int64"); integers<uint64_t>(run, "uint64");
    integers<int16_t>(run, "short"); integers<uint16_t>(run, "unsigned short"); integers<int32_t>(run, "long"); integers<uint32_t>(run, "unsigned long"); integers<int64_t>(run, "long long"); integers<uint64_t>(run, "unsigned long long");
}
template<class T> static void floats(mc::Run& run, const S& type)
{
    for (const char* i : { "0", "1", "7", "12", "340282346638528859811704183484516925440" }) for (const char* f : { "", ".", ".0", ".5", ".25", ".125e1", ".1", "e0", "e3", "E+2", "e-2", ".5E-3", "e-40", ".e1" })
        for (const char* s : { "", "-" }) { S l = S(i) + f; if (S(i).size() > 2 && (S(f).find("e3") != S::npos || S(f).find("E+") != S::npos || S(f).find("e1") != S::npos) && sizeof(T) == 4) continue; std::stringstream q; T x = T(strtold(l.c_str(), nullptr)); if (sizeof(T) == 4) x = T(strtof(l.c_str(), nullptr)); if (sizeof(T) == 8) x = T(strtod(l.c_str(), nullptr)); literal<T>(run, type, s + l, *s ? -x : x); }
    for (const char* l : { ".5", ".25e2", ".1", ".5E-1" }) { T x = sizeof(T) == 4 ? T(strtof(l, nullptr)) : sizeof(T) == 8 ? T(strtod(l, nullptr)) : T(strtold(l, nullptr)); literal<T>(run, type, l, x); literal<T>(run, type, S("-") + l, -x); }
}
SUITE(real) { floats<float>(run, "float"); floats<double>(run, "double"); floats<long double>(run, "long double"); }
SUITE(boolean) { literal<bool>(run, "boolean", "TRUE", true); literal<bool>(run, "boolean", "FALSE", false); }
#endif
// characters with every way to write them
struct Unit { S text; char32_t code; bool wide, byte; };
static std::vector<Unit> units(bool full)
{
    std::vector<Unit> r; char b[16];
    const char* E[] = { "n\n", "t\t", "v\v", "b\b", "r\r", "f\f", "a\a", "\\\\", "??", "''", "\"\"" }; for (auto e : E) r.push_back({ S("\\") + e[0], char32_t(e[1]), false, false });
    for (unsigned c = 32; c < 127; ++c) if (c != '\'' && c != '"' && c != '\\' && (full || strchr("a0 xuL/%?;{", int(c)))) r.push_back({ S(1, char(c)), c, false, false });
    for (unsigned c = 0; c < 256; ++c) if (full || c == 0x41 || c == 1 || c == 0x7f || c == 0xe9 || c == 0xff) { snprintf(b, 16, "\\x%02x", c); r.push_back({ b, c, false, true }); snprintf(b, 16, "\\%03o", c); r.push_back({ b, c, false, true }); if (full) { snprintf(b, 16, "\\x%02X", c); r.push_back({ b, c, false, true }); } if (c < 16 && full) { snprintf(b, 16, "\\x%x", c); r.push_back({ b, c, false, true }); snprintf(b, 16, "\\%o", c); r.push_back({ b, c, false, true }); } }
    for (unsigned c : { 0x41u, 0xe9u, 0x7ffu, 0x800u, 0x20acu, 0xfffdu, 0xd7ffu, 0xe000u }) { snprintf(b, 16, "\\u%04x", c); r.push_back({ b, c, true, false }); r.push_back({ utf(c), c, c > 0x7f, false }); if (full) { snprintf(b, 16, "\\u%04X", c); r.push_back({ b, c, true, false }); } }
    r.push_back({ utf(0x1f600), 0x1f600, true, false });
    return r;
}
SUITE(character)
{
    for (auto& u : units(true)) if (u.code)
    {
        if (!u.wide) literal<char>(run, "char", "'" + u.text + "'", char(u.code));
        literal<wchar_t>(run, "wchar", "L'" + u.text + "'", wchar_t(u.code));
        if (u.code < 0x10000) run.test(cat("char16/", hex(u.text)), [&] { S t = "const wchar K = L'" + u.text + "';"; Doc d; d.c.wchar_type = xt::idl::Context::CHAR16_T; parse(d, t); run.state(); run.transition(); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; } constant<char16_t>(run, d, t, "K", char16_t(u.code)); run.trace(); });
    }
    for (int k = 0; k < 3; ++k) for (unsigned char c : { 'a', 'L', 'x', '0', ' ' }) run.test(cat("as/", k, "/", int(c)), [&]
    {
        S t = cat("const char K = '", char(c), "';"); Doc d; d.c.char_translation = k == 0 ? xt::idl::Context::CHAR : k == 1 ? xt::idl::Context::UINT8 : xt::idl::Context::INT8; parse(d, t); run.state(); run.transition(); if (!d.ok) { mc::fail(d.err); return; }
        TypeKind want = k == 0 ? TypeKind::CHAR_8_TYPE : k == 1 ? TypeKind::UINT_8_TYPE : TypeKind::INT_8_TYPE; MC_CHECK(d.c.module().constant("K").type().kind() == want, "another type"); run.trace();
    });
}
// texts of up to 2 (3) units, in one literal or in adjacent ones
SUITE(text)
{
    auto us = units(false); int max = mc::thorough() ? 3 : 2;
    std::vector<std::vector<int>> all = { {} }; size_t done = 0; for (int l = 0; l < max; ++l) { size_t end = all.size(); for (; done < end; ++done) for (size_t u = 0; u < us.size(); ++u) if (us[u].code) { if (l == 2 && (u + done) % 7) continue; auto x = all[done]; x.push_back(int(u)); all.push_back(x); } }
    for (size_t i = 0; i < all.size(); ++i) run.test(cat("t", i), [&]
    {
        // a hexadecimal or octal sequence takes the digits which follow it
        for (size_t k = 0; k + 1 < all[i].size(); ++k) { auto& a = us[all[i][k]].text; if (a.size() > 1 && a[0] == '\\' && (isdigit(a[1]) || a[1] == 'x' || a[1] == 'u') && isxdigit((unsigned char)us[all[i][k + 1]].text[0])) { size_t full = a[1] == 'x' ? 4 : a[1] == 'u' ? 6 : 4; if (a.size() < full) return; } }
        for (int wide = 0; wide < 3; ++wide) for (size_t cut = 0; cut <= all[i].size(); ++cut)
        {
            if (cut && cut == all[i].size()) continue;
            S q = wide ? "L\"" : "\"", body = q, want8; std::u32string want; bool skip = false;
            for (size_t k = 0; k < all[i].size(); ++k) { auto& u = us[all[i][k]]; if (cut && k == cut) body += "\" " + q; body += u.text; want += u.code; want8 += u.byte ? S(1, char(u.code)) : utf(u.code); if (!wide && !u.byte && u.wide && u.text[0] != '\\') {} }
            body += "\""; if (skip) continue;
            S t = cat("const ", wide ? "wstring" : "string", " K = ", body, " ; const ", wide ? "wstring" : "string", "<9> L = ", body, ";"); Doc d; if (wide == 2) d.c.wchar_type = xt::idl::Context::CHAR16_T; parse(d, t); run.state(); run.transition(3);
            if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; }
            for (const char* n : { "K", "L" })
            {
                DynamicData k = d.c.module().constant(n); bool good;
                if (wide == 0) good = k.type().kind() == TypeKind::STRING_TYPE && k.value<S>() == want8.substr(0, n[0] == 'L' ? 9 : S::npos); else if (wide == 1) good = k.type().kind() == TypeKind::WSTRING_TYPE && k.value<std::wstring>() == std::wstring(want.begin(), want.end()); else good = k.type().kind() == TypeKind::STRING16_TYPE && k.value<std::u16string>() == u16(want);
                if (!good) mc::fail(cat(n, " has another value: ", wide == 0 ? hex(k.value<S>()) : S("?"), in(t)));
            }
        }
        run.trace();
    });
}
#ifndef MEMORY
// expressions: every sequence of operators over small operands, without parentheses, with one pair and with a sign
struct Expr
{
    const std::vector<S>& tok; size_t p = 0; bool bad = false; uint64_t mask; bool sgn;
    using V = __int128;
    V norm(V x) { V lo = sgn ? -(V(mask) / 2) - 1 : 0, hi = sgn ? V(mask) / 2 : V(mask); if (x < lo || x > hi) { if (sgn) bad = true; return V(uint64_t(x) & mask); } return x; }
    int prec(const S& o) { if (o == "|") return 1; if (o == "^") return 2; if (o == "&") return 3; if (o == "<<" || o == ">>") return 4; if (o == "+" || o == "-") return 5; if (o == "*" || o == "/" || o == "%") return 6; return 0; }
    V unary() { S t = tok[p++]; if (t == "(") { V v = binary(1); ++p; return v; } if (t == "-") return norm(-primary()); if (t == "+") return primary(); if (t == "~") return norm(~primary()); --p; return primary(); }
    V primary() { S t = tok[p++]; if (t == "(") { V v = binary(1); ++p; return v; } if (t == "K") return 3; if (t == "M::J") return 2; return V(strtoll(t.c_str(), nullptr, 0)); }
    V binary(int lv)
    {
        V a = unary();
        while (!bad && p < tok.size() && prec(tok[p]) >= lv)
        {
            S o = tok[p]; ++p; V b = binary(prec(o) + 1);
            if (o == "|") a = a | b; else if (o == "^") a = a ^ b; else if (o == "&") a = a & b; else if (o == "+") a = a + b; else if (o == "-") a = a - b; else if (o == "*") a = a * b;
            else if (o == "<<" || o == ">>") { if (b < 0 || b > 20 || a < 0) { bad = true; return 0; } a = o == "<<" ? a << int(b) : a >> int(b); }
            else { if (b == 0) { bad = true; return 0; } a = o == "/" ? a / b : a % b; }
            a = norm(a);
        }
        return a;
    }
};
template<class T> static void expression(mc::Run& run, const S& type, const std::vector<S>& tok, const S& gap)
{
    Expr e{ tok }; e.sgn = std::is_signed<T>::value; e.mask = sizeof(T) == 8 ? ~uint64_t(0) : (uint64_t(1) << 8 * sizeof(T)) - 1; auto v = e.binary(1); if (e.bad) return;
    S x; for (auto& t : tok) x += gap + t; S t = cat("module M { const ", type, " J = 2; }; const ", type, " K = 3; const ", type, " X =", x, ";"); DOC(d, t) constant<T>(run, d, t, "X", T(v)); run.trace();
}
SUITE(expression)
{
    const std::vector<S> OPS = { "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%" }; const std::vector<std::vector<S>> VALS = { { "7", "2", "3", "1" }, { "12", "5", "M::J", "K" }, { "0x40", "K", "010", "2" } };
    for (int n = 1; n <= 3; ++n) { int all = 1; for (int i = 0; i < n; ++i) all *= 10; for (int c = 0; c < all; ++c)
        run.test(cat(n, "/", c), [&]
        {
            std::vector<S> op; int k = c; for (int i = 0; i < n; ++i) { op.push_back(OPS[k % 10]); k /= 10; }
            for (auto& val : VALS)
            {
                for (int from = 0; from <= n; ++from) for (int to = from + (from ? 0 : 0); to <= n; ++to) // parentheses around the operands from..to; from == to: around one, as without them
                {
                    if (from == to && from > 0) continue;
                    std::vector<S> t; for (int i = 0; i <= n; ++i) { if (from != to && i == from) t.push_back("("); t.push_back(val[i]); if (from != to && i == to) t.push_back(")"); if (i < n) t.push_back(op[i]); }
                    expression<int32_t>(run, "int32", t, " "); if (from == to) { expression<uint32_t>(run, "uint32", t, ""); expression<int64_t>(run, "int64", t, " "); expression<uint64_t>(run, "uint64", t, "\n"); expression<uint16_t>(run, "uint16", t, ""); }
                    if (n < 3 || mc::thorough()) expression<int64_t>(run, "int64", t, "");
                }
                if (n < 3) for (int at = 0; at <= n; ++at) for (const char* sign : { "-", "+", "~" }) { std::vector<S> t; for (int i = 0; i <= n; ++i) { if (i == at) t.push_back(sign); t.push_back(val[i]); if (i < n) t.push_back(op[i]); } expression<int32_t>(run, "int32", t, " "); expression<int64_t>(run, "int64", t, ""); if (*sign == '+') expression<uint32_t>(run, "uint32", t, " "); }
            }
        }); }
    for (const char* x : { "1.5 + 2.25 * 2.0", "10.0 / 4.0 / 5.0", "10.0 - 4.0 - 5.5", "(10.0 - 4.0) * 0.5", "-(1.5 + 2.0)", "8.0 / 2.0 * 4.0", "-1.5 - -2.5" })
        run.test(cat("real/", x), [&] { double v = S(x) == "1.5 + 2.25 * 2.0" ? 6 : S(x) == "10.0 / 4.0 / 5.0" ? 0.5 : S(x) == "10.0 - 4.0 - 5.5" ? 0.5 : S(x) == "(10.0 - 4.0) * 0.5" ? 3 : S(x) == "-(1.5 + 2.0)" ? -3.5 : S(x) == "8.0 / 2.0 * 4.0" ? 16 : 1; S t = cat("const double X = ", x, "; const float Y = ", x, ";"); DOC(d, t) constant<double>(run, d, t, "X", v); constant<float>(run, d, t, "Y", float(v)); run.trace(); });
}
// labels: every way to write them, for every kind of discriminator
SUITE(label)
{
    struct Disc { const char* type; std::vector<std::pair<S, int64_t>> labels; };
    S pre = "module N { enum F { F0, F1, F2 }; const int32 C5 = 5; module O { const octet C9 = 9; }; };\nenum E { @value(2) A, B, @value(9) Z };\ntypedef E EE; typedef int16 I; typedef char C; typedef boolean B1; const int32 C7 = 7; const uint8 U8 = 3 + 1; const char CQ = 'q'; const wchar CW = L'w'; const boolean CT = TRUE; const E CZ = Z;\n";
    auto ints = [](const char* t) { return Disc{ t, { { "0", 0 }, { "1", 1 }, { "0x10", 16 }, { "0X1f", 31 }, { "017", 15 }, { "C7", 7 }, { "N::C5", 5 }, { "::N::O::C9", 9 }, { "U8", 4 }, { "1+2*3 - 1", 6 }, { "(3)", 3 }, { "( 1 << 3 ) | 2", 10 }, { "20-4-4", 12 }, { "+ 13", 13 } } }; };
    std::vector<Disc> D = { ints("int8"), ints("uint8"), ints("octet"), ints("int16"), ints("uint16"), ints("int32"), ints("uint32"), ints("int64"), ints("uint64"), ints("I"), ints("unsigned long long"),
        { "boolean", { { "TRUE", 1 }, { "FALSE", 0 } } }, { "boolean", { { "CT", 1 }, { "FALSE", 0 } } }, { "B1", { { "TRUE", 1 }, { "FALSE", 0 } } },
        { "char", { { "'a'", 'a' }, { "'0'", '0' }, { "' '", ' ' }, { "':'", ':' }, { "CQ", 'q' }, { "'\\n'", '\n' }, { "'\\''", '\'' }, { "'\\x41'", 'A' }, { "'\\102'", 'B' }, { "'\\\\'", '\\' }, { "'\\\"'", '"' } } },
        { "C", { { "'a'", 'a' }, { "CQ", 'q' }, { "'\\t'", '\t' } } }, { "wchar", { { "L'a'", 'a' }, { "CW", 'w' }, { S("L'") + utf(0x20ac) + "'", 0x20ac }, { "L'\\u00e9'", 0xe9 }, { "L'\\n'", '\n' }, { S("L'") + utf(0x1f600) + "'", 0x1f600 } } },
        { "E", { { "A", 2 }, { "B", 3 }, { "Z", 9 } } }, { "E", { { "A", 2 }, { "CZ", 9 } } }, { "EE", { { "Z", 9 }, { "A", 2 } } }, { "N::F", { { "N::F2", 2 }, { "F0", 0 }, { "N::F1", 1 } } }, { "N::F", { { "F2", 2 }, { "N::F::F1", 1 } } } };
    for (const char* t : { "int8", "int16", "int32", "int64" }) D.push_back({ t, { { "-1", -1 }, { "- 2", -2 }, { "-128", -128 }, { "126", 126 }, { "-(1+2)", -3 }, { "~ 4", -5 } } });
    D.push_back({ "int32", { { "C7 * 3", 21 }, { "-C7", -7 }, { "C7 - N::C5", 2 }, { "(C7 << 2) | ::N::C5", 29 }, { "C7", 7 } } });
    D.push_back({ "int64", { { "9223372036854775806", INT64_MAX - 1 }, { "4294967296", 4294967296 }, { "-9223372036854775808", INT64_MIN } } }); D.push_back({ "uint64", { { "18446744073709551615", -1 }, { "0xffffffff", 4294967295 } } }); D.push_back({ "uint32", { { "4294967295", 4294967295 }, { "2147483648", 2147483648 } } });
    const char* DEF[] = { "default:", "default :", "default  /* d */  :", "default\n:" };
    for (size_t k = 0; k < D.size(); ++k)
    {
        auto& L = D[k].labels; int n = int(L.size());
        for (int a = -1; a < n; ++a) for (int b = -1; b < n; ++b) for (int c = -1; c < n; ++c)
        {
            if ((c >= 0 && (a < 0 || b < 0)) || (b >= 0 && a < 0)) continue; if (a >= 0 && (a == b || a == c)) continue; if (b >= 0 && b == c) continue; if (c >= 0 && n > 6 && (a + 2 * b + 3 * c) % (mc::thorough() ? 3 : 11)) continue;
            run.test(cat(D[k].type, "/", k, "/", a, ".", b, ".", c), [&]
            {
                std::vector<int> use; for (int x : { a, b, c }) if (x >= 0) use.push_back(x); int m = int(use.size());
                // split of the labels among the cases, and where the default is (0: none)
                for (int split = 0; split < (1 << std::max(0, m - 1)); ++split) for (int def = 0; def <= m + 1; ++def) for (int way = 0; way < (def ? 4 : 1); ++way)
                {
                    if (m == 0 && def != 1) continue; if (def && m > 1 && way != (split + def) % 4) continue;
                    struct Case { std::vector<int64_t> labels; bool def = false; }; std::vector<Case> cases; S body; const char* gap[] = { ":", " :", ": ", "/*x*/:" };
                    for (int i = 0; i < m; ++i)
                    {
                        if (i == 0 || (split >> (i - 1) & 1)) { if (i) body += cat(" int32 m", cases.size() - 1, ";\n"); cases.push_back({}); }
                        if (def == i + 1) { body += S(DEF[way]) + " "; cases.back().def = true; }
                        body += cat("case ", L[use[i]].first, gap[(use[i] + way) % 4]); cases.back().labels.push_back(L[use[i]].second);
                    }
                    if (m) body += cat(" int32 m", cases.size() - 1, ";\n");
                    if (def == m + 1) { cases.push_back({}); cases.back().def = true; body += cat(DEF[way], " int32 m", cases.size() - 1, ";\n"); }
                    bool boolean = S(D[k].type) == "boolean" || S(D[k].type) == "B1"; if (boolean && def == m + 1 && m == 2) continue; // nothing is left for it
                    S t = cat(pre, "union U switch (", D[k].type, ") {\n", body, "};"); DOC(d, t)
                    if (!d.c.module().has_union("U")) { mc::fail(cat("no union", in(t))); return; }
                    const xt::UnionType& u = d.c.module().union_switch("U"); auto names = u.get_case_members(); if (names.size() != cases.size()) { mc::fail(cat(names.size(), " members", in(t))); return; }
                    for (size_t i = 0; i < cases.size(); ++i)
                    {
                        run.transition(2); auto got = u.get_labels(names[i]); std::set<int64_t> g(got.begin(), got.end()), w(cases[i].labels.begin(), cases[i].labels.end());
                        if (names[i] != cat("m", i) || g != w) mc::fail(cat("the labels of ", names[i], " are ", got.empty() ? S("none") : std::to_string(got[0]), "...", in(t)));
                        if (u.is_default(names[i]) != cases[i].def) mc::fail(cat(names[i], u.is_default(names[i]) ? " is" : " isn't", " the default", in(t)));
                    }
                }
                run.trace();
            });
        }
    }
    // refused
    for (const char* x : { "case UNKNOWN: int32 a;", "case 1: int32 a; case 1: int32 b;", "case 1: int32 a; case 2: int32 a;", "default: int32 a; default: int32 b;", "default: default: int32 a;", "case 0x1: case 1: int32 a; case 1: int32 b;", "" })
        run.test(cat("refused/", x), [&] { S t = cat("union U switch (int32) {", x, "};"); Doc d; parse(d, t); run.state(); run.transition(); if (d.ok && d.err.empty()) mc::fail(cat("accepted", in(t))); run.trace(); });
}
// dimensions and bounds
SUITE(dimension)
{
    S pre = "const int32 I4 = 4; const uint8 U5 = 5; const uint64 UL6 = 2 * 3; const int16 S7 = 7; module N { const int64 L3 = 3; module O { const unsigned long X8 = 1 << 3; }; };\n";
    const std::vector<std::pair<S, uint32_t>> V = { { "1", 1 }, { "9", 9 }, { "10", 10 }, { "0x10", 16 }, { "0Xa", 10 }, { "010", 8 }, { "0100", 64 }, { "I4", 4 }, { "U5", 5 }, { "UL6", 6 }, { "S7", 7 }, { "N::L3", 3 }, { "::N::L3", 3 }, { "N::O::X8", 8 }, { "255", 255 }, { "65536", 65536 }, { "4294967295", 4294967295u } };
    const std::vector<S> GAP = { "", " ", "/* 3 */", "\n" };
    auto bound = [](const DynamicType& t) -> uint64_t { switch (t.kind()) { case TypeKind::STRING_TYPE: return static_cast<const xt::StringType&>(t).bounds(); case TypeKind::WSTRING_TYPE: return static_cast<const xt::WStringType&>(t).bounds(); case TypeKind::STRING16_TYPE: return static_cast<const xt::String16Type&>(t).bounds(); case TypeKind::SEQUENCE_TYPE: return static_cast<const xt::SequenceType&>(t).bounds(); case TypeKind::MAP_TYPE: return static_cast<const xt::MapType&>(t).bounds(); default: return 999; } };
    for (auto& v : V) for (size_t g = 0; g < GAP.size(); ++g) for (int form = 0; form < 6; ++form) for (int wide = 0; wide < 2; ++wide) run.test(cat("bound/", v.first, "/", g, "/", form, "/", wide), [&]
    {
        if (wide && form != 1) return;
        S n = GAP[g] + v.first + GAP[g], ty = form == 0 ? cat("string<", n, ">") : form == 1 ? cat("wstring<", n, ">") : form == 2 ? cat("sequence<int32,", n, ">") : form == 3 ? cat("map<int32, string,", n, ">") : form == 4 ? cat("sequence<string<", n, ">, 2>") : cat("map<string<", n, ">, int8>");
        S t = cat(pre, "struct S { ", ty, " m; ", ty, GAP[g], " n, o; }; typedef ", ty, " T; module N { struct Q { ", ty, " m; }; union U switch (int32) { case 1: ", ty, " m; case 2: T n; }; };"); Doc d; if (wide) d.c.wchar_type = xt::idl::Context::CHAR16_T; parse(d, t); run.state(); run.transition(6); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; }
        auto& m = d.c.module(); auto see = [&](const DynamicType& x, const char* who) { const DynamicType* y = &x; if (form == 4) y = &static_cast<const xt::SequenceType&>(x).content_type(); if (form == 5) y = &static_cast<const xt::PairType&>(static_cast<const xt::MapType&>(x).content_type()).first(); if (bound(*y) != v.second) mc::fail(cat("the bound of ", who, " is ", bound(*y), in(t))); };
        see(m.structure("S").member("m").type(), "S::m"); see(m.structure("S").member("n").type(), "S::n"); see(m.structure("S").member("o").type(), "S::o"); see(m.alias("T").get(), "T"); see(m.structure("N::Q").member("m").type(), "Q::m"); see(m.union_switch("N::U").member("m").type(), "U::m"); see(static_cast<const xt::AliasType&>(m.union_switch("N::U").member("n").type()).get(), "U::n"); run.trace();
    });
    for (size_t a = 0; a + 2 < V.size(); ++a) for (size_t b = 0; b <= V.size() - 2; ++b) for (size_t c = 0; c <= V.size() - 2; ++c)
    {
        if (b == 0 && c) continue; if (c && (a + b + c) % (mc::thorough() ? 1 : 5)) continue;
        run.test(cat("array/", a, ".", b, ".", c), [&]
        {
            std::vector<size_t> use = { a }; if (b) use.push_back(b - 1); if (c) use.push_back(c - 1); uint64_t total = 1; S dims; const S& g = GAP[(a + b + c) % 4]; for (size_t u : use) { total *= V[u].second; dims += g + "[" + g + V[u].first + g + "]"; } if (total > 1000000) return;
            S t = cat(pre, "struct S { int8 m", dims, "; string n", dims, ", o; sequence<int8> p, q", dims, "; }; typedef int8 T", dims, "; typedef S W, X", dims, ", Y; union U switch (int32) { case 1: S m", dims, "; case 2: T n; };"); DOC(d, t)
            auto& m = d.c.module(); auto see = [&](const DynamicType& x, const char* who, TypeKind last) { const DynamicType* y = &x; for (size_t u : use) { if (y->kind() != TypeKind::ARRAY_TYPE || static_cast<const xt::ArrayType&>(*y).dimension() != V[u].second) { mc::fail(cat("the dimensions of ", who, " are others: ", x.name(), in(t))); return; } y = &static_cast<const xt::ArrayType&>(*y).content_type(); } if (y->kind() != last) mc::fail(cat(who, " has another type: ", x.name(), in(t))); run.transition(); };
            auto& s = m.structure("S"); see(s.member("m").type(), "S::m", TypeKind::INT_8_TYPE); see(s.member("n").type(), "S::n", TypeKind::STRING_TYPE); see(s.member("q").type(), "S::q", TypeKind::SEQUENCE_TYPE); MC_CHECK(s.member("o").type().kind() == TypeKind::STRING_TYPE && s.member("p").type().kind() == TypeKind::SEQUENCE_TYPE && s.members().size() == 5, t);
            if (!m.has_alias("T") || !m.has_alias("W") || !m.has_alias("X") || !m.has_alias("Y")) { mc::fail(cat("an alias is missing", in(t))); return; }
            see(m.alias("T").get(), "T", TypeKind::INT_8_TYPE); see(m.alias("X").get(), "X", TypeKind::STRUCTURE_TYPE); MC_CHECK(m.alias("W").get().kind() == TypeKind::STRUCTURE_TYPE && m.alias("Y").get().kind() == TypeKind::STRUCTURE_TYPE, t); see(m.union_switch("U").member("m").type(), "U::m", TypeKind::STRUCTURE_TYPE); run.trace();
        });
    }
    for (const char* x : { "struct S { int32 a[0]; };", "struct S { int32 a[UNKNOWN]; };", "struct S { string<UNKNOWN> a; };", "struct S { wstring<UNKNOWN> a; };", "struct S { sequence<int32, UNKNOWN> a; };", "struct S { map<int32, int32, UNKNOWN> a; };", "typedef int32 T[UNKNOWN];", "const float F = 2.0; struct S { int32 a[F]; };", "const string F = \"2\"; struct S { string<F> a; };", "struct S { int32 a; int32 a; };", "struct S { int32 a, a; };", "struct S { UNKNOWN a; };", "struct S { sequence<UNKNOWN> a; };", "typedef UNKNOWN T;", "struct S : UNKNOWN { };", "struct S { any a; };", "struct S { fixed<3, 2> a; };", "typedef any T;", "union U switch (UNKNOWN) { case 1: int32 a; };", "const UNKNOWN K = 3;", "struct A { int32 a; }; struct A { int32 b; };", "enum E { A, B, A };", "struct S { int32 struct; };", "struct struct { };", "module module { struct S { }; };", "struct S { S2 a; }; struct S2 { int32 b; };", "typedef int32 int32;" })
        run.test(cat("refused/", x), [&] { if (S(x).find("a[0]") != S::npos) return; Doc d; parse(d, x); run.state(); run.transition(); if (d.ok && d.err.empty()) mc::fail(cat("accepted", in(x))); run.trace(); });
}
#endif
// layout: spaces and comments between the tokens change nothing
static const char* DOCS[] = {
    "module A { struct S { int32 a ; string < 5 > b ; sequence < map < string , int8 , 3 > , 4 > c ; unsigned long long d [ 2 ] [ 3 ] , e ; } ; } ;",
    "enum E { @value ( 2 ) P , Q } ; union U switch ( E ) { case P : case Q : int32 a ; default : A::T b [ 2 ] ; } ;",
    "const int32 K = ( 1 + 2 ) * - 3 << 1 ; const string T = \"a b\" \"c\" ; const wstring W = L\"x\" ; const char C = 'c' ; const double D = 1.5e3 ; const boolean B = TRUE ;",
    "struct F ; struct P { int32 a ; } ; struct Q : P { long double b ; unsigned short c ; } ; typedef P X , Y [ 3 ] ; typedef sequence < Q > Z ;",
    "module A { module B { const octet K = 0x1F | 2 ; } ; typedef int32 T ; } ; module A { struct V { A::T t ; ::A::T u ; A::B::R r ; } ; } ;" };
static const char* PRE[] = { "", "module A { typedef int8 T; };\n", "", "", "module A { module B { struct R { }; }; };\n" };
static std::vector<S> tokens(const S& t) { std::vector<S> r; S q; bool str = false; for (char c : t) { if (c == '"' || c == '\'') str = !str; if (c == ' ' && !str) { if (!q.empty()) r.push_back(q); q.clear(); } else q += c; } if (!q.empty()) r.push_back(q); return r; }
static S what(xt::idl::Context& c, const char* only = nullptr)
{
    S r; for (auto& x : c.get_all_scoped_types()) { r += x.first + " " + x.second->name() + " " + std::to_string(int(x.second->kind())) + " " + std::to_string(x.second->memory_size()) + "\n"; }
    try { r += xt::idl::generator::module(c.module()); } catch (const std::exception& e) { r += e.what(); } return r;
}
#ifndef MEMORY
SUITE(layout)
{
    const std::vector<S> SP = { " ", "\t", "\n", "\r\n", "  \t\n ", "/* c */", " /* c */ ", "\t/* c */\t", "// c\n", "\n  // c\n\t", "/* a */ /* b */", "// a\n// b\n", "/**/", "\n\n/* a\n b */\n\n", " // a \\\n b\n", "/* ; } \" */", "/***/", "/* a **/", "/**\n * b\n ***/", "/*/ c /*/" };
    for (int k = 0; k < 5; ++k)
    {
        auto tok = tokens(DOCS[k]); auto build = [&](size_t at, const S& sp, size_t at2, const S& sp2, bool tight) { S r = PRE[k]; for (size_t i = 0; i <= tok.size(); ++i) { bool need = i && i < tok.size() && (isalnum((unsigned char)tok[i - 1].back()) || tok[i - 1].back() == '_') && (isalnum((unsigned char)tok[i][0]) || tok[i][0] == '_' || tok[i][0] == '@'); if (i && i < tok.size() && (tok[i - 1].back() == '"' && tok[i][0] == '"')) need = true; if (i == at) r += sp; else if (i == at2) r += sp2; else if (i && i < tok.size() && (!tight || need)) r += " "; if (i < tok.size()) r += tok[i]; } return r; };
        S base; { Doc d; parse(d, build(999, "", 999, "", false)); if (!d.ok) { run.test(cat("base", k), [&] { mc::fail(d.err + build(999, "", 999, "", false)); }); continue; } base = what(d.c); }
        auto judge = [&](const S& t) { Doc d; parse(d, t); run.state(); run.transition(); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; } S w = what(d.c); if (w != base) mc::fail(cat("other declarations:\n", w, in(t))); run.trace(); };
        for (size_t i = 0; i <= tok.size(); ++i) for (size_t a = 0; a < SP.size(); ++a) for (int tight = 0; tight < 2; ++tight) run.test(cat(k, "/", i, "/", a, "/", tight), [&] { judge(build(i, SP[a], 999, "", tight)); });
        for (size_t i = 0; i <= tok.size(); ++i) for (size_t j = i + 1; j <= tok.size(); ++j) for (size_t a = 0; a < SP.size(); ++a) { size_t b = (a * 5 + i + j) % SP.size(); if (!mc::thorough() && (i + j + a) % 16) continue; run.test(cat(k, "/", i, ".", j, "/", a), [&] { judge(build(i, SP[a], j, SP[b], false)); }); }
        for (size_t a = 0; a < SP.size(); ++a) run.test(cat(k, "/all/", a), [&] { S r = PRE[k]; for (auto& t : tok) r += SP[a] + t; judge(r + SP[a]); });
    }
}
#else
// a text that is no IDL is refused without effect and without harm; the parser goes on as before
SUITE(malformed)
{
    for (int k = 0; k < 5; ++k)
    {
        S t = S(PRE[k]) + DOCS[k]; auto tok = tokens(DOCS[k]);
        auto judge = [&](const S& x, bool must) { Doc d; parse(d, x); run.state(); run.transition(2); if (must && d.ok) mc::fail(cat("accepted", in(x))); if (!d.ok && d.err.empty() && !d.c.get_all_types().empty()) mc::fail(cat("a refused text declared something", in(x))); Doc g; parse(g, t); if (!g.ok) mc::fail(cat("the parser refuses a correct text after", in(x))); run.trace(); };
        for (size_t n = 0; n < t.size(); ++n) run.test(cat(k, "/cut/", n), [&] { judge(t.substr(0, n), false); });
        for (size_t i = 0; i < tok.size(); ++i) { run.test(cat(k, "/without/", i), [&] { S x = PRE[k]; for (size_t j = 0; j < tok.size(); ++j) if (j != i) x += tok[j] + " "; judge(x, tok[i] == ";" && tok[i].size() == 1); }); run.test(cat(k, "/twice/", i), [&] { S x = PRE[k]; for (size_t j = 0; j < tok.size(); ++j) { x += tok[j] + " "; if (j == i) x += tok[j] + " "; } judge(x, tok[i] == ";" || tok[i] == "{" || tok[i] == "}"); }); }
        for (size_t i = 0; i < tok.size(); ++i) for (size_t j = 0; j < tok.size(); ++j) run.test(cat(k, "/swap/", i, ".", j), [&] { if (tok[i] == tok[j] || (!mc::thorough() && (i + j) % 3)) return; auto q = tok; std::swap(q[i], q[j]); S x = PRE[k]; for (auto& y : q) x += y + " "; judge(x, false); });
        for (unsigned c = 1; c < 256; ++c) for (size_t n = c % 13; n <= t.size(); n += mc::thorough() ? 13 : 29) run.test(cat(k, "/char/", c, "/", n), [&] { judge(t.substr(0, n) + char(c) + t.substr(n), false); });
    }
}
#endif
#ifndef MEMORY
// the preprocessor gets the text as it is
SUITE(preprocess)
{
    const std::vector<S> U = { "a", "$", "`", "\\\\", "\\\"", "'", "!", "$HOME", "`true`", "$(true)", "\\n", "\\t", "%", "%s", "\\x41", "*", "~", "&", "|", ";", "#x", "\\\\n", "é" }; // the last in UTF-8
    auto judge = [&](const S& t) { Doc a, b; parse(a, t); parse(b, t, true); run.state(); run.transition(2); if (!a.ok || !b.ok) { mc::fail(cat("refused: ", a.err, b.err, in(t))); return; } S x = what(a.c), y = what(b.c); if (x != y) mc::fail(cat("preprocessed: ", y, "instead of ", x, in(t))); run.trace(); };
    for (size_t i = 0; i < U.size(); ++i) for (size_t j = 0; j <= U.size(); ++j) { if (j && !mc::thorough() && (i + j) % 3) continue; run.test(cat("string/", i, ".", j), [&] { S s = U[i] + (j ? U[j - 1] : ""); judge(cat("const string K = \"", s, "\"; const wstring L = L\"", s, "\";\nstruct S { int32 a; };")); }); }
    for (const char* c : { "'a'", "'$'", "'\\''", "'\"'", "'\\\\'", "'`'", "'\\n'", "'!'" }) run.test(cat("char/", c), [&] { if (S(c) == "'\"'") return; judge(cat("const char K = ", c, ";\nunion U switch (char) { case ", c, ": int32 a; };")); });
    for (int k = 0; k < 5; ++k) run.test(cat("doc/", k), [&] { judge(S(PRE[k]) + DOCS[k]); });
    run.test("define", [&] { Doc d; parse(d, "#define N 4\n#define T int16\n#if N > 3\nstruct S { T a[N]; };\n#else\nstruct Q { };\n#endif\n", true); run.state(); run.transition(); if (!d.ok) mc::fail(d.err); else if (!d.c.module().has_structure("S") || d.c.module().has_structure("Q") || d.c.module().structure("S").member("a").type().name() != xt::ArrayType(xt::primitive_type<int16_t>(), 4).name()) mc::fail("directives"); run.trace(); });
}
#else
// one parser, many texts: each context gets its own declarations, whatever came before; one context accumulates
SUITE(history)
{
    const std::vector<S> T = { "struct A { int32 a; };", "module M { struct A { int8 b; }; };", "struct A {", "const int32 K = 3; struct B { string<K> s; };", "struct C { UNKNOWN u; };", "module M { module N { enum E { X, Y }; }; union U switch (N::E) { case N::X: int32 a; }; };", "typedef sequence<int32, 3> Q; struct D { Q q; };", "" };
    int max = mc::thorough() ? 4 : 3; std::vector<S> fresh; for (auto& t : T) { Doc d; parse(d, t); fresh.push_back(cat(d.ok, what(d.c))); }
    int all = 1; for (int i = 0; i < max; ++i) all *= 8;
    for (int c = 0; c < all; ++c) run.test(cat("apart/", c), [&] { std::vector<std::unique_ptr<Doc>> d; std::vector<int> k; int x = c; for (int i = 0; i < max; ++i) { k.push_back(x % 8); x /= 8; d.emplace_back(new Doc); parse(*d.back(), T[k.back()]); run.transition(); } for (int i = 0; i < max; ++i) { S w = cat(d[i]->ok, what(d[i]->c)); if (w != fresh[k[i]]) mc::fail(cat("text ", i, " declares ", w, " instead of ", fresh[k[i]])); } run.state(); run.trace(); });
    // parts of one text, in every cut into consecutive calls
    const std::vector<S> P = { "module M { struct A { int32 a; }; };", "module M { struct B : A { int8 b; }; };", "const uint8 K = 4;", "module M { module N { typedef A Q[K]; }; };", "enum E { X, Y }; union U switch (E) { case X: M::N::Q q; default: M::B b; };" };
    S whole; for (auto& p : P) whole += p + "\n"; Doc d; parse(d, whole); S want = what(d.c);
    for (int cut = 0; cut < 16; ++cut) run.test(cat("together/", cut), [&] { Doc q; S part; for (int i = 0; i < 5; ++i) { part += P[i] + "\n"; if (i == 4 || (cut >> i & 1)) { q.ok = false; parse(q, part); run.transition(); if (!q.ok) { mc::fail(cat("refused: ", q.err, in(part))); return; } part.clear(); } } if (what(q.c) != want) mc::fail(cat("other declarations: ", what(q.c), " instead of ", want)); run.state(); run.trace(); });
}
#endif
// options of the context, names that are keywords, what is ignored, files, and names resolved from every module
#ifndef MEMORY
SUITE(keyword)
{
    const std::vector<S> KW = { "const", "module", "sequence", "string", "wstring", "fixed", "union", "struct", "enum", "switch", "case", "default", "native", "typedef", "any", "map", "bitset", "bitfield", "bitmask", "short", "int16", "long", "int32", "int64", "uint16", "uint32", "uint64", "int8", "uint8", "char", "wchar", "boolean", "octet", "float", "double" };
    for (auto& k : KW) for (int form = 0; form < 8; ++form) for (int at = 0; at < 8; ++at) for (int opt = 0; opt < 4; ++opt) run.test(cat(k, "/", form, "/", at, "/", opt), [&]
    {
        S up = k; for (char& c : up) c = char(toupper(c)); S w = form == 0 ? k : form == 1 ? "_" + k : form == 2 ? up : form == 3 ? k + "x" : form == 4 ? "x" + k : form == 5 ? "__" + k : form == 6 ? k + "_" : k + "_1_" + k, name = form == 1 || form == 5 ? w.substr(1) : w;
        S t = at == 0 ? cat("struct ", w, " { int32 a; };") : at == 1 ? cat("struct S { int32 ", w, "; };") : at == 2 ? cat("struct S { int32 a, ", w, "[2]; };") : at == 3 ? cat("union ", w, " switch (int32) { case 1: int32 a; };") : at == 4 ? cat("union U switch (int32) { case 1: int32 ", w, "; };") : at == 5 ? cat("typedef int32 ", w, ";") : at == 6 ? cat("module ", w, " { struct S { int32 a; }; };") : cat("typedef string ", w, "[3];");
        Doc d; d.c.allow_keyword_identifiers = opt & 1; d.c.ignore_case = opt & 2; parse(d, t); run.state(); run.transition();
        bool word = form == 0 || (form == 2 && opt & 2); if (word && !(opt & 1)) { if (d.ok) mc::fail(cat("a keyword is accepted as a name", in(t))); run.trace(); return; }
        if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; } auto& m = d.c.module();
        bool there = at == 0 ? m.has_structure(name) : at == 1 || at == 2 ? m.structure("S").has_member(name) : at == 3 ? m.has_union(name) : at == 4 ? m.union_switch("U").has_member(name) : at == 6 ? m.has_submodule(name) && m.submodule(name)->has_structure("S") : m.has_alias(name);
        if (!there) mc::fail(cat(name, " isn't declared", in(t))); run.trace();
    });
}
SUITE(translation)
{
    // where the characters go: {type, text}
    const std::vector<std::pair<S, S>> P = { { "m", "struct S { TYPE m; };" }, { "m[]", "struct S { TYPE m[3]; };" }, { "seq", "struct S { sequence<TYPE, 4> m; };" }, { "key", "struct S { map<TYPE, int32> m; };" }, { "val", "struct S { map<int32, TYPE> m; };" }, { "alias", "typedef TYPE T; struct S { T m; };" }, { "case", "union S switch (int32) { case 1: TYPE m; };" }, { "deep", "struct S { sequence<sequence<TYPE>> m[2]; };" } };
    for (int ct = 0; ct < 3; ++ct) for (int wt = 0; wt < 2; ++wt) for (int ty = 0; ty < 6; ++ty) for (auto& p : P) run.test(cat(ct, "/", wt, "/", ty, "/", p.first), [&]
    {
        const char* TY[] = { "char", "wchar", "string", "wstring", "string<5>", "wstring<5>" }; S t = p.second; t.replace(t.find("TYPE"), 4, TY[ty]);
        Doc d; d.c.char_translation = xt::idl::Context::CharType(ct); d.c.wchar_type = xt::idl::Context::WideCharType(wt); parse(d, t); run.state(); run.transition(); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; }
        const DynamicType* x = p.first == "case" ? &static_cast<const xt::AggregationType&>(d.c.module().union_switch("S")).member("m").type() : &d.c.module().structure("S").member("m").type();
        for (bool more = true; more;) { if (x->kind() == TypeKind::ALIAS_TYPE) x = &static_cast<const xt::AliasType&>(*x).get(); else if (x->kind() == TypeKind::ARRAY_TYPE || x->kind() == TypeKind::SEQUENCE_TYPE) x = &static_cast<const xt::CollectionType&>(*x).content_type(); else if (x->kind() == TypeKind::MAP_TYPE) { auto& pr = static_cast<const xt::PairType&>(static_cast<const xt::MapType&>(*x).content_type()); x = p.first == "key" ? &pr.first() : &pr.second(); } else more = false; }
        TypeKind k = ty == 0 ? (ct == 0 ? TypeKind::CHAR_8_TYPE : ct == 1 ? TypeKind::UINT_8_TYPE : TypeKind::INT_8_TYPE) : ty == 1 ? (wt ? TypeKind::CHAR_16_TYPE : TypeKind::WIDE_CHAR_TYPE) : ty == 2 || ty == 4 ? TypeKind::STRING_TYPE : wt ? TypeKind::STRING16_TYPE : TypeKind::WSTRING_TYPE;
        if (x->kind() != k) mc::fail(cat("it is a ", x->name(), in(t))); run.trace();
    });
}
SUITE(ignored)
{
    // between, before and within definitions: what the library doesn't represent changes nothing else
    const std::vector<S> D = { "struct A { int32 a; };", "module M { enum E { X, Y }; struct B { E e; sequence<string<3>> s; }; };", "union U switch (M::E) { case M::X: A a; default: M::B b[2]; };", "typedef M::B T;", "const int32 K = 4;", "struct C : A { T t[K]; };" };
    const std::vector<S> I = { "@annotation my { int32 value default 3; };", "@annotation none { };", "bitset BS { bitfield<3> a; bitfield<1, boolean> b; };", "bitmask BM { flag0, @position(3) flag1 };", "native N1;", "struct F1;", "@annotation two { string s; boolean b default TRUE; };", "#pragma x\n", "# 1 \"f.idl\" 2\n", "#ident \\\n \"x\"\n", "// ; {\n", "/* struct Z { }; */" };
    const std::vector<S> A = { "@key ", "@id(3) ", "@range(min = 1, max = 10) ", "@unit(\"m\") ", "@a::b::c ", "@optional @id(1+2) ", "@default('c') ", "@verbatim(language = \"x\", text = \"a b; }\") " };
    auto types = [](Doc& d) { S r; for (auto& x : d.c.get_all_scoped_types()) if (x.first != "F1" && x.first != "N1") // which are empty structs until they are defined
             r += x.first + " " + std::to_string(x.second->memory_size()) + " " + std::to_string(int(x.second->kind())) + "\n"; auto& m = d.c.module(); r += m.structure("C").name() + std::to_string(m.structure("C").members().size()) + m.structure("C").member(0).name() + std::to_string(m.union_switch("U").get_labels("a").size()) + std::to_string(m.constant("K").value<int32_t>()); return r; };
    S all; for (auto& x : D) all += x + "\n"; S base; { Doc d; parse(d, all); if (!d.ok) { run.test("base", [&] { mc::fail(d.err); }); return; } base = types(d); }
    auto judge = [&](const S& t) { Doc d; parse(d, t); run.state(); run.transition(); if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; } S w; try { w = types(d); } catch (const std::exception& e) { w = e.what(); } if (w != base) mc::fail(cat("declares ", w, " instead of ", base, in(t))); run.trace(); };
    for (size_t i = 0; i <= D.size(); ++i) for (size_t a = 0; a < I.size(); ++a) for (size_t b = 0; b <= I.size(); ++b) { if (b && b - 1 == a) continue; run.test(cat("between/", i, "/", a, ".", b), [&] { S t; for (size_t k = 0; k <= D.size(); ++k) { if (k == i) t += I[a] + "\n" + (b ? I[b - 1] + "\n" : ""); if (k < D.size()) t += D[k] + "\n"; } judge(t); }); }
    for (auto& a : A) for (auto& b : A)
    {
        size_t n = 0; for (const char* place : { "struct A", "int32 a", "module M", "enum E", "struct B", "E e", "sequence", "union U", "A a;", "M::B b", "struct C", "T t" }) { ++n; run.test(cat("before/", a, "/", b, "/", n), [&] { S t = all; size_t p = t.find(place); if (p == S::npos) { mc::fail(place); return; } t.insert(p, a); p = t.find("T t["); t.insert(p, b); judge(t); }); }
    }
    for (size_t i = 0; i < D.size(); ++i) for (int n = 0; n < 2; ++n) run.test(cat("forward/", i, "/", n), [&] { S t; for (size_t k = 0; k < D.size(); ++k) { if (k == i) t += n ? "struct C; module M { struct B; };\n" : "struct C;\n"; t += D[k] + "\n"; } if (n && i > 1) return; judge(t); });
}
SUITE(file)
{
    const S dir = std::filesystem::absolute(mc::scratch()).string() + "/c21";
    auto put = [&](const S& n, const S& t) { std::filesystem::create_directories(std::filesystem::path(dir + "/" + n).parent_path()); std::ofstream(dir + "/" + n) << t; return dir + "/" + n; };
    for (int k = 0; k < 5; ++k) for (int pre = 0; pre < 2; ++pre) for (int way = 0; way < 4; ++way) run.test(cat("doc/", k, "/", pre, "/", way), [&]
    {
        S id = cat(getpid(), "-", k, pre, way), t = S(PRE[k]) + DOCS[k]; Doc d, e; parse(d, t); run.state(); run.transition(2); e.c.preprocess = pre; S f = put(id + ".idl", way & 1 ? t + "\n" : t); if (way & 2) e.c.strategy = xt::idl::Context::preprocess_strategy::temporary_file;
        try { if (way == 0) e.ok = parser().parse_file(f, e.c); else if (way == 1) { xt::idl::parse_file(f, e.c); e.ok = e.c.success; } else if (way == 2) e.ok = parser().parse_string(t, e.c); else { xt::idl::parse(t, e.c); e.ok = e.c.success; } } catch (const std::exception& x) { e.err = x.what(); }
        if (!d.ok || !e.ok) mc::fail(cat("refused: ", d.err, e.err, in(t))); else if (what(d.c) != what(e.c)) mc::fail(cat("a file declares ", what(e.c), " instead of ", what(d.c), in(t))); run.trace();
    });
    // #include through each of several directories: the first one that has the file
    for (int has = 0; has < 8; ++has) for (int order = 0; order < 6; ++order) for (int way = 0; way < 3; ++way) run.test(cat("include/", has, "/", order, "/", way), [&]
    {
        S id = cat(getpid(), "i", has, order, way); static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; Doc d; d.c.preprocess = true; S t = "#include \"part.idl\"\n#include <part.idl>\nstruct S { T a; };\n"; std::vector<S> where; int first = -1;
        for (int i : { 0, 1, 2 }) { S n = cat(id, "/d", i); std::filesystem::create_directories(dir + "/" + n); if (has >> i & 1) put(n + "/part.idl", cat("#ifndef PART\n#define PART\ntypedef string<", i + 3, "> T;\n#endif\n")); }
        for (int i : P[order]) { d.c.include_paths.push_back(cat(dir, "/", id, "/d", i)); if (first < 0 && (has >> i & 1)) first = i; }
        run.state(); run.transition(); S f = put(id + "/main.idl", t); if (way == 2) d.c.strategy = xt::idl::Context::preprocess_strategy::temporary_file; try { d.ok = way == 0 ? parser().parse_file(f, d.c) : parser().parse_string(t, d.c); } catch (const std::exception& x) { d.err = x.what(); }
        if (first < 0) { if (d.ok && d.c.module().has_structure("S")) mc::fail("declared without the included file"); run.trace(); return; }
        if (!d.ok) { mc::fail(cat("refused: ", d.err)); return; } auto& x = d.c.module().structure("S").member("a").type(); if (x.kind() != TypeKind::ALIAS_TYPE || static_cast<const xt::StringType&>(static_cast<const xt::AliasType&>(x).rget()).bounds() != size_t(first + 3)) mc::fail("another file was included"); run.trace();
    });
}
// T in every set of modules, named by every path from every module: the nearest module from inside out that has the first name of the path decides
SUITE(scope)
{
    static const int OUTER[] = { -1, 0, 1, 0, 3, 2 }; static const char* NAME[] = { "", "A", "B", "B", "A", "A" }; const int N = 6; // A{B{A}} B{A}
    auto path = [&](int m) { S r; for (; m > 0; m = OUTER[m]) r = S(NAME[m]) + "::" + r; return r; }; auto sub = [&](int m, const S& n) { for (int i = 1; i < N; ++i) if (OUTER[i] == m && n == NAME[i]) return i; return -1; };
    const std::vector<std::vector<S>> Q = { { "T" }, { "A", "T" }, { "B", "T" }, { "A", "B", "T" }, { "B", "A", "T" }, { "A", "A", "T" }, { "A", "B", "A", "T" }, { "", "T" }, { "", "A", "T" }, { "", "B", "T" }, { "", "A", "B", "T" }, { "", "B", "A", "T" }, { "", "A", "B", "A", "T" }, { "", "A", "A", "T" } };
    for (int set = 0; set < 64; ++set) for (int from = 0; from < N; ++from) for (size_t q = 0; q < Q.size(); ++q) for (int kind = 0; kind < 4; ++kind) run.test(cat(set, "/", from, "/", q, "/", kind), [&]
    {
        // every module opened once for its T (or an unrelated symbol) and once more, after all, for the use
        auto wrap = [&](int m, const S& body) { S r = body; for (; m > 0; m = OUTER[m]) r = S("module ") + NAME[m] + " { " + r + " };"; return r + "\n"; };
        S t; for (int m = 0; m < N; ++m) t += wrap(m, cat(!(set >> m & 1) ? cat("typedef int8 other", m, ";") : kind == 1 ? cat("struct T { string<", m + 1, "> s; };") : kind == 3 ? cat("const uint32 T = ", m + 1, ";") : cat("typedef string<", m + 1, "> T;")));
        S name; for (size_t i = 0; i < Q[q].size(); ++i) name += (i ? "::" : "") + Q[q][i];
        t += wrap(from, kind == 2 ? cat("union Use switch (int32) { case 1: sequence<", name, ", 2> m; };") : kind == 3 ? cat("struct Use { string<", name, "> m; };") : cat("struct Use { ", name, " m; };"));
        int found = -1; if (Q[q].size() == 1) { for (int m = from; m >= 0 && found < 0; m = OUTER[m]) if (set >> m & 1) found = m; }
        else { int m = -1; if (Q[q][0].empty()) m = 0; else for (int o = from; o >= 0 && m < 0; o = OUTER[o]) m = sub(o, Q[q][0]); for (size_t i = 1; i + 1 < Q[q].size() && m >= 0; ++i) m = sub(m, Q[q][i]); if (m >= 0 && (set >> m & 1)) found = m; }
        Doc d; parse(d, t); run.state(); run.transition(); if (found < 0) { if (d.ok && d.err.empty() && kind != 3) mc::fail(cat(name, " is accepted", in(t))); run.trace(); return; }
        if (!d.ok) { mc::fail(cat("refused: ", d.err, in(t))); return; } S use = path(from) + "Use"; const DynamicType* x = kind == 2 ? &d.c.module().union_switch(use).member("m").type() : &d.c.module().structure(use).member("m").type(); if (kind == 2) x = &static_cast<const xt::SequenceType&>(*x).content_type();
        if (kind == 1) x = &static_cast<const xt::StructType&>(*x).member("s").type(); else if (x->kind() == TypeKind::ALIAS_TYPE) x = &static_cast<const xt::AliasType&>(*x).rget();
        if (x->kind() != TypeKind::STRING_TYPE || static_cast<const xt::StringType&>(*x).bounds() != size_t(found + 1)) mc::fail(cat(name, " is ", x->name(), static_cast<const xt::StringType&>(*x).bounds(), " instead of that of ", path(found), in(t))); run.trace();
    });
}
// the outcome of each parse is what the context tells, and is the same at every log level
SUITE(outcome)
{
    const std::vector<S> T = { "struct A { int32 a; };", "struct {", "struct B { UNKNOWN u; };", "const int32 K = 3; union U switch (int32) { case K: int32 a; };", "union V switch (int32) { case 1: int32 a; case 1: int32 b; };", "" };
    for (int c = 0; c < 216; ++c) for (int level = 0; level < 4; ++level) run.test(cat(c, "/", level), [&] { xt::idl::Context x; x.preprocess = false; x.ignore_redefinition = true; x.log_level(xt::idl::log::LogLevel(level)); int k = c; for (int i = 0; i < 3; ++i, k /= 6) { bool ok = false; try { ok = parser().parse_string(T[k % 6], x); } catch (const std::exception&) { } run.transition(); bool want = k % 6 == 0 || k % 6 == 3; if (ok != want && i == 0) mc::fail(cat("text ", k % 6, ok ? " accepted" : " refused")); if (ok != x.success) mc::fail(cat("the context tells ", x.success, " after text ", k % 6)); for (auto& e : x.log()) if (e.level > level) mc::fail("a message of another level"); } run.state(); run.trace(); });
}
#endif
MC_MAIN
