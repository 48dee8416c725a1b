// C16: conversion between UTF-8 and UTF-16 is exact for every text and refuses every malformed one
#include "mc.hpp"
#include <xtypes/xtypes.hpp>
using namespace eprosima; using mc::cat;
namespace xt = eprosima::xtypes;
using U = std::u16string; using S = std::string;

// reference encoding and decoding (Unicode, chapter 3: tables 3-5 to 3-7)
static S enc8(uint32_t c)
{
    S s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
static U enc16(uint32_t c)
{
    if (c < 0x10000) return U(1, char16_t(c));
    U u; u += char16_t(0xD800 + ((c - 0x10000) >> 10)); u += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); return u;
}
static bool dec8(const S& s, std::vector<uint32_t>& out)
{
    auto b = [&](size_t i) { return i < s.size() ? int(uint8_t(s[i])) : -1; };
    auto tail = [&](size_t i, int lo = 0x80, int hi = 0xBF) { return b(i) >= lo && b(i) <= hi; };
    for (size_t i = 0; i < s.size();)
    {
        int c = b(i);
        if (c < 0x80) { out.push_back(c); ++i; }
        else if (c >= 0xC2 && c <= 0xDF) { if (!tail(i + 1)) return false; out.push_back((c & 31) << 6 | (b(i + 1) & 63)); i += 2; }
        else if (c >= 0xE0 && c <= 0xEF)
        {
            if (!tail(i + 1, c == 0xE0 ? 0xA0 : 0x80, c == 0xED ? 0x9F : 0xBF) || !tail(i + 2)) return false;
            out.push_back((c & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63)); i += 3;
        }
        else if (c >= 0xF0 && c <= 0xF4)
        {
            if (!tail(i + 1, c == 0xF0 ? 0x90 : 0x80, c == 0xF4 ? 0x8F : 0xBF) || !tail(i + 2) || !tail(i + 3)) return false;
            out.push_back((c & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63)); i += 4;
        }
        else return false;
    }
    return true;
}
static bool dec16(const U& u, std::vector<uint32_t>& out)
{
    for (size_t i = 0; i < u.size(); ++i)
    {
        uint32_t c = u[i];
        if (c >= 0xD800 && c < 0xDC00) { if (i + 1 >= u.size() || u[i + 1] < 0xDC00 || u[i + 1] > 0xDFFF) return false; out.push_back(0x10000 + ((c - 0xD800) << 10) + (u[++i] - 0xDC00)); }
        else if (c >= 0xDC00 && c < 0xE000) return false;
        else out.push_back(c);
    }
    return true;
}
template<class X> S hex(const X& s) { S r; char b[8]; for (auto c : s) { snprintf(b, 8, "%02X ", unsigned(c) & (sizeof(c) == 1 ? 0xFF : 0xFFFF)); r += b; } return s.size() > 40 ? cat(s.size(), " units: ", r.substr(0, 400)) : r; }

// the converter agrees with the reference on one input
static void check8(const S& s)
{
    std::vector<uint32_t> cp; bool ok = dec8(s, cp);
    U got; bool refused = false;
    try { got = code_conversion_tool<char16_t>(s); } catch (const std::range_error&) { refused = true; }
    MC_CHECK(refused == !ok, "UTF-8 ", hex(s), (ok ? "is refused" : "is malformed but accepted"));
    if (!ok) return;
    U want; for (auto c : cp) want += enc16(c);
    MC_CHECK(got == want, "UTF-8 ", hex(s), "gives ", hex(got));
}
static void check16(const U& u)
{
    std::vector<uint32_t> cp; bool ok = dec16(u, cp);
    S got; bool refused = false;
    try { got = code_conversion_tool<char>(u); } catch (const std::range_error&) { refused = true; }
    MC_CHECK(refused == !ok, "UTF-16 ", hex(u), (ok ? "is refused" : "is malformed but accepted"));
    if (!ok) return;
    S want; for (auto c : cp) want += enc8(c);
    MC_CHECK(got == want, "UTF-16 ", hex(u), "gives ", hex(got));
}
static void check(const std::vector<uint32_t>& cp)
{
    S s; U u; for (auto c : cp) { s += enc8(c); u += enc16(c); }
    check8(s); check16(u);
    U a = code_conversion_tool<char16_t>(std::string_view(s)); S b = code_conversion_tool<char>(std::u16string_view(u));
    MC_CHECK(a == u && b == s && code_conversion_tool<char>(a) == s && code_conversion_tool<char16_t>(b) == u, "round trip of ", hex(s));
}
static const std::vector<uint32_t> REPS { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF };

// every code point, alone, after and before others, and at the end of the internal buffer
SUITE(code_points)
{
    for (uint32_t block = 0; block < 0x110000; block += 0x1000) run.test(cat("block ", block), [&]
    {
        for (uint32_t c = block; c < block + 0x1000; ++c) if (c < 0xD800 || c > 0xDFFF)
        {
            check({ c }); check({ c, 0x42 }); check({ c, c }); check({ 0x20AC, c, 0x10437 });
            run.transition(4);
        }
        for (uint32_t pad : { 61, 62, 63, 64 }) for (uint32_t c = block; c < block + 0x1000; c += mc::thorough() ? 1 : 13) if (c < 0xD800 || c > 0xDFFF)
        { std::vector<uint32_t> v(pad, 'x'); v.push_back(c); v.push_back(c); check(v); run.transition(); }
        run.state(); run.trace();
    });
}
// every length and alignment around the multiples of the buffer
SUITE(lengths)
{
    for (uint32_t fill : REPS) run.test(cat("fill ", fill), [&]
    {
        size_t top = mc::thorough() ? 600 : 200;
        std::vector<uint32_t> v;
        for (size_t n = 0; n <= top; ++n, v.push_back(fill)) for (uint32_t a : REPS) for (uint32_t b : REPS)
        {
            auto w = v; w.push_back(a); w.push_back(b); check(w); run.transition();
            if (a == b) { w = v; w.insert(w.begin(), a); check(w); w.push_back(0x7A); check(w); }
        }
        for (size_t n : { 1000, 4095, 4096, 4097, 100000 }) { check(std::vector<uint32_t>(n, fill)); run.transition(); }
        run.state(); run.trace();
    });
}
SUITE(sequences)
{
    for (uint32_t a : REPS) for (uint32_t pad : { 0, 60, 61, 62, 63, 126 }) run.test(cat("first ", a, " after ", pad), [&]
    {
        size_t n = mc::thorough() ? 5 : 4, total = 1; for (size_t i = 1; i < n; ++i) total *= REPS.size();
        for (size_t k = 0; k < total; ++k)
        {
            std::vector<uint32_t> v(pad, 'p'); v.push_back(a); size_t x = k;
            for (size_t i = 1; i < n; ++i, x /= REPS.size()) v.push_back(REPS[x % REPS.size()]);
            check(v); run.transition();
        }
        run.state(); run.trace();
    });
}
// malformed UTF-8: all strings of up to 3 bytes, and of 4 and 5 over the classes of bytes, at several alignments
static const std::vector<int> BYTES { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF };
SUITE(bytes)
{
    for (int a = 0; a < 256; ++a) run.test(cat("first byte ", a), [&]
    {
        check8(S(1, char(a)));
        for (int b = 0; b < 256; ++b)
        {
            S s{ char(a), char(b) }; check8(s); run.transition();
            if (mc::thorough()) for (int c = 0; c < 256; ++c) { check8(s + char(c)); run.transition(); }
            else for (int c : BYTES) { check8(s + char(c)); run.transition(); }
        }
        run.state(); run.trace();
    });
    for (int a : BYTES) run.test(cat("classes ", a), [&]
    {
        for (int b : BYTES) for (int c : BYTES) for (int d : BYTES)
        {
            S s{ char(a), char(b), char(c), char(d) };
            check8(s); run.transition();
            if (mc::thorough()) for (int e : BYTES) { check8(s + char(e)); run.transition(); }
        }
        run.state(); run.trace();
    });
    for (int a : BYTES) for (int pad : { 1, 59, 60, 61, 62, 63, 64, 125, 126, 127, 128 }) run.test(cat("after ", pad, "/", a), [&]
    {
        S p(pad, 'p');
        check8(p + char(a)); check8(p + char(a) + "z");
        for (int b : BYTES) for (int c : BYTES)
        {
            S s = p + char(a) + char(b); check8(s); check8(s + char(c)); check8(s + char(c) + "tail"); run.transition(3);
            if (mc::thorough()) for (int d : BYTES) { check8(s + char(c) + char(d)); run.transition(); }
        }
        // cut at every place
        S w = p; for (auto c : REPS) w += enc8(c);
        for (size_t n = pad; n <= w.size(); ++n) { check8(w.substr(0, n)); check8(w.substr(n)); check8(w.substr(0, n) + char(a)); run.transition(3); }
        run.state(); run.trace();
    });
}
static const std::vector<int> UNITS { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF };
SUITE(units)
{
    for (int a = 0; a < 0x10000; a += 0x100) run.test(cat("units from ", a), [&]
    {
        for (int x = a; x < a + 0x100; ++x)
        {
            U u(1, char16_t(x)); check16(u); run.transition();
            for (int y : UNITS) { check16(u + char16_t(y)); check16(U(1, char16_t(y)) + u); check16(U(63, u'p') + u + char16_t(y)); check16(U(61, u'p') + char16_t(y) + u); run.transition(4); }
        }
        run.state(); run.trace();
    });
    for (int a : UNITS) for (int pad : { 0, 1, 15, 16, 20, 21, 31, 32, 62, 63, 64, 127 }) run.test(cat("sequences after ", pad, "/", a), [&]
    {
        for (char16_t fill : { u'p', u'\u20AC' })
        {
            U p(pad, fill);
            for (int b : UNITS) for (int c : UNITS) for (int d : UNITS)
            {
                check16(p + char16_t(a) + char16_t(b) + char16_t(c)); check16(p + char16_t(a) + char16_t(b) + char16_t(c) + char16_t(d)); run.transition(2);
                if (mc::thorough()) for (int e : UNITS) { check16(p + char16_t(a) + char16_t(b) + char16_t(c) + char16_t(d) + char16_t(e)); run.transition(); }
            }
        }
        run.state(); run.trace();
    });
}
// every pair of surrogates
SUITE(surrogates)
{
    for (int hi = 0xD800; hi < 0xDC00; hi += 16) run.test(cat("high from ", hi), [&]
    {
        for (int h = hi; h < hi + 16; ++h) for (int l = 0xDC00; l < 0xE000; l += mc::thorough() ? 1 : 7) { check16({ char16_t(h), char16_t(l) }); check16({ char16_t(l), char16_t(h) }); run.transition(2); }
        run.state(); run.trace();
    });
}
// where the library itself converts: the text of wide and 16-bit contents, and textual labels
SUITE(uses)
{
    auto last = [](const S& text) { size_t p = text.rfind(">  "); MC_CHECK(p != S::npos && text.back() == '\n', "unexpected text ", text); return text.substr(p + 3, text.size() - p - 4); };
    for (uint32_t block = 0; block < 0x110000; block += 0x4000) run.test(cat("to_string/block ", block), [&]
    {
        xt::DynamicData s16(xt::StructType("S").add_member("x", xt::StringType()).add_member("s", xt::String16Type())), ws(xt::WStringType(0)), wc(xt::primitive_type<wchar_t>()), c16(xt::primitive_type<char16_t>());
        for (uint32_t c = block; c < block + 0x4000; c += c < 0x1000 || mc::thorough() ? 1 : 5) if (c < 0xD800 || c > 0xDFFF)
        {
            U u = U(60, u'x') + enc16(c) + U(5, u'y') + enc16(c); s16["s"] = u;
            S want = S(60, 'x') + enc8(c) + S(5, 'y') + enc8(c);
            MC_CHECK(last(s16.to_string()) == want, "16-bit string with ", c);
            ws = std::wstring(62, L'x') + wchar_t(c) + L'y' + wchar_t(c);
            MC_CHECK(last(ws.to_string()) == S(62, 'x') + enc8(c) + 'y' + enc8(c), "wide string with ", c, ": ", hex(last(ws.to_string())));
            wc = wchar_t(c); MC_CHECK(last(wc.to_string()) == enc8(c), "wide character ", c);
            if (c < 0x10000) { c16 = char16_t(c); MC_CHECK(last(c16.to_string()) == enc8(c), "16-bit character ", c); }
            run.transition(4);
        }
        run.state(); run.trace();
    });
    for (bool wide : { false, true }) for (uint32_t block = 0; block < 0x10000; block += 0x1000) run.test(cat("labels/", wide, "/", block), [&]
    {
        for (uint32_t c = block + (block ? 0 : 1); c < block + 0x1000; c += 3) if ((c < 0xD800 || c > 0xDFFF) && c != 0x27 && c > 0x7F && c != 0x7FFF)
        {
            xt::UnionType u("U", wide ? static_cast<const xt::DynamicType&>(xt::primitive_type<wchar_t>()) : xt::primitive_type<char16_t>());
            u.add_case_member(std::vector<S>{ "'" + enc8(c) + "'" }, xt::Member("a", xt::primitive_type<uint8_t>()));
            MC_CHECK(u.get_labels("a") == std::vector<int64_t>{ int64_t(c) }, "the label '", enc8(c), "' became ", u.get_labels("a").empty() ? -1 : u.get_labels("a")[0]);
            run.transition();
        }
        run.state(); run.trace();
    });
}
MC_MAIN
