// C04: copies and assignments are deep, equal and independent
#include "nav.hpp"
#include "big.hpp"
using namespace m;

using D = std::unique_ptr<DynamicData>;
// holders: a value of type t as a part of something bigger
static T holder(const T& t, int h)
{
    switch (h)
    {
        case 0: return t;
        case 1: return struct_t({ str_t(STR), t, prim_t(U8) });
        case 2: return arr_t(t, 2);
        case 3: return seq_t(t);
        case 4: return map_t(prim_t(U8), t);
        case 5: return union_t(prim_t(I32), { {{1}, str_t(STR)}, {{2, 3}, t} });
        default: return alias_t(t);
    }
}
static const int HOLDERS = 7;
static Val held(const T& t, int h, const Val& v)
{
    Val r; Val p;
    switch (h)
    {
        case 1: r.k = { text("neighbour of the copied member"), v, num(200) }; return r;
        case 2: r.k = { samples(t, 4).back(), v }; return r;
        case 3: r.k = { samples(t, 4).back(), v }; return r;
        case 4: { Val q; p.k = { num(5), v }; q.k = { num(2), samples(t, 4).back() }; r.k = { q, p }; return r; }
        case 5: r.sel = 1; r.n = 3; r.k = { v }; return r;
        default: return v;
    }
}
static WritableDynamicDataRef inside(WritableDynamicDataRef w, int h)
{
    switch (h)
    {
        case 1: return w[1]; case 2: return w[1]; case 3: return w[1];
        case 4: { DynamicData k(xt::primitive_type<uint8_t>()); k = uint8_t(5); return w.at(k); }
        case 5: return w["u1"];
        default: return w;
    }
}
static Val& inside(Val& v, int h)
{
    switch (h) { case 1: case 2: case 3: return v.k[1]; case 4: return v.k[1].k[1]; case 5: return v.k[0]; default: return v; }
}

static const char* METHODS[] = { "DynamicData(const DynamicData&)", "DynamicData(ReadableRef)", "DynamicData(WritableRef&&)", "DynamicData(DynamicData&&)", "DynamicData(ref, type)",
    "data = data", "data = readable", "ref = ref", "data = move(data)", "push", "new key" };
static const int NM = 11;

// after the copy: whatever happens to one side, the other one keeps its value
static void independence(mc::Run& run, const T& t, const Val& a, const std::function<std::pair<D, D>()>& build, const std::function<WritableDynamicDataRef(DynamicData&)>& src, const std::function<WritableDynamicDataRef(DynamicData&)>& dst)
{
    for (auto& x : mutations(t, a))
    {
        for (int side = 0; side < 2; ++side)
        {
            auto p = build();
            WritableDynamicDataRef s = src(*p.first), d = dst(*p.second);
            x.f(side ? d : s);
            MC_CHECK(read((side ? s : d).cref(), t) == a, "modifying the ", side ? "copy" : "source", " (", x.name, ") changed the ", side ? "source" : "copy", " to ", show(t, read((side ? s : d).cref(), t)));
            MC_CHECK(read((side ? d : s).cref(), t) == x.v, "modification ", x.name, " of one side gives ", show(t, read((side ? d : s).cref(), t)));
            run.transition();
        }
    }
    for (int side = 0; side < 2; ++side)
    {
        auto p = build();
        if (side) { p.second.reset(); expect(src(*p.first).cref(), t, a, "source after the destruction of the copy"); }
        else { p.first.reset(); expect(dst(*p.second).cref(), t, a, "copy after the destruction of the source"); }
        run.transition();
    }
}

static void one(mc::Run& run, const T& t, const Val& a, const Val& b, int hs, int hd, int method, bool deep)
{
    // source: value a inside holder hs; target: a new data, or value b inside holder hd
    T st = holder(t, hs), dt = holder(t, hd);
    Val sv = held(t, hs, a), dv = held(t, hd, b);
    bool moved = method == 3;
    auto build = [&]() -> std::pair<D, D>
    {
        D s = make(st, sv), d;
        WritableDynamicDataRef ws = inside(s->ref(), hs);
        switch (method)
        {
            case 0: d = std::make_unique<DynamicData>(static_cast<const DynamicData&>(*s)); break;
            case 1: d = std::make_unique<DynamicData>(ws.cref()); break;
            case 2: d = std::make_unique<DynamicData>(inside(s->ref(), hs)); break;
            case 3: d = std::make_unique<DynamicData>(std::move(*s)); break;
            case 4: d = std::make_unique<DynamicData>(ws.cref(), t->rt()); break;
            case 5: d = make(t, b); *d = static_cast<const DynamicData&>(*s); break;
            case 6: d = make(dt, dv); if (hd == 0) *d = ws.cref(); else inside(d->ref(), hd) = ws; break;
            case 7: d = make(dt, dv); inside(d->ref(), hd) = ws; break;
            case 8: d = make(t, b); *d = std::move(*s); break;
            case 9: { T q = seq_t(t); d = make(q, Val{}); { auto e = make(t, b); d->push(*e); } d->push(ws); break; }
            case 10: { T q = map_t(prim_t(U8), t); d = make(q, held(t, 4, b)); DynamicData k(xt::primitive_type<uint8_t>()); k = uint8_t(9); (*d)[k] = ws; break; }
        }
        return { std::move(s), std::move(d) };
    };
    auto src = [&](DynamicData& x) { return inside(x.ref(), hs); };
    auto dst = [&](DynamicData& x) -> WritableDynamicDataRef
    {
        if (method == 9) return x.ref()[1];
        if (method == 10) { DynamicData k(xt::primitive_type<uint8_t>()); k = uint8_t(9); return x.ref().at(k); }
        if (method == 6 || method == 7) return inside(x.ref(), hd);
        return x.ref();
    };
    {
        auto p = build();
        WritableDynamicDataRef d = dst(*p.second);
        expect(d.cref(), t, a, "result of the copy");
        if (!moved)
        {
            expect(p.first->cref(), st, sv, "source after the copy");
            MC_CHECK(d == src(*p.first) && !(src(*p.first) != d), "the copy is not equal to its source");
            MC_CHECK(d.hash() == src(*p.first).hash(), "the copy has another hash");
            MC_CHECK(d.instance_id() != src(*p.first).instance_id(), "the copy shares the instance");
        }
        else
        {
            // the source remains usable: it can be assigned and destroyed
            *p.first = *p.second; expect(*p.first, t, a, "moved-from data after assigning it again");
        }
        if (method == 6 || method == 7) { Val n = dv; inside(n, hd) = a; expect(p.second->cref(), dt, n, "whole target after the copy"); }
        if (method == 9) { Val n; n.k = { b, a }; expect(p.second->cref(), seq_t(t), n, "sequence after push"); }
        if (method == 10) { Val n = held(t, 4, b); Val e; e.k = { num(9), a }; n.k.push_back(e); sort_map(n); expect(p.second->cref(), map_t(prim_t(U8), t), n, "map after the copy"); }
        run.trace(); run.transition();
    }
    if (deep)
    {
        if (!moved) independence(run, t, a, build, src, dst);
        else
        {
            auto q = build(); q.first.reset(); expect(*q.second, t, a, "target after the destruction of the moved-from data");
            auto r = build(); r.second.reset(); r.first.reset();
            for (auto& x : mutations(t, a)) { auto p = build(); x.f(p.second->ref()); MC_CHECK(read(p.second->cref(), t) == x.v, "modification of the moved data"); *p.first = *p.second; MC_CHECK(read(p.first->cref(), t) == x.v && read(p.second->cref(), t) == x.v, "assignment back"); run.transition(); }
        }
        long l = 0;
        { long n = mc::live_allocs().load(); { auto p = build(); } l = mc::live_allocs().load() - n; }
        if (l) l = mc::leaked([&] { auto p = build(); });
        MC_CHECK(l == 0, "the copy leaves ", l, " allocation(s) behind");
    }
}

SUITE(methods)
{
    for (auto& t : universe(3))
    {
        auto vs = samples(t, 5);
        for (int method = 0; method < NM; ++method) run.test(cat(t->desc, "/", METHODS[method]), [&]
        {
            for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < vs.size(); ++j)
            {
                bool uses_b = method >= 5;
                if (!uses_b && j) continue;
                run.note(cat("source ", show(t, vs[i]), " over ", show(t, vs[j])));
                one(run, t, vs[i], vs[j], 0, 0, method, j == (i + 1) % vs.size() || !uses_b);
                run.state();
            }
        });
    }
}
// from every kind of place into every kind of place
SUITE(places)
{
    std::vector<T> ts = leaves(); { T str = str_t(STR); for (auto& w : wrap(str, prim_t(U8))) ts.push_back(w); for (auto& w : wrap(prim_t(I32), str)) ts.push_back(w); }
    if (mc::thorough()) ts = universe(3);
    for (auto& t : ts)
    {
        auto vs = samples(t, 4);
        for (int hs = 0; hs < HOLDERS; ++hs) run.test(cat(t->desc, "/from ", hs), [&]
        {
            for (int hd = 0; hd < HOLDERS; ++hd) for (int method : { 1, 2, 4, 6, 7, 9, 10 })
            {
                if (method < 6 && hd) continue;
                for (size_t i = 0; i < vs.size(); ++i)
                {
                    run.note(cat("into ", hd, " ", METHODS[method], " ", show(t, vs[i])));
                    one(run, t, vs[i], vs[(i + 1) % vs.size()], hs, hd, method, i + 1 == vs.size());
                    run.state();
                }
            }
        });
    }
}
// assignment to itself, and between parts of the same value
SUITE(self)
{
    for (auto& t : universe(3))
    {
        run.test(t->desc, [&]
        {
            auto vs = samples(t, 5);
            for (auto& v : vs)
            {
                run.note(show(t, v));
                auto d = make(t, v);
                *d = *d; expect(*d, t, v, "data = itself");
                *d = d->cref(); expect(*d, t, v, "data = its readable reference");
                d->ref() = d->ref(); expect(*d, t, v, "reference = itself");
                WritableDynamicDataRef a = d->ref(), b = d->ref(); a = b; expect(*d, t, v, "reference = other reference to the same data");
                *d = std::move(*d); expect(*d, t, v, "data = move(itself)");
                leaves_of(t, v, [&](const Path& p, const T& lt, const Val& lv)
                {
                    reach(d->ref(), t, v, p, 0, [&](WritableDynamicDataRef w)
                    {
                        w = w;
                        if (lt->k == STR) w = w.value<std::string>();
                        if (lt->k == WSTR) w = w.value<std::wstring>();
                        if (lt->k == S16) w = w.value<std::u16string>();
                    });
                    (void)lv;
                    run.transition();
                });
                expect(*d, t, v, "leaves assigned to themselves");
                run.trace();
            }
            // parts of the same value: all (i, j) for elements of arrays and sequences, values of maps, members of structs
            if (vs.size() >= 2) for (int h = 0; h < 4; ++h) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            {
                T ht = h == 0 ? arr_t(t, 3) : h == 1 ? seq_t(t) : h == 2 ? struct_t({t, t, t}) : map_t(prim_t(U8), t);
                Val v;
                for (int n = 0; n < 3; ++n) { Val e = vs[(n + 1) % vs.size()]; if (h < 3) v.k.push_back(e); else { Val p; p.k = { num(n), e }; v.k.push_back(p); } }
                run.note(cat("part ", i, " = part ", j, " of ", ht->desc));
                auto d = make(ht, v);
                auto at = [&](int n) -> WritableDynamicDataRef { if (h < 3) return d->ref()[n]; DynamicData k(xt::primitive_type<uint8_t>()); k = uint8_t(n); return d->ref()[k]; };
                at(i) = at(j);
                if (h < 3) v.k[i] = v.k[j]; else v.k[i].k[1] = v.k[j].k[1];
                expect(*d, ht, v, "value after assigning one part to another");
                DynamicData tmp(at(i)); at(i) = at((j + 1) % 3); at((j + 1) % 3) = tmp.ref();
                int k = (j + 1) % 3;
                if (h < 3) std::swap(v.k[i], v.k[k]); else std::swap(v.k[i].k[1], v.k[k].k[1]);
                expect(*d, ht, v, "value after swapping two parts");
                run.trace(); run.transition(4);
            }
            run.state();
        });
    }
    // a part assigned to the whole: the source disappears with the old content
    T str = str_t(STR);
    for (auto& inner : std::vector<T>{ str, seq_t(str), map_t(prim_t(U8), str), struct_t({str, prim_t(I32)}), union_t(prim_t(I32), { {{1}, str}, {{2}, prim_t(I32)} }) })
        for (int h = 0; h < 3; ++h) run.test(cat("part to whole/", inner->desc, "/", h), [&]
        {
            // one-member struct / alias of it: the whole is compared with its only member, so it can be assigned from it
            T whole = h == 0 ? struct_t({inner}) : h == 1 ? struct_t({struct_t({inner})}) : alias_t(struct_t({inner}));
            for (auto& iv : samples(inner, 5))
            {
                Val v; v.k = { iv }; if (h == 1) { Val w; w.k = { v }; v = w; }
                auto d = make(whole, v); run.note(show(whole, v));
                WritableDynamicDataRef part = h == 1 ? d->ref()[0][0] : d->ref()[0];
                try { *d = part.cref(); } catch (const std::runtime_error&) {}
                expect(*d, whole, v, "whole after assigning its own part");
                try { part = d->ref(); } catch (const std::runtime_error&) {}
                expect(*d, whole, v, "whole after assigning it to its own part");
                run.trace();
            }
        });
}
// sizes around the limits of narrower counters
SUITE(big)
{
    for (auto& b : bigs()) run.test(name(b), [&]
    {
        bool large = b.v.k.size() > 2000, deep = b.t->k == STRUCT && b.t->mem.size() == 2 && b.t->mem[1].t->k == STRUCT;
        for (int m = 0; m < NM; ++m)
        {
            if ((large && !mc::thorough() && m != 0 && m != 4 && m != 5 && m != 9) || (deep && m == 10)) continue;
            run.note(METHODS[m]); one(run, b.t, b.v, defaults(b.t), 0, 0, m, false); if (m == 8 || m == 5) one(run, b.t, defaults(b.t), b.v, 0, 0, m, false);
        }
        D s = make(b.t, b.v); DynamicData c(*s); Val now = b.v;
        for (auto& p : b.spots)
        {
            T lt = leaf_at(b.t, b.v, p);
            Val y = is_str(lt->k) ? cut(lt, text("other")) : num(121); sub(b.t, now, p) = y; reach(c.ref(), b.t, now, p, 0, [&](WritableDynamicDataRef w) { write_leaf(w, lt, y); });
            run.transition();
        }
        expect(*s, b.t, b.v, "source after writes to the copy"); expect(c, b.t, now, "copy after writes"); c = *s; expect(c, b.t, b.v, "copy assigned again"); run.state();
    });
}
MC_MAIN
