// C19: new data is default-valued; a written leaf reads back exactly by every access path and nothing else changes
#include "nav.hpp"
#include "big.hpp"
using namespace m;
using D = std::unique_ptr<DynamicData>;

// every way to store x in the leaf w
static const char* WAYS[] = { "value()", "operator=", "assignment from a data", "assignment from a reference to a part" };
static void store(WritableDynamicDataRef w, const T& t, const Val& x, int way)
{
    auto put = [&](auto native)
    {
        using X = decltype(native);
        switch (way)
        {
            case 0: w.value<X>(native); break;
            case 1: w = native; break;
            case 2: { DynamicData d(t->rt()); d = native; w = d.ref(); break; }
            default: { DynamicData d(xt::StructType("P").add_member("p", xt::primitive_type<uint8_t>()).add_member("q", t->rt())); d["q"] = native; w = d["q"]; break; }
        }
    };
    switch (t->k)
    {
        case STR: put(native_str<char>(x)); break;
        case WSTR: put(native_str<wchar_t>(x)); break;
        case S16: put(native_str<char16_t>(x)); break;
        default: prim(t->k, [&](auto tag) { using X = typename decltype(tag)::type; put(X(x.n)); });
    }
}
static std::vector<Val> inputs(const T& t)
{
    auto r = samples(t, 5);
    if (is_str(t->k) && t->bound) { r.push_back(text("more than the bound allows, by far")); r.push_back(text("abcd")); }
    return r;
}

SUITE(writes)
{
    for (auto& t : universe(3)) for (auto& v : samples(t, 5)) for (int s = 0; s < STYLES; ++s) run.test(cat(t->desc, "/", show(t, v), "/style ", s), [&]
    {
        leaves_of(t, v, [&](const Path& p, const T& lt, const Val&)
        {
            for (int way = 0; way < 4; ++way) for (auto& x : inputs(lt))
            {
                run.note(cat(show_path(p), " by ", WAYS[way], " = ", show(lt, x)));
                D d = make(t, v, s & 1);
                Val want = v; sub(t, want, p) = cut(lt, x);
                reach(d->ref(), t, v, p, s, [&](WritableDynamicDataRef w)
                {
                    store(w, lt, x, way);
                    MC_CHECK(read(w.cref(), lt) == cut(lt, x), "the reference used to write reads ", show(lt, read(w.cref(), lt)));
                });
                expect(*d, t, want, "after the write");
                Val alt = read_alt(*d, t);
                MC_CHECK(alt == want, "other access paths read ", show(t, alt), " instead of ", show(t, want));
                for (int r = 0; r < STYLES; ++r) reach(d->ref(), t, want, p, r, [&](WritableDynamicDataRef w) { MC_CHECK(read(w.cref(), lt) == cut(lt, x), "access style ", r, " reads ", show(lt, read(w.cref(), lt))); });
                run.transition(); run.trace();
            }
        });
        run.state();
    });
}
// writing through the nodes of for_each
SUITE(nodes)
{
    for (auto& t : universe(3)) for (auto& v : samples(t, 5)) run.test(cat(t->desc, "/", show(t, v)), [&]
    {
        leaves_of(t, v, [&](const Path& p, const T& lt, const Val&)
        {
            for (auto& x : inputs(lt))
            {
                run.note(cat(show_path(p), " = ", show(lt, x)));
                D d = make(t, v); size_t id = 0; int found = 0;
                reach(d->ref(), t, v, p, 0, [&](WritableDynamicDataRef w) { id = w.instance_id(); });
                bool done = d->for_each([&](WritableDynamicDataRef::WritableNode& node)
                {
                    if (node.type().memory_size() && node.data().instance_id() == id && node.type().kind() == lt->rt().kind())
                    { ++found; store(node.data(), lt, x, 1); }
                });
                MC_CHECK(done, "for_each was interrupted");
                MC_CHECK(found == 1, "for_each reaches the leaf ", found, " times");
                Val want = v; sub(t, want, p) = cut(lt, x);
                expect(*d, t, want, "after writing through the node");
                run.transition(); run.trace();
            }
        });
        run.state();
    });
}
// every value of the 8- and 16-bit leaves and the boundaries of the bigger ones, in several places
SUITE(leaf_values)
{
    std::vector<T> ls; for (K k : { BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC }) ls.push_back(prim_t(k));
    for (auto& l : ls) for (int h = 0; h < 6; ++h) for (int way = 0; way < 3; ++way) run.test(cat(l->desc, "/", h, "/", WAYS[way]), [&]
    {
        T u8 = prim_t(U8);
        T t = h == 0 ? l : h == 1 ? struct_t({u8, l, u8}) : h == 2 ? arr_t(l, 3) : h == 3 ? seq_t(l) : h == 4 ? map_t(u8, l) : union_t(u8, { {{1}, u8}, {{2}, l} });
        auto hold = [&](const Val& x)
        {
            Val v, p, q; Val zero = num(0);
            switch (h)
            {
                case 0: return x;
                case 1: v.k = { num(255), x, num(129) }; return v;
                case 2: case 3: v.k = { zero, x, zero }; return v;
                case 4: p.k = { num(1), x }; q.k = { num(2), zero }; v.k = { p, q }; return v;
                default: return active(*t, 1, 2, x);
            }
        };
        D d = make(t, hold(num(0)));
        std::vector<real_t> xs;
        prim(l->k, [&](auto tag)
        {
            using X = typename decltype(tag)::type;
            if (sizeof(X) <= 2 && !std::is_floating_point<X>::value) { for (long i = long(std::numeric_limits<X>::lowest()); i <= long(std::numeric_limits<X>::max()); i += (sizeof(X) == 1 || mc::thorough() ? 1 : 7)) xs.push_back(i); xs.push_back(real_t(std::numeric_limits<X>::max())); }
            else if (std::is_floating_point<X>::value) for (real_t e : { 0.0L, 1.0L, -1.0L, 0.5L, real_t(std::numeric_limits<X>::max()), real_t(std::numeric_limits<X>::lowest()), real_t(std::numeric_limits<X>::min()), real_t(std::numeric_limits<X>::denorm_min()), real_t(std::numeric_limits<X>::epsilon()), real_t(std::numeric_limits<X>::infinity()) }) xs.push_back(e);
            else for (int b = 0; b < int(sizeof(X) * 8); ++b) for (int sgn : { 1, -1 }) for (int off : { -1, 0, 1 })
            {
                real_t x = sgn * (real_t(uint64_t(1) << b)) + off;
                if (x >= real_t(std::numeric_limits<X>::lowest()) && x <= real_t(std::numeric_limits<X>::max())) xs.push_back(x);
            }
            return 0;
        });
        Path p = h == 0 ? Path{} : h == 4 || h == 5 ? Path{ 0 } : Path{ 1 };
        for (real_t x : xs)
        {
            reach(d->ref(), t, hold(num(0)), p, 0, [&](WritableDynamicDataRef w) { store(w, l, num(x), way); });
            Val got = read(*d, t);
            if (got != hold(num(x))) fail(cat("storing ", (double)x, " gives ", show(t, got)));
            run.transition();
        }
        run.trace(); run.state();
    });
}
// new data is default-valued, whatever the memory held before
SUITE(defaults)
{
    for (auto& t : universe(3)) run.test(t->desc, [&]
    {
        Val z = defaults(t);
        for (auto& v : samples(t, 5)) { D d = make(t, v); d.reset(); DynamicData n(t->rt()); expect(n, t, z, "new data"); MC_CHECK(read_alt(n, t) == z, "new data by other paths"); run.trace(); }
        // as a new element, map value or newly activated member
        T q = seq_t(t); D s = make(q, Val{}); s->resize(3); Val v; v.k = { z, z, z }; expect(*s, q, v, "resized sequence");
        T mt = map_t(prim_t(U8), t); D mm = make(mt, Val{}); DynamicData key(xt::primitive_type<uint8_t>());
        Val mv; for (int i = 0; i < 4; ++i) { key = uint8_t(i); auto r = (*mm)[key]; expect(r.cref(), t, z, "value of a new key"); Val p; p.k = { num(i), z }; mv.k.push_back(p); }
        expect(*mm, mt, mv, "map of new keys");
        T ut = union_t(prim_t(I32), { {{1}, t}, {{2}, str_t(STR)}, {{3}, t} });
        for (auto& x : samples(t, 5))
        {
            D u = make(ut, active(*ut, 0, 1, x));
            (*u)["u2"]; expect(*u, ut, active(*ut, 2, 3, z), "activated member");
            (*u)["u1"] = std::string("a text that is stored in the heap"); (*u)["u0"]; expect(*u, ut, active(*ut, 0, 1, z), "activated member again");
            run.transition(3);
        }
        run.state(); run.trace();
    });
}
// all chains of one-step modifications from the default value
SUITE(chains)
{
    int depth = mc::thorough() ? 4 : 3;
    std::vector<T> ts = universe(2); { T str = str_t(STR); auto ws = wrap(str, prim_t(U8)); for (auto& c : ws) for (auto& w : { struct_t({c, prim_t(U8), str}), seq_t(c), map_t(prim_t(U8), c, 2), union_t(prim_t(I32), { {{1}, c}, {{2}, str} }) }) ts.push_back(w); }
    for (auto& t : ts) run.test(t->desc, [&]
    {
        size_t budget = mc::thorough() ? 40000 : 4000;
        // breadth first, so that the budget cuts the longest chains only
        struct N { Val v; std::vector<Mut> path; };
        std::vector<N> level{ { defaults(t), {} } };
        for (int dep = 0; dep < depth && budget; ++dep)
        {
            std::vector<N> next; std::set<Val> seen;
            for (auto& n : level)
            {
                for (auto& x : mutations(t, n.v, 2))
                {
                    if (!budget) break; --budget;
                    std::string name; for (auto& y : n.path) name += y.name + "; "; run.note(name + x.name);
                    D d = std::make_unique<DynamicData>(t->rt());
                    for (auto& y : n.path) y.f(d->ref());
                    x.f(d->ref());
                    expect(*d, t, x.v, "after the chain");
                    run.transition();
                    if (seen.insert(x.v).second) { N m{ x.v, n.path }; m.path.push_back(x); next.push_back(m); run.state(); }
                }
            }
            level = next;
        }
        run.trace();
    });
}
// sizes around the limits of narrower counters
SUITE(big)
{
    for (auto& b : bigs()) run.test(name(b), [&]
    {
        D d = make(b.t, b.v, 0); expect(*d, b.t, b.v, "after filling"); bool large = b.v.k.size() > 2000; size_t n = 0;
        { D f = make(b.t, b.v, 1); expect(*f, b.t, b.v, "after filling by index"); if (!large) MC_CHECK(read_alt(*f, b.t) == b.v, "other access paths"); }
        if (b.t->k != UNION) { DynamicData e(b.t->rt()); expect(e, b.t, defaults(b.t), "new data"); }
        Val now = b.v;
        for (auto& p : b.spots) for (int s = 0; s < (large ? 1 : STYLES); ++s)
        {
            T lt = leaf_at(b.t, b.v, p);
            Val x = is_str(lt->k) ? cut(lt, text(cat("new ", n))) : num(real_t(114 + n % 10)); ++n; run.note(cat(show_path(p), " style ", s));
            sub(b.t, now, p) = x; reach(d->ref(), b.t, now, p, s, [&](WritableDynamicDataRef w) { store(w, lt, x, int(n % 4)); MC_CHECK(read(w.cref(), lt) == x, "the reference used to write"); });
            if (!large || mc::thorough() || p == b.spots.back() || b.spots.size() < 4 || n % 4 == 0) expect(*d, b.t, now, "after the write"); run.transition();
        }
        expect(*d, b.t, now, "after all the writes"); run.state(); run.trace();
    });
}
MC_MAIN
