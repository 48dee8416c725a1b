// C17: reading never modifies shared data or types.
// Part 1 (without -DTHREADS): the storage of the types, of the data and of everything they own is mapped read-only
// while every operation of the read-only interface runs; any write to it is trapped, except the atomic updates of
// reference counts. The static storage of the program is compared before and after.
// Part 2 (-DTHREADS, ThreadSanitizer): two threads run all those operations over the same data at the same time.
// As no operation writes to what is shared, all interleavings of them are equivalent.
#include <setjmp.h>
#include <sys/single_threaded.h>
#include <sys/ucontext.h>
#include <thread>
#include "compat.hpp"
using namespace m;

// ---- the arena ---------------------------------------------------------------------------------------
namespace arena {
static const size_t SIZE = size_t(48) << 20;
// outside of the static storage of the program, which is compared
struct State { size_t used; bool on, locked, freed; volatile sig_atomic_t counts, armed; sigjmp_buf back; char* copy; };
static char* page(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (char*)p; }
static char* base() { static char* p = page(SIZE); return p; }
static State& st() { static State* s = (State*)page(sizeof(State)); return *s; }
static bool inside(const void* p) { return (const char*)p >= base() && (const char*)p < base() + SIZE; }
static void* alloc(size_t n)
{
    n = (n + 31) & ~size_t(15);     // never two objects back to back
    if (st().used + n > SIZE) abort();
    void* p = base() + st().used; st().used += n; return p;
}
static size_t pages() { return (st().used + 4096) & ~size_t(4095); }
static void lock() { st().locked = true; mprotect(base(), pages(), PROT_READ); }
static void unlock() { mprotect(base(), pages(), PROT_READ | PROT_WRITE); st().locked = false; }
struct On { bool was = st().on; On() { st().on = true; } ~On() { st().on = was; } };
}
#ifndef THREADS
void* operator new(size_t n) { if (arena::st().on) return arena::alloc(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (arena::inside(p)) { if (arena::st().locked) arena::st().freed = true; } else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// a locked instruction (reference counts) is let through and single-stepped; any other write is the violation
static bool locked_instruction(const uint8_t* p)
{
    for (int i = 0; i < 8; ++i, ++p) { if (*p == 0xF0) return true; if (*p == 0x66 || *p == 0x67 || *p == 0x2E || *p == 0x3E || *p == 0x26 || *p == 0x36 || *p == 0x64 || *p == 0x65 || *p == 0xF2 || *p == 0xF3) continue; return false; }
    return false;
}
static void on_segv(int, siginfo_t* si, void* c)
{
    auto* u = (ucontext_t*)c; auto& regs = u->uc_mcontext.gregs;
    if (!arena::st().locked || !arena::inside(si->si_addr)) { signal(SIGSEGV, SIG_DFL); return; }
    if (locked_instruction((const uint8_t*)regs[REG_RIP]))
    {
        mprotect(arena::base(), arena::pages(), PROT_READ | PROT_WRITE); regs[REG_EFL] |= 0x100; arena::st().counts = arena::st().counts + 1; return;
    }
    if (arena::st().armed) siglongjmp(arena::st().back, 1);
    signal(SIGSEGV, SIG_DFL);
}
static void on_trap(int, siginfo_t*, void* c) { mprotect(arena::base(), arena::pages(), PROT_READ); ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; }
static void install()
{
    static bool done = false; if (done) return; done = true;
    __libc_single_threaded = 0;     // reference counts as in a program with threads
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_flags = SA_SIGINFO | SA_NODEFER; a.sa_sigaction = on_segv; sigaction(SIGSEGV, &a, nullptr); a.sa_sigaction = on_trap; sigaction(SIGTRAP, &a, nullptr);
}
extern "C" { extern char __data_start, _edata, __bss_start, _end; }
#else
static void install() {}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1 exitcode=66 report_signal_unsafe=0 history_size=4"; }
#endif

// ---- the operations ----------------------------------------------------------------------------------
using Ops = std::vector<std::pair<std::string, std::function<std::string()>>>;
template<class X> struct NTag { using type = X; };
template<class F> static void natives(F f)
{
    f(NTag<bool>()); f(NTag<int8_t>()); f(NTag<uint8_t>()); f(NTag<int16_t>()); f(NTag<uint16_t>()); f(NTag<int32_t>()); f(NTag<uint32_t>()); f(NTag<int64_t>()); f(NTag<uint64_t>());
    f(NTag<float>()); f(NTag<double>()); f(NTag<long double>()); f(NTag<char>()); f(NTag<char16_t>()); f(NTag<wchar_t>()); f(NTag<std::string>()); f(NTag<std::wstring>()); f(NTag<std::u16string>());
}
// what an operation gives, as a text; a refusal is a result
template<class F> static std::string outcome(F f) { try { std::ostringstream os; f(os); return os.str(); } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { return std::string("refused: ") + e.what(); } }
template<class X> static void put(std::ostream& os, const X& x) { if constexpr (std::is_arithmetic<X>::value) os << (long double)x << ' '; else { for (auto c : x) os << uint32_t(c) << ','; os << ' '; } }

struct Other { T t; const DynamicData* d; };
static std::string text_of(const ReadableDynamicDataRef& r, const T& t) { return show(t, read(r, t)); }

// operations on one node of the data
static void node_ops(Ops& o, const std::string& at, const ReadableDynamicDataRef& r, const T& t0, const Val& v, const ReadableDynamicDataRef& twin, const std::vector<Other>& others)
{
    const T t = rget(t0);
    auto op = [&](const std::string& n, auto f) { o.emplace_back(n + " at " + at, [f] { return outcome(f); }); };
    op("read", [=](std::ostream& os) { os << text_of(r, t); });
    op("read_alt", [=](std::ostream& os) { os << show(t, read_alt(r, t)); });
    op("size", [=](std::ostream& os) { os << r.size(); });
    op("bounds", [=](std::ostream& os) { os << r.bounds(); });
    op("hash", [=](std::ostream& os) { os << r.hash(); });
    op("type", [=](std::ostream& os) { os << r.type().name() << int(r.type().kind()) << r.type().is_primitive_type() << r.type().is_constructed_type() << (r.instance_id() != 0); });
    op("== itself", [=](std::ostream& os) { os << (r == r) << (r != r); });
    op("== twin", [=](std::ostream& os) { os << (r == twin) << (r != twin) << (twin == r); });
    op("copies", [=](std::ostream& os) { ReadableDynamicDataRef a(r); ReadableDynamicDataRef b(std::move(a)); os << b.hash(); });
    op("to_string", [=](std::ostream& os) { os << r.to_string(); });
    op("ostream", [=](std::ostream& os) { DynamicData c(r); os << c; });
    op("for_each", [=](std::ostream& os) { r.for_each([&](const ReadableDynamicDataRef::ReadableNode& n) { os << n.deep() << n.from_index() << (n.from_member() ? n.from_member()->name() : "") << n.data().hash() << n.type().name() << (n.has_parent() ? n.parent().deep() : 0) << ' '; }); });
    op("stopped for_each", [=](std::ostream& os) { int n = 0; os << r.for_each([&](const ReadableDynamicDataRef::ReadableNode&) { if (n++ == 1) throw false; }); });
    op("items", [=](std::ostream& os) { for (ReadableDynamicDataRef::MemberPair p : r.items()) { os << p.member().name() << int(p.kind()) << p.member().offset() << ' '; if (t->k == STRUCT) os << p.data().hash(); } });
    op("iteration", [=](std::ostream& os) { for (ReadableDynamicDataRef e : r) os << e.hash() << ' '; auto it = r.begin(); if (it != r.end()) { auto c = it++; auto e = *c; os << e.hash() << (c == it); ++c; os << (c == it); c = it; } });
    for (uint64_t i : { uint64_t(0), uint64_t(1), uint64_t(v.k.size()), ~uint64_t(0) }) op(cat("[", i, "]"), [=](std::ostream& os) { auto c = r[i]; os << c.hash(); });
    op("[-1]", [=](std::ostream& os) { auto c = r[-1]; os << c.hash(); });
    std::vector<std::string> names{ "no such member", "", "discriminator" }; for (auto& x : t->mem) names.push_back(x.name);
    for (auto& n : names) op("[" + n + "]", [=](std::ostream& os) { auto c = r[n]; os << c.hash(); auto e = r[n.c_str()]; os << e.hash(); });
    op("d()", [=](std::ostream& os) { os << r.d().hash() << read(r.d(), t->a).n; });
    op("current_case", [=](std::ostream& os) { os << r.current_case().name(); });
    natives([&](auto tag)
    {
        using X = typename decltype(tag)::type;
        op("value<X>", [=](std::ostream& os) { put(os, r.value<X>()); });
        op("conversion to X", [=](std::ostream& os) { X x = r; put(os, x); });
        if constexpr (!std::is_same<X, bool>::value) op("as_vector<X>", [=](std::ostream& os) { for (auto& x : r.as_vector<X>()) put(os, x); });
        if constexpr (std::is_arithmetic<X>::value) if (t->k != F32 && t->k != F64 && t->k != F128) op("cast<X>", [=](std::ostream& os) { put(os, r.cast<X>()); });
    });
    op("cast<string>", [=](std::ostream& os) { os << r.cast<std::string>(); });
    op("DynamicData(ref)", [=](std::ostream& os) { DynamicData c(r); os << text_of(c, t) << (c == r); DynamicData b(c); b = r; os << (b == c); });
    op("DynamicData(ref, its type)", [=](std::ostream& os) { DynamicData c(r, r.type()); os << text_of(c, t); });
    op("assigned from", [=](std::ostream& os) { DynamicData c(r.type()); c = r; os << text_of(c, t); DynamicData b(r.type()); b.ref() = c.ref(); os << b.hash(); });
    op("pushed", [=](std::ostream& os) { DynamicData s{ xt::SequenceType(r.type()) }; s.push(r); s.push(r); os << s.hash() << s.size(); });
    op("stored in", [=](std::ostream& os) { xt::StructType st("S"); st.add_member("a", r.type()); st.add_member("b", r.type()); DynamicData s(st); DynamicData c(r); s["a"] = c.ref(); s[1] = c.ref(); os << s.hash() << (s["a"] == s["b"]); });
    op("used as key", [=](std::ostream& os) { DynamicData mp{ xt::MapType(r.type(), r.type()) }; DynamicData k(r); mp[r] = k.ref(); os << mp.has_key(k) << mp.size() << mp.hash(); auto c = mp.cref(); auto got = c.at(r); os << got.hash(); });
    if (t->k == MAP)
    {
        for (auto& key : distinct(t->a, 5)) { std::shared_ptr<DynamicData> k = make(t->a, key); op("at(" + show(t->a, key) + ")", [=](std::ostream& os) { auto c = r.at(*k); os << c.hash(); }); }
    }
    else op("at()", [=](std::ostream& os) { auto c = r.at(r); os << c.hash(); });
    for (auto& x : others)
    {
        T xt_ = x.t; const DynamicData* xd = x.d; unsigned c = compat(t, x.t), b = compat(x.t, t);
        op("is_compatible " + x.t->desc, [=](std::ostream& os) { os << unsigned(r.type().is_compatible(xd->type())) << ' ' << unsigned(xd->type().is_compatible(r.type())); });
        if (x.t->k != E8 && x.t->k != E16 && x.t->k != E32 && !(is_num(x.t->k) && t->k == F128) ) { bool fp = t->k == F32 || t->k == F64 || t->k == F128; if (!fp) op("converted to " + x.t->desc, [=](std::ostream& os) { if (b == NONE) { try { DynamicData y(r, xd->type()); os << "not refused"; } catch (const std::exception& e) { os << "refused"; } } else { DynamicData y(r, xd->type()); os << y.hash(); } }); }
        op("assigned to " + x.t->desc, [=](std::ostream& os) { DynamicData y(xd->type()); y = r; os << y.hash(); });
        (void)c;
    }
}
static void all_nodes(Ops& o, const std::string& at, const ReadableDynamicDataRef& r, const T& t0, const Val& v, const ReadableDynamicDataRef& twin, const std::vector<Other>& others, int depth)
{
    const T t = rget(t0); node_ops(o, at, r, t, v, twin, depth == 0 ? others : std::vector<Other>());
    switch (t->k)
    {
        case STRUCT: for (size_t i = 0; i < v.k.size(); ++i) all_nodes(o, cat(at, ".", t->mem[i].name), r[i], t->mem[i].t, v.k[i], twin[i], others, depth + 1); break;
        case SEQ: case ARR: if (!v.k.empty()) { size_t i = v.k.size() - 1; all_nodes(o, cat(at, "[", i, "]"), r[i], t->a, v.k[i], twin[i], others, depth + 1); } break;
        case MAP: if (!v.k.empty()) { auto key = make(t->a, v.k[0].k[0]); all_nodes(o, at + "[key]", r.at(*key), t->b, v.k[0].k[1], twin.at(*key), others, depth + 1);
            for (ReadableDynamicDataRef p : r) { o.emplace_back("pair at " + at, [p] { return outcome([&](std::ostream& os) { auto a = p[0]; auto b = p[1]; os << p.hash() << p.size() << a.hash() << b.hash() << p.to_string() << (p == p); DynamicData c(p); os << c.hash(); auto z = p[2]; }); }); break; } } break;
        case UNION: if (v.sel >= 0) all_nodes(o, at + "." + t->mem[v.sel].name, r[t->mem[v.sel].name], t->mem[v.sel].t, v.k[0], twin[t->mem[v.sel].name], others, depth + 1); break;
        default: break;
    }
}
// whole data
static void data_ops(Ops& o, const DynamicData& d, const DynamicData& e, const T& t0)
{
    const T t = rget(t0); const DynamicData *p = &d, *q = &e;
    auto op = [&](const std::string& n, auto f) { o.emplace_back(n, [f] { return outcome(f); }); };
    op("cref", [=](std::ostream& os) { os << p->cref().hash(); });
    op("copy", [=](std::ostream& os) { DynamicData c(*p); os << (c == *p) << (*p == c) << (c != *p) << text_of(c, t); DynamicData b(c); b = *p; DynamicData x(std::move(b)); os << (x == *p); });
    op("sequential copies", [=](std::ostream& os) { std::vector<DynamicData> k(3, *p); os << (k[0] == k[2]); k.push_back(*q); k.insert(k.begin(), *p); os << k[3].hash(); });
    op("comparison", [=](std::ostream& os) { os << (*p == *q) << (*q == *p) << (*p != *q); });
    if (is_num(t->k) || is_str(t->k))
    {
        op("+", [=](std::ostream& os) { os << (*p + *q).hash(); });
        if (is_num(t->k) && t->k != BOOL) { op("*", [=](std::ostream& os) { os << (*p * *p).hash(); }); op("-", [=](std::ostream& os) { os << (*p - *p).hash(); }); op("unary -", [=](std::ostream& os) { os << (-*p).hash(); }); }
        op("~", [=](std::ostream& os) { os << (~*p).hash(); }); op("!", [=](std::ostream& os) { os << !*p; });
        op("<", [=](std::ostream& os) { os << (*p < *q); }); op(">", [=](std::ostream& os) { os << (*p > *q); }); op("<=", [=](std::ostream& os) { os << (*p <= *q); }); op(">=", [=](std::ostream& os) { os << (*p >= *q); });
        op("&&", [=](std::ostream& os) { os << (*p && *q); }); op("||", [=](std::ostream& os) { os << (*p || *q); });
        op("&", [=](std::ostream& os) { os << (*p & *q).hash(); }); op("|", [=](std::ostream& os) { os << (*p | *q).hash(); }); op("^", [=](std::ostream& os) { os << (*p ^ *q).hash(); });
        op("refused /", [=](std::ostream& os) { if (is_str(t->k)) os << (*p / *q).hash(); });
        op("op= of another", [=](std::ostream& os) { DynamicData c(p->type()); c += *p; c |= *p; os << c.hash(); });
    }
    else { op("+", [=](std::ostream& os) { os << (*p + *q).hash(); }); op("<", [=](std::ostream& os) { os << (*p < *q); }); op("!", [=](std::ostream& os) { os << !*p; }); }
    if (t->k == MAP) for (auto& key : distinct(t->a, 4)) { std::shared_ptr<DynamicData> k = make(t->a, key); op("insert into a copy", [=](std::ostream& os) { DynamicData c(*p); (void)c[*k]; os << c.size() << c.has_key(*k) << p->size(); }); }
    if (t->k == SEQ) op("push to a copy", [=](std::ostream& os) { DynamicData c(*p); DynamicData x(t->a->rt()); c.push(x); os << c.size() << p->size(); });
}
// types
static void type_ops(Ops& o, const DynamicType& ty, const DynamicType& same, const T& t)
{
    const DynamicType *p = &ty, *q = &same;
    auto op = [&](const std::string& n, auto f) { o.emplace_back("type: " + n, [f] { return outcome(f); }); };
    op("queries", [=](std::ostream& os) { os << p->name() << int(p->kind()) << p->memory_size() << p->is_aggregation_type() << p->is_collection_type() << p->is_constructed_type() << p->is_enumerated_type() << p->is_primitive_type() << p->has_unique_representation(); });
    op("is_compatible", [=](std::ostream& os) { os << unsigned(p->is_compatible(*q)) << unsigned(q->is_compatible(*p)) << unsigned(p->is_compatible(*p)); });
    op("for_each", [=](std::ostream& os) { os << p->for_each([&](const DynamicType::TypeNode& n) { os << n.deep() << n.from_index() << n.type().name() << (n.from_member() ? n.from_member()->name() : "") << (n.has_parent() ? n.parent().type().name() : ""); }); });
    op("new data", [=](std::ostream& os) { DynamicData a(*p), b(*p); os << a.hash() << (a == b); fill(a.ref(), t, samples(t, 3).back(), 0); b = a; os << a.hash() << (a == b); });
    op("modified data", [=](std::ostream& os) { for (auto& v : samples(t, 4)) for (int s = 0; s < 2; ++s) { DynamicData a(*p); fill(a.ref(), t, v, s); os << text_of(a, t); size_t n = 0; for (auto& x : mutations(t, v)) { if (++n > 8) break; DynamicData b(a); x.f(b.ref()); os << b.hash(); } } });
    op("Ptr", [=](std::ostream& os) { DynamicType::Ptr a(*p), b(a), c; c = b; os << c->name() << (a == a); DynamicType::Ptr d(std::move(c)); os << d->memory_size(); });
    op("composed", [=](std::ostream& os)
    {
        xt::SequenceType s(*p, 3); xt::ArrayType a(*p, 2); xt::MapType mp(*p, *p); xt::AliasType al(*p, "alias"); xt::StructType st("st"); st.add_member("a", *p); st.add_member(xt::Member("b", *p)); xt::UnionType un("un", xt::primitive_type<int32_t>());
        un.add_case_member<int32_t>({ 1 }, "a", *p); os << s.name() << a.name() << mp.name() << al.rget().name() << st.memory_size() << un.memory_size();
        DynamicData x(s), y(a), z(mp), w(al), u(st), n(un); os << x.hash() << y.hash() << z.hash() << w.hash() << u.hash();
    });
    K k = t->k;
    if (k == STRUCT || k == UNION)
    {
        auto* g = static_cast<const xt::AggregationType*>(p);
        op("members", [=](std::ostream& os) { for (auto& x : g->members()) os << x.name() << x.offset() << x.type().name() << x.is_optional() << x.is_key() << x.get_id() << (g->has_member(x.name())) << (&g->member(x.name()) == &x); os << g->has_member("none") << g->has_parent(); });
        op("member(name)", [=](std::ostream& os) { os << g->member("none").name(); });
        op("member(index)", [=](std::ostream& os) { os << g->member(size_t(0)).name() << g->member(g->members().size() - 1).name(); });
        op("copied", [=](std::ostream& os) { if (k == STRUCT) { xt::StructType c(static_cast<const xt::StructType&>(*p)); c.add_member("extra", xt::primitive_type<bool>()); os << c.members().size() << g->members().size(); xt::StructType e("child", &static_cast<const xt::StructType&>(*p)); e.add_member("own", xt::primitive_type<bool>()); os << e.members().size() << e.parent().name(); c.name("renamed"); os << g->name(); }
                 else { xt::UnionType c(static_cast<const xt::UnionType&>(*p)); c.add_case_member<int64_t>({ 100 }, "extra", xt::primitive_type<bool>()); os << c.members().size() << g->members().size(); } });
    }
    if (k == UNION)
    {
        auto* u = static_cast<const xt::UnionType*>(p);
        op("cases", [=](std::ostream& os) { for (auto& n : u->get_case_members()) { os << n << u->is_default(n); for (auto l : u->get_labels(n)) os << l << ','; } os << u->discriminator().name(); });
        op("labels of none", [=](std::ostream& os) { os << u->get_labels("none").size() << u->is_default("none"); });
    }
    if (is_enum(k)) prim(k, [&](auto tag)
    {
        using X = typename decltype(tag)::type;
        if constexpr (std::is_same<X, uint8_t>::value || std::is_same<X, uint16_t>::value || std::is_same<X, uint32_t>::value)
        {
            auto* e = static_cast<const xt::EnumerationType<X>*>(p);
            op("enumerators", [=](std::ostream& os) { for (auto& x : e->enumerators()) os << x.first << uint64_t(x.second) << uint64_t(e->value(x.first)) << e->enumerator(x.second) << e->has_enumerator(x.first); os << e->has_enumerator("none"); });
            op("value(none)", [=](std::ostream& os) { os << uint64_t(e->value("none")); }); op("enumerator(77)", [=](std::ostream& os) { os << e->enumerator(X(77)); });
        }
        return 0;
    });
    if (k == SEQ || k == ARR || k == MAP) op("content", [=](std::ostream& os) { auto* c = static_cast<const xt::CollectionType*>(p); os << c->content_type().name(); if (k == ARR) os << static_cast<const xt::ArrayType*>(p)->dimension(); else os << static_cast<const xt::MutableCollectionType*>(p)->bounds(); });
    if (is_str(k)) op("bounds", [=](std::ostream& os) { os << static_cast<const xt::MutableCollectionType*>(p)->bounds(); });
    if (k == ALIAS) op("alias", [=](std::ostream& os) { auto* a = static_cast<const xt::AliasType*>(p); os << a->get().name() << a->rget().name() << (**a).name() << (*a)->name(); });
}

// ---- the runs ----------------------------------------------------------------------------------------
// everything one case shares: made inside the arena
struct Shared
{
    std::unique_ptr<DynamicData> d, twin, other; std::vector<std::unique_ptr<DynamicData>> od; std::vector<Other> others; DynamicType::Ptr type, same; const ReadableDynamicDataRef* ref = nullptr;
};
static std::vector<T> partners()
{
    T str = str_t(STR), u8 = prim_t(U8);
    return { u8, prim_t(I32), prim_t(F64), str, str_t(STR, 2), str_t(WSTR), enum_t(E16), seq_t(str), seq_t(prim_t(I32), 2), arr_t(str, 2), map_t(u8, str), struct_t({ str, u8 }), struct_t({ str }), union_t(prim_t(I32), { {{1, 2}, str}, {{3}, u8} }), alias_t(str) };
}
static Shared* share(const T& t, const Val& v, const std::vector<T>& ps, int style)
{
    auto* s = new Shared(); auto w = samples(t, 3).back();
    s->type = DynamicType::Ptr(t->rt()); s->same = DynamicType::Ptr(t->rt());
    s->d = std::make_unique<DynamicData>(*s->type); if (style != 2) fill(s->d->ref(), t, v, style); s->twin = std::make_unique<DynamicData>(*s->same); fill(s->twin->ref(), t, v, style == 0); s->other = make(t, w, style & 1);
    for (auto& p : ps) { s->od.push_back(make(p, samples(p, 3).back())); s->others.push_back({ p, s->od.back().get() }); }
    s->ref = new ReadableDynamicDataRef(s->d->cref());
    return s;
}
static Ops operations(const Shared& s, const T& t, const Val& v)
{
    Ops o; all_nodes(o, "", *s.ref, t, v, s.twin->cref(), s.others, 0); data_ops(o, *s.d, *s.other, t); data_ops(o, *s.d, *s.twin, t); type_ops(o, *s.type, *s.same, t);
    if (t->k == ALIAS) type_ops(o, s.d->type(), *s.same, rget(t));
    return o;
}
#ifndef THREADS
static std::string guarded(const std::string& name, const std::function<std::string()>& f)
{
    std::string res; auto& st = arena::st(); size_t len = &_end - &__data_start; if (!st.copy) st.copy = arena::page(len);
    if (sigsetjmp(st.back, 1)) { st.armed = 0; arena::unlock(); fail("'" + name + "' writes to the shared data or type"); }
    st.freed = false; memcpy(st.copy, &__data_start, len); st.armed = 1;
    res = f();
    st.armed = 0;
    if (memcmp(st.copy, &__data_start, len)) { size_t i = 0; while (st.copy[i] == (&__data_start)[i]) ++i; arena::unlock(); fail(mc::cat("'", name, "' changes the static storage at offset ", i)); }
    if (st.freed) { arena::unlock(); fail("'" + name + "' frees the shared data or type"); }
    return res;
}
static void exercise(mc::Run& run, const T& t, const Val& v, const std::vector<T>& ps, int style)
{
    install(); size_t mark = arena::st().used;
    Shared* w = share(t, v, ps, style); Ops warm = operations(*w, t, v); std::vector<std::string> expected; for (auto& o : warm) expected.push_back(o.second());
    Shared* s; { arena::On on; s = share(t, v, ps, style); }
    {
        Ops ops = operations(*s, t, v); MC_CHECK(ops.size() == warm.size(), "different operations");
        arena::lock();
        struct Unlock { ~Unlock() { arena::unlock(); } } unlock;
        for (size_t i = 0; i < ops.size(); ++i)
        {
            std::string got = guarded(ops[i].first, ops[i].second);
            MC_CHECK(got == expected[i], "'", ops[i].first, "' gives '", got, "' and on equal data '", expected[i], "'");
            run.transition();
        }
        run.trace(ops.size()); run.state(arena::st().counts);
    }
    arena::st().counts = 0; delete s; delete w; arena::st().used = mark;
}
#else
static void exercise(mc::Run& run, const T& t, const Val& v, const std::vector<T>& ps, int style)
{
    std::unique_ptr<Shared> w(share(t, v, ps, style)), s(share(t, v, ps, style)); Ops a = operations(*s, t, v), b = operations(*s, t, v); std::vector<std::string> expected; for (auto& o : operations(*w, t, v)) expected.push_back(o.second());
    std::vector<std::string> ra(a.size()), rb(b.size());
    for (int round = 0; round < 2; ++round)
    {
        std::atomic<int> ready{0}; auto go = [&] { ++ready; while (ready < 2) {} };
        // every operation meets every other one without synchronization in between, once in the same and once in the opposite order
        std::thread x([&] { go(); for (size_t i = 0; i < a.size(); ++i) ra[i] = a[i].second(); });
        std::thread y([&] { go(); for (size_t i = 0; i < b.size(); ++i) { size_t j = round ? b.size() - 1 - i : i; rb[j] = b[j].second(); } });
        x.join(); y.join();
        for (size_t i = 0; i < a.size(); ++i) { MC_CHECK(ra[i] == expected[i], "'", a[i].first, "' gives '", ra[i], "' and alone '", expected[i], "'"); MC_CHECK(rb[i] == expected[i], "'", a[i].first, "' gives '", rb[i], "' and alone '", expected[i], "'"); }
        run.transition(2 * a.size()); run.trace();
    }
    run.state();
}
#endif
SUITE(readers)
{
#ifdef THREADS
    auto ts = universe(mc::thorough() ? 3 : 2); size_t nv = mc::thorough() ? 6 : 3;
#else
    auto ts = universe(3); size_t nv = mc::thorough() ? 12 : 5;
#endif
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32);
    for (auto& x : { seq_t(seq_t(str)), map_t(str, map_t(u8, str)), struct_t({ union_t(i32, { {{1, 2}, str}, {{3}, seq_t(u8)} }), enum_t(E16), arr_t(str, 2) }), seq_t(union_t(u8, { {{1}, str}, {{2, 4}, map_t(u8, u8), true} })), arr_t(struct_t({ u8, str }), 2), derived_t(struct_t({ seq_t(u8), str }), { str, map_t(u8, str) }), alias_t(alias_t(map_t(alias_t(u8), alias_t(str)))), map_t(struct_t({ u8, str }), str), str_t(STR, 100), str_t(WSTR, 100), str_t(S16, 100), seq_t(u8, 50), map_t(str_t(STR, 100), seq_t(str, 20), 20), struct_t({ str_t(STR, 100), seq_t(str_t(S16, 100), 4) }) }) ts.push_back(x);
    auto ps = partners();
    for (auto& t : ts) { run.test(cat(t->desc, " new"), [&] { exercise(run, t, defaults(t), ps, 2); }); int style = 0; size_t n = 0; for (auto& v : samples(t, 12)) { if (t->k == UNION || t->k == MAP ? n >= nv + 1 : n >= nv) break; ++n; run.test(cat(t->desc, "/", show(t, v)), [&] { exercise(run, t, v, ps, style & 1); }); ++style; } }
}
// long contents: reallocation and growth could hide in them
SUITE(sizes)
{
    T str = str_t(STR), u8 = prim_t(U8), i32 = prim_t(I32); auto ps = partners(); ps.resize(4);
    for (size_t n : { 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 33, 64, 100 }) for (auto& t : { seq_t(u8), seq_t(str), map_t(i32, str), map_t(str, seq_t(u8)), seq_t(seq_t(str)), arr_t(str, uint32_t(n)), str, str_t(WSTR), str_t(S16), struct_t({ str, seq_t(u8) }) })
    {
#ifdef THREADS
        if (n != 3 && n != 17 && n != 33) continue;
#endif
        run.test(cat(t->desc, " ", n), [&]
        {
            Val v; auto e = [&](const T& c, size_t i) { Val x; if (c->k == STR) { for (size_t j = 0; j < i % 40; ++j) x.s += char32_t('a' + i % 26); x.s += char32_t('0' + i / 10); x.s += char32_t('0' + i % 10); } else if (c->k == SEQ) { Val y = defaults(c->a); for (size_t j = 0; j < i % 5; ++j) x.k.push_back(y); } else x = num(real_t(i)); return x; };
            if (is_str(t->k)) for (size_t i = 0; i < n; ++i) v.s += char32_t('a' + i % 26);
            else if (t->k == MAP) { for (size_t i = 0; i < n; ++i) { Val p; p.k = { e(t->a, i), e(t->b, i) }; v.k.push_back(p); } sort_map(v); }
            else if (t->k == STRUCT) { Val a, b; for (size_t i = 0; i < n; ++i) { a.s += U'x'; b.k.push_back(num(real_t(i))); } v.k = { a, b }; }
            else for (size_t i = 0; i < n; ++i) v.k.push_back(e(t->a, i));
            exercise(run, t, v, ps, int(n % 2));
        });
    }
}
MC_MAIN
