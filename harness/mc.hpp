// Small explicit enumeration engine shared by every check.
//
// A harness registers suites. A suite enumerates *cases* (configuration, history prefix, pair of types, ...)
// in a fixed order; every case runs the real eProsima/xtypes code. The cases are dealt to forked workers by
// index, so a crash, a sanitizer abort or an endless loop is attributed to the case that was running; the
// worker is then restarted behind it. Every reported violation has been re-run alone first (replay).
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#undef MAP_TYPE
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#ifndef MC_NO_ALLOC_HOOK
// ---- allocation balance: every operator new/delete of the process is counted -------------------------
namespace mc {
inline std::atomic<long>& live_allocs() { static std::atomic<long> n{0}; return n; }
// fault injection: the allocation that finds this at 0 fails (negative: none does)
inline long& fail_after() { static long n = -1; return n; }
inline void* allocate(size_t n)
{
    if (fail_after() >= 0 && fail_after()-- == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++live_allocs();
    return p;
}
}
void* operator new(size_t n) { return mc::allocate(n); }
void* operator new[](size_t n) { return mc::allocate(n); }
void operator delete(void* p) noexcept { if (p) { --mc::live_allocs(); free(p); } }
void operator delete[](void* p) noexcept { if (p) { --mc::live_allocs(); free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --mc::live_allocs(); free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --mc::live_allocs(); free(p); } }
#else
namespace mc {
inline std::atomic<long>& live_allocs() { static std::atomic<long> n{0}; return n; }
inline long& fail_after() { static long n = -1; return n; }
}
#endif

namespace mc {

struct Violation { std::string what; };
[[noreturn]] inline void fail(const std::string& what) { throw Violation{what}; }

template<class... A> std::string cat(const A&... a)
{
    std::ostringstream os; (void)std::initializer_list<int>{ (os << a, 0)... }; return os.str();
}

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(::mc::cat(__VA_ARGS__, "  [" #cond "]")); } while (0)

// one worker's shared-memory slot
struct Slot
{
    volatile uint64_t tick;
    volatile uint64_t index;        // global index of the running case
    volatile int running;           // a case is running
    volatile int done;
    uint64_t cases, states, transitions, traces;
    char id[1024];
    char note[4096];
    uint64_t samples_len;
    char samples[8192];
};

inline bool thorough()
{
    const char* t = getenv("VERIF_TIER");
    return t && std::string(t) == "thorough";
}

class Run
{
public:
    Slot* slot = nullptr;
    int shard = 0, nshards = 1;
    uint64_t next_index = 0, resume_from = 0;
    std::string suite_name;
    std::string only;               // replay: run only the case with this id
    bool replay = false;
    int out_fd = -1;                // violations are written here
    unsigned nviol = 0, suite_viol = 0;

    void state(uint64_t n = 1) { slot->states += n; }
    void transition(uint64_t n = 1) { slot->transitions += n; slot->tick = slot->tick + 1; }
    void trace(uint64_t n = 1) { slot->traces += n; slot->tick = slot->tick + 1; }
    // where inside the case we are: kept in shared memory so that it survives a crash
    void note(const std::string& s)
    {
        size_t n = std::min(s.size(), sizeof(slot->note) - 1);
        memcpy(slot->note, s.data(), n); slot->note[n] = 0;
        slot->tick = slot->tick + 1;
    }
    void sample(const std::string& s)
    {
        if (slot->samples_len + s.size() + 2 < sizeof(slot->samples) && nsamples_++ < 6)
        {
            memcpy(slot->samples + slot->samples_len, s.data(), s.size());
            slot->samples_len += s.size();
            slot->samples[slot->samples_len++] = '\n';
        }
    }

    // run one case
    template<class F> void test(const std::string& id, F body)
    {
        uint64_t idx = next_index++;
        std::string key = suite_name + "/" + id;
        if (replay) { if (key != only) return; }
        else
        {
            if (idx % nshards != (uint64_t)shard || idx < resume_from) return;
            if (suite_viol > 40) return;    // this suite is broken enough: the rest adds nothing
        }
        size_t n = std::min(key.size(), sizeof(slot->id) - 1);
        memcpy(slot->id, key.data(), n); slot->id[n] = 0;
        slot->note[0] = 0;
        slot->index = idx;
        slot->tick = slot->tick + 1;
        slot->running = 1;
        ++slot->cases;
        if (slot->cases % 97 == 1) sample(key);
        std::string what;
        try { body(); }
        catch (const Violation& v) { what = v.what.empty() ? "violation" : v.what; }
        catch (const std::exception& e) { what = std::string("unexpected exception: ") + e.what(); }
        catch (...) { what = "unexpected exception of a non-standard type"; }
        slot->running = 0;
        if (!what.empty()) report(key, what);
    }

    void report(const std::string& key, const std::string& what)
    {
        ++nviol; ++suite_viol;
        std::string w = what;
        if (slot->note[0]) w += std::string("  at: ") + slot->note;
        for (char& c : w) if (c == '\n' || c == '\t') c = ' ';
        std::string line = key + "\t" + w + "\n";
        ssize_t r = write(out_fd, line.data(), line.size()); (void)r;
    }
private:
    int nsamples_ = 0;
};

using SuiteFn = std::function<void(Run&)>;
inline std::vector<std::pair<std::string, SuiteFn>>& suites()
{
    static std::vector<std::pair<std::string, SuiteFn>> s; return s;
}
struct Reg { Reg(const char* n, SuiteFn f) { suites().emplace_back(n, std::move(f)); } };
#define SUITE(name) static void suite_##name(::mc::Run&); static ::mc::Reg reg_##name(#name, suite_##name); \
    static void suite_##name([[maybe_unused]] ::mc::Run& run)

// runs f twice and returns how many allocations the second run left behind (the first warms caches up)
template<class F> long leaked(F f)
{
    f();
    long before = live_allocs().load();
    f();
    return live_allocs().load() - before;
}

template<class F> bool refused(F f)
{
    try { f(); } catch (const Violation&) { throw; } catch (const std::exception&) { return true; }
    return false;
}
template<class F> bool refused_rt(F f)   // refused with the documented error type
{
    try { f(); } catch (const Violation&) { throw; } catch (const std::runtime_error&) { return true; }
    return false;
}

// ------------------------------------------------------------------------------------------------------
struct Found { std::string key, what; };

inline double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); return ss.str();
}

inline std::string asan_summary(const std::string& err)
{
    size_t p = err.find("SUMMARY: ");
    if (p != std::string::npos) { size_t e = err.find('\n', p); return err.substr(p, e - p); }
    p = err.find("ERROR: "); if (p != std::string::npos) { size_t e = err.find('\n', p); return err.substr(p, e - p); }
    size_t n = std::min<size_t>(err.size(), 200);
    return err.substr(err.size() - n);
}

// forks a worker; returns pid
inline pid_t spawn(Slot* slot, int shard, int nshards, uint64_t resume, const std::string& only,
        const std::string& viol_file, const std::string& err_file)
{
    fflush(nullptr);
    pid_t pid = fork();
    if (pid != 0) return pid;
    int e = open(err_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (e >= 0) { dup2(e, 2); dup2(e, 1); }
    Run run;
    run.slot = slot; run.shard = shard; run.nshards = nshards; run.resume_from = resume;
    run.only = only; run.replay = !only.empty();
    run.out_fd = open(viol_file.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
    std::string only_suite = only.substr(0, only.find('/'));
    for (auto& s : suites())
    {
        if (run.replay && s.first != only_suite) continue;
        run.suite_name = s.first;
        run.suite_viol = 0;
        if (const char* f = getenv("MC_SUITE")) if (s.first.find(f) == std::string::npos) continue;
        s.second(run);
    }
    slot->done = 1;
    _exit(0);
}

inline std::vector<Found> load_viol(const std::string& f)
{
    std::vector<Found> r; std::ifstream in(f); std::string l;
    while (std::getline(in, l))
    {
        size_t t = l.find('\t');
        if (t == std::string::npos) continue;
        r.push_back({l.substr(0, t), l.substr(t + 1)});
    }
    return r;
}

inline double hang_limit()
{
    const char* h = getenv("MC_HANG"); return h ? atof(h) : 40.0;
}

struct Totals { uint64_t cases = 0, states = 0, transitions = 0, traces = 0; std::vector<std::string> samples; unsigned crashes = 0; };

// run everything once over nshards workers
inline std::vector<Found> run_all(const std::string& tmp, int nshards, Totals& tot, bool& capped, double deadline)
{
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * nshards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)slots, 0, sizeof(Slot) * nshards);
    std::vector<pid_t> pids(nshards, 0);
    std::vector<uint64_t> last_tick(nshards, 0);
    std::vector<double> last_change(nshards, now());
    std::vector<int> restarts(nshards, 0);
    std::vector<std::string> vf(nshards), ef(nshards);
    std::vector<Found> found;
    for (int i = 0; i < nshards; ++i)
    {
        vf[i] = tmp + "/viol." + std::to_string(i); ef[i] = tmp + "/err." + std::to_string(i);
        unlink(vf[i].c_str());
        pids[i] = spawn(&slots[i], i, nshards, 0, "", vf[i], ef[i]);
    }
    int alive = nshards;
    while (alive > 0)
    {
        usleep(5000);
        for (int i = 0; i < nshards; ++i)
        {
            if (!pids[i]) continue;
            int st = 0;
            pid_t r = waitpid(pids[i], &st, WNOHANG);
            bool hang = false;
            if (r == 0)
            {
                double t = now();
                if (slots[i].tick != last_tick[i]) { last_tick[i] = slots[i].tick; last_change[i] = t; }
                else if (t - last_change[i] > hang_limit() && slots[i].running)
                {
                    hang = true; kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); r = pids[i];
                }
                if (t > deadline) { capped = true; kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); pids[i] = 0; --alive; continue; }
                if (!hang) continue;
            }
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[i].done) { pids[i] = 0; --alive; continue; }
            // crash or hang in the running case
            std::string what = hang ? "no progress (endless loop?)"
                : WIFSIGNALED(st) ? cat("crash: signal ", WTERMSIG(st)) : cat("abort: exit ", WEXITSTATUS(st), ": ", asan_summary(slurp(ef[i])));
            if (slots[i].note[0]) what += cat("  at: ", (const char*)slots[i].note);
            for (char& c : what) if (c == '\n' || c == '\t') c = ' ';
            found.push_back({(const char*)slots[i].id, what});
            ++tot.crashes;
            slots[i].running = 0;
            if (++restarts[i] > 12) { capped = true; pids[i] = 0; --alive; continue; }
            last_change[i] = now();
            pids[i] = spawn(&slots[i], i, nshards, slots[i].index + 1, "", vf[i], ef[i]);
        }
    }
    for (int i = 0; i < nshards; ++i)
    {
        for (auto& f : load_viol(vf[i])) found.push_back(f);
        tot.cases += slots[i].cases; tot.states += slots[i].states;
        tot.transitions += slots[i].transitions; tot.traces += slots[i].traces;
        std::istringstream ss(std::string(slots[i].samples, slots[i].samples_len)); std::string l;
        while (std::getline(ss, l)) if (tot.samples.size() < 12) tot.samples.push_back(l);
    }
    munmap(slots, sizeof(Slot) * nshards);
    return found;
}

// re-run one case alone; returns its failure text ("" if it passes)
inline std::string rerun(const std::string& tmp, const std::string& key)
{
    Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)slot, 0, sizeof(Slot));
    std::string vf = tmp + "/viol.replay", ef = tmp + "/err.replay";
    unlink(vf.c_str());
    pid_t pid = spawn(slot, 0, 1, 0, key, vf, ef);
    std::string what; double last = now(); uint64_t tick = 0; int st = 0;
    for (;;)
    {
        usleep(2000);
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r != 0) break;
        if (slot->tick != tick || !slot->running) { tick = slot->tick; last = now(); }
        else if (now() - last > 2 * hang_limit()) { kill(pid, SIGKILL); waitpid(pid, &st, 0); what = "no progress (endless loop?)"; break; }
    }
    if (what.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        what = WIFSIGNALED(st) ? cat("crash: signal ", WTERMSIG(st)) : cat("abort: ", asan_summary(slurp(ef)));
    if (!what.empty() && slot->note[0]) what += cat("  at: ", (const char*)slot->note);
    for (auto& f : load_viol(vf)) if (what.empty()) what = f.what;
    for (char& c : what) if (c == '\n' || c == '\t') c = ' ';
    munmap(slot, sizeof(Slot));
    return what;
}

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// the directory for the files of a harness, removed by whoever runs it
inline std::string& scratch() { static std::string dir; return dir; }

// usage: prog TMPDIR OUT.json [--replay KEY]
inline int main_impl(int argc, char** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: %s TMPDIR OUT.json [--replay KEY]\n", argv[0]); return 2; }
    std::string tmp = argv[1], out = argv[2]; scratch() = tmp;
    if (argc >= 5 && std::string(argv[3]) == "--replay")
    {
        std::string w = rerun(tmp, argv[4]);
        std::cout << (w.empty() ? "PASS" : "FAIL") << " " << argv[4] << " " << w << "\n";
        if (!w.empty()) std::cout << slurp(tmp + "/err.replay") << "\n";
        return w.empty() ? 0 : 1;
    }
    double t0 = now();
    double budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : 600.0;
    int n = getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : 8;
    Totals tot; bool capped = false;
    std::vector<Found> found = run_all(tmp, n, tot, capped, t0 + budget);
    std::map<std::string, std::string> uniq;
    for (auto& f : found) uniq.emplace(f.key, f.what);
    // replay before report
    std::vector<Found> confirmed, unconfirmed;
    for (auto& u : uniq)
    {
        // report at most 25 beyond the known ones: the driver filters known keys, so keep all keys
        if (confirmed.size() >= 60) { confirmed.push_back({u.first, u.second}); continue; }
        std::string w = rerun(tmp, u.first);
        if (!w.empty()) confirmed.push_back({u.first, w});
        else unconfirmed.push_back({u.first, u.second});
    }
    if (!unconfirmed.empty())
    {
        // depends on earlier cases of its worker: it must appear again when the same enumeration is repeated
        Totals t2; bool c2 = false;
        std::vector<Found> again = run_all(tmp, n, t2, c2, now() + budget);
        std::set<std::string> keys; for (auto& f : again) keys.insert(f.key);
        std::vector<Found> rest;
        for (auto& f : unconfirmed) (keys.count(f.key) ? confirmed : rest).push_back(f);
        unconfirmed = rest;
    }
    std::ofstream js(out);
    js << "{\"cases\":" << tot.cases << ",\"states\":" << tot.states << ",\"transitions\":" << tot.transitions
       << ",\"traces\":" << tot.traces << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << now() - t0 << ",\"samples\":[";
    for (size_t i = 0; i < tot.samples.size(); ++i) js << (i ? "," : "") << "\"" << jesc(tot.samples[i]) << "\"";
    js << "],\"violations\":[";
    for (size_t i = 0; i < confirmed.size(); ++i)
        js << (i ? "," : "") << "{\"key\":\"" << jesc(confirmed[i].key) << "\",\"what\":\"" << jesc(confirmed[i].what) << "\"}";
    js << "],\"unconfirmed\":[";
    for (size_t i = 0; i < unconfirmed.size(); ++i)
        js << (i ? "," : "") << "{\"key\":\"" << jesc(unconfirmed[i].key) << "\",\"what\":\"" << jesc(unconfirmed[i].what) << "\"}";
    js << "]}\n";
    return 0;
}

} // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return ::mc::main_impl(argc, argv); }
#endif
