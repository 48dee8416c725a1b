// Exhaustive enumeration of operation histories: every sequence of operations up to a depth is replayed from
// scratch on a fresh system (implementation + reference model) and compared at its end.
#ifndef VERIF_TREE_HPP
#define VERIF_TREE_HPP
#include "mc.hpp"
namespace mc {

// Sys: bool apply(int op) - false: not applicable in this state; void check(); std::string op_name(int)
template<class Make> void tree(Run& run, const std::string& id, int nops, int depth, Make make, bool leaks = true)
{
    for (int first = 0; first < nops; ++first)
    {
        std::string fname; { auto s = make(); fname = s->op_name(first); }
        run.test(id + "/" + fname, [&]
        {
            std::vector<int> path{first};
            auto describe = [&] { auto s = make(); std::string d; for (int o : path) d += (d.empty() ? "" : ";") + s->op_name(o); return d; };
            auto replay = [&](bool check) -> bool
            {
                auto s = make();
                for (int o : path) { run.transition(); if (!s->apply(o)) return false; }
                if (check) s->check();
                return true;
            };
            std::function<void()> rec = [&]
            {
                run.note("");
                // the path is noted cheaply as indices; names are resolved only on failure
                std::string p; for (int o : path) p += std::to_string(o) + " ";
                run.note(p);
                bool ok;
                try { ok = replay(true); }
                catch (const Violation& v) { std::string d = describe(); run.note(d); throw; }
                catch (const std::exception& e) { std::string d = describe(); run.note(d); throw; }
                if (!ok) return;
                run.trace(); run.state();
                if (leaks && int(path.size()) == depth)
                {
                    // allocation balance of the complete history
                    long l = 0;
                    { long b = live_allocs().load(); replay(false); l = live_allocs().load() - b; }
                    if (l != 0) l = leaked([&] { replay(false); });
                    if (l != 0) { run.note(describe()); fail(cat("history leaves ", l, " allocation(s) behind")); }
                }
                if (int(path.size()) >= depth) return;
                for (int o = 0; o < nops; ++o) { path.push_back(o); rec(); path.pop_back(); }
            };
            rec();
        });
    }
}
}
#endif
