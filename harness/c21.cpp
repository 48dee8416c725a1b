#define PARSE
#include "c15.hpp"
static xt::idl::Parser& parser() { static std::shared_ptr<xt::idl::Parser> p = std::make_shared<xt::idl::Parser>(); return *p; }
// the text without its blank lines: the generator leaves one after the enumerators which the parser declares as constants
static std::string lines(const std::string& t) { std::string r; for (size_t i = 0; i < t.size();) { size_t e = std::min(t.find('\n', i), t.size() - 1) + 1; if (t.find_first_not_of(' ', i) + 1 < e) r += t.substr(i, e - i); i = e; } return r; }
static void reparse(mc::Run& run, World& w, std::string text)
{
    // a module without definitions cannot be written in IDL: those get one
    std::vector<bool> used(w.mods.size()); for (auto& y : w.syms) used[y.mod] = true; for (size_t i = 1; i < w.mods.size(); ++i) used[w.tree.outer[i]] = true;
    bool fill = false; for (size_t i = 1; i < w.mods.size(); ++i) if (!used[i]) { Sym y; y.kind = STRUCT; y.mod = int(i); y.name = "Fill_"; w.add(y); fill = true; }
    if (fill) { try { text = xt::idl::generator::module(w.root); } catch (const std::runtime_error&) { return; } }
    if (text.empty()) return;
    unsigned h = 2166136261u; for (unsigned char c : text) h = (h ^ c) * 16777619u; if (!mc::thorough() && text.size() > 150 && (h >> 8) % 2) return; // every second one of the longer texts
    xt::idl::Context c; c.preprocess = false; run.transition(); std::string again;
    try { if (!parser().parse_string(text, c)) { mc::fail(cat("not parsed:\n", text)); return; } again = xt::idl::generator::module(c.module()); }
    catch (const std::runtime_error& e) { mc::fail(cat("refused: ", e.what(), "\n", text)); return; }
    std::string err; try { Idl idl(again); Judge j(w, idl); if (!j.run()) err = j.err; } catch (const Bad& b) { err = "no IDL: " + b.what; }
    if (!err.empty()) mc::fail(cat("the parsed module is another one: ", err, "\n", text, "--- became\n", again));
    if (!w.early && lines(again) != lines(text)) mc::fail(cat("the parsed module is written in another way:\n", text, "--- became\n", again));
}
MC_MAIN
