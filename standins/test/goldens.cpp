// Compares the pipeline built on the stand-ins with the repository's own golden files.
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/parse_helper.hpp"
namespace fs = std::filesystem;
using namespace cqasm::v3x;
static std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
template <class E> static std::string joined(const E& es) { std::string r; for (auto& e : es) { if (!r.empty()) r += "\n"; std::ostringstream o; o << e; r += o.str(); } return r; }
static int total, bad;
static bool verbose;
static void compare(const fs::path& p, const std::string& got) {
    ++total;
    std::string want = slurp(p);
    if (want == got) return;
    ++bad;
    std::cout << "DIFFERS " << p.string() << "\n";
    if (verbose) std::cout << "--- want\n" << want << "\n--- got\n" << got << "\n";
}
int main(int argc, char** argv) {
    verbose = argc > 2;
    for (auto& e : fs::recursive_directory_iterator(argv[1])) {
        if (e.path().filename() != "input.cq") continue;
        auto d = e.path().parent_path();
        auto pr = parser::parse_string(slurp(e.path()), "input.cq");
        std::ostringstream o;
        if (pr.errors.empty()) o << "SUCCESS\n" << *pr.root << "\n"; else o << "ERROR\n" << joined(pr.errors) << "\n";
        compare(d / "ast.golden.txt", o.str());
        if (fs::exists(d / "ast.golden.json")) compare(d / "ast.golden.json", pr.to_json());
        if (!pr.errors.empty()) continue;
        analyzer::Analyzer a{ "3.0" };
        a.register_default_constants();
        a.register_default_functions();
        a.register_default_instructions();
        auto ar = a.analyze(*pr.root->as_program());
        std::ostringstream q;
        if (ar.errors.empty()) q << "SUCCESS\n" << *ar.root << "\n"; else q << "ERROR\n" << joined(ar.errors) << "\n";
        compare(d / "semantic.3.0.golden.txt", q.str());
        if (fs::exists(d / "semantic.3.0.golden.json")) compare(d / "semantic.3.0.golden.json", ar.to_json());
    }
    std::cout << total << " compared, " << bad << " differ\n";
    return bad != 0;
}
