// C22: the DIMACS front end on symbolic files: literals, signs, layout of blank space and comments are symbolic choices.
#include "sym.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#define main yaga_dimacs_main
#include "sat_solver.cpp"
#undef main
namespace {
using Z = z3::expr;
struct Out { int rc; std::string text; };
Out run_file(std::string const& content)
{
    char path[] = "/tmp/verif_dimacs_XXXXXX"; int fd = mkstemp(path); if (fd < 0) sym::abandon("no scratch file");
    for (std::size_t o = 0; o < content.size();) { auto w = write(fd, content.data() + o, content.size() - o); if (w <= 0) break; o += (std::size_t)w; } close(fd);
    struct Guard { char const* p; std::ostringstream o, e; std::streambuf *a, *b; explicit Guard(char const* q) : p(q), a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Guard() { std::cout.rdbuf(a); std::cerr.rdbuf(b); unlink(p); } } g(path);
    char prog[] = "sat"; char* argv[] = {prog, path, nullptr};
    int rc = yaga_dimacs_main(2, argv);
    return {rc, g.o.str()};
}
void verdict(std::vector<std::vector<int>> const& f, std::string const& content)
{
    std::vector<Z> all; for (auto& c : f) { z3::expr_vector o(sym::ctx()); for (int l : c) { Z b = sym::ctx().bool_const(("B" + std::to_string(std::abs(l))).c_str()); o.push_back(l > 0 ? b : !b); } all.push_back(z3::mk_or(o)); }
    z3::expr_vector v(sym::ctx()); for (auto& x : all) v.push_back(x); bool sat = sym::sat(z3::mk_and(v));
    Out o = run_file(content); std::string first = o.text.substr(0, o.text.find('\n'));
    sym::verify(first == "SAT" || first == "UNSAT", "C22: no answer for a well-formed file");
    sym::verify(first != "SAT" || sat, "C22: SAT printed for an unsatisfiable file"); sym::verify(first != "UNSAT" || !sat, "C22: UNSAT printed for a satisfiable file");
    sym::verify(o.rc == (first == "SAT" ? 1 : 0), "C22: exit status does not agree with the answer"); sym::witness(sat ? "sat" : "unsat");
}
char const* const HEAD[] = {"", "c first\n", "\n", " c 1 2 0\nc\n", "\nc p cnf 1 1\n  "};
char const* const PRO[] = {"p cnf %v %c\n", "p cnf %v %c", "p cnf  %v   %c \n", " p cnf %v %c\r\n", "p cnf\t%v\t%c\n\n"};
char const* const INNER[] = {" ", "\n", "\t", "  ", "\n \n", "\nc x\n", " \r\n"};
char const* const END[] = {"\n", " ", "\n\n", "\nc 1 0\n", "\r\n", "\n  c -1 0\n", "\t\n "};
char const* const TAIL[] = {"\n", "", "\nc the end", "\n%\n0\n", " ", "\n\n\n"};
// literals 0 in a template are symbolic: any literal over the variables
void file(int vars, std::vector<std::vector<int>> t, int signs, int inner, int ends, bool frame)
{
    std::vector<std::vector<int>> f; int k = 0, lit = 0, in = 0, en = 0; std::string body; bool open = false;
    int h = frame ? sym::choose("head", 0, 4) : 0, pr = frame ? sym::choose("problem", 0, 4) : 0, ta = frame ? sym::choose("tail", 0, 5) : 0;
    for (auto& c : t) {
        std::vector<int> q;
        for (int l : c) {
            if (l == 0) { int v = sym::choose("lit" + std::to_string(lit++), 0, 2 * vars - 1); l = v < vars ? v + 1 : -(v - vars + 1); }
            else if (k < signs && sym::flip("sign" + std::to_string(k++))) l = -l;
            q.push_back(l);
        }
        for (int l : q) { body += std::to_string(l); body += INNER[in < inner ? sym::choose("in" + std::to_string(in), 0, 6) : 0]; ++in; }
        body += "0"; f.push_back(q); bool last = &c == &t.back();
        if (!last) body += END[en < ends ? sym::choose("end" + std::to_string(en), 0, 6) : 0];
        ++en; open = true;
    }
    (void)open; std::string p = PRO[pr]; if (pr == 1) p += "\n";
    p.replace(p.find("%v"), 2, std::to_string(vars)); p.replace(p.find("%c"), 2, std::to_string(t.size()));
    verdict(f, std::string(HEAD[h]) + p + body + (t.empty() && ta != 3 ? "" : TAIL[ta]));
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    if (p != "C22") return; bool th = tier() == "thorough"; int x = th ? 1 : 0;
    using T = std::vector<std::vector<int>>;
    auto job = [&](std::string const& n, std::function<void()> b) { out.push_back({n, std::move(b), 0, true}); };
    job("empty", [=] { file(3, {}, 0, 0, 0, true); }); job("none", [=] { file(0, {}, 0, 0, 0, true); }); job("zero", [=] { file(0, T{{}}, 0, 0, 0, true); });
    job("one", [=] { file(2, T{{0}}, 0, 1, 0, true); }); job("two", [=] { file(2, T{{0, 0}}, 0, 2, 0, false); }); job("units", [=] { file(2, T{{0}, {0}, {0}}, 0, 0, 1 + x, false); });
    job("emptyfirst", [=] { file(2, T{{}, {0}}, 0, 1, 1, true); }); job("emptylast", [=] { file(2, T{{0}, {0, 0}, {}}, 0, 1, 1, false); }); job("emptymid", [=] { file(2, T{{0}, {}, {0}}, 0, 0, 2, false); });
    job("pairs", [=] { file(2, T{{0, 0}, {0, 0}, {1, 2}}, 1, 0, 1, false); }); job("dup", [=] { file(2, T{{1, 1}, {0, 0}, {-1, 0}}, 2, 0, 0, false); }); job("dup3", [=] { file(3, T{{1, 1, 2}, {-2, -2}, {0, 0, 0}}, 4, 0, 0, false); });
    job("triple", [=] { file(2, T{{0, 0, 0}, {0, 0}}, 0, 0, 0, false); }); job("taut", [=] { file(3, T{{1, -1}, {0, 0}, {2, -2, 3}, {0}}, 0, 0, 0, false); }); job("all", [=] { file(2, T{{0, 0}, {0, 0}, {0, 0}, {0, 0}}, 0, 0, 0, false); });
    job("layout3", [=] { file(3, T{{1, 2, 3}, {-1, 2}, {-2}, {1, -3}}, 4, 2, 2, false); }); job("layout4", [=] { file(3, T{{1, 2}, {-1, 3}, {-3, -2}, {2, -1}}, 8, 1, 1, false); }); job("layout5", [=] { file(4, T{{1, 2, 3, 4}, {-1, -2}, {-3, -4}, {3, -2}}, 2, 3, 1, false); });
    job("frame", [=] { file(3, T{{1, 2}, {-1, 3}, {-3, -2}}, 3, 1, 1, true); }); job("big", [=] { file(12, T{{10, 11, 12}, {-10, 11}, {-11, 12}, {-12, -10}, {0, 0}}, 4, 1, 0, false); });
    job("php", [=] { file(6, T{{1, 2}, {3, 4}, {5, 6}, {-1, -3}, {-1, -5}, {-3, -5}, {-2, -4}, {-2, -6}, {-4, -6}}, 8, 0, 0, false); });
    job("many", [=] { file(4, T{{1, 2, 3}, {1, 2, -3}, {1, -2, 4}, {-1, 3, 4}, {-1, -3, 4}, {-4, 2, 3}, {-4, -2, -3}, {0, 0}}, 5, 0, 0, false); });
}
