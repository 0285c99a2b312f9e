// C19: the priority queue of the decision heuristics, compiled from the real source with exact symbolic scores.
#include "../engine/sym.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <limits>
#include <map>
#include <queue>
#include <ranges>
#include <tuple>
#include <vector>
#include "Rational.h"
#include "Variable.h"
#define Variable_priority_queue Sym_priority_queue
#define float ::yaga::Rational
#include "Variable_priority_queue.h"
#include "Variable_priority_queue.cpp"
#undef float
#undef Variable_priority_queue
using namespace yaga; using Z = z3::expr;
namespace {
Rational in(std::string const& n, int lo, int hi)
{
#ifdef SYM_CONCRETE
    (void)lo; (void)hi; return Rational(sym::rt::input_value(n).get_str().c_str());
#else
    return Rational::of(sym::rt::input(n, lo, hi, false));
#endif
}
void run(int n, int steps, int filled)
{
    Sym_priority_queue q; std::vector<std::pair<Variable, Rational>> ref;
    auto var = [](int i) { return Variable{i / 2, i % 2 ? Variable::rational : Variable::boolean}; };
    auto find = [&](Variable v) { return std::find_if(ref.begin(), ref.end(), [&](auto& e) { return e.first == v; }); };
    auto check = [&] {
        sym::verify(q.size() == ref.size() && q.empty() == ref.empty(), "C19: size of the queue");
        for (int i = 0; i < n; ++i) sym::verify(q.contains(var(i)) == (find(var(i)) != ref.end()), "C19: contents of the queue");
        if (ref.empty()) return;
        auto t = find(q.top()); sym::verify(t != ref.end(), "C19: the top of the queue is not in it");
        for (auto& e : ref) { bool ok = e.second <= t->second; sym::verify(ok, "C19: the top of the queue does not have the highest score"); }
        sym::witness("top");
    };
    for (int i = 0; i < filled; ++i) { Rational s = in("f" + std::to_string(i), 0, 8); q.push(var(i), s); ref.push_back({var(i), s}); }
    check();
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s);
        switch (sym::choose("op" + k, 0, 3)) {
        case 0: { auto v = var(sym::choose("v" + k, 0, n - 1)); if (find(v) != ref.end()) sym::abandon("already in the queue"); Rational x = in("s" + k, 0, 8); q.push(v, x); ref.push_back({v, x}); break; }
        case 1: { if (ref.empty()) sym::abandon("empty queue"); auto v = q.top(); q.pop(); ref.erase(find(v)); break; }
        case 2: { auto v = var(sym::choose("v" + k, 0, n - 1)); Rational x = in("s" + k, 0, 8); q.update(v, x); auto it = find(v); if (it != ref.end()) it->second = x; break; }
        default: { q.rescale(Rational{4}); for (auto& e : ref) e.second /= Rational{4}; }
        }
        check();
    }
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    bool th = tier() == "thorough"; int x = th ? 1 : 0;
    out.push_back({"queue3", [=] { run(3, 3 + x, 0); }, 0, true});
    out.push_back({"queue4", [=] { run(4, 2 + x, 3); }, 0, true});
    out.push_back({"queue6", [=] { run(6, 1 + x, 6); }, 0, true});
    out.push_back({"queue12", [=] { run(12, 2 + x, 11); }, 0, true});
    out.push_back({"queue23", [=] { run(23, 3 + x, 23); }, 0, true});
}
