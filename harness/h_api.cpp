// Solver/theory level jobs: C03, C04, C05, C06, C07, C16(options), C17, C18, C25 (schedules, constants and histories symbolic).
#include "mon.h"
#include "Lra_conflict_analysis.h"
#include "Subsumption.h"
#include <sstream>
using namespace yaga; using namespace mon;
namespace {
struct Rng { unsigned long s; explicit Rng(unsigned long x) : s(x * 6364136223846793005ul + 1442695040888963407ul) { for (int i = 0; i < 4; ++i) next(); }
    unsigned next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 20); }
    int in(int lo, int hi) { return lo + (int)(next() % (unsigned)(hi - lo + 1)); } };

// ---- propositional --------------------------------------------------------------------------------------------------
struct Cnf { int n; std::vector<std::vector<int>> c; int symbolic = 0; int picks = 3, phases = 2, restarts = 2; int stride = 1; };   // literal: +-(v+1); the first `symbolic` literals have a symbolic sign
void run_cnf(std::string const& prop, Cnf const& f)
{
    // stride > 1: the variables are far apart, unused ones lie between them
    int const nv = f.n * f.stride, st = f.stride;
    Solver s;
    s.trail().set_model<bool>(Variable::boolean, nv);
    auto& m = s.set_theory<Monitor>();
    m.prop = prop; m.bcp = &m.inner.add_theory<Bool_theory>();
    m.sym_phase = true; m.phase_left = f.phases;
    // every round extends the assignment level by level or moves a literal to a lower level: at most 2^(n+1) rounds between two restarts
    m.round_limit = nv < 12 ? 4 * (2 << f.n) * (f.restarts + 1) : 100000;
    m.on_variable_resize(Variable::boolean, nv);
    s.set_restart_policy<Sym_restart>(f.restarts);
    s.set_variable_order<Sym_order>(f.picks);
    int k = 0; std::vector<std::vector<int>> cl;
    for (auto& c : f.c) {
        Clause q; std::vector<int> z;
        for (int l : c) { if (k < f.symbolic && sym::flip("sign" + std::to_string(k))) l = -l; ++k; l = l > 0 ? l * st : -(-l * st); q.push_back(l > 0 ? Literal{l - 1} : ~Literal{-l - 1}); z.push_back(l); }
        s.db().assert_clause(q); cl.push_back(z);
    }
    auto r = s.check();
    sym::witness(r == Solver::Result::sat ? "sat" : "unsat");
    if (prop == "C03") {
        std::vector<Z> v; for (auto& c : cl) { std::vector<Z> o; for (int l : c) o.push_back(l > 0 ? bool_b(l - 1) : !bool_b(-l - 1)); v.push_back(disj(o)); }
        Z all = conj(v);
        if (r == Solver::Result::unsat) sym::verify(!sym::sat(all), "C03: unsat reported for a satisfiable clause set");
        else {
            auto& model = s.trail().model<bool>(Variable::boolean); bool total = true, ok = true;
            for (int i = 0; i < nv; ++i) total = total && model.is_defined(i);
            sym::verify(total, "C03: sat reported with a partial assignment");
            for (auto& c : cl) { bool one = false; for (int l : c) one = one || model.value(std::abs(l) - 1) == (l > 0); ok = ok && one; }
            sym::verify(ok, "C03: the assignment does not satisfy every clause");
        }
    }
}
Cnf gen_cnf(unsigned seed, bool thorough)
{
    Rng r(seed + 77);
    Cnf f; f.n = r.in(3, thorough ? 6 : 5);
    int m = f.n + r.in(1, thorough ? 9 : 6);
    for (int i = 0; i < m; ++i) {
        int len = r.in(0, 9); len = len == 0 ? 1 : len < 5 ? 2 : 3;
        std::vector<int> c; for (int j = 0; j < len; ++j) { int v = r.in(1, f.n); bool dup = r.in(0, 9) == 0; if (!dup) for (int t = 0; t < 5; ++t) { bool in = false; for (int x : c) in = in || std::abs(x) == v; if (!in) break; v = v % f.n + 1; } c.push_back(r.in(0, 1) ? v : -v); }
        f.c.push_back(c);
    }
    f.symbolic = r.in(3, 6); f.picks = 3; f.phases = 3; f.restarts = r.in(1, 3);
    return f;
}
// larger searches: long clauses, many conflicts; most of the formula is fixed, signs, decisions, phases and restarts are symbolic
Cnf big_cnf(unsigned seed)
{
    Rng r(seed + 4242);
    Cnf f; f.n = r.in(9, 20);
    auto clause = [&](int len) { std::set<int> v; while ((int)v.size() < len) v.insert(r.in(1, f.n)); std::vector<int> c; for (int x : v) c.push_back(r.in(0, 1) ? x : -x); for (int i = len - 1; i > 0; --i) std::swap(c[(std::size_t)i], c[(std::size_t)r.in(0, i)]); f.c.push_back(c); };
    int m = f.n * r.in(38, 62) / 10;
    for (int i = 0; i < m; ++i) clause(3);
    for (int i = r.in(1, 4); i > 0; --i) clause(r.in(5, 9));
    for (int i = r.in(0, 3); i > 0; --i) clause(2);
    f.symbolic = 6; f.picks = 5; f.phases = 5; f.restarts = 4;
    return f;
}
std::vector<std::pair<std::string, Cnf>> hand_cnf()
{
    std::vector<std::pair<std::string, Cnf>> t;
    t.push_back({"full3", {3, {{1, 2, 3}, {1, 2, -3}, {1, -2, 3}, {1, -2, -3}, {-1, 2, 3}, {-1, 2, -3}, {-1, -2, 3}, {-1, -2, -3}}, 3, 3, 3, 3}});
    t.push_back({"php32", {6, {{1, 2}, {3, 4}, {5, 6}, {-1, -3}, {-1, -5}, {-3, -5}, {-2, -4}, {-2, -6}, {-4, -6}}, 2, 3, 2, 3}});
    t.push_back({"chain", {6, {{-1, 2}, {-2, 3}, {-3, 4}, {-4, 5}, {-5, 6}, {-6, -1}, {1, 3, 5}}, 3, 3, 3, 2}});
    t.push_back({"self", {5, {{1, 2, 3}, {-1, 2, 3}, {-2, 3}, {-3, 4, 5}, {-4, 5}, {-5, 4, -3}, {-4, -5}}, 4, 3, 2, 3}});
    t.push_back({"taut", {3, {{1, -1, 2}, {2, 2, 3}, {-2, -2}, {3, -3}, {1, 2, -3}}, 4, 3, 2, 2}});
    t.push_back({"units", {4, {{1}, {-1, 2}, {-2, 3, 4}, {-3}, {-4, 2}}, 6, 2, 2, 2}});
    t.push_back({"xor", {4, {{1, 2, 3}, {1, -2, -3}, {-1, 2, -3}, {-1, -2, 3}, {3, 4, -1}, {3, -4, 1}, {-3, 4, 1}, {-3, -4, -1}}, 4, 3, 3, 3}});
    t.push_back({"minim", {7, {{-1, 2}, {-1, 3}, {-2, -3, 4}, {-4, 5}, {-4, -5, 6}, {-6, -5, 7}, {-7, -4}}, 2, 4, 4, 2}});
    t.push_back({"long", {6, {{1, 2, 3, 4, 5, 6}, {-1, -2, -3, -4}, {-3, -4, -5, -6}, {1, -6}, {2, -5}, {3, 4}}, 4, 4, 3, 1}});
    return t;
}
// direct jobs on Subsumption: arbitrary learned clauses
void run_subsumption(int n, int m, int maxlen, int lastlen, std::vector<int> ids = {}, int minlen = 1, int fixed_split = -1)
{
    if (ids.empty()) for (int i = 0; i < n; ++i) ids.push_back(i);     // the variables the clauses are over
    int size = ids.back() + 1;
    Database db; Event_dispatcher disp; Trail t{disp}; t.set_model<bool>(Variable::boolean, size);
    Subsumption s; s.on_variable_resize(Variable::boolean, size);
    auto mk = [&](std::string const& nm, int len) { Clause c; int last = -1;
        for (int j = 0; j < len; ++j) { if (2 * n - (last + 1) < len - j) sym::abandon("literals of a clause in order"); int l = sym::choose(nm + std::to_string(j), last + 1, 2 * n - (len - j)); last = l; int v = ids[(std::size_t)(l / 2)]; c.push_back(l % 2 ? ~Literal{v} : Literal{v}); } return c; };
    std::vector<Clause> all;
    int split = fixed_split >= 0 ? fixed_split : sym::choose("split", 0, m);
    for (int i = 0; i < m; ++i) {
        if (i == split) s.on_restart(db, t);
        Clause c = mk("c" + std::to_string(i) + "_", i == m - 1 ? lastlen : minlen == maxlen ? maxlen : sym::choose("len" + std::to_string(i), minlen, maxlen)); all.push_back(c); db.learn_clause(c);
    }
    s.on_restart(db, t);
    auto z = [&](Clause const& c) { std::vector<Z> v; for (auto l : c) v.push_back(l.is_negation() ? !bool_b(l.var().ord()) : bool_b(l.var().ord())); return disj(v); };
    bool kept = db.learned().size() == all.size();                 // nothing removed: the same conjunction
    for (auto& c : db.learned()) kept = kept && std::find(all.begin(), all.end(), c) != all.end();
    if (kept) { sym::witness("nothing subsumed"); return; }
    std::vector<Z> a, b; for (auto& c : all) a.push_back(z(c)); for (auto& c : db.learned()) b.push_back(z(c));
    sym::verify(!sym::sat(conj(a) != conj(b)), "C04: removing subsumed clauses changed the meaning of the clause database");
    sym::witness("subsumption");
}
// minimisation against an arbitrary reason structure: variables 0..n-1 falsified in order; some have a reason over earlier ones
void run_minimize(int n, int clauses = 1)
{
    Event_dispatcher disp; Trail t{disp}; auto& model = t.set_model<bool>(Variable::boolean, n);
    Subsumption s; s.on_variable_resize(Variable::boolean, n);
    std::deque<Clause> reasons; std::vector<Literal> lits;
    auto z = [&](Clause const& c) { std::vector<Z> v; for (auto l : c) v.push_back(l.is_negation() ? !bool_b(l.var().ord()) : bool_b(l.var().ord())); return disj(v); };
    std::vector<Z> known;
    for (int i = 0; i < n; ++i) {
        bool val = i % 2 == 0;
        Literal tl = val ? Literal{i} : ~Literal{i};
        lits.push_back(~tl);                                  // false literal
        int mask = i == 0 ? 0 : sym::choose("reason" + std::to_string(i), 0, (1 << i));   // 2^i = decision
        if (i == 0 || mask == (1 << i)) { t.decide(Variable{i, Variable::boolean}); model.set_value(i, val); }
        else {
            Clause c{tl}; int lev = 0; for (int j = 0; j < i; ++j) if (mask >> j & 1) { c.push_back(lits[(std::size_t)j]); lev = std::max(lev, *t.decision_level(Variable{j, Variable::boolean})); }
            reasons.push_back(c); known.push_back(z(c));
            t.propagate(Variable{i, Variable::boolean}, &reasons.back(), lev); model.set_value(i, val);
        }
    }
    for (int k = 0; k < clauses; ++k) {                       // one after another by the same object
        int cm = sym::choose("clause" + (k ? std::to_string(k) : std::string()), 1, (1 << n) - 1);
        Clause c; for (int j = n - 1; j >= 0; --j) if (cm >> j & 1) c.push_back(lits[(std::size_t)j]);
        Clause before = c; s.minimize(t, c);
        for (auto l : c) sym::verify(std::find(before.begin(), before.end(), l) != before.end(), "C04: minimisation added a literal");
        auto premises = known; premises.push_back(z(before));
        sym::verify(!sym::sat(conj(premises) && !z(c)), "C04: a minimised clause does not follow from the clause and the reasons");
    }
    sym::witness("minimisation");
}
// ---- arithmetic -------------------------------------------------------------------------------------------------------
struct Con { std::vector<std::pair<int, int>> t; Order_predicate p; int sym; int num, den; };      // sym >= 0: symbolic constant c<sym> + num/den
struct Lra { int nx, nb; std::vector<Con> cons; std::vector<std::vector<int>> cl; int lo = -3, hi = 3, picks = 4, restarts = 1, phases = 0; bool bounds = false, eff = false, one = false, unassigned = false; int stride = 1; };
void run_lra(std::string const& prop, Lra const& f)
{
    Solver s;
    s.trail().set_model<bool>(Variable::boolean, 0);
    s.trail().set_model<Rational>(Variable::rational, 0);
    auto& m = s.set_theory<Monitor>();
    m.prop = prop; m.bcp = &m.inner.add_theory<Bool_theory>(); m.lra = &m.inner.add_theory<Linear_arithmetic>();
    Linear_arithmetic::Options o; o.prop_bounds = f.bounds; o.prop_rational = f.eff; o.return_all_conflicts = !f.one; o.prop_unassigned = f.unassigned; m.lra->set_options(o);
    m.sym_phase = f.phases > 0; m.phase_left = f.phases;
    s.set_restart_policy<Sym_restart>(f.restarts);
    s.set_variable_order<Sym_order>(f.picks);
    s.trail().resize(Variable::rational, f.nx * f.stride);
    std::vector<Literal> lits;
    std::map<int, Rational> in;
    for (auto& c : f.cons) {
        Rational rhs = rat(mpq_class(c.num, c.den));
        if (c.sym >= 0) { auto it = in.find(c.sym); if (it == in.end()) it = in.emplace(c.sym, rat_in("c" + std::to_string(c.sym), f.lo, f.hi)).first; rhs = it->second + rhs; }
        std::vector<int> vars; std::vector<Rational> coef; Z sum = sym::ctx().real_val(0);
        for (auto [v0, k] : c.t) { int v = (v0 + 1) * f.stride - 1; vars.push_back(v); coef.push_back(Rational{k}); sum = sum + zr(Rational{k}) * real_x(v); }
        auto k = m.lra->constraint(s.trail(), vars, coef, c.p, rhs);
        Z w = rel(c.p, sum, zr(rhs)); if (k.lit().is_negation()) w = !w;
        m.written.emplace(k.lit().var().ord(), w);
        lits.push_back(k.lit());
    }
    if (f.stride > 1) s.trail().resize(Variable::boolean, (int)s.trail().model(Variable::boolean).num_vars() + f.stride);
    for (int i = 0; i < f.nb; ++i) { int n = (int)s.trail().model(Variable::boolean).num_vars(); s.trail().resize(Variable::boolean, n + 1); lits.push_back(Literal{n}); }
    std::vector<Z> all;
    for (auto& c : f.cl) { Clause q; for (int l : c) { Literal x = lits[(std::size_t)(std::abs(l) - 1)]; q.push_back(l > 0 ? x : ~x); } s.db().assert_clause(q); all.push_back(m.clause(q)); }
    auto r = s.check();
    sym::witness(r == Solver::Result::sat ? "sat" : "unsat"); if (m.steps > 60) sym::witness("more than 60 rounds"); if (m.steps > 200) sym::witness("more than 200 rounds");
    if (prop == "C05" || prop == "C16" || prop == "C06") {
        if (r == Solver::Result::unsat) m.verify(!conj(all), prop + ": unsat reported for a satisfiable problem");
        else {
            std::vector<Z> v; auto& rm = s.trail().model<Rational>(Variable::rational); auto& bm = s.trail().model<bool>(Variable::boolean);
            z3::expr_vector from(sym::ctx()), to(sym::ctx());
            for (int i = 0; i < f.nx * f.stride; ++i) { from.push_back(real_x(i)); to.push_back(zr(rm.value(i))); }
            for (int i = 0; i < (int)bm.num_vars(); ++i) { from.push_back(bool_b(i)); to.push_back(sym::ctx().bool_val((bool)bm.value(i))); }
            Z e = conj(all); m.verify(e.substitute(from, to), prop + ": the final assignment does not satisfy the problem");
        }
    }
}
// ---- theory histories: symbolic sequences of asserting atoms, deciding values and backtracking, without a search ---------------
// the first `signs` atoms are asserted with a symbolic sign, later ones positively
void run_steps(std::string const& prop, Lra const& f, int steps, int signs)
{
    Database db; Event_dispatcher disp; Monitor m; disp.add(&m); Trail t{disp};
    auto& bm = t.set_model<bool>(Variable::boolean, 0); auto& rm = t.set_model<Rational>(Variable::rational, 0);
    m.prop = prop; m.bcp = &m.inner.add_theory<Bool_theory>(); m.lra = &m.inner.add_theory<Linear_arithmetic>();
    Linear_arithmetic::Options o; o.prop_bounds = f.bounds; o.return_all_conflicts = !f.one; m.lra->set_options(o);
    t.resize(Variable::rational, f.nx);
    std::vector<int> atoms; std::map<int, Rational> in;
    for (auto& c : f.cons) {
        Rational rhs = rat(mpq_class(c.num, c.den));
        if (c.sym >= 0) { auto it = in.find(c.sym); if (it == in.end()) it = in.emplace(c.sym, rat_in("c" + std::to_string(c.sym), f.lo, f.hi)).first; rhs = it->second + rhs; }
        std::vector<int> vars; std::vector<Rational> coef; Z sum = sym::ctx().real_val(0);
        for (auto [v, k] : c.t) { vars.push_back(v); coef.push_back(Rational{k}); sum = sum + zr(Rational{k}) * real_x(v); }
        auto k = m.lra->constraint(t, vars, coef, c.p, rhs);
        Z w = rel(c.p, sum, zr(rhs)); if (k.lit().is_negation()) w = !w;
        m.written.emplace(k.lit().var().ord(), w);
        atoms.push_back(k.lit().is_negation() ? -k.lit().var().ord() - 1 : k.lit().var().ord() + 1);
    }
    for (auto [type, model] : t.models()) disp.on_variable_resize(type, model->num_vars());
    disp.on_init(db, t);
    bool conflict = !m.propagate(db, t).empty(); int turn = 0;
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s); int lv = t.decision_level();
        auto back = [&](int lo) { int l = lo < lv - 1 ? sym::choose("back" + k, lo, lv - 1) : lo; disp.on_before_backtrack(db, t, l); t.backtrack(l); sym::witness("backtracked"); };
        if (conflict) { sym::witness("conflict"); if (!lv) return; back(0); conflict = !m.propagate(db, t).empty(); continue; }
        std::vector<int> u; std::vector<int> x;
        for (int a : atoms) if (!bm.is_defined(std::abs(a) - 1) && std::find(u.begin(), u.end(), a) == u.end()) u.push_back(a);
        for (int i = 0; i < (int)rm.num_vars(); ++i) if (!rm.is_defined(i)) x.push_back(i);
        int op = sym::choose("op" + k, 0, 3);      // 0, 1: atom, 2: value, 3: backtrack
        if (op == 3 && lv > 0) back(0);
        else if (op == 2 ? !x.empty() : u.empty() && !x.empty()) { int v = x.size() == 1 ? x[0] : x[(std::size_t)sym::choose("var" + k, 0, (int)x.size() - 1)]; m.decide(db, t, Variable{v, Variable::rational}); sym::witness("value"); }
        else if (!u.empty()) {
            int a = u[u.size() == 1 ? 0 : (std::size_t)sym::choose("atom" + k, 0, (int)u.size() - 1)];
            bool val = a > 0; if (turn < signs && sym::flip("val" + k)) val = !val; ++turn;
            bm.set_value(std::abs(a) - 1, val); t.decide(Variable{std::abs(a) - 1, Variable::boolean});
        } else return;
        conflict = !m.propagate(db, t).empty();
    }
    sym::witness("history");
}
std::vector<std::pair<std::string, Lra>> hand_lra()
{
    auto L = Order_predicate::leq, T = Order_predicate::lt, E = Order_predicate::eq;
    std::vector<std::pair<std::string, Lra>> r;
    auto add = [&](std::string const& n, int nx, std::vector<Con> c) { Lra f; f.nx = nx; f.nb = 0; f.cons = c; r.push_back({n, f}); };
    add("sum3", 3, {{{{0, 1}}, L, 0, 0, 1}, {{{1, 1}}, L, 1, 0, 1}, {{{2, 1}, {0, -1}, {1, -1}}, L, -1, 0, 1}, {{{2, -1}}, T, 1, 2, 1}});
    add("sum3e", 3, {{{{0, 1}}, L, 0, 0, 1}, {{{1, -1}}, T, 1, 0, 1}, {{{1, 1}, {2, 1}, {0, -1}}, E, -1, 1, 1}, {{{0, -1}}, T, -1, 2, 1}});
    add("sum4", 4, {{{{0, 1}}, L, 0, 0, 1}, {{{1, 1}}, T, -1, 1, 1}, {{{2, -1}}, L, 1, 0, 1}, {{{3, 1}, {0, -1}, {1, -2}, {2, 1}}, L, -1, 0, 1}});
    add("chain", 4, {{{{0, 1}}, L, 0, 0, 1}, {{{1, 1}, {0, -1}}, L, -1, 0, 1}, {{{2, 1}, {1, -1}}, T, -1, 1, 1}, {{{3, 1}, {2, -1}}, L, -1, -1, 1}, {{{3, -1}}, L, 1, 0, 1}});
    add("chaine", 3, {{{{0, 1}, {1, -1}}, E, 0, 0, 1}, {{{1, 1}, {2, -1}}, E, -1, 1, 1}, {{{2, 1}}, E, 1, 0, 1}, {{{0, 1}}, T, -1, 0, 1}});
    add("tri", 3, {{{{0, 1}, {1, 1}}, L, 0, 0, 1}, {{{1, 1}, {2, 1}}, L, 1, 0, 1}, {{{0, -1}, {2, -1}}, T, -1, -1, 1}, {{{0, 1}, {1, -1}, {2, 1}}, E, -1, 0, 1}});
    add("two", 3, {{{{0, 1}}, L, 0, 0, 1}, {{{0, 1}}, L, 1, 0, 1}, {{{0, -1}}, T, -1, 2, 1}, {{{1, 1}, {0, -1}}, T, -1, 0, 1}, {{{1, -1}, {2, 1}}, L, -1, 0, 1}});
    add("watch4", 4, {{{{0, 1}, {1, 1}, {2, 1}, {3, 1}}, L, 0, 0, 1}, {{{3, 1}, {2, -1}, {1, 1}, {0, -1}}, T, 1, 0, 1}, {{{1, 1}, {3, 1}}, E, -1, 1, 1}});
    add("watch5", 5, {{{{0, 1}, {1, 1}, {2, 1}, {3, 1}, {4, -1}}, E, 0, 0, 1}, {{{4, 1}, {0, -1}, {2, 1}}, T, 1, 0, 1}});
    return r;
}
// more variables, atoms and conflicts; the clauses are over a pool of atoms
Lra big_lra(unsigned seed)
{
    Rng r(seed * 37 + 11);
    Lra f; f.nx = r.in(3, 6); f.nb = r.in(0, 3); int n = r.in(7, 12), nsym = r.in(2, 3);
    for (int i = 0; i < n; ++i) {
        Con c{{}, Order_predicate::leq, -1, 0, 1};
        int nv = std::min(f.nx, r.in(0, 9) < 3 ? 1 : r.in(2, 4));
        std::set<int> used; while ((int)used.size() < nv) used.insert(r.in(0, f.nx - 1));
        int co[] = {1, -1, 1, -1, 2, -2, 3, -1};
        for (int v : used) c.t.push_back({v, co[r.in(0, 7)]});
        int p = r.in(0, 6); c.p = p < 3 ? Order_predicate::leq : p < 5 ? Order_predicate::lt : Order_predicate::eq;
        c.sym = r.in(0, 2) == 0 ? r.in(0, nsym - 1) : -1; c.num = r.in(-3, 3);
        f.cons.push_back(c);
    }
    int tot = n + f.nb;
    for (int i = r.in(n, 2 * n); i > 0; --i) {
        int len = r.in(0, 9); len = len < 2 ? 1 : len < 6 ? 2 : 3;
        std::set<int> u; while ((int)u.size() < len) u.insert(r.in(1, tot));
        std::vector<int> c; for (int x : u) c.push_back(r.in(0, 2) ? x : -x);
        f.cl.push_back(c);
    }
    f.picks = 6; f.restarts = 2; f.phases = 3;
    return f;
}
Lra gen_lra(unsigned seed, std::string const& style)
{
    Rng r(seed * 31 + 5);
    Lra f; f.nx = style == "one" ? 1 : r.in(2, 3); f.nb = r.in(0, 2);
    int n = style == "one" ? r.in(3, 5) : r.in(3, 6); int nsym = r.in(1, 3);
    for (int i = 0; i < n; ++i) {
        Con c{{}, Order_predicate::leq, -1, 0, 1};
        int nv = std::min(f.nx, r.in(0, 4) < 2 ? 1 : r.in(2, 3));
        std::set<int> used; while ((int)used.size() < nv) used.insert(r.in(0, f.nx - 1));
        int co[] = {1, -1, 1, 2, -2, -1, 3, 1};
        for (int v : used) c.t.push_back({v, co[r.in(0, 7)]});
        int p = r.in(0, 4); c.p = p < 2 ? Order_predicate::leq : p < 4 ? Order_predicate::lt : Order_predicate::eq;
        c.sym = r.in(0, 3) ? r.in(0, nsym - 1) : -1; c.num = r.in(-2, 2); if (c.sym >= 0 && r.in(0, 1)) c.num = 0; c.den = r.in(0, 3) ? 1 : 2;
        f.cons.push_back(c);
    }
    int tot = n + f.nb;
    for (int i = 0; i < n; ++i) {
        int l = i + 1; int sgn = r.in(0, 2) ? 1 : -1;
        int k = r.in(0, 5);
        if (k < 3) f.cl.push_back({sgn * l}); else if (k < 5) f.cl.push_back({sgn * l, (r.in(0, 1) ? 1 : -1) * r.in(1, tot)}); else f.cl.push_back({sgn * l, (r.in(0, 1) ? 1 : -1) * r.in(1, tot), (r.in(0, 1) ? 1 : -1) * r.in(1, tot)});
    }
    f.picks = r.in(3, 6); f.restarts = r.in(0, 2); f.phases = r.in(0, 3);
    return f;
}
// ---- one variable: bounds, excluded values, cached value (C07 and C06) --------------------------------------------------
struct One { std::vector<std::pair<Order_predicate, bool>> c; int lo, hi; bool integer; bool cached; };
void run_one(std::string const& prop, One const& f)
{
    Event_dispatcher disp; Linear_arithmetic lra; disp.add(&lra);
    Database db; Trail t{disp};
    auto& bm = t.set_model<bool>(Variable::boolean, 0); auto& rm = t.set_model<Rational>(Variable::rational, 1);
    auto cons = [&](std::string const& nm, Order_predicate p) { return lra.constraint(t, std::vector<int>{0}, std::vector<Rational>{Rational{1}}, p, rat_in(nm, f.lo, f.hi, f.integer)).lit(); };
    auto put = [&](Literal l, bool v) { bool val = v != l.is_negation(); int o = l.var().ord(); if (bm.is_defined(o)) { if (bm.value(o) != val) sym::abandon("contradicting atoms"); return; } bm.set_value(o, val); t.propagate(l.var(), nullptr, t.decision_level()); };
    if (f.cached) {          // a first visit leaves a cached value that the second one may have to avoid
        Literal e = cons("cache", Order_predicate::eq);
        t.decide(e.var()); bm.set_value(e.var().ord(), !e.is_negation());
        if (!lra.propagate(db, t).empty()) return;
        lra.decide(db, t, Variable{0, Variable::rational});
        if (!lra.propagate(db, t).empty()) return;
        lra.on_before_backtrack(db, t, 0); t.backtrack(0);
    }
    int i = 0; std::vector<std::pair<Literal, std::pair<Z, std::pair<Order_predicate, bool>>>> w;
    for (auto [p, v] : f.c) {
        std::string nm = "k" + std::to_string(i++); Rational rhs = rat_in(nm, f.lo, f.hi, f.integer);
        Literal l = lra.constraint(t, std::vector<int>{0}, std::vector<Rational>{Rational{1}}, p, rhs).lit();
        put(l, v); w.push_back({l, {zr(rhs), {p, v}}});
    }
    auto conflicts = lra.propagate(db, t);
    Ref r;
    for (auto& [l, q] : w) { auto [z, pv] = q; auto [p, v] = pv;
        if (p == Order_predicate::eq) { if (v) { r.lo.push_back({z, false}); r.up.push_back({z, false}); } else r.ne.push_back(z); }
        else if (v) r.up.push_back({z, p == Order_predicate::lt}); else r.lo.push_back({z, p == Order_predicate::leq}); }
    if (!conflicts.empty()) { sym::verify(!Monitor::feasible(r), prop + ": conflict although an allowed value exists"); sym::witness("conflict"); return; }
    sym::verify(Monitor::feasible(r), prop + ": no conflict although no value is allowed");
    if (prop == "C06") {
        auto models = lra.relevant_models(t); auto& b = lra.find_bounds(0);
        auto lb = b.lower_bound(models), ub = b.upper_bound(models);
        sym::verify((lb != nullptr) == !r.lo.empty() && (ub != nullptr) == !r.up.empty(), "C06: presence of bounds");
        for (auto* side : {&r.lo, &r.up}) {
            bool low = side == &r.lo; auto bd = low ? lb : ub; if (!bd) continue;
            Z v = zr(bd->value()); bool st = bd->is_strict(); std::vector<Z> some;
            for (auto& x : *side) { some.push_back(x.first == v && sym::ctx().bool_val(x.second == st)); sym::verify((low ? x.first < v : x.first > v) || (x.first == v && sym::ctx().bool_val(st || !x.second)), "C06: a bound is not the strongest one"); }
            sym::verify(disj(some), "C06: a bound is not one of the constraints");
        }
        sym::witness("bounds");
        return;
    }
    lra.decide(db, t, Variable{0, Variable::rational});
    sym::verify(rm.is_defined(0) && t.decision_level(Variable{0, Variable::rational}).has_value(), "C07: the variable was not decided");
    sym::verify(Monitor::allowed(r, zr(rm.value(0))), "C07: the decided value is outside the allowed values");
    sym::witness("decided");
}
// ---- Fourier-Motzkin steps (C23) ----------------------------------------------------------------------------------------
void run_fm(bool three)
{
    Event_dispatcher disp; Linear_arithmetic lra; disp.add(&lra);
    Trail t{disp}; t.set_model<bool>(Variable::boolean, 0); t.set_model<Rational>(Variable::rational, 3);
    int co[] = {1, -1, 2, -3};
    struct C { Linear_arithmetic::Constraint c; Z z; int pol; bool eq; bool strict; Z e; };
    auto mk = [&](std::string const& n, int v2, bool any) {
        int a = co[sym::choose(n + "a", 0, any ? 3 : 2)], b = v2 == 0 ? 0 : co[sym::choose(n + "b", 0, 1)];
        int p = sym::choose(n + "p", 0, 4);    // = <= < > >=
        std::vector<int> vars{0}; std::vector<Rational> coef{Rational{a}}; Z sum = zr(Rational{a}) * real_x(0);
        if (v2) { vars.push_back(v2); coef.push_back(Rational{b}); sum = sum + zr(Rational{b}) * real_x(v2); }
        Rational rhs = rat_in(n + "r", -3, 3);
        Order_predicate op = p == 0 ? Order_predicate::eq : p == 1 || p == 3 ? Order_predicate::leq : Order_predicate::lt;
        auto c = lra.constraint(t, vars, coef, op, rhs); Z z = rel(op, sum, zr(rhs));
        if (p >= 3) { c = ~c; z = !z; }
        int dir = p == 0 ? 0 : (p < 3) == (a > 0) ? 1 : -1;
        Z e = zr(rhs); if (v2) e = e - zr(Rational{b}) * real_x(v2);
        return C{c, z, dir, p == 0, p == 2 || p == 3, e / zr(Rational{a})};
    };
    C c1 = mk("u", 1, true), c2 = mk("v", 2, true);
    if (!c1.eq && !c2.eq && c1.pol == c2.pol) sym::abandon("both constraints bound the variable from the same side");
    auto poly = [&](Fm_elimination const& f) { Z s = zr(f.derived().constant); for (auto& [v, k] : f.derived()) s = s + zr(k) * real_x(v); return rel(f.predicate(), s, sym::ctx().real_val(0)); };
    auto has = [&](Fm_elimination const& f, int x) { for (auto& [v, k] : f.derived()) if (v == x) return true; return false; };
    Fm_elimination f{&lra, c1.c};
    { Fm_elimination g{&lra, c2.c}; sym::verify(!sym::sat(Z(poly(g) != c2.z)) , "C23: the starting polynomial differs from the constraint"); }
    f.resolve(Fm_elimination{&lra, c2.c}, 0);
    sym::verify(!has(f, 0), "C23: the eliminated variable is still in the derived constraint");
    Z d = poly(f);
    // exact projection of both constraints to the remaining variables
    auto subst = [&](Z z, Z const& by, int v) { z3::expr_vector from(sym::ctx()), to(sym::ctx()); from.push_back(real_x(v)); to.push_back(by); return z.substitute(from, to); };
    Z up = c1.pol > 0 ? c1.e : c2.e, lo = c1.pol > 0 ? c2.e : c1.e;
    Z proj = c1.eq ? subst(c2.z, c1.e, 0) : c2.eq ? subst(c1.z, c2.e, 0) : c1.strict || c2.strict ? lo < up : lo <= up;
    sym::verify(z3::implies(c1.z && c2.z, d), "C23: the derived constraint is not implied");
    sym::verify(z3::implies(d, proj), "C23: the derived constraint is weaker than the elimination");
    bool ok = f.predicate() == Order_predicate::lt ? c1.strict || c2.strict : f.predicate() == Order_predicate::eq ? c1.eq && c2.eq : !c1.strict && !c2.strict && !(c1.eq && c2.eq);
    sym::verify(ok, "C23: strictness of the derived constraint");
    sym::witness("resolved");
    if (three && has(f, 1) && f.predicate() != Order_predicate::eq) {
        // eliminate a second variable from the result, with a bound on the other side
        Z dsum = zr(f.derived().constant); for (auto& [v, k] : f.derived()) dsum = dsum + zr(k) * real_x(v);
        Z dstrict = dsum < 0; bool upper = false; for (auto& [v, k] : f.derived()) if (v == 1) upper = k > Rational{0};
        Rational rhs = rat_in("wr", -3, 3); bool st = sym::flip("ws");
        auto c = lra.constraint(t, std::vector<int>{1}, std::vector<Rational>{Rational{1}}, upper == st ? Order_predicate::leq : Order_predicate::lt, rhs);
        // upper bound derived -> need a lower bound: not (y <= r) is strict, not (y < r) is non-strict
        Z z = rel(upper == st ? Order_predicate::leq : Order_predicate::lt, real_x(1), zr(rhs));
        if (upper) { c = ~c; z = !z; }
        f.resolve(Fm_elimination{&lra, c}, 1);
        Z d2 = poly(f);
        sym::verify(!has(f, 1), "C23: the second eliminated variable is still in the derived constraint");
        sym::verify(z3::implies(d && z, d2), "C23: the second derived constraint is not implied");
        sym::verify(z3::implies(d2, subst(st ? dstrict : d, zr(rhs), 1)), "C23: the second derived constraint is weaker than the elimination");
        sym::witness("resolved twice");
    }
}
// ---- constraint atoms (C08) ---------------------------------------------------------------------------------------------
void run_atom(int shape)
{
#ifndef SYM_CONCRETE
    sym::rt::real_hash = shape == 2 || shape >= 5;
#endif
    Event_dispatcher disp; Linear_arithmetic lra; disp.add(&lra);
    Trail t{disp}; t.set_model<bool>(Variable::boolean, 0); auto& rm = t.set_model<Rational>(Variable::rational, 6);
    auto pred = [&](std::string const& n) { int p = sym::choose(n, 0, 2); return p == 0 ? Order_predicate::eq : p == 1 ? Order_predicate::lt : Order_predicate::leq; };
    struct A { Literal l; Z z; };
    auto mk = [&](std::string const& n, std::vector<int> vars, std::vector<Rational> coef) {
        bool any = false; for (auto& k : coef) any = any || k != Rational{0};
        if (!any) sym::abandon("a constraint without variables (evaluated by the front end)");
        Order_predicate p = pred(n + "p"); Rational rhs = rat_in(n + "r", -3, 3); Z s = sym::ctx().real_val(0);
        for (std::size_t i = 0; i < vars.size(); ++i) s = s + zr(coef[i]) * real_x(vars[i]);
        Z z = rel(p, s, zr(rhs));
        Literal l = lra.constraint(t, vars, coef, p, rhs).lit();
        return A{l, z};
    };
    auto check = [&](A const& a, char const* m) {
        auto c = lra.constraint(a.l); sym::verify(c.lit() == a.l, "C08: the literal of a constraint is not found again");
        sym::verify(Monitor::cons(c) == a.z, m);
    };
    auto num = [&](std::string const& n) { static int k[] = {1, -1, 2, -2, 0, 3}; return Rational{k[sym::choose(n, 0, 5)]}; };
    if (shape == 0) {       // symbolic coefficients, one variable
        A a = mk("a", {0}, {rat_in("a0", -2, 2)}); check(a, "C08: the atom differs from the written constraint");
        A b = mk("b", {0}, {num("b0")}); check(b, "C08: the atom differs from the written constraint"); check(a, "C08: a later constraint changed the meaning of an atom");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    } else if (shape == 1) { // two variables in both orders, grid coefficients
        bool sw = sym::flip("swap");
        A a = mk("a", {0, 1}, {num("a0"), num("a1")});
        std::vector<int> v{0, 1}; if (sw) std::swap(v[0], v[1]);
        A b = mk("b", v, {num("b0"), num("b1")});
        check(a, "C08: the atom differs from the written constraint"); check(b, "C08: the atom differs from the written constraint");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    } else if (shape == 2) { // five variables (the other comparison routine), rotated order
        int rot = sym::choose("rot", 0, 4); std::vector<int> v1{0, 1, 2, 3, 4}, v2; std::vector<Rational> k1, k2;
        int base[] = {1, 2, 1, 3, 1}; for (int i = 0; i < 5; ++i) k1.push_back(Rational{base[i]});
        k1[1] = num("x1");
        for (int i = 0; i < 5; ++i) { v2.push_back((i + rot) % 5); k2.push_back(k1[(std::size_t)((i + rot) % 5)] * Rational{2}); }
        std::size_t at = (std::size_t)sym::choose("at", 0, 4); if (sym::flip("differs")) k2[at] = num("y");
        A a = mk("a", v1, k1), b = mk("b", v2, k2);
        check(a, "C08: the atom differs from the written constraint"); check(b, "C08: the atom differs from the written constraint");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    } else if (shape == 3) { // evaluation at symbolic points
        A a = mk("a", {2, 0}, {num("a0"), num("a1")}); Rational x = rat_in("x", -3, 3), y = rat_in("y", -3, 3);
        rm.set_value(0, x); rm.set_value(2, y);
        auto c = lra.constraint(a.l); bool v = c.eval(rm);
        z3::expr_vector from(sym::ctx()), to(sym::ctx()); from.push_back(real_x(0)); to.push_back(zr(x)); from.push_back(real_x(2)); to.push_back(zr(y));
        Z e = a.z; e = e.substitute(from, to); sym::verify(v ? e : !e, "C08: evaluation of an atom differs from the written constraint"); sym::witness(v ? "true" : "false");
        auto nc = ~c; sym::verify(nc.eval(rm) != v, "C08: the negation of an atom has the same value");
        if (!c.empty()) { // implied value of the first variable
            auto rel0 = c.implied_value(rm); Z s = sym::ctx().real_val(0); auto k = c.coef().begin(); auto vi = c.vars().begin(); ++k; ++vi;
            for (; vi != c.vars().end(); ++vi, ++k) s = s + zr(*k) * zr(rm.value(*vi));
            sym::verify(zr(rel0) == zr(c.rhs()) - s, "C08: implied value");
        }
    } else if (shape == 5) { // many unrelated constraints between two mentions of the same one (table growth), long constraints
        int n = 6 + sym::choose("len", 0, 6); t.resize(Variable::rational, 40);
        std::vector<int> v1, v2; std::vector<Rational> k1, k2; for (int i = 0; i < n; ++i) { v1.push_back(3 * i); k1.push_back(Rational{i % 3 == 1 ? -2 : i + 1}); }
        int at = sym::choose("at", 0, n - 1), how = sym::choose("how", 0, 3);
        for (int i = n - 1; i >= 0; --i) { v2.push_back(3 * i); k2.push_back(k1[(std::size_t)i] * Rational{how == 1 ? -2 : 3}); }
        if (how == 2) k2[(std::size_t)at] = k2[(std::size_t)at] + Rational{1};
        if (how == 3) v2[(std::size_t)at] = v2[(std::size_t)at] + 1;
        A a = mk("a", v1, k1);
        int many = 40 * sym::choose("many", 0, 6); std::vector<Literal> others;
        for (int i = 0; i < many; ++i) others.push_back(lra.constraint(t, std::vector<int>{i % 37, i % 37 + 1}, std::vector<Rational>{Rational{1}, Rational{i / 37 + 1}}, Order_predicate::leq, Rational{i % 7}).lit());
        for (int i = 0; i < many; i += 11) { auto c = lra.constraint(others[(std::size_t)i]); sym::verify(c.lit() == others[(std::size_t)i], "C08: the literal of a constraint is not found again"); }
        A b = mk("b", v2, k2);
        check(a, "C08: the atom differs from the written constraint"); check(b, "C08: the atom differs from the written constraint");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    } else if (shape >= 6) { // three or four variables, coefficients that differ in value or only in place
        int n = shape == 6 ? 3 : 4; static int k6[] = {1, 2, -3}, k7[] = {1, 2}; auto co = [&](std::string const& nm) { return shape == 6 ? k6[sym::choose(nm, 0, 2)] : k7[sym::choose(nm, 0, 1)]; };
        std::vector<int> v1, v2; std::vector<Rational> c1, c2; int rev = sym::choose("rev", 0, 1); int sc = sym::flip("scale") ? -2 : 1;
        for (int i = 0; i < n; ++i) { v1.push_back(i); c1.push_back(Rational{co("a" + std::to_string(i))}); }
        for (int i = 0; i < n; ++i) { int j = rev ? n - 1 - i : i; v2.push_back(j); c2.push_back(Rational{sc * co("b" + std::to_string(j))}); }
        A a = mk("a", v1, c1), b = mk("b", v2, c2);
        check(a, "C08: the atom differs from the written constraint"); check(b, "C08: the atom differs from the written constraint");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    } else {                 // three constraints on the same variables, scaled by symbolic factors
        Rational k = rat_in("k", -2, 2); if (k == Rational{0}) sym::abandon("zero factor");
        A a = mk("a", {0, 1}, {Rational{2}, Rational{-1}}), b = mk("b", {1, 0}, {-k, k * Rational{2}});
        check(a, "C08: the atom differs from the written constraint"); check(b, "C08: the atom differs from the written constraint");
        if (a.l.var() == b.l.var()) { sym::verify(a.l == b.l ? a.z == b.z : a.z != b.z, "C08: two different constraints share an atom"); sym::witness("shared"); } else sym::witness("different");
    }
}
// ---- watched literals under symbolic decide/backtrack schedules (C18): clause 0 holds n distinct variables, `extra` are further clauses
void run_watches(int n, std::vector<std::vector<int>> extra, int vars, int steps, int learn_at, int first)
{
    Database db; Event_dispatcher disp; Trail t{disp}; auto& bm = t.set_model<bool>(Variable::boolean, vars); Bool_theory th; t.resize(Variable::boolean, vars); th.on_variable_resize(Variable::boolean, vars);
    auto mk = [&](std::vector<int> const& z) { Clause q; for (int l : z) q.push_back(l > 0 ? Literal{l - 1} : ~Literal{-l - 1}); return q; };
    std::vector<int> main; for (int i = 1; i <= n; ++i) main.push_back(i);
    if (learn_at < 0) db.assert_clause(mk(main));
    for (auto& z : extra) db.assert_clause(mk(z));
    bool conflict = false;
    auto fix = [&](char const*) {
        auto r = th.propagate(db, t); conflict = !r.empty();
        for (auto& c : r) sym::verify(eval(bm, c) == false, "C18: a reported conflict is not false");
        if (conflict) { sym::witness("conflict"); return; }
        for (auto* d : {&db.asserted(), &db.learned()}) for (auto& c : *d) {
            int un = 0; bool sat = false; for (auto l : c) { auto e = eval(bm, l); sat = sat || e == true; un += !e; }
            sym::verify(sat || un != 1, "C18: a unit clause was not propagated"); sym::verify(sat || un > 0, "C18: a false clause was not reported");
        }
        for (int i = 0; i < vars; ++i) if (auto* rs = t.reason(Variable{i, Variable::boolean})) {
            sym::witness("propagated"); int tr = 0; for (auto l : *rs) { bool own = l.var().ord() == i; tr += own && eval(bm, l) == true; if (!own) sym::verify(eval(bm, l) == false && *t.decision_level(l.var()) <= *t.decision_level(Variable{i, Variable::boolean}), "C18: the other literals of a reason are not false before it"); }
            sym::verify(tr == 1, "C18: a reason does not imply its literal");
        }
        sym::witness("fixpoint");
    };
    auto back = [&](int l) { th.on_before_backtrack(db, t, l); t.backtrack(l); };
    fix("start");
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s); int lv = t.decision_level();
        if (conflict) { if (!lv) return; back(sym::choose("back" + k, 0, lv - 1)); conflict = false; continue; }
        if (s == learn_at) {   // a learned clause arrives after a restart to level 0: it has no false literal there
            back(0); for (int l : main) if (bm.is_defined(l - 1)) return; auto& c = db.learn_clause(mk(main)); th.on_learned_clause(db, t, c); continue; }
        std::vector<int> u; for (int i = 0; i < vars; ++i) if (!bm.is_defined(i)) u.push_back(i);
        int lo = lv > 0 ? -1 : 0; if (u.empty() && lo == 0) return;
        int op = s == 0 && first >= 0 && first < (int)u.size() ? first : sym::choose("op" + k, lo, (int)u.size() - 1);
        if (op < 0) { back(sym::choose("back" + k, 0, lv - 1)); continue; }
        int v = u[(std::size_t)op]; bool val = v < n ? false : sym::flip("val" + k);
        bm.set_value(v, val); t.decide(Variable{v, Variable::boolean}); fix("step");
    }
    sym::witness("history");
}
// ---- trail histories (C17) ------------------------------------------------------------------------------------------------
// variables 0, gap, 2 gap, ...
void run_trail(int n, int steps, int gap = 1)
{
    int const size = (n - 1) * gap + 1;
    Event_dispatcher disp; Trail t{disp}; auto& bm = t.set_model<bool>(Variable::boolean, size); auto& rm = t.set_model<Rational>(Variable::rational, size);
    struct E { Variable v; int level; Clause* why; bool val; int at; }; std::vector<E> ref; int level = 0; std::deque<Clause> cl;
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s);
        int op = sym::choose("op" + k, 0, 3);
        if (op <= 1) {
            std::vector<Variable> u; for (int i = 0; i < size; i += gap) for (auto ty : {Variable::boolean, Variable::rational}) { Variable v{i, ty}; bool in = false; for (auto& e : ref) in = in || e.v == v; if (!in) u.push_back(v); }
            if (u.empty()) sym::abandon("no unassigned variable");
            Variable v = u[(std::size_t)sym::choose("var" + k, 0, (int)u.size() - 1)]; bool val = s % 2;
            if (op == 0) { ++level; t.decide(v); ref.push_back({v, level, nullptr, val, level}); }
            else { int l = sym::choose("level" + k, 0, level); Clause* why = nullptr; if (s % 2) { cl.push_back(Clause{}); why = &cl.back(); } t.propagate(v, why, l); ref.push_back({v, l, why, val, level}); }
            if (v.type() == Variable::boolean) bm.set_value(v.ord(), val); else rm.set_value(v.ord(), Rational{val ? 1 : 2});
        } else if (op == 2) {
            int l = sym::choose("back" + k, 0, level); t.backtrack(l); level = l;
            std::erase_if(ref, [&](E const& e) { return e.level > l; }); for (auto& e : ref) e.at = std::min(e.at, l);
        } else { t.clear(); ref.clear(); level = 0; }
        sym::verify(t.decision_level() == level, "C17: current decision level");
        sym::verify(t.empty() == (ref.empty() && level == 0), "C17: emptiness of the trail");
        for (int i = 0; i < size; i += gap) for (auto ty : {Variable::boolean, Variable::rational}) {
            Variable v{i, ty}; E const* e = nullptr; for (auto& x : ref) if (x.v == v) e = &x;
            sym::verify(t.decision_level(v) == (e ? std::optional<int>(e->level) : std::nullopt), "C17: level of a variable");
            sym::verify(t.reason(v) == (e ? e->why : nullptr), "C17: reason of a variable");
            sym::verify(t.model(ty).is_defined(i) == (e != nullptr), "C17: a value was kept after backtracking or lost");
            if (e && ty == Variable::boolean) sym::verify(bm.value(i) == e->val, "C17: value of a variable");
            if (e && ty == Variable::rational) sym::verify(rm.value(i) == Rational{e->val ? 1 : 2}, "C17: value of a variable");
            for (int l = 0; l <= level; ++l) { int c = 0; for (auto a : t.assigned(l)) c += a.var == v; sym::verify(c == (e && e->level <= l && l <= e->at ? 1 : 0), "C17: list of assigned variables of a level"); }
        }
        int c = 0; for (auto a : t.recent()) { (void)a; ++c; } sym::verify(c == (int)ref.size() || level > 0, "C17: recent assignments");
    }
    sym::witness("history");
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    bool th = tier() == "thorough"; int m = th ? 6 : 1;
    auto job = [&](std::string const& n, std::function<void()> b, bool rnd = true) { out.push_back({n, std::move(b), 0, rnd}); };
    if (p == "C03" || p == "C04" || p == "C17" || p == "C18") {
        for (auto& [n, f0] : hand_cnf()) { Cnf f = f0; if (th) { f.picks += 2; f.phases += 2; f.restarts += 1; f.symbolic += 2; } job("cnf_" + n, [p, f] { run_cnf(p, f); }); }
        int cnt = p == "C03" || p == "C04" ? 40 : 20;
        for (int i = 0; i < cnt * m; ++i) { Cnf f = gen_cnf((unsigned)i + 1000 * seed() + (p == "C04" ? 500 : 0), th); if (th) { f.picks += 2; f.restarts += 1; } job("cnf" + std::to_string(i), [p, f] { run_cnf(p, f); }); }
    }
    if (p == "C03" || p == "C04" || p == "C17" || p == "C18" || p == "C25")
        for (int i = 0; i < 12 * m; ++i) { Cnf f = big_cnf((unsigned)i + 1000 * seed() + 100 * (unsigned)(p[2] - '0')); job("big" + std::to_string(i), [p, f] { run_cnf(p, f); }); }
    if (p == "C04" || p == "C05" || p == "C06" || p == "C07" || p == "C16" || p == "C25")
        for (int i = 0; i < 14 * m; ++i) {
            Lra f = big_lra((unsigned)i + 1000 * seed() + 177 * (unsigned)(p[2] - '0'));
            if (p != "C07") { f.bounds = i % 3 == 1; f.one = i % 5 == 2; } if (p == "C16" || p == "C25") f.eff = i & 1;
            job("lrabig" + std::to_string(i), [p, f] { run_lra(p, f); });
        }
    if (p == "C03" || p == "C04" || p == "C17" || p == "C18")
        for (int i = 0; i < 5 * m; ++i) { Cnf f = gen_cnf((unsigned)i + 1000 * seed() + 7700, th); f.stride = i % 2 ? 14 : 29; f.picks = 2; job("wide" + std::to_string(i), [p, f] { run_cnf(p, f); }); }
    if (p == "C05" || p == "C06" || p == "C07" || p == "C16")
        for (int i = 0; i < 5 * m; ++i) { Lra f = i % 2 ? gen_lra((unsigned)i + 1000 * seed() + 8800, "many") : big_lra((unsigned)i + 1000 * seed() + 8800); f.stride = i % 2 ? 9 : 13; f.bounds = i == 1 || i == 2; f.eff = i == 3; f.picks = 3; job("lrawide" + std::to_string(i), [p, f] { run_lra(p, f); }); }
    if (p == "C25") {
        for (auto& [n, f0] : hand_cnf()) { Cnf f = f0; if (th) { f.picks += 2; f.phases += 2; f.restarts += 1; f.symbolic += 2; } job("cnf_" + n, [p, f] { run_cnf(p, f); }); }
        for (int i = 0; i < 20 * m; ++i) { Cnf f = gen_cnf((unsigned)i + 3000 + 1000 * seed(), th); job("cnf" + std::to_string(i), [p, f] { run_cnf(p, f); }); }
        for (int i = 0; i < 50 * m; ++i) {
            Lra f = gen_lra((unsigned)i + 1000 * seed() + 555, i % 6 == 5 ? "one" : "many");
            f.bounds = i & 1; f.eff = i & 2; f.one = i & 4; f.restarts = 2; f.phases = 2;
            job("lra" + std::to_string(i), [p, f] { run_lra(p, f); });
        }
    }
    if (p == "C18") {
        std::vector<std::vector<int>> none, one{{-1, 3}, {2, 4, -5}}, two{{1, 2, 6}, {-6, 3, 4}, {5, 6}}, three{{6, 1, 2, 3}, {-6, 4, 5, 2}};
        for (int n : {3, 4, 5}) for (int f = 0; f < n; ++f) job("watch" + std::to_string(n) + "_" + std::to_string(f), [=] { run_watches(n, none, n, th ? n + 5 : n == 5 ? 8 : n + 4, -1, f); });
        job("watch12", [=] { run_watches(12, none, 12, 18, -1, -1); }); job("watch19", [=] { run_watches(19, one, 19, 26, -1, -1); }); job("watch70", [=] { run_watches(9, {{-66, 1, 2}, {66, -70, 3}, {70, 4, -65, 5}}, 70, 14, -1, -1); });
        for (int f = 0; f < 5; ++f) { std::string k = std::to_string(f);
            job("watch6_" + k, [=] { run_watches(6, none, 6, th ? 10 : 8, -1, f); }); job("watchl" + k, [=] { run_watches(5, none, 5, 8, 2, f); });
            job("watchm" + k, [=] { run_watches(5, one, 5, 8, -1, f); }); job("watchn" + k, [=] { run_watches(5, two, 6, 8, -1, f); }); job("watcho" + k, [=] { run_watches(5, three, 6, 8, -1, f); }); }
    }
    if (p == "C04") {
        job("subsumption3", [] { run_subsumption(3, 3, 2, 2); }); job("subsumption3l", [] { run_subsumption(3, 3, 2, 3); }); job("subsumption2", [] { run_subsumption(2, 4, 2, 1); });
        job("subsumption5", [] { run_subsumption(40, 2, 2, 3); });
        // signatures have 64 bits: literals of variables far apart share one
        job("subsumption_sig", [] { run_subsumption(4, 2, 2, 3, {0, 30, 32, 94}); }); job("subsumption_sig3", [] { run_subsumption(3, 3, 2, 3, {0, 30, 32}, 2, 0); }); job("subsumption_sig4", [] { run_subsumption(3, 3, 2, 3, {1, 28, 34}, 2, 2); });
        job("subsumption_wide", [] { run_subsumption(4, 2, 3, 3, {1, 61, 65, 129}); });
        if (th) { job("subsumption4", [] { run_subsumption(3, 4, 3, 2); }); }
        job("minimize4", [] { run_minimize(4); }); job("minimize4twice", [] { run_minimize(4, 2); }); if (th) job("minimize5", [] { run_minimize(5); });
    }
    if (p == "C04" || p == "C05" || p == "C06" || p == "C07" || p == "C17" || p == "C16") {
        int cnt = p == "C17" || p == "C04" ? 20 : 50;
        for (int i = 0; i < cnt * m; ++i) {
            Lra f = gen_lra((unsigned)i + 1000 * seed() + 77 * (unsigned)(p[2] - '0'), i % 6 == 5 ? "one" : "many");
            if (p == "C05" || p == "C04") { f.bounds = i % 3 == 1; f.one = i % 5 == 2; }
            if (p == "C06") f.bounds = i % 2;
            if (p == "C16") { f.bounds = i & 1; f.eff = i & 2; f.one = i & 4; f.restarts = 1; }
            job("lra" + std::to_string(i), [p, f] { run_lra(p, f); });
        }
    }
    if (p == "C05" || p == "C06" || p == "C07" || p == "C17") {
        for (auto& [n, f0] : hand_lra()) for (int b = 0; b < (p == "C07" || p == "C17" ? 1 : 2); ++b) { Lra f = f0; f.bounds = b || p == "C06"; if (p == "C06" && b) continue; f.one = n == "two"; job("steps_" + n + (b ? "b" : ""), [p, f, th] { run_steps(p, f, th ? 11 : 8, 2); }); }
        for (int i = 0; i < (p == "C17" ? 6 : 16) * m; ++i) { Lra f = i % 3 == 2 ? big_lra((unsigned)i + 1000 * seed() + 31 * (unsigned)(p[2] - '0')) : gen_lra((unsigned)i + 1000 * seed() + 31 * (unsigned)(p[2] - '0'), "many"); f.bounds = p != "C07" && i % 2; f.one = i % 5 == 3; job("steps" + std::to_string(i), [p, f, th] { run_steps(p, f, th ? 16 : 12, 4); }); }
    }
    if (p == "C07" || p == "C06") {
        auto L = Order_predicate::leq, T = Order_predicate::lt, E = Order_predicate::eq;
        // (pred, true) upper bound / equality; (pred, false) lower bound / excluded value
        std::vector<std::pair<std::string, One>> t{
            {"free", {{}, -3, 3, false, true}}, {"ne1", {{{E, false}}, -2, 2, false, true}}, {"ne3", {{{E, false}, {E, false}, {E, false}}, -2, 2, false, true}},
            {"ub", {{{L, true}, {E, false}}, -3, 3, false, true}}, {"ubs", {{{T, true}, {E, false}, {E, false}}, -3, 3, false, false}},
            {"lb", {{{L, false}, {E, false}}, -3, 3, false, true}}, {"lbn", {{{T, false}, {E, false}, {E, false}}, -3, 3, false, false}},
            {"box", {{{L, true}, {T, false}, {E, false}}, -2, 2, false, true}}, {"open", {{{T, true}, {L, false}, {E, false}}, -2, 2, false, true}}, {"half", {{{L, true}, {L, false}}, -3, 3, false, true}}, {"half2", {{{T, true}, {T, false}}, -3, 3, false, true}},
            {"box2", {{{L, true}, {T, false}, {E, false}, {E, false}}, -1, 1, false, false}}, {"open2", {{{T, true}, {L, false}, {E, false}, {E, false}}, -1, 1, false, false}},
            {"two", {{{L, true}, {T, true}, {T, false}, {L, false}}, -2, 2, false, false}}, {"eq", {{{E, true}, {E, false}, {L, true}}, -2, 2, false, true}}, {"ints", {{{L, true}, {T, false}, {E, false}, {E, false}}, -2, 2, true, false}},
            {"intso", {{{T, true}, {L, false}, {E, false}, {E, false}, {E, false}}, -2, 2, true, false}}, {"intlb", {{{L, false}, {E, false}, {E, false}, {E, false}}, -3, 3, true, true}}, {"intub", {{{T, true}, {E, false}, {E, false}, {E, false}}, -3, 3, true, true}}};
        for (auto& [n, f] : t) { if (p == "C06" && f.c.size() < 2) continue; job("one_" + n, [p, f] { run_one(p, f); }); }
    }
    if (p == "C23") { job("fm", [] { run_fm(false); }); job("fm3", [] { run_fm(true); }); }
    if (p == "C08") for (int i = 0; i < 8; ++i) job("atom" + std::to_string(i), [i] { run_atom(i); });
    if (p == "C17") { job("trail", [th] { run_trail(2, th ? 6 : 4); }); job("trailwide", [th] { run_trail(3, th ? 5 : 4, 67); }); job("trail1", [th] { run_trail(1, th ? 9 : 7); }); }
}
