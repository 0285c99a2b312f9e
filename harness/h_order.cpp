// C19: decision heuristics. Histories of score updates, decisions, propagations and backtracks are symbolic.
#include "mon.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
using namespace yaga; using namespace mon;
namespace {
std::vector<Variable> unassigned(Trail& t) { std::vector<Variable> u; for (auto [ty, m] : t.models()) for (int i = 0; i < (int)m->num_vars(); ++i) if (!m->is_defined(i)) u.push_back(Variable{i, ty}); return u; }
bool among(std::vector<Variable> const& u, Variable v) { return std::find(u.begin(), u.end(), v) != u.end(); }

// pick() of an activity-based order against the scores it reports itself
void check_gv(Generalized_vsids& o, Linear_arithmetic& lra, Trail& t, std::optional<Variable> v)
{
    auto u = unassigned(t);
    sym::verify(v.has_value() || u.empty(), "C19: no variable was picked although some are unassigned");
    if (!v) return;
    sym::verify(among(u, *v), "C19: an assigned variable was picked");
    auto best = [&](auto const& of) { for (auto x : of) if (o.score(x) > o.score(*v)) return false; return true; };
    if (best(u)) { sym::witness("highest score"); return; }
    // otherwise it has to be the best of the variables the theory reports as having a single value
    auto models = lra.relevant_models(t);
    bool ok = v->type() == Variable::rational && lra.is_effectively_decided(models, v->ord());
    sym::verify(ok, "C19: a variable with a higher score was not picked");
    std::vector<Variable> eff; for (auto x : u) if (x.type() == Variable::rational && x != *v && o.score(x) > o.score(*v) && lra.is_effectively_decided(models, x.ord())) eff.push_back(x);
    sym::witness("effectively decided");
}
struct Spec { int nb, nx, steps; int warm; bool check2; };
// direct histories: the order listens to the same events the solver sends
template <class Order, class Check> void history(Spec const& f, Order& o, Linear_arithmetic* lra, Event_dispatcher& disp, Trail& t, Check check)
{
    Database db; disp.add(&o);
    auto& bm = t.set_model<bool>(Variable::boolean, 0); auto& rm = t.set_model<Rational>(Variable::rational, 0);
    int nb = f.nb; std::vector<int> atoms;
    t.resize(Variable::boolean, nb); t.resize(Variable::rational, f.nx);
    if (lra) for (int i = 0; i + 1 < f.nx; ++i) { lra->constraint(t, std::vector<int>{i, i + 1}, std::vector<Rational>{Rational{1}, Rational{1}}, Order_predicate::leq, Rational{i}); }
    nb = (int)bm.num_vars();
    db.assert_clause(Clause{Literal{0}, ~Literal{nb - 1}});
    disp.on_init(db, t);
    for (int i = 0; i < f.warm; ++i) o.on_learned_clause(db, t, Clause{});       // decay until the scores are close to the threshold
    std::vector<Clause> pool; for (int i = 0; i < nb; ++i) pool.push_back(Clause{Literal{i}}); pool.push_back(Clause{Literal{0}, Literal{nb - 1}}); if (nb > 2) pool.push_back(Clause{~Literal{1}, Literal{2}, Literal{1}});
    int last = (int)pool.size() - 1;
    auto assign = [&](Variable v) { if (v.type() == Variable::boolean) bm.set_value(v.ord(), true); else rm.set_value(v.ord(), Rational{0}); };
    check(o.pick(db, t));
    for (int s = 0; s < f.steps; ++s) {
        std::string k = std::to_string(s);
        auto u = unassigned(t);
        int op = sym::choose("op" + k, 0, f.check2 ? 6 : 5);
        if (op == 0) { auto v = o.pick(db, t); check(v); if (!v) sym::abandon("all variables assigned"); t.decide(*v); assign(*v); }
        else if (op == 1) { if (u.empty()) sym::abandon("all variables assigned"); auto v = u[(std::size_t)sym::choose("v" + k, 0, (int)u.size() - 1)]; t.propagate(v, nullptr, sym::choose("l" + k, 0, t.decision_level())); assign(v); }
        else if (op == 2) { if (t.decision_level() == 0) sym::abandon("nothing to backtrack"); int l = sym::choose("b" + k, 0, t.decision_level() - 1); disp.on_before_backtrack(db, t, l); t.backtrack(l); }
        else if (op == 3) o.on_learned_clause(db, t, pool[(std::size_t)sym::choose("c" + k, 0, last)]);
        else if (op == 4) o.on_conflict_resolved(db, t, pool[(std::size_t)sym::choose("c" + k, 0, last)]);
        else if (op == 5) { auto v = o.pick(db, t); check(v); }
        else { disp.on_before_backtrack(db, t, -1); t.clear(); db.assert_clause(pool[(std::size_t)sym::choose("c" + k, 0, last)]); disp.on_init(db, t); }       // next check()
    }
    check(o.pick(db, t));
    sym::witness("history");
}
void run_gv(Spec const& f) { Event_dispatcher disp; Linear_arithmetic lra; disp.add(&lra); Trail t{disp}; Generalized_vsids o{lra}; history(f, o, &lra, disp, t, [&](std::optional<Variable> v) { check_gv(o, lra, t, v); }); }
void run_evsids(Spec const& f)
{
    Event_dispatcher disp; Trail t{disp}; Evsids o;
    history(f, o, nullptr, disp, t, [&](std::optional<Variable> v) {
        std::vector<Variable> u; for (auto x : unassigned(t)) if (x.type() == Variable::boolean) u.push_back(x);
        sym::verify(v.has_value() == !u.empty(), "C19: a variable is picked exactly when one is unassigned");
        if (!v) return;
        sym::verify(among(u, *v), "C19: an assigned variable was picked");
        for (auto x : u) sym::verify(!(o.score(x.ord()) > o.score(v->ord())), "C19: a variable with a higher score was not picked");
        sym::witness("highest score");
    });
}
void run_first(Spec const& f, int kind)
{
    Event_dispatcher disp; Trail t{disp};
    auto check = [&](std::optional<Variable> v) {
        auto u = unassigned(t); if (kind) std::erase_if(u, [&](Variable x) { return x.type() != (kind == 1 ? Variable::boolean : Variable::rational); });
        sym::verify(v.has_value() == !u.empty(), "C19: a variable is picked exactly when one is unassigned");
        if (v) { sym::verify(among(u, *v), "C19: an assigned variable was picked"); sym::witness("picked"); }
    };
    if (kind == 0) { First_unassigned o; history(f, o, nullptr, disp, t, check); }
    else { First_unassigned o{kind == 1 ? Variable::boolean : Variable::rational}; history(f, o, nullptr, disp, t, check); }
}
// inside the solver
struct Checked final : public Variable_order {
    Generalized_vsids o; Linear_arithmetic& lra;
    explicit Checked(Linear_arithmetic& l) : o(l), lra(l) {}
    void on_init(Database& d, Trail& t) override { o.on_init(d, t); }
    void on_variable_resize(Variable::Type ty, int n) override { o.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { o.on_before_backtrack(d, t, l); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { o.on_learned_clause(d, t, c); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { o.on_conflict_resolved(d, t, c); }
    void on_restart(Database& d, Trail& t) override { o.on_restart(d, t); }
    std::optional<Variable> pick(Database& d, Trail& t) override { auto v = o.pick(d, t); check_gv(o, lra, t, v); return v; }
    bool is_before(Variable l, Variable r) const override { return o.is_before(l, r); }
};
struct Rng { unsigned long s; explicit Rng(unsigned long x) : s(x * 6364136223846793005ul + 1442695040888963407ul) { for (int i = 0; i < 4; ++i) next(); }
    unsigned next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 20); }
    int in(int lo, int hi) { return lo + (int)(next() % (unsigned)(hi - lo + 1)); } };
void run_solver(unsigned seed, bool eff, bool twice)
{
    Rng r(seed);
    Solver s; s.trail().set_model<bool>(Variable::boolean, 0); s.trail().set_model<Rational>(Variable::rational, 0);
    auto& th = s.set_theory<Theory_combination>(); th.add_theory<Bool_theory>(); auto& lra = th.add_theory<Linear_arithmetic>();
    Linear_arithmetic::Options o; o.prop_rational = eff; lra.set_options(o);
    s.set_restart_policy<Sym_restart>(2); s.set_variable_order<Checked>(lra);
    int nx = r.in(2, 4), nb = r.in(3, 5), nc = r.in(3, 6);
    s.trail().resize(Variable::rational, nx);
    std::vector<Literal> lits;
    for (int i = 0; i < nc; ++i) {
        std::vector<int> v{r.in(0, nx - 1)}; int w = r.in(0, nx - 1); if (w != v[0] && r.in(0, 1)) v.push_back(w);
        std::vector<Rational> k; for (std::size_t j = 0; j < v.size(); ++j) k.push_back(Rational{r.in(0, 1) ? 1 : -1});
        lits.push_back(lra.constraint(s.trail(), v, k, r.in(0, 2) ? Order_predicate::leq : Order_predicate::eq, rat_in("c" + std::to_string(i % 3), -2, 2)).lit());
    }
    for (int i = 0; i < nb; ++i) { int n = (int)s.trail().model(Variable::boolean).num_vars(); s.trail().resize(Variable::boolean, n + 1); lits.push_back(Literal{n}); }
    auto add = [&](int m) { for (int i = 0; i < m; ++i) { Clause c; int len = r.in(1, 3); std::set<int> used; for (int j = 0; j < len; ++j) { int a = r.in(0, (int)lits.size() - 1); if (!used.insert(lits[(std::size_t)a].var().ord()).second) continue; c.push_back(r.in(0, 1) ? lits[(std::size_t)a] : ~lits[(std::size_t)a]); } s.db().assert_clause(c); } };
    add(r.in(5, 10));
    auto res = s.check();
    sym::witness(res == Solver::Result::sat ? "sat" : "unsat");
    if (res == Solver::Result::sat) sym::verify(unassigned(s.trail()).empty(), "C19: a variable is left unassigned");
    (void)twice;
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    if (p != "C19") return;
    bool th = tier() == "thorough"; int x = th ? 2 : 0;
    auto job = [&](std::string const& n, std::function<void()> b) { out.push_back({n, std::move(b), 0, true}); };
    job("gv_small", [=] { run_gv({2, 2, 4 + x, 0, false}); });
    job("gv_init", [=] { run_gv({3, 1, 4 + x, 0, true}); });
    job("gv_many", [=] { run_gv({7, 3, 4 + x, 3, false}); });
    for (int w : {1645, 1648, 1651, 1653}) job("gv_rescale" + std::to_string(w), [=] { run_gv({3, 2, 4 + x, w, false}); });
    job("evsids", [=] { run_evsids({3, 1, 4 + x, 0, true}); });
    for (int w : {1648, 1653}) job("evsids_rescale" + std::to_string(w), [=] { run_evsids({3, 0, 4 + x, w, true}); });
    for (int k = 0; k < 3; ++k) job("first" + std::to_string(k), [=] { run_first({2, 2, 4 + x, 0, false}, k); });
    for (int i = 0; i < (th ? 60 : 16); ++i) job("solver" + std::to_string(i), [=] { run_solver((unsigned)i + 991 * seed(), i & 1, false); });
}
