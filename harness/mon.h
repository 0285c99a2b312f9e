// Monitored solver: the real Solver and theory plugins are run with a symbolic schedule (decision order, phases,
// restarts) and symbolic constants; the monitor states the properties over solver terms after every step.
#pragma once
#include "../engine/sym.h"
#include "Bool_theory.h"
#include "Event_dispatcher.h"
#include "Event_listener.h"
#include "Linear_arithmetic.h"
#include "Restart.h"
#include "Solver.h"
#include "Theory_combination.h"
#include "Trail.h"
#include "Variable_order.h"
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
namespace mon {
using namespace yaga;
using Z = z3::expr;

inline Rational rat_in(std::string const& name, int lo, int hi, bool integer = false)
{
#ifdef SYM_CONCRETE
    (void)lo; (void)hi; (void)integer; return Rational(sym::rt::input_value(name).get_str().c_str());
#else
    return Rational::of(sym::rt::input(name, lo, hi, integer));
#endif
}
inline Rational rat(mpq_class q)
{
    q.canonicalize(); return Rational(q.get_str().c_str());
}
inline Z zr(Rational const& r)
{
#ifdef SYM_CONCRETE
    mpq_class q(r.get_str(), 10); q.canonicalize(); return sym::rt::q_expr(q);
#else
    return r.symbolic() ? sym::rt::expr(r.h()) : sym::rt::q_expr(r.value());
#endif
}
inline Z real_x(int i) { return sym::ctx().real_const(("X" + std::to_string(i)).c_str()); }
inline Z bool_b(int i) { return sym::ctx().bool_const(("B" + std::to_string(i)).c_str()); }
inline Z conj(std::vector<Z> const& v) { z3::expr_vector e(sym::ctx()); for (auto& x : v) e.push_back(x); return z3::mk_and(e); }
inline Z disj(std::vector<Z> const& v) { z3::expr_vector e(sym::ctx()); for (auto& x : v) e.push_back(x); return z3::mk_or(e); }
inline Z rel(Order_predicate p, Z const& l, Z const& r) { return p == Order_predicate::eq ? l == r : p == Order_predicate::lt ? l < r : l <= r; }

struct Monitor;
// bound of a variable implied by one unit constraint
struct Ref { std::vector<std::pair<Z, bool>> lo, up; std::vector<Z> ne; };

// Theory wrapper: owns the real Bool_theory and (optionally) Linear_arithmetic in a real Theory_combination
struct Monitor final : public Theory {
    std::string prop;                       // property whose assertions are active
    Theory_combination inner;
    int round_limit = 100000;                 // C25
    Linear_arithmetic* lra = nullptr;
    Bool_theory* bcp = nullptr;
    std::map<int, Z> written;               // literal var -> meaning as written by the harness
    std::vector<std::set<int>> asserted_before;
    std::vector<Clause> pending;            // clauses learned by the last conflict
    bool restarted = false;
    long steps = 0;
    bool sym_phase = false; int phase_left = 0, phase_no = 0;

    bool is(char const* p) const { return prop == p; }
    void verify(Z const& e, std::string const& m) { sym::verify(e, m); }
    Z atom(int ord) const
    {
        auto it = written.find(ord);
        if (it != written.end()) return it->second;
        if (lra) { auto c = lra->constraint(ord); if (!c.empty()) return cons(c); }
        return bool_b(ord);
    }
    static Z cons(Linear_arithmetic::Constraint const& c)
    {
        Z s = sym::ctx().real_val(0);
        auto k = c.coef().begin();
        for (auto v : c.vars()) { s = s + zr(*k) * real_x(v); ++k; }
        Z r = rel(c.pred(), s, zr(c.rhs()));
        return c.lit().is_negation() ? !r : r;
    }
    Z lit(Literal l) const { Z a = atom(l.var().ord()); return l.is_negation() ? !a : a; }
    Z clause(Clause const& c) const { std::vector<Z> v; for (auto l : c) v.push_back(lit(l)); return disj(v); }
    Z clauses(std::deque<Clause> const& d) const { std::vector<Z> v; for (auto& c : d) v.push_back(clause(c)); return conj(v); }
    static std::set<int> key(Clause const& c) { std::set<int> s; for (auto l : c) s.insert(l.is_negation() ? -l.var().ord() - 1 : l.var().ord() + 1); return s; }
    static bool in_db(Database& db, Clause const& c) { auto k = key(c); for (auto& x : db.asserted()) if (key(x) == k) return true; for (auto& x : db.learned()) if (key(x) == k) return true; return false; }

    // values of assigned reals and truth of assigned atoms
    Z facts(Trail& t) const
    {
        std::vector<Z> v;
        auto& bm = t.model<bool>(Variable::boolean); auto& rm = t.model<Rational>(Variable::rational);
        for (int i = 0; i < (int)bm.num_vars(); ++i) if (bm.is_defined(i) && !lra->constraint(i).empty()) v.push_back(bm.value(i) ? atom(i) : !atom(i));
        for (int i = 0; i < (int)rm.num_vars(); ++i) if (rm.is_defined(i)) v.push_back(real_x(i) == zr(rm.value(i)));
        return conj(v);
    }
    Ref reference(Trail& t, int x) const
    {
        Ref r;
        auto& bm = t.model<bool>(Variable::boolean); auto& rm = t.model<Rational>(Variable::rational);
        for (int i = 0; i < (int)bm.num_vars(); ++i) {
            if (!bm.is_defined(i)) continue;
            auto c = lra->constraint(i); if (c.empty()) continue;
            Z sum = zr(c.rhs()); std::optional<Rational> cx; bool unit = true;
            auto k = c.coef().begin();
            for (auto v : c.vars()) { if (v == x && !cx) cx = *k; else if (rm.is_defined(v)) sum = sum - zr(*k) * zr(rm.value(v)); else unit = false; ++k; }
            if (!cx || !unit) continue;
            Z val = (sum / zr(*cx)).simplify();
            bool pos = *cx > Rational{0}, truth = bm.value(i);
            if (c.pred() == Order_predicate::eq) { if (truth) { r.lo.push_back({val, false}); r.up.push_back({val, false}); } else r.ne.push_back(val); continue; }
            bool strict = (c.pred() == Order_predicate::lt) == truth;
            if (pos == truth) r.up.push_back({val, strict}); else r.lo.push_back({val, strict});
        }
        return r;
    }
    static Z feasible(Ref const& r)
    {
        std::vector<Z> v;
        for (auto& l : r.lo) for (auto& u : r.up) {
            if (l.second || u.second) { v.push_back(l.first < u.first); continue; }
            std::vector<Z> n; for (auto& d : r.ne) n.push_back(d != l.first);
            v.push_back(l.first < u.first || (l.first == u.first && conj(n)));
        }
        return conj(v);
    }
    static Z allowed(Ref const& r, Z const& v)
    {
        std::vector<Z> o;
        for (auto& l : r.lo) o.push_back(l.second ? l.first < v : l.first <= v);
        for (auto& u : r.up) o.push_back(u.second ? v < u.first : v <= u.first);
        for (auto& d : r.ne) o.push_back(v != d);
        return conj(o);
    }
    void check_trail(Trail& t)
    {
        for (auto [type, model] : t.models()) for (int i = 0; i < (int)model->num_vars(); ++i) {
            Variable v{i, type}; auto l = t.decision_level(v);
            sym::verify(l.has_value() == model->is_defined(i), "C17: a variable has a level exactly when it has a value");
            if (!l) continue;
            sym::verify(*l >= 0 && *l <= t.decision_level(), "C17: level of a variable is at most the current level");
            for (int k = 0; k <= t.decision_level(); ++k) {
                int n = 0; for (auto a : t.assigned(k)) n += a.var == v;
                sym::verify(k == *l ? n == 1 : k < *l ? n == 0 : n <= 1, "C17: an assigned variable is listed once at its level, never below it and at most once above");
            }
            if (type == Variable::boolean) if (auto* r = t.reason(v)) {
                auto& m = t.model<bool>(Variable::boolean); int tr = 0, lev = 0;
                for (auto q : *r) { auto e = eval(m, q); if (q.var() == v) tr += e == true; else { sym::verify(e == false, "C17: the other literals of a reason are false"); lev = std::max(lev, t.decision_level(q.var()).value_or(1000)); } }
                sym::verify(tr == 1, "C17: a reason contains the propagated literal");
                sym::verify(lev <= *l, "C17: a propagated literal is not below its reason");
            }
        }
        for (int k = 1; k <= t.decision_level(); ++k) {
            sym::verify(!t.assigned(k).empty(), "C17: every level starts with a decision");
            auto a = t.assigned(k).front();
            sym::verify(a.reason == nullptr && t.decision_level(a.var) == k, "C17: the first variable of a level is decided at it");
        }
    }
    std::vector<Clause> propagate(Database& db, Trail& t) override
    {
        ++steps;
        if (is("C25")) { if (steps > round_limit) sym::verify(false, "C25: the search takes more propagation rounds than a search that makes progress can"); }
        else if (steps > 1500) sym::abandon("more steps than the bound");
        if (is("C04") && !pending.empty()) {
            auto& m = t.model<bool>(Variable::boolean); bool some = false;
            for (auto& c : pending) some = some || eval(m, c) == true;
            sym::verify(some || restarted, "C04: after backtracking no learned clause led to a propagation or decision");
            sym::witness("learned clause used");
        }
        pending.clear(); restarted = false;
        if (is("C04") || is("C03")) {
            if (asserted_before.empty()) for (auto& c : db.asserted()) asserted_before.push_back(key(c));
            bool same = asserted_before.size() == db.asserted().size();
            for (std::size_t i = 0; same && i < asserted_before.size(); ++i) same = key(db.asserted()[i]) == asserted_before[i];
            sym::verify(same, "C04: an asserted clause was changed or removed");
        }
        auto r = inner.propagate(db, t);
        auto& bm = t.model<bool>(Variable::boolean);
        for (auto& c : r) {
            bool lra_conflict = lra && !in_db(db, c);
            if (is("C05") || is("C18") || is("C04")) sym::verify(eval(bm, c) == false, "a reported conflict clause is not false under the assignment");
            if (is("C05") && lra_conflict) { verify(clause(c), "C05: a conflict clause of the arithmetic theory is not valid"); sym::witness("theory conflict"); }
            if (!lra && is("C18")) sym::verify(in_db(db, c), "C18: a Boolean conflict is not a clause of the database");
        }
        if (is("C17")) { check_trail(t); sym::witness("trail"); }
        if (is("C18") && r.empty()) {
            for (auto* d : {&db.asserted(), &db.learned()}) for (auto& c : *d) {
                int un = 0; bool sat = false;   // a clause that repeats a literal is not a unit clause
                for (auto l : c) { auto e = eval(bm, l); if (e == true) sat = true; if (!e) ++un; }
                sym::verify(sat || un >= 2, un ? "C18: a unit clause was not propagated" : "C18: a false clause was not reported");
            }
            for (int i = 0; i < (int)bm.num_vars(); ++i) if (bm.is_defined(i)) {
                auto* rs = t.reason(Variable{i, Variable::boolean});
                if (rs && !lra) sym::verify(in_db(db, *rs), "C18: reason is not a clause of the database");
            }
            sym::witness("fixpoint");
        }
        if (lra && (is("C05") || is("C06"))) {
            auto& rm = t.model<Rational>(Variable::rational);
            if (is("C05")) for (int i = 0; i < (int)bm.num_vars(); ++i) {
                auto c = lra->constraint(i); if (c.empty()) continue;
                bool full = true; Z sum = sym::ctx().real_val(0); auto k = c.coef().begin();
                for (auto v : c.vars()) { if (!rm.is_defined(v)) full = false; else sum = sum + zr(*k) * zr(rm.value(v)); ++k; }
                if (!full) continue;
                if (r.empty()) sym::verify(bm.is_defined(i), "C05: an atom whose variables all have values was not propagated");
                if (bm.is_defined(i)) { Z tv = rel(c.pred(), sum, zr(c.rhs())); verify(bm.value(i) ? tv : !tv, "C05: the value of an atom differs from the values of its variables"); sym::witness("atom value"); }
            }
            if (r.empty()) for (int x = 0; x < (int)rm.num_vars(); ++x) {
                if (rm.is_defined(x)) continue;
                auto ref = reference(t, x);
                if (is("C05")) { verify(feasible(ref), "C05: no conflict was reported although a real variable has no allowed value"); if (!ref.lo.empty() && !ref.up.empty()) sym::witness("feasible"); }
                if (is("C06")) {
                    auto models = lra->relevant_models(t);
                    auto lb = lra->find_bounds(x).lower_bound(models); auto ub = lra->find_bounds(x).upper_bound(models);
                    if (!lb) sym::verify(ref.lo.empty(), "C06: a lower bound that holds is missing");
                    if (!ub) sym::verify(ref.up.empty(), "C06: an upper bound that holds is missing");
                    if (lb) {
                        Z b = zr(lb->value()); bool s = lb->is_strict();
                        for (auto& l : ref.lo) verify(l.first < b || (l.first == b && sym::ctx().bool_val(s || !l.second)), "C06: the lower bound is weaker than a unit constraint");
                        verify(z3::implies(facts(t), s ? real_x(x) > b : real_x(x) >= b), "C06: the lower bound is not implied");
                        sym::witness("lower bound");
                    }
                    if (ub) {
                        Z b = zr(ub->value()); bool s = ub->is_strict();
                        for (auto& l : ref.up) verify(l.first > b || (l.first == b && sym::ctx().bool_val(s || !l.second)), "C06: the upper bound is weaker than a unit constraint");
                        verify(z3::implies(facts(t), s ? real_x(x) < b : real_x(x) <= b), "C06: the upper bound is not implied");
                        sym::witness("upper bound");
                    }
                }
            }
        }
        return r;
    }
    void decide(Database& db, Trail& t, Variable v) override
    {
        std::optional<Ref> ref;
        bool fresh = !t.decision_level(v).has_value();
        sym::verify(fresh, "C19: a variable that already has a value was picked");
        if (v.type() == Variable::rational && is("C07") && lra) ref = reference(t, v.ord());
        if (v.type() == Variable::boolean && bcp && sym_phase) {
            bool ph = phase_left > 0 ? (--phase_left, sym::flip("phase" + std::to_string(phase_no++))) : true;
            bcp->set_phase(ph ? Phase::positive : Phase::negative);
        }
        inner.decide(db, t, v);
        if (is("C17") || is("C07")) sym::verify(t.decision_level(v) == t.decision_level(), "C17: a decided variable is not at the current level");
        if (ref) { verify(allowed(*ref, zr(t.model<Rational>(Variable::rational).value(v.ord()))), "C07: the decided value is outside the allowed values"); sym::witness("decision"); }
    }
    void on_init(Database& db, Trail& t) override { inner.on_init(db, t); }
    void on_variable_resize(Variable::Type ty, int n) override { inner.on_variable_resize(ty, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { inner.on_before_backtrack(db, t, l); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { inner.on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { inner.on_restart(db, t); restarted = true; if (is("C17")) { sym::verify(t.empty() && t.decision_level() == 0, "C17: the trail is not empty after a restart"); check_trail(t); } }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override
    {
        inner.on_learned_clause(db, t, c);
        if (is("C04")) {
            sym::verify(eval(t.model<bool>(Variable::boolean), c) == false, "C04: a learned clause is not false under the assignment it was learned from");
            verify(z3::implies(clauses(db.asserted()), clause(c)), "C04: a learned clause does not follow from the asserted clauses");
            sym::witness("learned");
            pending.push_back(c);
        }
    }
};

// decision order: the first `left` picks are symbolic, later ones take the first unassigned variable
struct Sym_order final : public Variable_order {
    int left, no = 0; bool sym_before;
    explicit Sym_order(int n, bool sb = false) : left(n), sym_before(sb) {}
    std::optional<Variable> pick(Database&, Trail& t) override
    {
        std::vector<Variable> u;
        for (auto [type, m] : t.models()) for (int i = 0; i < (int)m->num_vars(); ++i) if (!m->is_defined(i)) u.push_back(Variable{i, type});
        if (u.empty()) return {};
        if (left > 0) { --left; return u[(std::size_t)sym::choose("pick" + std::to_string(no++), 0, (int)u.size() - 1)]; }
        return u[0];
    }
    bool is_before(Variable l, Variable r) const override { return sym_before ? l.ord() > r.ord() : l.ord() < r.ord(); }
};
struct Sym_restart final : public Restart {
    mutable int left, no = 0;
    explicit Sym_restart(int n) : left(n) {}
    bool should_restart() const override { if (left <= 0) return false; --left; return sym::flip("restart" + std::to_string(no++)); }
};
}
