// C20: restart policies under histories of learned clauses and restarts, against the definition of the sequence and averages.
#include "mon.h"
#include <cmath>
#include "Solver.h"
#include "Bool_theory.h"
#include "First_unassigned.h"
using namespace yaga; using namespace mon;
namespace {
unsigned long luby_ref(unsigned long i) { for (;;) { unsigned k = 0; while ((1ul << k) - 1 < i) ++k; if ((1ul << k) - 1 == i) return 1ul << (k - 1); i -= (1ul << (k - 1)) - 1; } }
void luby_one()
{
#ifdef SYM_CONCRETE
    unsigned i = (unsigned)sym::choose("index", 1, 2147483647);
#else
    unsigned i = (unsigned)sym::choose("index", 1, 600);
#endif
    Luby_restart r; bool ok = r.luby(i) == (int)luby_ref(i);
    sym::verify(ok, "C20: Luby sequence element at an index"); sym::witness("index");
}
void luby_history(int n)
{
    Database db; Event_dispatcher disp; Trail t{disp}; t.set_model<bool>(Variable::boolean, 2); Clause c{Literal{0}, Literal{1}};
    Luby_restart r; long mult = 0;
    auto run = [&](long cap) { long k = 0; while (!r.should_restart()) { r.on_learned_clause(db, t, c); if (++k > cap) return -1l; } return k; };
    mult = run(1000000); sym::verify(mult > 0, "C20: the first restart never happens or happens at once");
    int extra = 0;
    for (int i = 2; i <= n; ++i) {
        // the solver may learn further clauses before it restarts
        int e = i < 6 ? sym::choose("extra" + std::to_string(i), 0, 2) : extra; if (i < 6) extra = (extra + e) % 4;
        for (int k = 0; k < e; ++k) { r.on_learned_clause(db, t, c); sym::verify(r.should_restart(), "C20: a due restart is withdrawn"); }
        r.on_restart(db, t);
        long want = (long)luby_ref(i) * mult, got = run(want + 1);
        sym::verify(got == want, "C20: number of learned clauses before a restart");
    }
    sym::witness("history");
}
// learned clauses over a trail with several levels
void glucose(int steps, int scale)
{
    Database db; Event_dispatcher disp; Trail t{disp}; int const nv = 8;
    auto& m = t.set_model<bool>(Variable::boolean, nv); t.resize(Variable::boolean, nv);
    int level_of[nv]; int lv = 0;
    for (int v = 0; v < nv; ++v) {
        int k = v == 0 ? 0 : sym::choose("new" + std::to_string(v), 0, 1); Variable x{v, Variable::boolean};
        m.set_value(v, v & 1);
        if (k) { t.decide(x); ++lv; level_of[v] = lv; } else { int l = lv > 0 && (v & 1) ? sym::choose("lv" + std::to_string(v), lv - 1, lv) : lv; t.propagate(x, nullptr, l); level_of[v] = l; }
    }
    int const mins[] = {1, 2, 4, 0}; int mn = mins[sym::choose("min", 0, 3)];
    int se = sym::choose("slow", 1, 5), fe = sym::choose("fast", 1, 3); float const thr[] = {1.0f, 1.25f, 1.5f, 0.75f}; float th = thr[sym::choose("threshold", 0, 3)];
    Glucose_restart r; r.set_min_conflicts(mn).set_slow_exp(se).set_fast_exp(fe).set_threshold(th);
    double slow = 0, fast = 0; int since = 0;
    auto check = [&](char const* when) {
        bool got = r.should_restart();
        if (since < mn) { sym::verify(!got, std::string("C20: restart before the minimum number of conflicts, ") + when); return; }
        double d = fast - (double)th * slow; bool tie = se == fe && th == 1.0f;
        if (tie) { sym::verify(got, std::string("C20: equal averages reach the threshold 1, ") + when); sym::witness("tie"); return; }
        if (std::fabs(d) < 1e-4 * (1 + fast)) { sym::witness("too close for floating point"); return; }
        sym::verify(got == (d > 0), std::string("C20: restart against the averages, ") + when); sym::witness(d > 0 ? "restart" : "no restart");
        sym::verify(std::fabs(r.fast() - fast) < 1e-3 * (1 + fast) && std::fabs(r.slow() - slow) < 1e-3 * (1 + slow), "C20: moving averages of the clause glucose");
    };
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s);
        int op = sym::choose("op" + k, 0, 4);
        if (op == 0) { r.on_restart(db, t); since = 0; check("after a restart"); continue; }
        // a clause of 1 to 4 literals with different variables, starting anywhere on the trail
        int first = sym::choose("c" + k, 0, nv - 1), stride = sym::choose("s" + k, 1, 3), rep = 1;
        if (scale > 1) rep = sym::choose("rep" + k, 0, 1) ? scale : 1;
        Clause c; std::set<int> lvls, used;
        for (int j = 0; j < op; ++j) { int v = (first + j * stride) % nv; if (!used.insert(v).second) continue; c.push_back(Literal{v}.is_negation() ? Literal{v} : (v & 1 ? ~Literal{v} : Literal{v})); lvls.insert(level_of[v]); }
        for (int j = 0; j < rep; ++j) {
            r.on_learned_clause(db, t, c); ++since; double g = (double)lvls.size();
            slow += (g - slow) / (double)(1 << se); fast += (g - fast) / (double)(1 << fe);
            check("after a learned clause");
        }
    }
    sym::witness("glucose history");
}
// default settings
void defaults()
{
    Glucose_restart r; Database db; Event_dispatcher disp; Trail t{disp}; auto& m = t.set_model<bool>(Variable::boolean, 4); t.resize(Variable::boolean, 4);
    for (int v = 0; v < 4; ++v) { m.set_value(v, true); t.decide(Variable{v, Variable::boolean}); }
    int n = sym::choose("n", 1, 5), w = 1; std::vector<int> at;
    Clause one{Literal{0}}, four{Literal{0}, Literal{1}, Literal{2}, Literal{3}};
    // short clauses keep the averages equal in tendency; afterwards long clauses raise the fast one
    bool none = true; for (int i = 0; i < n; ++i) { r.on_learned_clause(db, t, one); none = none && !r.should_restart(); }
    int k = 0; while (!r.should_restart() && k < 100000) { r.on_learned_clause(db, t, four); ++k; }
    sym::verify(none && k < 100000, "C20: clauses of growing glucose lead to a restart");
    int min = n + k; r.on_restart(db, t); bool early = r.should_restart(); k = 0; while (!r.should_restart() && k < 100000) { r.on_learned_clause(db, t, four); ++k; }
    sym::verify(!early && k > 0 && k <= min, "C20: the minimum number of conflicts counts from the last restart");
    (void)w; sym::witness("defaults");
}
// the solver performs exactly the restarts the policy asks for
struct Recorder final : public Restart {
    Luby_restart in; long learned = 0, since = 0, restarts = 0; Recorder() { in.mult = 1; in.index = 0; in.next(); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { ++learned; ++since; in.on_learned_clause(db, t, c); }
    void on_before_backtrack(Database&, Trail&, int level) override { due = in.should_restart(); sym::verify(!due || level == 0, "C20: the solver did not perform a restart that is due"); }
    void on_restart(Database& db, Trail& t) override
    {
        ++restarts; sym::verify(in.should_restart(), "C20: the solver restarts although the policy does not ask for it"); sym::verify(t.empty(), "C20: assignments survive a restart");
        sym::verify(since == (long)luby_ref((unsigned long)restarts), "C20: number of learned clauses before a restart of the solver"); since = 0; in.on_restart(db, t); sym::witness("solver restart");
    }
    bool should_restart() const override { return in.should_restart(); }
    bool due = false;
};
void solver_restarts(int n, std::vector<std::vector<int>> cl, int symbolic)
{
    Solver s; s.trail().set_model<bool>(Variable::boolean, n); s.set_theory<Bool_theory>(); auto& r = s.set_restart_policy<Recorder>(); s.set_variable_order<First_unassigned>(); int k = 0;
    for (auto& c : cl) { Clause q; for (int l : c) { if (k < symbolic && sym::flip("sign" + std::to_string(k))) l = -l; ++k; q.push_back(l > 0 ? Literal{l - 1} : ~Literal{-l - 1}); } s.db().assert_clause(q); }
    (void)s.check();
    sym::verify(r.restarts == s.num_restarts(), "C20: number of restarts reported by the solver"); sym::verify(r.learned >= s.num_conflicts() - 1, "C20: a conflict led to no learned clause"); sym::witness("solver run");
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    if (p != "C20") return; bool th = tier() == "thorough";
    out.push_back({"luby_bmc", [] { luby_one(); }, 0, true});
    out.push_back({"luby_history", [=] { luby_history(th ? 4000 : 130); }, 0, true});
    for (int n : {1, 2, 3, 4, 6}) out.push_back({"glucose" + std::to_string(n), [=] { glucose(n + (th ? 2 : 0), 1); }, 0, true});
    out.push_back({"glucose_long", [=] { glucose(4, 30); }, 0, true});
    auto php = [](int h) { std::vector<std::vector<int>> c; for (int i = 0; i <= h; ++i) { std::vector<int> q; for (int j = 0; j < h; ++j) q.push_back(i * h + j + 1); c.push_back(q); } for (int j = 0; j < h; ++j) for (int a = 0; a <= h; ++a) for (int b = a + 1; b <= h; ++b) c.push_back({-(a * h + j + 1), -(b * h + j + 1)}); return c; };
    out.push_back({"solver_php", [=] { solver_restarts(12, php(3), th ? 10 : 7); }, 0, true}); out.push_back({"solver_php4", [=] { solver_restarts(20, php(4), th ? 6 : 3); }, 0, true});
    out.push_back({"solver_full", [=] { solver_restarts(4, {{1, 2, 3}, {1, 2, -3}, {1, -2, 3}, {1, -2, -3}, {-1, 2, 4}, {-1, 2, -4}, {-1, -2, 4}, {-1, -2, -4}}, th ? 12 : 9); }, 0, true});
    out.push_back({"no_restart_defaults", [] { defaults(); }, 0, true});
}
