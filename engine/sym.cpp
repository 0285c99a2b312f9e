#include "sym.h"
#include <sys/resource.h>
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <sys/time.h>
#include <unordered_map>
#include <cxxabi.h>
#include <execinfo.h>

extern "C" void sym_run_reset() __attribute__((weak));   // the instrumentation runtime clears its shadow state

namespace sym {
using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }
static z3::context* g_ctx = nullptr;
z3::context& ctx() { if (!g_ctx) g_ctx = new z3::context; return *g_ctx; }
static std::string g_tier = "quick"; static unsigned g_seed = 1;
std::string tier() { return g_tier; }
unsigned seed() { return g_seed; }

// ---- job state ----------------------------------------------------------------------------------------------------
struct Violation { std::string msg; std::map<std::string, std::string> inputs; };
struct Stats {
    long paths = 0, abandoned = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, branches = 0, checks = 0, checks_unknown = 0,
         pinned = 0, divergences = 0, cond_cached = 0, timeouts = 0;
    double solver_s = 0;
    bool complete = false;
    std::map<std::string, long> witnesses, counters, abandons;
    std::vector<std::string> samples;
    std::vector<std::map<std::string, std::string>> traces;   // inputs of some completed paths, for validation on the untouched code
    long trace_seen = 0;
    std::vector<Violation> violations;
} st;

struct Input { bool is_int; Q value; };
static std::map<std::string, Q> g_inputs;                 // concrete inputs of this run (persist in the model of the path)
static std::map<std::string, z3::expr> g_input_expr;      // all declared inputs -> z3 constant
static std::map<std::string, Q> g_used;                   // inputs declared in this run

static std::string qstr(Q const& q) { return q.get_str(); }
namespace rt {
z3::expr q_expr(Q const& q) { return ctx().real_val(q.get_str().c_str()); }
}

// ---- execution tree -------------------------------------------------------------------------------------------------
struct Node { int cond; Node* parent; bool parent_dir; Node* child[2] = {nullptr, nullptr}; char state[2] = {0, 0}; /*0 unexplored,1 visited,2 infeasible,3 unknown, 4 queued*/ bool assumed = false; int depth = 0; int pin = 0; };
static std::deque<Node> g_nodes;
static Node* g_root = nullptr;
static Node* g_cur = nullptr; static bool g_cur_dir = false;
static std::vector<z3::expr> g_conds;
static std::unordered_map<unsigned, int> g_cond_by_ast;
static std::unordered_map<int, bool> g_known;             // cond id -> truth on this path
struct Frontier { Node* n; bool dir; };
static std::vector<Frontier> g_frontier;
static std::vector<std::pair<Node*, bool>> g_path;        // path of this run

static int cond_id(z3::expr const& e)
{
    unsigned h = Z3_get_ast_id(ctx(), e);
    auto it = g_cond_by_ast.find(h);
    if (it != g_cond_by_ast.end()) return it->second;
    int id = (int)g_conds.size();
    g_conds.push_back(e);
    g_cond_by_ast[h] = id;
    return id;
}

static sigjmp_buf g_jmp; static volatile int g_in_run = 0;
static std::string g_exit_msg;
enum Exit { NORMAL = 0, ABANDON = 1, CRASH = 2, ASSUME = 3, TIMEOUT = 4 };
void abandon(char const* why) { st.abandons[why]++; g_exit_msg = why; siglongjmp(g_jmp, ABANDON); }
static volatile sig_atomic_t g_alarm = 0, g_in_z3 = 0;
static volatile sig_atomic_t g_progress = 0, g_slow = 0;   // a run whose harness keeps checking is slow, not hung
static double g_run_limit = 8;

static void step(int cid, bool taken, bool assumed)
{
    Node* n;
    if (!g_cur) {
        if (!g_root) { g_nodes.push_back(Node{cid, nullptr, false}); g_root = &g_nodes.back(); g_root->depth = 0; }
        n = g_root;
    } else {
        Node*& c = g_cur->child[g_cur_dir];
        if (!c) { g_nodes.push_back(Node{cid, g_cur, g_cur_dir}); c = &g_nodes.back(); c->depth = g_cur->depth + 1; }
        n = c;
    }
    if (n->cond != cid) { st.divergences++; g_exit_msg = "divergence"; siglongjmp(g_jmp, ABANDON); }
    n->assumed = assumed;
    if (n->state[taken] == 0 || n->state[taken] == 4) n->state[taken] = 1;
    if (!assumed && n->state[!taken] == 0) { n->state[!taken] = 4; g_frontier.push_back({n, !taken}); }
    g_path.push_back({n, taken});
    g_cur = n; g_cur_dir = taken;
    st.branches++;
    if (g_alarm == 2) { g_alarm = 0; g_exit_msg = "slow run"; siglongjmp(g_jmp, ABANDON); }
    if (g_alarm) { g_alarm = 0; if (!g_progress) siglongjmp(g_jmp, TIMEOUT); }
}

bool branch(z3::expr const& cond, bool taken)
{
    z3::expr c = cond;
    if (c.is_true() || c.is_false()) return taken;
    bool t = taken;
    while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); t = !t; }
    int id = cond_id(c);
    auto it = g_known.find(id);
    if (it != g_known.end()) { if (it->second != t) { st.divergences++; g_exit_msg = "inconsistent branch"; siglongjmp(g_jmp, ABANDON);} st.cond_cached++; return taken; }
    step(id, t, false);
    g_known[id] = t;
    return taken;
}

void assume(z3::expr const& cond, bool holds)
{
    z3::expr c = cond.simplify();
    if (c.is_true()) return;
    if (c.is_false()) siglongjmp(g_jmp, ASSUME);
    bool t = true;
    while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); t = !t; }
    int id = cond_id(c);
    auto it = g_known.find(id);
    if (it != g_known.end()) { if ((it->second == t) != holds) { st.divergences++; } if (!holds) siglongjmp(g_jmp, ASSUME); return; }
    if (!holds) {
        // the concrete inputs violate it: explore the satisfying side instead
        step(id, !t, false);
        siglongjmp(g_jmp, ASSUME);
    }
    step(id, t, true);
    g_known[id] = t;
}

// ---- solver with a stack aligned to the path being queried -----------------------------------------------------------
static z3::solver* g_solver = nullptr;
static std::vector<std::pair<Node*, bool>> g_stack;
static std::vector<z3::expr> g_domain;                    // domains of the inputs (asserted at level 0)
static std::map<std::string, bool> g_domain_done;
static unsigned g_timeout_ms = 3000;

static void align(std::vector<std::pair<Node*, bool>> const& p, std::size_t len)
{
    std::size_t k = 0;
    while (k < g_stack.size() && k < len && g_stack[k] == p[k]) ++k;
    if (k < g_stack.size()) { g_solver->pop(g_stack.size() - k); g_stack.resize(k); }
    for (; k < len; ++k) {
        g_solver->push();
        g_solver->add(p[k].second ? g_conds[p[k].first->cond] : !g_conds[p[k].first->cond]);
        g_stack.push_back(p[k]);
    }
}
static z3::check_result run_check()
{
    double t = now();
    auto r = z3::unknown;
    g_in_z3 = 1;
    try { r = g_solver->check(); } catch (z3::exception const&) { r = z3::unknown; }
    g_in_z3 = 0;
    st.solver_s += now() - t;
    st.queries++;
    if (r == z3::sat) st.sat++; else if (r == z3::unsat) st.unsat++; else st.unknown++;
    return r;
}
static bool read_model(std::map<std::string, Q>& out)
{
    z3::model m = g_solver->get_model();
    out.clear();
    for (auto& [name, e] : g_input_expr) {
        z3::expr v = m.eval(e, true);
        std::string s;
        if (v.is_bv()) {
            if (!v.is_numeral()) return false;
            s = v.get_decimal_string(0);
            out[name] = Q(mpz_class(s));
            continue;
        }
        if (!v.is_numeral()) return false;       // algebraic number
        if (v.is_int()) out[name] = Q(mpz_class(Z3_get_numeral_string(ctx(), v)));
        else { Q q; if (q.set_str(Z3_get_numeral_string(ctx(), v), 10) != 0) return false; q.canonicalize(); out[name] = q; }
    }
    return true;
}

static void report(std::string const& msg, std::map<std::string, Q> const& in)
{
    for (auto& v : st.violations) if (v.msg == msg) return;
    Violation v; v.msg = msg;
    for (auto& [k, q] : in) if (g_used.count(k)) v.inputs[k] = qstr(q);
    st.violations.push_back(v);
}

void verify(z3::expr const& prop, std::string const& msg)
{
    st.checks++; g_progress = 1;
    z3::expr p = prop.simplify();
    if (p.is_true()) return;
    align(g_path, g_path.size());
    g_solver->push();
    g_solver->add(!p);
    auto r = run_check();
    std::map<std::string, Q> in;
    bool ok = r == z3::sat ? read_model(in) : false;
    g_solver->pop();
    if (r == z3::unsat) return;
    if (r == z3::unknown || !ok) { st.checks_unknown++; return; }
    report(msg, in);
}
void verify(bool ok, std::string const& msg)
{
    st.checks++; g_progress = 1;
    if (!ok) report(msg, g_used);
}
void witness(std::string const& w) { st.witnesses[w]++; }
void count(std::string const& w, long n) { st.counters[w] += n; }
void sample(std::string const& t) { if (st.samples.size() < 3) st.samples.push_back(t); }
bool is_symbolic_mode() { return true; }
bool sat(z3::expr const& e)
{
    g_progress = 1;
    z3::solver s(ctx()); s.add(e);
    z3::params p(ctx()); p.set("timeout", 20000u); s.set(p);
    double t = now(); auto r = s.check(); st.solver_s += now() - t; st.queries++;
    if (r == z3::sat) st.sat++; else if (r == z3::unsat) st.unsat++; else { st.unknown++; abandon("oracle query unknown"); }
    return r == z3::sat;
}
z3::expr at_inputs(z3::expr const& e0)
{
    z3::expr_vector from(ctx()), to(ctx());
    for (auto& [n, x] : g_input_expr) {
        auto it = g_used.find(n); if (it == g_used.end()) continue;
        from.push_back(x);
        if (x.is_bv()) to.push_back(ctx().bv_val(it->second.get_num().get_str().c_str(), x.get_sort().bv_size()));
        else if (x.is_int()) to.push_back(ctx().int_val(it->second.get_num().get_str().c_str()));
        else to.push_back(rt::q_expr(it->second));
    }
    z3::expr c = e0;
    return from.empty() ? c : c.substitute(from, to).simplify();
}
bool eval_bool(z3::expr const& e)
{
    z3::expr s = at_inputs(e).simplify();
    if (s.is_true()) return true;
    if (s.is_false()) return false;
    z3::solver so(ctx()); so.add(s); return so.check() == z3::sat;
}

// ---- inputs -----------------------------------------------------------------------------------------------------------
static void domain(std::string const& name, z3::expr const& d)
{
    if (g_domain_done[name]) return;
    g_domain_done[name] = true;
    g_domain.push_back(d);
    if (!g_stack.empty()) { g_solver->pop(g_stack.size()); g_stack.clear(); }
    g_solver->add(d);
}
z3::expr declare_bv(std::string const& name, unsigned width, std::uint64_t dflt, std::uint64_t& value)
{
    auto it = g_input_expr.find(name);
    if (it == g_input_expr.end()) it = g_input_expr.emplace(name, ctx().bv_const(name.c_str(), width)).first;
    auto v = g_inputs.find(name);
    if (v == g_inputs.end()) v = g_inputs.emplace(name, Q(mpz_class(std::to_string(dflt)))).first;
    g_used[name] = v->second;
    value = std::strtoull(v->second.get_num().get_str().c_str(), nullptr, 10);
    return it->second;
}
z3::expr choice_expr(std::string const& name)
{
    auto it = g_input_expr.find(name);
    if (it == g_input_expr.end()) it = g_input_expr.emplace(name, ctx().int_const(name.c_str())).first;
    return it->second;
}
int choose(std::string const& name, int lo, int hi)
{
    if (lo == hi) return lo;
    z3::expr e = choice_expr(name);
    domain(name, e >= lo && e <= hi);
    auto v = g_inputs.find(name);
    if (v == g_inputs.end() || v->second < lo || v->second > hi) { g_inputs[name] = lo; v = g_inputs.find(name); }
    g_used[name] = v->second;
    int c = (int)v->second.get_num().get_si();
    while (lo < hi) { int mid = lo + (hi - lo) / 2; if (branch(e <= mid, c <= mid)) hi = mid; else lo = mid + 1; }
    return c;
}

// ---- linear forms -------------------------------------------------------------------------------------------------------
namespace rt {
struct Lin { Q c; std::vector<std::pair<int, Q>> t; };
struct RVal { Q conc; Lin l; };
// ie: integer term for the same value (instrumented code only: all its values are integers); plo/phi: bounds of this path
struct Atom { z3::expr e; bool integer; bool bnd = false; Q lo, hi; std::vector<z3::expr> ie; bool pl = false, ph = false; Q plo, phi; };
static bool int_mode() { return sym_run_reset != nullptr; }
static std::vector<Atom> atoms; static std::vector<Q> atom_conc;
static std::unordered_map<std::string, int> atom_by_key;
static std::deque<RVal> vals;            // vals[id-1]
static std::map<std::string, std::uint32_t> numerals;
struct Bounds { bool has_lo = false, has_hi = false, lo_s = false, hi_s = false; Q lo, hi; std::vector<Q> ne; };
static std::unordered_map<std::string, Bounds> bounds;   // per run, keyed by monic linear form
static std::unordered_map<std::string, std::vector<z3::expr>> form_expr;
static std::unordered_map<std::string, int> lin_cond;

static std::uint32_t put(RVal&& v) { vals.push_back(std::move(v)); return (std::uint32_t)vals.size(); }
static RVal& get(std::uint32_t id) { if (id == 0 || id > vals.size()) { g_exit_msg = "stale symbolic value"; siglongjmp(g_jmp, ABANDON); } return vals[id - 1]; }
std::uint32_t mk_const(Q const& q) { return put(RVal{q, Lin{q, {}}}); }
bool is_const(std::uint32_t a) { return get(a).l.t.empty(); }
Q const& conc(std::uint32_t a) { return get(a).conc; }
static Lin lin_add(Lin const& a, Lin const& b, Q const& k)
{
    Lin r; r.c = a.c + k * b.c;
    std::size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, Q(k * b.t[j].second)}); ++j; }
        else { Q q = a.t[i].second + k * b.t[j].second; if (q != 0) r.t.push_back({a.t[i].first, q}); ++i; ++j; }
    }
    return r;
}
static Lin lin_scale(Lin const& a, Q const& k) { Lin r; if (k == 0) return r; r.c = a.c * k; for (auto& [x, q] : a.t) r.t.push_back({x, Q(q * k)}); return r; }
static std::string lin_key(Lin const& l, bool with_c) { std::string s; for (auto& [x, q] : l.t) { s += std::to_string(x); s += '*'; s += q.get_str(); s += '+'; } if (with_c) s += l.c.get_str(); return s; }
static z3::expr lin_expr(Lin const& l)
{
    z3::expr_vector v(ctx());
    for (auto& [x, q] : l.t) v.push_back(q == 1 ? atoms[x].e : q_expr(q) * atoms[x].e);
    if (l.c != 0 || v.empty()) v.push_back(q_expr(l.c));
    return v.size() == 1 ? v[0] : z3::sum(v);
}
z3::expr expr(std::uint32_t a) { return lin_expr(get(a).l); }
std::uint32_t add(std::uint32_t a, std::uint32_t b) { auto &x = get(a), &y = get(b); return put(RVal{Q(x.conc + y.conc), lin_add(x.l, y.l, 1)}); }
std::uint32_t sub(std::uint32_t a, std::uint32_t b) { auto &x = get(a), &y = get(b); return put(RVal{Q(x.conc - y.conc), lin_add(x.l, y.l, -1)}); }
std::uint32_t neg(std::uint32_t a) { auto& x = get(a); return put(RVal{Q(-x.conc), lin_scale(x.l, -1)}); }
static int atom(std::string const& key, std::function<z3::expr()> mk, bool integer, Q const& c)
{
    auto it = atom_by_key.find(key);
    if (it == atom_by_key.end()) { it = atom_by_key.emplace(key, (int)atoms.size()).first; atoms.push_back(Atom{mk(), integer}); atom_conc.push_back(c); }
    atom_conc[it->second] = c;
    return it->second;
}
static RVal from_atom(int a, Q const& k) { RVal v; v.conc = k * atom_conc[a]; v.l.t.push_back({a, k}); return v; }
std::uint32_t mul(std::uint32_t a, std::uint32_t b)
{
    auto &x = get(a), &y = get(b);
    Q c = x.conc * y.conc;
    if (x.l.t.empty()) return put(RVal{c, lin_scale(y.l, x.l.c)});
    if (y.l.t.empty()) return put(RVal{c, lin_scale(x.l, y.l.c)});
    // distribute over atoms: sums of products of atoms
    Lin r; r = lin_add(lin_scale(x.l, y.l.c), lin_scale(y.l, x.l.c), 1); r.c = x.l.c * y.l.c;
    for (auto& [i, p] : x.l.t) for (auto& [j, q] : y.l.t) {
        int u = std::min(i, j), w = std::max(i, j);
        Q cc = atom_conc[u] * atom_conc[w];
        int m = atom("M" + std::to_string(u) + "," + std::to_string(w), [&] { return atoms[u].e * atoms[w].e; }, atoms[u].integer && atoms[w].integer, cc);
        if (int_mode() && atoms[m].ie.empty() && !atoms[u].ie.empty() && !atoms[w].ie.empty()) atoms[m].ie.push_back(atoms[u].ie[0] * atoms[w].ie[0]);
        if (!atoms[m].bnd && atoms[u].bnd && atoms[w].bnd) { Q c4[4] = {atoms[u].lo * atoms[w].lo, atoms[u].lo * atoms[w].hi, atoms[u].hi * atoms[w].lo, atoms[u].hi * atoms[w].hi}; atoms[m].bnd = true; atoms[m].lo = *std::min_element(c4, c4 + 4); atoms[m].hi = *std::max_element(c4, c4 + 4); }
        Lin one; one.t.push_back({m, Q(p * q)});
        r = lin_add(r, one, 1);
    }
    return put(RVal{c, std::move(r)});
}
std::uint32_t div(std::uint32_t a, std::uint32_t b)
{
    auto &x = get(a), &y = get(b);
    if (y.l.t.empty()) {
        if (y.l.c == 0) { g_exit_msg = "division by zero in Rational"; siglongjmp(g_jmp, CRASH); }
        return put(RVal{Q(x.conc / y.l.c), lin_scale(x.l, 1 / y.l.c)});
    }
    std::uint32_t z = mk_const(0);
    if (eq(b, z)) { g_exit_msg = "division by zero in Rational"; siglongjmp(g_jmp, CRASH); }
    // x / y = x * (1/y'), y = k*y' with y' monic
    Q k = y.l.t[0].second; Lin m = lin_scale(y.l, 1 / k);
    Q c = k / y.conc;
    int at = atom("I" + lin_key(m, true), [&] { return ctx().real_val(1) / lin_expr(m); }, false, c);
    // y * (1/y) simplifies when x is a multiple of y
    if (!x.l.t.empty()) {
        Q f = x.l.t[0].second / k; Lin d = lin_add(x.l, y.l, -f);
        if (d.t.empty() && d.c == 0) return mk_const(f);
    }
    std::uint32_t inv = put(from_atom(at, 1 / k));
    return mul(a, inv);
}
static bool interval(Lin const& l, Q& lo, Q& hi)
{
    lo = hi = l.c;
    for (auto& [x, q] : l.t) {
        auto& a = atoms[x]; if (!a.bnd) return false;
        if (a.pl || a.ph) { Q const &l1 = a.pl && a.plo > a.lo ? a.plo : a.lo, &h1 = a.ph && a.phi < a.hi ? a.phi : a.hi; if (q > 0) { lo += q * l1; hi += q * h1; } else { lo += q * h1; hi += q * l1; } continue; }
        if (q > 0) { lo += q * a.lo; hi += q * a.hi; } else { lo += q * a.hi; hi += q * a.lo; }
    }
    return true;
}
// L * l as an integer term (constant part left out), L the least common denominator; false: not all atoms are integers
static bool int_form(Lin const& l, mpz_class& L, z3::expr& out)
{
    if (!int_mode() || l.t.empty()) return false;
    L = 1; for (auto& [x, q] : l.t) { if (atoms[x].ie.empty()) return false; mpz_lcm(L.get_mpz_t(), L.get_mpz_t(), q.get_den_mpz_t()); }
    z3::expr_vector v(ctx());
    for (auto& [x, q] : l.t) { Q k = q * Q(L); v.push_back(k == 1 ? atoms[x].ie[0] : ctx().int_val(k.get_num().get_str().c_str()) * atoms[x].ie[0]); }
    out = v.size() == 1 ? v[0] : z3::sum(v); return true;
}
static bool in_static(Lin const& l, Q& lo, Q& hi)
{
    lo = hi = l.c;
    for (auto& [x, q] : l.t) { auto& a = atoms[x]; if (!a.bnd) return false; if (q > 0) { lo += q * a.lo; hi += q * a.hi; } else { lo += q * a.hi; hi += q * a.lo; } }
    return true;
}
static Q qfloor(Q const& q) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(f); }
std::uint32_t reduce(std::uint32_t a, Q const& m)
{
    auto& x = get(a); Lin r; Q c = 0;
    bool some = false;
    for (auto& t : x.l.t) { Q q = t.second / m; if (atoms[t.first].integer && q.get_den() == 1) { c += t.second * atom_conc[t.first]; some = true; } else r.t.push_back(t); }
    Q k = qfloor(x.l.c / m) * m;
    if (!some) return a;       // a constant offset alone is handled by the wrap-around forks
    r.c = x.l.c - k; return put(RVal{Q(x.conc - c - k), std::move(r)});
}
Q content(std::uint32_t a)
{
    auto& x = get(a); mpz_class g = 0;
    if (x.l.c.get_den() != 1) return 0; g = abs(x.l.c.get_num());
    for (auto& [i, q] : x.l.t) { if (!atoms[i].integer || q.get_den() != 1) return 0; mpz_class v = abs(q.get_num()); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), v.get_mpz_t()); }
    return Q(g);
}
std::uint32_t floor(std::uint32_t a)
{
    auto& x = get(a);
    mpz_class f; mpz_fdiv_q(f.get_mpz_t(), x.conc.get_num_mpz_t(), x.conc.get_den_mpz_t());
    if (x.l.t.empty()) return mk_const(Q(f));
    bool all_int = x.l.c.get_den() == 1;
    for (auto& [i, q] : x.l.t) all_int = all_int && atoms[i].integer && q.get_den() == 1;
    if (all_int) return a;
    // move integer parts out of the floor
    Lin in, out; mpz_class ci; mpz_fdiv_q(ci.get_mpz_t(), x.l.c.get_num_mpz_t(), x.l.c.get_den_mpz_t());
    out.c = Q(ci); in.c = x.l.c - out.c;
    for (auto& t : x.l.t) if (atoms[t.first].integer && t.second.get_den() == 1) out.t.push_back(t); else in.t.push_back(t);
    { Q lo, hi; if (interval(in, lo, hi) && qfloor(lo) == qfloor(hi)) { out.c += qfloor(lo); return put(RVal{Q(f), std::move(out)}); } }
    Q fc = Q(f) - out.c; for (auto& [i, q] : out.t) fc -= q * atom_conc[i];
    int at = atom("F" + lin_key(in, true), [&] { return z3::expr(ctx(), Z3_mk_int2real(ctx(), Z3_mk_real2int(ctx(), lin_expr(in)))); }, true, fc);
    { z3::expr f0(ctx()); mpz_class L;
      if (atoms[at].ie.empty() && int_form(in, L, f0)) {
        // F = floor(in):  L F <= L in < L F + L
        mpz_class M = L; mpz_lcm(M.get_mpz_t(), M.get_mpz_t(), in.c.get_den_mpz_t()); Q cc = in.c * Q(M); mpz_class k = M / L;
        z3::expr i = ctx().int_val(k.get_str().c_str()) * f0 + ctx().int_val(cc.get_num().get_str().c_str()), m = ctx().int_val(M.get_str().c_str());
        std::string nm = "floor!" + std::to_string(at); z3::expr v = ctx().int_const(nm.c_str());
        atoms[at].ie.push_back(v); domain(nm, m * v <= i && i < m * v + m);
      } }
    { Q lo, hi; if (!atoms[at].bnd && in_static(in, lo, hi)) { atoms[at].bnd = true; atoms[at].lo = qfloor(lo); atoms[at].hi = qfloor(hi); } }
    Lin l; l.t.push_back({at, 1}); l = lin_add(l, out, 1);
    return put(RVal{Q(f), std::move(l)});
}
static std::vector<int> touched;
// d (op) 0 with op: 0 '<', 1 '<=', 2 '='
static bool decide(RVal const& v, int op)
{
    bool truth = op == 0 ? v.conc < 0 : op == 1 ? v.conc <= 0 : v.conc == 0;
    if (v.l.t.empty()) return truth;
    { Q lo, hi; if (interval(v.l, lo, hi)) { if (op == 0 ? (hi < 0 || lo >= 0) : op == 1 ? (hi <= 0 || lo > 0) : (hi < 0 || lo > 0)) { st.cond_cached++; return truth; } } }
    Q k = v.l.t[0].second;
    Lin m = lin_scale(v.l, 1 / k); Q r = -m.c; m.c = 0;   // v op 0  <=>  k*(m - r) op 0
    bool flip = false; int o = op;
    if (k < 0 && op != 2) { flip = true; o = op == 0 ? 1 : 0; } // m - r > 0 <=> not (m <= r)
    bool t = flip ? !truth : truth;                        // truth of  m o r
    int const o0 = o;
    std::string key = lin_key(m, false);
    Bounds& b = bounds[key];
    // implied by what the path already says about m?
    bool implied = false;
    if (o == 0) implied = (b.has_hi && (b.hi < r || (b.hi == r && b.hi_s))) || (b.has_lo && (b.lo >= r));
    else if (o == 1) implied = (b.has_hi && b.hi <= r) || (b.has_lo && (b.lo > r || (b.lo == r && b.lo_s)));
    else {
        implied = (b.has_hi && (b.hi < r || (b.hi == r && b.hi_s))) || (b.has_lo && (b.lo > r || (b.lo == r && b.lo_s))) ||
                  (b.has_lo && b.has_hi && b.lo == r && b.hi == r);
        if (!implied) for (auto& q : b.ne) if (q == r) implied = true;
    }
    if (implied) { st.cond_cached++; return truth; }
    std::string ck = key + "|" + std::to_string(o) + "|" + r.get_str();
    auto it = lin_cond.find(ck);
    if (it == lin_cond.end()) {
        auto fe = form_expr.find(key);
        if (fe == form_expr.end()) fe = form_expr.emplace(key, std::vector<z3::expr>{lin_expr(m)}).first;
        z3::expr e = fe->second[0], q = q_expr(r); mpz_class L;
        z3::expr ie(ctx());
        if (int_form(m, L, ie)) {
            Q s = r * Q(L); bool whole = s.get_den() == 1; mpz_class b0 = whole ? mpz_class(s.get_num()) : mpz_class(qfloor(s).get_num());
            e = ie; q = ctx().int_val(b0.get_str().c_str());
            if (!whole && o == 0) o = 1;                                // x < 2.5 <=> x <= 2
            if (!whole && o == 2) { it = lin_cond.emplace(ck, -1).first; }
        }
        z3::expr c = o == 0 ? e < q : o == 1 ? e <= q : e == q;
        if (it == lin_cond.end()) { int id = cond_id(c); it = lin_cond.emplace(ck, id).first; }
        o = o0;
    }
    if (it->second < 0) { st.cond_cached++; return truth; }
    auto kn = g_known.find(it->second);
    if (kn != g_known.end()) { if (kn->second != t) { st.divergences++; siglongjmp(g_jmp, ABANDON); } return truth; }
    step(it->second, t, false);
    g_known[it->second] = t;
    // update bounds
    auto up = [&](Q const& q, bool s) { if (!b.has_hi || q < b.hi || (q == b.hi && s)) { b.hi_s = (b.has_hi && q == b.hi) ? (b.hi_s || s) : s; b.hi = q; b.has_hi = true; } };
    auto lo = [&](Q const& q, bool s) { if (!b.has_lo || q > b.lo || (q == b.lo && s)) { b.lo_s = (b.has_lo && q == b.lo) ? (b.lo_s || s) : s; b.lo = q; b.has_lo = true; } };
    struct Upd { Bounds& b; Lin const& m; ~Upd() { if (m.t.size() == 1) { auto& a = atoms[m.t[0].first]; if (b.has_lo) { a.pl = true; a.plo = b.lo; } if (b.has_hi) { a.ph = true; a.phi = b.hi; } touched.push_back(m.t[0].first); } } } upd{b, m};
    if (o == 2) { if (t) { up(r, false); lo(r, false); } else b.ne.push_back(r); }
    else if (o == 0) { if (t) up(r, true); else lo(r, false); }
    else { if (t) up(r, false); else lo(r, true); }
    return truth;
}
static bool cmp(std::uint32_t a, std::uint32_t b, int op)
{
    auto &x = get(a), &y = get(b);
    RVal d{Q(x.conc - y.conc), lin_add(x.l, y.l, -1)};
    return decide(d, op);
}
bool lt(std::uint32_t a, std::uint32_t b) { return cmp(a, b, 0); }
bool le(std::uint32_t a, std::uint32_t b) { return cmp(a, b, 1); }
bool eq(std::uint32_t a, std::uint32_t b) { return cmp(a, b, 2); }
static std::unordered_map<Node*, Q> pin_value;
void pin(std::uint32_t a)
{
    auto& x = get(a); if (x.l.t.empty()) return;
    st.pinned++;
    // earlier runs may have pinned the same term here to other values: exclude those first
    static std::unordered_map<std::string, int> ids; std::string key = lin_key(x.l, true);
    int id = ids.emplace(key, (int)ids.size() + 1).first->second;
    for (;;) {
        Node* n = g_cur ? g_cur->child[g_cur_dir] : g_root;
        if (!n || n->pin != id || pin_value[n] == x.conc) break;
        Node* was = g_cur; eq(a, mk_const(pin_value[n])); if (g_cur == was) break;
    }
    Node* was = g_cur; std::uint32_t c = mk_const(x.conc); eq(a, c);
    if (g_cur != was && g_cur->pin == 0) { g_cur->pin = id; pin_value[g_cur] = x.conc; }
}
std::uint32_t input(std::string const& name, Q const& lo, Q const& hi, bool integer)
{
    auto it = g_input_expr.find(name);
    if (it == g_input_expr.end()) it = g_input_expr.emplace(name, integer ? ctx().int_const(name.c_str()) : ctx().real_const(name.c_str())).first;
    z3::expr e = it->second;
    domain(name, e >= (integer ? z3::to_expr(ctx(), Z3_mk_numeral(ctx(), lo.get_str().c_str(), ctx().int_sort())) : q_expr(lo)) &&
                 e <= (integer ? z3::to_expr(ctx(), Z3_mk_numeral(ctx(), hi.get_str().c_str(), ctx().int_sort())) : q_expr(hi)));
    auto v = g_inputs.find(name);
    if (v == g_inputs.end()) { Q d = lo > 0 ? lo : hi < 0 ? hi : Q(0); g_inputs[name] = d; v = g_inputs.find(name); }
    g_used[name] = v->second;
    int a = atom("V" + name, [&] { return integer ? z3::expr(ctx(), Z3_mk_int2real(ctx(), e)) : e; }, integer, v->second);
    atoms[a].bnd = true; atoms[a].lo = lo; atoms[a].hi = hi; if (int_mode() && integer && atoms[a].ie.empty()) atoms[a].ie.push_back(e);
    return put(from_atom(a, 1));
}
void bind_numeral(std::string const& t, std::uint32_t id) { numerals[t] = id; }
bool lookup_numeral(std::string const& t, std::uint32_t& id) { auto it = numerals.find(t); if (it == numerals.end()) return false; id = it->second; return true; }
Q input_value(std::string const& name) { return g_used[name]; }
static void reset() { for (int a : touched) atoms[a].pl = atoms[a].ph = false; touched.clear(); vals.clear(); bounds.clear(); numerals.clear(); }
} // namespace rt

// ---- crash containment -----------------------------------------------------------------------------------------------------
static void on_signal(int s)
{
    if (s == SIGVTALRM && g_in_run && g_progress) { g_progress = 0; if (++g_slow >= 4) g_alarm = 2; return; }
    if (s == SIGVTALRM) { if (g_alarm == 2) return; if (!g_alarm || !g_in_run || g_in_z3) { g_alarm = 1; return; } g_exit_msg = "run time limit"; siglongjmp(g_jmp, TIMEOUT); }
    if (!g_in_run) { signal(s, SIG_DFL); raise(s); return; }
    g_exit_msg = s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic exception (division by zero or overflow trap)" : s == SIGABRT ? "abort" : s == SIGBUS ? "bus error" : "illegal instruction";
    siglongjmp(g_jmp, CRASH);
}
} // namespace sym
extern "C" void __assert_fail(const char* a, const char* f, unsigned, const char* fn)
{
    std::string file = f; auto p = file.rfind("/src/"); if (p != std::string::npos) file = file.substr(p + 1);
    if (sym::g_in_run) { sym::g_exit_msg = std::string("assertion failed: ") + a + " (" + file + ")"; siglongjmp(sym::g_jmp, sym::CRASH); }
    fprintf(stderr, "assert %s %s %s\n", a, f, fn); _exit(9);
}
namespace std { void __glibcxx_assert_fail(const char* f, int, const char* fn, const char* c) noexcept {
    if (sym::g_in_run) { sym::g_exit_msg = std::string("library precondition violated: ") + (c ? c : "?") + " in " + (fn ? fn : "?"); siglongjmp(sym::g_jmp, sym::CRASH); }
    fprintf(stderr, "glibcxx assert %s %s\n", f, c); _exit(9); } }

namespace sym {
static Exit run_once(std::function<void()> const& body)
{
    g_cur = nullptr; g_cur_dir = false; g_known.clear(); g_path.clear(); g_used.clear(); rt::reset(); g_exit_msg.clear(); g_alarm = 0; g_progress = 0; g_slow = 0;
    if (sym_run_reset) sym_run_reset();
    itimerval tv{}; tv.it_value.tv_sec = (long)g_run_limit; tv.it_interval.tv_sec = 4; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    int j = sigsetjmp(g_jmp, 1);
    if (j == 0) {
        g_in_run = 1;
        try { body(); }
        catch (z3::exception const& e) { g_exit_msg = std::string("z3: ") + e.msg(); g_in_run = 0; st.abandons[g_exit_msg]++; return ABANDON; }
        catch (std::exception const& e) { g_in_run = 0; g_exit_msg = std::string("uncaught exception: ") + e.what(); return CRASH; }
        g_in_run = 0;
        return NORMAL;
    }
    g_in_run = 0;
    return (Exit)j;
}

static std::string jstr(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static void dump(std::ostream& o, std::string const& job, double wall)
{
    o << "{\"job\":" << jstr(job) << ",\"paths\":" << st.paths << ",\"abandoned\":" << st.abandoned << ",\"branches\":" << st.branches << ",\"queries\":" << st.queries
      << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat << ",\"unknown\":" << st.unknown << ",\"checks\":" << st.checks << ",\"checks_unknown\":" << st.checks_unknown
      << ",\"pinned\":" << st.pinned << ",\"divergences\":" << st.divergences << ",\"timeouts\":" << st.timeouts << ",\"solver_s\":" << st.solver_s << ",\"wall_s\":" << wall
      << ",\"nodes\":" << g_nodes.size() << ",\"frontier_left\":" << g_frontier.size() << ",\"complete\":" << (st.complete ? "true" : "false") << ",\"witnesses\":{";
    bool f = true; for (auto& [k, v] : st.witnesses) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
    o << "},\"counters\":{"; f = true; for (auto& [k, v] : st.counters) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
    o << "},\"abandons\":{"; f = true; for (auto& [k, v] : st.abandons) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
    o << "},\"samples\":["; f = true; for (auto& s : st.samples) { o << (f ? "" : ",") << jstr(s); f = false; }
    o << "],\"traces\":["; f = true;
    for (auto& t : st.traces) { o << (f ? "" : ",") << "{"; f = false; bool g = true; for (auto& [k, q] : t) { o << (g ? "" : ",") << jstr(k) << ":" << jstr(q); g = false; } o << "}"; }
    o << "],\"violations\":["; f = true;
    for (auto& v : st.violations) { o << (f ? "" : ",") << "{\"msg\":" << jstr(v.msg) << ",\"inputs\":{"; f = false; bool g = true; for (auto& [k, q] : v.inputs) { o << (g ? "" : ",") << jstr(k) << ":" << jstr(q); g = false; } o << "}}"; }
    o << "]}" << std::endl;
}

static void explore(Job const& job, double budget, std::string const& out)
{
    double t0 = now();
    g_solver = new z3::solver(ctx());
    z3::params p(ctx()); p.set("timeout", g_timeout_ms); g_solver->set(p);
    unsigned long rng = 88172645463325252ul ^ (g_seed * 2654435761ul);
    bool more = true; double last_dump = t0;
    while (more) {
        Exit e = run_once(job.body);
        st.paths++;
        if (e == NORMAL) {
            // reservoir sample of 6 paths
            st.trace_seen++; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
            std::size_t k = st.trace_seen <= 6 ? st.traces.size() : rng % st.trace_seen;
            if (k < 6) { std::map<std::string, std::string> m; for (auto& [n, q] : g_used) m[n] = qstr(q); if (k == st.traces.size()) st.traces.push_back(m); else st.traces[k] = m; }
        }
        if (e == CRASH) report("crash: " + g_exit_msg, g_used);
        else if (e == TIMEOUT) { st.timeouts++; st.abandons["run time limit"]++; report("hang: no result within the run time limit", g_used); if (st.timeouts >= 2) break; }
        else if (e == ABANDON) { st.abandoned++; if (g_exit_msg == "slow run" || g_exit_msg == "divergence" || g_exit_msg == "inconsistent branch" || g_exit_msg == "stale symbolic value") st.abandons[g_exit_msg]++; }
        if (st.violations.size() >= 3) break;
        if (st.violations.size() >= 1 && now() - t0 > budget / 2) break;
        if (now() - t0 > budget || (job.max_paths && st.paths >= job.max_paths)) break;
        if (now() - last_dump > 5) { last_dump = now(); std::ofstream o(out); dump(o, job.name, now() - t0); }
        more = false;
        while (!g_frontier.empty()) {
            std::size_t k = g_frontier.size() - 1;
            if (job.random_order) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; k = rng % g_frontier.size(); }
            Frontier f = g_frontier[k];
            g_frontier[k] = g_frontier.back(); g_frontier.pop_back();
            if (f.n->state[f.dir] != 4) continue;
            std::vector<std::pair<Node*, bool>> path;
            bool d = f.dir;
            for (Node* n = f.n; n; d = n->parent_dir, n = n->parent) path.push_back({n, d});
            std::reverse(path.begin(), path.end());
            align(path, path.size() - 1);
            g_solver->push();
            g_solver->add(f.dir ? g_conds[f.n->cond] : !g_conds[f.n->cond]);
            auto r = run_check();
            std::map<std::string, Q> in;
            bool ok = r == z3::sat && read_model(in);
            g_solver->pop();
            if (ok) { g_inputs = in; f.n->state[f.dir] = 1; more = true; break; }
            f.n->state[f.dir] = r == z3::unsat ? 2 : 3;
            if (r == z3::sat && !ok) st.unknown++;
            if (now() - t0 > budget) { g_frontier.push_back(f); break; }
        }
    }
    st.complete = g_frontier.empty() && st.unknown == 0 && st.timeouts == 0 && st.divergences == 0 && !st.abandons.count("slow run");
    std::ofstream o(out); dump(o, job.name, now() - t0);
}
} // namespace sym

int main(int argc, char** argv)
{
    using namespace sym;
    std::string mode = argc > 1 ? argv[1] : "", prop, job, out = "/dev/stdout"; double budget = 10;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--property") prop = v; else if (a == "--job") job = v; else if (a == "--out") out = v; else if (a == "--budget") budget = atof(v.c_str());
        else if (a == "--tier") g_tier = v; else if (a == "--seed") g_seed = (unsigned)atol(v.c_str());
    }
    std::vector<Job> jobs; make_jobs(prop, jobs);
    if (mode == "list") { for (auto& j : jobs) std::cout << j.name << "\t" << j.budget << "\n"; return 0; }
    // signal handling on an alternate stack (stack overflow in a recursion counts as a crash)
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) { struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(s, &sa, nullptr); }
    rlimit rl{6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &rl);
    for (auto& j : jobs) if (j.name == job) { explore(j, j.budget > 0 ? std::min(j.budget, budget) : budget, out); std::cout.flush(); _exit(0); }
    std::cerr << "no such job\n"; return 2;
}
