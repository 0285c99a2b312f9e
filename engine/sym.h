// Symbolic-execution runtime ("sym"): explores a harness body over all values of its symbolic inputs.
//
// The body is executed natively, concretely *and* symbolically (concolic execution): every value that depends on a
// symbolic input carries an expression, every branch on such a value is a solver-visible condition.  The driver
// enumerates the execution tree: for each branch it asks z3 whether the other side is feasible under the path
// condition; if so the body is re-executed with the solver's model.  When the frontier is empty all paths within the
// bounds of the inputs are covered; sym::verify asks z3 whether a property can fail for any input on the path.
//
// With SYM_CONCRETE the same harness is compiled against the untouched code; inputs come from a replay file.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <cstdint>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <string>
#include <vector>
#include <z3++.h>

namespace sym {
using Q = mpq_class;

z3::context& ctx();
std::string tier();      // "quick" or "thorough"
unsigned seed();

// ---- inputs -------------------------------------------------------------------------------------------------------
// discrete input in [lo,hi]; the returned value is concrete, the driver explores every feasible value
int choose(std::string const& name, int lo, int hi);
inline bool flip(std::string const& name) { return choose(name, 0, 1) != 0; }
// z3 view of a discrete input
z3::expr choice_expr(std::string const& name);
// discrete input that is *not* concretised (returned concrete value carries no constraint; use lit_branch on it)

// ---- control ------------------------------------------------------------------------------------------------------
// record a branch on a boolean z3 expression whose truth under the current concrete inputs is `taken`; returns taken
bool branch(z3::expr const& cond, bool taken);
// constrain the inputs of this path; the run is abandoned when the concrete inputs violate it
void assume(z3::expr const& cond, bool holds);
[[noreturn]] void abandon(char const* why);          // leave the path: outside the stated bounds (counted)
// property: must hold for every input on this path
void verify(z3::expr const& prop, std::string const& msg);
// property with a concrete verdict on this path
void verify(bool ok, std::string const& msg);
// path reached the final assertion (vacuity guard)
void witness(std::string const& what);
// free-form counters for the evidence
void count(std::string const& what, long n = 1);
void sample(std::string const& text);
// evaluate expr under the concrete inputs of this run
bool eval_bool(z3::expr const& e);
// substitute the concrete inputs of this run
z3::expr at_inputs(z3::expr const& e);
bool is_symbolic_mode();
bool sat(z3::expr const& e);       // plain query, no path condition

struct Job { std::string name; std::function<void()> body; double budget = 0; /*s; 0 = default*/ bool random_order = false; long max_paths = 0; };
// every harness defines this: jobs of the current tier
void make_jobs(std::string const& property, std::vector<Job>& out);

// ---- runtime interface used by the Rational overlay ------------------------------------------------------------------
namespace rt {
std::uint32_t mk_const(Q const&);
std::uint32_t add(std::uint32_t, std::uint32_t);
std::uint32_t sub(std::uint32_t, std::uint32_t);
std::uint32_t mul(std::uint32_t, std::uint32_t);
std::uint32_t div(std::uint32_t, std::uint32_t);
std::uint32_t neg(std::uint32_t);
std::uint32_t floor(std::uint32_t);
std::uint32_t reduce(std::uint32_t, Q const& m);     // drops integer multiples of m
Q content(std::uint32_t);                            // largest integer dividing the value for every input (0: none)
std::uint32_t input(std::string const& name, Q const& lo, Q const& hi, bool integer);
bool lt(std::uint32_t, std::uint32_t);
bool le(std::uint32_t, std::uint32_t);
bool eq(std::uint32_t, std::uint32_t);
bool is_const(std::uint32_t);
Q const& conc(std::uint32_t);
void pin(std::uint32_t);
z3::expr expr(std::uint32_t);
z3::expr q_expr(Q const&);
// numeral text -> symbolic constant (used by script templates)
void bind_numeral(std::string const& text, std::uint32_t id);
bool lookup_numeral(std::string const& text, std::uint32_t& id);
// concrete mode: value of an input
Q input_value(std::string const& name);
}
}
#endif
