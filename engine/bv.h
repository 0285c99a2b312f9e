// Interface of harnesses that run instrumented code: machine integers with symbolic values.  Independent of GMP and z3.
#pragma once
#include <functional>
#include <string>
#include <vector>
extern "C" long sv_in(char const* name, long lo, long hi);      // any value in [lo, hi]
namespace sym {
std::string tier(); unsigned seed();
int choose(std::string const& name, int lo, int hi);            // forks over every value
inline bool flip(std::string const& name) { return choose(name, 0, 1) != 0; }
[[noreturn]] void abandon(char const* why);
void verify(bool ok, std::string const& msg);
void witness(std::string const& what);
// the message is only built for a failure, so no symbolic value reaches library string code
inline void verify_parts(bool ok, char const* a, char const* b, char const* c = "")
{
    static std::string const none;
    if (ok) verify(true, none); else verify(false, std::string(a) + ": " + b + c);
}
struct Job { std::string name; std::function<void()> body; double budget = 0; bool random_order = false; long max_paths = 0; };
void make_jobs(std::string const& property, std::vector<Job>& out);
}
