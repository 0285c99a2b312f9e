// Concrete twin of sym.cpp: runs one harness job once on the inputs of a replay file, against the untouched code.
#include "sym.h"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
namespace sym {
static z3::context* g = nullptr;
z3::context& ctx() { if (!g) g = new z3::context; return *g; }
static std::string g_tier = "quick"; static unsigned g_seed = 1; std::string tier() { return g_tier; } unsigned seed() { return g_seed; }
static volatile sig_atomic_t progress = 0;   // a run whose harness keeps checking is slow, not hung
static std::map<std::string, Q> in; static bool bad = false; 
[[noreturn]] static void leave(int code) { std::cout.flush(); _exit(code); }
static void fail(std::string const& m) { if (!bad) std::cout << "REPRODUCED " << m << std::endl; bad = true; }
int choose(std::string const& n, int lo, int hi) { auto it = in.find(n); if (lo == hi) return lo; if (it == in.end()) return lo; return (int)it->second.get_num().get_si(); }
z3::expr choice_expr(std::string const& n) { return ctx().int_val((int)(in.count(n) ? in[n].get_num().get_si() : 0)); }
z3::expr declare_bv(std::string const& n, unsigned w, std::uint64_t d, std::uint64_t& v) { auto it = in.find(n); v = it == in.end() ? d : std::strtoull(it->second.get_num().get_str().c_str(), nullptr, 10); return ctx().bv_val((uint64_t)v, w); }
bool branch(z3::expr const&, bool t) { return t; }
void assume(z3::expr const&, bool h) { if (!h) { std::cout << "ASSUMPTION" << std::endl; leave(3); } }
void abandon(char const* w) { std::cout << "ABANDON " << w << std::endl; leave(3); }
bool sat(z3::expr const& e) { progress = 1; z3::solver s(ctx()); s.add(e); auto r = s.check(); if (r == z3::unknown) abandon("unknown"); return r == z3::sat; }
void verify(z3::expr const& p, std::string const& m) { progress = 1; z3::solver s(ctx()); s.add(!p); if (s.check() == z3::sat) fail(m); }
void verify(bool ok, std::string const& m) { progress = 1; if (!ok) fail(m); }
void witness(std::string const&) {} void count(std::string const&, long) {} void sample(std::string const& t) { std::cout << "NOTE " << t << std::endl; }
z3::expr at_inputs(z3::expr const& e) { return e; }
bool eval_bool(z3::expr const& e) { return sat(e); }
bool is_symbolic_mode() { return false; }
namespace rt { z3::expr q_expr(Q const& q) { return ctx().real_val(q.get_str().c_str()); } Q input_value(std::string const& n) { return in.count(n) ? in[n] : Q(0); } z3::expr expr(std::uint32_t) { return ctx().real_val(0); } }
}
static void on_sig(int s) { if (s == SIGVTALRM && sym::progress) { sym::progress = 0; return; } char const* m = s == SIGSEGV ? "REPRODUCED crash: segmentation fault\n" : s == SIGFPE ? "REPRODUCED crash: arithmetic exception\n" : s == SIGVTALRM ? "REPRODUCED hang: no result within 20 s of processor time\n" : "REPRODUCED crash: abort\n"; (void)!write(1, m, __builtin_strlen(m)); _exit(1); }
extern "C" void __assert_fail(const char* a, const char* f, unsigned l, const char*) { printf("REPRODUCED crash: assertion failed: %s (%s:%u)\n", a, f, l); fflush(stdout); sym::leave(1); }
// usage: prog PROPERTY JOB TIER SEED INPUTFILE   (lines: name value)
int main(int argc, char** argv)
{
    using namespace sym;
    if (argc < 6) return 2;
    g_tier = argv[3]; g_seed = (unsigned)atol(argv[4]);
    std::ifstream f(argv[5]); std::string n, v; while (f >> n >> v) { Q q; if (q.set_str(v, 10) == 0) { q.canonicalize(); in[n] = q; } }
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) { struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    // 20 s of processor time: ordinary runs take milliseconds
    itimerval tv{}; tv.it_value.tv_sec = tv.it_interval.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    rlimit rl{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_AS, &rl);
    std::vector<Job> jobs; make_jobs(argv[1], jobs);
    for (auto& j : jobs) if (j.name == argv[2]) {
        try { j.body(); } catch (z3::exception const& e) { std::cout << "z3 " << e.msg() << std::endl; leave(3); }
        catch (std::exception const& e) { fail(std::string("crash: uncaught exception: ") + e.what()); }
        if (!bad) std::cout << "HELD" << std::endl;
        leave(bad ? 1 : 0);
    }
    return 2;
}

extern "C" long sv_in(char const* name, long lo, long hi) { if (lo == hi) return lo; return sym::rt::input_value(name).get_num().get_si(); }
