// C09/C10: Rational (Long_fraction) arithmetic, order, equality, hash on symbolic machine words, against 128-bit integers.
#include <algorithm>
#include <cassert>
#include <limits>
#include "Rational.h"
#include "bv.h"
#include <sstream>
using namespace yaga;
using sym::choose; using sym::verify; using sym::verify_parts; using sym::Job;
typedef __int128 I;
namespace {
bool g_fix = false;              // window operands are enumerated by the solver's branches at once (products)
std::string id;
I iabs(I x) { return x < 0 ? -x : x; }
I igcd(I a, I b) { a = iabs(a); b = iabs(b); if (b > a) { I t = a; a = b; b = t; } while (b != 0) { I r = a % b; a = b; b = r; } return a; }
I of_mpz(mpz_srcptr z)
{
#ifdef VERIF_GMP_STUB
    return z->v;
#else
    mpz_t h; mpz_init(h); mpz_tdiv_q_2exp(h, z, 64); I r = (I)mpz_get_ui(h) << 64; mpz_clear(h);
    mpz_t l; mpz_init(l); mpz_tdiv_r_2exp(l, z, 64); r += (I)mpz_get_ui(l); mpz_clear(l);
    return mpz_sgn(z) < 0 ? -r : r;
#endif
}
struct P { I n, d; };
P parts(Long_fraction const& f) { if (f.wordPartValid()) return {f.num, f.den}; return {of_mpz(mpq_numref(f.mpq)), of_mpz(mpq_denref(f.mpq))}; }
// the number v denotes is n/d; d > 0
void expect(Long_fraction const& v, I n, I d, char const* what, bool reduced = true)
{
    P p = parts(v);
    verify_parts(p.d > 0, id.c_str(), what, ": denominator not positive");
    bool same = p.n * d == n * p.d;
    verify_parts(same, id.c_str(), what, ": wrong value");
    if (reduced) { I g = igcd(p.n, p.d); verify_parts(g == 1, id.c_str(), what, ": not in lowest terms"); }
    // a value that fits the machine words is stored in them, so that equal numbers have one representation
    if (!v.wordPartValid()) { bool fits = p.n >= INT32_MIN && p.n <= INT32_MAX && p.d <= (I)UINT32_MAX; verify_parts(!fits, id.c_str(), what, ": value fits machine words but is not stored in them"); }
}
void intact(Long_fraction const& f, P was, char const* what) { P p = parts(f); bool ok = p.n == was.n && p.d == was.d; verify_parts(ok, id.c_str(), what, ": operand changed"); }
Long_fraction of_int(I v) { mpz_t z; mpz_init(z); mpz_set_si(z, (long)v); Long_fraction r(z); mpz_clear(z); return r; }
// number n/d for symbolic n within words, d a machine word
struct Op { Long_fraction f; I n, d; };
long win(std::string const& nm, long lo, long hi) { if (g_fix && hi - lo < 100) return lo + choose(nm, 0, (int)(hi - lo)); return sv_in(nm.c_str(), lo, hi); }
Op word_op(std::string const& nm, long lo, long hi, unsigned d) { long n = win(nm, lo, hi); return {Long_fraction((int)n, (unsigned)d), n, d}; }
Op big_op(std::string const& nm, long lo, long hi) { long n = win(nm, lo, hi); return {of_int(n), n, 1}; }
unsigned const small_d[] = {1, 2, 3, 4, 6, 5, 7, 12};
unsigned const large_d[] = {2147483648u, 4294967295u, 2147483647u, 65537, 4294967291u, 4294967294u, 65536, 46341};
long const bases[] = {0, 2147483647, -2147483648L, 4294967295L, -4294967296L, 2147483648L * 3, 65536, -46341, 4611686018427387904L, -6442450943L};
Op pick(std::string nm, int kind)
{
    if (kind == 0) return word_op(nm, INT32_MIN, INT32_MAX, small_d[choose(nm + ".d", 0, sym::tier() == "thorough" ? 7 : 4)]);
    if (kind == 1) return big_op(nm, -(1L << 40), 1L << 40);
    if (kind == 2) { int bi = choose(nm + ".b", 0, 9); long b = bases[bi]; nm += std::to_string(bi); if (b >= INT32_MIN && b <= INT32_MAX) { long lo = std::max<long>(b - 2, INT32_MIN), hi = std::min<long>(b + 2, INT32_MAX); return word_op(nm, lo, hi, large_d[choose(nm + ".d", 0, 7)]); } return big_op(nm, b - 2, b + 2); }
    if (kind == 3) { Op a = word_op(nm, INT32_MIN, INT32_MAX, 1); int e = choose(nm + ".o", 0, 2); a.f = a.f * (e == 0 ? of_int(4294967296L) : e == 1 ? of_int(-3) : of_int(65537)); a.n *= e == 0 ? (I)4294967296L : e == 1 ? (I)-3 : (I)65537; return a; }
    // numbers whose parts are both beyond words
    long b = win(nm, -3, 3); int e = choose(nm + ".q", 0, 2); long d = e == 0 ? 4294967296L : e == 1 ? 8589934593L : 12884901889L;
    I n = (I)(b + 12884901887L); Op r{of_int(n) / of_int(d), n, d}; return r;
}
// windows around corner values are split value by value: the solver only sees what is left symbolic
bool small(int ka, int kb) { return (ka == 2 || ka == 4) && (kb == 2 || kb == 4); }
void binop(int op, int ka, int kb)
{
    g_fix = op >= 2 || small(ka, kb);
    Op a = pick("a", ka), b = pick("b", kb);
    expect(a.f, a.n, a.d, "constructed operand"); expect(b.f, b.n, b.d, "constructed operand");
    P pa = parts(a.f), pb = parts(b.f);
    I x = pa.n, y = pa.d, u = pb.n, w = pb.d;
    if (op == 3 && u == 0) sym::abandon("division by zero");
    char const* names[] = {"sum", "difference", "product", "quotient"};
    int form = choose("form", 0, 1);
    Long_fraction r;
    if (form == 0) { switch (op) { case 0: r = a.f + b.f; break; case 1: r = a.f - b.f; break; case 2: r = a.f * b.f; break; default: r = a.f / b.f; } intact(a.f, pa, names[op]); }
    else { r = a.f; switch (op) { case 0: r += b.f; break; case 1: r -= b.f; break; case 2: r *= b.f; break; default: r /= b.f; } intact(a.f, pa, "copy of operand"); }
    intact(b.f, pb, names[op]);
    char const* inames[] = {"in-place sum", "in-place difference", "in-place product", "in-place quotient"}; char const* what = form ? inames[op] : names[op];
    switch (op) {
    case 0: expect(r, x * w + u * y, y * w, what); break;
    case 1: expect(r, x * w - u * y, y * w, what); break;
    case 2: expect(r, x * u, y * w, what); break;
    default: if (u < 0) { x = -x; u = -u; } expect(r, x * w, y * u, what);
    }
    sym::witness(what);
}
void unop(int ka)
{
    g_fix = small(ka, ka); Op a = pick("a", ka); P p = parts(a.f);
    switch (choose("op", 0, 7)) {
    case 0: expect(-a.f, -p.n, p.d, "negation"); break;
    case 1: { Long_fraction r = a.f; r.negate(); expect(r, -p.n, p.d, "negate"); r.negate(); expect(r, p.n, p.d, "negate twice"); break; }
    case 2: { if (p.n == 0) sym::abandon("inverse of zero"); Long_fraction r = a.f.inv(); P q = parts(r); I n = p.n < 0 ? -p.n : p.n, d = p.n < 0 ? -p.d : p.d; bool ok = q.n == d && q.d == n; verify_parts(ok, id.c_str(), "inverse"); bool fits = q.n >= INT32_MIN && q.n <= INT32_MAX && q.d <= (I)UINT32_MAX; verify_parts(r.wordPartValid() || !fits, id.c_str(), "inverse: value fits machine words but is not stored in them"); break; }
    case 3: { P q = parts(a.f.floor()); bool ok = q.d == 1 && q.n * p.d <= p.n && p.n < (q.n + 1) * p.d; verify_parts(ok, id.c_str(), "floor"); break; }
    case 4: { P q = parts(a.f.ceil()); bool ok = q.d == 1 && q.n * p.d >= p.n && p.n > (q.n - 1) * p.d; verify_parts(ok, id.c_str(), "ceiling"); break; }
    case 5: { expect(a.f.numerator(), p.n, 1, "numerator"); expect(a.f.denominator(), p.d, 1, "denominator"); break; }
    case 6: { int o = choose("self", 0, 3); Long_fraction r = a.f; if (o == 3 && p.n == 0) sym::abandon("division by zero");
        if (o == 0) { r += r; expect(r, p.n * 2, p.d, "a += a"); } else if (o == 1) { r -= r; expect(r, 0, 1, "a -= a"); } else if (o == 2) { if (ka != 2) { if (iabs(p.n) > 6) sym::abandon("wide square"); } r *= r; expect(r, p.n * p.n, p.d * p.d, "a *= a"); } else { r /= r; expect(r, 1, 1, "a /= a"); } break; }
    default: { Long_fraction& r = a.f; Long_fraction t = choose("self", 0, 1) ? r + r : r - r; P q = parts(t); (void)q; break; }
    }
    intact(a.f, p, "unary operation");
    sym::witness("unary");
}
void compare(int ka, int kb)
{
    g_fix = small(ka, kb);
    Op a = pick("a", ka), b = pick("b", kb); P p = parts(a.f), q = parts(b.f);
    I l = p.n * q.d, r = q.n * p.d; int s = l < r ? -1 : l == r ? 0 : 1;
    bool ok = (a.f < b.f) == (s < 0) && (a.f <= b.f) == (s <= 0) && (a.f > b.f) == (s > 0) && (a.f >= b.f) == (s >= 0);
    verify_parts(ok, id.c_str(), "order");
    bool e = (a.f == b.f) == (s == 0) && (a.f != b.f) == (s != 0); verify_parts(e, id.c_str(), "equality");
    if (s == 0) { bool h = std::hash<Long_fraction>{}(a.f) == std::hash<Long_fraction>{}(b.f); verify_parts(h, id.c_str(), "equal numbers have different hash values"); }
    intact(a.f, p, "comparison"); intact(b.f, q, "comparison");
    sym::witness("compare");
}
// registers holding exact values; copies must not share storage
void history(int steps)
{
    Long_fraction R[3]; I n[3], d[3];
    for (int i = 0; i < 3; ++i) { std::string nm = "r" + std::to_string(i); long b = i == 0 ? 2147483646 : i == 1 ? -4294967297L : 3; long v = sv_in(nm.c_str(), b - 3, b + 3); R[i] = of_int(v); n[i] = v; d[i] = 1; if (i == 2) { R[i] = R[i] / of_int(4); d[i] = 4; } }
    auto norm = [&](int i) { I g = igcd(n[i], d[i]); if (g > 1) { n[i] /= g; d[i] /= g; } if (iabs(n[i]) > ((I)1 << 55) || d[i] > ((I)1 << 40)) sym::abandon("beyond the sizes explored"); };
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s);
        int op = choose("op" + k, 0, 8), i = choose("i" + k, 0, 2), j = op == 5 || op == 8 ? 0 : choose("j" + k, 0, 2);
        switch (op) {
        case 0: R[i] = R[j]; n[i] = n[j]; d[i] = d[j]; break;
        case 1: if (i == j) sym::abandon("self move"); { std::swap(R[i], R[j]); std::swap(n[i], n[j]); std::swap(d[i], d[j]); } break;
        case 2: R[i] += R[j]; n[i] = n[i] * d[j] + n[j] * d[i]; d[i] = i == j ? d[i] : d[i] * d[j]; if (i == j) n[i] /= d[i]; norm(i); break;
        case 3: R[i] -= R[j]; n[i] = n[i] * d[j] - n[j] * d[i]; d[i] = i == j ? d[i] : d[i] * d[j]; norm(i); break;
        case 4: { if (i == j) sym::abandon("square"); I a = n[i], b = n[j]; if (iabs(a) > 64 && iabs(b) > 64) sym::abandon("wide product"); R[i] *= R[j]; n[i] = a * b; d[i] *= d[j]; norm(i); break; }
        case 5: R[i].negate(); n[i] = -n[i]; break;
        case 6: { Long_fraction t(R[j]); R[i] = std::move(t); n[i] = n[j]; d[i] = d[j]; break; }
        case 7: R[i] = R[i] + R[j]; if (i == j) { n[i] *= 2; } else { n[i] = n[i] * d[j] + n[j] * d[i]; d[i] *= d[j]; } norm(i); break;
        default: R[i].reset(); n[i] = 0; d[i] = 1; break;
        }
        for (int r = 0; r < 3; ++r) expect(R[r], n[r], d[r], "register", false);
    }
    sym::witness("history");
}
// C10: the same number computed along different routes
void routes(int ka)
{
    g_fix = small(ka, ka); Op a = pick("a", ka); P p = parts(a.f);
    Long_fraction x = a.f, y = a.f;
    int route = choose("route", 0, 8);
    Long_fraction big = of_int(choose("big", 0, 2) == 0 ? 2147483648L : 4294967297L);
    switch (route) {
    case 0: x = (x + big) - big; break;
    case 1: x = (x * big) / big; break;
    case 2: x += big; x -= big; break;
    case 3: x *= big; x /= big; break;
    case 4: x = -(-x); break;
    case 5: x = big - (big - x); break;
    case 6: { if (p.n == 0) sym::abandon("zero"); x = x.inv().inv(); break; }
    case 7: x = x.numerator() / x.denominator(); break;
    default: x.negate(); x = Long_fraction(0) - x; break;
    }
    bool e = x == y && !(x != y) && y == x; verify_parts(e, id.c_str(), "equal numbers compare different");
    bool o = !(x < y) && !(x > y) && x <= y && x >= y; verify_parts(o, id.c_str(), "order of equal numbers");
    bool h = std::hash<Long_fraction>{}(x) == std::hash<Long_fraction>{}(y); verify_parts(h, id.c_str(), "equal numbers have different hash values");
    bool s = x.sign() == (p.n < 0 ? -1 : p.n > 0 ? 1 : 0); verify_parts(s, id.c_str(), "sign");
    bool z = x.isZero() == (p.n == 0); verify_parts(z, id.c_str(), "zero test");
    bool w = x.isOne() == (p.n == 1 && p.d == 1); verify_parts(w, id.c_str(), "one test");
    bool t = x.isInteger() == (p.d == 1); verify_parts(t, id.c_str(), "integer test");
    bool q = isNegative(x) == (p.n < 0) && isPositive(x) == (p.n > 0) && isNonNegative(x) == (p.n >= 0) && isNonPositive(x) == (p.n <= 0); verify_parts(q, id.c_str(), "sign predicates");
    expect(x, p.n, p.d, "detour", false);
    sym::witness("route");
}
std::string dec(I v) { if (v == 0) return "0"; std::string s; I a = iabs(v); while (a != 0) { s.insert(s.begin(), (char)('0' + (int)(a % 10))); a /= 10; } return s; }
// the printed form denotes the value: "n", "(- n)", "(/ n d)", "(/ (- n) d)"
void printed()
{
    Op a = pick("a", choose("k", 0, 1) ? 4 : 2); P p = parts(a.f);
    std::ostringstream o; o << a.f; std::string got = o.str();
    std::string n = p.n < 0 ? "(- " + dec(p.n) + ")" : dec(p.n);
    std::string q = "(/ " + n + " " + dec(p.d) + ")";
    verify(got == q || (p.d == 1 && got == n), id + ": printed form " + got + " of " + n + " / " + dec(p.d));
    sym::witness("printed");
}
}
void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    id = p; bool th = tier() == "thorough";
    char const* ops[] = {"add", "sub", "mul", "div"};
    auto add = [&](std::string n, std::function<void()> f) { out.push_back({n, f, 0, true}); };
    if (p == "C09") {
        for (int op = 0; op < 4; ++op) {
            std::vector<std::pair<int, int>> kinds;
            if (op < 2) kinds = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}, {4, 2}, {2, 4}, {4, 4}, {3, 1}};
            else if (op == 2) kinds = {{0, 2}, {2, 0}, {2, 2}, {1, 2}, {4, 2}, {2, 4}, {4, 4}};
            else kinds = {{2, 0}, {0, 2}, {2, 2}, {1, 2}, {4, 2}, {2, 4}, {4, 4}};
            for (auto [x, y] : kinds) add(std::string(ops[op]) + std::to_string(x) + std::to_string(y), [=] { binop(op, x, y); });
        }
        for (int k = 0; k < 5; ++k) add("unary" + std::to_string(k), [=] { unop(k); });
        for (auto [x, y] : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}, {4, 4}, {4, 2}}) add("compare" + std::to_string(x) + std::to_string(y), [=] { compare(x, y); });
        add("history2", [=] { history(th ? 3 : 2); }); add("history3", [=] { history(th ? 4 : 3); });
    } else {
        for (auto [x, y] : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}, {4, 4}, {4, 2}}) add("compare" + std::to_string(x) + std::to_string(y), [=] { compare(x, y); });
        for (int k = 0; k < 5; ++k) add("route" + std::to_string(k), [=] { routes(k); });
        add("printed", [=] { printed(); });
    }
}
