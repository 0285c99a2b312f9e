// C14: Fraction<int> on symbolic numerators, against 128-bit integers.
#include <algorithm>
#include <cassert>
#include <limits>
#include "Fraction.h"
#include "bv.h"
#include <sstream>
using namespace yaga; using sym::choose; using sym::verify_parts;
typedef __int128 I;
using F = Fraction<int>;
namespace {
I iabs(I x) { return x < 0 ? -x : x; }
I igcd(I a, I b) { a = iabs(a); b = iabs(b); if (b > a) { I t = a; a = b; b = t; } while (b != 0) { I r = a % b; a = b; b = r; } return a; }
bool fits(I v) { return v > INT32_MIN && v <= INT32_MAX; }
bool fits64(I v) { return v > INT64_MIN && v <= INT64_MAX; }
int const dens[] = {1, 2, 3, 4, 6, 5, 12, 7, 9, 10};
int const edge_d[] = {2147483647, 65536, 1073741824, 46341, 2147483646};
int const edge_n[] = {0, 1, -1, 2147483647, -2147483647, 46341, -65536, 2147483646};
struct Op { F f; I n, d; };
void expect(F const& r, I n, I d, char const* what)
{
    I rn = r.numerator(), rd = r.denominator();
    verify_parts(rd > 0, "C14", what, ": denominator not positive");
    bool same = rn * d == n * rd; verify_parts(same, "C14", what, ": wrong value");
    I g = igcd(rn, rd); verify_parts(g == 1, "C14", what, ": not in lowest terms");
}
// canonical form of n/d fits the type
void in_type(I n, I d) { I g = igcd(n, d); if (g > 1) { n = n / g; d = d / g; } if (!fits(n) || !fits(d)) sym::abandon("result does not fit the type"); }
Op pick(std::string const& nm, int kind)
{
    long n; int d;
    if (kind == 0) { d = dens[choose(nm + ".d", 0, sym::tier() == "thorough" ? 9 : 5)]; n = sv_in(nm.c_str(), -2147483647, 2147483647); }
    else if (kind == 1) { d = edge_d[choose(nm + ".d", 0, 4)]; n = edge_n[choose(nm, 0, 7)]; }
    else { d = 1; n = sv_in(nm.c_str(), -2147483647, 2147483647); }
    if (choose(nm + ".s", 0, 1)) d = -d;
    I N = n, D = d; if (D < 0) { N = -N; D = -D; }
    return Op{F((int)n, d), N, D};
}
void binop(int op, int ka, int kb)
{
    Op a = pick("a", ka), b = pick("b", kb);
    expect(a.f, a.n, a.d, "construction"); expect(b.f, b.n, b.d, "construction");
    I x = a.f.numerator(), y = a.f.denominator(), u = b.f.numerator(), w = b.f.denominator();
    if (op == 3 && u == 0) sym::abandon("division by zero");
    I n, d;
    switch (op) { case 0: n = x * w + u * y; d = y * w; break; case 1: n = x * w - u * y; d = y * w; break; case 2: n = x * u; d = y * w; break; default: n = x * w; d = y * u; if (d < 0) { n = -n; d = -d; } }
    if (!fits64(x * w) || !fits64(u * y) || !fits64(n) || !fits64(d)) sym::abandon("cross product does not fit");
    in_type(n, d);
    char const* names[] = {"sum", "difference", "product", "quotient"};
    F r = a.f;
    if (choose("form", 0, 1)) { switch (op) { case 0: r += b.f; break; case 1: r -= b.f; break; case 2: r *= b.f; break; default: r /= b.f; } }
    else r = op == 0 ? a.f + b.f : op == 1 ? a.f - b.f : op == 2 ? a.f * b.f : a.f / b.f;
    expect(r, n, d, names[op]);
    sym::witness(names[op]);
}
void with_int(int op, int ka)
{
    Op a = pick("a", ka); long k = ka == 1 ? edge_n[choose("k", 0, 7)] : op >= 2 ? choose("k", 0, 12) - 6 : sv_in("k", -2147483647, 2147483647);
    I x = a.f.numerator(), y = a.f.denominator(), u = k; bool left = choose("left", 0, 1);
    I n, d = y;
    switch (op) {
    case 0: n = x + u * y; break;
    case 1: n = left ? u * y - x : x - u * y; break;
    case 2: n = x * u; break;
    default: if (left) { if (x == 0) sym::abandon("division by zero"); n = u * y; d = x; } else { if (u == 0) sym::abandon("division by zero"); n = x; d = y * u; } if (d < 0) { n = -n; d = -d; }
    }
    if (!fits64(n) || !fits64(d)) sym::abandon("cross product does not fit");
    in_type(n, d);
    int kk = (int)k;
    F r = op == 0 ? (left ? kk + a.f : a.f + kk) : op == 1 ? (left ? kk - a.f : a.f - kk) : op == 2 ? (left ? kk * a.f : a.f * kk) : (left ? kk / a.f : a.f / kk);
    char const* names[] = {"sum with an integer", "difference with an integer", "product with an integer", "quotient with an integer"};
    expect(r, n, d, names[op]); sym::witness(names[op]);
}
void unop(int ka)
{
    Op a = pick("a", ka); I n = a.f.numerator(), d = a.f.denominator();
    expect(a.f, a.n, a.d, "construction");
    expect(-a.f, -n, d, "negation");
    if (n != 0) { F r = a.f.inv(); I rn = r.numerator(), rd = r.denominator(); bool ok = n > 0 ? rn == d && rd == n : rn == -d && rd == -n; verify_parts(ok, "C14", "inverse"); }
    int t = static_cast<int>(a.f); bool ok = n >= 0 ? (I)t * d <= n && n < ((I)t + 1) * d : (I)t * d >= n && n > ((I)t - 1) * d; verify_parts(ok, "C14", "conversion to an integer");
    F c(n == 0 ? 0 : (int)n, (int)d, Normalized_tag{}); verify_parts(c == a.f && std::hash<F>{}(c) == std::hash<F>{}(a.f), "C14", "equal fractions are equal values with equal hashes");
    sym::witness("unary");
}
void compare(int ka, int kb)
{
    Op a = pick("a", ka), b = pick("b", kb); I l = a.n * b.d, r = b.n * a.d; int s = l < r ? -1 : l == r ? 0 : 1;
    verify_parts((a.f < b.f) == (s < 0), "C14", "<"); verify_parts((a.f <= b.f) == (s <= 0), "C14", "<="); verify_parts((a.f > b.f) == (s > 0), "C14", ">"); verify_parts((a.f >= b.f) == (s >= 0), "C14", ">=");
    verify_parts((a.f == b.f) == (s == 0), "C14", "=="); verify_parts((a.f != b.f) == (s != 0), "C14", "!=");
    if (s == 0) verify_parts(std::hash<F>{}(a.f) == std::hash<F>{}(b.f), "C14", "equal fractions have different hashes");
    sym::witness("compare");
}
void compare_int(int ka)
{
    Op a = pick("a", ka); long k = sv_in("k", -2147483647, 2147483647); int kk = (int)k; I l = a.n, r = (I)k * a.d; int s = l < r ? -1 : l == r ? 0 : 1;
    bool ok = (a.f < kk) == (s < 0) && (a.f <= kk) == (s <= 0) && (a.f > kk) == (s > 0) && (a.f >= kk) == (s >= 0) && (a.f == kk) == (s == 0) && (a.f != kk) == (s != 0);
    verify_parts(ok, "C14", "comparison with an integer on the right");
    bool ok2 = (kk < a.f) == (s > 0) && (kk <= a.f) == (s >= 0) && (kk > a.f) == (s < 0) && (kk >= a.f) == (s <= 0);
    verify_parts(ok2, "C14", "comparison with an integer on the left");
    sym::witness("compare with an integer");
}
}
void sym::make_jobs(std::string const&, std::vector<sym::Job>& out)
{
    auto add = [&](std::string n, std::function<void()> f) { out.push_back({n, f, 0, true}); };
    char const* ops[] = {"add", "sub", "mul", "div"};
    for (int op = 0; op < 4; ++op) {
        std::vector<std::pair<int, int>> ks = op < 2 ? std::vector<std::pair<int, int>>{{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 0}, {2, 0}} : std::vector<std::pair<int, int>>{{0, 1}, {1, 1}, {1, 0}};
        for (auto [x, y] : ks) add(std::string(ops[op]) + std::to_string(x) + std::to_string(y), [=] { binop(op, x, y); });
        for (int k = 0; k < 3; ++k) add(std::string(ops[op]) + "int" + std::to_string(k), [=] { with_int(op, k); });
    }
    for (int k = 0; k < 3; ++k) add("unary" + std::to_string(k), [=] { unop(k); });
    for (auto [x, y] : std::vector<std::pair<int, int>>{{0, 0}, {1, 1}, {2, 2}, {0, 1}, {2, 0}}) add("compare" + std::to_string(x) + std::to_string(y), [=] { compare(x, y); });
    for (int k = 0; k < 3; ++k) add("compareint" + std::to_string(k), [=] { compare_int(k); });
}
