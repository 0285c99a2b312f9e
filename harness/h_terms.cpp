// C12: hash-consing of terms under symbolic construction histories, symbolic constants and forced hash collisions.
#include "mon.h"
#include "Terms.h"
#include "Term_manager.h"
using namespace yaga; using namespace yaga::terms; using namespace mon;
namespace {
struct Ref { Kind kind; type_t type; std::vector<term_t> args; int index = 0; Rational value; term_t h; bool fresh = false; std::string name; };
struct World {
    Term_table t; std::vector<Ref> r; bool collide; int classes;
    World(bool c, int k) : collide(c), classes(k) { r.push_back({Kind::CONSTANT_TERM, types::bool_type, {}, 0, Rational{0}, true_term}); r.push_back({Kind::ARITH_CONSTANT, types::real_type, {}, 0, Rational{0}, zero_term}); }
    // equal structure; rational constants are compared by the solver
    Z same(Ref const& a, Ref const& b)
    {
        if (a.fresh || b.fresh || a.kind != b.kind || a.type != b.type || a.args != b.args || a.index != b.index) return sym::ctx().bool_val(false);
        return a.kind == Kind::ARITH_CONSTANT ? zr(a.value) == zr(b.value) : sym::ctx().bool_val(true);
    }
    void read(Ref const& x)
    {
        sym::verify(t.get_kind(x.h) == x.kind, "C12: kind of a term"); sym::verify(t.get_type(x.h) == x.type, "C12: sort of a term");
        sym::verify(index_of(opposite_term(x.h)) == index_of(x.h) && is_negated(opposite_term(x.h)) && !is_negated(x.h) && opposite_term(opposite_term(x.h)) == x.h && positive_term(opposite_term(x.h)) == x.h && negative_term(x.h) == opposite_term(x.h), "C12: polarity of a handle");
        sym::verify(t.is_ite(x.h) == (x.kind == Kind::ITE_TERM) && t.is_app(x.h) == (x.kind == Kind::APP_TERM) && t.is_arithmetic_polynomial(x.h) == (x.kind == Kind::ARITH_POLY) && t.is_arithmetic_product(x.h) == (x.kind == Kind::ARITH_PRODUCT) && t.is_arithmetic_constant(x.h) == (x.kind == Kind::ARITH_CONSTANT) && t.is_uninterpreted_constant(x.h) == (x.kind == Kind::UNINTERPRETED_TERM), "C12: kind queries");
        if (x.kind == Kind::ARITH_CONSTANT) { sym::verify(zr(t.arithmetic_constant_value(x.h)) == zr(x.value), "C12: value of a constant"); sym::verify(t.get_args(x.h).empty(), "C12: a constant has no arguments"); return; }
        auto a = t.get_args(x.h); std::vector<term_t> got(a.begin(), a.end()), want = x.args;
        if (x.kind == Kind::APP_TERM) { sym::verify(t.get_fnc_symbol(x.h) == x.args[0], "C12: function symbol"); want.erase(want.begin()); }
        sym::verify(got == want, "C12: arguments of a term");
        if (x.kind == Kind::ARITH_PRODUCT) sym::verify(t.var_of_product(x.h) == x.args[1] && zr(t.coeff_of_product(x.h)) == zr(t.arithmetic_constant_value(x.args[0])), "C12: parts of a product");
        if (x.kind == Kind::ARITH_POLY) { auto m = t.monomials_of(x.h); sym::verify(std::vector<term_t>(m.begin(), m.end()) == x.args, "C12: monomials of a polynomial"); }
    }
    term_t add(Ref x)
    {
        for (auto& y : r) { Z e = same(x, y); sym::verify(x.h == y.h ? e : !e, x.h == y.h ? "C12: different terms share a handle" : "C12: the same term has two handles"); if (x.h == y.h) { sym::witness("shared"); read(y); return x.h; } }
        sym::verify(!is_negated(x.h), "C12: a new term has a negative handle"); read(x); r.push_back(x); sym::witness("new"); return x.h;
    }
    std::uint64_t h(std::vector<term_t> const& a, Kind k) { std::uint64_t s = (std::uint64_t)k; for (auto x : a) s += (std::uint64_t)x.x; return s % (std::uint64_t)classes + h0(); }
    static std::uint64_t h0() { return Rational{0}.getHashValue(); }   // the hash value of the constant 0: all rational constants and half of the composite terms get it
    term_t comp(Kind k, type_t ty, std::vector<term_t> a)
    {
        Ref x{k, ty, a}; std::vector<term_t> b = a; std::span<term_t> s{b};
        if (collide) x.h = t.known_terms.get_composite_term(Composite_term_proxy{k, ty, h(a, k), t, s});
        else switch (k) {
        case Kind::OR_TERM: x.h = t.or_term(s); break;
        case Kind::ARITH_POLY: x.h = t.arithmetic_polynomial(s); break;
        case Kind::ARITH_GE_ATOM: x.h = t.arithmetic_geq_zero(a[0]); break;
        case Kind::ARITH_EQ_ATOM: x.h = t.arithmetic_eq_zero(a[0]); break;
        case Kind::ARITH_BINEQ_ATOM: x.h = t.arithmetic_binary_eq(a[0], a[1]); break;
        case Kind::ITE_TERM: x.h = t.arithmetic_ite(a[0], a[1], a[2]); break;
        default: x.h = t.app_term(ty, s); break;
        }
        for (auto& z : b) z = null_term;   // the table must not keep a reference to the caller's arguments
        return add(x);
    }
    term_t rat(Rational const& v) { Ref x{Kind::ARITH_CONSTANT, types::real_type, {}, 0, v}; Rational tmp = v; x.h = collide ? t.known_terms.get_rational_term(Rational_proxy{h0(), t, tmp}) : t.arithmetic_constant(tmp); return add(x); }
    term_t cst(type_t ty, int i) { Ref x{Kind::CONSTANT_TERM, ty, {}, i}; x.h = t.constant_term(ty, i); return add(x); }
    term_t fresh(type_t ty) { Ref x{Kind::UNINTERPRETED_TERM, ty, {}}; x.fresh = true; x.h = t.new_uninterpreted_constant(ty); return add(x); }
    term_t prod(Rational const& c, term_t v)
    {
        if (collide) { std::vector<term_t> a{rat(c), v}; return comp(Kind::ARITH_PRODUCT, types::real_type, a); }
        Ref x{Kind::ARITH_PRODUCT, types::real_type, {null_term, v}}; x.h = t.arithmetic_product(c, v);
        Ref k{Kind::ARITH_CONSTANT, types::real_type, {}, 0, c}; k.h = t.arithmetic_constant(c); add(k); x.args[0] = k.h; return add(x);
    }
    void filler(int n) { for (int i = 0; i < n; ++i) { std::vector<term_t> a{negative_term(1), positive_term(1), term_t{2 + (i & 1)}, positive_term(1000 + i)}; std::span<term_t> s{a}; if (collide) (void)t.known_terms.get_composite_term(Composite_term_proxy{Kind::OR_TERM, types::bool_type, (std::uint64_t)i, t, s}); else (void)t.or_term(s); if (i % 3 == 0) (void)t.arithmetic_constant(Rational{1000 + i}); } }
    void all() { for (std::size_t i = 0; i < r.size(); ++i) { read(r[i]); Ref const& x = r[i]; if (x.fresh) continue; term_t h;
        switch (x.kind) { case Kind::ARITH_CONSTANT: h = rat(x.value); break; case Kind::CONSTANT_TERM: h = cst(x.type, x.index); break; case Kind::ARITH_PRODUCT: { Rational c = t.arithmetic_constant_value(x.args[0]); term_t v = x.args[1]; h = prod(c, v); break; } default: h = comp(x.kind, x.type, x.args); }
        sym::verify(h == r[i].h, "C12: building a term again gives another handle"); } }
};
// `real`/`boolean`: candidates for arguments; a product must be over a variable, an if-then-else or an application
void histories(int steps, bool collide, bool arith, int fill)
{
    World w(collide, collide ? 2 : 0);
    int sizes[] = {0, 1, 5, 11, 23, 47, 97, 300};
    std::vector<term_t> real, boolean{true_term, false_term}, leaf;
    term_t x = w.fresh(types::real_type), y = w.fresh(types::real_type), p = w.fresh(types::bool_type), f = w.fresh(types::real_type); real = {x, y}; leaf = {x, y}; boolean.push_back(p); boolean.push_back(opposite_term(p));
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s); term_t h; bool b = false;
        auto R = [&](char const* n) { int m = (int)real.size(); return real[(std::size_t)(m - 1 - sym::choose(n + k, 0, std::min(m, 3) - 1))]; };
        auto B = [&](char const* n) { int m = (int)boolean.size(); return boolean[(std::size_t)(m - 1 - sym::choose(n + k, 0, std::min(m, 3) - 1))]; };
        int op = sym::choose("op" + k, 0, arith ? 3 : 6);
        if (arith) { switch (op) {
            case 0: h = w.rat(rat_in("q" + k, -3, 3)); break;
            case 1: h = w.prod(rat_in("c" + k, -3, 3), leaf[(std::size_t)sym::choose("v" + k, 0, 1)]); break;
            case 2: h = w.comp(Kind::ARITH_POLY, types::real_type, {R("m"), R("n")}); break;
            default: h = w.comp(sym::flip("e" + k) ? Kind::ARITH_GE_ATOM : Kind::ARITH_EQ_ATOM, types::bool_type, {R("m")}); b = true; break; } }
        else { switch (op) {
            case 0: { int n = sym::choose("n" + k, 2, 3); std::vector<term_t> a; for (int i = 0; i < n; ++i) a.push_back(B(i == 0 ? "a" : i == 1 ? "b" : "d")); h = w.comp(Kind::OR_TERM, types::bool_type, a); b = true; break; }
            case 1: h = w.comp(Kind::ITE_TERM, types::real_type, {B("a"), R("m"), R("n")}); break;
            case 2: { int n = sym::choose("n" + k, 1, 2); bool bt = sym::flip("t" + k); std::vector<term_t> a{f}; for (int i = 0; i < n; ++i) a.push_back(R(i ? "m" : "n")); h = w.comp(Kind::APP_TERM, bt ? types::bool_type : types::real_type, a); b = bt; break; }
            case 3: h = w.comp(Kind::ARITH_BINEQ_ATOM, types::bool_type, {leaf[(std::size_t)sym::choose("v" + k, 0, 1)], leaf[(std::size_t)sym::choose("u" + k, 0, 1)]}); b = true; break;
            case 4: h = w.cst(sym::flip("t" + k) ? 5 : types::bool_type, sym::choose("i" + k, 0, 2)); b = w.t.get_type(h) == types::bool_type; break;
            case 5: h = w.fresh(sym::flip("t" + k) ? types::bool_type : types::real_type); b = w.t.get_type(h) == types::bool_type; break;
            default: h = w.comp(sym::flip("e" + k) ? Kind::ARITH_GE_ATOM : Kind::ARITH_EQ_ATOM, types::bool_type, {R("m")}); b = true; break; } }
        if (w.t.get_type(h) == 5) continue;
        auto& l = b ? boolean : real; l.push_back(h); if (b && sym::flip("neg" + k)) l.push_back(opposite_term(h));
        if (s == 0 && fill) w.filler(sizes[sym::choose("fill", 0, fill)]);
    }
    w.all(); sym::witness("history");
}
void names(int steps)
{
    Term_table t; std::vector<std::pair<std::string, term_t>> ref; std::vector<term_t> h; std::vector<std::string> pool{"x", "X", "x'", "", "f", "averyveryverylongname_averyveryverylongname_1", "averyveryverylongname_averyveryverylongname_2"};
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s); term_t n = t.new_uninterpreted_constant(sym::flip("t" + k)); sym::verify(std::find(h.begin(), h.end(), n) == h.end(), "C12: a fresh constant is not new"); h.push_back(n);
        std::vector<std::string> left; for (auto& x : pool) { bool in = false; for (auto& e : ref) in = in || e.first == x; if (!in) left.push_back(x); }
        int c = sym::choose("name" + k, 0, (int)left.size()); if (c < (int)left.size()) { std::string nm = left[(std::size_t)c]; bool neg = t.get_type(n) == types::bool_type && sym::flip("neg" + k); term_t m = neg ? opposite_term(n) : n; t.set_term_name(m, nm); ref.emplace_back(nm, m); nm[0] = '?'; }
        for (auto& x : pool) { std::optional<term_t> w; for (auto& e : ref) if (e.first == x) w = e.second; sym::verify(t.get_term_by_name(x) == w, "C12: term of a name"); }
        for (auto x : h) for (auto y : {x, opposite_term(x)}) { std::optional<std::string> w; for (auto& e : ref) if (e.second == y) w = e.first; auto g = t.get_term_name(y); sym::verify(g.has_value() == w.has_value() && (!w || *g == *w), "C12: name of a term"); }
        std::vector<term_t> a{n, true_term}; std::span<term_t> sp{a}; term_t app = t.app_term(types::real_type, sp); auto g = t.get_term_name(app), e = t.get_term_name(n); sym::verify(g.has_value() == e.has_value() && (!e || *g == *e), "C12: name of an application");
    }
    sym::witness("names");
}
// the simplifying constructors: the same call gives the same handle, whatever was built in between
void manager(int steps)
{
    Term_manager m; std::vector<term_t> real, boolean{true_term, false_term}; std::vector<std::function<term_t()>> calls; std::vector<term_t> got;
    for (int i = 0; i < 2; ++i) { real.push_back(m.mk_uninterpreted_constant(types::real_type)); boolean.push_back(m.mk_uninterpreted_constant(types::bool_type)); }
    for (int s = 0; s < steps; ++s) {
        std::string k = std::to_string(s); std::function<term_t()> c; bool b = true;
        auto pick = [&](std::vector<term_t> const& v, std::string n) { int z = (int)v.size(); return v[(std::size_t)(z - 1 - sym::choose(n + k, 0, std::min(z, 3) - 1))]; };
        term_t r1 = null_term, r2 = null_term, b1 = null_term, b2 = null_term; int op = sym::choose("op" + k, 0, 8);
        if (op <= 3) { r1 = pick(real, "r"); if (op < 3) r2 = pick(real, "s"); } else { b1 = pick(boolean, "a"); if (op < 8) b2 = pick(boolean, "b"); }
        Rational q = op == 3 ? rat_in("q" + k, -3, 3) : Rational{0};
        switch (op) {
        case 0: c = [&m, r1, r2] { std::vector<term_t> a{r1, r2}; return m.mk_arithmetic_plus(a); }; b = false; break;
        case 1: c = [&m, r1, r2] { return m.mk_arithmetic_eq(r1, r2); }; break;
        case 2: c = [&m, r1, r2] { return m.mk_arithmetic_leq(r1, r2); }; break;
        case 3: c = [&m, r1, q] { std::vector<term_t> a{m.term_table->arithmetic_constant(q), r1}; return m.mk_arithmetic_times(a); }; b = false; break;
        case 4: c = [&m, b1, b2] { std::vector<term_t> a{b1, b2}; return m.mk_or(a); }; break;
        case 5: c = [&m, b1, b2] { std::vector<term_t> a{b1, b2}; return m.mk_and(a); }; break;
        case 6: c = [&m, b1, b2] { return m.mk_iff(b1, b2); }; break;
        case 7: c = [&m, b1, b2, real] { return m.mk_ite(b1, real[0], real[1]); }; b = false; break;
        default: c = [&m, b1] { return m.mk_iff(b1, true_term); }; break;
        }
        calls.push_back(c); got.push_back(c()); (b ? boolean : real).push_back(got.back());
        for (std::size_t i = 0; i < calls.size(); ++i) sym::verify(calls[i]() == got[i], "C12: the same construction gave another handle");
    }
    sym::witness("constructions");
}
}

void sym::make_jobs(std::string const& p, std::vector<sym::Job>& out)
{
    if (p != "C12") return; bool th = tier() == "thorough"; int x = th ? 1 : 0;
    auto job = [&](std::string const& n, std::function<void()> b) { out.push_back({n, std::move(b), 0, true}); };
    for (bool c : {false, true}) { std::string k = c ? "_collide" : "";
        job("terms2" + k, [=] { histories(2, c, false, 0); }); job("terms" + k, [=] { histories(3 + x, c, false, 0); }); job("arith2" + k, [=] { histories(2 + x, c, true, 0); }); job("arith" + k, [=] { histories(4 + x, c, true, 0); });
        job("grow" + k, [=] { histories(2 + x, c, false, 7); }); job("growa" + k, [=] { histories(2 + x, c, true, 7); }); }
    job("names", [=] { names(3 + x); }); job("names2", [=] { names(2); }); job("manager2", [=] { manager(2); }); job("manager", [=] { manager(3 + x); });
}
