#include "e2e.h"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <map>
#include <random>

namespace e2e {
// which characters are inside a quoted name |...|
static std::vector<bool> quoted(std::string const& t)
{
    std::vector<bool> r(t.size()); bool bar = false, cm = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (cm) { cm = t[i] != '\n'; continue; }
        if (!bar && t[i] == ';') { cm = true; continue; }
        r[i] = bar; if (t[i] == '|') { bar = !bar; r[i] = true; }
    }
    return r;
}
struct Symc { std::string name; bool integer; };
static std::vector<Symc> symbols(std::string const& t)
{
    std::vector<Symc> r; std::set<std::string> seen; auto const q = quoted(t);
    for (std::size_t i = 0; i < t.size(); ++i)
        if (!q[i] && (t[i] == '$' || t[i] == '%')) {
            std::size_t j = i + 1; while (j < t.size() && (std::isalnum((unsigned char)t[j]) || t[j] == '_')) ++j;
            std::string n = t.substr(i, j - i);
            if (seen.insert(n).second) r.push_back({n, t[i] == '%'});
            i = j - 1;
        }
    return r;
}
static std::string subst(std::string const& t, std::map<std::string, std::string> const& m)
{
    std::string o; auto const q = quoted(t);
    for (std::size_t i = 0; i < t.size();) {
        if (!q[i] && (t[i] == '$' || t[i] == '%')) {
            std::size_t j = i + 1; while (j < t.size() && (std::isalnum((unsigned char)t[j]) || t[j] == '_')) ++j;
            auto it = m.find(t.substr(i, j - i));
            o += it == m.end() ? t.substr(i, j - i) : it->second;
            i = j;
        } else o += t[i++];
    }
    return o;
}
// top-level s-expressions
static std::vector<std::string> commands(std::string const& t)
{
    std::vector<std::string> r; int d = 0; std::string cur; bool bar = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        char c = t[i];
        if (c == ';' && !bar) { while (i < t.size() && t[i] != '\n') ++i; if (d > 0) cur += '\n'; continue; }
        if (c == '|') bar = !bar;
        if (!bar && c == '(') ++d;
        if (d > 0) cur += c;
        if (!bar && c == ')') { --d; if (d == 0) { r.push_back(cur); cur.clear(); } }
    }
    return r;
}
static std::string head(std::string const& c) { std::size_t i = 1, j; while (i < c.size() && std::isspace((unsigned char)c[i])) ++i; j = i; while (j < c.size() && !std::isspace((unsigned char)c[j]) && c[j] != ')' && c[j] != '(') ++j; return c.substr(i, j - i); }
static std::string second(std::string const& c) { std::string h = head(c); std::size_t i = c.find(h) + h.size(); while (i < c.size() && std::isspace((unsigned char)c[i])) ++i; std::size_t j = i; if (c[i] == '|') { j = c.find('|', i + 1) + 1; } else while (j < c.size() && !std::isspace((unsigned char)c[j]) && c[j] != ')' && c[j] != '(') ++j; return c.substr(i, j - i); }

// |x| and x are the same symbol
static std::string plain(std::string n) { return n.size() >= 2 && n[0] == '|' && n.back() == '|' ? n.substr(1, n.size() - 2) : n; }
// SMT-LIB 2.6, 3.1: a symbol is |...| or a non-empty string of the listed characters which is not a reserved word
static bool is_symbol(std::string const& n)
{
    if (n.size() >= 2 && n[0] == '|' && n.back() == '|') return n.find_first_of("|\\", 1) == n.size() - 1;
    static std::set<std::string> const reserved{"!", "_", "as", "BINARY", "DECIMAL", "exists", "HEXADECIMAL", "forall", "let", "match", "NUMERAL", "par", "STRING",
        "assert", "check-sat", "check-sat-assuming", "declare-const", "declare-datatype", "declare-datatypes", "declare-fun", "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-proof", "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset", "reset-assertions", "set-info", "set-logic", "set-option"};
    if (n.empty() || std::isdigit((unsigned char)n[0]) || reserved.count(n)) return false;
    for (char ch : n) if (!std::isalnum((unsigned char)ch) && !std::strchr("~!@$%^&*_-+=<>.?/", ch)) return false;
    return true;
}

static z3::expr parse_conj(std::string const& text, std::vector<z3::func_decl> const& extra)
{
    auto& c = sym::ctx();
    z3::func_decl_vector d(c); for (auto& f : extra) d.push_back(f);
    z3::sort_vector s(c);
    z3::expr_vector v = c.parse_string(text.c_str(), s, d);
    return z3::mk_and(v);
}
// numerals denote reals in these logics
static std::string reals(std::string const& t)
{
    std::string o; bool bar = false;
    for (std::size_t i = 0; i < t.size();) {
        if (t[i] == '|') bar = !bar;
        if (!bar && std::isdigit((unsigned char)t[i]) && (i == 0 || std::isspace((unsigned char)t[i - 1]) || t[i - 1] == '(' || t[i - 1] == ')')) {
            bool dot = false; while (i < t.size() && (std::isdigit((unsigned char)t[i]) || t[i] == '.')) { dot = dot || t[i] == '.'; o += t[i++]; }
            if (!dot) o += ".0";
        } else o += t[i++];
    }
    return o;
}
static std::string smt_num(sym::Q const& q, int style)
{
    sym::Q a = abs(q); std::string s;
    if (a.get_den() == 1) s = a.get_num().get_str() + (style ? ".0" : "");
    else s = "(/ " + a.get_num().get_str() + " " + a.get_den().get_str() + ")";
    return q < 0 ? "(- " + s + ")" : s;
}

static yaga::Options pick_options(int mode, std::string& desc)
{
    yaga::Options o;
    if (mode == 1) {
        o.prop_rational = sym::flip("opt.prop_rational");
        o.deduce_bounds = sym::flip("opt.deduce_bounds");
    }
    if (mode == 2) o.prop_rational = true;
    if (mode == 3) o.deduce_bounds = true;
    if (mode == 1 || mode == 4) {
        int p = sym::choose("opt.phase", 0, 2);
        o.phase = p == 0 ? yaga::Phase::positive : p == 1 ? yaga::Phase::negative : yaga::Phase::cache;
    }
    return o;
}

// {a|b|c} is a symbolic choice between the alternatives; {#n|a|b} names it, so that several places share one choice
static std::string expand(std::string const& t, int& k)
{
    std::string o;
    for (std::size_t i = 0; i < t.size();) {
        if (t[i] != '{') { o += t[i++]; continue; }
        int d = 0; std::vector<std::string> alts(1); std::size_t j = i;
        for (; j < t.size(); ++j) {
            if (t[j] == '{') { if (d++) alts.back() += '{'; }
            else if (t[j] == '}') { if (--d == 0) break; alts.back() += '}'; }
            else if (t[j] == '|' && d == 1) alts.emplace_back();
            else alts.back() += t[j];
        }
        std::string name = "alt" + std::to_string(k++);
        if (alts[0].size() > 1 && alts[0][0] == '#') { name = "alt_" + alts[0].substr(1); alts.erase(alts.begin()); }
        int c = sym::choose(name, 0, (int)alts.size() - 1);
        o += expand(alts[(std::size_t)c], k);
        i = j + 1;
    }
    return o;
}
void run(Script const& s0, bool check_verdict, bool check_model)
{
    auto& c = sym::ctx();
    Script s = s0; { int k = 0; s.text = expand(s.text, k); }
    auto syms = symbols(s.text);
    std::map<std::string, std::string> m;
    std::vector<z3::func_decl> extra;
    std::vector<std::pair<z3::expr, z3::expr>> concrete;
    static int k; k = 0;
    for (auto& y : syms) {
        ++k;
#ifdef SYM_CONCRETE
        sym::Q v = sym::rt::input_value(y.name);
        m[y.name] = smt_num(v, !y.integer);
        z3::expr e = y.integer ? c.int_const(y.name.c_str()) : c.real_const(y.name.c_str());
        if (y.integer) { z3::expr r = c.real_const((y.name + "!r").c_str()); extra.push_back(r.decl()); concrete.push_back({r, sym::rt::q_expr(v)}); }
        else { extra.push_back(e.decl()); concrete.push_back({e, sym::rt::q_expr(v)}); }
#else
        std::uint32_t id = sym::rt::input(y.name, s.lo, s.hi, y.integer);
        std::string base = "90000" + std::to_string(k);
        sym::rt::bind_numeral(base, id);
        if (y.integer) m[y.name] = base;
        else {
            std::uint32_t ten = sym::rt::mk_const(10);
            sym::rt::bind_numeral(base + "0", sym::rt::mul(id, ten));
            m[y.name] = base + ".0";
        }
        z3::expr e = y.integer ? c.int_const(y.name.c_str()) : c.real_const(y.name.c_str());
        if (y.integer) { z3::expr r = c.real_const((y.name + "!r").c_str()); extra.push_back(r.decl()); concrete.push_back({r, z3::expr(c, Z3_mk_int2real(c, e))}); }
        else { extra.push_back(e.decl()); concrete.push_back({e, e}); }
#endif
    }
    std::string desc;
    yaga::Options opts = pick_options(s.options, desc);
    std::string script = subst(s.text, m);
    std::stringstream in{script}, out;
    {
        yaga::parser::Smt2_parser parser;
        parser.set_options(opts);
        parser.parse(in, out);
    }
    if (s.ends_only) {
        int asked = 0, got = 0; for (auto& d : commands(script)) asked += head(d) == "check-sat";
        std::string l; std::stringstream o{out.str()}; while (std::getline(o, l)) got += l == "sat" || l == "unsat";
        sym::verify(asked == got, "C25: a check-sat command got no answer"); sym::witness("answered"); return;
    }
    // z3 sees the same text with the constants as z3 variables (integer ones as reals)
    std::map<std::string, std::string> zm; for (auto& y : syms) if (y.integer) zm[y.name] = "|" + y.name + "!r|";
    std::string ztext = subst(s.text, zm);
    ztext = reals(ztext);
    auto cmds = commands(ztext);
    std::string answer;
    std::string const outs = out.str();
    std::size_t pos = 0;
    auto line = [&]() -> std::string { std::size_t e = outs.find('\n', pos); if (e == std::string::npos) e = outs.size(); std::string l = outs.substr(pos, e - pos); pos = std::min(e + 1, outs.size()); return l; };
    auto bind = [&](z3::expr e) {
        z3::expr_vector f(c), t(c);
        for (auto& [x, v] : concrete) { f.push_back(x); t.push_back(v); }
        return f.empty() ? e : e.substitute(f, t);
    };
    std::string prefix; int nchecks = 0;
    static std::map<std::string, z3::expr> cache;
    for (std::size_t i = 0; i < cmds.size(); ++i) {
        std::string h = head(cmds[i]);
        if (h == "declare-fun" || h == "declare-const" || h == "define-fun" || h == "assert") { prefix += cmds[i] + "\n"; continue; }
        if (h == "check-sat") {
            answer = line(); ++nchecks;
            std::string tag = nchecks > 1 ? " (check-sat #" + std::to_string(nchecks) + ")" : "";
            if (answer != "sat" && answer != "unsat") { sym::verify(false, "no verdict printed: '" + answer + "'" + tag); return; }
            auto it = cache.find(prefix);
            if (it == cache.end()) it = cache.emplace(prefix, parse_conj(prefix, extra)).first;
            z3::expr phi = bind(it->second);
            sym::count("verdict " + answer);
            if (answer == "unsat") { if (check_verdict) sym::verify(!phi, "answers unsat but the assertions are satisfiable" + tag); }
            else if (check_verdict && (i + 1 >= cmds.size() || head(cmds[i + 1]) != "get-model")) {
                // satisfiable for some inputs on this path is not enough: it must be satisfiable for all of them
                sym::verify(sym::sat(sym::at_inputs(phi)), "answers sat but the assertions are unsatisfiable" + tag);
            }
        } else if (h == "get-model") {
            if (answer != "sat") { line(); continue; }
            std::string model; int depth = 0; bool bar = false;
            do {
                std::string l = line(); model += l + "\n";
                for (char ch : l) { if (ch == '|') bar = !bar; else if (!bar) depth += ch == '(' ? 1 : ch == ')' ? -1 : 0; }
            } while ((depth > 0 || bar) && pos < outs.size());
            // strip outer parentheses
            std::size_t a = model.find('('), b = model.rfind(')');
            if (a == std::string::npos || b == std::string::npos || depth != 0 || bar) { sym::verify(false, "model is not a list: " + model); return; }
            std::string body = model.substr(a + 1, b - a - 1);
            // symbolic values "(sym N)" -> constants
            std::vector<z3::func_decl> ex = extra; std::vector<std::pair<z3::expr, z3::expr>> con = concrete;
            std::string z; std::set<std::string> seen; auto const q = quoted(body);
            for (std::size_t p = 0; p < body.size();) {
                if (q[p]) z += body[p++];
                else if (body.compare(p, 5, "(sym ") == 0) {
                    std::size_t e = body.find(')', p); std::string n = body.substr(p + 5, e - p - 5);
                    std::string nm = "!s" + n; z += nm; p = e + 1;
                    if (seen.insert(n).second) {
                        z3::expr v = c.real_const(nm.c_str()); ex.push_back(v.decl());
                        con.push_back({v, sym::rt::expr((std::uint32_t)std::stoul(n))});
                    }
                } else if (std::isdigit((unsigned char)body[p]) && (p == 0 || std::isspace((unsigned char)body[p - 1]) || body[p - 1] == '(')) {
                    // numerals denote reals in these logics
                    bool dot = false; while (p < body.size() && (std::isdigit((unsigned char)body[p]) || body[p] == '.')) { dot = dot || body[p] == '.'; z += body[p++]; }
                    if (!dot) z += ".0";
                } else z += body[p++];
            }
            std::set<std::string> defined; std::string defs;
            for (auto& d : commands(z)) {
                if (head(d) != "define-fun") { sym::verify(false, "unexpected model entry " + d); return; }
                if (!is_symbol(second(d))) { sym::verify(false, "the model is not SMT-LIB: '" + second(d) + "' is not a symbol"); return; }
                if (!defined.insert(plain(second(d))).second) { sym::verify(false, "two values in the model for " + second(d)); return; }
                defs += d + "\n";
            }
            std::string rest, decls; int missing = 0;
            for (auto& d : commands(prefix)) {
                std::string hd = head(d);
                if (hd == "declare-fun" || hd == "declare-const") { if (!defined.count(plain(second(d)))) { decls += d + "\n"; ++missing; } }
                else rest += d + "\n";
            }
            z3::expr phi(c);
            try { phi = parse_conj(decls + defs + rest, ex); }
            catch (z3::exception const& e) { sym::verify(false, std::string("model is not well-formed SMT-LIB of the declared sorts: ") + e.msg()); return; }
            z3::expr_vector f(c), t(c);
            for (auto& [x, v] : con) { f.push_back(x); t.push_back(v); }
            if (!f.empty()) phi = phi.substitute(f, t);
            sym::verify(phi, check_model ? "printed model does not satisfy the assertions" : "answers sat without a satisfying assignment");
            sym::count("models checked");
        } else if (h == "exit") break;
    }
    if (nchecks) sym::witness("verdict compared with the oracle");
    sym::sample(script + " => " + answer);
}

// ---- random formulas ----------------------------------------------------------------------------------------------
std::string gen_lra(unsigned seed, int size, int nsym, std::string const& flavour)
{
    std::mt19937 g(seed);
    auto R = [&](int n) { return (int)(g() % (unsigned)n); };
    bool uf = flavour.substr(0, 2) == "uf", pool = flavour == "uf2" || flavour == "pool";
    int nv = 2 + R(2), nb = 1 + R(2); if (pool) nv += R(2);
    char const* vars[] = {"x", "y", "z", "w"}; char const* bools[] = {"p", "q", "r"};
    std::string t = uf ? "(set-logic QF_UFLRA)\n" : "(set-logic QF_LRA)\n";
    for (int i = 0; i < nv; ++i) t += std::string("(declare-fun ") + vars[i] + " () Real)\n";
    for (int i = 0; i < nb; ++i) t += std::string("(declare-fun ") + bools[i] + " () Bool)\n";
    if (uf) t += "(declare-fun f (Real) Real)\n(declare-fun g (Real Real) Real)\n";
    auto num = [&](int v) { return v < 0 ? "(- " + std::to_string(-v) + ")" : std::to_string(v); };
    auto cst = [&]() -> std::string {
        int k = R(10);
        if (k < 6 && nsym > 0) { std::string s = std::string("$") + (char)('a' + R(nsym)); if (R(4) == 0) return "(+ " + s + " " + num(R(5) - 2) + ")"; if (R(6) == 0) return "(* 2 " + s + ")"; return s; }
        if (k < 8) return num(R(9) - 4);
        return "(/ " + num(R(9) - 4) + " " + std::to_string(2 + R(2)) + ")";
    };
    std::function<std::string(int)> base = [&](int d) -> std::string {
        if (uf && d > 0 && R(3) == 0) { auto arg = [&](std::string s) { return pool && R(4) == 0 ? "(" + std::string(R(2) ? "+ " : "- ") + s + " " + vars[R(nv)] + ")" : s; }; return R(3) ? "(f " + arg(base(d - 1)) + ")" : "(g " + arg(base(d - 1)) + " " + arg(base(d - 1)) + ")"; }
        return vars[R(nv)];
    };
    auto lin = [&]() -> std::string {
        int n = 1 + R(10) / 4; if (n > 3) n = 3;
        std::vector<std::string> ts;
        for (int i = 0; i < n; ++i) { int co = R(5) == 0 ? R(7) - 3 : (R(2) ? 1 : -1); std::string b = base(2); ts.push_back(co == 1 ? b : co == -1 ? "(- " + b + ")" : "(* " + num(co) + " " + b + ")"); }
        if (ts.size() == 1) return ts[0];
        std::string s = "(+"; for (auto& x : ts) s += " " + x; return s + ")";
    };
    auto atom = [&]() -> std::string {
        char const* rel[] = {"<", "<=", "=", ">=", ">", "=", "<=", "distinct"};
        std::string r = rel[R(8)];
        if (R(6) == 0) return "(" + r + " " + lin() + " " + lin() + ")";
        return "(" + r + " " + lin() + " " + cst() + ")";
    };
    std::function<std::string(int)> form = [&](int d) -> std::string {
        int k = R(12);
        if (d == 0 || k < 3) { if (R(4) == 0) return bools[R(nb)]; return atom(); }
        if (k < 5) return "(or " + form(d - 1) + " " + form(d - 1) + ")";
        if (k < 6) return "(or " + form(d - 1) + " " + form(d - 1) + " " + form(d - 1) + ")";
        if (k < 7) return "(and " + form(d - 1) + " " + form(d - 1) + ")";
        if (k < 9) return "(not " + form(d - 1) + ")";
        if (k < 10) return "(=> " + form(d - 1) + " " + form(d - 1) + ")";
        if (k < 11) return R(2) ? "(xor " + form(d - 1) + " " + form(d - 1) + ")" : "(= " + form(d - 1) + " " + form(d - 1) + ")";
        return R(2) ? "(ite " + form(d - 1) + " " + form(d - 1) + " " + form(d - 1) + ")" : "(< (ite " + form(d - 1) + " " + lin() + " " + cst() + ") " + lin() + ")";
    };
    std::vector<std::string> atoms;
    if (pool) {   // few atoms, many clauses: the search backtracks a lot
        for (int i = 0; i < 4 + size; ++i) atoms.push_back(i < nb ? bools[i] : uf && R(3) ? "(" + std::string(R(3) ? "=" : R(2) ? "<=" : "<") + " " + base(2) + " " + base(2) + ")" : atom());
        for (int i = 0; i < 4 * size + R(8); ++i) {
            int n = R(8) ? 3 : 2; std::string a = "(or";
            for (int j = 0; j < n; ++j) { std::string const& l = atoms[(std::size_t)R((int)atoms.size())]; a += R(2) ? " " + l : " (not " + l + ")"; }
            t += "(assert " + a + "))\n";
        }
        return t + "(check-sat)\n(get-model)\n";
    }
    for (int i = 0; i < size; ++i) {
        std::string a;
        if (flavour == "conj") { a = R(4) ? atom() : "(or " + atom() + " " + atom() + ")"; }
        else if (flavour == "cnf" || uf) { int n = 1 + R(3); a = n == 1 ? atom() : "(or"; if (n > 1) { for (int j = 0; j < n; ++j) a += " " + (R(4) == 0 ? (R(2) ? std::string(bools[R(nb)]) : std::string("(not ") + bools[R(nb)] + ")") : atom()); a += ")"; } }
        else a = form(2);
        t += "(assert " + a + ")\n";
    }
    return t + "(check-sat)\n(get-model)\n";
}
}
