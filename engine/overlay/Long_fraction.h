// Symbolic stand-in for yaga's exact rational type: same interface, but a value is either a small concrete integer
// (id == 0) or an entry of the symbolic runtime (exact rational or linear form over symbolic inputs).  The exactness of
// the real type is the subject of separate checks (C09, C10) on the real source.
#ifndef LONG_FRACTION_H
#define LONG_FRACTION_H
#include <algorithm>
#include <cassert>
#include <climits>
#include <cstdint>
#include <gmpxx.h>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <sstream>
#include <stack>
#include <string>
#include <type_traits>
#include <vector>
namespace sym::rt {
std::uint32_t mk_const(mpq_class const&);
std::uint32_t add(std::uint32_t, std::uint32_t);
std::uint32_t sub(std::uint32_t, std::uint32_t);
std::uint32_t mul(std::uint32_t, std::uint32_t);
std::uint32_t div(std::uint32_t, std::uint32_t);
std::uint32_t neg(std::uint32_t);
std::uint32_t floor(std::uint32_t);
bool lt(std::uint32_t, std::uint32_t);
bool le(std::uint32_t, std::uint32_t);
bool eq(std::uint32_t, std::uint32_t);
bool is_const(std::uint32_t);
mpq_class const& conc(std::uint32_t);
void pin(std::uint32_t);
inline bool real_hash = false;
bool lookup_numeral(std::string const& text, std::uint32_t& id);
}
namespace yaga {
typedef int32_t word;
typedef uint32_t uword;
typedef int64_t lword;
typedef uint64_t ulword;
class Long_fraction {
    std::int32_t num = 0;
    std::uint32_t id = 0;
    static Long_fraction wrap(std::int64_t v) { Long_fraction r; if (v >= INT_MIN && v <= INT_MAX) r.num = (std::int32_t)v; else { mpq_class q; q = mpz_class((long)v); r.id = sym::rt::mk_const(q); } return r; }
public:
    static Long_fraction of(std::uint32_t i)
    {
        Long_fraction r; r.id = i;
        if (sym::rt::is_const(i)) { auto& q = sym::rt::conc(i); if (q.get_den() == 1 && q.get_num().fits_sint_p()) { r.num = (std::int32_t)q.get_num().get_si(); r.id = 0; } }
        return r;
    }
    std::uint32_t h() const { return id ? id : sym::rt::mk_const(mpq_class(num)); }
    bool symbolic() const { return id != 0 && !sym::rt::is_const(id); }
    mpq_class value() const { return id ? sym::rt::conc(id) : mpq_class(num); }

    constexpr Long_fraction() {}
    constexpr Long_fraction(word x) : num(x) {}
    Long_fraction(uint32_t x) { *this = wrap((std::int64_t)x); }
    Long_fraction(word n, uword d) { assert(d > 0); mpq_class q((long)n, (unsigned long)d); q.canonicalize(); *this = of(sym::rt::mk_const(q)); }
    explicit Long_fraction(const char* s, const int base = 10)
    {
        std::uint32_t i;
        if (sym::rt::lookup_numeral(s, i)) { *this = of(i); return; }
        mpq_class q(s, base); q.canonicalize(); *this = of(sym::rt::mk_const(q));
    }
    explicit Long_fraction(std::string const& s, const int base = 10) : Long_fraction(s.c_str(), base) {}
    explicit Long_fraction(mpz_srcptr x) { mpz_class z(x); *this = of(sym::rt::mk_const(mpq_class(z))); }
    constexpr Long_fraction(const Long_fraction&) = default;
    constexpr Long_fraction(Long_fraction&&) noexcept = default;
    Long_fraction& operator=(const Long_fraction&) = default;
    Long_fraction& operator=(Long_fraction&&) = default;
    constexpr ~Long_fraction() {}
    void reset() { *this = Long_fraction{}; }

    void print(std::ostream& o) const
    {
        if (symbolic()) { o << "(sym " << id << ")"; return; }
        mpq_class q = value(); bool s = q < 0; if (s) q = -q;
        if (q.get_den() == 1) o << (s ? "(- " : "") << q.get_num() << (s ? ")" : "");
        else o << "(/ " << (s ? "(- " : "") << q.get_num() << (s ? ") " : " ") << q.get_den() << ")";
    }
    std::string get_str() const { if (symbolic()) return "(sym " + std::to_string(id) + ")"; return value().get_str(); }
    double get_d() const { pin(); return value().get_d(); }
    void pin() const { if (symbolic()) sym::rt::pin(id); }
    bool operator==(const Long_fraction& b) const { if (!id && !b.id) return num == b.num; return sym::rt::eq(h(), b.h()); }
    bool operator!=(const Long_fraction& b) const { return !(*this == b); }
    bool operator<(const Long_fraction& b) const { if (!id && !b.id) return num < b.num; return sym::rt::lt(h(), b.h()); }
    bool operator>(const Long_fraction& b) const { return b < *this; }
    bool operator<=(const Long_fraction& b) const { if (!id && !b.id) return num <= b.num; return sym::rt::le(h(), b.h()); }
    bool operator>=(const Long_fraction& b) const { return b <= *this; }
    int compare(const Long_fraction& b) const { return *this < b ? -1 : *this == b ? 0 : 1; }
    int sign() const { return compare(Long_fraction(0)); }
    Long_fraction operator-() const { if (!id) return wrap(-(std::int64_t)num); return of(sym::rt::neg(id)); }
    void negate() { *this = -*this; }
    unsigned size() const { return 64; }
    // by default every hash collides (what is found that way is replayed with the real one); with real_hash constants hash as in the code
    uint32_t getHashValue() const { if (!sym::rt::real_hash || symbolic()) return 0; if (!id) return 37 * (uint32_t)num + 13; auto const& v = value(); if (!v.get_num().fits_sint_p() || !v.get_den().fits_uint_p()) return 0; return 37 * (uint32_t)v.get_num().get_si() + 13 * (uint32_t)v.get_den().get_ui(); }
    bool isInteger() const { if (!id) return true; if (!symbolic()) return value().get_den() == 1; return *this == floor(); }
    Long_fraction floor() const { if (!id) return *this; return of(sym::rt::floor(id)); }
    Long_fraction ceil() const { if (!id) return *this; return -((-*this).floor()); }
    Long_fraction get_den() const { pin(); return of(sym::rt::mk_const(mpq_class(value().get_den()))); }
    Long_fraction get_num() const { pin(); return of(sym::rt::mk_const(mpq_class(value().get_num()))); }
    Long_fraction denominator() const { return get_den(); }
    Long_fraction numerator() const { return get_num(); }
    bool isWellFormed() const { return true; }
    bool wordPartValid() const { return id == 0; }
    bool isZero() const { return *this == Long_fraction(0); }
    bool isOne() const { return *this == Long_fraction(1); }
    Long_fraction operator+(const Long_fraction& b) const { if (!id && !b.id) return wrap((std::int64_t)num + b.num); return of(sym::rt::add(h(), b.h())); }
    Long_fraction operator-(const Long_fraction& b) const { if (!id && !b.id) return wrap((std::int64_t)num - b.num); return of(sym::rt::sub(h(), b.h())); }
    Long_fraction operator*(const Long_fraction& b) const
    {
        if (!id && !b.id) return wrap((std::int64_t)num * b.num);
        if (!id && num == 1) return b;
        if (!b.id && b.num == 1) return *this;
        return of(sym::rt::mul(h(), b.h()));
    }
    Long_fraction operator/(const Long_fraction& b) const { if (!b.id && b.num == 1) return *this; return of(sym::rt::div(h(), b.h())); }
    Long_fraction& operator+=(const Long_fraction& b) { return *this = *this + b; }
    Long_fraction& operator-=(const Long_fraction& b) { return *this = *this - b; }
    Long_fraction& operator*=(const Long_fraction& b) { return *this = *this * b; }
    Long_fraction& operator/=(const Long_fraction& b) { return *this = *this / b; }
    Long_fraction operator%(const Long_fraction& d) const { Long_fraction r = (*this / d).floor(); return *this - r * d; }
    Long_fraction inverse() const { return Long_fraction(1) / *this; }
    Long_fraction inv() const { return inverse(); }
};
inline void addition(Long_fraction& d, const Long_fraction& a, const Long_fraction& b) { d = a + b; }
inline void substraction(Long_fraction& d, const Long_fraction& a, const Long_fraction& b) { d = a - b; }
inline void multiplication(Long_fraction& d, const Long_fraction& a, const Long_fraction& b) { d = a * b; }
inline void division(Long_fraction& d, const Long_fraction& a, const Long_fraction& b) { d = a / b; }
inline void additionAssign(Long_fraction& a, const Long_fraction& b) { a += b; }
inline void substractionAssign(Long_fraction& a, const Long_fraction& b) { a -= b; }
inline void multiplicationAssign(Long_fraction& a, const Long_fraction& b) { a *= b; }
inline void divisionAssign(Long_fraction& a, const Long_fraction& b) { a /= b; }
inline Long_fraction gcd(Long_fraction const& a, Long_fraction const& b) { a.pin(); b.pin(); mpz_class g; mpz_class x = a.value().get_num(), y = b.value().get_num(); mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return Long_fraction::of(sym::rt::mk_const(mpq_class(g))); }
inline Long_fraction lcm(Long_fraction const& a, Long_fraction const& b) { a.pin(); b.pin(); mpz_class g; mpz_class x = a.value().get_num(), y = b.value().get_num(); mpz_lcm(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return Long_fraction::of(sym::rt::mk_const(mpq_class(g))); }
inline Long_fraction fastrat_fdiv_q(Long_fraction const& n, Long_fraction const& d) { return (n / d).floor(); }
inline Long_fraction fastrat_round_to_int(const Long_fraction& n) { return (n + Long_fraction(1, 2)).floor(); }
inline Long_fraction divexact(Long_fraction const& n, Long_fraction const& d) { return n / d; }
inline int cmpabs(Long_fraction a, Long_fraction b) { if (a.sign() == -1) a = -a; if (b.sign() == -1) b = -b; return a.compare(b); }
inline Long_fraction abs(Long_fraction const& x) { return x.sign() >= 0 ? x : -x; }
inline Long_fraction Long_fraction_inverse(const Long_fraction& x) { return x.inverse(); }
inline bool isNegative(Long_fraction const& n) { return n.sign() < 0; }
inline bool isPositive(Long_fraction const& n) { return n.sign() > 0; }
inline bool isNonNegative(Long_fraction const& n) { return n.sign() >= 0; }
inline bool isNonPositive(Long_fraction const& n) { return n.sign() <= 0; }
inline Long_fraction get_multiplicand(const std::vector<Long_fraction>& rs)
{
    mpz_class m = 1; for (auto& r : rs) { r.pin(); mpz_class d = r.value().get_den(); mpz_lcm(m.get_mpz_t(), m.get_mpz_t(), d.get_mpz_t()); }
    return Long_fraction::of(sym::rt::mk_const(mpq_class(m)));
}
struct Long_fractionHash { uint32_t operator()(const Long_fraction& s) const { return s.getHashValue(); } };
inline std::ostream& operator<<(std::ostream& o, const Long_fraction& r) { r.print(o); return o; }
}
template <> struct std::hash<yaga::Long_fraction> { inline std::size_t operator()(const yaga::Long_fraction& f) const { return f.getHashValue(); } };
#endif
