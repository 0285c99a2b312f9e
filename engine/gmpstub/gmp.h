// Stand-in for the GMP interface on 127-bit integers, compiled with the instrumented code so that values stay symbolic.
// Results that do not fit leave the path (reported as outside the bounds).  The untouched GMP is used for replays.
#pragma once
#define VERIF_GMP_STUB 1
#include <cstddef>
#include <cstdint>
#include <csignal>
#include <cstring>
#include <istream>
#include <ostream>
#include <string>
namespace sym { [[noreturn]] void abandon(char const*); }
typedef unsigned long mp_limb_t; typedef unsigned long mp_bitcnt_t; typedef long mp_size_t;
namespace gstub {
typedef __int128 I;
static constexpr I LIM = (I)1 << 62;
static constexpr I TOP = (I)1 << 125;
struct Size { I v; operator int() const { I a = v < 0 ? -v : v; int n = a == 0 ? 0 : a < ((I)1 << 64) ? 1 : 2; return v < 0 ? -n : n; } };
struct Limbs { I v; mp_limb_t operator[](long i) const { I a = v < 0 ? -v : v; return i == 0 ? (mp_limb_t)a : (mp_limb_t)(a >> 64); } };
inline I chk(I x) { if (x >= TOP || x <= -TOP) sym::abandon("integer beyond 125 bits"); return x; }
inline I ab(I x) { return x < 0 ? -x : x; }
inline I mul(I a, I b)
{
    if (a == 0 || b == 0) return 0;
    // bit lengths bound the product
    I x = ab(a), y = ab(b); int k = 0;
    if (x < LIM && y < LIM) return a * b;
    if (x > y) { I t = x; x = y; y = t; }
    if (x < ((I)1 << 30) && y < ((I)1 << 94)) return a * b;
    (void)k; sym::abandon("integer beyond 125 bits");
}
inline I gcd(I a, I b) { a = ab(a); b = ab(b); if (b > a) { I t = a; a = b; b = t; } while (b != 0) { I r = a % b; a = b; b = r; } return a; }
inline I dz(I d) { if (d == 0) raise(SIGFPE); return d; }
inline I fdiv(I a, I b) { dz(b); I q = a / b, r = a % b; return r != 0 && ((r < 0) != (b < 0)) ? q - 1 : q; }
inline I cdiv(I a, I b) { dz(b); I q = a / b, r = a % b; return r != 0 && ((r < 0) == (b < 0)) ? q + 1 : q; }
inline int sg(I a) { return a < 0 ? -1 : a > 0 ? 1 : 0; }
inline std::string str(I v, int base = 10) { if (v == 0) return "0"; bool n = v < 0; I a = ab(v); std::string s; while (a != 0) { int d = (int)(a % base); s.insert(s.begin(), (char)(d < 10 ? '0' + d : 'a' + d - 10)); a /= base; } return n ? "-" + s : s; }
inline int parse(char const* s, std::size_t n, int base, I& out)
{
    std::size_t i = 0; bool neg = false; if (i < n && (s[i] == '-' )) { neg = true; ++i; }
    if (i == n) return -1; I v = 0;
    for (; i < n; ++i) { int c = s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; if (d >= (base ? base : 10)) return -1; if (v > TOP / 64) sym::abandon("integer beyond 125 bits"); v = v * (base ? base : 10) + d; }
    out = neg ? -v : v; return 0;
}
}
struct __mpz_struct { union { gstub::I v; gstub::Size _mp_size; gstub::Limbs _mp_d; }; };
struct __mpq_struct { __mpz_struct _mp_num, _mp_den; };
typedef __mpz_struct MP_INT; typedef __mpq_struct MP_RAT;
typedef __mpz_struct mpz_t[1]; typedef __mpz_struct* mpz_ptr; typedef __mpz_struct const* mpz_srcptr;
typedef __mpq_struct mpq_t[1]; typedef __mpq_struct* mpq_ptr; typedef __mpq_struct const* mpq_srcptr;
#define mpq_numref(q) (&((q)->_mp_num))
#define mpq_denref(q) (&((q)->_mp_den))
inline void mpz_init(mpz_ptr a) { a->v = 0; }
inline void mpz_clear(mpz_ptr) {}
inline void mpz_set(mpz_ptr a, mpz_srcptr b) { a->v = b->v; }
inline void mpz_init_set(mpz_ptr a, mpz_srcptr b) { a->v = b->v; }
inline void mpz_set_si(mpz_ptr a, long b) { a->v = b; }
inline void mpz_set_ui(mpz_ptr a, unsigned long b) { a->v = (gstub::I)b; }
inline void mpz_init_set_si(mpz_ptr a, long b) { a->v = b; }
inline void mpz_init_set_ui(mpz_ptr a, unsigned long b) { a->v = (gstub::I)b; }
inline int mpz_set_str(mpz_ptr a, char const* s, int base) { return gstub::parse(s, std::strlen(s), base, a->v); }
inline int mpz_init_set_str(mpz_ptr a, char const* s, int base) { return mpz_set_str(a, s, base); }
inline long mpz_get_si(mpz_srcptr a) { return (long)a->v; }
inline unsigned long mpz_get_ui(mpz_srcptr a) { return (unsigned long)gstub::ab(a->v); }
inline double mpz_get_d(mpz_srcptr a) { return (double)a->v; }
inline int mpz_fits_sint_p(mpz_srcptr a) { return a->v >= INT32_MIN && a->v <= INT32_MAX; }
inline int mpz_fits_uint_p(mpz_srcptr a) { return a->v >= 0 && a->v <= (gstub::I)UINT32_MAX; }
inline int mpz_fits_slong_p(mpz_srcptr a) { return a->v >= INT64_MIN && a->v <= INT64_MAX; }
inline int mpz_fits_ulong_p(mpz_srcptr a) { return a->v >= 0 && a->v <= (gstub::I)UINT64_MAX; }
inline int mpz_sgn(mpz_srcptr a) { return gstub::sg(a->v); }
inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return a->v < b->v ? -1 : a->v > b->v ? 1 : 0; }
inline int mpz_cmp_si(mpz_srcptr a, long b) { return a->v < b ? -1 : a->v > b ? 1 : 0; }
inline int mpz_cmp_ui(mpz_srcptr a, unsigned long b) { return a->v < (gstub::I)b ? -1 : a->v > (gstub::I)b ? 1 : 0; }
inline int mpz_cmpabs(mpz_srcptr a, mpz_srcptr b) { return gstub::ab(a->v) < gstub::ab(b->v) ? -1 : gstub::ab(a->v) > gstub::ab(b->v) ? 1 : 0; }
inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::chk(a->v + b->v); }
inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::chk(a->v - b->v); }
inline void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::mul(a->v, b->v); }
inline void mpz_mul_si(mpz_ptr r, mpz_srcptr a, long b) { r->v = gstub::mul(a->v, b); }
inline void mpz_mul_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = gstub::mul(a->v, (gstub::I)b); }
inline void mpz_add_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = gstub::chk(a->v + (gstub::I)b); }
inline void mpz_sub_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->v = gstub::chk(a->v - (gstub::I)b); }
inline void mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::chk(r->v + gstub::mul(a->v, b->v)); }
inline void mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::chk(r->v - gstub::mul(a->v, b->v)); }
inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->v = -a->v; }
inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->v = gstub::ab(a->v); }
inline void mpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::gcd(a->v, b->v); }
inline void mpz_lcm(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v == 0 || b->v == 0 ? (gstub::I)0 : gstub::ab(gstub::mul(a->v / gstub::gcd(a->v, b->v), b->v)); }
inline void mpz_divexact(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v / gstub::dz(b->v); }
inline void mpz_tdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v / gstub::dz(b->v); }
inline void mpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v % gstub::dz(b->v); }
inline void mpz_fdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::fdiv(a->v, b->v); }
inline void mpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - gstub::fdiv(a->v, b->v) * b->v; }
inline void mpz_cdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = gstub::cdiv(a->v, b->v); }
inline void mpz_cdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->v = a->v - gstub::cdiv(a->v, b->v) * b->v; }
inline void mpz_mod(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { gstub::I d = gstub::ab(gstub::dz(b->v)); r->v = a->v - gstub::fdiv(a->v, d) * d; }
inline void mpz_swap(mpz_ptr a, mpz_ptr b) { gstub::I t = a->v; a->v = b->v; b->v = t; }
inline int mpz_divisible_p(mpz_srcptr a, mpz_srcptr b) { return b->v == 0 ? a->v == 0 : a->v % b->v == 0; }
inline std::size_t mpz_sizeinbase(mpz_srcptr a, int base) { return gstub::str(gstub::ab(a->v), base).size(); }
inline void mpq_canonicalize(mpq_ptr q) { gstub::dz(q->_mp_den.v); gstub::I g = gstub::gcd(q->_mp_num.v, q->_mp_den.v); if (q->_mp_den.v < 0) g = -g; if (g != 1) { q->_mp_num.v /= g; q->_mp_den.v /= g; } }
inline void mpq_init(mpq_ptr q) { q->_mp_num.v = 0; q->_mp_den.v = 1; }
inline void mpq_clear(mpq_ptr) {}
inline void mpq_set(mpq_ptr a, mpq_srcptr b) { if (a != b) *a = *b; }
inline void mpq_set_z(mpq_ptr a, mpz_srcptr b) { a->_mp_num.v = b->v; a->_mp_den.v = 1; }
inline void mpq_set_si(mpq_ptr a, long n, unsigned long d) { a->_mp_num.v = n; a->_mp_den.v = (gstub::I)d; }
inline void mpq_set_ui(mpq_ptr a, unsigned long n, unsigned long d) { a->_mp_num.v = (gstub::I)n; a->_mp_den.v = (gstub::I)d; }
inline void mpq_set_num(mpq_ptr a, mpz_srcptr b) { a->_mp_num.v = b->v; }
inline void mpq_set_den(mpq_ptr a, mpz_srcptr b) { a->_mp_den.v = b->v; }
inline void mpq_get_num(mpz_ptr a, mpq_srcptr b) { a->v = b->_mp_num.v; }
inline void mpq_get_den(mpz_ptr a, mpq_srcptr b) { a->v = b->_mp_den.v; }
inline int mpq_set_str(mpq_ptr a, char const* s, int base)
{
    char const* p = std::strchr(s, '/'); a->_mp_den.v = 1;
    if (!p) return gstub::parse(s, std::strlen(s), base, a->_mp_num.v);
    return gstub::parse(s, (std::size_t)(p - s), base, a->_mp_num.v) | gstub::parse(p + 1, std::strlen(p + 1), base, a->_mp_den.v);
}
inline void mpq_set__(mpq_ptr r, gstub::I n, gstub::I d) { r->_mp_num.v = n; r->_mp_den.v = d; mpq_canonicalize(r); }
inline void mpq_add(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { mpq_set__(r, gstub::chk(gstub::mul(a->_mp_num.v, b->_mp_den.v) + gstub::mul(b->_mp_num.v, a->_mp_den.v)), gstub::mul(a->_mp_den.v, b->_mp_den.v)); }
inline void mpq_sub(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { mpq_set__(r, gstub::chk(gstub::mul(a->_mp_num.v, b->_mp_den.v) - gstub::mul(b->_mp_num.v, a->_mp_den.v)), gstub::mul(a->_mp_den.v, b->_mp_den.v)); }
inline void mpq_mul(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { mpq_set__(r, gstub::mul(a->_mp_num.v, b->_mp_num.v), gstub::mul(a->_mp_den.v, b->_mp_den.v)); }
inline void mpq_div(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { gstub::dz(b->_mp_num.v); mpq_set__(r, gstub::mul(a->_mp_num.v, b->_mp_den.v), gstub::mul(a->_mp_den.v, b->_mp_num.v)); }
inline void mpq_neg(mpq_ptr r, mpq_srcptr a) { mpq_set(r, a); r->_mp_num.v = -r->_mp_num.v; }
inline void mpq_abs(mpq_ptr r, mpq_srcptr a) { mpq_set(r, a); r->_mp_num.v = gstub::ab(r->_mp_num.v); }
inline void mpq_inv(mpq_ptr r, mpq_srcptr a) { gstub::I n = gstub::dz(a->_mp_num.v), d = a->_mp_den.v; if (n < 0) { n = -n; d = -d; } r->_mp_num.v = d; r->_mp_den.v = n; }
inline int mpq_cmp(mpq_srcptr a, mpq_srcptr b) { gstub::I l = gstub::mul(a->_mp_num.v, b->_mp_den.v), r = gstub::mul(b->_mp_num.v, a->_mp_den.v); return l < r ? -1 : l > r ? 1 : 0; }
inline int mpq_cmp_si(mpq_srcptr a, long n, unsigned long d) { __mpq_struct b; mpq_set_si(&b, n, d); return mpq_cmp(a, &b); }
inline int mpq_cmp_ui(mpq_srcptr a, unsigned long n, unsigned long d) { __mpq_struct b; mpq_set_ui(&b, n, d); return mpq_cmp(a, &b); }
inline int mpq_equal(mpq_srcptr a, mpq_srcptr b) { return a->_mp_num.v == b->_mp_num.v && a->_mp_den.v == b->_mp_den.v; }
inline int mpq_sgn(mpq_srcptr a) { return gstub::sg(a->_mp_num.v); }
inline double mpq_get_d(mpq_srcptr a) { return (double)a->_mp_num.v / (double)a->_mp_den.v; }
inline void mpq_swap(mpq_ptr a, mpq_ptr b) { __mpq_struct t = *a; *a = *b; *b = t; }
