#pragma once
#include "gmp.h"
class mpz_class {
    __mpz_struct z;
public:
    mpz_class() { z.v = 0; }
    mpz_class(long x) { z.v = x; }
    mpz_class(int x) { z.v = x; }
    mpz_class(unsigned long x) { z.v = (gstub::I)x; }
    explicit mpz_class(mpz_srcptr p) { z.v = p->v; }
    explicit mpz_class(char const* s, int base = 10) { mpz_set_str(&z, s, base); }
    explicit mpz_class(std::string const& s, int base = 10) { mpz_set_str(&z, s.c_str(), base); }
    mpz_ptr get_mpz_t() { return &z; }
    mpz_srcptr get_mpz_t() const { return &z; }
    mpz_class operator-() const { mpz_class r; r.z.v = -z.v; return r; }
    std::string get_str(int base = 10) const { return gstub::str(z.v, base); }
    bool operator==(mpz_class const& o) const { return z.v == o.z.v; }
    bool operator<(mpz_class const& o) const { return z.v < o.z.v; }
    long get_si() const { return (long)z.v; }
    unsigned long get_ui() const { return mpz_get_ui(&z); }
    double get_d() const { return (double)z.v; }
};
class mpq_class {
    __mpq_struct q;
public:
    mpq_class() { mpq_init(&q); }
    mpq_class(long x) { mpq_set_si(&q, x, 1); }
    mpq_class(int x) { mpq_set_si(&q, x, 1); }
    mpq_class(long n, unsigned long d) { mpq_set_si(&q, n, d); }
    mpq_class(mpz_class const& n) { mpq_set_z(&q, n.get_mpz_t()); }
    mpq_class(mpz_class const& n, mpz_class const& d) { q._mp_num.v = n.get_mpz_t()->v; q._mp_den.v = d.get_mpz_t()->v; }
    explicit mpq_class(mpq_srcptr p) { mpq_set(&q, p); }
    explicit mpq_class(char const* s, int base = 10) { mpq_set_str(&q, s, base); }
    explicit mpq_class(std::string const& s, int base = 10) { mpq_set_str(&q, s.c_str(), base); }
    mpq_ptr get_mpq_t() { return &q; }
    mpq_srcptr get_mpq_t() const { return &q; }
    mpz_class get_num() const { return mpz_class(&q._mp_num); }
    mpz_class get_den() const { return mpz_class(&q._mp_den); }
    void canonicalize() { mpq_canonicalize(&q); }
    mpq_class operator-() const { mpq_class r; mpq_neg(&r.q, &q); return r; }
    std::string get_str(int base = 10) const { std::string s = gstub::str(q._mp_num.v, base); if (q._mp_den.v != 1) s += "/" + gstub::str(q._mp_den.v, base); return s; }
    double get_d() const { return mpq_get_d(&q); }
    bool operator==(mpq_class const& o) const { return mpq_equal(&q, &o.q); }
    bool operator<(mpq_class const& o) const { return mpq_cmp(&q, &o.q) < 0; }
};
inline int sgn(mpq_class const& q) { return mpq_sgn(q.get_mpq_t()); }
inline int sgn(mpz_class const& q) { return mpz_sgn(q.get_mpz_t()); }
inline mpz_class abs(mpz_class const& a) { mpz_class r; mpz_abs(r.get_mpz_t(), a.get_mpz_t()); return r; }
inline mpq_class abs(mpq_class const& a) { mpq_class r; mpq_abs(r.get_mpq_t(), a.get_mpq_t()); return r; }
inline std::ostream& operator<<(std::ostream& o, mpz_class const& z) { return o << z.get_str(); }
inline std::ostream& operator<<(std::ostream& o, mpq_class const& q) { return o << q.get_str(); }
inline std::ostream& operator<<(std::ostream& o, mpz_srcptr z) { return o << gstub::str(z->v); }
inline std::ostream& operator<<(std::ostream& o, mpq_srcptr q) { return o << mpq_class(q).get_str(); }
