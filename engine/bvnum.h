// Euclid's algorithm in place of the library's binary one: same results, residues stay linear for the solver.
#pragma once
#include <numeric>
namespace std { namespace __detail {
template <> constexpr unsigned __gcd<unsigned>(unsigned m, unsigned n) { if (m < n) { unsigned t = m; m = n; n = t; } while (n) { unsigned r = m % n; m = n; n = r; } return m; }
template <> constexpr unsigned long __gcd<unsigned long>(unsigned long m, unsigned long n) { if (m < n) { unsigned long t = m; m = n; n = t; } while (n) { unsigned long r = m % n; m = n; n = r; } return m; }
} }
