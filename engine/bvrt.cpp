// Runtime of the instrumented code (ConcolicPass): machine integers carry exact linear terms over the inputs.
// A shadow is the id of a symbolic value of the engine (0 = independent of the inputs) and denotes the value of the
// machine integer read as a *signed* number of its width; every operation forks on wrap-around, so that on each path
// the term equals the machine value exactly.  Comparisons fork at once, hence Booleans never carry a shadow.
#include "sym.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <malloc.h>
#include <set>
#include <unordered_map>
#include <vector>
using u32 = std::uint32_t; using u64 = std::uint64_t; using i128 = __int128;
namespace rt = sym::rt; using Q = mpq_class;
extern "C" char __executable_start;
extern "C" {
u32 __sym_args[128]; void* __sym_argfn; u32 __sym_ret[16]; void* __sym_retfn; void* __sym_argptr[32];
}
namespace {
struct Page { u32 h[4096]; unsigned char ix[4096], w[4096]; };
std::unordered_map<std::uintptr_t, Page*> pages; std::vector<Page*> pool;
std::uintptr_t last_no = ~0ull; Page* last_pg = nullptr;
Page* page(std::uintptr_t a, bool mk)
{
    std::uintptr_t n = a >> 12;
    if (n == last_no && (last_pg || !mk)) return last_pg;
    auto it = pages.find(n); Page* p = it == pages.end() ? nullptr : it->second;
    if (!p && mk) { if (pool.empty()) p = (Page*)std::calloc(1, sizeof(Page)); else { p = pool.back(); pool.pop_back(); } pages[n] = p; }
    last_no = n; last_pg = p;
    return p;
}
struct B { u32 h; unsigned char ix, w; };
B getb(std::uintptr_t a) { Page* p = page(a, false); if (!p) return B{0, 0, 0}; unsigned o = a & 4095; return B{p->h[o], p->ix[o], p->w[o]}; }
void setb(std::uintptr_t a, B b) { Page* p = page(a, b.h != 0); if (!p) return; unsigned o = a & 4095; p->h[o] = b.h; p->ix[o] = b.ix; p->w[o] = b.w; }
bool any(std::uintptr_t a, u64 n)
{
    if (pages.empty()) return false;
    while (n) { u64 k = std::min<u64>(n, 4096 - (a & 4095)); if (Page* p = page(a, false)) { unsigned o = a & 4095; for (u64 i = 0; i < k; ++i) if (p->h[o + i]) return true; } a += k; n -= k; }
    return false;
}
Q qi(i128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; mpz_class z((unsigned long)(u >> 64)); z <<= 64; z += mpz_class((unsigned long)u); return Q(neg ? mpz_class(-z) : z); }
Q p2(unsigned k) { mpz_class z(1); z <<= k; return Q(z); }
// concrete machine value (lo, hi) of width w, read as signed
Q sval(unsigned w, u64 lo, u64 hi)
{
    unsigned __int128 u = ((unsigned __int128)hi << 64) | lo;
    if (w < 128) { u &= (((unsigned __int128)1) << w) - 1; if (u >> (w - 1)) return Q(qi((i128)u) - p2(w)); return qi((i128)u); }
    return qi((i128)u);
}
u32 K(Q const& q) { return rt::mk_const(q); }
bool isc(u32 a) { return rt::is_const(a); }
u32 fin(u32 a) { return isc(a) ? 0 : a; }          // constants need no shadow
u32 val(u32 e, unsigned w, u64 lo, u64 hi) { return e ? e : K(sval(w, lo, hi)); }
// signed value congruent to a modulo 2^w
u32 wrap(u32 a, unsigned w)
{
    if (isc(a)) return a;
    a = rt::reduce(a, p2(w));
    u32 hi = K(p2(w - 1)), lo = K(-p2(w - 1));
    if (rt::lt(a, hi)) { if (!rt::lt(a, lo)) return a; u32 up = rt::add(a, K(p2(w))); if (!rt::lt(up, lo)) return up; }
    else { u32 dn = rt::sub(a, K(p2(w))); if (rt::lt(dn, hi)) return dn; }
    u32 k = rt::floor(rt::div(rt::add(a, hi), K(p2(w))));
    return rt::sub(a, rt::mul(k, K(p2(w))));
}
u32 uns(u32 a, unsigned w) { if (rt::lt(a, K(0))) return rt::add(a, K(p2(w))); return a; }
bool dbg() { static bool d = std::getenv("VERIF_PINS") != nullptr; return d; }
#define PINNOTE(...) do { if (dbg()) fprintf(stderr, __VA_ARGS__); } while (0)
Q cpin(u32 a) { if (!isc(a)) PINNOTE("pin divisor/shift %s\n", rt::expr(a).to_string().c_str()); rt::pin(a); return rt::conc(a); }
bool pow2(Q const& q, unsigned& k) { if (q.get_den() != 1 || q <= 0) return false; mpz_class z = q.get_num(); k = (unsigned)mpz_scan1(z.get_mpz_t(), 0); return mpz_popcount(z.get_mpz_t()) == 1; }
u32 tdiv(u32 a, Q const& b)
{
    Q m = b < 0 ? Q(-b) : b;
    bool neg = rt::lt(a, K(0));
    u32 q = rt::floor(rt::div(neg ? rt::neg(a) : a, K(m)));
    return neg != (b < 0) ? rt::neg(q) : q;
}
}
extern "C" {
void sym_run_reset() { for (auto& [n, p] : pages) { std::memset(p, 0, sizeof *p); pool.push_back(p); } pages.clear(); last_no = ~0ull; last_pg = nullptr; __sym_argfn = __sym_retfn = nullptr; }
void __sym_pinmem(void* p, u64 n)
{
    auto a = (std::uintptr_t)p; if (!any(a, n)) return;
    std::set<u32> s; for (u64 i = 0; i < n; ++i) { B b = getb(a + i); if (b.h) s.insert(b.h); }
    for (u32 h : s) rt::pin(h);
    for (u64 i = 0; i < n; ++i) setb(a + i, B{0, 0, 0});
}
void __sym_clear(void* p, u64 n);
u32 __sym_load(void* p, u64 n)
{
    auto a = (std::uintptr_t)p; if (!any(a, n)) return 0;
    B f = getb(a);
    if (f.h) {
        u64 k = 1; while (k < n) { B b = getb(a + k); if (b.h != f.h || b.ix != f.ix + k) break; ++k; }
        if (k == n) {
            if (f.ix == 0 && f.w == n) {
                // memory overwritten by code that is not instrumented: the shadow is stale
                u64 v[2] = {0, 0}; std::memcpy(v, p, std::min<u64>(16, n));
                if (n <= 16 && rt::conc(f.h) != sval((unsigned)n * 8, v[0], v[1])) { __sym_clear(p, n); return 0; }
                return f.h;
            }
            u32 x = f.h; if (f.ix) x = rt::floor(rt::div(uns(x, f.w * 8u), K(p2(f.ix * 8u))));
            return fin(wrap(x, (unsigned)n * 8));
        }
        // a narrower value whose other bytes are zero
        bool zero = f.ix == 0 && k == f.w; for (u64 i = k; zero && i < n; ++i) zero = getb(a + i).h == 0 && ((unsigned char*)p)[i] == 0;
        if (zero) return fin(uns(f.h, f.w * 8u));
    }
    // two parts of equal size (pairs passed in one word)
    if (n >= 2) {
        u32 l = __sym_load(p, n / 2), h = __sym_load((char*)p + n / 2, n / 2); unsigned w = (unsigned)n * 4;
        u64 lv = 0, hv = 0; std::memcpy(&lv, p, std::min<u64>(8, n / 2)); std::memcpy(&hv, (char*)p + n / 2, std::min<u64>(8, n / 2));
        if (!l && !h) return 0;
        return fin(rt::add(uns(val(l, w, lv, 0), w), rt::mul(val(h, w, hv, 0), K(p2(w)))));
    }
    __sym_pinmem(p, n); return 0;
}
void __sym_clear(void* p, u64 n) { if (!p || pages.empty()) return; auto a = (std::uintptr_t)p; while (n) { u64 k = std::min<u64>(n, 4096 - (a & 4095)); if (Page* g = page(a, false)) std::memset(g->h + (a & 4095), 0, k * 4); a += k; n -= k; } }
void __sym_store(void* p, u64 n, u32 h)
{
    if (!h || isc(h)) { __sym_clear(p, n); return; }
    auto a = (std::uintptr_t)p; for (u64 i = 0; i < n; ++i) setb(a + i, B{h, (unsigned char)i, (unsigned char)n});
}
void __sym_copy(void* d, void* s, u64 n)
{
    auto x = (std::uintptr_t)d, y = (std::uintptr_t)s;
    if (!any(y, n)) { __sym_clear(d, n); return; }
    std::vector<B> t(n); for (u64 i = 0; i < n; ++i) t[i] = getb(y + i);
    for (u64 i = 0; i < n; ++i) setb(x + i, t[i]);
}
void __sym_set(void* p, u32 h, u64 n) { if (h) rt::pin(h); __sym_clear(p, n); }
void __sym_free(void* p) { if (p && !pages.empty()) __sym_clear(p, malloc_usable_size(p)); }
u32 __sym_bin(u32 op, u32 w, u32 ea, u32 eb, u64 al, u64 ah, u64 bl, u64 bh)
{
    if (!ea && !eb) return 0;
    u32 a = val(ea, w, al, ah), b = val(eb, w, bl, bh);
    if (w == 1) { rt::pin(a); rt::pin(b); return 0; }
    switch (op) {
    case 1: return fin(wrap(rt::add(a, b), w));
    case 2: return fin(wrap(rt::sub(a, b), w));
    case 3: return fin(wrap(rt::mul(a, b), w));
    case 4: case 6: { b = uns(b, w); if (rt::eq(b, K(0))) return 0; Q d = cpin(b); a = uns(a, w); u32 q = rt::floor(rt::div(a, K(d))); return fin(wrap(op == 4 ? q : rt::sub(a, rt::mul(q, K(d))), w)); }
    case 5: case 7: { if (rt::eq(b, K(0))) return 0; Q d = cpin(b); u32 q = tdiv(a, d); return fin(wrap(op == 5 ? q : rt::sub(a, rt::mul(q, K(d))), w)); }
    case 8: { unsigned k = (unsigned)cpin(uns(b, w)).get_num().get_ui(); return fin(wrap(rt::mul(a, K(p2(k))), w)); }
    case 9: { unsigned k = (unsigned)cpin(uns(b, w)).get_num().get_ui(); return fin(wrap(rt::floor(rt::div(uns(a, w), K(p2(k)))), w)); }
    case 10: { unsigned k = (unsigned)cpin(uns(b, w)).get_num().get_ui(); return fin(rt::floor(rt::div(a, K(p2(k))))); }
    case 11: {
        if (isc(a)) std::swap(a, b);
        if (isc(b)) {
            Q m = rt::conc(b); unsigned k;
            if (m == 0) return 0; if (m == -1) return fin(a);
            if (pow2(m + 1, k)) { a = rt::reduce(a, p2(k)); return fin(rt::sub(a, rt::mul(rt::floor(rt::div(a, K(p2(k)))), K(p2(k))))); }
            if (m < 0 && pow2(-m, k)) return fin(rt::mul(rt::floor(rt::div(a, K(p2(k)))), K(p2(k))));
            if (pow2(m, k)) { u32 h = rt::floor(rt::div(a, K(p2(k)))); u32 bit = rt::sub(h, rt::mul(rt::floor(rt::div(h, K(2))), K(2))); return rt::eq(bit, K(0)) ? 0 : 0; }
        }
        PINNOTE("pin and %u: %s ; %s\n", w, rt::expr(a).to_string().c_str(), rt::expr(b).to_string().c_str()); rt::pin(a); rt::pin(b); return 0; }
    case 12: {
        if (isc(a) && rt::conc(a) == 0) return fin(b); if (isc(b) && rt::conc(b) == 0) return fin(a);
        for (int i = 0; i < 2; ++i, std::swap(a, b)) {
            Q d = rt::content(a); mpz_class z = d.get_num(); if (d == 0) continue;
            unsigned k = (unsigned)mpz_scan1(z.get_mpz_t(), 0); if (k == 0) continue;
            if (rt::le(K(0), b) && rt::lt(b, K(p2(k)))) return fin(rt::add(a, b));
        }
        PINNOTE("pin or %u: %s ; %s\n", w, rt::expr(a).to_string().c_str(), rt::expr(b).to_string().c_str()); rt::pin(a); rt::pin(b); return 0; }
    case 13: if (isc(a)) std::swap(a, b); if (isc(b) && rt::conc(b) == -1) return fin(rt::sub(K(-1), a)); if (isc(b) && rt::conc(b) == 0) return fin(a); [[fallthrough]];
    default: PINNOTE("pin op %u w %u: %s ; %s\n", op, w, rt::expr(a).to_string().c_str(), rt::expr(b).to_string().c_str()); rt::pin(a); rt::pin(b); return 0;
    }
}
u32 __sym_cmp(u32 pred, u32 w, u32 ea, u32 eb, u64 al, u64 ah, u64 bl, u64 bh)
{
    if (!ea && !eb) return 0;
    u32 a = val(ea, w, al, ah), b = val(eb, w, bl, bh);
    if (pred >= 34 && pred <= 37) { a = uns(a, w); b = uns(b, w); }
    switch (pred) {
    case 32: case 33: rt::eq(a, b); break;
    case 34: case 38: rt::lt(b, a); break;      // gt
    case 35: case 39: rt::le(b, a); break;      // ge
    case 36: case 40: rt::lt(a, b); break;
    case 37: case 41: rt::le(a, b); break;
    }
    return 0;
}
u32 __sym_cast(u32 kind, u32 e, u32 wf, u32 wt)
{
    if (!e) return 0;
    if (kind == 0) { if (wt == 1) { u32 bit = rt::sub(e, rt::mul(rt::floor(rt::div(e, K(2))), K(2))); rt::eq(bit, K(0)); return 0; } return fin(wrap(e, wt)); }
    if (kind == 1) return fin(uns(e, wf));
    return e;
}
u32 __sym_sel(u32 w, u32 ec, u32 et, u32 ee, u64, u64, u64, u64) { (void)w; (void)et; (void)ee; if (ec) rt::pin(ec); return 0; }
void __sym_br(u32 e, u32) { if (e && dbg()) fprintf(stderr, "pin branch\n"); if (e) rt::pin(e); }
void __sym_sw(u32 e, u32 w, u64 v, u64 c) { (void)v; if (e) rt::eq(e, K(sval(w, c, 0))); }
void __sym_pin(u32 e, u32, u64, u64) { if (e && dbg()) fprintf(stderr, "pin value @%p %s\n", (void*)((char*)__builtin_return_address(0) - (char*)&__executable_start), rt::expr(e).to_string().c_str()); if (e) rt::pin(e); }
u32 __sym_ovf(u32 kind, u32 w, u32 ea, u32 eb, u64 al, u64 bl)
{
    if (!ea && !eb) return 0;
    u32 a = val(ea, w, al, 0), b = val(eb, w, bl, 0); bool u = kind & 1;
    if (u) { a = uns(a, w); b = uns(b, w); }
    u32 r = kind < 2 ? rt::add(a, b) : kind < 4 ? rt::sub(a, b) : rt::mul(a, b);
    if (rt::lt(r, K(u ? p2(w) : p2(w - 1)))) rt::lt(r, K(u ? Q(0) : Q(-p2(w - 1))));
    return 0;
}
u32 __sym_intr(u32 kind, u32 w, u32 s0, u32 s1, u32 s2, u64 a0, u64 a1, u64 a2)
{
    if (!s0 && !s1 && !s2) return 0;
    u32 a = val(s0, w, a0, 0), b = val(s1, w, a1, 0);
    switch (kind) {
    case 1: return fin(rt::lt(a, b) ? b : a);
    case 2: return fin(rt::lt(a, b) ? a : b);
    case 3: return fin(rt::lt(uns(a, w), uns(b, w)) ? b : a);
    case 4: return fin(rt::lt(uns(a, w), uns(b, w)) ? a : b);
    case 5: return fin(rt::lt(a, K(0)) ? wrap(rt::neg(a), w) : a);
    case 8: { u32 x = uns(a, w), y = uns(b, w); return rt::lt(x, y) ? 0 : fin(wrap(rt::sub(x, y), w)); }
    default: PINNOTE("pin intrinsic %u: %s\n", kind, rt::expr(a).to_string().c_str()); rt::pin(a); if (s1) rt::pin(b); if (s2) rt::pin(s2); return 0;
    }
}
// after a call: arguments that the callee did not take over went into code that is not instrumented
void __sym_after(void* fn, u32 n) { if (__sym_argfn == fn && fn) { for (u32 i = 0; i < n; ++i) if (__sym_args[i] && dbg()) fprintf(stderr, "pin argument %s\n", rt::expr(__sym_args[i]).to_string().c_str()); for (u32 i = 0; i < n; ++i) if (__sym_args[i]) rt::pin(__sym_args[i]); __sym_argfn = nullptr; } }
// inputs of the harness: a signed 64-bit integer in [lo, hi]
long sv_in(char const* name, long lo, long hi)
{
    if (lo == hi) return lo;
    u32 h = rt::input(name, Q(lo), Q(hi), true); __sym_ret[0] = h; __sym_retfn = (void*)sv_in; __sym_argfn = nullptr;
    return rt::conc(h).get_num().get_si();
}
void sv_pin(void* p, unsigned long n) { __sym_pinmem(p, n); }
static u32 arg0(void* fn) { u32 e = __sym_argfn == fn ? __sym_args[0] : 0; __sym_argfn = nullptr; return e; }
static void ret0(void* fn, u32 e) { __sym_ret[0] = e; __sym_retfn = fn; }
int sv_abs(int x) { u32 e = arg0((void*)sv_abs); if (e) ret0((void*)sv_abs, fin(rt::lt(e, K(0)) ? wrap(rt::neg(e), 32) : e)); else __sym_retfn = nullptr; return x < 0 ? (int)-(unsigned)x : x; }
long sv_labs(long x) { u32 e = arg0((void*)sv_labs); if (e) ret0((void*)sv_labs, fin(rt::lt(e, K(0)) ? wrap(rt::neg(e), 64) : e)); else __sym_retfn = nullptr; return x < 0 ? (long)-(unsigned long)x : x; }
int sv_memcmp(void* a, void* b, unsigned long n) { __sym_pinmem(a, n); __sym_pinmem(b, n); __sym_retfn = nullptr; return std::memcmp(a, b, n); }
unsigned long sv_strlen(char* a) { unsigned long n = std::strlen(a); __sym_pinmem(a, n + 1); __sym_retfn = nullptr; return n; }
int sv_strcmp(char* a, char* b) { sv_strlen(a); sv_strlen(b); return std::strcmp(a, b); }
void* sv_memchr(void* a, int c, unsigned long n) { __sym_pinmem(a, n); __sym_retfn = nullptr; return std::memchr(a, c, n); }
long sv_strtol(char* a, char** e, int b) { sv_strlen(a); return std::strtol(a, e, b); }
int sv_isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int sv_isdigit(int c) { return c >= '0' && c <= '9'; }
}
