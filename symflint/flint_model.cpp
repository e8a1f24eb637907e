// The FLINT functions flint-extras relies on, written from FLINT's documentation, schoolbook algorithms throughout.
// Compiled twice: with -DVH_SYM on words that may be terms, and on plain words.
#include <flint/flint.h>
#include <vector>
#include <string>
#include <algorithm>
#ifdef VH_SYM
#include "../symntl/engine.h"
namespace symx { bool w_is_h(long a) { return is_h(a); } }
static void fail(const char* m) { throw symx::Terminal(m); }
static inline bool hh(ulong a) { return a.h(); }
static inline long raw(ulong a) { return a.v; }
static inline ulong mkw(long v) { ulong r; r.v = v; return r; }
static inline unsigned long cc(ulong a) { return a.c(); }
static inline bool isz(ulong a) { return !a; }
#else
static void fail(const char* m) { fprintf(stderr, "%s\n", m); abort(); }
static inline unsigned long cc(ulong a) { return a; }
static inline bool isz(ulong a) { return a == 0; }
#endif
typedef unsigned __int128 u128;
static const ulong W0 = 0, W1 = 1;
extern "C" {
// memory obtained from malloc is filled with a pattern, so that reading it uninitialised is visible
void* flint_malloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) fail("out of memory"); memset(p, 0xA5, n); return p; }
void* flint_calloc(size_t n, size_t s) { void* p = calloc(n ? n : 1, s ? s : 1); if (!p) fail("out of memory"); return p; }
void* flint_realloc(void* p, size_t n) { p = realloc(p, n ? n : 1); if (!p) fail("out of memory"); return p; }
void flint_free(void* p) { free(p); }
void* flint_aligned_alloc(size_t al, size_t n) { void* p = nullptr; if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1)) fail("out of memory"); return p; }
void flint_aligned_free(void* p) { free(p); }
void flint_abort(void) { fail("flint_abort"); }
void flint_throw(flint_err_t, const char* m, ...) { fail(m); }
int flint_printf(const char*, ...) { return 0; }
int flint_fprintf(FILE*, const char*, ...) { return 0; }
void flint_rand_init(flint_rand_t st) { st->s = 0x2545F4914F6CDD1Dul; }
void flint_rand_clear(flint_rand_t) { }
static unsigned long nx(flint_rand_t s) { unsigned long x = s->s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; s->s = x; return x * 0x2545F4914F6CDD1Dul; }
ulong n_randint(flint_rand_t st, ulong limit) { unsigned long l = cc(limit); unsigned long x = nx(st) >> 1; return l ? x % l : x; }
ulong n_randtest(flint_rand_t st) { unsigned long x = nx(st); return x >> (nx(st) % 64); }
ulong n_cbrt(ulong n) { unsigned long x = cc(n), r = 0; while ((u128) (r + 1) * (r + 1) * (r + 1) <= x) r++; return r; }
ulong n_sqrt(ulong n) { unsigned long x = cc(n), r = 0; while ((u128) (r + 1) * (r + 1) <= x) r++; return r; }
static unsigned long cinv(unsigned long a, unsigned long n) { __int128 t = 0, nt = 1, r = n, nr = a % n; while (nr) { __int128 q = r / nr, x = t - q * nt; t = nt; nt = x; x = r - q * nr; r = nr; nr = x; } if (r != 1) fail("Cannot invert modulo"); return (unsigned long) (t < 0 ? t + n : t); }
void nmod_init(nmod_t* m, ulong n) { if (cc(n) == 0) fail("nmod_init: zero modulus"); m->n = n; m->ninv = W0; m->norm = 64 - fl_bit_count(cc(n)); }
#ifdef VH_SYM
ulong nmod_add(ulong a, ulong b, nmod_t m) { if (hh(a) || hh(b)) return mkw(symx::h_add(raw(a), raw(b), (long) cc(m.n))); unsigned long n = cc(m.n), x = cc(a), y = cc(b); return n - x > y ? x + y : y - (n - x); }
ulong nmod_sub(ulong a, ulong b, nmod_t m) { if (hh(a) || hh(b)) return mkw(symx::h_sub(raw(a), raw(b), (long) cc(m.n))); unsigned long n = cc(m.n), x = cc(a), y = cc(b); return x >= y ? x - y : x - y + n; }
ulong nmod_mul(ulong a, ulong b, nmod_t m) { if (hh(a) || hh(b)) return mkw(symx::h_mul(raw(a), raw(b), (long) cc(m.n))); return (unsigned long) ((u128) cc(a) * cc(b) % cc(m.n)); }
ulong n_invmod(ulong a, ulong n) { if (hh(a)) return mkw(symx::h_inv(raw(a), (long) cc(n))); return cinv(cc(a), cc(n)); }
ulong fl_red(ulong a, nmod_t m) { if (hh(a)) return mkw(symx::h_rem(raw(a), (long) cc(m.n))); return cc(a) % cc(m.n); }
#else
ulong nmod_add(ulong a, ulong b, nmod_t m) { return m.n - a > b ? a + b : b - (m.n - a); }
ulong nmod_sub(ulong a, ulong b, nmod_t m) { return a >= b ? a - b : a - b + m.n; }
ulong nmod_mul(ulong a, ulong b, nmod_t m) { return (unsigned long) ((u128) a * b % m.n); }
ulong n_invmod(ulong a, ulong n) { return cinv(a, n); }
ulong fl_red(ulong a, nmod_t m) { return a % m.n; }
#endif
ulong nmod_neg(ulong a, nmod_t m) { return nmod_sub(W0, a, m); }
ulong nmod_inv(ulong a, nmod_t m) { return n_invmod(a, m.n); }
ulong nmod_div(ulong a, ulong b, nmod_t m) { return nmod_mul(a, nmod_inv(b, m), m); }
ulong nmod_addmul(ulong a, ulong b, ulong c, nmod_t m) { return nmod_add(a, nmod_mul(b, c, m), m); }
ulong nmod_pow_ui(ulong a, ulong e, nmod_t m) { unsigned long k = cc(e); ulong r = fl_red(W1, m), b = a; while (k) { if (k & 1) r = nmod_mul(r, b, m); b = nmod_mul(b, b, m); k >>= 1; } return r; }

nn_ptr _nmod_vec_init(slong len) { return (nn_ptr) flint_malloc(len * sizeof(ulong)); }
void _nmod_vec_clear(nn_ptr v) { flint_free(v); }
void _nmod_vec_zero(nn_ptr v, slong n) { for (slong i = 0; i < n; i++) v[i] = W0; }
void _nmod_vec_set(nn_ptr r, nn_srcptr a, slong n) { if (n > 0) memmove(r, a, n * sizeof(ulong)); }
void flint_mpn_copyi(nn_ptr r, nn_srcptr a, slong n) { for (slong i = 0; i < n; i++) r[i] = a[i]; }
void _nmod_vec_swap(nn_ptr a, nn_ptr b, slong n) { for (slong i = 0; i < n; i++) std::swap(a[i], b[i]); }
int _nmod_vec_equal(nn_srcptr a, nn_srcptr b, slong n) { for (slong i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
int _nmod_vec_is_zero(nn_srcptr a, slong n) { for (slong i = 0; i < n; i++) if (!isz(a[i])) return 0; return 1; }
void _nmod_vec_add(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_add(a[i], b[i], m); }
void _nmod_vec_sub(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_sub(a[i], b[i], m); }
void _nmod_vec_neg(nn_ptr r, nn_srcptr a, slong n, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_neg(a[i], m); }
void _nmod_vec_scalar_mul_nmod(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_mul(a[i], c, m); }
void _nmod_vec_scalar_mul_nmod_shoup(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m) { _nmod_vec_scalar_mul_nmod(r, a, n, c, m); }
void _nmod_vec_scalar_addmul_nmod(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m) { for (slong i = 0; i < n; i++) r[i] = nmod_addmul(r[i], a[i], c, m); }
void _nmod_vec_randtest(nn_ptr v, flint_rand_t st, slong n, nmod_t m) { for (slong i = 0; i < n; i++) v[i] = n_randint(st, 3) == 0 ? W0 : n_randint(st, m.n); }
flint_bitcnt_t _nmod_vec_max_bits(nn_srcptr v, slong n) { flint_bitcnt_t b = 0; for (slong i = 0; i < n; i++) b = std::max<flint_bitcnt_t>(b, fl_bit_count(cc(v[i]))); return b; }
dot_params_t _nmod_vec_dot_params(ulong, nmod_t) { dot_params_t p; p.method = _DOT3; p.pow2_precomp = W0; return p; }
static ulong dot(nn_srcptr a, slong sa, nn_srcptr b, slong sb, slong n, nmod_t m)
{
#ifdef VH_SYM
   std::vector<long> x, y; bool h = false; for (slong i = 0; i < n; i++) { x.push_back(raw(a[i * sa])); y.push_back(raw(b[i * sb])); h = h || hh(a[i * sa]) || hh(b[i * sb]); }
   if (h && (long) cc(m.n) == symx::modulus()) return mkw(symx::h_lincomb(x.data(), y.data(), n));
#endif
   ulong s = W0; for (slong i = 0; i < n; i++) s = nmod_addmul(s, a[i * sa], b[i * sb], m); return s;
}
ulong _nmod_vec_dot(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t) { return dot(a, 1, b, 1, n, m); }
ulong _nmod_vec_dot2_split(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, ulong) { return dot(a, 1, b, 1, n, m); }
// kernels of nmod_vec_extra, by definition (their word-level code is outside this build)
void nmod_vec_dot_product_multi(nn_ptr uv, nn_srcptr u, nn_srcptr* v, ulong len, ulong k, ulong, ulong, nmod_t m) { for (slong j = 0; j < (slong) cc(k); j++) { ulong s = W0; for (slong i = 0; i < (slong) cc(len); i++) s = nmod_addmul(s, u[i], v[i][j], m); uv[j] = s; } }
void _nmod_vec_rand(nn_ptr v, flint_rand_t st, slong len, nmod_t m) { for (slong i = 0; i < len; i++) v[i] = n_randint(st, m.n); }

slong* _perm_init(slong n) { slong* p = (slong*) flint_malloc(n * sizeof(slong)); for (slong i = 0; i < n; i++) p[i] = i; return p; }
void _perm_clear(slong* p) { flint_free(p); }
void _perm_one(slong* p, slong n) { for (slong i = 0; i < n; i++) p[i] = i; }
void _perm_set(slong* r, const slong* p, slong n) { for (slong i = 0; i < n; i++) r[i] = p[i]; }
void _perm_inv(slong* r, const slong* p, slong n) { std::vector<slong> t(p, p + n); for (slong i = 0; i < n; i++) r[t[i]] = i; }
void _perm_compose(slong* r, const slong* a, const slong* b, slong n) { std::vector<slong> t(n); for (slong i = 0; i < n; i++) t[i] = a[b[i]]; for (slong i = 0; i < n; i++) r[i] = t[i]; }
int _perm_parity(const slong* p, slong n) { std::vector<char> s(n, 0); int par = 0; for (slong i = 0; i < n; i++) if (!s[i]) { slong l = 0, j = i; while (!s[j]) { s[j] = 1; j = p[j]; l++; } par ^= (l - 1) & 1; } return par; }
int _perm_randtest(slong* p, slong n, flint_rand_t st) { for (slong i = 0; i < n; i++) p[i] = i; for (slong i = n - 1; i > 0; i--) std::swap(p[i], p[(slong) cc(n_randint(st, i + 1))]); return _perm_parity(p, n); }
int _perm_equal(const slong* a, const slong* b, slong n) { for (slong i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }

#define E nmod_mat_entry
#define FORM(A) for (slong i = 0; i < (A)->r; i++) for (slong j = 0; j < (A)->c; j++)
void nmod_mat_init(nmod_mat_t A, slong r, slong c, ulong n) { A->r = r; A->c = c; A->stride = c; nmod_init(&A->mod, n); A->entries = r && c ? (nn_ptr) flint_calloc(r * c, sizeof(ulong)) : nullptr; }
void nmod_mat_init_set(nmod_mat_t A, const nmod_mat_t B) { nmod_mat_init(A, B->r, B->c, B->mod.n); FORM(B) E(A, i, j) = E(B, i, j); }
void nmod_mat_clear(nmod_mat_t A) { flint_free(A->entries); }
void nmod_mat_window_init(nmod_mat_t W, const nmod_mat_t A, slong r1, slong c1, slong r2, slong c2) { W->entries = A->entries ? nmod_mat_entry_ptr(A, r1, c1) : nullptr; W->r = r2 - r1; W->c = c2 - c1; W->stride = A->stride; W->mod = A->mod; }
void nmod_mat_window_clear(nmod_mat_t) { }
void nmod_mat_swap(nmod_mat_t A, nmod_mat_t B) { std::swap(*A, *B); }
void nmod_mat_swap_entrywise(nmod_mat_t A, nmod_mat_t B) { FORM(A) std::swap(E(A, i, j), E(B, i, j)); }
void nmod_mat_set(nmod_mat_t A, const nmod_mat_t B) { if (A != B) FORM(B) E(A, i, j) = E(B, i, j); }
void nmod_mat_zero(nmod_mat_t A) { FORM(A) E(A, i, j) = W0; }
void nmod_mat_one(nmod_mat_t A) { FORM(A) E(A, i, j) = (i == j && A->mod.n != W1) ? W1 : W0; }
void nmod_mat_transpose(nmod_mat_t A, const nmod_mat_t B) { if (A == B) { for (slong i = 0; i < A->r; i++) for (slong j = i + 1; j < A->c; j++) std::swap(E(A, i, j), E(A, j, i)); return; } FORM(B) E(A, j, i) = E(B, i, j); }
ulong nmod_mat_get_entry(const nmod_mat_t A, slong i, slong j) { return E(A, i, j); }
void nmod_mat_set_entry(nmod_mat_t A, slong i, slong j, ulong x) { E(A, i, j) = x; }
void nmod_mat_set_mod(nmod_mat_t A, ulong n) { nmod_init(&A->mod, n); }
int nmod_mat_equal(const nmod_mat_t A, const nmod_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; FORM(A) if (E(A, i, j) != E(B, i, j)) return 0; return 1; }
int nmod_mat_is_zero(const nmod_mat_t A) { FORM(A) if (!isz(E(A, i, j))) return 0; return 1; }
int nmod_mat_is_zero_row(const nmod_mat_t A, slong i) { for (slong j = 0; j < A->c; j++) if (!isz(E(A, i, j))) return 0; return 1; }
int nmod_mat_is_one(const nmod_mat_t A) { FORM(A) if (E(A, i, j) != (i == j ? W1 : W0)) return 0; return 1; }
int nmod_mat_is_empty(const nmod_mat_t A) { return A->r == 0 || A->c == 0; }
int nmod_mat_is_square(const nmod_mat_t A) { return A->r == A->c; }
void nmod_mat_add(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { FORM(A) E(C, i, j) = nmod_add(E(A, i, j), E(B, i, j), C->mod); }
void nmod_mat_sub(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { FORM(A) E(C, i, j) = nmod_sub(E(A, i, j), E(B, i, j), C->mod); }
void nmod_mat_neg(nmod_mat_t C, const nmod_mat_t A) { FORM(A) E(C, i, j) = nmod_neg(E(A, i, j), C->mod); }
void nmod_mat_mul(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B)
{
   std::vector<ulong> t; t.reserve(A->r * B->c + 1);
   for (slong i = 0; i < A->r; i++) for (slong j = 0; j < B->c; j++) t.push_back(A->c ? dot(nmod_mat_entry_ptr(A, i, 0), 1, nmod_mat_entry_ptr(B, 0, j), B->stride, A->c, C->mod) : W0);
   for (slong i = 0; i < A->r; i++) for (slong j = 0; j < B->c; j++) E(C, i, j) = t[i * B->c + j];
}
void nmod_mat_addmul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_t T; nmod_mat_init(T, A->r, B->c, A->mod.n); nmod_mat_mul(T, A, B); nmod_mat_add(D, C, T); nmod_mat_clear(T); }
void nmod_mat_submul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_t T; nmod_mat_init(T, A->r, B->c, A->mod.n); nmod_mat_mul(T, A, B); nmod_mat_sub(D, C, T); nmod_mat_clear(T); }
void nmod_mat_scalar_mul(nmod_mat_t C, const nmod_mat_t A, ulong c) { FORM(A) E(C, i, j) = nmod_mul(E(A, i, j), c, C->mod); }
void nmod_mat_scalar_addmul_ui(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B, ulong c) { FORM(A) E(C, i, j) = nmod_addmul(E(A, i, j), E(B, i, j), c, C->mod); }
void nmod_mat_mul_nmod_vec(ulong* c, const nmod_mat_t A, const ulong* b, slong blen) { slong l = std::min(A->c, blen); std::vector<ulong> t(A->r); for (slong i = 0; i < A->r; i++) t[i] = dot(nmod_mat_entry_ptr(A, i, 0), 1, b, 1, l, A->mod); for (slong i = 0; i < A->r; i++) c[i] = t[i]; }
void nmod_mat_nmod_vec_mul(ulong* c, const ulong* a, slong alen, const nmod_mat_t B) { slong l = std::min(B->r, alen); std::vector<ulong> t(B->c); for (slong j = 0; j < B->c; j++) t[j] = dot(a, 1, nmod_mat_entry_ptr(B, 0, j), B->stride, l, B->mod); for (slong j = 0; j < B->c; j++) c[j] = t[j]; }
// PA = LU in place; row i of the result comes from row P[i] of the input
slong nmod_mat_lu(slong* P, nmod_mat_t A, int rank_check)
{
   slong m = A->r, n = A->c, rank = 0; for (slong i = 0; i < m; i++) P[i] = i;
   slong row = 0, col = 0;
   while (row < m && col < n) {
      slong p = row; while (p < m && isz(E(A, p, col))) p++;
      if (p == m) { if (rank_check) return 0; col++; continue; }
      rank++; if (p != row) { std::swap(P[p], P[row]); for (slong j = 0; j < n; j++) std::swap(E(A, p, j), E(A, row, j)); }
      ulong d = nmod_inv(E(A, row, col), A->mod);
      for (slong i = row + 1; i < m; i++) {
         ulong f = nmod_mul(E(A, i, col), d, A->mod);
         for (slong j = col + 1; j < n; j++) E(A, i, j) = nmod_sub(E(A, i, j), nmod_mul(f, E(A, row, j), A->mod), A->mod);
         E(A, i, col) = W0; E(A, i, rank - 1) = f;
      }
      row++; col++;
   }
   return rank;
}
static slong rref(nmod_mat_t A, std::vector<slong>* piv = nullptr, ulong* det = nullptr)
{
   slong m = A->r, n = A->c, r = 0; ulong dt = W1;
   for (slong c = 0; c < n && r < m; c++) {
      slong p = r; while (p < m && isz(E(A, p, c))) p++; if (p == m) continue;
      if (p != r) { dt = nmod_neg(dt, A->mod); for (slong j = 0; j < n; j++) std::swap(E(A, p, j), E(A, r, j)); }
      dt = nmod_mul(dt, E(A, r, c), A->mod); ulong d = nmod_inv(E(A, r, c), A->mod); for (slong j = c; j < n; j++) E(A, r, j) = nmod_mul(E(A, r, j), d, A->mod);
      for (slong i = 0; i < m; i++) if (i != r && !isz(E(A, i, c))) { ulong f = E(A, i, c); for (slong j = c; j < n; j++) E(A, i, j) = nmod_sub(E(A, i, j), nmod_mul(f, E(A, r, j), A->mod), A->mod); }
      if (piv) piv->push_back(c); r++;
   }
   if (det) *det = r == m && m == n ? dt : W0;
   return r;
}
slong nmod_mat_rref(nmod_mat_t A) { return rref(A); }
slong nmod_mat_rank(const nmod_mat_t A) { nmod_mat_t T; nmod_mat_init_set(T, A); slong r = rref(T); nmod_mat_clear(T); return r; }
ulong nmod_mat_det(const nmod_mat_t A) { if (A->r == 0) return fl_red(W1, A->mod); nmod_mat_t T; nmod_mat_init_set(T, A); ulong d; rref(T, nullptr, &d); nmod_mat_clear(T); return d; }
slong nmod_mat_nullspace(nmod_mat_t X, const nmod_mat_t A)
{
   nmod_mat_t T; nmod_mat_init_set(T, A); std::vector<slong> pv; slong r = rref(T, &pv), n = A->c; nmod_mat_zero(X);
   std::vector<slong> np; for (slong c = 0, k = 0; c < n; c++) if (k < r && pv[k] == c) k++; else np.push_back(c);
   for (slong i = 0; i < n - r; i++) { for (slong j = 0; j < r; j++) E(X, pv[j], i) = nmod_neg(E(T, j, np[i]), A->mod); E(X, np[i], i) = W1; }
   nmod_mat_clear(T); return n - r;
}
static int solve(nmod_mat_t X, const nmod_mat_t A, const nmod_mat_t B)
{
   slong n = A->r, m = B->c; nmod_mat_t T; nmod_mat_init(T, n, n + m, A->mod.n); for (slong i = 0; i < n; i++) { for (slong j = 0; j < n; j++) E(T, i, j) = E(A, i, j); for (slong j = 0; j < m; j++) E(T, i, n + j) = E(B, i, j); }
   std::vector<slong> pv; rref(T, &pv); bool ok = (slong) pv.size() == n; for (slong i = 0; ok && i < n; i++) ok = pv[i] == i;
   if (ok) for (slong i = 0; i < n; i++) for (slong j = 0; j < m; j++) E(X, i, j) = E(T, i, n + j);
   nmod_mat_clear(T); return ok;
}
int nmod_mat_solve(nmod_mat_t X, const nmod_mat_t A, const nmod_mat_t B) { return solve(X, A, B); }
int nmod_mat_inv(nmod_mat_t B, const nmod_mat_t A) { nmod_mat_t I; nmod_mat_init(I, A->r, A->r, A->mod.n); nmod_mat_one(I); int r = solve(B, A, I); nmod_mat_clear(I); return r; }
void nmod_mat_solve_tril(nmod_mat_t X, const nmod_mat_t L, const nmod_mat_t B, int unit) { for (slong j = 0; j < B->c; j++) for (slong i = 0; i < L->r; i++) { ulong s = E(B, i, j); for (slong k = 0; k < i; k++) s = nmod_sub(s, nmod_mul(E(L, i, k), E(X, k, j), L->mod), L->mod); E(X, i, j) = unit ? s : nmod_div(s, E(L, i, i), L->mod); } }
void nmod_mat_solve_triu(nmod_mat_t X, const nmod_mat_t U, const nmod_mat_t B, int unit) { for (slong j = 0; j < B->c; j++) for (slong i = U->r - 1; i >= 0; i--) { ulong s = E(B, i, j); for (slong k = i + 1; k < U->r; k++) s = nmod_sub(s, nmod_mul(E(U, i, k), E(X, k, j), U->mod), U->mod); E(X, i, j) = unit ? s : nmod_div(s, E(U, i, i), U->mod); } }
void nmod_mat_permute_rows(nmod_mat_t A, const slong* act, slong* store) { if (store) _perm_compose(store, store, act, A->r); nmod_mat_t T; nmod_mat_init_set(T, A); FORM(A) E(A, i, j) = E(T, act[i], j); nmod_mat_clear(T); }
void nmod_mat_swap_rows(nmod_mat_t A, slong* perm, slong r, slong s) { if (r == s) return; if (perm) std::swap(perm[r], perm[s]); for (slong j = 0; j < A->c; j++) std::swap(E(A, r, j), E(A, s, j)); }
void nmod_mat_swap_cols(nmod_mat_t A, slong* perm, slong r, slong s) { if (r == s) return; if (perm) std::swap(perm[r], perm[s]); for (slong i = 0; i < A->r; i++) std::swap(E(A, i, r), E(A, i, s)); }
void nmod_mat_randtest(nmod_mat_t A, flint_rand_t st) { FORM(A) E(A, i, j) = n_randint(st, A->mod.n); }
void nmod_mat_randops(nmod_mat_t A, flint_rand_t st, slong k) { for (slong t = 0; t < k && A->r > 1; t++) { slong i = (slong) cc(n_randint(st, A->r)), l = (slong) cc(n_randint(st, A->r)); if (i != l) for (slong j = 0; j < A->c; j++) E(A, i, j) = nmod_add(E(A, i, j), E(A, l, j), A->mod); } }
void nmod_mat_randrank(nmod_mat_t A, flint_rand_t st, slong rk) { if (rk < 0 || rk > A->r || rk > A->c) fail("nmod_mat_randrank: impossible rank"); nmod_mat_zero(A); for (slong i = 0; i < rk; i++) E(A, i, i) = cc(A->mod.n) == 2 ? W1 : (ulong) (1 + cc(n_randint(st, A->mod.n - 1))); }
void nmod_mat_print(const nmod_mat_t) { } void nmod_mat_print_pretty(const nmod_mat_t) { }

// ---- polynomials
void nmod_poly_init_mod(nmod_poly_t p, nmod_t m) { p->coeffs = nullptr; p->alloc = p->length = 0; p->mod = m; }
void nmod_poly_init(nmod_poly_t p, ulong n) { nmod_t m; nmod_init(&m, n); nmod_poly_init_mod(p, m); }
void nmod_poly_init2(nmod_poly_t p, ulong n, slong al) { nmod_poly_init(p, n); nmod_poly_fit_length(p, al); }
void nmod_poly_init2_preinv(nmod_poly_t p, ulong n, ulong, slong al) { nmod_poly_init2(p, n, al); }
void nmod_poly_clear(nmod_poly_t p) { flint_free(p->coeffs); }
void nmod_poly_realloc(nmod_poly_t p, slong al)
{
   if (al == 0) { flint_free(p->coeffs); p->coeffs = nullptr; p->alloc = p->length = 0; return; }
   nn_ptr q = (nn_ptr) flint_malloc(al * sizeof(ulong)); slong k = std::min(al, p->length); for (slong i = 0; i < k; i++) q[i] = p->coeffs[i];
   flint_free(p->coeffs); p->coeffs = q; p->alloc = al; if (p->length > al) { p->length = al; _nmod_poly_normalise(p); }
}
// exact allocation: writing past the requested length is an error of the caller
void nmod_poly_fit_length(nmod_poly_t p, slong al) { if (al > p->alloc) nmod_poly_realloc(p, al); }
void _nmod_poly_set_length(nmod_poly_t p, slong len) { p->length = len; }
void _nmod_poly_normalise(nmod_poly_t p) { while (p->length && isz(p->coeffs[p->length - 1])) p->length--; }
slong nmod_poly_degree(const nmod_poly_t p) { return p->length - 1; }
slong nmod_poly_length(const nmod_poly_t p) { return p->length; }
ulong nmod_poly_modulus(const nmod_poly_t p) { return p->mod.n; }
nn_ptr nmod_poly_lead(const nmod_poly_t p) { return p->length ? p->coeffs + (p->length - 1) : nullptr; }
ulong nmod_poly_get_coeff_ui(const nmod_poly_t p, slong i) { return i < p->length ? p->coeffs[i] : W0; }
void nmod_poly_set_coeff_ui(nmod_poly_t p, slong i, ulong c) { nmod_poly_fit_length(p, i + 1); for (slong k = p->length; k <= i; k++) p->coeffs[k] = W0; p->coeffs[i] = fl_red(c, p->mod); if (i + 1 > p->length) p->length = i + 1; _nmod_poly_normalise(p); }
static void assign(nmod_poly_t r, const std::vector<ulong>& v) { nmod_poly_fit_length(r, v.size()); for (size_t i = 0; i < v.size(); i++) r->coeffs[i] = v[i]; r->length = v.size(); _nmod_poly_normalise(r); }
static std::vector<ulong> vec(const nmod_poly_t a) { return std::vector<ulong>(a->coeffs, a->coeffs + a->length); }
void nmod_poly_set(nmod_poly_t a, const nmod_poly_t b) { if (a != b) { nmod_poly_fit_length(a, b->length); for (slong i = 0; i < b->length; i++) a->coeffs[i] = b->coeffs[i]; a->length = b->length; } }
void nmod_poly_swap(nmod_poly_t a, nmod_poly_t b) { std::swap(*a, *b); }
void nmod_poly_zero(nmod_poly_t a) { a->length = 0; }
void nmod_poly_one(nmod_poly_t a) { nmod_poly_fit_length(a, 1); a->coeffs[0] = fl_red(W1, a->mod); a->length = 1; _nmod_poly_normalise(a); }
void nmod_poly_set_nmod(nmod_poly_t a, ulong c) { nmod_poly_fit_length(a, 1); a->coeffs[0] = c; a->length = 1; _nmod_poly_normalise(a); }
void nmod_poly_truncate(nmod_poly_t a, slong n) { if (a->length > n) { a->length = n; _nmod_poly_normalise(a); } }
void nmod_poly_set_trunc(nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_set(a, b); nmod_poly_truncate(a, n); }
int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b) { return a->length == b->length && _nmod_vec_equal(a->coeffs, b->coeffs, a->length); }
int nmod_poly_is_zero(const nmod_poly_t a) { return a->length == 0; }
int nmod_poly_is_one(const nmod_poly_t a) { return a->length == 1 && a->coeffs[0] == W1; }
int nmod_poly_is_unit(const nmod_poly_t a) { return a->length == 1; }
int nmod_poly_is_monic(const nmod_poly_t a) { return a->length && a->coeffs[a->length - 1] == W1; }
int nmod_poly_is_gen(const nmod_poly_t a) { return a->length == 2 && isz(a->coeffs[0]) && a->coeffs[1] == W1; }
static void addsub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, bool sub) { slong n = std::max(a->length, b->length); std::vector<ulong> v(n); for (slong i = 0; i < n; i++) { ulong x = nmod_poly_get_coeff_ui(a, i), y = nmod_poly_get_coeff_ui(b, i); v[i] = sub ? nmod_sub(x, y, r->mod) : nmod_add(x, y, r->mod); } assign(r, v); }
void nmod_poly_add(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { addsub(r, a, b, false); }
void nmod_poly_sub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { addsub(r, a, b, true); }
void nmod_poly_neg(nmod_poly_t r, const nmod_poly_t a) { std::vector<ulong> v = vec(a); for (ulong& x : v) x = nmod_neg(x, r->mod); assign(r, v); }
static std::vector<ulong> pmul(const nmod_poly_t a, const nmod_poly_t b, slong trunc)
{
   std::vector<ulong> v; slong n = a->length, m = b->length; if (!n || !m) return v; slong len = std::min(n + m - 1, trunc); std::vector<ulong> rb(b->coeffs, b->coeffs + m); std::reverse(rb.begin(), rb.end());
   for (slong k = 0; k < len; k++) { slong lo = std::max(0L, k - m + 1), hi = std::min(k, n - 1); v.push_back(dot(a->coeffs + lo, 1, rb.data() + (m - 1 - k + lo), 1, hi - lo + 1, a->mod)); }
   return v;
}
void nmod_poly_mul(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { assign(r, pmul(a, b, LONG_MAX)); }
void nmod_poly_mullow(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { assign(r, pmul(a, b, n)); }
void nmod_poly_scalar_mul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { std::vector<ulong> v = vec(a); for (ulong& x : v) x = nmod_mul(x, c, r->mod); assign(r, v); }
void nmod_poly_scalar_addmul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_t t; nmod_poly_init_mod(t, r->mod); nmod_poly_scalar_mul_nmod(t, a, c); nmod_poly_add(r, r, t); nmod_poly_clear(t); }
void nmod_poly_make_monic(nmod_poly_t r, const nmod_poly_t a) { if (!a->length) fail("make_monic: division by zero"); nmod_poly_scalar_mul_nmod(r, a, nmod_inv(a->coeffs[a->length - 1], a->mod)); }
void nmod_poly_shift_left(nmod_poly_t r, const nmod_poly_t a, slong k) { std::vector<ulong> v; if (a->length) { v.assign(k, W0); for (slong i = 0; i < a->length; i++) v.push_back(a->coeffs[i]); } assign(r, v); }
void nmod_poly_shift_right(nmod_poly_t r, const nmod_poly_t a, slong k) { std::vector<ulong> v; for (slong i = k; i < a->length; i++) v.push_back(a->coeffs[i]); assign(r, v); }
void _nmod_poly_reverse(nn_ptr r, nn_srcptr a, slong len, slong n) { std::vector<ulong> v(n, W0); for (slong i = 0; i < len && i < n; i++) v[n - 1 - i] = a[i]; for (slong i = 0; i < n; i++) r[i] = v[i]; }
void nmod_poly_reverse(nmod_poly_t r, const nmod_poly_t a, slong n) { std::vector<ulong> v(n); _nmod_poly_reverse(v.data(), a->coeffs, a->length, n); assign(r, v); }
static void divrem(std::vector<ulong>& q, std::vector<ulong>& r, const nmod_poly_t a, const nmod_poly_t b)
{
   if (!b->length) fail("Division by zero in polynomial division"); r = vec(a); slong n = a->length, m = b->length; q.assign(n >= m ? n - m + 1 : 0, W0); ulong iv = nmod_inv(b->coeffs[m - 1], a->mod);
   for (slong k = n - m; k >= 0; k--) { ulong c = nmod_mul(r[k + m - 1], iv, a->mod); q[k] = c; for (slong i = 0; i < m; i++) r[k + i] = nmod_sub(r[k + i], nmod_mul(c, b->coeffs[i], a->mod), a->mod); }
   if (n >= m) r.resize(m - 1);
}
void nmod_poly_divrem(nmod_poly_t q, nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { std::vector<ulong> x, y; divrem(x, y, a, b); assign(q, x); assign(r, y); }
void nmod_poly_div(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b) { std::vector<ulong> x, y; divrem(x, y, a, b); assign(q, x); }
void nmod_poly_rem(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { std::vector<ulong> x, y; divrem(x, y, a, b); assign(r, y); }
int nmod_poly_divides(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b)
{
   if (!b->length) { q->length = 0; return a->length == 0; } if (!a->length) { q->length = 0; return 1; } if (a->length < b->length) { q->length = 0; return 0; }
   std::vector<ulong> x, y; divrem(x, y, a, b); for (ulong c : y) if (!isz(c)) { q->length = 0; return 0; } assign(q, x); return 1;
}
// monic gcd with cofactors of minimal degree; gcd(a,0) = monic a
static void xgcd(nmod_poly_t g, nmod_poly_t s, nmod_poly_t t, const nmod_poly_t a, const nmod_poly_t b)
{
   nmod_t m = a->mod;
   if (a->length < b->length) { xgcd(g, t, s, b, a); return; }
   if (!a->length) { nmod_poly_zero(g); nmod_poly_zero(s); nmod_poly_zero(t); return; }
   nmod_poly_t r0, r1, s0, s1, t0, t1, q, x; nmod_poly_struct* L[] = { r0, r1, s0, s1, t0, t1, q, x }; for (nmod_poly_struct* z : L) nmod_poly_init_mod(z, m);
   nmod_poly_set(r0, a); nmod_poly_set(r1, b); nmod_poly_one(s0); nmod_poly_one(t1);
   while (r1->length) { nmod_poly_divrem(q, x, r0, r1); nmod_poly_swap(r0, r1); nmod_poly_swap(r1, x); nmod_poly_mul(x, q, s1); nmod_poly_sub(x, s0, x); nmod_poly_swap(s0, s1); nmod_poly_swap(s1, x); nmod_poly_mul(x, q, t1); nmod_poly_sub(x, t0, x); nmod_poly_swap(t0, t1); nmod_poly_swap(t1, x); }
   ulong iv = nmod_inv(r0->coeffs[r0->length - 1], m); nmod_poly_scalar_mul_nmod(g, r0, iv); nmod_poly_scalar_mul_nmod(s, s0, iv); nmod_poly_scalar_mul_nmod(t, t0, iv);
   for (nmod_poly_struct* z : L) nmod_poly_clear(z);
}
void nmod_poly_xgcd(nmod_poly_t g, nmod_poly_t s, nmod_poly_t t, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_t x, y, z; nmod_poly_init_mod(x, a->mod); nmod_poly_init_mod(y, a->mod); nmod_poly_init_mod(z, a->mod); xgcd(x, y, z, a, b); nmod_poly_set(g, x); nmod_poly_set(s, y); nmod_poly_set(t, z); nmod_poly_clear(x); nmod_poly_clear(y); nmod_poly_clear(z); }
void nmod_poly_gcd(nmod_poly_t g, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_t y, z; nmod_poly_init_mod(y, a->mod); nmod_poly_init_mod(z, a->mod); nmod_poly_xgcd(g, y, z, a, b); nmod_poly_clear(y); nmod_poly_clear(z); }
ulong nmod_poly_evaluate_nmod(const nmod_poly_t a, ulong x) { ulong r = W0; for (slong i = a->length - 1; i >= 0; i--) r = nmod_add(nmod_mul(r, x, a->mod), a->coeffs[i], a->mod); return r; }
void nmod_poly_randtest(nmod_poly_t a, flint_rand_t st, slong len) { std::vector<ulong> v(len); for (ulong& x : v) x = n_randint(st, a->mod.n); assign(a, v); }
void nmod_poly_print_pretty(const nmod_poly_t, const char*) { } int nmod_poly_print(const nmod_poly_t) { return 0; } char* nmod_poly_get_str(const nmod_poly_t) { return strdup(""); } char* nmod_poly_get_str_pretty(const nmod_poly_t, const char*) { return strdup(""); }
void nmod_geometric_progression_init(nmod_geometric_progression_t G, ulong r, slong len, nmod_t m) { _nmod_geometric_progression_init_function(G, r, len, m, 3); }
void _nmod_geometric_progression_init_function(nmod_geometric_progression_t G, ulong r, slong len, nmod_t m, ulong fn) { G->len = len; G->mod = m; G->function = fn; G->points = _nmod_vec_init(len); ulong q = nmod_mul(r, r, m), x = fl_red(W1, m); for (slong i = 0; i < len; i++) { G->points[i] = x; x = nmod_mul(x, q, m); } }
void nmod_geometric_progression_clear(nmod_geometric_progression_t G) { _nmod_vec_clear(G->points); }
void _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, nn_srcptr p, slong plen, const nmod_geometric_progression_t G, slong len, nmod_t m)
{
   if (plen > G->len || len > G->len || !(cc(G->function) & 1)) fail("geometric evaluation: precomputation too short");
   std::vector<ulong> v(len); for (slong i = 0; i < len; i++) { ulong r = W0; for (slong k = plen - 1; k >= 0; k--) r = nmod_add(nmod_mul(r, G->points[i], m), p[k], m); v[i] = r; } for (slong i = 0; i < len; i++) vs[i] = v[i];
}
void _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nn_ptr p, nn_srcptr v, const nmod_geometric_progression_t G, slong len, nmod_t m)
{
   if (len > G->len || !(cc(G->function) & 2)) fail("geometric interpolation: precomputation too short");
   std::vector<ulong> c(v, v + len), r(len, W0); // Newton interpolation
   for (slong k = 1; k < len; k++) for (slong i = len - 1; i >= k; i--) c[i] = nmod_div(nmod_sub(c[i], c[i - 1], m), nmod_sub(G->points[i], G->points[i - k], m), m);
   for (slong k = len - 1; k >= 0; k--) { for (slong i = len - 1; i >= 1; i--) r[i] = nmod_sub(r[i - 1], nmod_mul(r[i], G->points[k], m), m); r[0] = nmod_sub(c[k], nmod_mul(r[0], G->points[k], m), m); }
   for (slong i = 0; i < len; i++) p[i] = r[i];
}
void nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nmod_poly_t poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len) { std::vector<ulong> r(len); if (len) _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(r.data(), v, G, len, G->mod); assign(poly, r); }

// ---- polynomial matrices
#undef E
#define E nmod_poly_mat_entry
void nmod_poly_mat_init(nmod_poly_mat_t A, slong r, slong c, ulong n) { A->r = r; A->c = c; A->stride = c; A->modulus = n; A->entries = r && c ? (nmod_poly_struct*) flint_malloc(r * c * sizeof(nmod_poly_struct)) : nullptr; FORM(A) nmod_poly_init(E(A, i, j), n); }
void nmod_poly_mat_init_set(nmod_poly_mat_t A, const nmod_poly_mat_t B) { nmod_poly_mat_init(A, B->r, B->c, B->modulus); nmod_poly_mat_set(A, B); }
void nmod_poly_mat_clear(nmod_poly_mat_t A) { if (A->entries) { FORM(A) nmod_poly_clear(E(A, i, j)); flint_free(A->entries); } }
void nmod_poly_mat_window_init(nmod_poly_mat_t W, const nmod_poly_mat_t A, slong r1, slong c1, slong r2, slong c2) { W->entries = A->entries ? E(A, r1, c1) : nullptr; W->r = r2 - r1; W->c = c2 - c1; W->stride = A->stride; W->modulus = A->modulus; }
void nmod_poly_mat_window_clear(nmod_poly_mat_t) { }
void nmod_poly_mat_swap(nmod_poly_mat_t A, nmod_poly_mat_t B) { std::swap(*A, *B); }
void nmod_poly_mat_swap_entrywise(nmod_poly_mat_t A, nmod_poly_mat_t B) { FORM(A) nmod_poly_swap(E(A, i, j), E(B, i, j)); }
void nmod_poly_mat_set(nmod_poly_mat_t A, const nmod_poly_mat_t B) { if (A != B) FORM(B) nmod_poly_set(E(A, i, j), E(B, i, j)); }
void nmod_poly_mat_set_nmod_mat(nmod_poly_mat_t A, const nmod_mat_t B) { FORM(B) nmod_poly_set_nmod(E(A, i, j), nmod_mat_entry(B, i, j)); }
void nmod_poly_mat_zero(nmod_poly_mat_t A) { FORM(A) nmod_poly_zero(E(A, i, j)); }
void nmod_poly_mat_one(nmod_poly_mat_t A) { FORM(A) if (i == j) nmod_poly_one(E(A, i, j)); else nmod_poly_zero(E(A, i, j)); }
void nmod_poly_mat_transpose(nmod_poly_mat_t A, const nmod_poly_mat_t B) { if (A == B) { for (slong i = 0; i < A->r; i++) for (slong j = i + 1; j < A->c; j++) nmod_poly_swap(E(A, i, j), E(A, j, i)); return; } FORM(B) nmod_poly_set(E(A, j, i), E(B, i, j)); }
int nmod_poly_mat_equal(const nmod_poly_mat_t A, const nmod_poly_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; FORM(A) if (!nmod_poly_equal(E(A, i, j), E(B, i, j))) return 0; return 1; }
int nmod_poly_mat_is_zero(const nmod_poly_mat_t A) { FORM(A) if (E(A, i, j)->length) return 0; return 1; }
int nmod_poly_mat_is_one(const nmod_poly_mat_t A) { FORM(A) if (i == j ? !nmod_poly_is_one(E(A, i, j)) : E(A, i, j)->length != 0) return 0; return 1; }
int nmod_poly_mat_is_empty(const nmod_poly_mat_t A) { return A->r == 0 || A->c == 0; }
int nmod_poly_mat_is_square(const nmod_poly_mat_t A) { return A->r == A->c; }
void nmod_poly_mat_add(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { FORM(A) nmod_poly_add(E(C, i, j), E(A, i, j), E(B, i, j)); }
void nmod_poly_mat_sub(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { FORM(A) nmod_poly_sub(E(C, i, j), E(A, i, j), E(B, i, j)); }
void nmod_poly_mat_neg(nmod_poly_mat_t C, const nmod_poly_mat_t A) { FORM(A) nmod_poly_neg(E(C, i, j), E(A, i, j)); }
void nmod_poly_mat_mul(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B)
{
   nmod_poly_mat_t T; nmod_poly_mat_init(T, A->r, B->c, A->modulus); nmod_t m; nmod_init(&m, A->modulus);
   for (slong i = 0; i < A->r; i++) for (slong j = 0; j < B->c; j++) {
      slong len = 0; for (slong k = 0; k < A->c; k++) if (E(A, i, k)->length && E(B, k, j)->length) len = std::max(len, E(A, i, k)->length + E(B, k, j)->length - 1);
      std::vector<ulong> v(len, W0);
      for (slong d = 0; d < len; d++) { std::vector<ulong> x, y; for (slong k = 0; k < A->c; k++) for (slong e = std::max(0L, d - E(B, k, j)->length + 1); e < E(A, i, k)->length && e <= d; e++) { x.push_back(E(A, i, k)->coeffs[e]); y.push_back(E(B, k, j)->coeffs[d - e]); } v[d] = dot(x.data(), 1, y.data(), 1, x.size(), m); }
      assign(E(T, i, j), v); }
   nmod_poly_mat_swap_entrywise(T, C); nmod_poly_mat_clear(T);
}
void nmod_poly_mat_scalar_mul_nmod(nmod_poly_mat_t C, const nmod_poly_mat_t A, ulong c) { FORM(A) nmod_poly_scalar_mul_nmod(E(C, i, j), E(A, i, j), c); }
void nmod_poly_mat_scalar_mul_nmod_poly(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_t c) { FORM(A) nmod_poly_mul(E(C, i, j), E(A, i, j), c); }
slong nmod_poly_mat_max_length(const nmod_poly_mat_t A) { slong l = 0; FORM(A) l = std::max(l, E(A, i, j)->length); return l; }
slong nmod_poly_mat_degree(const nmod_poly_mat_t A) { return nmod_poly_mat_max_length(A) - 1; }
void nmod_poly_mat_evaluate_nmod(nmod_mat_t B, const nmod_poly_mat_t A, ulong x) { FORM(A) nmod_mat_entry(B, i, j) = nmod_poly_evaluate_nmod(E(A, i, j), x); }
static void detrec(nmod_poly_t d, const nmod_poly_mat_t A, std::vector<slong> rows, slong c)
{
   if (rows.empty()) { nmod_poly_one(d); return; }
   nmod_poly_t s, t; nmod_poly_init_mod(s, d->mod); nmod_poly_init_mod(t, d->mod); nmod_poly_zero(d);
   for (size_t i = 0; i < rows.size(); i++) { if (!E(A, rows[i], c)->length) continue; std::vector<slong> r = rows; r.erase(r.begin() + i); detrec(s, A, r, c + 1); nmod_poly_mul(t, s, E(A, rows[i], c)); if (i % 2) nmod_poly_sub(d, d, t); else nmod_poly_add(d, d, t); }
   nmod_poly_clear(s); nmod_poly_clear(t);
}
void nmod_poly_mat_det(nmod_poly_t d, const nmod_poly_mat_t A) { nmod_poly_t r; nmod_poly_init(r, A->modulus); std::vector<slong> rows; for (slong i = 0; i < A->r; i++) rows.push_back(i); detrec(r, A, rows, 0); nmod_poly_set(d, r); nmod_poly_clear(r); }
slong nmod_poly_mat_rank(const nmod_poly_mat_t A)
{ // fraction-free elimination
   nmod_poly_mat_t T; nmod_poly_mat_init_set(T, A); slong r = 0; nmod_poly_t x, y; nmod_poly_init(x, A->modulus); nmod_poly_init(y, A->modulus);
   for (slong c = 0; c < T->c && r < T->r; c++) { slong p = r; while (p < T->r && !E(T, p, c)->length) p++; if (p == T->r) continue; if (p != r) for (slong j = 0; j < T->c; j++) nmod_poly_swap(E(T, p, j), E(T, r, j));
      for (slong i = r + 1; i < T->r; i++) { if (!E(T, i, c)->length) continue; for (slong j = T->c - 1; j >= c; j--) { nmod_poly_mul(x, E(T, i, j), E(T, r, c)); nmod_poly_mul(y, E(T, i, c), E(T, r, j)); nmod_poly_sub(E(T, i, j), x, y); } } r++; }
   nmod_poly_clear(x); nmod_poly_clear(y); nmod_poly_mat_clear(T); return r;
}
void nmod_poly_mat_get_coeff_mat(nmod_mat_t res, const nmod_poly_mat_t A, slong d) { FORM(A) nmod_mat_entry(res, i, j) = nmod_poly_get_coeff_ui(E(A, i, j), d); }
void nmod_poly_mat_set_coeff_mat(nmod_poly_mat_t A, const nmod_mat_t c, slong d) { FORM(A) nmod_poly_set_coeff_ui(E(A, i, j), d, nmod_mat_entry(c, i, j)); }
void nmod_poly_mat_shift_left(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong k) { FORM(A) nmod_poly_shift_left(E(B, i, j), E(A, i, j), k); }
void nmod_poly_mat_shift_right(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong k) { FORM(A) nmod_poly_shift_right(E(B, i, j), E(A, i, j), k); }
void nmod_poly_mat_truncate(nmod_poly_mat_t A, slong n) { FORM(A) nmod_poly_truncate(E(A, i, j), n); }
void nmod_poly_mat_set_trunc(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong n) { FORM(A) nmod_poly_set_trunc(E(B, i, j), E(A, i, j), n); }
void nmod_poly_mat_randtest(nmod_poly_mat_t A, flint_rand_t st, slong len) { FORM(A) nmod_poly_randtest(E(A, i, j), st, len); }
void nmod_poly_mat_print(const nmod_poly_mat_t, const char*) { }
void fmpz_mat_init(fmpz_mat_t A, slong r, slong c) { A->r = r; A->c = c; A->stride = c; A->entries = (fmpz*) flint_calloc(r * c, sizeof(fmpz)); }
void fmpz_mat_clear(fmpz_mat_t A) { flint_free(A->entries); }
void fmpz_mat_print_pretty(const fmpz_mat_t) { }
int fmpz_mat_equal(const fmpz_mat_t A, const fmpz_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; FORM(A) if (*fmpz_mat_entry(A, i, j) != *fmpz_mat_entry(B, i, j)) return 0; return 1; }
ulong n_preinvert_limb(ulong) { return W0; }
}
