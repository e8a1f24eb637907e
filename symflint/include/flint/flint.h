// Stand-in for FLINT's headers (FLINT is not installed here): the types and the functions flint-extras uses,
// with FLINT's documented semantics.  With -DVH_SYM, ulong is a word that may be a symbolic term (see symntl/engine.h).
#ifndef SYMFLINT_H
#define SYMFLINT_H
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <climits>
#include <sys/types.h>
#include <type_traits>
#include <gmp.h>
#define __FLINT_VERSION 3
#define __FLINT_VERSION_MINOR 6
#define __FLINT_VERSION_PATCHLEVEL 0
#define FLINT_BITS 64
#define FLINT64 1
#ifdef VH_SYM
namespace symx {
extern unsigned long term_count;
bool w_is_h(long a);
long h_imul(long, long); long h_iadd(long, long); bool h_eq(long, long); long h_concretize(long); bool h_is_zero(long); long h_rem(long, long);
}
struct fl_ulong {
   long v;
   fl_ulong() = default;
   template<class T, class = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> constexpr fl_ulong(T a) : v((long) a) { }
   unsigned long c() const { return (unsigned long) (symx::w_is_h(v) ? symx::h_concretize(v) : v); }
   bool h() const { return symx::w_is_h(v); }
   operator unsigned long() const { return c(); }
   explicit operator bool() const { return h() ? !symx::h_is_zero(v) : v != 0; }
   bool operator!() const { return !(bool) *this; }
   fl_ulong operator-() const { return fl_ulong(-c()); }
   fl_ulong operator~() const { return fl_ulong(~c()); }
   fl_ulong operator+() const { return *this; }
   static fl_ulong add(fl_ulong a, fl_ulong b) { if (a.h() || b.h()) return fl_ulong(symx::h_iadd(a.v, b.v)); return fl_ulong((unsigned long) a.v + (unsigned long) b.v); }
   static fl_ulong mul(fl_ulong a, fl_ulong b) { if (a.h() || b.h()) return fl_ulong(symx::h_imul(a.v, b.v)); return fl_ulong((unsigned long) a.v * (unsigned long) b.v); }
   static bool eq(fl_ulong a, fl_ulong b) { if (a.h() || b.h()) return symx::h_eq(a.v, b.v); return a.v == b.v; }
   static fl_ulong mod(fl_ulong a, fl_ulong b) { if (a.h() && !b.h()) return fl_ulong(symx::h_rem(a.v, b.v)); return fl_ulong(a.c() % b.c()); }
};
#define FLU_OP(OP, RT, EXPR) \
inline RT operator OP(fl_ulong a, fl_ulong b) { return EXPR; } \
template<class T> inline typename std::enable_if<std::is_integral<T>::value, RT>::type operator OP(fl_ulong a, T bb) { fl_ulong b(bb); return EXPR; } \
template<class T> inline typename std::enable_if<std::is_integral<T>::value, RT>::type operator OP(T aa, fl_ulong b) { fl_ulong a(aa); return EXPR; }
FLU_OP(+, fl_ulong, fl_ulong::add(a, b))
FLU_OP(*, fl_ulong, fl_ulong::mul(a, b))
FLU_OP(-, fl_ulong, fl_ulong(a.c() - b.c()))
FLU_OP(/, fl_ulong, fl_ulong(a.c() / b.c()))
FLU_OP(%, fl_ulong, fl_ulong::mod(a, b))
FLU_OP(&, fl_ulong, fl_ulong(a.c() & b.c()))
FLU_OP(|, fl_ulong, fl_ulong(a.c() | b.c()))
FLU_OP(^, fl_ulong, fl_ulong(a.c() ^ b.c()))
FLU_OP(<<, fl_ulong, fl_ulong(a.c() << b.c()))
FLU_OP(>>, fl_ulong, fl_ulong(a.c() >> b.c()))
FLU_OP(==, bool, fl_ulong::eq(a, b))
FLU_OP(!=, bool, !fl_ulong::eq(a, b))
FLU_OP(<, bool, a.c() < b.c())
FLU_OP(<=, bool, a.c() <= b.c())
FLU_OP(>, bool, a.c() > b.c())
FLU_OP(>=, bool, a.c() >= b.c())
#undef FLU_OP
#define FLU_AS(OP, BOP) template<class T> inline fl_ulong& operator OP(fl_ulong& a, T b) { a = a BOP fl_ulong(b); return a; } 
FLU_AS(+=, +) FLU_AS(-=, -) FLU_AS(*=, *) FLU_AS(/=, /) FLU_AS(%=, %) FLU_AS(&=, &) FLU_AS(|=, |) FLU_AS(^=, ^) FLU_AS(<<=, <<) FLU_AS(>>=, >>)
#undef FLU_AS
inline fl_ulong& operator++(fl_ulong& a) { a = fl_ulong(a.c() + 1); return a; }
inline fl_ulong& operator--(fl_ulong& a) { a = fl_ulong(a.c() - 1); return a; }
inline fl_ulong operator++(fl_ulong& a, int) { fl_ulong r = a; a = fl_ulong(a.c() + 1); return r; }
inline fl_ulong operator--(fl_ulong& a, int) { fl_ulong r = a; a = fl_ulong(a.c() - 1); return r; }
#define ulong fl_ulong
#else
#define ulong unsigned long
#endif
#define slong long
#define mp_limb_t ulong
typedef ulong* nn_ptr;
typedef const ulong* nn_srcptr;
#define mp_ptr nn_ptr
#define mp_srcptr nn_srcptr
typedef unsigned long flint_bitcnt_t;
#define UWORD(x) (x##UL)
#define WORD(x) (x##L)
#define UWORD_MAX ULONG_MAX
#define UWORD_MIN 0UL
#define WORD_MAX LONG_MAX
#define WORD_MIN LONG_MIN
#define WORD_FMT "l"
#define restrict __restrict
#define FLINT_INLINE static inline
#define FLINT_FORCE_INLINE static inline
#define FLINT_UNUSED(x)
#define FLINT_MAX(x, y) ((x) > (y) ? (x) : (y))
#define FLINT_MIN(x, y) ((x) > (y) ? (y) : (x))
#define FLINT_ABS(x) ((slong)(x) < 0 ? -(slong)(x) : (slong)(x))
#define FLINT_SWAP(T, x, y) do { T _swap_t = (x); (x) = (y); (y) = _swap_t; } while (0)
#define FLINT_ASSERT(x)
#define FLINT_ARRAY_ALLOC(n, T) ((T*) flint_malloc((n) * sizeof(T)))
#define FLINT_DLL
#define FLINT_BIT_COUNT(x) fl_bit_count((unsigned long) (x))
#define flint_clz(x) (64 - fl_bit_count((unsigned long) (x)))
static inline unsigned long fl_bit_count(unsigned long x) { return x ? 64 - __builtin_clzl(x) : 0; }
typedef struct { unsigned long s; } flint_rand_struct;
typedef flint_rand_struct flint_rand_t[1];
typedef enum { FLINT_ERROR, FLINT_OVERFLOW, FLINT_IMPINV, FLINT_DOMERR, FLINT_DIVZERO, FLINT_EXPOF, FLINT_INEXACT, FLINT_TEST_FAIL } flint_err_t;
#ifdef __cplusplus
extern "C" {
#endif
void* flint_malloc(size_t n); void* flint_calloc(size_t n, size_t s); void* flint_realloc(void* p, size_t n); void flint_free(void* p);
void* flint_aligned_alloc(size_t al, size_t n); void flint_aligned_free(void* p);
void flint_abort(void); void flint_throw(flint_err_t e, const char* m, ...);
int flint_printf(const char* f, ...); int flint_fprintf(FILE* fl, const char* f, ...);
void flint_rand_init(flint_rand_t st); void flint_rand_clear(flint_rand_t st);
ulong n_randint(flint_rand_t st, ulong limit); ulong n_randtest(flint_rand_t st);
ulong n_preinvert_limb(ulong n); ulong n_cbrt(ulong n); ulong n_invmod(ulong a, ulong n); ulong n_sqrt(ulong a); 

/* ---- nmod ---- */
typedef struct { ulong n; ulong ninv; flint_bitcnt_t norm; } nmod_t;
void nmod_init(nmod_t* m, ulong n);
ulong nmod_add(ulong a, ulong b, nmod_t m); ulong nmod_sub(ulong a, ulong b, nmod_t m); ulong nmod_neg(ulong a, nmod_t m); ulong nmod_mul(ulong a, ulong b, nmod_t m);
ulong nmod_inv(ulong a, nmod_t m); ulong nmod_div(ulong a, ulong b, nmod_t m); ulong nmod_pow_ui(ulong a, ulong e, nmod_t m); ulong nmod_addmul(ulong a, ulong b, ulong c, nmod_t m);
ulong fl_red(ulong a, nmod_t m);
#define _nmod_add nmod_add
#define _nmod_sub nmod_sub
#define NMOD_RED(r, a, m) do { (r) = fl_red((a), (m)); } while (0)
#define NMOD_ADDMUL(r, a, b, m) do { (r) = nmod_addmul((r), (a), (b), (m)); } while (0)

/* ---- vectors ---- */
typedef enum { _DOT0 = 0, _DOT1, _DOT2_SPLIT, _DOT2_HALF, _DOT2, _DOT3_ACC, _DOT3 } dot_method_t;
typedef struct { dot_method_t method; ulong pow2_precomp; } dot_params_t;
nn_ptr _nmod_vec_init(slong len); void _nmod_vec_clear(nn_ptr v); void _nmod_vec_zero(nn_ptr v, slong n); void _nmod_vec_set(nn_ptr r, nn_srcptr a, slong n); void _nmod_vec_swap(nn_ptr a, nn_ptr b, slong n);
int _nmod_vec_equal(nn_srcptr a, nn_srcptr b, slong n); int _nmod_vec_is_zero(nn_srcptr a, slong n);
void _nmod_vec_add(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m); void _nmod_vec_sub(nn_ptr r, nn_srcptr a, nn_srcptr b, slong n, nmod_t m); void _nmod_vec_neg(nn_ptr r, nn_srcptr a, slong n, nmod_t m);
void _nmod_vec_scalar_mul_nmod(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m); void _nmod_vec_scalar_mul_nmod_shoup(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m); void _nmod_vec_scalar_addmul_nmod(nn_ptr r, nn_srcptr a, slong n, ulong c, nmod_t m);
void _nmod_vec_randtest(nn_ptr v, flint_rand_t st, slong n, nmod_t m); flint_bitcnt_t _nmod_vec_max_bits(nn_srcptr v, slong n);
dot_params_t _nmod_vec_dot_params(ulong len, nmod_t m); ulong _nmod_vec_dot(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, dot_params_t p);
ulong _nmod_vec_dot2_split(nn_srcptr a, nn_srcptr b, slong n, nmod_t m, ulong pow2);
void flint_mpn_copyi(nn_ptr r, nn_srcptr a, slong n);

/* ---- permutations ---- */
slong* _perm_init(slong n); void _perm_clear(slong* p); void _perm_one(slong* p, slong n); void _perm_set(slong* r, const slong* p, slong n); void _perm_inv(slong* r, const slong* p, slong n); void _perm_compose(slong* r, const slong* a, const slong* b, slong n);
int _perm_parity(const slong* p, slong n); int _perm_randtest(slong* p, slong n, flint_rand_t st); int _perm_equal(const slong* a, const slong* b, slong n);

/* ---- matrices ---- */
typedef struct { nn_ptr entries; slong r; slong c; slong stride; nmod_t mod; } nmod_mat_struct;
typedef nmod_mat_struct nmod_mat_t[1];
#define NMOD_MAT_INLINE static inline
#define nmod_mat_entry(M, i, j) ((M)->entries[(i) * (M)->stride + (j)])
#define nmod_mat_entry_ptr(M, i, j) ((M)->entries + ((i) * (M)->stride + (j)))
#define nmod_mat_nrows(M) ((M)->r)
#define nmod_mat_ncols(M) ((M)->c)
void nmod_mat_init(nmod_mat_t A, slong r, slong c, ulong n); void nmod_mat_init_set(nmod_mat_t A, const nmod_mat_t B); void nmod_mat_clear(nmod_mat_t A); void nmod_mat_window_init(nmod_mat_t W, const nmod_mat_t A, slong r1, slong c1, slong r2, slong c2); void nmod_mat_window_clear(nmod_mat_t W);
void nmod_mat_swap(nmod_mat_t A, nmod_mat_t B); void nmod_mat_swap_entrywise(nmod_mat_t A, nmod_mat_t B); void nmod_mat_set(nmod_mat_t A, const nmod_mat_t B); void nmod_mat_zero(nmod_mat_t A); void nmod_mat_one(nmod_mat_t A); void nmod_mat_transpose(nmod_mat_t A, const nmod_mat_t B);
ulong nmod_mat_get_entry(const nmod_mat_t A, slong i, slong j); void nmod_mat_set_entry(nmod_mat_t A, slong i, slong j, ulong x); void nmod_mat_set_mod(nmod_mat_t A, ulong n);
int nmod_mat_equal(const nmod_mat_t A, const nmod_mat_t B); int nmod_mat_is_zero(const nmod_mat_t A); int nmod_mat_is_zero_row(const nmod_mat_t A, slong i); int nmod_mat_is_one(const nmod_mat_t A); int nmod_mat_is_empty(const nmod_mat_t A); int nmod_mat_is_square(const nmod_mat_t A);
void nmod_mat_add(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B); void nmod_mat_sub(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B); void nmod_mat_neg(nmod_mat_t C, const nmod_mat_t A); void nmod_mat_mul(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B); void nmod_mat_addmul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B); void nmod_mat_submul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B); void nmod_mat_scalar_mul(nmod_mat_t C, const nmod_mat_t A, ulong c); void nmod_mat_scalar_addmul_ui(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B, ulong c);
void nmod_mat_mul_nmod_vec(ulong* c, const nmod_mat_t A, const ulong* b, slong blen); void nmod_mat_nmod_vec_mul(ulong* c, const ulong* a, slong alen, const nmod_mat_t B);
slong nmod_mat_lu(slong* P, nmod_mat_t A, int rank_check); slong nmod_mat_rref(nmod_mat_t A); slong nmod_mat_rank(const nmod_mat_t A); slong nmod_mat_nullspace(nmod_mat_t X, const nmod_mat_t A); int nmod_mat_inv(nmod_mat_t B, const nmod_mat_t A); ulong nmod_mat_det(const nmod_mat_t A); int nmod_mat_solve(nmod_mat_t X, const nmod_mat_t A, const nmod_mat_t B);
void nmod_mat_solve_tril(nmod_mat_t X, const nmod_mat_t L, const nmod_mat_t B, int unit); void nmod_mat_solve_triu(nmod_mat_t X, const nmod_mat_t U, const nmod_mat_t B, int unit);
void nmod_mat_permute_rows(nmod_mat_t A, const slong* act, slong* store); void nmod_mat_swap_rows(nmod_mat_t A, slong* perm, slong r, slong s); void nmod_mat_swap_cols(nmod_mat_t A, slong* perm, slong r, slong s);
void nmod_mat_randtest(nmod_mat_t A, flint_rand_t st); void nmod_mat_randrank(nmod_mat_t A, flint_rand_t st, slong rk); void nmod_mat_randops(nmod_mat_t A, flint_rand_t st, slong k); void nmod_mat_rand(nmod_mat_t A, flint_rand_t st);
void nmod_mat_print(const nmod_mat_t A); void nmod_mat_print_pretty(const nmod_mat_t A);

/* ---- polynomials ---- */
typedef struct { nn_ptr coeffs; slong alloc; slong length; nmod_t mod; } nmod_poly_struct;
typedef nmod_poly_struct nmod_poly_t[1];
#define NMOD_POLY_INLINE static inline
void nmod_poly_init(nmod_poly_t p, ulong n); void nmod_poly_init_mod(nmod_poly_t p, nmod_t m); void nmod_poly_init2(nmod_poly_t p, ulong n, slong al); void nmod_poly_init2_preinv(nmod_poly_t p, ulong n, ulong ni, slong al); void nmod_poly_clear(nmod_poly_t p); void nmod_poly_realloc(nmod_poly_t p, slong al); void nmod_poly_fit_length(nmod_poly_t p, slong al); void _nmod_poly_set_length(nmod_poly_t p, slong len); void _nmod_poly_normalise(nmod_poly_t p);
slong nmod_poly_degree(const nmod_poly_t p); slong nmod_poly_length(const nmod_poly_t p); ulong nmod_poly_modulus(const nmod_poly_t p); ulong nmod_poly_lead_dummy(const nmod_poly_t p); nn_ptr nmod_poly_lead(const nmod_poly_t p); ulong nmod_poly_get_coeff_ui(const nmod_poly_t p, slong i); void nmod_poly_set_coeff_ui(nmod_poly_t p, slong i, ulong c);
void nmod_poly_set(nmod_poly_t a, const nmod_poly_t b); void nmod_poly_swap(nmod_poly_t a, nmod_poly_t b); void nmod_poly_zero(nmod_poly_t a); void nmod_poly_one(nmod_poly_t a); void nmod_poly_truncate(nmod_poly_t a, slong n); void nmod_poly_set_trunc(nmod_poly_t a, const nmod_poly_t b, slong n); void nmod_poly_set_nmod(nmod_poly_t a, ulong c);
int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b); int nmod_poly_is_zero(const nmod_poly_t a); int nmod_poly_is_one(const nmod_poly_t a); int nmod_poly_is_monic(const nmod_poly_t a); int nmod_poly_is_unit(const nmod_poly_t a); int nmod_poly_is_gen(const nmod_poly_t a);
void nmod_poly_add(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_sub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_neg(nmod_poly_t r, const nmod_poly_t a); void nmod_poly_mul(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_mullow(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n); void nmod_poly_scalar_mul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c); void nmod_poly_scalar_addmul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c); void nmod_poly_make_monic(nmod_poly_t r, const nmod_poly_t a);
void nmod_poly_shift_left(nmod_poly_t r, const nmod_poly_t a, slong k); void nmod_poly_shift_right(nmod_poly_t r, const nmod_poly_t a, slong k); void nmod_poly_reverse(nmod_poly_t r, const nmod_poly_t a, slong n); void _nmod_poly_reverse(nn_ptr r, nn_srcptr a, slong len, slong n);
void nmod_poly_divrem(nmod_poly_t q, nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_div(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_rem(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b); int nmod_poly_divides(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_xgcd(nmod_poly_t g, nmod_poly_t s, nmod_poly_t t, const nmod_poly_t a, const nmod_poly_t b); void nmod_poly_gcd(nmod_poly_t g, const nmod_poly_t a, const nmod_poly_t b);
ulong nmod_poly_evaluate_nmod(const nmod_poly_t a, ulong x); void nmod_poly_randtest(nmod_poly_t a, flint_rand_t st, slong len);
void nmod_poly_print_pretty(const nmod_poly_t a, const char* x); int nmod_poly_print(const nmod_poly_t a); char* nmod_poly_get_str(const nmod_poly_t a); char* nmod_poly_get_str_pretty(const nmod_poly_t a, const char* x);
/* points of a geometric progression: 1, r^2, r^4, ... */
typedef struct { nn_ptr points; slong len; ulong function; nmod_t mod; } nmod_geometric_progression_struct;
typedef nmod_geometric_progression_struct nmod_geometric_progression_t[1];
void nmod_geometric_progression_init(nmod_geometric_progression_t G, ulong r, slong len, nmod_t m); void _nmod_geometric_progression_init_function(nmod_geometric_progression_t G, ulong r, slong len, nmod_t m, ulong fn); void nmod_geometric_progression_clear(nmod_geometric_progression_t G);
void _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, nn_srcptr poly, slong plen, const nmod_geometric_progression_t G, slong len, nmod_t m); void _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nn_ptr poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len, nmod_t m); void nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nmod_poly_t poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len);

/* ---- polynomial matrices ---- */
typedef struct { nmod_poly_struct* entries; slong r; slong c; slong stride; ulong modulus; } nmod_poly_mat_struct;
typedef nmod_poly_mat_struct nmod_poly_mat_t[1];
#define NMOD_POLY_MAT_INLINE static inline
#define nmod_poly_mat_entry(M, i, j) ((M)->entries + ((i) * (M)->stride + (j)))
#define nmod_poly_mat_nrows(M) ((M)->r)
#define nmod_poly_mat_ncols(M) ((M)->c)
#define nmod_poly_mat_modulus(M) ((M)->modulus)
void nmod_poly_mat_init(nmod_poly_mat_t A, slong r, slong c, ulong n); void nmod_poly_mat_init_set(nmod_poly_mat_t A, const nmod_poly_mat_t B); void nmod_poly_mat_clear(nmod_poly_mat_t A); void nmod_poly_mat_window_init(nmod_poly_mat_t W, const nmod_poly_mat_t A, slong r1, slong c1, slong r2, slong c2); void nmod_poly_mat_window_clear(nmod_poly_mat_t W);
void nmod_poly_mat_swap(nmod_poly_mat_t A, nmod_poly_mat_t B); void nmod_poly_mat_swap_entrywise(nmod_poly_mat_t A, nmod_poly_mat_t B); void nmod_poly_mat_set(nmod_poly_mat_t A, const nmod_poly_mat_t B); void nmod_poly_mat_set_nmod_mat(nmod_poly_mat_t A, const nmod_mat_t B); void nmod_poly_mat_zero(nmod_poly_mat_t A); void nmod_poly_mat_one(nmod_poly_mat_t A); void nmod_poly_mat_transpose(nmod_poly_mat_t A, const nmod_poly_mat_t B);
int nmod_poly_mat_equal(const nmod_poly_mat_t A, const nmod_poly_mat_t B); int nmod_poly_mat_is_zero(const nmod_poly_mat_t A); int nmod_poly_mat_is_one(const nmod_poly_mat_t A); int nmod_poly_mat_is_empty(const nmod_poly_mat_t A); int nmod_poly_mat_is_square(const nmod_poly_mat_t A);
void nmod_poly_mat_add(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B); void nmod_poly_mat_sub(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B); void nmod_poly_mat_neg(nmod_poly_mat_t C, const nmod_poly_mat_t A); void nmod_poly_mat_mul(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B); void nmod_poly_mat_scalar_mul_nmod(nmod_poly_mat_t C, const nmod_poly_mat_t A, ulong c); void nmod_poly_mat_scalar_mul_nmod_poly(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_t c);
slong nmod_poly_mat_max_length(const nmod_poly_mat_t A); slong nmod_poly_mat_degree(const nmod_poly_mat_t A); void nmod_poly_mat_evaluate_nmod(nmod_mat_t B, const nmod_poly_mat_t A, ulong x); void nmod_poly_mat_det(nmod_poly_t d, const nmod_poly_mat_t A); slong nmod_poly_mat_rank(const nmod_poly_mat_t A);
void nmod_poly_mat_get_coeff_mat(nmod_mat_t res, const nmod_poly_mat_t A, slong d); void nmod_poly_mat_set_coeff_mat(nmod_poly_mat_t A, const nmod_mat_t c, slong d); void nmod_poly_mat_shift_left(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong k); void nmod_poly_mat_shift_right(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong k); void nmod_poly_mat_truncate(nmod_poly_mat_t A, slong n); void nmod_poly_mat_set_trunc(nmod_poly_mat_t B, const nmod_poly_mat_t A, slong n);
void nmod_poly_mat_randtest(nmod_poly_mat_t A, flint_rand_t st, slong len); void nmod_poly_mat_print(const nmod_poly_mat_t A, const char* x);

/* ---- integer matrices: only those of small integers used as degree matrices ---- */
typedef slong fmpz; typedef fmpz fmpz_t[1];
typedef struct { fmpz* entries; slong r; slong c; slong stride; } fmpz_mat_struct;
typedef fmpz_mat_struct fmpz_mat_t[1];
#define fmpz_mat_entry(M, i, j) ((M)->entries + ((i) * (M)->stride + (j)))
void fmpz_mat_init(fmpz_mat_t A, slong r, slong c); void fmpz_mat_clear(fmpz_mat_t A); void fmpz_mat_print_pretty(const fmpz_mat_t A); int fmpz_mat_equal(const fmpz_mat_t A, const fmpz_mat_t B);
#ifdef __cplusplus
}
#endif
#endif
