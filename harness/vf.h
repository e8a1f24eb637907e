// Conversions between NTL's types (used for inputs, oracles and obligations) and those of FLINT's stand-in.
#ifndef VF_H
#define VF_H
#include "vh.h"
#include "ref_forms.h"
#include "ref_basis.h"
#include <flint/flint.h>
namespace vf {
#ifdef VH_SYM
inline ulong w(zz_p a) { ulong r; r.v = a._zz_p__rep; return r; }
inline zz_p z(ulong a) { zz_p r; r._zz_p__rep = a.v; return r; }
inline bool red(ulong a) { return a.h() || (unsigned long) a.v < (unsigned long) zz_p::modulus(); }
#else
inline ulong w(zz_p a) { return rep(a); }
inline bool red(ulong a) { return a < (unsigned long) zz_p::modulus(); }
inline zz_p z(ulong a) { return to_zz_p((long) a); }
#endif
inline ulong p() { return (ulong) zz_p::modulus(); }
inline zz_p get(ulong a) { vh::check(red(a), "word not reduced modulo p"); return z(a); }
// constant matrices
struct M {
   nmod_mat_t m; bool own = true;
   M(long r, long c) { nmod_mat_init(m, r, c, p()); }
   M(const Mat<zz_p>& a) { nmod_mat_init(m, a.NumRows(), a.NumCols(), p()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) nmod_mat_entry(m, i, j) = w(a[i][j]); }
   M(const M&) = delete; ~M() { nmod_mat_clear(m); }
   operator nmod_mat_struct*() { return m; }
};
inline Mat<zz_p> get(const nmod_mat_struct* m) { Mat<zz_p> a; a.SetDims(m->r, m->c); for (long i = 0; i < m->r; i++) for (long j = 0; j < m->c; j++) a[i][j] = get(nmod_mat_entry(m, i, j)); return a; }
// polynomials
inline void set(nmod_poly_struct* f, const zz_pX& a, bool raw = false)
{
   long n = a.rep.length(); nmod_poly_fit_length(f, n); for (long i = 0; i < n; i++) f->coeffs[i] = w(a.rep[i]); f->length = n; if (!raw) _nmod_poly_normalise(f);
}
inline zz_pX get(const nmod_poly_struct* f)
{
   zz_pX a; vh::check(f->length >= 0 && f->length <= f->alloc, "length of a polynomial"); a.rep.SetLength(f->length); for (long i = 0; i < f->length; i++) a.rep[i] = get(f->coeffs[i]);
   if (f->length) vh::nonzero(a.rep[f->length - 1], "polynomial not normalised"); a.normalize(); return a;
}
struct F {
   nmod_poly_t f; F() { nmod_poly_init(f, p()); } F(const zz_pX& a) { nmod_poly_init(f, p()); set(f, a); } F(const F&) = delete; ~F() { nmod_poly_clear(f); }
   operator nmod_poly_struct*() { return f; }
};
// polynomial matrices
struct P {
   nmod_poly_mat_t m;
   P(long r, long c) { nmod_poly_mat_init(m, r, c, p()); }
   P(const PMat& a) { nmod_poly_mat_init(m, a.NumRows(), a.NumCols(), p()); put(a); }
   void put(const PMat& a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) set(nmod_poly_mat_entry(m, i, j), a[i][j]); }
   P(const P&) = delete; ~P() { nmod_poly_mat_clear(m); }
   operator nmod_poly_mat_struct*() { return m; }
};
inline PMat get(const nmod_poly_mat_struct* m) { PMat a; a.SetDims(m->r, m->c); for (long i = 0; i < m->r; i++) for (long j = 0; j < m->c; j++) a[i][j] = get((const nmod_poly_struct*) nmod_poly_mat_entry(m, i, j)); return a; }
inline PMat top(const PMat& a, long k) { PMat b; b.SetDims(k, a.NumCols()); for (long i = 0; i < k; i++) for (long j = 0; j < a.NumCols(); j++) b[i][j] = a[i][j]; return b; }
inline PMat rev(const PMat& a, bool rows, bool cols) { PMat b; long m = a.NumRows(), n = a.NumCols(); b.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) b[i][j] = a[rows ? m - 1 - i : i][cols ? n - 1 - j : j]; return b; }
inline VL rev(VL a) { std::reverse(a.begin(), a.end()); return a; }
}
#endif
