// Oracles for bases of modules of relations, shared by the ntl-extras and flint-extras harnesses.
#ifndef REF_BASIS_H
#define REF_BASIS_H
#include "vh.h"
#include "ref_forms.h"
typedef std::function<Vec<zz_p>(long, long)> Image; // image of x^t e_i in the quotient, as a constant vector
// P is a basis (square, rows generating) of the module of vectors with zero image, in ordered weak
// Popov (or Popov) form for shift s, with row degrees so
static void basis_of(const PMat& P, long m, const VL& s, const VL& so, bool popov, const Image& img)
{
   vh::check(P.NumRows() == m && P.NumCols() == m, "dimensions of the basis"); vh::check((long) so.size() == m, "length of the shifted row degree");
   long tot = 0;
   for (long i = 0; i < m; i++) {
      long d = so[i] - s[i]; vh::check(d >= 0, "pivot degree is negative"); tot += d;
      vh::nonzero(vh::coefx(P[i][i], d), "pivot coefficient is zero");
      for (long j = 0; j < m; j++) vh::below(P[i][j], std::max(0L, so[i] - s[j] + (j <= i ? 1 : 0)), j == i ? "shifted row degree" : "not in ordered weak Popov form");
      if (popov) { vh::eq(vh::coefx(P[i][i], d), to_zz_p(1), "pivot entry not monic"); for (long k = 0; k < m; k++) if (k != i) vh::below(P[k][i], d, "not in Popov form"); }
   }
   // every row is in the module
   for (long i = 0; i < m; i++) {
      Vec<zz_p> acc; 
      for (long j = 0; j < m; j++) { long top = std::max(0L, so[i] - s[j] + 1); for (long t = 0; t < top; t++) { zz_p c = vh::coefx(P[i][j], t); Vec<zz_p> w = img(j, t); if (acc.length() == 0) acc.SetLength(w.length()); for (long u = 0; u < w.length(); u++) acc[u] += c * w[u]; } }
      for (long u = 0; u < acc.length(); u++) vh::eq(acc[u], to_zz_p(0), "row not in the module");
   }
   vh::flush();
   // the rows generate it: the monomials below the pivots stay independent in the quotient
   Mat<zz_p> q; long w = img(0, 0).length(); q.SetDims(tot, w); long r = 0;
   for (long i = 0; i < m; i++) for (long t = 0; t < so[i] - s[i]; t++) q[r++] = img(i, t);
   if (tot) vh::check(ref::rank(q) == tot, "rows do not generate the module");
}
static Image approx(const PMat& F, const VL& ord)
{
   return [F, ord](long i, long t) { Vec<zz_p> v; long tot = 0; for (long o : ord) tot += o; v.SetLength(tot); long u = 0;
      for (size_t j = 0; j < ord.size(); j++) for (long k = 0; k < ord[j]; k++) v[u++] = vh::coefx(F[i][j], k - t); return v; };
}
// dimension of { v : v F = 0, shifted degree <= D }
static long ker_dim(const PMat& F, const VL& s, long D)
{
   long m = F.NumRows(), n = F.NumCols(), dm = 0, rows = 0; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dm = std::max(dm, F[i][j].rep.length());
   long top = 0; for (long i = 0; i < m; i++) top = std::max(top, D - s[i] + 1); for (long i = 0; i < m; i++) rows += std::max(0L, D - s[i] + 1);
   if (!rows) return 0;
   Mat<zz_p> q; q.SetDims(rows, n * (top + dm)); long r = 0;
   for (long i = 0; i < m; i++) for (long t = 0; t <= D - s[i]; t++, r++) for (long j = 0; j < n; j++) for (long k = 0; k < dm; k++) q[r][j * (top + dm) + k + t] = vh::coefx(F[i][j], k);
   return rows - ref::rank(q);
}
static void kernel_of(const PMat& K, const PMat& F, const VL& s, const VL* so, const VL* piv, bool ow)
{
   long m = F.NumRows(), k = K.NumRows(); vh::check(K.NumCols() == m || k == 0, "columns of the kernel basis"); vh::check(k <= m, "too many rows in the kernel basis");
   if (k) { PMat pr = vh::ref_mul(K, F); vh::zero(pr, "row not in the kernel"); vh::flush(); }
   VL rd = k ? ref::rdeg(K, s) : VL();
   if (k) vh::check(ow ? ref::wpopov(K, s, true) : ref::reduced(K, s), ow ? "kernel basis not in ordered weak Popov form" : "kernel basis not reduced");
   if (so) { vh::check((long) so->size() == k, "length of the output shift"); vh::check(*so == rd, "output shift is not the shifted row degree"); }
   if (piv) { VL a, b; if (k) ref::pivots(a, b, K, s); vh::check(*piv == a, "pivot index of the kernel basis"); }
   long dm = 0; for (long i = 0; i < m; i++) for (long j = 0; j < F.NumCols(); j++) dm = std::max(dm, deg(F[i][j]));
   long D = *std::max_element(s.begin(), s.end()) + std::min(m, F.NumCols()) * dm; for (long x : rd) D = std::max(D, x);
   long want = 0; for (long x : rd) want += D - x + 1;
   vh::check(ker_dim(F, s, D) == want, "rows do not generate the kernel");
}
#endif
