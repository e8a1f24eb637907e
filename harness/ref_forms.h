// Independent definitions of shifted degrees, pivots, leading matrices and forms.
#ifndef REF_FORMS_H
#define REF_FORMS_H
#include "vh.h"
#include <algorithm>
typedef std::vector<long> VL;
namespace ref {
inline VL zeros(long n) { return VL(n, 0); }
inline PMat transp(const PMat& a) { PMat t; t.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) t[j][i] = a[i][j]; return t; }
inline Mat<zz_p> transp(const Mat<zz_p>& a) { Mat<zz_p> t; t.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) t[j][i] = a[i][j]; return t; }
inline long smin(const VL& s) { return s.empty() ? 0 : *std::min_element(s.begin(), s.end()); }
inline VL rdeg(const PMat& a, const VL& s)
{
   VL r(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) { long m = smin(s) - 1; for (long j = 0; j < a.NumCols(); j++) { long d = deg(a[i][j]); if (d >= 0) m = std::max(m, d + s[j]); } r[i] = m; }
   return r;
}
inline void pivots(VL& ind, VL& dg, const PMat& a, const VL& s)
{
   ind.assign(a.NumRows(), -1); dg.assign(a.NumRows(), -1); VL r = rdeg(a, s);
   for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { long d = deg(a[i][j]); if (d >= 0 && d + s[j] == r[i]) { ind[i] = j; dg[i] = d; } }
}
inline Mat<zz_p> lmat(const PMat& a, const VL& s)
{
   VL r = rdeg(a, s); Mat<zz_p> l; l.SetDims(a.NumRows(), a.NumCols());
   for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) l[i][j] = vh::coefx(a[i][j], r[i] - s[j]);
   return l;
}
inline long rank(Mat<zz_p> a)
{
   long m = a.NumRows(), n = a.NumCols(), r = 0;
   for (long j = 0; j < n && r < m; j++) {
      long k = r; while (k < m && IsZero(a[k][j])) k++;
      if (k == m) continue;
      for (long t = 0; t < n; t++) { zz_p x = a[k][t]; a[k][t] = a[r][t]; a[r][t] = x; }
      zz_p iv = inv(a[r][j]);
      for (long i = r + 1; i < m; i++) { zz_p f = a[i][j] * iv; for (long t = j; t < n; t++) a[i][t] -= f * a[r][t]; }
      r++;
   }
   return r;
}
inline bool reduced(const PMat& a, const VL& s) { return rank(lmat(a, s)) == a.NumRows(); }
inline bool wpopov(const PMat& a, const VL& s, bool ord)
{
   VL i, d; pivots(i, d, a, s); for (long x : i) if (x < 0) return false;
   if (ord) { for (size_t k = 1; k < i.size(); k++) if (i[k] <= i[k - 1]) return false; return true; }
   std::sort(i.begin(), i.end()); for (size_t k = 1; k < i.size(); k++) if (i[k] == i[k - 1]) return false;
   return true;
}
inline bool popov(const PMat& a, const VL& s)
{
   if (!wpopov(a, s, true)) return false;
   VL p, d; pivots(p, d, a, s);
   for (long i = 0; i < a.NumRows(); i++) {
      if (!IsOne(vh::coefx(a[i][p[i]], d[i]))) return false;
      for (long k = 0; k < a.NumRows(); k++) if (k != i && deg(a[k][p[i]]) >= d[i]) return false;
   }
   return true;
}
inline bool form(int f, const PMat& a, const VL& s)
{ return f == 0 ? true : f == 1 ? reduced(a, s) : f == 2 ? wpopov(a, s, false) : f == 3 ? wpopov(a, s, true) : popov(a, s); }
inline void eqv(const VL& a, const VL& b, const char* m) { vh::check(a == b, m); for (long x : a) vh::obs(x); }
// shift=k selects the k-th test shift of length n
inline VL shift(long k, long n)
{
   VL s(n, 0);
   switch (k) {
      case 0: break;
      case 1: for (long i = 0; i < n; i++) s[i] = i; break;
      case 2: for (long i = 0; i < n; i++) s[i] = n - i; break;
      case 3: for (long i = 0; i < n; i++) s[i] = (i % 2) ? -3 : 2; break;
      case 4: for (long i = 0; i < n; i++) s[i] = i == 0 ? 4 : 0; break;
      case 5: for (long i = 0; i < n; i++) s[i] = i == n - 1 ? 5 : i; break;
      case 6: for (long i = 0; i < n; i++) s[i] = -2 * i * i; break;
      default: for (long i = 0; i < n; i++) s[i] = vh::irnd(9) - 4; break;
   }
   return s;
}
}
#endif
