// Shifted degrees, pivots, degree and leading matrices, form predicates.
#include "vh.h"
#include "ref_forms.h"
#include "mat_lzz_pX_forms.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
// a w x n matrix in (shifted, row-wise) form f, then some coefficients at or just above the permitted degree replaced by inputs
static PMat made(int f, long m, long n, const VL& s, long dmax)
{
   VL piv(n); for (long j = 0; j < n; j++) piv[j] = j;
   while ((long) piv.size() > m) piv.erase(piv.begin() + vh::irnd(piv.size()));
   VL d(n, -1); for (long j : piv) d[j] = vh::irnd(dmax + 1);
   PMat a; a.SetDims(m, n);
   auto cap = [&](long i, long j) { long c = d[piv[i]] + s[piv[i]] - s[j] - (j > piv[i] ? 1 : 0); if (f == 4 && d[j] >= 0) c = std::min(c, d[j] - 1); return c; };
   for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
      if (j == piv[i]) { for (long k = 0; k < d[j]; k++) SetCoeff(a[i][j], k, vh::rnd()); SetCoeff(a[i][j], d[j], f == 4 ? to_zz_p(1) : vh::rnd1()); if (deg(a[i][j]) < d[j]) SetCoeff(a[i][j], d[j], to_zz_p(1)); }
      else { long c = std::min(cap(i, j), dmax); for (long k = 0; k <= c; k++) SetCoeff(a[i][j], k, vh::rnd()); }
   }
   for (long t = 0; t < vh::arg("tweaks", 3); t++) {
      long i = vh::irnd(m), j = vh::irnd(n), e = (j == piv[i] ? d[j] : cap(i, j)) + vh::irnd(2); if (e < 0) e = vh::irnd(2);
      if (e <= dmax + 8) SetCoeff(a[i][j], e, vh::coef());
   }
   if (f <= 2) for (long i = m - 1; i > 0; i--) { long k = vh::irnd(i + 1); if (k != i) for (long j = 0; j < n; j++) swap(a[i][j], a[k][j]); }
   if (f <= 1) for (long i = 1; i < m; i++) { long k = vh::irnd(i); zz_p c = vh::rnd1(); VL r = ref::rdeg(a, s); if (r[k] <= r[i]) for (long j = 0; j < n; j++) a[i][j] += c * a[k][j]; }
   return a;
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2), len = vh::arg("len", 2); bool col = vh::arg("col", 0);
   long sl = col ? m : n; long sh = vh::arg("shift", -1); VL s = sh < 0 ? ref::zeros(sl) : ref::shift(sh, sl); bool un = sh < 0; int mk = vh::arg("mk", 0);
   PMat a = mk ? made(mk, col ? n : m, sl, s, len) : vh::pmat(m, n, len); if (mk && col) a = ref::transp(a); PMat w = col ? ref::transp(a) : a;
   if (k == "degree") {
      VL r; if (un) { if (col) col_degree(r, a); else row_degree(r, a); } else { if (col) col_degree(r, a, s); else row_degree(r, a, s); }
      ref::eqv(r, ref::rdeg(w, s), "shifted degree");
   } else if (k == "pivots") {
      VL i, d, wi, wd; if (un) { if (col) col_pivots(i, d, a); else row_pivots(i, d, a); } else { if (col) col_pivots(i, d, a, s); else row_pivots(i, d, a, s); }
      ref::pivots(wi, wd, w, s); ref::eqv(i, wi, "pivot index"); ref::eqv(d, wd, "pivot degree");
   } else if (k == "degmat") {
      Mat<long> g; if (un) degree_matrix(g, a); else if (col) degree_matrix_colshifted(g, a, s); else degree_matrix_rowshifted(g, a, s);
      vh::check(g.NumRows() == m && g.NumCols() == n, "dims");
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { long d = deg(a[i][j]); long e = d < 0 ? ref::smin(s) - 1 : d + (un ? 0 : s[col ? i : j]); vh::eq(g[i][j], e, "degree matrix"); vh::obs(g[i][j]); }
   } else if (k == "lmat") {
      Mat<zz_p> l; if (un) { if (col) col_leading_matrix(l, a); else row_leading_matrix(l, a); } else { if (col) col_leading_matrix(l, a, s); else row_leading_matrix(l, a, s); }
      Mat<zz_p> e = ref::lmat(w, s); if (col) e = ref::transp(e); vh::eq(l, e, "leading matrix"); vh::obs(l);
   } else if (k == "reduced" || k == "wpopov" || k == "owpopov" || k == "popov") {
      bool r, e;
      if (k == "reduced") { r = un ? (col ? is_col_reduced(a) : is_row_reduced(a)) : (col ? is_col_reduced(a, s) : is_row_reduced(a, s)); e = ref::reduced(w, s); }
      else if (k == "wpopov") { r = un ? (col ? is_col_weak_popov(a) : is_row_weak_popov(a)) : (col ? is_col_weak_popov(a, s) : is_row_weak_popov(a, s)); e = ref::wpopov(w, s, false); }
      else if (k == "owpopov") { r = un ? (col ? is_col_ordered_weak_popov(a) : is_row_ordered_weak_popov(a)) : (col ? is_col_ordered_weak_popov(a, s) : is_row_ordered_weak_popov(a, s)); e = ref::wpopov(w, s, true); }
      else { r = un ? (col ? is_col_popov(a) : is_row_popov(a)) : (col ? is_col_popov(a, s) : is_row_popov(a, s)); e = ref::popov(w, s); }
      vh::check(r == e, "form predicate disagrees with its definition"); vh::obs(r);
   } else if (k == "get") {
      long g = un ? (col ? get_col_polmatform(a) : get_row_polmatform(a)) : (col ? get_col_polmatform(a, s) : get_row_polmatform(a, s)); long e = 0; for (int f = 1; f <= 4; f++) if (ref::form(f, w, s)) e = f;
      vh::eq(g, e, "strongest form"); vh::obs(g);
   } else if (k == "is") {
      for (int f = 0; f <= 4; f++) { PolMatForm pf = (PolMatForm) f; bool r = un ? (col ? is_col_polmatform(pf, a) : is_row_polmatform(pf, a)) : (col ? is_col_polmatform(pf, a, s) : is_row_polmatform(pf, a, s)); vh::check(r == ref::form(f, w, s), "is_polmatform"); vh::obs(r); }
   } else if (k == "badshift") {
      VL b = ref::zeros(sl + (vh::arg("extra", 1))); VL r, i, d; Mat<zz_p> l; Mat<long> g;
      vh::check(vh::raises([&] { if (col) col_degree(r, a, b); else row_degree(r, a, b); }), "degree with a shift of the wrong length");
      vh::check(vh::raises([&] { if (col) col_pivots(i, d, a, b); else row_pivots(i, d, a, b); }), "pivots with a shift of the wrong length");
      vh::check(vh::raises([&] { if (col) col_leading_matrix(l, a, b); else row_leading_matrix(l, a, b); }), "leading matrix with a shift of the wrong length");
      vh::check(vh::raises([&] { if (col) degree_matrix_colshifted(g, a, b); else degree_matrix_rowshifted(g, a, b); }), "degree matrix with a shift of the wrong length");
   } else if (k == "amplitude") { vh::eq(amplitude(s), *std::max_element(s.begin(), s.end()) - *std::min_element(s.begin(), s.end()), "amplitude"); long v; amplitude(v, s); vh::eq(v, amplitude(s), "amplitude");
   } else vh::check(false, "unknown case");
}
