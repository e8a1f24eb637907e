// Column joins / collapses and partial linearization.
#include "vh.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
static zz_pX mono(long e, const zz_pX& f) { return LeftShift(f, e); }
// ragged=1: columns of different lengths, one of them zero
static PMat pm(long m, long n, long len) { PMat a = vh::pmat(m, n, len); if (vh::arg("ragged", 0)) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) trunc(a[i][j], a[i][j], (len * ((j * 7 + 3) % (n + 1)) + n - 1) / n); return a; }
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2), len = vh::arg("len", 3), alias = vh::arg("alias", 0);
   PMat r; if (vh::arg("stale", 0)) { r.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) r[i][j] = vh::rpoly(4); }
   if (k == "join") {
      PMat a = vh::pmat(m, n, len), b = vh::pmat(m, vh::arg("k", 1), len), a0 = a, b0 = b; PMat& R = alias == 1 ? a : alias == 2 ? b : r;
      if (vh::arg("bad", 0)) { b.SetDims(m + 1, 1); vh::check(vh::raises([&] { horizontal_join(R, a, b); }), "join of matrices with different numbers of rows accepted"); return; }
      horizontal_join(R, a, b); vh::check(R.NumRows() == m && R.NumCols() == n + b0.NumCols(), "dimensions of the join");
      for (long i = 0; i < m; i++) for (long j = 0; j < R.NumCols(); j++) vh::eq(R[i][j], j < n ? a0[i][j] : b0[i][j - n], "join"); vh::obs(R);
   } else if (k == "collapse") {
      long s = vh::arg("s", 2), cons = vh::arg("cons", 1), d = vh::arg("d", len), t = n; PMat a = vh::pmat(m, t, len), a0 = a; PMat& R = alias ? a : r; bool bad = t % s != 0;
      if (bad) { vh::check(vh::raises([&] { if (cons) collapse_consecutive_columns(R, a, d, s); else collapse_nonconsecutive_columns(R, a, d, s); }), "collapse by a size that does not divide accepted"); return; }
      if (cons) collapse_consecutive_columns(R, a, d, s); else collapse_nonconsecutive_columns(R, a, d, s);
      long c = cons ? t / s : s, h = cons ? s : t / s; vh::check(R.NumRows() == m && R.NumCols() == c, "dimensions of the collapse");
      for (long i = 0; i < m; i++) for (long j = 0; j < c; j++) { zz_pX w; for (long u = 0; u < h; u++) w += mono(u * d, a0[i][cons ? j * s + u : j + u * s]); vh::eq(R[i][j], w, "collapsed column"); vh::norm(R[i][j], "normalized"); } vh::obs(R);
   } else if (k == "parlin") {
      PMat b = pm(m, n, len); long pd = vh::arg("pd", 1), dinf = vh::arg("dinf", -1), tight = vh::arg("tight", 1), uneven = vh::arg("uneven", 0); VecLong P(n), T(n), cols; 
      for (long j = 0; j < n; j++) { P[j] = uneven ? (pd + j) % 3 : pd; long e = -1; for (long i = 0; i < m; i++) e = std::max(e, deg(b[i][j])); T[j] = tight == 1 ? e : tight == 2 ? len + 1 : std::max(0L, e - 1); }
      std::string op = vh::sarg("op", "vec");
      if (dinf >= 0) cols = column_partial_linearization(r, b, P, T, dinf); else if (op == "vec") cols = column_partial_linearization(r, b, P, T); else if (op == "unit") { cols = column_partial_linearization(r, b, pd, len); } else if (op == "uni") cols = column_partial_linearization(r, b, pd, T); else if (op == "cdeg") cols = column_partial_linearization_cdeg(r, b, pd); else if (op == "cdegv") cols = column_partial_linearization_cdeg(r, b, P); else if (op == "def") { cols = column_partial_linearization_cdeg(r, b); long sm = 0; for (long j = 0; j < n; j++) sm += T[j]; for (long j = 0; j < n; j++) P[j] = 1 + sm / n; }
      else if (op == "deft") { cols = column_partial_linearization(r, b, T); long sm = 0; for (long j = 0; j < n; j++) sm += T[j]; for (long j = 0; j < n; j++) P[j] = 1 + sm / n; }
      vh::check((long) cols.size() == n + 1 && cols[0] == 0 && r.NumRows() == m && r.NumCols() == cols[n], "dimensions of the linearization");
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { zz_pX w, src = dinf > 0 ? RightShift(b[i][j], dinf) : b[i][j]; vh::check(cols[j + 1] >= cols[j], "column indices");
         for (long u = cols[j]; u < cols[j + 1]; u++) { w += mono((u - cols[j]) * (P[j] + 1), r[i][u]); vh::norm(r[i][u], "normalized"); if (u < cols[j + 1] - 1 || tight) vh::below(r[i][u], P[j] + 1, "degree of a linearized column"); } vh::eq(w, src, "linearization recombines"); }
      vh::obs(r);
   } else if (k == "rmul") {
      long ka = vh::arg("k", 2), la = vh::arg("la", 2), pd = vh::arg("pd", 1), tight = vh::arg("tight", 1); PMat a = vh::pmat(ka, m, la), b = pm(m, n, len); std::string op = vh::sarg("op", "cd");
      PMat c; if (vh::arg("stale", 0)) { c.SetDims(ka, n); for (long i = 0; i < ka; i++) for (long j = 0; j < n; j++) c[i][j] = vh::rpoly(5); }
      VecLong T(n); for (long j = 0; j < n; j++) { T[j] = -1; for (long i = 0; i < m; i++) T[j] = std::max(T[j], deg(b[i][j])); if (tight == 2) T[j] = len + j; }
      if (op == "cd") right_parlin_multiply(c, a, b, pd, T); else if (op == "nocd") right_parlin_multiply(c, a, b, pd); else if (op == "glob") right_parlin_multiply(c, a, b, pd, len - 1); else if (op == "dega") { if (deg(a) < 0) return; right_parlin_multiply(c, a, b); }
      vh::eq(c, vh::ref_mul(a, b), "product by partial linearization"); vh::obs(c);
   } else if (k == "rmid") {
      long ka = vh::arg("k", 2), dA = vh::arg("dA", 2), dB = vh::arg("dB", 2), la = vh::arg("la", dA + 1), pd = vh::arg("pd", 1); PMat a = vh::pmat(ka, m, la), b = pm(m, n, len), c; if (vh::arg("stale", 0)) { c.SetDims(ka, n); for (long i = 0; i < ka; i++) for (long j = 0; j < n; j++) c[i][j] = vh::rpoly(5); }
      if (vh::arg("tight", 0)) { VecLong T(n); for (long j = 0; j < n; j++) { T[j] = -1; for (long i = 0; i < m; i++) T[j] = std::max(T[j], deg(b[i][j])); } right_parlin_middle_product(c, a, b, pd, T, dA, dB); } else right_parlin_middle_product(c, a, b, pd, len - 1, dA, dB);
      PMat full = vh::ref_mul(a, b), w; w.SetDims(ka, n); for (long i = 0; i < ka; i++) for (long j = 0; j < n; j++) { w[i][j].rep.SetLength(dB + 1); for (long t = 0; t <= dB; t++) w[i][j].rep[t] = vh::coefx(full[i][j], dA + t); w[i][j].normalize(); }
      vh::eq(c, w, "middle product by partial linearization"); vh::obs(c);
   } else vh::check(false, "unknown case");
}
