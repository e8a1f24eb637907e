// Truncated inverses, high-order lifting, power series and rational linear systems,
// determinants, left division, reduced forms.
#include "vh.h"
#include "ref_forms.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
static Mat<zz_p> cst0(const PMat& a) { Mat<zz_p> c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = vh::coefx(a[i][j], 0); return c; }
// c0=1: concrete invertible constant coefficient; c0=2: symbolic entries with non-zero determinant
static PMat invertible0(long n, long len)
{
   PMat a; a.SetDims(n, n); long c0 = vh::arg("c0", 1);
   for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { zz_pX f = vh::poly(len); if (c0 == 1) SetCoeff(f, 0, i <= j ? to_zz_p(1 + (i + 2 * j) * (i != j)) : to_zz_p(j == 0 ? 0 : 1)); a[i][j] = f; }
   if (c0 == 1) for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) SetCoeff(a[i][j], 0, (i + j) % 2);
   if (c0 == 1 && vh::ref_det(cst0(a)) == 0) { for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) SetCoeff(a[i][j], 0, 0L); }
   if (c0 == 2) vh::assume_nz(vh::ref_det(cst0(a)));
   return a;
}
static PMat slice(const PMat& s, long lo, long hi) // coefficients lo..hi (hi included), shifted down
{
   PMat r; r.SetDims(s.NumRows(), s.NumCols());
   for (long i = 0; i < s.NumRows(); i++) for (long j = 0; j < s.NumCols(); j++) { r[i][j].rep.SetLength(hi - lo + 1); for (long k = lo; k <= hi; k++) r[i][j].rep[k - lo] = vh::coefx(s[i][j], k); r[i][j].normalize(); }
   return r;
}
static PMat col(const PVec& v) { PMat r; r.SetDims(v.length(), 1); for (long i = 0; i < v.length(); i++) r[i][0] = v[i]; return r; }
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""), op = vh::sarg("op", "");
   long n = vh::arg("n", 2), len = vh::arg("len", 2), d = vh::arg("d", 3), alias = vh::arg("alias", 0), th = vh::arg("thresh", -1);
   if (k == "inv") {
      PMat a = invertible0(n, len), r, a0 = a; r.SetDims(1, 2); PMat& R = alias ? a : r;
      if (op == "auto") inv_trunc(R, a, d); else if (op == "plain") plain_inv_trunc(R, a, d); else if (op == "fft") newton_inv_trunc_FFT(R, a, d, th);
      else if (op == "mid") newton_inv_trunc_middle_product(R, a, d, th); else if (op == "geom") newton_inv_trunc_geometric(R, a, d, th); else vh::check(false, "unknown op");
      vh::check(R.NumRows() == n && R.NumCols() == n, "dimensions of the truncated inverse"); vh::below(R, d, "degree of the truncated inverse");
      vh::eq(vh::ref_trunc(vh::ref_mul(a0, R), d), vh::ident_pmat(n), "truncated inverse"); vh::obs(R);
   } else if (k == "inverr") { // singular constant coefficient must be refused
      PMat a = vh::rpmat(n, n, len), r; for (long j = 0; j < n; j++) SetCoeff(a[n - 1][j], 0, n > 1 ? coeff(a[0][j], 0) : to_zz_p(0));
      vh::check(vh::raises([&] { if (op == "auto") inv_trunc(r, a, d); else if (op == "plain") plain_inv_trunc(r, a, d); else if (op == "fft") newton_inv_trunc_FFT(r, a, d, th); else if (op == "mid") newton_inv_trunc_middle_product(r, a, d, th); else newton_inv_trunc_geometric(r, a, d, th); }), "singular constant coefficient accepted");
   } else if (k == "hol") {
      PMat a = invertible0(n, d + 1); long i0 = vh::arg("i", 2 * d); PMat full = inv_trunc(a, 4 * i0), src = slice(full, i0 - (2 * d - 1), i0 - 1), next, in = vh::ref_trunc(full, d); PMat& R = alias ? src : next;
      vh::eq(vh::ref_trunc(vh::ref_mul(a, full), 4 * i0), vh::ident_pmat(n), "truncated inverse");
      std::unique_ptr<mat_lzz_pX_lmultiplier> ma = get_lmultiplier(a, d - 1), mi = get_lmultiplier(in, d - 1);
      long rounds = vh::arg("rounds", 1), i = i0;
      for (long t = 0; t < rounds; t++) { high_order_lift_inverse_odd(R, t ? R : src, ma, mi, d); i = 2 * i - d; }
      vh::eq(R, slice(full, i - (2 * d - 1), i - 1), "high-order lifting"); vh::obs(R);
   } else if (k == "series") {
      long s = vh::arg("s", 2), lb = vh::arg("lb", len); PMat a = invertible0(n, len), b = vh::pmat(n, s, lb), r, a0 = a, b0 = b; PMat& R = alias == 1 ? a : alias == 2 ? b : r;
      if (op == "hol" && deg(b) >= deg(a)) return; // documented requirement
      if (op == "low") solve_series_low_precision(R, a, b, d, th); else if (op == "high") solve_series_high_precision(R, a, b, d); else if (op == "hol") solve_series_high_order_lifting(R, a, b, d); else if (op == "auto") solve_series(R, a, b, d);
      else { PVec u, v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = b[i][0]; if (alias) { solve_series(v, a, v, d); u = v; } else solve_series(u, a, v, d); R = col(u); b0 = slice(b0, 0, lb); b0 = col([&] { PVec w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = b0[i][0]; return w; }()); }
      vh::check(R.NumRows() == n && R.NumCols() == b0.NumCols(), "dimensions of the solution"); vh::below(R, d, "degree of the solution");
      vh::eq(vh::ref_trunc(vh::ref_mul(a0, R), d), vh::ref_trunc(b0, d), "power series solution"); vh::obs(R);
   } else if (k == "linsolve") {
      PMat a = op == "kernel" ? vh::pmat(n, n, len) : invertible0(n, len); PVec b = vh::pvec(n, vh::arg("lb", len)), u; PVec b0 = b; PVec& U = alias ? b : u; zz_pX den;
      if (op == "kernel" && vh::arg("nz", 1)) { zz_pX dt = vh::ref_det(a); if (vh::iszero(dt)) return; }
      long ok = 1; if (op == "kernel") ok = linsolve_via_kernel(U, den, a, b); else linsolve_via_series(U, den, a, b, vh::arg("nb", -1));
      vh::check(ok == 1, "nonsingular system reported unsolvable"); vh::check(U.length() == n, "length of the solution"); vh::check(!vh::iszero(den), "zero denominator");
      PMat l = vh::ref_mul(a, col(U)), w = col(b0); for (long i = 0; i < n; i++) w[i][0] = vh::ref_mul(w[i][0], den); vh::eq(l, w, "A u = den b"); vh::obs(den);
   } else if (k == "det") {
      bool gen = op == "linsolve"; PMat a = gen ? invertible0(n, len) : vh::pmat(n, n, len); zz_pX dt = vh::rpoly(3), want = vh::ref_det(a);
      if (op == "general") determinant_via_evaluation_general(dt, a); else if (op == "geom") determinant_via_evaluation_geometric(dt, a); else if (op == "fft") determinant_via_evaluation_FFT(dt, a);
      else if (op == "rec") determinant_expansion_by_minors_rec(dt, a); else if (op == "minors") determinant_expansion_by_minors(dt, a);
      else if (op == "linsolve") { determinant_via_linsolve(dt, a); vh::eq(vh::ref_mul(dt, zz_pX(0, LeadCoeff(want))), want, "determinant up to a constant"); return; }
      else if (op == "knowing") { bool ok = determinant_generic_knowing_degree(dt, a, deg(want)); if (!ok) { if (n <= 4 || vh::arg("strict", 0)) vh::check(false, "determinant refused"); return; } vh::eq(vh::ref_mul(dt, zz_pX(0, LeadCoeff(want))), vh::ref_mul(want, zz_pX(0, LeadCoeff(dt))), "determinant up to a constant"); vh::check(deg(dt) == deg(want), "degree of the determinant"); return; }
      else if (op == "verify") { vh::check(verify_determinant(want, a, false, true), "right determinant refused"); vh::check(verify_determinant(vh::ref_mul(want, zz_pX(0, vh::rnd1())), a, true, true), "right determinant refused up to a constant");
         zz_pX bad = want + 1; vh::check(!verify_determinant(bad, a, false, true), "wrong determinant accepted"); return; }
      else vh::check(false, "unknown op");
      vh::eq(dt, want, "determinant"); vh::obs(dt);
   } else if (k == "quorem") {
      long s = vh::arg("s", 2), la = vh::arg("la", 3); PMat B = vh::pmat(n, n, len), A = vh::pmat(n, s, la), Q, R; if (vh::arg("stale", 0)) { Q.SetDims(1, 3); R.SetDims(3, 1); R[0][0] = vh::rpoly(4); }
      std::vector<long> rd; for (long i = 0; i < n; i++) { long e = -1; for (long j = 0; j < n; j++) e = std::max(e, deg(B[i][j])); rd.push_back(e); if (e < 0) return; }
      Mat<zz_p> lm; lm.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) lm[i][j] = vh::coefx(B[i][j], rd[i]); vh::assume_nz(vh::ref_det(lm));
      PMat A0 = A; if (alias == 1) { quo_rem(Q, A, A, B); R = A; } else if (alias == 2) { quo_rem(A, R, A, B); Q = A; } else quo_rem(Q, R, A, B);
      vh::check(Q.NumRows() == n && Q.NumCols() == s && R.NumRows() == n && R.NumCols() == s, "dimensions of quotient and remainder");
      vh::eq(vh::ref_mul(B, Q), vh::ref_sub(A0, R), "A = B*Q + R"); for (long i = 0; i < n; i++) for (long j = 0; j < s; j++) vh::below(R[i][j], rd[i], "remainder row degree"); vh::obs(Q);
   } else if (k == "gjv") {
      PMat a = vh::arg("c0", 1) ? invertible0(n, len) : vh::pmat(n, n, len), r; zz_p d0 = vh::ref_det(cst0(a)); bool sing = d0 == 0; long ok = reduced_form_gjv(r, a);
      vh::check((ok != 0) == !sing, "answer of reduced_form_gjv"); if (!ok) return;
      vh::check(r.NumRows() == n && r.NumCols() == n, "dimensions"); vh::check(ref::reduced(r, ref::zeros(n)), "not reduced");
      // left-equivalent: same determinant up to a constant, and r * a^{-1} polynomial
      zz_pX dr = vh::ref_det(r), da = vh::ref_det(a); vh::check(deg(dr) == deg(da), "degree of the determinant");
      vh::eq(vh::ref_mul(dr, zz_pX(0, LeadCoeff(da))), vh::ref_mul(da, zz_pX(0, LeadCoeff(dr))), "determinant up to a constant");
      PMat adj; adj.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { PMat m; m.SetDims(n - 1, n - 1); for (long x = 0, xx = 0; x < n; x++) if (x != j) { for (long y = 0, yy = 0; y < n; y++) if (y != i) m[xx][yy++] = a[x][y]; xx++; } adj[i][j] = n > 1 ? vh::ref_det(m) : zz_pX(0, 1); if ((i + j) % 2) adj[i][j] = -adj[i][j]; }
      PMat t = vh::ref_mul(r, adj); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) vh::zero(t[i][j] % da, "row space of the reduced form");
   } else vh::check(false, "unknown case");
}
