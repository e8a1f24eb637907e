// Block-Wiedemann style sequences (mat_lzz_pX_sequence)
#include "mat_lzz_pX_sequence.h"
#include "vh.h"
#include <iostream>
PML_CLIENT
PML_OPEN_NNS
void gen_sequence_naive(Vec<Coeffs>& res, const zz_pX& a, const zz_pX& g, const long m);
PML_CLOSE_NNS

// schoolbook remainder, by a polynomial whose leading coefficient is at position n
static zz_pX rrem(const zz_pX& a, const zz_pX& g, long n)
{
   Vec<zz_p> c; long l = std::max(deg(a) + 1, n); c.SetLength(l); for (long i = 0; i < l; i++) c[i] = vh::coefx(a, i);
   zz_p iv = 1 / coeff(g, n); for (long i = l - 1; i >= n; i--) { zz_p q = c[i] * iv; for (long j = 0; j <= n; j++) c[i - n + j] -= q * vh::coefx(g, j); }
   zz_pX r; r.rep.SetLength(n); for (long i = 0; i < n; i++) r.rep[i] = c[i]; r.normalize(); return r;
}
static zz_p C(const zz_pX& a, long i) { return vh::coefx(a, i); }
void harness()
{
   vh::init(); std::string op = vh::sarg("op", ""); long n = vh::arg("n", 5), m = vh::arg("m", 1), l = vh::arg("l", 3), s = vh::arg("s", 1);
   if (op == "pows" || op == "seq" || op == "naive") {
      // modulus of degree exactly n
      zz_pX g; if (vh::arg("gsym", 1)) g = vh::poly(n); else g = vh::rpoly(n); zz_p lc = vh::arg("monic", 1) ? to_zz_p(1) : vh::coef(); vh::assume_nz(lc); SetCoeff(g, n, lc);
      zz_pX a = vh::poly(vh::arg("na", n)), t = vh::poly(vh::arg("nt", n)); if (vh::arg("azero", 0)) clear(a);
      if (op == "pows") {
         bool up = vh::arg("up", 1); PVec pw, u; if (vh::arg("stale", 0)) { pw = vh::pvec(l, n); u = vh::pvec(l, n); }
         gen_pows(pw, u, t, a, s, g, l, up); vh::eq(pw.length(), l, "number of powers"); if (up) vh::eq(u.length(), l, "number of upper products");
         zz_pX as; SetCoeff(as, 0, 1); for (long i = 0; i < s; i++) as = rrem(vh::ref_mul(as, a), g, n);
         zz_pX cur = t, S, S1; // S = 1/rev(g) mod x^(n-1)
         S.rep.SetLength(n - 1); for (long k = 0; k < n - 1; k++) { zz_p v = to_zz_p(k == 0 ? 1 : 0); for (long j = 1; j <= k; j++) v -= C(g, n - j) * S.rep[k - j]; S.rep[k] = v / lc; } S.normalize();
         for (long i = 0; i < l; i++) {
            vh::eq(pw[i], cur, "power modulo g"); vh::norm(pw[i], "normal form"); vh::obs(pw[i]);
            if (up) { zz_pX r; r.rep.SetLength(n); for (long k = 0; k < n; k++) r.rep[k] = C(cur, n - 1 - k); r.normalize(); zz_pX q = vh::ref_mul(S, r), q1; q1.rep.SetLength(n - 1); for (long k = 0; k < n - 1; k++) q1.rep[k] = C(q, k); q1.normalize(); vh::eq(u[i], q1, "upper product"); vh::norm(u[i], "normal form"); }
            cur = rrem(vh::ref_mul(cur, as), g, n); }
         return; }
      long d = 2 * ((n + m - 1) / m) + 1, sd = 1; while (sd * sd < d) sd++;
      vh::assume_nz(C(g, 0)); // x must be invertible modulo g
      Vec<zz_pX> pa; pa.SetLength(sd * sd); SetCoeff(pa[0], 0, 1); for (long k = 1; k < sd * sd; k++) pa[k] = rrem(vh::ref_mul(pa[k - 1], a), g, n);
      if (op == "naive") { Vec<Coeffs> r; gen_sequence_naive(r, a, g, m); vh::eq(r.length(), m, "number of rows");
         for (long i = 0; i < m; i++) for (long u = 0; u < sd; u++) for (long v = 0; v < sd; v++) { zz_pX x; SetCoeff(x, m - 1 - i, 1); zz_pX w = rrem(vh::ref_mul(pa[u + v * sd], x), g, n); for (long j = 0; j < m; j++) vh::eq(r[i][u][v][j], C(w, j), "naive sequence"); }
         return; }
      Vec<Mat<zz_p>> M; if (vh::arg("stale", 0)) { M.SetLength(2); M[0] = vh::mat(m + 1, m + 1); M[1] = vh::mat(1, 1); }
      std::cout.setstate(std::ios::failbit); gen_sequence(M, a, g, m); std::cout.clear();
      vh::eq(M.length(), d, "length of the sequence");
      for (long k = 0; k < d; k++) { vh::eq(M[k].NumRows(), m, "rows"); vh::eq(M[k].NumCols(), m, "columns"); for (long i = 0; i < m; i++) { zz_pX x; SetCoeff(x, i, 1); zz_pX w = rrem(vh::ref_mul(pa[d - 1 - k], x), g, n); for (long j = 0; j < m; j++) vh::eq(M[k][i][j], C(w, j), "term of the sequence"); } vh::obs(M[k]); }
      return; }
   if (op == "recon" || op == "geom") {
      // arbitrary evaluations at l distinct points: rows (P, Q) with P(x_i) S_i + Q(x_i) = 0
      zz_p r = to_zz_p(vh::arg("r", 3)), q = r * r, x = to_zz_p(1); Vec<zz_p> pt; pt.SetLength(l); for (long i = 0; i < l; i++) { pt[i] = op == "geom" ? x : to_zz_p(i + 1); x *= q; }
      Vec<Mat<zz_p>> S, S0; S.SetLength(l); long dd = vh::arg("dd", -1); zz_pX D, N;
      if (dd >= 0) { D = vh::poly(dd); SetCoeff(D, dd, 1); N = vh::poly(dd); for (long i = 0; i < l; i++) { zz_p v = vh::ref_eval(D, pt[i]); vh::assume_nz(v); S[i].SetDims(1, 1); S[i][0][0] = -vh::ref_eval(N, pt[i]) / v; } }
      else for (long i = 0; i < l; i++) S[i] = vh::mat(m, m);
      S0 = S; PMat P; if (vh::arg("stale", 0)) P = vh::rpmat(m + 1, 2, 2);
      if (op == "geom") matrix_recon_interpolation_geometric(P, pt, r, S); else matrix_recon_interpolation(P, pt, S);
      vh::eq(P.NumRows(), m, "rows"); vh::eq(P.NumCols(), m, "columns");
      // Q by interpolation (Lagrange)
      for (long i = 0; i < m; i++) {
         long di = deg(P[i][i]); vh::check(di >= 0, "zero diagonal entry"); for (long j = 0; j < m; j++) { vh::norm(P[i][j], "normal form"); vh::check(deg(P[i][j]) < di + (j <= i), "pivot of a row is not on the diagonal"); }
         for (long j = 0; j < m; j++) {
            zz_pX Q; for (long k = 0; k < l; k++) { zz_p v = to_zz_p(0); for (long t = 0; t < m; t++) v -= vh::ref_eval(P[i][t], pt[k]) * S0[k][t][j]; zz_pX b; SetCoeff(b, 0, 1); for (long t = 0; t < l; t++) if (t != k) { zz_pX f; SetCoeff(f, 1, 1); SetCoeff(f, 0, -pt[t]); b = vh::ref_mul(b, f); v /= pt[k] - pt[t]; } for (long t = 0; t < l; t++) { zz_p c = C(b, t) * v; SetCoeff(Q, t, C(Q, t) + c); } }
            vh::below(Q, di, "numerator of a row of the denominator has too large degree"); }
      }
      if (dd >= 0 && 2 * dd <= l) { // the fraction N/D in lowest terms: D is found up to a constant (if coprime)
         zz_pX R = vh::ref_mul(P[0][0], N), Q; // P N = -Q D exactly, so D/gcd divides P; with resultant non-zero P = c D
         Mat<zz_p> Sy; long e = dd; if (e > 0) { Sy.SetDims(2 * e, 2 * e); for (long i = 0; i < e; i++) for (long j = 0; j <= e; j++) { Sy[i][i + j] = C(D, j); Sy[e + i][i + j] = C(N, j); } zz_p rs = vh::ref_det(Sy); if (IsZero(rs)) return; }
         vh::eq(deg(P[0][0]), dd, "degree of the reconstructed denominator"); zz_pX cD = D * LeadCoeff(P[0][0]); vh::eq(P[0][0], cD, "reconstructed denominator"); }
      return; }
   vh::check(false, "unknown op");
}
