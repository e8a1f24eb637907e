// Bivariate polynomials over zz_p: arithmetic, Kronecker substitution, shifts, truncations, evaluation, resultants.
#include "vh.h"
#include "lzz_pXY.h"
PML_CLIENT
typedef PVec W;
static zz_pX at(const W& v, long i) { zz_pX z; return i >= 0 && i < v.length() ? v[i] : z; }
static void same(const zz_pXY& a, const W& r, const char* m)
{
   // the coefficients agree, and the representation is the canonical one
   long n = std::max(a.rep.length(), r.length());
   for (long i = 0; i < n; i++) vh::eq(at(a.rep, i), at(r, i), m);
   for (long i = 0; i < a.rep.length(); i++) vh::norm(a.rep[i], "normal form");
   if (a.rep.length()) { zz_pX l = a.rep[a.rep.length() - 1]; vh::check(!vh::iszero(l), "leading coefficient is zero"); }
   vh::obs(a.rep.length()); for (long i = 0; i < a.rep.length(); i++) vh::obs(a.rep[i]);
}
static W rv(long n, long l) { W v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = vh::rpoly(l); return v; }
static W refmul(const W& a, const W& b) { W c; if (a.length() == 0 || b.length() == 0) return c; c.SetLength(a.length() + b.length() - 1); for (long i = 0; i < a.length(); i++) for (long j = 0; j < b.length(); j++) c[i + j] += vh::ref_mul(a[i], b[j]); return c; }
// determinants of larger (concrete) matrices: elimination at deg+1 points, Newton interpolation
static zz_p detgauss(Mat<zz_p> a)
{
   long n = a.NumRows(); zz_p d = to_zz_p(1);
   for (long c = 0; c < n; c++) {
      long p = c; while (p < n && a[p][c] == 0) p++;
      if (p == n) return zz_p();
      if (p != c) { for (long j = 0; j < n; j++) { zz_p t = a[p][j]; a[p][j] = a[c][j]; a[c][j] = t; } d = -d; }
      d *= a[c][c]; zz_p iv = 1 / a[c][c];
      for (long i = c + 1; i < n; i++) { zz_p l = a[i][c] * iv; if (l == 0) continue; for (long j = c; j < n; j++) a[i][j] -= l * a[c][j]; }
   }
   return d;
}
static zz_pX bigdet(const PMat& S)
{
   long n = S.NumRows(), D = 0; for (long i = 0; i < n; i++) { long m = 0; for (long j = 0; j < n; j++) m = std::max(m, deg(S[i][j])); D += m; }
   std::vector<zz_p> v(D + 1), x(D + 1);
   for (long t = 0; t <= D; t++) { x[t] = to_zz_p(t + 1); Mat<zz_p> E; E.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) E[i][j] = vh::ref_eval(S[i][j], x[t]); v[t] = detgauss(E); }
   for (long k = 1; k <= D; k++) for (long t = D; t >= k; t--) v[t] = (v[t] - v[t - 1]) / (x[t] - x[t - k]);
   std::vector<zz_p> r(D + 1), q(D + 1); q[0] = to_zz_p(1);
   for (long k = 0; k <= D; k++) { for (long i = 0; i <= k; i++) r[i] += v[k] * q[i]; if (k < D) for (long i = k + 1; i >= 0; i--) q[i] = (i ? q[i - 1] : zz_p()) - x[k] * (i <= k ? q[i] : zz_p()); }
   zz_pX R; for (long i = 0; i <= D; i++) if (r[i] != 0) SetCoeff(R, i, r[i]); return R;
}
static zz_pX refres(const W& f, const W& g)
{
   long df = f.length() - 1, dg = g.length() - 1, n = df + dg; PMat S; S.SetDims(n, n);
   for (long i = 0; i < dg; i++) for (long j = 0; j <= df; j++) S[i][i + j] = f[df - j];
   for (long i = 0; i < df; i++) for (long j = 0; j <= dg; j++) S[dg + i][i + j] = g[dg - j];
   if (n == 0) { zz_pX o; SetCoeff(o, 0, 1); return o; }
   return n > 6 ? bigdet(S) : vh::ref_det(S);
}
static zz_pX topright(const W& f, const W& g)
{
   long df = f.length() - 1, dg = g.length() - 1, n = df + dg; if (n == 0) { zz_pX o; SetCoeff(o, 0, 1); return o; } PMat S; S.SetDims(n, n);
   for (long i = 0; i < dg; i++) for (long j = 0; j <= df; j++) S[i + j][i] = f[j];
   for (long i = 0; i < df; i++) for (long j = 0; j <= dg; j++) S[i + j][i + dg] = g[j];
   PMat M; M.SetDims(n - 1, n - 1); for (long i = 0; i < n - 1; i++) for (long j = 0; j < n - 1; j++) M[i][j] = S[i][j + 1];   // minor of the entry (last, first)
   if (n == 1) { zz_pX o; SetCoeff(o, 0, 1); return o; }
   return n > 6 ? bigdet(M) : vh::ref_det(M);
}
void harness()
{
   vh::init(); std::string op = vh::sarg("op", ""); long al = vh::arg("alias", 0), st = vh::arg("stale", 0), k = vh::arg("k", 1);
   W A = vh::pvec(vh::arg("ny", 2), vh::arg("nx", 2)); zz_pXY a(A);
   zz_pXY o; if (st) { o = zz_pXY(rv(5, 4)); }
   if (op == "ctor") { same(a, A, "constructor"); long t = -1, dx = -1; for (long i = 0; i < A.length(); i++) { long d = deg(A[i]); dx = std::max(dx, d); if (d >= 0) t = std::max(t, d + i); }
      vh::eq(a.degX(), dx, "degree in x"); vh::eq(a.tdeg(), t, "total degree"); vh::eq(a.degY(), a.rep.length() - 1, "degree in y"); vh::eq(a.is_zero() != 0, a.rep.length() == 0, "zero test"); return; }
   if (op == "ctor1") { zz_pXY c(A[0]); W r; r.SetLength(1); r[0] = A[0]; same(c, r, "constructor from a polynomial"); return; }
   if (op == "equal") { W B = vh::pvec(vh::arg("my", 2), vh::arg("mx", 2)); zz_pXY b(B); bool e = (a == b); vh::eq((a != b) != 0, !e, "inequality test"); if (e) for (long i = 0; i < std::max(A.length(), B.length()); i++) vh::eq(at(A, i), at(B, i), "different polynomials reported equal"); else { bool d = false; for (long i = 0; i < std::max(A.length(), B.length()); i++) { if (!(at(A, i) == at(B, i))) d = true; } vh::check(d, "equal polynomials reported different"); } return; }
   if (op == "eval") { zz_p x = vh::coef(); zz_pX v; if (st) v = vh::rpoly(5); evaluate(v, a, x); vh::norm(v, "normal form"); zz_pX r; r.rep.SetLength(A.length()); for (long i = 0; i < A.length(); i++) r.rep[i] = vh::ref_eval(A[i], x); vh::eq(v, r, "evaluation"); vh::obs(v); return; }
   if (op == "shx" || op == "shy" || op == "trx" || op == "try") {
      zz_pXY& O = al ? a : o; W r; long n = A.length();
      if (op == "shx") { shift_x(O, a, k); r.SetLength(n); for (long i = 0; i < n; i++) r[i] = k >= 0 ? A[i] << k : A[i] >> (-k); }
      else if (op == "shy") { shift_y(O, a, k); r.SetLength(std::max(0L, n + k)); for (long i = 0; i < r.length(); i++) r[i] = at(A, i - k); }
      else if (op == "trx") { trunc_x(O, a, k); r.SetLength(n); for (long i = 0; i < n; i++) r[i] = trunc(A[i], k); }
      else { trunc_y(O, a, k); r.SetLength(std::min(n, k)); for (long i = 0; i < r.length(); i++) r[i] = A[i]; }
      same(O, r, op[0] == 's' ? "shift" : "truncation"); return; }
   if (op == "set") { zz_pX c = vh::poly(2); zz_pXY x = a; SetCoeff(x, k, c); W r; r.SetLength(std::max(A.length(), k + 1)); for (long i = 0; i < r.length(); i++) r[i] = i == k ? c : at(A, i); same(x, r, "set coefficient"); return; }
   if (op == "setneg") { vh::check(vh::raises([&] { zz_pX c = vh::poly(1); SetCoeff(a, -1, c); }), "negative index accepted"); return; }
   if (op == "random") { zz_pXY x; if (st) x = a; random_zz_pXY(x, vh::arg("rx", 2), vh::arg("ry", 2)); W r = x.rep; vh::check(r.length() <= vh::arg("ry", 2), "degree in y of a random polynomial"); for (long i = 0; i < r.length(); i++) vh::check(deg(r[i]) < vh::arg("rx", 2), "degree in x of a random polynomial"); same(x, r, "random polynomial"); return; }
   if (op == "tokro") { long d = std::max(0L, a.degX()) + k; zz_pX v; if (st) v = vh::rpoly(20); if (vh::arg("vec", 0)) to_kronecker(v, A, d); else to_kronecker(v, a, d); vh::norm(v, "normal form"); zz_pX r; r.rep.SetLength((d + 1) * A.length()); for (long i = 0; i < A.length(); i++) for (long j = 0; j <= d; j++) r.rep[i * (d + 1) + j] = vh::coefx(A[i], j); vh::eq(v, r, "Kronecker substitution");
      from_kronecker(o, v, d); same(o, A, "inverse Kronecker substitution"); return; }
   if (op == "fromkro") { zz_pX v = vh::poly(vh::arg("len", 5)); from_kronecker(o, v, k); W r; long n = vh::arg("len", 5) / (k + 1) + 1; r.SetLength(n); for (long i = 0; i < n; i++) { r[i].rep.SetLength(k + 1); for (long j = 0; j <= k; j++) r[i].rep[j] = vh::coefx(v, i * (k + 1) + j); r[i].normalize(); } same(o, r, "inverse Kronecker substitution");
      W w; if (st) { w.SetLength(3); w[1] = vh::rpoly(4); } from_kronecker(w, v, k); vh::check(w.length() <= n, "length of the array of coefficients"); for (long i = 0; i < n; i++) { zz_pX c = at(w, i); vh::norm(c, "normal form"); vh::eq(c, r[i], "inverse Kronecker substitution into an array"); } return; }
   if (op == "mulc") { zz_p c = vh::coef(); zz_pXY& O = al ? a : o; mul(O, a, c); W r; r.SetLength(A.length()); for (long i = 0; i < A.length(); i++) { r[i] = A[i]; for (long j = 0; j < r[i].rep.length(); j++) r[i].rep[j] *= c; r[i].normalize(); } same(O, r, "product by a constant"); return; }
   W B = vh::pvec(vh::arg("my", 2), vh::arg("mx", 2)); zz_pXY b(B);
   if (op == "add" || op == "sub" || op == "naive" || op == "kron" || op == "mul") {
      if (al == 3) { b = a; B = A; }
      zz_pXY& O = al == 0 ? o : al == 2 ? b : a; const zz_pXY& Y = al == 3 ? a : b; W r; if (op == "add" || op == "sub") { r.SetLength(std::max(A.length(), B.length())); for (long i = 0; i < r.length(); i++) r[i] = op == "add" ? at(A, i) + at(B, i) : at(A, i) - at(B, i); } else r = refmul(A, B);
      if (op == "add") add(O, a, Y); else if (op == "sub") sub(O, a, Y); else if (op == "naive") mul_naive(O, a, Y); else if (op == "kron") mul_kronecker(O, a, Y); else mul(O, a, Y);
      same(O, r, op == "add" ? "sum" : op == "sub" ? "difference" : "product"); return; }
   if (op == "res" || op == "vil" || op == "vilt") {
      if (op == "vilt") { for (long i = 0; i < A.length(); i++) A[i] = trunc(A[i], A.length() - i); for (long i = 0; i < B.length(); i++) B[i] = trunc(B[i], B.length() - i); a = zz_pXY(A); b = zz_pXY(B); }
      if (a.is_zero() || b.is_zero()) { zz_pX z = vh::rpoly(3); long r = op == "res" ? resultant(z, a, b) : op == "vil" ? resultant_villard(z, a, b) : resultant_villard_tdeg(z, a, b); vh::check(r != 0, "resultant with zero"); vh::eq(z, zz_pX(), "resultant with zero"); return; }
      if (op == "vilt" && (a.tdeg() != a.degY() || b.tdeg() != b.degY())) return;
      zz_pX R = refres(a.rep, b.rep), v; if (st) v = vh::rpoly(4); long r = 0;
      bool ok = vh::runs([&] { r = op == "res" ? resultant(v, a, b) : op == "vil" ? resultant_villard(v, a, b) : resultant_villard_tdeg(v, a, b); });
      if (!ok) { vh::check(vh::arg("mayfail", 0) != 0, "the resultant computation aborted"); return; }
      vh::obs(r); if (r == 0) { vh::check(vh::arg("must", 0) == 0, "the resultant of generic input was not computed"); return; }
      vh::norm(v, "normal form"); vh::obs(v);
      if (op == "res") vh::eq(v, R, "resultant");
      else { // up to a non-zero constant
         // both variants are for generic input: the projection of the inverse of the Sylvester matrix on its top right entry must have the resultant as denominator
         zz_pX c = topright(a.rep, b.rep), d0, s0, t0; if (vh::iszero(R) || vh::iszero(c)) return; XGCD(d0, s0, t0, R, c); if (deg(d0) > 0) return; if (op == "vil" && deg(c) >= deg(R)) return; if (op == "vilt" && deg(R) != a.tdeg() * b.tdeg()) return;
         vh::check(!vh::iszero(v), "zero returned as a resultant"); if (op == "vilt") vh::eq(deg(v), deg(R), "degree of the resultant");
         // determinant_via_linsolve is Monte Carlo: an unlucky draw yields a proper divisor
         if (deg(v) != deg(R)) { vh::check(deg(v) < deg(R), "degree of the resultant"); zz_pX q, t; DivRem(q, t, R, v); vh::eq(t, zz_pX(), "not a divisor of the resultant"); return; }
         if (deg(v) == deg(R)) { zz_p l = LeadCoeff(v), m = LeadCoeff(R); for (long i = 0; i <= deg(R); i++) vh::eq(vh::coefx(v, i) * m, vh::coefx(R, i) * l, "resultant up to a constant"); } }
      return; }
   vh::check(false, "unknown op");
}
