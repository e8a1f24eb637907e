// Structured matrices over zz_pX: products, truncated products, dense form, displacement generators, truncated inverses.
#include "vh.h"
#include "structured_lzz_pX.h"
#include "ref_forms.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
typedef PMat M;
typedef PVec W;
static zz_pX cst(long c) { zz_pX f; conv(f, to_zz_p(c)); return f; }
static M zmat(long n, long c) { M z; z.SetDims(n, n); for (long i = 1; i < n; i++) z[i][i - 1] = cst(1); z[0][n - 1] = vh::ref_mul(z[0][n - 1], cst(1)); if (c) z[0][n - 1] += cst(c); return z; }
static M tr(const M& a) { M w; w.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) w[j][i] = a[i][j]; return w; }
static M phi(const M& a, bool plus) { long m = a.NumRows(), n = a.NumCols(); return vh::ref_sub(vh::ref_mul(zmat(m, plus ? 1 : 0), a), vh::ref_mul(a, zmat(n, plus ? 0 : 1))); }
static M colm(const W& v) { M a; a.SetDims(v.length(), 1); for (long i = 0; i < v.length(); i++) a[i][0] = v[i]; return a; }
static M rowm(const W& v) { M a; a.SetDims(1, v.length()); for (long i = 0; i < v.length(); i++) a[0][i] = v[i]; return a; }
static W rpv(long n, long l) { W v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = vh::rpoly(l); return v; }
static void nv(const W& v) { for (long i = 0; i < v.length(); i++) vh::norm(v[i], "normal form"); }

static void run(const structured_lzz_pX& S, const M& D, const std::string& op0)
{
   std::string op = op0; bool t = op.size() && op[0] == 't'; if (t) op = op.substr(1);
   long m = D.NumRows(), n = D.NumCols(), q = vh::arg("q", 2), st = vh::arg("stale", 0), al = vh::arg("alias", 0), L = vh::arg("dv", 1) + 1, s = vh::arg("s", 2);
   auto T = [&](const M& a) { return t ? vh::ref_trunc(a, s) : a; };
   vh::check(S.NumRows() == m && S.NumCols() == n, "dimensions");
   if (op == "dense") { M d; if (st) d = vh::rpmat(m, n, 2); S.to_dense(d); vh::eq(d, D, "dense form"); vh::obs(d); }
   else if (op == "right") { W v = vh::pvec(n, L), v0 = v, o; if (st) o = rpv(m + 1, 3); W& O = al ? v : o; if (t) S.mul_right_trunc(O, v, s); else S.mul_right(O, v); nv(O); vh::eq(colm(O), T(vh::ref_mul(D, colm(v0))), "product by a vector"); vh::obs(colm(O)); }
   else if (op == "left") { W v = vh::pvec(m, L), v0 = v, o; if (st) o = rpv(n + 1, 3); W& O = al ? v : o; if (t) S.mul_left_trunc(O, v, s); else S.mul_left(O, v); nv(O); vh::eq(rowm(O), T(vh::ref_mul(rowm(v0), D)), "left product by a vector"); vh::obs(rowm(O)); }
   else if (op == "rightm") { M v = vh::pmat(n, q, L), v0 = v, o; if (st) o = vh::rpmat(m, q, 3); M& O = al ? v : o; if (t) S.mul_right_trunc(O, v, s); else S.mul_right(O, v); vh::eq(O, T(vh::ref_mul(D, v0)), "product by a matrix"); vh::obs(O); }
   else if (op == "leftm") { M v = vh::pmat(q, m, L), v0 = v, o; if (st) o = vh::rpmat(q, n, 3); M& O = al ? v : o; if (t) S.mul_left_trunc(O, v, s); else S.mul_left(O, v); vh::eq(O, T(vh::ref_mul(v0, D)), "left product by a matrix"); vh::obs(O); }
   else if (op == "bad") { W v = rpv(n + 1, 2), u = rpv(m + 1, 2), o; M a = vh::rpmat(n + 1, q, 2), b = vh::rpmat(q, m + 1, 2), c; vh::check(vh::raises([&] { S.mul_right(o, v); }), "wrong length accepted"); vh::check(vh::raises([&] { S.mul_left(o, u); }), "wrong length accepted (left)");
      vh::check(vh::raises([&] { S.mul_right_trunc(o, v, 2); }), "wrong length accepted (truncated)"); vh::check(vh::raises([&] { S.mul_left_trunc(o, u, 2); }), "wrong length accepted (truncated left)"); vh::check(vh::raises([&] { S.mul_right(c, a); }), "wrong dimensions accepted"); vh::check(vh::raises([&] { S.mul_left(c, b); }), "wrong dimensions accepted (left)");
      vh::check(vh::raises([&] { S.mul_right_trunc(c, a, 2); }), "wrong dimensions accepted (truncated)"); vh::check(vh::raises([&] { S.mul_left_trunc(c, b, 2); }), "wrong dimensions accepted (truncated left)"); }
   else vh::check(false, "unknown op");
}
void harness()
{
   vh::init(); std::string k = vh::sarg("case", ""), op = vh::sarg("op", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2), al = vh::arg("al", 1), L = vh::arg("d", 1) + 1; long pd[2] = { vh::arg("prep", -2), vh::arg("prep2", -2) };
   if (k == "ltt") { W v = vh::pvec(n, L); M D; D.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = v[i - j]; lower_triangular_toeplitz_lzz_pX S(v); for (int i = 0; i < 2; i++) if (pd[i] > -2) S.prepare_degree(pd[i]); run(S, D, op); }
   else if (k == "crow") { W v = vh::pvec(n, L); M D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = v[(((i - j - 1) % n) + n) % n]; circulant_row_lzz_pX S(v, m); for (int i = 0; i < 2; i++) if (pd[i] > -2) S.prepare_degree(pd[i]); run(S, D, op); }
   else if (k == "like") { M G = vh::pmat(m, al, L), H = vh::pmat(n, al, L); toeplitz_like_minus_lzz_pX S(G, H); vh::check(S.NumGens() == al, "number of generators"); M D = S.to_dense(); vh::check(D.NumRows() == m && D.NumCols() == n, "dimensions");
      if (op == "def") vh::eq(phi(D, false), vh::ref_mul(G, tr(H)), "displacement equation"); else run(S, D, op); }
   else if (k == "phi") { M A = vh::pmat(m, n, L), A0 = A, R; if (vh::arg("stale", 0)) R = vh::rpmat(m, n, 3); M& O = vh::arg("alias", 0) ? A : R; if (op == "plus") toeplitz_lzz_pX_phi_plus(O, A); else toeplitz_lzz_pX_phi_minus(O, A); vh::eq(O, phi(A0, op == "plus"), "displacement"); vh::obs(O); }
   else if (k == "sylv") {
      long da = vh::arg("da", 2), db = vh::arg("db", 1), lb = vh::arg("dx2", vh::arg("d", 1)) + 1; n = da + db; W A = vh::pvec(da + 1, L), B = vh::pvec(db + 1, lb);
      if (op == "ctor") { A[da] = cst(0); vh::check(vh::raises([&] { sylvester_lzz_pX S(A, B); }), "vanishing leading coefficient accepted"); return; }
      // the constructor asks for non-zero leading entries
      if (vh::iszero(A[da]) || vh::iszero(B[db])) return;
      M D; D.SetDims(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = A[j]; for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = B[j];
      sylvester_lzz_pX S(A, B);
      if (op == "gens") { M G, H; if (vh::arg("stale", 0)) { G = vh::rpmat(n, 2, 2); H = vh::rpmat(n, 2, 2); } S.phi_plus_generators(G, H); vh::eq(vh::ref_mul(G, tr(H)), phi(D, true), "displacement generators"); vh::obs(G); return; }
      if (op == "newton" || op == "high") {
         long s = vh::arg("s", 2); toeplitz_like_minus_lzz_pX R; bool ok = vh::runs([&] { if (op == "newton") S.newton_inv_trunc(R, s); else S.high_precision_inv_trunc(R, s); });
         vh::obs((long) ok); Mat<zz_p> D0; D0.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) D0[i][j] = vh::coefx(D[i][j], 0); zz_p det = n <= 9 ? vh::ref_det(D0) : to_zz_p(ref::rank(D0) == n);
         if (!ok) { if (da > 0 && db > 0) vh::eq(vh::coefx(A[da], 0) * vh::coefx(B[db], 0) * det, to_zz_p(0), "inversion refused"); return; }
         vh::nonzero(det, "matrix singular at zero accepted"); vh::check(R.NumRows() == n && R.NumCols() == n, "dimensions of the inverse"); M I = R.to_dense(); vh::eq(vh::ref_trunc(vh::ref_mul(I, D), s), vh::ref_trunc(vh::ident_pmat(n), s), "truncated inverse"); vh::below(R.G, s, "degree of the generators"); vh::below(R.H, s, "degree of the generators"); return; }
      run(S, D, op); }
   else vh::check(false, "unknown case");
}
