// Structured matrices over zz_p: products, dense form, displacement generators, solving.
#include "vh.h"
#include "structured_lzz_p.h"
#include "mat_lzz_p_extra.h"
#include "lzz_p_extra.h"
#include "ref_forms.h"
PML_CLIENT
typedef Mat<zz_p> M;
typedef Vec<zz_p> W;
static M zmat(long n, long c, bool t = false) { M z; z.SetDims(n, n); for (long i = 1; i < n; i++) z[i][i - 1] = to_zz_p(1); z[0][n - 1] += to_zz_p(c); if (!t) return z; M w; w.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) w[i][j] = z[j][i]; return w; }
// the determinant; for larger matrices, only whether it is non-zero
static zz_p dt(const M& a) { return a.NumRows() <= 9 ? vh::ref_det(a) : to_zz_p(ref::rank(a) == a.NumRows()); }
static M tr(const M& a) { M w; w.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) w[j][i] = a[i][j]; return w; }
static M msub(const M& a, const M& b) { M w = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) w[i][j] -= b[i][j]; return w; }
// Z_c M - M Z_d (transposes of the zero shift on the Hankel side)
static M phi(const M& a, bool hankel, bool plus) { long m = a.NumRows(), n = a.NumCols(); return plus ? msub(vh::ref_mul(zmat(m, 1), a), vh::ref_mul(a, zmat(n, 0, hankel))) : msub(vh::ref_mul(zmat(m, 0, hankel), a), vh::ref_mul(a, zmat(n, 1))); }
static M colm(const W& v) { M a; a.SetDims(v.length(), 1); for (long i = 0; i < v.length(); i++) a[i][0] = v[i]; return a; }
static M rowm(const W& v) { M a; a.SetDims(1, v.length()); for (long i = 0; i < v.length(); i++) a[0][i] = v[i]; return a; }
static bool anynz(const M& a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { zz_pX f; conv(f, a[i][j]); if (!vh::iszero(f)) return true; } return false; }
static zz_p ipow(zz_p a, long e) { zz_p r = to_zz_p(1); for (long i = 0; i < e; i++) r *= a; return r; }
static M sub(const M& a, long r, long c) { M b; b.SetDims(r, c); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) b[i][j] = a[i][j]; return b; }
static long rows[8], cols[8];
static long list(const char* nm, long* out) { std::string s = vh::sarg(nm, "2"); long k = 0, v = 0; for (char c : s) { if (c == '.') { out[k++] = v; v = 0; } else v = 10 * v + (c - '0'); } out[k++] = v; return k; }

static void run(const structured_lzz_p& S, const M& D, const std::string& op, bool sizes)
{
   long m = D.NumRows(), n = D.NumCols(), q = vh::arg("q", 2), st = vh::arg("stale", 0), al = vh::arg("alias", 0);
   vh::check(S.NumRows() == m && S.NumCols() == n, "dimensions");
   if (op == "dense") { M d; if (st) d = vh::rmat(m, n); S.to_dense(d); vh::eq(d, D, "dense form"); vh::obs(d); }
   else if (op == "right") { W v = vh::vec(n), v0 = v, o; if (st) o = vh::rvec(m + 1); W& O = al ? v : o; S.mul_right(O, v); vh::eq(colm(O), vh::ref_mul(D, colm(v0)), "product by a vector"); vh::obs(O); }
   else if (op == "left") { W v = vh::vec(m), v0 = v, o; if (st) o = vh::rvec(n + 1); W& O = al ? v : o; S.mul_left(O, v); vh::eq(rowm(O), vh::ref_mul(rowm(v0), D), "left product by a vector"); vh::obs(O); }
   else if (op == "rightm") { M v = vh::mat(n, q), v0 = v, o; if (st) o = vh::rmat(m, q); M& O = al ? v : o; S.mul_right(O, v); vh::eq(O, vh::ref_mul(D, v0), "product by a matrix"); vh::obs(O); }
   else if (op == "leftm") { M v = vh::mat(q, m), v0 = v, o; if (st) o = vh::rmat(q, n); M& O = al ? v : o; S.mul_left(O, v); vh::eq(O, vh::ref_mul(v0, D), "left product by a matrix"); vh::obs(O); }
   else if (op == "bad") { if (!sizes) return; W v = vh::rvec(n + 1), u = vh::rvec(m + 1), o; M a = vh::rmat(n + 1, q), b = vh::rmat(q, m + 1), c; vh::check(vh::raises([&] { S.mul_right(o, v); }), "wrong length accepted"); vh::check(vh::raises([&] { S.mul_left(o, u); }), "wrong length accepted (left)");
      vh::check(vh::raises([&] { S.mul_right(c, a); }), "wrong dimensions accepted"); vh::check(vh::raises([&] { S.mul_left(c, b); }), "wrong dimensions accepted (left)"); }
   else vh::check(false, "unknown op");
}
template <class T> static void mosaic(const std::string& op, bool hankel, Vec<Vec<T> >& blocks, M& D)
{
   long nb = list("rows", rows), mb = list("cols", cols), m = 0, n = 0, r = 0; for (long i = 0; i < nb; i++) m += rows[i]; for (long j = 0; j < mb; j++) n += cols[j];
   D.SetDims(m, n); blocks.SetLength(nb);
   for (long i = 0; i < nb; i++) { blocks[i].SetLength(mb); long c = 0; for (long j = 0; j < mb; j++) {
         W v = vh::vec(rows[i] + cols[j] - 1); blocks[i][j] = T(v, rows[i], cols[j]);
         for (long a = 0; a < rows[i]; a++) for (long b = 0; b < cols[j]; b++) D[r + a][c + b] = v[hankel ? rows[i] + cols[j] - 2 - a - b : cols[j] - 1 + a - b]; c += cols[j]; } r += rows[i]; }
   if (vh::arg("sing", 0) && m > 1) { } 
}
template <class S, class I> static void mosops(const S& X, const M& D, const std::string& op, bool hankel)
{
   long m = D.NumRows(), n = D.NumCols();
   if (op == "access") {
      vh::check(X.NumBlockRows() == list("rows", rows) && X.NumBlockCols() == list("cols", cols), "number of blocks");
      for (long i = 0, r = 0; i < X.NumBlockRows(); i++) { vh::check(X.NumRows_of_block(i) == rows[i], "rows of a block"); W f = X.first_row_of_block(i), l = X.last_row_of_block(i); for (long j = 0; j < n; j++) { vh::eq(f[j], D[r][j], "first row of block"); vh::eq(l[j], D[r + rows[i] - 1][j], "last row of block"); } r += rows[i]; }
      for (long i = 0, c = 0; i < X.NumBlockCols(); i++) { vh::check(X.NumCols_of_block(i) == cols[i], "columns of a block"); W f = X.first_column_of_block(i), l = X.last_column_of_block(i); for (long j = 0; j < m; j++) { vh::eq(f[j], D[j][c], "first column of block"); vh::eq(l[j], D[j][c + cols[i] - 1], "last column of block"); } c += cols[i]; }
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(X(i, j), D[i][j], "entry"); vh::check(vh::raises([&] { X(m, 0); }), "row index out of range accepted"); vh::check(vh::raises([&] { X(0, n); }), "column index out of range accepted");
   } else if (op == "gens") { M G, H; if (vh::arg("stale", 0)) { G = vh::rmat(m, X.NumBlockRows() + X.NumBlockCols()); H = vh::rmat(n, X.NumBlockRows() + X.NumBlockCols()); } X.phi_plus_generators(G, H); vh::check(G.NumCols() == H.NumCols(), "dimensions of the generators"); vh::eq(vh::ref_mul(G, tr(H)), phi(D, hankel, true), "displacement generators"); vh::obs(G); vh::obs(H); }
   else if (op == "solve") {
      W b, x; if (vh::arg("cons", 0)) { W y = vh::rvec(n); M t = vh::ref_mul(D, colm(y)); b.SetLength(m); for (long i = 0; i < m; i++) b[i] = t[i][0]; } else b = vh::vec(m);
      if (vh::arg("stale", 0)) x = vh::rvec(n); long r = X.solve(x, b, -1, vh::arg("ta", -1)); vh::check(r == 0 || r == 1, "status"); if (vh::arg("must", 0)) vh::check(r == 1, "generic system not solved");
      if (r == 1) { if (x.length()) { vh::check(x.length() == n, "length of the solution"); vh::eq(vh::ref_mul(D, colm(x)), colm(b), "solution"); } else { vh::check(!vh::arg("cons", 0), "no solution returned for a consistent system");
            if (m == n) vh::eq(dt(D), to_zz_p(0), "no solution returned for an invertible matrix"); } } vh::obs(r);
   } else if (op == "inv") { I R; long r = X.inv(R, -1, vh::arg("ta", -1)); vh::check(r == 0 || r == 1, "status"); if (vh::arg("must", 0)) vh::check(r == 1, "generic matrix not inverted"); vh::obs(r);
      if (r == 1) { M id; id.SetDims(n, n); for (long i = 0; i < n; i++) id[i][i] = to_zz_p(1); M d; R.to_dense(d); vh::check(R.NumRows() == n && R.NumCols() == n, "dimensions of the inverse"); vh::eq(vh::ref_mul(d, D), id, "inverse"); }
   } else run(X, D, op, true);
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""), op = vh::sarg("op", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2), al = vh::arg("al", 1);
   if (k == "hankel") { W v = vh::vec(m + n - 1); M D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = v[m + n - 2 - i - j]; hankel_lzz_p S(v, m, n); if (op == "entry") { for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(S(i, j), D[i][j], "entry"); return; } run(S, D, op, true); }
   else if (k == "toep") { W v = vh::vec(m + n - 1); M D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = v[n - 1 + i - j]; toeplitz_lzz_p S(v, m, n); if (op == "entry") { for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(S(i, j), D[i][j], "entry"); return; } run(S, D, op, true); }
   else if (k == "ltt") { W v = vh::vec(n); M D; D.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = v[i - j]; run(lower_triangular_toeplitz_lzz_p(v), D, op, true); }
   else if (k == "crow") { W v = vh::vec(n); M D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = v[((i - j - 1) % n + n) % n]; run(circulant_row_lzz_p(v, m), D, op, true); }
   else if (k == "ccol") { W v = vh::vec(m); M D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = v[((i - j) % m + m) % m]; run(circulant_column_lzz_p(v, n), D, op, true); }
   else if (k == "like") {
      std::string t = vh::sarg("t", "tp"); M G = vh::mat(m, al), H = vh::mat(n, al); bool hk = t[0] == 'h', pl = t[1] == 'p'; structured_lzz_p* S; toeplitz_like_plus_lzz_p a; toeplitz_like_minus_lzz_p b; hankel_like_plus_lzz_p c; hankel_like_minus_lzz_p d; long ng;
      if (t == "tp") { a = toeplitz_like_plus_lzz_p(G, H); S = &a; ng = a.NumGens(); } else if (t == "tm") { b = toeplitz_like_minus_lzz_p(G, H); S = &b; ng = b.NumGens(); } else if (t == "hp") { c = hankel_like_plus_lzz_p(G, H); S = &c; ng = c.NumGens(); } else { d = hankel_like_minus_lzz_p(G, H); S = &d; ng = d.NumGens(); }
      vh::check(ng == al, "number of generators"); M D = S->to_dense(); vh::check(D.NumRows() == m && D.NumCols() == n, "dimensions"); if (op == "dense") { vh::eq(phi(D, hk, pl), vh::ref_mul(G, tr(H)), "displacement of the dense form"); } run(*S, D, op, false);
   } else if (k == "phi") { M A = vh::mat(m, n), A0 = A, R; if (vh::arg("stale", 0)) R = vh::rmat(m, n); M& O = vh::arg("alias", 0) ? A : R;
      if (op == "tp") toeplitz_lzz_p_phi_plus(O, A); else if (op == "tm") toeplitz_lzz_p_phi_minus(O, A); else if (op == "hp") hankel_lzz_p_phi_plus(O, A); else hankel_lzz_p_phi_minus(O, A); vh::eq(O, phi(A0, op[0] == 'h', op[1] == 'p'), "displacement operator"); vh::obs(O); }
   else if (k == "cauchy" || k == "clike") {
      zz_p u = vh::arg("symu", 0) ? vh::sym() : to_zz_p(3), v = vh::arg("symu", 0) > 1 ? vh::sym() : to_zz_p(vh::arg("v", 5)), rho = to_zz_p(vh::arg("rho", 2));
      M C; C.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { zz_p t = u * ipow(rho, i) - v * ipow(rho, j); vh::assume_nz(t); C[i][j] = 1 / t; }
      if (k == "cauchy") { cauchy_geometric_lzz_p S(u, v, rho, m, n); 
         if (op == "simple") { W x = vh::vec(n), y = vh::vec(m), o; S.mul_right_simple(o, x); M w = vh::ref_mul(C, colm(x)); for (long i = 0; i < m; i++) vh::eq(o[i], w[i][0] * ipow(rho, i), "product without the diagonal"); S.mul_left_simple(o, y); for (long i = 0; i < m; i++) y[i] *= ipow(rho, i); vh::eq(rowm(o), vh::ref_mul(rowm(y), C), "left product without the diagonal");
            M X = vh::rmat(n, 2), Y = vh::rmat(2, m), O; S.mul_right_simple(O, X); w = vh::ref_mul(C, X); for (long i = 0; i < m; i++) for (long j = 0; j < 2; j++) vh::eq(O[i][j], w[i][j] * ipow(rho, i), "matrix product without the diagonal"); S.mul_left_simple(O, Y); for (long i = 0; i < m; i++) for (long j = 0; j < 2; j++) Y[j][i] *= ipow(rho, i); vh::eq(O, vh::ref_mul(Y, C), "left matrix product without the diagonal"); return; }
         run(S, C, op, false); }
      else {
         M G = vh::mat(m, al), H = vh::mat(n, al); if (vh::arg("big", 0)) { for (long i = 0; i < m; i++) for (long j = 0; j < al; j++) G[i][j] = vh::rnd1(); for (long i = 0; i < n; i++) for (long j = 0; j < al; j++) H[i][j] = vh::rnd1(); } long rz = vh::arg("dup", 0); if (rz == 1 && m > 1) for (long j = 0; j < al; j++) G[m - 1][j] = to_zz_p(0); if (rz == 2 && n > 1) for (long j = 0; j < al; j++) H[n - 1][j] = to_zz_p(0); if (rz == 3) for (long j = 0; j < al; j++) G[0][j] = to_zz_p(0);
         M D = vh::ref_mul(G, tr(H)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] *= C[i][j];
         cauchy_like_geometric_lzz_p S(G, H, u, v, rho); vh::check(S.NumGens() == al, "number of generators"); long N = std::min(m, n), ta = vh::arg("ta", -1);
         if (op == "direct") { M x = vh::mat(n, 2), o = S.mul_right_direct(x); vh::eq(o, vh::ref_mul(D, x), "direct product"); return; }
         if (op == "inv" || op == "solve") {
            cauchy_like_geometric_lzz_p R; long r, big = vh::arg("big", 0); W x, b;
            if (op == "inv") { if (vh::arg("alias", 0)) { R = S; r = R.invert_leading_principal_minor_grp(R, -1, ta); } else r = S.invert_leading_principal_minor_grp(R, -1, ta); }
            else { if (vh::arg("cons", 0)) { M t = vh::ref_mul(D, colm(vh::rvec(n))); b.SetLength(m); for (long i = 0; i < m; i++) b[i] = t[i][0]; } else b = vh::vec(m); r = S.solve_grp(x, b, -1, ta); }
            vh::check(r == 0 || r == 1, "status"); vh::obs(r); if (vh::arg("must", 0)) vh::check(r == 1, "generic matrix refused");
            if (op == "inv" && r == 1) { long rk = R.NumRows(); vh::check(R.NumCols() == rk && rk <= N, "dimensions of the inverse"); M I = R.to_dense(), id; id.SetDims(rk, rk); for (long i = 0; i < rk; i++) id[i][i] = to_zz_p(1);
               if (rk) { if (big) { W y = vh::rvec(rk), z; R.mul_right(z, y); vh::eq(vh::ref_mul(sub(D, rk, rk), colm(z)), colm(y), "inverse of the leading minor, applied"); } else vh::eq(vh::ref_mul(I, sub(D, rk, rk)), id, "inverse of the leading minor"); }
               if (rk < N) { M L, U; L.SetDims(m - rk, rk); U.SetDims(rk, n - rk); M sc; sc.SetDims(m - rk, n - rk); for (long i = rk; i < m; i++) for (long j = rk; j < n; j++) sc[i - rk][j - rk] = D[i][j]; 
                  if (rk) { for (long i = rk; i < m; i++) for (long j = 0; j < rk; j++) L[i - rk][j] = D[i][j]; for (long i = 0; i < rk; i++) for (long j = rk; j < n; j++) U[i][j - rk] = D[i][j]; sc = msub(sc, vh::ref_mul(vh::ref_mul(L, I), U)); } M z0; z0.SetDims(m - rk, n - rk); vh::eq(sc, z0, "rank of the matrix"); }
            } else if (op == "solve" && r == 1) { if (x.length()) { vh::check(x.length() == n, "length of the solution"); vh::eq(vh::ref_mul(D, colm(x)), colm(b), "solution"); } else { vh::check(!vh::arg("cons", 0), "no solution returned for a consistent system"); if (m == n && !big) vh::eq(dt(D), to_zz_p(0), "no solution returned for an invertible matrix"); } }
            if (r == 0 && !big) { // must not have generic rank profile: some leading minor vanishes while the matrix has larger rank
               long t = 0; while (t < N && anynz(colm([&] { W w; w.SetLength(1); w[0] = dt(sub(D, t + 1, t + 1)); return w; }()))) t++; vh::check(t < N, "matrix with generic rank profile refused"); bool more = false;
               for (long i = t; i < m && !more; i++) for (long j = t; j < n && !more; j++) { M b2; b2.SetDims(t + 1, t + 1); for (long a = 0; a <= t; a++) for (long c = 0; c <= t; c++) b2[a][c] = D[a == t ? i : a][c == t ? j : c]; M one; one.SetDims(1, 1); one[0][0] = dt(b2); more = anynz(one); } vh::check(more, "matrix with generic rank profile refused"); }
            return;
         }
         run(S, D, op, false); }
   } else if (k == "mh") { Vec<Vec<hankel_lzz_p> > bl; M D; mosaic(op, true, bl, D); mosops<mosaic_hankel_lzz_p, hankel_like_minus_lzz_p>(mosaic_hankel_lzz_p(bl), D, op, true); }
   else if (k == "mt") { Vec<Vec<toeplitz_lzz_p> > bl; M D; mosaic(op, false, bl, D); mosops<mosaic_toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(mosaic_toeplitz_lzz_p(bl), D, op, false); }
   else if (k == "sylv") {
      long da = vh::arg("da", 2), db = vh::arg("db", 1); n = da + db; zz_pX A = vh::poly(da + 1), B = vh::poly(db + 1); vh::assume_nz(vh::coefx(A, da)); vh::assume_nz(vh::coefx(B, db));
      if (vh::arg("root", 0)) { zz_pX l; SetCoeff(l, 1); SetCoeff(l, 0, vh::rnd1()); A = vh::ref_mul(A, l); B = vh::ref_mul(B, l); da++; db++; n += 2; }
      M D; D.SetDims(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = vh::coefx(A, j); for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = vh::coefx(B, j);
      sylvester_lzz_p S(A, B); if (vh::arg("prep", 0)) S.prepare_inverse(); bool solving = op.find("solve") != std::string::npos || op == "inv" || op == "block"; zz_p det = solving ? dt(D) : to_zz_p(0); M id; id.SetDims(n, n); for (long i = 0; i < n; i++) id[i][i] = to_zz_p(1);
      if (op == "gens") { M G, H; S.phi_plus_generators(G, H); vh::eq(vh::ref_mul(G, tr(H)), phi(D, false, true), "displacement generators"); vh::obs(G); vh::obs(H); return; }
      if (op == "solve" || op == "solvem" || op == "tsolve" || op == "tsolvem") {
         bool t = op[0] == 't', mm = op[op.size() - 1] == 'm'; long r; M lhs, rhs; bool a2 = vh::arg("alias", 0);
         if (!mm) { W b = vh::vec(n), b0 = b, x; if (vh::arg("stale", 0)) x = vh::rvec(n + 1); W& X = a2 ? b : x; r = t ? S.solve_transpose(X, b) : S.solve(X, b); if (r == 1) { vh::check(X.length() == n, "length"); lhs = t ? vh::ref_mul(rowm(X), D) : vh::ref_mul(D, colm(X)); rhs = t ? rowm(b0) : colm(b0); vh::obs(X); } }
         else { M b = t ? vh::mat(2, n) : vh::mat(n, 2), b0 = b, x; M& X = a2 ? b : x; r = t ? S.solve_transpose(X, b) : S.solve(X, b); if (r == 1) { lhs = t ? vh::ref_mul(X, D) : vh::ref_mul(D, X); rhs = b0; vh::obs(X); } }
         vh::check(r == 0 || r == 1, "status"); if (r == 1) vh::eq(lhs, rhs, "solution"); else vh::eq(det, to_zz_p(0), "invertible matrix refused"); vh::obs(r); return;
      }
      if (op == "inv") { toeplitz_like_minus_lzz_p R; long r = S.inv(R); vh::check(r == 0 || r == 1, "status"); if (r == 1) { vh::eq(vh::ref_mul(R.to_dense(), D), id, "inverse"); } else vh::eq(det, to_zz_p(0), "invertible matrix refused"); vh::obs(r); return; }
      if (op == "block") { long s = vh::arg("s", 1); M b; long r = S.top_right_block_inverse(b, s); if (r == 1) { vh::check(b.NumRows() == s && b.NumCols() == s, "dimensions of the block"); vh::nonzero(det, "singular matrix accepted");
            for (long i = 0; i < s; i++) for (long j = 0; j < s; j++) { long R = n - s + j; M c; c.SetDims(n - 1, n - 1); for (long a = 0, x = 0; a < n; a++) if (a != R) { for (long e = 0, y = 0; e < n; e++) if (e != i) c[x][y++] = D[a][e]; x++; } zz_p cof = n == 1 ? to_zz_p(1) : dt(c); if ((i + R) & 1) cof = -cof; vh::eq(b[i][j] * det, cof, "block of the inverse"); } vh::obs(b); }
         else vh::eq(det, to_zz_p(0), "invertible matrix refused"); return; }
      run(S, D, op, true);
   } else if (k == "small") { // Z, J, diagonal, window clear
      if (op == "Z") { zz_p c = vh::coef(); M z = Z_lzz_p(n, c), w = zmat(n, 0); w[0][n - 1] = n == 1 ? c : c; vh::eq(z, w, "Z matrix"); }
      else if (op == "J") { M z = J_lzz_p(n), w; w.SetDims(n, n); for (long i = 0; i < n; i++) w[i][n - 1 - i] = to_zz_p(1); vh::eq(z, w, "J matrix"); }
      else if (op == "diag") { W d = vh::vec(n); M w; w.SetDims(n, n); for (long i = 0; i < n; i++) w[i][i] = d[i]; vh::eq(diagonal_matrix(d), w, "diagonal matrix"); }
      else { M a = vh::mat(m, n), w = a; long r = vh::symint(0, m), c = vh::symint(0, n), h = vh::symint(0, m + 1), l = vh::symint(0, n + 1); clear(a, r, c, h, l); for (long i = r; i < m && i < r + h; i++) for (long j = c; j < n && j < c + l; j++) w[i][j] = to_zz_p(0); vh::eq(a, w, "cleared window"); vh::obs(a); }
   } else vh::check(false, "unknown case");
}
