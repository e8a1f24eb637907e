// flint-extras: constant matrices (PLUQ, nullspaces, products, rotations, permutations), matrix polynomials and
// conversions, row and column operations on polynomial matrices.
#include "vf.h"
#include "nmod_mat_extra.h"
#include "nmod_mat_poly.h"
#include "nmod_poly_mat_utils.h"
typedef Mat<zz_p> CM;
static VL iota(long n, long o = 0) { VL v(n); for (long i = 0; i < n; i++) v[i] = i + o; return v; }
static VL perm(long n, long k) { VL v = iota(n), r; while (!v.empty()) { long i = k % v.size(); k /= v.size(); r.push_back(v[i]); v.erase(v.begin() + i); } return r; }
static long nz(const CM& a) { long t = 0; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) t += !IsZero(a[i][j]); return t; }
// row rank profile, by independent elimination
static VL rrp(CM a)
{
   VL r; long m = a.NumRows(), n = a.NumCols(); std::vector<std::pair<long, Vec<zz_p>>> piv;
   for (long i = 0; i < m; i++) {
      Vec<zz_p> v = a[i]; for (auto& q : piv) { zz_p t = v[q.first]; for (long j = 0; j < n; j++) v[j] -= t * q.second[j]; }
      long j = 0; while (j < n && IsZero(v[j])) j++; if (j == n) continue;
      zz_p t = inv(v[j]); for (long k = 0; k < n; k++) v[k] *= t; piv.push_back({j, v}); r.push_back(i);
   }
   return r;
}
// matrix polynomials
struct MP {
   nmod_mat_poly_t m;
   MP(long r, long c, long pre = 0) { nmod_mat_poly_init(m, r, c, vf::p()); for (long k = 0; k < pre; k++) junk(pre); }
   void junk(long len) { nmod_mat_poly_fit_length(m, len); _nmod_mat_poly_set_length(m, len); for (long k = 0; k < len; k++) for (long i = 0; i < m->r; i++) for (long j = 0; j < m->c; j++) nmod_mat_poly_entry(m, k, i, j) = vf::w(vh::rnd1()); }
   void put(const PMat& a) { long d = 0; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) d = std::max(d, deg(a[i][j]) + 1); nmod_mat_poly_fit_length(m, d); _nmod_mat_poly_set_length(m, d); for (long k = 0; k < d; k++) for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) nmod_mat_poly_entry(m, k, i, j) = vf::w(coeff(a[i][j], k)); }
   ~MP() { nmod_mat_poly_clear(m); } MP(const MP&) = delete;
   PMat get() const { PMat a; a.SetDims(m->r, m->c); vh::check(m->length <= m->alloc && m->length >= 0, "length of a matrix polynomial"); bool top = m->length == 0; for (long i = 0; i < m->r; i++) for (long j = 0; j < m->c; j++) { a[i][j].rep.SetLength(m->length); for (long k = 0; k < m->length; k++) a[i][j].rep[k] = vf::get(nmod_mat_poly_entry(m, k, i, j)); if (m->length) top |= !IsZero(a[i][j].rep[m->length - 1]); a[i][j].normalize(); } vh::check(top || m->r * m->c == 0, "matrix polynomial not normalised"); return a; }
};
static void const_cases(const std::string& k, long m, long n)
{
   CM a = vh::mat(m, n), a0 = a; long dup = vh::arg("dup", -1); if (dup >= 0) { for (long j = 0; j < n; j++) a[dup + 1][j] = a[dup][j]; a0 = a; } long zr = vh::arg("zr", -1); if (zr >= 0) { for (long j = 0; j < n; j++) clear(a[zr][j]); a0 = a; }
   vf::M A(a);
   if (k == "pluq") {
      VL P = iota(m), Q = iota(n); long r = nmod_mat_pluq(A, P.data(), Q.data()); CM lu = vf::get(A); VL e = rrp(a0);
      vh::eq(r, e.size(), "rank"); VL q = P; std::sort(q.begin(), q.end()); ref::eqv(q, iota(m), "row permutation"); q = Q; std::sort(q.begin(), q.end()); ref::eqv(q, iota(n), "column permutation");
      for (long i = 0; i < m; i++) if (std::find(e.begin(), e.end(), i) == e.end()) e.push_back(i); ref::eqv(P, e, "row rank profile");
      CM L, U; L.SetDims(m, m); U.SetDims(m, n); for (long i = 0; i < m; i++) { for (long j = 0; j < std::min(i, r); j++) L[i][j] = lu[i][j]; set(L[i][i]); } for (long i = 0; i < r; i++) for (long j = i; j < n; j++) U[i][j] = lu[i][j];
      CM pa; pa.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) pa[i][j] = a0[P[i]][Q[j]]; vh::eq(vh::ref_mul(L, U), pa, "P L U Q = A"); for (long i = 0; i < r; i++) vh::nonzero(U[i][i], "pivots of U"); vh::obs(lu);
      for (long i = r; i < m; i++) for (long j = r; j < n; j++) vh::eq(lu[i][j], zz_p(0), "trailing block is zero");
      for (long var = 0; var < 3; var++) { // expansion into L and U
         vf::M LU(lu), X(vh::rmat(m, m)), Y(vh::rmat(m, n)); if (var == 1) { nmod_mat_zero(X); nmod_mat_zero(Y); }
         if (var == 0) nmod_mat_l_u_from_compactlu(X, Y, LU, r); else if (var == 1) _nmod_mat_l_u_from_compactlu_zeroin(X, Y, LU, r); else nmod_mat_l_u_from_compactlu(X, LU, LU, r);
         vh::eq(vf::get(X), L, "L of the compact LU"); vh::eq(vf::get(var == 2 ? LU : Y), U, "U of the compact LU");
      }
   } else if (k == "null" || k == "nullc") {
      VL pe(m + 1, 77); nmod_mat_t X; long c = k == "null" ? nmod_mat_left_nullspace(X, A) : nmod_mat_left_nullspace_compact(X, pe.data(), A); VL e = rrp(a0); long r = e.size(); vh::eq(c, m - r, "nullity"); for (long i = 0; i < m; i++) if (std::find(e.begin(), e.end(), i) == e.end()) e.push_back(i);
      CM x = vf::get(X), y; nmod_mat_clear(X); 
      if (k == "nullc") { pe.pop_back(); ref::eqv(pe, e, "pivot and nonpivot columns"); vh::eq(x.NumRows(), c, "rows"); vh::eq(x.NumCols(), r, "columns"); y.SetDims(c, m); for (long i = 0; i < c; i++) { for (long j = 0; j < r; j++) y[i][e[j]] = x[i][j]; set(y[i][e[r + i]]); } } else y = x;
      vh::eq(y.NumRows(), c, "rows"); vh::eq(y.NumCols(), m, "columns");
      for (long i = 0; i < c; i++) for (long j = 0; j < m; j++) if (j > e[r + i] || std::find(e.begin() + r, e.end(), j) != e.end()) vh::eq(y[i][j], zz_p(j == e[r + i]), "reduced row echelon form"); CM z; z.SetDims(c, n); vh::eq(vh::ref_mul(y, a0), z, "left nullspace"); vh::obs(y); vh::eq(vf::get(A), a0, "input changed");
   } else if (k == "mul" || k == "mulv" || k == "mulp") {
      long q = vh::arg("q", 2); CM b = vh::mat(n, q); vf::M B(b), C(vh::rmat(m, q));
      if (k == "mulv") { std::vector<ulong> u(n), v(m + 1); for (long i = 0; i < n; i++) u[i] = vf::w(b[i][0]); v[m] = 7; nmod_mat_mul_nmod_vec_newdot(v.data(), A, u.data(), n); CM e = vh::ref_mul(a, b); for (long i = 0; i < m; i++) vh::eq(vf::get(v[i]), e[i][0], "matrix-vector product"); }
      else { long al = vh::arg("alias", 0); nmod_mat_struct* R = al == 1 ? A.m : al == 2 ? B.m : C.m; if (k == "mulp") nmod_mat_mul_pml(R, A, B); else nmod_mat_mul_newdot(R, A, B); vh::eq(vf::get(R), vh::ref_mul(a, b), "matrix product"); vh::obs(vf::get(R)); }
   } else if (k == "rot") { // rotations of rows or columns
      long op = vh::arg("op", 0), nn = op < 2 ? m : n; for (long i = 0; i < nn; i++) for (long j = i; j < nn; j++) for (long nov = 0; nov < 2; nov++) {
         vf::M B(a); VL v = iota(nn, 5), w = v; CM e = a; if (op % 2 == 0) { w[i] = v[j]; for (long t = i + 1; t <= j; t++) w[t] = v[t - 1]; } else { w[j] = v[i]; for (long t = i; t < j; t++) w[t] = v[t + 1]; }
         for (long x = 0; x < m; x++) for (long y = 0; y < n; y++) e[x][y] = a[op < 2 ? w[x] - 5 : x][op < 2 ? y : w[y] - 5];
         slong* V = nov ? nullptr : v.data(); switch (op) { case 0: _nmod_mat_rotate_rows_downward(B, V, i, j); break; case 1: _nmod_mat_rotate_rows_upward(B, V, i, j); break; case 2: _nmod_mat_rotate_columns_rightward(B, V, i, j); break; case 3: _nmod_mat_rotate_columns_leftward(B, V, i, j); break; }
         vh::eq(vf::get(B), e, "rotation of a matrix"); if (!nov) ref::eqv(v, w, "rotation of the vector"); }
   } else if (k == "permc") { // column permutation
      VL P = perm(n, vh::arg("perm", 0)), S = perm(n, vh::arg("store", 3)), T(n); for (long j = 0; j < n; j++) T[j] = S[P[j]]; nmod_mat_permute_columns(A, P.data(), vh::arg("nostore", 0) ? nullptr : S.data()); CM e = a; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) e[i][j] = a[i][P[j]]; vh::eq(vf::get(A), e, "permuted columns"); if (!vh::arg("nostore", 0)) ref::eqv(S, T, "stored permutation");
   } else vh::check(false, "unknown case");
}
static void matpoly_cases(const std::string& k, long m, long n)
{
   long len = vh::arg("len", 2), pre = vh::arg("pre", 0), al = vh::arg("alias", 0); PMat a = vh::pmat(m, n, len); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { vh::iszero(a[i][j]); a[i][j].normalize(); } long d = 0; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) d = std::max(d, deg(a[i][j]) + 1);
   MP A(m, n); A.put(a); vf::P B(a); MP C(m, n, pre);
   if (k == "mpset") { nmod_mat_poly_set(al ? A.m : C.m, A.m); vh::eq((al ? A : C).get(), a, "copy"); vh::eq(nmod_mat_poly_degree(A.m), d - 1, "degree"); vh::eq(nmod_mat_poly_is_zero(A.m), d == 0, "is_zero"); vh::eq(nmod_mat_poly_is_constant(A.m), d <= 1, "is_constant"); bool one = d == 1; for (long i = 0; i < m && one; i++) for (long j = 0; j < n; j++) one = one && coeff(a[i][j], 0) == zz_p(i == j); vh::eq(nmod_mat_poly_is_one(A.m) != 0, one, "is_one"); vf::M c(m, n); for (long q = 0; q < d + 2; q++) { nmod_mat_poly_get_coeff(c, A.m, q); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(vf::get(nmod_mat_entry(c.m, i, j)), coeff(a[i][j], q), "coefficient"); } }
   else if (k == "mpone") { if (vh::arg("zero", 0)) nmod_mat_poly_zero(C.m); else nmod_mat_poly_one(C.m); PMat e; e.SetDims(m, n); if (!vh::arg("zero", 0)) for (long i = 0; i < std::min(m, n); i++) SetCoeff(e[i][i], 0); vh::eq(C.get(), e, "zero or one"); }
   else if (k == "mptrunc") { long o = vh::arg("o", 1); if (vh::arg("realloc", 0)) nmod_mat_poly_realloc(A.m, o); else nmod_mat_poly_truncate(A.m, o); vh::eq(A.get(), vh::ref_trunc(a, o), "truncation"); }
   else if (k == "mpshift") { long o = vh::arg("o", 1); nmod_mat_poly_shift_left(al ? A.m : C.m, A.m, o); PMat e = a; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) LeftShift(e[i][j], a[i][j], o); vh::eq((al ? A : C).get(), e, "left shift"); }
   else if (k == "mpfrom") { long o = vh::arg("o", -1); if (o < 0) nmod_mat_poly_set_from_poly_mat(C.m, B); else nmod_mat_poly_set_trunc_from_poly_mat(C.m, B, o); vh::eq(C.get(), o < 0 ? a : vh::ref_trunc(a, o), "matrix polynomial of a polynomial matrix"); }
   else if (k == "mpto") { long o = vh::arg("o", -1); vf::P D(m, n); if (pre) D.put(vh::rpmat(m, n, pre)); if (o < 0) nmod_poly_mat_set_from_mat_poly(D, A.m); else nmod_poly_mat_set_trunc_from_mat_poly(D, A.m, o); vh::eq(vf::get(D.m), o < 0 ? a : vh::ref_trunc(a, o), "polynomial matrix of a matrix polynomial"); }
   else if (k == "mpfromc") { CM c = vh::mat(m, n); vf::M K(c); PMat e; e.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) SetCoeff(e[i][j], 0, c[i][j]); if (vh::arg("init", 0)) { MP D(0, 0); nmod_mat_poly_clear(D.m); nmod_mat_poly_init_set_from_nmod_mat(D.m, K); vh::eq(D.get(), e, "constant matrix polynomial"); } else { nmod_mat_poly_set_from_nmod_mat(C.m, K); vh::eq(C.get(), e, "constant matrix polynomial"); } }
   else if (k == "mpcoeff") { long q = vh::arg("q", 2), lb = vh::arg("lb", 2); PMat b = vh::pmat(n, q, lb); for (long i = 0; i < n; i++) for (long j = 0; j < q; j++) { vh::iszero(b[i][j]); b[i][j].normalize(); } MP D(n, q); D.put(b); PMat c = vh::ref_mul(a, b); for (long t = 0; t < len + lb + 1; t++) { vf::M K(vh::rmat(m, q)); nmod_mat_poly_mul_coeff(K, A.m, D.m, t); for (long i = 0; i < m; i++) for (long j = 0; j < q; j++) vh::eq(vf::get(nmod_mat_entry(K.m, i, j)), coeff(c[i][j], t), "coefficient of the product"); } }
   else if (k == "mpeval") { zz_p x = vh::arg("x0", 0) ? zz_p(0) : vh::sym(); vf::M K(vh::rmat(m, n)); nmod_mat_poly_evaluate_nmod(K, A.m, vf::w(x)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(vf::get(nmod_mat_entry(K.m, i, j)), vh::ref_eval(a[i][j], x), "value"); }
   else if (k == "mpperm") { VL P = perm(m, vh::arg("perm", 0)), S = perm(m, vh::arg("store", 3)), T(m); for (long j = 0; j < m; j++) T[j] = S[P[j]]; nmod_mat_poly_permute_rows(A.m, P.data(), S.data()); PMat e = a; for (long i = 0; i < m; i++) e[i] = a[P[i]]; vh::eq(A.get(), e, "permuted rows"); ref::eqv(S, T, "stored permutation"); }
   else vh::check(false, "unknown case");
   if (!al && k != "mptrunc" && k != "mpperm") { vh::eq(A.get(), a, "input changed"); vh::eq(vf::get(B.m), a, "input changed"); }
}
static void polymat_cases(const std::string& k, long m, long n)
{
   long len = vh::arg("len", 2); PMat a = vh::pmat(m, n, len), e = a; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { vh::iszero(a[i][j]); a[i][j].normalize(); } e = a; vf::P A(a); long cw = vh::arg("col", 0), nn = cw ? n : m; VL v = iota(nn, 5), w = v; bool nov = vh::arg("nostore", 0); slong* V = nov ? nullptr : v.data();
   auto act = [&](const VL& p) { for (long x = 0; x < m; x++) for (long y = 0; y < n; y++) e[x][y] = a[cw ? x : p[x]][cw ? p[y] : y]; };
   if (k == "pswap") for (long r = 0; r < nn; r++) for (long s = 0; s < nn; s++) { vf::P B(a); v = w = iota(nn, 5); std::swap(w[r], w[s]); VL p = w; for (long& x : p) x -= 5; act(p); if (cw) nmod_poly_mat_swap_columns(B, V, r, s); else nmod_poly_mat_swap_rows(B, V, r, s); vh::eq(vf::get(B.m), e, "swap"); if (!nov) ref::eqv(v, w, "swapped vector"); }
   else if (k == "pinv") { w = vf::rev(w); VL p = w; for (long& x : p) x -= 5; act(p); if (cw) nmod_poly_mat_invert_columns(A, V); else nmod_poly_mat_invert_rows(A, V); vh::eq(vf::get(A.m), e, "inverted order"); if (!nov) ref::eqv(v, w, "inverted vector"); }
   else if (k == "pperm") { VL p = perm(nn, vh::arg("perm", 0)), s = perm(nn, vh::arg("store", 1)), t(nn); for (long i = 0; i < nn; i++) t[i] = s[p[i]]; act(p); slong* S = nov ? nullptr : s.data(); if (cw) nmod_poly_mat_permute_columns(A, p.data(), S); else nmod_poly_mat_permute_rows(A, p.data(), S); vh::eq(vf::get(A.m), e, "permutation"); if (!nov) ref::eqv(s, t, "stored permutation"); }
   else if (k == "prot") for (long up = 0; up < 2; up++) for (long i = 0; i < m; i++) for (long j = i; j < m; j++) { vf::P B(a); v = w = iota(nn, 5); if (!up) { w[i] = v[j]; for (long t = i + 1; t <= j; t++) w[t] = v[t - 1]; } else { w[j] = v[i]; for (long t = i; t < j; t++) w[t] = v[t + 1]; } VL p = w; for (long& x : p) x -= 5; act(p); if (up) _nmod_poly_mat_rotate_rows_upward(B, V, i, j); else _nmod_poly_mat_rotate_rows_downward(B, V, i, j); vh::eq(vf::get(B.m), e, "rotation"); if (!nov) ref::eqv(v, w, "rotated vector"); }
   else if (k == "psort") { long r = vh::arg("r", nn), code = vh::arg("vec", 0); VL x(nn), q(nn, 77); for (long i = 0; i < nn; i++) { x[i] = code % 3 - 1; code /= 3; } VL x0 = x, p = iota(nn); std::stable_sort(p.begin(), p.begin() + r, [&](long i, long j) { return x0[i] < x0[j]; }); act(p); if (cw) _nmod_poly_mat_permute_columns_by_sorting_vec(A, r, x.data(), q.data()); else _nmod_poly_mat_permute_rows_by_sorting_vec(A, r, x.data(), q.data()); vh::eq(vf::get(A.m), e, "rows or columns permuted by sorting"); ref::eqv(q, p, "sorting permutation"); for (long i = 0; i < nn; i++) vh::eq(x[i], x0[p[i]], "sorted vector"); }
   else if (k == "punim") { bool u = m == n; if (u) { zz_pX d = vh::ref_det(a); for (long i = 1; i <= deg(d); i++) u = u && IsZero(coeff(d, i)); u = u && !IsZero(coeff(d, 0)); } vh::eq(nmod_poly_mat_is_unimodular(A) != 0, u, "unimodular"); vh::obs(u); }
   else vh::check(false, "unknown case");
}
void harness()
{
   vh::init(); std::string k = vh::sarg("case", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2);
   if (k.compare(0, 2, "mp") == 0) matpoly_cases(k, m, n); else if (k[0] == 'p' && k != "pluq" && k != "permc") polymat_cases(k, m, n); else const_cases(k, m, n);
}
