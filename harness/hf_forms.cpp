// flint-extras: shifted degrees, pivots, degree and leading matrices, form predicates; the four orientations.
#include "vf.h"
#include "nmod_poly_mat_forms.h"
// every orientation is brought to row-wise lower by transposing and by reversing the order of rows and columns
static bool echelon(const PMat& w) // row-wise lower
{
   long last = -2; for (long i = 0; i < w.NumRows(); i++) { long q = -1; for (long j = 0; j < w.NumCols(); j++) if (!vh::iszero(w[i][j])) q = j; if (q < 0 ? last >= 0 : q <= last) return false; last = q; }
   return true;
}
static bool hermite(const PMat& w) // row-wise lower
{
   if (!echelon(w)) return false;
   for (long i = 0; i < w.NumRows(); i++) { long q = -1; for (long j = 0; j < w.NumCols(); j++) if (deg(w[i][j]) >= 0) q = j; if (q < 0) return false; if (!IsOne(vh::coefx(w[i][q], deg(w[i][q])))) return false; for (long k = i + 1; k < w.NumRows(); k++) if (deg(w[k][q]) >= deg(w[i][q])) return false; }
   return true;
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""); long m = vh::arg("m", 2), n = vh::arg("n", 2), len = vh::arg("len", 2); orientation_t o = (orientation_t) vh::arg("orient", 3);
   bool col = o == COL_UPPER || o == COL_LOWER, mir = o == ROW_UPPER || o == COL_LOWER; long sh = vh::arg("shift", -1);
   PMat a = vh::pmat(m, n, len); long zr = vh::arg("zr", -1); if (zr >= 0) for (long j = 0; j < (col ? m : n); j++) clear(col ? a[j][zr] : a[zr][j]);
   vf::P A(a); const PMat a0 = a; 
   PMat w = col ? ref::transp(a) : a; long r = w.NumRows(), c = w.NumCols(); VL s0 = sh < 0 ? ref::zeros(c) : ref::shift(sh, c), s = s0; const slong* S = sh < 0 ? nullptr : s0.data();
   for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) w[i][j].normalize();
   if (mir) { w = vf::rev(w, true, true); s = vf::rev(s); }
   VL R(r + 1, 77), D(r + 1, 77);
   auto nzrows = [&] { long t = 0; for (long i = 0; i < r; i++) { bool nz = false; for (long j = 0; j < c; j++) nz |= deg(w[i][j]) >= 0; t += nz; } return t; };
   if (k == "degree" || k == "degree0") {
      bool z = k == "degree0"; ulong x = col ? (z ? nmod_poly_mat_column_degree_zero(R.data(), A, S) : nmod_poly_mat_column_degree(R.data(), A, S)) : (z ? nmod_poly_mat_row_degree_zero(R.data(), A, S) : nmod_poly_mat_row_degree(R.data(), A, S));
      VL e = ref::rdeg(w, s); if (z) for (long& y : e) y = std::max(y, ref::smin(s)); if (mir) e = vf::rev(e); e.push_back(77); ref::eqv(R, e, "shifted degree"); vh::eq((long) x, nzrows(), "number of nonzero rows or columns");
   } else if (k == "pivind" || k == "pivprof") {
      VL ei, ed; ref::pivots(ei, ed, w, s); ulong x = k == "pivind" ? nmod_poly_mat_pivot_index(R.data(), A, S, o) : nmod_poly_mat_pivot_profile(R.data(), D.data(), A, S, o);
      if (mir) { ei = vf::rev(ei); ed = vf::rev(ed); for (long& y : ei) y = c - 1 - y; } ei.push_back(77); ed.push_back(77);
      ref::eqv(R, ei, "pivot index"); if (k != "pivind") ref::eqv(D, ed, "pivot degree"); vh::eq((long) x, nzrows(), "number of nonzero rows or columns");
   } else if (k == "vecpiv") { // vector version, on the first row
      VL ei, ed; ref::pivots(ei, ed, w, s); long q = mir ? r - 1 : 0; PMat v; v.SetDims(1, c); for (long j = 0; j < c; j++) v[0][j] = w[q][mir ? c - 1 - j : j]; vf::P V(v); slong pi = 77, pd = 77; ulong x = _nmod_poly_vec_pivot_profile(&pi, &pd, nmod_poly_mat_entry(V.m, 0, 0), S, c, o);
      vh::eq(pi, mir ? c - 1 - ei[q] : ei[q], "pivot index of a vector"); vh::eq(pd, ed[q], "pivot degree of a vector"); vh::eq((long) x, ed[q] >= 0, "zero vector"); vh::obs(pi); vh::obs(pd);
   } else if (k == "echind" || k == "echprof") {
      if (k == "echind") nmod_poly_mat_echelon_pivot_index(R.data(), A, o); else nmod_poly_mat_echelon_pivot_profile(R.data(), D.data(), A, o);
      VL ei(r, -1), ed(r, -1); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) if (deg(w[i][j]) >= 0) { ei[i] = j; ed[i] = deg(w[i][j]); }
      if (mir) { ei = vf::rev(ei); ed = vf::rev(ed); for (long& y : ei) y = c - 1 - y; } ei.push_back(77); ed.push_back(77); ref::eqv(R, ei, "echelon pivot index"); if (k == "echprof") ref::eqv(D, ed, "echelon pivot degree");
   } else if (k == "degmat") {
      fmpz_mat_t g; fmpz_mat_init(g, m, n); if (vh::arg("plain", 0)) nmod_poly_mat_degree_matrix(g, A); else nmod_poly_mat_degree_matrix_shifted(g, A, S, o);
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { long e = deg(a[i][j]) + (vh::arg("plain", 0) ? 0 : s0[col ? i : j]); vh::eq(*fmpz_mat_entry(g, i, j), e, "degree matrix"); vh::obs(e); } fmpz_mat_clear(g);
   } else if (k == "lmat") {
      vf::M L(vh::rmat(m, n)); nmod_poly_mat_leading_matrix(L, A, S, o); Mat<zz_p> e = ref::lmat(w, s), f; f.SetDims(r, c); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) f[i][j] = e[mir ? r - 1 - i : i][mir ? c - 1 - j : j]; if (col) f = ref::transp(f);
      Mat<zz_p> g = vf::get(L); vh::eq(g, f, "leading matrix"); vh::obs(g);
   } else if (k == "form") {
      long f = vh::arg("form", 0); bool e = f <= 4 ? ref::form(f, w, s) : f == 5 ? echelon(w) : hermite(w); int x;
      if (vh::arg("via", 0)) x = nmod_poly_mat_is_form(A, (poly_mat_form_t) f, S, o); else switch (f) { case 1: x = nmod_poly_mat_is_reduced(A, S, o); break; case 2: x = nmod_poly_mat_is_weak_popov(A, S, o); break; case 3: x = nmod_poly_mat_is_ordered_weak_popov(A, S, o); break; case 4: x = nmod_poly_mat_is_popov(A, S, o); break; case 5: x = nmod_poly_mat_is_echelon(A, o); break; case 6: x = nmod_poly_mat_is_hermite(A, o); break; default: x = 1; }
      vh::check((x != 0) == e, "form predicate disagrees with its definition"); vh::obs(x != 0);
   } else vh::check(false, "unknown case");
   vh::eq(vf::get(A.m), a0, "input changed");
}
