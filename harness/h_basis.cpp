// Approximant, interpolant and kernel bases, and the predicates that verify them.
#include "vh.h"
#include "ref_forms.h"
#include "ref_basis.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_interpolant.h"
#include "mat_lzz_pX_kernel.h"
PML_CLIENT
static Image interp(const Vec<Mat<zz_p>>& ev, const Vec<zz_p>& pts)
{
   return [ev, pts](long i, long t) { Vec<zz_p> v; long n = ev[0].NumCols(); v.SetLength(n * pts.length()); long u = 0;
      for (long k = 0; k < pts.length(); k++) { zz_p x = power(pts[k], t); for (long j = 0; j < n; j++) v[u++] = x * ev[k][i][j]; } return v; };
}
static void obs_all(const PMat& P, const VL& s) { for (long x : s) vh::obs(x); vh::obs(P); }
static PMat col2(const zz_pX& a, const zz_pX& b) { PMat f; f.SetDims(2, 1); f[0][0] = a; f[1][0] = b; return f; }
static PMat sq2(const zz_pX& a, const zz_pX& b, const zz_pX& c, const zz_pX& d) { PMat f; f.SetDims(2, 2); f[0][0] = a; f[0][1] = b; f[1][0] = c; f[1][1] = d; return f; }
static PMat expand(const Mat<zz_p>& ker, const VL& piv, long m) // the basis described by mbasis1
{
   PMat P; P.SetDims(m, m); long r = 0;
   vh::check((long) piv.size() == m, "length of the pivot degree"); long z = 0; for (long x : piv) { vh::check(x == 0 || x == 1, "pivot degree"); z += x == 0; }
   vh::check(ker.NumRows() == z && (z == 0 || ker.NumCols() == m), "dimensions of the kernel rows");
   for (long i = 0; i < m; i++) if (piv[i]) SetCoeff(P[i][i], 1); else { for (long j = 0; j < m; j++) SetCoeff(P[i][j], 0, ker[r][j]); r++; }
   return P;
}
// zero patterns: a constant term in anti-triangular shape, or coefficients dropped pseudo-randomly
static PMat thin(PMat F)
{
   long m = F.NumRows(), n = F.NumCols(), sd = vh::arg("sparse", 0);
   if (vh::arg("anti", 0)) for (long i = 0; i < m; i++) for (long j = 0; j < std::min(m - 1 - i, n - 1); j++) F[i][j] = F[i][j] - vh::coefx(F[i][j], 0);
   if (sd) { unsigned long x = sd * 2654435761UL + 12345; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { zz_pX g; for (long k = 0; k < vh::arg("len", 3); k++) { x = x * 6364136223846793005UL + 1442695040888963407UL; if ((x >> 33) % 3 == 0) SetCoeff(g, k, vh::coefx(F[i][j], k)); } F[i][j] = g; } }
   return F;
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""), op = vh::sarg("op", "");
   long m = vh::arg("m", 2), n = vh::arg("n", 1), len = vh::arg("len", 3), sh = vh::arg("shift", 0), o = vh::arg("order", 3), th = vh::arg("thresh", 2), zc = vh::arg("zc", -1);
   VL s = ref::shift(sh, m), so = s; PMat P; if (vh::arg("stale", 0)) { P.SetDims(1, 3); P[0][1] = vh::rpoly(4); }
   if (k == "app") {
      PMat F = thin(vh::pmat(m, n, len)); if (zc >= 0) for (long i = 0; i < m; i++) clear(F[i][zc]); VL ord(n, o); bool popov = false, mod1 = false;
      if (vh::arg("dep", 0)) for (long j = 0; j < n; j++) F[m - 1][j] = F[0][j]; // dependent rows
      if (vh::arg("uneven", 0)) for (long j = 0; j < n; j++) ord[j] = 1 + (o + 2 * j) % (o + 1);
      if (op == "iter") appbas_iterative(P, F, ord, so, vh::arg("ow", 1)); else if (op == "popiter") { popov_appbas_iterative(P, F, ord, so, vh::arg("ow", 1)); popov = true; }
      else if (op == "general") approximant_basis(P, so, F, ord, s, ORD_WEAK_POPOV); else if (op == "genpopov") { approximant_basis(P, so, F, ord, s, POPOV); popov = true; }
      else if (op == "plain") mbasis_plain(P, F, o, so); else if (op == "rescomp") mbasis_rescomp(P, F, o, so); else if (op == "resupdate") mbasis_resupdate(P, F, o, so); else if (op == "mbasis") mbasis(P, F, o, so);
      else if (op == "popmbasis") { popov_mbasis(P, F, o, so); popov = true; } else if (op == "pmbasis") pmbasis(P, F, o, so); else if (op == "poppmbasis") { popov_pmbasis(P, F, o, so); popov = true; }
      else if (op == "iter21" || op == "pm21") { zz_pX a = F[0][0], b = F[1][0], p0, p1, p2, p3; if (op == "iter21") appbas_iterative_2x1(p0, p1, p2, p3, a, b, o, so[0], so[1]); else pmbasis_2x1(p0, p1, p2, p3, a, b, o, so[0], so[1], th); P = sq2(p0, p1, p2, p3); }
      else if (op == "m1" || op == "popm1") { mod1 = true; Mat<zz_p> c, ker; c.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) c[i][j] = vh::coefx(F[i][j], 0); VL pd = op == "m1" ? mbasis1(ker, c, s) : popov_mbasis1(ker, c, s); popov = op == "popm1"; P = expand(ker, pd, m); for (long i = 0; i < m; i++) so[i] = s[i] + pd[i]; }
      else vh::check(false, "unknown op");
      if (mod1) ord = VL(n, 1);
      basis_of(P, m, s, so, popov, approx(F, ord)); obs_all(P, so);
   } else if (k == "gen") { // algorithms for generic 2n x n input
      PMat F; if (op.find("pade") != std::string::npos) { F = vh::pmat(n, n, len); F.SetDims(n, n); PMat G; G.SetDims(2 * n, n); for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) G[i][j] = F[i][j]; SetCoeff(G[n + i][i], 0, -1); } F = G; } else F = vh::pmat(2 * n, n, len);
      m = 2 * n; s = so = ref::zeros(m);
      // reference basis; generic means pivot degrees ceil(o/2) on top, floor(o/2) below at every order
      PMat R; 
      for (long q = 1; q <= o; q++) { VL t = ref::zeros(m); appbas_iterative(R, F, VL(n, q), t); for (long i = 0; i < m; i++) if (t[i] != (i < n ? (q + 1) / 2 : q / 2)) return; so = t; }
      for (long q = 1; q <= (vh::arg("gencheck", 0) ? o : 0); q++) ;
      PMat D, E, H; H.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) H[i][j] = F[i][j];
      if (op == "rescomp") mbasis_generic_2n_n_rescomp(P, F, o); else if (op == "resupdate") mbasis_generic_2n_n_resupdate(P, F, o); else if (op == "pmbasis") pmbasis_generic_2n_n(P, F, o);
      if (op == "rescomp" || op == "resupdate" || op == "pmbasis") { basis_of(P, m, s, so, false, approx(F, VL(n, o))); obs_all(P, so); return; }
      basis_of(R, m, s, so, false, approx(F, VL(n, o)));
      if (op == "top") { pmbasis_generic_2n_n_top_rows(D, F, o); vh::check(D.NumRows() == n && D.NumCols() == m, "dimensions"); for (long i = 0; i < n; i++) P = R; for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) P[i][j] = D[i][j]; basis_of(P, m, s, so, false, approx(F, VL(n, o))); vh::obs(D); return; }
      bool two = false; if (op == "padeit2") { matrix_pade_generic_iterative(D, E, H, o); two = true; } else if (op == "padeit") matrix_pade_generic_iterative(D, H, o); else if (op == "paderec") { PMat DD; matrix_pade_generic_recursion(DD, H, o); vh::check(DD.NumRows() == m && DD.NumCols() == n, "dimensions"); D.SetDims(n, n); E.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { D[i][j] = DD[i][j]; E[i][j] = DD[n + i][j]; } two = true; } else if (op == "pade") matrix_pade_generic(D, H, o); else vh::check(false, "unknown op");
      // [den | num] completed by num = den * pmat mod x^order is the basis
      vh::check(D.NumRows() == n && D.NumCols() == n, "dimensions of the denominator"); P = R; long dd = (o + 1) / 2;
      PMat N = vh::ref_trunc(vh::ref_mul(D, H), o); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { P[i][j] = D[i][j]; P[i][n + j] = N[i][j]; }
      for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { vh::eq(vh::coefx(D[i][j], dd), to_zz_p(i == j), "denominator not X^dd I + lower terms"); vh::below(D[i][j], dd + 1, "degree of the denominator"); }
      if (two) { N = vh::ref_trunc(vh::ref_mul(E, H), o); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { P[n + i][j] = E[i][j]; P[n + i][n + j] = N[i][j]; } }
      basis_of(P, m, s, so, false, approx(F, VL(n, o))); vh::obs(D);
   } else if (k == "int") {
      Vec<zz_p> pts; pts.SetLength(o); PMat F = thin(vh::pmat(m, n, len)); if (zc >= 0) for (long i = 0; i < m; i++) clear(F[i][zc]);
      if (vh::arg("dep", 0)) for (long j = 0; j < n; j++) F[m - 1][j] = F[0][j];
      bool geo = op.substr(0, 3) == "geo"; zz_p r; 
      if (geo) { element_of_order(r, 2 * o); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < o; i++) { pts[i] = x; x *= q; } } else for (long i = 0; i < o; i++) pts[i] = vh::arg("sympts", 0) ? vh::sym() : to_zz_p(i * i + vh::arg("p0", 0));
      if (vh::arg("sympts", 0)) for (long i = 0; i < o; i++) for (long j = 0; j < i; j++) vh::assume_nz(pts[i] - pts[j]);
      Vec<Mat<zz_p>> ev; ev.SetLength(o); for (long t = 0; t < o; t++) { ev[t].SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) ev[t][i][j] = vh::arg("free", 0) ? vh::coef() : vh::ref_eval(F[i][j], pts[t]); }
      Vec<Mat<zz_p>> e2 = ev; Vec<zz_p> p2 = pts; bool popov = false; long off = vh::arg("off", 0);
      if (off) { Vec<Mat<zz_p>> a; Vec<zz_p> b; a.SetLength(o + off + 1); b.SetLength(o + off + 1); for (long t = 0; t < a.length(); t++) { bool in = t >= off && t < off + o; a[t] = in ? ev[t - off] : ev[0]; b[t] = in ? pts[t - off] : to_zz_p(1000 + t); } e2 = a; p2 = b; }
      if (op == "rescomp") mbasis_rescomp(P, e2, p2, so, off, o); else if (op == "resupdate") mbasis_resupdate(P, e2, p2, so, off, o); else if (op == "mbasis") mbasis(P, e2, p2, so); else if (op == "mbasiso") mbasis(P, e2, p2, so, off, o); else if (op == "popmbasis") { popov_mbasis(P, e2, p2, so); popov = true; }
      else if (op == "pmbasis") pmbasis(P, F, p2, so); else if (op == "poppmbasis") { popov_pmbasis(P, F, p2, so); popov = true; } else if (op == "pmeval") pmbasis(P, e2, p2, so, off, o);
      else if (op == "geo") { Vec<zz_p> q; pmbasis_geometric(P, F, r, o, so, q); vh::eq(q.length(), o, "number of points returned"); pts = q; for (long i = 0; i < o; i++) for (long j = 0; j < i; j++) vh::check(pts[i] != pts[j], "repeated points"); for (long t = 0; t < o; t++) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) ev[t][i][j] = vh::ref_eval(F[i][j], pts[t]); }
      else if (op == "geoev") pmbasis_geometric(P, e2, p2, r, so, off, o); else vh::check(false, "unknown op");
      basis_of(P, m, s, so, popov, interp(ev, pts)); obs_all(P, so);
   } else if (k == "ker") {
      PMat F = thin(vh::pmat(m, n, len)), G, K; if (zc >= 0) for (long i = 0; i < m; i++) clear(F[i][zc]); if (vh::arg("stale", 0)) { K.SetDims(1, 3); K[0][1] = vh::rpoly(4); }
      long dep = vh::arg("dep", 0); if (dep == 1) for (long j = 0; j < n; j++) F[m - 1][j] = F[0][j]; if (dep == 2) for (long j = 0; j < n; j++) F[m - 1][j] = vh::ref_mul(F[0][j], vh::rpoly(2)); if (dep == 3) for (long i = 0; i < m; i++) F[i][n - 1] = vh::ref_mul(F[i][0], vh::rpoly(2));
      G = F; VL piv; bool hp = false, ow = false, hs = true; 
      if (op == "app") { kernel_basis_via_approximation(K, piv, F, so); hp = ow = true; } else if (op == "int") { kernel_basis_via_interpolation(K, piv, F, so); hp = ow = true; }
      else if (op == "zls") kernel_basis_zls_via_approximation(K, G, so); else if (op == "zlsint") kernel_basis_zls_via_interpolation(K, G, so); else if (op == "auto") { kernel_basis(K, F, s); hs = false; } else vh::check(false, "unknown op");
      kernel_of(K, F, s, hs ? &so : 0, hp ? &piv : 0, ow); for (long i = 0; i < K.NumRows(); i++) for (long j = 0; j < K.NumCols(); j++) vh::obs(K[i][j]);
   } else if (k == "kergen") { // [X^d I + A; V] with A n x n, V m x n of degree < d; generic input
      PMat F = vh::pmat(m + n, n, len), G, K; for (long i = 0; i < n; i++) SetCoeff(F[i][i], len, 1);
      G = F; if (len > 1) ident(K, m + n); else if (vh::arg("stale", 0)) { K.SetDims(m + n, m + n); for (long i = 0; i < m + n; i++) for (long j = 0; j < m + n; j++) K[i][j] = vh::rpoly(4); }
      kernel_basis_generic(K, G); s = ref::zeros(m + n);
      if (vh::arg("min", 1)) kernel_of(K, F, s, 0, 0, false);
      else { // a basis of the kernel, not necessarily reduced: the right m x m block has the determinantal degree it has in a minimal basis
         vh::check(K.NumRows() == m && K.NumCols() == m + n, "dimensions of the kernel basis"); vh::zero(vh::ref_mul(K, F), "row not in the kernel"); vh::flush();
         PMat R, A, B; VL pv; kernel_basis_via_approximation(R, pv, F, s); vh::check(R.NumRows() == m, "reference kernel"); A.SetDims(m, m); B.SetDims(m, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { A[i][j] = K[i][n + j]; B[i][j] = R[i][n + j]; }
         zz_pX da = vh::ref_det(A), db = vh::ref_det(B); vh::check(!vh::iszero(da), "dependent rows in the kernel basis"); vh::eq(deg(da), deg(db), "rows do not generate the kernel");
      }
      for (long i = 0; i < K.NumRows(); i++) for (long j = 0; j < K.NumCols(); j++) vh::obs(K[i][j]);
   } else if (k == "popgen") { // Popov approximant basis of generic input, uniform shift
      PMat F = vh::pmat(m, n, len), R; s = so = ref::zeros(m);
      for (long q = 1; q <= o; q++) { VL t = ref::zeros(m); appbas_iterative(R, F, VL(n, q), t); for (long i = 0; i < m; i++) if (t[i] != (n * q) / m + (i < (n * q) % m)) return; so = t; }
      if (op == "pop") popov_pmbasis_generic(P, F, o); else popov_mbasis_rescomp_generic(P, F, o);
      basis_of(P, m, s, so, true, approx(F, VL(n, o))); obs_all(P, so);
   } else if (k == "onecol") { // one column, order a multiple of the number of rows, generic input
      PMat F = vh::pmat(m, 1, len), R; 
      for (long q = m; q <= o; q += m) { VL t = s; popov_appbas_iterative(R, F, VL(1, q), t); for (long i = 0; i < m; i++) if (t[i] != s[i] + q / m) return; so = t; }
      VL pd = op == "mb" ? mbasis_generic_onecolumn(P, F, o, s) : pmbasis_generic_onecolumn(P, F, o, s); vh::check((long) pd.size() == m, "length of the pivot degree"); for (long i = 0; i < m; i++) vh::check(pd[i] == o / m, "pivot degree");
      basis_of(P, m, s, so, vh::arg("popov", 0), approx(F, VL(1, o))); obs_all(P, so);
   } else if (k == "isapp" || k == "isint" || k == "isker") {
      // a right basis is accepted; a damaged one is refused
      PMat F = vh::pmat(m, n, len); VL t = s; VL ord(n, o); long dmg = vh::arg("dmg", 0), row = vh::arg("row", 0); PolMatForm form = (PolMatForm) vh::arg("form", 2); bool ok;
      if (vh::arg("uneven", 0)) for (long j = 0; j < n; j++) ord[j] = 1 + (o + 2 * j) % (o + 1);
      Vec<zz_p> pts; pts.SetLength(o); zz_p r; Vec<Mat<zz_p>> ev; ev.SetLength(o);
      if (k == "isint") { element_of_order(r, 2 * o); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < o; i++) { pts[i] = op == "geo" ? x : to_zz_p(i * i + 1); x *= q; } for (long tt = 0; tt < o; tt++) { ev[tt].SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) ev[tt][i][j] = vh::ref_eval(F[i][j], pts[tt]); } }
      if (k == "isapp") { if (form == POPOV) popov_appbas_iterative(P, F, ord, t); else appbas_iterative(P, F, ord, t); } else if (k == "isint") { Vec<Mat<zz_p>> e2 = ev; if (form == POPOV) popov_mbasis(P, e2, pts, t); else mbasis(P, e2, pts, t); } else { VL pv; kernel_basis_via_approximation(P, pv, F, t); if (P.NumRows() == 0) return; row = std::min(row, P.NumRows() - 1); }
      if (dmg == 1) for (long j = 0; j < m; j++) P[row][j] <<= 1; // still in the module, no longer generating
      if (dmg == 2) P[row][row] += 1 + zz_pX(1, 1) * 3; // generally leaves the module
      if (dmg == 3) { if (P.NumRows() < 2) return; swap(P[0], P[1]); } // loses the ordered form only
      if (dmg == 4) { if (P.NumRows() < 2) return; for (long j = 0; j < m; j++) P[0][j] += LeftShift(P[1][j], std::max(0L, t[0] - t[1]) + 1); } // loses reducedness
      if (k == "isapp") ok = is_approximant_basis(P, F, ord, s, form, true); else if (k == "isker") ok = is_kernel_basis(P, F, s, form, vh::arg("rand", 0)); else if (op == "geo") ok = vh::arg("evals", 0) ? is_interpolant_basis_geometric(P, ev, r, o, s, form, false) : is_interpolant_basis_geometric(P, F, r, o, s, form, false); else ok = vh::arg("evals", 0) ? is_interpolant_basis(P, ev, pts, s, form, false) : is_interpolant_basis(P, F, pts, s, form, false);
      bool want = true;
      if (dmg == 1) want = k == "isker"; // kernel generation is documented as not tested
      if (dmg == 1 && k == "isker") want = ref::form(form == REDUCED ? 1 : form == WEAK_POPOV ? 2 : form == ORD_WEAK_POPOV ? 3 : form == POPOV ? 4 : 0, P, s);
      if (dmg == 2) { bool in = ref::form(form == REDUCED ? 1 : form == WEAK_POPOV ? 2 : form == ORD_WEAK_POPOV ? 3 : form == POPOV ? 4 : 0, P, s); PMat pr = vh::ref_mul(P, F); for (long i = 0; i < P.NumRows() && in; i++) for (long j = 0; j < n && in; j++) { if (k == "isapp") in = vh::iszero(trunc(pr[i][j], ord[j])); else if (k == "isker") in = vh::iszero(pr[i][j]); else for (long q = 0; q < o && in; q++) in = IsZero(vh::ref_eval(pr[i][j], pts[q])); } if (in) return; want = false; }
      if (dmg == 3) want = form < ORD_WEAK_POPOV; if (dmg == 4) want = false;
      vh::check(ok == want, want ? "right basis refused" : "wrong basis accepted"); vh::obs(ok);
   } else vh::check(false, "unknown case");
}
