// Multipoint evaluation / interpolation, their transposes, bilinear transforms, polynomial CRT.
#include "vh.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
PML_CLIENT
static Vec<zz_p> ref_vals(const zz_pX& f, const Vec<zz_p>& pts) { Vec<zz_p> v; v.SetLength(pts.length()); for (long i = 0; i < pts.length(); i++) v[i] = vh::ref_eval(f, pts[i]); return v; }
static zz_pX ref_teval(const Vec<zz_p>& val, const Vec<zz_p>& pts, long m)
{
   zz_pX r; r.rep.SetLength(m); Vec<zz_p> pw = pts; for (long i = 0; i < pts.length(); i++) pw[i] = to_zz_p(1);
   for (long j = 0; j < m; j++) { zz_p s; for (long i = 0; i < pts.length(); i++) { s += val[i] * pw[i]; pw[i] *= pts[i]; } r.rep[j] = s; }
   r.normalize(); return r;
}
static void run(zz_pX_Multipoint& ev, const Vec<zz_p>& pts, const std::string& op)
{
   long n = ev.length(); vh::check(pts.length() == n, "number of points");
   long len = vh::arg("len", n);
   if (op == "toolarge") { zz_pX f = vh::rpoly(n + 1); SetCoeff(f, n, 1); Vec<zz_p> v; vh::check(vh::raises([&] { ev.evaluate(v, f); }), "degree too large must be refused"); return; }
   if (op == "eval") {
      zz_pX f = vh::poly(len); Vec<zz_p> v; if (vh::arg("stale", 0)) v = vh::rvec(n + 2); ev.evaluate(v, f); vh::eq(v, ref_vals(f, pts), "evaluation"); vh::obs(v);
   } else if (op == "interp") {
      Vec<zz_p> v = vh::vec(n); zz_pX f; if (vh::arg("stale", 0)) f = vh::rpoly(n + 3); ev.interpolate(f, v); vh::check(deg(f) < n, "interpolant degree"); vh::norm(f, "interpolant normalised"); vh::eq(ref_vals(f, pts), v, "interpolation"); vh::obs(f);
   } else if (op == "round") { // interpolate(evaluate(f)) == f
      zz_pX f = vh::poly(len), g; Vec<zz_p> v; ev.evaluate(v, f); ev.interpolate(g, v); vh::eq(g, f, "interpolation of an evaluation");
      zz_pX h; ev.interpolate(h, v); vh::eq(h, f, "second interpolation with the same object");
   } else if (op == "teval") {
      Vec<zz_p> v = vh::vec(n); long os = vh::arg("os", -1); zz_pX f; if (vh::arg("stale", 0)) f = vh::rpoly(n + 3); ev.t_evaluate(f, v, os); vh::eq(f, ref_teval(v, pts, os < 0 ? n : os), "transposed evaluation"); vh::obs(f);
   } else if (op == "tinterp") { // t_evaluate(t_interpolate(f)) == f
      zz_pX f = vh::poly(len); Vec<zz_p> v; if (vh::arg("stale", 0)) v = vh::rvec(n + 2); ev.t_interpolate(v, f); vh::check(v.length() == n, "length"); vh::eq(ref_teval(v, pts, n), f, "transposed interpolation"); vh::obs(v);
   } else if (op == "matrix") {
      long s = vh::arg("s", 2), t = vh::arg("t", 2); PMat a = vh::pmat(s, t, len), b; Vec<Mat<zz_p> > v; ev.evaluate_matrix(v, a); vh::check(v.length() == n, "number of values");
      for (long r = 0; r < n; r++) { vh::check(v[r].NumRows() == s && v[r].NumCols() == t, "dims"); for (long i = 0; i < s; i++) for (long j = 0; j < t; j++) vh::eq(v[r][i][j], vh::ref_eval(a[i][j], pts[r]), "matrix evaluation"); }
      ev.interpolate_matrix(b, v); vh::eq(b, a, "matrix interpolation");
   } else if (op == "tmatrix") {
      long s = vh::arg("s", 2), t = vh::arg("t", 2), os = vh::arg("os", n); Vec<Mat<zz_p> > v; v.SetLength(n); for (long r = 0; r < n; r++) v[r] = vh::mat(s, t);
      PMat b; ev.t_evaluate_matrix(b, v, os); vh::check(b.NumRows() == s && b.NumCols() == t, "dims");
      for (long i = 0; i < s; i++) for (long j = 0; j < t; j++) { Vec<zz_p> w; w.SetLength(n); for (long r = 0; r < n; r++) w[r] = v[r][i][j]; vh::eq(b[i][j], ref_teval(w, pts, os), "matrix transposed evaluation"); }
      if (os == n) { Vec<Mat<zz_p> > w; ev.t_interpolate_matrix(w, b); vh::check(w.length() == n, "length"); for (long r = 0; r < n; r++) vh::eq(w[r], v[r], "matrix transposed interpolation"); }
   } else if (op == "vector") { // values are point-major: v[point][entry]
      long s = vh::arg("s", 2); PVec a = vh::pvec(s, len), b; Vec<Vec<zz_p> > v; ev.evaluate_vector(v, a); vh::check(v.length() == n, "number of values");
      for (long r = 0; r < n; r++) { vh::check(v[r].length() == s, "length"); for (long i = 0; i < s; i++) vh::eq(v[r][i], vh::ref_eval(a[i], pts[r]), "vector evaluation"); }
      ev.interpolate_vector(b, v); vh::eq(b, a, "vector interpolation");
   } else if (op == "tvector") {
      long s = vh::arg("s", 2); Vec<Vec<zz_p> > v; v.SetLength(n); for (long r = 0; r < n; r++) v[r] = vh::vec(s);
      PVec c; ev.t_evaluate_vector(c, v); vh::check(c.length() == s, "length");
      for (long i = 0; i < s; i++) { Vec<zz_p> w; w.SetLength(n); for (long r = 0; r < n; r++) w[r] = v[r][i]; vh::eq(c[i], ref_teval(w, pts, n), "vector transposed evaluation"); }
      Vec<Vec<zz_p> > w; ev.t_interpolate_vector(w, c); vh::check(w.length() == n, "length"); for (long r = 0; r < n; r++) vh::eq(w[r], v[r], "vector transposed interpolation");
   } else if (op == "points") {
      Vec<zz_p> q; ev.get_points(q); vh::eq(q, pts, "get_points"); zz_p x; for (long i = 0; i < n; i++) { ev.get_point(x, i); vh::eq(x, pts[i], "get_point"); }
      for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) vh::nonzero(pts[i] - pts[j], "points are distinct");
      Mat<zz_p> M = ev.to_dense(); vh::check(M.NumRows() == n && M.NumCols() == n, "dims"); for (long i = 0; i < n; i++) { zz_p t = to_zz_p(1); for (long j = 0; j < n; j++) { vh::eq(M[i][j], t, "Vandermonde"); t *= pts[i]; } }
   } else vh::check(false, "unknown op");
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""), op = vh::sarg("op", ""); long n = vh::arg("n", 3);
   if (k == "general") {
      Vec<zz_p> q = vh::arg("sympts", 0) ? vh::vec(n) : vh::rvec(n);
      if (!vh::arg("sympts", 0)) for (long i = 0; i < n; i++) q[i] = to_zz_p(i * 2 + 1 + vh::arg("off", 0));
      for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) vh::assume_nz(q[i] - q[j]);
      if (vh::arg("sub", 0)) { Vec<zz_p> w; long o = vh::arg("sub", 0); w.SetLength(n + o + 1); for (long i = 0; i < n; i++) w[i + o] = q[i]; zz_pX_Multipoint_General ev(w, o, n); run(ev, q, op); }
      else { zz_pX_Multipoint_General ev(q); run(ev, q, op); }
   } else if (k == "getgeneral") { zz_pX_Multipoint_General ev = get_general_points(n); Vec<zz_p> q; ev.get_points(q); run(ev, q, op);
   } else if (k == "geom" || k == "geoms") {
      zz_p r; element_of_order(r, 2 * n); zz_p s = k == "geoms" ? (vh::arg("syms", 1) ? vh::sym() : vh::rnd1()) : to_zz_p(1); vh::assume_nz(s);
      Vec<zz_p> q; q.SetLength(n); zz_p t = s; for (long i = 0; i < n; i++) { q[i] = t; t *= r * r; }
      zz_pX_Multipoint_Geometric ev = k == "geoms" ? zz_pX_Multipoint_Geometric(r, s, n) : zz_pX_Multipoint_Geometric(r, n);
      long f = vh::arg("usefft", -1); if (f == 1) { ev.set_FFT_evaluate(); ev.set_FFT_interpolate(); } else if (f == 0) { ev.unset_FFT_evaluate(); ev.unset_FFT_interpolate(); } else if (f == 2) ev.decide_FFT();
      long pd = vh::arg("prep", -1); if (pd >= 0) ev.prepare_degree(pd); long pd2 = vh::arg("prep2", -1); if (pd2 >= 0) ev.prepare_degree(pd2);
      if (f == 0 || f == 1) vh::check(ev.FFT_evaluate() == f && ev.FFT_interpolate() == f, "FFT flags");
      if (op == "evalnb") { long nb = vh::arg("nb", n), len = vh::arg("len", n); zz_pX g = vh::poly(len); Vec<zz_p> v; ev.evaluate(v, g, nb); q.SetLength(nb); t = s; for (long i = 0; i < nb; i++) { q[i] = t; t *= r * r; } vh::eq(v, ref_vals(g, q), "evaluation at nb points"); vh::obs(v); }
      else if (op == "mulvec") {
         Vec<zz_p> x = vh::vec(n), y, z; zz_pX fx; conv(fx, x);
         if (vh::arg("alias", 0)) {
            y = x; ev.mul_right(y, y); vh::eq(y, ref_vals(fx, q), "mul_right in place"); ev.inv_mul_right(y, y); vh::eq(y, x, "inv_mul_right in place");
            ev.mul_left(y, y); zz_pX te = ref_teval(x, q, n); for (long i = 0; i < n; i++) vh::eq(y[i], vh::coefx(te, i), "mul_left in place"); ev.inv_mul_left(y, y); vh::eq(y, x, "inv_mul_left in place");
         }
         y.SetLength(n + 3); z.SetLength(n + 1); ev.mul_right(y, x); vh::eq(y, ref_vals(fx, q), "mul_right"); ev.inv_mul_right(z, y); vh::eq(z, x, "inv_mul_right");
         ev.mul_left(y, x); zz_pX te = ref_teval(x, q, n); for (long i = 0; i < n; i++) vh::eq(y[i], vh::coefx(te, i), "mul_left"); ev.inv_mul_left(z, y); vh::eq(z, x, "inv_mul_left");
      } else run(ev, q, op);
      if (n > 1) { vh::eq(ev.get_q(), r * r, "get_q"); vh::eq(ev.get_s(), s, "get_s"); }
   } else if (k == "getgeom") { zz_pX_Multipoint_Geometric ev = get_geometric_points(n); Vec<zz_p> q; ev.get_points(q); run(ev, q, op);
   } else if (k == "fft") {
      zz_pX_Multipoint_FFT ev = vh::arg("get", 0) ? get_FFT_points(n) : zz_pX_Multipoint_FFT(n); Vec<zz_p> q; ev.get_points(q);
      vh::check(ev.length() >= n, "enough points");
      for (long i = 0; i < q.length(); i++) for (long j = 0; j < i; j++) vh::nonzero(q[i] - q[j], "points are distinct");
      run(ev, q, op);
   } else if (k == "transform") {
      long which = vh::arg("which", 0), d = vh::arg("d", 2); std::unique_ptr<zz_pX_Transform> t;
      if (which == 0) t.reset(new zz_pX_Transform_naive(d)); else if (which == 1) { t.reset(new zz_pX_Transform_karatsuba()); d = 2; } else if (which == 2) { t.reset(new zz_pX_Transform_montgomery3()); d = 3; } else { t.reset(new zz_pX_Transform_karatsuba4()); d = 4; }
      vh::check(t->input_length() == d, "input length");
      long la = vh::arg("la", d), lb = vh::arg("lb", d);
      if (op == "matrix") {
         PMat a = vh::pmat(2, 2, la), b = vh::pmat(2, 1, lb), c; Vec<Mat<zz_p> > va, vb, vc; t->forward_left_matrix(va, a); t->forward_right_matrix(vb, b); vc.SetLength(va.length()); for (long i = 0; i < va.length(); i++) mul(vc[i], va[i], vb[i]);
         t->backward_matrix(c, vc); vh::eq(c, vh::ref_mul(a, b), "matrix transform product");
      } else if (op == "vector") { // entrywise transforms of vectors, point-major
         long s = vh::arg("s", 2); PVec a = vh::pvec(s, la), b = vh::pvec(s, lb), c; c.SetLength(3); c[0] = vh::rpoly(4); c[2] = vh::rpoly(2); Vec<Vec<zz_p> > va, vb, vc; va.SetLength(2); va[1] = vh::rvec(5); t->forward_left_vector(va, a); t->forward_right_vector(vb, b);
         vh::check(va.length() == t->transform_length() && vb.length() == va.length(), "transform length"); vc.SetLength(va.length());
         for (long i = 0; i < va.length(); i++) { vh::check(va[i].length() == s && vb[i].length() == s, "length"); vc[i].SetLength(s); for (long j = 0; j < s; j++) vc[i][j] = va[i][j] * vb[i][j]; }
         t->backward_vector(c, vc); vh::check(c.length() == s, "length"); for (long j = 0; j < s; j++) vh::eq(c[j], vh::ref_mul(a[j], b[j]), "vector transform product");
      } else {
         zz_pX a = vh::poly(la), b = vh::poly(lb), c; Vec<zz_p> va, vb, vc; t->forward_left(va, a); t->forward_right(vb, b); vh::check(va.length() == t->transform_length() && vb.length() == va.length(), "transform length");
         vc.SetLength(va.length()); for (long i = 0; i < va.length(); i++) vc[i] = va[i] * vb[i]; t->backward(c, vc); vh::eq(c, vh::ref_mul(a, b), "transform product"); vh::obs(c);
      }
   } else if (k == "crt") {
      // moduli: (x - a_i)^? kept pairwise coprime and squarefree
      PVec m; m.SetLength(n); long dm = vh::arg("dm", 1), sp = vh::arg("sympts", 0); zz_pX master = zz_pX(INIT_MONO, 0, 1);
      Vec<zz_p> roots; roots.SetLength(n * dm); for (long i = 0; i < n * dm; i++) roots[i] = sp ? vh::sym() : to_zz_p(3 * i + 1);
      for (long i = 0; i < n * dm; i++) for (long j = 0; j < i; j++) vh::assume_nz(roots[i] - roots[j]);
      long tot = 0;
      for (long i = 0; i < n; i++) { m[i] = zz_pX(INIT_MONO, 0, 1); long di = vh::arg("mixed", 0) ? 1 + i % dm : dm; for (long j = 0; j < di; j++) { zz_pX l; SetCoeff(l, 1, 1); SetCoeff(l, 0, -roots[i * dm + j]); m[i] = vh::ref_mul(m[i], l); } tot += di; master = vh::ref_mul(master, m[i]); }
      zz_pX_CRT crt(m); vh::check(crt.length() == n, "length"); zz_pX mm; crt.master(mm); vh::eq(mm, master, "master polynomial");
      for (long i = 0; i < n; i++) { zz_pX q; crt.moduli(q, i); vh::eq(q, m[i], "moduli"); }
      if (op == "multimod") {
         zz_pX f = vh::poly(vh::arg("len", tot)); PVec v; crt.multimod(v, f); vh::check(v.length() == n, "length");
         for (long i = 0; i < n; i++) { vh::check(deg(v[i]) < deg(m[i]), "remainder degree"); long o = 0; for (long j = 0; j < deg(m[i]); j++) vh::eq(vh::ref_eval(v[i], roots[i * dm + j]), vh::ref_eval(f, roots[i * dm + j]), "residue"); (void) o; }
      } else {
         PVec v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = vh::poly(deg(m[i])); zz_pX f; crt.combine(f, v); vh::check(deg(f) < tot, "combined degree"); vh::norm(f, "normalised");
         for (long i = 0; i < n; i++) for (long j = 0; j < deg(m[i]); j++) vh::eq(vh::ref_eval(v[i], roots[i * dm + j]), vh::ref_eval(f, roots[i * dm + j]), "combined residue");
         vh::obs(f);
      }
   } else vh::check(false, "unknown case");
}
