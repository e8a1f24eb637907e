// Entrywise polynomial-matrix arithmetic, utilities, conversions; aliasing.
#include "vh.h"
#include "ref_forms.h"
#include "mat_lzz_pX_arith.h"
#include "mat_lzz_pX_utils.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
typedef std::function<zz_pX(long, long)> Ent;
static PMat build(long m, long n, Ent e) { PMat r; r.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) r[i][j] = e(i, j); return r; }
static PVec vbuild(long n, std::function<zz_pX(long)> e) { PVec r; r.SetLength(n); for (long i = 0; i < n; i++) r[i] = e(i); return r; }
static zz_pX cst(zz_p c) { zz_pX f; SetCoeff(f, 0, c); return f; }
static zz_pX ref_rev(const zz_pX& f, long hi) { zz_pX g; if (hi < 0) return g; g.rep.SetLength(hi + 1); for (long i = 0; i <= hi; i++) g.rep[i] = vh::coefx(f, hi - i); g.normalize(); return g; }
static zz_pX ref_ls(const zz_pX& f, long n) { zz_pX g; long l = std::max(vh::arg("len", 2), vh::arg("lb", 0)) + (n > 0 ? n : 0); g.rep.SetLength(l); for (long i = 0; i < l; i++) g.rep[i] = vh::coefx(f, i - n); g.normalize(); return g; }
static zz_pX ref_add(const zz_pX& f, const zz_pX& h, long n, bool minus = false) { zz_pX g; g.rep.SetLength(n); for (long i = 0; i < n; i++) g.rep[i] = minus ? vh::coefx(f, i) - vh::coefx(h, i) : vh::coefx(f, i) + vh::coefx(h, i); g.normalize(); return g; }
static zz_pX ref_tr(const zz_pX& f, long n) { zz_pX g; long l = std::max(0L, std::min(n, vh::arg("len", 2))); g.rep.SetLength(l); for (long i = 0; i < l; i++) g.rep[i] = vh::coefx(f, i); g.normalize(); return g; }
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""); long alias = vh::arg("alias", 0), m = vh::arg("m", 2), n = vh::arg("n", 2), len = vh::arg("len", 2), L = 2 * std::max(len, vh::arg("lb", 0)) + 8;
   PMat r; r.SetDims(1, 3); r[0][0] = vh::rpoly(2);                       // stale content
   if (k == "add" || k == "sub" || k == "addc" || k == "subc" || k == "csub" || k == "cadd" || k == "neg" || k == "scal" || k == "polmul" || k == "addls") {
      PMat a = vh::pmat(m, n, len), b = vh::pmat(m, n, vh::arg("lb", len)); Mat<zz_p> c = vh::mat(m, n); zz_p s = vh::sym(); zz_pX q = vh::poly(len); PMat a0 = a, b0 = b; PMat& R = alias == 1 ? a : alias == 2 ? b : r; PMat want;
      long op = vh::arg("op", 0);
      if (k == "add") { want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], b0[i][j], L); }); if (op == 1) R = a + b; else if (op == 2) { R = a; R += b; } else add(R, a, b); }
      else if (k == "sub") { want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], b0[i][j], L, true); }); if (op == 1) R = a - b; else if (op == 2) { R = a; R -= b; } else sub(R, a, b); }
      else if (k == "addc") { want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], cst(c[i][j]), L); }); if (op == 1) R = a + c; else if (op == 2) { R = a; R += c; } else add(R, a, c); }
      else if (k == "cadd") { want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], cst(c[i][j]), L); }); if (op == 1) R = c + a; else add(R, c, a); }
      else if (k == "subc") { want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], cst(c[i][j]), L, true); }); if (op == 1) R = a - c; else if (op == 2) { R = a; R -= c; } else sub(R, a, c); }
      else if (k == "csub") { want = build(m, n, [&](long i, long j) { return ref_add(cst(c[i][j]), a0[i][j], L, true); }); if (op == 1) R = c - a; else sub(R, c, a); }
      else if (k == "neg") { want = build(m, n, [&](long i, long j) { return ref_add(zz_pX(), a0[i][j], L, true); }); if (op == 1) R = -a; else PML::negate(R, a); }
      else if (k == "scal") { want = build(m, n, [&](long i, long j) { return vh::ref_mul(a0[i][j], cst(s)); }); if (op == 1) R = a * s; else if (op == 2) R = s * a; else if (op == 3) mul(R, s, a); else mul(R, a, s); }
      else if (k == "polmul") { want = build(m, n, [&](long i, long j) { return vh::ref_mul(a0[i][j], q); }); if (op == 1) R = a * q; else if (op == 2) R = q * a; else if (op == 3) mul(R, q, a); else mul(R, a, q); }
      else { long d = vh::arg("d", 1); want = build(m, n, [&](long i, long j) { return ref_add(a0[i][j], ref_ls(b0[i][j], d), L); }); add_LeftShift(R, a, b, d); }
      vh::eq(R, want, "entrywise arithmetic"); vh::obs(R);
   } else if (k == "vec") { // the same for vectors
      PVec a = vh::pvec(n, len), b = vh::pvec(n, vh::arg("lb", len)), r1, a0 = a, b0 = b; Vec<zz_p> c = vh::vec(n); zz_p s = vh::sym(); zz_pX q = vh::poly(len); PVec& R = alias == 1 ? a : alias == 2 ? b : r1; long d = vh::arg("d", 1);
      std::string op = vh::sarg("op", ""); PVec want;
      if (op == "add") { want = vbuild(n, [&](long i) { return ref_add(a0[i], b0[i], L); }); add(R, a, b); }
      else if (op == "sub") { want = vbuild(n, [&](long i) { return ref_add(a0[i], b0[i], L, true); }); sub(R, a, b); }
      else if (op == "addc") { want = vbuild(n, [&](long i) { return ref_add(a0[i], cst(c[i]), L); }); add(R, a, c); }
      else if (op == "cadd") { want = vbuild(n, [&](long i) { return ref_add(a0[i], cst(c[i]), L); }); add(R, c, a); }
      else if (op == "subc") { want = vbuild(n, [&](long i) { return ref_add(a0[i], cst(c[i]), L, true); }); sub(R, a, c); }
      else if (op == "csub") { want = vbuild(n, [&](long i) { return ref_add(cst(c[i]), a0[i], L, true); }); sub(R, c, a); }
      else if (op == "neg") { want = vbuild(n, [&](long i) { return ref_add(zz_pX(), a0[i], L, true); }); PML::negate(R, a); }
      else if (op == "scal") { want = vbuild(n, [&](long i) { return vh::ref_mul(a0[i], cst(s)); }); mul(R, a, s); }
      else if (op == "polmul") { want = vbuild(n, [&](long i) { return vh::ref_mul(a0[i], q); }); mul(R, a, q); }
      else if (op == "addls") { want = vbuild(n, [&](long i) { return ref_add(a0[i], ref_ls(b0[i], d), L); }); add_LeftShift(R, a, b, d); }
      else if (op == "trunc") { want = vbuild(n, [&](long i) { return ref_tr(a0[i], d); }); trunc(R, a, d); }
      else if (op == "ls") { want = vbuild(n, [&](long i) { return ref_ls(a0[i], d); }); LeftShift(R, a, d); }
      else if (op == "rs") { want = vbuild(n, [&](long i) { return ref_ls(a0[i], -d); }); RightShift(R, a, d); }
      else if (op == "mirror") { want = vbuild(n, [&](long i) { return a0[n - 1 - i]; }); mirror(R, a); }
      else if (op == "deg") { long e = -1; for (long i = 0; i < n; i++) e = std::max(e, deg(a[i])); vh::eq(deg(a), e, "vector degree"); vh::check(IsZero(a) == (e < 0), "IsZero"); vh::obs(e); return; }
      else vh::check(false, "unknown op");
      vh::eq(R, want, "vector arithmetic");
      if (vh::arg("forms", 0)) { // the operators and the functions returning their result
         PVec x = a0; const char* M = "vector operator";
         if (op == "add") { vh::eq(PVec(a0 + b0), want, M); x += b0; vh::eq(x, want, M); }
         else if (op == "sub") { vh::eq(PVec(a0 - b0), want, M); x -= b0; vh::eq(x, want, M); }
         else if (op == "addc") { vh::eq(PVec(a0 + c), want, M); x += c; vh::eq(x, want, M); }
         else if (op == "cadd") vh::eq(PVec(c + a0), want, M);
         else if (op == "subc") { vh::eq(PVec(a0 - c), want, M); x -= c; vh::eq(x, want, M); }
         else if (op == "csub") vh::eq(PVec(c - a0), want, M);
         else if (op == "neg") vh::eq(PVec(-a0), want, M);
         else if (op == "scal") { vh::eq(PVec(a0 * s), want, M); vh::eq(PVec(s * a0), want, M); mul(x, s, a0); vh::eq(x, want, M); }
         else if (op == "polmul") { vh::eq(PVec(a0 * q), want, M); vh::eq(PVec(q * a0), want, M); mul(x, q, a0); vh::eq(x, want, M); }
         else if (op == "trunc") vh::eq(PVec(trunc(a0, d)), want, M);
         else if (op == "ls") { vh::eq(PVec(LeftShift(a0, d)), want, M); vh::eq(PVec(a0 << d), want, M); x <<= d; vh::eq(x, want, M); }
         else if (op == "rs") { vh::eq(PVec(RightShift(a0, d)), want, M); vh::eq(PVec(a0 >> d), want, M); x >>= d; vh::eq(x, want, M); }
         else if (op == "mirror") vh::eq(PVec(mirror(a0)), want, M);
      }
   } else if (k == "mulc" || k == "cmul") {
      long u = vh::arg("u", 2); PMat a = vh::pmat(m, n, len); bool left = k == "cmul"; Mat<zz_p> c = left ? vh::mat(u, m) : vh::mat(n, u); PMat& R = alias == 1 ? a : r;
      PMat want = left ? build(u, n, [&](long i, long j) { zz_pX s; for (long t = 0; t < m; t++) s = ref_add(s, vh::ref_mul(cst(c[i][t]), a[t][j]), L); return s; })
                       : build(m, u, [&](long i, long j) { zz_pX s; for (long t = 0; t < n; t++) s = ref_add(s, vh::ref_mul(a[i][t], cst(c[t][j])), L); return s; });
      long op = vh::arg("op", 0); if (op == 1) { if (left) R = c * a; else R = a * c; } else if (op == 2) { R = a; R *= c; } else { if (left) mul(R, c, a); else mul(R, a, c); }
      vh::eq(R, want, "product with a constant matrix"); vh::obs(R);
   } else if (k == "util") {
      std::string op = vh::sarg("op", ""); PMat a = vh::pmat(m, n, len), a0 = a, want; PMat& R = alias == 1 ? a : r; long d = vh::arg("d", 1), x = vh::arg("x", 0);
      if (op == "trunc") { want = build(m, n, [&](long i, long j) { return ref_tr(a0[i][j], d); }); trunc(R, a, d); }
      else if (op == "truncrow") { want = build(m, n, [&](long i, long j) { return i == x ? ref_tr(a0[i][j], d) : a0[i][j]; }); truncRow(R, a, x, d); }
      else if (op == "trunccol") { want = build(m, n, [&](long i, long j) { return j == x ? ref_tr(a0[i][j], d) : a0[i][j]; }); truncCol(R, a, x, d); }
      else if (op == "ls") { want = build(m, n, [&](long i, long j) { return ref_ls(a0[i][j], d); }); LeftShift(R, a, d); }
      else if (op == "rs") { want = build(m, n, [&](long i, long j) { return ref_ls(a0[i][j], -d); }); RightShift(R, a, d); }
      else if (op == "lsrow") { want = build(m, n, [&](long i, long j) { return i == x ? ref_ls(a0[i][j], d) : a0[i][j]; }); LeftShiftRow(R, a, x, d); }
      else if (op == "rsrow") { want = build(m, n, [&](long i, long j) { return i == x ? ref_ls(a0[i][j], -d) : a0[i][j]; }); RightShiftRow(R, a, x, d); }
      else if (op == "lscol") { want = build(m, n, [&](long i, long j) { return j == x ? ref_ls(a0[i][j], d) : a0[i][j]; }); LeftShiftCol(R, a, x, d); }
      else if (op == "rscol") { want = build(m, n, [&](long i, long j) { return j == x ? ref_ls(a0[i][j], -d) : a0[i][j]; }); RightShiftCol(R, a, x, d); }
      else if (op == "reverse") { want = build(m, n, [&](long i, long j) { return ref_rev(a0[i][j], d); }); reverse(R, a, d); }
      else if (op == "reverse0") { long D = -1; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D = std::max(D, deg(a0[i][j])); want = build(m, n, [&](long i, long j) { return ref_rev(a0[i][j], D); }); reverse(R, a); }
      else if (op == "rowrev") { VecLong h(m); for (long i = 0; i < m; i++) h[i] = d + i - 1; want = build(m, n, [&](long i, long j) { return ref_rev(a0[i][j], h[i]); }); row_reverse(R, a, h); }
      else if (op == "colrev") { VecLong h(n); for (long i = 0; i < n; i++) h[i] = d + i - 1; want = build(m, n, [&](long i, long j) { return ref_rev(a0[i][j], h[j]); }); col_reverse(R, a, h); }
      else if (op == "transpose") { want = ref::transp(a0); transpose(R, a); }
      else if (op == "clear") { want.SetDims(m, n); R = a; clear(R); }
      else if (op == "clearsub") { long r0 = vh::symint(0, m), c0 = vh::symint(0, n), nr = vh::symint(0, m), nc = vh::symint(0, n); want = build(m, n, [&](long i, long j) { return (i >= r0 && i < r0 + nr && j >= c0 && j < c0 + nc) ? zz_pX() : a0[i][j]; }); R = a; clear(R, r0, c0, nr, nc); }
      else if (op == "ident") { want = vh::ident_pmat(n); ident(R, n); vh::eq(ident_mat_zz_pX(n), want, "ident_mat_zz_pX"); }
      else if (op == "setcoeff") { Mat<zz_p> c = vh::mat(m, n); want = build(m, n, [&](long i, long j) { zz_pX f; f.rep.SetLength(L); for (long t = 0; t < L; t++) f.rep[t] = t == d ? c[i][j] : vh::coefx(a0[i][j], t); f.normalize(); return f; }); R = a; SetCoeff(R, d, c); }
      else if (op == "preds") {
         long D = -1; bool id = m == n; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { D = std::max(D, deg(a[i][j])); if (!(i == j ? (deg(a[i][j]) == 0 && IsOne(vh::coefx(a[i][j], 0))) : IsZero(a[i][j]))) id = false; }
         vh::eq(deg(a), D, "matrix degree"); vh::check(IsZero(a) == (D < 0), "IsZero"); vh::check(IsConstant(a) == (D <= 0) || D < 0, "IsConstant"); vh::check(IsIdent(a) == id, "IsIdent"); vh::check(IsIdent(a, m) == id, "IsIdent(dim)"); vh::check(!IsIdent(a, m + 1), "IsIdent(dim+1)"); vh::obs(D); return;
      } else if (op == "getcoeff") { Mat<zz_p> c; GetCoeff(c, a, d); vh::check(c.NumRows() == m && c.NumCols() == n, "dims"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(c[i][j], vh::coefx(a[i][j], d), "GetCoeff"); vh::eq(coeff(a, d), c, "coeff"); vh::obs(c); return; }
      else if (op == "eval") { zz_p pt = vh::sym(); Mat<zz_p> e; eval(e, a, pt); vh::check(e.NumRows() == m && e.NumCols() == n, "dims"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(e[i][j], vh::ref_eval(a[i][j], pt), "evaluation of a matrix");
         Vec<Mat<zz_p> > v; v.SetLength(len); for (long t = 0; t < len; t++) { v[t].SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) v[t][i][j] = vh::coefx(a[i][j], t); }
         Mat<zz_p> e2; eval(e2, v, pt); if (len > 0) vh::eq(e2, e, "evaluation of a coefficient vector"); vh::obs(e); return; }
      else if (op == "conv") {
         Vec<Mat<zz_p> > v; conv(v, a); long D = -1; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D = std::max(D, deg(a[i][j])); vh::eq(v.length(), D + 1, "length of the coefficient vector");
         for (long t = 0; t < v.length(); t++) { vh::check(v[t].NumRows() == m && v[t].NumCols() == n, "dims"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(v[t][i][j], vh::coefx(a[i][j], t), "conversion to a coefficient vector"); }
         PMat b; b.SetDims(m, n); conv(b, v); vh::eq(b, a, "conversion round trip");
         Vec<Mat<zz_p> > w; conv(w, a, d); vh::eq(w.length(), d, "length of the truncated coefficient vector"); for (long t = 0; t < d; t++) { vh::check(w[t].NumRows() == m && w[t].NumCols() == n, "dims"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(w[t][i][j], vh::coefx(a[i][j], t), "truncated conversion"); }
         Vec<Mat<zz_p> > f; f.SetLength(len); for (long t = 0; t < len; t++) { f[t].SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) f[t][i][j] = vh::coefx(a[i][j], t); }
         PMat g; g.SetDims(m, n); g[0][0] = vh::rpoly(3); conv(g, f); vh::eq(g, a, "conversion from a coefficient vector with zero leading coefficients");
         PMat h; if (d == 0) h.SetDims(m, n); conv(h, f, d); if (len > 0) vh::eq(h, vh::ref_trunc(a, d), "truncated conversion from a coefficient vector"); vh::obs(b); return;
      } else if (op == "convc") { Mat<zz_p> c = vh::mat(m, n); conv(R, c); want = build(m, n, [&](long i, long j) { return cst(c[i][j]); }); }
      else vh::check(false, "unknown op");
      vh::eq(R, want, "matrix utility"); vh::obs(R);
      if (vh::arg("forms", 0)) {
         const char* M = "function or operator returning a matrix"; PMat y = a0;
         if (op == "trunc") vh::eq(PMat(trunc(a0, d)), want, M);
         else if (op == "truncrow") vh::eq(PMat(truncRow(a0, x, d)), want, M);
         else if (op == "trunccol") vh::eq(PMat(truncCol(a0, x, d)), want, M);
         else if (op == "ls") { vh::eq(PMat(LeftShift(a0, d)), want, M); vh::eq(PMat(a0 << d), want, M); y <<= d; vh::eq(y, want, M); }
         else if (op == "rs") { vh::eq(PMat(RightShift(a0, d)), want, M); vh::eq(PMat(a0 >> d), want, M); y >>= d; vh::eq(y, want, M); }
         else if (op == "lsrow") vh::eq(PMat(LeftShiftRow(a0, x, d)), want, M);
         else if (op == "rsrow") vh::eq(PMat(RightShiftRow(a0, x, d)), want, M);
         else if (op == "lscol") vh::eq(PMat(LeftShiftCol(a0, x, d)), want, M);
         else if (op == "rscol") vh::eq(PMat(RightShiftCol(a0, x, d)), want, M);
         else if (op == "reverse") vh::eq(PMat(reverse(a0, d)), want, M);
         else if (op == "reverse0") vh::eq(PMat(reverse(a0)), want, M);
         else if (op == "rowrev") { VecLong h(m); for (long i = 0; i < m; i++) h[i] = d + i - 1; vh::eq(PMat(row_reverse(a0, h)), want, M); }
         else if (op == "colrev") { VecLong h(n); for (long i = 0; i < n; i++) h[i] = d + i - 1; vh::eq(PMat(col_reverse(a0, h)), want, M); }
         else if (op == "transpose") vh::eq(PMat(transpose(a0)), want, M);
      }
   } else if (k == "bad") { // operands whose dimensions do not match are refused
      PMat a = vh::pmat(m, n, len), o; Mat<zz_p> c; PVec u = vh::pvec(n, len), w; Vec<zz_p> cv;
      for (long i = 0; i < 4; i++) {
         PMat b; long bm = m + (i == 0) - (i == 2), bn = n + (i == 1) - (i == 3); b.SetDims(bm, bn); c.SetDims(bm, bn);
         const char* M = "matrices of different dimensions accepted";
         vh::check(vh::raises([&] { add(o, a, b); }), M); vh::check(vh::raises([&] { sub(o, a, b); }), M); vh::check(vh::raises([&] { add_LeftShift(o, a, b, 1); }), M);
         vh::check(vh::raises([&] { add(o, a, c); }), M); vh::check(vh::raises([&] { add(o, c, a); }), M); vh::check(vh::raises([&] { sub(o, a, c); }), M); vh::check(vh::raises([&] { sub(o, c, a); }), M);
         vh::check(vh::raises([&] { PMat t = a; SetCoeff(t, 1, c); }), M);
         if (bn != n && bm == m) { Mat<zz_p> t; t.SetDims(bn, 2); vh::check(vh::raises([&] { mul(o, a, t); }), M); }
         if (bm != m) { Mat<zz_p> t; t.SetDims(2, bm); vh::check(vh::raises([&] { mul(o, t, a); }), M); }
         if (i == 0 || i == 2) continue;
         PVec v; v.SetLength(bn); cv.SetLength(bn); M = "vectors of different lengths accepted";
         vh::check(vh::raises([&] { add(w, u, v); }), M); vh::check(vh::raises([&] { sub(w, u, v); }), M); vh::check(vh::raises([&] { add_LeftShift(w, u, v, 1); }), M);
         vh::check(vh::raises([&] { add(w, u, cv); }), M); vh::check(vh::raises([&] { add(w, cv, u); }), M); vh::check(vh::raises([&] { sub(w, u, cv); }), M); vh::check(vh::raises([&] { sub(w, cv, u); }), M);
      }
   } else if (k == "random") { // random objects have the dimensions and degree bounds asked for
      PMat a, b, c, d; VecLong rd(m), cd(n); Mat<long> D; D.SetDims(m, n);
      if (vh::arg("stale", 0)) { a = vh::rpmat(m + 1, n, len + 2); b = a; c = a; d = a; }
      for (long i = 0; i < m; i++) rd[i] = (len + i) % 3; for (long j = 0; j < n; j++) cd[j] = (len + 2 * j + 1) % 3; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = (len + i + 2 * j) % 4;
      random(a, m, n, len); random_mat_zz_pX_rdeg(b, m, n, rd); random_mat_zz_pX_cdeg(c, m, n, cd); random(d, D);
      PVec v; random(v, n, len); Vec<Mat<zz_p> > w; random(w, m, n, len); PMat a2 = random_mat_zz_pX(m, n, len), d2 = random_mat_zz_pX(D); PVec v2 = random_vec_zz_pX(n, len); Vec<Mat<zz_p> > w2 = random_vec_mat_zz_p(m, n, len);
      vh::check(a.NumRows() == m && a.NumCols() == n && b.NumRows() == m && b.NumCols() == n && c.NumRows() == m && c.NumCols() == n && d.NumRows() == m && d.NumCols() == n && a2.NumRows() == m && a2.NumCols() == n && d2.NumRows() == m && d2.NumCols() == n, "dimensions of a random matrix");
      vh::check(v.length() == n && v2.length() == n && w.length() == len && w2.length() == len, "length of a random vector");
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
         const char* M = "degree of a random matrix"; vh::check(deg(a[i][j]) < std::max(1L, len) && (len || IsZero(a[i][j])), M); vh::check(deg(a2[i][j]) < std::max(1L, len), M); vh::check(deg(b[i][j]) < rd[i] || IsZero(b[i][j]), M); vh::check(deg(c[i][j]) < cd[j] || IsZero(c[i][j]), M); vh::check(deg(d[i][j]) < D[i][j] || IsZero(d[i][j]), M); vh::check(deg(d2[i][j]) < D[i][j] || IsZero(d2[i][j]), M);
         vh::norm(a[i][j], "normal form"); vh::norm(b[i][j], "normal form"); vh::norm(c[i][j], "normal form"); vh::norm(d[i][j], "normal form"); }
      for (long i = 0; i < n; i++) vh::check(deg(v[i]) < std::max(1L, len) && deg(v2[i]) < std::max(1L, len), "degree of a random vector");
      for (long t = 0; t < len; t++) vh::check(w[t].NumRows() == m && w[t].NumCols() == n && w2[t].NumRows() == m && w2[t].NumCols() == n, "dimensions of random coefficients");
   } else vh::check(false, "unknown case");
}
