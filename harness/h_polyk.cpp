// Scalar kernels: series division, Taylor shift, add_LeftShift, middle products,
// vector inversion, orders, constant-matrix builders.
#include "vh.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "mat_lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_middle_product.h"
PML_CLIENT
static zz_pX ref_shift(const zz_pX& f, zz_p c)          // Horner
{
   zz_pX x; SetCoeff(x, 1, 1); SetCoeff(x, 0, c);
   zz_pX r; long n = vh::arg("len", 4);
   for (long i = n - 1; i >= 0; i--) { r = vh::ref_mul(r, x); r = r + zz_pX(INIT_MONO, 0, vh::coefx(f, i)); }
   return r;
}
static zz_pX ref_mid(const zz_pX& a, const zz_pX& c, long dA, long dB)
{
   zz_pX r; r.rep.SetLength(dB + 1);
   zz_pX t = trunc(a, dA + 1); zz_pX pr = vh::ref_mul(t, c);
   for (long i = 0; i <= dB; i++) r.rep[i] = vh::coefx(pr, dA + i);
   r.normalize(); return r;
}
void harness()
{
   vh::init();
   std::string k = vh::sarg("case", ""); long alias = vh::arg("alias", 0), len = vh::arg("len", 4), d = vh::arg("d", 4);
   if (k == "invtruncmul") {
      long la = vh::arg("la", len);
      zz_pX b = vh::poly(len), a = vh::poly(la), f; vh::assume_nz(coeff(a, 0));
      zz_pX a0 = a, b0 = b; zz_pX& F = alias == 1 ? a : alias == 2 ? b : f;
      InvTruncMul(F, b, a, d);
      vh::eq(trunc(vh::ref_mul(F, a0), d), trunc(b0, d), "f*a != b mod x^d");
      vh::zero(F >> d, "series quotient not truncated"); vh::obs(F);
   } else if (k == "shift_dac" || k == "shift_large" || k == "shift_get" || k == "shift") {
      zz_pX f = vh::poly(len), g; zz_p c = vh::arg("symc", 1) ? vh::sym() : vh::rnd1(); zz_pX want = ref_shift(f, c);
      zz_pX& G = alias ? f : g; long bnd = vh::arg("bnd", len - 1);
      if (k == "shift_dac") { zz_pX_shift_DAC s(bnd, c); s.shift(G, f); }
      else if (k == "shift_large") { zz_pX_shift_large_characteristic s(bnd, c); s.shift(G, f); }
      else if (k == "shift_get") { std::unique_ptr<zz_pX_shift> s = get_shift(bnd, c); s->shift(G, f); }
      else shift(G, f, c);
      vh::eq(G, want, "Taylor shift"); vh::obs(G);
   } else if (k == "addls") {
      long lb = vh::arg("lb", len); zz_pX a = vh::poly(len), b = vh::poly(lb), c; zz_pX want; want.rep.SetLength(max(len, lb + d));
      for (long i = 0; i < max(len, lb + d); i++) want.rep[i] = vh::coefx(a, i) + vh::coefx(b, i - d);
      want.normalize(); zz_pX& Cc = alias == 1 ? a : alias == 2 ? b : c;
      if (alias == 3) { want = zz_pX(); want.rep.SetLength(len + d); for (long i = 0; i < len + d; i++) want.rep[i] = vh::coefx(a, i) + vh::coefx(a, i - d); want.normalize(); add_LeftShift(c, a, a, d); }
      else if (alias == 4) { want = zz_pX(); want.rep.SetLength(len + d); for (long i = 0; i < len + d; i++) want.rep[i] = vh::coefx(a, i) + vh::coefx(a, i - d); want.normalize(); add_LeftShift(a, a, a, d); c = a; }
      else add_LeftShift(Cc, a, b, d);
      vh::eq(alias >= 3 ? c : Cc, want, "a + (b << k)"); vh::obs(alias >= 3 ? c : Cc);
   } else if (k == "mid" || k == "midfft") {
      long dA = vh::arg("dA", 2), dB = vh::arg("dB", 2), la = vh::arg("la", dA + 1), lc = vh::arg("lc", dA + dB + 1);
      zz_pX a = vh::poly(la), c = vh::poly(lc), b; zz_pX want = ref_mid(a, c, dA, dB);
      zz_pX& Bb = alias == 1 ? a : alias == 2 ? c : b;
      if (k == "mid") middle_product(Bb, a, c, dA, dB); else middle_FFT(Bb, a, c, dA, dB);
      vh::eq(Bb, want, "middle product"); vh::obs(Bb);
   } else if (k == "tkar") {
      // transposed product: b[i] = sum_j a[j] c[sa-1+i-j]
      long sb = vh::arg("sb", 3), sa = vh::arg("sa", 3), sc = sa + sb - 1;
      Vec<zz_p> a = vh::vec(sa), c = vh::vec(sc), b, stk; b.SetLength(sb); stk.SetLength(max(1L, Kar_stk_size(max(sa, sb))));
      tKarMul_aux(b.elts(), sb, a.elts(), sa, c.elts(), sc, stk.elts());
      for (long i = 0; i < sb; i++) { zz_p s; for (long j = 0; j < sa; j++) s += a[j] * c[sa - 1 + i - j]; vh::eq(b[i], s, "Karatsuba transposed product"); }
      vh::obs(b);
   } else if (k == "vinv" || k == "vinvnaive") {
      Vec<zz_p> a = vh::vec(len), i; for (long j = 0; j < len; j++) vh::assume_nz(a[j]);
      Vec<zz_p> a0 = a; Vec<zz_p>& I = alias ? a : i;
      if (k == "vinv") inv(I, a); else inv_naive(I, a);
      vh::check(I.length() == len, "length of inverted vector");
      for (long j = 0; j < len; j++) vh::eq(I[j] * a0[j], to_zz_p(1), "entrywise inverse");
      vh::obs(I);
   } else if (k == "vinverr") { // a non-unit entry must not be silently inverted
      Vec<zz_p> a = vh::vec(len), i; bool z = false; for (long j = 0; j < len; j++) if (IsZero(a[j])) z = true;
      bool r = vh::raises([&] { inv(i, a); }); vh::check(r == z, "inverse of a vector with a zero entry");
   } else if (k == "precomp") {
      Vec<zz_p> a = vh::vec(len); Vec<mulmod_precon_t> pr = precomp(a); zz_p y = vh::sym(); const long p = zz_p::modulus();
      vh::check(pr.length() == len, "length");
      for (long j = 0; j < len; j++) { zz_p r; r._zz_p__rep = MulModPrecon(y._zz_p__rep, a[j]._zz_p__rep, p, pr[j]); vh::eq(r, y * a[j], "preconditioned product"); }
   } else if (k == "order") {
      zz_p a = vh::sym(); long o = order(a);
      if (IsZero(a)) vh::check(o == -1, "order of a non-unit");
      else {
         vh::check(o >= 1 && o < zz_p::modulus(), "order in range");
         zz_p t = to_zz_p(1); long first = 0; for (long i = 1; i < zz_p::modulus() && !first; i++) { t *= a; if (IsOne(t)) first = i; }
         vh::check(o == first, "multiplicative order");
      }
      vh::obs(o);
   } else if (k == "elorder") {
      long o = vh::symint(1, vh::arg("maxord", 4)); zz_p a; element_of_order(a, o);
      if (o < zz_p::modulus() - 1) { vh::check(!IsZero(a) || zz_p::modulus() < 4, "element found"); }
      if (!IsZero(a)) { zz_p t = to_zz_p(1); for (long i = 1; i < o; i++) { t *= a; vh::check(!IsOne(t), "order too small"); } }
   } else if (k == "constmat") {
      zz_p c = vh::sym(); long n = len; Mat<zz_p> Z = Z_lzz_p(n, c), J = J_lzz_p(n); Vec<zz_p> dv = vh::vec(n); Mat<zz_p> D = diagonal_matrix(dv);
      for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) {
         vh::eq(Z[i][j], (i == 0 && j == n - 1) ? (n == 1 ? c : c) : to_zz_p(i == j + 1), "Z matrix");
         vh::eq(J[i][j], to_zz_p(i + j == n - 1), "J matrix"); vh::eq(D[i][j], i == j ? dv[i] : to_zz_p(0), "diagonal matrix");
      }
      long m = vh::arg("m", 3); Mat<zz_p> M = vh::mat(m, n), M0 = M; long r0 = vh::symint(0, m), c0 = vh::symint(0, n), nr = vh::symint(0, m + 1), nc = vh::symint(0, 2);
      clear(M, r0, c0, nr, nc);
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) vh::eq(M[i][j], (i >= r0 && i < r0 + nr && j >= c0 && j < c0 + nc) ? to_zz_p(0) : M0[i][j], "cleared submatrix");
   } else if (k == "ismonic") {
      zz_pX a = vh::poly(len); bool r = is_monic(a), w = false; for (long i = len - 1; i >= 0; i--) if (!IsZero(vh::coefx(a, i))) { w = IsOne(vh::coefx(a, i)); break; }
      vh::check(r == w, "is_monic"); vh::obs(r);
   } else vh::check(false, "unknown case");
}
