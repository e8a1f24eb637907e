// Sequences over k[x] or (k[x]/x^d)^tau: products by polynomials, annihilators (Kurakin, modified Kurakin, approximant bases), verification.
#include "vh.h"
#include "lzz_pX_seq.h"
PML_CLIENT
typedef PVec W;
typedef Vec<PVec> WW;
static zz_pX at(const W& v, long i) { zz_pX z; return i >= 0 && i < v.length() ? v[i] : z; }
static zz_pX tr(const zz_pX& a, long d) { return d < 0 ? a : trunc(a, d); }
// i-th window of the sequence against f: sum_t f_t S_{i+t}
static zz_pX win(const WW& S, long j, const zz_pXY& f, long i, long d) { zz_pX r; for (long t = 0; t < f.rep.length(); t++) r += vh::ref_mul(f.rep[t], S[i + t][j]); return tr(r, d); }
static WW wrap(const W& s) { WW S; S.SetLength(s.length()); for (long i = 0; i < s.length(); i++) { S[i].SetLength(1); S[i][0] = s[i]; } return S; }
static void same(const W& a, const W& b, const char* m) { vh::eq(a.length(), b.length(), m); for (long i = 0; i < a.length(); i++) { vh::eq(a[i], b[i], m); vh::norm(a[i], "normal form"); vh::obs(a[i]); } }
static void same(const WW& a, const WW& b, const char* m) { vh::eq(a.length(), b.length(), m); for (long i = 0; i < a.length(); i++) same(a[i], b[i], m); }
static WW refwin(const WW& S, const zz_pXY& f, long d) { WW r; long l = f.rep.length() ? std::max(0L, S.length() - f.degY()) : 0; r.SetLength(l); for (long i = 0; i < l; i++) { r[i].SetLength(S[i].length()); for (long j = 0; j < S[i].length(); j++) r[i][j] = win(S, j, f, i, d); } return r; }
static W unwrap(const WW& s) { W S; S.SetLength(s.length()); for (long i = 0; i < s.length(); i++) S[i] = s[i][0]; return S; }
static void cancels(const WW& S, const zz_pXY& f, long d, const char* m, long upto = -1) { long l = upto >= 0 ? upto : S.length() - f.degY(); if (f.rep.length() == 0) return; for (long i = 0; i < l; i++) for (long j = 0; j < S[i].length(); j++) vh::eq(win(S, j, f, i, d), zz_pX(), m); }
// an annihilator of degree e with leading coefficient x^x modulo x^d (on the available windows) exists: consistency of a linear system over the base field
static bool monic_exists(const WW& S, long e, long d, long x = 0)
{
   long l = S.length() - e, tau = S[0].length(); if (l <= 0) return true;
   long R = l * tau * d, Cn = e * d; Mat<zz_p> M; M.SetDims(R, Cn + 1); long r = 0;
   for (long i = 0; i < l; i++) for (long j = 0; j < tau; j++) for (long k = 0; k < d; k++, r++) { for (long t = 0; t < e; t++) for (long u = 0; u <= k; u++) M[r][t * d + u] = vh::coefx(S[i + t][j], k - u); M[r][Cn] = -vh::coefx(S[i + e][j], k - x); }
   long row = 0; for (long c = 0; c <= Cn; c++) { long p = -1; for (long i = row; i < R; i++) if (!IsZero(M[i][c])) { p = i; break; } if (p < 0) continue; if (c == Cn) return false; for (long k = 0; k <= Cn; k++) { zz_p t = M[p][k]; M[p][k] = M[row][k]; M[row][k] = t; } zz_p iv = 1 / M[row][c]; for (long i = row + 1; i < R; i++) { if (IsZero(M[i][c])) continue; zz_p q = M[i][c] * iv; for (long k = c; k <= Cn; k++) M[i][k] -= q * M[row][k]; } row++; }
   return true;
}
void harness()
{
   vh::init(); std::string op = vh::sarg("op", ""); long n = vh::arg("n", 4), d = vh::arg("d", 2), nx = vh::arg("nx", d), tau = vh::arg("tau", 0), tr_ = vh::arg("trunc", -1);
   WW S; S.SetLength(n); for (long i = 0; i < n; i++) S[i] = vh::pvec(tau ? tau : 1, nx);
   // val>0: all terms multiples of x^val; rec=k: linear recurrence of order k
   if (vh::arg("rec", 0)) { long k = vh::arg("rec", 0); W c = vh::pvec(k, nx); for (long i = k; i < n; i++) for (long j = 0; j < S[i].length(); j++) { zz_pX s; for (long t = 0; t < k; t++) s += vh::ref_mul(c[t], S[i - k + t][j]); S[i][j] = trunc(s, d); } }
   if (vh::arg("val", 0)) for (long i = 0; i < n; i++) for (long j = 0; j < S[i].length(); j++) S[i][j] = trunc(S[i][j] << vh::arg("val", 0), d);
   if (vh::arg("zero", 0)) for (long i = 0; i < n; i++) for (long j = 0; j < S[i].length(); j++) S[i][j] = zz_pX();
   W s = unwrap(S);
   if (op == "mula" || op == "mulf" || op == "check") {
      zz_pX a = vh::poly(2); zz_pXY f(vh::pvec(vh::arg("ny", 2), 2)); zz_pXY fa(a);
      if (op == "check") {
         Vec<zz_pXY> g; g.append(f); if (vh::arg("two", 0)) g.append(zz_pXY(vh::pvec(1, 2)));
         bool b = tau ? (tr_ < 0 ? check_cancel(S, g) : check_cancel(S, g, tr_)) : (tr_ < 0 ? check_cancel(s, g) : check_cancel(s, g, tr_));
         bool r = true; for (long i = 0; i < g.length(); i++) { WW w = refwin(S, g[i], tr_); for (long u = 0; u < w.length(); u++) for (long v = 0; v < w[u].length(); v++) if (!vh::iszero(w[u][v])) r = false; }
         vh::check(b == r, "cancellation test"); vh::obs((long) b); return; }
      if (op == "mula") { WW r; r.SetLength(n); for (long i = 0; i < n; i++) { r[i].SetLength(S[i].length()); for (long j = 0; j < S[i].length(); j++) r[i][j] = tr(vh::ref_mul(S[i][j], a), tr_); }
         if (tau) same(tr_ < 0 ? mul(S, a) : mulTrunc(S, a, tr_), r, "sequence times a polynomial"); else same(tr_ < 0 ? mul(s, a) : mulTrunc(s, a, tr_), unwrap(r), "sequence times a polynomial"); return; }
      WW r = refwin(S, f, tr_); if (tau) same(tr_ < 0 ? mul(S, f) : mulTrunc(S, f, tr_), r, "sequence times a bivariate polynomial"); else same(tr_ < 0 ? mul(s, f) : mulTrunc(s, f, tr_), unwrap(r), "sequence times a bivariate polynomial"); return; }
   if (op == "add") { W b = vh::pvec(vh::arg("m", 3), 2), r; r.SetLength(std::min(n, b.length())); for (long i = 0; i < r.length(); i++) r[i] = s[i] + b[i]; same(add(s, b), r, "sum of sequences"); return; }
   if (op == "zero") { long k = index_non_zero(s); bool z = is_zero_seq(s); long r = n ? 0 : -1; if (n) for (r = 0; r < n && vh::iszero(s[r]); r++); vh::eq(k, r, "index of the first non-zero term"); vh::eq((long) z, (long) (n == 0 || r == n), "zero test of a sequence"); return; }
   if (op == "kur" || op == "mod" || op == "fill") {
      // the sequence satisfies a monic recurrence of order at most n/2
      if (!monic_exists(S, n / 2, d)) return;
      Vec<zz_pXY> g; if (vh::arg("stale", 0)) { g.SetLength(d + 1); for (long i = 0; i <= d; i++) g[i] = zz_pXY(vh::rpoly(2)); }
      if (op == "kur") { if (tau) kurakin(d, S, g); else kurakin(d, s, g); } else { if (tau) modified_kurakin(d, S, g); else modified_kurakin(d, s, g); }
      if (op == "fill") fill_in(d, g);
      vh::eq(g.length(), d, "number of generators"); long last = 0;
      for (long t = 0; t < d; t++) {
         if (op == "mod" && g[t].is_zero()) { vh::check(t > 0, "the monic generator is missing"); continue; }
         vh::check(!g[t].is_zero(), "zero generator"); zz_pX l = g[t].rep[g[t].degY()], x; SetCoeff(x, t, 1); vh::eq(l, x, "leading coefficient of a generator");
         if (t == 0) last = g[0].degY(); vh::check(g[t].degY() <= last && g[t].degY() <= n, "degrees of the generators"); last = g[t].degY();
         cancels(S, g[t], d, "generator does not annihilate the sequence"); vh::obs(g[t].degY()); }
      for (long t = 0; t < d; t++) if (!g[t].is_zero() && g[t].degY() > 0) vh::check(!monic_exists(S, g[t].degY() - 1, d, t), "an annihilator of smaller degree with this leading coefficient exists");
      return; }
   if (op == "bm" || op == "hnf") {
      Vec<zz_pXY> g; if (op == "hnf") berlekamp_massey_pmbasis_hnf(d, S, g); else if (tau) berlekamp_massey_pmbasis(d, S, g); else berlekamp_massey_pmbasis(d, s, g);
      vh::eq(g.length(), n / 2 + 1, "number of generators"); for (long i = 0; i < g.length(); i++) { vh::check(!g[i].is_zero() && g[i].degY() <= n / 2, "degree of a generator"); cancels(S, g[i], d, "generator does not annihilate the sequence", n / 2); }
      return; }
   if (op == "minp") { // non-degenerate: the Hankel matrix is invertible at x=0
      long e = n / 2; Mat<zz_p> H; H.SetDims(e, e); for (long i = 0; i < e; i++) for (long j = 0; j < e; j++) H[i][j] = vh::coefx(s[i + j], 0); zz_p dt = vh::ref_det(H); vh::assume_nz(dt);
      zz_pXY P; if (vh::arg("stale", 0)) P = zz_pXY(vh::pvec(4, 2)); minpoly_nondegenerate(d, s, P); vh::eq(P.degY(), e, "degree of the minimal polynomial"); zz_pX o; SetCoeff(o, 0, 1); vh::eq(P.rep[e], o, "minimal polynomial not monic"); cancels(S, P, d, "minimal polynomial does not annihilate the sequence"); return; }
   vh::check(false, "unknown op");
}
