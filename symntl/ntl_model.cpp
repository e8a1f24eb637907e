// Reference semantics of the compiled parts of NTL that PML relies on, over words
// that may be symbolic.  These definitions take precedence over libntl's.
// Deliberately schoolbook: what they compute is what NTL documents.
#include <NTL/lzz_pX.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/ZZX.h>
#include <NTL/FFT_impl.h>
#include <map>
#include <vector>
using symx::is_h;
using symx::Unmodelled;

NTL_OPEN_NNS

// ---------------------------------------------------------------- errors, words
void TerminalError(const char *s) { throw symx::Terminal(s); }

static long c_xgcd(long& s, long& t, long a, long b)
{
   long u0 = 1, u1 = 0, v0 = 0, v1 = 1, x = a < 0 ? -a : a, y = b < 0 ? -b : b;
   while (y) { long q = x / y, r = x - q * y; x = y; y = r; r = u0 - q * u1; u0 = u1; u1 = r; r = v0 - q * v1; v0 = v1; v1 = r; }
   s = a < 0 ? -u0 : u0; t = b < 0 ? -v0 : v0; return x;
}
long GCD(long a, long b)
{
   if (is_h(a) || is_h(b)) { // gcd with the prime modulus: p if zero, 1 otherwise
      long h = is_h(a) ? a : b, n = is_h(a) ? b : a;
      if (is_h(n) || n != symx::modulus()) throw Unmodelled("GCD");
      return symx::h_is_zero(h) ? n : 1;
   }
   long s, t; return c_xgcd(s, t, a, b);
}
long InvModStatus(long& x, long a, long n)
{
   if (is_h(a)) { if (symx::h_is_zero(a)) { x = n; return 1; } x = symx::h_inv(a, n); return 0; }
   long s, t, d = c_xgcd(s, t, a, n);
   if (d != 1) { x = d; return 1; }
   x = s < 0 ? s + n : s; return 0;
}
long InvMod(long a, long n)
{
   long x; if (InvModStatus(x, a, n)) InvModError("InvMod: inverse undefined"); return x;
}
long PowerMod(long a, long e, long n)
{
   if (e < 0) { a = InvMod(a, n); e = -e; }
   long r = 1 % n; while (e) { if (e & 1) r = MulMod(r, a, n); e >>= 1; if (e) a = MulMod(a, a, n); }
   return r;
}
long PowerMod(long a, const ZZ& ee, long n)
{
   ZZ e = ee; if (e < 0) { a = InvMod(a, n); e = -e; }
   long r = 1 % n; for (long i = NumBits(e) - 1; i >= 0; i--) { r = MulMod(r, r, n); if (bit(e, i)) r = MulMod(r, a, n); }
   return r;
}
static inline zz_p Zp(long h) { zz_p x; x._zz_p__rep.v = h; return x; }
static zz_p dot(const zz_p* a, const zz_p* b, long n, long sb = 1)
{
   bool sy = false; std::vector<long> x(n), y(n);
   for (long i = 0; i < n; i++) { x[i] = a[i]._zz_p__rep.v; y[i] = b[i * sb]._zz_p__rep.v; if (is_h(x[i]) || is_h(y[i])) sy = true; }
   if (sy && zz_p::modulus() == symx::modulus()) return Zp(symx::h_lincomb(x.data(), y.data(), n));
   long p = zz_p::modulus(), s = 0; for (long i = 0; i < n; i++) s = AddMod(s, MulMod(x[i], y[i], p), p);
   return Zp(s);
}
NTL_SNS ostream& operator<<(NTL_SNS ostream& s, zz_p a) { s << symx::token(a._zz_p__rep.v); return s; }
long InnerProd_LL(const long *, const zz_p *, long, long, sp_ll_reduce_struct) { throw Unmodelled("InnerProd_LL"); }
long InnerProd_LL(const zz_p *a, const zz_p *b, long n, long, sp_ll_reduce_struct) { return dot(a, b, n)._zz_p__rep.v; }
long InnerProd_L(const zz_p *a, const zz_p *b, long n, long, sp_reduce_struct, long) { return dot(a, b, n)._zz_p__rep.v; }
long InnerProd_L(const long *, const zz_p *, long, long, sp_reduce_struct, long) { throw Unmodelled("InnerProd_L"); }

// ---------------------------------------------------------------- vectors
void conv(vec_zz_p& x, const Vec<long>& a) { x.SetLength(a.length()); for (long i = 0; i < a.length(); i++) x[i] = a[i]; }
void conv(vec_zz_p& x, const Vec<ZZ>& a) { x.SetLength(a.length()); for (long i = 0; i < a.length(); i++) conv(x[i], a[i]); }
void add(vec_zz_p& x, const vec_zz_p& a, const vec_zz_p& b)
{ long n = a.length(); if (b.length() != n) LogicError("vector add: dimension mismatch"); x.SetLength(n); for (long i = 0; i < n; i++) add(x[i], a[i], b[i]); }
void sub(vec_zz_p& x, const vec_zz_p& a, const vec_zz_p& b)
{ long n = a.length(); if (b.length() != n) LogicError("vector sub: dimension mismatch"); x.SetLength(n); for (long i = 0; i < n; i++) sub(x[i], a[i], b[i]); }
void clear(vec_zz_p& x) { for (long i = 0; i < x.length(); i++) clear(x[i]); }
void negate(vec_zz_p& x, const vec_zz_p& a) { long n = a.length(); x.SetLength(n); for (long i = 0; i < n; i++) negate(x[i], a[i]); }
void InnerProduct(zz_p& x, const vec_zz_p& a, const vec_zz_p& b) { x = dot(a.elts(), b.elts(), min(a.length(), b.length())); }
void InnerProduct(zz_p& x, const vec_zz_p& a, const vec_zz_p& b, long off)
{ if (off < 0) LogicError("InnerProduct: negative offset"); long n = min(a.length(), b.length() + off); if (n <= off) { clear(x); return; } x = dot(a.elts() + off, b.elts(), n - off); }
void mul(vec_zz_p& x, const vec_zz_p& a, zz_p b) { long n = a.length(); x.SetLength(n); for (long i = 0; i < n; i++) mul(x[i], a[i], b); }
void mul(vec_zz_p& x, const vec_zz_p& a, long b) { mul(x, a, to_zz_p(b)); }
long IsZero(const vec_zz_p& a) { for (long i = 0; i < a.length(); i++) if (!IsZero(a[i])) return 0; return 1; }
void VectorCopy(vec_zz_p& x, const vec_zz_p& a, long n)
{
   if (n < 0) LogicError("VectorCopy: negative length");
   long m = min(n, a.length()); x.SetLength(n); for (long i = 0; i < m; i++) x[i] = a[i]; for (long i = m; i < n; i++) clear(x[i]);
}
vec_zz_p operator+(const vec_zz_p& a, const vec_zz_p& b) { vec_zz_p r; add(r, a, b); return r; }
vec_zz_p operator-(const vec_zz_p& a, const vec_zz_p& b) { vec_zz_p r; sub(r, a, b); return r; }
vec_zz_p operator-(const vec_zz_p& a) { vec_zz_p r; negate(r, a); return r; }
zz_p operator*(const vec_zz_p& a, const vec_zz_p& b) { zz_p r; InnerProduct(r, a, b); return r; }
bool (*zz_p_draw_hook)(zz_p&) = 0;
void random(vec_zz_p& x, long n) { x.SetLength(n); VectorRandom(n, x.elts()); }

// ---------------------------------------------------------------- matrices over the field
void add(mat_zz_p& X, const mat_zz_p& A, const mat_zz_p& B)
{ long n = A.NumRows(), m = A.NumCols(); if (B.NumRows() != n || B.NumCols() != m) LogicError("matrix add: dimension mismatch"); X.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) add(X[i][j], A[i][j], B[i][j]); }
void sub(mat_zz_p& X, const mat_zz_p& A, const mat_zz_p& B)
{ long n = A.NumRows(), m = A.NumCols(); if (B.NumRows() != n || B.NumCols() != m) LogicError("matrix sub: dimension mismatch"); X.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) sub(X[i][j], A[i][j], B[i][j]); }
void negate(mat_zz_p& X, const mat_zz_p& A)
{ long n = A.NumRows(), m = A.NumCols(); X.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) negate(X[i][j], A[i][j]); }
void mul(mat_zz_p& X, const mat_zz_p& A, const mat_zz_p& B)
{
   long n = A.NumRows(), l = A.NumCols(), m = B.NumCols();
   if (l != B.NumRows()) LogicError("matrix mul: dimension mismatch");
   mat_zz_p R; R.SetDims(n, m); Vec<zz_p> col; col.SetLength(l);
   for (long j = 0; j < m; j++) { for (long k = 0; k < l; k++) col[k] = B[k][j]; for (long i = 0; i < n; i++) R[i][j] = dot(A[i].elts(), col.elts(), l); }
   X = R;
}
void mul(vec_zz_p& x, const mat_zz_p& A, const vec_zz_p& b)
{ long n = A.NumRows(), l = A.NumCols(); if (l != b.length()) LogicError("matrix mul: dimension mismatch"); vec_zz_p r; r.SetLength(n); for (long i = 0; i < n; i++) r[i] = dot(A[i].elts(), b.elts(), l); x = r; }
void mul(vec_zz_p& x, const vec_zz_p& a, const mat_zz_p& B)
{ long n = B.NumRows(), l = B.NumCols(); if (n != a.length()) LogicError("matrix mul: dimension mismatch"); vec_zz_p r, col; r.SetLength(l); col.SetLength(n); for (long j = 0; j < l; j++) { for (long i = 0; i < n; i++) col[i] = B[i][j]; r[j] = dot(a.elts(), col.elts(), n); } x = r; }
void mul(mat_zz_p& X, const mat_zz_p& A, zz_p b)
{ long n = A.NumRows(), m = A.NumCols(); X.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) mul(X[i][j], A[i][j], b); }
void mul(mat_zz_p& X, const mat_zz_p& A, long b) { mul(X, A, to_zz_p(b)); }
void clear(mat_zz_p& x) { for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) clear(x[i][j]); }
void ident(mat_zz_p& X, long n) { X.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) X[i][j] = (i == j) ? 1 : 0; }
void diag(mat_zz_p& X, long n, zz_p d) { X.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (i == j) X[i][j] = d; else clear(X[i][j]); }
void random(mat_zz_p& x, long n, long m) { x.SetDims(n, m); for (long i = 0; i < n; i++) random(x[i], m); }
long IsIdent(const mat_zz_p& A, long n)
{ if (A.NumRows() != n || A.NumCols() != n) return 0; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (i == j ? !IsOne(A[i][j]) : !IsZero(A[i][j])) return 0; return 1; }
long IsDiag(const mat_zz_p& A, long n, zz_p d)
{ if (A.NumRows() != n || A.NumCols() != n) return 0; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (i == j ? A[i][j] != d : !IsZero(A[i][j])) return 0; return 1; }
long IsZero(const mat_zz_p& a) { for (long i = 0; i < a.NumRows(); i++) if (!IsZero(a[i])) return 0; return 1; }
void transpose(mat_zz_p& X, const mat_zz_p& A)
{ long n = A.NumRows(), m = A.NumCols(); mat_zz_p R; R.SetDims(m, n); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) R[j][i] = A[i][j]; X = R; }
mat_zz_p operator+(const mat_zz_p& a, const mat_zz_p& b) { mat_zz_p r; add(r, a, b); return r; }
mat_zz_p operator-(const mat_zz_p& a, const mat_zz_p& b) { mat_zz_p r; sub(r, a, b); return r; }
mat_zz_p operator*(const mat_zz_p& a, const mat_zz_p& b) { mat_zz_p r; mul(r, a, b); return r; }
mat_zz_p operator-(const mat_zz_p& a) { mat_zz_p r; negate(r, a); return r; }
vec_zz_p operator*(const mat_zz_p& a, const vec_zz_p& b) { vec_zz_p r; mul(r, a, b); return r; }
vec_zz_p operator*(const vec_zz_p& a, const mat_zz_p& b) { vec_zz_p r; mul(r, a, b); return r; }

long gauss(mat_zz_p& M, long w)
{
   long n = M.NumRows(), m = M.NumCols(); if (w < 0 || w > m) LogicError("elim: bad args");
   long l = 0;
   for (long k = 0; k < w && l < n; k++) {
      long pos = -1; for (long i = l; i < n; i++) if (!IsZero(M[i][k])) { pos = i; break; }
      if (pos == -1) continue;
      if (pos != l) swap(M[pos], M[l]);
      zz_p pi; inv(pi, M[l][k]);
      for (long i = l + 1; i < n; i++) {
         zz_p t = -(M[i][k] * pi);
         if (!is_h(t._zz_p__rep.v) && t._zz_p__rep.v == 0) continue;
         clear(M[i][k]);
         for (long j = k + 1; j < m; j++) M[i][j] += t * M[l][j];
      }
      l++;
   }
   return l;
}
long gauss(mat_zz_p& M) { return gauss(M, M.NumCols()); }
void image(mat_zz_p& X, const mat_zz_p& A) { mat_zz_p M = A; long r = gauss(M); M.SetDims(r, M.NumCols()); X = M; }
// NTL's row elimination: the kernel rows are the combinations left at the rows without pivot, in the order of the swaps
void kernel(mat_zz_p& X, const mat_zz_p& A)
{
   long n = A.NumRows(), w = A.NumCols(), l = 0; mat_zz_p M = A, L; L.SetDims(n, n); for (long i = 0; i < n; i++) set(L[i][i]);
   for (long k = 0; k < w && l < n; k++) {
      long pos = -1; for (long i = l; i < n; i++) if (!IsZero(M[i][k])) { pos = i; break; }
      if (pos == -1) continue;
      if (pos != l) { swap(M[pos], M[l]); swap(L[pos], L[l]); }
      zz_p pi; inv(pi, M[l][k]);
      for (long i = l + 1; i < n; i++) {
         zz_p t = -(M[i][k] * pi);
         if (!is_h(t._zz_p__rep.v) && t._zz_p__rep.v == 0) continue;
         clear(M[i][k]);
         for (long j = k + 1; j < w; j++) M[i][j] += t * M[l][j];
         for (long j = 0; j < n; j++) if (is_h(L[l][j]._zz_p__rep.v) || L[l][j]._zz_p__rep.v != 0) L[i][j] += t * L[l][j];
      }
      l++;
   }
   mat_zz_p R; R.SetDims(n - l, n); for (long i = l; i < n; i++) R[i - l] = L[i];
   X = R;
}
static void gj(zz_p& d, mat_zz_p& M, long n) // M is n x (n+k): reduce left block to identity
{
   set(d); long m = M.NumCols();
   for (long k = 0; k < n; k++) {
      long pos = -1; for (long i = k; i < n; i++) if (!IsZero(M[i][k])) { pos = i; break; }
      if (pos == -1) { clear(d); return; }
      if (pos != k) { swap(M[pos], M[k]); negate(d, d); }
      d *= M[k][k]; zz_p pi; inv(pi, M[k][k]);
      for (long j = k; j < m; j++) M[k][j] *= pi;
      for (long i = 0; i < n; i++) if (i != k) {
         zz_p t = M[i][k]; if (!is_h(t._zz_p__rep.v) && t._zz_p__rep.v == 0) continue;
         for (long j = k; j < m; j++) M[i][j] -= t * M[k][j];
      }
   }
}
void relaxed_inv(zz_p& d, mat_zz_p& X, const mat_zz_p& A, bool)
{
   long n = A.NumRows(); if (A.NumCols() != n) LogicError("inv: nonsquare matrix");
   if (n == 0) { set(d); X.SetDims(0, 0); return; }
   mat_zz_p M; M.SetDims(n, 2 * n);
   for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { M[i][j] = A[i][j]; M[i][n + j] = (i == j) ? 1 : 0; }
   gj(d, M, n);
   if (!is_h(d._zz_p__rep.v) && d._zz_p__rep.v == 0) return;
   X.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) X[i][j] = M[i][n + j];
}
void relaxed_determinant(zz_p& d, const mat_zz_p& A, bool)
{ // division-free up to size 3, elimination beyond
   long n = A.NumRows(); if (A.NumCols() != n) LogicError("determinant: nonsquare matrix");
   if (n == 0) { set(d); return; }
   mat_zz_p M = A;
   if (n == 1) { d = M[0][0]; return; }
   if (n == 2) { d = M[0][0] * M[1][1] - M[0][1] * M[1][0]; return; }
   if (n == 3) { d = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]); return; }
   gj(d, M, n);
}
void relaxed_solve(zz_p& d, const mat_zz_p& A, vec_zz_p& x, const vec_zz_p& b, bool)
{
   long n = A.NumRows(); if (A.NumCols() != n) LogicError("solve: nonsquare matrix"); if (b.length() != n) LogicError("solve: dimension mismatch");
   mat_zz_p M; M.SetDims(n, n + 1); for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) M[i][j] = A[i][j]; M[i][n] = b[i]; }
   gj(d, M, n); if (!is_h(d._zz_p__rep.v) && d._zz_p__rep.v == 0) return;
   x.SetLength(n); for (long i = 0; i < n; i++) x[i] = M[i][n];
}
void relaxed_solve(zz_p& d, vec_zz_p& x, const mat_zz_p& A, const vec_zz_p& b, bool r) { mat_zz_p At; transpose(At, A); relaxed_solve(d, At, x, b, r); }
void relaxed_power(mat_zz_p& X, const mat_zz_p& A, const ZZ& e, bool)
{ mat_zz_p R, B = A; ident(R, A.NumRows()); ZZ f = e; if (f < 0) { B = inv(A); f = -f; } for (long i = NumBits(f) - 1; i >= 0; i--) { R = R * R; if (bit(f, i)) R = R * B; } X = R; }

// ---------------------------------------------------------------- polynomials
void sym_vec_zz_p::force() const
{
   sym_vec_zz_p& s = const_cast<sym_vec_zz_p&>(*this);
   pending = false;
   long n = rawlen(); while (n > 0 && IsZero((*this)[n - 1])) n--;
   s.vec_zz_p::SetLength(n);
}
void sym_vec_zz_p::soft()
{
   long n = rawlen();
   while (n > 0) { int st = symx::h_zero_status((*this)[n - 1]._zz_p__rep.v); if (st == 1) { n--; continue; } pending = (st == -1); break; }
   if (n == 0) pending = false;
   vec_zz_p::SetLength(n);
}
void zz_pX::normalize() { rep.soft(); }
const zz_pX& zz_pX::zero() { static zz_pX z; return z; }
static inline long rl(const zz_pX& a) { return a.rep.rawlen(); }
static void setv(zz_pX& x, const vec_zz_p& v) { x.rep = v; x.normalize(); }
static zz_p cf(const zz_pX& a, long i) { return (i >= 0 && i < rl(a)) ? a.rep.elts()[i] : zz_p(); }
const zz_p coeff(const zz_pX& a, long i) { return cf(a, i); }
void GetCoeff(zz_p& x, const zz_pX& a, long i) { x = cf(a, i); }
const zz_p LeadCoeff(const zz_pX& a) { long d = deg(a); return d < 0 ? zz_p() : a.rep[d]; }
const zz_p ConstTerm(const zz_pX& a) { return cf(a, 0); }
void SetCoeff(zz_pX& x, long i, zz_p a)
{
   if (i < 0) LogicError("SetCoeff: negative index");
   vec_zz_p v = x.rep; long n = v.length(); if (i >= n) { v.SetLength(i + 1); for (long j = n; j <= i; j++) clear(v[j]); }
   v[i] = a; bool topkeep = (i < n - 1) && !x.rep.pending;
   if (topkeep) { x.rep = v; } else setv(x, v);
}
void SetCoeff(zz_pX& x, long i, long a) { SetCoeff(x, i, to_zz_p(a)); }
void SetCoeff(zz_pX& x, long i) { SetCoeff(x, i, to_zz_p(1)); }
void SetX(zz_pX& x) { clear(x); SetCoeff(x, 1); }
long IsX(const zz_pX& a) { return deg(a) == 1 && IsOne(LeadCoeff(a)) && IsZero(ConstTerm(a)); }
void random(zz_pX& x, long n) { x.rep.SetLength(n); VectorRandom(n, x.rep.elts()); x.normalize(); }
void trunc(zz_pX& x, const zz_pX& a, long m)
{ if (m < 0) LogicError("trunc: bad args"); long n = min(rl(a), m); vec_zz_p v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = a.rep.elts()[i]; bool keep = n == rl(a) && !a.rep.pending; x.rep = v; if (!keep) x.normalize(); }
void LeftShift(zz_pX& x, const zz_pX& a, long n)
{
   if (n < 0) { if (n < -NTL_MAX_LONG) clear(x); else RightShift(x, a, -n); return; }
   if (rl(a) == 0) { clear(x); return; }
   bool pend = a.rep.pending;
   vec_zz_p v; v.SetLength(rl(a) + n); for (long i = 0; i < rl(a); i++) v[i + n] = a.rep.elts()[i]; for (long i = 0; i < n; i++) clear(v[i]);
   x.rep = v; if (pend) x.normalize();
}
void RightShift(zz_pX& x, const zz_pX& a, long n)
{
   if (n < 0) { LeftShift(x, a, -n); return; }
   bool pend = a.rep.pending;
   long m = rl(a) - n; vec_zz_p v; if (m > 0) { v.SetLength(m); for (long i = 0; i < m; i++) v[i] = a.rep.elts()[i + n]; } x.rep = v; if (pend) x.normalize();
}
void diff(zz_pX& x, const zz_pX& a)
{ long n = rl(a); vec_zz_p v; if (n > 1) { v.SetLength(n - 1); for (long i = 1; i < n; i++) v[i - 1] = a.rep.elts()[i] * i; } setv(x, v); }
void MakeMonic(zz_pX& x) { if (deg(x) < 0) return; zz_p l = LeadCoeff(x); if (!is_h(l._zz_p__rep.v) && IsOne(l)) return; mul(x, x, inv(l)); }
void reverse(zz_pX& x, const zz_pX& a, long hi)
{ if (hi < -1) LogicError("reverse: bad args"); vec_zz_p v; v.SetLength(hi + 1); for (long i = 0; i <= hi; i++) v[i] = cf(a, hi - i); setv(x, v); }
void conv(zz_pX& x, long a) { conv(x, to_zz_p(a)); }
void conv(zz_pX& x, const ZZ& a) { conv(x, to_zz_p(a)); }
void conv(zz_pX& x, zz_p a) { vec_zz_p v; v.SetLength(1); v[0] = a; setv(x, v); }
void conv(zz_pX& x, const vec_zz_p& a) { vec_zz_p v = a; setv(x, v); }
void conv(zz_pX& x, const ZZX& a) { vec_zz_p v; v.SetLength(a.rep.length()); for (long i = 0; i < v.length(); i++) conv(v[i], a.rep[i]); setv(x, v); }
void conv(ZZX& x, const zz_pX& a) { x.rep.SetLength(a.rep.length()); for (long i = 0; i < a.rep.length(); i++) conv(x.rep[i], a.rep[i]); x.normalize(); }
long IsZero(const zz_pX& a) { return a.rep.length() == 0; }
long IsOne(const zz_pX& a) { return a == 1; }
long operator==(const zz_pX& a, const zz_pX& b)
{
   if (!a.rep.pending && !b.rep.pending && rl(a) != rl(b)) return 0;
   long n = max(rl(a), rl(b)); for (long i = n - 1; i >= 0; i--) if (cf(a, i) != cf(b, i)) return 0; return 1;
}
long operator==(const zz_pX& a, zz_p b) { zz_pX t; conv(t, b); return a == t; }
long operator==(const zz_pX& a, long b) { return a == to_zz_p(b); }
NTL_SNS ostream& operator<<(NTL_SNS ostream& s, const zz_pX& a) { a.rep.length(); s << (const vec_zz_p&) a.rep; return s; }
void add(zz_pX& x, const zz_pX& a, const zz_pX& b) { long n = max(rl(a), rl(b)); vec_zz_p v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = cf(a, i) + cf(b, i); setv(x, v); }
void sub(zz_pX& x, const zz_pX& a, const zz_pX& b) { long n = max(rl(a), rl(b)); vec_zz_p v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = cf(a, i) - cf(b, i); setv(x, v); }
void negate(zz_pX& x, const zz_pX& a) { vec_zz_p v; v.SetLength(rl(a)); for (long i = 0; i < rl(a); i++) v[i] = -a.rep.elts()[i]; bool p = a.rep.pending; x.rep = v; if (p) x.normalize(); }
void add(zz_pX& x, const zz_pX& a, zz_p b) { zz_pX t; conv(t, b); add(x, a, t); }
void sub(zz_pX& x, const zz_pX& a, zz_p b) { zz_pX t; conv(t, b); sub(x, a, t); }
void sub(zz_pX& x, zz_p a, const zz_pX& b) { zz_pX t; conv(t, a); sub(x, t, b); }
static void mulv(vec_zz_p& r, const zz_pX& a, const zz_pX& b, long n)
{
   long la = rl(a), lb = rl(b); if (la == 0 || lb == 0 || n <= 0) { r.SetLength(0); return; }
   long l = min(n, la + lb - 1); r.SetLength(l);
   std::vector<zz_p> u, w;
   for (long k = 0; k < l; k++) {
      long lo = max(0L, k - lb + 1), hi = min(k, la - 1); u.clear(); w.clear();
      for (long i = lo; i <= hi; i++) { u.push_back(a.rep.elts()[i]); w.push_back(b.rep.elts()[k - i]); }
      r[k] = dot(u.data(), w.data(), (long) u.size());
   }
}
void mul(zz_pX& x, const zz_pX& a, const zz_pX& b) { vec_zz_p r; mulv(r, a, b, NTL_MAX_LONG); setv(x, r); }
void sqr(zz_pX& x, const zz_pX& a) { mul(x, a, a); }
void mul(zz_pX& x, const zz_pX& a, zz_p b) { vec_zz_p v; v.SetLength(rl(a)); for (long i = 0; i < rl(a); i++) v[i] = a.rep.elts()[i] * b; setv(x, v); }
void PlainMul(zz_pX& x, const zz_pX& a, const zz_pX& b) { mul(x, a, b); }
void PlainSqr(zz_pX& x, const zz_pX& a) { mul(x, a, a); }
void FFTMul(zz_pX& x, const zz_pX& a, const zz_pX& b) { mul(x, a, b); }
void FFTSqr(zz_pX& x, const zz_pX& a) { mul(x, a, a); }
void MulTrunc(zz_pX& x, const zz_pX& a, const zz_pX& b, long n) { if (n < 0) LogicError("MulTrunc: bad args"); vec_zz_p r; mulv(r, a, b, n); setv(x, r); }
void PlainMulTrunc(zz_pX& x, const zz_pX& a, const zz_pX& b, long n) { MulTrunc(x, a, b, n); }
void FFTMulTrunc(zz_pX& x, const zz_pX& a, const zz_pX& b, long n) { MulTrunc(x, a, b, n); }
void SqrTrunc(zz_pX& x, const zz_pX& a, long n) { MulTrunc(x, a, a, n); }
void PlainSqrTrunc(zz_pX& x, const zz_pX& a, long n) { MulTrunc(x, a, a, n); }
void FFTSqrTrunc(zz_pX& x, const zz_pX& a, long n) { MulTrunc(x, a, a, n); }
void power(zz_pX& x, const zz_pX& a, long e) { if (e < 0) LogicError("power: negative exponent"); zz_pX r, b = a; set(r); for (long i = 0; i < e; i++) mul(r, r, b); x = r; }

// ---- division
static void divrem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pX& b)
{
   long db = deg(b); if (db < 0) ArithmeticError("zz_pX: division by zero");
   long la = rl(a); vec_zz_p R, Q; R = a.rep; 
   zz_p li; const zz_p lc = b.rep[db]; bool one = !is_h(lc._zz_p__rep.v) && lc._zz_p__rep.v == 1; if (!one) inv(li, lc);
   vec_zz_p B = b.rep;
   if (la > db) {
      Q.SetLength(la - db);
      for (long i = la - 1; i >= db; i--) {
         zz_p t = one ? R[i] : R[i] * li; Q[i - db] = t;
         if (!is_h(t._zz_p__rep.v) && t._zz_p__rep.v == 0) continue;
         for (long j = 0; j < db; j++) R[i - db + j] -= t * B[j];
      }
      R.SetLength(db);
   }
   setv(q, Q); setv(r, R);
}
void DivRem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pX& b) { zz_pX Q, R; divrem(Q, R, a, b); q = Q; r = R; }
void div(zz_pX& q, const zz_pX& a, const zz_pX& b) { zz_pX R, Q; divrem(Q, R, a, b); q = Q; }
void div(zz_pX& q, const zz_pX& a, zz_p b) { mul(q, a, inv(b)); }
void rem(zz_pX& r, const zz_pX& a, const zz_pX& b) { zz_pX R, Q; divrem(Q, R, a, b); r = R; }
long divide(zz_pX& q, const zz_pX& a, const zz_pX& b)
{ if (IsZero(b)) { if (IsZero(a)) { clear(q); return 1; } return 0; } zz_pX Q, R; divrem(Q, R, a, b); if (!IsZero(R)) return 0; q = Q; return 1; }
long divide(const zz_pX& a, const zz_pX& b) { zz_pX q; return divide(q, a, b); }
void PlainDivRem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pX& b) { DivRem(q, r, a, b); }
void PlainDiv(zz_pX& q, const zz_pX& a, const zz_pX& b) { div(q, a, b); }
void PlainRem(zz_pX& r, const zz_pX& a, const zz_pX& b) { rem(r, a, b); }
void FFTDivRem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pX& b) { DivRem(q, r, a, b); }
void FFTDiv(zz_pX& q, const zz_pX& a, const zz_pX& b) { div(q, a, b); }
void FFTRem(zz_pX& r, const zz_pX& a, const zz_pX& b) { rem(r, a, b); }
void InvTrunc(zz_pX& x, const zz_pX& a, long m)
{
   if (m < 0) LogicError("InvTrunc: bad args");
   if (m == 0) { clear(x); return; }
   zz_p c = inv(ConstTerm(a)); vec_zz_p v; v.SetLength(m); v[0] = c;
   for (long k = 1; k < m; k++) { zz_p t; for (long i = 1; i <= k; i++) t += cf(a, i) * v[k - i]; v[k] = -(t * c); }
   setv(x, v);
}
void PlainInvTrunc(zz_pX& x, const zz_pX& a, long m) { InvTrunc(x, a, m); }
void NewtonInvTrunc(zz_pX& x, const zz_pX& a, long m) { InvTrunc(x, a, m); }

// ---- gcd
void GCD(zz_pX& x, const zz_pX& a, const zz_pX& b) { zz_pX u = a, v = b; while (!IsZero(v)) { zz_pX r; rem(r, u, v); u = v; v = r; } MakeMonic(u); x = u; }
void PlainGCD(zz_pX& x, const zz_pX& a, const zz_pX& b) { GCD(x, a, b); }
void XGCD(zz_pX& d, zz_pX& s, zz_pX& t, const zz_pX& a, const zz_pX& b)
{
   zz_pX A = a, B = b, D, Ss, Tt;
   if (IsZero(B)) { set(Ss); clear(Tt); D = A; }
   else if (IsZero(A)) { clear(Ss); set(Tt); D = B; }
   else {
      zz_pX u = A, v = B, u0, v0, q, r; set(u0); clear(v0);   // u = u0*A + .., v = v0*A + ..
      do { DivRem(q, r, u, v); u = v; v = r; zz_pX n = u0 - q * v0; u0 = v0; v0 = n; } while (!IsZero(v));
      D = u; Ss = u0; zz_pX w = D - A * Ss; Tt = w / B;
   }
   if (!IsZero(D)) { zz_p l = LeadCoeff(D); if (is_h(l._zz_p__rep.v) || !IsOne(l)) { zz_p z = inv(l); D *= z; Ss *= z; Tt *= z; } }
   d = D; s = Ss; t = Tt;
}
void PlainXGCD(zz_pX& d, zz_pX& s, zz_pX& t, const zz_pX& a, const zz_pX& b) { XGCD(d, s, t, a, b); }
void zz_pXMatrix::operator=(const zz_pXMatrix& M) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) elts[i][j] = M.elts[i][j]; }
static void iter_hgcd(zz_pXMatrix& M, zz_pX& U, zz_pX& V, long d_red)
{
   set(M(0,0)); clear(M(0,1)); clear(M(1,0)); set(M(1,1));
   long goal = deg(U) - d_red;
   while (deg(V) > goal) {
      zz_pX Q, R; DivRem(Q, R, U, V); U = V; V = R;
      zz_pX a = M(0,0) - Q * M(1,0), b = M(0,1) - Q * M(1,1); M(0,0) = M(1,0); M(0,1) = M(1,1); M(1,0) = a; M(1,1) = b;
   }
}
void HalfGCD(zz_pXMatrix& M_out, const zz_pX& U, const zz_pX& V, long d_red) { zz_pX u = U, v = V; iter_hgcd(M_out, u, v, d_red); }
void XHalfGCD(zz_pXMatrix& M_out, zz_pX& U, zz_pX& V, long d_red) { iter_hgcd(M_out, U, V, d_red); }
void resultant(zz_p& rres, const zz_pX& a, const zz_pX& b)
{
   if (IsZero(a) || IsZero(b)) { clear(rres); return; }
   if (deg(a) == 0 && deg(b) == 0) { set(rres); return; }
   zz_p res; set(res); zz_pX u = a, v = b;
   for (;;) {
      long d0 = deg(u), d1 = deg(v); zz_p lc = LeadCoeff(v); zz_pX r; rem(r, u, v); u = v; v = r;
      long d2 = deg(v);
      if (d2 >= 0) { res *= power(lc, d0 - d2); if (d0 & d1 & 1) negate(res, res); }
      else { if (d1 == 0) res *= power(lc, d0); else clear(res); break; }
   }
   rres = res;
}

// ---- modular
void MulMod(zz_pX& x, const zz_pX& a, const zz_pX& b, const zz_pX& f)
{ if (deg(a) >= deg(f) || deg(b) >= deg(f) || deg(f) == 0) LogicError("MulMod: bad args"); zz_pX t; mul(t, a, b); rem(x, t, f); }
void SqrMod(zz_pX& x, const zz_pX& a, const zz_pX& f) { MulMod(x, a, a, f); }
void MulByXMod(zz_pX& x, const zz_pX& a, const zz_pX& f) { zz_pX t; LeftShift(t, a, 1); rem(x, t, f); }
long InvModStatus(zz_pX& x, const zz_pX& a, const zz_pX& f)
{ if (deg(a) >= deg(f) || deg(f) == 0) LogicError("InvModStatus: bad args"); zz_pX d, s, t; XGCD(d, s, t, a, f); if (deg(d) != 0) { x = d; return 1; } x = s; return 0; }
void InvMod(zz_pX& x, const zz_pX& a, const zz_pX& f)
{ if (deg(a) >= deg(f) || deg(f) == 0) LogicError("InvMod: bad args"); zz_pX d, s, t; XGCD(d, s, t, a, f); if (deg(d) != 0) InvModError("zz_pX InvMod: can't compute multiplicative inverse"); x = s; }
void build(zz_pXModulus& F, const zz_pX& f) { F.f = f; F.n = deg(f); if (F.n <= 0) LogicError("build: deg(f) must be at least 1"); F.UseFFT = 0; F.k = F.l = 0; }
zz_pXModulus::zz_pXModulus(const zz_pX& ff) { build(*this, ff); }
void rem(zz_pX& x, const zz_pX& a, const zz_pXModulus& F) { if (F.n < 0) LogicError("rem: uninitialized modulus"); rem(x, a, F.f); }
void rem21(zz_pX& x, const zz_pX& a, const zz_pXModulus& F) { rem(x, a, F.f); }
void DivRem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pXModulus& F) { DivRem(q, r, a, F.f); }
void div(zz_pX& q, const zz_pX& a, const zz_pXModulus& F) { div(q, a, F.f); }
void MulMod(zz_pX& x, const zz_pX& a, const zz_pX& b, const zz_pXModulus& F)
{ if (F.n < 0) LogicError("MulMod: uninitialized modulus"); if (deg(a) >= F.n || deg(b) >= F.n) LogicError("bad args to MulMod(zz_pX,zz_pX,zz_pX,zz_pXModulus)"); zz_pX t; mul(t, a, b); rem(x, t, F.f); }
void SqrMod(zz_pX& x, const zz_pX& a, const zz_pXModulus& F) { MulMod(x, a, a, F); }
void PowerMod(zz_pX& x, const zz_pX& a, const ZZ& e, const zz_pXModulus& F)
{
   if (deg(a) >= F.n) LogicError("PowerMod: bad args"); zz_pX b = a, r; ZZ f = e; set(r); rem(r, r, F.f);
   if (f < 0) { InvMod(b, b, F.f); f = -f; }
   for (long i = NumBits(f) - 1; i >= 0; i--) { MulMod(r, r, r, F); if (bit(f, i)) MulMod(r, r, b, F); } x = r;
}
void PowerXMod(zz_pX& x, const ZZ& e, const zz_pXModulus& F) { zz_pX X; SetX(X); rem(X, X, F.f); PowerMod(x, X, e, F); }
void build(zz_pXMultiplier& B, const zz_pX& b, const zz_pXModulus& F) { if (deg(b) >= F.n) LogicError("build zz_pXMultiplier: deg(b) >= deg(f)"); B.b = b; B.UseFFT = 0; }
zz_pXMultiplier::zz_pXMultiplier(const zz_pX& b, const zz_pXModulus& F) : UseFFT(0) { build(*this, b, F); }
void MulMod(zz_pX& x, const zz_pX& a, const zz_pXMultiplier& B, const zz_pXModulus& F) { MulMod(x, a, B.b, F); }
void UpdateMap(vec_zz_p& x, const vec_zz_p& a, const zz_pXMultiplier& B, const zz_pXModulus& F)
{
   long n = F.n; if (n <= 0) LogicError("UpdateMap: uninitialized modulus"); if (a.length() > n) LogicError("bad args to UpdateMap");
   vec_zz_p r; r.SetLength(n); zz_pX b = B.b;
   for (long i = 0; i < n; i++) { zz_p t; for (long j = 0; j < a.length(); j++) t += a[j] * cf(b, j); r[i] = t; if (i + 1 < n) MulByXMod(b, b, F.f); }
   long l = n; while (l > 0 && symx::h_zero_status(r[l - 1]._zz_p__rep.v) == 1) l--;
   r.SetLength(l); x = r;
}

// ---- evaluation
void BuildFromRoots(zz_pX& x, const vec_zz_p& a)
{ zz_pX r; set(r); for (long i = 0; i < a.length(); i++) { zz_pX l; l.rep.SetLength(2); l.rep[0] = -a[i]; set(l.rep[1]); mul(r, r, l); } x = r; }
void eval(zz_p& b, const zz_pX& f, zz_p a)
{
   std::vector<zz_p> pw; zz_p t; set(t); for (long i = 0; i < rl(f); i++) { pw.push_back(t); t *= a; }
   b = rl(f) ? dot(f.rep.elts(), pw.data(), rl(f)) : zz_p();
}
void eval(vec_zz_p& b, const zz_pX& f, const vec_zz_p& a) { vec_zz_p r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) eval(r[i], f, a[i]); b = r; }
void interpolate(zz_pX& f, const vec_zz_p& a, const vec_zz_p& b)
{
   long m = a.length(); if (b.length() != m) LogicError("interpolate: vector length mismatch"); zz_pX r;
   for (long i = 0; i < m; i++) { zz_pX l; set(l); zz_p d; set(d); for (long j = 0; j < m; j++) if (j != i) { zz_pX t; t.rep.SetLength(2); t.rep[0] = -a[j]; set(t.rep[1]); mul(l, l, t); d *= a[i] - a[j]; } r += l * (b[i] / d); }
   f = r;
}

// ---------------------------------------------------------------- FFT representations
// FFT prime: values at NTL's own points (obtained from NTL's transform of X).
// Other primes: coefficients modulo X^(2^k)-1 in tbl[0].
void fftRep::DoSetSize(long NewK, long NewNumPrimes)
{
   if (NewK < -1) LogicError("bad arg to fftRep::SetSize()");
   if (NewK >= NTL_BITS_PER_LONG-1) ResourceError("bad arg to fftRep::SetSize()");
   if (NewK == -1) { k = -1; return; }
   if (NumPrimes == NewNumPrimes && NewK <= MaxK) { k = NewK; return; }
   for (long i = 0; i < 4; i++) tbl[i].SetLength(0);
   for (long i = 0; i < NewNumPrimes; i++) tbl[i].SetLength(1L << NewK);
   NumPrimes = NewNumPrimes; k = MaxK = NewK;
}
void fftRep::SetSize(long NewK) { DoSetSize(NewK, zz_pInfo->NumPrimes); }
fftRep& fftRep::operator=(const fftRep& R)
{
   if (this == &R) return *this;
   if (MaxK >= 0 && R.MaxK >= 0 && NumPrimes != R.NumPrimes) LogicError("fftRep: inconsistent use");
   if (R.k < 0) { k = -1; len = 0; return *this; }
   DoSetSize(R.k, R.NumPrimes); len = R.len;
   for (long i = 0; i < NumPrimes; i++) for (long j = 0; j < len; j++) tbl[i][j] = R.tbl[i][j];
   return *this;
}
struct FftTab { std::vector<long> pts; std::map<long, std::vector<std::vector<long>>> inv; };
static std::map<std::pair<long,long>, FftTab> tabs;
static FftTab& fft_tab(long k)
{
   auto key = std::make_pair(zz_p::modulus(), k); auto it = tabs.find(key); if (it != tabs.end()) return it->second;
   FftTab& t = tabs[key]; long n = 1L << k; std::vector<long> a(n + 16, 0); 
   if (n > 1) a[1] = 1; else a[0] = 1;
   FFTFwd(a.data(), a.data(), k, *zz_pInfo->p_info);
   t.pts.assign(a.begin(), a.begin() + n); return t;
}
static const std::vector<std::vector<long>>& fft_inv(long k, long len)
{ // rows: coefficient i as combination of the first len values
   FftTab& t = fft_tab(k); auto it = t.inv.find(len); if (it != t.inv.end()) return it->second;
   long p = zz_p::modulus(); std::vector<std::vector<long>> R(len, std::vector<long>(len, 0));
   std::vector<long> m(len + 1, 0); m[0] = 1;
   for (long i = 0; i < len; i++) { for (long j = i + 1; j > 0; j--) m[j] = SubMod(m[j - 1], MulMod(m[j], t.pts[i], p), p); m[0] = SubMod(0, MulMod(m[0], t.pts[i], p), p); }
   for (long i = 0; i < len; i++) {
      std::vector<long> q(len); long x = t.pts[i], c = 0; for (long j = len; j > 0; j--) { c = AddMod(MulMod(c, x, p), m[j], p); q[j - 1] = c; }
      long d = 0; for (long j = len - 1; j >= 0; j--) d = AddMod(MulMod(d, x, p), q[j], p);
      long di = InvMod(d, p); for (long j = 0; j < len; j++) R[j][i] = MulMod(q[j], di, p);
   }
   return t.inv[len] = R;
}
static long lin(const std::vector<long>& a, const std::vector<long>& c)
{
   bool sy = false; for (long x : a) if (is_h(x)) sy = true;
   if (sy && zz_p::modulus() == symx::modulus()) return symx::h_lincomb(a.data(), c.data(), (long) a.size());
   long p = zz_p::modulus(), s = 0; for (size_t i = 0; i < a.size(); i++) s = AddMod(s, MulMod(a[i], c[i], p), p); return s;
}
void TofftRep_trunc(fftRep& y, const zz_pX& x, long k, long len, long lo, long hi)
{
   if (k > zz_pInfo->MaxRoot) ResourceError("Polynomial too big for FFT");
   if (lo < 0) LogicError("bad arg to TofftRep");
   hi = min(hi, rl(x) - 1);
   y.SetSize(k); long n = 1L << k, p = zz_p::modulus();
   y.len = len = FFTRoundUp(len, k);
   std::vector<long> c(n, 0);
   for (long j = lo; j <= hi; j++) { long& e = c[(j - lo) & (n - 1)]; e = (!is_h(e) && e == 0) ? x.rep.elts()[j]._zz_p__rep.v : AddMod(e, x.rep.elts()[j]._zz_p__rep.v, p); }
   if (zz_pInfo->p_info) {
      FftTab& t = fft_tab(k); long m = n; while (m > 1 && !is_h(c[m - 1]) && c[m - 1] == 0) m--;
      c.resize(m);
      for (long i = 0; i < len; i++) { std::vector<long> pw(m); long w = 1; for (long j = 0; j < m; j++) { pw[j] = w; w = MulMod(w, t.pts[i], p); } y.tbl[0][i] = lin(c, pw); }
   } else for (long i = 0; i < n; i++) y.tbl[0][i] = c[i];
}
static void ifft(fftRep& y, long hi)
{
   long n = 1L << y.k, len = y.len; if (len <= hi) LogicError("FromfftRep: bad len");
   if (zz_pInfo->p_info) {
      const auto& R = fft_inv(y.k, len); std::vector<long> v(len), c(n, 0); for (long i = 0; i < len; i++) v[i] = y.tbl[0][i];
      for (long i = 0; i < len && i <= hi; i++) c[i] = lin(v, R[i]);
      for (long i = 0; i < n; i++) y.tbl[0][i] = c[i];
   } else if (len < n) for (long i = len; i < n; i++) if (is_h(y.tbl[0][i]) || y.tbl[0][i] != 0) throw Unmodelled("truncated transform of a long polynomial, non-FFT prime");
}
void FromfftRep(zz_pX& x, fftRep& y, long lo, long hi)
{
   long n = 1L << y.k; hi = min(hi, n - 1); long l = max(hi - lo + 1, 0L); ifft(y, hi);
   vec_zz_p v; v.SetLength(l); for (long j = 0; j < l; j++) v[j]._zz_p__rep.v = y.tbl[0][j + lo]; setv(x, v);
}
void FromfftRep(zz_p* x, fftRep& y, long lo, long hi)
{
   long n = 1L << y.k; if (y.len <= min(hi, n - 1)) LogicError("FromfftRep: bad len"); ifft(y, min(hi, n - 1));
   for (long j = lo; j <= hi; j++) { if (j >= n) clear(x[j - lo]); else x[j - lo]._zz_p__rep.v = y.tbl[0][j]; }
}
void NDFromfftRep(zz_pX& x, const fftRep& y, long lo, long hi, fftRep& temp) { temp = y; FromfftRep(x, temp, lo, hi); }
void NDFromfftRep(zz_pX& x, const fftRep& y, long lo, long hi) { fftRep t = y; FromfftRep(x, t, lo, hi); }
static void fbin(fftRep& z, const fftRep& x, const fftRep& y, int op)
{
   if (x.k != y.k) LogicError("FFT rep mismatch");
   fftRep X = x, Y = y; long n = 1L << X.k, p = zz_p::modulus(), len = min(X.len, Y.len);
   z.SetSize(X.k); z.len = len;
   if (zz_pInfo->p_info || op) { long m = zz_pInfo->p_info ? len : n;
      if (!zz_pInfo->p_info) { X = x; for (long j = 0; j < n; j++) { long a = j < x.len || true ? x.tbl[0][j] : 0, b = y.tbl[0][j]; X.tbl[0][j] = op == 1 ? AddMod(a, b, p) : SubMod(a, b, p); } for (long j = 0; j < n; j++) z.tbl[0][j] = X.tbl[0][j]; return; }
      for (long j = 0; j < m; j++) { long a = X.tbl[0][j], b = Y.tbl[0][j]; z.tbl[0][j] = op == 0 ? MulMod(a, b, p) : op == 1 ? AddMod(a, b, p) : SubMod(a, b, p); } }
   else {
      std::vector<long> c(n); std::vector<long> u(n), w(n), xa(n), ya(n); for (long i = 0; i < n; i++) { xa[i] = x.tbl[0][i]; ya[i] = y.tbl[0][i]; }
      for (long s = 0; s < n; s++) { for (long i = 0; i < n; i++) { u[i] = xa[i]; w[i] = ya[(s - i) & (n - 1)]; } bool sy = false; for (long i = 0; i < n; i++) if (is_h(u[i]) || is_h(w[i])) sy = true;
         if (sy && p == symx::modulus()) c[s] = symx::h_lincomb(u.data(), w.data(), n); else { long t = 0; for (long i = 0; i < n; i++) t = AddMod(t, MulMod(u[i], w[i], p), p); c[s] = t; } }
      for (long i = 0; i < n; i++) z.tbl[0][i] = c[i];
   }
}
void mul(fftRep& z, const fftRep& x, const fftRep& y) { fbin(z, x, y, 0); }
void add(fftRep& z, const fftRep& x, const fftRep& y) { fbin(z, x, y, 1); }
void sub(fftRep& z, const fftRep& x, const fftRep& y) { fbin(z, x, y, 2); }
void reduce(fftRep& x, const fftRep& a, long k)
{
   long l = a.k, n = 1L << k; if (l < k) LogicError("reduce: bad operands"); if (a.len < n) LogicError("reduce: bad len");
   std::vector<long> v((size_t) 1 << l, 0); for (long i = 0; i < (zz_pInfo->p_info ? a.len : (1L << l)); i++) v[i] = a.tbl[0][i];
   x.SetSize(k); x.len = n;
   if (zz_pInfo->p_info) for (long i = 0; i < n; i++) x.tbl[0][i] = v[i];
   else { std::vector<long> c(n, 0); for (long i = 0; i < (1L << l); i++) c[i & (n - 1)] = AddMod(c[i & (n - 1)], v[i], zz_p::modulus()); for (long i = 0; i < n; i++) x.tbl[0][i] = c[i]; }
}
NTL_CLOSE_NNS
