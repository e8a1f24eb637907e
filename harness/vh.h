// Harness support.  Each harness is compiled twice: with -DVH_SYM against the symbolic
// NTL overlay (inputs are solver variables, checks are proof obligations), and against
// the real NTL and the real PML build (inputs are replayed values, checks are plain
// comparisons).
#ifndef VH_H
#define VH_H
#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/matrix.h>
#include <NTL/vector.h>
#include <string>
#include <vector>
#include <functional>
#include <memory>
NTL_CLIENT

typedef Mat<zz_pX> PMat;
typedef Vec<zz_pX> PVec;

namespace vh {
// ---- configuration (key=value arguments)
long arg(const char* name, long def);
std::string sarg(const char* name, const char* def);
bool is(const char* casename);            // case=<casename> selected

// ---- modulus: p=<prime> [fft=1] ; p=0: 60-bit FFT prime
void init();

// ---- inputs
zz_p sym();                               // symbolic field element
zz_p rnd();                               // concrete pseudo-random (zeros and ones are frequent)
zz_p rnd1();                              // concrete, uniform
long irnd(long n);                        // concrete integer in [0,n)
zz_p coef();                              // symbolic within the budget `sym` (default: all), else rnd()
long symint(long lo, long hi);            // integer input, every value explored
void assume_nz(zz_p a);
void assume_z(zz_p a);

zz_pX poly(long len);                     // len coefficients; lead=1: leading one concrete non-zero, lead=2: symbolic non-zero
inline zz_pX rpoly(long len) { zz_pX f; f.rep.SetLength(len); for (long i = 0; i < len; i++) f.rep[i] = rnd1(); f.normalize(); return f; }
inline Vec<zz_p> vec(long n) { Vec<zz_p> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = coef(); return v; }
inline Vec<zz_p> rvec(long n) { Vec<zz_p> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rnd1(); return v; }
inline Mat<zz_p> mat(long m, long n) { Mat<zz_p> a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = coef(); return a; }
inline Mat<zz_p> rmat(long m, long n) { Mat<zz_p> a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = rnd1(); return a; }
inline PVec pvec(long n, long len) { PVec v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = poly(len); return v; }
inline PMat pmat(long m, long n, long len) { PMat a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = poly(len); return a; }
inline PMat rpmat(long m, long n, long len) { PMat a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = rpoly(len); return a; }

// ---- proof obligations
void eq(zz_p a, zz_p b, const char* msg);
void eq(long a, long b, const char* msg);
void check(bool b, const char* msg);
void nonzero(zz_p a, const char* msg);
void norm(const zz_pX& a, const char* msg);             // representation invariant of zz_pX
void eq(const zz_pX& a, const zz_pX& b, const char* msg);
void zero(const zz_pX& a, const char* msg);
void below(const zz_pX& a, long d, const char* msg);   // deg(a) < d
void below(const PMat& a, long d, const char* msg);
void eq(const Vec<zz_p>& a, const Vec<zz_p>& b, const char* msg);
void eq(const Mat<zz_p>& a, const Mat<zz_p>& b, const char* msg);
void eq(const PVec& a, const PVec& b, const char* msg);
void eq(const PMat& a, const PMat& b, const char* msg);
void eq(const Vec<long>& a, const Vec<long>& b, const char* msg);
void zero(const PMat& a, const char* msg);
void flush();
bool iszero(const zz_pX& a);                            // explores both answers

// ---- observations (compared between the symbolic and the real run)
void obs(long a);
void obs(zz_p a);
void obs(const zz_pX& a);
void obs(const PMat& a);
void obs(const Mat<zz_p>& a);
void obs(const Vec<zz_p>& a);

// f must raise an NTL error
bool raises(const std::function<void()>& f);
bool runs(const std::function<void()>& f);            // false if f refuses; otherwise true and f's effects are kept

// ---- reference operations (independent of PML)
inline zz_p coefx(const zz_pX& a, long i) { return (i < 0) ? to_zz_p(0) : coeff(a, i); }
PMat ref_mul(const PMat& a, const PMat& b);             // schoolbook
zz_pX ref_mul(const zz_pX& a, const zz_pX& b);
Mat<zz_p> ref_mul(const Mat<zz_p>& a, const Mat<zz_p>& b);
PMat ref_trunc(const PMat& a, long n);
PMat ident_pmat(long n);
PMat ref_sub(const PMat& a, const PMat& b);
zz_p ref_eval(const zz_pX& a, zz_p x);
zz_pX ref_det(const PMat& a);                           // cofactor expansion
zz_p ref_det(const Mat<zz_p>& a);
}
void harness();                            // the body, supplied by each harness
#endif
