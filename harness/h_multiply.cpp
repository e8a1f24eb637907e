// Matrix products: every algorithm, the dispatcher and the left-multipliers compute a*b.
#include "vh.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
void harness()
{
   vh::init();
   long m = vh::arg("m", 2), n = vh::arg("n", 2), k = vh::arg("k", 2), la = vh::arg("la", 2), lb = vh::arg("lb", 2);
   std::string c = vh::sarg("case", "multiply");
   PMat a = vh::pmat(m, n, la), b = vh::pmat(n, k, lb), r;
   PMat want = vh::ref_mul(a, b);
   long alias = vh::arg("alias", 0);
   const PMat& A = a; const PMat& B = b;
   PMat& R = alias == 1 ? a : alias == 2 ? b : r;
   if (c == "vecmat") want = vh::ref_mul([&] { PMat x; x.SetDims(1, n); for (long j = 0; j < n; j++) x[0][j] = a[0][j]; return x; }(), b);
   if (c == "multiply") multiply(R, A, B);
   else if (c == "multiply0") multiply(R, A, B, 0);
   else if (c == "naive") multiply_naive(R, A, B);
   else if (c == "waksman") multiply_waksman(R, A, B);
   else if (c == "transform") multiply_transform(R, A, B);
   else if (c == "tnaive") multiply_transform_naive(R, A, B);
   else if (c == "tkar") multiply_transform_karatsuba(R, A, B);
   else if (c == "tmont") multiply_transform_montgomery3(R, A, B);
   else if (c == "tkar4") multiply_transform_karatsuba4(R, A, B);
   else if (c == "dense") multiply_evaluate_dense(R, A, B);
   else if (c == "dense2") multiply_evaluate_dense2(R, A, B);
   else if (c == "fft") multiply_evaluate_FFT(R, A, B);
   else if (c == "fft1") multiply_evaluate_FFT_matmul1(R, A, B);
   else if (c == "fft2") multiply_evaluate_FFT_matmul2(R, A, B);
   else if (c == "fft3") multiply_evaluate_FFT_matmul3(R, A, B);
   else if (c == "fftll") multiply_evaluate_FFT_direct_ll_type(R, A, B);
   else if (c == "fftd") multiply_evaluate_FFT_direct(R, A, B);
   else if (c == "geom") multiply_evaluate_geometric(R, A, B);
   else if (c == "3primes") multiply_3_primes(R, A, B);
   else if (c == "op") R = A * B;
   else if (c == "trunc") { long d = vh::arg("d", 2); mul_trunc(R, A, B, d); want = vh::ref_trunc(want, d); }
   else if (c == "matvec") { PVec v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = b[i][0]; PVec w; multiply(w, A, v); r.SetDims(m, 1); vh::check(w.length() == m, "matrix-vector length"); for (long i = 0; i < m; i++) r[i][0] = w[i]; }
   else if (c == "vecmat") { PVec w; multiply(w, a[0], B); r.SetDims(1, k); vh::check(w.length() == k, "vector-matrix length"); for (long i = 0; i < k; i++) r[0][i] = w[i]; }
   else if (c == "lfft") { mat_lzz_pX_lmultiplier_FFT_direct M(A, lb - 1); M.multiply(R, B); }
   else if (c == "lfftm") { mat_lzz_pX_lmultiplier_FFT_matmul M(A, lb - 1); M.multiply(R, B); }
   else if (c == "lgeom") { mat_lzz_pX_lmultiplier_geometric M(A, lb - 1); M.multiply(R, B); }
   else if (c == "ldense") { mat_lzz_pX_lmultiplier_dense M(A, lb - 1); M.multiply(R, B); }
   else if (c == "l3primes") { mat_lzz_pX_lmultiplier_3_primes M(A, lb - 1); M.multiply(R, B); }
   else if (c == "lget") { std::unique_ptr<mat_lzz_pX_lmultiplier> M = get_lmultiplier(A, lb - 1); M->multiply(R, B); }
   else vh::check(false, "unknown case");
   vh::eq(R, want, "product differs from the schoolbook product");
   vh::obs(R);
   if (alias != 1 && R.NumRows() == m) { }
}
