// Matrix middle products and transposed geometric product.
#include "vh.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
void harness()
{
   vh::init();
   long m = vh::arg("m", 2), n = vh::arg("n", 2), k = vh::arg("k", 2), dA = vh::arg("dA", 1), dB = vh::arg("dB", 1), la = vh::arg("la", dA + 1), lc = vh::arg("lc", dA + dB + 1), alias = vh::arg("alias", 0);
   std::string op = vh::sarg("op", "");
   PMat a = vh::pmat(m, n, la), c = vh::pmat(n, k, lc), r; if (vh::arg("stale", 0)) { r.SetDims(1, 3); r[0][1] = vh::rpoly(4); }
   PMat at = vh::ref_trunc(a, dA + 1); if (op == "tgeom") for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { zz_pX f; f.rep.SetLength(dA + 1); for (long t = 0; t <= dA; t++) f.rep[t] = vh::coefx(a[i][j], dA - t); f.normalize(); at[i][j] = f; }
   PMat full = vh::ref_mul(at, c), want; want.SetDims(m, k);
   for (long i = 0; i < m; i++) for (long j = 0; j < k; j++) { want[i][j].rep.SetLength(dB + 1); for (long t = 0; t <= dB; t++) want[i][j].rep[t] = vh::coefx(full[i][j], dA + t); want[i][j].normalize(); }
   PMat& R = alias == 1 ? a : alias == 2 ? c : r;
   if (op == "auto") middle_product(R, a, c, dA, dB); else if (op == "naive") middle_product_naive(R, a, c, dA, dB);
   else if (op == "fftll") middle_product_evaluate_FFT_direct_ll_type(R, a, c, dA, dB); else if (op == "fftd") middle_product_evaluate_FFT_direct(R, a, c, dA, dB);
   else if (op == "fftm") middle_product_evaluate_FFT_matmul(R, a, c, dA, dB); else if (op == "fftm1") middle_product_evaluate_FFT_matmul1(R, a, c, dA, dB);
   else if (op == "fftm2") middle_product_evaluate_FFT_matmul2(R, a, c, dA, dB); else if (op == "fftm3") middle_product_evaluate_FFT_matmul3(R, a, c, dA, dB);
   else if (op == "fft") middle_product_evaluate_FFT(R, a, c, dA, dB); else if (op == "fftnew") middle_product_evaluate_FFT_new(R, a, c, dA, dB);
   else if (op == "dense") middle_product_evaluate_dense(R, a, c, dA, dB); else if (op == "tgeom") t_multiply_evaluate_geometric(R, a, c, dA, dB);
   else if (op == "3primes") middle_product_3_primes(R, a, c, dA, dB); else vh::check(false, "unknown op");
   vh::eq(R, want, "matrix middle product"); vh::obs(R);
}
