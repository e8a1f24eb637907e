// Symbolic overlay of <NTL/sp_arith.h>: single-precision modular arithmetic whose
// `long` operands may be handles to symbolic terms (see ../../engine.h).  Operands
// that are all concrete go to the genuine NTL inline functions, renamed NTLr_*.
#ifndef SYM_NTL_sp_arith__H
#define SYM_NTL_sp_arith__H
#include <NTL/lip.h>
#include <NTL/tools.h>

#define AddMod NTLr_AddMod
#define SubMod NTLr_SubMod
#define NegateMod NTLr_NegateMod
#define MulMod NTLr_MulMod
#define NormalizedMulMod NTLr_NormalizedMulMod
#define MulModPrecon NTLr_MulModPrecon
#define PrepMulModPrecon NTLr_PrepMulModPrecon
#define VectorMulModPrecon NTLr_VectorMulModPrecon
#define VectorMulMod NTLr_VectorMulMod
#define rem NTLr_rem
#define sp_ll_red_21 NTLr_sp_ll_red_21
#define sp_ll_red_n1 NTLr_sp_ll_red_n1
#define sp_ll_red_31 NTLr_sp_ll_red_31
#define sp_ll_red_21_normalized NTLr_sp_ll_red_21_normalized
#define sp_ll_red_n1_normalized NTLr_sp_ll_red_n1_normalized
#define sp_ll_red_31_normalized NTLr_sp_ll_red_31_normalized
#include_next <NTL/sp_arith.h>
#undef AddMod
#undef SubMod
#undef NegateMod
#undef MulMod
#undef NormalizedMulMod
#undef MulModPrecon
#undef PrepMulModPrecon
#undef VectorMulModPrecon
#undef VectorMulMod
#undef rem
#undef sp_ll_red_21
#undef sp_ll_red_n1
#undef sp_ll_red_31
#undef sp_ll_red_21_normalized
#undef sp_ll_red_n1_normalized
#undef sp_ll_red_31_normalized

#include "../../engine.h"

NTL_OPEN_NNS

inline long AddMod(long a, long b, long n)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_add(a, b, n) : NTLr_AddMod(a, b, n); }
inline long SubMod(long a, long b, long n)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_sub(a, b, n) : NTLr_SubMod(a, b, n); }
inline long NegateMod(long a, long n)
{ return symx::is_h(a) ? symx::h_sub(0, a, n) : NTLr_NegateMod(a, n); }
inline long MulMod(long a, long b, long n, mulmod_t ninv)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_mul(a, b, n) : NTLr_MulMod(a, b, n, ninv); }
inline long MulMod(long a, long b, long n)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_mul(a, b, n) : NTLr_MulMod(a, b, n); }
inline long NormalizedMulMod(long a, long b, long n, mulmod_t ninv)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_mul(a, b, n) : NTLr_NormalizedMulMod(a, b, n, ninv); }
inline mulmod_precon_t PrepMulModPrecon(long b, long n, mulmod_t ninv)
{ return symx::is_h(b) ? symx::precon_of(b, n) : NTLr_PrepMulModPrecon(b, n, ninv); }
inline mulmod_precon_t PrepMulModPrecon(long b, long n)
{ return symx::is_h(b) ? symx::precon_of(b, n) : NTLr_PrepMulModPrecon(b, n); }
inline long MulModPrecon(long a, long b, long n, mulmod_precon_t bninv)
{ return (symx::is_h(a) || symx::is_h(b)) ? symx::h_mul_precon(a, b, n, bninv) : NTLr_MulModPrecon(a, b, n, bninv); }
inline void VectorMulModPrecon(long k, long *x, const long *a, long b, long n, mulmod_precon_t bninv)
{ for (long i = 0; i < k; i++) x[i] = MulModPrecon(a[i], b, n, bninv); }
inline void VectorMulMod(long k, long *x, const long *a, long b, long n, mulmod_t ninv)
{ for (long i = 0; i < k; i++) x[i] = MulMod(a[i], b, n, ninv); }
inline void VectorMulMod(long k, long *x, const long *a, long b, long n)
{ for (long i = 0; i < k; i++) x[i] = MulMod(a[i], b, n); }
inline long rem(unsigned long a, long n, sp_reduce_struct red)
{ return symx::is_h((long) a) ? symx::h_rem((long) a, n) : NTLr_rem(a, n, red); }
inline long rem(long a, long n, sp_reduce_struct red)
{ return symx::is_h(a) ? symx::h_rem(a, n) : NTLr_rem(a, n, red); }
inline long sp_ll_red_21(unsigned long hi, unsigned long lo, long d, sp_ll_reduce_struct dinv)
{ return (symx::is_h((long) lo) || symx::is_h((long) hi)) ? symx::h_red21((long) hi, (long) lo, d, dinv.nbits, false)
                                                         : NTLr_sp_ll_red_21(hi, lo, d, dinv); }
inline long sp_ll_red_21_normalized(unsigned long hi, unsigned long lo, long d, sp_ll_reduce_struct dinv)
{ return (symx::is_h((long) lo) || symx::is_h((long) hi)) ? symx::h_red21((long) hi, (long) lo, d, dinv.nbits, true)
                                                         : NTLr_sp_ll_red_21_normalized(hi, lo, d, dinv); }
inline long sp_ll_red_31(unsigned long x2, unsigned long x1, unsigned long x0, long d, sp_ll_reduce_struct dinv)
{ long c = sp_ll_red_21(x2, x1, d, dinv); return sp_ll_red_21(c, x0, d, dinv); }
inline long sp_ll_red_31_normalized(unsigned long x2, unsigned long x1, unsigned long x0, long d, sp_ll_reduce_struct dinv)
{ long c = sp_ll_red_21_normalized(x2, x1, d, dinv); return sp_ll_red_21_normalized(c, x0, d, dinv); }
inline long sp_ll_red_n1(const unsigned long *x, long n, long d, sp_ll_reduce_struct dinv)
{ long c = 0; for (long i = n-1; i >= 0; i--) c = sp_ll_red_21(c, x[i], d, dinv); return c; }
inline long sp_ll_red_n1_normalized(const unsigned long *x, long n, long d, sp_ll_reduce_struct dinv)
{ long c = 0; for (long i = n-1; i >= 0; i--) c = sp_ll_red_21_normalized(c, x[i], d, dinv); return c; }

NTL_CLOSE_NNS
#endif
