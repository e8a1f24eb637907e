// Symbolic overlay of <NTL/tools.h>: double-word accumulators may hold a symbolic
// integer (a handle in .lo with .hi == 0).
#ifndef SYM_NTL_tools__H
#define SYM_NTL_tools__H
#define ll_mul NTLr_ll_mul
#define ll_mul_add NTLr_ll_mul_add
#define ll_imul NTLr_ll_imul
#define ll_imul_add NTLr_ll_imul_add
#define ll_add NTLr_ll_add
#include_next <NTL/tools.h>
#undef ll_mul
#undef ll_mul_add
#undef ll_imul
#undef ll_imul_add
#undef ll_add
#include "../../engine.h"
NTL_OPEN_NNS
inline void ll_mul(ll_type& x, unsigned long a, unsigned long b)
{ if (symx::is_h((long) a) || symx::is_h((long) b)) symx::ll_mul(x.hi, x.lo, a, b); else NTLr_ll_mul(x, a, b); }
inline void ll_mul_add(ll_type& x, unsigned long a, unsigned long b)
{ if (symx::is_h((long) a) || symx::is_h((long) b) || symx::is_h((long) x.lo)) symx::ll_mul_add(x.hi, x.lo, a, b); else NTLr_ll_mul_add(x, a, b); }
inline void ll_imul(ll_type& x, unsigned long a, unsigned long b)
{ if (symx::is_h((long) a) || symx::is_h((long) b)) symx::ll_mul(x.hi, x.lo, a, b); else NTLr_ll_imul(x, a, b); }
inline void ll_imul_add(ll_type& x, unsigned long a, unsigned long b)
{ if (symx::is_h((long) a) || symx::is_h((long) b) || symx::is_h((long) x.lo)) symx::ll_mul_add(x.hi, x.lo, a, b); else NTLr_ll_imul_add(x, a, b); }
inline void ll_add(ll_type& x, unsigned long a)
{ if (symx::is_h((long) a) || symx::is_h((long) x.lo)) symx::ll_mul_add(x.hi, x.lo, a, 1); else NTLr_ll_add(x, a); }
inline void ll_add(ll_type& x, const ll_type& a)
{ if (symx::is_h((long) a.lo) || symx::is_h((long) x.lo)) symx::ll_add2(x.hi, x.lo, a.hi, a.lo); else NTLr_ll_add(x, a); }
NTL_CLOSE_NNS
#endif
