// Symbolic execution engine behind the overlay NTL headers.
//
// A `long` is either a concrete word or a *handle* (tag 0x5EED in the top 16 bits)
// naming a term: a fraction of multivariate polynomials over F_p in the symbolic
// inputs, whose denominator factors are known to be non-zero on the current path.
// Tests on terms are branch points decided by z3; both feasible sides are explored
// (the process forks).  See /verif/DESIGN.md.
#ifndef SYMX_ENGINE_H
#define SYMX_ENGINE_H
#include <string>
#include <vector>
namespace symx {

extern unsigned long term_count;
// tag in the top 16 bits, checksum of the index in the next 16: unreduced concrete words are not mistaken for handles
inline bool is_h(long a) { return __builtin_expect((a >> 48) == 0x5EED, 0) && ((unsigned long) a >> 32 & 0xFFFF) == (((unsigned long) (unsigned) a * 0x9E3779B1ul) >> 13 & 0xFFFF) && (unsigned) a < term_count; }

// ---- arithmetic on words that may be handles ----
long h_add(long a, long b, long n);
long h_sub(long a, long b, long n);
long h_mul(long a, long b, long n);
long h_mul_precon(long a, long b, long n, unsigned long pre);
unsigned long precon_of(long b, long n);
long h_inv(long a, long n);          // a must have been shown non-zero (branches otherwise)
long h_lincomb(const long* a, const long* b, long n); // reduced inner product
long h_rem(long a, long n);
long h_red21(long hi, long lo, long d, long nbits, bool normalized);
long h_imul(long a, long b);         // unreduced integer product
long h_iadd(long a, long b);         // unreduced integer sum
void ll_mul(unsigned long& hi, unsigned long& lo, unsigned long a, unsigned long b);
void ll_mul_add(unsigned long& hi, unsigned long& lo, unsigned long a, unsigned long b);
void ll_add2(unsigned long& hi, unsigned long& lo, unsigned long ahi, unsigned long alo);

// ---- tests (branch points) ----
bool h_is_zero(long a);
bool h_eq(long a, long b);
int  h_zero_status(long a);          // 1: zero, 0: known non-zero, -1: undetermined (no branching)
long h_concretize(long a);           // value of a, case-splitting if needed

// ---- harness-side API ----
void start(long p);                  // modulus of the run
void set_multi();                    // integer mode: several moduli at once (moduli above 2^16)
long fresh(const char* name);        // new symbolic field element, returns handle
long fresh_int(const char* name, long lo, long hi); // concrete per path, all values explored
void assume_nonzero(long a);
void assume_zero(long a);
void require_zero(long a, const char* msg);   // proof obligation: a == 0
void require_eq(long a, long b, const char* msg);
void require_nonzero(long a, const char* msg);
void require_true(bool b, const char* msg);
void flush_requirements();           // discharge pending obligations
void observe(long a);
void event(const char* msg);         // potential misuse on this path: model gets replayed
struct Unmodelled { std::string what; Unmodelled(const std::string& w) : what(w) {} };
struct Terminal { std::string what; Terminal(const std::string& w) : what(w) {} };
struct PathEnd { };                  // path abandoned (assumption unsatisfiable...)
long modulus();
bool active();
std::string token(long a);           // printable token of a handle
long untoken(const std::string& s);  // inverse

int run(int argc, char** argv, void (*body)());   // driver entry

// Word-level value: what rep(zz_p) yields.
class SymLong {
public:
   long v;
   SymLong() : v(0) { }
   SymLong(long a) : v(a) { }
   operator long() const { return v; }
   SymLong& operator+=(long b) { v = sum(v, b); return *this; }
   static long prod(long a, long b) { return (is_h(a) || is_h(b)) ? h_imul(a, b) : a * b; }
   static long sum(long a, long b) { return (is_h(a) || is_h(b)) ? h_iadd(a, b) : a + b; }
   static bool eq(long a, long b) { return (is_h(a) || is_h(b)) ? h_eq(a, b) : a == b; }
   static bool lt(long a, long b) { if (is_h(a)) a = h_concretize(a); if (is_h(b)) b = h_concretize(b); return a < b; }
};
#define SYMX_BIN(OP, RT, FN) \
inline RT operator OP(SymLong a, SymLong b) { return SymLong::FN(a.v, b.v); } \
inline RT operator OP(SymLong a, long b) { return SymLong::FN(a.v, b); } \
inline RT operator OP(long a, SymLong b) { return SymLong::FN(a, b.v); } \
inline RT operator OP(SymLong a, int b) { return SymLong::FN(a.v, (long) b); } \
inline RT operator OP(int a, SymLong b) { return SymLong::FN((long) a, b.v); } \
inline RT operator OP(SymLong a, unsigned long b) { return SymLong::FN(a.v, (long) b); } \
inline RT operator OP(unsigned long a, SymLong b) { return SymLong::FN((long) a, b.v); }
SYMX_BIN(*, SymLong, prod)
SYMX_BIN(+, SymLong, sum)
SYMX_BIN(==, bool, eq)
SYMX_BIN(<, bool, lt)
#undef SYMX_BIN
inline bool operator!=(SymLong a, SymLong b) { return !SymLong::eq(a.v, b.v); }
inline bool operator!=(SymLong a, long b) { return !SymLong::eq(a.v, b); }
inline bool operator!=(SymLong a, int b) { return !SymLong::eq(a.v, b); }
inline bool operator!=(long a, SymLong b) { return !SymLong::eq(a, b.v); }
inline bool operator!=(int a, SymLong b) { return !SymLong::eq(a, b.v); }
inline long& operator+=(long& a, SymLong b) { a = SymLong::sum(a, b.v); return a; }
inline unsigned long& operator+=(unsigned long& a, SymLong b) { a = (unsigned long) SymLong::sum((long) a, b.v); return a; }
}
#endif
