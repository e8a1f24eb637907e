#include "vh.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <stdexcept>
#ifdef VH_SYM
#include "../symntl/engine.h"
#else
namespace vh { struct Terminal { std::string what; }; struct PathEnd { }; struct Fail { std::string what; }; }
namespace NTL { void TerminalError(const char* s) { throw vh::Terminal{s}; } }
#endif

namespace vh {
static std::map<std::string,std::string> params;
long arg(const char* n, long d) { auto it = params.find(n); return it == params.end() ? d : atol(it->second.c_str()); }
std::string sarg(const char* n, const char* d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
bool is(const char* c) { return sarg("case", "") == c; }

static unsigned long st = 1;
static unsigned long nx() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dul; }
static long budget = -1, spacing = 1, ncoef = 0;
static void reset()
{
   st = 0x9E3779B97F4A7C15ul ^ ((unsigned long) arg("seed", 1) * 0xD1B54A32D192ED03ul); for (int i = 0; i < 10; i++) nx();
   budget = arg("sym", -1); spacing = arg("every", 1); ncoef = 0;
}
// draws number "drawat", ... , "drawat"+"draws"-1 of the library's own random_zz_p become symbolic inputs
static long ndraw = 0;
static bool draw(zz_p& x)
{
   long k = arg("draws", 0), at = arg("drawat", 0), c = ndraw++;
   if (c < at || c >= at + k) return false;
   x = sym(); return true;
}
void init()
{
#ifdef VH_SYM
   NTL::zz_p_draw_hook = draw;
#endif
   ndraw = 0;
   long p = arg("p", 0);
   if (p == 0) zz_p::FFTInit(0);
   else if (arg("fft", 0)) zz_p::UserFFTInit(p);
   else zz_p::init(p);
   SetSeed(ZZ(arg("seed", 1)));
#ifdef VH_SYM
   symx::start(zz_p::modulus());
   if (arg("multi", 0)) symx::set_multi();
#endif
   reset();
}
static zz_p mk(long v) { zz_p r; r._zz_p__rep = v; return r; }
zz_p rnd1() { return mk((long) ((nx() >> 3) % (unsigned long) zz_p::modulus())); }
zz_p rnd()
{
   switch (nx() % 8) { case 0: return to_zz_p(0); case 1: return to_zz_p(1); case 2: return to_zz_p(-1); default: return rnd1(); }
}
long irnd(long n) { return (long) ((nx() >> 5) % (unsigned long) n); }
zz_p coef()
{
   long c = ncoef++;
   long ph = arg("phase", 0);
   if (budget != 0 && (c - ph) % spacing == 0 && c >= ph) { if (budget > 0) budget--; return sym(); }
   if (arg("fill", 0)) return mk(zz_p::modulus() - 1);
   if (arg("uni", 0)) return rnd1();
   return rnd();
}

#ifdef VH_SYM
zz_p sym() { return mk(symx::fresh("x")); }
long symint(long lo, long hi) { return symx::fresh_int("n", lo, hi); }
void assume_nz(zz_p a) { symx::assume_nonzero(a._zz_p__rep.v); }
void assume_z(zz_p a) { symx::assume_zero(a._zz_p__rep.v); }
static long rp(const zz_p& a) { return a._zz_p__rep.v; }
void eq(zz_p a, zz_p b, const char* m) { symx::require_eq(rp(a), rp(b), m); }
void eq(long a, long b, const char* m) { symx::require_true(a == b, m); }
void check(bool b, const char* m) { symx::require_true(b, m); }
void nonzero(zz_p a, const char* m) { symx::require_nonzero(rp(a), m); }
void norm(const zz_pX& a, const char* m) { if (!a.rep.pending && a.rep.rawlen() > 0) symx::require_nonzero(rp(a.rep.elts()[a.rep.rawlen() - 1]), m); }
static long rl(const zz_pX& a) { return a.rep.rawlen(); }
static zz_p cf(const zz_pX& a, long i) { return i < a.rep.rawlen() ? a.rep.elts()[i] : to_zz_p(0); }
void flush() { symx::flush_requirements(); }
void obs(long a) { symx::observe(a); }
void obs(zz_p a) { symx::observe(rp(a)); }
bool raises(const std::function<void()>& f) { try { f(); return false; } catch (symx::Terminal&) { return true; } catch (std::logic_error&) { return true; } catch (std::runtime_error&) { return true; } }
bool iszero(const zz_pX& a) { return IsZero(a); }
bool runs(const std::function<void()>& f) { return !raises(f); }
#else
static std::vector<long> in_vars, in_ints; static size_t iv = 0, ii = 0;
static std::vector<long> out_obs;
static void need(bool b, const char* m) { if (!b) throw Fail{m}; }
zz_p sym() { long v = iv < in_vars.size() ? in_vars[iv] : 0; iv++; return mk(v % zz_p::modulus()); }
long symint(long lo, long) { long v = ii < in_ints.size() ? in_ints[ii] : lo; ii++; return v; }
void assume_nz(zz_p a) { if (IsZero(a)) throw PathEnd(); }
void assume_z(zz_p a) { if (!IsZero(a)) throw PathEnd(); }
static bool word_ok(const zz_p& a) { return a._zz_p__rep >= 0 && a._zz_p__rep < zz_p::modulus(); }
void eq(zz_p a, zz_p b, const char* m) { need(word_ok(a) && word_ok(b) && a == b, m); }
void eq(long a, long b, const char* m) { need(a == b, m); }
void check(bool b, const char* m) { need(b, m); }
void nonzero(zz_p a, const char* m) { need(!IsZero(a), m); }
void norm(const zz_pX& a, const char* m) { need(a.rep.length() == 0 || !IsZero(a.rep[a.rep.length() - 1]), m); }
static long rl(const zz_pX& a) { return a.rep.length(); }
static zz_p cf(const zz_pX& a, long i) { return i < a.rep.length() ? a.rep[i] : to_zz_p(0); }
void flush() { }
void obs(long a) { out_obs.push_back(a); }
void obs(zz_p a) { out_obs.push_back(a._zz_p__rep); }
// NTL's own error exit inside libntl.so is abort(): run f in a child; the effects of f are then lost
bool raises(const std::function<void()>& f)
{
   pid_t pid = fork(); if (pid < 0) return false;
   if (pid == 0) { try { f(); } catch (Terminal&) { _exit(7); } catch (...) { _exit(7); } _exit(0); }
   int st; waitpid(pid, &st, 0);
   return (WIFEXITED(st) && WEXITSTATUS(st) == 7) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
bool runs(const std::function<void()>& f) { if (raises(f)) return false; f(); return true; }
bool iszero(const zz_pX& a) { return IsZero(a); }
#endif

void eq(const zz_pX& a, const zz_pX& b, const char* m)
{
   long n = std::max(rl(a), rl(b));
   for (long i = 0; i < n; i++) eq(cf(a, i), cf(b, i), m);
   norm(a, m);
}
void below(const zz_pX& a, long d, const char* m) { for (long i = std::max(0L, d); i < rl(a); i++) eq(cf(a, i), to_zz_p(0), m); }
void below(const PMat& a, long d, const char* m) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) below(a[i][j], d, m); }
void zero(const zz_pX& a, const char* m) { for (long i = 0; i < rl(a); i++) eq(cf(a, i), to_zz_p(0), m); }
template<class V> static void eqv(const V& a, const V& b, const char* m) { check(a.length() == b.length(), m); for (long i = 0; i < a.length() && i < b.length(); i++) eq(a[i], b[i], m); }
void eq(const Vec<zz_p>& a, const Vec<zz_p>& b, const char* m) { eqv(a, b, m); }
void eq(const PVec& a, const PVec& b, const char* m) { eqv(a, b, m); }
void eq(const Vec<long>& a, const Vec<long>& b, const char* m) { eqv(a, b, m); }
template<class Mt> static void eqm(const Mt& a, const Mt& b, const char* m)
{
   bool d = a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(); check(d, m);
   if (d) for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) eq(a[i][j], b[i][j], m);
}
void eq(const Mat<zz_p>& a, const Mat<zz_p>& b, const char* m) { eqm(a, b, m); }
void eq(const PMat& a, const PMat& b, const char* m) { eqm(a, b, m); }
void zero(const PMat& a, const char* m) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) zero(a[i][j], m); }
// one digest per object keeps the logs small: fixed pseudo-random linear combination
static unsigned long ow(long i) { unsigned long x = (unsigned long) (i + 1) * 0x9E3779B97F4A7C15ul; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 32; return x; }
static zz_p wz(long i) { return mk((long) ((ow(i) >> 2) % (unsigned long) zz_p::modulus())); }
static void acc(zz_p& s, const zz_pX& a, long& k) { for (long i = 0; i < rl(a); i++) s += wz(k + i) * cf(a, i); k += 1000; }
void obs(const zz_pX& a) { zz_p s; long k = 0; acc(s, a, k); obs(s); }
void obs(const PMat& a) { zz_p s; long k = 0; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) acc(s, a[i][j], k); obs(s); }
void obs(const Vec<zz_p>& a) { zz_p s; for (long i = 0; i < a.length(); i++) s += wz(i) * a[i]; obs(s); }
void obs(const Mat<zz_p>& a) { zz_p s; long k = 0; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) s += wz(k++) * a[i][j]; obs(s); }

zz_pX poly(long len)
{
   zz_pX f; f.rep.SetLength(len); long lead = arg("lead", 0);
   for (long i = 0; i < len; i++) {
      if (i + 1 < len || lead == 0) f.rep[i] = coef();
      else if (lead == 1) { zz_p c; do c = rnd1(); while (IsZero(c)); f.rep[i] = c; }
      else { zz_p c = sym(); assume_nz(c); f.rep[i] = c; }
   }
   f.normalize(); return f;
}
zz_pX ref_mul(const zz_pX& a, const zz_pX& b)
{
   zz_pX c; long n = rl(a), m = rl(b); if (!n || !m) return c;
   c.rep.SetLength(n + m - 1);
   for (long k = 0; k < n + m - 1; k++) {
#ifdef VH_SYM
      std::vector<long> x, y; for (long i = std::max(0L, k - m + 1); i <= std::min(k, n - 1); i++) { x.push_back(rp(cf(a, i))); y.push_back(rp(cf(b, k - i))); }
      c.rep[k] = mk(symx::h_lincomb(x.data(), y.data(), x.size()));
#else
      zz_p s; for (long i = std::max(0L, k - m + 1); i <= std::min(k, n - 1); i++) s += cf(a, i) * cf(b, k - i);
      c.rep[k] = s;
#endif
   }
   c.normalize(); return c;
}
PMat ref_mul(const PMat& a, const PMat& b)
{
   PMat c; c.SetDims(a.NumRows(), b.NumCols());
   for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) for (long k = 0; k < a.NumCols(); k++) c[i][j] += ref_mul(a[i][k], b[k][j]);
   return c;
}
Mat<zz_p> ref_mul(const Mat<zz_p>& a, const Mat<zz_p>& b)
{
   Mat<zz_p> c; c.SetDims(a.NumRows(), b.NumCols());
   for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) for (long k = 0; k < a.NumCols(); k++) c[i][j] += a[i][k] * b[k][j];
   return c;
}
PMat ref_trunc(const PMat& a, long n) { PMat c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = trunc(a[i][j], n); return c; }
PMat ident_pmat(long n) { PMat c; c.SetDims(n, n); for (long i = 0; i < n; i++) c[i][i] = to_zz_pX(to_zz_p(1)); return c; }
PMat ref_sub(const PMat& a, const PMat& b) { PMat c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = a[i][j] - b[i][j]; return c; }
zz_p ref_eval(const zz_pX& a, zz_p x) { zz_p r; for (long i = rl(a) - 1; i >= 0; i--) r = r * x + cf(a, i); return r; }
template<class E, class Mt> static E detr(const Mt& a, const std::vector<long>& rows, long c, E (*prod)(const E&, const E&))
{  // Laplace expansion along the columns c, c+1, ..., one value per set of rows
   long n = rows.size(); std::vector<E> val(1L << n); set(val[0]);
   for (long S = 1; S < (1L << n); S++) {
      long sz = __builtin_popcountl(S), col = c + n - sz, t = 0; E s; clear(s);
      for (long i = 0; i < n; i++) if (S >> i & 1) { { E d = prod(a[rows[i]][col], val[S ^ (1L << i)]); if (t % 2) s -= d; else s += d; } t++; }
      val[S] = s;
   }
   return val[(1L << n) - 1];
}
static zz_pX pm(const zz_pX& a, const zz_pX& b) { return ref_mul(a, b); }
static zz_p sm(const zz_p& a, const zz_p& b) { return a * b; }
zz_pX ref_det(const PMat& a) { std::vector<long> r; for (long i = 0; i < a.NumRows(); i++) r.push_back(i); return detr<zz_pX, PMat>(a, r, 0, pm); }
zz_p ref_det(const Mat<zz_p>& a) { std::vector<long> r; for (long i = 0; i < a.NumRows(); i++) r.push_back(i); return detr<zz_p, Mat<zz_p> >(a, r, 0, sm); }
}

#ifdef VH_SYM
static void body() { harness(); }
int main(int argc, char** argv)
{
   for (int i = 1; i < argc; i++) { std::string s = argv[i]; size_t k = s.find('='); if (k != std::string::npos) vh::params[s.substr(0, k)] = s.substr(k + 1); }
   return symx::run(argc, argv, body);
}
#else
// Each input line "v v v ... | i i ..." is one replay, run in a child process.
static std::string one()
{
   std::ostringstream o;
   try {
      harness(); o << "OK";
   } catch (vh::Terminal& e) { o << "TERMINAL " << e.what; return o.str(); }
   catch (vh::PathEnd&) { o << "SKIP"; return o.str(); }
   catch (vh::Fail& e) { o << "FAIL " << e.what; return o.str(); }
   catch (std::exception& e) { o << "EXCEPTION " << e.what(); return o.str(); }
   catch (...) { o << "EXCEPTION"; return o.str(); }
   for (long v : vh::out_obs) o << " " << v;
   return o.str();
}
int main(int argc, char** argv)
{
   for (int i = 1; i < argc; i++) { std::string s = argv[i]; size_t k = s.find('='); if (k != std::string::npos) vh::params[s.substr(0, k)] = s.substr(k + 1); }
   int tmo = (int) vh::arg("timeout", 20);
   std::string line; long bad = 0;
   struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
   while (std::getline(std::cin, line)) {
      vh::in_vars.clear(); vh::in_ints.clear(); vh::out_obs.clear(); vh::iv = vh::ii = 0;
      std::istringstream is(line); std::string w; bool second = false;
      while (is >> w) { if (w == "|") second = true; else (second ? vh::in_ints : vh::in_vars).push_back(atol(w.c_str())); }
      int fd[2]; if (pipe(fd)) return 3;
      fflush(stdout);
      pid_t pid = fork(); if (pid < 0) return 3;
      if (pid == 0) {
         close(fd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
#ifndef __SANITIZE_ADDRESS__
         struct rlimit r2; r2.rlim_cur = r2.rlim_max = 4L << 30; setrlimit(RLIMIT_AS, &r2);
#endif
         struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = tmo; setitimer(ITIMER_PROF, &it, nullptr);
         std::string r = one(); if (write(fd[1], r.data(), r.size()) < 0) _exit(2); _exit(0);
      }
      close(fd[1]); std::string r; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, n);
      close(fd[0]); int stt; waitpid(pid, &stt, 0);
      if (WIFSIGNALED(stt)) { std::ostringstream o; o << (WTERMSIG(stt) == SIGPROF ? "HANG" : "CRASH signal ") << (WTERMSIG(stt) == SIGPROF ? 0 : WTERMSIG(stt)); r = o.str(); }
      else if (r.empty()) r = "CRASH exit";
      for (char& c : r) if (c == '\n') c = ' ';
      if (r.compare(0, 2, "OK") && r.compare(0, 4, "SKIP")) bad++;
      printf("%s\n", r.c_str());
   }
   return bad ? 1 : 0;
}
#endif

#ifndef VH_SYM
extern "C" long __real__ZN3NTL9RandomBndEl(long n);
extern "C" long __wrap__ZN3NTL9RandomBndEl(long n)
{
   if (vh::arg("draws", 0) && n == zz_p::modulus()) { zz_p x; if (vh::draw(x)) return x._zz_p__rep; }
   return __real__ZN3NTL9RandomBndEl(n);
}
#endif
