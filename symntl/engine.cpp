// Symbolic execution engine: term algebra, path exploration, z3 queries.
#include "engine.h"
#include <gmpxx.h>
#include <deque>
#include <z3++.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace symx {
typedef uint64_t u64;
typedef uint32_t u32;
typedef unsigned __int128 u128;
using std::vector; using std::pair; using std::string;

// ------------------------------------------------------------------ globals
static long P = 0;              // modulus of the run
static bool g_small = false;    // p small enough for bit-blasting
static bool g_generic = false;  // take only the generic (non-zero) side of undecided tests
static unsigned g_rlimit = 3000000, g_ztimeout = 3000; static double g_zcap = 6;
static FILE* g_log = nullptr;
static bool g_child = false;
static vector<pid_t> g_kids;
static u64 g_rng = 88172645463325252ull;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

struct Shared {
   volatile long paths, forks, skipped, queries, sat, unsat, unknown, undecided, cands, obligations, trivially, events, implied, unmodelled, errors, maxterms, branches, forced, uniroots;
   volatile double ztime;
   long max_paths, par; volatile long running;
   double deadline;
   void* volatile fns[8192];             // library functions executed
};
static Shared* S = nullptr;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
template<class T> static void bump(volatile T& x, T d = 1) { __sync_fetch_and_add((T*) &x, d); }

bool active() { return P != 0; }
long modulus() { return P; }

static inline u64 addm(u64 a, u64 b) { u64 c = a + b; return c >= (u64) P ? c - P : c; }
static inline u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static inline u64 mulm(u64 a, u64 b) { return (u64) ((u128) a * b % (u64) P); }
static u64 powm(u64 a, u64 e) { u64 r = 1 % P; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u64 invm(u64 a)
{
   long long r0 = P, r1 = a, s0 = 0, s1 = 1;
   while (r1) { long long q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; }
   if (r0 != 1) throw Terminal("InvMod: inverse undefined");
   return s0 < 0 ? s0 + P : s0;
}

// ------------------------------------------------------------------ monomials
typedef vector<pair<u32,u32>> ExpV;   // (var, exp) sorted by var
struct Mono { ExpV e; u32 deg; };
static vector<Mono> M;
static std::map<ExpV,u32> Midx;
static std::unordered_map<u64,u32> Mprod;
static u32 mono_id(const ExpV& e)
{
   auto it = Midx.find(e);
   if (it != Midx.end()) return it->second;
   Mono m; m.e = e; m.deg = 0; for (auto& x : e) m.deg += x.second;
   M.push_back(m); Midx[e] = M.size() - 1; return M.size() - 1;
}
static inline u32 redexp(u32 e) { // x^p = x on F_p
   if (P <= 64 && e >= (u32) P) e = (e - 1) % (P - 1) + 1;
   return e;
}
static u32 mono_mul(u32 a, u32 b)
{
   if (a == 0) return b;
   if (b == 0) return a;
   if (a > b) std::swap(a, b);
   u64 k = ((u64) a << 32) | b;
   auto it = Mprod.find(k); if (it != Mprod.end()) return it->second;
   ExpV r; const ExpV &x = M[a].e, &y = M[b].e; size_t i = 0, j = 0;
   while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
      else { r.push_back({x[i].first, redexp(x[i].second + y[j].second)}); i++; j++; }
   }
   u32 id = mono_id(r); Mprod[k] = id; return id;
}
// ------------------------------------------------------------------ polynomials
typedef vector<pair<u32,u64>> Poly;   // sorted by monomial id, no zero coefficients
static Poly pconst(u64 c) { Poly r; if (c) r.push_back({0, c}); return r; }
static bool is_const(const Poly& a) { return a.empty() || (a.size() == 1 && a[0].first == 0); }
static u64 const_val(const Poly& a) { return a.empty() ? 0 : a[0].second; }
static Poly padd(const Poly& a, const Poly& b, bool neg)
{
   Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
   while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, neg ? P - b[j].second : b[j].second}); j++; }
      else { u64 c = neg ? subm(a[i].second, b[j].second) : addm(a[i].second, b[j].second); if (c) r.push_back({a[i].first, c}); i++; j++; }
   }
   return r;
}
static Poly pscale(const Poly& a, u64 c)
{
   Poly r; if (c == 0) return r; if (c == 1) return a;
   r.reserve(a.size()); for (auto& t : a) r.push_back({t.first, mulm(t.second, c)});
   return r;
}
static const size_t MAXTERMS = 60000;
static Poly pmul(const Poly& a, const Poly& b)
{
   if (a.empty() || b.empty()) return Poly();
   if (is_const(a)) return pscale(b, a[0].second);
   if (is_const(b)) return pscale(a, b[0].second);
   if (a.size() * b.size() > 40000000ull) throw Unmodelled("term too large");
   Poly v;
   if (a.size() == 1 || b.size() == 1) {
      const Poly &s = a.size() == 1 ? a : b, &l = a.size() == 1 ? b : a;
      for (auto& t : l) v.push_back({mono_mul(t.first, s[0].first), mulm(t.second, s[0].second)});
   } else {
      std::unordered_map<u32,u64> acc; acc.reserve(a.size() + b.size());
      for (auto& x : a) for (auto& y : b) { u64& c = acc[mono_mul(x.first, y.first)]; c = addm(c, mulm(x.second, y.second)); }
      for (auto& t : acc) if (t.second) v.push_back(t);
   }
   std::sort(v.begin(), v.end());
   // merge duplicates (possible after exponent reduction in the monomial case)
   Poly r; for (auto& t : v) { if (!r.empty() && r.back().first == t.first) { r.back().second = addm(r.back().second, t.second); if (!r.back().second) r.pop_back(); } else r.push_back(t); }
   if (r.size() > MAXTERMS) throw Unmodelled("term too large");
   if ((long) r.size() > S->maxterms) S->maxterms = r.size();
   return r;
}
static Poly ppow(const Poly& a, u32 e) { Poly r = pconst(1), b = a; while (e) { if (e & 1) r = pmul(r, b); e >>= 1; if (e) b = pmul(b, b); } return r; }
static u64 peval(const Poly& a, const vector<u64>& m)
{
   u64 s = 0;
   for (auto& t : a) { u64 c = t.second; for (auto& x : M[t.first].e) c = mulm(c, x.second == 1 ? m[x.first] : powm(m[x.first], x.second)); s = addm(s, c); }
   return s;
}
static bool mono_less(u32 a, u32 b) // graded lex
{
   if (a == b) return false;
   const Mono &x = M[a], &y = M[b];
   if (x.deg != y.deg) return x.deg < y.deg;
   size_t i = 0;
   while (i < x.e.size() && i < y.e.size()) {
      if (x.e[i].first != y.e[i].first) return x.e[i].first > y.e[i].first;
      if (x.e[i].second != y.e[i].second) return x.e[i].second < y.e[i].second;
      i++;
   }
   return x.e.size() < y.e.size();
}
static u32 lead(const Poly& a) { u32 b = a[0].first; for (auto& t : a) if (mono_less(b, t.first)) b = t.first; return b; }
static bool mono_div(u32 a, u32 b, u32& q)
{
   if (b == 0) { q = a; return true; }
   ExpV r; const ExpV &x = M[a].e, &y = M[b].e; size_t i = 0;
   for (auto& t : y) {
      while (i < x.size() && x[i].first < t.first) r.push_back(x[i++]);
      if (i == x.size() || x[i].first != t.first || x[i].second < t.second) return false;
      if (x[i].second > t.second) r.push_back({t.first, x[i].second - t.second});
      i++;
   }
   while (i < x.size()) r.push_back(x[i++]);
   q = mono_id(r); return true;
}
// exact division; checks the product afterwards, so sound whatever the reductions did
static bool pdiv_exact(const Poly& a, const Poly& b, Poly& q)
{
   if (a.empty()) { q.clear(); return true; }
   if (is_const(b)) { q = pscale(a, invm(const_val(b))); return true; }
   if (a.size() > 4000 || b.size() > 1000) return false;
   if (P <= 64 && false) return false;
   struct Cmp { bool operator()(u32 x, u32 y) const { return mono_less(y, x); } };
   u32 lb = lead(b); u64 lbi = 0; for (auto& t : b) if (t.first == lb) lbi = invm(t.second);
   { u32 t; if (!mono_div(lead(a), lb, t)) return false; }
   std::map<u32,u64,Cmp> r; for (auto& t : a) r[t.first] = t.second;
   Poly qq; size_t steps = 0;
   while (!r.empty()) {
      u32 l = r.begin()->first, m; u64 c = r.begin()->second;
      if (!mono_div(l, lb, m)) return false;
      u64 f = mulm(c, lbi); qq.push_back({m, f});
      for (auto& t : b) {
         u32 id = mono_mul(t.first, m); u64 d = mulm(t.second, f);
         auto it = r.find(id);
         if (it == r.end()) r[id] = subm(0, d); else { it->second = subm(it->second, d); if (!it->second) r.erase(it); }
      }
      if (!r.empty() && r.begin()->first == l) return false;   // no progress (exponent reduction)
      if (++steps > 3000) return false;
   }
   std::sort(qq.begin(), qq.end());
   for (size_t i = 1; i < qq.size(); i++) if (qq[i].first == qq[i-1].first) return false;
   if (padd(pmul(qq, b), a, true).size()) return false;
   q = qq; return true;
}
// ------------------------------------------------------------------ fractions, factors, terms
typedef vector<pair<u32,u32>> Den;    // (factor index, exponent), sorted
struct Frac { Poly n; Den d; };
static vector<Poly> F;                 // factors known to be non-zero on this path (monic in first term)
static std::map<Poly,u32> Fidx;
struct Term { Frac f; u32 epoch; int kind; long ref; long double ub; bool raw; };
static std::deque<Term> T;
static std::map<pair<Poly,Den>,long> Tidx;
static u32 g_epoch = 0;
struct Subst { u32 var; Frac val; };
static vector<Subst> subs;            // epoch i -> subs[i]
static vector<char> elim;             // variable eliminated?
static vector<string> vnames;
static vector<u64> model;             // satisfies the path condition at all times
static vector<long> ints;
struct Con { Poly p; bool eq; };
static vector<Con> cons;              // current (substituted) constraints

unsigned long term_count = 0;
static long mk_handle(size_t i) { if (i >= 0xFFFFFFFFul) throw Unmodelled("too many terms"); if (i + 1 > term_count) term_count = i + 1; return (0x5EEDL << 48) | (long) ((((unsigned long) (unsigned) i * 0x9E3779B1ul) >> 13 & 0xFFFF) << 32) | (long) i; }
static size_t idx(long h) { return (size_t) (h & 0xFFFFFFFFL); }

static u32 factor_id(const Poly& monic)
{
   auto it = Fidx.find(monic); if (it != Fidx.end()) return it->second;
   F.push_back(monic); Fidx[monic] = F.size() - 1; return F.size() - 1;
}
static Den den_add(const Den& a, const Den& b)
{
   Den r; size_t i = 0, j = 0;
   while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
   }
   return r;
}
static Poly den_poly(const Den& d) { Poly r = pconst(1); for (auto& x : d) r = pmul(r, ppow(F[x.first], x.second)); return r; }
static void simplify(Frac& f)
{
   if (f.n.empty()) { f.d.clear(); return; }
   for (size_t i = 0; i < f.d.size();) {
      Poly q;
      bool adv = true;
      while (f.d[i].second > 0 && pdiv_exact(f.n, F[f.d[i].first], q)) { f.n = q; if (--f.d[i].second == 0) { f.d.erase(f.d.begin() + i); adv = false; break; } }
      if (adv) i++;
   }
}
static Frac fadd(const Frac& a, const Frac& b, bool neg)
{
   Frac r;
   if (a.d == b.d) { r.n = padd(a.n, b.n, neg); r.d = a.d; if (!r.d.empty()) simplify(r); return r; }
   if (a.n.empty()) { r.n = neg ? padd(Poly(), b.n, true) : b.n; r.d = b.d; return r; }
   if (b.n.empty()) return a;
   Den l; size_t i = 0, j = 0; Den ca, cb; // cofactors
   while (i < a.d.size() || j < b.d.size()) {
      if (j == b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) { l.push_back(a.d[i]); cb.push_back(a.d[i]); i++; }
      else if (i == a.d.size() || b.d[j].first < a.d[i].first) { l.push_back(b.d[j]); ca.push_back(b.d[j]); j++; }
      else {
         u32 f = a.d[i].first, ea = a.d[i].second, eb = b.d[j].second, m = std::max(ea, eb);
         l.push_back({f, m}); if (m > ea) ca.push_back({f, m - ea}); if (m > eb) cb.push_back({f, m - eb}); i++; j++;
      }
   }
   r.n = padd(pmul(a.n, den_poly(ca)), pmul(b.n, den_poly(cb)), neg); r.d = l; simplify(r); return r;
}
static Frac fmul(const Frac& a, const Frac& b)
{
   Frac r;
   if (a.d.empty() && b.d.empty()) { r.n = pmul(a.n, b.n); return r; }
   Frac x = a, y = b;
   // cross-cancel first
   { Frac u; u.n = x.n; u.d = y.d; simplify(u); x.n = u.n; y.d = u.d; }
   { Frac u; u.n = y.n; u.d = x.d; simplify(u); y.n = u.n; x.d = u.d; }
   r.n = pmul(x.n, y.n); r.d = den_add(x.d, y.d); if (r.n.empty()) r.d.clear(); return r;
}
// substitute variable by fraction in polynomial
static bool uses(const Poly& a, u32 v) { for (auto& t : a) for (auto& x : M[t.first].e) if (x.first == v) return true; return false; }
static Frac psubst(const Poly& a, u32 v, const Frac& val)
{
   std::map<u32,Poly> byexp;
   for (auto& t : a) {
      u32 e = 0; ExpV r; for (auto& x : M[t.first].e) if (x.first == v) e = x.second; else r.push_back(x);
      byexp[e].push_back({mono_id(r), t.second});
   }
   for (auto& b : byexp) std::sort(b.second.begin(), b.second.end());
   Frac res; u32 maxe = byexp.empty() ? 0 : byexp.rbegin()->first;
   if (val.d.empty()) {
      Poly acc; // Horner
      u32 cur = maxe;
      for (auto it = byexp.rbegin(); it != byexp.rend(); ++it) { while (cur > it->first) { acc = pmul(acc, val.n); cur--; } acc = padd(acc, it->second, false); }
      while (cur > 0) { acc = pmul(acc, val.n); cur--; }
      res.n = acc; return res;
   }
   for (auto& b : byexp) { Frac c; c.n = b.second; Frac pw; pw.n = pconst(1); for (u32 i = 0; i < b.first; i++) pw = fmul(pw, val); res = fadd(res, fmul(c, pw), false); }
   return res;
}
static Frac invfactor(const Poly& p); // 1/p for p non-zero on this path
static Frac fsubst(const Frac& f, u32 v, const Frac& val)
{
   Frac r = uses(f.n, v) ? psubst(f.n, v, val) : Frac{f.n, Den()};
   for (auto& x : f.d) {
      Frac g;
      if (uses(F[x.first], v)) {
         Frac s = psubst(F[x.first], v, val);      // non-zero on this path
         Frac i = invfactor(s.n); Frac dn; dn.n = den_poly(s.d); g = fmul(i, dn);
      } else { g.n = pconst(1); g.d.push_back({x.first, 1}); }
      for (u32 i = 0; i < x.second; i++) r = fmul(r, g);
   }
   return r;
}
static u64 feval(const Frac& f, const vector<u64>& m);
static const bool g_selfcheck = getenv("SYM_CHECK") != nullptr;
static const Frac& get(long h)
{
   Term& t = T[idx(h)];
   if (g_selfcheck && t.epoch < g_epoch) {
      for (u32 e = t.epoch; e < g_epoch; e++) if (model[subs[e].var] != feval(subs[e].val, model)) fprintf(stderr, "SELFCHECK subst %u var %u\n", e, subs[e].var);
      Frac g = t.f; u64 v0 = feval(g, model);
      for (u32 e = t.epoch; e < g_epoch; e++) g = fsubst(g, subs[e].var, subs[e].val);
      if (feval(g, model) != v0) fprintf(stderr, "SELFCHECK term %zu changes value on substitution\n", idx(h));
   }
   while (t.epoch < g_epoch) { u32 e = t.epoch; Frac nf = fsubst(t.f, subs[e].var, subs[e].val); Term& t2 = T[idx(h)]; t2.f = nf; t2.epoch = e + 1; }
   return T[idx(h)].f;
}
static long mk_term(const Frac& f, long double ub = 0, bool raw = false)
{
   if (!raw && f.d.empty() && is_const(f.n)) return (long) const_val(f.n);
   if (!raw) {
      auto k = std::make_pair(f.n, f.d); auto it = Tidx.find(k);
      if (it != Tidx.end() && T[idx(it->second)].epoch == g_epoch) return it->second;
      Term t; t.f = f; t.epoch = g_epoch; t.kind = 0; t.ref = 0; t.ub = 0; t.raw = false;
      T.push_back(t); long h = mk_handle(T.size() - 1);
      if (f.n.size() < 200) Tidx[k] = h;
      return h;
   }
   Term t; t.f = f; t.epoch = g_epoch; t.kind = 0; t.ref = 0; t.ub = ub; t.raw = true;
   T.push_back(t); return mk_handle(T.size() - 1);
}
static Frac frac_of(long a)
{
   if (is_h(a)) { if (T[idx(a)].kind) throw Unmodelled("use of a high word"); return get(a); }
   Frac f; long r = a % P; if (r < 0) r += P; f.n = pconst(r); return f;
}
static bool is_raw(long a) { return is_h(a) && T[idx(a)].raw; }
static long double ubound(long a) { if (!is_h(a)) return a < 0 ? 1e30L : (long double) a; return T[idx(a)].raw ? T[idx(a)].ub : (long double) (P - 1); }

// ------------------------------------------------------------------ logging
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char) c < 32) r += ' '; else r += c; } return r; }
static string model_json(const vector<u64>& m)
{
   std::ostringstream o; o << "\"vars\":["; for (size_t i = 0; i < m.size(); i++) o << (i ? "," : "") << m[i];
   o << "],\"ints\":["; for (size_t i = 0; i < ints.size(); i++) o << (i ? "," : "") << ints[i]; o << "]"; return o.str();
}
static void logline(const string& s) { string t = s + "\n"; if (write(fileno(g_log), t.data(), t.size()) < 0) { } }
static vector<u64> max_model()
{
   vector<u64> m(model.size(), P - 1);
   return m;
}
static long g_cands_here = 0;
static void candidate(const char* kind, const string& msg, const vector<u64>& m)
{
   bump(S->cands); g_cands_here++;
   logline(string("{\"type\":\"cand\",\"kind\":\"") + kind + "\",\"msg\":\"" + jesc(msg) + "\"," + model_json(m) + "}");
}
void event(const char* msg)
{
   bump(S->events);
   static std::set<string> seen; if (seen.insert(msg).second) { candidate("event", msg, model); candidate("event", msg, max_model()); }
}
// ------------------------------------------------------------------ z3
static z3::context* zc = nullptr;
static std::map<u32,z3::expr>* zv = nullptr;
static std::map<u32,z3::expr>* zm = nullptr;
static std::map<Poly,z3::expr>* zp = nullptr;
static int zw = 0;
static z3::context& Z()
{
   if (!zc) {
      zc = new z3::context(); zv = new std::map<u32,z3::expr>(); zm = new std::map<u32,z3::expr>(); zp = new std::map<Poly,z3::expr>();
      int b = 1; while ((1L << b) < P) b++;
      zw = 2 * b + 5;
   }
   return *zc;
}
static z3::expr zvar(u32 v)
{
   auto it = zv->find(v); if (it != zv->end()) return it->second;
   string n = "v" + std::to_string(v);
   z3::expr e = g_small ? Z().bv_const(n.c_str(), zw) : Z().int_const(n.c_str());
   zv->insert({v, e}); return e;
}
static z3::expr znum(u64 c) { return g_small ? Z().bv_val((uint64_t) c, zw) : Z().int_val((uint64_t) c); }
static z3::expr zmod(const z3::expr& e) { return g_small ? z3::urem(e, znum(P)) : z3::mod(e, znum(P)); }
static z3::expr zmono(u32 m)
{
   auto it = zm->find(m); if (it != zm->end()) return it->second;
   ExpV e = M[m].e; z3::expr r = znum(1);
   if (!e.empty()) {
      u32 v = e.back().first; ExpV q = e; if (--q.back().second == 0) q.pop_back();
      if (q.empty()) r = zvar(v); else r = zmod(zmono(mono_id(q)) * zvar(v));
   }
   zm->insert({m, r}); return r;
}
static z3::expr zpoly(const Poly& p)
{
   Z(); auto it = zp->find(p); if (it != zp->end()) return it->second;
   z3::expr s = znum(0); int k = 0; bool first = true;
   for (auto& t : p) {
      z3::expr m = t.first == 0 ? znum(t.second) : t.second == 1 ? zmono(t.first) : znum(t.second) * zmono(t.first);
      if (first) { s = m; first = false; } else s = s + m;
      if (g_small && ++k == 24) { s = zmod(s); k = 0; }
   }
   s = zmod(s); zp->insert({p, s}); return s;
}
static void pvars(const Poly& p, std::set<u32>& s) { for (auto& t : p) for (auto& x : M[t.first].e) s.insert(x.first); }
static bool model_ok(const vector<u64>& m)
{
   for (auto& c : cons) { u64 v = peval(c.p, m); if ((v == 0) != c.eq) return false; }
   return true;
}
static u64 feval(const Frac& f, const vector<u64>& m)
{
   u64 v = peval(f.n, m);
   for (auto& x : f.d) { u64 d = peval(F[x.first], m); if (!d) throw Unmodelled("vanishing denominator"); v = mulm(v, powm(invm(d), x.second)); }
   return v;
}
static bool complete(vector<u64>& m) // recompute eliminated variables
{
   try { for (size_t i = subs.size(); i-- > 0;) m[subs[i].var] = feval(subs[i].val, m); } catch (...) { return false; }
   return true;
}
// ---- roots of univariate polynomials over GF(P) (to find models; every model is confirmed by evaluation)
typedef vector<u64> Uni;
static void utrim(Uni& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
static Uni umod(Uni a, const Uni& f) // f monic
{
   size_t n = f.size() - 1;
   while (a.size() > n) { u64 c = a.back(); size_t o = a.size() - 1 - n; if (c) for (size_t i = 0; i < n; i++) a[o + i] = subm(a[o + i], mulm(c, f[i])); a.pop_back(); }
   utrim(a); return a;
}
static Uni umul(const Uni& a, const Uni& b) { if (a.empty() || b.empty()) return Uni(); Uni r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = addm(r[i + j], mulm(a[i], b[j])); utrim(r); return r; }
static Uni umonic(Uni a) { u64 c = invm(a.back()); for (u64& x : a) x = mulm(x, c); return a; }
static Uni ugcd(Uni a, Uni b) { while (!b.empty()) { b = umonic(b); Uni r = umod(a, b); a = b; b = r; } return a.empty() ? a : umonic(a); }
static Uni upow(const Uni& b, u64 e, const Uni& f) { Uni r(1, 1), x = umod(b, f); r = umod(r, f); while (e) { if (e & 1) r = umod(umul(r, x), f); x = umod(umul(x, x), f); e >>= 1; } return r; }
static bool uni_root(Uni f, u64& root)
{
   utrim(f); if (f.size() < 2 || P < 3) return false;
   f = umonic(f);
   if (f.size() > 2) { Uni xp = upow(Uni{0, 1}, P, f); xp.resize(std::max<size_t>(xp.size(), 2), 0); xp[1] = subm(xp[1], 1); utrim(xp); f = xp.empty() ? f : ugcd(f, xp); }
   for (int it = 0; f.size() > 2 && it < 100; it++) {
      Uni g = upow(Uni{rnd() % P, 1}, (P - 1) / 2, f); if (g.empty()) g.push_back(0); g[0] = subm(g[0], 1); utrim(g); if (g.empty()) continue;
      Uni h = ugcd(f, g); if (h.size() > 1 && h.size() < f.size()) f = h;
   }
   if (f.size() != 2) return false;
   root = subm(0, f[0]); return true;
}
// all roots in GF(P), P odd
static bool uni_roots(Uni f, vector<u64>& out)
{
   utrim(f); f = umonic(f); Uni xp = upow(Uni{0, 1}, P, f); xp.resize(std::max<size_t>(xp.size(), 2), 0); xp[1] = subm(xp[1], 1); utrim(xp); if (!xp.empty()) f = ugcd(f, xp);
   vector<Uni> todo(1, f);
   for (int it = 0; !todo.empty(); it++) {
      if (it > 4000) return false;
      Uni g = todo.back(); todo.pop_back();
      if (g.size() < 2) continue;
      if (g.size() == 2) { out.push_back(subm(0, g[0])); continue; }
      Uni h = upow(Uni{rnd() % P, 1}, (P - 1) / 2, g); if (h.empty()) h.push_back(0); h[0] = subm(h[0], 1); utrim(h); if (h.empty()) { todo.push_back(g); continue; }
      Uni d = ugcd(g, h); if (d.size() < 2 || d.size() == g.size()) { todo.push_back(g); continue; }
      Uni q, a = g; q.assign(g.size() - d.size() + 1, 0); while (a.size() >= d.size()) { u64 c = a.back(); size_t o = a.size() - d.size(); q[o] = c; for (size_t i = 0; i < d.size(); i++) a[o + i] = subm(a[o + i], mulm(c, d[i])); a.pop_back(); }
      todo.push_back(d); todo.push_back(umonic(q));
   }
   std::sort(out.begin(), out.end()); return true;
}
// Remainder of q by the equality constraints of the path (each step subtracts a multiple of
// a polynomial that vanishes on the path): zero means q = 0 is implied.
struct MonoDesc { bool operator()(u32 x, u32 y) const { return mono_less(y, x); } };
static Poly eq_reduce(const Poly& q, size_t skip = ~0ul)
{
   vector<const Poly*> g; vector<u32> ld; vector<u64> li;
   for (size_t i = 0; i < cons.size(); i++) if (cons[i].eq && i != skip && cons[i].p.size() <= 400) { g.push_back(&cons[i].p); u32 l = lead(cons[i].p); ld.push_back(l); u64 c = 0; for (auto& t : cons[i].p) if (t.first == l) c = t.second; li.push_back(invm(c)); }
   if (g.empty() || q.size() > 4000) return q;
   std::map<u32,u64,MonoDesc> r; for (auto& t : q) r[t.first] = t.second;
   Poly rest; size_t steps = 0, work = 0;
   while (!r.empty()) {
      u32 l = r.begin()->first, m = 0; u64 c = r.begin()->second; size_t k = 0;
      while (k < g.size() && !mono_div(l, ld[k], m)) k++;
      if (k == g.size()) { rest.push_back({l, c}); r.erase(r.begin()); continue; }
      u64 f = mulm(c, li[k]);
      for (auto& t : *g[k]) { u32 id = mono_mul(t.first, m); u64 d = mulm(t.second, f); auto it = r.find(id); if (it == r.end()) r[id] = subm(0, d); else { it->second = subm(it->second, d); if (!it->second) r.erase(it); } }
      auto it = r.find(l); if (it != r.end()) return q;   // no progress (exponent reduction)
      work += g[k]->size(); if (++steps > 20000 || work > 400000 || r.size() > 20000) return q;
   }
   std::sort(rest.begin(), rest.end());
   return rest;
}
// Is  cons /\ (q = 0 or q != 0)  satisfiable?  1 sat (m filled), 0 unsat, -1 unknown
static bool quick_model(const Poly& q, bool eq, vector<u64>& m)
{
   std::set<u32> vs; pvars(q, vs); vector<u32> vv(vs.begin(), vs.end());
   if (vv.empty()) return false;
   int tries = eq ? 24 : 16;
   for (int t = 0; t < tries; t++) {
      vector<u64> c = model;
      for (u32 v : vv) if (t > 4 || rnd() % 2) c[v] = rnd() % P;
      if (t > 12) for (size_t v = 0; v < c.size(); v++) if (!elim[v]) c[v] = rnd() % P;
      if (eq) { // pick a variable, try to solve for it (degree one at this point) or scan small fields
         u32 v = vv[rnd() % vv.size()];
         u64 k = 1; bool ok = false;
         if (P <= 64) { u64 s = rnd() % P; for (k = 0; k < (u64) P; k++) { c[v] = (s + k) % P; if (peval(q, c) == 0) { ok = true; break; } } }
         else { Uni f; for (auto& t : q) { u64 w = t.second; u32 e = 0; for (auto& x : M[t.first].e) { if (x.first == v) e = x.second; else w = mulm(w, powm(c[x.first], x.second)); } if (f.size() <= e) f.resize(e + 1, 0); f[e] = addm(f[e], w); }
            u64 rt; if (f.size() <= 24 && uni_root(f, rt)) { c[v] = rt; ok = peval(q, c) == 0; } }
         if (!ok) continue;
      } else if (peval(q, c) == 0) continue;
      if (!model_ok(c)) continue;
      if (!complete(c)) continue;
      m = c; return true;
   }
   return false;
}
static std::set<u32> slice(const Poly& q, vector<size_t>& sel)
{
   std::set<u32> vs; pvars(q, vs); vector<char> in(cons.size(), 0); bool ch = true;
   while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!in[i]) { std::set<u32> s; pvars(cons[i].p, s); bool hit = false; for (u32 v : s) if (vs.count(v)) hit = true; if (hit) { in[i] = 1; sel.push_back(i); for (u32 v : s) vs.insert(v); ch = true; } } }
   return vs;
}
static int z3_check(z3::solver& s, const std::set<u32>& vs, vector<u64>* m)
{
   double t0 = now(); int r = -1;
   z3::check_result cr = z3::unknown;
   try { cr = s.check(); } catch (z3::exception& e) { cr = z3::unknown; }
   double dt = now() - t0; S->ztime = S->ztime + dt; bump(S->queries);
   if (cr == z3::unsat) { bump(S->unsat); r = 0; }
   else if (cr == z3::sat) {
      bump(S->sat); r = 1;
      if (m) { z3::model zmod_ = s.get_model(); vector<u64> c = model;
         for (u32 v : vs) { z3::expr e = zmod_.eval(zvar(v), true); uint64_t x = 0; if (Z3_get_numeral_uint64(Z(), e, &x)) c[v] = x % P; }
         if (model_ok(c) && complete(c)) *m = c; else r = -1; }
   } else bump(S->unknown);
   return r;
}
static void z3_base(z3::solver& s, const std::set<u32>& vs, const vector<size_t>& sel, bool full)
{
   z3::params pr(Z()); pr.set("rlimit", full ? g_rlimit : std::min<unsigned>(g_rlimit, 300000u)); pr.set("random_seed", 1u); if (!g_small) pr.set("timeout", S->ztime > g_zcap ? 20u : full ? g_ztimeout : 1000u); s.set(pr);
   for (u32 v : vs) { if (g_small) s.add(z3::ult(zvar(v), znum(P))); else { s.add(zvar(v) >= 0); s.add(zvar(v) < znum(P)); } }
   for (size_t i : sel) { z3::expr e = zpoly(cons[i].p); s.add(cons[i].eq ? e == znum(0) : e != znum(0)); }
}
// cheap core solver first, the full tactic solver when it gives up
static int z3_decide(const z3::expr& goal, const std::set<u32>& vs, const vector<size_t>& sel, vector<u64>& m)
{
   { z3::solver s(Z(), z3::solver::simple()); z3_base(s, vs, sel, false); s.add(goal); int r = z3_check(s, vs, &m); if (r >= 0) return r; }
   if (!g_small && S->ztime > g_zcap) return -1; // the run spent its share of solver time on queries over a big field
   z3::solver s(Z()); z3_base(s, vs, sel, true); s.add(goal); return z3_check(s, vs, &m);
}
static int feasible(const Poly& q, bool eq, vector<u64>& m)
{
   { Poly r = eq_reduce(q); if (is_const(r) && r.empty() != eq) { bump(S->implied); return 0; } }
   if (quick_model(q, eq, m)) {           // model at hand; confirmed by evaluation of every constraint
      return 1;
   }
   Z(); vector<size_t> sel; std::set<u32> vs = slice(q, sel);
   z3::expr e = zpoly(q);
   return z3_decide(eq ? e == znum(0) : e != znum(0), vs, sel, m);
}
// ------------------------------------------------------------------ path exploration
static bool fork_other() // true in the child
{
   if (S->forks + 1 >= S->max_paths || now() > S->deadline) { bump(S->skipped); return false; }
   bump(S->forks);
   fflush(stdout); fflush(stderr);
   bool par = S->running < S->par;
   if (par) bump(S->running);
   pid_t pid = fork();
   if (pid < 0) { if (par) bump(S->running, -1L); bump(S->skipped); return false; }
   if (pid == 0) {
      g_child = true; g_kids.clear(); g_cands_here = 0;
      struct itimerval it; memset(&it, 0, sizeof it); getitimer(ITIMER_PROF, &it);
      extern void arm_timer(); arm_timer();
      return true;
   }
   if (par) g_kids.push_back(pid);
   else { int st; waitpid(pid, &st, 0); extern void note_status(int); note_status(st); }
   return false;
}
void note_status(int st)
{
   if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) bump(S->errors);
}
static double g_pathtime = 60;
void arm_timer() { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long) g_pathtime; setitimer(ITIMER_PROF, &it, nullptr); }

static Poly monic(const Poly& p, u64& lc) { lc = p[0].second; return lc == 1 ? p : pscale(p, invm(lc)); }
// strip factors already known to be non-zero
static Poly strip_known(Poly p)
{
   bool ch = true;
   while (ch && !is_const(p)) {
      ch = false; u64 lc; Poly m = monic(p, lc);
      if (Fidx.count(m)) { return pconst(1); }
      if (p.size() > 600) break;
      for (size_t i = 0; i < F.size(); i++) {
         if (F[i].size() > p.size() * 4 + 4) continue;
         Poly q; if (!is_const(F[i]) && pdiv_exact(p, F[i], q)) { p = q; ch = true; break; }
      }
   }
   return p;
}
static void add_constraint(Poly p, bool eq);
static bool branch_poly(Poly p);   // truth value of p == 0 on this path
static void eliminate(u32 v, const Frac& val)
{
   subs.push_back({v, val}); elim[v] = 1; g_epoch++;
   // re-normalise factors and constraints
   vector<Con> old; old.swap(cons);
   vector<Poly> nz;
   for (auto& c : old) {
      if (!uses(c.p, v)) { cons.push_back(c); continue; }
      Poly q = psubst(c.p, v, val).n;
      if (is_const(q)) { bool z = q.empty(); if (z != c.eq) throw PathEnd(); continue; }
      if (c.eq) cons.push_back({q, true});
      else nz.push_back(q);
   }
   for (auto& q : nz) { u64 lc; Poly m = monic(q, lc); factor_id(m); cons.push_back({m, false}); }
   if (!model_ok(model)) throw Unmodelled("model lost on elimination");
}
static Frac invfactor(const Poly& p)
{
   Frac r;
   if (is_const(p)) { if (p.empty()) throw Unmodelled("zero factor"); r.n = pconst(invm(const_val(p))); return r; }
   u64 lc; Poly m = monic(p, lc); 
   // split into known factors where possible
   Den d; Poly rest = m;
   auto it = Fidx.find(m);
   if (it == Fidx.end()) for (size_t i = 0; i < F.size() && !is_const(rest); i++) { Poly q; u32 e = 0; while (!is_const(F[i]) && F[i].size() <= rest.size() * 4 + 4 && pdiv_exact(rest, F[i], q)) { rest = q; e++; } if (e) d.push_back({(u32) i, e}); }
   if (!is_const(rest)) { u64 l2; Poly m2 = monic(rest, l2); d.push_back({factor_id(m2), 1}); lc = mulm(lc, l2); }
   else lc = mulm(lc, const_val(rest));
   std::sort(d.begin(), d.end());
   Den dd; for (auto& x : d) { if (!dd.empty() && dd.back().first == x.first) dd.back().second += x.second; else dd.push_back(x); }
   r.n = pconst(invm(lc)); r.d = dd; return r;
}
// the current model satisfies the constraint being added
static void add_constraint(Poly p, bool eq)
{
   if (is_const(p)) { if (p.empty() != eq) throw PathEnd(); return; }
   u64 lc; Poly m = monic(p, lc);
   if (!eq) {
      if (P == 2) { add_constraint(padd(m, pconst(1), true), true); return; }
      factor_id(m); cons.push_back({m, false});
      return;
   }
   // solve for a variable of degree one with constant (or known non-zero) coefficient
   std::set<u32> vs; pvars(m, vs);
   long best = -1; size_t bs = ~0ul; Poly bc, br;
   for (u32 v : vs) {
      Poly c, r; bool lin = true;
      for (auto& t : m) {
         u32 e = 0; ExpV o; for (auto& x : M[t.first].e) if (x.first == v) e = x.second; else o.push_back(x);
         if (e > 1) { lin = false; break; }
         if (e == 1) c.push_back({mono_id(o), t.second}); else r.push_back(t);
      }
      if (!lin) continue;
      std::sort(c.begin(), c.end()); std::sort(r.begin(), r.end());
      size_t sz = is_const(c) ? 0 : c.size();
      if (sz < bs) { bs = sz; best = v; bc = c; br = r; }
   }
   if (best >= 0) {
      if (!is_const(bc)) {
         Poly k = strip_known(bc);
         if (!is_const(k)) {
            cons.push_back({m, true});     // models found while branching must satisfy it
            if (branch_poly(bc)) { add_constraint(strip_known(psubst(br, (u32) best, Frac{Poly(), Den()}).n), true); return; }
            // the constraint may have been rewritten by what the branch learnt: start over
            Frac f; f.n = m; for (size_t e = 0; e < subs.size(); e++) f = fsubst(f, subs[e].var, subs[e].val);
            Poly m2 = strip_known(f.n);
            if (elim[best] || m2 != m) { add_constraint(m2, true); return; }
            u64 l3; Poly mc = monic(bc, l3); factor_id(mc);
         }
      }
      Frac val; val.n = padd(Poly(), br, true);
      val = fmul(val, invfactor(bc));
      eliminate((u32) best, val);
      return;
   }
   if (P <= 31) { // split on the value of a variable occurring with high degree
      std::map<u32,u32> dg; for (auto& t : m) for (auto& x : M[t.first].e) dg[x.first] = std::max(dg[x.first], x.second);
      u32 v = dg.begin()->first; for (auto& d : dg) if (d.second > dg[v]) v = d.first;
      cons.push_back({m, true});
      for (;;) {
         u64 val = model[v]; Poly q; q.push_back({mono_id(ExpV{{v, 1}}), 1}); q = padd(q, pconst(val), true);
         if (branch_poly(q)) return;      // eliminate() has simplified the constraint
      }
   }
   { // consequences with the other equalities (a linear one gets eliminated)
      Poly r = eq_reduce(m); if (is_const(r)) { if (!r.empty()) throw PathEnd(); return; }
      if (r != m && r.size() <= m.size() + 20) { add_constraint(strip_known(r), true); return; }
   }
   cons.push_back({m, true});
   static int depth = 0; if (depth > 6 || m.size() > 60) return;
   struct D { D() { depth++; } ~D() { depth--; } } dd;
   for (size_t i = 0; i + 1 < cons.size() && i < 40; i++) {
      if (!cons[i].eq || cons[i].p.size() > 60) continue;
      Poly g = cons[i].p; u32 a = lead(m), b = lead(g); ExpV l; { std::map<u32,u32> e; for (auto& x : M[a].e) e[x.first] = x.second; bool common = false; for (auto& x : M[b].e) { if (e.count(x.first)) common = true; e[x.first] = std::max(e[x.first], x.second); } if (!common) continue; for (auto& x : e) l.push_back(x); }
      u32 L = mono_id(l), ma, mb; if (!mono_div(L, a, ma) || !mono_div(L, b, mb)) continue;
      u64 ca = 0, cb = 0; for (auto& t : m) if (t.first == a) ca = t.second; for (auto& t : g) if (t.first == b) cb = t.second;
      Poly x = pscale(pmul(m, Poly{{ma, 1}}), invm(ca)), y = pscale(pmul(g, Poly{{mb, 1}}), invm(cb));
      Poly sp = strip_known(eq_reduce(padd(x, y, true)));
      if (is_const(sp) || sp.size() > 60) continue;
      u32 ep = g_epoch; add_constraint(sp, true); if (g_epoch != ep) return;   // something was eliminated: constraints were rewritten
   }
}
static bool branch_poly(Poly p)
{
   if (is_const(p)) return p.empty();
   p = strip_known(p);
   if (is_const(p)) return p.empty();
   { Poly r = eq_reduce(p); if (r != p) { r = is_const(r) ? r : strip_known(r); if (is_const(r)) { bump(S->implied); return r.empty(); } if (r.size() <= p.size()) p = r; } }
   u64 lc; p = monic(p, lc);
   bump(S->branches);
   // split off monomial content: x | p
   {
      std::map<u32,u32> mn; bool first = true;
      for (auto& t : p) {
         std::map<u32,u32> cur; for (auto& x : M[t.first].e) cur[x.first] = x.second;
         if (first) { mn = cur; first = false; } else for (auto it = mn.begin(); it != mn.end();) { auto f = cur.find(it->first); if (f == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, f->second); ++it; } }
         if (mn.empty()) break;
      }
      if (!mn.empty() && !(p.size() == 1 && mn.size() == 1 && mn.begin()->second == 1)) {
         for (auto& x : mn) {
            Poly v; v.push_back({mono_id(ExpV{{x.first, 1}}), 1});
            if (branch_poly(v)) return true;
         }
         Poly q = p; for (auto& x : mn) { Poly v; v.push_back({mono_id(ExpV{{x.first, x.second}}), 1}); Poly r; if (!pdiv_exact(q, v, r)) { r = q; } q = r; }
         if (q != p) { Frac f; f.n = q; for (size_t e = 0; e < subs.size(); e++) f = fsubst(f, subs[e].var, subs[e].val); return branch_poly(f.n); }
      }
   }
   if (P > 64 && !g_generic) { // one variable: split on the roots in GF(P)
      std::set<u32> vs; pvars(p, vs);
      if (vs.size() == 1) {
         u32 v = *vs.begin(); Uni f; for (auto& t : p) { u32 e = M[t.first].e.empty() ? 0 : M[t.first].e[0].second; if (f.size() <= e) f.resize(e + 1, 0); f[e] = addm(f[e], t.second); }
         vector<u64> rts;
         if (f.size() > 2 && f.size() <= 260 && uni_roots(f, rts)) {
            bump(S->uniroots);
            for (u64 r : rts) { Poly q; q.push_back({mono_id(ExpV{{v, 1}}), 1}); q = padd(q, pconst(r), true); if (branch_poly(q)) return true; }
            u64 l2; Poly q = monic(p, l2); factor_id(q); return false;
         }
      }
   }
   bool side = peval(p, model) == 0;
   vector<u64> m2;
   if (g_generic && side == false) { add_constraint(p, false); bump(S->forced); return false; }
   int r = feasible(p, !side, m2);
   if (r < 0) { bump(S->undecided); logline("{\"type\":\"undecided\"}"); }
   if (r == 1) {
      if (g_generic) { // leave the special position
         model = m2; add_constraint(p, false); bump(S->forced); return false;
      }
      if (fork_other()) { model = m2; add_constraint(p, !side); return !side; }
   }
   if (r == 0) { // implied: still useful as a rewriting fact
      if (!side) { factor_id(p); return false; }
      add_constraint(p, true); return true;
   }
   add_constraint(p, side);
   return side;
}
#include "engine_int.inc"
// ------------------------------------------------------------------ handle operations
// A word used modulo another modulus (three-primes products): its value is fixed by case
// distinction; over a big field only the value of the path's model is kept, and the rest is
// counted as not explored.
static long fix_word(long a)
{
   if (!is_h(a)) return a;
   if (is_raw(a)) throw Unmodelled("unreduced symbolic word used modulo another modulus");
   if (g_small) return h_concretize(a);
   Poly q = fadd(get(a), frac_of((long) feval(get(a), model)), true).n;
   long v = (long) feval(get(a), model);
   if (!is_const(q)) { bump(S->skipped); add_constraint(q, true); }
   return v;
}
static void chk(long n) { if (n != P) throw Unmodelled("operation modulo another modulus on a symbolic word"); }
static long f_add(long a, long b, long n) { return (long) (((u128) (u64) a + (u64) b) % (u64) n); }
static long f_mul(long a, long b, long n) { return (long) ((u128) (u64) a * (u64) b % (u64) n); }
static void reduced(long a, const char* what) { if (is_raw(a)) event(what); else if (!is_h(a) && (a < 0 || a >= P)) event(what); }
long h_add(long a, long b, long n) { if (g_multi) { mi::below(a, n, "unreduced operand of a modular addition"); mi::below(b, n, "unreduced operand of a modular addition"); return mi::mk(mi::iadd(mi::cls(a, n), mi::cls(b, n), 1), n); } if (n != P) return f_add(fix_word(a), fix_word(b), n); reduced(a, "unreduced operand of a modular addition"); reduced(b, "unreduced operand of a modular addition"); return mk_term(fadd(frac_of(a), frac_of(b), false)); }
long h_sub(long a, long b, long n) { if (g_multi) { mi::below(a, n, "unreduced operand of a modular subtraction"); mi::below(b, n, "unreduced operand of a modular subtraction"); return mi::mk(mi::iadd(mi::cls(a, n), mi::cls(b, n), -1), n); } if (n != P) return f_add(fix_word(a), n - fix_word(b) % n, n); reduced(a, "unreduced operand of a modular subtraction"); reduced(b, "unreduced operand of a modular subtraction"); return mk_term(fadd(frac_of(a), frac_of(b), true)); }
long h_mul(long a, long b, long n)
{ if (g_multi) { if (mi::ub(a) * mi::ub(b) >= (long double) n * 4.6e18L || mi::ub(a) >= 9.2e18L || mi::ub(b) >= 9.2e18L) event("operand of a modular multiplication out of range"); return mi::mk(mi::imul(mi::cls(a, n), mi::cls(b, n)), n); }
   if (n != P) return f_mul(fix_word(a), fix_word(b), n);
   if (is_raw(a) || is_raw(b)) { // NTL's MulMod accepts an unreduced word as long as the product stays below n*2^63 or so
      if (ubound(a) * ubound(b) >= (long double) P * 4.6e18L || ubound(a) >= 9.2e18L || ubound(b) >= 9.2e18L) event("operand of a modular multiplication out of range");
   }
   return mk_term(fmul(frac_of(a), frac_of(b)));
}
long h_lincomb(const long* a, const long* b, long n)   // sum a[i]*b[i], reduced
{ if (g_multi) { mi::IP r; for (long i = 0; i < n; i++) r = mi::iadd(r, mi::imul(mi::cls(a[i], P), mi::cls(b[i], P)), 1); return mi::mk(r, P); }
   Frac acc; std::unordered_map<u32,u64> m; bool simple = true;
   for (long i = 0; i < n; i++) {
      if ((!is_h(a[i]) && a[i] == 0) || (!is_h(b[i]) && b[i] == 0)) continue;
      reduced(a[i], "unreduced operand"); reduced(b[i], "unreduced operand");
      if (simple && (is_h(a[i]) || is_h(b[i]))) {
         Frac x = frac_of(a[i]), y = frac_of(b[i]);
         if (x.d.empty() && y.d.empty()) {
            if (x.n.size() * y.n.size() > 4000000ull) throw Unmodelled("term too large");
            for (auto& s : x.n) for (auto& t : y.n) { u64& c = m[mono_mul(s.first, t.first)]; c = addm(c, mulm(s.second, t.second)); }
            continue;
         }
      }
      acc = fadd(acc, fmul(frac_of(a[i]), frac_of(b[i])), false);
   }
   Frac r; for (auto& t : m) if (t.second) r.n.push_back(t);
   std::sort(r.n.begin(), r.n.end());
   if (r.n.size() > MAXTERMS) throw Unmodelled("term too large");
   return mk_term(acc.n.empty() ? r : fadd(r, acc, false));
}
unsigned long precon_of(long b, long) { return (unsigned long) b; }
long h_mul_precon(long a, long b, long n, unsigned long pre)
{ if (g_multi) { if (is_h(b) && (long) pre != b) event("preconditioner does not match its operand"); mi::below(b, n, "unreduced multiplier of a preconditioned multiplication"); return mi::mk(mi::imul(mi::cls(a, n), mi::cls(b, n)), n); }
   if (n != P) return f_mul(fix_word(a), fix_word(b), n);
   if (is_h(b)) { if ((long) pre != b) { if (!is_h((long) pre)) event("preconditioner does not match its operand"); else { Frac d = fadd(frac_of((long) pre), frac_of(b), true); if (!d.n.empty()) event("preconditioner does not match its operand"); } } }
   reduced(b, "unreduced multiplier of a preconditioned multiplication");
   return mk_term(fmul(frac_of(a), frac_of(b)));
}
long h_rem(long a, long n)
{ if (g_multi) return mi::rem(a, n);
   if (n != P) return fix_word(a) % n;
   Term& t = T[idx(a)];
   if (t.kind == 1) { Term u = t; u.kind = 2; T.push_back(u); return mk_handle(T.size() - 1); }
   if (t.kind == 2) return a;
   return mk_term(get(a));
}
long h_red21(long hi, long lo, long d, long nbits, bool normalized)
{ if (g_multi) return mi::red21(hi, lo, d, nbits, normalized);
   chk(d);
   if (normalized && nbits != 60) event("normalised reduction used with a modulus of fewer than 60 bits");
   if (!is_h(lo)) throw Unmodelled("high word without its low word");
   long double ub = ubound(lo);
   if (is_h(hi)) {
      Term& t = T[idx(hi)];
      if (t.kind == 0) throw Unmodelled("two-word value built from a term");
      if (t.ref != lo) event("high and low words of different values");
      if (t.kind == 1 && ub >= (long double) P * 18446744073709551616.0L) event("high word not reduced before a two-word reduction");
      return mk_term(get(lo));
   }
   if (hi == 0) { if (ub >= 18446744073709551616.0L) event("high word dropped"); return mk_term(get(lo)); }
   if (ub >= 18446744073709551616.0L) event("high word replaced");
   Frac h = frac_of(hi), b; b.n = pconst((u64) (((u128) 1 << 64) % (u64) P));
   return mk_term(fadd(fmul(h, b), get(lo), false));
}
long h_imul(long a, long b)
{ if (g_multi) { mi::Int m = mi::modof(a, b); long double u = mi::ub(a) * mi::ub(b); if (u >= 18446744073709551616.0L) event("word product may overflow"); return mi::mkraw(mi::imul(mi::cls(a, m), mi::cls(b, m)), m, u); }
   long double ub = ubound(a) * ubound(b);
   if (ub >= 18446744073709551616.0L) event("word product may overflow");
   return mk_term(fmul(frac_of(a), frac_of(b)), ub, true);
}
long h_iadd(long a, long b)
{ if (g_multi) { mi::Int m = mi::modof(a, b); long double u = mi::ub(a) + mi::ub(b); if (u >= 9223372036854775808.0L) event("word accumulator may overflow"); return mi::mkraw(mi::iadd(mi::cls(a, m), mi::cls(b, m), 1), m, u); }
   long double ub = ubound(a) + ubound(b);
   if (ub >= 9223372036854775808.0L) event("word accumulator may overflow");
   return mk_term(fadd(frac_of(a), frac_of(b), false), ub, true);
}
static void set_ll(unsigned long& hi, unsigned long& lo, const Frac& f, long double ub)
{
   if (ub >= 18446744073709551616.0L * 18446744073709551616.0L) event("two-word accumulator may overflow");
   long h = mk_term(f, ub, true); lo = (unsigned long) h;
   if (ub < 18446744073709551616.0L) hi = 0;
   else { Term t; t.f.n = pconst(1); t.epoch = g_epoch; t.kind = 1; t.ref = h; t.ub = 0; t.raw = true; T.push_back(t); hi = (unsigned long) mk_handle(T.size() - 1); }
}
void ll_mul(unsigned long& hi, unsigned long& lo, unsigned long a, unsigned long b)
{ if (g_multi) { mi::Int m = mi::modof((long) a, (long) b); mi::setll(hi, lo, mi::imul(mi::cls((long) a, m), mi::cls((long) b, m)), m, mi::ub((long) a) * mi::ub((long) b)); return; } set_ll(hi, lo, fmul(frac_of((long) a), frac_of((long) b)), ubound((long) a) * ubound((long) b)); }
static Frac ll_val(unsigned long hi, unsigned long lo, long double& ub)
{
   Frac f;
   if (is_h((long) lo)) {
      ub = ubound((long) lo); f = get((long) lo);
      if (is_h((long) hi)) { if (T[idx((long) hi)].kind == 0 || T[idx((long) hi)].ref != (long) lo) event("high and low words of different values"); }
      else if (hi != 0) { Frac h, b; h = frac_of((long) (hi % (u64) P)); b.n = pconst((u64) (((u128) 1 << 64) % (u64) P)); f = fadd(f, fmul(h, b), false); ub += (long double) hi * 18446744073709551616.0L; }
      else if (ub >= 18446744073709551616.0L) event("high word dropped");
      return f;
   }
   if (is_h((long) hi)) throw Unmodelled("high word without its low word");
   u128 v = ((u128) hi << 64) | lo; ub = (long double) hi * 18446744073709551616.0L + (long double) lo;
   f.n = pconst((u64) (v % (u64) P)); return f;
}
void ll_mul_add(unsigned long& hi, unsigned long& lo, unsigned long a, unsigned long b)
{ if (g_multi) { mi::llma(hi, lo, a, b); return; }
   long double ub; Frac f = ll_val(hi, lo, ub);
   set_ll(hi, lo, fadd(f, fmul(frac_of((long) a), frac_of((long) b)), false), ub + ubound((long) a) * ubound((long) b));
}
void ll_add2(unsigned long& hi, unsigned long& lo, unsigned long ahi, unsigned long alo)
{ if (g_multi) { mi::lla2(hi, lo, ahi, alo); return; }
   long double u1, u2; Frac f = ll_val(hi, lo, u1), g = ll_val(ahi, alo, u2);
   set_ll(hi, lo, fadd(f, g, false), u1 + u2);
}
bool h_is_zero(long a) { if (g_multi) { if (!is_h(a)) return a == 0; if (mi::term(a).raw) throw Unmodelled("zero test of an unreduced word"); return mi::zero(mi::term(a).p, mi::term(a).mod); } if (!is_h(a)) return a == 0; if (is_raw(a)) throw Unmodelled("zero test of an unreduced word"); return branch_poly(get(a).n); }
bool h_eq(long a, long b)
{ if (g_multi) return mi::eq(a, b);
   if (!is_h(a) && !is_h(b)) return a == b;
   if (is_raw(a) || is_raw(b)) throw Unmodelled("comparison of an unreduced word");
   if (!is_h(a) && (a < 0 || a >= P)) return false;
   if (!is_h(b) && (b < 0 || b >= P)) return false;
   if (a == b) return true;
   return branch_poly(fadd(frac_of(a), frac_of(b), true).n);
}
int h_zero_status(long a)
{ if (g_multi) { if (!is_h(a)) return a == 0; for (auto& c : mi::C) if (c.mod == mi::term(a).mod && c.p == mi::term(a).p) return c.zero; return -1; }
   if (!is_h(a)) return a == 0;
   Poly p = get(a).n; if (is_const(p)) return p.empty();
   u64 lc; Poly m = monic(p, lc); if (Fidx.count(m)) return 0;
   if (p.size() < 60) { Poly q = strip_known(p); if (is_const(q)) return 0; }
   return -1;
}
long h_inv(long a, long n)
{ if (g_multi) if (is_h(a)) throw Unmodelled("inverse of a symbolic word");
   if (n != P) { long v = fix_word(a); long t = 0, nt = 1, r = n, nr = v % n; while (nr) { long q = r / nr, x = t - q * nt; t = nt; nt = x; x = r - q * nr; r = nr; nr = x; } if (r != 1) throw Terminal("InvMod: inverse undefined"); return t < 0 ? t + n : t; }
   if (!is_h(a)) return (long) invm(a);
   chk(n); reduced(a, "inverse of an unreduced word");
   if (h_is_zero(a)) throw Terminal("InvMod: inverse undefined");
   Frac f = get(a); if (f.d.empty() && is_const(f.n)) return (long) invm(const_val(f.n));
   Frac r = invfactor(f.n); Frac d; d.n = den_poly(f.d); return mk_term(fmul(r, d));
}
long h_concretize(long a)
{ if (g_multi) return mi::fixv(a);
   if (!is_h(a)) return a;
   for (;;) {
      u64 v = feval(get(a), model);
      if (h_eq(a, (long) v)) return (long) v;
   }
}
string token(long a)
{
   if (!is_h(a)) return std::to_string(a);
   return "999" + std::to_string(1000000000L + (long) idx(a)) + "999";
}
long untoken(const string& s)
{
   if (s.size() == 16 && s.substr(0, 3) == "999" && s.substr(13) == "999") { long v = atol(s.substr(3, 10).c_str()) - 1000000000L; if (v >= 0 && v < (long) T.size()) return mk_handle(v); }
   return atol(s.c_str());
}
// ------------------------------------------------------------------ harness API
static std::map<string,long> g_params;
void start(long p)
{
   P = p; g_small = p < (1L << 16);
   if (M.empty()) { M.push_back(Mono{ExpV(), 0}); Midx[ExpV()] = 0; }
   static bool warm = false;
   if (!warm) { // create and warm up the solver once, before the exploration forks
      warm = true; Z(); z3::solver s(Z(), z3::solver::simple());
      z3::expr w = g_small ? Z().bv_const("warm", zw) : Z().int_const("warm"); s.add(zmod(w * znum(3)) != znum(0)); s.check();
   }
}
long fresh(const char* name)
{ if (g_multi) return mi::fresh(name);
   u32 v = model.size(); model.push_back(P <= 2 ? rnd() % 2 : rnd() % P); elim.push_back(0); vnames.push_back(name);
   Frac f; f.n.push_back({mono_id(ExpV{{v, 1}}), 1}); return mk_term(f);
}
long fresh_int(const char*, long lo, long hi)
{
   for (long v = lo; v < hi; v++) if (fork_other()) { ints.push_back(v); return v; }
   ints.push_back(hi); return hi;
}
static void assume(long a, bool zero)
{ if (g_multi) { mi::assume(a, zero); return; }
   if (!is_h(a)) { if ((a == 0) != zero) throw PathEnd(); return; }
   Poly p = strip_known(get(a).n); if (is_const(p)) { if (p.empty() != zero) throw PathEnd(); return; }
   if ((peval(p, model) == 0) != zero) { vector<u64> m; int r = feasible(p, zero, m); if (r == 0) throw PathEnd(); if (r < 0) { bump(S->undecided); throw PathEnd(); } model = m; }
   if (zero) { add_constraint(p, true); return; }
   // a non-zero monomial has non-zero variables
   if (p.size() == 1) { for (auto& x : ExpV(M[p[0].first].e)) { Poly v; v.push_back({mono_id(ExpV{{x.first, 1}}), 1}); if (!is_const(strip_known(v))) add_constraint(v, false); } return; }
   add_constraint(p, false);
}
void assume_nonzero(long a) { assume(a, false); }
void assume_zero(long a) { assume(a, true); }
struct Pend { long a, b; string msg; };
static vector<Pend> pend;
void require_eq(long a, long b, const char* msg)
{
   bump(S->obligations);
   if (!is_h(a) && !is_h(b)) { bump(S->trivially); if (a != b) candidate("assert", msg, model); return; }
   if (g_multi) { mi::require(a, b, msg); return; }
   if (is_raw(a) || is_raw(b)) event("unreduced word stored as a field element");
   pend.push_back({a, b, msg});
}
void require_zero(long a, const char* msg) { require_eq(a, 0, msg); }
void require_true(bool b, const char* msg) { bump(S->obligations); bump(S->trivially); if (!b) candidate("assert", msg, model); }
void require_nonzero(long a, const char* msg)
{
   bump(S->obligations);
   if (!is_h(a)) { bump(S->trivially); if (a == 0) candidate("assert", msg, model); return; }
   if (g_multi) { vector<u64> m; mi::IP q = mi::term(a).p; int f = mi::feas(q, mi::term(a).mod, mi::ZERO, m); if (f == 1) candidate("assert", msg, m); else if (f < 0) mi::undec(msg); return; }
   Poly p = strip_known(get(a).n);
   if (is_const(p)) { if (p.empty()) candidate("assert", msg, model); return; }
   if (peval(p, model) == 0) { candidate("assert", msg, model); return; }
   vector<u64> m; int f = feasible(p, true, m);
   if (f == 1) candidate("assert", msg, m);
   else if (f < 0) { bump(S->undecided); logline("{\"type\":\"undecided_obligation\",\"msg\":\"" + jesc(msg) + "\"}"); }
}
void flush_requirements()
{
   if (pend.empty()) return;
   Z();
   vector<Pend> ps; ps.swap(pend);
   // refuted obligations first: a residual polynomial that is not syntactically zero
   vector<pair<Poly,Poly>> lr; std::set<u32> vs; vector<size_t> sel;
   z3::expr_vector dis(Z()); Poly all; bool any = false;
   for (auto& q : ps) {
      Frac a = frac_of(q.a), b = frac_of(q.b);
      Frac d = fadd(a, b, true);
      Poly l, r;
      if (a.d == b.d) { l = a.n; r = b.n; } else { l = pmul(a.n, den_poly(b.d)); r = pmul(b.n, den_poly(a.d)); }
      pvars(l, vs); pvars(r, vs);
      if (!d.n.empty()) {
         vector<u64> m; 
         Poly res = strip_known(d.n);
         if (peval(res, model) != 0) { candidate("assert", q.msg, model); any = true; break; }
         int f = is_const(res) ? 1 : feasible(res, false, m);
         if (f == 1) { candidate("assert", q.msg, is_const(res) ? model : m); any = true; break; }
         if (f < 0) { bump(S->undecided); logline("{\"type\":\"undecided_obligation\",\"msg\":\"" + jesc(q.msg) + "\"}"); }
         continue;                       // unsat: discharged by that query
      }
      if (l.size() + r.size() > 3000) { // too large to ship whole: the residual (zero) is the query
         dis.push_back(zpoly(Poly()) != znum(0)); continue;
      }
      dis.push_back(zpoly(l) != zpoly(r));
   }
   if (!any && dis.size()) {
      for (size_t i = 0; i < cons.size(); i++) { bool hit = false; std::set<u32> s; pvars(cons[i].p, s); for (u32 v : s) if (vs.count(v)) hit = true; if (hit && cons[i].p.size() < 500) { sel.push_back(i); } }
      for (size_t i : sel) pvars(cons[i].p, vs);
      vector<u64> m; int r = z3_decide(z3::mk_or(dis), vs, sel, m);
      if (r == 1) candidate("assert", ps[0].msg, m);
      else if (r < 0) { bump(S->undecided); logline("{\"type\":\"undecided_obligation\",\"msg\":\"" + jesc(ps[0].msg) + "\"}"); }
   }
}
static vector<long> obs;
void observe(long a) { obs.push_back(a); }

static void on_signal(int sig)
{
   static bool once = false; if (once) _exit(9); once = true;
   candidate(sig == SIGPROF ? "hang" : "crash", string("signal ") + std::to_string(sig), model);
   _exit(7);
}
static void finish_path()
{
   flush_requirements();
   std::ostringstream o; o << "{\"type\":\"path\"," << model_json(model) << ",\"obs\":[";
   for (size_t i = 0; i < obs.size(); i++) { long v; if (g_multi) v = mi::val(obs[i]); else if (is_h(obs[i])) v = (long) feval(get(obs[i]), model); else v = obs[i]; o << (i ? "," : "") << v; }
   o << "],\"cands\":" << g_cands_here << ",\"cons\":" << cons.size() + subs.size() << "}"; logline(o.str());
   bump(S->paths);
}
extern "C" char __executable_start;
int run(int argc, char** argv, void (*body)())
{
   double t0 = now();
   S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   memset(S, 0, sizeof *S);
   auto env = [](const char* n, double d) { const char* s = getenv(n); return s ? atof(s) : d; };
   S->max_paths = (long) env("SYM_PATHS", 2000); S->par = (long) env("SYM_PAR", 0); S->deadline = t0 + env("SYM_TIME", 60);
   g_rlimit = (unsigned) env("SYM_RLIMIT", 3000000); g_generic = env("SYM_GENERIC", 0) != 0; g_ztimeout = (unsigned) env("SYM_ZTIMEOUT", 3000); g_zcap = env("SYM_ZCAP", 6); g_pathtime = env("SYM_PATHTIME", 60);
   u64 seed = (u64) env("VERIF_SEED", 1); g_rng ^= seed * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 8; i++) rnd();
   const char* lf = getenv("SYM_LOG"); g_log = fopen(lf ? lf : "/dev/stdout", lf ? "w" : "a"); if (lf) { fclose(g_log); g_log = fopen(lf, "a"); }
   static char altst[1 << 18]; stack_t ss; ss.ss_sp = altst; ss.ss_size = sizeof altst; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
   sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGPROF, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
   arm_timer();
   try { body(); finish_path(); }
   catch (Terminal& e) { try { flush_requirements(); } catch (...) { } candidate("terminal", e.what, model); bump(S->paths); }
   catch (Unmodelled& e) { bump(S->unmodelled); logline("{\"type\":\"unmodelled\",\"msg\":\"" + jesc(e.what) + "\"," + model_json(model) + "}"); }
   catch (PathEnd&) { logline("{\"type\":\"infeasible\"}"); }
   catch (z3::exception& e) { bump(S->errors); logline(string("{\"type\":\"error\",\"msg\":\"z3 ") + jesc(e.msg()) + "\"}"); }
   catch (std::exception& e) { bump(S->errors); logline(string("{\"type\":\"error\",\"msg\":\"") + jesc(e.what()) + "\"}"); candidate("exception", e.what(), model); }
   catch (...) { candidate("exception", "unknown exception", model); bump(S->paths); }
   for (pid_t k : g_kids) { int st; waitpid(k, &st, 0); note_status(st); bump(S->running, -1L); }
   fflush(stdout);
   if (g_child) _exit(0);
   std::ostringstream o;
   o << "{\"type\":\"summary\",\"paths\":" << S->paths << ",\"forks\":" << S->forks << ",\"skipped\":" << S->skipped << ",\"queries\":" << S->queries
     << ",\"sat\":" << S->sat << ",\"unsat\":" << S->unsat << ",\"unknown\":" << S->unknown << ",\"undecided\":" << S->undecided << ",\"cands\":" << S->cands
     << ",\"obligations\":" << S->obligations << ",\"concrete_obligations\":" << S->trivially << ",\"events\":" << S->events << ",\"unmodelled\":" << S->unmodelled
     << ",\"errors\":" << S->errors << ",\"branches\":" << S->branches << ",\"generic_forced\":" << S->forced << ",\"maxterms\":" << S->maxterms
     << ",\"uniroots\":" << S->uniroots << ",\"implied\":" << S->implied << ",\"solver_s\":" << S->ztime << ",\"nvars\":" << model.size() << ",\"p\":" << P << ",\"wall_s\":" << now() - t0 << ",\"fns\":[";
   bool first = true;
   for (int i = 0; i < 8192; i++) if (S->fns[i]) { o << (first ? "" : ",") << ((char*) S->fns[i] - &__executable_start); first = false; }
   o << "]}";
   logline(o.str());
   return 0;
}
}

// the library is compiled with -finstrument-functions: record which of its functions run
extern "C" void __cyg_profile_func_enter(void* fn, void*)
{
   using symx::S;
   if (!S) return;
   unsigned i = (unsigned) (((unsigned long) fn >> 2) * 2654435761u >> 7) & 8191;
   for (int k = 0; k < 8192; k++, i = (i + 1) & 8191) {
      if (S->fns[i] == fn) return;
      if (!S->fns[i]) { S->fns[i] = fn; return; }
   }
}
extern "C" void __cyg_profile_func_exit(void*, void*) { }
