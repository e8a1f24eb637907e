// ------------------------------------------------------------------ integer mode
// For code that works modulo several primes at once (three-primes products).  The symbolic inputs are
// integers in [0, P); a word is an integer polynomial modulo its own modulus.  When a word known modulo m
// is used modulo another number, its value is lifted to the integer  poly - m*k  with a new integer k
// (none when the range of the polynomial already lies in [0, m)).  Tests and obligations become linear
// (or polynomial) integer queries: ranges of the inputs, definitions of the k's, path condition.
static bool g_multi = false;
namespace mi {
typedef mpz_class Int;
typedef vector<pair<u32,Int>> IP;       // sorted by monomial id, no zero coefficients
struct Var { bool base; u32 inp; Int lo, hi; IP num; Int mod; };
static vector<Var> V;
struct IT { IP p; Int mod; bool raw; int kind; long ref; long double ub; bool lifted; IP lift; };
static std::deque<IT> W;
struct Key { IP p; Int mod; bool operator<(const Key& o) const { if (mod != o.mod) return mod < o.mod; if (p.size() != o.p.size()) return p.size() < o.p.size(); for (size_t i = 0; i < p.size(); i++) { if (p[i].first != o.p[i].first) return p[i].first < o.p[i].first; if (p[i].second != o.p[i].second) return p[i].second < o.p[i].second; } return false; } };
static std::map<Key,long> Widx;
struct IC { IP p; Int mod; bool zero; };
static vector<IC> C, Czz;  // path condition; constituents of merged congruences

static Int fmod_(const Int& a, const Int& m) { Int r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Int fdiv_(const Int& a, const Int& m) { Int r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static IP iconst(const Int& c) { IP r; if (c != 0) r.push_back({0, c}); return r; }
static bool isc(const IP& p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
static Int cval(const IP& p) { return p.empty() ? Int(0) : p[0].second; }
static IP ired(IP p, const Int& m) { IP r; for (auto& t : p) { Int c = fmod_(t.second, m); if (c != 0) r.push_back({t.first, c}); } return r; }
static IP iadd(const IP& a, const IP& b, int s)
{
   IP r; size_t i = 0, j = 0;
   while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, s * b[j].second}); j++; }
      else { Int c = a[i].second + s * b[j].second; if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
   }
   return r;
}
static IP imul(const IP& a, const IP& b)
{
   std::map<u32,Int> m; if (a.size() * b.size() > 400000) throw Unmodelled("term too large");
   for (auto& x : a) for (auto& y : b) m[mono_mul(x.first, y.first)] += x.second * y.second;
   IP r; for (auto& t : m) if (t.second != 0) r.push_back(t); return r;
}
static void irange_mono(u32 m, Int& lo, Int& hi)
{
   lo = 1; hi = 1;
   for (auto& x : M[m].e) for (u32 e = 0; e < x.second; e++) { const Var& v = V[x.first]; Int c[4] = { lo * v.lo, lo * v.hi, hi * v.lo, hi * v.hi }; lo = c[0]; hi = c[0]; for (int i = 1; i < 4; i++) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; } }
}
static void irange(const IP& p, Int& lo, Int& hi) { lo = 0; hi = 0; for (auto& t : p) { Int a, b; irange_mono(t.first, a, b); a *= t.second; b *= t.second; if (a > b) std::swap(a, b); lo += a; hi += b; } }
static Int ieval(const IP& p, const vector<u64>& m);
static Int vval(u32 v, const vector<u64>& m) { const Var& x = V[v]; if (x.base) return Int((unsigned long) m[x.inp]); return fdiv_(ieval(x.num, m), x.mod); }
static Int ieval(const IP& p, const vector<u64>& m) { Int s = 0; for (auto& t : p) { Int c = t.second; for (auto& x : M[t.first].e) { Int b = vval(x.first, m); for (u32 e = 0; e < x.second; e++) c *= b; } s += c; } return s; }
// What is known to vanish modulo q is the integer q*t for a new integer t: an identity, used as a
// rewriting rule in every modulus; rules are reduced by the earlier ones.
struct Row { IP p; u32 piv; };
static vector<Row> ids;                          // integer identities and their pivot monomials
static std::map<Int, std::pair<size_t, vector<Row>>> rows;
static Int coef(const IP& p, u32 m) { auto it = std::lower_bound(p.begin(), p.end(), m, [](const pair<u32,Int>& x, u32 y) { return x.first < y; }); return it == p.end() || it->first != m ? Int(0) : it->second; }
static IP scale(IP p, const Int& c, const Int& mod) { for (auto& t : p) t.second *= c; return ired(p, mod); }
static IP simp1(IP p, const vector<Row>& rs, const Int& mod) { for (auto& r : rs) { Int c = coef(p, r.piv); if (c != 0) p = ired(iadd(p, scale(r.p, c, mod), -1), mod); } return p; }
static IP simp(const IP& p, const Int& mod)
{
   if (ids.empty()) return p;
   auto& e = rows[mod];
   for (; e.first < ids.size(); e.first++) {
      IP q = simp1(ired(ids[e.first].p, mod), e.second, mod); u32 pv = ids[e.first].piv; Int iv, c = coef(q, pv);
      if (c != 0 && mpz_invert(iv.get_mpz_t(), c.get_mpz_t(), mod.get_mpz_t())) e.second.push_back({scale(q, iv, mod), pv});
   }
   return simp1(p, e.second, mod);
}
static IP monic(const IP& p, const Int& mod) // scaled so that the last monomial has coefficient one
{
   Int iv; if (p.empty() || !mpz_invert(iv.get_mpz_t(), p.back().second.get_mpz_t(), mod.get_mpz_t())) return p;
   return scale(p, iv, mod);
}
static void addrow(const IP& p, const Int& mod)
{
   if (ids.size() > 40 || isc(p)) return;
   IP q = simp(p, mod); if (isc(q)) return;
   Int lo, hi; irange(p, lo, hi); Int a = -fdiv_(-lo, mod), b = fdiv_(hi, mod); IP id = p;
   if (a >= b) id = iadd(id, iconst(a * mod), -1);
   else { Var v; v.base = false; v.inp = 0; v.lo = a; v.hi = b; v.num = p; v.mod = mod; V.push_back(v); IP k; k.push_back({mono_id(ExpV{{(u32) V.size() - 1, 1}}), mod}); id = iadd(id, k, -1); }
   ids.push_back({id, q.back().first});
}
static long newterm(const IT& t) { W.push_back(t); return mk_handle(W.size() - 1); }
static long mk(const IP& p0, const Int& mod) // reduced word, class of p0 modulo mod
{
   IP p = simp(ired(p0, mod), mod); if (isc(p)) return (long) cval(p).get_si();
   Key k{p, mod}; auto it = Widx.find(k); if (it != Widx.end()) return it->second;
   IT t; t.p = p; t.mod = mod; t.raw = false; t.kind = 0; t.ref = 0; t.ub = 0; t.lifted = false;
   long h = newterm(t); Widx[k] = h; return h;
}
static long mkraw(const IP& p, const Int& mod, long double ub) { IT t; t.p = ired(p, mod); t.mod = mod; t.raw = true; t.kind = 0; t.ref = 0; t.ub = ub; t.lifted = false; return newterm(t); }
static IT& term(long a) { return W[idx(a)]; }
static const IP& lift(long a) // integer value of a reduced word
{
   IT& t = term(a); if (t.raw || t.kind) throw Unmodelled("value of an unreduced word");
   if (t.lifted) return t.lift;
   Int lo, hi; irange(t.p, lo, hi); IP r = t.p;
   Int a0 = fdiv_(lo, t.mod), b0 = fdiv_(hi, t.mod);
   if (a0 == b0) { if (a0 != 0) r = iadd(r, iconst(a0 * t.mod), -1); }
   else {
      Var v; v.base = false; v.inp = 0; v.lo = a0; v.hi = b0; v.num = t.p; v.mod = t.mod; V.push_back(v);
      IP k; k.push_back({mono_id(ExpV{{(u32) V.size() - 1, 1}}), t.mod}); r = iadd(r, k, -1);
   }
   IT& u = term(a); u.lift = r; u.lifted = true; return u.lift;
}
static IP cls(long a, const Int& n) // class of a word modulo n
{
   if (!is_h(a)) return iconst(fmod_(Int(a), n));
   IT& t = term(a); if (t.kind) throw Unmodelled("use of a high word");
   if (t.mod == n) return t.p;
   if (t.raw) throw Unmodelled("unreduced symbolic word used modulo another modulus");
   return ired(lift(a), n);
}
static long double ub(long a) { if (!is_h(a)) return a < 0 ? 1e30L : (long double) a; return term(a).raw ? term(a).ub : term(a).mod.get_d() - 1; }

// ---- queries
static std::map<u32,z3::expr>* zmn = nullptr;
static z3::expr znumI(const Int& c) { return Z().int_val(c.get_str().c_str()); }
static z3::expr zv_(u32 v) { return Z().int_const(("i" + std::to_string(v)).c_str()); }
static z3::expr zip(const IP& p, bool nl, std::set<u32>& vs, std::set<u32>& ms)
{
   z3::expr s = znumI(0); bool first = true;
   for (auto& t : p) {
      z3::expr e = znumI(t.second);
      if (t.first) {
         const ExpV& x = M[t.first].e;
         if (x.size() == 1 && x[0].second == 1) { e = e * zv_(x[0].first); vs.insert(x[0].first); }
         else if (!nl) { e = e * Z().int_const(("m" + std::to_string(t.first)).c_str()); ms.insert(t.first); }
         else { z3::expr q = znumI(1); bool f = true; for (auto& y : x) for (u32 k = 0; k < y.second; k++) { vs.insert(y.first); if (f) { q = zv_(y.first); f = false; } else q = q * zv_(y.first); } e = e * q; }
      }
      if (first) { s = e; first = false; } else s = s + e;
   }
   return s;
}
static bool holds(const vector<u64>& m) { for (auto& c : C) if ((fmod_(ieval(c.p, m), c.mod) == 0) != c.zero) return false; return true; }
static void remember(const IP& p, const Int& mod, bool z) // same integer, zero modulo two primes: modulo the product
{
   if (z) addrow(p, mod);
   if (z) for (auto& c : C) if (c.zero && c.p == p && c.mod % mod != 0) { Int m = c.mod * mod; Int lo, hi; irange(p, lo, hi); c.mod = m; Czz.push_back({p, mod, true}); return; }
   C.push_back({p, mod, z});
}
static int g_fresh = 0;
static z3::expr zcong(z3::solver& s, const IP& p, const Int& mod, bool zero, bool nl, std::set<u32>& vs, std::set<u32>& ms)
{
   z3::expr t = Z().int_const(("t" + std::to_string(++g_fresh)).c_str()), e = zip(p, nl, vs, ms);
   if (zero) {
      Int lo, hi; irange(p, lo, hi); Int a = -fdiv_(-lo, mod), b = fdiv_(hi, mod);
      if (a > b) return Z().bool_val(false);
      if (a == b) return e == znumI(a * mod);
      return e == znumI(mod) * t && t >= znumI(a) && t <= znumI(b);
   }
   z3::expr r = Z().int_const(("s" + std::to_string(g_fresh)).c_str()); return e == znumI(mod) * t + r && r >= 1 && r < znumI(mod);
}
// goal kinds: class of p modulo mod is zero / non-zero; integer p >= mod
enum Goal { ZERO, NONZERO, GE };
static bool goal_ok(const IP& p, const Int& mod, Goal g, const vector<u64>& m) { Int v = ieval(p, m); return g == GE ? v >= mod : (fmod_(v, mod) == 0) == (g == ZERO); }
static int ask(const IP& p, const Int& mod, Goal g, bool nl, bool allc, vector<u64>& m)
{
   z3::solver s(Z()); z3::params pr(Z()); pr.set("timeout", S->ztime > g_zcap ? 200u : g_ztimeout); pr.set("random_seed", 1u); s.set(pr);
   std::set<u32> vs, ms, done;
   if (g == GE) s.add(zip(p, nl, vs, ms) >= znumI(mod)); else s.add(zcong(s, p, mod, g == ZERO, nl, vs, ms));
   for (auto& c : C) if (c.zero || allc) s.add(zcong(s, c.p, c.mod, c.zero, nl, vs, ms));
   for (;;) { // definitions and ranges of the variables met so far
      u32 v = ~0u; for (u32 x : vs) if (!done.count(x)) { v = x; break; }
      if (v == ~0u) break;
      done.insert(v); s.add(zv_(v) >= znumI(V[v].lo) && zv_(v) <= znumI(V[v].hi));
      if (!V[v].base) { z3::expr d = zip(V[v].num, nl, vs, ms) - znumI(V[v].mod) * zv_(v); s.add(d >= 0 && d < znumI(V[v].mod)); }
   }
   bool nonlin = !ms.empty();
   for (u32 x : ms) { Int lo, hi; irange_mono(x, lo, hi); z3::expr e = Z().int_const(("m" + std::to_string(x)).c_str()); s.add(e >= znumI(lo) && e <= znumI(hi)); }
   double t0 = now(); z3::check_result cr = z3::unknown; try { cr = s.check(); } catch (z3::exception&) { }
   S->ztime = S->ztime + (now() - t0); bump(S->queries);
   if (cr == z3::unsat) { bump(S->unsat); return 0; }
   if (cr != z3::sat) { bump(S->unknown); return -1; }
   bump(S->sat);
   z3::model zm_ = s.get_model(); m = model;
   for (u32 v = 0; v < V.size(); v++) if (V[v].base) { z3::expr e = zm_.eval(zv_(v), false); uint64_t x = 0; if (Z3_get_numeral_uint64(Z(), e, &x) && x < (u64) P) m[V[v].inp] = x; }
   if (goal_ok(p, mod, g, m) && holds(m)) return 1;
   return nonlin ? -2 : -3;
}
// Is the goal satisfiable together with the path condition?  1 sat (m filled), 0 unsat, -1 unknown
static int feas(const IP& p, const Int& mod0, Goal g, vector<u64>& m)
{
   Int mod = mod0; const IC* fixc = nullptr;
   for (auto& c : C) if (c.zero) { fixc = &c; if (g == ZERO && c.p == p && c.mod % mod != 0) mod *= c.mod; }
   Int lo, hi; irange(p, lo, hi);
   if (g == GE && hi < mod) { bump(S->implied); return 0; }
   if (g == ZERO) { Int a = fdiv_(lo, mod), b = fdiv_(hi, mod); if (a == b && lo > a * mod) { bump(S->implied); return 0; } }
   vector<u32> inp; for (u32 v = 0; v < V.size(); v++) if (V[v].base) inp.push_back(v);
   for (int k = 0; k < (g == ZERO || fixc ? 3000 : 60); k++) { // models at hand, confirmed by evaluation
      vector<u64> c = model; for (u32 v : inp) if (rnd() % 2) { u64 r = rnd(); c[V[v].inp] = r % 16 == 0 ? P - 1 : r % 16 == 1 ? 0 : rnd() % P; }
      if (g == ZERO || fixc) {
         const IP& sp = g == ZERO ? p : fixc->p; const Int& smod = g == ZERO ? mod : fixc->mod;
         std::set<u32> bs; for (auto& t : sp) for (auto& x : M[t.first].e) if (V[x.first].base) bs.insert(x.first);
         if (bs.empty()) break;
         u32 v = *std::next(bs.begin(), rnd() % bs.size()); IP co; bool lin = true;
         for (auto& t : sp) { u32 e = 0; ExpV o; for (auto& x : M[t.first].e) { if (!V[x.first].base) lin = false; if (x.first == v) e = x.second; else o.push_back(x); } if (e > 1) lin = false; if (e == 1) co.push_back({mono_id(o), t.second}); }
         if (!lin) break;
         Int a = fmod_(ieval(co, c), smod), iv; c[V[v].inp] = 0; Int r = ieval(sp, c);
         if (a == 0 || !mpz_invert(iv.get_mpz_t(), a.get_mpz_t(), smod.get_mpz_t())) continue;
         Int x = fmod_(-r * iv, smod); if (x >= P) continue; c[V[v].inp] = x.get_ui();
      }
      if (goal_ok(p, mod, g, c) && holds(c)) { m = c; return 1; }
   }
   int r = ask(p, mod, g, false, false, m); if (r >= 0) return r;
   if (r == -3) { r = ask(p, mod, g, false, true, m); if (r >= 0) return r; }
   if (r == -2 && S->ztime <= g_zcap) { r = ask(p, mod, g, true, true, m); if (r >= 0) return r; }
   return -1;
}
static string show(const IP& p) { string r; for (auto& t : p) { r += (r.empty() ? "" : " + ") + t.second.get_str(); for (auto& x : M[t.first].e) r += (V[x.first].base ? "*x" : "*k") + std::to_string(x.first) + (x.second > 1 ? "^" + std::to_string(x.second) : ""); } return r; }
static void undec(const string& what) { bump(S->undecided); logline("{\"type\":\"undecided\",\"msg\":\"" + jesc(what) + "\"}"); }
static bool zero(const IP& p0, const Int& mod) // branch on  p = 0 modulo mod
{
   IP p = simp(p0, mod);
   if (p.size() - (p.size() && p[0].first == 0) == 1) p = monic(p, mod);
   if (isc(p)) return p.empty();
   for (auto& c : C) if (c.mod == mod && c.p == p) return c.zero;
   for (auto& c : Czz) if (c.mod == mod && c.p == p) return true;
   bump(S->branches);
   bool side = fmod_(ieval(p, model), mod) == 0; vector<u64> m2;
   int r = feas(p, mod, side ? NONZERO : ZERO, m2);
   if (r < 0) { string w = "zero test: " + show(p) + " mod " + mod.get_str() + " |"; for (auto& c : C) w += " [" + show(c.p) + (c.zero ? " = " : " != ") + "0 mod " + c.mod.get_str() + "]"; undec(w.substr(0, 1500)); }
   if (r == 1 && fork_other()) { model = m2; remember(p, mod, !side); return !side; }
   remember(p, mod, side); return side;
}
static void below(long a, long n, const char* what) // operand of a modular operation must be reduced
{
   if (!is_h(a)) { if (a < 0 || a >= n) event(what); return; }
   IT& t = term(a); if (t.raw || t.kind) { event(what); return; }
   if (t.mod <= n) return;
   vector<u64> m; IP l = lift(a); int r = feas(l, Int(n), GE, m);
   if (r == 1) candidate("event", what, m); else if (r < 0) undec(what);
}
static long fixv(long a) { if (!is_h(a)) return a; const IP l = lift(a); Int v = ieval(l, model); bump(S->skipped); C.push_back({iadd(term(a).p, iconst(v), -1), term(a).mod, true}); addrow(C.back().p, C.back().mod); return (long) v.get_si(); }
static Int modof(long a, long b) { Int m = is_h(a) ? term(a).mod : term(b).mod; if (is_h(a) && is_h(b) && term(a).mod != term(b).mod) throw Unmodelled("word product of values known modulo different primes"); return m; }
static void setll(unsigned long& hi, unsigned long& lo, const IP& p, const Int& mod, long double u)
{
   if (u >= 18446744073709551616.0L * 18446744073709551616.0L) event("two-word accumulator may overflow");
   long h = mkraw(p, mod, u); lo = (unsigned long) h;
   if (u < 18446744073709551616.0L) hi = 0;
   else { IT t; t.p = iconst(1); t.mod = mod; t.raw = true; t.kind = 1; t.ref = h; t.ub = 0; t.lifted = false; hi = (unsigned long) newterm(t); }
}
static IP llval(unsigned long hi, unsigned long lo, const Int& mod, long double& u)
{
   Int b; mpz_ui_pow_ui(b.get_mpz_t(), 2, 64);
   if (is_h((long) lo)) {
      u = ub((long) lo); IP f = cls((long) lo, mod);
      if (is_h((long) hi)) { if (term((long) hi).kind == 0 || term((long) hi).ref != (long) lo) event("high and low words of different values"); }
      else if (hi != 0) { f = iadd(f, iconst(fmod_(Int(hi) * b, mod)), 1); u += (long double) hi * 18446744073709551616.0L; }
      else if (u >= 18446744073709551616.0L) event("high word dropped");
      return f;
   }
   if (is_h((long) hi)) throw Unmodelled("high word without its low word");
   u = (long double) hi * 18446744073709551616.0L + (long double) lo; return iconst(fmod_(Int(hi) * b + Int(lo), mod));
}
static void llma(unsigned long& hi, unsigned long& lo, unsigned long a, unsigned long b)
{
   Int m = is_h((long) lo) ? term((long) lo).mod : modof((long) a, (long) b);
   long double u; IP f = llval(hi, lo, m, u); setll(hi, lo, iadd(f, imul(cls((long) a, m), cls((long) b, m)), 1), m, u + ub((long) a) * ub((long) b));
}
static void lla2(unsigned long& hi, unsigned long& lo, unsigned long ahi, unsigned long alo)
{
   Int m = is_h((long) lo) ? term((long) lo).mod : term((long) alo).mod; long double u1, u2; IP f = llval(hi, lo, m, u1), g = llval(ahi, alo, m, u2); setll(hi, lo, iadd(f, g, 1), m, u1 + u2);
}
static long red21(long hi, long lo, long d, long nbits, bool norm)
{
   Int D(d); if (norm && nbits != 60) event("normalised reduction used with a modulus of fewer than 60 bits");
   if (!is_h(lo)) throw Unmodelled("high word without its low word");
   if (term(lo).mod != D) throw Unmodelled("operation modulo another modulus on an unreduced word");
   long double u = ub(lo);
   if (is_h(hi)) {
      IT& t = term(hi); if (t.kind == 0) throw Unmodelled("two-word value built from a term");
      if (t.ref != lo) event("high and low words of different values");
      if (t.kind == 1 && u >= (long double) d * 18446744073709551616.0L) event("high word not reduced before a two-word reduction");
      return mk(term(lo).p, D);
   }
   if (hi == 0) { if (u >= 18446744073709551616.0L) event("high word dropped"); return mk(term(lo).p, D); }
   if (u >= 18446744073709551616.0L) event("high word replaced");
   Int b; mpz_ui_pow_ui(b.get_mpz_t(), 2, 64); return mk(iadd(term(lo).p, iconst(Int(hi) * b), 1), D);
}
static long rem(long a, long n)
{
   if (!is_h(a)) return a % n;
   IT& t = term(a);
   if (t.kind == 1) { if (t.mod != Int(n)) throw Unmodelled("high word reduced modulo another modulus"); IT u = t; u.kind = 2; return newterm(u); }
   if (t.kind == 2) return a;
   if (t.raw && t.ub >= 18446744073709551616.0L) event("high word dropped");
   return mk(cls(a, Int(n)), Int(n));
}
static bool eq(long a, long b)
{
   if (!is_h(a) && !is_h(b)) return a == b;
   if (a == b) return true;
   if (!is_h(a)) std::swap(a, b);
   if (term(a).raw || (is_h(b) && term(b).raw)) throw Unmodelled("comparison of an unreduced word");
   Int m = term(a).mod; if (!is_h(b) && (b < 0 || Int(b) >= m)) return false;
   if (is_h(b) && term(b).mod != m) throw Unmodelled("comparison of words known modulo different primes");
   return zero(ired(iadd(term(a).p, cls(b, m), -1), m), m);
}
static void require(long a, long b, const char* msg)
{
   Int p(P); IP d = simp(ired(iadd(cls(a, p), cls(b, p), -1), p), p);
   if (isc(d)) { // identical: still one query over the path, as for the other obligations
      if (!d.empty()) candidate("assert", msg, model);
      else { bump(S->trivially, -1L); bump(S->trivially); }
      return;
   }
   if (goal_ok(d, p, NONZERO, model)) { candidate("assert", msg, model); return; }
   vector<u64> m; int r = feas(d, p, NONZERO, m);
   if (r == 1) candidate("assert", msg, m);
   else if (r < 0) { bump(S->undecided); logline("{\"type\":\"undecided_obligation\",\"msg\":\"" + jesc(msg) + "\"}"); }
}
static void assume(long a, bool z)
{
   if (!is_h(a)) { if ((a == 0) != z) throw PathEnd(); return; }
   IP p = term(a).p; Int mod = term(a).mod;
   if ((fmod_(ieval(p, model), mod) == 0) != z) { vector<u64> m; int r = feas(p, mod, z ? ZERO : NONZERO, m); if (r == 0) throw PathEnd(); if (r < 0) { undec("assumption"); throw PathEnd(); } model = m; }
   remember(p, mod, z);
}
static long fresh(const char* name)
{
   Var v; v.base = true; v.inp = model.size(); v.lo = 0; v.hi = Int(P - 1); model.push_back(rnd() % P); elim.push_back(0); vnames.push_back(name); V.push_back(v);
   IP p; p.push_back({mono_id(ExpV{{(u32) V.size() - 1, 1}}), Int(1)}); return mk(p, Int(P));
}
static long val(long a) { if (!is_h(a)) return a; IT& t = term(a); Int v = fmod_(ieval(t.p, model), t.mod); return (long) v.get_si(); }
}
void set_multi() { if (P > (1L << 16)) g_multi = true; }
