// Magma and Sage output: what is printed, read back with the rules of the target language, is the value
#include "magma_output.h"
#include "sage_output.h"
#include "vh.h"
#include <iostream>
#include <sstream>
#include <set>
#include <cctype>
#include <climits>
#ifdef VH_SYM
#include "../symntl/engine.h"
#endif
PML_CLIENT
// value: polynomial or list
struct Val { bool list; zz_pX p; std::vector<Val> l; std::string raw; Val() : list(false) {} };
static std::string T; static size_t P; static bool bad; static std::set<std::string> vars, rings; static bool magma;
static void ws() { while (P < T.size() && (T[P] == ' ' || T[P] == '\t')) P++; }
static bool at(char c) { ws(); return P < T.size() && T[P] == c; }
static bool eat(char c) { if (at(c)) { P++; return true; } return false; }
static void need(char c) { if (!eat(c)) bad = true; }
static std::string ident() { ws(); std::string s; while (P < T.size() && (isalnum(T[P]) || T[P] == '_')) s += T[P++]; return s; }
static zz_p number(const std::string& s, bool neg)
{
#ifdef VH_SYM
   zz_p x; x.LoopHole() = symx::SymLong(0); x._zz_p__rep.v = symx::untoken(s); if (s.size() != 16) x = to_zz_p(to_ZZ(s.c_str()));
#else
   zz_p x = to_zz_p(to_ZZ(s.c_str()));
#endif
   return neg ? -x : x;
}
static Val expr();
static Val coerce(const Val& v) { if (!v.list) return v; Val r; for (size_t i = 0; i < v.l.size(); i++) { if (v.l[i].list || deg(v.l[i].p) > 0) bad = true; SetCoeff(r.p, i, coeff(v.l[i].p, 0)); } return r; }
static Val mulv(const Val& a, const Val& b) { Val r; if (a.list || b.list) { bad = true; return r; } r.p = vh::ref_mul(a.p, b.p); return r; }
static Val atom()
{
   Val r; if (bad) return r; ws();
   if (P >= T.size()) { bad = true; return r; }
   if (eat('(')) { r = expr(); need(')'); return r; }
   if (eat('[')) { r.list = true; if (eat(']')) return r; do r.l.push_back(expr()); while (!bad && eat(',')); need(']'); return r; }
   if (T[P] == '-' || isdigit(T[P])) { bool neg = eat('-'); ws(); std::string s; while (P < T.size() && isdigit(T[P])) s += T[P++]; if (s.empty()) bad = true; else SetCoeff(r.p, 0, number(s, neg)); r.raw = (neg ? "-" : "") + s; return r; }
   std::string id = ident(); if (id.empty()) { bad = true; return r; }
   if (id == "Matrix") { need('('); size_t sv = P; std::string g = ident(); if (g == "GF") { need('('); ws(); std::string s = ident(); if (s != std::to_string(zz_p::modulus())) bad = true; need(')'); need(','); } else P = sv; r = expr(); if (!r.list) bad = true; for (size_t i = 0; i < r.l.size(); i++) if (!r.l[i].list) bad = true; need(')'); return r; }
   if (magma && id == "Parent") { need('('); if (!vars.count(ident())) bad = true; need(')'); need('!'); return coerce(atom()); }
   if (magma && at('!')) { P++; if (!rings.count(id)) bad = true; return coerce(atom()); }
   if (!magma && at('.')) { P++; if (ident() != "parent" || !vars.count(id)) bad = true; need('('); need(')'); need('('); r = coerce(expr()); need(')'); return r; }
   if (!magma && at('(')) { P++; if (!rings.count(id)) bad = true; r = coerce(expr()); need(')'); return r; }
   if (!vars.count(id)) { bad = true; return r; }
   SetCoeff(r.p, 1, 1); return r;
}
static Val factor() { Val a = atom(); if (!bad && eat('^')) { ws(); std::string s; while (P < T.size() && isdigit(T[P])) s += T[P++]; if (s.empty()) { bad = true; return a; } long e = atol(s.c_str()); if (e > 100) { bad = true; return a; } Val r; SetCoeff(r.p, 0, 1); for (long i = 0; i < e; i++) r = mulv(r, a); return r; } return a; }
static Val term() { Val a = factor(); while (!bad && eat('*')) a = mulv(a, factor()); return a; }
static Val expr() { Val a = term(); while (!bad && (at('+') || at('-'))) { bool neg = at('-'); P++; Val b = term(); if (a.list || b.list) { bad = true; break; } a.raw.clear(); if (neg) a.p -= b.p; else a.p += b.p; } return a; }
static Val parse(const std::string& text, const std::string& name)
{
   T = text; P = 0; bad = false;
   if (!name.empty()) { if (ident() != name) bad = true; if (magma) need(':'); need('='); }
   Val r = expr();
   if (!name.empty()) { if (magma) need(';'); ws(); if (P >= T.size() || T[P] != '\n') bad = true; else P++; }
   ws(); if (P != T.size()) bad = true;
   vh::check(!bad, "printed text is not an expression of the target language in the declared names"); return r;
}
struct Cap { std::stringstream s; std::streambuf* o; Cap() { o = std::cout.rdbuf(s.rdbuf()); } ~Cap() { std::cout.rdbuf(o); } std::string str() { return s.str(); } };

void harness()
{
   vh::init(); std::string op = vh::sarg("op", ""), var = vh::sarg("var", ""), name = vh::sarg("name", ""); long n = vh::arg("n", 2), m = vh::arg("m", 2), len = vh::arg("len", 2); magma = vh::arg("magma", 1);
   bool as = !name.empty(), hv = !var.empty(); std::string out;
#define CALL(v) { Cap c; \
   if (magma) { if (as && hv) magma_assign(v, var, name); else if (as) magma_assign(v, name); else if (hv) magma_output(v, var); else magma_output(v); } \
   else { if (as && hv) sage_assign(v, var, name); else if (as) sage_assign(v, name); else if (hv) sage_output(v, var); else sage_output(v); } out = c.str(); }
#define CALLV(v) { Cap c; if (magma) { if (as) magma_assign(v, name); else magma_output(v); } else { if (as) sage_assign(v, name); else sage_output(v); } out = c.str(); }
   if (hv) vars.insert(var);
   if (op == "init") {
      std::string a, b, d; { Cap c; if (magma) magma_init(); else sage_init(); a = c.str(); } { Cap c; if (magma) magma_init_X(); else sage_init_X(); b = c.str(); } { Cap c; if (magma) magma_init_ZZX(); else sage_init_ZZX(); d = c.str(); }
      auto sq = [](const std::string& s) { std::string r; for (char c : s) if (!isspace(c) && c != ';' && c != ':' && c != '.') r += c; return r; };
      vh::check(sq(a) == "k=GF(" + std::to_string(zz_p::modulus()) + ")", "declaration of the base field"); vh::check(sq(b) == "U<x>=PolynomialRing(k)", "declaration of the polynomial ring"); vh::check(sq(d) == "UZ<XX>=PolynomialRing(Integers())", "declaration of the ring of integer polynomials");
      return; }
   if (op == "zzp") { Vec<zz_p> v = vh::vec(n); CALLV(v); Val r = parse(out, name); vh::check(r.list && (long) r.l.size() == n, "number of entries"); for (long i = 0; i < n; i++) { vh::check(!r.l[i].list, "entry"); zz_pX e; SetCoeff(e, 0, v[i]); vh::eq(r.l[i].p, e, "printed entry"); } return; }
   if (op == "mzzp") { Mat<zz_p> v = vh::mat(m, n); CALLV(v); Val r = parse(out, name); vh::check(r.list, "matrix"); if (m && n) vh::eq((long) r.l.size(), m, "number of rows"); for (long i = 0; i < (long) r.l.size(); i++) { vh::eq((long) r.l[i].l.size(), m ? n : 0, "number of columns"); if (m) for (long j = 0; j < n; j++) { zz_pX e; SetCoeff(e, 0, v[i][j]); vh::eq(r.l[i].l[j].p, e, "printed entry"); } } return; }
   if (op == "long" || op == "ulong" || op == "ZZ" || op == "ZZX") {
      static const long tab[] = {0, 1, -1, 7, LONG_MAX, LONG_MIN}; Vec<long> v; Vec<unsigned long> u; Vec<ZZ> z; v.SetLength(n); u.SetLength(n); z.SetLength(n); std::vector<std::string> e;
      for (long i = 0; i < n; i++) { long k = tab[vh::symint(0, 5)]; v[i] = k; u[i] = k; z[i] = to_ZZ(k); if (op == "ZZ" && k == 7) { z[i] = power2_ZZ(70); e.push_back("1180591620717411303424"); } else e.push_back(op == "ulong" ? std::to_string((unsigned long) k) : std::to_string(k)); }
      if (op == "ZZX") { ZZX f; for (long i = 0; i < n; i++) SetCoeff(f, i, z[i]); if (!hv) { vars.insert("XX"); rings.insert("UZ"); } CALL(f); Val r = parse(out, name); zz_pX ef; for (long i = 0; i < n; i++) SetCoeff(ef, i, to_zz_p(z[i])); vh::check(!r.list, "polynomial"); vh::eq(r.p, ef, "printed polynomial"); return; }
      if (op == "long") CALLV(v) else if (op == "ulong") CALLV(u) else CALLV(z)
      Val r = parse(out, name); vh::eq((long) r.l.size(), n, "number of entries"); for (long i = 0; i < n; i++) vh::check(r.l[i].raw == e[i], "printed entry"); return; }
   if (!hv) { vars.insert("x"); rings.insert("U"); }
   if (op == "poly") { zz_pX f = vh::poly(len); CALL(f); Val r = parse(out, name); vh::check(!r.list, "polynomial"); vh::eq(r.p, f, "printed polynomial"); return; }
   if (op == "vpoly") { PVec v = vh::pvec(n, len); CALL(v); Val r = parse(out, name); vh::check(r.list && (long) r.l.size() == n, "number of entries"); for (long i = 0; i < n; i++) vh::eq(r.l[i].p, v[i], "printed polynomial"); return; }
   if (op == "mpoly") { PMat v = vh::pmat(m, n, len); CALL(v); Val r = parse(out, name); vh::check(r.list, "matrix"); vh::eq((long) r.l.size(), m, "number of rows"); for (long i = 0; i < m; i++) { vh::eq((long) r.l[i].l.size(), n, "number of columns"); for (long j = 0; j < n; j++) vh::eq(r.l[i].l[j].p, v[i][j], "printed polynomial"); } return; }
   vh::check(false, "unknown op");
}
