// gcd over ZZ (multivariate and univariate), Z/p univariate, contents and primitive parts
#define PROP "P16"
#include "algo.hh"
using namespace drv;
static void check(const RZ& A, const RZ& B, const RZ& K, const RZ& G, const std::string& in) { // K: a known common divisor
  if (A.d.empty() && B.d.empty()) { CK(G.d.empty(), "gcd(0,0)", in); return; }
  bool o1, o2; RZ qa = exdiv(A, G, o1), qb = exdiv(B, G, o2); CK(o1 && o2, "gcd does not divide both operands", in); if (!o1 || !o2) return;
  CK(divides(K, G), "a common divisor does not divide the gcd", in);
  if (A.d.empty() || B.d.empty()) { RZ q = A.d.empty() ? qb : qa; CK(isconst(q) && abs(q.d.begin()->second) == 1, "gcd with zero", in); return; }
  CK(coprime(qa, qb), "cofactors have a common factor", in); CK(gcd(icont(qa), icont(qb)) == 1, "cofactors have a common integer factor", in); }
template <class O> static void multi(const O* c, const char* nm, int nv) {
  RZ k = nz(rpoly(nv, (int)rint(0, 3), 3, rnd() % 5 == 0)), a = rpoly(nv, (int)rint(0, 3), (int)rint(0, 4), rnd() % 5 == 0), b = rpoly(nv, (int)rint(0, 3), (int)rint(0, 4), rnd() % 5 == 0);
  if (rnd() % 3 == 0) { RZ t = nz(rpoly(nv, 2, 2, false)); k = k * t * t; }
  if (rnd() % 4 == 0) k = rconst(rint(1, 30)) * k;
  if (rnd() % 4 == 0) { mpz_class P(rnd() % 2 ? "18446744073709551557" : "18446744073709551533"); if (rnd() % 2) b = a + rconst(P) * b; else { int j = rnd() % nv; a = rconst(P) * rvar(j, 2) * a + rpoly(nv, 1, 2, false); } } // unlucky and bad primes
  RZ A = a * k, B = b * k; auto f = polyc<ZZ>(c, A), g = polyc<ZZ>(c, B);
  std::ostringstream s; s << nm << " f=" << f << " g=" << g; std::string in = s.str(); note(in);
  auto h = gcd(f, g); CK(canonP(h), "gcd not canonical", in); CK(h.comp() == f.comp() || f.empty(), "gcd carries another order", in); RZ G = toref(h); check(A, B, k, G, in);
  CK(toref(f) == A && toref(g) == B, "operands changed", in);
  auto h2 = polynomial_GCD(g, f); CK(norms(toref(h2)) == norms(G), "gcd not symmetric", in); }
template <class O> static void contents(const O* c, const char* nm, int nv) {
  RZ k = nz(rpoly(nv, 2, 3, false)); int i = rnd() % nv; { RZ t; for (auto& x : k.d) { Ex e = x.first; e[i] = 0; t.add(e, x.second); } k = nz(t); }
  RZ A = k * rpoly(nv, 3, 4, rnd() % 5 == 0); if (A.d.empty()) return; auto f = polyc<ZZ>(c, A); std::ostringstream s; s << nm << " content of f=" << f; std::string in = s.str(); note(in);
  auto ct = cont(f); auto q = pp(f); CK(canonP(ct) && canonP(q), "content or primitive part not canonical", in); CK(toref(ct) * toref(q) == A, "content times primitive part", in);
  if (is_number(f)) return; int v = varidx(get_first_var(f)); CK(rdeg(toref(ct), v) == 0, "content contains the main variable", in); RZ Q = toref(q); RZ g; CK(icont(Q) == 1, "primitive part has an integer factor", in);
  std::vector<RZ> L; for (int64_t d = 0; d <= rdeg(Q, v); d++) { RZ t = rpart(Q, v, d); if (!t.d.empty()) L.push_back(t); } // coefficients have no common factor: random combination test
  if (L.size() > 1) { bool ok = false; for (int t = 0; t < 6 && !ok; t++) { RZ x; for (size_t j = 1; j < L.size(); j++) x = x + rconst(1 + rnd() % 1000) * L[j]; if (x.d.empty()) continue; ok = coprime(L[0], x) || isconst(L[0]); } CK(ok, "coefficients of the primitive part share a factor", in); } else CK(isconst(L[0]), "coefficients of the primitive part share a factor", in); }
static RZ K2(const RZ& a) { mpz_class g = icont(a); RZ r; for (auto& t : a.d) r.add(t.first, mpz_class(t.second / g)); return r; }
static void uni() {
  RZ k = nz(rpoly(1, (int)rint(0, 6), 4, rnd() % 3 == 0)), a = rpoly(1, (int)rint(0, 8), (int)rint(0, 6), rnd() % 3 == 0), b = rpoly(1, (int)rint(0, 8), (int)rint(0, 6), rnd() % 3 == 0);
  if (rnd() % 4 == 0) { mpz_class z = 1; for (int j = 0; j < 40; j++) { z *= 3; } a = a + rconst(z) * rvar(0, 3); b = b - rconst(z * z) * rvar(0, 5); } // beyond the heuristic threshold
  if (rnd() % 3 == 0) { mpz_class P("18446744073709551557"); a = a * (rconst(P) * rvar(0, 2) + rconst(1)) + rconst(P) * rvar(0); } // leading coefficients divisible by the first prime used
  if (rnd() % 4 == 0) { mpz_class P(rnd() % 2 ? "18446744073709551557" : "18446744073709551533"); b = a + rconst(P) * b; } // unlucky primes
  if (rnd() % 4 == 0) k = rconst(rint(1, 30)) * k;
  RZ A = a * k, B = b * k; auto f = fromu(A), g = fromu(B); std::ostringstream s; s << "univariate f=" << f << " g=" << g; std::string in = s.str(); note(in);
  auto h = polynomial_GCD(f, g); CK(canonP(h), "gcd not canonical", in); check(A, B, k, touref(h), in); if (!f.empty() && !g.empty()) { upolynomial_ZZ S, T; auto e = polynomial_GCD(f, g, S, T); RZ E = touref(e); CK(touref(S) * A + touref(T) * B == E, "Bezout identity over ZZ", in); CK(canonP(e) && canonP(S) && canonP(T), "extended gcd not canonical", in); CK(rdeg(E, 0) == rdeg(touref(h), 0) && E.d.rbegin()->second > 0 && divides(K2(touref(h)), E), "extended gcd is a positive multiple of the primitive gcd", in); }
  if (!f.empty()) CK(toz(cont(f)) == icont(A) || toz(cont(f)) == -icont(A), "integer content", in); }
static void modp1() { const uint64_t PR[] = {2, 3, 5, 7, 101, 65537, 4294967291ull, 18446744073709551557ull, 9223372036854775783ull}; uint64_t p = PR[rnd() % 9]; auto rv = [&](int n) { UV r; for (int i = rint(0, n); i > 0; i--) r.push_back(rnd() % 3 ? rnd() % p : 0); trim(r); return r; };
  int big = rnd() % 40 == 0 ? 420 : 14; UV k = rv(rnd() % 2 ? 6 : 1), a = rv(big), b = rv(big); if (k.empty()) k = {1}; UV A = uvmul(a, k, p), B = uvmul(b, k, p); auto f = fromuv(A, p), g = fromuv(B, p); std::ostringstream s; s << "mod " << p << " f=" << str(A) << " g=" << str(B); std::string in = s.str(); note(in);
  UV W = uvgcd(A, B, p); if (!W.empty()) { uint64_t li = mpw(W.back(), p - 2, p); if (p == 2) li = 1; for (auto& x : W) x = (u128)x * li % p; }
  auto h = polynomial_GCD(f, g); CK(touv(h) == W, "monic gcd over Z/p", in); if (!h.empty()) CK(canonP(h), "gcd over Z/p not canonical", in);
  if (!A.empty() && !B.empty()) { upolynomial_<Zp> S, T; auto h2 = polynomial_GCD(f, g, S, T); UV x = uvmul(touv(S), A, p), y = uvmul(touv(T), B, p), z(std::max(x.size(), y.size()), 0); for (size_t i = 0; i < z.size(); i++) z[i] = ((u128)(i < x.size() ? x[i] : 0) + (i < y.size() ? y[i] : 0)) % p; trim(z); UV hv = touv(h2); CK(z == hv, "Bezout identity s*f + t*g = gcd", in); CK(hv.size() == W.size() && uvrem(hv, W, p).empty(), "extended gcd over Z/p", in); } }
int main(int argc, char** argv) {
  init(argc, argv);
  section("multivariate over ZZ, all orders", 0.45, [] { int nv = (int)rint(1, 3); anyorder(nv, [&](auto* c, const char* nm) { multi(c, nm, nv); }); });
  section("content and primitive part", 0.15, [] { int nv = (int)rint(1, 3); contents(LEX(), "lex", nv); });
  section("univariate over ZZ", 0.25, [] { uni(); });
  section("univariate over Z/p", 0.15, [] { modp1(); });
  return done();
}
