// square-free decomposition and Hensel lifting
#define PROP "P20"
#include "algo.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace drv;
static mpz_class fmod_(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static RZ mp(const RZ& a, const mpz_class& m) { RZ r; for (auto& t : a.d) r.add(t.first, fmod_(t.second, m)); return r; }
static RZ prodof(int nv, int n, int md) { RZ A = rconst(1); for (int i = 0; i < n; i++) { RZ f = rnd() % 3 ? irred(nv, md) : nz(rpoly(nv, 2, 3, false)); A = A * rpow(f, rnd() % 3 ? 1 : rint(2, 4)); if (A.d.size() > 60) break; } if (rnd() % 4 == 0) A = rconst(rint(-20, 20)) * A; return A; }
template <class O> static void sqf(const O* c, const char* nm, int nv) { RZ A = prodof(nv, (int)rint(0, 3), 3); auto f = polyc<ZZ>(c, A); std::ostringstream s; s << nm << " f=" << f; std::string in = s.str(); note(in);
  auto L = squarefreefactorize(f); if (A.d.empty()) { CK(L.empty(), "square-free decomposition of zero", in); CK(!is_squarefree(f), "zero is not square-free", in); return; }
  RZ Pr = rconst(1); std::vector<RZ> nc; for (auto& x : L) { RZ g = toref(x.first); CK(canonP(x.first) && x.first.comp() == f.comp(), "part not canonical or in another order", in); CK(!g.d.empty(), "zero part", in); if (!isconst(g)) { nc.push_back(g); CK(sqfree(g), "part not square-free", in); CK(icont(g) == 1, "part not primitive", in); } Pr = Pr * rpow(g, x.second); }
  CK(Pr == A, "parts do not multiply back to the polynomial", in); for (size_t i = 0; i < nc.size(); i++) for (size_t j = 0; j < i; j++) CK(coprime(nc[i], nc[j]), "parts not coprime", in);
  CK(is_squarefree(f) == sqfree(A), "is_squarefree", in); }
template <class O> static void basis(const O* c, const char* nm, int nv) { typedef polynomial_<ZZ, O> P; std::vector<P> F; std::vector<RZ> R; int n = (int)rint(1, 3); RZ sh = prodof(nv, 1, 2); std::ostringstream s; s << nm << " basis of"; for (int i = 0; i < n; i++) { RZ a = prodof(nv, (int)rint(0, 2), 2); if (rnd() % 2 && a.d.size() * sh.d.size() < 60) a = a * sh; R.push_back(a); F.push_back(polyc<ZZ>(c, a)); s << " ; " << F.back(); } std::string in = s.str(); note(in);
  auto b = squarefreebasis(F); CK(b.first.size() == b.second.size(), "basis and exponents have different lengths", in); std::vector<RZ> B; for (auto& x : b.first) { RZ g = toref(x); CK(canonP(x) && !isconst(g) && sqfree(g), "basis element not canonical, constant or not square-free", in); B.push_back(g); }
  for (size_t i = 0; i < B.size(); i++) for (size_t j = 0; j < i; j++) CK(coprime(B[i], B[j]), "basis not pairwise coprime", in);
  for (int i = 0; i < n; i++) { if (R[i].d.empty()) continue; RZ Pr = rconst(1); for (size_t k = 0; k < B.size(); k++) for (auto& e : b.second[k]) if ((int)e.first == i) Pr = Pr * rpow(B[k], e.second); bool ok; RZ q = exdiv(R[i], Pr, ok); CK(ok && isconst(q), "the basis does not reproduce an input up to a constant", in); } }
static void sqfzp() { const uint64_t PR[] = {2, 3, 5, 7, 101, 65537, 18446744073709551557ull}; uint64_t p = PR[rnd() % 7]; auto rv = [&](int n) { UV r; for (int i = rint(1, n); i > 0; i--) r.push_back(rnd() % 3 ? rnd() % p : 0); r.push_back(1); return r; }; UV a = {1}; for (int k = rint(1, 4); k > 0; k--) { UV b = rv(3); for (int e = rint(1, 6); e > 0; e--) { UV t = uvmul(a, b, p); if (t.size() < 40) a = t; } } if (a.size() < 2) return;
  auto f = fromuv(a, p); std::ostringstream s; s << "square-free mod " << p << " f=" << str(a); std::string in = s.str(); note(in); auto L = __squarefree_Zp(f); UV Pr = {1}; std::vector<UV> G; std::set<uint64_t> es; for (auto& x : L) { UV g = touv(x.first); CK(canonP(x.first) && g.size() > 1 && g.back() == 1, "part over Z/p not canonical and monic", in); UV d; for (size_t i = 1; i < g.size(); i++) d.push_back((u128)g[i] * (i % p) % p); trim(d); CK(!d.empty() && uvgcd(g, d, p).size() == 1, "part over Z/p not square-free", in); for (auto& h : G) CK(uvgcd(g, h, p).size() == 1, "parts over Z/p not coprime", in); G.push_back(g); for (uint64_t k = 0; k < x.second && Pr.size() < 200; k++) Pr = uvmul(Pr, g, p); } trim(Pr); CK(Pr == a, "parts over Z/p do not multiply back", in); }
static void lift() { RZ A = rconst(1); int n = (int)rint(2, 5); for (int i = 0; i < n; i++) { RZ f = irred(1, 4); A = A * f; if (rdeg(A, 0) > 12) break; } if (rnd() % 3 == 0) { A = rpoly(1, 8, 6) + rconst(rint(1, 5)) * rvar(0, 9); } if (A.d.rbegin()->second < 0 && rnd() % 2) A = RZ() - A; static const uint64_t PR[] = {3, 5, 7, 11, 13, 101, 65537, 4294967291ull, 18446744073709551557ull}; uint64_t p = PR[rnd() % 9]; mpz_class P = toz(ZZ(p)); mpz_class lc = A.d.rbegin()->second; if (lc % P == 0) return;
  UV a = image(A, 0, std::vector<uint64_t>(vars().size(), 0), p), d; for (size_t i = 1; i < a.size(); i++) d.push_back((u128)a[i] * (i % p) % p); trim(a); trim(d); if (d.empty() || uvgcd(a, d, p).size() != 1) return; auto f = fromu(A); auto fz = __factor_Zp(fromuv(a, p)); std::vector<upolynomial_<Zp>> F; for (auto& x : fz.second) F.push_back(x.first); if (F.size() < 2) return; if (rnd() % 3 == 0 && F.size() > 2) { F[0] = F[0] * F.back(); F.pop_back(); }
  int at = rnd() % 2 ? 0 : (int)rint(1, 9); std::ostringstream s; s << "lift f=" << f << " p=" << p << " target " << at << " factors"; for (auto& x : F) s << " ; " << x; std::string in = s.str(); note(in);
  auto r = __hensel_lift(f, F, p, at); mpz_class m = toz(r.second); mpz_class q = m; while (q > 1 && q % P == 0) q /= P; CK(q == 1 && m >= P, "modulus not a power of the prime", in); if (!at) { mpz_class B = toz(__mignotte_bound(f)); CK(m > 2 * abs(lc) * B, "modulus below the target", in); } else { mpz_class w = 1; for (int i = 0; i < at; i++) w *= P; CK(m >= w, "modulus below the requested power", in); }
  CK(r.first.size() == F.size(), "number of factors", in); if (r.first.size() != F.size()) return; RZ Pr = rconst(lc); for (size_t i = 0; i < F.size(); i++) { RZ g = touref(r.first[i]); CK(canonP(r.first[i]) && mp(g, m) == g, "lifted factor not reduced", in); CK(!g.d.empty() && g.d.rbegin()->second == 1, "lifted factor not monic", in); UV gi = touv(F[i]); RZ g0; for (size_t k = 0; k < gi.size(); k++) { Ex e(vars().size(), 0); e[0] = k; g0.add(e, toz(ZZ(gi[k]))); } CK(mp(g, P) == mp(g0, P), "lifted factor does not reduce to the given one", in); Pr = mp(Pr * g, m); } CK(mp(Pr - A, m).d.empty(), "lifted factors do not multiply to the polynomial modulo the target", in);
  // one linear step on a two-factor node, then a quadratic one
  std::vector<upolynomial_<Zp>> Fa = F; for (auto& t : Fa[0]) t.second *= Zp(f.front().second, p); auto nodes = __hensel_tree_build(Fa, p); auto ck = [&](const mpz_class& M, const char* w) { RZ g = touref(nodes[0].g), h = touref(nodes[0].h); CK(mp(g * h - A, M).d.empty(), w, in); CK(mp(g, M) == g && mp(h, M) == h && canonP(nodes[0].g) && canonP(nodes[0].h), "node factors not reduced", in); }; ck(P, "tree factors do not multiply to the polynomial modulo p"); auto bz = [&](const mpz_class& M, const char* w) { CK(mp(touref(nodes[0].s) * touref(nodes[0].g) + touref(nodes[0].t) * touref(nodes[0].h) - rconst(1), M).d.empty(), w, in); }; bz(P, "Bezout identity of the tree modulo p");
  auto n2 = nodes; { mpz_class M = P; for (int k = 0; k < 4; k++) { __hensel_step_linear(nodes[0], f, fromz(M), p); M *= P; ck(M, "linear lifting step"); bz(P, "linear step keeps the Bezout identity modulo p"); } } nodes = n2; { mpz_class M = P; for (int k = 0; k < 3; k++) { __hensel_step(nodes[0], f, fromz(M)); M *= M; ck(M, "quadratic lifting step"); bz(M, "quadratic step lifts the Bezout identity"); } } }
int main(int argc, char** argv) {
  init(argc, argv);
  section("Hensel lifting", 0.4, [] { lift(); });
  section("square-free decomposition over ZZ", 0.25, [] { int nv = (int)rint(1, 3); anyorder(nv, [&](auto* c, const char* nm) { sqf(c, nm, nv); }); });
  section("square-free bases", 0.2, [] { int nv = (int)rint(1, 3); anyorder(nv, [&](auto* c, const char* nm) { basis(c, nm, nv); }); });
  section("square-free decomposition over Z/p", 0.15, [] { sqfzp(); });
  return done();
}
