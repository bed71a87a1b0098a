// balanced residues, norms, binomials, square roots, coefficient bounds and modular division used by lifting and recombination
#define PROP "P17"
#include "algo.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace drv;
static mpz_class fmod_(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static mpz_class pos(int k) { mpz_class m; switch (rnd() % 5) { case 0: m = abs(edge()); break; case 1: m = 2 * abs(mpz_class((long)rint(1, 9))); break; case 2: mpz_ui_pow_ui(m.get_mpz_t(), rint(2, 13), rint(1, 60)); break; default: m = (long)rint(1, 30); } return m < k ? mpz_class(k) : m; }
static RZ mp(const RZ& a, const mpz_class& m) { RZ r; for (auto& t : a.d) r.add(t.first, fmod_(t.second, m)); return r; }
static void scalars() { mpz_class m = pos(1), a = rnd() % 3 ? mpz_class(m * (long)rint(-3, 3) / 2 + rint(-1, 1)) : rnd() % 2 ? edge() : mpz_class(edge() * edge()); std::ostringstream s; s << "a=" << a << " m=" << m; std::string in = s.str(); note(in);
  mpz_class r = toz(__symmetric_mod(fromz(a), fromz(m))); CK(fmod_(r - a, m) == 0, "symmetric_mod: not congruent", in); CK(-m < 2 * r && 2 * r <= m, "symmetric_mod: not the balanced residue", in);
  int64_t n = rint(-2, 90), k = rint(-2, 92); mpz_class b = 0; if (n >= 0 && k >= 0 && k <= n) mpz_bin_uiui(b.get_mpz_t(), n, k); std::ostringstream t; t << "binomial " << n << " " << k; CK(toz(__binomial(n, k)) == b, "binomial coefficient", t.str());
  mpz_class q; switch (rnd() % 4) { case 0: q = abs(a); break; case 1: q = abs(a) * abs(a); break; case 2: q = abs(a) * abs(a) + 1; break; default: q = abs(a) * abs(a) - 1; } mpz_class e; if (q <= 0) e = 0; else { mpz_sqrt(e.get_mpz_t(), q.get_mpz_t()); if (e * e < q) e++; } std::ostringstream u; u << "isqrt_ceil " << q; CK(toz(__isqrt_ceil(fromz(q))) == e, "ceiling of the square root", u.str()); }
static void polys() { RZ A = rpoly(1, rint(0, 12), rint(0, 8), rnd() % 3 == 0); mpz_class m = pos(1); if (rnd() % 4 == 0) A = rconst(m) * A + rpoly(1, 3, 2, false); auto f = fromu(A); std::ostringstream s; s << "f=" << f << " m=" << m; std::string in = s.str(); note(in);
  RZ S = touref(__upoly_symmetric_mod(f, fromz(m))); CK(canonP(__upoly_symmetric_mod(f, fromz(m))), "symmetric residue not canonical", in); CK(mp(S - A, m).d.empty(), "symmetric residue not congruent", in); for (auto& t : S.d) CK(-m < 2 * t.second && 2 * t.second <= m, "symmetric residue not balanced", in);
  auto g = f; __upoly_mod_coeff(g, fromz(m)); CK(canonP(g) && touref(g) == mp(A, m), "residues of the coefficients", in);
  mpz_class l1 = 0, l2 = 0; for (auto& t : A.d) { l1 += abs(t.second); l2 += t.second * t.second; } CK(toz(__upoly_norm_l1(f)) == l1 && toz(__upoly_norm_l2_sq(f)) == l2, "norms", in);
  RZ c0 = rpart(A, 0, 0); CK(toz(__upoly_const_term(f)) == (c0.d.empty() ? mpz_class(0) : c0.d.begin()->second), "constant term", in);
  if (!A.d.empty()) { auto pr = __upoly_primitive(f); RZ Q = touref(pr.second); CK(rconst(toz(pr.first)) * Q == A && icont(Q) == 1 && Q.d.rbegin()->second > 0 && canonP(pr.second), "content times primitive part", in); } }
static void bounds() { RZ g = rpoly(1, rint(1, 8), rint(1, 6), rnd() % 3 == 0), h = rpoly(1, rint(1, 8), rint(1, 6), rnd() % 3 == 0); if (rnd() % 3 == 0) { g = rconst(1); for (int i = rint(1, 6); i > 0; i--) g = g * (rvar(0) + rconst(rint(-2, 2))); } if (g.d.empty() || h.d.empty()) return; RZ A = g * h; auto f = fromu(A); std::ostringstream s; s << "g=" << fromu(g) << " h=" << fromu(h); std::string in = s.str(); note(in);
  mpz_class B = toz(__mignotte_bound(f)); for (auto& t : g.d) CK(abs(t.second) <= B, "a coefficient of a divisor exceeds the coefficient bound", in);
  mpz_class l2 = 0, e, b; for (auto& t : A.d) l2 += t.second * t.second; mpz_sqrt(e.get_mpz_t(), l2.get_mpz_t()); if (e * e < l2) e++; int64_t n = rdeg(A, 0); mpz_bin_uiui(b.get_mpz_t(), n, n / 2); CK(B == b * e, "binomial times the rounded norm", in);
  static const uint64_t PR[] = {3, 5, 7, 101, 65537, 4294967291ull, 18446744073709551557ull}; uint64_t p = PR[rnd() % 7]; auto pr = __heuristic_starting_precision(f, (int)rint(2, 9), p); mpz_class tgt = 2 * abs(A.d.rbegin()->second) * B, pw = 1, P = toz(ZZ(p)); for (int i = 0; i < pr.second; i++) pw *= P; CK(pw > tgt && pw / P <= tgt, "full precision is the least power above twice the bound", in); CK(pr.first >= 1 && pr.first <= pr.second, "starting precision within the full one", in); }
static void modular() { mpz_class m = pos(2); RZ A = rpoly(1, rint(0, 12), rint(0, 8), rnd() % 3 == 0), B = rpoly(1, rint(0, 6), rint(1, 5), rnd() % 3 == 0); if (rnd() % 2) B = B + rvar(0, 7); if (B.d.empty() || gcd(B.d.rbegin()->second, m) != 1) return; if (rnd() % 3 == 0) A = A * B + rconst(m) * A; auto f = fromu(A), g = fromu(B); std::ostringstream s; s << "f=" << f << " g=" << g << " m=" << m; std::string in = s.str(); note(in);
  upolynomial_ZZ q, r; __upoly_divmod_mod(q, r, f, g, fromz(m)); RZ Q = touref(q), R = touref(r); CK(mp(Q * B + R - A, m).d.empty(), "division identity modulo m", in); CK(canonP(q) && canonP(r) && mp(Q, m) == Q && mp(R, m) == R, "quotient and remainder reduced", in); CK(R.d.empty() || rdeg(R, 0) < rdeg(B, 0) , "degree of the remainder", in);
  auto t = __upoly_mul_mod(f, g, fromz(m)); CK(canonP(t) && touref(t) == mp(A * B, m), "product modulo m", in); }
static void subsets() { mpz_class m = pos(3); std::vector<upolynomial_ZZ> F; std::vector<RZ> L; int n = rint(1, 5); for (int i = 0; i < n; i++) { RZ a = mp(rpoly(1, 3, 3), m); a = a + rvar(0, 4); L.push_back(a); F.push_back(fromu(a)); } std::vector<size_t> I; RZ W = rconst(1); mpz_class lc = (long)rint(1, 9); W = rconst(lc); std::ostringstream s; s << "m=" << m << " lc=" << lc; for (int i = 0; i < n; i++) if (rnd() % 2) { I.push_back(i); W = W * L[i]; s << " | " << F[i]; } std::string in = s.str(); note(in);
  auto g = __subset_product_mod(F, I, fromz(lc), fromz(m)); RZ G = touref(g); CK(mp(G - W, m).d.empty(), "subset product not congruent", in); for (auto& t : G.d) CK(-m < 2 * t.second && 2 * t.second <= m, "subset product not balanced", in); CK(canonP(g), "subset product not canonical", in); }
int main(int argc, char** argv) {
  init(argc, argv);
  section("balanced residues, binomials, square roots", 0.2, [] { scalars(); });
  section("coefficient residues, norms, primitive part", 0.25, [] { polys(); });
  section("coefficient bounds and precision", 0.2, [] { bounds(); });
  section("division and product modulo m", 0.25, [] { modular(); });
  section("subset products", 0.1, [] { subsets(); });
  return done();
}
