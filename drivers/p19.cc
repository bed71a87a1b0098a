// factorisation: product, irreducible factors (products of polynomials known to be irreducible), multiplicities, content
#define PROP "P19"
#include "algo.hh"
#include <clpoly/polynomial_factorize.hh>
using namespace drv;
typedef std::map<std::string, std::pair<RZ, uint64_t>> Fac;
static RZ prim(const RZ& a) { mpz_class g = icont(a); RZ r; for (auto& t : a.d) r.add(t.first, mpz_class(t.second / g)); return norms(r); }
static void put(Fac& F, const RZ& a, uint64_t e) { auto& x = F[str(norms(a))]; x.first = norms(a); x.second += e; }
static Fac build(int nv, RZ& A, int tot, int md) { Fac F; A = rconst(1); int left = tot; while (left > 0) { RZ f = irred(nv, md); int64_t d = 0; for (int i = 0; i < nv; i++) d = std::max(d, rdeg(f, i)); int e = rnd() % 4 == 0 ? (int)rint(2, 3) : 1; if (d * e > left) { if (A.d.size() > 1) break; e = 1; } put(F, f, e); A = A * rpow(f, e); left -= d * e; }
  mpz_class c = rnd() % 3 ? mpz_class(1) : rnd() % 4 ? mpz_class((long)rint(1, 60)) : abs(edge()); if (c == 0) c = 1; if (rnd() % 3 == 0) c = -c; A = rconst(c) * A; return F; }
static void cmp(const Fac& W, const Fac& G, const std::string& in) { for (auto& w : W) { auto it = G.find(w.first); CK(it != G.end(), "an irreducible factor is missing or split wrongly", in + " expected factor " + w.first); if (it != G.end()) CK(it->second.second == w.second.second, "multiplicity", in + " factor " + w.first); } CK(W.size() == G.size(), "too many factors", in); }
template <class O> static void multi(const O* c, const char* nm, int nv, int tot, int md) { RZ A; Fac W = build(nv, A, tot, md); auto f = polyc<ZZ>(c, A); std::ostringstream s; s << nm << " f=" << f; std::string in = s.str(); note(in);
  auto r = factorize(f); Fac G; RZ Pr = rconst(toz(r.content)); for (auto& x : r.factors) { RZ g = toref(x.first); CK(canonP(x.first), "factor not canonical", in); CK(x.first.comp() == f.comp(), "factor carries another order", in); CK(!isconst(g), "constant factor", in); CK(x.second >= 1, "multiplicity zero", in); put(G, g, x.second); Pr = Pr * rpow(g, x.second); }
  CK(Pr == A, "factors do not multiply back to the polynomial", in); cmp(W, G, in); CK(toref(f) == A, "operand changed", in); }
static void uni(int tot, int md) { RZ A; Fac W = build(1, A, tot, md); auto f = fromu(A); std::ostringstream s; s << "univariate f=" << f; std::string in = s.str(); note(in);
  auto r = factorize(f); Fac G; RZ Pr = rconst(toz(r.content)); for (auto& x : r.factors) { RZ g = touref(x.first); CK(canonP(x.first) && !isconst(g), "factor not canonical or constant", in); CK(!g.d.empty() && g.d.rbegin()->second > 0, "leading coefficient of a factor not positive", in); put(G, g, x.second); Pr = Pr * rpow(g, x.second); }
  CK(Pr == A, "factors do not multiply back to the polynomial", in); cmp(W, G, in); }
template <class O> static void rat(const O* c, const char* nm, int nv, int tot) { RZ A; Fac W = build(nv, A, tot, 3); mpz_class dn = (long)rint(1, 30); RQ B; for (auto& t : A.d) { mpq_class q(t.second, dn); q.canonicalize(); B.add(t.first, q); } polynomial_<QQ, O> f(c); for (auto& t : B.d) { f.push_back({monoc(c, t.first), fromq(t.second)}); } f.normalization(); std::ostringstream s; s << nm << " QQ f=" << f; std::string in = s.str(); note(in);
  auto r = factorize(f); RQ Pr; { Ex e(vars().size(), 0); Pr.add(e, toq(r.content)); } Fac G; for (auto& x : r.factors) { RQ g = torefq(x.first); CK(canonP(x.first), "factor not canonical", in); CK(x.first.front().second == QQ(1), "factor over QQ not monic", in); for (uint64_t k = 0; k < x.second; k++) Pr = Pr * g; mpz_class l = 1; for (auto& t : g.d) l = lcm(l, t.second.get_den()); RZ z; for (auto& t : g.d) { mpq_class q = t.second * l; q.canonicalize(); z.add(t.first, q.get_num()); } put(G, prim(z), x.second); }
  CK(Pr.d == B.d, "factors do not multiply back to the polynomial over QQ", in); cmp(W, G, in); }
// Z/p: Rabin irreducibility
static UV mulm(const UV& a, const UV& b, const UV& f, uint64_t p) { UV r = uvmul(a, b, p); trim(r); return uvrem(r, f, p); }
static UV powm(UV b, mpz_class e, const UV& f, uint64_t p) { UV r = {1 % p}; r = uvrem(r, f, p); b = uvrem(b, f, p); while (e > 0) { if (mpz_odd_p(e.get_mpz_t())) r = mulm(r, b, f, p); e >>= 1; if (e > 0) b = mulm(b, b, f, p); } return r; }
static bool irrp(const UV& f, uint64_t p) { int n = (int)f.size() - 1; if (n <= 1) return n == 1; mpz_class P = toz(ZZ(p)); auto fr = [&](int k) { UV h = {0, 1}; h = uvrem(h, f, p); for (int i = 0; i < k; i++) h = powm(h, P, f, p); if (h.size() < 2) h.resize(2); h[1] = (h[1] + p - 1) % p; trim(h); return h; };
  if (!fr(n).empty()) return false; for (int q = 2; q <= n; q++) { bool pr = true; for (int d = 2; d * d <= q; d++) if (q % d == 0) pr = false; if (!pr || n % q) continue; UV h = fr(n / q); if (h.empty() || uvgcd(f, h, p).size() != 1) return false; } return true; }
static void zp() { const uint64_t PR[] = {2, 3, 5, 7, 11, 101, 65537, 4294967291ull, 18446744073709551557ull}; uint64_t p = PR[rnd() % 9]; auto rv = [&](int n) { UV r; for (int i = rint(1, n); i > 0; i--) r.push_back(rnd() % 3 ? rnd() % p : 0); trim(r); return r; }; UV a = rv(rnd() % 2 ? 9 : 4); if (rnd() % 2) { UV b = rv(4); for (int e = rint(1, 4); e > 0; e--) { UV t = uvmul(a, b, p); trim(t); if (t.size() < 24) a = t; } } if (rnd() % 6 == 0 && p < 8) { UV b(1, 0); b.clear(); for (size_t i = 0; i < a.size() && i < 4; i++) { b.resize(i * p + 1); b[i * p] = a[i]; } trim(b); a = b; } if (a.empty()) return;
  auto f = fromuv(a, p); std::ostringstream s; s << "mod " << p << " f=" << str(a); std::string in = s.str(); note(in); auto r = __factor_Zp(f); UV Pr = {r.first.number() % p}; std::set<UV> seen_; for (auto& x : r.second) { UV g = touv(x.first); CK(canonP(x.first), "factor over Z/p not canonical", in); CK(g.size() > 1 && g.back() == 1, "factor over Z/p not monic", in); CK(irrp(g, p), "factor over Z/p reducible", in); CK(seen_.insert(g).second, "factor over Z/p repeated", in); for (uint64_t k = 0; k < x.second; k++) Pr = uvmul(Pr, g, p); } trim(Pr); CK(Pr == a, "factors over Z/p do not multiply back", in); }
int main(int argc, char** argv) {
  init(argc, argv);
  section("univariate over ZZ, known irreducibles", 0.3, [] { uni(rnd() % 12 == 0 ? (int)rint(12, 22) : (int)rint(1, 10), rnd() % 3 ? 4 : 6); });
  section("factorisation over Z/p", 0.15, [] { zp(); });
  section("multivariate over ZZ, all orders", 0.45, [] { int nv = (int)rint(1, 3); anyorder(nv, [&](auto* c, const char* nm) { multi(c, nm, nv, (int)rint(1, nv == 3 ? 4 : 6), 3); }); });
  section("over QQ", 0.1, [] { int nv = (int)rint(1, 2); if (rnd() % 2) rat(LEX(), "lex", nv, (int)rint(1, 4)); else rat(GRLEX(), "grlex", nv, (int)rint(1, 4)); });
  return done();
}
