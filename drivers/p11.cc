// pseudo-division: prem / pquo for ZZ, QQ, Zp over several orders, checked with the reference arithmetic
#define PROP "P11"
#include "common.hh"
using namespace drv;
template <class F> static auto val(const F& f) { if constexpr (std::is_same_v<typename F::coeff_type, Zp>) return torefp(f); else return torefq(f); }
static RQ red(const RQ& r, uint32_t) { return r; }
static RZ red(const RZ& r, uint32_t p) { return modp(r, p); }
template <class R> static R part(const R& a, int i, int64_t d) { R r; for (auto& t : a.d) if (t.first[i] == d) { Ex e = t.first; e[i] = 0; r.add(e, t.second); } return r; }
template <class R> static int64_t deg(const R& a, int i) { int64_t d = 0; for (auto& t : a.d) d = std::max(d, t.first[i]); return d; }
template <class R> static R pwr(const R& a, int64_t n, uint32_t p) { R r; Ex e(vars().size(), 0); r.add(e, 1); while (n-- > 0) r = red(r * a, p); return r; }
// lc^k * G = Q * F + R with deg R < deg F and Q given
template <class R> static bool ident(const R& G, const R& F, const R& Q, const R& Rm, int i, int64_t k, uint32_t p) { return red(pwr(part(F, i, deg(F, i)), k, p) * G, p) == red(Q * F + Rm, p); }
// reference pseudo-division: returns R for exactly k steps
template <class R> static R refprem(R G, const R& F, int i, int64_t k, uint32_t p) {
  int64_t f = deg(F, i); R lc = part(F, i, f);
  while (deg(G, i) >= f && !G.d.empty()) { int64_t g = deg(G, i); R h = part(G, i, g), s; for (auto& t : h.d) { Ex e = t.first; e[i] = g - f; s.add(e, t.second); } G = red(lc * G - s * F, p); --k; if (f == 0 && G.d.empty()) break; }
  while (k-- > 0) G = red(G * lc, p);
  return G; }
template <class C, class O> static void one(const O* c, const char* nm, int nv, const RZ& a, const RZ& b, uint32_t p) {
  auto g = polyc<C>(c, a, p ? p : 101), f = polyc<C>(c, b, p ? p : 101); int i = (int)(rnd() % nv); variable v = vars()[i]; auto G = val(g), F = val(f);
  std::ostringstream s; s << nm << (p ? " mod " + std::to_string(p) : std::string(std::is_same_v<C, QQ> ? " QQ" : " ZZ")) << " G=" << g << " F=" << f << " v=" << v; std::string in = s.str(); note(in);
  if (f.empty()) { bool th = false; try { prem(g, f, v); } catch (const std::invalid_argument&) { th = true; } CK(th, "pseudo-division by zero does not throw invalid_argument", in); return; }
  int64_t dg = deg(G, i), df = deg(F, i); auto L = part(F, i, df);
  { auto r = prem(g, f, v); auto R = val(r); CK(canonP(r), "remainder not canonical", in); CK(r.comp() == g.comp(), "remainder carries another order", in);
    if (df > 0) { CK(R.d.empty() || deg(R, i) < df, "remainder degree not below the divisor's", in); int64_t k = dg >= df ? dg - df + 1 : 0; CK(R == refprem(G, F, i, k, p), "lc^(deg g - deg f + 1) * g - q * f", in); } else CK(R.d.empty(), "remainder by a polynomial free of the variable", in);
    // aliasing: result assigned to an operand
    auto g2 = g; g2 = prem(g2, f, v); CK(val(g2) == R, "g = prem(g, f)", in); }
  { auto r = prem(g, f, v, false); auto R = val(r); CK(canonP(r), "sparse remainder not canonical", in);
    if (df > 0) { CK(R.d.empty() || deg(R, i) < df, "sparse remainder degree not below the divisor's", in); CK(R == refprem(G, F, i, 0, p), "sparse pseudo-remainder", in); } }
  for (int full = 0; full < 2; full++) { polynomial_<C, O> r(c); auto q = pquo(r, g, f, v, (bool)full); auto Q = val(q), R = val(r); std::string in2 = in + (full ? " full" : " sparse"); CK(canonP(q) && canonP(r), "pseudo-quotient or remainder not canonical", in2);
    if (df > 0) CK(R.d.empty() || deg(R, i) < df, "pquo remainder degree", in2); else CK(R.d.empty(), "pquo remainder by a polynomial free of the variable", in2);
    bool ok = false; int64_t K = dg >= df ? dg - df + 1 : 0; if (full) ok = ident(G, F, Q, R, i, (df > 0 || !Q.d.empty() || dg > 0) ? K : 1, p); else for (int64_t k = 0; k <= K && !ok; k++) ok = ident(G, F, Q, R, i, k, p);
    CK(ok, "lc^k * g = q * f + r", in2); if (full) { CK(val(pquo(g, f, v)) == Q, "pquo without remainder argument", in2); } }
}
int main(int argc, char** argv) {
  init(argc, argv);
  section("all orders and rings", 1.0, [] { int nv = (int)rint(1, 3); anyorder(nv, [&](auto* c, const char* nm) { uint32_t p = (uint32_t[]){2, 3, 7, 101, 4294967291u}[rnd() % 5];
    RZ a = rpoly(nv, (int)rint(0, 6), (int)rint(1, 7), rnd() % 4 == 0), b = rpoly(nv, (int)rint(0, 4), (int)rint(1, 4), rnd() % 6 == 0);
    if (rnd() % 3 == 0) a = a * b + (rnd() % 2 ? rpoly(nv, 1, 2, false) : RZ());
    if (rnd() % 4 == 0 && !b.d.empty()) { RZ u; Ex e(vars().size(), 0); e[rnd() % nv] = rint(1, 3); u.add(e, 1); b = b + u; }
    (void)p; switch (rnd() % 3) { case 1: one<QQ>(c, nm, nv, a, b, 0); break; default: one<ZZ>(c, nm, nv, a, b, 0); } }); });
  return done();
}
