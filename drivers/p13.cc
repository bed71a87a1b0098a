#define PROP "P13"
#include "common.hh"
using namespace drv;
template <class F> static auto val(const F& f) { if constexpr (std::is_same_v<typename F::coeff_type, Zp>) return torefp(f); else return torefq(f); }
template <class C, class O> static polynomial_<C, O> mk(const O* c, const RZ& a, uint32_t p = 101) { auto r = polyc<C>(c, a, p); if constexpr (std::is_same_v<C, QQ>) { for (auto& t : r.data()) t.second = t.second / QQ((int64_t)rint(1, 6)); } return r; }
static RQ scaled(const RQ& a, const mpq_class& k) { RQ r; for (auto& t : a.d) r.add(t.first, t.second * k); return r; }
template <class P> static mpz_class denl(const P& f) { mpz_class l = 1; for (auto& t : f) l = lcm(l, toz(t.second.get_den())); return l; }
// src -> dst (dst has its own order object and may hold another polynomial), then back
template <class C, class O1, class O2> static void conv(const O1* c1, const char* n1, const O2* c2, const char* n2, const RZ& a, const RZ& old) {
  auto f = mk<C>(c1, a); auto F = val(f); std::ostringstream s; s << n1 << " -> " << n2 << (std::is_same_v<C, QQ> ? " QQ" : " ZZ") << " f=" << f; std::string in = s.str(); note(in);
  polynomial_<C, O2> g(c2); if (rnd() % 2) g = mk<C>(c2, old); poly_convert(f, g); CK(canonP(g) && val(g) == F && g.comp_ptr() == c2, "poly_convert", in); CK(val(f) == F && canonP(f), "poly_convert changed its source", in);
  polynomial_<C, O1> h(c1); poly_convert(g, h); CK(h == f, "round trip", in);
  { auto t = f; polynomial_<C, O2> g2(c2); poly_convert(std::move(t), g2); CK(canonP(g2) && g2 == g, "poly_convert (move)", in); CK(canonP(t), "source after move", in); }
  if constexpr (!std::is_same_v<O1, O2>) { polynomial_<C, O2> g3(c2); g3 = f; CK(canonP(g3) && val(g3) == F, "assignment from another order", in); polynomial_<C, O2> g4(f); if (g4.comp_ptr() == c2 || true) CK(val(g4) == F && canonP(g4), "construction from another order", in); }
  else { auto t = f; poly_convert(t, t); CK(t == f, "poly_convert onto itself", in); }
  if constexpr (std::is_same_v<C, ZZ>) { polynomial_<QQ, O2> q(c2); poly_convert(f, q); CK(canonP(q) && val(q) == F, "ZZ to QQ", in); polynomial_<ZZ, O1> z(c1); poly_convert(q, z); CK(z == f, "ZZ to QQ to ZZ", in);
    auto t = f; polynomial_<QQ, O2> q2(c2); poly_convert(std::move(t), q2); CK(canonP(q2) && q2 == q, "ZZ to QQ (move)", in);
    uint32_t p = (uint32_t[]){2, 3, 7, 101, 2147483647u, 4294967291u}[rnd() % 6]; auto m = polynomial_mod(f, p); std::string in2 = in + " mod " + std::to_string(p); CK(canonP(m) && val(m) == modp(a, p) && m.comp_ptr() == c1, "polynomial_mod", in2); for (auto& t2 : m) CK(t2.second.prime() == p, "prime of a coefficient", in2);
    auto t3 = f; CK(polynomial_mod(std::move(t3), p) == m && canonP(t3), "polynomial_mod (move)", in2); polynomial_<ZZ, O2> b(c2); poly_convert(m, b); CK(canonP(b) && toref(b) == modp(a, p), "Zp to ZZ", in2); CK(polynomial_mod(b, p).size() == m.size(), "Zp to ZZ to Zp", in2); { auto m2 = m; polynomial_<ZZ, O2> b2(c2); poly_convert(std::move(m2), b2); CK(b2 == b, "Zp to ZZ (move)", in2); }
    auto h = mk<ZZ>(c1, old); CK(polynomial_mod(f * h, p) == m * polynomial_mod(h, p), "polynomial_mod is not multiplicative", in2 + " h=" + h.str()); CK(polynomial_mod(f + h, p) == m + polynomial_mod(h, p), "polynomial_mod is not additive", in2); }
  else { polynomial_<ZZ, O2> z(c2); poly_convert(f, z); CK(canonP(z) && val(z) == scaled(F, denl(f)), "QQ to ZZ is not f times the lcm of its denominators", in); auto t = f; polynomial_<ZZ, O2> z2(c2); poly_convert(std::move(t), z2); CK(canonP(z2) && z2 == z, "QQ to ZZ (move)", in); }
}
static void uni() { RZ a = rpoly(1, (int)rint(0, 9), (int)rint(0, 6)), old = rpoly(1, 4, 3, false); std::ostringstream s; s << "univariate f=" << str(a); auto f = fromupoly(a), o = fromupoly(old); std::string in = s.str(); note(in);
  uint32_t p = (uint32_t[]){2, 3, 7, 101, 2147483647u, 4294967291u}[rnd() % 6];
  { upolynomial_<QQ> q; if (rnd() % 2) poly_convert(o, q); poly_convert(f, q); CK(canonP(q) && torefq(q) == rq(a), "ZZ to QQ", in); upolynomial_ZZ z = o; poly_convert(q, z); CK(z == f, "ZZ to QQ to ZZ", in);
    for (auto& t : q.data()) t.second = t.second / QQ((int64_t)rint(1, 6)); auto Q = torefq(q); std::ostringstream s2; s2 << " QQ q=" << q; z = o; poly_convert(q, z); CK(canonP(z) && torefq(z) == scaled(Q, denl(q)), "QQ to ZZ", in + s2.str()); }
  { auto m = polynomial_mod(f, p); std::string in2 = in + " mod " + std::to_string(p); CK(canonP(m) && torefp(m) == modp(a, p), "polynomial_mod", in2); for (auto& t2 : m) CK(t2.second.prime() == p, "prime of a coefficient", in2); upolynomial_ZZ z = o; poly_convert(m, z); CK(canonP(z) && toref(z) == modp(a, p), "Zp to ZZ", in2); CK(polynomial_mod(z, p) == m, "Zp to ZZ to Zp", in2); CK(polynomial_mod(f * o, p) == m * polynomial_mod(o, p), "polynomial_mod is not multiplicative", in2);
    anyorder(1, [&](auto* c, const char* nm) { typedef std::decay_t<decltype(*c)> O; polynomial_<Zp, O> g(c); poly_convert(m, g, vars()[0]); CK(canonP(g) && torefp(g) == modp(a, p), "univariate Zp to multivariate", in2 + nm); upolynomial_<Zp> b; poly_convert(g, b); CK(b == m, "Zp round trip", in2 + nm); }); }
  anyorder(1, [&](auto* c, const char* nm) { typedef std::decay_t<decltype(*c)> O; polynomial_<ZZ, O> g(c); if (rnd() % 2) g = mk<ZZ>(c, old); poly_convert(f, g, vars()[0]); CK(canonP(g) && toref(g) == a, "univariate to multivariate", in + nm); upolynomial_ZZ b = o; poly_convert(g, b); CK(b == f, "round trip", in + nm); upolynomial_<QQ> bq; poly_convert(g, bq); CK(canonP(bq) && torefq(bq) == rq(a), "multivariate ZZ to univariate QQ", in + nm);
    polynomial_<ZZ, O> k(c); poly_convert(variable(vars()[3]), k); RZ V; Ex e(vars().size(), 0); e[3] = 1; V.add(e, 1); CK(canonP(k) && toref(k) == V, "variable to polynomial", in + nm); 
    basic_monomial<O> mm(c); mm.push_back({vars()[1], 2}); poly_convert(mm, k); RZ M; Ex e2(vars().size(), 0); e2[1] = 2; M.add(e2, 1); CK(canonP(k) && toref(k) == M, "monomial to polynomial", in + nm); poly_convert(fromz(7), k); CK(canonP(k) && tonum(k) == 7, "constant to polynomial", in + nm); poly_convert(0, k); CK(k.empty() && tonum(k) == 0, "zero to polynomial", in + nm); poly_convert(-3, k); CK(canonP(k) && tonum(k) == -3, "int to polynomial", in + nm); });
}
int main(int argc, char** argv) {
  init(argc, argv);
  section("orders and rings", 0.8, [] { int nv = (int)rint(1, 4); RZ a = rpoly(nv, (int)rint(0, 6), (int)rint(0, 7), rnd() % 2), b = rpoly(nv, 4, 3, false); anyorder(nv, [&](auto* c1, const char* n1) { anyorder(nv, [&](auto* c2, const char* n2) { if (rnd() % 2) conv<ZZ>(c1, n1, c2, n2, a, b); else conv<QQ>(c1, n1, c2, n2, a, b); }); }); });
  section("univariate", 0.2, uni);
  return done();
}
