#define PROP "P12"
#include "common.hh"
using namespace drv;
template <class F> static auto val(const F& f) { if constexpr (std::is_same_v<typename F::coeff_type, Zp>) return torefp(f); else return torefq(f); }
static RQ red(const RQ& r, uint32_t) { return r; }
static RZ red(const RZ& r, uint32_t p) { return modp(r, p); }
static RZ red(const RZ& r, const mpz_class&) { return r; }
template <class R> static R deriv(const R& a, int i) { R r; for (auto& t : a.d) if (t.first[i]) { Ex e = t.first; e[i]--; r.add(e, t.second * (long)t.first[i]); } return r; }
template <class R> static R part(const R& a, int i, int64_t d) { R r; for (auto& t : a.d) if (t.first[i] == d) { Ex e = t.first; e[i] = 0; r.add(e, t.second); } return r; }
template <class R> static int64_t deg(const R& a, int i) { int64_t d = 0; for (auto& t : a.d) d = std::max(d, t.first[i]); return d; }
template <class R> static int64_t tdeg(const R& a) { int64_t d = 0; for (auto& t : a.d) { int64_t s = 0; for (auto x : t.first) s += x; d = std::max(d, s); } return d; }
template <class K> static K ipow(K b, int64_t e) { K r = 1; while (e-- > 0) r *= b; return r; }
template <class R> static R subst(const R& a, const std::map<int, typename decltype(R().d)::mapped_type>& m) { R r; for (auto& t : a.d) { Ex e = t.first; auto c = t.second; for (auto& q : m) { c *= ipow(q.second, e[q.first]); e[q.first] = 0; } r.add(e, c); } return r; }
static mpz_class numof(const Zp& c) { return (unsigned long)c.number(); }
static mpq_class numof(const QQ& c) { return toq(c); }
static mpq_class numof(const ZZ& c) { return mpq_class(toz(c)); }
template <class C> static C rval(uint32_t p) { if constexpr (std::is_same_v<C, Zp>) return Zp((int64_t)rint(0, 20), p); else if constexpr (std::is_same_v<C, QQ>) { mpq_class q(mpz_class((long)rint(-5, 5)), mpz_class((long)rint(1, 4))); q.canonicalize(); return fromq(q); } else return rnd() % 4 ? C((int64_t)rint(-3, 3)) : C(fromz(edge())); }
template <class C, class O> static polynomial_<C, O> mk(const O* c, const RZ& a, uint32_t p) { auto r = polyc<C>(c, a, p ? p : 101); if constexpr (std::is_same_v<C, QQ>) { for (auto& t : r.data()) t.second = t.second / QQ((int64_t)rint(1, 4)); } return r; }
template <class O> struct islex : std::false_type {}; template <class V> struct islex<lex_<V>> : std::true_type {};
template <class C, class O> static void one(const O* c, const char* nm, int nv, const RZ& a, const RZ& b, uint32_t p) {
  auto f = mk<C>(c, a, p), g = mk<C>(c, b, p); auto F = val(f), G = val(g); constexpr bool isZp = std::is_same_v<C, Zp>;
  int i = (int)(rnd() % (nv + 1)); variable v = vars()[i];
  std::ostringstream s; s << nm << (isZp ? " mod " + std::to_string(p) : std::string(std::is_same_v<C, QQ> ? " QQ" : " ZZ")) << " f=" << f << " g=" << g << " v=" << v; std::string in = s.str(); note(in);
  CK(degree(f) == tdeg(F) && f.degree() == tdeg(F) && get_deg(f) == tdeg(F), "total degree", in);
  CK(degree(f, v) == deg(F, i), "degree in v", in);
  { std::map<variable, int64_t> m; int64_t k = 0; for (auto& q : f.variables()) { CK(!m.count(q.first), "variable listed twice", in); m[q.first] = q.second; k++; } std::map<variable, int64_t> w; for (int j = 0; j < (int)vars().size(); j++) if (deg(F, j)) w[vars()[j]] = deg(F, j); CK(m == w, "variables()", in);
    std::vector<polynomial_<C, O>> V{f, g}; std::map<variable, int64_t> m2, w2 = w; for (auto& q : get_variables(V)) m2[q.first] = q.second; for (int j = 0; j < (int)vars().size(); j++) if (deg(G, j)) w2[vars()[j]] = std::max(w2[vars()[j]], deg(G, j)); CK(m2 == w2, "get_variables(vector)", in); }
  { auto d = derivative(f, v); CK(canonP(d), "derivative not canonical", in); CK(val(d) == red(deriv(F, i), p), "derivative", in); CK(d.comp() == f.comp(), "derivative changes the order", in); }
  if constexpr (!isZp) { auto L = coeff(f, v); CK((int64_t)L.size() == deg(F, i) + 1, "number of coefficients", in); for (size_t k = 0; k < L.size(); k++) { CK(canonP(L[k]), "coefficient not canonical", in); CK(val(L[k]) == part(F, i, (int64_t)k), "coefficient of v^" + std::to_string(k), in); } }
  { auto l = leadcoeff(f, v); CK(canonP(l), "leading coefficient not canonical", in); CK(val(l) == part(F, i, deg(F, i)), "leading coefficient", in); polynomial_<C, O> o = g; int64_t d = leadcoeff(o, f, v); CK(d == deg(F, i) && o == l, "leadcoeff(O,F,v)", in); }
  { C x = rval<C>(p); auto r = assign(f, v, x); std::map<int, std::decay_t<decltype(numof(x))>> m; m[i] = numof(x); std::string in2 = in + " value " + numof(x).get_str(); CK(canonP(r), "substitution result not canonical", in2); 
    if constexpr (isZp) CK(val(r) == red(subst(F, m), p), "substitution of one variable", in2); else CK(val(r) == subst(F, m), "substitution of one variable", in2);
    auto rg = assign(g, v, x); CK(assign(f + g, v, x) == r + rg && assign(f * g, v, x) == r * rg, "substitution is not a ring homomorphism", in2); }
  { std::map<variable, C> m; std::map<int, std::decay_t<decltype(numof(C()))>> w; std::ostringstream s2; int n = (int)rint(0, nv); for (int k = 0; k < n; k++) { int j = (int)(rnd() % (nv + 1)); C x = rval<C>(p); m[vars()[j]] = x; w[j] = numof(x); s2 << " " << vars()[j] << "->" << x; }
    auto r = assign(f, m); CK(canonP(r), "substitution (map) result not canonical", in + s2.str()); if constexpr (isZp) CK(val(r) == red(subst(F, w), p), "substitution of a map", in + s2.str()); else CK(val(r) == subst(F, w), "substitution of a map", in + s2.str());
    if constexpr (std::is_same_v<C, ZZ>) { std::map<variable, QQ> mq; std::map<int, mpq_class> wq; std::ostringstream s3; for (int k = 0; k < n; k++) { int j = (int)(rnd() % (nv + 1)); QQ x = rval<QQ>(0); mq[vars()[j]] = x; wq[j] = numof(x); s3 << " " << vars()[j] << "->" << x; } auto rq_ = assign<QQ>(f, mq); CK(canonP(rq_) && val(rq_) == subst(F, wq), "substitution of rationals into an integer polynomial", in + s3.str()); } }
  if constexpr (islex<O>::value) {
    variable x = get_first_var(f); int64_t d = get_first_deg(f); bool num = f.empty() || f.front().first.empty(); CK(num ? d == 0 : (x == f.front().first.front().first && d == deg(F, varidx(x))), "main variable and its degree", in);
    if (!num) { auto q = derivative(f); CK(canonP(q) && val(q) == red(deriv(F, varidx(x)), p), "derivative in the main variable", in);
      if constexpr (std::is_same_v<C, ZZ>) { auto l = leadcoeff(f); CK(canonP(l) && val(l) == part(F, varidx(x), d), "leading coefficient in the main variable", in); }
      auto ld = get_last_var_deg(f); variable lo = x; for (auto& q2 : f.variables()) if (f.comp(lo, q2.first)) lo = q2.first; CK(ld.first == lo && ld.second == deg(F, varidx(lo)), "last variable and its degree", in); } 
    else { auto q = derivative(f); CK(q.empty(), "derivative of a constant", in); if constexpr (std::is_same_v<C, ZZ>) { CK(leadcoeff(f) == f, "leading coefficient of a constant", in); } } }
  if constexpr (std::is_same_v<O, univariate_priority_order>) { int j = varidx(get_up_var(*c)); CK(get_up_deg(f) == deg(F, j), "get_up_deg", in); auto L = coeff(f); CK((int64_t)L.size() == deg(F, j) + 1, "coeff(F) size", in); for (size_t k = 0; k < L.size(); k++) CK(canonP(L[k]) && val(L[k]) == part(F, j, (int64_t)k), "coeff(F)[" + std::to_string(k) + "]", in);
    polynomial_<C, O> o = g; int64_t d = leadcoeff(o, f); CK(d == deg(F, j) && canonP(o) && val(o) == part(F, j, d), "leadcoeff(O,F)", in); }
  { auto df = derivative(f, v), dg = derivative(g, v); CK(derivative(f + g, v) == df + dg, "derivative of a sum", in); CK(derivative(f * g, v) == df * g + f * dg, "product rule", in); }
}
template <class U> static U upo(const RZ& a, uint32_t p) { U r; for (auto it = a.d.rbegin(); it != a.d.rend(); ++it) { typename U::coeff_type c; if constexpr (std::is_same_v<typename U::coeff_type, Zp>) c = Zp(fromz(it->second), p); else if constexpr (std::is_same_v<typename U::coeff_type, QQ>) c = QQ(fromz(it->second)) / QQ((int64_t)rint(1, 4)); else c = fromz(it->second); if (c) r.push_back({umonomial(it->first[0]), c}); } return r; }
template <class C> static void uni(const RZ& a, uint32_t p) {
  auto f = upo<upolynomial_<C>>(a, p); auto F = val(f); C x = rval<C>(p); std::ostringstream s; s << "univariate mod " << p << " f=" << f << " x=" << x; std::string in = s.str(); note(in);
  CK(degree(f) == deg(F, 0) && get_deg(f) == deg(F, 0), "univariate degree", in);
  auto d = derivative(f); CK(canonP(d) && val(d) == red(deriv(F, 0), p), "univariate derivative", in);
  C y = assign(f, x); auto Y = subst(F, {{0, numof(x)}}); auto ref = red(Y, p); CK(numof(y) == (ref.d.empty() ? decltype(numof(y))(0) : ref.d.begin()->second), "univariate evaluation", in);
  if constexpr (std::is_same_v<C, ZZ>) { QQ q = rval<QQ>(0); QQ z = assign<QQ, ZZ, QQ>(f, q); auto R = subst(F, {{0, numof(q)}}); CK(numof(z) == (R.d.empty() ? mpq_class(0) : R.d.begin()->second), "univariate evaluation at a rational", in + " q=" + numof(q).get_str()); }
  if constexpr (!std::is_same_v<C, QQ>) { C k = rval<C>(p); auto m = f * k; auto M = val(m); std::decay_t<decltype(F)> W; for (auto& t : F.d) W.add(t.first, t.second * numof(k)); CK(canonP(m) && M == red(W, p), "univariate scalar product", in); } }
int main(int argc, char** argv) {
  init(argc, argv);
  section("all orders and rings", 0.8, [] { int nv = (int)rint(1, 4); anyorder(nv, [&](auto* c, const char* nm) { uint32_t p = (uint32_t[]){2, 3, 7, 101, 4294967291u}[rnd() % 5]; RZ a = rpoly(nv, (int)rint(0, 6), (int)rint(0, 7), rnd() % 3 == 0), b = rpoly(nv, (int)rint(0, 4), (int)rint(0, 4), false);
    switch (rnd() % 3) { case 0: one<QQ>(c, nm, nv, a, b, 0); break; case 1: one<Zp>(c, nm, nv, a, b, p); break; default: one<ZZ>(c, nm, nv, a, b, 0); } }); });
  section("univariate", 0.2, [] { RZ a = rpoly(1, 9, 7, rnd() % 2); uint32_t p = (uint32_t[]){2, 3, 7, 101, 4294967291u}[rnd() % 5]; switch (rnd() % 3) { case 0: uni<ZZ>(a, 0); break; case 1: uni<QQ>(a, 0); break; default: uni<Zp>(a, p); } });
  return done();
}
