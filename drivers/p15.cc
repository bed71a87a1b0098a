#define PROP "P15"
#include "common.hh"
using namespace drv;
template <class C> C mkc(const mpz_class& z, uint32_t p) { if constexpr (std::is_same_v<C, Zp>) return Zp(fromz(z), p); else return C(fromz(z)); }
static RZ perturb(RZ a, int nv) { switch (rnd() % 6) {
  case 0: { Ex e(vars().size(), 0); for (int i = 0; i < nv; i++) e[i] = rint(0, 2); a.add(e, rcoef()); break; }
  case 1: if (!a.d.empty()) { auto it = a.d.begin(); std::advance(it, rnd() % a.d.size()); it->second += (long)rint(0, 1) * 2 - 1; if (it->second == 0) a.d.erase(it); } break;
  case 2: if (!a.d.empty()) { auto it = a.d.begin(); std::advance(it, rnd() % a.d.size()); it->second = -it->second; } break;
  case 3: if (!a.d.empty()) { auto it = a.d.begin(); std::advance(it, rnd() % a.d.size()); a.d.erase(it); } break;
  case 4: if (!a.d.empty()) { auto it = a.d.begin(); std::advance(it, rnd() % a.d.size()); Ex e = it->first; mpz_class c = it->second; a.d.erase(it); e[rint(0, nv - 1)]++; a.add(e, c); } break;
  default: if (!a.d.empty()) { auto it = a.d.begin(); std::advance(it, rnd() % a.d.size()); mpz_class s = 1; s <<= 64; it->second += rnd() & 1 ? s : mpz_class(-s); if (it->second == 0) a.d.erase(it); } }
  return a; }
template <class P> void laws(const P& a, const P& b, const P& d, bool eab, const std::string& in) {
  CK((a == b) == eab && (b == a) == eab, "== does not decide mathematical equality", in);
  CK((a != b) == !eab && (b != a) == !eab, "!= is not the negation of ==", in);
  CK(a == a && !(a != a), "reflexivity", in);
  if constexpr (!std::is_same_v<typename P::coeff_type, Zp>) {
  CK(!(a < a) && !(a > a) && a <= a && a >= a, "reflexivity", in);
  CK((int)(a < b) + (int)(a > b) + (int)(a == b) == 1, "exactly one of < > == must hold", in);
  CK((a < b) == (b > a) && (a <= b) == !(a > b) && (a >= b) == !(a < b), "orderings not mutually consistent", in);
  if (a < b && b < d) CK(a < d, "< not transitive", in);
  if (a > b && b > d) CK(a > d, "> not transitive", in);
  }
  if (eab) CK(std::hash<P>()(a) == std::hash<P>()(b), "equal polynomials hash differently", in);
}
template <class C, class O> void one(const O* c, const char* nm, int nv) {
  uint32_t p = rnd() % 2 ? 5 : 101; RZ a = rpoly(nv, 4, 6), b = rnd() % 2 ? perturb(a, nv) : rpoly(nv, 4, 6), d = rnd() % 2 ? perturb(b, nv) : rpoly(nv, 4, 6); if (rnd() % 6 == 0) b = a;
  if (rnd() % 8 == 0) a = RZ();
  std::string in = std::string(nm) + " a=" + str(a) + " b=" + str(b) + " c=" + str(d); note(in);
  auto pa = polyc<C>(c, a, p), pb = polyc<C>(c, b, p), pd = polyc<C>(c, d, p); bool eab = std::is_same_v<C, Zp> ? modp(a, p) == modp(b, p) : a == b;
  laws(pa, pb, pd, eab, in);
  CK((pa - pb).empty() == eab, "a-b is zero exactly when a==b", in);
  auto q = pb + (pa - pb); CK(q == pa, "b+(a-b) == a", in); // same value through a different route
}
int main(int argc, char** argv) { init(argc, argv);
  section("ZZ", 0.5, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { one<ZZ>(c, nm, nv); }); });
  section("QQ", 0.15, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { one<QQ>(c, nm, nv); }); });
  section("Zp", 0.15, [] { int nv = (int)rint(1, 3); anyorder(nv, [nv](auto* c, const char* nm) { one<Zp>(c, nm, nv); }); });
  section("univariate", 0.2, [] { RZ a = rpoly(1, 8, 6), b = rnd() % 2 ? perturb(a, 1) : rpoly(1, 8, 6), d = rpoly(1, 8, 6); if (rnd() % 6 == 0) b = a; std::string in = "univariate a=" + str(a) + " b=" + str(b) + " c=" + str(d); note(in);
    upolynomial_ZZ pa = fromupoly(a), pb = fromupoly(b), pd = fromupoly(d); bool e = a == b; CK((pa == pb) == e && (pa != pb) == !e, "univariate ==", in); CK((int)(pa < pb) + (int)(pa > pb) + (int)e == 1, "univariate trichotomy", in); if (pa < pb && pb < pd) CK(pa < pd, "univariate transitivity", in); });
  return done(); }
