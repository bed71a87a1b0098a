#define PROP "P07"
#include "common.hh"
using namespace drv;
// an unsorted term list with repetitions and zero coefficients
static std::vector<std::pair<Ex, mpz_class>> rlist(int nv) { std::vector<std::pair<Ex, mpz_class>> l; int n = (int)rint(0, rnd() % 4 ? 8 : 24);
  for (int i = 0; i < n; i++) { Ex e(vars().size(), 0); if (!l.empty() && rnd() % 2) e = l[rnd() % l.size()].first; else for (int k = 0; k < nv; k++) if (rnd() % 2) e[k] = rnd() % 10 ? rint(0, 2) : (int64_t)1 << 40;
    mpz_class c = rnd() % 5 == 0 ? mpz_class(0) : rcoef(); if (!l.empty() && rnd() % 4 == 0) c = -l[rnd() % l.size()].second; l.push_back({e, c}); }
  if (rnd() % 6 == 0) for (size_t i = 0, m = l.size(); i < m; i++) l.push_back({l[i].first, -l[i].second}); // total cancellation
  return l; }
static std::string str(const std::vector<std::pair<Ex, mpz_class>>& l) { std::ostringstream o; for (auto& t : l) { o << t.second; for (size_t i = 0; i < t.first.size(); i++) if (t.first[i]) o << "*" << vars()[i].name() << "^" << t.first[i]; o << " , "; } return o.str(); }
template <class C> C mkc(const mpz_class& z, uint32_t p) { if constexpr (std::is_same_v<C, Zp>) return Zp(fromz(z), p); else return C(fromz(z)); }
template <class P> RZ val(const P& f) { if constexpr (std::is_same_v<typename P::coeff_type, Zp>) return torefp(f); else if constexpr (std::is_same_v<typename P::coeff_type, QQ>) { RZ r; for (auto& t : f) r.add(exof(t.first), toz(t.second.get_num())); return r; } else return toref(f); }
template <class C, class O> void one(const O* c, const char* nm, int nv) {
  typedef polynomial_<C, O> P; typedef basic_monomial<O> M; uint32_t p = rnd() % 2 ? 3 : 101;
  auto l = rlist(nv); std::string in = std::string(nm) + " terms: " + str(l); note(in);
  RZ want; std::vector<std::pair<M, C>> v; for (auto& t : l) { want.add(t.first, t.second); M m(c); std::vector<int> ix; for (size_t i = 0; i < t.first.size(); i++) if (t.first[i]) ix.push_back((int)i); for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[rnd() % i]);
      bool split = rnd() % 3 == 0; for (int i : ix) { if (split && t.first[i] > 1) { m.push_back({vars()[i], t.first[i] - 1}); } else m.push_back({vars()[i], t.first[i]}); } if (split) for (int i : ix) if (t.first[i] > 1) m.push_back({vars()[i], 1}); if (rnd() % 5 == 0) m.push_back({vars()[rint(0, nv - 1)], 0});
      if (rnd() % 2) m.normalization(); v.push_back({m, mkc<C>(t.second, p)}); }
  if (std::is_same_v<C, Zp>) want = modp(want, p);
  bool normal_in = true; { for (size_t i = 0; i < v.size(); i++) { if (!v[i].second || !normM(v[i].first)) normal_in = false; if (i && !(*c)(v[i - 1].first, v[i].first)) normal_in = false; } }
  P f(c); for (auto& t : v) f.push_back(t);
  if (normal_in) CK(f.is_normal(), "is_normal rejects a canonical list", in);
  f.normalization();
  CK(val(f) == want, "normalization changed the polynomial", in << " got " << str(val(f)));
  CK(canonP(f), "normalization result not canonical", in);
  CK(f.is_normal(), "is_normal rejects a normalised polynomial", in);
  P g = f; g.normalization(); CK(g.data() == f.data(), "normalization not idempotent", in);
  if constexpr (std::is_same_v<O, grlex> || std::is_same_v<O, lex>) {
    P a(v); CK(a.data() == f.data(), "constructor from a term list", in);
    auto w = v; P b(std::move(w)); CK(b.data() == f.data(), "constructor from a moved term list", in);
    if (v.size() == 3) { P e{v[0], v[1], v[2]}; CK(e.data() == f.data(), "constructor from an initialiser list", in); } }
  // permutation invariance
  auto u = v; for (size_t i = u.size(); i > 1; i--) std::swap(u[i - 1], u[rnd() % i]); P h(c); for (auto& t : u) h.push_back(t); h.normalization(); CK(h.data() == f.data(), "result depends on the order of the terms", in);
}
int main(int argc, char** argv) { init(argc, argv);
  section("ZZ", 0.5, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { one<ZZ>(c, nm, nv); }); });
  section("QQ", 0.15, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { one<QQ>(c, nm, nv); }); });
  section("Zp", 0.2, [] { int nv = (int)rint(1, 3); anyorder(nv, [nv](auto* c, const char* nm) { one<Zp>(c, nm, nv); }); });
  section("univariate", 0.15, [] { auto l = rlist(1); std::string in = "univariate terms: " + str(l); note(in); RZ want; std::vector<std::pair<umonomial, ZZ>> v; for (auto& t : l) { want.add(t.first, t.second); v.push_back({umonomial(t.first[0]), fromz(t.second)}); }
    upolynomial_ZZ a(v); CK(toref(a) == want && canonP(a), "univariate normalisation", in); upolynomial_ZZ b; for (auto& t : v) b.push_back(t); b.normalization(); CK(b.data() == a.data(), "univariate normalization()", in); });
  return done(); }
