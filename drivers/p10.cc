#define PROP "P10"
#include "common.hh"
using namespace drv;
template <class F> static auto val(const F& f) { if constexpr (std::is_same_v<typename F::coeff_type, Zp>) return torefp(f); else return torefq(f); }
static RQ red(const RQ& r, uint32_t p) { return r; }
static RZ red(const RZ& r, uint32_t p) { return modp(r, p); }
static bool divides(const Ex& a, const Ex& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] > b[i]) return false; return true; }
// one division: f = q*g + r; over a field r has no term divisible by the leading monomial of g; exact division returns the other factor
template <class P> static void divone(const P& f, const P& g, const P* other, bool field, uint32_t p, const std::string& in) {
  typedef typename P::coeff_type C;
  if constexpr (std::is_same_v<C, QQ>) { // no remainder form over QQ: the quotient determines it
    P d = f / g; CK(canonP(d), "f/g not canonical", in); auto R = val(f) - val(d) * val(g); auto lm = exof(g.front().first); for (auto& t : R.d) CK(!divides(lm, t.first), "f - (f/g)*g has a term divisible by the leading monomial of g", in);
    if (other) CK(d == *other, "(h*g)/g != h", in); if (rnd() % 2) { P t = f; pair_vec_div(t.data(), t.data(), g.data(), g.comp()); CK(t == d, "pair_vec_div(v,v,g)", in); } else { P t = g; pair_vec_div(t.data(), f.data(), t.data(), f.comp()); CK(t == d, "pair_vec_div(v,f,v)", in); }
  } else {
  P q = f, r = g; q.data().clear(); r.data().clear();
  polynomial_div(q, r, f, g);
  auto F = val(f), G = val(g), Q = val(q), R = val(r);
  CK(red(Q * G + R, p) == F, "f != q*g + r", in); CK(canonP(q), "quotient not canonical", in); CK(canonP(r), "remainder not canonical", in);
  auto lm = exof(g.front().first);
  if (field) for (auto& t : r) CK(!divides(lm, exof(t.first)), "remainder term divisible by the leading monomial of g", in);
  P d = f / g; CK(canonP(d), "f/g not canonical", in); if (field) CK(d == q, "f/g differs from the quotient", in);
  if (other) { CK(q == *other, "(h*g)/g != h (with remainder)", in); CK(r.empty(), "(h*g)/g leaves a remainder", in); CK(d == *other, "(h*g)/g != h", in); }
  switch (rnd() % 6) {
    case 0: { P t = f; pair_vec_div(t.data(), t.data(), g.data(), g.comp()); CK(t == d, "pair_vec_div(v,v,g)", in); break; }
    case 1: { P t = g; pair_vec_div(t.data(), f.data(), t.data(), f.comp()); CK(t == d, "pair_vec_div(v,f,v)", in); break; }
    case 2: { P t = f, s = g; pair_vec_div(t.data(), s.data(), t.data(), g.data(), g.comp()); CK(t == q && s == r, "pair_vec_div(v,r,v,g)", in); break; }
    case 3: { P t = f, s = g; pair_vec_div(t.data(), s.data(), f.data(), s.data(), g.comp()); CK(t == q && s == r, "pair_vec_div(v,r,f,r)", in); break; }
    case 4: { P t = f, s = g; pair_vec_div(s.data(), t.data(), t.data(), g.data(), g.comp()); CK(s == q && t == r, "pair_vec_div(v,r,r,g)", in); break; }
    default: { P t = g, s = f; pair_vec_div(t.data(), s.data(), f.data(), g.data(), g.comp()); CK(t == q && s == r, "pair_vec_div into non-empty", in); } }
  }
}
static QQ rfrac() { mpq_class q(mpz_class((long)rint(-9, 9)), mpz_class((long)rint(1, 4))); q.canonicalize(); return fromq(q); }
template <class C, class O> static polynomial_<C, O> mk(const O* c, const RZ& a, uint32_t p) { auto r = polyc<C>(c, a, p ? p : 101); if constexpr (std::is_same_v<C, QQ>) { for (auto& t : r.data()) t.second = t.second / QQ((int64_t)rint(1, 4)); } return r; }
template <class C, class O> static void gen(const O* c, const char* nm, int nv, const RZ& a, const RZ& b, const RZ& z, uint32_t p) {
  bool field = !std::is_same_v<C, ZZ>; auto h = mk<C>(c, a, p), g = mk<C>(c, b, p), e = mk<C>(c, z, p);
  if (g.empty()) { try { auto q = h / g; CK(false, "division by the zero polynomial did not throw", str(a)); } catch (const std::invalid_argument&) {} note("zero divisor"); return; }
  std::ostringstream s; s << nm << (std::is_same_v<C, Zp> ? " mod " + std::to_string(p) : std::string(field ? " QQ" : " ZZ")) << " h=" << h << " g=" << g << " e=" << e; std::string in = s.str(); note(in);
  auto f = h * g; divone(f, g, &h, field, p, in + " f=h*g"); if (!h.empty()) divone(f, h, &g, field, p, in + " f=h*g by h");
  divone(h, g, (decltype(&h))nullptr, field, p, in + " f=h"); f = f + e; divone(f, g, (decltype(&h))nullptr, field, p, in + " f=h*g+e");
}
static RZ bpoly(int nv, int n, bool total, int bits) {
  RZ r; for (int i = 0; i < n; i++) { Ex e(vars().size(), 0); int64_t top = (bits >= 62 ? ((int64_t)1 << 60) : ((int64_t)1 << bits)) / 2; int64_t left = rnd() % 2 ? top + rint(-2, 1) : rint(0, 4); if (left < 0) left = 0;
    for (int k = 0; k < nv; k++) { int j = total ? (int)(rnd() % nv) : k; int64_t g = rnd() % 3 == 0 ? left : rint(0, std::min<int64_t>(left, 2)); e[j] += g; if (total) left -= g; }
    r.add(e, (long)rint(-5, 5)); }
  return r; }
int main(int argc, char** argv) {
  init(argc, argv);
  section("all orders and rings", 0.55, [] { int nv = (int)rint(1, 5); anyorder(nv, [&](auto* c, const char* nm) { uint32_t p = (uint32_t[]){2, 3, 101, 4294967291u}[rnd() % 4]; RZ a = rpoly(nv, (int)rint(0, 5), (int)rint(1, 6), false), b = rpoly(nv, (int)rint(0, 4), (int)rint(1, 5), rnd() % 4 == 0), z = rpoly(nv, 5, 3, false);
    switch (rnd() % 3) { case 0: gen<QQ>(c, nm, nv, a, b, z, 0); break; case 1: gen<Zp>(c, nm, nv, a, b, z, p); break; default: gen<ZZ>(c, nm, nv, a, b, z, 0); } }); });
  section("larger operands", 0.1, [] { int nv = (int)rint(2, 3); anyorder(nv, [&](auto* c, const char* nm) { RZ a = rpoly(nv, 9, 20, false), b = rpoly(nv, 6, 12, false), z = rpoly(nv, 5, 3, false); if (rnd() % 2) gen<ZZ>(c, nm, nv, a, b, z, 0); else gen<Zp>(c, nm, nv, a, b, z, 101); }); });
  section("exponents at the packing boundary", 0.2, [] { int nv = (int)rint(1, 8), n = (int)rint(1, 4), n2 = (int)rint(2, 4); int w = rnd() % 3;
    // exact quotients only: a general division of huge degrees need not terminate in reasonable time
    auto go = [&](auto* c, const char* nm, const RZ& a, const RZ& b) { auto h = polyc<ZZ>(c, a), g = polyc<ZZ>(c, b); if (g.empty()) return; auto f = polyc<ZZ>(c, a * b); std::ostringstream s; s << nm << " h=" << h << " g=" << g; note(s.str()); divone(f, g, &h, false, 0, s.str()); };
    if (w == 0) { int bt = 64 / (nv + 1) + (int)rint(-1, 1); RZ a = bpoly(nv, n, true, bt), b = bpoly(nv, n2, true, bt); go(GRLEX(), "grlex", a, b); }
    else { int bt = 64 / nv + (int)rint(-1, 0); RZ a = bpoly(nv, n, false, bt), b = bpoly(nv, n2, false, bt); if (w == 1) go(LEX(), "lex", a, b); else go(CLEX(rprio(nv)), "custom lex", a, b); } });
  section("univariate", 0.15, [] { RZ a = rpoly(1, 9, 7, false), b = rpoly(1, 7, 6, false); std::ostringstream s;
    if (rnd() % 2) { upolynomial_<Zp> f, g; for (auto it = a.d.rbegin(); it != a.d.rend(); ++it) if (Zp(fromz(it->second), 101)) f.push_back({umonomial(it->first[0]), Zp(fromz(it->second), 101)}); for (auto it = b.d.rbegin(); it != b.d.rend(); ++it) if (Zp(fromz(it->second), 101)) g.push_back({umonomial(it->first[0]), Zp(fromz(it->second), 101)});
      if (g.empty()) return; s << "Zp f=" << f << " g=" << g; note(s.str()); divone(f, g, (decltype(&f))nullptr, true, 101, s.str()); auto h = f * g; divone(h, g, &f, true, 101, s.str() + " f*g/g"); }
    else { auto f = fromupoly(a), g = fromupoly(b); if (g.empty()) return; s << "ZZ f=" << f << " g=" << g; note(s.str()); divone(f, g, (decltype(&f))nullptr, false, 0, s.str()); auto h = f * g; divone(h, g, &f, false, 0, s.str() + " f*g/g"); } });
  return done();
}
