#define PROP "P09"
#include "common.hh"
using namespace drv;
// terms with exponents around a packing boundary
static RZ bpoly(int nv, int n, bool total, int bits) {
  RZ r; for (int i = 0; i < n; i++) { Ex e(vars().size(), 0); int64_t top = (bits >= 62 ? ((int64_t)1 << 60) : ((int64_t)1 << bits)) / 2; int64_t left = top + rint(-2, 1); if (left < 0) left = 0;
    if (rnd() % 3 == 0) left = rint(0, 3);
    for (int k = 0; k < nv; k++) { int j = total ? (int)(rnd() % nv) : k; int64_t g = rnd() % 3 == 0 ? left : (rnd() % 2 ? rint(0, std::min<int64_t>(left, 2)) : (int64_t)(rnd() % (uint64_t)(left + 1))); e[j] += g; if (total) left -= g; }
    r.add(e, rcoef()); }
  return r; }
template <class C, class O> static void mulone(const O* c, const char* nm, int nv, const RZ& a, const RZ& b, uint32_t p) {
  std::ostringstream s; s << nm << (std::is_same_v<C, Zp> ? " mod " + std::to_string(p) : std::string(std::is_same_v<C, QQ> ? " QQ" : " ZZ")) << " a=" << str(a) << "  b=" << str(b); std::string in = s.str(); note(in);
  auto pa = polyc<C>(c, a, p), pb = polyc<C>(c, b, p);
  auto val = [](auto& f) { if constexpr (std::is_same_v<C, Zp>) return torefp(f); else if constexpr (std::is_same_v<C, QQ>) { RZ r; for (auto& t : f) r.add(exof(t.first), toz(t.second.get_num())); return r; } else return toref(f); };
  auto red = [p](const RZ& r) { return std::is_same_v<C, Zp> ? modp(r, p) : r; };
  RZ ab = red(a * b);
  auto m = pa * pb; CK(val(m) == ab, "a*b differs from the convolution", in); CK(canonP(m), "a*b not canonical", in); CK(m.comp_ptr() == c, "a*b lost its order", in);
  auto m2 = pb * pa; CK(m2 == m, "b*a != a*b", in);
  switch (rnd() % 5) {
    case 0: { auto t = pa; pair_vec_multiplies(t.data(), t.data(), pb.data(), pa.comp()); CK(val(t) == ab && canonP(t), "pair_vec_multiplies(v,v,b)", in); break; }
    case 1: { auto t = pb; pair_vec_multiplies(t.data(), pa.data(), t.data(), pa.comp()); CK(val(t) == ab && canonP(t), "pair_vec_multiplies(v,a,v)", in); break; }
    case 2: { auto t = pa; t = t * t; CK(val(t) == red(a * a) && canonP(t), "t=t*t", in); break; }
    case 3: { auto t = pa; pair_vec_multiplies(t.data(), t.data(), t.data(), pa.comp()); CK(val(t) == red(a * a) && canonP(t), "pair_vec_multiplies(v,v,v)", in); break; }
    default: { auto t = pb; pair_vec_multiplies(t.data(), pa.data(), pb.data(), pa.comp()); CK(val(t) == ab && canonP(t), "pair_vec_multiplies into non-empty", in); } }
}
template <class C, class O> static void powone(const O* c, const char* nm, int nv) {
  uint32_t p = rnd() % 2 ? 2 : 101; RZ a = rpoly(nv, 3, 3); int k = (int)rint(0, 7); std::string in = std::string(nm) + " a=" + str(a) + " k=" + std::to_string(k); note(in);
  if (a.d.empty() && k == 0 && !std::is_same_v<C, ZZ>) return;
  auto pa = polyc<C>(c, a, p); if (pa.empty() && k == 0 && std::is_same_v<C, Zp>) return;
  auto q = pow(pa, k); RZ w; w.add(Ex(vars().size(), 0), 1); for (int i = 0; i < k; i++) w = w * a;
  auto val = [](auto& f) { if constexpr (std::is_same_v<C, Zp>) return torefp(f); else if constexpr (std::is_same_v<C, QQ>) { RZ r; for (auto& t : f) r.add(exof(t.first), toz(t.second.get_num())); return r; } else return toref(f); };
  if (std::is_same_v<C, Zp>) w = modp(w, p);
  CK(val(q) == w, "pow(a,k) differs from the repeated product", in); CK(canonP(q), "pow(a,k) not canonical", in); if (!q.empty() && k) CK(q.comp_ptr() == c, "pow lost its order", in);
  if (k && !pa.empty()) { auto o = pa; o.data().clear(); pair_vec_power(o.data(), pa.data(), k, pa.comp()); CK(o == q, "pair_vec_power", in); }
}
template <class O> static void scal(const O* c, const char* nm, int nv) {
  RZ a = rpoly(nv, 4, 6); mpz_class z = rcoef(); RZ rc; rc.add(Ex(vars().size(), 0), z); std::string in = std::string(nm) + " a=" + str(a) + " c=" + z.get_str(); note(in);
  auto pa = polyc<ZZ>(c, a); auto x = pa * fromz(z); CK(toref(x) == a * rc && canonP(x), "a*c", in); if constexpr (std::is_same_v<O, lex> || std::is_same_v<O, grlex>) { x = fromz(z) * pa; CK(toref(x) == a * rc && canonP(x), "c*a", in); }
}
int main(int argc, char** argv) {
  init(argc, argv);
  section("products, all orders and rings", 0.3, [] { int nv = (int)rint(1, 6); int n = rnd() % 8 == 0 ? 40 : (int)rint(1, 9); anyorder(nv, [&](auto* c, const char* nm) { uint32_t p = (uint32_t[]){2, 3, 101, 4294967291u}[rnd() % 4]; RZ a = rpoly(nv, (int)rint(0, 6), n), b = rpoly(nv, (int)rint(0, 6), (int)rint(1, 9)); if (rnd() % 6 == 0) b = a;
    switch (rnd() % 4) { case 0: mulone<QQ>(c, nm, nv, a, b, 0); break; case 1: mulone<Zp>(c, nm, nv, a, b, p); break; default: mulone<ZZ>(c, nm, nv, a, b, 0); } }); });
  section("exponents at the packing boundary", 0.3, [] { int nv = (int)rint(1, 10); int n = (int)rint(2, 6), n2 = (int)rint(2, 4); int which = rnd() % 3;
    if (which == 0) { RZ a = bpoly(nv, n, true, 64 / (nv + 1) + (int)rint(-1, 1)), b = bpoly(nv, n2, true, 64 / (nv + 1) + (int)rint(-1, 1)); mulone<ZZ>(GRLEX(), "grlex", nv, a, b, 0); }
    else if (which == 1) { RZ a = bpoly(nv, n, false, 64 / nv + (int)rint(-1, 1)), b = bpoly(nv, n2, false, 64 / nv + (int)rint(-1, 1)); if (nv > 1) mulone<ZZ>(LEX(), "lex", nv, a, b, 0); }
    else { auto pr = rprio(nv); RZ a = bpoly(nv, n, false, 64 / nv + (int)rint(-1, 0)), b = bpoly(nv, n2, false, 64 / nv + (int)rint(-1, 0)); if (nv > 1) mulone<ZZ>(CLEX(pr), "custom lex", nv, a, b, 0); } });
  section("powers", 0.15, [] { int nv = (int)rint(1, 3); anyorder(nv, [nv](auto* c, const char* nm) { switch (rnd() % 3) { case 0: powone<ZZ>(c, nm, nv); break; case 1: powone<QQ>(c, nm, nv); break; default: powone<Zp>(c, nm, nv); } }); });
  section("scalars", 0.05, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { scal(c, nm, nv); }); });
  section("univariate", 0.1, [] { RZ a = rpoly(1, 12, 8), b = rpoly(1, 12, 8); if (rnd() % 4 == 0) { Ex e(vars().size(), 0); e[0] = rint(0, (int64_t)1 << 61); a.add(e, 3); } std::string in = "a=" + str(a) + " b=" + str(b); note(in);
    auto pa = fromupoly(a), pb = fromupoly(b), m = pa * pb; CK(toref(m) == a * b && canonP(m), "univariate a*b", in); CK(pb * pa == m, "univariate b*a", in);
    int k = (int)rint(0, 5); if (a.d.size() < 4 && (a.d.empty() || a.d.rbegin()->first[0] < ((int64_t)1 << 58))) { auto q = pow(pa, k); RZ w; w.add(Ex(vars().size(), 0), 1); for (int i = 0; i < k; i++) w = w * a; CK(toref(q) == w && canonP(q), "univariate pow", in << " k=" << k); } });
  for (int i = 0; i < 62; i++) vars().push_back(variable("mv" + std::to_string(i)));
  section("many variables", 0.1, [] { int nv = (int)rint(58, 70); RZ a, b; for (int i = 0; i < nv; i++) { Ex e(vars().size(), 0); e[i] = 1; (rnd() % 2 ? a : b).add(e, (long)rint(-3, 3)); if (rnd() % 4 == 0) { e[i] = 0; a.add(e, 2); } }
    if (a.d.size() > 1 && b.d.size() > 1) { if (rnd() % 2) mulone<ZZ>(GRLEX(), "grlex", nv, a, b, 0); else mulone<ZZ>(LEX(), "lex", nv, a, b, 0); } });
  return done();
}
