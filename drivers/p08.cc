#define PROP "P08"
#include "common.hh"
using namespace drv;
template <class P> void one(int nv) {
  RZ a = rpoly(nv, 4, 7), b = rpoly(nv, 4, 7);
  if (rnd() % 3 == 0) b = RZ() - a; if (rnd() % 5 == 0) b = a;
  if (rnd() % 4 == 0) { b = b + rpoly(nv, 2, 2); }
  std::string in = "a=" + str(a) + "  b=" + str(b); note(in);
  P pa = frompoly<P>(a), pb = frompoly<P>(b);
  CK(canonP(pa) && toref(pa) == a, "construction", in);
  P s = pa + pb, d = pa - pb, n = -pa;
  CK(toref(s) == a + b, "a+b differs from the exact sum", in);
  CK(canonP(s), "a+b not canonical", in);
  CK(toref(d) == a - b, "a-b differs from the exact difference", in);
  CK(canonP(d), "a-b not canonical", in);
  CK(toref(n) == RZ() - a && canonP(n), "-a", in);
  CK((pa == pb) == (a == b) && (pa != pb) == !(a == b), "== does not decide mathematical equality", in);
  P t = pa; t = t + pb; CK(t == s, "t=t+b", in);
  t = pa; t = pb + t; CK(t == s, "t=b+t", in);
  t = pa; t = t - pb; CK(t == d, "t=t-b", in);
  t = pb; t = pa - t; CK(t == d, "t=a-t", in);
  t = pa; t = t + t; CK(toref(t) == a + a && canonP(t), "t=t+t", in);
  t = pa; t = t - t; CK(t.empty(), "t=t-t not empty", in);
  // aliasing of the in-place primitives
  { P o = pa; pair_vec_add(o.data(), o.data(), pb.data(), o.comp()); CK(o == s, "pair_vec_add(v,v,b)", in); }
  { P o = pb; pair_vec_add(o.data(), pa.data(), o.data(), o.comp()); CK(o == s, "pair_vec_add(v,a,v)", in); }
  { P o = pa; pair_vec_sub(o.data(), o.data(), pb.data(), o.comp()); CK(o == d, "pair_vec_sub(v,v,b)", in); }
  { P o = pb; pair_vec_sub(o.data(), pa.data(), o.data(), o.comp()); CK(o == d, "pair_vec_sub(v,a,v)", in); }
  { P o = pb; pair_vec_add(o.data(), pa.data(), pb.data(), o.comp()); CK(o == s, "pair_vec_add into non-empty", in); }
  { P o = pa; pair_vec_negate(o.data(), pa.data()); CK(o == n, "pair_vec_negate into non-empty", in); }
  mpz_class c = rcoef(); std::string in2 = in + "  c=" + c.get_str(); note(in2);
  RZ rc; rc.add(Ex(vars().size(), 0), c); ZZ zc = fromz(c);
  P x = pa + zc; CK(toref(x) == a + rc && canonP(x), "a+c", in2);
  x = pa - zc; CK(toref(x) == a - rc && canonP(x), "a-c", in2);
  x = zc + pa; CK(toref(x) == a + rc && canonP(x), "c+a", in2);
  x = zc - pa; CK(toref(x) == rc - a && canonP(x), "c-a", in2);
  if constexpr (std::is_same_v<P, polynomial_ZZ>) {
  int64_t ci = rnd() % 3 ? rint(-5, 5) : (rnd() % 2 ? INT64_MIN : INT64_MAX); RZ ri; ri.add(Ex(vars().size(), 0), mpz_class(std::to_string(ci))); std::string in3 = in + "  c=" + std::to_string(ci); note(in3);
  x = pa + ci; CK(toref(x) == a + ri && canonP(x), "a+int", in3); x = pa - ci; CK(toref(x) == a - ri && canonP(x), "a-int", in3);
  x = ci + pa; CK(toref(x) == a + ri && canonP(x), "int+a", in3); x = ci - pa; CK(toref(x) == ri - a && canonP(x), "int-a", in3);
  Ex e(vars().size(), 0); for (int i = 0; i < nv; i++) if (rnd() % 2) e[i] = rint(0, 2); RZ rm; rm.add(e, 1); auto m = mono<typename P::monomial_type>(e); std::string in4 = in + " m=" + str(rm) + " c=" + std::to_string(ci); note(in4);
  if (rnd() % 2) { x = pa + m; CK(toref(x) == a + rm && canonP(x), "a+m", in4); x = pa - m; CK(toref(x) == a - rm && canonP(x), "a-m", in4); x = m + pa; CK(toref(x) == a + rm && canonP(x), "m+a", in4); x = m - pa; CK(toref(x) == rm - a && canonP(x), "m-a", in4); }
  x = m + ci; CK(toref(x) == rm + ri && canonP(x), "m+int", in4); x = m - ci; CK(toref(x) == rm - ri && canonP(x), "m-int", in4); x = ci + m; CK(toref(x) == rm + ri && canonP(x), "int+m", in4); x = ci - m; CK(toref(x) == ri - rm && canonP(x), "int-m", in4);
  { Ex e2(vars().size(), 0); for (int i = 0; i < nv; i++) if (rnd() % 2) e2[i] = rint(0, 2); if (rnd() % 4 == 0) e2 = e; RZ r2; r2.add(e2, 1); auto m2 = mono<typename P::monomial_type>(e2); x = m + m2; CK(toref(x) == rm + r2 && canonP(x), "m+m", in4 << " m2=" << str(r2)); x = m - m2; CK(toref(x) == rm - r2 && canonP(x), "m-m", in4 << " m2=" << str(r2)); x = -m; CK(toref(x) == RZ() - rm && canonP(x), "-m", in4); } }
}
template <class C, class O> void gen(const O* c, const char* nm, int nv) {
  uint32_t p = rnd() % 2 ? 3 : 101; RZ a = rpoly(nv, 4, 7), b = rpoly(nv, 4, 7); if (rnd() % 3 == 0) b = RZ() - a; if (rnd() % 4 == 0) b = b + rpoly(nv, 2, 2);
  std::string in = std::string(nm) + " a=" + str(a) + " b=" + str(b); note(in); auto pa = polyc<C>(c, a, p), pb = polyc<C>(c, b, p);
  auto val = [p](auto& f) { if constexpr (std::is_same_v<C, Zp>) return torefp(f); else if constexpr (std::is_same_v<C, QQ>) { RZ r; for (auto& t : f) r.add(exof(t.first), toz(t.second.get_num())); return r; } else return toref(f); };
  auto red = [p](const RZ& r) { return std::is_same_v<C, Zp> ? modp(r, p) : r; };
  auto s = pa + pb; CK(val(s) == red(a + b) && canonP(s), "a+b (other order/ring)", in); auto d = pa - pb; CK(val(d) == red(a - b) && canonP(d), "a-b (other order/ring)", in); auto n = -pa; CK(val(n) == red(RZ() - a) && canonP(n), "-a (other order/ring)", in);
  CK(s.comp_ptr() == c && d.comp_ptr() == c, "result lost its order", in);
}
int main(int argc, char** argv) {
  init(argc, argv);
  section("other orders and rings", 0.25, [] { int nv = (int)rint(1, 4); anyorder(nv, [nv](auto* c, const char* nm) { switch (rnd() % 3) { case 0: gen<ZZ>(c, nm, nv); break; case 1: gen<QQ>(c, nm, nv); break; default: gen<Zp>(c, nm, nv); } }); });
  section("grlex", 0.35, [] { one<polynomial_ZZ>((int)rint(1, 6)); });
  section("lex", 0.2, [] { one<polynomial_<ZZ, lex>>((int)rint(1, 5)); });
  section("univariate", 0.2, [] {
    RZ a = rpoly(1, 8, 7), b = rpoly(1, 8, 7); if (rnd() % 3 == 0) b = RZ() - a; std::string in = "a=" + str(a) + "  b=" + str(b); note(in);
    upolynomial_ZZ pa = fromupoly(a), pb = fromupoly(b), s = pa + pb, d = pa - pb;
    CK(toref(s) == a + b && canonP(s), "univariate a+b", in); CK(toref(d) == a - b && canonP(d), "univariate a-b", in); CK(toref(-pa) == RZ() - a, "univariate -a", in); });
  return done();
}
