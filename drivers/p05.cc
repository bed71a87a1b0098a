#define PROP "P05"
#include "common.hh"
using namespace drv;
static Ex rex(int nv, bool neg) { Ex e(vars().size(), 0); for (int i = 0; i < nv; i++) { int k = (int)rint(0, 7); if (k < 3) continue; if (k == 7) { static const int64_t E[] = {1, 255, 256, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 1LL << 40, (1LL << 55) - 1}; e[i] = E[rnd() % 11]; } else e[i] = rint(neg ? -3 : 0, 4); if (neg && rnd() % 7 == 0) e[i] = -e[i]; } return e; }
static std::string es(const Ex& e) { std::ostringstream o; o << "["; for (size_t i = 0; i < 6; i++) o << (i ? " " : "") << e[i]; o << "]"; return o.str(); }
template <class M> void one(const std::function<M(const Ex&)>& mk) {
  int nv = (int)rint(1, 6); bool neg = rnd() % 4 == 0;
  Ex a = rex(nv, neg), b = rex(nv, neg); if (rnd() % 4 == 0) b = a; if (rnd() % 4 == 0) { b = a; for (auto& x : b) if (x > 0 && rnd() % 2) x = rint(0, x); } if (!neg && rnd() % 5 == 0) { b = a; int k = (int)rint(0, nv - 1); b[k] += rint(-1, 1); if (b[k] < 0) b[k] = 0; }
  std::string in = "a=" + es(a) + " b=" + es(b); note(in);
  M ma = mk(a), mb = mk(b);
  CK(normM(ma) && exof(ma) == a, "construction", in);
  Ex s(a.size()), d(a.size()), l(a.size()); bool dv = true; int64_t dg = 0;
  for (size_t i = 0; i < a.size(); i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; l[i] = std::max(a[i], b[i]); if (d[i] < 0) dv = false; dg += a[i]; }
  CK(ma.deg() == dg, "deg()", in);
  for (int i = 0; i < 6; i++) CK(ma.deg(vars()[i]) == a[i], "deg(x) is not the exponent", in << " variable " << i);
  M m = ma * mb; CK(exof(m) == s && normM(m), "product", in);
  CK(m == mk(s), "product differs from the monomial built from the exponent sums", in);
  M q = ma / mb; CK(exof(q) == d && normM(q), "quotient", in);
  CK(m / mb == ma, "(a*b)/b", in);
  { M o = mb; __mono_mult__(o, ma, mb); CK(exof(o) == s && normM(o), "__mono_mult__ into non-empty", in); }
  { M o = ma; __mono_mult__(o, o, mb); CK(exof(o) == s && normM(o), "__mono_mult__(o,o,b)", in); }
  { M o = mb; __mono_mult__(o, ma, o); CK(exof(o) == s && normM(o), "__mono_mult__(o,a,o)", in); }
  { M o = ma; __mono_mult__(o, o, o); Ex t = a; for (auto& x : t) x *= 2; CK(exof(o) == t && normM(o), "__mono_mult__(o,o,o)", in); }
  { M o = mb; bool r = is_divexact(o, ma, mb); CK(r == dv, "divisibility", in); if (r) CK(exof(o) == d && normM(o), "is_divexact quotient", in); }
  { M o = ma; bool r = is_divexact(o, o, mb); CK(r == dv, "divisibility o,o,b", in); if (r) CK(exof(o) == d && normM(o), "is_divexact(o,o,b)", in); }
  { M o = mb; bool r = is_divexact(o, ma, o); CK(r == dv, "divisibility o,a,o", in); if (r) CK(exof(o) == d && normM(o), "is_divexact(o,a,o)", in); }
  if (!neg) { M g = lcm(ma, mb); CK(exof(g) == l && normM(g), "lcm", in); M g2 = lcm(mb, ma); CK(g == g2, "lcm not symmetric", in); }
  CK((ma == mb) == (a == b) && (ma != mb) == !(a == b), "==", in);
  // normalisation of an arbitrary list of powers
  { std::vector<std::pair<variable, int64_t>> v; Ex t(a.size(), 0); int n = (int)rint(0, 8); for (int i = 0; i < n; i++) { int k = (int)rint(0, nv - 1); int64_t g = rint(-2, 3); v.push_back({vars()[k], g}); t[k] += g; }
    M c = mk(Ex(a.size(), 0)); c.data() = v; c.normalization(); std::ostringstream o; for (auto& x : v) o << x.first << "^" << x.second << " "; CK(exof(c) == t && normM(c), "normalization", "list " << o.str()); CK(c.is_normal(), "is_normal rejects a normal monomial", "list " << o.str()); }
}
int main(int argc, char** argv) {
  init(argc, argv);
  section("grlex", 0.35, [] { one<basic_monomial<grlex>>([](const Ex& e) { return mono<basic_monomial<grlex>>(e); }); });
  section("lex", 0.25, [] { one<basic_monomial<lex>>([](const Ex& e) { return mono<basic_monomial<lex>>(e); }); });
  section("univariate-priority", 0.2, [] { static std::vector<univariate_priority_order> os; if (os.empty()) for (int i = 0; i < 6; i++) os.push_back(univariate_priority_order(univariate_order(vars()[i]))); const auto* c = &os[rnd() % 6];
    typedef basic_monomial<univariate_priority_order> M; one<M>([c](const Ex& e) { M m(c); for (size_t i = 0; i < e.size(); i++) if (e[i]) m.push_back({vars()[i], e[i]}); m.normalization(); return m; }); });
  section("custom", 0.2, [] { typedef lex_<custom_var_order> O; static std::vector<O> os; if (os.empty()) { os.push_back(O(custom_var_order(std::vector<variable>{vars()[3], vars()[0], vars()[5]}))); os.push_back(O(custom_var_order(std::vector<variable>{vars()[2], vars()[1]}))); os.push_back(O(custom_var_order(std::vector<variable>{vars()[5], vars()[4], vars()[3], vars()[2], vars()[1], vars()[0]}))); } const auto* c = &os[rnd() % os.size()];
    typedef basic_monomial<O> M; one<M>([c](const Ex& e) { M m(c); for (size_t i = 0; i < e.size(); i++) if (e[i]) m.push_back({vars()[i], e[i]}); m.normalization(); return m; }); });
  return done();
}
