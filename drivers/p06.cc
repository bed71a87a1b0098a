#define PROP "P06"
#include "common.hh"
using namespace drv;
static Ex rex(int nv) { Ex e(vars().size(), 0); for (int i = 0; i < nv; i++) if (rnd() % 2) e[i] = rnd() % 12 ? rint(0, 3) : (int64_t)1 << rint(30, 50); return e; }
static std::string es(const Ex& e) { std::ostringstream o; o << "["; for (size_t i = 0; i < 6; i++) o << (i ? " " : "") << e[i]; o << "]"; return o.str(); }
// reference: compare exponents in the given variable priority
static bool ref(const Ex& a, const Ex& b, const std::vector<int>& prio, bool gr) {
  if (gr) { int64_t x = 0, y = 0; for (auto v : a) x += v; for (auto v : b) y += v; if (x != y) return x > y; }
  for (int i : prio) if (a[i] != b[i]) return a[i] > b[i]; return false; }
template <class O> void one(const O* c, const std::vector<int>& prio, bool gr, const char* nm) {
  typedef basic_monomial<O> M;
  auto mk = [c](const Ex& e) { M m(c); for (size_t i = 0; i < e.size(); i++) if (e[i]) m.push_back({vars()[i], e[i]}); m.normalization(); return m; };
  int nv = (int)rint(1, 6); Ex a = rex(nv), b = rex(nv), d = rex(nv); if (rnd() % 3 == 0) { b = a; b[rint(0, nv - 1)] += rint(0, 1); b[rint(0, nv - 1)] += rint(0, 1); } if (rnd() % 4 == 0) { b = a; std::swap(b[rint(0, nv - 1)], b[rint(0, nv - 1)]); }
  std::string in = std::string(nm) + " a=" + es(a) + " b=" + es(b) + " c=" + es(d); note(in);
  M ma = mk(a), mb = mk(b), mc = mk(d);
  bool g = ref(a, b, prio, gr), l = ref(b, a, prio, gr), bc = ref(b, d, prio, gr);
  CK((*c)(ma, mb) == g && (*c)(mb, ma) == l, "comparison differs from the mathematical order", in);
  CK(!(*c)(ma, ma), "not irreflexive", in);
  CK((int)(*c)(ma, mb) + (int)(*c)(mb, ma) + (int)(ma == mb) == 1, "not trichotomous", in);
  if ((*c)(ma, mb) && (*c)(mb, mc)) CK((*c)(ma, mc), "not transitive", in);
  CK((*c)(ma * mc, mb * mc) == (*c)(ma, mb), "not compatible with multiplication", in);
  if (gr) { CK((ma > mb) == g && (ma < mb) == l && (ma >= mb) == !l && (ma <= mb) == !g, "operators < > <= >=", in); }
  // the variable order itself
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { size_t pi = std::find(prio.begin(), prio.end(), i) - prio.begin(), pj = std::find(prio.begin(), prio.end(), j) - prio.begin(); CK((*c)(vars()[i], vars()[j]) == (pi < pj), "variable order", in << " variables " << i << "," << j); }
  // sorting is stable under re-sorting and agrees with the order
  { std::vector<Ex> es_; for (int i = 0; i < 6; i++) es_.push_back(rex(nv)); std::vector<M> ms; for (auto& e : es_) ms.push_back(mk(e)); std::sort(ms.begin(), ms.end(), *c); for (size_t i = 0; i + 1 < ms.size(); i++) CK(!ref(exof(ms[i + 1]), exof(ms[i]), prio, gr), "std::sort with the order", in); }
}
static std::vector<int> rest(std::vector<int> p) { for (int i = 0; i < (int)vars().size(); i++) if (std::find(p.begin(), p.end(), i) == p.end()) p.push_back(i); return p; }
int main(int argc, char** argv) {
  init(argc, argv);
  static lex L; static grlex G;
  section("lex", 0.2, [] { one(&L, rest({}), false, "lex"); });
  section("grlex", 0.25, [] { one(&G, rest({}), true, "grlex"); });
  section("univariate-priority", 0.2, [] { static std::vector<univariate_priority_order> os; if (os.empty()) for (int i = 0; i < 6; i++) os.push_back(univariate_priority_order(univariate_order(vars()[i]))); int i = (int)(rnd() % 6); one(&os[i], rest({i}), false, "univariate"); });
  section("custom lex", 0.2, [] { std::vector<int> p; int n = (int)rint(0, 5); for (int i = 0; i < n; i++) { int k = (int)rint(0, 5); if (std::find(p.begin(), p.end(), k) == p.end()) p.push_back(k); } std::vector<variable> v; for (int i : p) v.push_back(vars()[i]); lex_<custom_var_order> o{custom_var_order(v)}; one(&o, rest(p), false, "custom lex"); });
  section("custom grlex", 0.15, [] { std::vector<int> p; int n = (int)rint(0, 5); for (int i = 0; i < n; i++) { int k = (int)rint(0, 5); if (std::find(p.begin(), p.end(), k) == p.end()) p.push_back(k); } std::vector<variable> v; for (int i : p) v.push_back(vars()[i]); grlex_<custom_var_order> o{custom_var_order(v)}; one(&o, rest(p), true, "custom grlex"); });
  return done();
}
