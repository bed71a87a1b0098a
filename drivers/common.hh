// Replay / bounded-search support shared by all drivers: random inputs, an independent reference polynomial
// arithmetic (std::map over gmpxx), failure reporting.  Drivers run the real code of /repo.
#ifndef DRV_COMMON
#define DRV_COMMON
#include <clpoly/clpoly.hh>
#include <gmpxx.h>
#include <map>
#include <sstream>
#include <fstream>
#include <chrono>
#include <cstring>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <set>
namespace drv {
using namespace clpoly;
inline uint64_t rs = 1;
inline uint64_t rnd() { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline int64_t rint(int64_t a, int64_t b) { return a + (int64_t)(rnd() % (uint64_t)(b - a + 1)); }
inline char* casebuf = nullptr; const size_t CB = 1 << 16;
inline std::string failpath; inline long ncases = 0, nontriv = 0; inline std::set<uint64_t> seen; inline std::string firstsample;
inline double budget = 5; inline auto t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline int nfail = 0;
struct Sec { std::string name; long n; };
inline std::vector<Sec> secs;
inline void note(const std::string& s) { ncases++; if (casebuf) { size_t n = std::min(s.size(), CB - 1); memcpy(casebuf, s.data(), n); casebuf[n] = 0; }
  uint64_t h = std::hash<std::string>{}(s); if (seen.size() < 2000000 && seen.insert(h).second) nontriv++; if (firstsample.empty()) firstsample = s.substr(0, 300); }
// known: class of a finding listed in known_findings.txt ("" = none)
inline void fail(const std::string& prop, const std::string& what, const std::string& in) {
  printf("DRVFAIL %s | %s | input: %s\n", prop.c_str(), what.c_str(), in.c_str()); fflush(stdout); nfail++;
  if (nfail >= 3) { printf("DRVSTAT cases=%ld distinct=%ld\n", ncases, nontriv); fflush(stdout); _exit(9); } }
inline void known(const std::string& key, bool still, const std::string& what) { printf("DRVKNOWN %s %d | %s\n", key.c_str(), still ? 1 : 0, what.c_str()); fflush(stdout); }
#define CK(c, what, in) do { if (!(c)) { std::ostringstream o_; o_ << in; drv::fail(PROP, what, o_.str()); } } while (0)
inline void init(int argc, char** argv) {
  if (const char* s = getenv("VERIF_SEED")) rs = strtoull(s, 0, 10) * 7919 + 13;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("budget=", 0) == 0) budget = atof(a.c_str() + 7); if (a.rfind("case=", 0) == 0) { int fd = open(a.c_str() + 5, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd >= 0 && ftruncate(fd, CB) == 0) casebuf = (char*)mmap(0, CB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (casebuf == MAP_FAILED) casebuf = nullptr; } }
  t0 = std::chrono::steady_clock::now(); }
inline int done() { for (auto& s : secs) printf("DRVSEC %s %ld\n", s.name.c_str(), s.n); printf("DRVSAMPLE %s\n", firstsample.c_str()); printf("DRVSTAT cases=%ld distinct=%ld\n", ncases, nontriv); fflush(stdout); return nfail ? 9 : 0; }
// run f repeatedly for a share of the budget
template <class F> void section(const char* name, double share, F f) { double e = elapsed() + share * budget; long n = 0; do { f(); n++; } while (elapsed() < e); secs.push_back({name, n}); }

// ---------- integers
inline mpz_class toz(const ZZ& a) { std::ostringstream o; o << a; return mpz_class(o.str()); }
inline ZZ fromz(const mpz_class& a) { return ZZ(a.get_str()); }
inline mpz_class edge() { // boundary-biased integers
  static const int64_t E[] = {0, 1, -1, 2, -2, 3, -3, 5, -7, 10, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, (int64_t)UINT32_MAX, (int64_t)1 << 32, -((int64_t)1 << 32), (int64_t)1 << 62, -((int64_t)1 << 62)};
  switch (rnd() % 8) {
    case 0: case 1: { int64_t v = E[rnd() % (sizeof(E) / sizeof(*E))]; return mpz_class(std::to_string(v)); }
    case 2: return mpz_class((long)rint(-20, 20));
    case 3: return mpz_class(std::to_string((int64_t)rnd()));
    case 4: { mpz_class z(std::to_string(E[rnd() % (sizeof(E) / sizeof(*E))])); return z + (long)rint(-2, 2); }
    case 5: { mpz_class z = 1; z <<= (unsigned)rint(60, 70); z += (long)rint(-2, 2); return rnd() & 1 ? z : mpz_class(-z); }
    case 6: { mpz_class z(std::to_string(rnd())); z *= mpz_class(std::to_string(rnd())); if (rnd() & 1) z = -z; return z; }
    default: { mpz_class z = (unsigned long)rnd(); for (int i = rint(0, 4); i > 0; i--) { z <<= 64; z += (unsigned long)rnd(); } if (rnd() & 1) z = -z; return z; }
  } }
inline bool canonZ(const ZZ& a) { bool small = a.is_small(); mpz_class z = toz(a); return small == (mpz_fits_slong_p(z.get_mpz_t()) != 0); }

// ---------- reference polynomials
typedef std::vector<int64_t> Ex;
template <class C> struct RP { std::map<Ex, C> d;
  void add(const Ex& e, const C& c) { if (c == 0) return; auto it = d.find(e); if (it == d.end()) d.emplace(e, c); else { it->second += c; if (it->second == 0) d.erase(it); } }
  bool operator==(const RP& o) const { return d == o.d; }
};
template <class C> RP<C> operator+(const RP<C>& a, const RP<C>& b) { RP<C> r = a; for (auto& t : b.d) r.add(t.first, t.second); return r; }
template <class C> RP<C> operator-(const RP<C>& a, const RP<C>& b) { RP<C> r = a; for (auto& t : b.d) r.add(t.first, C(-t.second)); return r; }
template <class C> RP<C> operator*(const RP<C>& a, const RP<C>& b) { RP<C> r; for (auto& s : a.d) for (auto& t : b.d) { Ex e = s.first; if (e.size() < t.first.size()) e.resize(t.first.size()); for (size_t i = 0; i < t.first.size(); i++) e[i] += t.first[i]; r.add(e, C(s.second * t.second)); } return r; }
typedef RP<mpz_class> RZ;
inline std::vector<variable>& vars() { static std::vector<variable> v = [] { std::vector<variable> w; for (const char* n : {"x", "y", "z", "u", "w", "a", "b", "c", "p", "q"}) w.push_back(variable(n)); return w; }(); return v; }
inline int varidx(variable v) { for (size_t i = 0; i < vars().size(); i++) if (vars()[i] == v) return (int)i; return -1; }
template <class M> Ex exof(const M& m) { Ex e(vars().size(), 0); for (auto& p : m) { int i = varidx(p.first); if (i < 0) { e.push_back(-777); return e; } e[i] += p.second; } return e; }
inline Ex exof(const umonomial& m) { Ex e(vars().size(), 0); e[0] = m.deg(); return e; }
template <class C> C tocoef(const ZZ& z) { return C(toz(z)); }
template <class P> RZ toref(const P& p) { RZ r; for (auto& t : p) r.add(exof(t.first), toz(t.second)); return r; }
inline std::string str(const RZ& r) { std::ostringstream o; for (auto& t : r.d) { o << (t.second >= 0 ? "+" : "") << t.second; for (size_t i = 0; i < t.first.size(); i++) if (t.first[i]) { o << "*" << (i < vars().size() ? vars()[i].name() : "?") << "^" << t.first[i]; } } if (r.d.empty()) o << "0"; return o.str(); }
// a normal monomial: distinct variables in the order of its own comparison, no zero exponent, cached degree right
template <class C> bool normM(const basic_monomial<C>& m) { int64_t d = 0; for (size_t i = 0; i < m.size(); i++) { if (m[i].second == 0) return false; d += m[i].second; for (size_t j = 0; j < i; j++) if (m[j].first == m[i].first || !m.comp(m[j].first, m[i].first)) return false; } return d == m.deg(); }
inline bool normM(const umonomial&) { return true; }
// canonical form: strictly decreasing monomials w.r.t. the polynomial's own order, no zero coefficient, normal monomials
template <class P> bool canonP(const P& p) {
  for (size_t i = 0; i < p.size(); i++) { auto& t = p.data()[i]; if (!t.second || !normM(t.first)) return false; if (i && !p.comp(p.data()[i - 1].first, t.first)) return false; } return true; }
inline mpz_class rcoef() { switch (rnd() % 6) { case 0: return edge(); default: return mpz_class((long)rint(-9, 9)); } }
inline RZ rpoly(int nv, int maxdeg, int maxt, bool big = true) { RZ r; int n = (int)rint(0, maxt); for (int i = 0; i < n; i++) { Ex e(vars().size(), 0); int left = (int)rint(0, maxdeg); for (int k = 0; k < nv && left > 0; k++) { int j = (int)(rnd() % nv); int g = (int)rint(0, left); e[j] += g; left -= g; } r.add(e, big ? rcoef() : mpz_class((long)rint(-9, 9))); } return r; }
template <class M> M mono(const Ex& e) { std::vector<std::pair<variable, int64_t>> d; for (size_t i = 0; i < e.size(); i++) if (e[i]) d.push_back({vars()[i], e[i]}); M m(std::move(d)); return m; }
template <class P> P frompoly(const RZ& r) { std::vector<std::pair<typename P::monomial_type, typename P::coeff_type>> v; for (auto& t : r.d) v.push_back({mono<typename P::monomial_type>(t.first), typename P::coeff_type(fromz(t.second))}); P p(v); return p; }
inline upolynomial_ZZ fromupoly(const RZ& r) { std::vector<std::pair<umonomial, ZZ>> v; for (auto& t : r.d) v.push_back({umonomial(t.first[0]), fromz(t.second)}); upolynomial_ZZ p(v); return p; }
// ---------- polynomials in an arbitrary order object / coefficient ring
template <class O> basic_monomial<O> monoc(const O* c, const Ex& e) { basic_monomial<O> m(c); for (size_t i = 0; i < e.size(); i++) if (e[i]) m.push_back({vars()[i], e[i]}); m.normalization(); return m; }
template <class C, class O> polynomial_<C, O> polyc(const O* c, const RZ& r, uint32_t p = 101) { polynomial_<C, O> o(c); for (auto& t : r.d) { if constexpr (std::is_same_v<C, Zp>) o.push_back({monoc(c, t.first), Zp(fromz(t.second), p)}); else o.push_back({monoc(c, t.first), C(fromz(t.second))}); } o.normalization(); return o; }
inline mpq_class toq(const QQ& q) { mpq_class r(toz(q.get_num()), toz(q.get_den())); r.canonicalize(); return r; }
inline QQ fromq(const mpq_class& q) { return QQ(fromz(q.get_num()), fromz(q.get_den())); }
inline RZ modp(const RZ& r, uint32_t p) { RZ o; for (auto& t : r.d) { mpz_class z; mpz_fdiv_r_ui(z.get_mpz_t(), t.second.get_mpz_t(), p); o.add(t.first, z); } return o; }
template <class P> RZ torefp(const P& f) { RZ r; for (auto& t : f) r.add(exof(t.first), mpz_class((unsigned long)t.second.number())); return r; }
typedef RP<mpq_class> RQ;
template <class P> RQ torefq(const P& f) { RQ r; for (auto& t : f) r.add(exof(t.first), toq(t.second)); return r; }
inline RQ rq(const RZ& a) { RQ r; for (auto& t : a.d) r.add(t.first, mpq_class(t.second)); return r; }
inline std::string str(const RQ& r) { std::ostringstream o; for (auto& t : r.d) { o << "+(" << t.second << ")"; for (size_t i = 0; i < t.first.size(); i++) if (t.first[i]) o << "*v" << i << "^" << t.first[i]; } if (r.d.empty()) o << "0"; return o.str(); }
inline const lex* LEX() { static lex L; return &L; } inline const grlex* GRLEX() { static grlex G; return &G; }
inline const univariate_priority_order* UPO(int i) { static std::vector<univariate_priority_order>* os = [] { auto* o = new std::vector<univariate_priority_order>; for (auto& v : vars()) o->push_back(univariate_priority_order(univariate_order(v))); return o; }(); return &(*os)[i]; }
inline const lex_<custom_var_order>* CLEX(const std::vector<int>& p) { static auto& m = *new std::map<std::vector<int>, lex_<custom_var_order>*>; auto& q = m[p]; if (!q) { std::vector<variable> v; for (int i : p) v.push_back(vars()[i]); q = new lex_<custom_var_order>(custom_var_order(v)); } return q; }
inline std::vector<int> rprio(int nv) { std::vector<int> p; int n = (int)rint(0, nv); for (int i = 0; i < n; i++) { int k = (int)rint(0, nv - 1); if (std::find(p.begin(), p.end(), k) == p.end()) p.push_back(k); } return p; }
// call f(order pointer, name) with a random order
template <class F> void anyorder(int nv, F f) { switch (rnd() % 5) { case 0: f(LEX(), "lex"); break; case 1: case 2: f(GRLEX(), "grlex"); break; case 3: { int i = (int)(rnd() % nv); f(UPO(i), "univariate"); break; } default: f(CLEX(rprio(nv)), "custom lex"); } }
}
#endif
