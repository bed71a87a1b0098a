// independent helpers for the algebraic algorithms: exact division, coprimality and square-freeness by modular images
#ifndef DRV_ALGO
#define DRV_ALGO
#include "common.hh"
namespace drv {
typedef unsigned __int128 u128; typedef std::vector<uint64_t> UV; // dense, lowest first, no trailing zero
inline uint64_t mpw(uint64_t b, uint64_t e, uint64_t p) { uint64_t r = 1 % p; for (b %= p; e; e >>= 1, b = (u128)b * b % p) if (e & 1) r = (u128)r * b % p; return r; }
inline void trim(UV& a) { while (!a.empty() && !a.back()) a.pop_back(); }
inline UV uvrem(UV a, const UV& b, uint64_t p) { uint64_t li = mpw(b.back(), p - 2, p); while (a.size() >= b.size()) { uint64_t c = (u128)a.back() * li % p; size_t s = a.size() - b.size(); for (size_t i = 0; i < b.size(); i++) a[s + i] = (a[s + i] + (u128)(p - c) * b[i]) % p; trim(a); } return a; }
inline UV uvgcd(UV a, UV b, uint64_t p) { while (!b.empty()) { UV r = uvrem(a, b, p); a = b; b = r; } return a; }
inline UV uvmul(const UV& a, const UV& b, uint64_t p) { if (a.empty() || b.empty()) return {}; UV r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + (u128)a[i] * b[j]) % p; trim(r); return r; }
template <class R> inline int64_t rdeg(const R& a, int i) { int64_t d = 0; for (auto& t : a.d) d = std::max(d, t.first[i]); return d; }
template <class R> inline R rpart(const R& a, int i, int64_t d) { R r; for (auto& t : a.d) if (t.first[i] == d) { Ex e = t.first; e[i] = 0; r.add(e, t.second); } return r; }
template <class R> inline R rderiv(const R& a, int i) { R r; for (auto& t : a.d) if (t.first[i]) { Ex e = t.first; e[i]--; r.add(e, t.second * (long)t.first[i]); } return r; }
inline bool isconst(const RZ& a) { for (auto& t : a.d) for (auto x : t.first) if (x) return false; return true; }
inline RZ rconst(const mpz_class& c) { RZ r; Ex e(vars().size(), 0); r.add(e, c); return r; }
inline RZ rvar(int i, int64_t d = 1) { RZ r; Ex e(vars().size(), 0); e[i] = d; r.add(e, 1); return r; }
template <class R> inline R rpow(const R& a, int64_t n) { R r; Ex e(vars().size(), 0); r.add(e, 1); while (n-- > 0) r = r * a; return r; }
inline UV image(const RZ& a, int i, const std::vector<uint64_t>& pt, uint64_t p) { UV r(rdeg(a, i) + 1, 0); for (auto& t : a.d) { mpz_class z; mpz_fdiv_r_ui(z.get_mpz_t(), t.second.get_mpz_t(), p); uint64_t c = z.get_ui(); for (size_t k = 0; k < t.first.size(); k++) if ((int)k != i && t.first[k]) c = (u128)c * mpw(pt[k], t.first[k], p) % p; r[t.first[i]] = (r[t.first[i]] + c) % p; } trim(r); return r; }
inline mpz_class icont(const RZ& a) { mpz_class g = 0; for (auto& t : a.d) g = gcd(g, t.second); return g; }
// no common non-constant factor (one-sided: true is a proof, false after many images is overwhelming evidence)
inline bool coprime(const RZ& a, const RZ& b) {
  if (a.d.empty() || b.d.empty()) return false;
  const uint64_t PR[] = {2305843009213693951ull, 1000000007ull, 4294967291ull};
  for (int i = 0; i < (int)vars().size(); i++) { int64_t da = rdeg(a, i), db = rdeg(b, i); if (!da || !db) continue; bool ok = false;
    for (int t = 0; t < 12 && !ok; t++) { uint64_t p = PR[t % 3]; std::vector<uint64_t> pt; for (size_t k = 0; k < vars().size(); k++) pt.push_back(rnd() % p); UV x = image(a, i, pt, p), y = image(b, i, pt, p); if ((int64_t)x.size() != da + 1 || (int64_t)y.size() != db + 1) continue; if (uvgcd(x, y, p).size() == 1) ok = true; }
    if (!ok) return false; }
  return true; }
inline bool sqfree(const RZ& a) { // no repeated non-constant factor
  if (a.d.empty()) return false;
  const uint64_t PR[] = {2305843009213693951ull, 1000000007ull, 4294967291ull};
  for (int i = 0; i < (int)vars().size(); i++) { int64_t da = rdeg(a, i); if (da < 2) continue; bool ok = false; RZ b = rderiv(a, i); int64_t db = da - 1;
    for (int t = 0; t < 12 && !ok; t++) { uint64_t p = PR[t % 3]; std::vector<uint64_t> pt; for (size_t k = 0; k < vars().size(); k++) pt.push_back(rnd() % p); UV x = image(a, i, pt, p), y = image(b, i, pt, p); if ((int64_t)x.size() != da + 1 || (int64_t)y.size() != db + 1) continue; if (uvgcd(x, y, p).size() == 1) ok = true; }
    if (!ok) return false; }
  return true; }
// exact quotient a / b over ZZ, or ok = false
inline RZ exdiv(RZ a, const RZ& b, bool& ok) { RZ q; ok = true; if (b.d.empty()) { ok = false; return q; } auto lb = *b.d.rbegin(); long guard = 0;
  while (!a.d.empty()) { auto la = *a.d.rbegin(); Ex e = la.first; for (size_t k = 0; k < e.size(); k++) { e[k] -= lb.first[k]; if (e[k] < 0) { ok = false; return q; } } if (la.second % lb.second != 0 || ++guard > 200000) { ok = false; return q; }
    mpz_class c = la.second / lb.second; RZ s; s.add(e, c); q.add(e, c); a = a - s * b; } return q; }
inline bool divides(const RZ& b, const RZ& a) { bool ok; exdiv(a, b, ok); return ok; }
inline RZ nz(RZ a) { if (a.d.empty()) a = rconst(1); return a; }
// known irreducible non-constant primitive polynomials
inline RZ irred(int nv, int md) { for (;;) { RZ r; switch (rnd() % 6) {
  case 0: { int i = rnd() % nv; mpz_class a = (long)rint(1, 9), b = (long)rint(-9, 9); r = rconst(a) * rvar(i) + rconst(b); break; }
  case 1: { int i = rnd() % nv; mpz_class a = (long)rint(1, 5), b = (long)rint(-6, 6), c = (long)rint(-9, 9), D = b * b - 4 * a * c; if (mpz_perfect_square_p(D.get_mpz_t())) continue; r = rconst(a) * rvar(i, 2) + rconst(b) * rvar(i) + rconst(c); break; }
  case 2: { int i = rnd() % nv; static const long q[] = {2, 3, 5, 7}; long p = q[rnd() % 4]; int n = (int)rint(2, std::max(2, md)); r = rvar(i, n); for (int k = 1; k < n; k++) r = r + rconst(p * rint(-2, 2)) * rvar(i, k); r = r + rconst(rnd() & 1 ? p : -p); break; }          // Eisenstein
  case 3: { int i = rnd() % nv; static const std::vector<std::vector<int>> cy = {{1, 1, 1}, {1, 0, 1}, {1, -1, 1}, {1, 1, 1, 1, 1}, {1, 0, 0, 0, 1}, {1, 0, -10, 0, 1}, {1, 0, -1, 0, 1}, {1, 1, 1, 1, 1, 1, 1}, {1, 0, 0, 1, 0, 0, 1}, {-1, -1, 0, 1}, {2, 0, 0, 1}}; auto& c = cy[rnd() % cy.size()]; if ((int)c.size() - 1 > std::max(md, 2)) continue; for (size_t k = 0; k < c.size(); k++) if (c[k]) r = r + rconst(c[k]) * rvar(i, k); break; }
  case 4: { if (nv < 2) continue; int i = rnd() % nv; RZ a, b; for (int k = 0; k < 2; k++) { RZ t = rconst(rint(-4, 4)); for (int m = (int)rint(1, 2); m > 0; m--) { Ex e(vars().size(), 0); for (int j = 0; j < nv; j++) if (j != i && rnd() % 2) e[j] = rint(0, 2); RZ u; u.add(e, mpz_class((long)rint(-4, 4))); t = t + u; } (k ? b : a) = t; } if (a.d.empty() || b.d.empty() || !coprime(a, b)) continue; r = a * rvar(i) + b; break; }   // linear in one variable, coprime coefficients
  default: { if (nv < 2) continue; int i = rnd() % nv, j = rnd() % nv; if (i == j) continue; int n = (int)rint(2, std::max(2, md)); r = rvar(i, n); for (int k = 1; k < n; k++) r = r + rconst(rint(-2, 2)) * rvar(j) * rvar(i, k); r = r + rconst(rnd() & 1 ? 1 : -1) * rvar(j); break; } } // Eisenstein at another variable
  if (r.d.empty() || isconst(r)) continue; if (icont(r) != 1) { if (icont(r) == 0) continue; mpz_class g = icont(r); RZ s; for (auto& t : r.d) s.add(t.first, mpz_class(t.second / g)); r = s; } return r; } }
inline RZ norms(RZ a) { if (!a.d.empty() && a.d.rbegin()->second < 0) a = RZ() - a; return a; }
inline RZ touref(const upolynomial_ZZ& f) { RZ r; for (auto& t : f) r.add(exof(t.first), toz(t.second)); return r; }
inline UV touv(const upolynomial_<Zp>& f) { UV r; for (auto& t : f) { if ((int64_t)r.size() <= t.first.deg()) r.resize(t.first.deg() + 1); r[t.first.deg()] = t.second.number(); } trim(r); return r; }
inline upolynomial_<Zp> fromuv(const UV& a, uint64_t p) { upolynomial_<Zp> r; for (size_t i = a.size(); i-- > 0;) if (a[i]) r.push_back({umonomial((int64_t)i), Zp(a[i], p)}); return r; }
inline std::string str(const UV& a) { std::ostringstream o; for (auto x : a) o << x << " "; return o.str(); }
inline upolynomial_ZZ fromu(const RZ& r) { upolynomial_ZZ p; for (auto it = r.d.rbegin(); it != r.d.rend(); ++it) p.push_back({umonomial(it->first[0]), fromz(it->second)}); return p; }
}
#endif
