#define PROP "P18"
#include "common.hh"
#include <clpoly/dense_upoly_zp.hh>
using namespace drv;
typedef std::vector<uint64_t> V; typedef unsigned __int128 u128; typedef dense_upoly_zp D;
static uint64_t P; static uint64_t mm(uint64_t a, uint64_t b) { return (u128)a * b % P; } static uint64_t ad(uint64_t a, uint64_t b) { return ((u128)a + b) % P; } static uint64_t sb(uint64_t a, uint64_t b) { return ((u128)a + P - b) % P; }
static uint64_t pw(uint64_t a, uint64_t e) { uint64_t r = 1 % P; while (e) { if (e & 1) r = mm(r, a); a = mm(a, a); e >>= 1; } return r; }
static void st(V& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static V rv(size_t n, int dens = 100) { V a(n); for (auto& x : a) { x = rnd() % P; int k = rnd() % 8; if (k == 0) x = P - 1; if (k == 1) x = rnd() % 2 % P; if ((int)(rnd() % 100) >= dens) x = 0; } if (n && !a.back()) a.back() = 1; return a; }
static V rmax(size_t n) { V a(n, P - 1); return a; }
static V mulv(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; j < b.size(); j++) c[i + j] = ad(c[i + j], mm(a[i], b[j])); st(c); return c; }
static V addv(const V& a, const V& b, bool s) { V c(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < c.size(); i++) { uint64_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; c[i] = s ? sb(x, y) : ad(x, y); } st(c); return c; }
static V remv(V a, const V& b, V* q = nullptr) { if (q) q->clear(); uint64_t il = pw(b.back(), P - 2); if (P == 2) il = 1; if (q && a.size() >= b.size()) q->assign(a.size() - b.size() + 1, 0); while (a.size() >= b.size()) { uint64_t c = mm(a.back(), il); size_t s = a.size() - b.size(); if (q) (*q)[s] = c; for (size_t j = 0; j < b.size(); j++) a[s + j] = sb(a[s + j], mm(c, b[j])); st(a); } if (q) st(*q); return a; }
static V gcdv(V a, V b) { while (!b.empty()) { V r = remv(a, b); a = std::move(b); b = std::move(r); } if (!a.empty()) { uint64_t il = P == 2 ? 1 : pw(a.back(), P - 2); for (auto& x : a) x = mm(x, il); } return a; }
static D mk(const V& a) { upolynomial_<Zp> u; for (int64_t i = (int64_t)a.size() - 1; i >= 0; i--) if (a[i]) u.push_back({umonomial(i), Zp(a[i], P)}); return D(u, P); }
static V un(const D& d) { V a(d.size()); for (size_t i = 0; i < a.size(); i++) a[i] = d[i]; return a; }
static bool wf(const D& d) { if (d.prime() != P) return false; if (d.empty() != (d.size() == 0) || d.deg() != (int64_t)d.size() - 1) return false; if (d.size() && d.lead() == 0) return false; for (size_t i = 0; i < d.size(); i++) if (d[i] >= P) return false; return d[d.size()] == 0 && d[d.size() + 5] == 0; }
static std::string sh(const V& a) { std::ostringstream o; o << "[" << a.size() << "]"; size_t n = std::min<size_t>(a.size(), 700); for (size_t i = 0; i < n; i++) o << " " << a[i]; return o.str(); }
static const uint64_t PR[] = {2, 3, 5, 7, 101, 65537, 2147483647ull, 4294967291ull, 4294967311ull, (1ull << 61) - 1, 9223372036854775783ull, 9223372036854775837ull, 18446744073709551557ull};
static void basic(const V& a, const V& b) {
  std::string in = "p=" + std::to_string(P) + " (ascending coefficients) A=" + sh(a) + " B=" + sh(b); note(in); D A = mk(a), B = mk(b);
  CK(wf(A) && un(A) == a, "construction from the sparse form", in); { auto u = A.to_upoly(); D A2(u, P); CK(canonP(u) && un(A2) == a, "conversion to the sparse form and back", in); }
  D C; D::mul(C, A, B); CK(wf(C) && un(C) == mulv(a, b), "product", in); D::add(C, A, B); CK(wf(C) && un(C) == addv(a, b, false), "sum", in); D::sub(C, A, B); CK(wf(C) && un(C) == addv(a, b, true), "difference", in);
  switch (rnd() % 6) { case 0: { D X = A; D::mul(X, X, B); CK(un(X) == mulv(a, b), "product into the first factor", in); break; } case 1: { D X = B; D::mul(X, A, X); CK(un(X) == mulv(a, b), "product into the second factor", in); break; } case 2: { D X = A; D::mul(X, X, X); CK(un(X) == mulv(a, a), "square in place", in); break; }
    case 3: { D X = A; D::add(X, X, B); CK(un(X) == addv(a, b, false), "sum in place", in); D Y = B; D::add(Y, A, Y); CK(un(Y) == addv(a, b, false), "sum into the second", in); break; } case 4: { D X = A; D::sub(X, X, B); CK(un(X) == addv(a, b, true), "difference in place", in); D Y = B; D::sub(Y, A, Y); CK(un(Y) == addv(a, b, true), "difference into the second", in); break; } default: { D X = A; D::sub(X, X, X); CK(X.empty(), "A-A", in); } }
  uint64_t c = rnd() % 4 == 0 ? rnd() % 3 % P : rnd() % P; D X = A; X.scalar_mul(c); V s = a; for (auto& x : s) x = mm(x, c); st(s); CK(wf(X) && un(X) == s, "scalar product", in + " c=" + std::to_string(c));
  if (!b.empty()) { V q; V r = remv(a, b, &q); D Q, R; D::divrem(Q, R, A, B); CK(wf(Q) && wf(R) && un(Q) == q && un(R) == r, "quotient and remainder", in);
    switch (rnd() % 4) { case 0: { D Y = A, Z = B; D::divrem(Y, Z, Y, Z); CK(un(Y) == q && un(Z) == r, "divrem(Q=A,R=B)", in); break; } case 1: { D Y = A, Z = B; D::divrem(Z, Y, Y, Z); CK(un(Z) == q && un(Y) == r, "divrem(Q=B,R=A)", in); break; } case 2: { D Y = A; D::divrem(Y, R, Y, B); CK(un(Y) == q && un(R) == r, "divrem(Q=A)", in); break; } default: { D Z = B; D::divrem(Q, Z, A, Z); CK(un(Q) == q && un(Z) == r, "divrem(R=B)", in); } } }
}
static void g(const V& a, const V& b, const V& h) { // gcd of a*h and b*h
  V x = mulv(a, h), y = mulv(b, h); if (rnd() % 2) std::swap(x, y); std::string in = "gcd p=" + std::to_string(P) + " A=" + sh(x) + " B=" + sh(y); note(in);
  D A = mk(x), B = mk(y), G; if (rnd() % 3 == 0) G = A; D::gcd(G, A, B); V r = gcdv(x, y); V gg = un(G); CK(wf(G), "gcd not well formed", in); if (!gg.empty()) { uint64_t il = P == 2 ? 1 : pw(gg.back(), P - 2); for (auto& t : gg) t = mm(t, il); } CK(gg == r, "gcd (up to a unit)", in);
  if (rnd() % 4 == 0) { D S = A; D::gcd(S, S, B); CK(un(S) == un(G), "gcd into the first operand", in); D T = B; D::gcd(T, A, T); CK(un(T) == un(G), "gcd into the second operand", in); } }
static size_t sz(size_t m) { switch (rnd() % 3) { case 0: return rnd() % 4; case 1: { static const size_t E[] = {15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 67}; return std::min(m, E[rnd() % 12]); } default: return rnd() % (m + 1); } }
int main(int argc, char** argv) {
  init(argc, argv); auto pick = [] { P = PR[rnd() % (sizeof PR / sizeof *PR)]; };
  section("scalars", 0.05, [&] { pick(); D d(P); for (int k = 0; k < 50; k++) { uint64_t a = rnd() % P, b = rnd() % P; if (k % 5 == 0) a = P - 1; if (k % 7 == 0) b = P - 1; if (k % 11 == 0) b = 0; std::string in = "p=" + std::to_string(P) + " a=" + std::to_string(a) + " b=" + std::to_string(b); note(in); CK(d.nmod_mul(a, b) == mm(a, b), "nmod_mul", in); if (a) CK(mm(d.nmod_inv(a), a) == 1 % P, "nmod_inv", in); } });
  section("schoolbook sizes", 0.2, [&] { pick(); basic(rnd() % 8 ? rv(sz(24), 100 - (int)(rnd() % 80)) : rmax(sz(24)), rnd() % 8 ? rv(sz(24), 100 - (int)(rnd() % 80)) : rmax(sz(24))); });
  section("Karatsuba sizes", 0.3, [&] { pick(); basic(rnd() % 4 ? rv(sz(150), 100 - (int)(rnd() % 60)) : rmax(sz(150)), rnd() % 4 ? rv(sz(150)) : rmax(sz(150))); });
  section("gcd, Euclid", 0.15, [&] { pick(); V h = rv(sz(20)); if (h.empty()) h = {1}; g(rv(sz(60)), rv(sz(60), 60), h); });
  section("gcd, half-gcd sizes", 0.3, [&] { pick(); size_t n = 340 + rnd() % (rnd() % 4 ? 120 : 700); size_t k; switch (rnd() % 5) { case 0: k = 1; break; case 1: k = 1 + rnd() % n; break; case 2: k = n - rnd() % 20; break; case 3: k = n / 2 + rnd() % 3; break; default: k = 1 + rnd() % 40; } if (k > n) k = n; V h = rv(k); size_t na = n - k + 1; V a = rv(na, rnd() % 3 ? 100 : 30), b = rv(na - std::min<size_t>(na - 1, rnd() % 3 ? rnd() % 3 : rnd() % na), rnd() % 3 ? 100 : 30); if (rnd() % 6 == 0) b = a; if (rnd() % 6 == 0) { V q = rv(1 + rnd() % 5); V c = mulv(b, q); if (c.size() + k - 1 < 1200) a = addv(c, rv(rnd() % 4), false); } if (a.empty()) a = {1}; if (b.empty()) b = {1}; g(a, b, h); });
  return done();
}
