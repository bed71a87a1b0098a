#define PROP "P01"
#include "common.hh"
using namespace drv;
static long live = 0; // GMP blocks alive
static void* ga(size_t n) { live++; return malloc(n); } static void* gr(void* p, size_t, size_t n) { return realloc(p, n); } static void gf(void* p, size_t) { live--; free(p); }
static std::string I;
static void ck(const ZZ& r, const mpz_class& e, const char* what) { CK(toz(r) == e, std::string(what) + " is wrong", I << " got " << r << " want " << e); CK(canonZ(r), std::string(what) + ": representation not canonical", I << " got " << r); ZZ t = fromz(e); CK(t == r && !(t != r) && r == t && r.hash() == t.hash() && std::hash<ZZ>()(r) == std::hash<ZZ>()(t), std::string(what) + ": equal value, different == or hash", I << " got " << r); }
static void arith() {
  mpz_class a = edge(), b = rnd() % 6 ? edge() : mpz_class(rnd() & 1 ? a : mpz_class(-a)), c = edge(); if (rnd() % 8 == 0) b = a + (long)rint(-1, 1);
  { std::ostringstream o; o << "a=" << a << " b=" << b << " c=" << c; I = o.str(); note(I); }
  const ZZ x = fromz(a), y = fromz(b), w = fromz(c);
  ck(x, a, "construction from string"); ck(ZZ(mpz_srcptr(a.get_mpz_t())), a, "construction from mpz"); ck(x + y, a + b, "a+b"); ck(x - y, a - b, "a-b"); ck(x * y, a * b, "a*b"); ck(-x, -a, "-a"); ck(abs(x), abs(a), "abs");
  { ZZ t = x; t += y; ck(t, a + b, "a+=b"); t -= y; ck(t, a, "a+=b;a-=b"); t = x; t -= y; ck(t, a - b, "a-=b"); t = x; t *= y; ck(t, a * b, "a*=b"); t = x; t += t; ck(t, a + a, "t+=t"); t = x; t -= t; ck(t, 0, "t-=t"); t = x; t *= t; ck(t, a * a, "t*=t"); }
  { ZZ t = w; t.addmul(x, y); ck(t, c + a * b, "c.addmul(a,b)"); t.submul(x, y); ck(t, c, "c.addmul;submul"); t = w; t.submul(x, y); ck(t, c - a * b, "c.submul(a,b)"); t = w; t.addmul(t, y); ck(t, c + c * b, "t.addmul(t,b)"); t = w; t.addmul(x, t); ck(t, c + a * c, "t.addmul(a,t)"); t = w; t.addmul(t, t); ck(t, c + c * c, "t.addmul(t,t)"); t = w; t.submul(t, y); ck(t, c - c * b, "t.submul(t,b)"); t = w; t.submul(x, t); ck(t, c - a * c, "t.submul(a,t)"); t = w; t.submul(t, t); ck(t, c - c * c, "t.submul(t,t)"); t = w; addmul(t, x, y); submul(t, y, x); ck(t, c, "addmul;submul (free)"); }
  { int s = cmp(a, b); CK((x == y) == (s == 0) && (x != y) == (s != 0) && (x < y) == (s < 0) && (x > y) == (s > 0) && (x <= y) == (s <= 0) && (x >= y) == (s >= 0), "comparison is wrong", I); }
  CK(bool(x) == (a != 0) && x.is_zero() == (a == 0) && x.is_one() == (a == 1) && x.is_odd() == (mpz_odd_p(a.get_mpz_t()) != 0) && x.sgn() == sgn(a) && sgn(x) == sgn(a), "is_zero/is_one/is_odd/sgn/bool", I);
  if (a.fits_slong_p()) CK(x.get_si() == a.get_si(), "get_si", I);
  { unsigned n = rnd() % 3 ? (unsigned)(rnd() % 70) : (unsigned)(rnd() % 300); mpz_class l = a << n, r; mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), n); I += " n=" + std::to_string(n); ZZ t = x; t <<= n; ck(t, l, "a<<=n"); t >>= n; ck(t, a, "a<<=n;>>=n"); t = x; t >>= n; ck(t, r, "a>>=n"); ck(x << n, l, "a<<n"); ck(x >> n, r, "a>>n"); ck(ZZ(x) << n, l, "move(a)<<n"); ck(ZZ(x) >> n, r, "move(a)>>n"); }
  { unsigned e = (unsigned)(rnd() % 12); if (abs(a) < 3 && rnd() % 3 == 0) e = (unsigned)(rnd() % 200); mpz_class p; mpz_pow_ui(p.get_mpz_t(), a.get_mpz_t(), e); I += " e=" + std::to_string(e); ck(pow(x, e), p, "pow"); }
  { ZZ s = x, t = y; s.swap(t); ck(s, b, "swap"); ck(t, a, "swap"); swap(s, t); ck(s, a, "swap(,)"); ck(t, b, "swap(,)"); ZZ u(std::move(s)); ck(u, a, "move"); t = std::move(u); ck(t, a, "move="); s = t; ck(s, a, "assign to a moved-from value"); s = *&s; ck(s, a, "self assignment"); ZZ z = y; z = x; ck(z, a, "copy assignment"); ck(y, b, "copy assignment changed another value"); set_zero(z); ck(z, 0, "set_zero"); }
  { std::ostringstream o; o << x; std::istringstream i(o.str()); ZZ t = y; i >> t; ck(t, a, "output then input"); CK(o.str() == a.get_str(), "output", I); }
  ck(x, a, "operand changed"); ck(y, b, "operand changed"); ck(w, c, "operand changed");
}
template <class T> static void ints(const char* n) { mpz_class e = edge(), d = edge(); T v = (T)rnd(); if (e.fits_slong_p()) v = (T)e.get_si(); if (rnd() % 4 == 0) v = std::numeric_limits<T>::max() - (T)(rnd() % 2); if (rnd() % 8 == 0) v = std::numeric_limits<T>::min(); I = std::string(n) + " " + std::to_string(v) + " over " + d.get_str(); note(I); mpz_class z(std::to_string(v)); ZZ t(v); ck(t, z, "constructor"); ZZ u = fromz(d); u = v; ck(u, z, "assignment"); u += fromz(d); ck(u, z + d, "assignment then +="); }
static void sequence() { // a history of operations on a few variables: representation switches back and forth
  ZZ v[3]; mpz_class r[3]; std::string h; for (int i = 0; i < 3; i++) { r[i] = edge(); v[i] = fromz(r[i]); h += " v" + std::to_string(i) + "=" + r[i].get_str(); }
  for (int s = 0; s < 12; s++) { int i = rnd() % 3, j = rnd() % 3, k = rnd() % 3, op = rnd() % 11; h += " op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ")"; I = h; note(h); if (sizeinbase(v[i], 2) > 2000 || sizeinbase(v[j], 2) > 2000) break;
    switch (op) { case 0: v[i] += v[j]; r[i] += r[j]; break; case 1: v[i] -= v[j]; r[i] -= r[j]; break; case 2: v[i] *= v[j]; r[i] *= r[j]; break; case 3: v[i].addmul(v[j], v[k]); r[i] += mpz_class(r[j] * r[k]); break; case 4: v[i].submul(v[j], v[k]); r[i] -= mpz_class(r[j] * r[k]); break; case 5: v[i] = v[j]; r[i] = r[j]; break; case 6: v[i] = v[j] - v[k]; r[i] = mpz_class(r[j] - r[k]); break;
      case 7: v[i] >>= 63; mpz_fdiv_q_2exp(r[i].get_mpz_t(), r[i].get_mpz_t(), 63); break; case 8: v[i] <<= 1; r[i] <<= 1; break; case 9: v[i].swap(v[j]); swap(r[i], r[j]); break; default: if (i != j) { v[i] = std::move(v[j]); r[i] = r[j]; v[j] = 7; r[j] = 7; } }
    for (int q = 0; q < 3; q++) ck(v[q], r[q], "after a sequence of operations"); } }
int main(int argc, char** argv) { mp_set_memory_functions(ga, gr, gf); init(argc, argv);
  section("arithmetic", 0.5, [] { arith(); }); section("sequences", 0.25, [] { sequence(); });
  section("machine integers", 0.15, [] { ints<int>("int"); ints<unsigned>("unsigned"); ints<long>("long"); ints<long long>("long long"); ints<unsigned long>("unsigned long"); ints<unsigned long long>("unsigned long long"); });
  long l0 = live; I = "10 rounds of arithmetic"; for (int i = 0; i < 10; i++) { arith(); sequence(); I.clear(); I.shrink_to_fit(); } CK(live == l0, "GMP memory is leaked or freed twice: " + std::to_string(live - l0) + " blocks", "10 rounds of arithmetic and sequences");
  return done(); }
