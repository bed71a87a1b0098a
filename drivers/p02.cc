#define PROP "P02"
#include "common.hh"
using namespace drv;
static std::string I;
static void ck(const ZZ& r, const mpz_class& e, const char* what) { CK(toz(r) == e, std::string(what) + " is wrong", I << " got " << r << " want " << e); CK(canonZ(r), std::string(what) + ": representation not canonical", I << " got " << r); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static void one() {
  mpz_class a = edge(), b = edge(); switch (rnd() % 6) { case 0: { mpz_class g = edge(); a *= g; b *= g; break; } case 1: a *= b; break; case 2: a = a * b + (long)rint(-1, 1); break; }
  { std::ostringstream o; o << "a=" << a << " b=" << b; I = o.str(); note(I); }
  const ZZ x = fromz(a), y = fromz(b);
  if (b == 0) { CK(throws([&] { ZZ t = x / y; }) && throws([&] { ZZ t = x % y; }) && throws([&] { ZZ t = x; t /= y; }) && throws([&] { ZZ t = x; t %= y; }) && throws([&] { ZZ q; ZZ::fdiv_q(q, x, y); }) && throws([&] { ZZ q, r; ZZ::fdiv_qr(q, r, x, y); }) && throws([&] { ZZ r; ZZ::fdiv_r(r, x, y); }), "division by zero not rejected", I); }
  else {
    mpz_class q, r, fq, fr; mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); mpz_fdiv_qr(fq.get_mpz_t(), fr.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    ck(x / y, q, "a/b"); ck(x % y, r, "a%b"); { ZZ t = x; t /= y; ck(t, q, "a/=b"); t = x; t %= y; ck(t, r, "a%=b"); t = y; t /= t; ck(t, 1, "b/=b"); t = y; t %= t; ck(t, 0, "b%=b"); }
    { ZZ s; ZZ::fdiv_q(s, x, y); ck(s, fq, "fdiv_q"); ZZ t = fromz(edge()); ZZ::fdiv_r(t, x, y); ck(t, fr, "fdiv_r"); ZZ u = fromz(edge()), v = fromz(edge()); ZZ::fdiv_qr(u, v, x, y); ck(u, fq, "fdiv_qr quotient"); ck(v, fr, "fdiv_qr remainder"); }
    { ZZ s = x, t = y; ZZ::fdiv_q(s, s, y); ck(s, fq, "fdiv_q(a,a,b)"); ZZ::fdiv_q(t, x, t); ck(t, fq, "fdiv_q(b,a,b)"); s = x; t = y; ZZ::fdiv_r(s, s, y); ck(s, fr, "fdiv_r(a,a,b)"); ZZ::fdiv_r(t, x, t); ck(t, fr, "fdiv_r(b,a,b)"); s = x; t = y; ZZ::fdiv_qr(s, t, s, t); ck(s, fq, "fdiv_qr(a,b,a,b)"); ck(t, fr, "fdiv_qr(a,b,a,b)"); s = x; t = y; ZZ::fdiv_qr(t, s, s, t); ck(t, fq, "fdiv_qr(b,a,a,b)"); ck(s, fr, "fdiv_qr(b,a,a,b)"); s = y; t = 5; ZZ::fdiv_qr(s, t, s, s); ck(s, 1, "fdiv_qr(b,r,b,b)"); ck(t, 0, "fdiv_qr(b,r,b,b)"); }
    { ZZ d, e; __div(d, x, y); CK(toz(d) == (r == 0 ? q : toz(d)) && canonZ(d), "__div", I); __div(d, e, x, y); CK(toz(d) * b + toz(e) == a && canonZ(d) && canonZ(e), "__div with remainder", I << " got " << d << ", " << e); }
    mpz_class m = abs(b); if (m > 0) { mpz_class iv; int ok = mpz_invert(iv.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); ZZ t = fromz(edge()), mm = fromz(m); bool got = ZZ::invert(t, x, mm); CK(got == (ok != 0) && canonZ(t), "invert reports existence", I); if (ok) ck(t, iv, "invert"); t = x; got = ZZ::invert(t, t, mm); if (ok) ck(t, iv, "invert(a,a,m)"); t = mm; got = ZZ::invert(t, x, t); if (ok) ck(t, iv, "invert(m,a,m)"); }
  }
  { uint64_t u = rnd() % 3 ? rnd() >> (rnd() % 63) : UINT64_MAX - rnd() % 3; if (!u) u = 1; mpz_class mu(std::to_string(u)), r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), mu.get_mpz_t()); CK(x.fdiv_ui(u) == r.get_ui(), "fdiv_ui", I << " u=" << u); }
  { mpz_class g, l; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); mpz_lcm(l.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); ck(gcd(x, y), g, "gcd"); ck(gcd(y, x), g, "gcd symmetric"); ck(lcm(x, y), l, "lcm"); ck(lcm(y, x), l, "lcm symmetric"); ck(gcd(x, x), abs(a), "gcd(a,a)"); ck(gcd(x, ZZ(0)), abs(a), "gcd(a,0)"); ck(lcm(x, x), abs(a), "lcm(a,a)"); }
  { int base = (int)rint(2, 62); CK(a == 0 ? sizeinbase(x, base) == 1 : true, "sizeinbase of 0", I); CK(sizeinbase(x, 2) == mpz_sizeinbase(a.get_mpz_t(), 2), "sizeinbase 2", I); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), base, sizeinbase(x, base)); CK(abs(a) < p, "sizeinbase too small", I << " base=" << base); }
  ck(x, a, "operand changed"); ck(y, b, "operand changed");
}
static bool isp(uint64_t n) { mpz_class z(std::to_string(n)); return mpz_probab_prime_p(z.get_mpz_t(), 30) > 0; }
static void primes() { uint64_t n = rnd() >> (rnd() % 64); if (rnd() % 5 == 0) n = UINT64_MAX - rnd() % 2000; I = "n=" + std::to_string(n); note(I); mpz_class z(std::to_string(n)), nx; mpz_nextprime(nx.get_mpz_t(), z.get_mpz_t());
  if (nx > mpz_class("18446744073709551615")) CK(throws([&] { next_prime_64(n); }), "next_prime_64 does not reject overflow", I); else CK(next_prime_64(n) == nx.get_ui(), "next_prime_64", I);
  ck(next_prime(fromz(z)), nx, "next_prime"); if (n <= 2) CK(throws([&] { prev_prime_64(n); }), "prev_prime_64 does not reject", I); else { uint64_t p = prev_prime_64(n); CK(p < n && isp(p), "prev_prime_64", I); for (uint64_t k = p + 1; k < n; k++) CK(!isp(k), "prev_prime_64 skips a prime", I); }
  mpz_class e = abs(edge()), ne; mpz_nextprime(ne.get_mpz_t(), e.get_mpz_t()); if (mpz_sizeinbase(e.get_mpz_t(), 2) < 130) { I = "n=" + e.get_str(); ck(next_prime(fromz(e)), ne, "next_prime"); } }
int main(int argc, char** argv) { init(argc, argv); section("division, gcd, inverse", 0.75, [] { one(); }); section("primes", 0.25, [] { primes(); }); return done(); }
