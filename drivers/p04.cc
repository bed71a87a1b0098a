#define PROP "P04"
#include "common.hh"
using namespace drv;
typedef unsigned __int128 u128;
static uint64_t rprime() { switch (rnd() % 6) { case 0: { static const uint64_t S[] = {2, 3, 5, 7, 11, 13, 251, 65537, 4294967291ULL, 4294967311ULL, 2305843009213693951ULL, 9223372036854775783ULL, 9223372036854775837ULL, 18446744073709551557ULL}; return S[rnd() % 14]; }
  default: { mpz_class z = (unsigned long)(rnd() >> (rnd() % 63)); mpz_nextprime(z.get_mpz_t(), z.get_mpz_t()); if (!mpz_fits_ulong_p(z.get_mpz_t())) return 18446744073709551557ULL; return z.get_ui(); } } }
static uint64_t rmod(bool prime) { if (prime) return rprime(); uint64_t p = rnd() >> (rnd() % 63); return p < 2 ? 2 : p; }
static uint64_t el(uint64_t p) { switch (rnd() % 5) { case 0: return p - 1; case 1: return rnd() % 3 % p; case 2: return p / 2; default: return rnd() % p; } }
static uint64_t M(const mpz_class& z, uint64_t p) { mpz_class r; mpz_class q((unsigned long)p); mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), q.get_mpz_t()); return r.get_ui(); }
static void one(bool prime) {
  uint64_t p = rmod(prime), a = el(p), b = el(p), c = el(p); int64_t k = toz(fromz(edge())).fits_slong_p() ? 0 : 1; { mpz_class e = edge(); k = e.fits_slong_p() ? e.get_si() : (int64_t)rnd(); } int ki = (int)k;
  mpz_class big = edge(); std::ostringstream o; o << "p=" << p << " a=" << a << " b=" << b << " c=" << c << " k=" << k << " z=" << big; std::string in = o.str(); note(in);
  Zp x(a, p), y(b, p), w(c, p);
  auto ck = [&](const Zp& v, uint64_t r, const char* what) { CK(v.number() == r && v.prime() == p && r < p, what, in); Zp t = v; t *= Zp(uint64_t(p - 1), p); CK(t.number() == (uint64_t)((u128)r * (p - 1) % p), std::string(what) + " (modulus data)", in); };
  ck(Zp(uint64_t(k), p), (uint64_t)k % p, "Zp(uint64)"); ck(Zp(k, p), M(mpz_class(std::to_string(k)), p), "Zp(int64)"); ck(Zp(ki, p), M(mpz_class(ki), p), "Zp(int)"); ck(Zp(fromz(big), p), M(big, p), "Zp(ZZ)"); ck(Zp(p), 0, "Zp(p)");
  { Zp t = x; t = k; ck(t, M(mpz_class(std::to_string(k)), p), "=int64"); t = x; t = fromz(big); ck(t, M(big, p), "=ZZ"); t.number() = (uint64_t)k; t.normalization(); ck(t, (uint64_t)k % p, "normalization"); Zp u; u.prime(p); ck(u + x, a, "prime(p)"); }
  ck(x + y, (uint64_t)(((u128)a + b) % p), "a+b"); ck(x - y, (uint64_t)(((u128)a + p - b) % p), "a-b"); ck(x * y, (uint64_t)((u128)a * b % p), "a*b"); ck(-x, a ? p - a : 0, "-a");
  ck(x * k, M(mpz_class(std::to_string(k)) * mpz_class(std::to_string(a)), p), "a*int"); ck(k * x, M(mpz_class(std::to_string(k)) * mpz_class(std::to_string(a)), p), "int*a");
  { Zp t = x; t += y; ck(t, (uint64_t)(((u128)a + b) % p), "+="); t = x; t -= y; ck(t, (uint64_t)(((u128)a + p - b) % p), "-="); t = x; t *= y; ck(t, (uint64_t)((u128)a * b % p), "*="); t = x; t += t; ck(t, (uint64_t)((u128)2 * a % p), "t+=t"); t = x; t -= t; ck(t, 0, "t-=t"); t = x; t *= t; ck(t, (uint64_t)((u128)a * a % p), "t*=t"); }
  { Zp t = w; addmul(t, x, y); ck(t, (uint64_t)(((u128)a * b % p + c) % p), "addmul"); t = w; submul(t, x, y); ck(t, (uint64_t)(((u128)c + p - (u128)a * b % p) % p), "submul"); t = w; addmul(t, t, t); ck(t, (uint64_t)(((u128)c * c % p + c) % p), "addmul(t,t,t)"); t = w; submul(t, t, t); ck(t, (uint64_t)(((u128)c + p - (u128)c * c % p) % p), "submul(t,t,t)"); Zp z; addmul(z, x, y); ck(z, (uint64_t)((u128)a * b % p), "addmul into unset"); Zp z2; submul(z2, x, y); ck(z2, (uint64_t)((p - (u128)a * b % p) % p), "submul into unset"); }
  CK((x == y) == (a == b) && (x != y) == (a != b), "==", in); CK((x == k) == (a == M(mpz_class(std::to_string(k)), p)) && (k != x) == !(x == k), "== int", in); CK((bool)x == (a != 0) && (uint64_t)x == a, "conversions", in); CK(zore_check<Zp>()(x) == (a == 0), "zero test", in);
  { int64_t e = rnd() % 4 ? rint(0, 70) : (int64_t)(rnd() >> 2); mpz_class r, bb((unsigned long)a), mm((unsigned long)p); mpz_powm_ui(r.get_mpz_t(), bb.get_mpz_t(), (unsigned long)e, mm.get_mpz_t()); ck(pow(x, e), e ? r.get_ui() : 1 % p, ("pow " + std::to_string(e)).c_str()); }
  if (prime && b) { Zp i = y.inv(); CK((uint64_t)((u128)i.number() * b % p) == 1 % p && i.number() < p, "inv", in); Zp q = x / y; ck(q, q.number(), "a/b modulus"); CK((uint64_t)((u128)q.number() * b % p) == a, "a/b", in); Zp t = x; t /= y; CK(t == q, "a/=b", in); t = y; t /= t; ck(t, 1, "t/=t"); Zp d, r2; __div(d, x, y); CK(d == q, "__div", in); __div(d, r2, x, y); CK(d == q && r2.number() == 0, "__div with remainder", in); ck(Zp(inv_prime(b, p), p), i.number(), "inv_prime"); }
}
int main(int argc, char** argv) { init(argc, argv);
  section("prime moduli", 0.6, [] { one(true); }); section("any modulus", 0.4, [] { one(false); });
  return done(); }
