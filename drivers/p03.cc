#define PROP "P03"
#include "common.hh"
using namespace drv;
static std::string I;
static void ck(const QQ& r, const mpq_class& e, const char* what) { mpz_class n = toz(r.get_num()), d = toz(r.get_den()); CK(n == e.get_num() && d == e.get_den(), std::string(what) + " is wrong or not in lowest terms", I << " got " << n << "/" << d << " want " << e); CK(canonZ(r.get_num()) && canonZ(r.get_den()), std::string(what) + ": integer representation not canonical", I); QQ t = fromq(e); CK(t == r && std::hash<QQ>()(t) == std::hash<QQ>()(r), std::string(what) + ": equal value, different == or hash", I); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static mpq_class rq_() { mpz_class n = edge(), d = rnd() % 3 ? edge() : mpz_class(1); if (d == 0) d = 1; if (rnd() % 4 == 0) { mpz_class g = edge(); if (g != 0) { n *= g; d *= g; } } mpq_class q(n, d); q.canonicalize(); return q; }
static void one() {
  mpq_class a = rq_(), b = rnd() % 6 ? rq_() : (rnd() & 1 ? a : mpq_class(-a)); if (rnd() % 6 == 0) { b = mpq_class(b.get_num(), a.get_den()); b.canonicalize(); } if (rnd() % 6 == 0 && a != 0) b = 1 / a;
  { std::ostringstream o; o << "a=" << a << " b=" << b; I = o.str(); note(I); }
  const QQ x = fromq(a), y = fromq(b); auto ex = [](const mpq_class& p) { mpq_class q(p); q.canonicalize(); return q; };
  ck(x + y, ex(a + b), "a+b"); ck(x - y, ex(a - b), "a-b"); ck(x * y, ex(a * b), "a*b"); ck(-x, ex(-a), "-a"); ck(abs(x), ex(abs(a)), "abs");
  { QQ t = x; t += y; ck(t, ex(a + b), "a+=b"); t -= y; ck(t, a, "a+=b;-=b"); t = x; t -= y; ck(t, ex(a - b), "a-=b"); t = x; t *= y; ck(t, ex(a * b), "a*=b"); t = x; t += t; ck(t, ex(a + a), "t+=t"); t = x; t -= t; ck(t, 0, "t-=t"); t = x; t *= t; ck(t, ex(a * a), "t*=t"); t = x; addmul(t, y, y); ck(t, ex(a + b * b), "addmul"); submul(t, y, y); ck(t, a, "addmul;submul"); t = x; addmul(t, t, t); ck(t, ex(a + a * a), "addmul(t,t,t)"); t = x; submul(t, t, t); ck(t, ex(a - a * a), "submul(t,t,t)"); }
  if (b == 0) CK(throws([&] { QQ t = x / y; }) && throws([&] { QQ t = x; t /= y; }) && throws([&] { QQ t(x.get_num(), ZZ(0)); }) && throws([&] { QQ t(5LL, 0LL); }), "division by zero not rejected", I);
  else { ck(x / y, ex(a / b), "a/b"); QQ t = x; t /= y; ck(t, ex(a / b), "a/=b"); t = y; t /= t; ck(t, 1, "b/=b"); __div(t, x, y); ck(t, ex(a / b), "__div"); }
  { int s = cmp(a, b); CK((x == y) == (s == 0) && (x != y) == (s != 0) && (x < y) == (s < 0) && (x > y) == (s > 0) && (x <= y) == (s <= 0) && (x >= y) == (s >= 0), "comparison is wrong", I); CK(bool(x) == (a != 0) && x.is_zero() == (a == 0) && sgn(x) == sgn(a), "zero test / sgn", I); }
  { mpz_class n = edge(), d = edge(); I += " n=" + n.get_str() + " d=" + d.get_str(); if (d == 0) CK(throws([&] { QQ t(fromz(n), fromz(d)); }), "zero denominator not rejected", I); else { mpq_class q(n, d); q.canonicalize(); ck(QQ(fromz(n), fromz(d)), q, "construction from n/d"); if (n.fits_slong_p() && d.fits_slong_p()) ck(QQ((long long)n.get_si(), (long long)d.get_si()), q, "construction from machine integers"); QQ t; __div(t, fromz(n), fromz(d)); ck(t, q, "__div(ZZ,ZZ)"); } ck(QQ(fromz(n)), mpq_class(n), "construction from ZZ"); if (n.fits_slong_p()) { QQ t = x; t = (long long)n.get_si(); ck(t, mpq_class(n), "assignment from long long"); ck(QQ((int)n.get_si()), mpq_class((int)n.get_si()), "construction from int"); } }
  { unsigned e = rnd() % 7; mpz_class n, d; mpz_pow_ui(n.get_mpz_t(), a.get_num().get_mpz_t(), e); mpz_pow_ui(d.get_mpz_t(), a.get_den().get_mpz_t(), e); ck(pow(x, e), mpq_class(n, d), "pow"); }
  { QQ s = x, t = y; s.swap(t); ck(s, b, "swap"); swap(s, t); ck(s, a, "swap"); QQ u(std::move(s)); ck(u, a, "move"); s = u; ck(s, a, "assign"); s = *&s; ck(s, a, "self assignment"); QQ z(y); z = std::move(u); ck(z, a, "move="); set_zero(z); ck(z, 0, "set_zero"); }
  ck(x, a, "operand changed"); ck(y, b, "operand changed");
}
int main(int argc, char** argv) { init(argc, argv); section("rational arithmetic", 1, [] { one(); }); return done(); }
