#include <clpoly/clpoly.hh>
#include <clpoly/polynomial_factorize.hh>
namespace clpoly {
 typedef upolynomial_<ZZ> U;
 int64_t use_deg(const U&a){ return get_deg(a); }
 umonomial use_mgcd(const umonomial&a,const umonomial&b){ return gcd(a,b); }
 U use_mul(const U&a,const U&b){ return a*b; }
 U use_add(const U&a,const U&b){ return a+b; }
 U use_sub(const U&a,const U&b){ return a-b; }
}
