#include <clpoly/clpoly.hh>
namespace clpoly {
 typedef upolynomial_<ZZ> U; typedef upolynomial_<Zp> UP; typedef upolynomial_<QQ> UQ;
 ZZ use_assign(const U&a,const ZZ&x){ return assign(a,x); }
 U use_der(const U&a){ return derivative(a); }
 int64_t use_deg(const U&a){ return get_deg(a); }
 UP use_mod(const U&a,uint64_t p){ return polynomial_mod(a,p); }
 void use_c1(const UP&a,U&b){ poly_convert(a,b); }
 void use_c2(const UQ&a,U&b){ poly_convert(a,b); }
 void use_c3(const U&a,UQ&b){ poly_convert(a,b); }
 U use_mulc(const U&a,const ZZ&x){ return a*x; }
 U use_cmul(const U&a,const ZZ&x){ return x*a; }
}
#include <clpoly/upolynomial.cc>
