#include <clpoly/clpoly.hh>
namespace clpoly {
 typedef std::vector<std::pair<basic_monomial<grlex>,ZZ>> PV;
 typedef basic_polynomial<basic_monomial<grlex>,ZZ,grlex> P;
 template void pair_vec_add(PV&,const PV&,const PV&,const grlex&);
 template void pair_vec_sub(PV&,const PV&,const PV&,const grlex&);
 template void pair_vec_negate(PV&,const PV&);
 template void pair_vec_negate(PV&);
 template PV pair_vec_negate(const PV&);
 template bool pair_vec_equal_to(const PV&,const PV&);
 template bool pair_vec_comp(const PV&,const PV&,const grlex&);
 template class basic_polynomial<basic_monomial<grlex>,ZZ,grlex>;
 P use_add(const P&a,const P&b){ return a+b; }
 P use_sub(const P&a,const P&b){ return a-b; }
 P use_mul(const P&a,const P&b){ return a*b; }
 P use_div(const P&a,const P&b){ return a/b; }
 bool use_ne(const P&a,const P&b){ return a!=b; }
 P use_pow(const P&a){ return pow(a,3); }
 P use_addc(const P&a,const ZZ&b){ return a+b; }
 P use_subc(const P&a,const ZZ&b){ return a-b; }
 P use_cadd(const P&a,const ZZ&b){ return b+a; }
 P use_csub(const P&a,const ZZ&b){ return b-a; }
 P use_mulc(const P&a,const ZZ&b){ return a*b; }
 P use_cmul(const P&a,const ZZ&b){ return b*a; }
}
namespace clpoly {
 P use_ai(const P&a,int64_t b){ return a+b; }
 P use_ia(const P&a,int64_t b){ return b+a; }
 P use_si(const P&a,int64_t b){ return a-b; }
 P use_is(const P&a,int64_t b){ return b-a; }
 P use_am(const P&a,const monomial&b){ return a+b; }
 P use_ma(const P&a,const monomial&b){ return b+a; }
 P use_sm(const P&a,const monomial&b){ return a-b; }
 P use_ms(const P&a,const monomial&b){ return b-a; }
}
namespace clpoly { template void pair_vec_div(PV&,PV&,const PV&,const PV&,const grlex&); template void polynomial_div(P&,P&,const P&,const P&); template void polynomial_div(P&,const P&,const P&); P use_rem(const P&a,const P&b){ return polynomial_rem(a,b); } }
