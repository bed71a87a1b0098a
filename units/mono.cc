#include <clpoly/clpoly.hh>
namespace clpoly {
 template class basic_monomial<grlex>;
 template class basic_monomial<lex>;
 template class grlex_<less>;
 template class lex_<less>;
 template class grlex_<custom_var_order>;
 template class lex_<univariate_order>;
 typedef std::vector<std::pair<variable,int64_t>> MV;
 typedef basic_monomial<grlex> M;
 template void pair_vec_add(MV&,const MV&,const MV&,const grlex&);
 template void pair_vec_sub(MV&,const MV&,const MV&,const grlex&);
 template bool pair_vec_equal_to(const MV&,const MV&);
 template bool pair_vec_comp(const MV&,const MV&,const grlex&);
 template bool pair_vec_normal_check(const MV&,const grlex&);
 template void __mono_mult__(M&,const M&,const M&);
 template bool is_divexact(M&,const M&,const M&);
 template M lcm(const M&,const M&);
 template M gcd(const M&,const M&);
 template struct zore_check<M>;
 M use_pow(const M&a){ return pow(a,3); }
 M use_mul(const M&a,const M&b){ return a*b; }
 M use_div(const M&a,const M&b){ return a/b; }
}
