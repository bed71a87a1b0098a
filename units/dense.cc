// instantiation unit for dense univariate arithmetic over a prime field: only includes the real header.
#include <clpoly/dense_upoly_zp.hh>
