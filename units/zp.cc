// instantiation unit for the prime field: only includes the real headers.
#include <clpoly/number.hh>
