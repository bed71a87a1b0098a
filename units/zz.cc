// instantiation unit for the integer layer: only includes the real headers.
#include <clpoly/number.hh>
