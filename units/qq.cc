#include <clpoly/number.hh>
