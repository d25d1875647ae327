// Included before every source: the assertions of the standard library stay on, except the one of std::polar, which is not
// a precondition of the standard for unset (NaN) voltages.
#include <cmath>
#include <sstream>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(x)
#include <complex>
#pragma pop_macro("__glibcxx_assert")
