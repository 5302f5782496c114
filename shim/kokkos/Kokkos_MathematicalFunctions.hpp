#ifndef MCK_KOKKOS_MATH_HPP
#define MCK_KOKKOS_MATH_HPP
#include <cmath>
#include <cstdlib>
#define MCK_MATHS(X)                                                                             \
  X(fabs) X(fmod) X(fmax) X(fmin) X(fma) X(fdim) X(exp) X(exp2) X(expm1) X(log) X(log10) X(log2) \
  X(log1p) X(pow) X(sqrt) X(cbrt) X(hypot) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(atan2) \
  X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(erf) X(erfc) X(tgamma) X(lgamma) X(ceil)  \
  X(floor) X(trunc) X(round) X(nearbyint) X(isfinite) X(isinf) X(isnan) X(remainder) X(abs)      \
  X(copysign) X(signbit)
namespace Kokkos
{
#define X(f) using std::f;
MCK_MATHS(X)
namespace Experimental
{
MCK_MATHS(X)
}
#undef X
template <class T>
constexpr const T &
max(const T & a, const T & b)
{
  return a < b ? b : a;
}
template <class T>
constexpr const T &
min(const T & a, const T & b)
{
  return b < a ? b : a;
}
template <class T>
constexpr const T &
clamp(const T & v, const T & lo, const T & hi)
{
  return v < lo ? lo : (hi < v ? hi : v);
}
} // namespace Kokkos
#undef MCK_MATHS
#endif
