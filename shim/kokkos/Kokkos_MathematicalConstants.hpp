#ifndef MCK_KOKKOS_CONST_HPP
#define MCK_KOKKOS_CONST_HPP
namespace Kokkos
{
namespace Experimental
{
template <class T>
inline constexpr T pi_v = T(3.141592653589793238462643383279502884L);
inline constexpr double pi = pi_v<double>;
} // namespace Experimental
namespace numbers
{
using Experimental::pi;
using Experimental::pi_v;
} // namespace numbers
} // namespace Kokkos
#endif
