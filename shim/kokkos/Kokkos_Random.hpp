// counter-free deterministic generator: state is a function of the seed only
#ifndef MCK_KOKKOS_RANDOM_HPP
#define MCK_KOKKOS_RANDOM_HPP
#include <Kokkos_Core.hpp>
namespace Kokkos
{
template <class Dev>
struct Random_XorShift64
{
  uint64_t s;
  uint64_t
  next()
  {
    s ^= s >> 12;
    s ^= s << 25;
    s ^= s >> 27;
    return s * 2685821657736338717ull;
  }
  uint32_t urand() { return (uint32_t)(next() >> 32); }
  uint64_t urand64() { return next(); }
  double drand() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double drand(double r) { return drand() * r; }
  double drand(double a, double b) { return a + (b - a) * drand(); }
  float frand() { return (float)drand(); }
  float frand(float a, float b) { return (float)drand(a, b); }
};
template <class Dev>
struct Random_XorShift64_Pool
{
  using generator_type = Random_XorShift64<Dev>;
  std::shared_ptr<uint64_t> s;
  Random_XorShift64_Pool(uint64_t seed = 42)
    : s(std::make_shared<uint64_t>(seed * 0x9E3779B97F4A7C15ull + 77))
  {}
  generator_type get_state() const { return generator_type{ *s }; }
  void free_state(generator_type g) const { *s = g.s; }
};
template <class D>
using Random_XorShift1024_Pool = Random_XorShift64_Pool<D>;
template <class G, class T>
struct rand
{
  static T draw(G & g) { return (T)g.drand(); }
  static T draw(G & g, T r) { return (T)g.drand(r); }
  static T draw(G & g, T a, T b) { return (T)g.drand(a, b); }
};
} // namespace Kokkos
#endif
