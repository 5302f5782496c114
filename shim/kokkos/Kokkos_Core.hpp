// Model-checking stand-in for the part of Kokkos that ppkMHD uses.
//
// It executes kernels sequentially, one iteration at a time, in an order the
// checker chooses, checks every View access against the extents, and can
// record the memory footprint of each iteration, so that a checker decides for
// each executed kernel whether its iterations commute (then every thread
// schedule gives this one result).
#ifndef MCK_KOKKOS_CORE_HPP
#define MCK_KOKKOS_CORE_HPP

#include <Kokkos_Macros.hpp>

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- runtime
namespace mck
{

//! order in which the iterations of a kernel are executed
enum class Order : int
{
  FORWARD = 0,
  REVERSE = 1,
  EVENODD = 2, // all even iterations, then all odd ones, backwards
  STRIDED = 3, // as two threads in lock step: 0, n/2, 1, n/2+1, ...
  SHUFFLE = 4  // a fixed pseudo-random permutation (seeded)
};

struct Touch
{
  const char * addr;
  unsigned     size;
  unsigned     atomics;  // number of atomic operations on it
  unsigned     accesses; // number of accesses
  uint64_t     before;   // value before the iteration (size <= 8)
};

struct Runtime
{
  Order    order = Order::FORWARD;
  unsigned shuffle_seed = 1;
  bool     track = false;     // record footprints
  bool     in_kernel = false; // inside an iteration
  uint64_t kernels = 0, iterations = 0;

  // footprint of the iteration being executed
  std::vector<Touch> touched;

  // called at the end of each kernel / iteration when tracking
  void (*on_kernel_begin)(const char * name, long n) = nullptr;
  void (*on_iteration_end)(long it) = nullptr;
  void (*on_kernel_end)(const char * name, long n) = nullptr;
  // called when an index is out of range; must not return
  void (*on_oob)(const char * label, int dim, long long idx, long long ext) = nullptr;
};

inline Runtime &
rt()
{
  static Runtime r;
  return r;
}

[[noreturn]] inline void
oob(const char * label, int dim, long long idx, long long ext)
{
  if (rt().on_oob)
    rt().on_oob(label, dim, idx, ext);
  std::fflush(stdout);
  std::fprintf(stderr,
               "MCK-OOB: view '%s' index[%d]=%lld out of range [0,%lld)\n",
               label,
               dim,
               idx,
               ext);
  std::fflush(stderr);
  std::_Exit(97);
}

inline void
touch(const void * p, unsigned size)
{
  Runtime & r = rt();
  if (!r.in_kernel)
    return;
  for (auto it = r.touched.rbegin(); it != r.touched.rend() && it - r.touched.rbegin() < 16; ++it)
    if (it->addr == p)
    {
      it->accesses++;
      return;
    }
  Touch t;
  t.addr = static_cast<const char *>(p);
  t.size = size;
  t.atomics = 0;
  t.accesses = 1;
  t.before = 0;
  std::memcpy(&t.before, p, size > 8 ? 8 : size);
  r.touched.push_back(t);
}

inline void
touch_atomic(const void * p)
{
  Runtime & r = rt();
  if (!r.in_kernel)
    return;
  for (auto it = r.touched.rbegin(); it != r.touched.rend(); ++it)
    if (it->addr == p)
    {
      it->atomics++;
      return;
    }
}

template <class F>
void
run_iteration(long it, F && f)
{
  Runtime & r = rt();
  ++r.iterations;
  if (r.track)
  {
    r.touched.clear();
    r.in_kernel = true;
    f();
    r.in_kernel = false;
    if (r.on_iteration_end)
      r.on_iteration_end(it);
  }
  else
    f();
}

//! executes body(it) for each it in [0,n) in the chosen order
template <class F>
void
run_kernel(const std::string & name, long n, F && body)
{
  Runtime & r = rt();
  ++r.kernels;
  if (r.track && r.on_kernel_begin)
    r.on_kernel_begin(name.c_str(), n);
  auto one = [&](long it) { run_iteration(it, [&] { body(it); }); };
  switch (r.order)
  {
    case Order::FORWARD:
      for (long i = 0; i < n; ++i)
        one(i);
      break;
    case Order::REVERSE:
      for (long i = n - 1; i >= 0; --i)
        one(i);
      break;
    case Order::EVENODD:
      for (long i = 0; i < n; i += 2)
        one(i);
      for (long i = ((n & 1) ? n - 2 : n - 1); i > 0; i -= 2)
        one(i);
      break;
    case Order::STRIDED:
    {
      const long h = (n + 1) / 2;
      for (long i = 0; i < h; ++i)
      {
        one(i);
        if (i + h < n)
          one(i + h);
      }
      break;
    }
    case Order::SHUFFLE:
    {
      std::vector<long> p(n);
      for (long i = 0; i < n; ++i)
        p[i] = i;
      uint64_t s = r.shuffle_seed * 0x9E3779B97F4A7C15ull + 12345;
      for (long i = n - 1; i > 0; --i)
      {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        std::swap(p[i], p[s % (i + 1)]);
      }
      for (long i = 0; i < n; ++i)
        one(p[i]);
      break;
    }
  }
  if (r.track && r.on_kernel_end)
    r.on_kernel_end(name.c_str(), n);
}

} // namespace mck

namespace Kokkos
{

// ---------------------------------------------------------------- tags
struct LayoutLeft
{};
struct LayoutRight
{};
struct HostSpace
{
  using memory_space = HostSpace;
  static constexpr const char * name() { return "Host"; }
};
struct OpenMP
{
  using execution_space = OpenMP;
  using memory_space = HostSpace;
  using array_layout = LayoutRight;
  using device_type = OpenMP;
  void fence() const {}
  void fence(const std::string &) const {}
  static constexpr const char * name() { return "OpenMP"; }
  static int concurrency() { return 1; }
};
using Serial = OpenMP;
using DefaultExecutionSpace = OpenMP;
using DefaultHostExecutionSpace = OpenMP;
struct AUTO_t
{};
inline constexpr AUTO_t AUTO{};
struct ALL_t
{};
inline constexpr ALL_t ALL{};
template <unsigned F>
struct MemoryTraits
{};
enum
{
  Unmanaged = 1,
  RandomAccess = 2,
  Atomic = 4,
  Restrict = 8
};
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
struct WithoutInitializing_t
{};
inline constexpr WithoutInitializing_t WithoutInitializing{};

template <class... Args>
struct ViewAlloc
{
  std::string label;
};
inline ViewAlloc<>
view_alloc()
{
  return {};
}
namespace Impl
{
inline void put(std::string &) {}
template <class A, class... R>
void
put(std::string & s, const A & a, const R &... r)
{
  if constexpr (std::is_convertible_v<A, std::string>)
    s = a;
  put(s, r...);
}
} // namespace Impl
template <class... Args>
ViewAlloc<Args...>
view_alloc(const Args &... args)
{
  ViewAlloc<Args...> v;
  Impl::put(v.label, args...);
  return v;
}
template <class... Args>
ViewAlloc<Args...>
ViewAllocateWithoutInitializing(const Args &... args)
{
  return view_alloc(args...);
}

// ---------------------------------------------------------------- lifetime
struct InitArguments
{};
struct InitializationSettings
{};
inline void initialize() {}
inline void initialize(int &, char **) {}
inline void initialize(const InitArguments &) {}
inline void initialize(const InitializationSettings &) {}
inline void finalize() {}
inline bool is_initialized() { return true; }
struct ScopeGuard
{
  ScopeGuard() {}
  ScopeGuard(int &, char **) {}
};
inline void fence() {}
inline void fence(const std::string &) {}
inline void
print_configuration(std::ostream & os, bool = false)
{
  os << "mck\n";
}
[[noreturn]] inline void
abort(const char * msg)
{
  std::fflush(stdout);
  std::fprintf(stderr, "Kokkos::abort: %s\n", msg);
  std::abort();
}
namespace hwloc
{
inline bool available() { return false; }
inline unsigned get_available_numa_count() { return 1; }
inline unsigned get_available_cores_per_numa() { return 1; }
inline unsigned get_available_threads_per_core() { return 1; }
} // namespace hwloc

class Timer
{
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

public:
  void reset() { t0 = std::chrono::steady_clock::now(); }
  double
  seconds() const
  {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  }
};

template <class T1, class T2>
struct pair
{
  using first_type = T1;
  using second_type = T2;
  T1 first{};
  T2 second{};
  pair() = default;
  pair(const T1 & a, const T2 & b)
    : first(a)
    , second(b)
  {}
};
template <class T1, class T2>
pair<T1, T2>
make_pair(T1 a, T2 b)
{
  return { a, b };
}

// ---------------------------------------------------------------- Array
template <class T = void, size_t N = ~size_t(0), class P = void>
struct Array
{
  T m_internal[N ? N : 1];
  using value_type = T;
  using size_type = size_t;
  static constexpr size_t size() { return N; }
  static constexpr bool empty() { return N == 0; }
  static constexpr size_t max_size() { return N; }
  static void
  chk(long long i)
  {
    if (i < 0 || i >= (long long)N)
      mck::oob("Kokkos::Array", 0, i, N);
  }
  template <class I>
  T &
  operator[](const I & i)
  {
    chk((long long)i);
    return m_internal[(long long)i];
  }
  template <class I>
  const T &
  operator[](const I & i) const
  {
    chk((long long)i);
    return m_internal[(long long)i];
  }
  T * data() { return m_internal; }
  const T * data() const { return m_internal; }
  T * begin() { return m_internal; }
  T * end() { return m_internal + N; }
  const T * begin() const { return m_internal; }
  const T * end() const { return m_internal + N; }
};

// ---------------------------------------------------------------- View
namespace Impl
{
template <class D>
struct DataType
{
  using value_type = D;
  static constexpr int rank = 0;
};
template <class D>
struct DataType<D *>
{
  using value_type = typename DataType<D>::value_type;
  static constexpr int rank = DataType<D>::rank + 1;
};
template <class D, size_t N>
struct DataType<D[N]>
{
  using value_type = typename DataType<D>::value_type;
  static constexpr int rank = DataType<D>::rank + 1;
};
template <class D>
struct StaticExt
{
  static void get(std::vector<size_t> &) {}
};
template <class D>
struct StaticExt<D *>
{
  static void get(std::vector<size_t> & v) { StaticExt<D>::get(v); }
};
template <class D, size_t N>
struct StaticExt<D[N]>
{
  static void
  get(std::vector<size_t> & v)
  {
    v.push_back(N);
    StaticExt<D>::get(v);
  }
};
template <class... P>
struct PickLayout
{
  using type = LayoutRight;
};
template <class A, class... P>
struct PickLayout<A, P...>
{
  using type = typename PickLayout<P...>::type;
};
template <class... P>
struct PickLayout<LayoutLeft, P...>
{
  using type = LayoutLeft;
};
} // namespace Impl

template <class D, class... Props>
class View
{
public:
  using data_type = D;
  using traits = View;
  using value_type = typename Impl::DataType<D>::value_type;
  using non_const_value_type = std::remove_const_t<value_type>;
  using const_value_type = const non_const_value_type;
  using array_layout = typename Impl::PickLayout<Props...>::type;
  using execution_space = OpenMP;
  using memory_space = HostSpace;
  using device_type = OpenMP;
  using size_type = size_t;
  using reference_type = value_type &;
  using pointer_type = value_type *;
  using HostMirror = View;
  using host_mirror_type = View;
  using non_const_type = View;
  static constexpr int rank = Impl::DataType<D>::rank;
  static constexpr int Rank = rank;

  View() = default;
  template <class D2,
            class... P2,
            class = std::enable_if_t<
              !std::is_same_v<View, View<D2, P2...>> &&
              Impl::DataType<D2>::rank == Impl::DataType<D>::rank &&
              std::is_convertible_v<typename Impl::DataType<D2>::value_type *,
                                    typename Impl::DataType<D>::value_type *>>>
  View(const View<D2, P2...> & o)
  {
    adopt(o);
  }
  template <class... I, class = std::enable_if_t<(std::is_convertible_v<I, size_t> && ...)>>
  explicit View(const std::string & label, I... n)
  {
    allocate(label, { (size_t)n... });
  }
  template <class... I, class = std::enable_if_t<(std::is_convertible_v<I, size_t> && ...)>>
  explicit View(const char * label, I... n)
  {
    allocate(label, { (size_t)n... });
  }
  template <class... A, class... I>
  explicit View(const ViewAlloc<A...> & a, I... n)
  {
    allocate(a.label, { (size_t)n... });
  }
  template <class... I, class = std::enable_if_t<(std::is_convertible_v<I, size_t> && ...)>>
  explicit View(value_type * p, I... n)
  {
    set_extents({ (size_t)n... });
    ptr = p;
    lab = std::make_shared<std::string>("unmanaged");
  }

  template <class... I>
  value_type &
  operator()(I... idx) const
  {
    static_assert(sizeof...(I) == (size_t)rank, "wrong number of indices");
    const long long ix[sizeof...(I) + 1] = { (long long)idx..., 0 };
    size_t          off = 0;
    for (int d = 0; d < rank; ++d)
    {
      if (__builtin_expect((unsigned long long)ix[d] >= (unsigned long long)ext[d], 0))
        mck::oob(lab ? lab->c_str() : "(unallocated)", d, ix[d], ext[d]);
      off += (size_t)ix[d] * str[d];
    }
    value_type * p = ptr + off;
    if (__builtin_expect(mck::rt().track, 0))
      mck::touch(p, sizeof(value_type));
    return *p;
  }
  template <class... I>
  value_type &
  access(I... idx) const
  {
    return (*this)(idx...);
  }
  template <class I>
  value_type &
  operator[](I i) const
  {
    return (*this)(i);
  }

  size_t extent(int d) const { return d < rank ? ext[d] : 1; }
  int    extent_int(int d) const { return (int)extent(d); }
  size_t dimension_0() const { return extent(0); }
  size_t dimension_1() const { return extent(1); }
  size_t dimension_2() const { return extent(2); }
  size_t dimension_3() const { return extent(3); }
  size_t stride(int d) const { return str[d]; }
  size_t stride_0() const { return str[0]; }
  template <class I>
  void
  stride(I * s) const
  {
    for (int d = 0; d < rank; ++d)
      s[d] = str[d];
  }
  size_t
  size() const
  {
    size_t n = 1;
    for (int d = 0; d < rank; ++d)
      n *= ext[d];
    return n;
  }
  size_t       span() const { return size(); }
  bool         span_is_contiguous() const { return contiguous; }
  value_type * data() const { return ptr; }
  value_type * ptr_on_device() const { return ptr; }
  bool         is_allocated() const { return ptr != nullptr; }
  long         use_count() const { return own.use_count(); }
  std::string  label() const { return lab ? *lab : std::string(); }
  static size_t
  required_allocation_size(size_t a = 1, size_t b = 1, size_t c = 1, size_t d = 1)
  {
    return a * b * c * d * sizeof(value_type);
  }

  void
  set_extents(const std::vector<size_t> & n)
  {
    std::vector<size_t> st;
    Impl::StaticExt<D>::get(st);
    for (int d = 0; d < rank; ++d)
    {
      if (d < (int)n.size())
        ext[d] = n[d];
      else if (d - (rank - (int)st.size()) >= 0)
        ext[d] = st[d - (rank - (int)st.size())];
      else
        ext[d] = 0;
    }
    size_t s = 1;
    if constexpr (std::is_same_v<array_layout, LayoutLeft>)
      for (int d = 0; d < rank; ++d)
      {
        str[d] = s;
        s *= ext[d];
      }
    else
      for (int d = rank - 1; d >= 0; --d)
      {
        str[d] = s;
        s *= ext[d];
      }
  }
  void
  allocate(const std::string & label, const std::vector<size_t> & n)
  {
    set_extents(n);
    size_t cnt = size();
    // calloc: Kokkos zero-initialises Views
    auto * raw =
      static_cast<non_const_value_type *>(std::calloc(cnt ? cnt : 1, sizeof(non_const_value_type)));
    if (!raw)
      throw std::bad_alloc();
    own = std::shared_ptr<void>(raw, [](void * p) { std::free(p); });
    ptr = raw;
    lab = std::make_shared<std::string>(label);
  }
  template <class V>
  void
  adopt(const V & o)
  {
    ptr = o.ptr;
    own = o.own;
    lab = o.lab;
    contiguous = o.contiguous;
    for (int d = 0; d < rank; ++d)
    {
      ext[d] = o.ext[d];
      str[d] = o.str[d];
    }
  }

  value_type *                 ptr = nullptr;
  std::shared_ptr<void>        own;
  std::shared_ptr<std::string> lab;
  size_t                       ext[rank > 0 ? rank : 1] = {};
  size_t                       str[rank > 0 ? rank : 1] = {};
  bool                         contiguous = true;
};

template <class T>
struct is_view : std::false_type
{};
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type
{};

namespace Impl
{
template <class V, class F>
void
for_all(const V & v, F && f)
{
  // iterate over all multi-indices
  constexpr int R = V::rank;
  size_t        n = v.size();
  for (size_t lin = 0; lin < n; ++lin)
  {
    size_t r = lin;
    size_t ix[R > 0 ? R : 1];
    for (int d = R - 1; d >= 0; --d)
    {
      ix[d] = r % v.ext[d];
      r /= v.ext[d];
    }
    f(ix);
  }
}
template <class V>
auto &
at(const V & v, const size_t * ix)
{
  size_t off = 0;
  for (int d = 0; d < V::rank; ++d)
    off += ix[d] * v.str[d];
  return v.ptr[off];
}
} // namespace Impl

template <class D1, class... P1, class D2, class... P2>
void
deep_copy(const View<D1, P1...> & dst, const View<D2, P2...> & src)
{
  static_assert(View<D1, P1...>::rank == View<D2, P2...>::rank, "deep_copy rank mismatch");
  for (int d = 0; d < View<D1, P1...>::rank; ++d)
    if (dst.ext[d] != src.ext[d])
    {
      std::fprintf(stderr,
                   "MCK-ERR: deep_copy extents mismatch %s %s dim %d: %zu %zu\n",
                   dst.label().c_str(),
                   src.label().c_str(),
                   d,
                   dst.ext[d],
                   src.ext[d]);
      throw std::runtime_error("Kokkos::deep_copy extents mismatch");
    }
  if ((const void *)dst.ptr == (const void *)src.ptr)
    return;
  Impl::for_all(dst, [&](const size_t * ix) { Impl::at(dst, ix) = Impl::at(src, ix); });
}
template <class D1, class... P1>
void
deep_copy(const View<D1, P1...> & dst, const typename View<D1, P1...>::const_value_type & val)
{
  Impl::for_all(dst, [&](const size_t * ix) { Impl::at(dst, ix) = val; });
}
template <class E, class D1, class... P1, class S>
auto
deep_copy(const E &, const View<D1, P1...> & dst, const S & src)
  -> std::enable_if_t<!is_view<E>::value>
{
  deep_copy(dst, src);
}

template <class D, class... P>
View<D, P...>
create_mirror(const View<D, P...> & v)
{
  View<D, P...>       m;
  std::vector<size_t> n(v.ext, v.ext + View<D, P...>::rank);
  m.allocate(v.label() + "_mirror", n);
  return m;
}
template <class E, class D, class... P>
View<D, P...>
create_mirror(const E &, const View<D, P...> & v)
{
  return create_mirror(v);
}
template <class D, class... P>
View<D, P...>
create_mirror_view(const View<D, P...> & v)
{
  return v;
}
template <class E, class D, class... P>
View<D, P...>
create_mirror_view(const E &, const View<D, P...> & v)
{
  return v;
}
template <class E, class D, class... P>
View<D, P...>
create_mirror_view_and_copy(const E &, const View<D, P...> & v)
{
  return v;
}

template <class D, class... P, class... I>
void
resize(View<D, P...> & v, I... n)
{
  View<D, P...> w;
  w.allocate(v.label(), { (size_t)n... });
  if (v.ptr)
    Impl::for_all(w, [&](const size_t * ix) {
      for (int d = 0; d < View<D, P...>::rank; ++d)
        if (ix[d] >= v.ext[d])
          return;
      Impl::at(w, ix) = Impl::at(v, ix);
    });
  v = w;
}
template <class D, class... P, class... I>
void
realloc(View<D, P...> & v, I... n)
{
  View<D, P...> w;
  w.allocate(v.label(), { (size_t)n... });
  v = w;
}

// subview: ranges, ALL, and integers
namespace Impl
{
template <class T, int R>
struct Ptrs
{
  using type = typename Ptrs<T, R - 1>::type *;
};
template <class T>
struct Ptrs<T, 0>
{
  using type = T;
};
template <class A>
struct IsRange
{
  static constexpr int v = std::is_integral_v<A> || std::is_enum_v<A> ? 0 : 1;
};
inline void rng(const ALL_t &, size_t ext, size_t & b, size_t & e, bool & keep)
{
  b = 0;
  e = ext;
  keep = true;
}
template <class A, class B>
void
rng(const std::pair<A, B> & p, size_t, size_t & b, size_t & e, bool & keep)
{
  b = p.first;
  e = p.second;
  keep = true;
}
template <class A, class B>
void
rng(const pair<A, B> & p, size_t, size_t & b, size_t & e, bool & keep)
{
  b = p.first;
  e = p.second;
  keep = true;
}
template <class A>
std::enable_if_t<std::is_integral_v<A> || std::is_enum_v<A>>
rng(const A & i, size_t, size_t & b, size_t & e, bool & keep)
{
  b = (size_t)i;
  e = b + 1;
  keep = false;
}
} // namespace Impl

template <class D, class... P, class... A>
auto
subview(const View<D, P...> & v, const A &... args)
{
  using V = View<D, P...>;
  static_assert(sizeof...(A) == V::rank);
  constexpr int R = (Impl::IsRange<A>::v + ... + 0);
  using W = View<typename Impl::Ptrs<typename V::value_type, R>::type, typename V::array_layout>;
  W      w;
  size_t b[V::rank], e[V::rank];
  bool   keep[V::rank];
  int    d = 0;
  ((Impl::rng(args, v.ext[d], b[d], e[d], keep[d]), ++d), ...);
  size_t off = 0;
  int    k = 0;
  for (d = 0; d < V::rank; ++d)
  {
    if (e[d] > v.ext[d] || b[d] > e[d])
      mck::oob(v.label().c_str(), d, e[d], v.ext[d]);
    off += b[d] * v.str[d];
    if (keep[d])
    {
      w.ext[k] = e[d] - b[d];
      w.str[k] = v.str[d];
      ++k;
    }
  }
  w.ptr = v.ptr + off;
  w.own = v.own;
  w.lab = v.lab;
  w.contiguous = false;
  return w;
}

// ---------------------------------------------------------------- policies
struct IterateDefault
{};
enum class Iterate
{
  Default,
  Left,
  Right
};
template <unsigned N, Iterate = Iterate::Default, Iterate = Iterate::Default>
struct Rank
{
  static constexpr int rank = N;
};
template <class T>
struct IndexType
{
  using type = T;
};
struct Static
{};
struct Dynamic
{};
template <class T>
struct Schedule
{};
template <unsigned A, unsigned B = 0>
struct LaunchBounds
{};

namespace Impl
{
template <class T>
struct is_policy_trait : std::false_type
{};
template <unsigned N, Iterate A, Iterate B>
struct is_policy_trait<Rank<N, A, B>> : std::true_type
{};
template <class T>
struct is_policy_trait<IndexType<T>> : std::true_type
{};
template <class T>
struct is_policy_trait<Schedule<T>> : std::true_type
{};
template <unsigned A, unsigned B>
struct is_policy_trait<LaunchBounds<A, B>> : std::true_type
{};
template <>
struct is_policy_trait<OpenMP> : std::true_type
{};
template <>
struct is_policy_trait<void> : std::true_type
{};
template <class... P>
struct WorkTag
{
  using type = void;
};
template <class A, class... P>
struct WorkTag<A, P...>
{
  using type = std::conditional_t<is_policy_trait<A>::value || std::is_integral_v<A>,
                                  typename WorkTag<P...>::type,
                                  A>;
};
template <class... P>
struct RankOf
{
  static constexpr int v = 0;
};
template <class A, class... P>
struct RankOf<A, P...>
{
  static constexpr int v = RankOf<P...>::v;
};
template <unsigned N, Iterate A, Iterate B, class... P>
struct RankOf<Rank<N, A, B>, P...>
{
  static constexpr int v = N;
};
} // namespace Impl

template <class... P>
struct RangePolicy
{
  using work_tag = typename Impl::WorkTag<P...>::type;
  using index_type = int64_t;
  using member_type = int64_t;
  int64_t b = 0, e = 0;
  RangePolicy(int64_t b, int64_t e)
    : b(b)
    , e(e)
  {}
  template <class E, class = std::enable_if_t<!std::is_integral_v<E>>>
  RangePolicy(const E &, int64_t b, int64_t e)
    : b(b)
    , e(e)
  {}
  int64_t begin() const { return b; }
  int64_t end() const { return e; }
  RangePolicy & set_chunk_size(int) { return *this; }
};

template <class... P>
struct MDRangePolicy
{
  static constexpr int rank = Impl::RankOf<P...>::v;
  using work_tag = typename Impl::WorkTag<P...>::type;
  using point_type = Array<int64_t, rank>;
  using tile_type = Array<int64_t, rank>;
  using index_type = int64_t;
  int64_t lo[rank], hi[rank];
  template <class T, class U>
  MDRangePolicy(std::initializer_list<T> a, std::initializer_list<U> b)
  {
    set(a, b);
  }
  template <class T, class U, class W>
  MDRangePolicy(std::initializer_list<T> a, std::initializer_list<U> b, std::initializer_list<W>)
  {
    set(a, b);
  }
  template <class T, size_t N, class U, size_t M>
  MDRangePolicy(const Array<T, N> & a, const Array<U, M> & b)
  {
    set(a, b);
  }
  template <class T, size_t N, class U, size_t M, class W, size_t L>
  MDRangePolicy(const Array<T, N> & a, const Array<U, M> & b, const Array<W, L> &)
  {
    set(a, b);
  }
  template <class T, class U, size_t N>
  MDRangePolicy(const T (&a)[N], const U (&b)[N])
  {
    for (int d = 0; d < rank; ++d)
    {
      lo[d] = a[d];
      hi[d] = b[d];
    }
  }
  template <class A, class B>
  void
  set(const A & a, const B & b)
  {
    int d = 0;
    for (auto x : a)
      lo[d++] = x;
    d = 0;
    for (auto x : b)
      hi[d++] = x;
  }
};

// minimal team policy: a league of one-thread teams
struct TeamMember
{
  int  league, leagues;
  int  league_rank() const { return league; }
  int  league_size() const { return leagues; }
  int  team_rank() const { return 0; }
  int  team_size() const { return 1; }
  void team_barrier() const {}
};
template <class... P>
struct TeamPolicy
{
  using member_type = TeamMember;
  using work_tag = typename Impl::WorkTag<P...>::type;
  int league;
  template <class... X>
  TeamPolicy(int l, X...)
    : league(l)
  {}
};
struct TeamRange
{
  int64_t b, e;
};
template <class M, class I>
TeamRange
TeamThreadRange(const M &, I n)
{
  return { 0, (int64_t)n };
}
template <class M, class I, class J>
TeamRange
TeamThreadRange(const M &, I b, J e)
{
  return { (int64_t)b, (int64_t)e };
}
template <class M, class I>
TeamRange
ThreadVectorRange(const M &, I n)
{
  return { 0, (int64_t)n };
}
template <class M, class I>
TeamRange
TeamVectorRange(const M &, I n)
{
  return { 0, (int64_t)n };
}

// ---------------------------------------------------------------- reducers
template <class T>
struct reduction_identity
{
  static T sum() { return T(0); }
  static T prod() { return T(1); }
  static T
  max()
  {
    return std::numeric_limits<T>::lowest();
  }
  static T
  min()
  {
    return std::numeric_limits<T>::max();
  }
};
namespace Impl
{
struct ReducerBase
{};
} // namespace Impl
#define MCK_REDUCER(NAME, INIT, JOIN)                           \
  template <class T, class S = HostSpace>                       \
  struct NAME : Impl::ReducerBase                               \
  {                                                             \
    using reducer = NAME;                                       \
    using value_type = std::remove_cv_t<T>;                     \
    value_type * r;                                             \
    NAME(value_type & v)                                        \
      : r(&v)                                                   \
    {}                                                          \
    template <class DD, class... PP>                            \
    NAME(const View<DD, PP...> & v)                             \
      : r(v.data())                                             \
    {}                                                          \
    void                                                        \
    init(value_type & v) const                                  \
    {                                                           \
      v = INIT;                                                 \
    }                                                           \
    void                                                        \
    join(value_type & a, const value_type & b) const            \
    {                                                           \
      JOIN;                                                     \
    }                                                           \
    value_type & reference() const { return *r; }               \
  };
MCK_REDUCER(Sum, value_type(0), a += b)
MCK_REDUCER(Prod, value_type(1), a *= b)
MCK_REDUCER(Max, reduction_identity<value_type>::max(), if (a < b) a = b)
MCK_REDUCER(Min, reduction_identity<value_type>::min(), if (b < a) a = b)
MCK_REDUCER(LAnd, value_type(1), a = a && b)
MCK_REDUCER(LOr, value_type(0), a = a || b)
#undef MCK_REDUCER
template <class T, class S = HostSpace>
struct MinMaxScalar
{
  T min_val, max_val;
};

// ---------------------------------------------------------------- dispatch
namespace Impl
{
template <class Tag, class F, class... A>
void
call(const F & f, A &&... a)
{
  if constexpr (std::is_void_v<Tag>)
    f(std::forward<A>(a)...);
  else
    f(Tag{}, std::forward<A>(a)...);
}

template <class... P, class B>
void
drive(const std::string & name, const RangePolicy<P...> & p, B && body)
{
  mck::run_kernel(name, p.e > p.b ? p.e - p.b : 0, [&](long it) {
    body.template operator()<typename RangePolicy<P...>::work_tag>((int64_t)(p.b + it));
  });
}
template <class... P, class B>
void
drive(const std::string & name, const MDRangePolicy<P...> & p, B && body)
{
  using Pol = MDRangePolicy<P...>;
  using Tag = typename Pol::work_tag;
  long n = 1, L[Pol::rank];
  for (int d = 0; d < Pol::rank; ++d)
  {
    L[d] = p.hi[d] > p.lo[d] ? p.hi[d] - p.lo[d] : 0;
    n *= L[d];
  }
  mck::run_kernel(name, n, [&](long it) {
    int  ix[6] = { 0, 0, 0, 0, 0, 0 };
    long r = it;
    for (int d = Pol::rank - 1; d >= 0; --d)
    {
      ix[d] = (int)(p.lo[d] + r % L[d]);
      r /= L[d];
    }
    if constexpr (Pol::rank == 1)
      body.template operator()<Tag>(ix[0]);
    else if constexpr (Pol::rank == 2)
      body.template operator()<Tag>(ix[0], ix[1]);
    else if constexpr (Pol::rank == 3)
      body.template operator()<Tag>(ix[0], ix[1], ix[2]);
    else if constexpr (Pol::rank == 4)
      body.template operator()<Tag>(ix[0], ix[1], ix[2], ix[3]);
    else if constexpr (Pol::rank == 5)
      body.template operator()<Tag>(ix[0], ix[1], ix[2], ix[3], ix[4]);
    else
      body.template operator()<Tag>(ix[0], ix[1], ix[2], ix[3], ix[4], ix[5]);
  });
}
template <class... P, class B>
void
drive(const std::string & name, const TeamPolicy<P...> & p, B && body)
{
  mck::run_kernel(name, p.league, [&](long it) {
    body.template operator()<typename TeamPolicy<P...>::work_tag>(TeamMember{ (int)it, p.league });
  });
}

template <class F>
struct ForBody
{
  const F & f;
  template <class Tag, class... A>
  void
  operator()(A &&... a) const
  {
    call<Tag>(f, std::forward<A>(a)...);
  }
};
template <class F, class T>
struct RedBody
{
  const F & f;
  T &       acc;
  template <class Tag, class... A>
  void
  operator()(A &&... a) const
  {
    call<Tag>(f, std::forward<A>(a)..., acc);
  }
};
template <class F, class T>
struct ScanBody
{
  const F & f;
  T &       acc;
  template <class Tag, class... A>
  void
  operator()(A &&... a) const
  {
    call<Tag>(f, std::forward<A>(a)..., acc, true);
  }
};
template <class I>
using EnableIntegral = std::enable_if_t<std::is_integral_v<I>>;

template <class F, class T, class = void>
struct has_init : std::false_type
{};
template <class F, class T>
struct has_init<F, T, std::void_t<decltype(std::declval<const F &>().init(std::declval<T &>()))>>
  : std::true_type
{};
template <class F, class T, class = void>
struct has_final : std::false_type
{};
template <class F, class T>
struct has_final<F, T, std::void_t<decltype(std::declval<const F &>().final(std::declval<T &>()))>>
  : std::true_type
{};
template <class F, class T, class = void>
struct has_join : std::false_type
{};
template <class F, class T>
struct has_join<F,
                T,
                std::void_t<decltype(std::declval<const F &>().join(std::declval<T &>(),
                                                                    std::declval<const T &>()))>>
  : std::true_type
{};

//! one accumulator per simulated thread: iterations are dealt to `threads`
//! accumulators which are joined at the end
template <class Policy, class F, class T>
void
reduce_into(const std::string & name, const Policy & p, const F & f, T & out)
{
  T acc;
  if constexpr (has_init<F, T>::value)
    f.init(acc);
  else
    acc = T();
  drive(name, p, RedBody<F, T>{ f, acc });
  if constexpr (has_join<F, T>::value)
  {
    // join with a second, empty thread accumulator
    T acc2;
    if constexpr (has_init<F, T>::value)
      f.init(acc2);
    else
      acc2 = T();
    f.join(acc, acc2);
  }
  if constexpr (has_final<F, T>::value)
    f.final(acc);
  out = acc;
}
template <class Policy, class F, class R>
void
reduce_with(const std::string & name, const Policy & p, const F & f, const R & red)
{
  using T = typename R::value_type;
  T acc, acc2;
  red.init(acc);
  red.init(acc2);
  drive(name, p, RedBody<F, T>{ f, acc });
  red.join(acc, acc2);
  red.reference() = acc;
}
template <class Policy, class F, class R>
void
reduce_any(const std::string & name, const Policy & p, const F & f, R & r)
{
  if constexpr (std::is_base_of_v<ReducerBase, std::remove_const_t<R>>)
    reduce_with(name, p, f, r);
  else if constexpr (is_view<std::remove_const_t<R>>::value)
  {
    typename R::non_const_value_type v;
    reduce_into(name, p, f, v);
    *r.data() = v;
  }
  else
    reduce_into(name, p, f, r);
}
template <class X>
struct is_policy : std::false_type
{};
template <class... P>
struct is_policy<RangePolicy<P...>> : std::true_type
{};
template <class... P>
struct is_policy<MDRangePolicy<P...>> : std::true_type
{};
template <class... P>
struct is_policy<TeamPolicy<P...>> : std::true_type
{};
template <class X>
auto
as_policy(const X & x)
{
  if constexpr (is_policy<X>::value)
    return x;
  else
    return RangePolicy<>(0, (int64_t)x);
}
template <class X>
inline constexpr bool polish_v =
  is_policy<X>::value || std::is_integral_v<X> || std::is_enum_v<X>;
} // namespace Impl

template <class P, class F, class = std::enable_if_t<Impl::polish_v<P>>>
void
parallel_for(const std::string & name, const P & p, const F & f)
{
  Impl::drive(name, Impl::as_policy(p), Impl::ForBody<F>{ f });
}
template <class P, class F, class = std::enable_if_t<Impl::polish_v<P>>>
void
parallel_for(const P & p, const F & f, const std::string & name = "")
{
  Impl::drive(name, Impl::as_policy(p), Impl::ForBody<F>{ f });
}
template <class F>
void
parallel_for(const TeamRange & r, const F & f)
{
  for (int64_t i = r.b; i < r.e; ++i)
    f(i);
}
template <class P, class F, class R, class = std::enable_if_t<Impl::polish_v<P>>>
void
parallel_reduce(const std::string & name, const P & p, const F & f, R && r)
{
  Impl::reduce_any(name, Impl::as_policy(p), f, r);
}
template <class P, class F, class R, class = std::enable_if_t<Impl::polish_v<P>>>
void
parallel_reduce(const P & p, const F & f, R && r)
{
  Impl::reduce_any("", Impl::as_policy(p), f, r);
}
template <class F, class R>
void
parallel_reduce(const TeamRange & t, const F & f, R & r)
{
  r = R();
  for (int64_t i = t.b; i < t.e; ++i)
    f(i, r);
}
template <class P, class F, class T, class = std::enable_if_t<Impl::polish_v<P>>>
void
parallel_scan(const std::string & name, const P & p, const F & f, T & t)
{
  t = T();
  Impl::drive(name, Impl::as_policy(p), Impl::ScanBody<F, T>{ f, t });
}

// ---------------------------------------------------------------- atomics
#define MCK_ATOMIC(NAME, EXPR)                             \
  template <class T>                                       \
  void                                                     \
  NAME(volatile T * p, const std::common_type_t<T> & v)    \
  {                                                        \
    if (mck::rt().track)                                   \
      mck::touch_atomic(const_cast<const T *>(p));         \
    T & x = *const_cast<T *>(p);                           \
    EXPR;                                                  \
  }
MCK_ATOMIC(atomic_add, x = x + v)
MCK_ATOMIC(atomic_sub, x = x - v)
MCK_ATOMIC(atomic_store, x = v)
MCK_ATOMIC(atomic_assign, x = v)
MCK_ATOMIC(atomic_max, x = x < v ? v : x)
MCK_ATOMIC(atomic_min, x = v < x ? v : x)
#undef MCK_ATOMIC
#define MCK_FETCH(NAME, EXPR)                              \
  template <class T>                                       \
  T                                                        \
  NAME(volatile T * p, const std::common_type_t<T> & v)    \
  {                                                        \
    if (mck::rt().track)                                   \
      mck::touch_atomic(const_cast<const T *>(p));         \
    T & x = *const_cast<T *>(p);                           \
    T   o = x;                                             \
    EXPR;                                                  \
    return o;                                              \
  }
MCK_FETCH(atomic_fetch_add, x = x + v)
MCK_FETCH(atomic_fetch_sub, x = x - v)
MCK_FETCH(atomic_fetch_max, x = x < v ? v : x)
MCK_FETCH(atomic_fetch_min, x = v < x ? v : x)
MCK_FETCH(atomic_exchange, x = v)
#undef MCK_FETCH
template <class T>
void
atomic_increment(volatile T * p)
{
  atomic_add(p, T(1));
}
template <class T>
void
atomic_decrement(volatile T * p)
{
  atomic_sub(p, T(1));
}

template <class T>
inline void
kokkos_swap(T & a, T & b)
{
  std::swap(a, b);
}

} // namespace Kokkos

#include <Kokkos_MathematicalFunctions.hpp>
#include <Kokkos_MathematicalConstants.hpp>

#endif
