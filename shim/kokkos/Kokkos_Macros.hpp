// Model-checking stand-in for Kokkos (see /verif/DESIGN.md, "controlled Kokkos").
#ifndef MCK_KOKKOS_MACROS_HPP
#define MCK_KOKKOS_MACROS_HPP
#define KOKKOS_VERSION 30701
#define KOKKOS_VERSION_MAJOR 3
#define KOKKOS_VERSION_MINOR 7
#define KOKKOS_VERSION_PATCH 1
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_ENABLE_OPENMP
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_IMPL_DEVICE_FUNCTION
#define KOKKOS_ASSERT(...) ((void)0)
#define KOKKOS_EXPECTS(...) ((void)0)
#define KOKKOS_ENSURES(...) ((void)0)
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_IF_ON_HOST(CODE) { KOKKOS_IMPL_STRIP_PARENS(CODE) }
#define KOKKOS_IF_ON_DEVICE(CODE) {}
#define KOKKOS_IMPL_STRIP_PARENS(X) KOKKOS_IMPL_ESC(KOKKOS_IMPL_ISH X)
#define KOKKOS_IMPL_ISH(...) KOKKOS_IMPL_ISH __VA_ARGS__
#define KOKKOS_IMPL_ESC(...) KOKKOS_IMPL_ESC_(__VA_ARGS__)
#define KOKKOS_IMPL_ESC_(...) KOKKOS_IMPL_VAN_##__VA_ARGS__
#define KOKKOS_IMPL_VAN_KOKKOS_IMPL_ISH
#endif
