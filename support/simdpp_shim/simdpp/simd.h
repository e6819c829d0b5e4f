// A portable stand-in for the parts of libsimdpp used by cppcore (the library is not installed
// here): vectors are plain arrays of lanes, so that every load and store is an ordinary,
// instrumented memory access. Lane semantics follow libsimdpp on 256-bit registers (permute,
// shuffle and transpose act on groups of two or four lanes).
#pragma once
#include <immintrin.h>
#include <cstdint>
#include <cstring>
#include <complex>
#include <type_traits>

#define SIMDPP_USE_NULL 0
#define SIMDPP_USE_SSE2 0
#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0

namespace simdpp {

template<class T> struct lane_t { T value; };

#define SHIM_VEC(name, T)                                                             \
template<unsigned N, class E = void> struct name {                                    \
    using element_type = T;                                                           \
    using base_vector_type = lane_t<T>;                                               \
    static constexpr unsigned base_length = 1;                                        \
    static constexpr unsigned vec_length = N;                                         \
    static constexpr unsigned length = N;                                             \
    T v[N];                                                                           \
    name const& eval() const { return *this; }                                        \
    struct lane_ref { T& r; void operator=(lane_t<T> x) { r = x.value; } };           \
    struct pair_ref { T* r; void operator=(std::complex<T> x) { r[0] = x.real(); r[1] = x.imag(); } }; \
    lane_ref vec(unsigned i) { return {v[i]}; }                                       \
};
SHIM_VEC(float32, float)
SHIM_VEC(float64, double)
template<unsigned N, class E = void> struct uint32 { using element_type = std::uint32_t; static constexpr unsigned length = N; std::uint32_t v[N]; };
template<unsigned N, class E = void> struct uint64 { using element_type = std::uint64_t; static constexpr unsigned length = N; std::uint64_t v[N]; };

using float32x4 = float32<4>; using float32x8 = float32<8>;
using float64x2 = float64<2>; using float64x4 = float64<4>;

#define SHIM_OPS(name, T)                                                                              \
template<unsigned N> inline name<N> operator+(name<N> const& a, name<N> const& b) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = a.v[i] + b.v[i]; return r; } \
template<unsigned N> inline name<N> operator-(name<N> const& a, name<N> const& b) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = a.v[i] - b.v[i]; return r; } \
template<unsigned N> inline name<N> operator*(name<N> const& a, name<N> const& b) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = a.v[i] * b.v[i]; return r; } \
template<unsigned N> inline name<N> operator*(T a, name<N> const& b) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = a * b.v[i]; return r; } \
template<unsigned N> inline name<N> fmadd(name<N> const& a, name<N> const& b, name<N> const& c) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = a.v[i] * b.v[i] + c.v[i]; return r; } \
template<unsigned N> inline name<N> neg(name<N> const& a) { name<N> r; for (unsigned i = 0; i < N; ++i) r.v[i] = -a.v[i]; return r; } \
template<unsigned N> inline T reduce_add(name<N> const& a) { T r = 0; for (unsigned i = 0; i < N; ++i) r += a.v[i]; return r; } \
template<unsigned s0, unsigned s1, unsigned N> inline name<N> permute2(name<N> const& a) { name<N> r; for (unsigned i = 0; i < N; i += 2) { r.v[i] = a.v[i + s0]; r.v[i + 1] = a.v[i + s1]; } return r; } \
template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, unsigned N> inline name<N> shuffle4x2(name<N> const& a, name<N> const& b) { \
    constexpr unsigned s[4] = {s0, s1, s2, s3}; name<N> r;                                              \
    for (unsigned g = 0; g < N; g += 4) for (unsigned i = 0; i < 4; ++i) r.v[g + i] = s[i] < 4 ? a.v[g + s[i]] : b.v[g + s[i] - 4]; return r; } \
template<unsigned N> inline void transpose2(name<N>& a, name<N>& b) { for (unsigned i = 0; i < N; i += 2) { T t = a.v[i + 1]; a.v[i + 1] = b.v[i]; b.v[i] = t; } }
SHIM_OPS(float32, float)
SHIM_OPS(float64, double)

template<unsigned N> inline float32<N> bit_xor(float32<N> const& a, uint32<N> const& m) {
    float32<N> r; for (unsigned i = 0; i < N; ++i) { std::uint32_t u; __builtin_memcpy(&u, &a.v[i], 4); u ^= m.v[i]; __builtin_memcpy(&r.v[i], &u, 4); } return r; }
template<unsigned N> inline float64<N> bit_xor(float64<N> const& a, uint64<N> const& m) {
    float64<N> r; for (unsigned i = 0; i < N; ++i) { std::uint64_t u; __builtin_memcpy(&u, &a.v[i], 8); u ^= m.v[i]; __builtin_memcpy(&r.v[i], &u, 8); } return r; }

template<class V> inline V make_uint(std::uint64_t a, std::uint64_t b) { V r; for (unsigned i = 0; i < V::length; ++i) r.v[i] = static_cast<typename V::element_type>(i % 2 ? b : a); return r; }
template<class V> inline V make_float(double a) { V r; for (unsigned i = 0; i < V::length; ++i) r.v[i] = static_cast<typename V::element_type>(a); return r; }

// aligned accesses must be aligned, as with the real library
inline void require_aligned(void const* p) { if (reinterpret_cast<std::uintptr_t>(p) % 32) __builtin_trap(); }
template<class V, class P> inline V load_u(P const* p) { V r; auto q = reinterpret_cast<typename V::element_type const*>(p); for (unsigned i = 0; i < V::length; ++i) r.v[i] = q[i]; return r; }
template<class V, class P> inline V load(P const* p) { require_aligned(p); return load_u<V>(p); }
template<class P, class V> inline void store_u(P* p, V const& a) { auto q = reinterpret_cast<typename V::element_type*>(p); for (unsigned i = 0; i < V::length; ++i) q[i] = a.v[i]; }
template<class P, class V> inline void store(P* p, V const& a) { require_aligned(p); store_u(p, a); }
template<class V, class P> inline V load_splat(P const* p) { V r; auto q = *reinterpret_cast<typename V::element_type const*>(p); for (unsigned i = 0; i < V::length; ++i) r.v[i] = q; return r; }
template<class To, class From> inline To bit_cast(From const& f) { static_assert(sizeof(To) == sizeof(From), ""); To t; __builtin_memcpy(&t, &f, sizeof t); return t; }

} // namespace simdpp

// gathering, one lane (or one complex pair of lanes) at a time
namespace cpb { namespace simd { namespace detail {
template<class Vector> struct Gather;
template<template<unsigned, class> class V, unsigned N> struct Gather<V<N, void>>;

#define SHIM_GATHER(name, T)                                                          \
template<unsigned N> struct Gather<simdpp::name<N, void>> {                           \
    using Vec = simdpp::name<N, void>;                                                \
    template<class Index> static Vec call(T const* data, Index const* indices) {      \
        Vec r; for (unsigned i = 0; i < N; ++i) r.v[i] = data[indices[i]]; return r; } \
    template<class Index> static Vec call(std::complex<T> const* data, Index const* indices) { \
        Vec r; for (unsigned i = 0; i < N / 2; ++i) { std::complex<T> const& c = data[indices[i]]; r.v[2 * i] = c.real(); r.v[2 * i + 1] = c.imag(); } return r; } \
};
SHIM_GATHER(float32, float)
SHIM_GATHER(float64, double)
}}} // namespace cpb::simd::detail
