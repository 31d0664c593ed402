// Stand-in for aocommon::xt::Span.
#pragma once
#include <xtensor/containers/xtensor.hpp>
namespace aocommon { namespace xt {
template <class T, std::size_t N> using Span = ::xt::xspan<T, N>;
template <class T, std::size_t N> Span<T, N> CreateSpan(T* p, const std::array<std::size_t, N>& s) { return Span<T, N>(p, s); }
template <class T, std::size_t N> Span<T, N> CreateSpan(::xt::xtensor<T, N>& t) { return Span<T, N>(t.data(), t.shape()); }
template <class T, std::size_t N> Span<const T, N> CreateSpan(const ::xt::xtensor<T, N>& t) { return Span<const T, N>(t.data(), t.shape()); }
} }
