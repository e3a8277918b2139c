#pragma once
#include <cstddef>
namespace takatori::util {
template <class C> class basic_buffer_view { C* p_{}; std::size_t n_{}; public: using value_type = C; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using pointer = C*; using iterator = C*; using const_iterator = C const*; constexpr basic_buffer_view() = default; constexpr basic_buffer_view(C* p, std::size_t n) : p_(p), n_(n) {} template <class D, class = decltype(static_cast<C*>(static_cast<D*>(nullptr)))> constexpr basic_buffer_view(basic_buffer_view<D> o) : p_(o.data()), n_(o.size()) {} constexpr C* data() const { return p_; } constexpr std::size_t size() const { return n_; } constexpr bool empty() const { return n_ == 0; } constexpr C& operator[](std::size_t i) const { return p_[i]; } constexpr C* begin() const { return p_; } constexpr C* end() const { return p_ + n_; } constexpr C* cbegin() const { return p_; } constexpr C* cend() const { return p_ + n_; } };
}
