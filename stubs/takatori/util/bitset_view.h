#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
namespace takatori::util {
// bits in a caller-provided block of bytes, bit i in byte i / 8; begin()/end() iterate over the bytes
template <class B> class basic_bitset_view { B* p_{}; std::size_t n_{}; public:
    class bit_reference { B* p_; unsigned m_; public: bit_reference(B* p, unsigned m) : p_(p), m_(m) {} operator bool() const { return (static_cast<unsigned char>(*p_) & m_) != 0; } bit_reference& operator=(bool v) { if (v) *p_ = static_cast<B>(static_cast<unsigned char>(*p_) | m_); else *p_ = static_cast<B>(static_cast<unsigned char>(*p_) & ~m_); return *this; } bit_reference& operator=(bit_reference const& o) { return *this = static_cast<bool>(o); } bit_reference& flip() { return *this = !static_cast<bool>(*this); } };
    using size_type = std::size_t; class iterator { B* p_; public: explicit iterator(B* p) : p_(p) {} B& operator*() const { return *p_; } iterator& operator++() { ++p_; return *this; } iterator& operator--() { --p_; return *this; } bool operator==(iterator o) const { return p_ == o.p_; } bool operator!=(iterator o) const { return p_ != o.p_; } }; using const_iterator = iterator; constexpr basic_bitset_view() = default; constexpr basic_bitset_view(B* p, std::size_t bits) : p_(p), n_(bits) {} template <class D, class = std::enable_if_t<std::is_convertible_v<D*, B*>>> constexpr basic_bitset_view(basic_bitset_view<D> o) : p_(o.block_data()), n_(o.size()) {}
    std::size_t size() const { return n_; } bool empty() const { return n_ == 0; } std::size_t block_size() const { return (n_ + 7) / 8; } B* block_data() const { return p_; } iterator begin() const { return iterator(p_); } iterator end() const { return iterator(p_ + block_size()); } bool test(std::size_t i) const { return static_cast<unsigned char>(p_[i / 8]) >> (i % 8) & 1; } bool operator[](std::size_t i) const { return test(i); } bit_reference operator[](std::size_t i) { return {p_ + i / 8, 1U << (i % 8)}; } basic_bitset_view& set(std::size_t i, bool v = true) { (*this)[i] = v; return *this; } basic_bitset_view& reset(std::size_t i) { return set(i, false); } };
using bitset_view = basic_bitset_view<char>; using const_bitset_view = basic_bitset_view<char const>;
}
