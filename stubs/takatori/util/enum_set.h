#pragma once
#include <cstdint>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class E, E First, E Last> class enum_set {
    static constexpr std::size_t lo = static_cast<std::size_t>(static_cast<std::underlying_type_t<E>>(First)), n = static_cast<std::size_t>(static_cast<std::underlying_type_t<E>>(Last)) - lo + 1; static_assert(n <= 64);
    std::uint64_t b_{}; static constexpr std::uint64_t bit(E e) { return std::uint64_t{1} << (static_cast<std::size_t>(static_cast<std::underlying_type_t<E>>(e)) - lo); }
public:
    using value_type = E; using size_type = std::size_t;
    class const_iterator { std::uint64_t b_; std::size_t i_; void skip() { while (i_ < n && !(b_ >> i_ & 1)) ++i_; } public: using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const*; using reference = E; using iterator_category = std::input_iterator_tag; const_iterator(std::uint64_t b, std::size_t i) : b_(b), i_(i) { skip(); } E operator*() const { return static_cast<E>(static_cast<std::underlying_type_t<E>>(i_ + lo)); } const_iterator& operator++() { ++i_; skip(); return *this; } const_iterator operator++(int) { auto r = *this; ++*this; return r; } bool operator==(const_iterator const& o) const { return i_ == o.i_; } bool operator!=(const_iterator const& o) const { return i_ != o.i_; } };
    using iterator = const_iterator;
    constexpr enum_set() noexcept = default; template <class... A, class = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::decay_t<A>, E> && ...)>> constexpr enum_set(A... a) noexcept : b_((bit(a) | ...)) {} constexpr enum_set(std::initializer_list<E> l) noexcept { for (auto e : l) b_ |= bit(e); }
    static constexpr enum_set all() { enum_set r; for (std::size_t i = 0; i < n; i++) r.b_ |= std::uint64_t{1} << i; return r; }
    [[nodiscard]] constexpr bool contains(E e) const noexcept { return (b_ & bit(e)) != 0; } [[nodiscard]] constexpr bool operator[](E e) const noexcept { return contains(e); } [[nodiscard]] constexpr bool empty() const noexcept { return b_ == 0; } [[nodiscard]] constexpr std::size_t size() const noexcept { return static_cast<std::size_t>(__builtin_popcountll(b_)); }
    constexpr enum_set& insert(E e) noexcept { b_ |= bit(e); return *this; } constexpr enum_set& erase(E e) noexcept { b_ &= ~bit(e); return *this; } constexpr void clear() noexcept { b_ = 0; } [[nodiscard]] bool contains(enum_set o) const noexcept { return (b_ & o.b_) == o.b_; }
    constexpr enum_set& operator|=(enum_set o) noexcept { b_ |= o.b_; return *this; } constexpr enum_set& operator&=(enum_set o) noexcept { b_ &= o.b_; return *this; } friend constexpr enum_set operator|(enum_set a, enum_set b) { a |= b; return a; } friend constexpr enum_set operator&(enum_set a, enum_set b) { a &= b; return a; } friend constexpr enum_set operator-(enum_set a, enum_set b) { a.b_ &= ~b.b_; return a; }
    [[nodiscard]] const_iterator begin() const noexcept { return {b_, 0}; } [[nodiscard]] const_iterator end() const noexcept { return {b_, n}; } friend constexpr bool operator==(enum_set a, enum_set b) noexcept { return a.b_ == b.b_; } friend constexpr bool operator!=(enum_set a, enum_set b) noexcept { return a.b_ != b.b_; }
    friend std::ostream& operator<<(std::ostream& o, enum_set s) { o << "{"; bool f = true; for (auto e : s) { if (!f) o << ", "; f = false; o << e; } return o << "}"; }
};
}
