#pragma once
#include <cstddef>
#include <iterator>
#include <ostream>
#include <type_traits>
#include <initializer_list>
namespace takatori::util {
template <class T, class = void> struct sequence_iterator { using type = T*; }; template <class T> struct sequence_iterator<T, std::void_t<typename std::iterator_traits<T>::value_type>> { using type = T; };
// a range over [first, last), of elements or of an iterator
template <class E> class sequence_view {
    using T = typename sequence_iterator<E>::type; T f_{}, l_{};
public:
    using iterator = T; using const_iterator = T; using value_type = typename std::iterator_traits<T>::value_type; using difference_type = typename std::iterator_traits<T>::difference_type; using size_type = std::size_t; using reference = typename std::iterator_traits<T>::reference; using const_reference = reference;
    constexpr sequence_view() = default; constexpr sequence_view(T f, T l) : f_(f), l_(l) {} constexpr sequence_view(T f, std::size_t n) : f_(f), l_(std::next(f, (difference_type)n)) {}
    template <class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, sequence_view> && std::is_convertible_v<decltype(std::data(std::declval<C&>())), T>>> constexpr sequence_view(C&& c) : f_(std::data(c)), l_(std::data(c) + std::size(c)) {}
    constexpr T begin() const { return f_; } constexpr T end() const { return l_; } constexpr T cbegin() const { return f_; } constexpr T cend() const { return l_; } constexpr std::size_t size() const { return (std::size_t)std::distance(f_, l_); } constexpr bool empty() const { return f_ == l_; }
    constexpr decltype(auto) operator[](std::size_t i) const { return *std::next(f_, (difference_type)i); } constexpr decltype(auto) at(std::size_t i) const { return *std::next(f_, (difference_type)i); } constexpr decltype(auto) front() const { return *f_; } constexpr decltype(auto) back() const { return *std::prev(l_); }
    template <class U = T, class = std::enable_if_t<std::is_pointer_v<U>>> constexpr sequence_view(T e) : f_(e), l_(e + 1) {}
    friend std::ostream& operator<<(std::ostream& o, sequence_view const& v) { o << "{"; bool f = true; for (auto&& e : v) { if (!f) o << ", "; f = false; o << e; } return o << "}"; }
};
template <class T> sequence_view(T, T) -> sequence_view<T>; template <class T> sequence_view(T*) -> sequence_view<T>; template <class C> sequence_view(C& c) -> sequence_view<decltype(std::data(c))>;
}
