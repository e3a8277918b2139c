#pragma once
#include <variant>
namespace takatori::util { template <class E, class V> class either { std::variant<E, V> b_; public: either(E e) : b_(std::in_place_index<0>, std::move(e)) {} either(V v) : b_(std::in_place_index<1>, std::move(v)) {} bool has_value() const noexcept { return b_.index() == 1; } bool is_success() const noexcept { return has_value(); } bool is_error() const noexcept { return !has_value(); } explicit operator bool() const noexcept { return has_value(); } E const& error() const { return std::get<0>(b_); } V const& value() const { return std::get<1>(b_); } V const& operator*() const { return value(); } }; }
