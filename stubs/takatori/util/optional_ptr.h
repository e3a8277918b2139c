#pragma once
#include <utility>
#include <stdexcept>
#include <cstddef>
#include <type_traits>
namespace takatori::util {
template <class T> class optional_ptr {
    T* p_{nullptr}; template <class U> friend class optional_ptr;
public:
    using value_type = T; using reference = T&; using pointer = T*;
    constexpr optional_ptr() noexcept = default; constexpr optional_ptr(std::nullptr_t) noexcept {} constexpr optional_ptr(T& r) noexcept : p_(&r) {} constexpr explicit optional_ptr(T* p) noexcept : p_(p) {} template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>> constexpr optional_ptr(optional_ptr<U> o) noexcept : p_(o.p_) {}
    constexpr T* get() const noexcept { return p_; } constexpr T& operator*() const noexcept { return *p_; } constexpr T* operator->() const noexcept { return p_; } constexpr T& value() const { if (!p_) throw std::invalid_argument("empty"); return *p_; } constexpr bool has_value() const noexcept { return p_; } constexpr explicit operator bool() const noexcept { return p_; } void reset() { p_ = nullptr; } friend constexpr bool operator==(optional_ptr a, std::nullptr_t) { return !a.p_; } friend constexpr bool operator!=(optional_ptr a, std::nullptr_t) { return a.p_; }
};
template <class T> optional_ptr(T&) -> optional_ptr<T>;
}
