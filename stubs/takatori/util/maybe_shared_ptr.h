#pragma once
#include <memory>
#include <utility>
#include <cstddef>
#include <ostream>
namespace takatori::util {
// holds a pointer with or without ownership
template <class T> class maybe_shared_ptr {
    std::shared_ptr<T> s_; T* p_{nullptr}; template <class U> friend class maybe_shared_ptr;
public:
    using element_type = T; using pointer = T*;
    constexpr maybe_shared_ptr() noexcept = default; constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} maybe_shared_ptr(T* p) noexcept : p_(p) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_(std::move(s)), p_(s_.get()) {}
    template <class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::unique_ptr<U, D> u) : s_(std::move(u)), p_(s_.get()) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_(o.s_), p_(o.p_) {}
    maybe_shared_ptr(maybe_shared_ptr const&) noexcept = default; maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : s_(std::move(o.s_)), p_(std::exchange(o.p_, nullptr)) {}
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) noexcept = default; maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { s_ = std::move(o.s_); p_ = std::exchange(o.p_, nullptr); return *this; }
    [[nodiscard]] T* get() const noexcept { return p_; } T& operator*() const noexcept { return *p_; } T* operator->() const noexcept { return p_; } explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { s_.reset(); p_ = nullptr; } [[nodiscard]] std::shared_ptr<T> ownership() const { return s_; } [[nodiscard]] long use_count() const { return s_.use_count(); } [[nodiscard]] bool has_value() const { return p_ != nullptr; }
};
template <class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>; template <class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template <class A, class B> bool operator==(maybe_shared_ptr<A> const& a, maybe_shared_ptr<B> const& b) { return a.get() == b.get(); } template <class A, class B> bool operator!=(maybe_shared_ptr<A> const& a, maybe_shared_ptr<B> const& b) { return a.get() != b.get(); }
template <class A> bool operator==(maybe_shared_ptr<A> const& a, std::nullptr_t) { return !a; } template <class A> bool operator!=(maybe_shared_ptr<A> const& a, std::nullptr_t) { return static_cast<bool>(a); } template <class A> bool operator==(std::nullptr_t, maybe_shared_ptr<A> const& a) { return !a; } template <class A> bool operator!=(std::nullptr_t, maybe_shared_ptr<A> const& a) { return static_cast<bool>(a); }
template <class T, class U> maybe_shared_ptr<T> static_pointer_cast(maybe_shared_ptr<U> const& u) { if (u.ownership()) return maybe_shared_ptr<T>(std::static_pointer_cast<T>(u.ownership())); return maybe_shared_ptr<T>(static_cast<T*>(u.get())); }
template <class T> std::ostream& operator<<(std::ostream& o, maybe_shared_ptr<T> const& p) { return o << (void const*)p.get(); }
}
