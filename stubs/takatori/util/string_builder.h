#pragma once
#include <sstream>
#include <string>
namespace takatori::util {
class string_builder {
    std::ostringstream b_;
public:
    static inline struct to_string_t {} to_string{};
    template <class T> string_builder& operator<<(T&& v) & { b_ << std::forward<T>(v); return *this; } template <class T> string_builder&& operator<<(T&& v) && { b_ << std::forward<T>(v); return std::move(*this); }
    [[nodiscard]] std::string str() const { return b_.str(); }
    friend std::string operator<<(string_builder& s, to_string_t) { return s.str(); } friend std::string operator<<(string_builder&& s, to_string_t) { return s.str(); }
    [[nodiscard]] std::string to_string_value() const { return b_.str(); } void clear() { b_.str(""); }
};
}
