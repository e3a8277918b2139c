#pragma once
#include <cstdlib>
#include <utility>
namespace takatori::util { template <auto K> struct enum_tag_t { static constexpr auto tag_value = K; explicit enum_tag_t() = default; }; template <auto K> inline constexpr enum_tag_t<K> enum_tag{}; template <auto K, class C, class... A> inline decltype(auto) enum_tag_callback(C&& c, A&&... a) { return std::forward<C>(c)(enum_tag<K>, std::forward<A>(a)...); } }
