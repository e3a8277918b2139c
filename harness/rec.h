// records for the harnesses: field kinds, symbolic values of each kind, exact-size record memory
#pragma once
#include "sym.h"
#include <jogasaki/meta/record_meta.h>
#include <jogasaki/meta/field_type.h>
#include <jogasaki/meta/field_type_traits.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/const_record_ref.h>
#include <jogasaki/data/any.h>
#include <boost/dynamic_bitset.hpp>
namespace rec {
using K = jogasaki::meta::field_type_kind; using jogasaki::runtime_t; using jogasaki::meta::field_type; using jogasaki::accessor::text; using jogasaki::accessor::binary; using triple = takatori::decimal::triple;
constexpr K kinds[] = {K::boolean, K::int1, K::int2, K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::octet, K::date, K::time_of_day, K::time_point, K::blob, K::clob, K::pointer};
template <K k> using kc = std::integral_constant<K, k>;
template <class F> void with(K k, F f) { switch (k) {
#define X(n) case K::n: f(kc<K::n>{}); return;
    X(boolean) X(int1) X(int2) X(int4) X(int8) X(float4) X(float8) X(decimal) X(character) X(octet) X(date) X(time_of_day) X(time_point) X(blob) X(clob) X(pointer)
#undef X
    default: sym_stop(); } }
inline field_type type_of(K k) { namespace m = jogasaki::meta; switch (k) { case K::decimal: return field_type{std::make_shared<m::decimal_field_option>(38, 3)}; case K::character: return field_type{std::make_shared<m::character_field_option>(true, 100)}; case K::octet: return field_type{std::make_shared<m::octet_field_option>(true, 100)}; case K::time_of_day: return field_type{std::make_shared<m::time_of_day_field_option>(false)}; case K::time_point: return field_type{std::make_shared<m::time_point_field_option>(false)};
#define X(n) case K::n: return field_type{m::field_enum_tag<K::n>};
    X(boolean) X(int1) X(int2) X(int4) X(int8) X(float4) X(float8) X(date) X(blob) X(clob) X(pointer) X(unknown) X(undefined)
#undef X
    default: sym_stop(); } }
// a symbolic value; character and octet strings get n symbolic bytes in their own exact-size memory
inline char* last_str = nullptr;
template <K k> runtime_t<k> val(const char* nm, size_t n = 3) {
    using namespace takatori::datetime; uint64_t v = k == K::character || k == K::octet ? 0 : sym_u64(nm);
    if constexpr (k == K::boolean) return (int8_t)(v & 1); else if constexpr (k == K::int1) return (int8_t)v; else if constexpr (k == K::int2) return (int16_t)v; else if constexpr (k == K::int4) return (int32_t)v; else if constexpr (k == K::int8) return (int64_t)v;
    else if constexpr (k == K::float4) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; } else if constexpr (k == K::float8) { double f; memcpy(&f, &v, 8); return f; }
    else if constexpr (k == K::decimal) { uint64_t w = sym_u64(nm); return triple((w & 1) ? -1 : 1, w >> 40, v, -(int)((w >> 1) & 15)); }
    else if constexpr (k == K::character || k == K::octet) { auto* b = new sym_buf(n, nm); last_str = b->p; return runtime_t<k>(b->p, n); }
    else if constexpr (k == K::date) return date((int64_t)v); else if constexpr (k == K::time_of_day) { sym_assume(v < time_of_day::day_ns); return time_of_day{std::chrono::nanoseconds{v}}; }
    else if constexpr (k == K::time_point) { uint32_t s = sym_u32(nm); sym_assume(s < 1000000000); return time_point{std::chrono::seconds{(int64_t)v}, std::chrono::nanoseconds{s}}; }
    else if constexpr (k == K::pointer) return reinterpret_cast<void*>(v);
    else return runtime_t<k>{v, sym_choose(2, nm) ? jogasaki::lob::lob_data_provider::datastore : jogasaki::lob::lob_data_provider::sql};
}
// the same value, bit for bit (reals included)
template <K k> bool same(runtime_t<k> const& a, runtime_t<k> const& b) {
    if constexpr (k == K::float4) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; } else if constexpr (k == K::float8) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
    else if constexpr (k == K::decimal) return sym_and(sym_and(a.sign() == b.sign(), a.exponent() == b.exponent()), sym_and(a.coefficient_high() == b.coefficient_high(), a.coefficient_low() == b.coefficient_low()));
    else if constexpr (k == K::character || k == K::octet) return sym_same(std::string(std::string_view(a)), std::string(std::string_view(b)));
    else if constexpr (k == K::date) return a.days_since_epoch() == b.days_since_epoch(); else if constexpr (k == K::time_of_day) return a.time_since_epoch().count() == b.time_since_epoch().count();
    else if constexpr (k == K::time_point) return sym_and(a.seconds_since_epoch().count() == b.seconds_since_epoch().count(), a.subsecond().count() == b.subsecond().count());
    else if constexpr (k == K::blob || k == K::clob) return sym_and(a.object_id() == b.object_id(), a.provider() == b.provider()); else return a == b;
}
struct def { std::vector<K> k; std::vector<bool> nl; std::shared_ptr<jogasaki::meta::record_meta> meta(size_t size = jogasaki::meta::record_meta::npos) const { std::vector<field_type> f; boost::dynamic_bitset<std::uint64_t> b; for (size_t i = 0; i < k.size(); i++) { f.push_back(type_of(k[i])); b.push_back(nl[i]); } return std::make_shared<jogasaki::meta::record_meta>(std::move(f), std::move(b), size); } void add(K kk, bool n) { k.push_back(kk); nl.push_back(n); } };
// record memory of exactly n bytes, zeroed
struct mem { sym_buf b; jogasaki::accessor::record_ref r; explicit mem(size_t n) : b(n, sym_buf::raw{}), r(b.p, n) { for (size_t i = 0; i < n; i++) b.p[i] = 0; } };
}
