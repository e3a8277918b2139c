// scalar expressions over one row of variables (C36, C50)
#pragma once
#include "rec.h"
#include "mem_pool.h"
#include "fail_env.h"
#include <jogasaki/executor/expr/evaluator.h>
#include <jogasaki/executor/expr/error.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/expr/details/cast_evaluation.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/executor/function/scalar_function_info.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/configuration.h>
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/utils/field_types.h>
#include <takatori/datetime/conversion.h>
#include <takatori/type/unknown.h>
#include <takatori/type/blob.h>
#include <takatori/type/clob.h>
using namespace jogasaki; using rec::K; using data::any; namespace ts = takatori::scalar; namespace tt = takatori::type; namespace tv = takatori::value; namespace im = executor::process::impl; namespace ex = executor::expr; using ek = ex::error_kind; using takatori::util::maybe_shared_ptr; using triple = takatori::decimal::triple;
namespace { std::unique_ptr<memory::page_pool> pool_; executor::function::scalar_function_repository repo_; }
namespace jogasaki::global { executor::function::scalar_function_repository& scalar_function_repository() { return repo_; } }
static tt::boolean t_b; static tt::int4 t_i4; static tt::int8 t_i8; static tt::float4 t_f4; static tt::float8 t_f8; static tt::character t_ch{tt::varying, 100}; static tt::octet t_oc{tt::varying, 100}; static tt::decimal t_dec{10, 2}; static tt::date t_date; static tt::time_of_day t_tod; static tt::time_point t_tp; static tt::unknown t_unk; static tt::blob t_blob; static tt::clob t_clob;
template <class T> static any A(T v) { return any{std::in_place_type<T>, v}; }
static any I(std::int32_t v) { return A<std::int32_t>(v); } static any L(std::int64_t v) { return A<std::int64_t>(v); } static any B(bool v) { return A<bool>(v); }
static accessor::text text_of(std::string_view s) { auto* b = new std::string(s); return accessor::text(b->data(), b->size()); }
static any S(std::string_view s) { return A<accessor::text>(text_of(s)); }
static void no_parser() { takatori::datetime::parser = nullptr; }
// the row: columns added one by one, then frozen into a variable table
struct world { memory::page_pool pp; memory::lifo_paged_memory_resource res{&pp}; std::vector<tt::data const*> ty; std::vector<any> vals; std::shared_ptr<meta::record_meta> m; std::unique_ptr<im::variable_table_info> vi; im::variable_table_list list; transaction_context tx; yugawara::compiled_info ci; ex::evaluator_context ec{&res, nullptr};
    world() { mem_pages::huge = true; no_parser(); }
    ts::eref var(tt::data const& t, any v) { ty.push_back(&t); vals.push_back(v); return std::make_shared<ts::variable_reference>(takatori::descriptor::variable{300 + (int)ty.size() - 1}, t); }
    void freeze() { std::vector<meta::field_type> f; for (auto* x : ty) f.push_back(utils::type_for(*x)); boost::dynamic_bitset<std::uint64_t> n(ty.size()); n.flip(); m = std::make_shared<meta::record_meta>(std::move(f), std::move(n)); im::variable_table_info::variable_indices ix; for (size_t i = 0; i < ty.size(); i++) ix[{300 + (int)i}] = i; vi = std::make_unique<im::variable_table_info>(ix, m, im::region_id{0}); list.emplace_back(*vi); auto r = list[0].store().ref();
        for (size_t i = 0; i < ty.size(); i++) { auto& v = vals[i]; r.set_null(m->nullity_offset(i), v.empty()); if (v.empty()) continue; if (v.type_index() == any::index<bool>) { r.set_value<std::int8_t>(m->value_offset(i), v.to<std::int8_t>()); continue; } rec::with(m->at(i).kind(), [&](auto kc) { constexpr K k = kc; if constexpr (k == K::int4 || k == K::int8 || k == K::float4 || k == K::float8 || k == K::decimal || k == K::character || k == K::octet || k == K::date || k == K::time_of_day || k == K::time_point || k == K::blob || k == K::clob) r.set_value<runtime_t<k>>(m->value_offset(i), v.to<runtime_t<k>>()); }); } }
    any eval(ts::expression const& e) { if (!vi) freeze(); ex::evaluator ev{e, ci}; return ev(ec, im::variables_view{list, 0}, &res); } };
static ts::eref imm(tt::data const& t, any v) { tv::data d; auto ix = v.type_index(); if (ix == any::index<bool>) d.v = v.to<std::int8_t>() != 0; else if (ix == any::index<std::int32_t>) d.v = v.to<std::int32_t>(); else if (ix == any::index<std::int64_t>) d.v = v.to<std::int64_t>(); else if (ix == any::index<float>) d.v = v.to<float>(); else if (ix == any::index<double>) d.v = v.to<double>(); else if (ix == any::index<triple>) d.v = v.to<triple>(); else if (ix == any::index<accessor::text>) { auto t = v.to<accessor::text>(); auto* s = new std::string(std::string_view(t)); d.v = std::string_view(*s); } else if (ix == any::index<accessor::binary>) { auto t = v.to<accessor::binary>(); auto* s = new std::string(std::string_view(t)); d.v = std::string_view(*s); d.octet = true; } else if (ix == any::index<takatori::datetime::date>) d.v = v.to<takatori::datetime::date>(); else if (ix == any::index<takatori::datetime::time_of_day>) d.v = v.to<takatori::datetime::time_of_day>(); else if (ix == any::index<takatori::datetime::time_point>) d.v = v.to<takatori::datetime::time_point>(); return std::make_shared<ts::immediate>(d, t); }
template <class T, class... X> static ts::eref mk(X&&... x) { return std::make_shared<T>(std::forward<X>(x)...); }
static ts::eref failing() { return mk<ts::binary>(ts::binary_operator::divide, imm(t_i4, I(1)), imm(t_i4, I(0)), &t_i4); } // arithmetic error
static ts::eref failing2() { return mk<ts::let>(); } // unsupported
static bool is_error(any const& a, ek k) { return a.error() && a.to<ex::error>().kind() == k; }
static bool is_bool(any const& a, bool b) { if (a.type_index() != any::index<bool>) return false; return (a.to<std::int8_t>() != 0) == b; }
static bool is_int(any const& a, std::int32_t v) { return a.type_index() == any::index<std::int32_t> && a.to<std::int32_t>() == v; } static bool is_long(any const& a, std::int64_t v) { return a.type_index() == any::index<std::int64_t> && a.to<std::int64_t>() == v; }
static bool is_text(any const& a, std::string_view s) { if (a.type_index() != any::index<accessor::text>) return false; auto t = a.to<accessor::text>(); std::string_view x(t); return x.size() == s.size() && sym_eq(x.data(), s.data(), s.size()); }
// large objects: one file whose outcome the harness prepares
#include <jogasaki/utils/read_lob_file.h>
struct lobs { static inline status reg = status::ok, find = status::ok, read = status::ok; static inline std::string content, registered, path_read; static inline int regs = 0; static inline std::uint64_t id = 77, asked = 0; };
namespace jogasaki::error { std::shared_ptr<error_info> create_error_info_impl(jogasaki::error_code c, std::string_view m, std::string_view f, std::string_view p, status st, bool) { auto e = std::make_shared<error_info>(c, m, f, p, ""); e->status(st); return e; } }
static std::shared_ptr<error::error_info> lob_error() { return error::create_error_info_impl(error_code::lob_file_io_error, "lob", "", "", status::err_io_error, false); }
namespace jogasaki::datastore { status register_lob_data(std::string_view d, transaction_context*, lob::lob_id_type& out, std::shared_ptr<error::error_info>& e) { ++lobs::regs; if (lobs::reg != status::ok) { e = lob_error(); return lobs::reg; } lobs::registered = std::string(d); out = lobs::id; return status::ok; } status find_path_by_lob_id(lob::lob_id_type id, std::string& path, std::shared_ptr<error::error_info>& e) { lobs::asked = id; if (lobs::find != status::ok) { e = lob_error(); return lobs::find; } path = "path"; return status::ok; } }
namespace jogasaki::utils { status read_lob_file(std::string_view p, std::string& out, std::shared_ptr<error::error_info>& e) { lobs::path_read = std::string(p); if (lobs::read != status::ok) { e = lob_error(); return lobs::read; } out = lobs::content; return status::ok; } }
