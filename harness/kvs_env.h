// common parts of the kvs coding harnesses: a guarded encoding buffer and lexicographic comparison of byte strings
#pragma once
#include "sym.h"
#include <jogasaki/executor/global.h>
#include <jogasaki/configuration.h>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/data/any.h>
#include "fail_env.h"
#ifndef MEM_POOL_CONFIG
namespace jogasaki::global { takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { static auto c = std::make_shared<configuration>(); static takatori::util::maybe_shared_ptr<configuration> p{c}; return p; } }
#endif
struct enc { sym_buf b; jogasaki::kvs::writable_stream s; jogasaki::kvs::coding_context ctx{}; explicit enc(size_t n, bool ign = false) : b(n, sym_buf::raw{}), s(b.p, n, ign) { ctx.coding_for_write(true); }
    jogasaki::status add(jogasaki::data::any const& v, jogasaki::meta::field_type const& t, jogasaki::kvs::coding_spec sp) { return jogasaki::kvs::encode(v, t, sp, ctx, s); } jogasaki::status add_nullable(jogasaki::data::any const& v, jogasaki::meta::field_type const& t, jogasaki::kvs::coding_spec sp) { return jogasaki::kvs::encode_nullable(v, t, sp, ctx, s); } size_t size() const { return s.size(); } };
inline bool lex_lt(const char* a, size_t n, const char* b, size_t m) { bool lt = n < m; for (size_t i = (n < m ? n : m); i-- > 0;) { unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i]; lt = sym_or(x < y, sym_and(x == y, lt)); } return lt; }
inline bool lex_lt(enc const& a, enc const& b) { return lex_lt(a.b.p, a.size(), b.b.p, b.size()); }
