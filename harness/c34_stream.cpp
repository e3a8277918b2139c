//@property C34
//@src src/jogasaki/udf/generic_record_impl.cpp src/jogasaki/udf/error_info.cpp
//@threads
//@entry c34_stream_order quick=60 thorough=300 preempt=4 spurious=1 | a producer of two records (the second possibly an error) that ends the stream, one consumer that waits
//@entry c34_stream_two quick=60 thorough=300 preempt=3 | one producer of two records ending the stream, two waiting consumers
//@entry c34_stream_close quick=60 thorough=300 preempt=3 | producer, waiting consumer, and a third thread that closes the stream
//@entry c34_stream_timed quick=60 thorough=300 preempt=4 | as c34_stream_order with a timed consumer that retries
//@entry c34_stream_moved quick=60 thorough=300 preempt=3 | a consumer waits on a stream while another stream is assigned to it
#include "sym.h"
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf; using st = generic_record_stream::status_type;
template <class F> static void spawn(F& f) { jsym_spawn([](void* a) { (*static_cast<F*>(a))(); }, &f); }
static std::unique_ptr<generic_record_impl> rec(int v, bool err = false) { auto r = std::make_unique<generic_record_impl>(); r->add_int4(v); if (err) r->set_error(error_info(grpc::StatusCode::INTERNAL, "e")); return r; }
static int val(generic_record_impl& r) { auto c = r.cursor(); auto v = c->fetch_int4(); SYM_ASSERT(v.has_value()); return *v; }
HARNESS(c34_stream_order) {
    generic_record_stream_impl s; bool err = sym_choose(2, "err") != 0; int pushed = 0; auto p = [&] { pushed = 1; s.push(rec(1)); pushed = 2; s.push(rec(2, err)); s.end_of_stream(); pushed = 3; };
    auto c = [&] { generic_record_impl r; st x = s.next(r, std::nullopt); SYM_ASSERT(x == st::ok); SYM_ASSERT(val(r) == 1); x = s.next(r, std::nullopt); SYM_ASSERT(x == (err ? st::error : st::ok)); SYM_ASSERT(val(r) == 2); x = s.next(r, std::nullopt); SYM_ASSERT(x == st::end_of_stream); SYM_ASSERT(s.try_next(r) == st::end_of_stream); }; spawn(c); spawn(p); jsym_join_all(); SYM_ASSERT(pushed == 3);
}
HARNESS(c34_stream_two) {
    generic_record_stream_impl s; int got = 0, ends = 0; auto p = [&] { s.push(rec(1)); s.push(rec(2)); s.end_of_stream(); }; auto c = [&] { int last = 0; for (;;) { generic_record_impl r; st x = s.next(r, std::nullopt); if (x == st::end_of_stream) break; SYM_ASSERT(x == st::ok); int v = val(r); SYM_ASSERT(v > last); last = v; got += v; } ends++; }; auto d = c; spawn(c); spawn(d); spawn(p); jsym_join_all(); SYM_ASSERT(got == 3); SYM_ASSERT(ends == 2);
}
HARNESS(c34_stream_close) {
    generic_record_stream_impl s; bool closed = false; auto p = [&] { s.push(rec(1)); s.push(rec(2)); }; auto k = [&] { s.close(); closed = true; }; auto c = [&] { int last = 0; for (;;) { generic_record_impl r; st x = s.next(r, std::nullopt); if (x == st::end_of_stream) break; SYM_ASSERT(x == st::ok); int v = val(r); SYM_ASSERT(v == last + 1); last = v; } }; spawn(c); spawn(p); spawn(k); jsym_join_all(); SYM_ASSERT(closed); generic_record_impl r; SYM_ASSERT(s.try_next(r) == st::end_of_stream);
}
HARNESS(c34_stream_timed) { generic_record_stream_impl s; auto p = [&] { s.push(rec(1)); s.end_of_stream(); }; auto c = [&] { generic_record_impl r; st x = s.next(r, std::chrono::milliseconds(2)); if (x == st::not_ready) x = s.next(r, std::nullopt); SYM_ASSERT(x == st::ok); SYM_ASSERT(val(r) == 1); x = s.try_next(r); SYM_ASSERT(x == st::not_ready || x == st::end_of_stream); if (x == st::not_ready) x = s.next(r, std::nullopt); SYM_ASSERT(x == st::end_of_stream); }; spawn(c); spawn(p); jsym_join_all(); }
HARNESS(c34_stream_moved) { generic_record_stream_impl s, o; bool two = sym_choose(2, "two") != 0; o.push(rec(7)); if (two) o.push(rec(8)); o.end_of_stream(); auto c = [&] { generic_record_impl r; st x = s.next(r, std::nullopt); SYM_ASSERT(x == st::ok); SYM_ASSERT(val(r) == 7); }; auto m = [&] { s = std::move(o); }; spawn(c); spawn(m); jsym_join_all(); }
