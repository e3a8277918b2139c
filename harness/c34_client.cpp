//@property C34
//@src src/jogasaki/udf/generic_client_context.cpp
//@stubs
//@entry c34_client_context quick=30 thorough=60 | symbolic timeouts of up to 2^31 ms set once or twice or cleared, debug flag symbolic
#include "sym.h"
#include <jogasaki/udf/generic_client_context.h>
HARNESS(c34_client_context) {
    using namespace std::chrono; plugin::udf::generic_client_context c; auto const& cc = c; SYM_ASSERT(!c.timeout().has_value() && !c.is_debug_enabled() && c.grpc_context().sets_ == 0); SYM_ASSERT(&cc.grpc_context() == &c.grpc_context());
    bool d = sym_bool("d"); c.debug_enabled(d); sym_assert(c.is_debug_enabled() == d, "debug flag"); SYM_ASSERT(!c.timeout().has_value());
    size_t n = sym_size("n", 0, 2); int sets = 0; for (size_t i = 0; i < n; i++) {
        if (sym_choose(2, "none")) { c.timeout(std::nullopt); SYM_ASSERT(!c.timeout().has_value()); SYM_ASSERT(cc.grpc_context().sets_ == sets); continue; }
        uint32_t t = sym_u32("t"); sym_assume(t < 0x80000000U); auto b = system_clock::now(); c.timeout(milliseconds(t)); auto a = system_clock::now(); sets++; SYM_ASSERT(c.timeout().has_value()); sym_assert(c.timeout()->count() == (int64_t)t, "timeout kept"); SYM_ASSERT(cc.grpc_context().sets_ == sets);
        auto dl = cc.grpc_context().deadline_; sym_assert(sym_and(dl >= b + milliseconds(t), dl <= a + milliseconds(t)), "deadline is the timeout from now");
    }
    sym_assert(c.is_debug_enabled() == d, "debug flag kept"); SYM_ASSERT(c.grpc_context().sets_ == sets);
}
