#pragma once
namespace jogasaki::executor { template <class... A> void execute_async_on_context(A&&...) {} }
