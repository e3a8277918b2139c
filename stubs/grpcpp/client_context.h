#pragma once
// stand-in: records the deadline (the transport library itself is outside this repository)
#include <chrono>
namespace grpc {
class ClientContext {
public:
    template <class T> void set_deadline(T const& d) { deadline_ = std::chrono::time_point_cast<std::chrono::nanoseconds>(d); ++sets_; }
    std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> deadline_{}; int sets_{};
};
}
