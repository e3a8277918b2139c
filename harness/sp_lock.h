// libstdc++ guards std::atomic_load & co. on shared_ptr by a pool of mutexes inside libstdc++.so; this definition (one mutex,
// visible to the engine and taken by the native replay in preference to the library's) gives both sides the same lock points.
#pragma once
#include <memory>
#include <mutex>
namespace jsp { inline std::mutex m; }
namespace std { _Sp_locker::_Sp_locker(const void*) noexcept { jsp::m.lock(); } _Sp_locker::_Sp_locker(const void*, const void*) noexcept { jsp::m.lock(); } _Sp_locker::~_Sp_locker() { jsp::m.unlock(); } }
