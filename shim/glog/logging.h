// logging is outside every property: all log statements are discarded in the symbolic build
#pragma once
#include <ostream>
#include <sstream>
#include <cassert>
#include <cstdlib>
namespace google {
struct jsym_null_stream : std::ostream { jsym_null_stream() : std::ostream(nullptr) {} };
struct jsym_nl {}; struct jsym_voidify { jsym_nl operator&(std::ostream&) { return {}; } };
inline std::ostream& jsym_sink() { static std::ostringstream o; return o; }
typedef int LogSeverity; constexpr int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3;
inline void InitGoogleLogging(const char*) {} inline void InstallFailureSignalHandler() {} 
}
#define VLOG_IS_ON(n) false
#define JSYM_NOLOG true ? ::google::jsym_nl{} : ::google::jsym_voidify() & ::google::jsym_sink()
#define LOG(s) JSYM_LOG_##s
#define JSYM_LOG_INFO JSYM_NOLOG
#define JSYM_LOG_WARNING JSYM_NOLOG
#define JSYM_LOG_ERROR JSYM_NOLOG
#define JSYM_LOG_FATAL (std::abort(), true) ? ::google::jsym_nl{} : ::google::jsym_voidify() & ::google::jsym_sink()
#define VLOG(n) JSYM_NOLOG
#define DLOG(s) JSYM_NOLOG
#define DVLOG(n) JSYM_NOLOG
#define LOG_IF(s, c) JSYM_NOLOG
#define VLOG_IF(n, c) JSYM_NOLOG
#define LOG_FIRST_N(s, n) JSYM_NOLOG
#define LOG_EVERY_N(s, n) JSYM_NOLOG
#define CHECK(c) (c) ? ::google::jsym_nl{} : (std::abort(), ::google::jsym_voidify() & ::google::jsym_sink())
#define DCHECK(c) JSYM_NOLOG
