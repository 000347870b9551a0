// Analysis shim: the logging macros as plain typed expressions.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <ostream>
#include <string>
#include "absl/base/log_severity.h"
namespace verif_log {
struct Stream {
  template <typename T>
  Stream& operator<<(const T&) { return *this; }
  Stream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  Stream& AtLocation(const char*, int) { return *this; }
};
Stream& info();
Stream& warning();
Stream& error();
Stream& dfatal();
[[noreturn]] void fatal_end();
Stream& fatal();
struct Voidify { void operator&&(Stream&) const {} };
}  // namespace verif_log
#define VERIF_LOG_INFO ::verif_log::info()
#define VERIF_LOG_WARNING ::verif_log::warning()
#define VERIF_LOG_ERROR ::verif_log::error()
#define VERIF_LOG_FATAL ::verif_log::fatal()
#define VERIF_LOG_DFATAL ::verif_log::dfatal()
#define LOG(sev) VERIF_LOG_##sev
#define LOG_IF(sev, c) !(c) ? (void)0 : ::verif_log::Voidify{} && LOG(sev)
#define DLOG(sev) VERIF_LOG_##sev
#define VLOG(n) ::verif_log::info()
#define LOG_EVERY_N(sev, n) VERIF_LOG_##sev
#define LOG_FIRST_N(sev, n) VERIF_LOG_##sev
#endif
