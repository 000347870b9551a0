// Stand-in for the logging library, which is not installed.
#ifndef DEMO_ABSL_LOG_LOG_H_
#define DEMO_ABSL_LOG_LOG_H_
#include <cstdlib>
#include <ostream>
namespace demo_log {
struct Stream {
  bool fatal;
  explicit Stream(bool f) : fatal(f) {}
  ~Stream() { if (fatal) std::abort(); }
  template <typename T>
  Stream& operator<<(const T&) { return *this; }
  Stream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { void operator&&(const Stream&) const {} };
}  // namespace demo_log
#define DEMO_LOG_INFO false
#define DEMO_LOG_WARNING false
#define DEMO_LOG_ERROR false
#define DEMO_LOG_FATAL true
#define DEMO_LOG_DFATAL true
#define LOG(sev) ::demo_log::Stream(DEMO_LOG_##sev)
#define DLOG(sev) LOG(sev)
#define VLOG(n) LOG(INFO)
#define LOG_IF(sev, c) !(c) ? (void)0 : ::demo_log::Voidify{} && LOG(sev)
#endif
