// Declarations only: read by the analysis, never linked.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <string>
#include <string_view>
class RE2 {
 public:
  explicit RE2(std::string_view pattern);
  RE2(const char* pattern);
  RE2(const std::string& pattern);
  ~RE2();
  bool ok() const;
  template <typename... A>
  static bool FullMatch(std::string_view text, const RE2& re, A&&... a);
  template <typename... A>
  static bool PartialMatch(std::string_view text, const RE2& re, A&&... a);
  static bool Replace(std::string* str, const RE2& re, std::string_view rewrite);
  static int GlobalReplace(std::string* str, const RE2& re, std::string_view rewrite);
};
struct LazyRE2 {
  const char* pattern_;
  const RE2& operator*() const;
  const RE2* operator->() const;
};
#endif
