// The installed library predates bit_width returning int, which this
// repository relies on.
#ifndef VERIF_SHIM_ABSL_NUMERIC_BITS_H_
#define VERIF_SHIM_ABSL_NUMERIC_BITS_H_
#define bit_width bit_width_of_old
#include_next "absl/numeric/bits.h"
#undef bit_width
namespace absl {
template <class T>
constexpr std::enable_if_t<std::is_unsigned<T>::value, int> bit_width(T x) noexcept {
  return std::numeric_limits<T>::digits - countl_zero(x);
}
}  // namespace absl
#endif
