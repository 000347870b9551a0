// The installed absl keeps its own variant; the sources use the two as one.
#include <cstdint>
#include <variant>
#include "absl/types/variant.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename... T>
struct variant_size<std::variant<T...>> : std::variant_size<std::variant<T...>> {};
template <std::size_t I, typename... T>
struct variant_alternative<I, std::variant<T...>> : std::variant_alternative<I, std::variant<T...>> {};
ABSL_NAMESPACE_END
}
