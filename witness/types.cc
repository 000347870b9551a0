// Type-level obligations: this file compiles exactly when they hold.
#include <cstdint>
#include <type_traits>

#include "absl/numeric/int128.h"
#include "absl/types/variant.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/generic/variant_helper.h"

using namespace mpact::sim::generic;  // NOLINT

#define SAME(what, A, B) static_assert(std::is_same_v<A, B>, what)
#define P2(...) __VA_ARGS__

// Twice as wide, same signedness.
SAME("wide", typename WideType<int8_t>::type, int16_t);
SAME("wide", typename WideType<int16_t>::type, int32_t);
SAME("wide", typename WideType<int32_t>::type, int64_t);
SAME("wide", typename WideType<int64_t>::type, absl::int128);
SAME("wide", typename WideType<uint8_t>::type, uint16_t);
SAME("wide", typename WideType<uint16_t>::type, uint32_t);
SAME("wide", typename WideType<uint32_t>::type, uint64_t);
SAME("wide", typename WideType<uint64_t>::type, absl::uint128);
// Half as wide, same signedness.
SAME("narrow", typename NarrowType<int16_t>::type, int8_t);
SAME("narrow", typename NarrowType<int32_t>::type, int16_t);
SAME("narrow", typename NarrowType<int64_t>::type, int32_t);
SAME("narrow", typename NarrowType<uint16_t>::type, uint8_t);
SAME("narrow", typename NarrowType<uint32_t>::type, uint16_t);
SAME("narrow", typename NarrowType<uint64_t>::type, uint32_t);
// Signed type of the same size.
SAME("signed", typename internal::SignedType<bool>::type, bool);
SAME("signed", typename internal::SignedType<int8_t>::type, int8_t);
SAME("signed", typename internal::SignedType<uint8_t>::type, int8_t);
SAME("signed", typename internal::SignedType<int16_t>::type, int16_t);
SAME("signed", typename internal::SignedType<uint16_t>::type, int16_t);
SAME("signed", typename internal::SignedType<int32_t>::type, int32_t);
SAME("signed", typename internal::SignedType<uint32_t>::type, int32_t);
SAME("signed", typename internal::SignedType<int64_t>::type, int64_t);
SAME("signed", typename internal::SignedType<uint64_t>::type, int64_t);
// Unsigned type of the same size.
SAME("unsigned", typename MakeUnsigned<int8_t>::type, uint8_t);
SAME("unsigned", typename MakeUnsigned<uint8_t>::type, uint8_t);
SAME("unsigned", typename MakeUnsigned<int16_t>::type, uint16_t);
SAME("unsigned", typename MakeUnsigned<uint16_t>::type, uint16_t);
SAME("unsigned", typename MakeUnsigned<int32_t>::type, uint32_t);
SAME("unsigned", typename MakeUnsigned<uint32_t>::type, uint32_t);
SAME("unsigned", typename MakeUnsigned<int64_t>::type, uint64_t);
SAME("unsigned", typename MakeUnsigned<uint64_t>::type, uint64_t);
SAME("unsigned", typename MakeUnsigned<absl::int128>::type, absl::uint128);
SAME("unsigned", typename MakeUnsigned<absl::uint128>::type, absl::uint128);
// Width of W with the signedness of S, for every pair.
#define SS1(W, UW, S, US)                                                                   \
  static_assert(std::is_same_v<typename SameSignedType<W, S>::type, W>, "same-signed");     \
  static_assert(std::is_same_v<typename SameSignedType<UW, S>::type, W>, "same-signed");    \
  static_assert(std::is_same_v<typename SameSignedType<W, US>::type, UW>, "same-signed");   \
  static_assert(std::is_same_v<typename SameSignedType<UW, US>::type, UW>, "same-signed");
#define SS(W, UW)                 \
  SS1(W, UW, int8_t, uint8_t)     \
  SS1(W, UW, int16_t, uint16_t)   \
  SS1(W, UW, int32_t, uint32_t)   \
  SS1(W, UW, int64_t, uint64_t)
SS(int8_t, uint8_t)
SS(int16_t, uint16_t)
SS(int32_t, uint32_t)
SS(int64_t, uint64_t)
// Integer images of the floating point types.
#define FPI(T, S)                                                                                   \
  static_assert(std::is_same_v<typename FPTypeInfo<T>::UIntType, std::make_unsigned_t<S>>, "fp");   \
  static_assert(std::is_same_v<typename FPTypeInfo<T>::IntType, std::make_signed_t<S>>, "fp");
FPI(HalfFP, int16_t)
FPI(float, int32_t)
FPI(double, int64_t)
FPI(int16_t, int16_t)
FPI(uint16_t, int16_t)
FPI(int32_t, int32_t)
FPI(uint32_t, int32_t)
FPI(int64_t, int64_t)
FPI(uint64_t, int64_t)
static_assert(sizeof(HalfFP) == 2, "fp");
static_assert(IsMpactFp<HalfFP>::value, "is-fp");
static_assert(IsMpactFp<float>::value, "is-fp");
static_assert(IsMpactFp<double>::value, "is-fp");
static_assert(!IsMpactFp<int32_t>::value, "is-fp");
static_assert(!IsMpactFp<uint16_t>::value, "is-fp");
static_assert(!IsMpactFp<uint64_t>::value, "is-fp");
static_assert(!IsMpactFp<bool>::value, "is-fp");
// Membership in a variant, at every position.
struct A {};
struct B {};
struct C {};
struct D {};
using V0 = absl::variant<A>;
using V1 = absl::variant<A, B>;
using V2 = absl::variant<A, B, C, int, unsigned>;
static_assert(IsMemberOfVariant<V0, A>::value, "variant");
static_assert(!IsMemberOfVariant<V0, B>::value, "variant");
static_assert(IsMemberOfVariant<V1, A>::value, "variant");
static_assert(IsMemberOfVariant<V1, B>::value, "variant");
static_assert(!IsMemberOfVariant<V1, C>::value, "variant");
static_assert(IsMemberOfVariant<V2, A>::value, "variant");
static_assert(IsMemberOfVariant<V2, B>::value, "variant");
static_assert(IsMemberOfVariant<V2, C>::value, "variant");
static_assert(IsMemberOfVariant<V2, int>::value, "variant");
static_assert(IsMemberOfVariant<V2, unsigned>::value, "variant");
static_assert(!IsMemberOfVariant<V2, D>::value, "variant");
static_assert(!IsMemberOfVariant<V2, long>::value, "variant");
static_assert(!IsMemberOfVariant<V2, const int>::value, "variant");
static_assert(!IsMemberOfVariant<V2, A *>::value, "variant");
// The value of a scoped enumerator, in its underlying type.
enum class E8 : int8_t { kA = -5, kB = 127 };
enum class EU8 : uint8_t { kA = 200 };
enum class E16 : int16_t { kA = -30000 };
enum class E32 { kA = -7, kB = 0x7fffffff };
enum class EU32 : uint32_t { kA = 0xffffffffu };
enum class E64 : int64_t { kA = -0x123456789all };
enum class EU64 : uint64_t { kA = 0xfedcba9876543210ull };
#define EN(E, U, x)                                           \
  static_assert(std::is_same_v<decltype(*E), U>, "enum");     \
  static_assert((*E) == (x), "enum");
EN(E8::kA, int8_t, -5)
EN(E8::kB, int8_t, 127)
EN(EU8::kA, uint8_t, 200)
EN(E16::kA, int16_t, -30000)
EN(E32::kA, int, -7)
EN(E32::kB, int, 0x7fffffff)
EN(EU32::kA, uint32_t, 0xffffffffu)
EN(E64::kA, int64_t, -0x123456789all)
EN(EU64::kA, uint64_t, 0xfedcba9876543210ull)
