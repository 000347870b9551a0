// Makes the helpers visible to the analysis; nothing here is ever executed.
#include <cstdint>

#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/generic/variant_helper.h"

namespace verif_unit {
using mpact::sim::generic::FPTypeInfo;
using mpact::sim::generic::HalfFP;

// One class per type: observes the helpers through their public names.
template <typename T>
struct FpProbe {
  static bool IsInf(T v) { return FPTypeInfo<T>::IsInf(v); }
  static bool IsNaN(T v) { return FPTypeInfo<T>::IsNaN(v); }
  static bool IsSNaN(T v) { return FPTypeInfo<T>::IsSNaN(v); }
  static bool IsQNaN(T v) { return FPTypeInfo<T>::IsQNaN(v); }
  static bool SignBit(T v) { return FPTypeInfo<T>::SignBit(v); }
  static int BitSize() { return FPTypeInfo<T>::kBitSize; }
  static int ExpSize() { return FPTypeInfo<T>::kExpSize; }
  static int ExpBias() { return FPTypeInfo<T>::kExpBias; }
  static int SigSize() { return FPTypeInfo<T>::kSigSize; }
  static uint64_t ExpMask() { return FPTypeInfo<T>::kExpMask; }
  static uint64_t SigMask() { return FPTypeInfo<T>::kSigMask; }
  static uint64_t InfMask() { return FPTypeInfo<T>::kInfMask; }
  static uint64_t CanonicalNaN() { return FPTypeInfo<T>::kCanonicalNaN; }
  static uint64_t PosInf() { return FPTypeInfo<T>::kPosInf; }
  static uint64_t NegInf() { return FPTypeInfo<T>::kNegInf; }
};
template struct FpProbe<HalfFP>;
template struct FpProbe<float>;
template struct FpProbe<double>;
template struct FpProbe<uint16_t>;
template struct FpProbe<int16_t>;
template struct FpProbe<uint32_t>;
template struct FpProbe<int32_t>;
template struct FpProbe<uint64_t>;
template struct FpProbe<int64_t>;

inline uint32_t HalfBits(uint16_t h) {
  HalfFP half;
  half.value = h;
  float f = mpact::sim::generic::ConvertHalfToSingle(half);
  return *reinterpret_cast<uint32_t *>(&f);
}
inline bool ProbeHalf(int what, uint16_t h) {
  HalfFP half;
  half.value = h;
  switch (what) {
    case 0:
      return FPTypeInfo<HalfFP>::IsInf(half);
    case 1:
      return FPTypeInfo<HalfFP>::IsNaN(half);
    case 2:
      return FPTypeInfo<HalfFP>::IsSNaN(half);
    case 3:
      return FPTypeInfo<HalfFP>::IsQNaN(half);
    default:
      return FPTypeInfo<HalfFP>::SignBit(half);
  }
}
uint32_t Anchor(uint16_t h) { return HalfBits(h) + ProbeHalf(0, h); }
}  // namespace verif_unit
