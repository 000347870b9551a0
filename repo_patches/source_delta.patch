From 1c231b7e281c0d2673bdfffba9287bcbc5db0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:31 +0000
Subject: [PATCH 001/109] fix: clear the real free list buckets in
 DataBufferFactory::Clear

The buckets were copied, so the freed buffers stayed on the free list and
were handed out again, or freed a second time by the destructor.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From 79e16ae705520b764a87e948727948359439defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:31 +0000
Subject: [PATCH 002/109] fix: reject index -1 in the DataBuffer element
 accessors

(index + 1) wraps to zero for index -1 (and for UINT_MAX in Get), so the
bounds assertion held and memory in front of the buffer was accessed.
---
 mpact/sim/generic/data_buffer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..42960e6 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -15,6 +15,7 @@
 #ifndef MPACT_SIM_GENERIC_DATA_BUFFER_H_
 #define MPACT_SIM_GENERIC_DATA_BUFFER_H_
 
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <vector>
@@ -152,7 +153,8 @@ class DataBuffer : public ReferenceCount {
   // it contains entries of type ElementType.
   template <typename ElementType>
   inline void Set(int index, ElementType value) {
-    ABSL_HARDENING_ASSERT((index + 1) * sizeof(ElementType) <= size_);
+    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
+                          size_ / sizeof(ElementType));
     reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
   }
 
@@ -169,7 +171,8 @@ class DataBuffer : public ReferenceCount {
   // Combined Set element and Submit.
   template <typename ElementType>
   inline void SetSubmit(int index, ElementType value) {
-    ABSL_HARDENING_ASSERT((index + 1) * sizeof(ElementType) <= size_);
+    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
+                          size_ / sizeof(ElementType));
     reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
     Submit(latency_);
   }
@@ -189,7 +192,8 @@ class DataBuffer : public ReferenceCount {
   // it contains entries of type ElementType.
   template <typename ElementType>
   inline ElementType Get(unsigned index) const {
-    ABSL_HARDENING_ASSERT((index + 1) * sizeof(ElementType) <= size_);
+    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
+                          size_ / sizeof(ElementType));
     return reinterpret_cast<ElementType*>(raw_ptr_)[index];
   }
 
-- 
2.43.0


From 8c2b01e81225b4f1f2e030ac811788ccd727ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:31 +0000
Subject: [PATCH 003/109] fix: grow the delay line when the latency equals its
 size

With a latency equal to the (power of two) size, Resize() computed an
unchanged size but still moved the wrapped entries past the end of the
vector, corrupting memory and losing pending entries.
---
 mpact/sim/generic/delay_line.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..f47b26b 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -118,9 +118,9 @@ class DelayLine : public DelayLineInterface {
   // resized so the latency is covered.
   void Resize(
       uint32_t min_size) /*ABSL_EXCLUSIVE_LOCKS_REQUIRED(delay_line_lock_)*/ {
-    // Compute a new size that's >= min_size and is a power of 2
+    // Compute a new size that's > min_size and is a power of 2
     // Given that the initial size is a power of two, multiplying the
-    // current size by two until it's greater or equal to min_size is
+    // current size by two until it's greater than min_size is
     // sufficient.
     uint32_t prev_size = delay_line_.size();
 
@@ -128,7 +128,7 @@ class DelayLine : public DelayLineInterface {
       return;
     }
 
-    uint32_t new_size = absl::bit_ceil(min_size);
+    uint32_t new_size = absl::bit_ceil(min_size + 1);
 
     mask_ = new_size - 1;
     delay_line_.resize(new_size);
-- 
2.43.0


From b7dc97abe5c23edb5054625e6d048e0429a597aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 004/109] fix: initialize the submission attributes of a new
 DataBuffer

Submit() tests destination_ for nullptr, but the constructor left it (and
the latency) indeterminate, so submitting a new buffer without setting a
destination used an arbitrary pointer.
---
 mpact/sim/generic/data_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index 42960e6..0648736 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -273,10 +273,10 @@ class DataBuffer : public ReferenceCount {
 
  private:
   explicit DataBuffer(unsigned size);
-  DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferFactory* db_factory_ = nullptr;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
-- 
2.43.0


From 218ef6c3858ccaaf86ad52facc8ce7b02712c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:43 +0000
Subject: [PATCH 005/109] fix: don't release the data buffer twice in
 StatusRegisterBase

DataBuffer::Submit and the delay line release the submitted reference
themselves, so the extra DecRef() in SetDataBuffer released it twice.
---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..fba50eb 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so ignore the data buffer. The reference is owned,
+    // and released, by the caller.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From 1b7d77ffdbed6a91530e3e971cc43f8c460e0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:26 +0000
Subject: [PATCH 006/109] fix: propagate the error and free the operand in
 TemplateNegate

When the value of a constant operand could not be computed, Evaluate()
returned the (OK) status of the operand evaluation and leaked the operand.
---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From cc0f047bbe18bdd4020dda4304f84816a970c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 007/109] fix: report the overflow of a template division
 instead of trapping

---
 mpact/sim/decoder/template_expression.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 3e94409..6217885 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -15,6 +15,7 @@
 #include "mpact/sim/decoder/template_expression.h"
 
 #include <functional>
+#include <limits>
 #include <variant>
 
 #include "absl/status/status.h"
@@ -100,6 +101,11 @@ static absl::StatusOr<TemplateValue> operator/(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
         if (rhs_value == 0) return absl::InternalError("Divide by zero");
+        // The quotient is not representable, and the division traps.
+        if ((rhs_value == -1) &&
+            (lhs_value == std::numeric_limits<int>::min())) {
+          return absl::InternalError("Overflow in divide");
+        }
         return lhs_value / rhs_value;
       });
 }
-- 
2.43.0


From e72932235aa02e0bc3314c5413a69a5c1e8b45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 008/109] fix: use the double layout in FPTypeInfo for 64 bit
 integers

---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From bd971b08a2b57ce775dbd78775376c4a5ff071a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 009/109] fix: FPTypeInfo SignBit was never true for signed
 integer types

---
 mpact/sim/generic/type_helpers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..7e13221 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,9 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -359,7 +361,9 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -417,7 +421,9 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 683f30028660a8df747a16860021b860e76fa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:35 +0000
Subject: [PATCH 010/109] fix: registers survive an update with the data buffer
 they already hold

---
 mpact/sim/generic/register.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..860fab7 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,12 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Acquire the new reference before releasing the old one, as the register may
+  // be updated with the data buffer it already holds.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 973d05114dd8016c4b29d72838e9a7393c2b77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 011/109] fix: token fifo keeps its tokens in step with its
 elements

---
 mpact/sim/generic/token_fifo.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..1cbe89a 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -52,12 +52,13 @@ TokenFifoBase::TokenFifoBase(ArchState* arch_state, absl::string_view name,
 
 // The fifo is full if it is at capacity or if there are no token available.
 bool TokenFifoBase::IsFull() const {
-  return (token_store_->available() == 0) ||
+  return FifoBase::IsFull() || (token_store_->available() == 0) ||
          (Reserved() >= token_store_->available());
 }
 
 bool TokenFifoBase::IsOverSubscribed() const {
-  return Reserved() > token_store_->available();
+  return FifoBase::IsOverSubscribed() ||
+         (Reserved() > token_store_->available());
 }
 
 bool TokenFifoBase::Push(DataBuffer* db) {
@@ -67,7 +68,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // No token is consumed unless the element is actually pushed.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
@@ -81,7 +83,9 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  // The fifo may have reserved slots without having any elements. In that case
+  // there is no token to release.
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From edc22d6eadf2276fc04ad60bd1bd9cf878c16191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:10 +0000
Subject: [PATCH 012/109] fix: register the depth configuration of a fifo so it
 can be imported

---
 mpact/sim/generic/fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..633bab5 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,8 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  // Register the depth so that it can be imported.
+  AddConfig(&depth_).IgnoreError();
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From 93d3897e35be6268f72bdba76cfa735ac848ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:35 +0000
Subject: [PATCH 013/109] fix: grow the resource bitset to hold the bit that is
 set, allow self assignment

---
 mpact/sim/generic/resource_bitset.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
@@ -58,7 +59,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From 36211715db632ba7971fa5c3cc196b562bc780fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:35 +0000
Subject: [PATCH 014/109] fix: a simple resource acquired with latency 0 is
 released immediately

---
 mpact/sim/generic/simple_resource_operand.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..040da4a 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -80,8 +80,8 @@ class SimpleResourceOperand : public ResourceOperandInterface {
 
   void Acquire() override {
     resource_set_->Acquire();
-    // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    // Schedule release (immediate if the latency is 0).
+    Release();
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From b4259f5541375e7019a4bdd36ced2df4c560e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:16 +0000
Subject: [PATCH 015/109] fix: size and validate the cycle mask of a complex
 resource operand

---
 mpact/sim/generic/complex_resource_operand.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..224b6a4 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
@@ -73,10 +73,11 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. Only
+  // the last word of a full length span can have any such bits.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      ((span.back() >> mod) != 0)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -89,6 +90,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   if (or_value == 0) {
     return absl::InvalidArgumentError("No bits set in input span");
   }
+  span_size_ = span.size();
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
-- 
2.43.0


From da44990f593b2a1097c81b1e70c15d30bf23fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 016/109] fix: keep the instruction of a delayed FlatMemory
 load alive

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..a7e4114 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // The instruction and the context (if non-null) have to stay alive until
+      // the lambda is called.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // The instruction and the context (if non-null) have to stay alive until
+      // the lambda is called.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From 3e83dbc847a7bab618fe573ac55ad74d6b5d03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 017/109] fix: FlatDemandMemory with a non-zero base and no
 size covers the rest of memory

---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..839cb54 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <utility>
 
 #include "absl/base/macros.h"
@@ -35,6 +36,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
       max_address_(base_address + memory_size_in_units),
       fill_value_(fill),
       allocation_byte_size_(kAllocationSize * addressable_unit_size) {
+  // Limit the max address to the end of the address space.
+  if (max_address_ < base_address_) {
+    max_address_ = std::numeric_limits<uint64_t>::max();
+  }
   // Compute the addressable unit shift.
   ABSL_HARDENING_ASSERT(
       (addressable_unit_size != 0) &&
-- 
2.43.0


From d24104d7e14c32f310d8991739d96d59617ce862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 018/109] fix: the tag memory covers a partial granule at the
 end of memory

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..69db376 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <bit>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
@@ -46,8 +47,14 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // The tag memory has to cover every granule of which any part is in range.
+  uint64_t last_address = base_address + memory_size_in_units - 1;
+  if (last_address < base_address) {
+    last_address = std::numeric_limits<uint64_t>::max();
+  }
+  uint64_t first_tag = base_address >> tag_granule_shift_;
+  uint64_t last_tag = last_address >> tag_granule_shift_;
+  tag_memory_ = new FlatDemandMemory(last_tag - first_tag + 1, first_tag, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From eba22a6b3c20f1dbb9b225dba243024a918bfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 019/109] fix: clear the tags of every element of a unit stride
 vector store

---
 .../util/memory/tagged_flat_demand_memory.cc    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 69db376..3e1585a 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -113,19 +113,22 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
-  // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // bit address version of the Store() call for each set of tags. With a single
+  // address this is a unit stride store, otherwise it is a scatter store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    uint64_t address =
+        scatter ? address_span[i] : address_span[0] + i * el_size;
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    ClearTags(address, el_size);
   }
 }
 
-- 
2.43.0


From e5c212385ea578f40a507e42d086e534dd83e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 020/109] fix: a store removes the load linked tag of every
 granule it writes

---
 mpact/sim/util/memory/atomic_memory.cc        | 30 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 +
 mpact/sim/util/memory/atomic_tagged_memory.cc | 37 +++++++++++--------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 +
 4 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..775c479 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,23 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If the address range matches any tags, remove the tags.
+  ClearTags(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // If the address range of a store matches any tags, remove the tags. With a
+  // single address this is a unit stride store, otherwise a scatter store.
+  auto address_span = address_db->Get<uint64_t>();
+  auto mask_span = mask_db->Get<bool>();
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -242,6 +242,14 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   return absl::OkStatus();
 }
 
+void AtomicMemory::ClearTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty() || size <= 0) return;
+  uint64_t last_tag = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last_tag; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
                              DataBuffer* db) {
   if (inst != nullptr) {
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..084b050 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -74,6 +74,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags of the given range of memory.
+  void ClearTags(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..431e446 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,30 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If the address range matches any tags, remove the tags.
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If the address range matches any tags, remove the tags.
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // If the address range of a store matches any tags, remove the tags. With a
+  // single address this is a unit stride store, otherwise a scatter store.
+  auto address_span = address_db->Get<uint64_t>();
+  auto mask_span = mask_db->Get<bool>();
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -262,6 +259,14 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   return absl::OkStatus();
 }
 
+void AtomicTaggedMemory::ClearTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty() || size <= 0) return;
+  uint64_t last_tag = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last_tag; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
                                    DataBuffer* db) {
   if (inst != nullptr) {
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..e7569f0 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -80,6 +80,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags of the given range of memory.
+  void ClearTags(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
-- 
2.43.0


From c568bb3ab2b0bc9916c1c422d8cb98bfda5fa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 021/109] fix: an atomic read-modify-write removes the load
 linked tag it writes to

---
 mpact/sim/util/memory/atomic_memory.cc        | 4 ++--
 mpact/sim/util/memory/atomic_tagged_memory.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 775c479..d476c5b 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -210,7 +210,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
-    memory_->Store(address, tmp_db);
+    Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
   }
@@ -237,7 +237,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
-  memory_->Store(address, tmp_db);
+  Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
 }
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 431e446..ee05816 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -227,7 +227,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
-    tagged_memory_->Store(address, tmp_db);
+    Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
   }
@@ -254,7 +254,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
-  tagged_memory_->Store(address, tmp_db);
+  Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
 }
-- 
2.43.0


From c61838c25ca5f97442be27cbebd3dd2f1351d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 022/109] fix: AtomicTaggedMemory stores the tags of a tagged
 store

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index ee05816..90e0d4b 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -143,7 +143,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   // If the address range matches any tags, remove the tags.
   ClearTags(address, db->size<uint8_t>());
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 1993b0ca5203935b5d4205d8bb53baa1ecf2975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 023/109] fix: a store conditional removes the load linked tag
 of every granule it writes

---
 mpact/sim/util/memory/atomic_memory.cc        | 3 +--
 mpact/sim/util/memory/atomic_tagged_memory.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index d476c5b..5ffa4da 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -175,8 +175,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
-      memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      Store(address, db);
       value = 0;
     }
     auto res = WriteDb(db, value);
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 90e0d4b..cedb1a0 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -192,8 +192,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
-      tagged_memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      Store(address, db);
       value = 0;
     }
     auto res = WriteDb(db, value);
-- 
2.43.0


From bbf4378ba8106a67e06d9bd8c339dd0ff9380c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 024/109] fix: watch every element of unit stride vector
 accesses

---
 mpact/sim/util/memory/memory_watcher.cc        | 10 ++++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..0263f62 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -111,10 +111,13 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    // A single address is used for unit stride accesses.
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -147,10 +150,13 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    // A single address is used for unit stride accesses.
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..7edd062 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -112,10 +112,13 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    // A single address is used for unit stride accesses.
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -163,10 +166,13 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    // A single address is used for unit stride accesses.
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 96060b20b13f0845e6dd6d9d0a198fb6f49fc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 025/109] fix: execute the instruction of a load of only the
 tags of untagged memory

---
 .../tagged_to_untagged_memory_transactor.cc   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..ab1ed04 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,8 +61,24 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
-  target_mem_->Load(address, db, inst, context);
+  if (db != nullptr) {
+    target_mem_->Load(address, db, inst, context);
+    return;
+  }
+  // This is a load of only the tags, so there is no access to the target memory
+  // that executes the instruction.
+  if (inst == nullptr) return;
+  if (tags->latency() == 0) {
+    inst->Execute(context);
+    return;
+  }
+  inst->IncRef();
+  if (context != nullptr) context->IncRef();
+  inst->state()->function_delay_line()->Add(tags->latency(), [inst, context]() {
+    inst->Execute(context);
+    if (context != nullptr) context->DecRef();
+    inst->DecRef();
+  });
 }
 
 // For tagged stores, ignore the tags. just forward to the target mem interface.
-- 
2.43.0


From 8fa9902468d6f35b97ca4d4f0ef6750421583460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 026/109] fix: route memory accesses by exactly the bytes they
 access

---
 mpact/sim/util/memory/single_initiator_router.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..d8a6aeb 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -142,7 +142,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
   // Since the plain memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -265,7 +265,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
+  auto it = memory_targets_.find({address, address + size - 1});
   if (it != memory_targets_.end()) {
     auto& range = it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -279,7 +279,7 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   // Since the plain memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -340,7 +340,7 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
       auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
+      auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
@@ -350,7 +350,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
+        if ((range.base > address) || (range.top < address + el_size - 1))
+          break;
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From f27a6e547d27db627ba39114b591929f9a6aaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 027/109] fix: don't route a vector access to the target of
 only its first elements

---
 .../util/memory/single_initiator_router.cc    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d8a6aeb..2fcd30f 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -174,14 +174,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -208,14 +213,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
@@ -310,14 +320,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -344,14 +359,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From 0e766dc85f523fdcc6685c8b04f778fb3b7bc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 028/109] fix: route unit stride vector accesses by all their
 elements

---
 .../util/memory/single_initiator_router.cc    | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 2fcd30f..a27630d 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -164,12 +164,16 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  ReferenceCount* context) {
   // This is a vector load, so check each address that is not masked off.
   // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // With a single address this is a unit stride access.
+  int count = mask_db->size<uint8_t>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -208,7 +212,9 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
@@ -310,12 +316,16 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
   // This is a vector store, so check each address that is not masked off.
   // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // With a single address this is a unit stride access.
+  int count = mask_db->size<uint8_t>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -354,7 +364,9 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
-- 
2.43.0


From f63a8f128ffb260e03745749c849654a0ca3899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:16 +0000
Subject: [PATCH 029/109] fix: initialize the non-cacheable counters of a cache
 of tagged memory

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 58446b0aa5385b4296c3df80fe89ce8864ddd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:18 +0000
Subject: [PATCH 030/109] fix: complete tag only loads and loads without an
 instruction in the cache

---
 mpact/sim/util/memory/cache.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..845a71f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -301,11 +301,15 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   auto* cache_context = new CacheContext(context, db, inst, latency);
   if (context) context->IncRef();
   if (inst) inst->IncRef();
+  // The latency is accounted for when the cache instruction is executed.
   if (db) {
     db->set_latency(0);
     db->IncRef();
+  } else {
+    tags->set_latency(0);
   }
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
+  if (db == nullptr) tags->set_latency(latency);
   cache_context->DecRef();
 }
 
@@ -346,11 +350,11 @@ void Cache::LoadChild(const Instruction* inst) {
   auto* db = cache_context->db;
   auto* og_inst = cache_context->inst;
   // Reset the db latency to the original value.
+  if (db != nullptr) db->set_latency(cache_context->latency);
   if (nullptr != og_inst) {
     if (cache_context->latency > 0) {
-      if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
@@ -360,6 +364,8 @@ void Cache::LoadChild(const Instruction* inst) {
       if (og_context != nullptr) og_context->DecRef();
       og_inst->DecRef();
     }
+  } else if (og_context != nullptr) {
+    og_context->DecRef();
   }
   if (db) db->DecRef();
 }
-- 
2.43.0


From a3658b72cf0661da680c153741e2aaa8750b773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 031/109] fix: mark cache lines that are allocated by writes
 dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 845a71f..774463c 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -475,7 +475,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From 7c829cf65d2b188c28dd532aac6bbc8ef7608a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 032/109] fix: look up every element of unit stride vector
 accesses in the cache

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 774463c..b5ba81f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, the elements are contiguous.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -324,9 +328,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, the elements are contiguous.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 7672ba001bd73b4214af7624b446695748209fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:19 +0000
Subject: [PATCH 033/109] fix: report cache configurations with malformed
 numbers as errors

---
 mpact/sim/util/memory/cache.cc | 37 +++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index b5ba81f..57ae8c3 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,7 +16,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
 #include <vector>
@@ -38,6 +40,17 @@ namespace mpact::sim::util {
 
 using ::mpact::sim::generic::Component;
 
+// Parse the number at the start of the string. Returns false if there is none,
+// or if it is out of range. The size is set to the number of characters used.
+static bool ParseNumber(const std::string& str, int base, uint64_t* value,
+                        std::string::size_type* size) {
+  char* end = nullptr;
+  errno = 0;
+  *value = std::strtoull(str.c_str(), &end, base);
+  *size = end - str.c_str();
+  return (*size != 0) && (errno == 0);
+}
+
 // Constructors.
 Cache::Cache(std::string name, Component* parent, MemoryInterface* memory)
     : Component(name, parent),
@@ -125,7 +138,10 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  if (!ParseNumber(config_vec[0], 10, &cache_size, &size)) {
+    return absl::InvalidArgumentError("Invalid value for cache size");
+  }
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -140,13 +156,14 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
-  if (size != config_vec[1].size()) {
+  uint64_t line_size;
+  if (!ParseNumber(config_vec[1], 10, &line_size, &size) ||
+      (size != config_vec[1].size())) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
-  if (size != config_vec[2].size()) {
+  if (!ParseNumber(config_vec[2], 10, &num_sets_, &size) ||
+      (size != config_vec[2].size())) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
@@ -165,13 +182,15 @@ absl::Status Cache::Configure(const std::string& config,
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
-    if (size != range_vec[1].size()) {
+    uint64_t range_start;
+    if (!ParseNumber(range_vec[1], 0, &range_start, &size) ||
+        (size != range_vec[1].size())) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
-    if (size != range_vec[2].size()) {
+    uint64_t range_end;
+    if (!ParseNumber(range_vec[2], 0, &range_end, &size) ||
+        (size != range_vec[2].size())) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid size");
     }
-- 
2.43.0


From 55d5dfc1e50af702ec766638113289b7da1e49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 034/109] fix: leave the cache configuration unchanged when
 Configure fails

---
 mpact/sim/util/memory/cache.cc | 43 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 57ae8c3..23e4360 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -21,8 +21,10 @@
 #include <cstdlib>
 #include <limits>
 #include <string>
+#include <utility>
 #include <vector>
 
+#include "absl/container/btree_set.h"
 #include "absl/functional/bind_front.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
@@ -130,7 +132,6 @@ absl::Status Cache::Configure(const std::string& config,
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -162,20 +163,24 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  if (!ParseNumber(config_vec[2], 10, &num_sets_, &size) ||
+  uint64_t num_sets;
+  if (!ParseNumber(config_vec[2], 10, &num_sets, &size) ||
       (size != config_vec[2].size())) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate = false;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
   // If there are more than 4 entries, check for cacheable, or non-cacheable
   // memory ranges. Format is: [c|nc]:<start_address>:<size>
+  absl::btree_multiset<AddressRange, AddressRangeLess> non_cacheable_ranges;
+  absl::btree_multiset<AddressRange, AddressRangeLess> cacheable_ranges;
   for (int i = 4; i < config_vec.size(); i++) {
     std::vector<std::string> range_vec = absl::StrSplit(config_vec[i], ':');
     if (range_vec.size() != 3) {
@@ -204,19 +209,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -226,7 +229,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -239,19 +242,27 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid, so apply it.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  has_cacheable_ = !cacheable_ranges.empty();
+  has_non_cacheable_ = !non_cacheable_ranges.empty();
+  cacheable_ranges_ = std::move(cacheable_ranges);
+  non_cacheable_ranges_ = std::move(non_cacheable_ranges);
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets_) - 1)) - 1;
-  set_shift_ = absl::bit_width(num_sets_) - 1;
+  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets) - 1)) - 1;
+  set_shift_ = absl::bit_width(num_sets) - 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 114d72c6be6930f18963153a3059e33e1b60fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 035/109] fix: don't mark the use of address 0 before there is
 a segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..2fc4237 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -59,7 +59,8 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   }
   size = std::min(size, 4);
   uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
+  if ((last_used_ != nullptr) && (address >= last_start_) &&
+      (address + size - 1 <= last_end_)) {
     return MarkUsedBits(address - last_start_, mask, last_used_);
   }
   auto it = memory_use_map_.find(
-- 
2.43.0


From cc2fe54c80a5b64d9f9ba8d197d9e91807e97da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 036/109] fix: mark every word of an access in the memory use
 profile

---
 mpact/sim/util/memory/memory_use_profiler.cc | 29 ++++++++++++--------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 ++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 2fc4237..baea063 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -40,31 +39,37 @@ MemoryUseTracker::~MemoryUseTracker() {
 }
 
 // Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
+static inline void MarkUsedBit(uint64_t byte_offset, uint8_t* bits) {
   // Shift right by two, so that every byte offset becomes a word offset.
   uint64_t word_offset = byte_offset >> 2;
   // Byte offs
   uint64_t byte_index = word_offset >> 3;
   int bit_index = word_offset & 0b111;
 
-  bits[byte_index] |= (mask << bit_index);
+  bits[byte_index] |= (1 << bit_index);
 }
 
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
+  // The profiling is done on a word boundary, so each word that any of the
+  // bytes belongs to is marked by a single bit.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
+  uint64_t first_word = address / kGranularity;
+  uint64_t last_word = (address + size - 1) / kGranularity;
+  for (uint64_t word = first_word; word <= last_word; ++word) {
+    MarkWordUsed(word * kGranularity);
+  }
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
   if ((last_used_ != nullptr) && (address >= last_start_) &&
-      (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+      (address <= last_end_)) {
+    return MarkUsedBit(address - last_start_, last_used_);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
+  auto it =
+      memory_use_map_.find(MemoryWatcher::AddressRange{address, address});
   if (it == memory_use_map_.end()) {
     // Compute new base and top addresses.
     uint64_t start = address & ~kBaseMask;
@@ -80,7 +85,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   last_start_ = it->first.start;
   last_end_ = it->first.end;
   last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  MarkUsedBit(address - last_start_, it->second);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..14ed079 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Mark the word that contains the byte at the given address.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From be028de2ab4aa663008e3032405c71542128f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 037/109] fix: write out used ranges that reach the end of a
 segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index baea063..6d64ae9 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -94,8 +94,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   uint64_t range_start = 0;
   uint64_t range_end = 0;
   bool range_started = false;
+  // The end address of the previous segment.
+  uint64_t previous_end = 0;
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range that reaches the end of the previous segment continues only if
+    // this segment is adjacent to it.
+    if (range_started && (base != previous_end + 1)) {
+      range_end = previous_end + 1 - kGranularity;
+      os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
+                            range_end - range_start + 4);
+      range_started = false;
+    }
+    previous_end = range.end;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -134,6 +145,12 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  // Output the range that reaches the end of the last segment.
+  if (range_started) {
+    range_end = previous_end + 1 - kGranularity;
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
+                          range_end - range_start + 4);
+  }
 }
 
 }  // namespace internal
-- 
2.43.0


From 4fec815ad3c3da966589dc81693e82b44aa036f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 038/109] fix: profile every element of unit stride vector
 accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 36 +++++++++-----------
 mpact/sim/util/memory/memory_use_profiler.h  |  2 ++
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 6d64ae9..1050585 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -63,6 +63,18 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   }
 }
 
+void MemoryUseTracker::MarkUsed(DataBuffer* address_db, DataBuffer* mask_db,
+                                int el_size) {
+  // If there is only one address, the elements are contiguous.
+  bool gather = address_db->size<uint64_t>() > 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (!mask_db->Get<uint8_t>(i)) continue;
+    uint64_t address = gather ? address_db->Get<uint64_t>(i)
+                              : address_db->Get<uint64_t>(0) + i * el_size;
+    MarkUsed(address, el_size);
+  }
+}
+
 void MemoryUseTracker::MarkWordUsed(uint64_t address) {
   if ((last_used_ != nullptr) && (address >= last_start_) &&
       (address <= last_end_)) {
@@ -170,11 +182,7 @@ void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -187,11 +195,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -213,11 +217,7 @@ void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
@@ -239,11 +239,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    tracker_.MarkUsed(address_db, mask_db, el_size);
   }
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index 14ed079..394a986 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -54,6 +54,8 @@ class MemoryUseTracker {
   // Size of each 'use' bit store.
   static constexpr int kBitsSize = kSegmentSize / (kGranularity * 8);
   void MarkUsed(uint64_t address, int size);
+  // Mark the elements of a vector access.
+  void MarkUsed(DataBuffer* address_db, DataBuffer* mask_db, int el_size);
   void WriteUseProfile(std::ostream& os) const;
 
  private:
-- 
2.43.0


From abbd73342e76353f58e078db0cca5a53e72e94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 039/109] fix: DecodeCache::Create returns nullptr instead of
 crashing on a bad pc increment

The destructor of the half built cache invalidated entries of an array that
was never allocated, and an increment of zero shifted by -1.
---
 mpact/sim/generic/decode_cache.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..8f851e4 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -28,14 +28,13 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
     : decoder_(decoder), instruction_cache_(nullptr) {
   num_entries_ = absl::bit_ceil(props.num_entries);
-  address_shift_ =
-      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
-  address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
     // minimum pc increment not a power of 2.
     instruction_cache_ = nullptr;
     return;
   }
+  address_shift_ = absl::bit_width(props.minimum_pc_increment) - 1;
+  address_inc_ = props.minimum_pc_increment;
   address_mask_ = (num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
@@ -50,7 +49,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
 }
 
 DecodeCache::~DecodeCache() {
-  InvalidateAll();
+  if (instruction_cache_ != nullptr) InvalidateAll();
   delete[] instruction_cache_;
   instruction_cache_ = nullptr;
 }
-- 
2.43.0


From 0b273eefc492a03cd4e647cc30e3f61576aba0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 040/109] fix: compute the decode cache address mask in 64 bits

The mask overflowed int for large caches or pc increments, which gave entry
numbers outside of the cache.
---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 8f851e4..94f6835 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -35,7 +35,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
   }
   address_shift_ = absl::bit_width(props.minimum_pc_increment) - 1;
   address_inc_ = props.minimum_pc_increment;
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From eab8eaf3f97a6070e1d6afb6a0b2ea2fde36eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 041/109] fix: DecodeCache::InvalidateRange handles unaligned
 and wrapping ranges

Stepping from an unaligned start address never matched an instruction
address, and a range that ends within one pc increment of the end of the
address space looped forever.
---
 mpact/sim/generic/decode_cache.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 94f6835..9043eed 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/generic/decode_cache.h"
 
+#include <algorithm>
 #include <cstdint>
 
 #include "absl/numeric/bits.h"
@@ -103,8 +104,18 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (start_address >= end_address) return;
+  // Visit every entry that an instruction in the range may occupy (once).
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t count =
+      std::min(last - first + 1, static_cast<uint64_t>(num_entries_));
+  for (uint64_t i = 0; i < count; ++i) {
+    Instruction* inst = instruction_cache_[(first + i) & (num_entries_ - 1)];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      Invalidate(inst->address());
+    }
   }
 }
 
-- 
2.43.0


From a6a167e0e72e767f40122ca8ce3628fe6a51b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 042/109] fix: Instruction::SetAttributes releases the previous
 array with delete[]

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..885d24e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -112,7 +112,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From 0c7e4cde29dc8f34bcae148913deb6ce8da59d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 043/109] fix: children of an Instruction do not keep a
 dangling parent pointer

Only the first child's parent pointer was reset when the parent was
destroyed, so any other child that was still referenced wrote to the parent
when it was destroyed later.
---
 mpact/sim/generic/instruction.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 885d24e..88d736a 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -94,16 +94,19 @@ Instruction::~Instruction() {
     delete op;
   }
   resource_acquire_.clear();
-  if (parent_ != nullptr) {
+  if ((parent_ != nullptr) && (parent_->child_ == this)) {
     // remove reference to this from the parent
     parent_->child_ = nullptr;
   }
+  // The children may outlive this instruction.
+  for (auto* child = child_; child != nullptr; child = child->next_) {
+    if (child->parent_ == this) child->parent_ = nullptr;
+  }
   if (next_ != nullptr) {
     next_->DecRef();
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From b6157a30689c4072d01fbcdd207915ca91016a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 044/109] fix: PerformActions does nothing at an address
 without an action point

It logged the error and then dereferenced the end iterator.
---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From 2984cfb93e98002bdcd78923b83ea69512203980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 045/109] fix: a failed memory write leaves the action point as
 it was

EnableAction, DisableAction and ClearAction changed their state before the
write, so after an error an action was reported as enabled (or removed)
although the instruction in memory says otherwise, and a retry did nothing.
---
 .../sim/generic/action_point_manager_base.cc  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..ad1011e 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,17 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +116,13 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If this will be the only active action, write a breakpoint instruction.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +142,14 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If this is the only active action, write back the original instruction.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From ab1003c5482e12c1af060177dad896d51e3355ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 046/109] fix: Component::AddCounter and AddConfig reject
 nullptr

The check in AddMapEntry came after the pointer was dereferenced.
---
 mpact/sim/generic/component.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index a4aa0f7..d3e6e62 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -78,12 +78,14 @@ absl::Status Component::AddChildComponent(Component& child) {
   return absl::OkStatus();
 }
 absl::Status Component::AddCounter(CounterBaseInterface* counter) {
+  if (counter == nullptr) return absl::InvalidArgumentError("entry is nullptr");
   if (!counter->IsInitialized()) {
     return absl::InvalidArgumentError("Counter has not been initialized");
   }
   return AddMapEntry(counter->GetName(), counter, &counter_map_);
 }
 absl::Status Component::AddConfig(ConfigBase* config) {
+  if (config == nullptr) return absl::InvalidArgumentError("entry is nullptr");
   return AddMapEntry(config->name(), config, &config_map_);
 }
 
-- 
2.43.0


From 5461515c068cd1ed86512b318b856d68d9747096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 047/109] fix: a Config without a default value is value
 initialized

Component::Export exports every registered Config, and read an indeterminate
value for one that was never set.
---
 mpact/sim/generic/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/config.h b/mpact/sim/generic/config.h
index 346804b..0eafd9a 100644
--- a/mpact/sim/generic/config.h
+++ b/mpact/sim/generic/config.h
@@ -177,7 +177,7 @@ class Config : public ConfigBase {
   // Imports the value from the proto message.
   absl::Status ImportValue(const proto::ComponentValueEntry* entry);
   bool has_value_ = false;
-  T value_;
+  T value_{};
   std::vector<ValueWrittenCallback> value_written_callback_vector_;
 };
 
-- 
2.43.0


From 2632dfd44c1cd4943c62024a795629d6c217d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 048/109] fix: socket stream buffer delivered stale characters
 after a read error

---
 mpact/sim/util/renode/socket_streambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..f1f127e 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -50,10 +50,10 @@ class SocketStreambuf : public std::streambuf {
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     if (ch_ == '\r') {
       count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      if (count <= 0) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
-- 
2.43.0


From be085e3ab8bbacc8a892ad7c1eae351d6690e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 049/109] fix: socket stream buffer closed its descriptor twice

---
 mpact/sim/util/renode/socket_streambuf.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index f1f127e..c11c89f 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -31,12 +31,15 @@ namespace renode {
 class SocketStreambuf : public std::streambuf {
  public:
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override { close(fd_); }
+  ~SocketStreambuf() override {
+    if (fd_ != -1) close(fd_);
+  }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) {
-      close(fd_);
+      if (fd_ != -1) close(fd_);
+      fd_ = -1;
       return c;
     }
     if (c == '\xa') {
-- 
2.43.0


From 1b41a2313e959524d1f1637ca710a1406ab0127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 050/109] fix: socket stream buffer reported success for
 characters it could not send

---
 mpact/sim/util/renode/socket_streambuf.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index c11c89f..5cb8081 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -43,11 +43,9 @@ class SocketStreambuf : public std::streambuf {
       return c;
     }
     if (c == '\xa') {
-      write(fd_, "\r\n", 2);
-      return c;
+      return (write(fd_, "\r\n", 2) == 2) ? c : EOF;
     }
-    write(fd_, &c, 1);
-    return c;
+    return (write(fd_, &c, 1) == 1) ? c : EOF;
   }
 
   // On underflow read character from the socket fd.
-- 
2.43.0


From 2551f69852899016601cb10a37a81e0dbede83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 051/109] fix: generated ExtractBits shifts in the width of the
 field's type

---
 mpact/sim/decoder/bin_format_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..3397329 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -78,7 +78,7 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   while (bits_left > 0) {
     int bwidth = std::min(8 - blsb, bits_left);
     uint8_t bmask = ((1 << bwidth) - 1) << blsb;
-    val |= ((data[byte_low] & bmask) >> blsb) << bits_extracted;
+    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
     blsb = 0;
     bits_left -= bwidth;
     bits_extracted += bwidth;
-- 
2.43.0


From cd1eeb860eb866b1aefaacc4b1b42f9e87d61d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 052/109] fix: unit stride vector accesses of memories with
 larger addressable units

---
 mpact/sim/util/memory/flat_demand_memory.cc |  5 +++--
 mpact/sim/util/memory/flat_memory.h         | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 839cb54..f3e7d61 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -102,7 +102,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -165,7 +166,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..32af952 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -111,10 +111,11 @@ class FlatMemory : public MemoryInterface {
     bool gather = addresses.size() > 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
-        uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+        // The elements of a unit stride access are consecutive in memory.
+        uint64_t address = gather ? addresses[entry] : addresses[0];
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
+        if (!gather) offset += entry * sizeof(T);
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
         db->Set<T>(entry, *reinterpret_cast<T*>(&memory_buffer_[offset]));
       }
@@ -131,10 +132,11 @@ class FlatMemory : public MemoryInterface {
     bool gather = addresses.size() > 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
-        uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+        // The elements of a unit stride access are consecutive in memory.
+        uint64_t address = gather ? addresses[entry] : addresses[0];
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
+        if (!gather) offset += entry * sizeof(T);
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
         *reinterpret_cast<T*>(&memory_buffer_[offset]) = db->Get<T>(entry);
       }
-- 
2.43.0


From d1db836916144cb8e0cd71c7f76204155441e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 053/109] fix: tag addresses of memories with larger
 addressable units

---
 .../util/memory/tagged_flat_demand_memory.cc  | 20 ++++++++++++-------
 .../util/memory/tagged_flat_demand_memory.h   |  3 +++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 3e1585a..54cc232 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -43,10 +43,13 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                                unsigned tag_granule)
     : tag_granule_(tag_granule) {
   if (!absl::has_single_bit(tag_granule_)) return;
+  // A tag cannot cover less than an addressable unit.
+  if (tag_granule_ < addressable_unit_size) return;
   data_memory_ = new FlatDemandMemory(memory_size_in_units, base_address,
                                       addressable_unit_size, fill);
-  // 8 tags per byte, so shift by log2(granule).
-  tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
+  unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  // One tag per granule, so shift by log2(granule in addressable units).
+  tag_granule_shift_ = absl::bit_width(tag_granule_) - 1 - unit_shift_;
   // The tag memory has to cover every granule of which any part is in range.
   uint64_t last_address = base_address + memory_size_in_units - 1;
   if (last_address < base_address) {
@@ -126,7 +129,8 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i]
+                : address_span[0] + i * (el_size >> unit_shift_);
     // Clear any affected tags.
     ClearTags(address, el_size);
   }
@@ -135,14 +139,15 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
 bool TaggedFlatDemandMemory::CheckRequest(uint64_t address,
                                           const DataBuffer* db,
                                           const DataBuffer* tags) {
-  uint64_t mask = (1ULL << tag_granule_shift_) - 1;
-  if (address & mask) {
+  uint64_t address_mask = (1ULL << tag_granule_shift_) - 1;
+  uint64_t size_mask = tag_granule_ - 1;
+  if (address & address_mask) {
     LOG(ERROR) << absl::StrCat(
         "Tagged load to ", absl::Hex(address, absl::kZeroPad16),
         " not aligned to tag granule (", tag_granule_, ")");
     return false;
   }
-  if ((db != nullptr) && (db->size<uint8_t>() & mask)) {
+  if ((db != nullptr) && (db->size<uint8_t>() & size_mask)) {
     LOG(ERROR) << absl::StrCat(
         "Size (", db->size<uint8_t>(), ") of tagged load to ",
         absl::Hex(address, absl::kZeroPad16),
@@ -184,7 +189,8 @@ void TaggedFlatDemandMemory::FinishLoad(int latency, Instruction* inst,
 // Clear the tags for the given range of memory.
 void TaggedFlatDemandMemory::ClearTags(uint64_t address, unsigned size) {
   uint64_t lo = address >> tag_granule_shift_;
-  uint64_t hi = (address + size - 1) >> tag_granule_shift_;
+  uint64_t hi =
+      (address + ((size - 1) >> unit_shift_)) >> tag_granule_shift_;
   int num_tags = hi - lo + 1;
   auto* tag_db = db_factory_->Allocate(num_tags);
   std::memset(tag_db->raw_ptr(), 0, num_tags);
diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.h b/mpact/sim/util/memory/tagged_flat_demand_memory.h
index 1c7bbf1..e40e005 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.h
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.h
@@ -125,7 +125,10 @@ class TaggedFlatDemandMemory : public TaggedMemoryInterface {
   void ClearTags(uint64_t address, unsigned size);
 
   unsigned tag_granule_;
+  // Shift from an address (in addressable units) to its tag.
   unsigned tag_granule_shift_;
+  // Shift from a number of bytes to a number of addressable units.
+  unsigned unit_shift_;
   FlatDemandMemory* data_memory_ = nullptr;
   FlatDemandMemory* tag_memory_ = nullptr;
   generic::DataBufferFactory* db_factory_ = nullptr;
-- 
2.43.0


From b28558306ed155f6bbd384cf4c6d8ef1cc83b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 054/109] fix: initialize the scratch register of SimpleUart

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From c7513016f1e27f0c9719c867ab0d80949d5615aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 055/109] fix: RenodeAgent forgets the name length of a
 destroyed instance

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..cfd4057 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From a3a696ccc839ccd09d5504c3d9b29ddaf5822e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 056/109] fix: RenodeAgent::Construct gave two instances the
 same name

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index cfd4057..78f3217 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From 3154781698076b8e89541495139512a58f975d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 057/109] fix: RenodeAgent::Step of no instructions wrote
 through a null status

---
 mpact/sim/util/renode/renode_mpact.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 78f3217..d5fffbd 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -372,7 +372,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
-- 
2.43.0


From 906ca84e1a044ea87da156d289b78ee07f89c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 058/109] fix: RenodeAgent::Step returns the full number of
 instructions

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index d5fffbd..7fb1296 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -396,7 +396,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From 706a0ce1b619a63eece18b049cd35ba993a51ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:12 +0000
Subject: [PATCH 059/109] fix: RenodeAgent::Step after a semihost request wrote
 through a null status

---
 mpact/sim/util/renode/renode_mpact.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 7fb1296..629e9ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -392,7 +392,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 7a3372c36e26ab218e91a33a7b97bb00244aafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:31 +0000
Subject: [PATCH 060/109] fix: name the unsigned type of formats wider than 64
 bits absl::uint128

---
 mpact/sim/decoder/format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..6c2e0e2 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -231,7 +231,7 @@ absl::Status Format::ComputeAndCheckFormatWidth() {
   }
   // Set the type names.
   int_type_name_ = GetIntType(declared_width_);
-  uint_type_name_ = absl::StrCat("u", int_type_name_);
+  uint_type_name_ = GetUIntType(declared_width_);
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 984cad163a8c47ea4fc69e34118ae1e1ea6c95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:31 +0000
Subject: [PATCH 061/109] fix: overlay components 64 bits wide or above bit 63
 do not shift out of range

---
 mpact/sim/decoder/overlay.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..5f70bdf 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,11 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+// Returns a mask of the low 'width' bits.
+static uint64_t LowBitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +164,10 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      // The mask only covers the bits of formats up to 64 bits wide.
+      if (component->low() < 64) {
+        mask_ |= LowBitMask(component->width()) << component->low();
+      }
     }
     position -= component->width();
   }
@@ -182,7 +190,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +205,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowBitMask(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -240,7 +248,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitMask(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
                       absl::Hex(mask), ")");
       int diff = component->high() - component->position();
-- 
2.43.0


From ac9204e770e8a84b209915dea90067a53ad1bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:35 +0000
Subject: [PATCH 062/109] fix: extractors and inserters of 64 bit fields and
 formats have a full mask

---
 mpact/sim/decoder/format.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 6c2e0e2..c82c7a6 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -35,6 +35,11 @@ namespace bin_format {
 
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+// Returns a mask of the low 'width' bits.
+static uint64_t LowBitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -397,7 +402,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = LowBitMask(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
@@ -499,7 +504,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = LowBitMask(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -598,7 +603,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
                       width, ") - 1;\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = LowBitMask(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -692,7 +697,7 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = LowBitMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
                     "  return (inst_word & (~0x",
@@ -748,7 +753,7 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = LowBitMask(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
@@ -843,7 +848,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
+      uint64_t mask = LowBitMask(width);
       expr =
           absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
-- 
2.43.0


From da949e6106fe62956a71eee865640d35e288a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:35 +0000
Subject: [PATCH 063/109] fix: masks of 128 bit fields are not shifted out of
 range

---
 mpact/sim/decoder/format.cc | 42 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index c82c7a6..4563b6e 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -40,6 +40,13 @@ static uint64_t LowBitMask(int width) {
   return width >= 64 ? ~0ULL : (1ULL << width) - 1;
 }
 
+// Returns the code that sets the absl::uint128 variable 'mask' to a mask of the
+// low 'width' bits.
+static std::string WideMaskAssignment(int width) {
+  if (width >= 128) return "  mask = absl::Uint128Max();\n";
+  return absl::StrCat("  mask = 1;\n  mask = (mask << ", width, ") - 1;\n");
+}
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -409,10 +416,8 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
       expr = absl::StrCat(" (value >> ", field->low, ") & 0x", absl::Hex(mask));
     }
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask;\n",
+                    WideMaskAssignment(field->width));
     if (field->low == 0) {
       expr = absl::StrCat("value & mask");
     } else {
@@ -516,10 +521,8 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                     "  return inst_word;\n"
                     "}\n");
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask;\n",
+                    WideMaskAssignment(field->width));
     if (field->low != 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
     }
@@ -597,10 +600,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" >> ", remaining - width);
     }
     if (use_mask_variable) {
-      absl::StrAppend(&h_output,
-                      "  mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+      absl::StrAppend(&h_output, WideMaskAssignment(width));
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
       uint64_t mask = LowBitMask(width);
@@ -707,10 +707,8 @@ std::string Format::GenerateReplicatedFormatInserter(
     absl::StrAppend(
         &h_output, "  int low = ", low, " - (index * ", width,
         ");\n"
-        "  absl::uint128 mask = 1;\n"
-        "  mask = (mask << ",
-        width,
-        ") - 1;\n"
+        "  absl::uint128 mask;\n",
+        WideMaskAssignment(width),
         "  mask <<= low;\n"
         "  return (inst_word & ~mask) | (value << low) & mask;\n}\n");
   } else {
@@ -758,10 +756,8 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask;\n",
+                    WideMaskAssignment(width));
     if (low > 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", low, ";\n");
     }
@@ -853,10 +849,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
           absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
-      absl::StrAppend(&h_output,
-                      "  absl::uint128 mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+      absl::StrAppend(&h_output, "  absl::uint128 mask;\n",
+                      WideMaskAssignment(width));
       expr = absl::StrCat("(value >> ", shift, ") & mask");
       if (width <= 64) {
         absl::StrAppend(&h_output, "  return absl::Uint128Low64(", expr,
-- 
2.43.0


From be5cbb9168d3637f1a688e6112ee8d1a0ce0b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 064/109] fix: signed field extractors of formats wider than 64
 bits compile and sign extend

---
 mpact/sim/decoder/format.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 4563b6e..54ff71d 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -423,6 +423,11 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     } else {
       expr = absl::StrCat(" (value >> ", field->low, ") & mask");
     }
+    if (return_width <= 64) {
+      expr = absl::StrCat("absl::Uint128Low64(", expr, ")");
+    } else if (field->is_signed) {
+      expr = absl::StrCat("static_cast<absl::int128>(", expr, ")");
+    }
   } else {
     // For format width > 128 bits, use the templated extract helper function.
     int byte_size = (declared_width_ + 7) / 8;
@@ -439,14 +444,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
                      shift, ";\n  result = result >> ", shift, ";\n");
     expr = "result";
   }
-  if (declared_width_ <= 64) {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
-  } else if ((declared_width_ <= 128) && (return_width <= 64)) {
-    absl::StrAppend(&h_output, sign_extension, "  return absl::Uint128Low64(",
-                    expr, ");\n}\n\n");
-  } else {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
-  }
+  absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
   // If the parent format size is not a power of two, also create an extractor
   // that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
-- 
2.43.0


From b53a6b075e67a2e5648b2614f343dd90b46c5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 065/109] fix: field extractors that read bytes sign extend
 signed fields

---
 mpact/sim/decoder/format.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 54ff71d..2d076d9 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -435,16 +435,18 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
                         byte_size, ", ", field->high, ", ", field->width, ")");
   }
 
-  // Add sign-extension if the field is signed.
-  std::string sign_extension;
-  if (field->is_signed) {
+  // Returns the code for the return statement of the value of the given
+  // expression, adding sign-extension if the field is signed.
+  auto return_value = [&](const std::string& value_expr) -> std::string {
+    if (!field->is_signed) {
+      return absl::StrCat("  return ", value_expr, ";\n}\n\n");
+    }
     int shift = return_width - field->width;
-    sign_extension =
-        absl::StrCat("  ", result_type_name, " result = (", expr, ") << ",
-                     shift, ";\n  result = result >> ", shift, ";\n");
-    expr = "result";
-  }
-  absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
+    return absl::StrCat("  ", result_type_name, " result = (", value_expr,
+                        ") << ", shift, ";\n  result = result >> ", shift,
+                        ";\n  return result;\n}\n\n");
+  };
+  absl::StrAppend(&h_output, return_value(expr));
   // If the parent format size is not a power of two, also create an extractor
   // that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
@@ -452,9 +454,9 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
                     ToPascalCase(field->name), "(const uint8_t *value) {\n");
     int byte_size = (declared_width_ + 7) / 8;
-    absl::StrAppend(&h_output, "  return internal::ExtractBits<",
-                    result_type_name, ">(value, ", byte_size, ", ", field->high,
-                    ", ", field->width, ");\n}\n\n");
+    expr = absl::StrCat("internal::ExtractBits<", result_type_name, ">(value, ",
+                        byte_size, ", ", field->high, ", ", field->width, ")");
+    absl::StrAppend(&h_output, return_value(expr));
   }
   return h_output;
 }
-- 
2.43.0


From 18f0e9927ef381d4411cd874c0609cd1e4fb3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 066/109] fix: extractors of repeated formats select the
 instance of the index

---
 mpact/sim/decoder/format.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 2d076d9..2e90dbc 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -839,7 +839,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      shift = absl::StrCat("(", low, " - (index * ", width, "))");
     } else {
       shift = absl::StrCat(low);
     }
@@ -875,7 +875,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From d9b6f1dd8d54e1c69522849f9462d54c6f73065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 067/109] fix: constants of overlays are emitted wide enough
 and a zero overlay has a value

---
 mpact/sim/decoder/overlay.cc | 41 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 5f70bdf..00a32e8 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -41,6 +41,20 @@ static uint64_t LowBitMask(int width) {
   return width >= 64 ? ~0ULL : (1ULL << width) - 1;
 }
 
+// Returns the expression for the value of the constant shifted left. The
+// expression has a type that is wide enough for the shifted value.
+static std::string ShiftedConstant(const BinaryNum& bin_num, int shift) {
+  int width = shift + absl::bit_width(static_cast<uint64_t>(bin_num.value));
+  std::string constant = absl::StrCat(bin_num.value);
+  if (width > 64) {
+    constant = absl::StrCat("absl::uint128(", constant, "ULL)");
+  } else if (width > 31) {
+    absl::StrAppend(&constant, "ULL");
+  }
+  if (shift > 0) absl::StrAppend(&constant, " << ", shift);
+  return constant;
+}
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -241,11 +255,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
-      if (shift > 0) {
-        absl::StrAppend(&output, " << ", shift);
-      }
-      absl::StrAppend(&output, ";\n");
+      absl::StrAppend(&output, "  ", result, assign,
+                      ShiftedConstant(bin_num, shift), ";\n");
     } else {
       // Field or format references are added.
       uint64_t mask = LowBitMask(component->width()) << component->low();
@@ -261,6 +272,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // If every component is 0, there is nothing to 'or' together.
+  if (assign == " = ") absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
@@ -305,11 +318,8 @@ std::string Overlay::WritePackedStructValueExtractor(
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
-      if (shift > 0) {
-        absl::StrAppend(&output, " << ", shift);
-      }
-      absl::StrAppend(&output, ";\n");
+      absl::StrAppend(&output, "  ", result, assign,
+                      ShiftedConstant(bin_num, shift), ";\n");
     } else {
       // Field or format references are added.
       absl::StrAppend(
@@ -319,6 +329,8 @@ std::string Overlay::WritePackedStructValueExtractor(
     }
     assign = " |= ";
   }
+  // If every component is 0, there is nothing to 'or' together.
+  if (assign == " = ") absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
@@ -338,11 +350,8 @@ std::string Overlay::WriteComplexValueExtractor(
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
-      if (shift > 0) {
-        absl::StrAppend(&output, " << ", shift);
-      }
-      absl::StrAppend(&output, ";\n");
+      absl::StrAppend(&output, "  ", result, assign,
+                      ShiftedConstant(bin_num, shift), ";\n");
     } else {
       absl::StrAppend(&output, "  ", result, assign, "ExtractBits<",
                       return_type, ">(", value, ", ", component->high(), ", ",
@@ -358,6 +367,8 @@ std::string Overlay::WriteComplexValueExtractor(
     }
     assign = " |= ";
   }
+  // If every component is 0, there is nothing to 'or' together.
+  if (assign == " = ") absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From d763e1316c122424b2214dbc916f48b3d8af9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 068/109] fix: overlays wider than their format shift bits in a
 type that holds them

---
 mpact/sim/decoder/overlay.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 00a32e8..8f74085 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -260,9 +260,18 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     } else {
       // Field or format references are added.
       uint64_t mask = LowBitMask(component->width()) << component->low();
-      absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
-                      absl::Hex(mask), ")");
       int diff = component->high() - component->position();
+      // Bits that are shifted out of the type of the value need a wider type.
+      std::string type;
+      if (diff < 0) {
+        if (component->position() >= 64) {
+          type = "absl::uint128";
+        } else if (component->position() >= 31) {
+          type = "static_cast<uint64_t>";
+        }
+      }
+      absl::StrAppend(&output, "  ", result, assign, type, "(", value, " & 0x",
+                      absl::Hex(mask), ")");
       if (diff < 0) {
         absl::StrAppend(&output, " << ", -diff);
       } else if (diff > 0) {
-- 
2.43.0


From 31d3a3073df7dd086704871c8ead1a86a5c59153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 069/109] fix: overlay extractors of formats wider than 64 bits
 compile

---
 mpact/sim/decoder/format.cc  | 18 ++++++------------
 mpact/sim/decoder/overlay.cc | 34 ++++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 2e90dbc..719ae8f 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -929,9 +929,9 @@ std::string Format::GenerateOverlayExtractor(Overlay* overlay) const {
                                 : GetUIntType(overlay->declared_width());
 
   std::string arg_type = GetUIntType(declared_width_);
-  std::string signature =
-      absl::StrCat("inline ", return_type, " Extract",
-                   ToPascalCase(overlay->name()), "(", arg_type, " value)");
+  std::string signature = absl::StrCat(
+      "inline ", return_type, " Extract", ToPascalCase(overlay->name()), "(",
+      declared_width_ > 128 ? "const " : "", arg_type, " value)");
 
   // Generate definition.
   absl::StrAppend(&h_output, signature,
@@ -953,15 +953,9 @@ std::string Format::GenerateOverlayExtractor(Overlay* overlay) const {
                     "  result = result >> ",
                     shift, ";\n");
   }
-  if ((declared_width_ > 64) && (overlay->declared_width() <= 64)) {
-    absl::StrAppend(&h_output,
-                    "  return UInt128Low64(result();\n"
-                    "}\n\n");
-  } else {
-    absl::StrAppend(&h_output,
-                    "  return result;\n"
-                    "}\n\n");
-  }
+  absl::StrAppend(&h_output,
+                  "  return result;\n"
+                  "}\n\n");
   return h_output;
 }
 
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 8f74085..ed32d3b 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -362,16 +362,34 @@ std::string Overlay::WriteComplexValueExtractor(
       absl::StrAppend(&output, "  ", result, assign,
                       ShiftedConstant(bin_num, shift), ";\n");
     } else {
-      absl::StrAppend(&output, "  ", result, assign, "ExtractBits<",
-                      return_type, ">(", value, ", ", component->high(), ", ",
-                      component->width(), ")");
-      if (component->low() > 0) {
-        int shift = component->position() - component->width() + 1;
-        if (shift > 0) {
-          absl::StrAppend(&output, " << ",
-                          component->position() - component->width() + 1);
+      int format_width = format_->declared_width();
+      std::string bits;
+      if (format_width <= 64) {
+        bits = absl::StrCat("ExtractBits<", return_type, ">(", value, ", ",
+                            component->high(), ", ", component->width(), ")");
+      } else if (format_width <= 128) {
+        // The format is held in an absl::uint128.
+        bits = absl::StrCat("(", value, " >> ", component->low(), ")");
+        if (component->width() <= 64) {
+          bits = absl::StrCat("static_cast<", return_type,
+                              ">(absl::Uint128Low64(", bits, ") & 0x",
+                              absl::Hex(LowBitMask(component->width())), ")");
+        } else if (component->width() < 128) {
+          bits = absl::StrCat("static_cast<", return_type, ">(", bits,
+                              " & ((absl::uint128(1) << ", component->width(),
+                              ") - 1))");
+        } else {
+          bits = absl::StrCat("static_cast<", return_type, ">(", bits, ")");
         }
+      } else {
+        // The format is held in an array of bytes.
+        bits = absl::StrCat("internal::ExtractBits<", return_type, ">(", value,
+                            ", ", (format_width + 7) / 8, ", ",
+                            component->high(), ", ", component->width(), ")");
       }
+      absl::StrAppend(&output, "  ", result, assign, bits);
+      int shift = component->position() - component->width() + 1;
+      if (shift > 0) absl::StrAppend(&output, " << ", shift);
       absl::StrAppend(&output, ";\n");
     }
     assign = " |= ";
-- 
2.43.0


From a3830a8d20e33c7674afa53d193daceacef05b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 070/109] fix: field inserters of formats wider than 64 bits
 shift the value into place

---
 mpact/sim/decoder/format.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 719ae8f..5a1068c 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -526,8 +526,13 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
     if (field->low != 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
     }
-    absl::StrAppend(&h_output,
-                    "  inst_word = (inst_word & ~mask) | (value & mask);\n"
+    std::string shift;
+    if (field->low != 0) {
+      shift = absl::StrCat(" << ", field->low);
+    }
+    absl::StrAppend(&h_output, "  inst_word = (inst_word & ~mask) | ((value",
+                    shift,
+                    ") & mask);\n"
                     "  return inst_word;\n"
                     "}\n");
   } else if (field->width <= 128) {
-- 
2.43.0


From 8d553943796a031a33a67b2a5e456634e8b2448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 071/109] fix: overlay inserters replace the bits of the
 instruction word

---
 mpact/sim/decoder/format.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 5a1068c..19b02f5 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -617,8 +617,13 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
     if (bits_or_field->low() != 0) {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
-    if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+    if (use_mask_variable && (declared_width_ <= 128)) {
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~(mask", shift,
+                      ")) | (tmp ", shift, ");\n");
+    } else if (declared_width_ <= 128) {
+      uint64_t mask = LowBitMask(width) << bits_or_field->low();
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~0x",
+                      absl::Hex(mask), "ULL) | (tmp ", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
-- 
2.43.0


From e1a30967fb82546ee85630f15cf33313f2f47131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 072/109] fix: only fields and overlays of the same bits and
 sign share an extractor

---
 mpact/sim/decoder/format.cc  | 5 ++++-
 mpact/sim/decoder/overlay.cc | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 19b02f5..7bee217 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -60,9 +60,12 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
+  } else {
     if (high_ != rhs.high_) return false;
     if (size_ != rhs.size_) return false;
-  } else {
     if (format_ != rhs.format_) return false;
   }
   return true;
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index ed32d3b..6a7bc3a 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -228,7 +228,9 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
 }
 
 bool Overlay::operator==(const Overlay& rhs) const {
-  if (declared_width_ > 64) {
+  if (declared_width_ != rhs.declared_width_) return false;
+  if (is_signed_ != rhs.is_signed_) return false;
+  if (format_->declared_width() > 64) {
     return WriteComplexValueExtractor("value", "result", "") ==
            rhs.WriteComplexValueExtractor("value", "result", "");
   } else {
-- 
2.43.0


From 21c1b909e54bde2c12325b1ede9813534f23f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 073/109] fix: extractors of 64 bit packed structs take the
 value they read

---
 mpact/sim/decoder/format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 7bee217..6dbd366 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -374,7 +374,7 @@ std::string Format::GeneratePackedStructFieldExtractor(
   std::string return_type = GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(field->name), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
@@ -794,7 +794,7 @@ std::string Format::GeneratePackedStructFormatExtractor(
   std::string return_type = GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(format_alias), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
-- 
2.43.0


From 1f5c622bea58f7ce6d90e57933b99d4d80c76b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 074/109] fix: overlays of packed structs extract the bits they
 name

---
 mpact/sim/decoder/format.cc  |  2 +-
 mpact/sim/decoder/overlay.cc | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 6dbd366..5a2e86c 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -906,7 +906,7 @@ std::string Format::GeneratePackedStructOverlayExtractor(
     Overlay* overlay) const {
   std::string h_output;
   std::string arg_type;
-  if (declared_width_ > 128) {
+  if (declared_width_ > 64) {
     arg_type = "const uint8_t *";
   } else {
     arg_type = GetUIntType(declared_width_);
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 6a7bc3a..9b35679 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -332,11 +332,17 @@ std::string Overlay::WritePackedStructValueExtractor(
       absl::StrAppend(&output, "  ", result, assign,
                       ShiftedConstant(bin_num, shift), ";\n");
     } else {
-      // Field or format references are added.
-      absl::StrAppend(
-          &output, "  ", result, assign, "static_cast<", result_type,
-          ">(packed_union->", ToSnakeCase(format_->name()), ".",
-          component->field()->name, ") << ", component->position(), ";\n");
+      // Field or format references are added, one byte at a time.
+      for (int low = component->low(); low <= component->high();) {
+        int width = std::min(8 - low % 8, component->high() - low + 1);
+        int shift = component->position() - (component->high() - low);
+        absl::StrAppend(&output, "  ", result, assign, "static_cast<",
+                        result_type, ">((packed_union->bytes[", low / 8,
+                        "] >> ", low % 8, ") & 0x",
+                        absl::Hex(LowBitMask(width)), ") << ", shift, ";\n");
+        assign = " |= ";
+        low += width;
+      }
     }
     assign = " |= ";
   }
-- 
2.43.0


From 4174e82188ad3843b680fd8a05c8f66574c96797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 075/109] fix: a base format keeps its own extractor when a
 derived format redefines it

---
 mpact/sim/decoder/format.cc | 15 +++++++++++++--
 mpact/sim/decoder/format.h  |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 5a2e86c..521d423 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -275,7 +275,8 @@ void Format::PropagateExtractorsUp() {
         continue;
       } else if (*field_or_format_ptr != *(iter->second)) {
         // If the base extractor refers to a different object, fail the
-        // promotion.
+        // promotion. The base format keeps an extractor of its own.
+        if (base_format_->IsOwnExtractor(iter->second)) continue;
         base_format_->extractors_[name] = nullptr;
       }
     }
@@ -293,7 +294,8 @@ void Format::PropagateExtractorsUp() {
         continue;
       } else if (*overlay_ptr != *(iter->second)) {
         // If the base format extractor refers to a different overlay type,
-        // fail the promotion.
+        // fail the promotion. The base format keeps an extractor of its own.
+        if (iter->second->format() == base_format_) continue;
         base_format_->overlay_extractors_[name] = nullptr;
       }
     }
@@ -343,6 +345,15 @@ void Format::PropagateExtractorsDown() {
   }
 }
 
+// Returns true if the extractor is for a field or format reference of the
+// current format, and not one that was promoted from a derived format.
+bool Format::IsOwnExtractor(const FieldOrFormat* field_or_format) const {
+  for (auto* own : field_vec_) {
+    if (own == field_or_format) return true;
+  }
+  return false;
+}
+
 // Returns true if the current format, or a base format, contains an
 // extractor for field 'name'.
 bool Format::HasExtract(const std::string& name) const {
diff --git a/mpact/sim/decoder/format.h b/mpact/sim/decoder/format.h
index 36081f5..418a505 100644
--- a/mpact/sim/decoder/format.h
+++ b/mpact/sim/decoder/format.h
@@ -173,6 +173,7 @@ class Format {
   void set_layout(Layout layout) { layout_ = layout; }
 
  private:
+  bool IsOwnExtractor(const FieldOrFormat* field_or_format) const;
   bool HasExtract(const std::string& name) const;
   bool HasOverlayExtract(const std::string& name) const;
 
-- 
2.43.0


From ce530acd34bb243c2a390ccc7db233a3a6259a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:04 +0000
Subject: [PATCH 076/109] fix: byte extractors are static members of the
 extractor class

---
 mpact/sim/decoder/format.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 521d423..a5c372b 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -465,7 +465,8 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
-    absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
+    // The extractor is also a member of a class, so it has to be static.
+    absl::StrAppend(&h_output, "static inline ", result_type_name, " Extract",
                     ToPascalCase(field->name), "(const uint8_t *value) {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", result_type_name, ">(value, ",
@@ -898,7 +899,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   // extractor that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
-    absl::StrAppend(&h_output, "inline ", return_type, " Extract",
+    absl::StrAppend(&h_output, "static inline ", return_type, " Extract",
                     ToPascalCase(format_alias), "(const uint8_t *value",
                     size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
-- 
2.43.0


From f466a31941b166a4f1a67629da4e904694f677e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 077/109] fix: inserters of repeated formats keep the bits
 below the instance

---
 mpact/sim/decoder/format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index a5c372b..270256f 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -725,7 +725,7 @@ std::string Format::GenerateReplicatedFormatInserter(
     uint64_t mask = LowBitMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
+                    "  return (inst_word & ~(0x",
                     absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
-- 
2.43.0


From ffc9987c85740a24ed71c99ac8175cab83e2f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 078/109] fix: inserters take all the bits of overlays wider
 than the format

---
 mpact/sim/decoder/format.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 270256f..d9d6776 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -575,7 +575,9 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   std::string result_type_name = GetUIntType(computed_width_);
   std::string overlay_type_name;
   if (computed_width_ <= 128) {
-    overlay_type_name = result_type_name;
+    // The overlay can be wider than the format.
+    overlay_type_name =
+        GetUIntType(std::max(computed_width_, overlay->declared_width()));
   } else {
     overlay_type_name = GetUIntType(overlay->declared_width());
   }
@@ -592,6 +594,11 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
     return h_output;
   }
   bool use_mask_variable = false;
+  // The bits of an overlay value that is wider than the format are narrowed.
+  std::string low_64_bits;
+  if ((declared_width_ <= 64) && (overlay->declared_width() > 64)) {
+    low_64_bits = "absl::Uint128Low64";
+  }
   int remaining = overlay->declared_width();
   int byte_size = (declared_width_ + 7) / 8;
   if (declared_width_ <= 128) {
@@ -625,8 +632,8 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
     } else {
       uint64_t mask = LowBitMask(width);
       // Extract the bits from the overlay value for the current component.
-      absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
-                      absl::Hex(mask), "ULL;\n");
+      absl::StrAppend(&h_output, "  tmp = ", low_64_bits, "(value ", shift,
+                      ") & 0x", absl::Hex(mask), "ULL;\n");
     }
     shift.clear();
     if (bits_or_field->low() != 0) {
-- 
2.43.0


From aa30c0b49843e87598494ad7509bd88f8a25ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:48 +0000
Subject: [PATCH 079/109] fix: signed overlays wider than 64 bits are put
 together unsigned

---
 mpact/sim/decoder/format.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index d9d6776..b8fa523 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -933,14 +933,23 @@ std::string Format::GeneratePackedStructOverlayExtractor(
   std::string return_type = overlay->is_signed()
                                 ? GetIntType(overlay->declared_width())
                                 : GetUIntType(overlay->declared_width());
+  // Values wider than 64 bits are put together unsigned.
+  std::string result_type = overlay->declared_width() > 64
+                                ? GetUIntType(overlay->declared_width())
+                                : return_type;
   std::string signature =
       absl::StrCat("inline ", return_type, " Extract",
                    ToPascalCase(overlay->name()), "(", arg_type, " value)");
-  absl::StrAppend(&h_output, signature, " {\n  ", return_type, " result;\n",
+  absl::StrAppend(&h_output, signature, " {\n  ", result_type, " result;\n",
                   overlay->WritePackedStructValueExtractor("value", "result"));
   if (overlay->is_signed()) {
     int shift = GetIntTypeBitWidth(overlay->declared_width()) -
                 overlay->declared_width();
+    if (overlay->declared_width() > 64) {
+      absl::StrAppend(&h_output, "  return static_cast<", return_type,
+                      ">(result << ", shift, ") >> ", shift, ";\n}\n\n");
+      return h_output;
+    }
     absl::StrAppend(&h_output, "  result = result << ", shift,
                     ";\n"
                     "  result = result >> ",
@@ -959,6 +968,10 @@ std::string Format::GenerateOverlayExtractor(Overlay* overlay) const {
   std::string return_type = overlay->is_signed()
                                 ? GetIntType(overlay->declared_width())
                                 : GetUIntType(overlay->declared_width());
+  // Values wider than 64 bits are put together unsigned.
+  std::string result_type = overlay->declared_width() > 64
+                                ? GetUIntType(overlay->declared_width())
+                                : return_type;
 
   std::string arg_type = GetUIntType(declared_width_);
   std::string signature = absl::StrCat(
@@ -969,17 +982,22 @@ std::string Format::GenerateOverlayExtractor(Overlay* overlay) const {
   absl::StrAppend(&h_output, signature,
                   " {\n"
                   "  ",
-                  return_type, " result;\n");
+                  result_type, " result;\n");
   if (declared_width_ <= 64) {
     absl::StrAppend(&h_output,
                     overlay->WriteSimpleValueExtractor("value", "result"));
   } else {
     absl::StrAppend(&h_output, overlay->WriteComplexValueExtractor(
-                                   "value", "result", return_type));
+                                   "value", "result", result_type));
   }
   if (overlay->is_signed()) {
     int shift = GetIntTypeBitWidth(overlay->declared_width()) -
                 overlay->declared_width();
+    if (overlay->declared_width() > 64) {
+      absl::StrAppend(&h_output, "  return static_cast<", return_type,
+                      ">(result << ", shift, ") >> ", shift, ";\n}\n\n");
+      return h_output;
+    }
     absl::StrAppend(&h_output, "  result = result << ", shift,
                     ";\n"
                     "  result = result >> ",
-- 
2.43.0


From 2436b463cd28e543cec407a1f1788d9b0eeef603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 080/109] fix: decoder: range check and truncate constraint
 values with 64 bit shifts

---
 mpact/sim/decoder/instruction_encoding.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..2564426 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1ULL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -181,9 +181,11 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  // The largest unsigned value that fits in the overlay.
+  uint64_t max_value = width < 64 ? (1ULL << width) - 1 : ~0ULL;
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value < 0) || (static_cast<uint64_t>(value) > max_value)) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +196,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -static_cast<int64_t>(max_value >> 1) - 1;
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (static_cast<uint64_t>(value) > (max_value >> 1)) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= max_value;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From d252a1912e4c5fd0cc760de6af0275ad83b9b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 081/109] fix: decoder: combined mask includes the right hand
 side of a comparison

---
 mpact/sim/decoder/instruction_encoding.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 2564426..3dd4c29 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -310,12 +310,12 @@ absl::Status InstructionEncoding::ComputeMaskAndValue() {
     // If the rhs is a field or overlay, add to the mask.
     if (constraint->rhs_field != nullptr) {
       int width = constraint->rhs_field->width;
-      mask &= (1LLU << width) - 1;
+      mask = (1LLU << width) - 1;
       int shift = constraint->rhs_field->low;
       mask <<= shift;
       other_mask_ |= mask;
     } else if (constraint->rhs_overlay != nullptr) {
-      mask &= constraint->rhs_overlay->mask();
+      mask = constraint->rhs_overlay->mask();
       other_mask_ |= mask;
     }
   }
-- 
2.43.0


From 271dadd5b3d2cfdde6d03bbb9c393ffef2d41c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 082/109] fix: decoder: adding a comparison invalidates the
 computed masks

---
 mpact/sim/decoder/instruction_encoding.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 3dd4c29..61f3079 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -242,6 +242,8 @@ absl::Status InstructionEncoding::AddEqualConstraint(std::string field_name,
 absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
                                                      std::string field_name,
                                                      int64_t value) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, field_name, value);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
@@ -252,6 +254,8 @@ absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
 absl::Status InstructionEncoding::AddOtherConstraint(
     ConstraintType type, const std::string& lhs_name,
     const std::string& rhs_name) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, lhs_name, rhs_name);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
-- 
2.43.0


From 154a8a25f993209f8628eac6d053228dfd098325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:04 +0000
Subject: [PATCH 083/109] fix: decoder: declare the opcode once when a group
 has several decoders

---
 mpact/sim/decoder/instruction_group.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..a445246 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -215,10 +215,12 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
+    // Only declare the variables the first time around.
+    absl::string_view type = i == 0 ? "auto " : "";
+    absl::StrAppend(&top_level_decoder, "  ", type, "opcode = Decode", name,
                     "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    absl::StrAppend(&w_format_top_level_decoder, "  ", type,
+                    "opcode_format = Decode", name, "(inst_word);\n");
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 632302f1d7b5da2467f22971430c7fe98dcf3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:04 +0000
Subject: [PATCH 084/109] fix: decoder: balance the braces of an unconditional
 encoding with specializations

---
 mpact/sim/decoder/encoding_group.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..4336710 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -561,7 +561,6 @@ int EncodingGroup::EmitEncodingIfStatement(
       if (spec_count > 1) {
         absl::StrAppend(definitions_ptr, indent_str, if_str, "(",
                         spec_condition, ") {\n");
-        indent_str.append("  ");
       } else if (spec_count == 1) {
         absl::StrAppend(definitions_ptr, indent_str, if_str, spec_condition,
                         " {\n");
@@ -580,11 +579,14 @@ int EncodingGroup::EmitEncodingIfStatement(
                   ", FormatEnum::k", ToPascalCase(encoding->format_name()),
                   ");\n");
   if (specialization) {
-    // Close the if statements.
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    // Close the if statements. The outer one is only there if the encoding has
+    // constraints that have to be checked.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    if (count > 0) {
+      indent_str = indent_str.substr(2);
+      absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    }
   }
   return count != 0 ? 1 : 0;
 }
-- 
2.43.0


From 2efdce29468c07def111843f51ff69319a65a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:04 +0000
Subject: [PATCH 085/109] fix: decoder: bits of overlays of 32 bits and more in
 decoder generation

---
 mpact/sim/decoder/encoding_group.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 4336710..3d592e2 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -478,7 +478,9 @@ void EncodingGroup::ProcessConstraint(
   std::string name = absl::StrCat(overlay->name(), "_value");
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  int width = overlay->declared_width();
+  auto result =
+      overlay->GetBitField(width < 64 ? (1ULL << width) - 1 : ~0ULL);
   if (result.ok()) {
     mask = result.value();
   } else {
-- 
2.43.0


From 524fa6d5b68563b78f22f5d9a227098f2c09f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 086/109] fix: gdbserver: a failed read ends the connection

---
 mpact/sim/util/gdbserver/gdbserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..b96588f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -61,7 +61,7 @@ class GdbSocketStreambuf : public std::streambuf {
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
-- 
2.43.0


From 65cb22cb26222526c87370ca675dcf4d51b1fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 087/109] fix: gdbserver: refuse commands that do not fit the
 buffer

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..ad0339f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -223,6 +223,12 @@ bool GdbServer::Connect(int port) {
         Terminate();
         return false;
       }
+      // Make sure there is room for the character and for the checksum.
+      if (buffer_pos + 3 > sizeof(buffer_)) {
+        LOG(ERROR) << absl::StrFormat("Command too long on port %d", port);
+        Terminate();
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From 7c80f7fb1a1b740afc742a641de8b5ef40b030f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 088/109] fix: gdbserver: close the descriptors of a connection
 once

---
 mpact/sim/util/gdbserver/gdbserver.cc |  2 ++
 mpact/sim/util/gdbserver/gdbserver.h  | 10 ++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index ad0339f..b95feb4 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -254,6 +254,7 @@ void GdbServer::Terminate() {
       (void)shutdown(cli_fd_, SHUT_RDWR);
       (void)close(cli_fd_);
     }
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
@@ -261,6 +262,7 @@ void GdbServer::Terminate() {
     if (res >= 0) {
       (void)close(server_socket_);
     }
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index b96588f..299c66c 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -42,18 +42,16 @@ using ::mpact::sim::generic::DebugInfo;
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
 // implement to make this happen. No buffering is performed. This streambuf
-// does not expand \n to \r\n or vice versa.
+// does not expand \n to \r\n or vice versa. The file descriptor is not owned by
+// the streambuf, and has to be closed by the creator.
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
+  ~GdbSocketStreambuf() override = default;
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
-    }
+    if (c == EOF) return c;
     write(fd_, &c, 1);
     return c;
   }
-- 
2.43.0


From 8439a4e055ce5a1f6f8d0c9b499484db979fc3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 089/109] fix: gdbserver: undo escapes in commands without
 repeating the character

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index b95feb4..41bbd29 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -57,9 +57,11 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   std::string command;
   for (int i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
+    // The character following an escape is xor'ed with 0x20. Ignore an escape
+    // that isn't followed by a character.
     if (c == 0x7d) {
-      c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
+      if (++i == escaped_command.size()) break;
+      c = escaped_command[i] ^ 0x20;
     }
     command.push_back(c);
   }
-- 
2.43.0


From 9928ef6b2f9f0c2de806b89d4cd58e33541c91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 090/109] fix: gdbserver: answer commands that end early

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 41bbd29..4497af4 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -389,6 +389,8 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  // An empty command is not supported.
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -697,7 +699,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (command.empty() || command.front() != ';') {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -816,6 +818,7 @@ void GdbServer::GdbDetach() {
 }
 
 void GdbServer::GdbSelectThread(std::string_view command) {
+  if (command.empty()) return SendError("missing thread operation");
   int thread_id;
   char op = command.front();
   command.remove_prefix(1);
@@ -1087,6 +1090,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1322,7 +1326,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (!command.empty() && command.front() == ':') {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From 106097fc619535a23a92ac001806ec011f332a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 091/109] fix: gdbserver: refuse thread ids that do not exist

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 4497af4..a36f514 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -320,6 +320,10 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
         return 1;
       }
+      if ((thread_id < 1) || (thread_id > core_debug_interfaces_.size())) {
+        LOG(ERROR) << absl::StrFormat("No such thread id: '%s'", thread_id_str);
+        return 1;
+      }
       return thread_id;
     }
     LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", command);
@@ -725,7 +729,9 @@ void GdbServer::GdbVContinue(std::string_view command) {
     // Otherwise, apply the action to the specified thread.
     int tid;
     bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
+    // Thread id 0 is any thread.
+    if (success && (tid == 0)) tid = 1;
+    if (!success || (tid < 1) || (tid > core_debug_interfaces_.size())) {
       SendError("invalid thread id");
       return;
     }
@@ -831,6 +837,9 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if ((thread_id < 1) || (thread_id > core_debug_interfaces_.size())) {
+    return SendError("invalid thread id");
+  }
   thread_select_[op] = thread_id;
   Respond("OK");
 }
-- 
2.43.0


From 795f24eda6c6c5e6e0059969fea5359ba7d49791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 092/109] fix: gdbserver: vCont actions without thread id apply
 to all threads

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index a36f514..af32f7f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -711,8 +711,11 @@ void GdbServer::GdbVContinue(std::string_view command) {
   for (std::string& part : parts) {
     std::string_view part_view = part;
     std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
+    // Get the thread id. An action without a thread id applies to all threads.
+    size_t colon_pos = part_view.find(':');
+    std::string_view tid_str = colon_pos == std::string_view::npos
+                                   ? "-1"
+                                   : part_view.substr(colon_pos + 1);
     // If the tread id is -1, then apply the action to all threads.
     if (tid_str == "-1") {  // all threads
       if (action == "c") {  // continue
-- 
2.43.0


From 0f72072b7bb3e6ff145a291e1a1c0f34c246928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 093/109] fix: gdbserver: answer a continue command when the
 core is already running

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index af32f7f..77b1f0e 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -644,15 +644,15 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
       LOG(ERROR) << "Failed to run core: " << status.message();
       return SendError(status.message());
     }
-    // Now wait for the core to halt.
-    status = core_debug_interfaces_[thread_index]->Wait();
-    if (!status.ok()) {
-      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
-      return SendError(status.message());
-    }
-    // Get the halt reason.
-    Respond(GetHaltReason(thread_index));
   }
+  // Now wait for the core to halt.
+  auto status = core_debug_interfaces_[thread_index]->Wait();
+  if (!status.ok()) {
+    LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+    return SendError(status.message());
+  }
+  // Get the halt reason.
+  Respond(GetHaltReason(thread_index));
 }
 
 void GdbServer::ContinueThread(int thread_id) {
-- 
2.43.0


From a161eb9b000b59d8d702b5ac9ad9c54839077431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 094/109] fix: gdbserver: report registers that cannot be
 written

---
 mpact/sim/util/gdbserver/gdbserver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 77b1f0e..8751b65 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -995,6 +995,11 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to get register data buffer: "
+                 << result.status().message();
+      return SendError(result.status().message());
+    }
     for (auto& byte : result.value()->Get<uint8_t>()) {
       if (data.empty()) {
         LOG(ERROR) << "Invalid data format";
-- 
2.43.0


From e08d665dbd567eacd85dce55f908464c11b2c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 095/109] fix: gdbserver: refuse data that is not hex

---
 mpact/sim/util/gdbserver/gdbserver.cc | 39 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 8751b65..bf21d00 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -68,6 +69,19 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Decodes a byte written as exactly two hex digits. Returns false and leaves
+// the value alone if that is not what the string is.
+bool DecodeHexByte(std::string_view str, uint8_t* value) {
+  if ((str.size() != 2) || !absl::ascii_isxdigit(str[0]) ||
+      !absl::ascii_isxdigit(str[1])) {
+    return false;
+  }
+  uint32_t byte_value;
+  if (!absl::SimpleHexAtoi(str, &byte_value)) return false;
+  *value = static_cast<uint8_t>(byte_value);
+  return true;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -931,10 +945,13 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     num_bytes++;
     std::string_view byte = data.substr(0, 2);
     data.remove_prefix(2);
-    uint32_t value_tmp;
-    (void)absl::SimpleHexAtoi(byte, &value_tmp);
-    uint8_t value = static_cast<uint8_t>(value_tmp);
-    buffer_[i] = value;
+    if (!DecodeHexByte(byte, &buffer_[i])) {
+      LOG(ERROR) << "Invalid memory write data";
+      if (error_message_supported_) {
+        return SendError("invalid memory write data");
+      }
+      return Respond("E01");
+    }
   }
   if (num_bytes != length) {
     LOG(ERROR) << "Length does not match data size";
@@ -1001,15 +1018,11 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
       return SendError(result.status().message());
     }
     for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
+      if (!DecodeHexByte(data.substr(0, 2), &byte)) {
         LOG(ERROR) << "Invalid data format";
         return SendError("Invalid data format");
       }
-      std::string_view byte_str = data.substr(0, 2);
       data.remove_prefix(2);
-      uint32_t byte_value_tmp;
-      (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-      byte = static_cast<uint8_t>(byte_value_tmp);
     }
   }
   Respond("OK");
@@ -1097,11 +1110,11 @@ void GdbServer::GdbWriteRegister(int thread_id,
   }
   for (auto& byte : result.value()->Get<uint8_t>()) {
     if (register_value_str.empty()) break;
-    std::string_view byte_str = register_value_str.substr(0, 2);
+    if (!DecodeHexByte(register_value_str.substr(0, 2), &byte)) {
+      LOG(ERROR) << "Invalid register value";
+      return SendError("invalid register value");
+    }
     register_value_str.remove_prefix(2);
-    uint32_t byte_value_tmp;
-    (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-    byte = static_cast<uint8_t>(byte_value_tmp);
   }
   Respond("OK");
 }
-- 
2.43.0


From 56dd54e52f5698a89cd3288d18f9b6933eed8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 096/109] fix: gdbserver: offset and length of a target
 description read cannot wrap around

---
 mpact/sim/util/gdbserver/gdbserver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index bf21d00..9812cbb 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1427,7 +1427,7 @@ void GdbServer::GdbXferReadTarget(std::string_view offset_str,
     return Respond("l");
   }
   std::string packet_type = "m";
-  if (offset + length > debug_info_.GetGdbTargetXml().size()) {
+  if (length >= debug_info_.GetGdbTargetXml().size() - offset) {
     length = debug_info_.GetGdbTargetXml().size() - offset;
     packet_type = "l";
   }
-- 
2.43.0


From 1d800eaf70a880e8671fa994907853fca31f0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 097/109] fix: gdbserver: escape the target description

---
 mpact/sim/util/gdbserver/gdbserver.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 9812cbb..8ea9f68 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -82,6 +82,19 @@ bool DecodeHexByte(std::string_view str, uint8_t* value) {
   return true;
 }
 
+// Escapes the characters that have a special meaning in a response packet.
+std::string EscapeData(std::string_view data) {
+  std::string escaped;
+  for (char c : data) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped.push_back(0x7d);
+      c ^= 0x20;
+    }
+    escaped.push_back(c);
+  }
+  return escaped;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -1434,7 +1447,7 @@ void GdbServer::GdbXferReadTarget(std::string_view offset_str,
   std::string_view response =
       debug_info_.GetGdbTargetXml().substr(offset, length);
   LOG(INFO) << "response length: " << response.size();
-  Respond(absl::StrCat(packet_type, response));
+  Respond(absl::StrCat(packet_type, EscapeData(response)));
 }
 
 }  // namespace mpact::sim::util::gdbserver
-- 
2.43.0


From 55d0874c74743ca4a47b0eb19a041bf89afd37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 098/109] fix: gdbserver: writing registers skips gaps as
 reading does

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 8ea9f68..9af7dc3 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1019,8 +1019,7 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
     if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
+      continue;
     }
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
-- 
2.43.0


From f82486d9d2d3f79e702bdd731d8ee1467bfa0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 099/109] fix: gdbserver: nothing is left from a previous
 connection

---
 mpact/sim/util/gdbserver/gdbserver.cc | 27 ++++++++++++++++++++-------
 mpact/sim/util/gdbserver/gdbserver.h  |  2 ++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 9af7dc3..6002fbe 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -149,15 +149,11 @@ GdbServer::GdbServer(
   }
 }
 
-GdbServer::~GdbServer() {
-  Terminate();
-  delete os_;
-  delete is_;
-  delete out_buf_;
-  delete in_buf_;
-}
+GdbServer::~GdbServer() { Reset(); }
 
 bool GdbServer::Connect(int port) {
+  // Make sure nothing is left from a previous connection.
+  Reset();
   good_ = true;
   if (port <= 0) {
     return false;
@@ -275,6 +271,23 @@ bool GdbServer::Connect(int port) {
   return true;
 }
 
+void GdbServer::Reset() {
+  Terminate();
+  delete os_;
+  delete is_;
+  delete out_buf_;
+  delete in_buf_;
+  os_ = nullptr;
+  is_ = nullptr;
+  out_buf_ = nullptr;
+  in_buf_ = nullptr;
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  thread_suffix_ = false;
+  error_message_supported_ = false;
+  thread_select_.clear();
+}
+
 void GdbServer::Terminate() {
   // Shutdown the connection.
   if (cli_fd_ != -1) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 299c66c..ec76937 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -93,6 +93,8 @@ class GdbServer {
  private:
   // Terminate the connection to the GDB client.
   void Terminate();
+  // Terminate the connection and restore the state to that of a new server.
+  void Reset();
   // Sends the given response to the GDB client. Wrapping it in the proper
   // packet format and adding the checksum.
   void Respond(std::string_view response);
-- 
2.43.0


From e5fbaaa73d4b6629146b665b72259ae22eb03435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 100/109] fix: elf loader: discard the symbols of the previous
 file

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..f7240ed 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -62,6 +62,17 @@ ElfProgramLoader::~ElfProgramLoader() {
 // Only load the program into the elf reader so that symbols can be looked up.
 absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     const std::string& file_name) {
+  // Discard the symbols of any previously loaded file, as loading a new file
+  // invalidates them.
+  loaded_ = false;
+  for (auto* symtab : symbol_accessors_) {
+    delete symtab;
+  }
+  symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
+  has_stack_size_ = false;
+  stack_size_ = 0;
   struct stat buffer;
   auto result = stat(file_name.c_str(), &buffer);
   if (result == -1) {
-- 
2.43.0


From aa4ca673b4f7ac010e27661acf124fd3a2d72b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 101/109] fix: instruction profiler: one counter for each unit
 of every range

---
 mpact/sim/util/other/instruction_profiler.cc | 23 ++++++++++----------
 mpact/sim/util/other/instruction_profiler.h  |  2 ++
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..2b165f0 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,7 +75,7 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
+    uint64_t size = range.end - range.start + 1;
     for (auto i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
@@ -114,22 +114,23 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
-    profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+    AddRange(begin, end);
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
-    profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
+    AddRange(begin, end);
   }
 }
 
+void InstructionProfiler::AddRange(uint64_t begin, uint64_t end) {
+  // The range is inclusive, with one counter for each unit of granularity.
+  uint64_t size = end - begin;
+  uint64_t* counters = new uint64_t[size];
+  ::memset(counters, 0, size * sizeof(uint64_t));
+  profile_ranges_.insert(
+      std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
+}
+
 }  // namespace mpact::sim::util
diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..27c4439 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -69,6 +69,8 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
 
  private:
   void AddSampleInternal(uint64_t sample);
+  // Add counters for the range from begin up to, but not including, end.
+  void AddRange(uint64_t begin, uint64_t end);
   int shift_ = 0;
   ElfProgramLoader* elf_loader_ = nullptr;
   absl::btree_map<MemoryWatcher::AddressRange, uint64_t*,
-- 
2.43.0


From 364e3b23c92de3c0cb9fc9ed770d0bd276caa9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 102/109] fix: instruction profiler: count samples in partial
 units of a segment

---
 mpact/sim/util/other/instruction_profiler.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 2b165f0..ddca453 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -96,27 +96,30 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     // Only consider segments that are loaded, executable, and with size > 0.
     if (segment->get_type() != ELFIO::PT_LOAD) continue;
     if ((segment->get_flags() & ELFIO::PF_X) == 0) continue;
-    uint64_t size = segment->get_memory_size() >> shift_;
-    if (size == 0) continue;
+    if (segment->get_memory_size() == 0) continue;
 
-    uint64_t vaddr_begin = segment->get_virtual_address() >> shift_;
+    uint64_t vaddr = segment->get_virtual_address();
+    uint64_t vaddr_begin = vaddr >> shift_;
+    // Round up, so that the last, possibly partial, unit is included.
+    uint64_t vaddr_end =
+        ((vaddr + segment->get_memory_size() - 1) >> shift_) + 1;
     // If it's the first time we see a segment, just get the start and end
     // values.
     if (begin == 0 && end == 0) {
       begin = vaddr_begin;
-      end = vaddr_begin + size;
+      end = vaddr_end;
       continue;
     };
     // If the segment is close enough to the current, just coalesce.
-    if (vaddr_begin - end < 0x1000) {
-      end = vaddr_begin + size;
+    if (vaddr_begin < end + 0x1000) {
+      end = vaddr_end;
       continue;
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
     AddRange(begin, end);
     begin = vaddr_begin;
-    end = vaddr_begin + size;
+    end = vaddr_end;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-- 
2.43.0


From 2195833b3440cf5523bcb926ba34172d98a52e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 103/109] fix: instruction profiler: free the counters of a
 range that is already present

---
 mpact/sim/util/other/instruction_profiler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index ddca453..52d4434 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -132,8 +132,10 @@ void InstructionProfiler::AddRange(uint64_t begin, uint64_t end) {
   uint64_t size = end - begin;
   uint64_t* counters = new uint64_t[size];
   ::memset(counters, 0, size * sizeof(uint64_t));
-  profile_ranges_.insert(
+  auto [unused, inserted] = profile_ranges_.insert(
       std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
+  // If the range overlaps one that is already present, that one is kept.
+  if (!inserted) delete[] counters;
 }
 
 }  // namespace mpact::sim::util
-- 
2.43.0


From 8c894a8c99f3076a0861881b322aad95de98a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 104/109] fix: instruction profiler: no cached range before the
 first sample

---
 mpact/sim/util/other/instruction_profiler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 27c4439..bb6bddd 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -53,7 +53,8 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
   void SetValue(const uint64_t& value) override {
     // See if the previously referenced range applies.
     uint64_t sample = value >> shift_;
-    if ((sample >= last_start_) && (sample <= last_end_)) {
+    if ((last_profile_range_ != nullptr) && (sample >= last_start_) &&
+        (sample <= last_end_)) {
       last_profile_range_[sample - last_start_]++;
       return;
     }
-- 
2.43.0


From e24903c9643312a6e948b35213cf9a3a2a72128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 105/109] fix: protobuf value sets: test the limits of the
 intersection, refuse strings without a minimum

---
 mpact/sim/decoder/proto_constraint_value_set.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index 27e1910..2f0d5d1 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -249,7 +249,7 @@ ProtoConstraintValueSet::SubRange ProtoConstraintValueSet::IntersectSubrange(
   }
   // Check for a null set if max == min, but either endpoint is not included.
   if ((min_value == max_value) &&
-      !(subrange.max_included && lhs_subrange.min_included)) {
+      !(subrange.max_included && subrange.min_included)) {
     delete subrange.min;
     delete subrange.max;
     return {nullptr, false, nullptr, false};
@@ -298,8 +298,12 @@ absl::Status ProtoConstraintValueSet::IntersectWith(
     return absl::InvalidArgumentError(
         "ProtoConstraintValueSet::IntersectWith: type error");
   }
-  // Perform the intersections.
-  switch (subranges_.back().min->variant_type()) {
+  // Perform the intersections. There is no expression if neither limit has a
+  // value.
+  if (lhs_expr == nullptr) {
+    return absl::InvalidArgumentError("Unsupported type in range");
+  }
+  switch (lhs_expr->variant_type()) {
     case *ProtoValueIndex::kInt32:
       IntersectSubranges<int32_t>(subranges_, rhs.subranges_, new_subranges);
       break;
-- 
2.43.0


From 18fb66da3c0ec0ee92252997526d2caf9f70adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 106/109] fix: protobuf encoding groups: combine several
 constraints on one field

---
 mpact/sim/decoder/proto_encoding_group.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index f311316..f6246c1 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -315,8 +315,13 @@ void ProtoEncodingGroup::CheckEncodings() {
     std::sort(
         constraints[i].begin(), constraints[i].end(),
         [](const ProtoConstraint* lhs, const ProtoConstraint* rhs) -> bool {
-          return lhs->field_descriptor->full_name() <
-                 rhs->field_descriptor->full_name();
+          if (lhs->field_descriptor != rhs->field_descriptor) {
+            return lhs->field_descriptor->full_name() <
+                   rhs->field_descriptor->full_name();
+          }
+          // The presence of a field is a value of its own.
+          return (lhs->op == ConstraintType::kHas) &&
+                 (rhs->op != ConstraintType::kHas);
         });
   }
   // Now create value value sets for each field descriptor, combining multiple
@@ -324,14 +329,17 @@ void ProtoEncodingGroup::CheckEncodings() {
   std::vector<std::vector<ProtoConstraintValueSet*>> value_sets;
   value_sets.reserve(encoding_vec_.size());
   for (auto const& constraint_vec : constraints) {
-    const google::protobuf::FieldDescriptor* previous = nullptr;
+    const ProtoConstraint* previous = nullptr;
+    ProtoConstraintValueSet* value_set = nullptr;
     value_sets.push_back({});
     for (auto const* constraint : constraint_vec) {
       // If it's the first occurance of a field descriptor, create a new
       // range on this constraint.
-      ProtoConstraintValueSet* value_set = nullptr;
-      if (previous != constraint->field_descriptor) {
-        previous = constraint->field_descriptor;
+      if ((previous == nullptr) ||
+          (previous->field_descriptor != constraint->field_descriptor) ||
+          ((previous->op == ConstraintType::kHas) !=
+           (constraint->op == ConstraintType::kHas))) {
+        previous = constraint;
         value_set = new ProtoConstraintValueSet(constraint);
         value_sets.back().push_back(value_set);
         continue;
-- 
2.43.0


From b4fd9b84dfb64e599ead324c712df3881f8ce04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 107/109] fix: protobuf instructions: the copy depends on its
 own constraints

---
 .../sim/decoder/proto_instruction_encoding.cc | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index bbd16b2..4ecf35b 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -47,17 +47,38 @@ ProtoInstructionEncoding::ProtoInstructionEncoding(
   name_ = rhs.name_;
   instruction_group_ = rhs.instruction_group_;
   setter_code_ = rhs.setter_code_;
-  for (const auto& [name, setter_ptr] : rhs.setter_map_) {
-    setter_map_.insert({name, new ProtoSetter(*setter_ptr)});
-  }
+  oneof_field_map_ = rhs.oneof_field_map_;
   for (const auto* constraint : rhs.equal_constraints_) {
     equal_constraints_.push_back(new ProtoConstraint(*constraint));
   }
   for (const auto* constraint : rhs.other_constraints_) {
     other_constraints_.push_back(new ProtoConstraint(*constraint));
   }
+  // Constraints and setters depend on the has constraints, so make sure that
+  // those of the copy depend on the copies.
+  absl::flat_hash_map<const ProtoConstraint*, ProtoConstraint*> copies;
   for (const auto& [name, constraint_ptr] : rhs.has_constraints_) {
-    has_constraints_.insert({name, new ProtoConstraint(*constraint_ptr)});
+    auto* constraint = new ProtoConstraint(*constraint_ptr);
+    has_constraints_.insert({name, constraint});
+    copies.emplace(constraint_ptr, constraint);
+  }
+  auto copy_of = [&copies](const ProtoConstraint* constraint) {
+    auto iter = copies.find(constraint);
+    return iter == copies.end() ? nullptr : iter->second;
+  };
+  for (auto* constraint : equal_constraints_) {
+    constraint->depends_on = copy_of(constraint->depends_on);
+  }
+  for (auto* constraint : other_constraints_) {
+    constraint->depends_on = copy_of(constraint->depends_on);
+  }
+  for (auto& [unused, constraint] : has_constraints_) {
+    constraint->depends_on = copy_of(constraint->depends_on);
+  }
+  for (const auto& [name, setter_ptr] : rhs.setter_map_) {
+    auto* setter = new ProtoSetter(*setter_ptr);
+    setter->depends_on = copy_of(setter->depends_on);
+    setter_map_.insert({name, setter});
   }
 }
 
-- 
2.43.0


From 881520d404349e4a7dd1d3b727ad221534655db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 108/109] fix: protobuf instructions: keep constraints on
 fields of choices

---
 .../sim/decoder/proto_instruction_encoding.cc | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index 4ecf35b..8cbb2d0 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -151,10 +151,11 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   // points to the end of the dependence chain, or nullptr if there are no or
   // duplicate one_of field constraints.
   ProtoConstraint* depends_on = nullptr;
-  for (auto const* desc : one_of_fields) {
+  for (int i = 0; i < one_of_fields.size(); ++i) {
+    auto const* desc = one_of_fields[i];
     auto iter = oneof_field_map_.find(desc->containing_oneof());
     if (iter != oneof_field_map_.end()) {
-      if (iter->second == field_descriptor) {
+      if (iter->second == desc) {
         continue;  // Ignore duplicate.
       } else {
         // This contradicts a previous one_of constraint. Flag an error.
@@ -167,6 +168,11 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
     // Add the one_of to the oneof_field_map_.
     oneof_field_map_.emplace(desc->containing_oneof(), desc);
     depends_on = AddHasConstraint(desc, depends_on);
+    // Add an equal constraint on the first one_of_field dependency, and add the
+    // remaining one_of dependencies to the other constraints.
+    auto& constraints = i == 0 ? equal_constraints_ : other_constraints_;
+    constraints.push_back(new ProtoConstraint{
+        ctx, desc, ConstraintType::kHas, nullptr, 0, nullptr});
   }
   // In order to generate a reasonably efficient decoder we divide the
   // constraints into two sets, those that can be used as indices into function
@@ -178,17 +184,9 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   // top level in the proto.
 
   if (!one_of_fields.empty()) {
-    // Add equal constraint on the first one_of_field dependency.
-    equal_constraints_.push_back(new ProtoConstraint{
-        ctx, one_of_fields[0], ConstraintType::kHas, nullptr, 0, nullptr});
-    // Add the remaining one_of depende ncies to the other constraints.
-    for (int i = 1; i < one_of_fields.size(); ++i) {
-      other_constraints_.push_back(new ProtoConstraint{
-          ctx, one_of_fields[i], ConstraintType::kHas, nullptr, 0, nullptr});
-      // Add the constraint to the 'other' constraints.
-      other_constraints_.push_back(
-          new ProtoConstraint{ctx, field_descriptor, op, expr, 0, depends_on});
-    }
+    // Add the constraint to the 'other' constraints.
+    other_constraints_.push_back(
+        new ProtoConstraint{ctx, field_descriptor, op, expr, 0, depends_on});
     return absl::OkStatus();
   }
 
-- 
2.43.0


From ff43c4a4a04a4c985da455d83a041f627bf1d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 109/109] fix: description instructions: free the begin
 expression when the end cannot be evaluated

---
 mpact/sim/decoder/instruction.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/decoder/instruction.cc b/mpact/sim/decoder/instruction.cc
index 2d9ed19..5c94aec 100644
--- a/mpact/sim/decoder/instruction.cc
+++ b/mpact/sim/decoder/instruction.cc
@@ -180,6 +180,7 @@ absl::StatusOr<ResourceReference*> Instruction::CreateDerivedResourceRef(
   if (ref->end_expression != nullptr) {
     auto result = ref->end_expression->Evaluate(args);
     if (!result.ok()) {
+      delete begin_expr;
       return absl::InternalError(absl::StrCat(
           "Failed to create derived instruction for '", opcode()->name(),
           "': error evaluating begin expression"));
-- 
2.43.0

