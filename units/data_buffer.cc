// Instantiates the header-only parts of the data buffer interface so that the
// front end resolves them; nothing here is ever executed.
#include "mpact/sim/generic/data_buffer.h"

#include <cstdint>

namespace verif_unit {

using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::ReferenceCount;

// A client of the reference count that only records notifications.
class CountedObject : public ReferenceCount {
 public:
  void OnRefCountIsZero() override { zero_calls_++; }
  int zero_calls() const { return zero_calls_; }

 private:
  int zero_calls_ = 0;
};

// A client that relies on the default action.
class DefaultCounted : public ReferenceCount {
 public:
  DefaultCounted() {}
};

inline void Use(CountedObject *a, DefaultCounted *b) {
  a->IncRef();
  a->DecRef();
  a->ResetCounts();
  (void)a->ref_count();
  b->IncRef();
  b->DecRef();
}
void Anchor() {
  CountedObject a;
  auto *b = new DefaultCounted();
  Use(&a, b);
}

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
#define INST(T)                                                  \
  template DataBuffer *DataBufferFactory::Allocate<T>(int);      \
  template void DataBuffer::Set<T>(int, T);                      \
  template void DataBuffer::Set<T>(absl::Span<const T>);         \
  template void DataBuffer::SetSubmit<T>(int, T);                \
  template void DataBuffer::SetSubmit<T>(absl::Span<const T>);   \
  template T DataBuffer::Get<T>(unsigned) const;                 \
  template absl::Span<T> DataBuffer::Get<T>() const;             \
  template int DataBuffer::size<T>() const;
INST(uint8_t)
INST(int8_t)
INST(uint16_t)
INST(int16_t)
INST(uint32_t)
INST(int32_t)
INST(uint64_t)
INST(int64_t)

void VerifAnchor(DataBufferFactory *f, DataBuffer *db, DataBufferDelayLine *dl,
                 DataBufferDestination *d, uint8_t *p) {
  f->Allocate(4);
  f->MakeCopyOf(db);
  f->Clear();
  db->CopyTo(p);
  db->CopyFrom(p);
  db->CopyFrom(db);
  db->Submit();
  db->Submit(3);
  db->set_latency(1);
  db->set_destination(d);
  db->set_delay_line(dl);
  (void)db->latency();
  (void)db->raw_ptr();
  dl->Add(3, db, d);
  dl->Advance();
  (void)dl->IsEmpty();
  DataBufferDelayLine a;
  DataBufferDelayLine b(5);
}
}  // namespace generic
}  // namespace sim
}  // namespace mpact
