// Instantiates the memory models; nothing here is executed.
#include <cstdint>
#include <memory>
#include <string>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT
using namespace mpact::sim::util;     // NOLINT

class State : public ArchState {
 public:
  explicit State(absl::string_view id) : ArchState(id) {}
  void SetCycle(uint64_t v) { set_cycle(v); }
};

// A context object of a memory access.
class Context : public ReferenceCount {
 public:
  Context() {}
};

// The enumerators of the atomic operations, by name.
struct Ops {
  using O = AtomicMemoryOpInterface::Operation;
#define OP(N) \
  static O N() { return O::k##N; }
  OP(LoadLinked)
  OP(StoreConditional)
  OP(AtomicSwap)
  OP(AtomicAdd)
  OP(AtomicSub)
  OP(AtomicAnd)
  OP(AtomicOr)
  OP(AtomicXor)
  OP(AtomicMax)
  OP(AtomicMaxu)
  OP(AtomicMin)
  OP(AtomicMinu)
};

template <typename M>
void Use(M *m, DataBuffer *a, DataBuffer *b, DataBuffer *d, Instruction *i, ReferenceCount *c) {
  m->Load(1, d, i, c);
  m->Load(a, b, 4, d, i, c);
  m->Store(1, d);
  m->Store(a, b, 4, d);
  m->template Load<uint32_t>(a, b, d, i, c);
  m->template Store<uint32_t>(a, b, d);
}

void Anchor(State *st, DataBufferFactory *f, DataBuffer *d, Instruction *i, ReferenceCount *c) {
  State a("x");
  st->SetCycle(1);
  st->AdvanceDelayLines();
  (void)st->function_delay_line();
  Context ctx;
  (void)new Context();
  (void)f->Allocate(4);
  d->Set<uint8_t>(0, d->Get<uint8_t>(0));
  d->Set<bool>(0, d->Get<bool>(0));
  d->Set<uint16_t>(0, d->Get<uint16_t>(0));
  d->Set<uint32_t>(0, d->Get<uint32_t>(0));
  d->Set<uint64_t>(0, d->Get<uint64_t>(0));
  (void)d->size<uint8_t>();
  (void)d->latency();
  d->set_latency(1);
  d->DecRef();
  d->IncRef();
  (void)d->ref_count();
  i->set_semantic_function(Instruction::SemanticFunction());
  i->IncRef();
  i->DecRef();
  i->Execute(c);
  (void)i->ref_count();
  (void)i->context();
  Instruction in(0, st);
  Instruction in2(st);
  Use<MemoryInterface>(nullptr, d, d, d, i, c);
  Use<FlatMemory>(nullptr, d, d, d, i, c);
  Use<FlatDemandMemory>(nullptr, d, d, d, i, c);
  Use<TaggedFlatDemandMemory>(nullptr, d, d, d, i, c);
}

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
template int DelayLine<FunctionDelayRecord>::Add(int, std::function<void()>);
}  // namespace generic
}  // namespace sim
}  // namespace mpact
