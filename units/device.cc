// Instantiates the memory mapped devices and the Renode front end; nothing here is executed.
#include <cstdint>
#include <memory>
#include <string>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/util/other/simple_uart.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_memory_access.h"
#include "mpact/sim/util/renode/renode_mpact.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT
using namespace mpact::sim::util;     // NOLINT
using namespace mpact::sim::util::renode;  // NOLINT

class State : public ArchState {
 public:
  explicit State(absl::string_view id) : ArchState(id) {}
};

class Context : public ReferenceCount {
 public:
  Context() {}
};

// The halt reasons, by name.
struct Halt {
  using H = CoreDebugInterface::HaltReason;
#define HR(N) \
  static uint32_t N() { return static_cast<uint32_t>(H::k##N); }
  HR(None)
  HR(SoftwareBreakpoint)
  HR(HardwareBreakpoint)
  HR(UserRequest)
  HR(SemihostHaltRequest)
  HR(DataWatchPoint)
  HR(ActionPoint)
  HR(SimulatorError)
  HR(ProgramDone)
};

using BusFcn = int32_t (*)(uint64_t, char*, int32_t);

struct Use {
  static RenodeMemoryAccess* Access(BusFcn r, BusFcn w) { return new RenodeMemoryAccess(r, w); }
  static RenodeAgent* Agent() { return RenodeAgent::Instance(); }
};

void Anchor(State *st, DataBufferFactory *f, DataBuffer *d, Instruction *i, ReferenceCount *c) {
  State a("x");
  st->AdvanceDelayLines();
  (void)st->function_delay_line();
  Context ctx;
  (void)new Context();
  (void)f->Allocate(4);
  d->Set<uint8_t>(0, d->Get<uint8_t>(0));
  d->Set<uint32_t>(0, d->Get<uint32_t>(0));
  (void)d->size<uint8_t>();
  (void)d->latency();
  d->set_latency(1);
  d->DecRef();
  d->IncRef();
  (void)d->ref_count();
  i->set_semantic_function(Instruction::SemanticFunction());
  i->IncRef();
  i->DecRef();
  i->Execute(c);
  (void)i->ref_count();
  (void)i->context();
  Instruction in(0, st);
}

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
template int DelayLine<FunctionDelayRecord>::Add(int, std::function<void()>);
}  // namespace generic
}  // namespace sim
}  // namespace mpact
