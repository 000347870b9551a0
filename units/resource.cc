// Instantiates simple and complex resources; nothing here is executed.
#include <cstdint>
#include <utility>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT

class State : public ArchState {
 public:
  explicit State(absl::string_view id) : ArchState(id) {}
  void SetCycle(uint64_t v) { set_cycle(v); }
};

// The value-semantics operations of a bit set, by name.
struct BitSets {
  static ResourceBitSet *Copy(const ResourceBitSet &b) { return new ResourceBitSet(b); }
  static ResourceBitSet *Move(ResourceBitSet &b) { return new ResourceBitSet(std::move(b)); }
  static void Assign(ResourceBitSet *a, const ResourceBitSet &b) { *a = b; }
};

void Anchor(State *st, ComplexResource *r, SimpleResourceSet *set, ResourceBitSet *b) {
  State a("x");
  st->SetCycle(1);
  BitSets::Copy(*b);
  BitSets::Move(*b);
  BitSets::Assign(b, *b);
  ResourceBitSet e;
  ResourceBitSet n(4);
  SimpleResourceDelayLine line(8);
  line.Advance();
  SimpleResourceOperand op(set, 1, &line);
  SimpleResourceOperand op2(set, 1);
  op.Release(1);
  op.Release();
  op.Acquire();
  op.set_delay_line(&line);
  (void)op.resource_set();
  (void)op.latency();
  (void)op.IsFree();
  (void)op.AsString();
  SimpleResourcePool pool("p", 4);
  (void)pool.name();
  (void)pool.width();
  (void)pool.resource_vector();
  (void)pool.CreateResourceSet()->resource_vector();
  (void)pool.GetOrAddResource("x")->name();
  (void)pool.GetOrAddResource("x")->index();
  (void)pool.GetOrAddResource("x")->pool();
  (void)pool.GetOrAddResource("x")->resource_bit();
  ComplexResource cr(st, "c", 64);
  (void)cr.bit_array();
  (void)cr.cycle_depth();
  (void)cr.name();
  (void)cr.AsString();
  ComplexResourceOperand co(r);
  (void)co.IsFree();
  co.Acquire();
  (void)co.AsString();
  (void)co.bit_array();
}

}  // namespace verif_unit
