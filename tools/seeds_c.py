"""Planted bugs in the parts that the build here does not compile (see seedlib.py)."""
import sys
from seedlib import *
only = sys.argv[1:]


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, inc=True, libs='all', **k)


G = 'mpact/sim/generic/'
M = 'mpact/sim/util/memory/'
CORE = ' '.join(G + x + '.cc' for x in 'arch_state component data_buffer state_item_base program_error register fifo control_register simple_resource resource_bitset'.split())
INST = CORE + ' ' + G + 'instruction.cc'
PRE = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#define CHECK_OR_DIE(x) do { if (!(x)) { std::fprintf(stderr, "failed: %s\\n", #x); std::exit(1); } } while (0)
'''
STATE = '''#include "mpact/sim/generic/arch_state.h"
struct State : mpact::sim::generic::ArchState {
  State() : ArchState("state", nullptr) {}
  const mpact::sim::generic::ArchState *self() const { return this; }
};
'''
S('b19', 'P22', 'a fifo is destroyed with buffers still queued',
  'destroying a fifo forgets its queue instead of releasing the references it holds',
  [(G + 'fifo.cc', '''  while (Available() > 0) {
    Pop();
  }''', '''  fifo_.clear();''')],
  PRE + STATE + '''#include "mpact/sim/generic/fifo.h"
using namespace mpact::sim::generic;
int main() {
  State state;
  auto *f = new Fifo<uint32_t>(&state, "f", 4);
  DataBuffer *db = state.db_factory()->Allocate<uint32_t>(1);
  CHECK_OR_DIE(f->Push(db));
  CHECK_OR_DIE(db->ref_count() == 2);
  delete f;
  CHECK_OR_DIE(db->ref_count() == 1);
  db->DecRef();
  return 0;
}
''', srcs=CORE, san='')

S('b20', 'P32', 'decoding fails for an address whose entry holds the instruction of another address',
  'the displaced instruction is released before decoding, so its entry dangles when the decoder returns nothing',
  [(G + 'decode_cache.cc', '''  Instruction* new_inst = decoder_->DecodeInstruction(address);
''', '''  if (nullptr != inst) inst->DecRef();

  Instruction* new_inst = decoder_->DecodeInstruction(address);
'''), (G + 'decode_cache.cc', '''  if (nullptr != inst) {
    inst->DecRef();
  }

  instruction_cache_[indx] = new_inst;''', '''  instruction_cache_[indx] = new_inst;''')],
  PRE + STATE + '''#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic;
static int alive = 0;
struct Inst : Instruction {
  Inst(uint64_t a, ArchState *s) : Instruction(a, s) { alive++; }
  ~Inst() override { alive--; }
};
struct Dec : DecoderInterface {
  State state;
  Instruction *DecodeInstruction(uint64_t a) override { return a == 0x40 ? nullptr : new Inst(a, &state); }
  int GetNumOpcodes() const override { return 1; }
  const char *GetOpcodeName(int) const override { return "x"; }
};
int main() {
  Dec dec;
  DecodeCacheProperties p;
  p.num_entries = 16;
  p.minimum_pc_increment = 4;
  auto *dc = DecodeCache::Create(p, &dec);
  CHECK_OR_DIE(dc->GetDecodedInstruction(0) != nullptr);
  CHECK_OR_DIE(dc->GetDecodedInstruction(0x40) == nullptr);
  CHECK_OR_DIE(alive == 1);
  CHECK_OR_DIE(dc->GetDecodedInstruction(0)->address() == 0);
  delete dc;
  CHECK_OR_DIE(alive == 0);
  return 0;
}
''', srcs=INST + ' ' + G + 'decode_cache.cc', san='')

S('b21', 'P25', 'units of more than one byte and an access that crosses an allocation block',
  'the data pointer advances by units instead of bytes, so the part in the next block is read and written at the wrong place',
  [(M + 'flat_demand_memory.cc', 'data_ptr += store_size_in_bytes;', 'data_ptr += store_size_in_units;')],
  PRE + STATE + '''#include "mpact/sim/util/memory/flat_demand_memory.h"
using namespace mpact::sim::generic;
using mpact::sim::util::FlatDemandMemory;
int main() {
  DataBufferFactory f;
  FlatDemandMemory m(0x100000, 0, 2, 0);
  DataBuffer *db = f.Allocate<uint16_t>(4);
  for (int i = 0; i < 4; i++) db->Set<uint16_t>(i, 0x1111 * (i + 1));
  m.Store(16 * 1024 - 2, db);
  DataBuffer *one = f.Allocate<uint16_t>(1);
  for (int i = 0; i < 4; i++) {
    m.Load(16 * 1024 - 2 + i, one, nullptr, nullptr);
    CHECK_OR_DIE(one->Get<uint16_t>(0) == 0x1111 * (i + 1));
  }
  db->DecRef();
  one->DecRef();
  return 0;
}
''', srcs=INST + ' ' + M + 'flat_demand_memory.cc', san='')

S('b22', 'P24', 'a resource is released in a later cycle than it was acquired in, without a query in between',
  'releasing does not move the reservations to the current cycle first, so the wrong cycles are freed',
  [(G + 'complex_resource.cc', '''void ComplexResource::Release(absl::Span<const uint64_t> bit_span) {
  // Shift the cycle vector if needed.
  if (state_->cycle() != last_cycle_) Advance();''', '''void ComplexResource::Release(absl::Span<const uint64_t> bit_span) {''')],
  PRE + STATE + '''#include "mpact/sim/generic/complex_resource.h"
using namespace mpact::sim::generic;
int main() {
  State state;
  ComplexResource r(&state, "r", 64);
  uint64_t acq[] = {0x30}, rel[] = {0x18}, all[] = {0xffffffff};
  r.Acquire(acq);              // cycles 4 and 5
  state.AdvanceDelayLines();   // now cycles 3 and 4
  r.Release(rel);
  CHECK_OR_DIE(r.IsFree(all));
  return 0;
}
''', srcs=CORE + ' ' + G + 'complex_resource.cc', san='')

S('b23', 'P36', 'a disabled action is cleared while another one at the address is enabled',
  'clearing any action counts as clearing an enabled one, so the original instruction is restored while an action is still enabled',
  [(G + 'action_point_manager_base.cc', 'int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);', 'int num_active = ap->num_active > 0 ? ap->num_active - 1 : 0;')],
  PRE + '''#include "mpact/sim/generic/action_point_manager_base.h"
using namespace mpact::sim::generic;
struct Mem : ActionPointMemoryInterface {
  bool bp = false;
  absl::Status WriteOriginalInstruction(uint64_t) override { bp = false; return absl::OkStatus(); }
  absl::Status WriteBreakpointInstruction(uint64_t) override { bp = true; return absl::OkStatus(); }
};
int main() {
  Mem mem;
  ActionPointManagerBase m(&mem);
  int a = m.SetAction(0x100, [](uint64_t, int) {}).value();
  int b = m.SetAction(0x100, [](uint64_t, int) {}).value();
  CHECK_OR_DIE(m.DisableAction(0x100, a).ok());
  CHECK_OR_DIE(m.ClearAction(0x100, a).ok());
  CHECK_OR_DIE(m.IsActionEnabled(0x100, b));
  CHECK_OR_DIE(mem.bp);
  return 0;
}
''', srcs=G + 'action_point_manager_base.cc', san='')
