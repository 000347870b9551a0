"""Planted bugs, first batch (see seedlib.py)."""
import sys
from seedlib import *
only = sys.argv[1:]


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, **k)


DBH = 'mpact/sim/generic/data_buffer.h'
DBC = 'mpact/sim/generic/data_buffer.cc'
PRE = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#define CHECK_OR_DIE(x) do { if (!(x)) { std::fprintf(stderr, "failed: %s\\n", #x); std::exit(1); } } while (0)
'''
S('b01', 'P02', 'a long buffer (above the inline size) is released and the same size is allocated again twice',
  'the long free list hands out a buffer without removing it, so two owners share one buffer',
  [(DBH, '''          db = ptr->second.back();
          ptr->second.pop_back();''', '''          db = ptr->second.back();
          if (ptr->second.size() > 1) ptr->second.pop_back();''')],
  PRE + '''#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
int main() {
  DataBufferFactory f;
  DataBuffer *a = f.Allocate(8192);
  a->DecRef();
  DataBuffer *b = f.Allocate(8192);
  DataBuffer *c = f.Allocate(8192);
  CHECK_OR_DIE(b != c);
  CHECK_OR_DIE(b->ref_count() == 1 && c->ref_count() == 1);
  b->DecRef();
  c->DecRef();
  return 0;
}
''', srcs=DBC, libs='hash')

S('b02', 'P05', 'the line grows while it is positioned past slot 0 with an entry pending in the slot just before the current one',
  'growth of the delay line relocates one slot too few, so an entry is performed in the wrong cycle',
  [('mpact/sim/generic/delay_line.h', 'for (int index = 0; index < current_; ++index) {', 'for (int index = 0; index + 1 < current_; ++index) {')],
  PRE + '''#include "mpact/sim/generic/delay_line.h"
struct Rec { int *p; int v; Rec(int *a, int b) : p(a), v(b) {} void Apply() { *p = v; } };
int main() {
  mpact::sim::generic::DelayLine<Rec> dl(4);
  for (int i = 0; i < 3; i++) dl.Advance();
  int x = 0, y = 0;
  dl.Add(3, &x, 7);   // slot 2, just before the current slot
  dl.Add(9, &y, 8);   // grows the line
  for (int i = 1; i <= 9; i++) {
    dl.Advance();
    CHECK_OR_DIE((x == 7) == (i >= 3));
    CHECK_OR_DIE((y == 8) == (i >= 9));
  }
  return 0;
}
''')

S('b03', 'P07', 'an error is masked, raised, unmasked and then cleared with a message pending',
  'unmasking moves the error with its mask but clearing it then leaves the stale message when it was moved',
  [('mpact/sim/generic/program_error.cc', '''    program_error_info_[index].error_messages.clear();
    unmasked_program_errors_.erase(index);
    masked_program_errors_.erase(index);''', '''    if (unmasked_program_errors_.erase(index) != 0 ||
        !program_error_info_[index].is_masked) {
      program_error_info_[index].error_messages.clear();
    }
    masked_program_errors_.erase(index);''')],
  PRE + '''#include "mpact/sim/generic/program_error.h"
using namespace mpact::sim::generic;
int main() {
  ProgramErrorController c("c");
  CHECK_OR_DIE(c.AddProgramErrorName("e"));
  auto e = c.GetProgramError("e");
  c.Mask("e");
  e->Raise("one");
  c.Clear("e");
  e->Raise("two");
  CHECK_OR_DIE(c.GetErrorMessages("e").size() == 1);
  return 0;
}
''', srcs='mpact/sim/generic/program_error.cc', libs='all')

S('b04', 'P13', 'both operands of a binary expression evaluate, the right one to an error',
  'the evaluated left operand is leaked when evaluating the right operand fails',
  [('mpact/sim/decoder/template_expression.h', '''    if (!rhs.ok()) {
      delete lhs.value();
      return rhs.status();''', '''    if (!rhs.ok()) {
      return rhs.status();''')],
  PRE + '''#include "mpact/sim/decoder/template_expression.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  TemplateFormal f("x", 5);
  auto *e = new TemplateAdd(new TemplateConstant(1), new TemplateParam(&f));
  TemplateInstantiationArgs args;
  auto r = e->Evaluate(&args);
  CHECK_OR_DIE(!r.ok());
  delete e;
  return 0;
}
''', srcs='mpact/sim/decoder/template_expression.cc', libs='te')

S('b05', 'P10', 'a 64-bit status register with a condition at bit 32 or above, read through a mask',
  'the masked read tests the mask with a 32-bit constant, so high conditions are lost',
  [('mpact/sim/generic/status_register.h', 'if (mask & (static_cast<T>(1) << i)) {', 'if (mask & static_cast<T>(1u << (i & 31))) {')],
  PRE + '''#include "mpact/sim/generic/status_register.h"
#include "mpact/sim/generic/state_item.h"
using namespace mpact::sim::generic;
int main() {
  StatusRegister<uint64_t> r(nullptr, "sr");
  r.SetEvaluateFunction(40, []() { return true; });
  CHECK_OR_DIE(r.Read(1ull << 40) == (1ull << 40));
  CHECK_OR_DIE(r.Read(1ull << 8) == 0);
  return 0;
}
''', srcs='mpact/sim/generic/state_item_base.cc ' + DBC, libs='hash')

S('b06', 'P03', 'a buffer whose size is not a multiple of the element size is read at its last partial element',
  'the bounds check rounds the number of elements up, so a read crosses the end of the buffer',
  [(DBH, '''  inline ElementType Get(unsigned index) const {
    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));''', '''  inline ElementType Get(unsigned index) const {
    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) * sizeof(ElementType) <
                          size_);''')],
  PRE + '''#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
int main() {
  // The access has to be rejected (abort) before memory is touched.
  pid_t p = fork();
  if (p == 0) {
    DataBufferFactory f;
    DataBuffer *a = f.Allocate(6);
    volatile uint32_t v = a->Get<uint32_t>(1);
    (void)v;
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  CHECK_OR_DIE(WIFSIGNALED(st));
  return 0;
}
''', srcs=DBC, libs='hash', san='')
