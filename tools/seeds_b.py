"""Planted bugs, second batch (see seedlib.py)."""
import sys
from seedlib import *
only = sys.argv[1:]


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, **k)


G = 'mpact/sim/generic/'
D = 'mpact/sim/decoder/'
DBC = G + 'data_buffer.cc'
PRE = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#define CHECK_OR_DIE(x) do { if (!(x)) { std::fprintf(stderr, "failed: %s\\n", #x); std::exit(1); } } while (0)
'''
S('b07', 'P01', '65536 references outstanding at the moment of a release',
  'the counts are compared in 16 bits, so the object is destroyed while 65536 references are held',
  [(G + 'ref_count.h', 'if (inc_count_ == dec_count_) {', 'if (static_cast<uint16_t>(inc_count_ - dec_count_) == 0) {')],
  PRE + '''#include "mpact/sim/generic/ref_count.h"
using namespace mpact::sim::generic;
static int zeros = 0;
struct C : ReferenceCount { void OnRefCountIsZero() override { zeros++; } };
int main() {
  C c;
  for (int i = 0; i < 65536; i++) c.IncRef();   // 65537 references
  c.DecRef();
  CHECK_OR_DIE(c.ref_count() == 65536);
  CHECK_OR_DIE(zeros == 0);
  for (int i = 0; i < 65536; i++) c.DecRef();
  CHECK_OR_DIE(zeros == 1);
  return 0;
}
''')

S('b08', 'P04', 'a zero latency submit by the only holder of the buffer',
  'the submitted reference is dropped before delivery: the destination receives a buffer that is already in the free list',
  [(DBC, '''    destination_->SetDataBuffer(this);
    DecRef();''', '''    DecRef();
    destination_->SetDataBuffer(this);''')],
  PRE + '''#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
struct Dst : DataBufferDestination {
  DataBuffer *db = nullptr;
  void SetDataBuffer(DataBuffer *d) override { d->IncRef(); if (db) db->DecRef(); db = d; }
};
int main() {
  DataBufferFactory f;
  Dst dst;
  DataBuffer *a = f.Allocate<uint32_t>(1);
  a->set_destination(&dst);
  a->Submit(0);
  CHECK_OR_DIE(dst.db == a);
  DataBuffer *b = f.Allocate<uint32_t>(1);
  CHECK_OR_DIE(b != dst.db);
  b->DecRef();
  dst.db->DecRef();
  return 0;
}
''', srcs=DBC, libs='hash', san='')

S('b09', 'P08', 'a vector immediate of a narrow signed type with a negative element, read as a 64 bit unsigned',
  'the 64 bit unsigned view of vector immediates zero extends signed elements',
  [(G + 'immediate_operand.h', 'uint64_t AsUint64(int i) override { return static_cast<uint64_t>(value_[i]); }',
    'uint64_t AsUint64(int i) override {\n    return static_cast<typename std::make_unsigned<T>::type>(value_[i]);\n  }')],
  PRE + '''#include "mpact/sim/generic/immediate_operand.h"
using namespace mpact::sim::generic;
int main() {
  VectorImmediateOperand<int16_t> op({3, -2});
  CHECK_OR_DIE(op.AsUint64(0) == 3);
  CHECK_OR_DIE(op.AsUint64(1) == static_cast<uint64_t>(int64_t{-2}));
  return 0;
}
''', libs='te')

S('b10', 'P11', 'a state item of three or more dimensions',
  'the byte size only counts the first and the last dimension',
  [(G + 'state_item_base.cc', '''  for (int sz : shape_) {
    size_ *= sz;
  }''', '''  if (!shape_.empty()) size_ *= shape_.front();
  if (shape_.size() > 1) size_ *= shape_.back();''')],
  PRE + '''#include "mpact/sim/generic/state_item_base.h"
using namespace mpact::sim::generic;
struct I : StateItemBase {
  I(const std::vector<int>& s, int e) : StateItemBase(nullptr, "i", s, e) {}
  void SetDataBuffer(DataBuffer *) override {}
};
int main() {
  CHECK_OR_DIE(I({4}, 2).size() == 8);
  CHECK_OR_DIE(I({4, 3}, 2).size() == 24);
  CHECK_OR_DIE(I({4, 3, 5}, 2).size() == 120);
  return 0;
}
''', srcs=G + 'state_item_base.cc ' + DBC, libs='all', san='')

S('b11', 'P12', 'a function whose evaluator needs arguments that are bound only after a first partial evaluation',
  'a function with a constant first argument is treated as constant, so a symbolic expression containing it fails instead of staying symbolic',
  [(D + 'template_expression.cc', '''  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;''', '''  for (auto* arg : *args_) {
    if (arg->IsConstant()) return true;
  }
  return args_->empty();''')],
  PRE + '''#include "mpact/sim/decoder/template_expression.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  auto sum = [](TemplateInstantiationArgs *a) -> absl::StatusOr<TemplateValue> {
    int s = 0;
    for (auto *e : *a) {
      auto v = e->GetValue();
      if (!v.ok()) return v.status();
      s += std::get<int>(v.value());
    }
    return s;
  };
  TemplateFormal x("x", 0);
  auto *fn = new TemplateFunction(sum, new TemplateInstantiationArgs{new TemplateConstant(1), new TemplateParam(&x)});
  auto *e = new TemplateAdd(fn, new TemplateConstant(2));
  auto sym = e->Evaluate(nullptr);
  CHECK_OR_DIE(sym.ok());
  CHECK_OR_DIE(!sym.value()->IsConstant());
  TemplateInstantiationArgs args{new TemplateConstant(4)};
  auto r = sym.value()->Evaluate(&args);
  CHECK_OR_DIE(r.ok() && std::get<int>(r.value()->GetValue().value()) == 7);
  delete r.value();
  delete sym.value();
  delete e;
  delete args[0];
  return 0;
}
''', srcs=D + 'template_expression.cc', libs='te')

S('b12', 'P14', 'a mask with two runs of which the upper one ends at bit 63',
  'the scan stops before bit 63, so the top bit of the word is never extracted',
  [(D + 'extract.cc', '  while (value != 0) {', '  while ((value != 0) && (shift < 63)) {')],
  PRE + '''#include "mpact/sim/decoder/extract.h"
using namespace mpact::sim::decoder::bin_format;
int main() {
  auto r = GetExtractionRecipe(0xc00000000000000full);
  CHECK_OR_DIE(ExtractValue(0xc00000000000000full, r) == 0x3f);
  CHECK_OR_DIE(ExtractValue(0x4000000000000001ull, r) == 0x11);
  CHECK_OR_DIE(ExtractValue(0x8000000000000001ull, r) == 0x21);
  return 0;
}
''', srcs=D + 'extract.cc', libs='all')

S('b13', 'P15', 'a name with an underscore followed by a capital letter',
  'snake case drops the separator before a capital that follows an underscore',
  [(D + 'format_name.cc', 'if (!formatted.empty() && isupper(c)) {', "if (!formatted.empty() && (formatted.back() != '_') && isupper(c)) {")],
  PRE + '''#include "mpact/sim/decoder/format_name.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  CHECK_OR_DIE(ToSnakeCase("aB") == "a_b");
  CHECK_OR_DIE(ToSnakeCase("a_B") == "a__b");
  return 0;
}
''', srcs=D + 'format_name.cc', libs='all')

S('b14', 'P16', 'two resource names that differ only in how they are written (r_1 and r1)',
  'looking a resource up compares the Pascal case forms, so different resources are taken for one',
  [(D + 'resource.cc', '''  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;''', '''  for (auto& [unused, resource] : resource_map_) {
    if (resource->pascal_name() == ToPascalCase(name)) return resource;
  }''')],
  PRE + '''#include "mpact/sim/decoder/resource.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  ResourceFactory f;
  auto a = f.CreateResource("r_1");
  CHECK_OR_DIE(a.ok());
  auto *b = f.GetOrInsertResource("r1");
  CHECK_OR_DIE(a.value() != b);
  CHECK_OR_DIE(f.GetOrInsertResource("r1") == b);
  CHECK_OR_DIE(f.GetOrInsertResource("r_1") == a.value());
  return 0;
}
''', srcs=D + 'resource.cc ' + D + 'format_name.cc', libs='all')

S('b15', 'P18', 'the smallest half precision subnormals',
  'normalisation of subnormal halfs stops after eight steps, so the smallest ones are converted to a wrong number',
  [(G + 'type_helpers.h', 'while ((sig & (1 << FPTypeInfo<HalfFP>::kSigSize)) == 0) {', 'while ((sig & (1 << FPTypeInfo<HalfFP>::kSigSize)) == 0 &&\n           (shift_count < 8)) {')],
  PRE + '''#include <cmath>
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
int main() {
  for (int i = 1; i < 1024; i++) {
    CHECK_OR_DIE(ConvertHalfToSingle(HalfFP{static_cast<uint16_t>(i)}) == std::ldexp(static_cast<float>(i), -24));
  }
  return 0;
}
''', libs='all', san='')

S('b16', 'P09', 'a literal that does not fit 16 bits read as a 32 bit integer',
  'the 32 bit view of integer literals is truncated to 16 bits (copied from the line above)',
  [(G + 'literal_operand.h', 'int32_t AsInt32(int) override { return static_cast<int32_t>(literal); }', 'int32_t AsInt32(int) override { return static_cast<int16_t>(literal); }', 1)],
  PRE + '''#include "mpact/sim/generic/literal_operand.h"
using namespace mpact::sim::generic;
int main() {
  IntLiteralOperand<100000> op;
  CHECK_OR_DIE(op.AsInt32(0) == 100000);
  return 0;
}
''', libs='te')

S('b17', 'P06', 'a call that itself schedules a call further ahead than the line is long',
  'growing the line also moves the slot that is being run, so its calls are run a second time',
  [(G + 'delay_line.h', 'for (int index = 0; index < current_; ++index) {', 'for (int index = 0; index <= current_; ++index) {')],
  PRE + '''#include "mpact/sim/generic/function_delay_line.h"
using namespace mpact::sim::generic;
int main() {
  FunctionDelayLine dl(4);
  int first = 0, second = 0, far = 0;
  dl.Add(1, [&]() { if (first++ == 0) dl.Add(9, [&]() { far++; }); });
  dl.Add(1, [&]() { second++; });
  for (int i = 1; i <= 30; i++) {
    dl.Advance();
    CHECK_OR_DIE(first == 1);
    CHECK_OR_DIE(second == 1);
    CHECK_OR_DIE(far == (i >= 10));
  }
  CHECK_OR_DIE(dl.IsEmpty());
  return 0;
}
''', san='')

S('b18', 'P17', 'a signalling NaN of double precision whose payload lies in the upper half of the significand',
  'the quiet bit of a 64 bit pattern is tested one position too low',
  [(G + 'type_helpers.h', '''struct FPTypeInfo<double> {''', '''struct FPTypeInfo<double> {
  static constexpr int kQuietPos = 50;'''),
   (G + 'type_helpers.h', '''    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) == 0);''', '''    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (uint_val >> kQuietPos & 3) < 2 &&
           ((uint_val >> kQuietPos) & 1) == 0;''')],
  PRE + '''#include <cstring>
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
int main() {
  uint64_t b = 0x7ff4000000000000ull;
  double d;
  std::memcpy(&d, &b, 8);
  CHECK_OR_DIE(FPTypeInfo<double>::IsNaN(d));
  CHECK_OR_DIE(FPTypeInfo<double>::IsSNaN(d));
  CHECK_OR_DIE(!FPTypeInfo<double>::IsQNaN(d));
  return 0;
}
''', libs='all', san='')
