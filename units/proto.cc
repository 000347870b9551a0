// Constraints of the protobuf decoder generator; nothing here is executed.
#include <cstdint>
#include <string>
#include <vector>

#include "mpact/sim/decoder/proto_constraint_expression.h"
#include "mpact/sim/decoder/proto_constraint_value_set.h"
#include "mpact/sim/decoder/proto_instruction_encoding.h"

namespace verif_unit {

using namespace mpact::sim::decoder::proto_fmt;  // NOLINT

void Anchor(ProtoConstraintExpression *e) {
  (void)e->GetValueAs<int32_t>();
  (void)e->GetValueAs<int64_t>();
  (void)e->GetValueAs<uint32_t>();
  (void)e->GetValueAs<uint64_t>();
  (void)e->GetValueAs<bool>();
  (void)new ProtoConstraintValueExpression(int32_t{1});
  (void)new ProtoConstraintValueExpression(int64_t{1});
  (void)new ProtoConstraintValueExpression(uint32_t{1});
  (void)new ProtoConstraintValueExpression(uint64_t{1});
  (void)new ProtoConstraintValueExpression(true);
  (void)new ProtoConstraintValueExpression(std::string("x"));
}

}  // namespace verif_unit
