// Instantiates the expression templates; nothing here is ever executed.
#include "mpact/sim/decoder/template_expression.h"

namespace mpact {
namespace sim {
namespace machine_description {
namespace instruction_set {
template class BinaryTemplateExpression<TemplateAdd>;
template class BinaryTemplateExpression<TemplateSubtract>;
template class BinaryTemplateExpression<TemplateMultiply>;
template class BinaryTemplateExpression<TemplateDivide>;
}  // namespace instruction_set
}  // namespace machine_description
}  // namespace sim
}  // namespace mpact
