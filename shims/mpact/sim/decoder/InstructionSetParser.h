// Stands for the parser ANTLR generates: read by the analysis only.
#ifndef VERIF_SHIM_INSTRUCTION_SET_PARSER_H_
#define VERIF_SHIM_INSTRUCTION_SET_PARSER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace sim::machine_description::instruction_set::generated {
class InstructionSetParser : public antlr4::Parser {
 public:
  explicit InstructionSetParser(antlr4::CommonTokenStream* input);
  class Array_specContext : public antlr4::ParserRuleContext {};
  class Base_item_listContext : public antlr4::ParserRuleContext {};
  class Bundle_declarationContext : public antlr4::ParserRuleContext {};
  class Bundle_listContext : public antlr4::ParserRuleContext {};
  class Const_and_default_declContext : public antlr4::ParserRuleContext {};
  class Constant_defContext : public antlr4::ParserRuleContext {};
  class DeclarationContext : public antlr4::ParserRuleContext {};
  class Disasm_widthsContext : public antlr4::ParserRuleContext {};
  class ExpressionContext : public antlr4::ParserRuleContext {};
  class Gen_valueContext : public antlr4::ParserRuleContext {};
  class Generator_opcode_spec_listContext : public antlr4::ParserRuleContext {};
  class Ident_listContext : public antlr4::ParserRuleContext {};
  class Include_fileContext : public antlr4::ParserRuleContext {};
  class Instruction_attribute_listContext : public antlr4::ParserRuleContext {};
  class Isa_declarationContext : public antlr4::ParserRuleContext {};
  class Namespace_declContext : public antlr4::ParserRuleContext {};
  class Opcode_attribute_listContext : public antlr4::ParserRuleContext {};
  class Opcode_listContext : public antlr4::ParserRuleContext {};
  class Opcode_operandsContext : public antlr4::ParserRuleContext {};
  class Opcode_specContext : public antlr4::ParserRuleContext {};
  class Range_assignmentContext : public antlr4::ParserRuleContext {};
  class Resource_detailsContext : public antlr4::ParserRuleContext {};
  class Resource_itemContext : public antlr4::ParserRuleContext {};
  class Semfunc_specContext : public antlr4::ParserRuleContext {};
  class Slot_declarationContext : public antlr4::ParserRuleContext {};
  class Slot_listContext : public antlr4::ParserRuleContext {};
  class Top_levelContext : public antlr4::ParserRuleContext {};
  class Value_listContext : public antlr4::ParserRuleContext {};
};
}  // namespace sim::machine_description::instruction_set::generated
#endif
