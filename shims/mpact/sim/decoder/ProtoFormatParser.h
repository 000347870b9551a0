// Stands for the parser ANTLR generates: read by the analysis only.
#ifndef VERIF_SHIM_PROTO_FORMAT_PARSER_H_
#define VERIF_SHIM_PROTO_FORMAT_PARSER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::proto_fmt::generated {
class ProtoFormatParser : public antlr4::Parser {
 public:
  explicit ProtoFormatParser(antlr4::CommonTokenStream* input);
  class Constraint_exprContext : public antlr4::ParserRuleContext {};
  class DeclarationContext : public antlr4::ParserRuleContext {};
  class Decoder_attributeContext : public antlr4::ParserRuleContext {};
  class Decoder_defContext : public antlr4::ParserRuleContext {};
  class Include_fileContext : public antlr4::ParserRuleContext {};
  class Instruction_defContext : public antlr4::ParserRuleContext {};
  class Instruction_group_defContext : public antlr4::ParserRuleContext {};
  class NumberContext : public antlr4::ParserRuleContext {};
  class Setter_group_defContext : public antlr4::ParserRuleContext {};
  class Setter_refContext : public antlr4::ParserRuleContext {};
  class Top_levelContext : public antlr4::ParserRuleContext {};
  class Qualified_identContext : public antlr4::ParserRuleContext {};
  class ValueContext : public antlr4::ParserRuleContext {};
  class Field_constraintContext : public antlr4::ParserRuleContext {
   public:
    Qualified_identContext* field = nullptr;
    Constraint_exprContext* constraint_expr();
    Qualified_identContext* qualified_ident();
  };
  class Setter_defContext : public antlr4::ParserRuleContext {
   public:
    Qualified_identContext* qualified_ident();
  };
  class If_notContext : public antlr4::ParserRuleContext {
   public:
    Qualified_identContext* qualified_ident();
    ValueContext* value();
  };
};
}  // namespace mpact::sim::decoder::proto_fmt::generated
#endif
