// Stands for the parser ANTLR generates: read by the analysis only.
#ifndef VERIF_SHIM_BIN_FORMAT_PARSER_H_
#define VERIF_SHIM_BIN_FORMAT_PARSER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::bin_format::generated {
class BinFormatParser : public antlr4::Parser {
 public:
  explicit BinFormatParser(antlr4::CommonTokenStream* input);
  class Bit_field_specContext : public antlr4::ParserRuleContext {};
  class Bit_index_rangeContext : public antlr4::ParserRuleContext {};
  class Decoder_defContext : public antlr4::ParserRuleContext {};
  class Declaration_listContext : public antlr4::ParserRuleContext {};
  class Field_constraintContext : public antlr4::ParserRuleContext {};
  class Field_defContext : public antlr4::ParserRuleContext {};
  class Format_defContext : public antlr4::ParserRuleContext {};
  class Group_name_listContext : public antlr4::ParserRuleContext {};
  class Include_fileContext : public antlr4::ParserRuleContext {};
  class Instruction_group_defContext : public antlr4::ParserRuleContext {};
  class Instruction_defContext : public antlr4::ParserRuleContext {};
  class Namespace_declContext : public antlr4::ParserRuleContext {};
  class NumberContext : public antlr4::ParserRuleContext {};
  class OnceContext : public antlr4::ParserRuleContext {};
  class Overlay_defContext : public antlr4::ParserRuleContext {};
  class Top_levelContext : public antlr4::ParserRuleContext {};
};
}  // namespace mpact::sim::decoder::bin_format::generated
#endif
