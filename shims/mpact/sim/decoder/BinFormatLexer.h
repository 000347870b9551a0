// Stands for the lexer ANTLR generates: read by the analysis only.
#ifndef VERIF_SHIM_BIN_FORMAT_LEXER_H_
#define VERIF_SHIM_BIN_FORMAT_LEXER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::bin_format::generated {
class BinFormatLexer : public antlr4::Lexer {
 public:
  explicit BinFormatLexer(antlr4::CharStream* input);
};
}  // namespace mpact::sim::decoder::bin_format::generated
#endif
