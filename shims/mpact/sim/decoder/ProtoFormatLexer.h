// Stands for the lexer ANTLR generates: read by the analysis only.
#ifndef VERIF_SHIM_PROTO_FORMAT_LEXER_H_
#define VERIF_SHIM_PROTO_FORMAT_LEXER_H_
#include "antlr4-runtime/antlr4-runtime.h"
#endif
