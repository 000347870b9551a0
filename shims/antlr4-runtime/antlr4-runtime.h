// Declarations of the ANTLR runtime that the repository's headers name: read
// by the analysis only, never linked.
#ifndef VERIF_SHIM_ANTLR4_RUNTIME_H_
#define VERIF_SHIM_ANTLR4_RUNTIME_H_
#include <any>
#include <cstddef>
#include <exception>
#include <istream>
#include <string>
#include <string_view>
#include <vector>
namespace antlrcpp {
class BitSet;
}
namespace antlr4 {
namespace dfa {
class DFA;
}
namespace atn {
class ATNConfigSet;
}
class Recognizer;
class Parser;
class TokenSource;
class CharStream {
 public:
  virtual ~CharStream() = default;
};
class Token {
 public:
  virtual ~Token() = default;
  virtual std::string getText() const = 0;
  virtual size_t getLine() const = 0;
  virtual size_t getCharPositionInLine() const = 0;
};
class ANTLRErrorListener {
 public:
  virtual ~ANTLRErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) = 0;
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) = 0;
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) = 0;
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) = 0;
};
class BaseErrorListener : public ANTLRErrorListener {
 public:
  void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
  void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) override {}
  void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) override {}
  void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) override {}
};
class ANTLRInputStream : public CharStream {
 public:
  void load(const std::string& input, bool lenient);
  void load(std::istream& stream, bool lenient);
};
class RuleContext {
 public:
  virtual ~RuleContext() = default;
  virtual std::string getText();
};
class ParserRuleContext : public RuleContext {
 public:
  Token* start;
  Token* stop;
  Token* getStart() const;
  Token* getStop() const;
  std::vector<RuleContext*> children;
};
namespace tree {
class TerminalNode {
 public:
  virtual ~TerminalNode() = default;
  virtual Token* getSymbol() const = 0;
  virtual std::string getText() const = 0;
};
}  // namespace tree
class Lexer {
 public:
  virtual ~Lexer() = default;
  void removeErrorListeners();
  void addErrorListener(ANTLRErrorListener* listener);
};
class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer* lexer);
  virtual ~CommonTokenStream() = default;
};
class Recognizer {
 public:
  virtual ~Recognizer() = default;
  void removeErrorListeners();
  void addErrorListener(ANTLRErrorListener* listener);
};
class Parser : public Recognizer {
 public:
  explicit Parser(CommonTokenStream* tokens);
};
}  // namespace antlr4
#endif
