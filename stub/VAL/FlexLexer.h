#ifndef VERIF_STUB_VAL_FLEXLEXER_H_
#define VERIF_STUB_VAL_FLEXLEXER_H_
#include <iostream>
class yyFlexLexer {
 public:
  void switch_streams(std::istream* in, std::ostream*) { in_ = in; }
  std::istream* in_ = nullptr;
};
#endif
