#ifndef VERIF_STUB_VAL_TYPECHECK_H_
#define VERIF_STUB_VAL_TYPECHECK_H_
#include "VAL/ptree.h"
namespace VAL {
class TypeChecker {
 public:
  explicit TypeChecker(analysis*) {}
  bool typecheckDomain() const { return true; }
  bool typecheckProblem() const { return true; }
};
}  // namespace VAL
#endif
