#include "core.h"
void dumpWhole(Program &P, Report &R, const std::string &) {
  auto W = P.whole();
  if (Function *F = W->M->getFunction(getenv("ONLY"))) F->print(errs());
}
