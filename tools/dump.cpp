#include "writers.h"
void dumpWriters(Program &P, Report &R, const std::string &) {
  auto ws = buildWriters(P, R);
  const char *only = getenv("ONLY");
  for (auto &w : ws) {
    if (only && w->F->getName() != only)
      continue;
    outs() << "== " << w->F->getName() << " (" << w->suffix << ")\n";
    if (getenv("IR"))
      w->F->print(outs());
    for (auto &e : w->emits) {
      outs() << (e.sink ? "  S " : "  b ") << whereOf(e.I) << " L" << w->LI.getLoopDepth(e.I->getParent()) << " ";
      std::string f = e.fmt;
      for (auto &c : f)
        if (c == '\n')
          c = ';';
      outs() << "\"" << f << "\"";
      for (auto &l : e.al) {
        outs() << " {";
        for (auto &x : l) {
          outs() << x.field;
          if (x.li)
            outs() << "[" << show(x.li) << "]";
          if (x.si)
            outs() << "[" << show(x.si) << "]";
          outs() << " ";
        }
        outs() << "}";
      }
      outs() << "\n";
    }
  }
}
