// C14: numbers in output files do not depend on the locale of the calling
// program. The numeric locale is followed as a two-valued state (known to be
// "C" / anything) through every function that calls a writer and through every
// writer.
#include "core.h"
#include <regex>

namespace {
enum Effect { None, SetsC, Unsets };

struct Locale {
  static bool cName(const Value *V, bool &known) {
    bool ok = false;
    std::string s = constString(V, &ok);
    known = ok;
    return ok && (s == "C" || s == "POSIX");
  }
  static Effect effect(const CallBase *CB, bool &locale) {
    StringRef n = calleeName(CB);
    locale = false;
    auto both = [&](const Value *V, auto f) { // every value a choice may give
      if (auto *s = dyn_cast<SelectInst>(V))
        return f(s->getTrueValue()) && f(s->getFalseValue());
      if (auto *p = dyn_cast<PHINode>(V)) {
        for (const Value *x : p->incoming_values())
          if (!f(x))
            return false;
        return true;
      }
      return f(V);
    };
    if (n == "setlocale" && CB->arg_size() == 2) {
      locale = true;
      if (isa<ConstantPointerNull>(CB->getArgOperand(1)))
        return None; // only asks
      auto *cat = dyn_cast<ConstantInt>(CB->getArgOperand(0));
      if (cat && cat->getZExtValue() != 1 && cat->getZExtValue() != 6) // LC_NUMERIC, LC_ALL
        return None;
      bool c = both(CB->getArgOperand(1), [](const Value *V) { bool k; return cName(V, k); });
      return cat && c ? SetsC : Unsets;
    }
    if (n == "uselocale" && CB->arg_size() == 1) {
      locale = true;
      const Value *a = CB->getArgOperand(0);
      if (isa<ConstantPointerNull>(a))
        return None;
      if (auto *nl = dyn_cast<CallBase>(stripCasts(a)))
        if (calleeName(nl) == "newlocale") {
          auto *mask = dyn_cast<ConstantInt>(nl->getArgOperand(0));
          bool k;
          if (mask && (mask->getZExtValue() & 2) && cName(nl->getArgOperand(1), k))
            return SetsC;
        }
      return Unsets;
    }
    if (n.starts_with("_ZNSt6locale6globalE")) {
      locale = true;
      for (const User *U : CB->getArgOperand(0)->users()) // std::locale::global(std::locale::classic())
        if (auto *o = dyn_cast<CallBase>(U))
          if (o != CB && o->arg_size() == 2)
            if (auto *cl = dyn_cast<CallBase>(o->getArgOperand(1)))
              if (calleeName(cl).contains("classic"))
                return SetsC;
      return Unsets;
    }
    return None;
  }

  Function &F;
  std::map<const BasicBlock *, int> in; // 1: known to be "C"
  std::map<const BasicBlock *, const Instruction *> culprit;
  Locale(Function &F) : F(F) {}
  // "already C" tests: strcmp(setlocale(LC_NUMERIC, NULL), "C") == 0
  static bool testedC(const BasicBlock *from, const BasicBlock *to) {
    auto *br = dyn_cast<BranchInst>(from->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
      return false;
    auto *ic = dyn_cast<ICmpInst>(br->getCondition());
    if (!ic || !ic->isEquality())
      return false;
    auto *cmp = dyn_cast<CallBase>(ic->getOperand(0));
    auto *z = dyn_cast<ConstantInt>(ic->getOperand(1));
    if (!cmp || !z || !z->isZero() || calleeName(cmp) != "strcmp")
      return false;
    for (int k = 0; k < 2; k++) {
      bool known;
      auto *q = dyn_cast<CallBase>(stripCasts(cmp->getArgOperand(k)));
      if (!q || calleeName(q) != "setlocale" || !isa<ConstantPointerNull>(q->getArgOperand(1)))
        continue;
      auto *cat = dyn_cast<ConstantInt>(q->getArgOperand(0));
      if (!cat || (cat->getZExtValue() != 1 && cat->getZExtValue() != 6) || !cName(cmp->getArgOperand(1 - k), known))
        continue;
      return to == br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1);
    }
    return false;
  }
  void step(const Instruction &I, int &s, const Instruction *&who) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB)
      return;
    bool l;
    Effect e = effect(CB, l);
    if (e == SetsC)
      s = 1;
    else if (e == Unsets)
      s = 0, who = &I;
  }
  void solve(int entry) {
    std::vector<const BasicBlock *> work{&F.getEntryBlock()};
    in[work[0]] = entry;
    while (!work.empty()) {
      const BasicBlock *b = work.back();
      work.pop_back();
      int s = in[b];
      const Instruction *who = culprit[b];
      for (auto &I : *b)
        step(I, s, who);
      for (const BasicBlock *n : successors(b)) {
        int t = testedC(b, n) ? 1 : s;
        auto it = in.find(n);
        if (it == in.end() || (it->second == 1 && t == 0)) {
          in[n] = t;
          culprit[n] = who;
          work.push_back(n);
        }
      }
    }
  }
  void visit(const std::function<void(const CallBase *, int, const Instruction *)> &f) {
    for (auto &B : F) {
      auto it = in.find(&B);
      if (it == in.end())
        continue;
      int s = it->second;
      const Instruction *who = culprit[&B];
      for (auto &I : B) {
        if (auto *CB = dyn_cast<CallBase>(&I))
          f(CB, s, who);
        step(I, s, who);
      }
    }
  }
};

// may the call turn a number with a fraction into text?
bool formats(const CallBase *CB) {
  static const std::set<std::string> fs{"fprintf", "sprintf", "snprintf", "printf", "vfprintf", "vsnprintf", "vsprintf", "asprintf",
                                        "dprintf", "__fprintf_chk", "__sprintf_chk", "__snprintf_chk", "gcvt", "ecvt", "fcvt", "strfromd"};
  std::string n = calleeName(CB).str();
  if (!fs.count(n)) {
    return false;
  }
  static const std::regex conv("%[-+ #0']*[0-9*]*(\\.[0-9*]*)?[lL]*[eEfFgGaA]");
  bool known = false;
  for (const Value *a : CB->args()) {
    bool ok = false;
    std::string s = constString(a, &ok);
    if (!ok)
      continue;
    known = true;
    if (std::regex_search(s, conv))
      return true;
  }
  if (!known)
    return true;
  for (const Value *a : CB->args())
    if (a->getType()->isFloatingPointTy())
      return true;
  return false;
}
bool streams(const CallBase *CB) { // C++ streams use their own locale
  StringRef n = calleeName(CB);
  return (n.starts_with("_ZNSo9_M_insertI") && (n.contains("IdE") || n.contains("IeE"))) ||
         n == "_ZNSolsEd" || n == "_ZNSolsEf" || n == "_ZNSolsEe";
}
} // namespace

void checkC14(Program &P, Report &R, const std::string &) {
  auto ws = P.registered("at_output_add_handler", R);
  std::set<Function *> writers;
  for (auto &w : ws)
    writers.insert(w.second);
  if (writers.empty()) {
    R.fail("no registered writer found");
    return;
  }
  // a writer returns a number and takes a shape by value: the type of the table's functions
  FunctionType *type = (*writers.begin())->getFunctionType();
  auto calls = [&](const CallBase *CB) {
    if (Function *f = calleeOf(CB)) {
      for (Function *w : writers)
        if (w->getName() == f->getName())
          return true;
      return false;
    }
    return CB->getFunctionType() == type;
  };
  // functions that call a writer, from the interface downwards
  std::set<std::string> names, done;
  for (Function *w : writers)
    names.insert(w->getName().str());
  std::vector<Function *> roots = apiFunctions(P);
  if (Function *m = P.M->getFunction("main"))
    roots.push_back(m);
  auto leadsTo = [&](Function *F) { // in the direct call graph
    std::set<Function *> seen{F};
    std::vector<Function *> work{F};
    while (!work.empty()) {
      Function *f = work.back();
      work.pop_back();
      for (auto &I : instructions(*f))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (calls(CB))
            return true;
          if (Function *g = calleeOf(CB))
            if (!g->isDeclaration() && !writers.count(g) && seen.insert(g).second)
              work.push_back(g);
        }
    }
    return false;
  };
  auto check = [&](Function *F) {
    Prep p;
    p.keep = names;
    auto r = P.root(F->getName().str(), p);
    if (!r) {
      R.fail("cannot prepare " + F->getName().str());
      return;
    }
    r->run("function(instcombine,simplifycfg,sroa,early-cse)");
    R.count("functions that lead to a writer");
    Locale L(*r->F);
    L.solve(0);
    L.visit([&](const CallBase *CB, int s, const Instruction *who) {
      bool l;
      Locale::effect(CB, l);
      if (l)
        R.count("calls that ask for or change the locale");
      if (!calls(CB))
        return;
      done.insert(funcOf(CB));
      R.count("calls of writers");
      if (s == 1)
        return;
      R.finding("locale-not-set", funcOf(CB), whereOf(CB), F->getName().str(),
                who ? "the writer is called after the numeric locale was changed at " + whereOf(who) + " to something that is not \"C\""
                    : "a path leads to this call of the writer without selecting the \"C\" numeric locale, so numbers follow the locale "
                      "of the calling program");
    });
  };
  for (Function *F : roots)
    if (!writers.count(F) && leadsTo(F))
      check(F);
  for (Function &F : *P.M) {
    if (F.isDeclaration() || writers.count(&F) || done.count(F.getName().str()))
      continue;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (calls(CB) && !done.count(funcOf(CB))) {
          bool covered = false;
          for (auto &d : done)
            covered |= F.getName().contains(d);
          if (!covered)
            check(&F);
          break;
        }
  }
  if (!R.counts["calls of writers"]) {
    R.fail("no call of a writer was found");
    return;
  }
  for (Function *w : writers) {
    auto r = P.root(w->getName().str());
    if (!r) {
      R.fail("cannot prepare " + w->getName().str());
      continue;
    }
    R.count("writers searched");
    Locale L(*r->F);
    L.solve(1);
    L.visit([&](const CallBase *CB, int s, const Instruction *who) {
      bool l;
      Effect e = Locale::effect(CB, l);
      if (l)
        R.count("calls that ask for or change the locale");
      (void)e;
      if (streams(CB))
        R.finding("stream-number", funcOf(CB), whereOf(CB), w->getName().str(),
                  "a number is written through a C++ stream, which follows the global locale of the calling program");
      if (!formats(CB))
        return;
      R.count("places in writers that format numbers with a fraction");
      if (s == 0)
        R.finding("locale-changed", funcOf(CB), whereOf(CB), w->getName().str(),
                  "this number is formatted after the locale was changed at " + whereOf(who));
    });
  }
}
