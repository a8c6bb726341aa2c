// C08: a failed or cancelled trace gives no shape and leaves nothing behind.
//
// 1. In every call of the interface that returns a shape: from every place where the
//    cancel callback is asked or a fatal error can be raised, directly or in something
//    called, every path on which the answer stays yes (the error stays raised) ends in a
//    return of no shape.
// 2. A fatal error stays raised: raising it always marks the exception object, nothing
//    on the way back unmarks it, asking says so, and the object is handed on to
//    everything that can raise one.
// 3. In every function that takes part in a trace, what was acquired is released or
//    handed on along every path (the ownership analysis of C11).
#include "own.h"
#include "llvm/Transforms/Utils/Cloning.h"

namespace {

const char *Exc = "at_exception_type";

struct Check {
  Program &P;
  Report &R;
  uint64_t off = 0, size = 0;
  int64_t fatal = 0;
  Check(Program &P, Report &R) : P(P), R(R) {}

  bool isMark(Value *ptr, Value *object, const DataLayout &DL) {
    APInt o(64, 0);
    Value *b = ptr->stripAndAccumulateConstantOffsets(DL, o, true);
    return b == object && o == off;
  }
  // parameters that take an exception object, found from what becomes of them
  std::map<Function *, int> objectParam;
  void findObjects(Module &M) {
    objectParam.clear();
    for (auto *n : {"at_exception_fatal", "at_exception_warning", "at_exception_got_fatal"})
      if (Function *F = M.getFunction(n))
        objectParam[F] = 0;
      else
        R.fail(std::string(n) + " not found");
    bool more = true;
    while (more) {
      more = false;
      for (auto &F : M)
        if (!F.isDeclaration() && !objectParam.count(&F))
          for (auto &I : instructions(F))
            if (auto *C = dyn_cast<CallBase>(&I)) {
              auto it = objectParam.find(C->getCalledFunction());
              if (it == objectParam.end() || (unsigned)it->second >= C->arg_size())
                continue;
              if (auto *A = dyn_cast<Argument>(C->getArgOperand(it->second)->stripPointerCasts())) {
                objectParam[&F] = A->getArgNo();
                more = true;
                break;
              }
            }
    }
  }
  int objectOf(Function *F) {
    auto it = objectParam.find(F);
    return it == objectParam.end() ? -1 : it->second;
  }
  static bool givesShape(Function *A) {
    auto ts = A->getSubprogram()->getType()->getTypeArray();
    auto *d = ts.size() ? dyn_cast_or_null<DIDerivedType>(stripTypedefs(ts[0])) : nullptr;
    return d && d->getTag() == dwarf::DW_TAG_pointer_type && d->getBaseType() && d->getBaseType()->getName() == "at_spline_list_array_type";
  }
  std::set<Function *> holding(Module &M, const std::function<bool(const Instruction *)> &what) {
    std::set<Function *> r;
    bool more = true;
    while (more) {
      more = false;
      for (auto &F : M)
        if (!F.isDeclaration() && !r.count(&F))
          for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            if (C && (what(C) || (C->getCalledFunction() && r.count(C->getCalledFunction())))) {
              r.insert(&F);
              more = true;
              break;
            }
          }
    }
    return r;
  }

  void shapes() {
    long asks = 0, raises = 0, roots = 0;
    for (auto *A : apiFunctions(P)) {
      if (!givesShape(A))
        continue;
      Prep p;
      std::string file = A->getSubprogram()->getFile()->getFilename().str();
      for (auto &F : *P.M)
        if (!F.isDeclaration() && (!F.getSubprogram() || F.getSubprogram()->getFile()->getFilename() != file))
          p.keep.insert(F.getName().str());
      auto W = P.root(A->getName().str(), p);
      if (!W) {
        R.fail("cannot prepare " + A->getName().str());
        continue;
      }
      Function &F = *W->F;
      roots++;
      findObjects(*W->M);
      auto isAsk = [](const Instruction *I) { return isCancelAsk(I); };
      auto isRaise = [](const Instruction *I) {
        auto *C = dyn_cast<CallBase>(I);
        return C && calleeName(C) == "at_exception_fatal";
      };
      auto cancels = holding(*W->M, isAsk), raisers = holding(*W->M, isRaise);
      std::set<Value *> cancelFunc;
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I)) {
          if (isAsk(C))
            cancelFunc.insert(C->getCalledOperand()->stripPointerCasts());
          if (auto *G = C->getCalledFunction())
            if (cancels.count(G))
              for (auto &a : C->args()) // the callback handed on
                if (isa<Argument>(a.get()->stripPointerCasts()) && G->arg_size() > C->getArgOperandNo(&a))
                  for (auto *U : G->getArg(C->getArgOperandNo(&a))->users())
                    if (auto *X = dyn_cast<CallBase>(U))
                      if (isAsk(X) && X->getCalledOperand() == G->getArg(C->getArgOperandNo(&a)))
                        cancelFunc.insert(a.get()->stripPointerCasts());
        }
      std::set<Value *> objects; // exception objects of the call
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (auto *G = C->getCalledFunction()) {
            int k = objectOf(G);
            if (k >= 0 && (unsigned)k < C->arg_size())
              objects.insert(C->getArgOperand(k)->stripPointerCasts());
          }
      auto &DL = W->M->getDataLayout();
      for (int kind = 0; kind < 2; kind++) {
        for (auto &I : instructions(F)) {
          auto *C = dyn_cast<CallBase>(&I);
          if (!C)
            continue;
          auto *G = C->getCalledFunction();
          if (kind == 0 ? !(isAsk(C) || (G && cancels.count(G))) : !(isRaise(C) || (G && raisers.count(G))))
            continue;
          if (kind == 0 && cancelFunc.empty())
            continue; // there is no callback
          (kind ? raises : asks)++;
          PathSearch S(F, W->LI());
          S.remember = true;
          S.carried = true;
          S.given = [&](Value *V, int64_t &c) {
            auto *J = dyn_cast<Instruction>(V);
            if (!J)
              return false;
            if (kind == 0 && isAsk(J))
              return c = 1, true;
            if (kind == 1 && isFatalAsk(J))
              return c = 1, true;
            if (kind == 1)
              if (auto *L = dyn_cast<LoadInst>(J))
                for (auto *o : objects)
                  if (L->getType()->isIntegerTy() && isMark(L->getPointerOperand(), o, DL))
                    return c = fatal, true;
            return false;
          };
          S.positive = [&](Value *V) { return kind == 0 && cancelFunc.count(V->stripPointerCasts()) > 0; };
          for (auto &J : instructions(F))
            if (isa<ReturnInst>(J))
              S.watch.push_back(&J);
          S.prepare();
          Instruction *hit = S.reach(&I, [&](Instruction &J) {
            auto *r = dyn_cast<ReturnInst>(&J);
            if (!r)
              return false;
            auto v = S.eval(r->getReturnValue(), S.now);
            return !(v.k == PathSearch::Val::Const && v.c == 0);
          });
          if (S.exceeded)
            R.count("searches not decided");
          if (hit)
            R.finding(kind ? "shape-after-error" : "shape-after-cancel", A->getName().str(), whereOf(&I), G ? G->getName().str() : "asked in " + funcOf(&I),
                      std::string(kind ? "after a fatal error raised" : "after cancel was answered true") + (G ? " in " + G->getName().str() + ", called" : "") + " at " +
                          whereOf(&I) + " a path returns a shape at " + whereOf(hit));
        }
      }
      // the object is not made anew after an error
      for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        auto *G = C ? C->getCalledFunction() : nullptr;
        if (!G || !(isRaise(C) || raisers.count(G)))
          continue;
        int k = objectOf(G);
        if (k < 0 || (unsigned)k >= C->arg_size())
          continue;
        Value *o = C->getArgOperand(k)->stripPointerCasts();
        PathSearch S(F, W->LI());
        S.prepare();
        Instruction *hit = S.reach(&I, [&](Instruction &J) {
          if (auto *st = dyn_cast<StoreInst>(&J)) {
            auto *v = dyn_cast<ConstantInt>(st->getValueOperand());
            return isMark(st->getPointerOperand(), o, DL) && !(v && v->getSExtValue() == fatal);
          }
          if (auto *m = dyn_cast<MemIntrinsic>(&J))
            return m->getRawDest()->stripPointerCasts() == o;
          if (auto *c = dyn_cast<CallBase>(&J))
            return c->hasStructRetAttr() && c->getArgOperand(0)->stripPointerCasts() == o;
          return false;
        });
        if (hit)
          R.finding("reset", A->getName().str(), whereOf(hit), G->getName().str(),
                    "the error raised by " + G->getName().str() + " at " + whereOf(&I) + " is forgotten at " + whereOf(hit));
      }
    }
    if (!roots)
      R.fail("no call that returns a shape");
    if (!asks)
      R.fail("no place where cancel is asked");
    if (!raises)
      R.fail("no place where an error can be raised");
    R.count("calls that return a shape", roots);
    R.count("places from which cancel is asked", asks);
    R.count("places from which an error can be raised", raises);
  }

  void mark(Root &W, Own &own) {
    auto &DL = W.M->getDataLayout();
    findObjects(*W.M);
    long marks = 0, handed = 0, again = 0;
    std::set<Function *> raisers = holding(*W.M, [](const Instruction *I) {
      auto *C = dyn_cast<CallBase>(I);
      return C && calleeName(C) == "at_exception_fatal";
    });
    auto search = [&](Function &F, Value *o, bool raised) {
      auto S = std::make_unique<PathSearch>(F, W.FAM.getResult<LoopAnalysis>(F));
      if (raised)
        S->given = [this, o, &DL](Value *V, int64_t &c) {
          auto *L = dyn_cast<LoadInst>(V);
          if (L && L->getType()->isIntegerTy() && isMark(L->getPointerOperand(), o, DL))
            return c = fatal, true;
          auto *C = dyn_cast<CallBase>(V);
          if (C && isFatalAsk(C) && C->arg_size() && C->getArgOperand(0)->stripPointerCasts() == o)
            return c = 1, true;
          return false;
        };
      S->positive = [o](Value *V) { return V->stripPointerCasts() == o; };
      for (auto &J : instructions(F))
        if (isa<ReturnInst>(J))
          S->watch.push_back(&J);
      return S;
    };
    for (auto *F : used) {
      int k = objectOf(F);
      if (k < 0)
        continue;
      Argument *o = F->getArg(k);
      std::set<Instruction *> sets, clears;
      for (auto &I : instructions(*F)) {
        if (auto *st = dyn_cast<StoreInst>(&I)) {
          if (!isMark(st->getPointerOperand(), o, DL))
            continue;
          auto *v = dyn_cast<ConstantInt>(st->getValueOperand());
          (v && v->getSExtValue() == fatal ? sets : clears).insert(&I);
        } else if (auto *m = dyn_cast<MemIntrinsic>(&I)) {
          if (m->getRawDest()->stripPointerCasts() == o)
            clears.insert(&I);
        }
        // handed on
        auto *C = dyn_cast<CallBase>(&I);
        auto *G = C ? C->getCalledFunction() : nullptr;
        if (!G || !(raisers.count(G) || G->getName() == "at_exception_fatal"))
          continue;
        int j = objectOf(G);
        if (j < 0 || (unsigned)j >= C->arg_size())
          continue;
        handed++;
        Value *given = C->getArgOperand(j)->stripPointerCasts();
        if (given == o)
          continue;
        bool asked = false;
        for (auto *U : given->users())
          if (auto *X = dyn_cast<CallBase>(U))
            asked |= isFatalAsk(X);
        if (isa<ConstantPointerNull>(given) || (isa<AllocaInst>(given) && !asked))
          R.finding("swallowed", F->getSubprogram()->getName().str(), whereOf(&I), G->getName().str(),
                    "an error raised by " + G->getName().str() + " at " + whereOf(&I) + " does not reach the caller: it is given another exception object");
      }
      marks += sets.size() + clears.size();
      for (auto *I : clears) {
        auto S = search(*F, o, true);
        S->prepare();
        if (S->reach(nullptr, [&](Instruction &J) { return &J == I; }))
          for (auto *U : F->users()) {
            auto *C = dyn_cast<CallBase>(U);
            if (!C || C->getCalledFunction() != F || !used.count(C->getFunction()))
              continue;
            again++;
            if (own.follows(C))
              R.finding("reset", C->getFunction()->getSubprogram()->getName().str(), whereOf(C), F->getSubprogram()->getName().str(),
                        "a fatal error can have been raised before the call at " + whereOf(C) + ", which forgets it at " + whereOf(I));
          }
      }
      if (F->getName() == "at_exception_fatal") {
        auto S = search(*F, o, false);
        S->stops.insert(sets.begin(), sets.end());
        S->prepare();
        if (auto *hit = S->reach(nullptr, [&](Instruction &J) { return isa<ReturnInst>(J); }))
          R.finding("unmarked", F->getName().str(), whereOf(hit), "mark", "a path through the function that raises a fatal error does not mark the exception object");
      }
    }
    if (Function *F = W.M->getFunction("at_exception_got_fatal")) {
      int k = objectOf(F);
      Argument *o = k < 0 ? nullptr : F->getArg(k);
      if (!o)
        R.fail("at_exception_got_fatal has no exception parameter");
      else {
        auto S = search(*F, o, true);
        S->prepare();
        if (auto *hit = S->reach(nullptr, [&](Instruction &J) {
              auto *r = dyn_cast<ReturnInst>(&J);
              if (!r)
                return false;
              auto v = S->eval(r->getReturnValue(), S->now);
              return !(v.k == PathSearch::Val::Const && v.c != 0);
            }))
          R.finding("denied", F->getName().str(), whereOf(hit), "mark", "asked about a raised error, a path answers no");
      }
    } else
      R.fail("at_exception_got_fatal not found");
    R.count("places that mark or unmark an exception object", marks);
    R.count("calls that forget an error", again);
    R.count("places where the exception object is handed on", handed);
  }

  std::set<Function *> used;
  void run() {
    if (!P.L.find(Exc, "msg_type", off, size)) {
      R.fail("the exception object has no message type");
      return;
    }
    if (!enumValue(*P.M, "AT_MSG_FATAL", fatal)) {
      R.fail("AT_MSG_FATAL not found");
      return;
    }
    shapes();
    // the functions that keep the exception object are read together with their helpers
    auto W = P.whole([](Module &M) {
      for (int round = 0; round < 5; round++) {
        std::vector<CallBase *> cs;
        for (auto &F : M)
          if (F.getName().startswith("at_exception_"))
            for (auto &I : instructions(F))
              if (auto *C = dyn_cast<CallBase>(&I))
                if (auto *G = C->getCalledFunction())
                  if (!G->isDeclaration() && G != &F && !G->getName().startswith("at_exception_") && G->hasLocalLinkage())
                    cs.push_back(C);
        if (cs.empty())
          break;
        for (auto *C : cs) {
          Function *G = C->getCalledFunction();
          InlineFunctionInfo info;
          InlineFunction(*C, info);
          if (G->use_empty())
            G->eraseFromParent();
        }
      }
    });
    std::vector<Function *> w;
    for (auto *A : apiFunctions(P)) {
      if (givesShape(A))
        if (Function *F = W->M->getFunction(A->getName()))
          w.push_back(F);
    }
    while (!w.empty()) {
      Function *F = w.back();
      w.pop_back();
      if (F->isDeclaration() || !F->getSubprogram() || !used.insert(F).second)
        continue;
      for (auto &I : instructions(*F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->getCalledFunction())
            w.push_back(C->getCalledFunction());
    }
    R.count("functions that take part in a trace", used.size());
    Own o(*W, P);
    o.run([](const Function &F) { return F.getSubprogram() && !F.getSubprogram()->getFile()->getFilename().starts_with("/usr/"); });
    mark(*W, o);
    long acq = 0;
    for (auto *F : used) {
      for (auto &a : o.fun[F].acquired)
        acq += a.second.size();
      for (auto &l : o.leaks(*F))
        R.finding("left", F->getSubprogram()->getName().str(), whereOf(l.at), l.name,
                  "the " + l.what + " acquired at " + whereOf(l.at) + " (" + l.name + ") is neither released nor handed on, on a path that ends at " + whereOf(l.end));
      for (auto &l : o.partial(*F))
        R.finding("left", F->getSubprogram()->getName().str(), whereOf(l.at), l.chain + l.name,
                  "of what " + l.chain + " acquired at " + whereOf(l.at) + " the part at " + l.name.substr(1) + " is not released before the rest, at " + whereOf(l.end));
    }
    R.count("places where a trace acquires something", acq);
    R.count("path searches for what is left behind", o.searches);
  }
};

} // namespace

void checkC08(Program &P, Report &R, const std::string &tier) { Check(P, R).run(); }
