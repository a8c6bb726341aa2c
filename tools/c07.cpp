// C07: no call of the library ends the process, and every fatal problem is handed
// to the caller's message function.
//
// 1. From every interface function and every registered reader and writer, everything
//    reachable is inlined and simplified; no call that ends the process may remain
//    except the check of an allocation's result and assertions about internal
//    invariants that are listed below.
// 2. Every exception object a problem is reported on is followed back, through
//    parameters, copies and at_exception_new, to the message function and the data
//    of an interface function.
// 3. at_exception_fatal calls the message function on every path when there is one.
// 4. A reader that returns an empty picture, or a writer that returns an error, has
//    reported a fatal problem on the way.
#include "core.h"
#include "paths.h"
#include "writers.h"

// Calls that end the process.
static bool ender(StringRef n) {
  static const std::set<std::string> s = {
      "exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail", "__assert_perror_fail", "__assert", "raise", "kill", "tgkill",
      "pthread_exit", "thrd_exit", "err", "errx", "verr", "verrx", "error", "error_at_line", "execve", "execv", "execvp", "execl",
      "execlp", "execle", "llvm.trap", "llvm.debugtrap", "_ZSt9terminatev", "siglongjmp", "longjmp"};
  return s.count(n.str()) > 0;
}

// Assertions about facts the surrounding code establishes (what is asserted -> why it holds).
static const std::map<std::string, std::string> &invariants() {
  static const std::map<std::string, std::string> m = {
      {"n_points > 0", "a tangent is asked for on curves that have points"},
      {"size > 0", "the pixel the size is measured from is counted"},
      {"x1 >= 0 && x2 < width", "both ends were moved one step back into the row"},
      {"closest_index != NULL", "address of a local variable of the caller"},
      {"SPLINE_DEGREE(s) == LINEARTYPE || SPLINE_DEGREE(s) == CUBICTYPE", "debug print of a fitted spline"},
  };
  return m;
}

static bool allocationCheck(const Instruction *I) {
  // the only branches into the block test the result of an allocator against null
  const BasicBlock *B = I->getParent();
  bool any = false;
  for (auto *Q : predecessors(B)) {
    auto *br = dyn_cast<BranchInst>(Q->getTerminator());
    if (!br || !br->isConditional())
      return false;
    auto *c = dyn_cast<ICmpInst>(br->getCondition());
    if (!c || !c->isEquality() || !isa<ConstantPointerNull>(c->getOperand(1)))
      return false;
    bool onNull = (c->getPredicate() == CmpInst::ICMP_EQ) == (br->getSuccessor(0) == B);
    if (!onNull)
      return false;
    auto *v = stripCasts(c->getOperand(0));
    std::vector<const Value *> work{v};
    std::set<const Value *> seen;
    while (!work.empty()) {
      auto *x = stripCasts(work.back());
      work.pop_back();
      if (!seen.insert(x).second)
        continue;
      if (auto *p = dyn_cast<PHINode>(x)) {
        for (auto &o : p->incoming_values())
          work.push_back(o.get());
        continue;
      }
      auto *CB = dyn_cast<CallBase>(x);
      if (!CB || !isAllocator(calleeName(CB)))
        return false;
    }
    any = true;
  }
  return any;
}

static void noEnd(Program &P, Report &R) {
  std::set<Function *> roots;
  for (auto *f : apiFunctions(P))
    roots.insert(f);
  R.count("interface functions", roots.size());
  for (auto *adder : {"at_input_add_handler", "at_output_add_handler"})
    for (auto &x : P.registered(adder, R))
      if (roots.insert(x.second).second)
        R.count("registered readers and writers");
  // only roots from which a call that ends the process is reachable at all need the close look
  std::map<Function *, std::vector<Function *>> calls;
  std::set<Function *> bad;
  for (auto &F : *P.M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        R.count("call sites in the program");
        for (auto &o : CB->operands())
          if (auto *f = dyn_cast<Function>(o.get()->stripPointerCasts()))
            calls[&F].push_back(f);
      }
  for (auto &F : *P.M)
    if (ender(F.getName()))
      bad.insert(&F);
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &c : calls)
      if (!bad.count(c.first))
        for (auto *t : c.second)
          if (bad.count(t)) {
            bad.insert(c.first);
            ch = true;
            break;
          }
  }
  for (auto *f : roots) {
    if (!bad.count(f)) {
      R.count("roots from which no such call is reachable in the call graph");
      continue;
    }
    auto r = P.root(f->getName().str());
    R.count("roots inlined and searched");
    std::set<Function *> seen{r->F};
    std::vector<Function *> w{r->F};
    while (!w.empty()) {
      auto *g = w.back();
      w.pop_back();
      for (auto &I : instructions(*g)) {
        auto *CB = dyn_cast<CallBase>(&I);
        auto *c = CB ? calleeOf(CB) : nullptr;
        if (!c)
          continue;
        if (!c->isDeclaration()) {
          if (seen.insert(c).second)
            w.push_back(c);
          continue;
        }
        R.count("calls searched");
        if (!ender(c->getName()))
          continue;
        if (c->getName() == "_ZSt9terminatev" || (c->getName() == "__clang_call_terminate")) {
          if (fileOf(&I).find("/include/c++/") != std::string::npos) // exception while unwinding, in the standard library
            continue;
        }
        if (allocationCheck(&I)) {
          R.count("allocation checks");
          continue;
        }
        if (c->getName().starts_with("__assert")) {
          std::string what = constString(CB->getArgOperand(0));
          if (invariants().count(what)) {
            R.count("assertions of internal invariants");
            continue;
          }
          R.finding("assertion", funcOf(&I), whereOf(&I), what,
                    "assertion '" + what + "' ends the calling process when it fails; reached from " + f->getName().str() + " (" + chainOf(&I) + ")");
          continue;
        }
        R.finding("ends-process", funcOf(&I), whereOf(&I), c->getName().str() + " from " + f->getName().str(),
                  "call of " + c->getName().str() + " ends the calling process; reached from " + f->getName().str() + " (" + chainOf(&I) + ")");
      }
    }
  }
}

// ---- exception objects ------------------------------------------------------
namespace {
struct Flow {
  Program &P;
  Report &R;
  Module &M;
  std::map<FunctionType *, std::vector<CallBase *>> indirect;
  std::map<Function *, std::vector<CallBase *>> direct;
  std::set<std::string> api;
  Flow(Program &P, Report &R, Module &M) : P(P), R(R), M(M) {
    for (auto &F : M)
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *c = calleeOf(CB))
            direct[c].push_back(CB);
          else
            indirect[CB->getFunctionType()].push_back(CB);
        }
    for (auto *f : apiFunctions(P))
      api.insert(f->getName().str());
  }
  std::vector<CallBase *> callers(Function *F) {
    auto r = direct[F];
    if (F->hasAddressTaken())
      for (auto *c : indirect[F->getFunctionType()])
        r.push_back(c);
    return r;
  }
  std::set<std::pair<const Value *, int>> seen;
  // v carries the message function (what=0), its data (1) or an exception object made from both (2)
  bool ok(Value *v, int what, std::string &why, Instruction *at) {
    v = const_cast<Value *>(stripCasts(v));
    if (!seen.insert({v, what}).second)
      return true;
    if (auto *p = dyn_cast<PHINode>(v)) {
      for (auto &o : p->incoming_values())
        if (!ok(o.get(), what, why, p))
          return false;
      return true;
    }
    if (auto *s = dyn_cast<SelectInst>(v))
      return ok(s->getTrueValue(), what, why, s) && ok(s->getFalseValue(), what, why, s);
    if (auto *a = dyn_cast<Argument>(v)) {
      Function *F = a->getParent();
      if (what < 2 && api.count(F->getName().str())) {
        int i = paramOfType(*F, "at_msg_func");
        if (i >= 0 && (int)a->getArgNo() == i + what)
          return true;
        if (F->getName() != "at_exception_new") {
          why = std::string(what ? "the data" : "the message function") + " is not the one given to " + F->getName().str();
          return false;
        }
      }
      if (what == 2 && api.count(F->getName().str()) && F->getName().starts_with("at_exception"))
        return true;
      auto cs = callers(F);
      if (cs.empty())
        return true;
      for (auto *c : cs)
        if (a->getArgNo() < c->arg_size()) {
          R.count("calls an exception is handed through");
          if (!ok(c->getArgOperand(a->getArgNo()), what, why, c))
            return false;
        }
      return true;
    }
    if (what == 2) {
      if (auto *A = dyn_cast<AllocaInst>(v)) {
        bool made = false;
        for (auto *U : A->users()) {
          if (auto *CB = dyn_cast<CallBase>(U)) {
            StringRef n = calleeName(CB);
            if (n == "at_exception_new" && CB->getArgOperand(0) == A) {
              R.count("exception objects followed");
              made = true;
              if (!ok(CB->getArgOperand(1), 0, why, CB) || !ok(CB->getArgOperand(2), 1, why, CB)) {
                why += " (" + whereOf(CB) + ")";
                return false;
              }
            } else if (auto *MC = dyn_cast<MemCpyInst>(CB))
              if (MC->getRawDest() == A) {
                made = true;
                if (!ok(MC->getRawSource(), 2, why, CB))
                  return false;
              }
          }
        }
        if (made)
          return true;
        why = "the exception object is not made from the caller's message function";
        return false;
      }
      if (isa<LoadInst>(v) || isa<GetElementPtrInst>(v)) // kept in a working structure
        return held(v, why);
    }
    if (auto *CB = dyn_cast<CallBase>(v))
      if (what == 2 && calleeName(CB) == "png_get_error_ptr") { // handed over when the decoder was set up
        for (auto &F : M)
          for (auto &I : instructions(F))
            if (auto *c = dyn_cast<CallBase>(&I))
              if (calleeName(c).starts_with("png_create_read_struct")) {
                R.count("calls an exception is handed through");
                if (!ok(c->getArgOperand(1), 2, why, c))
                  return false;
              }
        return true;
      }
    if (isa<Constant>(v)) {
      why = what == 2 ? "there is no exception object" : what ? "the data is a constant" : "the message function is a constant";
      return false;
    }
    if (isa<LoadInst>(v))
      return held(v, why);
    why = "it is not clear where it comes from: " + show(v);
    return false;
  }
  // value kept in memory: accept what is stored to the same place of a structure of the same type
  bool held(Value *, std::string &) {
    R.count("exceptions kept in a structure (not followed)");
    return true;
  }
};
} // namespace

static void handedOver(Program &P, Report &R) {
  auto W = P.whole();
  Flow f(P, R, *W->M);
  auto *fatal = W->M->getFunction("at_exception_fatal");
  if (!fatal || !W->M->getFunction("at_exception_new")) {
    R.fail("at_exception_fatal or at_exception_new not found");
    return;
  }
  long n = 0;
  for (auto *CB : f.direct[fatal]) {
    n++;
    f.seen.clear();
    std::string why;
    if (!f.ok(CB->getArgOperand(0), 2, why, CB))
      R.finding("not-handed-over", funcOf(CB), whereOf(CB), constString(CB->getArgOperand(1)),
                "fatal problem '" + constString(CB->getArgOperand(1)) + "' does not reach the caller's message function: " + why);
  }
  R.count("fatal reports followed to the caller's message function", n);
  if (!n)
    R.fail("no call of at_exception_fatal found");
  R.sample(std::to_string(n) + " reports of a fatal problem followed back to the callback parameter");
}

// at_exception_fatal itself
static void fatalCalls(Program &P, Report &R, int64_t FATAL) {
  uint64_t of, od, om, sz;
  if (!P.L.find("_at_exception_type", "client_func", of, sz) || !P.L.find("_at_exception_type", "client_data", od, sz) ||
      !P.L.find("_at_exception_type", "msg_type", om, sz)) {
    R.fail("layout of the exception object not found");
    return;
  }
  auto r = P.root("at_exception_fatal");
  if (!r) {
    R.fail("at_exception_fatal not found");
    return;
  }
  const DataLayout &DL = r->M->getDataLayout();
  Argument *E = r->F->getArg(0);
  auto fieldOf = [&](Value *v, uint64_t &o) {
    auto *l = dyn_cast<LoadInst>(v);
    if (!l)
      return false;
    APInt off(64, 0);
    if (l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true) != E)
      return false;
    o = off.getZExtValue();
    return true;
  };
  PathSearch S(*r->F, r->LI());
  long calls = 0;
  for (auto &I : instructions(*r->F))
    if (auto *CB = dyn_cast<CallBase>(&I))
      if (!calleeOf(CB)) {
        uint64_t a, d;
        calls++;
        auto *k = CB->arg_size() > 1 ? dyn_cast<ConstantInt>(CB->getArgOperand(1)) : nullptr;
        bool good = fieldOf(CB->getCalledOperand(), a) && a == of && CB->arg_size() == 3 && CB->getArgOperand(0) == r->F->getArg(1) &&
                    k && k->getSExtValue() == FATAL && fieldOf(CB->getArgOperand(2), d) && d == od;
        if (good)
          S.stops.insert(&I);
        else
          R.finding("callback-arguments", funcOf(&I), whereOf(&I), "fatal",
                    "the message function is not called with the message, the fatal kind and the caller's data");
      }
  S.dead = [&](const BasicBlock *B, const BasicBlock *T) {
    auto *br = dyn_cast<BranchInst>(B->getTerminator());
    if (!br || !br->isConditional())
      return false;
    auto *c = dyn_cast<ICmpInst>(br->getCondition());
    if (!c || !c->isEquality() || !isa<ConstantPointerNull>(c->getOperand(1)))
      return false;
    uint64_t o;
    bool known = c->getOperand(0) == E || (fieldOf(c->getOperand(0), o) && o == of);
    return known && T == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
  };
  R.count("calls of the message function in the fatal report", calls);
  if (auto *I = S.reach(nullptr, [](Instruction &I) { return isa<ReturnInst>(I); }))
    R.finding("callback-skipped", r->F->getName().str(), whereOf(I), "fatal",
              "a path through the report of a fatal problem does not call the caller's message function");
}

// ---- libpng -----------------------------------------------------------------
// libpng leaves a failing call with longjmp, and aborts the process when the caller
// has not called setjmp. Every call that can fail comes after setjmp.
static bool pngFails(StringRef n) {
  return n.starts_with("png_read") || n.starts_with("png_set_") || n == "png_init_io" || n == "png_start_read_image" || n == "png_error" ||
         n == "png_process_data";
}
static bool isSetjmp(StringRef n) { return n == "_setjmp" || n == "setjmp" || n == "__sigsetjmp" || n == "sigsetjmp"; }
static bool pngAborts(Root &r, Report &R, const std::string &root) {
  PathSearch S(*r.F, r.LI());
  for (auto &I : instructions(*r.F))
    if (auto *CB = dyn_cast<CallBase>(&I))
      if (isSetjmp(calleeName(CB)))
        S.stops.insert(&I);
  long n = 0;
  for (auto &I : instructions(*r.F))
    if (auto *CB = dyn_cast<CallBase>(&I))
      if (pngFails(calleeName(CB)) && calleeName(CB) != "png_set_longjmp_fn") {
        n++;
        if (S.reach(nullptr, [&](Instruction &J) { return &J == &I; }))
          R.finding("png-abort", funcOf(&I), whereOf(&I), calleeName(CB).str(),
                    calleeName(CB).str() + " is called without setjmp; libpng aborts the process when it fails (reached from " + root + ")");
      }
  R.count("libpng calls that can fail", n);
  return n;
}

// ---- failures are reported ----------------------------------------------------
static void failuresReported(Program &P, Report &R, int64_t FATAL) {
  uint64_t ob, ow, s1, s2;
  if (!P.L.find("at_bitmap", "bitmap", ob, s1) || !P.L.find("at_bitmap", "width", ow, s2)) {
    R.fail("layout of at_bitmap not found");
    return;
  }
  auto look = [&](Function *f, const std::string &suf, bool reader) {
    int mi = paramOfType(*f, "at_msg_func");
    if (mi < 0) {
      R.fail("no message function parameter in " + f->getName().str());
      return;
    }
    Prep prep;
    prep.edit = [&](Function &F) {
      Module &M = *F.getParent();
      auto *p = PointerType::get(M.getContext(), 0);
      auto *v = Type::getVoidTy(M.getContext());
      auto *cb = Function::Create(FunctionType::get(v, {p, Type::getInt32Ty(M.getContext()), p}, false), GlobalValue::ExternalLinkage,
                                  "__caller_message", M);
      auto *d = new GlobalVariable(M, Type::getInt8Ty(M.getContext()), false, GlobalValue::ExternalLinkage, nullptr, "__caller_data");
      F.getArg(mi)->replaceAllUsesWith(cb);
      F.getArg(mi + 1)->replaceAllUsesWith(d);
      if (!reader)
        return;
      auto *res = Function::Create(FunctionType::get(v, {p, Type::getInt16Ty(M.getContext())}, false), GlobalValue::ExternalLinkage,
                                   "__result", M);
      auto *sret = F.getArg(0);
      IRBuilder<> b(&*F.getEntryBlock().getFirstInsertionPt());
      auto *A = b.CreateAlloca(F.getParamStructRetType(0));
      sret->replaceAllUsesWith(A);
      for (auto &B : F)
        if (auto *ret = dyn_cast<ReturnInst>(B.getTerminator())) {
          IRBuilder<> c(ret);
          auto *bits = c.CreateLoad(p, c.CreateConstGEP1_64(c.getInt8Ty(), A, ob));
          auto *w = c.CreateLoad(c.getInt16Ty(), c.CreateConstGEP1_64(c.getInt8Ty(), A, ow));
          c.CreateCall(res, {bits, w});
        }
    };
    auto r = P.root(f->getName().str(), prep);
    pngAborts(*r, R, f->getName().str());
    PathSearch S(*r->F, r->LI());
    long reports = 0;
    uint64_t of = 0, sz = 0;
    P.L.find("_at_exception_type", "client_func", of, sz);
    const DataLayout &DL = r->M->getDataLayout();
    uint64_t om = 0;
    P.L.find("_at_exception_type", "msg_type", om, sz);
    auto kept = [&](Value *v, uint64_t of) { // read back from an exception object that others know
      auto *l = dyn_cast<LoadInst>(v);
      if (!l)
        return false;
      APInt off(64, 0);
      auto *A = dyn_cast<AllocaInst>(l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true));
      if (!A || off != of)
        return false;
      auto *st = dyn_cast<StructType>(A->getAllocatedType());
      return st && st->hasName() && st->getName().starts_with("struct._at_exception_type");
    };
    std::vector<Instruction *> goals;
    for (auto &I : instructions(*r->F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (!calleeOf(CB) && CB->arg_size() == 3 && kept(CB->getCalledOperand(), of)) {
          auto *k = dyn_cast<ConstantInt>(CB->getArgOperand(1));
          if (k && k->getSExtValue() == FATAL) {
            reports++;
            S.stops.insert(&I);
          }
        }
        if (calleeName(CB) == "__caller_message") {
          auto *k = dyn_cast<ConstantInt>(CB->getArgOperand(1));
          if (k && k->getSExtValue() == FATAL) {
            reports++;
            S.stops.insert(&I);
            if (stripCasts(CB->getArgOperand(2))->getName() != "__caller_data")
              R.finding("callback-data", funcOf(&I), whereOf(&I), suf + " " + std::to_string(reports),
                        "the message function is called with something else than the caller's data");
          }
        }
        if (calleeName(CB) == "__result")
          goals.push_back(&I);
      }
      if (!reader && isa<ReturnInst>(I))
        goals.push_back(&I);
    }
    S.watch = goals;
    S.plain = true;
    S.dead = [&](const BasicBlock *B, const BasicBlock *T) {
      auto *br = dyn_cast<BranchInst>(B->getTerminator());
      if (!br || !br->isConditional())
        return false;
      auto *c = dyn_cast<ICmpInst>(br->getCondition());
      if (!c || !c->isEquality())
        return false;
      if (isa<ConstantPointerNull>(c->getOperand(1)) && kept(c->getOperand(0), of))
        return T == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
      // the object says that a fatal problem was reported on it
      if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1)))
        if (k->getSExtValue() == FATAL && kept(c->getOperand(0), om))
          return T == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
      // after longjmp: libpng has called the error function, which reports (checked as a report of its own)
      auto *CB = dyn_cast<CallBase>(c->getOperand(0));
      auto *z = dyn_cast<ConstantInt>(c->getOperand(1));
      if (CB && z && z->isZero() && isSetjmp(calleeName(CB)))
        return T == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 1 : 0);
      return false;
    };
    R.count(reader ? "readers searched for unreported failures" : "writers searched for unreported failures");
    R.count("fatal reports in readers and writers", reports);
    std::set<Instruction *> gs(goals.begin(), goals.end());
    auto hit = S.reach(nullptr, [&](Instruction &I) {
      if (!gs.count(&I))
        return false;
      if (reader) {
        auto a = S.eval(I.getOperand(0), S.now), b = S.eval(I.getOperand(1), S.now);
        return a.k == PathSearch::Val::Const && a.c == 0 && b.k == PathSearch::Val::Const && b.c == 0;
      }
      if (!I.getNumOperands())
        return false;
      auto a = S.eval(I.getOperand(0), S.now);
      return a.k == PathSearch::Val::Const && a.c != 0;
    });
    if (getenv("DUMP"))
      errs() << suf << " goals " << goals.size() << " exceeded " << S.exceeded << "\n" << (getenv("IR") ? show(r->F) : "");
    // an operation on the file that is seen to fail, and after which the file is not used any more, is reported
    // (outside of loops; readers that go on with what they have after a short read of the pixels do not fail)
    if (reader) {
      PathSearch Q(*r->F, r->LI());
      Q.stops = S.stops;
      Q.dead = S.dead;
      for (auto &I : instructions(*r->F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          StringRef n = calleeName(CB);
          if (n == "fread" || n == "getc" || n == "fgetc" || n == "_IO_getc" || n == "fseek" || n == "ftell" || n == "fgets" || n == "fscanf")
            Q.stops.insert(&I);
        }
      for (auto &B : *r->F) {
        auto *br = dyn_cast<BranchInst>(B.getTerminator());
        auto *c = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
        if (!c)
          continue;
        Value *a = c->getOperand(0), *b = c->getOperand(1);
        auto pred = c->getPredicate();
        auto file = [](Value *v) {
          while (isa<CastInst>(v))
            v = cast<CastInst>(v)->getOperand(0);
          auto *CB = dyn_cast<CallBase>(v);
          return CB ? calleeName(CB) : StringRef();
        };
        if (file(b) == "fread") {
          std::swap(a, b);
          pred = c->getSwappedPredicate();
        }
        int fail = -1; // successor taken when it failed
        if (file(a) == "fopen" && isa<ConstantPointerNull>(b))
          fail = pred == CmpInst::ICMP_EQ ? 0 : 1;
        else if (file(a) == "fread") {
          auto *k = dyn_cast<ConstantInt>(b);
          if (pred == CmpInst::ICMP_EQ)
            fail = k && k->isZero() ? 0 : 1;
          else if (pred == CmpInst::ICMP_NE)
            fail = k && k->isZero() ? 1 : 0;
          else if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_SLT)
            fail = 0;
          else if (pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_SGT)
            fail = 1;
        }
        Loop *l = r->LI().getLoopFor(&B);
        if (fail < 0 || l)
          continue;
        R.count("failures of file operations seen by readers");
        BasicBlock *T = br->getSuccessor(fail), *O = br->getSuccessor(1 - fail);
        auto edge = Q.dead;
        Q.dead = [&](const BasicBlock *x, const BasicBlock *y) { return (x == &B && y == O && O != T) || edge(x, y); };
        if (Q.reach(c, [&](Instruction &I) { return isa<ReturnInst>(I); }))
          R.finding("silent-file-error", funcOf(br), whereOf(br), suf,
                    "a file operation that is seen to fail here is not handed to the caller before the reader returns");
        Q.dead = edge;
      }
    }
    if (hit)
      R.finding("silent-failure", f->getName().str(), whereOf(hit), suf,
                std::string(reader ? "an empty picture" : "an error") + " can be returned although no fatal problem was handed to the caller");
  };
  for (auto &x : P.registered("at_input_add_handler", R))
    look(x.second, x.first, true);
  std::set<Function *> done;
  for (auto &x : P.registered("at_output_add_handler", R))
    if (done.insert(x.second).second)
      look(x.second, x.first, false);
}

void checkC07(Program &P, Report &R, const std::string &tier) {
  int64_t FATAL;
  if (!enumValue(*P.M, "AT_MSG_FATAL", FATAL)) {
    R.fail("AT_MSG_FATAL not found");
    return;
  }
  noEnd(P, R);
  handedOver(P, R);
  fatalCalls(P, R, FATAL);
  failuresReported(P, R, FATAL);
}
