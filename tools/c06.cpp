// C06: a call's result does not depend on earlier calls in the process.
//
// Every reader, every writer and every other interface function is inlined into one
// function in which each variable that outlives the call, and that some such function
// changes, is turned into a local variable holding an unknown value at the start. If
// that unknown value is used on any path that the conditions on the way allow, the call
// depends on what happened before it - unless every function leaves the variable as it
// was when the process started.
// Arrays and variables whose address is handed out stay in memory: there, no path may
// lead to a read of a member without a store to that member before it.
#include "core.h"
#include "paths.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/ReplaceConstant.h"

namespace {

struct One { // one root with its state variables turned into locals
  std::string name;
  std::unique_ptr<Root> R;
  std::map<std::string, CallInst *> entry;               // variable -> unknown value at the start
  std::map<std::string, std::vector<CallInst *>> leaving; // variable -> value at each return
  std::map<std::string, AllocaInst *> memory;             // variables that stay in memory
  std::set<Function *> reach;  // the root and what could not be inlined
  std::set<std::string> elsewhere;                        // used in functions that could not be inlined
};

bool written(GlobalVariable &G, Function &F) {
  std::vector<Value *> w{&G};
  std::set<Value *> seen;
  while (!w.empty()) {
    Value *v = w.back();
    w.pop_back();
    if (!seen.insert(v).second)
      continue;
    for (auto *u : v->users()) {
      if (isa<ConstantExpr>(u)) {
        w.push_back(u);
        continue;
      }
      auto *I = dyn_cast<Instruction>(u);
      if (!I || I->getFunction() != &F)
        continue;
      if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<BitCastInst>(I))
        w.push_back(I);
      else if (auto *S = dyn_cast<StoreInst>(I)) {
        if (S->getPointerOperand() == v)
          return true;
      } else if (auto *C = dyn_cast<CallBase>(I)) {
        if (isa<DbgInfoIntrinsic>(C) || C->isLifetimeStartOrEnd())
          continue;
        for (unsigned i = 0; i < C->arg_size(); i++)
          if (C->getArgOperand(i) == v) {
            if (auto *m = dyn_cast<MemTransferInst>(C)) {
              if (i == 0)
                return true;
              continue;
            }
            StringRef n = calleeName(C);
            if (n == "fprintf" || n == "printf" || n == "fwrite" || n == "fputs" || n == "strlen" || n == "strcmp" || n == "memcmp" || n == "puts")
              continue;
            if ((n == "memcpy" || n == "strcpy" || n == "sprintf" || n == "snprintf") && i > 0)
              continue;
            return true;
          }
      }
    }
  }
  return false;
}

bool usedIn(Value *V, Function *F) {
  for (auto *u : V->users()) {
    if (isa<Constant>(u) && !isa<GlobalValue>(u)) {
      if (usedIn(u, F))
        return true;
    } else if (auto *I = dyn_cast<Instruction>(u))
      if (I->getFunction() == F)
        return true;
  }
  return false;
}
bool usedOutside(Value *V, Function *F, const std::set<Function *> &reach) {
  for (auto *u : V->users()) {
    if (isa<Constant>(u) && !isa<GlobalValue>(u)) {
      if (usedOutside(u, F, reach))
        return true;
    } else if (auto *I = dyn_cast<Instruction>(u)) {
      if (I->getFunction() != F && reach.count(I->getFunction()) && !isa<DbgInfoIntrinsic>(I))
        return true;
    }
  }
  return false;
}

// read for no other purpose than to know the value at the end
bool onlyLeaves(Instruction *I, std::set<Instruction *> &seen) {
  if (!seen.insert(I).second)
    return true;
  for (auto *u : I->users()) {
    auto *J = dyn_cast<Instruction>(u);
    if (auto *C = dyn_cast_or_null<CallInst>(J)) {
      if (!calleeName(C).starts_with("leave.") && !isa<DbgInfoIntrinsic>(C))
        return false;
    } else if (!J || !(isa<InsertValueInst>(J) || isa<PHINode>(J) || isa<BinaryOperator>(J) || isa<CastInst>(J) || isa<UnaryOperator>(J)) ||
               !onlyLeaves(J, seen))
      return false;
  }
  return true;
}
bool onlyLeaves(Instruction *I) {
  std::set<Instruction *> seen;
  return onlyLeaves(I, seen);
}

// member of an element that an access through P touches: offset inside the element
// and, when the element is a fixed one, its place
std::string memberOf(AllocaInst *A, Value *P, const DataLayout &DL, bool &whole, int64_t *fixed = nullptr) {
  bool moving = false;
  Type *T = A->getAllocatedType();
  uint64_t elem = DL.getTypeAllocSize(T);
  while (auto *AT = dyn_cast<ArrayType>(T)) {
    T = AT->getElementType();
    elem = DL.getTypeAllocSize(T);
  }
  int64_t off = 0;
  while (P != A) {
    auto *G = dyn_cast<GEPOperator>(P);
    if (!G) {
      whole = true;
      return "";
    }
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value *ix = it.getOperand();
      if (auto *ST = it.getStructTypeOrNull())
        off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      else {
        uint64_t s = DL.getTypeAllocSize(it.getIndexedType());
        if (auto *c = dyn_cast<ConstantInt>(ix))
          off += c->getSExtValue() * (int64_t)s;
        else if (elem > 1 && s % elem && s < elem) {
          whole = true; // variable place inside an element
          return "";
        } else
          moving = true;
      }
    }
    P = G->getPointerOperand();
  }
  if (fixed)
    *fixed = moving || !A->getAllocatedType()->isArrayTy() ? -1 : off;
  if (elem)
    off = ((off % (int64_t)elem) + elem) % elem;
  return std::to_string(off);
}

// is the place an access goes to computed from one of the variables themselves
bool placeFromState(Value *P, const std::map<std::string, AllocaInst *> &memory) {
  std::vector<Value *> w;
  while (auto *G = dyn_cast<GEPOperator>(P)) {
    for (auto &ix : G->indices())
      w.push_back(ix.get());
    P = G->getPointerOperand();
  }
  std::set<Value *> seen;
  while (!w.empty()) {
    Value *v = w.back();
    w.pop_back();
    auto *I = dyn_cast<Instruction>(v);
    if (!I || !seen.insert(v).second)
      continue;
    if (auto *L = dyn_cast<LoadInst>(I)) {
      auto *A = dyn_cast<AllocaInst>(L->getPointerOperand()->stripInBoundsOffsets());
      if (!A) {
        Value *b = L->getPointerOperand();
        while (auto *G = dyn_cast<GEPOperator>(b))
          b = G->getPointerOperand();
        A = dyn_cast<AllocaInst>(b);
      }
      if (A && memory.count(A->getName().str()))
        return true;
    } else if (isa<PHINode>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I))
      for (auto &op : I->operands())
        w.push_back(op.get());
  }
  return false;
}

// give every variable of a function a value that stands for "not set yet" where its life begins
void markUnset(Module &M) {
  const DataLayout &DL = M.getDataLayout();
  std::function<bool(Type *)> small = [&](Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (auto *e : S->elements())
        if (!small(e))
          return false;
      return true;
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return A->getNumElements() <= 4 && small(A->getElementType());
    return T->isSingleValueType();
  };
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    std::vector<AllocaInst *> as;
    for (auto &I : instructions(F))
      if (auto *A = dyn_cast<AllocaInst>(&I))
        if (!A->isArrayAllocation() && small(A->getAllocatedType()) && DL.getTypeAllocSize(A->getAllocatedType()) <= 256)
          as.push_back(A);
    for (auto *A : as) {
      Type *T = A->getAllocatedType();
      std::string n;
      raw_string_ostream os(n);
      T->print(os, false, true);
      auto *FT = FunctionType::get(T, false);
      auto *U = cast<Function>(M.getOrInsertFunction("unset." + os.str(), FT).getCallee());
      U->setDoesNotAccessMemory();
      U->setDoesNotThrow();
      U->setWillReturn();
      std::vector<Instruction *> after;
      for (auto *u : A->users())
        if (auto *II = dyn_cast<IntrinsicInst>(u))
          if (II->getIntrinsicID() == Intrinsic::lifetime_start)
            after.push_back(II);
      if (after.empty())
        after.push_back(A);
      for (auto *I : after) {
        IRBuilder<> B(I->getParent(), std::next(I->getIterator()));
        if (isa<AllocaInst>(I))
          B.SetInsertPoint(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
        B.SetCurrentDebugLocation(DebugLoc());
        B.CreateStore(B.CreateCall(FT, U), A);
      }
    }
  }
}

} // namespace

void checkC06(Program &P, Report &R, const std::string &) {
  std::vector<std::string> roots;
  std::map<std::string, std::string> format;
  for (auto *adder : {"at_input_add_handler", "at_output_add_handler"})
    for (auto &r : P.registered(adder, R)) {
      if (!format.count(r.second->getName().str()))
        roots.push_back(r.second->getName().str());
      format[r.second->getName().str()] = r.first;
    }
  R.count("readers and writers", roots.size());
  for (auto *f : apiFunctions(P)) {
    StringRef n = f->getName();
    // functions that exist to change what the library offers from then on
    if (n.contains("add_handler") || n.contains("init") || n.contains("set_log"))
      continue;
    roots.push_back(n.str());
  }
  R.count("functions analysed", roots.size());

  // which variables outlive a call and are changed by one
  std::vector<std::unique_ptr<One>> all;
  std::map<std::string, std::set<std::string>> writers; // variable -> functions that change it
  std::map<std::string, std::string> srcName;
  for (auto &name : roots) {
    auto o = std::make_unique<One>();
    o->name = name;
    Prep p;
    p.devirtualise = true;
    if (auto *F = P.M->getFunction(name))
      for (auto &A : F->args())
        if (A.hasByValAttr())
          p.invariantArg = A.getArgNo();
    o->R = P.root(name, p);
    if (!o->R)
      continue;
    std::set<Function *> reach;
    std::vector<Function *> fs{o->R->F};
    while (!fs.empty()) {
      Function *f = fs.back();
      fs.pop_back();
      if (f->isDeclaration() || !reach.insert(f).second)
        continue;
      for (auto &I : instructions(*f))
        for (auto &op : I.operands())
          if (auto *g = dyn_cast<Function>(op.get()->stripPointerCasts()))
            fs.push_back(g);
    }
    o->reach = reach;
    for (auto &G : o->R->M->globals())
      if (!G.isConstant() && !G.isDeclaration() && !G.getName().starts_with("llvm.") && !G.getName().starts_with("__")) {
        for (auto *F : reach)
          if (written(G, *F))
            writers[G.getName().str()].insert(name);
        SmallVector<DIGlobalVariableExpression *, 2> gs;
        G.getDebugInfo(gs);
        if (!gs.empty())
          srcName[G.getName().str()] = gs[0]->getVariable()->getName().str();
      }
    all.push_back(std::move(o));
  }
  R.count("variables that outlive a call and are changed by one", writers.size());

  // the same roots again, with these variables made local
  for (auto &o : all) {
    Function *F = o->R->F;
    Module &M = *o->R->M;
    if (format.count(o->name))
      for (auto &A : F->args()) // the stream and the options a writer or reader gets are there
        if (A.getType()->isPointerTy() && A.getArgNo() < 2 && !A.hasStructRetAttr())
          A.addAttr(Attribute::NonNull);
    for (auto &w : writers) {
      auto *G = M.getGlobalVariable(w.first, true);
      if (!G)
        continue;
      if (usedOutside(G, F, o->reach)) {
        o->elsewhere.insert(w.first);
        continue;
      }
      if (!usedIn(G, F))
        continue;
      SmallVector<Constant *, 1> cs{G};
      convertUsersOfConstantsToInstructions(cs);
      IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
      Type *T = G->getValueType();
      auto *A = B.CreateAlloca(T, nullptr, w.first);
      A->setAlignment(Align(16));
      bool scalarish = !T->isArrayTy();
      if (scalarish) {
        auto *E = M.getOrInsertFunction("entry." + w.first, FunctionType::get(T, false)).getCallee();
        auto *C = B.CreateCall(FunctionType::get(T, false), E);
        B.CreateStore(C, A);
        o->entry[w.first] = C;
      }
      std::vector<Use *> us;
      for (auto &u : G->uses())
        if (auto *I = dyn_cast<Instruction>(u.getUser()))
          if (I->getFunction() == F)
            us.push_back(&u);
      for (auto *u : us)
        u->set(A);
      if (scalarish)
        for (auto &BB : *F)
          if (isa<ReturnInst>(BB.getTerminator())) {
            IRBuilder<> X(BB.getTerminator());
            auto *L = X.CreateLoad(T, A);
            auto FT = FunctionType::get(Type::getVoidTy(M.getContext()), {T}, false);
            auto *E = M.getOrInsertFunction("leave." + w.first, FT).getCallee();
            X.CreateCall(FT, E, {L});
          }
    }
    o->R->FAM.clear();
    o->R->run("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-speculate-blocks;no-sink-common-insts;"
              "no-hoist-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>,loop-simplify,lcssa)");
    o->R->FAM.clear();
    for (auto &I : instructions(*F)) {
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        for (auto &w : writers)
          if (A->getName() == w.first)
            o->memory[w.first] = A;
      } else if (auto *C = dyn_cast<CallInst>(&I)) {
        if (calleeName(C).starts_with("leave."))
          o->leaving[calleeName(C).substr(6).str()].push_back(C);
      }
    }
  }

  auto title = [&](const std::string &g) { return srcName.count(g) ? srcName[g] : g; };

  // variables every function leaves as they were at the start of the process
  std::set<std::string> constant;
  for (auto &w : writers) {
    bool ok = true;
    for (auto &o : all) {
      auto *G = o->R->M->getGlobalVariable(w.first, true);
      if (o->elsewhere.count(w.first) || (o->memory.count(w.first) && writers[w.first].count(o->name)))
        ok = false;
      if (writers[w.first].count(o->name) && !o->leaving.count(w.first))
        ok = false;
      for (auto *C : o->leaving[w.first]) {
        Constant *init = G && G->hasInitializer() ? G->getInitializer() : nullptr;
        if (!init) {
          auto *PG = P.M->getGlobalVariable(w.first, true);
          init = PG && PG->hasInitializer() ? PG->getInitializer() : nullptr;
        }
        DominatorTree DT(*C->getFunction());
        std::set<Value *> seen;
        std::function<bool(Value *, Instruction *)> same = [&](Value *v, Instruction *at) -> bool {
          if (v == o->entry[w.first] || v == init || !seen.insert(v).second)
            return true;
          if (auto *c = dyn_cast<Constant>(v))
            return init && c->isNullValue() && init->isNullValue();
          if (init && init->isNullValue() && init->getType() == v->getType())
            for (auto *u : v->users())
              if (auto *ic = dyn_cast<ICmpInst>(u))
                if (ic->isEquality() && isa<Constant>(ic->getOperand(1)) && cast<Constant>(ic->getOperand(1))->isNullValue())
                  for (auto *b : ic->users())
                    if (auto *br = dyn_cast<BranchInst>(b))
                      if (br->getSuccessor(0) != br->getSuccessor(1)) {
                        BasicBlockEdge e(br->getParent(), br->getSuccessor(ic->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1));
                        if (DT.dominates(e, at->getParent()) || (e.getStart() == at->getParent() && isa<BranchInst>(at)))
                          return true;
                      }
          if (auto *p = dyn_cast<PHINode>(v)) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
              Value *in = p->getIncomingValue(k);
              Instruction *t = p->getIncomingBlock(k)->getTerminator();
              // the branch into the phi itself may have tested the value
              bool tested = false;
              if (auto *br = dyn_cast<BranchInst>(t))
                if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
                  if (auto *ic = dyn_cast<ICmpInst>(br->getCondition()))
                    if (ic->isEquality() && ic->getOperand(0) == in && isa<Constant>(ic->getOperand(1)) && init && init->isNullValue() &&
                        cast<Constant>(ic->getOperand(1))->isNullValue())
                      tested = br->getSuccessor(ic->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1) == p->getParent();
              if (!tested && !same(in, t))
                return false;
            }
            return true;
          }
          return false;
        };
        if (!same(C->getArgOperand(0), C))
          ok = false;
      }
    }
    if (ok)
      constant.insert(w.first);
  }
  R.count("variables left as they were by every call", constant.size());
  for (auto &o : all) {
    bool any = false;
    for (auto &g : constant)
      if (o->entry.count(g))
        if (auto *PG = P.M->getGlobalVariable(g, true))
          if (auto *c = dyn_cast<ConstantData>(PG->getInitializer())) {
            auto *E = o->entry[g];
            E->replaceAllUsesWith(c->getType() == E->getType() ? (Value *)c : UndefValue::get(E->getType()));
            any = true;
          }
    if (any)
      o->R->FAM.clear();
  }

  // variables of the call itself that have no value yet on some path, so that what
  // earlier calls left on the stack decides
  auto unset = [&](Function &F, LoopInfo &LI, const std::string &name, const std::function<bool(Value *)> &positive) {
    std::set<Value *> not_set;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallInst>(&I))
        if (calleeName(C).starts_with("unset."))
          not_set.insert(C);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &I : instructions(F))
        if (auto *E = dyn_cast<ExtractValueInst>(&I))
          if (not_set.count(E->getAggregateOperand()) && not_set.insert(E).second)
            ch = true;
    }
    R.count("functions searched for values not set");
    R.count("variables not set when their life begins", not_set.size());
    if (not_set.empty())
      return;
    std::set<Instruction *> done;
    std::set<std::string> named;
    for (int round = 0; round < 12; round++) {
      Instruction *hit = nullptr;
      // a quick look first; then with everything the path decides
      for (bool remember : {false, true}) {
        PathSearch S(F, LI);
        S.positive = positive;
        S.remember = remember;
        S.tokens = not_set;
        // how long a list in memory is was decided when it was built
        S.dead = [&](const BasicBlock *A, const BasicBlock *B) {
          auto *br = dyn_cast<BranchInst>(A->getTerminator());
          if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
            return false;
          auto *c = dyn_cast<ICmpInst>(br->getCondition());
          if (!c || !c->isEquality() || !isa<ConstantPointerNull>(c->getOperand(1)))
            return false;
          auto *L = dyn_cast<LoadInst>(c->getOperand(0));
          return L && B == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
        };
        hit = S.reach(nullptr, [&](Instruction &I) {
          if (done.count(&I))
            return false;
          if (auto *C = dyn_cast<CallInst>(&I)) {
            Function *g = C->getCalledFunction();
            if (!g || !g->isDeclaration() || g->isIntrinsic())
              return false;
          } else if (I.getName().contains(".insert.") || I.getName().contains(".extract.")) {
            return false; // parts put together, not used
          } else if (!(isa<BranchInst>(I) || isa<SwitchInst>(I) || isa<CmpInst>(I) || isa<BinaryOperator>(I) || isa<GetElementPtrInst>(I)))
            return false;
          for (auto &op : I.operands())
            if (!isa<Constant>(op.get()) && S.eval(op.get(), S.now).k == PathSearch::Val::Token)
              return true;
          return false;
        });
        if (S.exceeded) {
          R.count("searches not decided");
          hit = nullptr;
        }
        if (!hit)
          break;
      }
      if (!hit)
        break;
      done.insert(hit);
      std::string v;
      for (auto &op : hit->operands())
        if (isa<Instruction>(op.get()) && op->hasName() && v.empty())
          v = op->getName().split('.').first.str();
      if (named.insert(v).second)
        R.finding("not-set", funcOf(hit), whereOf(hit), v,
                  "in " + name + " the value of '" + v + "' used at " + whereOf(hit) + " (" + funcOf(hit) +
                      ") has not been set on some path, so that what an earlier call left in memory is used");
    }
  };
  {
    // functions that set a number of their caller's are looked at together with it
    auto together = [&](Module &M) {
      markUnset(M);
      CallGraph CG(M);
      std::set<Function *> rec;
      for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
        if (I.hasCycle())
          for (auto *n : *I)
            if (n->getFunction())
              rec.insert(n->getFunction());
      for (auto &F : M) {
        if (F.isDeclaration())
          continue;
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        bool sets = false;
        if (auto *SP = F.getSubprogram())
          for (auto *T : SP->getType()->getTypeArray())
            if (auto *D = dyn_cast_or_null<DIDerivedType>(T))
              if (D->getTag() == dwarf::DW_TAG_pointer_type) {
                auto *B = D->getBaseType();
                while (auto *q = dyn_cast_or_null<DIDerivedType>(B)) {
                  if (q->getTag() != dwarf::DW_TAG_typedef)
                    break;
                  B = q->getBaseType();
                }
                sets |= isa_and_nonnull<DIBasicType>(B);
              }
        if (sets && !rec.count(&F))
          F.addFnAttr(Attribute::AlwaysInline);
      }
      PassBuilder PB;
      LoopAnalysisManager LAM;
      FunctionAnalysisManager FAM;
      CGSCCAnalysisManager CAM;
      ModuleAnalysisManager MAM;
      PB.registerModuleAnalyses(MAM);
      PB.registerCGSCCAnalyses(CAM);
      PB.registerFunctionAnalyses(FAM);
      PB.registerLoopAnalyses(LAM);
      PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
      ModulePassManager MPM;
      cantFail(PB.parsePassPipeline(MPM, "always-inline"));
      MPM.run(M, MAM);
    };
    auto W = P.whole(together);
    for (auto &F : *W->M)
      if (!F.isDeclaration() && !commandLine(P, F)) {
        LoopInfo &LI = W->FAM.getResult<LoopAnalysis>(F);
        unset(F, LI, F.getName().str(), nullptr);
      }
  }

  for (auto &o : all) {
    Function *F = o->R->F;
    const DataLayout &DL = o->R->M->getDataLayout();
    for (auto &g : o->elsewhere)
      R.count("variables used in recursive functions, not decided");
    auto report = [&](const std::string &g, Instruction *I) {
      std::string who;
      for (auto &w : writers[g])
        who += (who.empty() ? "" : ", ") + w;
      R.finding("carried-over", o->name, whereOf(I), title(g),
                "in " + o->name + " the value of '" + title(g) + "' used at " + whereOf(I) + " (" + funcOf(I) + ") can be left over from an earlier call (" + who +
                    " change it)");
    };
    // an outline has at least one segment
    uint64_t lenOff = 0, lenSize = 0, listSize = P.L.sizeOf("at_spline_list_type");
    bool haveLen = P.L.find("at_spline_list_type", "length", lenOff, lenSize);
    auto segments = [&](Value *v) -> bool {
      auto *L = dyn_cast<LoadInst>(v);
      if (!L || !haveLen || !listSize || !format.count(o->name) || DL.getTypeStoreSize(L->getType()) != lenSize)
        return false;
      int64_t off = 0;
      Value *p = L->getPointerOperand();
      while (auto *G = dyn_cast<GEPOperator>(p)) {
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
          if (auto *ST = it.getStructTypeOrNull())
            off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
          else if (auto *c = dyn_cast<ConstantInt>(it.getOperand()))
            off += c->getSExtValue() * (int64_t)DL.getTypeAllocSize(it.getIndexedType());
        p = G->getPointerOperand();
      }
      auto *B = dyn_cast<LoadInst>(p);
      if (!B || !isa<Argument>(B->getPointerOperand()->stripInBoundsOffsets()))
        return false;
      return (uint64_t)off % listSize == lenOff;
    };
    for (auto &e : o->entry) {
      R.count("variables followed from the start of a call");
      if (constant.count(e.first))
        continue;
      if (e.second->use_empty())
        continue;
      // every use; with less and less known about the way when there are too many ways
      Instruction *hit = nullptr;
      auto search = [&](int known, bool remember, bool &exceeded) {
        PathSearch S(*F, o->R->LI());
        S.remember = remember;
        S.positive = segments;
        S.tokens.insert(e.second);
        S.known = known;
        for (auto &I : instructions(*F))
          if (isa<ExtractValueInst>(&I) && cast<ExtractValueInst>(I).getAggregateOperand() == e.second)
            S.tokens.insert(&I);
        Instruction *found = S.reach(nullptr, [&](Instruction &I) {
          if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I) || isa<DbgInfoIntrinsic>(I) || isa<ExtractValueInst>(I) ||
              isa<InsertValueInst>(I))
            return false;
          if (auto *C = dyn_cast<CallInst>(&I))
            if (calleeName(C).starts_with("leave."))
              return false;
          if (auto *st = dyn_cast<StoreInst>(&I))
            if (auto *A = dyn_cast<AllocaInst>(st->getPointerOperand()->stripInBoundsOffsets()))
              if (o->memory.count(A->getName().str()) && st->getValueOperand() != A)
                return false; // the variable itself, kept in memory
          if ((isa<BinaryOperator>(I) || isa<UnaryOperator>(I)) && onlyLeaves(&I))
            return false;
          for (auto &op : I.operands())
            if (S.eval(op.get(), S.now).k == PathSearch::Val::Token)
              return true;
          return false;
        });
        exceeded = S.exceeded;
        return found;
      };
      for (int known = 2; known >= 0; known--) {
        bool exceeded;
        hit = search(known, false, exceeded);
        if (!exceeded) {
          if (hit && !known) {
            hit = nullptr; // nothing known about the way: no statement
            R.count("variables not decided");
            R.sample(title(e.first) + " in " + o->name + " not decided");
          } else if (hit) {
            // once more with the decisions taken on the way
            auto *again = search(known, true, exceeded);
            if (!exceeded)
              hit = again;
          }
          break;
        }
        if (!known)
          R.count("variables not decided");
      }
      if (hit)
        report(e.first, hit);
    }
    for (auto &m : o->memory) {
      R.count("variables in memory followed");
      if (constant.count(m.first))
        continue;
      // members read, and what initialises them
      std::map<std::string, std::set<Instruction *>> reads, stores;
      std::set<Instruction *> fills;
      std::map<Instruction *, int64_t> place; // accesses to one fixed element
      std::vector<Value *> work{m.second};
      std::set<Value *> seen;
      while (!work.empty()) {
        Value *v = work.back();
        work.pop_back();
        if (!seen.insert(v).second)
          continue;
        for (auto *u : v->users()) {
          auto *I = dyn_cast<Instruction>(u);
          if (!I)
            continue;
          bool whole = false;
          if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<BitCastInst>(I))
            work.push_back(I);
          else if (auto *L = dyn_cast<LoadInst>(I)) {
            if (onlyLeaves(L))
              continue;
            int64_t at = -1;
            std::string k = memberOf(m.second, v, DL, whole, &at);
            reads[k].insert(I);
            if (at >= 0)
              place[I] = at;
          } else if (auto *S = dyn_cast<StoreInst>(I)) {
            if (S->getPointerOperand() != v) {
              fills.insert(I);
              continue;
            }
            Value *sv = S->getValueOperand();
            if (o->entry.count(m.first) && (sv == o->entry[m.first] ||
                                            (isa<ExtractValueInst>(sv) && cast<ExtractValueInst>(sv)->getAggregateOperand() == o->entry[m.first])))
              continue; // the unknown value at the start
            int64_t at = -1;
            std::string k = memberOf(m.second, v, DL, whole, &at);
            if (at >= 0)
              place[I] = at;
            if (whole)
              fills.insert(I);
            else
              stores[k].insert(I);
          } else if (auto *C = dyn_cast<CallBase>(I)) {
            if (isa<DbgInfoIntrinsic>(C) || C->isLifetimeStartOrEnd())
              continue;
            StringRef n = calleeName(C);
            bool reading = false;
            for (unsigned i = 0; i < C->arg_size(); i++)
              if (C->getArgOperand(i) == v) {
                if ((isa<MemTransferInst>(C) || n == "memcpy" || n == "strcpy" || n == "sprintf" || n == "snprintf") && i > 0)
                  reading = true;
                if (n == "fprintf" || n == "printf" || n == "fwrite" || n == "fputs" || n == "strlen" || n == "strcmp" || n == "memcmp" ||
                    n == "strncmp" || n == "puts")
                  reading = true;
              }
            if (reading)
              reads["*"].insert(I);
            else
              fills.insert(I);
          }
        }
      }
      // reads of one fixed element, and all others together
      std::map<std::pair<std::string, int64_t>, std::set<Instruction *>> split;
      for (auto &r : reads)
        for (auto *i : r.second)
          split[{r.first, place.count(i) ? place[i] : isa<LoadInst>(i) && placeFromState(cast<LoadInst>(i)->getPointerOperand(), o->memory) ? -2 : -1}].insert(i);
      for (auto &r : split) {
        PathSearch S(*F, o->R->LI());
        S.positive = segments;
        for (auto *i : fills)
          S.stops.insert(i);
        for (auto &s : stores)
          if (s.first == r.first.first || r.first.first == "*" || r.first.first.empty())
            for (auto *i : s.second)
              if (!place.count(i) || place[i] == r.first.second || r.first.second == -2 || r.first.first == "*" || r.first.first.empty())
                S.stops.insert(i);
        Instruction *hit = S.reach(nullptr, [&](Instruction &I) { return r.second.count(&I) > 0; });
        if (hit) {
          PathSearch T(*F, o->R->LI());
          T.positive = segments;
          T.remember = true;
          T.stops = S.stops;
          auto *again = T.reach(nullptr, [&](Instruction &I) { return r.second.count(&I) > 0; });
          if (!T.exceeded)
            hit = again;
        }
        if (S.exceeded)
          R.count("variables not decided");
        if (hit) {
          report(m.first, hit);
          break;
        }
      }
    }
    if (format.count(o->name)) {
      Prep p;
      p.devirtualise = true;
      for (auto &A : P.M->getFunction(o->name)->args())
        if (A.hasByValAttr())
          p.invariantArg = A.getArgNo();
      p.edit = [](Function &F) { markUnset(*F.getParent()); };
      auto U = P.root(o->name, p);
      unset(*U->F, U->LI(), o->name, segments);
    }
    // generators whose answers depend on how often they were asked
    for (auto &I : instructions(*F))
      if (auto *C = dyn_cast<CallBase>(&I)) {
        StringRef n = calleeName(C);
        if (n == "rand" || n == "random" || n == "drand48" || n == "lrand48" || n == "mrand48" || n == "tmpnam") {
          bool seeded = false;
          DominatorTree &DT = o->R->DT();
          for (auto &J : instructions(*F))
            if (auto *D = dyn_cast<CallBase>(&J))
              if ((calleeName(D) == "srand" || calleeName(D) == "srandom" || calleeName(D) == "srand48") && DT.dominates(D, C))
                seeded = true;
          if (!seeded)
            R.finding("carried-over", o->name, whereOf(C), n.str(), "'" + n.str() + "' continues a sequence that earlier calls have advanced");
        }
      }
  }
  if (writers.empty())
    R.fail("no variable that outlives a call found");
  for (auto &w : writers) {
    std::string s = title(w.first) + " changed by";
    for (auto &x : w.second)
      s += " " + x;
    R.sample(s);
  }
}
