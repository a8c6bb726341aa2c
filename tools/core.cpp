#include "core.h"
#include <llvm/IR/IRBuilder.h>
#include "llvm/Transforms/Utils/CallPromotionUtils.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Cloning.h"

void Report::finding(const std::string &rule, const std::string &func, const std::string &where,
                     const std::string &instance, const std::string &msg) {
  std::string id = rule + "|" + func + "|" + instance;
  if (!seen.insert(id).second)
    return;
  findings.push_back(json::Object{{"id", id},
                                  {"rule", rule},
                                  {"function", func},
                                  {"where", where},
                                  {"instance", instance},
                                  {"message", msg}});
}

void Report::print(raw_ostream &os) {
  json::Object o;
  o["property"] = property;
  json::Object c;
  for (auto &k : counts)
    c[k.first] = k.second;
  o["counts"] = std::move(c);
  json::Array f;
  for (auto &x : findings)
    f.push_back(x);
  o["findings"] = std::move(f);
  json::Array b;
  for (auto &x : broken)
    b.push_back(x);
  o["broken"] = std::move(b);
  json::Array s;
  for (auto &x : samples)
    s.push_back(x);
  o["samples"] = std::move(s);
  os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
}

static const DILocation *locOf(const Instruction *I) {
  if (!I)
    return nullptr;
  if (const DILocation *L = I->getDebugLoc().get())
    if (L->getLine())
      return L;
  // nearest position in the same block
  const BasicBlock *B = I->getParent();
  const DILocation *best = nullptr;
  bool before = true;
  for (auto &J : *B) {
    if (&J == I) {
      before = false;
      if (best)
        return best;
      continue;
    }
    if (const DILocation *L = J.getDebugLoc().get())
      if (L->getLine()) {
        best = L;
        if (!before)
          return best;
      }
  }
  return best;
}

std::string fileOf(const Instruction *I) {
  if (auto *L = locOf(I)) {
    std::string f = L->getScope()->getFilename().str();
    auto p = f.rfind("/src/");
    if (p != std::string::npos)
      f = f.substr(p + 1);
    return f;
  }
  return "?";
}
unsigned lineOf(const Instruction *I) {
  if (auto *L = locOf(I))
    return L->getLine();
  return 0;
}
std::string whereOf(const Instruction *I) { return fileOf(I) + ":" + std::to_string(lineOf(I)); }
std::string chainOf(const Instruction *I) {
  std::string r = whereOf(I);
  if (auto *L = locOf(I))
    for (const DILocation *c = L->getInlinedAt(); c; c = c->getInlinedAt())
      r += " < " + std::to_string(c->getLine());
  return r;
}
std::string funcOf(const Instruction *I) {
  if (auto *L = locOf(I))
    if (auto *SP = L->getScope()->getSubprogram())
      return SP->getName().str();
  return I && I->getFunction() ? I->getFunction()->getName().str() : "?";
}

std::string constString(const Value *V, bool *ok) {
  if (ok)
    *ok = false;
  V = stripCasts(V);
  uint64_t off = 0;
  if (auto *GEP = dyn_cast<GEPOperator>(V)) {
    APInt o(64, 0);
    if (auto *G = dyn_cast<GlobalVariable>(GEP->getPointerOperand())) {
      const DataLayout &DL = G->getParent()->getDataLayout();
      if (!GEP->accumulateConstantOffset(DL, o))
        return "";
      off = o.getZExtValue();
      V = G;
    }
  }
  if (auto *G = dyn_cast<GlobalVariable>(V))
    if (G->hasInitializer()) {
      if (auto *CD = dyn_cast<ConstantDataArray>(G->getInitializer()))
        if (CD->isString()) {
          std::string s = CD->getAsString().str();
          if (off > s.size())
            return "";
          s = s.substr(off);
          auto z = s.find('\0');
          if (z != std::string::npos)
            s = s.substr(0, z);
          if (ok)
            *ok = true;
          return s;
        }
      if (isa<ConstantAggregateZero>(G->getInitializer())) {
        if (ok)
          *ok = true;
        return "";
      }
    }
  return "";
}

const DIType *stripTypedefs(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else
      break;
  }
  return T;
}

void Layouts::build(const Module &M) {
  DebugInfoFinder F;
  F.processModule(M);
  for (auto *T : F.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_structure_type && !C->getName().empty() && !C->isForwardDecl())
        byName[C->getName().str()] = C;
  }
  for (auto *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_class_type && !C->getName().empty() && !C->isForwardDecl())
        byName.emplace(C->getName().str(), C);
  for (auto *T : F.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(stripTypedefs(D)))
          if (C->getTag() == dwarf::DW_TAG_structure_type && !C->isForwardDecl())
            byName.emplace(D->getName().str(), C);
}

static bool findIn(const DIType *T, StringRef path, uint64_t &off, uint64_t &size) {
  T = stripTypedefs(T);
  if (path.empty()) {
    size = T ? T->getSizeInBits() / 8 : 0;
    return T != nullptr;
  }
  if (path.starts_with("."))
    path = path.drop_front();
  auto *C = dyn_cast_or_null<DICompositeType>(T);
  if (!C)
    return false;
  if (path.starts_with("[")) {
    if (C->getTag() != dwarf::DW_TAG_array_type)
      return false;
    auto e = path.find(']');
    unsigned idx = 0;
    if (path.substr(1, e - 1).getAsInteger(10, idx))
      return false;
    const DIType *B = stripTypedefs(C->getBaseType());
    off += idx * (B->getSizeInBits() / 8);
    return findIn(B, path.drop_front(e + 1), off, size);
  }
  size_t e = path.find_first_of(".[");
  StringRef head = path.substr(0, e);
  StringRef rest = e == StringRef::npos ? StringRef() : path.substr(e);
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && D->getName() == head) {
        off += D->getOffsetInBits() / 8;
        return findIn(D->getBaseType(), rest, off, size);
      }
  return false;
}

bool Layouts::find(const std::string &type, const std::string &path, uint64_t &off, uint64_t &size) const {
  auto it = byName.find(type);
  if (it == byName.end())
    return false;
  off = 0;
  return findIn(it->second, path, off, size);
}
uint64_t Layouts::sizeOf(const std::string &type) const {
  auto it = byName.find(type);
  return it == byName.end() ? 0 : it->second->getSizeInBits() / 8;
}
std::vector<std::string> Layouts::members(const std::string &type) const {
  std::vector<std::string> r;
  auto it = byName.find(type);
  if (it == byName.end())
    return r;
  for (auto *E : it->second->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member)
        r.push_back(D->getName().str());
  return r;
}
static std::string nameIn(const DIType *T, uint64_t off) {
  T = stripTypedefs(T);
  auto *C = dyn_cast_or_null<DICompositeType>(T);
  if (!C)
    return "";
  if (C->getTag() == dwarf::DW_TAG_array_type) {
    const DIType *B = stripTypedefs(C->getBaseType());
    uint64_t s = B ? B->getSizeInBits() / 8 : 0;
    if (!s)
      return "";
    std::string r = nameIn(B, off % s);
    return "[" + std::to_string(off / s) + "]" + (r.empty() || r[0] == '[' ? "" : ".") + r;
  }
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member) {
        uint64_t o = D->getOffsetInBits() / 8, s = D->getSizeInBits() / 8;
        if (off >= o && off < o + s) {
          std::string r = nameIn(D->getBaseType(), off - o);
          std::string sep = r.empty() || r[0] == '[' ? "" : ".";
          return D->getName().str() + sep + r;
        }
      }
  return "";
}
std::string Layouts::nameAt(const std::string &type, uint64_t off) const {
  auto it = byName.find(type);
  return it == byName.end() ? "" : nameIn(it->second, off);
}

Function *calleeOf(const CallBase *CB) {
  return dyn_cast_or_null<Function>(const_cast<Value *>(CB->getCalledOperand()->stripPointerCasts()));
}
StringRef calleeName(const CallBase *CB) {
  Function *F = calleeOf(CB);
  return F ? F->getName() : StringRef();
}
const Value *stripCasts(const Value *V) {
  for (;;) {
    if (auto *CI = dyn_cast<CastInst>(V)) {
      if (CI->getOpcode() == Instruction::BitCast || CI->getOpcode() == Instruction::AddrSpaceCast) {
        V = CI->getOperand(0);
        continue;
      }
    }
    return V->stripPointerCasts();
  }
}
std::string show(const Value *V) {
  std::string s;
  raw_string_ostream o(s);
  V->print(o);
  return o.str();
}
std::string show(const SCEV *S) {
  std::string s;
  raw_string_ostream o(s);
  S->print(o);
  return o.str();
}

bool Program::load(const std::string &path) {
  SMDiagnostic E;
  M = parseIRFile(path, E, C);
  if (!M) {
    errs() << E.getMessage() << "\n";
    return false;
  }
  L.build(*M);
  return true;
}

static void markInvariant(Function &F, unsigned arg) {
  if (arg >= F.arg_size())
    return;
  const Argument *A = F.getArg(arg);
  std::set<const Value *> derived{A};
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &I : instructions(F)) {
      if (derived.count(&I))
        continue;
      bool d = false;
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        d = derived.count(G->getPointerOperand());
      else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
        if (derived.count(Ld->getPointerOperand())) {
          Ld->setMetadata(LLVMContext::MD_invariant_load, MDNode::get(F.getContext(), {}));
          d = I.getType()->isPointerTy();
        }
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        d = P->getType()->isPointerTy();
        for (auto &v : P->incoming_values())
          if (!derived.count(v.get()) && v.get() != P && !isa<UndefValue>(v.get())) {
            // pointer bumped inside the loop: accept a GEP on the phi itself
            auto *G = dyn_cast<GetElementPtrInst>(v.get());
            if (!(G && G->getPointerOperand() == P))
              d = false;
          }
      } else if (auto *S = dyn_cast<SelectInst>(&I))
        d = derived.count(S->getTrueValue()) && derived.count(S->getFalseValue());
      if (d) {
        derived.insert(&I);
        ch = true;
      }
    }
  }
}

static const std::string scfg = "simplifycfg<no-speculate-blocks;no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;"
                                "no-switch-range-to-icmp>";

void Root::run(const std::string &pipe) {
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipe)) {
    errs() << "pipeline: " << toString(std::move(e)) << "\n";
    exit(3);
  }
  MPM.run(*M, MAM);
}

void Root::simplify() {
  FAM.clear();
  run("function(sccp,instcombine<no-verify-fixpoint>," + scfg + ",early-cse<memssa>,gvn<no-pre;no-load-pre>,sccp,instcombine<no-verify-fixpoint>," + scfg + ",loop-simplify,lcssa)");
  FAM.clear();
}

// functions a called pointer can be: null set if not known
static bool targets(Value *V, FunctionType *T, std::set<Function *> &out, std::set<Value *> &seen) {
  V = V->stripPointerCasts();
  if (!seen.insert(V).second)
    return true;
  if (auto *F = dyn_cast<Function>(V)) {
    if (F->getFunctionType() == T)
      out.insert(F);
    return true;
  }
  if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V))
    return true;
  if (auto *p = dyn_cast<PHINode>(V)) {
    for (auto &o : p->incoming_values())
      if (!targets(o.get(), T, out, seen))
        return false;
    return true;
  }
  if (auto *s = dyn_cast<SelectInst>(V))
    return targets(s->getTrueValue(), T, out, seen) && targets(s->getFalseValue(), T, out, seen);
  if (auto *L = dyn_cast<LoadInst>(V)) {
    // a table that is never stored to
    Value *b = L->getPointerOperand();
    while (auto *G = dyn_cast<GEPOperator>(b->stripPointerCasts()))
      b = G->getPointerOperand();
    auto *G = dyn_cast<GlobalVariable>(b->stripPointerCasts());
    if (!G || !G->hasInitializer())
      return false;
    if (!G->isConstant()) {
      std::vector<Value *> w{G};
      while (!w.empty()) {
        Value *v = w.back();
        w.pop_back();
        for (auto *u : v->users()) {
          if (isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u))
            w.push_back(u);
          else if (isa<LoadInst>(u) || isa<DbgInfoIntrinsic>(u))
            continue;
          else
            return false;
        }
      }
    }
    std::vector<Constant *> w{G->getInitializer()};
    while (!w.empty()) {
      auto *c = w.back();
      w.pop_back();
      if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) {
        if (f->getFunctionType() == T)
          out.insert(f);
      } else if (isa<ConstantAggregate>(c))
        for (auto &o : c->operands())
          w.push_back(cast<Constant>(o.get()));
    }
    return true;
  }
  return false;
}
static void devirtualise(Module &M) {
  std::vector<CallBase *> cs;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (CB->isIndirectCall())
          cs.push_back(CB);
  for (auto *CB : cs) {
    std::set<Function *> ts;
    std::set<Value *> seen;
    if (!targets(CB->getCalledOperand(), CB->getFunctionType(), ts, seen) || ts.empty() || ts.size() > 16)
      continue;
    std::map<std::string, Function *> order;
    for (auto *f : ts)
      order[f->getName().str()] = f;
    while (order.size() > 1) {
      auto it = order.begin();
      promoteCallWithIfThenElse(*CB, it->second);
      order.erase(it);
    }
    promoteCall(*CB, order.begin()->second);
  }
}

static bool countElements(Function &F, LoopInfo &LI);
static bool splitLocals(Function &F);

std::unique_ptr<Root> Program::root(const std::string &name, const Prep &p) {
  auto R = std::make_unique<Root>();
  if (!M->getFunction(name) || M->getFunction(name)->isDeclaration())
    return nullptr;
  R->M = CloneModule(*M);
  R->F = R->M->getFunction(name);
  R->F->setLinkage(GlobalValue::ExternalLinkage); // a root is never dropped
  if (p.prune) {
    std::set<const Value *> seen{R->F};
    std::vector<Function *> work{R->F};
    std::function<void(Value *)> use = [&](Value *v) {
      if (!isa<Constant>(v) || !seen.insert(v).second)
        return;
      if (auto *f = dyn_cast<Function>(v))
        work.push_back(f);
      else if (!isa<GlobalVariable>(v))
        for (auto &o : cast<Constant>(v)->operands())
          use(o.get());
    };
    while (!work.empty()) {
      Function *f = work.back();
      work.pop_back();
      for (auto &I : instructions(*f))
        for (auto &o : I.operands())
          use(o.get());
    }
    for (auto &f : *R->M)
      if (!f.isDeclaration() && !seen.count(&f)) {
        f.deleteBody();
        f.setComdat(nullptr);
      }
  }
  if (p.edit)
    p.edit(*R->F);
  if (p.devirtualise) {
    for (auto &F : *R->M)
      F.removeFnAttr(Attribute::OptimizeNone);
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    cantFail(PB.parsePassPipeline(MPM, "function(sroa)"));
    MPM.run(*R->M, MAM);
    devirtualise(*R->M);
  }
  std::set<Function *> rec;
  {
    CallGraph CG(*R->M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
      if (I.hasCycle())
        for (auto *n : *I)
          if (n->getFunction())
            rec.insert(n->getFunction());
  }
  for (auto &F : *R->M) {
    if (F.isDeclaration())
      continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    if (&F == R->F)
      continue;
    F.setLinkage(GlobalValue::InternalLinkage);
    F.setComdat(nullptr);
    if (p.inlineAll && !rec.count(&F) && !p.keep.count(F.getName().str()))
      F.addFnAttr(Attribute::AlwaysInline);
    else
      F.addFnAttr(Attribute::NoInline);
  }
  auto &PB = R->PB;
  PB.registerModuleAnalyses(R->MAM);
  PB.registerCGSCCAnalyses(R->CAM);
  PB.registerFunctionAnalyses(R->FAM);
  PB.registerLoopAnalyses(R->LAM);
  PB.crossRegisterProxies(R->LAM, R->FAM, R->CAM, R->MAM);
  auto run = [&](const std::string &pipe) { R->run(pipe); };
  const std::string simp =
      "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>," + scfg + ",sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>," + scfg;
  run("globaldce,always-inline,globaldce");
  if (p.normalise) {
    run("function(" + simp + ")");
    if (splitLocals(*R->F)) {
      R->FAM.clear();
      run("function(" + simp + ")");
    }
    if (p.invariantArg >= 0) {
      markInvariant(*R->F, p.invariantArg);
      run("function(early-cse<memssa>,loop-simplify,loop-mssa(licm<no-allowspeculation>),early-cse<memssa>,gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>," +
          scfg + ")");
    }
    run("function(loop-simplify,lcssa)");
    R->FAM.clear();
    if (countElements(*R->F, R->FAM.getResult<LoopAnalysis>(*R->F)))
      run("function(early-cse<memssa>,instcombine<no-verify-fixpoint>," + scfg + ",loop-simplify,lcssa)");
  }
  R->FAM.clear();
  return R;
}

// A value read through a pointer that may refer to a local variable is read from
// the variable or from the rest of the choice, so that variables stay variables.
static bool splitLocals(Function &F) {
  auto &DL = F.getParent()->getDataLayout();
  auto local = [&](Value *v) {
    APInt off(64, 0);
    return isa<AllocaInst>(v->stripAndAccumulateConstantOffsets(DL, off, true));
  };
  bool changed = false;
  for (int round = 0; round < 100; round++) {
    std::vector<Instruction *> choices;
    for (auto &I : instructions(F)) {
      if (!I.getType()->isPointerTy())
        continue;
      unsigned n = 0;
      if (auto *p = dyn_cast<PHINode>(&I)) {
        for (auto &v : p->incoming_values())
          n += local(v.get());
        if (n && n < p->getNumIncomingValues())
          choices.push_back(p);
        else if (n) { // several variables
          std::set<Value *> d(p->value_op_begin(), p->value_op_end());
          if (d.size() > 1)
            choices.push_back(p);
        }
      } else if (auto *s = dyn_cast<SelectInst>(&I))
        if (local(s->getTrueValue()) || local(s->getFalseValue()))
          choices.push_back(s);
    }
    bool now = false;
    for (auto *I : choices) {
      // only read through, at constant offsets
      std::vector<std::pair<Instruction *, bool>> users;
      bool ok = true;
      std::vector<Instruction *> w{I};
      std::vector<Instruction *> loads;
      while (!w.empty() && ok) {
        auto *x = w.back();
        w.pop_back();
        for (auto *u : x->users()) {
          auto *g = dyn_cast<GetElementPtrInst>(u);
          if (g && g->hasAllConstantIndices())
            w.push_back(g);
          else if (auto *l = dyn_cast<LoadInst>(u); l && l->isSimple())
            loads.push_back(l);
          else
            ok = false;
        }
      }
      if (!ok || loads.empty())
        continue;
      Value *var = nullptr, *isVar, *rest;
      IRBuilder<> b(I);
      if (auto *s = dyn_cast<SelectInst>(I)) {
        bool t = local(s->getTrueValue());
        var = t ? s->getTrueValue() : s->getFalseValue();
        rest = t ? s->getFalseValue() : s->getTrueValue();
        isVar = t ? s->getCondition() : b.CreateNot(s->getCondition());
      } else {
        auto *p = cast<PHINode>(I);
        for (auto &v : p->incoming_values())
          if (!var && local(v.get()))
            var = v.get();
        APInt off(64, 0);
        Value *base = var->stripAndAccumulateConstantOffsets(DL, off, true);
        auto *k = b.CreatePHI(b.getInt1Ty(), p->getNumIncomingValues());
        auto *r = b.CreatePHI(p->getType(), p->getNumIncomingValues());
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
          Value *v = p->getIncomingValue(i);
          APInt o(64, 0);
          bool same = v->stripAndAccumulateConstantOffsets(DL, o, true) == base && o == off;
          k->addIncoming(b.getInt1(same), p->getIncomingBlock(i));
          r->addIncoming(same ? PoisonValue::get(p->getType()) : v, p->getIncomingBlock(i));
        }
        isVar = k;
        rest = r;
        // the variable's address where it is needed
        b.SetInsertPoint(&*I->getParent()->getFirstInsertionPt());
        var = b.CreateGEP(b.getInt8Ty(), base, b.getInt64(off.getSExtValue()));
      }
      for (auto *l : loads) {
        APInt o(64, 0);
        Value *q = cast<LoadInst>(l)->getPointerOperand();
        while (q != I) {
          auto *g = cast<GetElementPtrInst>(q);
          APInt x(64, 0);
          g->accumulateConstantOffset(DL, x);
          o += x;
          q = g->getPointerOperand();
        }
        b.SetInsertPoint(l);
        auto rd = [&](Value *from) {
          auto *n = cast<LoadInst>(l->clone());
          n->setOperand(0, o.isZero() ? from : b.CreateGEP(b.getInt8Ty(), from, b.getInt64(o.getSExtValue())));
          n->insertBefore(l);
          return n;
        };
        Value *a = rd(var), *c = rd(rest);
        auto *s = b.CreateSelect(isVar, a, c);
        l->replaceAllUsesWith(s);
        l->eraseFromParent();
      }
      now = changed = true;
      break; // the list of choices is stale
    }
    if (!now)
      break;
  }
  return changed;
}

// A loop that walks a pointer along an array up to its end counts elements instead.
static bool countElements(Function &F, LoopInfo &LI) {
  bool changed = false;
  auto &DL = F.getParent()->getDataLayout();
  for (auto *L : LI.getLoopsInPreorder()) {
    BasicBlock *H = L->getHeader(), *pre = L->getLoopPreheader(), *latch = L->getLoopLatch();
    if (!pre || !latch)
      continue;
    std::vector<PHINode *> phis;
    for (auto &p : H->phis())
      if (p.getType()->isPointerTy() && p.getNumIncomingValues() == 2)
        phis.push_back(&p);
    for (auto *p : phis) {
      Value *base = p->getIncomingValueForBlock(pre);
      auto *next = dyn_cast<GetElementPtrInst>(p->getIncomingValueForBlock(latch));
      APInt step(64, 0);
      if (!next || next->getPointerOperand() != p || !next->accumulateConstantOffset(DL, step) || !step.isStrictlyPositive())
        continue;
      int64_t size = step.getSExtValue();
      auto endOf = [&](Value *v) -> Value * {
        auto *g = dyn_cast<GEPOperator>(v);
        if (!g || g->getPointerOperand() != base || g->getNumIndices() != 1 || (int64_t)DL.getTypeAllocSize(g->getSourceElementType()) != size)
          return nullptr;
        Value *n = g->getOperand(1);
        return L->isLoopInvariant(n) ? n : nullptr;
      };
      std::vector<std::tuple<ICmpInst *, unsigned, Value *>> tests;
      for (auto *x : {(Value *)p, (Value *)next})
        for (auto *u : x->users())
          if (auto *c = dyn_cast<ICmpInst>(u))
            for (unsigned k : {0u, 1u})
              if (c->getOperand(k) == x)
                if (Value *n = endOf(c->getOperand(1 - k)))
                  tests.push_back({c, k, n});
      if (tests.empty())
        continue;
      changed = true;
      IRBuilder<> b(H, H->begin());
      auto *I64 = b.getInt64Ty();
      auto *i = b.CreatePHI(I64, 2, p->getName() + ".count");
      b.SetInsertPoint(next);
      auto *i1 = b.CreateAdd(i, b.getInt64(1), "", true, true);
      i->addIncoming(b.getInt64(0), pre);
      i->addIncoming(i1, latch);
      for (auto &t : tests) {
        auto *c = std::get<0>(t);
        unsigned k = std::get<1>(t);
        b.SetInsertPoint(c);
        Value *at = c->getOperand(k) == p ? (Value *)i : i1;
        Value *n = std::get<2>(t);
        if (n->getType() != I64)
          n = b.CreateSExtOrTrunc(n, I64);
        auto *r = b.CreateICmp(c->getPredicate(), k == 0 ? at : n, k == 0 ? n : at);
        if (auto *ri = dyn_cast<Instruction>(r))
          ri->setDebugLoc(c->getDebugLoc());
        c->replaceAllUsesWith(r);
        c->eraseFromParent();
      }
      b.SetInsertPoint(H, H->getFirstInsertionPt());
      Value *at = b.CreateGEP(ArrayType::get(b.getInt8Ty(), size), base, i, p->getName());
      if (auto *g = dyn_cast<GetElementPtrInst>(next)) // keep the element type
        if ((int64_t)DL.getTypeAllocSize(g->getSourceElementType()) == size) {
          cast<Instruction>(at)->eraseFromParent();
          at = b.CreateInBoundsGEP(g->getSourceElementType(), base, i, p->getName());
        }
      if (auto *ai = dyn_cast<Instruction>(at))
        ai->setDebugLoc(next->getDebugLoc());
      p->replaceAllUsesWith(at);
      p->eraseFromParent();
      if (next->use_empty())
        next->eraseFromParent();
    }
  }
  return changed;
}

std::unique_ptr<Root> Program::whole(const std::function<void(Module &)> &edit) {
  auto R = std::make_unique<Root>();
  R->M = CloneModule(*M);
  if (edit)
    edit(*R->M);
  for (auto &F : *R->M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.addFnAttr(Attribute::NoInline);
  }
  R->PB.registerModuleAnalyses(R->MAM);
  R->PB.registerCGSCCAnalyses(R->CAM);
  R->PB.registerFunctionAnalyses(R->FAM);
  R->PB.registerLoopAnalyses(R->LAM);
  R->PB.crossRegisterProxies(R->LAM, R->FAM, R->CAM, R->MAM);
  R->run("function(sroa,early-cse<memssa>," + scfg + ")");
  R->FAM.clear();
  return R;
}

int paramOfType(const Function &F, StringRef type) {
  auto *SP = F.getSubprogram();
  if (!SP || !SP->getType())
    return -1;
  auto ts = SP->getType()->getTypeArray();
  int base = F.arg_size() && F.getArg(0)->hasStructRetAttr() ? 0 : -1;
  for (unsigned i = 1; i < ts.size(); i++)
    if (auto *T = ts[i])
      if (T->getName() == type)
        return i + base;
  return -1;
}
bool enumValue(const Module &M, StringRef name, int64_t &v) {
  DebugInfoFinder F;
  F.processModule(M);
  for (auto *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_enumeration_type)
        for (auto *E : C->getElements())
          if (auto *e = dyn_cast<DIEnumerator>(E))
            if (e->getName() == name) {
              v = e->getValue().getSExtValue();
              return true;
            }
  return false;
}
bool commandLine(const Program &P, const Function &F) {
  auto *m = P.M->getFunction("main");
  auto *a = F.getSubprogram();
  if (!m || !m->getSubprogram() || !a)
    return false;
  return a->getFile()->getFilename() == m->getSubprogram()->getFile()->getFilename();
}
std::vector<Function *> apiFunctions(Program &P) {
  std::vector<Function *> r;
  for (auto &F : *P.M)
    if (!F.isDeclaration() && F.hasExternalLinkage() && !commandLine(P, F) &&
        (F.getName().starts_with("at_") || F.getName().starts_with("autotrace_")))
      r.push_back(&F);
  return r;
}

// entries of a constant table: structures that hold a name and a function
static void tableEntries(const Constant *C, unsigned args, std::vector<std::pair<std::string, Function *>> &r) {
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
    Function *W = nullptr;
    std::string suf;
    for (auto &o : C->operands()) {
      if (auto *f = dyn_cast<Function>(o.get()->stripPointerCasts())) {
        if (f->arg_size() == args)
          W = f;
        continue;
      }
      bool ok;
      std::string s = constString(o.get(), &ok);
      if (ok && suf.empty())
        suf = s;
      else if (auto *c = dyn_cast<Constant>(o.get()))
        tableEntries(c, args, r);
    }
    if (W && !suf.empty())
      r.push_back({suf, W});
  }
}

std::vector<std::pair<std::string, Function *>> Program::registered(const std::string &adder, Report &R) {
  std::vector<std::pair<std::string, Function *>> r;
  for (auto &F : *M) {
    if (F.getName().starts_with(adder))
      continue;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (!calleeName(CB).starts_with(adder))
          continue;
        Function *W = nullptr;
        std::string suf;
        for (auto &a : CB->args()) {
          if (auto *f = dyn_cast<Function>(a.get()->stripPointerCasts()))
            W = f;
          bool ok;
          std::string s = constString(a.get(), &ok);
          if (ok && suf.empty())
            suf = s;
        }
        if (W && !W->isDeclaration()) {
          r.push_back({suf, W});
          continue;
        }
        // registered from a table
        size_t n = r.size();
        for (auto &G : M->globals())
          if (G.hasInitializer())
            tableEntries(G.getInitializer(), StringRef(adder).contains("input") ? 6 : 11, r);
        if (r.size() == n)
          R.fail("registration of '" + suf + "' at " + whereOf(&I) + " does not name a function of the library");
      }
  }
  return r;
}
