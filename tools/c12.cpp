// C12: a call leaves its arguments as they were, and a copy or result shares no
// memory with what it was made from.
//
// Unchanged: over the whole program, for every function and parameter, which
// memory reached through the parameter is written or released (directly, or
// through a pointer found at a given offset in it). Asked for the functions a
// user calls and the registered readers and writers.
//
// Not shared: in the inlined functions that make copies or results, a pointer
// that comes from an argument must not be left in the memory handed back.
#include "paths.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/DebugInfo.h"

namespace {
const int64_t Direct = -1, Unknown = -2;

// type of a parameter as written in the source
const DIType *typeOf(const Argument *A) {
  for (auto *D : findDbgDeclares(const_cast<Argument *>(A)))
    return D->getVariable()->getType();
  for (auto *u : A->users())
    if (auto *S = dyn_cast<StoreInst>(u))
      if (S->getValueOperand() == A)
        for (auto *D : findDbgDeclares(const_cast<Value *>(S->getPointerOperand())))
          return D->getVariable()->getType();
  return nullptr;
}
struct Param {
  std::string name, type; // type pointed to
  bool pointer = false, isConst = false, byval = false, self = false;
  const DIType *to = nullptr;
};
Param describe(const Argument *A) {
  Param p;
  p.name = A->getName().str();
  p.byval = A->hasByValAttr();
  const DIType *T = typeOf(A);
  if (!T)
    return p;
  auto named = [&](const DIType *T) {
    std::string n;
    for (;;) {
      if (n.empty() && !T->getName().empty())
        n = T->getName().str();
      auto *d = dyn_cast<DIDerivedType>(T);
      if (!d || !d->getBaseType() || d->getTag() == dwarf::DW_TAG_pointer_type)
        break;
      T = d->getBaseType();
    }
    return n;
  };
  if (p.byval) {
    p.type = named(T);
    p.to = T;
    return p;
  }
  for (;;) {
    auto *d = dyn_cast<DIDerivedType>(T);
    if (!d || !d->getBaseType())
      return p;
    auto t = d->getTag();
    if (t == dwarf::DW_TAG_pointer_type || t == dwarf::DW_TAG_reference_type) {
      p.pointer = true;
      T = d->getBaseType();
      break;
    }
    T = d->getBaseType();
  }
  p.to = T;
  p.type = named(T);
  for (const DIType *t = T; t;) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d)
      break;
    if (d->getTag() == dwarf::DW_TAG_const_type)
      p.isConst = true;
    if (d->getTag() == dwarf::DW_TAG_pointer_type)
      break;
    t = d->getBaseType();
  }
  p.self = p.name == "this";
  return p;
}
std::map<std::string, const DICompositeType *> definitions;
const DICompositeType *structOf(const DIType *T) {
  while (T) {
    if (auto *c = dyn_cast<DICompositeType>(T)) {
      auto it = c->isForwardDecl() ? definitions.find(c->getName().str()) : definitions.end();
      return it == definitions.end() ? c : it->second;
    }
    auto *d = dyn_cast<DIDerivedType>(T);
    if (!d || d->getTag() == dwarf::DW_TAG_pointer_type)
      return nullptr;
    T = d->getBaseType();
  }
  return nullptr;
}
// offsets of the pointers to data inside a structure of the program
void pointersIn(const DIType *T, uint64_t base, std::map<uint64_t, std::string> &out, const std::string &pre = "", int depth = 0) {
  auto *c = structOf(T);
  if (!c || depth > 5 || c->getTag() == dwarf::DW_TAG_union_type)
    return;
  if (c->getScope() && isa<DINamespace>(c->getScope())) // of the C++ library
    return;
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->isStaticMember() || (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance))
      continue;
    uint64_t off = base + m->getOffsetInBits() / 8;
    const DIType *t = m->getBaseType();
    while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_pointer_type) {
        const DIType *to = d->getBaseType();
        if (!m->getName().starts_with("_vptr") && !(to && isa<DISubroutineType>(to)))
          out[off] = pre + m->getName().str();
        t = nullptr;
        break;
      }
      t = d->getBaseType();
    }
    if (t)
      pointersIn(t, off, out, m->getTag() == dwarf::DW_TAG_member ? pre + m->getName().str() + "." : pre, depth + 1);
  }
}

// ---- effects through parameters ---------------------------------------------
struct Effect {
  const Instruction *at = nullptr; // the store or release itself
  std::string what, chain;
};
typedef std::map<int64_t, Effect> Effects; // by the offset of the first pointer followed

struct Summary {
  std::vector<Effects> writes;          // per parameter
  std::vector<std::set<int64_t>> gives; // labels with which a parameter is returned
};

// what library functions do to the memory their arguments point to
int writtenArg(StringRef n) {
  static const std::set<StringRef> first = {"memcpy", "memmove", "memset", "strcpy", "strcat", "strncpy", "strncat", "sprintf", "snprintf",
                                            "vsprintf", "fread", "fgets", "qsort", "strtok", "__isoc99_sscanf_", "getcwd", "bzero"};
  if (first.count(n) || n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n.starts_with("llvm.memset"))
    return 0;
  return -1;
}
bool releases(StringRef n) { return n == "free" || n == "realloc" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "cfree"; }
bool allocates(StringRef n) {
  return n == "malloc" || n == "calloc" || n == "realloc" || n == "_Znwm" || n == "_Znam" || n == "strdup" || n == "strndup";
}

struct Flow {
  Root &R;
  Program &P;
  std::map<Function *, Summary> sum;
  long derivations = 0, undecided = 0, kept = 0;
  std::map<Function *, std::unique_ptr<std::map<Value *, bool>>> cache;
  Flow(Root &R, Program &P) : R(R), P(P) {}

  bool offsetFrom(Value *V, Value *base, int64_t &off) {
    auto &DL = R.M->getDataLayout();
    APInt o(64, 0);
    Value *b = V->stripAndAccumulateConstantOffsets(DL, o, true);
    off = o.getSExtValue();
    return b == base;
  }
  // confirm that the value comes from the parameter on some path to I
  bool reaches(Function &F, Argument *A, Value *V, Instruction *I, const std::set<Value *> &derived) {
    // where the chain of loads and members starts
    Value *b = V;
    Instruction *through = I;
    for (int n = 0; n < 30; n++) {
      if (auto *g = dyn_cast<GetElementPtrInst>(b)) {
        through = g;
        b = g->getPointerOperand();
      } else if (auto *c = dyn_cast<CastInst>(b)) {
        through = c;
        b = c->getOperand(0);
      } else if (auto *l = dyn_cast<LoadInst>(b)) {
        if (!derived.count(l->getPointerOperand()))
          return true;
        through = l;
        b = l->getPointerOperand();
      } else
        break;
    }
    if (!isa<PHINode>(b) && !isa<SelectInst>(b))
      return true;
    PathSearch S(F, R.FAM.getResult<LoopAnalysis>(F));
    for (auto *d : derived)
      if (!isa<PHINode>(d) && !isa<SelectInst>(d) && !isa<CastInst>(d) && !isa<GetElementPtrInst>(d))
        S.tokens.insert(d);
    for (auto *d : derived) // members of what the chain does not merge
      if (isa<GetElementPtrInst>(d)) {
        Value *x = d;
        while (auto *g = dyn_cast<GetElementPtrInst>(x))
          x = g->getPointerOperand();
        if (!isa<PHINode>(x) && !isa<SelectInst>(x))
          S.tokens.insert(d);
      }
    S.watch = {through};
    bool hit = S.reach(nullptr, [&](Instruction &J) { return &J == I && S.eval(b, S.now).k == PathSearch::Val::Token; });
    if (S.exceeded) {
      undecided++;
      return false;
    }
    return hit;
  }
  // a value changed for a while: every way on from the store puts back what was there
  bool restored(Function &F, StoreInst *St) {
    auto &DL = R.M->getDataLayout();
    auto place = [&](Value *V, int64_t &off) {
      APInt o(64, 0);
      Value *b = V->stripAndAccumulateConstantOffsets(DL, o, true);
      off = o.getSExtValue();
      return b;
    };
    int64_t at, o;
    Value *base = place(St->getPointerOperand(), at);
    std::vector<StoreInst *> stores;
    std::vector<LoadInst *> loads;
    for (auto &I : instructions(F)) {
      if (auto *s = dyn_cast<StoreInst>(&I)) {
        if (place(s->getPointerOperand(), o) == base && o == at)
          stores.push_back(s);
      } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        if (place(l->getPointerOperand(), o) == base && o == at)
          loads.push_back(l);
      }
    }
    auto &DT = R.FAM.getResult<DominatorTreeAnalysis>(F);
    for (auto *l : loads) {
      bool first = true;
      PathSearch S(F, R.FAM.getResult<LoopAnalysis>(F));
      for (auto *s : stores) {
        first &= DT.dominates(l, s);
        if (s->getValueOperand() == l)
          S.stops.insert(s);
      }
      if (!first || S.stops.empty())
        continue;
      if (S.stops.count(St) || (!S.reach(St, [](Instruction &J) { return isa<ReturnInst>(J); }) && !S.exceeded)) {
        borrowed.insert(St);
        return true;
      }
    }
    return false;
  }
  std::set<const Instruction *> borrowed;
  static std::string stepOf(const Instruction *I) { return funcOf(I) + " (" + whereOf(I) + ")"; }

  // one function, one parameter
  bool analyse(Function &F, unsigned k) {
    Argument *A = F.getArg(k);
    auto &S = sum[&F];
    auto &DL = R.M->getDataLayout();
    std::map<Value *, std::set<int64_t>> lab; // labels of derived pointers
    struct Held {
      Value *obj;
      int64_t at, size, src;
      int64_t label; // Direct/offset for one pointer; a copied structure has src >= 0
      bool whole;
    };
    std::vector<Held> held;
    std::vector<Value *> work;
    auto add = [&](Value *v, int64_t l) {
      if (lab[v].insert(l).second) {
        work.push_back(v);
        derivations++;
      }
    };
    auto place = [&](Value *V, Value *&obj, int64_t &off) {
      APInt o(64, 0);
      obj = V->stripAndAccumulateConstantOffsets(DL, o, true);
      off = o.getSExtValue();
      return isa<AllocaInst>(obj);
    };
    bool changed = false;
    std::set<Value *> derived;
    auto effect = [&](int64_t l, Value *V, Instruction *I, const Effect &e) {
      if (A->hasByValAttr() && l == Direct)
        return; // its own copy
      auto &w = S.writes[k];
      if (w.count(l))
        return;
      derived.clear();
      for (auto &x : lab)
        derived.insert(x.first);
      if (!reaches(F, A, V, I, derived))
        return;
      w[l] = e;
      changed = true;
    };
    add(A, Direct);
    for (bool again = true; again;) {
      again = false;
      while (!work.empty()) {
        Value *v = work.back();
        work.pop_back();
        std::set<int64_t> ls = lab[v];
        for (auto *u : v->users()) {
          auto *I = dyn_cast<Instruction>(u);
          if (!I)
            continue;
          if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I)) {
            if (isa<CastInst>(I) && !isa<PtrToIntInst>(I) && !I->getType()->isPointerTy())
              continue;
            if (auto *g = dyn_cast<GetElementPtrInst>(I))
              if (g->getPointerOperand() != v)
                continue;
            if (auto *s = dyn_cast<SelectInst>(I))
              if (s->getCondition() == v)
                continue;
            for (auto l : ls)
              add(I, l);
          } else if (auto *L = dyn_cast<LoadInst>(I)) {
            if (!L->getType()->isPointerTy())
              continue;
            for (auto l : ls) {
              if (l != Direct)
                add(L, l);
              else {
                int64_t off;
                add(L, offsetFrom(L->getPointerOperand(), A, off) ? off : Unknown);
              }
            }
          }
        }
      }
      // pointers kept in local structures
      for (auto &x : lab)
        for (auto *u : x.first->users()) {
          Value *obj;
          int64_t off;
          if (auto *St = dyn_cast<StoreInst>(u)) {
            if (St->getValueOperand() != x.first || !place(St->getPointerOperand(), obj, off))
              continue;
            for (auto l : x.second) {
              bool have = false;
              for (auto &h : held)
                have |= !h.whole && h.obj == obj && h.at == off && h.label == l;
              if (!have) {
                held.push_back({obj, off, 8, -1, l, false});
                again = true;
              }
            }
          } else if (auto *M = dyn_cast<MemTransferInst>(u)) {
            auto *n = dyn_cast<ConstantInt>(M->getLength());
            if (M->getRawSource() != x.first || !n || !place(M->getRawDest(), obj, off))
              continue;
            for (auto l : x.second) {
              int64_t so = 0;
              if (l == Direct && !offsetFrom(M->getRawSource(), A, so))
                so = -1;
              bool have = false;
              for (auto &h : held)
                have |= h.whole && h.obj == obj && h.at == off && h.label == l;
              if (!have) {
                held.push_back({obj, off, n->getSExtValue(), so, l, true});
                again = true;
              }
            }
          }
        }
      // local structure to local structure
      for (size_t i = 0; i < held.size(); i++)
        for (auto *u : held[i].obj->users())
          if (auto *M = dyn_cast<MemTransferInst>(u)) {
            Value *so, *d;
            int64_t sof, dof;
            if (!place(M->getRawSource(), so, sof) || so != held[i].obj || !place(M->getRawDest(), d, dof) || d == so)
              continue;
            Held h = held[i];
            h.obj = d;
            h.at += dof - sof;
            bool have = false;
            for (auto &x : held)
              have |= x.obj == h.obj && x.at == h.at && x.label == h.label && x.whole == h.whole;
            if (!have && held.size() < 400) {
              held.push_back(h);
              again = true;
            }
          }
      auto labelsAt = [&](Value *obj, int64_t off) {
        std::set<int64_t> r;
        for (auto &h : held) {
          if (h.obj != obj)
            continue;
          if (!h.whole && h.at == off)
            r.insert(h.label);
          if (h.whole && off >= h.at && off < h.at + h.size)
            r.insert(h.label != Direct ? h.label : h.src < 0 ? Unknown : h.src + off - h.at);
        }
        return r;
      };
      std::set<Value *> objs;
      for (auto &h : held)
        objs.insert(h.obj);
      if (!objs.empty())
        for (auto &I : instructions(F))
          if (auto *L = dyn_cast<LoadInst>(&I))
            if (L->getType()->isPointerTy()) {
              Value *obj;
              int64_t off;
              if (place(L->getPointerOperand(), obj, off) && objs.count(obj))
                for (auto l : labelsAt(obj, off))
                  add(L, l);
            }
      // returned by functions called with it
      for (auto &x : std::map<Value *, std::set<int64_t>>(lab))
        for (auto *u : x.first->users())
          if (auto *C = dyn_cast<CallBase>(u))
            if (Function *g = C->getCalledFunction())
              if (!g->isDeclaration() && sum.count(g))
                for (unsigned j = 0; j < C->arg_size() && j < g->arg_size(); j++)
                  if (C->getArgOperand(j) == x.first)
                    for (auto l : sum[g].gives[j])
                      for (auto mine : x.second)
                        add(C, mine != Direct ? mine : l == Direct ? Direct : Unknown);
      if (!work.empty())
        again = true;
      // passing a local structure that holds such pointers
      if (!again)
        for (auto &I : instructions(F))
          if (auto *C = dyn_cast<CallBase>(&I))
            if (Function *g = C->getCalledFunction())
              if (!g->isDeclaration() && sum.count(g))
                for (unsigned j = 0; j < C->arg_size() && j < g->arg_size(); j++) {
                  Value *obj;
                  int64_t off;
                  if (!C->getArgOperand(j)->getType()->isPointerTy() || !place(C->getArgOperand(j), obj, off) || !objs.count(obj))
                    continue;
                  for (auto &e : sum[g].writes[j])
                    if (e.first >= 0)
                      for (auto l : labelsAt(obj, off + e.first)) {
                        Effect f = e.second;
                        f.chain = stepOf(C) + " -> " + f.chain;
                        effect(l, C->getArgOperand(j), C, f);
                      }
                }
    }
    // what is done with it
    for (auto &x : lab) {
      for (auto *u : x.first->users()) {
        auto *I = dyn_cast<Instruction>(u);
        if (!I)
          continue;
        if (auto *St = dyn_cast<StoreInst>(I)) {
          if (St->getPointerOperand() == x.first && !restored(F, St))
            for (auto l : x.second)
              effect(l, x.first, I, {I, "stored to", stepOf(I)});
          continue;
        }
        auto *C = dyn_cast<CallBase>(I);
        if (!C)
          continue;
        Function *g = C->getCalledFunction();
        StringRef n = calleeName(C);
        for (unsigned j = 0; j < C->arg_size(); j++) {
          if (C->getArgOperand(j) != x.first)
            continue;
          if (!g || g->isDeclaration() || !sum.count(g)) {
            if ((int)j == writtenArg(n) || ((n.contains("scanf")) && j >= 2))
              for (auto l : x.second)
                effect(l, x.first, I, {I, "stored to", stepOf(I)});
            if (releases(n) && j == 0)
              for (auto l : x.second)
                effect(l, x.first, I, {I, "released", stepOf(I)});
            continue;
          }
          if (j >= g->arg_size())
            continue;
          for (auto &e : sum[g].writes[j])
            for (auto l : x.second) {
              if (e.first == Direct && C->isByValArgument(j))
                continue;
              int64_t to = l;
              if (l == Direct && e.first != Direct) {
                int64_t off;
                to = e.first >= 0 && offsetFrom(x.first, A, off) ? off + e.first : Unknown;
              }
              Effect f = e.second;
              f.chain = stepOf(C) + " -> " + f.chain;
              effect(to, x.first, I, f);
            }
        }
      }
      for (auto *u : x.first->users())
        if (isa<ReturnInst>(u))
          for (auto l : x.second)
            if (S.gives[k].insert(l).second)
              changed = true;
    }
    return changed;
  }
  // of the program, not of the C++ library
  static bool ours(const Function &F) {
    auto *s = F.getSubprogram();
    return s && !s->getFile()->getFilename().starts_with("/usr/");
  }
  void run() {
    for (auto &F : *R.M)
      if (!F.isDeclaration() && ours(F)) {
        sum[&F].writes.resize(F.arg_size());
        sum[&F].gives.resize(F.arg_size());
      }
    for (int round = 0; round < 20; round++) {
      bool ch = false;
      for (auto &F : *R.M)
        if (sum.count(&F))
          for (unsigned k = 0; k < F.arg_size(); k++)
            if (F.getArg(k)->getType()->isPointerTy() && !F.getArg(k)->hasStructRetAttr())
              ch |= analyse(F, k);
      if (!ch)
        break;
    }
  }
};

// ---- sharing ----------------------------------------------------------------
struct Sharing {
  Root &R;
  Function &F;
  Report &rep;
  std::string name;
  std::vector<std::pair<Argument *, Param>> sources;
  std::set<Value *> results; // sret, this
  const DataLayout &DL;
  struct Lab {
    int src;
    int64_t off;
    bool operator<(const Lab &o) const { return std::tie(src, off) < std::tie(o.src, o.off); }
  };
  std::map<Value *, std::set<Lab>> lab;
  std::map<int, std::map<uint64_t, std::string>> members;
  Sharing(Root &R, Function &F, Report &rep, const std::string &name) : R(R), F(F), rep(rep), name(name), DL(F.getParent()->getDataLayout()) {}

  Value *place(Value *V, int64_t &off) {
    APInt o(64, 0);
    Value *b = V->stripAndAccumulateConstantOffsets(DL, o, true);
    off = o.getSExtValue();
    return b;
  }
  void derive() {
    std::vector<Value *> work;
    auto add = [&](Value *v, Lab l) {
      if (lab[v].insert(l).second)
        work.push_back(v);
    };
    for (size_t i = 0; i < sources.size(); i++)
      add(sources[i].first, {(int)i, Direct});
    while (!work.empty()) {
      Value *v = work.back();
      work.pop_back();
      auto ls = lab[v];
      for (auto *u : v->users()) {
        auto *I = dyn_cast<Instruction>(u);
        if (!I)
          continue;
        if (isa<GetElementPtrInst>(I) ? cast<GetElementPtrInst>(I)->getPointerOperand() == v
                                      : isa<PHINode>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) {
          for (auto &l : ls)
            add(I, l);
        } else if (auto *L = dyn_cast<LoadInst>(I)) {
          if (DL.getTypeStoreSize(L->getType()) != 8)
            continue;
          for (auto &l : ls) {
            if (l.off != Direct) {
              if (L->getType()->isPointerTy())
                add(L, l);
              continue;
            }
            int64_t off;
            Value *b = place(L->getPointerOperand(), off);
            if (b == sources[l.src].first && members[l.src].count(off))
              add(L, {l.src, off});
            else if (b != sources[l.src].first && L->getType()->isPointerTy())
              add(L, {l.src, Unknown});
          }
        }
      }
    }
  }
  // the pointer found at an offset of a source is null on this edge
  bool nullEdge(const BasicBlock *A, const BasicBlock *B, const Lab &l, Value *obj, int64_t off) {
    auto *br = dyn_cast<BranchInst>(A->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
      return false;
    auto *c = dyn_cast<ICmpInst>(br->getCondition());
    if (!c || !c->isEquality() || !isa<ConstantPointerNull>(c->getOperand(1)))
      return false;
    int64_t o;
    auto *L = dyn_cast<LoadInst>(c->getOperand(0)); // asked of the copy
    if (L && place(L->getPointerOperand(), o) == obj && o == off)
      return B == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
    auto it = lab.find(c->getOperand(0));
    return it != lab.end() && it->second.count(l) && B == br->getSuccessor(c->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
  }
  void run() {
    derive();
    auto &LI = R.FAM.getResult<LoopAnalysis>(F);
    // memory that is handed back
    std::set<Value *> back = results;
    std::function<void(Value *, std::set<Value *> &)> bases = [&](Value *v, std::set<Value *> &seen) {
      if (!seen.insert(v).second)
        return;
      int64_t o;
      Value *b = place(v, o);
      if (auto *p = dyn_cast<PHINode>(b)) {
        for (auto &in : p->incoming_values())
          bases(in, seen);
      } else if (auto *s = dyn_cast<SelectInst>(b)) {
        bases(s->getTrueValue(), seen);
        bases(s->getFalseValue(), seen);
      } else
        back.insert(b);
    };
    for (auto &I : instructions(F))
      if (auto *r = dyn_cast<ReturnInst>(&I))
        if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy()) {
          std::set<Value *> seen;
          bases(r->getReturnValue(), seen);
        }
    for (bool ch = true; ch;) {
      ch = false;
      size_t n = back.size();
      for (auto &I : instructions(F))
        if (auto *s = dyn_cast<StoreInst>(&I))
          if (s->getValueOperand()->getType()->isPointerTy()) {
            int64_t o;
            if (back.count(place(s->getPointerOperand(), o))) {
              std::set<Value *> seen;
              Value *b = place(s->getValueOperand(), o);
              if (auto *C = dyn_cast<CallBase>(b))
                if (allocates(calleeName(C)))
                  back.insert(b);
            }
          }
      ch = back.size() != n;
    }
    for (auto &s : sources)
      back.erase(s.first);
    for (auto it = back.begin(); it != back.end();)
      it = isa<Constant>(*it) ? back.erase(it) : std::next(it);

    struct Event {
      Instruction *I;
      Value *obj;
      int64_t off;
      Lab l;
      Value *value; // stored pointer, null for a copied structure
    };
    std::vector<Event> evs;
    auto known = [&](const Event &e) {
      for (auto &x : evs)
        if (x.I == e.I && x.off == e.off && !(x.l < e.l) && !(e.l < x.l))
          return true;
      return false;
    };
    for (auto &I : instructions(F)) {
      int64_t off;
      if (auto *s = dyn_cast<StoreInst>(&I)) {
        auto it = lab.find(s->getValueOperand());
        if (it == lab.end())
          continue;
        Value *b = place(s->getPointerOperand(), off);
        for (auto &l : it->second)
          evs.push_back({s, b, off, l, s->getValueOperand()});
      } else if (auto *m = dyn_cast<MemTransferInst>(&I)) {
        auto it = lab.find(m->getRawSource());
        if (it == lab.end())
          continue;
        auto *n = dyn_cast<ConstantInt>(m->getLength());
        Value *b = place(m->getRawDest(), off);
        for (auto &l : it->second) {
          int64_t so;
          if (l.off != Direct || !n || place(m->getRawSource(), so) != sources[l.src].first)
            continue;
          for (auto &p : members[l.src])
            if ((int64_t)p.first >= so && p.first < so + n->getZExtValue())
              evs.push_back({m, b, off + (int64_t)p.first - so, {l.src, (int64_t)p.first}, nullptr});
        }
      }
    }
    auto overwrites = [&](Instruction &I, Value *obj, int64_t off) {
      int64_t o;
      if (auto *s = dyn_cast<StoreInst>(&I))
        return place(s->getPointerOperand(), o) == obj && o == off;
      if (auto *m = dyn_cast<MemIntrinsic>(&I)) {
        auto *n = dyn_cast<ConstantInt>(m->getLength());
        return n && place(m->getRawDest(), o) == obj && off >= o && off < o + n->getSExtValue();
      }
      return false;
    };
    auto live = [&](const Event &e, const std::function<bool(Instruction &)> &goal) {
      if (e.value && (isa<PHINode>(e.value) || isa<SelectInst>(e.value))) {
        PathSearch S(F, LI);
        for (auto &x : lab)
          if (x.second.count(e.l) && !isa<PHINode>(x.first) && !isa<SelectInst>(x.first))
            S.tokens.insert(x.first);
        S.watch = {e.I};
        S.dead = [&](const BasicBlock *A, const BasicBlock *B) { return nullEdge(A, B, e.l, e.obj, e.off); };
        if (!S.reach(nullptr, [&](Instruction &J) { return &J == e.I && S.eval(e.value, S.now).k == PathSearch::Val::Token; }))
          return false;
      } else {
        PathSearch S(F, LI);
        S.dead = [&](const BasicBlock *A, const BasicBlock *B) { return nullEdge(A, B, e.l, e.obj, e.off); };
        if (!S.reach(nullptr, [&](Instruction &J) { return &J == e.I; }))
          return false;
      }
      PathSearch S(F, LI);
      S.dead = [&](const BasicBlock *A, const BasicBlock *B) { return nullEdge(A, B, e.l, e.obj, e.off); };
      for (auto &I : instructions(F))
        if (&I != e.I && overwrites(I, e.obj, e.off))
          S.stops.insert(&I);
      // the object is released again
      for (auto *u : e.obj->users())
        if (auto *C = dyn_cast<CallBase>(u))
          if (releases(calleeName(C)) && calleeName(C) != "realloc")
            S.stops.insert(C);
      return S.reach(e.I, goal) != nullptr;
    };
    for (size_t i = 0; i < evs.size() && evs.size() < 4000; i++) {
      Event e = evs[i];
      rep.count("places where a pointer of an argument is put");
      if (isa<AllocaInst>(e.obj)) { // on to where the local structure is copied
        for (auto &I : instructions(F))
          if (auto *m = dyn_cast<MemTransferInst>(&I)) {
            int64_t so, d;
            auto *n = dyn_cast<ConstantInt>(m->getLength());
            if (!n || place(m->getRawSource(), so) != e.obj || e.off < so || e.off >= so + n->getSExtValue())
              continue;
            if (!live(e, [&](Instruction &J) { return &J == m; }))
              continue;
            Value *b = place(m->getRawDest(), d);
            Event x{m, b, d + e.off - so, e.l, nullptr};
            if (!known(x))
              evs.push_back(x);
          }
        continue;
      }
      if (!back.count(e.obj))
        continue;
      if (!live(e, [&](Instruction &J) { return isa<ReturnInst>(J); }))
        continue;
      auto &s = sources[e.l.src];
      std::string mem = e.l.off == Direct ? s.second.name
                        : members[e.l.src].count(e.l.off) ? s.second.name + "->" + members[e.l.src][e.l.off]
                                                          : "memory of " + s.second.name;
      rep.finding("shared", name, whereOf(e.I), mem,
                  "what " + name + " hands back holds the pointer " + mem + " of the " + s.second.type +
                      " it was given (put there in " + funcOf(e.I) + "): both share that memory");
    }
  }
};
} // namespace

void checkC12(Program &P, Report &R, const std::string &tier) {
  static const std::set<std::string> guarded = {"at_input_opts_type", "at_fitting_opts_type", "at_output_opts_type", "at_splines_type",
                                                "spline_list_array_type", "at_spline_list_array_type"};
  auto inWrapper = [](const Function &F) {
    auto *s = F.getSubprogram();
    return s && (s->getFile()->getFilename().contains("/wrapper/") || s->getFile()->getFilename().starts_with("wrapper/") ||
                 s->getFile()->getFilename().ends_with("/probe.cpp"));
  };
  DebugInfoFinder finder;
  finder.processModule(*P.M);
  for (auto *T : finder.types())
    if (auto *c = dyn_cast<DICompositeType>(T))
      if (!c->isForwardDecl() && !c->getName().empty() && !(c->getScope() && isa<DINamespace>(c->getScope())))
        definitions[c->getName().str()] = c;
  std::vector<Function *> api = apiFunctions(P);
  std::vector<Function *> roots = api;
  size_t handlers = 0;
  for (auto *adder : {"at_input_add_handler", "at_output_add_handler"})
    for (auto &w : P.registered(adder, R)) {
      if (std::find(roots.begin(), roots.end(), w.second) == roots.end())
        roots.push_back(w.second);
      handlers++;
    }
  if (handlers < 5)
    R.fail("the registered readers and writers were not found");
  std::vector<Function *> wrap;
  for (auto &F : *P.M)
    if (!F.isDeclaration() && inWrapper(F) && !F.getName().contains("D0Ev") && !F.getName().contains("D1Ev") && !F.getName().contains("D2Ev")) {
      wrap.push_back(&F);
      if (F.getSubprogram() && !F.getSubprogram()->isArtificial())
        roots.push_back(&F);
    }

  // unchanged
  auto W = P.whole();
  Flow fl(*W, P);
  fl.run();
  R.count("functions analysed for what they change", fl.sum.size());
  R.count("pointers followed from parameters", fl.derivations);
  R.count("values changed and put back", fl.borrowed.size());
  if (fl.undecided)
    R.count("searches not decided", fl.undecided);
  std::set<Function *> done;
  for (auto *F : roots) {
    if (!done.insert(F).second)
      continue;
    // the function that ends an object's life
    unsigned ptrs = 0;
    for (auto &A : F->args())
      ptrs += A.getType()->isPointerTy();
    Function *G = W->M->getFunction(F->getName());
    if (!G)
      continue;
    auto &S = fl.sum[G];
    bool destroys = F->arg_size() == 1 && F->getReturnType()->isVoidTy() && ptrs == 1 && S.writes[0].count(Direct) &&
                    S.writes[0][Direct].what == "released";
    if (destroys) {
      R.count("functions that end an object's life");
      continue;
    }
    for (unsigned k = 0; k < F->arg_size(); k++) {
      if (!F->getArg(k)->getType()->isPointerTy() || F->getArg(k)->hasStructRetAttr())
        continue;
      Param p = describe(F->getArg(k));
      bool text = p.pointer && stripTypedefs(p.to) && stripTypedefs(p.to)->getName() == "char" && !inWrapper(*F);
      if (!(guarded.count(p.type) || (p.pointer && p.isConst) || text))
        continue;
      if (p.byval && !guarded.count(p.type))
        continue;
      R.count("arguments that must stay as they are");
      std::map<uint64_t, std::string> mem;
      pointersIn(p.to, 0, mem);
      for (auto &e : S.writes[k]) {
        if (p.byval && e.first == Direct)
          continue;
        if (p.isConst && e.first != Direct && !guarded.count(p.type) && !structOf(p.to))
          continue;
        std::string m = e.first == Direct ? "*" + p.name : mem.count(e.first) ? p.name + "->" + mem[e.first] : "memory of " + p.name;
        R.finding("changed", funcOf(e.second.at), whereOf(e.second.at), F->getName().str() + ":" + m,
                  F->getName().str() + " changes its argument: " + m + " is " + e.second.what + " in " + e.second.chain);
      }
    }
  }

  // not shared
  std::vector<Function *> makers = api;
  makers.insert(makers.end(), wrap.begin(), wrap.end());
  for (auto *F : makers) {
    bool wr = inWrapper(*F);
    bool sret = F->arg_size() && F->getArg(0)->hasStructRetAttr();
    if (!wr && !sret && !F->getReturnType()->isPointerTy())
      continue;
    std::vector<unsigned> src;
    for (unsigned k = 0; k < F->arg_size(); k++) {
      if (!F->getArg(k)->getType()->isPointerTy() || (sret && k == 0))
        continue;
      Param p = describe(F->getArg(k));
      if (!p.pointer || !p.to)
        continue;
      std::map<uint64_t, std::string> mem;
      pointersIn(p.to, 0, mem);
      bool c = guarded.count(p.type) || p.type == "at_bitmap" || p.type == "at_color";
      if (wr && !(p.isConst && !p.self && !mem.empty()))
        continue;
      if (!wr && !c && !(p.isConst && structOf(p.to)))
        continue;
      src.push_back(k);
    }
    // what a C++ function may change is what it hands back
    std::vector<unsigned> res;
    for (unsigned k = 0; wr && k < F->arg_size(); k++)
      if (F->getArg(k)->getType()->isPointerTy() && !F->getArg(k)->hasStructRetAttr()) {
        Param p = describe(F->getArg(k));
        if (p.pointer && !p.isConst)
          res.push_back(k);
      }
    if (src.empty() || (wr && res.empty() && !sret))
      continue;
    std::string fname = F->getName().str();
    Prep prep;
    prep.prune = true;
    prep.keep = {"autotrace_init"}; // refers to every reader and writer
    auto r = P.root(fname, prep);
    if (!r || !r->F)
      continue;
    std::string shown = F->getSubprogram() ? F->getSubprogram()->getName().str() : fname;
    Sharing sh(*r, *r->F, R, wr ? fname : shown);
    for (auto k : src) {
      Param p = describe(F->getArg(k));
      sh.sources.push_back({r->F->getArg(k), p});
      pointersIn(p.to, 0, sh.members[sh.sources.size() - 1]);
    }
    if (sret)
      sh.results.insert(r->F->getArg(0));
    for (auto k : res)
      sh.results.insert(r->F->getArg(k));
    R.count("functions that make a copy or a result");
    R.sample(fname);
    sh.run();
  }
}
