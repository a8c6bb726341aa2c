#include "writers.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/ValueTracking.h"

static const char *ARR = "_at_spline_list_array_type", *LST = "_at_spline_list_type", *SEG = "_at_spline_type";

Writer::Writer(const std::string &suf, std::unique_ptr<Root> R_, Layouts &L)
    : suffix(suf), R(std::move(R_)), F(R->F), L(L), SE(R->SE()), LI(R->LI()), DT(R->DT()) {
  file = F->getArg(0);
  shape = nullptr;
  for (auto &A : F->args())
    if (A.hasByValAttr())
      shape = &A;
  SL = L.sizeOf(LST);
  SP = L.sizeOf(SEG);
}

const SCEV *Writer::stripExt(const SCEV *S) {
  for (;;) {
    if (auto *C = dyn_cast<SCEVCastExpr>(S))
      S = C->getOperand();
    else
      return S;
  }
}

bool Writer::split(const SCEV *off, uint64_t size, uint64_t &field, const SCEV *&idx) {
  Type *I64 = Type::getInt64Ty(F->getContext());
  int64_t k = 0;
  std::function<const SCEV *(const SCEV *)> go = [&](const SCEV *S) -> const SCEV * {
    if (auto *C = dyn_cast<SCEVConstant>(S)) {
      k += C->getAPInt().getSExtValue();
      return SE.getZero(I64);
    }
    if (auto *A = dyn_cast<SCEVAddExpr>(S)) {
      const SCEV *r = SE.getZero(I64);
      for (auto *o : A->operands()) {
        auto *x = go(o);
        if (!x)
          return nullptr;
        r = SE.getAddExpr(r, x);
      }
      return r;
    }
    if (auto *A = dyn_cast<SCEVAddRecExpr>(S)) {
      if (!A->isAffine())
        return nullptr;
      auto *st = dyn_cast<SCEVConstant>(A->getStepRecurrence(SE));
      if (!st || st->getAPInt().getSExtValue() % (int64_t)size)
        return nullptr;
      auto *a = go(A->getStart());
      if (!a)
        return nullptr;
      return SE.getAddRecExpr(a, SE.getConstant(I64, st->getAPInt().getSExtValue() / (int64_t)size, true), A->getLoop(),
                              SCEV::FlagAnyWrap);
    }
    if (auto *M = dyn_cast<SCEVMulExpr>(S)) {
      auto *c = dyn_cast<SCEVConstant>(M->getOperand(0));
      if (!c || c->getAPInt().getSExtValue() % (int64_t)size)
        return nullptr;
      SmallVector<const SCEV *, 4> ops;
      ops.push_back(SE.getConstant(I64, c->getAPInt().getSExtValue() / (int64_t)size, true));
      for (unsigned i = 1; i < M->getNumOperands(); i++)
        ops.push_back(M->getOperand(i));
      return SE.getMulExpr(ops);
    }
    return nullptr;
  };
  auto *r = go(off);
  if (!r)
    return false;
  int64_t q = k / (int64_t)size, m = k % (int64_t)size;
  if (m < 0) {
    m += size;
    q--;
  }
  field = m;
  idx = SE.getAddExpr(r, SE.getConstant(I64, q, true));
  return true;
}

bool Writer::resolve(Value *P, Path &out, int depth) {
  if (depth > 8 || !P->getType()->isPointerTy())
    return false;
  const SCEV *S = SE.getSCEV(P);
  const SCEV *B = SE.getPointerBase(S);
  auto *U = dyn_cast<SCEVUnknown>(B);
  if (!U)
    return false;
  const SCEV *off = SE.getMinusSCEV(S, B);
  if (isa<SCEVCouldNotCompute>(off))
    return false;
  Value *BV = U->getValue();
  if (BV == shape) {
    auto *c = dyn_cast<SCEVConstant>(off);
    if (!c)
      return false;
    out.level = 0;
    out.off = c->getAPInt().getZExtValue();
    return true;
  }
  if (auto *Ld = dyn_cast<LoadInst>(BV)) {
    Path up;
    if (!resolve(Ld->getPointerOperand(), up, depth + 1))
      return false;
    if (up.level == 0 && L.nameAt(ARR, up.off) == "data") {
      out.level = 1;
      return split(off, SL, out.off, out.li);
    }
    if (up.level == 1 && L.nameAt(LST, up.off) == "data") {
      out.level = 2;
      out.li = up.li;
      return split(off, SP, out.off, out.si);
    }
    return false;
  }
  // a pointer merged from several places that all mean the same
  if (isa<PHINode>(BV) || isa<SelectInst>(BV)) {
    auto *c = dyn_cast<SCEVConstant>(off);
    if (!c)
      return false;
    SmallVector<Value *, 4> vs;
    if (auto *Ph = dyn_cast<PHINode>(BV)) {
      for (auto &v : Ph->incoming_values())
        vs.push_back(v.get());
    } else {
      vs.push_back(cast<SelectInst>(BV)->getTrueValue());
      vs.push_back(cast<SelectInst>(BV)->getFalseValue());
    }
    Path first;
    bool have = false;
    for (auto *v : vs) {
      if (v == BV || isa<UndefValue>(v))
        continue;
      Path q;
      if (!resolve(v, q, depth + 1))
        return false;
      if (have && (q.level != first.level || q.off != first.off || q.li != first.li || q.si != first.si))
        return false;
      first = q;
      have = true;
    }
    if (!have)
      return false;
    out = first;
    out.off += c->getAPInt().getZExtValue();
    return true;
  }
  return false;
}

bool Writer::leafOfLoad(LoadInst *Ld, Leaf &lf) { return leafAt(Ld, 0, lf); }

bool Writer::leafAt(LoadInst *Ld, uint64_t byte, Leaf &lf) {
  Path p;
  if (!resolve(Ld->getPointerOperand(), p))
    return false;
  p.off += byte;
  if (p.level == 0)
    lf.field = "shape." + L.nameAt(ARR, p.off);
  else if (p.level == 1)
    lf.field = L.nameAt(LST, p.off);
  else
    lf.field = L.nameAt(SEG, p.off);
  lf.li = p.li;
  lf.si = p.si;
  return true;
}

const Value *Writer::object(Value *P) {
  const Value *O = getUnderlyingObject(P, 12);
  if (isa<AllocaInst>(O) || isa<GlobalVariable>(O) || isa<Argument>(O))
    return O;
  if (auto *CB = dyn_cast<CallBase>(O)) {
    StringRef n = calleeName(CB);
    if (n == "malloc" || n == "calloc" || n == "realloc") {
      // kept apart while the pointer itself is not stored anywhere
      bool stored = false;
      std::set<const Value *> seen;
      std::vector<const Value *> work{CB};
      while (!work.empty()) {
        auto *v = work.back();
        work.pop_back();
        if (!seen.insert(v).second)
          continue;
        for (auto *u : v->users()) {
          if (auto *St = dyn_cast<StoreInst>(u)) {
            if (St->getValueOperand() == v)
              stored = true;
          } else if (isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u))
            work.push_back(u);
        }
      }
      if (!stored)
        return O;
    }
  }
  return nullptr; // some heap object
}

// values stored to a small local variable that may be there at AT
std::vector<Value *> Writer::reachingStores(Value *P, Instruction *at, bool &complete) {
  std::vector<Value *> r;
  complete = true;
  std::set<BasicBlock *> seen;
  std::function<void(BasicBlock *, BasicBlock::reverse_iterator)> go = [&](BasicBlock *B, BasicBlock::reverse_iterator it) {
    for (; it != B->rend(); ++it) {
      if (auto *St = dyn_cast<StoreInst>(&*it))
        if (St->getPointerOperand()->stripPointerCasts() == P->stripPointerCasts()) {
          r.push_back(St->getValueOperand());
          return;
        }
    }
    if (pred_empty(B))
      complete = false;
    for (auto *p : predecessors(B))
      if (seen.insert(p).second)
        go(p, p->rbegin());
  };
  go(at->getParent(), std::next(at->getReverseIterator()));
  return r;
}

// what is in memory at P: values stored there, and leaves copied there as a whole
const Writer::Deps &Writer::contentDeps(Value *P, Instruction *at) {
  static const Deps none;
  const Value *O = object(P);
  if (O && isa<Argument>(O))
    return none;
  outObjects.insert(O);
  if (auto *A = dyn_cast_or_null<AllocaInst>(O)) {
    if (!A->getAllocatedType()->isAggregateType()) {
      auto key = std::make_pair((const Value *)A, (const Instruction *)at);
      auto it = localDeps.find(key);
      if (it != localDeps.end())
        return it->second;
      bool c;
      Deps d;
      for (auto *v : reachingStores(const_cast<AllocaInst *>(A), at, c))
        d.vals.push_back(v);
      return localDeps[key] = d;
    }
  }
  if (auto *G = dyn_cast_or_null<GlobalVariable>(O))
    if (G->isConstant())
      return none;
  auto it = objDeps.find(O);
  if (it != objDeps.end())
    return it->second;
  objDeps[O]; // while it is being made
  Deps d;
  for (auto &I : instructions(*F)) {
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      if (object(St->getPointerOperand()) == O)
        d.vals.push_back(St->getValueOperand());
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      StringRef n = calleeName(CB);
      if (n == "sprintf" || n == "snprintf" || n == "strcpy" || n == "strcat" || n == "memcpy" || n.starts_with("llvm.memcpy") ||
          n.starts_with("llvm.memmove") || n == "strncpy" || n == "memmove") {
        if (object(CB->getArgOperand(0)) != O)
          continue;
        for (unsigned i = 1; i < CB->arg_size(); i++) {
          Value *a = CB->getArgOperand(i);
          if (!a->getType()->isPointerTy()) {
            d.vals.push_back(a);
            continue;
          }
          if (!(n.contains("mem") || n.starts_with("str")) || object(a) == O)
            continue;
          Path q;
          if (resolve(a, q)) { // whole-structure copy from the shape
            for (uint64_t o = 0; o < SP && q.level == 2; o += 4) {
              Leaf lf;
              lf.field = L.nameAt(SEG, o);
              lf.li = q.li;
              lf.si = q.si;
              d.direct.insert(lf);
            }
          } else
            d.mem.push_back({a, &I});
        }
      }
    }
  }
  return objDeps[O] = d;
}

const Writer::Deps &Writer::deps(Value *V) {
  auto it = valDeps.find(V);
  if (it != valDeps.end())
    return it->second;
  Deps d;
  if (auto *Ld = dyn_cast<LoadInst>(V)) {
    Leaf lf;
    if (leafOfLoad(Ld, lf)) {
      d.direct.insert(lf);
      // a load over several members
      if (Ld->getType()->isIntegerTy())
        for (unsigned b = 1; b < Ld->getType()->getIntegerBitWidth() / 8; b++)
          if (leafAt(Ld, b, lf) && !lf.field.empty())
            d.direct.insert(lf);
    } else
      d.mem.push_back({Ld->getPointerOperand(), Ld});
  } else if (auto *CB = dyn_cast<CallBase>(V)) {
    if (!isAllocator(calleeName(CB)))
      for (auto &a : CB->args())
        if (!a.get()->getType()->isPointerTy())
          d.vals.push_back(a.get());
  } else if (auto *I = dyn_cast<Instruction>(V)) {
    if (!isa<GetElementPtrInst>(I) && !isa<AllocaInst>(I))
      for (auto &o : I->operands())
        if (!isa<BasicBlock>(o.get()))
          d.vals.push_back(o.get());
  }
  return valDeps[V] = d;
}

void Writer::gather(std::vector<Value *> work, std::vector<std::pair<Value *, Instruction *>> mem, Leaves &r) {
  std::set<Value *> seen;
  std::set<const Deps *> seenMem;
  auto use = [&](const Deps &d) {
    r.insert(d.direct.begin(), d.direct.end());
    work.insert(work.end(), d.vals.begin(), d.vals.end());
    mem.insert(mem.end(), d.mem.begin(), d.mem.end());
  };
  while (!work.empty() || !mem.empty()) {
    if (!mem.empty()) {
      auto m = mem.back();
      mem.pop_back();
      auto &d = contentDeps(m.first, m.second);
      if (seenMem.insert(&d).second)
        use(d);
      continue;
    }
    Value *v = work.back();
    work.pop_back();
    if (!isa<Instruction>(v) || !seen.insert(v).second)
      continue;
    use(deps(v));
  }
}

Leaves Writer::contents(Value *P, Instruction *at) {
  Leaves r;
  gather({}, {{P, at}}, r);
  return r;
}

const Leaves &Writer::leaves(Value *V) {
  auto it = memo.find(V);
  if (it != memo.end())
    return it->second;
  Leaves r;
  gather({V}, {}, r);
  return memo[V] = r;
}

static bool toConsole(Value *V) {
  if (auto *Ld = dyn_cast<LoadInst>(V))
    if (auto *G = dyn_cast<GlobalVariable>(Ld->getPointerOperand()))
      return G->getName() == "stderr" || G->getName() == "stdout";
  return false;
}

void Writer::collect() {
  ReversePostOrderTraversal<Function *> RPO(F);
  std::vector<Emit> sinks;
  std::map<Instruction *, size_t> pos;
  size_t n = 0;
  for (auto *B : RPO)
    for (auto &I : *B) {
      pos[&I] = n++;
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB)
        continue;
      StringRef nm = calleeName(CB);
      Emit e;
      e.I = &I;
      e.sink = true;
      Value *fp = nullptr;
      if (nm == "fprintf" && CB->arg_size() >= 2) {
        fp = CB->getArgOperand(0);
        bool ok;
        e.fmt = constString(CB->getArgOperand(1), &ok);
        if (!ok)
          e.args.push_back(CB->getArgOperand(1));
        for (unsigned i = 2; i < CB->arg_size(); i++)
          e.args.push_back(CB->getArgOperand(i));
      } else if ((nm == "fputs" || nm == "fputc" || nm == "putc" || nm == "_IO_putc") && CB->arg_size() == 2) {
        fp = CB->getArgOperand(1);
        e.args.push_back(CB->getArgOperand(0));
      } else if (nm == "fwrite" && CB->arg_size() == 4) {
        fp = CB->getArgOperand(3);
        e.args.push_back(CB->getArgOperand(0));
      } else
        continue;
      if (toConsole(fp))
        continue;
      for (auto *a : e.args) {
        Leaves l;
        if (a->getType()->isPointerTy()) {
          if (!isa<Constant>(a))
            l = contents(a, &I);
        } else
          l = leaves(a);
        // a pointer chosen by a condition carries that condition
        if (auto *S = dyn_cast<SelectInst>(a))
          (void)S;
        e.all.insert(l.begin(), l.end());
        e.al.push_back(l);
      }
      sinks.push_back(e);
    }
  // stores to buffers that are written out later
  std::vector<Emit> bufs;
  std::set<const Value *> objs = outObjects;
  for (auto *B : RPO)
    for (auto &I : *B) {
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        const Value *O = object(St->getPointerOperand());
        if (!objs.count(O))
          continue;
        if (auto *A = dyn_cast_or_null<AllocaInst>(O))
          if (!A->getAllocatedType()->isAggregateType())
            continue;
        Emit e;
        e.I = &I;
        e.sink = false;
        e.args.push_back(St->getValueOperand());
        e.al.push_back(leaves(St->getValueOperand()));
        e.all = e.al[0];
        if (!e.all.empty())
          bufs.push_back(e);
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        StringRef nm = calleeName(CB);
        if (nm == "sprintf" || nm == "snprintf") {
          if (!objs.count(object(CB->getArgOperand(0))))
            continue;
          Emit e;
          e.I = &I;
          e.sink = false;
          for (unsigned i = 1; i < CB->arg_size(); i++)
            if (!CB->getArgOperand(i)->getType()->isPointerTy()) {
              e.args.push_back(CB->getArgOperand(i));
              e.al.push_back(leaves(CB->getArgOperand(i)));
              e.all.insert(e.al.back().begin(), e.al.back().end());
            }
          if (!e.all.empty())
            bufs.push_back(e);
        }
      }
    }
  emits = sinks;
  emits.insert(emits.end(), bufs.begin(), bufs.end());
  std::stable_sort(emits.begin(), emits.end(), [&](const Emit &a, const Emit &b) { return pos[a.I] < pos[b.I]; });
}


bool deadEnd(BasicBlock *B) {
  std::set<BasicBlock *> seen;
  std::vector<BasicBlock *> w{B};
  while (!w.empty()) {
    auto *b = w.back();
    w.pop_back();
    if (!seen.insert(b).second)
      continue;
    if (isa<ReturnInst>(b->getTerminator()))
      return false;
    if (seen.size() > 200)
      return false;
    for (auto *s : successors(b))
      w.push_back(s);
  }
  return true;
}

bool Writer::isCounter(const SCEV *S, const Loop *&Lp) {
  S = stripExt(S);
  auto *A = dyn_cast<SCEVAddRecExpr>(S);
  if (!A || !A->isAffine() || !A->getStart()->isZero() || !A->getStepRecurrence(SE)->isOne())
    return false;
  Lp = A->getLoop();
  return true;
}

// remove what does not matter for a count that is known to be positive and small
static const SCEV *normCount(ScalarEvolution &SE, const SCEV *S) {
  if (auto *C = dyn_cast<SCEVCastExpr>(S)) {
    if (isa<SCEVPtrToIntExpr>(C))
      return S;
    return normCount(SE, C->getOperand());
  }
  if (auto *M = dyn_cast<SCEVMinMaxExpr>(S)) {
    if (isa<SCEVUMaxExpr>(M) || isa<SCEVSMaxExpr>(M)) {
      // max(1,n), max(0,n): n is positive
      SmallVector<const SCEV *, 4> rest;
      for (auto *o : M->operands()) {
        auto *c = dyn_cast<SCEVConstant>(o);
        if (c && c->getAPInt().getSExtValue() <= 1 && c->getAPInt().getSExtValue() >= 0)
          continue;
        rest.push_back(o);
      }
      if (rest.size() == 1)
        return normCount(SE, rest[0]);
    }
  }
  if (auto *A = dyn_cast<SCEVAddExpr>(S)) {
    SmallVector<const SCEV *, 4> ops;
    for (auto *o : A->operands())
      ops.push_back(normCount(SE, o));
    Type *T = nullptr;
    for (auto *o : ops)
      if (!T || SE.getTypeSizeInBits(o->getType()) > SE.getTypeSizeInBits(T))
        T = o->getType();
    for (auto *&o : ops)
      if (o->getType() != T && !o->getType()->isPointerTy())
        o = SE.getNoopOrSignExtend(o, T);
    if (T->isPointerTy())
      return S;
    return SE.getAddExpr(ops);
  }
  if (auto *D = dyn_cast<SCEVUDivExpr>(S)) {
    // (c*x [+ c-1]) / c
    auto *c = dyn_cast<SCEVConstant>(D->getRHS());
    if (!c)
      return S;
    int64_t cv = c->getAPInt().getSExtValue();
    const SCEV *l = D->getLHS();
    int64_t k = 0;
    if (auto *A = dyn_cast<SCEVAddExpr>(l)) {
      const SCEV *m = nullptr;
      for (auto *o : A->operands()) {
        if (auto *cc = dyn_cast<SCEVConstant>(o))
          k += cc->getAPInt().getSExtValue();
        else if (!m)
          m = o;
        else
          return S;
      }
      l = m;
    }
    if (auto *M = dyn_cast_or_null<SCEVMulExpr>(l))
      if (auto *mc = dyn_cast<SCEVConstant>(M->getOperand(0)))
        if (mc->getAPInt().getSExtValue() == cv && M->getNumOperands() == 2) {
          const SCEV *x = normCount(SE, M->getOperand(1));
          int64_t q = k >= 0 ? k / cv : -((-k + cv - 1) / cv);
          return q ? SE.getAddExpr(x, SE.getConstant(x->getType(), q, true)) : x;
        }
  }
  return S;
}

const SCEV *Writer::iterations(Loop *L, BasicBlock *X, BasicBlock *at) {
  const SCEV *n = SE.getExitCount(L, X);
  if (isa<SCEVCouldNotCompute>(n)) {
    // i <= N, where N is not the largest number there is
    auto *br = dyn_cast<BranchInst>(X->getTerminator());
    auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!ic || !ic->getOperand(0)->getType()->isIntegerTy())
      return nullptr;
    auto pr = ic->getPredicate();
    const SCEV *l = SE.getSCEV(ic->getOperand(0)), *r = SE.getSCEV(ic->getOperand(1));
    if (SE.isLoopInvariant(l, L)) {
      std::swap(l, r);
      pr = CmpInst::getSwappedPredicate(pr);
    }
    if (!L->contains(br->getSuccessor(0)))
      pr = CmpInst::getInversePredicate(pr);
    auto *a = dyn_cast<SCEVAddRecExpr>(l);
    if (!a || a->getLoop() != L || !a->isAffine() || !a->getStepRecurrence(SE)->isOne() || !SE.isLoopInvariant(r, L) ||
        (pr != CmpInst::ICMP_ULE && pr != CmpInst::ICMP_SLE))
      return nullptr;
    n = SE.getAddExpr(SE.getMinusSCEV(r, a->getStart()), SE.getOne(r->getType()));
  }
  bool after = X != at && DT.dominates(at, X); // AT ran before the test
  if (X == at)
    after = true;
  n = normCount(SE, n);
  if (after)
    n = normCount(SE, SE.getAddExpr(n, SE.getOne(n->getType())));
  return n;
}

bool Writer::isLength(const SCEV *n, int level, const SCEV *li) {
  n = stripExt(n);
  auto *U = dyn_cast<SCEVUnknown>(n);
  if (!U)
    return false;
  auto *Ld = dyn_cast<LoadInst>(U->getValue());
  Leaf lf;
  if (!Ld || !leafOfLoad(Ld, lf))
    return false;
  if (level == 1)
    return lf.field == "shape.length";
  return lf.field == "length" && lf.li == li && !lf.si;
}

bool isAllocator(StringRef n) {
  return n == "malloc" || n == "calloc" || n == "realloc" || n == "strdup" || n == "_Znwm" || n == "_Znam";
}

std::unique_ptr<Writer> specialise(Program &P, Function *f, const std::string &suf, const Spec &s) {
  Prep p;
  for (auto &A : f->args())
    if (A.hasByValAttr())
      p.invariantArg = A.getArgNo();
  auto r = P.root(f->getName().str(), p);
  if (p.invariantArg < 0)
    return nullptr;
  {
    Writer w(suf, std::move(r), P.L);
    std::vector<std::pair<Instruction *, Constant *>> rep;
    std::vector<LoadInst *> wide;
    for (auto &I : instructions(*w.F)) {
      if (auto *Ld = dyn_cast<LoadInst>(&I)) {
        Leaf lf;
        if (!w.leafOfLoad(Ld, lf))
          continue;
        if (StringRef(lf.field).startswith("color.") && Ld->getType()->isIntegerTy() && Ld->getType()->getIntegerBitWidth() > 8 &&
            Ld->getType()->getIntegerBitWidth() % 8 == 0)
          wide.push_back(Ld);
        if (lf.field == "shape.background_color" && s.background == 0 && Ld->getType()->isPointerTy())
          rep.push_back({Ld, ConstantPointerNull::get(cast<PointerType>(Ld->getType()))});
        if (!Ld->getType()->isIntegerTy())
          continue;
        if (lf.field == "clockwise" && s.clockwise >= 0)
          rep.push_back({Ld, ConstantInt::get(Ld->getType(), s.clockwise)});
        if (lf.field == "degree" && s.degree >= 0)
          rep.push_back({Ld, ConstantInt::get(Ld->getType(), s.degree)});
        if (lf.field == "shape.centerline" && s.centerline >= 0)
          rep.push_back({Ld, ConstantInt::get(Ld->getType(), s.centerline)});
        if (lf.field == "open" && s.open >= 0)
          rep.push_back({Ld, ConstantInt::get(Ld->getType(), s.open)});
      } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
        // allocations succeed, the file is open
        if (C->isEquality() && isa<ConstantPointerNull>(C->getOperand(1))) {
          Value *o = C->getOperand(0)->stripPointerCasts();
          if (auto *bl = dyn_cast<LoadInst>(o)) {
            Leaf lf;
            if (s.background == 1 && w.leafOfLoad(bl, lf) && lf.field == "shape.background_color")
              rep.push_back({C, ConstantInt::get(C->getType(), C->getPredicate() == CmpInst::ICMP_NE)});
            continue;
          }
          auto *cb = dyn_cast<CallBase>(o);
          if (o == w.file || (cb && isAllocator(calleeName(cb))))
            rep.push_back({C, ConstantInt::get(C->getType(), C->getPredicate() == CmpInst::ICMP_NE)});
          continue;
        }
        // outlines have segments
        auto *c = dyn_cast<ConstantInt>(C->getOperand(1));
        auto *Ld = dyn_cast<LoadInst>(C->getOperand(0));
        Leaf lf;
        if (!c || !Ld || !w.leafOfLoad(Ld, lf) || lf.field != "length")
          continue;
        int64_t k = c->getSExtValue();
        auto pr = C->getPredicate();
        int v = -1;
        if (k == 0 && pr == CmpInst::ICMP_EQ)
          v = 0;
        if (k == 0 && (pr == CmpInst::ICMP_NE || pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT))
          v = 1;
        if (k == 1 && (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT))
          v = 0;
        if (k == 1 && (pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGE))
          v = 1;
        if (v >= 0)
          rep.push_back({C, ConstantInt::get(C->getType(), v)});
      }
    }
    r = std::move(w.R);
    for (auto &x : rep)
      x.first->replaceAllUsesWith(x.second);
    // a colour loaded as one number: channel by channel
    for (auto *Ld : wide) {
      IRBuilder<> B(Ld);
      Value *sum = nullptr;
      for (unsigned b = 0; b < Ld->getType()->getIntegerBitWidth() / 8; b++) {
        Value *p = B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), Ld->getPointerOperand(), b);
        auto *l = B.CreateLoad(B.getInt8Ty(), p);
        l->copyMetadata(*Ld, {LLVMContext::MD_invariant_load});
        Value *v = B.CreateShl(B.CreateZExt(l, Ld->getType()), 8 * b);
        sum = sum ? B.CreateOr(sum, v) : v;
      }
      Ld->replaceAllUsesWith(sum);
    }
  }
  r->simplify();
  auto w = std::make_unique<Writer>(suf, std::move(r), P.L);
  if (!w->shape || !w->SL || !w->SP)
    return nullptr;
  w->collect();
  return w;
}

std::vector<std::pair<Function *, std::string>> writerList(Program &P, Report &R) {
  std::map<Function *, std::string> sufs;
  std::vector<Function *> order;
  for (auto &x : P.registered("at_output_add_handler", R)) {
    if (!sufs.count(x.second))
      order.push_back(x.second);
    std::string &s = sufs[x.second];
    if (("," + s + ",").find("," + x.first + ",") == std::string::npos)
      s += (s.empty() ? "" : ",") + x.first;
  }
  std::vector<std::pair<Function *, std::string>> r;
  for (auto *f : order)
    r.push_back({f, sufs[f]});
  return r;
}

std::vector<std::unique_ptr<Writer>> buildWriters(Program &P, Report &R) {
  std::vector<std::unique_ptr<Writer>> ws;
  for (auto &x : writerList(P, R)) {
    Spec s;
    if (getenv("DEG"))
      s.degree = atoi(getenv("DEG"));
    if (getenv("CL"))
      s.centerline = atoi(getenv("CL"));
    auto w = specialise(P, x.first, x.second, s);
    if (!w) {
      R.fail("writer " + x.first->getName().str() + ": the shape argument or its layout was not found");
      continue;
    }
    ws.push_back(std::move(w));
  }
  return ws;
}
