// C09: callbacks are optional, get their own data, and progress lies in 0..1.
//
// 1. No call goes through a callback that may be missing: every call through a value
//    that comes from a callback parameter, directly or through an object it was stored
//    in, is only reached when that value was found to be there.
// 2. A callback and its data travel together: wherever a callback is called, stored or
//    handed on, the data that goes with it is the parameter that came with it (or was
//    stored next to it).
// 3. The number handed to a progress callback is a quotient of polynomials over loop
//    counters and sizes. Counters range over what the conditions around the call leave
//    them; the quotient is multilinear in them, so its extremes are at the corners,
//    where the remaining polynomial in the sizes is shown to be non-negative.
#include "core.h"
#include <cmath>

namespace {

struct Callback {
  Argument *f, *data;
  std::string kind;
};

// what kind of callback a call of this shape is
std::string kindOf(FunctionType *T) {
  auto isInt = [](Type *t) { return t->isIntegerTy(); };
  if (T->getReturnType()->isVoidTy() && T->getNumParams() == 3 && T->getParamType(0)->isPointerTy() && isInt(T->getParamType(1)) &&
      T->getParamType(2)->isPointerTy())
    return "message";
  if (T->getReturnType()->isVoidTy() && T->getNumParams() == 2 && T->getParamType(0)->isFloatingPointTy() && T->getParamType(1)->isPointerTy())
    return "progress";
  if (isInt(T->getReturnType()) && T->getNumParams() == 1 && T->getParamType(0)->isPointerTy())
    return "cancel";
  return "";
}
// ... and what a parameter of this type takes
std::string kindOf(const DIType *T) {
  T = stripTypedefs(T);
  auto *D = dyn_cast_or_null<DIDerivedType>(T);
  if (!D || D->getTag() != dwarf::DW_TAG_pointer_type)
    return "";
  auto *S = dyn_cast_or_null<DISubroutineType>(stripTypedefs(D->getBaseType()));
  if (!S)
    return "";
  auto ts = S->getTypeArray();
  auto cls = [](const DIType *t) -> char {
    t = stripTypedefs(t);
    if (!t)
      return 'v';
    if (auto *b = dyn_cast<DIBasicType>(t))
      return b->getEncoding() == dwarf::DW_ATE_float ? 'f' : 'i';
    if (auto *c = dyn_cast<DICompositeType>(t))
      return c->getTag() == dwarf::DW_TAG_enumeration_type ? 'i' : 's';
    if (auto *d = dyn_cast<DIDerivedType>(t))
      return d->getTag() == dwarf::DW_TAG_pointer_type ? 'p' : '?';
    return '?';
  };
  std::string s;
  for (unsigned i = 0; i < ts.size(); i++)
    s += cls(ts[i]);
  if (s == "vpip")
    return "message";
  if (s == "vfp")
    return "progress";
  if (s == "ip")
    return "cancel";
  return "";
}

struct Check {
  Program &P;
  Report &R;
  std::unique_ptr<Root> W;
  std::map<Function *, std::vector<Callback>> cbs;
  std::map<Argument *, Callback> byArg;
  std::map<Function *, std::vector<CallBase *>> callers;
  std::set<Function *> open; // called by the user or through a table
  std::set<std::pair<int64_t, int64_t>> stored; // places of callback and data inside an object
  std::map<Function *, std::unique_ptr<DominatorTree>> dts;

  Check(Program &P, Report &R) : P(P), R(R) {}

  DominatorTree &dt(Function *F) {
    auto &d = dts[F];
    if (!d)
      d = std::make_unique<DominatorTree>(*F);
    return *d;
  }

  static bool at(Value *V, Value *&base, int64_t &off) {
    auto *L = dyn_cast<LoadInst>(V);
    if (!L)
      return false;
    base = L->getPointerOperand();
    off = 0;
    const DataLayout &DL = L->getModule()->getDataLayout();
    APInt o(64, 0);
    base = base->stripAndAccumulateConstantOffsets(DL, o, true);
    off = o.getSExtValue();
    return true;
  }
  static bool samePlace(Value *a, Value *b) {
    Value *x, *y;
    int64_t p, q;
    return at(a, x, p) && at(b, y, q) && x == y && p == q;
  }

  void collect() {
    for (auto &F : *W->M) {
      if (F.isDeclaration())
        continue;
      std::map<unsigned, std::pair<Argument *, const DIType *>> ps;
      for (auto &I : instructions(F))
        if (auto *D = dyn_cast<DbgValueInst>(&I))
          if (auto *A = dyn_cast_or_null<Argument>(D->getNumVariableLocationOps() ? D->getVariableLocationOp(0) : nullptr))
            if (unsigned n = D->getVariable()->getArg())
              if (D->getVariable()->getScope()->getSubprogram() == F.getSubprogram() && !ps.count(n))
                ps[n] = {A, D->getVariable()->getType()};
      for (auto &p : ps) {
        std::string k = kindOf(p.second.second);
        if (k.empty() || !p.second.first->getType()->isPointerTy())
          continue;
        // its data: the first untyped pointer after it
        Argument *d = nullptr;
        for (auto n = ps.upper_bound(p.first); n != ps.end() && !d; ++n) {
          if (!kindOf(n->second.second).empty())
            break;
          auto *T = dyn_cast_or_null<DIDerivedType>(stripTypedefs(n->second.second));
          if (T && T->getTag() == dwarf::DW_TAG_pointer_type && !T->getBaseType() && n->second.first->getType()->isPointerTy())
            d = n->second.first;
        }
        if (!d && !ps.count(p.first + 1) && p.second.first->getArgNo() + 1 < F.arg_size())
          d = F.getArg(p.second.first->getArgNo() + 1); // data that is never used
        if (d && !d->getType()->isPointerTy())
          d = nullptr;
        Callback c{p.second.first, d, k};
        cbs[&F].push_back(c);
        byArg[c.f] = c;
        R.count(k + " callback parameters");
      }
      // a callback that is never used has no debug value: nothing to check inside
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *G = calleeOf(CB))
            callers[G].push_back(CB);
    }
    std::set<std::string> api;
    for (auto *f : apiFunctions(P))
      api.insert(f->getName().str());
    for (auto &F : *W->M)
      if (!F.isDeclaration() && (api.count(F.getName().str()) || F.hasAddressTaken()))
        open.insert(&F);
  }

  // V cannot be null when control is at I
  bool present(Value *V, Instruction *I, std::set<std::pair<Value *, Instruction *>> &busy, std::string &why, int depth = 0) {
    V = V->stripPointerCasts();
    if (isa<Function>(V))
      return true;
    if (isa<ConstantPointerNull>(V)) {
      why = "a missing callback is handed on at " + whereOf(I);
      return false;
    }
    if (depth > 12 || !busy.insert({V, I}).second)
      return true;
    auto &DT = dt(I->getFunction());
    for (auto &x : instructions(*I->getFunction())) {
      auto *c = dyn_cast<ICmpInst>(&x);
      if (!c || !c->isEquality() || !isa<ConstantPointerNull>(c->getOperand(1)))
        continue;
      Value *t = c->getOperand(0)->stripPointerCasts();
      if (t != V && !samePlace(t, V))
        continue;
      if (onlyWhen(c, c->getPredicate() == CmpInst::ICMP_NE, I, DT))
        return true;
    }
    if (auto *ph = dyn_cast<PHINode>(V)) {
      for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
        if (!present(ph->getIncomingValue(k), ph->getIncomingBlock(k)->getTerminator(), busy, why, depth + 1))
          return false;
      return true;
    }
    if (auto *s = dyn_cast<SelectInst>(V)) {
      auto *c = dyn_cast<ICmpInst>(s->getCondition());
      for (int k = 0; k < 2; k++) {
        Value *arm = k ? s->getFalseValue() : s->getTrueValue();
        if (c && c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)) && c->getOperand(0)->stripPointerCasts() == arm->stripPointerCasts() &&
            (c->getPredicate() == CmpInst::ICMP_NE) == (k == 0))
          continue;
        if (!present(arm, I, busy, why, depth + 1))
          return false;
      }
      return true;
    }
    if (auto *A = dyn_cast<Argument>(V)) {
      Function *F = A->getParent();
      if (open.count(F)) {
        why = "the callback given to " + F->getName().str() + " may be missing";
        return false;
      }
      for (auto *CB : callers[F])
        if (A->getArgNo() < CB->arg_size() && !present(CB->getArgOperand(A->getArgNo()), CB, busy, why, depth + 1)) {
          if (why.empty())
            why = "from the call at " + whereOf(CB);
          return false;
        }
      return true;
    }
    why = "nothing tests whether there is one";
    return false;
  }
  // control is at I only when condition C has the given value
  bool onlyWhen(Value *C, bool val, Instruction *I, DominatorTree &DT, int depth = 0) {
    if (depth > 6)
      return false;
    for (auto *U : C->users()) {
      if (auto *br = dyn_cast<BranchInst>(U)) {
        if (!br->isConditional() || br->getCondition() != C || br->getSuccessor(0) == br->getSuccessor(1))
          continue;
        BasicBlockEdge e(br->getParent(), br->getSuccessor(val ? 0 : 1));
        if (DT.dominates(e, I->getParent()))
          return true;
      } else if (auto *b = dyn_cast<BinaryOperator>(U)) {
        if (b->getOpcode() == Instruction::Xor && (isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne())) {
          if (onlyWhen(b, !val, I, DT, depth + 1))
            return true;
        } else if ((b->getOpcode() == Instruction::And && val) || (b->getOpcode() == Instruction::Or && !val)) {
          if (b->getType()->isIntegerTy(1) && onlyWhen(b, val, I, DT, depth + 1))
            return true;
        }
      } else if (auto *s = dyn_cast<SelectInst>(U)) {
        // c && x, c || x
        if (s->getCondition() == C && s->getType()->isIntegerTy(1)) {
          Value *other = val ? s->getFalseValue() : s->getTrueValue();
          if (auto *k = dyn_cast<ConstantInt>(other))
            if (k->isOne() != val && onlyWhen(s, val, I, DT, depth + 1))
              return true;
        }
      } else if (auto *z = dyn_cast<CastInst>(U)) {
        if (z->getOpcode() == Instruction::ZExt || z->getOpcode() == Instruction::Trunc) {
          if (z->getType()->isIntegerTy(1) && onlyWhen(z, val, I, DT, depth + 1))
            return true;
          for (auto *V : z->users())
            if (auto *c = dyn_cast<ICmpInst>(V)) {
              auto *k = dyn_cast<ConstantInt>(c->getOperand(1));
              if (k && k->isZero() && c->isEquality() && onlyWhen(c, (c->getPredicate() == CmpInst::ICMP_NE) == val, I, DT, depth + 1))
                return true;
            } else if (auto *t = dyn_cast<TruncInst>(V)) {
              if (t->getType()->isIntegerTy(1) && onlyWhen(t, val, I, DT, depth + 1))
                return true;
            }
        }
      } else if (auto *ph = dyn_cast<PHINode>(U)) {
        // short-circuit: every other way into the phi gives the opposite value
        if (!ph->getType()->isIntegerTy(1))
          continue;
        bool ok = true;
        for (unsigned k = 0; k < ph->getNumIncomingValues() && ok; k++) {
          Value *v = ph->getIncomingValue(k);
          if (v == C)
            continue;
          if (auto *c = dyn_cast<ConstantInt>(v)) {
            ok = c->isOne() != val;
            continue;
          }
          // reached only over an edge on which C has the value
          ok = onlyWhenBlock(C, val, ph->getIncomingBlock(k), DT);
        }
        if (ok && onlyWhen(ph, val, I, DT, depth + 1))
          return true;
      }
    }
    return false;
  }
  bool onlyWhenBlock(Value *C, bool val, BasicBlock *B, DominatorTree &DT) {
    for (auto *U : C->users())
      if (auto *br = dyn_cast<BranchInst>(U))
        if (br->isConditional() && br->getCondition() == C && br->getSuccessor(0) != br->getSuccessor(1) &&
            DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(val ? 0 : 1)), B))
          return true;
    return false;
  }

  // where a callback value comes from
  void origins(Value *V, std::vector<Value *> &out, std::set<Value *> &seen) {
    V = V->stripPointerCasts();
    if (!seen.insert(V).second)
      return;
    if (auto *p = dyn_cast<PHINode>(V)) {
      for (auto &o : p->incoming_values())
        origins(o.get(), out, seen);
    } else if (auto *s = dyn_cast<SelectInst>(V)) {
      origins(s->getTrueValue(), out, seen);
      origins(s->getFalseValue(), out, seen);
    } else
      out.push_back(V);
  }

  void findStores() {
    for (auto &F : *W->M)
      for (auto &c : cbs[&F])
        for (auto *U : c.f->users())
          if (auto *S = dyn_cast<StoreInst>(U)) {
            if (S->getValueOperand() != c.f)
              continue;
            const DataLayout &DL = F.getParent()->getDataLayout();
            APInt o(64, 0);
            Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
            R.count("callbacks stored in an object");
            bool found = false;
            for (auto &I : instructions(F))
              if (auto *T = dyn_cast<StoreInst>(&I)) {
                APInt q(64, 0);
                Value *b2 = T->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, q, true);
                if (b2 != b || T == S)
                  continue;
                if (T->getValueOperand() == c.data) {
                  found = true;
                  stored.insert({o.getSExtValue(), q.getSExtValue()});
                }
              }
            if (!found && c.data)
              R.finding("data-lost", F.getName().str(), whereOf(S), c.kind,
                        "the " + c.kind + " callback is stored without the data that was given with it");
          }
  }

  // 1: goes together, 0: does not, -1: not known
  int together(Value *f, Value *d, int depth = 0) {
    f = f->stripPointerCasts();
    d = d->stripPointerCasts();
    if (depth > 8)
      return -1;
    if (isa<ConstantPointerNull>(f) || isa<Function>(f) || isa<UndefValue>(f))
      return 1;
    if (auto *ph = dyn_cast<PHINode>(f)) {
      int r = 1;
      for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) {
        Value *dv = d;
        if (auto *dp = dyn_cast<PHINode>(d))
          if (dp->getParent() == ph->getParent())
            dv = dp->getIncomingValueForBlock(ph->getIncomingBlock(k));
        int t = together(ph->getIncomingValue(k), dv, depth + 1);
        if (t == 0)
          return 0;
        r = std::min(r, t);
      }
      return r;
    }
    if (auto *s = dyn_cast<SelectInst>(f)) {
      auto *ds = dyn_cast<SelectInst>(d);
      bool same = ds && ds->getCondition() == s->getCondition();
      int a = together(s->getTrueValue(), same ? ds->getTrueValue() : d, depth + 1);
      int b = together(s->getFalseValue(), same ? ds->getFalseValue() : d, depth + 1);
      return a == 0 || b == 0 ? 0 : std::min(a, b);
    }
    if (auto *A = dyn_cast<Argument>(f)) {
      auto it = byArg.find(A);
      if (it == byArg.end() || !it->second.data)
        return -1;
      if (d == it->second.data)
        return 1;
      // the data or nothing: nothing goes with a missing callback only
      if (auto *s = dyn_cast<SelectInst>(d))
        if (auto *c = dyn_cast<ICmpInst>(s->getCondition()))
          if (c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)) && c->getOperand(0) == A)
            return together(f, c->getPredicate() == CmpInst::ICMP_NE ? s->getTrueValue() : s->getFalseValue(), depth + 1);
      if (auto *p = dyn_cast<PHINode>(d)) {
        int r = -1;
        for (auto &v : p->incoming_values())
          if (v.get() == it->second.data)
            r = -1;
        return r;
      }
      if (isa<Argument>(d) || isa<Constant>(d) || isa<AllocaInst>(d) || isa<Function>(d))
        return 0;
      if (isa<LoadInst>(d))
        return 0;
      return -1;
    }
    Value *b1, *b2;
    int64_t o1, o2;
    if (at(f, b1, o1)) {
      if (isa<Argument>(d) || isa<Constant>(d))
        return 0;
      if (!at(d, b2, o2))
        return -1;
      if (b1 != b2)
        return samePlace(b1, b2) ? stored.count({o1, o2}) : -1;
      return stored.empty() ? -1 : stored.count({o1, o2}) ? 1 : 0;
    }
    return -1;
  }

  void calls(const std::vector<std::pair<std::string, Function *>> &regs) {
    std::map<FunctionType *, Function *> table;
    for (auto &r : regs)
      if (Function *g = W->M->getFunction(r.second->getName()))
        if (!table.count(g->getFunctionType()) || cbs[g].size() > cbs[table[g->getFunctionType()]].size())
          table[g->getFunctionType()] = g;
    for (auto &F : *W->M)
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || isa<IntrinsicInst>(CB))
          continue;
        Function *G = calleeOf(CB);
        if (!G && table.count(CB->getFunctionType()))
          G = table[CB->getFunctionType()];
        if (G) {
          // handed on
          for (auto &c : cbs[G]) {
            if (!c.data || c.data->getArgNo() >= CB->arg_size() || !CB->getArgOperand(c.data->getArgNo())->getType()->isPointerTy())
              continue;
            R.count("callbacks handed on");
            int t = together(CB->getArgOperand(c.f->getArgNo()), CB->getArgOperand(c.data->getArgNo()));
            if (t < 0)
              R.count("callbacks handed on, data not decided");
            if (t == 0)
              R.finding("wrong-data", F.getName().str(), whereOf(CB), c.kind + "|" + G->getName().str(),
                        "the " + c.kind + " callback is handed to " + G->getName().str() + " with data that was not given with it");
          }
          continue;
        }
        std::string k = kindOf(CB->getFunctionType());
        if (k.empty())
          continue;
        std::vector<Value *> os;
        std::set<Value *> seen;
        origins(CB->getCalledOperand(), os, seen);
        bool ours = false;
        for (auto *o : os) {
          Value *b;
          int64_t off;
          if (auto *A = dyn_cast<Argument>(o))
            ours |= byArg.count(A) > 0;
          else if (at(o, b, off))
            for (auto &s : stored)
              ours |= s.first == off;
        }
        if (!ours)
          continue;
        R.count(k + " callback calls");
        std::set<std::pair<Value *, Instruction *>> busy;
        std::string why;
        if (!present(CB->getCalledOperand(), CB, busy, why))
          R.finding("missing-callback", F.getName().str(), whereOf(CB), k, "the " + k + " callback is called without it being known to be there: " + why);
        Value *d = CB->getArgOperand(CB->arg_size() - 1);
        int t = together(CB->getCalledOperand(), d);
        if (t < 0)
          R.count(k + " callback calls, data not decided");
        if (t == 0)
          R.finding("wrong-data", F.getName().str(), whereOf(CB), k, "the " + k + " callback is called with data that was not given with it");
        if (R.samples.size() < 4)
          R.sample(k + " callback called in " + F.getName().str() + " at " + whereOf(CB) + ": guarded, own data");
      }
  }
};

// ---- progress values --------------------------------------------------------
typedef std::map<std::vector<int>, double> Pol;
Pol pc(double c) {
  Pol p;
  if (c != 0)
    p[{}] = c;
  return p;
}
Pol padd(const Pol &a, const Pol &b, double k = 1) {
  Pol r = a;
  for (auto &m : b) {
    r[m.first] += k * m.second;
    if (std::fabs(r[m.first]) < 1e-12)
      r.erase(m.first);
  }
  return r;
}
Pol pmul(const Pol &a, const Pol &b) {
  Pol r;
  for (auto &m : a)
    for (auto &n : b) {
      std::vector<int> v = m.first;
      v.insert(v.end(), n.first.begin(), n.first.end());
      std::sort(v.begin(), v.end());
      r[v] += m.second * n.second;
      if (std::fabs(r[v]) < 1e-12)
        r.erase(v);
    }
  return r;
}
struct Rat {
  Pol n, d;
};

struct Progress {
  Root &R;
  Function &F;
  DominatorTree DT;
  LoopInfo LI;
  struct Sym {
    std::string key;
    Value *v = nullptr;      // counter
    unsigned bits = 32;
    Pol inner;               // truncated value
    bool trunc = false;
  };
  std::vector<Sym> syms;
  std::map<std::string, int> ids;
  Progress(Root &R, Function &F) : R(R), F(F), DT(F), LI(DT) {}

  int intern(const std::string &k, Value *v, unsigned bits) {
    auto it = ids.find(k);
    if (it != ids.end())
      return it->second;
    Sym s;
    s.key = k;
    s.v = v;
    s.bits = bits;
    syms.push_back(s);
    return ids[k] = syms.size() - 1;
  }
  std::string place(Value *p, int depth = 0) {
    APInt o(64, 0);
    Value *b = p->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), o, true);
    std::string s;
    auto *L = dyn_cast<LoadInst>(b);
    if (L && depth < 4)
      s = "*" + place(L->getPointerOperand(), depth + 1);
    else {
      raw_string_ostream os(s);
      b->printAsOperand(os, false);
    }
    return s + "+" + std::to_string(o.getSExtValue());
  }
  double most(const Pol &p) {
    double r = 0;
    for (auto &m : p) {
      double x = std::fabs(m.second);
      for (int a : m.first)
        x *= std::pow(2, syms[a].bits) - 1;
      r += x;
    }
    return r;
  }
  // the low bits of a value
  Pol cut(const Pol &p, Value *V, unsigned w) {
    int id = intern("trunc:" + show(V), nullptr, w);
    syms[id].trunc = true;
    syms[id].inner = p;
    return Pol{{{id}, 1}};
  }
  Pol integer(Value *V, int depth = 0) {
    if (auto *c = dyn_cast<ConstantInt>(V))
      return pc(c->getBitWidth() <= 64 ? (double)c->getSExtValue() : 0);
    unsigned w = V->getType()->getIntegerBitWidth();
    if (depth < 20) {
      if (auto *C = dyn_cast<CastInst>(V)) {
        if (isa<ZExtInst>(C) || isa<SExtInst>(C))
          return integer(C->getOperand(0), depth + 1);
        if (isa<TruncInst>(C)) {
          Pol p = integer(C->getOperand(0), depth + 1);
          if (most(p) < std::pow(2, w))
            return p;
          bool counter = p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->second == 1;
          if (counter) // a single value kept in a smaller variable
            return p;
          return cut(p, V, w);
        }
      }
      if (auto *B = dyn_cast<BinaryOperator>(V)) {
        auto op = B->getOpcode();
        if (op == Instruction::Add || op == Instruction::Sub)
          return padd(integer(B->getOperand(0), depth + 1), integer(B->getOperand(1), depth + 1), op == Instruction::Add ? 1 : -1);
        if (op == Instruction::Mul) {
          Pol p = pmul(integer(B->getOperand(0), depth + 1), integer(B->getOperand(1), depth + 1));
          return w < 32 && most(p) >= std::pow(2, w) ? cut(p, V, w) : p;
        }
        if (op == Instruction::Shl)
          if (auto *c = dyn_cast<ConstantInt>(B->getOperand(1)))
            return pmul(integer(B->getOperand(0), depth + 1), pc(std::pow(2, c->getZExtValue())));
      }
    }
    if (auto *L = dyn_cast<LoadInst>(V))
      return Pol{{{intern("at " + place(L->getPointerOperand()), nullptr, w)}, 1}};
    std::string s;
    raw_string_ostream os(s);
    V->printAsOperand(os, false);
    return Pol{{{intern(os.str(), isa<PHINode>(V) ? V : nullptr, w)}, 1}};
  }
  bool real(Value *V, Rat &r, int depth = 0) {
    if (depth > 30)
      return false;
    if (auto *c = dyn_cast<ConstantFP>(V)) {
      bool lost;
      APFloat f = c->getValueAPF();
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      r = {pc(f.convertToDouble()), pc(1)};
      return true;
    }
    if (auto *C = dyn_cast<CastInst>(V)) {
      if (isa<FPExtInst>(C) || isa<FPTruncInst>(C))
        return real(C->getOperand(0), r, depth + 1);
      if (isa<UIToFPInst>(C) || isa<SIToFPInst>(C)) {
        r = {integer(C->getOperand(0)), pc(1)};
        return true;
      }
      return false;
    }
    if (auto *I = dyn_cast<Instruction>(V)) {
      Rat a, b;
      if (I->getOpcode() == Instruction::FNeg) {
        if (!real(I->getOperand(0), a, depth + 1))
          return false;
        r = {pmul(a.n, pc(-1)), a.d};
        return true;
      }
      if (I->getNumOperands() == 2 && isa<BinaryOperator>(I)) {
        if (!real(I->getOperand(0), a, depth + 1) || !real(I->getOperand(1), b, depth + 1))
          return false;
        switch (I->getOpcode()) {
        case Instruction::FAdd:
        case Instruction::FSub:
          r = {padd(pmul(a.n, b.d), pmul(b.n, a.d), I->getOpcode() == Instruction::FAdd ? 1 : -1), pmul(a.d, b.d)};
          return true;
        case Instruction::FMul:
          r = {pmul(a.n, b.n), pmul(a.d, b.d)};
          return true;
        case Instruction::FDiv:
          r = {pmul(a.n, b.d), pmul(a.d, b.n)};
          return true;
        default:
          return false;
        }
      }
    }
    return false;
  }
  // largest value of a counter at I
  bool bound(int s, Instruction *I, Pol &max) {
    Value *v = syms[s].v;
    if (!v)
      return false;
    for (auto &x : instructions(F)) {
      auto *c = dyn_cast<ICmpInst>(&x);
      if (!c || c->isEquality())
        continue;
      for (int side = 0; side < 2; side++) {
        Value *a = c->getOperand(side), *b = c->getOperand(1 - side);
        if (!a->getType()->isIntegerTy())
          continue;
        while (isa<ZExtInst>(a) || isa<SExtInst>(a))
          a = cast<CastInst>(a)->getOperand(0);
        if (a != v)
          continue;
        auto pr = side ? c->getSwappedPredicate() : c->getPredicate();
        for (auto *U : c->users())
          if (auto *br = dyn_cast<BranchInst>(U))
            if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
              for (int k = 0; k < 2; k++) {
                auto q = k ? CmpInst::getInversePredicate(pr) : pr;
                bool lt = q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_SLT, le = q == CmpInst::ICMP_ULE || q == CmpInst::ICMP_SLE;
                if (!lt && !le)
                  continue;
                if (!DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(k)), I->getParent()))
                  continue;
                max = padd(integer(b), pc(1), lt ? -1 : 0);
                return true;
              }
      }
    }
    return false;
  }
  double eval(const Pol &p, std::vector<double> &val) {
    double r = 0;
    for (auto &m : p) {
      double x = m.second;
      for (int a : m.first)
        x *= val[a];
      r += x;
    }
    return r;
  }
  static Pol subst(const Pol &p, int s, const Pol &by) {
    Pol r;
    for (auto &m : p) {
      Pol t{{{}, m.second}};
      for (int a : m.first)
        t = pmul(t, a == s ? by : Pol{{{a}, 1}});
      r = padd(r, t);
    }
    return r;
  }
  // 1 within 0..1, 0 outside (example), -1 not decided
  int within(Instruction *I, Value *V, std::string &ex) {
    Rat q;
    if (!real(V, q))
      return -1;
    std::map<int, Pol> max;
    std::set<int> used, big;
    std::function<void(const Pol &)> note = [&](const Pol &p) {
      for (auto &m : p)
        for (int a : m.first)
          if (used.insert(a).second) {
            Pol u;
            if (syms[a].trunc)
              note(syms[a].inner);
            if (bound(a, I, u)) {
              max[a] = u;
              note(u);
            }
          }
    };
    note(q.n);
    note(q.d);
    for (auto &m : max)
      for (auto &t : m.second)
        if (t.first.size() == 1 && !max.count(t.first[0]))
          big.insert(t.first[0]); // at least one round
    std::vector<int> cs, fs;
    for (int a : used)
      if (max.count(a))
        cs.push_back(a);
      else
        fs.push_back(a);
    if (cs.size() > 6)
      return -1;
    for (int a : cs)
      for (auto &t : max[a])
        for (int b : t.first)
          if (max.count(b))
            return -1;
    // linear in every counter
    for (auto *p : {&q.n, &q.d})
      for (auto &m : *p)
        for (int a : cs)
          if (std::count(m.first.begin(), m.first.end(), a) > 1)
            return -1;
    for (auto &m : q.d)
      for (int a : cs)
        if (std::count(m.first.begin(), m.first.end(), a))
          return -1;
    bool unknownCounter = false, truncs = false;
    for (int a : fs) {
      // a number that is settled before the loop around the call is a size
      if (auto *ph = dyn_cast_or_null<PHINode>(syms[a].v))
        for (Loop *L = LI.getLoopFor(I->getParent()); L; L = L->getParentLoop())
          unknownCounter |= L->contains(ph->getParent());
      truncs |= syms[a].trunc;
    }
    if (unknownCounter)
      return -1;
    // proof
    bool proved = !truncs;
    for (unsigned m = 0; m < (1u << cs.size()) && proved; m++) {
      Pol n = q.n, d = q.d;
      for (unsigned k = 0; k < cs.size(); k++) {
        Pol by = m >> k & 1 ? max[cs[k]] : Pol();
        n = subst(n, cs[k], by);
      }
      for (int a : big) {
        Pol by = padd(Pol{{{a}, 1}}, pc(1));
        n = subst(n, a, by);
        d = subst(d, a, by);
      }
      auto nonneg = [](const Pol &p, double eps) {
        for (auto &t : p)
          if (t.second < -eps)
            return false;
        return true;
      };
      bool pos = nonneg(d, 0) && d.count({}) && d[{}] > 0;
      // 1e-6 is below the resolution of a float next to 1
      proved = pos && nonneg(n, 0) && nonneg(padd(d, n, -1), 1e-6);
    }
    if (proved)
      return 1;
    // counterexample: sizes from a grid, counters at a corner
    static const double grid[] = {0, 1, 2, 3, 7, 100, 1000};
    std::vector<int> base;
    for (int a : fs)
      if (!syms[a].trunc)
        base.push_back(a);
    if (base.size() > 4)
      return -1;
    std::vector<unsigned> ix(base.size(), 0);
    for (;;) {
      std::vector<double> val(syms.size(), 0);
      bool ok = true;
      for (unsigned k = 0; k < base.size(); k++) {
        val[base[k]] = grid[ix[k]];
        if (big.count(base[k]) && grid[ix[k]] < 1)
          ok = false;
      }
      for (unsigned m = 0; ok && m < (1u << cs.size()); m++) {
        for (unsigned k = 0; k < cs.size(); k++)
          val[cs[k]] = m >> k & 1 ? eval(max[cs[k]], val) : 0;
        bool neg = false;
        for (int a : cs)
          neg |= val[a] < 0;
        if (neg)
          continue;
        for (int a : fs)
          if (syms[a].trunc) {
            double x = eval(syms[a].inner, val), w = std::pow(2, syms[a].bits);
            val[a] = x - std::floor(x / w) * w;
          }
        double n = eval(q.n, val), d = eval(q.d, val);
        double x = d == 0 ? NAN : n / d;
        if (!(x >= -1e-6 && x <= 1 + 1e-6)) {
          raw_string_ostream os(ex);
          os << format("%.4g", x) << " for";
          for (int a : base)
            os << " " << syms[a].key << "=" << format("%g", val[a]);
          for (int a : cs)
            os << " " << syms[a].key << "=" << format("%g", val[a]);
          return 0;
        }
      }
      unsigned k = 0;
      while (k < ix.size() && ++ix[k] == sizeof grid / sizeof *grid)
        ix[k++] = 0;
      if (k == ix.size())
        break;
    }
    return -1;
  }
};

// all values a chosen number can have, with the place the choice is made
void choices(Value *V, Instruction *I, std::vector<std::pair<Value *, Instruction *>> &out, int depth = 0) {
  if (auto *p = dyn_cast<PHINode>(V))
    if (depth < 4) {
      for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
        choices(p->getIncomingValue(k), p->getIncomingBlock(k)->getTerminator(), out, depth + 1);
      return;
    }
  if (auto *s = dyn_cast<SelectInst>(V))
    if (depth < 4 && !isa<FCmpInst>(s->getCondition())) {
      choices(s->getTrueValue(), I, out, depth + 1);
      choices(s->getFalseValue(), I, out, depth + 1);
      return;
    }
  out.push_back({V, I});
}

} // namespace

void checkC09(Program &P, Report &R, const std::string &) {
  Check C(P, R);
  C.W = P.whole();
  C.collect();
  C.findStores();
  std::vector<std::pair<std::string, Function *>> regs;
  for (auto *adder : {"at_input_add_handler", "at_output_add_handler"})
    for (auto &r : P.registered(adder, R))
      regs.push_back(r);
  C.calls(regs);
  for (auto *k : {"message", "progress", "cancel"})
    if (!R.counts[std::string(k) + " callback calls"])
      R.fail(std::string("no call of a ") + k + " callback found");

  // progress values
  for (auto *f : apiFunctions(P)) {
    int n = paramOfType(*f, "at_progress_func");
    if (n < 0)
      continue;
    Prep p;
    p.invariantArg = 0;
    auto Rt = P.root(f->getName().str(), p);
    if (!Rt)
      continue;
    for (auto &F : *Rt->M) {
      if (F.isDeclaration())
        continue;
      std::unique_ptr<Progress> G;
      for (auto &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || calleeOf(CB) || kindOf(CB->getFunctionType()) != "progress")
          continue;
        if (!G)
          G = std::make_unique<Progress>(*Rt, F);
        R.count("progress values");
        std::vector<std::pair<Value *, Instruction *>> cs;
        choices(CB->getArgOperand(0), CB, cs);
        bool undecided = false;
        for (auto &c : cs) {
          std::string ex;
          int t = G->within(c.second, c.first, ex);
          if (t < 0)
            undecided = true;
          if (t == 0)
            R.finding("progress-range", funcOf(CB), whereOf(CB), "progress", "the progress reported can be " + ex);
        }
        if (undecided)
          R.count("progress values, range not decided");
        else
          R.sample("progress at " + whereOf(CB) + " lies in 0..1");
      }
    }
  }
  if (!R.counts["progress values"])
    R.fail("no progress value found");
}
