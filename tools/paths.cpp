#include "paths.h"

PathSearch::Val PathSearch::eval(Value *V, const Env &e, int depth) {
  Val r;
  if (depth > 12)
    return r;
  auto cst = [](int64_t c) {
    Val v;
    v.k = Val::Const;
    v.c = c;
    return v;
  };
  if (tokens.count(V)) {
    r.k = Val::Token;
    return r;
  }
  if (!assumed.empty()) {
    auto it = assumed.find(V);
    if (it != assumed.end())
      return cst(it->second);
  }
  int64_t g;
  if (given && given(V, g))
    return cst(g);
  if (isa<AllocaInst>(V)) {
    r.k = Val::Positive;
    return r;
  }
  if (auto *c = dyn_cast<ConstantInt>(V))
    return c->getBitWidth() <= 64 ? cst(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()) : r;
  if (isa<ConstantPointerNull>(V))
    return cst(0);
  if (positive && (isa<LoadInst>(V) || isa<Argument>(V)) && positive(V)) {
    r.k = Val::Positive;
    return r;
  }
  if (auto *p = dyn_cast<PHINode>(V)) {
    auto it = e.find(p);
    return it == e.end() ? r : it->second;
  }
  auto *I = dyn_cast<Instruction>(V);
  if (!I)
    return r;
  if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I)) {
    Val v = eval(I->getOperand(0), e, depth + 1);
    if (isa<TruncInst>(I)) {
      if (v.k == Val::Const && I->getType()->getIntegerBitWidth() == 1)
        v.c &= 1;
      else if (v.k == Val::Positive)
        return r;
    }
    if (isa<SExtInst>(I) && v.k == Val::Const && I->getOperand(0)->getType()->isIntegerTy(1))
      v.c = v.c ? -1 : 0;
    return v;
  }
  if (isa<CastInst>(I)) {
    Val v = tokens.empty() ? r : eval(I->getOperand(0), e, depth + 1);
    return v.k == Val::Token ? v : r;
  }
  if (auto *s = dyn_cast<SelectInst>(I)) {
    Val c = eval(s->getCondition(), e, depth + 1);
    if (c.k == Val::Const)
      return eval(c.c ? s->getTrueValue() : s->getFalseValue(), e, depth + 1);
    Val a = eval(s->getTrueValue(), e, depth + 1), b = eval(s->getFalseValue(), e, depth + 1);
    if (a.k == Val::Token || b.k == Val::Token)
      return a.k == Val::Token ? a : b;
    return a == b ? a : r;
  }
  if (auto *b = dyn_cast<BinaryOperator>(I)) {
    Val x = eval(b->getOperand(0), e, depth + 1), y = eval(b->getOperand(1), e, depth + 1);
    auto zero = [](Val v) { return v.k == Val::Const && v.c == 0; };
    switch (b->getOpcode()) {
    case Instruction::Add:
      if (x.k == Val::Const && y.k == Val::Const) { // not counted beyond 1
        if (x.c + y.c > 1)
          r.k = Val::Positive;
        else if (x.c + y.c >= -1)
          return cst(x.c + y.c);
        return r;
      }
      if (y.k == Val::NonNegative)
        std::swap(x, y);
      if (x.k == Val::NonNegative && (y.k == Val::NonNegative || y.k == Val::Positive))
        return y;
      if (x.k == Val::NonNegative && y.k == Val::Const && y.c >= 0) {
        if (y.c > 0)
          x.k = Val::Positive;
        return x;
      }
      if (x.k == Val::Token || y.k == Val::Token)
        return r;
      if (x.k == Val::Positive && y.k != Val::Unknown && (y.k == Val::Positive || y.c >= 0))
        return x;
      if (y.k == Val::Positive && x.k == Val::Const && x.c >= 0)
        return y;
      return r;
    case Instruction::Sub:
      return x.k == Val::Const && y.k == Val::Const && x.c - y.c >= -1 && x.c - y.c <= 1 ? cst(x.c - y.c) : r;
    case Instruction::And:
      if (zero(x) || zero(y))
        return cst(0);
      return x.k == Val::Const && y.k == Val::Const ? cst(x.c & y.c) : r;
    case Instruction::Or:
      if (b->getType()->isIntegerTy(1) && ((x.k == Val::Const && x.c) || (y.k == Val::Const && y.c)))
        return cst(1);
      return x.k == Val::Const && y.k == Val::Const ? cst(x.c | y.c) : r;
    case Instruction::Xor:
      if (x.k == Val::Const && y.k == Val::Const)
        return cst(b->getType()->isIntegerTy(1) ? (x.c ^ y.c) & 1 : x.c ^ y.c);
      return r;
    default:
      return r;
    }
  }
  if (auto *c = dyn_cast<ICmpInst>(I)) {
    if (remember) {
      Cond q;
      bool neg;
      if (condOf(c, q, neg, e, depth)) {
        auto it = facts.find(q);
        if (it != facts.end())
          return cst(it->second != neg);
      }
    }
    Val x = eval(c->getOperand(0), e, depth + 1), y = eval(c->getOperand(1), e, depth + 1);
    auto p = c->getPredicate();
    if (y.k == Val::Positive && x.k == Val::Const) {
      std::swap(x, y);
      p = c->getSwappedPredicate();
    }
    if (x.k == Val::Const && y.k == Val::Const) {
      uint64_t a = x.c, b = y.c;
      switch (p) {
      case CmpInst::ICMP_EQ: return cst(a == b);
      case CmpInst::ICMP_NE: return cst(a != b);
      case CmpInst::ICMP_UGT: return cst(a > b);
      case CmpInst::ICMP_UGE: return cst(a >= b);
      case CmpInst::ICMP_ULT: return cst(a < b);
      case CmpInst::ICMP_ULE: return cst(a <= b);
      case CmpInst::ICMP_SGT: return cst(x.c > y.c);
      case CmpInst::ICMP_SGE: return cst(x.c >= y.c);
      case CmpInst::ICMP_SLT: return cst(x.c < y.c);
      case CmpInst::ICMP_SLE: return cst(x.c <= y.c);
      default: return r;
      }
    }
    if (x.k == Val::Positive && y.k == Val::Const && y.c <= 0) {
      if (y.c < 0 && (c->isUnsigned() || c->getOperand(0)->getType()->getPrimitiveSizeInBits() < 32)) // 255 as a byte
        return r;
      switch (p) {
      case CmpInst::ICMP_EQ: return cst(0);
      case CmpInst::ICMP_NE: return cst(1);
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return cst(1);
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return cst(0);
      default: return r;
      }
    }
    if (x.k == Val::Positive && y.k == Val::Const && y.c == 1) {
      if (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE)
        return cst(1);
      if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT)
        return cst(0);
    }
  }
  return r;
}

// a comparison of values computed once only, in one form for all ways to write it
bool PathSearch::condOf(Value *V, Cond &c, bool &negated, const Env &e, int depth) {
  auto *I = dyn_cast<ICmpInst>(V);
  if (!I)
    return false;
  Value *a = I->getOperand(0), *b = I->getOperand(1);
  auto p = I->getPredicate();
  for (auto *x : {&a, &b})
    if (same)
      if (Value *r = same(*x)) {
        *x = r;
        continue;
      }
  for (auto *x : {&a, &b})
    if (auto *d = dyn_cast<Instruction>(*x))
      if (!(same && same(d)) && LI.getLoopFor(d->getParent())) {
        Val v = d->getType()->isIntegerTy() ? eval(d, e, depth + 1) : Val();
        if (v.k != Val::Const)
          return false;
        *x = ConstantInt::getSigned(d->getType(), v.c);
      }
  if (isa<Constant>(a)) {
    std::swap(a, b);
    p = CmpInst::getSwappedPredicate(p);
  }
  if (isa<Constant>(a))
    return false;
  auto *k = dyn_cast<ConstantInt>(b);
  negated = false;
  // above k: not below k + 1; at most k: below k + 1; below 1: equal to 0
  if (k && ((p == CmpInst::ICMP_UGT && !k->getValue().isMaxValue()) || (p == CmpInst::ICMP_SGT && !k->getValue().isMaxSignedValue()) ||
            (p == CmpInst::ICMP_ULE && !k->getValue().isMaxValue()) || (p == CmpInst::ICMP_SLE && !k->getValue().isMaxSignedValue()))) {
    k = ConstantInt::get(k->getContext(), k->getValue() + 1);
    b = k;
    p = p == CmpInst::ICMP_UGT ? CmpInst::ICMP_UGE : p == CmpInst::ICMP_SGT ? CmpInst::ICMP_SGE : p == CmpInst::ICMP_ULE ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT;
  }
  if (k && k->isOne() && (p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT)) {
    b = ConstantInt::get(k->getType(), 0);
    p = p == CmpInst::ICMP_UGE ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ;
  }
  switch (p) {
  case CmpInst::ICMP_NE: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE:
    p = CmpInst::getInversePredicate(p);
    negated = true;
    break;
  default:
    break;
  }
  c = Cond(a, b, p);
  return true;
}

void PathSearch::assume(Instruction *at) {
  std::set<BasicBlock *> seen;
  for (BasicBlock *B = at->getParent(); seen.insert(B).second;) {
    BasicBlock *p = B->getSinglePredecessor();
    if (!p)
      break;
    if (auto *br = dyn_cast<BranchInst>(p->getTerminator()))
      if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
        Cond q;
        bool neg;
        if (condOf(br->getCondition(), q, neg, Env()))
          initial[q] = (B == br->getSuccessor(0)) != neg;
      }
    B = p;
  }
}

// phis a value is computed from, by operations eval understands
static void slice(Value *V, std::set<PHINode *> &out, int depth = 0) {
  if (auto *p = dyn_cast<PHINode>(V)) {
    out.insert(p);
    return;
  }
  auto *I = dyn_cast<Instruction>(V);
  if (auto *b = dyn_cast_or_null<BinaryOperator>(I)) {
    switch (b->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Xor:
      break;
    case Instruction::Or:
      if (!b->getType()->isIntegerTy(1)) // bytes put together: nothing is decided by one of them
        return;
      break;
    default:
      return;
    }
  }
  if (!I || depth > 12 || !(isa<CastInst>(I) || isa<FreezeInst>(I) || isa<SelectInst>(I) || isa<BinaryOperator>(I) || isa<ICmpInst>(I)))
    return;
  for (auto &o : I->operands())
    slice(o, out, depth + 1);
}
void PathSearch::prepare() {
  prepared = true;
  std::map<PHINode *, std::set<BasicBlock *>> uses;
  std::vector<PHINode *> work;
  std::set<BasicBlock *> joins; // where tokens meet other values
  auto use = [&](Value *v, BasicBlock *b) {
    std::set<PHINode *> ps;
    slice(v, ps);
    for (auto *p : ps) {
      if (known < 2 && !tracked.count(p)) {
        bool flag = known == 1 && joins.count(p->getParent());
        if (flag) {
          flag = false;
          for (auto &in : p->incoming_values())
            flag |= isa<Constant>(in.get()) || isa<PHINode>(in.get());
        }
        if (!flag)
          continue;
      }
      if (!uses.count(p))
        work.push_back(p);
      uses[p].insert(b);
    }
  };
  if (!tokens.empty()) {
    std::vector<Value *> w(tokens.begin(), tokens.end());
    std::set<Value *> carry(tokens);
    while (!w.empty()) {
      Value *v = w.back();
      w.pop_back();
      for (auto *u : v->users())
        if ((isa<PHINode>(u) || isa<SelectInst>(u) || isa<CastInst>(u) || isa<FreezeInst>(u)) && carry.insert(u).second) {
          w.push_back(u);
          if (auto *p = dyn_cast<PHINode>(u)) {
            tracked.insert(p);
            joins.insert(p->getParent());
          }
        }
    }
  }
  for (auto &B : F) {
    if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) {
      if (br->isConditional())
        use(br->getCondition(), &B);
    } else if (auto *sw = dyn_cast<SwitchInst>(B.getTerminator()))
      use(sw->getCondition(), &B);
  }
  for (auto *w : watch)
    for (auto &o : w->operands())
      use(o, w->getParent());
  if (!tokens.empty()) {
    std::set<Value *> carry(tokens);
    std::vector<Value *> w(tokens.begin(), tokens.end());
    while (!w.empty()) {
      Value *v = w.back();
      w.pop_back();
      for (auto *u : v->users()) {
        auto *I = dyn_cast<Instruction>(u);
        if (!I)
          continue;
        if (auto *p = dyn_cast<PHINode>(I)) {
          tracked.insert(p);
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
            if (p->getIncomingValue(i) == v && isa<PHINode>(v))
              uses[cast<PHINode>(v)].insert(p->getIncomingBlock(i));
        } else if (isa<PHINode>(v))
          uses[cast<PHINode>(v)].insert(I->getParent());
        if ((isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I)) && carry.insert(I).second)
          w.push_back(I);
      }
    }
    // a use behind a choice or conversion is a use of what goes into it
    for (auto *v : carry)
      if (!isa<PHINode>(v))
        for (auto *u : v->users())
          if (auto *I = dyn_cast<Instruction>(u)) {
            if (auto *p = dyn_cast<PHINode>(I)) {
              for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                if (p->getIncomingValue(i) == v)
                  use(v, p->getIncomingBlock(i));
            } else
              use(v, I->getParent());
          }
    for (auto &u : uses)
      work.push_back(u.first);
  }
  if (plain) {
    std::set<User *> ws(watch.begin(), watch.end());
    for (auto &I : instructions(F))
      if (auto *p = dyn_cast<PHINode>(&I))
        results.insert(p);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto it = results.begin(); it != results.end();) {
        bool only = true;
        for (auto *u : (*it)->users())
          if (!ws.count(u) && !(isa<PHINode>(u) && results.count(cast<PHINode>(u))))
            only = false;
        if (!only) {
          it = results.erase(it);
          ch = true;
        } else
          ++it;
      }
    }
  }
  if (remember)
    for (auto &I : instructions(F))
      if (auto *c = dyn_cast<ICmpInst>(&I))
        for (auto &o : c->operands())
          if (same && same(o.get()))
            asked[same(o.get())] += c->getNumUses();
          else if (isa<Argument>(o.get()) || (isa<Instruction>(o.get()) && !LI.getLoopFor(cast<Instruction>(o.get())->getParent())))
            asked[o.get()] += c->getNumUses();
  while (!work.empty()) {
    auto *p = work.back();
    work.pop_back();
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      use(p->getIncomingValue(i), p->getIncomingBlock(i));
  }
  for (auto &u : uses) {
    auto &l = live[u.first];
    std::vector<BasicBlock *> w(u.second.begin(), u.second.end());
    while (!w.empty()) {
      auto *b = w.back();
      w.pop_back();
      if (!l.insert(b).second || b == u.first->getParent())
        continue;
      for (auto *q : predecessors(b))
        w.push_back(q);
    }
  }
}

Instruction *PathSearch::reach(Instruction *from, const std::function<bool(Instruction &)> &goal) {
  if (!prepared)
    prepare();
  struct State : std::tuple<BasicBlock *, Env, Facts> {
    using std::tuple<BasicBlock *, Env, Facts>::tuple;
    BasicBlock *&block() { return std::get<0>(*this); }
    Env &env() { return std::get<1>(*this); }
    Facts &known() { return std::get<2>(*this); }
  };
  std::set<State> seen;
  std::vector<State> work;
  std::map<State, State> parent;
  bool trace = getenv("TRACE");
  State cur;
  auto scan = [&](BasicBlock *B, BasicBlock::iterator it, Instruction *&hit) {
    for (; it != B->end(); ++it) {
      if (goal(*it)) {
        hit = &*it;
        return false;
      }
      if (stops.count(&*it))
        return false;
    }
    return true;
  };
  auto leave = [&](BasicBlock *B, const Env &env) {
    Facts here = facts;
    auto go = [&](BasicBlock *T) {
      if (dead && dead(B, T))
        return;
      Env n;
      for (auto &x : env) { // constants of loops that are left, or of blocks entered anew, are dropped
        Loop *l = LI.getLoopFor(x.first->getParent());
        if (l && !l->contains(T) && !carried)
          continue;
        if (!live[x.first].count(T) || x.first->getParent() == T)
          continue;
        n.insert(x);
      }
      bool back = false;
      Loop *lt = LI.getLoopFor(T);
      if (lt && lt->getHeader() == T && lt->contains(B))
        back = true;
      if (back)
        for (auto it = n.begin(); it != n.end();)
          if (it->first->getParent() != T && lt->contains(it->first))
            it = n.erase(it);
          else
            ++it;
      for (auto &p : T->phis()) {
        if (!p.getType()->isIntegerTy() && !p.getType()->isPointerTy() && !tracked.count(&p))
          continue;
        if (!live.count(&p))
          continue;
        Value *in = p.getIncomingValueForBlock(B);
        Val v = eval(in, env);
        // what is known from the branch just taken
        if (v.k == Val::Unknown && in->getType()->isIntegerTy() && !isa<Argument>(in)) {
          assumed.clear();
          if (auto *br = dyn_cast<BranchInst>(B->getTerminator())) {
            if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
              bool yes = T == br->getSuccessor(0);
              Value *x = br->getCondition();
              for (;;) {
                if (yes ? x->getType()->isIntegerTy(1) : x->getType()->isIntegerTy())
                  assumed[x] = yes;
                if (isa<ZExtInst>(x) || isa<FreezeInst>(x) || (isa<TruncInst>(x) && isa<ZExtInst>(cast<Instruction>(x)->getOperand(0))))
                  x = cast<Instruction>(x)->getOperand(0);
                else if (auto *c = dyn_cast<ICmpInst>(x)) {
                  auto *k = dyn_cast<ConstantInt>(c->getOperand(1));
                  if (!k || !c->isEquality())
                    break;
                  bool eq = (c->getPredicate() == CmpInst::ICMP_EQ) == yes;
                  x = c->getOperand(0);
                  // one of two numbers: only one of them agrees
                  if (auto *s = dyn_cast<SelectInst>(x)) {
                    auto *a = dyn_cast<ConstantInt>(s->getTrueValue()), *b = dyn_cast<ConstantInt>(s->getFalseValue());
                    if (a && b && (a == k) != (b == k)) {
                      bool first = (a == k) == eq;
                      assumed[x] = (first ? a : b)->getSExtValue();
                      x = s->getCondition();
                      yes = first;
                      continue;
                    }
                  }
                  if (!k->isZero()) {
                    if (eq)
                      assumed[x] = k->getSExtValue();
                    break;
                  }
                  yes = !eq;
                } else if (auto *b = dyn_cast<BinaryOperator>(x)) {
                  auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
                  if (b->getOpcode() != Instruction::Xor || !k || !k->isOne() || !x->getType()->isIntegerTy(1))
                    break;
                  yes = !yes;
                  x = b->getOperand(0);
                } else
                  break;
              }
            }
          } else if (auto *sw = dyn_cast<SwitchInst>(B->getTerminator()))
            if (auto *k = sw->findCaseDest(T))
              assumed[sw->getCondition()] = k->getSExtValue();
          if (!assumed.empty())
            v = eval(in, env);
          assumed.clear();
        }
        if (plain && results.count(&p) && !isa<Constant>(in) && !(isa<PHINode>(in) && results.count(cast<PHINode>(in))))
          v = Val();
        if (back && v.k == Val::Const && !isa<Constant>(in) && in != &p && !isa<PHINode>(in) && !isa<SelectInst>(in)) {
          if (v.c > 0)
            v.k = Val::Positive, v.c = 0;
          else if (v.c < 0)
            v.k = Val::Unknown, v.c = 0;
        }
        if (v.k == Val::Unknown)
          n.erase(&p);
        else
          n[&p] = v;
      }
      if (seen.size() > limit) {
        exceeded = true;
        n.clear();
      }
      Facts f = here;
      if (remember && !exceeded)
        if (auto *br = dyn_cast<BranchInst>(B->getTerminator()))
          if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
            Cond q;
            bool neg;
            if (condOf(br->getCondition(), q, neg, env) && asked[std::get<0>(q)] > 1)
              f[q] = (T == br->getSuccessor(0)) != neg;
          }
      if (exceeded)
        f.clear();
      State s(T, n, f);
      if (seen.insert(s).second) {
        work.push_back(s);
        if (trace)
          parent[s] = cur;
      }
    };
    auto *t = B->getTerminator();
    if (auto *br = dyn_cast<BranchInst>(t)) {
      if (br->isConditional()) {
        Val c = eval(br->getCondition(), env);
        if (c.k == Val::Const) {
          go(br->getSuccessor(c.c ? 0 : 1));
          return;
        }
        if (c.k == Val::Positive) {
          go(br->getSuccessor(0));
          return;
        }
      }
    } else if (auto *sw = dyn_cast<SwitchInst>(t)) {
      Val c = eval(sw->getCondition(), env);
      if (c.k == Val::Const) {
        for (auto &cs : sw->cases())
          if (cs.getCaseValue()->getSExtValue() == c.c || (cs.getCaseValue()->getBitWidth() == 1 && (int64_t)cs.getCaseValue()->getZExtValue() == (c.c & 1))) {
            go(cs.getCaseSuccessor());
            return;
          }
        go(sw->getDefaultDest());
        return;
      }
    }
    for (auto *T : successors(B))
      go(T);
  };
  Instruction *hit = nullptr;
  BasicBlock *B0 = from ? from->getParent() : &F.getEntryBlock();
  Env start;
  if (from && counter)
    for (Loop *l = LI.getLoopFor(B0); l; l = l->getParentLoop())
      for (auto &p : l->getHeader()->phis())
        if (p.getType()->isIntegerTy() && counter(&p))
          start[&p].k = Val::NonNegative;
  now = start;
  facts = initial;
  if (scan(B0, from ? std::next(from->getIterator()) : B0->begin(), hit))
    leave(B0, start);
  if (hit)
    return hit;
  while (!work.empty()) {
    State s = work.back();
    work.pop_back();
    cur = s;
    now = s.env();
    facts = s.known();
    if (scan(s.block(), s.block()->begin(), hit))
      leave(s.block(), s.env());
    if (hit && trace) {
      errs() << "path (backwards), " << seen.size() << " states:\n";
      for (State t = s; t.block(); t = parent.count(t) ? parent[t] : State()) {
        errs() << "  " << t.block()->getName();
        for (auto &x : t.env())
          errs() << " " << x.first->getName() << "=" << (x.second.k == Val::Const ? std::to_string(x.second.c) : x.second.k == Val::Token ? "*" : x.second.k == Val::Positive ? "+" : "0+");
        errs() << "\n";
      }
    }
    if (hit)
      return hit;
  }
  return nullptr;
}
