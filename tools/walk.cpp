#include "walk.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"

bool Walk::offset(Value *V, Value *&base, int64_t &off) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  off = 0;
  base = V;
  for (int n = 0; n < 16; n++) {
    if (auto *g = dyn_cast<GEPOperator>(base)) {
      for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
        auto *k = dyn_cast<ConstantInt>(fold(it.getOperand()));
        if (!k)
          return false;
        if (StructType *st = it.getStructTypeOrNull())
          off += DL.getStructLayout(st)->getElementOffset(k->getZExtValue());
        else
          off += k->getSExtValue() * (int64_t)DL.getTypeAllocSize(it.getIndexedType());
      }
      base = g->getPointerOperand();
      continue;
    }
    Value *f = fold(base);
    if (f == base)
      return true;
    base = f;
  }
  return true;
}

Value *Walk::fold(Value *V, int d) {
  if (given)
    if (Value *g = given(V))
      return g;
  if (d > 12 || isa<Constant>(V))
    return V;
  const DataLayout &DL = F.getParent()->getDataLayout();
  auto C = [&](Value *x) { return dyn_cast<Constant>(fold(x, d + 1)); };
  if (auto *p = dyn_cast<PHINode>(V)) {
    Value *c = nullptr;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      if (edges.count({p->getIncomingBlock(i), p->getParent()})) {
        Value *x = fold(p->getIncomingValue(i), d + 1);
        if (x == V)
          continue;
        if (c && c != x)
          return V;
        c = x;
      }
    return c ? c : V;
  }
  if (auto *s = dyn_cast<SelectInst>(V)) {
    if (auto *k = dyn_cast<ConstantInt>(fold(s->getCondition(), d + 1)))
      return fold(k->isOne() ? s->getTrueValue() : s->getFalseValue(), d + 1);
    return V;
  }
  if (auto *c = dyn_cast<CastInst>(V)) {
    if (Constant *k = C(c->getOperand(0)))
      if (Constant *r = ConstantFoldCastOperand(c->getOpcode(), k, c->getType(), DL))
        return r;
    return V;
  }
  if (auto *ic = dyn_cast<ICmpInst>(V)) {
    Constant *a = C(ic->getOperand(0)), *b = C(ic->getOperand(1));
    if (a && b)
      if (Constant *r = ConstantFoldCompareInstOperands(ic->getPredicate(), a, b, DL))
        return r;
    return V;
  }
  if (auto *b = dyn_cast<BinaryOperator>(V)) {
    Constant *x = C(b->getOperand(0)), *y = C(b->getOperand(1));
    if (x && y)
      if (Constant *r = ConstantFoldBinaryOpOperands(b->getOpcode(), x, y, DL))
        return r;
    if (b->getType()->isIntegerTy(1)) { // one side decides
      for (Constant *k : {x, y})
        if (auto *ki = dyn_cast_or_null<ConstantInt>(k))
          if ((b->getOpcode() == Instruction::And && ki->isZero()) || (b->getOpcode() == Instruction::Or && ki->isOne()))
            return ki;
    }
    return V;
  }
  if (auto *fr = dyn_cast<FreezeInst>(V))
    return fold(fr->getOperand(0), d + 1);
  return V;
}

void Walk::run(Instruction *from) {
  blocks.clear();
  edges.clear();
  reached.clear();
  order.clear();
  stopped.clear();
  start = from;
  std::vector<std::pair<BasicBlock *, Instruction *>> work;
  if (from) {
    if (auto *inv = dyn_cast<InvokeInst>(from)) {
      edges.insert({inv->getParent(), inv->getNormalDest()});
      blocks.insert(inv->getNormalDest());
      work.push_back({inv->getNormalDest(), &inv->getNormalDest()->front()});
    } else
      work.push_back({from->getParent(), from->getNextNode()});
  } else {
    blocks.insert(&F.getEntryBlock());
    work.push_back({&F.getEntryBlock(), &F.getEntryBlock().front()});
  }
  size_t n = 0, settled = ~size_t(0);
  std::set<BasicBlock *> through; // blocks whose end is reached
  while (n++ < 500000) {
    if (work.empty()) { // a phi may have stopped being a constant
      for (auto *b : through)
        work.push_back({b, nullptr});
      size_t before = edges.size();
      if (settled == before)
        break;
      settled = before;
      continue;
    }
    auto [b, I] = work.back();
    work.pop_back();
    bool ended = false;
    for (; I; I = I->getNextNode()) {
      if (stop && stop(I)) {
        stopped.insert(I);
        ended = true;
        break;
      }
      if (reached.insert(I).second)
        order.push_back(I);
    }
    if (ended)
      continue;
    through.insert(b);
    Instruction *t = b->getTerminator();
    std::vector<BasicBlock *> next(succ_begin(b), succ_end(b));
    if (auto *br = dyn_cast<BranchInst>(t)) {
      if (br->isConditional())
        if (auto *k = dyn_cast<ConstantInt>(fold(br->getCondition())))
          next = {br->getSuccessor(k->isOne() ? 0 : 1)};
    } else if (auto *sw = dyn_cast<SwitchInst>(t)) {
      if (auto *k = dyn_cast<ConstantInt>(fold(sw->getCondition())))
        next = {sw->findCaseValue(k)->getCaseSuccessor()};
    }
    for (auto *s : next) {
      bool newEdge = edges.insert({b, s}).second;
      bool newBlock = blocks.insert(s).second;
      if (newEdge || newBlock)
        work.push_back({s, &s->front()});
    }
  }
}
