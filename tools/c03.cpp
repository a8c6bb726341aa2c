// C03: every outline is drawn in its own colour, and the channels are written in their places.
#include "poly.h"

namespace {
typedef std::set<std::string> Facts;
const char *CH[3] = {"r", "g", "b"};
const char *NAME[3] = {"red", "green", "blue"};

int channelOf(const std::string &f) {
  for (int c = 0; c < 3; c++)
    if (f == std::string("color.") + CH[c])
      return c;
  return -1;
}

struct Check {
  Writer &W;
  Report &R;
  Polys PS;
  Loop *A = nullptr; // the loop over outlines looked at
  Check(Writer &W, Report &R) : W(W), R(R), PS(W) {}

  struct Problem {
    std::string rule, where, func, inst, msg;
  };
  std::vector<Problem> probs;
  void problem(const std::string &rule, Instruction *I, const std::string &inst, const std::string &msg) {
    probs.push_back({rule, I ? chainOf(I) : "", W.F->getName().str(), inst, msg});
  }

  bool current(const Leaf &l) {
    const Loop *L = nullptr;
    return l.li && W.isCounter(l.li, L) && L == A;
  }
  static Value *plain(Value *v) {
    while (auto *c = dyn_cast<CastInst>(v)) {
      if (isa<TruncInst>(c) && c->getType()->getIntegerBitWidth() < 8)
        break;
      if (!isa<ZExtInst>(c) && !isa<SExtInst>(c) && !isa<TruncInst>(c) && !isa<UIToFPInst>(c) && !isa<SIToFPInst>(c) && !isa<FPExtInst>(c))
        break;
      v = c->getOperand(0);
    }
    return v;
  }
  // channel in the eight bits of a number from bit OFF on: 0..2, 3 nothing there, -1 not known
  // (of the current outline, or with HS of the remembered colour, adding what remembers it)
  int byteAt(Value *v, unsigned off, int depth = 0, std::set<PHINode *> *hs = nullptr) {
    if (depth > 24)
      return -1;
    if (hs && (isa<PHINode>(v) || isa<LoadInst>(v))) {
      if (off >= v->getType()->getIntegerBitWidth())
        return 3;
      int b = off == 0 && v->getType()->isIntegerTy(8) ? remembers(v, hs) : 0;
      return b == 1 ? 0 : b == 2 ? 1 : b == 4 ? 2 : -1;
    }
    if (auto *k = dyn_cast<ConstantInt>(v))
      return off >= k->getBitWidth() || k->getValue().lshr(off).trunc(std::min(8u, k->getBitWidth() - off)).isZero() ? 3 : -1;
    unsigned bits = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0;
    if (!bits)
      return -1;
    if (off >= bits)
      return 3;
    if (auto *Ld = dyn_cast<LoadInst>(v)) {
      Leaf lf;
      if (off % 8 || !W.leafAt(Ld, off / 8, lf) || !current(lf))
        return -1;
      return channelOf(lf.field);
    }
    if (auto *c = dyn_cast<CastInst>(v)) {
      if (isa<ZExtInst>(c) || isa<TruncInst>(c))
        return byteAt(c->getOperand(0), off, depth + 1, hs);
      if (isa<SExtInst>(c) && off + 8 <= c->getOperand(0)->getType()->getIntegerBitWidth())
        return byteAt(c->getOperand(0), off, depth + 1, hs);
      return -1;
    }
    if (auto *b = dyn_cast<BinaryOperator>(v)) {
      auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
      switch (b->getOpcode()) {
      case Instruction::LShr:
        return k ? byteAt(b->getOperand(0), off + k->getZExtValue(), depth + 1, hs) : -1;
      case Instruction::Shl: {
        unsigned n = k ? k->getZExtValue() : 99;
        if (n > 64 || (n > off && n < off + 8))
          return -1;
        return off >= n ? byteAt(b->getOperand(0), off - n, depth + 1, hs) : 3;
      }
      case Instruction::Mul: {
        int n = k ? k->getValue().exactLogBase2() : -1;
        if (n < 0 || (n > (int)off && n < (int)off + 8))
          return -1;
        return (int)off >= n ? byteAt(b->getOperand(0), off - n, depth + 1, hs) : 3;
      }
      case Instruction::And: {
        if (!k)
          return -1;
        uint64_t m = k->getValue().lshr(off).getLoBits(8).getZExtValue();
        return m == 255 ? byteAt(b->getOperand(0), off, depth + 1, hs) : m == 0 ? 3 : -1;
      }
      case Instruction::Or:
      case Instruction::Xor:
      case Instruction::Add: {
        int x = byteAt(b->getOperand(0), off, depth + 1, hs), y = byteAt(b->getOperand(1), off, depth + 1, hs);
        return x == 3 ? y : y == 3 ? x : -1;
      }
      default:
        return -1;
      }
    }
    return -1;
  }
  // channels a number is made of, by byte; empty if it is made of anything else
  std::vector<int> bytesOf(Value *v) {
    v = plain(v);
    std::vector<int> r;
    if (!v->getType()->isIntegerTy())
      return r;
    for (unsigned o = 0; o < v->getType()->getIntegerBitWidth(); o += 8) {
      int c = byteAt(v, o);
      if (c < 0)
        return {};
      r.push_back(c);
    }
    return r;
  }
  // channel of the current outline's colour
  int channel(Value *v) {
    int r = -1;
    for (int c : bytesOf(v))
      if (c < 3) {
        if (r >= 0)
          return -1;
        r = c;
      }
    return r;
  }
  // channels a value stands for one to one: bit set
  int stands(Value *v) {
    int r = 0;
    for (int c : bytesOf(v))
      if (c < 3)
        r |= 1 << c;
    return r;
  }

  // ---- what reaches an output argument, through data and through decisions
  std::vector<Value *> deciding(PHINode *P) {
    std::vector<Value *> r;
    auto *N = W.DT.getNode(P->getParent());
    if (!N || !N->getIDom())
      return r;
    BasicBlock *top = N->getIDom()->getBlock();
    std::set<BasicBlock *> seen;
    std::vector<BasicBlock *> w(pred_begin(P->getParent()), pred_end(P->getParent()));
    while (!w.empty()) {
      auto *b = w.back();
      w.pop_back();
      if (!seen.insert(b).second)
        continue;
      if (auto *br = dyn_cast<BranchInst>(b->getTerminator()))
        if (br->isConditional())
          r.push_back(br->getCondition());
      if (auto *sw = dyn_cast<SwitchInst>(b->getTerminator()))
        r.push_back(sw->getCondition());
      if (b != top)
        w.insert(w.end(), pred_begin(b), pred_end(b));
    }
    return r;
  }
  // a loop's counter after the loop: the tests that end the loop decide it
  void ending(Value *v, Instruction *at, std::vector<Value *> &work) {
    auto *I = dyn_cast<Instruction>(v);
    if (!I)
      return;
    Loop *l = W.LI.getLoopFor(I->getParent());
    Loop *u = W.LI.getLoopFor(at->getParent());
    while (l && !(u && (l == u || l->contains(u)))) {
      if (l == A)
        break;
      SmallVector<BasicBlock *, 4> ex;
      l->getExitingBlocks(ex);
      for (auto *b : ex)
        if (auto *br = dyn_cast<BranchInst>(b->getTerminator()))
          if (br->isConditional())
            work.push_back(br->getCondition());
      l = l->getParentLoop();
    }
  }
  bool anyColour(Value *v) {
    const SCEV *li;
    return anyByte(plain(v), 0, li) >= 0;
  }
  std::map<Instruction *, int> emitMemo;
  int influence(const Emit &e) { // bit set of current channels
    auto it = emitMemo.find(e.I);
    if (it != emitMemo.end())
      return it->second;
    int r = 0;
    std::set<Value *> seen;
    std::set<const Writer::Deps *> seenMem;
    std::vector<Value *> work;
    for (auto *a : e.args) {
      if (isa<Constant>(a))
        continue;
      work.push_back(a);
      if (a->getType()->isPointerTy())
        use(W.contentDeps(a, e.I), work, seenMem, r, false), indices(a, work);
    }
    while (!work.empty()) {
      Value *v = work.back();
      work.pop_back();
      auto *I = dyn_cast<Instruction>(v);
      if (!I || !seen.insert(v).second)
        continue;
      // whether a colour is that of another outline says nothing about the colour itself
      if (auto *ic = dyn_cast<ICmpInst>(I))
        if ((anyColour(ic->getOperand(0)) && anyColour(ic->getOperand(1))) || (stands(ic->getOperand(0)) && remembers(ic->getOperand(1))) ||
            (stands(ic->getOperand(1)) && remembers(ic->getOperand(0))))
          continue;
      for (auto &o : I->operands())
        ending(o.get(), I, work);
      if (auto *P = dyn_cast<PHINode>(I)) {
        if (P->getParent() == A->getHeader() && A->contains(P->getParent()))
          continue; // from earlier rounds
        if (P->getNumIncomingValues() > 1 || true)
          for (auto *c : deciding(P))
            work.push_back(c);
      }
      if (auto *Ld = dyn_cast<LoadInst>(I)) {
        Leaf lf;
        if (!W.leafOfLoad(Ld, lf))
          indices(Ld->getPointerOperand(), work);
      }
      auto &d = W.deps(v);
      bool byCounter = false;
      if (auto *Ld = dyn_cast<LoadInst>(I)) {
        auto *ar = dyn_cast<SCEVAddRecExpr>(W.SE.getSCEV(Ld->getPointerOperand()));
        byCounter = ar && ar->getLoop() == A && A->contains(Ld->getParent());
      }
      use(d, work, seenMem, r, byCounter);
    }
    return emitMemo[e.I] = r;
  }
  void indices(Value *p, std::vector<Value *> &work) {
    std::set<Value *> seen;
    std::vector<Value *> w{p};
    while (!w.empty()) {
      Value *v = w.back();
      w.pop_back();
      if (!seen.insert(v).second)
        continue;
      if (auto *g = dyn_cast<GetElementPtrInst>(v)) {
        for (auto &i : g->indices())
          work.push_back(i.get());
        w.push_back(g->getPointerOperand());
      } else if (isa<PHINode>(v) || isa<SelectInst>(v))
        work.push_back(v);
    }
  }
  void use(const Writer::Deps &d, std::vector<Value *> &work, std::set<const Writer::Deps *> &seenMem, int &r, bool byCounter) {
    for (auto &l : d.direct) {
      int c = channelOf(l.field);
      if (c >= 0 && current(l))
        r |= 1 << c;
    }
    work.insert(work.end(), d.vals.begin(), d.vals.end());
    for (auto &m : d.mem) {
      auto &n = W.contentDeps(m.first, m.second);
      if (byCounter) {
        // kept per outline by an earlier loop and picked out by this loop's counter
        Leaves all;
        std::vector<Value *> w2(n.vals.begin(), n.vals.end());
        all = n.direct;
        for (auto *v : n.vals) {
          Loop *save = A;
          auto *I = dyn_cast<Instruction>(v);
          Loop *l = I ? W.LI.getLoopFor(I->getParent()) : nullptr;
          while (l && l->getParentLoop())
            l = l->getParentLoop();
          if (!l)
            continue;
          A = l;
          Emit e;
          e.I = I;
          e.args = {v};
          std::map<Instruction *, int> keep;
          keep.swap(emitMemo);
          r |= influence(e);
          keep.swap(emitMemo);
          A = save;
        }
      }
      if (seenMem.insert(&n).second)
        use(n, work, seenMem, r, false);
    }
  }

  // ---- equality with the colour remembered from the round before
  // values a header phi gets inside the loop, looking through phis; SELF if it can keep its own value
  void sources(PHINode *H, std::set<Value *> &src) {
    std::set<Value *> seen;
    std::vector<Value *> w;
    for (unsigned i = 0; i < H->getNumIncomingValues(); i++)
      if (A->contains(H->getIncomingBlock(i)))
        w.push_back(H->getIncomingValue(i));
    while (!w.empty()) {
      Value *v = w.back();
      w.pop_back();
      if (v == H || !seen.insert(v).second)
        continue;
      if (auto *p = dyn_cast<PHINode>(v)) {
        if (A->contains(p->getParent()) && p->getParent() != A->getHeader()) {
          for (auto &o : p->incoming_values())
            w.push_back(o.get());
          continue;
        }
      } else if (auto *s = dyn_cast<SelectInst>(v)) {
        w.push_back(s->getTrueValue());
        w.push_back(s->getFalseValue());
        continue;
      }
      src.insert(v);
    }
  }
  std::set<PHINode *> remembered;          // header phis compared with the current colour
  std::map<PHINode *, int> remBits;
  int remembers(Value *v, std::set<PHINode *> *hs = nullptr) { // channels of an earlier outline's colour a header phi holds
    if (auto *Ld = dyn_cast<LoadInst>(plain(v))) {
      // ... or points to
      if (!Ld->getType()->isIntegerTy(8))
        return 0;
      APInt o(64, 0);
      auto *H = dyn_cast<PHINode>(Ld->getPointerOperand()->stripAndAccumulateConstantOffsets(W.F->getParent()->getDataLayout(), o, true));
      if (!H || H->getParent() != A->getHeader())
        return 0;
      std::set<Value *> src;
      sources(H, src);
      int r = -1;
      for (auto *s : src) {
        Writer::Path p;
        if (!W.resolve(s, p) || p.level != 1)
          return 0;
        Leaf l;
        l.li = p.li;
        int c = channelOf(W.L.nameAt("spline_list_type", p.off + o.getZExtValue()));
        if (c < 0 || !current(l) || (r >= 0 && r != c))
          return 0;
        r = c;
      }
      if (r < 0)
        return 0;
      if (hs)
        hs->insert(H);
      return 1 << r;
    }
    auto *H = dyn_cast<PHINode>(plain(v));
    if (!H || H->getParent() != A->getHeader())
      return 0;
    if (hs)
      hs->insert(H);
    std::set<Value *> src;
    sources(H, src);
    int r = 0;
    for (auto *s : src) {
      int b = stands(s);
      if (!b || (r && b != r))
        return 0;
      r = b;
    }
    return r;
  }
  void equalities(Value *c, bool val, Facts &f, bool first) {
    if (auto *bo = dyn_cast<Instruction>(c)) {
      if (bo->getOpcode() == Instruction::And || bo->getOpcode() == Instruction::Or || isa<SelectInst>(bo)) {
        bool isAnd = bo->getOpcode() == Instruction::And;
        Value *l = bo->getOperand(0), *r = bo->getOperand(1);
        if (auto *s = dyn_cast<SelectInst>(bo)) {
          auto *fc = dyn_cast<ConstantInt>(s->getFalseValue());
          auto *tc = dyn_cast<ConstantInt>(s->getTrueValue());
          l = s->getCondition();
          if (fc && fc->isZero())
            isAnd = true, r = s->getTrueValue();
          else if (tc && tc->isOne())
            isAnd = false, r = s->getFalseValue();
          else
            return;
        }
        if (isAnd == val) {
          equalities(l, val, f, first);
          equalities(r, val, f, first);
        }
        return;
      }
      if (bo->getOpcode() == Instruction::Xor)
        if (auto *k = dyn_cast<ConstantInt>(bo->getOperand(1)))
          if (k->isOne()) {
            equalities(bo->getOperand(0), !val, f, first);
            return;
          }
      // the conditions came together in a phi: x = a ? b : false
      if (auto *p = dyn_cast<PHINode>(bo))
        if (p->getType()->isIntegerTy(1))
          viaPhi(p, val, f, first);
    }
    if (auto *z = dyn_cast<ZExtInst>(c))
      if (z->getOperand(0)->getType()->isIntegerTy(1))
        return equalities(z->getOperand(0), val, f, first);
    auto *ic = dyn_cast<ICmpInst>(c);
    if (!ic || !ic->isEquality())
      return;
    if (auto *k = dyn_cast<ConstantInt>(ic->getOperand(1)))
      if (k->isZero() && (isa<PHINode>(ic->getOperand(0)) || isa<ZExtInst>(ic->getOperand(0)))) {
        // a truth value kept as a number
        bool t = (ic->getPredicate() == CmpInst::ICMP_NE) == val;
        if (auto *p = dyn_cast<PHINode>(ic->getOperand(0)))
          viaPhi(p, t, f, first);
        else
          equalities(ic->getOperand(0), t, f, first);
        return;
      }
    if ((ic->getPredicate() == CmpInst::ICMP_EQ) != val)
      return;
    for (int k = 0; k < 2; k++) {
      Value *x = ic->getOperand(k), *y = ic->getOperand(1 - k);
      int a = stands(x);
      std::set<PHINode *> hs;
      int b = a ? remembers(y, &hs) : 0;
      if (a && !b) {
        // put together from several remembered channels in the same way
        auto bx = bytesOf(x);
        std::vector<int> by;
        for (unsigned o = 0; o < bx.size(); o++)
          by.push_back(byteAt(plain(y), 8 * o, 0, &hs));
        if (by == bx)
          b = a;
      }
      if (!a || a != b)
        continue;
      if (first) {
        // initial value: cannot be equal if it is no colour
        bool never = false;
        for (auto *H : hs)
          for (unsigned i = 0; i < H->getNumIncomingValues(); i++)
            if (!A->contains(H->getIncomingBlock(i)))
              if (auto *k0 = dyn_cast<ConstantInt>(H->getIncomingValue(i)))
                never |= k0->getValue().getActiveBits() > 24;
        if (!never)
          continue;
      }
      for (auto *H : hs) {
        remembered.insert(H);
        remBits[H] |= b;
      }
      for (int c = 0; c < 3; c++)
        if (a >> c & 1)
          f.insert(CH[c]), f.insert(std::string("eq ") + CH[c]);
    }
  }
  // facts on the ways into a phi that give VAL
  int phiDepth = 0;
  void viaPhi(PHINode *p, bool val, Facts &f, bool first) {
    if (phiDepth > 3)
      return;
    phiDepth++;
    bool have = false;
    Facts all;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
      Value *v = p->getIncomingValue(i);
      BasicBlock *b = p->getIncomingBlock(i);
      if (auto *k = dyn_cast<ConstantInt>(v))
        if (k->isZero() == val)
          continue;
      Facts g;
      if (!isa<Constant>(v))
        equalities(v, val, g, first);
      // tests passed on the way, as long as there is one way only
      BasicBlock *t = p->getParent(), *s = b;
      for (int n = 0; n < 8 && s; n++) {
        if (auto *br = dyn_cast<BranchInst>(s->getTerminator()))
          if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
            equalities(br->getCondition(), br->getSuccessor(0) == t, g, first);
        t = s;
        s = s->getSinglePredecessor();
      }
      if (!have)
        all = g;
      else {
        Facts m;
        for (auto &x : all)
          if (g.count(x))
            m.insert(x);
        all = m;
      }
      have = true;
    }
    phiDepth--;
    f.insert(all.begin(), all.end());
  }

  // ---- must-analysis over one round
  struct State {
    std::map<BasicBlock *, Facts> in, out;
    std::set<BasicBlock *> reached;
  };
  // is the edge impossible when the outline counter has its first value (first) / any later value (!first)
  bool roundDead(BasicBlock *B, BasicBlock *T, bool first) {
    auto *br = dyn_cast<BranchInst>(B->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
      return false;
    int v = roundCond(br->getCondition(), first);
    return v >= 0 && T != br->getSuccessor(v ? 0 : 1);
  }
  int roundCond(Value *c, bool first) {
    if (auto *I = dyn_cast<Instruction>(c)) {
      if (auto *s = dyn_cast<SelectInst>(I)) {
        auto *tc = dyn_cast<ConstantInt>(s->getTrueValue()), *fc = dyn_cast<ConstantInt>(s->getFalseValue());
        int l = roundCond(s->getCondition(), first);
        if (tc && tc->isOne()) { // or
          int r = roundCond(s->getFalseValue(), first);
          return l == 1 || r == 1 ? 1 : l == 0 && r == 0 ? 0 : -1;
        }
        if (fc && fc->isZero()) {
          int r = roundCond(s->getTrueValue(), first);
          return l == 0 || r == 0 ? 0 : l == 1 && r == 1 ? 1 : -1;
        }
        return -1;
      }
      if (I->getOpcode() == Instruction::Or || I->getOpcode() == Instruction::And) {
        int l = roundCond(I->getOperand(0), first), r = roundCond(I->getOperand(1), first);
        if (I->getOpcode() == Instruction::Or)
          return l == 1 || r == 1 ? 1 : l == 0 && r == 0 ? 0 : -1;
        return l == 0 || r == 0 ? 0 : l == 1 && r == 1 ? 1 : -1;
      }
      if (I->getOpcode() == Instruction::Xor)
        if (auto *k = dyn_cast<ConstantInt>(I->getOperand(1)))
          if (k->isOne()) {
            int l = roundCond(I->getOperand(0), first);
            return l < 0 ? -1 : !l;
          }
      if (isa<CastInst>(I))
        return roundCond(I->getOperand(0), first);
      if (auto *p = dyn_cast<PHINode>(I)) { // a flag: first value and value in later rounds
        if (p->getParent() != A->getHeader() || !p->getType()->isIntegerTy())
          return -1;
        return flag(p, first);
      }
    }
    auto *ic = dyn_cast<ICmpInst>(c);
    if (!ic)
      return -1;
    if (isa<ConstantPointerNull>(ic->getOperand(1)) && ic->isEquality())
      if (auto *p = dyn_cast<PHINode>(ic->getOperand(0)))
        if (p->getParent() == A->getHeader()) {
          int null = -1;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
            if (!A->contains(p->getIncomingBlock(i)) && isa<ConstantPointerNull>(p->getIncomingValue(i)))
              null = 1;
          if (!first) {
            std::set<Value *> src;
            sources(p, src);
            null = 0;
            for (auto *s : src) {
              Writer::Path q;
              if (!W.resolve(s, q) || q.level != 1)
                null = -1;
            }
            SmallVector<BasicBlock *, 4> lat;
            A->getLoopLatches(lat);
            if (keeps(p, A))
              null = -1;
          }
          return null < 0 ? -1 : null == (ic->getPredicate() == CmpInst::ICMP_EQ);
        }
    auto *k = dyn_cast<ConstantInt>(ic->getOperand(1));
    if (!k)
      return -1;
    if (auto *p = dyn_cast<PHINode>(plain(ic->getOperand(0))))
      if (p->getParent() == A->getHeader() && k->isZero() && ic->isEquality()) {
        const Loop *L;
        if (!W.isCounter(W.SE.getSCEV(p), L)) {
          int v = flag(p, first);
          return v < 0 ? -1 : (v == 0) == (ic->getPredicate() == CmpInst::ICMP_EQ);
        }
      }
    if (!ic->getOperand(0)->getType()->isIntegerTy())
      return -1;
    const SCEV *s = W.stripExt(W.SE.getSCEV(ic->getOperand(0)));
    const Loop *L;
    if (!W.isCounter(s, L) || L != A)
      return -1;
    unsigned bits = ic->getOperand(0)->getType()->getIntegerBitWidth();
    if (first)
      return ICmpInst::compare(APInt(bits, 0), k->getValue(), ic->getPredicate());
    if (k->isZero()) {
      if (ic->getPredicate() == CmpInst::ICMP_EQ)
        return 0;
      if (ic->getPredicate() == CmpInst::ICMP_NE || ic->getPredicate() == CmpInst::ICMP_UGT || ic->getPredicate() == CmpInst::ICMP_SGT)
        return 1;
    }
    if (k->isOne() && (ic->getPredicate() == CmpInst::ICMP_ULT || ic->getPredicate() == CmpInst::ICMP_SLT))
      return 0;
    return -1;
  }
  int flag(PHINode *p, bool first) {
    int r = -1;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
      if (A->contains(p->getIncomingBlock(i)) == first)
        continue;
      auto *k = dyn_cast<ConstantInt>(p->getIncomingValue(i));
      if (!k)
        return -1;
      int v = !k->isZero();
      if (r >= 0 && r != v)
        return -1;
      r = v;
    }
    return r;
  }

  State solve(const std::function<void(Instruction &, Facts &)> &step, bool first, bool useRound) {
    State s;
    std::vector<BasicBlock *> work{A->getHeader()};
    s.reached.insert(A->getHeader());
    while (!work.empty()) {
      auto *B = work.back();
      work.pop_back();
      Facts f = s.in[B];
      for (auto &I : *B)
        step(I, f);
      s.out[B] = f;
      for (auto *T : successors(B)) {
        if (!A->contains(T) || T == A->getHeader() || deadEnd(T))
          continue;
        if (useRound && roundDead(B, T, first))
          continue;
        // inside a loop over things there is at least one of, the body is entered
        Facts g = f;
        auto *br = dyn_cast<BranchInst>(B->getTerminator());
        if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
          equalities(br->getCondition(), T == br->getSuccessor(0), g, first);
        // leaving a loop that runs at least once: the facts of its rounds
        if (s.reached.insert(T).second) {
          s.in[T] = g;
          work.push_back(T);
        } else {
          Facts m;
          for (auto &x : s.in[T])
            if (g.count(x))
              m.insert(x);
          if (m != s.in[T]) {
            s.in[T] = m;
            work.push_back(T);
          }
        }
      }
    }
    return s;
  }

  // loop over the segments of the current outline
  bool segmentLoop(Loop *l) {
    if (!l)
      return false;
    SmallVector<BasicBlock *, 4> ex;
    l->getExitingBlocks(ex);
    for (auto *b : ex) {
      const SCEV *n = W.SE.getExitCount(l, b);
      if (isa<SCEVCouldNotCompute>(n))
        continue;
      n = W.stripExt(n);
      if (auto *U = dyn_cast<SCEVUnknown>(n))
        if (auto *Ld = dyn_cast<LoadInst>(U->getValue())) {
          Leaf lf;
          if (W.leafOfLoad(Ld, lf) && lf.field == "length")
            return true;
        }
    }
    return false;
  }

  // a header phi of an inner loop can go through a round unchanged
  bool keeps(PHINode *p, Loop *l) {
    std::set<Value *> seen;
    std::vector<Value *> w;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      if (l->contains(p->getIncomingBlock(i)))
        w.push_back(p->getIncomingValue(i));
    while (!w.empty()) {
      Value *v = w.back();
      w.pop_back();
      if (v == p)
        return true;
      if (!seen.insert(v).second)
        continue;
      if (auto *q = dyn_cast<PHINode>(v)) {
        if (l->contains(q->getParent()))
          for (auto &o : q->incoming_values())
            w.push_back(o.get());
      } else if (auto *s = dyn_cast<SelectInst>(v)) {
        w.push_back(s->getTrueValue());
        w.push_back(s->getFalseValue());
      }
    }
    return false;
  }
  // the remembered colour is that of the current outline at the end of every round
  void remembering(const State &s, PHINode *H, bool deferred) {
    int bits = remBits[H];
    std::set<std::pair<Value *, BasicBlock *>> seen;
    std::function<void(Value *, BasicBlock *, BasicBlock *)> walk = [&](Value *v, BasicBlock *from, BasicBlock *to) {
      // v flows along the edge from -> to
      if (!s.reached.count(from) || !seen.insert({v, from}).second)
        return;
      if (v == H) {
        R.count("ways to keep the remembered colour");
        for (int c = 0; c < 3; c++) {
          if (!(bits >> c & 1))
            continue;
          Facts f = s.out.at(from);
          auto *br = dyn_cast<BranchInst>(from->getTerminator());
          if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
            equalities(br->getCondition(), to == br->getSuccessor(0), f, false);
          if (f.count(std::string("eq ") + CH[c]) || (!deferred && f.count(std::string("unset ") + CH[c])))
            continue;
          problem("colour-not-remembered", from->getTerminator(), CH[c],
                  std::string("after an outline in another colour was drawn, the ") + NAME[c] +
                      " part of the remembered colour can still be that of an earlier outline");
        }
        return;
      }
      if (auto *p = dyn_cast<PHINode>(v))
        if (A->contains(p->getParent()) && p->getParent() != A->getHeader()) {
          Loop *l = W.LI.getLoopFor(p->getParent());
          if (l && l != A && l->getHeader() == p->getParent() && segmentLoop(l) && !keeps(p, l)) {
            // there is at least one segment
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
              if (l->contains(p->getIncomingBlock(i)))
                walk(p->getIncomingValue(i), p->getIncomingBlock(i), p->getParent());
            return;
          }
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
            walk(p->getIncomingValue(i), p->getIncomingBlock(i), p->getParent());
          return;
        }
      if (auto *sl = dyn_cast<SelectInst>(v)) {
        // kept under a condition
        for (int k = 0; k < 2; k++) {
          Value *x = k ? sl->getTrueValue() : sl->getFalseValue();
          if (x != H) {
            walk(x, from, to);
            continue;
          }
          Facts f = s.out.at(from);
          equalities(sl->getCondition(), k, f, false);
          for (int c = 0; c < 3; c++)
            if ((bits >> c & 1) && !f.count(std::string("eq ") + CH[c]) && (deferred || !f.count(std::string("unset ") + CH[c])))
              problem("colour-not-remembered", sl, CH[c],
                      std::string("after an outline in another colour was drawn, the ") + NAME[c] +
                          " part of the remembered colour can still be that of an earlier outline");
        }
        return;
      }
      R.count("values remembered as the last colour");
    };
    for (unsigned i = 0; i < H->getNumIncomingValues(); i++)
      if (A->contains(H->getIncomingBlock(i)))
        walk(H->getIncomingValue(i), H->getIncomingBlock(i), A->getHeader());
  }

  bool draws(const Emit &e) {
    for (auto &l : e.all)
      if (l.isPoint() && current(l))
        return true;
    return false;
  }
  // remembered channels written: bit set
  int writesRemembered(const Emit &e) {
    int r = 0;
    for (auto *a : e.args) {
      std::set<Value *> seen;
      std::vector<Value *> w{a};
      while (!w.empty()) {
        Value *v = w.back();
        w.pop_back();
        auto *I = dyn_cast<Instruction>(v);
        if (!I || !seen.insert(v).second)
          continue;
        if (auto *p = dyn_cast<PHINode>(I))
          if (p->getParent() == A->getHeader()) {
            r |= remembers(p);
            continue;
          }
        if (isa<CastInst>(I) || isa<BinaryOperator>(I))
          for (auto &o : I->operands())
            w.push_back(o.get());
      }
    }
    return r;
  }

  void inForce(const std::vector<const Emit *> &ds) {
    bool sinks = false;
    for (auto *d : ds)
      sinks |= d->sink;
    if (!sinks && records(ds))
      return;
    std::map<Instruction *, int> sets, defers;
    std::vector<Emit> es(W.emits.begin(), W.emits.end());
    // a number put into memory that is written later may depend on the colour by way of a search
    for (auto *B : A->blocks())
      for (auto &I : *B)
        if (auto *st = dyn_cast<StoreInst>(&I))
          if (!isa<Constant>(st->getValueOperand()) && W.outObjects.count(W.object(st->getPointerOperand()))) {
            Emit e;
            e.I = st;
            e.sink = false;
            e.args = {st->getValueOperand()};
            es.push_back(e);
          }
    for (auto &e : es) {
      if (!A->contains(e.I))
        continue;
      int b = influence(e);
      if (b) {
        sets[e.I] = b;
        R.count("places that write a colour");
      }
      int d = writesRemembered(e);
      if (d)
        defers[e.I] = d;
    }
    auto step = [&](Instruction &I, Facts &f) {
      if (&I == &*A->getHeader()->begin())
        for (int c = 0; c < 3; c++)
          f.insert(std::string("unset ") + CH[c]);
      auto it = sets.find(&I);
      if (it == sets.end())
        return;
      for (int c = 0; c < 3; c++)
        if (it->second >> c & 1) {
          f.insert(CH[c]);
          f.erase(std::string("unset ") + CH[c]);
        }
    };
    std::vector<Problem> save = probs;
    for (int first = 0; first < 2; first++) {
      State s = solve(step, first, true);
      for (auto *d : ds) {
        if (d->sink != sinks || !s.reached.count(d->I->getParent()))
          continue;
        Facts f = s.in[d->I->getParent()];
        for (auto &I : *d->I->getParent()) {
          step(I, f);
          if (&I == d->I)
            break;
        }
        if (!sinks) { // order in memory does not matter: at the end of the round
          SmallVector<BasicBlock *, 4> lat;
          A->getLoopLatches(lat);
          f = s.out[lat[0]];
        }
        for (int c = 0; c < 3; c++) {
          R.count("drawing steps to be in the outline's colour");
          if (!f.count(CH[c]))
            problem("colour-not-set", d->I, CH[c],
                    std::string(first ? "in the first round" : "on some path") + " an outline is drawn without the " + NAME[c] +
                        " part of its colour having been written or found unchanged");
        }
      }
      if (!first)
        for (auto *H : remembered)
          remembering(s, H, false);
    }
    if (probs.size() > save.size() && !defers.empty()) {
      // the colour of a group of outlines is written after the group
      std::vector<Problem> direct = probs;
      probs = save;
      auto step2 = [&](Instruction &I, Facts &f) {
        auto it = defers.find(&I);
        if (it != defers.end())
          for (int c = 0; c < 3; c++)
            if (it->second >> c & 1)
              f.insert(CH[c]);
      };
      State s = solve(step2, false, true);
      for (auto *d : ds) {
        if (!d->sink || !s.reached.count(d->I->getParent()))
          continue;
        Facts f = s.in[d->I->getParent()];
        for (int c = 0; c < 3; c++) {
          R.count("drawing steps to be in the outline's colour");
          if (!f.count(CH[c]))
            problem("colour-not-set", d->I, CH[c],
                    std::string("an outline in another colour is begun without the ") + NAME[c] + " part of the colour of the outlines before it having been written");
        }
      }
      for (auto *H : remembered)
        remembering(s, H, true);
      after();
      R.count("writers that write a colour after its outlines");
    }
  }
  // points are kept in memory, each with its colour
  bool records(const std::vector<const Emit *> &ds) {
    std::map<Value *, const Emit *> recs; // where the record is -> a store of a coordinate
    for (auto *d : ds)
      if (auto *st = dyn_cast<StoreInst>(d->I))
        recs[base(st->getPointerOperand())] = d;
    std::map<Value *, int> full;
    bool any = false;
    std::map<int, std::set<int64_t>> place;
    for (auto *B : A->blocks())
      for (auto &I : *B)
        if (auto *st = dyn_cast<StoreInst>(&I)) {
          Value *b = base(st->getPointerOperand());
          int c = channel(st->getValueOperand());
          if (c < 0 || !recs.count(b) || !W.DT.dominates(recs[b]->I, st))
            if (c < 0 || !recs.count(b) || !W.DT.dominates(st, recs[b]->I))
              continue;
          full[b] |= 1 << c;
          any = true;
        }
    if (!any)
      return false;
    for (auto &r : recs) {
      if (!full.count(r.first))
        continue; // travel
      R.count("points kept with their colour");
      for (int c = 0; c < 3; c++)
        if (!(full[r.first] >> c & 1))
          problem("colour-not-set", r.second->I, CH[c], std::string("a point is kept without the ") + NAME[c] + " part of its outline's colour");
    }
    return true;
  }
  static Value *base(Value *p) {
    while (auto *g = dyn_cast<GEPOperator>(p)) {
      if (!g->hasAllConstantIndices())
        break;
      p = g->getPointerOperand();
    }
    return p;
  }
  // the last colour follows the loop
  void after() {
    std::map<Instruction *, int> ends;
    for (auto &e : W.emits) {
      if (A->contains(e.I))
        continue;
      int r = 0;
      for (auto &l : e.all) {
        int c = channelOf(l.field);
        if (c >= 0 && current(l))
          r |= 1 << c;
      }
      if (r)
        ends[e.I] = r;
    }
    for (int c = 0; c < 3; c++) {
      std::set<BasicBlock *> seen;
      std::vector<BasicBlock *> w;
      SmallVector<BasicBlock *, 4> ex;
      A->getExitBlocks(ex);
      w.assign(ex.begin(), ex.end());
      BasicBlock *bad = nullptr;
      while (!w.empty()) {
        auto *b = w.back();
        w.pop_back();
        if (!seen.insert(b).second || deadEnd(b))
          continue;
        bool hit = false;
        for (auto &I : *b)
          if (ends.count(&I) && ends[&I] >> c & 1)
            hit = true;
        if (hit)
          continue;
        if (isa<ReturnInst>(b->getTerminator()))
          bad = b;
        for (auto *t : successors(b))
          if (!noOutlines(b, t))
            w.push_back(t);
      }
      if (bad)
        problem("colour-not-set", &*A->getHeader()->begin(), CH[c],
                std::string("the ") + NAME[c] + " part of the last outline's colour is not written after the outlines");
    }
  }
  bool noOutlines(BasicBlock *b, BasicBlock *t) {
    auto *br = dyn_cast<BranchInst>(b->getTerminator());
    auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    auto *k = ic ? dyn_cast<ConstantInt>(ic->getOperand(1)) : nullptr;
    auto *Ld = ic ? dyn_cast<LoadInst>(plain(ic->getOperand(0))) : nullptr;
    Leaf lf;
    if (!k || !k->isZero() || !Ld || !W.leafOfLoad(Ld, lf) || lf.field != "shape.length")
      return false;
    auto p = ic->getPredicate();
    if (p == CmpInst::ICMP_EQ)
      return t == br->getSuccessor(0);
    if (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT)
      return t == br->getSuccessor(1);
    return false;
  }

  // ---- the channels are kept in their places
  struct Ref { // one colour byte: a channel of an outline's colour, or a byte of memory
    int c = -1;
    const SCEV *li = nullptr, *p = nullptr;
    bool ok() const { return c >= 0 || p; }
  };
  bool colourMemory(LoadInst *Ld) {
    for (auto &l : W.contents(Ld->getPointerOperand(), Ld))
      if (channelOf(l.field) >= 0)
        return true;
    return false;
  }
  bool table(LoadInst *Ld) {
    auto *G = dyn_cast_or_null<GlobalVariable>(W.object(Ld->getPointerOperand()));
    return G && G->hasInitializer() && (G->isConstant() || !G->getInitializer()->isNullValue());
  }
  // channel of the shape's background colour
  int background(LoadInst *Ld, unsigned byte) {
    APInt o(64, 0);
    Value *b = Ld->getPointerOperand()->stripAndAccumulateConstantOffsets(W.F->getParent()->getDataLayout(), o, true);
    auto *pl = dyn_cast<LoadInst>(b);
    Leaf lf;
    if (!pl || !pl->getType()->isPointerTy() || !W.leafOfLoad(pl, lf) || lf.field != "shape.background_color")
      return -1;
    return channelOf("color." + W.L.nameAt("at_color", o.getZExtValue() + byte));
  }
  Ref refAt(Value *v, unsigned off, bool tables, int depth = 0) {
    Ref r;
    v = plain(v);
    if (depth > 8 || !v->getType()->isIntegerTy())
      return r;
    if (auto *Ld = dyn_cast<LoadInst>(v)) {
      if (off % 8 || off >= Ld->getType()->getIntegerBitWidth())
        return r;
      Leaf lf;
      if (W.leafAt(Ld, off / 8, lf)) {
        r.c = channelOf(lf.field);
        r.li = lf.li;
        return r;
      }
      r.c = background(Ld, off / 8);
      if (r.c >= 0)
        return r;
      if (tables ? table(Ld) || (Ld->getType()->isIntegerTy(8) && colourMemory(Ld)) : Ld->getType()->isIntegerTy(8) && colourMemory(Ld))
        r.p = W.SE.getSCEV(Ld->getPointerOperand());
      return r;
    }
    if (isa<PHINode>(v) && off == 0 && depth == 0) {
      // one channel of one outline or another
      std::set<Value *> seen;
      std::vector<Value *> w{v};
      while (!w.empty()) {
        Value *x = w.back();
        w.pop_back();
        if (!seen.insert(x).second || isa<Constant>(x))
          continue;
        if (auto *p = dyn_cast<PHINode>(x)) {
          for (auto &o : p->incoming_values())
            w.push_back(o.get());
          continue;
        }
        Ref y = refAt(x, 0, false, 1);
        if (y.c < 0 || (r.c >= 0 && r.c != y.c))
          return Ref();
        r.c = y.c;
      }
      return r;
    }
    if (auto *b = dyn_cast<BinaryOperator>(v))
      if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) {
        if (b->getOpcode() == Instruction::LShr)
          return refAt(b->getOperand(0), off + k->getZExtValue(), tables, depth + 1);
        if (b->getOpcode() == Instruction::And && k->getValue().getActiveBits() == 8 && k->getValue().popcount() == 8)
          return refAt(b->getOperand(0), off, tables, depth + 1);
      }
    return r;
  }
  Ref ref(Value *v, bool tables = false) { return refAt(v, 0, tables); }
  // the only colour byte a number is computed from by itself
  Ref single(Value *v, std::string &form) {
    Ref r = ref(v);
    if (r.ok()) {
      form = "$";
      return r;
    }
    Poly q = PS.of(v);
    std::set<int> at;
    std::function<void(const Poly &, std::set<int> &)> refs = [&](const Poly &p, std::set<int> &out) {
      for (auto &m : p.t)
        for (int a : m.first) {
          auto &A = PS.atoms[a];
          if (A.leaf ? channelOf(A.lf.field) >= 0 : A.v && A.fn.empty() && ref(A.v).ok())
            out.insert(a);
          std::set<int> in;
          for (auto &x : A.args)
            refs(x, in);
          if (in.size() == 1) // what is computed from several parts (the black of CMYK) is no part
            out.insert(in.begin(), in.end());
        }
    };
    refs(q, at);
    if (at.size() != 1)
      return Ref();
    auto &B = PS.atoms[*at.begin()];
    if (B.leaf) {
      r.c = channelOf(B.lf.field);
      r.li = B.lf.li;
    } else
      r = ref(B.v);
    form = PS.str(q, [&](const Polys::Atom &A) { return A.key == B.key ? std::string("$") : A.key; });
    return r;
  }
  // b - a in places; false if they cannot be compared
  bool diff(const Ref &a, const Ref &b, int64_t &d) {
    if (a.c >= 0 && b.c >= 0) {
      d = b.c - a.c;
      return a.li == b.li;
    }
    if (!a.p || !b.p)
      return false;
    return diff(a.p, b.p, d);
  }
  bool diff(const SCEV *a, const SCEV *b, int64_t &d) {
    if (W.SE.getPointerBase(a) != W.SE.getPointerBase(b))
      return false;
    auto *c = dyn_cast<SCEVConstant>(W.SE.getMinusSCEV(b, a));
    if (!c)
      return false;
    d = c->getAPInt().getSExtValue();
    return d > -16 && d < 16;
  }
  std::string name(const Ref &r) { return r.c >= 0 ? NAME[r.c] : "colour byte"; }
  void places() {
    // written: one after the other
    struct Tok {
      Ref r;
      std::string form;
      Instruction *I;
    };
    std::map<BasicBlock *, std::vector<Tok>> by;
    std::vector<std::pair<Ref, std::pair<Ref, Instruction *>>> pairs; // source -> place
    for (auto &e : W.emits) {
      if (!e.sink)
        continue;
      for (auto *a : e.args) {
        Tok t;
        t.I = e.I;
        if (a->getType()->isPointerTy()) {
          // a byte in a variable
          auto *al = dyn_cast_or_null<AllocaInst>(W.object(a));
          if (!al || al->getAllocatedType()->isAggregateType())
            continue;
          bool complete;
          auto vs = W.reachingStores(a, e.I, complete);
          if (vs.size() == 1)
            t.r = single(vs[0], t.form);
        } else
          t.r = single(a, t.form);
        if (getenv("DUMP") && !t.r.ok() && !a->getType()->isPointerTy()) {
          bool c = false;
          for (auto &l : W.leaves(a)) c |= channelOf(l.field) >= 0;
          if (c) outs() << "   notok " << W.suffix << " " << chainOf(e.I) << " " << PS.str(PS.of(a)) << "\n";
        }
        if (t.r.ok())
          by[e.I->getParent()].push_back(t);
      }
    }
    if (getenv("DUMP"))
      for (auto &x : by)
        for (auto &t : x.second)
          outs() << "   tok " << W.suffix << " " << chainOf(t.I) << " " << name(t.r) << " " << t.form << "\n";
    for (auto &x : by)
      for (size_t i = 1; i < x.second.size(); i++) {
        auto &a = x.second[i - 1], &b = x.second[i];
        int64_t d;
        if (!diff(a.r, b.r, d))
          continue;
        R.count("pairs of channels written one after the other");
        if (d != 1 && d != -2)
          problem("channel-order", b.I, name(a.r) + " then " + name(b.r),
                  d == 0 ? "the same part of a colour is written twice in a row" : "the parts of a colour are not written in the order red, green, blue");
        if (a.form != b.form)
          problem("channel-form", b.I, name(a.r) + " and " + name(b.r), "two parts of a colour are written in different ways: " + a.form + " and " + b.form);
      }
    for (auto &I : instructions(*W.F)) {
      if (auto *st = dyn_cast<StoreInst>(&I)) {
        Value *v = st->getValueOperand();
        if (!v->getType()->isIntegerTy())
          continue;
        unsigned n = v->getType()->getIntegerBitWidth() / 8;
        std::vector<int> parts;
        for (unsigned k = 0; k < n && n <= 8; k++) {
          Ref s = n == 1 ? ref(v) : Ref();
          if (n > 1) {
            // parts of a number put together from channels
            s.c = anyByte(v, 8 * k, s.li);
          }
          if (!s.ok())
            continue;
          Ref d;
          d.p = W.SE.getAddExpr(W.SE.getSCEV(st->getPointerOperand()), W.SE.getConstant(W.SE.getEffectiveSCEVType(st->getPointerOperand()->getType()), k));
          pairs.push_back({s, {d, st}});
        }
      } else if (isa<ICmpInst>(I) || I.getOpcode() == Instruction::Sub) {
        if (!I.getOperand(0)->getType()->isIntegerTy())
          continue;
        Ref a = ref(I.getOperand(0), true), b = ref(I.getOperand(1), true);
        if (a.ok() && b.ok())
          pairs.push_back({a, {b, &I}});
      } else if (I.getOpcode() == Instruction::SIToFP || I.getOpcode() == Instruction::FMul || I.getOpcode() == Instruction::Mul) {
        // products of a channel and an entry of a table
        for (auto &m : PS.of(&I).t) {
          Ref a, b;
          int n = 0;
          for (int x : m.first) {
            auto &at = PS.atoms[x];
            if (at.leaf && channelOf(at.lf.field) >= 0) {
              a.c = channelOf(at.lf.field);
              a.li = at.lf.li;
              n++;
            } else if (at.v) {
              b = ref(at.v, true);
              n++;
            }
          }
          if (n == 2 && a.ok() && b.p)
            pairs.push_back({a, {b, &I}});
        }
      }
    }
    // a search looks at, and a store keeps, the whole colour
    {
      std::map<std::tuple<const SCEV *, Loop *, bool>, std::pair<int, Instruction *>> groups;
      for (auto &x : pairs) {
        Instruction *I = x.second.second;
        bool st = isa<StoreInst>(I);
        auto *ic = dyn_cast<ICmpInst>(I);
        if (!st && !(ic && ic->isEquality()))
          continue;
        Ref a = x.first, b = x.second.first;
        if (a.c < 0)
          std::swap(a, b);
        if (a.c < 0 || !b.p)
          continue;
        const SCEV *k = W.SE.getPointerBase(b.p);
        if (st)
          k = W.SE.getAddExpr(W.SE.getMinusSCEV(b.p, k), W.SE.getConstant(W.SE.getEffectiveSCEVType(b.p->getType()), -a.c, true));
        auto &g = groups[{k, W.LI.getLoopFor(I->getParent()), st}];
        g.first |= 1 << a.c;
        g.second = I;
      }
      for (auto &g : groups) {
        bool st = std::get<2>(g.first);
        R.count(st ? "colours kept in memory" : "colours looked for in memory");
        int n = g.second.first;
        if (n == 7 || (st && (n & (n - 1)) == 0))
          continue;
        std::string miss;
        for (int c = 0; c < 3; c++)
          if (!(n >> c & 1))
            miss += std::string(miss.empty() ? "" : " and ") + NAME[c];
        problem(st ? "channel-lost" : "search-incomplete", g.second.second, miss,
                st ? "a colour is kept without its " + miss + " part" : "a colour is looked for without its " + miss + " part being compared");
      }
    }
    if (getenv("DUMP"))
      for (auto &x : pairs)
        outs() << "   pair " << W.suffix << " " << chainOf(x.second.second) << " " << name(x.first) << " -> " << (x.second.first.p ? show(x.second.first.p) : name(x.second.first)) << "\n";
    for (size_t i = 0; i < pairs.size(); i++)
      for (size_t j = i + 1; j < pairs.size(); j++) {
        auto &a = pairs[i], &b = pairs[j];
        int64_t s, d;
        if (isa<StoreInst>(a.second.second) != isa<StoreInst>(b.second.second))
          continue;
        if (!diff(a.first, b.first, s) || !diff(a.second.first, b.second.first, d))
          continue;
        R.count("pairs of channels matched with their places");
        if ((s < 0) != (d < 0) || (s == 0) != (d == 0)) {
          if ((s == 0 || d == 0) && a.second.second->getParent() != b.second.second->getParent())
            continue;
          if (s == 0 && d == 0)
            continue;
          problem("channel-place", b.second.second, name(b.first),
                  "parts of a colour are put into or compared with places in another order than red, green, blue");
        }
      }
    
  }
  int anyByte(Value *v, unsigned off, const SCEV *&li) {
    // any outline's colour
    std::function<int(Value *, unsigned, int)> go = [&](Value *v, unsigned off, int depth) -> int {
      if (depth > 24 || !v->getType()->isIntegerTy() || off >= v->getType()->getIntegerBitWidth())
        return 3;
      if (isa<Constant>(v))
        return 3;
      if (auto *Ld = dyn_cast<LoadInst>(v)) {
        Leaf lf;
        if (off % 8 || !W.leafAt(Ld, off / 8, lf) || channelOf(lf.field) < 0)
          return -1;
        li = lf.li;
        return channelOf(lf.field);
      }
      if (isa<ZExtInst>(v) || isa<TruncInst>(v))
        return go(cast<Instruction>(v)->getOperand(0), off, depth + 1);
      if (auto *b = dyn_cast<BinaryOperator>(v)) {
        auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
        if (b->getOpcode() == Instruction::Shl && k)
          return off >= k->getZExtValue() ? go(b->getOperand(0), off - k->getZExtValue(), depth + 1) : 3;
        if (b->getOpcode() == Instruction::LShr && k)
          return go(b->getOperand(0), off + k->getZExtValue(), depth + 1);
        if (b->getOpcode() == Instruction::And && k)
          return k->getValue().lshr(off).getLoBits(8).isZero() ? 3 : go(b->getOperand(0), off, depth + 1);
        if (b->getOpcode() == Instruction::Or || b->getOpcode() == Instruction::Add) {
          int x = go(b->getOperand(0), off, depth + 1), y = go(b->getOperand(1), off, depth + 1);
          return x == 3 ? y : y == 3 ? x : -1;
        }
      }
      return -1;
    };
    int c = go(v, off, 0);
    return c == 3 ? -1 : c;
  }

  void run() {
    std::map<Loop *, std::vector<const Emit *>> by;
    for (auto &e : W.emits)
      for (auto &l : e.all) {
        const Loop *L;
        if (l.isPoint() && l.li && W.isCounter(l.li, L) && L->contains(e.I)) {
          auto &v = by[const_cast<Loop *>(L)];
          if (v.empty() || v.back() != &e)
            v.push_back(&e);
        }
      }
    for (auto &x : by) {
      A = x.first;
      emitMemo.clear();
      remembered.clear();
      remBits.clear();
      R.count("loops over outlines that draw");
      inForce(x.second);
    }
  }
};
} // namespace

// formats that have no colours
static bool colourless(const std::string &suffix) { return suffix == "UGS" || suffix == "ER"; }

void checkC03(Program &P, Report &R, const std::string &) {
  for (auto &x : writerList(P, R)) {
    R.count("writers");
    for (int hole = 0; hole < 2; hole++) {
      Spec s;
      s.clockwise = hole;
      s.background = hole;
      auto w = specialise(P, x.first, x.second, s);
      if (!w) {
        R.fail("writer " + x.first->getName().str() + ": the shape argument or its layout was not found");
        break;
      }
      Check c(*w, R);
      c.places();
      if (!hole) {
        if (colourless(x.second))
          R.count("writers of formats without colours");
        else
          c.run();
      }
      if (getenv("DUMP")) {
        outs() << "== " << x.second << "\n";
        for (auto &p : c.probs)
          outs() << "   " << p.rule << " " << p.where << " " << p.inst << ": " << p.msg << "\n";
      }
      for (auto &p : c.probs)
        R.finding(p.rule, p.func, p.where, x.second + " " + p.inst, p.msg);
    }
  }
  if (R.counts["loops over outlines that draw"] == 0)
    R.fail("no loop over outlines found that draws");
  if (R.counts["pairs of channels written one after the other"] + R.counts["pairs of channels matched with their places"] == 0)
    R.fail("no colour found that is written");
}
