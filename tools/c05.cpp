// C05: what a file says about itself is true.
//
// A ghost counter is put into the inlined writer: every output call adds the
// number of bytes it writes. Announced numbers and the ghost counter are then
// both written as linear forms over the shape's lengths, text lengths and, for
// counts that are made round by round, the set of amounts one round can add.
// The two forms are compared; nothing is executed.
#include "paths.h"
#include "text.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/IRBuilder.h"

namespace {
struct Lin {
  std::map<std::string, int64_t> t;
  int64_t c = 0;
  void add(const Lin &o, int64_t k = 1) {
    c += k * o.c;
    for (auto &x : o.t)
      if (!(t[x.first] += k * x.second))
        t.erase(x.first);
  }
  bool isConst() const { return t.empty(); }
  bool sure() const {
    for (auto &x : t)
      if (x.first.find('?') != std::string::npos)
        return false;
    return true;
  }
  std::string str() const {
    std::string s;
    for (auto &x : t) {
      if (!s.empty())
        s += " + ";
      if (x.second != 1)
        s += std::to_string(x.second) + "*";
      s += x.first;
    }
    if (c || s.empty())
      s += (s.empty() ? "" : " + ") + std::to_string(c);
    return s;
  }
};
Lin atom(const std::string &s) {
  Lin l;
  l.t[s] = 1;
  return l;
}
Lin num(int64_t c) {
  Lin l;
  l.c = c;
  return l;
}

bool isSink(StringRef n) { return n == "fprintf" || n == "fputs" || n == "fputc" || n == "putc" || n == "_IO_putc" || n == "fwrite"; }
Value *sinkFile(CallBase *C) {
  StringRef n = calleeName(C);
  if (n == "fprintf")
    return C->getArgOperand(0);
  if (n == "fwrite")
    return C->getArgOperand(3);
  return C->getArgOperand(1);
}

// path through a region: the block before each block, conditions taken
struct Way {
  std::map<BasicBlock *, BasicBlock *> pred;
  std::map<std::pair<Value *, int64_t>, bool> lits;
  BasicBlock *end = nullptr;
  Loop *region = nullptr;
};

struct Counter {
  Writer &W;
  Function &F;
  LoopInfo &LI;
  ScalarEvolution &SE;
  bool exceeded = false;
  long ways = 0;
  explicit Counter(Writer &W) : W(W), F(*W.F), LI(W.LI), SE(W.SE) {}

  // ---- names -------------------------------------------------------------
  std::map<const Value *, std::string> privates;
  std::string priv(const Value *V) {
    auto &s = privates[V];
    if (s.empty())
      s = "?" + std::to_string(privates.size());
    return s;
  }
  std::string idx(const SCEV *S) {
    if (!S)
      return "";
    S = W.stripExt(S);
    if (auto *A = dyn_cast<SCEVAddRecExpr>(S))
      if (A->isAffine())
        return "(" + idx(A->getStart()) + "+" + idx(A->getStepRecurrence(SE)) + "*i" + std::to_string(A->getLoop()->getLoopDepth()) + ")";
    if (auto *c = dyn_cast<SCEVConstant>(S))
      return std::to_string(c->getAPInt().getSExtValue());
    if (auto *A = dyn_cast<SCEVAddExpr>(S)) {
      std::vector<std::string> v;
      for (auto *o : A->operands())
        v.push_back(idx(o));
      std::sort(v.begin(), v.end());
      std::string s;
      for (auto &x : v)
        s += "+" + x;
      return s;
    }
    return "?";
  }
  std::map<std::pair<const Value *, const Way *>, std::string> names;
  std::string name(Value *V, const Way *w, int depth = 0) {
    auto key = std::make_pair((const Value *)V, w);
    auto it = names.find(key);
    if (it != names.end())
      return it->second;
    names[key] = "?loop";
    return names[key] = name1(V, w, depth);
  }
  std::string name1(Value *V, const Way *w, int depth) {
    if (depth > 24)
      return priv(V);
    if (auto *c = dyn_cast<ConstantInt>(V))
      return std::to_string(c->getSExtValue());
    if (auto *c = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s;
      c->getValueAPF().toString(s);
      return s.str().str();
    }
    if (auto *a = dyn_cast<Argument>(V))
      return "arg" + std::to_string(a->getArgNo());
    bool ok;
    if (V->getType()->isPointerTy()) {
      std::string s = constString(V, &ok);
      if (ok)
        return "\"" + s + "\"";
      if (isa<ConstantPointerNull>(V))
        return "null";
      if (isa<GlobalVariable>(V))
        return "@" + V->getName().str();
      if (auto *g = dyn_cast<GEPOperator>(V)) {
        std::string s = name(g->getPointerOperand(), w, depth + 1);
        for (auto i = g->idx_begin(); i != g->idx_end(); ++i)
          s += "[" + name(i->get(), w, depth + 1) + "]";
        return s + ":" + std::to_string(F.getParent()->getDataLayout().getTypeAllocSize(g->getSourceElementType()));
      }
    }
    if (auto *Ld = dyn_cast<LoadInst>(V)) {
      Leaf lf;
      if (W.leafOfLoad(Ld, lf))
        return lf.field + (lf.li ? "[" + idx(lf.li) + "]" : "") + (lf.si ? "[" + idx(lf.si) + "]" : "");
      return "*" + name(Ld->getPointerOperand(), w, depth + 1);
    }
    if (auto *p = dyn_cast<PHINode>(V)) {
      if (w) {
        auto it = w->pred.find(p->getParent());
        if (it != w->pred.end() && it->second && p->getBasicBlockIndex(it->second) >= 0)
          return name(p->getIncomingValueForBlock(it->second), w, depth + 1);
      }
      if (SE.isSCEVable(p->getType()))
        if (auto *A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(p)))
          return idx(A);
      if (p->getNumIncomingValues() == 1)
        return name(p->getIncomingValue(0), w, depth + 1);
      std::set<std::string> s;
      for (auto &v : p->incoming_values())
        if (auto *i = dyn_cast<Instruction>(v.get()); i && LI.getLoopFor(p->getParent()) && LI.getLoopFor(p->getParent())->contains(i) &&
                                                      LI.isLoopHeader(p->getParent()))
          return priv(V);
        else
          s.insert(name(v.get(), w, depth + 1));
      std::string r = "{";
      for (auto &x : s)
        r += x + "|";
      return r + "}";
    }
    if (auto *s = dyn_cast<SelectInst>(V)) {
      std::set<std::string> v{name(s->getTrueValue(), w, depth + 1), name(s->getFalseValue(), w, depth + 1)};
      std::string r = "{";
      for (auto &x : v)
        r += x + "|";
      return r + "}";
    }
    if (auto *C = dyn_cast<CallBase>(V)) {
      StringRef n = calleeName(C);
      if (n.empty() || isAllocator(n) || n.startswith("at.")) // each its own
        return priv(V);
      if (C->hasStructRetAttr() || n == "fwrite" || n == "fread" || n == "fputc")
        return priv(V);
      std::string r = n.str() + "(";
      for (auto &a : C->args())
        r += name(a.get(), w, depth + 1) + ",";
      return r + ")";
    }
    if (isa<CastInst>(V) && !isa<FPToSIInst>(V) && !isa<FPToUIInst>(V))
      return name(cast<CastInst>(V)->getOperand(0), w, depth + 1);
    if (auto *I = dyn_cast<Instruction>(V)) {
      if (isa<AllocaInst>(I))
        return priv(V);
      std::vector<std::string> v;
      for (auto &o : I->operands())
        v.push_back(name(o.get(), w, depth + 1));
      if (I->isCommutative())
        std::sort(v.begin(), v.end());
      std::string r = I->getOpcodeName() + std::string("(");
      if (auto *c = dyn_cast<CmpInst>(I))
        r += CmpInst::getPredicateName(c->getPredicate()).str() + ",";
      for (auto &x : v)
        r += x + ",";
      return r + ")";
    }
    return priv(V);
  }

  // ---- linear forms --------------------------------------------------------
  typedef std::map<Value *, Lin> Env;
  Lin product(const Lin &a, const Lin &b) {
    Lin r;
    if (a.isConst()) {
      r.add(b, a.c);
      return r;
    }
    if (b.isConst()) {
      r.add(a, b.c);
      return r;
    }
    for (auto &x : a.t) {
      for (auto &y : b.t)
        r.add(atom(std::min(x.first, y.first) + "*" + std::max(x.first, y.first)), x.second * y.second);
      r.add(atom(x.first), x.second * b.c);
    }
    for (auto &y : b.t)
      r.add(atom(y.first), y.second * a.c);
    r.c += a.c * b.c;
    return r;
  }
  // does the way lead through the inside of the loop?
  bool insideOf(const Loop *L, const Way *w) { return w && w->region && (w->region == L || L->contains(w->region)); }
  Lin ofScev(const SCEV *S, const Way *w, const Env &env, int depth) {
    if (auto *c = dyn_cast<SCEVConstant>(S))
      return num(c->getAPInt().getSExtValue());
    if (auto *c = dyn_cast<SCEVCastExpr>(S))
      return ofScev(c->getOperand(), w, env, depth);
    if (auto *A = dyn_cast<SCEVAddExpr>(S)) {
      Lin r;
      for (auto *o : A->operands())
        r.add(ofScev(o, w, env, depth));
      return r;
    }
    if (auto *M = dyn_cast<SCEVMulExpr>(S)) {
      Lin r = num(1);
      for (auto *o : M->operands())
        r = product(r, ofScev(o, w, env, depth));
      return r;
    }
    if (isa<SCEVUMaxExpr>(S) || isa<SCEVSMaxExpr>(S)) {
      std::set<std::string> v;
      Lin last;
      for (auto *o : cast<SCEVMinMaxExpr>(S)->operands()) {
        auto *c = dyn_cast<SCEVConstant>(o);
        if (c && c->getAPInt().getSExtValue() >= 0 && c->getAPInt().getSExtValue() <= 1)
          continue;
        last = ofScev(o, w, env, depth);
        v.insert(last.str());
      }
      if (v.size() == 1)
        return last;
      std::string s = "max(";
      for (auto &x : v)
        s += x + ",";
      return atom(s + ")");
    }
    if (auto *A = dyn_cast<SCEVAddRecExpr>(S)) {
      auto it = std::find_if(env.begin(), env.end(), [&](auto &e) { return SE.isSCEVable(e.first->getType()) && SE.getSCEV(e.first) == S; });
      if (it != env.end())
        return it->second;
      if (A->isAffine()) {
        Lin r = ofScev(A->getStart(), w, env, depth);
        // of a loop that is over: its last value
        if (!insideOf(A->getLoop(), w)) {
          if (A->isAffine() && singleRound(const_cast<Loop *>(A->getLoop()))) {
            Lin r = ofScev(A->getStart(), w, env, depth + 1);
            r.add(ofScev(A->getStepRecurrence(SE), w, env, depth + 1));
            return r;
          }
          auto *S2 = SE.getSCEVAtScope(A, A->getLoop()->getParentLoop());
          if (!mentions(S2, A->getLoop()))
            return ofScev(S2, w, env, depth + 1);
        }
        bool over = !insideOf(A->getLoop(), w);
        r.add(product(ofScev(A->getStepRecurrence(SE), w, env, depth), atom((over ? "end" : "i") + std::to_string(A->getLoop()->getLoopDepth()))));
        return r;
      }
    }
    if (auto *U = dyn_cast<SCEVUnknown>(S))
      return eval(U->getValue(), w, env, depth + 1);
    std::string s;
    raw_string_ostream(s) << *S;
    return atom("?" + s);
  }
  bool mentions(const SCEV *S, const Loop *L) {
    return SCEVExprContains(S, [&](const SCEV *x) {
      if (auto *A = dyn_cast<SCEVAddRecExpr>(x))
        return L->contains(A->getLoop());
      if (auto *U = dyn_cast<SCEVUnknown>(x))
        if (auto *I = dyn_cast<Instruction>(U->getValue()))
          return L->contains(I);
      return isa<SCEVCouldNotCompute>(x);
    });
  }
  // length of what a format writes
  Lin formatted(const std::string &f, const std::vector<Value *> &args, const Way *w) {
    Lin r;
    size_t k = 0;
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') {
        r.c++;
        continue;
      }
      size_t j = i + 1;
      while (j < f.size() && strchr("-+ #0123456789.lhzjtL", f[j]))
        j++;
      if (j >= f.size())
        break;
      std::string spec = f.substr(i, j - i + 1);
      if (f[j] == '%')
        r.c++;
      else if (k >= args.size())
        r.add(atom("?arg"));
      else {
        Value *a = args[k++];
        std::string width;
        for (char ch : spec)
          if (isdigit(ch) || ch == '.')
            width += ch;
        if (f[j] == 'c')
          r.c++;
        else if (f[j] == 's' && spec == "%s")
          r.add(text(a, w));
        else if (strchr("duixX", f[j]) && isa<ConstantInt>(a)) {
          char buf[80];
          std::string sp = spec;
          sp.erase(std::remove_if(sp.begin(), sp.end(), [](char q) { return strchr("lhzjt", q); }), sp.end());
          r.c += snprintf(buf, sizeof buf, sp.c_str(), (int)cast<ConstantInt>(a)->getSExtValue());
        } else if (strchr("duixX", f[j]) && width.size() > 1 && width[0] == '0' && width.find('.') == std::string::npos)
          r.c += atoi(width.c_str()); // fixed width, numbers that fit
        else {
          std::string sp;
          for (char ch : spec)
            if (!strchr("lhzjtL", ch))
              sp += ch;
          if (sp == "%u" || sp == "%i")
            sp = "%d";
          r.add(atom("len(" + sp + "," + (a->getType()->isIntegerTy() ? eval(a, w, {}).str() : name(a, w)) + ")"));
        }
      }
      i = j;
    }
    return r;
  }
  // length of a string
  Lin text(Value *V, const Way *w) {
    Value *v = V;
    if (w)
      while (auto *p = dyn_cast<PHINode>(v)) {
        auto it = w->pred.find(p->getParent());
        if (it == w->pred.end() || !it->second || p->getBasicBlockIndex(it->second) < 0)
          break;
        v = p->getIncomingValueForBlock(it->second);
      }
    auto ss = stringsOf(v);
    bool same = true;
    for (auto &s : ss)
      same &= s.size() == ss[0].size() && s.find(HOLE) == std::string::npos;
    if (same)
      return num(ss[0].size());
    return atom("strlen(" + name(v, w) + ",)");
  }
  // the print call whose text a buffer holds at a place
  CallBase *printed(Value *buf, Instruction *at) {
    for (Instruction *I = at->getPrevNode(); ; I = I->getPrevNode()) {
      while (!I) {
        BasicBlock *B = at->getParent()->getSinglePredecessor();
        if (!B)
          return nullptr;
        at = B->getTerminator();
        I = at;
      }
      auto *C = dyn_cast<CallBase>(I);
      if (!C)
        continue;
      StringRef n = calleeName(C);
      if ((n == "sprintf" || n == "snprintf") && C->getArgOperand(0)->stripPointerCasts() == buf->stripPointerCasts())
        return C;
      for (auto &a : C->args())
        if (a->stripPointerCasts() == buf->stripPointerCasts() && n != "strlen" && !n.startswith("llvm."))
          return nullptr;
    }
  }
  Lin printLength(CallBase *C, unsigned from, const Way *w) {
    Value *fv = C->getArgOperand(from);
    std::vector<Value *> args;
    for (unsigned i = from + 1; i < C->arg_size(); i++)
      args.push_back(C->getArgOperand(i));
    if (w)
      while (auto *p = dyn_cast<PHINode>(fv)) {
        auto it = w->pred.find(p->getParent());
        if (it == w->pred.end() || !it->second || p->getBasicBlockIndex(it->second) < 0)
          break;
        fv = p->getIncomingValueForBlock(it->second);
      }
    auto fs = stringsOf(fv);
    std::set<std::string> forms;
    Lin r;
    for (auto &f : fs) {
      if (f.find(HOLE) != std::string::npos)
        return atom(priv(C));
      r = formatted(f, args, w);
      forms.insert(r.str());
    }
    if (forms.size() == 1)
      return r;
    std::string s = "one{";
    for (auto &x : forms)
      s += x + "|";
    return atom(s + "}");
  }
  // single bits that the conditions of a way decide
  std::map<const Way *, std::map<std::string, int64_t>> facts;
  const std::map<std::string, int64_t> &factsOf(const Way *w) {
    auto it = facts.find(w);
    if (it != facts.end() || !w->end)
      return it != facts.end() ? it->second : facts[nullptr];
    facts[w];
    std::map<std::string, int64_t> r;
    for (auto &l : w->lits) {
      auto *b = dyn_cast<BinaryOperator>(l.first.first);
      auto *k = b && b->getOpcode() == Instruction::And ? dyn_cast<ConstantInt>(b->getOperand(1)) : nullptr;
      if (!k || !k->getValue().isPowerOf2() || l.first.second == INT64_MIN)
        continue;
      Lin v = eval(b, w, {});
      if (v.t.size() != 1 || (v.t.begin()->second != 1 && v.t.begin()->second != -1))
        continue;
      int64_t bit = k->getSExtValue(), c = l.first.second, val;
      if (c != 0 && c != bit)
        continue;
      val = l.second ? c : bit - c;
      r[v.t.begin()->first] = (val - v.c) * v.t.begin()->second;
    }
    return facts[w] = r;
  }
  Lin eval(Value *V, const Way *w, const Env &env, int depth = 0) {
    auto it = env.find(V);
    if (it != env.end())
      return it->second;
    if (depth > 200)
      return atom(priv(V));
    if (auto *c = dyn_cast<ConstantInt>(V))
      return num(c->getSExtValue());
    if (isa<UndefValue>(V))
      return num(0);
    auto sub = [&](Value *x) { return eval(x, w, env, depth + 1); };
    if (isa<ZExtInst>(V) || isa<SExtInst>(V) || isa<TruncInst>(V) || isa<FreezeInst>(V))
      if (!cast<Instruction>(V)->getOperand(0)->getType()->isIntegerTy(1))
        return sub(cast<Instruction>(V)->getOperand(0));
    if (auto *b = dyn_cast<BinaryOperator>(V)) {
      Lin r;
      switch (b->getOpcode()) {
      case Instruction::Add:
        r = sub(b->getOperand(0));
        r.add(sub(b->getOperand(1)));
        return r;
      case Instruction::Sub:
        r = sub(b->getOperand(0));
        r.add(sub(b->getOperand(1)), -1);
        return r;
      case Instruction::Or:
        if (haveNoCommonBitsSet(b->getOperand(0), b->getOperand(1), SimplifyQuery(F.getParent()->getDataLayout()))) {
          r = sub(b->getOperand(0));
          r.add(sub(b->getOperand(1)));
          return r;
        }
        break;
      case Instruction::Mul:
        return product(sub(b->getOperand(0)), sub(b->getOperand(1)));
      case Instruction::Shl:
        if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1)); c && c->getZExtValue() < 32)
          return product(sub(b->getOperand(0)), num(1ll << c->getZExtValue()));
        break;
      default:
        break;
      }
      Lin x = sub(b->getOperand(0)), y = sub(b->getOperand(1));
      if (b->getOpcode() == Instruction::And && y.isConst() && y.c > 0 && !(y.c & (y.c - 1))) {
        // one bit of a sum
        int64_t bit = y.c, c = ((x.c % (2 * bit)) + 2 * bit) % (2 * bit);
        bool flip = c >= bit;
        Lin z;
        for (auto &t : x.t)
          if (int64_t k = ((t.second % (2 * bit)) + 2 * bit) % (2 * bit))
            z.t[t.first] = k;
        z.c = flip ? c - bit : c;
        if (z.isConst())
          return num(c & bit);
        std::string nm = "and(" + std::to_string(bit) + "," + z.str() + ")";
        Lin r = flip ? num(bit) : num(0), v = atom(nm);
        if (w) {
          auto &fs = factsOf(w);
          auto it = fs.find(nm);
          if (it != fs.end())
            v = num(it->second);
        }
        r.add(v, flip ? -1 : 1);
        return r;
      }
      if (b->getOpcode() == Instruction::Xor && y.isConst() && y.c > 0 && !(y.c & (y.c - 1)))
        if (auto *a = dyn_cast<BinaryOperator>(b->getOperand(0)); a && a->getOpcode() == Instruction::And)
          if (auto *k = dyn_cast<ConstantInt>(a->getOperand(1)); k && k->getSExtValue() == y.c) {
            Lin r = y;
            r.add(x, -1);
            return r;
          }
      std::vector<std::string> v{x.str(), y.str()};
      if (b->isCommutative())
        std::sort(v.begin(), v.end());
      return atom(std::string(b->getOpcodeName()) + "(" + v[0] + "," + v[1] + ")");
    }
    if (auto *C = dyn_cast<CallBase>(V)) {
      StringRef n = calleeName(C);
      if (n == "at.len") {
        // the length of what the call behind it writes
        return sinkLength(cast<CallBase>(C->getNextNode()), w, env, depth);
      }
      if (n == "strlen") {
        Value *s = C->getArgOperand(0);
        if (CallBase *p = printed(s, C))
          return printLength(p, calleeName(p) == "sprintf" ? 1 : 2, w);
        return text(s, w);
      }
      if (n == "sprintf" || n == "snprintf")
        return printLength(C, n == "sprintf" ? 1 : 2, w);
      return atom(C->doesNotAccessMemory() ? name(V, w) : priv(V));
    }
    if (auto *p = dyn_cast<PHINode>(V)) {
      BasicBlock *B = p->getParent();
      if (w) {
        auto it = w->pred.find(B);
        if (it != w->pred.end() && it->second && p->getBasicBlockIndex(it->second) >= 0) {
          Value *in = p->getIncomingValueForBlock(it->second);
          auto *I = dyn_cast<Instruction>(in);
          if (I)
            if (Loop *C = LI.getLoopFor(I->getParent()); C && !C->contains(B)) {
              while (C->getParentLoop() && !C->getParentLoop()->contains(B))
                C = C->getParentLoop();
              return afterLoop(I, C, it->second, w, env, depth + 1);
            }
          return sub(in);
        }
      }
      if (p->getNumIncomingValues() == 1) {
        if (auto *I = dyn_cast<Instruction>(p->getIncomingValue(0)))
          if (Loop *C = LI.getLoopFor(I->getParent()); C && !C->contains(B)) {
            while (C->getParentLoop() && !C->getParentLoop()->contains(B))
              C = C->getParentLoop();
            return afterLoop(I, C, p->getIncomingBlock(0), w, env, depth + 1);
          }
        return sub(p->getIncomingValue(0));
      }
      if (SE.isSCEVable(p->getType()) && LI.isLoopHeader(B)) {
        auto *S = SE.getSCEV(p);
        if (isa<SCEVAddRecExpr>(S))
          return ofScev(S, w, env, depth + 1);
      }
      return atom(priv(V));
    }
    return atom(name(V, w));
  }
  Lin sinkLength(CallBase *C, const Way *w, const Env &env, int depth) {
    StringRef n = calleeName(C);
    if (n == "fwrite")
      return product(eval(C->getArgOperand(1), w, env, depth + 1), eval(C->getArgOperand(2), w, env, depth + 1));
    if (n == "fprintf")
      return printLength(C, 1, w);
    if (n == "fputs")
      return text(C->getArgOperand(0), w);
    return num(1);
  }
  // rounds of a loop that is left from X
  const SCEV *trips(Loop *C, BasicBlock *X) {
    if (auto *n = W.iterations(C, X, C->getLoopLatch()))
      return n;
    auto *br = dyn_cast<BranchInst>(X->getTerminator());
    auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!ic || X != C->getHeader() || !ic->getOperand(0)->getType()->isIntegerTy())
      return nullptr;
    const SCEV *l = W.stripExt(SE.getSCEV(ic->getOperand(0))), *r = W.stripExt(SE.getSCEV(ic->getOperand(1)));
    auto pr = ic->getPredicate();
    if (!isa<SCEVAddRecExpr>(l) || cast<SCEVAddRecExpr>(l)->getLoop() != C) {
      std::swap(l, r);
      pr = CmpInst::getSwappedPredicate(pr);
    }
    if (!C->contains(br->getSuccessor(0)))
      pr = CmpInst::getInversePredicate(pr);
    auto *a = dyn_cast<SCEVAddRecExpr>(l);
    if (!a || a->getLoop() != C || !a->isAffine() || !a->getStepRecurrence(SE)->isOne() || !a->getStart()->isZero() || !SE.isLoopInvariant(r, C) ||
        (pr != CmpInst::ICMP_ULT && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_NE))
      return nullptr;
    return r;
  }
  // a loop whose first round ends it
  bool singleRound(Loop *C) {
    BasicBlock *H = C->getHeader();
    auto *br = dyn_cast<BranchInst>(H->getTerminator());
    auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!ic || !C->getLoopLatch() || !C->contains(br->getSuccessor(0)) || C->contains(br->getSuccessor(1)))
      return false;
    auto *p = dyn_cast<PHINode>(ic->getOperand(0));
    auto pr = ic->getPredicate();
    if (!p || p->getParent() != H || !C->isLoopInvariant(ic->getOperand(1)) ||
        (pr != CmpInst::ICMP_ULT && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_NE))
      return false;
    auto *n = SE.getSCEVAtScope(p->getIncomingValueForBlock(C->getLoopLatch()), C);
    return n == SE.getSCEV(ic->getOperand(1));
  }
  bool tripLin(Loop *C, BasicBlock *X, const Way *w, const Env &env, int depth, Lin &n) {
    if (auto *s = trips(C, X); s && !mentions(s, C)) {
      n = ofScev(s, w, env, depth + 1);
      return true;
    }
    // up to the end of a string
    auto *br = dyn_cast<BranchInst>(X->getTerminator());
    auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!ic || X != C->getHeader() || !ic->isEquality() || !isa<ConstantInt>(ic->getOperand(1)) || !cast<ConstantInt>(ic->getOperand(1))->isZero() ||
        (ic->getPredicate() == CmpInst::ICMP_NE) != C->contains(br->getSuccessor(0)))
      return false;
    auto *Ld = dyn_cast<LoadInst>(ic->getOperand(0));
    if (!Ld || !Ld->getType()->isIntegerTy(8))
      return false;
    auto *A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(Ld->getPointerOperand()));
    Value *base = nullptr;
    if (A && A->getLoop() == C && A->isAffine() && A->getStepRecurrence(SE)->isOne()) {
      if (auto *U = dyn_cast<SCEVUnknown>(A->getStart()))
        base = U->getValue();
    } else if (auto *g = dyn_cast<GEPOperator>(Ld->getPointerOperand()); g && g->getNumIndices() == 1) {
      auto *i = dyn_cast<SCEVAddRecExpr>(W.stripExt(SE.getSCEV(g->getOperand(1))));
      if (i && i->getLoop() == C && i->getStart()->isZero() && i->getStepRecurrence(SE)->isOne())
        base = g->getPointerOperand();
    }
    if (!base || !C->isLoopInvariant(base))
      return false;
    n = text(base, w);
    return true;
  }
  // value of V, computed in loop C, after it was left from X
  struct Rounds {
    std::set<std::string> incs;
    std::set<int64_t> resets;
    bool first = true; // rounds that leave it alone are not the first one
    Lin one;
    bool ok = true;
  };
  std::map<PHINode *, Rounds> rounds; // what one round of its loop adds
  std::set<Value *> busy;
  Lin afterLoop(Instruction *V, Loop *C, BasicBlock *X, const Way *w, const Env &env, int depth) {
    if (C->isLoopInvariant(V))
      return eval(V, w, env, depth);
    if (SE.isSCEVable(V->getType())) {
      auto *S = SE.getSCEVAtScope(V, C->getParentLoop());
      if (!mentions(S, C) && !(isa<SCEVUnknown>(S) && cast<SCEVUnknown>(S)->getValue() == V))
        return ofScev(S, w, env, depth + 1);
    }
    auto *p = dyn_cast<PHINode>(V);
    if (SE.isSCEVable(V->getType()))
      if (auto *A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(V)); A && A->getLoop() == C && A->isAffine()) {
        Lin n;
        if (p && tripLin(C, X, w, env, depth, n)) {
          Lin r = ofScev(A->getStart(), w, env, depth + 1);
          r.add(product(ofScev(A->getStepRecurrence(SE), w, env, depth + 1), n));
          return r;
        }
        return ofScev(A, w, env, depth + 1);
      }
    if (!p || p->getParent() != C->getHeader() || !C->getLoopLatch() || !C->getLoopPreheader())
      return atom(priv(V));
    auto rd = rounds.find(p);
    if (rd == rounds.end()) {
      if (!busy.insert(V).second)
        return atom(priv(V));
      Rounds r;
      bool single = singleRound(C);
      for (auto &q : waysOf(C, C->getLoopLatch())) {
        Env e;
        if (single)
          for (auto &h : C->getHeader()->phis())
            if (h.getType()->isIntegerTy())
              e[&h] = eval(h.getIncomingValueForBlock(C->getLoopPreheader()), nullptr, {}, depth + 1);
        e[p] = atom("@");
        Lin l = eval(p->getIncomingValueForBlock(C->getLoopLatch()), &q, e, depth + 1);
        auto at = l.t.find("@");
        if (at == l.t.end() && l.isConst()) {
          r.resets.insert(l.c);
          continue;
        }
        if (at == l.t.end() || at->second != 1 || !l.sure()) {
          r.ok = false;
          if (getenv("DUMP05"))
            errs() << "not additive: " << *p << " : " << l.str() << "\n";
          break;
        }
        l.t.erase("@");
        for (auto &x : l.t)
          if (x.first.find('@') != std::string::npos)
            r.ok = false;
        if (l.isConst() && l.c == 0 && r.first) {
          bool later = false;
          for (auto &x : q.lits)
            if (!x.second && x.first.second == 0 && SE.isSCEVable(x.first.first->getType()))
              if (auto *A = dyn_cast<SCEVAddRecExpr>(W.stripExt(SE.getSCEV(x.first.first))))
                later |= A->getLoop() == C && A->getStart()->isZero();
          r.first = later;
        } else
          r.first = false;
        r.one = l;
        r.incs.insert(l.str());
      }
      busy.erase(V);
      rd = rounds.insert({p, r}).first;
    }
    auto &incs = rd->second.incs;
    auto &resets = rd->second.resets;
    auto &one = rd->second.one;
    Lin start = eval(p->getIncomingValueForBlock(C->getLoopPreheader()), w, env, depth + 1);
    if (!rd->second.ok || exceeded)
      return atom(priv(V));
    if (incs.empty() && resets.size() == 1)
      return num(*resets.begin()); // there is at least one round
    if (resets.size() == 1 && incs.size() == 1 && rd->second.first)
      return num(*resets.begin()); // its first round has set it
    if (!resets.empty())
      return atom(priv(V));
    if (incs.size() == 1 && one.isConst() && one.c == 0)
      return start;
    if (incs.size() == 1 && singleRound(C)) {
      start.add(one);
      return start;
    }
    if (incs.size() == 1)
      if (Lin n; tripLin(C, X, w, env, depth, n)) {
        start.add(product(one, n));
        return start;
      }
    std::string s = "rounds" + std::to_string(C->getLoopDepth()) + "{";
    for (auto &x : incs)
      s += x + " | ";
    start.add(atom(s + "}"));
    return start;
  }

  // ---- ways through a region --------------------------------------------------
  std::map<std::pair<Loop *, BasicBlock *>, std::vector<Way>> memo;
  static std::pair<std::pair<Value *, int64_t>, int> literal(Value *c) {
    // condition as (value, constant), 1: equal, 0: different; -1: as it is
    if (auto *i = dyn_cast<ICmpInst>(c))
      if (auto *k = dyn_cast<ConstantInt>(i->getOperand(1))) {
        int64_t v = k->getSExtValue();
        switch (i->getPredicate()) {
        case CmpInst::ICMP_EQ:
          return {{i->getOperand(0), v}, 1};
        case CmpInst::ICMP_NE:
          return {{i->getOperand(0), v}, 0};
        case CmpInst::ICMP_UGT:
          if (v == 0)
            return {{i->getOperand(0), 0}, 0};
          break;
        case CmpInst::ICMP_ULT:
          if (v == 1)
            return {{i->getOperand(0), 0}, 1};
          break;
        default:
          break;
        }
      }
    return {{c, INT64_MIN}, -1};
  }
  std::vector<Way> &waysOf(Loop *L, BasicBlock *to) {
    auto key = std::make_pair(L, to);
    auto it = memo.find(key);
    if (it != memo.end())
      return it->second;
    auto &out = memo[key];
    out.reserve(20000);
    Way w;
    w.region = L;
    BasicBlock *s = L ? L->getHeader() : &F.getEntryBlock();
    go(L, s, nullptr, to, w, out);
    ways += out.size();
    return out;
  }
  void go(Loop *L, BasicBlock *B, BasicBlock *from, BasicBlock *to, Way &w, std::vector<Way> &out) {
    if (exceeded || out.size() >= 4000) {
      exceeded = true;
      return;
    }
    if (w.pred.count(B))
      return;
    if (from)
      w.pred[B] = from;
    else
      w.pred[B] = nullptr;
    if (L && B == L->getHeader())
      w.pred.erase(B); // its phis are the round's start
    bool mark = L && B == L->getHeader();
    auto leave = [&] { w.pred.erase(B); };
    Loop *in = LI.getLoopFor(B);
    if (B == to && in == L) {
      out.push_back(w);
      out.back().end = B;
      leave();
      return;
    }
    if (in != L) {
      // an inner loop, entered at its header: go on behind it
      while (in && in->getParentLoop() != L)
        in = in->getParentLoop();
      if (!in || in->getHeader() != B) {
        leave();
        return;
      }
      SmallVector<std::pair<BasicBlock *, BasicBlock *>, 4> ex;
      SmallVector<Loop::Edge, 4> edges;
      in->getExitEdges(edges);
      for (auto &e : edges)
        if (!deadEnd(const_cast<BasicBlock *>(e.second)))
          go(L, const_cast<BasicBlock *>(e.second), const_cast<BasicBlock *>(e.first), to, w, out);
      leave();
      return;
    }
    auto *br = dyn_cast<BranchInst>(B->getTerminator());
    for (unsigned k = 0; k < B->getTerminator()->getNumSuccessors(); k++) {
      BasicBlock *S = B->getTerminator()->getSuccessor(k);
      if (L && (!L->contains(S) || S == L->getHeader()))
        continue;
      if (deadEnd(S))
        continue;
      if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
        bool val = k == 0;
        Value *c = br->getCondition();
        // what a loop that is over leaves behind
        {
          Value *x = c;
          auto *ic = dyn_cast<ICmpInst>(c);
          if (ic && ic->isEquality() && isa<ConstantInt>(ic->getOperand(1)))
            x = ic->getOperand(0);
          Value *y = x;
          uint64_t mask = ~0ull;
          for (;;)
            if (isa<TruncInst>(y)) {
              mask &= maskTrailingOnes<uint64_t>(y->getType()->getIntegerBitWidth());
              y = cast<CastInst>(y)->getOperand(0);
            } else if (isa<ZExtInst>(y))
              y = cast<CastInst>(y)->getOperand(0);
            else if (auto *b = dyn_cast<BinaryOperator>(y); b && b->getOpcode() == Instruction::And && isa<ConstantInt>(b->getOperand(1))) {
              mask &= cast<ConstantInt>(b->getOperand(1))->getZExtValue();
              y = b->getOperand(0);
            } else
              break;
          if (auto *p = dyn_cast<PHINode>(y); p && p->getNumIncomingValues() == 1 && y->getType()->isIntegerTy()) {
            Lin l = eval(y, &w, {});
            if (l.isConst()) {
              l.c &= mask;
              bool t = l.c != 0;
              if (ic)
                t = (l.c == cast<ConstantInt>(ic->getOperand(1))->getSExtValue()) == (ic->getPredicate() == CmpInst::ICMP_EQ);
              c = ConstantInt::get(c->getType(), t);
            }
          }
        }
        // a condition merged from several: known on this way
        for (int n = 0; n < 8; n++) {
          auto *p = dyn_cast<PHINode>(c);
          if (!p)
            break;
          auto it = w.pred.find(p->getParent());
          if (it == w.pred.end() || !it->second || p->getBasicBlockIndex(it->second) < 0)
            break;
          c = p->getIncomingValueForBlock(it->second);
        }
        if (isa<PHINode>(c) && c->getType()->isIntegerTy(1)) {
          Lin l = eval(c, &w, {});
          if (l.isConst())
            c = ConstantInt::get(c->getType(), l.c != 0);
        }
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
          if (ci->isOne() == val)
            go(L, S, B, to, w, out);
          continue;
        }
        if (auto *ic = dyn_cast<ICmpInst>(c); ic && ic->getOperand(0)->getType()->isIntegerTy() && isa<ConstantInt>(ic->getOperand(1)))
          if (Lin x = eval(ic->getOperand(0), &w, {}); x.isConst()) {
            auto *K = cast<ConstantInt>(ic->getOperand(1));
            if (ICmpInst::compare(APInt(K->getBitWidth(), x.c, true), K->getValue(), ic->getPredicate()) == val)
              go(L, S, B, to, w, out);
            continue;
          }
        auto l = literal(c);
        bool v = l.second < 0 ? val : (l.second == 1) == val;
        auto f = w.lits.find(l.first);
        if (f != w.lits.end()) {
          if (f->second == v)
            go(L, S, B, to, w, out);
          continue;
        }
        w.lits[l.first] = v;
        go(L, S, B, to, w, out);
        w.lits.erase(l.first);
      } else
        go(L, S, B, to, w, out);
    }
    (void)mark;
    leave();
  }
};

const char *PIPE = "function(sroa,early-cse<memssa>,gvn<no-pre;no-load-pre>,simplifycfg<no-speculate-blocks;no-sink-common-insts;no-hoist-"
                   "common-insts;no-switch-to-lookup;no-switch-range-to-icmp>,loop-simplify,lcssa)";

// the ghost counter: at.at(bytes so far) before every output call, at.end(bytes) before every return
struct Marked {
  std::unique_ptr<Writer> W;
  std::vector<CallBase *> at;  // marker in front of each output call
  std::vector<CallBase *> end; // marker in front of each return
  std::vector<CallBase *> record;
};
Marked mark(std::unique_ptr<Writer> w, Layouts &L, bool empty = false) {
  Marked m;
  Function &F = *w->F;
  Module &M = *F.getParent();
  auto &C = F.getContext();
  Type *I64 = Type::getInt64Ty(C);
  w->collect();
  std::vector<Instruction *> sinks;
  for (auto &e : w->emits)
    if (e.sink)
      sinks.push_back(e.I);
  auto eff = [&](Function *f, MemoryEffects e) {
    f->setMemoryEffects(e);
    f->addFnAttr(Attribute::NoUnwind);
    f->addFnAttr(Attribute::WillReturn);
  };
  auto *At = cast<Function>(M.getOrInsertFunction("at.at", Type::getVoidTy(C), I64, I64).getCallee());
  auto *End = cast<Function>(M.getOrInsertFunction("at.end", Type::getVoidTy(C), I64, I64).getCallee());
  auto *Len = cast<Function>(M.getOrInsertFunction("at.len", I64, I64).getCallee());
  eff(At, MemoryEffects::inaccessibleMemOnly());
  eff(End, MemoryEffects::inaccessibleMemOnly());
  eff(Len, MemoryEffects::none());
  IRBuilder<> b(&F.getEntryBlock(), F.getEntryBlock().begin());
  auto *g = b.CreateAlloca(I64, nullptr, "bytes");
  auto *r = b.CreateAlloca(I64, nullptr, "records");
  b.CreateStore(b.getInt64(0), g);
  b.CreateStore(b.getInt64(0), r);
  long id = 0;
  for (auto *s : sinks) {
    b.SetInsertPoint(s);
    auto *v = b.CreateLoad(I64, g);
    b.CreateCall(At, {v, b.CreateLoad(I64, r)});
    Value *n = nullptr;
    {
      auto *c = cast<CallBase>(s);
      StringRef nm = calleeName(c);
      if (nm == "fwrite") {
        auto *x = dyn_cast<ConstantInt>(c->getArgOperand(1)), *y = dyn_cast<ConstantInt>(c->getArgOperand(2));
        if (x && y)
          n = b.getInt64(x->getZExtValue() * y->getZExtValue());
      } else if (nm == "fputc" || nm == "putc" || nm == "_IO_putc")
        n = b.getInt64(1);
    }
    if (!n)
      n = b.CreateCall(Len, {b.getInt64(++id)});
    b.SetInsertPoint(s->getNextNode());
    b.CreateStore(b.CreateAdd(v, n), g);
  }
  std::vector<CallBase *> recs;
  for (auto &I : instructions(F)) {
    if (auto *c = dyn_cast<CallBase>(&I); c && calleeName(c) == "at.record")
      recs.push_back(c);
  }
  for (auto *c : recs) {
    if (c->getArgOperand(0) == w->file) {
      b.SetInsertPoint(c);
      b.CreateStore(b.CreateAdd(b.CreateLoad(I64, r), b.getInt64(1)), r);
    }
    c->eraseFromParent();
  }
  for (auto &B : F)
    if (isa<ReturnInst>(B.getTerminator())) {
      b.SetInsertPoint(B.getTerminator());
      b.CreateCall(End, {b.CreateLoad(I64, g), b.CreateLoad(I64, r)});
    }
  // there is no outline
  if (empty && w->shape)
    for (auto &I : instructions(F))
      if (auto *Ld = dyn_cast<LoadInst>(&I); Ld && Ld->getType()->isIntegerTy()) {
        Leaf lf;
        if (w->leafOfLoad(Ld, lf) && lf.field == "shape.length")
          Ld->replaceAllUsesWith(ConstantInt::get(Ld->getType(), 0));
      }
  // there is at least one outline
  for (auto &I : instructions(F))
    if (auto *c = dyn_cast<ICmpInst>(&I))
      if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1)))
        if (auto *Ld = dyn_cast<LoadInst>(c->getOperand(0))) {
          Leaf lf;
          if (!w->shape || !w->leafOfLoad(Ld, lf) || lf.field != "shape.length")
            continue;
          ConstantRange r(APInt(k->getBitWidth(), 1), APInt(k->getBitWidth(), 1ull << 30));
          ConstantRange x(k->getValue());
          if (r.icmp(c->getPredicate(), x))
            c->replaceAllUsesWith(ConstantInt::getTrue(C));
          else if (r.icmp(c->getInversePredicate(), x))
            c->replaceAllUsesWith(ConstantInt::getFalse(C));
        }
  auto R = std::move(w->R);
  std::string suf = w->suffix;
  w.reset();
  R->FAM.clear();
  R->run(PIPE);
  R->FAM.clear();
  m.W = std::make_unique<Writer>(suf, std::move(R), L);
  for (auto &I : instructions(*m.W->F))
    if (auto *c = dyn_cast<CallBase>(&I)) {
      if (calleeName(c) == "at.at")
        m.at.push_back(c);
      else if (calleeName(c) == "at.end")
        m.end.push_back(c);
    }
  return m;
}
CallBase *sinkOf(CallBase *at) {
  for (Instruction *I = at->getNextNode(); I; I = I->getNextNode())
    if (auto *c = dyn_cast<CallBase>(I); c && isSink(calleeName(c)))
      return c;
  return nullptr;
}

// value of which X is the byte at bit SHIFT
Value *wordOf(Value *x, uint64_t &shift) {
  shift = 0;
  for (;;) {
    if (auto *t = dyn_cast<TruncInst>(x))
      x = t->getOperand(0);
    else if (auto *z = dyn_cast<ZExtInst>(x))
      x = z->getOperand(0);
    else if (auto *b = dyn_cast<BinaryOperator>(x)) {
      auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
      if (!c)
        return x;
      if (b->getOpcode() == Instruction::And && (c->getZExtValue() & 255) == 255)
        x = b->getOperand(0);
      else if (b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::AShr) {
        shift += c->getZExtValue();
        x = b->getOperand(0);
      } else
        return x;
    } else
      return x;
  }
}

struct C05 {
  Program &P;
  Report &R;
  std::map<std::string, std::string> said; // what was compared, for the report
  C05(Program &P, Report &R) : P(P), R(R) {}

  // comparisons are judged together: where what is said and what is so take the same values over all ways, a difference on
  // one way only means that its two halves belong to different runs
  struct Pair {
    std::string rule, fn, where;
    Lin said, real;
  };
  std::map<std::string, std::vector<Pair>> pairs;
  void compare(const std::string &rule, const std::string &fn, const std::string &where, const std::string &what, const Lin &announced, const Lin &real) {
    pairs[what].push_back({rule, fn, where, announced, real});
  }
  void judge() {
    for (auto &x : pairs) {
      std::set<std::string> a, b;
      for (auto &p : x.second) {
        a.insert(p.said.str());
        b.insert(p.real.str());
      }
      for (auto &p : x.second)
        compare(p.rule, p.fn, p.where, x.first, p.said, p.real, a == b);
    }
    pairs.clear();
  }
  void compare(const std::string &rule, const std::string &fn, const std::string &where, const std::string &what, const Lin &announced, const Lin &real,
               bool same) {
    if (announced.str() == real.str()) {
      R.count("announced numbers shown true");
      R.sample(what + " = " + real.str());
      return;
    }
    Lin d = announced;
    d.add(real, -1);
    auto ends = [](const Lin &l) {
      std::set<std::string> r;
      std::string t = l.str();
      static const std::regex re("end\\d+");
      for (std::sregex_iterator i(t.begin(), t.end(), re), e; i != e; ++i)
        r.insert(i->str());
      return r;
    };
    if (same || !d.sure() || ends(announced) != ends(real)) {
      R.count("announced numbers not decided");
      if (getenv("DUMP05"))
        errs() << "undecided " << fn << " " << what << "\n  says " << announced.str() << "\n  real " << real.str() << "\n";
      return;
    }
    R.finding(rule, fn, where, what, what + " is announced as " + announced.str() + " but is " + real.str());
  }

  // bytes written by an output call of known size, as values
  std::vector<Value *> bytesOf(Writer &W, CallBase *C) {
    std::vector<Value *> r;
    StringRef n = calleeName(C);
    if (n == "fputc" || n == "putc" || n == "_IO_putc")
      return {C->getArgOperand(0)};
    if (n != "fwrite")
      return r;
    auto *a = dyn_cast<ConstantInt>(C->getArgOperand(1)), *b = dyn_cast<ConstantInt>(C->getArgOperand(2));
    if (!a || !b || a->getZExtValue() * b->getZExtValue() > 8)
      return r;
    uint64_t k = a->getZExtValue() * b->getZExtValue();
    auto &DL = W.F->getParent()->getDataLayout();
    APInt o0(64, 0);
    auto *A = dyn_cast<AllocaInst>(C->getArgOperand(0)->stripAndAccumulateConstantOffsets(DL, o0, true));
    if (!A)
      return r;
    if (k == 1) {
      bool complete = false;
      auto st = W.reachingStores(C->getArgOperand(0), C, complete);
      if (complete && st.size() == 1)
        r.push_back(st[0]);
      return r;
    }
    std::map<uint64_t, std::vector<Value *>> st;
    for (auto &I : instructions(*W.F))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        APInt o(64, 0);
        if (S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true) == A && S->getValueOperand()->getType()->isIntegerTy(8) &&
            W.DT.dominates(S, C))
          st[o.getZExtValue()].push_back(S->getValueOperand());
      }
    for (uint64_t i = 0; i < k; i++) {
      auto &v = st[o0.getZExtValue() + i];
      if (v.size() != 1)
        return {};
      r.push_back(v[0]);
    }
    return r;
  }
  // the number made of consecutive bytes
  bool number(std::vector<Value *> bs, bool little, Value *&V, int64_t &k) {
    V = nullptr;
    k = 0;
    bool constant = true;
    for (size_t i = 0; i < bs.size(); i++) {
      unsigned sh = 8 * (little ? i : bs.size() - 1 - i);
      if (auto *c = dyn_cast<ConstantInt>(bs[i])) {
        k |= (int64_t)(c->getZExtValue() & 255) << sh;
        continue;
      }
      constant = false;
      uint64_t s;
      Value *v = wordOf(bs[i], s);
      if (s != sh || (V && v != V))
        return false;
      V = v;
    }
    if (constant)
      V = nullptr;
    else if (k)
      return false;
    return true;
  }

  // ---- functions that both write a record and tell its size -------------------
  std::set<Function *> sized;
  void records() {
    for (auto &F : *P.M) {
      if (F.isDeclaration() || F.arg_empty() || !F.getReturnType()->isIntegerTy() || !F.getArg(0)->getType()->isPointerTy())
        continue;
      bool asked = false;
      for (auto *U : F.users())
        if (auto *C = dyn_cast<CallBase>(U))
          if (C->getCalledFunction() == &F && C->arg_size() && isa<ConstantPointerNull>(C->getArgOperand(0)))
            asked = true;
      int fp = paramOfType(F, "");
      (void)fp;
      bool writes = false;
      if (asked)
        for (auto &I : instructions(F))
          if (auto *C = dyn_cast<CallBase>(&I))
            for (auto &a : C->args())
              if (auto *l = dyn_cast<LoadInst>(a.get()))
                if (auto *al = dyn_cast<AllocaInst>(l->getPointerOperand()))
                  for (auto *u : al->users())
                    if (auto *s = dyn_cast<StoreInst>(u))
                      writes |= s->getValueOperand() == F.getArg(0);
      if (asked && writes)
        sized.insert(&F);
    }
    // innermost records first: functions that call no other sized function write one record
    for (auto *F : sized) {
      auto r = P.root(F->getName().str(), Prep());
      if (!r)
        continue;
      for (auto &I : instructions(*r->F))
        if (auto *c = dyn_cast<ICmpInst>(&I))
          if (c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)) && c->getOperand(0) == r->F->getArg(0))
            c->replaceAllUsesWith(ConstantInt::get(c->getType(), c->getPredicate() == CmpInst::ICMP_NE));
      r->simplify();
      auto m = mark(std::make_unique<Writer>("", std::move(r), P.L), P.L);
      Counter C(*m.W);
      R.count("record functions");
      std::string fn = F->getSubprogram() ? F->getSubprogram()->getName().str() : F->getName().str();
      for (auto *e : m.end) {
        auto *ret = cast<ReturnInst>(e->getParent()->getTerminator());
        for (auto &w : C.waysOf(nullptr, e->getParent()))
          compare("record-size", fn, whereOf(ret), "size of the record written by " + fn, C.eval(ret->getReturnValue(), &w, {}),
                  C.eval(e->getArgOperand(0), &w, {}));
      }
      if (C.exceeded)
        R.count("record functions not followed");
      // the size announced in the record itself: the second word
      bool single = true;
      for (auto &I : instructions(*F))
        if (auto *c = dyn_cast<CallBase>(&I))
          if (c->getCalledFunction() && sized.count(c->getCalledFunction()))
            single = false;
      if (!single)
        continue;
      std::map<int64_t, std::pair<CallBase *, Value *>> at;
      for (auto *a : m.at)
        if (auto *k = dyn_cast<ConstantInt>(constOf(C, a)))
          if (auto *s = sinkOf(a)) {
            auto bs = bytesOf(*m.W, s);
            for (size_t i = 0; i < bs.size(); i++)
              at[k->getSExtValue() + i] = {s, bs[i]};
          }
      Value *V;
      int64_t k;
      auto field = [&](int64_t off, int n, Lin &l, const Way *w = nullptr) {
        std::vector<Value *> bs;
        for (int i = 0; i < n; i++) {
          if (!at.count(off + i))
            return false;
          bs.push_back(at[off + i].second);
        }
        if (!number(bs, true, V, k))
          return false;
        l = V ? C.eval(V, w, {}) : num(k);
        return true;
      };
      Lin l;
      for (auto *e : m.end)
        for (auto &w : C.waysOf(nullptr, e->getParent()))
          if (field(4, 4, l, &w))
            compare("record-size", fn, whereOf(at[4].first), "size announced in the record of " + fn, l, C.eval(e->getArgOperand(0), &w, {}));
      // records of 16 bit points: their number
      Lin type;
      if (field(0, 4, type) && type.isConst() && type.c >= 85 && type.c <= 89)
        for (auto *e : m.end)
          for (auto &w : C.waysOf(nullptr, e->getParent())) {
            if (!field(24, 4, l, &w))
              continue;
            Lin n = C.eval(e->getArgOperand(0), &w, {});
            n.c -= 28;
            compare("point-count", fn, whereOf(at[24].first), "four times the number of points in the record of " + fn, C.product(num(4), l), n);
          }
      // the end record repeats its size at its end
      if (field(0, 4, type) && type.isConst() && type.c == 14)
        for (auto *e : m.end)
          for (auto &w : C.waysOf(nullptr, e->getParent())) {
            Lin n = C.eval(e->getArgOperand(0), &w, {});
            if (n.isConst() && field(n.c - 4, 4, l))
              compare("record-size", fn, whereOf(at[n.c - 4].first), "size repeated at the end of the record of " + fn, l, n);
          }
      // one more record each time it is called with a file
      {
        Function *G = P.M->getFunction(F->getName());
        auto *Rec = cast<Function>(P.M->getOrInsertFunction("at.record", Type::getVoidTy(P.C), PointerType::get(P.C, 0)).getCallee());
        Rec->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
        marks.push_back({G, Rec});
      }
    }
    // functions that write a record without ever being asked for its size
    std::set<DIFile *> files;
    for (auto *F : sized)
      if (F->getSubprogram())
        files.insert(F->getSubprogram()->getFile());
    for (auto &F : *P.M) {
      if (F.isDeclaration() || sized.count(&F) || !F.getSubprogram() || !files.count(F.getSubprogram()->getFile()) || F.arg_empty() ||
          !F.getArg(0)->getType()->isPointerTy() || !F.hasLocalLinkage())
        continue;
      bool calls = false, used = false;
      for (auto &I : instructions(F))
        if (auto *c = dyn_cast<CallBase>(&I))
          calls |= c->getCalledFunction() && sized.count(c->getCalledFunction());
      for (auto *U : F.users())
        used |= isa<CallBase>(U);
      if (calls || !used)
        continue;
      auto r = P.root(F.getName().str(), Prep());
      if (!r)
        continue;
      for (auto &I : instructions(*r->F))
        if (auto *c = dyn_cast<ICmpInst>(&I))
          if (c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)) && c->getOperand(0) == r->F->getArg(0))
            c->replaceAllUsesWith(ConstantInt::get(c->getType(), c->getPredicate() == CmpInst::ICMP_NE));
      r->simplify();
      auto m = mark(std::make_unique<Writer>("", std::move(r), P.L), P.L);
      if (m.at.empty() || m.end.size() != 1)
        continue;
      Counter C(*m.W);
      std::map<int64_t, Value *> at;
      for (auto *a : m.at)
        if (auto *k = dyn_cast<ConstantInt>(constOf(C, a)))
          if (auto *s = sinkOf(a)) {
            auto bs = bytesOf(*m.W, s);
            for (size_t i = 0; i < bs.size(); i++)
              at[k->getSExtValue() + i] = bs[i];
          }
      if (!at.count(4) || !at.count(5) || !at.count(6) || !at.count(7))
        continue;
      Value *V;
      int64_t k;
      if (!number({at[4], at[5], at[6], at[7]}, true, V, k))
        continue;
      bool is = false;
      for (auto &w : C.waysOf(nullptr, m.end[0]->getParent()))
        is |= (V ? C.eval(V, &w, {}) : num(k)).str() == C.eval(m.end[0]->getArgOperand(0), &w, {}).str();
      if (is) {
        auto *Rec = cast<Function>(P.M->getOrInsertFunction("at.record", Type::getVoidTy(P.C), PointerType::get(P.C, 0)).getCallee());
        Rec->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
        marks.push_back({&F, Rec});
        R.count("record functions never asked for their size");
      }
    }
    judge();
    for (auto &x : marks) {
      IRBuilder<> b(&*x.first->getEntryBlock().getFirstInsertionPt());
      auto *c = b.CreateCall(x.second, {x.first->getArg(0)});
      if (auto *sp = x.first->getSubprogram())
        c->setDebugLoc(DILocation::get(P.C, sp->getLine(), 0, sp));
    }
  }
  std::vector<std::pair<Function *, Function *>> marks;
  Value *constOf(Counter &C, CallBase *at) {
    Value *v = at->getArgOperand(0);
    if (isa<ConstantInt>(v))
      return v;
    Lin l = C.eval(v, nullptr, {});
    if (l.isConst())
      return ConstantInt::get(v->getType(), l.c);
    return v;
  }

  // ---- whole files --------------------------------------------------------------
  std::vector<std::string> all;
  void file(Function *f, const std::string &suf, const Spec &s, bool empty = false) {
    auto w0 = specialise(P, f, suf, s);
    if (!w0)
      return;
    auto m = mark(std::move(w0), P.L, empty);
    Counter C(*m.W);
    std::string fn = f->getName().str();
    if (getenv("IR05"))
      m.W->F->print(errs());
    auto has = [&](const char *x) { return ("," + suf + ",").find("," + std::string(x) + ",") != std::string::npos; };
    if (has("EMF"))
      binary(m, C, fn, s, true);
    if (has("PDF"))
      pdf(m, C, fn, s);
    if (has("CGM"))
      elements(m, C, fn);
    judge();
    if (C.exceeded)
      R.count("writers with too many ways");
    R.count("ways followed", C.ways);
  }
  void binary(Marked &m, Counter &C, const std::string &fn, const Spec &s, bool little) {
    std::map<int64_t, std::pair<CallBase *, Value *>> at;
    CallBase *end = nullptr;
    for (auto *e : m.end)
      if (!isa<ConstantInt>(e->getArgOperand(0)))
        end = e;
    if (!end)
      return;
    auto &ws = C.waysOf(nullptr, end->getParent());
    if (getenv("DUMP05"))
      errs() << fn << " " << s.name << " ways " << ws.size() << " exceeded " << C.exceeded << "\n";
    for (auto &w : ws) {
      at.clear();
      for (auto *a : m.at) {
        if (!w.pred.count(a->getParent()))
          continue;
        Lin k = C.eval(a->getArgOperand(0), &w, {});
        auto *sk = sinkOf(a);
        if (!k.isConst() || !sk)
          continue;
        auto bs = bytesOf(*m.W, sk);
        for (size_t i = 0; i < bs.size(); i++)
          at[k.c + i] = {sk, bs[i]};
      }
      auto check = [&](int64_t off, const std::string &what, Lin real) {
        std::vector<Value *> bs;
        for (int i = 0; i < 4; i++) {
          if (!at.count(off + i)) {
            R.count("announced numbers not found");
            return;
          }
          bs.push_back(at[off + i].second);
        }
        Value *V;
        int64_t k;
        if (!number(bs, little, V, k)) {
          R.count("announced numbers not found");
          return;
        }
        compare("file-size", fn, whereOf(at[off].first), what, V ? C.eval(V, &w, {}) : num(k), real);
      };
      Lin total = C.eval(end->getArgOperand(0), &w, {});
      if (little) {
        check(48, "size of the file", total);
        check(52, "number of records", C.eval(end->getArgOperand(1), &w, {}));
      } else {
        total.c -= 8;
        check(4, "size of the form", total);
      }
    }
  }
  // ---- CGM: elements that announce the length of their parameters ------------------
  // A file is read as it is written: the state is what a reader expects next. Strings have lengths that are not known here;
  // they may end at any byte that can begin an element, so a way has a set of readings, and is wrong when none is left.
  struct Reading {
    int kind; // 0 between elements, 1 inside an element header, 2 inside parameters, 3 inside a string element
    int n;    // first byte of the header (-1: not known) or bytes left
    unsigned head; // header of the element, for the report
    unsigned seen = 0; // 1: the picture has begun, 2: it has ended, 4: the file has ended
    bool operator<(const Reading &o) const { return std::tie(kind, n, head, seen) < std::tie(o.kind, o.n, o.head, o.seen); }
  };
  using Readings = std::set<Reading>;
  static bool fromLength(Value *V, int depth = 0) {
    if (depth > 12)
      return false;
    if (auto *c = dyn_cast<CallBase>(V))
      return calleeName(c) == "strlen";
    if (isa<CastInst>(V) || isa<BinaryOperator>(V) || isa<SelectInst>(V) || isa<PHINode>(V))
      for (auto &o : cast<Instruction>(V)->operands())
        if (fromLength(o.get(), depth + 1))
          return true;
    return false;
  }
  // string elements: the announced length is the length of what follows, and elements begin at even places
  void texts(Marked &m, Counter &C, const std::string &fn) {
    ReversePostOrderTraversal<Function *> RPO(m.W->F);
    for (auto *end : m.end)
      for (auto &w : C.waysOf(nullptr, end->getParent())) {
        // what is known to be even or odd on this way
        std::map<std::string, bool> odd;
        bool possible = true;
        auto parity = [&](const Lin &l, std::string &open, bool &p) { // one term at most is not known
          p = l.c & 1;
          open.clear();
          for (auto &t : l.t)
            if (t.second & 1) {
              auto k = odd.find(t.first);
              if (k != odd.end())
                p ^= k->second;
              else if (evenRounds(t.first))
                continue;
              else if (!open.empty())
                return false;
              else
                open = t.first;
            }
          return true;
        };
        for (auto &x : w.lits) {
          auto *b = dyn_cast<BinaryOperator>(x.first.first);
          auto *k = b ? dyn_cast<ConstantInt>(b->getOperand(1)) : nullptr;
          if (!k || !((b->getOpcode() == Instruction::And && k->isOne()) ||
                      ((b->getOpcode() == Instruction::URem || b->getOpcode() == Instruction::SRem) && k->getZExtValue() == 2)))
            continue;
          if (x.first.second != 0 && x.first.second != 1)
            continue;
          bool isOdd = (x.first.second == 1) == x.second, p;
          std::string open;
          if (!parity(C.eval(b->getOperand(0), &w, {}), open, p))
            continue;
          if (open.empty())
            possible &= p == isOdd;
          else
            odd[open] = p != isOdd;
        }
        if (!possible)
          continue;
        struct Byte {
          CallBase *c;
          Value *v;
          Lin at;
        };
        std::vector<Byte> bs;
        for (auto *B : RPO)
          if (w.pred.count(B) && !m.W->LI.getLoopFor(B))
            for (auto &I : *B)
              if (auto *a = dyn_cast<CallBase>(&I); a && calleeName(a) == "at.at")
                if (auto *k = sinkOf(a)) {
                  Lin l = C.eval(a->getArgOperand(0), &w, {});
                  for (auto *v : bytesOf(*m.W, k)) {
                    bs.push_back({k, v, l});
                    l.c++;
                  }
                }
        for (size_t i = 0; i + 4 < bs.size(); i++) {
          auto word = [&](size_t j, Lin &l, bool &length) {
            Lin d = bs[j + 1].at;
            d.add(bs[j].at, -1);
            Value *V;
            int64_t k;
            if (!d.isConst() || d.c != 1 || !number({bs[j].v, bs[j + 1].v}, false, V, k))
              return false;
            length = V && fromLength(V);
            l = V ? C.eval(V, &w, {}) : num(k);
            return true;
          };
          Lin n;
          bool length;
          size_t from = 0;
          if (!word(i, n, length))
            continue;
          if (length && !(i >= 2 && isa<ConstantInt>(bs[i - 1].v) && isa<ConstantInt>(bs[i - 2].v) && (cast<ConstantInt>(bs[i - 1].v)->getZExtValue() & 31) == 31)) {
            n.c &= 31;
            from = i + 2;
          } else if (!length && n.isConst() && (n.c & 31) == 31 && (n.c >> 12) < 2 && word(i + 2, n, length) && length)
            from = i + 4;
          else
            continue;
          size_t to = from;
          while (to < bs.size() && !isa<ConstantInt>(bs[to].v) && !(to > from && fromLength(bs[to].v)))
            to++;
          if (to >= bs.size() || to == from)
            continue;
          Lin real = bs[to].at;
          real.add(bs[from].at, -1);
          // an odd string has a byte more, which is not announced
          compare("element-length", fn, whereOf(bs[i].c), "length of the text written by " + innerFunction(bs[i].c), n, real);
          i = to - 1;
        }
        std::string open;
        bool p;
        Lin total = C.eval(end->getArgOperand(0), &w, {});
        if (parity(total, open, p) && open.empty()) {
          R.count("ways with even elements", !p);
          if (p)
            R.finding("element-length", fn, whereOf(end), "filling of texts", "an element is not filled up to an even length: the file has " + total.str() + " bytes, an odd number");
        } else
          R.count("ways whose filling is not decided");
      }
  }
  static std::string innerFunction(Instruction *I) {
    auto *L = I->getDebugLoc().get();
    if (L && L->getInlinedAt())
      L = L->getInlinedAt();
    return L && L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "it";
  }
  // a sum over rounds that each add an even amount
  static bool evenRounds(const std::string &t) {
    if (t.compare(0, 6, "rounds") || t.find('?') != std::string::npos)
      return false;
    size_t i = t.find('{');
    std::string rest = t.substr(i + 1);
    // every term of every amount is even: an even constant or an even factor
    int depth = 0;
    std::string term;
    bool even = true;
    auto done = [&] {
      size_t a = term.find_first_not_of(" ");
      if (a == std::string::npos) {
        term.clear();
        return;
      }
      even &= isdigit(term[a]) && atoll(term.c_str() + a) % 2 == 0;
      term.clear();
    };
    for (char c : rest) {
      if (strchr("([{", c))
        depth++;
      if (depth == 0 && (c == '+' || c == '|' || c == '}')) {
        done();
        if (c == '}')
          break;
        continue;
      }
      if (strchr(")]}", c))
        depth--;
      term += c;
    }
    return even;
  }
  void elements(Marked &m, Counter &C, const std::string &fn) {
    Writer &W = *m.W;
    texts(m, C, fn);
    std::map<Instruction *, std::vector<Value *>> bytes;
    std::map<Instruction *, int> size;
    for (auto *a : m.at)
      if (auto *k = sinkOf(a)) {
        bytes[k] = bytesOf(W, k);
        int n = bytes[k].size();
        if (!n && calleeName(k) == "fwrite") {
          auto *x = dyn_cast<ConstantInt>(k->getArgOperand(1)), *y = dyn_cast<ConstantInt>(k->getArgOperand(2));
          n = x && y ? (int)(x->getZExtValue() * y->getZExtValue()) : 0;
        }
        if (!n) {
          R.count("CGM output calls of unknown size");
          return;
        }
        bytes[k].resize(n, nullptr);
      }
    auto step = [&](const Readings &from, Value *b, bool &header) {
      Readings to;
      auto *k = b ? dyn_cast<ConstantInt>(b) : nullptr;
      int v = k ? (int)(k->getZExtValue() & 255) : -1;
      bool len = b && !k && fromLength(b);
      header = true;
      for (auto r : from)
        header &= r.kind == 1;
      for (auto r : from)
        switch (r.kind) {
        case 0:
          if (k || len)
            to.insert({1, v, 0, r.seen});
          break;
        case 1: {
          if (!k || r.n < 0) {
            if (len || (k && r.n < 0))
              to.insert({3, 0, 0, r.seen});
            break;
          }
          unsigned w = r.n << 8 | v, cls = w >> 12, id = w >> 5 & 127, n = w & 31;
          if (cls > 9 || id == 0)
            break;
          unsigned seen = r.seen | (cls == 0 && id == 4 ? 1 : cls == 0 && id == 5 ? 2 : cls == 0 && id == 2 ? 4 : 0);
          bool text = (cls == 0 && (id == 1 || id == 3)) || (cls == 1 && id == 2);
          if (text || n == 31)
            to.insert({3, 0, w, seen});
          else if (n + (n & 1))
            to.insert({2, (int)(n + (n & 1)), w, seen});
          else
            to.insert({0, 0, w, seen});
          break;
        }
        case 2:
          to.insert({r.n == 1 ? 0 : 2, r.n - 1, r.head, r.seen});
          break;
        case 3:
          if (!k || v == 0)
            to.insert(r);
          if (k || len)
            to.insert({1, v, 0, r.seen});
          break;
        }
      return to;
    };
    std::map<BasicBlock *, std::set<Readings>> in;
    std::vector<std::pair<BasicBlock *, Readings>> work{{&W.F->getEntryBlock(), Readings{{0, 0, 0}}}};
    in[work[0].first].insert(work[0].second);
    std::set<Instruction *> headers, wrong;
    long seen = 0;
    while (!work.empty()) {
      auto [B, rs] = work.back();
      work.pop_back();
      if (++seen > 200000) {
        R.count("writers with too many ways");
        return;
      }
      bool ok = true;
      for (auto &I : *B) {
        auto it = bytes.find(&I);
        if (it != bytes.end())
          for (auto *b : it->second) {
            bool header = false;
            std::string was;
            for (auto &r : rs)
              if (r.head)
                was = " after element " + hex(r.head);
            Readings n = step(rs, b, header);
            if (header)
              headers.insert(&I);
            if (n.empty()) {
              if (wrong.insert(&I).second)
                R.finding("element-length", fn, whereOf(&I), "element in front of " + whereLine(&I),
                          "a reader that trusts the announced length of the element before expects the header of an element here, but finds something else" + was);
              ok = false;
              break;
            }
            rs = n;
          }
        if (!ok)
          break;
        if (isa<ReturnInst>(&I)) {
          bool at = false;
          for (auto &r : rs)
            at |= (r.kind == 0 || r.kind == 3) && (r.seen == 7 || (r.kind == 0 && r.head == 0 && r.seen == 0));
          if (!at && wrong.insert(&I).second)
            R.finding("element-length", fn, whereOf(&I), "end of the file", "the file ends inside an element, or an element is read as the parameters of another: an announced length is not what is written");
        }
      }
      if (!ok)
        continue;
      for (auto *S : successors(B))
        if (in[S].insert(rs).second)
          work.push_back({S, rs});
    }
    R.count("announced numbers shown true", headers.size() > wrong.size() ? headers.size() - wrong.size() : 0);
    R.count("CGM element headers", headers.size());
    if (headers.empty())
      R.fail("no element header found in the CGM writer");
  }
  static std::string hex(unsigned v) {
    char b[16];
    snprintf(b, sizeof b, "0x%04x", v);
    return b;
  }
  static std::string whereLine(Instruction *I) {
    auto *L = I->getDebugLoc().get();
    while (L && L->getInlinedAt())
      L = L->getInlinedAt();
    return L && L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "it";
  }
  void pdf(Marked &m, Counter &C, const std::string &fn, const Spec &s) {
    for (auto *end : m.end) {
      auto &ws = C.waysOf(nullptr, end->getParent());
      if (getenv("DUMP05"))
        errs() << fn << " " << s.name << " ways " << ws.size() << " exceeded " << C.exceeded << "\n";
      for (auto &w : ws) {
        // what is written outside of loops, with its place
        struct Bit {
          CallBase *c;
          Lin at;
        };
        std::vector<Bit> bits;
        ReversePostOrderTraversal<Function *> RPO(m.W->F);
        for (auto *B : RPO)
          if (w.pred.count(B) && !m.W->LI.getLoopFor(B))
            for (auto &I : *B)
              if (auto *a = dyn_cast<CallBase>(&I); a && calleeName(a) == "at.at")
                if (auto *k = sinkOf(a))
                  bits.push_back({k, C.eval(a->getArgOperand(0), &w, {})});
        std::map<int, Lin> obj;
        Lin xref, stream;
        bool haveX = false, haveS = false;
        std::string text; // constant text, '\1' per number that is not
        struct Num {
          CallBase *c;
          Value *v;
        };
        std::vector<Num> nums;
        struct Pos {
          size_t from;
          Lin at;
          CallBase *c;
        };
        std::vector<Pos> pos;
        for (auto &b : bits) {
          pos.push_back({text.size(), b.at, b.c});
          StringRef n = calleeName(b.c);
          if (n == "fputs") {
            auto ss = stringsOf(b.c->getArgOperand(0));
            text += ss.size() == 1 ? ss[0] : std::string(1, HOLE);
            if (ss.size() != 1 || ss[0] == std::string(1, HOLE))
              nums.push_back({b.c, nullptr});
          } else if (n == "fprintf") {
            auto fs = stringsOf(b.c->getArgOperand(1));
            std::string f = fs.size() == 1 ? fs[0] : std::string(1, HOLE);
            unsigned k = 2;
            for (size_t i = 0; i < f.size(); i++) {
              if (f[i] == HOLE)
                nums.push_back({b.c, nullptr});
              if (f[i] != '%') {
                text += f[i];
                continue;
              }
              size_t j = i + 1;
              while (j < f.size() && strchr("-+ #0123456789.lhzjtL", f[j]))
                j++;
              if (j >= f.size())
                break;
              if (f[j] == '%')
                text += '%';
              else if (k < b.c->arg_size()) {
                Value *a = b.c->getArgOperand(k++);
                bool ok = false;
                std::string cs = f[j] == 's' ? constString(a, &ok) : "";
                if (ok)
                  text += cs;
                else {
                  text += HOLE;
                  nums.push_back({b.c, a->getType()->isIntegerTy() ? a : nullptr});
                }
              }
              i = j;
            }
          } else {
            text += HOLE;
            nums.push_back({b.c, nullptr});
          }
        }
        auto place = [&](size_t p, Lin &l) { // offset in the file of a position in the text
          for (size_t i = 0; i < pos.size(); i++)
            if (pos[i].from <= p && (i + 1 == pos.size() || pos[i + 1].from > p)) {
              if (text.substr(pos[i].from, p - pos[i].from).find(HOLE) != std::string::npos)
                return false;
              l = pos[i].at;
              l.c += p - pos[i].from;
              return true;
            }
          return false;
        };
        auto numAt = [&](size_t p, Lin &l, CallBase *&c) { // number at a position of the text
          if (text[p] == HOLE) {
            size_t k = std::count(text.begin(), text.begin() + p, (char)HOLE);
            if (k >= nums.size() || !nums[k].v)
              return false;
            l = C.eval(nums[k].v, &w, {});
            c = nums[k].c;
            return true;
          }
          if (!isdigit(text[p]))
            return false;
          l = num(atoll(text.c_str() + p));
          for (auto &x : pos)
            if (x.from <= p)
              c = x.c;
          return true;
        };
        std::regex objRe("(?:^|\\n)(\\d+) 0 obj"), xrefRe("(?:^|\\n)(xref\\s+0 (\\d+)\\s+)"), sx("startxref\\s+"), lenRe("/Length "),
            stm("\\nstream\\n"), estm("endstream");
        for (std::sregex_iterator i(text.begin(), text.end(), objRe), e; i != e; ++i) {
          Lin l;
          if (place(i->position(1), l))
            obj[atoi(i->str(1).c_str())] = l;
        }
        std::smatch x;
        if (std::regex_search(text, x, xrefRe)) {
          Lin at;
          bool known = place(x.position(1), at);
          int n = atoi(x.str(2).c_str());
          compare("count", fn, whereOf(end), "number of objects", num(n), num(obj.size() + 1));
          size_t p = x.position(0) + x.length(0);
          for (int k = 0; k < n; k++) {
            Lin l;
            CallBase *c = nullptr;
            if (k && obj.count(k)) {
              if (numAt(p, l, c))
                compare("object-offset", fn, whereOf(c), "offset of object " + std::to_string(k), l, obj[k]);
              else
                R.count("announced numbers not found");
            }
            p = text.find('\n', p);
            if (p == std::string::npos)
              break;
            p++;
          }
          if (known && std::regex_search(text, x, sx)) {
            Lin l;
            CallBase *c = nullptr;
            if (numAt(x.position(0) + x.length(0), l, c))
              compare("object-offset", fn, whereOf(c), "offset of the cross references", l, at);
          }
        } else
          R.count("announced numbers not found");
        if (std::regex_search(text, x, lenRe)) {
          Lin l, from, to;
          CallBase *c = nullptr;
          std::smatch a, b;
          if (numAt(x.position(0) + x.length(0), l, c) && std::regex_search(text, a, stm) && std::regex_search(text, b, estm) &&
              place(a.position(0) + 1, from) && place(b.position(0), to)) {
            from.c += a.length(0) - 1;
            to.add(from, -1);
            compare("stream-length", fn, whereOf(c), "length of the stream", l, to);
          } else
            R.count("announced numbers not found");
        }
      }
    }
  }
  void run() {
    records();
    for (auto &x : writerList(P, R)) {
      auto has = [&](const char *n) { return ("," + x.second + ",").find("," + std::string(n) + ",") != std::string::npos; };
      std::string u = x.second;
      for (auto &c : u)
        c = toupper(c);
      x.second = u;
      if (!has("EMF") && !has("PDF") && !has("CGM"))
        continue;
      for (int deg : {1, 3})
        for (int op : {0, 1}) {
          Spec s;
          s.degree = deg;
          s.centerline = 0;
          s.open = op;
          s.name = deg == 1 ? "straight" : "curved";
          file(x.first, u, s);
        }
      Spec s;
      s.degree = 1;
      s.centerline = 0;
      s.open = 0;
      s.name = "empty";
      file(x.first, u, s, true);
    }
    if (sized.empty())
      R.count("record functions", 0);
    if (R.counts["announced numbers shown true"] + R.counts["announced numbers not decided"] == 0 && R.findings.empty())
      R.fail("no announced number found");
  }
};
} // namespace

void checkC05(Program &P, Report &R, const std::string &) { C05(P, R).run(); }
