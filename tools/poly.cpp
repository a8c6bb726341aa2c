#include "poly.h"
#include <cmath>

static const double EPS = 1e-9;

bool Poly::isConst(double *v) const {
  if (t.empty()) {
    if (v)
      *v = 0;
    return true;
  }
  if (t.size() == 1 && t.begin()->first.empty()) {
    if (v)
      *v = t.begin()->second;
    return true;
  }
  return false;
}

bool Poly::operator==(const Poly &o) const {
  if (t.size() != o.t.size())
    return false;
  auto i = t.begin();
  auto j = o.t.begin();
  for (; i != t.end(); ++i, ++j)
    if (i->first != j->first || fabs(i->second - j->second) > 1e-6 * (1 + fabs(i->second)))
      return false;
  return true;
}

Poly Polys::cst(double c) {
  Poly p;
  if (c != 0)
    p.t[{}] = c;
  return p;
}

int Polys::intern(const std::string &key, Atom a) {
  auto it = ids.find(key);
  if (it != ids.end())
    return it->second;
  a.key = key;
  atoms.push_back(a);
  return ids[key] = atoms.size() - 1;
}

Poly Polys::atom(int a) {
  Poly p;
  p.t[{a}] = 1;
  return p;
}

Poly Polys::add(const Poly &a, const Poly &b, double kb) {
  Poly r = a;
  for (auto &x : b.t) {
    double &c = r.t[x.first];
    double mag = fabs(c) + fabs(x.second * kb);
    c += x.second * kb;
    if (fabs(c) <= EPS * mag)
      r.t.erase(x.first);
  }
  return r;
}

Poly Polys::mul(const Poly &a, const Poly &b) {
  Poly r;
  if (a.t.size() * b.t.size() > 4000) { // too large to expand
    Poly x = fn("*", {a, b});
    return x;
  }
  for (auto &x : a.t)
    for (auto &y : b.t) {
      std::vector<int> m = x.first;
      for (int k : y.first) {
        // a * 1/a
        std::string inv = atoms[k].fn == "1/" ? atoms[k].args.size() == 1 ? str(atoms[k].args[0]) : "" : "";
        bool cancelled = false;
        for (size_t i = 0; i < m.size() && !cancelled; i++) {
          bool c = false;
          if (atoms[k].fn == "1/" && atoms[m[i]].fn != "1/")
            c = inv == str(atom(m[i]));
          else if (atoms[m[i]].fn == "1/" && atoms[k].fn != "1/")
            c = str(atoms[m[i]].args[0]) == str(atom(k));
          if (c) {
            m.erase(m.begin() + i);
            cancelled = true;
          }
        }
        if (!cancelled)
          m.push_back(k);
      }
      std::sort(m.begin(), m.end());
      Poly one;
      one.t[m] = x.second * y.second;
      r = add(r, one);
    }
  return r;
}

Poly Polys::fn(const std::string &name, const std::vector<Poly> &args) {
  Atom a;
  a.fn = name;
  a.args = args;
  std::string k = name + "(";
  for (size_t i = 0; i < args.size(); i++) {
    k += (i ? "," : "") + str(args[i]);
    for (int l : leafAtoms(args[i]))
      a.inside.insert(l);
  }
  k += ")";
  return atom(intern(k, a));
}

Poly Polys::div(const Poly &a, const Poly &b) {
  double c;
  if (b.isConst(&c) && c != 0) {
    Poly r = a;
    for (auto &x : r.t)
      x.second /= c;
    return r;
  }
  if (a == b)
    return cst(1);
  if (b.t.size() == 1) {
    Poly r = a;
    for (auto &x : r.t)
      x.second /= b.t.begin()->second;
    for (int k : b.t.begin()->first)
      r = mul(r, fn("1/", {atom(k)}));
    return r;
  }
  return mul(a, fn("1/", {b}));
}

std::string Polys::str(const Poly &p, const std::function<std::string(const Atom &)> &name) {
  std::function<std::string(const Atom &)> nm = [&](const Atom &a) -> std::string {
    if (!name)
      return a.key;
    if (!a.fn.empty()) {
      std::string s = a.fn + "(";
      for (size_t i = 0; i < a.args.size(); i++)
        s += (i ? "," : "") + str(a.args[i], name);
      return s + ")";
    }
    return name(a);
  };
  std::map<std::string, double> terms, mag;
  for (auto &x : p.t) {
    std::vector<std::string> f;
    for (int k : x.first)
      f.push_back(nm(atoms[k]));
    std::sort(f.begin(), f.end());
    std::string s;
    for (auto &y : f)
      s += (s.empty() ? "" : "*") + y;
    terms[s] += x.second;
    mag[s] += fabs(x.second);
  }
  std::string r;
  for (auto &x : terms) {
    if (fabs(x.second) < 1e-6 * mag[x.first])
      continue;
    char b[40];
    snprintf(b, sizeof b, "%.6g", x.second);
    r += (r.empty() ? "" : " + ") + (x.first.empty() ? b : (x.second == 1 ? "" : std::string(b) + "*") + x.first);
  }
  return r.empty() ? "0" : r;
}

std::set<int> Polys::leafAtoms(const Poly &p) {
  std::set<int> r;
  double big = 0;
  for (auto &x : p.t)
    big = std::max(big, fabs(x.second));
  for (auto &x : p.t) {
    if (fabs(x.second) < 1e-6 * big) // what is left of rounding
      continue;
    for (int k : x.first) {
      if (atoms[k].leaf)
        r.insert(k);
      r.insert(atoms[k].inside.begin(), atoms[k].inside.end());
    }
  }
  return r;
}

std::set<int> Polys::leafAtomsOf(Value *V, const Env &env, int depth) {
  std::set<int> r;
  if (depth > 12)
    return r;
  std::function<void(const Poly &)> walk = [&](const Poly &p) {
    auto l = leafAtoms(p);
    r.insert(l.begin(), l.end());
    for (auto &x : p.t)
      for (int k : x.first) {
        Atom a = atoms[k];
        for (auto &q : a.args)
          walk(q);
        if (!a.v || a.v == V)
          continue;
        if (isa<SelectInst>(a.v) || isa<PHINode>(a.v)) {
          auto q = leafAtomsOf(a.v, env, depth + 1);
          r.insert(q.begin(), q.end());
        }
      }
  };
  Value *v = V;
  if (auto *ph = dyn_cast<PHINode>(v)) {
    if (env.count(v) || !W.LI.isLoopHeader(ph->getParent())) {
      Poly p = of(v, env);
      bool op = p.t.size() == 1 && p.t.begin()->first.size() == 1 && atoms[p.t.begin()->first[0]].v == v;
      if (op) {
        for (auto &x : ph->incoming_values()) {
          auto q = leafAtomsOf(x.get(), env, depth + 1);
          r.insert(q.begin(), q.end());
        }
        return r;
      }
    }
  } else if (auto *s = dyn_cast<SelectInst>(v)) {
    Poly p = of(v, env);
    bool op = p.t.size() == 1 && p.t.begin()->first.size() == 1 && atoms[p.t.begin()->first[0]].v == v;
    if (op) {
      for (auto *x : {s->getTrueValue(), s->getFalseValue()}) {
        auto q = leafAtomsOf(x, env, depth + 1);
        r.insert(q.begin(), q.end());
      }
      return r;
    }
  }
  walk(of(v, env));
  return r;
}

Poly Polys::of(Value *V) { return go(V, {}, memo, 0); }
Poly Polys::of(Value *V, const Env &env) {
  std::map<Value *, Poly> m;
  return go(V, env, m, 0);
}

bool Polys::known(Value *c, const Env &env, bool &val) {
  if (auto *k = dyn_cast<ConstantInt>(c)) {
    val = !k->isZero();
    return true;
  }
  if (auto *s = dyn_cast<SelectInst>(c)) {
    bool x;
    if (known(s->getCondition(), env, x))
      return known(x ? s->getTrueValue() : s->getFalseValue(), env, val);
    return false;
  }
  if (auto *b = dyn_cast<BinaryOperator>(c)) {
    bool x, y;
    bool kx = known(b->getOperand(0), env, x), ky = known(b->getOperand(1), env, y);
    if (b->getOpcode() == Instruction::Xor && kx && ky) {
      val = x != y;
      return true;
    }
    if (b->getOpcode() == Instruction::And) {
      if ((kx && !x) || (ky && !y))
        return val = false, true;
      if (kx && ky)
        return val = true, true;
    }
    if (b->getOpcode() == Instruction::Or) {
      if ((kx && x) || (ky && y))
        return val = true, true;
      if (kx && ky)
        return val = false, true;
    }
    return false;
  }
  auto *ic = dyn_cast<CmpInst>(c);
  if (!ic || ic->getOperand(0)->getType()->isPointerTy())
    return false;
  double d;
  if (!add(of(ic->getOperand(0), env), of(ic->getOperand(1), env), -1).isConst(&d))
    return false;
  if (!isa<FCmpInst>(ic) && fabs(d) < 1e-7)
    d = 0;
  switch (ic->getPredicate()) {
  case CmpInst::ICMP_EQ: case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: val = d == 0; return true;
  case CmpInst::ICMP_NE: case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: val = d != 0; return true;
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: val = d < 0; return true;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: val = d <= 0; return true;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: val = d > 0; return true;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: val = d >= 0; return true;
  default: return false;
  }
}

// a number put together from bytes that were loaded as such
namespace {
struct Byte {
  LoadInst *v = nullptr; // else the constant k
  int k = 0;
  bool inv = false; // all bits turned
};
} // namespace
static bool bytesOf(Value *V, std::vector<Byte> &out, int depth = 0) {
  if (depth > 16 || !V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth() % 8 || V->getType()->getIntegerBitWidth() > 64)
    return false;
  unsigned n = V->getType()->getIntegerBitWidth() / 8;
  out.assign(n, Byte());
  if (auto *c = dyn_cast<ConstantInt>(V)) {
    for (unsigned i = 0; i < n; i++)
      out[i].k = c->getValue().lshr(8 * i).getLoBits(8).getZExtValue();
    return true;
  }
  if (auto *Ld = dyn_cast<LoadInst>(V)) {
    if (n != 1)
      return false;
    out[0].v = Ld;
    return true;
  }
  std::vector<Byte> a, b;
  if (auto *c = dyn_cast<CastInst>(V)) {
    if (!(isa<ZExtInst>(c) || isa<TruncInst>(c)) || !bytesOf(c->getOperand(0), a, depth + 1))
      return false;
    for (unsigned i = 0; i < n && i < a.size(); i++)
      out[i] = a[i];
    return true;
  }
  auto *o = dyn_cast<BinaryOperator>(V);
  if (!o || !bytesOf(o->getOperand(0), a, depth + 1))
    return false;
  auto *c = dyn_cast<ConstantInt>(o->getOperand(1));
  switch (o->getOpcode()) {
  case Instruction::Shl:
  case Instruction::LShr: {
    if (!c || c->getZExtValue() % 8)
      return false;
    int s = c->getZExtValue() / 8;
    for (int i = 0; i < (int)n; i++) {
      int j = o->getOpcode() == Instruction::Shl ? i - s : i + s;
      if (j >= 0 && j < (int)n)
        out[i] = a[j];
    }
    return true;
  }
  case Instruction::And:
  case Instruction::Xor:
    if (!c)
      return false;
    for (unsigned i = 0; i < n; i++) {
      unsigned m = c->getValue().lshr(8 * i).getLoBits(8).getZExtValue();
      if (o->getOpcode() == Instruction::And) {
        if (m == 255)
          out[i] = a[i];
        else if (m != 0 && a[i].v)
          return false;
        else
          out[i].k = a[i].v ? 0 : a[i].k & m;
      } else {
        out[i] = a[i];
        if (!a[i].v)
          out[i].k ^= m;
        else if (m == 255)
          out[i].inv = !out[i].inv;
        else if (m)
          return false;
      }
    }
    return true;
  case Instruction::Or:
    if (!bytesOf(o->getOperand(1), b, depth + 1))
      return false;
    for (unsigned i = 0; i < n; i++) {
      bool za = !a[i].v && !a[i].k, zb = !b[i].v && !b[i].k;
      if (!za && !zb)
        return false;
      out[i] = za ? b[i] : a[i];
    }
    return true;
  default:
    return false;
  }
}

Poly Polys::go(Value *V, const Env &env, std::map<Value *, Poly> &m, int depth) {
  auto e = env.find(V);
  if (e != env.end())
    return e->second;
  auto it = m.find(V);
  if (it != m.end())
    return it->second;
  auto opaque = [&](Value *v) {
    Atom a;
    a.v = v;
    char b[32];
    snprintf(b, sizeof b, "%%%p", (void *)v);
    return atom(intern(b, a));
  };
  if (depth > 200)
    return opaque(V);
  auto rec = [&](Value *x) { return go(x, env, m, depth + 1); };
  Poly r;
  if (auto *c = dyn_cast<ConstantInt>(V))
    r = cst(c->getValue().getSignificantBits() <= 64 ? (double)c->getSExtValue() : 0);
  else if (auto *c = dyn_cast<ConstantFP>(V)) {
    bool lose;
    APFloat f = c->getValueAPF();
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    double d = f.convertToDouble();
    r = cst(d);
  } else if (auto *a = dyn_cast<Argument>(V)) {
    Atom at;
    at.v = V;
    r = atom(intern("arg" + std::to_string(a->getArgNo()), at));
  } else if (auto *Ld = dyn_cast<LoadInst>(V)) {
    Leaf lf;
    if (W.leafOfLoad(Ld, lf)) {
      Atom at;
      at.leaf = true;
      at.lf = lf;
      at.v = V;
      char b[80];
      snprintf(b, sizeof b, "[%p,%p]", (const void *)lf.li, (const void *)lf.si);
      r = atom(intern(lf.field + b, at));
    } else {
      Value *p = Ld->getPointerOperand();
      APInt off(64, 0);
      Value *base = p->stripAndAccumulateConstantOffsets(Ld->getModule()->getDataLayout(), off, true);
      Atom at;
      at.v = V;
      if (auto *g = dyn_cast<GlobalVariable>(base))
        r = atom(intern("@" + g->getName().str() + "+" + std::to_string(off.getSExtValue()), at));
      else if (auto *ar = dyn_cast<Argument>(base))
        r = atom(intern("arg" + std::to_string(ar->getArgNo()) + "->" + std::to_string(off.getSExtValue()), at));
      else
        r = opaque(V);
    }
  } else if (auto *b = dyn_cast<BinaryOperator>(V)) {
    Value *x = b->getOperand(0), *y = b->getOperand(1);
    double c;
    if (b->isBitwiseLogicOp() || b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::Shl) {
      std::vector<Byte> by;
      if (bytesOf(V, by)) {
        r = cst(0);
        double w = 1;
        for (auto &q : by) {
          Poly t = q.v ? rec(q.v) : cst(q.k);
          if (q.inv)
            t = add(cst(255), t, -1);
          r = add(r, mul(t, cst(w)));
          w *= 256;
        }
        return m[V] = r;
      }
    }
    switch (b->getOpcode()) {
    case Instruction::FAdd:
    case Instruction::Add: r = add(rec(x), rec(y)); break;
    case Instruction::FSub:
    case Instruction::Sub: r = add(rec(x), rec(y), -1); break;
    case Instruction::FMul:
    case Instruction::Mul: r = mul(rec(x), rec(y)); break;
    case Instruction::FDiv: r = div(rec(x), rec(y)); break;
    case Instruction::Shl:
      if (rec(y).isConst(&c) && c < 31)
        r = mul(rec(x), cst((double)(1LL << (int)c)));
      else
        r = fn("shl", {rec(x), rec(y)});
      break;
    case Instruction::AShr: {
      auto *s = dyn_cast<BinaryOperator>(x);
      if (s && s->getOpcode() == Instruction::Shl && s->getOperand(1) == y) {
        r = rec(s->getOperand(0)); // sign extension
        break;
      }
      r = fn("ashr", {rec(x), rec(y)});
      break;
    }
    default: r = fn(b->getOpcodeName(), {rec(x), rec(y)}); break;
    }
  } else if (auto *u = dyn_cast<UnaryOperator>(V)) {
    r = mul(rec(u->getOperand(0)), cst(-1));
  } else if (auto *c = dyn_cast<CastInst>(V)) {
    switch (c->getOpcode()) {
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      Poly p = rec(c->getOperand(0));
      double k;
      r = p.isConst(&k) ? cst(std::trunc(k)) : fn("int", {p});
      break;
    }
    case Instruction::Trunc: r = c->getType()->isIntegerTy(1) ? fn("bit", {rec(c->getOperand(0))}) : c->getType()->getIntegerBitWidth() >= 32 ? rec(c->getOperand(0)) : fn("i" + std::to_string(c->getType()->getIntegerBitWidth()), {rec(c->getOperand(0))}); break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast: r = opaque(V); break;
    default: r = rec(c->getOperand(0));
    }
  } else if (auto *cb = dyn_cast<CallBase>(V)) {
    StringRef n = calleeName(cb);
    bool pure = !n.empty() && !cb->getType()->isPointerTy() && !cb->getType()->isVoidTy();
    for (auto &a : cb->args())
      if (a.get()->getType()->isPointerTy())
        pure = false;
    if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma."))
      r = add(mul(rec(cb->getArgOperand(0)), rec(cb->getArgOperand(1))), rec(cb->getArgOperand(2)));
    else if (pure && (n == "lround" || n == "lroundf" || n == "rint" || n == "floor" || n == "ceil" || n == "sqrt" || n == "round" ||
                      n == "lrint" || n == "fabs" || n == "abs" || n.starts_with("llvm."))) {
      std::vector<Poly> as;
      bool allc = true;
      double k = 0;
      for (auto &a : cb->args()) {
        as.push_back(rec(a.get()));
        allc &= as.back().isConst(&k);
      }
      if (n.starts_with("llvm.fabs"))
        n = "fabs";
      if (allc && as.size() == 1 && n == "fabs")
        r = cst(fabs(k));
      else
        r = fn(n.starts_with("lround") || n == "round" ? "round" : n.str(), as);
    } else
      r = opaque(V);
  } else if (auto *s = dyn_cast<SelectInst>(V)) {
    bool val;
    Poly a = rec(s->getTrueValue()), b = rec(s->getFalseValue());
    if (a == b)
      r = a;
    else if (!env.empty() && known(s->getCondition(), env, val))
      r = val ? a : b;
    else
      r = opaque(V);
  } else if (auto *ph = dyn_cast<PHINode>(V)) {
    r = opaque(V);
    if (!W.LI.isLoopHeader(ph->getParent())) {
      bool have = false, same = true;
      Poly x;
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
        bool dead = false;
        BasicBlock *T = ph->getParent(), *X = ph->getIncomingBlock(i);
        for (int k = 0; k < 8 && X && !env.empty(); k++) {
          auto *br = dyn_cast<BranchInst>(X->getTerminator());
          bool v;
          if (br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && known(br->getCondition(), env, v) &&
              br->getSuccessor(v ? 0 : 1) != T)
            dead = true;
          T = X;
          X = X->getSinglePredecessor();
        }
        if (dead)
          continue;
        Poly y = rec(ph->getIncomingValue(i));
        if (have && !(x == y))
          same = false;
        x = y;
        have = true;
      }
      if (have && same)
        r = x;
    }
  } else
    r = opaque(V);
  // constants are computed as the machine does
  if (V->getType()->isFloatTy() && r.isConst())
    for (auto &x : r.t)
      x.second = (float)x.second;
  m[V] = r;
  return r;
}

bool Polys::edgeDead(BasicBlock *B, BasicBlock *T, const Env &env) {
  if (auto *br = dyn_cast<BranchInst>(B->getTerminator())) {
    bool v;
    return br->isConditional() && known(br->getCondition(), env, v) && br->getSuccessor(v ? 0 : 1) != T;
  }
  if (auto *sw = dyn_cast<SwitchInst>(B->getTerminator())) {
    double d;
    if (!of(sw->getCondition(), env).isConst(&d))
      return false;
    for (auto &c : sw->cases())
      if (c.getCaseValue()->getSExtValue() == (int64_t)d)
        return c.getCaseSuccessor() != T;
    return sw->getDefaultDest() != T;
  }
  return false;
}

bool Polys::lastRound(Loop *L, Env &env) {
  auto *pre = L->getLoopPreheader(), *latch = L->getLoopLatch();
  SmallVector<BasicBlock *, 4> ex;
  L->getExitingBlocks(ex);
  if (!pre || !latch || ex.size() != 1 || ex[0] != L->getHeader())
    return false;
  auto *br = dyn_cast<BranchInst>(ex[0]->getTerminator());
  if (!br || !br->isConditional())
    return false;
  bool stayOn = L->contains(br->getSuccessor(0));
  // counted out when everything the test depends on is constant
  Env cur;
  for (auto &ph : L->getHeader()->phis()) {
    auto *c = dyn_cast<ConstantData>(ph.getIncomingValueForBlock(pre));
    if (c && !ph.getType()->isPointerTy() && !isa<UndefValue>(c))
      cur[&ph] = of(c);
  }
  Env start = cur;
  for (int i = 0; i < 2000; i++) {
    bool v;
    if (cur.empty() || !known(br->getCondition(), cur, v))
      break;
    if (v != stayOn) {
      if (!i)
        return false;
      // cur is one past the last; redo to the round before
      Env c2 = start;
      for (int j = 0; j + 1 < i; j++) {
        Env nx;
        for (auto &x : c2)
          nx[x.first] = of(cast<PHINode>(x.first)->getIncomingValueForBlock(latch), c2);
        c2 = nx;
      }
      env = c2;
      return true;
    }
    Env nx;
    for (auto &x : cur) {
      Poly p = of(cast<PHINode>(x.first)->getIncomingValueForBlock(latch), cur);
      if (p.isConst())
        nx[x.first] = p;
    }
    cur = nx;
  }
  // a counter against a bound that does not change
  auto *ic = dyn_cast<ICmpInst>(br->getCondition());
  if (!ic)
    return false;
  auto pr = ic->getPredicate();
  Value *l = ic->getOperand(0), *r = ic->getOperand(1);
  if (!(isa<PHINode>(l) && cast<PHINode>(l)->getParent() == L->getHeader())) {
    std::swap(l, r);
    pr = CmpInst::getSwappedPredicate(pr);
  }
  auto *ph = dyn_cast<PHINode>(l);
  if (!ph || ph->getParent() != L->getHeader() || !L->isLoopInvariant(r))
    return false;
  if (!stayOn)
    pr = CmpInst::getInversePredicate(pr);
  auto *a = dyn_cast<SCEVAddRecExpr>(W.SE.getSCEV(ph));
  if (!a || a->getLoop() != L || !a->isAffine() || !a->getStepRecurrence(W.SE)->isOne())
    return false;
  Poly b = of(r);
  if (pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_NE)
    b = add(b, cst(1), -1);
  else if (pr != CmpInst::ICMP_SLE && pr != CmpInst::ICMP_ULE)
    return false;
  env[ph] = b;
  return true;
}
