#include "own.h"
#include "llvm/Analysis/CFG.h"

static bool allocator(StringRef n) { return n == "malloc" || n == "calloc" || n == "realloc" || n == "strdup" || n == "strndup" || n == "png_create_read_struct" || n == "png_create_info_struct"; }
static bool opener(StringRef n) { return n == "fopen" || n == "fdopen" || n == "tmpfile" || n == "freopen" || n == "opendir" || n == "popen"; }
static bool releaser(StringRef n) { return n == "free" || n == "realloc" || n == "fclose" || n == "pclose" || n == "closedir"; }

bool isCancelAsk(const Instruction *I) {
  auto *C = dyn_cast<CallInst>(I);
  return C && !C->getCalledFunction() && C->arg_size() == 1 && C->getType()->isIntegerTy();
}
bool isFatalAsk(const Instruction *I) {
  auto *C = dyn_cast<CallInst>(I);
  return C && calleeName(C) == "at_exception_got_fatal";
}
bool Own::Summary::operator==(const Summary &o) const {
  auto key = [](const Summary &s) {
    std::set<std::tuple<int, Path, int>> r;
    for (auto &f : s.fills)
      for (auto &p : f.second)
        r.insert({f.first, p.first, p.second.zero + 2 * p.second.other + 4 * p.second.fatal + 8 * p.second.fine + 16 * p.second.cancelled + 32 * p.second.going});
    return r;
  };
  return key(*this) == key(o) && releases == o.releases && keeps == o.keeps && moves == o.moves && returns == o.returns;
}

bool Own::local(Value *base) { return isa<AllocaInst>(base) || base->getType()->isStructTy() || base->getType()->isArrayTy(); }
// a variable or something acquired here
bool Own::place(Function_ &f, const Node &n) { return n.path.empty() && (local(n.base) || (isa<CallBase>(n.base) && f.owned.count(n))); }
std::vector<std::pair<int64_t, unsigned>> Own::members(Type *t) {
  std::vector<std::pair<int64_t, unsigned>> r;
  if (auto *st = dyn_cast<StructType>(t))
    for (unsigned i = 0; i < st->getNumElements(); i++)
      if (st->getElementType(i)->isPointerTy())
        r.push_back({(int64_t)DL.getStructLayout(st)->getElementOffset(i), i});
      else if (st->getElementType(i)->isStructTy())
        for (auto &m : members(st->getElementType(i)))
          r.push_back({(int64_t)DL.getStructLayout(st)->getElementOffset(i) + m.first, ~0u});
  return r;
}
std::vector<Own::Addr> Own::addresses(Function_ &f, Value *V) {
  int64_t off = 0, size = 0;
  bool var = false;
  for (int i = 0; i < 40; i++) {
    if (auto *g = dyn_cast<GEPOperator>(V)) {
      APInt o(64, 0);
      if (g->accumulateConstantOffset(DL, o)) {
        off += o.getSExtValue();
        Type *t = g->getSourceElementType();
        if (g->getNumIndices() && !t->isIntegerTy(8)) {
          auto *first = dyn_cast<ConstantInt>(g->getOperand(1));
          if (first && !first->isZero())
            var = true, size = DL.getTypeAllocSize(t);
        }
      } else {
        var = true;
        size = DL.getTypeAllocSize(g->getSourceElementType());
        auto it = gep_type_begin(g);
        for (unsigned k = 1; k < g->getNumOperands(); k++, ++it) {
          auto *c = dyn_cast<ConstantInt>(g->getOperand(k));
          if (!c) {
            if (k > 1) // an array inside the element
              size = DL.getTypeAllocSize(it.getIndexedType());
            continue;
          }
          if (StructType *st = it.getStructTypeOrNull())
            off += DL.getStructLayout(st)->getElementOffset(c->getZExtValue());
          else
            off += c->getSExtValue() * (int64_t)DL.getTypeAllocSize(it.getIndexedType());
        }
      }
      V = g->getPointerOperand();
    } else if (auto *c = dyn_cast<CastInst>(V))
      V = c->getOperand(0);
    else
      break;
  }
  std::vector<Addr> r;
  auto it = f.labels.find(V);
  if (it != f.labels.end())
    for (auto &n : it->second)
      r.push_back({n, off, var, size});
  return r;
}
bool Own::slot(const Addr &a, Node &out) {
  if (a.n.path.size() >= 4)
    return false;
  out = a.n;
  int64_t o = a.off;
  if (a.size > 1)
    o = ((o % a.size) + a.size) % a.size;
  if (a.n.path.empty() && !a.var)
    out.path.push_back(std::to_string(o));
  else
    out.path.push_back("*" + std::to_string(o));
  return true;
}
bool Own::append(const Addr &a, const Path &p, Node &out) {
  if (p.empty()) {
    if (a.off || a.var)
      return false;
    out = a.n;
    return true;
  }
  if (a.n.path.size() + p.size() > 4)
    return false;
  out = a.n;
  bool star = p[0][0] == '*';
  int64_t o = a.off + atoll(p[0].c_str() + star);
  if (a.size > 1)
    o = ((o % a.size) + a.size) % a.size;
  out.path.push_back((star || a.var || !a.n.path.empty() ? "*" : "") + std::to_string(o));
  out.path.insert(out.path.end(), p.begin() + 1, p.end());
  return true;
}

void Own::label(Function &F) {
  auto &f = fun[&F];
  f = Function_();
  auto add = [&](Value *v, const Node &n) {
    auto &s = f.labels[v];
    return s.size() < 60 && s.insert(n).second;
  };
  for (auto &A : F.args())
    if (A.getType()->isPointerTy())
      add(&A, {&A, {}});
  for (bool ch = true; ch;) {
    ch = false;
    rounds++;
    auto hold = [&](const Node &place, const Node &what) {
      if (place == what)
        return;
      auto &c = f.content[place];
      if (c.size() < 60 && c.insert(what).second)
        ch = true;
    };
    auto own = [&](const Node &n) {
      if (n.path.size() <= 4 && f.owned.insert(n).second)
        ch = true;
    };
    for (auto &I : instructions(F)) {
      if (isa<AllocaInst>(I))
        ch |= add(&I, {&I, {}});
      else if (isa<PHINode>(I) || isa<SelectInst>(I)) {
        if (I.getType()->isStructTy()) {
          for (auto &m : members(I.getType()))
            for (unsigned k = isa<SelectInst>(I) ? 1 : 0; k < I.getNumOperands(); k++)
              if (isa<Instruction>(I.getOperand(k)))
                hold({&I, {std::to_string(m.first)}}, {I.getOperand(k), {std::to_string(m.first)}});
          continue;
        }
        if (!I.getType()->isPointerTy())
          continue;
        for (unsigned k = isa<SelectInst>(I) ? 1 : 0; k < I.getNumOperands(); k++)
          for (auto &a : addresses(f, I.getOperand(k)))
            ch |= add(&I, a.n);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        for (auto &m : members(L->getType()))
          for (auto &a : addresses(f, L->getPointerOperand())) {
            Addr b = a;
            b.off += m.first;
            Node n;
            if (slot(b, n))
              hold({L, {std::to_string(m.first)}}, n);
          }
        if (!L->getType()->isPointerTy())
          continue;
        for (auto &a : addresses(f, L->getPointerOperand())) {
          Node s;
          if (!slot(a, s))
            continue;
          ch |= add(L, s);
          auto it = f.content.find(s);
          if (it != f.content.end())
            for (auto &n : Nodes(it->second))
              ch |= add(L, n);
        }
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        for (auto &m : members(S->getValueOperand()->getType())) {
          Node v{S->getValueOperand(), {std::to_string(m.first)}};
          auto as = addresses(f, S->getPointerOperand());
          bool local = !as.empty();
          for (auto &a : as) {
            Addr b = a;
            b.off += m.first;
            Node n;
            if (slot(b, n))
              hold(n, v);
            local &= place(f, a.n);
          }
          if (!local)
            f.escapes[v].insert(S);
        }
        if (!S->getValueOperand()->getType()->isPointerTy())
          continue;
        auto vs = addresses(f, S->getValueOperand());
        auto as = addresses(f, S->getPointerOperand());
        for (auto &a : as) {
          Node s;
          if (!slot(a, s))
            continue;
          for (auto &v : vs)
            if (!v.off && !v.var)
              hold(s, v.n);
        }
        for (auto &v : vs) {
          if (v.off || v.var)
            continue;
          bool local = !as.empty();
          for (auto &a : as)
            local &= place(f, a.n);
          if (!local)
            f.escapes[v.n].insert(S);
        }
      } else if (auto *X = dyn_cast<ExtractValueInst>(&I)) {
        if (!X->getType()->isPointerTy() || X->getNumIndices() != 1)
          continue;
        for (auto &m : members(X->getAggregateOperand()->getType()))
          if (m.second == X->getIndices()[0]) {
            Node n{X->getAggregateOperand(), {std::to_string(m.first)}};
            ch |= add(X, n);
            auto it = f.content.find(n);
            if (it != f.content.end())
              for (auto &y : Nodes(it->second))
                ch |= add(X, y);
          }
      } else if (auto *X = dyn_cast<InsertValueInst>(&I)) {
        for (auto &m : members(X->getType())) {
          Node n{X, {std::to_string(m.first)}};
          if (X->getNumIndices() == 1 && m.second == X->getIndices()[0]) {
            for (auto &a : addresses(f, X->getInsertedValueOperand()))
              if (!a.off && !a.var)
                hold(n, a.n);
          } else if (isa<Instruction>(X->getAggregateOperand()))
            hold(n, {X->getAggregateOperand(), {std::to_string(m.first)}});
        }
      } else if (auto *M = dyn_cast<MemTransferInst>(&I)) {
        auto ds = addresses(f, M->getRawDest()), ss = addresses(f, M->getRawSource());
        auto *n = dyn_cast<ConstantInt>(M->getLength());
        int64_t len = n ? n->getSExtValue() : INT64_MAX / 4;
        for (auto &s : ss) {
          // what is known at the source
          Nodes at;
          auto look = [&](const Node &x) {
            if (x.base != s.n.base || x.path.size() <= s.n.path.size() || !std::equal(s.n.path.begin(), s.n.path.end(), x.path.begin()))
              return;
            Node y = x;
            y.path.resize(s.n.path.size() + 1);
            at.insert(y);
          };
          for (auto &x : f.owned)
            look(x);
          for (auto &x : f.content)
            look(x.first);
          for (auto &x : f.labels)
            for (auto &y : x.second)
              look(y);
          for (auto &d : ds) {
            auto back = [&](const Node &x) {
              if (x.base != d.n.base || x.path.size() <= d.n.path.size() || !std::equal(d.n.path.begin(), d.n.path.end(), x.path.begin()))
                return;
              const std::string &k = x.path[d.n.path.size()];
              Addr from = s;
              from.off += atoll(k.c_str() + (k[0] == '*')) - d.off;
              Node y;
              if (slot(from, y))
                at.insert(y);
            };
            if (!local(d.n.base) || !d.n.path.empty())
              continue;
            for (auto &x : f.released)
              back(x.first);
            for (auto &x : f.escapes)
              back(x.first);
          }
          auto *byval = dyn_cast<Argument>(s.n.base);
          if (byval && byval->hasByValAttr() && s.n.path.empty())
            for (auto &m : members(byval->getParamByValType()))
              at.insert({byval, {std::to_string(m.first)}});
          for (auto &x : at) {
            const std::string &k = x.path.back();
            bool star = k[0] == '*';
            int64_t o = atoll(k.c_str() + star) - s.off;
            if (s.size > 1)
              o = ((o % s.size) + s.size) % s.size;
            if (o < 0 || o >= len)
              continue;
            bool local = !ds.empty();
            for (auto &d : ds) {
              Addr to = d;
              to.off += o;
              Node y;
              if (slot(to, y))
                hold(y, x);
              local &= place(f, d.n);
            }
            if (!local)
              f.escapes[x].insert(M);
          }
        }
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        StringRef n = calleeName(C);
        if (C->getType()->isPointerTy())
          ch |= add(C, {C, {}});
        if (allocator(n) || opener(n)) {
          own({C, {}});
          f.acquired[{C, {}}].insert(C);
          if (opener(n))
            f.files.insert({C, {}});
        }
        if (releaser(n))
          for (auto &a : addresses(f, C->getArgOperand(0)))
            if (!a.off && !a.var)
              f.released[a.n].insert(C);
        if (n == "png_destroy_read_struct" || n == "png_destroy_write_struct")
          for (auto &o : C->args())
            for (auto &a : addresses(f, o.get())) {
              Node m;
              if (slot(a, m)) {
                f.released[m].insert(C);
                auto it = f.content.find(m);
                if (it != f.content.end())
                  for (auto &x : it->second)
                    f.released[x].insert(C);
              }
            }
        Function *g = C->getCalledFunction();
        auto it = g ? sum.find(g) : sum.end();
        if (it == sum.end())
          continue;
        auto &s = it->second;
        auto arg = [&](int k) { return k < (int)C->arg_size() ? addresses(f, C->getArgOperand(k)) : std::vector<Addr>(); };
        for (auto &x : s.fills)
          for (auto &p : x.second) {
            if (x.first < 0) {
              Node m{C, p.first};
              own(m);
              if (p.first.empty() || (p.first.size() == 1 && C->getType()->isStructTy()))
                f.acquired[m].insert(C);
            } else
              for (auto &a : arg(x.first)) {
                Node m;
                if (append(a, p.first, m)) {
                  own(m);
                  f.acquired[m].insert(C);
                }
              }
          }
        for (auto &x : s.releases)
          for (auto &p : x.second)
            for (auto &a : arg(x.first)) {
              Node m;
              if (append(a, p, m))
                f.released[m].insert(C);
            }
        for (auto &x : s.keeps)
          for (auto &p : x.second)
            for (auto &a : arg(x.first)) {
              Node m;
              if (append(a, p, m))
                f.escapes[m].insert(C);
            }
        for (auto k : s.returns)
          for (auto &a : arg(k))
            if (!a.off && !a.var)
              ch |= add(C, a.n);
        for (auto &m : s.moves) {
          for (auto &b : arg(m.second.first)) {
            Node from;
            if (!append(b, m.second.second, from))
              continue;
            if (m.first.first < 0) {
              if (!C->getType()->isVoidTy())
                hold({C, m.first.second}, from);
              continue;
            }
            for (auto &a : arg(m.first.first)) {
              Node to;
              if (append(a, m.first.second, to))
                hold(to, from);
            }
          }
        }
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
        if (!r->getReturnValue())
          continue;
        for (auto &m : members(r->getReturnValue()->getType()))
          f.escapes[{r->getReturnValue(), {std::to_string(m.first)}}].insert(r);
        if (r->getReturnValue()->getType()->isPointerTy())
          for (auto &a : addresses(f, r->getReturnValue()))
            if (!a.off && !a.var)
              f.escapes[a.n].insert(r);
      }
    }
    // what is held is owned by the holder too, and the other way round
    std::vector<Node> more;
    std::vector<std::pair<Node, Node>> holds;
    std::vector<std::pair<Node, Instruction *>> rel;
    auto carry = [&](const Node &o, const Node &from, const Node &to, Node &y) {
      if (o.base != from.base || o.path.size() < from.path.size() || !std::equal(from.path.begin(), from.path.end(), o.path.begin()))
        return false;
      y = to;
      for (size_t k = from.path.size(); k < o.path.size(); k++)
        y.path.push_back(y.path.empty() || o.path[k][0] == '*' ? o.path[k] : "*" + o.path[k]);
      return y.path.size() <= 4;
    };
    for (auto &c : f.content)
      for (auto &x : c.second) {
        Node y;
        for (auto &o : f.owned) {
          if (carry(o, x, c.first, y))
            more.push_back(y);
          if (carry(o, c.first, x, y))
            more.push_back(y);
        }
        for (auto &d : f.content) {
          if (d.first.path.size() > x.path.size() && carry(d.first, x, c.first, y))
            for (auto &z : d.second)
              holds.push_back({y, z});
          if (d.first.path.size() > c.first.path.size() && carry(d.first, c.first, x, y))
            for (auto &z : d.second)
              holds.push_back({y, z});
        }
        // releasing what a variable holds releases it where it came from
        for (auto &r : f.released)
          if (local(c.first.base) && carry(r.first, c.first, x, y))
            for (auto *I : r.second)
              rel.push_back({y, I});
      }
    for (auto &m : more)
      own(m);
    for (auto &h : holds)
      hold(h.first, h.second);
    for (auto &r : rel)
      ch |= f.released[r.first].insert(r.second).second;
  }
}

Own::Nodes Own::aliases(Function_ &f, const Node &n) {
  Nodes s{n};
  std::vector<Node> w{n};
  while (!w.empty()) {
    Node x = w.back();
    w.pop_back();
    auto it = f.content.find(x);
    if (it != f.content.end() && (x == n || place(f, {x.base, {}})))
      for (auto &y : it->second)
        if (f.owned.count(y) && s.insert(y).second)
          w.push_back(y);
    for (auto &c : f.content)
      if (place(f, {c.first.base, {}}) && c.second.count(x) && s.insert(c.first).second)
        w.push_back(c.first);
  }
  return s;
}

// a path from `from` to the goal on which n is neither released nor handed on
Instruction *Own::lost(Function &F, Function_ &f, const Node &n, Instruction *from, int fatal, int cancel,
                       const std::function<bool(Instruction &)> &goal, const Left *left, bool handing, const Nodes *also) {
  searches++;
  bool quiet = fatal == 0 || fatal == -2; // nothing has gone wrong so far
  Nodes as = aliases(f, n), others;
  if (alone) {
    others = as;
    as = {n};
  }
  if (also)
    for (auto &a : *also)
      for (auto &x : aliases(f, a))
        as.insert(x);
  PathSearch S(F, R.FAM.getResult<LoopAnalysis>(F));
  S.limit = 20000;
  S.remember = true;
  S.carried = true;
  std::set<const Instruction *> returned;
  for (auto &a : as) {
    for (auto *m : {&f.released, &f.escapes}) {
      auto it = m->find(a);
      if (it != m->end())
        for (auto *I : it->second)
          if (I != from && !(handing && isa<ReturnInst>(I)))
            S.stops.insert(I);
    }
    // handed on together with what holds it
    if (!a.path.empty() && isa<CallBase>(a.base)) {
      auto it = f.escapes.find({a.base, {}});
      if (it != f.escapes.end())
        for (auto *I : it->second)
          if (I != from && !(handing && isa<ReturnInst>(I)))
            S.stops.insert(I);
    }
  }
  for (auto it = S.stops.begin(); it != S.stops.end();)
    if (isa<ReturnInst>(*it)) {
      returned.insert(*it);
      it = S.stops.erase(it);
    } else
      ++it;
  // values that hold the thing itself
  std::set<Value *> held;
  for (auto &l : f.labels)
    if (!isa<AllocaInst>(l.first))
      for (auto &x : l.second)
        if (as.count(x))
          held.insert(l.first);
  // questions about errors that the call just made has decided
  std::set<const Instruction *> decided;
  auto *C = dyn_cast<CallBase>(from);
  if (quiet) {
    std::set<Instruction *> seen, open;
    std::vector<Instruction *> w{from};
    auto raisesAt = [&](Instruction *I) {
      auto *c = dyn_cast<CallBase>(I);
      return c && c->getCalledFunction() && raises[c->getCalledFunction()];
    };
    auto walk = [&](std::vector<Instruction *> w, std::set<Instruction *> &seen, bool stop) {
      while (!w.empty()) {
        Instruction *I = w.back();
        w.pop_back();
        std::vector<Instruction *> next;
        if (I->isTerminator()) {
          for (auto *b : successors(I->getParent()))
            next.push_back(&b->front());
        } else
          next.push_back(I->getNextNode());
        for (auto *x : next)
          if (x != from && seen.insert(x).second && !(stop && raisesAt(x)))
            w.push_back(x);
      }
    };
    walk({from}, seen, true);
    std::vector<Instruction *> others;
    for (auto *x : seen)
      if (raisesAt(x))
        others.push_back(x);
    walk(others, open, false);
    for (auto *x : seen)
      if (isFatalAsk(x) && !open.count(x))
        decided.insert(x);
  }
  S.given = [&](Value *V, int64_t &c) {
    auto k = constants.find(V);
    if (k != constants.end()) {
      c = k->second;
      return true;
    }
    auto *I = dyn_cast<Instruction>(V);
    if (!I)
      return false;
    if (isFatalAsk(I)) {
      if (decided.count(I)) {
        c = 0;
        return true;
      }
      if (fatal >= 0 && (fatal == 1 || handing || summarising)) {
        c = fatal;
        return true;
      }
    }
    if (cancel >= 0 && isCancelAsk(I)) {
      c = cancel;
      return true;
    }
    return false;
  };
  S.same = [&](Value *v) { return same(F, v); };
  S.counter = [&](PHINode *p) {
    bool zero = false, up = false;
    for (auto &in : p->incoming_values()) {
      if (auto *c = dyn_cast<ConstantInt>(in.get()))
        zero |= c->isZero();
      std::set<Value *> seen;
      std::vector<Value *> w{in.get()};
      while (!w.empty()) {
        Value *v = w.back();
        w.pop_back();
        if (!seen.insert(v).second || v == p)
          continue;
        if (auto *q = dyn_cast<PHINode>(v))
          w.insert(w.end(), q->value_op_begin(), q->value_op_end());
        else if (auto *b = dyn_cast<BinaryOperator>(v)) {
          auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
          if (b->getOpcode() != Instruction::Add || !k || k->isNegative())
            return false;
          up = true;
          w.push_back(b->getOperand(0));
        } else if (!isa<ConstantInt>(v) || cast<ConstantInt>(v)->isNegative())
          return false;
      }
    }
    return zero && up;
  };
  if (n.path.empty() && n.base == from)
    S.tokens.insert(from);
  auto sure = [&](Value *v, bool ask = true) {
    if (v == from || (alone && v == n.base && isa<Argument>(v)) || (ask && !S.tokens.empty() && S.eval(v, S.now).k == PathSearch::Val::Token))
      return true;
    if (!held.count(v))
      return false;
    for (auto &x : f.labels[v])
      if (!as.count(x) && !others.count(x))
        return false; // another thing may be meant
    return true;
  };
  S.dead = [&](const BasicBlock *A, const BasicBlock *B) {
    auto *br = dyn_cast<BranchInst>(A->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
      return false;
    bool yes = B == br->getSuccessor(0);
    Value *cond = br->getCondition();
    while (auto *b = dyn_cast<BinaryOperator>(cond)) {
      if (b->getOpcode() != Instruction::Xor || !isa<ConstantInt>(b->getOperand(1)))
        break;
      cond = b->getOperand(0);
      yes = !yes;
    }
    if (auto *t = dyn_cast<TruncInst>(cond))
      cond = t->getOperand(0);
    Value *v = cond;
    bool zeroSide = !yes;
    if (auto *c = dyn_cast<ICmpInst>(cond)) {
      // a thing that was just acquired is no other thing
      if (c->isEquality() && c->getOperand(0)->getType()->isPointerTy())
        for (int k = 0; k < 2; k++) {
          Value *x = c->getOperand(k), *y = c->getOperand(1 - k);
          if (!sure(x) || isa<ConstantPointerNull>(y))
            continue;
          bool other = true;
          for (auto &l : f.labels[y])
            other &= !as.count(l);
          if (other && (c->getPredicate() == CmpInst::ICMP_EQ) == yes)
            return true;
        }
      // a number kept beside the pointer that says that there is nothing
      if (auto *L = dyn_cast<LoadInst>(c->getOperand(0)))
        if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1)))
          if (L->getType()->isIntegerTy())
            for (auto &a : addresses(f, L->getPointerOperand()))
              for (auto &x : as)
                if (a.n.base == x.base && x.path.size() == a.n.path.size() + 1 && std::equal(a.n.path.begin(), a.n.path.end(), x.path.begin())) {
                  auto p = yes ? c->getPredicate() : c->getInversePredicate();
                  if (p == CmpInst::ICMP_NE && !k->isZero())
                    return true;
                  if (p == CmpInst::ICMP_EQ && k->isZero())
                    return true;
                  if ((p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) && k->isZero())
                    return true;
                  if ((p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT) && k->isOne())
                    return true;
                }
      if (!c->isEquality() || !isa<Constant>(c->getOperand(1)) || !cast<Constant>(c->getOperand(1))->isNullValue())
        return false;
      v = c->getOperand(0);
      zeroSide = (c->getPredicate() == CmpInst::ICMP_EQ) == yes;
    }
    while (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v))
      v = cast<Instruction>(v)->getOperand(0);
    if (zeroSide && v->getType()->isPointerTy() && sure(v))
      return true;
    if (C && v == C && left && !C->getType()->isPointerTy())
      return zeroSide ? !left->zero : !left->other;
    return false;
  };
  S.positive = [&](Value *V) { return V->getType()->isPointerTy() && sure(V, false); };
  if (goalValue || !returned.empty())
    for (auto &I : instructions(F))
      if (isa<ReturnInst>(I))
        S.watch.push_back(&I);
  S.prepare();
  S.assume(from);
  Instruction *hit = S.reach(from, [&](Instruction &I) {
    if (!goal(I) || S.stops.count(&I))
      return false;
    if (returned.count(&I)) { // unless nothing is returned on this path
      Value *v = I.getOperand(0);
      auto r = v->getType()->isPointerTy() ? S.eval(v, S.now) : PathSearch::Val();
      if (!(r.k == PathSearch::Val::Const && r.c == 0))
        return false;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I))
      if (goalValue)
        return goalValue(S, r);
    return true;
  });
  if (S.exceeded) {
    undecided++;
    return nullptr;
  }
  return hit;
}

// one value for all reads of a place behind a parameter that the function does not change
Value *Own::same(Function &F, Value *V) {
  auto it = reads.find(&F);
  if (it == reads.end()) {
    auto &m = reads[&F];
    std::map<std::tuple<Value *, int64_t, Type *>, std::vector<LoadInst *>> groups;
    std::set<Value *> changed; // parameters passed on, or stored to at a place not known
    std::set<std::pair<Value *, int64_t>> stored;
    auto place = [&](Value *p, int64_t &off) {
      APInt o(64, 0);
      Value *b = p->stripAndAccumulateConstantOffsets(DL, o, true);
      off = o.getSExtValue();
      return b;
    };
    auto &f = fun[&F];
    for (auto &I : instructions(F)) {
      int64_t off;
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        Value *b = place(L->getPointerOperand(), off);
        if (isa<Argument>(b) && L->getType()->isIntegerTy())
          groups[{b, off, L->getType()}].push_back(L);
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        Value *b = place(S->getPointerOperand(), off);
        if (isa<Argument>(b))
          stored.insert({b, off});
        else
          for (auto &a : addresses(f, S->getPointerOperand()))
            if (a.n.path.empty())
              changed.insert(a.n.base);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("llvm.dbg"))
          continue;
        for (auto &o : C->args())
          if (o->getType()->isPointerTy())
            for (auto &a : addresses(f, o.get()))
              if (a.n.path.empty())
                changed.insert(a.n.base);
      }
    }
    for (auto &g : groups)
      if (g.second.size() > 1 && !changed.count(std::get<0>(g.first)) && !stored.count({std::get<0>(g.first), std::get<1>(g.first)}))
        for (auto *L : g.second)
          m[L] = g.second[0];
    it = reads.find(&F);
  }
  if (auto *L = dyn_cast<LoadInst>(V)) {
    auto x = it->second.find(L);
    return x == it->second.end() ? nullptr : x->second;
  }
  if (auto *c = dyn_cast<CastInst>(V))
    if (auto *L = dyn_cast<LoadInst>(c->getOperand(0))) {
      auto x = it->second.find(L);
      if (x == it->second.end())
        return nullptr;
      auto &rep = converted[{x->second, c->getOpcode(), c->getType()}];
      if (!rep)
        rep = c;
      return rep;
    }
  return nullptr;
}
std::set<Instruction *> Own::starts(Function &F, Function_ &f, const Node &o) {
  std::set<Instruction *> from;
  auto it = f.acquired.find(o);
  if (it != f.acquired.end())
    from.insert(it->second.begin(), it->second.end());
  for (auto &I : instructions(F)) {
    std::vector<Addr> as;
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      if (!S->getValueOperand()->getType()->isPointerTy())
        continue;
      bool fresh = false;
      for (auto &v : addresses(f, S->getValueOperand()))
        fresh |= f.owned.count(v.n) && !(v.n == o);
      if (!fresh)
        continue;
      for (auto &a : addresses(f, S->getPointerOperand())) {
        Node n;
        if (slot(a, n) && n == o)
          from.insert(S);
      }
    } else if (auto *M = dyn_cast<MemTransferInst>(&I)) {
      for (auto &a : addresses(f, M->getRawDest()))
        if (a.n.base == o.base && a.n.path.empty())
          from.insert(M);
    }
  }
  return from;
}
bool Own::follows(CallBase *C) { return after(C, false); }
bool Own::holds(CallBase *C) {
  auto it = holding.find(C);
  if (it != holding.end())
    return it->second;
  return holding[C] = after(C, enters[C->getFunction()]);
}
bool Own::after(CallBase *C, bool before) {
  Function &F = *C->getFunction();
  bool r = false;
  auto search = [&](Instruction *from) {
    PathSearch S(F, R.FAM.getResult<LoopAnalysis>(F));
    S.limit = 20000;
    S.given = [&](Value *V, int64_t &c) {
      auto *I = dyn_cast<Instruction>(V);
      c = 1;
      return I && isFatalAsk(I);
    };
    return S.reach(from, [&](Instruction &I) { return &I == C; }) != nullptr;
  };
  if (before)
    r = search(nullptr);
  for (auto &I : instructions(F))
    if (auto *c = dyn_cast<CallBase>(&I))
      if (!r && c->getCalledFunction() && raises[c->getCalledFunction()])
        r = search(c);
  return r;
}
bool Own::absent(CallBase *C, const Node &n) {
  Function *g = C->getCalledFunction();
  if (!g || !sum.count(g))
    return false;
  constants.clear();
  for (unsigned k = 0; k < C->arg_size() && k < g->arg_size(); k++)
    if (auto *c = dyn_cast<ConstantInt>(C->getArgOperand(k)))
      if (c->getBitWidth() <= 64)
        constants[g->getArg(k)] = c->getSExtValue();
  bool r = !constants.empty();
  auto &caller = fun[C->getFunction()];
  auto &f = fun[g];
  for (auto &x : sum[g].fills)
    for (auto &p : x.second) {
      if (!r)
        break;
      Node o;
      if (x.first < 0) {
        if (n.base != C || n.path != p.first)
          continue;
        r = false;
        continue;
      }
      bool meant = false;
      for (auto &a : addresses(caller, C->getArgOperand(x.first))) {
        Node m;
        meant |= append(a, p.first, m) && m == n;
      }
      if (!meant)
        continue;
      o = {g->getArg(x.first), p.first};
      for (auto *I : starts(*g, f, o)) {
        PathSearch S(*g, R.FAM.getResult<LoopAnalysis>(*g));
        S.limit = 20000;
        S.given = [&](Value *V, int64_t &c) {
          auto k = constants.find(V);
          if (k == constants.end())
            return false;
          c = k->second;
          return true;
        };
        if (S.reach(nullptr, [&](Instruction &J) { return &J == I; }))
          r = false;
      }
    }
  constants.clear();
  return r;
}
// the ways in which what n stands for is left when the function returns
Own::Left Own::ways(Function &F, Function_ &f, const Node &o, const std::set<Instruction *> &from, bool handing) {
  Left l;
  Nodes as = aliases(f, o);
  bool ret = F.getReturnType()->isIntegerTy();
  for (auto *I : from) {
    auto *C = dyn_cast<CallBase>(I);
    const Left *given = nullptr;
    Left cl;
    if (C && C->getCalledFunction() && sum.count(C->getCalledFunction()))
      for (auto &x : sum[C->getCalledFunction()].fills)
        for (auto &p : x.second) {
          if (x.first < 0) {
            if (as.count({C, p.first}))
              cl = p.second, given = &cl;
            continue;
          }
          for (auto &a : addresses(f, C->getArgOperand(x.first))) {
            Node m;
            if (append(a, p.first, m) && as.count(m)) {
              cl = p.second;
              given = &cl;
            }
          }
        }
    for (int fatal = 0; fatal < 2; fatal++)
      for (int cancel = 0; cancel < 2; cancel++) {
        if (given && !(fatal ? given->fatal : given->fine))
          continue;
        if (fatal && !raises[&F] && !enters[&F])
          continue;
        if (given && !(cancel ? given->cancelled : given->going))
          continue;
        for (int z = 0; z < (ret ? 2 : 1); z++) {
          goalValue = nullptr;
          if (ret)
            goalValue = [&](PathSearch &S, ReturnInst *r) {
              auto v = S.eval(r->getReturnValue(), S.now);
              if (v.k == PathSearch::Val::Const)
                return (v.c == 0) == (z == 0);
              if (v.k == PathSearch::Val::Positive)
                return z == 1;
              return true;
            };
          auto *hit = lost(F, f, o, I, fatal, cancel, [](Instruction &J) { return isa<ReturnInst>(J); }, given, handing);
          goalValue = nullptr;
          if (!hit)
            continue;
          (ret && z == 0 ? l.zero : l.other) = true;
          if (!ret)
            l.zero = true;
          (fatal ? l.fatal : l.fine) = true;
          (cancel ? l.cancelled : l.going) = true;
        }
      }
  }
  return l;
}
void Own::results(Function &F, Function_ &f, Summary &s) {
  auto index = [](const Node &n) {
    auto *A = dyn_cast<Argument>(n.base);
    return A ? (int)A->getArgNo() : -2;
  };
  auto under = [](const Node &x, const Node &top) {
    return x.base == top.base && x.path.size() >= top.path.size() && std::equal(top.path.begin(), top.path.end(), x.path.begin());
  };
  for (auto &I : instructions(F)) {
    auto *r = dyn_cast<ReturnInst>(&I);
    if (!r || !r->getReturnValue())
      continue;
    Value *V = r->getReturnValue();
    std::vector<std::pair<Node, Path>> tops; // node, path under which the caller sees it
    for (auto &m : members(V->getType()))
      tops.push_back({{V, {std::to_string(m.first)}}, {std::to_string(m.first)}});
    if (V->getType()->isPointerTy())
      for (auto &a : addresses(f, V))
        if (!a.off && !a.var)
          tops.push_back({a.n, {}});
    for (auto &t : tops) {
      for (auto &o : f.owned) {
        if (!under(o, t.first) || (index(o) >= 0 && o.path == t.first.path))
          continue;
        Path p = t.second;
        for (size_t k = t.first.path.size(); k < o.path.size(); k++)
          p.push_back(p.empty() && o.path[k][0] == '*' && k ? o.path[k].substr(1) : p.empty() || o.path[k][0] == '*' ? o.path[k] : "*" + o.path[k]);
        // kept elsewhere too: not the caller's to release
        if (o == t.first) {
          bool kept = false;
          for (auto &a : aliases(f, o)) {
            auto it = f.escapes.find(a);
            if (it != f.escapes.end())
              for (auto *I : it->second)
                kept |= !isa<ReturnInst>(I) && !isa<CallBase>(I);
          }
          if (kept)
            continue;
        }
        Left l;
        l.other = l.fine = l.going = l.fatal = l.cancelled = true;
        if (o == t.first && V->getType()->isStructTy()) {
          std::set<Instruction *> from;
          for (auto &a : aliases(f, o)) {
            auto it = f.acquired.find(a);
            if (it != f.acquired.end())
              from.insert(it->second.begin(), it->second.end());
          }
          l = ways(F, f, o, from, true);
          if (!l.any())
            continue;
        }
        s.fills[-1][p] = l;
      }
      for (auto &c : f.content)
        if (under(c.first, t.first))
          for (auto &x : c.second)
            if (index(x) >= 0) {
              Path p = t.second;
              p.insert(p.end(), c.first.path.begin() + t.first.path.size(), c.first.path.end());
              if (!p.empty())
                s.moves.insert({{-1, p}, {index(x), x.path}});
            }
    }
  }
}

// a parameter itself can be what is passed to a call, not only something put in its place
bool Own::reaches(Function &F, Argument *A, CallBase *C) {
  bool merged = false, direct = false;
  std::vector<Value *> ops;
  for (auto &o : C->args()) {
    Value *v = o.get();
    while (isa<GEPOperator>(v) || isa<CastInst>(v))
      v = cast<User>(v)->getOperand(0);
    if (v == A)
      direct = true;
    if (isa<PHINode>(v) || isa<SelectInst>(v)) {
      auto &ls = fun[&F].labels[v];
      if (ls.count({A, {}}) && ls.size() > 1) {
        merged = true;
        ops.push_back(v);
      }
    }
  }
  if (!merged || direct)
    return true;
  auto key = std::make_pair(A, C);
  auto it = reaching.find(key);
  if (it != reaching.end())
    return it->second;
  PathSearch S(F, R.FAM.getResult<LoopAnalysis>(F));
  S.limit = 20000;
  S.remember = true;
  S.tokens.insert(A);
  bool r = S.reach(nullptr, [&](Instruction &I) {
    if (&I != C)
      return false;
    for (auto *v : ops)
      if (S.eval(v, S.now).k == PathSearch::Val::Token)
        return true;
    return false;
  }) || S.exceeded;
  return reaching[key] = r;
}
bool Own::summarise(Function &F) {
  label(F);
  auto &f = fun[&F];
  Summary s;
  s.raises = raises[&F];
  auto index = [](const Node &n) {
    auto *A = dyn_cast<Argument>(n.base);
    return A ? (int)A->getArgNo() : -2;
  };
  for (auto &x : f.released)
    if (index(x.first) >= 0) {
      bool sure = false;
      for (auto *I : x.second)
        sure |= reaches(F, F.getArg(index(x.first)), cast<CallBase>(I));
      if (sure)
        s.releases[index(x.first)].insert(x.first.path);
    }
  // its own copy of a structure cannot be handed anything
  for (auto &x : f.escapes)
    if (index(x.first) >= 0)
      for (auto *I : x.second) {
        if (isa<ReturnInst>(I) && x.first.path.empty()) {
          s.returns.insert(index(x.first));
          continue;
        }
        // put back where it was: nothing new
        s.keeps[index(x.first)].insert(x.first.path);
      }
  for (auto &c : f.content)
    if (index(c.first) >= 0)
      for (auto &x : c.second)
        if (index(x) >= 0) {
          s.moves.insert({{index(c.first), c.first.path}, {index(x), x.path}});
          s.keeps[index(x)].insert(x.path);
        }
  results(F, f, s);
  std::set<Value *> handed; // what is returned
  for (auto &I : instructions(F))
    if (auto *r = dyn_cast<ReturnInst>(&I))
      if (r->getReturnValue()) {
        if (r->getReturnValue()->getType()->isStructTy())
          handed.insert(r->getReturnValue());
        if (r->getReturnValue()->getType()->isPointerTy())
          for (auto &a : addresses(f, r->getReturnValue()))
            if (!a.off && !a.var && a.n.path.empty() && !isa<Argument>(a.n.base))
              handed.insert(a.n.base);
      }
  for (auto &o : f.owned) {
    int k = index(o);
    if (k < 0 || o.path.empty() || F.getArg(k)->hasByValAttr())
      continue;
    Left l;
    if (o.path.size() > 1 || F.getReturnType()->isPointerTy()) {
      l.other = l.zero = l.fine = l.fatal = l.going = l.cancelled = true;
      s.fills[k][o.path] = l;
      continue;
    }
    l = ways(F, f, o, starts(F, f, o), false);
    if (l.any())
      s.fills[k][o.path] = l;
  }
  // what is found in several places counts at the nearest one
  std::map<Value *, std::pair<size_t, Node>> nearest;
  auto objects = [&](const Node &o) {
    std::set<Value *> r;
    auto it = f.content.find(o);
    if (it != f.content.end())
      for (auto &x : it->second)
        if (x.path.empty() && isa<CallBase>(x.base) && f.owned.count(x))
          r.insert(x.base);
    return r;
  };
  for (auto &o : f.owned)
    if (index(o) >= 0 || handed.count(o.base))
      for (auto *v : objects(o)) {
        auto it = nearest.find(v);
        auto at = std::make_pair(o.path.size(), o);
        if (it == nearest.end() || at < it->second)
          nearest[v] = at;
      }
  for (auto &o : f.owned)
    if (index(o) >= 0 || handed.count(o.base)) {
      auto os = objects(o);
      bool far = !os.empty();
      for (auto *v : os)
        far &= !(nearest[v].second == o) || handed.count(v);
      if (!far)
        continue;
      auto &fs = s.fills[index(o) >= 0 ? index(o) : -1];
      for (auto it = fs.begin(); it != fs.end();)
        if (it->first.size() >= o.path.size() && std::equal(o.path.begin(), o.path.end(), it->first.begin()))
          it = fs.erase(it);
        else
          ++it;
    }
  // the same place, written as an element of an array and as a member
  for (auto &x : s.fills)
    for (auto it = x.second.begin(); it != x.second.end();) {
      Path q = it->first;
      if (!q.empty() && q[0][0] == '*')
        q[0] = q[0].substr(1);
      if (q != it->first && x.second.count(q))
        it = x.second.erase(it);
      else
        ++it;
    }
  bool same = s == sum[&F];
  sum[&F] = s;
  return !same;
}

// a direct look at the mark of an exception object becomes the question it is
void Own::normalise() {
  Module &M = *R.M;
  Function *ask = M.getFunction("at_exception_got_fatal");
  uint64_t off, size;
  int64_t fatal;
  if (!ask || !P.L.find("at_exception_type", "msg_type", off, size) || !enumValue(M, "AT_MSG_FATAL", fatal))
    return;
  std::map<Function *, std::set<int>> takes;
  for (auto *n : {"at_exception_fatal", "at_exception_warning", "at_exception_got_fatal"})
    if (Function *F = M.getFunction(n))
      takes[F].insert(0);
  std::set<Value *> objects;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : M)
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I)) {
          auto it = takes.find(C->getCalledFunction());
          if (it == takes.end())
            continue;
          for (int k : it->second)
            if ((unsigned)k < C->arg_size()) {
              Value *o = C->getArgOperand(k)->stripPointerCasts();
              if (isa<AllocaInst>(o) || isa<Argument>(o))
                ch |= objects.insert(o).second;
              if (auto *A = dyn_cast<Argument>(o))
                ch |= takes[&F].insert(A->getArgNo()).second;
            }
        }
  }
  std::vector<ICmpInst *> looks;
  for (auto &F : M)
    if (!StringRef(F.getName()).starts_with("at_exception_"))
      for (auto &I : instructions(F))
        if (auto *c = dyn_cast<ICmpInst>(&I))
          if (c->isEquality())
            if (auto *L = dyn_cast<LoadInst>(c->getOperand(0)))
              if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1))) {
                APInt o(64, 0);
                Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
                if (k->getSExtValue() == fatal && o == off && objects.count(b))
                  looks.push_back(c);
              }
  for (auto *c : looks) {
    auto *L = cast<LoadInst>(c->getOperand(0));
    Value *b = L->getPointerOperand()->stripPointerCasts();
    APInt o(64, 0);
    b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, o, true);
    auto *call = CallInst::Create(ask->getFunctionType(), ask, {b}, "", c);
    call->setDebugLoc(c->getDebugLoc());
    Value *v = call;
    if (c->getPredicate() == CmpInst::ICMP_NE)
      v = BinaryOperator::CreateNot(call, "", c);
    c->replaceAllUsesWith(v);
    c->eraseFromParent();
  }
}

void Own::run(const std::function<bool(const Function &)> &include) {
  normalise();
  // which functions can raise a fatal error
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : *R.M) {
      if (raises[&F])
        continue;
      bool r = F.getName() == "at_exception_fatal";
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->getCalledFunction() && raises[C->getCalledFunction()])
            r = true;
      if (r) {
        raises[&F] = true;
        ch = true;
      }
    }
  }
  std::vector<Function *> order;
  {
    CallGraph CG(*R.M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
      for (auto *n : *I)
        if (n->getFunction() && !n->getFunction()->isDeclaration() && include(*n->getFunction()))
          order.push_back(n->getFunction());
  }
  for (auto *F : order)
    sum[F];
  // functions that can be called after an error
  for (bool ch = true; ch;) {
    ch = false;
    holding.clear();
    for (auto *F : order)
      for (auto &I : instructions(*F))
        if (auto *C = dyn_cast<CallBase>(&I)) {
          Function *g = C->getCalledFunction();
          if (!g || g->isDeclaration() || enters[g])
            continue;
          bool passed = false;
          auto *SP = g->getSubprogram();
          if (SP && SP->getType())
            for (auto *T : SP->getType()->getTypeArray()) {
              auto *D = dyn_cast_or_null<DIDerivedType>(T);
              while (D && (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_pointer_type)) {
                passed |= D->getName() == "at_exception_type";
                if (D->getBaseType() && D->getBaseType()->getName() == "at_exception_type")
                  passed = true;
                D = dyn_cast_or_null<DIDerivedType>(D->getBaseType());
              }
            }
          if (passed && holds(C)) {
            enters[g] = true;
            ch = true;
          }
        }
  }
  holding.clear();
  summarising = true;
  for (int round = 0; round < 6; round++) {
    bool ch = false;
    for (auto *F : order)
      ch |= summarise(*F);
    if (!ch)
      break;
  }
  summarising = false;
}

const DIType *Own::typeOf(Function &F, int param) {
  auto *SP = F.getSubprogram();
  if (!SP || !SP->getType())
    return nullptr;
  if (F.arg_size() && F.getArg(0)->hasStructRetAttr())
    param--;
  auto ts = SP->getType()->getTypeArray();
  if (param < 0 || (unsigned)param + 1 >= ts.size())
    return nullptr;
  const DIType *t = ts[param + 1];
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    bool ptr = d->getTag() == dwarf::DW_TAG_pointer_type;
    t = d->getBaseType();
    if (ptr)
      break;
  }
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type)
      return nullptr;
    t = d->getBaseType();
  }
  return t;
}

// instructions that put something else into the place n
std::set<Instruction *> Own::replaced(Function &F, Function_ &f, const Node &n, const Node &thing) {
  std::set<Instruction *> r;
  if (n.path.size() != 1 || n.path.back()[0] == '*')
    return r;
  Nodes as{n, thing};
  auto &DT = R.FAM.getResult<DominatorTreeAnalysis>(F);
  auto meant = [&](Value *V, bool whole, uint64_t size) {
    auto v = addresses(f, V);
    if (v.size() != 1 || v[0].var || v[0].n.base != n.base || !v[0].n.path.empty())
      return false;
    int64_t at = atoll(n.path.back().c_str());
    return whole ? v[0].off <= at && at + 8 <= v[0].off + (int64_t)size : v[0].off == at;
  };
  auto mine = [&](Value *v) {
    auto it = f.labels.find(v->stripPointerCasts());
    if (it != f.labels.end())
      for (auto &x : it->second)
        if (as.count(x))
          return true;
    return false;
  };
  for (auto &I : instructions(F)) {
    bool over = false;
    if (auto *S = dyn_cast<StoreInst>(&I))
      over = meant(S->getPointerOperand(), false, 0) && !mine(S->getValueOperand());
    else if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
      auto *len = dyn_cast<ConstantInt>(M->getLength());
      over = len && meant(M->getDest(), true, len->getZExtValue());
    }
    if (!over)
      continue;
    // still held by a value read before and dealt with later
    bool held = false;
    for (auto *m : {&f.released, &f.escapes})
      for (auto &a : as) {
        auto it = m->find(a);
        if (it == m->end())
          continue;
        for (auto *X : it->second)
          for (auto &op : X->operands())
            if (auto *L = dyn_cast<Instruction>(op.get()->stripPointerCasts()))
              held |= mine(L) && DT.dominates(L, &I) && X != &I && isPotentiallyReachable(&I, X, nullptr, &DT);
      }
    if (!held)
      r.insert(&I);
  }
  return r;
}

// memory a parameter held, replaced with something fresh and never released
std::vector<Own::Leak> Own::replaces(Function &F) {
  std::vector<Leak> r;
  auto &f = fun[&F];
  std::set<Node> places;
  for (auto &x : f.content)
    if (auto *A = dyn_cast<Argument>(x.first.base))
      if (x.first.path.size() == 1 && !A->hasByValAttr() && !A->hasStructRetAttr())
        places.insert(x.first);
  for (auto &n : places) {
    auto *A = cast<Argument>(n.base);
    auto *t = typeOf(F, A->getArgNo());
    bool known = false; // things of this type own what is there
    for (auto &x : sum)
      for (auto &y : x.second.releases)
        if (t && y.second.count(n.path) && typeOf(*x.first, y.first) == t)
          known = true;
    if (!known)
      continue;
    std::set<Instruction *> fresh;
    for (auto *J : replaced(F, f, n, n)) {
      bool owned = false;
      if (auto *S = dyn_cast<StoreInst>(J)) {
        auto it = f.labels.find(S->getValueOperand()->stripPointerCasts());
        if (it != f.labels.end())
          for (auto &x : it->second)
            owned |= f.owned.count(x) > 0;
      } else if (isa<MemTransferInst>(J))
        owned = true;
      if (owned)
        fresh.insert(J);
    }
    if (fresh.empty())
      continue;
    std::vector<LoadInst *> reads;
    for (auto &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        if (!L->getType()->isPointerTy())
          continue;
        auto v = addresses(f, L->getPointerOperand());
        Node m;
        if (v.size() == 1 && slot(v[0], m) && m == n) {
          bool used = false;
          for (auto *U : L->users())
            used |= isa<LoadInst>(U) || isa<GetElementPtrInst>(U) || isa<CallBase>(U);
          if (used)
            reads.push_back(L);
        }
      }
    for (auto *L : reads) {
      held_++;
      goalValue = nullptr;
      alone = true;
      Instruction *hit = lost(F, f, n, L, -2, -1, [&](Instruction &J) { return fresh.count(&J) > 0; }, nullptr);
      alone = false;
      if (!hit)
        continue;
      Leak l;
      l.at = L;
      l.end = hit;
      l.name = A->getName().split('.').first.str() + "+" + n.path[0];
      r.push_back(l);
      break;
    }
  }
  return r;
}

// a function that ends a thing's life must release each part on all of its paths
std::vector<Own::Leak> Own::skips(Function &F) {
  std::vector<Leak> r;
  auto &f = fun[&F];
  auto &s = sum[&F];
  if (!F.getReturnType()->isVoidTy())
    return r;
  for (auto &x : s.releases) {
    if (x.first < 0 || s.fills.count(x.first))
      continue;
    Argument *A = F.getArg(x.first);
    bool whole = x.second.count({}) > 0;
    if (A->hasByValAttr() || (!whole && F.arg_size() != 1))
      continue;
    std::set<Instruction *> ends;
    for (auto &I : instructions(F))
      if (isa<ReturnInst>(I))
        ends.insert(&I);
    if (whole) {
      auto it = f.released.find({A, {}});
      if (it == f.released.end())
        continue;
      ends = it->second;
    }
    for (auto &q : x.second) {
      if (q.size() != 1 || q[0][0] == '*')
        continue;
      Node n{A, q};
      auto it = f.released.find(n);
      if (it == f.released.end())
        continue;
      bool together = false; // released by the same call
      for (auto *I : it->second)
        together |= whole && ends.count(I);
      if (together)
        continue;
      ended++;
      goalValue = nullptr;
      alone = true;
      Instruction *hit = lost(F, f, n, &F.getEntryBlock().front(), -2, -1, [&](Instruction &J) { return ends.count(&J) > 0; }, nullptr);
      alone = false;
      if (!hit)
        continue;
      Leak l;
      l.at = *it->second.begin();
      l.end = hit;
      l.name = A->getName().split('.').first.str() + "+" + q[0];
      r.push_back(l);
    }
  }
  return r;
}

std::vector<Own::Leak> Own::leaks(Function &F) {
  std::vector<Leak> r;
  auto &f = fun[&F];
  for (auto &x : f.acquired) {
    const Node &n = x.first;
    if (isa<Argument>(n.base) || n.path.size() > 1)
      continue;
    if (n.path.size() == 1 && !local(n.base) && !(isa<CallBase>(n.base) && n.path[0][0] != '*' && f.owned.count({n.base, {}}) && place(f, {n.base, {}})))
      continue;
    std::set<Instruction *> over = replaced(F, f, n, n);
    if (n.path.empty()) {
      Nodes as = aliases(f, n);
      as.erase(n);
      if (as.size() == 1 && (local(as.begin()->base) || (isa<Argument>(as.begin()->base) && cast<Argument>(as.begin()->base)->hasStructRetAttr())))
        over = replaced(F, f, *as.begin(), n);
    }
    for (auto *I : x.second) {
      auto *C = cast<CallBase>(I);
      Function *g = C->getCalledFunction();
      const Left *given = nullptr;
      Left cl;
      if (g && sum.count(g))
        for (auto &y : sum[g].fills)
          for (auto &p : y.second) {
            if (y.first < 0) {
              if (n.base == C && p.first == n.path)
                cl = p.second, given = &cl;
              continue;
            }
            for (auto &a : addresses(f, C->getArgOperand(y.first))) {
              Node m;
              if (append(a, p.first, m) && m == n)
                cl = p.second, given = &cl;
            }
          }
      if (n.base == C && !n.path.empty() && !local(C))
        continue; // parts are looked at with what holds them
      if (!n.path.empty() && !local(n.base) && aliases(f, n).size() > 1)
        continue; // something else was put there before
      goalValue = nullptr;
      Instruction *hit = nullptr;
      bool many = false; // kept in an array: the next one is another element
      for (auto &a : aliases(f, n))
        many |= !a.path.empty() && a.path.back()[0] == '*';
      auto goal = [&](Instruction &J) { return isa<ReturnInst>(J) || (&J == I && n.path.empty() && !many) || over.count(&J); };
      for (int fatal = 0; fatal < 2 && !hit; fatal++)
        for (int cancel = 0; cancel < 2 && !hit; cancel++) {
          if (given && (!(fatal ? given->fatal : given->fine) || !(cancel ? given->cancelled : given->going)))
            continue;
          if (!given && cancel)
            continue;
          if (fatal && !(given && g && raises[g]) && !holds(C))
            continue;
          hit = lost(F, f, n, I, fatal ? 1 : -2, cancel ? 1 : -1, goal, given);
        }
      if (hit && absent(C, n))
        hit = nullptr;
      if (!hit)
        continue;
      Leak l;
      l.at = I;
      l.end = hit;
      l.what = "memory";
      if (g && opener(g->getName()))
        l.what = "file";
      std::string name;
      for (auto &a : aliases(f, n))
        if (isa<AllocaInst>(a.base) && a.base->hasName() && name.empty()) {
          name = a.base->getName().split('.').first.str();
          for (auto &k : a.path)
            name += "+" + k;
        }
      if (name.empty())
        for (auto &lb : f.labels)
          if (lb.second.count(n) && isa<PHINode>(lb.first) && lb.first->hasName() && name.empty())
            name = lb.first->getName().split('.').first.str();
      if (name.empty())
        name = n.base->hasName() && !n.base->getName().starts_with("call") ? n.base->getName().split('.').first.str() : calleeName(C).str();
      l.name = name;
      r.push_back(l);
    }
  }
  return r;
}

// members of something released in F that are released nowhere
std::vector<Own::Leak> Own::partial(Function &F) {
  std::vector<Leak> r;
  auto &f = fun[&F];
  std::map<Path, int> dummy;
  for (auto &x : f.acquired) {
    const Node &n = x.first;
    if (isa<Argument>(n.base) || n.path.size() > 1 || (n.path.size() == 1 && !local(n.base)))
      continue;
    Nodes as = aliases(f, n);
    Instruction *freed = nullptr;
    bool gone = false;
    for (auto &a : as) {
      gone |= f.escapes.count(a) > 0;
      auto it = f.released.find(a);
      if (it != f.released.end())
        freed = *it->second.begin();
    }
    if (!freed || gone)
      continue;
    owners++;
    auto *C = dyn_cast<CallBase>(*x.second.begin());
    Function *g = C ? C->getCalledFunction() : nullptr;
    if (!g || !sum.count(g))
      continue;
    // what the call put below it
    for (auto &y : sum[g].fills)
      for (auto &p : y.second) {
        std::vector<Node> below;
        if (y.first < 0)
          below.push_back({C, p.first});
        else
          for (auto &a : addresses(f, C->getArgOperand(y.first))) {
            Node m;
            if (append(a, p.first, m))
              below.push_back(m);
          }
        for (auto &o : below) {
          if (o.base != n.base || o.path.size() <= n.path.size() || !std::equal(n.path.begin(), n.path.end(), o.path.begin()))
            continue;
          members_++;
          // on some path it is gone when the rest is released
          std::set<Instruction *> ends;
          for (auto &a : as) {
            auto it = f.released.find(a);
            if (it != f.released.end())
              ends.insert(it->second.begin(), it->second.end());
          }
          Nodes parts;
          for (auto &a : as) {
            Node y = a;
            for (size_t k = n.path.size(); k < o.path.size(); k++)
              y.path.push_back(y.path.empty() || o.path[k][0] == '*' ? o.path[k] : "*" + o.path[k]);
            parts.insert(y);
          }
          goalValue = nullptr;
          Instruction *hit = nullptr;
          for (int fatal = 0; fatal < 2 && !hit; fatal++)
            if (fatal ? p.second.fatal && raises[g] : p.second.fine)
              hit = lost(F, f, o, C, fatal ? 1 : -2, -1, [&](Instruction &J) { return ends.count(&J) > 0; }, &p.second, false, &parts);
          if (!hit)
            continue;
          freed = hit;
          Leak l;
          l.at = C;
          l.end = freed;
          l.what = "memory";
          for (size_t k = n.path.size(); k < o.path.size(); k++)
            l.name += "+" + o.path[k];
          l.chain = calleeName(C).str();
          r.push_back(l);
        }
      }
  }
  return r;
}
