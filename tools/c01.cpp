// C01: every writer draws every outline, every segment, every control point.
#include "poly.h"

namespace {
typedef std::set<std::string> Facts;

// forward must-analysis over a sub-graph: facts that hold on every path from START to a block's end
struct Must {
  std::set<BasicBlock *> region; // blocks looked at
  BasicBlock *start;
  std::function<void(BasicBlock *, Facts &)> gen;
  std::function<void(BasicBlock *, BasicBlock *, Facts &)> edge; // facts added on an edge
  std::function<bool(BasicBlock *, BasicBlock *)> ignore;        // edge not followed
  std::map<BasicBlock *, Facts> in, out;
  std::set<BasicBlock *> reached;
  void solve() {
    std::vector<BasicBlock *> work{start};
    reached.insert(start);
    in[start] = {};
    bool first = true;
    while (!work.empty()) {
      auto *B = work.back();
      work.pop_back();
      Facts f = in[B];
      gen(B, f);
      out[B] = f;
      for (auto *S : successors(B)) {
        if (!region.count(S) || S == start || (ignore && ignore(B, S)))
          continue;
        Facts g = f;
        if (edge)
          edge(B, S, g);
        if (reached.insert(S).second) {
          in[S] = g;
          work.push_back(S);
        } else {
          Facts m;
          for (auto &x : in[S])
            if (g.count(x))
              m.insert(x);
          if (m != in[S]) {
            in[S] = m;
            work.push_back(S);
          }
        }
      }
    }
  }
};

struct Pass { // one drawing pass: the loop over outlines and a loop over segments inside it
  Loop *A, *D, *G; // G: loop over groups of segments, if the segments are gone through group by group
  const SCEV *li, *s0; // outline index; index of the first segment of D
};

std::string pt(int k, char a) {
  static const char *n[] = {"start", "control1", "control2", "end"};
  return std::string(n[k]) + "." + a;
}

struct Check {
  Writer &W;
  Report &R;
  const Spec &S;
  struct Problem {
    std::string rule, where, func, inst, msg;
  };
  std::vector<Problem> probs;
  Polys PS;
  bool nodes = false; // nodes instead of segments are written: start, outgoing and incoming control point
  std::set<BasicBlock *> groupLoops;
  Check(Writer &W, Report &R, const Spec &S) : W(W), R(R), S(S), PS(W) {}

  void problem(const std::string &rule, Instruction *I, const std::string &inst, const std::string &msg) {
    probs.push_back({rule, I ? whereOf(I) : "", I ? funcOf(I) : W.F->getName().str(), inst, msg});
  }
  Instruction *anchor(BasicBlock *B) {
    for (auto &I : *B)
      if (I.getDebugLoc())
        return &I;
    return B->getTerminator();
  }

  // every exit of the loop is the exhaustion of COUNT or ends the program
  bool covers(Loop *L, int level, const SCEV *li, BasicBlock *at, const char *what) {
    SmallVector<BasicBlock *, 4> ex;
    L->getExitingBlocks(ex);
    bool counted = false, ok = true;
    for (auto *X : ex) {
      bool leaves = false;
      for (auto *s : successors(X))
        if (!L->contains(s) && !deadEnd(s))
          leaves = true;
      if (!leaves)
        continue;
      R.count("loop exits examined");
      const SCEV *n = W.iterations(L, X, at);
      if (n && W.isLength(n, level, li)) {
        counted = true;
        continue;
      }
      ok = false;
      problem(std::string(what) + "-exit", X->getTerminator(), std::string(what) + " loop",
              std::string("the loop over ") + what + " can end " +
                  (n ? "after " + show(n) + " rounds, which is not the number of " + what : std::string("at a test that is not the number of ") + what));
    }
    if (!counted && ok) {
      ok = false;
      problem(std::string(what) + "-exit", anchor(L->getHeader()), std::string(what) + " loop",
              std::string("the loop over ") + what + " is not bounded by the number of " + what);
    }
    return ok;
  }

  // facts of one emission relative to the current outline and segment
  void factsOf(const Emit &e, const Pass &p, Facts &f) {
    for (auto &l : e.all) {
      if (!l.isPoint() || l.axis() == 'z')
        continue;
      if (l.li != p.li)
        continue;
      if (isCur(l, p))
        f.insert("cur " + pt(l.point(), l.axis()));
      else if (l.si->isZero())
        f.insert("first " + pt(l.point(), l.axis()));
      else
        f.insert("other " + pt(l.point(), l.axis()));
    }
  }
  bool isCur(const Leaf &l, const Pass &p) {
    auto *a = dyn_cast<SCEVAddRecExpr>(W.stripExt(l.si));
    return a && a->getLoop() == p.D && a->isAffine() && a->getStepRecurrence(W.SE)->isOne() && W.stripExt(a->getStart()) == p.s0;
  }
  // number of points of the current segment an emission is computed from
  int blend(const Emit &e, const Pass &p) {
    std::set<int> k;
    for (auto &l : e.all)
      if (l.isPoint() && l.axis() != 'z' && l.li == p.li)
        k.insert(isCur(l, p) ? l.point() : l.point() == 3 || l.si->isZero() ? 0 : 9);
    return k.size();
  }

  // end points written as they are in the last round of a loop along the segment
  std::map<std::pair<Loop *, Loop *>, Facts> lastMemo;
  Facts lastFacts(Loop *L, const Pass &p) {
    auto key = std::make_pair(L, p.D);
    if (lastMemo.count(key))
      return lastMemo[key];
    Facts r;
    Polys::Env env;
    if (PS.lastRound(L, env)) {
      R.count("sampling loops followed to their last round");
      Must m;
      m.start = L->getHeader();
      for (auto *B : L->blocks())
        m.region.insert(B);
      m.gen = [&](BasicBlock *B, Facts &f) {
        if (W.LI.getLoopFor(B) != L)
          return;
        for (auto &e : W.emits)
          if (e.I->getParent() == B)
            for (auto *a : e.args) {
              if (a->getType()->isPointerTy())
                continue;
              auto ls = PS.leafAtomsOf(a, env);
              bool all = !ls.empty();
              for (int k : ls)
                all &= PS.atoms[k].lf.isPoint() && PS.atoms[k].lf.point() == 3 && isCur(PS.atoms[k].lf, p);
              if (all)
                for (int k : ls)
                  f.insert("cur " + pt(3, PS.atoms[k].lf.axis()));
            }
      };
      m.ignore = [&](BasicBlock *B, BasicBlock *T) {
        if (deadEnd(T))
          return true;
        return PS.edgeDead(B, T, env);
      };
      m.solve();
      SmallVector<BasicBlock *, 4> lat;
      L->getLoopLatches(lat);
      bool first = true;
      for (auto *l : lat)
        if (m.reached.count(l)) {
          Facts g;
          for (auto &x : m.out[l])
            if (first || r.count(x))
              g.insert(x);
          r = g;
          first = false;
        }
    }
    return lastMemo[key] = r;
  }

  static Poly inner(const Polys &PS, Poly p) { // without conversions to integers and bytes
    while (p.t.size() == 1 && p.t.begin()->first.size() == 1) {
      auto &a = PS.atoms[p.t.begin()->first[0]];
      if (a.fn.empty() || a.args.empty() || a.fn == "1/")
        break;
      p = a.args[0];
    }
    return p;
  }

  // the points of the current segment are written in their order, and blended with the weights of their place
  void order(const Pass &p) {
    struct Tok {
      const Emit *e;
      size_t arg;
      int k;
      char axis;
      const Value *cls;
    };
    std::vector<Tok> toks;
    for (auto &e : W.emits) {
      if (!p.D->contains(e.I))
        continue;
      for (size_t i = 0; i < e.args.size(); i++) {
        if (e.args[i]->getType()->isPointerTy())
          continue;
        Poly q = PS.of(e.args[i]);
        auto ls = PS.leafAtoms(q);
        std::set<int> ks;
        std::set<char> axs;
        bool cur = !ls.empty();
        for (int l : ls) {
          auto &lf = PS.atoms[l].lf;
          if (!lf.isPoint() || lf.li != p.li || !isCur(lf, p)) {
            cur = false;
            break;
          }
          ks.insert(lf.point());
          axs.insert(lf.axis());
        }
        if (ks.size() >= 3 || (ks.size() == 2 && ks.count(3) && !ks.count(0)))
          weights(e, inner(PS, q), p);
        if (!cur || ks.size() != 1 || axs.size() != 1 || W.LI.getLoopFor(e.I->getParent()) != p.D)
          continue;
        const Value *cls = nullptr;
        if (auto *st = dyn_cast<StoreInst>(e.I))
          cls = st, cls = W.object(st->getPointerOperand());
        toks.push_back({&e, i, *ks.begin(), *axs.begin(), e.sink ? (const Value *)W.F : cls});
      }
    }
    for (auto &a : toks)
      for (auto &b : toks) {
        if (a.cls != b.cls || a.axis != b.axis || a.k == b.k)
          continue;
        bool before = a.e == b.e ? a.arg < b.arg : W.DT.dominates(a.e->I, b.e->I);
        if (!before)
          continue;
        R.count("pairs of points in order");
        if (a.k > b.k)
          problem("order", b.e->I, pt(b.k, b.axis) + " after " + pt(a.k, a.axis),
                  "the " + pt(b.k, b.axis) + " of a segment is written after its " + pt(a.k, a.axis));
      }
  }
  void weights(const Emit &e, const Poly &q, const Pass &p) {
    // linear in the points
    std::map<int, std::vector<std::vector<int>>> by; // point -> co-factors
    for (auto &m : q.t) {
      int k = -1, n = 0;
      std::vector<int> rest;
      for (int a : m.first) {
        if (PS.atoms[a].leaf && PS.atoms[a].lf.isPoint()) {
          n++;
          if (isCur(PS.atoms[a].lf, p))
            k = PS.atoms[a].lf.point();
        } else {
          if (!PS.atoms[a].inside.empty())
            return;
          rest.push_back(a);
        }
      }
      if (n > 1)
        return;
      if (n == 1 && k >= 0)
        by[k].push_back(rest);
    }
    if (by.size() < 3)
      return;
    std::set<int> cand;
    for (auto &x : by)
      for (auto &m : x.second)
        cand.insert(m.begin(), m.end());
    R.count("blended points");
    for (int c : cand) {
      bool ok = true;
      for (auto &x : by) {
        long lo = 99;
        for (auto &m : x.second)
          lo = std::min(lo, (long)std::count(m.begin(), m.end(), c));
        ok &= lo == x.first;
      }
      if (ok)
        return;
    }
    problem("weights", e.I, "blended point", "a point along a curve is not blended from the start, control and end points with the weights of their places");
  }

  // what is kept in memory is written out, once all of it is there
  void drained(const Pass &p, const std::set<const Value *> &objs) {
    for (auto *O : objs) {
      auto reads = [&](const Emit &e) {
        if (!e.sink)
          return false;
        std::set<Value *> seen;
        std::vector<Value *> w(e.args.begin(), e.args.end());
        while (!w.empty()) {
          Value *v = w.back();
          w.pop_back();
          if (!seen.insert(v).second || seen.size() > 4000)
            continue;
          if (v->getType()->isPointerTy() && !isa<Constant>(v)) {
            const Value *o = W.object(v);
            if (o == O)
              return true;
            // a local byte that holds part of a value
            if (auto *A = dyn_cast_or_null<AllocaInst>(o)) {
              for (auto *u : A->users())
                if (auto *st = dyn_cast<StoreInst>(u))
                  w.push_back(const_cast<Value *>(st->getValueOperand()));
            }
            continue;
          }
          if (auto *ld = dyn_cast<LoadInst>(v)) {
            if (W.object(ld->getPointerOperand()) == O)
              return true;
            w.push_back(ld->getPointerOperand());
          } else if (auto *I = dyn_cast<Instruction>(v))
            for (auto &o : I->operands())
              w.push_back(o.get());
        }
        return false;
      };
      std::set<BasicBlock *> rd;
      for (auto &e : W.emits)
        if (reads(e))
          rd.insert(e.I->getParent());
      R.count("buffers followed to the file");
      Must m;
      m.start = p.D->getHeader();
      for (auto &B : *W.F)
        m.region.insert(&B);
      m.gen = [&](BasicBlock *B, Facts &f) {
        if (rd.count(B))
          f.insert("drained");
      };
      m.edge = [&](BasicBlock *B, BasicBlock *T, Facts &f) {
        Loop *lt = W.LI.getLoopFor(T);
        if (lt && lt->getHeader() == T && lt != p.D && lt != p.A && !lt->contains(B) && !lt->contains(p.D))
          for (auto *b : rd)
            if (lt->contains(b))
              f.insert("drained");
      };
      m.ignore = [&](BasicBlock *, BasicBlock *T) { return deadEnd(T); };
      m.solve();
      for (auto *B : m.reached)
        if (auto *Rt = dyn_cast<ReturnInst>(B->getTerminator()))
          if (!m.out[B].count("drained")) {
            if (auto *c = dyn_cast_or_null<ConstantInt>(Rt->getReturnValue()))
              if (!c->isZero())
                continue;
            problem("not-written", anchor(p.D->getHeader()), "points kept in memory",
                    "points of the shape are put into memory that need not be written to the file afterwards");
          }
    }
  }

  bool checkPass(const Pass &p) {
    size_t before = probs.size();
    std::map<BasicBlock *, std::vector<const Emit *>> by;
    for (auto &e : W.emits)
      by[e.I->getParent()].push_back(&e);
    auto gen = [&](BasicBlock *B, Facts &f) {
      for (auto *e : by[B])
        factsOf(*e, p, f);
      if (B == (p.G ? p.G : p.D)->getHeader())
        f.insert("segments");
      if (p.G && (B == p.D->getHeader() || groupLoops.count(B)))
        f.insert("group");
    };
    auto edge = [&](BasicBlock *B, BasicBlock *T, Facts &f) {
      // entering an inner loop that writes points along the segment
      Loop *lt = W.LI.getLoopFor(T);
      if (lt && lt->getHeader() == T && lt != p.D && p.D->contains(lt) && !lt->contains(B))
      {
        Facts all, last = lastFacts(lt, p);
        for (auto &e : W.emits)
          if (lt->contains(e.I) && blend(e, p) >= 2)
            factsOf(e, p, all);
        for (auto &x : all)
          if (x.rfind("cur end", 0) != 0)
            f.insert(x);
        f.insert(last.begin(), last.end());
      }
      // a point that is the same, after rounding, as one already written needs no second mention
      auto *br = dyn_cast<BranchInst>(B->getTerminator());
      if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
        return;
      std::function<void(Value *, bool)> add = [&](Value *c, bool val) {
        Value *x, *y;
        if (auto *bo = dyn_cast<Instruction>(c)) {
          if (bo->getOpcode() == Instruction::And || bo->getOpcode() == Instruction::Or || isa<SelectInst>(bo)) {
            bool isAnd = bo->getOpcode() == Instruction::And;
            Value *l = bo->getOperand(0), *r = bo->getOperand(1);
            if (auto *s = dyn_cast<SelectInst>(bo)) {
              auto *fc = dyn_cast<ConstantInt>(s->getFalseValue());
              auto *tc = dyn_cast<ConstantInt>(s->getTrueValue());
              l = s->getCondition();
              if (fc && fc->isZero())
                isAnd = true, r = s->getTrueValue();
              else if (tc && tc->isOne())
                isAnd = false, r = s->getFalseValue();
              else
                return;
            }
            if (isAnd == val) {
              add(l, val);
              add(r, val);
            }
            return;
          }
        }
        auto *ic = dyn_cast<ICmpInst>(c);
        if (!ic || !ic->isEquality())
          return;
        if ((ic->getPredicate() == CmpInst::ICMP_EQ) != val)
          return;
        Value *a = ic->getOperand(0), *b = ic->getOperand(1);
        bool ra = isRounded(a), rb = isRounded(b);
        if (isa<Constant>(b) ? !isTruncated(a) : !(ra || rb))
          return;
        Emit e;
        for (auto *o : {a, b}) {
          auto &l = W.leaves(o);
          e.all.insert(l.begin(), l.end());
        }
        factsOf(e, p, f);
      };
      add(br->getCondition(), T == br->getSuccessor(0));
    };

    // one round of the segment loop
    std::vector<std::string> need;
    for (int k = S.degree == 3 ? nodes ? 0 : 1 : nodes ? 0 : 3; k < (!nodes ? 4 : S.degree == 3 ? 3 : 1); k++)
      for (char a : {'x', 'y'})
        need.push_back("cur " + pt(k, a));
    Must seg;
    seg.start = p.D->getHeader();
    for (auto *B : p.D->blocks())
      seg.region.insert(B);
    seg.gen = gen;
    seg.edge = edge;
    seg.ignore = [&](BasicBlock *, BasicBlock *T) { return deadEnd(T); };
    seg.solve();
    SmallVector<BasicBlock *, 4> latches;
    p.D->getLoopLatches(latches);
    for (auto *l : latches)
      for (auto &n : need) {
        R.count("segment obligations");
        if (!seg.out[l].count(n))
          problem("segment-points", witness(seg, l, n), n.substr(4),
                  std::string("on some path through the loop over segments the ") + n.substr(4) + " of a " +
                      (S.degree == 1 ? "straight" : S.degree == 3 ? "curved" : "straight or curved") + " segment is not written");
      }

    // one round of the outline loop
    Must out;
    out.start = p.A->getHeader();
    for (auto *B : p.A->blocks())
      out.region.insert(B);
    out.gen = [&](BasicBlock *B, Facts &f) {
      if (nodes && p.D->contains(B)) {
        if (B == p.D->getHeader())
          f.insert("segments");
        return;
      }
      gen(B, f);
    };
    out.edge = edge;
    out.ignore = [&](BasicBlock *B, BasicBlock *T) { return deadEnd(T) || T == p.A->getHeader(); };
    out.solve();
    SmallVector<BasicBlock *, 4> lat;
    p.A->getLoopLatches(lat);
    // ... or in the first round of the segment loop, whose counters have their initial values
    Must fst;
    fst.start = p.D->getHeader();
    fst.region = seg.region;
    fst.gen = gen;
    fst.edge = edge;
    fst.ignore = [&](BasicBlock *B, BasicBlock *T) {
      if (deadEnd(T))
        return true;
      auto *br = dyn_cast<BranchInst>(B->getTerminator());
      if (!br || !br->isConditional())
        return false;
      auto *ic = dyn_cast<ICmpInst>(br->getCondition());
      auto *ph = ic ? dyn_cast<PHINode>(ic->getOperand(0)) : nullptr;
      auto *c = ic ? dyn_cast<ConstantInt>(ic->getOperand(1)) : nullptr;
      if (!ph || !c || ph->getParent() != p.D->getHeader() || !p.D->getLoopPreheader())
        return false;
      auto *v = dyn_cast<ConstantInt>(ph->getIncomingValueForBlock(p.D->getLoopPreheader()));
      if (!v)
        return false;
      bool val = ICmpInst::compare(v->getValue(), c->getValue(), ic->getPredicate());
      return T != br->getSuccessor(val ? 0 : 1);
    };
    fst.solve();
    bool startInSeg = latches.size();
    for (auto *l : latches) {
      if (!fst.reached.count(l))
        continue;
      auto &o = fst.out[l];
      for (char a : {'x', 'y'})
        if (!o.count(std::string("cur start.") + a) && !o.count(std::string("first start.") + a))
          startInSeg = false;
    }
    if (p.G) {
      Must grp;
      grp.start = p.G->getHeader();
      for (auto *B : p.G->blocks())
        grp.region.insert(B);
      grp.gen = gen;
      grp.edge = edge;
      grp.ignore = seg.ignore;
      grp.solve();
      SmallVector<BasicBlock *, 4> gl;
      p.G->getLoopLatches(gl);
      for (auto *l : gl)
        if (!grp.out[l].count("group"))
          problem("segment-points", witness(grp, l, "group"), "group", "a group of segments can be passed over without being written");
    }
    for (auto *l : lat) {
      R.count("outline obligations");
      if (nodes && S.open == 1)
        for (char a : {'x', 'y'}) {
          R.count("outline obligations");
          if (!out.out[l].count(std::string("cur end.") + a))
            problem("end-point", witness(out, l, std::string("cur end.") + a), std::string("end.") + a,
                    std::string("the end point (") + a + ") of an open outline is not written after its last segment");
        }
      if (!out.out[l].count("segments"))
        problem("outline-skipped", witness(out, l, "segments"), "segments of an outline",
                "an outline can be passed over without its segments being written");
    }
    if (!startInSeg) {
      Facts atD;
      bool have = false;
      for (auto *pr : predecessors(p.D->getHeader())) {
        if (p.D->contains(pr) || !out.reached.count(pr))
          continue;
        Facts f = out.out[pr];
        if (!have)
          atD = f;
        else {
          Facts m;
          for (auto &x : atD)
            if (f.count(x))
              m.insert(x);
          atD = m;
        }
        have = true;
      }
      for (char a : {'x', 'y'}) {
        R.count("outline obligations");
        if (!atD.count(std::string("first start.") + a))
          problem("start-point", anchor(p.D->getHeader()), std::string("start.") + a,
                  std::string("the start point (") + a + ") of an outline is not written before its segments");
      }
    }

    // the outline loop is reached
    Must fn;
    fn.start = &W.F->getEntryBlock();
    for (auto &B : *W.F)
      fn.region.insert(&B);
    fn.gen = [&](BasicBlock *B, Facts &f) {
      if (B == p.A->getHeader())
        f.insert("outlines");
    };
    fn.edge = nullptr;
    fn.ignore = nullptr;
    fn.solve();
    for (auto *B : fn.reached)
      if (auto *Rt = dyn_cast<ReturnInst>(B->getTerminator())) {
        R.count("returns examined");
        if (fn.out[B].count("outlines") || returnsError(Rt, fn))
          continue;
        problem("shape-skipped", Rt, "outline loop", "the writer can report success without going over the outlines");
      }

    if (S.degree > 0) {
      order(p);
      bool direct = false;
      std::set<const Value *> objs;
      for (auto &e : W.emits)
        if (p.D->contains(e.I)) {
          Facts f;
          factsOf(e, p, f);
          if (!f.count("cur end.x"))
            continue;
          if (e.sink)
            direct = true;
          else if (auto *st = dyn_cast<StoreInst>(e.I))
            objs.insert(W.object(st->getPointerOperand()));
        }
      if (!direct)
        drained(p, objs);
    }
    // coverage
    BasicBlock *at = emitBlock(p);
    if (p.G)
      chunked(p, at);
    else
      covers(p.D, 2, p.li, at, "segments");
    covers(p.A, 1, nullptr, (p.G ? p.G : p.D)->getHeader(), "outlines");
    return probs.size() == before;
  }

  // where in a round of the segment loop points are written
  BasicBlock *emitBlock(const Pass &p) {
    BasicBlock *at = nullptr;
    for (auto &e : W.emits) {
      if (!p.D->contains(e.I))
        continue;
      Facts f;
      factsOf(e, p, f);
      for (auto &x : f)
        if (x.rfind("cur ", 0) == 0 && (!at || W.DT.dominates(at, e.I->getParent())))
          at = e.I->getParent();
    }
    if (!at)
      at = *p.D->block_begin();
    for (Loop *l = W.LI.getLoopFor(at); l != p.D; l = W.LI.getLoopFor(at))
      at = l->getHeader() == at ? l->getLoopPredecessor() ? l->getLoopPredecessor() : p.D->getHeader() : l->getHeader();
    return at;
  }

  // the long part of a real, as used when a number is taken apart into bytes
  bool isTruncated(Value *v) {
    auto *c = dyn_cast<CastInst>(v);
    return c && c->getOpcode() == Instruction::FPToSI && c->getType()->isIntegerTy(64);
  }
  bool isRounded(Value *v) {
    if (auto *o = dyn_cast<BinaryOperator>(v))
      if ((o->getOpcode() == Instruction::AShr || o->getOpcode() == Instruction::Shl) && isa<Constant>(o->getOperand(1)))
        return isRounded(o->getOperand(0));
    while (auto *c = dyn_cast<CastInst>(v)) {
      if (c->getOpcode() == Instruction::FPToSI || c->getOpcode() == Instruction::FPToUI)
        return true;
      v = c->getOperand(0);
    }
    if (auto *cb = dyn_cast<CallBase>(v))
      return calleeName(cb).contains("round");
    return false;
  }

  // error return: every way to it carries a non-zero constant
  bool returnsError(ReturnInst *Rt, Must &fn) {
    Value *v = Rt->getReturnValue();
    if (!v)
      return false;
    if (auto *c = dyn_cast<ConstantInt>(v))
      return !c->isZero();
    if (auto *ph = dyn_cast<PHINode>(v)) {
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
        auto *c = dyn_cast<ConstantInt>(ph->getIncomingValue(i));
        if (c && !c->isZero())
          continue;
        if (!fn.out[ph->getIncomingBlock(i)].count("outlines"))
          return false;
      }
      return ph->getParent() == Rt->getParent();
    }
    return false;
  }

  // a branch after which the fact is lost
  Instruction *witness(Must &m, BasicBlock *B, const std::string &n) {
    std::set<BasicBlock *> seen;
    BasicBlock *b = B;
    while (seen.insert(b).second) {
      BasicBlock *next = nullptr;
      for (auto *p : predecessors(b))
        if (m.reached.count(p) && !m.out[p].count(n) && m.region.count(p) && !seen.count(p))
          next = p;
      if (!next || b == m.start)
        break;
      if (auto *br = dyn_cast<BranchInst>(next->getTerminator()))
        if (br->isConditional() && next->getTerminator()->getDebugLoc())
          return next->getTerminator();
      b = next;
    }
    return anchor(B);
  }

  std::vector<Pass> passes() {
    std::vector<Pass> ps;
    for (auto &e : W.emits)
      for (auto &l : e.all) {
        if (!l.isPoint() || l.axis() == 'z' || !l.si)
          continue;
        const Loop *A;
        auto *a = dyn_cast<SCEVAddRecExpr>(W.stripExt(l.si));
        if (!W.isCounter(l.li, A) || !a || !a->isAffine() || !a->getStepRecurrence(W.SE)->isOne())
          continue;
        Loop *D = const_cast<Loop *>(a->getLoop());
        if (!A->contains(D) || !D->contains(e.I))
          continue;
        const SCEV *s0 = W.stripExt(a->getStart());
        Loop *G = nullptr;
        if (!s0->isZero()) {
          G = D->getParentLoop();
          if (!G || G == A || !A->contains(G))
            continue;
        }
        bool dup = false;
        for (auto &p : ps)
          if (p.A == A && p.D == D && p.s0 == s0)
            dup = true;
        if (!dup)
          ps.push_back({const_cast<Loop *>(A), D, G, l.li, s0});
      }
    return ps;
  }

  // several values merged at one place differ by the same amount on every way there
  const SCEV *throughPhis(const SCEV *S) {
    for (int round = 0; round < 4; round++) {
      std::set<PHINode *> phis;
      struct V {
        std::set<PHINode *> &p;
        bool follow(const SCEV *s) {
          if (auto *u = dyn_cast<SCEVUnknown>(s))
            if (auto *ph = dyn_cast<PHINode>(u->getValue()))
              p.insert(ph);
          return true;
        }
        bool isDone() { return false; }
      } v{phis};
      visitAll(S, v);
      // the innermost place first
      BasicBlock *B = nullptr;
      for (auto *ph : phis)
        if (!W.LI.isLoopHeader(ph->getParent()) && (!B || W.DT.dominates(B, ph->getParent())))
          B = ph->getParent();
      if (!B)
        return S;
      const SCEV *res = nullptr;
      auto *first = cast<PHINode>(&*B->begin());
      for (unsigned i = 0; i < first->getNumIncomingValues(); i++) {
        ValueToSCEVMapTy m;
        for (auto *ph : phis)
          if (ph->getParent() == B)
            m[ph] = W.SE.getSCEV(ph->getIncomingValueForBlock(first->getIncomingBlock(i)));
        const SCEV *r = SCEVParameterRewriter::rewrite(S, W.SE, m);
        if (res && r != res)
          return S;
        res = r;
      }
      if (res == S)
        return S;
      S = res;
    }
    return S;
  }

  // the groups [s0, s0+n) follow each other without gap from 0 to the number of segments
  bool chunked(const Pass &p, BasicBlock *at) {
    size_t before = probs.size();
    auto bad = [&](const std::string &m) {
      problem("groups", anchor(p.D->getHeader()), "groups of segments", m);
      return false;
    };
    SmallVector<BasicBlock *, 4> ex;
    p.D->getExitingBlocks(ex);
    const SCEV *n = nullptr;
    for (auto *X : ex) {
      bool leaves = false;
      for (auto *s : successors(X))
        if (!p.D->contains(s) && !deadEnd(s))
          leaves = true;
      if (!leaves)
        continue;
      const SCEV *k = W.iterations(p.D, X, at);
      if (!k || (n && n != k))
        return bad("the loop over a group of segments has an exit that is not its length");
      n = k;
    }
    if (!n)
      return bad("the loop over a group of segments has no exit");
    n = W.stripExt(n);
    for (auto &phi : p.G->getHeader()->phis()) {
      if (!phi.getType()->isIntegerTy())
        continue;
      auto *init = phi.getIncomingValueForBlock(p.G->getLoopPreheader());
      auto *latch = p.G->getLoopLatch();
      auto *c = dyn_cast<ConstantInt>(init);
      if (!c || !c->isZero() || !latch)
        continue;
      const SCEV *J = W.SE.getSCEV(&phi);
      const SCEV *JN = W.SE.getSCEV(phi.getIncomingValueForBlock(latch));
      auto cast = [&](const SCEV *s) { return W.SE.getTruncateOrSignExtend(s, phi.getType()); };
      const SCEV *start = throughPhis(W.SE.getMinusSCEV(cast(p.s0), J));
      const SCEV *end = throughPhis(W.SE.getMinusSCEV(W.SE.getAddExpr(cast(p.s0), cast(n)), JN));
      R.count("group obligations", 2);
      if (!start->isZero() || !end->isZero())
        continue;
      // the group loop ends only when the counter has reached the number of segments
      SmallVector<BasicBlock *, 4> gx;
      p.G->getExitingBlocks(gx);
      for (auto *X : gx) {
        auto *br = dyn_cast<BranchInst>(X->getTerminator());
        auto *ic = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
        bool ok = false;
        if (ic) {
          auto pr = ic->getPredicate();
          const SCEV *l = W.SE.getSCEV(ic->getOperand(0)), *r = W.SE.getSCEV(ic->getOperand(1));
          if (W.isLength(l, 2, p.li)) {
            std::swap(l, r);
            pr = CmpInst::getSwappedPredicate(pr);
          }
          if (p.G->contains(br->getSuccessor(1)))
            pr = CmpInst::getInversePredicate(pr);
          // now PR is the condition to stay
          ok = (l == J || (l == JN && X == latch)) && W.isLength(r, 2, p.li) &&
               (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_NE);
        }
        R.count("loop exits examined");
        if (!ok)
          return bad("the loop over groups of segments can end before the number of segments is reached");
      }
      return probs.size() == before;
    }
    return bad("the groups of segments do not follow each other without a gap from the first segment on");
  }

  bool run() {
    auto ps = passes();
    R.count("drawing passes", ps.size());
    if (ps.empty()) {
      problem("no-pass", nullptr, "drawing loop", "no loop over outlines and segments, from the first by steps of one, writes their points");
      return false;
    }
    std::vector<Problem> best;
    bool have = false;
    for (auto &p : ps)
      if (p.G)
        for (auto &q : ps)
          if (q.G == p.G) {
            probs.clear();
            if (chunked(q, emitBlock(q)))
              groupLoops.insert(q.D->getHeader());
          }
    for (auto &p : ps) {
      probs.clear();
      if (checkPass(p))
        return true;
      if (!have || probs.size() < best.size())
        best = probs, have = true;
    }
    probs = best;
    return false;
  }
};
} // namespace

static bool one(Program &P, Report &R, Function *f, const std::string &suf, const Spec &s, bool nodes, std::vector<Check::Problem> &pr) {
  auto w = specialise(P, f, suf, s);
  if (!w) {
    R.fail("writer " + f->getName().str() + ": shape argument not found");
    return true;
  }
  R.count("specialised writers");
  R.count("output calls", std::count_if(w->emits.begin(), w->emits.end(), [](const Emit &e) { return e.sink; }));
  Check c(*w, R, s);
  c.nodes = nodes;
  bool ok = c.run();
  pr = c.probs;
  return ok;
}

void checkC01(Program &P, Report &R, const std::string &tier) {
  for (auto &x : writerList(P, R)) {
    R.count("writers");
    for (int deg : {1, 3, -1}) {
      Spec s;
      s.degree = deg;
      std::vector<Check::Problem> pr, p0, p1;
      if (one(P, R, x.first, x.second, s, false, pr))
        continue;
      bool onlyEnds = true;
      for (auto &p : pr)
        if (p.inst != "end.x" && p.inst != "end.y")
          onlyEnds = false;
      if (onlyEnds) { // a list of nodes: the end of a segment is the start of the next
        Spec so = s;
        so.open = 0;
        if (one(P, R, x.first, x.second, so, true, p0)) {
          so.open = 1;
          if (one(P, R, x.first, x.second, so, true, p1)) {
            R.count("writers of nodes");
            continue;
          }
          for (auto &p : p1)
            if (p.rule == "end-point")
              pr = p1;
        }
      }
      for (auto &p : pr)
        R.finding(p.rule, x.first->getName().str(), p.where, (deg == 1 ? "straight " : deg == 3 ? "curved " : "mixed ") + p.inst,
                  p.msg + " (" + x.second + ")");
    }
  }
}
