// C02: one coordinate mapping per output file.
#include "poly.h"
#include "llvm/IR/PatternMatch.h"

struct Seen;
namespace {
struct Place {
  const Emit *e;
  size_t arg;
  char axis;
  char what; // S written, b kept in a buffer, r written from a buffer
  std::set<int> points; // control points involved
  std::string map;      // mapping, the coordinate written as $
  std::string conv;     // conversions around it
  Poly raw;
};

struct Mapping {
  Writer &W;
  Report &R;
  Polys PS;
  std::vector<Place> places;
  Mapping(Writer &W, Report &R) : W(W), R(R), PS(W) {}

  // one of the two alternatives is a constant: a limit put on the other
  bool clamp(Value *v) {
    auto *ph = dyn_cast<PHINode>(v);
    auto *se = dyn_cast<SelectInst>(v);
    if (ph && ph->getNumIncomingValues() == 2)
      return isa<Constant>(ph->getIncomingValue(0)) || isa<Constant>(ph->getIncomingValue(1));
    return se && (isa<Constant>(se->getTrueValue()) || isa<Constant>(se->getFalseValue()));
  }
  void choices(const Poly &p, std::vector<Value *> &out, bool top = true) {
    top &= p.t.size() == 1 && p.t.begin()->first.size() == 1;
    for (auto &m : p.t)
      for (int a : m.first) {
        auto at = PS.atoms[a];
        if (at.fn != "1/")
          for (auto &q : at.args)
            choices(q, out, top);
        if (at.v && !at.leaf && (isa<PHINode>(at.v) || isa<SelectInst>(at.v)) && !at.v->getType()->isPointerTy()) {
          // a number of one axis; what is computed from both is a weight
          std::set<char> ax;
          for (auto &l : W.leaves(at.v))
            if (l.isPoint())
              ax.insert(l.axis());
          if ((ax.size() == 1 || (top && !ax.empty() && clamp(at.v))) && !is_contained(out, at.v))
            out.push_back(at.v);
        }
      }
  }
  bool mentions(const Poly &p, Value *v) {
    for (auto &m : p.t)
      for (int a : m.first) {
        if (PS.atoms[a].v == v && !PS.atoms[a].leaf)
          return true;
        for (auto &q : PS.atoms[a].args)
          if (mentions(q, v))
            return true;
      }
    return false;
  }
  // P with the value V in place of itself replaced by Q
  Poly put(const Poly &p, Value *v, const Poly &q) {
    Poly r;
    for (auto &m : p.t) {
      Poly x = Polys::cst(m.second);
      for (int k : m.first) {
        auto a = PS.atoms[k];
        if (a.v == v && !a.leaf) {
          x = PS.mul(x, q);
          continue;
        }
        if (a.args.empty()) {
          x = PS.mul(x, PS.atom(k));
          continue;
        }
        std::vector<Poly> args;
        for (auto &y : a.args)
          args.push_back(put(y, v, q));
        x = a.fn == "1/" ? PS.div(x, args[0]) : PS.mul(x, PS.fn(a.fn, args));
      }
      r = Polys::add(r, x);
    }
    return r;
  }
  // all values V may have, as polynomials, choices resolved
  void values(Value *V, const Polys::Env &env, std::vector<Poly> &out, int depth) {
    Poly p = PS.of(V, env);
    std::vector<Value *> cs;
    choices(p, cs);
    if (cs.empty() || depth > 6) {
      for (auto &q : out)
        if (q == p)
          return;
      if (out.size() < 48)
        out.push_back(p);
      return;
    }
    Value *c = cs[0];
    SmallVector<Value *, 4> alts;
    if (auto *ph = dyn_cast<PHINode>(c))
      for (auto &x : ph->incoming_values())
        alts.push_back(x.get());
    else {
      alts.push_back(cast<SelectInst>(c)->getTrueValue());
      alts.push_back(cast<SelectInst>(c)->getFalseValue());
    }
    for (auto *a : alts) {
      if (isa<Constant>(a))
        continue; // a limit, or the value before any point was met
      Poly q = PS.of(a, env);
      if (mentions(q, c) || q.isConst())
        continue;
      Polys::Env e2;
      for (auto &e : env)
        e2[e.first] = put(e.second, c, q);
      e2[c] = q;
      values(V, e2, out, depth + 1);
    }
  }

  Poly unround(const Poly &p, std::set<std::string> &conv) {
    Poly r;
    for (auto &m : p.t) {
      Poly x = Polys::cst(m.second);
      for (int k : m.first) {
        auto a = PS.atoms[k];
        if ((a.fn == "int" || a.fn == "round" || a.fn == "rint" || a.fn == "floor" || a.fn == "ceil" || a.fn == "lrint") && !a.inside.empty()) {
          conv.insert(a.fn);
          x = PS.mul(x, unround(a.args[0], conv));
        } else
          x = PS.mul(x, PS.atom(k));
      }
      r = Polys::add(r, x);
    }
    return r;
  }

  void collect() {
    for (auto &e : W.emits)
      for (size_t i = 0; i < e.args.size(); i++) {
        Value *a = e.args[i];
        if (a->getType()->isPointerTy()) {
          // a local variable handed over by address: what was stored to it
          auto *A = dyn_cast_or_null<AllocaInst>(W.object(a));
          if (!A || A->getAllocatedType()->isAggregateType())
            continue;
          bool c;
          for (auto *v : W.reachingStores(const_cast<AllocaInst *>(A), e.I, c))
            put(e, i, v);
          continue;
        }
        put(e, i, a);
      }
  }
  // no part of it is a remembered value made from points
  // the smaller or greater of several numbers: a bound of the points, not a point
  bool extreme(const Poly &p) {
    for (auto &m : p.t)
      for (int k : m.first) {
        auto at = PS.atoms[k];
        StringRef f = at.fn;
        if (f.starts_with("llvm.") && (f.contains("min") || f.contains("max")))
          return true;
        for (auto &q : at.args)
          if (extreme(q))
            return true;
      }
    return false;
  }
  bool decided(const Poly &p) {
    for (auto &m : p.t)
      for (int k : m.first) {
        auto at = PS.atoms[k];
        for (auto &q : at.args)
          if (!decided(q))
            return false;
        // a weight of something else than points
        if (auto *I = dyn_cast_or_null<Instruction>(at.v))
          if (!at.leaf && at.key[0] == '%' && W.LI.getLoopFor(I->getParent()))
            return false;
        if (at.v && !at.leaf)
          for (auto &l : W.leaves(at.v))
            if (l.isPoint())
              return false;
      }
    return true;
  }
  // without the selection of single bytes
  Poly bytes(Poly q) {
    while (q.t.size() == 1 && q.t.begin()->first.size() == 1 && q.t.begin()->second == 1) {
      auto a = PS.atoms[q.t.begin()->first[0]];
      if (a.fn != "i8" && a.fn != "i16" && a.fn != "lshr" && a.fn != "ashr" && a.fn != "and")
        break;
      q = a.args[0];
    }
    return q;
  }
  bool bitwise(const Poly &p) {
    for (auto &m : p.t)
      for (int k : m.first) {
        auto a = PS.atoms[k];
        static const std::set<std::string> bit{"and", "or", "xor", "shl", "lshr", "ashr", "i8", "i16"};
        if (bit.count(a.fn))
          return true;
        for (auto &q : a.args)
          if (bitwise(q))
            return true;
      }
    return false;
  }
  // every point of one axis replaced by the same one
  Poly same(const Poly &p) {
    Poly r;
    for (auto &m : p.t) {
      Poly x = Polys::cst(m.second);
      for (int k : m.first) {
        auto a = PS.atoms[k];
        if (a.leaf && a.lf.isPoint()) {
          Polys::Atom d = a;
          d.lf.field = std::string("v[0].") + a.lf.axis();
          d.key = std::string("$") + a.lf.axis();
          x = PS.mul(x, PS.atom(PS.intern(d.key, d)));
        } else if (a.args.empty())
          x = PS.mul(x, PS.atom(k));
        else {
          std::vector<Poly> args;
          for (auto &y : a.args)
            args.push_back(same(y));
          x = a.fn == "1/" ? PS.div(x, args[0]) : PS.mul(x, PS.fn(a.fn, args));
        }
      }
      r = Polys::add(r, x);
    }
    // what cancels but for the rounding of its factors
    double big = 0;
    for (auto &m : r.t)
      big = std::max(big, std::fabs(m.second));
    for (auto it = r.t.begin(); it != r.t.end();)
      it = std::fabs(it->second) < 1e-5 * big ? r.t.erase(it) : std::next(it);
    return r;
  }
  void put(const Emit &e, size_t i, Value *a) {
    bool pts = false;
    for (auto &l : W.leaves(a))
      pts |= l.isPoint() && l.axis() != 'z';
    if (!pts)
      return;
    // two numbers packed into one
    if (auto *b = dyn_cast<BinaryOperator>(a))
      if (b->getOpcode() == Instruction::Or && b->getType()->isIntegerTy(64))
        for (int k : {0, 1})
          if (auto *sh = dyn_cast<BinaryOperator>(b->getOperand(k)))
            if (sh->getOpcode() == Instruction::Shl && match(sh->getOperand(1), PatternMatch::m_SpecificInt(32))) {
              put(e, i, sh->getOperand(0));
              Value *lo = b->getOperand(1 - k);
              if (auto *an = dyn_cast<BinaryOperator>(lo))
                if (an->getOpcode() == Instruction::And && isa<ConstantInt>(an->getOperand(1)))
                  lo = an->getOperand(0);
              put(e, i, lo);
              return;
            }
    std::vector<Poly> vs;
    values(a, {}, vs, 0);
    bool open = false;
    for (auto &p : vs)
      open |= bitwise(bytes(p));
    if (open && !a->getType()->isFloatingPointTy()) {
      // a number taken apart by loops and tests: look at the reals it is made from
      vs.clear();
      std::set<Value *> seen;
      std::vector<Value *> w{a};
      while (!w.empty()) {
        Value *v = w.back();
        w.pop_back();
        auto *I = dyn_cast<Instruction>(v);
        if (!I || !seen.insert(v).second || isa<LoadInst>(I) || I->getType()->isPointerTy())
          continue;
        if (v->getType()->isFloatingPointTy()) {
          std::vector<Poly> fs;
          values(v, {}, fs, 0);
          for (auto &p : fs)
            vs.push_back(p);
          continue;
        }
        for (auto &o : I->operands())
          w.push_back(o.get());
      }
    }
    for (auto &p : vs) {
      auto ls = PS.leafAtoms(p);
      std::set<char> ax;
      std::set<int> ks;
      for (int l : ls)
        if (PS.atoms[l].lf.isPoint()) {
          ax.insert(PS.atoms[l].lf.axis());
          ks.insert(PS.atoms[l].lf.point());
        }
      if (getenv("DUMP") && ax.size() != 1)
        errs() << "skip " << W.F->getName() << " " << whereOf(e.I) << " " << ax.size() << " " << PS.str(p).substr(0, 200) << "\n";
      if (ax.size() != 1 || *ax.begin() == 'z')
        continue; // nothing of the shape, or something computed from both axes
      Place pl{&e, i, *ax.begin(), e.sink ? 'S' : 'b', ks, "", "", p};
      // take off what picks bytes out of the number, then rounding wherever it happens
      std::set<std::string> conv;
      Poly q = same(unround(bytes(p), conv));
      if (!decided(q) && ks.size() == 4 && !extreme(q))
        // a point made from all four of a curve: nothing else takes part, its weights have to cancel
        R.finding("one-mapping", funcOf(e.I), chainOf(e.I), std::string(1, *ax.begin()) + " weights",
                  "the weights of the curve's points do not add up to one");
      if (!decided(q)) {
        R.count("coordinates made from remembered points, not decided");
        continue;
      }
      bool has = false;
      for (int l : PS.leafAtoms(q))
        has |= PS.atoms[l].lf.isPoint();
      if (!has)
        continue; // a difference of coordinates
      for (auto &c : conv)
        pl.conv += c + " ";
      pl.map = PS.str(q, [&](const Polys::Atom &a) -> std::string {
        if (a.leaf && a.lf.isPoint())
          return "$";
        if (a.leaf)
          return a.lf.field;
        return a.key;
      });
      places.push_back(pl);
    }
  }

  // the axis all points in a written value belong to
  char axisOf(const Leaves &ls) {
    char c = 0;
    for (auto &l : ls)
      if (l.isPoint()) {
        if (c && c != l.axis())
          return '*';
        c = l.axis();
      }
    return c == 'z' ? 0 : c;
  }
  void order(std::map<std::string, Seen> &out);
};
} // namespace


struct Seen { // how often one way of placing a coordinate occurs, and where
  std::set<std::string> where;
  std::string func, text;
  std::set<int> points;
};

// in which order the two coordinates of a point follow each other
void Mapping::order(std::map<std::string, Seen> &out) {
  // a point -> first place its coordinates are written, per axis
  typedef std::pair<size_t, size_t> At;
  std::map<std::tuple<int, const SCEV *, const SCEV *>, std::map<char, std::vector<At>>> pts;
  for (size_t k = 0; k < W.emits.size(); k++) {
    auto &e = W.emits[k];
    if (!e.sink)
      continue;
    for (size_t i = 0; i < e.args.size(); i++) {
      char a = axisOf(e.al[i]);
      bool placed = false;
      for (auto &p : places)
        placed |= p.e == &e && p.arg == i;
      if (e.args[i]->getType()->isPointerTy() && !placed)
        continue;
      Value *v = e.args[i];
      while (isa<CastInst>(v))
        v = cast<CastInst>(v)->getOperand(0);
      if (a && a != '*' && (placed || isa<LoadInst>(v)))
        for (auto &l : e.al[i])
          if (l.isPoint())
            pts[{l.point(), l.li, l.si}][a].push_back({k, i});
    }
  }
  auto before = [&](At a, At b) {
    if (a.first == b.first)
      return a.second < b.second;
    return W.DT.dominates(W.emits[a.first].I, W.emits[b.first].I);
  };
  for (auto &p : pts) {
    auto &X = p.second['x'], &Y = p.second['y'];
    // each x followed by its y, or each y by its x: look at the one written before all others
    for (auto *A : {&X, &Y})
      for (auto a : *A) {
        bool head = true;
        for (auto *B : {&X, &Y})
          for (auto b : *B)
            head &= !before(b, a);
        if (!head)
          continue;
        auto *O = A == &X ? &Y : &X;
        bool followed = false;
        for (auto b : *O)
          followed |= before(a, b);
        if (!followed)
          continue;
        std::string s = A == &X ? "x then y" : "y then x";
        auto *I = W.emits[a.first].I;
        auto &t = out[s];
        t.where.insert(chainOf(I));
        t.func = funcOf(I);
        t.text = "order";
        t.points.insert(std::get<0>(p.first));
        R.count("coordinate pairs in order");
        if (getenv("DUMP"))
          errs() << "order " << W.F->getName() << " " << whereOf(I) << " " << std::get<0>(p.first) << s << "\n";
      }
  }
}

static std::string pointNames(const std::set<int> &ks) {
  std::string s;
  static const char *n[] = {"start", "first control", "second control", "end"};
  for (int k : ks)
    s += (s.empty() ? "" : "/") + std::string(k >= 0 && k < 4 ? n[k] : "?");
  return s;
}

void checkC02(Program &P, Report &R, const std::string &tier) {
  for (auto &x : writerList(P, R)) {
    R.count("writers");
    std::string wn = x.first->getName().str();
    long n = 0;
    // class and axis -> mapping -> occurrences
    std::map<std::string, std::map<std::string, Seen>> maps, convs;
    std::map<std::string, Seen> orders;
    for (int deg : {1, 3}) {
      Spec s;
      s.degree = deg;
      auto w = specialise(P, x.first, x.second, s);
      if (!w) {
        R.fail("writer " + wn + ": shape argument not found");
        continue;
      }
      Mapping m(*w, R);
      m.collect();
      for (auto &p : m.places) {
        n++;
        R.count("coordinates placed");
        std::string cls = std::string(1, p.what) + p.axis;
        // terms that are not named the same way in both specialisations are compared within one
        std::string k = p.map.find('%') == std::string::npos ? cls : cls + std::to_string(deg);
        for (auto *t : {&maps[k][p.map], &convs[cls][p.conv]}) {
          t->where.insert(chainOf(p.e->I));
          t->func = funcOf(p.e->I);
          t->points.insert(p.points.begin(), p.points.end());
          t->text = std::string(1, p.axis);
        }
        if (getenv("DUMP")) {
          errs() << wn << " " << deg << " " << whereOf(p.e->I) << " " << p.what << " " << p.axis << " ";
          for (int k : p.points)
            errs() << k;
          errs() << " | " << p.map << " | " << p.conv << "\n";
        }
      }
      m.order(orders);
    }
    if (!n)
      R.fail("writer " + wn + ": no coordinate found in its output");
    R.count("mappings", maps.size());
    auto odd = [&](std::map<std::string, Seen> &t, const std::string &rule, const std::string &what) {
      if (t.size() < 2)
        return;
      auto best = t.begin();
      for (auto it = t.begin(); it != t.end(); ++it)
        if (it->second.where.size() > best->second.where.size())
          best = it;
      for (auto it = t.begin(); it != t.end(); ++it)
        if (it != best)
          R.finding(rule, it->second.func, *it->second.where.begin(), it->second.text + " " + pointNames(it->second.points),
                    what + " \"" + it->first + "\" here, but \"" + best->first + "\" at " + *best->second.where.begin() + " of " + wn);
    };
    for (auto &t : maps)
      odd(t.second, "one-mapping", std::string(t.first[1] == 'x' ? "horizontal" : "vertical") + " coordinate ($) is written as");
    for (auto &t : convs)
      odd(t.second, "one-rounding", std::string(t.first[1] == 'x' ? "horizontal" : "vertical") + " coordinate is converted by");
    odd(orders, "one-order", "coordinates are written in the order");
  }
}
