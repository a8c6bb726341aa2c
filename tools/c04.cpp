// C04: centreline and open outlines are stroked, closed ones are filled.
#include "paths.h"
#include "text.h"
#include "llvm/Analysis/ValueTracking.h"

namespace {
enum Where { Before, After, Round }; // the outline's points; Round: somewhere in the outline's round
struct Token {
  const char *name;
  Where where;
  const char *stroke, *fill; // what the format's specification calls it ("" : none needed)
};
struct Format {
  const char *suffix;
  std::vector<Token> tokens;
  const char *neutral; // accepted either way
  const char *flush;   // drops or recolours what is not yet painted
};
#define OP_(x) "(?:^|[\\n\\x02])[ \\t]*" x "(?=$|[\\s\\x02])" // an operator without operands
#define W_(x) "(?:^|[\\s\\x01\\x02])" x "(?=$|[\\s\\x02])"
const std::vector<Format> FORMATS = {
    {"SVG", {{"painted property", Before, "stroke:#", "fill:#"}, {"unpainted property", Before, "fill:none", "stroke:none"}}, "", ""},
    {"EPS", {{"painting operator", After, OP_("[sSbB]"), OP_("[fF]")}, {"colour operator", Before, W_("[KXA]"), W_("k")}}, "", W_("[kK]")},
    {"AI", {{"painting operator", After, OP_("[sSbB]"), OP_("[fF]")}, {"colour operator", Before, W_("[KXA]"), W_("k")}}, "", W_("[kK]")},
    {"P2E", {{"painting operator", After, W_("stroke"), W_("(?:eo)?fill")}}, "", W_("(?:setcmykcolor|setrgbcolor|newpath)")},
    {"SK", {{"painted property", Before, "lp\\(", "fp\\("}, {"unpainted property", Before, "fe\\(\\)", "le\\(\\)"}}, "", ""},
    {"EPD", {{"painting operator", After, OP_("[sS]"), OP_("[fF]")}, {"colour operator", Before, W_("RG"), W_("rg")}}, "", W_("(?:RG|rg)")},
    {"PDF", {{"painting operator", After, OP_("[sS]"), OP_("[fF]")}, {"colour operator", Before, W_("RG"), W_("rg")}}, "", W_("(?:RG|rg)")},
    {"MIF", {{"object", Before, "<PolyLine", "<Polygon"}, {"fill pattern", Before, "<Fill 15>", "<Fill 0>"}, {"pen pattern", Before, "<Pen 0>", "<Pen 15>"}}, "", ""},
    {"FIG", {{"area fill", Before, "[23] \\S+ \\S+ \\S+ \\S+ \\S+ \\S+ \\S+ -1 [^\\n]*\\n", "[23] \\S+ \\S+ \\S+ \\S+ \\S+ \\S+ \\S+ 20 [^\\n]*\\n"}},
     "2 1 [^\\n]* [12]\\n", ""},
    {"EMF", {{"painting record", After, "\\x40\\x00\\x00\\x00\\x18\\x00\\x00\\x00", "\\x3e\\x00\\x00\\x00\\x18\\x00\\x00\\x00"},
             {"pen record", Before, "\\x26\\x00\\x00\\x00\\x1c\\x00\\x00\\x00", ""}}, "", ""},
    {"CGM", {{"colour element", Before, "\\x50\\x83", "\\x52\\xe3"}, {"begin element", Before, "\\x01\\xe0", "\\x01\\x00"}, {"end element", After, "\\x02\\x00", "\\x01\\x20"}}, "", ""},
    {"DR2D", {{"polygon chunk", Round, "OPLY", "CPLY"}, {"fill type", Round, "\\x03FT0", "\\x03FT[1-9]"}}, "", ""},
};
// these formats have lines only, or areas only, or leave it to the program that reads them
const std::set<std::string> ONE_KIND = {"UGS", "ER", "DXF", "POV", "PLT", "ILD"};

// DR2D keeps its chunks in memory: names given to them and the first byte of the attributes
void chunkPieces(Writer &W, Text &T) {
  std::map<const Value *, Instruction *> attr;
  for (auto &B : *W.F)
    for (auto &I : B)
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        StringRef n = calleeName(CB);
        if ((n == "strncpy" || n == "memcpy" || n == "strcpy" || n.starts_with("llvm.memcpy") || n == "memmove") && CB->arg_size() >= 2) {
          std::string all;
          auto v = stringsOf(CB->getArgOperand(1));
          for (size_t i = 0; i < v.size(); i++)
            all += (i ? std::string(1, OR) : "") + v[i];
          T.add(&I, all);
          if (v.size() == 1 && v[0].substr(0, 4) == "ATTR")
            attr[getUnderlyingObject(CB->getArgOperand(0))] = &I;
        }
      } else if (auto *St = dyn_cast<StoreInst>(&I)) { // a copied constant may have become a store
        if (auto *c = dyn_cast<ConstantInt>(St->getValueOperand()))
          if (c->getBitWidth() == 32) {
            std::string s;
            for (int i = 0; i < 4; i++)
              s += (char)(c->getZExtValue() >> 8 * i);
            if (s == "ATTR")
              attr[getUnderlyingObject(St->getPointerOperand())] = &I;
            T.add(&I, s);
          }
      }
  std::set<const Value *> data;
  for (auto &B : *W.F)
    for (auto &I : B)
      if (auto *St = dyn_cast<StoreInst>(&I))
        if (St->getValueOperand()->getType()->isPointerTy() && attr.count(getUnderlyingObject(St->getPointerOperand())))
          if (auto *o = getUnderlyingObject(St->getValueOperand()))
            data.insert(o);
  const DataLayout &DL = W.F->getParent()->getDataLayout();
  for (auto &B : *W.F)
    for (auto &I : B)
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        APInt off(64, 0);
        auto *p = St->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
        if (data.count(getUnderlyingObject(St->getPointerOperand())) && data.count(p) && off == 0)
          if (auto *c = dyn_cast<ConstantInt>(St->getValueOperand()))
            T.add(&I, std::string("\3FT") + std::to_string(c->getZExtValue() & 255));
          else
            T.add(&I, "\3FT0\2\3FT1");
      }
  T.finish();
}

struct Check {
  Writer &W;
  Report &R;
  const Format &f;
  bool stroke;
  std::string conf;
  Text T;
  std::vector<Emit *> draws;
  std::set<Loop *> loops;
  std::set<BasicBlock *> region;
  Check(Writer &W, Report &R, const Format &f, bool stroke, const std::string &conf) : W(W), R(R), f(f), stroke(stroke), conf(conf), T(W) {}

  void problem(const std::string &rule, Instruction *I, const std::string &inst, const std::string &msg) {
    R.finding(rule, W.F->getName().str(), chainOf(I), inst, msg + " (" + conf + ")");
  }
  std::set<const Instruction *> where(const char *re, bool sure) {
    std::set<const Instruction *> r;
    if (!*re)
      return r;
    std::regex x(re);
    for (auto &b : T.text)
      for (auto *I : T.find(b.first, x, sure))
        r.insert(I);
    return r;
  }
  void prepare(PathSearch &S) {
    S.dead = [](const BasicBlock *, const BasicBlock *b) { return deadEnd(const_cast<BasicBlock *>(b)); };
    S.counter = [&](PHINode *p) {
      const Loop *l;
      return W.SE.isSCEVable(p->getType()) && W.isCounter(W.SE.getSCEV(p), l);
    };
    S.positive = [&](Value *v) { // the shape has outlines
      Leaf lf;
      auto *ld = dyn_cast<LoadInst>(v);
      return ld && W.leafOfLoad(ld, lf) && (lf.field == "shape.length" || lf.field == "length");
    };
  }
  void run() {
    bool buffered = std::string(f.suffix) == "DR2D";
    if (buffered)
      chunkPieces(W, T);
    for (auto &e : W.emits) {
      if (e.sink == buffered)
        continue;
      bool point = false;
      for (auto &l : e.all)
        if (l.isPoint() && l.li) {
          if (auto *a = dyn_cast<SCEVAddRecExpr>(l.li)) {
            // written inside the loop over the outlines
            auto *lp = const_cast<Loop *>(a->getLoop());
            if (lp->contains(e.I->getParent())) {
              point = true;
              loops.insert(lp);
            }
          }
        }
      if (point)
        draws.push_back(&e);
    }
    if (draws.empty() || loops.empty()) {
      R.fail(W.suffix + ": no place found where points are written");
      return;
    }
    std::vector<BasicBlock *> work;
    for (auto *l : loops)
      work.push_back(l->getHeader());
    while (!work.empty()) {
      auto *b = work.back();
      work.pop_back();
      if (!region.insert(b).second)
        continue;
      for (auto *s : successors(b))
        work.push_back(s);
    }
    R.count("points written", draws.size());
    std::set<const Instruction *> neutral = where(f.neutral, true), neutralAny = where(f.neutral, false);
    for (auto &t : f.tokens) {
      const char *right = stroke ? t.stroke : t.fill, *wrong = stroke ? t.fill : t.stroke;
      std::string want = stroke ? "stroke" : "fill";
      for (auto *I : where(wrong, false)) {
        if (!region.count(const_cast<BasicBlock *>(I->getParent())) || neutralAny.count(I))
          continue;
        PathSearch S(*W.F, W.LI);
        prepare(S);
        if (!S.reach(nullptr, [&](Instruction &J) { return &J == I; }))
          continue;
        problem("wrong-paint", const_cast<Instruction *>(I), std::string(W.suffix) + ":" + t.name + ":" + (stroke ? "stroked" : "filled"),
                std::string("the ") + t.name + " of " + (stroke ? "filled" : "stroked") + " areas is written for an outline that is to be " +
                    (stroke ? "stroked" : "filled"));
      }
      if (!*right)
        continue;
      auto ok = where(right, true);
      R.count("painting tokens", ok.size());
      ok.insert(neutral.begin(), neutral.end());
      PathSearch S(*W.F, W.LI);
      prepare(S);
      S.stops = ok;
      std::string inst = std::string(W.suffix) + ":" + t.name + ":" + (stroke ? "stroked" : "filled");
      if (t.where == Before) {
        std::set<Instruction *> ds;
        for (auto *d : draws)
          ds.insert(d->I);
        if (auto *h = S.reach(nullptr, [&](Instruction &I) { return ds.count(&I) > 0 && !ok.count(&I); }))
          problem("not-painted", h, inst, std::string("points of an outline are written before any ") + t.name + " to " + want + " it");
      } else if (t.where == After) {
        for (auto *d : draws) {
          if (S.reach(d->I, [&](Instruction &I) { return isa<ReturnInst>(I); })) {
            problem("not-painted", d->I, inst, std::string("an outline may be left without the ") + t.name + " to " + want + " it");
            break;
          }
          R.count("paths to the end searched");
        }
        if (*f.flush) {
          auto fl = where(f.flush, false);
          for (auto *d : draws)
            if (auto *h = S.reach(d->I, [&](Instruction &I) { return fl.count(&I) > 0; })) {
              problem("not-painted", h, inst + ":flush", std::string("an outline that has no ") + t.name + " yet is dropped or given another colour");
              break;
            }
        }
      } else {
        for (auto *l : loops) {
          auto *latch = l->getLoopLatch();
          if (!latch) {
            R.fail(W.suffix + ": loop over the outlines not understood");
            continue;
          }
          if (auto *h = S.reach(&*l->getHeader()->getFirstNonPHIOrDbg(), [&](Instruction &I) { return &I == latch->getTerminator(); }))
            problem("not-painted", h, inst, std::string("an outline may get no ") + t.name + " to " + want + " it");
        }
      }
    }
    if (getenv("IR") && W.suffix == getenv("IR"))
      W.F->print(outs());
    if (getenv("DUMP"))
      for (auto &b : T.text)
        if (region.count(b.first)) {
          outs() << W.suffix << " " << conf << " " << whereOf(T.pieces[b.first][0].I) << ": ";
          outs().write_escaped(b.second) << "\n";
        }
  }
};
} // namespace

void checkC04(Program &P, Report &R, const std::string &) {
  std::set<std::string> seen;
  for (auto &x : writerList(P, R)) {
    std::string first = x.second.substr(0, x.second.find(','));
    const Format *f = nullptr;
    for (auto &g : FORMATS)
      if (first == g.suffix)
        f = &g;
    if (!f) {
      if (!ONE_KIND.count(first))
        R.count("formats not known");
      else
        R.count("formats with one kind of path");
      continue;
    }
    seen.insert(first);
    R.count("writers");
    struct {
      int c, o;
    } confs[] = {{1, 0}, {1, 1}, {1, -1}, {0, 1}, {0, 0}};
    for (auto &c : confs) {
      Spec s;
      s.centerline = c.c;
      s.open = c.o;
      s.name = "p";
      auto w = specialise(P, x.first, x.second, s);
      if (!w) {
        R.fail("writer " + x.first->getName().str() + ": the shape argument or its layout was not found");
        break;
      }
      std::string conf = std::string(c.c ? "centreline trace" : "no centreline trace") +
                         (c.o < 0 ? ", any outlines" : c.o ? ", open outlines" : ", closed outlines");
      R.count("configurations");
      Check(*w, R, *f, c.c == 1 || c.o == 1, conf).run();
    }
  }
  if (seen.size() < 6)
    R.fail("fewer than six of the formats that can stroke and fill are registered");
}
