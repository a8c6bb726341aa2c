// C16: format lookup. The functions that register and look up formats are
// inlined except for the C++ library's own functions, and read as a sequence of
// operations on the suffix string and the table.
#include "core.h"
#include "paths.h"
#include "llvm/Demangle/Demangle.h"
#include <regex>

namespace {
bool stdName(StringRef n) {
  return n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt") || n.starts_with("_ZN9__gnu_cxx") ||
         n.starts_with("_ZNK9__gnu_cxx") || n.starts_with("_ZNSa") || n.starts_with("_ZNKSa");
}

// class and method of a call of the C++ library: ("map", "find")
std::pair<std::string, std::string> method(StringRef mangled) {
  std::string d = demangle(mangled.str());
  std::string flat; // without template arguments and parameters
  int depth = 0;
  for (size_t i = 0; i < d.size(); i++) {
    if (d.compare(i, 8, "operator") == 0 && depth == 0 && (i == 0 || d[i - 1] == ':' || d[i - 1] == ' ')) {
      size_t j = i + 8;
      std::string op = "operator";
      static const std::vector<std::string> ops{"<=>", "->", "<<", ">>", "<=", ">=", "==", "!=", "[]", "()", "++", "--", "+=", "-=",
                                                "<", ">", "=", "+", "-", "*", "!"};
      for (auto &o : ops)
        if (d.compare(j, o.size(), o) == 0) {
          op += o;
          break;
        }
      flat += op;
      i += op.size() - 1;
      continue;
    }
    if (d[i] == '<')
      depth++;
    else if (d[i] == '>')
      depth--;
    else if (depth == 0 && d[i] == '(')
      break;
    else if (depth == 0)
      flat += d[i];
  }
  auto sp = flat.rfind(' ');
  if (sp != std::string::npos && flat.find("operator") == std::string::npos)
    flat = flat.substr(sp + 1);
  auto c = flat.rfind("::");
  if (c == std::string::npos)
    return {"", flat};
  std::string m = flat.substr(c + 2), cls = flat.substr(0, c);
  auto c2 = cls.rfind("::");
  if (c2 != std::string::npos)
    cls = cls.substr(c2 + 2);
  return {cls, m};
}

struct Side {
  std::string fold;              // tolower / toupper
  GlobalVariable *table = nullptr;
  std::string tableName;
};

struct Lookup {
  Program &P;
  Report &R;
  std::unique_ptr<Root> root;
  Function *F;
  std::string name;
  Lookup(Program &P, Report &R, const std::string &name) : P(P), R(R), name(name) {
    root = prepared();
    F = root ? root->F : nullptr;
  }
  std::unique_ptr<Root> prepared() {
    Prep p;
    for (auto &f : *P.M)
      if (stdName(f.getName()))
        p.keep.insert(f.getName().str());
    return P.root(name, p);
  }
  std::vector<CallBase *> calls(const std::function<bool(CallBase *)> &f) {
    std::vector<CallBase *> r;
    for (auto &I : instructions(*F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (f(CB))
          r.push_back(CB);
    return r;
  }
  static std::pair<std::string, std::string> m(const CallBase *CB) {
    StringRef n = calleeName(CB);
    return stdName(n) ? method(n) : std::make_pair(std::string(), n.str());
  }
  static bool tableClass(const std::string &c) {
    return c == "map" || c == "unordered_map" || c == "multimap" || c == "flat_map";
  }
  // the table the function works on
  GlobalVariable *table() {
    for (auto *CB : calls([](CallBase *) { return true; }))
      if (tableClass(m(CB).first) && CB->arg_size())
        for (auto &a : CB->args())
          if (auto *G = dyn_cast<GlobalVariable>(a->stripPointerCasts()))
            return G;
    return nullptr;
  }

  // strings made from C strings: object -> (constructor, what it is made from)
  std::map<Value *, std::pair<CallBase *, Value *>> strings() {
    std::map<Value *, std::pair<CallBase *, Value *>> r;
    for (auto *CB : calls([](CallBase *CB) { return m(CB) == std::make_pair(std::string("basic_string"), std::string("basic_string")); }))
      if (CB->arg_size() >= 2 && CB->getArgOperand(1)->getType()->isPointerTy() && demangle(calleeName(CB).str()).find("(char const*") != std::string::npos)
        r[CB->getArgOperand(0)] = {CB, CB->getArgOperand(1)};
    return r;
  }

  // the string object and the ones it is copied to and from
  std::vector<Value *> copies(Value *key) {
    std::vector<Value *> g{key};
    for (size_t i = 0; i < g.size(); i++)
      for (auto *U : g[i]->users())
        if (auto *CB = dyn_cast<CallBase>(U)) {
          auto k = m(CB);
          std::string d = demangle(calleeName(CB).str());
          bool whole = d.find(">&&)") != std::string::npos || d.find("> const&)") != std::string::npos; // one other string, nothing else
          if (k.first == "basic_string" && (k.second == "basic_string" || k.second == "operator=") && CB->arg_size() == 2 && whole)
            for (auto &a : CB->args())
              if (isa<AllocaInst>(a.get()) && std::find(g.begin(), g.end(), a.get()) == g.end())
                g.push_back(a.get());
        }
    return g;
  }

  // folding of the case of a whole string object; the instruction after which it is done
  struct Fold {
    Instruction *at = nullptr;
    std::string how;
    std::string problem;
    BasicBlock *header = nullptr; // a loop
  };
  static std::string foldsWith(Function *f, std::set<Function *> &seen) {
    if (!f || !seen.insert(f).second)
      return "";
    if (f->getName() == "tolower" || f->getName() == "toupper")
      return f->getName().str();
    for (auto &I : instructions(*f))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        std::string s = foldsWith(calleeOf(CB), seen);
        if (!s.empty())
          return s;
        for (auto &a : CB->args())
          if (auto *g = dyn_cast<Function>(a->stripPointerCasts())) {
            s = foldsWith(g, seen);
            if (!s.empty())
              return s;
          }
      }
    return "";
  }
  bool iterOf(Value *V, Value *key, const char *which) {
    auto *CB = dyn_cast<CallBase>(V);
    return CB && m(CB).second == which && CB->arg_size() && CB->getArgOperand(0) == key;
  }
  static bool derives(Value *V, Value *key, std::set<Value *> &seen) {
    if (V == key)
      return true;
    if (!seen.insert(V).second)
      return false;
    if (auto *U = dyn_cast<Instruction>(V)) {
      if (isa<AllocaInst>(U)) { // an iterator in memory
        for (auto *W : U->users())
          if (auto *S = dyn_cast<StoreInst>(W))
            if (S->getPointerOperand() == U && derives(S->getValueOperand(), key, seen))
              return true;
        return false;
      }
      for (auto &o : U->operands())
        if (derives(o.get(), key, seen))
          return true;
    }
    return false;
  }
  std::vector<Fold> folds(Value *key) {
    std::vector<Fold> r;
    for (auto *CB : calls([](CallBase *) { return true; })) {
      auto mm = m(CB);
      bool each = mm.second == "for_each";
      if ((mm.second == "transform" || each) && CB->arg_size() >= 3 - each) {
        std::set<Value *> seen;
        if (!derives(CB->getArgOperand(0), key, seen))
          continue;
        Fold f;
        f.at = CB;
        for (auto &a : CB->args())
          if (auto *g = dyn_cast<Function>(a->stripPointerCasts())) {
            std::set<Function *> s;
            f.how = foldsWith(g, s);
          }
        std::set<Function *> s;
        if (f.how.empty())
          f.how = foldsWith(calleeOf(CB), s);
        if (f.how.empty())
          continue;
        auto first = [&](Value *V) { return iterOf(V, key, "begin") || iterOf(V, key, "data"); };
        if (isa<CallBase>(CB->getArgOperand(0)) && isa<CallBase>(CB->getArgOperand(1)) &&
            !(first(CB->getArgOperand(0)) && iterOf(CB->getArgOperand(1), key, "end") && (each || first(CB->getArgOperand(2)))))
          f.problem = "does not cover the whole suffix from its first to its last character";
        r.push_back(f);
      } else if (mm.second == "tolower" || mm.second == "toupper") {
        Loop *L = root->LI().getLoopFor(CB->getParent());
        // the result goes back into the string
        bool into = false;
        std::vector<Value *> work{CB};
        std::set<Value *> seenV;
        while (!work.empty()) {
          Value *v = work.back();
          work.pop_back();
          for (auto *U : v->users()) {
            if (auto *S = dyn_cast<StoreInst>(U)) {
              std::set<Value *> seen;
              if (S->getValueOperand() == v && derives(S->getPointerOperand(), key, seen))
                into = true;
            } else if (isa<CastInst>(U) && seenV.insert(U).second)
              work.push_back(U);
            else if (auto *C2 = dyn_cast<CallBase>(U)) {
              auto k = m(C2);
              if (C2->arg_size() && C2->getArgOperand(0) == key && (k.second == "push_back" || k.second == "operator+=" || k.second == "append"))
                into = true;
            }
          }
        }
        if (!into)
          continue;
        Fold f;
        f.at = CB;
        f.how = mm.second;
        if (!L)
          f.problem = "is applied to one character only";
        else
          f.header = L->getHeader();
        r.push_back(f);
      }
    }
    return r;
  }
  static bool harmless(const std::pair<std::string, std::string> &k) {
    static const std::set<std::string> ok{"begin", "end", "cbegin", "cend", "size", "length", "empty", "data", "c_str", "operator[]", "at",
                                          "basic_string", "~basic_string", "transform", "for_each", "front", "back", "reserve",
                                          "operator=", "push_back", "operator+="};
    return ok.count(k.second);
  }
  static bool alters(const std::pair<std::string, std::string> &k) {
    static const std::set<std::string> bad{"resize", "erase", "pop_back", "assign", "replace", "insert", "append", "substr", "clear", "swap"};
    return k.first == "basic_string" && bad.count(k.second);
  }
};

std::string lower(std::string s) {
  for (auto &c : s)
    c = tolower((unsigned char)c);
  return s;
}

// ---- what tells the formats apart --------------------------------------------
struct Reach {
  std::set<std::string> strings, callees;
  std::set<int64_t> numbers;
  void constant(const Constant *C, int depth) {
    if (depth > 6)
      return;
    if (auto *d = dyn_cast<ConstantDataSequential>(C)) {
      if (d->isString())
        strings.insert(d->getAsString().str());
      return;
    }
    for (auto &o : C->operands())
      if (auto *c = dyn_cast<Constant>(o.get()))
        constant(c, depth + 1);
    if (auto *G = dyn_cast<GlobalVariable>(C))
      if (G->hasInitializer())
        constant(G->getInitializer(), depth + 1);
  }
  Reach(Function *F, const std::set<Function *> &others) {
    std::set<Function *> seen{F};
    std::vector<Function *> work{F};
    while (!work.empty()) {
      Function *f = work.back();
      work.pop_back();
      for (auto &I : instructions(*f)) {
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (Function *g = calleeOf(CB)) {
            callees.insert(g->getName().str());
            if (!g->isDeclaration() && !others.count(g) && seen.insert(g).second)
              work.push_back(g);
          }
        for (auto &o : I.operands()) {
          if (auto *c = dyn_cast<ConstantInt>(o.get())) {
            if (c->getBitWidth() <= 64)
              numbers.insert((int64_t)c->getZExtValue());
          } else if (auto *c = dyn_cast<Constant>(o.get()))
            constant(c, 0);
        }
      }
    }
  }
  bool has(const std::string &s) const {
    for (auto &x : strings)
      if (x.find(s) != std::string::npos)
        return true;
    return false;
  }
};
// what a file of the format must contain, from its specification
const std::map<std::string, std::pair<std::string, std::string>> writes{
    {"eps", {"EPSF", "PostScript"}}, {"ai", {"EPSF", "PostScript"}}, {"p2e", {"pstoedit", "pstoedit input"}}, {"sk", {"##Sketch", "Sketch"}},
    {"svg", {"<svg", "SVG"}}, {"ugs", {"design-size", "Unicode glyph source"}}, {"fig", {"#FIG", "Xfig"}}, {"emf", {" EMF", "EMF"}},
    {"mif", {"<MIFFile", "FrameMaker"}}, {"er", {"#Elastic Reality", "Elastic Reality"}}, {"dxf", {"POLYLINE", "DXF"}}, {"epd", {"%EPD", "EPD"}},
    {"pdf", {"%PDF", "PDF"}}, {"dr2d", {"DRHD", "DR2D"}}, {"pov", {"prism", "POV-Ray"}}, {"plt", {"IN;", "HPGL"}}, {"ild", {"Color Table", "ILDA"}},
    {"swf", {"SWF", "Flash"}}};
bool reads(const std::string &format, const Reach &r) {
  if (format == "png")
    return r.callees.count("png_create_read_struct");
  if (format == "tga")
    return r.has("VISION-XFILE");
  if (format == "bmp")
    return r.has("BM");
  if (format == "gf")
    return r.numbers.count(223) && r.numbers.count(247 - 0) + r.numbers.count(131) > 0; // trailing byte and identification
  if (format == "pnm")
    return r.numbers.count('P') && r.numbers.count('#');
  return false;
}
std::string readFamily(const std::string &s) {
  return s == "pbm" || s == "pgm" || s == "ppm" ? "pnm" : s;
}
} // namespace

static void registrationTable(Program &P, Report &R, const std::string &kind) {
  auto regs = P.registered("at_" + kind + "_add_handler", R);
  if (regs.empty()) {
    R.fail("no registered " + kind + " format found");
    return;
  }
  std::set<Function *> all;
  for (auto &r : regs)
    all.insert(r.second);
  std::map<std::string, Function *> by;
  for (auto &r : regs) {
    R.count("registrations");
    std::string suf = lower(r.first);
    if (suf.empty()) {
      R.finding("no-suffix", r.second->getName().str(), r.second->getName().str(), kind, "a format is registered without a suffix");
      continue;
    }
    auto it = by.find(suf);
    if (it != by.end() && it->second != r.second)
      R.finding("two-for-one", it->second->getName().str(), "registration of " + suf, suf,
                "two " + kind + " formats are registered under the suffix " + suf + ": " + it->second->getName().str() + " and " +
                    r.second->getName().str());
    by[suf] = r.second;
  }
  // each function is registered under a suffix of the format it handles
  for (auto &b : by) {
    std::set<Function *> others(all);
    others.erase(b.second);
    Reach r(b.second, others);
    std::string own, other;
    if (kind == "output") {
      auto w = writes.find(b.first);
      if (w != writes.end() && r.has(w->second.first)) {
        R.count("formats recognised by what they contain");
        continue;
      }
      for (auto &x : writes)
        if (x.first != b.first && r.has(x.second.first))
          other = x.second.second;
    } else {
      static const std::vector<std::string> fs{"png", "tga", "bmp", "gf", "pnm"};
      if (reads(readFamily(b.first), r)) {
        R.count("formats recognised by what they contain");
        continue;
      }
      for (auto &x : fs)
        if (x != readFamily(b.first) && reads(x, r))
          other = x;
    }
    if (!other.empty())
      R.finding("wrong-handler", b.second->getName().str(), "registration of " + b.first, b.first,
                "the function registered under the suffix " + b.first + " handles " + other);
    else
      R.count("formats without a distinctive content");
  }
  // no reader or writer is left out
  FunctionType *t = (*all.begin())->getFunctionType();
  for (auto &F : *P.M)
    if (!F.isDeclaration() && !all.count(&F) && F.getFunctionType() == t && F.getSubprogram()) {
      bool used = false;
      for (auto *U : F.users())
        used |= isa<Instruction>(U);
      if (!used && F.arg_size() == (*all.begin())->arg_size())
        R.finding("not-registered", F.getName().str(), (F.getSubprogram()->getFilename() + ":" + std::to_string(F.getSubprogram()->getLine())).str(),
                  F.getName().str(), "the " + kind + " function is registered under no suffix");
    }
}

static void keyRules(Lookup &L, Report &R, const std::string &what, std::string &fold, bool &seen) {
  DominatorTree &DT = L.root->DT();
  auto strs = L.strings();
  for (auto &s : strs) {
    // the string is a key if it reaches the table
    Value *key = s.first;
    std::vector<CallBase *> uses;
    bool isKey = false;
    std::vector<Value *> group = L.copies(key);
    for (auto *one : group)
    for (auto *U : one->users())
      if (auto *CB = dyn_cast<CallBase>(U)) {
        auto k = L.m(CB);
        if (Lookup::harmless(k))
          continue;
        if (k.second.find("lifetime") != std::string::npos || k.second.find("dbg") != std::string::npos)
          continue;
        uses.push_back(CB);
        isKey |= Lookup::tableClass(k.first) || k.first == "pair" || k.second == "pair" || k.second == "operator==" || k.second == "compare";
      }
    if (!isKey)
      continue;
    // descriptions are strings too: the key is made from the suffix, the first parameter
    Value *from = s.second.second;
    std::set<Value *> sv;
    if (!Lookup::derives(from, L.F->getArg(0), sv))
      continue;
    seen = true;
    R.count("suffix strings followed to the table");
    std::vector<Lookup::Fold> fs;
    for (auto *one : group)
      for (auto &f : L.folds(one))
        fs.push_back(f);
    Lookup::Fold *good = nullptr;
    for (auto &f : fs) {
      R.count("case foldings");
      if (!f.problem.empty())
        R.finding("case-partly", L.name, whereOf(f.at), what, "the folding of the suffix to one case " + f.problem);
      good = &f;
    }
    if (!good) {
      R.finding("case-not-folded", L.name, whereOf(s.second.first), what,
                "the suffix reaches the table of formats without being folded to one case, so only one spelling of it is found");
      continue;
    }
    fold = good->how;
    for (auto *u : uses) {
      if (Lookup::alters(L.m(u))) {
        R.finding("suffix-altered", L.name, whereOf(u), what, "the suffix is changed (" + L.m(u).second + ") before it is looked up");
        continue;
      }
      bool after = good->header ? DT.dominates(good->header, u->getParent()) && good->header != u->getParent()
                                : DT.dominates(good->at, u);
      if (!after)
        R.finding("case-too-late", L.name, whereOf(u), what, "a path reaches this use of the suffix before its case is folded");
    }
  }
}

static bool nullBased(const Value *V) { // an address computed from the null pointer
  if (isa<ConstantPointerNull>(V))
    return true;
  if (auto *c = dyn_cast<ConstantExpr>(V)) {
    if (c->getOpcode() == Instruction::GetElementPtr)
      return nullBased(c->getOperand(0));
    if (c->getOpcode() == Instruction::IntToPtr)
      if (auto *i = dyn_cast<ConstantInt>(c->getOperand(0)))
        return i->getZExtValue() < 4096;
  }
  if (auto *g = dyn_cast<GetElementPtrInst>(V))
    return nullBased(g->getPointerOperand());
  return false;
}

// with nothing to look for the function gives no handler and touches nothing
static void nothing(Program &P, Report &R, const std::string &name, const std::string &what, bool dot) {
  Lookup L(P, R, name);
  if (!L.F)
    return;
  int n = 0;
  std::vector<Instruction *> dots;
  if (dot) {
    for (auto &I : instructions(*L.F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (calleeName(CB) == "strrchr" || calleeName(CB) == "strchr" || calleeName(CB) == "memrchr")
          dots.push_back(CB);
    for (auto *I : dots) {
      I->replaceAllUsesWith(ConstantPointerNull::get(cast<PointerType>(I->getType())));
      n++;
    }
    if (!n)
      return;
  } else
    L.F->getArg(0)->replaceAllUsesWith(ConstantPointerNull::get(cast<PointerType>(L.F->getArg(0)->getType())));
  // reachable blocks under the constants, without turning faulty accesses into "unreachable"
  std::set<BasicBlock *> seen{&L.F->getEntryBlock()};
  std::vector<BasicBlock *> work{&L.F->getEntryBlock()};
  std::map<Value *, Constant *> val;
  std::set<std::pair<BasicBlock *, BasicBlock *>> edges;
  const DataLayout &DL = L.root->M->getDataLayout();
  std::function<Value *(Value *, int)> fold = [&](Value *V, int d) -> Value * {
    if (d > 8)
      return V;
    if (isa<Constant>(V))
      return V;
    if (auto *p = dyn_cast<PHINode>(V)) {
      Value *c = nullptr;
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
        if (edges.count({p->getIncomingBlock(i), p->getParent()})) {
          Value *x = fold(p->getIncomingValue(i), d + 1);
          if (c && c != x)
            return V;
          c = x;
        }
      return c ? c : V;
    }
    if (auto *s = dyn_cast<SelectInst>(V)) {
      Value *c = fold(s->getCondition(), d + 1);
      if (auto *k = dyn_cast<ConstantInt>(c))
        return fold(k->isOne() ? s->getTrueValue() : s->getFalseValue(), d + 1);
      return V;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(V)) {
      Value *b = fold(g->getPointerOperand(), d + 1);
      if (auto *c = dyn_cast<Constant>(b)) {
        std::vector<Constant *> idx;
        for (auto &i : g->indices())
          if (auto *k = dyn_cast<Constant>(i.get()))
            idx.push_back(k);
          else
            return V;
        return ConstantExpr::getGetElementPtr(g->getSourceElementType(), c, idx);
      }
      return V;
    }
    if (auto *ic = dyn_cast<ICmpInst>(V)) {
      Value *a = fold(ic->getOperand(0), d + 1), *b = fold(ic->getOperand(1), d + 1);
      if (isa<Constant>(a) && isa<Constant>(b))
        if (Constant *c = ConstantFoldCompareInstOperands(ic->getPredicate(), cast<Constant>(a), cast<Constant>(b), DL))
          return c;
      return V;
    }
    if (auto *l = dyn_cast<LoadInst>(V)) {
      Value *a = fold(l->getPointerOperand(), d + 1);
      if (auto *c = dyn_cast<Constant>(a))
        if (!nullBased(c))
          if (Constant *k = ConstantFoldLoadFromConstPtr(c, l->getType(), DL))
            return k;
      return V;
    }
    if (auto *b = dyn_cast<BinaryOperator>(V)) {
      Value *x = fold(b->getOperand(0), d + 1), *y = fold(b->getOperand(1), d + 1);
      if (isa<Constant>(x) && isa<Constant>(y))
        if (Constant *c = ConstantFoldBinaryOpOperands(b->getOpcode(), cast<Constant>(x), cast<Constant>(y), DL))
          return c;
      return V;
    }
    return V;
  };
  R.count("lookups specialised for names without a suffix");
  while (!work.empty()) {
    BasicBlock *b = work.back();
    work.pop_back();
    for (auto &I : *b) {
      Value *bad = nullptr;
      if (auto *l = dyn_cast<LoadInst>(&I)) {
        Value *v = fold(l->getPointerOperand(), 0);
        if (nullBased(v))
          bad = v;
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (!CB->isLifetimeStartOrEnd() && !isa<DbgInfoIntrinsic>(CB) &&
            std::find(dots.begin(), dots.end(), &I) == dots.end())
          for (auto &a : CB->args())
            if (a->getType()->isPointerTy()) {
              Value *v = fold(a.get(), 0);
              auto k = Lookup::m(CB);
              if (nullBased(v) && (k.first == "basic_string" || k.second.substr(0, 3) == "str"))
                bad = v;
            }
      }
      if (bad) {
        R.finding("no-suffix-crash", funcOf(&I), whereOf(&I), what,
                  std::string(dot ? "for a file name without a dot" : "without a suffix") +
                      " this reads from a null pointer instead of giving no handler");
        return;
      }
    }
    Instruction *t = b->getTerminator();
    std::vector<BasicBlock *> next(succ_begin(b), succ_end(b));
    if (auto *br = dyn_cast<BranchInst>(t))
      if (br->isConditional())
        if (auto *k = dyn_cast<ConstantInt>(fold(br->getCondition(), 0)))
          next = {br->getSuccessor(k->isOne() ? 0 : 1)};
    for (auto *s : next) {
      bool newEdge = edges.insert({b, s}).second;
      if (seen.insert(s).second || newEdge)
        work.push_back(s);
    }
  }
}

static void lookup(Program &P, Report &R, const std::string &name, const std::string &what, const std::string &tableName,
                   const std::string &fold) {
  Lookup L(P, R, name);
  if (!L.F) {
    R.fail("no function " + name);
    return;
  }
  if (getenv("DUMP"))
    L.F->print(errs());
  R.count("lookup functions");
  std::string f;
  bool seen = false;
  keyRules(L, R, what, f, seen);
  if (!f.empty() && !fold.empty() && f != fold)
    R.finding("case-differs", name, name, what, "formats are registered with " + fold + " but looked up with " + f);
  GlobalVariable *G = L.table();
  if (!G)
    R.count("lookups whose table was not recognised");
  else if (!tableName.empty() && G->getName() != tableName)
    R.finding("other-table", name, name, what, "formats are registered in " + tableName + " but looked up in " + G->getName().str());
  DominatorTree &DT = L.root->DT();
  // the result comes from the entry with this key
  auto cmps = L.calls([&](CallBase *CB) {
    auto k = L.m(CB);
    return (k.second == "operator==" || k.second == "operator!=");
  });
  for (auto *CB : L.calls([&](CallBase *CB) { return Lookup::tableClass(L.m(CB).first); })) {
    std::string k = L.m(CB).second;
    if (k == "find" || k == "contains" || k == "count") {
      R.count("exact lookups in the table");
      continue;
    }
    if (k == "at")
      R.finding("throws", name, whereOf(CB), what, "an unknown suffix raises an exception instead of giving no handler");
    else if (k == "lower_bound" || k == "upper_bound" || k == "operator[]") {
      bool checked = false;
      for (auto *c : cmps)
        checked |= demangle(calleeName(c).str()).find("basic_string") != std::string::npos &&
                   demangle(calleeName(c).str()).find("iterator") == std::string::npos;
      if (!checked)
        R.finding("not-exact", name, whereOf(CB), what, "the lookup (" + k + ") gives an entry for a suffix that is not registered");
    }
  }
  // a found entry is used only after the comparison with the end of the table
  auto holds = [&](Value *A, const char *which) -> CallBase * {
    if (auto *CB = dyn_cast<CallBase>(A))
      if (Lookup::tableClass(L.m(CB).first) && L.m(CB).second == which)
        return CB;
    if (auto *AI = dyn_cast<AllocaInst>(A))
      for (auto *U : AI->users())
        if (auto *S = dyn_cast<StoreInst>(U))
          if (S->getPointerOperand() == AI)
            if (auto *CB = dyn_cast<CallBase>(S->getValueOperand()))
              if (Lookup::tableClass(L.m(CB).first) && L.m(CB).second == which)
                return CB;
    return nullptr;
  };
  for (auto *CB : L.calls([&](CallBase *CB) { auto k = L.m(CB); return (k.second == "operator->" || k.second == "operator*") && CB->arg_size(); })) {
    if (!holds(CB->getArgOperand(0), "find"))
      continue;
    bool guarded = false, wrong = false;
    for (auto *c : cmps) {
      bool a = false, e = false;
      for (auto &x : c->args()) {
        a |= x.get() == CB->getArgOperand(0);
        e |= holds(x.get(), "end") != nullptr;
      }
      if (!a || !e)
        continue;
      for (auto *U : c->users()) {
        Value *cond = U;
        bool flip = false;
        if (isa<BranchInst>(U))
          cond = c;
        else if (auto *x = dyn_cast<BinaryOperator>(U); x && x->getOpcode() == Instruction::Xor)
          flip = true;
        else
          continue;
        for (auto *V : cond->users())
          if (auto *br = dyn_cast<BranchInst>(V))
            if (br->isConditional()) {
              bool ne = (L.m(c).second == "operator!=") != flip;
              BasicBlock *good = br->getSuccessor(ne ? 0 : 1), *bad = br->getSuccessor(ne ? 1 : 0);
              if (DT.dominates(BasicBlockEdge(br->getParent(), good), CB->getParent()))
                guarded = true;
              if (DT.dominates(BasicBlockEdge(br->getParent(), bad), CB->getParent()))
                wrong = true;
            }
      }
    }
    R.count("uses of a found entry");
    if (!guarded || wrong)
      R.finding("not-found-used", name, whereOf(CB), what, "the entry is used on a path where the suffix was not found");
  }
  // lookups by comparing must compare whole strings
  for (auto *CB : L.calls([&](CallBase *CB) {
         std::string k = L.m(CB).second;
         return k == "strncmp" || k == "strncasecmp" || k == "memcmp" || k == "starts_with" || k == "strstr" || k == "strcasestr" || (k == "compare" && CB->arg_size() > 2) ||
                (k == "find" && L.m(CB).first == "basic_string" && !L.table());
       }))
    R.finding("prefix-compare", name, whereOf(CB), what,
              "the suffix is compared with a part of a registered suffix only, so it can find another format's handler");
}

static void fileName(Program &P, Report &R, const std::string &name, const std::string &what) {
  Lookup L(P, R, name);
  if (!L.F) {
    R.fail("no function " + name);
    return;
  }
  LoopInfo &LI = L.root->LI();
  CallBase *dot = nullptr;
  for (auto *CB : L.calls([](CallBase *) { return true; })) {
    auto k = L.m(CB);
    bool last = k.second == "strrchr" || k.second == "memrchr" || (k.first == "basic_string" && (k.second == "rfind" || k.second == "find_last_of"));
    bool first = k.second == "strchr" || k.second == "index" || k.second == "strstr" || k.second == "strpbrk" || k.second == "strtok" || k.second == "memchr" ||
                 (k.first == "basic_string" && (k.second == "find" || k.second == "find_first_of"));
    if (last) {
      auto *c = CB->arg_size() > 1 ? dyn_cast<ConstantInt>(CB->getArgOperand(1)) : nullptr;
      if (c && c->getZExtValue() != '.') {
        if (c->getZExtValue() == '/' || c->getZExtValue() == '\\')
          continue; // the directory part
        R.finding("other-separator", name, whereOf(CB), what, "the suffix is looked for after another character than a dot");
      }
      dot = CB;
      R.count("searches for the last dot");
    } else if (first && !LI.getLoopFor(CB->getParent())) {
      auto *c = CB->arg_size() > 1 ? dyn_cast<ConstantInt>(CB->getArgOperand(1)) : nullptr;
      bool ok = false;
      if (!c && CB->arg_size() > 1 && constString(CB->getArgOperand(1), &ok) != ".")
        continue;
      if (c && c->getZExtValue() != '.')
        continue;
      R.finding("first-dot", name, whereOf(CB), what,
                "the suffix is taken after the first dot of the name, so a name with several dots finds no handler or a wrong one");
    }
  }
  if (!dot) {
    R.count("names whose suffix search was not recognised");
    return;
  }
  if (calleeName(dot) != "strrchr")
    return;
  // the suffix starts right after the dot
  for (auto &s : L.strings()) {
    std::vector<Value *> work{s.second.second};
    std::set<Value *> seen;
    while (!work.empty()) {
      Value *v = work.back();
      work.pop_back();
      if (!seen.insert(v).second)
        continue;
      if (auto *p = dyn_cast<PHINode>(v)) {
        for (auto &x : p->incoming_values())
          work.push_back(x.get());
      } else if (auto *se = dyn_cast<SelectInst>(v)) {
        work.push_back(se->getTrueValue());
        work.push_back(se->getFalseValue());
      } else {
        APInt off(64, 0);
        Value *base = v->stripAndAccumulateConstantOffsets(L.root->M->getDataLayout(), off, true);
        if (base == dot) {
          R.count("suffixes taken right after the dot");
          if (off != 1)
            R.finding("suffix-offset", name, whereOf(s.second.first), what, "the suffix does not start right after the dot");
        }
      }
    }
  }
}

void checkC16(Program &P, Report &R, const std::string &) {
  for (std::string kind : {"input", "output"}) {
    registrationTable(P, R, kind);
    std::string adder;
    std::string fold, tableName;
    for (auto &F : *P.M) {
      if (F.isDeclaration() || !F.getName().starts_with("at_" + kind + "_add_handler"))
        continue;
      Lookup L(P, R, F.getName().str());
      R.count("registration functions");
      bool seen = false;
      std::string f;
      keyRules(L, R, kind, f, seen);
      if (!seen)
        R.count("registrations whose key was not recognised");
      if (!f.empty())
        fold = f;
      if (GlobalVariable *G = L.table())
        tableName = G->getName().str();
      // success means that it was put in the table
      PathSearch S(*L.F, L.root->LI());
      for (auto *CB : L.calls([&](CallBase *CB) {
             auto k = L.m(CB);
             return Lookup::tableClass(k.first) && (k.second == "insert" || k.second == "emplace" || k.second == "try_emplace" ||
                                                    k.second == "operator[]" || k.second == "insert_or_assign");
           }))
        S.stops.insert(CB);
      if (S.stops.empty()) {
        R.count("registrations that were not recognised");
        continue;
      }
      for (auto &B : *L.F)
        if (auto *r = dyn_cast<ReturnInst>(B.getTerminator()))
          S.watch.push_back(r);
      Instruction *hit = S.reach(nullptr, [&](Instruction &I) {
        auto *r = dyn_cast<ReturnInst>(&I);
        if (!r || !r->getReturnValue())
          return false;
        auto v = S.eval(r->getReturnValue(), S.now);
        return v.k == PathSearch::Val::Const && v.c != 0;
      });
      if (hit)
        R.finding("not-entered", F.getName().str(), whereOf(hit), kind, "a path reports success without entering the format in the table");
    }
    std::string g = "at_" + kind + "_get_handler";
    lookup(P, R, g + "_by_suffix", kind, tableName, fold);
    lookup(P, R, g, kind, tableName, fold);
    fileName(P, R, g, kind);
    nothing(P, R, g + "_by_suffix", kind, false);
    nothing(P, R, g, kind, true);
  }
}
