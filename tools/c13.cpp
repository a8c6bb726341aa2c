// C13: every command line option takes effect on its own setting. The command
// line program is inlined (the library's interface is not), the option table is
// read, and for each option the code between two calls of getopt is explored
// with that option found.
#include "core.h"
#include "walk.h"

namespace {
struct Option {
  std::string name;
  int arg = 0;
  GlobalVariable *flag = nullptr;
  int64_t flagOffset = 0;
  int64_t val = 0;
};
std::string plain(const std::string &s) { // without separators and case
  std::string r;
  for (char c : s)
    if (isalnum((unsigned char)c))
      r += tolower((unsigned char)c);
  return r;
}
bool equalNoCase(const std::string &a, const std::string &b) {
  return StringRef(a).equals_insensitive(b);
}

struct Cli {
  Program &P;
  Report &R;
  std::unique_ptr<Root> root;
  Function *F = nullptr;
  std::vector<CallBase *> getopts;
  std::vector<Option> options;
  Value *table = nullptr, *index = nullptr;
  Constant *tableInit = nullptr;
  Cli(Program &P, Report &R) : P(P), R(R) {}

  bool prepare() {
    Prep p;
    for (auto *f : apiFunctions(P))
      p.keep.insert(f->getName().str());
    for (auto &f : *P.M) // the rest of the library's own code stays out
      if (!f.isDeclaration() && (f.getName().starts_with("_Z") || (f.getSubprogram() && f.getSubprogram()->getFilename().ends_with(".cpp"))))
        p.keep.insert(f.getName().str());
    root = P.root("main", p);
    if (!root) {
      R.fail("no main program found");
      return false;
    }
    F = root->F;
    if (getenv("DUMP"))
      F->print(errs());
    for (auto &I : instructions(*F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (calleeName(CB).starts_with("getopt_long"))
          getopts.push_back(CB);
    if (getopts.size() != 1) {
      R.fail(getopts.empty() ? "no call of getopt_long found in the program" : "several calls of getopt_long");
      return false;
    }
    CallBase *g = getopts[0];
    table = g->getArgOperand(3);
    index = g->getArgOperand(4);
    GlobalVariable *G = dyn_cast<GlobalVariable>(table);
    if (!G)
      for (auto *U : table->users())
        if (auto *mc = dyn_cast<MemCpyInst>(U))
          if (mc->getDest() == table)
            G = dyn_cast<GlobalVariable>(mc->getSource());
    if (!G || !G->hasInitializer()) {
      R.fail("the option table is not constant");
      return false;
    }
    tableInit = G->getInitializer();
    for (unsigned i = 0;; i++) {
      Constant *e = tableInit->getAggregateElement(i);
      if (!e || e->isNullValue())
        break;
      Option o;
      o.name = constString(e->getAggregateElement(0u));
      if (auto *k = dyn_cast_or_null<ConstantInt>(e->getAggregateElement(1)))
        o.arg = k->getZExtValue();
      // the remaining members: flag pointer and value, possibly with padding between
      for (unsigned j = 2; e->getAggregateElement(j); j++) {
        Constant *m = e->getAggregateElement(j);
        if (m->getType()->isPointerTy()) {
          APInt off(64, 0);
          o.flag = dyn_cast<GlobalVariable>(m->stripAndAccumulateConstantOffsets(root->M->getDataLayout(), off, true));
          o.flagOffset = off.getSExtValue();
        } else if (auto *k = dyn_cast<ConstantInt>(m))
          o.val = k->getSExtValue();
      }
      options.push_back(o);
    }
    return !options.empty();
  }

  // constant string a value is, under the walk
  static bool text(Walk &W, Value *V, std::string &s) {
    Value *f = W.fold(V);
    bool ok = false;
    s = constString(f, &ok);
    return ok;
  }
  // the walk for option i
  std::unique_ptr<Walk> walk(unsigned i) {
    auto W = std::make_unique<Walk>(*F);
    Walk *w = W.get();
    CallBase *g = getopts[0];
    const Option &o = options[i];
    const DataLayout &DL = root->M->getDataLayout();
    auto busy = std::make_shared<std::set<Value *>>();
    W->given = [this, w, g, i, &o, &DL, busy](Value *V) -> Value * {
      if (V == g)
        return ConstantInt::getSigned(g->getType(), o.flag ? 0 : o.val);
      if (auto *L = dyn_cast<LoadInst>(V)) {
        if (L->getPointerOperand() == index)
          return ConstantInt::get(L->getType(), i);
        if (!busy->insert(V).second)
          return nullptr;
        Value *base;
        int64_t off;
        Value *r = nullptr;
        if (w->offset(L->getPointerOperand(), base, off) && base == table) {
          if (auto *c = ConstantFoldLoadFromConst(tableInit, L->getType(), APInt(64, off), DL))
            r = c;
        } else if (base == index && off == 0)
          r = ConstantInt::get(L->getType(), i);
        busy->erase(V);
        return r;
      }
      if (auto *CB = dyn_cast<CallBase>(V)) {
        StringRef n = calleeName(CB);
        if ((n == "strcasecmp" || n == "strcmp" || n == "strncmp" || n == "strncasecmp" || n == "g_ascii_strcasecmp") && busy->insert(V).second) {
          std::string a, b;
          Value *r = nullptr;
          if (text(*w, CB->getArgOperand(0), a) && text(*w, CB->getArgOperand(1), b)) {
            bool fold = n.contains("case"), ok = true;
            if (CB->arg_size() > 2) {
              if (auto *k = dyn_cast<ConstantInt>(w->fold(CB->getArgOperand(2)))) {
                a = a.substr(0, k->getZExtValue());
                b = b.substr(0, k->getZExtValue());
              } else
                ok = false;
            }
            if (ok)
              r = ConstantInt::getSigned(CB->getType(), (fold ? equalNoCase(a, b) : a == b) ? 0 : (a < b ? -1 : 1));
          }
          busy->erase(V);
          return r;
        }
      }
      return nullptr;
    };
    W->stop = [g](Instruction *I) { return I == g; };
    W->run(g);
    return W;
  }

  // the object an address lies in: "at_fitting_opts_type" etc. for option structures
  std::string objectOf(Value *base) {
    if (auto *CB = dyn_cast<CallBase>(base)) {
      StringRef n = calleeName(CB);
      if (n.starts_with("at_") && n.ends_with("_opts_new"))
        return (n.drop_back(4) + "_type").str();
    }
    if (auto *p = dyn_cast<PHINode>(base)) {
      std::string r;
      for (auto &x : p->incoming_values()) {
        if (x.get() == base)
          continue;
        std::string s = objectOf(x.get());
        if (s.empty() || (!r.empty() && r != s))
          return "";
        r = s;
      }
      return r;
    }
    return "";
  }
};

// where a stored value comes from
struct Origin {
  bool argument = false;              // the option's argument
  std::set<std::string> through;      // functions it went through
  std::set<std::string> changed;      // arithmetic on the way
  std::set<int64_t> constants;
  bool other = false;
};
void origin(Walk &W, Value *V, Origin &o, std::set<Value *> &seen) {
  V = W.fold(V);
  if (!seen.insert(V).second)
    return;
  if (auto *k = dyn_cast<ConstantInt>(V)) {
    o.constants.insert(k->getSExtValue() & 0xff);
    return;
  }
  if (auto *c = dyn_cast<CastInst>(V))
    return origin(W, c->getOperand(0), o, seen);
  if (auto *l = dyn_cast<LoadInst>(V)) {
    if (auto *G = dyn_cast<GlobalVariable>(l->getPointerOperand()))
      if (G->getName() == "optarg") {
        o.argument = true;
        return;
      }
    // a value just stored by the same option
    for (Instruction *I : W.order)
      if (auto *s = dyn_cast<StoreInst>(I)) {
        Value *b1, *b2;
        int64_t o1, o2;
        if (W.offset(s->getPointerOperand(), b1, o1) && W.offset(l->getPointerOperand(), b2, o2) && b1 == b2 && o1 == o2)
          return origin(W, s->getValueOperand(), o, seen);
      }
    o.other = true;
    return;
  }
  if (auto *p = dyn_cast<PHINode>(V)) {
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      if (W.edges.count({p->getIncomingBlock(i), p->getParent()}))
        origin(W, p->getIncomingValue(i), o, seen);
    return;
  }
  if (auto *s = dyn_cast<SelectInst>(V)) {
    origin(W, s->getTrueValue(), o, seen);
    origin(W, s->getFalseValue(), o, seen);
    return;
  }
  if (auto *CB = dyn_cast<CallBase>(V)) {
    if (isa<IntrinsicInst>(CB)) {
      o.changed.insert(calleeName(CB).str());
    } else
      o.through.insert(calleeName(CB).str());
    for (auto &a : CB->args())
      if (!isa<ConstantInt>(a.get()) && !isa<ConstantPointerNull>(a.get()))
        origin(W, a.get(), o, seen);
    return;
  }
  if (auto *b = dyn_cast<Instruction>(V)) {
    if (isa<BinaryOperator>(b) || isa<UnaryOperator>(b))
      o.changed.insert(b->getOpcodeName());
    else
      o.other = true;
    for (auto &x : b->operands())
      if (!isa<ConstantInt>(x.get()))
        origin(W, x.get(), o, seen);
    return;
  }
  o.other = true;
}

bool endsProgram(const CallBase *CB) {
  StringRef n = calleeName(CB);
  return n == "exit" || n == "_exit" || n == "abort" || n == "__assert_fail";
}
bool prints(const CallBase *CB) {
  StringRef n = calleeName(CB);
  return n == "printf" || n == "fprintf" || n == "puts" || n == "fputs" || n == "putchar" || n == "fwrite" || n == "fputc";
}
} // namespace

void checkC13(Program &P, Report &R, const std::string &) {
  Cli c(P, R);
  if (!c.prepare())
    return;
  static const std::vector<std::string> structs{"at_fitting_opts_type", "at_input_opts_type", "at_output_opts_type"};
  std::map<std::string, std::vector<std::string>> fields;
  size_t nf = 0;
  for (auto &s : structs) {
    fields[s] = P.L.members(s);
    nf += fields[s].size();
  }
  if (!nf) {
    R.fail("the option structures were not found");
    return;
  }
  R.count("options", c.options.size());
  R.count("settings of the library", nf);

  std::map<std::string, int> names;
  std::set<Instruction *> attributed;
  std::map<std::string, std::set<std::string>> setBy; // setting -> options
  std::map<GlobalVariable *, std::string> flags;
  for (unsigned i = 0; i < c.options.size(); i++) {
    const Option &o = c.options[i];
    if (names[o.name]++)
      R.finding("twice", "main", "option table", o.name, "the option --" + o.name + " is in the table twice");
    auto W = c.walk(i);
    Instruction *next = c.getopts[0];
    // effects
    std::map<std::pair<std::string, std::string>, std::vector<StoreInst *>> sets; // (structure, member)
    std::vector<StoreInst *> globals;
    std::vector<CallBase *> out, ends, finds;
    bool usesArg = false;
    for (Instruction *I : W->order) {
      if (!W->stopped.count(next) && false)
        break;
      if (auto *s = dyn_cast<StoreInst>(I)) {
        Value *base;
        int64_t off;
        if (!W->offset(s->getPointerOperand(), base, off))
          base = s->getPointerOperand()->stripInBoundsOffsets();
        std::string obj = c.objectOf(base);
        if (!obj.empty()) {
          std::string m = P.L.nameAt(obj, off);
          sets[{obj, m}].push_back(s);
          attributed.insert(s);
        } else if (isa<GlobalVariable>(base))
          globals.push_back(s);
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        if (prints(CB) || calleeName(CB).contains("FormatInfo") || calleeName(CB).contains("list_formats"))
          out.push_back(CB);
        if (endsProgram(CB))
          ends.push_back(CB);
        if (calleeName(CB).contains("_get_handler"))
          finds.push_back(CB);
      } else if (auto *l = dyn_cast<LoadInst>(I)) {
        if (auto *G = dyn_cast<GlobalVariable>(l->getPointerOperand()))
          usesArg |= G->getName() == "optarg";
      }
    }
    // the branch that is common to all options (unknown options, the end) must not count: it lies on no path
    std::string want = plain(o.name);
    std::set<std::pair<std::string, std::string>> own;
    for (auto &s : structs)
      for (auto &m : fields[s])
        if (plain(m) == want)
          own.insert({s, m});
    auto where = [&](Instruction *I) { return I ? whereOf(I) : std::string("option table"); };

    if (usesArg && !o.arg)
      R.finding("no-argument", "main", "option table", o.name, "--" + o.name + " uses the argument of the option but the table says it has none");

    if (!own.empty()) {
      R.count("options that name a setting");
      bool any = false;
      for (auto &s : own)
        any |= sets.count(s) != 0;
      if (!any) {
        R.finding("ignored", "main", where(c.getopts[0]), o.name,
                  "--" + o.name + " is accepted but its setting (" + own.begin()->second + ") is not changed");
        continue;
      }
      for (auto &s : sets) {
        if (plain(s.first.second) != want) {
          R.finding("other-setting", "main", whereOf(s.second[0]), o.name,
                    "--" + o.name + " also changes the setting " + s.first.second);
          continue;
        }
        setBy[s.first.first + "." + s.first.second].insert(o.name);
        // on every path to the next option
        std::set<Instruction *> st(s.second.begin(), s.second.end());
        Walk V(*c.F);
        V.given = W->given;
        V.stop = [&](Instruction *I) { return I == next || st.count(I) || (isa<CallBase>(I) && endsProgram(cast<CallBase>(I))); };
        V.run(next);
        if (V.stopped.count(next) )
          R.finding("sometimes-ignored", "main", whereOf(s.second[0]), o.name,
                    "--" + o.name + " does not change its setting " + s.first.second + " on every path");
        for (auto *st : s.second) {
          R.count("stores of settings");
          Origin org;
          std::set<Value *> seen;
          origin(*W, st->getValueOperand(), org, seen);
          if (!o.arg) {
            if (org.argument || org.other || !org.changed.empty() || !org.through.empty() || org.constants != std::set<int64_t>{1})
              R.finding("wrong-value", "main", whereOf(st), o.name, "--" + o.name + " does not switch its setting on");
            continue;
          }
          if (!org.argument) {
            R.finding("wrong-value", "main", whereOf(st), o.name,
                      "the value stored for --" + o.name + " does not come from the option's argument");
            continue;
          }
          if (!org.changed.empty() || (org.other && !org.through.count("at_color_parse")))
            R.finding("value-changed", "main", whereOf(st), o.name,
                      "the value given with --" + o.name + " is changed (" + (org.changed.empty() ? std::string("mixed with another value") : *org.changed.begin()) +
                          ") before it is stored");
          // a setting with a fraction is read as one
          uint64_t fo, fs;
          Value *v = st->getValueOperand();
          bool frac = v->getType()->isFloatingPointTy();
          static const std::set<std::string> real{"atof", "strtod", "strtof", "strtold", "sscanf", "g_ascii_strtod"};
          if (frac) {
            bool ok = false;
            for (auto &t : org.through)
              ok |= real.count(t) != 0;
            static const std::set<std::string> whole{"atoi", "atol", "strtol", "strtoul", "atoll", "strtoll"};
            for (auto &t : org.through)
              if (whole.count(t))
                ok = false;
            if (!ok)
              R.finding("fraction-lost", "main", whereOf(st), o.name, "the number given with --" + o.name + " loses its fraction");
          }
          // narrowed on the way
          unsigned bits = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 32;
          if (v->getType()->isIntegerTy() && bits < 32)
            R.finding("value-changed", "main", whereOf(st), o.name, "the number given with --" + o.name + " is narrowed to " + std::to_string(bits) + " bits");
          std::function<bool(Value *, int)> narrowed = [&](Value *x, int d) -> bool {
            if (d > 8)
              return false;
            if (auto *t = dyn_cast<TruncInst>(x))
              if (t->getType()->getIntegerBitWidth() < 32)
                return true;
            if (auto *t = dyn_cast<CastInst>(x))
              return narrowed(t->getOperand(0), d + 1);
            return false;
          };
          if (narrowed(v, 0))
            R.finding("value-changed", "main", whereOf(st), o.name, "the number given with --" + o.name + " is narrowed before it is stored");
        }
      }
      // the background colour is needed by the reader and by the tracer
      if (own.size() > 1)
        for (auto &s : own)
          if (!sets.count(s) && plain(o.name) == "backgroundcolor")
            R.finding("ignored", "main", where(c.getopts[0]), o.name + " in " + s.first, "--" + o.name + " is not set in " + s.first);
      continue;
    }
    // options that do not name a setting of the library
    for (auto &s : sets)
      R.finding("other-setting", "main", whereOf(s.second[0]), o.name, "--" + o.name + " changes the setting " + s.first.second);
    if (o.flag) {
      R.count("options that set a flag");
      if (o.flagOffset)
        R.finding("wrong-flag", "main", "option table", o.name, "--" + o.name + " sets a part of a variable");
      uint64_t size = c.root->M->getDataLayout().getTypeAllocSize(o.flag->getValueType());
      if (size < 4)
        R.finding("flag-too-small", "main", "option table", o.name,
                  "--" + o.name + " stores a 4 byte number in " + o.flag->getName().str() + ", which has " + std::to_string(size) +
                      " byte, and so changes the variables behind it");
      if (o.val == 0)
        R.finding("wrong-value", "main", "option table", o.name, "--" + o.name + " does not switch its flag on");
      auto it = flags.find(o.flag);
      if (it != flags.end())
        R.finding("other-setting", "main", "option table", o.name, "--" + o.name + " and --" + it->second + " set the same variable");
      flags[o.flag] = o.name;
      // the flag decides something after the options were read
      bool inLibrary = false, inProgram = false;
      for (auto &Fn : *P.M)
        if (!Fn.isDeclaration())
          for (auto &I : instructions(Fn))
            if (auto *l = dyn_cast<LoadInst>(&I))
              if (auto *G = dyn_cast<GlobalVariable>(l->getPointerOperand()->stripPointerCasts()))
                if (G->getName() == o.flag->getName())
                  (commandLine(P, Fn) ? inProgram : inLibrary) = true;
      if (!inLibrary && !inProgram)
        R.finding("ignored", "main", "option table", o.name, "the variable set by --" + o.name + " is never read");
      if (want == "log" && !inLibrary)
        R.finding("wrong-flag", "main", "option table", o.name, "the variable set by --log is not the one the library looks at");
      auto controls = [&](std::function<bool(Instruction *)> what) {
        // a difference in what is reached with the flag on and off
        std::set<Instruction *> got[2];
        for (int k = 0; k < 2; k++) {
          Walk V(*c.F);
          V.given = [&](Value *x) -> Value * {
            if (auto *l = dyn_cast<LoadInst>(x))
              if (l->getPointerOperand()->stripPointerCasts() == o.flag)
                return ConstantInt::get(l->getType(), k);
            return nullptr;
          };
          V.run(nullptr);
          for (auto *I : V.reached)
            if (what(I))
              got[k].insert(I);
        }
        for (auto *I : got[1])
          if (!got[0].count(I))
            return true;
        return false;
      };
      auto decidesArgument = [&](StringRef callee, unsigned arg) {
        Value *seenV[2] = {nullptr, nullptr};
        for (int k = 0; k < 2; k++) {
          Walk V(*c.F);
          V.given = [&](Value *x) -> Value * {
            if (auto *l = dyn_cast<LoadInst>(x))
              if (l->getPointerOperand()->stripPointerCasts() == o.flag)
                return ConstantInt::get(l->getType(), k);
            return nullptr;
          };
          V.run(nullptr);
          for (auto *I : V.order)
            if (auto *CB = dyn_cast<CallBase>(I))
              if (calleeName(CB).starts_with(callee) && CB->arg_size() > arg)
                seenV[k] = V.fold(CB->getArgOperand(arg));
        }
        return seenV[0] && seenV[1] && isa<ConstantPointerNull>(seenV[0]) && isa<Function>(seenV[1]);
      };
      if (want == "reportprogress" && !decidesArgument("at_splines_new", 4))
        R.finding("wrong-flag", "main", "option table", o.name, "the variable set by --report-progress does not decide whether progress is reported");
      if (want == "debugbitmap" && !controls([](Instruction *I) {
            auto *CB = dyn_cast<CallBase>(I);
            return CB && calleeName(CB) == "fwrite";
          }))
        R.finding("wrong-flag", "main", "option table", o.name, "the variable set by --debug-bitmap does not decide whether the picture is dumped");
      if (want == "version" && out.empty())
        R.finding("ignored", "main", "option table", o.name, "--version prints nothing");
      continue;
    }
    if (want == "outputfile") {
      bool ok = false;
      for (auto *s : globals) {
        Origin org;
        std::set<Value *> seen;
        origin(*W, s->getValueOperand(), org, seen);
        if (!org.argument || !org.through.empty() || !org.changed.empty())
          continue;
        // it is the name of the file that is opened for writing
        for (auto &I : instructions(*c.F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (calleeName(CB) == "fopen")
              if (auto *l = dyn_cast<LoadInst>(CB->getArgOperand(0)))
                ok |= l->getPointerOperand() == s->getPointerOperand();
      }
      R.count("options followed to their use");
      if (!ok)
        R.finding("ignored", "main", where(c.getopts[0]), o.name, "the name given with --" + o.name + " is not the one that is opened");
      continue;
    }
    if (want == "inputformat" || want == "outputformat") {
      std::string side = want == "inputformat" ? "input" : "output";
      bool ok = false;
      for (auto *s : globals) {
        auto *CB = dyn_cast<CallBase>(W->fold(s->getValueOperand()));
        if (!CB || calleeName(CB) != "at_" + side + "_get_handler_by_suffix")
          continue;
        Origin org;
        std::set<Value *> seen;
        origin(*W, CB->getArgOperand(0), org, seen);
        if (!org.argument || !org.changed.empty() || !org.through.empty())
          continue;
        // what the file name suggests does not replace it
        for (auto &I : instructions(*c.F))
          if (auto *t = dyn_cast<StoreInst>(&I))
            if (t->getPointerOperand() == s->getPointerOperand() && !W->reached.count(t)) {
              bool guarded = false;
              for (auto &J : instructions(*c.F))
                if (auto *br = dyn_cast<BranchInst>(&J))
                  if (br->isConditional())
                    if (auto *ic = dyn_cast<ICmpInst>(br->getCondition()))
                      if (ic->isEquality() && isa<ConstantPointerNull>(ic->getOperand(1)))
                        if (auto *l = dyn_cast<LoadInst>(ic->getOperand(0)))
                          if (l->getPointerOperand() == s->getPointerOperand())
                            guarded |= c.root->DT().dominates(
                                BasicBlockEdge(br->getParent(), br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1)), t->getParent());
              // ... or of the value the variable holds
              for (auto &J : instructions(*c.F))
                if (auto *br = dyn_cast<BranchInst>(&J))
                  if (br->isConditional())
                    if (auto *ic = dyn_cast<ICmpInst>(br->getCondition()))
                      if (ic->isEquality() && isa<ConstantPointerNull>(ic->getOperand(1)))
                        if (auto *CB2 = dyn_cast<CallBase>(ic->getOperand(0)))
                          if (calleeName(CB2).contains("_get_handler"))
                            guarded |= c.root->DT().dominates(
                                BasicBlockEdge(br->getParent(), br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1)), t->getParent());
              R.count("other places that choose a format");
              if (!guarded)
                R.finding("replaced", "main", whereOf(t), o.name, "the format given with --" + o.name + " is replaced by another one");
            }
        // the handler is the one that reads or writes
        for (auto &I : instructions(*c.F))
          if (auto *U = dyn_cast<CallBase>(&I))
            if (calleeName(U) == (side == "input" ? "at_bitmap_read" : "at_splines_write")) {
              std::vector<Value *> work{U->getArgOperand(0)};
              std::set<Value *> sv;
              while (!work.empty()) {
                Value *v = work.back();
                work.pop_back();
                if (!sv.insert(v).second)
                  continue;
                if (auto *l = dyn_cast<LoadInst>(v))
                  ok |= l->getPointerOperand() == s->getPointerOperand();
                if (auto *p = dyn_cast<PHINode>(v))
                  for (auto &x : p->incoming_values())
                    work.push_back(x.get());
                if (auto *se = dyn_cast<SelectInst>(v))
                  work.push_back(se->getTrueValue()), work.push_back(se->getFalseValue());
              }
            }
      }
      R.count("options followed to their use");
      if (!ok)
        R.finding("ignored", "main", where(c.getopts[0]), o.name, "the format given with --" + o.name + " is not the one that is used");
      continue;
    }
    // the rest prints something
    if (out.empty()) {
      R.finding("ignored", "main", where(c.getopts[0]), o.name, "--" + o.name + " is accepted and does nothing");
      continue;
    }
    R.count("options that print");
    if (want == "listoutputformats" || want == "listinputformats") {
      std::string side = want == "listinputformats" ? "Input" : "Output", wrong = side == "Input" ? "Output" : "Input";
      bool ok = false, bad = false;
      for (auto *CB : out) {
        ok |= calleeName(CB).contains("print" + side + "Format");
        bad |= calleeName(CB).contains("print" + wrong + "Format");
      }
      if (bad || (!ok && calleeName(out.back()).contains("Format")))
        R.finding("wrong-list", "main", whereOf(out.back()), o.name, "--" + o.name + " prints the other list");
    }
  }
  // settings that no option asked for
  std::set<Instruction *> outside;
  for (int k = 0; k < 2; k++) { // before the options are read and after the last one
    Walk V(*c.F);
    V.given = [&](Value *x) -> Value * { return x == c.getopts[0] ? ConstantInt::getSigned(x->getType(), -1) : nullptr; };
    V.stop = [&](Instruction *I) { return I == c.getopts[0]; };
    V.run(k ? c.getopts[0] : nullptr);
    outside.insert(V.reached.begin(), V.reached.end());
  }
  for (auto *I : outside)
    if (auto *s = dyn_cast<StoreInst>(I)) {
      APInt off(64, 0);
      Value *base = s->getPointerOperand()->stripAndAccumulateConstantOffsets(c.root->M->getDataLayout(), off, true);
      std::string obj = c.objectOf(base);
      if (!obj.empty())
        R.finding("other-setting", funcOf(s), whereOf(s), P.L.nameAt(obj, off.getZExtValue()),
                  "the program changes the setting " + P.L.nameAt(obj, off.getZExtValue()) + " without the option for it");
    }
  // the settings are the ones handed to the library
  struct Hand {
    const char *callee;
    unsigned arg;
    const char *type;
  };
  for (Hand h : {Hand{"at_splines_new", 1, "at_fitting_opts_type"}, Hand{"at_bitmap_read", 2, "at_input_opts_type"},
                 Hand{"at_splines_write", 3, "at_output_opts_type"}}) {
    bool found = false;
    for (auto &I : instructions(*c.F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (calleeName(CB).starts_with(h.callee) && CB->arg_size() > h.arg) {
          found = true;
          R.count("places where settings are handed to the library");
          if (c.objectOf(CB->getArgOperand(h.arg)) != h.type)
            R.finding("not-handed-over", funcOf(CB), whereOf(CB), h.callee, std::string("the settings read from the command line are not the ones given to ") + h.callee);
        }
    if (!found)
      R.fail(std::string("the program does not call ") + h.callee);
  }
  // every setting that an option changes is looked at by the library
  std::set<std::string> read;
  auto whole = P.whole();
  for (auto &Fn : *whole->M) {
    if (Fn.isDeclaration() || !Fn.getSubprogram() || Fn.getName().contains("_opts_"))
      continue;
    if (Function *orig = P.M->getFunction(Fn.getName()))
      if (commandLine(P, *orig))
        continue;
    std::map<Argument *, const DIType *> types; // as declared
    for (auto &I : instructions(Fn))
      if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I))
        if (dv->getVariable()->getArg() && dv->getNumVariableLocationOps() == 1)
          if (auto *A = dyn_cast_or_null<Argument>(dv->getVariableLocationOp(0)))
            types.insert({A, dv->getVariable()->getType()});
    for (auto &ty : types) {
      auto *d = dyn_cast_or_null<DIDerivedType>(ty.second);
      if (!d || d->getTag() != dwarf::DW_TAG_pointer_type)
        continue;
      const DIType *t = d->getBaseType();
      std::string st;
      while (t && st.empty()) {
        for (auto &s : structs)
          if (t->getName() == s || t->getName() == "_" + s)
            st = s;
        auto *td = dyn_cast<DIDerivedType>(t);
        t = td ? td->getBaseType() : nullptr;
      }
      if (st.empty())
        continue;
      for (auto &I : instructions(Fn))
        if (auto *l = dyn_cast<LoadInst>(&I)) {
          APInt off(64, 0);
          if (l->getPointerOperand()->stripAndAccumulateConstantOffsets(whole->M->getDataLayout(), off, true) == ty.first) {
            R.count("reads of settings in the library");
            read.insert(st + "." + P.L.nameAt(st, off.getZExtValue()));
          }
        }
    }
  }
  std::map<std::string, bool> optionRead;
  for (auto &s : setBy)
    for (auto &o : s.second)
      optionRead[o] |= read.count(s.first) != 0;
  for (auto &o : optionRead) {
    R.count("settings looked at by the library");
    if (!o.second)
      R.finding("never-read", "main", "option table", o.first, "nothing in the library reads the setting of --" + o.first);
  }
}
