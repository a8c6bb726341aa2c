// C15: options survive the trip through JSON and copying. The constructor that
// takes JSON and the function that makes JSON of an option class are inlined
// down to the calls of the JSON library and of the containers. Labels (key,
// member, byte of the member) are carried from where they enter to where they
// come together: every member must meet the key of its name, in full width,
// for every legal value, and keep its default without the key. Copying
// functions are inlined too, and each member's last assignment must take the
// same member of the original.
#include "core.h"
#include "paths.h"
#include <llvm/IR/IRBuilder.h>
#include "llvm/Demangle/Demangle.h"

namespace {
typedef std::set<std::string> Labels;

struct Leaf {
  std::string owner, path; // option struct it belongs to, member names inside it
  int64_t off = 0, inner = -1; // place in the object, place behind the pointer kept there
  int64_t size = 0;
  char kind = 'i'; // i integer, f floating point, b boolean, p pointer
  std::string label(int k) const { return owner + "." + path + "#" + std::to_string(k); }
  std::string name() const { return owner + "." + path; }
};

// what belongs to the program itself and what only passes values on
bool transparent(const Function &F) {
  auto *SP = F.getSubprogram();
  if (SP) {
    std::string file = (SP->getFile() ? SP->getFile()->getDirectory() + "/" + SP->getFile()->getFilename() : Twine("")).str();
    if (SP->getFile() && SP->getFile()->getFilename().starts_with("/"))
      file = SP->getFile()->getFilename().str();
    if (file.find("json11") != std::string::npos)
      return false;
    if (file.find("/usr/") == std::string::npos)
      return true;
  }
  StringRef n = F.getName();
  if (n.consume_front("_ZNK") || n.consume_front("_ZN")) {
    n.consume_front("R") || n.consume_front("O");
    for (auto *s : {"St8optional", "St14_Optional", "St22_Optional", "St17_Optional", "St19_Optional"})
      if (n.starts_with(s))
        return true;
    return false;
  }
  for (auto *s : {"_ZSt7forward", "_ZSt4move", "_ZStgt", "_ZStlt", "_ZSteqI", "_ZStneI", "_ZStle", "_ZStge", "_ZSt9addressof", "_ZSt11__addressof", "_ZSt10_Construct",
                  "_ZSt4swap", "_ZSt8exchange", "_ZSt10__exchange", "_ZSt5clamp", "_ZSt3min", "_ZSt3max", "_ZSt8as_const", "_ZNSt8as_const"})
    if (n.starts_with(s))
      return n.find("_Rb_tree") == StringRef::npos && n.find("basic_string") == StringRef::npos;
  return false;
}

std::string typeName(const DIType *T) {
  while (T) {
    if (auto *d = dyn_cast<DIDerivedType>(T)) {
      if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_member)
        break;
      if (d->getTag() == dwarf::DW_TAG_typedef && !stripTypedefs(d))
        return d->getName().str();
      T = d->getBaseType();
      continue;
    }
    return T->getName().str();
  }
  return "";
}
const DIType *bare(const DIType *T) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = d->getTag();
    if (t != dwarf::DW_TAG_typedef && t != dwarf::DW_TAG_const_type && t != dwarf::DW_TAG_volatile_type && t != dwarf::DW_TAG_reference_type)
      break;
    T = d->getBaseType();
  }
  return T;
}

// A flag kept behind an object (as in an optional) that calls get by reference
// becomes a variable of its own where the calls are told how much they may touch.
void splitFlags(Root &r) {
  auto &DL = r.M->getDataLayout();
  std::vector<AllocaInst *> as;
  for (auto &I : instructions(*r.F))
    if (auto *A = dyn_cast<AllocaInst>(&I))
      as.push_back(A);
  for (auto *A : as) {
    struct Use_ { Instruction *I; int64_t off, size; };
    std::vector<Use_> plain;
    std::vector<std::pair<int64_t, int64_t>> touched;
    bool ok = true;
    std::function<void(Value *, int64_t)> walk = [&](Value *v, int64_t off) {
      for (auto *u : v->users()) {
        if (auto *g = dyn_cast<GetElementPtrInst>(u)) {
          APInt x(64, 0);
          if (!g->accumulateConstantOffset(DL, x))
            ok = false;
          else
            walk(g, off + x.getSExtValue());
        } else if (auto *L = dyn_cast<LoadInst>(u))
          plain.push_back({L, off, (int64_t)DL.getTypeStoreSize(L->getType())});
        else if (auto *S = dyn_cast<StoreInst>(u)) {
          if (S->getValueOperand() == v)
            ok = false;
          else
            plain.push_back({S, off, (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType())});
        } else if (auto *M = dyn_cast<MemIntrinsic>(u)) {
          auto *n = dyn_cast<ConstantInt>(M->getLength());
          touched.push_back({off, n ? off + (int64_t)n->getZExtValue() : INT64_MAX});
        } else if (isa<DbgInfoIntrinsic>(u) || (isa<IntrinsicInst>(u) && cast<IntrinsicInst>(u)->isLifetimeStartOrEnd()))
          continue;
        else if (auto *C = dyn_cast<CallBase>(u)) {
          for (auto &a : C->args())
            if (a.get() == v) {
              uint64_t n = C->getParamDereferenceableBytes(C->getArgOperandNo(&a));
              if (auto *T = C->getParamStructRetType(C->getArgOperandNo(&a)))
                n = DL.getTypeAllocSize(T);
              if (!n)
                ok = false;
              touched.push_back({off, off + (int64_t)n});
            }
        } else
          ok = false;
      }
    };
    walk(A, 0);
    if (!ok || touched.empty())
      continue;
    std::map<std::pair<int64_t, int64_t>, std::vector<Instruction *>> cells;
    for (auto &p : plain)
      cells[{p.off, p.size}].push_back(p.I);
    for (auto &c : cells) {
      int64_t a = c.first.first, b = a + c.first.second;
      bool own = true;
      for (auto &t : touched)
        own &= t.second <= a || t.first >= b;
      for (auto &o : cells)
        own &= &o == &c || o.first.first >= b || o.first.first + o.first.second <= a;
      if (!own)
        continue;
      auto *N = new AllocaInst(IntegerType::get(r.M->getContext(), 8 * (b - a)), 0, A->getName() + ".flag", A);
      for (auto *I : c.second)
        I->setOperand(isa<StoreInst>(I) ? 1 : 0, N);
    }
  }
  r.run("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)");
  r.FAM.clear();
}

struct C15 {
  Program &P;
  Report &R;
  Prep prep;
  std::set<std::string> structs; // option structs, by tag
  C15(Program &P, Report &R) : P(P), R(R) {}

  const DICompositeType *whole(const DIType *T) {
    T = bare(T);
    auto *c = dyn_cast_or_null<DICompositeType>(T);
    if (c && c->isForwardDecl()) {
      auto it = P.L.byName.find(c->getName().str());
      if (it != P.L.byName.end())
        return it->second;
    }
    return c;
  }
  void leaves(const DICompositeType *T, int64_t at, std::string owner, std::string prefix, int64_t via, std::vector<Leaf> &out) {
    if (!T)
      return;
    if (structs.count(T->getName().str())) {
      owner = T->getName().str();
      prefix = "";
    }
    for (auto *e : T->getElements()) {
      auto *m = dyn_cast<DIDerivedType>(e);
      if (!m || m->isStaticMember())
        continue;
      int64_t off = at + m->getOffsetInBits() / 8;
      auto *t = bare(m->getBaseType());
      if (m->getTag() == dwarf::DW_TAG_inheritance) {
        leaves(whole(t), off, owner, prefix, via, out);
        continue;
      }
      if (m->getTag() != dwarf::DW_TAG_member || m->getName().starts_with("_vptr"))
        continue;
      std::string path = prefix + (prefix.empty() ? "" : ".") + m->getName().str();
      if (auto *c = whole(t)) {
        if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type) {
          leaves(c, off, owner, path, via, out);
          continue;
        }
      }
      if (owner.empty())
        continue;
      Leaf l;
      l.owner = owner;
      l.path = path;
      if (via >= 0)
        l.off = via, l.inner = off;
      else
        l.off = off;
      l.size = t ? t->getSizeInBits() / 8 : 0;
      if (auto *b = dyn_cast_or_null<DIBasicType>(t)) {
        l.kind = b->getEncoding() == dwarf::DW_ATE_float ? 'f' : b->getEncoding() == dwarf::DW_ATE_boolean ? 'b' : 'i';
      } else if (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type) {
          l.kind = 'p';
          l.size = 8;
          out.push_back(l);
          if (via < 0)
            leaves(whole(d->getBaseType()), 0, owner, path, off, out);
          continue;
        }
      }
      out.push_back(l);
    }
  }

  // ---- labels ----
  struct Flow {
    C15 &c;
    Root &r;
    Function &F;
    std::map<Value *, std::vector<Leaf>> objects; // what a pointer argument refers to
    std::map<Value *, std::string> side;          // prefix of the labels of its members
    std::map<Value *, std::vector<Labels>> val;   // per byte
    std::map<std::tuple<Value *, int64_t, int64_t>, Labels> mem; // base, offset behind (-1: the object itself), byte
    bool changed = false;
    Flow(C15 &c, Root &r) : c(c), r(r), F(*r.F) {}
    const DataLayout &DL() { return F.getParent()->getDataLayout(); }

    struct Place {
      Value *base = nullptr;
      int64_t via = -1; // behind the pointer kept at this offset
      int64_t off = 0;
      bool exact = true;
    };
    std::map<Value *, std::pair<Value *, int64_t>> keptAt; // allocation -> member it is stored in
    Place place(Value *V, int depth = 0) {
      Place p;
      APInt o(64, 0);
      Value *b = V;
      while (true) {
        if (auto *g = dyn_cast<GEPOperator>(b)) {
          APInt x(64, 0);
          if (g->accumulateConstantOffset(DL(), x))
            p.off += x.getSExtValue();
          else
            p.exact = false;
          b = g->getPointerOperand();
        } else if (auto *f = dyn_cast<FreezeInst>(b))
          b = f->getOperand(0);
        else
          break;
      }
      p.base = b;
      if (depth > 3)
        return p;
      auto k = keptAt.find(b);
      if (k != keptAt.end()) {
        p.base = k->second.first;
        p.via = k->second.second;
      } else if (auto *L = dyn_cast<LoadInst>(b)) {
        Place q = place(L->getPointerOperand(), depth + 1);
        if (q.via < 0 && q.exact && objects.count(q.base)) {
          p.base = q.base;
          p.via = q.off;
        }
      }
      return p;
    }
    const Leaf *leafAt(const Place &p, int64_t at) {
      auto it = objects.find(p.base);
      if (it == objects.end())
        return nullptr;
      for (auto &l : it->second)
        if (p.via < 0 ? l.inner < 0 && at >= l.off && at < l.off + l.size : l.off == p.via && l.inner >= 0 && at >= l.inner && at < l.inner + l.size)
          return &l;
      return nullptr;
    }
    Labels read(const Place &p, int64_t at) {
      Labels s;
      auto it = mem.find({p.base, p.via, at});
      if (it != mem.end())
        s = it->second;
      if (auto *l = leafAt(p, at)) {
        auto sd = side.find(p.base);
        if (sd != side.end())
          s.insert(sd->second + l->label(at - (p.via < 0 ? l->off : l->inner)));
        else if (p.via >= 0) {
          // through a pointer that is still that of the original
          auto q = mem.find({p.base, -1, p.via});
          if (q != mem.end() && !some(q->second, "from:").empty())
            s.insert("from:" + l->label(at - l->inner));
        }
      }
      return s;
    }
    void add(Labels &to, const Labels &from) {
      for (auto &x : from)
        changed |= to.insert(x).second;
    }
    unsigned bytesOf(Type *T) { return T->isSized() ? std::min<uint64_t>(64, DL().getTypeStoreSize(T)) : 0; }
    std::vector<Labels> &at(Value *V) {
      auto &v = val[V];
      v.resize(std::max<size_t>(v.size(), std::max(1u, bytesOf(V->getType()))));
      return v;
    }
    Labels all(Value *V) {
      Labels s;
      if (isa<Constant>(V)) {
        bool ok = false;
        std::string str = V->getType()->isPointerTy() ? constString(V, &ok) : "";
        if (ok)
          s.insert("key:" + str);
        return s;
      }
      for (auto &x : at(V))
        s.insert(x.begin(), x.end());
      return s;
    }
    // the value itself and the memory it refers to
    Labels reach(Value *V) {
      Labels s = all(V);
      if (!V->getType()->isPointerTy() || isa<Constant>(V))
        return s;
      Place p = place(V);
      if (objects.count(p.base)) {
        if (leafAt(p, p.off))
          s.clear();
        if (auto *l = leafAt(p, p.off))
          for (int k = 0; k < l->size; k++) {
            auto x = read(p, (p.via < 0 ? l->off : l->inner) + k);
            s.insert(x.begin(), x.end());
          }
        return s;
      }
      for (auto it = mem.lower_bound({p.base, p.via, INT64_MIN}); it != mem.end() && std::get<0>(it->first) == p.base && std::get<1>(it->first) == p.via; ++it)
        s.insert(it->second.begin(), it->second.end());
      return s;
    }
    void write(Value *ptr, int64_t k, const Labels &s) {
      Place p = place(ptr);
      if (s.empty())
        return;
      add(mem[{p.base, p.via, p.exact ? p.off + k : 0}], s);
    }
    static std::string name(const CallBase *CB) { return calleeOf(CB) ? demangle(calleeOf(CB)->getName().str()) : ""; }
    // the name of the method itself, without class and parameters
    static std::string method(const CallBase *CB) {
      if (!calleeOf(CB))
        return "";
      ItaniumPartialDemangler d;
      std::string n = calleeOf(CB)->getName().str();
      if (d.partialDemangle(n.c_str()))
        return n;
      size_t len = 0;
      char *b = d.getFunctionBaseName(nullptr, &len);
      std::string r = b ? b : "";
      free(b);
      return r;
    }
    static bool ctor(const CallBase *CB) {
      if (!calleeOf(CB))
        return false;
      ItaniumPartialDemangler d;
      return !d.partialDemangle(calleeOf(CB)->getName().str().c_str()) && d.isCtorOrDtor() && name(CB).find("::~") == std::string::npos;
    }
    static bool dtor(const CallBase *CB) { return name(CB).find("::~") != std::string::npos; }
    struct Meeting {
      CallBase *at;
      Labels keys, members;
      Value *value;
    };
    std::vector<Meeting> meetings;

    void step(Instruction &I) {
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        Place p = place(L->getPointerOperand());
        auto &v = at(&I);
        Labels q;
        if (!objects.count(p.base))
          q = all(L->getPointerOperand());
        for (unsigned k = 0; k < v.size(); k++) {
          if (p.exact)
            add(v[k], read(p, p.off + k));
          else
            add(v[k], reach(L->getPointerOperand()));
          add(v[k], q);
        }
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        Value *x = S->getValueOperand();
        if (isa<Constant>(x)) {
          Labels s = all(x);
          write(S->getPointerOperand(), 0, s);
        } else {
          auto v = at(x);
          for (unsigned k = 0; k < v.size(); k++)
            write(S->getPointerOperand(), k, v[k]);
          if (x->getType()->isPointerTy() && isa<AllocaInst>(place(x).base) && place(x).base != place(S->getPointerOperand()).base)
            write(S->getPointerOperand(), 0, reach(x));
        }
      } else if (auto *M = dyn_cast<MemTransferInst>(&I)) {
        Place s = place(M->getRawSource());
        auto *n = dyn_cast<ConstantInt>(M->getLength());
        if (s.exact && n && n->getZExtValue() < 4096)
          for (uint64_t k = 0; k < n->getZExtValue(); k++)
            write(M->getRawDest(), k, read(s, s.off + k));
        bool ok = false;
        std::string str = constString(M->getRawSource(), &ok);
        if (ok)
          write(M->getRawDest(), 0, {"key:" + str});
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB) || dtor(CB))
          return;
        Labels s;
        bool mutates = false;
        std::string m = method(CB);
        bool holds = ctor(CB) || m == "operator=" || StringRef(m).starts_with("emplace") || StringRef(m).starts_with("insert") || m == "operator[]" || m == "try_emplace";
        bool sret = CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet);
        std::vector<Labels> as;
        for (auto &a : CB->args())
          as.push_back(reach(a.get()));
        for (unsigned k = 0; k < as.size(); k++)
          if (!(k == 0 && (sret || holds)))
            s.insert(as[k].begin(), as[k].end());
        if (CB->arg_size() && (holds || sret) && CB->getArgOperand(0)->getType()->isPointerTy())
          write(CB->getArgOperand(0), 0, s);
        if (m == "int_value" || m == "number_value" || m == "bool_value" || m == "string_value")
          s.insert("get:" + m);
        if (m == "operator[]") // the place of the key
          for (unsigned k = 1; k < as.size(); k++)
            s.insert(as[k].begin(), as[k].end());
        if (!CB->getType()->isVoidTy()) {
          auto &v = at(CB);
          if (StringRef(m).ends_with("_value"))
            for (unsigned k = 0; k < v.size(); k++) {
              add(v[k], s);
              add(v[k], {"part#" + std::to_string(k)});
            }
          else
            for (auto &x : v)
              add(x, s);
        }
        (void)mutates;
      } else if (isa<PHINode>(I) || isa<SelectInst>(I)) {
        auto &v = at(&I);
        for (unsigned i = isa<SelectInst>(I) ? 1 : 0; i < I.getNumOperands(); i++) {
          Value *x = I.getOperand(i);
          if (isa<Constant>(x)) {
            add(v[0], all(x));
            continue;
          }
          auto w = at(x);
          for (unsigned k = 0; k < v.size() && k < w.size(); k++)
            add(v[k], w[k]);
        }
      } else if (auto *C = dyn_cast<CastInst>(&I)) {
        auto w = at(C->getOperand(0));
        auto &v = at(&I);
        if (isa<ZExtInst>(C) || isa<TruncInst>(C) || isa<BitCastInst>(C) || isa<SExtInst>(C) || isa<PtrToIntInst>(C) || isa<IntToPtrInst>(C)) {
          for (unsigned k = 0; k < v.size() && k < w.size(); k++)
            add(v[k], w[k]);
        } else {
          Labels s = all(C->getOperand(0));
          if (!isa<FPExtInst>(C) && !isa<FPTruncInst>(C) && !s.empty())
            s.insert("converted");
          for (auto &x : v)
            add(x, s);
        }
      } else if (auto *B = dyn_cast<BinaryOperator>(&I)) {
        auto &v = at(&I);
        auto *c = dyn_cast<ConstantInt>(B->getOperand(1));
        auto w = at(B->getOperand(0));
        int64_t sh = c && c->getValue().getActiveBits() <= 32 ? (int64_t)c->getZExtValue() : -1;
        if (B->getOpcode() == Instruction::Or && !c) {
          auto u = at(B->getOperand(1));
          for (unsigned k = 0; k < v.size(); k++) {
            add(v[k], w[k]);
            if (k < u.size())
              add(v[k], u[k]);
          }
        } else if (c && B->getOpcode() == Instruction::Shl && sh % 8 == 0) {
          for (unsigned k = 0; k < v.size(); k++)
            if (k >= sh / 8)
              add(v[k], w[k - sh / 8]);
        } else if (c && B->getOpcode() == Instruction::LShr && sh % 8 == 0) {
          for (unsigned k = 0; k < v.size(); k++)
            if (k + sh / 8 < w.size())
              add(v[k], w[k + sh / 8]);
        } else if (c && (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::Xor)) {
          for (unsigned k = 0; k < v.size(); k++) {
            uint64_t byte = k < 8 ? c->getValue().zextOrTrunc(64).lshr(8 * k).getLoBits(8).getZExtValue() : 0;
            if (B->getOpcode() != Instruction::And || byte)
              add(v[k], w[k]);
          }
        } else {
          Labels s = all(B->getOperand(0)), t = all(B->getOperand(1));
          s.insert(t.begin(), t.end());
          if (!s.empty())
            s.insert("computed");
          for (auto &x : v)
            add(x, s);
        }
      } else if (isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I) || isa<UnaryOperator>(I) || isa<CmpInst>(I)) {
        Labels s;
        for (auto &o : I.operands()) {
          auto t = all(o.get());
          s.insert(t.begin(), t.end());
        }
        for (auto &x : at(&I))
          add(x, s);
      } else if (isa<GetElementPtrInst>(I)) {
        Labels s = all(cast<GetElementPtrInst>(I).getPointerOperand());
        for (auto &x : at(&I))
          add(x, s);
      }
    }
    void run() {
      for (auto &I : instructions(F))
        if (auto *S = dyn_cast<StoreInst>(&I))
          if (auto *C = dyn_cast<CallBase>(S->getValueOperand())) {
            Place p = place(S->getPointerOperand());
            if (objects.count(p.base) && p.via < 0 && p.exact && !side.count(p.base))
              keptAt[C] = {p.base, p.off};
          }
      int rounds = 0;
      do {
        changed = false;
        for (auto &I : instructions(F))
          step(I);
      } while (changed && ++rounds < 60);
      if (changed)
        c.R.fail("labels do not settle in " + F.getName().str());
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(CB) || dtor(CB))
            continue;
          std::string m = method(CB);
          bool assign = m == "operator=";
          std::vector<Labels> as;
          for (unsigned k = 0; k < CB->arg_size(); k++) {
            if (k == 0 && (assign ? false : ctor(CB) || CB->paramHasAttr(0, Attribute::StructRet) || StringRef(m).starts_with("emplace") || m == "insert")) {
              as.push_back({});
              continue;
            }
            as.push_back(k == 0 && assign ? all(CB->getArgOperand(0)) : reach(CB->getArgOperand(k)));
          }
          auto keysOf = [&](const Labels &s) {
            Labels r;
            for (auto &x : s)
              if (StringRef(x).starts_with("key:"))
                r.insert(x.substr(4));
            return r;
          };
          auto membersOf = [&](const Labels &s) {
            Labels r;
            for (auto &x : s)
              if (StringRef(x).starts_with("from:"))
                r.insert(x);
            return r;
          };
          for (unsigned k = 0; k < as.size(); k++)
            for (unsigned j = 0; j < as.size(); j++)
              if (j != k && !keysOf(as[k]).empty() && membersOf(as[k]).empty() && !membersOf(as[j]).empty()) {
                Labels ms = as[j];
                meetings.push_back({CB, keysOf(as[k]), ms, CB->getArgOperand(j)});
              }
        }
    }
  };
  static Labels some(const Labels &s, StringRef prefix) {
    Labels r;
    for (auto &x : s)
      if (StringRef(x).starts_with(prefix))
        r.insert(x.substr(prefix.size()));
    return r;
  }
  static std::vector<std::string> parts(const std::string &p) {
    std::vector<std::string> r;
    SmallVector<StringRef, 4> v;
    StringRef(p).split(v, '.');
    for (auto x : v)
      r.push_back(x.str());
    return r;
  }
  static bool named(const std::string &key, const std::string &member) { return key == member || (member.size() == 1 && StringRef(key).starts_with(member)); }
  static std::string join(const Labels &s) {
    std::string r;
    for (auto &x : s)
      r += (r.empty() ? "" : ", ") + x;
    return r;
  }

  struct Class {
    std::string name;
    const DICompositeType *type = nullptr;
    Function *reader = nullptr, *writer = nullptr, *maker = nullptr;
  };
  // what a place in the code stores into a member
  struct Write {
    Instruction *at;
    Value *value; // null: copied from elsewhere or filled
  };

  void trip(const Class &k) {
    if (getenv("CLS") && k.name != getenv("CLS"))
      return;
    std::vector<Leaf> ls;
    leaves(k.type, 0, "", "", -1, ls);
    size_t scalars = 0;
    for (auto &l : ls)
      scalars += l.kind != 'p';
    if (!scalars) {
      R.fail("no options found in " + k.name);
      return;
    }
    R.count("options", scalars);
    // making JSON
    auto w = P.root(k.writer->getName().str(), prep);
    Flow fw(*this, *w);
    {
      Argument *self = nullptr;
      for (auto &a : w->F->args())
        if (a.getName() == "this")
          self = &a;
      if (!self) {
        R.fail("no object found in " + k.name + "'s JSON writer");
        return;
      }
      fw.objects[self] = ls;
      fw.side[self] = "from:";
    }
    fw.run();
    std::map<std::string, std::string> written; // member -> key
    std::map<std::string, char> kindOf;         // key -> n, b, s
    std::set<std::string> computed;
    long mixed = 0;
    for (auto &m : fw.meetings) {
      std::map<std::string, std::set<int>> ms;
      for (auto &x : some(m.members, "from:")) {
        auto c = StringRef(x).split('#');
        ms[c.first.str()].insert(atoi(c.second.str().c_str()));
      }
      R.count("meetings of a key and a member's value");
      if (m.keys.size() != 1) {
        mixed++;
        continue;
      }
      std::string key = *m.keys.begin();
      std::set<std::string> tops;
      for (auto &x : ms)
        tops.insert(x.first);
      if (tops.size() == 1) {
        const Leaf *l = nullptr;
        for (auto &x : ls)
          if (x.name() == *tops.begin())
            l = &x;
        if (!l || l->kind == 'p')
          continue;
        auto ps = parts(l->path);
        if (some(m.members, "key:").size()) { // an object that holds a single member
          if (ps.size() > 1 && !named(key, ps[0]))
            R.finding("misnamed", k.name, whereOf(m.at), l->path, "the option " + l->path + " is written under the name \"" + key + "\"");
          continue;
        }
        R.sample(k.name + ": " + l->path + " written as \"" + key + "\"");
        if (!named(key, ps.back()))
          R.finding("misnamed", k.name, whereOf(m.at), l->path, "the option " + l->path + " is written under the name \"" + key + "\"");
        written[l->path] = key;
        if (l->kind == 'f' && m.members.count("converted"))
          R.finding("narrowed", k.name, whereOf(m.at), l->path, "the option " + l->path + " loses its fraction when it is written");
        if (l->kind != 'f' && !m.members.count("converted") && (int)ms[*tops.begin()].size() < l->size)
          R.finding("narrowed", k.name, whereOf(m.at), l->path, "only part of the option " + l->path + " is written");
        if (m.members.count("computed"))
          computed.insert(l->path);
        // number or boolean
        std::string n = Flow::name(m.at);
        size_t own = n.rfind("::" + Flow::method(m.at));
        n = own == std::string::npos ? n : n.substr(own);
        char kd = 0;
        Type *vt = m.value->getType();
        if (vt->isIntegerTy(1))
          kd = 'b';
        else if (vt->isIntegerTy() || vt->isFloatingPointTy())
          kd = 'n';
        else if (StringRef(Flow::method(m.at)).starts_with("emplace") || StringRef(Flow::method(m.at)).starts_with("insert") || Flow::ctor(m.at)) {
          if (n.find(", bool") != std::string::npos)
            kd = 'b';
          else if (n.find(", int") != std::string::npos || n.find(", double") != std::string::npos || n.find(", float") != std::string::npos || n.find(", unsigned") != std::string::npos)
            kd = 'n';
          else if (n.find(", std::__cxx11::basic_string") != std::string::npos && n.find("Json>") == std::string::npos)
            kd = 's';
        }
        if (kd)
          kindOf[l->path] = kd;
      } else {
        // an object that holds several
        std::set<std::string> firsts;
        for (auto &t : tops) {
          size_t d = t.find('.'); // owner
          std::string p = t.substr(d + 1);
          firsts.insert(parts(p)[0]);
        }
        if (firsts.size() == 1 && !named(key, *firsts.begin()))
          R.finding("misnamed", k.name, whereOf(m.at), *firsts.begin(), "the option " + *firsts.begin() + " is written under the name \"" + key + "\"");
        else if (firsts.size() != 1)
          mixed++;
      }
    }
    // taking JSON
    auto r = P.root(k.reader->getName().str(), prep);
    splitFlags(*r);
    Flow fr(*this, *r);
    Argument *self = nullptr;
    for (auto &a : r->F->args())
      if (a.getName() == "this")
        self = &a;
    if (!self) {
      R.fail("no object found in " + k.name + "'s JSON reader");
      return;
    }
    fr.objects[self] = ls;
    fr.run();
    std::map<std::string, std::vector<StoreInst *>> stores;
    std::map<std::string, Labels> keysOf;
    std::map<std::string, std::vector<Instruction *>> sets; // everything that assigns a member
    long readMixed = 0;
    for (auto &I : instructions(*r->F)) {
      if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
        auto p = fr.place(M->getRawDest());
        auto *n = dyn_cast<ConstantInt>(M->getLength());
        if (fr.objects.count(p.base) && n)
          for (auto &l : ls) {
            int64_t a = l.inner < 0 ? l.off : l.inner;
            if ((l.inner < 0 ? p.via < 0 : p.via == l.off) && p.off <= a && a + l.size <= p.off + (int64_t)n->getZExtValue())
              sets[l.path].push_back(&I);
          }
        continue;
      }
      auto *S = dyn_cast<StoreInst>(&I);
      if (!S)
        continue;
      auto p = fr.place(S->getPointerOperand());
      if (!fr.objects.count(p.base))
        continue;
      if (!p.exact) {
        readMixed++;
        continue;
      }
      auto *l = fr.leafAt(p, p.off);
      if (!l)
        continue;
      sets[l->path].push_back(S);
      if (isa<Constant>(S->getValueOperand()) || l->kind == 'p')
        continue;
      auto v = fr.at(S->getValueOperand());
      Labels s = fr.all(S->getValueOperand());
      Labels ks = some(s, "key:");
      if (ks.empty())
        continue;
      R.count("members set from JSON");
      auto ps = parts(l->path);
      size_t fit = 0;
      for (auto &x : ps)
        for (auto &key : ks)
          if (named(key, x)) {
            fit++;
            break;
          }
      if (ks.size() > ps.size()) {
        readMixed++;
        if (fit == ps.size())
          continue;
      }
      R.sample(k.name + ": " + l->path + " read from " + join(ks));
      if (fit != ps.size())
        R.finding("misnamed", k.name, whereOf(S), l->path, "the option " + l->path + " is read from the name " + join(ks));
      stores[l->path].push_back(S);
      keysOf[l->path] = ks;
      Labels gs = some(s, "get:");
      if (l->kind == 'f' && (s.count("converted") || gs.count("int_value")))
        R.finding("narrowed", k.name, whereOf(S), l->path, "the option " + l->path + " loses its fraction when it is read");
      if (l->kind == 'i' && !s.count("converted") && gs.count("int_value")) {
        size_t have = 0;
        for (int b = 0; b < l->size && b < (int)v.size(); b++)
          have += v[b].count("part#" + std::to_string(b));
        if ((int)have < std::min<int>(l->size, 4))
          R.finding("narrowed", k.name, whereOf(S), l->path, "only part of the option " + l->path + " is read");
      }
      if (s.count("computed") != computed.count(l->path) && written.count(l->path))
        R.finding("changed", k.name, whereOf(S), l->path, "the option " + l->path + " is computed with on one side of the trip only");
    }
    if (getenv("DUMP"))
      r->F->print(errs());
    if (mixed || readMixed)
      R.count("meetings that could not be told apart", mixed + readMixed);
    for (auto &l : ls) {
      if (l.kind == 'p')
        continue;
      if (!mixed && !written.count(l.path))
        R.finding("unwritten", k.name, k.name, l.path, "the option " + l.path + " is not written to JSON");
      if (!readMixed && !stores.count(l.path))
        R.finding("unread", k.name, k.name, l.path, "the option " + l.path + " is not read from JSON");
    }
    // defaults, and every legal value
    auto &LI = r->FAM.getResult<LoopAnalysis>(*r->F);
    auto ret = [](Instruction &I) { return isa<ReturnInst>(I); };
    auto asks = [&](Value *V, const Labels &ks, bool &ne, bool missing) { // is the key there?
      auto *CB = dyn_cast<CallBase>(V);
      if (!CB || !CB->getType()->isIntegerTy(1))
        return false;
      std::string m = Flow::method(CB);
      bool typed = missing && StringRef(m).starts_with("is_"); // what is not there is null
      if (!typed && m != "operator!=" && m != "operator==" && m != "contains")
        return false;
      ne = m != "operator==" && m != "is_null";
      auto s = some(fr.all(CB), "key:");
      return !s.empty() && std::includes(ks.begin(), ks.end(), s.begin(), s.end());
    };
    std::set<std::string> done;
    for (auto &l : ls) {
      if (l.kind == 'p')
        continue;
      PathSearch S(*r->F, LI);
      for (auto *I : sets[l.path])
        S.stops.insert(I);
      if (Instruction *hit = S.reach(nullptr, ret))
        if (!readMixed)
          R.finding("default", k.name, whereOf(hit), l.path, "the option " + l.path + " has no value if it is missing from the JSON");
      R.count("defaults checked");
      if (!stores.count(l.path))
        continue;
      const Labels &ks = keysOf[l.path];
      {
        PathSearch M(*r->F, LI);
        M.given = [&](Value *V, int64_t &c) {
          bool ne;
          if (asks(V, ks, ne, true)) {
            c = !ne;
            return true;
          }
          return false;
        };
        for (auto *st : stores[l.path])
          M.watch.push_back(st);
        std::set<Instruction *> goal(stores[l.path].begin(), stores[l.path].end());
        M.prepare();
        if (Instruction *hit = M.reach(nullptr, [&](Instruction &I) {
              if (!goal.count(&I))
                return false;
              Value *v = cast<StoreInst>(I).getValueOperand();
              auto e = M.eval(v, M.now);
              if (e.k == PathSearch::Val::Const)
                for (auto *d : sets[l.path])
                  if (auto *ds = dyn_cast<StoreInst>(d))
                    if (auto *dc = dyn_cast<ConstantInt>(ds->getValueOperand()))
                      if (dc->getSExtValue() == e.c)
                        return false;
              // the member's own value again
              std::vector<Value *> work{v};
              std::set<Value *> seen;
              while (!work.empty()) {
                Value *x = work.back();
                work.pop_back();
                if (!seen.insert(x).second)
                  continue;
                if (auto *L = dyn_cast<LoadInst>(x)) {
                  auto p = fr.place(L->getPointerOperand());
                  auto *o = fr.leafAt(p, p.off);
                  if (o && o->path == l.path)
                    return false;
                }
                if (isa<PHINode>(x) || isa<SelectInst>(x) || isa<CastInst>(x))
                  for (auto &op : cast<User>(x)->operands())
                    work.push_back(op.get());
                if (auto *c = dyn_cast<ConstantFP>(x))
                  for (auto *d : sets[l.path])
                    if (auto *ds = dyn_cast<StoreInst>(d))
                      if (auto *dc = dyn_cast<ConstantFP>(ds->getValueOperand()))
                        if (dc->getValueAPF().convertToDouble() == c->getValueAPF().convertToDouble())
                          return false;
              }
              return true;
            }))
          R.finding("default", k.name, whereOf(hit), l.path, "the option " + l.path + " is set although it is missing from the JSON");
      }
      // members of one object are read together
      std::vector<const Leaf *> group;
      auto ps = parts(l.path);
      for (auto &o : ls)
        if (o.kind != 'p' && stores.count(o.path) && (o.path == l.path || (ps.size() > 1 && parts(o.path)[0] == ps[0] && parts(o.path).size() > 1)))
          group.push_back(&o);
      Labels gks;
      for (auto *g : group)
        gks.insert(keysOf[g->path].begin(), keysOf[g->path].end());
      std::vector<double> samples;
      if (l.kind == 'b')
        samples = {0, 1};
      else if (l.kind == 'f')
        samples = {0, 0.25, 1};
      else if (l.size == 1)
        samples = {0, 1, 255};
      else {
        samples = {0, 1, 20};
        if (l.path == "charcode")
          samples.push_back(255);
        if (l.path == "color_count")
          samples.push_back(256);
        if (l.path == "dpi")
          samples = {1, 72, 2400};
      }
      std::vector<std::vector<double>> cases{{}};
      for (size_t g = 0; g < group.size(); g++) {
        std::vector<std::vector<double>> n;
        for (auto &c : cases)
          for (double s : samples) {
            auto x = c;
            x.push_back(s);
            n.push_back(x);
          }
        cases = n;
      }
      for (auto &cs : cases) {
        PathSearch T(*r->F, LI);
        auto sampleOf = [&](Value *V, double &x) { // the sample value a getter gives
          auto *CB = dyn_cast<CallBase>(V);
          if (!CB || !StringRef(Flow::method(CB)).ends_with("_value"))
            return false;
          auto s = some(fr.all(CB), "key:");
          for (size_t g = 0; g < group.size(); g++)
            if (keysOf[group[g]->path] == s) {
              x = cs[g];
              return true;
            }
          return false;
        };
        std::function<bool(Value *, double &, int)> real = [&](Value *V, double &x, int d) -> bool {
          if (d > 8)
            return false;
          if (auto *c = dyn_cast<ConstantFP>(V)) {
            APFloat f = c->getValueAPF();
            bool lost;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
            x = f.convertToDouble();
            return true;
          }
          if (sampleOf(V, x))
            return true;
          if (auto *c = dyn_cast<CastInst>(V))
            return real(c->getOperand(0), x, d + 1);
          if (auto *p = dyn_cast<PHINode>(V)) {
            bool any = false;
            for (auto &in : p->incoming_values()) {
              double y;
              if (isa<UndefValue>(in.get()))
                continue;
              if (!real(in.get(), y, d + 1) || (any && y != x))
                return false;
              any = true;
              x = y;
            }
            return any;
          }
          return false;
        };
        T.given = [&](Value *V, int64_t &c) {
          bool ne;
          if (asks(V, gks, ne, false)) {
            c = ne;
            return true;
          }
          double x;
          if (V->getType()->isIntegerTy() && sampleOf(V, x)) {
            c = (int64_t)x;
            return true;
          }
          if (auto *CB = dyn_cast<CallBase>(V))
            if (V->getType()->isIntegerTy(1)) {
              std::string m = Flow::method(CB);
              if (StringRef(m).starts_with("is_")) {
                auto s = some(fr.all(CB), "key:");
                if (s.empty()) { // the JSON itself
                  c = m == "is_object";
                  return true;
                }
                for (auto *g : group)
                  if (keysOf[g->path] == s) {
                    char kd = kindOf.count(g->path) ? kindOf[g->path] : 0;
                    c = !kd || m == (kd == 'n' ? "is_number" : kd == 'b' ? "is_bool" : "is_string");
                    return true;
                  }
                if (std::includes(gks.begin(), gks.end(), s.begin(), s.end())) {
                  c = m == "is_object";
                  return true;
                }
              }
            }
          if (auto *f = dyn_cast<FCmpInst>(V)) {
            double a, b;
            if (real(f->getOperand(0), a, 0) && real(f->getOperand(1), b, 0)) {
              switch (f->getPredicate()) {
              case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: c = a == b; return true;
              case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: c = a != b; return true;
              case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: c = a < b; return true;
              case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: c = a <= b; return true;
              case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: c = a > b; return true;
              case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: c = a >= b; return true;
              default: return false;
              }
            }
          }
          return false;
        };
        for (auto *st : stores[l.path]) {
          T.stops.insert(st);
          T.watch.push_back(st);
        }
        T.prepare();
        R.count("legal values tried on the way in");
        size_t self = std::find(group.begin(), group.end(), &l) - group.begin();
        std::string shown;
        for (double x : cs) {
          std::string t = std::to_string(x);
          while (t.back() == '0')
            t.pop_back();
          if (t.back() == '.')
            t.pop_back();
          shown += (shown.empty() ? "" : "/") + t;
        }
        bool byDefault = false; // the value it has anyway
        for (auto *d : sets[l.path])
          if (auto *ds = dyn_cast<StoreInst>(d)) {
            if (auto *c = dyn_cast<ConstantInt>(ds->getValueOperand()))
              byDefault = (double)c->getZExtValue() == cs[self];
            else if (auto *c = dyn_cast<ConstantFP>(ds->getValueOperand()))
              byDefault = c->getValueAPF().convertToDouble() == cs[self];
          } else if (auto *ms = dyn_cast<MemSetInst>(d))
            byDefault = cs[self] == 0 && isa<Constant>(ms->getValue()) && cast<Constant>(ms->getValue())->isNullValue();
        if (Instruction *hit = byDefault ? nullptr : T.reach(nullptr, ret)) {
          if (done.insert(l.path).second)
            R.finding("refused", k.name, whereOf(stores[l.path][0]), l.path, "the option " + l.path + " is not taken from the JSON for the value " + shown);
          (void)hit;
        }
        if (T.exceeded)
          R.count("searches given up");
        T.stops.clear();
        if (l.kind != 'f') {
          std::set<Instruction *> goal(stores[l.path].begin(), stores[l.path].end());
          Instruction *hit = T.reach(nullptr, [&](Instruction &I) {
            if (!goal.count(&I))
              return false;
            Value *v = cast<StoreInst>(I).getValueOperand();
            auto e = T.eval(v, T.now);
            int64_t mask = l.size >= 8 ? -1 : (1LL << (8 * l.size)) - 1;
            return e.k == PathSearch::Val::Const && (e.c & mask) != (int64_t)cs[self];
          });
          if (hit)
            R.finding("changed", k.name, whereOf(hit), l.path, "the option " + l.path + " comes back with another value for " + shown);
        }
      }
    }
  }

  // ---- copies ----
  void copy(Function *C, bool result, const std::string &shownName) {
    auto r = P.root(C->getName().str(), prep);
    if (!r)
      return;
    Flow f(*this, *r);
    auto *SP = C->getSubprogram();
    auto types = SP->getType()->getTypeArray();
    std::vector<Leaf> dst;
    Value *to = nullptr;
    int nsrc = 0;
    for (auto &a : r->F->args()) {
      unsigned i = a.getArgNo() + 1;
      if (i >= types.size() || !a.getType()->isPointerTy())
        continue;
      const DIType *t = bare(types[i]);
      if (auto *d = dyn_cast_or_null<DIDerivedType>(t))
        if (d->getTag() == dwarf::DW_TAG_pointer_type)
          t = bare(d->getBaseType());
      std::vector<Leaf> ls;
      leaves(whole(t), 0, "", "", -1, ls);
      if (ls.empty())
        continue;
      f.objects[&a] = ls;
      if (a.getName() == "this") {
        to = &a;
        dst = ls;
      } else {
        f.side[&a] = "from:";
        nsrc++;
      }
    }
    if (result) {
      for (auto &I : instructions(*r->F))
        if (auto *ri = dyn_cast<ReturnInst>(&I)) {
          std::vector<Value *> work{ri->getReturnValue()};
          std::set<Value *> seen;
          while (!work.empty()) {
            Value *v = work.back();
            work.pop_back();
            if (!seen.insert(v).second)
              continue;
            if (auto *p = dyn_cast<PHINode>(v))
              work.insert(work.end(), p->value_op_begin(), p->value_op_end());
            else if (isa<CallBase>(v))
              to = v;
          }
        }
      leaves(whole(cast<DIDerivedType>(bare(types[0]))->getBaseType()), 0, "", "", -1, dst);
      if (to)
        f.objects[to] = dst;
    }
    if (!to || dst.empty() || !nsrc) {
      R.count("copying functions not understood");
      return;
    }
    f.run();
    R.count("copying functions");
    if (getenv("DUMPC") && shownName == getenv("DUMPC"))
      r->F->print(errs());
    auto &LI = r->FAM.getResult<LoopAnalysis>(*r->F);
    auto dead = [&](const BasicBlock *A, const BasicBlock *B) {
      auto *br = dyn_cast<BranchInst>(A->getTerminator());
      if (!br || !br->isConditional())
        return false;
      auto *c = dyn_cast<ICmpInst>(br->getCondition());
      if (!c || !c->isEquality() || !c->getOperand(0)->getType()->isPointerTy())
        return false;
      bool eq = (c->getPredicate() == CmpInst::ICMP_EQ) == (B == br->getSuccessor(0));
      Value *x = c->getOperand(0), *y = c->getOperand(1);
      if (br->getSuccessor(0) == br->getSuccessor(1))
        return false;
      if (isa<ConstantPointerNull>(y)) {
        // the original and what belongs to it are there
        auto p = f.place(x);
        if (eq && f.side.count(p.base) > 0)
          return true;
        auto v = f.at(x);
        return eq && !v.empty() && !some(v[0], "from:").empty();
      }
      return eq && ((f.place(x).base == to) != (f.place(y).base == to)); // not copied onto itself
    };
    // what sets each member
    auto coversPlace = [&](Instruction &I, Value *base, int64_t off, int64_t size, int64_t &skew, Value *&from) -> bool {
      from = nullptr;
      Flow::Place p;
      int64_t n = 0;
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        p = f.place(S->getPointerOperand());
        n = f.DL().getTypeStoreSize(S->getValueOperand()->getType());
        from = S->getValueOperand();
      } else if (auto *M = dyn_cast<MemIntrinsic>(&I)) {
        p = f.place(M->getRawDest());
        auto *c = dyn_cast<ConstantInt>(M->getLength());
        if (!c)
          return false;
        n = c->getZExtValue();
        if (auto *T = dyn_cast<MemTransferInst>(M))
          from = T->getRawSource();
      } else
        return false;
      if (p.base != base || p.via >= 0 || !p.exact)
        return false;
      skew = off - p.off;
      return p.off <= off && off + size <= p.off + n;
    };
    auto covers = [&](Instruction &I, const Leaf &l, int64_t &skew, Value *&from) { return l.inner < 0 && coversPlace(I, to, l.off, l.size, skew, from); };
    // what a place holds where an instruction copies it: the labels of its bytes and the values stored there
    std::function<void(Instruction *, int64_t, int64_t, std::vector<Labels> &, std::vector<Value *> &, int)> held =
        [&](Instruction *wr, int64_t skew, int64_t size, std::vector<Labels> &bytes, std::vector<Value *> &values, int depth) {
          if (auto *S = dyn_cast<StoreInst>(wr)) {
            auto v = f.at(S->getValueOperand());
            for (int k = 0; k < size && !S->getValueOperand()->getType()->isPointerTy(); k++)
              if (skew + k < (int)v.size() && !isa<Constant>(S->getValueOperand()))
                bytes[k].insert(v[skew + k].begin(), v[skew + k].end());
            values.push_back(S->getValueOperand());
            return;
          }
          auto *M = dyn_cast<MemTransferInst>(wr);
          if (!M)
            return;
          auto p = f.place(M->getRawSource());
          if (isa<AllocaInst>(p.base) && p.exact && depth < 4) {
            std::vector<Instruction *> ws;
            int64_t sk;
            Value *from;
            for (auto &I : instructions(*r->F))
              if (coversPlace(I, p.base, p.off + skew, size, sk, from))
                ws.push_back(&I);
            bool any = false;
            for (auto *w : ws) {
              PathSearch S(*r->F, LI);
              for (auto *x : ws)
                if (x != w)
                  S.stops.insert(x);
              S.dead = dead;
              if (!S.reach(w, [&](Instruction &I) { return &I == wr; }))
                continue;
              any = true;
              coversPlace(*w, p.base, p.off + skew, size, sk, from);
              held(w, sk, size, bytes, values, depth + 1);
            }
            if (any)
              return;
          }
          for (int k = 0; k < size; k++) {
            auto x = f.read(p, p.off + skew + k);
            bytes[k].insert(x.begin(), x.end());
          }
        };
    for (auto &l : dst) {
      if (l.inner >= 0)
        continue;
      R.count("members of copies");
      std::vector<Instruction *> ws;
      int64_t skew;
      Value *from;
      for (auto &I : instructions(*r->F))
        if (covers(I, l, skew, from))
          ws.push_back(&I);
      auto search = [&](Instruction *start) {
        PathSearch S(*r->F, LI);
        for (auto *w : ws)
          if (w != start)
            S.stops.insert(w);
        S.dead = dead;
        S.prepare();
        return S.reach(start, [](Instruction &I) { return isa<ReturnInst>(I); });
      };
      if (Instruction *hit = search(nullptr)) {
        R.finding("uncopied", shownName, whereOf(ws.empty() ? hit : ws[0]), l.name(), "a copy does not get the option " + l.path);
        continue;
      }
      for (auto *wr : ws) {
        if (!search(wr))
          continue;
        covers(*wr, l, skew, from);
        std::vector<Labels> bytes(l.size);
        std::vector<Value *> values;
        held(wr, skew, l.size, bytes, values, 0);
        if (l.kind != 'p') {
          for (int k = 0; k < l.size; k++)
            if (some(bytes[k], "from:") != Labels{l.label(k)} || bytes[k].count("computed")) {
              R.finding("miscopied", shownName, whereOf(wr), l.name(), "in a copy the option " + l.path + " is not that of the original");
              break;
            }
          continue;
        }
        // a pointer: to memory of its own with the same content
        std::set<Value *> seen;
        std::vector<Value *> fresh;
        while (!values.empty()) {
          Value *v = values.back();
          values.pop_back();
          if (!seen.insert(v).second)
            continue;
          if (auto *p = dyn_cast<PHINode>(v)) {
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
              if (!dead(p->getIncomingBlock(i), p->getParent()))
                values.push_back(p->getIncomingValue(i));
          } else if (auto *s = dyn_cast<SelectInst>(v)) {
            values.push_back(s->getTrueValue());
            values.push_back(s->getFalseValue());
          } else if (isa<CallBase>(v))
            fresh.push_back(v);
          else if (isa<LoadInst>(v)) {
            for (auto &x : f.at(v)[0])
              if (StringRef(x).starts_with("from:"))
                bytes[0].insert(x);
          }
        }
        bool shared = false;
        for (auto &x : bytes[0])
          shared |= StringRef(x).starts_with("from:") && StringRef(x).ends_with("." + l.path + "#0");
        if (shared) {
          R.finding("shared", shownName, whereOf(wr), l.name(), "a copy shares " + l.path + " with the original");
          continue;
        }
        for (auto *n : fresh)
          for (auto &in : dst)
            if (in.inner >= 0 && in.off == l.off)
              for (int k = 0; k < in.size; k++) {
                auto pl = f.place(n);
                Labels got;
                auto it = f.mem.find({pl.base, pl.via, in.inner + k});
                if (it != f.mem.end())
                  got = some(it->second, "from:");
                if (got != Labels{in.label(k)}) {
                  R.finding("miscopied", shownName, whereOf(cast<Instruction>(n)), in.name(), "in a copy the option " + in.path + " is not that of the original");
                  break;
                }
              }
      }
    }
  }

  void run() {
    for (auto &A : P.M->aliases())
      if (isa<Function>(A.getAliasee()))
        A.replaceAllUsesWith(A.getAliasee());
    for (auto &F : *P.M)
      for (auto &B : F)
        for (auto &I : make_early_inc_range(B)) {
          auto *C = dyn_cast<CallInst>(&I);
          StringRef n = C ? calleeName(C) : "";
          if (n != "memcpy" && n != "memmove")
            continue;
          IRBuilder<> b(C);
          auto *M = n == "memcpy" ? b.CreateMemCpy(C->getArgOperand(0), {}, C->getArgOperand(1), {}, C->getArgOperand(2))
                                  : b.CreateMemMove(C->getArgOperand(0), {}, C->getArgOperand(1), {}, C->getArgOperand(2));
          M->setDebugLoc(C->getDebugLoc());
          C->replaceAllUsesWith(C->getArgOperand(0));
          C->eraseFromParent();
        }
    for (auto &F : *P.M)
      if (!transparent(F))
        prep.keep.insert(F.getName().str());
    std::map<std::string, Class> classes;
    for (auto &F : *P.M) {
      if (F.isDeclaration() || !F.getSubprogram())
        continue;
      std::string d = demangle(F.getName().str());
      if (StringRef(d).starts_with("json11::"))
        continue;
      if (StringRef(d).ends_with("::toJson() const")) {
        auto &k = classes[d.substr(0, d.size() - 16)];
        k.writer = &F;
      }
      size_t at = d.find("(json11::Json");
      if (at != std::string::npos && d.back() == ')' && d.find('(', at + 1) == std::string::npos && d.find(',') == std::string::npos) {
        std::string n = d.substr(0, at);
        size_t c = n.rfind("::");
        if (c != std::string::npos) {
          std::string cls = n.substr(0, c), own = n.substr(c + 2);
          size_t cc = cls.rfind("::");
          if (own == (cc == std::string::npos ? cls : cls.substr(cc + 2)))
            classes[cls].reader = &F;
        }
      }
    }
    for (auto it = classes.begin(); it != classes.end();)
      if (!it->second.writer || !it->second.reader)
        it = classes.erase(it);
      else
        ++it;
    for (auto &x : classes) {
      x.second.name = x.first;
      auto it = P.L.byName.find(x.first);
      if (it == P.L.byName.end()) {
        R.fail("no layout of " + x.first);
        continue;
      }
      x.second.type = it->second;
      // the option struct it extends, or itself
      std::string s = x.first;
      for (auto *e : it->second->getElements())
        if (auto *m = dyn_cast<DIDerivedType>(e))
          if (m->getTag() == dwarf::DW_TAG_inheritance)
            if (auto *b = whole(m->getBaseType()))
              s = b->getName().str();
      structs.insert(s);
    }
    if (classes.empty()) {
      R.fail("no class with a constructor from JSON and a toJson function found");
      return;
    }
    R.count("classes read from and written to JSON", classes.size());
    for (auto &x : classes)
      if (x.second.type)
        trip(x.second);
    for (auto &F : *P.M) {
      if (F.isDeclaration() || !F.getSubprogram() || !transparent(F))
        continue;
      std::string d = demangle(F.getName().str());
      for (auto &x : classes) {
        std::string n = x.first, own = n.substr(n.rfind(':') == std::string::npos ? 0 : n.rfind(':') + 1);
        if (d == n + "::" + own + "(" + n + " const&)" || d == n + "::operator=(" + n + " const&)")
          copy(&F, false, d.substr(0, d.find('(')));
      }
      StringRef fn = F.getName();
      if (fn.starts_with("at_") && fn.ends_with("_opts_copy"))
        copy(&F, true, fn.str());
      // option structs kept by value in another class
      auto *cls = dyn_cast_or_null<DICompositeType>(F.getSubprogram()->getScope());
      if (cls && !classes.count(cls->getName().str()) && F.getSubprogram()->getName() == cls->getName() && F.arg_size() > 1) {
        std::vector<Leaf> ls;
        auto it = P.L.byName.find(cls->getName().str());
        if (it != P.L.byName.end())
          leaves(it->second, 0, "", "", -1, ls);
        bool takes = false;
        for (auto *t : F.getSubprogram()->getType()->getTypeArray())
          if (auto *c = dyn_cast_or_null<DICompositeType>(bare(t)))
            takes |= structs.count(c->getName().str()) || c == it->second;
        if (!ls.empty() && takes)
          copy(&F, false, d.substr(0, d.find('(')));
      }
    }
  }
};
}

void checkC15(Program &P, Report &R, const std::string &) { C15(P, R).run(); }
