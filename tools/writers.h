// Model of one registered writer: where every output argument comes from.
#pragma once
#include "core.h"

struct Leaf {
  std::string field;        // "v[3].x", "color.r", "open", "degree", "length", "shape.length", "shape.centerline"
  const SCEV *li = nullptr; // index of the outline
  const SCEV *si = nullptr; // index of the segment
  bool operator<(const Leaf &o) const { return std::tie(field, li, si) < std::tie(o.field, o.li, o.si); }
  bool isPoint() const { return field.size() > 5 && field[0] == 'v' && field[1] == '['; }
  int point() const { return field[2] - '0'; }
  char axis() const { return field.back(); }
};
typedef std::set<Leaf> Leaves;

struct Emit {                 // an instruction that puts values into the file
  Instruction *I;
  bool sink;                  // output call; otherwise a store to a buffer that is written later
  std::string fmt;
  std::vector<Value *> args;
  std::vector<Leaves> al;
  Leaves all;
};

struct Writer {
  std::string suffix;
  std::unique_ptr<Root> R;
  Function *F;
  Layouts &L;
  ScalarEvolution &SE;
  LoopInfo &LI;
  DominatorTree &DT;
  Argument *file, *shape;
  uint64_t SL, SP;
  Writer(const std::string &suf, std::unique_ptr<Root> R, Layouts &L);

  struct Path {
    int level = -1; // 0 shape, 1 outline, 2 segment
    uint64_t off = 0;
    const SCEV *li = nullptr, *si = nullptr;
  };
  bool resolve(Value *P, Path &out, int depth = 0);
  bool split(const SCEV *off, uint64_t size, uint64_t &field, const SCEV *&idx);
  bool leafOfLoad(LoadInst *Ld, Leaf &lf);
  bool leafAt(LoadInst *Ld, uint64_t byte, Leaf &lf); // of a byte of the loaded value
  const Leaves &leaves(Value *V);
  Leaves contents(Value *P, Instruction *at);
  std::vector<Value *> reachingStores(Value *P, Instruction *at, bool &complete);
  const Value *object(Value *P);
  struct Deps { // what a value or a piece of memory is made from
    Leaves direct;
    std::vector<Value *> vals;
    std::vector<std::pair<Value *, Instruction *>> mem;
  };
  std::map<const Value *, Deps> objDeps, valDeps;
  std::map<std::pair<const Value *, const Instruction *>, Deps> localDeps;
  const Deps &contentDeps(Value *P, Instruction *at);
  const Deps &deps(Value *V);
  void gather(std::vector<Value *> work, std::vector<std::pair<Value *, Instruction *>> mem, Leaves &r);
  std::map<const Value *, Leaves> memo;
  std::vector<Emit> emits;     // in program order (reverse post order)
  std::set<const Value *> outObjects;
  void collect();
  const SCEV *stripExt(const SCEV *S);

  // number of iterations for which code in block AT runs, read off the exit test in block X;
  // nullptr if not known
  const SCEV *iterations(Loop *L, BasicBlock *X, BasicBlock *at);
  bool isLength(const SCEV *n, int level, const SCEV *li); // n is the number of outlines (1) or segments of outline li (2)
  bool isCounter(const SCEV *S, const Loop *&L);           // {0,+,1}<L>
};

struct Spec {            // what is assumed when a writer is specialised
  int degree = -1;       // 1 straight, 3 curved
  int centerline = -1, open = -1;
  int clockwise = -1;    // 0: not a hole
  int background = -1;   // 0: the shape has no background colour
  std::string name;
};
std::unique_ptr<Writer> specialise(Program &P, Function *f, const std::string &suf, const Spec &s);
bool isAllocator(StringRef n);
bool deadEnd(BasicBlock *B); // every path from B ends in unreachable

std::vector<std::pair<Function *, std::string>> writerList(Program &P, Report &R);
std::vector<std::unique_ptr<Writer>> buildWriters(Program &P, Report &R);
