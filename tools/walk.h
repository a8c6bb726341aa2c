// Forward exploration of a function with some values given as constants: which
// blocks and edges are reachable when conditions that the given values decide
// are followed one way only. Path-insensitive: a phi is a constant when all
// reached edges agree.
#pragma once
#include "core.h"

struct Walk {
  Function &F;
  std::function<Value *(Value *)> given;            // replacement for a value, or null
  std::function<bool(Instruction *)> stop;          // the exploration ends before this instruction
  std::set<BasicBlock *> blocks;                    // blocks entered at their start
  std::set<std::pair<BasicBlock *, BasicBlock *>> edges;
  Instruction *start = nullptr;
  std::vector<Instruction *> order;                 // instructions reached
  std::set<Instruction *> reached, stopped;
  Walk(Function &F) : F(F) {}
  void run(Instruction *from); // exclusive; null: entry of the function
  Value *fold(Value *V, int depth = 0);
  // constant byte offset from base, with folded indices
  bool offset(Value *V, Value *&base, int64_t &off);
};
