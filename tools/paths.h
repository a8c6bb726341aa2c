// Search for a path through a function that avoids given instructions. Branch
// conditions are folded where the constants carried along the path decide them
// (flags, "first round" tests, short-circuit joins), so that impossible paths
// are not reported.
#pragma once
#include "core.h"

struct PathSearch {
  Function &F;
  LoopInfo &LI;
  std::set<const Instruction *> stops; // a path ends here
  std::function<bool(const BasicBlock *, const BasicBlock *)> dead; // edges never taken
  std::function<bool(Value *)> positive; // a number known to be above 0
  std::function<bool(Value *, int64_t &)> given; // values that are taken to be a constant
  std::function<bool(PHINode *)> counter; // counts up from 0
  std::vector<Instruction *> watch;        // instructions whose operands the goal wants to know
  bool carried = false; // what is known of a loop's variables stays known when the loop is left
  bool plain = false; // a watched value is known only where a constant itself flows into it, not through a working variable
  // values followed through phis, choices and conversions; a goal asks eval() for Token
  std::set<Value *> tokens;
  // with tokens: 2 all conditions are folded, 1 only those on flags set where a token is replaced, 0 none
  int known = 2;
  // conditions on values that cannot change once computed stay decided along a path
  bool remember = false;
  std::function<Value *(Value *)> same; // one value for all that are the same, such as two reads of an unchanged place
  size_t limit = 100000;
  bool exceeded = false;
  PathSearch(Function &F, LoopInfo &LI) : F(F), LI(LI) {}
  // the first instruction of `goal` reached from `from` (exclusive; null: entry of F) without passing a stop
  Instruction *reach(Instruction *from, const std::function<bool(Instruction &)> &goal);

  struct Val {
    enum { Unknown, Const, NonNegative, Positive, Token } k = Unknown;
    int64_t c = 0;
    bool operator<(const Val &o) const { return std::tie(k, c) < std::tie(o.k, o.c); }
    bool operator==(const Val &o) const { return k == o.k && c == o.c; }
  };
  typedef std::map<PHINode *, Val> Env;
  std::map<PHINode *, std::set<BasicBlock *>> live; // phis that conditions depend on, and where they still matter
  typedef std::tuple<Value *, Value *, unsigned> Cond; // operands and relation
  typedef std::map<Cond, bool> Facts;
  std::map<Value *, int> asked; // how many questions each value takes part in
  bool condOf(Value *V, Cond &c, bool &negated, const Env &e, int depth = 0);
  Facts facts; // decided on the way to here
  Facts initial; // known where the search starts
  void assume(Instruction *at); // adds what the branches that lead to an instruction say
  std::map<Value *, int64_t> assumed; // on the edge being taken
  bool prepared = false;
  Env now; // what is known where the goal is asked
  std::set<PHINode *> tracked; // phis that can hold a token
  std::set<PHINode *> results; // phis that only lead to watched operands
  void prepare();
  Val eval(Value *V, const Env &e, int depth = 0);
};
