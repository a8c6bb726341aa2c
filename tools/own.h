// Who owns what: for every function which memory and files it acquires, hands
// to its caller, keeps or releases, by access path from its parameters and its
// result; and inside a function the paths on which something acquired is
// neither released nor handed on.
#pragma once
#include "paths.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"

struct Own {
  typedef std::vector<std::string> Path; // keys of the pointers followed, "8" or "*8" for a member of an array element
  struct Node {
    Value *base;
    Path path;
    bool operator<(const Node &o) const { return std::tie(base, path) < std::tie(o.base, o.path); }
    bool operator==(const Node &o) const { return base == o.base && path == o.path; }
  };
  typedef std::set<Node> Nodes;
  struct Left { // ways in which something acquired is left to the caller
    bool zero = false, other = false; // by the value returned (void: other)
    bool fatal = false, fine = false; // an error was raised or not
    bool cancelled = false, going = false;
    bool any() const { return zero || other; }
  };
  struct Summary {
    std::map<int, std::map<Path, Left>> fills; // parameter (-1: result)
    std::map<int, std::set<Path>> releases;
    std::map<int, std::set<Path>> keeps;
    std::set<std::pair<std::pair<int, Path>, std::pair<int, Path>>> moves; // to (parameter, path) from (parameter, path)
    std::set<int> returns; // parameters handed back
    bool raises = false;
    bool operator==(const Summary &o) const;
  };
  struct Leak {
    Instruction *at;   // where it was acquired
    Instruction *end;  // where it is lost
    std::string what;  // "memory" or "file"
    std::string name;  // of the variable
    std::string chain;
  };
  struct Function_ {
    std::map<Value *, Nodes> labels;
    std::map<Node, Nodes> content;
    Nodes owned;
    std::map<Node, std::set<Instruction *>> released;
    std::map<Node, std::set<Instruction *>> acquired;
    std::map<Node, std::set<Instruction *>> escapes;
    std::set<Node> files;
  };

  Root &R;
  Program &P;
  const DataLayout &DL;
  std::map<Function *, Summary> sum;
  std::map<Function *, Function_> fun;
  std::map<Function *, bool> raises;
  std::map<Function *, bool> enters; // can be called when an error was raised already
  std::map<CallBase *, bool> holding;
  bool holds(CallBase *C); // an error can have been raised before the call
  bool follows(CallBase *C); // ... in the same function
  bool after(CallBase *C, bool before);
  std::map<Value *, int64_t> constants; // arguments taken to be constants
  std::set<Instruction *> starts(Function &F, Function_ &f, const Node &o); // where something is put into a place
  bool absent(CallBase *C, const Node &n); // with the constants passed there, the call acquires nothing for n
  bool summarising = false;
  bool alone = false; // what was in the place before, not what is put there
  long searches = 0, undecided = 0, rounds = 0;
  Own(Root &R, Program &P) : R(R), P(P), DL(R.M->getDataLayout()) {}

  void run(const std::function<bool(const Function &)> &include);
  void normalise();
  void label(Function &F);
  bool summarise(Function &F);
  // paths on which something acquired in F is lost
  std::vector<Leak> leaks(Function &F);
  std::vector<Leak> partial(Function &F);
  std::vector<Leak> replaces(Function &F);
  std::vector<Leak> skips(Function &F);
  std::set<Instruction *> replaced(Function &F, Function_ &f, const Node &n, const Node &thing);
  static const DIType *typeOf(Function &F, int param);
  long owners = 0, members_ = 0, held_ = 0, ended = 0;
  // nodes that stand for the same thing inside the function
  Nodes aliases(Function_ &f, const Node &n);
  Instruction *lost(Function &F, Function_ &f, const Node &n, Instruction *from, int fatal, int cancel, const std::function<bool(Instruction &)> &goal,
                    const Left *left, bool handing = false, const Nodes *also = nullptr);
  bool place(Function_ &f, const Node &n);
  std::map<std::pair<Argument *, CallBase *>, bool> reaching;
  bool reaches(Function &F, Argument *A, CallBase *C);
  std::map<Function *, std::map<Value *, Value *>> reads;
  std::map<std::tuple<Value *, unsigned, Type *>, Value *> converted;
  Value *same(Function &F, Value *V);
  bool local(Value *base); // a variable, or a structure held as a value
  std::vector<std::pair<int64_t, unsigned>> members(Type *t); // offsets of the pointers of a structure value
  void results(Function &F, Function_ &f, Summary &s);
  Left ways(Function &F, Function_ &f, const Node &o, const std::set<Instruction *> &from, bool handing);

  struct Addr {
    Node n;       // object pointed to
    int64_t off;  // inside it
    bool var;     // some element of an array
    int64_t size; // of the elements
  };
  std::function<bool(PathSearch &, ReturnInst *)> goalValue; // which returns count
  std::vector<Addr> addresses(Function_ &f, Value *V);
  bool slot(const Addr &a, Node &out); // the pointer stored at an address
  static bool append(const Addr &a, const Path &p, Node &out); // path of a callee that was given the address
};
bool isCancelAsk(const Instruction *I);
bool isFatalAsk(const Instruction *I);
