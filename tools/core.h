// Shared base of the analyses: the linked program, one inlined and normalised
// copy of it per root, structure layouts from debug info, source positions and
// the report.
#pragma once
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

// ---- report ---------------------------------------------------------------
struct Report {
  std::string property;
  std::map<std::string, long> counts;
  std::vector<json::Value> findings;
  std::vector<std::string> broken;
  std::vector<std::string> samples;
  std::set<std::string> seen;
  void count(const std::string &k, long n = 1) { counts[k] += n; }
  // key identifies the construct (no line numbers), where is file:line
  void finding(const std::string &rule, const std::string &func, const std::string &where, const std::string &instance,
               const std::string &msg);
  void fail(const std::string &msg) { broken.push_back(msg); }
  void sample(const std::string &s) {
    if (samples.size() < 12)
      samples.push_back(s);
  }
  void print(raw_ostream &os);
};

// ---- positions -------------------------------------------------------------
std::string whereOf(const Instruction *I);       // file:line of the innermost source position
std::string funcOf(const Instruction *I);        // source function the instruction was written in
std::string chainOf(const Instruction *I);       // ... and the lines of the calls that lead to it
std::string fileOf(const Instruction *I);
unsigned lineOf(const Instruction *I);
std::string constString(const Value *V, bool *ok = nullptr); // C string a pointer constant refers to

// ---- layouts ---------------------------------------------------------------
struct Layouts {
  std::map<std::string, const DICompositeType *> byName; // by tag and by typedef name
  void build(const Module &M);
  // member path "color.r", "v[3].x"; offset and size in bytes
  bool find(const std::string &type, const std::string &path, uint64_t &off, uint64_t &size) const;
  uint64_t sizeOf(const std::string &type) const;
  // names of the members of a struct, in order
  std::vector<std::string> members(const std::string &type) const;
  // name of the scalar member at a byte offset, e.g. "v[2].y"
  std::string nameAt(const std::string &type, uint64_t off) const;
};
const DIType *stripTypedefs(const DIType *T);

// ---- program ---------------------------------------------------------------
struct Prep {           // how a root is prepared
  bool inlineAll = true;
  std::set<std::string> keep;      // functions not to be inlined
  bool normalise = true;           // scalar replacement and canonical loops
  int invariantArg = -1;           // argument whose reachable memory is read only (its loads are merged)
  bool prune = false;              // functions only tables refer to are dropped
  bool devirtualise = false;       // calls through pointers whose targets are known become direct calls
  std::function<void(Function &)> edit; // applied to the root before anything else
};

struct Root {
  std::unique_ptr<Module> M;
  Function *F = nullptr;
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CAM;
  ModuleAnalysisManager MAM;
  Root() = default;
  ScalarEvolution &SE() { return FAM.getResult<ScalarEvolutionAnalysis>(*F); }
  LoopInfo &LI() { return FAM.getResult<LoopAnalysis>(*F); }
  DominatorTree &DT() { return FAM.getResult<DominatorTreeAnalysis>(*F); }
  PostDominatorTree &PDT() { return FAM.getResult<PostDominatorTreeAnalysis>(*F); }
  void run(const std::string &pipe);
  void simplify(); // fold constants put into F, drop dead branches, canonical loops again
};

struct Program {
  LLVMContext &C;
  std::unique_ptr<Module> M;
  Layouts L;
  Program(LLVMContext &C) : C(C) {}
  bool load(const std::string &path);
  std::unique_ptr<Root> root(const std::string &name, const Prep &p = Prep());
  // the whole program with local variables in registers, nothing inlined
  std::unique_ptr<Root> whole(const std::function<void(Module &)> &edit = nullptr);
  // suffix -> writer/reader function as registered
  std::vector<std::pair<std::string, Function *>> registered(const std::string &adder, Report &R);
};

// index of the parameter of the given (typedef) type, -1 if there is none
int paramOfType(const Function &F, StringRef type);
bool enumValue(const Module &M, StringRef name, int64_t &v);
bool commandLine(const Program &P, const Function &F); // written in the file of main()
std::vector<Function *> apiFunctions(Program &P);      // the functions a program that uses the library calls
Function *calleeOf(const CallBase *CB);
StringRef calleeName(const CallBase *CB); // empty for indirect calls
const Value *stripCasts(const Value *V);
std::string show(const Value *V);
std::string show(const SCEV *S);

// analyses
typedef void (*CheckFn)(Program &, Report &, const std::string &tier);
