// Values as polynomials over the shape's numbers, the writer's parameters and opaque terms.
// Real-number reading: rounding of single operations is not modelled, conversions to integers are.
#pragma once
#include "writers.h"

struct Poly {
  std::map<std::vector<int>, double> t; // monomial (sorted atoms) -> coefficient
  bool isConst(double *v = nullptr) const;
  bool operator==(const Poly &o) const;
};

struct Polys {
  struct Atom {
    std::string key;
    bool leaf = false;
    Leaf lf;
    Value *v = nullptr;
    std::set<int> inside; // leaf atoms a function term is computed from
    std::string fn;       // outer operation of a function term
    std::vector<Poly> args;
  };
  Writer &W;
  std::vector<Atom> atoms;
  std::map<std::string, int> ids;
  typedef std::map<Value *, Poly> Env;
  explicit Polys(Writer &W) : W(W) {}

  Poly of(Value *V);                 // memoised
  Poly of(Value *V, const Env &env); // some values fixed
  bool known(Value *cond, const Env &env, bool &val); // condition decided under ENV

  static Poly cst(double c);
  Poly atom(int a);
  int intern(const std::string &key, Atom a);
  static Poly add(const Poly &a, const Poly &b, double kb = 1);
  Poly mul(const Poly &a, const Poly &b);
  Poly div(const Poly &a, const Poly &b);
  Poly fn(const std::string &name, const std::vector<Poly> &args);
  std::string str(const Poly &p, const std::function<std::string(const Atom &)> &name = nullptr);
  std::set<int> leafAtoms(const Poly &p); // also inside function terms
  // ... and behind choices between several values
  std::set<int> leafAtomsOf(Value *V, const Env &env, int depth = 0);
  // edge B->T that cannot be taken under ENV
  bool edgeDead(BasicBlock *B, BasicBlock *T, const Env &env);
  // header phis of L at the last round of its body; false if not known
  bool lastRound(Loop *L, Env &env);

private:
  std::map<Value *, Poly> memo;
  Poly go(Value *V, const Env &env, std::map<Value *, Poly> &m, int depth);
};
