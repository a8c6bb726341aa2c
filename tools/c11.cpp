// C11: everything acquired is released.
#include "own.h"

void checkC11(Program &P, Report &R, const std::string &tier) {
  auto W = P.whole();
  Own o(*W, P);
  o.run([](const Function &F) { return F.getSubprogram() && !F.getSubprogram()->getFile()->getFilename().starts_with("/usr/"); });
  R.count("functions analysed", o.sum.size());
  long acq = 0;
  for (auto &x : o.sum) {
    Function &F = *x.first;
    for (auto &a : o.fun[&F].acquired)
      acq += a.second.size();
    for (auto &l : o.leaks(F))
      R.finding("lost", F.getSubprogram()->getName().str(), whereOf(l.at), l.name,
                "the " + l.what + " acquired at " + whereOf(l.at) + " (" + l.name + ") is neither released nor handed on, on a path that ends at " + whereOf(l.end));
    for (auto &l : o.partial(F))
      R.finding("part", F.getSubprogram()->getName().str(), whereOf(l.at), l.chain + l.name,
                "of what " + l.chain + " acquired at " + whereOf(l.at) + " the part at " + l.name.substr(1) + " is never released, though the rest is, at " + whereOf(l.end));
    for (auto &l : o.skips(F))
      R.finding("skipped", F.getSubprogram()->getName().str(), whereOf(l.at), l.name,
                "the part " + l.name + " is released at " + whereOf(l.at) + " but not on every path to " + whereOf(l.end));
    for (auto &l : o.replaces(F))
      R.finding("replaced", F.getSubprogram()->getName().str(), whereOf(l.end), l.name,
                "the memory held at " + l.name + " (read at " + whereOf(l.at) + ") is replaced at " + whereOf(l.end) + " and not released before");
  }
  // results of the library and the functions that free them
  std::map<std::string, std::vector<Function *>> freers;
  auto typeOf = [](DIType *t) {
    std::string r;
    while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_pointer_type)
        r += "*";
      t = d->getBaseType();
      if (d->getTag() == dwarf::DW_TAG_typedef && !r.empty() && !isa_and_nonnull<DIDerivedType>(t))
        return r + (t && !t->getName().empty() ? t->getName().str() : d->getName().str());
    }
    return r + (t ? t->getName().str() : "");
  };
  for (auto &x : o.sum) {
    auto *SP = x.first->getSubprogram();
    auto ts = SP->getType()->getTypeArray();
    if (ts.size() == 2 && !ts[0] && x.second.releases.count(0) && x.second.releases[0].count({}))
      freers[typeOf(ts[1])].push_back(x.first);
  }
  long pairs = 0;
  for (auto *A : apiFunctions(P)) {
    Function *F = W->M->getFunction(A->getName());
    if (!F || !o.sum.count(F))
      continue;
    auto &s = o.sum[F];
    if (!s.fills.count(-1) || !s.fills[-1].count({}) || !F->getReturnType()->isPointerTy())
      continue;
    auto ts = F->getSubprogram()->getType()->getTypeArray();
    for (auto *D : freers[typeOf(ts[0])])
      for (auto &p : s.fills[-1]) {
        pairs++;
        Own::Path q = p.first; // an element or the thing itself
        if (!q.empty())
          q[0] = q[0][0] == '*' ? q[0].substr(1) : "*" + q[0];
        if (!o.sum[D].releases[0].count(p.first) && !o.sum[D].releases[0].count(q)) {
          std::string n;
          for (auto &k : p.first)
            n += "+" + k;
          R.finding("kept", D->getSubprogram()->getName().str(), whereOf(&D->getEntryBlock().front()), F->getName().str() + n,
                    D->getName().str() + " does not release the part at " + n + " of what " + F->getName().str() + " returns");
        }
      }
  }
  R.count("owned parts of returned results matched with their free function", pairs);
  R.count("owned values released part by part", o.owners);
  R.count("parts of them", o.members_);
  R.count("parts released by functions that end a thing's life", o.ended);
  R.count("reads of memory held by a parameter and replaced there", o.held_);
  R.count("places where something is acquired", acq);
  R.count("path searches", o.searches);
  if (o.undecided)
    R.count("searches not decided", o.undecided);
}
