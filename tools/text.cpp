#include "text.h"
#include "llvm/Analysis/ValueTracking.h"

static void rawBytes(Value *V, Value *len, std::string &out) {
  uint64_t n = 0;
  auto *c = dyn_cast<ConstantInt>(len);
  StringRef s;
  if (c && getConstantStringInfo(V, s, false)) {
    n = c->getZExtValue();
    out += s.substr(0, n).str();
    while (n > s.size() && out.size() < n)
      out.push_back(0);
  } else
    out.push_back(BYTE);
}

std::vector<std::string> stringsOf(Value *V, int depth) {
  bool ok;
  std::string s = constString(V, &ok);
  if (ok)
    return {s};
  std::vector<std::string> r;
  auto more = [&](Value *x) {
    for (auto &t : stringsOf(x, depth + 1))
      if (std::find(r.begin(), r.end(), t) == r.end())
        r.push_back(t);
  };
  if (depth < 4) {
    if (auto *x = dyn_cast<SelectInst>(V)) {
      more(x->getTrueValue());
      more(x->getFalseValue());
      return r;
    }
    if (auto *p = dyn_cast<PHINode>(V)) {
      for (auto &x : p->incoming_values())
        more(x);
      return r;
    }
  }
  return {std::string(1, HOLE)};
}

static std::vector<int64_t> intsOf(Value *V, int depth = 0) {
  if (auto *c = dyn_cast<ConstantInt>(V))
    return {c->getSExtValue()};
  std::vector<int64_t> r;
  if (depth < 4)
    if (auto *x = dyn_cast<SelectInst>(V)) {
      auto a = intsOf(x->getTrueValue(), depth + 1), b = intsOf(x->getFalseValue(), depth + 1);
      if (!a.empty() && !b.empty()) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
      }
    }
  if (depth < 4)
    if (auto *p = dyn_cast<PHINode>(V)) {
      for (auto &x : p->incoming_values()) {
        auto a = intsOf(x, depth + 1);
        if (a.empty())
          return {};
        r.insert(r.end(), a.begin(), a.end());
      }
      return r;
    }
  return r;
}

static std::string format(const std::string &f, const std::vector<Value *> &args, bool &alt) {
  std::string r;
  size_t k = 0;
  auto alternatives = [&](std::vector<std::string> v) {
    if (v.size() > 1)
      alt = true;
    for (size_t i = 0; i < v.size(); i++)
      r += (i ? std::string(1, OR) : "") + v[i];
  };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') {
      r += f[i];
      continue;
    }
    size_t j = i + 1;
    while (j < f.size() && strchr("-+ #0123456789.lhzjtL", f[j]))
      j++;
    if (j >= f.size())
      break;
    char c = f[j];
    if (c == '%')
      r += '%';
    else if (k >= args.size())
      r += HOLE;
    else {
      Value *a = args[k++];
      if (c == 's')
        alternatives(stringsOf(a));
      else if (c == 'c' || c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X') {
        std::vector<std::string> v;
        for (int64_t n : intsOf(a)) {
          char buf[40];
          std::string sp = f.substr(i, j - i);
          sp.erase(std::remove_if(sp.begin(), sp.end(), [](char q) { return strchr("lhzjt", q); }), sp.end());
          snprintf(buf, sizeof buf, (sp + c).c_str(), (int)n);
          v.push_back(buf);
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        r += v.size() == 1 ? v[0] : std::string(1, HOLE);
      } else if (auto *fp = dyn_cast<ConstantFP>(a)) {
        char buf[400];
        snprintf(buf, sizeof buf, f.substr(i, j - i + 1).c_str(), fp->getValueAPF().convertToDouble());
        r += buf;
      } else
        r += HOLE;
    }
    i = j;
  }
  return r;
}

Text::Text(Writer &W) : W(W) {
  for (auto &e : W.emits) {
    if (!e.sink)
      continue;
    auto *CB = cast<CallBase>(e.I);
    StringRef nm = calleeName(CB);
    Piece p;
    p.I = e.I;
    if (nm == "fprintf") {
      std::vector<Value *> args;
      for (unsigned i = 2; i < CB->arg_size(); i++)
        args.push_back(CB->getArgOperand(i));
      auto fs = stringsOf(CB->getArgOperand(1));
      if (fs.size() > 1)
        p.alternatives = true;
      for (size_t i = 0; i < fs.size(); i++)
        p.s += (i ? std::string(1, OR) : "") + format(fs[i], args, p.alternatives);
    } else if (nm == "fputs") {
      auto fs = stringsOf(CB->getArgOperand(0));
      if (fs.size() > 1)
        p.alternatives = true;
      for (size_t i = 0; i < fs.size(); i++)
        p.s += (i ? std::string(1, OR) : "") + fs[i];
    } else if (nm == "fwrite") {
      auto *a = dyn_cast<ConstantInt>(CB->getArgOperand(1)), *b = dyn_cast<ConstantInt>(CB->getArgOperand(2));
      bool complete = false, oneByte = a && b && a->getZExtValue() * b->getZExtValue() == 1;
      std::vector<Value *> st;
      if (oneByte && isa<AllocaInst>(CB->getArgOperand(0)->stripPointerCasts()))
        st = W.reachingStores(CB->getArgOperand(0), CB, complete);
      if (oneByte && complete && !st.empty()) {
        std::vector<int64_t> v;
        for (auto *x : st) {
          auto n = intsOf(x);
          if (n.empty()) {
            v.clear();
            break;
          }
          v.insert(v.end(), n.begin(), n.end());
        }
        if (v.empty())
          p.s = BYTE;
        p.alternatives = v.size() > 1;
        for (size_t i = 0; i < v.size(); i++)
          p.s += (i ? std::string(1, OR) : "") + (char)v[i];
      } else if (a && b)
        rawBytes(CB->getArgOperand(0), ConstantInt::get(a->getType(), a->getZExtValue() * b->getZExtValue()), p.s);
      else
        p.s = BYTE;
    } else {
      auto v = intsOf(CB->getArgOperand(0));
      if (v.empty())
        p.s = HOLE;
      if (v.size() > 1)
        p.alternatives = true;
      for (size_t i = 0; i < v.size(); i++) {
        if (i)
          p.s += OR;
        p.s += (char)v[i];
      }
    }
    pieces[e.I->getParent()].push_back(p);
  }
  finish();
}
void Text::add(Instruction *I, const std::string &s) {
  Piece p;
  p.I = I;
  p.s = s;
  pieces[I->getParent()].push_back(p);
}
void Text::finish() {
  text.clear();
  for (auto &b : pieces) {
    std::stable_sort(b.second.begin(), b.second.end(), [](const Piece &x, const Piece &y) { return x.I != y.I && x.I->comesBefore(y.I); });
    std::string &t = text[b.first];
    for (auto &p : b.second) {
      p.at = t.size();
      t += p.s;
    }
  }
}
std::vector<Instruction *> Text::find(BasicBlock *B, const std::regex &r, bool sureOnly) {
  std::vector<Instruction *> out;
  auto it = text.find(B);
  if (it == text.end())
    return out;
  const std::string &t = it->second;
  for (std::sregex_iterator m(t.begin(), t.end(), r), e; m != e; ++m) {
    size_t from = m->position(0), to = from + m->length(0);
    bool sure = true;
    Instruction *last = nullptr;
    for (auto &p : pieces[B])
      if (p.at < to && p.at + p.s.size() > from) {
        if (p.alternatives)
          sure = false;
        last = p.I;
      }
    if (last && (sure || !sureOnly))
      out.push_back(last);
  }
  return out;
}
