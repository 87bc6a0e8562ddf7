// Enumerated statement blocks, used by stmt.cc and ast.cc.
#pragma once
#include "lang.h"

namespace lang {
// ------------------------------------------------------------ block enumeration
// A block is a sequence of symbols; symbol >= 0 is a simple statement, a `when` has sub-blocks.  A block's weight is the
// number of its simple statements plus the number of its `when`s.
struct Sym;
using Skel = std::vector<Sym>;
struct Sym {
  int s = -1;
  bool has_else = false;
  std::vector<Skel> bodies;  // one per branch, the else body last
};
// all `when`s of weight w (1 + bodies), all blocks of weight w
struct Enum {
  int alphabet;
  int max_branches;
  std::map<int, std::vector<Sym>> whens;
  std::map<int, std::vector<Skel>> blocks;
  const std::vector<Sym>& Whens(int w) {
    auto it = whens.find(w);
    if (it != whens.end()) return it->second;
    std::vector<Sym> out;
    for (int n = 1; n <= max_branches; n++)
      for (int e = 0; e < 2; e++) {
        if (n == 1 && e) continue;  // n bodies, the last one is the else block when e
        std::function<void(Sym&, int, int)> rec = [&](Sym& s, int done, int left) {
          if (done == n) {
            if (left == 0) out.push_back(s);
            return;
          }
          for (int k = 1; k <= left - (n - done - 1); k++)
            for (auto& b : Blocks(k)) {
              s.bodies.push_back(b);
              rec(s, done + 1, left - k);
              s.bodies.pop_back();
            }
        };
        Sym s;
        s.has_else = e;
        rec(s, 0, w - 1);
      }
    return whens[w] = out;
  }
  const std::vector<Skel>& Blocks(int w) {
    auto it = blocks.find(w);
    if (it != blocks.end()) return it->second;
    std::vector<Skel> out;
    if (w == 0) {
      out.push_back({});
    } else {
      // first symbol of weight k, then a block of weight w - k
      for (int k = 1; k <= w; k++) {
        auto& rest = Blocks(w - k);
        if (k == 1)
          for (int s = 0; s < alphabet; s++)
            for (auto& r : rest) {
              Skel b{Sym{s, false, {}}};
              b.insert(b.end(), r.begin(), r.end());
              out.push_back(std::move(b));
            }
        else
          for (auto& s : Whens(k))
            for (auto& r : rest) {
              Skel b{s};
              b.insert(b.end(), r.begin(), r.end());
              out.push_back(std::move(b));
            }
      }
    }
    return blocks[w] = out;
  }
};

// Turns a skeleton into a program.  Every event leaf is a fresh operand.
struct Maker {
  T t = kI32;       // type of the variables
  int condform = 0;
  int alphabet = 0;  // which alphabet
  std::vector<T> types;
  std::vector<bool> is_cond;
  int store = 100;
  P Leaf(T ty, bool cond = false) {
    int id = static_cast<int>(types.size());
    types.push_back(ty);
    is_cond.push_back(cond);
    return EvX(ty, id);
  }
  P Load(T ty) {
    int id = static_cast<int>(types.size());
    types.push_back(ty);
    is_cond.push_back(false);
    return LdX(ty, id);
  }
  P Cond() {
    auto n = [&] { return Leaf(Nums()[static_cast<size_t>(types.size() * 3) % 10], true); };
    switch (condform) {
      case 0: return n();
      case 1: {
        P a = n();
        return BinX(Op::kLand, a, n());
      }
      case 2: return IsNum(t) ? VarX("a") : n();
      case 3: {
        P a = n();
        return BinX(Op::kLor, UnX(Un::kNot, a), n());
      }
      default: {
        P a = n(), b = n();
        return IfX({a, b, IsNum(t) ? VarX("b") : n()});
      }
    }
  }
  P Store(T ty, P x) { return StoreX(ty, store++, std::move(x)); }
  St Simple(int s) {
    if (alphabet == 0) switch (s) {
        case 0: return Assign("a", Leaf(t));
        case 1: return Assign("a", BinX(Op::kAdd, VarX("a"), Leaf(t)));
        case 2: return Assign("b", VarX("a"));
        case 3: return ExprSt(Store(t, VarX("a")));
        case 4: return Assign("c", VarX("a"));
        case 5: return ExprSt(Store(t, VarX("c")));
        case 6: return Assign("a", VarX("b"));
        case 7: return ExprSt(Store(t, VarX("b")));
        case 8: return Let("c", Leaf(t));
        case 9: return Assign("b", Leaf(t));
        case 10: return Assign("r", Store(t, VarX("a")));
        default: return ExprSt(Leaf(t));
      }
    // alphabet 1: the static rules.  a and b may or may not exist, in two types.
    T u = t == kI32 ? kF64 : kI32;
    switch (s) {
      case 0: return Assign("a", Load(t));
      case 1: return Assign("a", Load(u));
      case 2: return Let("a", Load(t));
      case 3: return ExprSt(Store(t, VarX("a")));
      case 4: return Assign("b", VarX("a"));
      case 5: return Let("b", Load(u));
      case 6: return Assign("b", Load(t));
      case 7: return Assign("a", VarX("a"));
      case 8: return Let("a", VarX("b"));
      default: return ExprSt(VarX("b"));
    }
  }
  Block Make(const Skel& k) {
    Block b;
    for (auto& s : k) {
      if (s.s >= 0) {
        b.push_back(Simple(s.s));
        continue;
      }
      St w;
      w.k = St::kWhen;
      for (size_t i = 0; i < s.bodies.size(); i++) {
        if (s.has_else && i + 1 == s.bodies.size()) {
          w.has_else = true;
          w.els = Make(s.bodies[i]);
        } else {
          P cnd = Cond();
          w.br.push_back({cnd, Make(s.bodies[i])});
        }
      }
      b.push_back(std::move(w));
    }
    return b;
  }
};

inline Slot* CachedSlot(T t, int i, int which) {
  static std::map<std::tuple<T, int, int>, std::unique_ptr<Slot>> cache;
  auto& s = cache[{t, i, which}];
  if (!s) s = std::make_unique<Slot>(Operand(t, i, which));
  return s.get();
}
}  // namespace lang
