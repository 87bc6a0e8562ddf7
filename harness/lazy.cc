// C06: if, switch, and, or are lazy.  Every tree of control nodes up to a size, every truth assignment of its leaves,
// results and call logs compared with a lazy interpreter.
#include "lang.h"
using namespace lang;

namespace {
bool thorough = false;
enum Kind { kLeafK, kIfK, kSw3K, kSw5K, kAndK, kOrK, kAddK, kCallK, kNotK, kKinds };
const int kArity[kKinds] = {0, 3, 3, 5, 2, 2, 2, 2, 1};
struct Sh {
  int kind = 0;
  std::vector<Sh> c;
};
// all shapes with exactly k internal nodes
const std::vector<Sh>& Shapes(int k) {
  static std::map<int, std::vector<Sh>> memo;
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  std::vector<Sh> out;
  if (k == 0) {
    out.push_back({});
  } else {
    for (int kind = 1; kind < kKinds; kind++) {
      std::function<void(Sh&, int)> rec = [&](Sh& s, int left) {
        int done = static_cast<int>(s.c.size());
        if (done == kArity[kind]) {
          if (left == 0) out.push_back(s);
          return;
        }
        for (int n = 0; n <= left; n++)
          for (auto& sub : Shapes(n)) {
            s.c.push_back(sub);
            rec(s, left - n);
            s.c.pop_back();
          }
      };
      Sh s;
      s.kind = kind;
      rec(s, k - 1);
    }
  }
  return memo[k] = out;
}
// Gives the leaves types and operands.  want: kUnknown = any numeric type, otherwise exactly that type.
struct Typer {
  int off = 0, step = 1, leaf = 0, call = 0;
  K leafkind = K::kEv;
  std::vector<T> types;  // of the operands
  std::map<int, Val> consts;
  T Next(int i) const { return Nums()[static_cast<size_t>(off + step * i) % 10]; }
  std::optional<P> Go(const Sh& s, T want) {
    switch (s.kind) {
      case kLeafK: {
        T t = want == T::kUnknown ? Next(leaf) : want;
        int id = leaf++;
        types.push_back(t);
        auto f = consts.find(id);
        if (f != consts.end()) {
          if (IsList(t)) return std::nullopt;
          Val v = Operand(t, id, static_cast<int>(f->second.u));
          if (IsFloat(t) && f->second.u == 0) v.u = 0;
          return ConstX(v);
        }
        return leafkind == K::kEv ? EvX(t, id) : leafkind == K::kSv ? SvX(t, id) : LdX(t, id);
      }
      case kIfK:
      case kSw3K:
      case kSw5K: {
        std::vector<P> c;
        for (size_t i = 0; i < s.c.size(); i++) {
          bool cond = i % 2 == 0 && i + 1 < s.c.size();
          auto p = Go(s.c[i], cond ? T::kUnknown : want);
          if (!p) return std::nullopt;
          c.push_back(*p);
        }
        return s.kind == kIfK ? IfX(c) : SwX(c);
      }
      case kAndK:
      case kOrK: {
        if (want != T::kUnknown && want != kU8) return std::nullopt;
        auto a = Go(s.c[0], T::kUnknown);
        if (!a) return std::nullopt;
        auto b = Go(s.c[1], T::kUnknown);
        if (!b) return std::nullopt;
        return BinX(s.kind == kAndK ? Op::kLand : Op::kLor, *a, *b);
      }
      case kNotK: {
        if (want != T::kUnknown && want != kU8) return std::nullopt;
        auto a = Go(s.c[0], T::kUnknown);
        if (!a) return std::nullopt;
        return UnX(Un::kNot, *a);
      }
      case kAddK: {
        auto a = Go(s.c[0], want);
        if (!a) return std::nullopt;
        auto b = Go(s.c[1], want);
        if (!b) return std::nullopt;
        return BinX(Op::kAdd, *a, *b);
      }
      default: {
        if (leafkind != K::kEv) return std::nullopt;
        std::vector<T> tries{want == T::kUnknown ? Next(leaf + 4) : want};
        if (want == T::kUnknown) tries.push_back(kU8);
        for (T t : tries) {
          Typer save = *this;
          int id = call++;
          auto a = Go(s.c[0], t);
          auto b = a ? Go(s.c[1], t) : std::nullopt;
          if (a && b) return Call2X(t, id, *a, *b);
          *this = save;
        }
        return std::nullopt;
      }
    }
  }
};

struct Prog {
  P x;
  std::vector<T> types;
  K leafkind;
  size_t at = 0;
  T ret;
};
struct Pack {
  Batch b;
  std::vector<Prog> progs;
  void Add(Prog p) {
    auto t = TypeOf(p.x, [](const std::string&) { return std::nullopt; });
    if (!t) Die("ill typed: " + Text(p.x));
    p.ret = *t;
    if (p.leafkind == K::kSv) p.at = b.AddPipeline(Text(StoreX(*t, 500, p.x)) + ";");
    else p.at = b.Add(Text(p.x));
    progs.push_back(std::move(p));
  }
};

void RunOne(vf::Ctx& c, Pack& pk, const Prog& p, const std::vector<int>& which) {
  std::vector<std::unique_ptr<Slot>> own;
  static std::map<std::tuple<T, int, int>, std::unique_ptr<Slot>> cache;
  Ev ev;
  Machine m;
  Log calls;
  ev.log = &calls;
  for (size_t i = 0; i < p.types.size(); i++) {
    auto& s = cache[{p.types[i], static_cast<int>(i), which[i]}];
    if (!s) s = std::make_unique<Slot>(Operand(p.types[i], static_cast<int>(i), which[i]));
    ev.a[i] = s.get();
  }
  m.in = &ev;
  auto want = m.Eval(p.x);
  if (!want) return;
  if (p.leafkind == K::kSv) m.stores.emplace_back(500, *want);
  Val got;
  Recorder rec;
  Status st = p.leafkind == K::kSv ? pk.b.RunStore(p.at, ev, &rec) : pk.b.Run(p.at, ev, &got);
  c.Eval();
  bool ok = st.ok() && (p.leafkind == K::kSv || Same(got, *want)) && SameLog(calls, m.calls) && SameLog(rec.log, m.stores);
  if (!ok) {
    std::string in;
    for (size_t i = 0; i < p.types.size(); i++) in += (i ? ", " : "") + Show(Operand(p.types[i], static_cast<int>(i), which[i]));
    c.Fail(pk.b.Src(p.at) + " with operands " + in + ": status " + st.ToString() + ", result " +
           (p.leafkind == K::kSv ? "" : st.ok() ? Show(got) : "none") + ", calls " + ShowLog(calls) + ", stores " + ShowLog(rec.log) + "; expected " +
           Show(*want) + ", calls " + ShowLog(m.calls) + ", stores " + ShowLog(m.stores));
    return;
  }
  uint64_t h = vf::Hash(Show(*want));
  for (auto& [i, v] : m.calls) h = h * 31 + static_cast<uint64_t>(i) + 1;
  for (auto& [i, v] : m.stores) h = h * 31 + static_cast<uint64_t>(i) + 1;
  c.Outcome(h);
  c.SampleOf(std::to_string(p.types.size()) + " leaves", pk.b.Src(p.at) + " -> " + Show(*want) + ", calls " + ShowLog(m.calls));
}
void Finish(vf::Ctx& c, Pack& pk, const std::unique_ptr<FunctionRegistry>& reg) {
  pk.b.Compile(reg);
  if (!pk.b.BatchError().empty()) c.Extra("batches refused");
  for (auto& p : pk.progs) {
    c.Sub(pk.b.Src(p.at));
    if (!pk.b.Error(p.at).empty()) {
      c.Fail("accepted program refused: " + pk.b.Src(p.at) + ": " + pk.b.Error(p.at));
      continue;
    }
    size_t n = p.types.size();
    std::vector<int> which(n);
    for (int hi = 1; hi <= 2; hi++) {
      if (hi == 2 && n > (thorough ? 10U : 7U)) continue;
      if (n > (thorough ? 17U : 10U)) {  // every assignment with at most two leaves unlike the rest
        for (int base = 0; base < 2; base++)
          for (size_t i = 0; i < n; i++)
            for (size_t j = i; j < n; j++) {
              which.assign(n, base);
              which[i] = which[j] = 1 - base;
              RunOne(c, pk, p, which);
            }
        continue;
      }
      for (uint64_t m = hi == 1 ? 0 : 1; m < (1ULL << n); m++) {
        for (size_t i = 0; i < n; i++) which[i] = (m >> i) & 1 ? hi : 0;
        RunOne(c, pk, p, which);
      }
    }
  }
}

void Trees(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  struct Pat {
    T want;
    int off, step;
    K leaf;
  };
  for (int k = 1; k <= (thorough ? 4 : 3); k++) {
    std::vector<Pat> pats;
    int n = k <= 2 ? 10 : k == 3 ? (thorough ? 10 : 3) : 1;
    for (int i = 0; i < n; i++) pats.push_back({T::kUnknown, i * (k <= 2 ? 1 : 3), k % 2 ? 3 : 7, K::kEv});
    pats.push_back({kU8, 0, 0, K::kEv});
    for (T t : {kStr, T::kI32List, kF64}) pats.push_back({t, 5, 3, K::kEv});
    if (k <= 3) pats.push_back({kStrL, 2, 1, K::kEv}), pats.push_back({T::kUnknown, 4, 3, K::kLd}), pats.push_back({kStr, 4, 3, K::kLd});
    pats.push_back({T::kUnknown, 6, 3, K::kSv});
    if (k <= 3) pats.push_back({kStr, 1, 3, K::kSv}), pats.push_back({kU8, 0, 0, K::kSv});
    auto& sh = Shapes(k);
    for (size_t q = 0; q < pats.size(); q++)
      for (size_t lo = 0; lo < sh.size(); lo += 64) {
        if (!c.Begin([&] { return "trees of " + std::to_string(k) + " nodes, pattern " + std::to_string(q) + ", from " + std::to_string(lo); }))
          continue;
        Pack pk;
        for (size_t i = lo; i < std::min(lo + 64, sh.size()); i++) {
          if (!thorough && k == 3 && (i + q) % 3 != 0) continue;  // each tree with a third of the typings
          Typer ty;
          ty.off = pats[q].off, ty.step = pats[q].step, ty.leafkind = pats[q].leaf;
          auto x = ty.Go(sh[i], pats[q].want);
          if (x) pk.Add({*x, ty.types, pats[q].leaf, 0, kI32});
        }
        Finish(c, pk, reg);
      }
  }
}
void Consts(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (int k = 1; k <= 2; k++) {
    auto& sh = Shapes(k);
    for (size_t i = 0; i < sh.size(); i++)
      for (int pat = 0; pat < (thorough ? 10 : 3); pat++) {
        if (!c.Begin([&] { return "constants in tree " + std::to_string(k) + "/" + std::to_string(i) + ", pattern " + std::to_string(pat); }))
          continue;
        Pack pk;
        auto mk = [&](T want, const std::map<int, int>& cs, K leaf) {
          Typer ty;
          ty.off = pat * 3, ty.step = 3, ty.leafkind = leaf;
          for (auto& [a, v] : cs) ty.consts[a] = N(kI32, static_cast<uint64_t>(v));
          auto x = ty.Go(sh[i], want);
          if (x) pk.Add({*x, ty.types, leaf, 0, kI32});
          return ty.leaf;
        };
        int n = mk(T::kUnknown, {}, K::kEv);
        for (int a = 0; a < n; a++)
          for (int va = 0; va < 2; va++) {
            mk(T::kUnknown, {{a, va}}, K::kEv);
            if (pat == 0) mk(kStr, {{a, va}}, K::kEv);
            for (int b = a + 1; b < n; b++)
              for (int vb = 0; vb < 2; vb++) {
                mk(T::kUnknown, {{a, va}, {b, vb}}, K::kEv);
                if (pat == 1) mk(T::kUnknown, {{a, va}, {b, vb}}, K::kSv);
              }
          }
        for (int m = 0; m < (1 << std::min(n, 5)); m++) {  // everything constant, for the first leaves
          std::map<int, int> cs;
          for (int a = 0; a < std::min(n, 5); a++) cs[a] = (m >> a) & 1;
          mk(T::kUnknown, cs, K::kEv);
        }
        // only the leaves that are still read need assignments: constants ignore theirs
        pk.b.Compile(reg);
        for (auto& p : pk.progs) {
          c.Sub(pk.b.Src(p.at));
          if (!pk.b.Error(p.at).empty()) {
            c.Fail("accepted program refused: " + pk.b.Src(p.at) + ": " + pk.b.Error(p.at));
            continue;
          }
          for (uint64_t m = 0; m < (1ULL << p.types.size()); m++) {
            std::vector<int> w;
            for (size_t j = 0; j < p.types.size(); j++) w.push_back((m >> j) & 1);
            RunOne(c, pk, p, w);
          }
        }
      }
  }
}
// long chains: the positions that matter are enumerated one by one
void Chains(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (int form = 0; form < 8; form++)
    for (int n = 2; n <= 400; n++) {
      if (n > (thorough ? 60 : 40) && n != 64 && n != 65 && n != 127 && n != 128 && n != 129 && n != 256 && n != 257 && n != 300) continue;
      if (!c.Begin([&] { return "chain form " + std::to_string(form) + " length " + std::to_string(n); })) continue;
      Pack pk;
      for (K leaf : {K::kEv, K::kSv, K::kLd}) {
        std::vector<T> types;
        auto lf = [&](T t) {
          int id = static_cast<int>(types.size());
          types.push_back(t);
          return leaf == K::kEv ? EvX(t, id) : leaf == K::kSv ? SvX(t, id) : LdX(t, id);
        };
        auto nt = [&](int i) { return Nums()[static_cast<size_t>(i * 3) % 10]; };
        P x;
        if (form == 0 || form == 1) {  // left-nested and/or
          x = lf(nt(0));
          for (int i = 1; i < n; i++) x = BinX(form ? Op::kLor : Op::kLand, x, lf(nt(i)));
        } else if (form == 2 || form == 3) {  // right-nested
          std::vector<P> l;
          for (int i = 0; i < n; i++) l.push_back(lf(nt(i)));
          x = l.back();
          for (int i = n - 2; i >= 0; i--) x = BinX(form == 3 ? Op::kLor : Op::kLand, l[static_cast<size_t>(i)], x);
        } else if (form == 4) {  // alternating
          x = lf(nt(0));
          for (int i = 1; i < n; i++) x = BinX(i % 2 ? Op::kLor : Op::kLand, x, lf(nt(i)));
        } else if (form == 5) {  // switch with n cases
          std::vector<P> l;
          for (int i = 0; i < n; i++) l.push_back(lf(nt(i))), l.push_back(lf(kI64));
          l.push_back(lf(kI32));
          x = SwX(l);
        } else if (form == 6) {  // if nested in the else branch
          std::vector<P> l;
          for (int i = 0; i < n; i++) l.push_back(lf(nt(i))), l.push_back(lf(kStr));
          x = lf(kStr);
          for (int i = n - 1; i >= 0; i--) x = IfX({l[static_cast<size_t>(2 * i)], l[static_cast<size_t>(2 * i + 1)], x});
        } else {  // if nested in the then branch
          std::vector<P> l;
          for (int i = 0; i < n; i++) l.push_back(lf(nt(i)));
          x = lf(kF32);
          for (int i = n - 1; i >= 0; i--) x = IfX({l[static_cast<size_t>(i)], x, lf(kI16)});
        }
        if (types.size() > 1000) continue;
        if (n > 130 && leaf == K::kSv) continue;
        pk.Add({x, types, leaf, 0, kI32});
      }
      pk.b.Compile(reg);
      for (auto& p : pk.progs) {
        c.Sub(pk.b.Src(p.at));
        if (!pk.b.Error(p.at).empty()) {
          c.Fail("accepted program refused: " + pk.b.Src(p.at) + ": " + pk.b.Error(p.at));
          continue;
        }
        size_t k = p.types.size();
        for (int base = 0; base < 3; base++)
          for (size_t i = 0; i <= k; i++) {
            std::vector<int> w(k, base);
            if (i < k) w[i] = base ? 0 : 1 + static_cast<int>(i % 2);
            RunOne(c, pk, p, w);
            if ((!thorough && k > 30) || k > 130) continue;
            for (size_t j = i + 1; j < k; j++) {
              auto w2 = w;
              w2[j] = base ? 0 : 1;
              RunOne(c, pk, p, w2);
            }
          }
      }
    }
}
// operations that must not run, or trap, when they are not selected
void Guards(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (T t : Ints())
    for (T tb : Ints()) {
      if (!thorough && t != tb && Rank(t) % 3 != Rank(tb) % 3) continue;
      if (!c.Begin([&] { return std::string("guards ") + Name(t) + " " + Name(tb); })) continue;
      Batch b;
      std::vector<P> ps;
      P A = LdX(t, 0), B = LdX(tb, 1), C = LdX(t, 2), Z = ConstX(N(tb, 0)), O = ConstX(N(tb, 1));
      for (Op o : {Op::kDiv, Op::kMod}) {
        P q = BinX(o, A, B);
        P k = BinX(o, ConstX(N(t, 7)), B);
        P notm1 = BinX(Op::kAdd, B, O);  // zero for -1
        ps.push_back(IfX({B, q, C}));
        ps.push_back(IfX({B, k, C}));
        ps.push_back(IfX({BinX(Op::kEq, B, Z), C, q}));
        ps.push_back(SwX({BinX(Op::kEq, B, Z), C, q}));
        ps.push_back(SwX({BinX(Op::kEq, B, Z), C, BinX(Op::kEq, q, C), A, q}));
        ps.push_back(BinX(Op::kLand, B, q));
        ps.push_back(BinX(Op::kLand, BinX(Op::kNe, B, Z), BinX(Op::kGt, q, O)));
        ps.push_back(BinX(Op::kLor, BinX(Op::kEq, B, Z), q));
        ps.push_back(BinX(Op::kLor, UnX(Un::kNot, B), q));
        ps.push_back(IfX({BinX(Op::kLand, B, notm1), q, C}));
        ps.push_back(IfX({BinX(Op::kLand, B, notm1), BinX(Op::kAdd, q, BinX(o, C, B)), C}));
        ps.push_back(BinX(Op::kAdd, IfX({B, q, C}), IfX({B, BinX(o, C, B), A})));
        ps.push_back(IfX({B, IfX({A, q, C}), IfX({C, A, C})}));
        ps.push_back(IfX({BinX(Op::kLor, UnX(Un::kNot, B), UnX(Un::kNot, A)), C, BinX(Op::kLand, q, BinX(o, B, A))}));
      }
      for (auto& x : ps) b.Add(Text(x));
      b.Compile(reg);
      auto da = Domain(t, 0), db = Domain(tb, 0);
      AddU(db, 3);
      for (size_t i = 0; i < ps.size(); i++) {
        c.Sub(b.Src(i));
        if (!b.Error(i).empty()) {
          c.Fail("accepted program refused: " + b.Src(i) + ": " + b.Error(i));
          continue;
        }
        for (auto u : da)
          for (auto v : db)
            for (auto w : da) {
              Slot s0(N(t, u)), s1(N(tb, v)), s2(N(t, w));
              Args a;
              a.a[0] = &s0, a.a[1] = &s1, a.a[2] = &s2;
              Machine m;
              m.in = &a;
              auto want = m.Eval(ps[i]);
              if (!want) continue;
              Val got;
              c.Sub(b.Src(i) + " on " + Show(t, u) + ", " + Show(tb, v) + ", " + Show(t, w));
              auto st = b.Run(i, a, &got);
              c.Eval();
              if (!st.ok() || !Same(got, *want))
                c.Fail(b.Src(i) + " on " + Show(t, u) + ", " + Show(tb, v) + ", " + Show(t, w) + ": " + (st.ok() ? Show(got) : st.ToString()) +
                       ", expected " + Show(*want));
              else
                c.Outcome(Show(*want));
            }
      }
    }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string&) {
    thorough = c.thorough;
    auto reg = NewRegistry();
    AddStores(reg.get());
    AddEvents(reg.get());
    Guards(c, reg);
    Chains(c, reg);
    Consts(c, reg);
    Trees(c, reg);
  });
}
