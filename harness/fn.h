// A table of functions, each with its reference model and the enumeration of its inputs.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include "alike.h"
#include "jf.h"
using namespace jf;

namespace {
struct Exp {
  enum Kind { kVal, kErr, kAny, kSkip } k = kAny;
  Val v;
  bool numeq = false;  // zeros of either sign are the same
  double rel = 0;      // relative tolerance of floats, scaled by `scale`
  double scale = 0;
  bool sign = false;  // only the sign is specified
};
Exp V(Val v) { return {Exp::kVal, std::move(v)}; }
Exp Err() { return {Exp::kErr, {}}; }
Exp Any() { return {Exp::kAny, {}}; }
Exp Skip() { return {Exp::kSkip, {}}; }
using In = std::vector<Val>;
using Model = std::function<Exp(const In&)>;
using Emit = std::function<void(const In&)>;
using Gen = std::function<void(vf::Ctx&, const Emit&)>;
struct Fn {
  std::string prop, name;
  std::vector<T> args;
  T ret;
  Model m;
  Gen g;
  std::string text;  // when not name(args...)
  int konst = 12;    // how many of the inputs are also compiled as constants
  bool both = false;  // also run in fast mode
  // how to build the call from argument nodes when it is not a function call
  std::function<std::unique_ptr<ExecNode>(std::vector<std::unique_ptr<ExecNode>>)> node;
};
std::vector<Fn> table;
bool thorough = false, lean = false, memory = false;  // memory: C26, arguments that do not fit are also tried

// ---------------------------------------------------------------- domains
// k distinct interesting elements
std::vector<uint64_t> Few(T t, int k, bool nan) {
  std::vector<uint64_t> d;
  if (IsInt(t)) {
    std::vector<i128> c{1, 0, IMax(t), IMin(t), 2, IsSigned(t) ? static_cast<i128>(-1) : IMax(t) - 1, IMax(t) / 2 + 1};
    for (auto x : c) AddU(d, Wrap(t, x));
  } else {
    std::vector<double> c{1.5, -2.5, 0.0};
    if (nan) c.push_back(NAN);
    c.push_back(-0.0);
    c.push_back(INFINITY);
    c.push_back(-INFINITY);
    c.push_back(3.0);
    for (double x : c) AddU(d, t == kF32 ? B32(static_cast<float>(x)) : B64(x));
  }
  if (static_cast<int>(d.size()) > k) d.resize(static_cast<size_t>(k));
  return d;
}
const std::vector<std::string>& Strs() {
  static const std::vector<std::string> v{"a", "", "b", std::string("a\0", 2), "ab", "\xff", std::string(40, 'a'), std::string(40, 'a') + "b"};
  return v;
}
Val ListVal(T e, std::vector<uint64_t> u) { return L(ListOf(e), std::move(u)); }
// all sequences over d of every length up to n
template <class X>
void Seqs(const std::vector<X>& d, int n, const std::function<void(const std::vector<X>&)>& f) {
  std::vector<X> cur;
  std::function<void()> rec = [&] {
    f(cur);
    if (static_cast<int>(cur.size()) == n) return;
    for (auto& x : d) {
      cur.push_back(x);
      rec();
      cur.pop_back();
    }
  };
  rec();
}
// lists of element type e (string or number)
void Lists(T e, int n, int k, bool nan, const std::function<void(const Val&)>& f) {
  if (e == kStr) {
    auto d = Strs();
    d.resize(static_cast<size_t>(k));
    Seqs<std::string>(d, n, [&](auto& s) { f(SL(s)); });
  } else {
    Seqs<uint64_t>(Few(e, k, nan), n, [&](auto& s) { f(ListVal(e, s)); });
  }
}
int SweepMax() { return thorough ? 140 : 68; }
// lean: the quick run under the address sanitizer; lists of one element fewer and the odd element at fewer places
int Short(int n) { return lean ? n - 1 : n; }
uint64_t Small(T t, int i) {
  if (IsInt(t)) return Wrap(t, i);
  return t == kF32 ? B32(static_cast<float>(i)) : B64(i);
}
// every length: ascending, descending, equal, boundary values rotated, one odd element at every position
void Sweep(T e, bool nan, const std::function<void(const Val&)>& f) {
  int mx = SweepMax();
  std::vector<uint64_t> dom;
  if (e != kStr)
    for (uint64_t u : Domain(e, 1))
      if (nan || !IsNaN(e, u)) dom.push_back(u);
  for (int n = 0; n <= mx; n++) {
    auto mk = [&](const std::function<uint64_t(int)>& at) {
      if (e == kStr) {
        std::vector<std::string> s;
        for (int i = 0; i < n; i++) s.push_back("k" + std::to_string(at(i)));
        f(SL(s));
      } else {
        std::vector<uint64_t> s;
        for (int i = 0; i < n; i++) s.push_back(at(i));
        f(ListVal(e, s));
      }
    };
    if (e == kStr) {
      mk([&](int i) { return static_cast<uint64_t>(i); });
      mk([&](int) { return 7ULL; });
      mk([&](int i) { return static_cast<uint64_t>(i % 3); });
      for (int p = 0; p < n; p++) mk([&](int i) { return i == p ? 1ULL : 0ULL; });
      continue;
    }
    mk([&](int i) { return Small(e, i % 120); });
    mk([&](int i) { return Small(e, (n - i) % 120); });
    mk([&](int) { return Small(e, 5); });
    mk([&](int i) { return Small(e, i % 3); });
    for (size_t r = 0; r < dom.size(); r += thorough ? 1 : 7) mk([&](int i) { return dom[(static_cast<size_t>(i) + r) % dom.size()]; });
    auto few = Few(e, 4, nan);
    if (n <= (thorough ? 140 : lean ? 10 : 40))
      for (int p = 0; p < n; p++)
        for (auto s : few) mk([&](int i) { return i == p ? s : Small(e, 2); });
  }
  if (e != kStr && Width(e) == 8) f(ListVal(e, FullDomain(e)));
  if (e != kStr && Width(e) == 16) f(ListVal(e, FullDomain(e)));
}
std::vector<uint64_t> Scalars(T e, bool nan) {
  std::vector<uint64_t> r;
  for (uint64_t u : Domain(e, 1))
    if (nan || !IsNaN(e, u)) r.push_back(u);
  return r;
}
Val Sc(T e, uint64_t u) { return N(e, u); }

Gen GList(T e, bool nan) {
  return [=](vf::Ctx&, const Emit& em) {
    Lists(e, thorough ? 5 : Short(4), e == kStr ? 5 : thorough ? 6 : 5, nan, [&](const Val& l) { em({l}); });
    Sweep(e, nan, [&](const Val& l) { em({l}); });
  };
}
using Def = std::function<bool(uint64_t, uint64_t)>;
// list x scalar of the same element type; `def` says which element/scalar pairs may be executed
Gen GListScalar(T e, bool nan, Def def = nullptr) {
  return [=](vf::Ctx& c, const Emit& em) {
    auto sc = Scalars(e, nan);
    auto keep = [&](const Val& l, uint64_t s) {
      if (!def) return l;
      Val r = l;
      r.l.clear();
      for (auto u : l.l)
        if (def(u, s)) r.l.push_back(u);
      return r;
    };
    Lists(e, thorough ? 4 : Short(3), 4, nan, [&](const Val& l) {
      for (auto s : sc) em({keep(l, s), Sc(e, s)});
    });
    auto few = Few(e, 3, nan);
    Sweep(e, nan, [&](const Val& l) {
      for (auto s : few) em({keep(l, s), Sc(e, s)});
    });
    std::vector<uint64_t> d;
    for (uint64_t u : Width(e) == 8 && !lean ? FullDomain(e) : Domain(e, lean ? 1 : 2))
      if (nan || !IsNaN(e, u)) d.push_back(u);
    for (auto s : d) {
      c.Beat();
      em({keep(ListVal(e, d), s), Sc(e, s)});
    }
  };
}
Gen GListList(T e, bool nan, Def def = nullptr) {
  return [=](vf::Ctx& c, const Emit& em) {
    auto put = [&](Val a, Val b) {
      if (def && a.l.size() == b.l.size()) {
        Val x = a, y = b;
        x.l.clear(), y.l.clear();
        for (size_t i = 0; i < a.l.size(); i++)
          if (def(a.l[i], b.l[i])) x.l.push_back(a.l[i]), y.l.push_back(b.l[i]);
        em({x, y});
      } else {
        em({a, b});
      }
    };
    std::vector<Val> ls;
    Lists(e, thorough ? 3 : 2, thorough ? 5 : 6, nan, [&](const Val& l) { ls.push_back(l); });
    for (auto& a : ls)
      for (auto& b : ls) put(a, b);
    // every pair of lengths
    for (int n = 0; n <= 24; n++)
      for (int m = 0; m <= 24; m++) {
        std::vector<uint64_t> a, b;
        for (int i = 0; i < n; i++) a.push_back(Small(e, i + 1));
        for (int i = 0; i < m; i++) b.push_back(Small(e, 3 * i + 1));
        put(ListVal(e, a), ListVal(e, b));
      }
    // every pair of values, in both roles
    std::vector<uint64_t> d, a, b;
    for (uint64_t u : Width(e) == 8 && !lean ? FullDomain(e) : Domain(e, thorough ? 2 : lean ? 0 : 1))
      if (nan || !IsNaN(e, u)) d.push_back(u);
    for (auto x : d)
      for (auto y : d) a.push_back(x), b.push_back(y);
    put(ListVal(e, a), ListVal(e, b));
    // every length against its own reverse and rotation
    Sweep(e, nan, [&](const Val& l) {
      if (l.l.size() > 300) return;
      c.Beat();
      Val r = l;
      std::reverse(r.l.begin(), r.l.end());
      put(l, r);
      if (r.l.size() > 1) std::rotate(r.l.begin(), r.l.begin() + 1, r.l.end());
      put(l, r);
    });
  };
}

bool Cmp(Op o, T e, uint64_t a, uint64_t b) { return SameTypeOp(o, e, a, b)->u != 0; }
bool Less(T e, uint64_t a, uint64_t b) { return Cmp(Op::kLt, e, a, b); }
bool Equal(T e, uint64_t a, uint64_t b) { return Cmp(Op::kEq, e, a, b); }
// generic element view: numbers and strings
size_t Len(const Val& l) { return l.t == kStrL ? l.sl.size() : l.l.size(); }
void Push(Val& r, const Val& a, size_t i) {
  if (a.t == kStrL) r.sl.push_back(a.sl[i]);
  else r.l.push_back(a.l[i]);
}
Val Empty(T t) {
  Val v;
  v.t = t;
  return v;
}
uint64_t Wrap2(T t, int64_t i) {
  if (IsInt(t)) return Wrap(t, i);
  return t == kF32 ? B32(static_cast<float>(i)) : B64(static_cast<double>(i));
}
uint64_t Bits(T t, double d) { return t == kF32 ? B32(static_cast<float>(d)) : B64(d); }
void AddFn(const std::string& prop, const std::string& name, std::vector<T> args, T ret, Model m, Gen g, std::string text = "") {
  table.push_back({prop, name, std::move(args), ret, std::move(m), std::move(g), std::move(text)});
}

// equal elements have equal keys
std::string KeyOf(const Val& l, size_t i) {
  if (l.t == kStrL) return l.sl[i];
  T e = ElemOf(l.t);
  uint64_t u = IsFloat(e) && AsDouble(e, l.l[i]) == 0 ? 0 : l.l[i];
  return std::string(reinterpret_cast<const char*>(&u), 8);
}
// far longer lists than the enumerations reach, of regular content: sizes at which counters, hash tables, chunks and
// sorting strategies change
void Long(const Fn& f, vf::Ctx& c, const Emit& em) {
  std::vector<size_t> at;
  for (size_t i = 0; i < f.args.size(); i++)
    if (IsList(f.args[i])) at.push_back(i);
  if (at.empty()) return;
  auto pattern = [](T t, size_t n, int p) {
    Val v = Empty(t);
    T e = t == kStrL ? kStr : ElemOf(t);
    size_t cap = e != kStr && Width(e) == 8 ? 100 : e != kStr && Width(e) == 16 ? 30000 : SIZE_MAX;
    for (size_t i = 0; i < n; i++) {
      size_t x = 0;
      bool neg = false;
      switch (p) {
        case 0: x = i; break;
        case 1: x = i % 7; break;
        case 2: x = n - i; break;
        case 3: x = i * 7919 % 10007; break;
        case 4: x = i == n / 2 ? 9 : 4; break;
        case 5: x = i / 3; break;
        case 6: x = i * 31 % 257, neg = i % 2; break;
        case 7: x = i + 1 == n ? 9 : 4; break;
        default: x = i * 17 % 1000; break;
      }
      if (p == 8) {  // elements that differ in high bits, in the last place, or hardly
        if (e == kStr) v.sl.push_back(i < 2 * Twins().size() ? (i % 2 ? Twins()[i / 2].first : Twins()[i / 2].second) : std::string{static_cast<char>(i * 3 & 255), static_cast<char>(i * 3 >> 8 & 255)});
        else if (e == kU32) v.l.push_back(x);
        else if (e == kF32) v.l.push_back(B32(1 + static_cast<float>(x) * 0x1p-20f));
        else if (e == kF64) v.l.push_back(B64(1 + static_cast<double>(x) * 0x1p-50));
        else v.l.push_back(Wrap(e, 5 + (x << Width(e) / 2)));
        continue;
      }
      // a list of u32 may be group numbers or positions, which count from zero
      if (e == kStr) v.sl.push_back(p == 3 ? std::string(x % 40, 'p') + std::to_string(x) : "k" + std::to_string(x));
      else if (e == kU32) v.l.push_back(x);
      else v.l.push_back(Wrap2(e, neg && (IsFloat(e) || IsSigned(e)) ? -1 - static_cast<int64_t>(x % cap) : 1 + static_cast<int64_t>(x % cap)));
    }
    return v;
  };
  std::vector<size_t> sizes{100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097, 20000, 65536, 65537};
  if (thorough) sizes.insert(sizes.end(), {254, 512, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 8192, 16385, 32767, 32768, 65535, 100000, 131073});
  if (memory) sizes = {257, 4097};
  bool packed = f.name.find("Bitmap") != std::string::npos && f.name.rfind("Gen", 0) != 0;
  if (f.name == "CrossJoin") sizes = memory ? std::vector<size_t>{40} : std::vector<size_t>{100, 127, 129, 255, 257, 300};  // the result has the product of the lengths
  for (size_t n : sizes)
    for (int p = 0; p < 9; p++)
      for (int q = 0; q < (at.size() > 1 ? 9 : 1); q++) {
        if (n > 5000 && !thorough && (p % 2 == 0 ? q % 4 != 0 : q % 4 != 1)) continue;
        c.Beat();
        In in(f.args.size());
        size_t k = 0;
        for (size_t i : at) {
          if (packed && f.args[i] == T::kU8List && (i == 0) == (f.name[0] == 'I')) {
            Val b = Empty(T::kU8List);
            for (size_t j = 0; j < (n + 7) / 8; j++) b.l.push_back(q == 0 ? 255 : q == 1 ? 0 : (j * 37 + static_cast<size_t>(q) * 11) & 255);
            if (n % 8) b.l.back() &= (1U << n % 8) - 1;
            in[i] = b;
          } else {
            in[i] = pattern(f.args[i], n, k ? q : p);
            k++;
          }
        }
        std::vector<size_t> sc;
        for (size_t i = 0; i < f.args.size(); i++)
          if (!IsList(f.args[i])) sc.push_back(i);
        if (sc.empty()) {
          em(in);
          continue;
        }
        const Val& l = in[at[0]];
        for (int w = 0; w < 5; w++) {
          for (size_t i : sc) {
            size_t pos = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 1 : w == 3 ? n : n + 7;
            T t = f.args[i];
            if (t == kStr) in[i] = S(w < 3 && l.t == kStrL ? l.sl[pos] : "missing");
            else if (w < 3 && IsList(l.t) && l.t != kStrL && ElemOf(l.t) == t && f.name != "GetAt" && f.name != "Truncate") in[i] = N(t, l.l[std::min(pos, l.l.size() - 1)]);
            else in[i] = N(t, t == kU32 ? pos : Wrap2(t, 1 + static_cast<int64_t>(pos % 90)));
          }
          em(in);
        }
      }
}

bool Near(T t, uint64_t a, uint64_t b, const Exp& x) {
  if (SameBits(t, a, b)) return true;
  if (!IsFloat(t)) return false;
  double p = AsDouble(t, a), q = AsDouble(t, b);
  if (x.numeq && p == q) return true;
  if (x.rel > 0 && std::isfinite(p) && std::isfinite(q)) return std::fabs(p - q) <= x.rel * std::max({std::fabs(p), std::fabs(q), x.scale}) + 1e-300;
  return false;
}
bool Match(const Val& got, const Exp& x) {
  if (got.t != x.v.t) return false;
  if (x.sign) {
    auto sg = [](const Val& v) { return v.u == 0 ? 0 : static_cast<int64_t>(v.u) < 0 ? -1 : 1; };
    return sg(got) == sg(x.v);
  }
  if (IsNum(got.t)) return Near(got.t, got.u, x.v.u, x);
  if (got.t == kStr) return got.s == x.v.s;
  if (got.t == kStrL) return got.sl == x.v.sl;
  if (got.l.size() != x.v.l.size()) return false;
  for (size_t i = 0; i < got.l.size(); i++)
    if (!Near(ElemOf(got.t), got.l[i], x.v.l[i], x)) return false;
  return true;
}
uint64_t HashVal(const Val& v) {
  uint64_t h = vf::Hash(&v.u, 8, static_cast<uint64_t>(v.t) + 77);
  if (!v.l.empty()) h = vf::Hash(v.l.data(), v.l.size() * 8, h);
  for (auto& s : v.sl) h = vf::Hash(s, h * 31);
  return vf::Hash(v.s, h);
}
std::string ShowIn(const In& in) {
  std::string o;
  for (auto& v : in) o += (o.empty() ? "" : ", ") + Show(v);
  return o.substr(0, 900);
}

// fast mode promises nothing about these
bool Special(const In& in, const Val& out) {
  auto bad = [](const Val& v) {
    T e = IsList(v.t) ? ElemOf(v.t) : v.t;
    if (!IsFloat(e)) return false;
    auto b = [&](uint64_t u) { return !std::isfinite(AsDouble(e, u)) || (AsDouble(e, u) == 0 && std::signbit(AsDouble(e, u))); };
    if (!IsList(v.t)) return b(v.u);
    for (auto u : v.l)
      if (b(u)) return true;
    return false;
  };
  for (auto& v : in)
    if (bad(v)) return true;
  return bad(out);
}
// every function of the property over its inputs; a few of them also as constants, twice
void Run(vf::Ctx& c, const std::string& prop, const std::function<void()>& build) {
  thorough = c.thorough && prop != "C26";
  memory = prop == "C26";
#ifdef __SANITIZE_ADDRESS__
  lean = memory && !c.thorough;
#endif
  build();
  std::unique_ptr<FunctionRegistry> reg;
  for (auto& f : table) {
    if (prop != "C26" && f.prop != prop) continue;
    if (!c.Begin([&] {
          std::string k = f.name + "(";
          for (T t : f.args) k += std::string(k.back() == '(' ? "" : ",") + Name(t);
          return k + ")";
        }))
      continue;
    if (!reg) reg = NewRegistry();
    std::string src = f.text;
    if (src.empty()) {
      src = f.name + "(";
      for (size_t i = 0; i < f.args.size(); i++) src += (i ? ", " : "") + Ld(f.args[i], static_cast<int>(i));
      src += ")";
    }
    Batch b;
    size_t e0 = b.Add(src);
    // the length the program sees must be the length the caller gets
    size_t e1 = IsList(f.ret) && !memory ? b.Add("Len(" + src + ")") : SIZE_MAX;
    b.Compile(reg);
    c.Extra("functions");
    if (!b.Error(e0).empty()) {
      c.Fail(src + ": " + b.Error(e0));
      continue;
    }
    std::unique_ptr<Batch> fast;
    if (f.both && !memory) {
      fast = std::make_unique<Batch>(Opt(FPMathMode::kFast));
      fast->Add(src);
      fast->Compile(reg);
    }
    std::vector<Slot> slots(f.args.size());
    Args args;
    for (size_t i = 0; i < slots.size(); i++) args.a[i] = &slots[i];
    uint64_t n = 0, vals = 0;
    std::vector<std::pair<In, Exp>> konst;
    Emit each = [&](const In& in) {
      Exp x = f.m(in);
      if (x.k == Exp::kSkip) return;
      if (memory && (c.only_mode || n % 16 == 0)) c.Sub(ShowIn(in));
      if (++n % 64 == 0) c.Beat();
      for (size_t i = 0; i < in.size(); i++) slots[i].Set(in[i]);
      Val got;
      auto st = b.Run(e0, args, &got);
      c.Eval();
#ifdef VF_GUARD
      if (guard::g_broken) {
        c.Fail(src + " with " + ShowIn(in) + " or the input before: memory outside a block was written");
        guard::g_broken = 0;
      }
#endif
      for (size_t i = 0; i < in.size(); i++)
        if (!slots[i].Intact()) c.Fail(src + " with " + ShowIn(in) + ": operand " + std::to_string(i) + " was modified");
      if (x.k == Exp::kErr) {
        if (st.ok()) c.Fail(src + " with " + ShowIn(in) + ": got " + Show(got).substr(0, 300) + ", expected an error");
        c.Outcome(vf::Hash(f.name, 3));
        return;
      }
      if (x.k == Exp::kAny) return;
      if (!st.ok())
        c.Fail(src + " with " + ShowIn(in) + ": " + st.ToString() + ", expected " + Show(x.v).substr(0, 300));
      else if (!Match(got, x))
        c.Fail(src + " with " + ShowIn(in) + ": got " + Show(got).substr(0, 400) + ", expected " + Show(x.v).substr(0, 400));
      c.Outcome(vf::Hash(f.name, HashVal(x.v)));
      // the first few, then positions that double
      vals++;
      size_t kmax = static_cast<size_t>(f.konst);
      if ((f.text.empty() || f.node) && konst.size() < kmax && (vals <= kmax / 2 || f.konst > 100 || (vals & (vals - 1)) == 0)) {
        size_t bytes = 0;
        for (auto& v : in) bytes += v.l.size() * 8 + v.sl.size() * 16;
        if (bytes < 2000) konst.emplace_back(in, x);
      }
      if (n % 997 == 5) c.SampleOf(f.name, ShowIn(in).substr(0, 200) + " -> " + Show(x.v).substr(0, 200));
      if (fast && !Special(in, x.v)) {
        st = fast->Run(0, args, &got);
        c.Eval();
        Exp y = x;
        y.numeq = true;
        if (!st.ok() || !Match(got, y))
          c.Fail(src + " with " + ShowIn(in) + " in fast mode: " + (st.ok() ? Show(got).substr(0, 400) : st.ToString()) + ", expected " + Show(x.v).substr(0, 400));
      }
      if (e1 != SIZE_MAX) {
        st = b.Run(e1, args, &got);
        if (!st.ok() || got.t != kU32 || got.u != Len(x.v)) c.Fail("Len(" + src + ") with " + ShowIn(in) + ": " + (st.ok() ? Show(got) : st.ToString()));
      }
    };
    f.g(c, each);
    Long(f, c, each);
    if (konst.empty() || memory) continue;
    for (auto mode : {FPMathMode::kStrict, FPMathMode::kFast}) {
      Batch kb(Opt(mode));
      for (auto& [in, x] : konst) {
        std::vector<std::unique_ptr<ExecNode>> a;
        for (auto& v : in) a.push_back(ConstNode(v));
        kb.AddNode(f.node ? f.node(std::move(a)) : Call(f.name, std::move(a)));
      }
      kb.Compile(reg);
      Args none;
      for (int round = 0; round < 2; round++)
        for (size_t i = 0; i < konst.size(); i++) {
          auto& [in, x] = konst[i];
          c.Beat();
          if (mode == FPMathMode::kFast && Special(in, x.v)) continue;
          Val got;
          c.Eval();
          if (!kb.Error(i).empty()) {
            c.Fail(f.name + " of constants " + ShowIn(in) + ": " + kb.Error(i));
            break;
          }
          auto st = kb.Run(i, none, &got);
          if (!st.ok() || !Match(got, x))
            c.Fail(f.name + " of constants " + ShowIn(in) + " (" + (mode == FPMathMode::kFast ? "fast" : "strict") + " mode, execution " + std::to_string(round + 1) +
                   "): got " + (st.ok() ? Show(got).substr(0, 400) : st.ToString()) + ", expected " + Show(x.v).substr(0, 400));
        }
    }
  }
}
}  // namespace
