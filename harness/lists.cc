// C11-C15: every list function against its definition.  C26 (sanitized build): the same space plus arguments that
// do not fit together.
#include <algorithm>
#include <map>
#include <set>
#include "fn.h"

namespace {
// ---------------------------------------------------------------- models
using F2 = std::function<std::optional<uint64_t>(uint64_t, uint64_t)>;
Model EachScalar(F2 f, T ret) {
  return [=](const In& in) {
    Val r;
    r.t = ret;
    for (auto u : in[0].l) {
      auto x = f(u, in[1].u);
      if (!x) return Skip();
      r.l.push_back(*x);
    }
    return V(r);
  };
}
Model EachList(F2 f, T ret) {
  return [=](const In& in) {
    if (in[0].l.size() != in[1].l.size()) return Err();
    Val r;
    r.t = ret;
    for (size_t i = 0; i < in[0].l.size(); i++) {
      auto x = f(in[0].l[i], in[1].l[i]);
      if (!x) return Skip();
      r.l.push_back(*x);
    }
    return V(r);
  };
}
bool ElemEq(const Val& a, size_t i, const Val& b, size_t j) {
  if (a.t == kStrL) return a.sl[i] == b.sl[j];
  return Equal(ElemOf(a.t), a.l[i], b.l[j]);
}
bool ElemEqS(const Val& a, size_t i, const Val& s) {
  if (a.t == kStrL) return a.sl[i] == s.s;
  return Equal(ElemOf(a.t), a.l[i], s.u);
}
bool ElemLess(const Val& a, size_t i, size_t j) {
  if (a.t == kStrL) return a.sl[i] < a.sl[j];
  return Less(ElemOf(a.t), a.l[i], a.l[j]);
}
// sum / average of a list: exact when every partial result is, otherwise within rounding
Exp SumOf(T e, const std::vector<uint64_t>& l, bool avg) {
  if (avg && l.empty()) return V(N(kF64, 0));
  if (!avg && IsInt(e)) {
    i128 s = 0;
    for (auto u : l) s += Int(e, u);
    T rt = IsSigned(e) ? kI64 : kU64;
    if (IsSigned(e)) {
      // signed overflow of an intermediate sum is not defined
      i128 p = 0;
      for (auto u : l) {
        p += Int(e, u);
        if (p != Int(kI64, Wrap(kI64, p))) return Any();
      }
    }
    return V(N(rt, Wrap(rt, s)));
  }
  double s = 0, mag = 0;
  bool inexact = false, special = false;
  for (auto u : l) {
    double d = AsDouble(e, u);
    if (!std::isfinite(d)) special = true;
    double before = s;
    s += d;
    mag += std::fabs(d);
    if (IsInt(e) ? Int(e, u) != static_cast<i128>(d) : false) inexact = true;
    if (!special && (s - before != d || s - d != before)) inexact = true;
  }
  if (!special && !std::isfinite(mag)) return Any();
  Exp x = V(N(kF64, B64(avg ? s / static_cast<double>(l.size()) : s)));
  x.numeq = true;
  if (inexact && !special) {
    x.rel = 1e-14 * static_cast<double>(l.size() + 1);
    x.scale = avg ? mag / static_cast<double>(l.size()) : mag;
  }
  return x;
}

std::string OpName(Op o) {
  switch (o) {
    case Op::kGt: return "Large";
    case Op::kGe: return "LargeEqual";
    case Op::kEq: return "Equal";
    case Op::kLt: return "Less";
    case Op::kLe: return "LessEqual";
    default: return "NotEqual";
  }
}
const std::vector<Op> kRels{Op::kGt, Op::kGe, Op::kEq, Op::kLt, Op::kLe, Op::kNe};

Val BitmapOf(const std::vector<bool>& b) {
  Val v = Empty(T::kU8List);
  v.l.assign((b.size() + 7) / 8, 0);
  for (size_t i = 0; i < b.size(); i++)
    if (b[i]) v.l[i / 8] |= 1ULL << (i % 8);
  return v;
}
bool BitAt(const Val& bm, size_t i) { return bm.l[i / 8] >> (i % 8) & 1; }
// bitmaps for a list of n elements
void Bitmaps(size_t n, const std::function<void(const Val&)>& f) {
  size_t bytes = (n + 7) / 8;
  auto mask = [&](Val v) {
    if (n % 8 && v.l.size() == bytes && !v.l.empty()) v.l.back() &= (1U << (n % 8)) - 1;
    return v;
  };
  if (n <= (thorough ? 12 : 9)) {
    for (uint64_t m = 0; m < (1ULL << n); m++) {
      Val v = Empty(T::kU8List);
      for (size_t i = 0; i < bytes; i++) v.l.push_back(m >> (8 * i) & 255);
      f(v);
    }
    return;
  }
  for (uint64_t other : {0ULL, 255ULL, 0x5AULL})
    for (size_t p = 0; p < bytes; p++) {
      if (!thorough && p > 2 && p + 2 < bytes) continue;
      for (uint64_t x = 0; x < 256; x += (thorough || n < 20) ? 1 : 5) {
        Val v = Empty(T::kU8List);
        v.l.assign(bytes, other);
        v.l[p] = x;
        f(mask(v));
      }
    }
}
// distinct elements, so that a misplaced one shows
Val Distinct(T e, size_t n, int from = 1) {
  Val v = Empty(ListOf(e));
  for (size_t i = 0; i < n; i++) v.l.push_back(Small(e, from + static_cast<int>(i % 110)));
  return v;
}
std::vector<uint64_t> U32s(std::initializer_list<uint64_t> l) { return l; }

void Build() {
  // ------------------------------------------------------------ C11
  struct A {
    const char* n;
    Op o;
    bool flt;
  };
  for (auto& a : {A{"ListAdd", Op::kAdd, true}, A{"ListSub", Op::kSub, true}, A{"ListMul", Op::kMul, true},
                  A{"ListDiv", Op::kDiv, true}, A{"ListMod", Op::kMod, false}, A{"ListBitwiseAnd", Op::kAnd, false},
                  A{"ListBitwiseOr", Op::kOr, false}, A{"ListBitwiseXor", Op::kXor, false}})
    for (T e : Nums()) {
      if (IsFloat(e) && !a.flt) continue;
      Op o = a.o;
      F2 f = [=](uint64_t x, uint64_t y) -> std::optional<uint64_t> {
        auto r = SameTypeOp(o, e, x, y);
        if (!r) return std::nullopt;
        return r->u;
      };
      Def def = [=](uint64_t x, uint64_t y) { return SameTypeOp(o, e, x, y).has_value(); };
      AddFn("C11", a.n, {ListOf(e), e}, ListOf(e), EachScalar(f, ListOf(e)), GListScalar(e, true, def));
      AddFn("C11", a.n, {ListOf(e), ListOf(e)}, ListOf(e), EachList(f, ListOf(e)), GListList(e, true, def));
    }
  for (T e : Nums())
    for (bool mx : {false, true}) {
      F2 f = [=](uint64_t x, uint64_t y) -> std::optional<uint64_t> { return mx ? (Less(e, x, y) ? y : x) : (Less(e, y, x) ? y : x); };
      Model m = EachScalar(f, ListOf(e));
      AddFn("C11", mx ? "ListMax" : "ListMin", {ListOf(e), e}, ListOf(e),
            [m](const In& in) {
              Exp x = m(in);
              x.numeq = true;
              return x;
            },
            GListScalar(e, false));
    }
  struct M {
    const char* n;
    double (*d)(double);
    float (*f)(float);
    bool exact;
  };
  for (auto& a : {M{"ListExp", std::exp, std::exp, false}, M{"ListLog", std::log, std::log, false}, M{"ListLog2", std::log2, std::log2, false},
                  M{"ListLog10", std::log10, std::log10, false}, M{"ListCeil", std::ceil, std::ceil, true},
                  M{"ListFloor", std::floor, std::floor, true}, M{"ListRound", std::round, std::round, true}})
    for (T e : Nums()) {
      if (a.exact && !IsFloat(e)) continue;
      T re = e == kF32 ? kF32 : kF64;
      AddFn("C11", a.n, {ListOf(e)}, ListOf(re),
            [=](const In& in) {
              Val r = Empty(ListOf(re));
              for (auto u : in[0].l) r.l.push_back(e == kF32 ? B32(a.f(F32(u))) : B64(a.d(AsDouble(e, u))));
              Exp x = V(r);
              if (!a.exact) x.rel = re == kF32 ? 1e-6 : 2e-15;
              return x;
            },
            [=](vf::Ctx& c, const Emit& em) {
              GList(e, true)(c, em);
              em({ListVal(e, Domain(e, 2))});
              // every half integer around zero and around the points where a half is no longer representable
              std::vector<uint64_t> v;
              if (IsFloat(e)) {
                for (int i = -600; i <= 600; i++) v.push_back(Bits(e, i / 4.0));
                for (double p : {0x1p22, 0x1p23, 0x1p24, 0x1p51, 0x1p52, 0x1p53, 0x1p63})
                  for (int i = -8; i <= 8; i++) v.push_back(Bits(e, p + i / 2.0)), v.push_back(Bits(e, -p - i / 2.0));
                for (double p : {0.49999997, 0.49999999999999994, 0.5, 1.4999999999999998})
                  v.push_back(Bits(e, p)), v.push_back(Bits(e, -p));
              } else {
                for (int i = 0; i <= 120; i++) v.push_back(Small(e, i));
              }
              em({ListVal(e, v)});
            });
    }
  // ------------------------------------------------------------ C12
  for (Op o : kRels)
    for (T e : Nums()) {
      auto gen = [=](const In& in, bool scalar) {
        size_t n = in[0].l.size();
        if (!scalar && n != in[1].l.size()) return Err();
        std::vector<bool> b(n);
        for (size_t i = 0; i < n; i++) b[i] = Cmp(o, e, in[0].l[i], scalar ? in[1].u : in[1].l[i]);
        return V(BitmapOf(b));
      };
      AddFn("C12", "Gen" + OpName(o) + "Bitmap", {ListOf(e), e}, T::kU8List, [=](const In& in) { return gen(in, true); }, GListScalar(e, true));
      AddFn("C12", "Gen" + OpName(o) + "Bitmap", {ListOf(e), ListOf(e)}, T::kU8List, [=](const In& in) { return gen(in, false); }, GListList(e, true));
      AddFn("C12", "If" + OpName(o), {ListOf(e), e, e}, ListOf(e),
            [=](const In& in) {
              Val r = Empty(ListOf(e));
              for (auto u : in[0].l) r.l.push_back(Cmp(o, e, u, in[1].u) ? in[2].u : u);
              return V(r);
            },
            [=](vf::Ctx& c, const Emit& em) {
              auto few = Few(e, 3, true);
              GListScalar(e, true)(c, [&](const In& in) {
                for (size_t i = 0; i < (in[0].l.size() > 12 ? 1 : few.size()); i++) em({in[0], in[1], N(e, i == 0 ? Small(e, 99) : few[i])});
              });
            });
    }
  for (T e : Nums()) {
    AddFn("C12", "FilterByBitmap", {ListOf(e), T::kU8List}, ListOf(e),
          [=](const In& in) {
            size_t n = in[0].l.size();
            if (in[1].l.size() != (n + 7) / 8) return Err();
            if (n % 8 && in[1].l.back() >> (n % 8)) return Any();  // bits past the end
            Val r = Empty(ListOf(e));
            for (size_t i = 0; i < n; i++)
              if (BitAt(in[1], i)) r.l.push_back(in[0].l[i]);
            return V(r);
          },
          [=](vf::Ctx& c, const Emit& em) {
            for (size_t n = 0; n <= (thorough ? 80 : 34); n++) {
              c.Beat();
              Bitmaps(n, [&](const Val& b) { em({Distinct(e, n), b}); });
              for (size_t m = 0; m <= (n + 7) / 8 + 2; m++)
                for (uint64_t x : {0, 1, 255}) em({Distinct(e, n), L(T::kU8List, std::vector<uint64_t>(m, x))});
            }
          });
    for (int form = 0; form < 3; form++) {
      std::vector<T> args{T::kU8List, form == 1 ? e : ListOf(e), form == 0 ? e : ListOf(e)};
      AddFn("C12", "IfByBitmap", args, ListOf(e),
            [=](const In& in) {
              size_t n = form == 1 ? in[2].l.size() : in[1].l.size();
              if (form == 2 && n != in[2].l.size()) return Err();
              if (in[0].l.size() < (n + 7) / 8) return Err();
              Val r = Empty(ListOf(e));
              for (size_t i = 0; i < n; i++)
                r.l.push_back(BitAt(in[0], i) ? (form == 1 ? in[1].u : in[1].l[i]) : (form == 0 ? in[2].u : in[2].l[i]));
              return V(r);
            },
            [=](vf::Ctx& c, const Emit& em) {
              auto put = [&](const Val& b, size_t n, size_t m) {
                Val l = Distinct(e, n), r = Distinct(e, m, 3), s = N(e, Small(e, 99));
                for (int z = 0; z < (n <= 4 && form != 2 ? 3 : 1); z++) {
                  if (z == 1) s = N(e, Few(e, 4, true)[1]);
                  if (z == 2) s = N(e, Few(e, 4, true)[3]);
                  em({b, form == 1 ? s : l, form == 0 ? s : form == 1 ? l : r});
                }
                if (n && n == m && n <= 12) {
                  // zeros, negatives and NaN among the values: they must not be taken for mask bits
                  Val q = l;
                  auto f = Few(e, 6, true);
                  for (size_t i = 0; i < n; i++) q.l[i] = f[i % f.size()];
                  em({b, form == 1 ? s : q, form == 0 ? s : form == 1 ? q : r});
                }
              };
              for (size_t n = 0; n <= (thorough ? 80 : 34); n++) {
                c.Beat();
                Bitmaps(n, [&](const Val& b) { put(b, n, n); });
                for (size_t m = 0; m <= (n + 7) / 8 + 2; m++)
                  for (uint64_t x : {0, 1, 254, 255}) put(L(T::kU8List, std::vector<uint64_t>(m, x)), n, n);
                if (form == 2)
                  for (size_t k = 0; k <= 34; k++) put(L(T::kU8List, std::vector<uint64_t>(6, 0xA5)), n, k);
              }
            });
    }
  }
  AddFn("C12", "CountBits", {T::kU8List}, kU32,
        [](const In& in) {
          uint64_t n = 0;
          for (auto u : in[0].l)
            for (int i = 0; i < 8; i++) n += u >> i & 1;
          return V(N(kU32, n));
        },
        [](vf::Ctx& c, const Emit& em) {
          std::vector<uint64_t> all = FullDomain(kU8);
          Seqs<uint64_t>(all, 2, [&](auto& s) { em({L(T::kU8List, s)}); });
          for (size_t n = 3; n <= static_cast<size_t>(SweepMax()); n++) {
            c.Beat();
            for (uint64_t o : {0ULL, 255ULL})
              for (size_t p = 0; p < n; p++)
                for (uint64_t x = 0; x < 256; x += thorough ? 1 : 17) {
                  std::vector<uint64_t> s(n, o);
                  s[p] = x;
                  em({L(T::kU8List, s)});
                }
          }
        });
  // ------------------------------------------------------------ C13
  std::vector<T> elems = Nums();
  elems.push_back(kStr);
  for (T e : Nums()) {
    T le = ListOf(e);
    AddFn("C13", "Sum", {le}, IsFloat(e) ? kF64 : IsSigned(e) ? kI64 : kU64, [=](const In& in) { return SumOf(e, in[0].l, false); }, GList(e, true));
    AddFn("C13", "Avg", {le}, kF64, [=](const In& in) { return SumOf(e, in[0].l, true); }, GList(e, true));
    for (bool mx : {true, false})
      AddFn("C13", mx ? "Max" : "Min", {le}, e,
            [=](const In& in) {
              if (in[0].l.empty()) return V(N(e, 0));
              uint64_t b = in[0].l[0];
              for (auto u : in[0].l)
                if (mx ? Less(e, b, u) : Less(e, u, b)) b = u;
              Exp x = V(N(e, b));
              x.numeq = true;
              return x;
            },
            GList(e, false));
    AddFn("C13", "CountDistinct", {le}, kU32,
          [=](const In& in) {
            if (in[0].l.size() > 64) {
              std::set<std::string> seen;
              for (size_t i = 0; i < in[0].l.size(); i++) seen.insert(KeyOf(in[0], i));
              return V(N(kU32, seen.size()));
            }
            uint64_t n = 0;
            for (size_t i = 0; i < in[0].l.size(); i++) {
              bool first = true;
              for (size_t j = 0; j < i && first; j++) first = !Equal(e, in[0].l[i], in[0].l[j]);
              n += first;
            }
            return V(N(kU32, n));
          },
          GList(e, false));
    for (bool sorted : {false, true})
      AddFn("C13", sorted ? "SortedMedian" : "Median", {le}, kF64,
            [=](const In& in) {
              auto l = in[0].l;
              size_t n = l.size();
              if (!n) return V(N(kF64, 0));
              std::sort(l.begin(), l.end(), [&](uint64_t a, uint64_t b) { return Less(e, a, b); });
              if (sorted)
                for (size_t i = 0; i < n; i++)
                  if (!Equal(e, l[i], in[0].l[i])) return Any();
              Exp x = V(N(kF64, B64(n % 2 ? AsDouble(e, l[n / 2]) : (AsDouble(e, l[n / 2 - 1]) + AsDouble(e, l[n / 2])) / 2.0)));
              x.numeq = true;
              x.rel = 1e-15;
              return x;
            },
            [=](vf::Ctx& c, const Emit& em) {
              GList(e, false)(c, [&](const In& in) {
                em(in);
                if (sorted) {
                  auto l = in[0];
                  std::sort(l.l.begin(), l.l.end(), [&](uint64_t a, uint64_t b) { return Less(e, a, b); });
                  em({l});
                }
              });
            });
    AddFn("C13", "GetAt", {le, kU32}, e,
          [=](const In& in) { return V(N(e, in[1].u < in[0].l.size() ? in[0].l[in[1].u] : 0)); },
          [=](vf::Ctx&, const Emit& em) {
            for (int n = 0; n <= SweepMax(); n++) {
              for (int i = 0; i <= n + 3; i++) em({Distinct(e, static_cast<size_t>(n)), N(kU32, static_cast<uint64_t>(i))});
              for (uint64_t i : U32s({255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff})) em({Distinct(e, static_cast<size_t>(n)), N(kU32, i)});
            }
            auto d = Domain(e, 2);
            for (size_t i = 0; i < d.size(); i++) em({ListVal(e, d), N(kU32, i)});
          });
    for (bool asc : {true, false})
      AddFn("C13", asc ? "SortAsc" : "SortDesc", {le}, le,
            [=](const In& in) {
              Val r = in[0];
              std::stable_sort(r.l.begin(), r.l.end(), [&](uint64_t a, uint64_t b) { return asc ? Less(e, a, b) : Less(e, b, a); });
              Exp x = V(r);
              x.numeq = true;
              return x;
            },
            GList(e, false));
  }
  for (T e : elems) {
    T le = ListOf(e);
    AddFn("C13", "Len", {le}, kU32, [=](const In& in) { return V(N(kU32, Len(in[0]))); }, GList(e, true));
    Gen pairs = [=](vf::Ctx&, const Emit& em) {
      std::vector<Val> ls;
      Lists(e, 2, e == kStr ? 6 : 5, true, [&](const Val& l) { ls.push_back(l); });
      for (auto& a : ls)
        for (auto& b : ls) em({a, b});
      for (int n = 0; n <= 40; n++)
        for (int m = 0; m <= 40; m++) {
          Val a = Empty(le), b = Empty(le);
          for (int i = 0; i < n; i++) e == kStr ? a.sl.push_back("x" + std::to_string(i)) : a.l.push_back(Small(e, i + 1));
          for (int i = 0; i < m; i++) e == kStr ? b.sl.push_back("y" + std::to_string(i)) : b.l.push_back(Small(e, i + 50));
          em({a, b});
        }
      if (e != kStr) em({ListVal(e, Domain(e, 2)), ListVal(e, Domain(e, 2))});
    };
    Model cat = [=](const In& in) {
      Val r = in[0];
      for (size_t i = 0; i < Len(in[1]); i++) Push(r, in[1], i);
      return V(r);
    };
    AddFn("C13", "ListConcat", {le, le}, le, cat, pairs);
    AddFn("C13", "+", {le, le}, le, cat, pairs, Ld(le, 0) + " + " + Ld(le, 1));
    Model in_model = [=](const In& in) {
      bool hit = false;
      for (size_t i = 0; i < Len(in[1]); i++) hit |= ElemEqS(in[1], i, in[0]);
      return V(N(kU8, hit));
    };
    Gen probe = [=](vf::Ctx&, const Emit& em) {
      std::vector<Val> ps;
      if (e == kStr)
        for (auto& s : Strs()) ps.push_back(S(s));
      else
        for (auto u : Domain(e, 1)) ps.push_back(N(e, u));
      Lists(e, thorough ? 4 : 3, 5, true, [&](const Val& l) {
        for (auto& p : ps) em({p, l});
      });
      // the hit at every position of every length
      for (int n = 0; n <= SweepMax(); n++) {
        Val l = Empty(le);
        for (int i = 0; i < n; i++) e == kStr ? l.sl.push_back("k" + std::to_string(i)) : l.l.push_back(Small(e, i % 120));
        for (int p = 0; p <= n; p++) em({e == kStr ? S("k" + std::to_string(p)) : N(e, Small(e, p % 120)), l});
      }
    };
    AddFn("C13", "in", {e, le}, kU8, in_model, probe, Ld(e, 0) + " in " + Ld(le, 1));
    AddFn("C13", "Unique", {le}, le,
          [=](const In& in) {
            Val r = Empty(le);
            if (Len(in[0]) > 64) {
              std::set<std::string> seen;
              for (size_t i = 0; i < Len(in[0]); i++)
                if (seen.insert(KeyOf(in[0], i)).second) Push(r, in[0], i);
              Exp x = V(r);
              x.numeq = true;
              return x;
            }
            for (size_t i = 0; i < Len(in[0]); i++) {
              bool first = true;
              for (size_t j = 0; j < i && first; j++) first = !ElemEq(in[0], i, in[0], j);
              if (first) Push(r, in[0], i);
            }
            Exp x = V(r);
            x.numeq = true;
            return x;
          },
          GList(e, false));
    AddFn("C13", "Truncate", {le, kU32}, le,
          [=](const In& in) {
            Val r = Empty(le);
            for (size_t i = 0; i < Len(in[0]) && i < in[1].u; i++) Push(r, in[0], i);
            return V(r);
          },
          [=](vf::Ctx&, const Emit& em) {
            for (int n = 0; n <= SweepMax(); n++) {
              Val l = Empty(le);
              for (int i = 0; i < n; i++) e == kStr ? l.sl.push_back("k" + std::to_string(i)) : l.l.push_back(Small(e, i + 1));
              for (int i = 0; i <= n + 2; i++) em({l, N(kU32, static_cast<uint64_t>(i))});
              for (uint64_t i : U32s({255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff})) em({l, N(kU32, i)});
            }
          });
    // ---------------------------------------------------------- C15
    Model find = [=](const In& in) {
      for (size_t i = 0; i < Len(in[0]); i++)
        if (ElemEqS(in[0], i, in[1])) return V(N(kU32, i));
      return V(N(kU32, 0xffffffff));
    };
    AddFn("C15", "Find", {le, e}, kU32, find, [=](vf::Ctx& c, const Emit& em) { probe(c, [&](const In& in) { em({in[1], in[0]}); }); });
    AddFn("C15", "FindSorted", {le, e}, kU32,
          [=](const In& in) {
            for (size_t i = 1; i < Len(in[0]); i++)
              if (ElemLess(in[0], i, i - 1)) return Any();
            return find(in);
          },
          [=](vf::Ctx& c, const Emit& em) {
            probe(c, [&](const In& in) {
              Val l = in[1];
              if (e != kStr)
                for (auto u : l.l)
                  if (IsNaN(e, u)) return;
              if (e != kStr && IsNaN(e, in[0].u)) {
                em({l, in[0]});
                return;
              }
              if (e == kStr) std::sort(l.sl.begin(), l.sl.end());
              else std::stable_sort(l.l.begin(), l.l.end(), [&](uint64_t a, uint64_t b) { return Less(e, a, b); });
              em({l, in[0]});
            });
            // runs of equal elements: the first one
            for (int n = 0; n <= 20; n++)
              for (int a = 0; a <= n; a++)
                for (int b = a; b <= n; b++)
                  for (int p = -1; p <= 3; p++) {
                    Val l = Empty(le);
                    for (int i = 0; i < n; i++) {
                      int x = (i < a ? 0 : i < b ? 1 : 2) + 1;
                      e == kStr ? l.sl.push_back(std::to_string(x)) : l.l.push_back(Small(e, x));
                    }
                    if (p + 1 < 0) continue;
                    em({l, e == kStr ? S(std::to_string(p + 1)) : N(e, Small(e, p + 1))});
                  }
          });
    AddFn("C15", "ListLookupIndex", {le, le}, T::kU32List,
          [=](const In& in) {
            Val r = Empty(T::kU32List);
            if (Len(in[1]) > 200) {
              std::map<std::string, uint64_t> at;
              for (size_t j = 0; j < Len(in[1]); j++) at.emplace(KeyOf(in[1], j), j);
              for (size_t i = 0; i < Len(in[0]); i++) {
                auto it = at.find(KeyOf(in[0], i));
                r.l.push_back(it == at.end() ? 0xffffffff : it->second);
              }
              return V(r);
            }
            for (size_t i = 0; i < Len(in[0]); i++) {
              uint64_t at = 0xffffffff;
              for (size_t j = 0; j < Len(in[1]) && at == 0xffffffff; j++)
                if (ElemEq(in[0], i, in[1], j)) at = j;
              r.l.push_back(at);
            }
            return V(r);
          },
          [=](vf::Ctx& c, const Emit& em) {
            pairs(c, em);
            for (int n = 0; n <= SweepMax(); n += thorough ? 1 : 3)
              for (int st = 1; st <= 3; st++) {
                Val a = Empty(le), b = Empty(le);
                for (int i = 0; i < n; i++) {
                  int x = i * st % 100, y = (n - i) * 2 % 100;
                  e == kStr ? a.sl.push_back(std::to_string(x)) : a.l.push_back(Small(e, x));
                  e == kStr ? b.sl.push_back(std::to_string(y)) : b.l.push_back(Small(e, y));
                }
                em({a, b});
              }
          });
    AddFn("C15", "ListGather", {le, T::kU32List, e}, le,
          [=](const In& in) {
            Val r = Empty(le);
            for (auto i : in[1].l) {
              if (i < Len(in[0])) Push(r, in[0], i);
              else if (e == kStr) r.sl.push_back(in[2].s);
              else r.l.push_back(in[2].u);
            }
            return V(r);
          },
          [=](vf::Ctx&, const Emit& em) {
            std::vector<Val> defs;
            if (e == kStr) defs = {S(""), S("dflt"), S(std::string("\0x", 2))};
            else
              for (auto u : Few(e, 4, true)) defs.push_back(N(e, u));
            for (int n = 0; n <= 5; n++) {
              Val l = Empty(le);
              for (int i = 0; i < n; i++) e == kStr ? l.sl.push_back("k" + std::to_string(i)) : l.l.push_back(Small(e, i + 10));
              std::vector<uint64_t> d{0, 1, static_cast<uint64_t>(n), static_cast<uint64_t>(n) + 1, 0xffffffff, 0x80000000};
              if (n) d.push_back(static_cast<uint64_t>(n) - 1);
              Seqs<uint64_t>(d, 3, [&](auto& s) {
                for (auto& x : defs) em({l, L(T::kU32List, s), x});
              });
            }
            for (int n = 0; n <= SweepMax(); n++)
              for (int m : {0, 1, 7, n}) {
                Val l = Empty(le);
                for (int i = 0; i < m; i++) e == kStr ? l.sl.push_back("k" + std::to_string(i)) : l.l.push_back(Small(e, i % 100 + 10));
                std::vector<uint64_t> s;
                for (int i = 0; i < n; i++) s.push_back(static_cast<uint64_t>(n - i));
                em({l, L(T::kU32List, s), defs[1]});
              }
          });
    // ---------------------------------------------------------- C14
    auto index_of = [=](const Val& k) {
      Val r = Empty(T::kU32List);
      if (Len(k) > 64) {
        std::map<std::string, uint64_t> at;
        for (size_t i = 0; i < Len(k); i++) {
          r.l.push_back(at.emplace(KeyOf(k, i), at.size()).first->second);
        }
        return r;
      }
      std::vector<size_t> firsts;
      for (size_t i = 0; i < Len(k); i++) {
        size_t g = 0;
        while (g < firsts.size() && !ElemEq(k, i, k, firsts[g])) g++;
        if (g == firsts.size()) firsts.push_back(i);
        r.l.push_back(g);
      }
      return r;
    };
    AddFn("C14", "GroupIndex", {le}, T::kU32List, [=](const In& in) { return V(index_of(in[0])); }, GList(e, false));
    // keys together with their own index; then lengths that differ
    AddFn("C14", "GroupKeys", {le, T::kU32List}, le,
          [=](const In& in) {
            if (Len(in[0]) != in[1].l.size()) return Err();
            Val r = Empty(le);
            uint64_t next = 0;
            for (size_t i = 0; i < in[1].l.size(); i++) {
              if (in[1].l[i] > next) return Any();
              if (in[1].l[i] == next) {
                Push(r, in[0], i);
                next++;
              }
            }
            Exp x = V(r);
            x.numeq = true;
            return x;
          },
          [=](vf::Ctx& c, const Emit& em) {
            GList(e, false)(c, [&](const In& in) { em({in[0], index_of(in[0])}); });
            for (size_t n = 0; n <= 12; n++)
              for (size_t m = 0; m <= 12; m++) {
                Val k = Empty(le), g = Empty(T::kU32List);
                for (size_t i = 0; i < n; i++) e == kStr ? k.sl.push_back(std::to_string(i)) : k.l.push_back(Small(e, static_cast<int>(i)));
                for (size_t i = 0; i < m; i++) g.l.push_back(i);
                em({k, g});
              }
          });
    AddFn("C14", "GroupKeys of GroupIndex", {le}, le,
          [=](const In& in) {
            Val g = index_of(in[0]), r = Empty(le);
            uint64_t next = 0;
            for (size_t i = 0; i < g.l.size(); i++)
              if (g.l[i] == next) Push(r, in[0], i), next++;
            Exp x = V(r);
            x.numeq = true;
            return x;
          },
          GList(e, false), "GroupKeys(" + Ld(le, 0) + ", GroupIndex(" + Ld(le, 0) + "))");
  }
  // group indices: every first-appearance numbering of up to n elements, then longer regular ones
  auto group_indices = [](const std::function<void(const Val&)>& f) {
    int mx = thorough ? 7 : Short(6);
    std::vector<uint64_t> cur;
    std::function<void(uint64_t)> rec = [&](uint64_t next) {
      f(L(T::kU32List, cur));
      if (static_cast<int>(cur.size()) == mx) return;
      for (uint64_t g = 0; g <= next; g++) {
        cur.push_back(g);
        rec(std::max(next, g + 1));
        cur.pop_back();
      }
    };
    rec(0);
    for (size_t n = static_cast<size_t>(mx) + 1; n <= static_cast<size_t>(SweepMax()); n++)
      for (size_t k : {size_t{1}, size_t{2}, size_t{3}, n / 2, n - 1, n}) {
        std::vector<uint64_t> s;
        for (size_t i = 0; i < n; i++) s.push_back(i < k ? i : (n - i) % k);
        f(L(T::kU32List, s));
        if (k == 2) {
          std::vector<uint64_t> q(n, 0);
          q[n - 1] = 1;
          f(L(T::kU32List, q));
        }
      }
  };
  // ids that no GroupIndex produces: run them, expect a status or some result
  auto odd_indices = [](const std::function<void(const Val&)>& f) {
    Seqs<uint64_t>(U32s({0, 1, 2, 1000, 0xffffffff}), 3, [&](auto& s) { f(L(T::kU32List, s)); });
  };
  AddFn("C14", "GroupCount", {T::kU32List}, kU32,
        [](const In& in) {
          uint64_t n = 0;
          for (auto g : in[0].l) {
            if (g > n) return Any();
            if (g == n) n++;
          }
          return V(N(kU32, n));
        },
        [=](vf::Ctx&, const Emit& em) {
          group_indices([&](const Val& g) { em({g}); });
          if (memory) odd_indices([&](const Val& g) { em({g}); });
        });
  for (T e : Nums()) {
    struct G {
      const char* n;
      int k;  // 0 sum 1 avg 2 max 3 min
    };
    for (auto& a : {G{"GroupSum", 0}, G{"GroupAvg", 1}, G{"GroupMax", 2}, G{"GroupMin", 3}}) {
      T re = a.k == 0 ? (IsFloat(e) ? kF64 : IsSigned(e) ? kI64 : kU64) : a.k == 1 ? kF64 : e;
      int k = a.k;
      Model m = [=](const In& in) {
        if (in[0].l.size() != in[1].l.size()) return Err();
        uint64_t n = 0;
        for (auto g : in[1].l) {
          if (g > n) return Any();
          if (g == n) n++;
        }
        Exp r = V(Empty(ListOf(re)));
        r.numeq = true;
        std::vector<std::vector<uint64_t>> of(n);
        for (size_t i = 0; i < in[0].l.size(); i++) of[in[1].l[i]].push_back(in[0].l[i]);
        for (uint64_t g = 0; g < n; g++) {
          const auto& l = of[g];
          if (k < 2) {
            Exp x = SumOf(e, l, k == 1);
            if (x.k != Exp::kVal) return x;
            r.rel = std::max(r.rel, x.rel);
            r.scale = std::max(r.scale, x.scale);
            r.v.l.push_back(x.v.u);
          } else {
            uint64_t b = l[0];
            for (auto u : l)
              if (k == 2 ? Less(e, b, u) : Less(e, u, b)) b = u;
            r.v.l.push_back(b);
          }
        }
        return r;
      };
      AddFn("C14", a.n, {ListOf(e), T::kU32List}, ListOf(re), m,
            [=](vf::Ctx& c, const Emit& em) {
              auto few = Few(e, 7, false);
              group_indices([&](const Val& g) {
                size_t n = g.l.size();
                c.Beat();
                if (n <= 3) {
                  Seqs<uint64_t>(few, static_cast<int>(n), [&](auto& s) {
                    if (s.size() == n) em({ListVal(e, s), g});
                  });
                  return;
                }
                for (size_t r = 0; r < few.size(); r++) {
                  std::vector<uint64_t> v;
                  for (size_t i = 0; i < n; i++) v.push_back(few[(i + r) % few.size()]);
                  em({ListVal(e, v), g});
                }
                em({Distinct(e, n), g});
                Val d = Distinct(e, n);
                std::reverse(d.l.begin(), d.l.end());
                em({d, g});
              });
              for (size_t n = 0; n <= 20; n++)
                for (size_t q = 0; q <= 20; q++) {
                  Val g = Empty(T::kU32List);
                  for (size_t i = 0; i < q; i++) g.l.push_back(i % 4);
                  em({Distinct(e, n), g});
                }
              if (memory)
                odd_indices([&](const Val& g) {
                  for (size_t n = 0; n <= 4; n++) em({Distinct(e, n), g});
                });
            });
      AddFn("C14", std::string(a.n) + " of GroupIndex", {ListOf(e), ListOf(e)}, ListOf(re),
            [=](const In& in) {
              if (in[0].l.size() != in[1].l.size()) return Err();
              Val g = Empty(T::kU32List);
              std::vector<uint64_t> keys;
              if (in[1].l.size() > 64) {
                std::map<std::string, uint64_t> at;
                for (size_t i = 0; i < in[1].l.size(); i++) g.l.push_back(at.emplace(KeyOf(in[1], i), at.size()).first->second);
                return m({in[0], g});
              }
              for (auto u : in[1].l) {
                size_t i = 0;
                while (i < keys.size() && !Equal(e, keys[i], u)) i++;
                if (i == keys.size()) keys.push_back(u);
                g.l.push_back(i);
              }
              return m({in[0], g});
            },
            [=](vf::Ctx&, const Emit& em) {
              std::vector<Val> ls;
              Lists(e, Short(3), 4, false, [&](const Val& l) { ls.push_back(l); });
              for (auto& x : ls)
                for (auto& y : ls)
                  if (x.l.size() == y.l.size()) em({x, y});
            },
            std::string(a.n) + "(" + Ld(ListOf(e), 0) + ", GroupIndex(" + Ld(ListOf(e), 1) + "))");
    }
    AddFn("C15", "Bucketize", {ListOf(e), ListOf(e)}, T::kU32List,
          [=](const In& in) {
            Val r = Empty(T::kU32List);
            for (size_t i = 1; i < in[1].l.size(); i++)
              if (!Cmp(Op::kLe, e, in[1].l[i - 1], in[1].l[i])) return Any();
            if (in[1].l.size() == 1 && IsNaN(e, in[1].l[0])) return Any();
            for (auto v : in[0].l) {
              uint64_t k = 0;
              if (IsNaN(e, v)) k = in[1].l.size();
              else if (in[1].l.size() > 200)
                k = static_cast<uint64_t>(std::partition_point(in[1].l.begin(), in[1].l.end(), [&](uint64_t b) { return Cmp(Op::kLe, e, b, v); }) - in[1].l.begin());
              else
                for (auto b : in[1].l) k += Cmp(Op::kLe, e, b, v);
              r.l.push_back(k);
            }
            return V(r);
          },
          [=](vf::Ctx&, const Emit& em) {
            auto less = [=](uint64_t a, uint64_t b) { return Less(e, a, b); };
            auto sorted = [=](Val v) {
              std::stable_sort(v.l.begin(), v.l.end(), less);
              return v;
            };
            Val all = ListVal(e, Domain(e, 1));
            std::vector<Val> bs;
            Lists(e, thorough ? 4 : Short(3), 6, false, [&](const Val& l) {
              if (std::is_sorted(l.l.begin(), l.l.end(), less)) bs.push_back(l);
            });
            for (auto& b : bs) {
              em({all, b});
              Lists(e, 2, 4, true, [&](const Val& l) { em({l, b}); });
            }
            // the linear and the binary search path, with and without runs of equal boundaries
            for (int n = 0; n <= (thorough ? 80 : 40); n++)
              for (int st : {1, 2, 3}) {
                Val b = Empty(ListOf(e)), v = Empty(ListOf(e));
                for (int i = 0; i < n; i++) b.l.push_back(Small(e, i / st + 5));
                for (int i = 0; i < 100; i++) v.l.push_back(Small(e, i));
                if (IsFloat(e)) {
                  for (int i = 0; i < 100; i++) v.l.push_back(Bits(e, i + 0.5));
                  v.l.push_back(Bits(e, NAN)), v.l.push_back(Bits(e, INFINITY)), v.l.push_back(Bits(e, -INFINITY)), v.l.push_back(Bits(e, -0.0));
                }
                em({v, b});
              }
            for (size_t n = 0; n <= all.l.size(); n++) {
              Val b = all;
              b.l.resize(n);
              b.l.erase(std::remove_if(b.l.begin(), b.l.end(), [&](uint64_t u) { return IsNaN(e, u); }), b.l.end());
              em({all, sorted(b)});
            }
          });
  }
  AddFn("C15", "FindMiss", {}, kU32, [](const In&) { return V(N(kU32, 0xffffffff)); }, [](vf::Ctx&, const Emit& em) { em({}); });
  for (bool pos : {true, false})
    AddFn("C15", pos ? "ListCompactPositions" : "ListCompactIndex", {T::kU32List}, T::kU32List,
          [=](const In& in) {
            Val r = Empty(T::kU32List);
            for (size_t i = 0; i < in[0].l.size(); i++)
              if (in[0].l[i] != 0xffffffff) r.l.push_back(pos ? i : in[0].l[i]);
            return V(r);
          },
          [=](vf::Ctx& c, const Emit& em) {
            Seqs<uint64_t>(U32s({0, 1, 0x80000000, 0xfffffffe, 0xffffffff}), thorough ? 7 : Short(5), [&](auto& s) { em({L(T::kU32List, s)}); });
            GList(kU32, true)(c, em);
          });
  // joins as the documentation composes them
  for (T e : elems) {
    T le = ListOf(e);
    AddFn("C15", "scalar join", {le, e}, kU8,
          [=](const In& in) {
            bool hit = false;
            for (size_t i = 0; i < Len(in[0]); i++) hit |= ElemEqS(in[0], i, in[1]);
            return V(N(kU8, hit));
          },
          [=](vf::Ctx&, const Emit& em) {
            Lists(e, 2, 4, true, [&](const Val& l) {
              if (e == kStr)
                for (auto& s : Strs()) em({l, S(s)});
              else
                for (auto u : Domain(e, 1)) em({l, N(e, u)});
            });
          },
          "Find(" + Ld(le, 0) + ", " + Ld(e, 1) + ") != FindMiss()");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string& mode) { Run(c, mode, Build); });
}
