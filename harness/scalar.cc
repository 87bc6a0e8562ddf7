// C03 casts, C16 string functions, C17 scalar math: every function over its enumerated arguments.
#include <charconv>
#include "fn.h"

namespace {
std::string CastName(T t) {
  std::string n = Name(t);
  n[0] = static_cast<char>(toupper(n[0]));
  return "Cast" + n;
}
std::vector<uint64_t> Wide(T t) {
  if (Width(t) <= 16) return FullDomain(t);
  auto d = Domain(t, 2);
  if (IsFloat(t)) {
    // quarters, neighbours of every power of two, neighbours of every integer limit
    auto add = [&](double x) {
      for (double y : {x, -x}) {
        uint64_t b = Bits(t, y);
        AddU(d, b);
      }
    };
    for (int i = 0; i <= 48; i++) add(i / 4.0);
    for (int k : {-1074, -1022, -149, -126, -60, -30, -3, -1, 0, 7, 8, 15, 16, 22, 23, 24, 31, 32, 51, 52, 53, 54, 62, 63, 64, 100, 127, 300, 1023}) {
      double p = std::ldexp(1.0, k);
      add(p);
      if (t == kF32) {
        float f = static_cast<float>(p);
        add(std::nextafter(f, 0.0F));
        add(std::nextafter(f, INFINITY));
        add(std::nextafter(std::nextafter(f, 0.0F), 0.0F));
      } else {
        add(std::nextafter(p, 0.0));
        add(std::nextafter(p, INFINITY));
        add(p - 0.5);
        add(p + 0.5);
        add(p - 1);
      }
    }
    if (thorough)
      for (int i = 0; i < 4000; i++) add(i * 0.37 + 1e-3 * i * i);
  } else if (thorough) {
    for (int k = 0; k < Width(t); k++)
      for (int e = -40; e <= 40; e++) AddU(d, Wrap(t, (static_cast<i128>(1) << k) * 3 + e));
  }
  return d;
}
std::string Text(T t, uint64_t u) {
  char b[64];
  if (t == kF32) return std::string(b, std::to_chars(b, b + sizeof b, F32(u)).ptr);
  if (t == kF64) return std::string(b, std::to_chars(b, b + sizeof b, F64(u)).ptr);
  i128 v = Int(t, u);
  bool neg = v < 0;
  if (neg) v = -v;
  std::string s;
  do s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))), v /= 10;
  while (v);
  return neg ? "-" + s : s;
}
// documented: std::from_chars
uint64_t Parse(T t, const std::string& s) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-' && IsSigned(t)) neg = true, i++;
  i128 v = 0;
  bool big = false, any = false;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) {
    any = true;
    v = v * 10 + (s[i] - '0');
    if (v > (static_cast<i128>(1) << 70)) big = true, v = static_cast<i128>(1) << 70;
  }
  if (neg) v = -v;
  if (!any || big || v < IMin(t) || v > IMax(t)) return 0;
  return Wrap(t, v);
}
std::vector<std::string> Texts(T t) {
  std::vector<std::string> r;
  for (uint64_t u : Wide(t)) r.push_back(Text(t, u));
  for (auto* x : {"", "0", "00", "007", "-0", "-", "+1", " 1", "1 ", "12abc", "abc", "1.9", "-1.9", "1e3", "0x10", "--1", "-00012", "1_000", "9999999999999999999999",
                  "-9999999999999999999999", "128", "-129", "256", "32768", "-32769", "65536", "2147483648", "-2147483649", "4294967296", "9223372036854775808",
                  "-9223372036854775809", "18446744073709551616", "00000000000000000000000000000000000000042", "127x", "-128x"})
    r.push_back(x);
  r.push_back(std::string("12\0" "3", 4));
  r.push_back(std::string("\0" "12", 3));
  r.push_back("7\xff");
  return r;
}

void Casts() {
  for (T from : Nums()) {
    Gen g = [=](vf::Ctx&, const Emit& em) {
      for (auto u : Wide(from)) em({N(from, u)});
    };
    for (T to : Nums()) {
      AddFn("C03", CastName(to), {from}, to,
            [=](const In& in) {
              auto r = Conv(from, to, in[0].u);
              return r ? V(N(to, *r)) : Any();
            },
            g);
      table.back().konst = 160;
      table.back().both = true;
    }
    AddFn("C03", "CastString", {from}, kStr, [=](const In& in) { return V(S(Text(from, in[0].u))); }, g);
    table.back().konst = 160;
    // number -> text -> number
    if (IsInt(from))
      AddFn("C03", CastName(from) + " of CastString", {from}, from, [=](const In& in) { return V(in[0]); }, g,
            CastName(from) + "(CastString(" + Ld(from, 0) + "))");
  }
  for (T to : Ints()) {
    AddFn("C03", CastName(to), {kStr}, to, [=](const In& in) { return V(N(to, Parse(to, in[0].s))); },
          [=](vf::Ctx&, const Emit& em) {
            for (T t : Ints())
              if (t == to || Width(t) > 16 || Width(to) == 8)
                for (auto& s : Texts(t)) em({S(s)});
          });
    table.back().konst = 160;
  }
  // lists: element by element, every length
  for (T from : Nums()) {
    auto gen = [=](std::function<bool(uint64_t)> def) -> Gen {
      return [=](vf::Ctx& c, const Emit& em) {
        auto put = [&](const Val& l) {
          Val r = l;
          r.l.clear();
          for (auto u : l.l)
            if (def(u)) r.l.push_back(u);
          em({r});
        };
        GList(from, true)(c, [&](const In& in) { put(in[0]); });
        put(ListVal(from, Wide(from)));
      };
    };
    for (T to : Nums()) {
      if (to == from) continue;
      std::string n = CastName(to) + "List";
      AddFn("C03", n, {ListOf(from)}, ListOf(to),
            [=](const In& in) {
              Val r = Empty(ListOf(to));
              for (auto u : in[0].l) {
                auto v = Conv(from, to, u);
                if (!v) return Skip();
                r.l.push_back(*v);
              }
              return V(r);
            },
            gen([=](uint64_t u) { return Conv(from, to, u).has_value(); }));
    }
    AddFn("C03", "CastStringList", {ListOf(from)}, kStrL,
          [=](const In& in) {
            Val r = Empty(kStrL);
            for (auto u : in[0].l) r.sl.push_back(Text(from, u));
            return V(r);
          },
          gen([](uint64_t) { return true; }));
  }
  for (T to : Ints())
    AddFn("C03", CastName(to) + "List", {kStrL}, ListOf(to),
          [=](const In& in) {
            Val r = Empty(ListOf(to));
            for (auto& s : in[0].sl) r.l.push_back(Parse(to, s));
            return V(r);
          },
          [=](vf::Ctx&, const Emit& em) {
            auto tx = Texts(to);
            if (tx.size() > 400) tx.erase(tx.begin() + 200, tx.end() - 200);
            for (auto& s : tx) em({SL({s})});
            for (size_t n = 0; n <= static_cast<size_t>(SweepMax()); n++) {
              std::vector<std::string> l;
              for (size_t i = 0; i < n; i++) l.push_back(tx[(i * 7 + n) % tx.size()]);
              em({SL(l)});
            }
            em({SL(Texts(to))});
          });
}

// ---------------------------------------------------------------- C17
double Eps(T t) { return t == kF32 ? std::ldexp(1.0, -24) : std::ldexp(1.0, -53); }
void Math() {
  auto unary = [](const std::string& n, T a, T r, std::function<double(double)> f, std::function<float(float)> ff, double ulps) {
    AddFn("C17", n, {a}, r,
          [=](const In& in) {
            double d = AsDouble(a, in[0].u);
            Exp x = V(N(r, r == kF32 ? B32(ff(static_cast<float>(d))) : B64(f(d))));
            x.rel = ulps * 2 * Eps(r);
            // next to the smallest normal number the last place is not relative
            double o = std::fabs(AsDouble(r, x.v.u));
            if (ulps > 0 && o != 0 && o < (r == kF32 ? 1e-36 : 1e-300)) return Any();
            return x;
          },
          [=](vf::Ctx&, const Emit& em) {
            for (auto u : Wide(a)) em({N(a, u)});
            if (IsFloat(a))
              for (int i = -400; i <= 400; i++) em({N(a, Bits(a, i * 0.173))});
          });
    table.back().konst = 260;
    table.back().both = true;
  };
#define U(name, f, ulps) unary(name, a, r, [](double x) { return f(x); }, [](float x) { return f(x); }, ulps)
  for (T a : {kI32, kU32, kI64, kU64, kF32, kF64}) {
    T r = a == kF32 ? kF32 : kF64;
    U("exp", std::exp, 4);
    U("log", std::log, 4);
    U("log2", std::log2, 4);
    U("log10", std::log10, 4);
  }
  for (T a : {kF32, kF64}) {
    T r = a;
    U("frac", [](auto x) { return x - std::trunc(x); }, 0);
    U("trunc", std::trunc, 0);
    U("sin", std::sin, 4);
    U("cos", std::cos, 4);
    U("tan", std::tan, 4);
    U("sqrt", std::sqrt, 0);
    U("abs", std::fabs, 0);
    U("ceil", std::ceil, 0);
    U("floor", std::floor, 0);
    U("round", std::round, 0);
  }
#undef U
  for (T a : {kI8, kI16, kI32, kI64}) {
    T r = a == kI64 ? kI64 : kI32;
    AddFn("C17", "abs", {a}, r,
          [=](const In& in) {
            i128 v = Int(a, in[0].u);
            if (v < 0) v = -v;
            if (v > IMax(r)) return Any();
            return V(N(r, Wrap(r, v)));
          },
          [=](vf::Ctx&, const Emit& em) {
            for (auto u : Wide(a)) em({N(a, u)});
          });
    table.back().konst = 260;
  }
  for (T a : Nums())
    for (bool mx : {false, true}) {
      AddFn("C17", mx ? "max" : "min", {a, a}, a,
            [=](const In& in) {
              if (IsNaN(a, in[0].u) || IsNaN(a, in[1].u)) return Any();
              bool second = mx ? Less(a, in[0].u, in[1].u) : Less(a, in[1].u, in[0].u);
              Exp x = V(in[second ? 1 : 0]);
              x.numeq = true;
              return x;
            },
            [=](vf::Ctx& c, const Emit& em) {
              auto d = Width(a) == 8 ? FullDomain(a) : Domain(a, 2);
              for (auto x : d) {
                c.Beat();
                for (auto y : d) em({N(a, x), N(a, y)});
              }
            });
      table.back().konst = 300;
      table.back().both = true;
    }
  auto usable = [](T r, double v) {
    // over- and underflow of an intermediate product is not specified
    double m = std::fabs(v);
    return std::isfinite(v) && (m == 0 || (m > (r == kF32 ? 1e-30 : 1e-280) && m < (r == kF32 ? 1e30 : 1e280)));
  };
  const std::vector<int> kExps{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 33, 63, 100, -1, -2, -3, -7, -16, -31, 255, -255, 1000, -1000};
  for (T b : {kF32, kF64, kI32, kI64}) {
    T r = b == kF32 ? kF32 : kF64;
    AddFn("C17", "pow", {b, kI32}, r,
          [=](const In& in) {
            double x = AsDouble(b, in[0].u);
            double n = static_cast<double>(static_cast<int64_t>(in[1].u));
            double p = std::pow(x, n);
            if (n == 0 || x == 1) return V(N(r, Bits(r, 1)));
            if (x == -1 || x == 0 || std::isinf(x)) return V(N(r, Bits(r, p)));  // the same by every order of multiplying
            if (!std::isfinite(x) || !usable(r, p)) return Any();
            Exp e = V(N(r, Bits(r, p)));
            e.rel = (std::fabs(n) + 6) * 2 * Eps(r);
            return e;
          },
          [=](vf::Ctx&, const Emit& em) {
            for (auto u : IsFloat(b) ? Wide(b) : Domain(b, 2))
              for (int n : kExps) em({N(b, u), N(kI32, Wrap(kI32, n))});
            // exponents around every power of two, to the limits of i32, of bases that stay in range
            std::vector<double> close{1, -1, 0, -0.0, 2, -2};
            if (IsFloat(b)) {
              close.insert(close.end(), {HUGE_VAL, -HUGE_VAL, 0.5, -0.5});
              for (int k = 8; k <= (b == kF32 ? 22 : 50); k += 2) close.insert(close.end(), {1 + std::ldexp(1, -k), -1 - std::ldexp(1, -k), 1 - std::ldexp(1, -k)});
            }
            for (double x : close)
              for (int k = 5; k <= 31; k++)
                for (int64_t d = -2; d <= 2; d++)
                  for (int64_t s : {1, -1}) {
                    int64_t n = s * ((int64_t{1} << k) + d);
                    if (n < INT32_MIN || n > INT32_MAX) continue;
                    em({N(b, IsFloat(b) ? Bits(b, x) : Wrap(b, static_cast<int64_t>(x))), N(kI32, Wrap(kI32, n))});
                  }
            if (IsFloat(b))
              for (int i = -40; i <= 40; i++)
                for (int n = -40; n <= 40; n++) em({N(b, Bits(b, i * 0.31)), N(kI32, Wrap(kI32, n))});
            else
              for (int i = -20; i <= 20; i++)
                for (int n = -20; n <= 20; n++) em({N(b, Wrap(b, i)), N(kI32, Wrap(kI32, n))});
          });
    table.back().konst = 400;
    table.back().both = true;
  }
  for (T a : {kF32, kF64}) {
    AddFn("C17", "pow", {a, a}, a,
          [=](const In& in) {
            double x = AsDouble(a, in[0].u), y = AsDouble(a, in[1].u);
            uint64_t u = a == kF32 ? B32(std::pow(F32(in[0].u), F32(in[1].u))) : B64(std::pow(x, y));
            double v = AsDouble(a, u);
            if (std::isfinite(x) && std::isfinite(y) && v != 0 && !usable(a, v) && !std::isnan(v)) return Any();
            Exp e = V(N(a, u));
            e.numeq = true;
            // pow(x, 3.0) may be computed by multiplication
            e.rel = 16 * Eps(a);
            return e;
          },
          [=](vf::Ctx& c, const Emit& em) {
            auto d = Domain(a, 2);
            for (auto x : d) {
              c.Beat();
              for (auto y : d) em({N(a, x), N(a, y)});
            }
            for (int i = -24; i <= 40; i++)
              for (int n = -24; n <= 24; n++) em({N(a, Bits(a, i * 0.25)), N(a, Bits(a, n * 0.25))});
          });
    table.back().konst = 400;
    table.back().both = true;
  }
}

// ---------------------------------------------------------------- C16
// every string up to n bytes over the hostile alphabet
void Words(int n, const std::string& alpha, const std::function<void(const std::string&)>& f) {
  std::string cur;
  std::function<void()> rec = [&] {
    f(cur);
    if (static_cast<int>(cur.size()) == n) return;
    for (char ch : alpha) {
      cur.push_back(ch);
      rec();
      cur.pop_back();
    }
  };
  rec();
}
const std::string kAlpha("ab\0\xff", 4);
std::vector<size_t> Lengths() {
  std::vector<size_t> ns;
  if (memory) return {255, 256, 257, 4097};
  for (size_t k : {64UL, 128UL, 256UL, 512UL, 1024UL, 2048UL, 4096UL, 16384UL, 65536UL})
    for (size_t d : {k - 1, k, k + 1}) ns.push_back(d);
  ns.push_back(100000);
  if (thorough)
    for (size_t k : {8192UL, 32768UL, 131072UL, 262144UL, 1048576UL})
      for (size_t d : {k - 1, k, k + 1}) ns.push_back(d);
  return ns;
}
void Pairs(vf::Ctx& c, const Emit& em) {
  std::vector<std::string> w;
  Words(thorough ? 4 : 3, kAlpha, [&](auto& s) { w.push_back(s); });
  for (auto& a : w) {
    c.Beat();
    for (auto& b : w) em({S(a), S(b)});
  }
  // every single byte against every other
  for (int x = 0; x < 256; x++)
    for (int y = 0; y < 256; y++) em({S(std::string(1, static_cast<char>(x))), S(std::string(1, static_cast<char>(y)))});
  // long strings that differ at one place or in length
  for (size_t n = 0; n <= (thorough ? 140 : 70); n++) {
    std::string a(n, 'x');
    c.Beat();
    em({S(a), S(a)});
    em({S(a), S(a + "\x01")});
    em({S(a + std::string(1, '\0')), S(a)});
    for (size_t p = 0; p < n; p++)
      for (char ch : {'a', '\0', '\xff'}) {
        std::string b = a;
        b[p] = ch;
        em({S(a), S(b)});
        em({S(b), S(a)});
      }
  }
  em({S(std::string(70000, 'q')), S(std::string(70001, 'q'))});
  // lengths around every power of two, differing at one place; every pair of such lengths
  const auto ns = Lengths();
  for (size_t n : ns) {
    c.Beat();
    std::string a;
    for (size_t i = 0; i < n; i++) a += static_cast<char>('A' + i % 61);
    em({S(a), S(a)});
    for (size_t p : std::set<size_t>{0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, n / 2, n - 2, n - 1})
      if (p < n)
        for (char ch : {'\x01', '\0', '\xff'}) {
          std::string b = a;
          b[p] = ch;
          em({S(a), S(b)});
          em({S(b), S(a)});
        }
    for (size_t m : ns) {
      if (n > 5000 && m > 5000 && n != m && !thorough && (n ^ m) % 2) continue;
      std::string b(a.substr(0, std::min(n, m)));
      b.resize(m, '\xfe');
      em({S(a), S(b)});
    }
  }
}
uint32_t Murmur(const std::string& s, uint32_t h) {
  auto rot = [](uint32_t x, int r) { return x << r | x >> (32 - r); };
  auto mix = [&](uint32_t k) { return rot(k * 0xcc9e2d51U, 15) * 0x1b873593U; };
  auto byte = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(s[i])); };
  size_t i = 0;
  for (; i + 4 <= s.size(); i += 4) h = rot(h ^ mix(byte(i) | byte(i + 1) << 8 | byte(i + 2) << 16 | byte(i + 3) << 24), 13) * 5 + 0xe6546b64U;
  uint32_t k = 0;
  for (size_t j = s.size(); j-- > i;) k = k << 8 | byte(j);
  if (i < s.size()) h ^= mix(k);
  h ^= static_cast<uint32_t>(s.size());
  h = (h ^ h >> 16) * 0x85ebca6bU;
  h = (h ^ h >> 13) * 0xc2b2ae35U;
  return h ^ h >> 16;
}
int ByteCmp(const std::string& a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++)
    if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
void Strings() {
  if (Murmur("", 0) != 0 || Murmur("", 0x9747b28c) != 0xebb6c228 || Murmur("Hello, world!", 0x9747b28c) != 0x24884CBA) Die("murmur reference is wrong");
  auto cat = [](const In& in) { return V(S(in[0].s + in[1].s)); };
  AddFn("C16", "StringConcat", {kStr, kStr}, kStr, cat, Pairs);
  table.back().konst = 600;
  AddFn("C16", "+", {kStr, kStr}, kStr, cat, Pairs, Ld(kStr, 0) + " + " + Ld(kStr, 1));
  table.back().konst = 600;
  table.back().node = [](auto a) { return BinNode(Op::kAdd, std::move(a[0]), std::move(a[1])); };
  AddFn("C16", "a + b + a", {kStr, kStr}, kStr, [](const In& in) { return V(S(in[0].s + in[1].s + in[0].s)); }, Pairs,
        Ld(kStr, 0) + " + " + Ld(kStr, 1) + " + " + Ld(kStr, 0));
  AddFn("C16", "StringCmp", {kStr, kStr}, kI32,
        [](const In& in) {
          Exp x = V(N(kI32, Wrap(kI32, ByteCmp(in[0].s, in[1].s))));
          x.sign = true;
          return x;
        },
        Pairs);
  table.back().konst = 600;
  for (Op o : {Op::kEq, Op::kNe, Op::kLt, Op::kLe, Op::kGt, Op::kGe}) {
    AddFn("C16", OpText(o), {kStr, kStr}, kU8, [=](const In& in) { return V(N(kU8, Rel(o, ByteCmp(in[0].s, in[1].s), 0))); }, Pairs,
          Ld(kStr, 0) + " " + OpText(o) + " " + Ld(kStr, 1));
    table.back().konst = 600;
    table.back().node = [=](auto a) { return BinNode(o, std::move(a[0]), std::move(a[1])); };
  }
  auto one = [](vf::Ctx&, const Emit& em) {
    Words(4, kAlpha, [&](auto& s) { em({S(s)}); });
    for (size_t n = 0; n < 300; n++) em({S(std::string(n, 'z'))});
    em({S(std::string(70000, '\0'))});
    for (size_t n : Lengths()) em({S(std::string(n, 'z'))});
  };
  AddFn("C16", "StringLen", {kStr}, kU32, [](const In& in) { return V(N(kU32, in[0].s.size())); }, one);
  table.back().konst = 300;
  AddFn("C16", "StringContains", {kStr, kStr}, kU8,
        [](const In& in) {
          bool hit = false;
          for (size_t i = 0; i + in[1].s.size() <= in[0].s.size(); i++) hit |= in[0].s.compare(i, in[1].s.size(), in[1].s) == 0;
          return V(N(kU8, hit));
        },
        [](vf::Ctx& c, const Emit& em) {
          std::vector<std::string> h, w;
          Words(thorough ? 6 : 5, kAlpha.substr(1), [&](auto& s) { h.push_back(s); });
          Words(3, kAlpha.substr(1), [&](auto& s) { w.push_back(s); });
          for (auto& a : h) {
            c.Beat();
            for (auto& b : w) em({S(a), S(b)});
          }
          // a match at every place of a longer text
          for (size_t n = 0; n <= 40; n++)
            for (size_t m = 1; m <= 5; m++)
              for (size_t p = 0; p + m <= n; p++) {
                std::string t(n, 'a');
                for (size_t i = 0; i < m; i++) t[p + i] = static_cast<char>(i == 0 ? 'b' : 'c');
                em({S(t), S(t.substr(p, m))});
                em({S(t), S(t.substr(p, m) + "d")});
              }
          for (size_t n = 0; n < 66; n++) {
            em({S(std::string(n, 'a')), S(std::string(n, 'a'))});
            em({S(std::string(n, 'a')), S(std::string(n + 1, 'a'))});
            em({S(std::string(n, 'a') + "b"), S("b")});
          }
          // long texts, long words, near misses
          for (size_t n : Lengths()) {
            if (n > 70000) continue;
            c.Beat();
            std::string t;
            for (size_t i = 0; i < n; i++) t += static_cast<char>(i * i % 251);
            for (size_t m : {1UL, 2UL, 15UL, 16UL, 17UL, 64UL, 255UL, 256UL, 257UL, 1000UL, n - 1, n})
              if (m <= n)
                for (size_t p : std::set<size_t>{0, 1, (n - m) / 2, n - m}) {
                  if (p + m > n) continue;
                  auto w = t.substr(p, m);
                  em({S(t), S(w)});
                  w.back() ^= 1;
                  em({S(t), S(w)});
                  w.back() ^= 1;
                  w.front() ^= '\x80';
                  em({S(t), S(w)});
                }
            em({S(t), S(t + "x")});
            em({S(std::string(n, 'a')), S(std::string(n < 3000 ? n / 2 : 40, 'a') + "b")});
            em({S(std::string(n, 'a') + "b"), S(std::string(n < 3000 ? n / 2 : 40, 'a') + "b")});
            em({S(std::string(n, '\0') + "b"), S(std::string("\0b", 2))});
          }
        });
  table.back().konst = 300;
  // joins: every pair of small lists with every separator
  auto lists2 = [](bool zip) -> Gen { return [zip](vf::Ctx& c, const Emit& em) {
    std::vector<std::vector<std::string>> ls;
    std::vector<std::string> d{"", "a", std::string("\0b", 2), "\xff\xfe"};
    Seqs<std::string>(d, thorough ? 4 : 3, [&](auto& s) { ls.push_back(s); });
    for (auto& a : ls) {
      c.Beat();
      for (auto& b : ls)
        for (auto& sep : {std::string(), std::string("_"), std::string("\0,", 2)}) {
          if (!thorough && a.size() == 3 && b.size() == 3 && sep.size() != 1) continue;
          em({SL(a), SL(b), S(sep)});
        }
    }
    for (size_t n = 0; n <= 40; n++)
      for (size_t m = 0; m <= 40; m++) {
        std::vector<std::string> a, b;
        for (size_t i = 0; i < n; i++) a.push_back(std::to_string(i * i));
        for (size_t i = 0; i < m; i++) b.push_back(std::string(i % 7, 'k'));
        em({SL(a), SL(b), S(n % 3 ? "--" : "")});
      }
    // many elements, long elements, long separators
    auto many = [](size_t n, int k) {
      std::vector<std::string> a;
      for (size_t i = 0; i < n; i++) a.push_back(k == 0 ? std::to_string(i) : std::string(i % 5, static_cast<char>('a' + i % 26)));
      return a;
    };
    for (size_t n : memory ? std::vector<size_t>{0, 1, 2, 64} : std::vector<size_t>{0, 1, 2, 64, 255, 256, 257, 300})
      for (size_t m : {0UL, 1UL, 3UL, 64UL, 255UL, 256UL, 257UL}) em({SL(many(n, 0)), SL(many(m, 1)), S("/")});
    for (size_t n : memory ? std::vector<size_t>{1024} : std::vector<size_t>{1024, 4097, 65535, 65536, 65537}) {
      c.Beat();
      if (zip) em({SL(many(n, 0)), SL(many(n, 1)), S("")});
      em({SL(many(n, 1)), SL(many(1, 0)), S(":")});
      em({SL(many(1, 1)), SL(many(n, 0)), S(":")});
      if (n < 5000) {
        em({SL({std::string(n, 'p')}), SL({std::string(n + 1, 'q'), ""}), S(std::string(n, '\0'))});
        em({SL({std::string(n, 'p'), ""}), SL({std::string(n + 1, 'q'), "r"}), S(std::string(n * 16, '-'))});
      }
    }
  }; };
  AddFn("C16", "CrossJoin", {kStrL, kStrL, kStr}, kStrL,
        [](const In& in) {
          Val r = Empty(kStrL);
          for (auto& a : in[0].sl)
            for (auto& b : in[1].sl) r.sl.push_back(a + in[2].s + b);
          return V(r);
        },
        lists2(false));
  AddFn("C16", "ZipConcat", {kStrL, kStrL, kStr}, kStrL,
        [](const In& in) {
          if (in[0].sl.size() != in[1].sl.size()) return Err();
          Val r = Empty(kStrL);
          for (size_t i = 0; i < in[0].sl.size(); i++) r.sl.push_back(in[0].sl[i] + in[2].s + in[1].sl[i]);
          return V(r);
        },
        lists2(true));
  AddFn("C16", "string in", {kStr, kStrL}, kU8,
        [](const In& in) {
          bool hit = false;
          for (auto& s : in[1].sl) hit |= s == in[0].s;
          return V(N(kU8, hit));
        },
        [](vf::Ctx& c, const Emit& em) {
          std::vector<std::string> w;
          Words(2, kAlpha, [&](auto& s) { w.push_back(s); });
          std::vector<std::string> d{"", "a", std::string("a\0", 2), "\xff", "ab"};
          Seqs<std::string>(d, 3, [&](auto& l) {
            for (auto& s : w) em({S(s), SL(l)});
          });
          for (size_t n : {8UL, 16UL, 17UL, 64UL, 255UL, 256UL, 257UL, 1024UL, memory ? 1025UL : 65537UL}) {
            c.Beat();
            std::vector<std::string> l;
            for (size_t i = 0; i < n; i++) l.push_back("key" + std::to_string(i));
            for (size_t i : std::set<size_t>{0, 1, n / 2, n - 2, n - 1, n}) em({S("key" + std::to_string(i)), SL(l)});
            em({S("key"), SL(l)});
            em({S(""), SL(l)});
            l[n - 1] = std::string(n, 'x');
            em({S(std::string(n, 'x')), SL(l)});
            em({S(std::string(n - 1, 'x') + "y"), SL(l)});
            em({S(std::string(n - 1, 'x')), SL(l)});
            l[n / 2] = "";
            em({S(""), SL(l)});
          }
        },
        Ld(kStr, 0) + " in " + Ld(kStrL, 1));
  for (T e : Nums())
    AddFn("C16", "MurmurHash3X8632", {ListOf(e)}, kU32,
          [=](const In& in) {
            std::string b;
            for (auto u : in[0].l) b.append(reinterpret_cast<const char*>(&u), static_cast<size_t>(Width(e)) / 8);
            return V(N(kU32, Murmur(b, 0x9747b28c)));
          },
          [=](vf::Ctx& c, const Emit& em) {
            GList(e, false)(c, em);
            // every byte value at every place of short inputs
            if (Width(e) == 8)
              for (size_t n = 1; n <= 9; n++)
                for (size_t p = 0; p < n; p++)
                  for (uint64_t x = 0; x < 256; x++) {
                    std::vector<uint64_t> l(n, Wrap(e, 0x5a));
                    l[p] = Wrap(e, static_cast<i128>(x));
                    em({ListVal(e, l)});
                  }
          });
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string& mode) {
    Run(c, mode, [] {
      Casts();
      Math();
      Strings();
    });
  });
}
