// Independent reference model of values and scalar operators.  It shares no code with the library: integers are
// computed in __int128 and wrapped, floats in float / double.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <optional>
#include <string>
#include <vector>
#include "type.h"

namespace ref {
using T = jitfusion::ValueType;
using i128 = __int128;

constexpr T kU8 = T::kU8, kU16 = T::kU16, kU32 = T::kU32, kU64 = T::kU64, kI8 = T::kI8, kI16 = T::kI16, kI32 = T::kI32,
            kI64 = T::kI64, kF32 = T::kF32, kF64 = T::kF64, kStr = T::kString, kStrL = T::kStringList;

inline const std::vector<T>& Ints() {
  static const std::vector<T> v{kI8, kU8, kI16, kU16, kI32, kU32, kI64, kU64};
  return v;
}
// in promotion order
inline const std::vector<T>& Nums() {
  static const std::vector<T> v{kI8, kU8, kI16, kU16, kI32, kU32, kI64, kU64, kF32, kF64};
  return v;
}
inline int Rank(T t) {
  auto& n = Nums();
  for (size_t i = 0; i < n.size(); i++)
    if (n[i] == t) return static_cast<int>(i);
  return -1;
}
inline bool IsNum(T t) { return Rank(t) >= 0; }
inline bool IsFloat(T t) { return t == kF32 || t == kF64; }
inline bool IsInt(T t) { return IsNum(t) && !IsFloat(t); }
inline bool IsSigned(T t) { return t == kI8 || t == kI16 || t == kI32 || t == kI64; }
inline int Width(T t) {
  switch (t) {
    case kU8:
    case kI8:
      return 8;
    case kU16:
    case kI16:
      return 16;
    case kU32:
    case kI32:
    case kF32:
      return 32;
    default:
      return 64;
  }
}
inline T ListOf(T t) {
  switch (t) {
    case kU8: return T::kU8List;
    case kU16: return T::kU16List;
    case kU32: return T::kU32List;
    case kU64: return T::kU64List;
    case kI8: return T::kI8List;
    case kI16: return T::kI16List;
    case kI32: return T::kI32List;
    case kI64: return T::kI64List;
    case kF32: return T::kF32List;
    case kF64: return T::kF64List;
    case kStr: return T::kStringList;
    default: return T::kUnknown;
  }
}
inline T ElemOf(T t) {
  for (T e : Nums())
    if (ListOf(e) == t) return e;
  if (t == kStrL) return kStr;
  return T::kUnknown;
}
inline bool IsList(T t) { return ElemOf(t) != T::kUnknown; }
inline const char* Name(T t) {
  switch (t) {
    case T::kVoid: return "void";
    case kU8: return "u8";
    case kU16: return "u16";
    case kU32: return "u32";
    case kU64: return "u64";
    case kI8: return "i8";
    case kI16: return "i16";
    case kI32: return "i32";
    case kI64: return "i64";
    case kF32: return "f32";
    case kF64: return "f64";
    case kStr: return "string";
    case T::kU8List: return "u8list";
    case T::kU16List: return "u16list";
    case T::kU32List: return "u32list";
    case T::kU64List: return "u64list";
    case T::kI8List: return "i8list";
    case T::kI16List: return "i16list";
    case T::kI32List: return "i32list";
    case T::kI64List: return "i64list";
    case T::kF32List: return "f32list";
    case T::kF64List: return "f64list";
    case kStrL: return "stringlist";
    case T::kPtr: return "ptr";
    default: return "?";
  }
}

inline float F32(uint64_t u) {
  float f;
  uint32_t v = static_cast<uint32_t>(u);
  memcpy(&f, &v, 4);
  return f;
}
inline double F64(uint64_t u) {
  double f;
  memcpy(&f, &u, 8);
  return f;
}
inline uint64_t B32(float f) {
  uint32_t v;
  memcpy(&v, &f, 4);
  return v;
}
inline uint64_t B64(double f) {
  uint64_t v;
  memcpy(&v, &f, 8);
  return v;
}
// canonical 64-bit image of an integer value: wrapped to the type, then sign- or zero-extended
inline uint64_t Wrap(T t, i128 v) {
  uint64_t u = static_cast<uint64_t>(static_cast<unsigned __int128>(v));
  int w = Width(t);
  if (w == 64) return u;
  uint64_t m = (1ULL << w) - 1;
  u &= m;
  if (IsSigned(t) && (u >> (w - 1))) u |= ~m;
  return u;
}
inline i128 Int(T t, uint64_t u) {
  return IsSigned(t) ? static_cast<i128>(static_cast<int64_t>(u)) : static_cast<i128>(u);
}
inline i128 IMin(T t) { return IsSigned(t) ? -(static_cast<i128>(1) << (Width(t) - 1)) : 0; }
inline i128 IMax(T t) { return (static_cast<i128>(1) << (Width(t) - (IsSigned(t) ? 1 : 0))) - 1; }
inline double AsDouble(T t, uint64_t u) {
  if (t == kF32) return F32(u);
  if (t == kF64) return F64(u);
  return IsSigned(t) ? static_cast<double>(static_cast<int64_t>(u)) : static_cast<double>(u);
}
inline bool IsNaN(T t, uint64_t u) { return (t == kF32 && std::isnan(F32(u))) || (t == kF64 && std::isnan(F64(u))); }
inline bool SameBits(T t, uint64_t a, uint64_t b) { return a == b || (IsNaN(t, a) && IsNaN(t, b)); }

// C++ conversion between numeric types; nullopt where C++ leaves it undefined
inline std::optional<uint64_t> Conv(T from, T to, uint64_t u) {
  if (from == to) return u;
  if (IsInt(from) && IsInt(to)) return Wrap(to, Int(from, u));
  if (IsInt(from)) {
    if (to == kF32) return B32(IsSigned(from) ? static_cast<float>(static_cast<int64_t>(u)) : static_cast<float>(u));
    return B64(AsDouble(from, u));
  }
  double d = AsDouble(from, u);
  if (to == kF64) return B64(d);
  if (to == kF32) return B32(static_cast<float>(d));
  if (std::isnan(d) || std::isinf(d)) return std::nullopt;
  double tr = std::trunc(d);
  if (tr < static_cast<double>(IMin(to)) || tr >= std::ldexp(1.0, Width(to) - (IsSigned(to) ? 1 : 0)))
    return std::nullopt;
  return Wrap(to, static_cast<i128>(tr));
}
inline T Promote(T a, T b) { return Rank(a) < Rank(b) ? b : a; }
inline std::optional<bool> Truth(T t, uint64_t u) {
  if (IsNaN(t, u)) return std::nullopt;
  if (IsFloat(t)) return AsDouble(t, u) != 0.0;
  return u != 0;
}

struct Num {
  T t;
  uint64_t u;
};
using ONum = std::optional<Num>;

enum class Op { kAdd, kSub, kMul, kDiv, kMod, kAnd, kOr, kXor, kShl, kShr, kEq, kNe, kLt, kLe, kGt, kGe, kLand, kLor };
struct OpInfo {
  Op op;
  const char* text;
};
inline const std::vector<OpInfo>& Ops() {
  static const std::vector<OpInfo> v{{Op::kAdd, "+"},   {Op::kSub, "-"},  {Op::kMul, "*"}, {Op::kDiv, "/"},
                                     {Op::kMod, "%"},   {Op::kAnd, "&"},  {Op::kOr, "|"},  {Op::kXor, "^"},
                                     {Op::kShl, "<<"},  {Op::kShr, ">>"}, {Op::kEq, "=="}, {Op::kNe, "!="},
                                     {Op::kLt, "<"},    {Op::kLe, "<="},  {Op::kGt, ">"},  {Op::kGe, ">="},
                                     {Op::kLand, "and"}, {Op::kLor, "or"}};
  return v;
}
inline bool IsArith(Op o) { return o <= Op::kMod; }
inline bool IsBit(Op o) { return o >= Op::kAnd && o <= Op::kXor; }
inline bool IsShift(Op o) { return o == Op::kShl || o == Op::kShr; }
inline bool IsRel(Op o) { return o >= Op::kEq && o <= Op::kGe; }
inline bool IsLogic(Op o) { return o >= Op::kLand; }

// nullopt: not well typed
inline std::optional<T> BinType(Op o, T a, T b) {
  if (o == Op::kAdd && a == kStr && b == kStr) return kStr;
  if (o == Op::kAdd && IsList(a) && a == b) return a;
  if (IsRel(o) && a == kStr && b == kStr) return kU8;
  if (!IsNum(a) || !IsNum(b)) return std::nullopt;
  if (IsRel(o) || IsLogic(o)) return kU8;
  if (IsBit(o) || IsShift(o)) {
    if (!IsInt(a) || !IsInt(b)) return std::nullopt;
    return IsShift(o) ? a : Promote(a, b);
  }
  return Promote(a, b);
}
template <class F>
inline bool Rel(Op o, F a, F b) {
  switch (o) {
    case Op::kEq: return a == b;
    case Op::kNe: return a != b;
    case Op::kLt: return a < b;
    case Op::kLe: return a <= b;
    case Op::kGt: return a > b;
    default: return a >= b;
  }
}
template <class F>
inline F FArith(Op o, F a, F b) {
  volatile F x = a, y = b;
  switch (o) {
    case Op::kAdd: return x + y;
    case Op::kSub: return x - y;
    case Op::kMul: return x * y;
    case Op::kDiv: return x / y;
    default: return std::fmod(static_cast<F>(x), static_cast<F>(y));
  }
}
// op on two values of one type t (both already converted); nullopt: undefined
inline ONum SameTypeOp(Op o, T t, uint64_t a, uint64_t b) {
  if (IsRel(o)) {
    bool r = t == kF32   ? Rel(o, F32(a), F32(b))
             : t == kF64 ? Rel(o, F64(a), F64(b))
                         : Rel(o, Int(t, a), Int(t, b));
    return Num{kU8, r};
  }
  if (t == kF32) return Num{t, B32(FArith(o, F32(a), F32(b)))};
  if (t == kF64) return Num{t, B64(FArith(o, F64(a), F64(b)))};
  i128 x = Int(t, a), y = Int(t, b);
  switch (o) {
    case Op::kAdd: return Num{t, Wrap(t, x + y)};
    case Op::kSub: return Num{t, Wrap(t, x - y)};
    case Op::kMul: {
      // 64-bit products do not fit signed __int128 for u64: multiply modulo 2^128
      auto p = static_cast<unsigned __int128>(x) * static_cast<unsigned __int128>(y);
      return Num{t, Wrap(t, static_cast<i128>(p))};
    }
    case Op::kDiv:
    case Op::kMod:
      if (y == 0 || (IsSigned(t) && y == -1 && x == IMin(t))) return std::nullopt;
      return Num{t, Wrap(t, o == Op::kDiv ? x / y : x % y)};
    case Op::kAnd: return Num{t, Wrap(t, x & y)};
    case Op::kOr: return Num{t, Wrap(t, x | y)};
    case Op::kXor: return Num{t, Wrap(t, x ^ y)};
    case Op::kShl:
    case Op::kShr:
      if (y < 0 || y >= Width(t)) return std::nullopt;
      return Num{t, o == Op::kShl ? Wrap(t, static_cast<i128>(static_cast<unsigned __int128>(x) << static_cast<int>(y)))
                                  : Wrap(t, x >> static_cast<int>(y))};
    default: return std::nullopt;
  }
}
inline ONum Bin(Op o, Num a, Num b) {
  if (IsLogic(o)) {
    auto x = Truth(a.t, a.u);
    if (!x) return std::nullopt;
    if (o == Op::kLand && !*x) return Num{kU8, 0};
    if (o == Op::kLor && *x) return Num{kU8, 1};
    auto y = Truth(b.t, b.u);
    if (!y) return std::nullopt;
    return Num{kU8, *y};
  }
  if (!BinType(o, a.t, b.t)) return std::nullopt;
  T t = IsShift(o) ? a.t : Promote(a.t, b.t);
  if (IsShift(o)) {
    // the count is judged by its own value
    i128 n = Int(b.t, b.u);
    if (n < 0 || n >= Width(t)) return std::nullopt;
  }
  auto x = Conv(a.t, t, a.u), y = Conv(b.t, t, b.u);
  if (!x || !y) return std::nullopt;
  return SameTypeOp(o, t, *x, *y);
}
enum class Un { kPlus, kMinus, kNot, kBitNot };
struct UnInfo {
  Un op;
  const char* text;
};
inline const std::vector<UnInfo>& Uns() {
  static const std::vector<UnInfo> v{{Un::kPlus, "+"}, {Un::kMinus, "-"}, {Un::kNot, "not "}, {Un::kBitNot, "~"}};
  return v;
}
inline std::optional<T> UnType(Un o, T t) {
  if (!IsNum(t)) return std::nullopt;
  if (o == Un::kNot) return kU8;
  if (o == Un::kBitNot) return IsInt(t) ? std::optional<T>(t) : std::nullopt;
  if (o == Un::kMinus && (t == kI8 || t == kU8 || t == kI16 || t == kU16)) return kI32;
  return t;
}
inline ONum UnOp(Un o, Num a) {
  auto t = UnType(o, a.t);
  if (!t) return std::nullopt;
  switch (o) {
    case Un::kPlus: return a;
    case Un::kNot: {
      auto x = Truth(a.t, a.u);
      if (!x) return std::nullopt;
      return Num{kU8, !*x};
    }
    case Un::kBitNot: return Num{*t, Wrap(*t, ~Int(a.t, a.u))};
    default:
      if (a.t == kF32) return Num{a.t, B32(-F32(a.u))};
      if (a.t == kF64) return Num{a.t, B64(-F64(a.u))};
      return Num{*t, Wrap(*t, -Int(a.t, a.u))};
  }
}

// ---------------------------------------------------------------- values
struct Val {
  T t = T::kUnknown;
  uint64_t u = 0;
  std::string s;
  std::vector<uint64_t> l;
  std::vector<std::string> sl;
};
inline Val N(T t, uint64_t u) {
  Val v;
  v.t = t;
  v.u = u;
  return v;
}
inline Val N(Num n) { return N(n.t, n.u); }
inline Val S(std::string s) {
  Val v;
  v.t = kStr;
  v.s = std::move(s);
  return v;
}
inline Val L(T list, std::vector<uint64_t> l) {
  Val v;
  v.t = list;
  v.l = std::move(l);
  return v;
}
inline Val SL(std::vector<std::string> l) {
  Val v;
  v.t = kStrL;
  v.sl = std::move(l);
  return v;
}
inline bool Same(const Val& a, const Val& b) {
  if (a.t != b.t) return false;
  if (IsNum(a.t)) return SameBits(a.t, a.u, b.u);
  if (a.t == kStr) return a.s == b.s;
  if (a.t == kStrL) return a.sl == b.sl;
  if (a.l.size() != b.l.size()) return false;
  T e = ElemOf(a.t);
  for (size_t i = 0; i < a.l.size(); i++)
    if (!SameBits(e, a.l[i], b.l[i])) return false;
  return true;
}
inline std::string Show(T t, uint64_t u) {
  char b[64];
  if (t == kF32)
    snprintf(b, sizeof b, "%.9g", F32(u));
  else if (t == kF64)
    snprintf(b, sizeof b, "%.17g", F64(u));
  else if (IsSigned(t))
    snprintf(b, sizeof b, "%lld", static_cast<long long>(u));
  else
    snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(u));
  return b;
}
inline std::string ShowS(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c >= 127 || c == '"' || c == '\\') {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}
inline std::string Show(const Val& v) {
  if (IsNum(v.t)) return Show(v.t, v.u) + Name(v.t);
  if (v.t == kStr) return ShowS(v.s);
  if (v.t == T::kVoid) return "void";
  std::string o = std::string(Name(v.t)) + "[";
  if (v.t == kStrL)
    for (size_t i = 0; i < v.sl.size(); i++) o += (i ? "," : "") + ShowS(v.sl[i]);
  else
    for (size_t i = 0; i < v.l.size(); i++) o += (i ? "," : "") + Show(ElemOf(v.t), v.l[i]);
  return o + "]";
}

// ---------------------------------------------------------------- domains
inline void AddU(std::vector<uint64_t>& d, uint64_t u) {
  for (auto x : d)
    if (x == u) return;
  d.push_back(u);
}
// level 0: few values, 1: the usual boundary set, 2: more
inline std::vector<uint64_t> Domain(T t, int level) {
  std::vector<uint64_t> d;
  if (IsInt(t)) {
    std::vector<i128> c;
    i128 mn = IMin(t), mx = IMax(t);
    if (level == 0) {
      c = {0, 1, mx, mn, static_cast<i128>(2), IsSigned(t) ? static_cast<i128>(-1) : mx - 1};
    } else {
      c = {0, 1, 2, 3, 7, 10, mx, mx - 1, mn, mn + 1, -1, -2, -7, mx / 2, mx / 2 + 1};
      for (int k : {7, 8, 15, 16, 24, 31, 32, 53, 63})
        for (int e = -1; e <= 1; e++) c.push_back((static_cast<i128>(1) << k) + e);
      c.push_back(static_cast<i128>(0x5555555555555555LL));
      c.push_back(static_cast<i128>(0xAAAAAAAAAAAAAAAAULL));
      c.push_back(static_cast<i128>(0x0123456789ABCDEFLL));
      if (Width(t) == 64) {  // on the way to f32 these come out differently when they are rounded to f64 first
        c.push_back((static_cast<i128>(1) << 62) + (static_cast<i128>(1) << 38) + 1);
        c.push_back((static_cast<i128>(1) << 62) + (static_cast<i128>(3) << 38) - 1);
        c.push_back(IsSigned(t) ? -(static_cast<i128>(1) << 61) - (static_cast<i128>(1) << 37) - 1 : (static_cast<i128>(1) << 63) + (static_cast<i128>(1) << 39) + 1);
      }
      if (level > 1)
        for (int k = 0; k < 64; k++)
          for (int e = -1; e <= 1; e++) {
            c.push_back((static_cast<i128>(1) << k) + e);
            c.push_back(-(static_cast<i128>(1) << k) + e);
          }
    }
    for (i128 x : c) AddU(d, Wrap(t, x));
    return d;
  }
  std::vector<double> c;
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  if (level == 0)
    c = {0.0, 1.0, -2.5, -0.0, inf, nan};
  else
    c = {0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 0.1, 1e10, -7.25, 16777216.0, 16777217.0, 9007199254740992.0,
         9007199254740993.0, 255.0, 256.0, 65535.5, 2147483648.0, 4294967296.0, 9223372036854775808.0,
         18446744073709551616.0, inf, -inf, nan};
  if (level > 1) {
    for (double x : {0.25, 0.75, 1.0 / 3, 2.0, 4.0, 10.0, 100.0, 1000.0, 1e-3, 1e-10, 1e20, 3.5, 4.5, 127.0, 128.0,
                     32767.0, 32768.0, 2147483647.0, 4294967295.0, 1e-30, 1e30}) {
      c.push_back(x);
      c.push_back(-x);
    }
  }
  for (double x : c) AddU(d, t == kF32 ? B32(static_cast<float>(x)) : B64(x));
  if (level > 0) {
    if (t == kF32) {
      for (float x : {std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(),
                      std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min()})
        AddU(d, B32(x));
    } else {
      for (double x : {std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
                       std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min()})
        AddU(d, B64(x));
    }
  }
  return d;
}
inline std::vector<uint64_t> FullDomain(T t) {
  std::vector<uint64_t> d;
  for (int i = 0; i < (1 << Width(t)); i++) d.push_back(Wrap(t, i));
  return d;
}
// A source literal for a value, if the language has one without an operator
inline std::optional<std::string> Literal(T t, uint64_t u) {
  char b[400];
  if (IsInt(t)) {
    if (Int(t, u) < 0) return std::nullopt;
    snprintf(b, sizeof b, "%llu%s", static_cast<unsigned long long>(u), Name(t));
    return std::string(b);
  }
  double d = AsDouble(t, u);
  if (std::isnan(d) || std::isinf(d) || std::signbit(d)) return std::nullopt;
  if (d != 0 && d < (t == kF32 ? 1.2e-38 : 2.3e-308)) return std::nullopt;  // stof/stod refuse subnormals
  // exact decimal expansion: the language has no exponents
  snprintf(b, sizeof b, "%.*f", 60, d);
  std::string s(b);
  // only use it when it reads back to the same value
  if (t == kF32 ? B32(strtof(b, nullptr)) != u : B64(strtod(b, nullptr)) != u) return std::nullopt;
  while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
  return s + Name(t);
}
}  // namespace ref
