// C30: what a registered C function receives and what the program gets back, for every short parameter list.
// The functions are compiled by the C++ compiler, so their side of the calling convention is the platform's own.
#include "jf.h"
#ifndef ABI_PART
#define ABI_PART 0  // 0: the register classes, length up to 8; 1: more types, up to length 4, return types and stores; 2: narrow integers, by clang
#endif
using namespace jf;
using jitfusion::StringListStruct;
using jitfusion::StringStruct;

namespace {
bool thorough = false;
constexpr T P = T::kPtr;
struct Got {
  T t;
  uint64_t u = 0;
  const void* p = nullptr;
  uint32_t len = 0;
};
Got g_got[80];
int g_n = 0, g_calls = 0;
const void* g_ctx = nullptr;
template <class C>
constexpr T TOf() {
  if constexpr (std::is_pointer_v<C>) return P;
  else if constexpr (std::is_same_v<C, StringStruct>) return kStr;
  else if constexpr (std::is_same_v<C, StringListStruct>) return kStrL;
  else if constexpr (std::is_same_v<C, float>) return kF32;
  else if constexpr (std::is_same_v<C, double>) return kF64;
  else if constexpr (std::is_class_v<C>) return ListOf(TOf<typename C::CElementType>());
  else if constexpr (std::is_signed_v<C>) return sizeof(C) == 1 ? kI8 : sizeof(C) == 2 ? kI16 : sizeof(C) == 4 ? kI32 : kI64;
  else return sizeof(C) == 1 ? kU8 : sizeof(C) == 2 ? kU16 : sizeof(C) == 4 ? kU32 : kU64;
}
// an integer is widened before anything else: a compiler that takes the register to be extended does not extend it again
template <class C>
using Held = std::conditional_t<std::is_integral_v<C>, int64_t, C>;
template <class C>
__attribute__((noinline)) void Put(Held<C> c) {
  if (g_n >= 80) return;
  Got& g = g_got[g_n++];
  g = Got{};
  g.t = TOf<C>();
  if constexpr (std::is_pointer_v<C>) g.p = c;
  else if constexpr (std::is_class_v<C>) g.p = c.data, g.len = c.len;
  else if constexpr (std::is_integral_v<C>) g.u = static_cast<uint64_t>(c);  // all of the register
  else memcpy(&g.u, &c, sizeof c);
}
template <class... A>
int64_t Fn(A... a) {
  g_calls++;
  (Put<A>(a), ...);
  return static_cast<int64_t>(sizeof...(A)) + 1000;
}
template <class... A>
int64_t FnC(A... a, ExecContext* c) {
  g_calls++;
  (Put<A>(a), ...);
  g_ctx = c;
  return static_cast<int64_t>(sizeof...(A)) + 1000;
}
struct F {
  std::vector<T> ts;
  void* fn;
  void* fnc;
};
template <int Depth, int CtxDepth, class... X>
struct Gen {
  template <class... A>
  static void Do(std::vector<F>& out) {
    void* c = nullptr;
    if constexpr (sizeof...(A) <= CtxDepth) c = (void*)FnC<A...>;
    out.push_back({{TOf<A>()...}, (void*)Fn<A...>, c});
    if constexpr (sizeof...(A) < Depth) (Do<A..., X>(out), ...);
  }
};
std::string Types(const std::vector<T>& ts) {
  std::string s = "(";
  for (size_t i = 0; i < ts.size(); i++) s += (i ? ", " : "") + std::string(ts[i] == P ? "ptr" : Name(ts[i]));
  return s + ")";
}
// ------------------------------------------------------------- operands: one per type and position, distinct
const T kTypes[] = {kI64, kF64, kStr, kU8, kI8, kU16, kI16, kU32, kI32, kU64, kF32, T::kF64List, kStrL, T::kU8List};
int TI(T t) {
  for (int i = 0; i < 14; i++)
    if (kTypes[i] == t) return i;
  Die("type");
  return 0;
}
Val Operand(T t, int pos, int set) {
  if (t == kStr) return S(set ? std::string(static_cast<size_t>(pos * 5), static_cast<char>('A' + pos)) : "arg" + std::to_string(pos));
  if (t == kStrL) return SL(set && pos == 2 ? std::vector<std::string>{} : std::vector<std::string>{"x" + std::to_string(pos), "yy"});
  if (t == T::kF64List) return L(t, {B64(pos + 0.25), B64(-1.5), static_cast<uint64_t>(pos)});
  if (t == T::kU8List) return L(t, std::vector<uint64_t>(static_cast<size_t>(pos + 1), 200));
  if (t == kF32) return N(t, set ? (pos % 3 == 0 ? 0x80000000u : pos % 3 == 1 ? 0x7FC00001u + static_cast<unsigned>(pos) : 0xFF800000u) : B32(static_cast<float>(pos) + 0.5f));
  if (t == kF64) return N(t, set ? (pos % 3 == 0 ? 0x8000000000000000ull : pos % 3 == 1 ? 0x7FF8000000000001ull + static_cast<uint64_t>(pos) : 0x0000000000000001ull) : B64(pos + 0.125));
  uint64_t top = 1ull << (Width(t) - 1);
  uint64_t u = set ? (pos % 2 ? ~0ull - static_cast<uint64_t>(pos) : top + static_cast<uint64_t>(pos)) : 0x0102030405060708ull * static_cast<uint64_t>(pos + 1);
  return N(t, Wrap(t, u));
}
struct World {
  std::deque<Slot> s;
  Args args;
  explicit World(int set) {
    for (int t = 0; t < 14; t++)
      for (int p = 0; p < 64; p++) s.emplace_back(Operand(kTypes[t], p, set)), args.a[t * 64 + p] = &s.back();
    for (int p = 0; p < 64; p++) s.emplace_back(N(kI64, Dirty(p, set))), args.a[14 * 64 + p] = &s.back();
    s.emplace_back(N(kU8, set));
    args.a[1000] = &s.back();
  }
  static uint64_t Dirty(int p, int set) { return (set ? 0x5A5A5A5A5A5A0000ull : 0xA5C3A5C3A5C30000ull) + static_cast<uint64_t>(set ? 0xFF80 - p * 0x101 : 0x0081 + p * 0x7F7); }
  const Slot& Of(T t, int p) { return *args.a[TI(t) * 64 + p]; }
};
uint64_t Register(T t, uint64_t u) {  // as C passes it: extended
  return IsFloat(t) ? u & (t == kF32 ? 0xFFFFFFFFull : ~0ull) : Width(t) == 64 ? u : IsSigned(t) ? static_cast<uint64_t>(static_cast<int64_t>(u << (64 - Width(t))) >> (64 - Width(t))) : u & ((1ull << Width(t)) - 1);
}
std::string CastName(T t) {
  std::string n = Name(t);
  n[0] = static_cast<char>(n[0] - 32);
  return "Cast" + n;
}
bool Narrow(T t) { return IsNum(t) && !IsFloat(t) && Width(t) < 32; }
// how the arguments are written: 0 loaded, 1 results of calls with many arguments themselves, 2 constants, 3 in a branch,
// 4 narrow integers cut off a wider one
int64_t WI(Args* a, int32_t i, double, int64_t, StringStruct, double, int64_t, StringStruct) { return LdNum<int64_t>(a, i); }
double WD(Args* a, int32_t i, double, int64_t, StringStruct, double, int64_t, StringStruct) { return LdNum<double>(a, i); }
StringStruct WS(Args* a, int32_t i, double, int64_t, StringStruct, double, int64_t, StringStruct) { return LdList<StringStruct>(a, i); }
std::string ArgText(T t, int p, int how) {
  if (t == P) return p % 2 ? "exec_ctx" : "entry_arg";
  int i = TI(t) * 64 + p;
  if (how == 1 && (t == kI64 || t == kF64 || t == kStr)) return std::string(t == kI64 ? "wi" : t == kF64 ? "wd" : "ws") + "(entry_arg, " + std::to_string(i) + ", 1.5, 2i64, 'three', 4.5, 5i64, 'six')";
  if (how == 4 && Narrow(t)) return CastName(t) + "(ld_i64(entry_arg, " + std::to_string(14 * 64 + p) + "))";
  if (how == 2) {
    if (Narrow(t) && IsSigned(t)) return CastName(t) + "(-" + std::to_string(p * 9 + 100) + ")";
    if (t == kStr) return "'c" + std::string(static_cast<size_t>(p), 'c') + "'";
    if (t == kF32 || t == kF64) return std::to_string(p + 1) + ".5" + Name(t);
    if (!IsList(t)) return std::to_string(p * 9 + 100) + Name(t);
    if (t == T::kF64List) return "[" + std::to_string(p) + ".5f64, 1.0f64]";
    if (t == T::kU8List) return "[" + std::to_string(p) + "u8, 255u8]";
    return "['p" + std::to_string(p) + "', '']";
  }
  return Ld(t, i);
}
Val ConstOf(T t, int p) {
  if (t == kStr) return S("c" + std::string(static_cast<size_t>(p), 'c'));
  if (t == kF32) return N(t, B32(static_cast<float>(p) + 1.5f));
  if (t == kF64) return N(t, B64(p + 1.5));
  if (t == T::kF64List) return L(t, {B64(p + 0.5), B64(1.0)});
  if (t == T::kU8List) return L(t, {static_cast<uint64_t>(p), 255});
  if (t == kStrL) return SL({"p" + std::to_string(p), ""});
  return N(t, Narrow(t) && IsSigned(t) ? Wrap(t, -(p * 9 + 100)) : static_cast<uint64_t>(p * 9 + 100));
}
Val ValOf(const Got& g) {  // read what a constant argument points to
  if (g.t == kStr) return Back<StringStruct>::Of({const_cast<char*>(static_cast<const char*>(g.p)), g.len});
  if (g.t == kStrL) return Back<StringListStruct>::Of({static_cast<StringStruct*>(const_cast<void*>(g.p)), g.len});
  if (g.t == T::kF64List) return Back<jitfusion::F64ListStruct>::Of({static_cast<double*>(const_cast<void*>(g.p)), g.len});
  if (g.t == T::kU8List) return Back<jitfusion::U8ListStruct>::Of({static_cast<uint8_t*>(const_cast<void*>(g.p)), g.len});
  return N(g.t, g.u);
}
std::string Check(const F& f, int how, int set, World& w, const ExecContext* ctx, bool implicit) {
  if (g_calls != 1) return "is called " + std::to_string(g_calls) + " times";
  if (g_n != static_cast<int>(f.ts.size())) return "receives " + std::to_string(g_n) + " arguments";
  if (implicit && g_ctx != ctx) return "receives another execution context";
  for (int p = 0; p < g_n; p++) {
    const Got& g = g_got[p];
    T t = f.ts[static_cast<size_t>(p)];
    std::string at = "argument " + std::to_string(p + 1);
    if (t == P) {
      const void* want = p % 2 ? static_cast<const void*>(ctx) : &w.args;
      if (g.p != want) return at + " is another pointer";
    } else if (how == 2) {
      if (Val v = ConstOf(t, p); IsNum(t) ? g.u != Register(t, v.u) : !Same(ValOf(g), v)) return at + " is " + Show(ValOf(g)) + ", the program passes " + Show(v);
    } else if (t == kStr || IsList(t)) {
      const Slot& s = w.Of(t, p);
      if (g.len != s.len || g.p != s.data) return at + " is another " + (t == kStr ? "string" : "list") + " than the one passed (length " + std::to_string(g.len) + ", passed " + std::to_string(s.len) + ")";
    } else if (uint64_t u = how == 4 && Narrow(t) ? World::Dirty(p, set) : w.Of(t, p).u; g.u != Register(t, u)) {
      return at + " is " + std::to_string(static_cast<int64_t>(g.u)) + " in " + Name(t) + ", passed " + Show(N(t, Wrap(t, u)));
    }
  }
  return "";
}
void RegPlain(FunctionRegistry* r, const std::string& n, std::vector<T> ts, T ret, void* f) {
  jitfusion::FunctionStructure fs{jitfusion::FunctionType::kCFunc, f, {}};
  if (auto st = r->RegisterFunc(FunctionSignature(n, std::move(ts), ret), fs); !st.ok()) Die(n + ": " + st.ToString());
}
// every function of a list, called in every way
void Lists(vf::Ctx& c, const std::vector<F>& fs, const char* what) {
  World w0(0), w1(1);
  constexpr size_t kChunk = 60;
  for (size_t b = 0; b < fs.size(); b += kChunk)
    if (c.Begin([&] { return std::string(what) + " from " + Types(fs[b].ts); })) {
      size_t e = std::min(fs.size(), b + kChunk);
      auto reg = NewRegistry();
      std::vector<T> wt{P, kI32, kF64, kI64, kStr, kF64, kI64, kStr};
      RegPlain(reg.get(), "wi", wt, kI64, (void*)WI), RegPlain(reg.get(), "wd", wt, kF64, (void*)WD), RegPlain(reg.get(), "ws", wt, kStr, (void*)WS);
      std::vector<std::unique_ptr<ExecNode>> ns;
      struct En {
        size_t f;
        int how;
        bool implicit, legacy;
        std::string src;
      };
      std::vector<En> es;
      for (size_t i = b; i < e; i++) {
        std::string n = "q" + std::to_string(i);
        RegPlain(reg.get(), n, fs[i].ts, kI64, fs[i].fn);
        bool implicit = fs[i].fnc != nullptr;
        if (implicit && !reg->RegisterReadOnlyCFuncWithExecCtx(FunctionSignature("c" + n, fs[i].ts, kI64), fs[i].fnc).ok()) Die(n);
        auto call = [&](const std::string& f, int how, const char* last) {
          std::string s = f + "(";
          for (size_t p = 0; p < fs[i].ts.size(); p++) s += (p ? ", " : "") + ArgText(fs[i].ts[p], static_cast<int>(p), how);
          if (last) s += std::string(fs[i].ts.empty() ? "" : ", ") + last;
          return s + ")";
        };
        es.push_back({i, 0, false, false, call(n, 0, nullptr)});
        if (fs[i].ts.size() <= 6 || fs[i].ts.size() > 8 || thorough) es.push_back({i, 1, false, false, call(n, 1, nullptr)});
        if (fs[i].ts.size() <= 5 || (thorough && fs[i].ts.size() <= 8)) es.push_back({i, 2, false, false, call(n, 2, nullptr)});
        if (fs[i].ts.size() <= 5 || fs[i].ts.size() > 8 || thorough) es.push_back({i, 3, false, false, "if(ld_u8(entry_arg, 1000) > 0u8, " + call(n, 0, nullptr) + ", 7i64)"});
        if (std::any_of(fs[i].ts.begin(), fs[i].ts.end(), Narrow)) es.push_back({i, 4, false, false, call(n, 4, nullptr)});
        if (implicit) es.push_back({i, 0, true, false, call("c" + n, 0, nullptr)}), es.push_back({i, 0, true, true, call("c" + n, 0, "exec_ctx")});
      }
      for (auto& x : es) {
        std::unique_ptr<ExecNode> n;
        if (auto st = BuildExpr(x.src + ";", &n); !st.ok()) c.Fail(x.src + ": " + st.ToString());
        ns.push_back(std::move(n));
      }
      BatchExecEngine eng;
      if (auto st = eng.Compile(ns, reg); !st.ok()) {
        c.Fail("calls of " + Types(fs[b].ts) + " and the following do not compile: " + st.ToString());
        continue;
      }
      ExecContext ctx(256);
      for (size_t k = 0; k < es.size(); k++)
        for (int s = 0; s < 2; s++) {
          auto& x = es[k];
          World& w = s ? w1 : w0;
          g_n = g_calls = 0, g_ctx = nullptr;
          RetType r;
          auto st = eng.ExecuteAt(k, ctx, &w.args, &r);
          bool called = x.how != 3 || s == 1;
          std::string m;
          if (!st.ok()) m = "fails: " + st.ToString();
          else if (!called && g_calls) m = "is called although its branch is not taken";
          else if (called) m = Check(fs[x.f], x.how, s, w, &ctx, x.implicit);
          if (m.empty() && !Same(FromRet(r), FromRet(RetType(called ? static_cast<int64_t>(fs[x.f].ts.size()) + 1000 : int64_t{7})))) m = "returns " + Show(FromRet(r));
          c.Eval();
          if (!m.empty()) c.Fail("q" + Types(fs[x.f].ts) + " " + m + " in " + x.src);
        }
      for (size_t i = b; i < e; i++) c.Outcome(Types(fs[i].ts));
      if (b % (kChunk * 31) == 0) c.SampleOf("call", es.back().src);
    }
}

#if ABI_PART == 1
// ------------------------------------------------------------- many parameters, of regular types
using FL64 = jitfusion::F64ListStruct;
template <int Pat>
struct Kinds;
template <> struct Kinds<0> { using T = std::tuple<int64_t>; };
template <> struct Kinds<1> { using T = std::tuple<double>; };
template <> struct Kinds<2> { using T = std::tuple<StringStruct>; };
template <> struct Kinds<3> { using T = std::tuple<int64_t, double>; };
template <> struct Kinds<4> { using T = std::tuple<StringStruct, int64_t>; };
template <> struct Kinds<5> { using T = std::tuple<double, StringStruct>; };
template <> struct Kinds<6> { using T = std::tuple<int64_t, double, StringStruct, uint8_t, float, int16_t, StringListStruct, FL64>; };
template <> struct Kinds<7> { using T = std::tuple<FL64, int8_t, void*, float, StringStruct, uint32_t, double>; };
template <> struct Kinds<8> { using T = std::tuple<int32_t, int32_t, int32_t, int32_t, int32_t, StringStruct, double>; };
template <> struct Kinds<9> { using T = std::tuple<float, float, double, double, float, float, float, float, uint16_t, StringStruct>; };
template <> struct Kinds<10> { using T = std::tuple<int8_t, uint8_t, int16_t, uint16_t>; };
template <int Pat, size_t I>
using At = std::tuple_element_t<I % std::tuple_size_v<typename Kinds<Pat>::T>, typename Kinds<Pat>::T>;
template <int Pat, size_t... I>
F WideF(std::index_sequence<I...>) { return {{TOf<At<Pat, I>>()...}, (void*)Fn<At<Pat, I>...>, (void*)FnC<At<Pat, I>...>}; }
template <int Pat>
void WideOf(std::vector<F>& out) {
  auto add = [&](auto... n) { (out.push_back(WideF<Pat>(std::make_index_sequence<decltype(n)::value>())), ...); };
  using std::integral_constant;
  [&]<size_t... L>(std::index_sequence<L...>) { add(integral_constant<size_t, L + 9>{}...); }(std::make_index_sequence<9>());
  add(integral_constant<size_t, 24>{}, integral_constant<size_t, 31>{}, integral_constant<size_t, 32>{}, integral_constant<size_t, 33>{}, integral_constant<size_t, 48>{},
      integral_constant<size_t, 63>{}, integral_constant<size_t, 64>{});
}
std::vector<F> Wide() {
  std::vector<F> v;
  [&]<int... Q>(std::integer_sequence<int, Q...>) { (WideOf<Q>(v), ...); }(std::make_integer_sequence<int, 11>());
  return v;
}
// ------------------------------------------------------------- return types: the value of slot `i`, behind other parameters
template <class R>
R Load(Args* a, int32_t i) {
  if constexpr (std::is_class_v<R>) return LdList<R>(a, i);
  else return LdNum<R>(a, i);
}
template <class R, class... A>
R Ret(Args* a, int32_t i, A...) { return Load<R>(a, i); }
template <class R, class... A>
R RetLate(A..., Args* a, int32_t i) { return Load<R>(a, i); }
template <class R>
int64_t Recv(double, R r, int64_t) {
  g_calls++;
  Put<R>(r);
  return 5;
}
struct Rt {
  T t;
  std::string name;
  std::string call;  // with # for the operand
};
template <class R, class... A>
void AddRet(FunctionRegistry* r, std::vector<Rt>& out, int k, const std::string& args) {
  std::vector<T> first{P, kI32}, late;
  for (T t : std::vector<T>{TOf<A>()...}) first.push_back(t), late.push_back(t);
  late.push_back(P), late.push_back(kI32);
  std::string n = "r" + std::to_string(k) + Name(TOf<R>());
  RegPlain(r, n, first, TOf<R>(), (void*)Ret<R, A...>);
  RegPlain(r, n + "_", late, TOf<R>(), (void*)RetLate<R, A...>);
  out.push_back({TOf<R>(), n, n + "(entry_arg, #" + (args.empty() ? "" : ", " + args) + ")"});
  out.push_back({TOf<R>(), n + "_", n + "_(" + (args.empty() ? "" : args + ", ") + "entry_arg, #)"});
}
std::vector<Val> Values(T t) {
  if (t == kStr) return {S(""), S("a"), S(std::string("nul\0in", 6)), S(std::string(300, 'z'))};
  if (t == kStrL) return {SL({}), SL({""}), SL({"", "ab", std::string(40, 'q')})};
  if (IsList(t)) {
    std::vector<Val> v{L(t, {})};
    std::vector<uint64_t> all;
    for (auto& x : Values(ElemOf(t))) v.push_back(L(t, {x.u})), all.push_back(x.u);
    v.push_back(L(t, all));
    return v;
  }
  if (t == kF32) return {N(t, 0), N(t, 0x80000000u), N(t, 1), N(t, 0x7F7FFFFFu), N(t, 0x7F800000u), N(t, 0x7FC00123u), N(t, B32(0.1f))};
  if (t == kF64) return {N(t, 0), N(t, 1ull << 63), N(t, 1), N(t, 0x7FEFFFFFFFFFFFFFull), N(t, 0xFFF0000000000000ull), N(t, 0x7FF8000000000123ull), N(t, B64(0.1))};
  uint64_t top = 1ull << (Width(t) - 1);
  return {N(t, 0), N(t, Wrap(t, 1)), N(t, Wrap(t, top - 1)), N(t, Wrap(t, top)), N(t, Wrap(t, top + 1)), N(t, Wrap(t, ~0ull)), N(t, Wrap(t, 0xA5C3A5C3A5C3A5C3ull))};
}
void Returns(vf::Ctx& c) {
  ForTypes([&](T t, auto* p) {
    using R = std::remove_pointer_t<decltype(p)>;
    if (!c.Begin([&] { return "functions returning " + std::string(Name(t)); })) return;
    auto reg = NewRegistry();
    AddStores(reg.get());
    std::vector<Rt> rs;
    AddRet<R>(reg.get(), rs, 0, "");
    AddRet<R, double>(reg.get(), rs, 1, "1.5");
    AddRet<R, StringStruct>(reg.get(), rs, 2, "'ab'");
    AddRet<R, int64_t, double, StringStruct>(reg.get(), rs, 3, "9i64, 2.5, 'c'");
    AddRet<R, StringStruct, StringStruct, StringStruct>(reg.get(), rs, 4, "'a', 'b', 'c'");
    AddRet<R, double, double, double, double, double, double, double, double, double>(reg.get(), rs, 5, "1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0");
    AddRet<R, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t>(reg.get(), rs, 6, "1i64, 2i64, 3i64, 4i64, 5i64, 6i64");
    AddRet<R, uint8_t, float, int16_t, StringListStruct>(reg.get(), rs, 7, "200u8, 0.5f32, 5i16, ['x']");
    RegPlain(reg.get(), "recv", {kF64, t, kI64}, kI64, (void*)Recv<R>);
    auto vals = Values(t);
    std::deque<Slot> slots;
    Args args;
    for (auto& v : vals) slots.emplace_back(v), args.a[slots.size() - 1] = &slots.back();
    slots.emplace_back(N(kI32, 3)), args.a[100] = &slots.back();
    Batch b;
    struct En {
      size_t r, v;
      int how;  // 0 result, 1 argument of another call, 2 stored, 3 in the branches of an if, 4 in a switch
    };
    std::vector<En> es;
    auto sub = [](std::string s, size_t v) { return s.replace(s.find('#'), 1, std::to_string(v)); };
    for (size_t r = 0; r < rs.size(); r++)
      for (size_t v = 0; v < vals.size(); v++)
        for (int how = 0; how < 5; how++) {
          std::string x = sub(rs[r].call, v), y = sub(rs[r].call, (v + 1) % vals.size());
          es.push_back({r, v, how});
          if (how == 0) b.Add(x);
          else if (how == 1) b.Add("recv(2.5, " + x + ", 3i64)");
          else if (how == 2) b.AddPipeline(StName(t) + "(output, 4, " + x + ");" + StName(t) + "(output, 5, " + y + ");");
          else if (how == 3) b.Add("if(ld_i32(entry_arg, 100) == 3, " + x + ", " + y + ")");
          else b.Add("switch(ld_i32(entry_arg, 100) == 2, " + y + ", ld_i32(entry_arg, 100) == 3, " + x + ", " + y + ")");
        }
    b.Compile(reg);
    for (size_t k = 0; k < es.size(); k++) {
      c.Eval();
      if (!b.Error(k).empty()) {
        c.Fail(b.Src(k) + ": " + b.Error(k));
        continue;
      }
      Val want = vals[es[k].v];
      g_n = g_calls = 0;
      if (es[k].how == 2) {
        Recorder rec;
        auto st = b.RunStore(k, args, &rec);
        std::vector<std::pair<int, Val>> w{{4, want}, {5, vals[(es[k].v + 1) % vals.size()]}};
        if (!st.ok() || !SameLog(rec.log, w)) c.Fail(b.Src(k) + " stores " + ShowLog(rec.log) + ", the functions return " + ShowLog(w));
        continue;
      }
      Val got;
      auto st = b.Run(k, args, &got);
      if (!st.ok()) c.Fail(b.Src(k) + " fails: " + st.ToString());
      else if (es[k].how == 1) {
        const Slot& s = slots[es[k].v];
        bool same = g_calls == 1 && g_n == 1 && ((t == kStr || IsList(t)) ? g_got[0].p == s.data && g_got[0].len == s.len : g_got[0].u == Register(t, s.u));
        if (!same) c.Fail(b.Src(k) + ": the receiving function does not get the returned " + Show(want));
      } else if (!Same(got, want))
        c.Fail(b.Src(k) + " is " + Show(got) + ", the function returns " + Show(want));
      c.Outcome(Show(want));
    }
    c.SampleOf("return", b.Src(b.size() - 1));
  });
  if (c.Begin("pointers")) {  // pointers come from functions too
    auto reg = NewRegistry();
    static int cell = 0;
    RegPlain(reg.get(), "pp", {P, kI64}, P, (void*)+[](void*, int64_t) -> void* { return &cell; });
    RegPlain(reg.get(), "id", {P}, P, (void*)+[](void* p) -> void* { return p; });
    RegPlain(reg.get(), "recv", {kF64, P, kI64}, kI64, (void*)Recv<void*>);
    struct {
      const char* s;
      int want;
    } ps[] = {{"recv(1.0, pp(entry_arg, 3i64), 2i64)", 0}, {"recv(1.0, id(pp(exec_ctx, 3i64)), 2i64)", 0}, {"recv(1.0, id(entry_arg), 2i64)", 1}, {"recv(1.0, id(exec_ctx), 2i64)", 2}, {"recv(1.0, entry_arg, 2i64)", 1}, {"recv(1.0, exec_ctx, 2i64)", 2}};
    for (auto& x : ps) {
      std::unique_ptr<ExecEngine> e;
      auto m = TryCompile(std::string(x.s) + ";", reg, &e);
      Args a;
      ExecContext ctx(64);
      RetType r;
      g_n = g_calls = 0;
      if (m.empty() && !e->Execute(ctx, &a, &r).ok()) m = "fails";
      const void* w = x.want == 0 ? static_cast<void*>(&cell) : x.want == 1 ? static_cast<void*>(&a) : static_cast<void*>(&ctx);
      if (m.empty() && (g_calls != 1 || g_got[0].p != w)) m = "another pointer arrives";
      c.Eval();
      if (!m.empty()) c.Fail(std::string(x.s) + ": " + m);
    }
  }
}
// ------------------------------------------------------------- stores
struct StRec {
  int which;
  const void* out;
  int64_t v;
};
std::vector<StRec> g_st;
template <int W> int32_t St1(void* o, int64_t v) { return g_st.push_back({W, o, v}), 0; }
int32_t St2(int64_t v, void* o) { return g_st.push_back({2, o, v}), 0; }
int32_t St3(StringStruct s, double d, void* o, int64_t v) { return g_st.push_back({s.len == 3 && d == 0.5 ? 3 : 33, o, v}), 0; }
int64_t St4(void* o, StringStruct, StringStruct, StringStruct s, int64_t v) { return g_st.push_back({s.len == 2 ? 4 : 44, o, v}), 77; }
double St5(void* o, double d, int64_t v) { return g_st.push_back({5, o, v + static_cast<int64_t>(d)}), 1.5; }
void St6(void* o, int64_t v) { g_st.push_back({6, o, v}); }
struct StK {
  const char* form;  // # the value
  int which;
};
const StK kSt[] = {{"s1(output, #);", 1}, {"s2(#, output);", 2}, {"s3('abc', 0.5, output, #);", 3}, {"s4(output, 'a', 'b', 'cd', #);", 4}, {"s5(output, 0.0, #);", 5},
                   {"when ld_u8(entry_arg, 1) > 0u8 { s1(output, #); }", 7}, {"when ld_u8(entry_arg, 1) > 0u8 { s2(#, output); } else { s1(output, #); }", 8}, {"x = s4(output, '', '', 'ef', #);", 4}, {"s6(output, #);", 6}};
void Stores(vf::Ctx& c) {
  size_t depth = thorough ? 5 : 4;
  for (size_t a = 0; a < 9; a++)
    for (size_t b = 0; b < 9; b++)
      if (c.Begin([&] { return std::string("stores starting ") + kSt[a].form + " " + kSt[b].form; })) {
        auto reg = NewRegistry();
        auto st = [&](const char* n, std::vector<T> ts, T ret, void* f, uint32_t idx) {
          if (!reg->RegisterStoreCFunc(FunctionSignature(n, ts, ret), f, idx).ok()) Die(n);
        };
        st("s1", {P, kI64}, kI32, (void*)St1<1>, 1), st("s2", {kI64, P}, kI32, (void*)St2, 2), st("s3", {kStr, kF64, P, kI64}, kI32, (void*)St3, 3);
        st("s4", {P, kStr, kStr, kStr, kI64}, kI64, (void*)St4, 1), st("s5", {P, kF64, kI64}, kF64, (void*)St5, 1), st("s6", {P, kI64}, T::kVoid, (void*)St6, 1);
        std::vector<std::vector<size_t>> progs;
        for (size_t len = 1; len <= depth; len++) {
          if (len == 1) {
            if (a == b) progs.push_back({a});
            continue;
          }
          std::vector<size_t> x(len, 0);
          x[0] = a, x[1] = b;
          for (;;) {
            progs.push_back(x);
            size_t k = len;
            while (k > 2 && ++x[k - 1] == 9) x[--k] = 0;
            if (k == 2) break;
          }
        }
        Batch batch;
        std::vector<std::vector<StRec>> want[2];
        for (auto& x : progs) {
          std::string src;
          std::vector<StRec> w[2];
          for (size_t i = 0; i < x.size(); i++) {
            std::string f = kSt[x[i]].form, v = i % 2 ? std::to_string(10 + i) + "i64" : "ld_i64(entry_arg, 0) + " + std::to_string(i) + "i64";
            for (size_t p; (p = f.find('#')) != std::string::npos;) f.replace(p, 1, v);
            if (f[0] == 'x') f[0] = static_cast<char>('p' + i);
            src += f + " ";
            for (int s = 0; s < 2; s++) {
              int64_t val = i % 2 ? 10 + static_cast<int64_t>(i) : (s ? -4 : 1ll << 40) + static_cast<int64_t>(i);
              int wh = kSt[x[i]].which;
              if (wh == 7) {
                if (s) w[s].push_back({1, nullptr, val});
              } else w[s].push_back({wh == 8 ? (s ? 2 : 1) : wh, nullptr, val});
            }
          }
          batch.AddPipeline(src);
          for (int s = 0; s < 2; s++) want[s].push_back(w[s]);
        }
        batch.Compile(reg);
        Slot v0(FromRet(RetType(int64_t{1} << 40))), v1(FromRet(RetType(int64_t{-4}))), n0(N(kU8, 0)), n1(N(kU8, 1));
        int outs[2];
        for (size_t i = 0; i < progs.size(); i++)
          for (int s = 0; s < 2; s++) {
            Args args;
            args.a[0] = s ? &v1 : &v0, args.a[1] = s ? &n1 : &n0;
            g_st.clear();
            std::string m = batch.Error(i);
            if (m.empty()) {
              auto st2 = batch.RunStore(i, args, &outs[s]);
              auto& w = want[s][i];
              if (!st2.ok()) m = st2.ToString();
              else if (g_st.size() != w.size()) m = std::to_string(g_st.size()) + " stores, the program has " + std::to_string(w.size());
              else
                for (size_t k = 0; k < w.size() && m.empty(); k++) {
                  if (g_st[k].which != w[k].which || g_st[k].v != w[k].v) m = "store " + std::to_string(k + 1) + " is s" + std::to_string(g_st[k].which) + " of " + std::to_string(g_st[k].v) + ", the program has s" + std::to_string(w[k].which) + " of " + std::to_string(w[k].v);
                  else if (g_st[k].out != &outs[s]) m = "store " + std::to_string(k + 1) + " gets another output pointer";
                }
            }
            c.Eval();
            if (!m.empty()) c.Fail(batch.Src(i) + ": " + m);
          }
        if (a == 3 && b == 7) c.SampleOf("stores", batch.Src(batch.size() - 1));
      }
}
#endif

void Body(vf::Ctx& c, const std::string& mode) {
  thorough = c.thorough;
  if (mode != "C30") return;
  std::vector<F> fs;
#if ABI_PART == 0
  Gen<8, 5, int64_t, double, StringStruct>::Do<>(fs);
  Lists(c, fs, "parameters");
#elif ABI_PART == 2
  Gen<4, 2, uint8_t, int8_t, uint16_t, int16_t, StringStruct>::Do<>(fs);
  Lists(c, fs, "narrow parameters");
  fs.clear();
  Gen<2, 1, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, float, double, StringStruct, jitfusion::F64ListStruct, StringListStruct, jitfusion::U8ListStruct, void*>::Do<>(fs);
  Lists(c, fs, "parameters of a clang function");
#else
  Gen<3, 2, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, float, double, StringStruct, jitfusion::F64ListStruct, StringListStruct, jitfusion::U8ListStruct, void*>::Do<>(fs);
  Lists(c, fs, "small parameters");
  fs.clear();
  Gen<4, 0, uint8_t, int16_t, int32_t, float, StringStruct, StringListStruct, void*>::Do<>(fs);
  fs.erase(fs.begin(), std::find_if(fs.begin(), fs.end(), [](auto& f) { return f.ts.size() == 4; }));
  Lists(c, fs, "four parameters");
  Lists(c, Wide(), "wide parameters");
  Returns(c);
  Stores(c);
#endif
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
