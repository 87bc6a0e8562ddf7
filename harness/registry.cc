// C24: every short sequence of registrations on a real registry against a map from signatures to registrations.
#include "alike.h"
#include "prog.h"
#include "llvm/IR/Constants.h"

namespace {
bool thorough = false;
using jitfusion::FunctionStructure;
using jitfusion::FunctionType;

// ------------------------------------------------------------- functions that tell who they are
// Function ID gives ID*100000 + its arguments, as its return type.
ExecContext* g_ctx = nullptr;
std::vector<std::pair<int, int64_t>> g_stores;
template <class R>
R As(int64_t v) {
  if constexpr (std::is_same_v<R, jitfusion::StringStruct>) {
    static std::set<std::string> keep;
    auto& s = *keep.insert(std::to_string(v)).first;
    return {const_cast<char*>(s.data()), static_cast<uint32_t>(s.size())};
  } else {
    return static_cast<R>(v);
  }
}
template <int ID, class R> R F0() { return As<R>(ID * 100000); }
template <int ID, class R> R F1(int32_t a) { return As<R>(ID * 100000 + a); }
template <int ID, class R> R F1L(int64_t a) { return As<R>(ID * 100000 + a * 3); }
template <int ID, class R> R F1C(int32_t a, ExecContext* c) { return g_ctx = c, As<R>(ID * 100000 + a); }
template <int ID, class R> R F1LC(int64_t a, ExecContext* c) { return g_ctx = c, As<R>(ID * 100000 + a * 3); }
template <int ID, class R> R F2(int32_t a, int32_t b) { return As<R>(ID * 100000 + a * 10 + b); }       // order matters
template <int ID, class R> R F2S(int32_t a, int32_t b) { return As<R>(ID * 100000 + (a + b) * 7); }     // order does not
template <int ID, class R> R F2SC(int32_t a, int32_t b, ExecContext* c) { return g_ctx = c, As<R>(ID * 100000 + (a + b) * 7); }
template <int ID, class R> R FS(jitfusion::StringStruct s) { return As<R>(ID * 100000 + s.len); }
template <int ID, class R> R FL(jitfusion::I64ListStruct s) { return As<R>(ID * 100000 + s.len); }
template <int ID> int32_t FSt(void* o, int32_t v) {
  static_cast<Recorder*>(o)->log.emplace_back(ID, FromRet(RetType(v)));
  return 0;
}
template <int ID> int64_t FStRo(void* o, int32_t v) { return ID * 100000 + v + (o != nullptr ? 0 : 1); }
template <int ID> llvm::Value* Gen(const FunctionSignature& sg, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& a, jitfusion::IRCodeGenContext& ctx) {
  auto* ty = sg.GetRetType() == kI64 ? llvm::Type::getInt64Ty(ctx.context) : llvm::Type::getInt32Ty(ctx.context);
  auto* k = llvm::ConstantInt::get(ty, ID * 100000);
  return ctx.builder.CreateAdd(ctx.builder.CreateSExtOrTrunc(a[0], ty), k);
}

enum class K { kPlain, kRo, kRoCtx, kComm, kCommCtx, kGen, kStore, kNull };
const char* KName(K k) {
  switch (k) {
    case K::kPlain: return "RegisterFunc";
    case K::kRo: return "ReadOnly";
    case K::kRoCtx: return "ReadOnlyWithExecCtx";
    case K::kComm: return "Commutative";
    case K::kCommCtx: return "CommutativeWithExecCtx";
    case K::kGen: return "LLVMIntrinsic";
    case K::kStore: return "Store";
    default: return "null pointer";
  }
}
struct Op {
  K k;
  std::string name;
  std::vector<T> params;
  T ret;
  bool over;
  int id;
  void* fn;
  jitfusion::CodeGenFunc gen;
  int form;  // how the value follows from the arguments: 0 none, 1 a, 2 a*3, 3 a*10+b, 4 (a+b)*7, 5 length, 8 length of the list, 6 store, 7 read-only with the output
};
constexpr T P = T::kPtr;
std::vector<Op> Ops() {
  std::vector<Op> v;
  auto add = [&](K k, const char* n, std::vector<T> p, T r, bool ov, int id, void* f, int form) { v.push_back({k, n, p, r, ov, id, f, {}, form}); };
  auto gen = [&](const char* n, std::vector<T> p, T r, bool ov, int id, jitfusion::CodeGenFunc g) { v.push_back({K::kGen, n, p, r, ov, id, nullptr, g, 1}); };
  using SS = jitfusion::StringStruct;
  add(K::kRo, "g", {kI32}, kI32, false, 1, (void*)F1<1, int32_t>, 1);
  add(K::kRo, "g", {kI32}, kI64, true, 2, (void*)F1<2, int64_t>, 1);
  add(K::kRoCtx, "g", {kI32}, kI32, false, 3, (void*)F1C<3, int32_t>, 1);
  add(K::kRoCtx, "g", {kI32}, kStr, true, 4, (void*)F1C<4, SS>, 1);
  add(K::kPlain, "g", {kI32}, kF64, true, 5, (void*)F1<5, double>, 1);
  add(K::kPlain, "g", {kI32}, kI64, false, 6, (void*)F1<6, int64_t>, 1);
  gen("g", {kI32}, kI32, false, 7, Gen<7>);
  gen("g", {kI32}, kI64, true, 8, Gen<8>);
  add(K::kComm, "g", {kI32}, kI32, true, 9, (void*)F1<9, int32_t>, 1);
  add(K::kRo, "g", {kI64}, kI32, false, 10, (void*)F1L<10, int32_t>, 2);
  add(K::kRoCtx, "g", {kI64}, kI64, true, 11, (void*)F1LC<11, int64_t>, 2);
  add(K::kComm, "g", {kI32, kI32}, kI32, false, 12, (void*)F2S<12, int32_t>, 4);
  add(K::kCommCtx, "g", {kI32, kI32}, kI64, true, 13, (void*)F2SC<13, int64_t>, 4);
  add(K::kRo, "g", {kI32, kI32}, kI32, true, 14, (void*)F2<14, int32_t>, 3);
  add(K::kRo, "g", {kI32, P}, kI32, false, 15, (void*)F1C<15, int32_t>, 1);
  add(K::kPlain, "g", {kI32, P}, kI64, true, 16, (void*)F1C<16, int64_t>, 1);
  add(K::kPlain, "g", {}, kI32, false, 17, (void*)F0<17, int32_t>, 0);
  add(K::kPlain, "g", {}, kStr, true, 18, (void*)F0<18, SS>, 0);
  add(K::kRo, "h", {kI32}, kI32, false, 19, (void*)F1<19, int32_t>, 1);
  add(K::kRo, "abs", {kI32}, kI32, false, 20, (void*)F1<20, int32_t>, 1);   // built-in
  add(K::kRoCtx, "abs", {kI32}, kStr, true, 21, (void*)F1C<21, SS>, 1);
  add(K::kRo, "StringLen", {kStr}, kU32, false, 22, (void*)FS<22, uint32_t>, 5);  // built-in
  add(K::kRo, "GroupIndex", {T::kI64List}, kI32, true, 23, (void*)FL<23, int32_t>, 8);  // built-in with an implicit context
  add(K::kStore, "put", {P, kI32}, kI32, false, 24, (void*)FSt<24>, 6);
  add(K::kStore, "put", {P, kI32}, kI32, true, 25, (void*)FSt<25>, 6);
  add(K::kRo, "put", {P, kI32}, kI64, true, 26, (void*)FStRo<26>, 7);
  add(K::kNull, "g", {kI32}, kI32, true, 27, nullptr, 1);
  return v;
}
std::string Show(const Op& o) {
  std::string s = std::string(KName(o.k)) + " " + o.name + "(";
  for (size_t i = 0; i < o.params.size(); i++) s += (i ? ", " : "") + std::string(o.params[i] == P ? "ptr" : Name(o.params[i]));
  return s + ")->" + (o.ret == P ? "ptr" : Name(o.ret)) + " #" + std::to_string(o.id) + (o.over ? " override" : "");
}
Status Apply(FunctionRegistry& r, const Op& o, bool dflt = false) {
  FunctionSignature sg(o.name, o.params, o.ret);
  switch (o.k) {
    // (not overriding is asked for outright, and on the other call left to the default, which is the same)
    case K::kPlain: {
      FunctionStructure f{FunctionType::kCFunc, o.fn, {}};
      return o.over ? r.RegisterFunc(sg, f, true) : dflt ? r.RegisterFunc(sg, f) : r.RegisterFunc(sg, f, false);
    }
#define REG(FN, ...) return o.over ? r.FN(sg, __VA_ARGS__, true) : dflt ? r.FN(sg, __VA_ARGS__) : r.FN(sg, __VA_ARGS__, false)
    case K::kRo: REG(RegisterReadOnlyCFunc, o.fn);
    case K::kRoCtx: REG(RegisterReadOnlyCFuncWithExecCtx, o.fn);
    case K::kComm: REG(RegisterCommutativeCFunc, o.fn);
    case K::kCommCtx: REG(RegisterCommutativeCFuncWithExecCtx, o.fn);
    case K::kGen: REG(RegisterLLVMIntrinicFunc, o.gen);
    case K::kStore: REG(RegisterStoreCFunc, o.fn, 1);
#undef REG
    default: break;
  }
  // every way of registering nothing is refused
  if (r.RegisterReadOnlyCFunc(sg, nullptr, true).ok() || r.RegisterReadOnlyCFuncWithExecCtx(sg, nullptr, true).ok() || r.RegisterCommutativeCFunc(sg, nullptr, true).ok() ||
      r.RegisterCommutativeCFuncWithExecCtx(sg, nullptr, true).ok() || r.RegisterStoreCFunc(sg, nullptr, 1, true).ok() || r.RegisterLLVMIntrinicFunc(sg, nullptr, true).ok() ||
      r.RegisterFunc(sg, FunctionStructure{FunctionType::kCFunc, nullptr, {}}, true).ok() || r.RegisterFunc(sg, FunctionStructure{FunctionType::kLLVMIntrinicFunc, nullptr, {}}, true).ok())
    return Status::OK();
  return Status::InvalidArgument("refused as expected");
}
bool HasCtx(const Op& o) { return o.k == K::kRoCtx || o.k == K::kCommCtx; }

// ------------------------------------------------------------- the model
struct Reg24 {
  const Op* op = nullptr;  // null: a built-in
  bool ctx = false;        // calls get the execution context behind their arguments
};
using Sig = std::pair<std::string, std::vector<T>>;
using Model = std::map<Sig, Reg24>;
std::vector<T> WithPtr(std::vector<T> v) {
  v.push_back(P);
  return v;
}
Model Fresh() {
  Model m;
  m[{"abs", {kI32}}] = {};
  m[{"StringLen", {kStr}}] = {};
  m[{"GroupIndex", {T::kI64List}}] = {};
  m[{"GroupIndex", {T::kI64List, P}}] = {};
  return m;
}
bool Step(Model& m, const Op& o) {
  if (o.k == K::kNull) return false;
  Sig s{o.name, o.params}, l{o.name, WithPtr(o.params)};
  if (!o.over && (m.count(s) || (HasCtx(o) && m.count(l)))) return false;
  m[s] = {&o, HasCtx(o)};
  if (HasCtx(o)) m[l] = {&o, false};
  return true;
}
// the signatures looked at
std::vector<Sig> Sigs() {
  return {{"g", {kI32}}, {"g", {kI64}}, {"g", {kI32, kI32}}, {"g", {kI32, P}}, {"g", {kI64, P}}, {"g", {kI32, kI32, P}}, {"g", {}}, {"g", {P}}, {"h", {kI32}}, {"h", {kI32, P}},
          {"abs", {kI32}}, {"abs", {kI32, P}}, {"StringLen", {kStr}}, {"GroupIndex", {T::kI64List}}, {"GroupIndex", {T::kI64List, P}}, {"put", {P, kI32}}, {"G", {kI32}}, {"g", {kU32}}, {"g", {kI64, kI32}}};
}
int64_t Value(const Op& o, int32_t a, int32_t b, const std::string& s) {
  int64_t base = o.id * 100000;
  switch (o.form) {
    case 1: return base + a;
    case 2: return base + a * 3;
    case 3: return base + a * 10 + b;
    case 4: return base + (a + b) * 7;
    case 5: return base + static_cast<int64_t>(s.size());
    case 7: return base + b;
    case 8: return base + 3;
    default: return base;
  }
}
Val Typed(T t, int64_t v) {
  if (t == kStr) return S(std::to_string(v));
  if (t == kF64) return N(kF64, B64(static_cast<double>(v)));
  return N(t, Wrap(t, v));
}
struct Call24 {
  std::string src;
  bool pipe;
  Val want;
  bool ctx;  // the function sees the context
  const Op* op;
};
// the programs that call what the model holds
std::vector<Call24> Calls(const Model& m, const std::set<std::string>& near, int32_t a, int32_t b, const std::string& s) {
  std::vector<Call24> v;
  for (auto& [sig, r] : m) {
    std::string args;
    bool names_ctx = false, put = sig.first == "put";
    for (size_t i = 0; i < sig.second.size(); i++) {
      T t = sig.second[i];
      if (i) args += ", ";
      if (t == P && put) args += "output";
      else if (t == P) args += "exec_ctx", names_ctx = true;
      else if (t == kI32) args += i == 0 ? "ld_i32(entry_arg, 0)" : "ld_i32(entry_arg, 1)";
      else if (t == kI64) args += "ld_i64(entry_arg, 2)";
      else if (t == kStr) args += "ld_string(entry_arg, 3)";
      else args += "ld_i64list(entry_arg, 4)";
    }
    std::string call = sig.first + "(" + args + ")";
    if (!r.op) {  // a built-in; called when something was registered under its name
      if (!near.count(sig.first)) continue;
      if (sig.first == "abs") v.push_back({call + ";", false, N(kI32, Wrap(kI32, a < 0 ? -a : a)), false, nullptr});
      if (sig.first == "StringLen") v.push_back({call + ";", false, N(kU32, s.size()), false, nullptr});
      if (sig.first == "GroupIndex") v.push_back({call + ";", false, L(T::kU32List, {0, 1, 0}), false, nullptr});
      continue;
    }
    if (r.op->form == 6) {
      v.push_back({"x = 1; " + call + ";", true, N(kI32, Wrap(kI32, b)), false, r.op});
      continue;
    }
    if (r.op->form == 7) {
      Val w = Typed(r.op->ret, Value(*r.op, a, b, s));
      v.push_back({"st_" + std::string(Name(r.op->ret)) + "(output, 26, " + call + ");", true, w, false, r.op});
      continue;
    }
    Val w = Typed(r.op->ret, Value(*r.op, a, b, s));
    v.push_back({call + ";", false, w, r.ctx || names_ctx, r.op});
    if (sig.second == std::vector<T>{kI32, kI32}) {  // the other order, in the same program
      std::string sw = sig.first + "(ld_i32(entry_arg, 1), ld_i32(entry_arg, 0))";
      v.push_back({call + " * 3 - " + sw + ";", false, Typed(r.op->ret, Value(*r.op, a, b, s) * 3 - Value(*r.op, b, a, s)), r.ctx, r.op});
    }
  }
  return v;
}

struct World {
  std::unique_ptr<Slot> a, b, l, s, g;
  Args args;
  int32_t av, bv;
  std::string sv;
  World(int32_t x, int32_t y, std::string t) : av(x), bv(y), sv(t) {
    a = std::make_unique<Slot>(N(kI32, Wrap(kI32, x)));
    b = std::make_unique<Slot>(N(kI32, Wrap(kI32, y)));
    l = std::make_unique<Slot>(N(kI64, Wrap(kI64, x)));
    s = std::make_unique<Slot>(jf::S(t));
    g = std::make_unique<Slot>(L(T::kI64List, {7, 9, 7}));
    args.a[0] = a.get(), args.a[1] = b.get(), args.a[2] = l.get(), args.a[3] = s.get(), args.a[4] = g.get();
  }
};
// a batch of every call, kept with the results it was compiled for
struct Compiled {
  std::unique_ptr<BatchExecEngine> e;
  std::vector<Call24> calls;
};
std::string Compile(Compiled& k, const Model& m, const std::set<std::string>& near, const std::unique_ptr<FunctionRegistry>& reg, const World& w) {
  k.calls = Calls(m, near, w.av, w.bv, w.sv);
  if (k.calls.empty()) return "";
  k.e = std::make_unique<BatchExecEngine>();
  std::vector<std::unique_ptr<ExecNode>> ns;
  for (auto& c : k.calls) {
    athena::ProgramAstBuilder b;
    std::unique_ptr<ExecNode> n;
    auto st = c.pipe ? b.BuildPipeline(c.src, &n) : b.BuildExpression(c.src, &n);
    if (!st.ok()) return c.src + " is refused: " + st.ToString();
    ns.push_back(std::move(n));
  }
  auto st = k.e->Compile(ns, reg);
  if (!st.ok()) return "the calls the registry holds do not compile: " + st.ToString();
  for (size_t i = 0; i < k.calls.size(); i++)
    if (!k.calls[i].pipe && k.e->GetReturnType(i) != k.calls[i].want.t) return k.calls[i].src + " has type " + Name(k.e->GetReturnType(i)) + ", registered " + Name(k.calls[i].want.t);
  return "";
}
std::string Execute(Compiled& k, World& w) {
  ExecContext ctx(256);
  for (size_t i = 0; i < k.calls.size(); i++) {
    auto& c = k.calls[i];
    g_ctx = nullptr;
    if (c.pipe) {
      Recorder rec;
      void* out = &rec;
      auto st = k.e->ExecuteAt(i, ctx, &w.args, out);
      int id = c.op->id;
      if (!st.ok() || rec.log.size() != 1 || rec.log[0].first != id || !Same(rec.log[0].second, c.want)) return c.src + " stores " + ShowLog(rec.log) + ", registered #" + std::to_string(id);
      continue;
    }
    RetType r;
    auto st = k.e->ExecuteAt(i, ctx, &w.args, &r);
    if (!st.ok()) return c.src + " fails: " + st.ToString();
    auto got = FromRet(r);
    if (!Same(got, c.want)) return c.src + " gives " + jf::Show(got) + ", the registered function " + jf::Show(c.want);
    if (c.op && c.ctx && g_ctx != &ctx) return c.src + ": the function is not given the execution context";
    if (c.op && !c.ctx && g_ctx != nullptr) return c.src + ": another function was called";
  }
  return "";
}
std::string Lookup(const Model& m, FunctionRegistry& reg) {
  static const auto sigs = Sigs();
  for (auto& s : sigs) {
    FunctionSignature f(s.first, s.second, T::kUnknown);
    FunctionStructure fs;
    auto st = reg.GetFuncBySign(f, &fs);
    auto it = m.find(s);
    if (st.ok() != (it != m.end())) return f.ToString() + (st.ok() ? " is found although nothing was registered under it" : " is not found");
    if (!st.ok()) {
      if (st.ToString().size() < 16) return f.ToString() + ": not found, without a message";
      continue;
    }
    if (!it->second.op) continue;
    if (f.GetRetType() != it->second.op->ret) return f.ToString() + " has the return type of another registration";
    if ((fs.func_type == FunctionType::kLLVMIntrinicFunc) != (it->second.op->k == K::kGen)) return f.ToString() + " has the kind of another registration";
    if (it->second.op->k != K::kGen && fs.c_func_ptr != it->second.op->fn) return f.ToString() + " has the address of another registration";
  }
  return "";
}
uint64_t StateOf(const Model& m) {
  uint64_t h = 7;
  for (auto& [s, r] : m) {
    h = vf::Hash(s.first, h);
    h = vf::Hash(s.second.data(), s.second.size() * sizeof(T), h);
    int id = r.op ? r.op->id * 2 + r.ctx : 0;
    h = vf::Hash(&id, sizeof id, h);
  }
  return h;
}

// ------------------------------------------------------------- one tree compiled from several registries, or from one that changes
template <class R> int32_t Sv(void* o, R v) {
  static_cast<Recorder*>(o)->log.emplace_back(1, FromRet(RetType(std::string(v.data, v.len))));
  return 0;
}
template <> int32_t Sv(void* o, int32_t v) { return static_cast<Recorder*>(o)->log.emplace_back(1, FromRet(RetType(v))), 0; }
template <> int32_t Sv(void* o, int64_t v) { return static_cast<Recorder*>(o)->log.emplace_back(1, FromRet(RetType(v))), 0; }
template <> int32_t Sv(void* o, double v) { return static_cast<Recorder*>(o)->log.emplace_back(1, FromRet(RetType(v))), 0; }
constexpr int kDefs = 8;
const char* const kDefName[kDefs] = {"f->i32", "f->i64", "f->string", "no f", "f->f64", "f->i32 with context", "f->i64 generated", "f->i32 of its own name"};
void Define(FunctionRegistry& r, int d, bool over) {
  using SS = jitfusion::StringStruct;
  FunctionSignature i("f", {kI32}, kI32), l("f", {kI32}, kI64), s("f", {kI32}, kStr), f("f", {kI32}, kF64);
  bool ok = true;
  switch (d) {
    case 0: ok = r.RegisterReadOnlyCFunc(i, (void*)F1<31, int32_t>, over).ok(); break;
    case 1: ok = r.RegisterFunc(l, FunctionStructure{FunctionType::kCFunc, (void*)F1<32, int64_t>, {}}, over).ok(); break;
    case 2: ok = r.RegisterReadOnlyCFunc(s, (void*)F1<33, SS>, over).ok(); break;
    case 4: ok = r.RegisterReadOnlyCFunc(f, (void*)F1<35, double>, over).ok(); break;
    case 5: ok = r.RegisterReadOnlyCFuncWithExecCtx(i, (void*)F1C<36, int32_t>, over).ok(); break;
    case 6: ok = r.RegisterLLVMIntrinicFunc(l, Gen<37>, over).ok(); break;
    case 7: ok = r.RegisterReadOnlyCFunc(i, (void*)F1<38, int32_t>, over).ok(); break;
    default: break;
  }
  if (!ok) Die("f");
}
std::unique_ptr<FunctionRegistry> DefRegistry(int d) {
  auto r = NewRegistry();
  AddStores(r.get());
  using SS = jitfusion::StringStruct;
  if (!r->RegisterStoreCFunc(FunctionSignature("sv", {P, kI32}, kI32), (void*)Sv<int32_t>, 1).ok() || !r->RegisterStoreCFunc(FunctionSignature("sv", {P, kI64}, kI32), (void*)Sv<int64_t>, 1).ok() ||
      !r->RegisterStoreCFunc(FunctionSignature("sv", {P, kF64}, kI32), (void*)Sv<double>, 1).ok() || !r->RegisterStoreCFunc(FunctionSignature("sv", {P, kStr}, kI32), (void*)Sv<SS>, 1).ok())
    Die("sv");
  Define(*r, d, false);
  return r;
}
#define FX "f(ld_i32(entry_arg, 0))"
struct Shape24 {
  const char* src;
  bool pipe;
};
const Shape24 kShapes[] = {
    {FX ";", false},
    {FX " + " FX ";", false},
    {"if(ld_i32(entry_arg, 0) < 0, " FX ", " FX ");", false},
    {"switch(ld_i32(entry_arg, 0) > 0, " FX ", true, " FX " + " FX ", " FX ");", false},
    {FX " <= " FX ";", false},
    {"abs(ld_i32(entry_arg, 1)) + " FX ";", false},
    {"a = " FX "; b = a + a; when ld_i32(entry_arg, 0) < 0 { a = b; sv(output, a); } else { sv(output, " FX "); } sv(output, b);", true},
};
struct Got24 {
  std::string status, ret, log;
  bool operator==(const Got24& o) const { return status == o.status && ret == o.ret && log == o.log; }
  std::string Show() const { return status + " " + ret + " " + log; }
};
void OneTree(vf::Ctx& c) {
  auto build = [](const Shape24& s) {
    athena::ProgramAstBuilder b;
    std::unique_ptr<ExecNode> n;
    auto st = s.pipe ? b.BuildPipeline(s.src, &n) : b.BuildExpression(s.src, &n);
    if (!st.ok()) Die(std::string(s.src) + st.ToString());
    return n;
  };
  World w(-3, 5, "421");
  auto run = [&](ExecEngine& e, const Shape24& s, Got24* g) {
    Recorder rec;
    void* out = &rec;
    RetType r;
    auto st = s.pipe ? e.Execute(&w.args, out) : e.Execute(&w.args, &r);
    g->status = st.ToString();
    g->ret = s.pipe ? "" : jf::Show(FromRet(r));
    g->log = ShowLog(rec.log);
  };
  for (auto& s : kShapes)
    for (int i = 0; i < kDefs; i++)
      for (int j = 0; j < kDefs; j++)
        for (int form = 0; form < 3; form++)
          if (c.Begin([&] { return "the tree of " + std::string(s.src) + " compiled with " + kDefName[i] + ", " + kDefName[j] + (form == 0 ? " and the first again" : form == 1 ? ", on one engine" : ", one registry that changes"); })) {
            if (form == 2 && j == 3) continue;  // nothing is ever unregistered
            std::vector<int> seq{i, j};
            if (form < 2) seq.push_back(i);
            auto tree = build(s);
            std::unique_ptr<FunctionRegistry> one;
            std::vector<std::unique_ptr<ExecEngine>> es;
            std::vector<Got24> want;
            std::string msg;
            for (size_t k = 0; k < seq.size() && msg.empty(); k++) {
              auto fresh_reg = DefRegistry(seq[k]);
              auto fresh = build(s);
              ExecEngine alone;
              Got24 a, b;
              auto sa = alone.Compile(fresh, fresh_reg);
              if (sa.ok()) run(alone, s, &a);
              if (form != 1 || es.empty()) es.push_back(std::make_unique<ExecEngine>());
              std::unique_ptr<FunctionRegistry> mine;
              if (form != 2) mine = DefRegistry(seq[k]);
              else if (!one) one = DefRegistry(seq[k]);
              else Define(*one, seq[k], true);
              auto sb = es.back()->Compile(tree, form == 2 ? one : mine);
              c.Transition();
              if (sa.ToString() != sb.ToString()) msg = "compiling: " + sb.ToString() + ", with a tree of its own: " + sa.ToString();
              else if (sb.ok()) {
                run(*es.back(), s, &b);
                if (!(a == b)) msg = "gives " + b.Show() + ", with a tree of its own " + a.Show();
              }
              if (sa.ok()) c.Outcome(a.Show());
              if (!sa.ok()) a.status = "";
              want.push_back(a);
              c.Eval(2);
            }
            // the engines keep what they compiled, without the tree and the registries
            tree.reset();
            one.reset();
            for (size_t k = 0; k < es.size() && msg.empty() && form != 1; k++) {
              if (want[k].status.empty()) continue;
              Got24 b;
              run(*es[k], s, &b);
              if (!(b == want[k])) msg = "the engine compiled with " + std::string(kDefName[seq[k]]) + " later gives " + b.Show() + ", first " + want[k].Show();
            }
            c.Trace(1);
            if (!msg.empty()) c.Fail(std::string(s.src) + " compiled with " + kDefName[i] + ", then " + kDefName[j] + ": " + msg);
          }
}
// two registrations that may touch a common signature; others commute
bool Related(const Op& a, const Op& b) { return a.name == b.name && (a.params == b.params || WithPtr(a.params) == b.params || a.params == WithPtr(b.params)); }
void C24(vf::Ctx& c) {
  auto ops = Ops();
  World w(-3, 5, "421");
  size_t depth = thorough ? 4 : 3;
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t j = 0; j < ops.size(); j++) {
      if (!c.Begin([&] { return "sequences from " + Show(ops[i]) + "; " + Show(ops[j]); })) continue;
      std::vector<size_t> x(depth, 0);
      x[0] = i, x[1] = j;
      for (bool first = true;; first = false) {
        std::string hist, msg;
        Model m = Fresh();
        auto reg = NewRegistry();
        AddStores(reg.get());
        Compiled early;
        std::set<std::string> near;
        for (size_t k = 0; k < depth && msg.empty(); k++) {
          auto& o = ops[x[k]];
          hist += Show(o) + "; ";
          near.insert(o.name);
          bool ok = Step(m, o);
          bool dflt = (i + j + x[depth - 1] + k) & 1;
          auto st = Apply(*reg, o, dflt);
          c.Transition();
          c.State(StateOf(m));
          if (st.ok() != ok) msg = ok ? "the registration is refused: " + st.ToString() : "the registration is accepted";
          else if (!ok && st.ToString().size() < 16) msg = "refused without a message";
          if (msg.empty()) msg = Lookup(m, *reg);
          // a program compiled in between keeps its functions
          if (msg.empty() && (k == 0 ? first : k + 2 == depth && (x[k + 1] % 4 == i % 4 || thorough))) {
            hist += "compile; ";
            msg = Compile(early, m, near, reg, w);
            if (msg.empty()) msg = Execute(early, w);
          }
        }
        Compiled late;
        // registrations that have nothing to do with the others are compiled with one other of them only
        bool linked = true;
        for (size_t k = 0; k < depth && depth > 2; k++) {
          bool any = false;
          for (size_t n = 0; n < depth; n++) any |= n != k && Related(ops[x[k]], ops[x[n]]);
          linked &= any;
        }
        linked |= thorough || i == j || ops[x[depth - 1]].name == "h";
        if (msg.empty() && linked) msg = Compile(late, m, near, reg, w);
        if (msg.empty() && linked) msg = Execute(late, w);
        if (msg.empty() && early.e) {
          msg = Execute(early, w);
          if (!msg.empty()) msg = "the program compiled earlier changed: " + msg;
        }
        reg.reset();  // the programs do not need the registry any more
        if (msg.empty() && linked) msg = Execute(late, w);
        c.Eval();
        c.Trace();
        if (!msg.empty()) {
          c.Fail(hist + msg);
          break;
        }
        c.Beat();
        size_t k = depth;
        while (k > 2 && ++x[k - 1] == ops.size()) x[--k] = 0;
        if (k == 2) break;
      }
      if (i % 9 == 2 && j == 11) c.SampleOf("sequence", Show(ops[i]) + "; " + Show(ops[j]) + "; " + Show(ops[0]) + "; compile and call everything");
    }
  // names and signatures that differ in little
  if (c.Begin("similar names")) {
    auto reg = NewRegistry();
    std::vector<std::string> names{"f", "F", "ff", "f_", "f1", "f10", "aVeryLongNameThatGoesOnAndOnAndOn", "aVeryLongNameThatGoesOnAndOnAndOm"};
    static void* fns[] = {(void*)F1<101, int32_t>, (void*)F1<102, int32_t>, (void*)F1<103, int32_t>, (void*)F1<104, int32_t>, (void*)F1<105, int32_t>, (void*)F1<106, int32_t>, (void*)F1<107, int32_t>, (void*)F1<108, int32_t>};
    static void* fnl[] = {(void*)F1L<111, int32_t>, (void*)F1L<112, int32_t>, (void*)F1L<113, int32_t>, (void*)F1L<114, int32_t>, (void*)F1L<115, int32_t>, (void*)F1L<116, int32_t>, (void*)F1L<117, int32_t>, (void*)F1L<118, int32_t>};
    Batch b;
    for (size_t i = 0; i < names.size(); i++) {
      if (!reg->RegisterReadOnlyCFunc(FunctionSignature(names[i], {kI32}, kI32), fns[i]).ok()) c.Fail(names[i] + "(i32) refused");
      if (!reg->RegisterReadOnlyCFunc(FunctionSignature(names[i], {kI64}, kI32), fnl[i]).ok()) c.Fail(names[i] + "(i64) refused");
      b.Add(names[i] + "(ld_i32(entry_arg, 0))");
      b.Add(names[i] + "(ld_i64(entry_arg, 2))");
    }
    b.Compile(reg);
    for (size_t i = 0; i < b.size(); i++) {
      Val v;
      auto st = b.Error(i).empty() ? b.Run(i, w.args, &v) : Status::RuntimeError(b.Error(i));
      int id = static_cast<int>(i % 2 ? 111 + i / 2 : 101 + i / 2);
      c.Eval();
      if (!st.ok() || !Same(v, N(kI32, Wrap(kI32, id * 100000 + (i % 2 ? -9 : -3))))) c.Fail(b.Src(i) + " gives " + jf::Show(v) + " " + st.ToString());
    }
  }
  // thousands of signatures: every one keeps its own registration
  for (int form = 0; form < 5; form++) {
    if (!c.Begin([&] { return "thousands of signatures, form " + std::to_string(form); })) continue;
    std::vector<T> ts;
    ForTypes([&](T t, auto*) { ts.push_back(t); });
    std::vector<Sig> sg;
    if (form == 0) {  // one name, every tuple of up to two types and many of three
      sg.push_back({"many", {}});
      for (T a : ts) {
        sg.push_back({"many", {a}});
        for (T b : ts) {
          sg.push_back({"many", {a, b}});
          for (T d : ts) sg.push_back({"many", {a, b, d}});
        }
      }
    } else if (form == 1) {  // thousands of names
      for (int i = 0; i < (thorough ? 20000 : 6000); i++) sg.push_back({"n" + std::to_string(i), {ts[static_cast<size_t>(i) % 22]}});
    } else if (form == 2) {  // names of every length
      for (size_t i = 1; i < 1500; i++) sg.push_back({std::string(i, 'n'), {kI32}}), sg.push_back({std::string(i, 'n') + "_", {kI32}});
    } else if (form == 3) {  // names that look alike
      std::set<std::string> seen;
      for (auto& [x, y] : Twins())
        for (auto& n : {x, y})
          if (seen.insert(n).second) sg.push_back({n, {kI32}}), sg.push_back({n, {kI64}}), sg.push_back({n, {}});
      for (int i = 0; i < 65536; i += 13)  // "name(" "i32" and their like
        sg.push_back({std::string{static_cast<char>('a' + i % 26), static_cast<char>('a' + i / 26 % 26), static_cast<char>('a' + i / 676 % 26), static_cast<char>('a' + i / 17576)}, {ts[static_cast<size_t>(i) % 22]}});
    } else {  // more and more parameters
      for (size_t i = 0; i < 400; i++) {
        sg.push_back({"wide", std::vector<T>(i, kI32)});
        if (i) {
          sg.push_back({"wide", std::vector<T>(i, kI32)});
          sg.back().second.back() = kI64;
          sg.push_back({"wide", std::vector<T>(i, kI32)});
          sg.back().second.front() = i > 1 ? kI64 : kU8;
        }
      }
    }
    auto reg = NewRegistry();
    auto ret = [&](size_t i, int round) { return ts[(i * 7 + static_cast<size_t>(round) + i / 22) % 22]; };
    auto fn = [&](size_t i, int round) { return reinterpret_cast<void*>(0x1000 + i * 32 + static_cast<size_t>(round) * 16); };
    auto check = [&](const char* when, size_t n, int round, size_t from) {
      for (size_t i = 0; i < sg.size(); i++) {
        FunctionSignature f(sg[i].first, sg[i].second, T::kUnknown);
        FunctionStructure fs;
        auto st = reg->GetFuncBySign(f, &fs);
        c.Eval();
        if (st.ok() != (i < n)) c.Fail(std::string(when) + ": " + f.ToString().substr(0, 300) + (st.ok() ? " is found before it is registered" : " is not found"));
        int r = i >= from ? round : 0;
        if (st.ok() && (f.GetRetType() != ret(i, r) || fs.c_func_ptr != fn(i, r)))
          c.Fail(std::string(when) + ": " + f.ToString().substr(0, 300) + " has another registration");
      }
    };
    for (size_t i = 0; i < sg.size(); i++) {
      if (i == sg.size() / 2) check("half way", i, 0, 0);
      if (!reg->RegisterReadOnlyCFunc(FunctionSignature(sg[i].first, sg[i].second, ret(i, 0)), fn(i, 0)).ok()) c.Fail(FunctionSignature(sg[i].first, sg[i].second, ret(i, 0)).ToString().substr(0, 300) + " is refused");
    }
    c.Beat();
    check("registered", sg.size(), 0, 0);
    for (size_t i = 0; i < sg.size(); i++)
      if (reg->RegisterReadOnlyCFunc(FunctionSignature(sg[i].first, sg[i].second, ret(i, 1)), fn(i, 1)).ok()) c.Fail(FunctionSignature(sg[i].first, sg[i].second, ret(i, 0)).ToString().substr(0, 300) + " is accepted twice");
    check("refused again", sg.size(), 0, 0);
    for (size_t i = sg.size() / 3; i < sg.size(); i++)
      if (!reg->RegisterReadOnlyCFunc(FunctionSignature(sg[i].first, sg[i].second, ret(i, 1)), fn(i, 1), true).ok()) c.Fail("override refused");
    check("overridden", sg.size(), 1, sg.size() / 3);
    auto m = Lookup(Fresh(), *reg);
    if (!m.empty()) c.Fail("the built-ins: " + m);
  }
  // hundreds of functions in one program
  for (int n : {100, 255, 256, 257, 500}) {
    if (!c.Begin([&] { return std::to_string(n) + " functions in one program"; })) continue;
    auto reg = NewRegistry();
    AddStores(reg.get());
    std::string src;
    static void* fns[] = {(void*)F1<101, int32_t>, (void*)F1<102, int32_t>, (void*)F1<103, int32_t>, (void*)F1<104, int32_t>, (void*)F1<105, int32_t>, (void*)F1<106, int32_t>, (void*)F1<107, int32_t>};
    std::vector<std::pair<int, Val>> want;
    for (int i = 0; i < n; i++) {
      FunctionSignature f("fn" + std::to_string(i), {kI32}, kI32);
      auto st = i % 3 == 0 ? reg->RegisterReadOnlyCFunc(f, fns[i % 7]) : i % 3 == 1 ? reg->RegisterFunc(f, FunctionStructure{FunctionType::kCFunc, fns[i % 7], {}}) : reg->RegisterCommutativeCFunc(f, fns[i % 7]);
      if (!st.ok()) c.Fail("refused");
      src += "st_i32(output, " + std::to_string(i) + ", fn" + std::to_string(i) + "(ld_i32(entry_arg, " + std::to_string(i % 2) + "))); ";
      want.emplace_back(i, N(kI32, Wrap(kI32, (101 + i % 7) * 100000 + (i % 2 ? 5 : -3))));
    }
    Batch b;
    b.AddPipeline(src);
    b.Compile(reg);
    Recorder rec;
    auto st = b.Error(0).empty() ? b.RunStore(0, w.args, &rec) : Status::RuntimeError(b.Error(0));
    c.Eval();
    if (!st.ok() || !SameLog(rec.log, want)) c.Fail(std::to_string(n) + " functions: " + st.ToString().substr(0, 300) + " " + ShowLog(rec.log).substr(0, 600));
  }
  // two functions with names that look alike in one program
  if (c.Begin("alike names in one program")) {
    for (int swap = 0; swap < 2; swap++) {
      auto reg = NewRegistry();
      AddStores(reg.get());
      std::set<std::string> seen;
      std::string src;
      std::vector<std::pair<int, Val>> want;
      for (auto& tw : Twins())
        for (int k = 0; k < 2; k++) {
          auto& n = (k ^ swap) ? tw.second : tw.first;
          if (!seen.insert(n).second) continue;
          if (!reg->RegisterReadOnlyCFunc(FunctionSignature(n, {kI32}, kI32), k ? (void*)F1<111, int32_t> : (void*)F1<101, int32_t>).ok()) Die(n);
          int i = static_cast<int>(want.size());
          src += "st_i32(output, " + std::to_string(i) + ", " + n + "(ld_i32(entry_arg, 0))); ";
          want.emplace_back(i, N(kI32, Wrap(kI32, (k ? 111 : 101) * 100000 - 3)));
        }
      Batch b;
      b.AddPipeline(src);
      b.Compile(reg);
      Recorder rec;
      auto st = b.Error(0).empty() ? b.RunStore(0, w.args, &rec) : Status::RuntimeError(b.Error(0));
      c.Eval();
      if (!st.ok() || !SameLog(rec.log, want)) c.Fail("functions with alike names: " + st.ToString().substr(0, 300) + " stores " + ShowLog(rec.log).substr(0, 900) + ", expected " + ShowLog(want).substr(0, 900));
    }
  }
  OneTree(c);
  // two registries do not know of each other
  if (c.Begin("two registries")) {
    auto a = NewRegistry(), b = NewRegistry();
    auto ops2 = Ops();
    for (size_t i = 0; i < ops2.size(); i++) {
      auto& o = ops2[i];
      Model m = Fresh();
      Step(m, o);
      auto x = NewRegistry(), y = NewRegistry();
      (void)Apply(*x, o).ok();
      c.Eval();
      auto e = Lookup(m, *x);
      if (e.empty()) e = Lookup(Fresh(), *y);
      if (!e.empty()) c.Fail(Show(o) + ": " + e);
    }
  }
}
void Body(vf::Ctx& c, const std::string& mode) {
  thorough = c.thorough;
  if (mode == "C24") C24(c);
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
