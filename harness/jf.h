// Driving the real library: typed loaders for run-time operands, batch compilation, typed results.
#pragma once
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "ast_builder.h"
#include "athena.h"
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "ref.h"
#include "guard.h"
#include "vf.h"

namespace jf {
using namespace ref;
using jitfusion::BatchExecEngine;
using jitfusion::ExecContext;
using jitfusion::ExecEngine;
using jitfusion::ExecEngineOption;
using jitfusion::ExecNode;
using jitfusion::FPMathMode;
using jitfusion::FunctionRegistry;
using jitfusion::FunctionRegistryFactory;
using jitfusion::FunctionSignature;
using jitfusion::RetType;
using jitfusion::Status;

// A run-time operand in native form: exactly-sized heap storage, so that a sanitizer sees any overrun.
class Slot {
 public:
  uint64_t u = 0;
  void* data = nullptr;
  uint32_t len = 0;
  Slot() = default;
  explicit Slot(const Val& v) { Set(v); }
  Slot(const Slot&) = delete;
  Slot& operator=(const Slot&) = delete;
  Slot(Slot&& o) noexcept { *this = std::move(o); }
  Slot& operator=(Slot&& o) noexcept {
    std::swap(u, o.u);
    std::swap(data, o.data);
    std::swap(len, o.len);
    std::swap(copy_, o.copy_);
    std::swap(strs_, o.strs_);
    std::swap(v_, o.v_);
    return *this;
  }
  ~Slot() { Free(); }
  void Set(const Val& v) {
    Free();
    v_ = v;
    u = v.u;
    if (v.t == kStr) {
      len = static_cast<uint32_t>(v.s.size());
      data = Dup(v.s.data(), len);
      Keep(len);
    } else if (v.t == kStrL) {
      len = static_cast<uint32_t>(v.sl.size());
      std::vector<jitfusion::StringStruct> tmp;
      for (auto& s : v.sl) {
        void* p = Dup(s.data(), s.size());
        strs_.push_back(p);
        tmp.push_back({static_cast<char*>(p), static_cast<uint32_t>(s.size())});
      }
      data = Dup(tmp.data(), tmp.size() * sizeof(jitfusion::StringStruct));
      Keep(tmp.size() * sizeof(jitfusion::StringStruct));
    } else if (IsList(v.t)) {
      len = static_cast<uint32_t>(v.l.size());
      size_t w = static_cast<size_t>(Width(ElemOf(v.t))) / 8;
      std::vector<uint8_t> tmp(w * len + 1);
      for (size_t i = 0; i < len; i++) memcpy(tmp.data() + i * w, &v.l[i], w);
      data = Dup(tmp.data(), w * len);
      Keep(w * len);
    }
  }
  const Val& val() const { return v_; }
  // the library must not have written into the operand
  bool Intact() const {
    if (copy_.size() && memcmp(copy_.data(), data, copy_.size()) != 0) return false;
    for (size_t i = 0; i < strs_.size(); i++)
      if (v_.sl[i].size() && memcmp(strs_[i], v_.sl[i].data(), v_.sl[i].size()) != 0) return false;
    return true;
  }

 private:
  static void* Dup(const void* p, size_t n) {
    if (n == 0) return nullptr;
#ifdef VF_GUARD
    void* q = guard::Alloc(n, 1);  // elements have a power of two of bytes: they stay aligned
#else
    void* q = malloc(n);
#endif
    memcpy(q, p, n);
    return q;
  }
  void Keep(size_t n) { copy_.assign(static_cast<char*>(data), n); }
  void Free() {
    free(data);
    for (void* p : strs_) free(p);
    strs_.clear();
    data = nullptr;
    len = 0;
    copy_.clear();
  }
  std::string copy_;
  std::vector<void*> strs_;
  Val v_;
};

// entry_arg of every harness program: an array of operand pointers
struct Args {
  const Slot* a[1024] = {};
};

template <class CT>
inline CT LdNum(void* ea, int32_t i) {
  CT v;
  memcpy(&v, &static_cast<Args*>(ea)->a[i]->u, sizeof v);
  return v;
}
template <class LS>
inline LS LdList(void* ea, int32_t i) {
  const Slot* s = static_cast<Args*>(ea)->a[i];
  LS r;
  memset(&r, 0, sizeof r);
  r.data = static_cast<decltype(r.data)>(s->data);
  r.len = s->len;
  return r;
}
inline std::string LdName(T t) { return std::string("ld_") + Name(t); }
// the expression that reads operand i
inline std::string Ld(T t, int i) { return LdName(t) + "(entry_arg, " + std::to_string(i) + ")"; }

inline void Die(const std::string& m) {
  fprintf(stderr, "harness error: %s\n", m.c_str());
  fflush(stderr);
  _exit(3);
}
inline void RegLd(FunctionRegistry* r, T t, void* f) {
  auto st = r->RegisterReadOnlyCFunc(FunctionSignature(LdName(t), {T::kPtr, kI32}, t), f);
  if (!st.ok()) Die("cannot register " + LdName(t) + ": " + st.ToString());
}
inline void AddLoaders(FunctionRegistry* r) {
  using namespace jitfusion;
  RegLd(r, kU8, (void*)LdNum<uint8_t>);
  RegLd(r, kU16, (void*)LdNum<uint16_t>);
  RegLd(r, kU32, (void*)LdNum<uint32_t>);
  RegLd(r, kU64, (void*)LdNum<uint64_t>);
  RegLd(r, kI8, (void*)LdNum<int8_t>);
  RegLd(r, kI16, (void*)LdNum<int16_t>);
  RegLd(r, kI32, (void*)LdNum<int32_t>);
  RegLd(r, kI64, (void*)LdNum<int64_t>);
  RegLd(r, kF32, (void*)LdNum<float>);
  RegLd(r, kF64, (void*)LdNum<double>);
  RegLd(r, kStr, (void*)LdList<StringStruct>);
  RegLd(r, T::kU8List, (void*)LdList<U8ListStruct>);
  RegLd(r, T::kU16List, (void*)LdList<U16ListStruct>);
  RegLd(r, T::kU32List, (void*)LdList<U32ListStruct>);
  RegLd(r, T::kU64List, (void*)LdList<U64ListStruct>);
  RegLd(r, T::kI8List, (void*)LdList<I8ListStruct>);
  RegLd(r, T::kI16List, (void*)LdList<I16ListStruct>);
  RegLd(r, T::kI32List, (void*)LdList<I32ListStruct>);
  RegLd(r, T::kI64List, (void*)LdList<I64ListStruct>);
  RegLd(r, T::kF32List, (void*)LdList<F32ListStruct>);
  RegLd(r, T::kF64List, (void*)LdList<F64ListStruct>);
  RegLd(r, kStrL, (void*)LdList<StringListStruct>);
}
inline std::unique_ptr<FunctionRegistry> NewRegistry(bool loaders = true) {
  std::unique_ptr<FunctionRegistry> r;
  auto st = FunctionRegistryFactory::CreateFunctionRegistry(&r);
  if (!st.ok()) Die("registry: " + st.ToString());
  if (loaders) AddLoaders(r.get());
  return r;
}

inline Val FromRet(const RetType& r) {
  return std::visit(
      [](const auto& x) -> Val {
        using X = std::decay_t<decltype(x)>;
        auto num = []<class C>(C c) -> std::pair<T, uint64_t> {
          if constexpr (std::is_same_v<C, float>) return {kF32, B32(c)};
          else if constexpr (std::is_same_v<C, double>) return {kF64, B64(c)};
          else {
            constexpr bool sg = std::is_signed_v<C>;
            T t = sizeof(C) == 1 ? (sg ? kI8 : kU8) : sizeof(C) == 2 ? (sg ? kI16 : kU16) : sizeof(C) == 4 ? (sg ? kI32 : kU32) : (sg ? kI64 : kU64);
            return {t, Wrap(t, c)};
          }
        };
        if constexpr (std::is_same_v<X, std::string>) return S(x);
        else if constexpr (std::is_same_v<X, std::vector<std::string>>) return SL(x);
        else if constexpr (std::is_arithmetic_v<X>) {
          auto [t, u] = num(x);
          return N(t, u);
        } else {
          Val v;
          using E = typename X::value_type;
          v.t = ListOf(num(E{}).first);
          v.l.reserve(x.size());
          for (auto e : x) v.l.push_back(num(e).second);
          return v;
        }
      },
      r);
}

inline Status BuildExpr(const std::string& src, std::unique_ptr<ExecNode>* n) {
  athena::ProgramAstBuilder b;
  return b.BuildExpression(src, n);
}

// Many expressions in one JIT module.  If the module is refused, each expression is compiled alone so that the
// culprit can be named.
class Batch {
 public:
  explicit Batch(ExecEngineOption opt = {}) : opt_(opt), ctx_(opt.exec_ctx_arena_alloc_min_chunk_size) {}
  // returns the entry's index
  size_t Add(const std::string& src) { return AddProgram(src + ";"); }
  size_t AddProgram(const std::string& src) {
    srcs_.push_back(src);
    std::unique_ptr<ExecNode> n;
    auto st = BuildExpr(srcs_.back(), &n);
    if (!st.ok()) {
      err_.push_back("does not parse: " + st.ToString());
    } else {
      err_.emplace_back();
      map_.push_back(nodes_.size());
      nodes_.push_back(std::move(n));
      return count_++;
    }
    map_.push_back(SIZE_MAX);
    return count_++;
  }
  // a pipeline: executed with RunStore
  size_t AddPipeline(const std::string& src) {
    athena::ProgramAstBuilder b;
    std::unique_ptr<ExecNode> n;
    auto st = b.BuildPipeline(src, &n);
    if (st.ok()) {
      pipes_.insert(count_);
      return AddNode(std::move(n), src);
    }
    srcs_.push_back(src);
    err_.push_back("does not parse: " + st.ToString());
    map_.push_back(SIZE_MAX);
    return count_++;
  }
  size_t AddNode(std::unique_ptr<ExecNode> n, const std::string& descr = "node") {
    srcs_.push_back(descr);
    err_.emplace_back();
    map_.push_back(nodes_.size());
    nodes_.push_back(std::move(n));
    return count_++;
  }
  void Compile(const std::unique_ptr<FunctionRegistry>& reg) {
    if (nodes_.empty()) return;
    eng_ = std::make_unique<BatchExecEngine>(opt_);
    auto st = eng_->Compile(nodes_, reg);
    if (st.ok()) return;
    batch_error_ = st.ToString();
    eng_.reset();
    single_.resize(count_);
    for (size_t i = 0; i < count_; i++) {
      if (map_[i] == SIZE_MAX) continue;
      auto e = std::make_unique<ExecEngine>(opt_);
      // a fresh tree: the refused batch may have annotated this one
      std::unique_ptr<ExecNode> n;
      athena::ProgramAstBuilder ab;
      auto s1 = pipes_.count(i) ? ab.BuildPipeline(srcs_[i], &n) : ab.BuildExpression(srcs_[i], &n);
      if (!s1.ok()) n = nodes_[map_[i]]->Clone();
      auto s2 = e->Compile(n, reg);
      if (!s2.ok())
        err_[i] = "does not compile: " + s2.ToString();
      else
        single_[i] = std::move(e);
    }
  }
  // empty when entry i can run
  const std::string& Error(size_t i) const { return err_[i]; }
  const std::string& Src(size_t i) const { return srcs_[i]; }
  const std::string& BatchError() const { return batch_error_; }
  Status Run(size_t i, const Args& a, Val* out) {
    RetType r;
    Status st;
    auto* ea = const_cast<Args*>(&a);
    if (eng_) st = eng_->ExecuteAt(map_[i], ctx_, ea, &r);
    else st = single_[i]->Execute(ctx_, ea, &r);
    if (st.ok()) *out = FromRet(r);
    return st;
  }
  Status RunStore(size_t i, const Args& a, void* out) {
    auto* ea = const_cast<Args*>(&a);
    if (eng_) return eng_->ExecuteAt(map_[i], ctx_, ea, out);
    return single_[i]->Execute(ctx_, ea, out);
  }
  size_t size() const { return count_; }
  T RetTypeOf(size_t i) const { return eng_ ? eng_->GetReturnType(map_[i]) : T::kUnknown; }

 private:
  ExecEngineOption opt_;
  std::deque<std::string> srcs_;
  std::vector<std::string> err_;
  std::vector<size_t> map_;
  std::set<size_t> pipes_;
  std::vector<std::unique_ptr<ExecNode>> nodes_;
  std::unique_ptr<BatchExecEngine> eng_;
  std::vector<std::unique_ptr<ExecEngine>> single_;
  std::string batch_error_;
  size_t count_ = 0;
  ExecContext ctx_;
};

inline ExecEngineOption Opt(FPMathMode m) {
  ExecEngineOption o;
  o.fp_math_mode = m;
  return o;
}

// One compile of one expression; empty string when it is accepted
inline std::string TryCompile(const std::string& src, const std::unique_ptr<FunctionRegistry>& reg,
                              std::unique_ptr<ExecEngine>* out = nullptr, ExecEngineOption opt = {}) {
  std::unique_ptr<ExecNode> n;
  auto st = BuildExpr(src, &n);
  if (!st.ok()) return "parse: " + st.ToString();
  auto e = std::make_unique<ExecEngine>(opt);
  st = e->Compile(n, reg);
  if (!st.ok()) return "compile: " + st.ToString();
  if (out) *out = std::move(e);
  return "";
}
// ------------------------------------------------------------- stores
// The output of every harness pipeline: a log of (index, value) in the order of the calls.
struct Recorder {
  std::vector<std::pair<int, Val>> log;
};
template <class CT>
struct Back {
  static Val Of(CT c) {
    Val v;
    if constexpr (std::is_same_v<CT, float>) v = N(kF32, B32(c));
    else if constexpr (std::is_same_v<CT, double>) v = N(kF64, B64(c));
    else if constexpr (std::is_integral_v<CT>) v = FromRet(RetType(c));
    else if constexpr (std::is_same_v<CT, jitfusion::StringStruct>) v = S(c.len ? std::string(c.data, c.len) : "");
    else if constexpr (std::is_same_v<CT, jitfusion::StringListStruct>) {
      v.t = kStrL;
      for (uint32_t i = 0; i < c.len; i++) v.sl.push_back(Back<jitfusion::StringStruct>::Of(c.data[i]).s);
    } else {
      using E = typename CT::CElementType;
      v = FromRet(RetType(std::vector<E>(c.data, c.data + c.len)));
    }
    return v;
  }
};
template <class CT>
int32_t StoreFn(void* out, int32_t idx, CT v) {
  static_cast<Recorder*>(out)->log.emplace_back(idx, Back<CT>::Of(v));
  return 0;
}
template <class CT>
CT* NullOf() { return nullptr; }
// calls f(type, (C type*)nullptr) for every value type
template <class F>
void ForTypes(F f) {
  using namespace jitfusion;
  f(kU8, (uint8_t*)0), f(kU16, (uint16_t*)0), f(kU32, (uint32_t*)0), f(kU64, (uint64_t*)0), f(kI8, (int8_t*)0),
      f(kI16, (int16_t*)0), f(kI32, (int32_t*)0), f(kI64, (int64_t*)0), f(kF32, (float*)0), f(kF64, (double*)0),
      f(kStr, (StringStruct*)0), f(T::kU8List, (U8ListStruct*)0), f(T::kU16List, (U16ListStruct*)0),
      f(T::kU32List, (U32ListStruct*)0), f(T::kU64List, (U64ListStruct*)0), f(T::kI8List, (I8ListStruct*)0),
      f(T::kI16List, (I16ListStruct*)0), f(T::kI32List, (I32ListStruct*)0), f(T::kI64List, (I64ListStruct*)0),
      f(T::kF32List, (F32ListStruct*)0), f(T::kF64List, (F64ListStruct*)0), f(kStrL, (StringListStruct*)0);
}
inline std::string StName(T t) { return std::string("st_") + Name(t); }
inline void AddStores(FunctionRegistry* r) {
  ForTypes([&](T t, auto* p) {
    using CT = std::remove_pointer_t<decltype(p)>;
    auto st = r->RegisterStoreCFunc(FunctionSignature(StName(t), {T::kPtr, kI32, t}, kI32), (void*)StoreFn<CT>, 1);
    if (!st.ok()) Die("cannot register " + StName(t));
  });
}
inline std::string ShowLog(const std::vector<std::pair<int, Val>>& l) {
  std::string o;
  for (auto& [i, v] : l) o += std::to_string(i) + "<-" + Show(v) + " ";
  return o.empty() ? "(no stores)" : o;
}
inline bool SameLog(const std::vector<std::pair<int, Val>>& a, const std::vector<std::pair<int, Val>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].first != b[i].first || !Same(a[i].second, b[i].second)) return false;
  return true;
}

// A typed constant node
inline std::unique_ptr<ExecNode> ConstNode(const Val& v) {
  using jitfusion::ConstantListValueNode;
  using jitfusion::ConstantValueNode;
  switch (v.t) {
    case kU8: return std::make_unique<ConstantValueNode>(static_cast<uint8_t>(v.u));
    case kU16: return std::make_unique<ConstantValueNode>(static_cast<uint16_t>(v.u));
    case kU32: return std::make_unique<ConstantValueNode>(static_cast<uint32_t>(v.u));
    case kU64: return std::make_unique<ConstantValueNode>(static_cast<uint64_t>(v.u));
    case kI8: return std::make_unique<ConstantValueNode>(static_cast<int8_t>(v.u));
    case kI16: return std::make_unique<ConstantValueNode>(static_cast<int16_t>(v.u));
    case kI32: return std::make_unique<ConstantValueNode>(static_cast<int32_t>(v.u));
    case kI64: return std::make_unique<ConstantValueNode>(static_cast<int64_t>(v.u));
    case kF32: return std::make_unique<ConstantValueNode>(F32(v.u));
    case kF64: return std::make_unique<ConstantValueNode>(F64(v.u));
    case kStr: return std::make_unique<ConstantValueNode>(v.s);
    case kStrL: return std::make_unique<ConstantListValueNode>(v.sl);
    default: break;
  }
  std::unique_ptr<ExecNode> out;
  ForTypes([&](T t, auto* p) {
    using CT = std::remove_pointer_t<decltype(p)>;
    if constexpr (std::is_arithmetic_v<CT>) {
      if (v.t == ListOf(t)) {
        std::vector<CT> l;
        for (uint64_t u : v.l) {
          CT c;
          memcpy(&c, &u, sizeof c);
          l.push_back(c);
        }
        out = std::make_unique<ConstantListValueNode>(l);
      }
    }
  });
  return out;
}
inline std::unique_ptr<ExecNode> Call(const std::string& f, std::vector<std::unique_ptr<ExecNode>> a) {
  return std::make_unique<jitfusion::FunctionNode>(f, std::move(a));
}
template <class... A>
std::unique_ptr<ExecNode> CallN(const std::string& f, A... a) {
  std::vector<std::unique_ptr<ExecNode>> v;
  (v.push_back(std::move(a)), ...);
  return Call(f, std::move(v));
}
inline std::unique_ptr<ExecNode> LdNode(T t, int i) {
  std::unique_ptr<ExecNode> ea = std::make_unique<jitfusion::EntryArgumentNode>();
  return CallN(LdName(t), std::move(ea), ConstNode(N(kI32, static_cast<uint64_t>(i))));
}
inline jitfusion::BinaryOPType OpType(Op o) {
  using B = jitfusion::BinaryOPType;
  switch (o) {
    case Op::kAdd: return B::kAdd;
    case Op::kSub: return B::kSub;
    case Op::kMul: return B::kMul;
    case Op::kDiv: return B::kDiv;
    case Op::kMod: return B::kMod;
    case Op::kAnd: return B::kBitwiseAnd;
    case Op::kOr: return B::kBitwiseOr;
    case Op::kXor: return B::kBitwiseXor;
    case Op::kShl: return B::kBitwiseShiftLeft;
    case Op::kShr: return B::kBitwiseShiftRight;
    case Op::kEq: return B::kEqual;
    case Op::kNe: return B::kNotEqual;
    case Op::kLt: return B::kLess;
    case Op::kLe: return B::kLessEqual;
    case Op::kGt: return B::kLarge;
    case Op::kGe: return B::kLargeEqual;
    case Op::kLand: return B::kAnd;
    default: return B::kOr;
  }
}
inline std::unique_ptr<ExecNode> BinNode(Op o, std::unique_ptr<ExecNode> a, std::unique_ptr<ExecNode> b) {
  return std::make_unique<jitfusion::BinaryOPNode>(OpType(o), std::move(a), std::move(b));
}
inline std::unique_ptr<ExecNode> UnNode(Un o, std::unique_ptr<ExecNode> a) {
  using U = jitfusion::UnaryOPType;
  U u = o == Un::kPlus ? U::kPlus : o == Un::kMinus ? U::kMinus : o == Un::kNot ? U::kNot : U::kBitwiseNot;
  return std::make_unique<jitfusion::UnaryOPNode>(u, std::move(a));
}
inline const char* OpText(Op o) {
  for (auto& i : Ops())
    if (i.op == o) return i.text;
  return "?";
}
}  // namespace jf
