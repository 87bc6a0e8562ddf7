// User functions that fail, allocate and create objects on demand, small programs over them, and an engine of either kind.
#pragma once
#include "jf.h"
#include "lang.h"
using namespace jf;

namespace {
// ------------------------------------------------------------- user functions that fail, allocate and create on demand
struct Plan {
  Args args;
  uint32_t mask = 0;     // call sites that report an error
  uint32_t alloc = 0;    // bytes every call takes from the arena
  uint32_t vals = 0;     // truth of the value of every call site
  int kind = 0;          // what the errors say: see Texts
  std::vector<int> calls;
};
int g_objs = 0;
struct Obj {
  std::vector<int> v{1, 2, 3};
  std::string s{"something longer than the small string buffer"};
  Obj() { g_objs++; }
  ~Obj() { g_objs--; }
};
const std::string kLong(3000, 'L');
std::string Msg(int i) {
  static const char* parts[] = {"<m0>", "<m1; with | separators>", "<m2 %s \n \"quoted\">", "<m3>", "<m4>", "<m5>", "<m6>"};
  return i == 3 ? "<m3" + kLong + ">" : parts[i];
}
// the errors call site i reports: one of its own, the same for all sites, a huge one, several, nothing but an empty
// one, very many, pieces of the separators
constexpr int kKinds = 7;
std::vector<std::string> MakeTexts(int kind, int i) {
  std::string own = "<k" + std::to_string(i) + ">";
  switch (kind) {
    case 1: return {"<same text>"};
    case 2: return {"<huge" + std::string(70000, static_cast<char>('a' + i)) + ">"};
    case 3: return {own + "a", own + "b", own + "a"};
    case 4: return {""};
    case 5: return std::vector<std::string>(700, own);
    case 6: return {"; ", own + "| ", "|"};
    default: return {Msg(i)};
  }
}
const std::vector<std::string>& Texts(int kind, int i) {
  static const auto all = [] {
    std::vector<std::vector<std::string>> v;
    for (int k = 0; k < kKinds; k++)
      for (int j = 0; j < 7; j++) v.push_back(MakeTexts(k, j));
    return v;
  }();
  return all[static_cast<size_t>(kind * 7 + i)];
}
int64_t ValOf(int i, uint32_t vals) { return ((vals >> i) & 1) ? 10 + i : 0; }
void Touch(Plan* p, int32_t id, ExecContext* c) {
  p->calls.push_back(id);
  if (p->alloc) {
    auto* q = c->arena.Allocate(p->alloc);
    memset(q, 0x5A, p->alloc);
    c->arena.Create<Obj>();
  }
  if ((p->mask >> id) & 1)
    for (auto& t : Texts(p->kind, id)) c->AddError(t);
}
int64_t FFail(Plan* p, int32_t id, ExecContext* c) {
  Touch(p, id, c);
  return ValOf(id, p->vals);
}
jitfusion::StringStruct SFail(Plan* p, int32_t id, ExecContext* c) {
  Touch(p, id, c);
  std::string s = "s" + std::to_string(ValOf(id, p->vals));
  auto* q = c->arena.Allocate(s.size(), 1);
  memcpy(q, s.data(), s.size());
  return {reinterpret_cast<char*>(q), static_cast<uint32_t>(s.size())};
}
jitfusion::I64ListStruct LFail(Plan* p, int32_t id, ExecContext* c) {
  Touch(p, id, c);
  auto* q = reinterpret_cast<int64_t*>(c->arena.Allocate(24));
  for (int i = 0; i < 3; i++) q[i] = ValOf(id, p->vals) * 100 + i;
  return {q, 3};
}
jitfusion::StringListStruct SLFail(Plan* p, int32_t id, ExecContext* c) {
  auto a = SFail(p, id, c);
  auto* q = reinterpret_cast<jitfusion::StringStruct*>(c->arena.Allocate(2 * sizeof a));
  q[0] = a, q[1] = a;
  return {q, 2};
}
int32_t StFail(void* out, int32_t idx, int64_t v, Plan* p, ExecContext* c) {
  Touch(p, idx, c);
  static_cast<Recorder*>(out)->log.emplace_back(idx, FromRet(RetType(v)));
  return 0;
}
void Reg(FunctionRegistry* r) {
  auto P = T::kPtr;
  auto add = [&](const char* n, std::vector<T> a, T ret, void* f) {
    jitfusion::FunctionStructure fs{jitfusion::FunctionType::kCFunc, f, {}};
    if (!r->RegisterFunc(FunctionSignature(n, a, ret), fs).ok()) Die(n);
  };
  add("f", {P, kI32, P}, kI64, (void*)FFail);
  add("s", {P, kI32, P}, kStr, (void*)SFail);
  add("l", {P, kI32, P}, T::kI64List, (void*)LFail);
  add("sl", {P, kI32, P}, kStrL, (void*)SLFail);
  add("stf", {P, kI32, kI64, P, P}, kI32, (void*)StFail);
  if (!r->RegisterReadOnlyCFuncWithExecCtx(FunctionSignature("rf", {P, kI32}, kI64), (void*)FFail).ok()) Die("rf");
  if (!r->RegisterCommutativeCFuncWithExecCtx(FunctionSignature("cf", {P, kI32}, kI64), (void*)FFail).ok()) Die("cf");
}

Val I64(int64_t v) { return FromRet(RetType(v)); }
// ------------------------------------------------------------- programs for C20 and C21
struct P2 {
  std::string src;
  bool pipe;
  bool ok;  // accepted
};
struct Made {  // what an execution gave
  bool ok = false;
  std::string status;
  Val ret;
  std::vector<std::pair<int, Val>> log;
};
bool SameMade(const Made& a, const Made& b, bool pipe) {
  if (a.ok != b.ok || a.status != b.status) return false;
  if (pipe) return SameLog(a.log, b.log);
  return !a.ok || Same(a.ret, b.ret);
}
std::string ShowMade(const Made& m, bool pipe) { return m.status + " " + (pipe ? ShowLog(m.log) : m.ok ? Show(m.ret) : ""); }
Status BuildP(const P2& p, std::unique_ptr<ExecNode>* n) {
  athena::ProgramAstBuilder b;
  return p.pipe ? b.BuildPipeline(p.src, n) : b.BuildExpression(p.src, n);
}

struct Inputs {
  std::vector<Slot> s;
  Plan plan;
  explicit Inputs(int k) {
    s.emplace_back(I64(k ? -5 : 7));
    s.emplace_back(S(k ? "in" : ""));
    s.emplace_back(N(kF64, B64(k ? 2.5 : -0.0)));
    Val l;
    l.t = T::kI32List;
    for (int i = 0; i < 3 + k; i++) l.l.push_back(static_cast<uint32_t>(i * 10));
    s.emplace_back(l);
    for (size_t i = 0; i < s.size(); i++) plan.args.a[i] = &s[i];
    plan.vals = k ? 0x15 : 0;
    plan.mask = k == 1 ? 0x3 : 0;
  }
};

Made RunSingle(ExecEngine& e, bool pipe, Inputs& in, ExecContext* ctx) {
  Made m;
  Recorder rec;
  RetType r;
  Status st;
  if (pipe) {
    void* out = &rec;
    st = ctx ? e.Execute(*ctx, &in.plan, out) : e.Execute(&in.plan, out);
  } else {
    st = ctx ? e.Execute(*ctx, &in.plan, &r) : e.Execute(&in.plan, &r);
  }
  m.ok = st.ok();
  m.status = st.ToString();
  m.log = rec.log;
  if (!pipe) m.ret = FromRet(r);
  return m;
}
struct Set20 {
  const char* name;
  std::vector<P2> ps;
  std::vector<const char*> marks;  // text of the IR only this set has
};
// an engine of either kind
struct Eng20 {
  std::unique_ptr<ExecEngine> s;
  std::unique_ptr<BatchExecEngine> b;
  Eng20(bool batch, ExecEngineOption o) {
    if (batch) b = std::make_unique<BatchExecEngine>(o);
    else s = std::make_unique<ExecEngine>(o);
  }
  Status Compile(const Set20& st, const std::unique_ptr<FunctionRegistry>& reg) {
    std::vector<std::unique_ptr<ExecNode>> ns;
    for (auto& p : st.ps) {
      std::unique_ptr<ExecNode> n;
      auto x = BuildP(p, &n);
      if (!x.ok()) Die(p.src + ": " + x.ToString());
      ns.push_back(std::move(n));
    }
    return b ? b->Compile(ns, reg) : s->Compile(ns[0], reg);
  }
  Status Load(const std::string& bytes, const std::unique_ptr<FunctionRegistry>& reg) {
    // exactly sized, and gone after the call
    char* p = static_cast<char*>(malloc(bytes.size() ? bytes.size() : 1));
    memcpy(p, bytes.data(), bytes.size());
    std::string_view v(p, bytes.size());
    auto st = b ? b->LoadCompiled(v, reg) : s->LoadCompiled(v, reg);
    memset(p, 0xEE, bytes.size());
    free(p);
    return st;
  }
  Status Save(std::string* out) const { return b ? b->SaveCompiled(out) : s->SaveCompiled(out); }
  std::string IR() const { return std::string(b ? b->GetIRCode() : s->GetIRCode()); }
  Status Value(size_t i, Inputs& in, ExecContext* c, RetType* r) {
    if (b) return c ? b->ExecuteAt(i, *c, &in.plan, r) : b->ExecuteAt(i, &in.plan, r);
    return c ? s->Execute(*c, &in.plan, r) : s->Execute(&in.plan, r);
  }
  Status Store(size_t i, Inputs& in, ExecContext* c, Recorder* rec) {
    void* out = rec;
    if (b) return c ? b->ExecuteAt(i, *c, &in.plan, out) : b->ExecuteAt(i, &in.plan, out);
    return c ? s->Execute(*c, &in.plan, out) : s->Execute(&in.plan, out);
  }
};
Made Run20(Eng20& e, size_t i, bool pipe, Inputs& in, ExecContext* c) {
  Made m;
  RetType r;
  Recorder rec;
  auto st = pipe ? e.Store(i, in, c, &rec) : e.Value(i, in, c, &r);
  m.ok = st.ok(), m.status = st.ToString(), m.log = rec.log;
  if (!pipe) m.ret = FromRet(r);
  return m;
}
}  // namespace
