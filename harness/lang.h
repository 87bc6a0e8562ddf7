// The language as the documentation describes it: expressions, statements, blocks; a printer, a static checker and a
// sequential interpreter.  None of it looks at the library.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "jf.h"

namespace lang {
using namespace jf;

// ---------------------------------------------------------------- leaves
// entry_arg of these programs: operands plus a log of the calls made
struct Ev : Args {
  std::vector<std::pair<int, Val>>* log = nullptr;
};
template <class CT>
CT EvFn(void* ea, int32_t id) {
  auto* e = static_cast<Ev*>(ea);
  CT v;
  if constexpr (std::is_arithmetic_v<CT>) v = LdNum<CT>(ea, id);
  else v = LdList<CT>(ea, id);
  e->log->emplace_back(id, Back<CT>::Of(v));
  return v;
}
// a call with two value arguments that returns the second
template <class CT>
CT Ev2Fn(void* ea, int32_t id, CT a, CT b) {
  auto* e = static_cast<Ev*>(ea);
  e->log->emplace_back(1000 + id, Back<CT>::Of(a));
  return b;
}
// a store that returns the value stored
template <class CT>
CT SvFn(void* out, int32_t id, CT v) {
  static_cast<Recorder*>(out)->log.emplace_back(id, Back<CT>::Of(v));
  return v;
}
// a call that is handed the execution context after its argument, and returns the argument
template <class CT>
CT CxFn(CT a, void* ctx) {
  if (ctx) return a;
  CT z;
  memset(&z, 0, sizeof z);
  return z;
}
inline std::string CxName(T t) { return std::string("cx_") + Name(t); }
inline std::string EvName(T t) { return std::string("ev_") + Name(t); }
inline std::string Ev2Name(T t) { return std::string("evv_") + Name(t); }
inline std::string SvName(T t) { return std::string("sv_") + Name(t); }
inline void AddEvents(FunctionRegistry* r) {
  ForTypes([&](T t, auto* p) {
    using CT = std::remove_pointer_t<decltype(p)>;
    auto reg = [&](FunctionSignature s, void* f) {
      jitfusion::FunctionStructure fs;
      fs.func_type = jitfusion::FunctionType::kCFunc;
      fs.c_func_ptr = f;
      if (!r->RegisterFunc(s, fs).ok()) Die("cannot register " + s.ToString());
    };
    reg(FunctionSignature(EvName(t), {T::kPtr, kI32}, t), (void*)EvFn<CT>);
    reg(FunctionSignature(Ev2Name(t), {T::kPtr, kI32, t, t}, t), (void*)Ev2Fn<CT>);
    if (!r->RegisterReadOnlyCFunc(FunctionSignature(CxName(t), {t, T::kPtr}, t), (void*)CxFn<CT>).ok()) Die("cannot register " + CxName(t));
    if (!r->RegisterStoreCFunc(FunctionSignature(SvName(t), {T::kPtr, kI32, t}, t), (void*)SvFn<CT>, 1).ok())
      Die("cannot register " + SvName(t));
  });
}

// ---------------------------------------------------------------- expressions
struct X;
using P = std::shared_ptr<const X>;
enum class K { kEv, kLd, kSv, kConst, kVar, kUn, kBin, kIf, kSwitch, kCall2, kStore, kCtx };
struct X {
  K k = K::kConst;
  int id = 0;  // operand or store index
  T t = kI32;  // kEv, kLd, kCall2: value type
  Val v;       // kConst
  std::string name;
  Op op = Op::kAdd;
  Un un = Un::kPlus;
  std::vector<P> c;
};
inline P EvX(T t, int id) { return std::make_shared<X>(X{K::kEv, id, t, {}, "", Op::kAdd, Un::kPlus, {}}); }
inline P LdX(T t, int id) { return std::make_shared<X>(X{K::kLd, id, t, {}, "", Op::kAdd, Un::kPlus, {}}); }
// sv(output, id, ld(entry_arg, id))
inline P SvX(T t, int id) { return std::make_shared<X>(X{K::kSv, id, t, {}, "", Op::kAdd, Un::kPlus, {}}); }
inline P ConstX(Val v) { return std::make_shared<X>(X{K::kConst, 0, v.t, v, "", Op::kAdd, Un::kPlus, {}}); }
inline P VarX(std::string n) { return std::make_shared<X>(X{K::kVar, 0, kI32, {}, std::move(n), Op::kAdd, Un::kPlus, {}}); }
inline P UnX(Un u, P a) { return std::make_shared<X>(X{K::kUn, 0, kI32, {}, "", Op::kAdd, u, {std::move(a)}}); }
inline P BinX(Op o, P a, P b) {
  return std::make_shared<X>(X{K::kBin, 0, kI32, {}, "", o, Un::kPlus, {std::move(a), std::move(b)}});
}
inline P IfX(std::vector<P> c) { return std::make_shared<X>(X{K::kIf, 0, kI32, {}, "", Op::kAdd, Un::kPlus, std::move(c)}); }
inline P SwX(std::vector<P> c) { return std::make_shared<X>(X{K::kSwitch, 0, kI32, {}, "", Op::kAdd, Un::kPlus, std::move(c)}); }
inline P Call2X(T t, int id, P a, P b) {
  return std::make_shared<X>(X{K::kCall2, id, t, {}, "", Op::kAdd, Un::kPlus, {std::move(a), std::move(b)}});
}
// st(output, id, value): returns int32 0
inline P StoreX(T t, int id, P v) {
  return std::make_shared<X>(X{K::kStore, id, t, {}, "", Op::kAdd, Un::kPlus, {std::move(v)}});
}

// cx(value, exec_ctx)
inline P CtxX(T t, P v) { return std::make_shared<X>(X{K::kCtx, 0, t, {}, "", Op::kAdd, Un::kPlus, {std::move(v)}}); }

inline std::string ConstText(const Val& v) {
  if (v.t == kStr) return "\"" + v.s + "\"";
  if (IsNum(v.t)) {
    auto l = Literal(v.t, v.u);
    if (!l) Die("no literal for " + Show(v));
    return *l;
  }
  std::string o = "[";
  if (v.t == kStrL)
    for (size_t i = 0; i < v.sl.size(); i++) o += (i ? ", " : "") + std::string("\"") + v.sl[i] + "\"";
  else
    for (size_t i = 0; i < v.l.size(); i++) o += (i ? ", " : "") + ConstText(N(ElemOf(v.t), v.l[i]));
  return o + "]";
}
inline std::string Text(const P& x) {
  auto args = [&] {
    std::string s;
    for (size_t i = 0; i < x->c.size(); i++) s += (i ? ", " : "") + Text(x->c[i]);
    return s;
  };
  switch (x->k) {
    case K::kEv: return EvName(x->t) + "(entry_arg, " + std::to_string(x->id) + ")";
    case K::kLd: return Ld(x->t, x->id);
    case K::kSv: return SvName(x->t) + "(output, " + std::to_string(x->id) + ", " + Ld(x->t, x->id) + ")";
    case K::kConst: return ConstText(x->v);
    case K::kVar: return x->name;
    case K::kUn:
      for (auto& u : Uns())
        if (u.op == x->un) return std::string("(") + u.text + Text(x->c[0]) + ")";
      return "?";
    case K::kBin: return "(" + Text(x->c[0]) + " " + OpText(x->op) + " " + Text(x->c[1]) + ")";
    case K::kIf: return "if(" + args() + ")";
    case K::kSwitch: return "switch(" + args() + ")";
    case K::kCall2: return Ev2Name(x->t) + "(entry_arg, " + std::to_string(x->id) + ", " + args() + ")";
    case K::kCtx: return CxName(x->t) + "(" + args() + ", exec_ctx)";
    case K::kStore: return StName(x->t) + "(output, " + std::to_string(x->id) + ", " + args() + ")";
  }
  return "?";
}
inline std::optional<T> Common(const std::vector<T>& v) {
  T t = v[0];
  for (T x : v) {
    if (x == t) continue;
    if (!IsNum(x) || !IsNum(t)) return std::nullopt;
    t = Promote(t, x);
  }
  return t;
}
using TEnv = std::function<std::optional<T>(const std::string&)>;
inline std::optional<T> TypeOf(const P& x, const TEnv& env) {
  std::vector<T> a;
  for (auto& c : x->c) {
    auto t = TypeOf(c, env);
    if (!t) return std::nullopt;
    a.push_back(*t);
  }
  switch (x->k) {
    case K::kEv:
    case K::kLd:
    case K::kSv: return x->t;
    case K::kConst: return x->v.t;
    case K::kVar: return env(x->name);
    case K::kUn: return UnType(x->un, a[0]);
    case K::kBin: return BinType(x->op, a[0], a[1]);
    case K::kIf:
      if (a.size() != 3 || !IsNum(a[0])) return std::nullopt;
      return Common({a[1], a[2]});
    case K::kSwitch: {
      if (a.size() % 2 == 0) return std::nullopt;
      std::vector<T> v;
      for (size_t i = 0; i < a.size(); i++) {
        if (i % 2 == 0 && i + 1 < a.size()) {
          if (!IsNum(a[i])) return std::nullopt;
        } else {
          v.push_back(a[i]);
        }
      }
      return Common(v);
    }
    case K::kCall2: return a[0] == x->t && a[1] == x->t ? std::optional<T>(x->t) : std::nullopt;
    case K::kCtx: return a[0] == x->t ? std::optional<T>(x->t) : std::nullopt;
    case K::kStore: return a[0] == x->t ? std::optional<T>(kI32) : std::nullopt;
  }
  return std::nullopt;
}
inline std::optional<Val> ConvVal(const Val& v, T t) {
  if (v.t == t) return v;
  auto u = Conv(v.t, t, v.u);
  return u ? std::optional<Val>(N(t, *u)) : std::nullopt;
}

// ---------------------------------------------------------------- interpreter
using Log = std::vector<std::pair<int, Val>>;
struct Machine {
  const Args* in = nullptr;
  Log calls;   // ev calls
  Log stores;  // st, sv calls
  std::vector<std::map<std::string, Val>> scopes{1};

  Val* Find(const std::string& n) {
    for (auto it = scopes.rbegin(); it != scopes.rend(); ++it) {
      auto f = it->find(n);
      if (f != it->end()) return &f->second;
    }
    return nullptr;
  }
  T StaticType(const P& x) {
    auto t = TypeOf(x, [&](const std::string& n) -> std::optional<T> {
      auto* v = Find(n);
      return v ? std::optional<T>(v->t) : std::nullopt;
    });
    if (!t) Die("ill-typed program reached the interpreter: " + Text(x));
    return *t;
  }
  // nullopt: undefined behaviour was reached
  std::optional<Val> Eval(const P& x) {
    switch (x->k) {
      case K::kEv: {
        Val v = in->a[x->id]->val();
        calls.emplace_back(x->id, v);
        return v;
      }
      case K::kLd: return in->a[x->id]->val();
      case K::kSv: {
        Val v = in->a[x->id]->val();
        stores.emplace_back(x->id, v);
        return v;
      }
      case K::kConst: return x->v;
      case K::kVar: return *Find(x->name);
      case K::kUn: {
        auto a = Eval(x->c[0]);
        if (!a) return std::nullopt;
        auto r = UnOp(x->un, {a->t, a->u});
        return r ? std::optional<Val>(N(*r)) : std::nullopt;
      }
      case K::kBin: {
        auto a = Eval(x->c[0]);
        if (!a) return std::nullopt;
        if (IsLogic(x->op)) {
          auto t = Truth(a->t, a->u);
          if (!t) return std::nullopt;
          if (*t == (x->op == Op::kLor)) return N(kU8, *t);
          auto b = Eval(x->c[1]);
          if (!b) return std::nullopt;
          auto t2 = Truth(b->t, b->u);
          return t2 ? std::optional<Val>(N(kU8, *t2)) : std::nullopt;
        }
        auto b = Eval(x->c[1]);
        if (!b) return std::nullopt;
        if (a->t == kStr) {
          if (x->op == Op::kAdd) return S(a->s + b->s);
          int cmp = a->s.compare(b->s);
          return N(kU8, Rel(x->op, cmp, 0));
        }
        if (IsList(a->t)) {
          Val r = *a;
          r.l.insert(r.l.end(), b->l.begin(), b->l.end());
          r.sl.insert(r.sl.end(), b->sl.begin(), b->sl.end());
          return r;
        }
        auto r = Bin(x->op, {a->t, a->u}, {b->t, b->u});
        return r ? std::optional<Val>(N(*r)) : std::nullopt;
      }
      case K::kIf:
      case K::kSwitch: {
        T t = StaticType(x);
        size_t i = 0;
        for (; i + 1 < x->c.size(); i += 2) {
          auto a = Eval(x->c[i]);
          if (!a) return std::nullopt;
          auto b = Truth(a->t, a->u);
          if (!b) return std::nullopt;
          if (*b) {
            i++;
            break;
          }
        }
        auto r = Eval(x->c[i]);
        if (!r) return std::nullopt;
        return ConvVal(*r, t);
      }
      case K::kCall2: {
        auto a = Eval(x->c[0]);
        if (!a) return std::nullopt;
        auto b = Eval(x->c[1]);
        if (!b) return std::nullopt;
        calls.emplace_back(1000 + x->id, *a);
        return b;
      }
      case K::kCtx: return Eval(x->c[0]);
      case K::kStore: {
        auto a = Eval(x->c[0]);
        if (!a) return std::nullopt;
        stores.emplace_back(x->id, *a);
        return N(kI32, 0);
      }
    }
    return std::nullopt;
  }
};

// ---------------------------------------------------------------- statements
struct St;
using Block = std::vector<St>;
struct Branch {
  P cond;
  Block body;
};
struct St {
  enum Kind { kAssign, kLet, kExpr, kWhen } k = kExpr;
  std::string name;
  P x;
  std::vector<Branch> br;
  bool has_else = false;
  Block els;
};
inline St Assign(std::string n, P x) {
  St s;
  s.k = St::kAssign, s.name = std::move(n), s.x = std::move(x);
  return s;
}
inline St Let(std::string n, P x) {
  St s;
  s.k = St::kLet, s.name = std::move(n), s.x = std::move(x);
  return s;
}
inline St ExprSt(P x) {
  St s;
  s.x = std::move(x);
  return s;
}
inline std::string Text(const Block& b);
inline std::string Text(const St& s) {
  switch (s.k) {
    case St::kAssign: return s.name + " = " + Text(s.x) + "; ";
    case St::kLet: return "let " + s.name + " = " + Text(s.x) + "; ";
    case St::kExpr: return Text(s.x) + "; ";
    default: {
      std::string o;
      for (size_t i = 0; i < s.br.size(); i++)
        o += (i ? "elif " : "when ") + Text(s.br[i].cond) + " { " + Text(s.br[i].body) + "} ";
      if (s.has_else) o += "else { " + Text(s.els) + "} ";
      return o;
    }
  }
}
inline std::string Text(const Block& b) {
  std::string o;
  for (auto& s : b) o += Text(s);
  return o;
}
// The static rules of a pipeline.
struct Var {
  T t;
  bool is_const;
};
struct Checker {
  std::vector<std::map<std::string, Var>> scopes{1};
  std::string why;
  Var* Find(const std::string& n) {
    for (auto it = scopes.rbegin(); it != scopes.rend(); ++it) {
      auto f = it->find(n);
      if (f != it->end()) return &f->second;
    }
    return nullptr;
  }
  std::optional<T> Type(const P& x) {
    return TypeOf(x, [&](const std::string& n) -> std::optional<T> {
      auto* v = Find(n);
      if (!v) {
        if (why.empty()) why = "undefined variable " + n;
        return std::nullopt;
      }
      return v->t;
    });
  }
  bool Run(const Block& b) {
    for (auto& s : b)
      if (!Run(s)) return false;
    return true;
  }
  bool Bad(const std::string& m) {
    if (why.empty()) why = m;
    return false;
  }
  bool Run(const St& s) {
    if (s.k == St::kWhen) {
      for (auto& br : s.br) {
        auto t = Type(br.cond);
        if (!t) return Bad("ill-typed condition");
        if (!IsNum(*t)) return Bad("condition is not numeric");
        scopes.emplace_back();
        bool ok = Run(br.body);
        scopes.pop_back();
        if (!ok) return false;
      }
      if (s.has_else) {
        scopes.emplace_back();
        bool ok = Run(s.els);
        scopes.pop_back();
        if (!ok) return false;
      }
      return true;
    }
    auto t = Type(s.x);
    if (!t) return Bad("ill-typed expression");
    if (s.k == St::kExpr) return true;
    if (auto* v = Find(s.name)) {
      if (v->is_const) return Bad("assignment to constant " + s.name);
      if (s.k == St::kLet) return Bad("redeclaration of " + s.name);
      if (v->t != *t) return Bad("type of " + s.name + " changes");
      return true;
    }
    scopes.back()[s.name] = {*t, s.k == St::kLet};
    return true;
  }
};
// false: undefined behaviour was reached
inline bool Exec(Machine& m, const Block& b) {
  for (auto& s : b) {
    if (s.k == St::kWhen) {
      const Block* take = nullptr;
      for (auto& br : s.br) {
        auto v = m.Eval(br.cond);
        if (!v) return false;
        auto t = Truth(v->t, v->u);
        if (!t) return false;
        if (*t) {
          take = &br.body;
          break;
        }
      }
      if (!take && s.has_else) take = &s.els;
      if (take) {
        m.scopes.emplace_back();
        bool ok = Exec(m, *take);
        m.scopes.pop_back();
        if (!ok) return false;
      }
      continue;
    }
    auto v = m.Eval(s.x);
    if (!v) return false;
    if (s.k == St::kExpr) continue;
    if (auto* p = m.Find(s.name)) *p = *v;
    else m.scopes.back()[s.name] = *v;
  }
  return true;
}

// ---------------------------------------------------------------- operand values
// Values of operand i of type t: [0] counts as false, [1] and [2] as true and differ from those of other operands
inline Val Operand(T t, int i, int which) {
  auto k = static_cast<uint64_t>(i % 100) + 1;
  if (t == kStr) return S(which == 0 ? "" : which == 1 ? "s" + std::to_string(i) : std::string(1 + i % 3, 'x') + std::string(1, '\0'));
  if (t == kStrL) return SL(which == 0 ? std::vector<std::string>{} : std::vector<std::string>(static_cast<size_t>(which), "l" + std::to_string(i)));
  if (IsList(t)) {
    Val v = L(t, {});
    for (int j = 0; j < which; j++) v.l.push_back(IsFloat(ElemOf(t)) ? (ElemOf(t) == kF32 ? B32(float(i) + .5F) : B64(i + .5)) : k);
    return v;
  }
  if (t == kF32) return N(t, which == 0 ? (i % 2 ? B32(-0.0F) : 0) : which == 1 ? B32(0.25F * float(k)) : B32(std::ldexp(float(k), -120)));
  if (t == kF64) return N(t, which == 0 ? (i % 2 ? B64(-0.0) : 0) : which == 1 ? B64(0.25 * double(k)) : B64(std::ldexp(double(k), -1000)));
  if (which == 0) return N(t, 0);
  if (which == 1) return N(t, Wrap(t, static_cast<i128>(k)));
  // true although the low bits, or all bits but the high ones, are zero
  int w = Width(t);
  return N(t, Wrap(t, static_cast<i128>(i % 31 + 1) << (w - 5)));
}
}  // namespace lang
