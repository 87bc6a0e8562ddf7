// C28: a program is the same program whether it is written as text, built node by node or cloned, and however often
// and by whichever engine its tree has been compiled before.
#include "stmtgen.h"
using namespace lang;

namespace {
bool thorough = false;
using Node = std::unique_ptr<ExecNode>;
using jitfusion::NoOPNode;

// ------------------------------------------------------------ trees built through the API
// append: arguments are added one by one where the class can do that
Node CallOf(bool append, const std::string& f, std::vector<Node> a) {
  if (!append) return Call(f, std::move(a));
  size_t keep = a.size() / 3;
  std::vector<Node> first;
  for (size_t i = 0; i < keep; i++) first.push_back(std::move(a[i]));
  auto n = std::make_unique<jitfusion::FunctionNode>(f, std::move(first));
  for (size_t i = keep; i < a.size(); i++) n->AppendArgs(std::move(a[i]));
  return n;
}
template <class... A>
Node CallV(bool append, const std::string& f, A... a) {
  std::vector<Node> v;
  (v.push_back(std::move(a)), ...);
  return CallOf(append, f, std::move(v));
}
template <class C>
Node ArgsNode(bool append, std::vector<Node> a) {
  if (!append) return std::make_unique<C>(std::move(a));
  auto n = std::make_unique<C>(std::vector<Node>{});
  for (auto& x : a) n->AppendArgs(std::move(x));
  return n;
}
Node Id(int i) { return ConstNode(N(kI32, static_cast<uint64_t>(i))); }
Node Build(const P& x, bool append) {
  std::vector<Node> c;
  for (auto& k : x->c) c.push_back(Build(k, append));
  Node ea = std::make_unique<jitfusion::EntryArgumentNode>();
  Node out = std::make_unique<jitfusion::OutputNode>();
  switch (x->k) {
    case K::kEv: return CallV(append, EvName(x->t), std::move(ea), Id(x->id));
    case K::kLd: return CallV(append, LdName(x->t), std::move(ea), Id(x->id));
    case K::kSv: return CallV(append, SvName(x->t), std::move(out), Id(x->id), CallV(append, LdName(x->t), std::move(ea), Id(x->id)));
    case K::kConst: return ConstNode(x->v);
    case K::kVar: return std::make_unique<jitfusion::RefNode>(x->name);
    case K::kUn: return UnNode(x->un, std::move(c[0]));
    case K::kBin: return BinNode(x->op, std::move(c[0]), std::move(c[1]));
    case K::kIf: return ArgsNode<jitfusion::IfNode>(append, std::move(c));
    case K::kSwitch: return ArgsNode<jitfusion::SwitchNode>(append, std::move(c));
    case K::kCall2: return CallV(append, Ev2Name(x->t), std::move(ea), Id(x->id), std::move(c[0]), std::move(c[1]));
    case K::kCtx: {
      Node cx = std::make_unique<jitfusion::ExecContextNode>();
      return CallV(append, CxName(x->t), std::move(c[0]), std::move(cx));
    }
    case K::kStore: return CallV(append, StName(x->t), std::move(out), Id(x->id), std::move(c[0]));
  }
  return nullptr;
}
Node Build(const Block& b, bool append);
Node Build(const St& s, bool append) {
  if (s.k != St::kWhen) return Build(s.x, append);
  std::vector<Node> a;
  for (auto& br : s.br) {
    a.push_back(Build(br.cond, append));
    a.push_back(Build(br.body, append));
  }
  if (s.has_else) a.push_back(Build(s.els, append));
  return std::make_unique<jitfusion::IfBlockNode>(std::move(a));
}
void Append(NoOPNode* n, const St& s, bool append) {
  Node x = Build(s, append);
  if (s.k == St::kLet) n->AppendArgs(s.name, std::move(x), true);
  else if (s.k == St::kAssign) n->AppendArgs(s.name, std::move(x));
  else n->AppendArgs(std::move(x));
}
Node Build(const Block& b, bool append) {
  if (append) {
    auto n = std::make_unique<NoOPNode>(std::vector<Node>{});
    for (auto& s : b) Append(n.get(), s, append);
    return n;
  }
  std::vector<jitfusion::VarInfo> vi;
  std::vector<Node> a;
  for (auto& s : b) {
    if (s.k == St::kLet || s.k == St::kAssign) vi.emplace_back(s.name, s.k == St::kLet);
    else vi.emplace_back();
    a.push_back(Build(s, append));
  }
  return std::make_unique<NoOPNode>(std::move(vi), std::move(a));
}
// members with their own variables each
Node Isolated(std::vector<Node> a) { return std::make_unique<NoOPNode>(std::move(a), true); }

// ------------------------------------------------------------ programs in all their forms
// the tree locations refer to the text, so it is kept for as long as the trees are used
std::deque<std::string>& Texts() {
  static std::deque<std::string> t;
  return t;
}
struct Form {
  std::string name;
  Node n;
};
Node FromText(const std::string& src, bool pipe, std::string* err) {
  Texts().push_back(src);
  athena::ProgramAstBuilder b;
  Node n;
  auto st = pipe ? b.BuildPipeline(Texts().back(), &n) : b.BuildExpression(Texts().back(), &n);
  if (!st.ok()) *err = st.ToString(), n = nullptr;
  return n;
}

// ------------------------------------------------------------ nodes of every kind
struct Gen {
  std::vector<T> types;
  int rot = 0;
  P Leaf(T t, int how = -1) {
    if (how < 0) how = rot++ % 4;
    if (how == 2 && t != T::kPtr) return Const(t);
    int id = static_cast<int>(types.size());
    types.push_back(t);
    return how % 2 ? LdX(t, id) : EvX(t, id);
  }
  P Const(T t) {
    rot++;
    Val v = Operand(t, rot % 5, 1);
    for (char& ch : v.s) ch = ch ? ch : '0';
    if (IsFloat(t)) v = N(t, t == kF32 ? B32(0.5F * static_cast<float>(rot % 7 + 1)) : B64(0.5 * (rot % 7 + 1)));
    if (t == kF32) v = N(t, B32(static_cast<float>(rot % 7 + 1)));
    return ConstX(v);
  }
};
const int kKinds = 31, kOuter = 28;
const char* KindName(int k) {
  static const char* extra[] = {"if", "switch of three", "switch of five", "call", "store", "call with context", "event", "load", "constant"};
  if (k < 4) return Uns()[static_cast<size_t>(k)].text;
  if (k < 22) return Ops()[static_cast<size_t>(k - 4)].text;
  return extra[k - 22];
}
T NumAt(int i) { return Nums()[static_cast<size_t>(i) % 10]; }
// slot(i, type, how): the i-th child
using SlotFn = std::function<P(int, T, int)>;
enum { kAny, kExact, kInt };  // how a child's type may differ: any numeric type, none, any integer type
P Make(Gen& g, int kind, T t, const SlotFn& slot) {
  bool num = IsNum(t);
  auto branch = [&](int i) { return slot(i, num && i % 3 == 2 ? NumAt(g.rot + i) : t, num ? kAny : kExact); };
  if (kind < 4) {
    Un u = Uns()[static_cast<size_t>(kind)].op;
    bool bits = u == Un::kBitNot;
    P a = num && !(bits && IsFloat(t)) ? slot(0, t, bits ? kInt : kAny) : nullptr;
    return a ? UnX(u, a) : nullptr;
  }
  if (kind < 22) {
    Op op = Ops()[static_cast<size_t>(kind - 4)].op;
    if (!num && op != Op::kAdd && !(t == kStr && IsRel(op))) return nullptr;
    bool bits = op == Op::kAnd || op == Op::kOr || op == Op::kXor || op == Op::kShl || op == Op::kShr;
    if (bits && IsFloat(t)) return nullptr;
    int how = bits ? kInt : num ? kAny : kExact;
    P a = slot(0, t, how);
    if (!a) return nullptr;
    P b = slot(1, bits ? Ints()[static_cast<size_t>(g.rot) % 8] : num ? NumAt(g.rot) : t, how);
    return b ? BinX(op, a, b) : nullptr;
  }
  auto all = [&](int n) -> std::vector<P> {
    std::vector<P> v;
    for (int i = 0; i < n; i++) {
      P x = i % 2 == 0 && i + 1 < n ? slot(i, NumAt(g.rot + 3), kAny) : branch(i);
      if (!x) return {};
      v.push_back(x);
    }
    return v;
  };
  switch (kind) {
    case 22: {
      auto v = all(3);
      return v.empty() ? nullptr : IfX(v);
    }
    case 23:
    case 24: {
      auto v = all(kind == 23 ? 3 : 5);
      return v.empty() ? nullptr : SwX(v);
    }
    case 25: {
      P a = slot(0, t, kExact), b = a ? slot(1, t, kExact) : nullptr;
      return b ? Call2X(t, 700 + g.rot % 90, a, b) : nullptr;
    }
    case 26: {
      P a = slot(0, t, kExact);
      return a ? StoreX(t, 800 + g.rot++ % 90, a) : nullptr;
    }
    case 27: {
      P a = slot(0, t, kExact);
      return a ? CtxX(t, a) : nullptr;
    }
    case 28: return g.Leaf(t, 0);
    case 29: return g.Leaf(t, 1);
    default: return g.Const(t);
  }
}
std::optional<T> StaticT(const P& x) {
  return TypeOf(x, [](const std::string&) -> std::optional<T> { return std::nullopt; });
}
const std::vector<T>& AllTypes() {
  static const std::vector<T> v = [] {
    std::vector<T> o;
    ForTypes([&](T t, auto*) { o.push_back(t); });
    return o;
  }();
  return v;
}
// a node of this kind with leaves below and this type
P Child(Gen& g, int kind, T t, int how) {
  for (size_t k = 0; k < AllTypes().size() + 1; k++) {
    T base = k == 0 ? t : AllTypes()[(k + static_cast<size_t>(g.rot)) % AllTypes().size()];
    Gen save = g;
    P x = Make(g, kind, base, [&](int, T st, int) { return g.Leaf(st); });
    if (x) {
      auto r = StaticT(x);
      if (r && (how == kExact ? *r == t : how == kInt ? IsInt(*r) : IsNum(*r))) return x;
    }
    g = save;
  }
  return nullptr;
}
int Slots(int kind) {
  if (kind < 4) return 1;
  if (kind < 22) return 2;
  static const int n[] = {3, 3, 5, 2, 1, 1, 0, 0, 0};
  return n[kind - 22];
}
bool HasStore(const P& x) {
  if (x->k == K::kStore || x->k == K::kSv) return true;
  for (auto& c : x->c)
    if (HasStore(c)) return true;
  return false;
}
Slot* In(T t, int i, int which) { return CachedSlot(t, i, which); }

// Expected and real behaviour of one entry under a few inputs.
struct Entry {
  bool pipe = false;
  P x;                      // an expression,
  std::vector<Block> members;  // or pipelines in order, each with its own variables
  std::vector<T> types;
  std::string text;
};
struct Out {
  bool ok = false;
  Val ret;
  Log stores, calls;
};
bool Same(const Out& a, const Out& b, bool pipe) {
  return a.ok == b.ok && (!a.ok || ((pipe || ref::Same(a.ret, b.ret)) && SameLog(a.stores, b.stores) && SameLog(a.calls, b.calls)));
}
std::string Show(const Out& o, bool pipe) {
  if (!o.ok) return "an error";
  return (pipe ? "" : Show(o.ret) + ", ") + "stores " + ShowLog(o.stores) + ", calls " + ShowLog(o.calls);
}
const int kInputs = 4;
void Inputs(const Entry& e, int as, Ev* ev) {
  for (size_t i = 0; i < e.types.size(); i++) {
    int which = as == 0 ? 1 : as == 1 ? static_cast<int>(i % 2) : as == 2 ? static_cast<int>((i + 1) % 2) : static_cast<int>(i % 3 == 0 ? 2 : i % 3 == 1);
    ev->a[i] = In(e.types[i], static_cast<int>(i), which);
  }
}
// nullopt: undefined
std::optional<Out> Expected(const Entry& e, const Ev& ev) {
  Out o;
  o.ok = true;
  auto one = [&](const std::function<bool(Machine&)>& f) {
    Machine m;
    m.in = &ev;
    if (!f(m)) return false;
    o.stores.insert(o.stores.end(), m.stores.begin(), m.stores.end());
    o.calls.insert(o.calls.end(), m.calls.begin(), m.calls.end());
    return true;
  };
  if (!e.pipe) {
    if (!one([&](Machine& m) {
          auto v = m.Eval(e.x);
          if (v) o.ret = *v;
          return v.has_value();
        }))
      return std::nullopt;
  } else {
    for (auto& b : e.members)
      if (!one([&](Machine& m) { return Exec(m, b); })) return std::nullopt;
  }
  return o;
}
using RunFn = std::function<Status(Ev&, RetType*, Recorder*)>;
std::string Judge(const Entry& e, const RunFn& run, vf::Ctx& c, const std::vector<int>& inputs) {
  for (int as : inputs) {
    Ev ev;
    Log calls;
    ev.log = &calls;
    Inputs(e, as, &ev);
    auto want = Expected(e, ev);
    if (!want) {
      c.Extra("runs with an undefined result");
      continue;
    }
    Out got;
    Recorder rec;
    RetType r;
    auto st = run(ev, &r, &rec);
    got.ok = st.ok();
    if (st.ok() && !e.pipe) got.ret = FromRet(r);
    got.stores = rec.log;
    got.calls = calls;
    c.Eval();
    if (!Same(*want, got, e.pipe)) {
      std::string in;
      for (size_t i = 0; i < e.types.size(); i++) in += (i ? ", " : "") + Show(ev.a[i]->val());
      return "with operands " + in + ": " + (st.ok() ? "" : st.ToString() + " ") + Show(got, e.pipe) + "; expected " + Show(*want, e.pipe);
    }
    c.Outcome(vf::Hash(Show(*want, e.pipe)));
  }
  return "";
}
RunFn RunSingle(ExecEngine* e, bool pipe) {
  return [=](Ev& ev, RetType* r, Recorder* rec) { return pipe ? e->Execute(&ev, static_cast<void*>(rec)) : e->Execute(&ev, r); };
}
RunFn RunBatch(BatchExecEngine* e, size_t i, bool pipe) {
  return [=](Ev& ev, RetType* r, Recorder* rec) { return pipe ? e->ExecuteAt(i, &ev, static_cast<void*>(rec)) : e->ExecuteAt(i, &ev, r); };
}

// All forms of an expression or pipeline.  `subst` is the same expression spelt with variables.
struct Forms {
  std::vector<Form> f;
  std::string bad;
};
Forms AllForms(const Entry& e, const std::string& subst) {
  Forms o;
  std::string err;
  auto add = [&](const std::string& n, Node x) { o.f.push_back({n, std::move(x)}); };
  auto api = [&](bool append) { return e.pipe ? Build(e.members[0], append) : Build(e.x, append); };
  Node t = FromText(e.text, e.pipe, &err);
  if (!t) {
    o.bad = e.text + " does not parse: " + err;
    return o;
  }
  Node tc = t->Clone();
  Node tcc = tc->Clone();
  Node a = api(false), b = api(true);
  Node ac = a->Clone(), bc = b->Clone();
  if (tc->ToString() != t->ToString() || ac->ToString() != a->ToString()) o.bad = "a clone of " + e.text + " prints differently";
  add("text", std::move(t));
  add("clone of the text's tree", std::move(tc));
  add("clone of a clone", std::move(tcc));
  add("built node by node", std::move(a));
  add("clone of the built tree", std::move(ac));
  add("built by appending", std::move(b));
  // the original is gone before the clone is compiled
  add("clone of an appended tree", std::move(bc));
  if (!subst.empty()) {
    Node s = FromText(subst, false, &err);
    if (!s) {
      o.bad = subst + " does not parse: " + err;
      return o;
    }
    Node sc = s->Clone();
    add("with variables: " + subst, std::move(s));
    add("clone of the form with variables: " + subst, std::move(sc));
  }
  return o;
}
struct Item {
  Entry e;
  std::string subst;
};
// every form of every item in one module; a few also alone
void Compare(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, std::vector<Item>& items) {
  struct Ref {
    size_t item;
    std::string name, printed;
  };
  std::vector<Ref> refs;
  std::vector<Node> nodes;
  for (size_t i = 0; i < items.size(); i++) {
    c.Sub(items[i].e.text);
    auto fs = AllForms(items[i].e, items[i].subst);
    if (!fs.bad.empty()) {
      c.Fail(fs.bad);
      if (fs.f.empty()) continue;
    }
    for (auto& f : fs.f) {
      refs.push_back({i, f.name, f.n->ToString()});
      nodes.push_back(std::move(f.n));
    }
  }
  if (nodes.empty()) return;
  c.Sub("the module of all");
  BatchExecEngine eng;
  auto st = eng.Compile(nodes, reg);
  if (!st.ok()) {
    // find the culprits
    bool found = false;
    for (size_t k = 0; k < nodes.size(); k++) {
      ExecEngine one;
      auto s1 = one.Compile(nodes[k], reg);
      if (!s1.ok()) c.Fail(items[refs[k].item].e.text + " as " + refs[k].name + " is refused: " + s1.ToString()), found = true;
    }
    if (!found) c.Fail("module refused: " + st.ToString());
    return;
  }
  for (size_t k = 0; k < nodes.size(); k++) {
    auto& it = items[refs[k].item];
    c.Sub(it.e.text);
    auto m = Judge(it.e, RunBatch(&eng, k, it.e.pipe), c, {0, 1, 2, 3});
    if (!m.empty()) c.Fail(it.e.text + " as " + refs[k].name + " " + m);
    if (nodes[k]->ToString() != refs[k].printed) c.Fail(it.e.text + " as " + refs[k].name + " prints differently after it was compiled and executed");
    c.SampleOf(refs[k].name.substr(0, 12), it.e.text);
  }
  // the very same trees, alone
  size_t step = thorough ? 7 : 43;
  for (size_t k = static_cast<size_t>(c.shard) % 5; k < nodes.size(); k += step) {
    auto& it = items[refs[k].item];
    c.Sub("alone: " + it.e.text);
    ExecEngine one;
    auto s1 = one.Compile(nodes[k], reg);
    std::string m = s1.ok() ? Judge(it.e, RunSingle(&one, it.e.pipe), c, {0, 2}) : "is refused: " + s1.ToString();
    if (!m.empty()) c.Fail("after a compilation in a module, alone, " + it.e.text + " as " + refs[k].name + " " + m);
  }
}

// ------------------------------------------------------------ depth 2
// spells the children as variables
std::string Subst(const P& x) {
  std::string o;
  X top = *x;
  for (size_t i = 0; i < top.c.size(); i++) {
    bool let = (i + x->c.size()) % 2;
    std::string n = "v" + std::to_string(i);
    // a child is itself spelt with variables
    X ch = *top.c[i];
    for (size_t j = 0; j < ch.c.size(); j++) {
      std::string m = "w" + std::to_string(j);
      o += m + " = " + Text(ch.c[j]) + "; ";
      ch.c[j] = VarX(m);
    }
    o += (let ? "let " : "") + n + " = " + Text(std::make_shared<const X>(ch)) + "; ";
    top.c[i] = VarX(n);
  }
  return o + Text(std::make_shared<const X>(top)) + ";";
}
void Depth2(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto& ts = AllTypes();
  for (int kind = 0; kind < kOuter; kind++) {
    int bases = thorough ? static_cast<int>(ts.size()) : 4, done = 0;
    for (size_t q = 0; q < ts.size() && done < bases; q++) {
      T base = ts[(q * 5 + static_cast<size_t>(kind)) % ts.size()];
      {
        Gen g;
        if (!Make(g, kind, base, [&](int, T t, int) { return g.Leaf(t); })) continue;
      }
      done++;
      if (!c.Begin([&] { return std::string("node ") + KindName(kind) + " over " + Name(base); })) continue;
      std::vector<Item> items;
      auto put = [&](Gen& g, P x) {
        if (!x) return;
        auto t = StaticT(x);
        if (!t) Die("ill-typed: " + Text(x));
        Item it;
        it.e.types = g.types;
        if (HasStore(x)) {
          it.e.pipe = true;
          it.e.members = {{Assign("r", x), ExprSt(StoreX(*t, 999, VarX("r")))}};
          it.e.text = Text(it.e.members[0]);
        } else {
          it.e.x = x;
          it.e.text = Text(x) + ";";
          it.subst = Subst(x);
        }
        items.push_back(std::move(it));
      };
      for (int s = 0; s < Slots(kind); s++)
        for (int ck = 0; ck < kKinds; ck++) {
          Gen g;
          g.rot = ck * 3 + s + kind;
          put(g, Make(g, kind, base, [&](int i, T t, int how) { return i == s ? Child(g, ck, t, how) : g.Leaf(t); }));
        }
      // every slot holds a node
      for (int ck = 0; ck < kKinds; ck++) {
        Gen g;
        g.rot = ck;
        put(g, Make(g, kind, base, [&](int i, T t, int how) {
              for (int d = 0; d < kKinds; d++)
                if (P x = Child(g, (ck + i * 7 + d) % kKinds, t, how)) return x;
              return g.Leaf(t);
            }));
      }
      for (size_t lo = 0; lo < items.size(); lo += 24) {
        std::vector<Item> part(items.begin() + static_cast<long>(lo), items.begin() + static_cast<long>(std::min(lo + 24, items.size())));
        Compare(c, reg, part);
      }
    }
  }
}
// one variable used at many places: the copies are independent
void Shared(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (int ck = 0; ck < 28; ck++) {
    if (ck == 26) continue;
    if (!c.Begin([&] { return std::string("one variable, many uses: ") + KindName(ck); })) continue;
    std::vector<Item> items;
    for (T t : {kI32, kF64, kStr, kU8, T::kI64List, kStrL, kI16, kU64}) {
      Gen g;
      g.rot = ck;
      P x = Child(g, ck, t, kExact);
      if (!x) continue;
      for (int use = 0; use < 6; use++) {
        Item it;
        P v = VarX("v");
        bool num = IsNum(t);
        auto shape = [&](const P& a) -> P {
          switch (use) {
            case 0: return BinX(Op::kAdd, a, a);
            case 1: return Call2X(t, 700, a, a);
            case 2: return num ? IfX({a, a, a}) : IfX({ConstX(N(kI32, 1)), a, a});
            case 3: return num ? BinX(Op::kAdd, CtxX(t, a), UnX(Un::kNot, a)) : BinX(Op::kAdd, BinX(Op::kAdd, a, a), BinX(Op::kAdd, a, a));
            case 4: return num ? BinX(Op::kLand, a, BinX(Op::kLor, a, a)) : BinX(Op::kAdd, CtxX(t, a), a);
            default: return num ? SwX({a, a, a, a, a}) : SwX({ConstX(N(kU8, 0)), a, a});
          }
        };
        it.e.x = shape(x);
        it.e.types = g.types;
        it.e.text = Text(it.e.x) + ";";
        // v is re-used by another variable, and another one is never used
        it.subst = "v = " + Text(x) + "; let u = v; w = u; unused = w; " + Text(shape(VarX(use % 2 ? "w" : "u"))) + ";";
        items.push_back(std::move(it));
      }
    }
    Compare(c, reg, items);
  }
}

// ------------------------------------------------------------ pipelines
void Pipes(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const T types[] = {kI32, kStr, kF64, kU8, T::kI64List, kI16, kF32, kStrL, kU64, T::kF32List};
  for (int weight = 1; weight <= (thorough ? 4 : 3); weight++) {
    Enum en{weight < 4 ? 12 : 7, 3, {}, {}};
    auto& blocks = en.Blocks(weight);
    for (size_t lo = 0; lo < blocks.size(); lo += 12) {
      if (!c.Begin([&] { return "pipelines of weight " + std::to_string(weight) + " from " + std::to_string(lo); })) continue;
      std::vector<Item> items;
      for (size_t i = lo; i < std::min(lo + 12, blocks.size()); i++) {
        Maker mk;
        mk.t = types[i % 10];
        mk.condform = static_cast<int>(i / 10 % 5);
        Block b{Assign("a", mk.Load(mk.t)), Assign("b", mk.Load(mk.t))};
        Block in = mk.Make(blocks[i]);
        b.insert(b.end(), in.begin(), in.end());
        Checker ck;
        if (!ck.Run(b)) continue;
        b.push_back(ExprSt(mk.Store(mk.t, VarX("a"))));
        b.push_back(ExprSt(mk.Store(mk.t, VarX("b"))));
        if (ck.Find("c")) b.push_back(ExprSt(mk.Store(mk.t, VarX("c"))));
        Item it;
        it.e.pipe = true;
        it.e.members = {b};
        it.e.types = mk.types;
        it.e.text = Text(b);
        items.push_back(std::move(it));
      }
      Compare(c, reg, items);
    }
  }
}
// Programs the static rules reject are rejected in every form.  A clone carries the original's locations, so that it is
// refused with the same words.
void Refused(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const Entry& e) {
  c.Sub(e.text);
  c.Eval();
  std::string err;
  Node t = FromText(e.text, e.pipe, &err);
  struct F {
    std::string name;
    Node n;
    int same;  // index of the form whose message must be equal
  };
  std::vector<F> fs;
  auto api = [&](bool append) { return e.pipe ? Build(e.members[0], append) : Build(e.x, append); };
  auto both = [&](const std::string& n, Node x) {
    Node k = x->Clone();
    Node kk = k->Clone();
    int at = static_cast<int>(fs.size());
    fs.push_back({n, std::move(x), -1});
    fs.push_back({"clone of " + n, std::move(k), at});
    fs.push_back({"clone of a clone of " + n, std::move(kk), at});
  };
  if (t) both("text", std::move(t));
  both("built tree", api(false));
  both("appended tree", api(true));
  std::vector<std::string> msg;
  for (auto& f : fs) {
    ExecEngine one;
    auto st = one.Compile(f.n, reg);
    if (st.ok()) {
      c.Fail("accepted as " + f.name + " although the program is not valid: " + e.text);
      msg.emplace_back();
      continue;
    }
    msg.push_back(st.ToString());
    if (f.same >= 0 && msg[static_cast<size_t>(f.same)] != msg.back())
      c.Fail(e.text + " as " + f.name + " is refused with other words: " + msg.back() + " instead of " + msg[static_cast<size_t>(f.same)]);
    // again, and in a batch
    auto again = one.Compile(f.n, reg);
    if (again.ToString() != msg.back()) c.Fail(e.text + " as " + f.name + " is refused with other words the second time: " + again.ToString());
    std::vector<Node> v;
    v.push_back(f.n->Clone());
    BatchExecEngine be;
    if (be.Compile(v, reg).ok()) c.Fail("accepted by the batch engine as " + f.name + ": " + e.text);
  }
  if (!msg.empty()) c.Outcome(msg[0]);
  c.Extra("programs refused in every form");
}
void Rejects(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const T types[] = {kI32, kStr, kF64, kU8};
  for (int weight = 1; weight <= (thorough ? 3 : 2); weight++) {
    Enum en{10, 2, {}, {}};
    auto& blocks = en.Blocks(weight);
    for (size_t lo = 0; lo < blocks.size(); lo += 12) {
      if (!c.Begin([&] { return "rejected pipelines of weight " + std::to_string(weight) + " from " + std::to_string(lo); })) continue;
      for (size_t i = lo; i < std::min(lo + 12, blocks.size()); i++) {
        Maker mk;
        mk.alphabet = 1;
        mk.t = types[i % 4];
        Block b{i % 2 ? Assign("a", mk.Load(mk.t)) : Let("b", mk.Load(mk.t))};
        Block in = mk.Make(blocks[i]);
        b.insert(b.end(), in.begin(), in.end());
        Checker ck;
        if (ck.Run(b)) continue;
        Entry e;
        e.pipe = true;
        e.members = {b};
        e.text = Text(b);
        Refused(c, reg, e);
      }
    }
  }
  for (int kind = 0; kind < kOuter; kind++) {
    if (!c.Begin([&] { return std::string("ill-typed operand of ") + KindName(kind); })) continue;
    for (T base : {kI32, kStr, kF64, T::kU8List})
      for (int s = 0; s < Slots(kind); s++)
        for (T wrong : {kStr, kI64, T::kF32List, kStrL})
          for (int depth = 0; depth < 2; depth++) {
            Gen g;
            P x = Make(g, kind, base, [&](int i, T t, int) {
              if (i != s) return g.Leaf(t);
              return depth ? IfX({g.Leaf(kI32), g.Leaf(wrong), g.Leaf(wrong)}) : g.Leaf(wrong);
            });
            if (!x || StaticT(x)) continue;
            Entry e;
            e.x = x;
            e.text = Text(x) + ";";
            if (HasStore(x)) {
              e.pipe = true;
              e.members = {{ExprSt(x)}};
              e.text = Text(e.members[0]);
            }
            Refused(c, reg, e);
          }
  }
}
// ------------------------------------------------------------ members with separate variables
Block Member(int k, int m, std::vector<T>* types) {
  // operand i: 0 i32, 1 f64, 2 string, 3 u8 condition
  *types = {kI32, kF64, kStr, kU8, kI32};
  int st = m * 100;
  auto L = [](T t, int i) { return LdX(t, i); };
  auto put = [&](T t, P x) { return ExprSt(StoreX(t, st++, std::move(x))); };
  switch (k) {
    case 0: return {Assign("a", L(kI32, 0)), put(kI32, VarX("a"))};
    case 1: return {Assign("a", L(kF64, 1)), put(kF64, VarX("a"))};
    case 2: return {Let("a", L(kStr, 2)), put(kStr, VarX("a"))};
    case 3: return {Let("a", L(kI32, 4)), Assign("b", VarX("a")), put(kI32, VarX("b"))};
    case 4: {
      St w;
      w.k = St::kWhen;
      w.br.push_back({L(kU8, 3), {Assign("a", L(kI32, 4)), Let("c", L(kStr, 2)), put(kStr, VarX("c"))}});
      w.has_else = true;
      w.els = {Assign("c", L(kF64, 1)), put(kF64, VarX("c"))};
      return {Assign("a", L(kI32, 0)), w, put(kI32, VarX("a"))};
    }
    case 5: {
      St w;
      w.k = St::kWhen;
      w.br.push_back({L(kU8, 3), {Assign("a", BinX(Op::kAdd, VarX("a"), VarX("a")))}});
      return {Assign("a", L(kStr, 2)), w, put(kStr, VarX("a"))};
    }
    case 6: return {put(kI32, L(kI32, 0))};
    case 7: return {Assign("a", StoreX(kI32, st++, L(kI32, 0))), put(kI32, VarX("a"))};
    case 8: return {Assign("a", L(kI32, 0)), Assign("a", BinX(Op::kAdd, VarX("a"), L(kI32, 4))), put(kI32, VarX("a"))};
    case 9: return {Assign("a", EvX(kI32, 4)), Assign("c", L(kF64, 1)), put(kI32, VarX("a")), put(kF64, VarX("c"))};
    // rejected
    case 10: return {put(kI32, VarX("a"))};
    case 11: return {Assign("a", L(kI32, 0)), Assign("a", L(kF64, 1))};
    case 12: return {Let("a", L(kI32, 0)), Assign("a", L(kI32, 4))};
    default: return {put(kF64, VarX("c"))};
  }
}
void Groups(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const int good = 10, all = 14;
  for (int i = 0; i < all; i++)
    for (int j = 0; j < all; j++) {
      if (!thorough && i >= good && j >= good) continue;
      if (!c.Begin([&] { return "members " + std::to_string(i) + " and " + std::to_string(j); })) continue;
      for (int shape = 0; shape < 4; shape++) {
        std::vector<int> ks{i, j};
        if (shape == 1) ks = {i, j, (i * 3 + j) % good};
        if (shape == 2) ks = {(i + j * 5) % good, i, j, i};
        if (shape == 3) ks = {i, j, i};
        Entry e;
        e.pipe = true;
        bool valid = true;
        for (size_t m = 0; m < ks.size(); m++) {
          e.members.push_back(Member(ks[m], static_cast<int>(m), &e.types));
          valid = valid && ks[m] < good;
          e.text += "{ " + Text(e.members.back()) + "} ";
        }
        c.Sub(e.text);
        auto make = [&](int how) {
          std::vector<Node> v;
          for (size_t m = 0; m < ks.size(); m++) {
            std::string err;
            if (how == 2) {
              Node t = FromText(Text(e.members[m]), true, &err);
              v.push_back(t ? std::move(t) : Build(e.members[m], false));
            } else {
              v.push_back(Build(e.members[m], how == 1));
            }
          }
          if (shape == 3) {  // a group within a group
            std::vector<Node> in;
            in.push_back(std::move(v[1]));
            in.push_back(std::move(v[2]));
            std::vector<Node> o;
            o.push_back(std::move(v[0]));
            o.push_back(Isolated(std::move(in)));
            return Isolated(std::move(o));
          }
          if (how == 1) {
            auto n = std::make_unique<NoOPNode>(std::vector<Node>{}, true);
            for (auto& x : v) n->AppendArgs(std::move(x));
            return Node(std::move(n));
          }
          return Isolated(std::move(v));
        };
        std::vector<Node> fs;
        std::vector<std::string> names;
        for (int how = 0; how < 3; how++) {
          static const char* hn[] = {"built group", "appended group", "group of texts"};
          fs.push_back(make(how));
          names.push_back(hn[how]);
          fs.push_back(fs.back()->Clone());
          names.push_back(std::string("clone of ") + hn[how]);
        }
        for (size_t k = 0; k < fs.size(); k += valid ? fs.size() : 1) {
          BatchExecEngine be;
          std::vector<Node> one;
          if (!valid) one.push_back(std::move(fs[k]));
          auto st = be.Compile(valid ? fs : one, reg);
          c.Eval();
          if (st.ok() != valid) {
            c.Fail("group " + e.text + (valid ? "is refused: " + st.ToString() : "is accepted as " + names[k] + " although a member is not valid"));
            break;
          }
          if (!valid) continue;
          for (size_t q = 0; q < fs.size(); q++) {
            // the stores of each member in order; members among each other are not ordered
            for (int as = 0; as < 3; as++) {
              Ev ev;
              Log calls;
              ev.log = &calls;
              Inputs(e, as, &ev);
              Recorder rec;
              auto s2 = be.ExecuteAt(q, &ev, static_cast<void*>(&rec));
              bool ok = s2.ok();
              size_t seen = 0;
              std::string want;
              for (size_t m = 0; m < ks.size(); m++) {
                Machine mc;
                mc.in = &ev;
                if (!Exec(mc, e.members[m])) Die("undefined member");
                Log mine;
                for (auto& x : rec.log)
                  if (x.first / 100 == static_cast<int>(m)) mine.push_back(x);
                seen += mine.size();
                ok = ok && SameLog(mine, mc.stores);
                want += ShowLog(mc.stores);
              }
              c.Eval();
              if (!ok || seen != rec.log.size()) c.Fail(names[q] + " " + e.text + ": " + s2.ToString() + ", stores " + ShowLog(rec.log) + "; expected " + want);
              c.Outcome(want);
            }
          }
        }
      }
    }
}

// ------------------------------------------------------------ histories of one tree
struct HP {
  Entry e;
  std::function<Node()> make;
  std::string name;
};
std::vector<HP> HistPrograms() {
  std::vector<HP> v;
  auto expr = [&](P x, std::vector<T> types) {
    HP h;
    h.e.x = x;
    h.e.types = types;
    h.e.text = Text(x) + ";";
    h.name = h.e.text;
    Entry e = h.e;
    int how = static_cast<int>(v.size() % 3);
    h.make = [e, how] {
      std::string err;
      return how == 0 ? FromText(e.text, false, &err) : Build(e.x, how == 1);
    };
    v.push_back(std::move(h));
  };
  auto pipe = [&](Block b, std::vector<T> types) {
    HP h;
    h.e.pipe = true;
    h.e.members = {b};
    h.e.types = types;
    h.e.text = Text(b);
    h.name = h.e.text;
    Entry e = h.e;
    int how = static_cast<int>(v.size() % 3);
    h.make = [e, how] {
      std::string err;
      return how == 0 ? FromText(e.text, true, &err) : Build(e.members[0], how == 1);
    };
    v.push_back(std::move(h));
  };
  auto group = [&](std::vector<int> ks) {
    HP h;
    h.e.pipe = true;
    for (size_t m = 0; m < ks.size(); m++) {
      h.e.members.push_back(Member(ks[m], static_cast<int>(m), &h.e.types));
      h.e.text += "{ " + Text(h.e.members.back()) + "} ";
    }
    h.name = "group " + h.e.text;
    Entry e = h.e;
    h.make = [e] {
      std::vector<Node> n;
      for (auto& b : e.members) n.push_back(Build(b, false));
      return Isolated(std::move(n));
    };
    v.push_back(std::move(h));
  };
  auto L = [](T t, int i) { return LdX(t, i); };
  auto E = [](T t, int i) { return EvX(t, i); };
  const std::vector<T> ty{kI32, kF64, kStr, T::kI64List, kU8, kI16, kI32, kStrL};
  P i = L(kI32, 0), f = L(kF64, 1), s = L(kStr, 2), li = L(T::kI64List, 3), u = L(kU8, 4), sh = L(kI16, 5), j = E(kI32, 6), sl = L(kStrL, 7);
  expr(i, ty);
  expr(ConstX(S("text")), ty);
  expr(ConstX(ref::L(T::kI64List, {1, 2, 3})), ty);
  expr(ConstX(SL({"a", "b"})), ty);
  expr(UnX(Un::kMinus, u), ty);
  expr(UnX(Un::kNot, f), ty);
  expr(BinX(Op::kAdd, i, f), ty);
  expr(BinX(Op::kAdd, s, s), ty);
  expr(BinX(Op::kAdd, li, li), ty);
  expr(BinX(Op::kDiv, f, i), ty);
  expr(BinX(Op::kShl, u, ConstX(N(kI32, 1))), ty);
  expr(BinX(Op::kLt, i, f), ty);
  expr(BinX(Op::kEq, s, ConstX(S("s2"))), ty);
  expr(BinX(Op::kLand, i, j), ty);
  expr(BinX(Op::kLor, f, BinX(Op::kLand, j, u)), ty);
  expr(IfX({u, i, f}), ty);
  expr(IfX({u, s, ConstX(S("other"))}), ty);
  expr(SwX({u, i, sh, f, j}), ty);
  expr(SwX({i, sl, sl}), ty);
  expr(Call2X(kI32, 700, i, BinX(Op::kMul, i, j)), ty);
  expr(CtxX(kStr, BinX(Op::kAdd, s, ConstX(S("!")))), ty);
  expr(CtxX(T::kI64List, li), ty);
  auto put = [](T t, int id, P x) { return ExprSt(StoreX(t, id, std::move(x))); };
  pipe({put(kI32, 1, i)}, ty);
  pipe({Assign("a", i), put(kI32, 1, VarX("a")), Assign("a", j), put(kI32, 2, VarX("a"))}, ty);
  pipe({Let("a", f), Assign("b", BinX(Op::kAdd, VarX("a"), i)), put(kF64, 1, VarX("b"))}, ty);
  pipe({Assign("a", StoreX(kStr, 1, s)), put(kI32, 2, VarX("a"))}, ty);
  {
    St w;
    w.k = St::kWhen;
    w.br.push_back({u, {Assign("a", j), Let("c", s), put(kStr, 3, VarX("c"))}});
    w.br.push_back({BinX(Op::kLt, i, f), {put(kI32, 4, VarX("a"))}});
    w.has_else = true;
    w.els = {Assign("a", ConstX(N(kI32, 9)))};
    pipe({Assign("a", i), w, put(kI32, 5, VarX("a"))}, ty);
    St o;
    o.k = St::kWhen;
    o.br.push_back({i, {Assign("a", ConstX(N(kI32, 4))), w}});
    pipe({Assign("a", i), o, put(kI32, 6, VarX("a"))}, ty);
  }
  group({0, 1});
  group({2, 4, 3});
  group({5, 5, 9});
  return v;
}
struct Reg3 {
  std::unique_ptr<FunctionRegistry> full = NewRegistry(), bare = NewRegistry(false), other = NewRegistry(false);
  Reg3() {
    AddStores(full.get());
    AddEvents(full.get());
    // the same names with other result types
    auto ld = [&](const char* n, T t, void* f) {
      if (!other->RegisterReadOnlyCFunc(FunctionSignature(n, {T::kPtr, kI32}, t), f).ok()) Die(n);
    };
    ld("ld_i32", kF64, (void*)+[](void*, int32_t i) { return i + 0.5; });
    ld("ld_f64", kU8, (void*)+[](void*, int32_t i) { return static_cast<uint8_t>(i); });
    ld("ld_u8", kI64, (void*)+[](void*, int32_t i) { return static_cast<int64_t>(i); });
    ld("ld_i16", kF32, (void*)+[](void*, int32_t i) { return static_cast<float>(i); });
    RegLd(other.get(), kStr, (void*)LdList<jitfusion::StringStruct>);
    ld("ld_i64list", T::kU8List, (void*)LdList<jitfusion::U8ListStruct>);
    ld("ld_stringlist", kStr, (void*)LdList<jitfusion::StringStruct>);
    AddStores(other.get());
    AddEvents(other.get());
  }
};
// the tree is compiled once; "" or what is wrong
std::string CompileAs(vf::Ctx& c, const HP& h, Node* n, bool batch, const std::unique_ptr<FunctionRegistry>& reg, const std::vector<int>& inputs) {
  if (!batch) {
    ExecEngine e;
    auto st = e.Compile(*n, reg);
    if (!st.ok()) return "is refused: " + st.ToString();
    return Judge(h.e, RunSingle(&e, h.e.pipe), c, inputs);
  }
  std::vector<Node> v;
  v.push_back(LdNode(kU16, 0));
  v.push_back(std::move(*n));
  v.push_back(Build(BinX(Op::kAdd, LdX(kF64, 0), LdX(kI32, 1)), false));
  BatchExecEngine e;
  auto st = e.Compile(v, reg);
  *n = std::move(v[1]);
  if (!st.ok()) return "is refused in a batch: " + st.ToString();
  return Judge(h.e, RunBatch(&e, 1, h.e.pipe), c, inputs);
}
// what a fresh tree gives with the other registry
struct Fresh {
  bool ok;
  T ret;
};
Fresh Other(Node& n, const std::unique_ptr<FunctionRegistry>& reg) {
  std::vector<Node> v;
  v.push_back(std::move(n));
  BatchExecEngine e;
  auto st = e.Compile(v, reg);
  n = std::move(v[0]);
  return {st.ok(), st.ok() ? e.GetReturnType(0) : T::kUnknown};
}
const char* kOps[] = {"compile alone", "compile in a batch", "compile without its functions", "compile with other result types", "replace by a clone", "print"};
void Histories(vf::Ctx& c) {
  Reg3 rs;
  auto ps = HistPrograms();
  std::vector<Fresh> bare, other;
  for (auto& h : ps) {
    Node n = h.make();
    if (!n) Die("does not parse: " + h.name);
    bare.push_back(Other(n, rs.bare));
    n = h.make();
    other.push_back(Other(n, rs.other));
  }
  int depth = thorough ? 4 : 3;
  for (size_t p = 0; p < ps.size(); p++)
    for (int a = 0; a < 6; a++)
      for (int b = 0; b < 6; b++) {
        if (!c.Begin([&] { return "histories of program " + std::to_string(p) + " starting with " + kOps[a] + ", " + kOps[b]; })) continue;
        std::vector<std::vector<int>> hs{{a, b}};
        if (b == 0) hs.push_back({a});
        if (b == 0 && a == 0) hs.push_back({});
        for (int x = 0; x < 6; x++) {
          if (thorough || (p + static_cast<size_t>(a + b + x)) % 4 == 0) hs.push_back({a, b, x});
          if (depth > 3)
            for (int y = 0; y < 6; y++)
              if ((p + static_cast<size_t>(a + b + x + y)) % 6 == 0) hs.push_back({a, b, x, y});
        }
        for (auto& h : hs) {
          std::string name = ps[p].name + " after";
          Node n = ps[p].make();
          std::string printed = n->ToString();
          bool bad = false;
          for (size_t k = 0; k <= h.size() && !bad; k++) {
            bool last = k == h.size();
            // the last step compiles
            int op = last ? static_cast<int>((p + k + static_cast<size_t>(a)) % 2) : h[k];
            c.Sub(name + (last ? " then " : " ") + kOps[op]);
            c.Transition();
            std::string m;
            switch (op) {
              case 0:
              case 1: m = CompileAs(c, ps[p], &n, op == 1, rs.full, last ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{static_cast<int>(k % 4)}); break;
              case 2: {
                auto r = Other(n, rs.bare);
                if (r.ok != bare[p].ok || r.ret != bare[p].ret) m = r.ok ? "is accepted" : "is refused";
                break;
              }
              case 3: {
                auto r = Other(n, rs.other);
                if (r.ok != other[p].ok || r.ret != other[p].ret) m = std::string(r.ok ? "is accepted" : "is refused") + " with result type " + Name(r.ret);
                break;
              }
              case 4: n = n->Clone(); break;
              default: break;
            }
            if (n->ToString() != printed) m += " prints differently";
            if (!m.empty()) {
              c.Fail(name + ", on " + kOps[op] + ", " + m);
              bad = true;
            }
            name += std::string(k ? ", " : " ") + kOps[op];
          }
          c.Trace();
          c.Extra("histories of one tree");
        }
      }
}
// A tree that grows after it was compiled, and clones that do not grow with it.
void Growing(vf::Ctx& c) {
  Reg3 rs;
  const std::vector<T> ty{kI32, kF64, kStr, kI32, kU8};
  std::vector<St> steps{Assign("a", LdX(kI32, 0)), ExprSt(StoreX(kI32, 1, VarX("a"))), Assign("a", BinX(Op::kAdd, VarX("a"), EvX(kI32, 3))),
                        Let("s", LdX(kStr, 2)), ExprSt(StoreX(kStr, 2, VarX("s")))};
  St w;
  w.k = St::kWhen;
  w.br.push_back({LdX(kU8, 4), {Assign("a", ConstX(N(kI32, 77))), ExprSt(StoreX(kI32, 3, VarX("a")))}});
  steps.push_back(w);
  // every sequence of the steps, with a clone and a compilation after each step
  std::vector<int> perm{0, 1, 2, 3, 4, 5};
  do {
    if (perm[0] != 0 && perm[0] != 3) continue;
    Block b;
    bool ok = true;
    for (int k : perm) {
      b.push_back(steps[static_cast<size_t>(k)]);
      Checker ck;
      ok = ok && ck.Run(b);
    }
    if (!ok) continue;
    if (!c.Begin([&] { return "growing tree " + Text(b); })) continue;
    auto root = std::make_unique<NoOPNode>(std::vector<Node>{});
    NoOPNode* raw = root.get();
    Node n = std::move(root);
    HP h;
    h.e.pipe = true;
    h.e.types = ty;
    h.e.members.emplace_back();
    std::vector<std::pair<HP, Node>> old;
    for (size_t k = 0; k < b.size(); k++) {
      Append(raw, b[k], false);
      h.e.members[0].push_back(b[k]);
      h.e.text = Text(h.e.members[0]);
      c.Sub(h.e.text);
      auto m = CompileAs(c, h, &n, k % 2 == 0, rs.full, {0, 1, 2, 3});
      if (!m.empty()) c.Fail("grown tree " + h.e.text + " " + m);
      old.emplace_back(h, n->Clone());
      c.Transition();
    }
    for (auto& [hp, cl] : old) {
      auto m = CompileAs(c, hp, &cl, true, rs.full, {0, 1});
      if (!m.empty()) c.Fail("clone of a tree that grew afterwards, " + hp.e.text + " " + m);
    }
    c.Trace();
  } while (std::next_permutation(perm.begin(), perm.end()));
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string& mode) {
    thorough = c.thorough;
    auto reg = NewRegistry();
    AddStores(reg.get());
    AddEvents(reg.get());
    if (mode == "C28") Depth2(c, reg), Shared(c, reg), Groups(c, reg), Pipes(c, reg), Rejects(c, reg), Growing(c), Histories(c);
  });
}
