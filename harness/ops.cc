// C01: scalar operators on run-time operands.  C02: literal / run-time / variable operands agree, depth-2 trees.
// C27: strict IEEE arithmetic.
#include "jf.h"
using namespace jf;

static bool Ordinary(Num n) {
  if (!IsFloat(n.t)) return true;
  double d = AsDouble(n.t, n.u);
  return std::isfinite(d) && !(d == 0 && std::signbit(d));
}

static void Expect(vf::Ctx& c, const std::string& src, const std::string& in, const Status& st, const Val& got,
                   const Val& want) {
  if (!st.ok())
    c.Fail(src + " with " + in + ": status " + st.ToString() + ", expected " + Show(want));
  else if (!Same(got, want))
    c.Fail(src + " with " + in + ": got " + Show(got) + ", expected " + Show(want));
}

// ------------------------------------------------------------------ C01
static void C01(vf::Ctx& c) {
  std::unique_ptr<FunctionRegistry> reg;
  int lvl = c.thorough ? 2 : 1;
  for (auto mode : {FPMathMode::kStrict, FPMathMode::kFast})
    for (T lt : Nums())
      for (T rt : Nums()) {
        if (!c.Begin([&] {
              return std::string("pair ") + Name(lt) + " " + Name(rt) + (mode == FPMathMode::kFast ? " fast" : " strict");
            }))
          continue;
        if (!reg) reg = NewRegistry();
        Batch b(Opt(mode));
        std::vector<std::pair<Op, size_t>> es;
        for (auto& o : Ops())
          if (BinType(o.op, lt, rt)) es.emplace_back(o.op, b.Add(Ld(lt, 0) + " " + o.text + " " + Ld(rt, 1)));
        std::vector<std::pair<Un, size_t>> us;
        if (lt == rt)
          for (auto& o : Uns())
            if (UnType(o.op, lt)) us.emplace_back(o.op, b.Add(std::string(o.text) + Ld(lt, 0)));
        b.Compile(reg);
        for (size_t i = 0; i < b.size(); i++)
          if (!b.Error(i).empty()) c.Fail(b.Src(i) + ": " + b.Error(i));
        bool full = Width(lt) == 8 && Width(rt) == 8;
        auto dom = [&](T t) { return full || (c.thorough && Width(t) == 8) ? FullDomain(t) : Domain(t, lvl); };
        auto da = dom(lt), db = dom(rt);
        Slot sa, sb;
        Args args;
        args.a[0] = &sa;
        args.a[1] = &sb;
        Val got;
        for (uint64_t ua : da) {
          sa.u = ua;
          c.Beat();
          Num x{lt, ua};
          for (auto [o, i] : us) {
            auto w = UnOp(o, x);
            if (!w || !b.Error(i).empty()) continue;
            if (mode == FPMathMode::kFast && (!Ordinary(x) || !Ordinary(*w))) continue;
            auto st = b.Run(i, args, &got);
            c.Eval();
            c.Outcome(vf::Hash(&w->u, 8, static_cast<uint64_t>(w->t) * 131 + static_cast<uint64_t>(o)));
            Expect(c, b.Src(i), Show(lt, ua), st, got, N(*w));
          }
          for (uint64_t ub : db) {
            sb.u = ub;
            Num y{rt, ub};
            for (auto [o, i] : es) {
              auto w = Bin(o, x, y);
              if (!w || !b.Error(i).empty()) continue;
              if (mode == FPMathMode::kFast && (!Ordinary(x) || !Ordinary(y) || !Ordinary(*w))) continue;
              auto st = b.Run(i, args, &got);
              c.Eval();
              c.Outcome(vf::Hash(&w->u, 8, static_cast<uint64_t>(w->t) * 131 + 50 + static_cast<uint64_t>(o)));
              if (o == Op::kMul && ub == db[db.size() / 2]) c.SampleOf(Name(lt), b.Src(i) + " (" + Show(lt, ua) + ", " + Show(rt, ub) + ") = " + Show(N(*w)));
              if (!st.ok() || !Same(got, N(*w))) Expect(c, b.Src(i), Show(lt, ua) + ", " + Show(rt, ub), st, got, N(*w));
            }
          }
        }
      }
}

// ------------------------------------------------------------------ C02
// values used as constants: the language and the API can both supply them
static std::vector<uint64_t> CDom(T t, bool th) {
  auto d = Domain(t, 0);
  if (IsInt(t)) {
    AddU(d, Wrap(t, 7));
    if (th)
      for (i128 x : {static_cast<i128>(10), static_cast<i128>(128), static_cast<i128>(-128), static_cast<i128>(0xA5A5A5A5A5A5A5A5ULL)}) AddU(d, Wrap(t, x));
  } else {
    AddU(d, t == kF32 ? B32(0.1f) : B64(0.1));
    AddU(d, t == kF32 ? B32(16777217.0f) : B64(9007199254740993.0));
  }
  return d;
}
// a source spelling of a constant, using operators where the language has no literal
static std::string Spell(T t, uint64_t u) {
  if (auto l = Literal(t, u)) return *l;
  if (IsInt(t)) {
    // negative: built from the complement, which is non-negative and keeps the type
    auto l = Literal(t, ~u);
    return "(~" + *l + ")";
  }
  double d = AsDouble(t, u);
  std::string n = Name(t);
  if (std::isnan(d)) return "(0.0" + n + "/0.0" + n + ")";
  if (std::isinf(d)) return d > 0 ? "(1.0" + n + "/0.0" + n + ")" : "(-(1.0" + n + "/0.0" + n + "))";
  auto l = Literal(t, t == kF32 ? B32(-F32(u)) : B64(-F64(u)));
  return l ? "(-" + *l + ")" : "";
}

static void C02(vf::Ctx& c) {
  std::unique_ptr<FunctionRegistry> reg;
  auto need = [&] {
    if (!reg) {
      reg = NewRegistry();
      AddStores(reg.get());
    }
  };
  // 1. one operator, operands constant or run-time
  for (auto mode : {FPMathMode::kStrict, FPMathMode::kFast})
    for (T lt : Nums())
      for (T rt : Nums())
        for (int form = 0; form < 4; form++) {
          // 0 api const/const, 1 const/run, 2 run/const, 3 source text
          if (!c.thorough && mode == FPMathMode::kFast && (lt != rt || form == 0 || form == 3)) continue;
          if (!c.Begin([&] {
                return std::string("one ") + Name(lt) + " " + Name(rt) + " form " + std::to_string(form) +
                       (mode == FPMathMode::kFast ? " fast" : " strict");
              }))
            continue;
          need();
          auto da = CDom(lt, c.thorough), db = CDom(rt, c.thorough);
          struct Case {
            size_t i;
            Op o;
            uint64_t a, b;
          };
          Batch b(Opt(mode));
          std::vector<Case> cs;
          for (auto& o : Ops()) {
            if (!BinType(o.op, lt, rt)) continue;
            for (uint64_t ua : da) {
              if (form == 2 && ua != da[0]) break;
              for (uint64_t ub : db) {
                if (form == 1 && ub != db[0]) break;
                // a program whose only value is undefined is not compared
                if (form == 0 || form == 3)
                  if (!Bin(o.op, {lt, ua}, {rt, ub})) continue;
                // a literal integer zero divisor is rejected by the validator (C10)
                if (form != 1 && (o.op == Op::kDiv || o.op == Op::kMod) && IsInt(rt) && ub == 0) continue;
                if (form == 2 && IsShift(o.op) && (Int(rt, ub) < 0 || Int(rt, ub) >= Width(lt))) continue;
                size_t i;
                if (form == 3)
                  i = b.Add(Spell(lt, ua) + " " + o.text + " " + Spell(rt, ub));
                else
                  i = b.AddNode(BinNode(o.op, form == 2 ? LdNode(lt, 0) : ConstNode(N(lt, ua)),
                                        form == 1 ? LdNode(rt, 1) : ConstNode(N(rt, ub))),
                                (form == 2 ? Ld(lt, 0) : Show(N(lt, ua))) + " " + o.text + " " +
                                    (form == 1 ? Ld(rt, 1) : Show(N(rt, ub))));
                cs.push_back({i, o.op, ua, ub});
              }
            }
          }
          b.Compile(reg);
          Slot sa, sb;
          Args args;
          args.a[0] = &sa;
          args.a[1] = &sb;
          auto one = [&](const Case& k, uint64_t ua, uint64_t ub) {
            Num x{lt, ua}, y{rt, ub};
            auto w = Bin(k.o, x, y);
            if (!w) return;
            if (mode == FPMathMode::kFast && (!Ordinary(x) || !Ordinary(y) || !Ordinary(*w))) return;
            sa.u = ua;
            sb.u = ub;
            Val got;
            auto st = b.Run(k.i, args, &got);
            c.Eval();
            c.Outcome(vf::Hash(&w->u, 8, static_cast<uint64_t>(w->t) * 131 + static_cast<uint64_t>(k.o)));
            if (!st.ok() || !Same(got, N(*w))) Expect(c, b.Src(k.i), Show(lt, ua) + ", " + Show(rt, ub), st, got, N(*w));
          };
          for (auto& k : cs) {
            c.Extra("programs");
            if (!b.Error(k.i).empty()) {
              c.Fail(b.Src(k.i) + ": " + b.Error(k.i));
              continue;
            }
            if (form == 1)
              for (uint64_t ub : Domain(rt, 1)) one(k, k.a, ub);
            else if (form == 2)
              for (uint64_t ua : Domain(lt, 1)) one(k, ua, k.b);
            else
              one(k, k.a, k.b);
          }
          if (!cs.empty()) c.SampleOf("form " + std::to_string(form), b.Src(cs[cs.size() / 3].i));
        }
  // 2. the same operator on pipeline variables
  for (T lt : Nums())
    for (T rt : Nums()) {
      if (!c.Begin([&] { return std::string("vars ") + Name(lt) + " " + Name(rt); })) continue;
      need();
      std::string src = "x = " + Ld(lt, 0) + "; let y = " + Ld(rt, 1) + ";";
      std::vector<Op> os;
      for (auto& o : Ops()) {
        auto t = BinType(o.op, lt, rt);
        if (!t) continue;
        // run-time division by zero is outside the language's defined results: those run in their own program
        if ((o.op == Op::kDiv || o.op == Op::kMod) && IsInt(*t)) continue;
        std::string v = "v" + std::to_string(os.size());
        src += v + " = x " + o.text + " y; " + StName(*t) + "(output, " + std::to_string(os.size()) + ", " + v + ");";
        os.push_back(o.op);
      }
      athena::AthenaPipeline p(Opt(FPMathMode::kStrict));
      auto st = p.Compile({src}, reg);
      if (!st.ok()) {
        c.Fail(src + ": " + st.ToString());
        continue;
      }
      c.Extra("programs");
      Slot sa, sb;
      Args args;
      args.a[0] = &sa;
      args.a[1] = &sb;
      for (uint64_t ua : Domain(lt, 1))
        for (uint64_t ub : Domain(rt, 1)) {
          sa.u = ua;
          sb.u = ub;
          Recorder rec;
          auto s2 = p.Execute(&args, &rec);
          c.Eval();
          if (!s2.ok() || rec.log.size() != os.size()) {
            c.Fail(src + " with " + Show(lt, ua) + ", " + Show(rt, ub) + ": status " + s2.ToString() + ", " + ShowLog(rec.log));
            continue;
          }
          for (size_t i = 0; i < os.size(); i++) {
            auto w = Bin(os[i], {lt, ua}, {rt, ub});
            if (!w) continue;
            if (rec.log[i].first != static_cast<int>(i) || !Same(rec.log[i].second, N(*w)))
              c.Fail(src + " with " + Show(lt, ua) + ", " + Show(rt, ub) + ": store " + std::to_string(i) + " got " +
                     Show(rec.log[i].second) + ", expected " + Show(N(*w)));
          }
        }
    }
  // 3. trees of two operators over three operands
  std::vector<T> ts = c.thorough ? std::vector<T>{kI8, kU8, kI16, kU16, kI32, kU32, kI64, kU64, kF32, kF64}
                                 : std::vector<T>{kI8, kU8, kU32, kI64, kF64};
  for (T ta : ts)
    for (T tb : ts)
      for (T tc : ts)
        for (int shape = 0; shape < 2; shape++) {
          if (!c.Begin([&] {
                return std::string("tree ") + Name(ta) + " " + Name(tb) + " " + Name(tc) + " shape " + std::to_string(shape);
              }))
            continue;
          need();
          auto vals = [&](T t, int k) -> std::vector<uint64_t> {
            std::vector<i128> iv = k == 0   ? std::vector<i128>{IMax(t), IMin(t), 6}
                                   : k == 1 ? std::vector<i128>{3, IMax(t) - 1, IMin(t) + 1}
                                            : std::vector<i128>{2, 5, IMin(t)};
            std::vector<double> fv = k == 0 ? std::vector<double>{1.5, -1e10, 16777217} : k == 1 ? std::vector<double>{0.1, 3, -2.25} : std::vector<double>{-7.5, 0.5, 4294967296.0};
            std::vector<uint64_t> r;
            if (IsInt(t))
              for (auto x : iv) r.push_back(Wrap(t, x));
            else
              for (auto x : fv) r.push_back(t == kF32 ? B32(static_cast<float>(x)) : B64(x));
            return r;
          };
          auto va = vals(ta, 0), vb = vals(tb, 1), vc = vals(tc, 2);
          auto tree = [&](Op o1, Op o2, Num a, Num b2, Num cc) -> ONum {
            if (shape == 0) {
              auto m = Bin(o1, a, b2);
              return m ? Bin(o2, *m, cc) : std::nullopt;
            }
            auto m = Bin(o1, b2, cc);
            return m ? Bin(o2, a, *m) : std::nullopt;
          };
          auto typed = [&](Op o1, Op o2) {
            if (shape == 0) {
              auto m = BinType(o1, ta, tb);
              return m && BinType(o2, *m, tc);
            }
            auto m = BinType(o1, tb, tc);
            return m && BinType(o2, ta, *m);
          };
          Batch b(Opt(FPMathMode::kStrict));
          struct Case {
            size_t i;
            Op o1, o2;
            int lit;  // index of the value triple when all operands are constants, else -1
          };
          std::vector<Case> cs;
          for (auto& o1 : Ops())
            for (auto& o2 : Ops()) {
              if (!typed(o1.op, o2.op)) continue;
              auto mk = [&](auto leaf) {
                return shape == 0 ? BinNode(o2.op, BinNode(o1.op, leaf(0), leaf(1)), leaf(2))
                                  : BinNode(o2.op, leaf(0), BinNode(o1.op, leaf(1), leaf(2)));
              };
              std::string d = shape == 0 ? std::string("(a ") + o1.text + " b) " + o2.text + " c" : std::string("a ") + o2.text + " (b " + o1.text + " c)";
              d += std::string(" : ") + Name(ta) + "," + Name(tb) + "," + Name(tc);
              T tt[3] = {ta, tb, tc};
              cs.push_back({b.AddNode(mk([&](int k) { return LdNode(tt[k], k); }), d), o1.op, o2.op, -1});
              // the constant tree at the first value triple that defines it
              for (int v = 0; v < 3; v++)
                if (tree(o1.op, o2.op, {ta, va[v]}, {tb, vb[v]}, {tc, vc[v]})) {
                  uint64_t uu[3] = {va[v], vb[v], vc[v]};
                  cs.push_back({b.AddNode(mk([&](int k) { return ConstNode(N(tt[k], uu[k])); }), d + " constant"), o1.op, o2.op, v});
                  if (!c.thorough) break;
                }
            }
          b.Compile(reg);
          Slot s[3];
          Args args;
          for (int k = 0; k < 3; k++) args.a[k] = &s[k];
          Val got;
          for (auto& k : cs) {
            c.Extra("programs");
            if (!b.Error(k.i).empty()) {
              c.Fail(b.Src(k.i) + ": " + b.Error(k.i));
              continue;
            }
            for (int x = 0; x < 27; x++) {
              int i0 = x % 3, i1 = x / 3 % 3, i2 = x / 9;
              if (k.lit >= 0 && (i0 != k.lit || i1 != k.lit || i2 != k.lit)) continue;
              auto w = tree(k.o1, k.o2, {ta, va[i0]}, {tb, vb[i1]}, {tc, vc[i2]});
              if (!w) continue;
              s[0].u = va[i0], s[1].u = vb[i1], s[2].u = vc[i2];
              auto st = b.Run(k.i, args, &got);
              c.Eval();
              c.Outcome(vf::Hash(&w->u, 8, static_cast<uint64_t>(w->t)));
              if (!st.ok() || !Same(got, N(*w)))
                Expect(c, b.Src(k.i), Show(ta, va[i0]) + ", " + Show(tb, vb[i1]) + ", " + Show(tc, vc[i2]), st, got, N(*w));
            }
          }
        }
}

// ------------------------------------------------------------------ C27
static std::vector<uint64_t> Special(T t, bool more) {
  std::vector<double> c{0.0, -0.0, 1.0, -1.5, 0.1, INFINITY, -INFINITY, NAN};
  std::vector<uint64_t> d;
  for (double x : c) AddU(d, t == kF32 ? B32(static_cast<float>(x)) : B64(x));
  if (t == kF32) {
    AddU(d, B32(std::numeric_limits<float>::denorm_min()));
    AddU(d, B32(std::numeric_limits<float>::max()));
    AddU(d, B32(16777216.0f));
    if (more) AddU(d, B32(-0.3f)), AddU(d, B32(-std::numeric_limits<float>::min())), AddU(d, B32(3.0f)), AddU(d, B32(1.0f + 0x1p-23f));
  } else {
    AddU(d, B64(std::numeric_limits<double>::denorm_min()));
    AddU(d, B64(std::numeric_limits<double>::max()));
    AddU(d, B64(9007199254740992.0));
    if (more) AddU(d, B64(-0.3)), AddU(d, B64(-std::numeric_limits<double>::min())), AddU(d, B64(3.0)), AddU(d, B64(1.0 + 0x1p-52));
  }
  return d;
}
struct FT {  // a tree: op or leaf
  Op o = Op::kAdd;
  int neg = 0;    // unary minus on top
  int leaf = -1;  // operand index
  std::shared_ptr<FT> l, r;
};
using FTP = std::shared_ptr<FT>;
static FTP Leaf(int i, int neg = 0) {
  auto f = std::make_shared<FT>();
  f->leaf = i;
  f->neg = neg;
  return f;
}
static FTP Node(Op o, FTP l, FTP r, int neg = 0) {
  auto f = std::make_shared<FT>();
  f->o = o;
  f->l = l;
  f->r = r;
  f->neg = neg;
  return f;
}
static Num EvalT(const FTP& f, const Num* v) {
  Num n = f->leaf >= 0 ? v[f->leaf] : *Bin(f->o, EvalT(f->l, v), EvalT(f->r, v));
  return f->neg ? *UnOp(Un::kMinus, n) : n;
}
template <class LF>
static std::unique_ptr<ExecNode> NodeT(const FTP& f, LF leaf) {
  auto n = f->leaf >= 0 ? leaf(f->leaf) : BinNode(f->o, NodeT(f->l, leaf), NodeT(f->r, leaf));
  return f->neg ? UnNode(Un::kMinus, std::move(n)) : std::move(n);
}
static std::string TextT(const FTP& f) {
  std::string s = f->leaf >= 0 ? std::string(1, static_cast<char>('a' + f->leaf)) : "(" + TextT(f->l) + " " + OpText(f->o) + " " + TextT(f->r) + ")";
  return f->neg ? "(-" + s + ")" : s;
}
static void C27(vf::Ctx& c) {
  std::unique_ptr<FunctionRegistry> reg;
  const std::vector<Op> ar{Op::kAdd, Op::kSub, Op::kMul, Op::kDiv, Op::kMod};
  const std::vector<Op> ar4{Op::kAdd, Op::kSub, Op::kMul, Op::kDiv};
  const std::vector<Op> rel{Op::kEq, Op::kNe, Op::kLt, Op::kLe, Op::kGt, Op::kGe};
  std::vector<Op> all = ar;
  all.insert(all.end(), rel.begin(), rel.end());
  struct Group {
    std::string name;
    int n;  // operands
    std::vector<FTP> trees;
  };
  std::vector<Group> groups;
  {
    Group g{"one", 2, {}};
    for (Op o : all)
      for (int neg = 0; neg < 4; neg++) g.trees.push_back(Node(o, Leaf(0, neg & 1), Leaf(1, neg >> 1)));
    for (Op o : ar) g.trees.push_back(Node(o, Leaf(0), Leaf(1), 1));
    // the same operand twice: x-x, x/x, x==x
    for (Op o : all) g.trees.push_back(Node(o, Leaf(0), Leaf(0)));
    for (Op o : ar4)
      for (Op p : ar4) {
        g.trees.push_back(Node(p, Node(o, Leaf(0), Leaf(1)), Leaf(1)));  // (a-b)+b
        g.trees.push_back(Node(p, Node(o, Leaf(0), Leaf(1)), Leaf(0)));
        g.trees.push_back(Node(p, Leaf(0), Node(o, Leaf(1), Leaf(0))));
      }
    groups.push_back(g);
  }
  for (Op o : ar) {
    Group g{std::string("two ") + OpText(o), 3, {}};
    for (Op p : all) {
      g.trees.push_back(Node(p, Node(o, Leaf(0), Leaf(1)), Leaf(2)));
      g.trees.push_back(Node(p, Leaf(0), Node(o, Leaf(1), Leaf(2))));
      g.trees.push_back(Node(p, Leaf(0), Node(o, Leaf(1), Leaf(2), 1)));
    }
    groups.push_back(g);
  }
  for (Op o : ar4)
    for (Op p : ar4) {
      Group g{std::string("three ") + OpText(o) + OpText(p), 4, {}};
      for (Op q : all) {
        g.trees.push_back(Node(q, Node(o, Leaf(0), Leaf(1)), Node(p, Leaf(2), Leaf(3))));
        if (q <= Op::kMod) {
          g.trees.push_back(Node(q, Node(p, Node(o, Leaf(0), Leaf(1)), Leaf(2)), Leaf(3)));
          g.trees.push_back(Node(q, Leaf(0), Node(p, Leaf(1), Node(o, Leaf(2), Leaf(3)))));
        }
      }
      groups.push_back(g);
    }
  // operand type patterns: all f32, all f64, mixed
  for (int pat = 0; pat < 4; pat++)
    for (auto& g : groups) {
      if (pat >= 2 && g.n == 4 && !c.thorough) continue;
      if (!c.Begin([&] { return "ieee " + g.name + " pattern " + std::to_string(pat); })) continue;
      if (!reg) reg = NewRegistry();
      T tt[4];
      for (int k = 0; k < 4; k++) tt[k] = pat == 0 ? kF32 : pat == 1 ? kF64 : ((k % 2 == 0) == (pat == 2)) ? kF32 : kF64;
      ExecEngineOption opt = Opt(FPMathMode::kStrict);
      opt.enable_save_compiled = true;
      std::vector<std::unique_ptr<ExecNode>> nodes;
      for (auto& t : g.trees) nodes.push_back(NodeT(t, [&](int k) { return LdNode(tt[k], k); }));
      BatchExecEngine eng(opt);
      auto st = eng.Compile(nodes, reg);
      if (!st.ok()) {
        c.Fail("group does not compile: " + st.ToString());
        continue;
      }
      // reloaded into an engine constructed with the default (fast) mode: the artifact stays strict
      std::string blob;
      BatchExecEngine eng2;
      st = eng.SaveCompiled(&blob);
      if (st.ok()) st = eng2.LoadCompiled(blob, reg);
      if (!st.ok()) {
        c.Fail("group does not reload: " + st.ToString());
        continue;
      }
      c.Extra("programs", g.trees.size());
      Slot s[4];
      Args args;
      for (int k = 0; k < 4; k++) args.a[k] = &s[k];
      std::vector<uint64_t> dom[4];
      for (int k = 0; k < 4; k++) {
        dom[k] = k < g.n ? Special(tt[k], c.thorough || g.n < 4) : std::vector<uint64_t>{0};
        if (g.n == 4 && !c.thorough) {
          auto full = dom[k];
          dom[k].clear();
          for (size_t i : {1, 2, 4, 5, 7, 8, 9}) dom[k].push_back(full[i]);
        }
      }
      ExecContext ctx(4096);
      for (uint64_t a : dom[0])
        for (uint64_t b : dom[1]) {
          c.Beat();
          for (uint64_t d : dom[2])
            for (uint64_t e : dom[3]) {
              s[0].u = a, s[1].u = b, s[2].u = d, s[3].u = e;
              Num v[4] = {{tt[0], a}, {tt[1], b}, {tt[2], d}, {tt[3], e}};
              for (size_t i = 0; i < g.trees.size(); i++) {
                Num w = EvalT(g.trees[i], v);
                for (int r = 0; r < 2; r++) {
                  if (r == 1 && g.n == 4 && !c.thorough && a != dom[0][0]) break;
                  RetType ret;
                  auto st2 = (r ? eng2 : eng).ExecuteAt(i, ctx, &args, &ret);
                  c.Eval();
                  if (!st2.ok() || !Same(FromRet(ret), N(w)))
                    c.Fail(TextT(g.trees[i]) + " at (" + Show(N(v[0])) + ", " + Show(N(v[1])) + ", " + Show(N(v[2])) + ", " + Show(N(v[3])) + ")" +
                           (r ? " reloaded" : "") + ": got " + (st2.ok() ? Show(FromRet(ret)) : st2.ToString()) + ", expected " + Show(N(w)));
                }
                c.Outcome(vf::Hash(&w.u, 8, static_cast<uint64_t>(w.t)));
              }
            }
        }
      c.SampleOf(g.name, TextT(g.trees.back()));
    }
  // constants among the operands: every tree of one or two operators, every choice of which operands are constant,
  // every special value for them
  for (T t : {kF32, kF64})
    for (int mask = 1; mask < 4; mask++)
      for (auto& g : groups) {
        if (g.n != 2) continue;
        for (uint64_t ca : Special(t, c.thorough)) {
          if (!c.Begin([&] { return std::string("ieee const ") + Name(t) + " mask " + std::to_string(mask) + " " + Show(t, ca) + (std::signbit(AsDouble(t, ca)) ? "-" : "+"); })) continue;
          if (!reg) reg = NewRegistry();
          Batch b(Opt(FPMathMode::kStrict));
          std::vector<std::pair<size_t, std::pair<FTP, uint64_t>>> cs;
          for (auto& tr : g.trees)
            for (uint64_t cb : mask == 3 ? Special(t, c.thorough) : std::vector<uint64_t>{ca}) {
              uint64_t cv[2] = {ca, cb};
              cs.push_back({b.AddNode(NodeT(tr, [&](int k) { return (mask >> k & 1) ? ConstNode(N(t, cv[k])) : LdNode(t, k); }),
                                      TextT(tr) + " with constants " + Show(t, ca) + "," + Show(t, cb)),
                            {tr, cb}});
            }
          b.Compile(reg);
          c.Extra("programs", cs.size());
          Slot s[2];
          Args args;
          args.a[0] = &s[0], args.a[1] = &s[1];
          Val got;
          for (auto& [i, tc] : cs) {
            if (!b.Error(i).empty()) {
              c.Fail(b.Src(i) + ": " + b.Error(i));
              continue;
            }
            for (uint64_t r : mask == 3 ? std::vector<uint64_t>{0} : Special(t, true)) {
              uint64_t x = mask & 1 ? ca : r, y = mask == 3 ? tc.second : mask & 2 ? ca : r;
              s[0].u = x, s[1].u = y;
              Num v[2] = {{t, x}, {t, y}};
              Num w = EvalT(tc.first, v);
              auto st = b.Run(i, args, &got);
              c.Eval();
              if (!st.ok() || !Same(got, N(w))) Expect(c, b.Src(i), Show(t, x) + ", " + Show(t, y), st, got, N(w));
            }
          }
        }
      }
}

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string& mode) {
    if (mode == "C01") C01(c);
    if (mode == "C02") C02(c);
    if (mode == "C27") C27(c);
  });
}
