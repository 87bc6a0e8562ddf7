// C10: which programs are accepted, and with which type.  The rules of the operators and conditionals are lang.h's; the
// functions' signatures are those of doc/function.md (harness/signatures.txt is a transcript).
#include <fstream>
#include <sstream>
#include "lang.h"
using namespace lang;

namespace {
bool thorough = false;
std::vector<T> all;              // the 22 value types
std::map<std::string, T> byname;
std::map<std::string, T> doc;    // "name t1 t2" -> result
std::set<std::string> extra;     // registered on the pinned tree, not documented: not judged
std::set<std::string> names;
std::string Key(const std::string& n, const std::vector<T>& a) {
  std::string k = n;
  for (T t : a) k += std::string(" ") + Name(t);
  return k;
}
void ReadSignatures() {
  ForTypes([&](T t, auto*) {
    byname[Name(t)] = t;
    all.push_back(t);
  });
  std::ifstream f(VERIF_HARNESS_DIR "/signatures.txt");
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    std::string n, r, a;
    s >> n >> r;
    bool ex = n[0] == '?';
    if (ex) n = n.substr(1);
    std::vector<T> args;
    while (s >> a) args.push_back(byname.at(a));
    if (ex) {
      extra.insert(Key(n, args));
    } else {
      doc[Key(n, args)] = byname.at(r);
      names.insert(n);
    }
  }
  if (doc.size() != 1020 || names.size() != 108) Die("signatures.txt");
}
// whether the tree is free to accept or refuse the call
bool Unjudged(const std::string& n, std::vector<T> a) {
  if (extra.count(Key(n, a))) return true;
  if (a.empty() || a.back() != T::kPtr) return false;
  a.pop_back();  // the old form that names the execution context
  return doc.count(Key(n, a)) != 0 || extra.count(Key(n, a)) != 0;
}
std::vector<std::vector<T>> Tuples(const std::vector<T>& ts, int max) {
  std::vector<std::vector<T>> out{{}};
  size_t lo = 0;
  for (int d = 0; d < max; d++) {
    size_t hi = out.size();
    for (size_t i = lo; i < hi; i++)
      for (T t : ts) {
        auto v = out[i];
        v.push_back(t);
        out.push_back(v);
      }
    lo = hi;
  }
  return out;
}
std::string Operands(const std::vector<T>& a) {
  std::string s;
  for (size_t i = 0; i < a.size(); i++)
    s += (i ? ", " : "") + (a[i] == T::kPtr ? std::string("entry_arg") : Ld(a[i], static_cast<int>(i)));
  return s;
}
struct Env {
  std::unique_ptr<FunctionRegistry> reg;
  std::unique_ptr<ExecEngine> single;
  std::unique_ptr<BatchExecEngine> batch;
  Args args;
};
std::unique_ptr<Slot> slots[32];
Args FillArgs(const std::vector<T>& a) {
  Args r;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == T::kPtr) continue;
    slots[i] = std::make_unique<Slot>(Operand(a[i], 0, 1));
    r.a[i] = slots[i].get();
  }
  return r;
}

// ------------------------------------------------------------ judging one program
// A rejected program: an error with a message from both engine kinds, after which nothing runs.
void MustReject(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const std::string& src, bool warm, bool pipeline = false) {
  c.Sub(src);
  c.Eval();
  c.Extra("rejected");
  athena::ProgramAstBuilder b;
  std::unique_ptr<ExecNode> n;
  auto st = pipeline ? b.BuildPipeline(src, &n) : b.BuildExpression(src, &n);
  if (!st.ok()) {
    if (st.ToString().size() < 4) c.Fail("rejected without a message: " + src);
    return;
  }
  Args a;
  RetType r;
  {
    ExecEngine e;
    if (warm) {
      std::unique_ptr<ExecNode> ok;
      if (!BuildExpr("1;", &ok).ok() || !e.Compile(ok, reg).ok()) Die("warm-up");
    }
    st = e.Compile(n, reg);
    if (st.ok()) {
      c.Fail("accepted: " + src);
      return;
    }
    if (st.ToString().size() < 4) c.Fail("rejected without a message: " + src);
    if (st.ToString().find("[internal]") != std::string::npos) c.Fail("not rejected as a program, but by an internal failure: " + src + ": " + st.ToString());
    if (e.Execute(&a, &r).ok()) c.Fail("rejected, yet something can be executed: " + src);
  }
  if (warm) {
    BatchExecEngine e(Opt(FPMathMode::kFast));
    std::vector<std::unique_ptr<ExecNode>> v;
    std::unique_ptr<ExecNode> good;
    (void)BuildExpr("1;", &good);
    v.push_back(std::move(good));
    v.push_back(std::move(n));
    if (e.Compile(v, reg).ok()) c.Fail("accepted by the batch engine: " + src);
    else if (e.ExecuteAt(0, &a, &r).ok() || e.GetFunctionCount() != 0) c.Fail("rejected batch can be executed: " + src);
  }
}
struct Good {
  std::string src;
  T ret;
  std::vector<T> args;
};
void MustAccept(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const std::vector<Good>& gs, FPMathMode mode = FPMathMode::kStrict) {
  for (size_t lo = 0; lo < gs.size(); lo += 100) {
    Batch b(Opt(mode));
    size_t hi = std::min(gs.size(), lo + 100);
    for (size_t i = lo; i < hi; i++) b.Add(gs[i].src);
    c.Sub("batch from " + gs[lo].src);
    b.Compile(reg);
    for (size_t i = lo; i < hi; i++) {
      c.Sub(gs[i].src);
      c.Eval();
      c.Extra("accepted");
      if (!b.Error(i - lo).empty()) {
        c.Fail("refused: " + gs[i].src + ": " + b.Error(i - lo));
        continue;
      }
      T rt = b.RetTypeOf(i - lo);
      Args a = FillArgs(gs[i].args);
      Val v;
      auto st = b.Run(i - lo, a, &v);
      if (rt == T::kUnknown && st.ok()) rt = v.t;
      if (rt != gs[i].ret && rt != T::kUnknown) c.Fail(gs[i].src + " has type " + Name(rt) + ", expected " + Name(gs[i].ret));
      if (st.ok() && v.t != gs[i].ret) c.Fail(gs[i].src + " returns " + Name(v.t) + ", expected " + Name(gs[i].ret));
      c.Outcome(gs[i].src);
      c.SampleOf(std::string("accepted as ") + Name(gs[i].ret), gs[i].src);
    }
  }
}

void Functions(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto types = all;
  types.push_back(T::kPtr);
  auto t3 = Tuples(types, 3), t2 = Tuples(all, 2);
  auto nm = names;
  // names that are not functions
  for (auto& n : names) {
    nm.insert(n + "s");
    nm.insert(n.substr(0, n.size() - 1));
  }
  for (auto n : {"f", "List", "cast", "len", "ABS", "Sqrt", "avg", "sum", "Concat"}) nm.insert(n);
  for (auto& n : nm) {
    bool known = names.count(n) != 0;
    if (!c.Begin([&] { return "signatures of " + n; })) continue;
    // 1. the registry, all tuples up to three arguments
    for (auto& a : t3) {
      if (Unjudged(n, a)) continue;
      FunctionSignature s(n, a, T::kUnknown);
      jitfusion::FunctionStructure fs;
      bool ok = reg->GetFuncBySign(s, &fs).ok();
      auto d = doc.find(Key(n, a));
      c.Eval();
      if (ok != (d != doc.end())) c.Fail(s.ToString() + (ok ? " is accepted but not documented" : " is documented but not accepted"));
      else if (ok && s.GetRetType() != d->second) c.Fail(s.ToString() + " has result type " + Name(s.GetRetType()) + ", documented " + Name(d->second));
      else if (ok) c.Outcome(Key(n, a));
    }
    if (!known) {
      if (n != "if" && n != "in") MustReject(c, reg, n + "(1);", true);
      continue;
    }
    // 2. compiled
    std::vector<Good> good;
    size_t bad = 0;
    for (auto& a : t3) {
      bool plain = true;
      for (T t : a) plain = plain && t != T::kPtr;
      auto d = doc.find(Key(n, a));
      if (d != doc.end()) good.push_back({n == "in" ? Ld(a[0], 0) + " in " + Ld(a[1], 1) : n + "(" + Operands(a) + ")", d->second, a});
      else if (plain && !Unjudged(n, a) && (a.size() <= (thorough ? 2U : 1U) || bad % (thorough ? 7 : 37) == 0)) {
        if (a.size() > 2 && !thorough && bad % 999 != 0) {
          bad++;
          continue;
        }
        MustReject(c, reg, n + "(" + Operands(a) + ");", bad % 50 == 0);
      }
      if (d == doc.end()) bad++;
    }
    MustAccept(c, reg, good);
    if (thorough) MustAccept(c, reg, good, FPMathMode::kFast);
  }
}

void Check(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, std::vector<Good>& good, const std::string& src, std::optional<T> t,
           const std::vector<T>& args, bool warm) {
  if (t) good.push_back({src, *t, args});
  else MustReject(c, reg, src + ";", warm);
}
void Operators(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto types = all;
  types.push_back(T::kPtr);
  auto bin = [](Op o, T a, T b) -> std::optional<T> {
    if (a == T::kPtr || b == T::kPtr) return std::nullopt;
    return BinType(o, a, b);
  };
  for (auto& u : Uns()) {
    if (!c.Begin([&] { return std::string("unary ") + u.text; })) continue;
    std::vector<Good> good;
    for (T t : types) Check(c, reg, good, u.text + Operands({t}), t == T::kPtr ? std::nullopt : UnType(u.op, t), {t}, true);
    MustAccept(c, reg, good);
    MustAccept(c, reg, good, FPMathMode::kFast);
  }
  for (auto& o : Ops())
    for (T a : types) {
      if (!c.Begin([&] { return std::string("binary ") + o.text + " on " + Name(a); })) continue;
      std::vector<Good> good;
      for (T b : types) {
        auto r = bin(o.op, a, b);
        // division: the right operand must not be zero at run time
        std::string l = Operands({a}), rr = b == T::kPtr ? "output" : Ld(b, 1);
        Check(c, reg, good, l + " " + o.text + " " + rr, r, {a, b}, true);
      }
      MustAccept(c, reg, good);
      MustAccept(c, reg, good, FPMathMode::kFast);
    }
  for (T a : types) {
    if (!c.Begin([&] { return std::string("in on ") + Name(a); })) continue;
    std::vector<Good> good;
    for (T b : types) {
      bool ok = a != T::kPtr && b != T::kPtr && ListOf(a) != T::kUnknown && ListOf(a) == b;
      if (ok != (doc.count(Key("in", {a, b})) != 0)) Die("in");
      Check(c, reg, good, Operands({a}) + " in " + (b == T::kPtr ? "output" : Ld(b, 1)), ok ? std::optional<T>(kU8) : std::nullopt, {a, b}, true);
    }
    MustAccept(c, reg, good);
  }
}
void Conditionals(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto types = all;
  types.push_back(T::kPtr);
  auto leaf = [](T t, int i) { return t == T::kPtr ? std::string("entry_arg") : Ld(t, i); };
  auto common = [](std::vector<T> v) -> std::optional<T> { return Common(v); };
  for (T cond : types)
    for (const char* f : {"if", "switch"})
      for (T a : types) {
        if (!c.Begin([&] { return std::string(f) + " " + Name(cond) + " " + Name(a); })) continue;
        std::vector<Good> good;
        int k = 0;
        for (T b : types) {
          auto t = IsNum(cond) ? common({a, b}) : std::nullopt;
          std::string src = std::string(f) + "(" + leaf(cond, 0) + ", " + leaf(a, 1) + ", " + leaf(b, 2) + ")";
          if (a == T::kPtr && b == T::kPtr) continue;  // a pointer result: not a value of the language
          if (!t && !thorough && k++ % 4) continue;
          Check(c, reg, good, src, t, {cond, a, b}, k % 16 == 0);
        }
        MustAccept(c, reg, good);
      }
  // five arguments: every combination of value types, and every pair of condition types
  for (T a : all)
    for (T b : all) {
      if (!c.Begin([&] { return std::string("switch of five ") + Name(a) + " " + Name(b); })) continue;
      std::vector<Good> good;
      int k = 0;
      for (T d : all) {
        auto t = common({a, b, d});
        std::string src = "switch(" + leaf(kU8, 0) + ", " + leaf(a, 1) + ", " + leaf(kF32, 2) + ", " + leaf(b, 3) + ", " + leaf(d, 4) + ")";
        if (!t && !thorough && k++ % 3) continue;
        Check(c, reg, good, src, t, {kU8, a, kF32, b, d}, k % 16 == 0);
      }
      auto t = IsNum(a) && IsNum(b) ? std::optional<T>(kF64) : std::nullopt;
      Check(c, reg, good, "switch(" + leaf(a, 0) + ", " + leaf(kI8, 1) + ", " + leaf(b, 2) + ", " + leaf(kF64, 3) + ", " + leaf(kU64, 4) + ")", t,
            {a, kI8, b, kF64, kU64}, false);
      MustAccept(c, reg, good);
    }
  // one argument of any type at any place of a longer one, the others i32 or all strings
  for (int n = 3; n <= (thorough ? 17 : 11); n += 2)
    for (int p = 0; p < n; p++) {
      if (!c.Begin([&] { return "switch of " + std::to_string(n) + ", argument " + std::to_string(p); })) continue;
      std::vector<Good> good;
      int k = 0;
      for (T rest : {kI32, kStr})
        for (T t : types) {
          bool cond = p % 2 == 0 && p + 1 < n;
          std::string src = "switch(";
          std::vector<T> ts;
          for (int i = 0; i < n; i++) {
            T x = i == p ? t : i % 2 == 0 && i + 1 < n ? kI32 : rest;
            ts.push_back(x);
            src += (i ? ", " : "") + leaf(x, i);
          }
          std::optional<T> want;
          if (t != T::kPtr) {
            if (cond) {
              if (IsNum(t)) want = rest;
            } else {
              want = common({rest, t});
            }
          }
          Check(c, reg, good, src + ")", want, ts, k++ % 16 == 0);
        }
      MustAccept(c, reg, good);
    }
  // two places of a longer one
  for (int n : {5, 7, 9})
    for (int p = 0; p < n; p++)
      for (int q = p + 1; q < n; q++) {
        if (!thorough && n == 9 && (p + q) % 3) continue;
        if (!c.Begin([&] { return "switch of " + std::to_string(n) + ", arguments " + std::to_string(p) + " and " + std::to_string(q); })) continue;
        std::vector<Good> good;
        for (T t : {kU8, kF32, kStr, T::kI32List, T::kPtr, kStrL})
          for (T u : {kI64, kF64, kStr, T::kI32List, T::kPtr, T::kU8List}) {
            std::string src = "switch(";
            std::vector<T> ts, vals;
            bool ok = true;
            for (int i = 0; i < n; i++) {
              T x = i == p ? t : i == q ? u : kI16;
              ts.push_back(x);
              src += (i ? ", " : "") + leaf(x, i);
              ok = ok && x != T::kPtr;
              if (i % 2 == 0 && i + 1 < n) ok = ok && IsNum(x);
              else vals.push_back(x);
            }
            Check(c, reg, good, src + ")", ok ? common(vals) : std::nullopt, ts, false);
          }
        MustAccept(c, reg, good);
      }
  // the conditions of a longer block statement
  for (int n = 1; n <= 8; n++)
    for (int p = 0; p < n; p++) {
      if (!c.Begin([&] { return "block with " + std::to_string(n) + " conditions, place " + std::to_string(p); })) continue;
      for (T t : types) {
        std::string src;
        for (int i = 0; i < n; i++) src += std::string(i ? "elif " : "when ") + (i == p ? leaf(t, 0) : Ld(kI32, 1)) + " { a = " + std::to_string(i) + "; } ";
        if (n % 2) src += "else { b = 1; }";
        athena::AthenaPipeline ap;
        c.Eval();
        c.Sub(src);
        auto st = ap.Compile({src}, reg);
        if (IsNum(t) != st.ok()) c.Fail(src + (IsNum(t) ? " is refused" : " is accepted"));
        if (st.ToString().find("[internal]") != std::string::npos) c.Fail("not rejected as a program, but by an internal failure: " + src + ": " + st.ToString());
      }
    }
  // argument counts
  for (const char* f : {"if", "switch"})
    for (int n = 0; n <= 14; n++) {
      if (!c.Begin([&] { return std::string(f) + " with " + std::to_string(n) + " arguments"; })) continue;
      std::string src = std::string(f) + "(";
      std::vector<T> ts;
      for (int i = 0; i < n; i++) {
        src += (i ? ", " : "") + Ld(kI32, i);
        ts.push_back(kI32);
      }
      src += ")";
      bool ok = f[0] == 'i' ? n == 3 : n % 2 == 1;
      if (n == 1) continue;  // switch(x): no case at all
      std::vector<Good> good;
      Check(c, reg, good, src, ok ? std::optional<T>(kI32) : std::nullopt, ts, true);
      MustAccept(c, reg, good);
    }
}
// an ill-typed expression is found wherever it stands
void Positions(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const std::vector<std::pair<std::string, bool>> bad{{"(\"s\" + 1)", false}, {"(~ld_f32(entry_arg, 0))", false}, {"abs(\"s\")", false},
                                                      {"nosuch(1)", false}, {"(1 / 0)", false}, {"(ld_i64(entry_arg, 0) % 0u8)", false},
                                                      {"if(1, 2)", false}, {"if(\"s\", 1, 2)", false}, {"switch(1, 2, \"s\")", false},
                                                      {"([1, 2] + [1u8])", false}, {"(-[1])", false}, {"(not \"s\")", false}, {"(1 << 1.0)", false},
                                                      {"(\"a\" < 1)", false}, {"(entry_arg + 1)", false}, {"Len(1)", false}, {"(\"a\" and 1)", false}};
  const std::vector<std::string> ctx{"@;", "-@;", "not @;", "@ + 1;", "1 + @;", "1 and @;", "0 and @;", "1 or @;", "@ or 1;", "abs(@);", "max(1, @);", "max(@, 1);",
                                     "if(@, 1, 2);", "if(1, @, 2);", "if(0, @, 2);", "if(1, 2, @);", "switch(@, 1, 2);", "switch(1, @, 2);", "switch(1, 2, @);",
                                     "switch(1, 2, @, 3, 4);", "switch(1, 2, 3, @, 4);", "switch(1, 2, 3, 4, @);", "@ in [1, 2];", "a = @; a;", "a = 1; a + @;",
                                     "(((@)));", "1 + (2 * (3 - @));"};
  const std::vector<std::string> pctx{"@;", "a = @;", "let a = @;", "st_i32(output, 0, @);", "when @ { a = 1; }", "when 1 { @; }", "when 1 { a = 1; } else { @; }",
                                      "when 1 { a = 1; } elif @ { a = 1; }", "when 1 { a = 1; } elif 2 { @; }", "when 1 { when 2 { a = @; } }", "a = 1; a = @;", "when 0 { a = @; }",
                                      "a = 1; when a { a = 2; } else { when a { @; } }"};
  for (auto& [b, _] : bad) {
    if (!c.Begin([&] { return "positions of " + b; })) continue;
    auto put = [&](std::string s) {
      size_t p;
      while ((p = s.find('@')) != std::string::npos) s.replace(p, 1, b);
      return s;
    };
    for (auto& s : ctx) MustReject(c, reg, put(s), true);
    for (auto& s : pctx) MustReject(c, reg, put(s), false, true);
  }
  // and the same places accept a good one
  if (c.Begin("positions of a good expression")) {
    for (auto& s : ctx) {
      std::string t = s;
      t.replace(t.find('@'), 1, "(ld_i32(entry_arg, 0) + 1)");
      auto e = TryCompile(t, reg);
      c.Eval();
      if (!e.empty()) c.Fail("refused: " + t + ": " + e);
    }
    for (auto& s : pctx) {
      std::string t = s;
      t.replace(t.find('@'), 1, "(ld_i32(entry_arg, 0) + 1)");
      athena::AthenaPipeline ap;
      auto st = ap.Compile({t}, reg);
      c.Eval();
      if (!st.ok()) c.Fail("refused: " + t + ": " + st.ToString());
    }
  }
  // conditions of blocks, by type
  if (c.Begin("types of block conditions"))
    for (T t : all)
      for (auto* s : {"when @ { a = 1; }", "when 1 { a = 1; } elif @ { a = 1; }", "when 1 { when @ { a = 1; } }"}) {
        std::string q = s;
        q.replace(q.find('@'), 1, Ld(t, 0));
        athena::AthenaPipeline ap;
        c.Eval();
        if (IsNum(t) != ap.Compile({q}, reg).ok()) c.Fail(q + (IsNum(t) ? " is refused" : " is accepted"));
      }
}
void Zero(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (auto* op : {"/", "%"})
    for (T z : Nums()) {
      if (!c.Begin([&] { return std::string("literal zero divisor ") + op + " " + Name(z); })) continue;
      std::vector<Good> good;
      for (T t : Nums()) {
        std::string l = Ld(t, 0), zero = IsFloat(z) ? std::string("0.0") + Name(z) : std::string("0") + Name(z);
        bool ok = IsFloat(z);
        Check(c, reg, good, l + " " + op + " " + zero, ok ? std::optional<T>(Promote(t, z)) : std::nullopt, {t}, true);
        Check(c, reg, good, l + " " + op + " 1" + (IsFloat(z) ? std::string(".0") : "") + Name(z), Promote(t, z), {t}, true);
      }
      MustAccept(c, reg, good);
    }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string&) {
    thorough = c.thorough;
    ReadSignatures();
    auto reg = NewRegistry();
    AddStores(reg.get());
    Positions(c, reg);
    Zero(c, reg);
    Conditionals(c, reg);
    Operators(c, reg);
    Functions(c, reg);
  });
}
