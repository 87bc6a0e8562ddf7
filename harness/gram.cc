// C04: precedence, associativity and lexical rules.  The reference is a precedence-climbing parser over token lists
// and an evaluator over its trees; what is compared is what the compiled program computes.
#include <set>
#include "jf.h"
using namespace jf;

namespace {
bool thorough = false;
struct E;
using P = std::shared_ptr<E>;
struct E {
  int k = 0;  // 0 operand, 1 unary, 2 binary, 3 in
  int leaf = 0;
  Un un{};
  Op op{};
  P l, r;
};
P Leaf(int i) {
  auto e = std::make_shared<E>();
  e->leaf = i;
  return e;
}
P MkUn(Un u, P a) {
  auto e = std::make_shared<E>();
  e->k = 1, e->un = u, e->l = a;
  return e;
}
struct BOp {
  bool in = false;
  Op op{};
};
bool operator<(const BOp& a, const BOp& b) { return std::pair(a.in, a.op) < std::pair(b.in, b.op); }
P MkBin(BOp o, P a, P b) {
  auto e = std::make_shared<E>();
  e->k = o.in ? 3 : 2, e->op = o.op, e->l = a, e->r = b;
  return e;
}
int Prec(const BOp& o) {
  if (o.in) return 3;
  switch (o.op) {
    case Op::kLor: return 1;
    case Op::kLand: return 2;
    case Op::kOr: return 4;
    case Op::kXor: return 5;
    case Op::kAnd: return 6;
    case Op::kEq:
    case Op::kNe: return 7;
    case Op::kLt:
    case Op::kLe:
    case Op::kGt:
    case Op::kGe: return 8;
    case Op::kShl:
    case Op::kShr: return 9;
    case Op::kAdd:
    case Op::kSub: return 10;
    default: return 11;
  }
}
std::string Sp(const BOp& o) { return o.in ? "in" : OpText(o.op); }
std::string Sp(Un u) {
  for (auto& i : Uns())
    if (i.op == u) return i.text;
  return "?";
}
// operands with prefixes, joined by binary operators
struct Flat {
  std::vector<std::vector<Un>> pre;
  std::vector<BOp> ops;
};
P Climb(const Flat& f, size_t& pos, int min) {
  P lhs = Leaf(static_cast<int>(pos));
  for (auto it = f.pre[pos].rbegin(); it != f.pre[pos].rend(); ++it) lhs = MkUn(*it, lhs);
  while (pos < f.ops.size() && Prec(f.ops[pos]) >= min) {
    BOp o = f.ops[pos++];
    P rhs = Climb(f, pos, Prec(o) + 1);
    lhs = MkBin(o, lhs, rhs);
  }
  return lhs;
}
P Parse(const Flat& f) {
  size_t pos = 0;
  return Climb(f, pos, 0);
}
std::optional<T> Type(const P& e, const std::vector<T>& t) {
  if (e->k == 0) return t[static_cast<size_t>(e->leaf)];
  auto a = Type(e->l, t);
  if (!a) return std::nullopt;
  if (e->k == 1) return UnType(e->un, *a);
  auto b = Type(e->r, t);
  if (!b) return std::nullopt;
  if (e->k == 3) return ListOf(*a) == *b && *a != T::kUnknown ? std::optional<T>(kU8) : std::nullopt;
  return BinType(e->op, *a, *b);
}
std::optional<Val> Eval(const P& e, const std::vector<Val>& v) {
  if (e->k == 0) return v[static_cast<size_t>(e->leaf)];
  auto a = Eval(e->l, v);
  if (!a) return std::nullopt;
  if (e->k == 1) {
    auto r = UnOp(e->un, {a->t, a->u});
    return r ? std::optional<Val>(N(*r)) : std::nullopt;
  }
  if (e->k == 2 && IsLogic(e->op)) {
    auto x = Truth(a->t, a->u);
    if (!x) return std::nullopt;
    if (*x == (e->op == Op::kLor)) return N(kU8, *x);
  }
  auto b = Eval(e->r, v);
  if (!b) return std::nullopt;
  if (e->k == 3) {
    bool hit = false;
    for (auto u : b->l) hit |= SameTypeOp(Op::kEq, a->t, a->u, u)->u != 0;
    return N(kU8, hit);
  }
  if (IsList(a->t)) {
    Val r = *a;
    r.l.insert(r.l.end(), b->l.begin(), b->l.end());
    return r;
  }
  auto r = Bin(e->op, {a->t, a->u}, {b->t, b->u});
  return r ? std::optional<Val>(N(*r)) : std::nullopt;
}
const char* kVar[] = {"a", "b", "c", "d", "e"};
std::string Decl(const std::vector<T>& t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) s += std::string(kVar[i]) + " = " + Ld(t[i], static_cast<int>(i)) + "; ";
  return s;
}
std::string Text(const Flat& f) {
  std::string s;
  for (size_t i = 0; i < f.pre.size(); i++) {
    if (i) s += " " + Sp(f.ops[i - 1]) + " ";
    for (Un u : f.pre[i]) s += Sp(u) + " ";
    s += kVar[i];
  }
  return s;
}
// fully parenthesised, or only where the table needs it
std::string Full(const P& e) {
  if (e->k == 0) return kVar[e->leaf];
  if (e->k == 1) return "(" + Sp(e->un) + Full(e->l) + ")";
  return "(" + Full(e->l) + " " + Sp({e->k == 3, e->op}) + " " + Full(e->r) + ")";
}
int PrecE(const P& e) { return e->k == 0 ? 99 : e->k == 1 ? 12 : Prec({e->k == 3, e->op}); }
std::string Min(const P& e) {
  auto sub = [](const P& x, int need) { return PrecE(x) < need ? "(" + Min(x) + ")" : Min(x); };
  if (e->k == 0) return kVar[e->leaf];
  if (e->k == 1) return Sp(e->un) + " " + sub(e->l, 12);
  int p = PrecE(e);
  return sub(e->l, p) + " " + Sp({e->k == 3, e->op}) + " " + sub(e->r, p + 1);
}

// the operand tuples; undefined results are not executed
const std::vector<std::vector<Val>>& Tuples(const std::vector<T>& t) {
  static std::map<std::vector<T>, std::vector<std::vector<Val>>> memo;
  auto& out = memo[t];
  if (!out.empty()) return out;
  std::vector<std::vector<Val>> dom;
  for (T x : t) {
    std::vector<Val> d;
    if (IsNum(x))
      for (int i : {1, 2, 3, 6, 0, -5}) {
        // the full cross product only over the values that are always defined
        if (t.size() > 3 && (i == 0 || i == -5)) continue;
        if (t.size() > 4 && i == 6) continue;
        d.push_back(N(x, Wrap(x, i)));
      }
    else if (x == kStrL)
      d = {SL({"a"}), SL({})};
    else
      for (auto l : {std::vector<uint64_t>{1, 3}, std::vector<uint64_t>{0, 6, 2}}) d.push_back(L(x, l));
    dom.push_back(d);
  }
  std::vector<Val> cur;
  std::function<void()> rec = [&] {
    if (cur.size() == t.size()) {
      out.push_back(cur);
      return;
    }
    for (auto& v : dom[cur.size()]) {
      cur.push_back(v);
      rec();
      cur.pop_back();
    }
  };
  rec();
  // mixed signs and zeros for the longer ones
  if (t.size() > 3)
    for (size_t r = 0; r < t.size(); r++) {
      std::vector<Val> v;
      const int k[] = {0, -7, 5, 13, 2};
      for (size_t i = 0; i < t.size(); i++) v.push_back(IsNum(t[i]) ? N(t[i], Wrap(t[i], k[(i + r) % 5])) : dom[i][0]);
      out.push_back(v);
    }
  return out;
}

struct Prog {
  std::string src;
  P tree;
};
// compile the programs together and compare each on every tuple
void RunAll(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const std::vector<Prog>& ps, const std::vector<T>& types) {
  Batch b;
  std::vector<size_t> id;
  for (auto& p : ps) id.push_back(b.AddProgram(p.src));
  b.Compile(reg);
  std::vector<Slot> slots(types.size());
  Args args;
  for (size_t i = 0; i < types.size(); i++) args.a[i] = &slots[i];
  std::vector<bool> dead(ps.size());
  for (size_t i = 0; i < ps.size(); i++)
    if (!b.Error(id[i]).empty()) {
      c.Fail(ps[i].src + ": " + b.Error(id[i]));
      dead[i] = true;
    }
  for (auto& tup : Tuples(types)) {
    for (size_t i = 0; i < tup.size(); i++) slots[i].Set(tup[i]);
    c.Beat();
    for (size_t i = 0; i < ps.size(); i++) {
      if (dead[i]) continue;
      auto want = Eval(ps[i].tree, tup);
      if (!want) continue;
      c.Sub(ps[i].src);
      Val got;
      auto st = b.Run(id[i], args, &got);
      c.Eval();
      c.Outcome(vf::Hash(ps[i].src, want->u));
      if (!st.ok() || !Same(got, *want)) {
        std::string s;
        for (size_t k = 0; k < tup.size(); k++) s += std::string(k ? ", " : "") + kVar[k] + " = " + Show(tup[k]);
        c.Fail(ps[i].src + " with " + s + ": got " + (st.ok() ? Show(got) : st.ToString()) + ", the documented grouping " + Full(ps[i].tree) + " gives " + Show(*want));
        dead[i] = true;
      }
    }
  }
  c.Extra("programs", ps.size());
  if (!ps.empty()) c.SampleOf(ps[0].src.substr(0, 0) + "tree", ps[ps.size() / 2].src + " is " + Full(ps[ps.size() / 2].tree));
}
std::vector<BOp> AllOps() {
  std::vector<BOp> v;
  for (auto& o : Ops()) v.push_back({false, o.op});
  return v;
}
std::vector<std::vector<Un>> Prefixes(int n) {
  std::vector<std::vector<Un>> v{{}};
  size_t from = 0;
  for (int k = 0; k < n; k++) {
    size_t to = v.size();
    for (size_t i = from; i < to; i++)
      for (auto& u : Uns()) {
        auto x = v[i];
        x.push_back(u.op);
        v.push_back(x);
      }
    from = to;
  }
  return v;
}

void Sequences(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto ops = AllOps();
  auto pre1 = Prefixes(1);
  // two operators, a prefix or none on every operand
  for (auto& o1 : ops)
    for (auto& o2 : ops) {
      if (!c.Begin([&] { return "a " + Sp(o1) + " b " + Sp(o2) + " c"; })) continue;
      std::vector<T> t(3, kI32);
      std::vector<Prog> ps;
      for (auto& p0 : pre1)
        for (auto& p1 : pre1)
          for (auto& p2 : pre1) {
            if (!thorough && !p0.empty() + !p1.empty() + !p2.empty() > 1) continue;
            Flat f{{p0, p1, p2}, {o1, o2}};
            P e = Parse(f);
            ps.push_back({Decl(t) + Text(f) + ";", e});
          }
      RunAll(c, reg, ps, t);
    }
  // runs of prefixes around one operator
  auto pre3 = Prefixes(3);
  for (auto& o : ops) {
    if (!c.Begin([&] { return "prefix runs around " + Sp(o); })) continue;
    std::vector<T> t(2, kI32);
    std::vector<Prog> ps;
    for (auto& p : pre3) {
      Flat f{{p, {}}, {o}}, g{{{}, p}, {o}};
      ps.push_back({Decl(t) + Text(f) + ";", Parse(f)});
      ps.push_back({Decl(t) + Text(g) + ";", Parse(g)});
    }
    RunAll(c, reg, ps, t);
  }
  // three operators
  for (auto& o1 : ops)
    for (auto& o2 : ops) {
      if (!c.Begin([&] { return "a " + Sp(o1) + " b " + Sp(o2) + " c ? d"; })) continue;
      std::vector<T> t(4, kI32);
      std::vector<Prog> ps;
      for (auto& o3 : ops) {
        Flat f{{{}, {}, {}, {}}, {o1, o2, o3}};
        ps.push_back({Decl(t) + Text(f) + ";", Parse(f)});
      }
      RunAll(c, reg, ps, t);
    }
  if (thorough)
    for (auto& o1 : ops)
      for (auto& o2 : ops)
        for (auto& o3 : ops) {
          if (!c.Begin([&] { return "a " + Sp(o1) + " b " + Sp(o2) + " c " + Sp(o3) + " d ? e"; })) continue;
          std::vector<T> t(5, kI32);
          std::vector<Prog> ps;
          for (auto& o4 : ops) {
            Flat f{{{}, {}, {}, {}, {}}, {o1, o2, o3, o4}};
            ps.push_back({Decl(t) + Text(f) + ";", Parse(f)});
          }
          RunAll(c, reg, ps, t);
        }
  // every tree of three operators, written with the parentheses it needs and with all of them
  auto tree = [&](int shape, BOp x, BOp y, BOp z) {
    P a = Leaf(0), b = Leaf(1), d = Leaf(2), e = Leaf(3);
    switch (shape) {
      case 0: return MkBin(z, MkBin(y, MkBin(x, a, b), d), e);
      case 1: return MkBin(z, MkBin(x, a, MkBin(y, b, d)), e);
      case 2: return MkBin(y, MkBin(x, a, b), MkBin(z, d, e));
      case 3: return MkBin(x, a, MkBin(z, MkBin(y, b, d), e));
      default: return MkBin(x, a, MkBin(y, b, MkBin(z, d, e)));
    }
  };
  for (auto& o1 : ops)
    for (auto& o2 : ops)
      for (int half = 0; half < (thorough ? 2 : 1); half++) {
        if (!c.Begin([&] { return "trees " + Sp(o1) + " " + Sp(o2) + " ?" + (half ? " full" : " minimal"); })) continue;
        std::vector<T> t(4, kI32);
        std::vector<Prog> ps;
        for (auto& o3 : ops)
          for (int s = 0; s < 5; s++) {
            P e = tree(s, o1, o2, o3);
            if (!Type(e, t)) continue;
            ps.push_back({Decl(t) + (half ? Full(e) : Min(e)) + ";", e});
          }
        RunAll(c, reg, ps, t);
      }
  // prefixes over subtrees
  for (auto& o1 : ops)
    for (auto& o2 : ops) {
      if (!c.Begin([&] { return "prefixed trees " + Sp(o1) + " " + Sp(o2); })) continue;
      std::vector<T> t(3, kI32);
      std::vector<Prog> ps;
      for (auto& u : Uns())
        for (int s = 0; s < 4; s++) {
          P a = Leaf(0), b = Leaf(1), d = Leaf(2);
          P e = s == 0   ? MkBin(o2, MkUn(u.op, MkBin(o1, a, b)), d)
                : s == 1 ? MkBin(o1, a, MkUn(u.op, MkBin(o2, b, d)))
                : s == 2 ? MkUn(u.op, MkBin(o2, MkBin(o1, a, b), d))
                         : MkUn(u.op, MkBin(o1, a, MkBin(o2, b, d)));
          if (!Type(e, t)) continue;
          ps.push_back({Decl(t) + Min(e) + ";", e});
          ps.push_back({Decl(t) + "((" + Full(e) + "));", e});
        }
      RunAll(c, reg, ps, t);
    }
}

// `in` with every neighbour: operand types decide whether the documented grouping is well typed
void Membership(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto ops = AllOps();
  ops.push_back({true, Op::kAdd});
  const std::vector<T> ts{kI32, kU8, T::kI32List, T::kU8List};
  for (auto& o1 : ops)
    for (auto& o2 : ops) {
      if (!o1.in && !o2.in) continue;
      if (!c.Begin([&] { return "a " + Sp(o1) + " b " + Sp(o2) + " c over types"; })) continue;
      for (T x : ts)
        for (T y : ts)
          for (T z : ts) {
            std::vector<T> t{x, y, z};
            Flat f{{{}, {}, {}}, {o1, o2}};
            P e = Parse(f);
            std::string src = Decl(t) + Text(f) + ";";
            // the other grouping decides whether this one is worth a compile
            P other = PrecE(e) == Prec(o1) && e->l->k == 0 ? MkBin(o2, MkBin(o1, Leaf(0), Leaf(1)), Leaf(2)) : MkBin(o1, Leaf(0), MkBin(o2, Leaf(1), Leaf(2)));
            if (Type(e, t)) {
              RunAll(c, reg, {{src, e}}, t);
              RunAll(c, reg, {{Decl(t) + Full(e) + ";", e}}, t);
            } else if (Type(other, t)) {
              c.Eval();
              c.Extra("programs");
              std::string err = TryCompile(src, reg);
              if (err.empty()) c.Fail(src + ": accepted, but the documented grouping " + Full(e) + " is not well typed");
              else if (err.rfind("compile", 0) != 0) c.Fail(src + ": " + err);
            }
          }
    }
}

// ------------------------------------------------------------- spellings, gaps, names
void Spellings(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto alts = [](const BOp& o) -> std::vector<std::string> {
    if (o.op == Op::kLand) return {" and ", " && ", "&&"};
    if (o.op == Op::kLor) return {" or ", " || ", "||"};
    if (o.op == Op::kNe) return {" != ", " <> ", "!=", "<>"};
    return {Sp(o), " " + Sp(o) + " "};
  };
  for (auto& o1 : AllOps())
    for (auto& o2 : AllOps()) {
      auto has = [](const BOp& o) { return o.op == Op::kLand || o.op == Op::kLor || o.op == Op::kNe; };
      if (!has(o1) && !has(o2) && o1.op != o2.op) continue;
      if (!c.Begin([&] { return "spellings of a " + Sp(o1) + " b " + Sp(o2) + " c"; })) continue;
      std::vector<T> t(3, kI32);
      std::vector<Prog> ps;
      for (auto& s1 : alts(o1))
        for (auto& s2 : alts(o2))
          for (auto& n0 : {"", "!", "not "})
            for (auto& n2 : {"", "!", " not "}) {
              Flat f{{{}, {}, {}}, {o1, o2}};
              if (*n0) f.pre[0] = {Un::kNot};
              if (*n2) f.pre[2] = {Un::kNot};
              // an operator followed by '=' or '!' could read as another token
              ps.push_back({Decl(t) + n0 + "a" + s1 + "b" + s2 + n2 + "c;", Parse(f)});
            }
      RunAll(c, reg, ps, t);
    }
}

struct Base {
  const char* name;
  bool pipeline;
  std::vector<std::string> tok;
};
const std::vector<Base>& Bases() {
  static const std::vector<Base> b{
      {"arith", false,
       {"let", "x", "=", "ld_i32", "(", "entry_arg", ",", "0", ")", ";", "y", "=", "-", "x", "+", "3i32", "*", "2", "/", "1u8", "%", "5", "-", "~", "7", ";",
        "z", "=", "if", "(", "x", ">", "1", "and", "not", "y", "==", "3", "or", "x", "<=", "2", ",", "[", "1", ",", "2", "]", ",", "[", "3", "]", "+", "[", "4", "]", ")", ";",
        "Len", "(", "z", ")", "<<", "2", ">>", "1", "|", "1", "^", "2", "&", "3", ";"}},
      {"text", false,
       {"x", "=", "ld_i32", "(", "entry_arg", ",", "0", ")", ";", "s", "=", "switch", "(", "x", "<", "1", ",", "'a'", ",", "x", ">=", "2", "&&", "x", "!=", "5", "||", "!", "x", ",",
        "\"b // c\"", ",", "'d /* e */'", ")", ";", "StringLen", "(", "s", ")", "+", "(", "s", "in", "[", "\"a\"", ",", "'b // c'", "]", ")", "*", "100", "+", "(", "s", "<>", "'q*/'", ")", ";"}},
      {"real", false,
       {"x", "=", "ld_i32", "(", "entry_arg", ",", "0", ")", ";", "1.5", "*", ".5f32", "+", "2.", "-", "x", "/", "4f64", "+", "true", "-", "false", "+", "GetAt", "(", "[", "1.5", ",", "2.5f64", "]", ",", "0u32", ")", ";"}},
      {"blocks", true,
       {"let", "t", "=", "ld_i32", "(", "entry_arg", ",", "0", ")", ";", "q", "=", "1", ";", "when", "t", ">", "4", "{", "q", "=", "2", ";", "st_i32", "(", "output", ",", "1", ",", "q", ")", ";", "}",
        "elif", "t", "{", "let", "r", "=", "t", ";", "q", "=", "r", "+", "q", ";", "}", "else", "{", "when", "not", "t", "{", "st_i32", "(", "output", ",", "2", ",", "t", ")", ";", "}", "}",
        "st_i32", "(", "output", ",", "3", ",", "q", ")", ";"}},
  };
  return b;
}
bool Wordy(char ch) { return isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '.'; }
// may the two tokens touch?
bool Touch(const std::string& a, const std::string& b) {
  if (Wordy(a.back()) && Wordy(b[0])) return false;
  static const std::set<std::string> two{"==", "!=", "<>", "<=", ">=", "<<", ">>", "&&", "||", "//", "/*"};
  return !two.count(std::string(1, a.back()) + b[0]);
}
std::string Join(const std::vector<std::string>& tok, const std::function<std::string(size_t)>& gap) {
  // gap i stands before token i; gap n after the last
  std::string s;
  for (size_t i = 0; i < tok.size(); i++) {
    std::string g = gap(i);
    if (i > 0 && tok[i - 1] == "/" && !g.empty() && g[0] == '/') g = " " + g;
    s += g + tok[i];
  }
  return s + gap(tok.size());
}
void Gaps(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const std::vector<std::string> fill{" ", "\t", "\n", "\r\n", "\r", "  \n\t ", "// c\n", "//\n", "// a /* b\n", "/* c */", "/**/", "/***/", "/****/", "/* * / */", "/* // */", "/* a\n b */", "/* ; } ' \" */",
                                      "/*/*/", "//*/\n", "/* c *//* d */", "// c\n// d\n", " // c \r\n ", "/* * */", "/*a**/", "/*\xc3\xa9*/"};
  const std::vector<int> inputs{0, 2, 5};
  for (auto& base : Bases()) {
    auto& tok = base.tok;
    auto plain = [&](size_t i) { return std::string(i == 0 || i == tok.size() ? "" : " "); };
    // the values of the plain program
    std::vector<std::string> ref;
    auto run = [&](const std::string& src, std::vector<std::string>* out, std::string* err) {
      std::unique_ptr<ExecNode> n;
      athena::ProgramAstBuilder ab;
      auto st = base.pipeline ? ab.BuildPipeline(src, &n) : ab.BuildExpression(src, &n);
      if (!st.ok()) return void(*err = st.ToString());
      ExecEngine e;
      st = e.Compile(n, reg);
      if (!st.ok()) return void(*err = st.ToString());
      for (int x : inputs) {
        Slot s(N(kI32, static_cast<uint64_t>(x)));
        Args a;
        a.a[0] = &s;
        if (base.pipeline) {
          Recorder rec;
          st = e.Execute(&a, &rec);
          out->push_back(st.ok() ? ShowLog(rec.log) : st.ToString());
        } else {
          RetType r;
          st = e.Execute(&a, &r);
          out->push_back(st.ok() ? Show(FromRet(r)) : st.ToString());
        }
      }
    };
    std::vector<std::string> queue;
    auto prepare = [&] {
      if (ref.empty()) {
        std::string err;
        run(Join(tok, plain), &ref, &err);
        if (!err.empty()) c.Fail(Join(tok, plain) + ": " + err);
      }
    };
    auto variant = [&](const std::string& src) {
      prepare();
      if (!base.pipeline) return queue.push_back(src);
      c.Eval();
      c.Extra("programs");
      c.Sub(src);
      std::vector<std::string> got;
      std::string err;
      run(src, &got, &err);
      if (!err.empty()) return c.Fail(src + ": " + err);
      for (size_t i = 0; i < got.size(); i++)
        if (got[i] != ref[i]) return c.Fail(src + " with " + std::to_string(inputs[i]) + ": got " + got[i] + ", without the change in blanks and comments " + ref[i]);
      c.Outcome(vf::Hash(src));
    };
    // expressions are compiled together
    auto flush = [&] {
      Batch b;
      for (auto& q : queue) b.AddProgram(q);
      b.Compile(reg);
      for (size_t i = 0; i < queue.size(); i++) {
        c.Extra("programs");
        if (!b.Error(i).empty()) {
          c.Fail(queue[i] + ": " + b.Error(i));
          continue;
        }
        c.Outcome(vf::Hash(queue[i]));
        for (size_t k = 0; k < inputs.size(); k++) {
          Slot s(N(kI32, static_cast<uint64_t>(inputs[k])));
          Args a;
          a.a[0] = &s;
          Val v;
          auto st = b.Run(i, a, &v);
          c.Eval();
          std::string got = st.ok() ? Show(v) : st.ToString();
          if (k < ref.size() && got != ref[k]) {
            c.Fail(queue[i] + " with " + std::to_string(inputs[k]) + ": got " + got + ", without the change in blanks and comments " + ref[k]);
            break;
          }
        }
      }
      queue.clear();
    };
    for (size_t g = 0; g <= tok.size(); g++) {
      if (!c.Begin([&] { return std::string(base.name) + " gap " + std::to_string(g); })) continue;
      for (auto& f : fill) variant(Join(tok, [&](size_t i) { return i == g ? f : plain(i); }));
      // an open comment at the very end
      if (g == tok.size())
        for (auto* f : {"// c", "//", "/* c */", "// /* c", " ", "\n\n\n"}) variant(Join(tok, [&](size_t i) { return i == g ? f : plain(i); }));
      if (g > 0 && g < tok.size() && Touch(tok[g - 1], tok[g])) variant(Join(tok, [&](size_t i) { return i == g ? "" : plain(i); }));
      // two comments with code between them
      if (thorough || base.name == std::string("real"))
        for (size_t h = g + 1; h <= tok.size(); h++) {
          variant(Join(tok, [&](size_t i) { return i == g || i == h ? "/* c */" : plain(i); }));
          variant(Join(tok, [&](size_t i) { return i == g ? "// x /*\n" : i == h ? "/* ' */" : plain(i); }));
        }
      flush();
    }
    for (size_t k = 0; k < fill.size(); k++) {
      if (!c.Begin([&] { return std::string(base.name) + " filled " + std::to_string(k); })) continue;
      variant(Join(tok, [&](size_t) { return fill[k]; }));
      for (auto& f : fill) variant(Join(tok, [&](size_t i) { return i % 2 ? f : fill[k]; }));
      flush();
    }
    if (c.Begin([&] { return std::string(base.name) + " dense"; })) {
      variant(Join(tok, [&](size_t i) { return i == 0 || i == tok.size() || Touch(tok[i - 1], tok[i]) ? "" : " "; }));
      flush();
    }
  }
}

void Names(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const std::vector<std::string> kw{"let", "when", "if", "elif", "else", "switch", "in", "not", "and", "or", "true", "false", "entry_arg", "exec_ctx", "output", "u8", "i32", "f64"};
  std::vector<std::string> names;
  for (auto& k : kw) {
    for (auto* suf : {"x", "_", "1", "_in", "IN", "0u8"}) names.push_back(k + suf);
    for (auto* pre : {"x", "X_", "i", "n", "o"}) names.push_back(pre + k);
    std::string up = k;
    for (auto& ch : up) ch = static_cast<char>(toupper(ch));
    names.push_back(up);
    up = k;
    up[0] = static_cast<char>(toupper(up[0]));
    names.push_back(up);
    if (k.size() > 1) {
      std::string cut = k.substr(0, k.size() - 1);
      names.push_back(cut);
    }
    for (auto& k2 : kw) names.push_back(k + "_" + k2), names.push_back(k + k2);
  }
  for (char ch = 'a'; ch <= 'z'; ch++) names.push_back(std::string(1, ch)), names.push_back(std::string(1, static_cast<char>(toupper(ch)))), names.push_back(std::string(1, ch) + "9_Z");
  names.push_back(std::string(300, 'v'));
  std::set<std::string> kws(kw.begin(), kw.end() - 3);
  for (auto& n : names) {
    if (kws.count(n)) continue;
    if (!c.Begin([&] { return "name " + n.substr(0, 40); })) continue;
    for (int form = 0; form < 3; form++) {
      std::string src = form == 0   ? n + " = 20; let zz_9 = " + n + "+1; zz_9*2 - " + n + ";"
                        : form == 1 ? "let " + n + "=20;" + n + " +" + n + " + 2;"
                                    : "let yy_9=1; " + n + " = 10; " + n + " = " + n + " + " + n + "; if(" + n + " > 1 and yy_9, " + n + ", 0) + 2;";
      std::unique_ptr<ExecEngine> e;
      std::string err = TryCompile(src, reg, &e);
      c.Eval();
      if (!err.empty()) {
        c.Fail(src + ": " + err);
        continue;
      }
      RetType r;
      int want = form == 0 ? 22 : form == 1 ? 42 : 22;
      auto st = e->Execute(nullptr, &r);
      if (!st.ok() || !Same(FromRet(r), N(kI32, static_cast<uint64_t>(want)))) c.Fail(src + ": got " + (st.ok() ? Show(FromRet(r)) : st.ToString()) + ", expected " + std::to_string(want));
      c.Outcome(vf::Hash(src));
    }
  }
  // a keyword is no name
  for (auto& k : kws) {
    if (!c.Begin([&] { return "keyword " + k; })) continue;
    for (auto& src : {k + " = 1; 2;", "let " + k + " = 1; 2;", "x = 1; " + k + "(x) ;"}) {
      if ((k == "if" || k == "switch") && src[0] == 'x') continue;
      if (k == "not" && src[0] == 'x') continue;  // not (x) is an expression
      c.Eval();
      if (TryCompile(src, reg).empty()) c.Fail(src + ": accepted");
    }
  }
  // comment markers and the other quote inside strings
  const std::vector<std::string> bits{"//", "/*", "*/", "'", "\"", "\n", ";", "\\\\", "x", " ", "#"};
  for (char q : {'"', '\''}) {
    for (auto& a : bits) {
      if (!c.Begin([&] { return std::string("string ") + q + " " + a; })) continue;
      Batch b;
      std::vector<std::pair<size_t, std::string>> want;
      for (auto& x : bits)
        for (auto& y : bits) {
          std::string s = a + x + y;
          if (s.find(q) != std::string::npos) continue;
          want.emplace_back(b.AddProgram(std::string("s = ") + q + s + q + "; s; /* " + (q == '"' ? "it's" : "\"") + " */"), s);
          want.emplace_back(b.AddProgram(std::string("StringConcat(") + q + s + q + ", " + q + s + q + "); // " + q), s + s);
        }
      b.Compile(reg);
      for (auto& [i, s] : want) {
        c.Eval();
        Val got;
        if (!b.Error(i).empty()) {
          c.Fail(b.Src(i) + ": " + b.Error(i));
          continue;
        }
        auto st = b.Run(i, Args{}, &got);
        if (!st.ok() || !Same(got, S(s))) c.Fail(b.Src(i) + ": got " + (st.ok() ? Show(got) : st.ToString()));
        c.Outcome(vf::Hash(s));
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string&) {
    thorough = c.thorough;
    auto reg = NewRegistry();
    AddStores(reg.get());
    Sequences(c, reg);
    Membership(c, reg);
    Spellings(c, reg);
    Gaps(c, reg);
    Names(c, reg);
  });
}
