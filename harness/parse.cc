// C09: every source text ends in a status.  The reference is a scanner and a recogniser written from the grammar in the
// documentation; the real builder is run on every text of the bound, alone and after other texts.
#include <fcntl.h>
#include <functional>
#include <sys/stat.h>
#include "jf.h"
#include "status.h"
using namespace jf;

namespace {
bool thorough = false, lean = false;
// ---------------------------------------------------------------- reference scanner
enum Tk {
  tLet, tWhen, tIf, tElif, tElse, tSwitch, tIn, tNot, tAnd, tOr, tTrue, tFalse, tMinus, tPlus, tStar, tSlash, tLP, tRP, tMod, tBor, tXor,
  tBand, tTilde, tShl, tShr, tEq, tAssign, tNe, tLt, tLe, tGt, tGe, tComma, tLB, tRB, tSemi, tLC, tRC, tEntry, tCtx, tOut, tId,
  tI8, tI16, tI32, tI64, tU8, tU16, tU32, tU64, tF32, tF64, tStr, tEnd, tBad
};
struct Tok {
  Tk k;
  std::string s;
  int line, col;
};
struct Scanned {
  std::vector<Tok> t;
  bool bad = false;  // no token matches somewhere
  bool any = false;  // a literal without a defined value
};
bool Al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool Dg(char c) { return c >= '0' && c <= '9'; }
Scanned Scan(const std::string& s) {
  Scanned r;
  static const std::map<std::string, Tk> kw = {{"let", tLet}, {"when", tWhen}, {"if", tIf}, {"elif", tElif}, {"else", tElse}, {"switch", tSwitch},
      {"in", tIn}, {"not", tNot}, {"and", tAnd}, {"or", tOr}, {"true", tTrue}, {"false", tFalse}, {"entry_arg", tEntry}, {"exec_ctx", tCtx}, {"output", tOut}};
  static const std::vector<std::pair<std::string, Tk>> sym = {{"&&", tAnd}, {"||", tOr}, {"==", tEq}, {"!=", tNe}, {"<>", tNe}, {"<=", tLe}, {">=", tGe},
      {"<<", tShl}, {">>", tShr}, {"-", tMinus}, {"+", tPlus}, {"*", tStar}, {"/", tSlash}, {"(", tLP}, {")", tRP}, {"%", tMod}, {"|", tBor}, {"^", tXor},
      {"&", tBand}, {"~", tTilde}, {"=", tAssign}, {"<", tLt}, {">", tGt}, {",", tComma}, {"[", tLB}, {"]", tRB}, {";", tSemi}, {"{", tLC}, {"}", tRC}, {"!", tNot}};
  static const std::vector<std::pair<std::string, Tk>> suf = {{"u16", tU16}, {"u32", tU32}, {"u64", tU64}, {"i16", tI16}, {"i32", tI32}, {"i64", tI64},
      {"f32", tF32}, {"f64", tF64}, {"u8", tU8}, {"i8", tI8}};
  size_t i = 0, n = s.find('\0');
  if (n == std::string::npos) n = s.size();
  int line = 1, col = 1;
  auto eat = [&](size_t m) {
    for (size_t e = i + m; i < e; i++) s[i] == '\n' ? (line++, col = 1) : col++;
  };
  auto at = [&](size_t j) { return j < n ? s[j] : '\0'; };
  while (i < n) {
    char c = s[i];
    if (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
      eat(1);
      continue;
    }
    if (c == '/' && at(i + 1) == '/') {
      size_t j = i;
      while (j < n && s[j] != '\n') j++;
      eat(j - i);
      continue;
    }
    if (c == '/' && at(i + 1) == '*') {
      size_t j = s.find("*/", i + 2);
      if (j != std::string::npos && j < n) {
        eat(j + 2 - i);
        continue;
      }
    }
    Tok t{tBad, "", line, col};
    size_t m = 0;
    if (Al(c)) {
      while (Al(at(i + m)) || Dg(at(i + m)) || at(i + m) == '_') m++;
      t.s = s.substr(i, m);
      auto k = kw.find(t.s);
      t.k = k == kw.end() ? tId : k->second;
    } else if (Dg(c) || (c == '.' && Dg(at(i + 1)))) {
      while (Dg(at(i + m))) m++;
      size_t digits = m;
      bool fl = at(i + m) == '.';
      if (fl) {
        m++;
        while (Dg(at(i + m))) m++;
      }
      t.k = fl ? tF64 : tI32;
      size_t num = m;
      for (auto& [x, k] : suf)
        if (s.compare(i + m, x.size(), x) == 0 && i + m + x.size() <= n && (!fl || x[0] == 'f')) {
          t.k = k, m += x.size();
          break;
        }
      t.s = s.substr(i, m);
      if (t.k == tF32 || t.k == tF64) {
        double v = strtod(s.substr(i, num).c_str(), nullptr);
        if (!std::isfinite(v) || !std::isfinite(static_cast<float>(v)) || (v != 0 && v < 1e-30)) r.any = true;
      } else {
        static const std::map<Tk, uint64_t> mx = {{tI8, 127}, {tI16, 32767}, {tI32, 2147483647}, {tI64, INT64_MAX}, {tU8, 255}, {tU16, 65535}, {tU32, UINT32_MAX}, {tU64, UINT64_MAX}};
        if (digits > 18 || strtoull(s.substr(i, digits).c_str(), nullptr, 10) > mx.at(t.k)) r.any = true;
      }
    } else if (c == '"' || c == '\'') {
      size_t j = i + 1;
      while (j < n && s[j] != c) {
        if (s[j] == '\\') {
          if (j + 1 < n && s[j + 1] == '\n') r.any = true;
          j++;
        }
        j++;
      }
      if (j < n) m = j + 1 - i, t.k = tStr, t.s = s.substr(i, m);
    } else {
      for (auto& [x, k] : sym)
        if (s.compare(i, x.size(), x) == 0 && i + x.size() <= n) {
          m = x.size(), t.k = k, t.s = x;
          break;
        }
    }
    if (m == 0) {
      r.bad = true;
      return r;
    }
    r.t.push_back(t);
    eat(m);
  }
  return r;
}
// ---------------------------------------------------------------- reference recogniser
struct Verdict {
  enum { kOk, kSyntax, kUndefined, kConst, kAny } k = kOk;
  std::string name;
  int line = 0, col = 0;
  bool order = false;  // an else that is not the last part of its when
};
struct Rec {
  const std::vector<Tok>& t;
  bool expr_mode;
  size_t i = 0;
  bool bad = false;
  Verdict v;
  std::vector<std::map<std::string, bool>> scope{1};  // name -> let
  Tk Cur() const { return i < t.size() ? t[i].k : tEnd; }
  bool Take(Tk k) {
    if (bad || Cur() != k) return false;
    i++;
    return true;
  }
  void Need(Tk k) {
    if (!Take(k)) bad = true;
  }
  static bool Binary(Tk k) {
    switch (k) {
      case tIn: case tAnd: case tOr: case tMinus: case tPlus: case tStar: case tSlash: case tMod: case tBor: case tXor: case tBand:
      case tShl: case tShr: case tEq: case tNe: case tLt: case tLe: case tGt: case tGe: return true;
      default: return false;
    }
  }
  static bool Lit(Tk k) { return k >= tI8 && k <= tStr; }
  void Args() {
    do Expr();
    while (!bad && Take(tComma));
    Need(tRP);
  }
  void Expr() {
    while (!bad) {
      while (Cur() == tMinus || Cur() == tPlus || Cur() == tNot || Cur() == tTilde) i++;
      Prim();
      if (bad || !Binary(Cur())) return;
      i++;
    }
  }
  void Prim() {
    if (bad) return;
    Tk k = Cur();
    if (k == tTrue || k == tFalse || k == tEntry || k == tCtx || k == tOut || Lit(k)) {
      i++;
    } else if (k == tLP) {
      i++;
      Expr();
      Need(tRP);
    } else if (k == tLB) {
      i++;
      Tk e = Cur();
      if (!Lit(e)) bad = true;
      do Need(e);
      while (!bad && Take(tComma));
      Need(tRB);
    } else if (k == tIf || k == tSwitch) {
      i++;
      Need(tLP);
      if (!bad) Args();
    } else if (k == tId) {
      const Tok& x = t[i++];
      if (Take(tLP)) {
        if (!Take(tRP)) Args();
      } else if (v.k == Verdict::kOk) {
        bool found = false;
        for (auto& s : scope) found |= s.count(x.s) != 0;
        if (!found) v.k = Verdict::kUndefined, v.name = x.s, v.line = x.line, v.col = x.col;
      }
    } else {
      bad = true;
    }
  }
  void Define(const std::string& n, bool let) {
    if (expr_mode && v.k == Verdict::kOk) {
      auto it = scope.back().find(n);
      if (it != scope.back().end() && (it->second || let)) v.k = Verdict::kConst, v.name = n;
    }
    scope.back()[n] = let;
  }
  void Statement() {
    if (Take(tWhen)) {
      Expr();
      Block();
      bool closed = false;
      while (!bad) {
        if (Take(tElif)) {
          if (closed) v.order = true;
          Expr();
          Block();
        } else if (Take(tElse)) {
          if (closed) v.order = true;
          closed = true;
          Block();
        } else {
          break;
        }
      }
      if (expr_mode) bad = true;
      return;
    }
    bool let = Take(tLet);
    if (let && Cur() != tId) bad = true;
    if (Cur() == tId && (let || (i + 1 < t.size() && t[i + 1].k == tAssign))) {
      std::string n = t[i++].s;
      Need(tAssign);
      Expr();
      Need(tSemi);
      if (!bad) Define(n, let);
      return;
    }
    Expr();
    Need(tSemi);
  }
  void Block() {
    Need(tLC);
    if (bad) return;
    scope.emplace_back();
    do Statement();
    while (!bad && Cur() != tRC);
    Need(tRC);
    scope.pop_back();
  }
  void Program() {
    do Statement();
    while (!bad && Cur() != tEnd);
  }
};
Verdict Judge(const std::string& s, bool expr_mode) {
  Scanned sc = Scan(s);
  Verdict v;
  if (sc.any) {
    v.k = Verdict::kAny;
    return v;
  }
  if (sc.bad) {
    v.k = Verdict::kSyntax;
    return v;
  }
  Rec r{sc.t, expr_mode};
  r.Program();
  if (r.bad) r.v.k = Verdict::kSyntax;
  return r.v;
}
// ---------------------------------------------------------------- the real builder
int g_out = -1;
bool Silent() {
  fflush(stdout);
  struct stat st {};
  if (fstat(g_out, &st) != 0 || st.st_size == 0) return true;
  if (ftruncate(g_out, 0) != 0) return false;
  lseek(g_out, 0, SEEK_SET);
  return false;
}
struct Built {
  bool ok = false;
  std::string msg, tree;
  std::unique_ptr<ExecNode> node;
  bool operator==(const Built& o) const { return ok == o.ok && msg == o.msg && tree == o.tree; }
};
Built Build(athena::ProgramAstBuilder& b, const std::string& s, bool expr_mode, bool tree = false) {
  Built r;
  auto st = expr_mode ? b.BuildExpression(s, &r.node) : b.BuildPipeline(s, &r.node);
  r.ok = st.ok();
  r.msg = st.ToString();
  if (tree && r.node) r.tree = r.node->ToString();
  return r;
}
Built Fresh(const std::string& s, bool expr_mode, bool tree = false) {
  athena::ProgramAstBuilder b;
  return Build(b, s, expr_mode, tree);
}
std::string Show(const std::string& s, bool expr_mode) { return std::string(expr_mode ? "expression " : "pipeline ") + vf::JsonEsc(s); }
std::string Compare(const std::string& s, bool expr_mode, const Built& b, const Verdict& v) {
  if (v.k == Verdict::kAny) return "";
  if (b.ok != (v.k == Verdict::kOk)) return b.ok ? "was accepted" : "was rejected: " + b.msg;
  if (b.ok && !b.node) return "was accepted without a tree";
  if (b.ok) return "";
  if (b.node) return "was rejected and left a tree";
  if (b.msg.size() < 16 || b.msg.compare(0, 13, "Parse Error: ") != 0) return "was rejected with the message \"" + b.msg + "\"";
  if (v.k == Verdict::kUndefined) {
    std::string a = "variable '" + v.name + "' is not defined", p = "--> line " + std::to_string(v.line) + ", column " + std::to_string(v.col);
    if (b.msg.find(a) == std::string::npos) return "expected: " + a + ", got " + b.msg;
    size_t q = b.msg.find(p);
    if (q == std::string::npos || (q + p.size() < b.msg.size() && Dg(b.msg[q + p.size()]))) return "expected: " + p + ", got " + b.msg;
  }
  if (v.k == Verdict::kConst && b.msg.find("'" + v.name + "'") == std::string::npos) return "expected a message naming " + v.name + ", got " + b.msg;
  return "";
}
// both modes; accepted trees go to `took`
using Took = std::function<void(const std::string&, bool, Built&, const Verdict&)>;
void One(vf::Ctx& c, const std::string& s, const Took& took = nullptr) {
  for (bool e : {false, true}) {
    Verdict v = Judge(s, e);
    Built b = Fresh(s, e);
    c.Eval();
    std::string why = Compare(s, e, b, v);
    if (!why.empty()) c.Fail(Show(s, e) + " " + why);
    c.Extra(b.ok ? "accepted" : "rejected");
    if (b.ok) c.Outcome(s);
    if (b.ok && took) took(s, e, b, v);
  }
}
void End(vf::Ctx& c) {
  if (!Silent()) c.Fail("something was written to standard output");
}
std::unique_ptr<FunctionRegistry> g_reg;
void Compile(vf::Ctx& c, const std::string& s, bool e, Built& b, const Verdict& v) {
  if (!g_reg) g_reg = NewRegistry();
  ExecEngine eng{ExecEngineOption{}};
  c.Sub(Show(s, e));
  auto st = eng.Compile(b.node, g_reg);
  c.Eval();
  c.Extra(st.ok() ? "compiled" : "refused by the compiler");
  if (!st.ok() && st.ToString().size() < 10) c.Fail(Show(s, e) + " compiled to the status \"" + st.ToString() + "\"");
  if (v.order && st.ok()) c.Fail(Show(s, e) + ": an else before another part of the same when was accepted");
}
const std::vector<std::string> kTokens = {"x", "abs", "let", "=", ";", ",", "(", ")", "{", "}", "[", "]", "when", "elif", "else", "if", "switch", "in", "not",
    "and", "true", "1", "2.5", "\"s\"", "+", "-", "==", "<<", "~", "entry_arg", "exec_ctx", "output", "3u8"};

void Sequences(vf::Ctx& c) {
  struct Level {
    int len;
    std::vector<std::string> al;
  };
  std::vector<std::string> mid = {"x", "y", "let", "=", ";", ",", "(", ")", "{", "}", "[", "]", "when", "elif", "else", "if", "1", "-"};
  std::vector<std::string> low = {"x", "=", ";", "(", ")", "{", "}", "when", "else", "1", ","};
  std::vector<std::string> tiny = {"x", "=", ";", "{", "}", "when", "elif", "1"};
  std::vector<std::string> block = {"1", ";", "{", "}", "when", "else"};
  std::vector<Level> levels;
  if (lean) {
    levels = {{0, kTokens}, {1, kTokens}, {2, kTokens}, {3, kTokens}, {4, mid}, {5, low}};
  } else {
    levels = {{0, kTokens}, {1, kTokens}, {2, kTokens}, {3, kTokens}, {4, kTokens}, {5, mid}, {6, low}, {7, tiny}};
    if (thorough) levels.push_back({8, block}), levels.push_back({5, kTokens}), levels.push_back({6, mid}), levels.push_back({7, low}), levels.push_back({8, tiny}), levels.push_back({10, block});
  }
  for (auto& l : levels) {
    // a unit = the first two tokens (or the sequence, when shorter)
    int head = std::min(l.len, 2);
    std::function<void(int, const std::string&)> heads, rest;
    rest = [&](int k, const std::string& s) {
      if (k == 0) {
        One(c, s, [&](const std::string& q, bool e, Built& b, const Verdict& v) {
          if (l.len <= 5 || v.order) Compile(c, q, e, b, v);
        });
        return;
      }
      for (auto& a : l.al) {
        if (k > 2) c.Beat();
        rest(k - 1, s + a + " ");
      }
    };
    heads = [&](int k, const std::string& s) {
      if (k == 0) {
        if (!c.Begin([&] { return "sequences of " + std::to_string(l.len) + " over " + std::to_string(l.al.size()) + ": " + s; })) return;
        rest(l.len - head, s);
        End(c);
        return;
      }
      for (auto& a : l.al) heads(k - 1, s + a + " ");
    };
    heads(head, "");
  }
}
// ---------------------------------------------------------------- whole programs and their edits
const std::vector<std::string> kPrograms = {
    "x = 1 ; y = x + 2 ; y ;",
    "let x = 1u8 ; let y = - x * 3i64 ; if ( x < y , x , y ) ;",
    "switch ( 1 == 2 , \"a\" , true and not false , 'b' , \"c\" ) ;",
    "x = [ 1u32 , 2u32 , 3u32 ] ; Len ( x ) ;",
    "abs ( - 3 ) + abs ( ~ 4 ) << 2 ;",
    "1 in [ 1 , 2 ] or \"a\" in [ \"a\" , \"b\" ] ;",
    "when 1 { x = 1 ; } elif 2 { y = 2 ; y ; } else { z = 3 ; let w = z ; }",
    "x = 1 ; when x { when x + 1 { x = 2 ; } x = 3 ; } x ;",
    "let f = 2.5 ; g = f * 1.5f32 ; ( ( g ) ) >= f ;",
    "a = true ; b = false ; a and b or not a and not ( b or a ) ;",
    "x = entry_arg ; output ; exec_ctx ; 1 ;",
    "x = 1 ; x = x + 1 ; x = x * x ; x <= 4 ;",
    "when true { 1 ; } else { when false { 2 ; } elif true { 3 ; } else { 4 ; } }",
    "x = 1 | 2 ^ 3 & 4 ; x != 5 ; x % 2 - 1 / 3 >> 1 ;",
    "\"a\" + 'b' == \"ab\" ;",
    "if ( true , [ 1.0 , 2.0 ] , [ 3.0 ] ) ;",
};
std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(' ', i);
    if (j == std::string::npos) j = s.size();
    if (j > i) r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
std::string Join(const std::vector<std::string>& t, const char* sep = " ") {
  std::string s;
  for (auto& x : t) s += x + sep;
  return s;
}
void Edits(const std::vector<std::string>& t, const std::function<void(const std::vector<std::string>&)>& f) {
  for (size_t i = 0; i <= t.size(); i++) {
    auto p = t;
    p.resize(i);
    f(p);
    f({t.begin() + static_cast<long>(i), t.end()});
    for (auto& a : kTokens) {
      auto q = t;
      q.insert(q.begin() + static_cast<long>(i), a);
      f(q);
    }
    if (i == t.size()) continue;
    auto q = t;
    q.erase(q.begin() + static_cast<long>(i));
    f(q);
    for (auto& a : kTokens) {
      q = t;
      q[i] = a;
      f(q);
    }
    for (size_t j = i + 1; j < t.size(); j++) {
      q = t;
      std::swap(q[i], q[j]);
      f(q);
      q = t;
      q.erase(q.begin() + static_cast<long>(i), q.begin() + static_cast<long>(j));
      f(q);
    }
  }
}
void Programs(vf::Ctx& c) {
  const std::vector<std::string> second = {";", "x", "=", "(", ")", "{", "}", ",", "]", "1", "-", "else"};
  for (auto& p : kPrograms) {
    auto t = Split(p);
    if (c.Begin([&] { return "edits of " + p; })) {
      Edits(t, [&](auto& q) {
        std::string s = Join(q);
        One(c, s, [&](const std::string& z, bool e, Built& b, const Verdict& v) {
          if (!lean) Compile(c, z, e, b, v);
        });
      });
      // written without blanks where the tokens allow it, and with newlines and comments between them
      for (const char* sep : {"\n", "\t", "\r\n", " /* c */ ", " // c\n", "/*\n*\n**/", " /***/\n"}) One(c, Join(t, sep));
      for (size_t i = 0; i < t.size(); i++)
        for (const char* sep : {"\n\n  ", "/* a\n b */", "// c\n ", "\"l\nm\" ", "\t"}) {
          auto q = t;
          q[i] = sep + q[i];
          One(c, Join(q));
          q.insert(q.begin() + static_cast<long>(i) + 1, "zz");
          One(c, Join(q));
          q[i + 1] = "+ zz";
          One(c, Join(q));
        }
      End(c);
    }
    if (lean) continue;
    for (size_t k = 0; k < t.size(); k++)
      if (c.Begin([&] { return "double edits of " + p + " after " + std::to_string(k); })) {
        for (auto& a : kTokens)
          for (int how : {0, 1}) {
            if (!thorough && how) continue;
            auto q = t;
            if (how) q.insert(q.begin() + static_cast<long>(k), a);
            else q[k] = a;
            for (size_t i = k + 1; i < q.size(); i++) {
              c.Beat();
              auto d = q;
              d.erase(d.begin() + static_cast<long>(i));
              One(c, Join(d));
              for (auto& b : thorough ? kTokens : second) {
                d = q;
                d[i] = b;
                One(c, Join(d));
                if (!thorough) continue;
                d = q;
                d.insert(d.begin() + static_cast<long>(i), b);
                One(c, Join(d));
              }
            }
          }
        End(c);
      }
  }
}
// ---------------------------------------------------------------- bytes
void Bytes(vf::Ctx& c) {
  auto contexts = [&](const std::string& b, bool all) {
    One(c, b);
    One(c, b + ";");
    if (!all) return;
    One(c, "x = 1 " + b + " 2;");
    One(c, "x = 1;" + b + "x;");
    One(c, "\"" + b + "\";");
    One(c, "'" + b + "';");
    One(c, "/*" + b + "*/ 1;");
    One(c, "/*" + b + "*/ zz;");
    One(c, "1; //" + b);
    One(c, "\"" + b + "\"; zz;");
    One(c, "x" + b + "=1;x" + b + ";");
    One(c, "1" + b + ";");
  };
  for (int x = 1; x < 256; x++)
    if (c.Begin([&] { return "bytes starting with " + std::to_string(x); })) {
      std::string a(1, static_cast<char>(x));
      contexts(a, true);
      for (int y = 1; y < 256; y++) {
        if (!lean || (y < 128 && !isalnum(y))) contexts(a + static_cast<char>(y), !lean || x < 64);
      }
      End(c);
    }
  std::string h = "\"'\\/*\n\r\t.019axeu8f3_;=(){}[]<>&|!,+- \x80\xff#@$?`%";
  for (char x : h)
    for (char y : h)
      if (c.Begin([&] { return std::string("hostile bytes ") + x + y; })) {
        for (char z : h) {
          std::string s{x, y, z};
          contexts(s, !lean);
          c.Beat();
          if (!lean)
            for (char w : h) {
              if (thorough) contexts(s + w, true);
              else One(c, s + w + ";");
              if (thorough)
                for (char u : std::string("\"'\\/*\n. 1a;f8")) One(c, s + w + u + ";");
            }
        }
        End(c);
      }
}
// ---------------------------------------------------------------- one builder, several texts
std::vector<std::string> Texts() {
  std::vector<std::string> t = kPrograms;
  for (const char* s : {"", ";", "x", "x;", "y;", "zz + 1;", "x = zz;", "x = 1;", "let x = 1;", "let x = 1; x = 2;", "x = 1; let x = 2; x;", "x = 1", "when 1 { x = 1;",
                        "when 1 { let y = 1; zz; }", "when 1 { } ", "x = 1; when x { y = 2; when y { zz = 3;", "\"open", "/* open", "1 $ 2;", "99999999999999999999999;", "when 1 { x = 1; } x;",
                        "x = 1; when 1 { y = x; } y;", "1 + + 2;", "1 2;", "f(;", "[1, 2u8];", "[];", "}", "else { 1; }", "\n\n\n zz;", "x = [1, 2]; y = \"s\"; zz;", "if(;", "w = 1; when w { w = 99999999999999999999999; }",
                        "when 1 { 1; } else { zz; }", "a = zz; a;", "let a = zz; a = 1; a;"})
    t.push_back(s);
  return t;
}
void Histories(vf::Ctx& c) {
  auto t = Texts();
  std::map<std::pair<size_t, bool>, Built> fresh;
  auto same = [&](const std::vector<std::pair<size_t, bool>>& h) {
    athena::ProgramAstBuilder b;
    for (auto& [i, e] : h) {
      auto it = fresh.find({i, e});
      if (it == fresh.end()) it = fresh.emplace(std::pair(i, e), Fresh(t[i], e, true)).first;
      Built r = Build(b, t[i], e, true);
      c.Eval();
      c.Transition();
      if (!(r == it->second)) {
        std::string k;
        for (auto& [j, f] : h) k += Show(t[j], f) + " | ";
        c.Fail("one builder: " + k + " gave at " + Show(t[i], e) + ": " + r.msg + " " + r.tree + "; a fresh one: " + it->second.msg + " " + it->second.tree);
        return;
      }
    }
  };
  for (size_t i = 0; i < t.size(); i++)
    if (c.Begin([&] { return "texts after " + std::to_string(i) + " " + t[i]; })) {
      One(c, t[i]);
      for (bool e : {false, true})
        for (size_t j = 0; j < t.size(); j++)
          for (bool f : {false, true}) {
            same({{i, e}, {j, f}});
            c.Beat();
            if (lean) continue;
            for (size_t k = 0; k < t.size(); k += thorough ? 1 : 5)
              for (bool g : {false, true}) same({{i, e}, {j, f}, {k, g}});
          }
      End(c);
    }
  // a result already held must survive a failing build into the same pointer, and be replaced by a good one
  if (c.Begin("results held by the caller"))
    for (auto& s : t)
      for (bool e : {false, true}) {
        athena::ProgramAstBuilder b;
        std::unique_ptr<ExecNode> n;
        if (!b.BuildExpression("4 + 5;", &n).ok()) c.Fail("4 + 5; was rejected");
        std::string before = n ? n->ToString() : "";
        bool ok = e ? b.BuildExpression(s, &n).ok() : b.BuildPipeline(s, &n).ok();
        c.Eval();
        if (!n) c.Fail(Show(s, e) + " left no tree");
        else if (!ok && n->ToString() != before) c.Fail(Show(s, e) + " failed and changed the tree of the caller");
        else if (ok && n->ToString() != Fresh(s, e, true).tree) c.Fail(Show(s, e) + " gave another tree");
      }
  // the engines of the language, reused after failures
  for (size_t i = 0; i < t.size(); i++)
    if (!lean && c.Begin([&] { return "engines after " + std::to_string(i) + " " + t[i]; })) {
      auto reg = NewRegistry();
      athena::AthenaExpression x;
      athena::AthenaPipeline p, q;
      auto a = x.Compile(t[i], reg), b = p.Compile({t[i]}, reg), d = q.Compile({"a = 1;", t[i], "b = a2;"}, reg);
      if (a.ok() != Fresh(t[i], true).ok && a.ok()) c.Fail(t[i] + " compiled as an expression");
      if (b.ok() && !Fresh(t[i], false).ok) c.Fail(t[i] + " compiled as a pipeline");
      if (d.ok()) c.Fail("a pipeline list with an undefined variable compiled");
      for (auto* g : {"6 * 7;", "1 +;", "x = 5; x;"}) {
        auto st = x.Compile(g, reg);
        RetType r;
        bool good = std::string(g) != "1 +;";
        if (st.ok() != good) c.Fail(std::string(g) + " after " + t[i] + ": " + st.ToString());
        if (good && (!x.Execute(nullptr, &r).ok() || std::get<int32_t>(r) != (g[0] == '6' ? 42 : 5))) c.Fail(std::string(g) + " gave another value after " + t[i]);
        c.Eval();
      }
      End(c);
    }
}
// ---------------------------------------------------------------- what a message quotes
// A tree outlives the text and the builder it came from; its messages must quote the text as it was.
void Quotes(vf::Ctx& c) {
  const std::vector<std::string> wrong = {"1 + \"s\"", "-\"s\"", "~1.5", "!\"s\"", "\"s\" and 1", "1 in \"s\"", "if(\"s\", 1, 2)", "if(1, 2, \"s\")", "if(1, 2)", "switch(\"s\", 1, 2)",
      "switch(0, 1, \"s\")", "nofunc(1)", "abs(\"s\")", "abs(1, 2)", "1 / 0", "7 % 0", "1.5 << 1", "[1, 2] + [1.5]", "\"s\" == 1", "f2(exec_ctx)", "1 | 2.5", "nofunc(nofunc(1))"};
  const std::vector<std::pair<std::string, std::string>> around = {{"", ";"}, {"a = ", ";"}, {"a = 1;\nb = a;\nc = abs(", ");"}, {"/* several\nlines */\n\n\ta = 2 *\n\t(", "\n);\n// the end\n"},
      {"r = if(1,\n", ",\n3);"}, {"when 1 {\n  a = ", ";\n}\nelse {\n  b = 2;\n}\n"}};
  enum Fate { kKept, kOverwritten, kReused, kFreed, kBuilderGone, kBuilderReused, kAllGone, kFates };
  const char* fates[] = {"kept", "overwritten", "assigned another text", "freed", "kept, builder destroyed", "kept, builder used again", "freed and builder destroyed"};
  auto message = [&](const std::string& text, bool e, Fate f, int way, std::string* out) {
    auto src = std::make_unique<std::string>(text);
    auto b = std::make_unique<athena::ProgramAstBuilder>();
    std::unique_ptr<ExecNode> n, n2, tmp;
    auto st = e ? b->BuildExpression(*src, &n) : b->BuildPipeline(*src, &n);
    if (!st.ok()) return false;
    if (way == 2) n = n->Clone();  // the copy made while everything is there
    if (f == kOverwritten || f == kFreed || f == kAllGone) std::fill(src->begin(), src->end(), '#');
    if (f == kReused) *src = "another = 1;\n\n\nb = 2;" + std::string(text.size(), '@');
    if (f == kFreed || f == kAllGone) src.reset();
    if (f == kBuilderGone || f == kAllGone) b.reset();
    if (f == kBuilderReused) {
      b->BuildExpression("(", &tmp);
      b->BuildPipeline("z = " + std::string(text.size(), '1') + ";", &tmp);
      b->BuildExpression("4 + 5;", &tmp);
    }
    if (way == 1) {  // the copy made afterwards, the original destroyed
      n2 = n->Clone();
      n = std::move(n2);
    }
    ExecEngine eng{ExecEngineOption{}};
    if (!g_reg) g_reg = NewRegistry();
    std::string m;
    if (way == 3) {
      std::vector<std::unique_ptr<ExecNode>> v;
      v.push_back(std::move(n));
      jitfusion::BatchExecEngine be;
      m = be.Compile(v, g_reg).ToString();
    } else {
      m = eng.Compile(n, g_reg).ToString();
    }
    *out = m;
    return true;
  };
  for (auto& w : wrong)
    if (c.Begin([&] { return "messages quoting " + w; }))
      for (auto& [pre, post] : around)
        for (bool e : {false, true}) {
          std::string t = pre + w + post, kept;
          for (int way = 0; way < 4; way++) {
            if (!message(t, e, kKept, way, &kept)) break;
            c.Extra(kept.size() > 4 && kept.find("-->") != std::string::npos ? "quoting messages" : "other results");
            for (int f = 1; f < kFates; f++) {
              std::string got;
              c.Sub(Show(t, e) + ", source " + fates[f]);
              message(t, e, static_cast<Fate>(f), way, &got);
              c.Eval();
              c.Transition();
              if (got != kept) c.Fail(Show(t, e) + ", source " + fates[f] + ", way " + std::to_string(way) + ": " + got + "; with the source kept: " + kept);
            }
          }
          c.Beat();
        }
}
// ---------------------------------------------------------------- size
std::string Rep(const std::string& s, int n) {
  std::string r;
  r.reserve(s.size() * static_cast<size_t>(n));
  for (int i = 0; i < n; i++) r += s;
  return r;
}
void Sizes(vf::Ctx& c) {
  struct Shape {
    const char* name;
    std::function<std::string(int)> f;
    bool expr = true;
    int max = 2000;
    bool deep = true;
  };
  std::vector<Shape> shapes = {
      {"parentheses", [](int n) { return Rep("(", n) + "1" + Rep(")", n) + ";"; }},
      {"minus", [](int n) { return Rep("- ", n) + "1;"; }},
      {"not", [](int n) { return Rep("!", n) + "1;"; }},
      {"sum", [](int n) { return "1" + Rep(" + 1", n) + ";"; }},
      {"strings", [](int n) { return "\"a\"" + Rep(" + 'b'", std::min(n, 500)) + ";"; }, true, 500, false},
      {"and", [](int n) { return "1" + Rep(" and 1", n) + ";"; }},
      {"right sum", [](int n) { return Rep("1 - (", n) + "1" + Rep(")", n) + ";"; }},
      {"calls", [](int n) { return Rep("abs(", n) + "1" + Rep(")", n) + ";"; }},
      {"if", [](int n) { return Rep("if(1,2,", n) + "1" + Rep(")", n) + ";"; }},
      {"if condition", [](int n) { return Rep("if(", n) + "1" + Rep(",2,3)", n) + ";"; }},
      {"switch", [](int n) { return Rep("switch(0,2,", n) + "1" + Rep(")", n) + ";"; }},
      {"wide switch", [](int n) { return "switch(" + Rep("0,1,", n) + "2);"; }, true, 1000, false},
      {"list", [](int n) { return "[1" + Rep(",2", n) + "];"; }, true, 20000, false},
      {"arguments", [](int n) { return "f(1" + Rep(",2", n) + ");"; }, true, 20000, false},
      {"statements", [](int n) { return Rep("x = 1;", n) + "x;"; }, true, 20000, false},
      {"long name", [](int n) { std::string v = Rep("v", n); return v + " = 1;" + v + ";"; }, true, 100000, false},
      {"long string", [](int n) { return "\"" + Rep("v", n) + "\";"; }, true, 100000, false},
      {"long comment", [](int n) { return "/*" + Rep("*\n", n) + "*/1;"; }, true, 100000, false},
      {"many lines", [](int n) { return Rep("\n", n) + "1;"; }, true, 100000, false},
      {"digits", [](int n) { return "0" + Rep("0", n) + "1;"; }, true, 100000, false},
      {"open parentheses", [](int n) { return Rep("(", n); }, true, 20000, false},
      {"open when", [](int n) { return Rep("when 1 {", n); }, false, 20000, false},
      {"nested when", [](int n) { return Rep("when 1 { x = 1;", n) + Rep("}", n); }, false, 500},
      {"elif", [](int n) { return "when 1 { x = 1; }" + Rep("elif 0 { y = 1; }", n); }, false, 500, false},
      {"when in a row", [](int n) { return Rep("when 1 { x = 1; }", n); }, false, 500, false},
      {"substitution", [](int n) { std::string s = "x0 = 1;"; for (int i = 1; i <= n; i++) s += "x" + std::to_string(i) + " = x" + std::to_string(i - 1) + " + 1;"; return s + "x" + std::to_string(n) + ";"; }, true, 300},
      {"closed by nothing", [](int n) { return "x = " + Rep("f(1, ", n); }, true, 20000, false},
  };
  auto child = [&](const std::string& s, bool e, bool compile, const std::string& what) {
    // in a process of its own: running out of stack must not take the shard with it
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      Built b = Fresh(s, e);
      int r = b.ok ? 0 : b.msg.size() > 16 ? 1 : 2;
      if (b.ok && compile) {
        auto reg = NewRegistry();
        ExecEngine eng{ExecEngineOption{}};
        auto st = eng.Compile(b.node, reg);
        if (!st.ok()) r = 3;
      }
      b.node.reset();
      _exit(r);
    }
    int w = 0;
    while (waitpid(p, &w, 0) < 0) {
    }
    c.Eval();
    if (WIFSIGNALED(w)) {
      c.Fail(what + ": ended by signal " + std::to_string(WTERMSIG(w)));
      return -1;
    }
    return WEXITSTATUS(w);
  };
  for (auto& s : shapes)
    if (c.Begin([&] { return std::string("sizes of ") + s.name; })) {
      std::vector<int> ns;
      for (int n = 0; n <= 64; n += lean ? 16 : 1) ns.push_back(n);
      for (int n : {100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 999, 1000, 1001, 2000, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 20000, 65535, 65536, 100000})
        if (n <= s.max && !(lean && n > 300)) ns.push_back(n);
      for (int n : ns) {
        std::string t = s.f(n);
        Verdict v = Judge(t, s.expr);
        bool compile = v.k == Verdict::kOk && (n <= 64 ? n % (thorough ? 4 : 16) == 0 : n == 200 || n == (s.max < 1000 ? s.max : 1000)) && std::string(s.name) != "arguments";
        int r = child(t, s.expr, compile, std::string(s.name) + " x " + std::to_string(n));
        c.Beat();
        if (r < 0) break;
        if (v.k == Verdict::kAny) continue;
        if (v.k == Verdict::kOk ? (r != 0) : r != 1)
          c.Fail(std::string(s.name) + " x " + std::to_string(n) + " was " + (r == 0 ? "accepted" : r == 3 ? "refused by the compiler" : "rejected") + ", status " + std::to_string(r));
      }
      End(c);
    }
  if (lean) return;
  for (auto& s : shapes)
    if (s.deep && std::string(s.name) != "parentheses" && std::string(s.name) != "substitution" && std::string(s.name) != "nested when" &&
        c.Begin([&] { return std::string("100000 nested: ") + s.name; }))
      child(s.f(100000), s.expr, true, s.name);
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string&) {
    thorough = c.thorough;
#ifdef __SANITIZE_ADDRESS__
    lean = true;
#endif
    char name[] = "/tmp/vfoutXXXXXX";
    g_out = mkstemp(name);
    unlink(name);
    dup2(g_out, 1);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    Sequences(c);
    Programs(c);
    Bytes(c);
    Histories(c);
    Quotes(c);
    Sizes(c);
  });
}
