// C05: every literal and constant node denotes exactly its value and type.
#include "fn.h"

namespace {
struct Case {
  std::string src;
  Val want;
};
// compile together, run twice (a constant must survive the first execution)
void RunCases(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const std::vector<Case>& cs) {
  Batch b;
  for (auto& x : cs) b.AddProgram(x.src);
  b.Compile(reg);
  for (int round = 0; round < 2; round++)
    for (size_t i = 0; i < cs.size(); i++) {
      c.Eval();
      c.Beat();
      if (!b.Error(i).empty()) {
        if (!round) c.Fail(cs[i].src.substr(0, 300) + ": " + b.Error(i).substr(0, 600));
        continue;
      }
      Val got;
      auto st = b.Run(i, Args{}, &got);
      if (!st.ok() || !Same(got, cs[i].want))
        c.Fail(cs[i].src.substr(0, 300) + ": got " + (st.ok() ? Show(got).substr(0, 400) : st.ToString()) + ", expected " + Show(cs[i].want).substr(0, 400));
      c.Outcome(vf::Hash(cs[i].src));
    }
  if (!cs.empty()) c.SampleOf(cs[0].src.substr(0, 3), cs[cs.size() / 2].src.substr(0, 200) + " is " + Show(cs[cs.size() / 2].want).substr(0, 200));
}

void IntLiterals(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (T t : Ints()) {
    auto vals = [&](bool all) {
      std::vector<uint64_t> v;
      for (uint64_t u : all && Width(t) <= 16 ? FullDomain(t) : Domain(t, 2))
        if (Int(t, u) >= 0) v.push_back(u);
      return v;
    };
    if (c.Begin([&] { return std::string("scalar ") + Name(t); })) {
      std::vector<Case> cs;
      for (auto u : vals(Width(t) == 8)) {
        std::string d = std::to_string(u);
        for (auto& z : {"", "0", "000000000000000000000000"}) cs.push_back({z + d + Name(t) + ";", N(t, u)});
        if (t == kI32) cs.push_back({d + ";", N(t, u)});
        cs.push_back({"x = " + d + Name(t) + "; x;", N(t, u)});
      }
      RunCases(c, reg, cs);
    }
    if (c.Begin([&] { return std::string("list ") + Name(t); })) {
      std::vector<Case> cs;
      auto v = vals(true);
      for (size_t from = 0; from < v.size(); from += 4096) {
        std::string s;
        Val w = Empty(ListOf(t));
        for (size_t i = from; i < v.size() && i < from + 4096; i++) {
          s += (s.empty() ? "[" : ",") + std::to_string(v[i]) + Name(t);
          w.l.push_back(v[i]);
        }
        cs.push_back({s + "];", w});
      }
      // every length
      for (size_t n = 1; n <= 70; n++) {
        std::string s;
        Val w = Empty(ListOf(t));
        for (size_t i = 0; i < n; i++) {
          s += std::string(i ? ", " : "[") + std::to_string(i * 3 % 127) + (t == kI32 && i % 2 ? "" : Name(t));
          w.l.push_back(i * 3 % 127);
        }
        cs.push_back({s + "];", w});
      }
      RunCases(c, reg, cs);
    }
  }
  if (c.Begin("true and false"))
    RunCases(c, reg, {{"true;", N(kU8, 1)}, {"false;", N(kU8, 0)}, {"x = true; y = false; x * 2u8 + y;", N(kU8, 2)}});
}
std::vector<std::string> FloatTexts() {
  std::vector<std::string> r;
  const std::vector<std::string> ip{"", "0", "1", "7", "10", "99", "007", "123456789", "16777217", "33554435", "2147483648", "9007199254740993", "18446744073709551616", "99999999999999999999999999999999999999"};
  const std::vector<std::string> fp{"", "0", "5", "25", "1", "2", "3", "7", "99", "125", "0000001", "000000059604644775390625", "00000005960464477539062500000000000000000000000000001",
                                    "00000005960464477539062499999999999999999999999999999", "0000001788139343261718750", "999999999999", "333333333333333333333333333333333333", "00000000000000011102230246251565404",
                                    "000000000000000111022302462515654042363166809082031250", "000000000000000111022302462515654042363166809082031251", "1000000000000000055511151231257827", "499999999999999944488848768742172978818416595458984375"};
  for (auto& i : ip)
    for (auto& f : fp)
      if (!i.empty() || !f.empty()) r.push_back(i + "." + f);
  for (int k = 1; k < 30; k++) r.push_back("0." + std::string(static_cast<size_t>(k), '0') + "123456789123456789");
  for (int k = 1; k < 300; k += thorough ? 1 : 13) r.push_back("1" + std::string(static_cast<size_t>(k), '0') + ".5");
  if (thorough)
    for (int i = 0; i < 4000; i++) r.push_back(std::to_string(i) + "." + std::to_string(i * 7919 % 10007));
  return r;
}
void FloatLiterals(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto tx = FloatTexts();
  const size_t step = 100;
  for (size_t from = 0; from < tx.size(); from += step) {
    if (!c.Begin([&] { return "floats " + std::to_string(from); })) continue;
    std::vector<Case> cs;
    Val l32 = Empty(T::kF32List), l64 = Empty(T::kF64List);
    std::string s32, s64;
    for (size_t i = from; i < tx.size() && i < from + step; i++) {
      float f = strtof(tx[i].c_str(), nullptr);
      double d = strtod(tx[i].c_str(), nullptr);
      cs.push_back({tx[i] + ";", N(kF64, B64(d))});
      cs.push_back({tx[i] + "f64;", N(kF64, B64(d))});
      s64 += (s64.empty() ? "[" : ", ") + tx[i] + (i % 2 ? "f64" : "");
      l64.l.push_back(B64(d));
      // out of range and subnormal spellings are refused by the language
      if (std::isfinite(f) && (f == 0 || std::fabs(f) >= std::numeric_limits<float>::min()) && !(f == 0 && d != 0)) {
        cs.push_back({tx[i] + "f32;", N(kF32, B32(f))});
        s32 += (s32.empty() ? "[" : ", ") + tx[i] + "f32";
        l32.l.push_back(B32(f));
      }
    }
    cs.push_back({s64 + "];", l64});
    cs.push_back({s32 + "];", l32});
    RunCases(c, reg, cs);
  }
  if (c.Begin("integers spelled as floats")) {
    std::vector<Case> cs;
    for (auto* s : {"0", "1", "7", "007", "16777217", "16777219", "33554433", "9007199254740993", "9007199254740995", "18446744073709551615", "99999999999999999999999"}) {
      cs.push_back({std::string(s) + "f32;", N(kF32, B32(strtof(s, nullptr)))});
      cs.push_back({std::string(s) + "f64;", N(kF64, B64(strtod(s, nullptr)))});
    }
    RunCases(c, reg, cs);
  }
}
// the documented pattern: quote, then characters other than the quote and backslash or backslash pairs, then quote
bool ValidBody(const std::string& s, char q) {
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == q) return false;
    if (s[i] == '\\') {
      if (i + 1 >= s.size() || s[i + 1] == '\n') return false;
      i++;
    }
  }
  return true;
}
void StringLiterals(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const std::vector<std::string> al{"a", "\\", "\"", "'", "\n", "\xff", "\x01", ";", "//", "/*", "\r", "\t", " ", "\xc3\xa9", "%", "0"};
  for (char q : {'"', '\''}) {
    for (size_t k = 0; k <= al.size(); k++) {
      if (!c.Begin([&] { return std::string("string ") + q + (k == 0 ? "(short)" : al[k - 1]); })) continue;
      std::vector<Case> cs;
      auto add = [&](const std::string& s) {
        if (!ValidBody(s, q)) return;
        cs.push_back({q + s + q + ";", S(s)});
        cs.push_back({std::string("[") + q + s + q + ", " + q + q + "];", SL({s, ""})});
      };
      if (k == 0) {
        add("");
        for (auto& x : al) {
          add(x);
          for (auto& y : al) add(x + y);
        }
      } else {
        for (auto& x : al)
          for (auto& y : al) {
            add(al[k - 1] + x + y);
            if (thorough)
              for (auto& z : al) add(al[k - 1] + x + y + z);
          }
      }
      RunCases(c, reg, cs);
    }
    if (c.Begin([&] { return std::string("bytes ") + q; })) {
      std::vector<Case> cs;
      std::string all;
      for (int ch = 1; ch < 256; ch++) {
        if (ch == q || ch == '\\') continue;
        all += static_cast<char>(ch);
        cs.push_back({q + std::string(1, static_cast<char>(ch)) + q + ";", S(std::string(1, static_cast<char>(ch)))});
        std::string esc = std::string("x\\") + static_cast<char>(ch);
        if (ch != '\n') cs.push_back({q + esc + q + ";", S(esc)});
      }
      cs.push_back({q + all + q + ";", S(all)});
      for (size_t n = 0; n < 300; n++) cs.push_back({q + std::string(n, 's') + q + ";", S(std::string(n, 's'))});
      for (size_t n : {4095, 4096, 8191, 8192, 16383, 16384, 70000}) cs.push_back({q + std::string(n, 's') + q + ";", S(std::string(n, 's'))});
      RunCases(c, reg, cs);
    }
  }
}

// ---------------------------------------------------------------- constants of the C++ API
std::vector<Val> Constants(int level) {
  std::vector<Val> v;
  for (T t : Nums()) {
    for (auto u : level > 1 ? Domain(t, 1) : Domain(t, 0)) v.push_back(N(t, u));
    auto few = Few(t, 6, true);
    if (IsFloat(t)) {
      AddU(few, Bits(t, -0.0));
      AddU(few, t == kF32 ? 0x7fc00001 : 0x7ff8000000000001ULL);
    }
    Seqs<uint64_t>(few, level > 1 ? 3 : 2, [&](auto& s) { v.push_back(ListVal(t, s)); });
    // prefixes of one another and of zero padding
    for (size_t n = 0; n < 10; n++) {
      v.push_back(ListVal(t, std::vector<uint64_t>(n, 0)));
      std::vector<uint64_t> s;
      for (size_t i = 0; i < n; i++) s.push_back(Small(t, static_cast<int>(i)));
      v.push_back(ListVal(t, s));
    }
    v.push_back(ListVal(t, Domain(t, 2)));
    if (Width(t) == 8) v.push_back(ListVal(t, FullDomain(t)));
  }
  std::vector<std::string> ss{"", "a", "b", "ab", "ba", "abc"};
  for (auto& x : {std::string("\0", 1), std::string("a\0", 2), std::string("\0a", 2), std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0\0", 2), std::string("\xff\xfe"), std::string("a\n\"'\\")})
    ss.push_back(x);
  for (size_t n : {15, 16, 17, 31, 32, 33, 255, 256, 1000, 70000}) ss.push_back(std::string(n, 'L')), ss.push_back(std::string(n, 'L') + '\0');
  std::vector<std::string> twins;
  for (auto& [x, y] : Twins()) twins.push_back(x), twins.push_back(y), v.push_back(SL({x})), v.push_back(SL({y})), v.push_back(SL({x, y, x}));
  v.push_back(SL(twins));
  for (auto& s : twins) v.push_back(S(s));
  for (auto& s : ss) v.push_back(S(s));
  std::vector<std::string> few{"", "a", "ab", std::string("a\0", 2), "b"};
  Seqs<std::string>(few, level > 1 ? 4 : 3, [&](auto& s) { v.push_back(SL(s)); });
  // same bytes split differently
  v.push_back(SL({"abc"}));
  v.push_back(SL({"a", "bc"}));
  v.push_back(SL({"ab", "c"}));
  v.push_back(SL({"a", "b", "c"}));
  v.push_back(SL({"a,b"}));
  v.push_back(SL({"a, b"}));
  v.push_back(SL({"[a]"}));
  v.push_back(SL(ss));
  return v;
}
void Api(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  auto run = [&](std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs) {
    Batch b;
    std::vector<Val> want;
    for (auto& [n, v] : cs) b.AddNode(std::move(n), "constant " + Show(v).substr(0, 100)), want.push_back(v);
    b.Compile(reg);
    for (int round = 0; round < 2; round++)
      for (size_t i = 0; i < want.size(); i++) {
        Val got;
        c.Eval();
        c.Beat();
        if (!b.Error(i).empty()) {
          if (!round) c.Fail(b.Src(i) + ": " + b.Error(i));
          continue;
        }
        auto st = b.Run(i, Args{}, &got);
        if (!st.ok() || !Same(got, want[i])) c.Fail(b.Src(i) + ": got " + (st.ok() ? Show(got).substr(0, 300) : st.ToString()) + ", expected " + Show(want[i]).substr(0, 300));
        c.Outcome(HashVal(want[i]));
      }
  };
  // each constant in a program of its own
  auto vals = Constants(thorough ? 2 : 1);
  for (size_t from = 0; from < vals.size(); from += 40) {
    if (!c.Begin([&] { return "constants alone " + std::to_string(from); })) continue;
    for (size_t i = from; i < vals.size() && i < from + 40; i++) {
      if (!thorough && i % 5 && !IsNum(vals[i].t)) continue;
      ExecEngine e;
      std::unique_ptr<ExecNode> n = ConstNode(vals[i]);
      auto st = e.Compile(n, reg);
      RetType r;
      c.Eval();
      if (st.ok()) st = e.Execute(nullptr, &r);
      if (!st.ok() || !Same(FromRet(r), vals[i])) c.Fail("constant " + Show(vals[i]).substr(0, 200) + ": got " + (st.ok() ? Show(FromRet(r)).substr(0, 300) : st.ToString()));
      c.Outcome(HashVal(vals[i]));
    }
  }
  // all of them in one module, in both orders, twice each
  for (int order = 0; order < 2; order++)
    for (size_t from = 0; from < vals.size(); from += 1500) {
      if (!c.Begin([&] { return "constants together " + std::to_string(from) + (order ? " backwards" : ""); })) continue;
      std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs;
      for (int twice = 0; twice < 2; twice++)
        for (size_t i = from; i < vals.size() && i < from + 1500; i++) {
          auto& v = vals[order ? from + std::min(vals.size(), from + 1500) - 1 - i : i];
          cs.emplace_back(ConstNode(v), v);
        }
      run(std::move(cs));
    }
  // long constants, all of a type in one module, then with each differing from the others in its last or middle element only
  std::vector<size_t> lens{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537};
  if (thorough) lens.insert(lens.end(), {511, 512, 513, 2047, 2048, 2049, 8191, 8192, 8193, 32767, 32768, 32769, 100000, 131071, 131072, 131073});
  std::vector<T> long_types = Nums();
  long_types.push_back(kStr);
  for (T t : long_types) {
    if (!c.Begin([&] { return std::string("long constants of ") + Name(t); })) continue;
    for (int part = 0; part < 2; part++) {
      std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs;
      for (size_t n : lens) {
        if ((n > 5000) != (part == 1)) continue;
        if (n > 5000 && t == kStr && n != 65536 && n != 65537) continue;
        for (size_t at : {SIZE_MAX, n - 1, n / 2, size_t{0}}) {
          Val v, w;
          if (t == kStr) {
            v = SL({});
            for (size_t i = 0; i < n; i++) v.sl.push_back(i % 5 == 4 ? "" : "s" + std::to_string(i * 7919 % n));
            w = S("");
            for (size_t i = 0; i < n; i++) w.s += static_cast<char>(i * 31 + i / 256);
            if (at != SIZE_MAX) v.sl[at] += "!", w.s[at] = static_cast<char>(w.s[at] ^ 1);
            cs.emplace_back(ConstNode(w), w);
          } else {
            std::vector<uint64_t> l;
            for (size_t i = 0; i < n; i++) l.push_back(IsFloat(t) ? Bits(t, static_cast<double>(i) * 0.5) : Wrap(t, static_cast<i128>(i * 7919)));
            if (at != SIZE_MAX) l[at] = IsFloat(t) ? Bits(t, -0.0) : Wrap(t, static_cast<i128>(l[at]) ^ 1);
            v = ListVal(t, l);
          }
          if (t != kStr || n <= 1025) cs.emplace_back(ConstNode(v), v);
        }
      }
      if (t == kStr && part == 0) {
        Val v = SL({});
        for (size_t i = 0; i < 4097; i++) v.sl.push_back(std::to_string(i * 7919 % 4097));
        cs.emplace_back(ConstNode(v), v);
      }
      run(std::move(cs));
    }
  }
  // many constants in one program: the sum (or concatenation) of n different ones
  for (size_t n : {100UL, 255UL, 256UL, 257UL, 1000UL}) {
    if (!c.Begin([&] { return std::to_string(n) + " constants in one program"; })) continue;
    std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs;
    for (int kind = 0; kind < 4; kind++) {
      // balanced, so that the depth stays small
      std::function<std::pair<std::unique_ptr<ExecNode>, Val>(size_t, size_t)> tree = [&](size_t lo, size_t hi) -> std::pair<std::unique_ptr<ExecNode>, Val> {
        if (hi - lo == 1) {
          Val v = kind == 0 ? N(kU64, lo * lo + 1) : kind == 1 ? S("<" + std::to_string(lo) + ">") : kind == 2 ? ListVal(kI16, {Wrap(kI16, static_cast<i128>(lo)), 7}) : SL({"e" + std::to_string(lo), ""});
          return {ConstNode(v), v};
        }
        auto l = tree(lo, (lo + hi) / 2), r = tree((lo + hi) / 2, hi);
        Val v = l.second;
        if (kind == 0) v.u += r.second.u;
        v.s += r.second.s;
        v.l.insert(v.l.end(), r.second.l.begin(), r.second.l.end());
        v.sl.insert(v.sl.end(), r.second.sl.begin(), r.second.sl.end());
        if (kind == 0) return {std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAdd, std::move(l.first), std::move(r.first)), v};
        return {CallN(kind == 1 ? "StringConcat" : "ListConcat", std::move(l.first), std::move(r.first)), v};
      };
      cs.push_back(tree(0, n));
    }
    run(std::move(cs));
  }
  // the same from texts: long list literals, string literals, and chains of operators
  for (size_t n : {64UL, 127UL, 128UL, 255UL, 256UL, 257UL, 1000UL, 4097UL}) {
    if (!c.Begin([&] { return "texts of " + std::to_string(n) + " literals"; })) continue;
    Batch b;
    std::vector<Val> want;
    for (T t : Nums()) {
      std::string s = "[";
      std::vector<uint64_t> l;
      for (size_t i = 0; i < n; i++) {
        uint64_t u = IsFloat(t) ? Bits(t, static_cast<double>(i) + 0.25) : i % 100;
        l.push_back(u);
        s += (i ? "," : "") + (IsFloat(t) ? std::to_string(i) + ".25" + Name(t) : std::to_string(i % 100) + Name(t));
      }
      b.AddProgram(s + "];");
      want.push_back(ListVal(t, l));
    }
    std::string s = "[", sum, cat;
    std::vector<std::string> sl;
    for (size_t i = 0; i < n; i++) {
      s += (i ? ", " : "") + std::string(i % 2 ? "'" : "\"") + "k" + std::to_string(i) + (i % 2 ? "'" : "\"");
      sl.push_back("k" + std::to_string(i));
    }
    b.AddProgram(s + "];");
    want.push_back(SL(sl));
    b.AddProgram("'" + std::string(n, 'x') + "y';");
    want.push_back(S(std::string(n, 'x') + "y"));
    b.AddProgram("\"" + std::string(n * 16, 'z') + "\" + '" + std::string(n, '\n') + "';");
    want.push_back(S(std::string(n * 16, 'z') + std::string(n, '\n')));
    if (n <= 1000) {
      std::string all;
      for (size_t i = 0; i < n; i++) {
        sum += (i ? " + " : "") + std::to_string(i * i) + "u64";
        cat += (i ? " + " : "") + std::string("'") + std::to_string(i) + ",'";
        all += std::to_string(i) + ",";
      }
      b.AddProgram(sum + ";");
      want.push_back(N(kU64, (n - 1) * n * (2 * n - 1) / 6));
      b.AddProgram(cat + ";");
      want.push_back(S(all));
    }
    b.Compile(reg);
    for (size_t i = 0; i < want.size(); i++) {
      Val got;
      c.Eval();
      auto st = b.Error(i).empty() ? b.Run(i, Args{}, &got) : Status::ParseError(b.Error(i));
      if (!st.ok() || !Same(got, want[i])) c.Fail(b.Src(i).substr(0, 200) + "... (" + std::to_string(n) + " literals): got " + (st.ok() ? Show(got) : st.ToString()).substr(0, 300));
      c.Outcome(HashVal(want[i]));
    }
  }
  // every pair of similar constants in one program
  for (T t : Nums()) {
    if (!c.Begin([&] { return std::string("pairs of ") + Name(ListOf(t)); })) continue;
    std::vector<Val> ls;
    auto few = Few(t, 4, true);
    if (IsFloat(t)) AddU(few, Bits(t, -0.0));
    Seqs<uint64_t>(few, 2, [&](auto& s) { ls.push_back(ListVal(t, s)); });
    std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs;
    for (auto& a : ls)
      for (auto& b : ls) {
        Val w = a;
        w.l.insert(w.l.end(), b.l.begin(), b.l.end());
        cs.emplace_back(CallN("ListConcat", ConstNode(a), ConstNode(b)), w);
        if (thorough) cs.emplace_back(CallN("ListConcat", ConstNode(b), ConstNode(a)), [&] {
            Val x = b;
            x.l.insert(x.l.end(), a.l.begin(), a.l.end());
            return x;
          }());
      }
    run(std::move(cs));
  }
  if (c.Begin("pairs of strings")) {
    std::vector<std::string> w{"", "a", "b", "ab", "a\n", "aa", "abc"};
    w.push_back(std::string("\0", 1));
    w.push_back(std::string("a\0", 2));
    w.push_back(std::string("a\0b", 3));
    std::vector<std::pair<std::unique_ptr<ExecNode>, Val>> cs;
    for (auto& a : w)
      for (auto& b : w) {
        cs.emplace_back(CallN("StringConcat", ConstNode(S(a)), ConstNode(S(b))), S(a + b));
        cs.emplace_back(CallN("ListConcat", ConstNode(SL({a, b})), ConstNode(SL({b}))), SL({a, b, b}));
        cs.emplace_back(CallN("ListConcat", ConstNode(SL({a})), ConstNode(SL({b, a}))), SL({a, b, a}));
        cs.emplace_back(CallN("StringLen", CallN("StringConcat", ConstNode(S(a)), ConstNode(S(b)))), N(kU32, a.size() + b.size()));
      }
    run(std::move(cs));
  }
  // constants of different types but equal value or equal bytes, in one program through a store function each
  for (int rot = 0; rot < 4; rot++) {
    if (!c.Begin([&] { return "stored constants " + std::to_string(rot); })) continue;
    auto r2 = NewRegistry(false);
    AddStores(r2.get());
    std::vector<Val> cs;
    for (T t : Nums()) {
      cs.push_back(N(t, Small(t, rot)));
      cs.push_back(ListVal(t, std::vector<uint64_t>(static_cast<size_t>(rot), Small(t, 1))));
      cs.push_back(ListVal(t, std::vector<uint64_t>(8, 0)));
      cs.push_back(ListVal(t, {}));
    }
    cs.push_back(S(std::string(static_cast<size_t>(rot), '\0')));
    cs.push_back(S(std::string(static_cast<size_t>(rot), '1')));
    cs.push_back(SL(std::vector<std::string>(static_cast<size_t>(rot), "1")));
    cs.push_back(SL({}));
    std::vector<std::unique_ptr<ExecNode>> st;
    std::vector<std::pair<int, Val>> want;
    for (size_t i = 0; i < cs.size(); i++) {
      std::unique_ptr<ExecNode> out = std::make_unique<jitfusion::OutputNode>();
      st.push_back(CallN(StName(cs[i].t), std::move(out), ConstNode(N(kI32, i)), ConstNode(cs[i])));
      want.emplace_back(static_cast<int>(i), cs[i]);
    }
    std::unique_ptr<ExecNode> prog = std::make_unique<jitfusion::NoOPNode>(std::move(st));
    ExecEngine e;
    auto s = e.Compile(prog, r2);
    for (int round = 0; round < 2; round++) {
      Recorder rec;
      c.Eval();
      if (s.ok()) s = e.Execute(nullptr, &rec);
      if (!s.ok()) c.Fail(s.ToString());
      else if (!SameLog(rec.log, want)) c.Fail("got " + ShowLog(rec.log).substr(0, 800) + " expected " + ShowLog(want).substr(0, 800));
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string&) {
    thorough = c.thorough;
    auto reg = NewRegistry();
    IntLiterals(c, reg);
    FloatLiterals(c, reg);
    StringLiterals(c, reg);
    Api(c, reg);
  });
}
