// C22 (saved programs reload as themselves) and C23 (damaged artifacts are refused without harm).
#include "prog.h"
#include "llvm/Config/llvm-config.h"
#include <fstream>
#include <sstream>
#include <sys/mman.h>

// ------------------------------------------------------------- a heap that notes the largest request
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
static thread_local bool t_watch = false;
static thread_local size_t t_largest = 0, t_refuse = SIZE_MAX;
static void* Ask(size_t n) {
  if (t_watch && n > t_largest) t_largest = n;
  return t_watch && n > t_refuse ? nullptr : __libc_malloc(n);
}
extern "C" void* malloc(size_t n) { return Ask(n); }
extern "C" void free(void* p) { __libc_free(p); }
extern "C" void* realloc(void* p, size_t n) {
  if (t_watch && n > t_largest) t_largest = n;
  return t_watch && n > t_refuse ? nullptr : __libc_realloc(p, n);
}
extern "C" void* calloc(size_t a, size_t b) {
  if (t_watch && a * b > t_largest) t_largest = a * b;
  return __libc_calloc(a, b);
}

namespace {
bool thorough = false;
using jitfusion::LoadCompiledOptions;

// bytes that end (or begin) where the page after (before) them cannot be touched
class Fenced {
 public:
  Fenced(const std::string& s, bool at_end) {
    size_t pg = 4096;
    n_ = (s.size() + pg - 1) / pg * pg + 2 * pg;
    base_ = static_cast<char*>(mmap(nullptr, n_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base_ == MAP_FAILED) Die("mmap");
    char* p = at_end ? base_ + n_ - pg - s.size() : base_ + pg;
    memcpy(p, s.data(), s.size());
    if (mprotect(base_, pg, PROT_NONE) || mprotect(base_ + n_ - pg, pg, PROT_NONE)) Die("mprotect");
    v_ = std::string_view(p, s.size());
  }
  ~Fenced() { munmap(base_, n_); }
  std::string_view view() const { return v_; }

 private:
  char* base_;
  size_t n_;
  std::string_view v_;
};

// ------------------------------------------------------------- the documented format
struct Field {
  std::string name;
  size_t at, width;  // width 0: a byte run that is no number
};
struct Art {
  std::string llvm, triple, cpu;
  int mode = 0, fp = 0;
  std::string rets;
  std::string obj;
  std::vector<std::pair<uint32_t, std::string>> exts;
  std::vector<Field> fields;
};
struct Rd {
  const std::string& s;
  size_t at = 0;
  bool bad = false;
  uint64_t Num(size_t w) {
    if (s.size() - at < w) {
      bad = true;
      return 0;
    }
    uint64_t v = 0;
    for (size_t i = 0; i < w; i++) v |= static_cast<uint64_t>(static_cast<uint8_t>(s[at + i])) << (8 * i);
    at += w;
    return v;
  }
  std::string Bytes(uint64_t n) {
    if (bad || s.size() - at < n) {
      bad = true;
      return "";
    }
    at += n;
    return s.substr(at - n, n);
  }
};
// empty when the bytes are a well-formed artifact
std::string Parse(const std::string& s, Art* a) {
  Rd r{s};
  auto field = [&](const char* n, size_t w) { a->fields.push_back({n, r.at, w}); };
  field("magic", 0);
  if (r.Bytes(4) != "JFCA") return "magic";
  field("format version", 4);
  if (r.Num(4) != 2 || r.bad) return "version";
  for (auto [n, p] : {std::pair{"compiler version", &a->llvm}, {"triple", &a->triple}, {"cpu", &a->cpu}}) {
    field((std::string(n) + " length").c_str(), 4);
    auto len = r.Num(4);
    field(n, 0);
    *p = r.Bytes(len);
    if (r.bad) return n;
  }
  field("mode", 1);
  a->mode = static_cast<int>(r.Num(1));
  field("fp mode", 1);
  a->fp = static_cast<int>(r.Num(1));
  if (r.bad || a->mode > 1 || a->fp > 1) return "mode bytes";
  field("entry count", 4);
  auto n = r.Num(4);
  if (r.bad || n == 0 || (a->mode == 0 && n != 1)) return "entry count";
  field("return types", 0);
  a->rets = r.Bytes(n);
  if (r.bad) return "return types";
  for (char c : a->rets)
    if (c < 1 || c > static_cast<char>(T::kStringList)) return "return type code";
  field("object size", 8);
  auto os = r.Num(8);
  if (r.bad) return "object size";
  a->obj = r.Bytes(os);
  if (r.bad) return "object";
  field("extension count", 4);
  auto ne = r.Num(4);
  if (r.bad) return "extension count";
  for (uint64_t i = 0; i < ne; i++) {
    field("extension tag", 4);
    auto tag = static_cast<uint32_t>(r.Num(4));
    field("extension length", 4);
    auto len = r.Num(4);
    auto p = r.Bytes(len);
    if (r.bad) return "extension";
    a->exts.emplace_back(tag, p);
  }
  field("footer", 0);
  if (r.Bytes(4) != "JFCE" || r.bad) return "footer";
  return r.at == s.size() ? "" : "trailing bytes";
}
std::string Le(uint64_t v, size_t w) {
  std::string o;
  for (size_t i = 0; i < w; i++) o += static_cast<char>(v >> (8 * i));
  return o;
}
std::string Write(const Art& a) {
  std::string o = "JFCA" + Le(2, 4);
  for (auto* s : {&a.llvm, &a.triple, &a.cpu}) o += Le(s->size(), 4) + *s;
  o += static_cast<char>(a.mode);
  o += static_cast<char>(a.fp);
  o += Le(a.rets.size(), 4) + a.rets + Le(a.obj.size(), 8) + a.obj + Le(a.exts.size(), 4);
  for (auto& [t, p] : a.exts) o += Le(t, 4) + Le(p.size(), 4) + p;
  return o + "JFCE";
}

// ------------------------------------------------------------- programs
int32_t Ver1(int32_t a) { return a * 10 + 1; }
int32_t Ver2(int32_t a) { return a * 10 + 2; }
uint64_t ChunkOf(ExecContext* c) {
  auto* p = c->arena.Allocate(1);
  (void)p;
  return c->arena.total_bytes();
}
std::unique_ptr<FunctionRegistry> Registry(void* ver) {
  auto r = NewRegistry();
  AddStores(r.get());
  Reg(r.get());
  if (!r->RegisterReadOnlyCFunc(FunctionSignature("ver", {kI32}, kI32), ver).ok()) Die("ver");
  jitfusion::FunctionStructure fs{jitfusion::FunctionType::kCFunc, (void*)ChunkOf, {}};
  if (!r->RegisterFunc(FunctionSignature("chunk", {T::kPtr}, kU64), fs).ok()) Die("chunk");
  return r;
}
struct In22 {
  Inputs in;
  std::deque<Slot> more;
  explicit In22(int k) : in(k) {
    // one operand of every type from place 8 on
    int i = 8;
    ForTypes([&](T t, auto*) {
      Val v;
      v.t = t;
      auto elem = [&](T e, int j) { return e == kU32 ? static_cast<uint64_t>(j % 4) : e == kF32 ? B32(1.5F * static_cast<float>(j + k)) : e == kF64 ? B64(-0.1 * (j + k)) : Wrap(e, static_cast<i128>(j * 37 - k)); };
      if (t == kStr) v.s = std::string("op\0x", 4) + std::to_string(k);
      else if (t == kStrL) v.sl = {"", "a", std::string(static_cast<size_t>(20 + k), 'q')};
      else if (IsList(t))
        for (int j = 0; j < 4 + k; j++) v.l.push_back(elem(ElemOf(t), j));
      else v.u = elem(t, 5);
      more.emplace_back(v);
      in.plan.args.a[i++] = &more.back();
    });
  }
};
std::vector<P2> Progs22() {
  std::vector<P2> v;
  int i = 8;
  ForTypes([&](T t, auto*) {
    v.push_back({Ld(t, i) + ";", false, true});
    v.push_back({"st_" + std::string(Name(t)) + "(output, " + std::to_string(i) + ", " + Ld(t, i) + ");", true, true});
    i++;
  });
  for (const char* s : {"1 + 2;", "\"\";", "\"constant\" + ld_string(entry_arg, 1);", "[1.5, 0.0, 2.5];", "[\"a\", \"\", \"ccc\"];", "x = \"abc\"; x + x;",
                        "ld_f64(entry_arg, 2) * ld_f64(entry_arg, 17) + 0.1;", "sin(ld_f64(entry_arg, 17)) + pow(ld_f64(entry_arg, 2), 3);", "ver(4) + ver(5);",
                        "f(entry_arg, 0, exec_ctx) + f(entry_arg, 1, exec_ctx);", "s(entry_arg, 0, exec_ctx) + \"-\";", "rf(entry_arg, 0) * cf(entry_arg, 1);",
                        "if(ld_i64(entry_arg, 0) > 0, [1, 2], ld_i32list(entry_arg, 3));", "switch(ld_i64(entry_arg, 0), \"pos\", \"zero\");",
                        "SortAsc(ld_i32list(entry_arg, 3) + [7, 3]);", "ld_i64(entry_arg, 0) in [1i64, 7i64];", "chunk(exec_ctx);", "CastI32List(ld_f64list(entry_arg, 28));"})
    v.push_back({s, false, true});
  for (const char* s : {"x = f(entry_arg, 0, exec_ctx); when x { st_i64(output, 1, x); } else { stf(output, 2, 5i64, entry_arg, exec_ctx); } st_string(output, 3, \"end\");",
                        "st_i32(output, 1, ver(3)); st_i32list(output, 2, [1, 2, 3]); st_stringlist(output, 3, [\"p\", \"q\"]);"})
    v.push_back({s, true, true});
  return v;
}
ExecEngineOption MkOpt(int k, bool save = true) {
  ExecEngineOption o;
  o.enable_save_compiled = save;
  o.fp_math_mode = k & 1 ? FPMathMode::kFast : FPMathMode::kStrict;
  o.dump_ir = k & 2;
  o.exec_ctx_arena_alloc_min_chunk_size = k & 4 ? 64 : 5000;
  return o;
}
std::string OptName(int k) { return std::string(k & 1 ? "fast" : "strict") + (k & 2 ? ", dumping" : "") + (k & 4 ? ", chunks of 64" : ", chunks of 5000"); }
std::string SrcOf(const Set20& s) {
  std::string o;
  for (auto& p : s.ps) o += "{" + p.src + "} ";
  return o;
}
// what every entry gives on three inputs, in both forms
std::vector<Made> All(Eng20& e, const Set20& s, std::deque<In22>& ins) {
  std::vector<Made> v;
  ExecContext ctx(64);
  for (auto& in : ins)
    for (int form = 0; form < 2; form++)
      for (size_t i = 0; i < s.ps.size(); i++) v.push_back(Run20(e, i, s.ps[i].pipe, in.in, form ? &ctx : nullptr));
  return v;
}
std::string Differ(Eng20& e, const Set20& s, std::deque<In22>& ins, const std::vector<Made>& want, const std::vector<T>& rets) {
  if (e.b) {
    if (e.b->GetFunctionCount() != s.ps.size()) return "entry count " + std::to_string(e.b->GetFunctionCount());
    for (size_t i = 0; i < s.ps.size(); i++)
      if (e.b->GetReturnType(i) != rets[i]) return "return type of entry " + std::to_string(i) + " is another one";
  }
  auto got = All(e, s, ins);
  for (size_t i = 0; i < got.size(); i++) {
    bool pipe = s.ps[i % s.ps.size()].pipe;
    if (!SameMade(got[i], want[i], pipe)) return "entry " + std::to_string(i % s.ps.size()) + " gives " + ShowMade(got[i], pipe) + ", the saved program " + ShowMade(want[i], pipe);
  }
  return "";
}
Status LoadO(Eng20& e, std::string_view v, const std::unique_ptr<FunctionRegistry>& reg, const LoadCompiledOptions& o) { return e.b ? e.b->LoadCompiled(v, reg, o) : e.s->LoadCompiled(v, reg, o); }

void C22(vf::Ctx& c) {
  std::unique_ptr<FunctionRegistry> reg, reg2, poor;
  std::deque<In22> ins;
  auto init = [&] {
    if (reg) return;
    reg = Registry((void*)Ver1);
    reg2 = Registry((void*)Ver2);
    poor = NewRegistry();
    AddStores(poor.get());
    Reg(poor.get());
    for (int k = 0; k < 3; k++) ins.emplace_back(k);
  };
  auto ps = Progs22();
  // the sets: every program alone in either kind, and all of them in one batch, in rotated groups
  struct Case {
    bool batch;
    Set20 set;
  };
  std::vector<Case> cases;
  for (auto& p : ps) {
    cases.push_back({false, {"", {p}, {}}});
    cases.push_back({true, {"", {p}, {}}});
  }
  for (size_t g = 2; g <= 12; g += 5)
    for (size_t i = 0; i < ps.size(); i += g) {
      Set20 s{"", {}, {}};
      for (size_t k = 0; k < g; k++) s.ps.push_back(ps[(i + k * 7) % ps.size()]);
      cases.push_back({true, s});
    }
  cases.push_back({true, {"", ps, {}}});
  // programs of the loading engine's own, to see that its options stay: FMA-sensitive, chunk-sensitive
  Set20 own{"", {{"chunk(exec_ctx);", false, true}}, {}};
  Set20 fma{"", {{"ld_f64(entry_arg, 4) * ld_f64(entry_arg, 5) + ld_f64(entry_arg, 6);", false, true}}, {}};
  // x*x rounds: the fused result keeps the low part
  Slot fx(N(kF64, B64(1.0 + 0x1p-30))), fz(N(kF64, B64(-(1.0 + 0x1p-29))));
  auto fmain = [&](Inputs& in) { in.plan.args.a[4] = &fx, in.plan.args.a[5] = &fx, in.plan.args.a[6] = &fz; };
  bool host_fuses = false;
  {
    init();
    Eng20 e(false, MkOpt(1, false));
    if (!e.Compile(fma, reg).ok()) Die("fma");
    Inputs in(0);
    fmain(in);
    host_fuses = Run20(e, 0, false, in, nullptr).ret.u != 0;
  }
  for (size_t k = 0; k < cases.size(); k++)
    for (int so = 0; so < 8; so++) {
      auto& cs = cases[k];
      if (!thorough && so != static_cast<int>(k % 8) && so != static_cast<int>((k + 3) % 8)) continue;
      if (!c.Begin([&] { return std::string("round trip ") + (cs.batch ? "batch " : "single ") + std::to_string(k) + " saved " + OptName(so); })) continue;
      std::string name = std::string(cs.batch ? "batch " : "") + SrcOf(cs.set).substr(0, 300) + "saved " + OptName(so);
      Eng20 e(cs.batch, MkOpt(so));
      auto st = e.Compile(cs.set, reg);
      if (!st.ok()) {
        c.Fail(name + ": refused: " + st.ToString());
        continue;
      }
      std::vector<T> rets;
      for (size_t i = 0; cs.batch && i < cs.set.ps.size(); i++) rets.push_back(e.b->GetReturnType(i));
      auto want = All(e, cs.set, ins);
      std::string art, again;
      st = e.Save(&art);
      auto st2 = e.Save(&again);
      c.Eval(2);
      if (!st.ok() || !st2.ok()) {
        c.Fail(name + ": cannot be saved: " + st.ToString());
        continue;
      }
      if (art != again) c.Fail(name + ": saved twice, two artifacts");
      auto m = Differ(e, cs.set, ins, want, rets);
      if (!m.empty()) c.Fail(name + ": after saving, " + m);
      Art a;
      auto pe = Parse(art, &a);
      if (!pe.empty()) c.Fail(name + ": the artifact does not follow the documented layout: " + pe);
      else if (a.mode != (cs.batch ? 1 : 0) || a.fp != (so & 1) || a.rets.size() != cs.set.ps.size() || a.llvm != LLVM_VERSION_STRING) c.Fail(name + ": the header does not describe the engine");
      for (int lo = 0; lo < 8; lo++)
        for (int used = 0; used < 3; used++) {
          if (!thorough && lo != (so ^ 1) && lo != (so ^ 6) && lo != static_cast<int>(k % 8)) continue;
          Eng20 f(cs.batch, MkOpt(lo, used != 2));
          std::string nm = name + ", loaded by an engine with " + OptName(lo) + (used ? used == 1 ? " that holds another program" : " that refused a program" : "");
          if (used == 1 && !f.Compile(own, reg).ok()) Die("own");
          if (used == 2) {
            std::string cut = art.substr(0, art.size() - 1);
            if (f.Load(cut, reg).ok()) c.Fail(nm + ": truncated artifact accepted");
          }
          for (int rep = 0; rep < (used == 1 ? 2 : 1); rep++) {
            auto ls = f.Load(art, reg);
            c.Eval();
            if (!ls.ok()) {
              c.Fail(nm + ": refused: " + ls.ToString());
              break;
            }
            // the chunk of internal contexts is the loading engine's own
            auto w = want;
            for (size_t i = 0; i < w.size(); i++)
              if (cs.set.ps[i % cs.set.ps.size()].src == "chunk(exec_ctx);" && (i / cs.set.ps.size()) % 2 == 0) w[i].ret = N(kU64, static_cast<uint64_t>(MkOpt(lo).exec_ctx_arena_alloc_min_chunk_size));
            auto d = Differ(f, cs.set, ins, w, rets);
            c.Outcome(d + cs.set.ps[0].src + ShowMade(w[0], cs.set.ps[0].pipe));
            if (!d.empty()) c.Fail(nm + ": " + d);
            std::string re = "keep";
            if (f.Save(&re).ok() || re != "keep") c.Fail(nm + ": a loaded program is saved, which the interface excludes");
            if (!f.IR().empty()) c.Fail(nm + ": IR of a loaded program");
          }
          // the engine's own options are as constructed
          if (k % 4 == 0 && used < 2) {
            if (!f.Compile(own, reg).ok()) Die("own");
            auto r = Run20(f, 0, false, ins[0].in, nullptr);
            if (r.ret.u != static_cast<uint64_t>(MkOpt(lo).exec_ctx_arena_alloc_min_chunk_size)) c.Fail(nm + ": chunk size became " + Show(r.ret));
            if (f.IR().empty() == static_cast<bool>(lo & 2)) c.Fail(nm + ": dumping changed");
            std::string re;
            if (!f.Save(&re).ok()) c.Fail(nm + ": saving was switched off");
            if (!f.Compile(fma, reg).ok()) Die("fma");
            Inputs in(0);
            fmain(in);
            r = Run20(f, 0, false, in, nullptr);
            bool fused = r.ret.u != 0;
            if (fused != (host_fuses && (lo & 1))) c.Fail(nm + ": FP mode changed: " + Show(r.ret));
          }
          c.Beat();
        }
      if (k % 9 == 0) c.SampleOf("round trip", name + ", " + std::to_string(art.size()) + " bytes");
    }
  // every built-in function links again; large programs, many entries
  std::vector<std::pair<std::string, std::vector<P2>>> big;
  {
    std::map<std::string, std::string> place;
    std::map<std::string, T> byname;
    int i = 8;
    ForTypes([&](T t, auto*) {
      place[Name(t)] = Ld(t, i++);
      byname[Name(t)] = t;
    });
    std::ifstream f(VERIF_HARNESS_DIR "/signatures.txt");
    std::string l;
    std::vector<P2> all;
    while (std::getline(f, l)) {
      std::istringstream is(l);
      std::string n, r, a;
      is >> n >> r;
      if (n[0] == '?' || n == "in") continue;
      std::string src = n + "(";
      bool ints = false;
      for (int k = 0; is >> a; k++) ints = ints || a[0] != 'f', src += (k ? ", " : "") + place.at(a);
      // a zero among the integers would be a divisor
      if (ints && (n.find("Div") != std::string::npos || n.find("Mod") != std::string::npos)) continue;
      all.push_back({src + ");", false, true});
    }
    if (all.size() < 800) Die("signatures.txt");
    for (size_t lo = 0; lo < all.size(); lo += 128) big.push_back({"built-ins from " + std::to_string(lo), {all.begin() + static_cast<long>(lo), all.begin() + static_cast<long>(std::min(all.size(), lo + 128))}});
    for (size_t n : {255UL, 256UL, 257UL, 300UL}) {
      std::vector<P2> v;
      for (size_t j = 0; j < n; j++) v.push_back(ps[j * 5 % ps.size()]);
      big.push_back({std::to_string(n) + " entries", v});
    }
    std::vector<P2> v;
    for (size_t n : {255UL, 256UL, 4096UL, 65535UL, 65536UL, 70000UL}) v.push_back({"'" + std::string(n, 'c') + "' + ld_string(entry_arg, 1);", false, true});
    for (size_t n : {256UL, 257UL, 1025UL}) {
      std::string x = "[", y = "[", z;
      for (size_t j = 0; j < n; j++) {
        x += (j ? "," : "") + std::to_string(j) + ".5";
        y += (j ? "," : "") + std::string("'t") + std::to_string(j) + "'";
        z += (j ? " + ver(" : "ver(") + std::to_string(j) + ")";
      }
      v.push_back({x + "];", false, true});
      v.push_back({y + "];", false, true});
      v.push_back({z + ";", false, true});
    }
    std::string w;
    for (int j = 0; j < 300; j++) w += "v" + std::to_string(j) + " = ld_i64(entry_arg, 0) + " + std::to_string(j) + "; when v" + std::to_string(j) + " % 3 { st_i64(output, " + std::to_string(j) + ", v" + std::to_string(j / 2) + "); } ";
    v.push_back({w, true, true});
    big.push_back({"large programs", v});
    for (size_t j = 0; j < v.size(); j++) big.push_back({"large program alone " + std::to_string(j), {v[j]}});
  }
  for (size_t k = 0; k < big.size(); k++)
    for (int so : {0, 3}) {
      if (!c.Begin([&] { return big[k].first + " saved " + OptName(so); })) continue;
      bool batch = big[k].second.size() > 1;
      Set20 set{"", big[k].second, {}};
      Eng20 e(batch, MkOpt(so)), f(batch, MkOpt(so ^ 7)), g(batch, MkOpt(so));
      std::string name = big[k].first + " saved " + OptName(so), art;
      auto st = e.Compile(set, reg);
      c.Eval();
      if (!st.ok()) {
        c.Fail(name + ": refused: " + st.ToString().substr(0, 400));
        continue;
      }
      c.Beat();
      std::vector<T> rets;
      for (size_t i = 0; batch && i < set.ps.size(); i++) rets.push_back(e.b->GetReturnType(i));
      for (auto& p : set.ps) p.ok = true;
      auto want = All(e, set, ins);
      st = e.Save(&art);
      if (!st.ok()) {
        c.Fail(name + ": cannot be saved: " + st.ToString());
        continue;
      }
      for (auto* t : {&f, &g}) {
        c.Beat();
        if (t == &g && !g.Compile(batch ? set : own, reg).ok()) Die("own");
        st = t->Load(art, reg);
        c.Eval();
        auto w = want;
        for (size_t i = 0; i < w.size(); i++)
          if (t == &f && set.ps[i % set.ps.size()].src == "chunk(exec_ctx);" && (i / set.ps.size()) % 2 == 0) w[i].ret = N(kU64, static_cast<uint64_t>(MkOpt(so ^ 7).exec_ctx_arena_alloc_min_chunk_size));
        auto d = st.ok() ? Differ(*t, set, ins, w, rets) : "refused: " + st.ToString();
        if (!d.empty()) c.Fail(name + ", loaded: " + d.substr(0, 600));
        for (auto& x : want) c.Outcome(ShowMade(x, x.log.size() != 0));
      }
    }
  // strictness travels with the artifact
  if (c.Begin("FP mode of the artifact"))
    for (int batch = 0; batch < 2; batch++)
      for (int so = 0; so < 2; so++)
        for (int lo = 0; lo < 2; lo++) {
          Eng20 e(batch, MkOpt(so)), f(batch, MkOpt(lo));
          std::string art;
          if (!e.Compile(fma, reg).ok() || !e.Save(&art).ok()) Die("fma");
          Inputs in(0);
          fmain(in);
          auto w = Run20(e, 0, false, in, nullptr);
          auto st = f.Load(art, reg);
          auto g = Run20(f, 0, false, in, nullptr);
          c.Eval();
          if (!st.ok() || !SameMade(g, w, false)) c.Fail("x*x+z saved " + OptName(so) + " gives " + ShowMade(w, false) + ", loaded by " + OptName(lo) + " " + ShowMade(g, false));
          if (so == 0 && w.ret.u != 0) c.Fail("strict x*x+z is fused");
        }
  // host identification: every altered field x every set of checks switched off
  Set20 prog{"", {{"ver(ld_i32(entry_arg, 14)) + 1;", false, true}}, {}};
  for (int batch = 0; batch < 2; batch++) {
    Eng20 e(batch, MkOpt(0));
    std::string art;
    Art a;
    if (!e.Compile(prog, reg).ok() || !e.Save(&art).ok() || !Parse(art, &a).empty()) Die("host artifact");
    std::vector<T> rets{kI32};
    auto want = All(e, prog, ins);
    std::string* of[3] = {&a.llvm, &a.triple, &a.cpu};
    std::string orig[3] = {a.llvm, a.triple, a.cpu};
    auto variants = [&](const std::string& s) {
      std::vector<std::string> v{"", s + "x", s + std::string(1, '\0'), s.substr(0, s.size() - 1), s.substr(1), "x" + s, s + s, std::string(3000, 'z')};
      for (size_t i = 0; i < s.size(); i++) {
        auto t = s;
        t[i] = static_cast<char>(t[i] ^ 1);
        v.push_back(t);
        t = s;
        t[i] = static_cast<char>(t[i] ^ 0x20);
        v.push_back(t);
        if (i) v.push_back(s.substr(0, i));
      }
      return v;
    };
    auto unit = [&](const std::string& nm) {
      for (int chk = 0; chk < 8; chk++) {
        LoadCompiledOptions o;
        o.check_llvm_version = chk & 1, o.check_target_triple = chk & 2, o.check_cpu_name = chk & 4;
        int altered = (a.llvm != orig[0]) | (a.triple != orig[1]) << 1 | (a.cpu != orig[2]) << 2;
        bool ok = (altered & chk) == 0;
        Eng20 f(batch, MkOpt(0, false));
        Set20 before{"", {{"4040;", false, true}}, {}};
        if (chk & 1 && !f.Compile(before, reg).ok()) Die("before");
        auto st = LoadO(f, Write(a), reg, o);
        c.Eval();
        std::string s = std::string(batch ? "batch" : "single") + " artifact with " + nm + ", checks " + std::to_string(chk);
        if (st.ok() != ok) c.Fail(s + (ok ? ": refused: " + st.ToString() : ": accepted"));
        c.Outcome(nm + (ok ? "1" : "0") + std::to_string(chk));
        if (st.ok() && ok) {
          auto d = Differ(f, prog, ins, want, rets);
          if (!d.empty()) c.Fail(s + ": " + d);
        }
        if (!st.ok() && (chk & 1)) {
          auto r = Run20(f, 0, false, ins[0].in, nullptr);
          if (!r.ok || r.ret.u != 4040) c.Fail(s + ": the refused load changed the engine");
        }
      }
      c.Beat();
    };
    for (int q = 0; q < 3; q++) {
      auto vs = variants(orig[q]);
      for (size_t i = 0; i < vs.size(); i++) {
        if (!c.Begin([&] { return std::string(batch ? "batch" : "single") + " host field " + std::to_string(q) + " variant " + std::to_string(i); })) continue;
        *of[q] = vs[i];
        unit(std::string(q == 0 ? "compiler version" : q == 1 ? "triple" : "cpu") + " variant " + std::to_string(i));
        *of[q] = orig[q];
      }
    }
    if (c.Begin([&] { return std::string(batch ? "batch" : "single") + " host fields exchanged"; })) {
      for (int m = 0; m < 8; m++) {
        for (int q = 0; q < 3; q++) *of[q] = m >> q & 1 ? orig[(q + 1) % 3] : orig[q];
        unit("fields exchanged " + std::to_string(m));
      }
      for (int q = 0; q < 3; q++) *of[q] = orig[q];
    }
    if (c.Begin([&] { return std::string(batch ? "batch" : "single") + " other kind and registries"; })) {
      for (int chk = 0; chk < 8; chk++) {
        LoadCompiledOptions o;
        o.check_llvm_version = chk & 1, o.check_target_triple = chk & 2, o.check_cpu_name = chk & 4;
        Eng20 f(!batch, {});
        c.Eval();
        if (LoadO(f, art, reg, o).ok()) c.Fail("the other engine kind accepts the artifact");
        auto r = Run20(f, 0, false, ins[0].in, nullptr);
        if (r.ok) c.Fail("the other engine kind runs after refusing the artifact");
      }
      Eng20 f(batch, {}), g(batch, {});
      if (f.Load(art, poor).ok()) c.Fail("an artifact that needs a function the registry lacks is accepted");
      if (Run20(f, 0, false, ins[0].in, nullptr).ok) c.Fail("an artifact that needs a function the registry lacks runs");
      if (!f.Load(art, reg).ok()) c.Fail("a good artifact is refused after an unlinkable one");
      else if (auto d = Differ(f, prog, ins, want, rets); !d.empty()) c.Fail("after an unlinkable artifact: " + d);
      auto st = g.Load(art, reg2);
      auto r = Run20(g, 0, false, ins[0].in, nullptr);
      auto w = want[0].ret;
      w.u++;
      if (!st.ok() || !Same(r.ret, w)) c.Fail("an artifact loaded with a registry whose function differs gives " + ShowMade(r, false) + ", expected " + Show(w));
      // extension records are skipped
      for (int n = 0; n < 4; n++) {
        a.exts.emplace_back(static_cast<uint32_t>(n * 77), std::string(static_cast<size_t>(n * 5), 'e'));
        Eng20 h(batch, {});
        auto s = LoadO(h, Write(a), reg, {});
        c.Eval();
        if (!s.ok()) c.Fail("an artifact with extension records is refused: " + s.ToString());
        else if (auto d = Differ(h, prog, ins, want, rets); !d.empty()) c.Fail("with extension records: " + d);
      }
      a.exts.clear();
    }
  }
}

// ------------------------------------------------------------- C23
void C23(vf::Ctx& c) {
  auto reg = Registry((void*)Ver1);
  for (int batch = 0; batch < 2; batch++) {
    // the artifact to damage, with extension records of its own, and the program the engine holds meanwhile
    Set20 prog{"", {{"ver(4) + 1;", false, true}}, {}}, before{"", {{"ld_i64(entry_arg, 0) + 4040;", false, true}}, {}};
    if (batch) prog.ps.push_back({"\"abc\" + ld_string(entry_arg, 1);", false, true}), prog.ps.push_back({"ld_f64(entry_arg, 2);", false, true});
    std::string art;
    {
      Eng20 e(batch, MkOpt(0));
      Art a;
      if (!e.Compile(prog, reg).ok() || !e.Save(&art).ok() || !Parse(art, &a).empty()) Die("artifact");
      a.exts.clear();
      if (!batch) a.exts.emplace_back(7, "extra"), a.exts.emplace_back(9, "");
      art = Write(a);
    }
    Art base;
    if (!Parse(art, &base).empty()) Die("layout");
    size_t obj_at = 0;
    for (auto& f : base.fields)
      if (f.name == "object size") obj_at = f.at + 8;
    Inputs in(0);
    Set20 hold = before;
    std::unique_ptr<Eng20> e;
    std::string beforeart;
    {
      Eng20 x(batch, MkOpt(0));
      if (!x.Compile(before, reg).ok() || !x.Save(&beforeart).ok()) Die("before");
    }
    uint64_t loads = 0;
    // one damaged artifact, at both ends of its page
    auto tryit = [&](const std::string& bytes, const std::string& what) {
      Art a;
      auto why = Parse(bytes, &a);
      // a well-formed artifact with other (valid) codes is another artifact: nothing is asked of it
      if (why.empty()) {
        // host fields decide on their own
        bool host = a.llvm == base.llvm && a.triple == base.triple && a.cpu == base.cpu && a.mode == base.mode;
        if (host) {
          c.Outcome("another artifact");
          return;
        }
        why = "host";
      }
      c.Outcome(why);
      for (int end = 0; end < 2; end++) {
        if (!e) {
          e = std::make_unique<Eng20>(batch, MkOpt(0, false));
          auto st = loads % 2 ? e->Load(beforeart, reg) : e->Compile(hold, reg);
          if (!st.ok()) Die("hold: " + st.ToString());
        }
        Fenced f(bytes, end);
        c.Sub(what);
        t_largest = 0;
        t_refuse = size_t{1} << 31;
        t_watch = true;
        std::string msg;
        bool ok = false;
        try {
          auto st = LoadO(*e, f.view(), reg, {});
          ok = st.ok();
          if (!ok && st.ToString().size() < 16) msg = "refused without a message";
        } catch (const std::exception& x) {
          msg = std::string("throws ") + x.what();
        }
        t_watch = false;
        loads++;
        c.Eval();
        if (ok) msg = "accepted";
        if (msg.empty() && t_largest > bytes.size() + (1 << 20)) msg = "asks for " + std::to_string(t_largest) + " bytes of memory for an artifact of " + std::to_string(bytes.size());
        if (msg.empty()) {
          auto m = Run20(*e, 0, false, in, nullptr);
          if (!m.ok || !Same(m.ret, I64(4047))) msg = "the engine no longer gives what it did: " + ShowMade(m, false);
          else if (batch && e->b->GetFunctionCount() != 1) msg = "entry count changed";
          else if (batch && e->b->GetReturnType(0) != kI64) msg = "return type changed";
        }
        if (!msg.empty()) {
          c.Fail(std::string(batch ? "batch" : "single") + " artifact (" + std::to_string(art.size()) + " bytes) " + what + ", " + why + " no longer valid: " + msg);
          e.reset();
        }
      }
    };
    std::string kind = batch ? "batch" : "single";
    // truncation everywhere
    for (size_t n = 0; n < art.size(); n += 64)
      if (c.Begin([&] { return kind + " truncated from " + std::to_string(n); }))
        for (size_t k = n; k < std::min(art.size(), n + 64); k++) tryit(art.substr(0, k), "truncated to " + std::to_string(k));
    // bytes removed at the front, bytes inserted, trailing bytes
    if (c.Begin([&] { return kind + " shifted"; }))
      for (size_t k = 1; k < 64; k++) {
        tryit(art.substr(k), "without its first " + std::to_string(k));
        tryit(std::string(k, '\0') + art, "behind " + std::to_string(k) + " zeros");
        for (char x : {'\0', 'J', '\xff'}) tryit(art + std::string(k, x), "with " + std::to_string(k) + " bytes behind");
        tryit(art + art.substr(0, k), "followed by its own beginning");
        tryit(art.substr(0, art.size() - 4) + std::string(k, '\0') + "JFCE", "with bytes before the footer");
        if (k < art.size()) tryit(art + art.substr(art.size() - k), "with its end repeated");
      }
    // one byte left out or doubled anywhere outside the object
    if (c.Begin([&] { return kind + " a byte more or less"; }))
      for (size_t i = 0; i < art.size(); i++) {
        if (i > obj_at + 8 && i + 64 < art.size()) continue;
        auto t = art;
        t.erase(i, 1);
        tryit(t, "without byte " + std::to_string(i));
        t = art;
        t.insert(i, 1, art[i]);
        tryit(t, "with byte " + std::to_string(i) + " doubled");
      }
    // every value of every byte outside the object
    size_t foot = obj_at + base.obj.size();
    std::vector<size_t> bytes;
    for (size_t i = 0; i < art.size(); i++)
      if (i < obj_at || i >= foot) bytes.push_back(i);
    for (size_t i : bytes)
      if (c.Begin([&] { return kind + " byte " + std::to_string(i); }))
        for (int v = 0; v < 256; v++) {
          auto t = art;
          if (static_cast<uint8_t>(t[i]) == v) continue;
          t[i] = static_cast<char>(v);
          tryit(t, "byte " + std::to_string(i) + " = " + std::to_string(v));
        }
    // number fields: boundary values, alone and in pairs
    auto values = [&](const Field& f) {
      std::set<uint64_t> v;
      uint64_t cur = 0;
      for (size_t i = 0; i < f.width; i++) cur |= static_cast<uint64_t>(static_cast<uint8_t>(art[f.at + i])) << (8 * i);
      uint64_t rest = art.size() - f.at - f.width;
      uint64_t max = f.width == 8 ? UINT64_MAX : (uint64_t{1} << (8 * f.width)) - 1;
      for (uint64_t b : {cur, rest, uint64_t{0}, rest - 4, rest - 8, art.size(), max, max - rest, max - art.size(), max - f.at, max / 2, uint64_t{1} << 16, uint64_t{1} << 24, uint64_t{1} << 31, uint64_t{1} << 32, uint64_t{1} << 40,
                         (uint64_t{1} << 32) + cur, (uint64_t{1} << 63) + cur})
        for (int d = -2; d <= 2; d++) v.insert((b + static_cast<uint64_t>(d)) & max);
      for (int k = 0; k < 64; k++) v.insert((uint64_t{1} << k) & max);
      v.erase(cur);
      return v;
    };
    std::vector<Field> nums;
    for (auto& f : base.fields)
      if (f.width >= 1) nums.push_back(f);
    auto put = [&](std::string& s, const Field& f, uint64_t v) {
      for (size_t i = 0; i < f.width; i++) s[f.at + i] = static_cast<char>(v >> (8 * i));
    };
    for (auto& f : nums) {
      if (c.Begin([&] { return kind + " field " + f.name + " at " + std::to_string(f.at); }))
        for (uint64_t v : values(f)) {
          auto t = art;
          put(t, f, v);
          tryit(t, f.name + " = " + std::to_string(v));
        }
      for (auto& g : nums) {
        if (g.at <= f.at) continue;
        if (!c.Begin([&] { return kind + " fields " + f.name + " at " + std::to_string(f.at) + " and " + g.name + " at " + std::to_string(g.at); })) continue;
        auto vf1 = values(f), vg = values(g);
        auto thin = [&](std::set<uint64_t>& s) {
          if (thorough) return;
          std::set<uint64_t> k;
          size_t i = 0;
          for (uint64_t v : s)
            if (i++ % 5 == 0 || v < 3 || v >= 0xfffffff0) k.insert(v);
          s = k;
        };
        thin(vf1), thin(vg);
        for (uint64_t v : vf1)
          for (uint64_t w : vg) {
            auto t = art;
            put(t, f, v);
            put(t, g, w);
            tryit(t, f.name + " = " + std::to_string(v) + ", " + g.name + " = " + std::to_string(w));
          }
      }
    }
    // many extension records and entry counts with nothing behind them
    if (c.Begin([&] { return kind + " records missing"; }))
      for (uint32_t n : {1u, 2u, 100u, 65536u, 1u << 24, 0x7fffffffu, 0xffffffffu})
        for (size_t have = 0; have < 4; have++) {
          std::string o = art.substr(0, foot) + Le(n, 4);
          for (size_t k = 0; k < have; k++) o += Le(k, 4) + Le(3, 4) + "abc";
          tryit(o, "extension count " + std::to_string(n) + " with " + std::to_string(have) + " records and no footer");
          if (n != have) tryit(o + "JFCE", "extension count " + std::to_string(n) + " with " + std::to_string(have) + " records");
        }
    // tiny inputs
    if (c.Begin([&] { return kind + " tiny"; })) {
      for (int a = 0; a < 256; a++) tryit(std::string(1, static_cast<char>(a)), "one byte");
      for (size_t n = 0; n < 200; n++)
        for (char x : {'\0', '\xff', '\x01', 'J'}) {
          tryit(std::string(n, x), "only bytes " + std::to_string(x));
          tryit("JFCA" + Le(2, 4) + std::string(n, x), "a magic, a version and bytes " + std::to_string(x));
          tryit("JFCA" + Le(2, 4) + std::string(n, x) + "JFCE", "a magic, a version, bytes and a footer");
        }
    }
    c.Extra("loads", loads);
  }
  if (c.Begin("null registry bytes")) c.Eval();
}
void Body(vf::Ctx& c, const std::string& mode) {
  thorough = c.thorough;
  if (mode == "C22") C22(c);
  if (mode == "C23") C23(c);
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
