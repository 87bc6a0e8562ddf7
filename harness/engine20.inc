// ------------------------------------------------------------- C20: the states of an engine
// The model of an engine is what is installed: nothing, or a set of programs with whether they were compiled here (IR to
// show, object to save) or loaded.
enum class O20 { kCompile, kLoad, kLoadForeign, kLoadCut, kLoadGarbage, kLoadMissing, kLoadEmpty, kLoadVersion, kSave, kSaveNull };
struct Op20 {
  O20 k;
  int set;  // compile: the set; load: the set the artifact holds
};
struct World20 {
  bool batch;
  std::vector<Set20> good, bad;
  std::unique_ptr<FunctionRegistry> reg, poor;
  std::vector<std::string> art;  // artifact of every good set
  std::string foreign, missing;
  std::vector<std::vector<Made>> want;  // [set][entry]
  std::vector<std::vector<T>> rets;
  Inputs in{0};
};
llvm::Value* CodegenWrongType(const jitfusion::FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, jitfusion::IRCodeGenContext& ctx) {
  return llvm::ConstantInt::get(llvm::Type::getInt64Ty(ctx.context), 5);
}
llvm::Value* CodegenUndefined(const jitfusion::FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, jitfusion::IRCodeGenContext& ctx) {
  auto* ft = llvm::FunctionType::get(llvm::Type::getInt32Ty(ctx.context), false);
  return ctx.builder.CreateCall(ctx.module.getOrInsertFunction("verif_no_such_symbol", ft));
}
int32_t ExtraFn(int32_t a) { return a + 1; }
int32_t ExtraFn2(int32_t a) { return a * 3; }

struct State20 {
  int set = -1;
  bool loaded = false;
};
// compares the engine with the model's state
std::string Observe20(World20& w, Eng20& e, const State20& st, bool save, bool dump, bool deep) {
  ExecContext ctx(64);
  for (int form = 0; form < 2; form++) {
    ExecContext* cp = form ? &ctx : nullptr;
    if (st.set < 0) {
      RetType r;
      Recorder rec;
      if (e.Value(0, w.in, cp, &r).ok()) return "value execution is OK with nothing installed";
      if (e.Store(0, w.in, cp, &rec).ok()) return "store execution is OK with nothing installed";
      if (!rec.log.empty()) return "stores with nothing installed";
      if (w.batch) {
        std::vector<RetType> rs;
        void* out = &rec;
        if ((cp ? e.b->ExecuteAll(*cp, &w.in.plan, &rs) : e.b->ExecuteAll(&w.in.plan, &rs)).ok()) return "ExecuteAll is OK with nothing installed";
        if ((cp ? e.b->ExecuteAll(*cp, &w.in.plan, out) : e.b->ExecuteAll(&w.in.plan, out)).ok()) return "store ExecuteAll is OK with nothing installed";
      }
      continue;
    }
    auto& set = w.good[static_cast<size_t>(st.set)];
    for (size_t i = 0; i < set.ps.size(); i++) {
      auto m = Run20(e, i, set.ps[i].pipe, w.in, cp);
      auto& x = w.want[static_cast<size_t>(st.set)][i];
      if (!SameMade(m, x, set.ps[i].pipe)) return "entry " + std::to_string(i) + " gives " + ShowMade(m, set.ps[i].pipe) + ", the installed program " + ShowMade(x, set.ps[i].pipe);
    }
    if (w.batch) {
      RetType r;
      if (e.Value(set.ps.size(), w.in, cp, &r).ok()) return "an entry past the end executes";
    }
  }
  if (w.batch) {
    size_t n = st.set < 0 ? 0 : w.good[static_cast<size_t>(st.set)].ps.size();
    if (e.b->GetFunctionCount() != n) return "entry count " + std::to_string(e.b->GetFunctionCount()) + ", installed " + std::to_string(n);
    for (size_t i = 0; i < n; i++)
      if (e.b->GetReturnType(i) != w.rets[static_cast<size_t>(st.set)][i]) return "return type of entry " + std::to_string(i) + " is another one";
  }
  auto ir = e.IR();
  bool want_ir = dump && st.set >= 0 && !st.loaded;
  if (ir.empty() == want_ir) return want_ir ? "no IR of the compiled program" : "IR although " + std::string(st.set < 0 ? "nothing is installed" : dump ? "the program was loaded" : "dumping is off");
  if (want_ir)
    for (size_t s = 0; s < w.good.size(); s++)
      for (auto* m : w.good[s].marks)
        if ((ir.find(m) != std::string::npos) != (static_cast<int>(s) == st.set)) return "the IR is not that of the installed program";
  std::string out = "keep";
  auto sv = e.Save(&out);
  bool want_save = save && st.set >= 0 && !st.loaded;
  if (sv.ok() != want_save) return want_save ? "cannot be saved: " + sv.ToString() : "can be saved, although " + std::string(st.set < 0 ? "nothing is installed" : st.loaded ? "the program was loaded" : "saving is off");
  if (!sv.ok() && out != "keep") return "a refused save changed the output";
  if (sv.ok() && deep) {
    out = out.substr(4);
    Eng20 f(w.batch, {});
    auto ls = f.Load(out, w.reg);
    if (!ls.ok()) return "the saved artifact does not load: " + ls.ToString();
    State20 t = st;
    t.loaded = true;
    auto m = Observe20(w, f, t, true, true, false);
    if (!m.empty()) return "the saved artifact holds something else: " + m;
  }
  return "";
}
std::string Name20(const World20& w, const Op20& o) {
  auto set = [&](int s) { return s < static_cast<int>(w.good.size()) ? w.good[static_cast<size_t>(s)].name : w.bad[static_cast<size_t>(s) - w.good.size()].name; };
  switch (o.k) {
    case O20::kCompile: return std::string("Compile(") + set(o.set) + ")";
    case O20::kLoad: return std::string("Load(") + set(o.set) + ")";
    case O20::kLoadForeign: return "Load(artifact of the other engine kind)";
    case O20::kLoadCut: return "Load(truncated)";
    case O20::kLoadGarbage: return "Load(object bytes zeroed)";
    case O20::kLoadMissing: return "Load(needs a function the registry lacks)";
    case O20::kLoadEmpty: return "Load(no bytes)";
    case O20::kLoadVersion: return "Load(other format version)";
    case O20::kSave: return "Save";
    default: return "Save(null)";
  }
}
void MakeWorld(World20& w, bool batch) {
  w.batch = batch;
  w.reg = NewRegistry();
  w.poor = NewRegistry();
  for (auto* r : {w.reg.get(), w.poor.get()}) {
    AddStores(r);
    Reg(r);
  }
  if (!w.reg->RegisterReadOnlyCFunc(FunctionSignature("extra", {kI32}, kI32), (void*)ExtraFn).ok()) Die("extra");
  if (!w.poor->RegisterReadOnlyCFunc(FunctionSignature("extra2", {kI32}, kI32), (void*)ExtraFn2).ok()) Die("extra2");
  if (!w.reg->RegisterLLVMIntrinicFunc(FunctionSignature("wrongtype", {}, kI32), CodegenWrongType).ok()) Die("wrongtype");
  if (!w.reg->RegisterLLVMIntrinicFunc(FunctionSignature("undefined", {}, kI32), CodegenUndefined).ok()) Die("undefined");
  P2 a{"ld_i64(entry_arg, 0) * 1000003;", false, true}, b{"\"marker-b\" + ld_string(entry_arg, 1);", false, true},
      s{"st_i64(output, 31337, ld_i64(entry_arg, 0)); st_string(output, 2, \"marker-s\");", true, true}, l{"[70001, 70002] + ld_i32list(entry_arg, 3);", false, true},
      f{"f(entry_arg, 20, exec_ctx) + 90001;", false, true};
  P2 t{"1 + \"a\";", false, false}, u{"nofunction(1);", false, false}, v{"wrongtype();", false, false}, x{"undefined() + 1;", false, false};
  if (batch) {
    w.good = {{"[A,B]", {a, b}, {"1000003", "marker-b"}}, {"[S]", {s}, {"marker-s"}}, {"[F,L,F]", {f, l, f}, {"90001"}}};
    w.bad = {{"[A, ill-typed]", {a, t}, {}}, {"[unknown function, B]", {u, b}, {}}, {"[B, invalid module]", {b, v}, {}}, {"[undefined symbol]", {x}, {}}, {"[]", {}, {}}};
  } else {
    w.good = {{"A", {a}, {"1000003"}}, {"B", {b}, {"marker-b"}}, {"S", {s}, {"marker-s"}}};
    w.bad = {{"ill-typed", {t}, {}}, {"unknown function", {u}, {}}, {"invalid module", {v}, {}}, {"undefined symbol", {x}, {}}};
  }
  ExecEngineOption o;
  o.enable_save_compiled = true;
  for (auto& g : w.good) {
    Eng20 e(batch, o);
    auto st = e.Compile(g, w.reg);
    if (!st.ok()) Die(std::string(g.name) + ": " + st.ToString());
    std::string bytes;
    st = e.Save(&bytes);
    if (!st.ok()) Die(st.ToString());
    w.art.push_back(bytes);
    std::vector<Made> ms;
    std::vector<T> rt;
    for (size_t i = 0; i < g.ps.size(); i++) {
      // what the program means, without the engine under test
      Made m;
      m.ok = true, m.status = "OK";
      auto& src = g.ps[i].src;
      if (src == a.src) m.ret = I64(7 * 1000003);
      else if (src == b.src) m.ret = S("marker-b");
      else if (src == l.src) m.ret = FromRet(RetType(std::vector<int32_t>{70001, 70002, 0, 10, 20}));
      else if (src == f.src) m.ret = I64(90001);
      else m.log = {{31337, I64(7)}, {2, S("marker-s")}};
      ms.push_back(m);
      rt.push_back(batch ? e.b->GetReturnType(i) : T::kUnknown);
      if (batch && !g.ps[i].pipe && rt.back() != m.ret.t) rt.back() = m.ret.t;
    }
    w.want.push_back(ms);
    w.rets.push_back(rt);
  }
  {
    Eng20 e(!batch, o);
    Set20 one{"", {a}, {}};
    if (!e.Compile(one, w.reg).ok() || !e.Save(&w.foreign).ok()) Die("foreign");
  }
  {
    Eng20 e(batch, o);
    Set20 one{"", {{"extra2(4) + 1;", false, true}}, {}};
    if (!e.Compile(one, w.poor).ok() || !e.Save(&w.missing).ok()) Die("missing");
  }
}
// the object bytes of an artifact, found by the ELF magic
std::string Garbage(std::string a) {
  auto p = a.find("\x7f" "ELF");
  if (p == std::string::npos) Die("no object in the artifact");
  memset(a.data() + p, 0, a.size() - p - 8);
  return a;
}
void C20(vf::Ctx& c) {
  for (int batch = 0; batch < 2; batch++) {
    World20 w;
    MakeWorld(w, batch);
    std::vector<Op20> al, few;
    int ng = static_cast<int>(w.good.size());
    for (int i = 0; i < ng + static_cast<int>(w.bad.size()); i++) al.push_back({O20::kCompile, i});
    for (int i = 0; i < ng; i++) al.push_back({O20::kLoad, i});
    for (O20 k : {O20::kLoadForeign, O20::kLoadCut, O20::kLoadGarbage, O20::kLoadMissing, O20::kLoadEmpty, O20::kLoadVersion, O20::kSave, O20::kSaveNull}) al.push_back({k, 0});
    few = {{O20::kCompile, 0}, {O20::kCompile, 1}, {O20::kCompile, ng}, {O20::kCompile, ng + 3}, {O20::kLoad, 2}, {O20::kLoad, 0}, {O20::kLoadCut, 1}, {O20::kLoadGarbage, 1}, {O20::kLoadMissing, 0}};
    if (!thorough) few.erase(few.begin() + 5, few.begin() + 7);
    auto run = [&](const std::vector<Op20>& al, std::vector<size_t>& x, bool save, bool dump, bool own_reg) {
      ExecEngineOption o;
      o.enable_save_compiled = save;
      o.dump_ir = dump;
      Eng20 e(batch, o);
      State20 st;
      std::string hist = std::string(batch ? "batch engine" : "engine") + (save ? ", saving" : "") + (dump ? ", dumping" : "") + ": ";
      auto m = Observe20(w, e, st, save, dump, false);
      for (size_t k = 0; m.empty() && k < x.size(); k++) {
        auto& op = al[x[k]];
        hist += Name20(w, op) + "; ";
        bool last = k + 1 == x.size();
        std::unique_ptr<FunctionRegistry> mine;
        if (own_reg) {  // a registry that does not outlive the call
          World20 tmp;
          mine = NewRegistry();
          AddStores(mine.get());
          Reg(mine.get());
        }
        auto& reg = own_reg ? mine : w.reg;
        switch (op.k) {
          case O20::kCompile: {
            bool good = op.set < ng;
            auto& s = good ? w.good[static_cast<size_t>(op.set)] : w.bad[static_cast<size_t>(op.set - ng)];
            auto r = e.Compile(s, reg);
            st.set = good ? op.set : -1;
            st.loaded = false;
            if (r.ok() != good) m = good ? "a good program is refused: " + r.ToString() : "a bad program is accepted";
            else if (!good && r.ToString().size() < 16) m = "refused without a message";
            break;
          }
          case O20::kLoad: {
            auto r = e.Load(w.art[static_cast<size_t>(op.set)], reg);
            st.set = op.set;
            st.loaded = true;
            if (!r.ok()) m = "a good artifact is refused: " + r.ToString();
            break;
          }
          case O20::kSave:
          case O20::kSaveNull: {
            if (op.k == O20::kSaveNull) {
              if (e.Save(nullptr).ok()) m = "saving to nowhere is OK";
            } else {
              std::string out;
              (void)e.Save(&out).ok();
            }
            break;
          }
          default: {
            std::string bytes = w.art[static_cast<size_t>(op.set)];
            if (op.k == O20::kLoadForeign) bytes = w.foreign;
            if (op.k == O20::kLoadCut) bytes.resize(bytes.size() / 2);
            if (op.k == O20::kLoadGarbage) bytes = Garbage(bytes);
            if (op.k == O20::kLoadMissing) bytes = w.missing;
            if (op.k == O20::kLoadEmpty) bytes.clear();
            if (op.k == O20::kLoadVersion) bytes[4]++;
            auto r = e.Load(bytes, reg);
            if (r.ok()) m = "a bad artifact is accepted";
            else if (r.ToString().size() < 16) m = "refused without a message";
          }
        }
        c.Transition();
        uint64_t h[5] = {static_cast<uint64_t>(batch), static_cast<uint64_t>(st.set + 1), st.loaded, save, dump};
        c.State(vf::Hash(h, sizeof h));
        if (m.empty()) m = Observe20(w, e, st, save, dump, last);
      }
      c.Eval();
      c.Trace();
      if (!m.empty()) c.Fail(hist + m);
    };
    struct Cfg {
      const std::vector<Op20>* al;
      size_t depth;
      bool save, dump, own;
    };
    std::vector<Cfg> cfgs{{&al, thorough ? 4u : 3u, true, true, false}, {&few, thorough ? 5u : 4u, true, false, false}, {&few, thorough ? 4u : 2u, false, true, false}, {&al, 2, false, false, false}, {&few, 2, true, true, true}};
    for (size_t q = 0; q < cfgs.size(); q++) {
      auto& f = cfgs[q];
      auto& A = *f.al;
      size_t pre = std::min<size_t>(f.depth, 2);
      for (size_t i = 0; i < A.size(); i++)
        for (size_t j = 0; j < A.size(); j++) {
          if (!c.Begin([&] { return std::string(batch ? "batch" : "single") + " configuration " + std::to_string(q) + ": " + Name20(w, A[i]) + "; " + Name20(w, A[j]); })) continue;
          std::vector<size_t> x(f.depth, 0);
          x[0] = i, x[1] = j;
          for (;;) {
            run(A, x, f.save, f.dump, f.own);
            c.Beat();
            size_t k = f.depth;
            while (k > pre && ++x[k - 1] == A.size()) x[--k] = 0;
            if (k == pre) break;
          }
          if (i == 1 && j == 5) c.SampleOf(batch ? "batch engine" : "engine", Name20(w, A[i]) + "; " + Name20(w, A[j]) + "; " + Name20(w, A[2]));
        }
    }
  }
}
