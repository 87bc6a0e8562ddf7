// C18 (run-time errors and contexts), C20 (engine states), C21 (batches): sequences of operations on real engines against
// small reference models.
#include "prog.h"

namespace {
bool thorough = false;

// a program: its text, whether it stores, and what an execution must give
struct Prog {
  std::string name, src;
  bool pipe;
  int sites;
  // what one execution returns (or stores), and the sites it calls in order
  std::function<void(const Plan&, Val* ret, std::vector<std::pair<int, Val>>* log, std::vector<int>* calls)> model;
};
std::vector<Prog> Progs18() {
  using Log = std::vector<std::pair<int, Val>>;
  using Calls = std::vector<int>;
  auto F = [](const char* n, int i) { return std::string(n) + "(entry_arg, " + std::to_string(i) + ", exec_ctx)"; };
  std::vector<Prog> v;
  v.push_back({"sum", F("f", 0) + " + " + F("f", 1) + " * 3i64 + " + F("f", 2) + ";", false, 3, [](const Plan& p, Val* r, Log*, Calls* c) {
                 *r = I64(ValOf(0, p.vals) + ValOf(1, p.vals) * 3 + ValOf(2, p.vals));
                 *c = {0, 1, 2};
               }});
  v.push_back({"string", F("s", 0) + " + \"-\" + " + F("s", 3) + ";", false, 4, [](const Plan& p, Val* r, Log*, Calls* c) {
                 *r = S("s" + std::to_string(ValOf(0, p.vals)) + "-s" + std::to_string(ValOf(3, p.vals)));
                 *c = {0, 3};
               }});
  v.push_back({"choice", "if(" + F("f", 0) + ", " + F("f", 1) + ", " + F("f", 2) + ");", false, 3, [](const Plan& p, Val* r, Log*, Calls* c) {
                 int k = ValOf(0, p.vals) ? 1 : 2;
                 *r = I64(ValOf(k, p.vals));
                 *c = {0, k};
               }});
  v.push_back({"lists", F("l", 1) + " + " + F("l", 2) + ";", false, 3, [](const Plan& p, Val* r, Log*, Calls* c) {
                 r->t = T::kI64List;
                 for (int k : {1, 2})
                   for (int i = 0; i < 3; i++) r->l.push_back(static_cast<uint64_t>(ValOf(k, p.vals) * 100 + i));
                 *c = {1, 2};
               }});
  v.push_back({"strings", F("sl", 0) + ";", false, 1, [](const Plan& p, Val* r, Log*, Calls* c) {
                 std::string s = "s" + std::to_string(ValOf(0, p.vals));
                 *r = SL({s, s});
                 *c = {0};
               }});
  v.push_back({"read-only", "rf(entry_arg, 0) + cf(entry_arg, 1);", false, 2, [](const Plan& p, Val* r, Log*, Calls* c) {
                 *r = I64(ValOf(0, p.vals) + ValOf(1, p.vals));
                 *c = {0, 1};
               }});
  v.push_back({"shortcut", F("f", 0) + " and " + F("f", 1) + ";", false, 2, [](const Plan& p, Val* r, Log*, Calls* c) {
                 bool a = ValOf(0, p.vals);
                 *r = N(kU8, a && ValOf(1, p.vals));
                 *c = {0};
                 if (a) c->push_back(1);
               }});
  v.push_back({"stores", "x = " + F("f", 4) + "; st_i64(output, 0, x); when " + F("f", 0) + " { stf(output, 1, 7i64, entry_arg, exec_ctx); } else { stf(output, 2, 8i64, entry_arg, exec_ctx); } st_i64(output, 9, 1i64);",
               true, 5, [](const Plan& p, Val*, Log* l, Calls* c) {
                 l->emplace_back(0, I64(ValOf(4, p.vals)));
                 int k = ValOf(0, p.vals) ? 1 : 2;
                 l->emplace_back(k, I64(6 + k));
                 l->emplace_back(9, I64(1));
                 *c = {4, 0, k};
               }});
  v.push_back({"pure stores", "st_i64(output, 5, 5i64);", true, 0, [](const Plan&, Val*, Log* l, Calls*) { l->emplace_back(5, I64(5)); }});
  v.push_back({"constant", "\"const\" + \"ant\";", false, 0, [](const Plan&, Val* r, Log*, Calls*) { *r = S("constant"); }});
  return v;
}

Status Build(const Prog& p, std::unique_ptr<ExecNode>* n) {
  athena::ProgramAstBuilder b;
  return p.pipe ? b.BuildPipeline(p.src, n) : b.BuildExpression(p.src, n);
}
size_t Count(const std::string& s, const std::string& x) {
  size_t n = 0;
  for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) n++;
  return n;
}
// whether the status is the one the calls deserve
std::string Judge(const Status& st, const std::vector<int>& fails, int kind = 0) {
  std::string s = st.ToString();
  if (st.ok() != fails.empty()) return st.ok() ? "OK although calls reported errors" : "an error although no call reported one: " + s.substr(0, 300);
  if (st.ok()) return "";
  size_t at = 0, total = 0;
  std::map<std::string_view, size_t> want;
  for (int i : fails)
    for (auto& t : Texts(kind, i)) {
      size_t q = s.find(t, at);
      if (q == std::string::npos) return "message '" + t.substr(0, 40) + "' of call " + std::to_string(i) + " missing or out of order in: " + s.substr(0, 300);
      at = q + t.size();
      total += t.size() + 2;
      want[t]++;
    }
  for (int i = 0; i < 7; i++)
    for (auto& t : Texts(kind, i))
      if (t[0] == '<' && (kind != 5 || &t == &Texts(kind, i)[0]) && Count(s, t) != want[t]) return "message '" + t.substr(0, 40) + "' appears " + std::to_string(Count(s, t)) + " times, reported " + std::to_string(want[t]) + " times, in: " + s.substr(0, 300);
  if (s.size() > total + 200) return "the status says more than was reported: " + s.substr(0, 300);
  return "";
}

// ------------------------------------------------------------- C18
struct Op18 {
  int prog;
  uint32_t mask, vals, alloc;
  int kind = 0;
};
struct Eng18 {
  std::vector<Prog> ps = Progs18();
  std::unique_ptr<FunctionRegistry> reg = NewRegistry();
  std::vector<std::unique_ptr<ExecEngine>> single;
  std::unique_ptr<BatchExecEngine> batch;
  explicit Eng18(int64_t chunk) {
    AddStores(reg.get());
    Reg(reg.get());
    ExecEngineOption o;
    o.exec_ctx_arena_alloc_min_chunk_size = chunk;
    std::vector<std::unique_ptr<ExecNode>> nodes;
    for (auto& p : ps) {
      std::unique_ptr<ExecNode> n;
      auto st = Build(p, &n);
      if (!st.ok()) Die(p.name + ": " + st.ToString());
      single.push_back(std::make_unique<ExecEngine>(o));
      st = single.back()->Compile(n, reg);
      if (!st.ok()) Die(p.name + ": " + st.ToString());
      Build(p, &n).ok();
      nodes.push_back(std::move(n));
    }
    batch = std::make_unique<BatchExecEngine>(o);
    auto st = batch->Compile(nodes, reg);
    if (!st.ok()) Die("batch: " + st.ToString());
  }
};
std::string ShowOp(const Eng18& e, const Op18& o) {
  char b[160];
  snprintf(b, sizeof b, "%s[fail %x, truth %x, %u bytes a call, messages of kind %d]", e.ps[static_cast<size_t>(o.prog)].name.c_str(), o.mask, o.vals, o.alloc, o.kind);
  return b;
}
// runs the operation; empty when everything is as it must be
std::string Step18(Eng18& e, const Op18& o, ExecContext* ctx, bool batch) {
  auto& p = e.ps[static_cast<size_t>(o.prog)];
  Plan pl;
  pl.mask = o.mask, pl.vals = o.vals, pl.alloc = o.alloc, pl.kind = o.kind;
  Val want;
  std::vector<std::pair<int, Val>> log;
  std::vector<int> calls;
  p.model(pl, &want, &log, &calls);
  Recorder rec;
  RetType r;
  Status st;
  auto i = static_cast<size_t>(o.prog);
  if (p.pipe) {
    void* out = &rec;
    st = batch ? (ctx ? e.batch->ExecuteAt(i, *ctx, &pl, out) : e.batch->ExecuteAt(i, &pl, out))
               : (ctx ? e.single[i]->Execute(*ctx, &pl, out) : e.single[i]->Execute(&pl, out));
  } else {
    st = batch ? (ctx ? e.batch->ExecuteAt(i, *ctx, &pl, &r) : e.batch->ExecuteAt(i, &pl, &r))
               : (ctx ? e.single[i]->Execute(*ctx, &pl, &r) : e.single[i]->Execute(&pl, &r));
  }
  std::vector<int> fails;
  for (int c : calls)
    if ((o.mask >> c) & 1) fails.push_back(c);
  auto m = Judge(st, fails, o.kind);
  if (!m.empty()) return m;
  if (pl.calls != calls) return "calls made differ from the program's";
  if (p.pipe) {
    if (!SameLog(rec.log, log)) return "stores " + ShowLog(rec.log) + " expected " + ShowLog(log);
  } else if (!Same(FromRet(r), want)) {
    return "result " + Show(FromRet(r)) + " expected " + Show(want);
  }
  if (g_objs) return "objects of the execution survive it";
  if (ctx && (ctx->HasErrors() || !ctx->errors.empty() || !ctx->GetErrorMessage().empty())) return "the context keeps errors after the execution";
  return "";
}
void C18(vf::Ctx& c) {
  for (int64_t chunk : {1, 16, 4096, 100000}) {
    std::unique_ptr<Eng18> e;
    auto eng = [&]() -> Eng18& {
      if (!e) e = std::make_unique<Eng18>(chunk);
      return *e;
    };
    auto ps = Progs18();
    // every operation alone, in every form, and twice
    std::vector<Op18> ops, few, half;
    for (size_t p = 0; p < ps.size(); p++) {
      uint32_t lim = 1u << ps[p].sites;
      for (uint32_t m = 0; m < lim; m++)
        for (uint32_t a : {0u, 9u, 5000u, 70000u}) {
          if (ps[p].sites == 0 && a) continue;
          for (uint32_t v = 0; v < lim; v++) {
            if (a != 0 && v != 0 && v != lim - 1) continue;
            ops.push_back({static_cast<int>(p), m, v, a});
            if (a == 0 || a == 5000) half.push_back(ops.back());
            if (v == (m & 1 ? lim - 1 : 0) && (m == 0 || m == lim - 1) && (a == 0 || a == 5000 || (a == 70000 && p < 2))) few.push_back(ops.back());
          }
        }
    }
    // errors of the other kinds: every failure mask, and in sequences everything failing
    for (size_t p = 0; p < ps.size(); p++)
      for (int kind = 1; kind < kKinds; kind++) {
        uint32_t lim = 1u << ps[p].sites;
        for (uint32_t m = 1; m < lim; m++) {
          ops.push_back({static_cast<int>(p), m, lim - 1, 0, kind});
          if (m == lim - 1 && (p < 2 || kind == 1) && kind != 5 && kind != 2) half.push_back(ops.back());
          if (m == lim - 1 && p == 0 && (kind == 1 || kind == 4)) few.push_back(ops.back());
        }
      }
    for (size_t i = 0; i < ops.size(); i += 16) {
      if (!c.Begin([&] { return "alone chunk " + std::to_string(chunk) + " from " + std::to_string(i); })) continue;
      auto& en = eng();
      for (size_t k = i; k < std::min(ops.size(), i + 16); k++)
        for (int form = 0; form < 4; form++) {
          ExecContext ctx(chunk);
          ExecContext* cp = form & 1 ? &ctx : nullptr;
          for (int rep = 0; rep < 2; rep++) {
            auto m = Step18(en, ops[k], cp, form & 2);
            c.Eval();
            c.Transition();
            if (!m.empty()) {
              c.Fail(ShowOp(en, ops[k]) + std::string(form & 2 ? " in a batch" : "") + (cp ? " with a context" : "") + ", chunks of " + std::to_string(chunk) + ": " + m);
              break;
            }
          }
          c.Trace();
        }
    }
    // every sequence on one shared context: pairs over all operations, longer ones over the fewer
    for (int longer = 0; longer < 2; longer++) {
      const auto& al = longer ? few : thorough ? ops : half;
      size_t depth = longer ? (thorough ? 3 : 2) : 1;
      for (size_t i = 0; i < al.size(); i++)
        for (int form = 0; form < (thorough || longer || chunk == 4096 ? 2 : 1); form++) {
          if (!c.Begin([&] { return "sequences of " + std::to_string(depth + 1) + " chunk " + std::to_string(chunk) + (form ? " batch" : "") + " from " + std::to_string(i); })) continue;
          auto& en = eng();
          std::vector<size_t> x(depth + 1, 0);
          x[0] = i;
          for (;;) {
            ExecContext ctx(chunk);
            size_t first = 0;
            bool bad = false;
            for (size_t k = 0; k <= depth && !bad; k++) {
              auto m = Step18(en, al[x[k]], &ctx, form != 0);
              c.Transition();
              if (m.empty()) {
                if (!first) first = ctx.arena.total_bytes();
                if (ctx.arena.total_bytes() > first && first) m = "the context keeps more memory than its first chunk";
              }
              uint64_t st[4] = {static_cast<uint64_t>(chunk), ctx.arena.total_bytes(), ctx.arena.avail_bytes(), k};
              c.State(vf::Hash(st, sizeof st, vf::Hash(&al[x[k]], sizeof al[0])));
              if (!m.empty()) {
                std::string s = "chunks of " + std::to_string(chunk) + ", one context: ";
                for (size_t q = 0; q <= k; q++) s += ShowOp(en, al[x[q]]) + "; ";
                c.Fail(s + m);
                bad = true;
              }
            }
            c.Eval();
            c.Trace();
            if (bad) break;
            size_t k = depth + 1;
            while (k > 1 && ++x[k - 1] == al.size()) x[--k] = 0;
            if (k == 1) break;
          }
          c.Beat();
          if (i == 7) c.SampleOf("sequence", ShowOp(en, al[i]) + " ; " + ShowOp(en, al[al.size() / 2]));
        }
    }
    // one context for very many executions: always the same, alternating, and all operations in turn
    for (size_t i = 0; i < few.size(); i++) {
      if (!c.Begin([&] { return "long history chunk " + std::to_string(chunk) + " " + std::to_string(i); })) continue;
      auto& en = eng();
      for (int how = 0; how < 3; how++) {
        ExecContext ctx(chunk);
        size_t first = 0;
        size_t n = thorough ? 20000 : few[i].alloc > 9 ? 150 : 600;
        for (size_t k = 0; k < n; k++) {
          if (k % 64 == 0) c.Beat();
          auto& o = how == 0 || (how == 1 && k % 2) ? few[i] : few[(i + (how == 1 ? 1 : k)) % few.size()];
          auto m = Step18(en, o, &ctx, how == 2);
          c.Transition();
          if (m.empty() && first && ctx.arena.total_bytes() > first) m = "the context keeps more memory than its first chunk";
          if (!first) first = ctx.arena.total_bytes();
          if (!m.empty()) {
            c.Fail("chunks of " + std::to_string(chunk) + ", one context, execution " + std::to_string(k) + " of a long history, " + ShowOp(en, o) + ": " + m);
            break;
          }
        }
        c.Eval();
        c.Trace();
      }
    }
    // everything at once, shared and fresh contexts, every common failure mask
    for (uint32_t mask = 0; mask < 32; mask++) {
      if (!c.Begin([&] { return "ExecuteAll chunk " + std::to_string(chunk) + " mask " + std::to_string(mask); })) continue;
      auto& en = eng();
      // value entries and store entries apart: the two forms cannot be mixed in one call
      for (int pipes = 0; pipes < 2; pipes++) {
        std::vector<size_t> idx;
        std::vector<std::unique_ptr<ExecNode>> nodes;
        for (size_t p = 0; p < ps.size(); p++)
          if (ps[p].pipe == (pipes == 1)) {
            idx.push_back(p);
            std::unique_ptr<ExecNode> n;
            Build(ps[p], &n).ok();
            nodes.push_back(std::move(n));
          }
        ExecEngineOption o;
        o.exec_ctx_arena_alloc_min_chunk_size = chunk;
        BatchExecEngine be(o);
        auto cs = be.Compile(nodes, en.reg);
        if (!cs.ok()) Die(cs.ToString());
        ExecContext ctx(chunk);
        for (uint32_t vals = 0; vals < 32; vals++)
          for (uint32_t alloc : {0u, 5000u})
            for (int form = 0; form < 4; form++) {
              int shared = form & 1;
              Plan pl;
              pl.mask = mask, pl.vals = vals, pl.alloc = alloc;
              pl.kind = alloc ? static_cast<int>(vals) % kKinds : 0;
              std::vector<int> fails, calls;
              std::vector<Val> want;
              std::vector<std::pair<int, Val>> log;
              for (size_t p : idx) {
                Val w;
                std::vector<int> cl;
                ps[p].model(pl, &w, &log, &cl);
                want.push_back(w);
                for (int k : cl) {
                  calls.push_back(k);
                  if ((mask >> k) & 1) fails.push_back(k);
                }
              }
              Recorder rec;
              std::vector<RetType> rs(form & 2 ? 3 : 40);
              Status st;
              void* out = &rec;
              if (pipes)
                st = shared ? be.ExecuteAll(ctx, &pl, out) : be.ExecuteAll(&pl, out);
              else
                st = shared ? be.ExecuteAll(ctx, &pl, &rs) : be.ExecuteAll(&pl, &rs);
              auto m = Judge(st, fails, pl.kind);
              if (m.empty() && pl.calls != calls) m = "calls made differ from the programs'";
              if (m.empty() && g_objs) m = "objects of the execution survive it";
              if (m.empty() && shared && !ctx.errors.empty()) m = "the context keeps errors";
              if (m.empty() && pipes && !SameLog(rec.log, log)) m = "stores " + ShowLog(rec.log) + " expected " + ShowLog(log);
              if (m.empty() && !pipes) {
                if (rs.size() != idx.size()) m = "wrong number of results";
                for (size_t i = 0; m.empty() && i < idx.size(); i++)
                  if (!Same(FromRet(rs[i]), want[i])) m = "entry " + std::to_string(i) + " gives " + Show(FromRet(rs[i])) + " expected " + Show(want[i]);
              }
              c.Eval();
              c.Trace();
              c.Transition(idx.size());
              if (!m.empty()) {
                c.Fail("ExecuteAll of " + std::to_string(idx.size()) + (pipes ? " pipelines" : " expressions") + (shared ? ", one context" : "") + ", fail " + std::to_string(mask) + ", truth " + std::to_string(vals) + ": " + m);
                break;
              }
            }
      }
    }
  }
  // the errors built-in functions report: exactly when the lengths disagree, and never left behind
  {
    struct B {
      const char* name;
      const char* src;
    };
    static const B bs[] = {{"add", "ListAdd(ld_i64list(entry_arg,0), ld_i64list(entry_arg,1));"},
                           {"sub", "ListSub(ld_f32list(entry_arg,2), ld_f32list(entry_arg,3));"},
                           {"zip", "ZipConcat(ld_stringlist(entry_arg,4), ld_stringlist(entry_arg,5), \",\");"},
                           {"group", "GroupSum(ld_i64list(entry_arg,0), ld_u32list(entry_arg,6), 3u32);"},
                           {"two", "ListAdd(ListAdd(ld_i64list(entry_arg,0), ld_i64list(entry_arg,1)), ld_i64list(entry_arg,1));"}};
    auto reg = NewRegistry();
    std::vector<std::unique_ptr<ExecEngine>> es;
    std::vector<int> usable;
    for (size_t i = 0; i < std::size(bs); i++) {
      std::unique_ptr<ExecEngine> e;
      auto m = TryCompile(bs[i].src, reg, &e);
      if (m.empty()) usable.push_back(static_cast<int>(i));
      es.push_back(std::move(e));
    }
    c.Extra("built-in programs", usable.size());
    for (int p : usable)
      for (int q : usable)
        for (uint32_t lens = 0; lens < 256; lens++) {
          if (!c.Begin([&] { return std::string("built-in errors ") + bs[p].name + " then " + bs[q].name + " lens " + std::to_string(lens); })) continue;
          ExecContext shared(16);
          for (int step = 0; step < 2; step++) {
            size_t la = step ? (lens >> 4) & 3 : lens & 3, lb = step ? lens >> 6 : (lens >> 2) & 3;
            auto list = [](T t, size_t n) {
              Val v;
              v.t = t;
              for (size_t i = 0; i < n; i++) v.l.push_back(t == T::kF32List ? B32(static_cast<float>(i)) : i % 3);
              return v;
            };
            std::vector<std::string> sa(la, "x"), sb(lb, "y");
            std::vector<Slot> sl;
            for (auto& v : {list(T::kI64List, la), list(T::kI64List, lb), list(T::kF32List, la), list(T::kF32List, lb), SL(sa), SL(sb), list(T::kU32List, lb)}) sl.emplace_back(v);
            Args a;
            for (size_t i = 0; i < sl.size(); i++) a.a[i] = &sl[i];
            auto& e = *es[static_cast<size_t>(step ? q : p)];
            RetType r1, r2;
            auto s1 = e.Execute(&a, &r1);
            auto s2 = e.Execute(shared, &a, &r2);
            c.Eval();
            c.Transition(2);
            std::string m;
            if (s1.ok() != (la == lb)) m = s1.ok() ? "lengths disagree but the status is OK" : "an error on equal lengths: " + s1.ToString();
            else if (s1.ToString() != s2.ToString()) m = "a reused context gives '" + s2.ToString() + "', a fresh one '" + s1.ToString() + "'";
            else if (s1.ok() && !Same(FromRet(r1), FromRet(r2))) m = "a reused context gives another result";
            else if (!s1.ok() && s1.ToString().size() < 20) m = "an error without a message";
            if (!m.empty()) c.Fail(std::string(bs[step ? q : p].src) + " with lengths " + std::to_string(la) + ", " + std::to_string(lb) + ": " + m);
          }
          c.Trace();
        }
  }
}

// ------------------------------------------------------------- C21
std::vector<P2> Progs21() {
  return {
      {"1 + 2;", false, true},
      {"ld_i64(entry_arg, 0) + 1;", false, true},
      {"\"abc\" + ld_string(entry_arg, 1);", false, true},
      {"x = \"abc\"; x + x;", false, true},
      {"x = ld_f64(entry_arg, 2); x * x - 1.5;", false, true},
      {"[1, 2, 3] + ld_i32list(entry_arg, 3);", false, true},
      {"[1u8, 2u8, 3u8];", false, true},
      {"[\"abc\", \"abcd\"];", false, true},
      {"f(entry_arg, 0, exec_ctx) + f(entry_arg, 1, exec_ctx);", false, true},
      {"rf(entry_arg, 0) * 2i64;", false, true},
      {"if(ld_i64(entry_arg, 0) > 0, \"abc\", \"\");", false, true},
      {"300u16;", false, true},
      {"x = ld_i64(entry_arg, 0); st_i64(output, 0, x);", true, true},
      {"x = \"abc\"; st_string(output, 1, x); when ld_i64(entry_arg, 0) > 0 { x = \"y\"; } st_string(output, 2, x);", true, true},
      {"let x = 1; st_i32(output, 3, x); f(entry_arg, 2, exec_ctx);", true, true},
      {"1 + \"a\";", false, false},
      {"nofunction(1);", false, false},
      {"x = 1; x = \"s\";", true, false},
      {"1 / 0;", false, false},
  };
}
void C21(vf::Ctx& c) {
  auto ps = Progs21();
  auto reg = NewRegistry();
  AddStores(reg.get());
  Reg(reg.get());
  std::vector<std::unique_ptr<ExecNode>> proto(ps.size());
  std::vector<bool> built(ps.size());
  std::vector<T> rets(ps.size());
  std::vector<std::vector<Made>> alone(ps.size());  // [program][input]
  Inputs ins[3] = {Inputs(0), Inputs(1), Inputs(2)};
  for (size_t i = 0; i < ps.size(); i++) {
    auto st = BuildP(ps[i], &proto[i]);
    built[i] = st.ok();
    if (!st.ok()) {
      if (ps[i].ok) Die(ps[i].src + ": " + st.ToString());
      continue;
    }
    auto n = proto[i]->Clone();
    ExecEngine e;
    st = e.Compile(n, reg);
    if (st.ok() != ps[i].ok) Die(ps[i].src + ": " + st.ToString());
    rets[i] = n->GetReturnType();
    if (!st.ok()) continue;
    for (auto& in : ins) alone[i].push_back(RunSingle(e, ps[i].pipe, in, nullptr));
  }
  auto batch = [&](const std::vector<size_t>& b, vf::Ctx& cc) {
    std::string name;
    for (size_t i : b) name += "{" + ps[i].src + "} ";
    std::vector<std::unique_ptr<ExecNode>> nodes;
    bool ok = true;
    int pipes = 0, vals = 0;
    for (size_t i : b) {
      nodes.push_back(proto[i]->Clone());
      ok = ok && ps[i].ok;
      (ps[i].pipe ? pipes : vals)++;
    }
    BatchExecEngine e;
    auto st = e.Compile(nodes, reg);
    cc.Eval();
    if (st.ok() != ok) {
      cc.Fail("batch " + name + (ok ? "refused: " + st.ToString() : "accepted although a member is not"));
      return;
    }
    if (e.GetFunctionCount() != (ok ? b.size() : 0)) cc.Fail("batch " + name + ": entry count " + std::to_string(e.GetFunctionCount()));
    RetType r;
    if (e.ExecuteAt(b.size(), &ins[0].plan, &r).ok()) cc.Fail("batch " + name + ": an entry past the end executes");
    if (e.ExecuteAt(SIZE_MAX, &ins[0].plan, static_cast<void*>(nullptr)).ok()) cc.Fail("batch " + name + ": entry -1 executes");
    if (!ok) {
      if (e.ExecuteAt(0, &ins[0].plan, &r).ok()) cc.Fail("refused batch " + name + ": entry 0 executes");
      cc.Outcome("refused");
      return;
    }
    for (size_t i = 0; i < b.size(); i++)
      if (e.GetReturnType(i) != rets[b[i]]) cc.Fail("batch " + name + ": entry " + std::to_string(i) + " has another return type");
    ExecContext ctx(64);
    for (int k = 0; k < 3; k++) {
      auto& in = ins[k];
      for (int form = 0; form < 2; form++)
        for (size_t i = 0; i < b.size(); i++) {
          Made m;
          Recorder rec;
          void* out = &rec;
          Status s;
          bool pipe = ps[b[i]].pipe;
          RetType rr;
          if (pipe)
            s = form ? e.ExecuteAt(i, ctx, &in.plan, out) : e.ExecuteAt(i, &in.plan, out);
          else
            s = form ? e.ExecuteAt(i, ctx, &in.plan, &rr) : e.ExecuteAt(i, &in.plan, &rr);
          m.ok = s.ok(), m.status = s.ToString(), m.log = rec.log;
          if (!pipe) m.ret = FromRet(rr);
          cc.Eval();
          cc.Outcome(ShowMade(m, pipe));
          auto& w = alone[b[i]][static_cast<size_t>(k)];
          if (!SameMade(m, w, pipe)) cc.Fail("batch " + name + " entry " + std::to_string(i) + " input " + std::to_string(k) + (form ? " with a context" : "") + ": " + ShowMade(m, pipe) + " but alone " + ShowMade(w, pipe));
        }
      for (int form = 0; form < 2; form++) {
        // all at once, in the form the entries have; mixed batches have neither
        if (pipes && vals) continue;
        if (vals == 0) {
          Recorder rec;
          void* out = &rec;
          auto s2 = form ? e.ExecuteAll(ctx, &in.plan, out) : e.ExecuteAll(&in.plan, out);
          std::vector<std::pair<int, Val>> log;
          bool wok = true;
          for (size_t i : b) {
            auto& w = alone[i][static_cast<size_t>(k)];
            log.insert(log.end(), w.log.begin(), w.log.end());
            wok = wok && w.ok;
          }
          cc.Eval();
          if (!SameLog(log, rec.log)) cc.Fail("batch " + name + ": ExecuteAll stores " + ShowLog(rec.log) + " expected " + ShowLog(log));
          if (s2.ok() != wok) cc.Fail("batch " + name + ": ExecuteAll store status " + s2.ToString());
          continue;
        }
        // whatever the caller's vector held before
        std::vector<RetType> rs(k == 0 ? 0 : k == 1 ? b.size() + 3 : b.size() / 2, RetType(int8_t{77}));
        auto s = form ? e.ExecuteAll(ctx, &in.plan, &rs) : e.ExecuteAll(&in.plan, &rs);
        bool want_ok = true;
        if (rs.size() != b.size()) {
          cc.Fail("batch " + name + ": ExecuteAll gives " + std::to_string(rs.size()) + " results");
          continue;
        }
        size_t at = 0;
        for (size_t i = 0; i < b.size(); i++) {
          auto& w = alone[b[i]][static_cast<size_t>(k)];
          want_ok = want_ok && w.ok;
          if (w.ok && !Same(FromRet(rs[i]), w.ret)) cc.Fail("batch " + name + ": ExecuteAll entry " + std::to_string(i) + " gives " + Show(FromRet(rs[i])) + " but alone " + Show(w.ret));
          if (!w.ok) {
            auto body = w.status.substr(w.status.find("<m"));
            at = s.ToString().find(body, at);
            if (at == std::string::npos) {
              cc.Fail("batch " + name + ": ExecuteAll loses or misplaces the error of entry " + std::to_string(i) + ": " + s.ToString());
              break;
            }
            at += body.size();
          }
        }
        if (s.ok() != want_ok) cc.Fail("batch " + name + ": ExecuteAll status " + s.ToString());
        cc.Eval();
      }
    }
  };
  std::vector<size_t> usable;
  for (size_t i = 0; i < ps.size(); i++)
    if (built[i]) usable.push_back(i);
  if (c.Begin("empty batch")) {
    BatchExecEngine e;
    std::vector<std::unique_ptr<ExecNode>> none;
    if (e.Compile(none, reg).ok()) c.Fail("an empty batch compiles");
    c.Eval();
  }
  auto unit = [&](const std::vector<size_t>& b) {
    if (!c.Begin([&] {
          std::string s = "batch";
          for (size_t i : b) s += " " + std::to_string(i);
          return s;
        }))
      return;
    batch(b, c);
    if (b.size() == 3 && b[0] != b[1] && b[1] != b[2]) c.SampleOf(b[0] < 8 ? "batch a" : "batch b", ps[b[0]].src + " | " + ps[b[1]].src + " | " + ps[b[2]].src);
  };
  for (size_t i : usable) {
    unit({i});
    for (size_t j : usable) {
      unit({i, j});
      for (size_t k : usable) unit({i, j, k});
    }
  }
  // long batches: everything valid in every rotation, twelve copies of one
  std::vector<size_t> good;
  for (size_t i : usable)
    if (ps[i].ok) good.push_back(i);
  for (size_t r = 0; r < good.size(); r++) {
    auto b = good;
    std::rotate(b.begin(), b.begin() + static_cast<long>(r), b.end());
    unit(b);
    unit(std::vector<size_t>(12, good[r]));
    // entry numbers of three digits
    if (r % 5 == 0 || thorough) {
      std::vector<size_t> d;
      for (size_t i = 0; i < 260; i++) d.push_back(good[(i * 7 + r) % good.size()]);
      unit(d);
    }
    if (thorough)
      for (size_t s = 0; s < usable.size(); s++) {
        auto d = b;
        d.insert(d.begin() + static_cast<long>(s % b.size()), usable[s]);
        d.insert(d.end(), b.begin(), b.end());
        unit(d);
      }
  }
}

#include "engine20.inc"

void Body(vf::Ctx& c, const std::string& mode) {
  thorough = c.thorough;
  if (mode == "C18") C18(c);
  if (mode == "C20") C20(c);
  if (mode == "C21") C21(c);
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
