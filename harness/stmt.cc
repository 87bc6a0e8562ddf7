// C07, C08, C29: statements.  Programs are enumerated as trees of statements, checked and interpreted by lang.h, and
// compared with what the compiled pipelines do.
#include "alike.h"
#include "stmtgen.h"
using namespace lang;

namespace {
bool thorough = false;

struct Prog {
  Block b;
  std::vector<T> types;
  std::vector<bool> is_cond;
  size_t at = 0;
};
// Compile the programs together (as separate entries) and run each under every truth assignment of its conditions
void RunAll(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, std::vector<Prog>& progs) {
  Batch b;
  for (auto& p : progs) p.at = b.AddPipeline(Text(p.b));
  b.Compile(reg);
  for (auto& p : progs) {
    c.Sub(b.Src(p.at));
    if (!b.Error(p.at).empty()) {
      c.Fail("accepted program refused: " + b.Src(p.at) + ": " + b.Error(p.at));
      continue;
    }
    std::vector<size_t> conds;
    for (size_t i = 0; i < p.types.size(); i++)
      if (p.is_cond[i]) conds.push_back(i);
    for (uint64_t m = 0; m < (1ULL << conds.size()); m++) {
      Ev ev;
      Log calls;
      ev.log = &calls;
      for (size_t i = 0; i < p.types.size(); i++) {
        int which = 1 + static_cast<int>(i % 2);
        for (size_t q = 0; q < conds.size(); q++)
          if (conds[q] == i && !((m >> q) & 1)) which = 0;
        ev.a[i] = CachedSlot(p.types[i], static_cast<int>(i), which);
      }
      Machine mc;
      mc.in = &ev;
      if (!Exec(mc, p.b)) continue;
      Recorder rec;
      auto st = b.RunStore(p.at, ev, &rec);
      c.Eval();
      if (!st.ok() || !SameLog(rec.log, mc.stores) || !SameLog(calls, mc.calls)) {
        std::string in;
        for (size_t i = 0; i < p.types.size(); i++) in += (i ? ", " : "") + Show(ev.a[i]->val());
        c.Fail(b.Src(p.at) + " with operands " + in + ": status " + st.ToString() + ", stores " + ShowLog(rec.log) + ", calls " + ShowLog(calls) +
               "; expected stores " + ShowLog(mc.stores) + ", calls " + ShowLog(mc.calls));
        break;
      }
      uint64_t h = 7;
      for (auto& [i, v] : mc.calls) h = h * 31 + static_cast<uint64_t>(i) + 1;
      h = h * 131 + vf::Hash(ShowLog(mc.stores));
      c.Outcome(h);
      c.SampleOf(std::to_string(p.b.size()) + " statements", b.Src(p.at) + " -> " + ShowLog(mc.stores));
    }
  }
}

// ------------------------------------------------------------ C07
void Pipes(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const T types[] = {kI32, kStr, kF64, kU8, T::kI64List, kI16, kF32, kStrL, kU64, T::kF32List};
  struct Plan {
    int alphabet, weight, branches, typestep;
  };
  std::vector<Plan> plans{{12, 1, 3, 0}, {12, 2, 3, 0}, {12, 3, 3, 0}, {10, 4, 3, 1}, {4, 5, 3, 1}};
  if (thorough) plans = {{12, 1, 3, 0}, {12, 2, 3, 0}, {12, 3, 3, 0}, {12, 4, 3, 0}, {8, 5, 3, 1}, {5, 6, 3, 1}};
  for (size_t pi = 0; pi < plans.size(); pi++) {
    auto& pl = plans[pi];
    Enum en{pl.alphabet, pl.branches, {}, {}};
    auto& blocks = en.Blocks(pl.weight);
    // typestep 0: every variable type; otherwise the type rotates with the program
    for (int rep = 0; rep < (pl.typestep == 0 ? (pl.weight <= 2 ? 10 : thorough ? 5 : 2) : 1); rep++)
      for (size_t lo = 0; lo < blocks.size(); lo += 64) {
        if (!c.Begin([&] { return "pipelines, plan " + std::to_string(pi) + ", type " + std::to_string(rep) + ", from " + std::to_string(lo); }))
          continue;
        std::vector<Prog> progs;
        for (size_t i = lo; i < std::min(lo + 64, blocks.size()); i++) {
          Maker mk;
          mk.t = types[(static_cast<size_t>(rep) + i * (pl.typestep || pl.weight > 2 ? 1 : 0)) % 10];
          mk.condform = static_cast<int>((i / 10 + static_cast<size_t>(rep)) % 5);
          Block body;
          body.push_back(Assign("a", mk.Load(mk.t)));
          body.push_back(Assign("b", mk.Load(mk.t)));
          Block inner = mk.Make(blocks[i]);
          body.insert(body.end(), inner.begin(), inner.end());
          Checker ck;
          if (!ck.Run(body)) continue;  // C29 decides those
          body.push_back(ExprSt(mk.Store(mk.t, VarX("a"))));
          body.push_back(ExprSt(mk.Store(mk.t, VarX("b"))));
          if (ck.Find("c")) body.push_back(ExprSt(mk.Store(mk.t, VarX("c"))));
          progs.push_back({body, mk.types, mk.is_cond, 0});
        }
        RunAll(c, reg, progs);
      }
  }
}
// Programs that read back through `output` what they stored: cells are read by read-only functions and written by stores.
struct Cells {
  uint64_t c[8];
};
template <class CT>
CT CellRd(void* out, int32_t i) {
  CT v;
  memcpy(&v, &static_cast<Cells*>(out)->c[i], sizeof v);
  return v;
}
template <class CT>
int32_t CellSt(void* out, int32_t i, CT v) {
  memcpy(&static_cast<Cells*>(out)->c[i], &v, sizeof v);
  return 0;
}
template <class CT>
CT CellSv(void* out, int32_t i, CT v) {
  memcpy(&static_cast<Cells*>(out)->c[i], &v, sizeof v);
  return v;
}
void AddCells(FunctionRegistry* r) {
  ForTypes([&](T t, auto* p) {
    using CT = std::remove_pointer_t<decltype(p)>;
    if constexpr (std::is_arithmetic_v<CT>) {
      std::string n = Name(t);
      if (!r->RegisterReadOnlyCFunc(FunctionSignature("rdc_" + n, {T::kPtr, kI32}, t), (void*)CellRd<CT>).ok() ||
          !r->RegisterStoreCFunc(FunctionSignature("stc_" + n, {T::kPtr, kI32, t}, kI32), (void*)CellSt<CT>, 1).ok() ||
          !r->RegisterStoreCFunc(FunctionSignature("svc_" + n, {T::kPtr, kI32, t}, t), (void*)CellSv<CT>, 1).ok())
        Die("cannot register the cells of " + n);
    }
  });
}
// An instruction is a text and an action on (a, b, cells); the programs are all sequences, plain or with one block around a part.
void ReadBack(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  struct State {
    Num a, b;
    uint64_t m[8];
  };
  struct Ins {
    std::string text;
    std::function<void(State&)> act;
  };
  for (T t : Nums()) {
    std::string n = Name(t);
    auto wr = [t](State& s, int i, Num v) { s.m[i] = (s.m[i] & ~(Width(t) == 64 ? ~0ULL : (1ULL << Width(t)) - 1)) | (v.u & (Width(t) == 64 ? ~0ULL : (1ULL << Width(t)) - 1)); };
    auto rd = [t](const State& s, int i) {
      uint64_t u = s.m[i] & (Width(t) == 64 ? ~0ULL : (1ULL << Width(t)) - 1);
      return Num{t, IsFloat(t) ? u : Wrap(t, static_cast<i128>(u))};
    };
    auto add = [t](Num x, Num y) { return *Bin(Op::kAdd, x, y); };
    std::string r0 = "rdc_" + n + "(output, 0)", r1 = "rdc_" + n + "(output, 1)";
    std::vector<Ins> ins{
        {"a = " + r0 + "; ", [=](State& s) { s.a = rd(s, 0); }},
        {"stc_" + n + "(output, 0, b); ", [=](State& s) { wr(s, 0, s.b); }},
        {"b = " + r0 + " + a; ", [=](State& s) { s.b = add(rd(s, 0), s.a); }},
        {"stc_" + n + "(output, 1, a + b); ", [=](State& s) { wr(s, 1, add(s.a, s.b)); }},
        {"b = " + r1 + "; ", [=](State& s) { s.b = rd(s, 1); }},
        {"a = svc_" + n + "(output, 1, b); ", [=](State& s) { wr(s, 1, s.b), s.a = s.b; }},
        {"stc_" + n + "(output, 0, " + r1 + "); ", [=](State& s) { wr(s, 0, rd(s, 1)); }},
        {"a = if(" + r0 + " > b, " + r1 + ", a); ", [=](State& s) { s.a = Bin(Op::kGt, rd(s, 0), s.b)->u ? rd(s, 1) : s.a; }},
    };
    const int k = static_cast<int>(ins.size());
    int maxlen = thorough ? 5 : 4;
    for (int len = 1; len <= maxlen; len++) {
      int total = 1;
      for (int i = 0; i < len; i++) total *= k;
      // the longest programs of the other types are a stride of all
      int step = len == maxlen && t != kI32 ? 7 : 1;
      for (int lo = 0; lo < total; lo += 64 * step) {
        if (!c.Begin([&] { return "read back, " + n + ", length " + std::to_string(len) + " from " + std::to_string(lo); })) continue;
        Batch b;
        struct Pr {
          std::vector<int> seq;
          int from, to, kind;
          size_t at;
        };
        std::vector<Pr> ps;
        for (int code = lo; code < std::min(total, lo + 64 * step); code += step) {
          std::vector<int> seq;
          for (int i = 0, x = code; i < len; i++, x /= k) seq.push_back(x % k);
          // kind 0: plain.  1: seq[from, to) in a block on a read.  2: in the else of one, the rest in the then part
          int nk = len < 2 ? 1 : 3;
          for (int kind = 0; kind < nk; kind++) {
            if (kind && len == maxlen && (code / step) % 3 != kind - 1) continue;
            int from = kind ? (code % len) : 0, to = kind ? from + 1 + (code / len) % (len - from) : 0;
            std::string src = "a = ld_" + n + "(entry_arg, 0); b = ld_" + n + "(entry_arg, 1); ";
            for (int i = 0; i < len; i++) {
              if (kind && i == from) src += kind == 1 ? "when " + r1 + " > a { " : "when " + r0 + " > b { stc_" + n + "(output, 1, a); } else { ";
              src += ins[static_cast<size_t>(seq[static_cast<size_t>(i)])].text;
              if (kind && i + 1 == to) src += "} ";
            }
            src += "stc_" + n + "(output, 2, a); stc_" + n + "(output, 3, b); stc_" + n + "(output, 4, " + r0 + " + " + r1 + ");";
            ps.push_back({seq, from, to, kind, b.AddPipeline(src)});
          }
        }
        b.Compile(reg);
        for (auto& p : ps) {
          c.Sub(b.Src(p.at));
          if (!b.Error(p.at).empty()) {
            c.Fail("accepted program refused: " + b.Src(p.at) + ": " + b.Error(p.at));
            continue;
          }
          for (int w = 0; w < 4; w++) {
            Args in;
            in.a[0] = CachedSlot(t, w % 2 ? 2 : 5, 1);
            in.a[1] = CachedSlot(t, w < 2 ? 3 : 1, 1);
            State s;
            s.a = {t, in.a[0]->val().u}, s.b = {t, in.a[1]->val().u};
            memset(s.m, 0, sizeof s.m);
            wr(s, 0, {t, CachedSlot(t, w == 3 ? 6 : 4, 1)->val().u});
            wr(s, 1, {t, CachedSlot(t, w == 2 ? 0 : 7, 1)->val().u});
            Cells out;
            memcpy(out.c, s.m, sizeof out.c);
            bool skip = false;
            for (int i = 0; i < len; i++) {
              if (p.kind && i == p.from) {
                if (p.kind == 1) skip = Bin(Op::kGt, rd(s, 1), s.a)->u == 0;
                else if (Bin(Op::kGt, rd(s, 0), s.b)->u) wr(s, 1, s.a), skip = true;
              }
              if (!skip) ins[static_cast<size_t>(p.seq[static_cast<size_t>(i)])].act(s);
              if (p.kind && i + 1 == p.to) skip = false;
            }
            wr(s, 2, s.a), wr(s, 3, s.b), wr(s, 4, add(rd(s, 0), rd(s, 1)));
            auto st = b.RunStore(p.at, in, &out);
            c.Eval();
            if (!st.ok() || memcmp(out.c, s.m, sizeof out.c) != 0) {
              auto cells = [](const uint64_t* m) {
                std::string o;
                for (int i = 0; i < 5; i++) o += (i ? ", " : "") + std::to_string(m[i]);
                return o;
              };
              c.Fail(b.Src(p.at) + " (operand set " + std::to_string(w) + "): status " + st.ToString() + ", cells (bits) " + cells(out.c) + "; expected " + cells(s.m));
              break;
            }
            c.Outcome(std::to_string(s.m[2]) + "/" + std::to_string(s.m[3]) + "/" + std::to_string(s.m[0]));
          }
        }
      }
    }
  }
}
// long programs: n statements, k branches, depth d
void LongPipes(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (int form = 0; form < 6; form++)
    for (int n = 1; n <= 300; n++) {
      if (n > (thorough ? 60 : 24) && n != 32 && n != 33 && n != 64 && n != 65 && n != 100 && n != 128 && n != 129 && n != 256 && n != 257 && n != 300) continue;
      if ((form == 1 || form == 2) && n > (thorough ? 65 : 33)) continue;
      if (!c.Begin([&] { return "long pipeline form " + std::to_string(form) + " size " + std::to_string(n); })) continue;
      for (T t : {kI32, kStr}) {
        Maker mk;
        mk.t = t;
        Block b;
        b.push_back(Assign("a", mk.Load(t)));
        b.push_back(Assign("b", mk.Load(t)));
        if (form == 0) {  // elif chain
          St w;
          w.k = St::kWhen;
          for (int i = 0; i < n; i++) {
            P cnd = mk.Leaf(Nums()[static_cast<size_t>(i) % 10], true);
            w.br.push_back({cnd, {Assign("a", mk.Leaf(t)), ExprSt(mk.Store(t, VarX("a")))}});
          }
          w.has_else = n % 2;
          if (w.has_else) w.els = {Assign("b", VarX("a"))};
          b.push_back(w);
        } else if (form == 1 || form == 2) {  // nested, in the then or else block
          Block in{Assign("a", BinX(Op::kAdd, VarX("a"), mk.Leaf(t)))};
          for (int i = 0; i < n; i++) {
            St w;
            w.k = St::kWhen;
            P cnd = mk.Leaf(kI32, true);
            if (form == 1) {
              in.push_back(Assign("l" + std::to_string(i), VarX("a")));
              in.push_back(ExprSt(mk.Store(t, VarX("l" + std::to_string(i)))));
              w.br.push_back({cnd, in});
            } else {
              w.br.push_back({cnd, {Assign("b", VarX("a"))}});
              w.has_else = true;
              w.els = in;
            }
            in = {w, Assign("b", BinX(Op::kAdd, VarX("b"), VarX("a")))};
            if (t == kStr && i > 6) in.pop_back();
          }
          b.insert(b.end(), in.begin(), in.end());
        } else if (form == 3) {  // consecutive blocks
          for (int i = 0; i < n; i++) {
            St w;
            w.k = St::kWhen;
            P cnd = mk.Leaf(kU16, true);
            w.br.push_back({cnd, {Assign("t", mk.Leaf(t)), Assign(i % 2 ? "a" : "b", VarX("t"))}});
            b.push_back(w);
          }
        } else if (form == 4) {  // many variables
          for (int i = 0; i < n; i++) b.push_back(i % 2 ? Let("v" + std::to_string(i), mk.Leaf(t)) : Assign("v" + std::to_string(i), mk.Leaf(t)));
          for (int i = n - 1; i >= 0; i--) b.push_back(ExprSt(mk.Store(t, VarX("v" + std::to_string(i)))));
        } else {  // many stores of changing variables
          for (int i = 0; i < n; i++) {
            b.push_back(Assign("a", BinX(Op::kAdd, VarX(i % 3 ? "a" : "b"), mk.Leaf(t))));
            b.push_back(ExprSt(mk.Store(t, VarX("a"))));
          }
        }
        b.push_back(ExprSt(mk.Store(t, VarX("a"))));
        b.push_back(ExprSt(mk.Store(t, VarX("b"))));
        Checker ck;
        if (!ck.Run(b)) Die("long program is not valid: " + ck.why);
        if (mk.types.size() > 1000) continue;
        // assignments: at most one condition unlike the rest
        Batch bt;
        Prog p{b, mk.types, mk.is_cond, 0};
        p.at = bt.AddPipeline(Text(b));
        bt.Compile(reg);
        c.Sub(bt.Src(0).substr(0, 3000));
        if (!bt.Error(0).empty()) {
          c.Fail("accepted program refused: " + bt.Src(0) + ": " + bt.Error(0));
          continue;
        }
        size_t k = p.types.size();
        for (int base = 0; base < 2; base++)
          for (size_t i = 0; i <= k; i++) {
            if (i < k && !p.is_cond[i]) continue;
            Ev ev;
            Log calls;
            ev.log = &calls;
            for (size_t j = 0; j < k; j++) ev.a[j] = CachedSlot(p.types[j], static_cast<int>(j % 30), p.is_cond[j] ? (j == i ? 1 - base : base) : 1);
            Machine mc;
            mc.in = &ev;
            if (!Exec(mc, b)) continue;
            Recorder rec;
            auto st = bt.RunStore(0, ev, &rec);
            c.Eval();
            if (!st.ok() || !SameLog(rec.log, mc.stores) || !SameLog(calls, mc.calls))
              c.Fail(bt.Src(0) + " with conditions all " + std::to_string(base) + " but operand " + std::to_string(i) + ": stores " + ShowLog(rec.log) +
                     "; expected " + ShowLog(mc.stores));
            else
              c.Outcome(ShowLog(mc.stores));
          }
      }
    }
}

// ------------------------------------------------------------ C29
void Rules(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  struct Plan {
    int alphabet, weight;
    T t;
  };
  std::vector<Plan> plans{{10, 1, kI32}, {10, 2, kI32}, {10, 3, kI32}, {10, 3, kStr}, {10, 4, kI32}, {5, 5, kI32}};
  if (thorough) plans = {{10, 1, kI32}, {10, 2, kI32}, {10, 3, kI32}, {10, 3, kStr}, {10, 4, kI32}, {10, 4, kU8}, {8, 5, kI32}, {4, 6, kI32}};
  for (size_t pi = 0; pi < plans.size(); pi++) {
    auto& pl = plans[pi];
    Enum en{pl.alphabet, 3, {}, {}};
    auto& blocks = en.Blocks(pl.weight);
    for (size_t lo = 0; lo < blocks.size(); lo += 128) {
      if (!c.Begin([&] { return "rules, plan " + std::to_string(pi) + ", from " + std::to_string(lo); })) continue;
      std::vector<Prog> ok;
      for (size_t i = lo; i < std::min(lo + 128, blocks.size()); i++) {
        Maker mk;
        mk.t = pl.t;
        mk.alphabet = 1;
        mk.condform = static_cast<int>((i / 7) % 2);
        Block b = mk.Make(blocks[i]);
        Checker ck;
        if (ck.Run(b)) {
          for (auto n : {"a", "b"})
            if (auto* v = ck.Find(n)) b.push_back(ExprSt(mk.Store(v->t, VarX(n))));
          c.Extra("accepted");
          ok.push_back({b, mk.types, mk.is_cond, 0});
          continue;
        }
        c.Extra("rejected");
        c.Outcome(ck.why);
        c.SampleOf("rejected, " + ck.why, Text(b));
        std::string src = Text(b);
        c.Sub(src);
        athena::ProgramAstBuilder ab;
        std::unique_ptr<ExecNode> n;
        auto st = ab.BuildPipeline(src, &n);
        if (st.ok()) {
          ExecEngine e;
          st = e.Compile(n, reg);
          if (st.ok()) c.Fail("accepted although " + ck.why + ": " + src);
          Recorder rec;
          Ev ev;
          if (!st.ok() && e.Execute(&ev, static_cast<void*>(&rec)).ok()) c.Fail("rejected program can be executed: " + src);
        }
        if (!st.ok() && st.ToString().empty()) c.Fail("rejected without a message: " + src);
        c.Eval();
      }
      RunAll(c, reg, ok);
    }
  }
}
// Every pair of types, in every kind of place: a pipeline refuses the change of type, an expression program allows it.
void TypePairs(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  std::vector<T> all;
  ForTypes([&](T t, auto*) { all.push_back(t); });
  auto when = [](P cond, Block b) {
    St w;
    w.k = St::kWhen;
    w.br.push_back({std::move(cond), std::move(b)});
    return w;
  };
  const int kForms = 9;
  for (T t : all) {
    if (!c.Begin([&] { return std::string("type pairs from ") + Name(t); })) continue;
    std::vector<Prog> ok;
    for (T u : all)
      for (int form = 0; form < kForms; form++) {
        Maker mk;
        Block b{Assign("a", mk.Load(t))};
        if (form == 0) {
          b.push_back(Assign("a", mk.Load(u)));
        } else if (form == 1 || form == 2 || form == 3 || form == 4) {
          St w = when(mk.Leaf(kU8, true), {Assign("a", mk.Load(form == 1 ? u : t))});
          if (form != 1) {
            if (form == 2) {
              P cnd = mk.Leaf(kI64, true);
              w.br.push_back({cnd, {Assign("a", mk.Load(u))}});
            } else {
              w.has_else = true;
              w.els = {form == 3 ? Assign("a", mk.Load(u)) : when(mk.Leaf(kF32, true), {Assign("a", mk.Load(u))})};
            }
          }
          b.push_back(w);
        } else if (form == 5) {  // through another variable
          b.push_back(Assign("b", mk.Load(u)));
          b.push_back(Assign("a", VarX("b")));
        } else if (form == 6) {  // a name of a closed block is free again
          b = {when(mk.Leaf(kI16, true), {Assign("a", mk.Load(t))}), Assign("a", mk.Load(u))};
        } else if (form == 7) {  // and so is a let
          b = {when(mk.Leaf(kI16, true), {Let("a", mk.Load(t))}), when(mk.Leaf(kI16, true), {Assign("a", mk.Load(u)), Assign("a", mk.Load(u))}),
               Let("a", mk.Load(u))};
        } else {  // a second reassignment
          b.push_back(Assign("a", mk.Load(t)));
          b.push_back(Let("b", VarX("a")));
          b.push_back(Assign("a", mk.Load(u)));
        }
        Checker ck;
        bool good = ck.Run(b);
        if (good != (form == 6 || form == 7 || t == u)) Die("type pair " + Text(b));
        if (good) {
          b.push_back(ExprSt(mk.Store(ck.Find("a")->t, VarX("a"))));
          ok.push_back({b, mk.types, mk.is_cond, 0});
          continue;
        }
        c.Eval();
        std::string src = Text(b);
        c.Sub(src);
        athena::AthenaPipeline ap;
        auto st = ap.Compile({src}, reg);
        if (st.ok()) c.Fail("accepted although the type of a variable changes: " + src);
        else if (st.ToString().size() < 4) c.Fail("rejected without a message: " + src);
        c.Outcome(std::string(Name(t)) + Name(u));
      }
    RunAll(c, reg, ok);
    // expression programs
    Batch bt;
    std::vector<std::pair<T, int>> want;
    for (T u : all) {
      bt.AddProgram("a = " + Ld(t, 0) + "; a = " + Ld(u, 1) + "; a;");
      want.push_back({u, 1});
      bt.AddProgram("a = " + Ld(t, 0) + "; b = a; a = " + Ld(u, 1) + "; b;");
      want.push_back({t, 0});
      bt.AddProgram("let a = " + Ld(t, 0) + "; b = " + Ld(u, 1) + "; b = a; b;");
      want.push_back({t, 0});
    }
    bt.Compile(reg);
    for (size_t i = 0; i < want.size(); i++) {
      c.Eval();
      c.Sub(bt.Src(i));
      Args a;
      a.a[want[i].second] = CachedSlot(want[i].first, want[i].second, 1);
      Val got, w = a.a[want[i].second]->val();
      auto st = bt.Error(i).empty() ? bt.Run(i, a, &got) : Status::ParseError(bt.Error(i));
      if (!st.ok() || !Same(got, w)) c.Fail(bt.Src(i) + ": " + (st.ok() ? Show(got) : st.ToString()) + ", expected " + Show(w));
    }
  }
}
// Names: many, long, sharing beginnings and ends, in several cases.
void NameForms(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  std::vector<std::string> names;
  for (auto n : {"a", "A", "aa", "aA", "a_", "a__", "a0", "a00", "a1", "a10", "a_1", "a1_", "i8", "f64", "lets", "let_", "when1", "Else", "IF", "switches", "ina", "nota", "output_",
                 "entry_args", "entry_arg1", "exec_ctxs", "outputs", "true_", "false0", "e1", "E1", "x", "u8", "ld_i32", "max", "Len", "st_i32"})
    names.push_back(n);
  for (size_t n : {31UL, 32UL, 63UL, 64UL, 127UL, 128UL, 255UL, 256UL, 257UL, 1000UL, 5000UL})
    for (auto* e : {"", "x", "y"}) names.push_back(std::string(n, 'q') + e);
  for (int i = 0; i < (thorough ? 1000 : 200); i++) names.push_back("v" + std::to_string(i));
  auto show = [](const std::string& s) { return s.size() < 40 ? s : s.substr(0, 10) + "... (" + std::to_string(s.size()) + ")"; };
  // names a shortcut would take for one another
  for (size_t k = 0; k < Twins().size(); k++)
    if (c.Begin([&] { return "names " + Twins()[k].first + " and " + Twins()[k].second; })) {
      for (int swap = 0; swap < 2; swap++) {
        auto& n = swap ? Twins()[k].second : Twins()[k].first;
        auto& m = swap ? Twins()[k].first : Twins()[k].second;
        Batch b;
        Args a;
        Slot three(N(kI32, 3)), eight(N(kI32, 8));
        a.a[0] = &three, a.a[1] = &eight;
        struct X {
          std::string src;
          Log w;
        };
        std::string dn = n + " = ld_i32(entry_arg, 0); ", dm = m + " = ld_i32(entry_arg, 1); ", st = "st_i32(output, 0, " + n + "); st_i32(output, 1, " + m + ");";
        auto v = [](int x) { return N(kI32, static_cast<uint64_t>(x)); };
        std::vector<X> xs{{dn + dm + st, {{0, v(3)}, {1, v(8)}}},
                          {"let " + dn + dm + m + " = " + m + " + " + n + "; " + st, {{0, v(3)}, {1, v(11)}}},
                          {dn + dm + "when " + n + " { " + m + " = 20; } " + st, {{0, v(3)}, {1, v(20)}}},
                          {dn + dm + "when " + n + " == 4 { " + m + " = 20; } else { " + n + " = 30; } " + st, {{0, v(30)}, {1, v(8)}}},
                          {dn + dm + "when " + n + " { " + n + " = 5; when " + m + " { " + m + " = 6; } } " + st, {{0, v(5)}, {1, v(6)}}},
                          {dn + "when " + n + " { " + dm + n + " = " + m + " + 1; } st_i32(output, 0, " + n + ");", {{0, v(9)}}}};
        for (auto& x : xs) b.AddPipeline(x.src);
        size_t e = b.AddProgram(dn + dm + n + " * 100 + " + m + ";");
        b.Compile(reg);
        for (size_t i = 0; i < xs.size(); i++) {
          Recorder rec;
          c.Eval();
          auto st2 = b.Error(i).empty() ? b.RunStore(i, a, &rec) : Status::ParseError(b.Error(i));
          if (!st2.ok() || !SameLog(rec.log, xs[i].w)) c.Fail(xs[i].src + ": status " + st2.ToString() + " stores " + ShowLog(rec.log) + ", expected " + ShowLog(xs[i].w));
        }
        Val got;
        c.Eval();
        auto st2 = b.Error(e).empty() ? b.Run(e, a, &got) : Status::ParseError(b.Error(e));
        if (!st2.ok() || !Same(got, v(308))) c.Fail(b.Src(e) + ": " + (st2.ok() ? Show(got) : st2.ToString()));
        for (bool expr : {false, true}) {
          std::unique_ptr<ExecNode> node;
          athena::ProgramAstBuilder pb;
          std::string src = expr ? n + " = 1; " + m + ";" : n + " = 1; st_i32(output, 0, " + m + ");";
          c.Eval();
          if ((expr ? pb.BuildExpression(src, &node) : pb.BuildPipeline(src, &node)).ok()) c.Fail(src + " is accepted");
        }
      }
      c.Outcome(Twins()[k].first);
    }
  // each name alone; every pair of the first names and long names
  for (size_t i = 0; i < 70; i++) {
    if (!c.Begin([&] { return "name " + show(names[i]); })) continue;
    Batch b;
    auto& n = names[i];
    size_t p = b.AddPipeline(n + " = ld_i32(entry_arg, 0); " + n + " = " + n + " + 1; st_i32(output, 0, " + n + ");");
    b.AddProgram(n + " = ld_i32(entry_arg, 0); " + n + " = " + n + " + 1; " + n + ";");
    std::vector<std::array<size_t, 3>> pairs;
    for (size_t j = 0; j < 70; j++) {
      if (i == j) continue;
      auto& m = names[j];
      size_t x = b.AddPipeline("let " + n + " = ld_i32(entry_arg, 0); " + m + " = ld_i32(entry_arg, 1); st_i32(output, 0, " + n + "); st_i32(output, 1, " + m + ");");
      size_t y = b.AddProgram("let " + n + " = ld_i32(entry_arg, 0); " + m + " = ld_i32(entry_arg, 1); " + m + " * 1000 + " + n + ";");
      pairs.push_back({x, y, j});
      // defined is not another name defined
      athena::AthenaPipeline ap;
      c.Eval();
      if (ap.Compile({n + " = 1; st_i32(output, 0, " + m + ");"}, reg).ok()) c.Fail("name " + show(m) + " counts as defined when only " + show(n) + " is");
    }
    b.Compile(reg);
    Args a;
    a.a[0] = CachedSlot(kI32, 3, 1);
    a.a[1] = CachedSlot(kI32, 8, 1);
    auto store = [&](size_t at, Log w) {
      Recorder rec;
      c.Eval();
      auto st = b.Error(at).empty() ? b.RunStore(at, a, &rec) : Status::ParseError(b.Error(at));
      if (!st.ok() || !SameLog(rec.log, w)) c.Fail(b.Src(at).substr(0, 2000) + ": status " + st.ToString().substr(0, 500) + " stores " + ShowLog(rec.log) + ", expected " + ShowLog(w));
    };
    auto value = [&](size_t at, Val w) {
      Val got;
      c.Eval();
      auto st = b.Error(at).empty() ? b.Run(at, a, &got) : Status::ParseError(b.Error(at));
      if (!st.ok() || !Same(got, w)) c.Fail(b.Src(at).substr(0, 2000) + ": " + (st.ok() ? Show(got) : st.ToString().substr(0, 500)) + ", expected " + Show(w));
    };
    store(p, {{0, N(kI32, 5)}});
    value(p + 1, N(kI32, 5));
    for (auto& q : pairs) {
      store(q[0], {{0, N(kI32, 4)}, {1, N(kI32, 9)}});
      value(q[1], N(kI32, 9004));
    }
  }
  // all of them in one program, read back in another order; then again inside a block
  for (int form = 0; form < 3; form++) {
    if (!c.Begin([&] { return "all names, form " + std::to_string(form); })) continue;
    std::string src, tail;
    Log want;
    int k = 0;
    for (auto& n : names) {
      src += (form == 1 && k % 2 ? "let " : "") + n + " = ld_i32(entry_arg, 0) + " + std::to_string(k) + "; ";
      k++;
    }
    if (form == 2) src += "when ld_u8(entry_arg, 1) { ";
    for (int i = 0; i < k; i++) {
      int j = static_cast<int>((static_cast<size_t>(i) * 7 + 3) % static_cast<size_t>(k));
      if (form == 2) src += names[static_cast<size_t>(j)] + " = " + names[static_cast<size_t>(j)] + " * 2; ";
      src += "st_i32(output, " + std::to_string(i) + ", " + names[static_cast<size_t>(j)] + "); ";
      want.push_back({i, N(kI32, static_cast<uint64_t>((4 + j) * (form == 2 ? ((k % 7) ? 2 : 1) : 1)))});
    }
    if (form == 2) src += "}";
    if (k % 7 == 0) Die("names");
    Batch b;
    size_t at = b.AddPipeline(src);
    b.Compile(reg);
    Args a;
    a.a[0] = CachedSlot(kI32, 3, 1);
    a.a[1] = CachedSlot(kU8, 3, 1);
    Recorder rec;
    c.Eval();
    auto st = b.Error(at).empty() ? b.RunStore(at, a, &rec) : Status::ParseError(b.Error(at));
    if (!st.ok() || !SameLog(rec.log, want)) {
      size_t d = 0;
      while (d < rec.log.size() && d < want.size() && rec.log[d].first == want[d].first && Same(rec.log[d].second, want[d].second)) d++;
      c.Fail(std::to_string(k) + " names in one program, form " + std::to_string(form) + ": status " + st.ToString().substr(0, 500) + ", " + std::to_string(rec.log.size()) +
             " stores, first difference at " + std::to_string(d));
    }
  }
}
// Expression mode: a name stands for its latest definition
void Exprs(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  // right-hand sides and left-hand sides
  const int kR = 8, kL = 5;
  auto rhs = [&](int r, int pos) -> P {
    switch (r) {
      case 0: return LdX(kI32, pos);
      case 1: return LdX(kF64, pos);
      case 2: return VarX("a");
      case 3: return VarX("b");
      case 4: return BinX(Op::kAdd, VarX("a"), VarX("b"));
      case 5: return BinX(Op::kMul, VarX("a"), VarX("a"));
      case 6: return IfX({VarX("a"), LdX(kI16, pos), VarX("b")});
      default: return BinX(Op::kSub, LdX(kU8, pos), VarX("a"));
    }
  };
  std::vector<T> ty{kI32, kF64, kI32, kI32, kI32, kI32, kI16, kU8};
  for (int n = 1; n <= (thorough ? 4 : 3); n++) {
    int total = 1;
    for (int i = 0; i < n; i++) total *= kR * kL;
    for (int lo = 0; lo < total; lo += 1024) {
      if (!c.Begin([&] { return "expressions of " + std::to_string(n) + " statements, from " + std::to_string(lo); })) continue;
      struct E {
        std::string src;
        P val;
        std::vector<T> types;
      };
      std::vector<E> ok;
      for (int code = lo; code < std::min(total, lo + 1024); code++) {
        int x = code;
        std::string src, why;
        std::map<std::string, std::pair<P, bool>> env;
        P last;
        std::vector<T> types;
        std::function<P(const P&)> subst = [&](const P& e) -> P {
          if (e->k == K::kVar) {
            auto it = env.find(e->name);
            if (it == env.end()) {
              if (why.empty()) why = "undefined variable " + e->name;
              return e;
            }
            return it->second.first;
          }
          X cp = *e;
          for (auto& ch : cp.c) ch = subst(ch);
          return std::make_shared<X>(cp);
        };
        for (int i = 0; i < n; i++) {
          int r = x % kR;
          x /= kR;
          int l = x % kL;
          x /= kL;
          P e = rhs(r, i);
          types.push_back(ty[static_cast<size_t>(r)]);
          std::string name = l == 0 || l == 2 ? "a" : l == 4 ? "" : "b";
          bool let = l == 2 || l == 3;
          src += (let ? "let " : "") + (name.empty() ? "" : name + " = ") + Text(e) + "; ";
          P s = subst(e);
          last = s;
          if (name.empty()) continue;
          auto it = env.find(name);
          if (it != env.end() && why.empty()) {
            if (it->second.second) why = "assignment to constant " + name;
            else if (let) why = "redeclaration of " + name;
          }
          env[name] = {s, let};
        }
        if (why.empty()) {
          ok.push_back({src, last, types});
          c.Extra("expressions accepted");
          continue;
        }
        c.Extra("expressions rejected");
        c.Outcome(why);
        c.Sub(src);
        c.Eval();
        std::unique_ptr<ExecNode> node;
        auto st = BuildExpr(src, &node);
        if (st.ok()) {
          ExecEngine e;
          st = e.Compile(node, reg);
        }
        if (st.ok()) c.Fail("accepted although " + why + ": " + src);
        else if (st.ToString().empty()) c.Fail("rejected without a message: " + src);
      }
      Batch b;
      for (auto& e : ok) b.AddProgram(e.src);
      b.Compile(reg);
      for (size_t i = 0; i < ok.size(); i++) {
        c.Sub(b.Src(i));
        if (!b.Error(i).empty()) {
          c.Fail("accepted program refused: " + b.Src(i) + ": " + b.Error(i));
          continue;
        }
        for (int w = 0; w < 3; w++) {
          Args a;
          for (size_t j = 0; j < ok[i].types.size(); j++) a.a[j] = CachedSlot(ok[i].types[j], static_cast<int>(j), w == 2 ? static_cast<int>(j % 2) : w);
          Machine m;
          m.in = &a;
          auto want = m.Eval(ok[i].val);
          if (!want) continue;
          Val got;
          auto st = b.Run(i, a, &got);
          c.Eval();
          if (!st.ok() || !Same(got, *want))
            c.Fail(b.Src(i) + " (operand set " + std::to_string(w) + "): " + (st.ok() ? Show(got) : st.ToString()) + ", expected " + Show(*want));
          else
            c.Outcome(Show(*want) + std::to_string(i % 64));
        }
      }
    }
  }
  // many definitions of one name; a chain of names
  for (int n = 1; n <= (thorough ? 1000 : 300); n += n < 60 ? 1 : n < 250 ? 49 : 7) {
    if (!c.Begin([&] { return "definition chain " + std::to_string(n); })) continue;
    std::string s = "a = 0; ", q = "v0 = ld_i64(entry_arg, 0); ";
    for (int i = 1; i <= n; i++) {
      s += "a = a + " + std::to_string(i) + "; ";
      q += "v" + std::to_string(i) + " = v" + std::to_string(i - 1) + " + " + std::to_string(i) + "; ";
    }
    Batch b;
    b.AddProgram(s + "a;");
    b.AddProgram(s);
    b.AddProgram(q);
    b.Compile(reg);
    Args a;
    a.a[0] = CachedSlot(kI64, 3, 1);
    for (size_t i = 0; i < 3; i++) {
      Val got;
      auto st = b.Error(i).empty() ? b.Run(i, a, &got) : Status::ParseError(b.Error(i));
      Val want = i < 2 ? N(kI32, static_cast<uint64_t>(n * (n + 1) / 2)) : N(kI64, static_cast<uint64_t>(4 + n * (n + 1) / 2));
      c.Eval();
      if (!st.ok() || !Same(got, want)) c.Fail(b.Src(i) + ": " + (st.ok() ? Show(got) : st.ToString()) + ", expected " + Show(want));
    }
  }
}

// ------------------------------------------------------------ C08
struct Member {
  Block b;
  std::string raw;  // overrides the text
  bool valid = true;
};
// pipeline template k as member m of a set: stores go to m * 100 + ...
const int kGood = 16, kBad = 7;
Member Template(int k, int m) {
  Member r;
  int st = m * 100;
  auto L = [](T t, int i) { return LdX(t, i); };
  auto one = ConstX(N(kI32, 1));
  auto store = [&](T t, P x) { return ExprSt(StoreX(t, st++, std::move(x))); };
  // operands: 0 i32, 1 f64, 2 string, 3 i64list, 4 u8 (false), 5 u16 (true), 6 i32
  switch (k) {
    case 0: r.b = {Assign("a", L(kI32, 0)), store(kI32, VarX("a"))}; break;
    case 1: r.b = {store(kI32, BinX(Op::kAdd, L(kI32, 0), one))}; break;
    case 2: r.b = {Assign("a", L(kF64, 1)), store(kF64, BinX(Op::kMul, VarX("a"), VarX("a")))}; break;
    case 3: r.b = {Let("a", L(kI32, 0)), store(kI32, VarX("a")), store(kF64, BinX(Op::kAdd, VarX("a"), L(kF64, 1)))}; break;
    case 4: {
      St w;
      w.k = St::kWhen;
      w.br.push_back({L(kU8, 4), {Assign("a", L(kI32, 6))}});
      w.has_else = true;
      w.els = {Assign("b", VarX("a")), store(kI32, VarX("b"))};
      r.b = {Assign("a", L(kI32, 0)), w, store(kI32, VarX("a"))};
      break;
    }
    case 5: r.b = {store(kStr, L(kStr, 2)), store(kStr, BinX(Op::kAdd, L(kStr, 2), ConstX(S("x"))))}; break;
    case 6: r.b = {Assign("b", L(T::kI64List, 3)), store(T::kI64List, VarX("b")), store(T::kI64List, BinX(Op::kAdd, VarX("b"), VarX("b")))}; break;
    case 7: r.b = {store(kI32, ConstX(N(kI32, 5)))}; break;
    case 8: r.b = {Assign("a", L(kI32, 0))}; break;
    case 9: {  // one index written three times
      auto x = StoreX(kI32, st, L(kI32, 0)), y = StoreX(kI32, st, L(kI32, 6)), z = StoreX(kI32, st, BinX(Op::kAdd, L(kI32, 0), L(kI32, 6)));
      r.b = {ExprSt(x), ExprSt(y), ExprSt(z)};
      break;
    }
    case 10: r.b = {Assign("b", L(kI32, 6)), Assign("a", BinX(Op::kAdd, VarX("b"), L(kI32, 0))), Assign("b", VarX("a")), store(kI32, VarX("b"))}; break;
    case 11: r.b = {Assign("a", L(kStr, 2)), Assign("b", VarX("a")), store(kStr, BinX(Op::kAdd, VarX("a"), VarX("b")))}; break;
    case 12: {
      St w;
      w.k = St::kWhen;
      w.br.push_back({L(kU16, 5), {store(kF64, L(kF64, 1)), Assign("t", L(kF64, 1)), store(kF64, VarX("t"))}});
      r.b = {w};
      break;
    }
    case 13: r.b = {store(kI32, IfX({L(kU8, 4), L(kI32, 0), L(kI32, 6)})), store(kI32, SwX({L(kU16, 5), L(kI32, 6), L(kI32, 0)}))}; break;
    case 14: r.b = {Assign("a", StoreX(kI32, st++, L(kI32, 0))), store(kI32, VarX("a"))}; break;
    case 15: r.b = {Assign("a", L(kI32, 0)), Assign("b", L(kF64, 1)), Assign("c", L(kStr, 2)), store(kF64, BinX(Op::kAdd, VarX("a"), VarX("b"))), store(kStr, VarX("c"))}; break;
    // rejected members
    case 16: r.b = {ExprSt(StoreX(kI32, st, VarX("a")))}; break;
    case 17: r.b = {ExprSt(StoreX(kI32, st, VarX("b")))}; break;
    case 18: r.b = {Assign("a", L(kI32, 0)), Assign("a", L(kF64, 1))}; break;
    case 19: r.b = {Let("a", L(kI32, 0)), Assign("a", L(kI32, 6))}; break;
    case 20: r.b = {Assign("a", L(kI32, 0)), Let("a", L(kI32, 6))}; break;
    case 21: r.raw = "a = ld_i32(entry_arg, 0"; break;
    default: r.raw = "when ld_i32(entry_arg, 0) { t = 1; } st_i32(output, " + std::to_string(st) + ", t);"; break;
  }
  if (!r.raw.empty()) {
    r.valid = false;
  } else {
    Checker ck;
    r.valid = ck.Run(r.b);
    if (r.valid != (k < kGood)) Die("template " + std::to_string(k));
  }
  return r;
}
void OneSet(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg, const std::vector<int>& set) {
  std::vector<Member> ms;
  std::vector<std::string> src;
  bool valid = true;
  for (size_t i = 0; i < set.size(); i++) {
    ms.push_back(Template(set[i], static_cast<int>(i)));
    src.push_back(ms.back().raw.empty() ? Text(ms.back().b) : ms.back().raw);
    valid = valid && ms.back().valid;
  }
  auto show = [&] {
    std::string o;
    for (auto& s : src) o += "{ " + s + "} ";
    return o;
  };
  c.Sub(show().substr(0, 3000));
  c.Eval();
  athena::AthenaPipeline ap;
  auto st = ap.Compile(src, reg);
  if (st.ok() != valid) {
    c.Fail("set " + show() + "is " + (valid ? "refused: " + st.ToString() : "accepted although a member is not valid"));
    return;
  }
  const T types[] = {kI32, kF64, kStr, T::kI64List, kU8, kU16, kI32};
  for (int as = 0; as < 2; as++) {
    Args a;
    for (int i = 0; i < 7; i++) a.a[i] = CachedSlot(types[i], i, i == 4 ? as : i == 5 ? 1 - as : 1 + as);
    Recorder rec;
    if (!valid) {
      if (ap.Execute(&a, &rec).ok() || !rec.log.empty()) c.Fail("refused set can be executed: " + show());
      c.Extra("sets refused");
      return;
    }
    auto s2 = ap.Execute(&a, &rec);
    bool ok = s2.ok();
    size_t seen = 0;
    std::string want;
    for (size_t i = 0; i < ms.size(); i++) {
      Machine m;
      m.in = &a;
      if (!Exec(m, ms[i].b)) Die("undefined template");
      Log mine;
      for (auto& e : rec.log)
        if (e.first / 100 == static_cast<int>(i)) mine.push_back(e);
      seen += mine.size();
      ok = ok && SameLog(mine, m.stores);
      want += ShowLog(m.stores);
    }
    if (!ok || seen != rec.log.size()) {
      c.Fail("set " + show() + ": status " + s2.ToString() + ", stores " + ShowLog(rec.log) + "; expected, member by member, " + want);
      return;
    }
    c.Outcome(want);
    c.SampleOf(std::to_string(set.size()) + " members", show() + "-> " + ShowLog(rec.log));
  }
}
// Members that are equal or look alike, storing under the same index: every member's stores appear as often as there are members.
void Alike(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  struct A {
    T t;
    std::string text;
  };
  std::vector<std::vector<A>> groups;
  auto lit = [&](T t, std::initializer_list<const char*> v) {
    std::vector<A> g;
    for (auto* x : v) g.push_back({t, x});
    groups.push_back(g);
  };
  lit(kF64, {"1.0000001f64", "1.0000002f64", "1.0f64", "0.9999999999f64", "1.0000000000000002f64"});
  lit(kF64, {"123456789.25f64", "123456789.5f64", "123456788.25f64", "123456789.0f64", "123456789.00000001f64"});
  lit(kF32, {"0.1f32", "0.10000001f32", "0.1000001f32", "16777216.0f32", "16777215.0f32"});
  lit(kF64, {"(1 + 0.5f64)", "(1u8 + 0.5f64)", "(1i64 + 0.5f64)", "(1.0f32 + 0.5f64)", "(1.0f64 + 0.5f64)", "(1 + 0.5f32 + 0.0f64)"});
  lit(kI32, {"(0u8 - 1i32)", "(0i8 - 1i32)", "(0 - 1)", "-1", "(0u16 - 1)", "1", "+1", "- -1"});
  lit(kU8, {"(1 < 2)", "(1u8 < 2)", "('1' < '2')", "1u8", "(200u8 < 100i8)", "(200u8 < 100)", "(1 and 2)", "(1 or 2)", "not 0"});
  lit(kStr, {"'a'", "'a '", "' a'", "'A'", "'a\tb'", "'a\\tb'", "'1'", "'1.000000'", "'[1, 2]'", "''", "'\"a\"'", "\"'a'\""});
  lit(kStr, {"'aa'", "('a' + 'a')", "('' + 'aa')", "\"aa\"", "'a' + 'a'", "if(1, 'aa', 'ab')", "if(0, 'aa', 'ab')"});
  lit(T::kI64List, {"[1i64, 2i64]", "[1i64, 2i64, 0i64]", "[12i64]", "[1i64] + [2i64]", "[2i64, 1i64]"});
  lit(kStrL, {"['1', '2']", "['1, 2']", "['1\", \"2']", "['12']", "['1'] + ['2']", "['2', '1']", "['1', '2', '']"});
  lit(T::kF64List, {"[1.0000001f64]", "[1.0000002f64]", "[1.0f64]", "[1.0f64, 0.0f64]"});
  lit(kI32, {"ld_i32(entry_arg, 0)", "ld_i32(entry_arg, 6)", "+ld_i32(entry_arg, 0)", "(ld_i32(entry_arg, 0))", "(ld_i32(entry_arg, 0) + 0)", "-(-ld_i32(entry_arg, 0))"});
  for (auto& g : groups) {
    if (!c.Begin([&] { return "members alike " + g[0].text; })) continue;
    // each member's value, compiled alone
    const T types[] = {kI32, kF64, kStr, T::kI64List, kU8, kU16, kI32};
    Args a;
    for (int i = 0; i < 7; i++) a.a[i] = CachedSlot(types[i], i, 1);
    std::vector<Val> alone;
    for (auto& m : g) {
      std::unique_ptr<ExecEngine> e;
      std::string why = TryCompile(m.text + ";", reg, &e);
      RetType r;
      if (why.empty() && !e->Execute(&a, &r).ok()) why = "does not run";
      if (!why.empty()) Die(m.text + ": " + why);
      alone.push_back(FromRet(r));
    }
    auto run = [&](const std::vector<size_t>& set, int form) {
      std::vector<std::string> src;
      std::multiset<std::string> want, got;
      for (size_t m : set) {
        std::string st = StName(g[m].t) + "(output, ";
        std::string v = g[m].text;
        if (form == 0) src.push_back(st + "0, " + v + ");");
        else if (form == 1) src.push_back("a = " + v + "; " + st + "0, a); " + st + "1, a);");
        else if (form == 2) src.push_back("when ld_u16(entry_arg, 5) { " + st + "0, " + v + "); }");
        else src.push_back("let b = ld_i32(entry_arg, 0); " + st + "0, " + v + "); st_i32(output, 7, b);");
        want.insert("0" + Show(alone[m]));
        if (form == 1) want.insert("1" + Show(alone[m]));
        if (form == 3) want.insert("7" + Show(a.a[0]->val()));
      }
      std::string show;
      for (auto& x : src) show += "{ " + x + " } ";
      c.Sub(show.substr(0, 3000));
      c.Eval();
      athena::AthenaPipeline ap;
      Recorder rec;
      auto st = ap.Compile(src, reg);
      if (st.ok()) st = ap.Execute(&a, &rec);
      for (auto& [i, v] : rec.log) got.insert(std::to_string(i) + Show(v));
      if (!st.ok() || got != want) {
        std::string w;
        for (auto& x : want) w += x + " ";
        c.Fail("set " + show + ": status " + st.ToString() + ", stores " + ShowLog(rec.log) + "; expected, in any order, " + w);
      } else {
        c.Outcome(show);
      }
    };
    for (int form = 0; form < 4; form++) {
      for (size_t i = 0; i < g.size(); i++)
        for (size_t j = 0; j < g.size(); j++) run({i, j}, form);
      std::vector<size_t> every, twice;
      for (size_t i = 0; i < g.size(); i++) every.push_back(i), twice.push_back(i), twice.push_back(g.size() - 1 - i);
      run(every, form);
      run(twice, form);
      run({0, 0, 0, 0, 0}, form);
    }
  }
}
// Many members at once.
void ManyMembers(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  for (int n : thorough ? std::vector<int>{64, 65, 100, 128, 129, 256, 257, 300, 600} : std::vector<int>{64, 65, 129, 257}) {
    for (int form = 0; form < 4; form++) {
      if (!c.Begin([&] { return std::to_string(n) + " members, form " + std::to_string(form); })) continue;
      std::vector<int> s;
      for (int i = 0; i < n; i++) s.push_back(form == 0 ? i % kGood : form == 1 ? 1 : form == 2 ? (i % 7 == 3 ? 4 : 10) : (i * 5 + i / 16) % kGood);
      OneSet(c, reg, s);
      if (form == 1) {
        s[static_cast<size_t>(n) - 1] = 16;
        OneSet(c, reg, s);
        std::swap(s[0], s[static_cast<size_t>(n) - 1]);
        OneSet(c, reg, s);
      }
    }
  }
}
void Sets(vf::Ctx& c, const std::unique_ptr<FunctionRegistry>& reg) {
  const int all = kGood + kBad;
  // pairs, and triples of the first templates
  for (int i = 0; i < all; i++) {
    if (!c.Begin([&] { return "pairs from " + std::to_string(i); })) continue;
    OneSet(c, reg, {i});
    for (int j = 0; j < all; j++) OneSet(c, reg, {i, j});
  }
  int n3 = thorough ? all : kGood;
  for (int i = 0; i < n3; i++)
    for (int j = 0; j < n3; j++) {
      if (!c.Begin([&] { return "triples from " + std::to_string(i) + ", " + std::to_string(j); })) continue;
      for (int k = 0; k < n3; k++) OneSet(c, reg, {i, j, k});
      // the other templates rotate through the third place
      if (!thorough)
        for (int q = 0; q < 3; q++) OneSet(c, reg, {i, n3 + (i * 5 + j * 3 + q * 4) % (all - n3), j});
    }
  if (thorough)
    for (int i = 0; i < 10; i++)
      for (int j = 0; j < 10; j++)
        for (int k = 0; k < 10; k++) {
          if (!c.Begin([&] { return "quadruples from " + std::to_string(i) + ", " + std::to_string(j) + ", " + std::to_string(k); })) continue;
          for (int l = 0; l < 10; l++) OneSet(c, reg, {i, j, k, l});
        }
  // one template many times; all templates, in rotations, with one bad member at each place
  for (int n = 2; n <= 40; n += n < 8 ? 1 : 8) {
    if (!c.Begin([&] { return "copies, " + std::to_string(n); })) continue;
    for (int i = 0; i < kGood; i++) OneSet(c, reg, std::vector<int>(static_cast<size_t>(n), i));
  }
  for (int r = 0; r < kGood; r++) {
    if (!c.Begin([&] { return "rotation " + std::to_string(r); })) continue;
    std::vector<int> s;
    for (int i = 0; i < kGood; i++) s.push_back((i * (r % 2 ? 5 : 1) + r) % kGood);
    OneSet(c, reg, s);
    for (int b = kGood; b < all; b++) {
      auto s2 = s;
      s2.insert(s2.begin() + (r * 7 + b) % (kGood + 1), b);
      OneSet(c, reg, s2);
    }
    auto s3 = s;
    s3.insert(s3.end(), s.begin(), s.end());
    OneSet(c, reg, s3);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](vf::Ctx& c, const std::string& mode) {
    thorough = c.thorough;
    auto reg = NewRegistry();
    AddStores(reg.get());
    AddEvents(reg.get());
    AddCells(reg.get());
    if (mode == "C07") LongPipes(c, reg), ReadBack(c, reg), Pipes(c, reg);
    if (mode == "C08") Sets(c, reg), Alike(c, reg), ManyMembers(c, reg);
    if (mode == "C29") Rules(c, reg), TypePairs(c, reg), NameForms(c, reg), Exprs(c, reg);
  });
}
