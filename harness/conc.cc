// C25: every interleaving, at the calls of user functions, of executions on several threads.
// A controlled scheduler runs one thread at a time and enumerates all schedules.  Threads hand over through relaxed
// atomics only, so that in the tsan build nothing orders the executions of different threads and every conflicting
// access of one schedule is reported.
#include <linux/futex.h>
#include <sys/syscall.h>
#include <fstream>
#include <sstream>
#include <thread>
#include "jf.h"
#include "llvm/IR/Constants.h"
using namespace jf;

#if defined(__SANITIZE_THREAD__)
#define RAW __attribute__((no_sanitize("thread"), noinline))
static const bool kTsan = true;
static int g_reports = 0;
extern "C" void __tsan_on_report(void*) { g_reports++; }
extern "C" const char* __tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:history_size=4"; }
#else
#define RAW __attribute__((noinline))
static const bool kTsan = false;
static int g_reports = 0;
#endif

namespace {
bool thorough = false;
constexpr T P = T::kPtr;

// ------------------------------------------------------------- the scheduler
constexpr int kMax = 3, kSteps = 64;
struct Sched {
  int n = 0;
  bool live[kMax];
  int pos = 0;
  int prefix[kSteps], nprefix = 0;
  int taken[kSteps], width[kSteps];
  uint32_t go[kMax];     // a thread's turn
  uint32_t start[kMax];  // number of the run a thread has to make
  uint32_t ended;
  bool overflow = false;
} S_;
thread_local int tl_id = -1;
RAW void Wake(uint32_t* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 8, nullptr, nullptr, 0); }
RAW uint32_t Relaxed(uint32_t* p) {
  uint32_t v = *const_cast<volatile uint32_t*>(p);
  asm volatile("" ::: "memory");
  return v;
}
RAW void WaitTurn(int id) {
  for (int i = 0; Relaxed(&S_.go[id]) == 0; i++) {
    if (i < 100) asm volatile("pause");
    else syscall(SYS_futex, &S_.go[id], FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  S_.go[id] = 0;
  asm volatile("" ::: "memory");
}
// the running thread gives up its turn; chooses who is next
RAW void Next(int self, bool finished) {
  asm volatile("" ::: "memory");
  if (finished) S_.live[self] = false;
  int en[kMax], k = 0;
  for (int i = 0; i < S_.n; i++)
    if (S_.live[i]) en[k++] = i;
  if (k == 0) return;
  int ch = 0;
  if (k > 1) {
    if (S_.pos >= kSteps) S_.overflow = true;
    else {
      ch = S_.pos < S_.nprefix ? S_.prefix[S_.pos] : 0;
      if (ch >= k) ch = k - 1;
      S_.taken[S_.pos] = ch;
      S_.width[S_.pos] = k;
      S_.pos++;
    }
  }
  int to = en[ch];
  if (to == self && !finished) return;
  asm volatile("" ::: "memory");
  *const_cast<volatile uint32_t*>(&S_.go[to]) = 1;
  Wake(&S_.go[to]);
  if (!finished) WaitTurn(self);
}
// outside the scheduler, a call of a user function may start something else before it goes on
struct Nest {
  std::function<void()> act;
  int at = -1;  // at which handing over; -2: at each
  int n = 0;
};
std::vector<Nest*> g_nest;
void Nested() {
  auto* x = g_nest.back();
  int k = x->n++;
  if (x->act && (x->at == k || x->at == -2)) x->act();
}
RAW void Yield() {
  if (tl_id >= 0) Next(tl_id, false);
  else if (!g_nest.empty()) Nested();
}
using Body_ = std::function<void()>;
Body_ g_body[kMax];
struct Pool {
  std::vector<std::thread> t;
  uint32_t run = 0;
  explicit Pool() {
    for (int i = 0; i < kMax; i++)
      t.emplace_back([i] {
        for (uint32_t k = 1;; k++) {
          uint32_t v;
          while ((v = __atomic_load_n(&S_.start[i], __ATOMIC_ACQUIRE)) < k) syscall(SYS_futex, &S_.start[i], FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
          if (v == UINT32_MAX) return;
          k = v;
          if (!g_body[i]) continue;
          tl_id = i;
          WaitTurn(i);
          g_body[i]();
          tl_id = -1;
          Next(i, true);
          __atomic_fetch_add(&S_.ended, 1, __ATOMIC_RELEASE);
          Wake(&S_.ended);
        }
      });
  }
  // one schedule: the threads follow the prefix, then always the first
  void Run(int n) {
    S_.n = n;
    S_.pos = 0;
    for (int i = 0; i < n; i++) S_.live[i] = true, S_.go[i] = 0;
    __atomic_store_n(&S_.ended, 0, __ATOMIC_RELAXED);
    run++;
    for (int i = 0; i < n; i++) {
      __atomic_store_n(&S_.start[i], run, __ATOMIC_RELEASE);
      Wake(&S_.start[i]);
    }
    First();
    uint32_t e;
    while ((e = __atomic_load_n(&S_.ended, __ATOMIC_ACQUIRE)) < static_cast<uint32_t>(n)) syscall(SYS_futex, &S_.ended, FUTEX_WAIT_PRIVATE, e, nullptr, nullptr, 0);
  }
  RAW void First() {
    int ch = 0;
    if (S_.n > 1) {
      ch = S_.nprefix > 0 ? S_.prefix[0] : 0;
      S_.taken[0] = ch;
      S_.width[0] = S_.n;
      S_.pos = 1;
    }
    *const_cast<volatile uint32_t*>(&S_.go[ch]) = 1;
    Wake(&S_.go[ch]);
  }
  // a one-thread run, for what the execution gives alone
  void Alone(int i) {
    (void)i;
    Run(1);
  }
};
Pool* g_pool = nullptr;
std::string Schedule() {
  std::string s;
  for (int i = 0; i < S_.pos; i++) s += static_cast<char>('0' + S_.taken[i]);
  return s;
}
// every schedule of n threads; check gives what is wrong with the last one
uint64_t AllSchedules(vf::Ctx& c, int n, const std::function<void()>& reset, const std::function<std::string()>& check) {
  S_.nprefix = 0;
  uint64_t count = 0;
  for (;;) {
    reset();
    int rep = g_reports;
    g_pool->Run(n);
    count++;
    c.Transition(static_cast<uint64_t>(S_.pos));
    if (S_.overflow) Die("too many scheduling points");
    std::string m = check();
    if (m.empty() && g_reports != rep) m = "data race";
    if (!m.empty()) {
      c.Fail(m + " (schedule " + Schedule() + ")");
      return count;
    }
    if (count % 64 == 0) c.Beat();
    int k = S_.pos - 1;
    while (k >= 0 && S_.taken[k] + 1 >= S_.width[k]) k--;
    if (k < 0) return count;
    for (int i = 0; i < k; i++) S_.prefix[i] = S_.taken[i];
    S_.prefix[k] = S_.taken[k] + 1;
    S_.nprefix = k + 1;
  }
}

// ------------------------------------------------------------- user functions that hand over
struct In {
  Args args;  // first: the loaders look here
  uint32_t mask = 0, vals = 0, alloc = 0;
  std::vector<int> calls;
  int base = 0;
};
int64_t Val_(In* p, int32_t id) { return ((p->vals >> id) & 1) ? p->base + 10 + id : 0; }
void Touch(In* p, int32_t id, ExecContext* c) {
  Yield();
  p->calls.push_back(id);
  if (p->alloc) memset(c->arena.Allocate(p->alloc), 0x5A, p->alloc);
  if ((p->mask >> id) & 1) c->AddError("<" + std::to_string(p->base) + ":" + std::to_string(id) + ">");
}
int64_t YI(In* p, int32_t id, ExecContext* c) {
  Touch(p, id, c);
  return Val_(p, id);
}
jitfusion::StringStruct YS(In* p, int32_t id, ExecContext* c) {
  auto s = "s" + std::to_string(Val_(p, id));
  auto* q = c->arena.Allocate(s.size(), 1);
  memcpy(q, s.data(), s.size());
  Touch(p, id, c);
  return {reinterpret_cast<char*>(q), static_cast<uint32_t>(s.size())};
}
jitfusion::I64ListStruct YL(In* p, int32_t id, ExecContext* c) {
  auto* q = reinterpret_cast<int64_t*>(c->arena.Allocate(24));
  for (int i = 0; i < 3; i++) q[i] = Val_(p, id) * 100 + (i * 7) % 5;
  Touch(p, id, c);
  return {q, 3};
}
int32_t YSt(void* out, int32_t idx, int64_t v) {
  Yield();
  static_cast<Recorder*>(out)->log.emplace_back(idx, FromRet(RetType(v)));
  return 0;
}
template <class R>
R Pick(R r, int64_t) { return r; }
void Reg(FunctionRegistry* r) {
  auto add = [&](const std::string& n, std::vector<T> a, T ret, void* f) {
    jitfusion::FunctionStructure fs{jitfusion::FunctionType::kCFunc, f, {}};
    if (!r->RegisterFunc(FunctionSignature(n, a, ret), fs).ok()) Die(n);
  };
  add("y", {P, kI32, P}, kI64, (void*)YI);
  add("ys", {P, kI32, P}, kStr, (void*)YS);
  add("yl", {P, kI32, P}, T::kI64List, (void*)YL);
  if (!r->RegisterStoreCFunc(FunctionSignature("yst", {P, kI32, kI64}, kI32), (void*)YSt, 1).ok()) Die("yst");
  ForTypes([&](T t, auto* p) {
    using CT = std::remove_pointer_t<decltype(p)>;
    add("pick", {t, kI64}, t, (void*)Pick<CT>);
  });
}
std::unique_ptr<FunctionRegistry> YRegistry() {
  auto r = NewRegistry();
  AddStores(r.get());
  Reg(r.get());
  return r;
}
#define Y(i) "y(entry_arg, " #i ", exec_ctx)"
#define YSX(i) "ys(entry_arg, " #i ", exec_ctx)"
#define YLX(i) "yl(entry_arg, " #i ", exec_ctx)"
struct Prog {
  const char* src;
  bool pipe;
};
const Prog kProgs[] = {
    {Y(0) " * 3i64 + " Y(1) ";", false},
    {YSX(0) " + 'const' + " YSX(1) ";", false},
    {YLX(0) " + " YLX(1) ";", false},
    {"if(" Y(0) " > 0i64, " YSX(1) " + 'yes', " YSX(2) " + 'no');", false},
    {"if((" Y(0) " > 0i64 and " Y(1) " > 0i64) or " Y(2) " > 0i64, ['a', 'b'], ['c']);", false},
    {"switch(" Y(0) " > 5i64, [1i64, 2i64, 3i64] + " YLX(1) ", " Y(1) " > 5i64, [7i64], [8i64, 9i64]);", false},
    {"pick(StringConcat('left', ld_string(entry_arg, 0)), " Y(0) ") + " YSX(1) ";", false},
    {"pick(SortAsc(" YLX(0) "), " Y(1) ");", false},
    {"pick(ListConcat(ld_i64list(entry_arg, 1), [5i64]), " Y(0) ") + pick(ListConcat([6i64], ld_i64list(entry_arg, 1)), " Y(1) ");", false},
    {"a = " Y(0) "; yst(output, 1, a + 1i64); when a > 0i64 { yst(output, 2, a); } else { st_string(output, 3, ld_string(entry_arg, 0) + 'e'); }", true},
    {"l = ld_i64list(entry_arg, 1) + " YLX(0) "; st_i64list(output, 1, l); st_string(output, 2, " YSX(1) " + 'x');", true},
    {"pick(ld_f64(entry_arg, 2) * 2.5, " Y(0) ") / pick(ld_f64(entry_arg, 2), " Y(1) ");", false},
};
constexpr int kN = sizeof kProgs / sizeof kProgs[0];

struct Made {
  std::string status;
  Val ret;
  std::vector<std::pair<int, Val>> log;
  std::vector<int> calls;
};
std::string Differ(const Made& a, const Made& alone) {
  if (a.status != alone.status) return "status '" + a.status + "', alone '" + alone.status + "'";
  if (a.ret.t != alone.ret.t || !Same(a.ret, alone.ret)) return "result " + Show(a.ret) + ", alone " + Show(alone.ret);
  if (!SameLog(a.log, alone.log)) return "stores " + ShowLog(a.log) + ", alone " + ShowLog(alone.log);
  if (a.calls != alone.calls) return "other calls than alone";
  return "";
}
// ------------------------------------------------------------- one engine with several programs, of some kind
struct Engine {
  std::unique_ptr<BatchExecEngine> b;
  std::vector<std::unique_ptr<ExecEngine>> s;
  std::vector<bool> pipe;
  Engine(const std::vector<Prog>& ps, const std::unique_ptr<FunctionRegistry>& reg, bool batch) {
    std::vector<std::unique_ptr<ExecNode>> ns;
    for (auto& p : ps) {
      athena::ProgramAstBuilder ab;
      std::unique_ptr<ExecNode> n;
      auto st = p.pipe ? ab.BuildPipeline(p.src, &n) : ab.BuildExpression(p.src, &n);
      if (!st.ok()) Die(std::string(p.src) + st.ToString());
      pipe.push_back(p.pipe);
      ns.push_back(std::move(n));
    }
    ExecEngineOption o;
    o.exec_ctx_arena_alloc_min_chunk_size = 64;
    if (batch) {
      b = std::make_unique<BatchExecEngine>(o);
      if (auto st = b->Compile(ns, reg); !st.ok()) Die(st.ToString());
    } else
      for (auto& n : ns) {
        s.push_back(std::make_unique<ExecEngine>(o));
        if (auto st = s.back()->Compile(n, reg); !st.ok()) Die(st.ToString());
      }
  }
  void Exec(size_t i, ExecContext* c, In& in, Made* m) {
    Yield();
    in.calls.clear();
    RetType r;
    Recorder rec;
    void* out = &rec;
    Status st;
    if (b && pipe[i]) st = c ? b->ExecuteAt(i, *c, &in, out) : b->ExecuteAt(i, &in, out);
    else if (b) st = c ? b->ExecuteAt(i, *c, &in, &r) : b->ExecuteAt(i, &in, &r);
    else if (pipe[i]) st = c ? s[i]->Execute(*c, &in, out) : s[i]->Execute(&in, out);
    else st = c ? s[i]->Execute(*c, &in, &r) : s[i]->Execute(&in, &r);
    m->status = st.ToString();
    m->ret = FromRet(r);
    m->log = std::move(rec.log);
    m->calls = in.calls;
  }
};
struct Inputs {
  std::vector<Slot> s;
  In in;
  explicit Inputs(int k) {
    s.emplace_back(S("in" + std::to_string(k)));
    Val l;
    l.t = T::kI64List;
    for (int i = 0; i < 4; i++) l.l.push_back(static_cast<uint64_t>(i * 10 + k));
    s.emplace_back(l);
    s.emplace_back(N(kF64, B64(k + 0.5)));
    for (size_t i = 0; i < s.size(); i++) in.args.a[i] = &s[i];
    in.base = (k + 1) * 1000;
    in.vals = k % 3 == 0 ? 7 : k % 3 == 1 ? 2 : 5;
    in.mask = k % 3 == 1 ? 1 : k == 5 ? 6 : 0;
    in.alloc = k % 2 ? 100 : 24;
  }
};
// what a thread does
struct Job {
  Engine* e;
  size_t prog;
  int input;
};
struct Thr {
  std::vector<Job> jobs;
  bool own = false;  // its own context, or none
};
std::vector<std::unique_ptr<Inputs>> MakeInputs(int thread) {
  std::vector<std::unique_ptr<Inputs>> v;
  for (int k = 0; k < 2; k++) v.push_back(std::make_unique<Inputs>(thread * 2 + k));
  return v;
}
std::string What(const std::vector<Thr>& ts) {
  std::string s;
  for (auto& t : ts) {
    s += s.empty() ? "" : " | ";
    s += t.own ? "own context:" : "no context:";
    for (auto& j : t.jobs) s += " " + std::to_string(j.prog);
  }
  return s;
}
void Explore(vf::Ctx& c, const std::vector<Thr>& ts) {
  size_t n = ts.size();
  std::vector<std::vector<std::unique_ptr<Inputs>>> in;
  for (size_t i = 0; i < n; i++) in.push_back(MakeInputs(static_cast<int>(i)));
  std::vector<std::vector<Made>> alone(n), made(n);
  std::vector<std::unique_ptr<ExecContext>> ctx(n);
  for (size_t i = 0; i < n; i++) {
    ctx[i] = std::make_unique<ExecContext>(64);
    for (auto& j : ts[i].jobs) {
      alone[i].emplace_back();
      j.e->Exec(j.prog, ts[i].own ? ctx[i].get() : nullptr, in[i][static_cast<size_t>(j.input)]->in, &alone[i].back());
    }
    made[i].resize(ts[i].jobs.size());
  }
  for (size_t i = 0; i < n; i++)
    g_body[i] = [&, i] {
      for (size_t k = 0; k < ts[i].jobs.size(); k++) {
        auto& j = ts[i].jobs[k];
        j.e->Exec(j.prog, ts[i].own ? ctx[i].get() : nullptr, in[i][static_cast<size_t>(j.input)]->in, &made[i][k]);
      }
    };
  auto count = AllSchedules(
      c, static_cast<int>(n),
      [&] {
        for (auto& m : made)
          for (auto& x : m) x = Made{};
      },
      [&]() -> std::string {
        for (size_t i = 0; i < n; i++)
          for (size_t k = 0; k < made[i].size(); k++)
            if (auto d = Differ(made[i][k], alone[i][k]); !d.empty()) return std::string(kProgs[ts[i].jobs[k].prog].src) + " on thread " + std::to_string(i) + ": " + d + "; " + What(ts);
        return "";
      });
  c.Eval(count * n);
  c.Trace(count);
  c.Extra("schedules", count);
  for (size_t i = 0; i < n; i++)
    for (auto& a : alone[i]) c.Outcome(a.status + Show(a.ret) + ShowLog(a.log));
  for (size_t i = 0; i < n; i++) {
    g_body[i] = nullptr;
    for (auto& x : in[i])
      for (auto& s : x->s)
        if (!s.Intact()) c.Fail("an input was written to");
  }
}

void Threads(vf::Ctx& c) {
  bool quick_tsan = kTsan && !thorough;
  for (int p = 0; p < kN; p++)
    for (int q = p; q < kN; q++) {
      if (!c.Begin([&] { return "programs " + std::to_string(p) + " and " + std::to_string(q) + " on two threads"; })) continue;
      auto reg = YRegistry();
      std::vector<Prog> ps(kProgs, kProgs + kN);
      Engine batch({kProgs[p], kProgs[q]}, reg, true), single({kProgs[p], kProgs[q]}, reg, false);
      // programs are numbered by their place in the engine
      for (int f = 0; f < (quick_tsan || (!thorough && p != q) ? 2 : 4); f++)
        for (Engine* e : {&batch, &single}) {
          if (quick_tsan && (e == &single) != (f == 1)) continue;
          if (!thorough && (p == q ? f > 0 : (e == &single) != (f == 1)) && e == &single) continue;
          std::vector<Thr> ts{{{{e, 0, 0}, {e, 0, 1}}, (f & 1) != 0}, {{{e, 1, 0}, {e, 1, 1}}, (f & 2) != 0 || f == 1}};
          if (p == q) ts[1].jobs[0].prog = ts[1].jobs[1].prog = 0;  // one entry on both threads
          if (!thorough && (quick_tsan || p != q || f > 1)) ts[static_cast<size_t>(f & 1)].jobs.pop_back();
          if (quick_tsan && p != q) ts[static_cast<size_t>(1 - (f & 1))].jobs.pop_back();
          Explore(c, ts);
        }
      if (p == 1 && q == 6) c.SampleOf("two threads", std::string(kProgs[p].src) + " || " + kProgs[q].src);
    }
  for (int p = 0; p < kN; p++)
    for (int q = 0; q < kN; q++) {
      if (!thorough && p != q) continue;
      if (quick_tsan && p != 1) continue;
      if (!c.Begin([&] { return "programs " + std::to_string(p) + ", " + std::to_string(q) + " and " + std::to_string(p) + " on three threads"; })) continue;
      auto reg = YRegistry();
      Engine batch({kProgs[p], kProgs[q]}, reg, true), other({kProgs[p], kProgs[q]}, reg, q % 2 == 0);
      Explore(c, {{{{&batch, 0, 0}}, true}, {{{&batch, 1, 0}}, false}, {{{&batch, 0, 0}}, p % 2 == 0}});
      // another engine with the same programs in the game
      if (thorough || p % 3 == 1) Explore(c, {{{{&batch, 0, 0}}, false}, {{{&other, 1, 0}}, true}, {{{&other, 0, 0}}, false}});
    }
}
// ------------------------------------------------------------- ExecuteAll and the athena front ends
void FrontEnds(vf::Ctx& c) {
  for (int f = 0; f < 6; f++)
    if (c.Begin([&] { return "front ends " + std::to_string(f); })) {
      auto reg = YRegistry();
      athena::AthenaPipeline pipe;
      athena::AthenaExpression expr;
      std::vector<std::string> src{"a = " Y(0) "; yst(output, 1, a);", "b = " Y(1) "; st_string(output, 2, 'v' + ld_string(entry_arg, 0)); yst(output, 3, b);"};
      if (!pipe.Compile(src, reg).ok() || !expr.Compile(kProgs[f % 3 + 1].src, reg).ok()) Die("front ends");
      Made alone[2][2], made[2][2];
      std::vector<std::unique_ptr<Inputs>> in[2] = {MakeInputs(0), MakeInputs(1)};
      ExecContext ctx[2]{ExecContext(64), ExecContext(64)};
      auto run = [&](int t, int k, Made* m) {
        Yield();
        auto& x = in[t][static_cast<size_t>(k)]->in;
        x.calls.clear();
        Recorder rec;
        RetType r;
        void* out = &rec;
        bool own = (f >> 1) != 0 && (f >> 1) != t + 1;
        Status st;
        if ((f + t + k) % 2) st = own ? pipe.Execute(ctx[t], &x, out) : pipe.Execute(&x, out);
        else st = own ? expr.Execute(ctx[t], &x, &r) : expr.Execute(&x, &r);
        m->status = st.ToString(), m->ret = FromRet(r), m->log = rec.log, m->calls = x.calls;
      };
      for (int t = 0; t < 2; t++)
        for (int k = 0; k < 2; k++) run(t, k, &alone[t][k]);
      for (int t = 0; t < 2; t++)
        g_body[t] = [&, t] {
          for (int k = 0; k < (thorough || t == f % 2 ? 2 : 1); k++) run(t, k, &made[t][k]);
        };
      auto n = AllSchedules(
          c, 2, [] {},
          [&]() -> std::string {
            for (int t = 0; t < 2; t++)
              for (int k = 0; k < (thorough || t == f % 2 ? 2 : 1); k++)
                if (auto d = Differ(made[t][k], alone[t][k]); !d.empty()) return "front end on thread " + std::to_string(t) + ": " + d;
            return "";
          });
      c.Eval(n * 4), c.Trace(n), c.Extra("schedules", n);
      g_body[0] = g_body[1] = nullptr;
    }
}
// ------------------------------------------------------------- every built-in function, its result alive across a switch
Val Arg(T t, int i, int s, bool group) {
  if (t == kStr) return S(std::to_string(12 + i + 100 * s));
  if (t == kStrL) {
    std::vector<std::string> l;
    for (int k = 0; k < 3 + s; k++) l.push_back("k" + std::to_string(k * (i + 1) + s));
    return SL(l);
  }
  if (IsList(t)) {
    T e = ElemOf(t);
    Val v = L(t, {});
    for (int k = 0; k < 3 + s; k++) {
      int x = group && i >= 1 && t == T::kU32List ? k % 2 : 10 * s + i + k;
      v.l.push_back(e == kF32 ? B32(static_cast<float>(x)) : e == kF64 ? B64(x) : Wrap(e, x));
    }
    return v;
  }
  int x = 1 + i + s;
  return N(t, t == kF32 ? B32(static_cast<float>(x) / 8) : t == kF64 ? B64(x / 8.0) : Wrap(t, x));
}
void BuiltIns(vf::Ctx& c) {
  std::map<std::string, T> byname;
  ForTypes([&](T t, auto*) { byname[Name(t)] = t; });
  struct Sig {
    std::string name;
    std::vector<T> args;
  };
  std::vector<Sig> sigs;
  std::ifstream f(VERIF_HARNESS_DIR "/signatures.txt");
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    Sig g;
    std::string r, a;
    s >> g.name >> r;
    if (g.name[0] == '?') continue;
    while (s >> a) g.args.push_back(byname.at(a));
    sigs.push_back(g);
  }
  if (sigs.size() < 1000) Die("signatures.txt");
  // operators that allocate or are emitted as loops
  for (T t : {T::kI32List, T::kF64List, T::kU8List, kStrL}) sigs.push_back({"+", {t, t}});
  sigs.push_back({"+", {kStr, kStr}}), sigs.push_back({"==", {kStr, kStr}}), sigs.push_back({"%", {kI64, kI64}}), sigs.push_back({"/", {kF32, kF32}});
  constexpr size_t kChunk = 40;
  for (size_t b = 0; b < sigs.size(); b += kChunk)
    if (c.Begin([&] { return "built-in functions from " + sigs[b].name; })) {
      auto reg = YRegistry();
      Batch batch;
      size_t e = std::min(sigs.size(), b + kChunk);
      for (size_t i = b; i < e; i++) {
        std::string s;
        if (!isalpha(sigs[i].name[0]) || sigs[i].name == "in") s = Ld(sigs[i].args[0], 0) + " " + sigs[i].name + " " + Ld(sigs[i].args[1], 1);
        else {
          for (size_t k = 0; k < sigs[i].args.size(); k++) s += (k ? ", " : "") + Ld(sigs[i].args[k], static_cast<int>(k));
          s = sigs[i].name + "(" + s + ")";
        }
        batch.Add("pick(" + s + ", " Y(0) ")");
      }
      // compiled by hand: every thread uses its own context
      std::vector<std::unique_ptr<ExecNode>> ns;
      for (size_t i = 0; i < batch.size(); i++) {
        std::unique_ptr<ExecNode> n;
        if (!BuildExpr(batch.Src(i), &n).ok()) Die(batch.Src(i));
        ns.push_back(std::move(n));
      }
      BatchExecEngine eng;
      if (auto st = eng.Compile(ns, reg); !st.ok()) Die(st.ToString());
      for (size_t i = b; i < e; i++) {
        std::deque<Slot> slots[2];
        In in[2];
        bool group = sigs[i].name.rfind("Group", 0) == 0;
        for (int s = 0; s < 2; s++) {
          for (size_t k = 0; k < sigs[i].args.size(); k++) slots[s].emplace_back(Arg(sigs[i].args[k], static_cast<int>(k), s, group)), in[s].args.a[k] = &slots[s].back();
          in[s].vals = 1, in[s].alloc = 16, in[s].base = s;
        }
        Made alone[2], made[2];
        ExecContext ctx[2]{ExecContext(64), ExecContext(64)};
        auto run = [&](int t, Made* m) {
          Yield();
          in[t].calls.clear();
          RetType r;
          auto st = eng.ExecuteAt(i - b, ctx[t], &in[t], &r);
          m->status = st.ToString(), m->ret = FromRet(r), m->calls = in[t].calls;
        };
        for (int t = 0; t < 2; t++) run(t, &alone[t]), g_body[t] = [&, t] { run(t, &made[t]); };
        auto n = AllSchedules(
            c, 2, [&] { made[0] = made[1] = Made{}; },
            [&]() -> std::string {
              for (int t = 0; t < 2; t++)
                if (auto d = Differ(made[t], alone[t]); !d.empty()) return batch.Src(i - b) + ": " + d;
              return "";
            });
        c.Eval(n * 2), c.Trace(n), c.Extra("schedules", n);
        c.Outcome(Show(alone[0].ret) + alone[0].status);
        if (i % 200 == 17) c.SampleOf("built-in", batch.Src(i - b) + " = " + Show(alone[0].ret) + " | " + Show(alone[1].ret));
        for (int s = 0; s < 2; s++)
          for (auto& x : slots[s])
            if (!x.Intact()) c.Fail(batch.Src(i - b) + ": an input was written to");
      }
      g_body[0] = g_body[1] = nullptr;
    }
}
// ------------------------------------------------------------- one engine executes while another is compiled, used and destroyed
llvm::Value* YieldGen(const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& a, jitfusion::IRCodeGenContext& ctx) {
  Yield();
  return ctx.builder.CreateAdd(a[0], llvm::ConstantInt::get(a[0]->getType(), 5));
}
void Compiles(vf::Ctx& c) {
  for (int p = 0; p < kN; p++)
    for (int own = 0; own < 2; own++)
      if (c.Begin([&] { return "program " + std::to_string(p) + " executes while another engine is compiled" + (own ? ", own context" : ""); })) {
        auto reg = YRegistry(), reg2 = YRegistry();
        if (!reg2->RegisterLLVMIntrinicFunc(FunctionSignature("yg", {kI64}, kI64), YieldGen).ok()) Die("yg");
        Engine e({kProgs[p]}, reg, own != 0);
        auto in = MakeInputs(0);
        auto in2 = MakeInputs(1);
        ExecContext ctx(64);
        Made alone[2], made[2];
        auto run = [&](int k, Made* m) { e.Exec(0, own ? &ctx : nullptr, in[static_cast<size_t>(k)]->in, m); };
        run(0, &alone[0]), run(1, &alone[1]);
        std::string other;
        auto body2 = [&] {
          std::unique_ptr<ExecNode> n;
          athena::ProgramAstBuilder ab;
          std::unique_ptr<ExecEngine> e2 = std::make_unique<ExecEngine>();
          RetType r;
          other = "";
          if (!ab.BuildExpression("yg(1i64) + yg(" Y(0) ") + if(false, 1i64, Len(['x', 'y']));", &n).ok()) other = "does not build";
          else if (auto st = e2->Compile(n, reg2); !st.ok()) other = st.ToString();
          else if (auto st2 = e2->Execute(&in2[0]->in, &r); !st2.ok()) other = st2.ToString();
          else if (!Same(FromRet(r), FromRet(RetType(int64_t{6 + Val_(&in2[0]->in, 0) + 5 + 2})))) other = "gives " + Show(FromRet(r));
        };
        g_body[0] = [&] { run(0, &made[0]), run(1, &made[1]); };
        g_body[1] = body2;
        in2[0]->in.mask = 0;
        auto n = AllSchedules(
            c, 2, [] {},
            [&]() -> std::string {
              for (int k = 0; k < 2; k++)
                if (auto d = Differ(made[k], alone[k]); !d.empty()) return std::string(kProgs[p].src) + " while another engine is compiled: " + d;
              return other.empty() ? "" : "the engine compiled meanwhile: " + other;
            });
        c.Eval(n * 3), c.Trace(n), c.Extra("schedules", n);
        g_body[0] = g_body[1] = nullptr;
      }
}
// ------------------------------------------------------------- one thread: a user function that executes, compiles, parses ...
// f, with act at its at-th handing over (every one: -2); gives how often it hands over
int Within(const std::function<void()>& f, const std::function<void()>& act, int at) {
  Nest x{act, at};
  g_nest.push_back(&x);
  f();
  g_nest.pop_back();
  return x.n;
}
void NestedRuns(vf::Ctx& c) {
  // executions in executions: the same entry, another entry, another engine; two levels
  for (int p = 0; p < kN; p++)
    for (int q = 0; q < kN; q++)
      if (c.Begin([&] { return "program " + std::to_string(q) + " executed by a function that program " + std::to_string(p) + " calls"; })) {
        auto reg = YRegistry();
        int r = (p * 5 + q) % kN;
        std::vector<Prog> ps{kProgs[p], kProgs[q], kProgs[r]};
        Engine batch(ps, reg, true), single(ps, reg, false);
        auto a = MakeInputs(0), b = MakeInputs(1), d = MakeInputs(2);
        ExecContext ca(64), cb(64), cd(64);
        for (int f = 0; f < 16; f++)
          for (int i = 0; i < 4; i++) {
            Engine& eo = f & 1 ? batch : single;
            Engine& ei = f & 2 ? batch : single;
            auto* co = f & 4 ? &ca : nullptr;
            auto* ci = f & 8 ? &cb : nullptr;
            auto &io = a[static_cast<size_t>(i & 1)]->in, &ii = b[static_cast<size_t>(i >> 1)]->in, &il = d[0]->in;
            Made ao, ai, al, mo, mi, ml;
            std::string msg;
            eo.Exec(0, co, io, &ao);
            int inner = Within([&] { ei.Exec(1, ci, ii, &ai); }, nullptr, -1);
            batch.Exec(2, nullptr, il, &al);
            auto both = [&](int at) {
              if (auto x = Differ(mo, ao); !x.empty()) msg = "the outer one: " + x;
              else if (x = Differ(mi, ai); !x.empty()) msg = "the inner one: " + x;
              if (!msg.empty()) msg += ", at call " + std::to_string(at) + ": " + kProgs[p].src + " / " + kProgs[q].src;
              c.Transition();
              c.Eval(2);
            };
            int n = 1;
            for (int at = -2; at < n && msg.empty(); at++) {
              if (at == -1) continue;
              mo = mi = Made{};
              n = Within([&] { eo.Exec(0, co, io, &mo); }, [&] { Within([&] { ei.Exec(1, ci, ii, &mi); }, nullptr, -1); }, at);
              both(at);
            }
            // and a third in the second
            for (int at = 0; at < n && msg.empty() && (f == 0 || f == 15 || f == 9 || thorough); at++)
              for (int k = 0; k < inner && msg.empty(); k++) {
                mo = mi = ml = Made{};
                Within([&] { eo.Exec(0, co, io, &mo); }, [&] { Within([&] { ei.Exec(1, ci, ii, &mi); }, [&] { batch.Exec(2, f & 1 ? &cd : nullptr, il, &ml); }, k); }, at);
                both(at);
                if (auto x = Differ(ml, al); msg.empty() && !x.empty()) msg = "the innermost one: " + x;
              }
            c.Trace(1);
            if (!msg.empty()) c.Fail(msg);
          }
      }
  // everything else the interface offers, done by a called function (kind 0) or while code is generated (kind 1)
  for (int p = 0; p < kN; p++)
    for (int kind = 0; kind < 2; kind++)
      for (int what = 0; what < 9; what++)
        if (c.Begin([&] { return "action " + std::to_string(what) + " in the middle of " + (kind ? "compiling" : "executing") + " program " + std::to_string(p); })) {
          auto reg = YRegistry();
          if (!reg->RegisterLLVMIntrinicFunc(FunctionSignature("yg", {kI64}, kI64), YieldGen).ok()) Die("yg");
          int q = (p * 7 + what) % kN;
          Engine other({kProgs[q], kProgs[(q + 1) % kN]}, reg, what % 2 == 0);
          auto in = MakeInputs(0), in2 = MakeInputs(1);
          Made alone, got, alone2, got2;
          std::string msg;
          ExecEngineOption so;
          so.enable_save_compiled = true, so.dump_ir = true;
          std::string art0, ir0;
          auto act = [&] {
            ExecContext ctx(64);
            std::unique_ptr<ExecNode> n;
            athena::ProgramAstBuilder ab;
            auto bad = [&](const std::string& m) { if (msg.empty()) msg = m; };
            switch (what) {
              case 0: other.Exec(0, nullptr, in2[0]->in, &got2); break;
              case 1: other.Exec(0, &ctx, in2[0]->in, &got2); break;
              case 2: {  // another engine from source to result, and gone
                ExecEngine e(so);
                RetType r;
                if (!ab.BuildExpression("1i64 + Len(['x', 'y']) + if(true, 3i64, 4i64);", &n).ok() || !e.Compile(n, reg).ok() || !e.Execute(nullptr, &r).ok() || !Same(FromRet(r), N(kI64, 6))) bad("another engine does not give 6");
                if (std::string(e.GetIRCode()) != ir0) bad("another engine has other IR than alone");
                std::string art;
                if (!e.SaveCompiled(&art).ok() || art.size() != art0.size()) bad("another engine saves another artifact than alone");
                ExecEngine l;
                if (!l.LoadCompiled(art, reg).ok() || !l.Execute(nullptr, &r).ok() || !Same(FromRet(r), N(kI64, 6))) bad("a loaded engine does not give 6");
                break;
              }
              case 3: {  // failures of every kind
                if (ab.BuildExpression("1i64 + ;", &n).ok() || ab.BuildPipeline("when { }", &n).ok()) bad("a wrong text is accepted");
                ExecEngine e;
                RetType r;
                if (!ab.BuildExpression("nosuch(1);", &n).ok() || e.Compile(n, reg).ok() || e.Execute(nullptr, &r).ok() || e.LoadCompiled("junk", reg).ok()) bad("a wrong program is accepted");
                break;
              }
              case 4: {  // a long text, strings, comments
                std::string s = "/* a\n b */ 'x' + \"y\"";
                for (int k = 0; k < 50; k++) s += " + 'k" + std::to_string(k) + "'";
                if (!ab.BuildExpression(s + ";", &n).ok()) bad("a text is refused");
                break;
              }
              case 5: {
                auto r2 = YRegistry();
                FunctionSignature sg("f", {kI64}, kI64);
                if (!r2->RegisterReadOnlyCFunc(sg, (void*)Pick<int64_t>).ok()) bad("a registration is refused");
                jitfusion::FunctionStructure fs;
                FunctionSignature s1("f", {kI64}, T::kUnknown);
                if (reg->GetFuncBySign(s1, &fs).ok()) bad("another registry knows of a registration");
                break;
              }
              case 6: {
                athena::AthenaPipeline pl;
                Recorder rec;
                if (!pl.Compile({"a = 1i64; st_i64(output, 1, a);", "st_string(output, 2, 'b' + 'c');"}, reg).ok() || !pl.Execute(static_cast<void*>(&in2[0]->in), static_cast<void*>(&rec)).ok() || rec.log.size() != 2) bad("a pipeline does not store twice");
                break;
              }
              case 7: {
                ExecContext x(16);
                for (int k = 0; k < 20; k++) (void)x.arena.Allocate(1000);
                x.AddError("elsewhere");
                x.Clear();
                break;
              }
              default: {
                BatchExecEngine e(so);
                std::vector<std::unique_ptr<ExecNode>> ns(2);
                std::vector<RetType> rs;
                if (!ab.BuildExpression("'p' + 'q';", &ns[0]).ok() || !ab.BuildExpression("1.5 + 2.5;", &ns[1]).ok() || !e.Compile(ns, reg).ok() || !e.ExecuteAll(nullptr, &rs).ok() || rs.size() != 2) bad("another batch gives no two results");
              }
            }
          };
          {
            ExecEngine e(so);
            std::unique_ptr<ExecNode> n;
            athena::ProgramAstBuilder ab;
            if (!ab.BuildExpression("1i64 + Len(['x', 'y']) + if(true, 3i64, 4i64);", &n).ok() || !e.Compile(n, reg).ok() || !e.SaveCompiled(&art0).ok()) Die("saved");
            ir0 = e.GetIRCode();
          }
          other.Exec(0, nullptr, in2[0]->in, &alone2);
          // the program, with calls that stop while code is generated around its own
          std::string src = kProgs[p].pipe ? "g0 = yg(1i64); " + std::string(kProgs[p].src) + " g1 = yg(g0 + 1i64); st_i64(output, 9, g1);"
                                           : "pick(" + std::string(kProgs[p].src).substr(0, strlen(kProgs[p].src) - 1) + ", yg(1i64) + yg(2i64));";
          Prog pr{src.c_str(), kProgs[p].pipe};
          std::unique_ptr<Engine> e;
          int calls = 0, n = 1;
          {
            e = std::make_unique<Engine>(std::vector<Prog>{pr}, reg, true);
            calls = Within([&] { e->Exec(0, nullptr, in[0]->in, &alone); }, nullptr, -1);
          }
          for (int at = 0; at < n && msg.empty(); at++) {
            got = Made{}, got2 = alone2;
            if (kind) {
              n = Within([&] { e = std::make_unique<Engine>(std::vector<Prog>{pr}, reg, at % 2 == 0); }, [&] { Within(act, nullptr, -1); }, at);
              if (n != 2) Die("the generator runs " + std::to_string(n) + " times");
              e->Exec(0, nullptr, in[0]->in, &got);
            } else {
              n = calls;
              Within([&] { e->Exec(0, nullptr, in[0]->in, &got); }, [&] { Within(act, nullptr, -1); }, at);
            }
            c.Transition();
            c.Eval(2);
            if (auto x = Differ(got, alone); msg.empty() && !x.empty()) msg = "the program: " + x;
            if (auto x = Differ(got2, alone2); msg.empty() && !x.empty()) msg = "the one in the middle of it: " + x;
            if (!msg.empty()) msg += ", at " + std::to_string(at) + ": " + src;
          }
          c.Trace(1);
          if (!msg.empty()) c.Fail(msg);
        }
}
// two engines compiled on two threads at once, from one registry or from two
void TwoCompiles(vf::Ctx& c) {
  for (int p = 0; p < kN; p++)
    for (int q = p; q < kN; q++)
      if (c.Begin([&] { return "programs " + std::to_string(p) + " and " + std::to_string(q) + " compiled on two threads"; })) {
        if (!thorough && (q - p) % 4 != 0 && q - p != 1) continue;
        auto reg = YRegistry(), reg2 = YRegistry();
        for (auto* r : {&reg, &reg2})
          if (!(*r)->RegisterLLVMIntrinicFunc(FunctionSignature("yg", {kI64}, kI64), YieldGen).ok()) Die("yg");
        std::string src[2];
        Prog pr[2];
        std::vector<std::unique_ptr<Inputs>> in[2] = {MakeInputs(0), MakeInputs(1)};
        Made alone[2], made[2];
        for (int t = 0; t < 2; t++) {
          auto& o = kProgs[t ? q : p];
          src[t] = o.pipe ? "g0 = yg(1i64); " + std::string(o.src) + " st_i64(output, 9, g0);" : "pick(" + std::string(o.src).substr(0, strlen(o.src) - 1) + ", yg(1i64));";
          pr[t] = {src[t].c_str(), o.pipe};
        }
        auto run = [&](int t, Made* m, bool yields) {
          (void)yields;
          Engine e({pr[t]}, t && q % 2 ? reg2 : reg, (p + t) % 2 == 0);
          int me = tl_id;
          tl_id = -1;  // switches inside executions are explored elsewhere
          e.Exec(0, nullptr, in[t][0]->in, m);
          tl_id = me;
        };
        for (int t = 0; t < 2; t++) run(t, &alone[t], false), g_body[t] = [&, t] { Yield(), run(t, &made[t], true), Yield(); };
        auto n = AllSchedules(
            c, 2, [&] { made[0] = made[1] = Made{}; },
            [&]() -> std::string {
              for (int t = 0; t < 2; t++)
                if (auto d = Differ(made[t], alone[t]); !d.empty()) return src[t] + ": " + d;
              return "";
            });
        c.Eval(n * 2), c.Trace(n), c.Extra("schedules", n);
        g_body[0] = g_body[1] = nullptr;
      }
}
void Body(vf::Ctx& c, const std::string& mode) {
  thorough = c.thorough;
  if (mode != "C25") return;
  g_pool = new Pool();
  Threads(c);
  FrontEnds(c);
  BuiltIns(c);
  if (!kTsan) Compiles(c), NestedRuns(c), TwoCompiles(c);
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
