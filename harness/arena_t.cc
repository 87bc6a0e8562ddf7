// C19: every sequence of arena operations up to a depth, on the real Arena, with the heap under control: each block must
// lie inside heap memory the arena obtained and has not given back, and a refused heap request must surface as null.
#include <dlfcn.h>
#include <malloc.h>
#include "arena.h"
#include "exec_options.h"
#include "vf.h"

// ------------------------------------------------------------- the heap, watched while an arena operation runs
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace heap {
struct Blk {
  uintptr_t p;
  size_t n;
};
constexpr int kMax = 4096;
Blk blks[kMax];
int nblks = 0;
bool watch = false;    // inside an arena operation
bool in_new = false;   // called by operator new
int fail_after = -1;   // raw request number to refuse, -1 = none
bool refused = false;
uint64_t bad = 0;      // double or foreign releases
uint64_t live = 0;
void Add(void* p, size_t n) {
  if (!p || nblks >= kMax) return;
  blks[nblks++] = {reinterpret_cast<uintptr_t>(p), n};
  live += n;
}
bool Del(void* p) {
  for (int i = nblks - 1; i >= 0; i--)
    if (blks[i].p == reinterpret_cast<uintptr_t>(p)) {
      live -= blks[i].n;
      memset(p, 0xDD, blks[i].n);
      blks[i] = blks[--nblks];
      return true;
    }
  return false;
}
bool Owns(const void* q, size_t n) {
  auto a = reinterpret_cast<uintptr_t>(q);
  for (int i = 0; i < nblks; i++)
    if (a >= blks[i].p && n <= blks[i].n && a - blks[i].p <= blks[i].n - n) return true;
  return false;
}
bool Refuse() {
  if (in_new || fail_after < 0) return false;
  if (fail_after-- > 0) return false;
  refused = true;
  return true;
}
void* Get(size_t n, size_t align) {
  if (watch && Refuse()) return nullptr;
  void* p = align ? __libc_memalign(align, n ? n : 1) : __libc_malloc(n ? n : 1);
  if (watch) {
    memset(p, 0xCD, n);
    Add(p, n);
  }
  return p;
}
}  // namespace heap
extern "C" {
void* malloc(size_t n) { return heap::watch ? heap::Get(n, 0) : __libc_malloc(n); }
void free(void* p) {
  if (p && heap::watch && !heap::Del(p)) {
    heap::bad++;  // reported; releasing it again would end the process
    return;
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (heap::watch) {
    void* p = heap::Get(a * b, 0);
    if (p) memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void* realloc(void* q, size_t n) {
  if (heap::watch) {
    void* p = heap::Get(n, 0);
    if (p && q) {
      size_t m = malloc_usable_size(q);
      memcpy(p, q, m < n ? m : n);
      free(q);
    }
    return p;
  }
  return __libc_realloc(q, n);
}
void* memalign(size_t a, size_t n) { return heap::watch ? heap::Get(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) {
  *o = memalign(a, n);
  return *o ? 0 : 12;
}
}
void* operator new(size_t n) {
  heap::in_new = true;
  void* p = malloc(n ? n : 1);
  heap::in_new = false;
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
using jitfusion::Arena;

struct Watch {
  Watch() { heap::watch = true; }
  ~Watch() { heap::watch = false; }
};

// ------------------------------------------------------------- objects
std::vector<int>* log_ = nullptr;  // destructions seen, in order
uint64_t corrupt = 0;              // objects whose content changed before their destruction
struct Quiet {
  bool w = heap::watch;
  Quiet() { heap::watch = false; }
  ~Quiet() { heap::watch = w; }
};
template <size_t N, size_t A>
struct alignas(A) Obj {
  int id;
  Obj* prev;
  char pad[N];
  Obj(int i, Obj* p) : id(i), prev(p) { memset(pad, 0x30 + i, N); }
  ~Obj() {
    Quiet q;
    bool ok = true;
    for (char c : pad) ok = ok && c == 0x30 + id;
    if (!ok) corrupt++;
    if (ok && prev && prev->id <= 0) corrupt++;  // the older object must still be alive
    log_->push_back(id);
    id = -1;
  }
};
struct Thrower {
  int id;
  explicit Thrower(int i) : id(i) { throw 1; }
  ~Thrower() {
    Quiet q;
    log_->push_back(-100 - id);
  }
};
struct Plain {
  int64_t a, b;
};

enum Kind { kAlloc, kObjS, kObjL, kObjA, kPlain, kThrow, kReset, kFault };
struct Op {
  Kind k;
  size_t n, al;
};
std::string Show(const Op& o) {
  switch (o.k) {
    case kAlloc: return "Allocate(" + std::to_string(o.n) + "," + std::to_string(o.al) + ")";
    case kObjS: return "Create<small>";
    case kObjL: return "Create<large>";
    case kObjA: return "Create<align64>";
    case kPlain: return "Create<trivial>";
    case kThrow: return "Create<throwing>";
    case kReset: return "Reset";
    case kFault: return "heap-refuses-next+Allocate(" + std::to_string(o.n) + "," + std::to_string(o.al) + ")";
  }
  return "?";
}

struct Block {
  uint8_t* p;
  size_t n;
  uint8_t fill;
  bool obj;
};

// runs one sequence; empty string when every step is as it must be
struct Run {
  vf::Ctx& c;
  size_t chunk;
  explicit Run(vf::Ctx& cc, size_t ch) : c(cc), chunk(ch) {}
  std::vector<Block> live;
  std::vector<int> objs, seen;  // ids alive, in creation order; destructions seen
  Obj<4, 8>* lastS = nullptr;
  Obj<200, 8>* lastL = nullptr;
  Obj<40, 64>* lastA = nullptr;
  int next_id = 1;
  size_t first_chunk = 0;
  size_t threw = 0;

  std::string Block_(uint8_t* p, size_t n, size_t al, bool obj) {
    if (!p) return "null for " + std::to_string(n) + " bytes";
    if (reinterpret_cast<uintptr_t>(p) % al) return "misaligned block";
    if (!heap::Owns(p, n)) return "block outside the memory the arena owns";
    for (auto& b : live)
      if (p < b.p + b.n && b.p < p + n) return "block overlaps an earlier one";
    Block b{p, n, static_cast<uint8_t>(0x80 + live.size() * 7), obj};
    if (!obj) memset(p, b.fill, n);
    live.push_back(b);
    return "";
  }
  std::string Intact() {
    for (auto& b : live) {
      if (!heap::Owns(b.p, b.n)) return "a live block's memory was given back";
      if (b.obj) continue;
      for (size_t i = 0; i < b.n; i++)
        if (b.p[i] != b.fill) return "a live block's content changed";
    }
    return "";
  }
  template <class O>
  std::string Make(Arena& a, O** last) {
    int id = next_id++;
    O* o;
    {
      Watch w;
      o = a.Create<O>(id, *last);
    }
    auto e = Block_(reinterpret_cast<uint8_t*>(o), sizeof(O), alignof(O), true);
    if (!e.empty()) return e;
    if (o->id != id || o->prev != *last) return "object not constructed as asked";
    *last = o;
    objs.push_back(id);
    return "";
  }
  std::string Destroyed(const char* when) {
    std::vector<int> want(objs.rbegin(), objs.rend());
    if (seen != want) return std::string("objects destroyed at ") + when + " not exactly once each in reverse order";
    if (corrupt) return "an object's content changed before its destruction";
    objs.clear();
    seen.clear();
    live.clear();
    lastS = nullptr, lastL = nullptr, lastA = nullptr;
    return "";
  }
  std::string Step(Arena& a, const Op& o) {
    switch (o.k) {
      case kAlloc: {
        uint8_t* p;
        {
          Watch w;
          p = a.Allocate(o.n, o.al);
        }
        if (o.n == 0) return p ? "non-null for zero bytes" : "";
        return Block_(p, o.n, o.al, false);
      }
      case kFault: {
        uint8_t* p;
        heap::fail_after = 0;
        heap::refused = false;
        {
          Watch w;
          p = a.Allocate(o.n, o.al);
        }
        heap::fail_after = -1;
        if (heap::refused) return p ? "a block although the heap refused" : "";
        return Block_(p, o.n, o.al, false);
      }
      case kObjS: return Make(a, &lastS);
      case kObjL: return Make(a, &lastL);
      case kObjA: return Make(a, &lastA);
      case kPlain: {
        Plain* p;
        {
          Watch w;
          p = a.Create<Plain>(Plain{int64_t(11), int64_t(-12)});
        }
        auto e = Block_(reinterpret_cast<uint8_t*>(p), sizeof(Plain), alignof(Plain), true);
        return e.empty() && (p->a != 11 || p->b != -12) ? "trivial object not constructed" : e;
      }
      case kThrow: {
        bool t = false;
        {
          Watch w;
          try {
            a.Create<Thrower>(next_id++);
          } catch (int) {
            t = true;
          }
        }
        threw++;
        return t ? "" : "an exception of a constructor was swallowed";
      }
      case kReset: {
        {
          Watch w;
          a.Reset();
        }
        auto e = Destroyed("reset");
        if (!e.empty()) return e;
        if (first_chunk && a.total_bytes() > first_chunk) return "memory after a reset exceeds the first chunk";
        // vectors of the arena itself may keep their capacity
        if (heap::live > first_chunk + 8192) return "heap memory after a reset exceeds the first chunk";
        return "";
      }
    }
    return "";
  }
  std::string Sequence(const std::vector<Op>& ops, bool count) {
    corrupt = 0;
    heap::bad = 0;
    heap::nblks = 0;
    heap::live = 0;
    std::string e;
    size_t done = 0;
    log_ = &seen;
    seen.reserve(64);
    {
      alignas(Arena) char mem[sizeof(Arena)];
      Arena* a;
      {
        Watch w;
        a = new (mem) Arena(chunk);
      }
      for (auto& o : ops) {
        done++;
        size_t before = a->total_bytes();
        e = Step(*a, o);
        if (e.empty() && o.k != kReset && !seen.empty()) e = "an object destroyed before a reset";
        if (e.empty()) e = Intact();
        if (e.empty() && heap::bad) e = "memory released that was not held";
        if (e.empty() && a->total_bytes() > heap::live) e = "total_bytes exceeds the memory held";
        if (e.empty() && a->avail_bytes() > a->total_bytes()) e = "avail_bytes exceeds total_bytes";
        if (e.empty() && o.k != kReset && a->total_bytes() < before) e = "total_bytes shrank without a reset";
        if (!e.empty()) break;
        if (!first_chunk) first_chunk = a->total_bytes();
        if (count) {
          uint64_t st[5] = {chunk, a->total_bytes(), a->avail_bytes(), live.size(), objs.size()};
          c.State(vf::Hash(st, sizeof st));
        }
      }
      if (e.empty()) {
        {
          Watch w;
          a->~Arena();
        }
        e = Destroyed("destruction");
        if (e.empty() && heap::bad) e = "memory released that was not held";
        if (e.empty() && heap::nblks) e = "memory not given back at destruction";
      }
    }
    if (e.empty()) return "";
    std::string s;
    for (size_t i = 0; i < done; i++) s += (i ? " " : "") + Show(ops[i]);
    return "arena with chunks of " + std::to_string(chunk) + ": after " + s + ": " + e;
  }
};

// Copies and handovers: where the type offers one, whatever becomes of the two arenas afterwards, every object is destroyed
// once, every block of an arena that is still there stays as it was, and all memory is given back once.
enum Hand { kCopyMake, kCopyAssign, kMoveMake, kMoveAssign, kSelfMove, kSelfCopy, kHands };
const char* hands[] = {"copy construction", "copy assignment", "move construction", "move assignment", "move to itself", "assignment to itself"};
template <class A>
bool Offers(Hand h) {
  switch (h) {
    case kCopyMake: return std::is_copy_constructible_v<A>;
    case kCopyAssign:
    case kSelfCopy: return std::is_copy_assignable_v<A>;
    case kMoveMake: return std::is_move_constructible_v<A>;
    default: return std::is_move_assignable_v<A>;
  }
}
template <class A>
void HandOver(Hand h, A* from, A* to, void* raw) {
  if constexpr (std::is_copy_constructible_v<A>)
    if (h == kCopyMake) new (raw) A(static_cast<const A&>(*from));
  if constexpr (std::is_copy_assignable_v<A>)
    if (h == kCopyAssign || h == kSelfCopy) *to = static_cast<const A&>(*from);
  if constexpr (std::is_move_constructible_v<A>)
    if (h == kMoveMake) new (raw) A(std::move(*from));
  if constexpr (std::is_move_assignable_v<A>)
    if (h == kMoveAssign || h == kSelfMove) *to = std::move(*from);
}
// first: what the source holds; second: what an assigned one held; third and fourth: done with destination and source afterwards
template <class A>
std::string Handing(size_t chunk, Hand h, const std::vector<Op>& first, const std::vector<Op>& second, const std::vector<Op>& third, const std::vector<Op>& fourth, bool source_first, vf::Ctx& c) {
  corrupt = 0, heap::bad = 0, heap::nblks = 0, heap::live = 0;
  std::vector<int> seen;
  seen.reserve(256);
  log_ = &seen;
  alignas(A) char m1[sizeof(A)], m2[sizeof(A)];
  Run r1(c, chunk), r2(c, chunk), r3(c, chunk), r4(c, chunk);
  r2.next_id = 12, r3.next_id = 24, r4.next_id = 36;
  bool self = h == kSelfMove || h == kSelfCopy, make = h == kCopyMake || h == kMoveMake;
  bool copy = h == kCopyMake || h == kCopyAssign;
  auto make_one = [&](char* m) {
    Watch w;
    return new (m) A(chunk);
  };
  A* a = make_one(m1);
  A* b = self ? a : make ? reinterpret_cast<A*>(m2) : make_one(m2);
  std::string e;
  std::vector<int> made;
  auto steps = [&](Run& r, A* x, const std::vector<Op>& ops) {
    for (auto& o : ops) {
      if (e.empty()) e = r.Step(*x, o);
      if (e.empty()) e = r.Intact();
      if (e.empty() && heap::bad) e = "memory released that was not held";
    }
  };
  steps(r1, a, first);
  if (!self && !make) steps(r2, b, second);
  if (!e.empty()) return e;
  {
    Watch w;
    HandOver<A>(h, a, b, m2);
  }
  // the blocks of the source now live as long as the destination (after a copy: as long as the source)
  e = r1.Intact();
  if (e.empty() && heap::bad) e = "memory released that was not held";
  for (int id : r1.objs)
    if (std::find(seen.begin(), seen.end(), id) != seen.end()) e = "an object destroyed by the handover";
  r3.live = r1.live;  // later blocks must not overlap the earlier ones
  steps(r3, b, third);
  r4.live = r3.live;
  if (!self) steps(r4, a, fourth);
  if (e.empty()) e = r1.Intact();
  auto end = [&](A* x) {
    Watch w;
    x->~A();
  };
  if (e.empty()) {
    if (self) {
      end(a);
    } else {
      end(source_first ? a : b);
      if (heap::bad) e = "memory released that was not held";
      Run left(c, chunk);  // what the remaining one holds
      if (source_first == !copy) left.live = r1.live;
      size_t from = source_first ? r1.live.size() : r3.live.size();
      auto& own = (source_first ? r3 : r4).live;
      left.live.insert(left.live.end(), own.begin() + static_cast<long>(std::min(from, own.size())), own.end());
      if (e.empty()) e = left.Intact();
      if (e.empty()) end(source_first ? b : a);
    }
  }
  if (e.empty() && heap::bad) e = "memory released that was not held";
  if (e.empty() && corrupt) e = "an object's content changed before its destruction";
  if (e.empty() && heap::nblks) e = "memory not given back";
  if (e.empty()) {
    for (Run* r : {&r1, &r2, &r3, &r4}) made.insert(made.end(), r->objs.begin(), r->objs.end());
    std::sort(made.begin(), made.end());
    std::sort(seen.begin(), seen.end());
    if (made != seen) e = "objects not destroyed exactly once each";
  }
  heap::nblks = 0;
  return e;
}
// contexts kept in a growing vector
template <class X>
std::string Growing(size_t chunk, const std::vector<Op>& ops, size_t n, vf::Ctx& c) {
  if constexpr (!std::is_move_constructible_v<X>) return "";
  else {
    corrupt = 0, heap::bad = 0, heap::nblks = 0, heap::live = 0;
    std::vector<int> seen, made;
    seen.reserve(256);
    log_ = &seen;
    std::string e;
    std::vector<Run> rs;
    rs.reserve(n);
    {
      alignas(std::vector<X>) char m[sizeof(std::vector<X>)];
      auto* v = new (m) std::vector<X>;
      for (size_t i = 0; i < n && e.empty(); i++) {
        {
          Watch w;
          v->emplace_back(static_cast<int64_t>(chunk));
        }
        rs.emplace_back(c, chunk);
        rs[i].next_id = static_cast<int>(1 + i * 6);
        for (auto& o : ops)
          if (e.empty()) e = rs[i].Step((*v)[i].arena, o);
        for (auto& r : rs)
          if (e.empty()) e = r.Intact();
        if (e.empty() && !seen.empty()) e = "an object destroyed while its context is there";
        if (e.empty() && heap::bad) e = "memory released that was not held";
      }
      if (e.empty()) {
        Watch w;
        v->~vector();
      }
    }
    if (e.empty() && heap::bad) e = "memory released that was not held";
    if (e.empty() && corrupt) e = "an object's content changed before its destruction";
    if (e.empty() && heap::nblks) e = "memory not given back";
    for (auto& r : rs) made.insert(made.end(), r.objs.begin(), r.objs.end());
    std::sort(made.begin(), made.end());
    std::sort(seen.begin(), seen.end());
    if (e.empty() && made != seen) e = "objects not destroyed exactly once each";
    heap::nblks = 0;
    return e;
  }
}
std::string ShowAll(const std::vector<Op>& v) {
  std::string s;
  for (auto& o : v) s += (s.empty() ? "" : " ") + Show(o);
  return s.empty() ? "nothing" : s;
}
void Handovers(vf::Ctx& c) {
  for (size_t ch : {1, 16, 100, 4096}) {
    std::vector<Op> al = {{kAlloc, 8, 8}, {kAlloc, ch + 1, 8}, {kAlloc, 3, 1}, {kObjS, 0, 0}, {kObjL, 0, 0}, {kObjA, 0, 0}, {kReset, 0, 0}};
    std::vector<std::vector<Op>> upto2{{}}, upto1{{}};
    for (auto& x : al)
      if (x.k != kReset) upto1.push_back({x}), upto2.push_back({x});
    for (auto& x : al)
      for (auto& y : al)
        if (x.k != kReset && y.k != kReset) upto2.push_back({x, y});
    upto2.push_back({{kObjS, 0, 0}, {kObjL, 0, 0}, {kObjS, 0, 0}, {kObjA, 0, 0}});
    for (int h = 0; h < kHands; h++) {
      if (!Offers<Arena>(static_cast<Hand>(h))) continue;
      for (auto& first : upto2) {
        if (!c.Begin([&] { return "chunk " + std::to_string(ch) + ", " + hands[h] + " after " + ShowAll(first); })) continue;
        for (auto& second : upto1) {
          if (h != kCopyAssign && h != kMoveAssign && !second.empty()) continue;
          for (auto& third : upto1)
            for (auto& fourth : upto1) {
              if (h >= kSelfMove && !fourth.empty()) continue;
              for (bool sf : {false, true}) {
                auto e = Handing<Arena>(ch, static_cast<Hand>(h), first, second, third, fourth, sf, c);
                c.Eval();
                c.Transition();
                if (!e.empty())
                  c.Fail("arena with chunks of " + std::to_string(ch) + ": " + hands[h] + " of one holding " + ShowAll(first) + (second.empty() ? "" : " to one holding " + ShowAll(second)) +
                         ", then there " + ShowAll(third) + ", at the source " + ShowAll(fourth) + ", source destroyed " + (sf ? "first" : "last") + ": " + e);
              }
            }
        }
        c.Beat();
      }
    }
    if (c.Begin([&] { return "contexts in a growing vector, chunk " + std::to_string(ch); }))
      for (auto& ops : upto2)
        for (size_t n : {1, 2, 3, 4, 5}) {
          auto e = Growing<jitfusion::ExecContext>(ch, ops, n, c);
          c.Eval();
          if (!e.empty()) c.Fail(std::to_string(n) + " contexts in a growing vector, each doing " + ShowAll(ops) + ": " + e);
        }
  }
}

std::vector<Op> Alphabet(size_t ch, bool wide) {
  std::vector<Op> v;
  std::vector<size_t> sizes{1, 8, ch - 1, ch, ch + 1};
  if (wide) sizes.insert(sizes.end(), {3, ch / 2, ch - 8, 3 * ch + 5});
  std::sort(sizes.begin(), sizes.end());
  sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
  for (size_t n : sizes)
    if (n > 0 && n < (1u << 20)) v.push_back({kAlloc, n, 8});
  v.push_back({kAlloc, 0, 8});
  v.push_back({kAlloc, 5, 1});
  v.push_back({kAlloc, 8, 64});
  if (wide) {
    v.push_back({kAlloc, 1, 1});
    v.push_back({kAlloc, ch, 1});
    v.push_back({kAlloc, 2, 2});
    v.push_back({kAlloc, 6, 16});
    v.push_back({kAlloc, ch, 256});
    v.push_back({kPlain, 0, 0});
  }
  v.push_back({kObjS, 0, 0});
  v.push_back({kObjL, 0, 0});
  v.push_back({kObjA, 0, 0});
  v.push_back({kThrow, 0, 0});
  v.push_back({kFault, ch, 8});
  if (wide) v.push_back({kFault, 1, 1});
  v.push_back({kReset, 0, 0});
  return v;
}

void Body(vf::Ctx& c, const std::string&) {
  size_t chunks[] = {1, 8, 16, 64, 100, 4096};
  for (int wide = 0; wide < 2; wide++)
    for (size_t ch : chunks) {
      auto al = Alphabet(ch, wide);
      size_t depth = wide ? (c.thorough ? 5 : 4) : (c.thorough ? 7 : 5);
      if (ch == 4096 && !wide) depth -= 1;  // filling large blocks is slow
      // units: the first two operations
      for (size_t i = 0; i < al.size(); i++)
        for (size_t j = 0; j < al.size(); j++) {
          if (!c.Begin([&] { return "chunk " + std::to_string(ch) + " wide " + std::to_string(wide) + ": " + Show(al[i]) + " " + Show(al[j]); })) continue;
          std::vector<size_t> x(depth, 0);
          std::vector<Op> ops(depth, al[0]);
          ops[0] = al[i], ops[1] = al[j];
          uint64_t n = 0;
          for (;;) {
            for (size_t k = 2; k < depth; k++) ops[k] = al[x[k]];
            Run r(c, ch);
            auto e = r.Sequence(ops, true);
            n++;
            c.Transition(depth);
            if ((n & 1023) == 0) c.Beat();
            if (!e.empty()) {
              c.Fail(e);
              break;
            }
            size_t k = depth;
            while (k > 2 && ++x[k - 1] == al.size()) x[--k] = 0;
            if (k == 2) break;
          }
          c.Eval(n);
          c.Trace(n);
          if (i == 3 && j == al.size() - 1) {
            std::string s;
            for (auto& o : ops) s += Show(o) + " ";
            c.SampleOf("chunk " + std::to_string(ch), s);
          }
        }
    }
  Handovers(c);
  // long runs: the same operation many times, then reset, twice
  for (size_t ch : chunks)
    for (auto& a : Alphabet(ch, true))
      for (auto& b : Alphabet(ch, true)) {
        if (!c.Begin([&] { return "long run, chunk " + std::to_string(ch) + ": " + Show(a) + " " + Show(b); })) continue;
        std::vector<Op> ops;
        for (int rep = 0; rep < 3; rep++) {
          for (int i = 0; i < 12; i++) ops.push_back(a), ops.push_back(b);
          ops.push_back({kReset, 0, 0});
        }
        Run r(c, ch);
        auto e = r.Sequence(ops, true);
        c.Transition(ops.size());
        c.Eval();
        c.Trace();
        if (!e.empty()) c.Fail(e);
      }
}
}  // namespace
int main(int argc, char** argv) { return vf::Main(argc, argv, Body); }
