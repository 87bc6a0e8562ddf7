// Exhaustive-enumeration framework: every shard process walks the same enumeration in the same order;
// a shared counter hands each unit of it to exactly one shard.  A crash or a hang of a shard is attributed
// to the unit it was in.  Nothing is sampled: a run that ends normally has executed every unit.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

constexpr int kMaxShards = 64;
constexpr int kHangSeconds = 120;

struct Slot {
  std::atomic<uint64_t> beat;
  char key[6000];
  char sub[6000];
};
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<uint64_t> fails;
  Slot slots[kMaxShards];
};

inline uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t Hash(const std::string& s, uint64_t h = 1469598103934665603ULL) { return Hash(s.data(), s.size(), h); }

inline std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

class Ctx {
 public:
  bool thorough = false;
  std::string only;
  bool only_mode = false;
  int shard = 0;
  Shared* sh = nullptr;

  // Opens the next unit of the enumeration; false if another shard has it.
  template <class F>
  bool Begin(F&& keyfn) {
    uint64_t i = idx_++;
    if (only_mode) {
      std::string k = keyfn();
      if (k != only) return false;
      SetKey(k);
      units_++;
      return true;
    }
    if (sh->fails.load() > 40) return false;
    if (!claimed_) {
      next_ = sh->next.fetch_add(1);
      claimed_ = true;
    }
    if (i != next_) return false;
    claimed_ = false;
    SetKey(keyfn());
    units_++;
    return true;
  }
  bool Begin(const char* k) {
    return Begin([&] { return std::string(k); });
  }
  void Sub(const std::string& s) {
    auto& sl = sh->slots[shard];
    size_t n = std::min(s.size(), sizeof(sl.sub) - 1);
    memcpy(sl.sub, s.data(), n);
    sl.sub[n] = 0;
    sl.beat++;
  }
  void Beat() { sh->slots[shard].beat++; }
  void Fail(const std::string& msg) {
    if (fails_.size() < 8) fails_.emplace_back(key_, msg);
    sh->fails++;
    nfails_++;
  }
  bool Check(bool ok, const std::function<std::string()>& msg) {
    if (!ok) Fail(msg());
    return ok;
  }
  void Eval(uint64_t n = 1) { evals_ += n; }
  // a distinct, non-trivial outcome (by the driver's rule)
  void Outcome(uint64_t h) {
    if (outcomes_.size() < 4000000) outcomes_.insert(h);
  }
  void Outcome(const std::string& s) { Outcome(Hash(s)); }
  void State(uint64_t h) { states_.insert(h); }
  void State(const std::string& s) { states_.insert(Hash(s)); }
  void Transition(uint64_t n = 1) { transitions_ += n; }
  void Trace(uint64_t n = 1) { traces_ += n; }
  void Extra(const std::string& name, uint64_t n = 1) { extra_[name] += n; }
  void Sample(const std::string& s) {
    if (samples_.size() < 6) samples_.push_back(s.substr(0, 600));
  }
  // keeps at most n samples with this tag
  void SampleOf(const std::string& tag, const std::string& s) {
    if (tags_.insert(tag).second && samples_.size() < 12) samples_.push_back(tag + ": " + s.substr(0, 600));
  }

  void Dump(const std::string& path) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) _exit(3);
    fprintf(f, "evals %llu\nunits %llu\ntransitions %llu\ntraces %llu\nnfails %llu\n", (unsigned long long)evals_,
            (unsigned long long)units_, (unsigned long long)transitions_, (unsigned long long)traces_,
            (unsigned long long)nfails_);
    for (auto& [k, v] : extra_) fprintf(f, "extra %s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto& s : samples_) fprintf(f, "sample %s\n", JsonEsc(s).c_str());
    for (auto& [k, m] : fails_) fprintf(f, "failkey %s\nfailmsg %s\n", JsonEsc(k).c_str(), JsonEsc(m).c_str());
    fprintf(f, "done\n");
    fclose(f);
    f = fopen((path + ".bin").c_str(), "wb");
    uint64_t n = outcomes_.size();
    fwrite(&n, 8, 1, f);
    for (auto h : outcomes_) fwrite(&h, 8, 1, f);
    n = states_.size();
    fwrite(&n, 8, 1, f);
    for (auto h : states_) fwrite(&h, 8, 1, f);
    fclose(f);
  }

 private:
  void SetKey(const std::string& k) {
    key_ = k;
    auto& sl = sh->slots[shard];
    size_t n = std::min(k.size(), sizeof(sl.key) - 1);
    memcpy(sl.key, k.data(), n);
    sl.key[n] = 0;
    sl.sub[0] = 0;
    sl.beat++;
  }
  uint64_t idx_ = 0, next_ = 0;
  bool claimed_ = false;
  uint64_t evals_ = 0, units_ = 0, transitions_ = 0, traces_ = 0, nfails_ = 0;
  std::string key_;
  std::unordered_set<uint64_t> outcomes_, states_;
  std::unordered_set<std::string> tags_;
  std::map<std::string, uint64_t> extra_;
  std::vector<std::string> samples_;
  std::vector<std::pair<std::string, std::string>> fails_;
};

inline std::string JsonUnesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      if (s[i + 1] == 'u') {
        o += static_cast<char>(strtol(s.substr(i + 2, 4).c_str(), nullptr, 16));
        i += 5;
      } else {
        o += s[++i];
      }
    } else {
      o += s[i];
    }
  }
  return o;
}

// usage: driver --out FILE [--tier quick|thorough] [--shards N] [--mode M] [--only KEY]
inline int Main(int argc, char** argv, const std::function<void(Ctx&, const std::string& mode)>& body) {
  std::string out = "/dev/null", tier = "quick", mode, only;
  bool only_mode = false;
  int shards = 8;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") out = v;
    if (a == "--tier") tier = v;
    if (a == "--mode") mode = v;
    if (a == "--shards") shards = atoi(v.c_str());
    if (a == "--only") only = v, only_mode = true;
    if (a == "--only-esc") only = JsonUnesc(v), only_mode = true;
  }
  if (only_mode) shards = 1;
  auto* sh = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char tmpl[] = "/tmp/vfXXXXXX";
  std::string dir = mkdtemp(tmpl);
  auto t0 = std::chrono::steady_clock::now();
  std::vector<pid_t> pids(shards);
  std::vector<bool> hung(shards, false);
  fflush(stdout);
  for (int s = 0; s < shards; s++) {
    pids[s] = fork();
    if (pids[s] == 0) {
      struct rlimit rl {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      Ctx c;
      c.thorough = tier == "thorough";
      c.only = only;
      c.only_mode = only_mode;
      c.shard = s;
      c.sh = sh;
      body(c, mode);
      c.Dump(dir + "/" + std::to_string(s));
      fflush(stdout);
      _exit(0);
    }
  }
  std::vector<uint64_t> last(shards, 0);
  std::vector<double> since(shards, 0);
  std::vector<int> st(shards, -1);
  int live = shards;
  while (live > 0) {
    usleep(20000);
    double now = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    for (int s = 0; s < shards; s++) {
      if (st[s] != -1) continue;
      int w;
      if (waitpid(pids[s], &w, WNOHANG) == pids[s]) {
        st[s] = w;
        live--;
        continue;
      }
      uint64_t b = sh->slots[s].beat.load();
      if (b != last[s]) {
        last[s] = b;
        since[s] = now;
      } else if (now - since[s] > kHangSeconds) {
        hung[s] = true;
        kill(pids[s], SIGKILL);
      }
    }
  }
  uint64_t evals = 0, units = 0, trans = 0, traces = 0, nfails = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, std::string>> fails;
  std::unordered_set<uint64_t> outcomes, states;
  for (int s = 0; s < shards; s++) {
    std::string p = dir + "/" + std::to_string(s);
    FILE* f = fopen(p.c_str(), "r");
    bool done = false;
    if (f) {
      char* line = nullptr;
      size_t cap = 0;
      ssize_t n;
      std::string fk;
      while ((n = getline(&line, &cap, f)) > 0) {
        std::string l(line, n - 1);
        auto sp = l.find(' ');
        std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "evals") evals += strtoull(v.c_str(), 0, 10);
        if (k == "units") units += strtoull(v.c_str(), 0, 10);
        if (k == "transitions") trans += strtoull(v.c_str(), 0, 10);
        if (k == "traces") traces += strtoull(v.c_str(), 0, 10);
        if (k == "nfails") nfails += strtoull(v.c_str(), 0, 10);
        if (k == "extra") {
          auto q = v.rfind(' ');
          extra[v.substr(0, q)] += strtoull(v.c_str() + q + 1, 0, 10);
        }
        if (k == "sample" && samples.size() < 12) samples.push_back(v);
        if (k == "failkey") fk = v;
        if (k == "failmsg") fails.emplace_back(fk, v);
        if (k == "done") done = true;
      }
      free(line);
      fclose(f);
      f = fopen((p + ".bin").c_str(), "rb");
      if (f) {
        uint64_t n2, h;
        for (auto* set : {&outcomes, &states}) {
          if (fread(&n2, 8, 1, f) != 1) break;
          for (uint64_t i = 0; i < n2; i++) {
            if (fread(&h, 8, 1, f) != 1) break;
            set->insert(h);
          }
        }
        fclose(f);
      }
    }
    if (!done || st[s] != 0) {
      std::string why = hung[s] ? "hang: no progress for " + std::to_string(kHangSeconds) + " s"
                        : WIFSIGNALED(st[s])
                            ? "crash: signal " + std::to_string(WTERMSIG(st[s])) + " (" + strsignal(WTERMSIG(st[s])) + ")"
                            : "abnormal exit, status " + std::to_string(WEXITSTATUS(st[s]));
      std::string sub = sh->slots[s].sub;
      if (!sub.empty()) why += " at " + sub;
      fails.emplace_back(JsonEsc(sh->slots[s].key), JsonEsc(why));
      nfails++;
    }
    unlink(p.c_str());
    unlink((p + ".bin").c_str());
  }
  rmdir(dir.c_str());
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 3;
  fprintf(f,
          "{\"evaluations\": %llu, \"units\": %llu, \"transitions\": %llu, \"traces\": %llu, \"distinct\": %zu, "
          "\"states\": %zu, \"nfails\": %llu,\n \"extra\": {",
          (unsigned long long)evals, (unsigned long long)units, (unsigned long long)trans, (unsigned long long)traces,
          outcomes.size(), states.size(), (unsigned long long)nfails);
  bool first = true;
  for (auto& [k, v] : extra) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", JsonEsc(k).c_str(), (unsigned long long)v);
    first = false;
  }
  fprintf(f, "},\n \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", samples[i].c_str());
  fprintf(f, "],\n \"failures\": [");
  for (size_t i = 0; i < fails.size() && i < 40; i++)
    fprintf(f, "%s{\"key\": \"%s\", \"msg\": \"%s\"}", i ? ",\n  " : "", fails[i].first.c_str(), fails[i].second.c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}

}  // namespace vf
