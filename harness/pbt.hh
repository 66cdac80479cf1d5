// Minimal property-based testing engine.
//
// Every random choice of a case is drawn from a Gen, which records it on a
// "tape".  A case is a pure function of (code under test, tape), so replaying
// and shrinking work on the tape: delete blocks, zero blocks, lower values.
// Cases run in forked worker processes, so assertion failures, sanitizer
// reports, exits, and hangs of the code under test are failures of the case
// and never of the engine.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline uint64_t splitmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return splitmix(h);
}

constexpr size_t kMaxTape = 1 << 18;
constexpr int kMaxLabels = 96;
constexpr size_t kDistinctSlots = 1 << 20;

// Per worker, in shared memory, so that it survives a crash of the worker.
struct Slot {
  std::atomic<int> in_case;
  std::atomic<int> failed;
  int target;
  uint64_t index;
  uint64_t ntape;
  uint64_t desc_len;
  char msg[8192];
  char desc[16384];
  uint64_t tape[kMaxTape];
};

struct Global {
  std::atomic<int> stop;
  std::atomic<uint64_t> next[64];       // next case index per target
  std::atomic<uint64_t> done[64];       // cases finished per target
  std::atomic<uint64_t> discarded[64];
  std::atomic<uint64_t> nontrivial[64];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> distinct_nt;
  std::atomic<uint64_t> labels_n;
  char label_name[kMaxLabels][64];
  std::atomic<uint64_t> label_count[kMaxLabels];
  std::atomic<int> label_lock;
  std::atomic<uint64_t> seen[kDistinctSlots];
  std::atomic<int> nsamples;
  char samples[12][1600];
};

inline Slot* slot = nullptr;
inline Global* glob = nullptr;

class Gen {
 public:
  bool replay = false;
  const std::vector<uint64_t>* src = nullptr;
  size_t pos = 0;
  std::mt19937_64 rng;

  uint64_t draw(uint64_t n) {  // in [0, n); n == 0 means 64 bits
    uint64_t v;
    if (replay) {
      v = pos < src->size() ? (*src)[pos] : 0;
      if (n && v >= n) v %= n;
    } else {
      v = rng();
      if (n) v %= n;
    }
    ++pos;
    if (slot->ntape < kMaxTape) {
      slot->tape[slot->ntape++] = v;
    } else {
      throw Discard{};
    }
    return v;
  }
  // Inclusive; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
  }
  bool chance(int num, int den) {  // true with probability num/den; shrinks to false
    return (int)draw(den) >= den - num;
  }
  bool coin() { return draw(2) == 1; }
  // Continue a collection?  mean length about `mean`, at most `max`.
  bool more(int mean, int have, int max) {
    if (have >= max) return false;
    return (int)draw(mean + 1) != 0;
  }
  template <class C>
  const typename C::value_type& pick(const C& c) {
    auto it = c.begin();
    std::advance(it, draw(c.size()));
    return *it;
  }
  int weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)draw(tot), i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  double unit() { return (double)draw(1u << 30) / (double)(1u << 30); }
  double log_uniform(double lo, double hi) {
    return std::exp(std::log(lo) + unit() * (std::log(hi) - std::log(lo)));
  }
  uint32_t seed32() { return (uint32_t)draw(1ull << 32); }
};

struct Ctx {
  Gen g;
  std::string desc;
  bool is_nontrivial = false;
  bool thorough = false;
  uint64_t index = 0;
  std::set<std::string> known_ids;
  std::set<std::string> labels;
  double largest = 0;  // for harnesses: the largest number in the case
  // Real latent values were resampled in between: the heavy-tailed values they
  // may have had lost any precision of running sums.
  bool resampled_reals = false;

  void note(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (desc.size() < 15000) desc += buf;
    size_t n = std::min(desc.size(), sizeof(slot->desc) - 1);
    memcpy(slot->desc, desc.data(), n);
    slot->desc[n] = 0;
    slot->desc_len = n;
  }
  void label(const std::string& s) { labels.insert(s); }
  void nontrivial() { is_nontrivial = true; }
  bool known(const std::string& id) const { return known_ids.count(id) > 0; }
  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  void check(bool ok, const std::string& m) {
    if (!ok) throw Fail{m};
  }
};

#define PCHECK(ctx, cond, ...)                                             \
  do {                                                                     \
    if (!(cond))                                                           \
      throw pbt::Fail{pbt::fmt("%s:%d: ", __FILE__ + (std::string(__FILE__).rfind('/') + 1), __LINE__) + \
                      pbt::fmt(__VA_ARGS__)};                              \
  } while (0)

inline bool near(double a, double b, double rel = 1e-8, double abs = 1e-8) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

struct Target {
  std::string name;
  std::function<void(Ctx&)> fn;
  uint64_t quick, thorough;  // number of cases
};

inline std::vector<Target>& targets() {
  static std::vector<Target> t;
  return t;
}
inline std::string& rule_text() {
  static std::string s;
  return s;
}

struct Register {
  Register(const std::string& n, uint64_t q, uint64_t t,
           std::function<void(Ctx&)> f) {
    targets().push_back({n, f, q, t});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY("name", quick_cases, thorough_cases) { ... uses ctx ... }
#define PROPERTY(name, q, t)                                                 \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Ctx & ctx);                    \
  static pbt::Register PBT_CAT(pbt_reg_, __LINE__)(name, q, t,               \
                                                   PBT_CAT(pbt_fn_, __LINE__)); \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Ctx & ctx)

// A listed finding's own reproduction: returns true while it still fails.
struct KnownProbe {
  std::string id;
  std::function<bool()> fn;
};
inline std::vector<KnownProbe>& probes() {
  static std::vector<KnownProbe> p;
  return p;
}
struct RegisterKnown {
  RegisterKnown(const std::string& id, std::function<bool()> f) { probes().push_back({id, f}); }
};
#define KNOWN(id)                                                              \
  static bool PBT_CAT(pbt_known_, __LINE__)();                                 \
  static pbt::RegisterKnown PBT_CAT(pbt_kreg_, __LINE__)(id, PBT_CAT(pbt_known_, __LINE__)); \
  static bool PBT_CAT(pbt_known_, __LINE__)()

// Crashes that follow from a known finding: its id, and a part of the message.
inline std::vector<std::pair<std::string, std::string>>& crashes() {
  static std::vector<std::pair<std::string, std::string>> c;
  return c;
}
struct RegisterCrash {
  RegisterCrash(const std::string& id, const std::string& text) { crashes().push_back({id, text}); }
};

inline void count_labels(const Ctx& c, const std::string& tname) {
  auto bump = [&](const std::string& name) {
    uint64_t n = glob->labels_n.load();
    for (uint64_t i = 0; i < n; ++i) {
      if (name == glob->label_name[i]) {
        glob->label_count[i]++;
        return;
      }
    }
    int e = 0;
    while (!glob->label_lock.compare_exchange_weak(e, 1)) {
      e = 0;
      usleep(10);
    }
    n = glob->labels_n.load();
    uint64_t i = 0;
    for (; i < n; ++i)
      if (name == glob->label_name[i]) break;
    if (i == n && n < kMaxLabels) {
      snprintf(glob->label_name[n], 64, "%s", name.c_str());
      glob->labels_n = n + 1;
    }
    glob->label_lock = 0;
    if (i < kMaxLabels) glob->label_count[i]++;
  };
  for (const auto& l : c.labels) bump((tname + ":" + l).substr(0, 63));
}

inline bool mark_distinct(uint64_t h) {
  if (h == 0) h = 1;
  for (size_t k = 0; k < 64; ++k) {
    size_t i = (h + k) & (kDistinctSlots - 1);
    uint64_t cur = glob->seen[i].load();
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t e = 0;
      if (glob->seen[i].compare_exchange_strong(e, h)) return true;
      if (e == h) return false;
    }
  }
  return false;  // table full: not counted
}

struct Options {
  std::string property, evidence, replay_dir = ".", tier = "quick", replay, only;
  uint64_t seed = 1;
  int workers = 8;
  double max_seconds = 0;  // 0 = no cap
  int case_cpu = 40;
  double scale = 1.0;
  std::set<std::string> known;
  std::map<std::string, std::string> known_text;
};
inline Options opt;

// Runs one case in this process.  Returns 0 pass, 1 fail, 2 discard.
inline int run_case(int t, uint64_t index, const std::vector<uint64_t>* tape,
                    uint64_t seed, Ctx* out = nullptr) {
  Ctx ctx;
  ctx.known_ids = opt.known;
  ctx.thorough = opt.tier == "thorough";
  ctx.index = index;
  if (tape) {
    ctx.g.replay = true;
    ctx.g.src = tape;
  } else {
    ctx.g.rng.seed(seed);
  }
  slot->ntape = 0;
  slot->desc_len = 0;
  slot->desc[0] = 0;
  slot->msg[0] = 0;
  slot->target = t;
  slot->index = index;
  slot->in_case = 1;
  int r = 0;
  try {
    targets()[t].fn(ctx);
  } catch (const Fail& f) {
    snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
    r = 1;
  } catch (const Discard&) {
    r = 2;
  } catch (const std::exception& e) {
    snprintf(slot->msg, sizeof slot->msg, "uncaught exception: %s", e.what());
    r = 1;
  }
  slot->in_case = 0;
  if (out) *out = ctx;
  return r;
}

inline uint64_t case_seed(int t, uint64_t index) {
  return splitmix(opt.seed * 0x2545F4914F6CDD1Dull ^
                  splitmix(hash_str(targets()[t].name) + index * 977));
}

inline void arm_cpu_limit(int seconds) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

inline int open_sink(std::string* path) {
  char buf[] = "/tmp/pbt_sink_XXXXXX";
  int fd = mkstemp(buf);
  *path = buf;
  return fd;
}

inline std::string tail_of(int fd, size_t n = 3000) {
  off_t end = lseek(fd, 0, SEEK_END);
  off_t from = end > (off_t)n ? end - (off_t)n : 0;
  std::string s(end - from, 0);
  ssize_t k = pread(fd, s.data(), s.size(), from);
  s.resize(k < 0 ? 0 : k);
  return s;
}
// For sanitizer reports the beginning matters more than the end.
inline std::string interesting(int fd) {
  off_t end = lseek(fd, 0, SEEK_END);
  std::string s(std::min<off_t>(end, 200000), 0);
  ssize_t k = pread(fd, s.data(), s.size(), end - s.size());
  s.resize(k < 0 ? 0 : k);
  for (const char* key : {"ERROR: AddressSanitizer", "runtime error:",
                          "Assertion", "terminate called"}) {
    size_t p = s.rfind(key);
    if (p != std::string::npos) {
      size_t b = s.rfind('\n', p);
      return s.substr(b == std::string::npos ? 0 : b + 1, 1500);
    }
  }
  return s.size() > 600 ? s.substr(s.size() - 600) : s;
}

struct Outcome {
  int kind;  // 0 pass, 1 fail, 2 discard
  std::string msg, desc;
  std::vector<uint64_t> tape;
};

// Runs a tape in a forked child.
inline Outcome run_forked(int t, uint64_t index, const std::vector<uint64_t>* tape,
                          uint64_t seed, int cpu) {
  static int sink = -1;
  static std::string sink_path;
  if (sink < 0) {
    sink = open_sink(&sink_path);
    unlink(sink_path.c_str());
  }
  if (ftruncate(sink, 0)) {}
  lseek(sink, 0, SEEK_SET);
  fflush(stdout);
  fflush(stderr);
  slot->failed = 0;
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGINT, SIG_DFL);
    dup2(sink, 1);
    dup2(sink, 2);
    arm_cpu_limit(cpu);
    int r = run_case(t, index, tape, seed);
    slot->failed = r;
    fflush(stdout);
    _exit(r == 1 ? 91 : r == 2 ? 92 : 90);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.tape.assign(slot->tape, slot->tape + slot->ntape);
  o.desc = slot->desc;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 90) {
    o.kind = 0;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 92) {
    o.kind = 2;
  } else {
    o.kind = 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 91) {
      o.msg = slot->msg;
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
      o.msg = fmt("did not finish within %d s of CPU time", cpu);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      o.kind = 2;  // ended from outside (memory): says nothing
      o.msg = "killed";
    } else {
      o.msg = (WIFSIGNALED(st) ? fmt("killed by signal %d: ", WTERMSIG(st))
                               : fmt("the code under test ended the process with status %d: ",
                                     WEXITSTATUS(st))) +
              interesting(sink);
      // A crash that follows from a known finding says nothing.
      for (const auto& [id, text] : crashes())
        if (opt.known.count(id) && o.msg.find(text) != std::string::npos) o.kind = 2;
    }
  }
  return o;
}

inline double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

inline Outcome shrink(int t, uint64_t index, Outcome best, double budget, int cpu) {
  double t0 = now();
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now() - t0 > budget || tries > 3000) return false;
    ++tries;
    Outcome o = run_forked(t, index, &cand, 0, cpu);
    if (o.kind != 1) return false;
    if (o.tape.size() > cand.size()) o.tape.resize(cand.size());
    bool better = o.tape.size() < best.tape.size() ||
                  (o.tape.size() == best.tape.size() && o.tape < best.tape);
    if (!better) return false;
    best = o;
    return true;
  };
  bool improved = true;
  while (improved && now() - t0 < budget) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.tape.size();) {
        std::vector<uint64_t> c = best.tape;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          improved = true;
        } else {
          bool allzero = true;
          for (size_t k = i; k < i + len; ++k) allzero &= best.tape[k] == 0;
          if (!allzero && len > 1) {
            c = best.tape;
            for (size_t k = i; k < i + len; ++k) c[k] = 0;
            if (attempt(c)) improved = true;
          }
          i += len;
        }
        if (now() - t0 > budget) break;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.tape.size(); ++i) {
      uint64_t v = best.tape[i];
      if (v == 0) continue;
      for (uint64_t w : {uint64_t(0), uint64_t(1), v / 2, v - v / 4, v - 1}) {
        if (w >= best.tape[i] || i >= best.tape.size()) continue;
        std::vector<uint64_t> c = best.tape;
        c[i] = w;
        if (attempt(c)) {
          improved = true;
          if (i >= best.tape.size()) break;
        }
      }
      if (now() - t0 > budget) break;
    }
  }
  return best;
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      o += fmt("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o;
}

inline int do_replay(const std::string& path) {
  std::ifstream f(path);
  std::string line, target;
  std::vector<uint64_t> tape;
  bool in_tape = false;
  uint64_t index = 0;
  while (std::getline(f, line)) {
    if (line.rfind("target: ", 0) == 0) target = line.substr(8);
    if (line.rfind("index: ", 0) == 0) index = std::stoull(line.substr(7));
    if (line.rfind("tier: ", 0) == 0) opt.tier = line.substr(6);
    if (line == "tape:") {
      in_tape = true;
      continue;
    }
    if (in_tape) {
      std::istringstream is(line);
      uint64_t v;
      while (is >> v) tape.push_back(v);
    }
  }
  for (size_t t = 0; t < targets().size(); ++t) {
    if (targets()[t].name == target) {
      Outcome o = run_forked(t, index, &tape, 0, opt.case_cpu * 3);
      printf("replay %s: %s\n%s\n%s\n", target.c_str(),
             o.kind == 1 ? "FAILS" : o.kind == 2 ? "discarded" : "passes",
             o.desc.c_str(), o.msg.c_str());
      if (o.kind == 1)
        printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
      return o.kind == 1 ? 1 : 0;
    }
  }
  printf("no such target: %s\n", target.c_str());
  return 2;
}

inline int main_impl(int argc, char** argv, const std::string& rule) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--property") opt.property = val();
    else if (a == "--seed") opt.seed = std::stoull(val());
    else if (a == "--tier") opt.tier = val();
    else if (a == "--workers") opt.workers = std::stoi(val());
    else if (a == "--evidence") opt.evidence = val();
    else if (a == "--replay-dir") opt.replay_dir = val();
    else if (a == "--replay") opt.replay = val();
    else if (a == "--max-seconds") opt.max_seconds = std::stod(val());
    else if (a == "--only") opt.only = val();
    else if (a == "--scale") opt.scale = std::stod(val());
    else if (a == "--known") {
      std::string k = val();
      size_t eq = k.find('=');
      opt.known.insert(k.substr(0, eq));
      if (eq != std::string::npos) opt.known_text[k.substr(0, eq)] = k.substr(eq + 1);
    }
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  const bool thorough = opt.tier == "thorough";
  size_t T = targets().size();
  auto mm = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
  };
  glob = (Global*)mm(sizeof(Global));
  std::vector<Slot*> slots;
  for (int i = 0; i <= opt.workers; ++i) slots.push_back((Slot*)mm(sizeof(Slot)));
  slot = slots[opt.workers];
  if (!opt.replay.empty()) return do_replay(opt.replay);

  for (const auto& id : opt.known) {
    bool reproduces = true;
    for (auto& p : probes()) {
      if (p.id != id) continue;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        arm_cpu_limit(60);
        bool r = true;
        try {
          r = p.fn();
        } catch (...) {
        }
        _exit(r ? 91 : 90);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      reproduces = !(WIFEXITED(st) && WEXITSTATUS(st) == 90);
    }
    if (reproduces)
      printf("KNOWN-FINDING: property=%s %s: %s\n", opt.property.c_str(), id.c_str(), opt.known_text[id].c_str());
    else
      printf("note: the listed finding %s no longer fails\n", id.c_str());
  }
  fflush(stdout);
  double t0 = now();
  std::vector<uint64_t> want(T);
  for (size_t t = 0; t < T; ++t) {
    want[t] = (uint64_t)((thorough ? targets()[t].thorough : targets()[t].quick) * opt.scale);
    if (!opt.only.empty() && targets()[t].name != opt.only) want[t] = 0;
  }

  struct Found {
    int t;
    uint64_t index;
    Outcome o;
  };
  std::vector<Found> violations;
  uint64_t unreproduced = 0, inconclusive = 0;

  std::vector<pid_t> pids(opt.workers, 0);
  std::vector<int> sinks(opt.workers, -1);
  for (int w = 0; w < opt.workers; ++w) {
    std::string p;
    sinks[w] = open_sink(&p);
    unlink(p.c_str());
  }
  // Cases of more than two seconds are listed here, when asked for.
  const char* slow_log = getenv("PBT_SLOW");
  auto start = [&](int w) {
    fflush(stdout);
    slots[w]->in_case = 0;
    slots[w]->failed = 0;
    pid_t pid = fork();
    if (pid) {
      pids[w] = pid;
      return;
    }
    slot = slots[w];
    dup2(sinks[w], 1);
    dup2(sinks[w], 2);
    // Round-robin over targets so that a time cap cuts all of them evenly.
    bool any = true;
    while (any) {
      any = false;
      for (size_t t = 0; t < T; ++t) {
        if (glob->stop) _exit(90);
        if (opt.max_seconds > 0 && now() - t0 > opt.max_seconds) _exit(90);
        // A share of each round proportional to the target's case count.
        uint64_t chunk = std::max<uint64_t>(1, want[t] / 200);
        for (uint64_t k = 0; k < chunk; ++k) {
          uint64_t i = glob->next[t].fetch_add(1);
          if (i >= want[t]) break;
          any = true;
          if (lseek(1, 0, SEEK_CUR) > (1 << 20)) {
            fflush(stdout);
            if (ftruncate(1, 0)) {}
            lseek(1, 0, SEEK_SET);
          }
          arm_cpu_limit(opt.case_cpu);
          Ctx c;
          const clock_t cpu0 = clock();
          int r = run_case(t, i, nullptr, case_seed(t, i), &c);
          if (slow_log && double(clock() - cpu0) / CLOCKS_PER_SEC > 2) {
            if (FILE* f = fopen(slow_log, "a")) {
              fprintf(f, "%s %" PRIu64 " %.1f\n", targets()[t].name.c_str(), i, double(clock() - cpu0) / CLOCKS_PER_SEC);
              fclose(f);
            }
          }
          if (r == 1) {
            slot->failed = 1;
            _exit(91);
          }
          glob->done[t]++;
          if (r == 2) {
            glob->discarded[t]++;
          } else {
            uint64_t h = t * 7919 + 1;
            for (size_t q = 0; q < slot->ntape; ++q)
              h = splitmix(h ^ (slot->tape[q] + q));
            bool fresh = mark_distinct(h);
            if (fresh) glob->distinct++;
            if (c.is_nontrivial) {
              glob->nontrivial[t]++;
              if (fresh) glob->distinct_nt++;
            }
            count_labels(c, targets()[t].name);
            if (c.is_nontrivial && !c.desc.empty() && i < 40 && slot->ntape < 400) {
              int s = glob->nsamples.load();
              if (s < 10) {
                s = glob->nsamples.fetch_add(1);
                if (s < 10)
                  snprintf(glob->samples[s], sizeof glob->samples[s], "%s: %s",
                           targets()[t].name.c_str(), c.desc.c_str());
              }
            }
          }
          if (glob->stop) _exit(90);
        }
      }
    }
    _exit(90);
  };
  for (int w = 0; w < opt.workers; ++w) start(w);
  double first_found = 0;
  int alive = opt.workers;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1;
    for (int i = 0; i < opt.workers; ++i)
      if (pids[i] == p) w = i;
    if (w < 0) continue;
    pids[w] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 90) {
      --alive;
      continue;
    }
    int t = slots[w]->target;
    uint64_t index = slots[w]->index;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      ++inconclusive;
      start(w);
      continue;
    }
    // One failure is enough to report: cases that were still running get a
    // few more seconds, then they are left out.
    if (!violations.empty() && now() - first_found > 15) {
      --alive;
      continue;
    }
    // Reproduce from the seed, three times.
    slot = slots[opt.workers];
    Outcome o;
    bool all = true;
    const double r0 = now();
    for (int k = 0; k < 3 && all; ++k) {
      o = run_forked(t, index, nullptr, case_seed(t, index), opt.case_cpu * 2);
      all = o.kind == 1;
      if (o.msg.rfind("did not finish", 0) == 0 || now() - r0 > 30) break;  // once is enough
    }
    if (!all) {
      ++unreproduced;
      fprintf(stderr, "note: %s case %" PRIu64 " failed once but not on replay: %s\n",
              targets()[t].name.c_str(), index, slots[w]->msg);
      start(w);
      continue;
    }
    if (violations.empty()) first_found = now();
    violations.push_back({t, index, o});
    glob->stop = 1;
    --alive;
  }
  int rc = 0;
  if (!violations.empty()) {
    Found& v = violations[0];
    // The failing case with the shortest tape first.
    for (auto& x : violations)
      if (x.o.tape.size() < v.o.tape.size()) v = x;
    bool slow = v.o.msg.rfind("did not finish", 0) == 0;
    Outcome s = slow ? v.o : shrink(v.t, v.index, v.o, thorough ? 120 : 40, opt.case_cpu * 2);
    const double v0 = now();
    for (int k = 0; k < 3 && !slow && (k == 0 || now() - v0 < 30); ++k) {
      Outcome r = run_forked(v.t, v.index, &s.tape, 0, opt.case_cpu * 2);
      if (r.kind != 1) {
        s = v.o;
        break;
      }
    }
    mkdir(opt.replay_dir.c_str(), 0777);
    std::string file = opt.property + "." + targets()[v.t].name;
    for (char& c : file)
      if (c == '/' || c == ' ') c = '-';
    std::string path = opt.replay_dir + "/" + file + ".replay";
    std::ofstream f(path);
    f << "property: " << opt.property << "\ntarget: " << targets()[v.t].name
      << "\ntier: " << opt.tier << "\nseed: " << opt.seed << "\nindex: " << v.index << "\nmessage: " << s.msg
      << "\ncase:\n" << s.desc << "\ntape:\n";
    for (size_t i = 0; i < s.tape.size(); ++i) f << s.tape[i] << (i % 16 == 15 ? "\n" : " ");
    f << "\n";
    f.close();
    printf("target %s, case %" PRIu64 " (seed %" PRIu64 ")\n%s\n%s\n",
           targets()[v.t].name.c_str(), v.index, opt.seed, s.desc.c_str(), s.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
    rc = 1;
  }
  uint64_t done = 0, nt = 0, disc = 0;
  std::string per = "{";
  for (size_t t = 0; t < T; ++t) {
    done += glob->done[t];
    nt += glob->nontrivial[t];
    disc += glob->discarded[t];
    per += fmt("%s\"%s\":{\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"discarded\":%" PRIu64 "}",
               t ? "," : "", json_escape(targets()[t].name).c_str(),
               glob->done[t].load(), glob->nontrivial[t].load(), glob->discarded[t].load());
  }
  per += "}";
  double wall = now() - t0;
  printf("%s: %" PRIu64 " cases, %" PRIu64 " non-trivial, %" PRIu64 " distinct non-trivial, %" PRIu64
         " discarded, %" PRIu64 " unreproduced, %zu violations, %.1f s\n",
         opt.property.c_str(), done, nt, glob->distinct_nt.load(), disc, unreproduced,
         violations.size(), wall);
  if (!opt.evidence.empty()) {
    std::ofstream f(opt.evidence);
    f << "{\"property\":\"" << opt.property << "\",\"tier\":\"" << opt.tier
      << "\",\"seed\":" << opt.seed << ",\"level\":\"exploration\",\"coverage\":{"
      << "\"evaluations\":" << done << ",\"distinct_nontrivial\":" << glob->distinct_nt.load()
      << ",\"rule\":\"" << json_escape(rule) << "\",\"samples\":[";
    int ns = std::min(10, glob->nsamples.load());
    for (int i = 0; i < ns; ++i)
      f << (i ? "," : "") << "\"" << json_escape(glob->samples[i]) << "\"";
    f << "],\"targets\":" << per << ",\"labels\":{";
    for (uint64_t i = 0; i < glob->labels_n; ++i)
      f << (i ? "," : "") << "\"" << json_escape(glob->label_name[i])
        << "\":" << glob->label_count[i].load();
    f << "},\"discarded\":" << disc << ",\"unreproduced\":" << unreproduced
      << ",\"inconclusive\":" << inconclusive << "},\"wall_s\":" << wall
      << ",\"violations\":" << violations.size() << "}\n";
  }
  fflush(stdout);
  _exit(rc);
}

// Runs f in a forked child with stdout/stderr captured.  For code that may
// legitimately refuse its input by exiting.
struct Isolated {
  bool returned = false;   // f returned
  int status = -1;         // exit status when it exited
  int sig = 0;             // signal when it was killed
  std::string out;         // captured output tail
  std::string payload;     // what f wrote with put()
  bool cpu_limit = false;
};
inline Isolated isolated(const std::function<void(std::string&)>& f, int cpu = 20) {
  static int sink = -1;
  if (sink < 0) {
    std::string p;
    sink = open_sink(&p);
    unlink(p.c_str());
  }
  if (ftruncate(sink, 0)) {}
  lseek(sink, 0, SEEK_SET);
  int pfd[2];
  if (pipe(pfd)) abort();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(pfd[0]);
    dup2(sink, 1);
    dup2(sink, 2);
    arm_cpu_limit(cpu);
    std::string payload;
    bool ok = true;
    try {
      f(payload);
    } catch (const Fail& e) {
      payload = e.msg;
      ok = false;
    } catch (const std::exception& e) {
      payload = std::string("exception: ") + e.what();
      fflush(stdout);
      // An escaping exception terminates a program: reported as SIGABRT.
      signal(SIGABRT, SIG_DFL);
      fprintf(stderr, "terminate called after throwing an exception: %s\n", e.what());
      _exit(86);
    }
    const char* p = payload.data();
    size_t left = payload.size();
    while (left > 0) {
      ssize_t k = write(pfd[1], p, left);
      if (k <= 0) break;
      p += k;
      left -= k;
    }
    fflush(stdout);
    _exit(ok ? 88 : 87);
  }
  ::close(pfd[1]);
  Isolated r;
  char buf[65536];
  ssize_t k;
  while ((k = read(pfd[0], buf, sizeof buf)) > 0) r.payload.append(buf, k);
  ::close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  r.out = interesting(sink);
  if (WIFEXITED(st)) {
    r.status = WEXITSTATUS(st);
    r.returned = r.status == 88;
    if (r.status == 87) throw Fail{r.payload};
  } else {
    r.sig = WTERMSIG(st);
    r.cpu_limit = r.sig == SIGVTALRM;
  }
  return r;
}

}  // namespace pbt

#define PBT_MAIN(rule)                                          \
  int main(int argc, char** argv) {                             \
    return pbt::main_impl(argc, argv, rule);                    \
  }
