// A small property-based testing engine.
//
// A property is a function of a stream of bounded random choices (`Case`).
// Everything random comes from that stream, so a case *is* its list of
// choices: it can be replayed, hashed for distinctness, and shrunk by deleting,
// zeroing and lowering choices (generators are written so that 0 is the
// simplest alternative). Cases run in a forked worker, so crashes, sanitizer
// aborts, failed asserts and hangs are failures like any other and get shrunk.
//
//   bin run --seed S --tier quick --worker I --nworkers N --out PREFIX
//   bin replay FILE          (exit 0: passes, 1: fails)
//
// Outcome of `run`: exit 0 and PREFIX.json / PREFIX.hash, or exit 1 and
// PREFIX.fail.json with the shrunk choices.
#pragma once

#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

constexpr size_t kMaxChoices = 1 << 17;
constexpr size_t kMaxHashes = 1 << 20;

struct Label {
  char name[72];
  uint64_t n;
};

struct Shared {
  volatile uint64_t case_serial;
  volatile uint64_t case_index;
  volatile int prop;
  volatile int in_case;
  size_t nch;
  uint64_t ch[kMaxChoices];
  char msg[8192];
  char trace[1 << 16];
  size_t ntrace;
  uint64_t evaluations, nontrivial, discarded;
  size_t nhash;
  uint64_t hash[kMaxHashes];
  int nlab;
  Label lab[400];
  int nsamples;
  char samples[16][6000];
  char sample_prop[16][64];
};

inline Shared*& sh() {
  static Shared* s = nullptr;
  return s;
}

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hash_str(char const* s) {
  uint64_t h = 1469598103934665603ull;
  while (*s) {
    h = (h ^ static_cast<unsigned char>(*s++)) * 1099511628211ull;
  }
  return h;
}

struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed) {
    s[0] = mix(seed);
    s[1] = mix(seed ^ 0x1234567890abcdefull);
    if (!s[0] && !s[1]) {
      s[0] = 1;
    }
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return r;
  }
};

inline int label_id(char const* name) {
  Shared* s = sh();
  for (int i = 0; i < s->nlab; ++i) {
    if (!std::strncmp(s->lab[i].name, name, sizeof(s->lab[i].name) - 1)) {
      return i;
    }
  }
  if (s->nlab == 400) {
    return 399;
  }
  std::snprintf(s->lab[s->nlab].name, sizeof(s->lab[0].name), "%s", name);
  return s->nlab++;
}

class Case {
 public:
  // random generation; `forced` (if >= 0) is the value of the first choice
  Case(uint64_t seed, int64_t forced, uint64_t index)
      : rng_{seed}
      , forced_{forced}
      , index{index} {
    sh()->nch = 0;
  }
  // replay
  Case(uint64_t const* rep, size_t n, bool trace)
      : rng_{0}
      , rep_{rep}
      , nrep_{n}
      , replay_{true}
      , tracing{trace} {
    sh()->nch = 0;
  }

  // uniform in [0, n); 0 is the simplest value
  uint64_t draw(uint64_t n) {
    uint64_t v = raw();
    if (forced_ >= 0) {
      v = static_cast<uint64_t>(forced_);
      forced_ = -1;
    } else if (n && v >= n) {
      v = replay_ ? v % n : static_cast<uint64_t>(
                                (static_cast<unsigned __int128>(v) * n) >> 64);
    } else if (n && !replay_) {
      v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
    }
    record(v);
    return v;
  }
  uint64_t bits() { return draw(0); }

  // inclusive; the simplest value is lo
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(
                    draw(static_cast<uint64_t>(hi - lo) + 1));
  }

  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool flip() { return draw(2) != 0; }

  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t sum = 0;
    for (auto x : w) {
      sum += x;
    }
    uint64_t v = draw(sum);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) {
        return i;
      }
      v -= x;
      ++i;
    }
    return 0;
  }

  template <typename T>
  T pick(std::initializer_list<T> l) {
    return l.begin()[draw(l.size())];
  }

  // boundary-heavy integer of the given width
  uint64_t uint(unsigned width) {
    uint64_t const mask = width == 64 ? ~0ull : (1ull << width) - 1;
    switch (weighted({3, 3, 3, 4, 2, 1})) {
    case 0:
      return draw(20) & mask;
    case 1: { // around powers of two
      uint64_t p = 1ull << draw(width);
      return (p + draw(5) - 2) & mask;
    }
    case 2: { // around 7-bit boundaries
      unsigned k = static_cast<unsigned>(draw((width + 6) / 7 + 1)) * 7;
      uint64_t p = k < 64 ? 1ull << k : 0;
      return (p + draw(3) - 1) & mask;
    }
    case 3: { // any bit length
      unsigned len = static_cast<unsigned>(draw(width)) + 1;
      uint64_t v = bits();
      v &= len == 64 ? ~0ull : (1ull << len) - 1;
      return v & mask;
    }
    case 4:
      return bits() & mask;
    default:
      return (mask - draw(20)) & mask;
    }
  }

  // double in [0,1) with 2^53 steps
  double unit() {
    return static_cast<double>(draw(1ull << 53)) / 9007199254740992.0;
  }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

  void nontrivial() { nontrivial_ = true; }
  bool is_nontrivial() const { return nontrivial_; }
  void discard() { discarded_ = true; }
  bool is_discarded() const { return discarded_; }

  __attribute__((format(printf, 2, 3))) void trace(char const* fmt, ...) {
    if (!tracing) {
      return;
    }
    Shared* s = sh();
    va_list ap;
    va_start(ap, fmt);
    size_t const room = sizeof(s->trace) - s->ntrace;
    if (room > 2) {
      int n = std::vsnprintf(s->trace + s->ntrace, room, fmt, ap);
      if (n > 0) {
        s->ntrace += static_cast<size_t>(n) < room ? static_cast<size_t>(n)
                                                   : room - 1;
      }
    }
    va_end(ap);
  }

  [[noreturn]] __attribute__((format(printf, 2, 3))) void
  fail(char const* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(sh()->msg, sizeof(sh()->msg), fmt, ap);
    va_end(ap);
#ifdef PBT_FUZZ
    extern void pbt_fuzz_fail();
    pbt_fuzz_fail();
#endif
    _exit(77);
  }

 private:
  uint64_t raw() {
    if (replay_) {
      return pos_ < nrep_ ? rep_[pos_++] : 0;
    }
#ifdef PBT_FUZZ
    if (fuzz_) {
      uint64_t v = 0;
      return v;
    }
#endif
    return rng_.next();
  }
  void record(uint64_t v) {
    Shared* s = sh();
    if (s->nch == kMaxChoices) {
      // a case must be finite; treat as generator bug
      std::snprintf(s->msg, sizeof(s->msg), "engine: too many choices");
      _exit(79);
    }
    s->ch[s->nch++] = v;
  }

  Rng rng_;
  int64_t forced_{-1};
  uint64_t const* rep_{nullptr};
  size_t nrep_{0}, pos_{0};
  bool replay_{false};
  bool nontrivial_{false};
  bool discarded_{false};

 public:
  bool tracing{false};
  uint64_t index{0};
};

struct Prop {
  char const* name;
  void (*fn)(Case&);
  uint64_t quick, thorough;
  bool enumerated; // choice 0 is the case index
};

inline std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}

struct Registrar {
  Registrar(char const* name, void (*fn)(Case&), uint64_t q, uint64_t t,
            bool e = false) {
    props().push_back(Prop{name, fn, q, t, e});
  }
};

#define PBT_PROP(name, quick, thorough)                                        \
  static void pbt_prop_##name(::pbt::Case&);                                   \
  static ::pbt::Registrar pbt_reg_##name{#name, &pbt_prop_##name, quick,       \
                                         thorough};                            \
  static void pbt_prop_##name(::pbt::Case& c)

// enumerated: the first choice of case i is i, and exactly `quick` /
// `thorough` cases are run (not scaled)
#define PBT_ENUM(name, quick, thorough)                                        \
  static void pbt_prop_##name(::pbt::Case&);                                   \
  static ::pbt::Registrar pbt_reg_##name{#name, &pbt_prop_##name, quick,       \
                                         thorough, true};                      \
  static void pbt_prop_##name(::pbt::Case& c)

#define PBT_REGISTER(name, fn, quick, thorough)                                \
  static ::pbt::Registrar pbt_reg_##name{#name, fn, quick, thorough}
#define PBT_REGISTER_ENUM(name, fn, quick, thorough)                           \
  static ::pbt::Registrar pbt_reg_##name{#name, fn, quick, thorough, true}

#define PBT_LABEL(text)                                                        \
  do {                                                                         \
    static int const pbt_id = ::pbt::label_id(text);                           \
    ++::pbt::sh()->lab[pbt_id].n;                                              \
  } while (0)

#define PBT_CHECK(c, cond, ...)                                                \
  do {                                                                         \
    if (!(cond)) {                                                             \
      (c).fail(__VA_ARGS__);                                                   \
    }                                                                          \
  } while (0)

// ---------------------------------------------------------------------------

inline int& hang_limit() {
  static int v = 20;
  return v;
}

inline void on_tick(int) {
  static uint64_t last = ~0ull;
  static int same = 0;
  Shared* s = sh();
  if (!s->in_case || s->case_serial != last) {
    last = s->case_serial;
    same = 0;
  } else if (++same >= hang_limit()) {
    char const m[] = "case did not terminate";
    std::memcpy(s->msg, m, sizeof(m));
    _exit(78);
  }
}

inline void start_timer(int limit) {
  hang_limit() = limit;
  struct sigaction sa;
  std::memset(&sa, 0, sizeof(sa));
  sa.sa_handler = &on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void silence(char const* path) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

struct Outcome {
  bool ok{true};
  int code{0}; // exit code or 1000+signal
};

inline Outcome wait_child(pid_t pid) {
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  o.ok = o.code == 0;
  return o;
}

// Blocked (no CPU) children are ended after `wall` seconds.
inline Outcome wait_child_wall(pid_t pid, int wall) {
  uint64_t last = ~0ull;
  int same = 0;
  for (int i = 0;; ++i) {
    int st = 0;
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      Outcome o;
      o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
      o.ok = o.code == 0;
      return o;
    }
    usleep(i < 200 ? 500 : 20000);
    if (i >= 200 && i % 50 == 0) {
      if (sh()->case_serial == last && sh()->in_case) {
        if (++same >= wall) {
          std::snprintf(sh()->msg, sizeof(sh()->msg),
                        "case did not terminate (blocked)");
          kill(pid, SIGKILL);
          Outcome o = wait_child(pid);
          o.ok = false;
          o.code = 78;
          return o;
        }
      } else {
        same = 0;
        last = sh()->case_serial;
      }
    }
  }
}

inline Outcome replay_once(Prop const& p, std::vector<uint64_t> const& ch,
                           bool trace, char const* errfile) {
  Shared* s = sh();
  s->msg[0] = 0;
  s->ntrace = 0;
  s->trace[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    silence(errfile);
    start_timer(10);
    ++s->case_serial;
    s->in_case = 1;
    Case c(ch.data(), ch.size(), trace);
    p.fn(c);
    s->in_case = 0;
    fflush(nullptr);
    _exit(0);
  }
  return wait_child_wall(pid, 60);
}

inline std::string json_str(std::string const& in) {
  std::string o = "\"";
  for (unsigned char ch : in) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof(b), "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

inline std::string slurp(char const* path, size_t max) {
  std::string r;
  if (FILE* f = std::fopen(path, "rb")) {
    char buf[4096];
    size_t n;
    while ((n = std::fread(buf, 1, sizeof(buf), f)) > 0) {
      r.append(buf, n);
      if (r.size() > 1 << 20) {
        break;
      }
    }
    std::fclose(f);
  }
  if (r.size() > max) {
    r = r.substr(0, max) + "...";
  }
  return r;
}

inline char const* kind(int code) {
  return code == 77   ? "check failed"
         : code == 78 ? "did not terminate"
         : code >= 1000
             ? "killed by signal"
             : "aborted (sanitizer or abnormal exit)";
}

inline std::vector<uint64_t> shrink(Prop const& p, std::vector<uint64_t> best,
                                    char const* err, int* replays) {
  int budget = 2500;
  struct timeval t0;
  gettimeofday(&t0, nullptr);
  auto fails = [&](std::vector<uint64_t> const& ch) {
    struct timeval t1;
    gettimeofday(&t1, nullptr);
    if (budget <= 0 || t1.tv_sec - t0.tv_sec > 60) {
      budget = 0;
      return false;
    }
    --budget;
    ++*replays;
    return !replay_once(p, ch, false, err).ok;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    // truncate
    for (size_t keep = best.size() / 2; keep < best.size();) {
      std::vector<uint64_t> t(best.begin(), best.begin() + keep);
      if (fails(t)) {
        best = t;
        progress = true;
        keep = best.size() / 2;
      } else {
        size_t next = (keep + best.size() + 1) / 2;
        if (next == keep || next >= best.size()) {
          break;
        }
        keep = next;
      }
    }
    // delete chunks
    for (size_t len = 64; len >= 1; len /= 2) {
      for (size_t i = best.size(); i-- > 0;) {
        if (i + len > best.size()) {
          continue;
        }
        std::vector<uint64_t> t(best);
        t.erase(t.begin() + i, t.begin() + i + len);
        if (fails(t)) {
          best = t;
          progress = true;
        }
        if (budget <= 0) {
          break;
        }
      }
    }
    // zero, then minimise single choices
    for (size_t i = 0; i < best.size() && budget > 0; ++i) {
      if (best[i] == 0) {
        continue;
      }
      std::vector<uint64_t> t(best);
      t[i] = 0;
      if (fails(t)) {
        best = t;
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i]; // hi fails, lo passes
      while (hi - lo > 1 && budget > 0) {
        uint64_t mid = lo + (hi - lo) / 2;
        t[i] = mid;
        if (fails(t)) {
          hi = mid;
        } else {
          lo = mid;
        }
      }
      if (hi < best[i]) {
        best[i] = hi;
        progress = true;
      }
    }
  }
  return best;
}

inline std::string dirprefix(std::string const& out, char const* suffix) {
  return out + suffix;
}

struct Options {
  uint64_t seed{1};
  bool thorough{false};
  uint64_t worker{0}, nworkers{1};
  double scale{1.0};
  std::string out{"/tmp/pbt"};
  std::string only;
};

inline uint64_t total_cases(Prop const& p, Options const& o) {
  uint64_t n = o.thorough ? p.thorough : p.quick;
  if (!p.enumerated) {
    n = static_cast<uint64_t>(static_cast<double>(n) * o.scale);
    if (n == 0) {
      n = 1;
    }
  }
  return n;
}

inline void run_cases(Options const& o) {
  Shared* s = sh();
  std::vector<Prop> const& ps = props();
  for (size_t pi = 0; pi < ps.size(); ++pi) {
    Prop const& p = ps[pi];
    if (!o.only.empty() && o.only != p.name) {
      continue;
    }
    uint64_t const total = total_cases(p, o);
    uint64_t const ph = hash_str(p.name);
    s->prop = static_cast<int>(pi);
    int sampled = 0;
    for (uint64_t i = o.worker; i < total; i += o.nworkers) {
      s->case_index = i;
      ++s->case_serial;
      Case c(mix(mix(o.seed ^ ph) + i), p.enumerated ? int64_t(i) : -1, i);
      uint64_t const nth = i / o.nworkers;
      bool const sample = o.worker == 0 && sampled < 2 && s->nsamples < 16 &&
                          nth >= (sampled ? 40u : 7u);
      if (sample) {
        s->ntrace = 0;
        s->trace[0] = 0;
        c.tracing = true;
      }
      s->in_case = 1;
      p.fn(c);
      s->in_case = 0;
      ++s->evaluations;
      if (c.is_discarded()) {
        ++s->discarded;
      } else if (c.is_nontrivial()) {
        ++s->nontrivial;
        uint64_t h = ph;
        for (size_t k = 0; k < s->nch; ++k) {
          h = mix(h ^ s->ch[k]);
        }
        if (s->nhash < kMaxHashes) {
          s->hash[s->nhash++] = h;
        }
        if (sample && s->ntrace) {
          std::snprintf(s->samples[s->nsamples], sizeof(s->samples[0]), "%s",
                        s->trace);
          std::snprintf(s->sample_prop[s->nsamples], 64, "%s", p.name);
          ++s->nsamples;
          ++sampled;
        }
      }
    }
  }
}

inline int report_failure(Options const& o, Prop const& p, Outcome first,
                          std::vector<uint64_t> ch, bool by_run) {
  std::string const err = o.out + ".err";
  Shared* s = sh();
  std::string msg0 = s->msg;
  std::string stderr0 = slurp(err.c_str(), 6000);
  uint64_t const idx = s->case_index;
  int rep = 0, replays = 0;
  size_t const orig = ch.size();
  if (!by_run) {
    ch = shrink(p, ch, err.c_str(), &replays);
    for (int i = 0; i < 3; ++i) {
      Outcome r = replay_once(p, ch, true, err.c_str());
      if (!r.ok) {
        ++rep;
        first = r;
        if (s->msg[0] == 0 && msg0[0] == 0) {
        }
      }
    }
    msg0 = s->msg;
    stderr0 = slurp(err.c_str(), 6000);
  }
  std::string const fn = o.out + ".fail.json";
  FILE* f = std::fopen(fn.c_str(), "w");
  std::fprintf(f,
               "{\"prop\": %s, \"case\": %" PRIu64
               ", \"kind\": %s, \"code\": %d, \"message\": %s,\n \"by_run\": "
               "%s, \"replayed_failing\": %d, \"shrink_replays\": %d, "
               "\"choices_before_shrinking\": %zu,\n \"trace\": %s,\n "
               "\"output\": %s,\n \"choices\": [",
               json_str(p.name).c_str(), idx, json_str(kind(first.code)).c_str(),
               first.code, json_str(msg0).c_str(), by_run ? "true" : "false",
               rep, replays, orig, json_str(by_run ? "" : s->trace).c_str(),
               json_str(stderr0).c_str());
  for (size_t i = 0; i < ch.size(); ++i) {
    std::fprintf(f, "%s%" PRIu64, i ? ", " : "", ch[i]);
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
  return 1;
}

inline int run(Options const& o) {
  Shared* s = sh();
  std::string const err = o.out + ".err";
  int unreproduced = 0;
  for (int attempt = 0;; ++attempt) {
    s->evaluations = s->nontrivial = s->discarded = 0;
    s->nhash = 0;
    s->nlab = 0;
    s->nsamples = 0;
    s->msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      silence(err.c_str());
      start_timer(20);
      run_cases(o);
      fflush(nullptr);
      _exit(0);
    }
    Outcome r = wait_child_wall(pid, 120);
    if (r.ok) {
      break;
    }
    if (r.code == 79) {
      std::fprintf(stderr, "engine error: %s\n", s->msg);
      return 3;
    }
    Prop const& p = props()[static_cast<size_t>(s->prop)];
    std::vector<uint64_t> ch(s->ch, s->ch + s->nch);
    std::string const msg = s->msg;
    uint64_t const idx = s->case_index;
    std::string const serr = slurp(err.c_str(), 6000);
    // must fail again on its own
    int again = 0;
    for (int i = 0; i < 3; ++i) {
      again += !replay_once(p, ch, false, err.c_str()).ok;
    }
    s->case_index = idx;
    if (again == 3) {
      return report_failure(o, p, r, ch, false);
    }
    ++unreproduced;
    if (attempt >= 2) {
      // fails in every complete run (depends on earlier cases or on timing)
      std::snprintf(s->msg, sizeof(s->msg), "%s", msg.c_str());
      if (FILE* f = std::fopen(err.c_str(), "w")) {
        std::fputs(serr.c_str(), f);
        std::fclose(f);
      }
      return report_failure(o, p, r, ch, true);
    }
  }
  FILE* f = std::fopen((o.out + ".json").c_str(), "w");
  std::fprintf(f,
               "{\"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64
               ", \"discarded\": %" PRIu64
               ", \"unreproduced\": %d, \"labels\": {",
               s->evaluations, s->nontrivial, s->discarded, unreproduced);
  for (int i = 0; i < s->nlab; ++i) {
    std::fprintf(f, "%s%s: %" PRIu64, i ? ", " : "",
                 json_str(s->lab[i].name).c_str(), s->lab[i].n);
  }
  std::fprintf(f, "}, \"samples\": [");
  for (int i = 0; i < s->nsamples; ++i) {
    std::fprintf(f, "%s{\"generator\": %s, \"case\": %s}", i ? ", " : "",
                 json_str(s->sample_prop[i]).c_str(),
                 json_str(s->samples[i]).c_str());
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
  f = std::fopen((o.out + ".hash").c_str(), "wb");
  std::fwrite(s->hash, sizeof(uint64_t), s->nhash, f);
  std::fclose(f);
  return 0;
}

inline int pbt_main(int argc, char** argv) {
  sh() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                   PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh() == MAP_FAILED) {
    return 3;
  }
  Options o;
  std::string mode = argc > 1 ? argv[1] : "run";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    char const* v = argv[i + 1];
    if (a == "--seed") {
      o.seed = std::strtoull(v, nullptr, 10);
    } else if (a == "--tier") {
      o.thorough = !std::strcmp(v, "thorough");
    } else if (a == "--worker") {
      o.worker = std::strtoull(v, nullptr, 10);
    } else if (a == "--nworkers") {
      o.nworkers = std::strtoull(v, nullptr, 10);
    } else if (a == "--scale") {
      o.scale = std::strtod(v, nullptr);
    } else if (a == "--out") {
      o.out = v;
    } else if (a == "--only") {
      o.only = v;
    }
  }
  if (mode == "run") {
    return run(o);
  }
  if (mode == "list") {
    for (auto const& p : props()) {
      std::printf("%s quick=%" PRIu64 " thorough=%" PRIu64 "%s\n", p.name,
                  p.quick, p.thorough, p.enumerated ? " enumerated" : "");
    }
    return 0;
  }
  if (mode == "replay") { // replay FILE: prop name, then choices
    FILE* f = std::fopen(argv[2], "r");
    char name[256];
    if (!f || std::fscanf(f, "%255s", name) != 1) {
      return 3;
    }
    std::vector<uint64_t> ch;
    uint64_t v;
    while (std::fscanf(f, "%" SCNu64, &v) == 1) {
      ch.push_back(v);
    }
    std::fclose(f);
    for (auto const& p : props()) {
      if (!std::strcmp(p.name, name)) {
        std::string err = std::string(argv[2]) + ".err";
        Outcome r = replay_once(p, ch, true, err.c_str());
        std::printf("%s\n%s\n%s\n%s\n", sh()->trace,
                    r.ok ? "PASS" : kind(r.code), sh()->msg,
                    slurp(err.c_str(), 6000).c_str());
        unlink(err.c_str());
        return r.ok ? 0 : 1;
      }
    }
    std::fprintf(stderr, "unknown property %s\n", name);
    return 3;
  }
  return 3;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
