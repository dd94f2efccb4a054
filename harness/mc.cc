#include "mc.h"

#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>

#include <sanitizer/allocator_interface.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:handle_abort=0:handle_sigill=0:allocator_may_return_null=1"
         ":detect_stack_use_after_return=0:detect_odr_violation=0"
         ":max_malloc_fill_size=65536:malloc_fill_byte=190:"
         "quarantine_size_mb=32:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}

namespace mc {

static bool g_track = false;
static long g_live = 0;
static long g_live_bytes = 0;
static void MallocHook(const volatile void*, size_t s) {
  if (g_track) g_live++, g_live_bytes += s;
}
static void FreeHook(const volatile void* p) {
  if (g_track && p) g_live--;
}
bool SetTracking(bool on) {
  bool prev = g_track;
  g_track = on;
  return prev;
}
NoTrack::NoTrack() : prev(g_track) { g_track = false; }
NoTrack::~NoTrack() { g_track = prev; }

static sigjmp_buf g_die;
static void DieHandler(int) { siglongjmp(g_die, 1); }
bool Dies(const std::function<void()>& fn) {
  NoTrack nt;
  struct sigaction sa, o1, o2, o3;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = DieHandler;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, &o1);
  sigaction(SIGILL, &sa, &o2);
  sigaction(SIGTRAP, &sa, &o3);
  volatile bool died = false;
  int save = dup(2);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 2);
  if (sigsetjmp(g_die, 1) == 0) {
    fn();
  } else {
    died = true;
  }
  dup2(save, 2);
  close(save);
  close(nul);
  sigaction(SIGABRT, &o1, nullptr);
  sigaction(SIGILL, &o2, nullptr);
  sigaction(SIGTRAP, &o3, nullptr);
  return died;
}

static double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t Hash(const char* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) {
    h ^= static_cast<unsigned char>(p[i]);
    h *= 1099511628211ull;
  }
  h ^= h >> 32;
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  return h;
}

constexpr int kMaxChoices = 8192;
struct Slot {
  volatile uint64_t progress;  // bumped at the start of every run
  volatile int n;              // current run's choices so far
  int choices[kMaxChoices];
  volatile int verdict;  // 0 running, 1 finished, 2 violation
  uint64_t runs, ops, checks, pruned, known;
  uint64_t states;
  int capped;
  int max_depth;
  char msg[8192];
};

enum Tier { kQuick, kThorough };
static Tier g_tier = kQuick;

class Explorer {
 public:
  Explorer(const Scenario& s, Slot* slot, int w, int nw)
      : s_(s), slot_(slot), w_(w), nw_(nw) {}
  const Scenario& s_;
  Slot* slot_;
  int w_, nw_;
  long prefix_idx_ = -1;
  std::vector<int> last_prefix_;
  std::unordered_set<uint64_t> states_;
  std::unordered_map<uint64_t, int> visited_;
  std::set<std::string> outcomes_;
  std::map<std::string, long> known_;
  uint64_t checks_ = 0;
  double deadline_ = 0;

  // Returns: "" fine, otherwise the failure text.
  std::string RunOnce(Ctx& c, const std::vector<int>& forced, bool rec) {
    c.forced_ = forced;
    c.choices_.clear();
    c.arity_.clear();
    c.choices_.reserve(256);
    c.arity_.reserve(256);
    c.recording_ = rec;
    c.leak_check_ = true;
    c.owned_ = true;
    c.bulk_ = 0;
    c.ops_ = 0;
    c.text_.clear();
    c.ex_ = this;
    slot_->n = 0;
    slot_->progress = slot_->progress + 1;
    std::string err;
    known_id_.clear();
    pruned_ = false;
    g_live = 0;
    g_live_bytes = 0;
    g_track = true;
    try {
      s_.body(c);
      g_track = false;
    } catch (Failure& f) {
      g_track = false;
      err = f.msg;
      if (err.empty()) err = "failure";
      return err;
    } catch (KnownFinding& k) {
      g_track = false;
      known_id_ = k.id;
      return "";
    } catch (Prune&) {
      g_track = false;
      pruned_ = true;
      return "";
    } catch (std::exception& e) {
      g_track = false;
      return std::string("uncaught exception: ") + typeid(e).name() + " " +
             e.what();
    }
    leaked_ = c.leak_check_ ? g_live : 0;
    return "";
  }
  std::string Run(Ctx& c, const std::vector<int>& forced, bool rec) {
    std::string e = RunOnce(c, forced, rec);
    if (e.empty() && known_id_.empty() && !pruned_ && leaked_ > 0 &&
        !in_leak_) {
      // Lazily initialised statics show up once; a leak shows up every time.
      in_leak_ = true;
      auto full = c.choices_;
      auto ar = c.arity_;
      std::string e2;
      for (int i = 0; i < 3 && e2.empty() && leaked_ > 0; i++)
        e2 = RunOnce(c, full, rec);
      in_leak_ = false;
      if (!e2.empty()) return e2;
      if (leaked_ > 0)
        return S("memory leak: %ld allocation(s) made during this run were "
                 "not released",
                 leaked_);
    }
    return e;
  }

  void Work() {
    Ctx c;
    std::vector<int> forced;
    for (;;) {
      std::string e = Run(c, forced, false);
      int len = static_cast<int>(c.choices_.size());
      int pl = std::min(len, s_.prefix);
      if (len < s_.prefix) NotePrefix(c);
      bool mine = c.owned_;
      if (!e.empty()) {
        Report(c.choices_, e);
        return;
      }
      if (mine) {
        slot_->runs++;
        slot_->ops += c.ops_;
        slot_->checks += c.bulk_;
        if (pruned_) slot_->pruned++;
        if (len > slot_->max_depth) slot_->max_depth = len;
        if (!known_id_.empty()) {
          slot_->known++;
          known_[known_id_]++;
        }
      }
      int i = (mine ? len : pl) - 1;
      while (i >= 0 && c.choices_[i] + 1 >= c.arity_[i]) i--;
      if (i < 0) break;
      forced.assign(c.choices_.begin(), c.choices_.begin() + i + 1);
      forced[i]++;
      if (deadline_ && Now() > deadline_) {
        slot_->capped = 1;
        break;
      }
    }
    slot_->checks += checks_;
    slot_->states = states_.size();
    slot_->verdict = 1;
  }
  void NotePrefix(Ctx& c) {
    int pl = std::min(static_cast<int>(c.choices_.size()), s_.prefix);
    if (prefix_idx_ < 0 ||
        !std::equal(c.choices_.begin(), c.choices_.begin() + pl,
                    last_prefix_.begin(), last_prefix_.end())) {
      prefix_idx_++;
      last_prefix_.assign(c.choices_.begin(), c.choices_.begin() + pl);
    }
    c.owned_ = nw_ == 0 || prefix_idx_ % nw_ == w_;
  }
  void Report(const std::vector<int>& ch, const std::string& e) {
    slot_->n = std::min<int>(ch.size(), kMaxChoices);
    for (int i = 0; i < slot_->n; i++) slot_->choices[i] = ch[i];
    snprintf(slot_->msg, sizeof slot_->msg, "%s", e.c_str());
    slot_->verdict = 2;
  }
  bool in_leak_ = false;
  bool pruned_ = false;
  long leaked_ = 0;
  std::string known_id_;
};

int Ctx::choose(int n, const char* label) {
  bool t = g_track;
  g_track = false;
  int v = 0;
  size_t i = choices_.size();
  if (n < 1) {
    g_track = t;
    throw Failure{S("harness error: empty choice '%s'", label)};
  }
  if (i < forced_.size()) {
    v = forced_[i];
    if (v >= n) {
      g_track = t;
      throw Failure{
          S("harness error: nondeterministic replay at choice %zu '%s' (%d of "
            "%d)",
            i, label, v, n)};
    }
  }
  choices_.push_back(v);
  arity_.push_back(n);
  if (i < kMaxChoices) {
    ex_->slot_->choices[i] = v;
    ex_->slot_->n = i + 1;
  }
  if (static_cast<int>(i) + 1 == ex_->s_.prefix) ex_->NotePrefix(*this);
  if (recording_ && label && *label) {
    text_ += S("    ? %s = %d of %d\n", label, v, n);
  }
  g_track = t;
  return v;
}
static std::string V(const char* fmt, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
void Ctx::op(const char* fmt, ...) {
  ops_++;
  if (!recording_) return;
  NoTrack nt;
  va_list ap;
  va_start(ap, fmt);
  text_ += V(fmt, ap) + "\n";
  va_end(ap);
  if (getenv("VERIF_TRACE")) {
    fprintf(stderr, "| %s", text_.substr(text_.rfind('\n', text_.size() - 2) + 1).c_str());
    fflush(stderr);
  }
}
void Ctx::note(const char* fmt, ...) {
  if (!recording_) return;
  NoTrack nt;
  va_list ap;
  va_start(ap, fmt);
  text_ += "    . " + V(fmt, ap) + "\n";
  va_end(ap);
}
void Ctx::check(bool ok, const char* fmt, ...) {
  ex_->checks_++;
  if (ok) return;
  NoTrack nt;
  va_list ap;
  va_start(ap, fmt);
  std::string s = V(fmt, ap);
  va_end(ap);
  throw Failure{s};
}
void Ctx::fail(const char* fmt, ...) {
  NoTrack nt;
  va_list ap;
  va_start(ap, fmt);
  std::string s = V(fmt, ap);
  va_end(ap);
  throw Failure{s};
}
void Ctx::state_hash(uint64_t h) {
  NoTrack nt;
  if (ex_->states_.size() < 20000000) ex_->states_.insert(h);
}
void Ctx::state(const std::string& canon) {
  state_hash(Hash(canon.data(), canon.size()));
}
void Ctx::outcome(const std::string& o) {
  NoTrack nt;
  if (ex_->outcomes_.size() < 256) ex_->outcomes_.insert(o);
}
bool Ctx::seen(const std::string& canon, int remaining) {
  NoTrack nt;
  uint64_t h = Hash(canon.data(), canon.size());
  ex_->states_.insert(h);
  if (choices_.size() < forced_.size() ||
      static_cast<int>(choices_.size()) < ex_->s_.prefix)
    return false;
  if (!owned_) return true;
  auto [it, fresh] = ex_->visited_.emplace(h, remaining);
  if (fresh) return false;
  if (it->second >= remaining) return true;
  it->second = remaining;
  return false;
}
bool Ctx::thorough() const { return g_tier == kThorough; }

static std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}
static std::string Slurp(const std::string& p, size_t max = 6000) {
  std::string s;
  FILE* f = fopen(p.c_str(), "r");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
  fclose(f);
  return s.substr(0, max);
}

static Slot* NewSlots(int n) {
  void* p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  memset(p, 0, sizeof(Slot) * n);
  return static_cast<Slot*>(p);
}

static std::string g_dir;  // scratch

// Runs one fixed sequence of choices in a child. Returns the failure text, or
// "" if the run was fine. `text` receives the recorded trace.
static std::string Replay(const Scenario& s, const std::vector<int>& ch,
                          int limit_s, std::string* text, std::string* san) {
  Slot* slot = NewSlots(1);
  std::string errf = g_dir + "/replay.err", txtf = g_dir + "/replay.txt";
  unlink(errf.c_str());
  unlink(txtf.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    setenv("VERIF_TRACE", "1", 1);
    Explorer ex(s, slot, 0, 0);
    Ctx c;
    std::string e = ex.Run(c, ch, true);
    FILE* f = fopen(txtf.c_str(), "w");
    fwrite(c.text_.data(), 1, c.text_.size(), f);
    fclose(f);
    if (!e.empty())
      ex.Report(c.choices_, e);
    else
      slot->verdict = 1;
    _exit(0);
  }
  double t0 = Now();
  int st = 0;
  std::string res;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (Now() - t0 > limit_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      res = S("hang: the operation sequence did not finish in %d s", limit_s);
      break;
    }
    usleep(2000);
  }
  if (res.empty()) {
    if (slot->verdict == 2)
      res = slot->msg;
    else if (slot->verdict != 1)
      res = WIFSIGNALED(st) ? S("crash: killed by signal %d", WTERMSIG(st))
                            : S("crash: the process ended with code %d "
                                "(sanitizer report or abort)",
                                WEXITSTATUS(st));
  }
  if (text) *text = Slurp(txtf, 60000);
  std::string err = Slurp(errf, 200000);
  if (text && text->empty()) {
    // The run crashed: recover the operations from the echo.
    size_t i = 0;
    while (i < err.size()) {
      size_t j = err.find('\n', i);
      if (j == std::string::npos) j = err.size();
      if (err.compare(i, 2, "| ") == 0)
        *text += err.substr(i + 2, j - i - 2) + "\n";
      i = j + 1;
    }
  }
  if (san) {
    std::string o;
    size_t i = 0;
    while (i < err.size() && o.size() < 5000) {
      size_t j = err.find('\n', i);
      if (j == std::string::npos) j = err.size();
      if (err.compare(i, 2, "| ") != 0) o += err.substr(i, j - i + 1);
      i = j + 1;
    }
    *san = o;
  }
  munmap(slot, sizeof(Slot));
  return res;
}

struct Total {
  uint64_t runs = 0, ops = 0, checks = 0, pruned = 0;
  std::unordered_set<uint64_t> states;
  std::set<std::string> outcomes;
  std::map<std::string, long> known;
  int max_depth = 0;
  bool capped = false;
};

static void WriteViolation(const std::string& path, const char* prop,
                           const std::string& scen, const std::vector<int>& ch,
                           const std::string& msg, const std::string& text,
                           const std::string& san) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return;
  std::string c;
  for (size_t i = 0; i < ch.size(); i++)
    c += (i ? "," : "") + std::to_string(ch[i]);
  fprintf(f,
          "{\"property\":\"%s\",\n\"scenario\":\"%s\",\n\"choices\":[%s],\n"
          "\"message\":\"%s\",\n\"trace\":\"%s\",\n\"sanitizer\":\"%s\"}\n",
          prop, scen.c_str(), c.c_str(), Esc(msg).c_str(), Esc(text).c_str(),
          Esc(san).c_str());
  fclose(f);
}

int Main(int argc, char** argv, const char* property,
         const std::vector<Scenario>& scenarios, const char* bounds,
         std::initializer_list<const char*> assumptions) {
  std::string out = "result.json", only, replay, viol = "violation.json";
  int nw = 8;
  double cap = 0;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = next();
    else if (a == "--violation") viol = next();
    else if (a == "--tier") g_tier = next() == "thorough" ? kThorough : kQuick;
    else if (a == "--jobs") nw = atoi(next().c_str());
    else if (a == "--scenario") only = next();
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--replay") replay = next();  // "<scenario>:<c0,c1,...>"
    else if (a == "--dir") g_dir = next();
    else if (a == "--list") list = true;
  }
  if (g_dir.empty()) g_dir = "/tmp";
  if (list) {
    for (auto& s : scenarios) printf("%s\n", s.name);
    return 0;
  }
  setenv("TZ", "UTC", 1);
  __sanitizer_install_malloc_and_free_hooks(MallocHook, FreeHook);

  if (!replay.empty()) {
    size_t k = replay.find(':');
    std::string name = replay.substr(0, k);
    std::vector<int> ch;
    for (size_t i = k + 1; i < replay.size();) {
      ch.push_back(atoi(replay.c_str() + i));
      i = replay.find(',', i);
      if (i == std::string::npos) break;
      i++;
    }
    for (auto& s : scenarios)
      if (name == s.name) {
        std::string text, san;
        std::string e = Replay(s, ch, 120, &text, &san);
        printf("%s%s\n%s\n", text.c_str(), san.c_str(),
               e.empty() ? "OK: no violation" : ("VIOLATION: " + e).c_str());
        return e.empty() ? 0 : 1;
      }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }

  double t0 = Now();
  Total tot;
  std::string per, samples;
  for (auto& s : scenarios) {
    if (!only.empty() && only != s.name) continue;
    if (s.thorough_only && g_tier != kThorough) continue;
    double st0 = Now();
    Slot* slots = NewSlots(nw);
    std::vector<pid_t> pid(nw);
    fflush(nullptr);
    for (int w = 0; w < nw; w++) {
      pid[w] = fork();
      if (pid[w] == 0) {
        std::string errf = g_dir + S("/w%d.err", w);
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        Explorer ex(s, &slots[w], w, nw);
        if (cap) ex.deadline_ = t0 + cap;
        ex.Work();
        FILE* f = fopen((g_dir + S("/w%d.st", w)).c_str(), "wb");
        for (uint64_t h : ex.states_) fwrite(&h, 8, 1, f);
        fclose(f);
        f = fopen((g_dir + S("/w%d.out", w)).c_str(), "w");
        for (auto& o : ex.outcomes_) fprintf(f, "o%s\n", o.c_str());
        for (auto& [k, n] : ex.known_) fprintf(f, "k%s\n", k.c_str());
        fclose(f);
        _exit(0);
      }
    }
    std::vector<uint64_t> last(nw, 0);
    std::vector<double> since(nw, Now());
    std::vector<bool> done(nw, false);
    int left = nw;
    std::string err;
    std::vector<int> bad;
    bool stop = false;
    int bad_w = -1;
    bool hang = false;
    while (left > 0 && !stop) {
      bool any = false;
      for (int w = 0; w < nw && !stop; w++) {
        if (done[w]) continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          any = true;
          done[w] = true;
          left--;
          if (slots[w].verdict != 1) {
            bad_w = w;
            stop = true;
          }
          continue;
        }
        if (slots[w].progress != last[w]) {
          last[w] = slots[w].progress;
          since[w] = Now();
        } else if (Now() - since[w] > 60) {
          bad_w = w;
          hang = true;
          stop = true;
        }
      }
      if (!any) usleep(3000);
    }
    if (stop) {
      for (int w = 0; w < nw; w++)
        if (!done[w]) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], nullptr, 0);
        }
      Slot& b = slots[bad_w];
      bad.assign(b.choices, b.choices + b.n);
      std::string first = b.verdict == 2 ? b.msg
                          : hang         ? "hang"
                                         : "crash";
      std::string text, san;
      std::string e = Replay(s, bad, hang ? 180 : 120, &text, &san);
      if (e.empty() && !hang) {
        // Not visible in isolation: an effect of an earlier run of the same
        // process. Repeat the worker's whole share; only a repeatable failure
        // is reported.
        Slot* s2 = NewSlots(1);
        fflush(nullptr);
        pid_t p2 = fork();
        if (p2 == 0) {
          int fd = open((g_dir + "/w.err").c_str(),
                        O_WRONLY | O_CREAT | O_TRUNC, 0600);
          dup2(fd, 2);
          Explorer ex(s, s2, bad_w, nw);
          ex.Work();
          _exit(0);
        }
        int st;
        waitpid(p2, &st, 0);
        if (s2->verdict != 1) {
          bad.assign(s2->choices, s2->choices + s2->n);
          e = (s2->verdict == 2 ? std::string(s2->msg) : "crash") +
              " (only after the preceding runs in the same process)";
          san = Slurp(g_dir + "/w.err");
        }
      }
      if (e.empty()) {
        fprintf(stderr,
                "unconfirmed alarm in scenario %s (%s); not reproducible\n",
                s.name, first.c_str());
        return 4;
      }
      WriteViolation(viol, property, s.name, bad, e, text, san);
      fprintf(stderr, "scenario %s: %s\n%s\n%s\n", s.name, e.c_str(),
              text.c_str(), san.substr(0, 1500).c_str());
      return 1;
    }
    uint64_t runs = 0, ops = 0;
    size_t st_before = tot.states.size();
    bool capped = false;
    for (int w = 0; w < nw; w++) {
      runs += slots[w].runs;
      ops += slots[w].ops;
      tot.checks += slots[w].checks;
      tot.pruned += slots[w].pruned;
      tot.max_depth = std::max(tot.max_depth, slots[w].max_depth);
      capped |= slots[w].capped != 0;
      FILE* f = fopen((g_dir + S("/w%d.st", w)).c_str(), "rb");
      uint64_t h;
      uint64_t mix = Hash(s.name, strlen(s.name));
      while (f && fread(&h, 8, 1, f) == 1) tot.states.insert(h ^ mix);
      if (f) fclose(f);
      unlink((g_dir + S("/w%d.st", w)).c_str());
      std::string o = Slurp(g_dir + S("/w%d.out", w), 1 << 20);
      size_t i = 0;
      while (i < o.size()) {
        size_t j = o.find('\n', i);
        std::string l = o.substr(i + 1, j - i - 1);
        if (o[i] == 'o') tot.outcomes.insert(std::string(s.name) + ": " + l);
        if (o[i] == 'k') tot.known[l]++;
        i = j + 1;
      }
    }
    tot.runs += runs;
    tot.ops += ops;
    tot.capped |= capped;
    // One sample per scenario: the first run with non-default choices.
    {
      std::string text;
      std::vector<int> ch;
      for (int i = 0; i < 64; i++) ch.push_back(0);
      std::string e = Replay(s, {}, 60, &text, nullptr);
      if (text.size() > 700) text = text.substr(0, 700) + "...";
      if (!samples.empty()) samples += ",";
      samples += "\"" + Esc(std::string(s.name) + ": " + text) + "\"";
    }
    per += S("%s{\"scenario\":\"%s\",\"runs\":%llu,\"transitions\":%llu,"
             "\"states\":%zu,\"wall_s\":%.2f,\"complete\":%s}",
             per.empty() ? "" : ",", s.name, (unsigned long long)runs,
             (unsigned long long)ops, tot.states.size() - st_before,
             Now() - st0, capped ? "false" : "true");
    fprintf(stderr, "scenario %-28s runs=%llu ops=%llu states=%zu %.1fs%s\n",
            s.name, (unsigned long long)runs, (unsigned long long)ops,
            tot.states.size() - st_before, Now() - st0,
            capped ? " CAPPED" : "");
    munmap(slots, sizeof(Slot) * nw);
  }
  std::string oc, kn, as;
  int k = 0;
  for (auto& o : tot.outcomes)
    if (k++ < 40) oc += (oc.empty() ? "\"" : ",\"") + Esc(o) + "\"";
  for (auto& [id, n] : tot.known)
    kn += (kn.empty() ? "\"" : ",\"") + Esc(id) + "\"";
  for (auto a : assumptions)
    as += (as.empty() ? "\"" : ",\"") + Esc(a) + "\"";
  FILE* f = fopen(out.c_str(), "w");
  fprintf(f,
          "{\"states\":%zu,\"transitions\":%llu,\"runs\":%llu,\"checks\":%llu,"
          "\"pruned\":%llu,\"max_choices\":%d,\"exhaustive\":%s,\"known\":[%s],"
          "\"bounds\":\"%s\",\"assumptions\":[%s],\"outcomes\":%zu,"
          "\"outcome_samples\":[%s],\"scenarios\":[%s],\"samples\":[%s],"
          "\"wall_s\":%.3f}\n",
          tot.states.size(), (unsigned long long)tot.ops,
          (unsigned long long)tot.runs, (unsigned long long)tot.checks,
          (unsigned long long)tot.pruned, tot.max_depth,
          tot.capped ? "false" : "true", kn.c_str(), Esc(bounds).c_str(),
          as.c_str(), tot.outcomes.size(), oc.c_str(), per.c_str(),
          samples.c_str(), Now() - t0);
  fclose(f);
  return 0;
}

}  // namespace mc
