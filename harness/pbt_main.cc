// Runner: generates cases in forked workers, survives crashes, shrinks the
// first failure and confirms it.  See check.py for how it is called.
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <unordered_set>

#include "pbt.h"

extern "C" {
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
__attribute__((weak)) void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);
__attribute__((weak)) size_t __asan_get_alloc_stack(void* p, void** trace, size_t n, int* tid);
__attribute__((weak)) void ERR_clear_error(void);
}

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1";
}
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=96:report_signal_unsafe=0:"
         "detect_deadlocks=0";
}

void pbt_set_death_callback(void (*)());
using pbt::Gen;
using Choices = std::vector<uint64_t>;

namespace {

constexpr int kCpuLimit = 60;    // seconds of CPU time for one case
constexpr int kWallLimit = 120;  // seconds without progress (deadlock)

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void on_cpu_limit(int) {
  static const char m[] = "HANG: one case used 60 s of CPU time\n";
  ssize_t r = write(2, m, sizeof(m) - 1);
  (void)r;
  _exit(98);
}

void arm(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// Memory mode (PBT_MEMORY): the property's own verdict is ignored; a case fails
// if it crashes, or if repeating it leaves memory allocated each time.
const bool memory_mode = getenv("PBT_MEMORY") != nullptr;
struct Event {
  const volatile void* p;
  size_t size;  // ~0: freed
};
constexpr size_t kEvents = 1 << 22;
Event events[kEvents];
size_t event_count = 0;
bool tracking = false;
void on_malloc(const volatile void* p, size_t n) {
  if (tracking && event_count < kEvents) events[event_count++] = {p, n};
}
void on_free(const volatile void* p) {
  if (tracking && event_count < kEvents) events[event_count++] = {p, ~(size_t)0};
}
std::string allocation_site(const void* p) {
  void* pc[64];
  int tid;
  size_t n = __asan_get_alloc_stack ? __asan_get_alloc_stack((void*)p, pc, 64, &tid) : 0;
  std::string r;
  for (size_t i = 0; i < n && i < 24; ++i) {
    char b[400];
    __sanitizer_symbolize_pc(pc[i], "%f %s:%l", b, sizeof b);
    r += std::string("\n    ") + b;
  }
  return r;
}
// The number of blocks that one run of the case leaves allocated.
size_t leaked(pbt::Property fn, const Choices& c, std::string* msg) {
  static bool installed = false;
  if (!installed) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  installed = true;
  event_count = 0;
  bool other = false;
  tracking = true;
  {
    Gen g(c);
    try {
      fn(g);
    } catch (...) {
      other = true;
    }
    if (pbt::after_case) pbt::after_case();
    if (ERR_clear_error) ERR_clear_error();
  }
  tracking = false;
  if (other || event_count == kEvents) return 0;
  std::map<const volatile void*, size_t> live;
  size_t older = 0;  // blocks from before that were released: something was replaced
  for (size_t i = 0; i < event_count; ++i) {
    if (events[i].size == ~(size_t)0)
      older += events[i].p && live.erase(events[i].p) == 0;
    else
      live[events[i].p] = events[i].size;
  }
  if (live.size() <= older) return 0;
  if (!live.empty()) {
    std::ostringstream o;
    o << live.size() << " block(s) still allocated after everything was destroyed, one of " << live.begin()->second
      << " bytes from" << allocation_site((const void*)live.begin()->first);
    *msg = o.str();
  }
  return live.size();
}
bool run_memory_case(pbt::Property fn, Gen& g, std::string* msg) {
  try {
    fn(g);
  } catch (...) {
    return false;
  }
  if (!__sanitizer_install_malloc_and_free_hooks) return false;  // under valgrind
  Choices c = g.choices();
  for (int k = 0; k < 3; ++k)
    if (leaked(fn, c, msg) == 0) return false;
  return true;
}

// Runs one case; returns true and sets *msg on failure.
bool run_case(pbt::Property fn, Gen& g, std::string* msg) {
  if (memory_mode) return run_memory_case(fn, g, msg);
  try {
    fn(g);
    return false;
  } catch (const pbt::Fail& f) {
    *msg = f.msg;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
  }
  return true;
}

struct Slot {
  std::atomic<uint64_t> current;  // index + 1
  std::atomic<uint64_t> evaluations;
  std::atomic<double> started;
  char pad[104];
};
struct Shared {
  std::atomic<int> stop;
  Slot slot[64];
};

std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)),
                     std::istreambuf_iterator<char>());
}

std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

// The interesting lines of a crash log.
std::string crash_summary(const std::string& log) {
  std::string r;
  std::istringstream in(log);
  std::string l;
  int n = 0;
  while (std::getline(in, l) && n < 12) {
    if (l.find("ERROR:") != std::string::npos ||
        l.find("WARNING: ThreadSanitizer") != std::string::npos ||
        l.find("runtime error") != std::string::npos ||
        l.find("/repo/") != std::string::npos ||
        l.find("SUMMARY") != std::string::npos ||
        l.find("ssertion") != std::string::npos ||
        l.find("HANG") != std::string::npos ||
        l.find("terminate") != std::string::npos) {
      r += l + "\n";
      ++n;
    }
  }
  if (r.empty()) r = log.substr(0, 400);
  return r;
}

// Runs body in a forked child.  Returns 0 if it passed, else 1 with a message.
int run_child(const std::string& dir, const std::function<bool(std::string*)>& body,
              std::string* msg, double wall = kWallLimit) {
  std::string out = dir + "/child.msg", err = dir + "/child.err";
  unlink(out.c_str());
  pid_t p = fork();
  if (p == 0) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    signal(SIGPROF, on_cpu_limit);
    arm(kCpuLimit);
    std::string m;
    bool failed = body(&m);
    if (failed) {
      std::ofstream o(out, std::ios::binary);
      o << m;
    }
    _exit(failed ? 1 : 0);
  }
  double t0 = now();
  int st = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    double el = now() - t0;
    if (el > wall) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      *msg = "HANG: no progress (deadlock)";
      return 1;
    }
    usleep(el < 0.05 ? 200 : 5000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
    *msg = slurp(out);
    return 1;
  }
  *msg = "crash (" +
         (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                          : "exit " + std::to_string(WEXITSTATUS(st))) +
         "): " + crash_summary(slurp(err));
  return 1;
}

uint64_t case_seed(uint64_t seed, const char* name, uint64_t i) {
  uint64_t h = pbt::mix64(seed);
  for (const char* p = name; *p; ++p) h = pbt::mix64(h ^ (unsigned char)*p);
  return pbt::mix64(h ^ pbt::mix64(i + 1));
}

struct Replay {
  std::string target, kind;  // kind: choices | history
  Choices choices;
  uint64_t seed = 0, first = 0, last = 0, step = 1;
};

bool run_replay_body(const pbt::Target& t, const Replay& r, std::string* msg) {
  if (r.kind == "choices") {
    Gen g(r.choices);
    return run_case(t.fn, g, msg);
  }
  for (uint64_t i = r.first; i <= r.last; i += r.step) {
    Gen g(case_seed(r.seed, t.name, i), i);
    if (run_case(t.fn, g, msg)) return true;
  }
  return false;
}

std::string replay_text(const Replay& r) {
  std::ostringstream o;
  o << "target " << r.target << "\nkind " << r.kind << "\n";
  if (r.kind == "choices") {
    o << "choices";
    for (auto c : r.choices) o << " " << c;
    o << "\n";
  } else {
    o << "history " << r.seed << " " << r.first << " " << r.last << " "
      << r.step << "\n";
  }
  return o.str();
}

bool read_replay(const std::string& file, Replay* r) {
  std::istringstream in(slurp(file));
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "target") s >> r->target;
    if (k == "kind") s >> r->kind;
    if (k == "choices") {
      uint64_t x;
      while (s >> x) r->choices.push_back(x);
    }
    if (k == "history") s >> r->seed >> r->first >> r->last >> r->step;
  }
  return !r->target.empty() && !r->kind.empty();
}

const pbt::Target* find_target(const std::string& n) {
  for (auto& t : pbt::targets())
    if (n == t.name) return &t;
  return nullptr;
}

Choices shrink(const pbt::Target& t, Choices c, const std::string& dir,
               std::string* msg, int* attempts, double budget) {
  double t0 = now();
  auto still = [&](const Choices& x) {
    if (now() - t0 > budget || *attempts > 4000) return false;
    ++*attempts;
    std::string m;
    Replay r;
    r.kind = "choices";
    r.choices = x;
    if (!run_child(dir, [&](std::string* mm) { return run_replay_body(t, r, mm); }, &m))
      return false;
    if (m.find("HANG") != std::string::npos && msg->find("HANG") == std::string::npos)
      return false;
    *msg = m;
    return true;
  };
  // Cut the tail.
  for (size_t keep = 0; keep < c.size(); keep = keep ? keep * 2 : 1) {
    Choices x(c.begin(), c.begin() + keep);
    if (still(x)) {
      c = x;
      break;
    }
  }
  bool changed = true;
  for (int round = 0; changed && round < 8 && now() - t0 < budget; ++round) {
    changed = false;
    for (size_t len : {32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = c.size(); i-- > 0;) {
        if (i + len > c.size()) continue;
        Choices x = c;
        x.erase(x.begin() + i, x.begin() + i + len);
        if (still(x)) {
          c = x;
          changed = true;
        }
        if (now() - t0 > budget) return c;
      }
    }
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] == 0) continue;
      Choices x = c;
      x[i] = 0;
      if (still(x)) {
        c = x;
        changed = true;
        continue;
      }
      uint64_t lo = 0, hi = c[i];  // lo fails to reproduce, hi reproduces
      for (int k = 0; hi - lo > 1 && k < 24; ++k) {
        uint64_t mid = lo + (hi - lo) / 2;
        x[i] = mid;
        if (still(x)) {
          hi = mid;
          changed = true;
        } else {
          lo = mid;
        }
      }
      c[i] = hi;
      if (now() - t0 > budget) return c;
    }
  }
  while (!c.empty() && c.back() == 0) {
    Choices x(c.begin(), c.end() - 1);
    if (!still(x)) break;
    c = x;
  }
  return c;
}

int do_replay(const std::string& file) {
  Replay r;
  if (!read_replay(file, &r)) {
    std::cerr << "cannot read replay file\n";
    return 2;
  }
  const pbt::Target* t = find_target(r.target);
  if (!t) {
    std::cerr << "no such target here: " << r.target << "\n";
    return 3;
  }
  if (pbt::global_setup) pbt::global_setup();
  if (getenv("PBT_TRACE")) {  // No fork: for debuggers.
    std::string m;
    Gen g(r.choices);
    bool f = run_case(t->fn, g, &m);
    std::cout << "case: " << g.notes() << "\n" << (f ? m : "passed") << "\n";
    return f;
  }
  char dir[] = "/tmp/pbtreplay.XXXXXX";
  if (!mkdtemp(dir)) return 2;
  std::string msg;
  int rc = run_child(dir, [&](std::string* m) { return run_replay_body(*t, r, m); }, &msg, 600);
  std::cout << (rc ? "FAILED: " + msg : std::string("passed")) << "\n";
  unlink((std::string(dir) + "/child.msg").c_str());
  unlink((std::string(dir) + "/child.err").c_str());
  rmdir(dir);
  return rc;
}

int do_run(const pbt::Target& t, uint64_t seed, uint64_t cases, int workers,
           const std::string& dir, double max_seconds) {
  auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(*sh));
  double t0 = now();
  if (pbt::global_setup) pbt::global_setup();
  std::vector<pid_t> pid(workers);
  auto worker = [&](int w) {
    std::string base = dir + "/w" + std::to_string(w);
    int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    signal(SIGPROF, on_cpu_limit);
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t nontrivial = 0;
    bool capped = false;
    int rc = 0;
    for (uint64_t i = w; i < cases; i += workers) {
      if (sh->stop.load()) break;
      if ((i / workers) % 16 == 0 && now() - t0 > max_seconds) {
        capped = true;
        break;
      }
      sh->slot[w].started = now();
      sh->slot[w].current = i + 1;
      arm(kCpuLimit);
      Gen g(case_seed(seed, t.name, i), i);
      std::string msg;
      bool failed = run_case(t.fn, g, &msg);
      sh->slot[w].evaluations++;
      if (failed) {
        std::ofstream o(base + ".fail");
        o << msg;
        rc = 1;
        break;
      }
      for (auto& l : g.labels()) labels[l]++;
      if (g.is_nontrivial()) {
        ++nontrivial;
        if (distinct.size() < 4000000) distinct.insert(g.fingerprint());
        if (samples.size() < 2) samples.push_back(g.notes().substr(0, 400));
      }
    }
    arm(0);
    sh->slot[w].current = 0;
    std::ofstream o(base + ".stats");
    o << nontrivial << " " << capped << "\n" << labels.size() << "\n";
    for (auto& l : labels) o << l.second << " " << l.first << "\n";
    o << samples.size() << "\n";
    for (auto s : samples) {
      std::replace(s.begin(), s.end(), '\n', ' ');
      o << s << "\n";
    }
    o.close();
    std::ofstream d(base + ".dist", std::ios::binary);
    for (uint64_t x : distinct) d.write((const char*)&x, 8);
    d.close();
    _exit(rc);
  };
  for (int w = 0; w < workers; ++w) {
    pid_t p = fork();
    if (p == 0) worker(w);
    pid[w] = p;
  }
  // Wait for the workers.
  int64_t fail_index = -1;
  int fail_worker = -1;
  std::string fail_msg;
  int left = workers;
  bool infra_error = false;
  std::vector<bool> done(workers, false);
  while (left > 0) {
    bool any = false;
    for (int w = 0; w < workers; ++w) {
      if (done[w]) continue;
      int st;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        done[w] = true;
        any = true;
        --left;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        uint64_t cur = sh->slot[w].current;
        std::string base = dir + "/w" + std::to_string(w);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
          std::ifstream s(base + ".fail");
          if (fail_index < 0) {
            fail_msg = slurp(base + ".fail");
            // current was reset; recover the index from the count.
            fail_index = w + (int64_t)(sh->slot[w].evaluations - 1) * workers;
            fail_worker = w;
          }
        } else if (cur == 0 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
          infra_error = true;  // Killed from outside (out of memory).
        } else if (fail_index < 0) {
          fail_index = (int64_t)cur - 1;
          fail_worker = w;
          fail_msg = "crash: " + crash_summary(slurp(base + ".err"));
        }
        sh->stop = 1;
      } else {
        uint64_t cur = sh->slot[w].current;
        double st0 = sh->slot[w].started;
        if (cur != 0 && now() - st0 > kWallLimit && fail_index < 0) {
          fail_index = (int64_t)cur - 1;
          fail_worker = w;
          fail_msg = "HANG: no progress (deadlock)";
          sh->stop = 1;
          kill(pid[w], SIGKILL);
        } else if (sh->stop && cur != 0 && now() - st0 > kWallLimit) {
          kill(pid[w], SIGKILL);
        }
      }
    }
    if (!any) usleep(5000);
  }
  uint64_t evaluations = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  bool capped = false;
  for (int w = 0; w < workers; ++w) {
    evaluations += sh->slot[w].evaluations;
    std::string base = dir + "/w" + std::to_string(w);
    std::ifstream in(base + ".stats");
    uint64_t nt = 0;
    bool cap = false;
    size_t n = 0;
    if (in >> nt >> cap >> n) {
      nontrivial += nt;
      capped |= cap;
      std::string l;
      for (size_t i = 0; i < n; ++i) {
        uint64_t c;
        in >> c;
        in.get();
        std::getline(in, l);
        labels[l] += c;
      }
      in >> n;
      in.get();
      for (size_t i = 0; i < n && std::getline(in, l); ++i)
        if (samples.size() < 4) samples.push_back(l);
    }
    std::string d = slurp(base + ".dist");
    for (size_t i = 0; i + 8 <= d.size(); i += 8) {
      uint64_t x;
      memcpy(&x, &d[i], 8);
      distinct.insert(x);
    }
  }
  std::string failure;
  if (fail_index >= 0) {
    // Record the choices of the failing case, then confirm and shrink.
    std::string cf = dir + "/choices";
    Replay rep;
    rep.target = t.name;
    std::string m;
    {
      // The choices drawn up to the failure; survives a crash because the
      // child streams them out.
      run_child(dir, [&](std::string* mm) {
        Gen g(case_seed(seed, t.name, fail_index), fail_index);
        // A crash loses the choices, so first run on a copy that records
        // them from an exit hook: see below.
        static Gen* gp;
        static std::string file;
        gp = &g;
        file = cf;
        auto dump = [] {
          std::ofstream o(file);
          for (auto c : gp->choices()) o << c << " ";
        };
        static void (*dumper)();
        dumper = dump;
        auto h = [](int s) {
          dumper();
          signal(s, SIG_DFL);
          raise(s);
        };
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, h);
        // Sanitizer deaths end in _exit: run the death callback if there is one.
        pbt_set_death_callback(dump);
        bool f = run_case(t.fn, g, mm);
        dump();
        return f;
      }, &m);
    }
    std::istringstream in(slurp(cf));
    uint64_t x;
    rep.kind = "choices";
    while (in >> x) rep.choices.push_back(x);
    double deadline = now() + 300;
    auto attempt = [&](const Replay& r, std::string* mm) {
      double wall = r.kind == "choices" ? kWallLimit : std::max(1.0, deadline - now());
      return run_child(dir, [&](std::string* q) { return run_replay_body(t, r, q); }, mm, wall) != 0 &&
             (r.kind == "choices" || mm->compare(0, 4, "HANG") != 0);
    };
    int confirmed = 0, attempts = 0, tries = 0;
    std::string msg = fail_msg;
    // Under TSan a failure depends on the schedule; one more report suffices.
    const int need = getenv("PBT_CONFIRM") ? atoi(getenv("PBT_CONFIRM")) : 3;
    auto confirm = [&](const Replay& r) {
      confirmed = 0;
      tries = 0;
      while (tries < 24 && confirmed < need && (tries == 0 || now() < deadline)) {
        ++tries;
        std::string mm;
        if (attempt(r, &mm)) {
          ++confirmed;
          msg = mm;
        } else if (need > 1 && tries >= 6 && confirmed == 0) {
          break;
        }
      }
      return confirmed >= need;
    };
    bool ok = confirm(rep);
    if (ok) {
      Replay orig = rep;
      bool flaky = tries > need;
      if (!flaky) {
        rep.choices = shrink(t, rep.choices, dir, &msg, &attempts, 60);
        if (!confirm(rep)) {
          rep = orig;
          ok = confirm(rep);
        }
      }
    }
    if (!ok) {
      // Depends on earlier cases of the same process: replay those too.
      rep.kind = "history";
      rep.choices.clear();
      rep.seed = seed;
      rep.last = fail_index;
      rep.step = workers;
      deadline = now() + 90;
      uint64_t first = fail_worker;
      for (uint64_t back = 1;; back *= 2) {
        uint64_t span = back * workers;
        bool full = (uint64_t)fail_index < span + first;
        rep.first = full ? first : fail_index - span;
        if (confirm(rep)) {
          ok = true;
          break;
        }
        if (full || now() > deadline) break;
      }
    }
    std::string notes;
    if (rep.kind == "choices" && ok) {
      std::string nf = dir + "/notes";
      unlink(nf.c_str());
      run_child(dir, [&](std::string* mm) {
        Gen g(rep.choices);
        static Gen* gp;
        static std::string file;
        gp = &g;
        file = nf;
        auto dump = [] {
          std::ofstream o(file);
          o << gp->notes();
        };
        pbt_set_death_callback(dump);
        bool f = run_case(t.fn, g, mm);
        dump();
        return f;
      }, &m);
      notes = slurp(nf);
    }
    std::ostringstream o;
    o << "{\"confirmed\":" << (ok ? "true" : "false")
      << ",\"index\":" << fail_index << ",\"message\":" << json(msg)
      << ",\"first_message\":" << json(fail_msg)
      << ",\"case\":" << json(notes)
      << ",\"shrink_attempts\":" << attempts
      << ",\"replay\":" << json(replay_text(rep)) << "}";
    failure = o.str();
  }
  std::ostringstream o;
  o << "{\"target\":" << json(t.name) << ",\"rule\":" << json(t.rule)
    << ",\"requested\":" << cases << ",\"evaluations\":" << evaluations
    << ",\"nontrivial\":" << nontrivial
    << ",\"distinct_nontrivial\":" << distinct.size()
    << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"infra_error\":" << (infra_error && failure.empty() ? "true" : "false")
    << ",\"wall_s\":" << now() - t0 << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) {
    o << (first ? "" : ",") << json(l.first) << ":" << l.second;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    o << (first ? "" : ",") << json(s);
    first = false;
  }
  o << "]";
  if (!failure.empty()) o << ",\"failure\":" << failure;
  o << "}";
  std::ofstream f(dir + "/result.json");
  f << o.str() << "\n";
  return 0;
}

}  // namespace

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void pbt_set_death_callback(void (*f)()) { __sanitizer_set_death_callback(f); }
#else
void pbt_set_death_callback(void (*)()) {}
#endif
#else
void pbt_set_death_callback(void (*)()) {}
#endif

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k == "--list") {
      for (auto& t : pbt::targets())
        std::cout << t.name << " " << t.quick << " " << t.thorough << "\n";
      return 0;
    }
    if (i + 1 < argc) a[k] = argv[++i];
  }
  if (a.count("--replay")) return do_replay(a["--replay"]);
  if (a.count("--from-bytes")) {  // libFuzzer artifact -> replay file
    const pbt::Target* t = find_target(a["--target"]);
    if (!t) return 2;
    std::string d = slurp(a["--from-bytes"]);
    static Gen* gp;
    static std::string file;
    Gen g((const uint8_t*)d.data(), d.size());
    gp = &g;
    file = a["--out"];
    static std::string tn = t->name;
    auto dump = [] {
      Replay r;
      r.target = tn;
      r.kind = "choices";
      r.choices = gp->choices();
      std::ofstream o(file);
      o << replay_text(r);
    };
    pbt_set_death_callback(dump);
    static void (*dumper)();
    dumper = dump;
    auto h = [](int) {
      dumper();
      _exit(1);
    };
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) signal(s, h);
    arm(kCpuLimit);
    if (pbt::global_setup) pbt::global_setup();
    std::string m;
    bool f = run_case(t->fn, g, &m);
    dump();
    if (f) std::cout << m << "\n";
    return f;
  }
  const pbt::Target* t = find_target(a["--run"]);
  if (!t) {
    std::cerr << "no such target\n";
    return 2;
  }
  return do_run(*t, strtoull(a["--seed"].c_str(), nullptr, 10),
                strtoull(a["--cases"].c_str(), nullptr, 10),
                std::min(64, std::max(1, atoi(a["--workers"].c_str()))), a["--dir"],
                a.count("--max-seconds") ? atof(a["--max-seconds"].c_str()) : 1e9);
}
