// Fork-snapshot depth-first exploration of the real implementation.
//
// Every explored transition runs in a forked copy of the state it starts from,
// so all operation sequences of a bounded alphabet are executed on the real
// code, each prefix only once, and crashes / hangs of the code under test are
// observed by the parent.  Counters and the set of distinct states live in
// shared memory; violations are appended to a file.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <vector>
#include <string>
#include <functional>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <map>

namespace vf {

struct Shared {
  std::atomic<uint64_t> states, transitions, cases, evals, nontrivial, skipped, viol, next_case, refused;
  std::atomic<uint64_t> stat[32];
  std::atomic<int> stop;
  static constexpr size_t N = 1u << 22;
  std::atomic<uint64_t> tab[N];
};

inline Shared*& sh() { static Shared* p = nullptr; return p; }

inline void shared_init()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  sh() = new (p) Shared();
}

// returns true when h was not seen before
inline bool seen_state(uint64_t h)
{
  if (h == 0) h = 1;
  size_t i = h & (Shared::N-1);
  for (size_t k = 0; k < 4096; ++k, i = (i+1) & (Shared::N-1)) {
    uint64_t cur = sh()->tab[i].load();
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t z = 0;
      if (sh()->tab[i].compare_exchange_strong(z, h)) { ++sh()->states; return true; }
      if (z == h) return false;
    }
  }
  return false;   // table full: under-count, never over-count
}

struct Cfg {
  std::string prop = "?", tier = "quick", out = ".", family;
  int jobs = 8, op_timeout = 60;
  double budget = 1e9;
  int max_viol = 20;
  std::string replay;     // replay file: "case ||| op op op"
  bool verbose = false;
};
inline Cfg& cfg() { static Cfg c; return c; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
inline double& t0() { static double t = now(); return t; }

// one violation = one line "<case> ||| <ops> ||| <message>"
inline void report(const std::string& kase, const std::string& ops, const std::string& msg)
{
  ++sh()->viol;
  std::string line = kase + " ||| " + ops + " ||| " + msg + "\n";
  for (auto& ch : line) if (ch == '\n' && &ch != &line.back()) ch = ' ';
  int fd = open((cfg().out + "/violations.txt").c_str(), O_WRONLY|O_CREAT|O_APPEND, 0644);
  if (fd >= 0) { ssize_t r = write(fd, line.data(), line.size()); (void)r; close(fd); }
  if ((int)sh()->viol.load() >= cfg().max_viol) sh()->stop = 1;
}

inline void child_limits()
{
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}

inline std::string sig_text(int st)
{
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM) return "does not terminate within " + std::to_string(cfg().op_timeout) + " s";
    return std::string("crash: signal ") + std::to_string(s) + " (" + strsignal(s) + ")";
  }
  return "abnormal exit status " + std::to_string(WEXITSTATUS(st));
}

// Run f in a forked child; returns "" or a description of how it died.
inline std::string in_child(const std::function<void()>& f)
{
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    child_limits();
    alarm(cfg().op_timeout);
    f();
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  return sig_text(st);
}

// Distribute cases 0..n-1 over cfg().jobs worker processes.
inline void parallel_cases(size_t n, const std::function<void(size_t)>& f,
                           const std::function<std::string(size_t)>& name)
{
  std::vector<pid_t> ps;
  fflush(nullptr);
  for (int j = 0; j < cfg().jobs; ++j) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
      child_limits();
      while (!sh()->stop) {
        size_t i = sh()->next_case.fetch_add(1);
        if (i >= n) break;
        if (now() - t0() > cfg().budget) { ++sh()->skipped; continue; }
        ++sh()->cases;
        f(i);
      }
      fflush(nullptr);
      _exit(0);
    }
    ps.push_back(p);
  }
  for (pid_t p : ps) {
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      fprintf(stderr, "worker died: %s\n", sig_text(st).c_str());
      report("worker", "-", "exploration worker died: " + sig_text(st));
    }
  }
  (void)name;
}

inline void write_summary(const std::map<std::string,std::string>& extra = {})
{
  FILE* f = fopen((cfg().out + "/summary.json").c_str(), "w");
  if (!f) { perror("summary"); exit(3); }
  fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"cases\": %llu, \"evals\": %llu, \"nontrivial\": %llu, \"skipped\": %llu, \"violations\": %llu, \"refused\": %llu, \"wall_s\": %.2f",
    (unsigned long long)sh()->states.load(), (unsigned long long)sh()->transitions.load(),
    (unsigned long long)sh()->cases.load(), (unsigned long long)sh()->evals.load(),
    (unsigned long long)sh()->nontrivial.load(), (unsigned long long)sh()->skipped.load(),
    (unsigned long long)sh()->viol.load(), (unsigned long long)sh()->refused.load(), now()-t0());
  for (auto& e : extra) fprintf(f, ", \"%s\": %s", e.first.c_str(), e.second.c_str());
  fprintf(f, "}\n");
  fclose(f);
}

inline void parse_args(int argc, char** argv)
{
  t0();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i+1];
    if (k == "--prop") cfg().prop = v;
    else if (k == "--tier") cfg().tier = v;
    else if (k == "--out") cfg().out = v;
    else if (k == "--jobs") cfg().jobs = atoi(v.c_str());
    else if (k == "--budget") cfg().budget = atof(v.c_str());
    else if (k == "--family") cfg().family = v;
    else if (k == "--replay") cfg().replay = v;
    else if (k == "--max-viol") cfg().max_viol = atoi(v.c_str());
    else if (k == "--timeout") cfg().op_timeout = atoi(v.c_str());
    else if (k == "--verbose") cfg().verbose = atoi(v.c_str());
    else { fprintf(stderr, "unknown argument %s\n", k.c_str()); exit(3); }
  }
  shared_init();
}

} // namespace vf
