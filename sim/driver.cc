// Search over seeds, determinism self-check, violation gating, minimisation,
// replay files and evidence.  Not instrumented; single-threaded; every run is
// a freshly forked child.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace sim;
using u64 = std::uint64_t;
using u32 = std::uint32_t;

namespace {

template <class T> T *shared_alloc(size_t n = 1) {
  void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<T *>(p);
}

double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

struct Streams {
  std::vector<u64> v[kStreams];
  size_t size() const { return v[0].size() + v[1].size() + v[2].size(); }
  void trim() {
    for (auto &s : v) {
      while (!s.empty() && s.back() == 0) {
        s.pop_back();
      }
    }
  }
};

struct Outcome {
  int status = 0;
  std::string cls, msg;
  u64 hash = 0, ihash = 0, steps = 0;
  Streams out;
  int overflow = 0;
  bool same(const Outcome &o) const {
    return status == o.status && cls == o.cls && hash == o.hash &&
           ihash == o.ihash && steps == o.steps;
  }
};

void reset_shared(Shared *sh) {
  sh->status = kRunning;
  sh->verbose = 0;
  sh->replay = 0;
  sh->cls[0] = 0;
  sh->msg[0] = 0;
  memset(&sh->hash, 0,
         offsetof(Shared, in) - offsetof(Shared, hash));
}

std::string g_err_path; // scratch file for the child's stderr

// Runs one child; the shared block `sh` holds the result.
void run_once(Shared *sh, bool keep_err) {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    g_sh = sh;
    int fd = open(keep_err ? g_err_path.c_str() : "/dev/null",
                  O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      close(fd);
    }
    alarm(240);
    run_child();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (sh->status == kRunning) {
    sh->status = kHarnessError;
    if (WIFSIGNALED(st)) {
      snprintf(sh->msg, sizeof sh->msg,
               "run died with signal %d outside the handlers (seed %llu)",
               WTERMSIG(st), static_cast<unsigned long long>(sh->seed));
    } else {
      snprintf(sh->msg, sizeof sh->msg, "run exited early with status %d", st);
    }
  }
}

Outcome outcome_of(const Shared *sh) {
  Outcome o;
  o.status = sh->status;
  o.cls = sh->cls;
  o.msg = sh->msg;
  o.hash = sh->hash;
  o.ihash = sh->ihash;
  o.steps = sh->steps;
  o.overflow = sh->overflow;
  for (int s = 0; s < kStreams; ++s) {
    o.out.v[s].assign(sh->out[s], sh->out[s] + sh->nout[s]);
  }
  return o;
}

Outcome run_seed(Shared *sh, u64 seed) {
  reset_shared(sh);
  sh->seed = seed;
  run_once(sh, false);
  return outcome_of(sh);
}

Outcome run_streams(Shared *sh, const Streams &in, u64 seed, bool verbose) {
  reset_shared(sh);
  sh->seed = seed;
  sh->replay = 1;
  sh->verbose = verbose;
  for (int s = 0; s < kStreams; ++s) {
    sh->nin[s] = static_cast<u32>(std::min(in.v[s].size(), kStreamCap));
    std::copy(in.v[s].begin(), in.v[s].begin() + sh->nin[s], sh->in[s]);
  }
  run_once(sh, verbose);
  return outcome_of(sh);
}

// ---- aggregation across workers -----------------------------------------------------
constexpr u32 kSetCap = 1u << 20;
struct Agg {
  u64 max_steps;
  u64 runs, evals, nontrivial, steps, switches, preemptions, sim_ns, threads;
  u64 failstops, overflow, rechecks, mismatches, harness_errors, known;
  u64 mismatch_seed;
  char mismatch_msg[256];
  char harness_msg[1024];
  Counter faults[kMaxCounters], probes[kMaxCounters];
  u64 fault_runs; // runs with at least one fault
  u32 nsig, nil;
  u64 sig[kSetCap], il[kSetCap];
  int has_violation;
  u64 vio_seed;
  char known_msg[16][512];
  int nknown;
};
struct Control {
  u64 next;
  int stop;
};

bool set_insert(u64 *tab, u32 *n, u64 v) {
  if (v == 0) {
    v = 1;
  }
  if (*n > kSetCap / 2) {
    return false;
  }
  for (u64 h = v * 0x9E3779B97F4A7C15ull >> 44;; ++h) {
    u64 &e = tab[h & (kSetCap - 1)];
    if (e == v) {
      return false;
    }
    if (e == 0) {
      e = v;
      ++*n;
      return true;
    }
  }
}

void merge(Counter *to, const Counter *from) {
  for (int i = 0; i < kMaxCounters && from[i].name[0]; ++i) {
    for (int j = 0; j < kMaxCounters; ++j) {
      if (!to[j].name[0]) {
        memcpy(to[j].name, from[i].name, sizeof to[j].name);
      }
      if (strcmp(to[j].name, from[i].name) == 0) {
        to[j].value += from[i].value;
        break;
      }
    }
  }
}

std::vector<std::pair<std::string, std::string>> g_known; // class, substring

bool is_known(const Outcome &o) {
  for (const auto &k : g_known) {
    if (o.cls == k.first && o.msg.find(k.second) != std::string::npos) {
      return true;
    }
  }
  return false;
}

u64 seed_of(u64 base, u64 index) {
  u64 z = base * 0xD1342543DE82EF95ull + index * 0x9E3779B97F4A7C15ull +
          0x2545F4914F6CDD1Dull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

void worker(Control *ctl, Agg *agg, u64 base, double deadline, u64 max_runs,
            u64 recheck_every) {
  Shared *sh = shared_alloc<Shared>();
  while (!__atomic_load_n(&ctl->stop, __ATOMIC_RELAXED) && wall() < deadline) {
    const u64 idx = __atomic_fetch_add(&ctl->next, 1, __ATOMIC_RELAXED);
    if (idx >= max_runs) {
      break;
    }
    const u64 seed = seed_of(base, idx);
    Outcome o = run_seed(sh, seed);
    ++agg->runs;
    agg->evals += sh->evals;
    agg->nontrivial += sh->nontrivial;
    agg->steps += sh->steps;
    agg->max_steps = std::max(agg->max_steps, sh->steps);
    agg->switches += sh->switches;
    agg->preemptions += sh->preemptions;
    agg->sim_ns += sh->sim_ns;
    agg->threads += sh->threads;
    agg->overflow += static_cast<u64>(sh->overflow);
    agg->fault_runs += sh->faults[0].name[0] != 0;
    merge(agg->faults, sh->faults);
    merge(agg->probes, sh->probes);
    for (u32 i = 0; i < sh->nsigs; ++i) {
      set_insert(agg->sig, &agg->nsig, sh->sigs[i]);
    }
    if (sh->switches) {
      set_insert(agg->il, &agg->nil, sh->ihash);
    }
    if (o.status == kFailstop) {
      ++agg->failstops;
    }
    if (o.status == kHarnessError) {
      if (!agg->harness_errors++) {
        snprintf(agg->harness_msg, sizeof agg->harness_msg, "seed %llu: %s",
                 static_cast<unsigned long long>(seed), o.msg.c_str());
      }
      if (agg->harness_errors > 20) {
        break;
      }
      continue;
    }
    if (o.status == kViolation) {
      if (is_known(o)) {
        ++agg->known;
        bool seen = false;
        for (int i = 0; i < agg->nknown; ++i) {
          seen = seen || o.cls == agg->known_msg[i];
        }
        if (!seen && agg->nknown < 16) {
          snprintf(agg->known_msg[agg->nknown++], 512, "%s", o.cls.c_str());
        }
        continue;
      }
      agg->has_violation = 1;
      agg->vio_seed = seed;
      __atomic_store_n(&ctl->stop, 1, __ATOMIC_RELAXED);
      break;
    }
    if (recheck_every && idx % recheck_every == 0) {
      Outcome o2 = run_seed(sh, seed);
      ++agg->rechecks;
      if (!o.same(o2)) {
        ++agg->mismatches;
        agg->mismatch_seed = seed;
        snprintf(agg->mismatch_msg, sizeof agg->mismatch_msg,
                 "status %d/%d hash %llx/%llx order %llx/%llx steps %llu/%llu",
                 o.status, o2.status, static_cast<unsigned long long>(o.hash),
                 static_cast<unsigned long long>(o2.hash),
                 static_cast<unsigned long long>(o.ihash),
                 static_cast<unsigned long long>(o2.ihash),
                 static_cast<unsigned long long>(o.steps),
                 static_cast<unsigned long long>(o2.steps));
      }
    }
  }
}

// ---- minimisation ------------------------------------------------------------------
struct Minimiser {
  Shared *sh;
  u64 seed;
  std::string cls;
  double deadline;
  Streams best;
  u64 tries = 0;

  bool attempt(Streams cand) {
    if (wall() > deadline) {
      return false;
    }
    ++tries;
    Outcome o = run_streams(sh, cand, seed, false);
    if (o.status == kViolation && o.cls == cls && !is_known(o)) {
      // What the run consumed is what matters.
      Streams used = o.out;
      used.trim();
      cand.trim();
      best = used.size() <= cand.size() ? used : cand;
      return true;
    }
    return false;
  }

  void run() {
    bool progress = true;
    while (progress && wall() < deadline) {
      progress = false;
      for (int s : {2, 1, 0}) { // schedule, faults, workload
        if (best.v[s].empty()) {
          continue;
        }
        Streams c = best;
        c.v[s].clear();
        if (attempt(c)) {
          progress = true;
          continue;
        }
        // Truncate.
        size_t lo = 0, hi = best.v[s].size();
        while (hi - lo > 1 && wall() < deadline) {
          const size_t mid = (lo + hi) / 2;
          c = best;
          c.v[s].resize(std::min(mid, c.v[s].size()));
          if (attempt(c)) {
            progress = true;
            hi = std::min(mid, best.v[s].size());
          } else {
            lo = mid;
          }
        }
        // Zero, then delete, chunks.
        for (size_t len = std::max<size_t>(1, best.v[s].size() / 2); len >= 1;
             len /= 2) {
          for (size_t at = 0; at < best.v[s].size() && wall() < deadline;
               at += len) {
            const size_t stop = std::min(at + len, best.v[s].size());
            bool nonzero = false;
            for (size_t i = at; i < stop; ++i) {
              nonzero = nonzero || best.v[s][i] != 0;
            }
            if (nonzero) {
              c = best;
              std::fill(c.v[s].begin() + static_cast<long>(at),
                        c.v[s].begin() + static_cast<long>(stop), 0);
              if (attempt(c)) {
                progress = true;
                continue;
              }
            }
            if (len <= 16 || s != 2) {
              c = best;
              const size_t e = std::min(at + len, c.v[s].size());
              if (at < e) {
                const size_t before = best.size();
                c.v[s].erase(c.v[s].begin() + static_cast<long>(at),
                             c.v[s].begin() + static_cast<long>(e));
                if (attempt(c) && best.size() < before) {
                  progress = true;
                }
              }
            }
          }
          if (len == 1) {
            break;
          }
        }
        // Shrink values.
        for (size_t i = 0; i < best.v[s].size() && wall() < deadline; ++i) {
          for (u64 step = best.v[s][i] / 2; step > 0; step /= 2) {
            while (i < best.v[s].size() && best.v[s][i] >= step && step > 0 &&
                   wall() < deadline) {
              c = best;
              c.v[s][i] -= step;
              const u64 old = best.v[s][i];
              if (!attempt(c) || i >= best.v[s].size() ||
                  best.v[s][i] >= old) {
                break;
              }
              progress = true;
            }
            if (i >= best.v[s].size() || best.v[s][i] <= 1) {
              break;
            }
          }
        }
      }
    }
  }
};

// ---- JSON helpers ----------------------------------------------------------------------
std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

std::string self_exe() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  return n > 0 ? std::string(b, static_cast<size_t>(n)) : "";
}

std::string symbolise(const std::string &msg) {
  std::string out = msg;
  size_t at = 0;
  while ((at = out.find("pc 0x", at)) != std::string::npos) {
    size_t e = at + 5;
    while (e < out.size() && isxdigit(static_cast<unsigned char>(out[e]))) {
      ++e;
    }
    const std::string pc = out.substr(at + 3, e - at - 3);
    const std::string cmd =
        "addr2line -s -f -C -e " + self_exe() + " " + pc + " 2>/dev/null";
    std::string r;
    if (FILE *p = popen(cmd.c_str(), "r")) {
      char b[1024];
      while (fgets(b, sizeof b, p)) {
        r += b;
      }
      pclose(p);
    }
    for (auto &c : r) {
      if (c == '\n') {
        c = ' ';
      }
    }
    if (r.size() > 400) {
      r = "..." + r.substr(r.size() - 400);
    }
    out.replace(e, 0, " = " + r);
    at = e + r.size();
  }
  return out;
}

void write_replay(const std::string &path, const Outcome &o, const Streams &in,
                  u64 seed, const std::string &trace) {
  std::ofstream f(path);
  f << "{\n  \"property\": \"" << kProperty << "\",\n  \"class\": \""
    << esc(o.cls) << "\",\n  \"message\": \"" << esc(o.msg)
    << "\",\n  \"seed\": \"" << seed << "\",\n  \"hash\": \"" << o.hash
    << "\",\n  \"streams\": {\n";
  const char *names[] = {"workload", "faults", "schedule"};
  for (int s = 0; s < kStreams; ++s) {
    f << "    \"" << names[s] << "\": [";
    for (size_t i = 0; i < in.v[s].size(); ++i) {
      f << (i ? "," : "") << in.v[s][i];
    }
    f << "]" << (s + 1 < kStreams ? "," : "") << "\n";
  }
  f << "  },\n  \"trace\": [\n";
  std::istringstream is(trace);
  std::string line;
  bool first = true;
  int n = 0;
  while (std::getline(is, line) && n++ < 600) {
    f << (first ? "" : ",\n") << "    \"" << esc(line) << "\"";
    first = false;
  }
  f << "\n  ]\n}\n";
}

bool read_replay(const std::string &path, Streams *in, std::string *cls,
                 u64 *hash, u64 *seed) {
  std::ifstream f(path);
  if (!f) {
    return false;
  }
  std::stringstream ss;
  ss << f.rdbuf();
  const std::string s = ss.str();
  auto str_field = [&](const char *k) -> std::string {
    size_t p = s.find("\"" + std::string(k) + "\": \"");
    if (p == std::string::npos) {
      return "";
    }
    p += strlen(k) + 5;
    size_t e = p;
    while (e < s.size() && s[e] != '"') {
      e += s[e] == '\\' ? 2 : 1;
    }
    return s.substr(p, e - p);
  };
  if (str_field("property") != kProperty) {
    return false;
  }
  *cls = str_field("class");
  *hash = strtoull(str_field("hash").c_str(), nullptr, 10);
  *seed = strtoull(str_field("seed").c_str(), nullptr, 10);
  const char *names[] = {"workload", "faults", "schedule"};
  for (int k = 0; k < kStreams; ++k) {
    size_t p = s.find("\"" + std::string(names[k]) + "\": [");
    if (p == std::string::npos) {
      return false;
    }
    p = s.find('[', p) + 1;
    const char *c = s.c_str() + p;
    while (*c && *c != ']') {
      char *e;
      in->v[k].push_back(strtoull(c, &e, 10));
      if (e == c) {
        in->v[k].pop_back();
        break;
      }
      c = *e == ',' ? e + 1 : e;
    }
  }
  return true;
}

std::string slurp(const std::string &p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

std::string scratch_dir() {
  char t[] = "/tmp/simXXXXXX";
  return mkdtemp(t) ? t : "/tmp";
}

const char *arg(int argc, char **argv, const char *name, const char *def) {
  for (int i = 1; i + 1 < argc; ++i) {
    if (strcmp(argv[i], name) == 0) {
      return argv[i + 1];
    }
  }
  return def;
}
bool flag(int argc, char **argv, const char *name) {
  for (int i = 1; i < argc; ++i) {
    if (strcmp(argv[i], name) == 0) {
      return true;
    }
  }
  return false;
}

int do_replay(int argc, char **argv) {
  const std::string path = arg(argc, argv, "--replay", "");
  Streams in;
  std::string cls;
  u64 hash, seed;
  if (!read_replay(path, &in, &cls, &hash, &seed)) {
    fprintf(stderr, "cannot read replay file %s\n", path.c_str());
    return 3;
  }
  const bool quiet = flag(argc, argv, "--quiet");
  const std::string dir = scratch_dir();
  g_err_path = dir + "/err";
  Shared *sh = shared_alloc<Shared>();
  Outcome o = run_streams(sh, in, seed, true);
  if (!quiet) {
    fputs(slurp(g_err_path).c_str(), stdout);
  }
  unlink(g_err_path.c_str());
  rmdir(dir.c_str());
  const bool same = o.status == kViolation && o.cls == cls;
  if (!quiet) {
    printf("%s: class=%s %s (hash %s)\n", same ? "REPRODUCED" : "NOT REPRODUCED",
           o.cls.c_str(), symbolise(o.msg).c_str(),
           o.hash == hash ? "identical" : "differs");
  }
  if (same && o.hash == hash) {
    printf("VIOLATION property=%s replay=%s\n", kProperty, path.c_str());
    return 1;
  }
  return same ? 4 : 0;
}

void dump_counters(std::ostream &f, const Counter *c) {
  f << "{";
  bool first = true;
  for (int i = 0; i < kMaxCounters && c[i].name[0]; ++i) {
    f << (first ? "" : ", ") << "\"" << esc(c[i].name) << "\": " << c[i].value;
    first = false;
  }
  f << "}";
}

} // namespace

int main(int argc, char **argv) {
  // Repeatable addresses make traces easier to compare; nothing depends on it.
  if (!getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    const int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) &&
        personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) >= 0) {
      execv(self_exe().c_str(), argv);
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
  if (arg(argc, argv, "--replay", nullptr)) {
    return do_replay(argc, argv);
  }
  const u64 base = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  const double seconds = atof(arg(argc, argv, "--seconds", "30"));
  const double min_seconds = atof(arg(argc, argv, "--minimise", "40"));
  const u64 max_runs =
      strtoull(arg(argc, argv, "--max-runs", "1000000000"), nullptr, 10);
  const int jobs = atoi(arg(argc, argv, "--jobs", "8"));
  const u64 recheck = strtoull(arg(argc, argv, "--recheck", "13"), nullptr, 10);
  const std::string tier = arg(argc, argv, "--tier", "quick");
  const std::string evidence = arg(argc, argv, "--evidence", "");
  const std::string replays = arg(argc, argv, "--replay-dir", "/tmp");
  const std::string known = arg(argc, argv, "--known", "");
  const std::string dir = scratch_dir();
  g_err_path = dir + "/err";

  if (const char *one = arg(argc, argv, "--one", nullptr)) {
    // Debugging: run a single raw seed verbosely.
    Shared *sh = shared_alloc<Shared>();
    reset_shared(sh);
    sh->seed = strtoull(one, nullptr, 10);
    sh->verbose = 1;
    run_once(sh, true);
    fputs(slurp(g_err_path).c_str(), stdout);
    Outcome o = outcome_of(sh);
    printf("status=%d cls=%s msg=%s hash=%llx steps=%llu streams=%zu/%zu/%zu\n",
           o.status, o.cls.c_str(), symbolise(o.msg).c_str(),
           static_cast<unsigned long long>(o.hash),
           static_cast<unsigned long long>(o.steps), o.out.v[0].size(),
           o.out.v[1].size(), o.out.v[2].size());
    unlink(g_err_path.c_str());
    rmdir(dir.c_str());
    return 0;
  }

  if (!known.empty()) {
    std::ifstream f(known);
    std::string line;
    const std::string want = std::string("known: property=") + kProperty + " ";
    while (std::getline(f, line)) {
      if (line.compare(0, want.size(), want) != 0) {
        continue;
      }
      const size_t c = line.find("class="), m = line.find(" match=\"");
      if (c == std::string::npos || m == std::string::npos) {
        continue;
      }
      const std::string cls = line.substr(c + 6, m - c - 6);
      const size_t q = line.find('"', m + 8);
      g_known.emplace_back(cls, line.substr(m + 8, q - m - 8));
    }
  }

  const double t0 = wall();
  Control *ctl = shared_alloc<Control>();
  Agg *aggs = shared_alloc<Agg>(static_cast<size_t>(jobs));
  printf("seed=%llu property=%s tier=%s jobs=%d\n",
         static_cast<unsigned long long>(base), kProperty, tier.c_str(), jobs);
  std::vector<pid_t> pids;
  for (int j = 0; j < jobs; ++j) {
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
      worker(ctl, &aggs[j], base, t0 + seconds, max_runs, recheck);
      _exit(0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
  }
  const double search_wall = wall() - t0;

  Agg *tot = shared_alloc<Agg>();
  u64 vio_seed = 0;
  bool have_vio = false;
  std::set<std::string> known_hits;
  for (int j = 0; j < jobs; ++j) {
    Agg &a = aggs[j];
    tot->runs += a.runs;
    tot->evals += a.evals;
    tot->nontrivial += a.nontrivial;
    tot->steps += a.steps;
    tot->max_steps = std::max(tot->max_steps, a.max_steps);
    tot->switches += a.switches;
    tot->preemptions += a.preemptions;
    tot->sim_ns += a.sim_ns;
    tot->threads += a.threads;
    tot->failstops += a.failstops;
    tot->overflow += a.overflow;
    tot->rechecks += a.rechecks;
    tot->mismatches += a.mismatches;
    tot->harness_errors += a.harness_errors;
    tot->known += a.known;
    tot->fault_runs += a.fault_runs;
    if (a.mismatches) {
      tot->mismatch_seed = a.mismatch_seed;
      memcpy(tot->mismatch_msg, a.mismatch_msg, sizeof tot->mismatch_msg);
    }
    if (a.harness_errors && !tot->harness_msg[0]) {
      memcpy(tot->harness_msg, a.harness_msg, sizeof tot->harness_msg);
    }
    merge(tot->faults, a.faults);
    merge(tot->probes, a.probes);
    for (u32 i = 0; i < kSetCap; ++i) {
      if (a.sig[i]) {
        set_insert(tot->sig, &tot->nsig, a.sig[i]);
      }
      if (a.il[i]) {
        set_insert(tot->il, &tot->nil, a.il[i]);
      }
    }
    for (int i = 0; i < a.nknown; ++i) {
      known_hits.insert(a.known_msg[i]);
    }
    if (a.has_violation && !have_vio) {
      have_vio = true;
      vio_seed = a.vio_seed;
    }
  }

  int rc = 0;
  int violations = 0;
  std::string vio_json = "[]";
  if (have_vio) {
    Shared *sh = shared_alloc<Shared>();
    Outcome a = run_seed(sh, vio_seed);
    Outcome b = run_seed(sh, vio_seed);
    if (a.status != kViolation || !a.same(b)) {
      fprintf(stderr,
              "error: seed %llu violated once but is not repeatable "
              "(%s/%s, hash %llx/%llx): %s\n",
              static_cast<unsigned long long>(vio_seed), a.cls.c_str(),
              b.cls.c_str(), static_cast<unsigned long long>(a.hash),
              static_cast<unsigned long long>(b.hash), a.msg.c_str());
      rc = 3;
    } else {
      printf("seed %llu: class=%s %s\n",
             static_cast<unsigned long long>(vio_seed), a.cls.c_str(),
             symbolise(a.msg).c_str());
      Minimiser m{sh, vio_seed, a.cls, wall() + min_seconds, a.out};
      m.best.trim();
      const size_t before = m.best.size();
      m.run();
      Outcome fin = run_streams(sh, m.best, vio_seed, true);
      const std::string trace = slurp(g_err_path);
      fin.msg = symbolise(fin.msg);
      const std::string path =
          replays + "/" + kProperty + "-" + std::to_string(vio_seed) + ".json";
      write_replay(path, fin, m.best, vio_seed, trace);
      printf("minimised %zu -> %zu choices in %llu runs: class=%s %s\n", before,
             m.best.size(), static_cast<unsigned long long>(m.tries),
             fin.cls.c_str(), fin.msg.c_str());
      int good = 0;
      for (int i = 0; i < 2; ++i) {
        const std::string cmd =
            "\"" + self_exe() + "\" --quiet --replay \"" + path + "\" >/dev/null 2>&1";
        const int st = system(cmd.c_str());
        good += WIFEXITED(st) && WEXITSTATUS(st) == 1;
      }
      if (good != 2) {
        fprintf(stderr, "error: the minimised replay does not reproduce in a "
                        "fresh process\n");
        rc = 3;
      } else {
        rc = 1;
        violations = 1;
        printf("VIOLATION property=%s replay=%s\n", kProperty, path.c_str());
        vio_json = "[{\"class\": \"" + esc(fin.cls) + "\", \"message\": \"" +
                   esc(fin.msg) + "\", \"seed\": \"" +
                   std::to_string(vio_seed) + "\", \"replay\": \"" +
                   esc(path) + "\"}]";
      }
    }
  }
  if (rc == 0 && tot->mismatches) {
    fprintf(stderr, "error: %llu of %llu re-run seeds diverged (e.g. %llu: %s)\n",
            static_cast<unsigned long long>(tot->mismatches),
            static_cast<unsigned long long>(tot->rechecks),
            static_cast<unsigned long long>(tot->mismatch_seed), tot->mismatch_msg);
    rc = 3;
  }
  if (rc == 0 && tot->harness_errors) {
    fprintf(stderr, "error: harness: %s\n", tot->harness_msg);
    rc = 3;
  }
  if (rc == 0 && tot->runs == 0) {
    fprintf(stderr, "error: no run completed\n");
    rc = 3;
  }
  for (const auto &k : known_hits) {
    printf("KNOWN-FINDING: property=%s class=%s (see known_findings.txt)\n",
           kProperty, k.c_str());
  }

  const double total = wall() - t0;
  printf("runs=%llu (%.0f/h) evaluations=%llu nontrivial=%llu distinct=%u "
         "interleavings=%u steps=%llu switches=%llu rechecked=%llu "
         "mismatches=%llu failstops=%llu overflow=%llu wall=%.1fs rc=%d\n",
         static_cast<unsigned long long>(tot->runs),
         static_cast<double>(tot->runs) / search_wall * 3600,
         static_cast<unsigned long long>(tot->evals),
         static_cast<unsigned long long>(tot->nontrivial), tot->nsig, tot->nil,
         static_cast<unsigned long long>(tot->steps),
         static_cast<unsigned long long>(tot->switches),
         static_cast<unsigned long long>(tot->rechecks),
         static_cast<unsigned long long>(tot->mismatches),
         static_cast<unsigned long long>(tot->failstops),
         static_cast<unsigned long long>(tot->overflow), total, rc);
  std::ostringstream fs, ps;
  dump_counters(fs, tot->faults);
  dump_counters(ps, tot->probes);
  printf("faults: %s\nprobes: %s\n", fs.str().c_str(), ps.str().c_str());

  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n  \"property\": \"" << kProperty << "\",\n  \"tier\": \"" << tier
      << "\",\n  \"seed\": " << base
      << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n"
      << "    \"evaluations\": " << tot->evals
      << ",\n    \"distinct_nontrivial\": " << tot->nsig
      << ",\n    \"rule\": \"" << esc(kRule) << "\",\n    \"samples\": [";
    // The first runs of the search, executed once more with their log on.
    Shared *sh = shared_alloc<Shared>();
    for (int i = 0; i < 4 && static_cast<u64>(i) < tot->runs; ++i) {
      const u64 seed = seed_of(base, static_cast<u64>(i));
      reset_shared(sh);
      sh->seed = seed;
      sh->verbose = 1;
      run_once(sh, true);
      std::istringstream is(slurp(g_err_path));
      std::string text = "seed " + std::to_string(seed) + ":", line;
      int n = 0;
      while (std::getline(is, line) && n < 24) {
        if (line.find("~ switch") == std::string::npos) {
          text += " | " + line;
          ++n;
        }
      }
      char tail[160];
      snprintf(tail, sizeof tail,
               " | -> status %d, %llu steps, %llu context switches, hash %llx",
               sh->status, static_cast<unsigned long long>(sh->steps),
               static_cast<unsigned long long>(sh->switches),
               static_cast<unsigned long long>(sh->hash));
      f << (i ? ",\n      " : "\n      ") << "\"" << esc(text + tail) << "\"";
    }
    f << "],\n    \"simulated_runs\": " << tot->runs
      << ",\n    \"runs_per_hour\": "
      << static_cast<u64>(static_cast<double>(tot->runs) / search_wall * 3600)
      << ",\n    \"simulated_time_s\": "
      << static_cast<double>(tot->sim_ns) * 1e-9
      << ",\n    \"longest_run_steps\": " << tot->max_steps
      << ",\n    \"scheduler_steps\": " << tot->steps
      << ",\n    \"context_switches\": " << tot->switches
      << ",\n    \"preemptions\": " << tot->preemptions
      << ",\n    \"simulated_threads\": " << tot->threads
      << ",\n    \"distinct_interleavings\": " << tot->nil
      << ",\n    \"interleaving_measure\": \"hash of the sequence of (step, "
         "thread) context switches\""
      << ",\n    \"faults_injected\": " << fs.str()
      << ",\n    \"runs_with_faults\": " << tot->fault_runs
      << ",\n    \"reach_probes\": " << ps.str()
      << ",\n    \"fail_stop_outcomes\": " << tot->failstops
      << ",\n    \"determinism_rechecks\": " << tot->rechecks
      << ",\n    \"determinism_mismatches\": " << tot->mismatches
      << ",\n    \"real_code\": \"" << esc(kRealCode)
      << "\",\n    \"stubs\": \"" << esc(kStubs)
      << "\",\n    \"violations_found\": " << vio_json << "\n  },\n"
      << "  \"assumptions\": [";
    for (size_t i = 0; i < kAssumptions.size(); ++i) {
      f << (i ? ", " : "") << "\"" << esc(kAssumptions[i]) << "\"";
    }
    f << "],\n  \"wall_s\": " << total << ",\n  \"violations\": "
      << violations << "\n}\n";
  }
  unlink(g_err_path.c_str());
  rmdir(dir.c_str());
  return rc;
}
