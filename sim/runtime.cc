// The simulated machine: scheduler, interposed pthread/futex/clock/allocator
// entry points, vector-clock race detector driven by compiler instrumentation.
//
// This file is compiled WITHOUT instrumentation.  Everything the workloads and
// albatross headers do is compiled WITH -fsanitize=thread instrumentation but
// linked against the callbacks below instead of libtsan: every memory access
// is a potential preemption point and an input to the race detector.
#include "rt.h"

#include <bits/atomic_futex.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <stdexcept>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace sim {

Shared *g_sh = nullptr;

namespace {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr int kMaxThreads = 64;
constexpr u64 kForever = ~0ull;

enum class St { Unused, Runnable, Blocked, Finished };

struct Thread {
  St state;
  pthread_t handle;
  int futex;
  const void *wait_key;
  u64 deadline; // simulated ns, kForever if none
  bool timed_out;
  u64 stalled_until; // step
  long prio;
  bool detached;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  u64 stack_lo, stack_hi;
  u32 vc[kMaxThreads];
};

Thread g_thr[kMaxThreads];
int g_nthr = 0;
int g_cur = -1;
bool g_active = false;
bool g_conc = false; // active and more than one live thread
int g_live = 0;
u64 g_steps = 0;
u64 g_step_cap = kForever;
std::int64_t g_countdown = INT64_MAX;
u64 g_time_off = 0;
SchedConfig g_cfg;
int g_budget = 0;
long g_low_prio = 0;
pthread_t g_reap;
bool g_has_reap = false;
int g_spawn_fail = -1;
bool g_failstop_ok = false;
int g_pool_running = 0;

__thread int t_tid = -1;
__thread int t_quiet = 0; // no preemption, no race bookkeeping
__thread int t_nofault = 0;

// ---- PRNG ---------------------------------------------------------------
struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
};
Rng g_rng[kStreams];
u32 g_pos[kStreams];

void record(int s, u64 v) {
  u32 &n = g_sh->nout[s];
  if (n < kStreamCap) {
    g_sh->out[s][n++] = v;
  } else {
    g_sh->overflow = 1;
  }
}

// One raw choice: in search mode `fresh` supplies it.
template <class Fresh> u64 choice(int s, Fresh fresh, u64 limit) {
  u64 v;
  if (g_sh->replay) {
    v = g_pos[s] < g_sh->nin[s] ? g_sh->in[s][g_pos[s]++] : 0;
    if (v >= limit) {
      v %= limit;
    }
  } else {
    v = fresh(g_rng[s]);
  }
  record(s, v);
  return v;
}

u64 fnv(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

void hash_event(u64 a, u64 b) { g_sh->hash = fnv(fnv(g_sh->hash, a), b); }

void bump(Counter *c, const char *name, u64 n) {
  for (int i = 0; i < kMaxCounters; ++i) {
    if (c[i].name[0] == 0) {
      strncpy(c[i].name, name, sizeof(c[i].name) - 1);
    }
    if (strncmp(c[i].name, name, sizeof(c[i].name) - 1) == 0) {
      c[i].value += n;
      return;
    }
  }
}

void save_totals() {
  g_sh->steps = g_steps;
  g_sh->sim_ns = g_steps * 10 + g_time_off;
}

[[noreturn]] void leave(int status) {
  save_totals();
  g_sh->status = status;
  _exit(0);
}

// ---- real entry points ------------------------------------------------------
template <class T> T real_fn(const char *name) {
  return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                                                   \
  static auto real_##name() {                                                  \
    static ret (*fn)(__VA_ARGS__) = nullptr;                                   \
    if (!fn) {                                                                 \
      fn = real_fn<ret (*)(__VA_ARGS__)>(#name);                               \
    }                                                                          \
    return fn;                                                                 \
  }
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *,
     void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *,
     const timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *,
     clockid_t, const timespec *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_once, pthread_once_t *, void (*)())
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, nanosleep, const timespec *, timespec *)
REAL(int, clock_nanosleep, clockid_t, int, const timespec *, timespec *)
REAL(int, clock_gettime, clockid_t, timespec *)
REAL(int, sched_yield, void)

int futex_call(int *addr, int op, int val) {
  return static_cast<int>(
      syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0));
}

void park(Thread &t) {
  while (__atomic_exchange_n(&t.futex, 0, __ATOMIC_ACQUIRE) == 0) {
    futex_call(&t.futex, FUTEX_WAIT_PRIVATE, 0);
  }
}
void unpark(Thread &t) {
  __atomic_store_n(&t.futex, 1, __ATOMIC_RELEASE);
  futex_call(&t.futex, FUTEX_WAKE_PRIVATE, 1);
}

// ---- logging ----------------------------------------------------------------
void vlogline(const char *fmt, va_list ap) {
  char buf[1024];
  int n = snprintf(buf, sizeof buf, "[t%d @%llu] ", t_tid < 0 ? 0 : t_tid,
                   static_cast<unsigned long long>(g_steps));
  vsnprintf(buf + n, sizeof(buf) - static_cast<size_t>(n) - 1, fmt, ap);
  size_t len = strlen(buf);
  hash_event(hash_bytes(buf + n, len - static_cast<size_t>(n)), 7);
  if (g_sh->verbose) {
    buf[len] = '\n';
    if (write(2, buf, len + 1) < 0) {
    }
  }
}
void ilog(const char *fmt, ...) {
  if (!g_sh->verbose) {
    return;
  }
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(buf, sizeof buf, "[t%d @%llu]   ~ ", t_tid < 0 ? 0 : t_tid,
                   static_cast<unsigned long long>(g_steps));
  vsnprintf(buf + n, sizeof(buf) - static_cast<size_t>(n) - 1, fmt, ap);
  va_end(ap);
  size_t len = strlen(buf);
  buf[len] = '\n';
  if (write(2, buf, len + 1) < 0) {
  }
}

[[noreturn]] void violate(const char *cls, const char *msg) {
  strncpy(g_sh->cls, cls, sizeof(g_sh->cls) - 1);
  strncpy(g_sh->msg, msg, sizeof(g_sh->msg) - 1);
  hash_event(hash_bytes(cls, strlen(cls)), 9);
  leave(kViolation);
}

// ---- scheduler ----------------------------------------------------------------
u64 clock_now() { return g_steps * 10 + g_time_off; }

void next_gap() {
  if (g_cfg.policy == 2 ? g_cfg.changes <= 0 : g_budget <= 0) {
    g_countdown = INT64_MAX;
    return;
  }
  const u64 mean = g_cfg.gap;
  const u64 horizon = g_cfg.horizon;
  const int policy = g_cfg.policy;
  u64 v = choice(
      S,
      [&](Rng &r) -> u64 {
        if (policy == 2) {
          return 1 + r.below(horizon);
        }
        // geometric-ish: exponential with the given mean
        double u = (static_cast<double>(r.next() >> 11) + 1) / 9007199254740993.0;
        return 1 + static_cast<u64>(-std::log(u) * static_cast<double>(mean));
      },
      kForever);
  g_countdown = v == 0 ? INT64_MAX : static_cast<std::int64_t>(v);
}

bool runnable(const Thread &t) { return t.state == St::Runnable; }

int collect(int *out, bool include_self, bool respect_stall) {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    if (!runnable(g_thr[i])) {
      continue;
    }
    if (!include_self && i == g_cur) {
      continue;
    }
    if (respect_stall && g_thr[i].stalled_until > g_steps) {
      continue;
    }
    out[n++] = i;
  }
  return n;
}

// Chooses who runs next; the current thread may be blocked or finished.
int choose_next(bool include_self) {
  int cand[kMaxThreads];
  for (;;) {
    int n = collect(cand, include_self, true);
    if (n == 0) {
      n = collect(cand, include_self, false);
    }
    if (n > 0) {
      if (g_cfg.policy == 2) {
        int best = cand[0];
        for (int i = 1; i < n; ++i) {
          if (g_thr[cand[i]].prio > g_thr[best].prio) {
            best = cand[i];
          }
        }
        return best;
      }
      return cand[n == 1 ? 0 : choice(S, [n](Rng &r) { return r.below(static_cast<u64>(n)); }, static_cast<u64>(n))];
    }
    // Nobody can run: jump the clock to the next deadline.
    u64 best = kForever;
    int who = -1;
    for (int i = 0; i < g_nthr; ++i) {
      if (g_thr[i].state == St::Blocked && g_thr[i].deadline < best) {
        best = g_thr[i].deadline;
        who = i;
      }
    }
    if (who < 0) {
      return -1;
    }
    if (best > clock_now()) {
      g_time_off += best - clock_now();
    }
    g_thr[who].state = St::Runnable;
    g_thr[who].timed_out = true;
    g_thr[who].deadline = kForever;
    include_self = true;
  }
}

[[noreturn]] void deadlock() {
  char msg[1024];
  int n = snprintf(msg, sizeof msg,
                   "deadlock: no thread can run and none is waiting for time;");
  for (int i = 0; i < g_nthr && n < 900; ++i) {
    if (g_thr[i].state == St::Blocked) {
      n += snprintf(msg + n, sizeof(msg) - static_cast<size_t>(n),
                    " t%d blocked", i);
    }
  }
  violate("deadlock", msg);
}

void reap() {
  if (g_has_reap) {
    g_has_reap = false;
    ++t_quiet;
    real_pthread_join()(g_reap, nullptr);
    --t_quiet;
  }
}

void update_conc() { g_conc = g_active && g_live > 1; }

void switch_to(int next) {
  const int me = g_cur;
  if (next == me) {
    return;
  }
  ++g_sh->switches;
  g_sh->ihash = fnv(g_sh->ihash, (g_steps << 8) ^ static_cast<u64>(next));
  hash_event(g_steps, 0x100u + static_cast<unsigned>(next));
  ilog("switch t%d -> t%d", me, next);
  g_cur = next;
  unpark(g_thr[next]);
  park(g_thr[me]);
  reap();
}

void maybe_stall() {
  if (g_cfg.stalls) {
    if (chance(F, 1, 40)) {
      g_thr[g_cur].stalled_until = g_steps + 2000 + pick(F, 20000);
      fault_fired("thread_stall");
      ilog("stall t%d", g_cur);
    }
  }
}

void preempt() {
  if (!g_conc || t_tid != g_cur || t_quiet) {
    g_countdown = 1; // as soon as it is allowed again
    return;
  }
  ++t_quiet;
  if (g_cfg.policy == 2) {
    --g_cfg.changes;
    g_thr[g_cur].prio = --g_low_prio;
  } else {
    --g_budget;
  }
  ++g_sh->preemptions;
  maybe_stall();
  next_gap();
  int next;
  if (g_cfg.policy == 2) {
    next = choose_next(true);
  } else {
    int cand[kMaxThreads];
    next = collect(cand, false, true) > 0 ? choose_next(false) : g_cur;
  }
  if (next >= 0) {
    switch_to(next);
  }
  --t_quiet;
}

[[noreturn]] void over_cap() {
  char msg[256];
  snprintf(msg, sizeof msg,
           "no progress: %llu simulated steps without the run finishing",
           static_cast<unsigned long long>(g_steps));
  violate("no-progress", msg);
}

inline void step() {
  if (++g_steps > g_step_cap && !t_quiet) {
    over_cap();
  }
  if (--g_countdown <= 0) {
    preempt();
  }
}

// A synchronisation operation: also a step for the sync-only policy.
inline void sync_step() {
  if (!g_active || t_quiet) {
    return;
  }
  if (++g_steps > g_step_cap) {
    over_cap();
  }
  if (--g_countdown <= 0) {
    preempt();
  }
}

bool in_sim() { return g_active && t_tid >= 0; }

// Blocks the current thread on `key`; returns false on timeout.
bool block(const void *key, u64 deadline) {
  Thread &t = g_thr[g_cur];
  t.state = St::Blocked;
  t.wait_key = key;
  t.deadline = deadline;
  t.timed_out = false;
  const int next = choose_next(true);
  if (next < 0) {
    deadlock();
  }
  switch_to(next);
  return !t.timed_out;
}

void wake_all(const void *key) {
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].state == St::Blocked && g_thr[i].wait_key == key) {
      g_thr[i].state = St::Runnable;
      g_thr[i].wait_key = nullptr;
      g_thr[i].deadline = kForever;
      g_thr[i].timed_out = false;
    }
  }
}

// ---- happens-before -------------------------------------------------------------
struct SyncVar {
  u64 key; // addr >> 3, +1 so that 0 is empty
  u32 vc[kMaxThreads];
  int owner; // for mutexes: thread id or -1
  int depth;
  int readers;
};
constexpr u32 kSyncCap = 1u << 16;
SyncVar *g_sync = nullptr;
bool g_sync_dirty = false;

SyncVar &sync_var(const void *addr) {
  const u64 key = (reinterpret_cast<u64>(addr) >> 3) + 1;
  u64 h = key * 0x9E3779B97F4A7C15ull >> 40;
  for (u32 i = 0; i < kSyncCap; ++i) {
    SyncVar &v = g_sync[(h + i) & (kSyncCap - 1)];
    if (v.key == key) {
      return v;
    }
    if (v.key == 0) {
      v.key = key;
      v.owner = -1;
      return v;
    }
  }
  harness_error("sync variable table full");
}

void acquire(SyncVar &v) {
  u32 *me = g_thr[g_cur].vc;
  for (int i = 0; i < g_nthr; ++i) {
    if (v.vc[i] > me[i]) {
      me[i] = v.vc[i];
    }
  }
}
void release(SyncVar &v) {
  u32 *me = g_thr[g_cur].vc;
  for (int i = 0; i < g_nthr; ++i) {
    if (me[i] > v.vc[i]) {
      v.vc[i] = me[i];
    }
  }
  ++me[g_cur];
}
void join_vc(int from) {
  u32 *me = g_thr[g_cur].vc;
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[from].vc[i] > me[i]) {
      me[i] = g_thr[from].vc[i];
    }
  }
}

// ---- shadow memory -----------------------------------------------------------------
struct Cell {
  // slot: tid+1 (8 bits) | byte mask (8) | write (1) | atomic (1) | epoch (32)
  u64 slot[4];
  u32 pc[4];
};
struct ShadowPage {
  Cell cells[512];
};
constexpr u32 kPageCap = 1u << 13;
struct PageEnt {
  u64 page; // addr >> 12, +1
  ShadowPage *sp;
};
PageEnt *g_pages = nullptr;
ShadowPage *g_arena = nullptr;
u32 g_arena_used = 0;
bool g_shadow_used = false;
u64 g_races_skipped = 0;

ShadowPage *shadow_page(u64 addr, bool create) {
  const u64 page = (addr >> 12) + 1;
  const u64 h = (page * 0x9E3779B97F4A7C15ull) >> 45;
  for (u32 i = 0; i < kPageCap; ++i) {
    PageEnt &e = g_pages[(h + i) & (kPageCap - 1)];
    if (e.page == page) {
      return e.sp;
    }
    if (e.page == 0) {
      if (!create || g_arena_used >= kPageCap - 64) {
        if (create) {
          ++g_races_skipped;
        }
        return nullptr;
      }
      e.page = page;
      e.sp = &g_arena[g_arena_used++];
      return e.sp;
    }
  }
  return nullptr;
}

void clear_shadow(u64 addr, u64 size) {
  if (!g_shadow_used || size == 0) {
    return;
  }
  u64 a = addr & ~7ull;
  const u64 end = addr + size;
  while (a < end) {
    const u64 page_end = (a & ~4095ull) + 4096;
    const u64 stop = page_end < end ? page_end : end;
    if (ShadowPage *sp = shadow_page(a, false)) {
      const u64 first = (a & 4095) >> 3;
      const u64 last = ((stop - 1) & 4095) >> 3;
      memset(&sp->cells[first], 0, (last - first + 1) * sizeof(Cell));
    }
    a = page_end;
  }
}

void describe_pc(char *out, size_t n, u64 pc) {
  snprintf(out, n, "0x%llx", static_cast<unsigned long long>(pc));
}

const char *where_is(u64 addr) {
  static char buf[64];
  for (int i = 0; i < g_nthr; ++i) {
    if (addr >= g_thr[i].stack_lo && addr < g_thr[i].stack_hi) {
      snprintf(buf, sizeof buf, "the stack of t%d-0x%llx", i,
               static_cast<unsigned long long>(g_thr[i].stack_hi - addr));
      return buf;
    }
  }
  return "memory not on a thread's stack";
}

[[noreturn]] void report_race(u64 addr, u32 size, bool write, int other,
                              bool other_write, u64 pc, u64 other_pc) {
  char a[64], b[64], msg[512];
  describe_pc(a, sizeof a, pc);
  describe_pc(b, sizeof b, other_pc);
  snprintf(msg, sizeof msg,
           "data race: %s of %u bytes at %s by t%d (pc %s) is concurrent with an "
           "earlier %s by t%d (pc %s)",
           write ? "write" : "read", size, where_is(addr), g_cur, a,
           other_write ? "write" : "read", other, b);
  violate("data-race", msg);
}

void access_cell(u64 addr, u32 off, u32 size, bool write, bool atomic, u64 pc) {
  ShadowPage *sp = shadow_page(addr, true);
  if (!sp) {
    return;
  }
  g_shadow_used = true;
  Cell &c = sp->cells[(addr & 4095) >> 3];
  const u32 mask = ((size >= 8 ? 0xffu : (1u << size) - 1u) << off) & 0xffu;
  const u32 *vc = g_thr[g_cur].vc;
  const u64 me = (static_cast<u64>(g_cur + 1) << 56) |
                 (static_cast<u64>(mask) << 48) |
                 (static_cast<u64>(write) << 47) |
                 (static_cast<u64>(atomic) << 46) | vc[g_cur];
  int place = -1;
  for (int i = 0; i < 4; ++i) {
    const u64 s = c.slot[i];
    if (s == 0) {
      if (place < 0) {
        place = i;
      }
      continue;
    }
    const int tid = static_cast<int>(s >> 56) - 1;
    const u32 smask = (s >> 48) & 0xff;
    const bool sw = (s >> 47) & 1;
    const bool sa = (s >> 46) & 1;
    const u32 epoch = static_cast<u32>(s);
    if (tid == g_cur) {
      if (smask == mask && (write || !sw) && (atomic == sa)) {
        place = i;
      }
      continue;
    }
    const bool ordered = epoch <= vc[tid];
    if (ordered) {
      if (place < 0 && (smask & ~mask) == 0 && (write || !sw)) {
        place = i;
      }
      continue;
    }
    if (!(smask & mask) || !(sw || write) || (sa && atomic)) {
      continue;
    }
    report_race(addr, size, write, tid, sw, pc, c.pc[i]);
  }
  if (place < 0) {
    place = static_cast<int>(g_steps & 3);
  }
  c.slot[place] = me;
  c.pc[place] = static_cast<u32>(pc);
}

void access_range(u64 addr, u64 size, bool write, bool atomic, u64 pc) {
  while (size > 0) {
    const u32 off = addr & 7;
    const u64 n = size < 8 - off ? size : 8 - off;
    access_cell(addr & ~7ull, off, static_cast<u32>(n), write, atomic, pc);
    addr += n;
    size -= n;
  }
}

// ---- heap of a run -----------------------------------------------------------
// Where a block lies must not depend on what the process did before the run or
// on which of glibc's arenas a thread was given, so runs have their own heap.
struct BlockHead {
  u32 cls, off;
  union {
    BlockHead *next; // free
    u64 size;        // in use: the bytes asked for
  };
};
static_assert(sizeof(BlockHead) == 16, "alignment");
constexpr size_t kHeapSize = 16ull << 30;
constexpr size_t kMaxBlock = 1ull << 30;
u8 *g_heap = nullptr, *g_heap_top = nullptr;
u64 g_heap_lo = 0xF000000000000000ull;
u8 *g_live_map = nullptr; // one bit per 16 bytes: part of a live block
constexpr u8 kFreed = 0xfb, kSlack = 0xca;
BlockHead *g_bins[256];
int g_heap_lock = 0;

struct HeapLock {
  HeapLock() {
    while (__atomic_exchange_n(&g_heap_lock, 1, __ATOMIC_ACQUIRE)) {
      __builtin_ia32_pause();
    }
  }
  ~HeapLock() { __atomic_store_n(&g_heap_lock, 0, __ATOMIC_RELEASE); }
};

u32 class_of(size_t n) {
  if (n <= 1024) {
    return n == 0 ? 0 : static_cast<u32>((n - 1) / 16);
  }
  const int e = 63 - __builtin_clzll(n - 1); // 2^e <= n - 1 < 2^(e + 1)
  return 64 + static_cast<u32>(e - 10) * 4 +
         static_cast<u32>(((n - 1) >> (e - 2)) & 3);
}
size_t class_size(u32 c) {
  if (c < 64) {
    return (c + 1) * 16;
  }
  const u32 e = 10 + (c - 64) / 4;
  return (1ull << e) + ((c - 64) % 4 + 1) * (1ull << (e - 2));
}
void heap_start() {
  void *p = mmap(reinterpret_cast<void *>(0x200000000000ull), kHeapSize,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    harness_error("cannot map a heap");
  }
  void *m = mmap(nullptr, kHeapSize >> 7, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    harness_error("cannot map a heap");
  }
  g_live_map = static_cast<u8 *>(m);
  g_heap_top = static_cast<u8 *>(p);
  g_heap_lo = reinterpret_cast<u64>(p);
  g_heap = g_heap_top;
}
bool in_heap(const void *p) {
  return g_heap && p >= g_heap && p < g_heap + kHeapSize;
}
BlockHead *head_of(void *p) { return static_cast<BlockHead *>(p) - 1; }
size_t usable(void *p) { return head_of(p)->size; }
size_t room(void *p) { return class_size(head_of(p)->cls) - head_of(p)->off; }

void mark_live(const void *p, size_t n, bool live) {
  u64 g = (reinterpret_cast<u64>(p) - g_heap_lo) >> 4;
  u64 k = (n + 15) >> 4;
  while (k > 0) {
    if ((g & 7) == 0 && k >= 8) {
      memset(g_live_map + (g >> 3), live ? 0xff : 0, k >> 3);
      g += k & ~7ull;
      k &= 7;
      continue;
    }
    const u8 bit = static_cast<u8>(1u << (g & 7));
    if (live) {
      g_live_map[g >> 3] |= bit;
    } else {
      g_live_map[g >> 3] &= static_cast<u8>(~bit);
    }
    ++g;
    --k;
  }
}
inline bool is_live(u64 addr) {
  const u64 g = (addr - g_heap_lo) >> 4;
  return (g_live_map[g >> 3] >> (g & 7)) & 1;
}
[[noreturn]] void report_memory(const char *what, u64 size, u64 pc) {
  char a[64], msg[256];
  describe_pc(a, sizeof a, pc);
  snprintf(msg, sizeof msg, "%s (%llu bytes%s%s)", what,
           static_cast<unsigned long long>(size), pc ? ", pc " : "", pc ? a : "");
  violate("memory", msg);
}
inline void check_heap_access(u64 addr, u64 size, bool write, u64 pc) {
  if (addr - g_heap_lo >= kHeapSize || size == 0) {
    return;
  }
  if (is_live(addr) && is_live(addr + size - 1)) {
    if (size <= 32) {
      return;
    }
    u64 a = addr;
    while (a < addr + size && is_live(a)) {
      a += 16;
    }
    if (a >= addr + size) {
      return;
    }
  }
  report_memory(write ? "write to heap memory outside any live block"
                      : "read of heap memory outside any live block",
                size, pc);
}
void *heap_alloc(size_t n, size_t al) {
  const size_t want = al > 16 ? n + al : n;
  if (want < n || want > kMaxBlock) {
    errno = ENOMEM;
    return nullptr;
  }
  const u32 c = class_of(want);
  BlockHead *h;
  HeapLock lock;
  {
    h = g_bins[c];
    if (h) {
      g_bins[c] = h->next;
      // The block has kept what free() left in it.
      const u8 *q = reinterpret_cast<const u8 *>(h + 1);
      const size_t size = class_size(c);
      u64 same;
      memset(&same, kFreed, 8);
      for (size_t i = 0; i < size; i += 8) {
        u64 v;
        memcpy(&v, q + i, 8);
        if (v != same) {
          report_memory("a freed block was written to", size, 0);
        }
      }
    } else {
      const size_t bytes = sizeof(BlockHead) + class_size(c);
      if (static_cast<size_t>(g_heap + kHeapSize - g_heap_top) < bytes) {
        errno = ENOMEM;
        return nullptr;
      }
      h = reinterpret_cast<BlockHead *>(g_heap_top);
      g_heap_top += bytes;
    }
  }
  h->cls = c;
  h->off = 0;
  u8 *p = reinterpret_cast<u8 *>(h + 1);
  if (al > 16) {
    u8 *q = reinterpret_cast<u8 *>((reinterpret_cast<u64>(p) + al - 1) & ~(al - 1));
    if (q != p) {
      head_of(q)->cls = c;
      head_of(q)->off = static_cast<u32>(q - p);
      p = q;
    }
  }
  head_of(p)->size = n;
  mark_live(p, n, true);
  memset(p + n, kSlack, room(p) - n);
  return p;
}
void heap_free(void *p) {
  u8 *raw = static_cast<u8 *>(p) - head_of(p)->off;
  BlockHead *h = head_of(raw);
  const size_t size = head_of(p)->size;
  if ((reinterpret_cast<u64>(p) & 15) || (size && !is_live(reinterpret_cast<u64>(p)))) {
    report_memory("free() of something that is not a live block", 0, 0);
  }
  const size_t cap = room(p);
  for (size_t i = size; i < cap; ++i) {
    if (static_cast<u8 *>(p)[i] != kSlack) {
      report_memory("a block was written to past its end", size, 0);
    }
  }
  HeapLock lock;
  mark_live(p, size, false);
  memset(raw, kFreed, class_size(h->cls));
  h->next = g_bins[h->cls];
  g_bins[h->cls] = h;
}
size_t block_size(void *p) {
  if (in_heap(p)) {
    return usable(p);
  }
  static size_t (*real)(void *) = reinterpret_cast<size_t (*)(void *)>(
      dlsym(RTLD_NEXT, "malloc_usable_size"));
  return real(p);
}
void *raw_alloc(size_t n, size_t al) {
  if (g_heap) {
    return heap_alloc(n, al);
  }
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
}
void raw_free(void *p) {
  if (in_heap(p)) {
    heap_free(p);
  } else {
    __libc_free(p);
  }
}

inline void on_access(const volatile void *p, u64 size, bool write, u64 pc) {
  check_heap_access(reinterpret_cast<u64>(p), size, write, pc);
  if (!g_active) {
    return;
  }
  if (!g_conc || t_quiet) {
    if (++g_steps > g_step_cap && !t_quiet) {
      over_cap();
    }
    return;
  }
  if (t_tid != g_cur) {
    return;
  }
  if (g_cfg.policy == 0) {
    if (++g_steps > g_step_cap) {
      over_cap();
    }
  } else {
    step();
  }
  if (g_cfg.races) {
    access_range(reinterpret_cast<u64>(p), size, write, false, pc);
  }
}

// ---- allocation ------------------------------------------------------------------
bool g_armed = false;
bool g_armed_main = false;
u64 g_alloc_left = 0;
bool g_alloc_fired = false;
bool g_counting = false;
u64 g_alloc_count = 0;
std::int64_t g_live_blocks = 0;
bool g_fill = false;
bool g_enq_armed = false;
u64 g_enq_left = 0;

bool alloc_should_fail() {
  if (t_quiet || t_nofault) {
    return false;
  }
  if (g_counting && (!g_active || t_tid >= 0)) {
    ++g_alloc_count;
  }
  if (!g_armed) {
    return false;
  }
  if (g_active && t_tid < 0) {
    return false;
  }
  if (g_armed_main && t_tid > 0) {
    return false;
  }
  if (g_alloc_left > 0) {
    --g_alloc_left;
    return false;
  }
  g_armed = false;
  g_alloc_fired = true;
  bump(g_sh->faults, "alloc_failure", 1);
  hash_event(g_steps, 0xA110C);
  return true;
}

void *after_alloc(void *p, size_t n, bool fill) {
  if (p) {
    __atomic_fetch_add(&g_live_blocks, 1, __ATOMIC_RELAXED);
    if (g_fill && fill) {
      // Uninitialised doubles read as NaN, uninitialised sizes as huge.
      memset(p, 0xff, n);
    }
    if (g_shadow_used) {
      clear_shadow(reinterpret_cast<u64>(p), n);
    }
  }
  return p;
}

} // namespace

// ---- public interface -----------------------------------------------------------
u64 mix(u64 h, u64 v) { return fnv(h, v); }
u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = static_cast<const u8 *>(p);
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ b[i]) * 0x100000001B3ull;
  }
  return h ^ (h >> 29);
}

u64 pick(Stream s, u64 n) {
  if (n <= 1) {
    return 0;
  }
  ++t_quiet;
  u64 v = choice(s, [n](Rng &r) { return r.below(n); }, n);
  --t_quiet;
  return v;
}
bool chance(Stream s, u64 num, u64 den) {
  ++t_quiet;
  u64 v = choice(
      s, [=](Rng &r) -> u64 { return r.below(den) < num ? 1 : 0; }, 2);
  --t_quiet;
  return v != 0;
}
double real(double lo, double hi) {
  return lo + (hi - lo) * static_cast<double>(pick(W, 1u << 20)) /
                  static_cast<double>(1u << 20);
}
double gauss() {
  double s = 0;
  for (int i = 0; i < 4; ++i) {
    s += static_cast<double>(pick(W, 1u << 16)) / 65536.0 - 0.5;
  }
  return s * 1.7320508;
}

void fault_fired(const char *kind) {
  ++t_quiet;
  bump(g_sh->faults, kind, 1);
  hash_event(hash_bytes(kind, strlen(kind)), g_steps);
  ilog("FAULT %s", kind);
  --t_quiet;
}
void probe(const char *name, u64 n) {
  ++t_quiet;
  bump(g_sh->probes, name, n);
  --t_quiet;
}
void log(const char *fmt, ...) {
  ++t_quiet;
  va_list ap;
  va_start(ap, fmt);
  vlogline(fmt, ap);
  va_end(ap);
  --t_quiet;
}
void log_bytes(const void *p, size_t n) { hash_event(hash_bytes(p, n), n); }
void evaluated(bool nontrivial, u64 sig) {
  ++g_sh->evals;
  if (nontrivial) {
    ++g_sh->nontrivial;
    if (g_sh->nsigs < kMaxSigs) {
      g_sh->sigs[g_sh->nsigs++] = sig;
    }
  }
}
void evaluated(bool nontrivial) {
  evaluated(nontrivial, fnv(g_sh->ihash, g_sh->hash));
}
void violation(const char *cls, const char *fmt, ...) {
  ++t_quiet;
  char msg[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  violate(cls, msg);
}
void harness_error(const char *fmt, ...) {
  ++t_quiet;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_sh->msg, sizeof(g_sh->msg) - 1, fmt, ap);
  va_end(ap);
  leave(kHarnessError);
}
void finish_ok() { leave(kOk); }

__thread int t_assert_throws = 0;
AssertThrows::AssertThrows() { ++t_assert_throws; }
AssertThrows::~AssertThrows() { --t_assert_throws; }
void allow_failstop(bool on, const char *why) {
  g_failstop_ok = on;
  if (on) {
    strncpy(g_sh->cls, why, sizeof(g_sh->cls) - 1);
  } else {
    g_sh->cls[0] = 0;
  }
}

bool active() { return g_active; }
int self() { return t_tid < 0 ? 0 : t_tid; }
int live_threads() { return g_live; }
u64 steps() { return g_steps; }
u64 now_ns() { return clock_now(); }
void set_step_cap(u64 cap) { g_step_cap = cap; }
u64 step_cap() { return g_step_cap; }
void spawn_fail_after(int n) { g_spawn_fail = n; }
int pool_tasks_running() { return g_pool_running; }

void yield_point() {
  if (!in_sim() || t_quiet || !g_conc) {
    return;
  }
  ++t_quiet;
  const int next = choose_next(true);
  if (next >= 0) {
    switch_to(next);
  }
  --t_quiet;
}

SchedConfig random_sched() {
  SchedConfig c;
  // 0 => no preemption, the simplest schedule.
  switch (pick(S, 8)) {
  case 0:
    c.policy = 0;
    c.gap = 1;
    c.preempt_budget = 0;
    break;
  case 1:
    c.policy = 0;
    c.gap = 1 + pick(S, 8);
    break;
  case 2:
  case 3:
    c.policy = 2;
    c.changes = 1 + static_cast<int>(pick(S, 5));
    c.horizon = 200ull << pick(S, 9);
    break;
  case 4:
    c.policy = 1;
    c.gap = 3 + pick(S, 10);
    c.preempt_budget = 1500;
    break;
  case 5:
  case 6:
    c.policy = 1;
    c.gap = 10 + pick(S, 120);
    break;
  default:
    c.policy = 1;
    c.gap = 200ull << pick(S, 6);
    break;
  }
  c.spurious = chance(F, 1, 3);
  c.stalls = chance(F, 1, 4);
  return c;
}

void begin(const SchedConfig &c) {
  if (g_active) {
    harness_error("nested sim::begin");
  }
  g_cfg = c;
  g_budget = c.preempt_budget;
  memset(g_thr, 0, sizeof g_thr);
  if (g_shadow_used) {
    memset(g_arena, 0, g_arena_used * sizeof(ShadowPage));
    memset(g_pages, 0, kPageCap * sizeof(PageEnt));
    g_arena_used = 0;
    g_shadow_used = false;
  }
  if (g_sync_dirty) { // a fresh mapping is zero already
    madvise(g_sync, kSyncCap * sizeof(SyncVar), MADV_DONTNEED);
  }
  g_sync_dirty = true;
  g_nthr = 1;
  g_cur = 0;
  t_tid = 0;
  g_live = 1;
  g_thr[0].state = St::Runnable;
  g_thr[0].handle = pthread_self();
  g_thr[0].deadline = kForever;
  g_thr[0].vc[0] = 1;
  g_low_prio = 0;
  g_pool_running = 0;
  if (c.step_cap != kForever && g_step_cap == kForever) {
    g_step_cap = g_steps + c.step_cap;
  }
  g_active = true;
  g_thr[0].prio = 1 + static_cast<long>(pick(S, 1000));
  next_gap();
  update_conc();
}

void end() {
  if (g_live != 1) {
    harness_error("sim::end with %d live threads", g_live);
  }
  g_active = false;
  update_conc();
  g_countdown = INT64_MAX;
  g_step_cap = kForever;
  t_tid = -1;
}

void arm_alloc_fault(u64 k, bool only_main) {
  g_armed_main = only_main;
  g_alloc_left = k;
  g_alloc_fired = false;
  g_armed = true;
}
void disarm_alloc_fault() { g_armed = false; }
bool alloc_fault_fired() { return g_alloc_fired; }
void count_allocs_begin() {
  g_alloc_count = 0;
  g_counting = true;
}
u64 count_allocs_end() {
  g_counting = false;
  return g_alloc_count;
}
std::int64_t live_blocks() {
  return __atomic_load_n(&g_live_blocks, __ATOMIC_RELAXED);
}
NoFault::NoFault() { ++t_nofault; }
NoFault::~NoFault() { --t_nofault; }
Quiet::Quiet() { ++t_quiet; }
Quiet::~Quiet() { --t_quiet; }
void arm_enqueue_fault(u64 k) {
  g_enq_left = k;
  g_enq_armed = true;
}
void disarm_enqueue_fault() { g_enq_armed = false; }

// ---- one run ------------------------------------------------------------------------
namespace {
void on_abort(int sig) {
  (void)sig;
  if (g_failstop_ok) {
    bump(g_sh->probes, "fail_stop_abort", 1);
    hash_event(0xFA11, 0x5709);
    leave(kFailstop);
  }
  save_totals();
  strncpy(g_sh->cls, "abort", sizeof(g_sh->cls) - 1);
  strncpy(g_sh->msg, "the process aborted (failed assertion or terminate)",
          sizeof(g_sh->msg) - 1);
  hash_event(0xAB027, 9);
  g_sh->status = kViolation;
  _exit(0);
}
void on_crash(int sig) {
  save_totals();
  strncpy(g_sh->cls, "crash", sizeof(g_sh->cls) - 1);
  snprintf(g_sh->msg, sizeof(g_sh->msg), "the process crashed with signal %d",
           sig);
  hash_event(0xC2A5, static_cast<u64>(sig));
  g_sh->status = kViolation;
  _exit(0);
}
char g_altstack[65536];
} // namespace

void install_crash_handlers() {
  stack_t ss{};
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_abort;
  sigaction(SIGABRT, &sa, nullptr);
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
}

void run_child() {
  mallopt(M_ARENA_MAX, 1);
  g_sync = static_cast<SyncVar *>(
      mmap(nullptr, kSyncCap * sizeof(SyncVar), PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_pages = static_cast<PageEnt *>(
      mmap(nullptr, kPageCap * sizeof(PageEnt), PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_arena = static_cast<ShadowPage *>(
      mmap(nullptr, kPageCap * sizeof(ShadowPage), PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (int s = 0; s < kStreams; ++s) {
    g_rng[s].s = fnv(g_sh->seed * 0x9E3779B97F4A7C15ull + 17, 77u + static_cast<unsigned>(s));
    g_pos[s] = 0;
  }
  install_crash_handlers();
  heap_start();
  g_fill = true;
  sim_run();
  if (g_active) {
    harness_error("run ended inside sim::begin/end");
  }
  if (g_races_skipped) {
    bump(g_sh->probes, "shadow_full", g_races_skipped);
  }
  leave(kOk);
}

} // namespace sim

using namespace sim;

void sim_assert_failed(const char *expr, const char *file, int line,
                       const char *func) {
  if (t_assert_throws > 0) {
    NoFault no_fault;
    throw AssertionFailed{expr};
  }
  fprintf(stderr, "%s: %s:%d: %s: Assertion `%s' failed.\n", kProperty, file,
          line, func, expr);
  abort();
}

// ============================ interposed libc ================================
extern "C" {

static void *trampoline(void *p) {
  Thread &t = *static_cast<Thread *>(p);
  const int id = static_cast<int>(&t - g_thr);
  t_quiet = 1;
  park(t);
  reap();
  t_tid = id;
  t_quiet = 0;
  void *ret = t.fn(t.arg);
  t_quiet = 1;
  t.ret = ret;
  t.state = St::Finished;
  --g_live;
  ++g_thr[id].vc[id];
  update_conc();
  wake_all(&t);
  hash_event(g_steps, 0xE417u);
  t_tid = -1;
  const int next = choose_next(true);
  if (next < 0) {
    deadlock();
  }
  ilog("t%d finished -> t%d", id, next);
  ++g_sh->switches;
  g_sh->ihash = fnv(g_sh->ihash, (g_steps << 8) ^ static_cast<u64>(next));
  g_reap = pthread_self();
  g_has_reap = true;
  g_cur = next;
  unpark(g_thr[next]);
  return nullptr;
}

constexpr size_t kStackSize = 1u << 20;
struct Stack {
  void *base = nullptr;
  int owner = -1;
};
static Stack g_stacks[kMaxThreads];

static int stack_slot(int owner) {
  for (int i = 0; i < kMaxThreads; ++i) {
    Stack &s = g_stacks[i];
    if (s.owner < 0 || (g_thr[s.owner].state == St::Finished &&
                        g_thr[s.owner].detached)) {
      if (!s.base) {
        s.base = mmap(nullptr, kStackSize, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK | MAP_NORESERVE, -1, 0);
        if (s.base == MAP_FAILED) {
          harness_error("cannot map a stack");
        }
      }
      s.owner = owner;
      return i;
    }
  }
  harness_error("no stack left");
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr,
                   void *(*fn)(void *), void *arg) {
  if (!in_sim()) {
    return real_pthread_create()(out, attr, fn, arg);
  }
  sync_step();
  ++t_quiet;
  if (g_spawn_fail == 0) {
    g_spawn_fail = -1;
    fault_fired("thread_spawn_failure");
    --t_quiet;
    return EAGAIN;
  }
  if (g_spawn_fail > 0) {
    --g_spawn_fail;
  }
  if (g_nthr >= kMaxThreads) {
    harness_error("more than %d simulated threads", kMaxThreads);
  }
  const int id = g_nthr;
  Thread &t = g_thr[id];
  memset(&t, 0, sizeof t);
  t.state = St::Runnable;
  t.fn = fn;
  t.arg = arg;
  t.deadline = kForever;
  memcpy(t.vc, g_thr[g_cur].vc, sizeof t.vc);
  t.vc[id] = 1;
  ++g_thr[g_cur].vc[g_cur];
  t.prio = 1 + static_cast<long>(pick(S, 1000));
  pthread_attr_t a;
  pthread_attr_init(&a);
  // Stacks are ours: a handle (which lives in the stack) must not be recycled
  // before the simulated join, although the real thread is reaped earlier.
  const int slot = stack_slot(id);
  t.stack_lo = reinterpret_cast<u64>(g_stacks[slot].base);
  t.stack_hi = t.stack_lo + kStackSize;
  clear_shadow(t.stack_lo, kStackSize);
  pthread_attr_setstack(&a, g_stacks[slot].base, kStackSize);
  const int rc = real_pthread_create()(&t.handle, &a, trampoline, &t);
  pthread_attr_destroy(&a);
  if (rc != 0) {
    harness_error("real pthread_create failed: %d", rc);
  }
  *out = t.handle;
  ++g_nthr;
  ++g_live;
  ++g_sh->threads;
  update_conc();
  --t_quiet;
  sync_step();
  return 0;
}

static int find_thread(pthread_t h) {
  for (int i = g_nthr - 1; i >= 0; --i) {
    if (g_thr[i].handle == h && !g_thr[i].detached) {
      return i;
    }
  }
  return -1;
}

int pthread_join(pthread_t h, void **ret) {
  if (!in_sim()) {
    return real_pthread_join()(h, ret);
  }
  sync_step();
  ++t_quiet;
  const int id = find_thread(h);
  if (id < 0) {
    harness_error("join of unknown thread");
  }
  while (g_thr[id].state != St::Finished) {
    block(&g_thr[id], kForever);
  }
  join_vc(id);
  g_thr[id].detached = true; // the handle may be recycled
  if (ret) {
    *ret = g_thr[id].ret;
  }
  --t_quiet;
  return 0;
}

int pthread_detach(pthread_t h) {
  if (!in_sim()) {
    return real_pthread_detach()(h);
  }
  const int id = find_thread(h);
  if (id >= 0) {
    g_thr[id].detached = true;
  }
  return 0;
}

static bool is_recursive(const pthread_mutex_t *m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

static void sim_lock(const void *key, bool recursive) {
  SyncVar *v = &sync_var(key);
  if (recursive && v->owner == g_cur && v->depth > 0) {
    ++v->depth;
    return;
  }
  while (v->depth > 0) {
    bump(g_sh->probes, "lock_contended", 1);
    block(key, kForever);
    v = &sync_var(key);
  }
  v->owner = g_cur;
  v->depth = 1;
  acquire(*v);
}

static void sim_unlock(const void *key) {
  SyncVar &v = sync_var(key);
  if (v.depth == 0 || v.owner != g_cur) {
    // Locked before the simulation began, or not ours: undefined behaviour in
    // the code under test only if it is a sim-time lock.
    return;
  }
  if (--v.depth == 0) {
    release(v);
    v.owner = -1;
    wake_all(key);
  }
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!in_sim() || t_quiet) {
    auto fn = real_pthread_mutex_lock();
    return fn ? fn(m) : 0;
  }
  sync_step();
  ++t_quiet;
  sim_lock(m, is_recursive(m));
  --t_quiet;
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!in_sim() || t_quiet) {
    return real_pthread_mutex_trylock()(m);
  }
  sync_step();
  ++t_quiet;
  SyncVar &v = sync_var(m);
  int rc = 0;
  if (v.depth > 0 && !(is_recursive(m) && v.owner == g_cur)) {
    rc = EBUSY;
  } else {
    sim_lock(m, is_recursive(m));
  }
  --t_quiet;
  return rc;
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!in_sim() || t_quiet) {
    auto fn = real_pthread_mutex_unlock();
    return fn ? fn(m) : 0;
  }
  ++t_quiet;
  sim_unlock(m);
  --t_quiet;
  sync_step();
  return 0;
}

static int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
  sync_step();
  ++t_quiet;
  sim_unlock(m);
  bool ok = true;
  if (g_cfg.spurious && chance(F, 1, 6)) {
    fault_fired("spurious_wakeup");
    const int next = choose_next(true);
    if (next >= 0) {
      switch_to(next);
    }
  } else {
    ok = block(c, deadline);
  }
  sim_lock(m, is_recursive(m));
  --t_quiet;
  return ok ? 0 : ETIMEDOUT;
}

static u64 to_ns(const timespec *t) {
  return static_cast<u64>(t->tv_sec) * 1000000000ull +
         static_cast<u64>(t->tv_nsec);
}
constexpr u64 kEpoch = 1700000000ull * 1000000000ull;
static u64 abs_deadline(const timespec *t) {
  const u64 v = to_ns(t);
  return v > kEpoch ? v - kEpoch : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!in_sim() || t_quiet) {
    return real_pthread_cond_wait()(c, m);
  }
  return sim_cond_wait(c, m, kForever);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const timespec *t) {
  if (!in_sim() || t_quiet) {
    return real_pthread_cond_timedwait()(c, m, t);
  }
  return sim_cond_wait(c, m, abs_deadline(t));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const timespec *t) {
  if (!in_sim() || t_quiet) {
    return real_pthread_cond_clockwait()(c, m, k, t);
  }
  return sim_cond_wait(c, m, abs_deadline(t));
}

int pthread_cond_signal(pthread_cond_t *c) {
  if (!in_sim() || t_quiet) {
    return real_pthread_cond_signal()(c);
  }
  sync_step();
  ++t_quiet;
  int cand[kMaxThreads];
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    if (g_thr[i].state == St::Blocked && g_thr[i].wait_key == c) {
      cand[n++] = i;
    }
  }
  if (n > 0) {
    const int who = cand[pick(S, static_cast<u64>(n))];
    g_thr[who].state = St::Runnable;
    g_thr[who].wait_key = nullptr;
    g_thr[who].deadline = kForever;
    g_thr[who].timed_out = false;
  }
  --t_quiet;
  sync_step();
  return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!in_sim() || t_quiet) {
    return real_pthread_cond_broadcast()(c);
  }
  sync_step();
  ++t_quiet;
  wake_all(c);
  --t_quiet;
  sync_step();
  return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!in_sim() || t_quiet) {
    return real_pthread_once()(o, fn);
  }
  volatile int *st = reinterpret_cast<volatile int *>(o);
  sync_step();
  ++t_quiet;
  for (;;) {
    if (*st == 2) {
      acquire(sync_var(o));
      --t_quiet;
      return 0;
    }
    if (*st == 0) {
      *st = 1;
      --t_quiet;
      try {
        fn();
      } catch (...) {
        ++t_quiet;
        *st = 0;
        wake_all(o);
        --t_quiet;
        throw;
      }
      ++t_quiet;
      release(sync_var(o));
      *st = 2;
      wake_all(o);
      --t_quiet;
      return 0;
    }
    block(o, kForever);
  }
}

// --- reader/writer locks (std::shared_mutex) ---
static int rw_lock(pthread_rwlock_t *l, bool write, bool try_only) {
  sync_step();
  ++t_quiet;
  for (;;) {
    SyncVar &v = sync_var(l);
    const bool free = write ? (v.depth == 0 && v.readers == 0) : v.depth == 0;
    if (free) {
      if (write) {
        v.depth = 1;
        v.owner = g_cur;
      } else {
        ++v.readers;
      }
      acquire(v);
      --t_quiet;
      return 0;
    }
    if (try_only) {
      --t_quiet;
      return EBUSY;
    }
    block(l, kForever);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  return !in_sim() || t_quiet ? real_pthread_rwlock_rdlock()(l)
                              : rw_lock(l, false, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  return !in_sim() || t_quiet ? real_pthread_rwlock_wrlock()(l)
                              : rw_lock(l, true, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  return !in_sim() || t_quiet ? real_pthread_rwlock_tryrdlock()(l)
                              : rw_lock(l, false, true);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  return !in_sim() || t_quiet ? real_pthread_rwlock_trywrlock()(l)
                              : rw_lock(l, true, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!in_sim() || t_quiet) {
    return real_pthread_rwlock_unlock()(l);
  }
  ++t_quiet;
  SyncVar &v = sync_var(l);
  release(v);
  if (v.depth > 0 && v.owner == g_cur) {
    v.depth = 0;
    v.owner = -1;
  } else if (v.readers > 0) {
    --v.readers;
  }
  wake_all(l);
  --t_quiet;
  sync_step();
  return 0;
}

// --- function-local statics ---
int __cxa_guard_acquire(std::uint64_t *g) {
  volatile char *b = reinterpret_cast<volatile char *>(g);
  if (!in_sim()) {
    for (;;) {
      if (__atomic_load_n(b, __ATOMIC_ACQUIRE) == 1) {
        return 0;
      }
      char zero = 0;
      if (__atomic_compare_exchange_n(b + 1, &zero, 1, false, __ATOMIC_ACQ_REL,
                                      __ATOMIC_ACQUIRE)) {
        return 1;
      }
      real_sched_yield()();
    }
  }
  // Also inside sim::Quiet: whoever initialises it may be waiting for its turn.
  if (!t_quiet) {
    sync_step();
  }
  ++t_quiet;
  for (;;) {
    if (b[0] == 1) {
      acquire(sync_var(g));
      --t_quiet;
      return 0;
    }
    if (b[1] == 0) {
      b[1] = 1;
      --t_quiet;
      return 1;
    }
    bump(g_sh->probes, "static_init_contended", 1);
    block(g, kForever);
  }
}
void __cxa_guard_release(std::uint64_t *g) {
  volatile char *b = reinterpret_cast<volatile char *>(g);
  if (in_sim()) {
    ++t_quiet;
    release(sync_var(g));
    b[0] = 1;
    b[1] = 0;
    wake_all(g);
    --t_quiet;
  } else {
    b[1] = 0;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  }
}
void __cxa_guard_abort(std::uint64_t *g) {
  volatile char *b = reinterpret_cast<volatile char *>(g);
  b[1] = 0;
  if (in_sim()) {
    ++t_quiet;
    wake_all(g);
    --t_quiet;
  }
}

// --- time ---
static void sim_sleep(u64 ns) {
  sync_step();
  ++t_quiet;
  static char key;
  block(&key, clock_now() + ns);
  --t_quiet;
}
int nanosleep(const timespec *req, timespec *rem) {
  if (!in_sim() || t_quiet) {
    return real_nanosleep()(req, rem);
  }
  sim_sleep(to_ns(req));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *req,
                    timespec *rem) {
  if (!in_sim() || t_quiet) {
    return real_clock_nanosleep()(c, flags, req, rem);
  }
  u64 ns = to_ns(req);
  if (flags & TIMER_ABSTIME) {
    const u64 d = abs_deadline(req);
    ns = d > clock_now() ? d - clock_now() : 0;
  }
  sim_sleep(ns);
  return 0;
}
int usleep(useconds_t us) {
  timespec t{static_cast<time_t>(us / 1000000),
             static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
int clock_gettime(clockid_t c, timespec *t) {
  if (!in_sim()) {
    return static_cast<int>(syscall(SYS_clock_gettime, c, t));
  }
  const u64 v = kEpoch + clock_now();
  t->tv_sec = static_cast<time_t>(v / 1000000000ull);
  t->tv_nsec = static_cast<long>(v % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval *t, void *) {
  timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) {
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
  }
  return 0;
}
int sched_yield(void) {
  if (!in_sim() || t_quiet) {
    return real_sched_yield()();
  }
  sync_step();
  yield_point();
  return 0;
}

// --- allocator ---
void *malloc(size_t n) {
  if ((g_armed || g_counting) && alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return after_alloc(raw_alloc(n, 16), n, true);
}
size_t malloc_usable_size(void *p) { return p ? block_size(p) : 0; }
void free(void *p) {
  if (!p) {
    return;
  }
  __atomic_fetch_sub(&g_live_blocks, 1, __ATOMIC_RELAXED);
  if (g_fill) {
    const size_t n = block_size(p);
    if (g_shadow_used) {
      clear_shadow(reinterpret_cast<u64>(p), n);
    }
  }
  raw_free(p);
}
void *calloc(size_t a, size_t b) {
  if ((g_armed || g_counting) && alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (!g_heap) {
    return after_alloc(__libc_calloc(a, b), n, false);
  }
  void *p = after_alloc(raw_alloc(n, 16), n, false);
  if (p) {
    memset(p, 0, n);
  }
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) {
    return malloc(n);
  }
  if (n == 0) {
    free(p);
    return nullptr;
  }
  if (!g_heap) {
    return __libc_realloc(p, n);
  }
  void *q = malloc(n);
  if (q) {
    const size_t old = block_size(p);
    memcpy(q, p, old < n ? old : n);
    free(p);
  }
  return q;
}
void *memalign(size_t al, size_t n) {
  if ((g_armed || g_counting) && alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return after_alloc(raw_alloc(n, al), n, true);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  void *p = memalign(al, n);
  if (!p) {
    return ENOMEM;
  }
  *out = p;
  return 0;
}

// --- thread pool fault points ---
void sim_pool_task_boundary(int begin) {
  ++t_quiet;
  g_pool_running += begin ? 1 : -1;
  if (begin && g_pool_running > 1) {
    bump(g_sh->probes, "pool_tasks_overlap", 1);
  }
  --t_quiet;
}
} // extern "C"

extern "C" void sim_pool_fault_enqueue() {
  if (!g_enq_armed) {
    return;
  }
  if (g_enq_left > 0) {
    --g_enq_left;
    return;
  }
  g_enq_armed = false;
  fault_fired("enqueue_failure");
  throw std::runtime_error("simulated: ThreadPool::enqueue failed");
}

// --- futures ---
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned *addr, unsigned val, bool has_timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  if (!in_sim() || t_quiet) {
    if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) {
      futex_call(reinterpret_cast<int *>(addr), FUTEX_WAIT_PRIVATE,
                 static_cast<int>(val));
    }
    return true;
  }
  sync_step();
  ++t_quiet;
  u64 deadline = kForever;
  if (has_timeout) {
    const u64 v = static_cast<u64>(s.count()) * 1000000000ull +
                  static_cast<u64>(ns.count());
    deadline = v > kEpoch ? v - kEpoch : 0;
  }
  bool ok = true;
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val && ok) {
    if (deadline != kForever && deadline <= clock_now()) {
      ok = false;
      break;
    }
    ok = block(addr, deadline);
  }
  --t_quiet;
  return ok;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned *addr, unsigned val, bool has_timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!in_sim() || t_quiet) {
    futex_call(reinterpret_cast<int *>(addr), FUTEX_WAKE_PRIVATE, 0x7fffffff);
    return;
  }
  ++t_quiet;
  wake_all(addr);
  --t_quiet;
  sync_step();
}
// Hidden entropy is a choice of the simulator, too.
random_device::result_type random_device::_M_getval() {
  return static_cast<result_type>(pick(F, 1ull << 32));
}
} // namespace std

// ======================== instrumentation callbacks ==============================
#define PC() reinterpret_cast<u64>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) {
  // Always a step: what is there before a constructor runs is arbitrary.
  on_access(p, 8, *p != v, PC());
}
void __tsan_vptr_read(void **p) { on_access(p, 8, false, PC()); }
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { on_access(p, n, false, PC()); }               \
  void __tsan_write##n(void *p) { on_access(p, n, true, PC()); }               \
  void __tsan_unaligned_read##n(void *p) { on_access(p, n, false, PC()); }     \
  void __tsan_unaligned_write##n(void *p) { on_access(p, n, true, PC()); }     \
  void __tsan_read_write##n(void *p) { on_access(p, n, true, PC()); }          \
  void __tsan_unaligned_read_write##n(void *p) { on_access(p, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void *p, unsigned long n) { on_access(p, n, false, PC()); }
void __tsan_write_range(void *p, unsigned long n) { on_access(p, n, true, PC()); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    on_access(s, n, false, PC());
    on_access(d, n, true, PC());
  }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) {
    on_access(s, n, false, PC());
    on_access(d, n, true, PC());
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) {
    on_access(d, n, true, PC());
  }
  return memset(d, c, n);
}
}

namespace {
inline bool atomic_pre() {
  if (!g_active || t_tid != g_cur || t_tid < 0) {
    return false;
  }
  if (t_quiet) {
    return false;
  }
  if (!g_conc) {
    ++g_steps;
    return false;
  }
  sync_step();
  return true;
}
inline void atomic_post(const volatile void *p, u64 size, bool rd, bool wr,
                        int mo, u64 pc) {
  ++t_quiet;
  if (g_cfg.races) {
    access_range(reinterpret_cast<u64>(p), size, wr, true, pc);
  }
  SyncVar &v = sync_var(const_cast<const void *>(p));
  if (rd && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) {
    acquire(v);
  }
  if (wr && (mo == 3 || mo == 4 || mo == 5)) {
    release(v);
  }
  --t_quiet;
}
} // namespace

#define ATOMICS(bits, type)                                                    \
  extern "C" type __tsan_atomic##bits##_load(const volatile type *a, int mo) { \
    const bool on = atomic_pre();                                              \
    type r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                             \
    if (on)                                                                    \
      atomic_post(a, sizeof(type), true, false, mo, PC());                     \
    return r;                                                                  \
  }                                                                            \
  extern "C" void __tsan_atomic##bits##_store(volatile type *a, type v,        \
                                              int mo) {                        \
    const bool on = atomic_pre();                                              \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
    if (on)                                                                    \
      atomic_post(a, sizeof(type), false, true, mo, PC());                     \
  }                                                                            \
  ATOMIC_RMW(bits, type, exchange, exchange_n)                                 \
  ATOMIC_RMW(bits, type, fetch_add, fetch_add)                                 \
  ATOMIC_RMW(bits, type, fetch_sub, fetch_sub)                                 \
  ATOMIC_RMW(bits, type, fetch_and, fetch_and)                                 \
  ATOMIC_RMW(bits, type, fetch_or, fetch_or)                                   \
  ATOMIC_RMW(bits, type, fetch_xor, fetch_xor)                                 \
  ATOMIC_RMW(bits, type, fetch_nand, fetch_nand)                               \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(                \
      volatile type *a, type *c, type v, int mo, int fmo) {                    \
    const bool on = atomic_pre();                                              \
    const bool ok = __atomic_compare_exchange_n(                               \
        a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
    if (on)                                                                    \
      atomic_post(a, sizeof(type), true, ok, ok ? mo : fmo, PC());             \
    return ok;                                                                 \
  }                                                                            \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(                  \
      volatile type *a, type *c, type v, int mo, int fmo) {                    \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);    \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_compare_exchange_val(                  \
      volatile type *a, type c, type v, int mo, int fmo) {                     \
    const bool on = atomic_pre();                                              \
    const bool ok = __atomic_compare_exchange_n(                               \
        a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    if (on)                                                                    \
      atomic_post(a, sizeof(type), true, ok, ok ? mo : fmo, PC());             \
    return c;                                                                  \
  }
#define ATOMIC_RMW(bits, type, name, op)                                       \
  extern "C" type __tsan_atomic##bits##_##name(volatile type *a, type v,       \
                                               int mo) {                       \
    const bool on = atomic_pre();                                              \
    type r = __atomic_##op(a, v, __ATOMIC_SEQ_CST);                            \
    if (on)                                                                    \
      atomic_post(a, sizeof(type), true, true, mo, PC());                      \
    return r;                                                                  \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

static char g_fence_key[8];
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (atomic_pre()) {
    ++t_quiet;
    SyncVar &v = sync_var(g_fence_key);
    acquire(v);
    release(v);
    --t_quiet;
  }
  (void)mo;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
extern "C" void __tsan_atomic_signal_fence(int) {}
