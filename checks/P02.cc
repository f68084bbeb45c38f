// P02: a failure inside a pooled apply is contained.
#include <albatross/Indexing>

#include "sim.h"

#include <thread>

const char *const kProperty = "P02";
const char *const kRule =
    "one evaluation = one pooled apply/apply_map/Grouped::apply call with at "
    "least one planned failure (throwing callbacks, a failing enqueue, a failing "
    "heap allocation, a worker that can not be spawned), after which the thrown "
    "exception, the absence of unfinished callbacks, at-most-once execution, "
    "reusability of the pool and (without allocation faults) leaks are checked; "
    "non-trivial = a failure actually happened; distinct by call kind, failure "
    "set and schedule";
const char *const kRealCode =
    "albatross apply/apply_map, Grouped::apply, make_shared_thread_pool; "
    "libstdc++ futures, packaged_task, std::thread, exception_ptr";
const char *const kStubs =
    "ThreadPool (FIFO stub of the same interface), pthread scheduling, mutexes, "
    "condition variables, clocks, heap allocation failures";
const std::vector<std::string> kAssumptions = {
    "ThreadPool::enqueue either queues the task and returns its future or throws "
    "and queues nothing",
    "a failing heap allocation surfaces as std::bad_alloc"};

namespace {

struct ItemError {
  int item;
};
struct ItemRuntimeError : std::runtime_error {
  int item;
  explicit ItemRuntimeError(int i)
      : std::runtime_error("item " + std::to_string(i)), item(i) {}
};

struct Plan {
  int kind;
  std::size_t n;
  std::vector<bool> fails;
  int exception_type;
  int amount;
  int sleep_mod; // items with id % sleep_mod == 0 sleep, 0 = none
  long enqueue_at = -1;
  long alloc_at = -1;
};

constexpr int kKinds = 7;
const char *kKindNames[kKinds] = {"vector-void", "vector-value", "map-void",
                                  "map-value",   "map-kv-void",  "map-kv-value",
                                  "grouped-value"};

// Shared by the callbacks; bookkeeping is done with the simulator paused.
struct Ledger {
  std::vector<int> started, finished;
  int running = 0;
  bool closed = false;
  int late = 0;
};

struct Tracker {
  std::shared_ptr<Ledger> ledger;
  std::size_t item;
  explicit Tracker(const std::shared_ptr<Ledger> &l, std::size_t i)
      : ledger(l), item(i) {
    sim::Quiet q;
    sim::NoFault nf;
    if (ledger->closed) {
      ++ledger->late;
    }
    ++ledger->started[item];
    ++ledger->running;
  }
  ~Tracker() {
    sim::Quiet q;
    if (ledger->closed) {
      ++ledger->late;
    }
    ++ledger->finished[item];
    --ledger->running;
  }
};

enum class How { Success, Item, Enqueue, Alloc, Other };
struct Result {
  How how = How::Success;
  int item = -1;
  bool type_ok = true;
  std::string what;
};

Result call(const Plan &plan, ThreadPool *pool,
            const std::shared_ptr<Ledger> &ledger, bool faults) {
  const std::size_t n = plan.n;
  // Lives in this frame only, like the captures of a real caller.
  std::vector<double> frame(n, 1.);
  std::vector<int> ids(n);
  std::map<int, int> as_map;
  for (std::size_t i = 0; i < n; ++i) {
    ids[i] = static_cast<int>(i);
    as_map[static_cast<int>(i) * 3 - 7] = static_cast<int>(i);
  }
  const albatross::Grouped<int, int> grouped(as_map);
  const auto body = [&](int id) {
    const auto i = static_cast<std::size_t>(id);
    Tracker t(ledger, i);
    if (plan.sleep_mod && id % plan.sleep_mod == 0) {
      std::this_thread::sleep_for(std::chrono::milliseconds(3));
    }
    for (int k = 0; k < plan.amount; ++k) {
      frame[i] += 0.5 * k;
    }
    if (faults && plan.fails[i]) {
      {
        sim::Quiet q;
        sim::fault_fired("callback_throws");
      }
      if (plan.exception_type == 0) {
        throw ItemRuntimeError(id);
      }
      if (plan.exception_type == 1) {
        throw ItemError{id};
      }
      throw id;
    }
    frame[i] += 1;
  };
  const auto value = [](int id) { return std::vector<double>(4, id * 2.); };
  Result r;
  const auto check_value = [&](const std::vector<double> &v, int id) {
    if (v != value(id)) {
      sim::violation("result", "%s: wrong result for item %d",
                     kKindNames[plan.kind], id);
    }
  };
  try {
    if (faults && plan.enqueue_at >= 0) {
      sim::arm_enqueue_fault(static_cast<std::uint64_t>(plan.enqueue_at));
    }
    if (faults && plan.alloc_at >= 0) {
      sim::arm_alloc_fault(static_cast<std::uint64_t>(plan.alloc_at));
    }
    switch (plan.kind) {
    case 0: {
      const auto f = [&](const int &id) { body(id); };
      albatross::apply(ids, f, pool);
      break;
    }
    case 1: {
      const auto f = [&](const int &id) {
        body(id);
        return value(id);
      };
      const auto out = albatross::apply(ids, f, pool);
      sim::disarm_alloc_fault();
      if (out.size() != n) {
        sim::violation("result", "vector-value: %zu of %zu", out.size(), n);
      }
      for (std::size_t i = 0; i < n; ++i) {
        check_value(out[i], static_cast<int>(i));
      }
      break;
    }
    case 2: {
      const auto f = [&](const int &id) { body(id); };
      albatross::apply(as_map, f, pool);
      break;
    }
    case 4: {
      const auto f = [&](const int &k, const int &id) {
        (void)k;
        body(id);
      };
      albatross::apply(as_map, f, pool);
      break;
    }
    default: {
      const auto f = [&](const int &id) {
        body(id);
        return value(id);
      };
      const auto fkv = [&](const int &k, const int &id) {
        (void)k;
        body(id);
        return value(id);
      };
      const auto out = plan.kind == 3   ? albatross::apply(as_map, f, pool)
                       : plan.kind == 5 ? albatross::apply(as_map, fkv, pool)
                                        : grouped.apply(fkv, pool);
      sim::disarm_alloc_fault();
      if (out.size() != n) {
        sim::violation("result", "%s: %zu of %zu", kKindNames[plan.kind],
                       out.size(), n);
      }
      for (const auto &p : as_map) {
        check_value(out.at(p.first), p.second);
      }
    }
    }
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    for (std::size_t i = 0; i < n; ++i) {
      if (ledger->finished[i] != 1 || ledger->started[i] != 1) {
        sim::violation("exactly-once",
                       "%s: returned normally although item %zu was started %d "
                       "and finished %d times",
                       kKindNames[plan.kind], i, ledger->started[i],
                       ledger->finished[i]);
      }
    }
  } catch (const ItemRuntimeError &e) {
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    sim::NoFault nf;
    r.how = How::Item;
    r.item = e.item;
    r.type_ok = plan.exception_type == 0 &&
                std::string(e.what()) == "item " + std::to_string(e.item);
  } catch (const ItemError &e) {
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    r.how = How::Item;
    r.item = e.item;
    r.type_ok = plan.exception_type == 1;
  } catch (int e) {
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    r.how = How::Item;
    r.item = e;
    r.type_ok = plan.exception_type == 2;
  } catch (const std::bad_alloc &) {
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    r.how = How::Alloc;
  } catch (const std::exception &e) {
    sim::disarm_alloc_fault();
    sim::disarm_enqueue_fault();
    r.what = e.what();
    r.how = r.what.find("simulated: ThreadPool::enqueue") == 0 ? How::Enqueue
                                                             : How::Other;
  }
  {
    sim::Quiet q;
    if (ledger->running != 0) {
      sim::violation("left-running",
                     "%s n=%zu: %d callbacks were still running when the call "
                     "was left by an exception",
                     kKindNames[plan.kind], n, ledger->running);
    }
    ledger->closed = true;
  }
  return r;
}

void expect_result(const Plan &p, const Result &r, bool alloc_legal) {
  int first = -1;
  for (std::size_t i = 0; i < p.n && first < 0; ++i) {
    if (p.fails[i]) {
      first = static_cast<int>(i);
    }
  }
  const char *k = kKindNames[p.kind];
  const bool enqueue_hit = p.enqueue_at >= 0 &&
                           p.enqueue_at < static_cast<long>(p.n);
  switch (r.how) {
  case How::Success:
    if (first >= 0) {
      sim::violation("swallowed", "%s: item %d failed but the call returned",
                     k, first);
    }
    if (enqueue_hit) {
      sim::violation("swallowed", "%s: enqueue failed but the call returned", k);
    }
    break;
  case How::Item:
    if (r.item < 0 || static_cast<std::size_t>(r.item) >= p.n ||
        !p.fails[static_cast<std::size_t>(r.item)] || !r.type_ok) {
      sim::violation("wrong-exception", "%s: got a mangled exception of item %d",
                     k, r.item);
    }
    if (!enqueue_hit && !alloc_legal && r.item != first) {
      sim::violation("wrong-exception",
                     "%s: a serial call fails with item %d, this one with %d", k,
                     first, r.item);
    }
    break;
  case How::Enqueue:
    if (!enqueue_hit) {
      sim::violation("wrong-exception", "%s: unexpected enqueue failure", k);
    }
    break;
  case How::Alloc:
    if (!alloc_legal) {
      sim::violation("wrong-exception", "%s: unexpected bad_alloc", k);
    }
    break;
  case How::Other:
    sim::violation("wrong-exception", "%s: unexpected exception: %s", k,
                   r.what.c_str());
  }
}

Plan draw_plan(bool faults) {
  Plan p;
  p.kind = static_cast<int>(sim::w(kKinds));
  p.n = 1 + (sim::w(5) == 4 ? sim::w(24) : sim::w(8));
  p.exception_type = static_cast<int>(sim::w(3));
  p.amount = static_cast<int>(sim::w(10));
  p.sleep_mod = static_cast<int>(sim::w(4));
  p.fails.assign(p.n, false);
  if (faults) {
    const auto mode = sim::f(6);
    if (mode <= 2 || mode == 5) {
      const auto k = mode == 0 ? 1 : 1 + sim::f(p.n);
      for (std::size_t i = 0; i < k; ++i) {
        p.fails[sim::f(p.n)] = true;
      }
    }
    if (mode == 3 || mode == 5) {
      p.enqueue_at = static_cast<long>(sim::f(p.n));
    }
    if (mode == 4) {
      p.alloc_at = static_cast<long>(sim::f(12 + 14 * p.n));
    }
  }
  return p;
}

} // namespace

void sim_run() {
  const sim::SchedConfig cfg = sim::random_sched();
  const std::size_t workers = 2 + sim::w(5);
  const std::size_t clients = 1 + (sim::w(3) == 2 ? 1 + sim::w(2) : 0);
  const std::size_t rounds = 1 + sim::w(3);
  const bool spawn = sim::f(12) == 11;
  std::vector<std::vector<Plan>> plans(clients);
  bool any_alloc = false;
  for (auto &ps : plans) {
    for (std::size_t i = 0; i < rounds; ++i) {
      ps.push_back(draw_plan(sim::f(5) != 4));
      any_alloc = any_alloc || ps.back().alloc_at >= 0;
    }
    ps.push_back(draw_plan(false));
  }
  // Allocation and enqueue faults hit whoever comes first: only with one
  // client can the exact outcome of a call be predicted.
  if (clients > 1) {
    for (auto &ps : plans) {
      for (auto &p : ps) {
        p.alloc_at = -1;
        p.enqueue_at = -1;
      }
    }
    any_alloc = false;
  }
  sim::log("workers=%zu clients=%zu rounds=%zu policy=%d gap=%llu spawn=%d",
           workers, clients, rounds, cfg.policy,
           static_cast<unsigned long long>(cfg.gap), spawn);
  for (std::size_t c = 0; c < clients; ++c) {
    for (const auto &p : plans[c]) {
      std::string fails;
      for (std::size_t i = 0; i < p.n; ++i) {
        if (p.fails[i]) {
          fails += (fails.empty() ? "" : ",") + std::to_string(i);
        }
      }
      sim::log("client %zu: %s n=%zu failing items={%s} enqueue fails at %ld, "
               "allocation fails at %ld",
               c, kKindNames[p.kind], p.n, fails.c_str(), p.enqueue_at,
               p.alloc_at);
    }
  }
  std::vector<std::shared_ptr<Ledger>> ledgers;
  sim::begin(cfg);
  {
    std::shared_ptr<ThreadPool> pool;
    if (spawn) {
      sim::spawn_fail_after(static_cast<int>(sim::f(workers)));
      bool threw = false;
      try {
        pool = albatross::make_shared_thread_pool(workers);
      } catch (const std::exception &) {
        threw = true;
      }
      if (!threw && (!pool || pool->thread_count() < 1)) {
        sim::violation("pool", "an unusable pool came back from a failed spawn");
      }
      if (threw && sim::live_threads() != 1) {
        sim::violation("pool", "workers are left behind by a failed spawn");
      }
      sim::spawn_fail_after(-1);
    }
    if (!pool) {
      pool = albatross::make_shared_thread_pool(workers);
    }
    const auto client = [&](std::size_t c) {
      for (const auto &p : plans[c]) {
        auto ledger = std::make_shared<Ledger>();
        ledger->started.assign(p.n, 0);
        ledger->finished.assign(p.n, 0);
        {
          sim::Quiet q;
          ledgers.push_back(ledger);
        }
        const Result r = call(p, pool.get(), ledger, true);
        expect_result(p, r, p.alloc_at >= 0);
        sim::evaluated(r.how != How::Success,
                       sim::mix(static_cast<std::uint64_t>(p.kind) * 131 +
                                    p.n * 7 + static_cast<std::uint64_t>(r.how),
                                sim::steps()));
      }
    };
    std::vector<std::thread> others;
    for (std::size_t c = 1; c < clients; ++c) {
      others.emplace_back(client, c);
    }
    client(0);
    for (auto &t : others) {
      t.join();
    }
    pool.reset();
  }
  sim::end();
  for (const auto &l : ledgers) {
    if (l->late) {
      sim::violation("left-running",
                     "a callback ran %d times after its call had been left",
                     l->late);
    }
    for (std::size_t i = 0; i < l->started.size(); ++i) {
      if (l->started[i] > 1 || l->started[i] != l->finished[i]) {
        sim::violation("exactly-once", "item %zu started %d finished %d", i,
                       l->started[i], l->finished[i]);
      }
    }
  }
}
