// P01: applying a function through a thread pool equals applying it serially.
#include <albatross/Indexing>

#include "sim.h"

#include <list>
#include <thread>

const char *const kProperty = "P01";
const char *const kRule =
    "one evaluation = one call of apply/apply_map/Grouped::apply/GroupBy::apply "
    "with a pool, compared with an independent serial loop (result, order, "
    "exactly-once, side effects visible on return); non-trivial = at least two "
    "items and a pool with at least two workers; distinct by call kind, size, "
    "worker count, client count and schedule hash";
const char *const kRealCode =
    "albatross apply/apply_map (serial and pooled), Grouped, group_by, "
    "make_shared_thread_pool; libstdc++ futures, packaged_task, std::thread";
const char *const kStubs =
    "ThreadPool (swift-nav fork not available offline: FIFO queue of the same "
    "interface), pthread scheduling, mutexes, condition variables, clocks";
const std::vector<std::string> kAssumptions = {
    "sequentially consistent memory at the granularity of instrumented "
    "accesses; weaker orderings are caught as data races, not simulated",
    "the pool is the FIFO stub; a conforming ThreadPool may start tasks in any "
    "order, which the scheduler produces by delaying workers"};

namespace {

using albatross::Grouped;

struct Value { // a value with state, copies are counted
  int id = 0;
  std::string text;
  bool operator==(const Value &o) const { return id == o.id && text == o.text; }
};

// Per item bookkeeping, written by the callbacks without synchronisation: a
// double execution or a call which returns too early is a data race, too.
struct Slots {
  std::vector<int> calls;
  std::vector<double> effect;
  explicit Slots(std::size_t n) : calls(n, 0), effect(n, 0.) {}
};

double work(int id, int amount) {
  volatile double x = id;
  for (int i = 0; i < amount; ++i) {
    x = x * 1.25 + 1;
  }
  return x;
}

struct Op {
  int kind;
  std::size_t n;
  int amount;
  int sleep_at;
  int seed;
};

constexpr int kKinds = 16;
const char *kind_name(int k) {
  static const char *names[kKinds] = {
      "vector-void",       "vector-double",      "vector-string",
      "map-void",          "map-string",         "map-kv-void",
      "map-kv-double",     "grouped-void",       "grouped-string",
      "grouped-kv-void",   "grouped-kv-vector",  "groupby-vector",
      "groupby-kv-double", "vector-member-void", "vector-int-bool",
      "multikey-string"};
  return names[k];
}

void check(bool ok, const Op &op, const char *what, const std::string &detail) {
  if (!ok) {
    sim::violation(what, "%s n=%zu: %s", kind_name(op.kind), op.n,
                   detail.c_str());
  }
}

void run_op(const Op &op, ThreadPool *pool, std::size_t clients) {
  using namespace albatross;
  const std::size_t n = op.n;
  Slots slots(n);
  // Keys are spread out and not in insertion order.
  const auto key_of = [&](std::size_t i) {
    return static_cast<int>((i * 7919u + static_cast<unsigned>(op.seed)) % 10007u);
  };
  std::vector<Value> values(n);
  for (std::size_t i = 0; i < n; ++i) {
    values[i].id = static_cast<int>(i);
    values[i].text = "value-" + std::to_string(i * 31 + op.seed);
  }
  std::map<int, Value> as_map;
  for (std::size_t i = 0; i < n; ++i) {
    as_map[key_of(i)] = values[i];
  }
  const std::map<int, Value> frozen = as_map;
  const auto touch = [&](const Value &v) {
    const auto i = static_cast<std::size_t>(v.id);
    if (v.id < 0 || i >= n || v.text != values[i].text) {
      sim::violation("argument", "%s: callback called with item %d '%s'",
                     kind_name(op.kind), v.id, v.text.c_str());
    }
    if (v.id == op.sleep_at) {
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    slots.effect[i] = work(v.id, op.amount);
    ++slots.calls[i];
  };
  const auto out = [&](const Value &v) { return v.text + "!" + std::to_string(v.id); };
  const auto kv_ok = [&](int k, const Value &v) {
    if (key_of(static_cast<std::size_t>(v.id)) != k) {
      sim::violation("argument", "%s: key %d passed with the value of key %d",
                     kind_name(op.kind), k, key_of(static_cast<std::size_t>(v.id)));
    }
  };
  std::vector<int> expected_calls(n, 1);

  switch (op.kind) {
  case 0: {
    const auto f = [&](const Value &v) { touch(v); };
    albatross::apply(values, f, pool);
    break;
  }
  case 1: {
    const auto f = [&](const Value &v) -> double {
      touch(v);
      return 3. * v.id + op.seed;
    };
    const std::vector<double> r = albatross::apply(values, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (std::size_t i = 0; i < n; ++i) {
      check(r[i] == 3. * static_cast<int>(i) + op.seed, op, "result",
            "element " + std::to_string(i) + " is " + std::to_string(r[i]));
    }
    break;
  }
  case 2: {
    const auto f = [&](const Value &v) {
      touch(v);
      return out(v);
    };
    const auto r = albatross::apply(values, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (std::size_t i = 0; i < n; ++i) {
      check(r[i] == out(values[i]), op, "result",
            "element " + std::to_string(i) + " is " + r[i]);
    }
    break;
  }
  case 3: {
    const auto f = [&](const Value &v) { touch(v); };
    if (op.seed & 1) {
      albatross::apply(as_map, f, pool);
    } else {
      albatross::apply_map(as_map, f, pool);
    }
    break;
  }
  case 4: {
    const auto f = [&](const Value &v) {
      touch(v);
      return out(v);
    };
    const Grouped<int, std::string> r = (op.seed & 1)
                                            ? albatross::apply(as_map, f, pool)
                                            : albatross::apply_map(as_map, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (const auto &p : frozen) {
      const auto it = r.find(p.first);
      check(it != r.end() && it->second == out(p.second), op, "result",
            "entry of key " + std::to_string(p.first));
    }
    break;
  }
  case 5: {
    const auto f = [&](const int k, const Value &v) {
      kv_ok(k, v);
      touch(v);
    };
    albatross::apply(as_map, f, pool);
    break;
  }
  case 6: {
    const auto f = [&](const int k, const Value &v) {
      kv_ok(k, v);
      touch(v);
      return k + 0.25 * v.id;
    };
    const auto r = albatross::apply(as_map, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (const auto &p : frozen) {
      const auto it = r.find(p.first);
      check(it != r.end() && it->second == p.first + 0.25 * p.second.id, op,
            "result", "entry of key " + std::to_string(p.first));
    }
    break;
  }
  case 7: {
    const Grouped<int, Value> g(as_map);
    const auto f = [&](const Value &v) { touch(v); };
    g.apply(f, pool);
    break;
  }
  case 8: {
    const Grouped<int, Value> g(as_map);
    const auto f = [&](const Value &v) {
      touch(v);
      return out(v);
    };
    const auto r = g.apply(f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (const auto &p : frozen) {
      const auto it = r.find(p.first);
      check(it != r.end() && it->second == out(p.second), op, "result",
            "entry of key " + std::to_string(p.first));
    }
    break;
  }
  case 9: {
    const Grouped<int, Value> g(as_map);
    const auto f = [&](const int k, const Value &v) {
      kv_ok(k, v);
      touch(v);
    };
    albatross::apply(g, f, pool);
    break;
  }
  case 10: {
    const Grouped<int, Value> g(as_map);
    const auto f = [&](const int k, const Value &v) {
      kv_ok(k, v);
      touch(v);
      return std::vector<double>(static_cast<std::size_t>(v.id % 5), 1. * k);
    };
    const auto r = g.apply(f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (const auto &p : frozen) {
      const auto it = r.find(p.first);
      check(it != r.end() &&
                it->second == std::vector<double>(
                                  static_cast<std::size_t>(p.second.id % 5),
                                  1. * p.first),
            op, "result", "entry of key " + std::to_string(p.first));
    }
    break;
  }
  case 11:
  case 12: {
    const int groups = 1 + op.seed % 5;
    const auto grouper = [&](const Value &v) { return v.id * 13 % groups; };
    const auto by = group_by(values, grouper);
    std::map<int, std::vector<Value>> model;
    for (const auto &v : values) {
      model[grouper(v)].push_back(v);
    }
    if (op.kind == 11) {
      const auto f = [&](const std::vector<Value> &vs) {
        for (const auto &v : vs) {
          touch(v);
        }
        return vs;
      };
      const auto r = by.apply(f, pool);
      check(r.size() == model.size(), op, "result",
            "size " + std::to_string(r.size()));
      for (const auto &p : model) {
        const auto it = r.find(p.first);
        check(it != r.end() && it->second == p.second, op, "result",
              "group " + std::to_string(p.first));
      }
    } else {
      const auto f = [&](const int k, const std::vector<Value> &vs) {
        double s = k;
        for (const auto &v : vs) {
          touch(v);
          s = s * 3 + v.id;
        }
        return s;
      };
      const auto r = by.apply(f, pool);
      check(r.size() == model.size(), op, "result",
            "size " + std::to_string(r.size()));
      for (const auto &p : model) {
        double s = p.first;
        for (const auto &v : p.second) {
          s = s * 3 + v.id;
        }
        const auto it = r.find(p.first);
        check(it != r.end() && it->second == s, op, "result",
              "group " + std::to_string(p.first));
      }
    }
    break;
  }
  case 13: {
    struct Functor { // a stateful function object
      Slots *slots;
      const Op *op;
      void operator()(const Value &v) const {
        const auto i = static_cast<std::size_t>(v.id);
        slots->effect[i] = work(v.id, op->amount);
        ++slots->calls[i];
      }
    };
    const Functor f{&slots, &op};
    albatross::apply(values, f, pool);
    break;
  }
  case 14: {
    std::vector<int> ids(n);
    for (std::size_t i = 0; i < n; ++i) {
      ids[i] = static_cast<int>(i);
    }
    const auto f = [&](const int &i) {
      touch(values[static_cast<std::size_t>(i)]);
      return (i * 37 + op.seed) % 3 == 0;
    };
    const std::vector<bool> r = albatross::apply(ids, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (std::size_t i = 0; i < n; ++i) {
      check(r[i] == ((static_cast<int>(i) * 37 + op.seed) % 3 == 0), op,
            "result", "element " + std::to_string(i));
    }
    break;
  }
  default: {
    std::map<std::pair<std::string, int>, Value> m;
    for (std::size_t i = 0; i < n; ++i) {
      m[{"k" + std::to_string(i % 3), static_cast<int>(i / 3)}] = values[i];
    }
    const auto f = [&](const std::pair<std::string, int> &k, const Value &v) {
      touch(v);
      return k.first + out(v);
    };
    const auto r = albatross::apply(m, f, pool);
    check(r.size() == n, op, "result", "size " + std::to_string(r.size()));
    for (const auto &p : m) {
      const auto it = r.find(p.first);
      check(it != r.end() && it->second == p.first.first + out(p.second), op,
            "result", "entry of key " + p.first.first);
    }
    break;
  }
  }
  for (std::size_t i = 0; i < n; ++i) {
    check(slots.calls[i] == 1, op, "exactly-once",
          "item " + std::to_string(i) + " was processed " +
              std::to_string(slots.calls[i]) + " times by the time of return");
    check(slots.effect[i] == work(static_cast<int>(i), op.amount), op,
          "side-effect", "item " + std::to_string(i));
  }
  check(as_map == frozen, op, "input", "the input map was changed");
  const bool parallel = pool && pool->thread_count() > 1 && n > 1;
  sim::evaluated(parallel,
                 sim::mix(sim::mix(static_cast<unsigned>(op.kind), n * 16 + clients),
                          sim::steps()));
}

} // namespace

void sim_run() {
  const sim::SchedConfig cfg = sim::random_sched();
  const std::size_t workers = sim::w(8) == 7 ? sim::w(2) * 1 : 2 + sim::w(5);
  const std::size_t clients = 1 + sim::w(3);
  std::vector<std::vector<Op>> plan(clients);
  for (auto &ops : plan) {
    const std::size_t k = 1 + sim::w(3);
    for (std::size_t i = 0; i < k; ++i) {
      Op op;
      op.kind = static_cast<int>(sim::w(kKinds));
      op.n = sim::w(6) == 5 ? sim::w(40) : sim::w(9);
      op.amount = static_cast<int>(sim::w(12));
      op.sleep_at = sim::w(3) ? -1 : static_cast<int>(sim::w(9));
      op.seed = static_cast<int>(sim::w(1000));
      ops.push_back(op);
    }
  }
  sim::log("workers=%zu clients=%zu policy=%d gap=%llu", workers, clients,
           cfg.policy, static_cast<unsigned long long>(cfg.gap));
  for (std::size_t c = 0; c < clients; ++c) {
    for (const auto &op : plan[c]) {
      sim::log("client %zu: %s n=%zu amount=%d sleep_at=%d seed=%d", c,
               kind_name(op.kind), op.n, op.amount, op.sleep_at, op.seed);
    }
  }
  sim::begin(cfg);
  {
    std::shared_ptr<ThreadPool> pool =
        workers == 0 ? nullptr : albatross::make_shared_thread_pool(workers);
    const std::size_t got = albatross::get_thread_count(pool);
    if (got != std::max<std::size_t>(1, workers)) {
      sim::violation("pool", "asked for %zu workers, got %zu", workers, got);
    }
    std::vector<std::thread> others;
    for (std::size_t c = 1; c < clients; ++c) {
      others.emplace_back([&, c] {
        for (const auto &op : plan[c]) {
          run_op(op, pool.get(), clients);
        }
      });
    }
    for (const auto &op : plan[0]) {
      run_op(op, pool.get(), clients);
    }
    for (auto &t : others) {
      t.join();
    }
    pool.reset();
  }
  sim::end();
}
