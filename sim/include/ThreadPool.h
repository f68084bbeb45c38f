// The pool of simulated worker threads.  swift-nav's fork of progschj/ThreadPool
// is not available offline; this is the same interface with the same queueing
// behaviour (FIFO queue, N workers, results and exceptions through futures,
// destructor drains the queue and joins).  Threads, mutexes, condition
// variables and futures underneath are the simulator's when a run is active.
#ifndef SIM_THREAD_POOL_H
#define SIM_THREAD_POOL_H

#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <thread>
#include <vector>

// Fault points, implemented by the simulator (no-ops outside a run).
extern "C" void sim_pool_fault_enqueue();
extern "C" void sim_pool_task_boundary(int begin);

class ThreadPool {
public:
  ThreadPool(std::size_t threads, std::function<void()> init = {},
             std::size_t stack_size = 0)
      : stop_(false) {
    (void)stack_size;
    try {
      for (std::size_t i = 0; i < threads; ++i) {
        workers_.emplace_back([this, init] {
          if (init) {
            init();
          }
          worker();
        });
      }
    } catch (...) {
      shutdown();
      throw;
    }
  }

  ThreadPool(const ThreadPool &) = delete;
  ThreadPool &operator=(const ThreadPool &) = delete;

  std::size_t thread_count() const { return workers_.size(); }

  template <class F, class... Args> auto enqueue(F &&f, Args &&...args) {
    using R = std::invoke_result_t<std::decay_t<F> &, std::decay_t<Args> &...>;
    sim_pool_fault_enqueue();
    auto task = std::make_shared<std::packaged_task<R()>>(
        std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    std::future<R> result = task->get_future();
    {
      std::unique_lock<std::mutex> lock(mutex_);
      if (stop_) {
        throw std::runtime_error("enqueue on stopped ThreadPool");
      }
      tasks_.emplace([task]() { (*task)(); });
    }
    cond_.notify_one();
    return result;
  }

  ~ThreadPool() { shutdown(); }

private:
  void worker() {
    for (;;) {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(mutex_);
        cond_.wait(lock, [this] { return stop_ || !tasks_.empty(); });
        if (stop_ && tasks_.empty()) {
          return;
        }
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      sim_pool_task_boundary(1);
      task();
      sim_pool_task_boundary(0);
    }
  }

  void shutdown() {
    {
      std::unique_lock<std::mutex> lock(mutex_);
      stop_ = true;
    }
    cond_.notify_all();
    for (auto &w : workers_) {
      w.join();
    }
    workers_.clear();
  }

  std::vector<std::thread> workers_;
  std::queue<std::function<void()>> tasks_;
  std::mutex mutex_;
  std::condition_variable cond_;
  bool stop_;
};

#endif
