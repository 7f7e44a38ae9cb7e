// Scenarios for P01 and P02: nisaba::ThreadPool.
#include <algorithm>
#include <memory>
#include <thread>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "nisaba/port/thread_pool.h"
#include "simrt.h"

namespace {

using sim::Quiet;

// What the scenario knows about the tasks.  Plain memory on purpose: with
// Quiet it is invisible to the race detector and never a scheduling point.
struct Book {
  struct Task {
    bool scheduled = false;     // Schedule() returned
    uint64_t call = 0, ret = 0; // sequence numbers of the Schedule() call
    int starts = 0, ends = 0;
    uint64_t start = 0;
  };
  std::vector<Task> t;
  int running = 0, max_running = 0, workers = 0;
  bool check_fifo = true;
  bool destroyed = false;

  void Call(int i) { Quiet q; t[i].call = sim::Seq(); }
  void Ret(int i) { Quiet q; t[i].ret = sim::Seq(); t[i].scheduled = true; }
  void Start(int i) {
    Quiet q;
    sim::Note("task %d starts", i);
    if (destroyed) sim::Violation("task-after-destruction", "task %d starts after the destructor returned", i);
    if (t[i].starts++) sim::Violation("task-twice", "task %d starts a second time", i);
    t[i].start = sim::Seq();
    ++running;
    if (running > max_running) max_running = running;
    if (running > workers)
      sim::Violation("too-many-running", "%d tasks run at once with %d workers", running, workers);
    if (!check_fifo) return;
    // Tasks handed over strictly before this one and not started yet must each
    // be in the hands of a worker that runs nothing else.
    int pending = 0, first = -1;
    for (size_t k = 0; k < t.size(); ++k)
      if ((int)k != i && t[k].scheduled && t[k].ret < t[i].call && !t[k].starts) { ++pending; if (first < 0) first = k; }
    if (pending > workers - running)
      sim::Violation("not-fifo", "task %d starts while %d earlier tasks (first %d) wait; %d running, %d workers", i,
                     pending, first, running, workers);
  }
  void End(int i) { Quiet q; sim::Note("task %d ends", i); ++t[i].ends; --running; }
};

// Work inside a task: some scheduling points and simulated time.
void Chew(int kind) {
  if (kind >= 100) absl::SleepFor(absl::Milliseconds(1ll << (kind - 100)));  // Up to half a year.
  else for (int k = 0; k < kind; ++k) sim::Yield();
}
// How much of it: mostly little, now and then a very long time.
int Size(int n) { return sim::Chance(1, 12) ? 100 + sim::W(35) : sim::W(n); }

}  // namespace

// P01: several producers, tasks scheduled before and after StartWorkers and
// from inside tasks; every effect must be visible after destruction.
SIM_SCENARIO(pool_exactly_once) {
  const int workers = sim::Range(1, 5);
  const int pre = sim::Range(0, 4);
  const int producers = sim::Range(1, 3);
  const int per = sim::W(100) >= 98 ? sim::Range(6, 80) : sim::Range(0, 5);
  const int nested = sim::Range(0, 3);      // every main task may spawn these
  const int post = sim::Range(0, 3);
  const int spawners = pre + producers * per + post;
  const int total = spawners + nested;
  Book b;
  b.workers = workers;
  b.check_fifo = false;
  b.t.resize(total);
  std::vector<int> chew(total);
  for (auto &c : chew) c = Size(4);
  std::vector<int> data(total, 0);          // written by tasks, read at the end
  // Some tasks have a pool of their own; another pool lives beside this one.
  const int inner = sim::Chance(1, 4) ? sim::Range(1, 3) : 0;
  const int beside = sim::Chance(1, 4) ? sim::Range(1, 4) : 0;
  const int beside_workers = sim::Range(1, 2);
  const bool cross = sim::W(2);             // tasks hand it work
  int beside_ran = 0;
  std::vector<std::shared_ptr<int>> held(total);
  for (int i = 0; i < total; ++i) held[i] = std::make_shared<int>(i);
  {
    // Tasks scheduled from inside a task must be handed over before the pool's
    // destruction begins: the spawning task signals that it did so.
    absl::Mutex mu;
    int spawned = 0;
    auto pool = std::make_unique<nisaba::ThreadPool>(workers);
    std::unique_ptr<nisaba::ThreadPool> other;
    absl::Mutex other_mu;
    auto other_task = [&] { absl::MutexLock l(&other_mu); ++beside_ran; };
    if (beside) {
      other = std::make_unique<nisaba::ThreadPool>(beside_workers);
      other->StartWorkers();
    }
    std::function<void(int)> sched = [&](int i) {
      b.Call(i);
      std::shared_ptr<int> own = held[i];
      pool->Schedule([&, i, own] {
        b.Start(i);
        Chew(chew[i]);
        if (i < inner) {
          int ran[3] = {0, 0, 0};
          {
            nisaba::ThreadPool own_pool(1 + i % 2);
            own_pool.Schedule([&] { ++ran[0]; });
            own_pool.StartWorkers();
            own_pool.Schedule([&] { ++ran[1]; });
            own_pool.Schedule([&] { ++ran[2]; });
          }
          for (int x : ran)
            if (x != 1) sim::Violation("task-lost", "a task of a pool inside a task ran %d times", x);
        }
        if (cross && i < beside) other->Schedule(other_task);
        if (i < nested && i < spawners) {   // task i spawns task spawners + i
          sched(spawners + i);
          absl::MutexLock l(&mu);
          ++spawned;
        }
        data[i] += *own + 1;
        b.End(i);
      });
      b.Ret(i);
    };
    for (int i = 0; i < pre; ++i) sched(i);
    pool->StartWorkers();
    if (sim::Chance(1, 4)) Chew(Size(10));
    std::vector<std::thread> ps;
    for (int p = 1; p < producers; ++p)
      ps.emplace_back([&, p] { for (int k = 0; k < per; ++k) sched(pre + p * per + k); });
    for (int k = 0; k < per; ++k) sched(pre + k);
    for (auto &p : ps) p.join();
    if (sim::Chance(1, 6)) Chew(Size(10));
    for (int k = 0; k < post; ++k) sched(pre + producers * per + k);
    int expect = nested < spawners ? nested : spawners;
    if (expect) {
      auto done = [&] { return spawned == expect; };
      absl::MutexLock l(&mu);
      mu.Await(absl::Condition(&done));
    }
    if (sim::Chance(1, 3)) Chew(Size(30));
    if (!cross) for (int i = 0; i < beside; ++i) other->Schedule(other_task);
    const bool first = !cross && sim::W(2);
    if (first) other = nullptr;
    pool.reset();
    // Tasks that were never scheduled handed nothing over.
    const int given = cross ? std::min(beside, total - (nested > spawners ? nested - spawners : 0)) : beside;
    other = nullptr;
    if (beside_ran != given) sim::Violation("task-lost", "%d of %d tasks of the pool beside ran", beside_ran, given);
    b.destroyed = true;
    for (int i = 0; i < total; ++i) {
      const int want = b.t[i].scheduled;
      if (b.t[i].starts != want || b.t[i].ends != want)
        sim::Violation("task-lost", "task %d of %d: scheduled %d, started %d, finished %d when the pool was gone", i,
                       total, want, b.t[i].starts, b.t[i].ends);
      if (data[i] != want * (i + 1))
        sim::Violation("effect-lost", "task %d wrote %d, %d expected", i, data[i], want * (i + 1));
    }
    // The pool gives up the closures, too.
    held.clear();
  }
  if (total >= 2) sim::Nontrivial();
  sim::Probe("tasks", total);
}

// P02: FIFO hand-out, at most `workers` at once.
SIM_SCENARIO(pool_fifo) {
  const int workers = sim::Range(1, 4);
  const int n = sim::W(100) >= 98 ? sim::Range(13, 200) : sim::Range(1, 12);
  Book b;
  b.workers = workers;
  b.t.resize(n);
  std::vector<int> chew(n);
  for (auto &c : chew) c = Size(4);
  const int start_at = sim::W(n + 1);
  {
    nisaba::ThreadPool pool(workers);
    for (int i = 0; i < n; ++i) {
      if (i == start_at) pool.StartWorkers();
      b.Call(i);
      pool.Schedule([&, i] {
        b.Start(i);
        Chew(chew[i]);
        b.End(i);
      });
      b.Ret(i);
    }
    if (start_at == n) pool.StartWorkers();
  }
  if (n >= 2) sim::Nontrivial();
  if (b.max_running > 1) sim::Probe("parallel");
  if (b.max_running == workers) sim::Probe("all_workers_busy");
}

// P02: groups of `workers` tasks that need each other.
SIM_SCENARIO(pool_parallel) {
  const bool many = sim::Chance(1, 100);  // nothing says how many workers there may be
  const int workers = many ? sim::Range(9, 70) : sim::Range(1, 5);
  if (many) { sim::SetStepBudget(2000000, 50000000); sim::Probe("many_workers"); }
  const int groups = sim::Range(1, 3);
  const int filler = sim::W(4);
  Book b;
  b.workers = workers;
  b.t.resize(workers * groups + filler);
  absl::Mutex mu;
  std::vector<int> arrived(groups, 0);
  const bool from_task = sim::Chance(1, 3) && workers > 1;
  {
    nisaba::ThreadPool pool(workers);
    if (sim::Chance(1, 2)) sim::Yield();
    pool.StartWorkers();
    if (sim::Chance(1, 3)) Chew(Size(10));
    int id = 0;
    auto rendezvous = [&](int g, int i) {
      b.Start(i);
      {
        auto all = [&arrived, g, workers] { return arrived[g] == workers; };
        absl::MutexLock l(&mu);
        ++arrived[g];
        mu.Await(absl::Condition(&all));
      }
      b.End(i);
    };
    auto sched = [&](int g, int i) {
      b.Call(i);
      pool.Schedule([&, g, i] { rendezvous(g, i); });
      b.Ret(i);
    };
    for (int f = 0; f < filler; ++f, ++id) {
      b.Call(id);
      const int i = id;
      pool.Schedule([&, i] { b.Start(i); sim::Yield(); b.End(i); });
      b.Ret(id);
    }
    for (int g = 0; g < groups; ++g) {
      if (from_task && g == 0) {
        // The first member hands out its partners: Schedule() must not wait
        // for anything they do.
        const int first = id;
        b.Call(first);
        pool.Schedule([&, first, g] {
          b.Start(first);
          for (int m = 1; m < workers; ++m) sched(g, first + m);
          {
            auto all = [&arrived, g, workers] { return arrived[g] == workers; };
            absl::MutexLock l(&mu);
            ++arrived[g];
            mu.Await(absl::Condition(&all));
          }
          b.End(first);
        });
        b.Ret(first);
        id += workers;
        auto all = [&arrived, g, workers] { return arrived[g] == workers; };
        absl::MutexLock l(&mu);
        mu.Await(absl::Condition(&all));
      } else {
        for (int m = 0; m < workers; ++m, ++id) sched(g, id);
      }
    }
  }
  for (size_t i = 0; i < b.t.size(); ++i)
    if (b.t[i].starts != 1 || b.t[i].ends != 1)
      sim::Violation("task-lost", "task %zu started %d times, finished %d times", i, b.t[i].starts, b.t[i].ends);
  if (workers > 1) sim::Nontrivial();
}

// P02: Schedule() does not wait for tasks; idle pools terminate.
SIM_SCENARIO(pool_schedule_nonblocking) {
  const int workers = sim::Range(1, 4);
  // Rarely very many: nothing says how long the queue may get.
  const int big = sim::W(400);
  const int n = big >= 397 ? sim::Range(1000, 10000) : big >= 380 ? sim::Range(20, 300) : sim::Range(0, 10);
  if (n > 1000) sim::SetStepBudget(2000000, 50000000);
  const bool start_first = sim::Chance(1, 2);
  absl::Mutex mu;
  bool open = false;
  int ran = 0;
  {
    nisaba::ThreadPool pool(workers);
    if (start_first) pool.StartWorkers();
    for (int i = 0; i < n; ++i)
      pool.Schedule([&] {
        absl::MutexLock l(&mu);
        mu.Await(absl::Condition(&open));
        ++ran;
      });
    if (!start_first) pool.StartWorkers();
    {
      // Only now may the tasks go on.
      absl::MutexLock l(&mu);
      if (ran) sim::Violation("gate", "a task ran through a closed gate");
      open = true;
    }
  }
  if (ran != n) sim::Violation("task-lost", "%d of %d tasks ran", ran, n);
  if (n > workers) sim::Nontrivial();
  sim::Probe(n == 0 ? "empty_pool" : "loaded_pool");
}
