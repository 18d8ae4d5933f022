// Executors: Strand (C07), FairThreadPool (C08), Inline/Manual (C05).  --mode strand|pool|misc
#include "types.hpp"

#include <yaclib/exe/submit.hpp>

using namespace vh;

namespace {

struct Env;

// One submitted job with its history. Plain fields are written by the executing thread and read after quiescence, so
// every field is also a happens-before probe.
struct TJob final : yaclib::Job {
  int id = 0;
  int submitter = 0;
  int strand = -1;
  Env* env = nullptr;
  std::vector<TJob*> children;  // submitted from inside Call to child_exec
  yaclib::IExecutorPtr target;  // released as soon as this job is submitted
  u64 sub_begin = 0, sub_end = 0, run_begin = 0, run_end = 0, drop_at = 0;
  int calls = 0, drops = 0;
  int exec_seen = -1;
  int work = 0;
  int reject_depth = 0;

  void Call() noexcept final;
  void Drop() noexcept final;
};

struct StrandState {
  int inside = 0;              // plain: a race here is a violation of the happens-before clause
  std::vector<TJob*> order;    // plain, likewise
  u64 payload = 0;
  yaclib::IExecutorPtr exec;
  int expect_exec = -1;
};

struct Env {
  std::vector<StrandState> strands;
  std::atomic<int> running{0};
  std::atomic<int> max_running{0};
  std::vector<TJob*> start_order;  // protected by start_lock (only used for single worker pools: plain)
  bool single_worker = false;
  std::atomic<bool> stop_begun{false};
  std::atomic<u64> stop_begin{0};
  std::atomic<bool> wait_done{false};
  std::string mode;
};

int& RejectDepth() {
  return PerThread<struct RejectDepthTag, int>();
}

void DoSubmit(TJob& j) {
  j.sub_begin = Now();
  auto target = std::move(j.target);
  target->Submit(j);
}

void TJob::Call() noexcept {
  auto& e = *env;
  VH_CHECK(calls == 0 && drops == 0, "C05,C07,C08", "job-finished-twice", "job %d: Call after %d calls %d drops", id, calls,
           drops);
  ++calls;
  run_begin = Now();
  VH_CHECK(!e.wait_done.load(std::memory_order_relaxed), "C08", "run-after-wait", "job %d runs after Wait returned", id);
  auto r = e.running.fetch_add(1, std::memory_order_relaxed) + 1;
  if (r > e.max_running.load(std::memory_order_relaxed)) {
    e.max_running.store(r, std::memory_order_relaxed);
  }
  exec_seen = CurrentExec();
  if (strand >= 0) {
    auto& s = e.strands[static_cast<std::size_t>(strand)];
    ++s.inside;
    VH_CHECK(s.inside == 1, "C07", "strand-overlap", "job %d overlaps another job of strand %d", id, strand);
    s.order.push_back(this);
    s.payload = Mix(s.payload + static_cast<u64>(id));
  }
  if (e.single_worker) {
    e.start_order.push_back(this);
  }
  for (int i = 0; i != work; ++i) {
    Point();
  }
  for (auto* c : children) {
    DoSubmit(*c);
    c->sub_end = Now();
  }
  if (strand >= 0) {
    auto& s = e.strands[static_cast<std::size_t>(strand)];
    Point();
    VH_CHECK(s.inside == 1, "C07", "strand-overlap", "job %d overlapped by another job of strand %d", id, strand);
    --s.inside;
  }
  e.running.fetch_sub(1, std::memory_order_relaxed);
  run_end = Now();
}

void TJob::Drop() noexcept {
  VH_CHECK(calls == 0 && drops == 0, "C05,C07,C08", "job-finished-twice", "job %d: Drop after %d calls %d drops", id, calls,
           drops);
  ++drops;
  drop_at = Now();
  reject_depth = RejectDepth();
  VH_CHECK(env->stop_begun.load(std::memory_order_relaxed) || reject_depth > 0, "C05,C07,C08", "drop-without-refusal",
           "job %d dropped though the executor never refused anything", id);
  for (int i = 0; i != work; ++i) {
    Point();
  }
}

// Underlying executor which refuses chosen submissions
class RejectExec final : public yaclib::IExecutor {
 public:
  yaclib::IExecutor* inner = nullptr;
  std::vector<int> refuse;
  std::atomic<int> n{0};
  std::atomic<int> refused{0};
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return true;
  }
  void Submit(yaclib::Job& job) noexcept final {
    auto k = n.fetch_add(1, std::memory_order_relaxed);
    if (std::find(refuse.begin(), refuse.end(), k) != refuse.end()) {
      refused.fetch_add(1, std::memory_order_relaxed);
      ++RejectDepth();
      job.Drop();
      --RejectDepth();
    } else if (inner == nullptr) {
      job.Call();
    } else {
      inner->Submit(job);
    }
  }
};

using Jobs = std::vector<std::unique_ptr<TJob>>;

TJob* NewJob(Jobs& jobs, Env& env, Rng& rng, int submitter) {
  jobs.push_back(std::make_unique<TJob>());
  auto* j = jobs.back().get();
  j->id = static_cast<int>(jobs.size()) - 1;
  j->env = &env;
  j->submitter = submitter;
  j->work = rng.In(0, 2);
  return j;
}

void CheckFinished(const Jobs& jobs, bool may_drop, const char* props) {
  for (auto& j : jobs) {
    if (j->sub_begin == 0) {  // a child whose parent was dropped
      VH_CHECK(j->calls == 0 && j->drops == 0, props, "phantom-job", "job %d finished though never submitted", j->id);
      continue;
    }
    VH_CHECK(j->calls + j->drops == 1, props, j->calls + j->drops == 0 ? "job-lost" : "job-finished-twice",
             "job %d: %d calls, %d drops", j->id, j->calls, j->drops);
    VH_CHECK(j->drops == 0 || may_drop, props, "drop-without-refusal", "job %d dropped, nothing was stopped", j->id);
  }
}

// jobs submitted one after another (in real time) start in this order
void CheckOrder(const std::vector<TJob*>& order, const char* props, const char* key) {
  // suffix minimum: an element later in `order` must not have ended its submission before an earlier one began it
  u64 min_end = ~0ull;
  const TJob* min_job = nullptr;
  for (auto it = order.rbegin(); it != order.rend(); ++it) {
    auto* j = *it;
    if (min_job != nullptr && min_end < j->sub_begin) {
      Fail(props, key, "job %d (submission finished at %llu) runs after job %d (submission began at %llu)", min_job->id,
           (unsigned long long)min_end, j->id, (unsigned long long)j->sub_begin);
    }
    if (j->sub_end != 0 && j->sub_end < min_end) {
      min_end = j->sub_end;
      min_job = j;
    }
  }
}

// ---------------------------------------------------------------------------------------------------------------- strand
void StrandCase(Case& c) {
  auto& rng = c.rng;
  Env env;
  const int under = rng.In(0, 4);  // 0,1 pool; 2 inline; 3 reject over pool; 4 reject over inline
  const int workers = rng.In(1, 3);
  const int strands = rng.In(1, 3);
  const int submitters = rng.In(1, 3);
  const int per = kFiber ? rng.In(1, 5) : rng.In(20, 60);
  const int stop = (under <= 1 || under == 3) ? rng.In(0, 4) : 0;  // 0,1: none, 2 Stop, 3 SoftStop, 4 HardStop mid-way
  const bool plain_jobs = rng.Chance(1, 2) && under <= 1;
  Scenario("strand: under=%d workers=%d strands=%d submitters=%d x %d stop=%d plain=%d", under, workers, strands, submitters,
           per, stop, plain_jobs);
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  if (under <= 1 || under == 3) {
    pool = yaclib::MakeFairThreadPool(static_cast<u64>(workers));
  }
  RejectExec reject;
  yaclib::IExecutor* base = nullptr;
  if (under <= 1) {
    base = pool.Get();
  } else if (under == 2) {
    base = &yaclib::MakeInline();
  } else {
    reject.inner = pool.Get();
    auto k = rng.In(0, 6);
    const bool forever = rng.Chance(1, 2);
    for (int i = k; i < (forever ? 1000 : k + rng.In(1, 2)); ++i) {
      reject.refuse.push_back(i);
    }
    ScenarioAdd(" reject_from=%d%s", k, forever ? "+" : "");
    base = &reject;
  }
  env.strands.resize(static_cast<std::size_t>(strands));
  for (int i = 0; i != strands; ++i) {
    auto& s = env.strands[static_cast<std::size_t>(i)];
    yaclib::IExecutor* on = base;
    int over = -1;
    if (i > 0 && rng.Chance(1, 3)) {
      over = static_cast<int>(rng.Below(static_cast<u64>(i)));
      on = env.strands[static_cast<std::size_t>(over)].exec.Get();
      ScenarioAdd(" strand%d-over-%d", i, over);
    }
    s.exec = yaclib::MakeStrand(on);
    VH_CHECK(s.exec->Tag() == yaclib::IExecutor::Type::Strand, "C07", "tag", "Strand Tag");
  }
  Jobs jobs;
  std::vector<std::vector<TJob*>> lists(static_cast<std::size_t>(submitters));
  for (int t = 0; t != submitters; ++t) {
    for (int i = 0; i != per; ++i) {
      auto* j = NewJob(jobs, env, rng, t);
      if (plain_jobs && rng.Chance(1, 4)) {
        j->target = base;
      } else {
        j->strand = static_cast<int>(rng.Below(static_cast<u64>(strands)));
        j->target = env.strands[static_cast<std::size_t>(j->strand)].exec;
      }
      if (rng.Chance(1, 4)) {
        auto* ch = NewJob(jobs, env, rng, 100);
        ch->strand = rng.Chance(1, 2) && j->strand >= 0 ? j->strand : static_cast<int>(rng.Below(static_cast<u64>(strands)));
        ch->target = env.strands[static_cast<std::size_t>(ch->strand)].exec;
        j->children.push_back(ch);
      }
      lists[static_cast<std::size_t>(t)].push_back(j);
    }
  }
  StartLine line{submitters + (stop >= 2 ? 1 : 0)};
  std::vector<Thread> threads;
  for (int t = 0; t != submitters; ++t) {
    threads.emplace_back([&, t] {
      line.Arrive();
      for (auto* j : lists[static_cast<std::size_t>(t)]) {
        DoSubmit(*j);
        j->sub_end = Now();
        Point();
      }
    });
  }
  const int delay = rng.Pick({0, 3, 8, 20, 60}) * (kFiber ? 1 : 15);
  const bool handles_first = rng.Chance(1, 3);
  if (stop >= 2) {
    threads.emplace_back([&] {
      line.Arrive();
      for (int i = 0; i != delay; ++i) {
        Point();
      }
      env.stop_begun.store(true, std::memory_order_relaxed);
      if (stop == 2) {
        pool->Stop();
      } else if (stop == 3) {
        pool->SoftStop();
      } else {
        pool->HardStop();
      }
    });
  }
  for (auto& t : threads) {
    t.join();
  }
  if (handles_first) {  // pending jobs keep the strand alive; env.strands[].exec may be the only other owner
    for (auto& s : env.strands) {
      s.exec = nullptr;
    }
  }
  if (pool != nullptr) {
    if (stop < 2) {
      // SoftStop stops when no job is queued or running: nothing may be dropped
      pool->SoftStop();
    }
    pool->Wait();
  }
  const bool may_drop = stop >= 2 || reject.refused.load() != 0;
  CheckFinished(jobs, may_drop, "C07,C05");
  int dropped = 0;
  for (auto& j : jobs) {
    dropped += j->drops;
    if (j->drops != 0 && under >= 3 && stop < 2) {
      VH_CHECK(j->reject_depth > 0, "C07,C05", "drop-outside-refusal", "job %d dropped outside a refused submission", j->id);
    }
  }
  for (auto& s : env.strands) {
    VH_CHECK(s.inside == 0, "C07", "strand-overlap", "strand counter %d", s.inside);
    CheckOrder(s.order, "C07", "strand-order");
    u64 p = 0;
    for (auto* j : s.order) {
      p = Mix(p + static_cast<u64>(j->id));
      c.Note(static_cast<u64>(j->id));
    }
    VH_CHECK(p == s.payload, "C07,C04", "strand-visibility", "writes of a strand job were not visible to the next one");
  }
  for (auto& s : env.strands) {
    s.exec = nullptr;
  }
  if (dropped != 0) {
    Count("cases_with_drops");
  }
  if (env.max_running > 1) {
    Count("cases_with_parallel_jobs");
  }
  c.nontrivial = jobs.size() > 1;
}

// ------------------------------------------------------------------------------------------------------------------ pool
void PoolCase(Case& c) {
  auto& rng = c.rng;
  Env env;
  const int workers = rng.In(1, 3);
  const int submitters = rng.In(1, 3);
  const int per = kFiber ? rng.In(1, 4) : rng.In(5, 40);
  const int kind = rng.In(0, 2);      // Stop, SoftStop, HardStop
  const int second = rng.In(-3, 2);   // second stop call by the main thread
  const bool wait_early = rng.Chance(1, 3);
  const bool poll = rng.Chance(1, 2);
  const bool stop_in_job = rng.Chance(1, 6);
  const bool after_wait = rng.Chance(1, 2);
  static const char* const kK[] = {"Stop", "SoftStop", "HardStop"};
  Scenario("pool: workers=%d submitters=%d x %d %s%s second=%d wait_early=%d poll=%d", workers, submitters, per, kK[kind],
           stop_in_job ? "(from a job)" : "", second, wait_early, poll);
  env.single_worker = workers == 1;
  auto pool = yaclib::MakeFairThreadPool(static_cast<u64>(workers));
  VH_CHECK(pool->Tag() == yaclib::IExecutor::Type::FairThreadPool && pool->Alive(), "C08", "alive", "fresh pool not alive");
  Jobs jobs;
  std::vector<std::vector<TJob*>> lists(static_cast<std::size_t>(submitters));
  for (int t = 0; t != submitters; ++t) {
    for (int i = 0; i != per; ++i) {
      auto* j = NewJob(jobs, env, rng, t);
      j->target = pool.Get();
      if (rng.Chance(1, 4)) {
        auto* ch = NewJob(jobs, env, rng, 100);
        ch->target = pool.Get();
        j->children.push_back(ch);
        if (rng.Chance(1, 2)) {
          auto* ch2 = NewJob(jobs, env, rng, 100);
          ch2->target = pool.Get();
          ch->children.push_back(ch2);
        }
      }
      lists[static_cast<std::size_t>(t)].push_back(j);
    }
  }
  struct StopOp {
    int kind = -1;
    u64 begin = 0, end = 0;
  };
  StopOp ops[2];
  auto do_stop = [&](StopOp& op, int k) {
    op.kind = k;
    env.stop_begun.store(true, std::memory_order_relaxed);
    op.begin = Now();
    if (k == 0) {
      pool->Stop();
    } else if (k == 1) {
      pool->SoftStop();
    } else {
      pool->HardStop();
    }
    op.end = Now();
  };
  struct StopJob final : yaclib::Job {
    std::function<void()> f;
    bool ran = false;
    void Call() noexcept final {
      f();
      ran = true;
    }
    void Drop() noexcept final {
      ran = true;
    }
  } stop_job;
  StartLine line{submitters + 1 + (poll ? 1 : 0)};
  std::vector<Thread> threads;
  for (int t = 0; t != submitters; ++t) {
    threads.emplace_back([&, t] {
      line.Arrive();
      for (auto* j : lists[static_cast<std::size_t>(t)]) {
        DoSubmit(*j);
        j->sub_end = Now();
        Point();
      }
    });
  }
  u64 dead_seen = 0;       // stamp when Alive() was seen false
  std::vector<u64> alive_begin;
  if (poll) {
    threads.emplace_back([&] {
      line.Arrive();
      for (int i = 0; i != 4; ++i) {
        auto b = Now();
        bool alive = pool->Alive();
        auto e = Now();
        if (alive) {
          VH_CHECK(dead_seen == 0, "C08", "alive-again", "a stopped pool became alive again");
          alive_begin.push_back(b);
        } else if (dead_seen == 0) {
          dead_seen = e;
          VH_CHECK(env.stop_begun.load(std::memory_order_relaxed), "C08", "dead-early", "pool not alive before any stop");
        }
        Point();
      }
    });
  }
  const int delay = rng.Pick({0, 4, 12, 30, 80}) * (kFiber ? 1 : 15);
  threads.emplace_back([&] {
    line.Arrive();
    for (int i = 0; i != delay; ++i) {
      Point();
    }
    if (stop_in_job) {
      stop_job.f = [&] {
        do_stop(ops[0], kind);
      };
      pool->Submit(stop_job);
    } else {
      do_stop(ops[0], kind);
    }
  });
  auto wait = [&] {
    pool->Wait();
    VH_CHECK(env.running.load(std::memory_order_relaxed) == 0, "C08", "running-after-wait", "%d jobs running after Wait",
             env.running.load());
    env.wait_done.store(true, std::memory_order_relaxed);
  };
  if (wait_early) {
    wait();
  }
  for (auto& t : threads) {
    t.join();
  }
  if (second >= 0) {
    do_stop(ops[1], second);
  }
  if (!wait_early) {
    wait();
  }
  if (stop_in_job) {
    VH_CHECK(stop_job.ran, "C08", "job-lost", "the job that stops the pool never ran");
  }
  VH_CHECK(!pool->Alive(), "C08", "alive-after-wait", "Alive() after Wait returned");
  if (after_wait) {
    auto* j = NewJob(jobs, env, rng, 101);
    j->target = pool.Get();
    DoSubmit(*j);
    j->sub_end = Now();
    VH_CHECK(j->drops == 1, "C08", "accepted-after-stop", "job accepted after the pool was stopped and joined");
  }
  CheckFinished(jobs, true, "C08,C05");
  // hard: some HardStop; full: some Stop or HardStop
  u64 any_begin = ~0ull, hard_begin = ~0ull, full_end = ~0ull, full_begin = ~0ull, soft_begin = ~0ull;
  for (auto& op : ops) {
    if (op.kind < 0) {
      continue;
    }
    any_begin = std::min(any_begin, op.begin);
    if (op.kind == 2) {
      hard_begin = std::min(hard_begin, op.begin);
    }
    if (op.kind != 1) {
      full_end = std::min(full_end, op.end);
      full_begin = std::min(full_begin, op.begin);
    } else {
      soft_begin = std::min(soft_begin, op.begin);
    }
  }
  // the union of "certainly queued or running" intervals, to judge SoftStop
  std::vector<std::pair<u64, u64>> busy;
  int dropped = 0;
  for (auto& j : jobs) {
    if (j->sub_begin == 0) {
      continue;
    }
    if (j->calls != 0) {
      VH_CHECK(j->sub_begin < full_end, "C08", "accepted-after-stop", "job %d submitted after Stop returned was executed", j->id);
      busy.emplace_back(j->sub_end != 0 ? std::min(j->sub_end, j->run_begin) : j->run_begin, j->run_end);
    } else {
      ++dropped;
      VH_CHECK(j->sub_end == 0 || j->sub_end > any_begin || hard_begin != ~0ull, "C08", "accepted-dropped",
               "job %d was accepted before the stop but dropped", j->id);
      VH_CHECK(j->drop_at > any_begin, "C08", "drop-before-stop", "job %d dropped before any stop", j->id);
    }
  }
  std::sort(busy.begin(), busy.end());
  auto idle_between = [&](u64 from, u64 to) {  // was there possibly an instant with no job queued or running?
    u64 cur = from;
    for (auto& [b, e] : busy) {
      if (b > cur) {
        break;
      }
      cur = std::max(cur, e);
      if (cur >= to) {
        return false;
      }
    }
    return true;
  };
  auto soft_only_stop_possible = [&](u64 at, const char* what) {
    // at `at` the pool was stopped; if only SoftStop was called before, the pool must have been idle in between
    if (full_begin < at || soft_begin >= at) {
      return;
    }
    VH_CHECK(idle_between(soft_begin, at), "C08", "softstop-too-early", "%s though since SoftStop a job was always queued or running",
             what);
  };
  for (auto& j : jobs) {
    if (j->drops != 0) {
      soft_only_stop_possible(j->drop_at, "a job was refused");
    }
  }
  if (dead_seen != 0) {
    soft_only_stop_possible(dead_seen, "the pool was not Alive");
  }
  for (auto b : alive_begin) {
    VH_CHECK(b < full_end, "C08", "alive-after-stop", "Alive() true after Stop returned");
  }
  // Stop (not Hard): everything accepted before runs. HardStop: everything it did not remove runs -> covered above
  for (auto& j : jobs) {
    if (j->drops != 0 && hard_begin == ~0ull) {
      VH_CHECK(j->sub_end == 0 || j->drop_at < j->sub_end, "C08", "accepted-dropped", "job %d dropped after its submission returned",
               j->id);
    }
  }
  VH_CHECK(env.max_running.load() <= workers, "C08", "too-many-running", "%d jobs at once on %d workers", env.max_running.load(),
           workers);
  if (workers == 1) {
    CheckOrder(env.start_order, "C08", "pool-order");
    for (auto* j : env.start_order) {
      c.Note(static_cast<u64>(j->id));
    }
  }
  if (dropped != 0) {
    Count("cases_with_drops");
  }
  if (env.max_running > 1) {
    Count("cases_with_parallel_jobs");
  }
  c.nontrivial = jobs.size() > 1;
}

// ------------------------------------------------------------------------------------------- inline, manual, Submit(func)
void MiscCase(Case& c) {
  auto& rng = c.rng;
  Env env;
  const int kind = rng.In(0, 4);
  const int n = rng.In(1, 8);
  Scenario("misc: kind=%d n=%d", kind, n);
  Jobs jobs;
  if (kind == 0 || kind == 1) {  // inline alive / stopped
    auto& e = kind == 0 ? yaclib::MakeInline() : yaclib::MakeInline(yaclib::StopTag{});
    VH_CHECK(e.Alive() == (kind == 0), "C05", "inline-alive", "Inline Alive");
    VH_CHECK(e.Tag() == yaclib::IExecutor::Type::Inline, "C05", "inline-tag", "Inline Tag");
    env.stop_begun = kind == 1;
    for (int i = 0; i != n; ++i) {
      auto* j = NewJob(jobs, env, rng, 0);
      j->target = &e;
      DoSubmit(*j);
      VH_CHECK(j->calls == (kind == 0) && j->drops == (kind == 1), "C05", "inline-not-at-once", "Inline: %d calls %d drops",
               j->calls, j->drops);
    }
    int ran = 0;
    yaclib::Submit(e, [&ran, t = FnToken{}] {
      t.Touch();
      ++ran;
    });
    VH_CHECK(ran == (kind == 0), "C05", "submit-func", "Submit(func) ran %d times", ran);
  } else if (kind == 2) {  // manual
    auto e = yaclib::MakeManual();
    auto& m = static_cast<yaclib::ManualExecutor&>(*e);
    VH_CHECK(e->Alive() && e->Tag() == yaclib::IExecutor::Type::Manual, "C05", "manual-alive", "Manual Alive/Tag");
    std::vector<TJob*> submitted;
    env.single_worker = true;
    for (int i = 0; i != n; ++i) {
      auto* j = NewJob(jobs, env, rng, 0);
      j->target = e.Get();
      if (rng.Chance(1, 3)) {
        auto* ch = NewJob(jobs, env, rng, 1);
        ch->target = e.Get();
        j->children.push_back(ch);
      }
      DoSubmit(*j);
      j->sub_end = Now();
      VH_CHECK(j->calls == 0 && j->drops == 0, "C05", "manual-ran-early", "Manual ran a job inside Submit");
      if (rng.Chance(1, 4)) {
        std::size_t pending = 0;
        for (auto& x : jobs) {
          pending += x->calls == 0 ? 1 : 0;
        }
        auto done = m.Drain();
        VH_CHECK(done == pending, "C05", "drain-count", "Drain returned %zu, %zu jobs were run", done, pending);
      }
    }
    (void)m.Drain();
    VH_CHECK(m.Drain() == 0, "C05", "drain-again", "Drain of an empty executor ran something");
    CheckOrder(env.start_order, "C05", "manual-order");
  } else if (kind == 4) {  // Submit(func) to a strand
    const int over = rng.In(0, 2);
    yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
    yaclib::IExecutor* base = over == 0 ? &yaclib::MakeInline() : &yaclib::MakeInline(yaclib::StopTag{});
    if (over == 2) {
      pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 3)));
      base = pool.Get();
    }
    ScenarioAdd(" strand over %d", over);
    std::vector<int> order;
    int inside = 0;
    {
      auto strand = yaclib::MakeStrand(base);
      VH_CHECK(strand->Alive() == (over != 1), "C05", "strand-alive", "Strand Alive");
      for (int i = 0; i != n; ++i) {
        yaclib::Submit(*strand, [&order, &inside, i, t = FnToken{}] {
          t.Touch();
          VH_CHECK(++inside == 1, "C07,C05", "strand-overlap", "func %d overlaps", i);
          order.push_back(i);
          Point();
          --inside;
        });
      }
      if (rng.Chance(1, 2)) {
        strand = nullptr;
      }
    }
    if (pool) {
      pool->SoftStop();
      pool->Wait();
    }
    VH_CHECK(order.size() == (over == 1 ? 0u : static_cast<std::size_t>(n)), "C05,C07", "submit-func", "%zu of %d functions ran",
             order.size(), n);
    for (std::size_t i = 0; i != order.size(); ++i) {
      VH_CHECK(order[i] == static_cast<int>(i), "C07,C05", "strand-order", "func %d ran at position %zu", order[i], i);
    }
  } else {  // Submit(func) to a pool, some after Stop
    auto pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 2)));
    std::vector<std::unique_ptr<std::atomic<int>>> ran;
    auto stop_at = rng.In(0, n);
    for (int i = 0; i != n; ++i) {
      ran.push_back(std::make_unique<std::atomic<int>>(0));
      auto* r = ran.back().get();
      if (i == stop_at) {
        pool->Stop();
      }
      yaclib::Submit(*pool, [r, t = FnToken{}] {
        t.Touch();
        r->fetch_add(1, std::memory_order_relaxed);
      });
    }
    pool->Stop();
    pool->Wait();
    for (int i = 0; i != n; ++i) {
      VH_CHECK(*ran[static_cast<std::size_t>(i)] == (i < stop_at ? 1 : 0), "C05,C08", "submit-func", "func %d ran %d times", i,
               ran[static_cast<std::size_t>(i)]->load());
    }
  }
  CheckFinished(jobs, kind == 1, "C05");
  CheckLedgers("C05,C03");
  c.Note(static_cast<u64>(kind * 100 + n));
}

void Run(Case& c) {
  if (gOpt.mode == "strand") {
    StrandCase(c);
  } else if (gOpt.mode == "pool") {
    PoolCase(c);
  } else {
    MiscCase(c);
  }
  CheckLedgers("C03");
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Run);
}
