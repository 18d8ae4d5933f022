// Reproducibility of FIBER runs (C17): whole traces of the same (program, seed, configuration) are compared between runs
// in one process, runs in other processes and runs restored from a recorded (random count, injector state) pair.
// Only the native scheduling and injection of the library is used here.
#include "vh.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/guard.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <yaclib_std/atomic>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace vh;

// ---- the client's allocator -------------------------------------------------------------------------------------------
// Where the heap puts an object, and whether a freed address comes back at once, is an input of the program and not a
// decision of the scheduler: a CAS on a pointer succeeds over a recycled address (ABA) and fails over another one. So that
// only the library can make two runs differ, no address is recycled inside of one run; apart from that placement is random:
// neighbouring allocations come in any order, so that code which depends on the order of addresses is seen.
namespace arena {

constexpr std::size_t kChunk = 1 << 17;
struct Chunk {
  char* base;
  std::size_t used;
  std::size_t live;
  u64 run;
};
constexpr std::size_t kMaxChunks = 4096;
constexpr std::size_t kActive = 12;
char* gBase = nullptr;
Chunk gChunks[kMaxChunks];
std::size_t gCount = 0;
std::size_t gActive[kActive];
u64 gRun = 0;
u64 gState = 88172645463325252ull;

u64 Next() {
  gState ^= gState << 13;
  gState ^= gState >> 7;
  gState ^= gState << 17;
  return gState;
}

std::size_t Fresh() {
  // a few tries for an empty chunk that this run has not touched
  for (int i = 0; i != 8 && gCount != 0; ++i) {
    auto k = Next() % gCount;
    auto& c = gChunks[k];
    if (c.live == 0 && c.run != gRun) {
      c.used = 0;
      c.run = gRun;
      return k;
    }
  }
  if (gCount == kMaxChunks) {
    for (std::size_t k = 0; k != gCount; ++k) {
      auto& c = gChunks[k];
      if (c.live == 0 && c.run != gRun) {
        c.used = 0;
        c.run = gRun;
        return k;
      }
    }
    std::abort();
  }
  gChunks[gCount] = {gBase + gCount * kChunk, 0, 0, gRun};
  return gCount++;
}

// starts a run
void Begin() {
  if (gBase == nullptr) {
    auto* p = ::mmap(nullptr, kMaxChunks * kChunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      std::abort();
    }
    gBase = static_cast<char*>(p);
  }
  ++gRun;
  for (auto& a : gActive) {
    a = Fresh();
  }
}

bool gOn = false;

void* Alloc(std::size_t n) {
  if (!gOn || n > kChunk / 4) {
    return std::malloc(n);
  }
  n = (n + 15) & ~std::size_t{15};
  n += (Next() & 3) * 16;
  auto& slot = gActive[Next() % kActive];
  if (gChunks[slot].used + n > kChunk) {
    slot = Fresh();
  }
  auto& c = gChunks[slot];
  auto* p = c.base + c.used;
  c.used += n;
  ++c.live;
  return p;
}

void Free(void* p) {
  auto* q = static_cast<char*>(p);
  if (gBase != nullptr && q >= gBase && q < gBase + kMaxChunks * kChunk) {
    --gChunks[static_cast<std::size_t>(q - gBase) / kChunk].live;
    return;
  }
  std::free(p);
}

}  // namespace arena

#if !defined(__SANITIZE_ADDRESS__)
void* operator new(std::size_t n) {
  auto* p = arena::Alloc(n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return arena::Alloc(n);
}
void operator delete(void* p) noexcept {
  arena::Free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  arena::Free(p);
}
#endif

namespace {

using ns = std::chrono::nanoseconds;
using Clock = yaclib_std::chrono::steady_clock;

// ---- traces ---------------------------------------------------------------------------------------------------------
enum Tag : unsigned {
  kResume,
  kMutex,
  kTry,
  kTimed,
  kShared,
  kCv,
  kNotify,
  kSleep,
  kYielded,
  kWeak,
  kAtomic,
  kRandom,
  kInject,
  kSub,
  kTls,
  kJob,
  kStrand,
  kRun,
  kWaitFor,
  kContract,
  kAll,
  kAny,
  kCoro,
  kSharedF,
  kGroup,
  kNow,
  kTask,
  kEnd,
};
const char* const kTagName[] = {"resume",  "mutex",   "try_lock", "timed",   "shared", "cv",       "notify",   "sleep", "yield",
                                "weak",    "atomic",  "random",   "inject",  "thread", "tls",      "job",      "strand", "run",
                                "waitfor", "contract", "whenall",  "whenany", "coro",   "sharedfut", "waitgroup", "now",    "task",
                                "end"};

struct Event {
  unsigned tag;
  unsigned fiber;
  u64 value;
  u64 time;
  u64 random;
  u64 state;
  u64 injected;
  bool operator==(const Event& o) const {
    return tag == o.tag && fiber == o.fiber && value == o.value && time == o.time && random == o.random &&
           state == o.state && injected == o.injected;
  }
};

struct Trace {
  std::vector<Event> ev;
  std::vector<u64> ids;
  u64 time0 = 0;
  u64 random0 = 0;
  u64 injected0 = 0;
  u64 resumes = 0;


  unsigned Fiber(u64 id) {
    for (unsigned i = static_cast<unsigned>(ids.size()); i != 0; --i) {
      if (ids[i - 1] == id) {
        return i - 1;
      }
    }
    ids.push_back(id);
    return static_cast<unsigned>(ids.size() - 1);
  }
  void Begin() {
    *this = Trace{};
    ev.reserve(256);
    time0 = yaclib::fault::Scheduler::GetScheduler()->GetTimeNs();
    random0 = yaclib::fiber::GetFaultRandomCount();
    injected0 = yaclib::GetInjectedCount();
  }
  void Add(unsigned tag, u64 id, u64 value) {
    if (ev.size() > 3000000) {
      Fail("*", "no-progress", "a reproducibility program does not finish");
    }
    ev.push_back(Event{tag, Fiber(id), value, yaclib::fault::Scheduler::GetScheduler()->GetTimeNs() - time0,
                       yaclib::fiber::GetFaultRandomCount() - random0, yaclib::fiber::GetInjectorState(),
                       yaclib::GetInjectedCount() - injected0});
  }
  u64 Hash() const {
    u64 h = 0x7157;
    for (auto& e : ev) {
      h = Mix(h ^ e.tag);
      h = Mix(h ^ e.fiber);
      h = Mix(h ^ e.value);
      h = Mix(h ^ e.time);
      h = Mix(h ^ e.random);
      h = Mix(h ^ e.state);
      h = Mix(h ^ e.injected);
    }
    return h;
  }
};

Trace* gTrace = nullptr;
u64 gWeakFails = 0;

void OnResume(u64 id) noexcept {
  if (gTrace != nullptr) {
    gTrace->resumes++;
    gTrace->Add(kResume, id, 0);
  }
}

void Rec(Tag tag, u64 value) {
  if (gTrace != nullptr) {
    gTrace->Add(tag, yaclib::fault::Scheduler::GetId(), value);
  }
}

std::string Describe(const Trace& t, std::size_t i) {
  if (i >= t.ev.size()) {
    return "(end of trace)";
  }
  auto& e = t.ev[i];
  char buf[256];
  std::snprintf(buf, sizeof(buf), "%s fiber %u value %llu time %llu random %llu injector %llu injected %llu", kTagName[e.tag],
                e.fiber, (unsigned long long)e.value, (unsigned long long)e.time, (unsigned long long)e.random,
                (unsigned long long)e.state, (unsigned long long)e.injected);
  return buf;
}

void Same(const Trace& a, const Trace& b, const char* key, const char* what) {
  auto n = std::min(a.ev.size(), b.ev.size());
  std::size_t i = 0;
  while (i != n && a.ev[i] == b.ev[i]) {
    ++i;
  }
  if (i == n && a.ev.size() == b.ev.size()) {
    return;
  }
  Fail("C17", key, "%s: traces diverge at event %zu of %zu/%zu: [%s] against [%s]", what, i, a.ev.size(), b.ev.size(),
       Describe(a, i).c_str(), Describe(b, i).c_str());
}

// ---- programs -------------------------------------------------------------------------------------------------------
struct Config {
  std::uint32_t seed, freq, sleep, tick, fail, pick;
  void Apply() const {
    yaclib::SetFaultFrequency(freq);
    yaclib::SetFaultSleepTime(sleep);
    yaclib::fiber::SetFaultTickLength(tick);
    yaclib::SetAtomicFailFrequency(fail);
    yaclib::fiber::SetFaultRandomListPick(pick);
  }
};

Config DrawConfig(Rng& r) {
  Config c;
  c.seed = static_cast<std::uint32_t>(r.Next());
  c.freq = r.Pick({1u, 2u, 3u, 5u, 8u, 16u, 40u});
  c.sleep = r.Pick({1u, 20u, 100u, 500u});
  c.tick = r.Pick({1u, 10u, 10u, 50u});
  c.fail = r.Pick({0u, 1u, 2u, 4u, 13u, 13u});
  if (c.fail == 1) {
    c.fail = 3;  // 1 fails always
  }
  c.pick = r.Pick({1u, 2u, 3u, 10u, 10u});
  return c;
}

YACLIB_THREAD_LOCAL_PTR(u64) tSlot;

struct World {
  yaclib_std::mutex m[2];
  u64 counter[2] = {0, 0};
  yaclib_std::timed_mutex tm;
  yaclib_std::recursive_mutex rm;
  yaclib_std::shared_mutex sm;
  u64 guarded = 0;
  yaclib_std::condition_variable cv[2];
  yaclib_std::atomic<u64> a[2] = {};
  yaclib_std::random::random_device rd;
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  yaclib::IExecutorPtr strand;
  yaclib::Mutex<> cm;
  yaclib::SharedMutex<> csm;
  u64 cm_counter = 0;
  u64 order = 0;
};

void SmallSteps(World& w, Rng& r, unsigned n) {
  for (unsigned i = 0; i != n; ++i) {
    switch (r.Below(4)) {
      case 0:
        yaclib::InjectFault();
        break;
      case 1:
        yaclib_std::this_thread::yield();
        break;
      case 2:
        w.a[0].fetch_add(1);
        break;
      default:
        yaclib_std::this_thread::sleep_for(ns{static_cast<std::int64_t>(r.Below(200))});
    }
  }
}

yaclib::Future<u64> CoroProgram(World& w, Rng r, u64 id) {
  u64 got = id;
  co_await yaclib::On(*w.pool);
  auto n = r.In(1, 4);
  for (int i = 0; i != n; ++i) {
    switch (r.Below(6)) {
      case 0: {
        auto g = co_await w.cm.Guard();
        auto was = w.cm_counter++;
        Rec(kCoro, was);
        yaclib::InjectFault();
        break;
      }
      case 1:
        co_await yaclib::kYield;
        Rec(kCoro, 1000);
        break;
      case 2: {
        auto f = yaclib::Run(*w.pool, [&w] {
          return w.a[1].fetch_add(1);
        });
        got = co_await std::move(f);
        Rec(kCoro, 2000 + got);
        break;
      }
      case 3: {
        auto g = co_await w.csm.GuardShared();
        Rec(kCoro, 3000 + w.order);
        yaclib::InjectFault();
        break;
      }
      case 4: {
        auto g = co_await w.csm.Guard();
        Rec(kCoro, 4000 + w.order++);
        break;
      }
      default: {
        auto f = yaclib::Run(*w.strand, [&w] {
          return w.order++;
        });
        co_await Await(f);
        Rec(kCoro, 5000 + std::as_const(f).Touch().Ok());
        break;
      }
    }
  }
  co_return got;
}

void Op(World& w, Rng& r, std::vector<yaclib::Future<u64>>& stash, int depth) {
  switch (r.Below(28)) {
    case 0:
    case 1: {
      auto k = r.Below(2);
      std::lock_guard g{w.m[k]};
      auto v = w.counter[k]++;
      SmallSteps(w, r, static_cast<unsigned>(r.Below(3)));
      Rec(kMutex, v);
      break;
    }
    case 2: {
      auto k = r.Below(2);
      bool ok = w.m[k].try_lock();
      Rec(kTry, ok);
      if (ok) {
        SmallSteps(w, r, 1);
        w.m[k].unlock();
      }
      break;
    }
    case 3: {
      bool ok = r.Chance(1, 2) ? w.tm.try_lock_for(ns{static_cast<std::int64_t>(r.Below(300))})
                               : w.tm.try_lock_until(Clock::now() + ns{static_cast<std::int64_t>(r.Below(300))});
      Rec(kTimed, ok);
      if (ok) {
        SmallSteps(w, r, static_cast<unsigned>(r.Below(4)));
        w.tm.unlock();
      }
      break;
    }
    case 4: {
      if (r.Chance(1, 2)) {
        std::shared_lock g{w.sm};
        Rec(kShared, w.guarded);
        SmallSteps(w, r, 1);
      } else {
        std::lock_guard g{w.sm};
        SmallSteps(w, r, 1);
        Rec(kShared, 1000 + w.guarded++);
      }
      break;
    }
    case 5: {
      std::lock_guard g1{w.rm};
      std::lock_guard g2{w.rm};
      SmallSteps(w, r, 1);
      Rec(kMutex, 7000);
      break;
    }
    case 6:
    case 7: {
      auto k = r.Below(2);
      std::unique_lock lock{w.m[k]};
      auto st = w.cv[k].wait_for(lock, ns{static_cast<std::int64_t>(r.Below(400))});
      Rec(kCv, st == std::cv_status::timeout);
      break;
    }
    case 8: {
      auto k = r.Below(2);
      if (r.Chance(1, 2)) {
        w.cv[k].notify_one();
      } else {
        w.cv[k].notify_all();
      }
      Rec(kNotify, k);
      break;
    }
    case 9:
      yaclib_std::this_thread::sleep_for(ns{static_cast<std::int64_t>(r.Below(500))});
      Rec(kSleep, 0);
      break;
    case 10:
      yaclib_std::this_thread::yield();
      Rec(kYielded, 0);
      break;
    case 11: {
      auto& a = w.a[r.Below(2)];
      auto v = a.load();
      u64 fails = 0;
      while (!a.compare_exchange_weak(v, v + 3)) {
        ++fails;
      }
      gWeakFails += fails;
      Rec(kWeak, fails * 1000 + v);
      break;
    }
    case 12:
      Rec(kAtomic, r.Chance(1, 2) ? w.a[0].exchange(r.Below(50)) : w.a[1].fetch_add(2));
      break;
    case 13:
      if (r.Chance(1, 3)) {
        yaclib_std::random::random_device rd;
        Rec(kRandom, rd());
      } else {
        if (r.Chance(1, 6)) {
          w.rd.reset();
        }
        Rec(kRandom, w.rd());
      }
      break;
    case 14:
      for (auto n = r.Below(20); n != 0; --n) {
        yaclib::InjectFault();
      }
      Rec(kInject, 0);
      break;
    case 15: {
      if (depth > 1) {
        break;
      }
      Rng sub{r.Next()};
      yaclib_std::thread t{[&w, sub, depth]() mutable {
        std::vector<yaclib::Future<u64>> own;
        auto n = sub.In(1, 3);
        for (int i = 0; i != n; ++i) {
          Op(w, sub, own, depth + 1);
        }
        for (auto& f : own) {
          Rec(kSub, std::move(f).Get().Ok());
        }
      }};
      SmallSteps(w, r, static_cast<unsigned>(r.Below(3)));
      t.join();
      Rec(kSub, 0);
      break;
    }
    case 16: {
      u64* p = tSlot.Get();
      Rec(kTls, p == nullptr ? 0 : *p);
      if (p == nullptr) {
        // owned by the world through the stack of this function: cleared before return
        u64 mine = r.Below(100);
        tSlot = &mine;
        SmallSteps(w, r, 2);
        u64* now = tSlot.Get();
        Rec(kTls, now == nullptr ? ~0ull : *now);
        tSlot = nullptr;
      }
      break;
    }
    case 17: {
      auto id = r.Below(1000);
      yaclib::Submit(*w.pool, [&w, id] {
        Rec(kJob, id + 1000 * w.a[0].fetch_add(1));
      });
      break;
    }
    case 18: {
      auto id = r.Below(1000);
      yaclib::Submit(*w.strand, [&w, id] {
        yaclib::InjectFault();
        Rec(kStrand, id + 1000 * w.order++);
      });
      break;
    }
    case 19: {
      auto f = yaclib::Run(*w.pool, [&w] {
                 return w.a[1].fetch_add(1);
               })
                 .Then([&w](u64 x) {
                   yaclib::InjectFault();
                   return x * 2 + w.a[0].load();
                 })
                 .ThenInline([](u64 x) {
                   return x + 1;
                 });
      Rec(kRun, std::move(f).Get().Ok());
      break;
    }
    case 20: {
      auto d = r.Below(200);
      auto f = yaclib::Run(*w.pool, [&w, d] {
        yaclib_std::this_thread::sleep_for(ns{static_cast<std::int64_t>(d)});
        return w.a[1].fetch_add(1);
      });
      auto ok = r.Chance(1, 2) ? yaclib::WaitFor(ns{static_cast<std::int64_t>(r.Below(300))}, f)
                               : yaclib::WaitUntil(Clock::now() + ns{static_cast<std::int64_t>(r.Below(300))}, f);
      Rec(kWaitFor, ok);
      stash.push_back(std::move(f).On(nullptr));
      break;
    }
    case 21: {
      auto [f, p] = yaclib::MakeContract<u64>();
      auto d = r.Below(300);
      yaclib_std::thread t{[p = std::move(p), d]() mutable {
        yaclib_std::this_thread::sleep_for(ns{static_cast<std::int64_t>(d)});
        std::move(p).Set(d);
      }};
      auto ok = yaclib::WaitFor(ns{static_cast<std::int64_t>(r.Below(300))}, f);
      Rec(kContract, ok);
      if (r.Chance(1, 2)) {
        Rec(kContract, std::move(f).Get().Ok());
        t.join();
      } else {
        t.join();
        Rec(kContract, std::move(f).Get().Ok());
      }
      break;
    }
    case 22: {
      std::vector<yaclib::FutureOn<u64>> fs;
      auto n = r.In(1, 4);
      for (int i = 0; i != n; ++i) {
        fs.push_back(yaclib::Run(*w.pool, [&w] {
          return w.a[0].fetch_add(1);
        }));
      }
      auto all = yaclib::WhenAll(fs.begin(), fs.size());
      auto res = std::move(all).Get().Ok();
      for (auto x : res) {
        Rec(kAll, x);
      }
      break;
    }
    case 23: {
      std::vector<yaclib::FutureOn<u64>> fs;
      auto n = r.In(2, 4);
      for (int i = 0; i != n; ++i) {
        auto d = r.Below(100);
        fs.push_back(yaclib::Run(*w.pool, [i, d] {
          yaclib_std::this_thread::sleep_for(ns{static_cast<std::int64_t>(d)});
          return static_cast<u64>(i);
        }));
      }
      auto any = yaclib::WhenAny(fs.begin(), fs.size());
      Rec(kAny, std::move(any).Get().Ok());
      break;
    }
    case 24:
    case 25: {
      auto f = CoroProgram(w, Rng{r.Next()}, r.Below(100));
      if (r.Chance(1, 2)) {
        stash.push_back(std::move(f));
      } else {
        Rec(kCoro, std::move(f).Get().Ok());
      }
      break;
    }
    case 26: {
      auto [f, p] = yaclib::MakeSharedContract<u64>();
      auto n = r.In(1, 3);
      std::vector<yaclib::FutureOn<u64>> subs;
      for (int i = 0; i != n; ++i) {
        subs.push_back(f.Then(*w.pool, [i](const u64& x) {
          Rec(kSharedF, static_cast<u64>(i));
          return x + static_cast<u64>(i);
        }));
      }
      auto d = r.Below(200);
      yaclib::Submit(*w.strand, [p = std::move(p), d]() mutable {
        std::move(p).Set(d);
      });
      Rec(kSharedF, f.Get().Ok());
      for (auto& s : subs) {
        Rec(kSharedF, std::move(s).Get().Ok());
      }
      break;
    }
    default: {
      if (r.Chance(1, 2)) {
        yaclib::WaitGroup<> wg{1};
        auto n = r.In(1, 3);
        for (int i = 0; i != n; ++i) {
          wg.Add();
          yaclib::Submit(*w.pool, [&w, &wg] {
            w.a[1].fetch_add(1);
            wg.Done();
          });
        }
        wg.Done();
        wg.Wait();
        Rec(kGroup, w.a[1].load());
      } else {
        auto t = yaclib::Schedule(*w.pool, [&w] {
                   return w.a[0].fetch_add(5);
                 }).Then([](u64 x) {
          return x + 1;
        });
        Rec(kTask, std::move(t).Get().Ok());
        Rec(kNow, gTrace == nullptr ? 0 : static_cast<u64>(Clock::now().time_since_epoch().count()) - gTrace->time0);
      }
    }
  }
}

// must run in a fiber; everything it started is finished at the end
void RunProgram(u64 pseed) {
  Rng r{pseed};
  auto w = std::make_unique<World>();
  w->pool = yaclib::MakeFairThreadPool(static_cast<u64>(r.In(1, 3)));
  w->strand = yaclib::MakeStrand(w->pool);
  auto workers = r.In(1, 4);
  std::vector<yaclib_std::thread> ts;
  for (int i = 0; i != workers; ++i) {
    ts.emplace_back([&w = *w, r = Rng{r.Next()}]() mutable {
      std::vector<yaclib::Future<u64>> stash;
      auto n = r.In(2, 8);
      for (int k = 0; k != n; ++k) {
        Op(w, r, stash, 0);
      }
      for (auto& f : stash) {
        Rec(kEnd, std::move(f).Get().Ok());
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  if (r.Chance(1, 2)) {
    w->pool->SoftStop();
  } else {
    w->pool->Stop();
  }
  w->pool->Wait();
  // Jobs dropped or run by the pool do not touch the world after Wait; the last result may still be on its way out of the
  // pool thread, which is joined by Wait
  Rec(kEnd, w->a[0].load() + 1000 * w->a[1].load() + 1000000 * w->order);
  w->strand = nullptr;
  w->pool = nullptr;
}

template <typename F>
void InScheduler(F&& f) {
  arena::Begin();
  yaclib::fault::Scheduler scheduler;
  yaclib::fault::Scheduler::Set(&scheduler);
  yaclib::verif::gHooks = {};
  yaclib::verif::gHooks.resume = &OnResume;
  bool done = false;
  arena::gOn = true;
  yaclib_std::thread root{[&] {
    f();
    done = true;
  }};
  arena::gOn = false;
  VH_CHECK(done, "*", "deadlock", "nothing is runnable but the client has not finished: lost wake-up or deadlock");
  root.join();
  yaclib::verif::gHooks = {};
}

void Reseed(const Config& c) {
  c.Apply();
  yaclib::SetSeed(c.seed);
  yaclib::fiber::SetInjectorState(0);
}

struct Pair {
  u64 random = 0;
  std::uint32_t state = 0;
};

Pair Record() {
  return {yaclib::fiber::GetFaultRandomCount(), yaclib::fiber::GetInjectorState()};
}

void Restore(const Config& c, const Pair& p) {
  c.Apply();
  yaclib::SetSeed(c.seed);
  yaclib::fiber::ForwardToFaultRandomCount(p.random);
  yaclib::fiber::SetInjectorState(p.state);
  VH_CHECK(yaclib::fiber::GetFaultRandomCount() == p.random && yaclib::fiber::GetInjectorState() == p.state, "C17",
           "restore-state", "restored random count %llu and injector state %u, got %llu and %u", (unsigned long long)p.random,
           p.state, (unsigned long long)yaclib::fiber::GetFaultRandomCount(), yaclib::fiber::GetInjectorState());
}

// a run in its own scheduler, starting from the current random/injector state
void RunOwn(Trace& t, u64 pseed) {
  InScheduler([&] {
    t.Begin();
    gTrace = &t;
    RunProgram(pseed);
    gTrace = nullptr;
  });
}

// ---- perturbation of what must not matter -----------------------------------------------------------------------------
std::vector<std::pair<char*, std::size_t>> gJunk;

void Perturb(Rng& r) {
  for (auto n = r.Below(24); n != 0; --n) {
    auto size = r.Pick({16u, 40u, 64u, 100u, 300u, 1000u, 5000u});
    auto* p = static_cast<char*>(std::malloc(size));
    std::memset(p, static_cast<int>(r.Below(256)), size);
    gJunk.emplace_back(p, size);
  }
  while (gJunk.size() > 64 || (!gJunk.empty() && r.Chance(1, 2))) {
    auto k = r.Below(gJunk.size());
    std::free(gJunk[k].first);
    gJunk[k] = gJunk.back();
    gJunk.pop_back();
  }
}

struct Params {
  Config c;
  u64 p1, p2;
  Rng rest;
  explicit Params(u64 index) {
    Rng r{Mix(gOpt.seed * 0x100000001b3ull ^ Mix(index))};
    c = DrawConfig(r);
    p1 = r.Next();
    p2 = r.Next();
    rest = Rng{r.Next()};
  }
};

// ---- the other process ----------------------------------------------------------------------------------------------
struct Pending {
  u64 index;
  u64 hash_full;  // of phase 1 from the seed
  Pair pair;      // recorded between the phases
  u64 hash_cont;  // of phase 2
};
std::vector<Pending> gPending;

int Child(int argc, char** argv) {
  gOpt.seed = std::stoull(argv[2]);
  Rng r{std::stoull(argv[3])};
  (void)argc;
  yaclib::fiber::SetStackSize(96);
  yaclib::fiber::SetStackCacheSize(static_cast<std::uint32_t>(r.Below(100)));
  yaclib::fiber::SetHardwareConcurrency(4);
  YACLIB_INIT_DEBUG(&OnInternalAssert);
  u64 index, random;
  unsigned state;
  std::vector<Pending> q;
  while (std::scanf("%llu %llu %u", (unsigned long long*)&index, (unsigned long long*)&random, &state) == 3) {
    q.push_back({index, 0, {random, state}, 0});
  }
  if (r.Chance(1, 2)) {
    std::reverse(q.begin(), q.end());
  }
  for (auto& x : q) {
    Perturb(r);
    Params p{x.index};
    Trace full, cont;
    bool cont_first = r.Chance(1, 2);
    for (int i = 0; i != 2; ++i) {
      if ((i == 0) == cont_first) {
        Restore(p.c, x.pair);
        RunOwn(cont, p.p2);
      } else {
        Reseed(p.c);
        RunOwn(full, p.p1);
      }
    }
    std::printf("R %llu %llu %llu\n", (unsigned long long)x.index, (unsigned long long)full.Hash(),
                (unsigned long long)cont.Hash());
  }
  std::fflush(stdout);
  ::_exit(0);
}

void Flush() {
  if (gPending.empty()) {
    return;
  }
  std::fflush(stdout);
  int in[2], out[2];
  if (::pipe(in) != 0 || ::pipe(out) != 0) {
    HarnessError("pipe");
  }
  Rng r{Mix(gPending.front().index ^ gOpt.seed)};
  auto seed = std::to_string(gOpt.seed);
  auto noise = std::to_string(r.Next());
  auto junk = "VH_JUNK=" + std::string(r.Below(6000), 'x');
  auto pid = ::fork();
  if (pid < 0) {
    HarnessError("fork");
  }
  if (pid == 0) {
    ::dup2(in[0], 0);
    ::dup2(out[1], 1);
    for (int fd : {in[0], in[1], out[0], out[1]}) {
      ::close(fd);
    }
    std::vector<char*> env;
    for (auto** e = environ; *e != nullptr; ++e) {
      env.push_back(*e);
    }
    env.push_back(junk.data());
    std::string perturb = "MALLOC_PERTURB_=165";
    env.push_back(perturb.data());
    env.push_back(nullptr);
    std::string me = "child";
    char* args[] = {me.data(), me.data(), seed.data(), noise.data(), nullptr};
    ::execve("/proc/self/exe", args, env.data());
    ::_exit(126);
  }
  ::close(in[0]);
  ::close(out[1]);
  std::string text;
  for (auto& p : gPending) {
    text += std::to_string(p.index) + " " + std::to_string(p.pair.random) + " " + std::to_string(p.pair.state) + "\n";
  }
  if (::write(in[1], text.data(), text.size()) != static_cast<ssize_t>(text.size())) {
    HarnessError("write to the child");
  }
  ::close(in[1]);
  std::string got;
  char buf[4096];
  for (ssize_t n; (n = ::read(out[0], buf, sizeof(buf))) > 0;) {
    got.append(buf, static_cast<std::size_t>(n));
  }
  ::close(out[0]);
  int st = 0;
  ::waitpid(pid, &st, 0);
  std::map<u64, std::pair<u64, u64>> res;
  for (std::size_t pos = 0; pos < got.size();) {
    auto end = got.find('\n', pos);
    if (end == std::string::npos) {
      end = got.size();
    }
    unsigned long long i, a, b;
    if (std::sscanf(got.substr(pos, end - pos).c_str(), "R %llu %llu %llu", &i, &a, &b) == 3) {
      res[i] = {a, b};
    }
    pos = end + 1;
  }
  for (auto& p : gPending) {
    auto it = res.find(p.index);
    gProgress->index.store(p.index);
    if (it == res.end()) {
      std::fwrite(got.data(), 1, got.size(), stdout);
      if (got.find("@VIOLATION") != std::string::npos || got.find("@FOREIGN") != std::string::npos) {
        std::fflush(stdout);
        WriteStats();
        ::_exit(got.find("@VIOLATION") != std::string::npos ? kExitViolation : kExitForeign);
      }
      if (WIFSIGNALED(st)) {
        Fail("C17", "cross-process-crash", "another process running the same programs ended by signal %d", WTERMSIG(st));
      }
      HarnessError("no answer from the child process");
    }
    VH_CHECK(it->second.first == p.hash_full, "C17", "cross-process",
             "the same program, seed and configuration gave another trace in a new process (case %llu)",
             (unsigned long long)p.index);
    VH_CHECK(it->second.second == p.hash_cont, "C17", "cross-process-restore",
             "a run restored from (random count %llu, injector state %u) in a new process differs from the original (case %llu)",
             (unsigned long long)p.pair.random, p.pair.state, (unsigned long long)p.index);
    Count("cross_process_comparisons", 2);
  }
  gPending.clear();
}

void Body(Case& c) {
  Params p{c.index};
  auto& r = p.rest;
  Scenario("seed %u freq %u sleep %u tick %u casfail %u pick %u program %llx/%llx", p.c.seed, p.c.freq, p.c.sleep, p.c.tick,
           p.c.fail, p.c.pick, (unsigned long long)p.p1, (unsigned long long)p.p2);

  // the original: phase 1, the recorded pair, phase 2 in a new scheduler
  Trace a1, a2;
  Reseed(p.c);
  RunOwn(a1, p.p1);
  auto pair = Record();
  RunOwn(a2, p.p2);

  // in between: other memory, other random state, another program under another configuration, another injector state
  Perturb(r);
  if (r.Chance(1, 2)) {
    auto other = DrawConfig(r);
    other.Apply();
    if (r.Chance(1, 2)) {
      yaclib::SetSeed(other.seed);
    }
    Trace junk;
    RunOwn(junk, r.Next());
    Count("interposed_programs");
  }
  if (r.Chance(1, 3)) {
    yaclib::fiber::ForwardToFaultRandomCount(yaclib::fiber::GetFaultRandomCount() + r.Below(50));
    yaclib::fiber::SetInjectorState(static_cast<std::uint32_t>(r.Below(20)));
  }

  {
    Trace b1, b2;
    Reseed(p.c);
    RunOwn(b1, p.p1);
    Same(a1, b1, "rerun", "second run in the same process after re-seeding");
    auto again = Record();
    VH_CHECK(again.random == pair.random && again.state == pair.state, "C17", "rerun-pair",
             "recorded (random count, injector state) is (%llu, %u) after the first run and (%llu, %u) after the second",
             (unsigned long long)pair.random, pair.state, (unsigned long long)again.random, again.state);
    Perturb(r);
    RunOwn(b2, p.p2);
    Same(a2, b2, "rerun", "second phase of the second run in the same process");
  }
  {
    Perturb(r);
    Trace b2;
    Restore(p.c, pair);
    RunOwn(b2, p.p2);
    Same(a2, b2, "restore", "run restored from the recorded random count and injector state");
  }
  if (r.Chance(1, 2)) {
    // both phases in one scheduler, the pair is recorded and restored inside of a running fiber
    Trace a, b;
    Pair mid;
    Reseed(p.c);
    InScheduler([&] {
      RunProgram(p.p1);
      mid = Record();
      a.Begin();
      gTrace = &a;
      RunProgram(p.p2);
      gTrace = nullptr;
    });
    Perturb(r);
    auto times = r.In(1, 2);
    InScheduler([&] {
      for (int i = 0; i != times; ++i) {
        arena::Begin();
        Restore(p.c, mid);
        b.Begin();
        gTrace = &b;
        RunProgram(p.p2);
        gTrace = nullptr;
      }
    });
    Same(a, b, "restore-inside", "run restored inside of a fiber");
    Count("restored_inside_fiber");
  }
  if (r.Chance(1, 4)) {
    // the trace depends on the seed: shows that the comparison above has something to compare
    auto d = p.c;
    d.seed ^= 0x55aa;
    Trace e;
    Reseed(d);
    RunOwn(e, p.p1);
    Count(e.Hash() == a1.Hash() ? "other_seed_same_trace" : "other_seed_other_trace");
  }
  gPending.push_back({c.index, a1.Hash(), pair, a2.Hash()});
  if (gPending.size() >= 48 || c.index + 1 == gOpt.to) {
    Flush();
  }
  c.Note(a1.Hash());
  c.Note(a2.Hash());
  c.nontrivial = a1.resumes > 4;
  Count("trace_events", a1.ev.size() + a2.ev.size());
  Count("fiber_switches", a1.resumes + a2.resumes);
  Count("random_draws", pair.random);
  Count("weak_cas_failures", std::exchange(gWeakFails, 0));
  if (!a1.ev.empty()) {
    Count("injected_yields", a1.ev.back().injected);
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (argc == 4 && std::strcmp(argv[1], "child") == 0) {
    return Child(argc, argv);
  }
  gNoRootFiber = true;
  return Main(argc, argv, &Body);
}
