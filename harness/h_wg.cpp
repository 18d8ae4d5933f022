// WaitGroup and OneShotEvent: blocking, timed and coroutine waiters racing with Add/Done/futures/Set (C16; also C03, C04).
#include "through.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <yaclib_std/chrono>

#include <deque>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::Task;

namespace {

using R = Result<Val, Err>;
using U = Future<Val, Err>;
using UO = FutureOn<Val, Err>;
using Clock = yaclib_std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;

constexpr u64 kSide = 0x51DE;
constexpr const char* kP = "C16";

std::int64_t ClockNow() {
  return std::chrono::duration_cast<ns>(Clock::now().time_since_epoch()).count();
}

struct Live {
  FnToken t;
};

// One asynchronous result
struct Src {
  int id = 0;
  Out out;
  std::atomic<bool> begun{false};
  u64 side = 0;
  std::int64_t delay = 0;
  bool on = false;
  bool then = false;
  Promise<Val, Err> p;

  void Fulfil() {
    side = kSide;
    begun.store(true, std::memory_order_relaxed);
    switch (out.st) {
      case St::V:
        std::move(p).Set(std::in_place, out.id);
        break;
      case St::E:
        if (out.id == kStopId) {
          auto dropped = std::move(p);
          break;
        }
        std::move(p).Set(Err{out.id});
        break;
      default:
        std::move(p).Set(BoomPtr(out.id));
    }
  }
  void Seen(const char* how) {
    VH_CHECK(begun.load(std::memory_order_relaxed), kP, "early", "%s: future %d complete before it was fulfilled", how, id);
    VH_CHECK(side == kSide, "C16,C04", "side-effect-invisible", "%s: writes before fulfilment of %d not visible", how, id);
  }
  void Same(const R& r, const char* how) {
    Seen(how);
    auto o = MakeOut(r);
    VH_CHECK(o == out, kP, "wrong-result", "%s of %d gave %s, it was fulfilled with %s", how, id, o.Str().c_str(),
             out.Str().c_str());
  }
};

constexpr int kExecs = 3;

// ---- monitors shared by both scenarios ----------------------------------------------------------------------------------
struct Execs {
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool = yaclib::MakeFairThreadPool(2);
  TrackExec ex[kExecs];
  Execs() {
    ex[0].Init(0, pool.Get());
    ex[1].Init(1, pool.Get());
    ex[2].Init(2, nullptr);  // runs jobs inside Submit
  }
  int Find(const yaclib::IExecutor& e) const {
    for (auto& x : ex) {
      if (static_cast<const yaclib::IExecutor*>(&x) == &e) {
        return x.Id();
      }
    }
    return -1;
  }
  void Finish() {
    pool->Stop();
    pool->Wait();
    for (auto& e : ex) {
      VH_CHECK(e.refs.load() == 0, "C03,C16", "executor-leak", "executor referenced %d times at quiescence", e.refs.load());
    }
  }
};

std::int64_t DrawDelay(Rng& rng) {
  return rng.Chance(1, 2) ? 0 : kFiber ? rng.In(1, 120) * rng.Pick({1, 1, 5}) : rng.In(1, 200) * 1000;
}
std::int64_t DrawTimeout(Rng& rng) {
  auto d = kFiber ? std::int64_t{rng.In(-20, 200)} * rng.Pick({1, 1, 5}) : std::int64_t{rng.In(-20, 300)} * 1000;
  return rng.Chance(1, 8) ? 0 : d;
}
void Sleep(std::int64_t d) {
  if (d != 0) {
    yaclib_std::this_thread::sleep_for(ns{d});
  }
}

// ===== WaitGroup =========================================================================================================
struct World {
  yaclib::WaitGroup<>* wg = nullptr;
  Execs execs;
  // number of outstanding operations, an operation stops to be outstanding before its Done/fulfilment starts
  std::atomic<int> outstanding{0};
  // the same, but it stops to be unfinished after its Done/fulfilment returned
  std::atomic<int> unfinished{0};
  std::atomic<std::int64_t> zero_clock{-1};  // the count surely was zero at that time
  std::atomic<int> releases{0};
  std::atomic<int> expected_releases{0};
  std::atomic<int> suspended_releases{0};
  std::atomic<int> late{0}, timed_true{0}, timed_false{0};
  std::atomic<int> users{0};
  bool destroy = false;
  u64 side[8] = {};  // side[i] is written by doer i before its last Done
  int doers = 0;

  void Took(int n) {
    outstanding.fetch_add(n, std::memory_order_relaxed);
    unfinished.fetch_add(n, std::memory_order_relaxed);
  }
  void Begin(int n) {
    outstanding.fetch_sub(n, std::memory_order_relaxed);
  }
  void End(int n) {
    if (unfinished.fetch_sub(n, std::memory_order_relaxed) == n) {
      zero_clock.store(ClockNow(), std::memory_order_relaxed);
    }
  }
  void Released(const char* how) {
    auto n = outstanding.load(std::memory_order_relaxed);
    VH_CHECK(n == 0, kP, "released-early", "%s was released while %d operations are not done", how, n);
    for (int i = 0; i != doers; ++i) {
      VH_CHECK(side[i] == kSide, "C16,C04", "side-effect-invisible", "%s: writes of doer %d before Done are not visible", how, i);
    }
    releases.fetch_add(1, std::memory_order_relaxed);
  }
  void Leave() {
    if (users.fetch_sub(1, std::memory_order_acq_rel) == 1 && destroy) {
      delete wg;
      wg = nullptr;
    }
  }
};

bool TimedOnce(World& w, Rng& rng) {
  auto d = DrawTimeout(rng);
  auto before = w.unfinished.load(std::memory_order_relaxed) == 0;
  auto deadline = Clock::now() + ns{d};
  bool r = rng.Chance(1, 2) ? w.wg->WaitUntil(deadline) : w.wg->WaitFor(ns{d});
  if (r) {
    w.timed_true.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  w.timed_false.fetch_add(1, std::memory_order_relaxed);
  VH_CHECK(!before, kP, "late-waiter-not-released", "a timed wait started after the count reached zero returned false");
  auto z = w.zero_clock.load(std::memory_order_relaxed);
  auto dl = std::chrono::duration_cast<ns>(deadline.time_since_epoch()).count();
  VH_CHECK(z < 0 || z >= dl, kP, "timed-missed", "a timed wait returned false although the count was zero %lld ns before its deadline",
           (long long)(dl - z));
  return false;
}

void Block(World& w, Rng& rng) {
  if (w.unfinished.load(std::memory_order_relaxed) == 0) {
    w.late.fetch_add(1, std::memory_order_relaxed);
  }
  if (rng.Chance(1, 2)) {
    w.wg->Wait();
    w.Released("Wait");
  } else {
    int n = 0;
    while (!TimedOnce(w, rng)) {
      if (++n == 4) {
        w.wg->Wait();
        break;
      }
      Point();
    }
    w.Released("WaitFor/WaitUntil");
  }
}

// Coroutine waiter; resumed counts how often the step after the wait ran
template <typename Coro>
Coro CoroWaiter(World& w, u64 seed, int start, std::atomic<int>& resumed, Live live) {
  Rng rng{seed};
  FnToken local;
  if (start >= 0) {
    co_await yaclib::On(w.execs.ex[start]);
    VH_CHECK(CurrentExec() == start, "C16,C13", "wrong-place", "On(%d) resumed on %d", start, CurrentExec());
  }
  for (int i = rng.In(0, 3); i != 0; --i) {
    Point();
  }
  const bool before = w.unfinished.load(std::memory_order_relaxed) == 0;
  const int form = start >= 0 ? rng.In(0, 3) : rng.Pick({0, 1, 3});
  const char* how = "";
  switch (form) {
    case 0:
      how = "AwaitInline";
      co_await w.wg->AwaitInline();
      break;
    case 1:
      how = "co_await";
      co_await *w.wg;
      break;
    case 2: {
      how = "AwaitSticky";
      co_await w.wg->AwaitSticky();
      VH_CHECK(CurrentExec() == start, "C16,C13", "wrong-place", "AwaitSticky of a coroutine of executor %d resumed on %d",
               start, CurrentExec());
      break;
    }
    default: {
      how = "AwaitOn";
      auto to = rng.In(0, kExecs - 1);
      co_await w.wg->AwaitOn(w.execs.ex[to]);
      VH_CHECK(CurrentExec() == to, "C16,C13", "wrong-place", "AwaitOn(%d) resumed on %d", to, CurrentExec());
      auto& e = co_await yaclib::CurrentExecutor();
      VH_CHECK(w.execs.Find(e) == to, "C16,C13", "wrong-place", "executor after AwaitOn(%d) is %d", to, w.execs.Find(e));
    }
  }
  w.Released(how);
  if (!before) {
    w.suspended_releases.fetch_add(1, std::memory_order_relaxed);
  } else {
    w.late.fetch_add(1, std::memory_order_relaxed);
  }
  auto n = resumed.fetch_add(1, std::memory_order_relaxed) + 1;
  VH_CHECK(n == 1, kP, "released-twice", "%s: coroutine released %d times", how, n);
  live.t.Touch();
  local.Touch();
  if (form != 2 && form != 3 && start >= 0 && rng.Chance(1, 2)) {
    co_await yaclib::On(w.execs.ex[start]);
  }
  w.Leave();
  co_return {};
}

// Owner of a part of the count
struct Doer {
  World& w;
  int no;
  Rng rng;
  int held = 0;
  bool wait_after = false;
  std::vector<Src*> todo;  // futures of this doer which are not inserted yet
  std::deque<U> u;         // not inserted
  std::deque<UO> uo;
  std::deque<U> au;  // attached
  std::deque<UO> auo;
  std::deque<Src*> u_src, uo_src, au_src, auo_src;
  int fulfilled_by_me = 0;

  void Wg(int delta) {
    w.wg->Add(static_cast<std::size_t>(delta));
  }
  void DoneN(int n) {
    if (n == held) {
      w.side[no] = kSide;
    }
    held -= n;
    w.Begin(n);
    if (n == 1 && rng.Chance(1, 2)) {
      w.wg->Done();
    } else {
      w.wg->Done(static_cast<std::size_t>(n));
    }
    w.End(n);
  }
  void Peek() {
    for (std::size_t i = 0; i != au.size(); ++i) {
      VH_CHECK(au[i].Valid(), kP, "attached-invalid", "attached future %d is not Valid", au_src[i]->id);
      if (au[i].Ready()) {
        au_src[i]->Same(std::as_const(au[i]).Touch(), "attached Ready");
      }
    }
    for (std::size_t i = 0; i != auo.size(); ++i) {
      VH_CHECK(auo[i].Valid(), kP, "attached-invalid", "attached future %d is not Valid", auo_src[i]->id);
      if (auo[i].Ready()) {
        auo_src[i]->Same(std::as_const(auo[i]).Touch(), "attached Ready");
      }
    }
  }
  void TakeU(std::size_t n, bool attach) {
    for (; n != 0; --n) {
      if (attach) {
        au.push_back(std::move(u.front()));
        au_src.push_back(u_src.front());
      }
      u.pop_front();
      u_src.pop_front();
    }
  }
  void TakeO(std::size_t n, bool attach) {
    for (; n != 0; --n) {
      if (attach) {
        auo.push_back(std::move(uo.front()));
        auo_src.push_back(uo_src.front());
      }
      uo.pop_front();
      uo_src.pop_front();
    }
  }
  // the count of each inserted future is Took by the insertion and given back by its fulfilment
  template <bool Add>
  void Insert(bool attach) {
    auto& wg = *w.wg;
    const auto n = u.size(), m = uo.size();
    switch (rng.Below(9)) {
      case 0:
        if (n >= 1) {
          attach ? wg.Attach<Add>(u[0]) : wg.Consume<Add>(std::move(u[0]));
          return TakeU(1, attach);
        }
        break;
      case 1:
        if (m >= 1) {
          attach ? wg.Attach<Add>(uo[0]) : wg.Consume<Add>(std::move(uo[0]));
          return TakeO(1, attach);
        }
        break;
      case 2:
        if (n >= 1 && m >= 1) {
          attach ? wg.Attach<Add>(u[0], uo[0]) : wg.Consume<Add>(std::move(u[0]), std::move(uo[0]));
          TakeU(1, attach);
          return TakeO(1, attach);
        }
        break;
      case 3:
        if (n >= 2) {
          attach ? wg.Attach<Add>(u[0], u[1]) : wg.Consume<Add>(std::move(u[0]), std::move(u[1]));
          return TakeU(2, attach);
        }
        break;
      case 4:
        if (n >= 3) {
          attach ? wg.Attach<Add>(u[0], u[1], u[2]) : wg.Consume<Add>(std::move(u[0]), std::move(u[1]), std::move(u[2]));
          return TakeU(3, attach);
        }
        break;
      case 5:
        if (n >= 1) {
          auto k = 1 + rng.Below(n);
          auto e = u.begin() + static_cast<long>(k);
          attach ? wg.Attach<Add>(u.begin(), e) : wg.Consume<Add>(u.begin(), e);
          return TakeU(k, attach);
        }
        break;
      case 6:
        if (n >= 1) {
          auto k = 1 + rng.Below(n);
          attach ? wg.Attach<Add>(u.begin(), k) : wg.Consume<Add>(u.begin(), k);
          return TakeU(k, attach);
        }
        break;
      case 7:
        if (m >= 1) {
          auto k = 1 + rng.Below(m);
          auto e = uo.begin() + static_cast<long>(k);
          attach ? wg.Attach<Add>(uo.begin(), e) : wg.Consume<Add>(uo.begin(), e);
          return TakeO(k, attach);
        }
        break;
      default:
        if (m >= 1) {
          auto k = 1 + rng.Below(m);
          attach ? wg.Attach<Add>(uo.begin(), k) : wg.Consume<Add>(uo.begin(), k);
          return TakeO(k, attach);
        }
    }
    // nothing of that shape
    if (n != 0) {
      attach ? wg.Attach<Add>(u[0]) : wg.Consume<Add>(std::move(u[0]));
      TakeU(1, attach);
    } else {
      attach ? wg.Attach<Add>(uo[0]) : wg.Consume<Add>(std::move(uo[0]));
      TakeO(1, attach);
    }
  }
  void InsertSome() {
    const bool attach = rng.Chance(1, 2);
    if (rng.Chance(2, 3)) {
      Insert<true>(attach);
    } else {
      // the explicit Add for everything this doer could insert now, what was not used is returned
      const auto all = static_cast<int>(u.size() + uo.size());
      w.Took(all);
      Wg(all);
      held += all;
      Point();
      const auto before = u.size() + uo.size();
      Insert<false>(attach);
      const auto used = static_cast<int>(before - (u.size() + uo.size()));
      // those counts now belong to the inserted futures, which are accounted separately
      held -= used;
      w.Begin(used);
      w.End(used);
    }
  }

  void Run() {
    int budget = rng.In(1, 5);
    while (budget-- > 0) {
      Point();
      Peek();
      switch (rng.Below(6)) {
        case 0: {
          auto k = rng.In(1, 3);
          w.Took(k);
          k == 1 && rng.Chance(1, 2) ? w.wg->Add() : Wg(k);
          held += k;
          break;
        }
        case 1:
          if (held > 1) {
            DoneN(rng.In(1, held - 1));
          }
          break;
        case 2:
          Sleep(DrawDelay(rng));
          break;
        case 3: {
          switch (rng.Below(8)) {  // an empty range changes nothing
            case 0:
              w.wg->Attach(u.begin(), u.begin());
              break;
            case 1:
              w.wg->Consume(uo.begin(), std::size_t{0});
              break;
            case 2:
              w.wg->Attach<false>(uo.begin(), std::size_t{0});
              break;
            case 3:
              w.wg->Consume<false>(u.begin(), u.begin());
              break;
            default:
              break;
          }
          auto n = w.wg->Count();
          VH_CHECK(n >= static_cast<std::size_t>(held) && n < 1000, kP, "wrong-count", "Count() is %zu while I hold %d", n, held);
          break;
        }
        default:
          if (u.size() + uo.size() != 0) {
            InsertSome();
          }
      }
    }
    while (u.size() + uo.size() != 0) {
      InsertSome();
      Peek();
    }
    while (held > 0) {
      DoneN(rng.In(1, held));
      Point();
    }
    if (wait_after) {
      Block(w, rng);
      for (auto& f : au) {
        VH_CHECK(f.Valid() && f.Ready(), kP, "attached-not-ready", "attached future is not Ready after the wait");
      }
      for (auto& f : auo) {
        VH_CHECK(f.Valid() && f.Ready(), kP, "attached-not-ready", "attached future is not Ready after the wait");
      }
      Peek();
      w.Leave();
    }
  }
  // after everything
  void Consume() {
    for (std::size_t i = 0; i != au.size(); ++i) {
      auto* x = au_src[i];
      VH_CHECK(au[i].Ready(), kP, "attached-not-ready", "attached future %d is not Ready at the end", x->id);
      switch (rng.Below(4)) {
        case 0:
          x->Same(std::move(au[i]).Get(), "Get of attached");
          break;
        case 1: {
          int n = 0;
          auto g = std::move(au[i]).ThenInline([&n, x, t = FnToken{}](R&& r) {
            t.Touch();
            x->Same(r, "Then of attached");
            ++n;
          });
          std::ignore = std::move(g).Get();
          VH_CHECK(n == 1, kP, "continuation-lost", "continuation of attached future %d ran %d times", x->id, n);
          break;
        }
        case 2:
          x->Same(std::move(au[i]).Touch(), "Touch of attached");
          break;
        default:;
      }
    }
    for (std::size_t i = 0; i != auo.size(); ++i) {
      auto* x = auo_src[i];
      VH_CHECK(auo[i].Ready(), kP, "attached-not-ready", "attached future %d is not Ready at the end", x->id);
      if (rng.Chance(1, 2)) {
        x->Same(std::move(auo[i]).Get(), "Get of attached");
      } else if (rng.Chance(1, 2)) {
        auto g = std::move(auo[i]).Then([x, t = FnToken{}](R&& r) {
          t.Touch();
          x->Same(r, "Then of attached");
        });
        std::ignore = std::move(g).Get();
      }
    }
    au.clear();
    auo.clear();
  }
};

void Round(Case& c, World& w, int initial, bool destroy) {
  auto& rng = c.rng;
  w.outstanding.store(0);
  w.unfinished.store(0);
  w.zero_clock.store(-1);
  w.releases.store(0);
  w.destroy = destroy;
  w.doers = rng.In(1, std::min(3, initial));
  const int n = rng.In(0, 5);
  const int producers = rng.In(1, 2);
  const int blockers = rng.In(0, 2);
  const int coros = rng.In(0, 3);
  ScenarioAdd(" | initial=%d doers=%d futures=%d producers=%d blockers=%d coros=%d%s", initial, w.doers, n, producers, blockers,
              coros, destroy ? " destroy" : "");
  std::deque<Src> src(static_cast<std::size_t>(n));
  std::deque<Doer> doers;
  w.Took(initial);
  for (int i = 0; i != w.doers; ++i) {
    w.side[i] = 0;
    doers.push_back(Doer{w, i, Rng{rng.Next()}});
    doers.back().held = 1;
  }
  doers[0].held += initial - w.doers;
  std::vector<std::vector<Src*>> prod(static_cast<std::size_t>(producers));
  for (int i = 0; i != n; ++i) {
    auto& x = src[static_cast<std::size_t>(i)];
    x.id = i;
    x.on = rng.Chance(1, 3);
    x.then = rng.Chance(1, 5);
    x.out = rng.Chance(2, 3) ? Out{St::V, static_cast<u64>(100 + i)}
                             : rng.Pick({Out{St::E, static_cast<u64>(200 + i)}, Out{St::X, static_cast<u64>(300 + i)}, Out::Stop()});
    x.delay = DrawDelay(rng);
    auto& d = doers[rng.Below(doers.size())];
    auto pass = [t = FnToken{}](R&& r) -> R {
      t.Touch();
      Point();
      return std::move(r);
    };
    // a future counts from its creation: somebody holding the count will insert it
    if (x.on) {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(w.execs.ex[rng.Below(kExecs)]);
      x.p = std::move(p);
      d.uo.push_back(x.then ? std::move(f).Then(std::move(pass)) : std::move(f));
      d.uo_src.push_back(&x);
    } else {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      x.p = std::move(p);
      if (!x.then && rng.Chance(1, 3)) {
        f = Through(std::move(f));
      }
      d.u.push_back(x.then ? std::move(f).ThenInline(std::move(pass)) : std::move(f));
      d.u_src.push_back(&x);
    }
    w.Took(1);
    if (rng.Chance(1, 8)) {
      w.Begin(1);
      x.Fulfil();
      // a continuation on the pool may still run, then the future is not complete yet
      if (!(x.then && x.on)) {
        w.End(1);
      } else {
        w.End(0);
      }
    } else {
      prod[rng.Below(prod.size())].push_back(&x);
    }
  }
  // with a continuation on an executor nobody knows exactly when the future completed
  bool exact = true;
  for (auto& x : src) {
    exact = exact && !(x.then && x.on);
  }
  std::deque<std::atomic<int>> resumed(static_cast<std::size_t>(coros));
  int users = blockers + coros;
  for (auto& d : doers) {
    d.wait_after = rng.Chance(1, 2) || (users == 0 && &d == &doers.back());
    users += d.wait_after;
  }
  w.users.store(users);
  std::vector<u64> seeds;
  std::vector<int> starts;
  std::vector<std::int64_t> delays;
  for (int i = 0; i != coros + blockers; ++i) {
    seeds.push_back(rng.Next());
    starts.push_back(rng.In(-1, kExecs - 1));
    delays.push_back(rng.Chance(1, 2) ? 0 : DrawDelay(rng));
  }
  if (!exact) {
    w.unfinished.fetch_add(1);  // zero_clock is never set
  }
  StartLine line{w.doers + producers + blockers + 1};
  std::vector<Thread> threads;
  for (auto& d : doers) {
    threads.emplace_back([&d, &line] {
      line.Arrive();
      d.Run();
    });
  }
  for (auto& p : prod) {
    threads.emplace_back([&p, &line, &w] {
      line.Arrive();
      for (auto* x : p) {
        Sleep(x->delay);
        Point();
        w.Begin(1);
        x->Fulfil();
        if (!(x->then && x->on)) {
          w.End(1);
        }
      }
    });
  }
  for (int b = 0; b != blockers; ++b) {
    threads.emplace_back([&, b] {
      Rng r{seeds[static_cast<std::size_t>(coros + b)]};
      line.Arrive();
      Sleep(delays[static_cast<std::size_t>(coros + b)]);
      Block(w, r);
      w.Leave();
    });
  }
  line.Arrive();
  std::vector<Future<>> futures;
  for (int i = 0; i != coros; ++i) {
    auto k = static_cast<std::size_t>(i);
    Sleep(delays[k]);
    if (seeds[k] % 3 == 0) {
      futures.push_back(CoroWaiter<Task<>>(w, seeds[k], starts[k], resumed[k], {}).ToFuture());
    } else {
      futures.push_back(CoroWaiter<Future<>>(w, seeds[k], starts[k], resumed[k], {}));
    }
    Point();
  }
  for (auto& f : futures) {
    auto r = std::move(f).Get();
    VH_CHECK(r.State() == yaclib::ResultState::Value, kP, "coroutine-failed", "a waiting coroutine did not finish normally");
  }
  for (auto& t : threads) {
    t.join();
  }
  for (auto& r : resumed) {
    VH_CHECK(r.load() == 1, kP, "not-released-once", "a waiting coroutine was released %d times", r.load());
  }
  VH_CHECK(w.releases.load() == users, kP, "not-released-once", "%d waiters, %d releases", users, w.releases.load());
  if (destroy) {
    VH_CHECK(w.users.load() == 0, kP, "waiter-lost", "%d waiters did not return", w.users.load());
  } else {
    auto k = w.wg->Count(std::memory_order_acquire);
    VH_CHECK(k == 0, kP, "wrong-count", "Count() is %zu after everything is done", k);
    // every later waiter passes
    w.wg->Wait();
    VH_CHECK(w.wg->WaitFor(ns{0}) && w.wg->WaitUntil(Clock::now()), kP, "late-waiter-not-released",
             "a timed wait after zero returned false");
    VH_CHECK(w.wg->AwaitInline().await_ready() && w.wg->AwaitSticky().await_ready(), kP, "late-waiter-not-released",
             "an awaiter is not ready after zero");
  }
  for (auto& d : doers) {
    d.Consume();
  }
  Count("waiters_released", static_cast<u64>(users));
  Count("futures_inserted", static_cast<u64>(n));
  c.nontrivial = c.nontrivial || users != 0;
}

void WaitGroupCase(Case& c) {
  auto& rng = c.rng;
  World w;
  const int rounds = rng.Pick({1, 1, 1, 2, 3});
  int initial = rng.In(1, 4);
  w.wg = new yaclib::WaitGroup<>{static_cast<std::size_t>(initial)};
  VH_CHECK(w.wg->Count() == static_cast<std::size_t>(initial), kP, "wrong-count", "Count() of a new WaitGroup is wrong");
  for (int i = 0; i != rounds; ++i) {
    const bool last = i + 1 == rounds;
    Round(c, w, initial, last && rng.Chance(2, 3));
    if (!last) {
      initial = rng.In(1, 4);
      if (rng.Chance(1, 2)) {
        w.wg->Reset(static_cast<std::size_t>(initial));
      } else {
        w.wg->Reset();
        w.wg->Add(static_cast<std::size_t>(initial));
      }
      VH_CHECK(w.wg->Count() == static_cast<std::size_t>(initial), kP, "wrong-count", "Count() after Reset is wrong");
      VH_CHECK(!w.wg->AwaitInline().await_ready(), kP, "reset-ignored", "the WaitGroup is still done after Reset");
    }
  }
  w.execs.Finish();
  delete w.wg;
  Count("coroutines_released_after_suspension", static_cast<u64>(w.suspended_releases.load()));
  Count("late_waiters", static_cast<u64>(w.late.load()));
  Count("timed_true", static_cast<u64>(w.timed_true.load()));
  Count("timed_false", static_cast<u64>(w.timed_false.load()));
  c.Note(static_cast<u64>(w.timed_true.load() * 1000 + w.timed_false.load() * 10 + w.late.load()));
}

// ===== OneShotEvent ======================================================================================================
struct EventWorld {
  struct Fire {
    u64 begin = 0;
    std::atomic<u64> end{~0ull};
    u64 payload = 0;
  };
  yaclib::OneShotEvent e;
  Execs execs;
  std::atomic<int> fires{0};  // begun
  Fire fire[8];
  std::atomic<bool> set_begun{false}, set_ended{false};
  std::atomic<std::int64_t> set_clock{-1};
  u64 side = 0;
  std::atomic<int> n_true{0}, n_false{0}, refused{0}, jobs{0};

  // a wait which started at start may end now only if a Call/Set was running after its start
  void Released(u64 start, const char* how) {
    auto n = fires.load(std::memory_order_acquire);
    bool ok = set_begun.load(std::memory_order_relaxed);
    for (int i = 0; i != n && !ok; ++i) {
      ok = fire[i].end.load(std::memory_order_relaxed) > start;
    }
    VH_CHECK(ok, kP, "released-without-set", "%s was released but no Call/Set ran since it started", how);
    if (set_ended.load(std::memory_order_relaxed)) {
      // no synchronization through the event is promised here
    }
  }
};

struct CountJob final : yaclib::Job {
  EventWorld* w = nullptr;
  u64 start = 0;
  std::atomic<int> calls{0};
  std::atomic<bool> added{false};
  FnToken t;
  void Call() noexcept final {
    t.Touch();
    w->Released(start, "TryAdd-ed job");
    auto n = calls.fetch_add(1, std::memory_order_relaxed) + 1;
    VH_CHECK(n == 1, kP, "released-twice", "a job added once was called %d times", n);
  }
  void Drop() noexcept final {
    Fail(kP, "job-dropped", "a job of an event was dropped");
  }
  // lives as long as the case
  void IncRef() noexcept final {
    Fail(kP, "job-ref", "an event retained a job");
  }
  void DecRef() noexcept final {
    Fail(kP, "job-ref", "an event released a job it does not own");
  }
};

template <typename Coro>
Coro EventCoro(EventWorld& w, u64 seed, int start, std::atomic<int>& resumed, Live live) {
  Rng rng{seed};
  FnToken local;
  if (start >= 0) {
    co_await yaclib::On(w.execs.ex[start]);
  }
  for (int k = rng.In(1, 2); k != 0; --k) {
    const auto at = Now();
    const int form = start >= 0 ? rng.In(0, 3) : rng.Pick({0, 1, 3});
    switch (form) {
      case 0:
        co_await w.e.AwaitInline();
        break;
      case 1:
        co_await w.e;
        break;
      case 2:
        co_await w.e.AwaitSticky();
        VH_CHECK(CurrentExec() == start, "C16,C13", "wrong-place", "AwaitSticky of a coroutine of executor %d resumed on %d",
                 start, CurrentExec());
        break;
      default: {
        auto to = rng.In(0, kExecs - 1);
        co_await w.e.AwaitOn(w.execs.ex[to]);
        VH_CHECK(CurrentExec() == to, "C16,C13", "wrong-place", "AwaitOn(%d) resumed on %d", to, CurrentExec());
        start = to;
      }
    }
    w.Released(at, "coroutine");
    if (form <= 1 && start >= 0) {
      co_await yaclib::On(w.execs.ex[start]);
    }
  }
  resumed.fetch_add(1, std::memory_order_relaxed);
  live.t.Touch();
  local.Touch();
  co_return {};
}

void EventCase(Case& c) {
  auto& rng = c.rng;
  EventWorld w;
  const int rounds = rng.Pick({1, 1, 2});
  Scenario("OneShotEvent rounds=%d", rounds);
  u64 released = 0;
  for (int round = 0; round != rounds; ++round) {
    w.fires.store(0);
    for (auto& f : w.fire) {
      f.begin = 0;
      f.end.store(~0ull);
    }
    w.set_begun.store(false);
    w.set_ended.store(false);
    w.set_clock.store(-1);
    w.side = 0;
    VH_CHECK(!w.e.Ready(), kP, "early", "a new event is Ready");
    const int calls = rng.In(0, 3);
    const int blockers = rng.In(0, 2);
    const int adders = rng.In(0, 2);
    const int coros = rng.In(0, 3);
    std::deque<CountJob> jobs(static_cast<std::size_t>(adders * 3));
    for (auto& j : jobs) {
      j.w = &w;
    }
    std::vector<u64> seeds;
    std::vector<std::int64_t> delays;
    std::vector<int> starts;
    for (int i = 0; i != 16; ++i) {
      seeds.push_back(rng.Next());
      delays.push_back(DrawDelay(rng));
      starts.push_back(rng.In(-1, kExecs - 1));
    }
    ScenarioAdd(" | calls=%d blockers=%d adders=%d coros=%d", calls, blockers, adders, coros);
    StartLine line{2 + blockers + adders};
    std::vector<Thread> threads;
    threads.emplace_back([&] {  // the setter
      Rng r{seeds[15]};
      line.Arrive();
      for (int i = 0; i <= calls; ++i) {
        if (r.Chance(1, 2)) {
          Sleep(delays[static_cast<std::size_t>(i)]);
        }
        Point();
        auto& f = w.fire[i];
        f.begin = Now();
        if (i == calls) {
          w.side = kSide;
          w.set_begun.store(true, std::memory_order_relaxed);
        }
        w.fires.fetch_add(1, std::memory_order_release);
        // jobs surely added before this moment have to be called by this fire
        std::vector<CountJob*> in;
        for (auto& j : jobs) {
          if (j.added.load(std::memory_order_acquire)) {
            in.push_back(&j);
          }
        }
        if (i == calls) {
          w.e.Set();
        } else {
          w.e.Call();
        }
        f.end.store(Now(), std::memory_order_relaxed);
        for (auto* j : in) {
          VH_CHECK(j->calls.load(std::memory_order_relaxed) == 1, kP, "not-released-once",
                   "a job added before Call/Set was called %d times by its return", j->calls.load());
        }
        if (i == calls) {
          w.set_clock.store(ClockNow(), std::memory_order_relaxed);
          w.set_ended.store(true, std::memory_order_relaxed);
          VH_CHECK(w.e.Ready(), kP, "not-ready", "the event is not Ready after Set");
        }
      }
    });
    for (int b = 0; b != blockers; ++b) {
      threads.emplace_back([&, b] {
        Rng r{seeds[static_cast<std::size_t>(b)]};
        line.Arrive();
        for (int k = r.In(1, 3); k != 0; --k) {
          Sleep(r.Chance(1, 2) ? 0 : delays[static_cast<std::size_t>(4 + b)]);
          const auto at = Now();
          if (w.e.Ready()) {
            VH_CHECK(w.set_begun.load(std::memory_order_relaxed), kP, "early", "Ready() before Set");
            VH_CHECK(w.side == kSide, "C16,C04", "side-effect-invisible", "Ready(): writes before Set are not visible");
          }
          const bool ended = w.set_ended.load(std::memory_order_relaxed);
          if (r.Chance(1, 2)) {
            w.e.Wait();
            w.Released(at, "Wait");
          } else {
            auto d = DrawTimeout(r);
            auto deadline = Clock::now() + ns{d};
            if (r.Chance(1, 2) ? w.e.WaitUntil(deadline) : w.e.WaitFor(ns{d})) {
              w.n_true.fetch_add(1);
              w.Released(at, "timed wait");
            } else {
              w.n_false.fetch_add(1);
              VH_CHECK(!ended, kP, "late-waiter-not-released", "a timed wait after Set returned false");
              auto z = w.set_clock.load(std::memory_order_relaxed);
              auto dl = std::chrono::duration_cast<ns>(deadline.time_since_epoch()).count();
              VH_CHECK(z < 0 || z >= dl, kP, "timed-missed", "a timed wait returned false although Set was done %lld ns before its deadline",
                       (long long)(dl - z));
            }
          }
        }
        w.e.Wait();
      });
    }
    for (int a = 0; a != adders; ++a) {
      threads.emplace_back([&, a] {
        line.Arrive();
        for (int k = 0; k != 3; ++k) {
          Point();
          auto& j = jobs[static_cast<std::size_t>(a * 3 + k)];
          j.start = Now();
          const bool ended = w.set_ended.load(std::memory_order_relaxed);
          if (w.e.TryAdd(j)) {
            VH_CHECK(!ended, kP, "added-after-set", "TryAdd succeeded after Set returned");
            j.added.store(true, std::memory_order_release);
            w.jobs.fetch_add(1);
          } else {
            VH_CHECK(w.set_begun.load(std::memory_order_relaxed), kP, "refused-early", "TryAdd failed before Set");
            VH_CHECK(w.side == kSide, "C16,C04", "side-effect-invisible", "TryAdd false: writes before Set are not visible");
            w.refused.fetch_add(1);
          }
        }
      });
    }
    line.Arrive();
    std::deque<std::atomic<int>> resumed(static_cast<std::size_t>(coros));
    std::vector<Future<>> futures;
    for (int i = 0; i != coros; ++i) {
      auto k = static_cast<std::size_t>(i);
      if (seeds[k] % 2 == 0) {
        Sleep(delays[k]);
      }
      futures.push_back(EventCoro<Future<>>(w, seeds[k], starts[k], resumed[k], {}));
    }
    for (auto& f : futures) {
      auto r = std::move(f).Get();
      VH_CHECK(r.State() == yaclib::ResultState::Value, kP, "coroutine-failed", "a waiting coroutine did not finish normally");
    }
    for (auto& t : threads) {
      t.join();
    }
    for (auto& r : resumed) {
      VH_CHECK(r.load() == 1, kP, "not-released-once", "a waiting coroutine finished %d times", r.load());
    }
    for (auto& j : jobs) {
      VH_CHECK(j.calls.load() == (j.added.load() ? 1 : 0), kP, "not-released-once", "a job (added %d) was called %d times",
               j.added.load(), j.calls.load());
      released += static_cast<u64>(j.calls.load());
    }
    released += static_cast<u64>(coros + blockers);
    VH_CHECK(w.e.Ready(), kP, "not-ready", "the event is not Ready after Set");
    w.e.Wait();
    w.e.Reset();
  }
  w.execs.Finish();
  Count("event_waiters_released", released);
  Count("event_jobs_refused", static_cast<u64>(w.refused.load()));
  Count("timed_true", static_cast<u64>(w.n_true.load()));
  Count("timed_false", static_cast<u64>(w.n_false.load()));
  c.nontrivial = released != 0;
  c.Note(released * 100 + static_cast<u64>(w.n_true.load()));
}

void Body(Case& c) {
  ResetExecStacks();
  c.nontrivial = false;
  if (c.rng.Chance(1, 3)) {
    EventCase(c);
  } else {
    Scenario("WaitGroup");
    WaitGroupCase(c);
  }
  CheckLedgers("C03,C16");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
