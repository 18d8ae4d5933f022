// Wait / WaitFor / WaitUntil over every form and mix of futures, racing with completions and timeouts (C11; also C03, C04).
#include "through.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>

#include <yaclib_std/chrono>

#include <deque>
#include <list>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;

namespace {

using R = Result<Val, Err>;
using U = Future<Val, Err>;
using UO = FutureOn<Val, Err>;
using S = SharedFuture<Val, Err>;
using SO = SharedFutureOn<Val, Err>;
using Clock = yaclib_std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;

constexpr u64 kSide = 0x51DE;

// One asynchronous result
struct Src {
  int id = 0;
  Out out;
  std::atomic<bool> begun{false};
  u64 side = 0;
  std::atomic<int> delivered{0};
  std::atomic<bool> fulfilled{false};
  int gate = 0;  // fulfil only after that many waits of the owner returned (timed waits must not depend on completion)
  std::int64_t delay = 0;
  // exactly one of these is valid until the fulfilling thread takes it
  Promise<Val, Err> p;
  SharedPromise<Val, Err> sp;
  int kind = 0;  // 0 U, 1 UO, 2 S, 3 SO
  bool via_then = false;

  template <typename P>
  void SetIt(P&& pr) {
    switch (out.st) {
      case St::V:
        std::forward<P>(pr).Set(std::in_place, out.id);
        break;
      case St::E:
        if (out.id == kStopId) {
          auto dropped = std::forward<P>(pr);
          break;
        }
        std::forward<P>(pr).Set(Err{out.id});
        break;
      default:
        std::forward<P>(pr).Set(BoomPtr(out.id));
    }
  }

  void Fulfil() {
    side = kSide;
    begun.store(true, std::memory_order_relaxed);
    if (kind < 2) {
      SetIt(std::move(p));
    } else {
      SetIt(std::move(sp));
    }
    fulfilled.store(true, std::memory_order_relaxed);
  }

  void Seen(const char* how) {
    VH_CHECK(begun.load(std::memory_order_relaxed), "C11", "early", "%s: future %d complete before it was fulfilled", how, id);
    VH_CHECK(side == kSide, "C11,C04", "side-effect-invisible", "%s: writes before fulfilment of %d not visible", how, id);
  }
  void Same(const R& r, const char* how) {
    Seen(how);
    auto o = MakeOut(r);
    VH_CHECK(o == out, "C11", "wrong-result", "%s of %d gave %s, it was fulfilled with %s", how, id, o.Str().c_str(),
             out.Str().c_str());
  }
  void Hit(const R& r, const char* how) {
    Same(r, how);
    auto n = delivered.fetch_add(1, std::memory_order_relaxed) + 1;
    VH_CHECK(n == 1 || kind >= 2, "C11", "delivered-twice", "%s: future %d delivered %d times", how, id, n);
  }
};

// Overwrites the stack area used by the returned wait and checks that nobody writes there any more.
[[gnu::noinline]] void Scribble(int points) {
  volatile unsigned char area[1536];
  const unsigned char pat = 0x5A;
  for (unsigned i = 0; i != sizeof(area); ++i) {
    area[i] = pat;
  }
  for (int i = 0; i != points; ++i) {
    Point();
    if (kFiber && i % 3 == 2) {
      yaclib_std::this_thread::sleep_for(ns{5});
    }
  }
  for (unsigned i = 0; i != sizeof(area); ++i) {
    if (area[i] != pat) {
      Fail("C11", "stack-write-after-wait", "stack of the waiter was written (offset %u, %02x) after the wait returned", i,
           area[i]);
    }
  }
}

struct Waiter {
  Rng rng;
  int no = 0;
  std::atomic<int> waits{0};
  std::vector<Src*> src;    // owned or observed
  std::deque<U> u;
  std::deque<UO> uo;
  std::deque<S> s;
  std::deque<SO> so;
  std::deque<Src*> u_src, uo_src, s_src, so_src;
  std::vector<U> keep;
  bool shared_only = false;
  TrackExec* pool = nullptr;
  int n_true = 0, n_false = 0, n_late = 0, n_false_partial = 0, n_plain = 0, n_blocked = 0;

  bool Finished(Src* x) {
    return x->fulfilled.load(std::memory_order_relaxed);
  }

  template <typename F>
  void IsReady(const F& f, Src* x, const char* how) {
    VH_CHECK(f.Valid(), "C11", "invalid-after-wait", "%s: future %d is not Valid after the wait", how, x->id);
    VH_CHECK(f.Ready(), "C11", "not-ready-after-wait", "%s returned (true) but future %d is not Ready", how, x->id);
    if (rng.Chance(1, 2)) {
      x->Same(std::as_const(f).Touch(), how);
    } else {
      x->Seen(how);
    }
  }

  struct Timing {
    Clock::time_point deadline;
    bool until;
    Clock::duration dur;
  };
  Timing Draw() {
    Timing t;
    t.until = rng.Chance(1, 2);
    auto d = kFiber ? std::int64_t{rng.In(-20, 200)} * rng.Pick({1, 1, 5}) : std::int64_t{rng.In(-20, 300)} * 1000;
    if (rng.Chance(1, 6)) {
      d = 0;
    }
    auto now = Clock::now();
    t.dur = ns{d};
    t.deadline = now + t.dur;
    return t;
  }

  template <typename Call, typename Check, typename Done>
  void Timed(const char* how, Call&& call, Check&& check, Done&& all_done) {
    auto before = all_done();
    auto t = Draw();
    bool r = call(t);

    auto now = Clock::now();
    waits.fetch_add(1, std::memory_order_relaxed);
    Scribble(rng.In(0, 3));
    if (r) {
      ++n_true;
      check(how);
    } else {
      ++n_false;
      VH_CHECK(now >= t.deadline, "C11", "false-before-deadline", "%s returned false %lld ns before its deadline", how,
               (long long)std::chrono::duration_cast<ns>(t.deadline - now).count());
      if (before) {
        ++n_late;
      }
    }
  }

  template <typename... Fs>
  bool CallTimed(const Timing& t, Fs&... fs) {
    if (t.until) {
      return yaclib::WaitUntil(t.deadline, fs...);
    }
    switch (rng.Below(3)) {
      case 0:
        return yaclib::WaitFor(std::chrono::duration<double, std::micro>{static_cast<double>(t.dur.count()) / 1000.0 +
                                                                         (kFiber ? 1.0 : 0.0)},
                               fs...);
      default:
        return yaclib::WaitFor(t.dur, fs...);
    }
  }
  template <typename It>
  bool CallTimedIt(const Timing& t, It b, It e) {
    return t.until ? yaclib::WaitUntil(t.deadline, b, e) : yaclib::WaitFor(t.dur, b, e);
  }
  template <typename It>
  bool CallTimedN(const Timing& t, It b, std::size_t n) {
    return t.until ? yaclib::WaitUntil(t.deadline, b, n) : yaclib::WaitFor(t.dur, b, n);
  }

  template <typename D, typename DS>
  void Shuffle(D& d, DS& ds) {
    for (std::size_t i = d.size(); i > 1; --i) {
      auto j = rng.Below(i);
      if (j != i - 1) {
        std::swap(d[i - 1], d[j]);
        std::swap(ds[i - 1], ds[j]);
      }
    }
  }

  void TimedOne() {
    Shuffle(u, u_src);
    Shuffle(uo, uo_src);
    const auto n = u.size(), m = uo.size();
    auto done = [&](std::size_t a, std::size_t b) {
      return [this, a, b] {
        for (std::size_t i = 0; i != a; ++i) {
          if (!Finished(u_src[i])) {
            return false;
          }
        }
        for (std::size_t i = 0; i != b; ++i) {
          if (!Finished(uo_src[i])) {
            return false;
          }
        }
        return true;
      };
    };
    auto check = [&](std::size_t a, std::size_t b) {
      return [this, a, b](const char* how) {
        for (std::size_t i = 0; i != a; ++i) {
          IsReady(u[i], u_src[i], how);
        }
        for (std::size_t i = 0; i != b; ++i) {
          IsReady(uo[i], uo_src[i], how);
        }
      };
    };
    auto form = rng.Below(4);
    if (form == 0 || n + m == 0) {  // iterators over a sub range
      auto k = n != 0 ? 1 + rng.Below(n) : 0;
      if (k != 0 && rng.Chance(2, 3)) {
        k = n;
      }
      Timed(
        "timed wait (begin,end)", [&](auto& t) { return CallTimedIt(t, u.begin(), u.begin() + static_cast<long>(k)); },
        check(k, 0), done(k, 0));
      return;
    }
    if (form == 1) {
      auto k = m != 0 ? 1 + rng.Below(m) : 0;
      Timed(
        "timed wait (begin,count)", [&](auto& t) { return CallTimedN(t, uo.begin(), k); }, check(0, k), done(0, k));
      return;
    }
    if (n >= 3 && rng.Chance(1, 3)) {
      Timed(
        "timed wait (f,f,f)", [&](auto& t) { return CallTimed(t, u[0], u[1], u[2]); }, check(3, 0), done(3, 0));
    } else if (n >= 2 && m >= 1 && rng.Chance(1, 3)) {
      Timed(
        "timed wait (f,o,f)", [&](auto& t) { return CallTimed(t, u[0], uo[0], u[1]); }, check(2, 1), done(2, 1));
    } else if (n >= 1 && m >= 1 && rng.Chance(2, 3)) {
      Timed(
        "timed wait (o,f)", [&](auto& t) { return CallTimed(t, uo[0], u[0]); }, check(1, 1), done(1, 1));
    } else if (n >= 2 && rng.Chance(2, 3)) {
      Timed(
        "timed wait (f,f)", [&](auto& t) { return CallTimed(t, u[0], u[1]); }, check(2, 0), done(2, 0));
    } else if (n >= 1) {
      Timed(
        "timed wait (f)", [&](auto& t) { return CallTimed(t, u[0]); }, check(1, 0), done(1, 0));
    } else {
      Timed(
        "timed wait (o)", [&](auto& t) { return CallTimed(t, uo[0]); }, check(0, 1), done(0, 1));
    }
  }

  template <typename Call>
  void Plain(Call&& call) {
    call();
    waits.fetch_add(1, std::memory_order_relaxed);
    Scribble(rng.In(0, 3));
    ++n_plain;
  }

  void WaitOne() {
    Shuffle(u, u_src);
    Shuffle(s, s_src);
    const auto a = u.size(), b = uo.size(), c = s.size(), d = so.size();
    auto ck = [&](std::size_t ia, std::size_t ib, std::size_t ic, std::size_t id, const char* how) {
      for (std::size_t i = 0; i != ia; ++i) {
        IsReady(u[i], u_src[i], how);
      }
      for (std::size_t i = 0; i != ib; ++i) {
        IsReady(uo[i], uo_src[i], how);
      }
      for (std::size_t i = 0; i != ic; ++i) {
        IsReady(s[i], s_src[i], how);
      }
      for (std::size_t i = 0; i != id; ++i) {
        IsReady(so[i], so_src[i], how);
      }
    };
    switch (rng.Below(12)) {
      case 0:
        Plain([&] { yaclib::Wait(u.begin(), u.end()); });
        ck(a, 0, 0, 0, "Wait(begin,end)");
        break;
      case 1:
        Plain([&] { yaclib::Wait(uo.begin(), uo.size()); });
        ck(0, b, 0, 0, "Wait(begin,count)");
        break;
      case 2: {
        Plain([&] { yaclib::Wait(s.begin(), s.end()); });
        ck(0, 0, c, 0, "Wait(shared begin,end)");
        break;
      }
      case 3: {  // forward-only iterator and the same shared future several times
        std::list<S> l;
        for (auto& x : s) {
          l.push_back(x);
          if (rng.Chance(1, 3)) {
            l.push_back(x);
          }
        }
        Plain([&] { yaclib::Wait(l.begin(), l.size()); });
        ck(0, 0, c, 0, "Wait(shared list,count)");
        break;
      }
      case 4:
        if (a >= 1 && c >= 1) {
          Plain([&] { yaclib::Wait(u[0], s[0]); });
          ck(1, 0, 1, 0, "Wait(f,s)");
        }
        break;
      case 5:
        if (c >= 2 && a >= 1) {
          Plain([&] { yaclib::Wait(s[0], u[0], s[1]); });
          ck(1, 0, 2, 0, "Wait(s,f,s)");
        } else if (c >= 1) {
          Plain([&] { yaclib::Wait(s[0]); });
          ck(0, 0, 1, 0, "Wait(s)");
        }
        break;
      case 6:
        if (c >= 1 && d >= 1) {
          if (b >= 1) {
            Plain([&] { yaclib::Wait(so[0], uo[0], s[0]); });
            ck(0, 1, 1, 1, "Wait(so,uo,s)");
          } else {
            Plain([&] { yaclib::Wait(so[0], s[0]); });
            ck(0, 0, 1, 1, "Wait(so,s)");
          }
        } else if (d >= 1) {
          Plain([&] { yaclib::Wait(so[0]); });
          ck(0, 0, 0, 1, "Wait(so)");
        }
        break;
      case 7:
        if (c >= 1) {
          auto copy = s[0];
          Plain([&] { yaclib::Wait(s[0], copy); });
          ck(0, 0, 1, 0, "Wait(s,same s)");
        }
        break;
      case 8:
        if (a >= 3) {
          Plain([&] { yaclib::Wait(u[0], u[1], u[2]); });
          ck(3, 0, 0, 0, "Wait(f,f,f)");
        } else if (a >= 2) {
          Plain([&] { yaclib::Wait(u[0], u[1]); });
          ck(2, 0, 0, 0, "Wait(f,f)");
        }
        break;
      case 9:
        if (a >= 1 && b >= 1) {
          Plain([&] { yaclib::Wait(uo[0], u[0]); });
          ck(1, 1, 0, 0, "Wait(o,f)");
        }
        break;
      case 10:
        if (b >= 1) {
          Plain([&] { yaclib::Wait(uo[0]); });
          ck(0, 1, 0, 0, "Wait(o)");
        }
        break;
      default:
        if (a >= 1) {
          Plain([&] { yaclib::Wait(u[0]); });
          ck(1, 0, 0, 0, "Wait(f)");
        }
    }
  }

  static Future<> Aw(Waiter* w, U f, Src* x, FnToken t) {
    co_await Await(f);
    t.Touch();
    VH_CHECK(f.Ready(), "C11,C13", "await-not-ready", "Await returned but not Ready");
    x->Hit(std::as_const(f).Touch(), "coroutine after wait");
    (void)w;
    co_return {};
  }

  std::vector<Future<>> coros;

  template <typename F>
  void Consume(F&& f, Src* x) {
    constexpr bool kOn = std::is_same_v<std::decay_t<F>, UO>;
    switch (rng.Below(kOn ? 6 : 9)) {
      case 0:
        x->Hit(std::move(f).Get(), "Get&& after wait");
        break;
      case 1: {
        const auto& cf = f;
        const R* r = cf.Get();
        while (r == nullptr) {
          yaclib::Wait(f);
          r = cf.Get();
        }
        x->Same(*r, "Get const& after wait");
        x->Hit(std::move(f).Touch(), "Touch&& after wait");
        break;
      }
      case 2: {
        auto g = std::move(f).ThenInline([x, t = FnToken{}](R&& r) -> R {
          t.Touch();
          x->Hit(r, "ThenInline after wait");
          return std::move(r);
        });
        if constexpr (kOn) {
          keep.push_back(std::move(g).On(nullptr));
        } else {
          keep.push_back(std::move(g));
        }
        break;
      }
      case 3: {
        auto g = std::move(f).Then(*pool, [x, t = FnToken{}](R&& r) -> R {
          t.Touch();
          x->Hit(r, "Then(e) after wait");
          return std::move(r);
        });
        keep.push_back(std::move(g).On(nullptr));
        break;
      }
      case 4:
        std::move(f).DetachInline([x, t = FnToken{}](R&& r) {
          t.Touch();
          x->Hit(r, "DetachInline after wait");
        });
        break;
      case 5: {
        auto drop = std::move(f);
        x->delivered.fetch_add(1, std::memory_order_relaxed);
        break;
      }
      case 6:
        if constexpr (!kOn) {
          coros.push_back(Aw(this, std::move(f), x, {}));
        }
        break;
      case 7:
        if constexpr (!kOn) {
          auto [f2, p2] = yaclib::MakeContract<Val, Err>();
          yaclib::Connect(std::move(f), std::move(p2));
          x->Hit(std::move(f2).Get(), "Get of connected after wait");
        }
        break;
      default:
        if constexpr (!kOn) {
          auto [sh, sp] = yaclib::MakeSharedContract<Val, Err>();
          yaclib::Connect(std::move(f), std::move(sp));
          x->Hit(sh.Get(), "Get of shared after wait");
        }
    }
  }

  void Run() {
    auto ops = rng.In(1, 5);
    for (int i = 0; i != ops; ++i) {
      Point();
      bool timed = !shared_only && (u.size() + uo.size() != 0) && rng.Chance(3, 4);
      bool gated = false;
      for (auto* x : src) {
        gated |= x->gate > waits.load(std::memory_order_relaxed);
      }
      if (timed) {
        TimedOne();
        // a future may be consumed between waits: the others must not notice
        if (rng.Chance(1, 4) && u.size() > 1) {
          auto f = std::move(u.back());
          auto* x = u_src.back();
          if (!gated || x->gate <= waits.load(std::memory_order_relaxed)) {
            u.pop_back();
            u_src.pop_back();
            Consume(std::move(f), x);
          } else {
            u.back() = std::move(f);
          }
        }
      } else if (!gated) {
        WaitOne();
      }
    }
    waits.store(1000, std::memory_order_relaxed);  // opens every gate
    while (!u.empty()) {
      auto f = std::move(u.front());
      auto* x = u_src.front();
      u.pop_front();
      u_src.pop_front();
      Consume(std::move(f), x);
      if (rng.Chance(1, 3) && u.size() > 1) {
        TimedOne();
      }
    }
    while (!uo.empty()) {
      auto f = std::move(uo.front());
      auto* x = uo_src.front();
      uo.pop_front();
      uo_src.pop_front();
      Consume(std::move(f), x);
    }
    for (std::size_t i = 0; i != s.size(); ++i) {
      if (rng.Chance(1, 2)) {
        s_src[i]->Same(s[i].Get(), "shared Get after wait");
      }
    }
    s.clear();
    so.clear();
    Scribble(rng.In(0, 6));
    for (auto& f : keep) {
      std::ignore = std::move(f).Get();
    }
    for (auto& f : coros) {
      std::ignore = std::move(f).Get();
    }
    keep.clear();
    coros.clear();
  }
};

yaclib::IntrusivePtr<yaclib::FairThreadPool> gPool;

void Body(Case& c) {
  ResetExecStacks();
  auto& rng = c.rng;
  auto pool = yaclib::MakeFairThreadPool(1);
  TrackExec ex;
  ex.Init(1, pool.Get());
  const int n_waiters = rng.Chance(1, 3) ? 2 : 1;
  const int n_producers = rng.In(1, 3);
  const int n = rng.In(1, 5);
  std::deque<Src> src(static_cast<std::size_t>(n));
  std::deque<Waiter> waiters(static_cast<std::size_t>(n_waiters));
  Scenario("waiters=%d producers=%d :", n_waiters, n_producers);
  int wi = 0;
  for (auto& w : waiters) {
    w.no = wi++;
    w.rng.s = rng.Next();
    w.pool = &ex;
  }
  std::vector<std::vector<Src*>> prod(static_cast<std::size_t>(n_producers));
  int shared = 0;
  for (int i = 0; i != n; ++i) {
    auto& x = src[static_cast<std::size_t>(i)];
    x.id = i;
    x.kind = rng.Pick({0, 0, 0, 1, 1, 2, 2, 3});
    x.out = rng.Chance(2, 3) ? Out{St::V, static_cast<u64>(100 + i)}
                             : rng.Pick({Out{St::E, static_cast<u64>(200 + i)}, Out{St::X, static_cast<u64>(300 + i)}, Out::Stop()});
    x.delay = rng.Chance(1, 2) ? 0 : kFiber ? rng.In(1, 150) * rng.Pick({1, 1, 5}) : rng.In(1, 250) * 1000;
    auto& w = waiters[rng.Below(waiters.size())];
    if (x.kind < 2 && rng.Chance(1, 6)) {
      x.gate = rng.In(1, 3);
    }
    x.via_then = rng.Chance(1, 4);
    switch (x.kind) {
      case 0: {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        x.p = std::move(p);
        if (!x.via_then && rng.Chance(1, 4)) {
          w.u.push_back(Through(std::move(f)));
        } else if (x.via_then) {
          auto g = rng.Chance(1, 2)
                     ? std::move(f).ThenInline([t = FnToken{}](R&& r) -> R {
                         t.Touch();
                         Point();
                         return std::move(r);
                       })
                     : std::move(f).Then(ex, [t = FnToken{}](R&& r) -> R {
                         t.Touch();
                         Point();
                         return std::move(r);
                       }).On(nullptr);
          w.u.push_back(std::move(g));
        } else {
          w.u.push_back(std::move(f));
        }
        w.u_src.push_back(&x);
        w.src.push_back(&x);
        break;
      }
      case 1: {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(ex);
        x.p = std::move(p);
        if (x.via_then) {
          w.uo.push_back(std::move(f).Then([t = FnToken{}](R&& r) -> R {
            t.Touch();
            Point();
            return std::move(r);
          }));
        } else {
          w.uo.push_back(std::move(f));
        }
        w.uo_src.push_back(&x);
        w.src.push_back(&x);
        break;
      }
      case 2: {
        auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
        x.sp = std::move(p);
        if (rng.Chance(1, 4)) {
          f = ThroughShared(std::move(f));
        }
        for (auto& o : waiters) {
          o.s.push_back(f);
          o.s_src.push_back(&x);
        }
        ++shared;
        break;
      }
      default: {
        auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(ex);
        x.sp = std::move(p);
        for (auto& o : waiters) {
          o.so.push_back(f);
          o.so_src.push_back(&x);
        }
        ++shared;
      }
    }
    auto pre = x.gate == 0 && rng.Chance(1, 8);
    ScenarioAdd(" %d:%s%s%s delay=%lld gate=%d %s", i, x.kind == 0 ? "U" : x.kind == 1 ? "O" : x.kind == 2 ? "S" : "SO",
                x.via_then ? "+then" : "", pre ? " pre" : "", (long long)x.delay, x.gate, x.out.Str().c_str());
    if (pre) {
      x.Fulfil();
    } else {
      prod[rng.Below(prod.size())].push_back(&x);
    }
  }
  // a gated source must not hold up another one of the same producer: gated ones go last, ordered by gate
  for (auto& p : prod) {
    std::stable_sort(p.begin(), p.end(), [](Src* a, Src* b) { return a->gate < b->gate; });
  }
  StartLine line{n_producers + n_waiters};
  std::vector<Thread> threads;
  for (auto& p : prod) {
    threads.emplace_back([&p, &line, &waiters] {
      line.Arrive();
      for (auto* x : p) {
        if (x->gate != 0) {
          Waiter* owner = nullptr;
          for (auto& w : waiters) {
            for (auto* y : w.src) {
              if (y == x) {
                owner = &w;
              }
            }
          }
          while (owner->waits.load(std::memory_order_relaxed) < x->gate) {
            yaclib_std::this_thread::sleep_for(ns{kFiber ? 10 : 1000});
          }
        }
        if (x->delay != 0) {
          yaclib_std::this_thread::sleep_for(ns{x->delay});
        }
        Point();
        x->Fulfil();
      }
    });
  }
  for (std::size_t i = 1; i < waiters.size(); ++i) {
    threads.emplace_back([w = &waiters[i], &line] {
      line.Arrive();
      w->Run();
    });
  }
  line.Arrive();
  waiters[0].Run();
  for (auto& t : threads) {
    t.join();
  }
  pool->Stop();
  pool->Wait();
  for (auto& x : src) {
    if (x.kind < 2) {
      VH_CHECK(x.delivered.load() == 1, "C11", "not-delivered", "future %d delivered %d times", x.id, x.delivered.load());
    }
  }
  int t = 0, f = 0, p = 0;
  for (auto& w : waiters) {
    if (w.n_late != 0) {
      Count("false_although_all_ready", static_cast<u64>(w.n_late));
    }
    t += w.n_true;
    f += w.n_false;
    p += w.n_plain;
  }
  Count("timed_waits_true", static_cast<u64>(t));
  Count("timed_waits_false", static_cast<u64>(f));
  Count("plain_waits", static_cast<u64>(p));
  c.nontrivial = t + f + p != 0;
  c.Note(static_cast<u64>(t * 10000 + f * 100 + p));
  waiters.clear();
  src.clear();
  VH_CHECK(ex.refs.load() == 0, "C03,C11", "executor-leak", "executor referenced %d times at quiescence", ex.refs.load());
  CheckLedgers("C03,C11");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
