// SharedFuture/SharedPromise: one fulfilling thread, several observer threads doing sequences of observer operations (C06).
#include "through.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>

#include <deque>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;

namespace {

using R = Result<Val, Err>;

constexpr u64 kSide = 0x51DE;

struct Probe {  // one attached observer
  const char* what = "";
  int fired = 0;
  Out seen;
  Out want;
  int times = 1;     // expected firings
  bool any = false;  // exactly `times` firings but the value may also be a rejection (Stop)
  bool optional = false;
};

struct World {
  Out set;
  u64 side = 0;
  std::atomic<bool> begun{false};
  SharedFuture<Val, Err> root;     // alive during the whole run in some cases ("shared const reference")
  TrackExec inl, pool, reject;

  void Observed(const char* how) {
    VH_CHECK(begun.load(std::memory_order_relaxed), "C06", "early", "%s observed completion before the value was set", how);
    VH_CHECK(side == kSide, "C06,C04", "side-effect-invisible", "%s: writes made before Set are not visible", how);
  }
  void Same(const R& r, const char* how) {
    Observed(how);
    auto o = MakeOut(r);
    VH_CHECK(o == set, "C06", "wrong-result", "%s saw %s, set was %s", how, o.Str().c_str(), set.Str().c_str());
  }
};

struct Observer {
  World& w;
  Rng rng;
  SharedFuture<Val, Err> s;
  SharedFutureOn<Val, Err> so;
  bool on = false;
  std::deque<Probe> probes;
  std::vector<int> ops;
  std::vector<Future<Val, Err>> pending;
  std::vector<FutureOn<Val, Err>> pending_on;
  bool ready_seen = false;

  Observer(World& w_, u64 seed) : w{w_} {
    rng.s = seed;
  }

  Probe* New(const char* what, bool rejected) {
    probes.emplace_back();
    auto* p = &probes.back();
    p->what = what;
    p->want = rejected ? Out::Stop() : w.set;
    return p;
  }

  void Hit(Probe* p, const R& r) {
    w.Observed(p->what);
    ++p->fired;
    VH_CHECK(p->fired == 1, "C06", "observer-twice", "%s fired %d times", p->what, p->fired);
    p->seen = MakeOut(r);
  }

  // functor variants
  auto FnConst(Probe* p) {
    return [this, p, t = FnToken{}](const R& r) {
      t.Touch();
      Hit(p, r);
      Point();
    };
  }
  auto FnCopy(Probe* p) {
    return [this, p, t = FnToken{}](R r) -> R {
      t.Touch();
      Point();
      Hit(p, r);
      return r;
    };
  }

  yaclib::IExecutor& Exec(int k) {
    return k == 0 ? static_cast<yaclib::IExecutor&>(w.inl) : k == 1 ? w.pool : w.reject;
  }

  void Down(Future<Val, Err>&& f, bool rejected) {
    switch (rng.Below(4)) {
      case 0: {
        auto r = std::move(f).Get();
        w.Observed("downstream Get");
        auto want = rejected ? Out::Stop() : w.set;
        VH_CHECK(MakeOut(r) == want, "C06", "wrong-downstream", "downstream got %s, want %s", MakeOut(r).Str().c_str(),
                 want.Str().c_str());
        break;
      }
      case 1: {
        auto* p = New("downstream DetachInline", rejected);
        std::move(f).DetachInline([this, p, t = FnToken{}](R&& r) {
          t.Touch();
          Hit(p, r);
        });
        break;
      }
      case 2: {
        auto drop = std::move(f);
        break;
      }
      default:
        pending.push_back(std::move(f));
    }
  }

  Future<Val, Err> Coro(SharedFuture<Val, Err> f, Probe* p, int kind, yaclib::IExecutor& e) {
    FnToken local;
    bool failed = false;
    Val out{1};
    try {
      if (kind == 0) {
        out = co_await f;
      } else if (kind == 1) {
        co_await Await(f);
        out = f.Touch().Ok();
      } else if (kind == 2) {
        co_await AwaitOn(e, f);
        out = f.Touch().Ok();
      } else {
        co_await AwaitSticky(f);
        out = f.Touch().Ok();
      }
    } catch (...) {
      local.Touch();
      w.Observed("coroutine");
      ++p->fired;
      Out seen{};
      try {
        throw;
      } catch (const yaclib::ResultError<Err>& err) {
        seen = {St::E, err.Get().Id()};
      } catch (...) {
        seen = {St::X, BoomId(std::current_exception())};
      }
      p->seen = seen;
      failed = true;
    }
    if (failed) {
      co_return MakeResult(p->seen);
    }
    local.Touch();
    w.Observed("coroutine");
    ++p->fired;
    VH_CHECK(p->fired == 1, "C06,C13", "resumed-twice", "coroutine resumed %d times", p->fired);
    p->seen = {St::V, out.Id()};
    co_return out;
  }

  template <typename S>
  void Op(S& f, int op) {
    constexpr bool kOn = std::is_same_v<S, SharedFutureOn<Val, Err>>;
    const auto& cf = f;
    const int ek = rng.In(0, 2);
    switch (op) {
      case 0:
      case 1:
        if (cf.Ready()) {
          ready_seen = true;
          w.Same(cf.Touch(), "Touch after Ready");
        } else {
          VH_CHECK(!ready_seen, "C06", "ready-unset", "Ready went back to false");
        }
        break;
      case 2:
        w.Same(cf.Get(), "Get const&");
        ready_seen = true;
        break;
      case 3: {
        auto* p = New("ThenInline", false);
        if constexpr (kOn) {
          pending_on.push_back(cf.ThenInline(FnCopy(p)));
        } else {
          Down(cf.ThenInline(FnCopy(p)), false);
        }
        break;
      }
      case 4: {
        auto* p = New("Then(e)", ek == 2);
        Down(cf.Then(Exec(ek), FnCopy(p)).On(nullptr), ek == 2);
        break;
      }
      case 5: {
        auto* p = New("SubscribeInline", false);
        if (rng.Chance(1, 2)) {
          cf.SubscribeInline(FnConst(p));
        } else {
          cf.SubscribeInline([this, p, t = FnToken{}](R r) {
            t.Touch();
            Hit(p, r);
          });
        }
        break;
      }
      case 6: {
        auto* p = New("Subscribe(e)", ek == 2);
        cf.Subscribe(Exec(ek), FnConst(p));
        break;
      }
      case 7:
        Down(yaclib::Share(cf), false);
        break;
      case 8: {
        auto fo = yaclib::Share(cf, Exec(ek));
        auto* p = New("Share(e).Then", ek == 2);
        Down(std::move(fo).Then(FnCopy(p)).On(nullptr), ek == 2);
        break;
      }
      case 9: {
        auto [f2, p2] = yaclib::MakeContract<Val, Err>();
        yaclib::Connect(cf, std::move(p2));
        Down(std::move(f2), false);
        break;
      }
      case 10: {
        auto [f2, p2] = yaclib::MakeSharedContract<Val, Err>();
        if (rng.Chance(1, 2)) {
          auto* p = New("connected SubscribeInline", false);
          f2.SubscribeInline(FnConst(p));
        }
        yaclib::Connect(cf, std::move(p2));
        if (rng.Chance(1, 2)) {
          w.Same(f2.Get(), "Get of connected shared");
          if (rng.Chance(1, 2)) {
            w.Same(std::move(f2).Get(), "Get&& of connected shared");
          }
        }
        break;
      }
      case 11:
        yaclib::Wait(f);
        VH_CHECK(cf.Ready(), "C06,C11", "wait-not-ready", "Wait returned but not Ready");
        ready_seen = true;
        w.Same(cf.Touch(), "Touch after Wait");
        break;
      case 12: {
        auto copy = f;
        Point();
        if (rng.Chance(1, 2)) {
          yaclib::Wait(copy, f);
          VH_CHECK(cf.Ready() && copy.Ready(), "C06,C11", "wait-not-ready", "Wait(2) returned but not Ready");
        }
        break;
      }
      case 13: {
        auto copy = f;
        Point();
        w.Same(std::move(copy).Get(), "Get&& of a copy");
        w.Same(cf.Get(), "Get const& after Get&& of a copy");
        break;
      }
      case 14: {
        SharedFuture<Val, Err> copy{f.GetCore()};
        auto kind = rng.In(0, 3);
        auto* p = New("coroutine", kind == 2 && ek == 2);
        p->times = kind == 2 && ek == 2 ? 0 : 1;
        Down(Coro(std::move(copy), p, kind, Exec(ek)), kind == 2 && ek == 2);
        break;
      }
      case 15: {  // unwrapping: a continuation returns the shared future / a share of it
        SharedFuture<Val, Err> copy{f.GetCore()};
        auto [f2, p2] = yaclib::MakeContract<void, Err>();
        Future<Val, Err> r;
        if (rng.Chance(1, 2)) {
          r = std::move(f2).ThenInline([c = std::move(copy), t = FnToken{}]() mutable {
            t.Touch();
            return std::move(c);
          });
        } else {
          r = cf.Then(w.inl, [c = std::move(copy), t = FnToken{}](const R&) mutable {
                t.Touch();
                return yaclib::Share(c);
              }).On(nullptr);
        }
        Point();
        std::move(p2).Set();
        Down(std::move(r), false);
        break;
      }
      case 16: {  // Then by value / by error / by exception on the shared state
        auto* p = New("Then(V)", false);
        p->times = w.set.st == St::V ? 1 : 0;
        auto g = cf.Then(w.inl, [this, p, t = FnToken{}](const Val& v) -> Val {
          t.Touch();
          w.Observed(p->what);
          ++p->fired;
          p->seen = {St::V, v.Id()};
          return v;
        });
        Down(std::move(g).On(nullptr), false);
        break;
      }
      case 17: {
        if constexpr (!kOn) {
          auto c1 = f, c2 = f;
          auto any = yaclib::WhenAny(c1, c2);
          Down(std::move(any), false);
        }
        break;
      }
      case 18: {
        if constexpr (!kOn) {
          auto c1 = f;
          auto all = yaclib::WhenAll<yaclib::FailPolicy::None>(f, c1);
          auto* p = New("WhenAll", false);
          std::move(all).DetachInline([this, p, t = FnToken{}](auto&& r) {
            t.Touch();
            w.Observed(p->what);
            VH_CHECK(r && std::as_const(r).Value().size() == 2, "C06,C09", "whenall-shape", "WhenAll(shared, shared) wrong shape");
            for (auto& x : std::as_const(r).Value()) {
              w.Same(x, "WhenAll element");
            }
            ++p->fired;
            p->seen = w.set;
          });
        }
        break;
      }
      case 19:
        if constexpr (kOn) {
          auto* p = New("Then() inherited", false);
          Down(cf.Then(FnCopy(p)).On(nullptr), false);
        } else {
          auto* p = New("ThenInline chain", false);
          auto* p2 = New("ThenInline chain second", false);
          Down(cf.ThenInline(FnCopy(p)).ThenInline([this, p2, t = FnToken{}](R&& r) {
            t.Touch();
            Hit(p2, r);
            return std::move(r);
          }),
               false);
        }
        break;
      case 20:
        if constexpr (kOn) {
          auto* p = New("Subscribe() inherited", false);
          cf.Subscribe(FnConst(p));
        } else {
          auto* p = New("SubscribeInline", false);
          cf.SubscribeInline(FnConst(p));
        }
        break;
      default:
        break;
    }
  }

  void Run() {
    Point();
    for (std::size_t i = 0; i != ops.size(); ++i) {
      if (on) {
        Op(so, ops[i]);
      } else {
        Op(s, ops[i]);
      }
      Point();
    }
    // the final use of the own copy
    const auto last = rng.Below(5);
    auto finish = [&](auto& f) {
      if (last == 0) {
        w.Same(std::move(f).Get(), "final Get&&");
      } else if (last == 1) {
        if (f.Ready()) {
          w.Same(std::move(f).Touch(), "final Touch&&");
        }
      } else if (last == 2) {
        auto* p = New("final SubscribeInline", false);
        f.SubscribeInline(FnConst(p));
      } else if (last == 3) {
        std::move(f).Detach();
        VH_CHECK(!f.Valid(), "C06", "detach-valid", "a SharedFuture is still valid after Detach() &&");
      }
      f = {};
    };
    if (on && last == 4) {
      auto plain = std::move(so).On(nullptr);
      auto* p = New("final On(nullptr) SubscribeInline", false);
      plain.SubscribeInline(FnConst(p));
      w.Same(std::move(plain).Get(), "final On(nullptr) Get&&");
    }
    if (on) {
      finish(so);
    } else {
      finish(s);
    }
    Point();
    for (auto& f : pending) {
      auto r = std::move(f).Get();
      w.Observed("pending Get");
      auto o = MakeOut(r);
      VH_CHECK(o == w.set || o == Out::Stop(), "C06", "wrong-downstream", "pending got %s", o.Str().c_str());
    }
    for (auto& f : pending_on) {
      w.Same(std::move(f).Get(), "pending Get");
    }
    pending.clear();
    pending_on.clear();
  }
};

void Body(Case& c) {
  auto& rng = c.rng;
  ResetExecStacks();
  const int threads = rng.In(2, 4);
  const int nops = kFiber ? rng.In(1, 4) : rng.In(1, 8);
  const int source = rng.In(0, 5);
  const bool on = source == 0 && rng.Chance(1, 4);
  const bool use_pool = rng.Chance(1, 2);
  const bool keep_root = rng.Chance(1, 4);
  World w;
  const u64 id = 76 + rng.Below(4);
  const auto kind = rng.Below(6);
  w.set = kind <= 2 ? Out{St::V, id} : kind == 3 ? Out{St::E, id} : kind == 4 ? Out{St::X, id} : Out::Stop();
  Scenario("shared: threads=%d source=%d on=%d pool=%d set=%s keep_root=%d", threads, source, on, use_pool, w.set.Str().c_str(),
           keep_root);
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  if (use_pool) {
    pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 2)));
  }
  w.inl.Init(1, nullptr);
  w.pool.Init(2, use_pool ? pool.Get() : nullptr);
  w.reject.Init(3, nullptr, 0);
  {
    SharedPromise<Val, Err> sp;
    Promise<Val, Err> up;
    std::function<void()> fulfil;
    auto begin = [&w] {
      w.side = kSide;
      Point();
      w.begun.store(true, std::memory_order_relaxed);
    };
    SharedFuture<Val, Err> s;
    SharedFutureOn<Val, Err> so;
    Observer sub{w, rng.Next()};  // observers attached by the fulfilling thread through the SharedPromise itself
    if (source == 0 && on) {
      auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(w.pool);
      so = f;
      sp = std::move(p);
    } else if (source == 0) {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      s = f;
      sp = std::move(p);
    } else if (source == 1) {
      sp = yaclib::MakeSharedPromise<Val, Err>();
      s = yaclib::Split(sp);
    } else if (source == 2) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      s = yaclib::Split(std::move(f));
      up = std::move(p);
    } else if (source == 3) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      auto [sf, p2] = yaclib::MakeSharedContract<Val, Err>();
      yaclib::Connect(std::move(f).ThenInline([t = FnToken{}](R&& r) {
        t.Touch();
        return std::move(r);
      }),
                      std::move(p2));
      s = sf;
      up = std::move(p);
    } else if (source == 5) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      s = ThroughShared(std::move(f));
      up = std::move(p);
    } else {
      // AsyncSharedContract / RunShared on an executor run by the fulfilling thread
    }
    auto manual = yaclib::MakeManual();
    if (source == 4) {
      so = yaclib::RunShared<Err>(*manual, [&w, begin, t = FnToken{}]() -> R {
        t.Touch();
        begin();
        return MakeResult(w.set);
      });
      s = SharedFuture<Val, Err>{so.GetCore()};
    }
    const bool use_on = on;
    std::vector<std::unique_ptr<Observer>> obs;
    for (int i = 0; i != threads; ++i) {
      obs.push_back(std::make_unique<Observer>(w, rng.Next()));
      auto& o = *obs.back();
      o.on = use_on;
      ScenarioAdd(" [");
      for (int k = 0; k != nops; ++k) {
        o.ops.push_back(rng.In(0, 20));
        ScenarioAdd("%d ", o.ops.back());
      }
      ScenarioAdd("]");
      if (use_on) {
        o.so = so;
      } else {
        o.s = s;
      }
    }
    if (keep_root) {
      w.root = use_on ? SharedFuture<Val, Err>{so.GetCore()} : s;
    }
    const int subsume = source <= 1 ? rng.In(0, 5) : 0;
    s = {};
    so = {};
    std::deque<SharedFuture<Val, Err>> subshared;
    auto pre = [&] {  // SharedPromise-side observers, before Set
      if (subsume == 1) {
        sub.Down(yaclib::Share(sp), false);
      } else if (subsume == 2) {
        auto* p = sub.New("Share(promise,e)", false);
        sub.Down(yaclib::Share(sp, w.inl).Then(sub.FnCopy(p)).On(nullptr), false);
      } else if (subsume == 3) {
        auto f = yaclib::Split(sp);
        auto* p = sub.New("Split(promise).SubscribeInline", false);
        f.SubscribeInline(sub.FnConst(p));
        subshared.push_back(std::move(f));
      } else if (subsume == 4) {
        auto [f2, p2] = yaclib::MakeSharedContract<Val, Err>();
        yaclib::Connect(sp, std::move(p2));
        auto* p = sub.New("Connect(promise, shared promise)", false);
        f2.SubscribeInline(sub.FnConst(p));
        subshared.push_back(std::move(f2));
      } else if (subsume == 5) {
        auto [f2, p2] = yaclib::MakeContract<Val, Err>();
        auto* p = sub.New("Connect(promise, promise)", false);
        std::move(f2).DetachInline(sub.FnConst(p));
        yaclib::Connect(sp, std::move(p2));
      }
    };
    // do not let the fulfilling thread block on its own promise
    sub.rng.s = rng.Next();
    StartLine line{threads + 1};
    std::vector<Thread> ts;
    const bool by_drop = w.set == Out::Stop() && rng.Chance(1, 2);
    const int delay = rng.In(0, 3) * rng.In(0, 4);
    std::vector<Future<Val, Err>> sub_pending;
    ts.emplace_back([&] {
      line.Arrive();
      for (int i = 0; i != delay; ++i) {
        Point();
      }
      if (source <= 1) {
        auto saved = sub.rng;
        // Down() may pick a blocking Get: retry until it does not
        while (true) {
          auto probe = saved;
          if (probe.Below(4) != 0) {
            break;
          }
          saved.Next();
        }
        sub.rng = saved;
        pre();
        Point();
        if (id % 4 == 3) {  // Set that fails to build the value is no Set: the Promise can be fulfilled later
          bool thrown = false;
          try {
            if (id % 8 == 3) {
              std::move(sp).Set(BadArg{});
            } else {
              std::move(sp).Set(std::in_place, BadArg{});
            }
          } catch (const BadArg&) {
            thrown = true;
          }
          VH_CHECK(thrown && sp.Valid(), "C06", "promise-lost-by-throw", "Set threw (%d) and left the SharedPromise %s", thrown,
                   sp.Valid() ? "Valid" : "not Valid");
          Point();
        }
        begin();
        if (by_drop) {
          auto drop = std::move(sp);
        } else if (w.set.st == St::V && id % 2 == 1) {
          std::move(sp).Set(std::in_place, w.set.id);
        } else if (w.set.st == St::E && id % 2 == 1) {
          std::move(sp).Set(Err{w.set.id});
        } else if (w.set.st == St::X && id % 2 == 1) {
          std::move(sp).Set(BoomPtr(w.set.id));
        } else {
          std::move(sp).Set(MakeResult(w.set));
        }
      } else if (source != 4) {
        begin();
        if (by_drop) {
          auto drop = std::move(up);
        } else {
          std::move(up).Set(MakeResult(w.set));
        }
      } else {
        (void)static_cast<yaclib::ManualExecutor&>(*manual).Drain();
      }
    });
    for (auto& o : obs) {
      ts.emplace_back([&line, p = o.get()] {
        line.Arrive();
        p->Run();
      });
    }
    for (auto& t : ts) {
      t.join();
    }
    for (auto& f : sub.pending) {
      w.Same(std::move(f).Get(), "promise-side pending Get");
    }
    sub.pending.clear();
    for (auto& f : subshared) {
      w.Same(f.Get(), "promise-side shared Get");
    }
    subshared.clear();
    if (w.root.Valid()) {
      w.Same(w.root.Get(), "root Get const&");
      w.Same(std::move(w.root).Get(), "root Get&&");
    }
    w.root = {};
    if (use_pool) {
      pool->SoftStop();
      pool->Wait();
    }
    auto check = [&](Observer& o) {
      for (auto& p : o.probes) {
        VH_CHECK(p.fired == p.times, "C06", p.fired == 0 ? "observer-lost" : "observer-unexpected", "%s fired %d times, expected %d",
                 p.what, p.fired, p.times);
        VH_CHECK(p.times == 0 || p.seen == p.want, "C06", "observer-wrong", "%s saw %s, expected %s", p.what, p.seen.Str().c_str(),
                 p.want.Str().c_str());
        c.Note(static_cast<u64>(p.fired));
        Count("observers_fired", static_cast<u64>(p.fired));
      }
    };
    for (auto& o : obs) {
      check(*o);
    }
    check(sub);
  }
  pool = nullptr;
  CheckLedgers("C06,C03");
  VH_CHECK(w.inl.refs == 0 && w.pool.refs == 0 && w.reject.refs == 0, "C03,C06", "executor-leak", "executor references kept");
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Body);
}
