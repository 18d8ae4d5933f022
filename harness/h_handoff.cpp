// One producer, one consumer, every producer kind x consumer kind x executor kind (C01; also C03, C04, C05, C11).
#include "types.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>

#include <yaclib_std/chrono>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;

namespace {

struct MVal {  // move-only payload
  explicit MVal(BadArg b) : v{b} {
  }
  explicit MVal(u64 id) : v{id} {
  }
  MVal(MVal&&) noexcept = default;
  MVal& operator=(MVal&&) noexcept = default;
  Val v;
};

template <typename V>
Out ToOut(const Result<V, Err>& r) {
  if constexpr (std::is_same_v<V, MVal>) {
    if (r.State() == yaclib::ResultState::Value) {
      return {St::V, r.Value().v.Id()};
    } else if (r.State() == yaclib::ResultState::Error) {
      return {St::E, r.Error().Id()};
    } else if (r.State() == yaclib::ResultState::Exception) {
      return {St::X, BoomId(r.Exception())};
    }
    return {};
  } else {
    return MakeOut(r);
  }
}

enum PK { kSetV, kSetE, kSetX, kSetStop, kDrop, kAssignOver, kSetResult, kPKCount };
enum CK {
  kThenInline, kThen, kThenInherit, kDetach, kDetachInline, kDetachOn, kDetachInherit, kGet, kGetPoll, kWaitTouch, kConnect,
  kConnectShared, kDropF, kAssignF, kWaitForThen, kChain, kTouchPoll, kCKCount
};
const char* const kPN[] = {"SetV", "SetE", "SetX", "SetStop", "drop", "assign-over", "SetResult"};
const char* const kCN[] = {"ThenInline", "Then(e)", "Then()", "Detach()", "DetachInline", "Detach(e)", "Detach(f)",
                           "Get&&", "Get const& poll", "Wait+Touch", "Connect", "ConnectShared", "drop", "assign-over",
                           "WaitFor+X", "Chain", "Ready poll+Touch"};
// executor kinds
enum EK { kEInline, kETrackInline, kEPool, kEReject, kEStopped, kEKCount };
const char* const kEN[] = {"Inline", "TrackInline", "Pool", "Reject", "StoppedInline"};

constexpr u64 kSide = 0x51DE;

yaclib::IntrusivePtr<yaclib::FairThreadPool> gPool;
TrackExec gTrackInline, gTrackPool, gTrackReject;

yaclib::IExecutor& Exec(int ek) {
  switch (ek) {
    case kEInline:
      return yaclib::MakeInline();
    case kETrackInline:
      return gTrackInline;
    case kEPool:
      return gTrackPool;
    case kEReject:
      return gTrackReject;
    default:
      return yaclib::MakeInline(yaclib::StopTag{});
  }
}
bool Rejects(int ek) {
  return ek == kEReject || ek == kEStopped;
}
int ExpectExec(int ek) {
  return ek == kETrackInline ? 1 : ek == kEPool ? 2 : -2;  // -2: don't care
}

struct SlotBase {
  virtual ~SlotBase() = default;
  virtual void Produce() = 0;
  virtual void Consume() = 0;
  virtual void Finish() = 0;
};

template <typename V>
struct Slot final : SlotBase {
  int pk, ck, ek, fk, dk, polls;  // producer, consumer, executor of consumer, functor outcome, downstream, Ready polls
  bool on;                        // contract made by MakeContractOn(exec)
  u64 id;
  Out set;

  Promise<V, Err> p;
  Future<V, Err> f;
  FutureOn<V, Err> fo;

  std::atomic<bool> begun{false};
  u64 side = 0;
  int calls = 0;
  Out got;
  int ran_on = -1;
  int down_calls = 0;
  Out down;
  bool ready_seen = false;
  bool by_value = false;

  explicit Slot(Rng& rng, u64 id_) : id{id_} {
    pk = rng.In(0, kPKCount - 1);
    ck = rng.In(0, kCKCount - 1);
    ek = rng.In(0, kEKCount - 1);
    fk = rng.In(0, 3);
    dk = rng.In(0, 3);
    polls = rng.In(0, 2);
    on = rng.Chance(1, 3) || ck == kThenInherit || ck == kDetachInherit;
    by_value = rng.Chance(1, 2);
    switch (pk) {
      case kSetV:
        set = {St::V, std::is_void_v<V> ? 0 : id};
        break;
      case kSetE:
        set = {St::E, id};
        break;
      case kSetX:
        set = {St::X, id};
        break;
      case kSetResult:
        set = rng.Chance(1, 2) ? Out{St::E, id} : Out{St::X, id};
        break;
      default:
        set = Out::Stop();
    }
    if (on) {
      auto [a, b] = yaclib::MakeContractOn<V, Err>(Exec(ek));
      fo = std::move(a);
      p = std::move(b);
    } else {
      auto [a, b] = yaclib::MakeContract<V, Err>();
      f = std::move(a);
      p = std::move(b);
    }
    ScenarioAdd(" {%s %s->%s%s exec=%s f=%d down=%d polls=%d}", std::is_void_v<V> ? "void" : std::is_same_v<V, MVal> ? "mval" : "val",
                kPN[pk], kCN[ck], on ? "[On]" : "", kEN[ek], fk, dk, polls);
  }

  void Produce() final {
    side = kSide + id;
    Point();
    if constexpr (!std::is_void_v<V>) {
      if (id % 4 == 3) {  // Set that fails to build the value is no Set: the Promise can be fulfilled later
        bool thrown = false;
        try {
          if (id % 8 == 3) {
            std::move(p).Set(BadArg{});
          } else {
            std::move(p).Set(std::in_place, BadArg{});
          }
        } catch (const BadArg&) {
          thrown = true;
        }
        VH_CHECK(thrown && p.Valid(), "C01", "promise-lost-by-throw", "Set threw (%d) and left the Promise %s", thrown,
                 p.Valid() ? "Valid" : "not Valid");
        Point();
      }
    }
    begun.store(true, std::memory_order_relaxed);
    switch (pk) {
      case kSetV:
        if constexpr (std::is_void_v<V>) {
          std::move(p).Set();
        } else if constexpr (std::is_same_v<V, Val>) {
          if (by_value) {
            std::move(p).Set(Val{id});
          } else {
            std::move(p).Set(std::in_place, id);
          }
        } else {
          std::move(p).Set(V{id});
        }
        break;
      case kSetE:
        std::move(p).Set(Err{id});
        break;
      case kSetX:
        std::move(p).Set(BoomPtr(id));
        break;
      case kSetStop:
        std::move(p).Set(yaclib::StopTag{});
        break;
      case kSetResult:
        if (set.st == St::E) {
          std::move(p).Set(Result<V, Err>{Err{id}});
        } else {
          std::move(p).Set(Result<V, Err>{BoomPtr(id)});
        }
        break;
      case kDrop: {
        auto drop = std::move(p);
        break;
      }
      case kAssignOver: {
        Promise<V, Err> other;
        p = std::move(other);
        break;
      }
    }
    VH_CHECK(!p.Valid(), "C01", "promise-valid-after-set", "Promise is still Valid after it was fulfilled");
  }

  void Observed(const char* how) {
    VH_CHECK(begun.load(std::memory_order_relaxed), "C01,C11", "early", "%s observed completion before the producer began",
             how);
    VH_CHECK(side == kSide + id, "C01,C04,C11", "side-effect-invisible",
             "%s: what the producer wrote before fulfilling is not visible", how);
  }
  void Same(Out o, const char* how) {
    Observed(how);
    VH_CHECK(o == set, "C01", "wrong-result", "%s saw %s, the producer set %s", how, o.Str().c_str(), set.Str().c_str());
  }

  // functor body shared by all attached continuations
  template <typename R>
  void OnCall(R& r, bool executed_on) {
    Observed("continuation");
    got = ToOut<V>(r);
    ran_on = CurrentExec();
    (void)executed_on;
    ++calls;
    VH_CHECK(calls == 1, "C01", "continuation-twice", "an attached continuation was invoked %d times", calls);
  }

  Out FnOut() const {
    return fk == 0 ? Out{St::V, id + 7} : fk == 1 ? Out{St::E, id + 8} : fk == 2 ? Out{St::X, id + 9} : Out{St::V, id + 7};
  }
  Result<Val, Err> FnRun() {
    switch (fk) {
      case 0:
      case 3:
        return Result<Val, Err>{std::in_place, id + 7};
      case 1:
        return Result<Val, Err>{Err{id + 8}};
      default:
        ThrowBoom(id + 9);
    }
  }
  auto Fn(bool executed_on) {
    return [this, executed_on, t = FnToken{}](Result<V, Err>&& r) -> Result<Val, Err> {
      t.Touch();
      OnCall(r, executed_on);
      Point();
      return FnRun();
    };
  }
  auto FnVoid(bool executed_on) {
    return [this, executed_on, t = FnToken{}](Result<V, Err>&& r) {
      t.Touch();
      OnCall(r, executed_on);
      Point();
      if (fk == 2) {
        ThrowBoom(id + 9);
      }
    };
  }

  template <typename F>
  void Down(F&& future) {
    switch (dk) {
      case 0: {
        auto r = std::move(future).Get();
        down = MakeOut(r);
        ++down_calls;
        break;
      }
      case 1:
        std::move(future).DetachInline([this, t = FnToken{}](Result<Val, Err>&& r) {
          t.Touch();
          down = MakeOut(r);
          ++down_calls;
        });
        break;
      case 2: {
        auto drop = std::move(future);
        break;
      }
      case 3:
        while (!future.Ready()) {
          Point();
#if YACLIB_FAULT != 2
          std::this_thread::yield();
#endif
        }
        {
          const auto& cf = future;
          auto* ptr = cf.Get();
          VH_CHECK(ptr != nullptr, "C01", "ready-but-null", "Ready() but Get() const& returned null");
          down = MakeOut(*ptr);
          ++down_calls;
        }
        break;
    }
  }

  template <typename F>
  void Poll(F& future) {
    for (int i = 0; i != polls; ++i) {
      if (future.Ready()) {
        ready_seen = true;
        const auto& cf = future;
        auto* r = cf.Get();
        VH_CHECK(r != nullptr, "C01", "ready-but-null", "Ready() but Get() const& returned null");
        Same(ToOut<V>(*r), "Get const& after Ready");
        Same(ToOut<V>(cf.Touch()), "Touch const& after Ready");
      } else {
        VH_CHECK(!ready_seen, "C01", "ready-unset", "Ready() went back to false");
      }
      Point();
    }
  }

  template <typename F>
  void ConsumeImpl(F& future) {
    constexpr bool kOn = std::is_same_v<F, FutureOn<V, Err>>;
    Poll(future);
    switch (ck) {
      case kThenInline:
        Down(std::move(future).ThenInline(Fn(false)));
        break;
      case kThen:
        Down(std::move(future).Then(Exec(ek), Fn(true)));
        break;
      case kThenInherit:
        if constexpr (kOn) {
          Down(std::move(future).Then(Fn(true)));
        }
        break;
      case kDetach:
        std::move(future).Detach();
        break;
      case kDetachInline:
        std::move(future).DetachInline(FnVoid(false));
        break;
      case kDetachOn:
        std::move(future).Detach(Exec(ek), FnVoid(true));
        break;
      case kDetachInherit:
        if constexpr (kOn) {
          std::move(future).Detach(FnVoid(true));
        }
        break;
      case kGet:
        Same(ToOut<V>(std::move(future).Get()), "Get&&");
        break;
      case kGetPoll: {
        const auto& cf = future;
        const Result<V, Err>* r = nullptr;
        while ((r = cf.Get()) == nullptr) {
          Point();
#if YACLIB_FAULT != 2
          std::this_thread::yield();
#endif
        }
        Same(ToOut<V>(*r), "Get const&");
        if (dk == 0) {
          Same(ToOut<V>(std::move(future).Get()), "Get&& after Get const&");
        }
        break;
      }
      case kTouchPoll:
        while (!future.Ready()) {
          Point();
#if YACLIB_FAULT != 2
          std::this_thread::yield();
#endif
        }
        Same(ToOut<V>(std::move(future).Touch()), "Touch&& after Ready");
        break;
      case kWaitTouch:
        yaclib::Wait(future);
        VH_CHECK(future.Ready(), "C01,C11", "wait-not-ready", "Wait returned but the future is not Ready");
        Same(ToOut<V>(std::as_const(future).Touch()), "Touch const& after Wait");
        if (dk == 0) {
          yaclib::Wait(future);
        }
        Same(ToOut<V>(std::move(future).Touch()), "Touch&& after Wait");
        break;
      case kConnect: {
        auto [f2, p2] = yaclib::MakeContract<V, Err>();
        if (dk == 0) {
          yaclib::Connect(std::move(future), std::move(p2));
          Same(ToOut<V>(std::move(f2).Get()), "Get of connected");
        } else if (dk == 1) {
          std::move(f2).DetachInline(FnVoid(false));
          yaclib::Connect(std::move(future), std::move(p2));
        } else if (dk == 2) {
          yaclib::Connect(std::move(future), std::move(p2));
          auto drop = std::move(f2);
        } else {
          yaclib::Connect(std::move(future), std::move(p2));
          Point();
          std::move(f2).DetachInline(FnVoid(false));
        }
        break;
      }
      case kConnectShared:
        if constexpr (!std::is_same_v<V, MVal>) {
          auto [f2, p2] = yaclib::MakeSharedContract<V, Err>();
          yaclib::Connect(std::move(future), std::move(p2));
          Same(ToOut<V>(f2.Get()), "Get of connected SharedFuture");
          if (dk == 0) {
            Same(ToOut<V>(std::move(f2).Get()), "Get&& of connected SharedFuture");
          }
        } else {
          Same(ToOut<V>(std::move(future).Get()), "Get&&");
        }
        break;
      case kDropF: {
        auto drop = std::move(future);
        break;
      }
      case kAssignF: {
        F other;
        future = std::move(other);
        break;
      }
      case kWaitForThen: {
        bool ok = yaclib::WaitFor(std::chrono::microseconds{polls * 20}, future);
        if (ok) {
          VH_CHECK(future.Ready(), "C11,C01", "waitfor-true-not-ready", "WaitFor returned true but not Ready");
          Same(ToOut<V>(std::as_const(future).Touch()), "Touch const& after WaitFor");
        }
        if (dk == 0) {
          Same(ToOut<V>(std::move(future).Get()), "Get after WaitFor");
        } else if (dk == 1) {
          std::move(future).DetachInline(FnVoid(false));
        } else if (dk == 2) {
          auto drop = std::move(future);
        } else {
          yaclib::Wait(future);
          Same(ToOut<V>(std::move(future).Touch()), "Touch after WaitFor+Wait");
        }
        break;
      }
      case kChain: {
        auto first = std::move(future).ThenInline(Fn(false));
        Point();
        auto second = std::move(first).ThenInline([t = FnToken{}](Result<Val, Err>&& r) {
          t.Touch();
          return std::move(r);
        });
        Point();
        Down(std::move(second));
        break;
      }
    }
  }

  void Consume() final {
    Point();
    if (on) {
      ConsumeImpl(fo);
    } else {
      ConsumeImpl(f);
    }
  }

  void Finish() final {
    VH_CHECK(!f.Valid() || ck == kGetPoll, "C01", "future-valid", "future still valid");
    const bool executed = ck == kThen || ck == kThenInherit || ck == kDetachOn || ck == kDetachInherit;
    const bool attached = executed || ck == kThenInline || ck == kDetachInline || ck == kChain ||
                          (ck == kConnect && (dk == 1 || dk == 3)) || (ck == kWaitForThen && dk == 1);
    VH_CHECK(calls == (attached ? 1 : 0), "C01", attached ? "continuation-lost" : "continuation-unexpected",
             "continuation invoked %d times, expected %d", calls, attached ? 1 : 0);
    if (attached) {
      Out want = executed && Rejects(ek) ? Out::Stop() : set;
      VH_CHECK(got == want, executed && Rejects(ek) ? "C05" : "C01", "wrong-argument", "continuation got %s, expected %s",
               got.Str().c_str(), want.Str().c_str());
      if (executed && ExpectExec(ek) != -2) {
        VH_CHECK(ran_on == ExpectExec(ek), "C05,C01", "wrong-executor", "continuation ran on executor %d, expected %d", ran_on,
                 ExpectExec(ek));
      }
    }
    const bool down_on = ck == kThenInline || ck == kThen || ck == kThenInherit || ck == kChain;
    if (down_on) {
      VH_CHECK(down_calls == (dk == 2 ? 0 : 1), "C01", "downstream-lost", "downstream observed %d times", down_calls);
      if (dk != 2) {
        VH_CHECK(down == FnOut(), "C01,C02", "downstream-wrong", "downstream got %s, expected %s", down.Str().c_str(),
                 FnOut().Str().c_str());
      }
    }
    f = {};
    fo = {};
  }
};

SlotBase* MakeSlot(Rng& rng, u64 id) {
  switch (rng.Below(4)) {
    case 0:
      return new Slot<void>{rng, id};
    case 1:
      return new Slot<MVal>{rng, id};
    default:
      return new Slot<Val>{rng, id};
  }
}

void Body(Case& c) {
  ResetExecStacks();
  Scenario("handoff:");
  const int n = kFiber ? c.rng.In(1, 2) : 24;
  const bool pool = kFiber ? c.rng.Chance(2, 3) : true;
  if (pool) {
    gPool = yaclib::MakeFairThreadPool(static_cast<u64>(c.rng.In(1, 2)));
  }
  gTrackInline.Init(1, nullptr);
  gTrackPool.Init(2, pool ? gPool.Get() : nullptr);
  gTrackReject.Init(3, nullptr, 0);
  std::vector<std::unique_ptr<SlotBase>> slots;
  for (int i = 0; i != n; ++i) {
    slots.emplace_back(MakeSlot(c.rng, 100 + static_cast<u64>(i) * 20));
  }
  const bool reverse = c.rng.Chance(1, 4) && n > 1 && kFiber;
  StartLine line{2};
  {
    Thread producer{[&] {
      line.Arrive();
      for (auto& s : slots) {
        s->Produce();
        Point();
      }
    }};
    Thread consumer{[&] {
      line.Arrive();
      if (reverse) {
        for (auto it = slots.rbegin(); it != slots.rend(); ++it) {
          (*it)->Consume();
        }
      } else {
        for (auto& s : slots) {
          s->Consume();
        }
      }
    }};
    producer.join();
    consumer.join();
  }
  if (pool) {
    gPool->SoftStop();
    gPool->Wait();
  }
  for (auto& s : slots) {
    s->Finish();
  }
  slots.clear();
  gPool = nullptr;
  CheckLedgers("C01,C03");
  VH_CHECK(gTrackInline.refs == 0 && gTrackPool.refs == 0 && gTrackReject.refs == 0, "C03", "executor-leak",
           "executor references not released");
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Body);
}
