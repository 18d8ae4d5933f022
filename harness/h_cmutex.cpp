// yaclib::Mutex (mode mutex, C14) and yaclib::SharedMutex (mode shared, C15) under coroutines on several executors.
#include "types.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/guard.hpp>
#include <yaclib/coro/guard_sticky.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>

#include <deque>

using namespace vh;
using yaclib::Future;
using yaclib::Promise;
using yaclib::SharedGuard;
using yaclib::StickyGuard;
using yaclib::Task;
using yaclib::UniqueGuard;

namespace {

struct Live {
  FnToken t;
};

// One lock request
struct Req {
  int who = 0;
  const char* how = "";
  bool shared = false;
  bool attempt = false;               // Try form
  u64 start = 0;                      // before the request
  std::atomic<u64> arrived{~0ull};    // surely queued (the resumer of the coroutine got control back)
  u64 granted = 0;
};

// requests of coroutines this thread (fiber) is executing which may be suspended on the lock now
std::vector<Req*>& Awaiting() {
  return PerThread<struct AwaitingTag, std::vector<Req*>>();
}
// called where no coroutine runs on this thread: everything it was executing has been suspended or finished
void Stamp() {
  auto& a = Awaiting();
  if (a.empty()) {
    return;
  }
  auto now = Now();
  for (auto* r : a) {
    u64 old = r->arrived.load(std::memory_order_relaxed);
    if (now < old) {
      r->arrived.store(now, std::memory_order_relaxed);
    }
  }
  a.clear();
}

// Executor which knows when a job returned
class Exec final : public yaclib::IExecutor {
 public:
  void Init(int id, yaclib::IExecutor* inner) {
    _id = id;
    _inner = inner;
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return true;
  }
  void Submit(yaclib::Job& job) noexcept final {
    ++n;
    _inner->Submit(*new Wrap{*this, job});
  }
  void IncRef() noexcept final {
    refs.fetch_add(1, std::memory_order_relaxed);
  }
  void DecRef() noexcept final {
    auto r = refs.fetch_sub(1, std::memory_order_relaxed) - 1;
    VH_CHECK(r >= 0, "C03,C05,C14,C15", "executor-over-released", "executor %d released more often than retained", _id);
  }
  std::size_t GetRef() noexcept final {
    return 1;
  }
  std::atomic<int> refs{0};
  std::atomic<int> n{0};

 private:
  struct Wrap final : yaclib::Job {
    Wrap(Exec& s, yaclib::Job& j) noexcept : self{s}, job{j} {
    }
    void Call() noexcept final {
      auto& j = job;
      auto id = self._id;
      delete this;
      ExecStack().push_back(id);
      j.Call();
      ExecStack().pop_back();
      Stamp();
    }
    void Drop() noexcept final {
      Fail("*", "job-dropped", "a job was dropped by a live executor");
    }
    Exec& self;
    yaclib::Job& job;
  };
  int _id = 0;
  yaclib::IExecutor* _inner = nullptr;
};

constexpr int kExecs = 4;

struct Base {
  const char* prop = "C14";
  Exec ex[kExecs];
  int execs = 1;
  std::deque<Req> reqs;
  yaclib_std::mutex reqs_m;
  // critical section monitors: plain on purpose, the lock under test is what protects them
  u64 data = 0;
  u64 shadow = 0;
  // detection of overlap
  std::atomic<int> writers{0};
  std::atomic<int> readers{0};
  std::atomic<u64> entered{0};
  std::atomic<int> max_readers{0};
  // futures a critical section may wait for
  std::deque<Future<>> gates;
  std::atomic<int> done{0};

  Req* New(int who, const char* how, bool shared, bool attempt) {
    std::lock_guard lock{reqs_m};
    auto& r = reqs.emplace_back();
    r.who = who;
    r.how = how;
    r.shared = shared;
    r.attempt = attempt;
    return &r;
  }
  Future<> Gate() {
    std::lock_guard lock{reqs_m};
    if (gates.empty()) {
      return {};
    }
    auto f = std::move(gates.back());
    gates.pop_back();
    return f;
  }

  void EnterUnique(Req* r) {
    r->granted = Now();
    auto w = writers.fetch_add(1, std::memory_order_relaxed);
    auto rd = readers.load(std::memory_order_relaxed);
    VH_CHECK(w == 0, prop, "overlap", "worker %d entered exclusively by %s while another exclusive holder is inside", r->who,
             r->how);
    VH_CHECK(rd == 0, prop, "overlap-readers", "worker %d entered exclusively by %s while %d readers are inside", r->who,
             r->how, rd);
    VH_CHECK(data == shadow, prop, "stale-data", "worker %d sees torn/stale data of the previous critical section", r->who);
    ++data;
    entered.fetch_add(1, std::memory_order_relaxed);
  }
  void LeaveUnique(Req* r) {
    ++shadow;
    VH_CHECK(data == shadow, prop, "overlap", "worker %d: data changed during its critical section", r->who);
    auto w = writers.fetch_sub(1, std::memory_order_relaxed);
    VH_CHECK(w == 1 && readers.load(std::memory_order_relaxed) == 0, prop, "overlap", "worker %d (%s) was not alone", r->who,
             r->how);
  }
  void EnterShared(Req* r) {
    r->granted = Now();
    auto n = readers.fetch_add(1, std::memory_order_relaxed) + 1;
    if (n > max_readers.load(std::memory_order_relaxed)) {
      max_readers.store(n, std::memory_order_relaxed);
    }
    VH_CHECK(writers.load(std::memory_order_relaxed) == 0, prop, "overlap-writer",
             "worker %d entered shared by %s while a writer is inside", r->who, r->how);
    VH_CHECK(data == shadow, prop, "stale-data", "worker %d (%s) sees torn/stale data", r->who, r->how);
    entered.fetch_add(1, std::memory_order_relaxed);
  }
  void LeaveShared(Req* r) {
    VH_CHECK(data == shadow, prop, "overlap-writer", "worker %d: data changed during its shared section", r->who);
    VH_CHECK(writers.load(std::memory_order_relaxed) == 0, prop, "overlap-writer", "worker %d: a writer is inside", r->who);
    readers.fetch_sub(1, std::memory_order_relaxed);
  }
};

template <typename M>
struct World : Base {
  M* m = nullptr;
  M* m2 = nullptr;  // never locked, guards are swapped with guards of it
};

void Begin(Req* r) {
  Awaiting().push_back(r);
  r->start = Now();
}

int Find(Base& w, const yaclib::IExecutor& e) {
  for (int i = 0; i != kExecs; ++i) {
    if (&w.ex[i] == &e) {
      return i;
    }
  }
  return -1;
}

// body of a critical section: may suspend while holding the lock
#define VH_INSIDE()                                                          \
  do {                                                                       \
    Point();                                                                 \
    auto inside = rng.Below(10);                                             \
    if (inside == 0) {                                                       \
      co_await yaclib::On(w.ex[rng.Below(static_cast<u64>(w.execs))]);       \
    } else if (inside == 1 && on_exec) {                                     \
      co_await yaclib::kYield;                                               \
    } else if (inside == 2) {                                                \
      auto gate = w.Gate();                                                  \
      if (gate.Valid()) {                                                    \
        co_await Await(gate);                                                \
      }                                                                      \
    } else if (inside == 3) {                                                \
      Point();                                                               \
      Point();                                                               \
    }                                                                        \
  } while (false)

// Guards built from a mutex in every way, then moved, swapped and released in every way
template <typename G, bool Shared, typename M>
Future<> GuardForms(World<M>& w, int id, u64 seed) {
  Rng rng{seed};
  Base& b = w;
  auto enter = [&](Req* r) {
    if constexpr (Shared) {
      b.EnterShared(r);
    } else {
      b.EnterUnique(r);
    }
  };
  auto leave = [&](Req* r) {
    if constexpr (Shared) {
      b.LeaveShared(r);
    } else {
      b.LeaveUnique(r);
    }
  };
  auto is = [&](const G& g, const void* m, bool owns, const char* what) {
    VH_CHECK(g.OwnsLock() == owns && static_cast<bool>(g) == owns && g.Mutex() == m, w.prop, "guard-state",
             "worker %d: guard after %s: owns %d (want %d), mutex %s", id, what, g.OwnsLock(), owns,
             g.Mutex() == m ? "right" : "wrong");
  };
  const void* m = w.m;
  Req* r = nullptr;
  G g;
  is(g, nullptr, false, "default construction");
  bool got = true;
  const auto ctor = rng.Below(4);
  if (ctor == 0) {
    r = w.New(id, "guard{defer}.Lock", Shared, false);
    G d{*w.m, std::defer_lock};
    is(d, m, false, "defer_lock");
    Point();
    Begin(r);
    co_await d.Lock();
    is(d, m, true, "Lock");
    enter(r);
    g = std::move(d);
  } else if (ctor == 1) {
    r = w.New(id, "guard{try_to_lock}", Shared, true);
    r->start = Now();
    G d{*w.m, std::try_to_lock};
    is(d, m, d.OwnsLock(), "try_to_lock");
    got = d.OwnsLock();
    if (got) {
      enter(r);
    }
    g.Swap(d);
  } else if (ctor == 2) {
    r = w.New(id, "guard{adopt_lock}", Shared, false);
    Begin(r);
    if constexpr (Shared) {
      co_await w.m->LockShared();
    } else {
      co_await w.m->Lock();
    }
    enter(r);
    G d{*w.m, std::adopt_lock};
    is(d, m, true, "adopt_lock");
    g = std::move(d);
    is(d, nullptr, false, "being moved from by assignment");
  } else {
    r = w.New(id, "guard{defer}.TryLock", Shared, true);
    G d{*w.m, std::defer_lock};
    r->start = Now();
    got = d.TryLock();
    is(d, m, got, "TryLock");
    if (got) {
      enter(r);
    }
    g = std::move(d);
  }
  is(g, m, got, "move assignment");
  Point();
  if (!got) {
    co_return {};
  }
  if (rng.Chance(1, 2)) {
    G other{*w.m2, std::defer_lock};
    g.Swap(other);
    is(g, w.m2, false, "Swap");
    is(other, m, true, "Swap");
    g = std::move(other);
    is(g, m, true, "assignment of a locked guard to a guard of another mutex");
    Point();
  }
  if (rng.Chance(1, 3)) {
    G to{std::move(g)};
    is(to, m, true, "move construction");
    VH_CHECK(!g.OwnsLock(), w.prop, "guard-state", "worker %d: a guard owns after it was moved from", id);
    Point();
    leave(r);
    if (rng.Chance(1, 2)) {
      to.UnlockHere();
      is(to, m, false, "UnlockHere");
    }
    co_return {};
  }
  leave(r);
  const auto how = rng.Below(4);
  if (how == 0) {
    G none;
    g = std::move(none);  // swap: released with `none`
    is(g, nullptr, false, "assignment of an empty guard");
  } else if (how == 1) {
    auto* raw = g.Release();
    is(g, nullptr, false, "Release");
    VH_CHECK(raw == w.m, w.prop, "guard-state", "worker %d: Release returns another mutex", id);
    G again{*raw, std::adopt_lock};
  } else if (how == 2) {
    g.UnlockHere();
    is(g, m, false, "UnlockHere");
  }
  co_return {};
}

template <typename RT, typename M>
RT MutexWorker(World<M>& w, int id, u64 seed, int rounds, int start_exec, Live live) {
  Rng rng{seed};
  Live local;
  if (start_exec >= 0) {
    co_await yaclib::On(w.ex[start_exec]);
  }
  bool on_exec = start_exec >= 0;
  for (int k = 0; k != rounds; ++k) {
    if (rng.Chance(1, 4)) {
      co_await yaclib::On(w.ex[rng.Below(static_cast<u64>(w.execs))]);
      on_exec = true;
    }
    Point();
    auto& before = co_await yaclib::CurrentExecutor();
    auto to = static_cast<int>(rng.Below(static_cast<u64>(w.execs)));
    auto release = rng.Below(6);
    auto on_check = [&](const char* how, const yaclib::IExecutor& cur) {
      VH_CHECK(&cur == &w.ex[to], "C14,C05", "wrong-executor", "after %s worker %d has executor %d, want %d", how, id,
               Find(w, cur), to);
      VH_CHECK(CurrentExec() == to, "C14,C05", "wrong-place", "after %s worker %d runs in executor %d, want %d", how, id,
               CurrentExec(), to);
    };
    switch (rng.Below(8)) {
      case 7: {
        co_await GuardForms<UniqueGuard<M>, false>(w, id, rng.Next());
        // the nested coroutine finished wherever the lock let it go on
        on_exec = false;
        break;
      }
      case 0:
      case 1: {
        auto* r = w.New(id, "Lock", false, false);
        Begin(r);
        co_await w.m->Lock();
        w.EnterUnique(r);
        VH_INSIDE();
        w.LeaveUnique(r);
        if (release <= 1) {
          co_await w.m->Unlock();
        } else if (release <= 3) {
          co_await w.m->UnlockOn(w.ex[to]);
          on_check("UnlockOn", co_await yaclib::CurrentExecutor());
          on_exec = true;
        } else {
          w.m->UnlockHere();
        }
        break;
      }
      case 2: {
        auto* r = w.New(id, "TryLock", false, true);
        r->start = Now();
        if (w.m->TryLock()) {
          w.EnterUnique(r);
          VH_INSIDE();
          w.LeaveUnique(r);
          if (release <= 2) {
            co_await w.m->Unlock();
          } else {
            w.m->UnlockHere();
          }
        }
        break;
      }
      case 3:
      case 4: {
        auto* r = w.New(id, "Guard", false, false);
        Begin(r);
        auto g = co_await w.m->Guard();
        VH_CHECK(g.OwnsLock() && g.Mutex() == w.m, "C14", "guard-state", "guard does not own its mutex after Guard()");
        w.EnterUnique(r);
        VH_INSIDE();
        w.LeaveUnique(r);
        if (release == 0) {
          co_await g.Unlock();
          VH_CHECK(!g.OwnsLock(), "C14", "guard-state", "guard owns after Unlock");
        } else if (release == 1) {
          co_await g.UnlockOn(w.ex[to]);
          on_check("guard.UnlockOn", co_await yaclib::CurrentExecutor());
          on_exec = true;
        } else if (release == 2) {
          g.UnlockHere();
        } else if (release == 3) {
          auto g2 = std::move(g);
          Point();
          VH_CHECK(!g.OwnsLock() && g2.OwnsLock(), "C14", "guard-state", "moved guard state");
        } else if (release == 4) {
          g.UnlockHere();
          if (rng.Chance(1, 2)) {  // and again through the same guard
            auto* r2 = w.New(id, "guard.Lock", false, false);
            Begin(r2);
            co_await g.Lock();
            w.EnterUnique(r2);
            VH_INSIDE();
            w.LeaveUnique(r2);
            co_await g.Unlock();
          } else {
            auto* r2 = w.New(id, "guard.TryLock", false, true);
            r2->start = Now();
            if (g.TryLock()) {
              w.EnterUnique(r2);
              VH_INSIDE();
              w.LeaveUnique(r2);
            }
          }
        } else if (rng.Chance(1, 2)) {
          auto* m = g.Release();
          VH_CHECK(m == w.m && !g.OwnsLock(), "C14", "guard-state", "Release");
          co_await m->Unlock();
        }
        break;
      }
      case 5: {
        auto* r = w.New(id, "TryGuard", false, true);
        r->start = Now();
        auto g = w.m->TryGuard();
        if (g) {
          w.EnterUnique(r);
          VH_INSIDE();
          w.LeaveUnique(r);
          if (release <= 2) {
            co_await g.Unlock();
          }
        }
        break;
      }
      default: {
        auto* r = w.New(id, "GuardSticky", false, false);
        const auto own = Find(w, before);
        Begin(r);
        auto g = co_await w.m->GuardSticky();
        w.EnterUnique(r);
        const bool moved = rng.Chance(1, 4);
        if (moved) {
          VH_INSIDE();
        } else {
          Point();
        }
        w.LeaveUnique(r);
        if (release <= 3 && !moved && own >= 0) {
          const auto via = rng.Below(5);
          if (via == 0) {
            auto g2 = std::move(g);
            VH_CHECK(g2.OwnsLock() && !g.OwnsLock() && g2.Mutex() == w.m, "C14", "guard-state", "moved sticky guard");
            co_await g2.Unlock();
            VH_CHECK(!g2.OwnsLock(), "C14", "guard-state", "sticky guard owns after Unlock");
            g = std::move(g2);
          } else if (via == 1) {
            StickyGuard<M> g2{*w.m2, std::defer_lock};
            if (rng.Chance(1, 2)) {
              g2 = std::move(g);
            } else {
              g2.Swap(g);
            }
            VH_CHECK(g2.OwnsLock() && !g.OwnsLock() && g2.Mutex() == w.m, "C14", "guard-state", "swapped sticky guard");
            co_await g2.Unlock();
            g = std::move(g2);
          } else {
            co_await g.Unlock();
          }
          auto& cur = co_await yaclib::CurrentExecutor();
          VH_CHECK(&cur == &before, "C14,C13,C05", "sticky-wrong-executor",
                   "after sticky Unlock worker %d has executor %d, want %d", id, Find(w, cur), own);
          if (on_exec) {
            VH_CHECK(CurrentExec() == own, "C14,C13,C05", "sticky-wrong-place",
                     "after sticky Unlock worker %d runs in executor %d, want %d", id, CurrentExec(), own);
          }
          if (release == 3) {
            auto* r2 = w.New(id, "sticky guard.Lock", false, false);
            Begin(r2);
            co_await g.Lock();
            w.EnterUnique(r2);
            Point();
            w.LeaveUnique(r2);
            co_await g.Unlock();
            auto& cur2 = co_await yaclib::CurrentExecutor();
            VH_CHECK(&cur2 == &before, "C14,C13,C05", "sticky-wrong-executor",
                     "after the second sticky Unlock worker %d has executor %d, want %d", id, Find(w, cur2), own);
          }
        } else if (release == 4) {
          co_await g.UnlockOn(w.ex[to]);
          on_check("sticky guard.UnlockOn", co_await yaclib::CurrentExecutor());
          on_exec = true;
        } else if (release == 5) {
          g.UnlockHere();
        }
      }
    }
    // after a plain release or a batched grant the place is whatever the lock chose
    if (on_exec) {
      auto& cur = co_await yaclib::CurrentExecutor();
      on_exec = Find(w, cur) >= 0 && CurrentExec() == Find(w, cur);
    }
  }
  live.t.Touch();
  local.t.Touch();
  w.done.fetch_add(1, std::memory_order_relaxed);
  co_return {};
}

template <typename RT, typename M>
RT SharedWorker(World<M>& w, int id, u64 seed, int rounds, int start_exec, Live live) {
  Rng rng{seed};
  Live local;
  if (start_exec >= 0) {
    co_await yaclib::On(w.ex[start_exec]);
  }
  bool on_exec = start_exec >= 0;
  const auto style = rng.Below(4);  // mostly readers, mostly writers, mixed
  for (int k = 0; k != rounds; ++k) {
    if (rng.Chance(1, 4)) {
      co_await yaclib::On(w.ex[rng.Below(static_cast<u64>(w.execs))]);
      on_exec = true;
    }
    Point();
    if (rng.Chance(1, 6)) {
      if (style == 0 || (style != 1 && rng.Chance(1, 2))) {
        co_await GuardForms<SharedGuard<M>, true>(w, id, rng.Next());
      } else {
        co_await GuardForms<UniqueGuard<M>, false>(w, id, rng.Next());
      }
      on_exec = false;
      continue;
    }
    const bool shared = style == 0 ? rng.Chance(7, 8) : style == 1 ? rng.Chance(1, 8) : rng.Chance(1, 2);
    auto form = rng.Below(6);
    auto release = rng.Below(4);
    if (shared) {
      if (form <= 2) {
        auto* r = w.New(id, "LockShared", true, false);
        Begin(r);
        co_await w.m->LockShared();
        w.EnterShared(r);
        VH_INSIDE();
        w.LeaveShared(r);
        w.m->UnlockHereShared();
      } else if (form == 3) {
        auto* r = w.New(id, "GuardShared", true, false);
        Begin(r);
        auto g = co_await w.m->GuardShared();
        w.EnterShared(r);
        VH_INSIDE();
        w.LeaveShared(r);
        if (release == 0) {
          g.UnlockHere();
          auto* r2 = w.New(id, "shared guard.Lock", true, false);
          Begin(r2);
          co_await g.Lock();
          w.EnterShared(r2);
          Point();
          w.LeaveShared(r2);
        } else if (release == 1) {
          auto g2 = std::move(g);
        } else if (release == 2) {
          g.Release()->UnlockHereShared();
        }
      } else if (form == 4) {
        auto* r = w.New(id, "TryLockShared", true, true);
        r->start = Now();
        if (w.m->TryLockShared()) {
          w.EnterShared(r);
          VH_INSIDE();
          w.LeaveShared(r);
          w.m->UnlockHereShared();
        }
      } else {
        auto* r = w.New(id, "TryGuardShared", true, true);
        r->start = Now();
        auto g = w.m->TryGuardShared();
        if (g) {
          w.EnterShared(r);
          VH_INSIDE();
          w.LeaveShared(r);
        }
      }
    } else {
      if (form <= 2) {
        auto* r = w.New(id, "Lock", false, false);
        Begin(r);
        co_await w.m->Lock();
        w.EnterUnique(r);
        VH_INSIDE();
        w.LeaveUnique(r);
        w.m->UnlockHere();
      } else if (form == 3) {
        auto* r = w.New(id, "Guard", false, false);
        Begin(r);
        auto g = co_await w.m->Guard();
        w.EnterUnique(r);
        VH_INSIDE();
        w.LeaveUnique(r);
        if (release == 0) {
          g.UnlockHere();
          auto* r2 = w.New(id, "guard.TryLock", false, true);
          r2->start = Now();
          if (g.TryLock()) {
            w.EnterUnique(r2);
            Point();
            w.LeaveUnique(r2);
          }
        } else if (release == 1) {
          g.UnlockHere();
          auto* r2 = w.New(id, "guard.Lock", false, false);
          Begin(r2);
          co_await g.Lock();
          w.EnterUnique(r2);
          Point();
          w.LeaveUnique(r2);
        }
      } else if (form == 4) {
        auto* r = w.New(id, "TryLock", false, true);
        r->start = Now();
        if (w.m->TryLock()) {
          w.EnterUnique(r);
          VH_INSIDE();
          w.LeaveUnique(r);
          w.m->UnlockHere();
        }
      } else {
        auto* r = w.New(id, "TryGuard", false, true);
        r->start = Now();
        auto g = w.m->TryGuard();
        if (g) {
          w.EnterUnique(r);
          VH_INSIDE();
          w.LeaveUnique(r);
        }
      }
    }
    if (on_exec) {
      auto& cur = co_await yaclib::CurrentExecutor();
      on_exec = Find(w, cur) >= 0 && CurrentExec() == Find(w, cur);
    }
  }
  live.t.Touch();
  local.t.Touch();
  w.done.fetch_add(1, std::memory_order_relaxed);
  co_return {};
}

template <typename T>
struct IsShared : std::false_type {};
template <bool A, bool B>
struct IsShared<yaclib::SharedMutex<A, B>> : std::true_type {};

template <typename M>
void Run(Case& c, const char* variant, bool fifo) {
  constexpr bool kShared = IsShared<M>::value;
  auto& rng = c.rng;
  ResetExecStacks();
  World<M> w;
  w.prop = kShared ? "C15" : "C14";
  auto a = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 3)));
  auto b = yaclib::MakeFairThreadPool(1);
  auto sa = yaclib::MakeStrand(a);
  auto sb = yaclib::MakeStrand(a);
  w.ex[0].Init(0, a.Get());
  w.ex[1].Init(1, b.Get());
  w.ex[2].Init(2, sa.Get());
  w.ex[3].Init(3, sb.Get());
  w.execs = rng.In(1, kExecs);
  if (rng.Chance(1, 4)) {  // a single-thread executor only
    w.execs = 1;
    w.ex[0].Init(0, b.Get());
  }
  w.m = new M;
  w.m2 = new M;
  const int n = rng.In(2, kShared ? 7 : 6);
  const int rounds = rng.Pick({1, 1, 2, 3, 4});
  const int launchers = rng.In(1, 3);
  const int plain = rng.Chance(1, 3) ? 1 : 0;
  const int gates = rng.In(0, 2);
  std::vector<Promise<>> gate_p;
  for (int i = 0; i != gates; ++i) {
    auto [f, p] = yaclib::MakeContract<>();
    w.gates.push_back(std::move(f));
    gate_p.push_back(std::move(p));
  }
  Scenario("%s workers=%d rounds=%d launchers=%d execs=%d plain=%d gates=%d", variant, n, rounds, launchers, w.execs, plain,
           gates);
  struct Start {
    u64 seed;
    int exec;
    int kind;
  };
  std::vector<Start> starts;
  for (int i = 0; i != n; ++i) {
    starts.push_back({rng.Next(), rng.Chance(1, 3) ? -1 : static_cast<int>(rng.Below(static_cast<u64>(w.execs))),
                      static_cast<int>(rng.Below(3))});
    ScenarioAdd(" %d", starts.back().exec);
  }
  std::vector<std::vector<Future<>>> futures(static_cast<std::size_t>(launchers));
  StartLine line{launchers + plain + 1};
  std::vector<Thread> threads;
  for (int l = 0; l != launchers; ++l) {
    threads.emplace_back([&, l] {
      line.Arrive();
      for (int i = l; i < n; i += launchers) {
        auto& s = starts[static_cast<std::size_t>(i)];
        auto& out = futures[static_cast<std::size_t>(l)];
        if (s.kind == 0) {
          if constexpr (kShared) {
            out.push_back(SharedWorker<Task<>>(w, i, s.seed, rounds, s.exec, {}).ToFuture());
          } else {
            out.push_back(MutexWorker<Task<>>(w, i, s.seed, rounds, s.exec, {}).ToFuture());
          }
        } else {
          if constexpr (kShared) {
            out.push_back(SharedWorker<Future<>>(w, i, s.seed, rounds, s.exec, {}));
          } else {
            out.push_back(MutexWorker<Future<>>(w, i, s.seed, rounds, s.exec, {}));
          }
        }
        Stamp();
        Point();
      }
      for (auto& f : futures[static_cast<std::size_t>(l)]) {
        auto r = std::move(f).Get();
        VH_CHECK(r.State() == yaclib::ResultState::Value, w.prop, "worker-failed", "a worker did not finish normally");
      }
    });
  }
  const u64 plain_seed = rng.Next();
  if (plain != 0) {  // a thread without coroutines uses the Try forms
    threads.emplace_back([&] {
      Rng r2{plain_seed};
      line.Arrive();
      for (int k = 0; k != 3; ++k) {
        Point();
        if constexpr (kShared) {
          if (r2.Chance(1, 2)) {
            auto* r = w.New(100, "TryLockShared (thread)", true, true);
            r->start = Now();
            if (w.m->TryLockShared()) {
              w.EnterShared(r);
              Point();
              w.LeaveShared(r);
              w.m->UnlockHereShared();
            }
            continue;
          }
        }
        auto* r = w.New(100, "TryLock (thread)", false, true);
        r->start = Now();
        if (w.m->TryLock()) {
          w.EnterUnique(r);
          Point();
          w.LeaveUnique(r);
          w.m->UnlockHere();
          Stamp();
        }
      }
    });
  }
  line.Arrive();
  for (auto& p : gate_p) {
    for (int i = 0; i != 3; ++i) {
      Point();
    }
    std::move(p).Set();
    Stamp();
  }
  for (auto& t : threads) {
    t.join();
  }
  VH_CHECK(w.done.load() == n, w.prop, "worker-lost", "%d of %d workers finished", w.done.load(), n);
  // everything was released: it must be free now
  const bool immediate = rng.Chance(1, 2);
  if (!immediate) {
    VH_CHECK(w.m->TryLock(), w.prop, "not-free", "the lock is not free after every holder released it");
    if constexpr (kShared) {
      VH_CHECK(!w.m->TryLockShared(), w.prop, "try-incompatible", "TryLockShared succeeded under an exclusive holder");
      VH_CHECK(!w.m->TryLock(), w.prop, "try-incompatible", "TryLock succeeded under an exclusive holder");
      w.m->UnlockHere();
      VH_CHECK(w.m->TryLockShared() && w.m->TryLockShared(), w.prop, "not-free", "TryLockShared fails on a free lock");
      VH_CHECK(!w.m->TryLock(), w.prop, "try-incompatible", "TryLock succeeded under shared holders");
      w.m->UnlockHereShared();
      VH_CHECK(!w.m->TryLock(), w.prop, "try-incompatible", "TryLock succeeded under a shared holder");
      w.m->UnlockHereShared();
      VH_CHECK(w.m->TryLock(), w.prop, "not-free", "the lock is not free at the end");
      w.m->UnlockHere();
    } else {
      VH_CHECK(!w.m->TryLock(), w.prop, "try-incompatible", "TryLock succeeded twice");
      w.m->UnlockHere();
    }
  }
  delete w.m2;
  delete w.m;  // every holder released it and every user finished
  w.gates.clear();
  a->Stop();
  a->Wait();
  b->Stop();
  b->Wait();
  u64 waits = 0, tries = 0;
  for (auto& r : w.reqs) {
    if (!r.attempt) {
      VH_CHECK(r.granted != 0, w.prop, "never-granted", "request %s of worker %d was never granted", r.how, r.who);
    }
    waits += r.arrived.load() < r.granted;
    tries += r.attempt && r.granted != 0;
  }
  if (fifo && !kTsan && !kShared) {
    for (auto& x : w.reqs) {
      if (x.attempt || x.granted == 0) {
        continue;
      }
      for (auto& y : w.reqs) {
        if (y.granted != 0 && x.arrived.load() < y.start && y.granted < x.granted) {
          Fail("C14", "fifo-order", "%s of worker %d queued by %llu but %s of worker %d, requested at %llu, was granted first",
               x.how, x.who, (unsigned long long)x.arrived.load(), y.how, y.who, (unsigned long long)y.start);
        }
      }
    }
  }
  Count("grants", w.entered.load());
  Count("grants_after_waiting", waits);
  Count("try_successes", tries);
  Count("concurrent_readers_seen", w.max_readers.load() > 1 ? 1 : 0);
  c.nontrivial = w.entered.load() >= 2;
  c.Note(waits);
  for (auto& e : w.ex) {
    VH_CHECK(e.refs.load() == 0, "C03,C14,C15", "executor-leak", "an executor is referenced %d times at quiescence",
             e.refs.load());
  }
  CheckLedgers("C03,C14,C15");
}

void Body(Case& c) {
  if (gOpt.mode == "shared") {
    switch (c.rng.Below(4)) {
      case 0:
        return Run<yaclib::SharedMutex<false, false>>(c, "SharedMutex<0,0>", false);
      case 1:
        return Run<yaclib::SharedMutex<false, true>>(c, "SharedMutex<0,1>", false);
      case 2:
        return Run<yaclib::SharedMutex<true, false>>(c, "SharedMutex<1,0>", false);
      default:
        return Run<yaclib::SharedMutex<true, true>>(c, "SharedMutex<1,1>", false);
    }
  }
  switch (c.rng.Below(4)) {
    case 0:
      return Run<yaclib::Mutex<false, false>>(c, "Mutex<0,0>", false);
    case 1:
      return Run<yaclib::Mutex<false, true>>(c, "Mutex<0,1>", true);
    case 2:
      return Run<yaclib::Mutex<true, false>>(c, "Mutex<1,0>", false);
    default:
      return Run<yaclib::Mutex<true, true>>(c, "Mutex<1,1>", true);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
