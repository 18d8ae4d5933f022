// Allocation counts (C20): global operator new is counted between points of the real code.
//  * pipelines: never more allocations than steps, for random shapes
//  * combinators: the count for many inputs does not exceed the count for few inputs
//  * waits, Get, strand submission of an existing job, co_await: no allocation
// Client payloads and functors of this harness never allocate.
#include "vh.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <array>
#include <new>
#include <optional>
#include <variant>

// ---- counting allocator -----------------------------------------------------------------------------------------------
namespace {

std::atomic<std::uint64_t> gNewAll{0};
thread_local std::uint64_t tNew = 0;

void* CountedNew(std::size_t n, std::size_t align) {
  gNewAll.fetch_add(1, std::memory_order_relaxed);
  ++tNew;
  void* p = align <= alignof(std::max_align_t) ? std::malloc(n) : std::aligned_alloc(align, (n + align - 1) / align * align);
  if (p == nullptr) {
    std::abort();
  }
  return p;
}

}  // namespace

void* operator new(std::size_t n) {
  return CountedNew(n, 1);
}
void* operator new[](std::size_t n) {
  return CountedNew(n, 1);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return CountedNew(n, 1);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return CountedNew(n, 1);
}
void* operator new(std::size_t n, std::align_val_t a) {
  return CountedNew(n, static_cast<std::size_t>(a));
}
void* operator new[](std::size_t n, std::align_val_t a) {
  return CountedNew(n, static_cast<std::size_t>(a));
}
void operator delete(void* p) noexcept {
  std::free(p);
}
void operator delete[](void* p) noexcept {
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  std::free(p);
}
void operator delete(void* p, std::align_val_t) noexcept {
  std::free(p);
}
void operator delete[](void* p, std::align_val_t) noexcept {
  std::free(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  std::free(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  std::free(p);
}

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;
using yaclib::StopError;
using yaclib::StopTag;
using yaclib::Task;

namespace {

constexpr const char* kP = "C20";
using ns = std::chrono::nanoseconds;

// move-only payload that owns nothing
struct Mo {
  int x = 0;
  char pad[44] = {};
  explicit Mo(int v = 0) : x{v} {
  }
  Mo(Mo&&) = default;
  Mo& operator=(Mo&&) = default;
};

template <typename T>
T Value(int v) {
  if constexpr (!std::is_void_v<T>) {
    return T(v);
  }
}

template <typename T>
Result<T> Good(int v) {
  if constexpr (std::is_void_v<T>) {
    return Result<T>{yaclib::Unit{}};
  } else {
    return Result<T>{T(v)};
  }
}

std::exception_ptr gException = std::make_exception_ptr(Boom{1});

// ---- pipelines ----------------------------------------------------------------------------------------------------------
template <typename T>
using Next = std::conditional_t<std::is_same_v<T, int>, Mo, std::conditional_t<std::is_same_v<T, Mo>, void, int>>;

struct Gen;
Gen* gG = nullptr;

template <typename T>
struct Promises {
  std::array<Promise<T>, 48> p;
  std::array<SharedPromise<std::conditional_t<std::is_same_v<T, Mo>, int, T>>, 48> sp;
  std::size_t n = 0, sn = 0;
};

struct Gen {
  Rng r;
  std::atomic<u64> steps{0};
  u64 new0 = 0;
  bool threads = false;
  yaclib::IntrusivePtr<yaclib::IExecutor> e[3];
  yaclib::ManualExecutor* manual = nullptr;
  Promises<int> pi;
  Promises<void> pv;
  Promises<Mo> pm;
  char text[1500];
  std::size_t len = 0;

  void Say(const char* s) {
    if (threads) {
      return;
    }
    while (*s != 0 && len + 2 < sizeof(text)) {
      text[len++] = *s++;
    }
    text[len] = 0;
  }
  u64 News() const {
    return gNewAll.load() - new0;
  }
  // may run on a pool thread if `threads`
  bool Coin(u64 num, u64 den) {
    return r.Chance(num, den);
  }
  yaclib::IExecutor& Exec() {
    return *e[r.Below(3)];
  }
  template <typename T>
  Promises<T>& Pending() {
    if constexpr (std::is_same_v<T, int>) {
      return pi;
    } else if constexpr (std::is_void_v<T>) {
      return pv;
    } else {
      return pm;
    }
  }
  template <typename T>
  void Fulfil(Promise<T>&& p) {
    switch (r.Below(5)) {
      case 0:
        std::move(p).Set(StopTag{});
        break;
      case 1:
        std::move(p).Set(gException);
        break;
      case 2: {
        auto drop = std::move(p);
        break;
      }
      default:
        if constexpr (std::is_void_v<T>) {
          std::move(p).Set();
        } else {
          std::move(p).Set(Value<T>(3));
        }
    }
  }
  template <typename T>
  void Fulfil(SharedPromise<T>&& p) {
    switch (r.Below(4)) {
      case 0:
        std::move(p).Set(StopTag{});
        break;
      case 1:
        std::move(p).Set(gException);
        break;
      default:
        if constexpr (std::is_void_v<T>) {
          std::move(p).Set();
        } else {
          std::move(p).Set(4);
        }
    }
  }
  template <typename T>
  bool FulfilSome() {
    auto& q = Pending<T>();
    bool any = false;
    while (q.n != 0) {
      auto p = std::move(q.p[--q.n]);
      Fulfil(std::move(p));
      any = true;
    }
    while (q.sn != 0) {
      auto p = std::move(q.sp[--q.sn]);
      Fulfil(std::move(p));
      any = true;
    }
    return any;
  }
  void Check(const char* what) {
    auto n = News();
    auto s = steps.load();
    VH_CHECK(n <= s, kP, what, "%llu allocations for %llu pipeline steps: %s", (unsigned long long)n, (unsigned long long)s,
             text);
  }
  void Finish() {
    for (;;) {
      bool any = manual->Drain() != 0;
      any |= FulfilSome<int>();
      any |= FulfilSome<void>();
      any |= FulfilSome<Mo>();
      if (!any) {
        break;
      }
    }
  }
};

// a step of the pipeline, counted before it is performed
template <typename F>
auto Step(const char* name, F&& f) {
  auto& g = *gG;
  g.Say(name);
  g.Say(" ");
  g.steps.fetch_add(1);
  const auto news = g.News();
  const auto steps = g.steps.load();
  auto check = [&] {
    if (!g.threads) {
      auto dn = g.News() - news;
      auto ds = g.steps.load() - steps + 1;
      VH_CHECK(dn <= ds, kP, name, "%llu allocations in a call of %llu steps: %s", (unsigned long long)dn,
               (unsigned long long)ds, g.text);
    }
  };
  if constexpr (std::is_void_v<decltype(f())>) {
    f();
    check();
  } else {
    auto res = f();
    check();
    return res;
  }
}

// operation that is not a step: must not allocate by itself
template <typename F>
auto Free(const char* name, F&& f) {
  auto& g = *gG;
  g.Say(name);
  g.Say(" ");
  const auto news = g.News();
  const auto steps = g.steps.load();
  auto check = [&] {
    if (!g.threads) {
      auto dn = g.News() - news;
      auto ds = g.steps.load() - steps;
      VH_CHECK(dn <= ds, kP, name, "%s allocated: %llu allocations during %llu steps: %s", name, (unsigned long long)dn,
               (unsigned long long)ds, g.text);
    }
  };
  if constexpr (std::is_void_v<decltype(f())>) {
    f();
    check();
  } else {
    auto res = f();
    check();
    return res;
  }
}

enum Ret { kValue, kResult, kReady, kPending, kRun, kTaskR, kSharedR, kThrow, kRets };
const char* const kRetName[] = {"->V", "->Result", "->Ready", "->Pending", "->Run", "->Task", "->Shared", "->throw"};
enum Sig { kByV, kByRes, kByErr, kByExc, kByRef, kSigs };
const char* const kSigName[] = {"(V)", "(R)", "(E)", "(X)", "(&)"};

template <typename R, int Kind>
struct Maker {
  auto operator()() const {
    auto& g = *gG;
    if constexpr (Kind == kValue) {
      return Value<R>(1);
    } else if constexpr (Kind == kResult) {
      return g.threads || g.Coin(3, 4) ? Good<R>(2) : Result<R>{StopTag{}};
    } else if constexpr (Kind == kReady) {
      return Step("MakeFuture", [] {
        if constexpr (std::is_void_v<R>) {
          return yaclib::MakeFuture();
        } else {
          return yaclib::MakeFuture<R>(Value<R>(5));
        }
      });
    } else if constexpr (Kind == kPending) {
      auto [f, p] = Step("MakeContract", [] {
        return yaclib::MakeContract<R>();
      });
      auto& q = g.template Pending<R>();
      if (g.threads || q.n == q.p.size()) {
        std::move(p).Set(gException);
      } else {
        q.p[q.n++] = std::move(p);
      }
      return std::move(f);
    } else if constexpr (Kind == kRun) {
      return Step("Run", [&] {
        return yaclib::Run(g.threads ? *g.e[0] : g.Exec(), [] {
          return Value<R>(6);
        });
      });
    } else if constexpr (Kind == kTaskR) {
      auto t = Step("Schedule", [&] {
        return yaclib::Schedule(g.threads ? *g.e[0] : g.Exec(), [] {
          return Value<R>(7);
        });
      });
      return t;
    } else if constexpr (Kind == kSharedR) {
      auto [f, p] = Step("MakeSharedContract", [] {
        return yaclib::MakeSharedContract<R>();
      });
      auto& q = g.template Pending<R>();
      if (g.threads || q.sn == q.sp.size() || g.Coin(1, 2)) {
        std::move(p).Set(gException);
      } else {
        q.sp[q.sn++] = std::move(p);
      }
      return std::move(f);
    } else {
      std::rethrow_exception(gException);
      return Value<R>(8);
    }
  }
};

template <typename T, int S, typename R, int Kind, std::size_t Pad>
struct Fn;
template <typename T, typename R, int Kind, std::size_t Pad>
struct Fn<T, kByV, R, Kind, Pad> {
  char pad[Pad];
  auto operator()(T) const {
    return Maker<R, Kind>{}();
  }
};
template <typename R, int Kind, std::size_t Pad>
struct Fn<void, kByV, R, Kind, Pad> {
  char pad[Pad];
  auto operator()() const {
    return Maker<R, Kind>{}();
  }
};
template <typename T, typename R, int Kind, std::size_t Pad>
struct Fn<T, kByRes, R, Kind, Pad> {
  char pad[Pad];
  auto operator()(Result<T>&&) const {
    return Maker<R, Kind>{}();
  }
  auto operator()(const Result<T>&) const {
    return Maker<R, Kind>{}();
  }
};
template <typename T, typename R, int Kind, std::size_t Pad>
struct Fn<T, kByErr, R, Kind, Pad> {
  char pad[Pad];
  auto operator()(StopError) const {
    return Maker<R, Kind>{}();
  }
};
template <typename T, typename R, int Kind, std::size_t Pad>
struct Fn<T, kByExc, R, Kind, Pad> {
  char pad[Pad];
  auto operator()(std::exception_ptr) const {
    return Maker<R, Kind>{}();
  }
};
template <typename T, typename R, int Kind, std::size_t Pad>
struct Fn<T, kByRef, R, Kind, Pad> {
  char pad[Pad];
  auto operator()(const T&) const {
    return Maker<R, Kind>{}();
  }
};

using Holder = std::variant<Future<int>, Future<void>, Future<Mo>, FutureOn<int>, FutureOn<void>, FutureOn<Mo>, Task<int>,
                            Task<void>, Task<Mo>, SharedFuture<int>, SharedFuture<void>, SharedFutureOn<int>,
                            SharedFutureOn<void>>;

template <typename H>
struct Kind;
#define VH_KIND(TMPL, LAZY, SHARED, ON)          \
  template <typename V>                          \
  struct Kind<TMPL<V>> {                         \
    using T = V;                                 \
    static constexpr bool kLazy = LAZY;          \
    static constexpr bool kShared = SHARED;      \
    static constexpr bool kOn = ON;              \
  };
VH_KIND(Future, false, false, false)
VH_KIND(FutureOn, false, false, true)
VH_KIND(Task, true, false, true)
VH_KIND(SharedFuture, false, true, false)
VH_KIND(SharedFutureOn, false, true, true)

// calls cont(functor) with a random functor that accepts T
template <typename T, bool Shared, typename C>
void PickFn(Gen& g, C&& cont) {
  auto sig = g.r.Below(10);
  auto kind = static_cast<int>(g.r.Below(kRets));
  auto go = [&](auto f) {
    cont(f);
  };
  auto say = [&](int s, int k) {
    g.Say(kSigName[s]);
    g.Say(kRetName[k]);
    g.Say(" ");
  };
  auto by_v = [&](auto tag) {
    using R = typename decltype(tag)::type;
    say(kByV, kind);
    switch (kind) {
      case kValue:
        return go(Fn<T, kByV, R, kValue, 1>{});
      case kResult:
        return go(Fn<T, kByV, R, kResult, 200>{});
      case kReady:
        return go(Fn<T, kByV, R, kReady, 24>{});
      case kPending:
        return go(Fn<T, kByV, R, kPending, 1>{});
      case kRun:
        return go(Fn<T, kByV, R, kRun, 1>{});
      case kTaskR:
        return go(Fn<T, kByV, R, kTaskR, 64>{});
      case kSharedR:
        if constexpr (!std::is_same_v<R, Mo>) {
          return go(Fn<T, kByV, R, kSharedR, 1>{});
        } else {
          return go(Fn<T, kByV, int, kSharedR, 1>{});
        }
      default:
        return go(Fn<T, kByV, R, kThrow, 1>{});
    }
  };
  switch (sig) {
    case 0:
      say(kByRes, kind % 2 == 0 ? kValue : kPending);
      if (kind % 2 == 0) {
        return go(Fn<T, kByRes, T, kValue, 100>{});
      }
      return go(Fn<T, kByRes, T, kPending, 1>{});
    case 1:
      say(kByRes, kTaskR);
      return go(Fn<T, kByRes, Next<T>, kTaskR, 1>{});
    case 2:
      if (kind % 3 == 0) {
        say(kByErr, kRun);
        return go(Fn<T, kByErr, T, kRun, 1>{});
      }
      say(kByErr, kind % 3 == 1 ? kValue : kResult);
      if (kind % 3 == 1) {
        return go(Fn<T, kByErr, T, kValue, 1>{});
      }
      return go(Fn<T, kByErr, T, kResult, 1>{});
    case 3:
      if (kind % 3 == 0) {
        say(kByExc, kPending);
        return go(Fn<T, kByExc, T, kPending, 1>{});
      }
      say(kByExc, kind % 3 == 1 ? kValue : kReady);
      if (kind % 3 == 1) {
        return go(Fn<T, kByExc, T, kValue, 300>{});
      }
      return go(Fn<T, kByExc, T, kReady, 1>{});
    case 4:
      if constexpr (std::is_same_v<T, int>) {
        say(kByRef, kValue);
        return go(Fn<T, kByRef, T, kValue, 1>{});
      } else {
        return by_v(std::type_identity<T>{});
      }
    case 5:
    case 6:
      if constexpr (!(Shared && std::is_same_v<T, Mo>)) {
        return by_v(std::type_identity<Next<T>>{});
      }
      [[fallthrough]];
    default:
      return by_v(std::type_identity<T>{});
  }
}

void Grow(Gen& g, Holder& h) {
  std::visit(
    [&](auto& cur) {
      using H = std::decay_t<decltype(cur)>;
      using K = Kind<H>;
      using T = typename K::T;
      auto x = std::move(cur);
      PickFn<T, K::kShared>(g, [&](auto f) {
        auto attach = g.r.Below(3);
        if constexpr (K::kOn) {
          if (attach == 0) {
            h = Step("Then", [&] {
              return std::move(x).Then(f);
            });
            return;
          }
        }
        if (attach == 1) {
          h = Step("Then(e)", [&] {
            return std::move(x).Then(g.Exec(), f);
          });
        } else {
          h = Step("ThenInline", [&] {
            return std::move(x).ThenInline(f);
          });
        }
      });
    },
    h);
}

template <typename T>
struct Sink {
  void operator()(Result<T>&&) const {
  }
  void operator()(const Result<T>&) const {
  }
};

void Terminate(Gen& g, Holder& h) {
  std::visit(
    [&](auto& cur) {
      using H = std::decay_t<decltype(cur)>;
      using K = Kind<H>;
      using T = typename K::T;
      auto x = std::move(cur);
      if constexpr (K::kLazy) {
        switch (g.r.Below(6)) {
          case 0:
            Free("Cancel", [&] {
              std::move(x).Cancel();
            });
            break;
          case 1:
            Free("Task::Detach", [&] {
              std::move(x).Detach();
            });
            break;
          case 2:
            Free("Task::Detach(e)", [&] {
              std::move(x).Detach(g.Exec());
            });
            break;
          case 3: {
            auto f = Free("ToFuture(e)", [&] {
              return std::move(x).ToFuture(g.Exec());
            });
            g.Finish();
            Free("Touch", [&] {
              return f.Ready();
            });
            break;
          }
          default: {
            auto f = Free("ToFuture", [&] {
              return std::move(x).ToFuture();
            });
            g.Finish();
            VH_CHECK(f.Ready() || g.threads, "*", "not-ready", "the chain has not completed: %s", g.text);
            Free("Get", [&] {
              return std::move(f).Get();
            });
          }
        }
      } else if constexpr (K::kShared) {
        switch (g.r.Below(4)) {
          case 0:
            Step("SubscribeInline", [&] {
              x.SubscribeInline(Sink<T>{});
            });
            break;
          case 1:
            Step("Subscribe(e)", [&] {
              x.Subscribe(g.Exec(), Sink<T>{});
            });
            break;
          case 2:
            if constexpr (K::kOn) {
              Step("Subscribe", [&] {
                x.Subscribe(Sink<T>{});
              });
            }
            break;
          default:
            g.Finish();
            Free("Shared::Get", [&] {
              return std::move(x).Get();
            });
        }
      } else {
        switch (g.r.Below(6)) {
          case 0:
            Free("Detach", [&] {
              std::move(x).Detach();
            });
            break;
          case 1:
            Step("DetachInline", [&] {
              std::move(x).DetachInline(Sink<T>{});
            });
            break;
          case 2:
            Step("Detach(e)", [&] {
              std::move(x).Detach(g.Exec(), Sink<T>{});
            });
            break;
          case 3:
            if constexpr (K::kOn) {
              Step("Detach(f)", [&] {
                std::move(x).Detach(Sink<T>{});
              });
            }
            break;
          case 4:
            if constexpr (K::kOn) {
              auto f = Free("On(nullptr)", [&] {
                return std::move(x).On(nullptr);
              });
              g.Finish();
              Free("Get", [&] {
                return std::move(f).Get();
              });
            } else {
              g.Finish();
              Free("Get&", [&] {
                return std::as_const(x).Get() != nullptr;
              });
              Free("Wait", [&] {
                yaclib::Wait(x);
              });
            }
            break;
          default:
            g.Finish();
            VH_CHECK(x.Ready() || g.threads, "*", "not-ready", "the chain has not completed: %s", g.text);
            Free("Get", [&] {
              return std::move(x).Get();
            });
        }
      }
    },
    h);
}

Holder Source(Gen& g) {
  auto keep = [&](auto contract) {
    using P = typename decltype(contract)::second_type;
    auto p = std::move(contract.second);
    if constexpr (std::is_same_v<P, Promise<int>> || std::is_same_v<P, Promise<void>> || std::is_same_v<P, Promise<Mo>>) {
      if (g.Coin(1, 2)) {
        g.Fulfil(std::move(p));
      } else if constexpr (std::is_same_v<P, Promise<int>>) {
        g.pi.p[g.pi.n++] = std::move(p);
      } else if constexpr (std::is_same_v<P, Promise<void>>) {
        g.pv.p[g.pv.n++] = std::move(p);
      } else {
        g.pm.p[g.pm.n++] = std::move(p);
      }
    } else {
      if (g.Coin(1, 2)) {
        g.Fulfil(std::move(p));
      } else if constexpr (std::is_same_v<P, SharedPromise<int>>) {
        g.pi.sp[g.pi.sn++] = std::move(p);
      } else {
        g.pv.sp[g.pv.sn++] = std::move(p);
      }
    }
    return std::move(contract.first);
  };
  switch (g.r.Below(24)) {
    case 0:
      return Step("MakeFuture()", [] {
        return yaclib::MakeFuture();
      });
    case 1:
      return Step("MakeFuture<int>(v)", [] {
        return yaclib::MakeFuture<int>(1);
      });
    case 2:
      return Step("MakeFuture<Mo>(E)", [] {
        return yaclib::MakeFuture<Mo>(StopTag{});
      });
    case 3:
      return Step("MakeFuture<int>(X)", [] {
        return yaclib::MakeFuture<int>(gException);
      });
    case 4:
      return Step("MakeFuture<Mo>(v)", [] {
        return yaclib::MakeFuture(Mo{3});
      });
    case 5:
      return Step("MakeTask()", [] {
        return yaclib::MakeTask();
      });
    case 6:
      return Step("MakeTask<int>", [] {
        return yaclib::MakeTask<int>(1);
      });
    case 7:
      return Step("MakeTask<Mo>(X)", [] {
        return yaclib::MakeTask<Mo>(gException);
      });
    case 8:
      return Step("Run(f)", [] {
        return yaclib::Run([] {
          return 1;
        });
      });
    case 9:
      return Step("Run(e,f)", [&] {
        return yaclib::Run(g.Exec(), [] {
          return Mo{1};
        });
      });
    case 10:
      return Step("Run(e,f->Future)", [&] {
        return yaclib::Run(g.Exec(), Maker<int, kPending>{});
      });
    case 11:
      return Step("Run(e,f->Task)", [&] {
        return yaclib::Run(g.Exec(), Maker<Mo, kTaskR>{});
      });
    case 12:
      return Step("RunShared(e)", [&] {
        return yaclib::RunShared(g.Exec(), [] {
          return 2;
        });
      });
    case 13:
      return Step("RunShared(f)", [&] {
        return yaclib::RunShared([] {
        });
      });
    case 14:
      return Step("Schedule(e)", [&] {
        return yaclib::Schedule(g.Exec(), [] {
          return 2;
        });
      });
    case 15:
      return Step("Schedule(e)->Future", [&] {
        return yaclib::Schedule(g.Exec(), Maker<void, kRun>{});
      });
    case 16:
      return Step("Schedule(f)", [&] {
        return yaclib::Schedule([] {
          return Mo{1};
        });
      });
    case 17:
      return keep(Step("MakeContract<int>", [] {
        return yaclib::MakeContract<int>();
      }));
    case 18:
      return keep(Step("MakeContract<Mo>", [] {
        return yaclib::MakeContract<Mo>();
      }));
    case 19:
      return keep(Step("MakeContractOn<void>", [&] {
        return yaclib::MakeContractOn<void>(g.Exec());
      }));
    case 20:
      return keep(Step("MakeSharedContract<int>", [] {
        return yaclib::MakeSharedContract<int>();
      }));
    case 21:
      return keep(Step("MakeSharedContractOn<void>", [&] {
        return yaclib::MakeSharedContractOn<void>(g.Exec());
      }));
    case 22:
      return Step("AsyncContract(e)", [&] {
        return yaclib::AsyncContract<int>(g.Exec(), [](Promise<int> p) {
          std::move(p).Set(1);
        });
      });
    default:
      return Step("LazyContract(e)", [&] {
        return yaclib::LazyContract<int>(g.Exec(), [](Promise<int> p) {
          std::move(p).Set(1);
        });
      });
  }
}

yaclib::IExecutorPtr gPool;
yaclib::IExecutorPtr gPoolStrand;

void Pipelines(Case& c) {
  auto manual = yaclib::MakeManual();
  auto strand = yaclib::MakeStrand(manual);
  static Gen g;
  for (int round = 0; round != 8; ++round) {
    g.r = Rng{c.rng.Next()};
    g.len = 0;
    g.text[0] = 0;
    g.threads = false;
    g.manual = static_cast<yaclib::ManualExecutor*>(manual.Get());
    g.e[0] = manual;
    g.e[1] = strand;
    g.e[2] = &yaclib::MakeInline();
    g.steps = 0;
    gG = &g;
    g.new0 = gNewAll.load();
    {
      auto h = Source(g);
      auto n = g.r.In(0, 8);
      for (int i = 0; i != n; ++i) {
        if (g.r.Chance(1, 4)) {
          manual.Get();
          (void)g.manual->Drain();
        }
        if (g.r.Chance(1, 6)) {
          g.FulfilSome<int>();
        }
        Grow(g, h);
      }
      Terminate(g, h);
      g.Finish();
    }
    g.Check("pipeline");
    Count("pipeline_steps", g.steps.load());
    Count("pipeline_allocations", g.News());
    c.Note(Mix(std::hash<std::string_view>{}(std::string_view{g.text, g.len})));
    g.e[0] = g.e[1] = g.e[2] = nullptr;
  }
  Scenario("%.*s", 1000, g.text);
}

// the same on real threads: only totals
void PoolPipelines(Case& c) {
  static Gen g;
  auto manual = yaclib::MakeManual();
  // warm up lazily allocated thread state of the runtime
  (void)yaclib::Run(*gPool, [] {
    return 1;
  }).Get();
  g.r = Rng{c.rng.Next()};
  g.len = 0;
  g.text[0] = 0;
  g.threads = true;
  g.manual = static_cast<yaclib::ManualExecutor*>(manual.Get());
  g.e[0] = gPool;
  g.e[1] = gPoolStrand;
  g.e[2] = gPool;
  g.steps = 0;
  gG = &g;
  g.new0 = gNewAll.load();
  u64 expect = 0;
  {
    yaclib::IExecutor& e = *gPool;
    yaclib::IExecutor& s = *gPoolStrand;
    auto n = g.r.In(1, 6);
    auto f = yaclib::Run(e, [] {
      return 1;
    });
    expect = 1;
    for (int i = 0; i != n; ++i) {
      switch (g.r.Below(5)) {
        case 0:
          f = std::move(f).Then(s, [](int x) {
            return x + 1;
          });
          break;
        case 1:
          f = std::move(f).Then(e, [&e](int x) {
            return yaclib::Run(e, [x] {
              return x;
            });
          });
          ++expect;
          break;
        case 2:
          f = std::move(f).ThenInline([](Result<int>&& x) {
            return std::move(x).Ok() + 1;
          });
          break;
        case 3:
          f = std::move(f).Then([&s](int x) {
            return yaclib::Schedule(s, [x] {
              return x * 2;
            });
          });
          ++expect;
          break;
        default: {
          auto [next, p] = yaclib::MakeContractOn<int>(e);
          ++expect;
          std::move(f).Detach([p = std::move(p)](int x) mutable {
            std::move(p).Set(x + 1);
          });
          f = std::move(next);
        }
      }
      ++expect;
    }
    (void)std::move(f).Get();
  }
  auto news = g.News();
  VH_CHECK(news <= expect, kP, "pool-pipeline", "%llu allocations for %llu steps on a pool", (unsigned long long)news,
           (unsigned long long)expect);
  Count("pool_pipeline_steps", expect);
  Scenario("pool pipeline of %llu steps", (unsigned long long)expect);
  g.e[0] = g.e[1] = g.e[2] = nullptr;
}

// ---- combinators --------------------------------------------------------------------------------------------------------
template <typename T>
struct Inputs {
  std::vector<Future<T>> f;
  std::vector<FutureOn<T>> fo;
  std::vector<Promise<T>> p;
  std::vector<std::size_t> order;
};

template <typename T>
void SetOne(Promise<T>&& p, int how) {
  switch (how) {
    case 1:
      std::move(p).Set(StopTag{});
      break;
    case 2:
      std::move(p).Set(gException);
      break;
    default:
      if constexpr (std::is_void_v<T>) {
        std::move(p).Set();
      } else {
        std::move(p).Set(T(1));
      }
  }
}

// number of allocations from the call of the combinator until its result was consumed
template <typename T, typename F>
u64 Measure(Rng& r, std::size_t n, bool on, F&& make) {
  static std::array<int, 3> kWeights;
  (void)kWeights;
  std::vector<Future<T>> f;
  std::vector<FutureOn<T>> fo;
  std::vector<Promise<T>> p;
  std::vector<std::size_t> order(n);
  f.reserve(n);
  fo.reserve(n);
  p.reserve(n);
  auto fail = r.Below(4);  // how often inputs fail
  std::vector<int> how(n);
  for (std::size_t i = 0; i != n; ++i) {
    order[i] = i;
    how[i] = fail == 0 ? 0 : fail == 1 ? (r.Chance(1, 8) ? 1 : 0) : fail == 2 ? r.In(0, 2) : r.In(1, 2);
  }
  for (std::size_t i = n; i > 1; --i) {
    std::swap(order[i - 1], order[r.Below(i)]);
  }
  auto& inl = yaclib::MakeInline();
  for (std::size_t i = 0; i != n; ++i) {
    if (on) {
      auto [x, y] = yaclib::MakeContractOn<T>(inl);
      fo.push_back(std::move(x));
      p.push_back(std::move(y));
    } else {
      auto [x, y] = yaclib::MakeContract<T>();
      f.push_back(std::move(x));
      p.push_back(std::move(y));
    }
  }
  auto before = n == 0 ? 0 : r.Pick({std::size_t{0}, n, n / 2, r.Below(n + 1)});
  for (std::size_t k = 0; k != before; ++k) {
    SetOne(std::move(p[order[k]]), how[order[k]]);
  }
  const auto start = tNew;
  u64 end;
  {
    auto rest = [&] {
      for (std::size_t k = before; k != n; ++k) {
        SetOne(std::move(p[order[k]]), how[order[k]]);
      }
    };
    if (on) {
      auto res = make(fo);
      rest();
      VH_CHECK(res.Ready(), "*", "combinator-not-ready", "combinator of %zu complete inputs is not ready", n);
      auto got = std::move(res).Get();
      (void)got;
    } else {
      auto res = make(f);
      rest();
      VH_CHECK(res.Ready(), "*", "combinator-not-ready", "combinator of %zu complete inputs is not ready", n);
      auto got = std::move(res).Get();
      (void)got;
    }
    end = tNew;
  }
  Count("combinator_inputs", n);
  return end - start;
}

using yaclib::FailPolicy;

constexpr int kForms = 12;

template <typename T>
u64 Combinator(Rng& r, int form, std::size_t n, bool on, bool by_end) {
#define VH_C(...)                                                    \
  Measure<T>(r, n, on, [&](auto& v) {                                \
    return by_end ? __VA_ARGS__(v.begin(), v.end()) : __VA_ARGS__(v.begin(), v.size()); \
  })
  switch (form) {
    case 0:
      return VH_C(yaclib::WhenAll<FailPolicy::FirstFail>);
    case 1:
      return VH_C(yaclib::WhenAll<FailPolicy::None>);
    case 2:
      return VH_C(yaclib::WhenAny<FailPolicy::LastFail>);
    case 3:
      return VH_C(yaclib::WhenAny<FailPolicy::FirstFail>);
    case 4:
      return VH_C(yaclib::WhenAny<FailPolicy::None>);
    case 5:
      return VH_C(yaclib::Join<FailPolicy::FirstFail>);
    default:
      return VH_C(yaclib::Join<FailPolicy::None>);
  }
#undef VH_C
}
const char* const kFormName[] = {"WhenAll<FirstFail>", "WhenAll<None>",   "WhenAny<LastFail>", "WhenAny<FirstFail>",
                                 "WhenAny<None>",      "Join<FirstFail>", "Join<None>"};

// variadic forms, N inputs
template <std::size_t N, typename T, typename F>
u64 MeasureStatic(Rng& r, F&& make) {
  return Measure<T>(r, N, false, [&](auto& v) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
      return make(std::move(v[I])...);
    }(std::make_index_sequence<N>{});
  });
}

template <std::size_t N, typename T>
u64 Static(Rng& r, int form) {
#define VH_S(...)                                 \
  MeasureStatic<N, T>(r, [](auto&&... x) {        \
    return __VA_ARGS__(std::move(x)...);          \
  })
  switch (form) {
    case 0:
      return VH_S(yaclib::WhenAll<FailPolicy::FirstFail>);
    case 1:
      return VH_S(yaclib::WhenAll<FailPolicy::None>);
    case 2:
      return VH_S(yaclib::WhenAny<FailPolicy::LastFail>);
    case 3:
      return VH_S(yaclib::WhenAny<FailPolicy::FirstFail>);
    case 4:
      return VH_S(yaclib::WhenAny<FailPolicy::None>);
    case 5:
      return VH_S(yaclib::Join<FailPolicy::FirstFail>);
    default:
      return VH_S(yaclib::Join<FailPolicy::None>);
  }
#undef VH_S
}

void Combinators(Case& c) {
  auto& r = c.rng;
  const auto form = static_cast<int>(r.Below(7));
  const auto type = r.Below(2);
  const bool on = r.Chance(1, 3);
  const bool by_end = r.Chance(1, 2);
  auto run = [&](std::size_t n) {
    return type == 0 ? Combinator<int>(r, form, n, on, by_end) : Combinator<void>(r, form, n, on, by_end);
  };
  u64 few = 0;
  for (int i = 0; i != 6; ++i) {
    few = std::max(few, run(static_cast<std::size_t>(r.In(2, 4))));
  }
  u64 many = 0;
  std::size_t at = 0;
  for (auto n : {std::size_t{16}, static_cast<std::size_t>(r.In(5, 300)), static_cast<std::size_t>(r.In(301, 1500))}) {
    auto k = run(n);
    if (k > many) {
      many = k;
      at = n;
    }
  }
  Scenario("%s<%s>%s%s: few inputs %llu allocations, many inputs %llu", kFormName[form], type == 0 ? "int" : "void",
           on ? " FutureOn" : "", by_end ? " (begin,end)" : " (begin,count)", (unsigned long long)few,
           (unsigned long long)many);
  VH_CHECK(many <= few + 2, kP, "combinator-growth", "%s: %llu allocations for %zu inputs, at most %llu for 2-4 inputs",
           kFormName[form], (unsigned long long)many, at, (unsigned long long)few);
  c.Note(few * 100 + many);
  // variadic
  u64 s_few = 0;
  u64 s_many = 0;
  auto st = [&](auto tag) {
    using T = typename decltype(tag)::type;
    for (int i = 0; i != 4; ++i) {
      s_few = std::max({s_few, Static<2, T>(r, form), Static<3, T>(r, form)});
      s_many = std::max({s_many, Static<8, T>(r, form), Static<12, T>(r, form)});
    }
  };
  if (type == 0) {
    st(std::type_identity<int>{});
  } else {
    st(std::type_identity<void>{});
  }
  VH_CHECK(s_many <= s_few + 2, kP, "combinator-growth-variadic", "variadic %s: %llu allocations for 8-12 inputs, %llu for 2-3",
           kFormName[form], (unsigned long long)s_many, (unsigned long long)s_few);
  Count("combinator_sweeps");
  Count("allocations:" + std::string{kFormName[form]} + (type == 0 ? "<int>=" : "<void>=") + std::to_string(many) + "/" +
        std::to_string(s_many));
}

// ---- waiting --------------------------------------------------------------------------------------------------------------
struct Quiet {
  u64 start = tNew;
  void Done(const char* what) {
    auto n = tNew - start;
    VH_CHECK(n == 0, kP, what, "%s: %llu allocations", what, (unsigned long long)n);
    Count("zero_allocation_windows");
  }
};

template <typename T>
void Waits(Case& c) {
  auto& r = c.rng;
  const auto n = static_cast<std::size_t>(r.Pick({1, 2, 3, 5, 8, 20, 100}));
  const int form = r.In(0, 11);
  const int state = r.In(0, 2);  // 0 all ready, 1 fulfilled by a thread, 2 never before a timeout
  std::vector<Future<T>> f;
  std::vector<Promise<T>> p;
  for (std::size_t i = 0; i != n; ++i) {
    auto [x, y] = yaclib::MakeContract<T>();
    f.push_back(std::move(x));
    p.push_back(std::move(y));
  }
  while (f.size() < 4) {
    auto [x, y] = yaclib::MakeContract<T>();
    f.push_back(std::move(x));
    p.push_back(std::move(y));
  }
  auto fulfil = [&] {
    for (auto& x : p) {
      SetOne(std::move(x), 0);
    }
  };
  std::thread t;
  std::atomic<bool> go{false};
  const bool timed = form >= 4;
  if (state == 0) {
    fulfil();
  } else if (state == 1 || !timed) {
    t = std::thread{[&, d = r.Below(60)] {
      while (!go.load()) {
      }
      if (d > 30) {
        std::this_thread::sleep_for(std::chrono::microseconds{d});
      }
      fulfil();
    }};
  }
  auto timeout = std::chrono::microseconds{r.Pick({0, 1, 50, 200})};
  auto deadline = std::chrono::steady_clock::now() + timeout;
  bool res = true;
  Scenario("wait form %d of %zu futures, state %d", form, n, state);
  go.store(true);
  Quiet q;
  switch (form) {
    case 0:
      yaclib::Wait(f[0]);
      break;
    case 1:
      yaclib::Wait(f[0], f[1], f[2], f[3]);
      break;
    case 2:
      yaclib::Wait(f.begin(), n);
      break;
    case 3:
      yaclib::Wait(f.begin(), f.end());
      break;
    case 4:
      res = yaclib::WaitFor(timeout, f[0]);
      break;
    case 5:
      res = yaclib::WaitFor(timeout, f[0], f[1], f[2]);
      break;
    case 6:
      res = yaclib::WaitFor(timeout, f.begin(), n);
      break;
    case 7:
      res = yaclib::WaitFor(timeout, f.begin(), f.end());
      break;
    case 8:
      res = yaclib::WaitUntil(deadline, f[0]);
      break;
    case 9:
      res = yaclib::WaitUntil(deadline, f[0], f[1]);
      break;
    case 10:
      res = yaclib::WaitUntil(deadline, f.begin(), n);
      break;
    default:
      res = yaclib::WaitUntil(deadline, f.begin(), f.end());
  }
  q.Done(timed ? "timed wait" : "wait");
  Count(res ? "waits_true" : "waits_false");
  if (t.joinable()) {
    t.join();
  } else if (state != 0) {
    fulfil();
  }
  c.Note(static_cast<u64>(form) * 100 + n);
}

template <typename T>
void Gets(Case& c) {
  auto& r = c.rng;
  auto [f, p] = yaclib::MakeContract<T>();
  auto [fo, po] = yaclib::MakeContractOn<T>(yaclib::MakeInline());
  std::thread t;
  std::atomic<bool> go{false};
  const bool thread = r.Chance(1, 3);
  auto how = r.In(0, 2);
  if (thread) {
    t = std::thread{[&] {
      while (!go.load()) {
      }
      SetOne(std::move(p), how);
      SetOne(std::move(po), how);
    }};
  } else {
    SetOne(std::move(p), how);
    SetOne(std::move(po), how);
  }
  Scenario("Get, thread %d", thread);
  go.store(true);
  {
    Quiet q;
    {
      if (!thread && r.Chance(1, 2)) {
        (void)f.Ready();
        (void)std::as_const(f).Touch();
        (void)std::as_const(f).Get();
      }
      auto a = std::move(f).Get();
      auto b = std::move(fo).Get();
      (void)a;
      (void)b;
    }
    q.Done("Get");
  }
  if (thread) {
    t.join();
  }
  c.Note(static_cast<u64>(how));
}

// ---- strand ---------------------------------------------------------------------------------------------------------------
struct MyJob final : yaclib::Job {
  void Call() noexcept final {
    ++*runs;
    if (again != nullptr && --left > 0) {
      again->Submit(*this);
    }
  }
  void Drop() noexcept final {
    ++*runs;
  }
  std::atomic<u64>* runs = nullptr;
  yaclib::IExecutor* again = nullptr;
  int left = 0;
};

void Strands(Case& c) {
  auto& r = c.rng;
  std::atomic<u64> runs{0};
  auto manual = yaclib::MakeManual();
  const auto kind = r.Below(4);
  yaclib::IExecutorPtr base = kind == 0 ? yaclib::IExecutorPtr{&yaclib::MakeInline()} : kind == 1 ? manual : kind == 2 ? gPool
                              : yaclib::IExecutorPtr{&yaclib::MakeInline(StopTag{})};
  auto strand = yaclib::MakeStrand(base);
  if (r.Chance(1, 3)) {
    strand = yaclib::MakeStrand(strand);
  }
  static std::array<MyJob, 40> jobs;
  const auto n = static_cast<std::size_t>(r.In(1, 40));
  u64 total = 0;
  for (std::size_t i = 0; i != n; ++i) {
    jobs[i].runs = &runs;
    jobs[i].again = kind != 3 && r.Chance(1, 3) ? strand.Get() : nullptr;
    jobs[i].left = jobs[i].again != nullptr ? r.In(1, 4) : 0;
    total += jobs[i].left == 0 ? 1u : static_cast<u64>(jobs[i].left);
  }
  Scenario("strand on %llu with %zu jobs", (unsigned long long)kind, n);
  const auto start = gNewAll.load();
  for (std::size_t i = 0; i != n; ++i) {
    strand->Submit(jobs[i]);
    if (kind == 1 && r.Chance(1, 4)) {
      (void)static_cast<yaclib::ManualExecutor*>(manual.Get())->Drain();
    }
  }
  if (kind == 1) {
    (void)static_cast<yaclib::ManualExecutor*>(manual.Get())->Drain();
  }
  for (u64 spins = 0; runs.load() != total; ++spins) {
    std::this_thread::yield();
    if (spins > 20000000) {
      Fail("*", "strand-lost", "strand executed %llu jobs of %llu", (unsigned long long)runs.load(), (unsigned long long)total);
    }
  }
  auto news = gNewAll.load() - start;
  VH_CHECK(news == 0, kP, "strand-submit", "%llu allocations for the submission and execution of %llu existing jobs",
           (unsigned long long)news, (unsigned long long)total);
  Count("strand_submissions", total);
  if (kind == 2) {
    // the strand itself may still be on its way out of the pool thread
    (void)yaclib::Run(*strand, [] {
      return 1;
    }).Get();
    strand = nullptr;
  }
  c.Note(kind * 1000 + n);
}

// ---- coroutines -------------------------------------------------------------------------------------------------------------
struct CoroWorld {
  std::vector<Future<int>> f;
  std::vector<FutureOn<int>> fo;
  std::vector<SharedFuture<int>> sf;
  std::vector<Promise<int>> p;
  std::vector<SharedPromise<int>> sp;
  yaclib::IExecutorPtr e;
  u64 windows = 0;
  u64 bad = 0;
  const char* what = "";
};

// the window is closed when the coroutine was resumed: the setting side runs inside of it
template <typename R>
R CoroBody(CoroWorld& w, int form) {
  u64 start = tNew;
  auto done = [&](const char* name) {
    auto n = tNew - start;
    if (n != 0 && w.bad == 0) {
      w.bad = n;
      w.what = name;
    }
    ++w.windows;
  };
  switch (form) {
    case 0: {
      start = tNew;
      try {
        (void)co_await std::move(w.f[0]);
      } catch (...) {
      }
      done("co_await future");
      break;
    }
    case 1: {
      start = tNew;
      try {
        (void)co_await std::move(w.fo[0]);
      } catch (...) {
      }
      done("co_await FutureOn");
      break;
    }
    case 2:
      start = tNew;
      co_await Await(w.f[0]);
      done("Await(f)");
      break;
    case 3:
      start = tNew;
      co_await Await(w.f[0], w.f[1], w.fo[0]);
      done("Await(f, f, f)");
      break;
    case 4:
      start = tNew;
      co_await yaclib::Await(w.f.begin(), w.f.size());
      done("Await(begin, count)");
      break;
    case 5:
      start = tNew;
      co_await yaclib::Await(w.fo.begin(), w.fo.end());
      done("Await(begin, end)");
      break;
    case 6:
      start = tNew;
      co_await AwaitOn(*w.e, w.f[0]);
      done("AwaitOn(e, f)");
      break;
    case 7:
      start = tNew;
      co_await AwaitOn(*w.e, w.f[0], w.f[1]);
      done("AwaitOn(e, f, f)");
      break;
    case 8:
      start = tNew;
      co_await AwaitOn(*w.e, w.f.begin(), w.f.size());
      done("AwaitOn(e, begin, count)");
      break;
    case 9:
      start = tNew;
      co_await AwaitInline(w.f[0]);
      done("AwaitInline(f)");
      break;
    case 10:
      start = tNew;
      co_await AwaitSticky(w.f[0]);
      done("AwaitSticky(f)");
      break;
    case 11:
      start = tNew;
      co_await AwaitSticky(w.f[0], w.f[1]);
      done("AwaitSticky(f, f)");
      break;
    case 12:
      start = tNew;
      co_await AwaitSticky(w.f.begin(), w.f.size());
      done("AwaitSticky(begin, count)");
      break;
    case 13: {
      start = tNew;
      try {
        (void)co_await w.sf[0];
      } catch (...) {
      }
      done("co_await shared");
      break;
    }
    case 14:
      start = tNew;
      co_await Await(w.sf[0]);
      done("Await(shared)");
      break;
    default:
      start = tNew;
      co_await Await(w.sf[0], w.f[0]);
      done("Await(shared, f)");
  }
  co_return {};
}

void Coros(Case& c) {
  auto& r = c.rng;
  CoroWorld w;
  auto manual = yaclib::MakeManual();
  w.e = r.Chance(1, 2) ? yaclib::IExecutorPtr{manual} : yaclib::IExecutorPtr{&yaclib::MakeInline()};
  const auto n = static_cast<std::size_t>(r.Pick({2, 3, 6, 30}));
  const int form = r.In(0, 15);
  for (std::size_t i = 0; i != n; ++i) {
    auto [a, b] = yaclib::MakeContract<int>();
    w.f.push_back(std::move(a));
    w.p.push_back(std::move(b));
    auto [d, e] = yaclib::MakeContractOn<int>(*w.e);
    w.fo.push_back(std::move(d));
    w.p.push_back(std::move(e));
    auto [x, y] = yaclib::MakeSharedContract<int>();
    w.sf.push_back(std::move(x));
    w.sp.push_back(std::move(y));
  }
  auto drain = [&] {
    while (static_cast<yaclib::ManualExecutor*>(manual.Get())->Drain() != 0) {
    }
  };
  Scenario("coroutine form %d over %zu futures", form, n);
  auto set_some = [&](bool all) {
    for (auto& p : w.p) {
      if (p.Valid() && (all || r.Chance(1, 2))) {
        SetOne(std::move(p), r.Chance(1, 4) ? r.In(1, 2) : 0);
      }
    }
    for (auto& p : w.sp) {
      if (p.Valid() && (all || r.Chance(1, 2))) {
        std::move(p).Set(1);
      }
    }
  };
  if (r.Chance(1, 2)) {
    set_some(r.Chance(1, 2));
  }
  const bool lazy = r.Chance(1, 3);
  const auto before = tNew;
  if (lazy) {
    auto t = CoroBody<Task<int>>(w, form);
    VH_CHECK(tNew - before <= 1, kP, "coroutine-frame", "%llu allocations to create a coroutine Task",
             (unsigned long long)(tNew - before));
    auto f = std::move(t).ToFuture(*w.e);
    drain();
    set_some(false);
    drain();
    set_some(true);
    drain();
    VH_CHECK(f.Ready(), "*", "coroutine-not-ready", "coroutine has not completed (form %d)", form);
    (void)std::move(f).Get();
  } else {
    auto f = CoroBody<Future<int>>(w, form);
    set_some(false);
    drain();
    set_some(true);
    drain();
    VH_CHECK(f.Ready(), "*", "coroutine-not-ready", "coroutine has not completed (form %d)", form);
    (void)std::move(f).Get();
  }
  const auto total = tNew - before;
  VH_CHECK(w.bad == 0, kP, "co_await", "%s: %llu allocations", w.what, (unsigned long long)w.bad);
  VH_CHECK(w.windows == 1, "*", "co_await-window", "coroutine passed %llu awaits, want 1", (unsigned long long)w.windows);
  VH_CHECK(total <= 1, kP, "coroutine-total", "%llu allocations for a coroutine awaiting futures (form %d)",
           (unsigned long long)total, form);
  Count("co_await_windows", w.windows);
  c.Note(static_cast<u64>(form) * 1000 + n);
}

void Body(Case& c) {
  gNoiseLevel.store(0);
  auto kind = c.rng.Below(32);
  if (kind < 17) {
    Count("pipeline_cases");
    Pipelines(c);
  } else if (kind < 18) {
    Count("pool_cases");
    PoolPipelines(c);
  } else if (kind < 20) {
    Count("combinator_cases");
    Combinators(c);
  } else if (kind < 23) {
    Count("wait_cases");
    c.rng.Chance(1, 2) ? Waits<int>(c) : Waits<void>(c);
  } else if (kind < 24) {
    Count("get_cases");
    switch (c.rng.Below(3)) {
      case 0:
        Gets<int>(c);
        break;
      case 1:
        Gets<void>(c);
        break;
      default:
        Gets<Mo>(c);
    }
  } else if (kind < 27) {
    Count("strand_cases");
    Strands(c);
  } else {
    Count("coroutine_cases");
    Coros(c);
  }
}

void Init() {
  auto pool = yaclib::MakeFairThreadPool(2);
  gPool = pool;
  gPoolStrand = yaclib::MakeStrand(gPool);
}

}  // namespace

int main(int argc, char** argv) {
  auto code = Main(argc, argv, &Body, &Init);
  std::fflush(stdout);
  ::_exit(code);  // the pool stays
}
