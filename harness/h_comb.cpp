// WhenAll / Join / WhenAny (C09, C10): completions from several threads racing with registration and with each other.
// mode "all": WhenAll (vector, tuple) and Join, mode "any": WhenAny, default: both.
#include "through.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>

#include <deque>
#include <optional>
#include <tuple>
#include <variant>

using namespace vh;
using yaclib::FailPolicy;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedPromise;

namespace {

constexpr u64 kInf = ~0ull;

struct MoveOnly {
  explicit MoveOnly(u64 id) : v{id} {
  }
  MoveOnly() : v{0} {
  }
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) noexcept = default;
  Val v;
};

template <typename T>
u64 Ident(const T& v) {
  if constexpr (std::is_same_v<T, MoveOnly>) {
    return v.v.Id();
  } else {
    return IdOf(v);
  }
}
template <typename V>
Out ToOut(const Result<V, Err>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {St::V, Ident(r.Value())};
    case yaclib::ResultState::Error:
      return {St::E, r.Error().Id()};
    case yaclib::ResultState::Exception:
      return {St::X, BoomId(r.Exception())};
    default:
      return {};
  }
}
template <typename V>
Result<V, Err> FromOut(Out o) {
  switch (o.st) {
    case St::V:
      if constexpr (std::is_void_v<V>) {
        return Result<V, Err>{std::in_place};
      } else {
        return Result<V, Err>{std::in_place, o.id};
      }
    case St::E:
      return o.id == kStopId ? Result<V, Err>{yaclib::StopTag{}} : Result<V, Err>{Err{o.id}};
    default:
      return Result<V, Err>{BoomPtr(o.id)};
  }
}

struct Input {
  Out plan;
  bool open_end = false;  // completion has no observable upper bound
  std::atomic<u64> begin{0};
  std::atomic<u64> end{0};
  Out Expect(bool is_void) const {
    return is_void && plan.st == St::V ? Out{St::V, 0} : plan;
  }
};

struct World {
  std::deque<Input> inputs;
  std::vector<std::vector<std::function<void()>>> actions;  // per thread
  std::vector<std::function<void()>> after;                 // checks of kept copies at quiescence
  TrackExec ex[2];
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  int value_pct = 70;
  u64 next = 10;
};
World* gW = nullptr;

Out RandPlan(Rng& rng) {
  auto id = gW->next++;
  if (rng.In(0, 99) < gW->value_pct) {
    return {St::V, id};
  }
  switch (rng.Below(3)) {
    case 0:
      return {St::E, id};
    case 1:
      return {St::X, id};
    default:
      return Out::Stop();
  }
}

template <typename V>
Future<V, Err> CoInput(Input* in, Future<Val, Err> gate) {
  FnToken t;
  co_await Await(gate);
  t.Touch();
  if (in->plan.st == St::X) {
    ThrowBoom(in->plan.id);
  }
  co_return FromOut<V>(in->plan);
}

template <typename F>
void Timed(Input* in, F&& f) {
  in->begin.store(Now(), std::memory_order_relaxed);
  f();
  in->end.store(Now(), std::memory_order_relaxed);
}

void Act(Rng& rng, std::function<void()> f) {
  gW->actions[rng.Below(gW->actions.size())].push_back(std::move(f));
}

template <typename P>
struct Box {  // a promise shared with an action
  P p;
};

// Unique input. kind is noted in the scenario.
template <typename V>
Future<V, Err> MakeIn(Rng& rng, int& kind) {
  auto* in = &gW->inputs.emplace_back();
  in->plan = RandPlan(rng);
  kind = rng.Pick({0, 0, 0, 0, 1, 2, 3, 4, 5});
  if (kind == 4 && gW->pool == nullptr) {
    kind = 0;
  }
  switch (kind) {
    case 2: {  // ready from the beginning
      std::optional<Future<V, Err>> f;
      Timed(in, [&] {
        if constexpr (std::is_void_v<V>) {
          auto [ff, p] = yaclib::MakeContract<V, Err>();
          std::move(p).Set(FromOut<V>(in->plan));
          f.emplace(std::move(ff));
        } else {
          f.emplace(yaclib::MakeFuture<V, Err>(FromOut<V>(in->plan)));
        }
      });
      return std::move(*f);
    }
    case 1: {  // dropped promise
      in->plan = Out::Stop();
      auto [f, p] = yaclib::MakeContract<V, Err>();
      auto* raw = new Box<Promise<V, Err>>{std::move(p)};
      Act(rng, [in, raw] {
        Timed(in, [&] {
          delete raw;
        });
      });
      return std::move(f);
    }
    case 3: {  // pipeline over a promise
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      auto* raw = new Box<Promise<Val, Err>>{std::move(p)};
      Act(rng, [in, raw] {
        Timed(in, [&] {
          std::move(raw->p).Set(Val{1});
          delete raw;
        });
      });
      return std::move(f).ThenInline([in, t = FnToken{}](Val v) {
        t.Touch();
        (void)v.Id();
        return FromOut<V>(in->plan);
      });
    }
    case 4: {  // pool job
      in->open_end = true;
      in->end.store(kInf);
      return yaclib::Run<Err>(gW->ex[rng.Below(2)],
                              [in, t = FnToken{}]() {
                                t.Touch();
                                in->begin.store(Now(), std::memory_order_relaxed);
                                if (in->plan.st == St::X) {
                                  ThrowBoom(in->plan.id);
                                }
                                return FromOut<V>(in->plan);
                              })
        .On(nullptr);
    }
    case 5: {  // coroutine
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      auto* raw = new Box<Promise<Val, Err>>{std::move(p)};
      Act(rng, [in, raw] {
        Timed(in, [&] {
          std::move(raw->p).Set(Val{1});
          delete raw;
        });
      });
      return CoInput<V>(in, std::move(f));
    }
    default: {
      auto [f, p] = yaclib::MakeContract<V, Err>();
      auto* raw = new Box<Promise<V, Err>>{std::move(p)};
      Act(rng, [in, raw] {
        Timed(in, [&] {
          std::move(raw->p).Set(FromOut<V>(in->plan));
          delete raw;
        });
      });
      return std::move(f);
    }
  }
}

template <typename V>
FutureOn<V, Err> MakeOn(Rng& rng, int& kind) {
  auto* in = &gW->inputs.emplace_back();
  in->plan = RandPlan(rng);
  kind = 10;
  auto [f, p] = yaclib::MakeContractOn<V, Err>(gW->ex[rng.Below(2)]);
  auto* raw = new Box<Promise<V, Err>>{std::move(p)};
  Act(rng, [in, raw] {
    Timed(in, [&] {
      std::move(raw->p).Set(FromOut<V>(in->plan));
      delete raw;
    });
  });
  return std::move(f);
}

template <typename V>
void WatchCopy(Rng& rng, const SharedFuture<V, Err>& s, Input* in) {
  // other observers of the same shared state must see an intact result whatever the combinator does
  if (rng.Chance(1, 3)) {
    auto want = in->Expect(std::is_void_v<V>);
    auto hits = std::make_shared<std::atomic<int>>(0);
    s.SubscribeInline([want, hits, t = FnToken{}](const Result<V, Err>& r) {
      t.Touch();
      auto got = ToOut(r);
      VH_CHECK(got == want, "C06,C09,C10", "shared-observer", "observer of a combined SharedFuture sees %s, expected %s",
               got.Str().c_str(), want.Str().c_str());
      hits->fetch_add(1);
    });
    gW->after.push_back([hits] {
      VH_CHECK(hits->load() == 1, "C06,C09,C10", "shared-observer-count", "observer of a combined SharedFuture fired %d times",
               hits->load());
    });
  }
  if (rng.Chance(1, 3)) {
    gW->after.push_back([s, want = in->Expect(std::is_void_v<V>)] {
      VH_CHECK(s.Ready(), "C06,C09,C10", "shared-copy-not-ready", "kept copy of a combined SharedFuture is not Ready");
      auto got = ToOut(s.Touch());
      VH_CHECK(got == want, "C06,C09,C10", "shared-copy", "kept copy of a combined SharedFuture holds %s, expected %s",
               got.Str().c_str(), want.Str().c_str());
    });
  }
}

template <typename V>
SharedFuture<V, Err> MakeSh(Rng& rng, int& kind) {
  auto* in = &gW->inputs.emplace_back();
  in->plan = RandPlan(rng);
  kind = 20 + static_cast<int>(rng.Pick({0, 0, 0, 1, 2}));
  auto [f, p] = yaclib::MakeSharedContract<V, Err>();
  if (kind == 21) {
    in->plan = Out::Stop();
  }
  if (kind == 22) {
    Timed(in, [&, &pp = p] {
      std::move(pp).Set(FromOut<V>(in->plan));
    });
  } else {
    auto* raw = new Box<SharedPromise<V, Err>>{std::move(p)};
    Act(rng, [in, raw, drop = kind == 21] {
      Timed(in, [&] {
        if (!drop) {
          std::move(raw->p).Set(FromOut<V>(in->plan));
        }
        delete raw;
      });
    });
  }
  if (rng.Chance(1, 4)) {
    f = ThroughShared(std::move(f));
  }
  WatchCopy(rng, f, in);
  return std::move(f);
}

// ---- observation -------------------------------------------------------------------------------------------------------------
struct Seen {
  bool seen = false;
  bool failed = false;
  Out fail;
  std::vector<Out> items;
};

template <typename T>
struct ToItems;
template <typename V>
struct ToItems<std::vector<V>> {
  static void Do(const std::vector<V>& v, std::vector<Out>& items) {
    for (auto& x : v) {
      if constexpr (yaclib::is_result_v<V>) {
        items.push_back(ToOut(x));
      } else {
        items.push_back({St::V, Ident(x)});
      }
    }
  }
};
template <typename... V>
struct ToItems<std::tuple<V...>> {
  template <typename X>
  static void One(const X& x, std::vector<Out>& items) {
    if constexpr (yaclib::is_result_v<X>) {
      items.push_back(ToOut(x));
    } else {
      items.push_back({St::V, Ident(x)});
    }
  }
  static void Do(const std::tuple<V...>& v, std::vector<Out>& items) {
    std::apply(
      [&](const auto&... x) {
        (One(x, items), ...);
      },
      v);
  }
};
template <typename... V>
struct ToItems<std::variant<V...>> {
  static void Do(const std::variant<V...>& v, std::vector<Out>& items) {
    std::visit(
      [&](const auto& x) {
        items.push_back({St::V, Ident(x)});
      },
      v);
  }
};
template <typename V>
struct ToItems {
  static void Do(const V& v, std::vector<Out>& items) {
    items.push_back({St::V, Ident(v)});
  }
};

struct Probe {
  std::atomic<int> calls{0};
  Seen s;
  u64 at = 0;
};

template <typename V>
Seen Observe(const Result<V, Err>& r) {
  Seen s;
  s.seen = true;
  if (r.State() == yaclib::ResultState::Value) {
    if constexpr (!std::is_void_v<V>) {
      ToItems<V>::Do(r.Value(), s.items);
    }
  } else {
    s.failed = true;
    s.fail = r.State() == yaclib::ResultState::Error       ? Out{St::E, r.Error().Id()}
             : r.State() == yaclib::ResultState::Exception ? Out{St::X, BoomId(r.Exception())}
                                                           : Out{};
  }
  return s;
}

enum class Rule { AllNone, AllFirstFail, JoinNone, JoinFirstFail, AnyNone, AnyFirstFail, AnyLastFail };
const char* kRule[] = {"All<None>", "All<FirstFail>", "Join<None>", "Join<FirstFail>", "Any<None>", "Any<FirstFail>", "Any<LastFail>"};

struct Job {
  Rule rule{};
  std::vector<bool> is_void;      // per input
  std::vector<std::size_t> alias;  // index in World::inputs
  u64 when_begin = 0, when_end = 0, attach_end = 0;
  Seen seen;
  u64 at_lo = 0, at_hi = 0;  // completion observed within
  bool exact = false;
  bool tail = false;  // dropped, nothing to see
};

const char* Props(Rule r) {
  return r >= Rule::AnyNone ? "C10" : "C09";
}

void Judge(const Job& j) {
  if (j.tail) {
    return;
  }
  const auto* props = Props(j.rule);
  const auto* name = kRule[static_cast<int>(j.rule)];
  VH_CHECK(j.seen.seen, props, "lost", "%s never completed", name);
  const auto n = j.alias.size();
  struct I {
    Out o;
    u64 b, e, raw_b;
    bool ok;
  };
  std::vector<I> in;
  bool open = false;
  for (std::size_t i = 0; i != n; ++i) {
    auto& x = gW->inputs[j.alias[i]];
    open = open || x.open_end;
    VH_CHECK(x.begin.load() != 0 && x.end.load() != 0, "*", "harness-input-not-completed", "input %zu never completed", i);
    in.push_back({x.Expect(j.is_void[i]), std::max(x.begin.load(), j.when_begin), std::max(x.end.load(), j.when_end), x.begin.load(),
                  x.plan.st == St::V});
  }
  const u64 lo = j.at_lo, hi = j.at_hi;
  u64 last_begin = 0, last_end = 0;
  bool any_fail = false, any_ok = false;
  for (auto& i : in) {
    last_begin = std::max(last_begin, i.raw_b);
    last_end = std::max(last_end, i.e);
    any_fail = any_fail || !i.ok;
    any_ok = any_ok || i.ok;
  }
  auto items_ok = [&](bool full) {
    VH_CHECK(!j.seen.failed, props, "unexpected-failure", "%s failed with %s", name, j.seen.fail.Str().c_str());
    if (full) {
      VH_CHECK(j.seen.items.size() == n, props, "wrong-size", "%s: %zu items for %zu inputs", name, j.seen.items.size(), n);
      for (std::size_t i = 0; i != n; ++i) {
        VH_CHECK(j.seen.items[i] == in[i].o, props, "wrong-item", "%s: item %zu is %s, input %zu completed with %s", name, i,
                 j.seen.items[i].Str().c_str(), i, in[i].o.Str().c_str());
      }
    }
    VH_CHECK(hi >= last_begin, props, "too-early", "%s completed before its last input started to complete", name);
    VH_CHECK(!j.exact || lo <= std::max(last_end, j.attach_end), props, "too-late", "%s completed after its last input had completed",
             name);
  };
  // winner among inputs selected by `sel`, no other selected input is strictly before (or after, if last) it
  auto winner = [&](auto sel, Out got, bool last, const char* what) {
    bool value_match = false, order_match = false, time_match = false;
    for (std::size_t i = 0; i != n; ++i) {
      if (!sel(in[i]) || in[i].o != got) {
        continue;
      }
      value_match = true;
      bool ok = true;
      for (std::size_t k = 0; k != n; ++k) {
        if (k != i && sel(in[k])) {
          ok = ok && (last ? !(in[k].b > in[i].e) : !(in[k].e < in[i].b));
        }
      }
      if (!ok) {
        continue;
      }
      order_match = true;
      if (hi >= in[i].raw_b && (!j.exact || lo <= std::max(in[i].e, j.attach_end))) {
        time_match = true;
      }
    }
    VH_CHECK(value_match, props, "wrong-outcome", "%s completed with %s, which is no %s of its inputs", name, got.Str().c_str(), what);
    VH_CHECK(order_match, props, "wrong-winner", "%s completed with %s, but another %s came strictly %s", name, got.Str().c_str(), what,
             last ? "later" : "earlier");
    VH_CHECK(time_match, props, "wrong-moment", "%s completed with %s at a moment that input was not completing", name,
             got.Str().c_str());
  };
  auto is_fail = [](const I& i) {
    return !i.ok;
  };
  auto is_ok = [](const I& i) {
    return i.ok;
  };
  auto all = [](const I&) {
    return true;
  };
  const bool failed = j.seen.failed;
  const Out got = failed ? j.seen.fail : j.seen.items.empty() ? Out{St::V, 0} : j.seen.items[0];
  switch (j.rule) {
    case Rule::AllNone:
      items_ok(true);
      break;
    case Rule::JoinNone:
      items_ok(false);
      break;
    case Rule::AllFirstFail:
    case Rule::JoinFirstFail:
      if (any_fail) {
        VH_CHECK(failed, props, "failure-swallowed", "%s reports success although an input failed", name);
        winner(is_fail, got, false, "failure");
      } else {
        items_ok(j.rule == Rule::AllFirstFail && !(n != 0 && j.is_void[0] && j.seen.items.empty()));
      }
      break;
    case Rule::AnyNone:
      winner(all, got, false, "completion");
      break;
    case Rule::AnyFirstFail:
      if (any_ok) {
        VH_CHECK(!failed, props, "value-ignored", "%s failed with %s although an input has a value", name, got.Str().c_str());
        winner(is_ok, got, false, "value");
      } else {
        VH_CHECK(failed, props, "wrong-outcome", "%s reports a value although every input failed", name);
        // the failure that came first; the moment is that of the last completion
        bool order_match = false, value_match = false;
        for (std::size_t i = 0; i != n; ++i) {
          if (in[i].o == got) {
            value_match = true;
            bool ok = true;
            for (std::size_t k = 0; k != n; ++k) {
              ok = ok && (k == i || !(in[k].e < in[i].b));
            }
            order_match = order_match || ok;
          }
        }
        VH_CHECK(value_match, props, "wrong-outcome", "%s completed with %s, which is not the failure of an input", name,
                 got.Str().c_str());
        VH_CHECK(order_match, props, "wrong-winner", "%s completed with %s, but another failure came strictly earlier", name,
                 got.Str().c_str());
        VH_CHECK(hi >= last_begin, props, "too-early", "%s failed before its last input started to complete", name);
        VH_CHECK(!j.exact || lo <= std::max(last_end, j.attach_end), props, "too-late", "%s failed after its last input had completed",
                 name);
      }
      break;
    case Rule::AnyLastFail:
      if (any_ok) {
        VH_CHECK(!failed, props, "value-ignored", "%s failed with %s although an input has a value", name, got.Str().c_str());
        winner(is_ok, got, false, "value");
      } else {
        VH_CHECK(failed, props, "wrong-outcome", "%s reports a value although every input failed", name);
        winner(all, got, true, "failure");
        VH_CHECK(hi >= last_begin, props, "too-early", "%s failed before its last input started to complete", name);
      }
      break;
  }
  Count(std::string{"judged "} + name);
  if (j.exact) {
    Count("exact_moments");
  }
  (void)open;
}

// ---- one case ------------------------------------------------------------------------------------------------------------------
struct Runner {
  Case& c;
  Rng& rng;
  Job job;
  Probe probe;
  std::deque<Thread> threads;
  int term = 0;

  void Start() {
    const bool early = rng.Chance(2, 3);
    ScenarioAdd(" threads=%zu early=%d", gW->actions.size(), early);
    if (early) {
      Launch();
    }
  }
  void Launch() {
    for (auto& list : gW->actions) {
      for (auto i = list.size(); i > 1; --i) {
        std::swap(list[i - 1], list[rng.Below(i)]);
      }
      threads.emplace_back([&list] {
        for (auto& f : list) {
          Point();
          f();
        }
        list.clear();
      });
    }
  }

  template <typename V>
  void Finish(Future<V, Err> out) {
    using Res = Result<V, Err>;
    if (threads.empty()) {
      Launch();
    }
    term = rng.Pick({0, 0, 0, 0, 1, 2, 3, 4});
    ScenarioAdd(" term=%d", term);
    VH_CHECK(out.Valid(), Props(job.rule), "invalid-output", "combinator returned an invalid future");
    switch (term) {
      case 0:
        std::move(out).DetachInline([this, t = FnToken{}](Res&& r) {
          t.Touch();
          auto n = probe.calls.fetch_add(1) + 1;
          VH_CHECK(n == 1, Props(job.rule), "completed-twice", "combinator completed %d times", n);
          probe.at = Now();
          probe.s = Observe<V>(r);
        });
        job.attach_end = Now();
        break;
      case 1: {
        auto r = std::move(out).Get();
        job.seen = Observe<V>(r);
        job.at_lo = 0;
        job.at_hi = Now();
        break;
      }
      case 2: {
        job.tail = true;
        auto drop = std::move(out);
        break;
      }
      case 3: {
        while (!out.Ready()) {
          Point();
#if YACLIB_FAULT == 2
          yaclib_std::this_thread::sleep_for(std::chrono::microseconds{1});
#else
          yaclib_std::this_thread::yield();
#endif
        }
        job.at_hi = Now();
        job.seen = Observe<V>(std::as_const(out).Touch());
        break;
      }
      default: {
        auto f2 = std::move(out).ThenInline([this, t = FnToken{}](Res&& r) {
          t.Touch();
          probe.at = Now();
          probe.calls.fetch_add(1);
          probe.s = Observe<V>(r);
        });
        job.attach_end = Now();
        yaclib::Wait(f2);
        break;
      }
    }
    for (auto& t : threads) {
      t.join();
    }
    if (gW->pool) {
      gW->pool->SoftStop();
      gW->pool->Wait();
    }
    if (term == 0 || term == 4) {
      VH_CHECK(probe.calls.load() == 1, Props(job.rule), "lost", "combinator completed %d times", probe.calls.load());
      job.seen = probe.s;
      job.at_lo = job.at_hi = probe.at;
      job.exact = true;
    }
    Judge(job);
    probe.s = {};
  }

  template <typename F>
  auto Build(Rule rule, F&& f) {
    job.rule = rule;
    Start();
    job.when_begin = Now();
    auto out = f();
    job.when_end = Now();
    return out;
  }
  void Add(bool is_void) {
    job.is_void.push_back(is_void);
    job.alias.push_back(gW->inputs.size() - 1);
  }

  template <typename F>
  struct ValueOf;

  // homogeneous range
  template <typename Fut>
  void Range(std::vector<Fut>& v, int n, bool dup) {
    using V = typename Fut::Core::Value;
    ScenarioAdd(" n=%d[", n);
    for (int i = 0; i != n; ++i) {
      int kind = 0;
      if constexpr (std::is_same_v<Fut, SharedFuture<V, Err>>) {
        if (dup && i != 0 && rng.Chance(1, 3)) {
          auto k = rng.Below(v.size());
          auto copy = v[k];
          v.push_back(std::move(copy));
          job.is_void.push_back(std::is_void_v<V>);
          job.alias.push_back(job.alias[k]);
          ScenarioAdd("dup%d,", static_cast<int>(k));
          continue;
        }
        v.push_back(MakeSh<V>(rng, kind));
      } else if constexpr (std::is_same_v<Fut, FutureOn<V, Err>>) {
        v.push_back(MakeOn<V>(rng, kind));
      } else {
        v.push_back(MakeIn<V>(rng, kind));
      }
      Add(std::is_void_v<V>);
      ScenarioAdd("%d%s,", kind, gW->inputs.back().plan.st == St::V ? "" : "!");
    }
    ScenarioAdd("]");
  }

  template <typename Fut>
  void AllRange(int n) {
    std::vector<Fut> v;
    Range(v, n, true);
    using V = typename Fut::Core::Value;
    int how = rng.In(0, 3);
    ScenarioAdd(" how=%d", how);
    const bool by_end = rng.Chance(1, 2);
    switch (how) {
      case 0:
        return Finish(Build(std::is_void_v<V> ? Rule::JoinFirstFail : Rule::AllFirstFail, [&] {
          return by_end ? yaclib::WhenAll(v.begin(), v.end()) : yaclib::WhenAll(v.begin(), v.size());
        }));
      case 1:
        return Finish(Build(Rule::AllNone, [&] {
          return by_end ? yaclib::WhenAll<FailPolicy::None>(v.begin(), v.end()) : yaclib::WhenAll<FailPolicy::None>(v.begin(), v.size());
        }));
      case 2:
        return Finish(Build(Rule::JoinNone, [&] {
          return by_end ? yaclib::Join(v.begin(), v.end()) : yaclib::Join(v.begin(), v.size());
        }));
      default:
        return Finish(Build(Rule::JoinFirstFail, [&] {
          return yaclib::Join<FailPolicy::FirstFail>(v.begin(), v.size());
        }));
    }
  }
  template <typename Fut>
  void AnyRange(int n) {
    std::vector<Fut> v;
    Range(v, n, true);
    int how = rng.In(0, 2);
    ScenarioAdd(" how=%d", how);
    switch (how) {
      case 0:
        return Finish(Build(Rule::AnyLastFail, [&] {
          return rng.Chance(1, 2) ? yaclib::WhenAny(v.begin(), v.end()) : yaclib::WhenAny(v.begin(), v.size());
        }));
      case 1:
        return Finish(Build(Rule::AnyFirstFail, [&] {
          return yaclib::WhenAny<FailPolicy::FirstFail>(v.begin(), v.size());
        }));
      default:
        return Finish(Build(Rule::AnyNone, [&] {
          return yaclib::WhenAny<FailPolicy::None>(v.begin(), v.size());
        }));
    }
  }

  template <typename V>
  Future<V, Err> U() {
    int kind = 0;
    auto f = MakeIn<V>(rng, kind);
    Add(std::is_void_v<V>);
    ScenarioAdd(" %d%s", kind, gW->inputs.back().plan.st == St::V ? "" : "!");
    return f;
  }
  template <typename V>
  FutureOn<V, Err> O() {
    int kind = 0;
    auto f = MakeOn<V>(rng, kind);
    Add(std::is_void_v<V>);
    ScenarioAdd(" on%s", gW->inputs.back().plan.st == St::V ? "" : "!");
    return f;
  }
  template <typename V>
  SharedFuture<V, Err> S() {
    int kind = 0;
    auto f = MakeSh<V>(rng, kind);
    Add(std::is_void_v<V>);
    ScenarioAdd(" %d%s", kind, gW->inputs.back().plan.st == St::V ? "" : "!");
    return f;
  }

  template <typename... F>
  void AllStatic(F... fs) {
    constexpr bool kAllVoid = (... && std::is_void_v<typename F::Core::Value>);
    int how = rng.In(0, 3);
    ScenarioAdd(" how=%d", how);
    switch (how) {
      case 0:
        return Finish(Build(kAllVoid ? Rule::JoinFirstFail : Rule::AllFirstFail, [&] {
          return yaclib::WhenAll(std::move(fs)...);
        }));
      case 1:
        return Finish(Build(Rule::AllNone, [&] {
          return yaclib::WhenAll<FailPolicy::None>(std::move(fs)...);
        }));
      case 2:
        return Finish(Build(Rule::JoinNone, [&] {
          return yaclib::Join(std::move(fs)...);
        }));
      default:
        return Finish(Build(Rule::JoinFirstFail, [&] {
          return yaclib::Join<FailPolicy::FirstFail>(std::move(fs)...);
        }));
    }
  }
  template <typename... F>
  void AnyStatic(F... fs) {
    int how = rng.In(0, 2);
    ScenarioAdd(" how=%d", how);
    switch (how) {
      case 0:
        return Finish(Build(Rule::AnyLastFail, [&] {
          return yaclib::WhenAny(std::move(fs)...);
        }));
      case 1:
        return Finish(Build(Rule::AnyFirstFail, [&] {
          return yaclib::WhenAny<FailPolicy::FirstFail>(std::move(fs)...);
        }));
      default:
        return Finish(Build(Rule::AnyNone, [&] {
          return yaclib::WhenAny<FailPolicy::None>(std::move(fs)...);
        }));
    }
  }

  void All() {
    const int shape = rng.In(0, 13);
    const int n = rng.Pick({1, 2, 2, 3, 3, 4, 5});
    ScenarioAdd(" shape=%d", shape);
    switch (shape) {
      case 0:
      case 1:
        return AllRange<Future<Val, Err>>(n);
      case 2:
        return AllRange<SharedFuture<Val, Err>>(n);
      case 3:
        return AllRange<FutureOn<Val, Err>>(n);
      case 4:
        return AllRange<Future<void, Err>>(n);
      case 5:
        return AllRange<SharedFuture<void, Err>>(n);
      case 6:  // (WhenAll over a range of move-only values does not compile: std::vector claims to be copyable)
      case 7: {
        auto a = U<Val>();
        auto b = U<Val>();
        auto d = U<Val>();
        return AllStatic(std::move(a), std::move(b), std::move(d));
      }
      case 8: {
        auto a = U<Val>();
        auto b = S<Val>();
        auto d = O<Val>();
        return AllStatic(std::move(a), std::move(b), std::move(d));
      }
      case 9: {
        auto a = U<Val>();
        auto b = U<u64>();
        auto d = U<void>();
        return AllStatic(std::move(a), std::move(b), std::move(d));
      }
      case 10: {
        auto a = S<Val>();
        auto b = U<u64>();
        auto d = S<void>();
        auto e = U<MoveOnly>();
        return AllStatic(std::move(a), std::move(b), std::move(d), std::move(e));
      }
      case 11: {
        auto a = S<Val>();
        auto b = S<Val>();
        return AllStatic(std::move(a), std::move(b));
      }
      case 12: {
        auto a = U<void>();
        auto b = S<void>();
        return AllStatic(std::move(a), std::move(b));
      }
      default: {
        auto a = U<MoveOnly>();
        auto b = U<MoveOnly>();
        auto d = U<void>();
        return AllStatic(std::move(a), std::move(b), std::move(d));
      }
    }
  }
  void Any() {
    const int shape = rng.In(0, 11);
    const int n = rng.Pick({1, 2, 2, 3, 3, 4, 5});
    ScenarioAdd(" shape=%d", shape);
    switch (shape) {
      case 0:
      case 1:
        return AnyRange<Future<Val, Err>>(n);
      case 2:
        return AnyRange<SharedFuture<Val, Err>>(n);
      case 3:
        return AnyRange<FutureOn<Val, Err>>(n);
      case 4:
        return AnyRange<Future<void, Err>>(n);
      case 5:
        return AnyRange<Future<MoveOnly, Err>>(n);
      case 6: {
        auto a = U<Val>();
        auto b = U<Val>();
        auto d = U<Val>();
        return AnyStatic(std::move(a), std::move(b), std::move(d));
      }
      case 7: {
        auto a = U<Val>();
        auto b = S<Val>();
        auto d = O<Val>();
        return AnyStatic(std::move(a), std::move(b), std::move(d));
      }
      case 8: {
        auto a = U<Val>();
        auto b = U<MoveOnly>();
        return AnyStatic(std::move(a), std::move(b));
      }
      case 9: {
        auto a = S<Val>();
        auto b = U<MoveOnly>();
        auto d = S<Val>();
        auto e = S<u64>();
        return AnyStatic(std::move(a), std::move(b), std::move(d), std::move(e));
      }
      case 10: {
        auto a = S<Val>();
        return AnyStatic(std::move(a));
      }
      default: {
        auto a = U<void>();
        auto b = S<void>();
        return AnyStatic(std::move(a), std::move(b));
      }
    }
  }
};

void EmptyInputs() {
  std::vector<Future<Val, Err>> none;
  std::vector<SharedFuture<Val, Err>> none_s;
  std::vector<Future<void, Err>> none_v;
  VH_CHECK(!yaclib::WhenAll(none.begin(), none.end()).Valid(), "C09", "empty-valid", "WhenAll of nothing is valid");
  VH_CHECK(!yaclib::WhenAll<FailPolicy::None>(none.begin(), 0).Valid(), "C09", "empty-valid", "WhenAll<None> of nothing is valid");
  VH_CHECK(!yaclib::WhenAll(none_v.begin(), 0).Valid(), "C09", "empty-valid", "WhenAll<void> of nothing is valid");
  VH_CHECK(!yaclib::WhenAll(none_s.begin(), 0).Valid(), "C09", "empty-valid", "WhenAll of no shared is valid");
  VH_CHECK(!yaclib::Join(none.begin(), 0).Valid(), "C09", "empty-valid", "Join of nothing is valid");
  VH_CHECK(!yaclib::Join<FailPolicy::FirstFail>(none_s.begin(), none_s.end()).Valid(), "C09", "empty-valid", "Join of nothing is valid");
  VH_CHECK(!yaclib::WhenAny(none.begin(), none.end()).Valid(), "C10", "empty-valid", "WhenAny of nothing is valid");
}

void Body(Case& c) {
  auto& rng = c.rng;
  ResetExecStacks();
  World w;
  gW = &w;
  const bool any = gOpt.mode == "any" || (gOpt.mode != "all" && rng.Chance(1, 2));
  w.value_pct = rng.Pick({0, 0, 30, 70, 95, 100, 100});
  const int nthreads = rng.In(1, 3);
  w.actions.resize(static_cast<std::size_t>(nthreads));
  if (rng.Chance(1, 3)) {
    w.pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 2)));
  }
  for (int i = 0; i != 2; ++i) {
    w.ex[i].Init(i, w.pool.Get());
  }
  Scenario("%s ok%%=%d pool=%d", any ? "any" : "all", w.value_pct, w.pool != nullptr);
  if (c.index % 64 == 0) {
    EmptyInputs();
  }
  {
    Runner r{c, rng, {}, {}, {}, 0};
    if (any) {
      r.Any();
    } else {
      r.All();
    }
    c.Note(r.job.seen.items.size() * 8 + r.job.seen.failed);
  }
  for (auto& f : w.after) {
    f();
  }
  w.after.clear();
  c.nontrivial = w.inputs.size() > 1;
  for (int i = 0; i != 2; ++i) {
    VH_CHECK(w.ex[i].refs.load() == 0, "C03,C09,C10", "executor-leak", "executor %d still referenced %d times", i, w.ex[i].refs.load());
  }
  w.pool = nullptr;
  CheckLedgers("C03,C09,C10");
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Body);
}
