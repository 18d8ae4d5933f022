// C02, C03: the forms a callback can come in. A library call gets the functor as an rvalue, lvalue, const lvalue, std::function
// or a plain function; whatever the form, the library runs its own copy (the caller's object is destroyed before anything runs,
// and an lvalue must be left as it was), exactly as often as the sequential reading says, and releases it.
#include "types.hpp"
#include "vh.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

#include <functional>
#include <optional>
#include <vector>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;
using yaclib::Task;

namespace {

constexpr const char* kProps = "C02,C03,C05";
using R = Result<Val, Err>;

struct Plan {
  int calls = 0;
  Out in;           // what it is called with (value callbacks only see values)
  u64 out = 0;      // value it returns
  bool throws = false;
};
struct World {
  std::vector<Plan> steps = std::vector<Plan>(16);
  int free_step = -1;  // the plain functions find their plan here
};
World* gW = nullptr;

void Enter(int step, const Val* x) {
  auto& p = gW->steps[static_cast<std::size_t>(step)];
  ++p.calls;
  p.in = x != nullptr ? Out{St::V, x->Id()} : Out{St::Empty, 0};
  if (p.throws) {
    ThrowBoom(p.out);
  }
}
Val Answer(int step, const Val* x) {
  Enter(step, x);
  return Val{gW->steps[static_cast<std::size_t>(step)].out};
}
void Fulfil(int step, auto&& p) {
  Enter(step, nullptr);
  std::move(p).Set(std::in_place, gW->steps[static_cast<std::size_t>(step)].out);
}

// One functor type per position in a pipeline; every value category of the object has its operator.
struct First {
  int step;
  FnToken tok{};
  Val operator()() & {
    return tok.Touch(), Answer(step, nullptr);
  }
  Val operator()() const& {
    return tok.Touch(), Answer(step, nullptr);
  }
  Val operator()() && {
    return tok.Touch(), Answer(step, nullptr);
  }
  static Val Free() {
    return Answer(gW->free_step, nullptr);
  }
  using Std = std::function<Val()>;
};
struct Next {
  int step;
  FnToken tok{};
  Val operator()(const Val& x) & {
    return tok.Touch(), Answer(step, &x);
  }
  Val operator()(const Val& x) const& {
    return tok.Touch(), Answer(step, &x);
  }
  Val operator()(const Val& x) && {
    return tok.Touch(), Answer(step, &x);
  }
  static Val Free(const Val& x) {
    return Answer(gW->free_step, &x);
  }
  using Std = std::function<Val(const Val&)>;
};
struct Last {
  int step;
  FnToken tok{};
  void operator()(const Val& x) & {
    tok.Touch();
    Enter(step, &x);
  }
  void operator()(const Val& x) const& {
    tok.Touch();
    Enter(step, &x);
  }
  void operator()(const Val& x) && {
    tok.Touch();
    Enter(step, &x);
  }
  static void Free(const Val& x) {
    Enter(gW->free_step, &x);
  }
  using Std = std::function<void(const Val&)>;
};
struct Plain {  // a job
  int step;
  FnToken tok{};
  void operator()() & {
    tok.Touch();
    Enter(step, nullptr);
  }
  void operator()() const& {
    tok.Touch();
    Enter(step, nullptr);
  }
  void operator()() && {
    tok.Touch();
    Enter(step, nullptr);
  }
  static void Free() {
    Enter(gW->free_step, nullptr);
  }
  using Std = std::function<void()>;
};
template <typename P>
struct Giver {  // contract style
  int step;
  FnToken tok{};
  void operator()(P&& p) & {
    tok.Touch();
    Fulfil(step, std::move(p));
  }
  void operator()(P&& p) const& {
    tok.Touch();
    Fulfil(step, std::move(p));
  }
  void operator()(P&& p) && {
    tok.Touch();
    Fulfil(step, std::move(p));
  }
  static void Free(P&& p) {
    Fulfil(gW->free_step, std::move(p));
  }
  using Std = std::function<void(P&&)>;
};

const char* kForm[] = {"rvalue", "lvalue", "const-lvalue", "std::function", "std::function&", "function", "pointer", "lambda&"};

// Hands a fresh functor F to the library in one of the forms; the caller's object does not outlive this call.
template <typename F, typename Attach>
auto Give(Rng& rng, int step, Attach&& attach) {
  using Ret = decltype(attach(std::declval<F>()));
  int form = rng.In(0, 7);
  if ((form == 5 || form == 6) && gW->free_step >= 0) {
    form = 0;  // one plain function per case
  }
  ScenarioAdd("%s(%d) ", kForm[form], step);
  auto twice = [&](auto& f, auto&& call) -> Ret {
    if constexpr (std::is_void_v<Ret>) {
      call(f);
      return;
    } else {
      return call(f);
    }
  };
  auto o = std::make_unique<F>(F{step});
  struct Intact {  // runs before o dies
    F& f;
    ~Intact() {
      f.tok.Touch();  // the library took a copy and not the captures of the caller's functor
    }
  };
  switch (form) {
    case 1: {
      Intact check{*o};
      return twice(*o, attach);
    }
    case 2: {
      Intact check{*o};
      return twice(std::as_const(*o), attach);
    }
    case 3:
      return attach(typename F::Std{std::move(*o)});
    case 4: {
      auto s = std::make_unique<typename F::Std>(std::move(*o));
      struct Whole {
        typename F::Std& s;
        ~Whole() {
          VH_CHECK(static_cast<bool>(s), kProps, "lvalue-moved", "the caller's std::function was moved from");
        }
      } check{*s};
      return attach(*s);
    }
    case 5:
      gW->free_step = step;
      return attach(F::Free);
    case 6:
      gW->free_step = step;
      return attach(&F::Free);
    case 7: {
      auto l = [f = std::move(*o)](auto&&... xs) mutable
        requires(std::is_invocable_v<F&, decltype(xs)...>)
      {
        return f(std::forward<decltype(xs)>(xs)...);
      };
      return attach(l);
    }
    default:
      return attach(std::move(*o));
  }
}

template <typename T, typename D = std::decay_t<T>>
constexpr bool kIsOn = std::is_same_v<D, FutureOn<Val, Err>> || std::is_same_v<D, SharedFutureOn<Val, Err>>;

void Body(Case& c) {
  auto& rng = c.rng;
  {
    World w;
    gW = &w;
    auto manual = yaclib::MakeManual();
    auto& e = *manual;
    int next = 0;
    Out now;                 // sequential reading so far
    std::vector<int> want;   // expected number of calls
    std::vector<Out> in;     // and their inputs
    auto plan = [&](bool first, bool ret) {
      auto& p = w.steps[static_cast<std::size_t>(next)];
      p.out = 100 + static_cast<u64>(next) * 10 + rng.Below(4);
      p.throws = rng.Chance(1, 6);
      const bool called = first || now.st == St::V;
      want.push_back(called);
      in.push_back(first ? Out{St::Empty, 0} : now);
      if (called && ret) {
        now = p.throws ? Out{St::X, p.out} : Out{St::V, p.out};
      }
      return next++;
    };
    Scenario("forms: ");
    Future<Val, Err> f;
    FutureOn<Val, Err> fo;
    SharedFuture<Val, Err> s;
    SharedFutureOn<Val, Err> so;
    bool on = false;  // fo and so are meant instead of f and s
    Task<Val, Err> t;
    bool lazy = false;
    bool shared = false;
    std::optional<Promise<Val, Err>> late;
    const int src = rng.In(0, 12);
    switch (src) {
      case 0:
        ScenarioAdd("Run(e) ");
        fo = Give<First>(rng, plan(true, true), [&](auto&& g) {
              return yaclib::Run<Err>(e, std::forward<decltype(g)>(g));
            });
        on = true;
        break;
      case 1:
        ScenarioAdd("Run ");
        f = Give<First>(rng, plan(true, true), [&](auto&& g) {
          return yaclib::Run<Err>(std::forward<decltype(g)>(g));
        });
        break;
      case 2:
        ScenarioAdd("RunShared(e) ");
        shared = true;
        so = Give<First>(rng, plan(true, true), [&](auto&& g) {
              return yaclib::RunShared<Err>(e, std::forward<decltype(g)>(g));
            });
        on = true;
        break;
      case 3:
        ScenarioAdd("RunShared ");
        shared = true;
        s = Give<First>(rng, plan(true, true), [&](auto&& g) {
          return yaclib::RunShared<Err>(std::forward<decltype(g)>(g));
        });
        break;
      case 4:
      case 5:
        ScenarioAdd(src == 4 ? "Schedule(e) " : "Schedule ");
        lazy = true;
        t = Give<First>(rng, plan(true, true), [&](auto&& g) {
          if (src == 4) {
            return yaclib::Schedule<Err>(e, std::forward<decltype(g)>(g));
          }
          return yaclib::Schedule<Err>(std::forward<decltype(g)>(g));
        });
        break;
      case 6:
        ScenarioAdd("LazyContract(e) ");
        lazy = true;
        t = Give<Giver<Promise<Val, Err>>>(rng, plan(true, true), [&](auto&& g) {
          return yaclib::LazyContract<Val, Err>(e, std::forward<decltype(g)>(g));
        });
        break;
      case 7:
        ScenarioAdd("MakeTask ");
        lazy = true;
        t = yaclib::MakeTask<Val, Err>(std::in_place, 7u);
        now = {St::V, 7};
        break;
      case 8:
        ScenarioAdd("AsyncContract(e) ");
        fo = Give<Giver<Promise<Val, Err>>>(rng, plan(true, true), [&](auto&& g) {
              return yaclib::AsyncContract<Val, Err>(e, std::forward<decltype(g)>(g));
            });
        on = true;
        break;
      case 9:
        ScenarioAdd("AsyncContract ");
        f = Give<Giver<Promise<Val, Err>>>(rng, plan(true, true), [&](auto&& g) {
          return yaclib::AsyncContract<Val, Err>(std::forward<decltype(g)>(g));
        });
        break;
      case 10:
        ScenarioAdd("AsyncSharedContract(e) ");
        shared = true;
        so = Give<Giver<SharedPromise<Val, Err>>>(rng, plan(true, true), [&](auto&& g) {
              return yaclib::AsyncSharedContract<Val, Err>(e, std::forward<decltype(g)>(g));
            });
        on = true;
        break;
      default: {
        ScenarioAdd("MakeContract ");
        auto [a, b] = yaclib::MakeContract<Val, Err>();
        f = std::move(a);
        late.emplace(std::move(b));
        now = {St::V, 5};
        if (src == 12) {
          std::move(*late).Set(std::in_place, 5u);
          late.reset();
        }
      }
    }
    const bool observe_twice = shared && rng.Chance(1, 2);
    const Out root = now;
    auto unlucky = [&] {  // an executor may be forgotten at any time
      if (on && rng.Chance(1, 4)) {
        on = false;
        if (shared) {
          s = std::move(so).On(nullptr);
        } else {
          f = std::move(fo).On(nullptr);
        }
      }
    };
    unlucky();
    const bool root_on = on;
    auto root_s = s;
    auto root_so = so;
    for (int k = rng.In(0, 4); k != 0; --k) {
      const int how = rng.In(0, 2);
      const int step = plan(false, true);
      static const char* kHow[] = {"ThenInline:", "Then(e):", "Then:"};
      ScenarioAdd("%s%s", on ? "[On]" : "", kHow[how]);
      if (lazy) {
        t = Give<Next>(rng, step, [&](auto&& g) -> Task<Val, Err> {
          if (how == 1) {
            return std::move(t).Then(e, std::forward<decltype(g)>(g));
          } else if (how == 2) {
            return std::move(t).Then(std::forward<decltype(g)>(g));
          }
          return std::move(t).ThenInline(std::forward<decltype(g)>(g));
        });
        continue;
      }
      Give<Next>(rng, step, [&](auto&& g) {
        auto attach = [&](auto&& x) {
          if (how == 1) {
            fo = std::forward<decltype(x)>(x).Then(e, std::forward<decltype(g)>(g));
            on = true;
            return;
          }
          if constexpr (kIsOn<decltype(x)>) {
            if (how == 2) {
              fo = std::forward<decltype(x)>(x).Then(std::forward<decltype(g)>(g));
            } else {
              fo = std::forward<decltype(x)>(x).ThenInline(std::forward<decltype(g)>(g));
            }
          } else {
            f = std::forward<decltype(x)>(x).ThenInline(std::forward<decltype(g)>(g));
          }
        };
        if (shared) {
          on ? attach(std::as_const(so)) : attach(std::as_const(s));
        } else {
          on ? attach(std::move(fo)) : attach(std::move(f));
        }
      });
      shared = false;
      unlucky();
    }
    // jobs have no result: they must not throw
    int job = -1;
    if (rng.Chance(1, 3)) {
      auto keep = now;
      job = plan(true, false);
      now = keep;
      w.steps[static_cast<std::size_t>(job)].throws = false;
      ScenarioAdd("Submit:");
      Give<Plain>(rng, job, [&](auto&& g) {
        yaclib::Submit(e, std::forward<decltype(g)>(g));
      });
    }
    if (observe_twice) {
      auto keep = now;
      now = root;
      const int how = rng.In(0, 2);
      const int step = plan(false, false);
      now = keep;
      w.steps[static_cast<std::size_t>(step)].throws = false;
      static const char* kHow[] = {"SubscribeInline:", "Subscribe(e):", "Subscribe:"};
      ScenarioAdd("%s", kHow[how]);
      Give<Last>(rng, step, [&](auto&& g) {
        auto attach = [&](auto copy) {
          if (how == 1) {
            copy.Subscribe(e, std::forward<decltype(g)>(g));
            return;
          }
          if constexpr (kIsOn<decltype(copy)>) {
            if (how == 2) {
              copy.Subscribe(std::forward<decltype(g)>(g));
              return;
            }
          }
          copy.SubscribeInline(std::forward<decltype(g)>(g));
        };
        root_on ? attach(root_so) : attach(root_s);
      });
    }
    root_s = {};
    root_so = {};
    const int end = rng.In(0, 4);  // 0 Get, 1.. Detach with a callback
    bool get = shared || end < 2;
    std::optional<Future<Val, Err>> last;
    if (lazy) {
      if (rng.Chance(1, 2)) {
        f = std::move(t).ToFuture();
      } else {
        fo = std::move(t).ToFuture(e);
        on = true;
      }
    }
    if (!get) {
      const int step = plan(false, false);
      w.steps[static_cast<std::size_t>(step)].throws = false;
      static const char* kHow[] = {"", "", "DetachInline:", "Detach(e):", "Detach:"};
      ScenarioAdd("%s", kHow[end]);
      Give<Last>(rng, step, [&](auto&& g) {
        auto attach = [&](auto x) {
          if (end == 3) {
            std::move(x).Detach(e, std::forward<decltype(g)>(g));
            return;
          }
          if constexpr (kIsOn<decltype(x)>) {
            if (end == 4) {
              std::move(x).Detach(std::forward<decltype(g)>(g));
              return;
            }
          }
          std::move(x).DetachInline(std::forward<decltype(g)>(g));
        };
        on ? attach(std::move(fo)) : attach(std::move(f));
      });
    } else if (on && !shared) {
      f = std::move(fo).On(nullptr);
    } else if (on) {
      s = std::move(so).On(nullptr);
    }
    if (late.has_value()) {
      std::move(*late).Set(std::in_place, 5u);
      late.reset();
    }
    while (static_cast<yaclib::ManualExecutor&>(e).Drain() != 0) {
    }
    Out got = now;
    if (shared) {
      VH_CHECK(s.Ready(), kProps, "not-completed", "the shared pipeline did not complete");
      got = MakeOut(s.Get());
      s = {};
    } else if (get) {
      VH_CHECK(f.Ready(), kProps, "not-completed", "the pipeline did not complete");
      got = MakeOut(std::move(f).Get());
    }
    VH_CHECK(got == now, kProps, "wrong-result", "result %s, expected %s", got.Str().c_str(), now.Str().c_str());
    for (int i = 0; i != next; ++i) {
      auto& p = w.steps[static_cast<std::size_t>(i)];
      VH_CHECK(p.calls == want[static_cast<std::size_t>(i)], kProps, "callback-count", "callback %d ran %d times, expected %d", i,
               p.calls, want[static_cast<std::size_t>(i)]);
      VH_CHECK(p.calls == 0 || p.in == in[static_cast<std::size_t>(i)], kProps, "callback-input", "callback %d saw %s, expected %s", i,
               p.in.Str().c_str(), in[static_cast<std::size_t>(i)].Str().c_str());
      c.Note(static_cast<u64>(i * 100 + p.calls));
    }
    c.nontrivial = next != 0;
    Count("callbacks_given", static_cast<u64>(next));
    s = {};
    f = {};
  }
  gW = nullptr;
  CheckLedgers("C02,C03");
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Body);
}
