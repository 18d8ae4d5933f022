// Random coroutine programs over every awaitable (C13; also C03, C04, C05, C12).
#include "through.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

#include <deque>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedPromise;
using yaclib::Task;

namespace {

using R = Result<Val, Err>;
using F = Future<Val, Err>;
using FO = FutureOn<Val, Err>;
using S = SharedFuture<Val, Err>;
using T = Task<Val, Err>;

constexpr u64 kSide = 0x51DE;
constexpr const char* kP = "C13";

// ---- leaves ---------------------------------------------------------------------------------------------------------
struct Leaf {
  int id = 0;
  int kind = 0;  // 0 unique, 1 shared, 2 unique on executor
  int exec = 0;
  Out out;
  std::atomic<bool> begun{false};
  u64 side = 0;
  Promise<Val, Err> p;
  SharedPromise<Val, Err> sp;
  F f;
  FO fo;
  S s;
  std::int64_t delay = 0;

  template <typename P>
  void SetIt(P&& pr) {
    switch (out.st) {
      case St::V:
        std::forward<P>(pr).Set(std::in_place, out.id);
        break;
      case St::E:
        if (out.id == kStopId) {
          auto dropped = std::forward<P>(pr);
        } else {
          std::forward<P>(pr).Set(Err{out.id});
        }
        break;
      default:
        std::forward<P>(pr).Set(BoomPtr(out.id));
    }
  }
  void Fulfil() {
    side = kSide;
    begun.store(true, std::memory_order_relaxed);
    if (kind == 1) {
      SetIt(std::move(sp));
    } else {
      SetIt(std::move(p));
    }
  }
  void Happened(const char* how) {
    VH_CHECK(begun.load(std::memory_order_relaxed), kP, "resumed-early", "%s: resumed before leaf %d was fulfilled", how, id);
    VH_CHECK(side == kSide, "C13,C04", "side-effect-invisible", "%s: writes before fulfilment of %d not visible", how, id);
  }
};

// ---- program --------------------------------------------------------------------------------------------------------
enum Op { kGetLeaf, kGetShared, kChild, kAwait, kAwaitOn, kAwaitSticky, kOn, kYieldOp, kCurrent, kTaskLeaf, kOpCount };
const char* const kON[] = {"co_await f", "co_await s", "child", "Await", "AwaitOn", "AwaitSticky", "On", "Yield", "Current",
                           "task"};
enum Rt { kFuture, kTask, kShared };

struct Node;
struct Step {
  Op op = kOn;
  int form = 0;
  int exec = 0;
  std::vector<Leaf*> u, s, o;
  std::vector<Node*> child;
  bool swallow = true;
};
struct Node {
  int id = 0;
  Rt rt = kFuture;
  std::vector<Step> steps;
  Out end;
  int end_form = 0;
  // run time
  std::atomic<int> starts{0};
  bool finished = false;   // co_return or escaping exception was reached
  Out want;
  bool stop_allowed = false;
  int step = -1;
  int start_exec = -1;  // must run on that executor from the beginning
};

struct World {
  std::deque<Leaf> leaves;
  std::deque<Node> nodes;
  TrackExec inl, pool, strand, reject;
  bool chaos = false;

  yaclib::IExecutor& Exec(int k) {
    switch (k) {
      case 0:
        return inl;
      case 1:
        return pool;
      case 2:
        return strand;
      case 3:
        return reject;
      default:
        return yaclib::MakeInline(yaclib::StopTag{});
    }
  }
  int Find(const yaclib::IExecutor& e) {
    for (int i = 0; i != 5; ++i) {
      if (&Exec(i) == &e) {
        return i;
      }
    }
    return -1;
  }
  // about to submit to e: returns true if the submission must be rejected
  bool Submitting(Node* n, int e) {
    if (e == 3 || e == 4) {
      n->stop_allowed = true;
      return true;
    }
    if (chaos && (e == 1 || e == 2)) {
      n->stop_allowed = true;
    }
    return false;
  }
};

struct Live {  // counts live frames
  FnToken t;
};

Out Caught() {
  try {
    throw;
  } catch (const yaclib::ResultError<Err>& e) {
    return {St::E, e.Get().Id()};
  } catch (...) {
    return {St::X, BoomId(std::current_exception())};
  }
}

// The outcome of node n observed by its consumer
void Judge(World& w, Node* n, Out got, const char* how) {
  if (n->finished) {
    VH_CHECK(got == n->want, kP, "wrong-outcome", "%s: coroutine %d finished with %s but its consumer got %s", how, n->id,
             n->want.Str().c_str(), got.Str().c_str());
  } else {
    VH_CHECK(got == Out::Stop(), kP, "unfinished-outcome", "%s: coroutine %d did not finish but its consumer got %s", how,
             n->id, got.Str().c_str());
    VH_CHECK(n->stop_allowed, "C13,C05", "unexpected-stop",
             "%s: coroutine %d was stopped although no executor rejected it (step %d)", how, n->id, n->step);
  }
  (void)w;
}
void JudgeR(World& w, Node* n, const R& r, const char* how) {
  Judge(w, n, MakeOut(r), how);
}
// what a co_await of the node throws/returns
void JudgeAwait(World& w, Node* n, Out got, bool thrown, const char* how) {
  if (thrown && got.st == St::E && n->finished && n->want.st == St::X && n->want.id >= 1000000) {
    got = {St::X, got.id + 1000000};  // it kept the ResultError it was left with as an exception
  }
  Judge(w, n, got, how);
}

template <typename RT>
RT Coro(World& w, Node* n, Live arg);

// What a coroutine tracks about its own placement
struct Place {
  int own = -1;        // its executor, -1 unknown/untracked
  bool inside = false;  // is it running inside own (instrumented)
};

// After a resume that must have been done by executor e
void OnPlace(World& w, Node* n, Place& pl, int e, const yaclib::IExecutor& cur, const char* how) {
  VH_CHECK(w.Find(cur) == e, "C13,C05", "wrong-executor", "%s: coroutine %d has executor %d after it, want %d", how, n->id,
           w.Find(cur), e);
  VH_CHECK(CurrentExec() == e, "C13,C05", "wrong-place", "%s: coroutine %d runs inside executor %d, want %d", how, n->id,
           CurrentExec(), e);
  pl.own = e;
  pl.inside = true;
}

template <typename Fut>
void AwaitedReady(Node* n, const Fut& f, Leaf* l, const char* how) {
  VH_CHECK(f.Valid(), kP, "await-invalidated", "%s: leaf %d is not Valid after it (coroutine %d)", how, l->id, n->id);
  VH_CHECK(f.Ready(), kP, "await-not-ready", "%s: leaf %d is not Ready after it (coroutine %d)", how, l->id, n->id);
  l->Happened(how);
  auto o = MakeOut(f.Touch());
  VH_CHECK(o == l->out, kP, "await-wrong", "%s: leaf %d holds %s, want %s", how, l->id, o.Str().c_str(),
           l->out.Str().c_str());
}

template <typename RT>
RT Coro(World& w, Node* n, Live arg) {
  Live local;
  std::vector<Live> many(2);
  VH_CHECK(n->starts.fetch_add(1) == 0, kP, "started-twice", "coroutine %d started twice", n->id);
  Place pl;
  if (n->start_exec >= 0) {
    auto& cur = co_await yaclib::CurrentExecutor();
    OnPlace(w, n, pl, n->start_exec, cur, "start");
  }
  for (auto& st : n->steps) {
    ++n->step;
    const int at = n->step;
    const char* how = kON[st.op];
    bool must_stop = false;
    Out got;
    bool failed = false;
    Point();
    switch (st.op) {
      case kGetLeaf: {
        auto* l = !st.u.empty() ? st.u[0] : st.o[0];
        if (l->kind == 2) {
          try {
            auto v = co_await std::move(l->fo);
            got = {St::V, v.Id()};
          } catch (...) {
            got = Caught();
            failed = true;
          }
        } else {
          try {
            auto v = co_await std::move(l->f);
            got = {St::V, v.Id()};
          } catch (...) {
            got = Caught();
            failed = true;
          }
        }
        l->Happened(how);
        VH_CHECK(got == l->out, kP, "await-wrong", "co_await of leaf %d gave %s, want %s", l->id, got.Str().c_str(),
                 l->out.Str().c_str());
        pl = {};
        break;
      }
      case kGetShared: {
        auto* l = st.s[0];
        S copy{l->s.GetCore()};
        try {
          auto v = co_await copy;
          got = {St::V, v.Id()};
        } catch (...) {
          got = Caught();
          failed = true;
        }
        l->Happened(how);
        VH_CHECK(got == l->out, kP, "await-wrong", "co_await of shared leaf %d gave %s, want %s", l->id, got.Str().c_str(),
                 l->out.Str().c_str());
        VH_CHECK(copy.Valid() && copy.Ready(), kP, "shared-not-ready", "shared leaf %d not Ready after co_await", l->id);
        pl = {};
        break;
      }
      case kChild: {
        auto* ch = st.child[0];
        if (ch->rt == kFuture) {
          if (st.form == 0) {
            try {
              auto v = co_await Coro<F>(w, ch, {});
              got = {St::V, v.Id()};
            } catch (...) {
              got = Caught();
              failed = true;
            }
          } else {
            auto f = Coro<F>(w, ch, {});
            Point();
            co_await Await(f);
            VH_CHECK(f.Valid() && f.Ready(), kP, "await-not-ready", "child %d not Ready after Await", ch->id);
            got = MakeOut(std::as_const(f).Touch());
          }
        } else if (ch->rt == kTask) {
          auto t = Coro<T>(w, ch, {});
          Point();
          VH_CHECK(ch->starts.load() == 0, "C13,C12", "task-started-early", "task coroutine %d ran before it was awaited",
                   ch->id);
          if (st.form == 0) {
            try {
              auto v = co_await std::move(t);
              got = {St::V, v.Id()};
            } catch (...) {
              got = Caught();
              failed = true;
            }
          } else if (st.form == 1) {
            co_await Await(t);
            VH_CHECK(t.Valid() && t.Ready(), kP, "await-not-ready", "task %d not Ready after Await", ch->id);
            got = MakeOut(std::as_const(t).Touch());
            if (at % 2 == 0) {
              auto r = std::move(t).Touch();
              VH_CHECK(MakeOut(r) == got, kP, "await-wrong", "Touch&& of task %d differs", ch->id);
            }
          } else {
            auto f = std::move(t).ToFuture();
            try {
              auto v = co_await std::move(f);
              got = {St::V, v.Id()};
            } catch (...) {
              got = Caught();
              failed = true;
            }
          }
        } else {
          auto s = Coro<S>(w, ch, {});
          Point();
          if (st.form == 0) {
            try {
              auto v = co_await s;
              got = {St::V, v.Id()};
            } catch (...) {
              got = Caught();
              failed = true;
            }
          } else {
            co_await Await(s);
            VH_CHECK(s.Valid() && s.Ready(), kP, "await-not-ready", "shared child %d not Ready after Await", ch->id);
            got = MakeOut(s.Touch());
          }
        }
        JudgeAwait(w, ch, got, failed, how);
        pl = {};
        break;
      }
      case kTaskLeaf: {
        const int e = st.exec;
        auto id = static_cast<u64>(7000 + n->id * 16 + at);
        if (st.form == 0) {
          auto t = yaclib::Schedule<Err>(w.Exec(e), [id, tok = FnToken{}] {
            tok.Touch();
            return Val{id};
          });
          try {
            auto v = co_await std::move(t);
            got = {St::V, v.Id()};
          } catch (...) {
            got = Caught();
            failed = true;
          }
        } else if (st.form == 1) {
          auto f = yaclib::Run<Err>(w.Exec(e), [id, tok = FnToken{}] {
            tok.Touch();
            Point();
            return Val{id};
          });
          Point();
          try {
            auto v = co_await std::move(f);
            got = {St::V, v.Id()};
          } catch (...) {
            got = Caught();
            failed = true;
          }
        } else {
          T t = yaclib::MakeTask<Val, Err>(Val{id});
          co_await Await(t);
          got = MakeOut(std::as_const(t).Touch());
        }
        if (got != Out{St::V, id}) {
          VH_CHECK(got == Out::Stop() && st.form != 2 && (e >= 3 || w.chaos), kP, "await-wrong",
                   "co_await of a scheduled step gave %s", got.Str().c_str());
        } else {
          VH_CHECK(e < 3 || st.form == 2, "C13,C05", "ran-on-rejecting", "a step ran although its executor rejects");
        }
        pl = {};
        break;
      }
      case kAwait:
      case kAwaitOn:
      case kAwaitSticky: {
        std::vector<F> f;
        std::vector<S> s;
        std::vector<FO> o;
        for (auto* l : st.u) {
          f.push_back(std::move(l->f));
        }
        for (auto* l : st.s) {
          s.emplace_back(l->s.GetCore());
        }
        for (auto* l : st.o) {
          o.push_back(std::move(l->fo));
        }
        Point();
        const auto a = f.size(), b = s.size(), c = o.size();
        auto& before = co_await yaclib::CurrentExecutor();
        const int own = w.Find(before);
        if (st.op == kAwaitOn) {
          must_stop = w.Submitting(n, st.exec);
        } else if (st.op == kAwaitSticky) {
          w.Submitting(n, own);  // may be ready at once, so no obligation to stop
        }
        auto& e = w.Exec(st.exec);
#define VH_AWAIT(...)                        \
  if (st.op == kAwait) {                     \
    if (at % 2 == 0) {                       \
      co_await yaclib::Await(__VA_ARGS__);   \
    } else {                                 \
      co_await yaclib::AwaitInline(__VA_ARGS__); \
    }                                        \
  } else if (st.op == kAwaitOn) {            \
    co_await yaclib::AwaitOn(e, __VA_ARGS__); \
  } else {                                   \
    co_await yaclib::AwaitSticky(__VA_ARGS__); \
  }
        if (b == 0 && c == 0) {
          if (st.form == 1) {
            VH_AWAIT(f.begin(), f.end());
          } else if (st.form == 2) {
            VH_AWAIT(f.begin(), f.size());
          } else if (a == 1) {
            VH_AWAIT(f[0]);
          } else if (a == 2) {
            VH_AWAIT(f[0], f[1]);
          } else {
            VH_AWAIT(f[0], f[1], f[2]);
          }
        } else if (a == 0 && c == 0) {
          if (st.form == 1) {
            VH_AWAIT(s.begin(), s.end());
          } else if (st.form == 2) {
            VH_AWAIT(s.begin(), s.size());
          } else if (b == 1) {
            VH_AWAIT(s[0]);
          } else if (b == 2) {
            VH_AWAIT(s[0], s[1]);
          } else {
            VH_AWAIT(s[0], s[1], s[2]);
          }
        } else if (a == 0 && b == 0) {
          if (st.form == 1) {
            VH_AWAIT(o.begin(), o.end());
          } else if (st.form == 2) {
            VH_AWAIT(o.begin(), o.size());
          } else if (c == 1) {
            VH_AWAIT(o[0]);
          } else {
            VH_AWAIT(o[0], o[1]);
          }
        } else if (a == 1 && b == 1 && c == 0) {
          VH_AWAIT(f[0], s[0]);
        } else if (a == 1 && b == 1 && c == 1) {
          VH_AWAIT(o[0], s[0], f[0]);
        } else if (a == 1 && b == 2) {
          VH_AWAIT(s[0], f[0], s[1]);
        } else if (a == 1 && c == 1) {
          VH_AWAIT(f[0], o[0]);
        } else if (b == 1 && c == 1) {
          VH_AWAIT(s[0], o[0]);
        } else {
          HarnessError("bad await shape");
        }
#undef VH_AWAIT
        VH_CHECK(!must_stop, "C13,C05", "resumed-on-rejecting", "%s: coroutine %d resumed although its executor rejects it",
                 how, n->id);
        for (std::size_t i = 0; i != a; ++i) {
          AwaitedReady(n, f[i], st.u[i], how);
        }
        for (std::size_t i = 0; i != b; ++i) {
          AwaitedReady(n, s[i], st.s[i], how);
        }
        for (std::size_t i = 0; i != c; ++i) {
          AwaitedReady(n, o[i], st.o[i], how);
        }
        if (st.op == kAwaitOn) {
          auto& cur = co_await yaclib::CurrentExecutor();
          OnPlace(w, n, pl, st.exec, cur, how);
        } else if (st.op == kAwaitSticky) {
          auto& cur = co_await yaclib::CurrentExecutor();
          VH_CHECK(&cur == &before, "C13,C05", "wrong-executor", "AwaitSticky: coroutine %d changed its executor %d -> %d",
                   n->id, own, w.Find(cur));
          if (pl.inside) {
            VH_CHECK(CurrentExec() == pl.own, "C13,C05", "wrong-place",
                     "AwaitSticky: coroutine %d runs inside executor %d, want %d", n->id, CurrentExec(), pl.own);
          }
        } else {
          pl = {};
        }
        // consume them in different ways
        if (a != 0 && st.form == 1) {
          std::ignore = std::move(f[0]).Get();
        } else if (a != 0 && st.form == 2) {
          auto f0 = std::move(f[0]);
          try {
            auto v = co_await std::move(f0);
            got = {St::V, v.Id()};
          } catch (...) {
            got = Caught();
            failed = true;
          }
          VH_CHECK(got == st.u[0]->out, kP, "await-wrong", "co_await of an awaited leaf %d gave %s", st.u[0]->id,
                   got.Str().c_str());
        }
        break;
      }
      case kOn: {
        must_stop = w.Submitting(n, st.exec);
        co_await yaclib::On(w.Exec(st.exec));
        VH_CHECK(!must_stop, "C13,C05", "resumed-on-rejecting", "On: coroutine %d resumed although its executor rejects it",
                 n->id);
        auto& cur = co_await yaclib::CurrentExecutor();
        OnPlace(w, n, pl, st.exec, cur, how);
        break;
      }
      case kYieldOp: {
        auto& before = co_await yaclib::CurrentExecutor();
        const int own = w.Find(before);
        must_stop = w.Submitting(n, own);
        if (st.form == 0) {
          co_await yaclib::kYield;
        } else {
          auto& cur = co_await yaclib::Yield();
          VH_CHECK(&cur == &before, "C13,C05", "wrong-executor", "Yield: coroutine %d changed its executor", n->id);
        }
        VH_CHECK(!must_stop, "C13,C05", "resumed-on-rejecting", "Yield: coroutine %d resumed although its executor rejects it",
                 n->id);
        if (own >= 0) {
          auto& cur = co_await yaclib::CurrentExecutor();
          OnPlace(w, n, pl, own, cur, how);
        }
        break;
      }
      default: {
        auto& c1 = co_await yaclib::CurrentExecutor();
        auto& c2 = co_await yaclib::CurrentExecutor();
        VH_CHECK(&c1 == &c2, kP, "wrong-executor", "CurrentExecutor changed without a reason");
        if (pl.own >= 0) {
          VH_CHECK(w.Find(c1) == pl.own, "C13,C05", "wrong-executor", "CurrentExecutor is %d, want %d", w.Find(c1), pl.own);
        }
      }
    }
    VH_CHECK(n->step == at, kP, "resumed-twice", "coroutine %d: step %d resumed while it is at step %d", n->id, at, n->step);
    VH_CHECK(!n->finished, kP, "resumed-after-end", "coroutine %d resumed after it finished", n->id);
    local.t.Touch();
    arg.t.Touch();
    many[1].t.Touch();
    if (failed && !st.swallow) {  // let it escape as the coroutine's own result
      n->want = got.st == St::E ? Out{St::X, 1000000 + got.id} : got;
      n->finished = true;
      if (got.st == St::E) {
        throw yaclib::ResultError<Err>{got.id == kStopId ? Err{yaclib::StopTag{}} : Err{got.id}};
      }
      ThrowBoom(got.id);
    }
  }
  n->want = n->end;
  n->finished = true;
  if (n->end.st == St::V) {
    if (n->end_form == 0) {
      co_return Val{n->end.id};
    }
    if (n->end_form == 1) {
      co_return MakeResult(n->end);
    }
    Val v{n->end.id};
    co_return v;
  }
  if (n->end.st == St::E) {
    if (n->end.id == kStopId) {
      co_return yaclib::StopTag{};
    }
    co_return Err{n->end.id};
  }
  if (n->end_form == 0) {
    co_return BoomPtr(n->end.id);
  }
  ThrowBoom(n->end.id);
}

// void coroutine whose only step escapes whatever it awaited
Future<void, Err> VoidCoro(World& w, Node* ch, Live live) {
  co_await Coro<F>(w, ch, {});
  live.t.Touch();
  co_return {};
}

struct Gen {
  World& w;
  Rng& rng;
  int budget = 14;

  Leaf* NewLeaf(int kind) {
    auto& l = w.leaves.emplace_back();
    l.id = static_cast<int>(w.leaves.size()) - 1;
    l.kind = kind;
    l.exec = rng.In(0, 2);
    auto i = static_cast<u64>(l.id);
    l.out = rng.Chance(3, 5) ? Out{St::V, 100 + i} : rng.Pick({Out{St::E, 200 + i}, Out{St::X, 300 + i}, Out::Stop()});
    l.delay = rng.Chance(2, 3) ? 0 : kFiber ? rng.In(1, 200) : rng.In(1, 150) * 1000;
    if (kind == 0) {
      std::tie(l.f, l.p) = yaclib::MakeContract<Val, Err>();
      if (rng.Chance(1, 3)) {
        l.f = Through(std::move(l.f));
      }
    } else if (kind == 1) {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      l.s = rng.Chance(1, 3) ? ThroughShared(std::move(f)) : std::move(f);
      l.sp = std::move(p);
    } else {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(w.Exec(l.exec));
      l.fo = std::move(f);
      l.p = std::move(p);
    }
    return &l;
  }
  Leaf* SharedLeaf() {
    if (rng.Chance(1, 2)) {
      for (auto& l : w.leaves) {
        if (l.kind == 1 && rng.Chance(1, 2)) {
          return &l;
        }
      }
    }
    return NewLeaf(1);
  }

  Node* NewNode(int depth, int rt = -1) {
    auto& n = w.nodes.emplace_back();
    n.id = static_cast<int>(w.nodes.size()) - 1;
    n.rt = rt >= 0 ? static_cast<Rt>(rt) : static_cast<Rt>(rng.Pick({0, 0, 1, 1, 2}));
    auto i = static_cast<u64>(n.id);
    n.end = rng.Chance(3, 5) ? Out{St::V, 1000 + i} : rng.Pick({Out{St::E, 2000 + i}, Out{St::X, 3000 + i}, Out::Stop()});
    n.end_form = rng.In(0, 2);
    auto steps = rng.In(0, depth == 0 ? 4 : 2);
    auto* np = &n;
    std::vector<Step> out;
    for (int k = 0; k != steps && budget > 0; ++k) {
      Step st;
      st.op = static_cast<Op>(rng.Below(kOpCount));
      st.exec = rng.Pick({0, 0, 1, 1, 1, 2, 2, 3, 4});
      if (rng.Chance(2, 3) && st.exec >= 3) {
        st.exec = 1;
      }
      st.form = rng.In(0, 2);
      st.swallow = rng.Chance(3, 4);
      switch (st.op) {
        case kGetLeaf:
          --budget;
          if (rng.Chance(1, 4)) {
            st.o.push_back(NewLeaf(2));
          } else {
            st.u.push_back(NewLeaf(0));
          }
          break;
        case kGetShared:
          --budget;
          st.s.push_back(SharedLeaf());
          break;
        case kChild:
          if (depth >= 2) {
            continue;
          }
          --budget;
          st.child.push_back(NewNode(depth + 1));
          break;
        case kAwait:
        case kAwaitOn:
        case kAwaitSticky: {
          auto shape = rng.Below(10);
          auto u = [&](int n) {
            for (int j = 0; j != n; ++j) {
              st.u.push_back(NewLeaf(0));
              --budget;
            }
          };
          auto s = [&](int n) {
            for (int j = 0; j != n; ++j) {
              st.s.push_back(SharedLeaf());
              --budget;
            }
          };
          auto o = [&](int n) {
            for (int j = 0; j != n; ++j) {
              st.o.push_back(NewLeaf(2));
              --budget;
            }
          };
          switch (shape) {
            case 0:
            case 1:
              u(1);
              break;
            case 2:
              u(2);
              break;
            case 3:
              u(3);
              break;
            case 4:
              s(rng.In(1, 3));
              break;
            case 5:
              o(rng.In(1, 2));
              break;
            case 6:
              u(1);
              s(1);
              break;
            case 7:
              u(1);
              s(2);
              break;
            case 8:
              u(1);
              o(1);
              if (rng.Chance(1, 2)) {
                s(1);
              }
              break;
            default:
              s(1);
              o(1);
          }
          break;
        }
        default:
          break;
      }
      out.push_back(std::move(st));
    }
    np->steps = std::move(out);
    return np;
  }
};

std::string Describe(const Node& n) {
  static const char* kR[] = {"F", "T", "S"};
  std::string r = std::string{"#"} + std::to_string(n.id) + kR[n.rt] + "[";
  for (auto& s : n.steps) {
    r += kON[s.op];
    if (s.op == kAwaitOn || s.op == kOn || s.op == kTaskLeaf) {
      r += "@" + std::to_string(s.exec);
    }
    r += "/" + std::to_string(s.form) + (s.swallow ? "" : "!");
    for (auto* l : s.u) {
      r += " u" + std::to_string(l->id);
    }
    for (auto* l : s.s) {
      r += " s" + std::to_string(l->id);
    }
    for (auto* l : s.o) {
      r += " o" + std::to_string(l->id);
    }
    for (auto* c : s.child) {
      r += " #" + std::to_string(c->id);
    }
    r += "; ";
  }
  return r + n.end.Str() + "]";
}

struct Consumer {
  World& w;
  Rng rng;
  std::deque<int> fired;
  std::vector<std::pair<int*, Node*>> expect;
  std::vector<F> later;
  std::vector<std::pair<F, Node*>> pending;
  std::vector<std::pair<S, Node*>> pending_s;
  std::vector<Future<void, Err>> voids;
  std::vector<Node*> cancelled;

  void Fire(int* x, Node* n, const R& r, const char* how) {
    VH_CHECK(++*x == 1, kP, "continuation-twice", "continuation of coroutine %d fired %d times", n->id, *x);
    JudgeR(w, n, r, how);
  }
  int* Cell(Node* n) {
    fired.push_back(0);
    expect.emplace_back(&fired.back(), n);
    return &fired.back();
  }

  void TakeFuture(F f, Node* n) {
    switch (rng.Below(7)) {
      case 0:
        JudgeR(w, n, std::move(f).Get(), "Get");
        break;
      case 1: {
        auto* x = Cell(n);
        std::move(f).DetachInline([this, x, n, t = FnToken{}](R&& r) {
          t.Touch();
          Fire(x, n, r, "DetachInline");
        });
        break;
      }
      case 2: {
        auto drop = std::move(f);
        break;
      }
      case 3: {
        auto* x = Cell(n);
        later.push_back(std::move(f).ThenInline([this, x, n, t = FnToken{}](R&& r) -> R {
          t.Touch();
          Fire(x, n, r, "ThenInline");
          return std::move(r);
        }));
        break;
      }
      case 4: {
        auto [f2, p2] = yaclib::MakeContract<Val, Err>();
        yaclib::Connect(std::move(f), std::move(p2));
        pending.emplace_back(std::move(f2), n);
        break;
      }
      case 5:
        yaclib::Wait(f);
        JudgeR(w, n, std::move(f).Touch(), "Touch after Wait");
        break;
      default:
        pending.emplace_back(std::move(f), n);
    }
  }

  void Launch(Node* n) {
    if (n->rt == kFuture) {
      auto k = rng.Below(5);
      if (k == 0) {  // a coroutine inside a continuation
        auto [f, p] = yaclib::MakeContract<void, Err>();
        auto g = std::move(f).ThenInline([this, n, t = FnToken{}]() {
          t.Touch();
          return Coro<F>(w, n, {});
        });
        Point();
        std::move(p).Set();
        TakeFuture(std::move(g), n);
      } else if (k == 1) {
        voids.push_back(VoidCoro(w, n, {}));
      } else {
        TakeFuture(Coro<F>(w, n, {}), n);
      }
    } else if (n->rt == kTask) {
      auto t = Coro<T>(w, n, {});
      Point();
      VH_CHECK(n->starts.load() == 0, "C13,C12", "task-started-early", "task coroutine %d ran before it was started", n->id);
      switch (rng.Below(7)) {
        case 0:
          JudgeR(w, n, std::move(t).Get(), "Task::Get");
          break;
        case 1:
          TakeFuture(std::move(t).ToFuture(), n);
          break;
        case 2: {
          auto e = rng.Pick({0, 1, 2, 3});
          n->start_exec = e;
          w.Submitting(n, e);
          TakeFuture(std::move(t).ToFuture(w.Exec(e)).On(nullptr), n);
          break;
        }
        case 3:
          std::move(t).Detach();
          break;
        case 4: {
          cancelled.push_back(n);
          auto drop = std::move(t);
          break;
        }
        case 5: {
          auto* x = Cell(n);
          auto g = std::move(t).ThenInline([this, x, n, tok = FnToken{}](R&& r) -> R {
            tok.Touch();
            Fire(x, n, r, "Task::ThenInline");
            return std::move(r);
          });
          VH_CHECK(n->starts.load() == 0, "C13,C12", "task-started-early", "task coroutine %d ran before its start", n->id);
          later.push_back(std::move(g).ToFuture());
          break;
        }
        default: {
          auto [f, p] = yaclib::MakeContract<void, Err>();
          auto g = std::move(f).ThenInline([t = std::move(t), tok = FnToken{}]() mutable {
            tok.Touch();
            return std::move(t);
          });
          Point();
          std::move(p).Set();
          TakeFuture(std::move(g), n);
        }
      }
    } else {
      auto s = Coro<S>(w, n, {});
      auto copies = rng.In(0, 2);
      for (int i = 0; i != copies; ++i) {
        if (rng.Chance(1, 2)) {
          auto* x = Cell(n);
          s.SubscribeInline([this, x, n, t = FnToken{}](const R& r) {
            t.Touch();
            Fire(x, n, r, "SubscribeInline");
          });
        } else {
          pending_s.emplace_back(s, n);
        }
      }
      if (rng.Chance(1, 3)) {
        JudgeR(w, n, s.Get(), "SharedFuture::Get");
      }
    }
  }

  void Finish() {
    for (auto& [f, n] : pending) {
      JudgeR(w, n, std::move(f).Get(), "Get");
    }
    pending.clear();
    for (auto& [s, n] : pending_s) {
      JudgeR(w, n, s.Get(), "SharedFuture::Get");
    }
    pending_s.clear();
    for (auto& f : later) {
      std::ignore = std::move(f).Get();
    }
    later.clear();
    for (auto& f : voids) {
      std::ignore = std::move(f).Get();
    }
    voids.clear();
  }
};

void Body(Case& c) {
  ResetExecStacks();
  auto& rng = c.rng;
  World w;
  auto pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 2)));
  auto strand = yaclib::MakeStrand(pool);
  w.inl.Init(0, nullptr);
  w.pool.Init(1, pool.Get());
  w.strand.Init(2, strand.Get());
  w.reject.Init(3, nullptr, 0);
  w.chaos = rng.Chance(1, 8);
  Gen g{w, rng};
  const int roots = rng.In(1, 3);
  std::vector<Node*> root;
  for (int i = 0; i != roots; ++i) {
    root.push_back(g.NewNode(0));
  }
  Scenario("roots=%d%s", roots, w.chaos ? " chaos" : "");
  for (auto& n : w.nodes) {
    ScenarioAdd(" %s", Describe(n).c_str());
  }
  const int n_prod = rng.In(1, 3);
  std::vector<std::vector<Leaf*>> prod(static_cast<std::size_t>(n_prod));
  for (auto& l : w.leaves) {
    if (rng.Chance(1, 6)) {
      ScenarioAdd(" pre%d", l.id);
      l.Fulfil();
    } else {
      prod[rng.Below(prod.size())].push_back(&l);
    }
  }
  for (auto& p : prod) {
    for (std::size_t i = p.size(); i > 1; --i) {
      std::swap(p[i - 1], p[rng.Below(i)]);
    }
  }
  const bool second = roots > 1 && rng.Chance(1, 2);
  Consumer ca{w, Rng{rng.Next()}, {}, {}, {}, {}, {}, {}, {}};
  Consumer cb{w, Rng{rng.Next()}, {}, {}, {}, {}, {}, {}, {}};
  StartLine line{n_prod + 1 + (second ? 1 : 0) + (w.chaos ? 1 : 0)};
  std::vector<Thread> threads;
  for (auto& p : prod) {
    const bool in_pool = !w.chaos && rng.Chance(1, 3);
    threads.emplace_back([&p, &line, &w, in_pool] {
      line.Arrive();
      for (auto* l : p) {
        if (l->delay != 0) {
          yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{l->delay});
        }
        Point();
        if (in_pool && l->id % 2 == 0) {
          yaclib::Run(w.pool, [l] {
            l->Fulfil();
          }).Detach();
        } else {
          l->Fulfil();
        }
      }
    });
  }
  if (w.chaos) {
    auto hard = rng.Chance(1, 2);
    auto delay = rng.In(0, 200);
    threads.emplace_back([&line, pool, hard, delay] {
      line.Arrive();
      yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{kFiber ? delay : delay * 300});
      if (hard) {
        pool->HardStop();
      } else {
        pool->Stop();
      }
    });
  }
  if (second) {
    threads.emplace_back([&] {
      line.Arrive();
      for (std::size_t i = 1; i < root.size(); ++i) {
        cb.Launch(root[i]);
      }
      cb.Finish();
    });
  }
  line.Arrive();
  for (std::size_t i = 0; i < (second ? 1 : root.size()); ++i) {
    ca.Launch(root[i]);
  }
  ca.Finish();
  for (auto& t : threads) {
    t.join();
  }
  threads.clear();
  // every frame must go away
  for (u64 i = 0; gFnLedger.live.load(std::memory_order_relaxed) != 0; ++i) {
    VH_CHECK(i < (kFiber ? 3000u : 100000u), "C13,C03", "frame-not-destroyed",
             "%lld frames/functors alive although everything was fulfilled", (long long)gFnLedger.live.load());
    yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{kFiber ? 200 : 100000});
  }
  pool->Stop();
  pool->Wait();
  // leaves nobody took (a coroutine stopped before) are released before quiescence is awaited
  for (auto& l : w.leaves) {
    l.f = {};
    l.fo = {};
    l.s = {};
  }
  u64 finished = 0, stopped = 0;
  auto check = [&](Consumer& k) {
    for (auto& [cell, n] : k.expect) {
      VH_CHECK(*cell == 1, kP, "continuation-lost", "continuation of coroutine %d fired %d times", n->id, *cell);
    }
    for (auto* n : k.cancelled) {
      VH_CHECK(n->starts.load() == 0, "C13,C12", "cancelled-ran", "cancelled task coroutine %d ran", n->id);
    }
  };
  check(ca);
  check(cb);
  u64 steps = 0;
  for (auto& n : w.nodes) {
    finished += n.finished;
    if (n.starts.load() != 0 && !n.finished) {
      ++stopped;
      VH_CHECK(n.stop_allowed, "C13", "never-resumed", "coroutine %d started, never finished (step %d) and was not stopped",
               n.id, n.step);
    }
    if (n.starts.load() != 0) {
      steps += static_cast<u64>(n.step + 1);
    }
  }
  Count("coroutines_finished", finished);
  Count("coroutines_stopped", stopped);
  Count("steps_resumed", steps);
  Count("cancelled_tasks", ca.cancelled.size() + cb.cancelled.size());
  c.nontrivial = steps != 0;
  c.Note(finished * 100 + stopped);
  w.nodes.clear();
  w.leaves.clear();
  strand = nullptr;
  for (auto* e : {&w.inl, &w.pool, &w.strand, &w.reject}) {
    VH_CHECK(e->refs.load() == 0, "C03,C13,C05", "executor-leak", "executor %d referenced %d times at quiescence", e->Id(),
             e->refs.load());
    VH_CHECK(e->pending.load() == 0, "C05,C13", "job-lost", "executor %d: %d jobs neither called nor dropped", e->Id(),
             e->pending.load());
  }
  CheckLedgers("C03,C13");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
