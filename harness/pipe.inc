// Random pipelines run by the library and by a reference interpreter (C02, C03, C05, C12).
// PIPE_LAZY == 0: eager sources, PIPE_LAZY == 1: lazy (Task) sources.
#include "types.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

#include <deque>
#include <optional>
#include <variant>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>

using namespace vh;
using yaclib::Future;
using yaclib::FutureOn;
using yaclib::Promise;
using yaclib::Result;
using yaclib::SharedFuture;
using yaclib::SharedFutureOn;
using yaclib::SharedPromise;
using yaclib::Task;

namespace {

using R = Result<Val, Err>;
using RV = Result<void, Err>;
using FU = Future<Val, Err>;
using FO = FutureOn<Val, Err>;
using SH = SharedFuture<Val, Err>;
using TA = Task<Val, Err>;
using FUV = Future<void, Err>;
using FOV = FutureOn<void, Err>;
using TAV = Task<void, Err>;
using SHO = SharedFutureOn<Val, Err>;

constexpr int kInlineExec = -1;
constexpr int kStopExec = -2;
constexpr int kExecs = 4;

enum class Sig : int { V, CV, R, E, X, None };
enum class Ret : int { Val, Res, Fut, Shared, Task, Void, FutOn, SharedOn, FutV, TaskV };

constexpr bool IsAsync(Ret r) {
  return r == Ret::Fut || r == Ret::Shared || r == Ret::Task || r >= Ret::FutOn;
}
constexpr bool IsVoidRet(Ret r) {
  return r == Ret::Void || r == Ret::FutV || r == Ret::TaskV;
}

struct Leaf {  // a callback of an inner asynchronous result
  Out produce;
  bool throws = false;
  bool expect_call = false;
  int expect_exec = -3;  // -3: anywhere
  std::atomic<int> calls{0};
};

struct Inner {
  int kind = 0;
  int exec = 0, exec2 = 0;
  bool keep = false;
  Leaf a, b;
  Out ready;
};

struct Step {
  int index = 0;
  int attach = 0;  // 0 inline, 1 on exec, 2 inherited
  int exec = 0;
  Sig sig = Sig::R;
  Ret ret = Ret::Val;
  bool lvalue = false;
  Out produce;
  bool throws = false;
  Inner inner;
  // expectation
  bool expect_call = false;
  Out expect_in;
  int expect_exec = -3;
  // observation
  std::atomic<int> calls{0};
  std::atomic<u64> at{0};
};

struct World {
  TrackExec ex[kExecs];
  std::atomic<int> expect_dummy{0};
  bool chaos = false;
  std::atomic<bool> started{true};
  // late actions, run by a helper thread
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  std::deque<std::function<void()>> late;
  bool stop = false;
  int late_running = 0;
  u64 late_total = 0;
  std::atomic<u64> late_mask{0};
  std::deque<SH> kept;

  void Late(std::function<void()> f) {
    std::unique_lock lock{m};
    late.push_back(std::move(f));
    ++late_total;
    cv.notify_all();
  }
};
World* gW = nullptr;

void CheckRunPlace(int expect_exec, const char* what, int index) {
  if (gW->chaos || expect_exec == -3) {
    return;
  }
  auto cur = CurrentExec();
  VH_CHECK(cur == expect_exec, "C05,C02", "wrong-executor", "%s %d runs inside executor %d, expected %d", what, index, cur,
           expect_exec);
}

void Started(const char* what) {
  VH_CHECK(gW->started.load(std::memory_order_relaxed), "C12", "ran-before-start", "%s of a Task ran before the Task was started",
           what);
}

// result of a leaf callback, may throw
R RunLeaf(Leaf* l) {
  Started("inner callback");
  auto n = l->calls.fetch_add(1, std::memory_order_relaxed) + 1;
  VH_CHECK(n == 1, "C02,C12", "leaf-twice", "inner callback ran %d times", n);
  VH_CHECK(l->expect_call || gW->chaos, "C02,C05,C12", "leaf-unexpected", "inner callback ran but should have been skipped");
  CheckRunPlace(l->expect_exec, "inner callback", 0);
  Point();
  if (l->throws) {
    ThrowBoom(l->produce.id);
  }
  return MakeResult(l->produce);
}

struct LeafFn {  // first callback of an inner pipeline
  Leaf* l;
  FnToken t;
  R operator()() {
    t.Touch();
    return RunLeaf(l);
  }
};
RV VoidResult(Out o) {
  return o.st == St::V     ? RV{std::in_place}
         : o.st == St::X   ? RV{BoomPtr(o.id)}
         : o.id == kStopId ? RV{yaclib::StopTag{}}
                           : RV{Err{o.id}};
}
struct LeafV {  // first callback of an inner void pipeline
  Leaf* l;
  FnToken t;
  RV operator()() {
    t.Touch();
    return VoidResult(MakeOut(RunLeaf(l)));
  }
};
struct LeafRV {  // second one, without a result
  Leaf* l;
  FnToken t;
  void operator()(RV&& r) {
    t.Touch();
    (void)MakeOut(r);
    (void)RunLeaf(l);
  }
};
struct LeafR {  // second callback, takes anything
  Leaf* l;
  FnToken t;
  R operator()(R&& r) {
    t.Touch();
    (void)MakeOut(r);
    return RunLeaf(l);
  }
};
FU LateFuture(Out out, bool drop);
template <template <typename, typename> class P>
struct LeafPT {  // contract style
  Leaf* l;
  bool late;
  FnToken t;
  void operator()(P<Val, Err>&& p) {
    t.Touch();
    auto r = RunLeaf(l);
    if ((l->produce.id & 1) != 0) {  // the promise of the contract becomes the end of one more pipeline
      if ((l->produce.id & 2) != 0) {
        auto s = yaclib::Split(late ? LateFuture(MakeOut(r), l->produce == Out::Stop()) : yaclib::MakeFuture<Val, Err>(std::move(r)));
        yaclib::Connect(s, std::move(p));
      } else if (late) {
        yaclib::Connect(LateFuture(MakeOut(r), l->produce == Out::Stop()), std::move(p));
      } else {
        yaclib::Connect(yaclib::MakeFuture<Val, Err>(std::move(r)), std::move(p));
      }
    } else if (late) {
      auto* raw = new P<Val, Err>{std::move(p)};
      gW->Late([raw, out = MakeOut(r)] {
        std::move(*raw).Set(MakeResult(out));
        delete raw;
      });
    } else if (l->produce == Out::Stop()) {
      auto drop = std::move(p);
    } else {
      std::move(p).Set(std::move(r));
    }
  }
};
using LeafP = LeafPT<Promise>;
using LeafPS = LeafPT<SharedPromise>;
struct LeafFut {
  Leaf* l;
  FnToken t;
  FU operator()() {
    t.Touch();
    auto r = RunLeaf(l);
    auto [f, p] = yaclib::MakeContract<Val, Err>();
    auto* raw = new Promise<Val, Err>{std::move(p)};
    gW->Late([raw, out = MakeOut(r)] {
      std::move(*raw).Set(MakeResult(out));
      delete raw;
    });
    return std::move(f);
  }
};
struct LeafTask {
  Leaf* l;
  FnToken t;
  TA operator()(R&& r) {
    t.Touch();
    (void)MakeOut(r);
    auto x = RunLeaf(l);
    return yaclib::MakeTask<Val, Err>(std::move(x));
  }
};

FU LateFuture(Out out, bool drop) {
  auto [f, p] = yaclib::MakeContract<Val, Err>();
  auto* raw = new Promise<Val, Err>{std::move(p)};
  gW->Late([raw, out, drop] {
    if (!drop) {
      std::move(*raw).Set(MakeResult(out));
    }
    delete raw;
  });
  return std::move(f);
}

FU CoFut(Leaf* l, FU gate) {
  FnToken t;
  co_await Await(gate);
  t.Touch();
  co_return RunLeaf(l);
}
FU CoShare(Leaf* l, SH gate) {
  FnToken t;
  try {
    (void)co_await gate;
  } catch (...) {
  }
  t.Touch();
  co_return RunLeaf(l);
}
TA CoTask(Leaf* l, int exec) {
  FnToken t;
  Started("coroutine body");
  if (exec >= 0) {
    co_await On(gW->ex[exec]);
  }
  t.Touch();
  co_return RunLeaf(l);
}

// ---- building inner asynchronous results ---------------------------------------------------------------------------------
constexpr int kFutKinds = 9, kSharedKinds = 5, kTaskKinds = 14, kFutOnKinds = 4, kSharedOnKinds = 2, kVoidKinds = 3;

FU MakeInnerFut(Inner& in) {
  switch (in.kind) {
    case 0:
      return yaclib::MakeFuture<Val, Err>(MakeResult(in.ready));
    case 1:
      return LateFuture(in.ready, false);
    case 2:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).On(nullptr);
    case 3:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).Then(gW->ex[in.exec2], LeafR{&in.b, {}}).On(nullptr);
    case 4:
      return LateFuture({}, true);
    case 5:
      return yaclib::AsyncContract<Val, Err>(gW->ex[in.exec], LeafP{&in.a, in.keep, {}}).On(nullptr);
    case 6:
      return CoFut(&in.a, in.keep ? LateFuture({St::V, 1}, false) : yaclib::MakeFuture<Val, Err>(std::in_place, u64{1}));
    case 7:
      return yaclib::Share(yaclib::Split(LateFuture(in.ready, false)));
    default:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafFut{&in.a, {}}).ThenInline(LeafR{&in.b, {}}).On(nullptr);
  }
}

FO MakeInnerFutOn(Inner& in) {
  switch (in.kind) {
    case 0: {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(gW->ex[in.exec]);
      auto* raw = new Promise<Val, Err>{std::move(p)};
      gW->Late([raw, out = in.ready, drop = in.keep] {
        if (!drop) {
          std::move(*raw).Set(MakeResult(out));
        }
        delete raw;
      });
      return std::move(f);
    }
    case 1:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafFn{&in.a, {}});
    case 2:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).Then(LeafR{&in.b, {}});
    default:
      return yaclib::Schedule<Err>(LeafFn{&in.a, {}}).ToFuture(gW->ex[in.exec]);
  }
}
SHO MakeInnerSharedOn(Inner& in) {
  switch (in.kind) {
    case 0: {
      auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(gW->ex[in.exec]);
      auto* raw = new SharedPromise<Val, Err>{std::move(p)};
      gW->Late([raw, out = in.ready, drop = in.keep] {
        if (!drop) {
          std::move(*raw).Set(MakeResult(out));
        }
        delete raw;
      });
      return std::move(f);
    }
    default:
      return yaclib::RunShared<Err>(gW->ex[in.exec], LeafFn{&in.a, {}});
  }
}
FUV MakeInnerFutV(Inner& in) {
  switch (in.kind) {
    case 0: {
      auto [f, p] = yaclib::MakeContract<void, Err>();
      auto* raw = new Promise<void, Err>{std::move(p)};
      gW->Late([raw, out = in.ready, drop = in.keep] {
        if (!drop) {
          std::move(*raw).Set(VoidResult(out));
        }
        delete raw;
      });
      return std::move(f);
    }
    case 1:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafV{&in.a, {}}).On(nullptr);
    default:
      return yaclib::Run<Err>(gW->ex[in.exec], LeafV{&in.a, {}}).Then(gW->ex[in.exec2], LeafRV{&in.b, {}}).On(nullptr);
  }
}
TAV MakeInnerTaskV(Inner& in) {
  switch (in.kind) {
    case 0:
      return yaclib::MakeTask<void, Err>(VoidResult(in.ready));
    case 1:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafV{&in.a, {}});
    default:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafV{&in.a, {}}).Then(gW->ex[in.exec2], LeafRV{&in.b, {}});
  }
}

SH MakeInnerShared(Inner& in) {
  SH s;
  switch (in.kind) {
    case 0: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      std::move(p).Set(MakeResult(in.ready));
      s = std::move(f);
      break;
    }
    case 1:
    case 4: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      auto* raw = new SharedPromise<Val, Err>{std::move(p)};
      gW->Late([raw, out = in.ready, drop = in.kind == 4] {
        if (!drop) {
          std::move(*raw).Set(MakeResult(out));
        }
        delete raw;
      });
      s = std::move(f);
      break;
    }
    case 2:
      s = yaclib::RunShared<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).On(nullptr);
      break;
    default:
      s = yaclib::Split(LateFuture(in.ready, false));
      break;
  }
  if (in.keep) {
    std::unique_lock lock{gW->m};
    gW->kept.push_back(s);
  }
  return s;
}

TA MakeInnerTask(Inner& in) {
  switch (in.kind) {
    case 0:
      return yaclib::MakeTask<Val, Err>(MakeResult(in.ready));
    case 1:
      return yaclib::MakeTask<Val, Err>(MakeResult(in.ready)).ThenInline(LeafR{&in.b, {}});
    case 2:
      return yaclib::Schedule<Err>(LeafFn{&in.a, {}});
    case 3:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafFn{&in.a, {}});
    case 4:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).Then(gW->ex[in.exec2], LeafR{&in.b, {}});
    case 5:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).ThenInline(LeafR{&in.b, {}});
    case 6:
      return yaclib::LazyContract<Val, Err>(LeafP{&in.a, in.keep, {}});
    case 7:
      return yaclib::LazyContract<Val, Err>(gW->ex[in.exec], LeafP{&in.a, in.keep, {}});
    case 8:
      return CoTask(&in.a, -1);
    case 9:
      return CoTask(&in.a, in.exec);
    case 10:
      return CoTask(&in.a, in.keep ? in.exec : -1).Then(gW->ex[in.exec2], LeafR{&in.b, {}});
    case 11:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafFn{&in.a, {}}).Then(LeafR{&in.b, {}});
    case 12:
      return yaclib::Schedule<Err>(gW->ex[in.exec], LeafFut{&in.a, {}}).ThenInline(LeafR{&in.b, {}});
    default:
      return yaclib::MakeTask<Val, Err>(MakeResult(in.ready)).ThenInline(LeafTask{&in.b, {}});
  }
}

// ---- main chain callbacks ------------------------------------------------------------------------------------------------
void Enter(Step* s, Out in) {
  Started("callback");
  auto n = s->calls.fetch_add(1, std::memory_order_relaxed) + 1;
  s->at.store(Now(), std::memory_order_relaxed);
  VH_CHECK(n == 1, "C02,C12,C01", "callback-twice", "callback of step %d ran %d times", s->index, n);
  if (!gW->chaos) {
    VH_CHECK(s->expect_call, "C02,C05,C12", "callback-unexpected", "callback of step %d ran with %s but should have been skipped",
             s->index, in.Str().c_str());
    VH_CHECK(in == s->expect_in, "C02,C05,C12", "callback-input", "callback of step %d got %s, expected %s", s->index,
             in.Str().c_str(), s->expect_in.Str().c_str());
  }
  CheckRunPlace(s->expect_exec, "step", s->index);
  Point();
}

template <Ret Kind>
auto Produce(Step* s) {
  if (s->throws) {
    ThrowBoom(s->produce.id);
  }
  if constexpr (Kind == Ret::Val) {
    return Val{s->produce.id};
  } else if constexpr (Kind == Ret::Res) {
    return MakeResult(s->produce);
  } else if constexpr (Kind == Ret::Fut) {
    return MakeInnerFut(s->inner);
  } else if constexpr (Kind == Ret::Shared) {
    return MakeInnerShared(s->inner);
  } else if constexpr (Kind == Ret::Task) {
    return MakeInnerTask(s->inner);
  } else if constexpr (Kind == Ret::FutOn) {
    return MakeInnerFutOn(s->inner);
  } else if constexpr (Kind == Ret::SharedOn) {
    return MakeInnerSharedOn(s->inner);
  } else if constexpr (Kind == Ret::FutV) {
    return MakeInnerFutV(s->inner);
  } else if constexpr (Kind == Ret::TaskV) {
    return MakeInnerTaskV(s->inner);
  } else {
    return;
  }
}

template <Ret Kind>
struct Fn0 {
  Step* s;
  FnToken t;
  auto operator()() {
    t.Touch();
    Enter(s, {St::V, 0});
    return Produce<Kind>(s);
  }
};
template <Ret Kind>
struct FnUnit {
  Step* s;
  FnToken t;
  auto operator()(yaclib::Unit) {
    t.Touch();
    Enter(s, {St::V, 0});
    return Produce<Kind>(s);
  }
};
template <Ret Kind>
struct FnV {
  Step* s;
  FnToken t;
  auto operator()(Val v) {
    t.Touch();
    Enter(s, {St::V, v.Id()});
    return Produce<Kind>(s);
  }
};
template <Ret Kind>
struct FnCV {
  Step* s;
  FnToken t;
  auto operator()(const Val& v) const {
    t.Touch();
    Enter(s, {St::V, v.Id()});
    return Produce<Kind>(s);
  }
};
template <Ret Kind, typename Res>
struct FnR {
  Step* s;
  FnToken t;
  auto operator()(Res r) {
    t.Touch();
    Enter(s, MakeOut(r));
    return Produce<Kind>(s);
  }
};
template <Ret Kind>
struct FnE {
  Step* s;
  FnToken t;
  auto operator()(Err e) {
    t.Touch();
    Enter(s, {St::E, e.Id()});
    return Produce<Kind>(s);
  }
};
template <Ret Kind>
struct FnX {
  Step* s;
  FnToken t;
  auto operator()(std::exception_ptr p) {
    t.Touch();
    Enter(s, {St::X, BoomId(p)});
    return Produce<Kind>(s);
  }
};

using Car = std::variant<FU, FO, SH, TA, FUV, FOV, TAV, SHO>;

template <typename C, typename F>
Car AttachFn(C& c, Step& s, F f) {
  constexpr bool kShared = std::is_same_v<C, SH> || std::is_same_v<C, SHO>;
  constexpr bool kPlain = std::is_same_v<C, FU> || std::is_same_v<C, FUV>;
  if (s.attach == 0) {
    if constexpr (kShared) {
      return c.ThenInline(std::move(f));
    } else {
      return std::move(c).ThenInline(std::move(f));
    }
  }
  if (s.attach == 1) {
    if constexpr (kShared) {
      return c.Then(gW->ex[s.exec], std::move(f));
    } else {
      return std::move(c).Then(gW->ex[s.exec], std::move(f));
    }
  }
  if constexpr (std::is_same_v<C, SHO>) {
    return c.Then(std::move(f));
  } else if constexpr (!kShared && !kPlain) {
    return std::move(c).Then(std::move(f));
  } else {
    HarnessError("inherited executor on a plain future");
  }
}

template <typename C, template <Ret> typename F>
Car AttachRet(C& c, Step& s) {
  switch (s.ret) {
    case Ret::Val:
      return AttachFn(c, s, F<Ret::Val>{&s, {}});
    case Ret::Res:
      return AttachFn(c, s, F<Ret::Res>{&s, {}});
    case Ret::Fut:
      return AttachFn(c, s, F<Ret::Fut>{&s, {}});
    case Ret::Shared:
      return AttachFn(c, s, F<Ret::Shared>{&s, {}});
    case Ret::Task:
      return AttachFn(c, s, F<Ret::Task>{&s, {}});
    default:
      HarnessError("bad ret");
  }
}
template <Ret K>
using FnRVal = FnR<K, R>;
template <Ret K>
using FnRRef = FnR<K, R&&>;
template <Ret K>
using FnRCRef = FnR<K, const R&>;

template <typename C>
Car AttachVal(C& c, Step& s) {
  switch (s.sig) {
    case Sig::V:
      switch (s.ret) {
        case Ret::Void:
          return AttachFn(c, s, FnV<Ret::Void>{&s, {}});
        case Ret::FutOn:
          return AttachFn(c, s, FnV<Ret::FutOn>{&s, {}});
        case Ret::SharedOn:
          return AttachFn(c, s, FnV<Ret::SharedOn>{&s, {}});
        case Ret::FutV:
          return AttachFn(c, s, FnV<Ret::FutV>{&s, {}});
        case Ret::TaskV:
          return AttachFn(c, s, FnV<Ret::TaskV>{&s, {}});
        default:
          break;
      }
      return AttachRet<C, FnV>(c, s);
    case Sig::CV:
      if (s.lvalue) {
        FnCV<Ret::Val> f{&s, {}};
        if constexpr (std::is_same_v<C, SH> || std::is_same_v<C, SHO>) {
          return c.Then(gW->ex[s.exec], f);
        } else {
          return std::move(c).Then(gW->ex[s.exec], f);
        }
      }
      return AttachFn(c, s, FnCV<Ret::Val>{&s, {}});
    case Sig::R:
      if (s.ret == Ret::Void) {
        return AttachFn(c, s, FnRVal<Ret::Void>{&s, {}});
      }
      if constexpr (std::is_same_v<C, SH> || std::is_same_v<C, SHO>) {
        return AttachRet<C, FnRCRef>(c, s);
      } else if constexpr (std::is_same_v<C, FO>) {
        return AttachRet<C, FnRRef>(c, s);
      } else {
        return AttachRet<C, FnRVal>(c, s);
      }
    case Sig::E:
      return AttachRet<C, FnE>(c, s);
    case Sig::X:
      return AttachRet<C, FnX>(c, s);
    default:
      HarnessError("bad sig");
  }
}
template <typename C>
Car AttachVoid(C& c, Step& s) {
  switch (s.sig) {
    case Sig::V:
      switch (s.ret) {
        case Ret::Val:
          return AttachFn(c, s, Fn0<Ret::Val>{&s, {}});
        case Ret::Fut:
          return AttachFn(c, s, Fn0<Ret::Fut>{&s, {}});
        case Ret::Task:
          return AttachFn(c, s, Fn0<Ret::Task>{&s, {}});
        case Ret::FutV:
          return AttachFn(c, s, Fn0<Ret::FutV>{&s, {}});
        case Ret::TaskV:
          return AttachFn(c, s, FnUnit<Ret::TaskV>{&s, {}});
        default:
          return AttachFn(c, s, Fn0<Ret::Void>{&s, {}});
      }
    case Sig::R:
      if (s.ret == Ret::Val) {
        return AttachFn(c, s, FnR<Ret::Val, RV>{&s, {}});
      }
      return AttachFn(c, s, FnR<Ret::Void, RV>{&s, {}});
    case Sig::E:
      return AttachFn(c, s, FnE<Ret::Void>{&s, {}});
    default:
      return AttachFn(c, s, FnX<Ret::Void>{&s, {}});
  }
}

// ---- reference interpreter -----------------------------------------------------------------------------------------------
struct Interp {
  int submits[kExecs] = {};
  int reject_from[kExecs];
  bool once[kExecs];

  bool Submit(int e) {
    if (e == kInlineExec) {
      return true;
    }
    if (e == kStopExec) {
      return false;
    }
    auto n = submits[e]++;
    return !(reject_from[e] >= 0 && (once[e] ? n == reject_from[e] : n >= reject_from[e]));
  }
  static int Place(int e) {
    return e >= 0 ? e : -3;
  }
  Out Call(Leaf& l, int place) {
    l.expect_call = true;
    l.expect_exec = place;
    if (l.throws) {
      return {St::X, l.produce.id};
    }
    return l.produce;
  }
  // job with a LeafFn head
  Out Head(Leaf& l, int exec) {
    return Submit(exec) ? Call(l, Place(exec)) : Out::Stop();
  }
  Out Second(Leaf& l, int exec) {  // LeafR: always called
    return Submit(exec) ? Call(l, Place(exec)) : Call(l, -3);
  }
  Out EvalFut(Inner& in) {
    switch (in.kind) {
      case 0:
      case 1:
      case 7:
        return in.ready;
      case 2:
      case 5:
        return Head(in.a, in.exec);
      case 3:
        Head(in.a, in.exec);
        return Second(in.b, in.exec2);
      case 4:
        return Out::Stop();
      case 6:
        return Call(in.a, -3);
      default:
        Head(in.a, in.exec);
        return Second(in.b, kInlineExec);
    }
  }
  Out EvalFutOn(Inner& in) {
    switch (in.kind) {
      case 0:
        return in.keep ? Out::Stop() : in.ready;
      case 2:
        Head(in.a, in.exec);
        return Second(in.b, in.exec);
      default:
        return Head(in.a, in.exec);
    }
  }
  static Out Void(Out o) {
    return o.st == St::V ? Out{St::V, 0} : o;
  }
  Out EvalVoid(Inner& in, bool task) {
    switch (in.kind) {
      case 0:
        return !task && in.keep ? Out::Stop() : Void(in.ready);
      case 1:
        return Void(Head(in.a, in.exec));
      default:
        Head(in.a, in.exec);
        return in.b.throws ? Second(in.b, in.exec2) : (Second(in.b, in.exec2), Out{St::V, 0});
    }
  }
  Out EvalShared(Inner& in) {
    switch (in.kind) {
      case 2:
        return Head(in.a, in.exec);
      case 4:
        return Out::Stop();
      default:
        return in.ready;
    }
  }
  Out EvalTask(Inner& in, int /*outer*/) {
    switch (in.kind) {
      case 0:
        return in.ready;
      case 1:
        return Second(in.b, kInlineExec);
      case 2:
      case 6:
        return Call(in.a, -3);
      case 3:
      case 7:
        return Head(in.a, in.exec);
      case 4:
        Head(in.a, in.exec);
        return Second(in.b, in.exec2);
      case 5:
        Head(in.a, in.exec);
        return Second(in.b, kInlineExec);
      case 8:
        return Call(in.a, -3);
      case 9:
        return Head(in.a, in.exec);
      case 10:
        if (in.keep) {
          Head(in.a, in.exec);
        } else {
          Call(in.a, -3);
        }
        return Second(in.b, in.exec2);
      case 11:
        Head(in.a, in.exec);
        return Second(in.b, in.exec);
      case 12:
        Head(in.a, in.exec);
        return Second(in.b, kInlineExec);
      default:
        return Call(in.b, -3);
    }
  }
  Out Run(Step& s, Out in, bool accepted, int target) {
    auto eff = accepted ? in : Out::Stop();
    bool run = false;
    switch (s.sig) {
      case Sig::V:
      case Sig::CV:
        run = eff.st == St::V;
        break;
      case Sig::E:
        run = eff.st == St::E;
        break;
      case Sig::X:
        run = eff.st == St::X;
        break;
      case Sig::R:
        run = true;
        break;
      case Sig::None:
        run = accepted;
        break;
    }
    if (!run) {
      return eff;
    }
    s.expect_call = true;
    s.expect_in = eff;
    s.expect_exec = accepted ? Place(target) : -3;
    if (s.throws) {
      return {St::X, s.produce.id};
    }
    switch (s.ret) {
      case Ret::Fut:
        return EvalFut(s.inner);
      case Ret::Shared:
        return EvalShared(s.inner);
      case Ret::Task:
        return EvalTask(s.inner, target);
      case Ret::Void:
        return {St::V, 0};
      case Ret::FutOn:
        return EvalFutOn(s.inner);
      case Ret::SharedOn:
        return s.inner.kind == 0 ? (s.inner.keep ? Out::Stop() : s.inner.ready) : Head(s.inner.a, s.inner.exec);
      case Ret::FutV:
        return EvalVoid(s.inner, false);
      case Ret::TaskV:
        return EvalVoid(s.inner, true);
      default:
        return s.produce;
    }
  }
};

// ---- program generation ----------------------------------------------------------------------------------------------------
u64 gNextId = 10;

Out RandOut(Rng& rng) {
  auto id = gNextId++;
  switch (rng.Below(6)) {
    case 0:
    case 1:
    case 2:
      return {St::V, id};
    case 3:
      return {St::E, id};
    case 4:
      return {St::X, id};
    default:
      return Out::Stop();
  }
}
void RandLeaf(Rng& rng, Leaf& l) {
  l.produce = RandOut(rng);
  l.throws = rng.Chance(1, 6);
  if (l.throws) {
    l.produce = {St::X, gNextId++};
  }
}
void RandInner(Rng& rng, Inner& in, Ret ret) {
  in.kind = rng.In(0, (ret == Ret::Fut        ? kFutKinds
                       : ret == Ret::Shared   ? kSharedKinds
                       : ret == Ret::Task     ? kTaskKinds
                       : ret == Ret::FutOn    ? kFutOnKinds
                       : ret == Ret::SharedOn ? kSharedOnKinds
                                              : kVoidKinds) -
                        1);
  in.exec = rng.In(0, kExecs - 1);
  in.exec2 = rng.In(0, kExecs - 1);
  in.keep = rng.Chance(1, 2);
  RandLeaf(rng, in.a);
  RandLeaf(rng, in.b);
  in.ready = RandOut(rng);
}
const char* kSigN[] = {"V", "CV", "R", "E", "X", "-"};
const char* kRetN[] = {"val", "res", "fut", "shared", "task", "void", "futon", "sharedon", "futv", "taskv"};

void Describe(const Step& s) {
  ScenarioAdd(" %s%d:%s->%s", s.attach == 0 ? "inl" : s.attach == 1 ? "on" : "inh", s.attach == 1 ? s.exec : 0,
              kSigN[static_cast<int>(s.sig)], s.throws ? "throw" : kRetN[static_cast<int>(s.ret)]);
  if (!s.throws && IsAsync(s.ret)) {
    ScenarioAdd("#%d(e%d,e%d%s%s%s)", s.inner.kind, s.inner.exec, s.inner.exec2, s.inner.keep ? ",k" : "",
                s.inner.a.throws ? ",a!" : "", s.inner.b.throws ? ",b!" : "");
  }
}
void RandProduce(Rng& rng, Step& s) {
  s.throws = rng.Chance(1, 8);
  s.produce = s.throws ? Out{St::X, gNextId++} : s.ret == Ret::Val ? Out{St::V, gNextId++} : RandOut(rng);
  if (IsAsync(s.ret)) {
    RandInner(rng, s.inner, s.ret);
  }
}

// ---- terminal helpers --------------------------------------------------------------------------------------------------------
void SameFinal(Out got, Out want, const char* how) {
  if (gW->chaos) {
    return;
  }
  VH_CHECK(got == want, "C02,C05,C12", "wrong-final", "%s: pipeline completed with %s, the sequential reading gives %s", how,
           got.Str().c_str(), want.Str().c_str());
}

struct FinalProbe {
  std::atomic<int> calls{0};
  Out got;
  int expect_exec = -3;
  int run_exec = -3;
};
template <typename Res>
struct FinalFn {
  FinalProbe* p;
  FnToken t;
  void operator()(Res r) {
    t.Touch();
    p->got = MakeOut(r);
    p->run_exec = CurrentExec();
    auto n = p->calls.fetch_add(1, std::memory_order_relaxed) + 1;
    VH_CHECK(n == 1, "C01,C02", "final-twice", "final callback ran %d times", n);
    Point();
  }
};

template <typename V>
Future<V, Err> CoAwaitTask(Task<V, Err> t) {
  FnToken tok;
  if constexpr (std::is_void_v<V>) {
    co_await std::move(t);
    tok.Touch();
    co_return RV{std::in_place};
  } else {
    auto v = co_await std::move(t);
    tok.Touch();
    co_return std::move(v);
  }
}
template <typename V>
Future<V, Err> CoAwaitTouch(Task<V, Err> t) {
  FnToken tok;
  co_await Await(t);
  tok.Touch();
  VH_CHECK(t.Ready(), "C12,C13", "task-not-ready", "Await(task) resumed but the task is not ready");
  co_return std::move(t).Touch();
}
FU CoAwaitDrop(std::variant<TA, TAV> t) {
  FnToken tok;
  if (t.index() == 0) {
    co_await Await(std::get<0>(t));
  } else {
    co_await Await(std::get<1>(t));
  }
  tok.Touch();
  Point();
  {
    auto drop = std::move(t);  // destroying a completed task only releases its result
  }
  co_return R{std::in_place, u64{4242}};
}

constexpr int kEagerTerms = 8;
// Consumes an eager future; returns observed outcome or nullopt when it arrives through the probe.
template <typename F>
std::optional<Out> Terminal(F&& f, int term, int exec, FinalProbe& probe, World& w) {
  using V = typename std::decay_t<F>::Core::Value;
  using Res = Result<V, Err>;
  switch (term) {
    case 0:
      return MakeOut(std::move(f).Get());
    case 1:
      std::move(f).DetachInline(FinalFn<Res>{&probe, {}});
      return std::nullopt;
    case 2:
      std::move(f).Detach(w.ex[exec], FinalFn<Res&&>{&probe, {}});
      return std::nullopt;
    case 3: {
      auto drop = std::move(f);
      return std::nullopt;
    }
    case 4: {
      auto [f2, p2] = yaclib::MakeContract<V, Err>();
      yaclib::Connect(std::move(f), std::move(p2));
      return MakeOut(std::move(f2).Get());
    }
    case 5: {
      auto s = yaclib::Split(std::move(f));
      s.SubscribeInline(FinalFn<const Res&>{&probe, {}});
      return MakeOut(s.Get());
    }
    case 6:
      yaclib::Wait(f);
      return MakeOut(std::move(f).Touch());
    default:
      std::move(f).Detach();
      return std::nullopt;
  }
}

#if PIPE_LAZY
constexpr int kSources = 8;
constexpr int kLazyTerms = 11;
#else
constexpr int kSources = 17;
#endif

void Body(Case& c) {
  auto& rng = c.rng;
  ResetExecStacks();
  gNextId = 10;
  World w;
  gW = &w;
  const bool use_pool = rng.Chance(2, 3);
  w.chaos = use_pool && rng.Chance(1, 6);
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  if (use_pool) {
    pool = yaclib::MakeFairThreadPool(static_cast<u64>(rng.In(1, 2)));
  }
  Interp ip;
  Scenario("pipe(%s): chaos=%d exec=", PIPE_LAZY ? "lazy" : "eager", w.chaos);
  yaclib::IExecutorPtr strand;
  if (use_pool) {
    strand = yaclib::MakeStrand(yaclib::IExecutorPtr{pool});
  }
  for (int i = 0; i != kExecs; ++i) {
    const int how = use_pool ? rng.In(0, 2) : 0;
    yaclib::IExecutor* inner = how == 0 ? nullptr : how == 1 ? static_cast<yaclib::IExecutor*>(pool.Get()) : strand.Get();
    ip.reject_from[i] = w.chaos ? -1 : rng.Pick({-1, -1, -1, -1, -1, 0, 1, 2});
    ip.once[i] = rng.Chance(1, 3);
    w.ex[i].Init(i, inner, ip.reject_from[i], ip.once[i]);
    ScenarioAdd("%s%s", how == 0 ? "i" : how == 1 ? "p" : "s",
                ip.reject_from[i] < 0 ? "," : (ip.once[i] ? "!" : "x") + std::to_string(ip.reject_from[i]) == "" ? "" : (std::string{ip.once[i] ? "!" : "x"} + std::to_string(ip.reject_from[i]) + ",").c_str());
  }
  const int nsteps = rng.In(0, 5);
  const int source = rng.In(0, kSources - 1);
  std::deque<Step> steps;
  Step src;
  src.sig = Sig::None;
  src.exec = rng.In(0, kExecs - 1);
  src.ret = rng.Pick({Ret::Val, Ret::Res, Ret::Res, Ret::Fut, Ret::Shared, Ret::Task});
  if (rng.Chance(1, 3)) {  // the head of a pipeline can also take a Unit or a Result<void>
    src.sig = rng.Pick({Sig::V, Sig::R, Sig::R});
    src.ret = rng.Pick({Ret::Val, Ret::Res, Ret::Task});
  }
  RandProduce(rng, src);
#if PIPE_LAZY
  if (source == 7) {
    RandInner(rng, src.inner, Ret::Task);
  }
#endif
  Leaf leaf;
  RandLeaf(rng, leaf);
  const Out ready = RandOut(rng);
  const bool late = rng.Chance(1, 2);
  ScenarioAdd(" src=%d(e%d,late=%d,%s->%s%s)", source, src.exec, late, kSigN[static_cast<int>(src.sig)],
              kRetN[static_cast<int>(src.ret)], src.throws ? "!" : "");
  if (IsAsync(src.ret) && !src.throws) {
    ScenarioAdd("#%d(e%d,e%d,%d)", src.inner.kind, src.inner.exec, src.inner.exec2, src.inner.keep);
  }

  // the type of the carrier is tracked while the program is generated
  enum class Ty { FU, FO, SH, SHO, TA, FUV, FOV, TAV };
  Out cur;
  int inh = kInlineExec;
  std::optional<Car> car;
  Ty ty{};

  // lazily started pipelines: the evaluation of the head depends on how it will be started
#if PIPE_LAZY
  const int term = rng.In(0, kLazyTerms - 1);
  const int eterm = rng.In(0, kEagerTerms - 1);
  const int texec = rng.In(0, kExecs - 1);
  const bool start_on = (term == 2 || term == 4) && (source == 0 || source == 1 || source == 4);
  const bool cancel = term == 5 || term == 6;
  w.started.store(cancel);  // cancellation may run error/result callbacks at once
  ScenarioAdd(" term=%d/%d(e%d)", term, eterm, texec);
#endif

  // decide the steps first
  {
#if PIPE_LAZY
    ty = Ty::TA;
#else
    switch (source) {
      case 0:
      case 1:
      case 5:
      case 6:
      case 9:
      case 10:
        ty = Ty::FU;
        break;
      case 2:
      case 3:
      case 4:
        ty = Ty::FO;
        break;
      case 11:
        ty = Ty::FOV;
        break;
      case 12:
      case 13:
      case 15:
      case 16:
        ty = Ty::SHO;
        break;
      default:
        ty = Ty::SH;
        break;
    }
#endif
    for (int i = 0; i != nsteps; ++i) {
      auto& s = steps.emplace_back();
      s.index = i + 1;
      const bool is_void = ty == Ty::FUV || ty == Ty::FOV || ty == Ty::TAV;
      const bool plain = ty == Ty::FU || ty == Ty::FUV || ty == Ty::SH;
      s.attach = plain ? rng.In(0, 1) : rng.In(0, 2);
      s.exec = rng.In(0, kExecs - 1);
      s.sig = rng.Pick({Sig::V, Sig::V, Sig::V, Sig::CV, Sig::R, Sig::R, Sig::E, Sig::E, Sig::X});
      if (is_void) {
        s.sig = s.sig == Sig::CV ? Sig::V : s.sig;
        if (s.sig == Sig::V) {
          s.ret = rng.Pick({Ret::Val, Ret::Val, Ret::Fut, Ret::Task, Ret::Void, Ret::FutV, Ret::TaskV});
        } else if (s.sig == Sig::R) {
          s.ret = rng.Pick({Ret::Val, Ret::Void});
        } else {
          s.ret = Ret::Void;
        }
      } else {
        s.ret = rng.Pick({Ret::Val, Ret::Val, Ret::Res, Ret::Res, Ret::Fut, Ret::Shared, Ret::Task, Ret::Task, Ret::Void});
        if (s.sig == Sig::V && rng.Chance(1, 3)) {
          s.ret = rng.Pick({Ret::FutOn, Ret::SharedOn, Ret::FutV, Ret::TaskV});
        }
        if (s.sig == Sig::CV) {
          s.ret = Ret::Val;
          s.lvalue = s.attach == 1 && rng.Chance(1, 2);
        }
        if (s.ret == Ret::Void && s.sig != Sig::V && s.sig != Sig::R) {
          s.ret = Ret::Res;
        }
      }
      RandProduce(rng, s);
      if (is_void && s.ret == Ret::Void && !s.throws) {
        s.produce = {St::V, 0};
      }
      Describe(s);
      const bool to_void = IsVoidRet(s.ret);
      const bool lazy = ty == Ty::TA || ty == Ty::TAV;
      const bool on = s.attach != 0 || ty == Ty::FO || ty == Ty::FOV || ty == Ty::SHO;
      ty = lazy ? (to_void ? Ty::TAV : Ty::TA) : on ? (to_void ? Ty::FOV : Ty::FO) : (to_void ? Ty::FUV : Ty::FU);
    }
  }

  // ---- reference run
  const bool drop_head = [&] {
#if PIPE_LAZY
    return cancel;
#else
    return false;
#endif
  }();
  (void)drop_head;
#if PIPE_LAZY
  {
    int head_exec = kInlineExec;
    if (source == 2 || source == 5 || source == 7) {
      head_exec = src.exec;
    }
    if (start_on) {
      head_exec = texec;
    }
    if (cancel) {
      head_exec = kStopExec;
    }
    inh = head_exec;
    switch (source) {
      case 0:  // MakeTask
        cur = ip.Submit(head_exec) ? ready : Out::Stop();
        break;
      case 1:  // Schedule(f)
      case 2:  // Schedule(e, f)
        cur = ip.Run(src, {St::V, 0}, ip.Submit(head_exec), head_exec);
        break;
      case 3:  // LazyContract(f)
      case 5:  // LazyContract(e, f)
        cur = ip.Head(leaf, head_exec);
        break;
      case 4:  // coroutine Task
        cur = ip.Head(leaf, head_exec);
        break;
      case 6: {  // coroutine Task that moves to src.exec
        if (ip.Submit(head_exec)) {
          cur = ip.Head(leaf, src.exec);
          inh = src.exec;
        } else {
          cur = Out::Stop();
        }
        break;
      }
      default: {  // inner kinds as a source: Schedule(e).ThenInline
        cur = ip.Submit(head_exec) ? ip.Call(src.inner.a, Interp::Place(head_exec)) : Out::Stop();
        cur = ip.Call(src.inner.b, -3);
        break;
      }
    }
  }
#else
  switch (source) {
    case 0:
    case 1:
    case 9:
      cur = ready;
      break;
    case 2:  // ContractOn
      cur = ready;
      inh = src.exec;
      break;
    case 3:  // Run(e)
      inh = src.exec;
      cur = ip.Run(src, {St::V, 0}, ip.Submit(src.exec), src.exec);
      break;
    case 4:  // AsyncContract(e)
      inh = src.exec;
      cur = ip.Head(leaf, src.exec);
      break;
    case 5:
      cur = ip.Run(src, {St::V, 0}, true, kInlineExec);
      break;
    case 6:  // AsyncContract(f)
      cur = ip.Call(leaf, -3);
      break;
    case 7:
      cur = ready;
      break;
    case 8:
      cur = ip.Head(leaf, src.exec);
      break;
    case 10:
      cur = ip.Call(leaf, -3);
      break;
    case 12:  // RunShared(e)
      inh = src.exec;
      cur = ip.Run(src, {St::V, 0}, ip.Submit(src.exec), src.exec);
      break;
    case 13:  // SharedContractOn(e)
      inh = src.exec;
      cur = ready;
      break;
    case 14:  // RunShared(f)
      cur = ip.Run(src, {St::V, 0}, true, kInlineExec);
      break;
    case 15:  // AsyncSharedContract(e, f)
      inh = src.exec;
      cur = ip.Head(leaf, src.exec);
      break;
    case 16:  // AsyncSharedContract(f), it's on the inline executor
      inh = kInlineExec;
      cur = ip.Call(leaf, -3);
      break;
    default:
      cur = ready.st == St::V ? Out{St::V, 0} : ready;
      inh = src.exec;
      break;
  }
#endif
  {
    Ty t = Ty::FU;
    (void)t;
    for (auto& s : steps) {
      int target = kInlineExec;
      bool accepted = true;
      if (s.attach == 1) {
        target = s.exec;
        accepted = ip.Submit(target);
        inh = target;
      } else if (s.attach == 2) {
        target = inh;
        accepted = ip.Submit(target);
      }
      cur = ip.Run(s, cur, accepted, target);
    }
  }

  // ---- library run
  FinalProbe probe;
  bool want_probe = false;
  Out want_probe_out;
  {
    Thread helper{[&w, hr = Rng{rng.Next()}]() mutable {
      while (true) {
        std::function<void()> f;
        {
          std::unique_lock lock{w.m};
          w.cv.wait(lock, [&] {
            return w.stop || !w.late.empty();
          });
          if (w.late.empty()) {
            break;
          }
          auto i = hr.Below(w.late.size());
          f = std::move(w.late[i]);
          w.late.erase(w.late.begin() + static_cast<std::ptrdiff_t>(i));
          ++w.late_running;
        }
        for (auto n = hr.Below(4); n != 0; --n) {
          Point();
        }
        f();
        f = nullptr;
        std::unique_lock lock{w.m};
        --w.late_running;
      }
    }};
    std::optional<Thread> stopper;
    const int stop_delay = rng.In(0, 30);
    const bool hard = rng.Chance(1, 2);
    if (w.chaos) {
      stopper.emplace([&] {
        for (int i = 0; i != stop_delay; ++i) {
          Point();
        }
        if (hard) {
          pool->HardStop();
        } else {
          pool->Stop();
        }
      });
    }
    auto src_fn = [&](auto make) {
      if (src.sig == Sig::V) {
        switch (src.ret) {
          case Ret::Val:
            return make(FnUnit<Ret::Val>{&src, {}});
          case Ret::Res:
            return make(FnUnit<Ret::Res>{&src, {}});
          default:
            return make(FnUnit<Ret::Task>{&src, {}});
        }
      }
      if (src.sig == Sig::R) {
        switch (src.ret) {
          case Ret::Val:
            return make(FnR<Ret::Val, RV>{&src, {}});
          case Ret::Res:
            return make(FnR<Ret::Res, RV&&>{&src, {}});
          default:
            return make(FnR<Ret::Task, RV>{&src, {}});
        }
      }
      switch (src.ret) {
        case Ret::Val:
          make(Fn0<Ret::Val>{&src, {}});
          break;
        case Ret::Res:
          make(Fn0<Ret::Res>{&src, {}});
          break;
        case Ret::Fut:
          make(Fn0<Ret::Fut>{&src, {}});
          break;
        case Ret::Shared:
          make(Fn0<Ret::Shared>{&src, {}});
          break;
        default:
          make(Fn0<Ret::Task>{&src, {}});
          break;
      }
    };
#if PIPE_LAZY
    switch (source) {
      case 0:
        car.emplace(yaclib::MakeTask<Val, Err>(MakeResult(ready)));
        break;
      case 1:
        src_fn([&](auto f) {
          car.emplace(yaclib::Schedule<Err>(std::move(f)));
        });
        break;
      case 2:
        src_fn([&](auto f) {
          car.emplace(yaclib::Schedule<Err>(w.ex[src.exec], std::move(f)));
        });
        break;
      case 3:
        car.emplace(yaclib::LazyContract<Val, Err>(LeafP{&leaf, late, {}}));
        break;
      case 4:
        car.emplace(CoTask(&leaf, -1));
        break;
      case 5:
        car.emplace(yaclib::LazyContract<Val, Err>(w.ex[src.exec], LeafP{&leaf, late, {}}));
        break;
      case 6:
        car.emplace(CoTask(&leaf, src.exec));
        break;
      default:
        car.emplace(yaclib::Schedule<Err>(w.ex[src.exec], LeafFn{&src.inner.a, {}}).ThenInline(LeafR{&src.inner.b, {}}));
        break;
    }
#else
    switch (source) {
      case 0:
        car.emplace(yaclib::MakeFuture<Val, Err>(MakeResult(ready)));
        break;
      case 1:
        car.emplace(LateFuture(ready, false));
        break;
      case 2: {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(w.ex[src.exec]);
        if (late) {
          auto* raw = new Promise<Val, Err>{std::move(p)};
          w.Late([raw, ready] {
            std::move(*raw).Set(MakeResult(ready));
            delete raw;
          });
        } else {
          std::move(p).Set(MakeResult(ready));
        }
        car.emplace(std::move(f));
        break;
      }
      case 3:
        src_fn([&](auto f) {
          car.emplace(yaclib::Run<Err>(w.ex[src.exec], std::move(f)));
        });
        break;
      case 4:
        car.emplace(yaclib::AsyncContract<Val, Err>(w.ex[src.exec], LeafP{&leaf, late, {}}));
        break;
      case 5:
        src_fn([&](auto f) {
          car.emplace(yaclib::Run<Err>(std::move(f)));
        });
        break;
      case 6:
        car.emplace(yaclib::AsyncContract<Val, Err>(LeafP{&leaf, late, {}}));
        break;
      case 7:
        car.emplace(yaclib::Split(LateFuture(ready, false)));
        break;
      case 8:
        car.emplace(yaclib::RunShared<Err>(w.ex[src.exec], LeafFn{&leaf, {}}).On(nullptr));
        break;
      case 9: {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        yaclib::Connect(LateFuture(ready, false), std::move(p));
        car.emplace(std::move(f));
        break;
      }
      case 10:
        if (late) {
          car.emplace(CoFut(&leaf, LateFuture({St::V, 1}, false)));
        } else {
          car.emplace(CoShare(&leaf, yaclib::Split(LateFuture({St::V, 1}, false))));
        }
        break;
      case 12:
        src_fn([&](auto f) {
          car.emplace(yaclib::RunShared<Err>(w.ex[src.exec], std::move(f)));
        });
        break;
      case 13: {
        auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(w.ex[src.exec]);
        if (late) {
          auto* raw = new SharedPromise<Val, Err>{std::move(p)};
          w.Late([raw, ready] {
            std::move(*raw).Set(MakeResult(ready));
            delete raw;
          });
        } else {
          std::move(p).Set(MakeResult(ready));
        }
        car.emplace(std::move(f));
        break;
      }
      case 14:
        src_fn([&](auto f) {
          car.emplace(yaclib::RunShared<Err>(std::move(f)));
        });
        break;
      case 15:
        car.emplace(yaclib::AsyncSharedContract<Val, Err>(w.ex[src.exec], LeafPS{&leaf, late, {}}));
        break;
      case 16:
        car.emplace(yaclib::AsyncSharedContract<Val, Err>(LeafPS{&leaf, late, {}}));
        break;
      default: {
        auto [f, p] = yaclib::MakeContractOn<void, Err>(w.ex[src.exec]);
        auto set = [ready](Promise<void, Err>& q) {
          std::move(q).Set(VoidResult(ready));
        };
        if (late) {
          auto* raw = new Promise<void, Err>{std::move(p)};
          w.Late([raw, set] {
            set(*raw);
            delete raw;
          });
        } else {
          set(p);
        }
        car.emplace(std::move(f));
        break;
      }
    }
#endif
    for (auto& s : steps) {
      Point();
      *car = std::visit(
        [&](auto& f) -> Car {
          using C = std::decay_t<decltype(f)>;
#if PIPE_LAZY
          if constexpr (std::is_same_v<C, TA>) {
            return AttachVal(f, s);
          } else if constexpr (std::is_same_v<C, TAV>) {
            return AttachVoid(f, s);
          } else {
            HarnessError("eager carrier in a lazy pipeline");
          }
#else
          if constexpr (std::is_same_v<C, FU> || std::is_same_v<C, FO> || std::is_same_v<C, SH> || std::is_same_v<C, SHO>) {
            return AttachVal(f, s);
          } else if constexpr (std::is_same_v<C, FUV> || std::is_same_v<C, FOV>) {
            return AttachVoid(f, s);
          } else {
            HarnessError("lazy carrier in an eager pipeline");
          }
#endif
        },
        *car);
    }
    Point();
    std::optional<Out> got;
    Out want = cur;
#if !PIPE_LAZY
    const int eterm = rng.In(0, kEagerTerms - 1);
    const int texec = rng.In(0, kExecs - 1);
    ScenarioAdd(" term=%d(e%d)", eterm, texec);
#else
    // nothing may have happened before the start
    for (int i = 0; i != kExecs; ++i) {
      VH_CHECK(w.ex[i].submits.load() == 0, "C12", "submitted-before-start", "executor %d got a job before the Task was started", i);
    }
#endif
    auto eager = [&](auto&& f) {
      using F = std::decay_t<decltype(f)>;
      if constexpr (std::is_same_v<F, SH> || std::is_same_v<F, SHO>) {
        if (eterm == 1 || eterm == 5) {
          f.SubscribeInline(FinalFn<const R&>{&probe, {}});
          want_probe = true;
        } else if (eterm == 2) {
          f.Subscribe(w.ex[texec], FinalFn<const R&>{&probe, {}});
          want_probe = true;
        } else if (eterm == 0) {
          got = MakeOut(std::move(f).Get());
        } else if (eterm == 6) {
          got = MakeOut(f.Get());
        }
        f = {};
      } else {
        got = Terminal(std::move(f), eterm, texec, probe, w);
        want_probe = eterm == 1 || eterm == 2 || eterm == 5;
      }
      want_probe_out = want;
      if (eterm == 2) {
        auto ok = ip.Submit(texec);
        if (!ok) {
          want_probe_out = Out::Stop();
        } else {
          probe.expect_exec = texec;
        }
      }
    };
#if PIPE_LAZY
    w.started.store(true);
    std::visit(
      [&](auto& t) {
        using C = std::decay_t<decltype(t)>;
        if constexpr (std::is_same_v<C, TA> || std::is_same_v<C, TAV>) {
          VH_CHECK(t.Valid() && !t.Ready(), "C12", "ready-before-start", "a Task is Ready before it was started");
          switch (term) {
            case 0:
              got = MakeOut(std::move(t).Get());
              break;
            case 1:
              eager(std::move(t).ToFuture());
              break;
            case 2:
              if (start_on) {
                eager(std::move(t).ToFuture(w.ex[texec]));
              } else {
                eager(std::move(t).ToFuture());
              }
              break;
            case 3:
              std::move(t).Detach();
              break;
            case 4:
              if (start_on) {
                std::move(t).Detach(w.ex[texec]);
              } else {
                std::move(t).Detach();
              }
              break;
            case 5:
              std::move(t).Cancel();
              break;
            case 6: {
              auto drop = std::move(t);
              break;
            }
            case 7:
              got = MakeOut(CoAwaitTask(std::move(t)).Get());
              if (want.st == St::E) {
                want = {St::X, 1000000 + want.id};
              }
              break;
            case 8:
              eager(CoAwaitTouch(std::move(t)));
              break;
            case 9:
              got = MakeOut(CoAwaitDrop(std::move(t)).Get());
              want = {St::V, 4242};
              break;
            default:
              eager(yaclib::MakeFuture<void, Err>().ThenInline([tt = std::move(t), tok = FnToken{}]() mutable {
                tok.Touch();
                return std::move(tt);
              }));
              break;
          }
        } else {
          HarnessError("eager carrier");
        }
      },
      *car);
#else
    std::visit(
      [&](auto& f) {
        using C = std::decay_t<decltype(f)>;
        if constexpr (!std::is_same_v<C, TA> && !std::is_same_v<C, TAV>) {
          eager(std::move(f));
        }
      },
      *car);
#endif
    car.reset();
    if (got) {
      SameFinal(*got, want, "terminal");
    }
    // quiescence: every late action was run and every executor is drained
    if (stopper) {
      stopper->join();
    }
    // idle and nothing was started while looking
    auto activity = [&] {
      std::unique_lock lock{w.m};
      u64 sum = w.late_total;
      lock.unlock();
      for (auto& e : w.ex) {
        sum += static_cast<u64>(e.submits.load());
      }
      return sum;
    };
    auto done = [&] {
      const auto before = activity();
      for (int scan = 0; scan != 2; ++scan) {
        std::unique_lock lock{w.m};
        if (!w.late.empty() || w.late_running != 0) {
          return false;
        }
        lock.unlock();
        for (auto& e : w.ex) {
          if (e.pending.load() != 0) {
            return false;
          }
        }
      }
      if (activity() != before) {
        return false;
      }
      if (w.chaos) {
        return probe.calls.load() != 0 || !want_probe;
      }
      for (int i = 0; i != kExecs; ++i) {
        if (w.ex[i].submits.load() != ip.submits[i]) {
          return false;
        }
      }
      for (auto& s : steps) {
        if (s.expect_call && s.calls.load() == 0) {
          return false;
        }
      }
      return !want_probe || probe.calls.load() != 0;
    };
    // bounded patience: whatever never comes is reported below by the exact checks
    for (int i = 0; i != (kFiber ? 300 : 20000) && !done(); ++i) {
      if (kFiber) {  // everybody else runs before the virtual clock moves
        yaclib_std::this_thread::sleep_for(std::chrono::milliseconds{1});
      } else if (i < 1000) {
        yaclib_std::this_thread::yield();
      } else {
        yaclib_std::this_thread::sleep_for(std::chrono::microseconds{200});
      }
    }
    {
      std::unique_lock lock{w.m};
      w.stop = true;
      w.cv.notify_all();
    }
    helper.join();
    w.kept.clear();
    if (use_pool) {
      pool->SoftStop();
      pool->Wait();
    }
  }
  // ---- verdict
  VH_CHECK(!want_probe || probe.calls.load() == 1, "C01,C02,C03,C05,C12", "final-lost", "the final callback was never called");
  if (want_probe && !w.chaos) {
    SameFinal(probe.got, want_probe_out, "final callback");
    VH_CHECK(probe.expect_exec == -3 || probe.run_exec == probe.expect_exec, "C05", "wrong-executor",
             "final callback ran inside executor %d, expected %d", probe.run_exec, probe.expect_exec);
  }
  if (!w.chaos) {
    u64 last = 0;
    auto check_leaf = [&](Leaf& l, const char* what) {
      VH_CHECK(l.calls.load() == (l.expect_call ? 1 : 0), "C02,C05,C12", "leaf-count", "%s ran %d times, expected %d", what,
               l.calls.load(), l.expect_call);
      Count("callbacks", static_cast<u64>(l.calls.load()));
    };
    auto check = [&](Step& s) {
      VH_CHECK(s.calls.load() == (s.expect_call ? 1 : 0), "C02,C05,C12", "callback-count", "callback of step %d ran %d times, expected %d",
               s.index, s.calls.load(), s.expect_call);
      if (s.expect_call) {
        VH_CHECK(s.at.load() > last, "C02,C12", "order", "step %d ran before the previous one", s.index);
        last = s.at.load();
        Count("callbacks");
      } else {
        Count("callbacks_skipped");
      }
      check_leaf(s.inner.a, "inner callback a");
      check_leaf(s.inner.b, "inner callback b");
    };
    check(src);
    check_leaf(leaf, "source callback");
    for (auto& s : steps) {
      check(s);
    }
    for (int i = 0; i != kExecs; ++i) {
      VH_CHECK(w.ex[i].submits.load() == ip.submits[i], "C05,C02,C12", "submission-count",
               "executor %d got %d submissions, the sequential reading gives %d", i, w.ex[i].submits.load(), ip.submits[i]);
      Count("submissions", static_cast<u64>(ip.submits[i]));
      Count("rejections", static_cast<u64>(w.ex[i].drops.load()));
    }
  } else {
    Count("chaos_cases");
  }
  for (int i = 0; i != kExecs; ++i) {
    VH_CHECK(w.ex[i].calls + w.ex[i].drops == w.ex[i].submits, "C05,C08", "job-lost", "executor %d: %d submitted, %d called, %d dropped",
             i, w.ex[i].submits.load(), w.ex[i].calls.load(), w.ex[i].drops.load());
    VH_CHECK(w.ex[i].refs.load() == 0, "C03,C05", "executor-leak", "executor %d still referenced %d times at quiescence", i,
             w.ex[i].refs.load());
  }
  strand = nullptr;
  pool = nullptr;
  CheckLedgers("C03,C12,C02");
  c.Note(cur.id * 4 + static_cast<u64>(cur.st));
}

}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, &Body);
}
