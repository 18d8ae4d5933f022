// Shared client-side types: error, outcome model, instrumented executors.
#pragma once

#include "vh.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/exe/executor.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/job.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/result.hpp>

#include <memory>
#include <mutex>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>

namespace vh {

// Error with identity; the cell makes it visible to sanitizers and to the ledger.
struct Err {
  Err(yaclib::StopTag) noexcept : v{kStopId} {
  }
  explicit Err(u64 id) : v{id} {
  }
  u64 Id() const {
    return v.Id();
  }
  static const char* What() noexcept {
    return "Err";
  }
  Val v;
};

enum class St : unsigned char { V, E, X, Empty };

// Outcome: state + identity of the payload
struct Out {
  St st = St::Empty;
  u64 id = 0;
  bool operator==(const Out& o) const noexcept {
    return st == o.st && id == o.id;
  }
  bool operator!=(const Out& o) const noexcept {
    return !(*this == o);
  }
  std::string Str() const {
    static const char* kN[] = {"V", "E", "X", "Empty"};
    if (st == St::E && id == kStopId) {
      return "Stop";
    }
    return std::string{kN[static_cast<int>(st)]} + "(" + std::to_string(id) + ")";
  }
  static Out Stop() noexcept {
    return {St::E, kStopId};
  }
};

inline u64 BoomId(const std::exception_ptr& p) {
  if (p == nullptr) {
    Fail("*", "null-exception", "an Exception result carries a null exception_ptr");
  }
  try {
    std::rethrow_exception(p);
  } catch (const Boom& b) {
    return (b.id & 3) == 0 ? b.id : 999998;
  } catch (const Foreign& b) {
    return (b.id & 3) == 1 ? b.id : 999998;
  } catch (const BoomRt& b) {
    return (b.id & 3) == 2 ? b.id : 999998;
  } catch (u64 id) {
    return (id & 3) == 3 ? id : 999998;
  } catch (const yaclib::ResultError<Err>& e) {
    return 1000000 + e.Get().Id();
  } catch (...) {
    return 999999;
  }
}

template <typename T>
u64 IdOf(const T& v) {
  if constexpr (std::is_same_v<T, Val> || std::is_same_v<T, Err>) {
    return v.Id();
  } else if constexpr (std::is_same_v<T, yaclib::StopError>) {
    return kStopId;
  } else if constexpr (std::is_same_v<T, yaclib::Unit>) {
    return 0;
  } else {
    return static_cast<u64>(v);
  }
}

template <typename V, typename E>
Out MakeOut(const yaclib::Result<V, E>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {St::V, IdOf(r.Value())};
    case yaclib::ResultState::Error:
      return {St::E, IdOf(r.Error())};
    case yaclib::ResultState::Exception:
      return {St::X, BoomId(r.Exception())};
    default:
      return {};
  }
}

inline yaclib::Result<Val, Err> MakeResult(Out o) {
  switch (o.st) {
    case St::V:
      return yaclib::Result<Val, Err>{std::in_place, o.id};
    case St::E:
      return o.id == kStopId ? yaclib::Result<Val, Err>{yaclib::StopTag{}} : yaclib::Result<Val, Err>{Err{o.id}};
    case St::X:
      return yaclib::Result<Val, Err>{BoomPtr(o.id)};
    default:
      return {};
  }
}

// ---- current executor -------------------------------------------------------------------------------------------------
// Stack of instrumented executors the current thread (fiber) is inside of.
#if YACLIB_FAULT == 2
inline std::map<u64, std::vector<int>> gExecStacks;
inline std::vector<int>& ExecStack() {
  return gExecStacks[yaclib::fault::Scheduler::Current() != nullptr ? yaclib::fault::Scheduler::GetId() : 0];
}
#else
inline thread_local std::vector<int> tExecStack;
inline std::vector<int>& ExecStack() {
  return tExecStack;
}
#endif
inline int CurrentExec() {
  auto& s = ExecStack();
  return s.empty() ? -1 : s.back();
}

// Executor decorator: counts submissions, marks the executing thread, rejects (Drops) from the k-th submission on.
class TrackExec : public yaclib::IExecutor {
 public:
  TrackExec() = default;
  TrackExec(const TrackExec&) = delete;

  void Init(int id, yaclib::IExecutor* inner, int reject_from = -1, bool reject_once = false) {
    _id = id;
    _inner = inner;  // nullptr: run the job right inside Submit
    _reject_from = reject_from;
    _reject_once = reject_once;
    submits.store(0);
    calls.store(0);
    drops.store(0);
    refs.store(0);
    pending.store(0);
  }

  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return true;
  }
  void Submit(yaclib::Job& job) noexcept final {
    // seq_cst only off TSan: whoever waits for quiescence reads them together
    pending.fetch_add(1, kTsan ? std::memory_order_relaxed : std::memory_order_seq_cst);
    auto n = submits.fetch_add(1, std::memory_order_relaxed);
    bool reject = _reject_from >= 0 && (_reject_once ? n == _reject_from : n >= _reject_from);
    if (reject) {
      drops.fetch_add(1, std::memory_order_relaxed);
      job.Drop();
      pending.fetch_sub(1, std::memory_order_relaxed);
      return;
    }
    if (_inner == nullptr) {
      ExecStack().push_back(_id);
      calls.fetch_add(1, std::memory_order_relaxed);
      job.Call();
      ExecStack().pop_back();
      pending.fetch_sub(1, std::memory_order_relaxed);
      return;
    }
    _inner->Submit(*new Wrap{*this, job});
  }
  void IncRef() noexcept final {
    refs.fetch_add(1, std::memory_order_relaxed);
  }
  void DecRef() noexcept final {
    auto r = refs.fetch_sub(1, std::memory_order_relaxed) - 1;
    if (r < 0) {
      Fail("C03,C05", "executor-over-released", "executor %d released more often than retained", _id);
    }
  }
  std::size_t GetRef() noexcept final {
    return static_cast<std::size_t>(refs.load(std::memory_order_relaxed)) + 1;
  }
  int Id() const noexcept {
    return _id;
  }

  std::atomic<int> submits{0};
  std::atomic<int> calls{0};
  std::atomic<int> drops{0};
  std::atomic<int> refs{0};
  std::atomic<int> pending{0};

 private:
  struct Wrap final : yaclib::Job {
    Wrap(TrackExec& s, yaclib::Job& j) noexcept : self{s}, job{j} {
    }
    void Call() noexcept final {
      auto& s = self;
      auto& j = job;
      delete this;
      s.calls.fetch_add(1, std::memory_order_relaxed);
      ExecStack().push_back(s._id);
      j.Call();
      ExecStack().pop_back();
      s.pending.fetch_sub(1, std::memory_order_relaxed);
    }
    void Drop() noexcept final {
      auto& s = self;
      auto& j = job;
      delete this;
      s.drops.fetch_add(1, std::memory_order_relaxed);
      j.Drop();
      s.pending.fetch_sub(1, std::memory_order_relaxed);
    }
    TrackExec& self;
    yaclib::Job& job;
  };
  int _id = 0;
  yaclib::IExecutor* _inner = nullptr;
  int _reject_from = -1;
  bool _reject_once = false;
};

inline void ResetExecStacks() {
#if YACLIB_FAULT == 2
  gExecStacks.clear();
#endif
}

}  // namespace vh
