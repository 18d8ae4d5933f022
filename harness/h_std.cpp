// C18: the yaclib_std locks, condition variables, threads, sleeps and thread-local pointers judged against the std contracts.
#include "vh.hpp"

#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>

using namespace vh;

namespace {

constexpr const char* kP = "C18";
using Clock = yaclib_std::chrono::steady_clock;
using Ns = std::chrono::nanoseconds;

std::int64_t NowNs() {
  return std::chrono::duration_cast<Ns>(Clock::now().time_since_epoch()).count();
}
void SleepNs(std::int64_t ns) {
  yaclib_std::this_thread::sleep_for(Ns{ns});
}
// real time has no reason to be precise, virtual time has
constexpr std::int64_t kUnit = kFiber ? 1 : 1000;

// Deadline argument of a timed operation: relative or absolute, different durations, sometimes long over.
struct Timeout {
  bool rel = true;
  std::int64_t ns = 0;        // from now, may be negative
  int rep = 0;                // unit of the duration
  std::int64_t deadline = 0;  // filled before the operation
  std::int64_t start = 0;
  static Timeout Draw(Rng& r) {
    Timeout t;
    t.rel = r.Chance(1, 2);
    t.ns = r.Pick({0, 1, 20, 60, 150, 150, 400, 400, 1500, 5000, -1, -70, -100000}) * kUnit;
    t.rep = r.In(0, 3);
    if (t.rep == 1) {  // coarser than the clock
      t.ns = t.ns / 1000 * 1000;
    }
    return t;
  }
  template <typename F>
  auto Call(F&& f) {
    start = NowNs();
    deadline = start + ns;
    switch (rep) {
      case 1:
        if (rel) {
          return f(std::chrono::duration<int, std::micro>{static_cast<int>(ns / 1000)});
        }
        break;
      case 2:
        if (rel) {
          return f(std::chrono::duration<std::int64_t, std::pico>{ns * 1000});
        }
        break;
      default:
        break;
    }
    if (rel) {
      return f(Ns{ns});
    }
    if (rep == 2) {  // finer time point
      using P = std::chrono::duration<std::int64_t, std::pico>;
      return f(std::chrono::time_point<Clock, P>{P{deadline * 1000}});
    }
    return f(std::chrono::time_point<Clock, Ns>{Ns{deadline}});
  }
};

// A wait ends at its deadline: the virtual clock advances only when nothing is runnable, so being late means that the fiber
// competed with others for the processor (measured: below 2 ms), not that it slept.
constexpr std::int64_t kLate = 20000000;
std::int64_t gMaxLate = 0;
void CheckLate(std::int64_t start, std::int64_t deadline, const char* what) {
  if (!kFiber) {
    return;
  }
  auto late = NowNs() - std::max(start, deadline);
  VH_CHECK(late >= 0 && late < kLate, kP, "overslept", "%s: started at %lld with deadline %lld, ended at %lld", what,
           (long long)start, (long long)deadline, (long long)NowNs());
  gMaxLate = std::max(gMaxLate, late);
}

// ---------------------------------------------------------------------------------------------------------------- locks
constexpr int kMaxF = 6;

// Which fiber ran when, in resumes of any fiber: a fiber that did not run since some moment did nothing since then.
struct Runs {
  u64 now = 0;
  std::map<u64, u64> last;
#if defined(YACLIB_VERIF) && YACLIB_FAULT == 2
  static constexpr bool kKnown = true;
  static u64 Id() {
    return yaclib::fault::Scheduler::GetId();
  }
#else
  static constexpr bool kKnown = false;
  static u64 Id() {
    return 0;
  }
#endif
};
Runs gRuns;

void WatchRuns() {
  gRuns = {};
#if defined(YACLIB_VERIF) && YACLIB_FAULT == 2
  yaclib::verif::gHooks.resume = [](auto id) noexcept {
    gRuns.last[id] = ++gRuns.now;
    sched::Resume(id);
  };
#endif
}

struct Mon {
  std::mutex m;
  u64 fiber[kMaxF]{};
  int acquiring[kMaxF]{};  // 1 exclusive, 2 shared
  int releasing[kMaxF]{};
  u64 released_ex = 0, released_any = 0;  // Runs::now when the last holder began to release
  int ex_depth[kMaxF]{};
  int sh_count[kMaxF]{};
  int maybe_ex[kMaxF]{};  // started or holding
  int maybe_sh[kMaxF]{};
  u64 last_ex_seq[kMaxF]{};
  u64 last_sh_seq[kMaxF]{};
  std::int64_t last_ex_ns[kMaxF]{};
  std::int64_t last_sh_ns[kMaxF]{};
  u64 seq = 0;
  u64 grants = 0, failures = 0, instant = 0, overlaps = 0, contended = 0;
  const char* what = "";

  struct Tk {
    u64 start = 0;
    u64 run = 0;
    bool others = false;
  };

  Tk Start(int f, bool sh) {
    std::lock_guard g{m};
    (sh ? maybe_sh : maybe_ex)[f]++;
    fiber[f] = Runs::Id();
    acquiring[f] = sh ? 2 : 1;
    Tk t;
    t.start = ++seq;
    t.run = gRuns.now;
    for (int i = 0; i != kMaxF; ++i) {
      if (i != f && (ex_depth[i] != 0 || (!sh && sh_count[i] != 0))) {
        t.others = true;
      }
    }
    contended += t.others ? 1 : 0;
    return t;
  }
  void Granted(int f, bool sh, const char* op) {
    std::lock_guard g{m};
    for (int i = 0; i != kMaxF; ++i) {
      if (i == f) {
        continue;
      }
      if (ex_depth[i] != 0 || (!sh && sh_count[i] != 0)) {
        Fail(kP, sh ? "shared-overlap" : "exclusive-overlap", "%s: %s by thread %d succeeded while thread %d holds it %s",
             what, op, f, i, ex_depth[i] != 0 ? "exclusively" : "shared");
      }
      overlaps += sh && sh_count[i] != 0;
    }
    (sh ? sh_count : ex_depth)[f]++;
    acquiring[f] = 0;
    ++grants;
    ++seq;
  }
  void EndMaybe(int f, bool sh) {
    if (--(sh ? maybe_sh : maybe_ex)[f] == 0) {
      (sh ? last_sh_seq : last_ex_seq)[f] = ++seq;
      (sh ? last_sh_ns : last_ex_ns)[f] = NowNs();
    }
  }
  // has_deadline: timed form; deadline in ns; positive: the timeout was in the future at the call
  void Refused(int f, bool sh, const Tk& tk, const char* op, bool timed, const Timeout& t) {
    auto now = NowNs();
    std::lock_guard g{m};
    EndMaybe(f, sh);
    acquiring[f] = 0;
    ++failures;
    if (Runs::kKnown && tk.run == gRuns.now) {
      // nobody else ran during the call: whoever refused it holds the lock right now
      ++instant;
      bool possible = false;
      for (int i = 0; i != kMaxF; ++i) {
        if (i == f) {
          continue;
        }
        possible |= ex_depth[i] != 0 || (!sh && sh_count[i] != 0);
        possible |= releasing[i] == 1 || (!sh && releasing[i] == 2);
        // holds already but had no time to say so? then it ran since the last incompatible holder let go
        possible |= acquiring[i] == 1 && gRuns.last[fiber[i]] >= released_any;
        possible |= !sh && acquiring[i] == 2 && gRuns.last[fiber[i]] >= released_ex;
      }
      VH_CHECK(possible, kP, "spurious-failure", "%s: %s by thread %d failed although no thread could hold it", what, op, f);
    }
    if (timed) {
      VH_CHECK(now >= t.deadline, kP, "timed-failed-early", "%s: %s failed at %lld, before its deadline %lld", what, op,
               (long long)now, (long long)t.deadline);
      CheckLate(t.start, t.deadline, op);
    }
    bool now_free = true;
    u64 free_seq = 0;
    std::int64_t free_ns = 0;
    for (int i = 0; i != kMaxF; ++i) {
      if (i == f) {
        continue;
      }
      if (maybe_ex[i] != 0 || (!sh && maybe_sh[i] != 0)) {
        now_free = false;
      }
      free_seq = std::max({free_seq, last_ex_seq[i], sh ? 0 : last_sh_seq[i]});
      free_ns = std::max({free_ns, last_ex_ns[i], sh ? 0 : last_sh_ns[i]});
    }
    if (!now_free) {
      return;
    }
    VH_CHECK(free_seq > tk.start, kP, "spurious-failure",
             "%s: %s by thread %d failed although no other thread held or wanted it", what, op, f);
    if (kFiber && timed) {
      VH_CHECK(free_ns >= t.deadline, kP, "missed-wake-up",
               "%s: %s by thread %d failed: the lock was free and unwanted from %lld to the deadline %lld", what, op, f,
               (long long)free_ns, (long long)t.deadline);
    }
  }
  void Releasing(int f, bool sh) {
    std::lock_guard g{m};
    auto& c = (sh ? sh_count : ex_depth)[f];
    VH_CHECK(c > 0, kP, "harness", "release without hold");
    --c;
    ++seq;
    releasing[f] = sh ? 2 : 1;
    if (c == 0) {
      released_any = gRuns.now;
      if (!sh) {
        released_ex = gRuns.now;
      }
    }
  }
  void Released(int f, bool sh) {
    std::lock_guard g{m};
    releasing[f] = 0;
    EndMaybe(f, sh);
  }
  void Held(int f, bool sh) {
    std::lock_guard g{m};
    for (int i = 0; i != kMaxF; ++i) {
      if (i != f && (ex_depth[i] != 0 || (!sh && sh_count[i] != 0))) {
        Fail(kP, "section-overlap", "%s: thread %d is inside together with thread %d", what, f, i);
      }
    }
  }
};

template <typename M>
struct Traits;
template <>
struct Traits<yaclib_std::mutex> {
  static constexpr bool kTimed = false, kShared = false, kRec = false;
  static constexpr const char* kName = "mutex";
};
template <>
struct Traits<yaclib_std::timed_mutex> {
  static constexpr bool kTimed = true, kShared = false, kRec = false;
  static constexpr const char* kName = "timed_mutex";
};
template <>
struct Traits<yaclib_std::recursive_mutex> {
  static constexpr bool kTimed = false, kShared = false, kRec = true;
  static constexpr const char* kName = "recursive_mutex";
};
template <>
struct Traits<yaclib_std::recursive_timed_mutex> {
  static constexpr bool kTimed = true, kShared = false, kRec = true;
  static constexpr const char* kName = "recursive_timed_mutex";
};
template <>
struct Traits<yaclib_std::shared_mutex> {
  static constexpr bool kTimed = false, kShared = true, kRec = false;
  static constexpr const char* kName = "shared_mutex";
};
template <>
struct Traits<yaclib_std::shared_timed_mutex> {
  static constexpr bool kTimed = true, kShared = true, kRec = false;
  static constexpr const char* kName = "shared_timed_mutex";
};

enum class Op { Lock, Try, Timed };

struct Step {
  Op op;
  bool shared;
  Timeout t;
  int depth;           // nested acquisitions inside (recursive only)
  std::int64_t inside;  // sleep inside the section, -1 no
  std::int64_t before;
  int points;
  Op nested;
  bool try_inside_shared;
};

template <typename M>
struct LockCase {
  using T = Traits<M>;
  M m;
  Mon mon;
  std::vector<std::vector<Step>> prog;
  u64 protected_value = 0;  // plain data guarded by the lock: ASan/TSan/lost updates
  u64 exclusive_sections = 0;
  std::atomic<u64> ex_sections{0};

  bool Acquire(int f, Op op, bool sh, Timeout t) {
    auto tk = mon.Start(f, sh);
    bool ok = false;
    const char* name = "";
    bool timed = false;
    switch (op) {
      case Op::Lock:
        if constexpr (T::kShared) {
          if (sh) {
            name = "lock_shared";
            m.lock_shared();
            ok = true;
            break;
          }
        }
        name = "lock";
        m.lock();
        ok = true;
        break;
      case Op::Try:
        if constexpr (T::kShared) {
          if (sh) {
            name = "try_lock_shared";
            ok = m.try_lock_shared();
            break;
          }
        }
        name = "try_lock";
        ok = m.try_lock();
        break;
      case Op::Timed:
        if constexpr (T::kTimed) {
          timed = true;
          auto call = [&](auto when) {
            if constexpr (T::kShared) {
              if (sh) {
                name = "try_lock_shared_for/until";
                if constexpr (requires { when.time_since_epoch(); }) {
                  return m.try_lock_shared_until(when);
                } else {
                  return m.try_lock_shared_for(when);
                }
              }
            }
            name = "try_lock_for/until";
            if constexpr (requires { when.time_since_epoch(); }) {
              return m.try_lock_until(when);
            } else {
              return m.try_lock_for(when);
            }
          };
          ok = t.Call(call);
        }
        break;
    }
    if (ok) {
      mon.Granted(f, sh, name);
    } else {
      mon.Refused(f, sh, tk, name, timed, t);
    }
    return ok;
  }
  void Release(int f, bool sh) {
    mon.Releasing(f, sh);
    if constexpr (T::kShared) {
      if (sh) {
        m.unlock_shared();
        mon.Released(f, sh);
        return;
      }
    }
    m.unlock();
    mon.Released(f, sh);
  }
  void Section(int f, const Step& s) {
    mon.Held(f, s.shared);
    auto v = protected_value;
    for (int i = 0; i != s.points; ++i) {
      Point();
    }
    if (s.inside >= 0) {
      SleepNs(s.inside);
    }
    mon.Held(f, s.shared);
    VH_CHECK(protected_value == v, kP, "lost-exclusion", "%s: guarded data changed inside a section", T::kName);
    if (!s.shared) {
      protected_value = v + 1;
      ex_sections.fetch_add(1, std::memory_order_relaxed);
    }
    if constexpr (T::kRec) {
      if (s.depth > 0) {
        Timeout t = s.t;
        if (Acquire(f, s.nested, false, t)) {
          Step in = s;
          in.depth--;
          in.inside = -1;
          Section(f, in);
          Release(f, false);
          mon.Held(f, false);
          Point();
          mon.Held(f, false);
        }
      }
    }
  }
  void Thread(int f) {
    for (auto& s : prog[f]) {
      if (s.before >= 0) {
        SleepNs(s.before);
      }
      Point();
      if (Acquire(f, s.op, s.shared, s.t)) {
        Section(f, s);
        Release(f, s.shared);
      }
      Point();
    }
  }
  void Run(Case& c) {
    auto& r = c.rng;
    const int k = r.In(2, kFiber ? 5 : 4);
    WatchRuns();
    mon.what = T::kName;
    Scenario("locks %s threads=%d:", T::kName, k);
    const int bias = r.In(0, 3);  // 0 mixed, 1 mostly lock, 2 mostly timed, 3 mostly try
    const bool sleepy = r.Chance(1, 2);
    for (int f = 0; f != k; ++f) {
      prog.emplace_back();
      ScenarioAdd(" [");
      const int n = r.In(1, 5);
      for (int i = 0; i != n; ++i) {
        Step s;
        auto pick = [&]() -> Op {
          auto b = r.Below(8);
          if (bias == 1 && b < 6) {
            return Op::Lock;
          }
          if (bias == 2 && b < 6) {
            return T::kTimed ? Op::Timed : Op::Lock;
          }
          if (bias == 3 && b < 6) {
            return Op::Try;
          }
          auto o = r.Pick({Op::Lock, Op::Try, Op::Timed});
          return o == Op::Timed && !T::kTimed ? Op::Lock : o;
        };
        s.op = pick();
        s.nested = pick();
        s.shared = T::kShared && r.Chance(1, 2);
        s.t = Timeout::Draw(r);
        s.depth = T::kRec ? r.Pick({0, 0, 1, 1, 2, 3}) : 0;
        s.inside = sleepy && r.Chance(1, 2) ? r.Pick({0, 30, 100, 200, 600}) * kUnit : -1;
        s.before = sleepy && r.Chance(1, 4) ? r.Pick({0, 10, 100, 300}) * kUnit : -1;
        s.points = r.In(0, 2);
        ScenarioAdd("%s%c%lld/%lld ", s.shared ? "s" : "", "LTD"[static_cast<int>(s.op)],
                    (long long)(s.op == Op::Timed ? s.t.ns : 0), (long long)s.inside);
        prog.back().push_back(s);
      }
      ScenarioAdd("]");
    }
    std::vector<vh::Thread> ts;
    StartLine line{k};
    for (int f = 0; f != k; ++f) {
      ts.emplace_back([this, f, &line] {
        line.Arrive();
        Thread(f);
      });
    }
    for (auto& t : ts) {
      t.join();
    }
    VH_CHECK(protected_value == ex_sections.load(), kP, "lost-update", "%s: %llu exclusive sections, data says %llu",
             T::kName, (unsigned long long)ex_sections.load(), (unsigned long long)protected_value);
    // quiescent: everything must be free
    {
      auto tk = mon.Start(0, false);
      bool ok = m.try_lock();
      VH_CHECK(ok, kP, "not-free-at-end", "%s: try_lock fails although everybody released it", T::kName);
      (void)tk;
      if constexpr (T::kShared) {
        bool bad = false;
        vh::Thread other{[&] {
          bad = m.try_lock_shared();
        }};
        other.join();
        VH_CHECK(!bad, kP, "shared-overlap", "%s: try_lock_shared succeeds under an exclusive holder", T::kName);
      } else {
        bool bad = false;
        vh::Thread other{[&] {
          bad = m.try_lock();
        }};
        other.join();
        VH_CHECK(!bad, kP, "exclusive-overlap", "%s: try_lock succeeds under a holder", T::kName);
      }
      m.unlock();
      if constexpr (T::kShared) {
        VH_CHECK(m.try_lock_shared(), kP, "not-free-at-end", "%s: try_lock_shared fails on a free lock", T::kName);
        bool sh = false, ex = true;
        vh::Thread other{[&] {
          sh = m.try_lock_shared();
          ex = m.try_lock();
          if (sh) {
            m.unlock_shared();
          }
        }};
        other.join();
        VH_CHECK(sh, kP, "readers-exclude", "%s: a second reader is refused", T::kName);
        VH_CHECK(!ex, kP, "exclusive-overlap", "%s: try_lock succeeds under readers", T::kName);
        m.unlock_shared();
      }
    }
    Count("lock_grants", mon.grants);
    Count("lock_failures", mon.failures);
    Count("lock_failures_judged_at_an_instant", mon.instant);
    Count("lock_contended", mon.contended);
    Count("reader_overlaps", mon.overlaps);
    Count(std::string{"cases_"} + T::kName);
    c.nontrivial = mon.contended != 0;
    c.Note(mon.grants * 1000 + mon.failures);
  }
};

// Blocked locker: one holder, blocked fibers of every form, one release; each must get through (no barging at all).
template <typename M>
void BlockedCase(Case& c) {
  using T = Traits<M>;
  auto& r = c.rng;
  struct State {
    M m;
    std::atomic<int> got{0};
    std::atomic<int> refused{0};
    int inside = 0;
  } s;
  const int k = r.In(1, 4);
  const bool holder_shared = T::kShared && r.Chance(1, 2);
  const int holder_depth = T::kRec ? r.In(1, 3) : 1;
  Scenario("blocked %s waiters=%d holder=%s depth=%d:", T::kName, k, holder_shared ? "shared" : "exclusive", holder_depth);
  for (int i = 0; i != holder_depth; ++i) {
    if constexpr (T::kShared) {
      if (holder_shared) {
        s.m.lock_shared();
        continue;
      }
    }
    s.m.lock();
  }
  std::vector<vh::Thread> ts;
  for (int i = 0; i != k; ++i) {
    const bool sh = T::kShared && r.Chance(1, 2);
    const bool timed = T::kTimed && r.Chance(1, 2);
    const auto stay = r.Pick({-1, 0, 50}) * kUnit;
    ScenarioAdd(" %s%s", timed ? "timed-" : "", sh ? "shared" : "exclusive");
    ts.emplace_back([&s, sh, timed, stay] {
      // deadlines are far away: a failure means that the wake-up was lost
      constexpr auto kFar = std::chrono::seconds(kFiber ? 1 : 20);
      bool ok = true;
      if constexpr (T::kShared) {
        if (sh) {
          if constexpr (T::kTimed) {
            if (timed) {
              ok = s.m.try_lock_shared_for(kFar);
            } else {
              s.m.lock_shared();
            }
          } else {
            s.m.lock_shared();
          }
          if (ok) {
            if (stay >= 0) {
              SleepNs(stay);
            }
            s.got.fetch_add(1);
            s.m.unlock_shared();
          } else {
            s.refused.fetch_add(1);
          }
          return;
        }
      }
      if constexpr (T::kTimed) {
        if (timed) {
          ok = s.m.try_lock_until(Clock::now() + kFar);
        } else {
          s.m.lock();
        }
      } else {
        s.m.lock();
      }
      if (ok) {
        s.inside++;
        VH_CHECK(s.inside == 1, kP, "exclusive-overlap", "%s: two exclusive holders", T::kName);
        if (stay >= 0) {
          SleepNs(stay);
        } else {
          Point();
        }
        VH_CHECK(s.inside == 1, kP, "exclusive-overlap", "%s: two exclusive holders", T::kName);
        s.inside--;
        s.got.fetch_add(1);
        s.m.unlock();
      } else {
        s.refused.fetch_add(1);
      }
    });
  }
  SleepNs(r.Pick({0, 50, 1000}) * kUnit);
  for (int i = 0; i != holder_depth; ++i) {
    if constexpr (T::kShared) {
      if (holder_shared) {
        s.m.unlock_shared();
        continue;
      }
    }
    s.m.unlock();
    Point();
  }
  for (auto& t : ts) {
    t.join();
  }
  VH_CHECK(s.refused.load() == 0, kP, "missed-wake-up",
           "%s: %d timed waiters slept a second although the lock was released long before", T::kName, s.refused.load());
  VH_CHECK(s.got.load() == k, kP, "missed-wake-up", "%s: %d of %d waiters got the lock", T::kName, s.got.load(), k);
  Count("blocked_granted", static_cast<u64>(k));
}

template <typename M>
void Locks(Case& c) {
  if (c.rng.Chance(1, 4)) {
    BlockedCase<M>(c);
    return;
  }
  LockCase<M> l;
  l.Run(c);
}

// ---------------------------------------------------------------------------------------------------- condition variables
struct Cv {
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  std::mutex om;
  int owner = -1;  // who believes to hold m

  void Own(int f) {
    std::lock_guard g{om};
    VH_CHECK(owner == -1, kP, "cv-overlap", "thread %d owns the mutex together with %d", f, owner);
    owner = f;
  }
  void Disown(int f) {
    std::lock_guard g{om};
    VH_CHECK(owner == f, kP, "cv-overlap", "thread %d does not own the mutex it holds (owner %d)", f, owner);
    owner = -1;
  }
};

// Every notification is answered: the notifier sees who is blocked and requires that somebody of them wakes.
void CvNotify(Case& c) {
  auto& r = c.rng;
  struct State : Cv {
    int blocked = 0;  // under m
    int woken = 0;    // under m
    int timeouts = 0;
    int left = 0;
  } s;
  const int k = r.In(1, 5);
  const bool timed_waiters = r.Chance(1, 2);
  Scenario("cv notify waiters=%d:", k);
  std::vector<vh::Thread> ts;
  for (int i = 0; i != k; ++i) {
    auto rounds = r.In(1, 3);
    const auto form = timed_waiters ? r.In(0, 2) : 0;
    auto t = Timeout::Draw(r);
    t.ns = r.Pick({50, 300, 2000, 1000000}) * kUnit;
    if (t.rep == 1) {
      t.rep = 0;
    }
    auto pause = r.Pick({-1, -1, 0, 50}) * kUnit;
    ScenarioAdd(" %dx%c%lld", rounds, "WFU"[form], form != 0 ? (long long)t.ns : 0);
    s.left++;
    ts.emplace_back([&s, i, rounds, form, t, pause]() mutable {
      for (int n = 0; n != rounds; ++n) {
        std::unique_lock lock{s.m};
        s.Own(i);
        s.blocked++;
        s.Disown(i);
        bool timeout = false;
        if (form == 0) {
          s.cv.wait(lock);
        } else {
          timeout = t.Call([&](auto when) {
            if constexpr (requires { when.time_since_epoch(); }) {
              return s.cv.wait_until(lock, when);
            } else {
              return s.cv.wait_for(lock, when);
            }
          }) == std::cv_status::timeout;
          if (timeout) {
            VH_CHECK(NowNs() >= t.deadline, kP, "cv-early-timeout", "timed out at %lld before the deadline %lld",
                     (long long)NowNs(), (long long)t.deadline);
            CheckLate(t.start, t.deadline, "condition_variable");
          }
        }
        VH_CHECK(lock.owns_lock(), kP, "cv-not-locked", "the lock is not held after the wait");
        s.Own(i);
        s.blocked--;
        (timeout ? s.timeouts : s.woken)++;
        Point();
        s.Disown(i);
        lock.unlock();
        if (pause >= 0) {
          SleepNs(pause);
        }
      }
      std::lock_guard lock{s.m};
      s.left--;
    });
  }
  int idle = 0;
  u64 notifies = 0;
  for (;;) {
    std::unique_lock lock{s.m};
    s.Own(100);
    if (s.left == 0) {
      s.Disown(100);
      break;
    }
    const auto blocked = s.blocked;
    const auto before = s.woken + s.timeouts;
    const bool all = r.Chance(1, 3);
    const bool under = r.Chance(1, 2);
    s.Disown(100);
    if (blocked == 0) {
      lock.unlock();
      SleepNs(r.Pick({10, 100}) * kUnit);
      VH_CHECK(++idle < 200000, "*", "no-progress", "nobody blocks");
      continue;
    }
    if (!under) {
      lock.unlock();
    }
    if (all) {
      s.cv.notify_all();
    } else {
      s.cv.notify_one();
    }
    ++notifies;
    if (under) {
      lock.unlock();
    }
    const int need = all ? blocked : 1;
    for (int tries = 0;; ++tries) {
      lock.lock();
      auto n = s.woken + s.timeouts - before;
      lock.unlock();
      if (n >= need) {
        break;
      }
      VH_CHECK(tries < (kFiber ? 300 : 20000), kP, all ? "notify-all-lost" : "notify-lost",
               "%d waiters were blocked, only %d returned after %s", blocked, n, all ? "notify_all" : "notify_one");
      SleepNs(50 * kUnit);
    }
  }
  for (auto& t : ts) {
    t.join();
  }
  Count("cv_notifies", notifies);
  Count("cv_woken", static_cast<u64>(s.woken));
  Count("cv_timeouts", static_cast<u64>(s.timeouts));
  c.Note(notifies * 100 + static_cast<u64>(s.timeouts));
}

// Bounded queue over one or two condition variables with predicates: conservation, nobody sleeps forever.
void CvQueue(Case& c) {
  auto& r = c.rng;
  struct State : Cv {
    yaclib_std::condition_variable space;
    std::vector<int> q;
    std::size_t cap = 1;
    int consumed = 0;
    int total = 0;
    u64 timeouts = 0;
    u64 sum = 0;
  } s;
  const int producers = r.In(1, 3), consumers = r.In(1, 3), per = r.In(1, 4);
  s.cap = static_cast<std::size_t>(r.In(1, 2));
  s.total = producers * per;
  const bool notify_under = r.Chance(1, 2);
  Scenario("cv queue producers=%d consumers=%d per=%d cap=%zu under=%d", producers, consumers, per, s.cap, notify_under);
  std::vector<vh::Thread> ts;
  for (int p = 0; p != producers; ++p) {
    ts.emplace_back([&s, p, per, notify_under] {
      for (int i = 0; i != per; ++i) {
        std::unique_lock lock{s.m};
        s.space.wait(lock, [&] {
          return s.q.size() < s.cap;
        });
        s.Own(p);
        VH_CHECK(s.q.size() < s.cap, kP, "cv-predicate", "wait returned with a false predicate");
        Point();
        s.q.push_back(p * 100 + i);
        s.Disown(p);
        if (notify_under) {
          s.cv.notify_one();
        } else {
          lock.unlock();
          s.cv.notify_one();
        }
      }
    });
  }
  for (int q = 0; q != consumers; ++q) {
    auto form = r.In(0, 2);
    auto t = Timeout::Draw(r);
    ScenarioAdd(" %c%lld", "WFU"[form], form != 0 ? (long long)t.ns : 0);
    ts.emplace_back([&s, q, form, t, notify_under]() mutable {
      for (int spin = 0;; ++spin) {
        std::unique_lock lock{s.m};
        auto pred = [&] {
          return !s.q.empty() || s.consumed == s.total;
        };
        bool ok = true;
        if (form == 0) {
          s.cv.wait(lock, pred);
        } else {
          ok = t.Call([&](auto when) {
            if constexpr (requires { when.time_since_epoch(); }) {
              return s.cv.wait_until(lock, when, pred);
            } else {
              return s.cv.wait_for(lock, when, pred);
            }
          });
        }
        s.Own(50 + q);
        VH_CHECK(ok == pred(), kP, "cv-predicate", "wait returned %d, the predicate says %d", ok, pred());
        if (!ok) {
          VH_CHECK(NowNs() >= t.deadline, kP, "cv-early-timeout", "timed out at %lld before the deadline %lld",
                   (long long)NowNs(), (long long)t.deadline);
          CheckLate(t.start, t.deadline, "condition_variable with predicate");
          s.timeouts++;
          s.Disown(50 + q);
          lock.unlock();
          SleepNs(20 * kUnit);
          continue;
        }
        if (s.q.empty()) {
          s.Disown(50 + q);
          break;
        }
        Point();
        s.sum += static_cast<u64>(s.q.back());
        s.q.pop_back();
        s.consumed++;
        const bool last = s.consumed == s.total;
        s.Disown(50 + q);
        if (!notify_under) {
          lock.unlock();
        }
        s.space.notify_one();
        if (last) {
          s.cv.notify_all();
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  u64 want = 0;
  for (int p = 0; p != producers; ++p) {
    for (int i = 0; i != per; ++i) {
      want += static_cast<u64>(p * 100 + i);
    }
  }
  VH_CHECK(s.sum == want && s.consumed == s.total, kP, "lost-update", "queue is not conserved");
  Count("cv_queue_items", static_cast<u64>(s.total));
  Count("cv_timeouts", s.timeouts);
}

// A timed wait ends even if it is notified again and again with a false predicate.
void CvStorm(Case& c) {
  auto& r = c.rng;
  struct State : Cv {
    std::atomic<bool> done{false};
    std::int64_t end = 0;
  } s;
  auto t = Timeout::Draw(r);
  if (t.ns < 20 * kUnit) {
    t.ns = 1000 * kUnit;
  }
  const auto period = std::max<std::int64_t>(1, t.ns / r.Pick({2, 3, 7}));
  Scenario("cv storm ns=%lld period=%lld rel=%d", (long long)t.ns, (long long)period, t.rel);
  vh::Thread waiter{[&] {
    std::unique_lock lock{s.m};
    auto ok = t.Call([&](auto when) {
      auto never = [] {
        return false;
      };
      if constexpr (requires { when.time_since_epoch(); }) {
        return s.cv.wait_until(lock, when, never);
      } else {
        return s.cv.wait_for(lock, when, never);
      }
    });
    VH_CHECK(!ok, kP, "cv-predicate", "wait returned true for a predicate that never holds");
    VH_CHECK(NowNs() >= t.deadline, kP, "cv-early-timeout", "timed out at %lld before the deadline %lld", (long long)NowNs(),
             (long long)t.deadline);
    CheckLate(t.start, t.deadline, "condition_variable under notifications");
    VH_CHECK(lock.owns_lock(), kP, "cv-not-locked", "the lock is not held after the wait");
    s.done.store(true);
  }};
  int storms = 0;
  while (!s.done.load()) {
    SleepNs(period);
    if (r.Chance(1, 2)) {
      s.cv.notify_all();
    } else {
      std::lock_guard lock{s.m};
      s.cv.notify_one();
    }
    VH_CHECK(!kFiber || ++storms < 400, kP, "cv-never-times-out",
             "a wait for %lld ns is still not over after %d notifications, one per %lld ns", (long long)t.ns, storms,
             (long long)period);
  }
  waiter.join();
  Count("cv_storms");
}

// ------------------------------------------------------------------------------------------------------- threads, sleeping
void Threads(Case& c) {
  auto& r = c.rng;
  const int k = r.In(1, 5);
  Scenario("threads=%d:", k);
  struct One {
    std::atomic<bool> started{false}, finished{false};
    std::optional<yaclib_std::thread::id> id;
    u64 cell = 0;
  };
  std::vector<std::unique_ptr<One>> ones;
  std::vector<vh::Thread> ts;
  std::atomic<int> detached{0};
  {
    vh::Thread empty;
    VH_CHECK(!empty.joinable(), kP, "joinable", "a default constructed thread is joinable");
    bool thrown = false;
    try {
      empty.join();
    } catch (const std::system_error&) {
      thrown = true;
    }
    VH_CHECK(thrown, kP, "join-empty", "join of an empty thread does not throw");
    thrown = false;
    try {
      empty.detach();
    } catch (const std::system_error&) {
      thrown = true;
    }
    VH_CHECK(thrown, kP, "detach-empty", "detach of an empty thread does not throw");
    VH_CHECK(empty.get_id() == vh::Thread{}.get_id(), kP, "thread-id", "get_id of an empty thread");
    VH_CHECK(empty.get_id() != yaclib_std::this_thread::get_id(), kP, "thread-id", "an empty thread has the id of this one");
    if (r.Chance(1, 4)) {
      bool self = false;
      vh::Thread t;
      std::atomic<bool> go{false};
      t = vh::Thread{[&] {
        while (!go.load()) {
          SleepNs(kUnit);
        }
        try {
          t.join();
        } catch (const std::system_error& e) {
          self = e.code() == std::errc::resource_deadlock_would_occur;
        }
      }};
      go.store(true);
      SleepNs(100 * kUnit);  // by then it tried
      VH_CHECK(t.joinable(), kP, "joinable", "not joinable after a failed join of itself");
      t.join();
      VH_CHECK(self, kP, "join-self", "a thread which joins itself does not get resource_deadlock_would_occur");
    }
  }
  int expect_detached = 0;
  for (int i = 0; i != k; ++i) {
    ones.push_back(std::make_unique<One>());
    auto* o = ones.back().get();
    auto ns = r.Pick({-1, 0, 1, 40, 100, 700}) * kUnit;
    auto until = r.Chance(1, 2);
    auto nested = r.Chance(1, 4);
    ScenarioAdd(" %lld%s%s", (long long)ns, until ? "u" : "", nested ? "n" : "");
    auto body = [o, ns, until, nested](u64 arg, const u64& ref) {
      o->started.store(true);
      o->id = yaclib_std::this_thread::get_id();
      Point();
      auto begin = NowNs();
      if (ns >= 0) {
        if (until) {
          yaclib_std::this_thread::sleep_until(std::chrono::time_point<Clock, Ns>{Ns{begin + ns}});
        } else {
          yaclib_std::this_thread::sleep_for(Ns{ns});
        }
        auto now = NowNs();
        VH_CHECK(now >= begin + ns, kP, "short-sleep", "slept %lld of %lld ns", (long long)(now - begin), (long long)ns);
        CheckLate(begin, begin + ns, "sleep");
      } else {
        if (until) {
          yaclib_std::this_thread::sleep_until(std::chrono::time_point<Clock, Ns>{Ns{begin - 100}});
          yaclib_std::this_thread::sleep_until(std::chrono::time_point<Clock, Ns>{Ns{begin - 100 - 1000000000}});
        } else {
          yaclib_std::this_thread::sleep_for(Ns{-5});
          yaclib_std::this_thread::sleep_for(std::chrono::hours{-1});
        }
        CheckLate(begin, begin, "sleep until the past");
      }
      if (nested) {
        bool in = false;
        vh::Thread t{[&in] {
          Point();
          in = true;
        }};
        t.join();
        VH_CHECK(in, kP, "join-early", "join returned before the thread function finished");
      }
      o->cell = arg + ref;
      Point();
      o->finished.store(true);
    };
    ts.emplace_back(body, static_cast<u64>(i), static_cast<u64>(7));
    VH_CHECK(ts.back().joinable(), kP, "joinable", "a started thread is not joinable");
  }
  // self detach
  if (r.Chance(1, 3)) {
    expect_detached++;
    ScenarioAdd(" detach");
    vh::Thread t{[&] {
      Point();
      SleepNs(30 * kUnit);
      detached.fetch_add(1);
    }};
    if (r.Chance(1, 2)) {
      SleepNs(500 * kUnit);
    }
    t.detach();
    VH_CHECK(!t.joinable(), kP, "joinable", "joinable after detach");
  }
  if (r.Chance(1, 2)) {
    SleepNs(r.Pick({1, 300, 2000}) * kUnit);
  }
  auto check = [&](int i, vh::Thread& t) {
    auto* o = ones[static_cast<std::size_t>(i)].get();
    auto id = t.get_id();
    if (r.Chance(1, 3)) {
      vh::Thread moved{std::move(t)};
      VH_CHECK(!t.joinable(), kP, "joinable", "a moved-from thread is joinable");
      vh::Thread other;
      other.swap(moved);
      t = std::move(other);
      VH_CHECK(t.joinable() && t.get_id() == id, kP, "thread-move", "move/swap lost the thread");
    }
    t.join();
    VH_CHECK(o->started.load() && o->finished.load(), kP, "join-early", "join returned before the thread function finished");
    VH_CHECK(o->cell == static_cast<u64>(i) + 7, kP, "thread-args", "thread arguments are wrong");
    VH_CHECK(*o->id == id, kP, "thread-id", "get_id disagrees with this_thread::get_id");
    VH_CHECK(!t.joinable(), kP, "joinable", "joinable after join");
  };
  if (r.Chance(1, 3)) {  // join from another thread
    vh::Thread joiner{[&] {
      for (int i = k - 1; i >= 0; --i) {
        check(i, ts[static_cast<std::size_t>(i)]);
      }
    }};
    joiner.join();
  } else {
    for (int i = 0; i != k; ++i) {
      check(i, ts[static_cast<std::size_t>(i)]);
    }
  }
  std::set<yaclib_std::thread::id> ids;
  for (int spin = 0; detached.load() != expect_detached; ++spin) {
    VH_CHECK(spin < 100000, kP, "detached-lost", "a detached thread never ran");
    SleepNs(100 * kUnit);
  }
  Count("threads_joined", static_cast<u64>(k));
}

// ------------------------------------------------------------------------------------------------------------ thread local
int gDefI = 1, gCells[64];
long gDefL = 2, gLongs[64];
struct S1 {
  int a;
  int b;
} gStructs[64];

YACLIB_THREAD_LOCAL_PTR(int) tA;
YACLIB_THREAD_LOCAL_PTR(int) tB;
YACLIB_THREAD_LOCAL_PTR(long) tC;
YACLIB_THREAD_LOCAL_PTR(long) tD;
YACLIB_THREAD_LOCAL_PTR(S1) tE;
YACLIB_THREAD_LOCAL_PTR(int) tF{&gDefI};
YACLIB_THREAD_LOCAL_PTR(long) tG{&gDefL};

struct Model {
  int* a = nullptr;
  int* b = nullptr;
  long* c = nullptr;
  long* d = nullptr;
  S1* e = nullptr;
  int* f = &gDefI;
  long* g = &gDefL;
};

void TlsCheck(const Model& m, int who) {
  auto one = [who](auto& p, auto* want, const char* name) {
    VH_CHECK(p == want, kP, "tls", "thread %d: thread-local %s differs from what this thread stored", who, name);
    VH_CHECK(!(p != want), kP, "tls", "thread %d: thread-local %s compares unequal", who, name);
    VH_CHECK(static_cast<bool>(p) == (want != nullptr), kP, "tls", "thread %d: thread-local %s as bool", who, name);
    if (want != nullptr) {
      VH_CHECK(&*p == want, kP, "tls", "thread %d: thread-local %s points elsewhere", who, name);
    }
  };
  one(tA, m.a, "tA");
  one(tB, m.b, "tB");
  one(tC, m.c, "tC");
  one(tD, m.d, "tD");
  one(tE, m.e, "tE");
  one(tF, m.f, "tF");
  one(tG, m.g, "tG");
}

void Tls(Case& c) {
  auto& r = c.rng;
  const int k = r.In(1, 4);
  Scenario("tls threads=%d", k);
  auto run = [](Rng rng, int who, int n) {
    Model m;
    TlsCheck(m, who);
    for (int i = 0; i != n; ++i) {
      auto x = rng.Below(64);
      switch (rng.Below(12)) {
        case 0:
          tA = &gCells[x];
          m.a = &gCells[x];
          break;
        case 1:
          tB = &gCells[x];
          m.b = &gCells[x];
          break;
        case 2:
          tC = &gLongs[x];
          m.c = &gLongs[x];
          break;
        case 3:
          tD = &gLongs[x];
          m.d = &gLongs[x];
          break;
        case 4:
          tE = &gStructs[x];
          m.e = &gStructs[x];
          if (rng.Chance(1, 2)) {
            VH_CHECK(&tE->b == &gStructs[x].b, kP, "tls", "operator-> of a thread-local pointer");
          }
          break;
        case 5:
          tF = &gCells[x];
          m.f = &gCells[x];
          break;
        case 6:
          tG = nullptr;
          m.g = nullptr;
          break;
        case 7:  // copy assignment: of this thread's value
          tA = tB;
          m.a = m.b;
          break;
        case 8:
          tB = tF;
          m.b = m.f;
          break;
        case 9:
          tC = tG;
          m.c = m.g;
          break;
        case 10:
          tD = std::move(tC);
          m.d = m.c;
          break;
        default:
          tA = nullptr;
          m.a = nullptr;
          break;
      }
      if (rng.Chance(1, 2)) {
        Point();
      }
      TlsCheck(m, who);
      if (m.a != nullptr && m.b != nullptr) {
        VH_CHECK((tA < tB) == (m.a < m.b) && (tA == tB) == (m.a == m.b), kP, "tls", "thread-local comparison");
      }
      auto same = [](bool got, bool want, const char* what) {
        VH_CHECK(got == want, kP, "tls", "thread-local comparison %s", what);
      };
      same(tA == nullptr, m.a == nullptr, "p == nullptr");
      same(nullptr == tA, m.a == nullptr, "nullptr == p");
      same(tA != nullptr, m.a != nullptr, "p != nullptr");
      same(nullptr != tA, m.a != nullptr, "nullptr != p");
      same(tA == tB, m.a == m.b, "p == p");
      same(tA != tB, m.a != m.b, "p != p");
      same(m.b == tA, m.a == m.b, "ptr == p");
      same(m.b != tA, m.a != m.b, "ptr != p");
      if (m.a != nullptr) {
        int* q = &gCells[32];
        if (m.b != nullptr && m.b != &gDefI) {
          same(tA < tB, m.a < m.b, "p < p");
          same(tA > tB, m.a > m.b, "p > p");
          same(tA <= tB, m.a <= m.b, "p <= p");
          same(tA >= tB, m.a >= m.b, "p >= p");
        }
        if (m.a != &gDefI) {
          same(tA < q, m.a < q, "p < ptr");
          same(tA > q, m.a > q, "p > ptr");
          same(tA <= q, m.a <= q, "p <= ptr");
          same(tA >= q, m.a >= q, "p >= ptr");
          same(q < tA, q < m.a, "ptr < p");
          same(q > tA, q > m.a, "ptr > p");
          same(q <= tA, q <= m.a, "ptr <= p");
          same(q >= tA, q >= m.a, "ptr >= p");
          if (m.a != &gCells[63]) {
            VH_CHECK(&tA[1] == m.a + 1, kP, "tls", "operator[] of a thread-local pointer");
          }
        }
        VH_CHECK(&tA[0] == m.a, kP, "tls", "operator[] of a thread-local pointer");
      }
      if (rng.Chance(1, 100)) {  // a copy starts with the value of this thread and then goes its own way
        YACLIB_THREAD_LOCAL_PTR(int) copy{tA};
        VH_CHECK(copy == m.a, kP, "tls", "a copy of a thread-local pointer has another value");
        copy = &gCells[7];
        Point();
        VH_CHECK(copy == &gCells[7], kP, "tls", "a copy of a thread-local pointer lost its value");
        TlsCheck(m, who);
      }
    }
    // the next thread must find pristine pointers whatever this one stored
  };
  std::vector<vh::Thread> ts;
  for (int i = 0; i != k; ++i) {
    auto n = r.In(1, 12);
    Rng rng{r.Next()};
    ts.emplace_back([run, rng, i, n] {
      run(rng, i, n);
    });
    if (r.Chance(1, 3)) {
      ts.back().join();
      ts.pop_back();
    }
  }
  for (auto& t : ts) {
    t.join();
  }
  Count("tls_threads", static_cast<u64>(k));
}

void Body(Case& c) {
  auto& r = c.rng;
  gStats.counters["max_late_ns"] = static_cast<u64>(gMaxLate);
  c.nontrivial = true;
  switch (r.Below(20)) {
    case 0:
      return Locks<yaclib_std::mutex>(c);
    case 1:
    case 2:
      return Locks<yaclib_std::timed_mutex>(c);
    case 3:
    case 4:
      return Locks<yaclib_std::recursive_mutex>(c);
    case 5:
    case 6:
      return Locks<yaclib_std::recursive_timed_mutex>(c);
    case 7:
    case 8:
      return Locks<yaclib_std::shared_mutex>(c);
    case 9:
    case 10:
    case 11:
      return Locks<yaclib_std::shared_timed_mutex>(c);
    case 12:
    case 13:
      return CvNotify(c);
    case 14:
    case 15:
      return CvQueue(c);
    case 16:
      return CvStorm(c);
    case 17:
    case 18:
      return Threads(c);
    default:
      return Tls(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
