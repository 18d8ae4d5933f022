// Common runtime of all harnesses: options, PRNG, schedule strategies (fiber backend), ledger, violation reporting,
// per-case runner, statistics.  Not part of the library.
#pragma once

#include <yaclib/config.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib/log.hpp>
#if YACLIB_FAULT == 2
#  include <yaclib/fault/detail/fiber/scheduler.hpp>
#  include <yaclib/fault/detail/fiber/thread.hpp>
#endif
#ifdef YACLIB_VERIF
#  include <yaclib/fault/detail/verif.hpp>
#endif
#include <yaclib_std/thread>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <functional>
#include <map>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#if defined(VH_RACE)
#  include <yaclib_std/condition_variable>
#  include <yaclib_std/mutex>
#  include "race_rt.hpp"
#endif

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {

using u64 = std::uint64_t;
inline constexpr bool kFiber = YACLIB_FAULT == 2;
#if defined(VH_TSAN)
inline constexpr bool kTsan = true;
#else
inline constexpr bool kTsan = false;
#endif

inline u64 Mix(u64 x) noexcept {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  u64 s = 1;
  u64 Next() noexcept {
    s += 0x9e3779b97f4a7c15ull;
    return Mix(s);
  }
  u64 Below(u64 n) noexcept {
    return n == 0 ? 0 : (Next() >> 11) % n;
  }
  int In(int a, int b) noexcept {  // inclusive
    return a + static_cast<int>(Below(static_cast<u64>(b - a + 1)));
  }
  bool Chance(u64 num, u64 den) noexcept {
    return Below(den) < num;
  }
  template <typename T>
  T Pick(std::initializer_list<T> l) noexcept {
    return *(l.begin() + Below(l.size()));
  }
};

struct Options {
  u64 seed = 1;
  u64 from = 0;
  u64 to = 1000;
  u64 one = ~0ull;
  std::string prop = "*";
  std::string out;       // statistics file prefix
  std::string progress;  // mmapped progress file
  std::string mode;      // harness specific
  bool verbose = false;
  int stale = 1;  // race configuration: let loads return older values
  bool trace = false;  // -t: print every resume
};
inline Options gOpt;

struct Progress {
  std::atomic<u64> index;
  std::atomic<u64> done;
  char scenario[4096];
};
inline Progress gLocalProgress;
inline Progress* gProgress = &gLocalProgress;

// ---- statistics -----------------------------------------------------------------------------------------------------
struct Stats {
  u64 evaluations = 0;
  u64 nontrivial = 0;
  u64 inconclusive = 0;
  u64 foreign = 0;
  std::unordered_set<u64> hashes;
  std::map<std::string, u64> counters;
  std::vector<std::string> samples;
};
inline Stats gStats;

inline void Count(const std::string& name, u64 n = 1) {
  gStats.counters[name] += n;
}

inline std::string Escape(const char* s) {
  std::string r;
  for (; *s != 0; ++s) {
    if (*s == '"' || *s == '\\') {
      r += '\\';
      r += *s;
    } else if (static_cast<unsigned char>(*s) < 0x20) {
      r += ' ';
    } else {
      r += *s;
    }
  }
  return r;
}

inline void WriteStats() {
  if (gOpt.out.empty()) {
    return;
  }
  if (auto* f = std::fopen((gOpt.out + ".json").c_str(), "w")) {
    std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"inconclusive\":%llu,\"foreign\":%llu,\"counters\":{",
                 (unsigned long long)gStats.evaluations, (unsigned long long)gStats.nontrivial,
                 (unsigned long long)gStats.inconclusive, (unsigned long long)gStats.foreign);
    bool first = true;
    for (auto& [k, v] : gStats.counters) {
      std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", Escape(k.c_str()).c_str(), (unsigned long long)v);
      first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : gStats.samples) {
      std::fprintf(f, "%s\"%s\"", first ? "" : ",", Escape(s.c_str()).c_str());
      first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
  if (auto* f = std::fopen((gOpt.out + ".hash").c_str(), "wb")) {
    for (auto h : gStats.hashes) {
      std::fwrite(&h, sizeof(h), 1, f);
    }
    std::fclose(f);
  }
}

// ---- scenario text and violations -----------------------------------------------------------------------------------
inline void Scenario(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void Scenario(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(gProgress->scenario, sizeof(gProgress->scenario), fmt, ap);
  va_end(ap);
}
inline void ScenarioAdd(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void ScenarioAdd(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto n = std::strlen(gProgress->scenario);
  if (n + 1 < sizeof(gProgress->scenario)) {
    std::vsnprintf(gProgress->scenario + n, sizeof(gProgress->scenario) - n, fmt, ap);
  }
  va_end(ap);
}

inline constexpr int kExitViolation = 77;
inline constexpr int kExitForeign = 78;
inline constexpr int kExitHarness = 79;

inline bool PropMatches(const char* props) {
  if (gOpt.prop == "*" || props[0] == '*') {
    return true;
  }
  return std::strstr(props, gOpt.prop.c_str()) != nullptr;
}

// props: comma separated property ids the oracle speaks about, or "*"; key: stable identification of what failed
[[noreturn]] inline void Fail(const char* props, const char* key, const char* fmt, ...)
  __attribute__((format(printf, 3, 4)));
[[noreturn]] inline void Fail(const char* props, const char* key, const char* fmt, ...) {
  static std::atomic<bool> once{false};
  if (once.exchange(true)) {
    for (;;) {
      ::pause();
    }
  }
  char msg[2048];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(msg, sizeof(msg), fmt, ap);
  va_end(ap);
  const bool own = PropMatches(props);
  const std::string prefix = std::string{"\n@"} + (own ? "VIOLATION" : "FOREIGN");
  std::fprintf(stdout, "%s {\"props\":\"%s\",\"key\":\"%s\",\"case\":%llu,\"scenario\":\"%s\",\"msg\":\"%s\"}\n",
               prefix.c_str(), props, Escape(key).c_str(), (unsigned long long)gProgress->index.load(),
               Escape(gProgress->scenario).c_str(), Escape(msg).c_str());
  std::fflush(stdout);
  WriteStats();
  ::_exit(own ? kExitViolation : kExitForeign);
}

[[noreturn]] inline void HarnessError(const char* what) {
  std::fprintf(stdout, "\n@HARNESS %s\n", what);
  std::fflush(stdout);
  ::_exit(kExitHarness);
}

#define VH_CHECK(cond, props, key, ...)        \
  do {                                         \
    if (!(cond)) {                             \
      ::vh::Fail(props, key, __VA_ARGS__);     \
    }                                          \
  } while (false)

// ---- logical clock ----------------------------------------------------------------------------------------------------
inline std::atomic<u64> gClock{0};
// In TSan builds the clock is relaxed so that the harness itself creates no happens-before edges.
inline u64 Now() noexcept {
  return gClock.fetch_add(1, kTsan ? std::memory_order_relaxed : std::memory_order_seq_cst) + 1;
}

// thread_local of the harness, fibers share one OS thread
template <typename Tag, typename T>
T& PerThread() {
#if YACLIB_FAULT == 2
  static std::map<u64, T> all;
  static u64 index = ~0ull;
  if (index != gProgress->index.load()) {
    index = gProgress->index.load();
    all.clear();
  }
  return all[yaclib::fault::Scheduler::GetId()];
#else
  static thread_local T value{};
  return value;
#endif
}

// ---- delays/preemption points of client code --------------------------------------------------------------------------
inline thread_local Rng tNoise;
inline std::atomic<u64> gNoiseSeed{1};
inline std::atomic<unsigned> gNoiseLevel{4};

inline void Point() noexcept {
#if YACLIB_FAULT == 2
  yaclib::InjectFault();
#else
  auto level = gNoiseLevel.load(std::memory_order_relaxed);
  if (level == 0) {
    return;
  }
  if (tNoise.s == 1) {
    tNoise.s = Mix(gNoiseSeed.fetch_add(1, std::memory_order_relaxed));
  }
  auto r = tNoise.Below(64);
  if (r >= level * 4) {
    return;
  }
  if (r == 0) {
    std::this_thread::yield();
  } else {
    for (auto n = tNoise.Below(400); n != 0; --n) {
      asm volatile("" ::: "memory");
    }
  }
#endif
}

// spins for real threads so that they begin together
struct StartLine {
  explicit StartLine(int n) : _n{n} {
  }
  void Arrive() {
#if YACLIB_FAULT != 2
    _arrived.fetch_add(1, std::memory_order_relaxed);
    int spins = 0;
    while (_arrived.load(std::memory_order_relaxed) < _n) {
      if (++spins > 2000) {
        std::this_thread::yield();
      }
    }
#else
    Point();
#endif
    Point();
  }

 private:
  int _n;
  std::atomic<int> _arrived{0};
};

// ---- fiber scheduling strategies --------------------------------------------------------------------------------------
struct Sched {
  Rng rng;
  int kind = 0;        // 0 native injector, 1 random walk, 2 PCT
  u64 yield_den = 1;   // random walk: yield with probability 1/yield_den
  u64 fail_den = 0;    // spurious CAS failure with probability 1/fail_den, 0 - never
  u64 points = 0;      // injection points seen
  u64 streak = 0;      // points since last switch
  u64 switches = 0;
  u64 base_id = 0;
  u64 last_id = 0;
  u64 hash = 0;
  u64 limit = 3000000;
  std::vector<u64> change;  // PCT change points (sorted descending, consumed from the back)
  std::map<u64, u64> prio;  // PCT priorities
  u64 low = 1000;
};
inline Sched gSched;

#if defined(YACLIB_VERIF) && YACLIB_FAULT == 2
namespace sched {

inline u64 Prio(u64 id) {
  auto [it, fresh] = gSched.prio.try_emplace(id, 0);
  if (fresh) {
    it->second = 100000 + gSched.rng.Below(1u << 30);
  }
  return it->second;
}

inline void Demote(u64 id) {
  gSched.prio[id] = gSched.low > 0 ? gSched.low-- : 0;
}

inline bool NeedInject() noexcept {
  auto& s = gSched;
  ++s.points;
  if (s.points > s.limit) {
    Fail("*", "no-progress", "more than %llu scheduling points in one case: live-lock", (unsigned long long)s.limit);
  }
  ++s.streak;
  if (yaclib::fault::Scheduler::Current() == nullptr) {
    return false;
  }
  if (s.kind == 1) {
    return s.rng.Below(s.yield_den) == 0;
  }
  auto id = yaclib::fault::Scheduler::GetId();
  if (s.streak > 300) {  // spinning on something
    Demote(id);
    return true;
  }
  if (!s.change.empty() && s.points >= s.change.back()) {
    s.change.pop_back();
    Demote(id);
    return true;
  }
  return false;
}

inline yaclib::detail::fiber::Node* Pick(yaclib::detail::fiber::BiList& queue) noexcept {
  auto& s = gSched;
  using namespace yaclib::detail::fiber;
  auto* first = queue.GetElement(0, false);
  if (first == nullptr) {
    Fail("*", "empty-run-queue", "scheduler asks for a fiber but its run queue is empty");
  }
  std::vector<Node*> all;
  for (auto* n = first;;) {
    all.push_back(n);
    auto* next = queue.GetElement(all.size(), false);
    if (next == nullptr || next == first) {
      break;
    }
    n = next;
  }
  // fibers sleeping in turns would starve the others forever under strict priorities
  if (s.kind == 1 || (s.switches > 400 && s.rng.Below(16) == 0)) {
    return all[s.rng.Below(all.size())];
  }
  Node* best = nullptr;
  u64 best_prio = 0;
  for (auto* n : all) {
    auto* f = static_cast<FiberBase*>(static_cast<BiNodeScheduler*>(n));
    auto p = Prio(f->GetId());
    if (best == nullptr || p > best_prio) {
      best = n;
      best_prio = p;
    }
  }
  return best;
}

inline bool FailWeak() noexcept {
  auto& s = gSched;
  return s.fail_den != 0 && s.rng.Below(s.fail_den) == 0;
}

inline void Resume(u64 id) noexcept {
  auto& s = gSched;
  if (s.base_id == 0) {
    s.base_id = id;
  }
  auto rel = id - s.base_id;
  if (id != s.last_id) {
    ++s.switches;
  }
  s.streak = 0;
  s.last_id = id;
#  if defined(VH_RACE)
  RaceResume(id);
#  endif
  // points since previous resume are part of the interleaving
  s.hash = Mix(s.hash ^ (rel * 0x10001u + s.points));
  ++s.points;
  if (s.points > s.limit) {
    Fail("*", "no-progress", "more than %llu scheduling points in one case: live-lock", (unsigned long long)s.limit);
  }
  if (gOpt.trace && (s.points < 5000 || s.points + 100 > s.limit)) {
    std::fprintf(stderr, "resume %llu time %llu points %llu\n", (unsigned long long)rel,
                 (unsigned long long)yaclib::fault::Scheduler::GetScheduler()->GetTimeNs(), (unsigned long long)s.points);
  }
}

inline void Setup(Rng& rng) {
  auto& s = gSched;
  auto limit = s.limit;
  s = Sched{};
  s.limit = limit;
  s.rng.s = rng.Next();
  auto& h = yaclib::verif::gHooks;
  h = {};
  h.resume = &Resume;
  yaclib::SetSeed(static_cast<std::uint32_t>(rng.Next()));
  yaclib::SetFaultSleepTime(rng.Pick({1u, 20u, 200u}));
  yaclib::fiber::SetFaultTickLength(rng.Pick({1u, 10u, 10u, 100u}));
  auto fail = rng.Pick({0u, 2u, 4u, 13u, 13u});
  yaclib::SetAtomicFailFrequency(fail);
  yaclib::fiber::SetInjectorState(0);
  switch (rng.Below(8)) {
    case 0:
      s.kind = 0;
      yaclib::SetFaultFrequency(rng.Pick({1u, 2u, 3u, 5u, 8u, 16u}));
      yaclib::fiber::SetFaultRandomListPick(rng.Pick({1u, 2u, 4u, 10u}));
      break;
    case 1:
    case 2:
    case 3:
    case 4:
      s.kind = 1;
      s.yield_den = rng.Pick({1u, 2u, 2u, 4u, 8u, 16u, 48u});
      s.fail_den = fail;
      h.need_inject = &NeedInject;
      h.pick = &Pick;
      h.fail_weak = &FailWeak;
      break;
    default: {
      s.kind = 2;
      s.fail_den = fail;
      auto d = rng.In(0, 4);
      auto len = rng.Pick({12u, 25u, 50u, 100u, 250u, 800u, 2500u});
      for (int i = 0; i != d; ++i) {
        s.change.push_back(1 + rng.Below(len));
      }
      std::sort(s.change.rbegin(), s.change.rend());
      h.need_inject = &NeedInject;
      h.pick = &Pick;
      h.fail_weak = &FailWeak;
      break;
    }
  }
}

}  // namespace sched
#endif

// ---- ledger of instrumented objects -------------------------------------------------------------------------------------
struct Ledger {
  std::atomic<std::int64_t> live{0};
  std::atomic<u64> born{0};
  void Birth() noexcept {
    live.fetch_add(1, std::memory_order_relaxed);
    born.fetch_add(1, std::memory_order_relaxed);
  }
  void Death() noexcept {
    live.fetch_sub(1, std::memory_order_relaxed);
  }
};

inline constexpr u64 kAlive = 0xA11CE0A11CE0A11Cull;
inline constexpr u64 kMoved = 0x30FED30FED30FED3ull;
inline constexpr u64 kDead = 0xDEADDEADDEADDEADull;

inline Ledger gValLedger;
inline Ledger gFnLedger;
inline Ledger gFnObjects;  // every functor object, also the moved-from ones (a functor may be copied by its move)
inline std::atomic<u64> gCopies{0};

struct BadArg final {};  // payloads refuse to be built from it

// Copyable payload: identity + redundant check word behind a heap cell (so that sanitizers see use-after-free and races).
class Val {
 public:
  Val() : Val{0} {
  }
  explicit Val(u64 id) : _magic{kAlive}, _cell{new u64[2]{id, Mix(id)}} {
    gValLedger.Birth();
  }
  explicit Val(BadArg) {
    throw BadArg{};
  }
  Val(const Val& o) : _magic{kAlive} {
    o.CheckReadable("copied");
    _cell = new u64[2]{o._cell[0], o._cell[1]};
    gCopies.fetch_add(1, std::memory_order_relaxed);
    gValLedger.Birth();
  }
  Val(Val&& o) noexcept : _magic{kAlive} {
    o.CheckReadable("moved from");
    _cell = o._cell;
    o._cell = nullptr;
    o._magic = kMoved;
    gValLedger.Birth();
  }
  Val& operator=(const Val& o) {
    if (this != &o) {
      Val t{o};
      *this = std::move(t);
    }
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    if (_magic == kDead) {
      Fail("*", "assign-to-dead", "assignment to a destroyed payload");
    }
    if (this != &o) {
      o.CheckReadable("moved from");
      delete[] _cell;
      _cell = o._cell;
      o._cell = nullptr;
      o._magic = kMoved;
      _magic = kAlive;
    }
    return *this;
  }
  ~Val() {
    if (_magic != kAlive && _magic != kMoved) {
      Fail("*", "double-destroy", "payload destroyed twice or never constructed");
    }
    delete[] _cell;
    _magic = kDead;
    gValLedger.Death();
  }
  u64 Id() const {
    CheckReadable("read");
    auto id = _cell[0];
    if (_cell[1] != Mix(id)) {
      Fail("*", "torn-value", "payload read torn: %llx %llx", (unsigned long long)id, (unsigned long long)_cell[1]);
    }
    return id;
  }
  bool Readable() const noexcept {
    return _magic == kAlive;
  }

 private:
  void CheckReadable(const char* what) const {
    if (_magic == kMoved) {
      Fail("*", "moved-from-observed", "a moved-from payload was %s", what);
    }
    if (_magic != kAlive) {
      Fail("*", "dead-observed", "a destroyed payload was %s", what);
    }
  }
  u64 _magic;
  u64* _cell;
};

// Error type distinct from StopError, carries identity; kStop when built from StopTag.
inline constexpr u64 kStopId = 0x5709ull;

// Token counted for functors: capture one by value in every functor handed to the library.
class FnToken {
 public:
  FnToken() : _cell{new u64{kAlive}} {
    gFnLedger.Birth();
    gFnObjects.Birth();
  }
  FnToken(FnToken&& o) noexcept : _cell{o._cell} {
    o._cell = nullptr;
    gFnObjects.Birth();
  }
  FnToken(const FnToken& o) : _cell{nullptr} {
    gFnObjects.Birth();
    if (o._cell != nullptr) {
      _cell = new u64{kAlive};
      gFnLedger.Birth();
    }
  }
  FnToken& operator=(FnToken&&) = delete;
  FnToken& operator=(const FnToken&) = delete;
  ~FnToken() {
    if (_cell != nullptr) {
      if (*_cell != kAlive) {
        Fail("*", "functor-double-destroy", "functor capture destroyed twice");
      }
      *_cell = kDead;
      delete _cell;
      gFnLedger.Death();
    }
    gFnObjects.Death();
  }
  void Touch() const {
    if (_cell == nullptr || *_cell != kAlive) {
      Fail("*", "functor-dead", "functor invoked after its captures were moved or destroyed");
    }
  }

 private:
  u64* _cell;
};

inline void CheckLedgers(const char* props) {
  auto v = gValLedger.live.load(std::memory_order_relaxed);
  auto f = gFnLedger.live.load(std::memory_order_relaxed);
  VH_CHECK(v == 0, props, v > 0 ? "payload-leak" : "payload-double", "%lld payload objects alive at quiescence",
           (long long)v);
  auto o = gFnObjects.live.load(std::memory_order_relaxed);
  VH_CHECK(o == 0 || f != 0, "C03", o > 0 ? "functor-shell-leak" : "functor-shell-double",
           "%lld moved-from functors were never destroyed", (long long)o);
  VH_CHECK(f == 0, props, f > 0 ? "functor-leak" : "functor-double", "%lld functors alive at quiescence", (long long)f);
}

struct Boom final : std::exception {
  explicit Boom(u64 i) : id{i} {
  }
  const char* what() const noexcept final {
    return "Boom";
  }
  u64 id;
};
struct BoomRt final : std::runtime_error {
  explicit BoomRt(u64 i) : std::runtime_error{"BoomRt"}, id{i} {
  }
  u64 id;
};
struct Foreign final {  // an exception needs not to be derived from std::exception
  u64 id;
};

// exceptions of different kinds, chosen by the id
[[noreturn]] inline void ThrowBoom(u64 id) {
  switch (id & 3) {
    case 0:
      throw Boom{id};
    case 1:
      throw Foreign{id};
    case 2:
      throw BoomRt{id};
    default:
      throw id;
  }
}
inline std::exception_ptr BoomPtr(u64 id) {
  switch (id & 3) {
    case 0:
      return std::make_exception_ptr(Boom{id});
    case 1:
      return std::make_exception_ptr(Foreign{id});
    case 2:
      return std::make_exception_ptr(BoomRt{id});
    default:
      return std::make_exception_ptr(id);
  }
}

// ---- case runner ----------------------------------------------------------------------------------------------------------
struct Case {
  u64 index = 0;
  Rng rng;
  u64 hash = 0;             // scenario+outcome hash, mixed with the schedule hash by the runner
  bool nontrivial = true;   // cleared by the harness if the case exercised nothing interesting
  void Note(u64 x) noexcept {
    hash = Mix(hash ^ x);
  }
};

#if defined(VH_RACE)
namespace race {

inline bool gSelfTest = false;
inline unsigned gSelfReports = 0;

// false if the instrument itself does not fit the tree (e.g. the fault injection was reorganized): then nothing is judged
bool SelfTest();

[[noreturn]] inline void Skip() {
  WriteStats();
  std::printf("@SKIP the race instrument does not fit this tree\n@DONE 0\n");
  std::fflush(stdout);
  std::_Exit(0);
}

}  // namespace race
#endif

inline void OnInternalAssert(std::string_view file, std::size_t line, std::string_view /*function*/,
                             std::string_view condition, std::string_view message) noexcept {
  auto pos = file.rfind('/');
  auto base = std::string{pos == std::string_view::npos ? file : file.substr(pos + 1)};
#if defined(VH_RACE)
  if (race::gSelfTest) {
    race::Skip();
  }
#endif
  auto key = "internal-assert:" + base;
  Fail("*", key.c_str(), "library assertion failed %s:%zu cond=[%s] %s", base.c_str(), line,
       std::string{condition}.c_str(), std::string{message}.c_str());
}

#if defined(VH_RACE)
namespace race {

inline void Begin(Rng& rng) {
  RaceConfig config;
  config.seed = rng.Next();
  config.stale_den = gOpt.stale == 0 ? 0 : rng.Pick({0u, 1u, 2u, 2u, 4u, 12u});
  RaceGetStats() = {};
  RaceBegin(config);
}

inline void End() {
  RaceEnd();
  auto& s = RaceGetStats();
  Count("plain_accesses", s.accesses);
  Count("atomic_operations", s.atomics);
  Count("fences", s.fences);
  Count("mutex_thread_edges", s.syncs);
  Count("memory_releases", s.releases);
  Count("stale_loads_possible", s.stale_possible);
  Count("stale_loads_taken", s.stale_read);
  Count("shadow_overflow", s.shadow_overflow);
  Count("fibers", s.fibers);
}

}  // namespace race
#endif

using CaseBody = void (*)(Case&);

// FIBER: the body creates schedulers and fibers itself (h_repro)
inline bool gNoRootFiber = false;

inline int Main(int argc, char** argv, CaseBody body, void (*init)() = nullptr) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc) {
        HarnessError("missing option value");
      }
      return argv[++i];
    };
    if (a == "--seed") {
      gOpt.seed = std::stoull(val());
    } else if (a == "--from") {
      gOpt.from = std::stoull(val());
    } else if (a == "--to") {
      gOpt.to = std::stoull(val());
    } else if (a == "--one") {
      gOpt.one = std::stoull(val());
    } else if (a == "--prop") {
      gOpt.prop = val();
    } else if (a == "--out") {
      gOpt.out = val();
    } else if (a == "--progress") {
      gOpt.progress = val();
    } else if (a == "--mode") {
      gOpt.mode = val();
    } else if (a == "--no-stale") {
      gOpt.stale = 0;
    } else if (a == "-t") {
      gOpt.trace = true;
    } else if (a == "-v") {
      gOpt.verbose = true;
    } else {
      HarnessError("unknown option");
    }
  }
  if (gOpt.one != ~0ull) {
    gOpt.from = gOpt.one;
    gOpt.to = gOpt.one + 1;
  }
  if (!gOpt.progress.empty()) {
    int fd = ::open(gOpt.progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ::ftruncate(fd, sizeof(Progress)) != 0) {
      HarnessError("progress file");
    }
    auto* p = ::mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) {
      HarnessError("progress mmap");
    }
    gProgress = static_cast<Progress*>(p);
    ::close(fd);
  }
  YACLIB_INIT_DEBUG(&OnInternalAssert);
#if YACLIB_FAULT == 2
  yaclib::fiber::SetStackSize(96);
  yaclib::fiber::SetStackCacheSize(64);
  yaclib::fiber::SetHardwareConcurrency(4);
#elif YACLIB_FAULT == 1
  yaclib::SetFaultFrequency(8);
  yaclib::SetFaultSleepTime(2000);
  yaclib::SetAtomicFailFrequency(13);
#endif
  if (init != nullptr) {
    init();
  }
  static CaseBody sBody = body;
#if defined(VH_RACE)
  if (!race::SelfTest()) {
    race::Skip();
  }
#endif
  for (u64 i = gOpt.from; i != gOpt.to; ++i) {
    gProgress->index.store(i);
    Scenario("(setup)");
    static Case c;
    c = Case{};
    c.index = i;
    c.rng.s = Mix(gOpt.seed * 0x100000001b3ull ^ Mix(i));
    gClock.store(0);
#if YACLIB_FAULT == 2
    if (gNoRootFiber) {
      sBody(c);
    } else {
      yaclib::fault::Scheduler scheduler;
      yaclib::fault::Scheduler::Set(&scheduler);
#  ifdef YACLIB_VERIF
      sched::Setup(c.rng);
#  endif
#  ifdef VH_RACE
      race::Begin(c.rng);
#  endif
      bool done = false;
      yaclib_std::thread root{[&done] {
        sBody(c);
        done = true;
      }};
      VH_CHECK(done, "*", "deadlock", "nothing is runnable but the client has not finished: lost wake-up or deadlock");
      root.join();
#  ifdef VH_RACE
      race::End();
#  endif
    }
    if (gOpt.verbose) {
      std::printf("case %llu: kind=%d points=%llu switches=%llu | %s\n", (unsigned long long)i, gSched.kind,
                  (unsigned long long)gSched.points, (unsigned long long)gSched.switches, gProgress->scenario);
    }
    c.hash = Mix(c.hash ^ gSched.hash);
    if (!gNoRootFiber && gSched.switches <= 2 && c.nontrivial) {
      Count("cases_with_no_preemption");
    }
#else
    gNoiseSeed.store(c.rng.Next());
    gNoiseLevel.store(static_cast<unsigned>(c.rng.Below(6)));
    sBody(c);
    if (gOpt.verbose) {
      std::printf("case %llu: | %s\n", (unsigned long long)i, gProgress->scenario);
    }
#endif
    ++gStats.evaluations;
    for (auto* s = gProgress->scenario; *s != 0; ++s) {
      c.hash = (c.hash ^ static_cast<unsigned char>(*s)) * 0x100000001b3ull;
    }
    if (c.nontrivial) {
      ++gStats.nontrivial;
      gStats.hashes.insert(c.hash);
    }
    if (gStats.samples.size() < 3 && (c.nontrivial || gStats.evaluations > 50)) {
      gStats.samples.push_back("case " + std::to_string(i) + ": " + std::string{gProgress->scenario}.substr(0, 600));
    }
    gProgress->done.fetch_add(1);
  }
  WriteStats();
  std::printf("@DONE %llu\n", (unsigned long long)gStats.evaluations);
  std::fflush(stdout);
  return 0;
}

using Thread = yaclib_std::thread;

}  // namespace vh

#if defined(VH_RACE)
namespace {  // judged as client code
namespace race_self {

struct State {
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  int joined = 0, locked = 0, passed = 0, published = 0, racy = 0;
  bool flag = false;
  yaclib_std::atomic_int ready{0}, refs{3};
  int* heap = nullptr;
};

void Work(State& s, int id) {
  for (int i = 0; i != 3; ++i) {
    {
      std::unique_lock lock{s.m};
      ++s.locked;
    }
    yaclib_std::this_thread::yield();
    if (s.m.try_lock()) {
      ++s.locked;
      s.m.unlock();
    }
  }
  if (id == 0) {
    s.published = 7;
    s.ready.store(1, std::memory_order_release);
    std::unique_lock lock{s.m};
    s.passed = 5;
    s.flag = true;
    s.cv.notify_all();
  } else {
    if (id == 1) {
      int seen = 1;
      while (!s.ready.compare_exchange_weak(seen, 1, std::memory_order_acquire, std::memory_order_relaxed) && seen == 0) {
        seen = 1;
        yaclib_std::this_thread::sleep_for(std::chrono::microseconds{1});
      }
      if (s.ready.load(std::memory_order_acquire) == 1) {
        s.published += 1;
      }
    }
    std::unique_lock lock{s.m};
    while (!s.flag) {
      if (id == 1) {
        s.cv.wait(lock);
      } else {
        s.cv.wait_for(lock, std::chrono::microseconds{50});
      }
    }
    s.passed += 1;
  }
  std::unique_lock lock{s.m};
  ++*s.heap;
}

void Body(State& s, bool racy) {
  s.joined = 1;
  for (int k = 0; k != 2; ++k) {
    yaclib_std::thread t{[&s] { ++s.joined; }};
    t.join();
    ++s.joined;
  }
  s.heap = new int{0};
  std::vector<yaclib_std::thread> threads;
  for (int id = 0; id != 3; ++id) {
    threads.emplace_back([&s, id, racy] {
      Work(s, id);
      if (racy) {
        ++s.racy;
      }
      if (s.refs.fetch_sub(1, std::memory_order_acq_rel) == 1) {
        delete s.heap;
      }
    });
  }
  for (auto& t : threads) {
    t.join();
  }
  ++s.joined;
}

}  // namespace race_self
}  // namespace

namespace vh::race {

bool SelfTest() {
  Rng rng;
  rng.s = 0x5e1f7e57;
  gSelfTest = true;
  unsigned racy_reports = 0;
  bool ok = true;
  for (int i = 0; i != 40 && ok; ++i) {
    const bool racy = i % 2 != 0;
    gSelfReports = 0;
    yaclib::fault::Scheduler scheduler;
    yaclib::fault::Scheduler::Set(&scheduler);
#  ifdef YACLIB_VERIF
    sched::Setup(rng);
#  endif
    Begin(rng);
    static bool done;
    done = false;
    static race_self::State* state;
    state = new race_self::State{};
    static bool with_race;
    with_race = racy;
    yaclib_std::thread root{[] {
      race_self::Body(*state, with_race);
      done = true;
    }};
    if (!done) {
      Skip();
    }
    root.join();
    RaceEnd();
    ok = state->joined == 6 && state->passed == 7 && state->published == 8;
    delete state;
    if (racy) {
      racy_reports += gSelfReports;
    } else if (gSelfReports != 0) {
      ok = false;
    }
  }
  gSelfTest = false;
  return ok && racy_reports != 0;
}

}  // namespace vh::race

void RaceReport(const char* key, const char* message) {
  if (vh::race::gSelfTest) {
    ++vh::race::gSelfReports;
    if (vh::gOpt.verbose) {
      std::printf("self test: %s %s\n", key, message);
    }
    return;
  }
  // a race breaks whichever visibility/ordering clause the running check is about
  vh::Fail("*", key, "%s", message);
}
#endif
