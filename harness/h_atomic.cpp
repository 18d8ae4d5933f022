// C19: yaclib_std::atomic / atomic_flag / fences against std::atomic, operation by operation, on the same random sequences.
#include "vh.hpp"

#include <yaclib_std/atomic>

#include <array>
#include <atomic>
#include <bit>
#include <cmath>
#include <limits>
#include <memory>
#include <new>
#include <utility>

using namespace vh;

namespace {

constexpr const char* kP = "C19";

struct Pod {
  std::uint32_t a;
  std::uint32_t b;
};
struct Padded {  // has padding, no operator==
  std::uint8_t a;
  std::uint32_t b;
};
enum class En : std::int16_t { A = -3, B = 0, C = 7 };

int gArray[64];
Pod gPods[64];

template <typename T>
struct Kind {
  static constexpr bool kInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
  static constexpr bool kFloat = std::is_floating_point_v<T>;
  static constexpr bool kPtr = std::is_pointer_v<T>;
};

template <typename T>
bool Same(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, Padded>) {
    return a.a == b.a && a.b == b.b;
  } else if constexpr (std::is_same_v<T, long double>) {
    return std::memcmp(&a, &b, 10) == 0;
  } else {
    return std::memcmp(&a, &b, sizeof(T)) == 0;
  }
}

template <typename T>
std::string Show(const T& v) {
  unsigned char b[sizeof(T)];
  std::memcpy(b, &v, sizeof(T));
  std::string s = "0x";
  for (std::size_t i = sizeof(T); i-- > 0;) {
    char t[4];
    std::snprintf(t, sizeof(t), "%02x", b[i]);
    s += t;
  }
  return s;
}

template <typename T>
T Draw(Rng& r) {
  if constexpr (std::is_same_v<T, bool>) {
    return r.Chance(1, 2);
  } else if constexpr (Kind<T>::kInt) {
    using L = std::numeric_limits<T>;
    switch (r.Below(6)) {
      case 0:
        return static_cast<T>(r.Below(4));
      case 1:
        return L::max();
      case 2:
        return L::min();
      case 3:
        return static_cast<T>(~r.Below(4));
      default:
        return static_cast<T>(r.Next());
    }
  } else if constexpr (Kind<T>::kFloat) {
    using L = std::numeric_limits<T>;
    switch (r.Below(10)) {
      case 0:
        return T{0};
      case 1:
        return -T{0};
      case 2:
        return L::infinity();
      case 3:
        return L::quiet_NaN();
      case 4:
        return L::denorm_min();
      default:
        return static_cast<T>(static_cast<std::int64_t>(r.Below(2000)) - 1000) / static_cast<T>(8);
    }
  } else if constexpr (std::is_same_v<T, int*>) {
    return &gArray[16 + r.Below(32)];
  } else if constexpr (std::is_same_v<T, Pod*>) {
    return &gPods[16 + r.Below(32)];
  } else if constexpr (std::is_same_v<T, void*>) {
    return r.Chance(1, 3) ? nullptr : static_cast<void*>(&gArray[r.Below(64)]);
  } else if constexpr (std::is_same_v<T, Pod>) {
    return Pod{static_cast<std::uint32_t>(r.Below(3)), static_cast<std::uint32_t>(r.Below(3))};
  } else if constexpr (std::is_same_v<T, Padded>) {
    Padded p;
    std::memset(static_cast<void*>(&p), 0, sizeof(p));
    p.a = static_cast<std::uint8_t>(r.Below(3));
    p.b = static_cast<std::uint32_t>(r.Below(3));
    return p;
  } else {
    return r.Pick({En::A, En::B, En::C});
  }
}

constexpr std::memory_order kOrders[] = {std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire,
                                         std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
std::memory_order AnyOrder(Rng& r) {
  return kOrders[r.Below(6)];
}
std::memory_order LoadOrder(Rng& r) {
  return r.Pick({std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire, std::memory_order_seq_cst});
}
std::memory_order StoreOrder(Rng& r) {
  return r.Pick({std::memory_order_relaxed, std::memory_order_release, std::memory_order_seq_cst});
}

u64 gOps = 0, gSpurious = 0, gCasOk = 0, gCasFail = 0;

// Y: yaclib_std::atomic<T> or volatile; R: the std one with the same qualification
template <typename T, typename Y, typename R>
struct Runner {
  const char* type;
  Y& y;
  R& ref;
  std::vector<std::string> log;

  void Check(const char* op, const T& got, const T& want, const T& arg) {
    ++gOps;
    bool same = Same(got, want);
    if constexpr (Kind<T>::kFloat) {
      same = same || (std::isnan(got) && std::isnan(want));
    }
    if (!same) {
      Fail(kP, (std::string{"value:"} + op).c_str(), "atomic<%s>%s %s(%s) returned %s, std::atomic returns %s", type,
           std::is_volatile_v<Y> ? " volatile" : "", op, Show(arg).c_str(), Show(got).c_str(), Show(want).c_str());
    }
    Stored(op, arg);
  }
  void Stored(const char* op, const T& arg) {
    T a = y.load(), b = ref.load();
    if constexpr (Kind<T>::kFloat) {
      if (std::isnan(a) && std::isnan(b)) {  // sign and payload of a computed NaN are unspecified
        ref.store(a);
        return;
      }
    }
    if (!Same(a, b)) {
      Fail(kP, (std::string{"stored:"} + op).c_str(), "atomic<%s>%s %s(%s) left %s, std::atomic leaves %s", type,
           std::is_volatile_v<Y> ? " volatile" : "", op, Show(arg).c_str(), Show(a).c_str(), Show(b).c_str());
    }
  }

  void Cas(Rng& r) {
    // the expected value: mostly the stored one, sometimes almost equal
    T expected = r.Chance(3, 5) ? ref.load() : Draw<T>(r);
    T desired = Draw<T>(r);
    T e1 = expected, e2 = expected;
    const bool weak = r.Chance(3, 5);
    const bool two = r.Chance(1, 2);
    auto success = AnyOrder(r);
    auto failure = LoadOrder(r);
    auto def = r.Chance(1, 4);
    const T before = ref.load();
    bool got = false;
    const char* op;
    if (weak) {
      op = two ? "compare_exchange_weak2" : "compare_exchange_weak";
      got = two ? y.compare_exchange_weak(e1, desired, success, failure)
                : def ? y.compare_exchange_weak(e1, desired) : y.compare_exchange_weak(e1, desired, success);
    } else {
      op = two ? "compare_exchange_strong2" : "compare_exchange_strong";
      got = two ? y.compare_exchange_strong(e1, desired, success, failure)
                : def ? y.compare_exchange_strong(e1, desired) : y.compare_exchange_strong(e1, desired, success);
    }
    ++gOps;
    if (weak && !got) {
      // a spurious failure or a real one: the same contract
      ++gSpurious;
      if (!Same(e1, before)) {
        Fail(kP, "weak-failure-expected", "atomic<%s> %s failed leaving %s in expected, stored is %s", type, op,
             Show(e1).c_str(), Show(before).c_str());
      }
      Stored(op, desired);
      return;
    }
    bool want = ref.compare_exchange_strong(e2, desired, std::memory_order_seq_cst);
    (want ? gCasOk : gCasFail)++;
    if (got != want) {
      Fail(kP, "cas-result", "atomic<%s> %s(expected=%s desired=%s stored=%s) returned %d, std::atomic %d", type, op,
           Show(expected).c_str(), Show(desired).c_str(), Show(before).c_str(), got, want);
    }
    if (!Same(e1, e2)) {
      Fail(kP, "cas-expected", "atomic<%s> %s left %s in expected, std::atomic %s", type, op, Show(e1).c_str(),
           Show(e2).c_str());
    }
    Stored(op, desired);
  }

  void Step(Rng& r) {
    T arg = Draw<T>(r);
    switch (r.Below(Kind<T>::kInt ? 22 : Kind<T>::kFloat || Kind<T>::kPtr ? 16 : 8)) {
      case 0: {
        auto o = StoreOrder(r);
        if (r.Chance(1, 3)) {
          y.store(arg);
        } else {
          y.store(arg, o);
        }
        ref.store(arg, o);
        ++gOps;
        Stored("store", arg);
        break;
      }
      case 1:
        Check("load", r.Chance(1, 3) ? std::as_const(y).load() : std::as_const(y).load(LoadOrder(r)), ref.load(), arg);
        break;
      case 2: {
        auto o = AnyOrder(r);
        Check("exchange", r.Chance(1, 3) ? y.exchange(arg) : y.exchange(arg, o), ref.exchange(arg, o), arg);
        break;
      }
      case 3:
      case 4:
      case 5:
        Cas(r);
        break;
      case 6: {
        T got = (y = arg);
        T want = (ref = arg);
        Check("operator=", got, want, arg);
        break;
      }
      case 7: {
        T got = std::as_const(y);
        T want = ref;
        Check("operator T", got, want, arg);
        yaclib_std::atomic_thread_fence(AnyOrder(r));
        yaclib_std::atomic_signal_fence(AnyOrder(r));
        Stored("fence", arg);
        break;
      }
      default:
        if constexpr (Kind<T>::kPtr) {
          Pointer(r);
        } else if constexpr (Kind<T>::kInt || Kind<T>::kFloat) {
          Arithmetic(r, arg);
        }
    }
  }
  void Arithmetic(Rng& r, T arg) {
    auto o = AnyOrder(r);
    const bool def = r.Chance(1, 3);
    switch (r.Below(Kind<T>::kInt ? 14 : 4)) {
      case 0:
        Check("fetch_add", def ? y.fetch_add(arg) : y.fetch_add(arg, o), ref.fetch_add(arg, o), arg);
        break;
      case 1:
        Check("fetch_sub", def ? y.fetch_sub(arg) : y.fetch_sub(arg, o), ref.fetch_sub(arg, o), arg);
        break;
      case 2:
        Check("operator+=", y += arg, ref += arg, arg);
        break;
      case 3:
        Check("operator-=", y -= arg, ref -= arg, arg);
        break;
      default:
        if constexpr (Kind<T>::kInt) {
          switch (r.Below(10)) {
            case 0:
              Check("fetch_and", def ? y.fetch_and(arg) : y.fetch_and(arg, o), ref.fetch_and(arg, o), arg);
              break;
            case 1:
              Check("fetch_or", def ? y.fetch_or(arg) : y.fetch_or(arg, o), ref.fetch_or(arg, o), arg);
              break;
            case 2:
              Check("fetch_xor", def ? y.fetch_xor(arg) : y.fetch_xor(arg, o), ref.fetch_xor(arg, o), arg);
              break;
            case 3:
              Check("operator&=", y &= arg, ref &= arg, arg);
              break;
            case 4:
              Check("operator|=", y |= arg, ref |= arg, arg);
              break;
            case 5:
              Check("operator^=", y ^= arg, ref ^= arg, arg);
              break;
            case 6:
              Check("++x", ++y, ++ref, arg);
              break;
            case 7:
              Check("x++", y++, ref++, arg);
              break;
            case 8:
              Check("--x", --y, --ref, arg);
              break;
            default:
              Check("x--", y--, ref--, arg);
              break;
          }
        }
    }
  }
  void Pointer(Rng& r) {
    if constexpr (Kind<T>::kPtr && !std::is_void_v<std::remove_pointer_t<T>>) {
      auto o = AnyOrder(r);
      const bool def = r.Chance(1, 3);
      T base;
      if constexpr (std::is_same_v<T, int*>) {
        base = gArray;
      } else {
        base = gPods;
      }
      T cur = ref.load();
      auto pos = cur - base;
      const auto d = static_cast<std::ptrdiff_t>(r.Below(64)) - pos;  // cur + d stays inside
      switch (r.Below(8)) {
        case 0:
          Check("fetch_add", def ? y.fetch_add(d) : y.fetch_add(d, o), ref.fetch_add(d, o), cur);
          break;
        case 1:
          Check("fetch_sub", def ? y.fetch_sub(-d) : y.fetch_sub(-d, o), ref.fetch_sub(-d, o), cur);
          break;
        case 2:
          Check("operator+=", y += d, ref += d, cur);
          break;
        case 3:
          Check("operator-=", y -= -d, ref -= -d, cur);
          break;
        case 4:
          if (pos < 63) {
            Check("++x", ++y, ++ref, cur);
          }
          break;
        case 5:
          if (pos < 63) {
            Check("x++", y++, ref++, cur);
          }
          break;
        case 6:
          if (pos > 0) {
            Check("--x", --y, --ref, cur);
          }
          break;
        default:
          if (pos > 0) {
            Check("x--", y--, ref--, cur);
          }
          break;
      }
    }
  }
};

template <typename T>
void Run(Case& c, const char* name) {
  auto& r = c.rng;
  const bool vol = r.Chance(1, 3);
  const int n = r.In(1, 24);
  const int init = r.In(0, 2);
  Scenario("atomic<%s>%s ops=%d init=%d seed=%llx", name, vol ? " volatile" : "", n, init, (unsigned long long)r.s);
  using Y = yaclib_std::atomic<T>;
  using R = std::atomic<T>;
  alignas(64) unsigned char raw[sizeof(Y)];
  std::memset(raw, 0xA5, sizeof(raw));
  T v = Draw<T>(r);
  Y* y = nullptr;
  R ref{};
  if (init == 0 && !std::is_same_v<T, Padded>) {
    y = new (raw) Y;  // C++20: value-initialised
    auto got = y->load();
    T zero{};
    VH_CHECK(Same(got, zero), kP, "default-init", "default constructed atomic<%s> holds %s", name, Show(got).c_str());
  } else if (init == 1) {
    y = new (raw) Y{v};
    ref = v;
  } else {
    y = new (raw) Y(v);
    ref = v;
  }
  if (vol) {
    volatile Y& vy = *y;
    volatile R& vr = ref;
    Runner<T, volatile Y, volatile R> run{name, vy, vr, {}};
    for (int i = 0; i != n; ++i) {
      run.Step(r);
    }
  } else {
    Runner<T, Y, R> run{name, *y, ref, {}};
    for (int i = 0; i != n; ++i) {
      run.Step(r);
    }
  }
  y->~Y();
}

template <typename Y>
void FlagSteps(Rng& r, Y& y, bool model, int n) {
  for (int i = 0; i != n; ++i) {
    ++gOps;
    auto o = AnyOrder(r);
    switch (r.Below(3)) {
      case 0: {
        auto def = r.Chance(1, 3);
        bool got = def ? y.test_and_set() : y.test_and_set(o);
        VH_CHECK(got == model, kP, "flag", "test_and_set returned %d, the flag was %d", got, model);
        model = true;
        break;
      }
      case 1:
        if (r.Chance(1, 3)) {
          y.clear();
        } else {
          y.clear(StoreOrder(r));
        }
        model = false;
        break;
      default:
        yaclib_std::atomic_thread_fence(o);
        yaclib_std::atomic_signal_fence(o);
        break;
    }
  }
  bool last = y.test_and_set();
  VH_CHECK(last == model, kP, "flag", "the flag is %d at the end, it should be %d", last, model);
}

void Flag(Case& c) {
  auto& r = c.rng;
  const int n = r.In(1, 24);
  const bool vol = r.Chance(1, 3);
  Scenario("atomic_flag%s ops=%d", vol ? " volatile" : "", n);
  using Y = yaclib_std::atomic_flag;
  alignas(64) unsigned char raw[sizeof(Y)];
  std::memset(raw, 0xFF, sizeof(raw));
  bool model = false;
  Y* y;
  if (r.Chance(1, 2)) {
    y = new (raw) Y;  // C++20: clear
  } else {
    y = new (raw) Y ATOMIC_FLAG_INIT;
  }
  if (vol) {
    volatile Y& vy = *y;
    FlagSteps(r, vy, model, n);
  } else {
    FlagSteps(r, *y, model, n);
  }
  y->~Y();
}

void Body(Case& c) {
  auto& r = c.rng;
#if YACLIB_FAULT == 1
  yaclib::SetFaultFrequency(r.Chance(1, 40) ? 16 : 100000000);
  yaclib::SetFaultSleepTime(50);
  yaclib::SetAtomicFailFrequency(r.Pick({0u, 1u, 2u, 3u, 13u}));
#else
  if (gSched.kind == 0) {
    yaclib::SetAtomicFailFrequency(r.Pick({0u, 1u, 2u, 3u, 13u}));
  }
#endif
  switch (r.Below(24)) {
    case 0:
      Run<bool>(c, "bool");
      break;
    case 1:
      Run<char>(c, "char");
      break;
    case 2:
      Run<signed char>(c, "schar");
      break;
    case 3:
      Run<unsigned char>(c, "uchar");
      break;
    case 4:
      Run<short>(c, "short");
      break;
    case 5:
      Run<unsigned short>(c, "ushort");
      break;
    case 6:
    case 7:
      Run<int>(c, "int");
      break;
    case 8:
      Run<unsigned>(c, "uint");
      break;
    case 9:
      Run<std::int64_t>(c, "i64");
      break;
    case 10:
      Run<std::uint64_t>(c, "u64");
      break;
    case 11:
      Run<char16_t>(c, "char16_t");
      break;
    case 12:
      Run<wchar_t>(c, "wchar_t");
      break;
    case 13:
      Run<float>(c, "float");
      break;
    case 14:
    case 15:
      Run<double>(c, "double");
      break;
    case 16:
      Run<int*>(c, "int*");
      break;
    case 17:
    case 18:
      Run<Pod*>(c, "Pod*");
      break;
    case 19:
      Run<void*>(c, "void*");
      break;
    case 20:
      Run<Pod>(c, "Pod");
      break;
    case 21:
      Run<Padded>(c, "Padded");
      break;
    case 22:
      Run<En>(c, "enum");
      break;
    default:
      Flag(c);
      break;
  }
  c.nontrivial = true;
  c.Note(gOps);
  gStats.counters["operations"] = gOps;
  gStats.counters["weak_failures"] = gSpurious;
  gStats.counters["cas_success"] = gCasOk;
  gStats.counters["cas_failure"] = gCasFail;
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, &Body);
}
