// TSan does not model atomic_thread_fence.  This shim (linked with -Wl,--wrap of the __tsan_atomic* entry points, compiled
// without instrumentation) does: an acquire fence acquires the clocks of the locations this thread has just read without
// acquire order, a release fence upgrades the later relaxed stores of the thread.  Both over-approximate happens-before,
// so they can hide a race but never invent one.
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
enum { kRelaxed, kConsume, kAcquire, kRelease, kAcqRel, kSeqCst };

void __tsan_acquire(void* addr);

static __thread volatile void* tRing[4];
static __thread unsigned tPos;
static __thread int tReleased;
unsigned long gFences;

static void Remember(volatile void* a, int mo) {
  if (mo == kRelaxed || mo == kRelease || mo == kConsume) {
    if (tRing[(tPos - 1) & 3] != a) {
      tRing[tPos++ & 3] = a;
    }
  }
}

static int Up(int mo) {
  if (!tReleased) {
    return mo;
  }
  return mo == kRelaxed ? kRelease : mo == kAcquire || mo == kConsume ? kAcqRel : mo;
}

void __real___tsan_atomic_thread_fence(int mo);
void __wrap___tsan_atomic_thread_fence(int mo) {
  __atomic_fetch_add(&gFences, 1, __ATOMIC_RELAXED);
  if (mo == kAcquire || mo == kConsume || mo == kAcqRel || mo == kSeqCst) {
    for (int i = 0; i != 4; ++i) {
      if (tRing[i]) {
        __tsan_acquire((void*)tRing[i]);
        tRing[i] = 0;
      }
    }
  }
  if (mo == kRelease || mo == kAcqRel || mo == kSeqCst) {
    tReleased = 1;
  }
  __real___tsan_atomic_thread_fence(mo);
}

#define RMW(N, op)                                                                   \
  a##N __real___tsan_atomic##N##_##op(volatile a##N* a, a##N v, int mo);             \
  a##N __wrap___tsan_atomic##N##_##op(volatile a##N* a, a##N v, int mo) {            \
    Remember(a, mo);                                                                 \
    return __real___tsan_atomic##N##_##op(a, v, Up(mo));                             \
  }
#define CAS(N, op)                                                                                          \
  int __real___tsan_atomic##N##_##op(volatile a##N* a, a##N* c, a##N v, int mo, int fmo);                   \
  int __wrap___tsan_atomic##N##_##op(volatile a##N* a, a##N* c, a##N v, int mo, int fmo) {                  \
    int r = __real___tsan_atomic##N##_##op(a, c, v, Up(mo), fmo);                                           \
    Remember(a, r ? mo : fmo);                                                                              \
    return r;                                                                                               \
  }
#define ALL(N)                                                       \
  a##N __real___tsan_atomic##N##_load(const volatile a##N* a, int mo); \
  a##N __wrap___tsan_atomic##N##_load(const volatile a##N* a, int mo) { \
    Remember((volatile void*)a, mo);                                 \
    return __real___tsan_atomic##N##_load(a, mo);                    \
  }                                                                  \
  void __real___tsan_atomic##N##_store(volatile a##N* a, a##N v, int mo); \
  void __wrap___tsan_atomic##N##_store(volatile a##N* a, a##N v, int mo) { \
    __real___tsan_atomic##N##_store(a, v, Up(mo));                   \
  }                                                                  \
  RMW(N, exchange)                                                   \
  RMW(N, fetch_add)                                                  \
  RMW(N, fetch_sub)                                                  \
  RMW(N, fetch_and)                                                  \
  RMW(N, fetch_or)                                                   \
  RMW(N, fetch_xor)                                                  \
  CAS(N, compare_exchange_strong)                                    \
  CAS(N, compare_exchange_weak)

ALL(8)
ALL(32)
ALL(64)

// libstdc++.so is not instrumented, so the reference count of an exception object is invisible to TSan: the free by the last
// owner looks unordered with earlier reads through another exception_ptr.  The count is a release/acquire one.
void __tsan_release(void* addr);
static char gExceptionLock;
static void Enter(void* object) {
  while (__atomic_exchange_n(&gExceptionLock, 1, __ATOMIC_ACQUIRE)) {
  }
  __tsan_release(object);
  __tsan_acquire(object);
}
static void Leave(void) {
  __atomic_store_n(&gExceptionLock, 0, __ATOMIC_RELEASE);
}

void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self);
void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self) {
  if (!*self) {
    return;
  }
  Enter(*self);
  __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(self);
  Leave();
}

void _ZSt17current_exceptionv(void** out);  // std::exception_ptr std::current_exception()
void __real___cxa_end_catch(void);
void __wrap___cxa_end_catch(void) {
  void* object = 0;
  _ZSt17current_exceptionv(&object);
  if (!object) {
    __real___cxa_end_catch();
    return;
  }
  void* copy = object;
  __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(&copy);  // not the last one: it is being caught
  Enter(object);
  __real___cxa_end_catch();
  Leave();
}
