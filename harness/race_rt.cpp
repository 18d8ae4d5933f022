// Happens-before race detector and weak-memory load model for the FIBER backend.
//
// The code under test is compiled with -fsanitize=thread, but linked with this runtime instead of ThreadSanitizer's: every
// plain access, every atomic operation with its memory order, every function entry/exit arrives here.  All fibers run in one
// OS thread, so the runtime is plain sequential code and the schedule is the one drawn by the harness.
//  * vector clocks per fiber; release sequences, relaxed operations and fences are modelled exactly;
//  * per-byte shadow of plain and atomic accesses; releasing memory and reusing stack memory are writes;
//  * an acquire/relaxed load may return an older value of the modification order if nothing makes the newer one visible
//    (coherence and happens-before are respected; read-modify-writes and seq_cst loads see the last value).
// Compiled without instrumentation.
#include "race_rt.hpp"

#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

namespace {

using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using uptr = std::uintptr_t;

// the runtime's own memory must not go through the operator new below
template <typename T>
struct Mall {
  using value_type = T;
  Mall() = default;
  template <typename U>
  Mall(const Mall<U>&) {
  }
  T* allocate(std::size_t n) {
    return static_cast<T*>(std::malloc(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) {
    std::free(p);
  }
  bool operator==(const Mall&) const {
    return true;
  }
};
template <typename T>
using Vec = std::vector<T, Mall<T>>;
template <typename K, typename V>
using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Mall<std::pair<const K, V>>>;

// ---- functions --------------------------------------------------------------------------------------------------------
enum Mode : u8 { kInherit, kLibrary, kClient, kMonitor, kRuntime };

struct Sym {
  uptr begin, end;
  const char* name;
  Mode mode;
};
Vec<Sym> gSyms;

bool Skip(const char*& p, const char* s) {
  auto n = std::strlen(s);
  if (std::strncmp(p, s, n) == 0) {
    p += n;
    return true;
  }
  return false;
}

struct Ident {
  const char* s = nullptr;
  std::size_t n = 0;
  bool Is(const char* x) const {
    return n == std::strlen(x) && std::memcmp(s, x, n) == 0;
  }
};

Ident Next(const char*& p) {
  while (*p == 'L') {
    ++p;
  }
  if (*p < '0' || *p > '9') {
    return {};
  }
  std::size_t n = 0;
  while (*p >= '0' && *p <= '9') {
    n = n * 10 + static_cast<std::size_t>(*p++ - '0');
  }
  Ident id{p, n};
  p += n;
  return id;
}

// what the sources of the fault layer define (the list is made by check.py from the objects), sorted
const char* const kFaultDefined[] = {
#include "fault_syms.inc"
  "~"};

Mode Classify(const char* name) {
  auto* known = std::lower_bound(std::begin(kFaultDefined), std::end(kFaultDefined), name, [](auto* l, auto* r) {
    return std::strcmp(l, r) < 0;
  });
  if (known != std::end(kFaultDefined) && std::strcmp(*known, name) == 0) {
    return kRuntime;
  }
  const char* p = name;
  if (!Skip(p, "_Z")) {
    return kInherit;
  }
  while (*p == 'T') {  // thunks
    while (*p != 0 && *p != '_') {
      ++p;
    }
    if (*p == '_') {
      ++p;
    }
    while ((*p >= '0' && *p <= '9') || *p == 'n') {
      // Tv<a>_<b>_
      auto* q = p;
      while ((*q >= '0' && *q <= '9') || *q == 'n') {
        ++q;
      }
      if (*q == '_') {
        p = q + 1;
        break;
      }
      break;
    }
  }
  while (*p == 'Z' || *p == 'N' || *p == 'K' || *p == 'V' || *p == 'r' || *p == 'R' || *p == 'O') {
    ++p;
  }
  if (*p == 'S') {
    return kInherit;  // std
  }
  auto a = Next(p);
  if (a.s == nullptr) {
    return kInherit;
  }
  if (a.Is("vh")) {
    auto b = Next(p);
    return b.Is("Val") || b.Is("FnToken") || b.Is("Boom") || b.Is("BoomRt") || b.Is("Foreign") ? kClient : kMonitor;
  }
  if (a.n >= 7 && std::memcmp(a.s, "_GLOBAL", 7) == 0) {
    return kClient;
  }
  if (a.Is("yaclib_std")) {
    return kInherit;
  }
  if (a.Is("yaclib")) {
    auto b = Next(p);
    static const char* const kFault[] = {"fault",           "verif",         "fiber",          "InjectFault", "GetInjector",
                                         "SetFaultSleepTime", "SetSeed",     "SetFaultFrequency", "GetInjectedCount",
                                         "GetFaultSleepTime"};
    for (auto* f : kFault) {
      if (b.Is(f)) {
        return kRuntime;
      }
    }
    if (b.Is("detail")) {
      auto c = Next(p);
      static const char* const kDetail[] = {"fiber", "Injector", "GetRandNumber", "ShouldFailAtomicWeak", "SetSeed", "GetSeed"};
      for (auto* f : kDetail) {
        if (c.Is(f)) {
          return kRuntime;
        }
      }
    }
    return kLibrary;
  }
  return kInherit;
}

void LoadSymbols() {
  int fd = ::open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || ::fstat(fd, &st) != 0) {
    std::abort();
  }
  auto* m = static_cast<char*>(::mmap(nullptr, static_cast<std::size_t>(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
  ::close(fd);
  auto* eh = reinterpret_cast<Elf64_Ehdr*>(m);
  auto* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
  uptr base = 0;
  ::dl_iterate_phdr(
    [](dl_phdr_info* info, std::size_t, void* out) {
      *static_cast<uptr*>(out) = info->dlpi_addr;
      return 1;  // the first one is the executable
    },
    &base);
  for (int i = 0; i != eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) {
      continue;
    }
    auto* str = m + sh[sh[i].sh_link].sh_offset;
    auto* sym = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
    for (std::size_t k = 0; k != sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
      if (ELF64_ST_TYPE(sym[k].st_info) == STT_FUNC && sym[k].st_size != 0) {
        auto* name = str + sym[k].st_name;
        gSyms.push_back({base + sym[k].st_value, base + sym[k].st_value + sym[k].st_size, name, Classify(name)});
      }
    }
  }
  std::sort(gSyms.begin(), gSyms.end(), [](auto& l, auto& r) {
    return l.begin < r.begin;
  });
}

const Sym* Find(uptr pc) {
  auto it = std::upper_bound(gSyms.begin(), gSyms.end(), pc, [](uptr x, const Sym& s) {
    return x < s.begin;
  });
  if (it == gSyms.begin()) {
    return nullptr;
  }
  --it;
  return pc <= it->end ? &*it : nullptr;
}

struct PcCache {
  uptr pc;
  const Sym* sym;
};
PcCache gPcCache[1 << 14];

const Sym* Lookup(uptr pc) {
  auto& c = gPcCache[(pc ^ (pc >> 13)) & ((1 << 14) - 1)];
  if (c.pc != pc) {
    c = {pc, Find(pc)};
  }
  return c.sym;
}

std::string Pretty(const Sym* s) {
  if (s == nullptr) {
    return "?";
  }
  int st = 0;
  auto* d = abi::__cxa_demangle(s->name, nullptr, nullptr, &st);
  std::string out = d != nullptr ? d : s->name;
  std::free(d);
  // drop template arguments, parameters and the return type
  std::string flat;
  int depth = 0;
  for (std::size_t i = 0; i != out.size(); ++i) {
    char ch = out[i];
    if (ch == '<' && out.compare(i, 3, "<=>") != 0) {
      ++depth;
    } else if (ch == '>' && depth != 0) {
      --depth;
    } else if (depth == 0) {
      if (ch == '(' && out.compare(i, 11, "(anonymous ") != 0 && !flat.empty()) {
        break;
      }
      flat += ch;
    }
  }
  auto sp = flat.rfind(' ');
  if (sp != std::string::npos && flat.compare(0, 8, "operator") != 0 && flat.find("operator ") == std::string::npos &&
      flat.find("(anonymous ") == std::string::npos) {
    flat = flat.substr(sp + 1);
  }
  if (flat.size() > 90) {
    flat.resize(90);
  }
  return flat;
}

// ---- clocks -------------------------------------------------------------------------------------------------------------
struct Clock {
  Vec<u32> c;
  u32 Get(u32 t) const {
    return t < c.size() ? c[t] : 0;
  }
  void Join(const Clock& o) {
    if (o.c.size() > c.size()) {
      c.resize(o.c.size());
    }
    for (std::size_t i = 0; i != o.c.size(); ++i) {
      if (c[i] < o.c[i]) {
        c[i] = o.c[i];
      }
    }
  }
  void Clear() {
    c.clear();
  }
  bool Empty() const {
    return c.empty();
  }
};

struct Fiber {
  Clock vc;
  Clock acquire_pending;  // what an acquire fence would acquire
  Clock fence;            // what a release fence has released
  bool has_fence = false;
  u32 stale = 0;  // older values read: bounded, stores become visible in finite time
  u64 id = 0;
};
Vec<Fiber*> gFibers;  // tid -> state; 0 is code outside of fibers
u32 gFiberCount = 0;
Map<u64, u32> gTids;

struct Frame {
  const Sym* sym;
  Mode mode;
};
struct Stack {
  Vec<Frame> f;
  u32 tid = 0;
  Mode mode = kRuntime;
};
Stack* gCur = nullptr;
Map<const void*, Stack*> gStacks;  // by execution context
bool gOn = false;
u64 gNextId = 0;

RaceStats gStats;
RaceConfig gConfig;
u64 gRng = 1;

u64 Random(u64 n) {
  gRng ^= gRng << 13;
  gRng ^= gRng >> 7;
  gRng ^= gRng << 17;
  return (gRng >> 11) % n;
}

Fiber& Me() {
  return *gFibers[gCur->tid];
}

u32 NewTid(u64 id) {
  if (gFiberCount == gFibers.size()) {
    gFibers.push_back(new (std::malloc(sizeof(Fiber))) Fiber{});
  }
  auto& f = *gFibers[gFiberCount];
  f.vc.Clear();
  f.acquire_pending.Clear();
  f.fence.Clear();
  f.has_fence = false;
  f.stale = 0;
  f.id = id;
  f.vc.c.resize(gFiberCount + 1);
  f.vc.c[gFiberCount] = 1;
  gTids[id] = gFiberCount;
  return gFiberCount++;
}

u32 TidOf(u64 id) {
  auto it = gTids.find(id);
  return it != gTids.end() ? it->second : NewTid(id);
}

void Tick(u32 tid) {
  ++gFibers[tid]->vc.c[tid];
}

// ---- shadow memory --------------------------------------------------------------------------------------------------------
enum : u8 { kWrite = 1, kAtomic = 2, kFree = 4 };
struct Rec {
  u32 clock;
  u32 where;  // index into gWheres
  std::uint16_t tid;
  u8 mask;
  u8 flags;
};
constexpr int kRecs = 7;
struct Cell {
  u32 epoch;
  u8 n;
  u8 has_loc;
  Rec r[kRecs];
};
constexpr uptr kPageShift = 11;
constexpr uptr kCells = (uptr{1} << kPageShift) / 8;
struct Page {
  u64 run;
  u32 epoch;
  Cell cells[kCells];
};
Map<uptr, Page*> gPages;
u64 gRun = 0;
u32 gEpoch = 0;
struct PageCache {
  uptr key;
  Page* page;
};
PageCache gPageCache[1024];

Page* FindPage(uptr key, bool create) {
  auto& c = gPageCache[key & 1023];
  Page* page;
  if (c.page != nullptr && c.key == key) {
    page = c.page;
  } else {
    auto it = gPages.find(key);
    if (it == gPages.end()) {
      if (!create) {
        return nullptr;
      }
      page = static_cast<Page*>(std::calloc(1, sizeof(Page)));
      gPages.emplace(key, page);
    } else {
      page = it->second;
    }
    c = {key, page};
  }
  if (page->run != gRun) {
    if (!create) {
      return nullptr;
    }
    page->run = gRun;
    page->epoch = ++gEpoch;
  }
  return page;
}

Cell& CellOf(uptr a) {
  auto* page = FindPage(a >> kPageShift, true);
  auto& c = page->cells[(a >> 3) & (kCells - 1)];
  if (c.epoch != page->epoch) {
    c.epoch = page->epoch;
    c.n = 0;
    c.has_loc = 0;
  }
  return c;
}

// where an access came from: a few innermost functions
struct Where {
  const Sym* f[3];
};
Vec<Where> gWheres;
Map<u64, u32> gWhereIndex;

u32 Here() {
  Where w{};
  int n = 0;
  u64 h = 0;
  for (auto i = gCur->f.size(); i != 0 && n != 3; --i) {
    auto* s = gCur->f[i - 1].sym;
    if (s == nullptr || (gCur->f[i - 1].mode == kInherit)) {
      continue;
    }
    auto m = s->mode;
    if (m == kInherit) {
      continue;
    }
    w.f[n++] = s;
    h = h * 0x9e3779b97f4a7c15ull + reinterpret_cast<uptr>(s);
  }
  auto [it, fresh] = gWhereIndex.try_emplace(h, 0);
  if (fresh) {
    it->second = static_cast<u32>(gWheres.size());
    gWheres.push_back(w);
  }
  return it->second;
}

std::string Show(u32 where) {
  std::string s;
  for (auto* f : gWheres[where].f) {
    if (f != nullptr) {
      s += (s.empty() ? "" : " <- ") + Pretty(f);
    }
  }
  return s;
}

const char* Kind(u8 flags) {
  return (flags & kFree) != 0                      ? "release of the memory"
         : (flags & (kWrite | kAtomic)) == kAtomic ? "atomic read"
         : (flags & kAtomic) != 0                  ? "atomic write"
         : (flags & kWrite) != 0                   ? "write"
                                                   : "read";
}

void Report(uptr a, u8 flags, const Rec& old) {
  auto here = Here();
  gOn = false;
  ++gStats.races;
  auto first = [](u32 w) {
    auto* f = gWheres[w].f[0];
    return Pretty(f);
  };
  auto key = "race:" + first(here) + "|" + first(old.where);
  std::string full;
  for (auto i = gCur->f.size(); i != 0 && full.size() < 1500; --i) {
    auto* s = gCur->f[i - 1].sym;
    if (s != nullptr && s->mode != kInherit) {
      full += (full.empty() ? "" : " <- ") + Pretty(s);
    }
  }
  char buf[4000];
  std::snprintf(buf, sizeof(buf),
                "%s by fiber %llu at [%s] is not ordered with the earlier %s by fiber %llu at [%s] (same memory %p)", Kind(flags),
                (unsigned long long)gFibers[gCur->tid]->id, full.c_str(), Kind(old.flags),
                (unsigned long long)gFibers[old.tid]->id, Show(old.where).c_str(), reinterpret_cast<void*>(a));
  RaceReport(key.c_str(), buf);
}

void Drop(uptr a, uptr size);

void Access(uptr a, uptr size, u8 flags) {
  auto& me = Me();
  auto tid = static_cast<std::uint16_t>(gCur->tid);
  const auto now = me.vc.c[tid];
  u32 where = ~0u;
  for (uptr end = a + size; a < end;) {
    auto off = a & 7;
    auto n = std::min<uptr>(8 - off, end - a);
    auto mask = static_cast<u8>(((1u << n) - 1) << off);
    auto& c = CellOf(a);
    if ((flags & (kWrite | kAtomic)) == kWrite && c.has_loc != 0) {
      Drop(a, n);  // a plain write begins a new life of the atomic
    }
    int keep = 0;
    bool have = false;
    for (int i = 0; i != c.n; ++i) {
      auto& r = c.r[i];
      if ((r.mask & mask) != 0) {
        if (r.tid != tid && ((r.flags | flags) & kWrite) != 0 && (r.flags & flags & kAtomic) == 0 &&
            r.clock > me.vc.Get(r.tid)) {
          Report(a, flags, r);
          return;
        }
        if (r.tid == tid && r.mask == mask && r.flags == flags && r.clock == now) {
          have = true;
        }
        // a later access which covers this one and conflicts with everything this one conflicts with
        bool covered = (r.mask & ~mask) == 0 &&
                       ((flags & (kWrite | kAtomic)) == kWrite ||
                        (r.tid == tid && (flags & kAtomic) <= (r.flags & kAtomic) && (flags & kWrite) >= (r.flags & kWrite)));
        if (covered && !have) {
          continue;
        }
      }
      c.r[keep++] = r;
    }
    c.n = static_cast<u8>(keep);
    if (!have) {
      if (where == ~0u) {
        where = Here();
      }
      Rec r{now, where, tid, mask, flags};
      if (c.n == kRecs) {
        c.r[Random(kRecs)] = r;
        ++gStats.shadow_overflow;
      } else {
        c.r[c.n++] = r;
      }
    }
    a += n;
  }
}

void ClearRange(uptr a, uptr size) {
  for (uptr end = a + size; a < end;) {
    auto next = std::min(end, (a | ((uptr{1} << kPageShift) - 1)) + 1);
    auto* page = FindPage(a >> kPageShift, false);
    if (page != nullptr) {
      if (next - a == uptr{1} << kPageShift) {
        // atomics of the page are recognized by their value: see Loc
        page->epoch = ++gEpoch;
      } else {
        for (auto x = a & ~uptr{7}; x < next; x += 8) {
          auto& c = page->cells[(x >> 3) & (kCells - 1)];
          if (c.epoch == page->epoch) {
            if (c.has_loc != 0) {
              Drop(x, 8);
            }
            c.n = 0;
          }
        }
      }
    }
    a = next;
  }
}

// ---- atomics --------------------------------------------------------------------------------------------------------------
struct Store {
  u64 value;
  u32 tid;
  u32 clock;    // of the storing fiber; visible to whoever knows it
  Clock msg;    // what an acquire of this value acquires
};
struct Seen {
  u32 tid, clock, index;
};
struct Loc {
  u64 page_epoch = 0;
  u32 first = 0;  // index of stores[0] in the modification order
  u32 stale = 0;
  Vec<Store> stores;
  Vec<Seen> seen;
};
Map<uptr, Loc> gLocs;

void Drop(uptr a, uptr size) {
  for (uptr x = a; x != a + size; ++x) {
    gLocs.erase(x);
  }
  auto& c = CellOf(a);
  if (size == 8) {
    c.has_loc = 0;
  }
}

constexpr std::size_t kHistory = 12;

// history of the location, brought in line with the memory
Loc& LocOf(uptr a, u64 value) {
  auto& cell = CellOf(a);
  auto& loc = gLocs[a];
  if (cell.has_loc == 0 || loc.stores.empty() || loc.stores.back().value != value) {
    bool unknown_writer = cell.has_loc != 0 && !loc.stores.empty();
    loc = Loc{};
    loc.stores.push_back({value, 0, 0, {}});
    if (unknown_writer) {
      // written by code that is not instrumented: assume that it synchronizes
      for (u32 t = 0; t != gFiberCount; ++t) {
        loc.stores.back().msg.Join(gFibers[t]->vc);
      }
    }
    cell.has_loc = 1;
  }
  return loc;
}

bool IsAcquire(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
bool IsRelease(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

void Acquired(const Store& s, int mo) {
  auto& me = Me();
  if (IsAcquire(mo)) {
    me.vc.Join(s.msg);
  } else {
    me.acquire_pending.Join(s.msg);
  }
}

// coherence: who knows of this read does not read anything older
void Saw(Loc& loc, u32 index) {
  const auto now = Me().vc.c[gCur->tid];
  for (auto& s : loc.seen) {
    if (s.tid == gCur->tid && s.index == index) {
      return;  // known since an earlier moment, which is stronger
    }
  }
  loc.seen.push_back({gCur->tid, now, index});
  if (loc.seen.size() > 64) {
    // forget the past of the location: everybody sees the last value from here on
    loc.first += static_cast<u32>(loc.stores.size() - 1);
    loc.stores.erase(loc.stores.begin(), loc.stores.end() - 1);
    loc.seen.clear();
  }
}

u64 Load(uptr a, uptr size, u64 value, int mo) {
  ++gStats.atomics;
  Access(a, size, kAtomic);
  if (!gOn) {
    return value;
  }
  auto& loc = LocOf(a, value);
  auto& me = Me();
  std::size_t last = loc.stores.size() - 1;
  auto pick = last;
  if (gConfig.stale_den != 0 && mo != __ATOMIC_SEQ_CST && gCur->mode == kLibrary && last != 0) {
    // oldest store which may still be read
    u32 low = 0;
    for (auto& s : loc.seen) {
      if (s.clock <= me.vc.Get(s.tid)) {
        low = std::max(low, s.index);
      }
    }
    std::size_t i = low > loc.first ? low - loc.first : 0;
    for (auto k = last; k > i; --k) {
      auto& s = loc.stores[k];
      if (s.clock <= me.vc.Get(s.tid)) {
        i = k;
        break;
      }
    }
    if (i < last) {
      ++gStats.stale_possible;
      if (loc.stale < 6 && me.stale < 12 && Random(gConfig.stale_den) == 0) {
        pick = i + Random(last - i);
        ++loc.stale;
        ++me.stale;
        if (loc.stores[pick].value != loc.stores[last].value) {
          ++gStats.stale_read;
        }
      }
    }
  }
  auto index = loc.first + static_cast<u32>(pick);
  const auto result = loc.stores[pick].value;
  Acquired(loc.stores[pick], mo);
  Saw(loc, index);
  return result;
}

void Stored(Loc& loc, u64 value, int mo, const Clock* sequence) {
  auto& me = Me();
  Store s{value, gCur->tid, me.vc.c[gCur->tid], {}};
  if (sequence != nullptr) {
    s.msg = *sequence;
  }
  if (IsRelease(mo)) {
    s.msg.Join(me.vc);
  } else if (me.has_fence) {
    s.msg.Join(me.fence);
  }
  loc.stores.push_back(std::move(s));
  if (loc.stores.size() > kHistory) {
    loc.stores.erase(loc.stores.begin());
    ++loc.first;
  }
  Tick(gCur->tid);
}

void DoStore(uptr a, uptr size, u64 old, u64 value, int mo) {
  ++gStats.atomics;
  Access(a, size, kAtomic | kWrite);
  if (gOn) {
    Stored(LocOf(a, old), value, mo, nullptr);
  }
}

void DoRmw(uptr a, uptr size, u64 old, u64 value, int mo) {
  ++gStats.atomics;
  Access(a, size, kAtomic | kWrite);
  if (!gOn) {
    return;
  }
  auto& loc = LocOf(a, old);
  auto& s = loc.stores.back();
  Acquired(s, mo);
  Clock sequence = s.msg;
  Stored(loc, value, mo, &sequence);
}

void DoCasFail(uptr a, uptr size, u64 old, int mo) {
  ++gStats.atomics;
  Access(a, size, kAtomic);
  if (!gOn) {
    return;
  }
  auto& loc = LocOf(a, old);
  Acquired(loc.stores.back(), mo);
  Saw(loc, loc.first + static_cast<u32>(loc.stores.size() - 1));
}

bool Checked() {
  return gOn && (gCur->mode == kLibrary || gCur->mode == kClient);
}

// ---- mutexes ----------------------------------------------------------------------------------------------------------------
Map<const void*, Clock> gMutexes;

void Acquire(const void* m) {
  if (!gOn) {
    return;
  }
  auto it = gMutexes.find(m);
  if (it != gMutexes.end()) {
    Me().vc.Join(it->second);
  }
  ++gStats.syncs;
}

void Release(const void* m) {
  if (!gOn) {
    return;
  }
  Access(reinterpret_cast<uptr>(m), 8, kAtomic);
  if (!gOn) {
    return;
  }
  gMutexes[m].Join(Me().vc);
  Tick(gCur->tid);
}

struct Start {
  Start() {
    LoadSymbols();
    gCur = new (std::malloc(sizeof(Stack))) Stack{};
    NewTid(~0ull);
  }
  ~Start() {
    gOn = false;
    gCur = nullptr;
  }
} gStart;

}  // namespace

// ---- interface of the harness -------------------------------------------------------------------------------------------------
RaceStats& RaceGetStats() {
  return gStats;
}

void RaceBegin(const RaceConfig& config) {
  gConfig = config;
  gRng = config.seed | 1;
  ++gRun;
  gLocs.clear();
  gMutexes.clear();
  gTids.clear();
  gFiberCount = 0;
  NewTid(~0ull);
  gCur->tid = 0;
  gOn = true;
}

void RaceEnd() {
  gOn = false;
  gStats.fibers += gFiberCount;
}

void RaceResume(u64 id) {
  gNextId = id;
}

void RaceJoinAll() {
  if (!gOn) {
    return;
  }
  for (u32 t = 0; t != gFiberCount; ++t) {
    Me().vc.Join(gFibers[t]->vc);
  }
}

// ---- instrumentation ------------------------------------------------------------------------------------------------------------
extern "C" {

void __tsan_init() {
}

void __tsan_func_entry(void*) {
  if (gCur == nullptr) {
    return;
  }
  auto* s = Lookup(reinterpret_cast<uptr>(__builtin_return_address(0)));
  gCur->f.push_back({s, gCur->mode});
  if (s != nullptr && s->mode != kInherit) {
    gCur->mode = s->mode;
  }
}

void __tsan_func_exit() {
  if (gCur == nullptr || gCur->f.empty()) {
    return;
  }
  gCur->mode = gCur->f.back().mode;
  gCur->f.pop_back();
}

#define ACCESS(name, size, flags)                              \
  void name(void* p) {                                         \
    if (Checked()) {                                           \
      ++gStats.accesses;                                       \
      Access(reinterpret_cast<uptr>(p), size, flags);          \
    }                                                          \
  }
ACCESS(__tsan_read1, 1, 0)
ACCESS(__tsan_read2, 2, 0)
ACCESS(__tsan_read4, 4, 0)
ACCESS(__tsan_read8, 8, 0)
ACCESS(__tsan_read16, 16, 0)
ACCESS(__tsan_write1, 1, kWrite)
ACCESS(__tsan_write2, 2, kWrite)
ACCESS(__tsan_write4, 4, kWrite)
ACCESS(__tsan_write8, 8, kWrite)
ACCESS(__tsan_write16, 16, kWrite)
ACCESS(__tsan_unaligned_read2, 2, 0)
ACCESS(__tsan_unaligned_read4, 4, 0)
ACCESS(__tsan_unaligned_read8, 8, 0)
ACCESS(__tsan_unaligned_read16, 16, 0)
ACCESS(__tsan_unaligned_write2, 2, kWrite)
ACCESS(__tsan_unaligned_write4, 4, kWrite)
ACCESS(__tsan_unaligned_write8, 8, kWrite)
ACCESS(__tsan_unaligned_write16, 16, kWrite)
ACCESS(__tsan_vptr_read, 8, 0)

void __tsan_vptr_update(void** p, void* v) {
  // constructors and destructors of a hierarchy rewrite it with the same value
  if (Checked() && *p != v) {
    ++gStats.accesses;
    Access(reinterpret_cast<uptr>(p), 8, kWrite);
  }
}
void __tsan_read_range(void* p, unsigned long n) {
  if (Checked()) {
    ++gStats.accesses;
    Access(reinterpret_cast<uptr>(p), n, 0);
  }
}
void __tsan_write_range(void* p, unsigned long n) {
  if (Checked()) {
    ++gStats.accesses;
    Access(reinterpret_cast<uptr>(p), n, kWrite);
  }
}

#define ATOMICS(N, T)                                                                                             \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                                        \
    T v = *a;                                                                                                     \
    return Checked() ? static_cast<T>(Load(reinterpret_cast<uptr>(a), sizeof(T), v, mo)) : v;                     \
  }                                                                                                               \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                                     \
    if (Checked()) {                                                                                              \
      DoStore(reinterpret_cast<uptr>(a), sizeof(T), *a, v, mo);                                                   \
    }                                                                                                             \
    *a = v;                                                                                                       \
  }                                                                                                               \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                                     \
    T old = *a;                                                                                                   \
    if (Checked()) {                                                                                              \
      DoRmw(reinterpret_cast<uptr>(a), sizeof(T), old, v, mo);                                                    \
    }                                                                                                             \
    *a = v;                                                                                                       \
    return old;                                                                                                   \
  }                                                                                                               \
  FETCH(N, T, fetch_add, old + v)                                                                                 \
  FETCH(N, T, fetch_sub, old - v)                                                                                 \
  FETCH(N, T, fetch_and, old & v)                                                                                 \
  FETCH(N, T, fetch_or, old | v)                                                                                  \
  FETCH(N, T, fetch_xor, old ^ v)                                                                                 \
  FETCH(N, T, fetch_nand, ~(old & v))                                                                             \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                    \
    T old = *a;                                                                                                   \
    if (old == *c) {                                                                                              \
      if (Checked()) {                                                                                            \
        DoRmw(reinterpret_cast<uptr>(a), sizeof(T), old, v, mo);                                                  \
      }                                                                                                           \
      *a = v;                                                                                                     \
      return true;                                                                                                \
    }                                                                                                             \
    if (Checked()) {                                                                                              \
      DoCasFail(reinterpret_cast<uptr>(a), sizeof(T), old, fmo);                                                  \
    }                                                                                                             \
    *c = old;                                                                                                     \
    return false;                                                                                                 \
  }                                                                                                               \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                      \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);                                          \
  }
#define FETCH(N, T, op, expr)                                          \
  T __tsan_atomic##N##_##op(volatile T* a, T v, int mo) {              \
    T old = *a;                                                        \
    T next = static_cast<T>(expr);                                     \
    if (Checked()) {                                                   \
      DoRmw(reinterpret_cast<uptr>(a), sizeof(T), old, next, mo);      \
    }                                                                  \
    *a = next;                                                         \
    return old;                                                        \
  }
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!Checked()) {
    return;
  }
  ++gStats.fences;
  auto& me = Me();
  if (IsAcquire(mo)) {
    me.vc.Join(me.acquire_pending);
  }
  if (IsRelease(mo)) {
    me.fence = me.vc;
    me.has_fence = true;
    Tick(gCur->tid);
  }
}
void __tsan_atomic_signal_fence(int) {
}

// ---- what happens outside of the instrumented code ---------------------------------------------------------------------------
void __real__ZN6yaclib6detail5fiber5Mutex4lockEv(void* self);
void __wrap__ZN6yaclib6detail5fiber5Mutex4lockEv(void* self) {
  __real__ZN6yaclib6detail5fiber5Mutex4lockEv(self);
  Acquire(self);
}
bool __real__ZN6yaclib6detail5fiber5Mutex8try_lockEv(void* self);
bool __wrap__ZN6yaclib6detail5fiber5Mutex8try_lockEv(void* self) {
  bool r = __real__ZN6yaclib6detail5fiber5Mutex8try_lockEv(self);
  if (r) {
    Acquire(self);
  }
  return r;
}
void __real__ZN6yaclib6detail5fiber5Mutex6unlockEv(void* self);
void __wrap__ZN6yaclib6detail5fiber5Mutex6unlockEv(void* self) {
  Release(self);
  __real__ZN6yaclib6detail5fiber5Mutex6unlockEv(self);
}
void __real__ZN6yaclib6detail5fiber17ConditionVariable10notify_oneEv(void* self);
void __wrap__ZN6yaclib6detail5fiber17ConditionVariable10notify_oneEv(void* self) {
  if (gOn) {
    Access(reinterpret_cast<uptr>(self), 8, kAtomic);
  }
  __real__ZN6yaclib6detail5fiber17ConditionVariable10notify_oneEv(self);
}
void __real__ZN6yaclib6detail5fiber17ConditionVariable10notify_allEv(void* self);
void __wrap__ZN6yaclib6detail5fiber17ConditionVariable10notify_allEv(void* self) {
  if (gOn) {
    Access(reinterpret_cast<uptr>(self), 8, kAtomic);
  }
  __real__ZN6yaclib6detail5fiber17ConditionVariable10notify_allEv(self);
}

u64 _ZNK6yaclib6detail5fiber9FiberBase5GetIdEv(const void* self);
void __real__ZN6yaclib5fault9Scheduler8ScheduleEPNS_6detail5fiber9FiberBaseE(void* self, void* fiber);
void __wrap__ZN6yaclib5fault9Scheduler8ScheduleEPNS_6detail5fiber9FiberBaseE(void* self, void* fiber) {
  if (gOn) {
    auto id = _ZNK6yaclib6detail5fiber9FiberBase5GetIdEv(fiber);
    if (gTids.find(id) == gTids.end()) {
      auto tid = NewTid(id);
      gFibers[tid]->vc.Join(Me().vc);
      Tick(gCur->tid);
      ++gStats.syncs;
    }
  }
  __real__ZN6yaclib5fault9Scheduler8ScheduleEPNS_6detail5fiber9FiberBaseE(self, fiber);
}

u64 _ZNK6yaclib6detail5fiber6Thread6get_idEv(const void* self);
void __real__ZN6yaclib6detail5fiber6Thread4joinEv(void* self);
void __wrap__ZN6yaclib6detail5fiber6Thread4joinEv(void* self) {
  auto id = _ZNK6yaclib6detail5fiber6Thread6get_idEv(self);
  __real__ZN6yaclib6detail5fiber6Thread4joinEv(self);
  if (gOn) {
    Me().vc.Join(gFibers[TidOf(id)]->vc);
    ++gStats.syncs;
  }
}

struct Allocation {
  char* start;
  std::size_t size;
};
void __real__ZN6yaclib6detail5fiber16ExecutionContext5SetupENS1_10AllocationEPFvPvES4_(void* self, Allocation stack,
                                                                                     void (*f)(void*), void* arg);
void __wrap__ZN6yaclib6detail5fiber16ExecutionContext5SetupENS1_10AllocationEPFvPvES4_(void* self, Allocation stack,
                                                                                     void (*f)(void*), void* arg) {
  auto*& s = gStacks[self];
  if (s == nullptr) {
    s = new (std::malloc(sizeof(Stack))) Stack{};
  }
  s->f.clear();
  s->mode = kRuntime;
  s->tid = ~0u;
  ClearRange(reinterpret_cast<uptr>(stack.start), stack.size);
  __real__ZN6yaclib6detail5fiber16ExecutionContext5SetupENS1_10AllocationEPFvPvES4_(self, stack, f, arg);
}

static Stack* To(void* context) {
  auto it = gStacks.find(context);
  if (it == gStacks.end()) {
    std::abort();
  }
  auto* s = it->second;
  if (s->tid == ~0u) {
    s->tid = TidOf(gNextId);
  }
  return s;
}

void __real__ZN6yaclib6detail5fiber16ExecutionContext8SwitchToERS2_(void* self, void* other);
void __wrap__ZN6yaclib6detail5fiber16ExecutionContext8SwitchToERS2_(void* self, void* other) {
  auto* mine = gCur;
  gStacks[self] = mine;
  gCur = To(other);
  __real__ZN6yaclib6detail5fiber16ExecutionContext8SwitchToERS2_(self, other);
  gCur = mine;
}
void __real__ZN6yaclib6detail5fiber16ExecutionContext4ExitERS2_(void* self, void* other);
void __wrap__ZN6yaclib6detail5fiber16ExecutionContext4ExitERS2_(void* self, void* other) {
  gCur = To(other);
  __real__ZN6yaclib6detail5fiber16ExecutionContext4ExitERS2_(self, other);
}

void* __real_memcpy(void* d, const void* s, std::size_t n);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
  if (n != 0 && Checked()) {
    Access(reinterpret_cast<uptr>(s), n, 0);
    if (gOn) {
      Access(reinterpret_cast<uptr>(d), n, kWrite);
    }
  }
  return __real_memcpy(d, s, n);
}
void* __real_memmove(void* d, const void* s, std::size_t n);
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
  if (n != 0 && Checked()) {
    Access(reinterpret_cast<uptr>(s), n, 0);
    if (gOn) {
      Access(reinterpret_cast<uptr>(d), n, kWrite);
    }
  }
  return __real_memmove(d, s, n);
}
void* __real_memset(void* d, int c, std::size_t n);
void* __wrap_memset(void* d, int c, std::size_t n) {
  if (n != 0 && Checked()) {
    Access(reinterpret_cast<uptr>(d), n, kWrite);
  }
  return __real_memset(d, c, n);
}

void* __real___cxa_allocate_exception(std::size_t n);
void* __wrap___cxa_allocate_exception(std::size_t n) {
  auto* p = __real___cxa_allocate_exception(n);
  if (gOn) {
    ClearRange(reinterpret_cast<uptr>(p) & ~uptr{7}, n + 8);
  }
  return p;
}

}  // extern "C"

// ---- memory -----------------------------------------------------------------------------------------------------------------
static void* New(std::size_t n, std::size_t align) {
  void* p = align <= 16 ? std::malloc(n) : std::aligned_alloc(align, (n + align - 1) / align * align);
  if (p != nullptr && gOn) {
    ClearRange(reinterpret_cast<uptr>(p), malloc_usable_size(p));
  }
  return p;
}
static void Delete(void* p) {
  if (p != nullptr && gOn) {
    auto n = malloc_usable_size(p);
    if (Checked()) {
      ++gStats.releases;
      Access(reinterpret_cast<uptr>(p), n, kWrite | kFree);
    }
    ClearRange(reinterpret_cast<uptr>(p), n);
  }
  std::free(p);
}
void* operator new(std::size_t n) {
  auto* p = New(n, 0);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return New(n, 0);
}
void* operator new(std::size_t n, std::align_val_t a) {
  auto* p = New(n, static_cast<std::size_t>(a));
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void operator delete(void* p) noexcept {
  Delete(p);
}
void operator delete(void* p, std::size_t) noexcept {
  Delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept {
  Delete(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  Delete(p);
}
