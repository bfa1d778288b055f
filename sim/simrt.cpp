// Deterministic simulation runtime: scheduler, heap, clocks, race and memory checks.
// Compiled without instrumentation. See simrt.h and ../DESIGN.md.
#include "simrt.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#define RET() __builtin_return_address(0)

extern "C" {
extern char __data_start;
extern char _end;
extern char _etext;
int __real_clock_gettime(clockid_t, timespec*);
void* __real_malloc(std::size_t);
void __real_free(void*);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
}

namespace sim {

namespace {

constexpr std::uintptr_t ArenaBase = 0x1000000000ull;
constexpr std::size_t ArenaSize = 96u << 20;
constexpr std::uintptr_t StackBase = 0x2000000000ull;
constexpr std::size_t StackSize = 1u << 20;
constexpr std::size_t StackStride = StackSize + (64u << 10);
constexpr int MaxTh = 7;
constexpr int MaxSwitches = 20000;
constexpr std::size_t MaxBlocks = 1u << 19;

struct Cell {
  std::uint32_t w;
  std::uint32_t r[MaxTh];
};

enum State { Unused, Ready, Blocked, Done };

struct Th {
  int id;
  int lib;
  State state;
  std::uint32_t vc[MaxTh];
  std::uint32_t seen[MaxTh]; // Released to relaxed loads, acquired at the next fence
  std::uint32_t fence[MaxTh]; // At the last release fence
  int spins; // Atomic operations since the last switch
  std::uintptr_t stackLo, stackHi;
  volatile int baton;
  const void* waitOn;
  std::uintptr_t startDepth;
  // Operation
  int opClient, opIndex;
  int allocs;
  int fired;
  struct {
    i64 nth, count;
  } af[8];
  int naf;
  u64 localSteps;
  u64 nextLocal;
  std::size_t swIdx;
  std::vector<Switch> plan;
  std::function<void()>* body;
  struct {
    void (*run)(void*);
    void* object;
  } exits[64]; // Destructors of thread-local objects
  int nexits;
};

struct Counter {
  char name[56];
  u64 n;
};

struct Shared {
  int status; // 0 running, 1 ok, 2 violation
  char cls[64];
  char msg[4000];
  u64 hash, schedHash, scnHash;
  u64 steps, allSteps, allocs;
  i64 simNs;
  int ops, nsw, forced;
  Switch sw[MaxSwitches];
  int nprobes;
  Counter probes[400];
  int nfaults;
  Counter faults[64];
  int runFaults;
  struct {
    u64 step, all, rng;
    i64 advanced;
    Clock clk;
    u64 local[MaxTh];
  } saved;
  int ntrace;
  char traceBuf[200000];
};

Shared* sh = nullptr;
Th ths[MaxTh];
int nth = 0;
__thread Th* self_ = nullptr;
bool multi = false; // several simulated threads alive
u64 step = 0, allSteps = 0, nextSwitch = ~0ull;
u64 budgetBase = 40000000ull, budget = budgetBase; // Steps of one operation without progress: renewed by opBegin()
const Scenario* cur = nullptr;
Rng schedRng(0);
std::uint8_t* liveShadow = nullptr;
Cell* arenaCells = nullptr;
Cell* stackCells = nullptr;
Cell* dataCells = nullptr;
std::uintptr_t dataLo, dataHi;
Block* blocks = nullptr;
std::size_t nblocks = 0, nlive = 0;
std::uintptr_t bump = ArenaBase + 4096;
Rng heapRng(0);
u64 garbage = 0;
Clock clk {1000000000000ll, 1600000000000000000ll};
u64 nclock = 0;
bool verbose_ = false;
i64 advanced = 0;
i64 stepCost = 0;

std::vector<Property>& props() {
  static std::vector<Property> v;
  return v;
}

struct SyncVar {
  const void* addr;
  std::uint32_t vc[MaxTh];
  int owner; // mutex: thread id or -1
  int depth;
};
constexpr int MaxSyncs = 1 << 15;
SyncVar* syncs = nullptr; // Hash table, outside of static data, which is scanned for reachable blocks
int nsyncs = 0;

SyncVar& syncOf(const void* p) {
  std::size_t i = (std::uintptr_t(p) * 0x9E3779B97F4A7C15ull) >> 49;
  while (syncs[i].addr && syncs[i].addr != p) {
    i = (i + 1) % MaxSyncs;
  }
  if (syncs[i].addr) {
    return syncs[i];
  }
  if (++nsyncs == MaxSyncs - 1) {
    fail("harness", "too many synchronisation variables");
  }
  auto& s = syncs[i];
  s.addr = p;
  std::memset(s.vc, 0, sizeof s.vc);
  s.owner = -1;
  s.depth = 0;
  return s;
}

void join(std::uint32_t* a, const std::uint32_t* b) {
  for (int i = 0; i < MaxTh; ++i) {
    a[i] = std::max(a[i], b[i]);
  }
}

void acquire(Th* t, const void* p) {
  join(t->vc, syncOf(p).vc);
}
void release(Th* t, const void* p) {
  join(syncOf(p).vc, t->vc);
  ++t->vc[t->id];
}

/// Orders as numbered by the compiler: relaxed, consume, acquire, release, acq_rel, seq_cst
void order(Th* t, const void* p, int o, bool loads, bool stores) {
  const bool acq = o == 1 || o == 2 || o >= 4, rel = o >= 3;
  if (loads) {
    join(acq ? t->vc : t->seen, syncOf(p).vc);
  }
  if (stores && rel) {
    release(t, p);
  } else if (stores) {
    join(syncOf(p).vc, t->fence);
  }
}
void fence(Th* t, int o) {
  if (o == 1 || o == 2 || o >= 4) {
    join(t->vc, t->seen);
  }
  if (o >= 3) {
    std::memcpy(t->fence, t->vc, sizeof t->vc);
    ++t->vc[t->id];
  }
}

void futexWait(volatile int* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
void futexWake(volatile int* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void drawNext(Th* t) {
  if (cur->explicitSchedule) {
    t->nextLocal = ~0ull;
    for (std::size_t i = t->swIdx; i < t->plan.size(); ++i) {
      if (t->plan[i].key % 2 == 0 && t->plan[i].key > 2 * t->localSteps) {
        t->nextLocal = t->plan[i].key / 2;
        break;
      }
    }
    return;
  }
  if (cur->schedGap <= 0 || sh->nsw > 4000) {
    nextSwitch = ~0ull;
    return;
  }
  // Mixture: mostly gaps around schedGap, sometimes bursts
  u64 g = schedRng.chance(1, 4) ? 1 + schedRng.next() % 4 : 1 + schedRng.next() % u64(2 * cur->schedGap);
  nextSwitch = step + g;
}

/// Choice of the replayed schedule at this point of thread t, or -1
int planned(Th* t, u64 key) {
  while (t->swIdx < t->plan.size() && t->plan[t->swIdx].key < key) {
    ++t->swIdx;
  }
  if (t->swIdx < t->plan.size() && t->plan[t->swIdx].key == key) {
    int to = t->plan[t->swIdx++].to;
    if (to != t->id && to >= 0 && to < nth && ths[to].state == Ready) {
      return to;
    }
  }
  return -1;
}

int pickReady(int except) {
  int c[MaxTh], n = 0;
  for (int i = 0; i < nth; ++i) {
    if (i != except && ths[i].state == Ready) {
      c[n++] = i;
    }
  }
  if (!n) {
    return -1;
  }
  return c[schedRng.next() % u64(n)];
}

void record(int from, int to, bool isForced) {
  if (sh->nsw < MaxSwitches) {
    sh->sw[sh->nsw] = {from, 2 * ths[from].localSteps + isForced, to};
    ++sh->nsw;
  }
  u64 v[3] = {u64(from), ths[from].localSteps, u64(to)};
  sh->schedHash = fnv(v, sizeof v, sh->schedHash);
}

void handOver(Th* from, int to, bool wait, bool isForced) {
  record(from->id, to, isForced);
  from->spins = 0;
  futexWake(&ths[to].baton);
  if (wait) {
    futexWait(&from->baton);
  }
}

/// Voluntary preemption point
void preempt(Th* t) {
  const int to = cur->explicitSchedule ? planned(t, 2 * t->localSteps) : pickReady(t->id);
  drawNext(t);
  if (to >= 0) {
    handOver(t, to, true, false);
  }
}

/// The current thread cannot go on
void forced(Th* t, bool wait) {
  int to = -1;
  if (cur->explicitSchedule) {
    to = planned(t, 2 * t->localSteps + 1);
    for (int i = 0; to < 0 && i < nth; ++i) {
      if (i != t->id && ths[i].state == Ready) {
        to = i;
      }
    }
  } else {
    to = pickReady(t->id);
  }
  if (to < 0) {
    bool blocked = false;
    for (int i = 0; i < nth; ++i) {
      blocked |= ths[i].state == Blocked;
    }
    if (blocked) {
      fail("deadlock", "no thread can run");
    }
    return;
  }
  ++sh->forced;
  handOver(t, to, wait, true);
}

/// Somebody else may go on; nothing happens if nobody can
void yieldStep(Th* t) {
  for (int i = 0; multi && i < nth; ++i) {
    if (i != t->id && ths[i].state == Ready) {
      forced(t, true);
      return;
    }
  }
}

void tick(Th* t) {
  ++step;
  if (stepCost) {
    clk.steady += stepCost;
    clk.system += stepCost;
    advanced += stepCost;
  }
  ++t->localSteps;
  if (multi && (step >= nextSwitch || t->localSteps >= t->nextLocal)) {
    preempt(t);
  }
}

void budgetCheck() {
  if (++allSteps > budget) {
    fail("hang", "no progress within the step budget (%llu steps)", (unsigned long long)budgetBase);
  }
}

inline Cell* cellOf(std::uintptr_t p) {
  if (p - ArenaBase < ArenaSize) {
    return arenaCells + (p - ArenaBase);
  }
  if (p - StackBase < MaxTh * StackStride) {
    return stackCells + (p - StackBase);
  }
  if (p >= dataLo && p < dataHi) {
    return dataCells + (p - dataLo);
  }
  return nullptr;
}

/// Text which needs no allocation, as an allocation may be made to fail
struct Where {
  char b[160];
  const char* c_str() const {
    return b;
  }
};

Where where(std::uintptr_t p) {
  Where out;
  auto& b = out.b;
  if (p - ArenaBase < ArenaSize) {
    const Block* k = anyBlockOf((void*)p);
    if (k) {
      std::snprintf(
          b,
          sizeof b,
          "heap block #%llu (size %zu%s) offset %lld",
          (unsigned long long)k->id,
          k->size,
          k->live ? "" : ", freed",
          (long long)(p - k->addr));
    } else {
      std::snprintf(b, sizeof b, "heap address %#lx outside of any block", (unsigned long)p);
    }
  } else if (p - StackBase < MaxTh * StackStride) {
    std::snprintf(b, sizeof b, "stack of thread %d", int((p - StackBase) / StackStride));
  } else {
    std::snprintf(b, sizeof b, "static data %#lx", (unsigned long)p);
  }
  return out;
}

void raceCheck(Th* t, std::uintptr_t p, std::size_t n, bool write, void* pc) {
  Cell* c = cellOf(p);
  if (!c) {
    return;
  }
  const std::uint32_t mine = t->vc[t->id];
  const std::uint32_t epoch = (std::uint32_t(t->id) << 28) | mine;
  for (std::size_t i = 0; i < n; ++i, ++c) {
    if (write) {
      if (c->w == epoch) {
        bool other = false;
        for (int u = 0; u < nth; ++u) {
          other |= u != t->id && c->r[u] > t->vc[u];
        }
        if (!other) {
          continue;
        }
      }
    } else if (c->r[t->id] == mine || c->w == epoch) {
      c->r[t->id] = mine;
      continue;
    }
    const int wt = int(c->w >> 28);
    const std::uint32_t wc = c->w & 0x0fffffff;
    if (wc && wt != t->id && wc > t->vc[wt]) {
      fail("race", "%s by thread %d conflicts with a write by thread %d at %s pc=%p", write ? "write" : "read", t->id, wt, where(p + i).c_str(), pc);
    }
    if (write) {
      for (int u = 0; u < nth; ++u) {
        if (u != t->id && c->r[u] > t->vc[u]) {
          fail("race", "write by thread %d conflicts with a read by thread %d at %s pc=%p", t->id, u, where(p + i).c_str(), pc);
        }
      }
      c->w = epoch;
    } else {
      c->r[t->id] = mine;
    }
  }
}

void liveCheck(Th* t, std::uintptr_t p, std::size_t n, bool write, void* pc) {
  (void)t;
  if (p < 65536 && n) {
    fail("null-access", "%s of %zu bytes near the null pointer pc=%p", write ? "write" : "read", n, pc);
  }
  if (p - ArenaBase >= ArenaSize) {
    if (p < ArenaBase && p + n > ArenaBase) {
      fail("out-of-bounds", "%s of %zu bytes pc=%p", write ? "write" : "read", n, pc);
    }
    return;
  }
  if (n > ArenaSize || p + n > ArenaBase + ArenaSize) {
    fail("out-of-bounds", "%s of %zu bytes from %s pc=%p", write ? "write" : "read", n, where(p).c_str(), pc);
  }
  const std::uint8_t* l = liveShadow + (p - ArenaBase);
  for (std::size_t i = 0; i < n; ++i) {
    if (l[i] != 1) {
      fail(
          l[i] == 2 ? "use-after-free" : "out-of-bounds",
          "%s of %zu bytes at %s pc=%p",
          write ? "write" : "read",
          n,
          where(p + i).c_str(),
          pc);
    }
  }
}

inline void access(const void* ptr, std::size_t n, bool write, void* pc) {
  Th* t = self_;
  if (!t || !t->lib) {
    return;
  }
  budgetCheck();
  const auto p = std::uintptr_t(ptr);
  if (p - t->stackLo < StackSize) {
    return; // Own stack
  }
  tick(t);
  liveCheck(t, p, n, write, pc);
  if (multi) {
    raceCheck(t, p, n, write, pc);
  }
}

void garbageFill(void* p, std::size_t n) {
  auto* b = static_cast<unsigned char*>(p);
  const int mode = int(garbage % 5);
  if (mode == 0) {
    __real_memset(p, 0, n);
  } else if (mode == 1) {
    __real_memset(p, 0xFF, n);
  } else {
    Rng r(garbage ^ (std::uintptr_t(p) * 0x9E3779B97F4A7C15ull));
    std::size_t i = 0;
    if (n > 65536) {
      __real_memset(b + 65536, int(garbage >> 8) & 0xFF, n - 65536);
      n = 65536;
    }
    for (; i + 8 <= n; i += 8) {
      u64 v = r.next();
      if (mode == 2) { // Plausible small doubles/ints
        double d = double(v % 1000) - 500;
        std::memcpy(&v, &d, 8);
      } else if (mode == 3) { // small integers
        v = v % 300;
      }
      __real_memcpy(b + i, &v, 8);
    }
    for (; i < n; ++i) {
      b[i] = (unsigned char)r.next();
    }
  }
}

void* arenaAlloc(std::size_t size, int kind, std::size_t align, std::size_t offset, bool mayFail) {
  Th* t = self_;
  if (mayFail && t) {
    ++sh->allocs;
    const int k = t->allocs++;
    for (int i = 0; i < t->naf; ++i) {
      if (k >= t->af[i].nth && k < t->af[i].nth + t->af[i].count) {
        ++t->fired;
        ++sh->runFaults;
        countFault(kind == 1 ? "alloc_malloc" : "alloc_new");
        return nullptr;
      }
    }
  }
  if (size > (32u << 20) || nblocks >= MaxBlocks) {
    countFault("alloc_too_big");
    return nullptr;
  }
  std::uintptr_t p = bump + 16 + (heapRng.next() % 24) * 16;
  if (heapRng.chance(1, 16)) {
    p += (heapRng.next() % 32) * 64;
  }
  p = (p + align - 1) / align * align + offset;
  if (p + size + 64 > ArenaBase + ArenaSize) {
    countFault("arena_full");
    return nullptr;
  }
  bump = p + size + 16;
  bump = (bump + 15) & ~std::uintptr_t(15);
  blocks[nblocks] = Block {p, size, kind, true, nblocks};
  ++nblocks;
  if (kind != 2) {
    ++nlive;
  }
  __real_memset(liveShadow + (p - ArenaBase), 1, size);
  garbageFill((void*)p, size);
  if (multi && t) {
    raceCheck(t, p, size, true, nullptr);
  }
  return (void*)p;
}

const Block* find(const void* ptr) {
  auto p = std::uintptr_t(ptr);
  std::size_t lo = 0, hi = nblocks;
  while (lo < hi) {
    auto m = (lo + hi) / 2;
    if (blocks[m].addr <= p) {
      lo = m + 1;
    } else {
      hi = m;
    }
  }
  return lo ? &blocks[lo - 1] : nullptr;
}

void arenaFree(void* p, int kind, void* pc) {
  Th* t = self_;
  auto* b = const_cast<Block*>(find(p));
  static const char* fn[] = {"delete", "free", "user release"};
  if (!b || b->addr != std::uintptr_t(p)) {
    fail("bad-free", "%s of a pointer which is not the start of a block: %s pc=%p", fn[kind], where(std::uintptr_t(p)).c_str(), pc);
  }
  if (!b->live) {
    fail("double-free", "%s of %s pc=%p", fn[kind], where(std::uintptr_t(p)).c_str(), pc);
  }
  if (b->kind != kind) {
    fail(
        b->kind == 2 ? "free-user-memory" : "mismatched-free",
        "%s of %s which was obtained by %s pc=%p",
        fn[kind],
        where(std::uintptr_t(p)).c_str(),
        b->kind == 0 ? "new" : b->kind == 1 ? "malloc" : "the user",
        pc);
  }
  if (t && t->lib) {
    tick(t);
    if (!b->live) {
      fail("double-free", "%s of %s pc=%p", fn[kind], where(std::uintptr_t(p)).c_str(), pc);
    }
  }
  if (multi && t) {
    raceCheck(t, b->addr, b->size, true, pc);
  }
  b->live = false;
  if (b->kind != 2) {
    --nlive;
  }
  __real_memset(liveShadow + (b->addr - ArenaBase), 2, b->size);
  garbageFill(p, std::min<std::size_t>(b->size, 4096));
}

void onSignal(int sig, siginfo_t* si, void*) {
  const char* n = sig == SIGSEGV ? "SEGV" : sig == SIGBUS ? "BUS" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL" : "ABRT";
  auto a = std::uintptr_t(si->si_addr);
  bool nearNull = a < 65536;
  if (sh->status == 0) {
    sh->status = 2;
    std::snprintf(sh->cls, sizeof sh->cls, "signal-%s", n);
    std::snprintf(sh->msg, sizeof sh->msg, "the process received SIG%s%s", n, sig == SIGSEGV && nearNull ? " (null pointer)" : "");
  }
  _exit(3);
}

void onTerminate() {
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (const std::exception& x) {
      what = std::string("uncaught exception: ") + x.what();
    } catch (...) {
      what = "uncaught exception";
    }
  }
  fail("terminate", "%s", what.c_str());
}

void* threadMain(void* arg) {
  Th* t = static_cast<Th*>(arg);
  self_ = t;
  stack_t ss {};
  ss.ss_sp = __real_malloc(65536);
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  if (t->id != 0) {
    futexWait(&t->baton);
  }
  (*t->body)();
  return nullptr;
}

void startThread(int id, std::function<void()>* body, pthread_t* out) {
  Th& t = ths[id];
  t.id = id;
  t.lib = 0;
  t.state = Ready;
  t.baton = 0;
  t.body = body;
  t.nexits = 0;
  t.naf = 0;
  t.fired = 0;
  t.allocs = 0;
  t.nextLocal = ~0ull;
  t.swIdx = 0;
  t.plan.clear();
  for (auto& w : cur->switches) {
    if (w.from == id && cur->explicitSchedule) {
      t.plan.push_back(w);
    }
  }
  std::stable_sort(t.plan.begin(), t.plan.end(), [](const Switch& a, const Switch& b) {
    return a.key < b.key;
  });
  t.stackLo = StackBase + id * StackStride;
  t.stackHi = t.stackLo + StackSize;
  garbageFill((void*)(t.stackHi - 65536 - 8192), 65536);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)t.stackLo, StackSize);
  if (pthread_create(out, &at, threadMain, &t)) {
    fail("harness", "cannot create a thread");
  }
  pthread_attr_destroy(&at);
}

} // namespace

// --- Interface

u64 fnv(const void* p, std::size_t n, u64 h) {
  auto* b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ b[i]) * 1099511628211ull;
  }
  return h;
}

void registerProperty(const Property& p) {
  props().push_back(p);
}

Lib::Lib() {
  if (self_) {
    ++self_->lib;
  }
}
Lib::~Lib() {
  if (self_) {
    --self_->lib;
  }
}
Pause::Pause() : saved(self_ ? self_->lib : 0) {
  if (self_) {
    self_->lib = 0;
  }
}
Pause::~Pause() {
  if (self_) {
    self_->lib = saved;
  }
}

int self() {
  return self_ ? self_->id : -1;
}

void yieldPoint() {
  if (self_) {
    tick(self_);
  }
}

void runClients(int n, const std::function<void(int)>& body) {
  Th* m = self_;
  if (n > MaxTh - 1) {
    fail("harness", "too many clients");
  }
  const int savedLib = m->lib;
  m->lib = 0;
  std::vector<std::function<void()>> bodies(n);
  std::vector<pthread_t> pt(n);
  for (int i = 0; i < n; ++i) {
    Th& t = ths[i + 1];
    __real_memset(t.vc, 0, sizeof t.vc);
    __real_memset(t.seen, 0, sizeof t.seen);
    __real_memset(t.fence, 0, sizeof t.fence);
    t.spins = 0;
    __real_memcpy(t.vc, m->vc, sizeof t.vc);
    t.vc[i + 1] += 1;
  }
  ++m->vc[0];
  for (int i = 0; i < n; ++i) {
    bodies[i] = [i, n, m, &body] {
      Th* t = self_;
      body(i);
      t->lib = 1;
      while (t->nexits) { // Thread-local objects of the library
        --t->nexits;
        t->exits[t->nexits].run(t->exits[t->nexits].object);
      }
      t->lib = 0;
      t->state = Done;
      bool last = true;
      for (int j = 1; j <= n; ++j) {
        last &= ths[j].state == Done;
      }
      if (last) {
        multi = false;
        futexWake(&m->baton);
      } else {
        forced(t, false);
      }
    };
    startThread(i + 1, &bodies[i], &pt[i]);
  }
  nth = n + 1;
  multi = n > 1;
  const State ms = m->state;
  m->state = Done; // Not schedulable
  for (int i = 0; i <= n; ++i) {
    drawNext(&ths[i]);
  }
  // First thread to run
  int first = 1;
  if (n > 1) {
    if (cur->explicitSchedule) {
      first = std::max(1, planned(m, 2 * m->localSteps + 1));
    } else {
      first = 1 + int(schedRng.next() % u64(n));
    }
    record(0, first, true);
  }
  futexWake(&ths[first].baton);
  futexWait(&m->baton);
  for (int i = 0; i < n; ++i) {
    pthread_join(pt[i], nullptr);
    join(m->vc, ths[i + 1].vc);
    ths[i + 1].state = Unused;
  }
  ++m->vc[0];
  m->state = ms;
  m->lib = savedLib;
  nextSwitch = ~0ull;
  nth = 1;
}

void opBegin(const Scenario& s, int client, int op) {
  Th* t = self_;
  t->opClient = client;
  t->opIndex = op;
  t->allocs = 0;
  t->fired = 0;
  t->naf = 0;
  ++sh->ops;
  budget = allSteps + budgetBase;
  for (auto& f : s.faults) {
    if (f.kind == "alloc" && f.arg(0) == client && f.arg(1) == op && t->naf < 8) {
      t->af[t->naf].nth = f.arg(2);
      t->af[t->naf].count = std::max<i64>(1, f.arg(3, 1));
      ++t->naf;
    }
  }
}
int opEnd() {
  Th* t = self_;
  t->naf = 0;
  return t->fired;
}
int opAllocs() {
  return self_->allocs;
}

void fail(const char* cls, const char* fmt, ...) {
  if (self_) {
    self_->lib = 0;
  }
  if (sh && sh->status == 0) {
    sh->status = 2;
    std::snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(sh->msg, sizeof sh->msg - 100, fmt, ap);
    va_end(ap);
    if (self_ && self_->opIndex >= 0 && n >= 0 && n < int(sizeof sh->msg) - 200) {
      std::snprintf(sh->msg + n, 100, " [client %d op %d]", self_->opClient, self_->opIndex);
    }
    sh->steps = step;
    sh->allSteps = allSteps;
    sh->simNs = advanced;
  }
  _exit(3);
}
void check(bool ok, const char* cls, const char* fmt, ...) {
  if (ok) {
    return;
  }
  char b[3000];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fail(cls, "%s", b);
}
static void bumpCounter(Counter* c, int& n, int max, const char* name) {
  for (int i = 0; i < n; ++i) {
    if (!std::strncmp(c[i].name, name, sizeof c[i].name - 1)) {
      ++c[i].n;
      return;
    }
  }
  if (n < max) {
    std::snprintf(c[n].name, sizeof c[n].name, "%s", name);
    c[n].n = 1;
    ++n;
  }
}
void probe(const char* name) {
  bumpCounter(sh->probes, sh->nprobes, 400, name);
}
void countFault(const char* kind) {
  bumpCounter(sh->faults, sh->nfaults, 64, kind);
}
void noteFault() {
  ++sh->runFaults;
}
// Progress of a forked incarnation, see simdisk.cpp
void saveProgress() {
  sh->saved.step = step;
  sh->saved.all = allSteps;
  sh->saved.advanced = advanced;
  sh->saved.clk = clk;
  for (int i = 0; i < MaxTh; ++i) {
    sh->saved.local[i] = ths[i].localSteps;
  }
  sh->saved.rng = schedRng.s;
}
void restoreProgress() {
  step = sh->saved.step;
  allSteps = sh->saved.all;
  advanced = sh->saved.advanced;
  clk = sh->saved.clk;
  for (int i = 0; i < MaxTh; ++i) {
    ths[i].localSteps = sh->saved.local[i];
  }
  schedRng.s = sh->saved.rng;
}
void armAlarm(int s) {
  alarm(s);
}
void trace(const char* fmt, ...) {
  if (!verbose_) {
    return;
  }
  const int room = int(sizeof sh->traceBuf) - sh->ntrace;
  if (room < 300) {
    return;
  }
  int n = std::snprintf(sh->traceBuf + sh->ntrace, 60, "[%llu t%d] ", (unsigned long long)step, self());
  va_list ap;
  va_start(ap, fmt);
  n += std::vsnprintf(sh->traceBuf + sh->ntrace + n, 230, fmt, ap);
  va_end(ap);
  n = std::min(n, 289);
  sh->traceBuf[sh->ntrace + n] = '\n';
  sh->ntrace += n + 1;
}
void mix(u64 v) {
  sh->hash = fnv(&v, sizeof v, sh->hash);
}
void mixDouble(double v) {
  u64 u;
  std::memcpy(&u, &v, 8);
  mix(v != v ? 0x7ff8000000000000ull : u);
}
void mixBytes(const void* p, std::size_t n) {
  sh->hash = fnv(p, n, sh->hash);
}

bool isArena(const void* p) {
  return std::uintptr_t(p) - ArenaBase < ArenaSize;
}
const Block* anyBlockOf(const void* p) {
  const Block* b = find(p);
  return b && std::uintptr_t(p) <= b->addr + b->size ? b : nullptr;
}
const Block* blockOf(const void* p) {
  const Block* b = find(p);
  return b && b->live && std::uintptr_t(p) - b->addr < std::max<std::size_t>(b->size, 1) ? b : nullptr;
}
std::size_t liveBlocks() {
  return nlive;
}
void checkNoLeak(const char* what) {
  if (!nlive) {
    return;
  }
  // Blocks reachable from static variables are caches, not leaks
  std::vector<std::size_t> todo;
  std::vector<char> seen(nblocks, 0);
  auto scan = [&](std::uintptr_t lo, std::uintptr_t hi) {
    for (lo = (lo + 7) & ~std::uintptr_t(7); lo + 8 <= hi; lo += 8) {
      auto v = *(const std::uintptr_t*)lo;
      if (v - ArenaBase < ArenaSize) {
        const Block* b = find((void*)v);
        if (b && b->live && v <= b->addr + b->size && !seen[b->id]) {
          seen[b->id] = 1;
          todo.push_back(b->id);
        }
      }
    }
  };
  scan(dataLo, dataHi);
  std::uintptr_t tp;
  __asm__("mov %%fs:0, %0" : "=r"(tp));
  scan(std::uintptr_t(&self_) - 256, tp); // Thread-local caches of the main thread
  while (!todo.empty()) {
    auto i = todo.back();
    todo.pop_back();
    scan(blocks[i].addr, blocks[i].addr + blocks[i].size);
  }
  for (std::size_t i = 0; i < nblocks; ++i) {
    if (blocks[i].live && blocks[i].kind != 2 && !seen[i]) {
      fail("leak", "%s: heap block #%zu of %zu bytes (%s) is never freed", what, i, blocks[i].size, blocks[i].kind ? "malloc" : "new");
    }
  }
}
void* userAlloc(std::size_t size, std::size_t align, std::size_t offset) {
  void* p = arenaAlloc(size, 2, std::max<std::size_t>(align, 1), offset, false);
  if (!p) {
    fail("harness", "simulated heap exhausted");
  }
  return p;
}
void userFree(void* p) {
  arenaFree(p, 2, RET());
}
u64 garbageSeed() {
  return garbage;
}
void noteRange(const void* p, std::size_t n, bool write) {
  access(p, n, write, RET());
}

Clock& simClock() {
  return clk;
}
void advance(i64 ns) {
  clk.steady += ns;
  clk.system += ns;
  advanced += ns;
}
void jump(i64 ns) {
  clk.system += ns;
  countFault(ns < 0 ? "clock_jump_back" : "clock_jump_forward");
  ++sh->runFaults;
}
void clockRead() {
  const i64 n = i64(nclock++);
  if (cur) {
    for (auto& f : cur->faults) {
      if (f.kind == "clockjump" && f.arg(0) == n) {
        jump(f.arg(1));
      }
    }
  }
}
void setStepCost(i64 ns) {
  stepCost = ns;
}
u64 clockReads() {
  return nclock;
}
u64 steps() {
  return step;
}
int switchesDone() {
  return sh->nsw;
}
bool verbose() {
  return verbose_;
}
void setBudget(u64 s) {
  budgetBase = s;
  budget = allSteps + s;
}

// --- Scenario text

std::string Scenario::text() const {
  std::ostringstream o;
  o << "scenario " << prop << "\nseed " << seed << "\n";
  for (auto& p : params) {
    o << "param " << p.first;
    for (auto v : p.second) {
      o << ' ' << v;
    }
    o << '\n';
  }
  for (std::size_t c = 0; c < clients.size(); ++c) {
    o << "client " << c << '\n';
    for (auto& op : clients[c]) {
      o << "op " << op.name;
      for (auto v : op.a) {
        o << ' ' << v;
      }
      o << '\n';
    }
  }
  for (auto& f : faults) {
    o << "fault " << f.kind;
    for (auto v : f.a) {
      o << ' ' << v;
    }
    o << '\n';
  }
  if (explicitSchedule) {
    o << "sched explicit\n";
    for (auto& s : switches) {
      o << "switch " << s.from << ' ' << s.key << ' ' << s.to << '\n';
    }
  } else {
    o << "sched random " << schedSeed << ' ' << schedGap << '\n';
  }
  return o.str();
}

Scenario Scenario::parse(const std::string& text) {
  Scenario s;
  std::istringstream in(text);
  std::string line;
  int client = -1;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    if (!(l >> k) || k[0] == '#') {
      continue;
    }
    auto ints = [&] {
      std::vector<i64> v;
      i64 x;
      while (l >> x) {
        v.push_back(x);
      }
      return v;
    };
    if (k == "scenario") {
      l >> s.prop;
    } else if (k == "seed") {
      l >> s.seed;
    } else if (k == "param") {
      std::string n;
      l >> n;
      s.params[n] = ints();
    } else if (k == "client") {
      l >> client;
      if (int(s.clients.size()) <= client) {
        s.clients.resize(client + 1);
      }
    } else if (k == "op") {
      std::string n;
      l >> n;
      if (client < 0) {
        client = 0;
        s.clients.resize(1);
      }
      s.clients[client].push_back({n, ints()});
    } else if (k == "fault") {
      std::string n;
      l >> n;
      s.faults.push_back({n, ints()});
    } else if (k == "sched") {
      std::string n;
      l >> n;
      if (n == "explicit") {
        s.explicitSchedule = true;
      } else {
        l >> s.schedSeed >> s.schedGap;
      }
    } else if (k == "switch") {
      Switch w;
      l >> w.from >> w.key >> w.to;
      s.switches.push_back(w);
    }
  }
  return s;
}

// --- Driver

namespace {

void initMaps() {
  auto map = [](void* at, std::size_t n) {
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
    if (p == MAP_FAILED) {
      std::perror("mmap");
      std::exit(2);
    }
    return p;
  };
  map((void*)ArenaBase, ArenaSize);
  for (int i = 0; i < MaxTh; ++i) {
    map((void*)(StackBase + i * StackStride), StackSize);
  }
  liveShadow = (std::uint8_t*)map(nullptr, ArenaSize);
  arenaCells = (Cell*)map(nullptr, ArenaSize * sizeof(Cell));
  stackCells = (Cell*)map(nullptr, MaxTh * StackStride * sizeof(Cell));
  dataLo = std::uintptr_t(&__data_start);
  dataHi = std::uintptr_t(&_end);
  dataCells = (Cell*)map(nullptr, (dataHi - dataLo) * sizeof(Cell));
  syncs = (SyncVar*)map(nullptr, MaxSyncs * sizeof(SyncVar));
  blocks = (Block*)map(nullptr, MaxBlocks * sizeof(Block));
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) {
    std::perror("mmap");
    std::exit(2);
  }
}

const Property* findProp(const std::string& id) {
  for (auto& p : props()) {
    if (id == p.id) {
      return &p;
    }
  }
  return nullptr;
}

u64 seedOf(const std::string& prop, u64 seed, u64 i) {
  u64 h = fnv(prop.data(), prop.size());
  h = fnv(&seed, 8, h);
  h = fnv(&i, 8, h);
  return Rng(h).next();
}

Scenario makeScenario(const Property& p, u64 seed, u64 i, int tier) {
  Scenario s;
  s.prop = p.id;
  s.seed = seedOf(p.id, seed, i);
  Rng r(s.seed);
  s.set("heap", {i64(r.next() & 0x7fffffff)});
  s.schedSeed = r.next() >> 1;
  static const i64 gaps[] = {0, 2, 5, 10, 20, 50, 100, 300, 1000, 5000};
  s.schedGap = gaps[r.next() % 10];
  p.generate(s, r, tier);
  if (std::strncmp(p.id, "C0", 2) || p.id[2] > '3') { // FITS histories have several objects already
    if (r.chance(1, 3)) {
      s.set("before", {i64(r.next() & 0x7fffffff)});
    }
  }
  return s;
}

/// Another scenario without faults, run before in the same process: it must not matter.
void runBefore(const Property& p, const Scenario& s, u64 seed) {
  static const char* const instance[] = {"kind", "type", "unit", "graph", "dim"};
  Scenario w;
  Rng r(seed);
  bool same = false;
  for (int i = 0; i < 30 && !same; ++i) {
    w = {};
    w.prop = p.id;
    w.seed = seed;
    w.set("heap", {i64(r.next() & 0x7fffffff)});
    p.generate(w, r, 0);
    same = true;
    for (auto k : instance) {
      same = same && (seed % 4 == 0 || w.param(k) == s.param(k));
    }
  }
  for (auto k : instance) { // Most often, the same types
    if (!same && s.params.count(k)) {
      w.set(k, s.params.at(k));
    }
  }
  w.faults.clear();
  for (auto& c : w.clients) {
    if (c.size() > 6) {
      c.resize(6);
    }
  }
  p.execute(w);
  probe("another scenario before");
}

/// In the child: execute and exit.
[[noreturn]] void childRun(const Property& p, const Scenario& s) {
  cur = &s;
  schedRng = Rng(s.schedSeed);
  u64 heap = u64(s.param("heap", 1));
  heapRng = Rng(heap);
  garbage = Rng(heap ^ 0xABCDEF).next();
  clk.steady += i64(heap % 1000000007ull) * 1000;
  clk.system += i64(heap % 998244353ull) * 1000000;
  sh->hash = 1469598103934665603ull;
  sh->schedHash = 1469598103934665603ull;
  struct sigaction sa {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    sigaction(g, &sa, nullptr);
  }
  std::set_terminate(onTerminate);
  nth = 1;
  __real_memset(ths[0].vc, 0, sizeof ths[0].vc);
  ths[0].vc[0] = 1;
  for (auto& t : ths) {
    t.opIndex = -1;
  }
  std::function<void()> body = [&] {
    if (s.param("before") > 0) {
      runBefore(p, s, u64(s.param("before")));
    }
    p.execute(s);
    sh->steps = step;
    sh->allSteps = allSteps;
    sh->simNs = advanced;
    if (sh->status == 0) {
      sh->status = 1;
    }
    _exit(0);
  };
  pthread_t t;
  startThread(0, &body, &t);
  pthread_join(t, nullptr);
  _exit(4);
}

void resetShared() {
  const auto sw = offsetof(Shared, sw);
  std::memset((void*)sh, 0, sw);
  sh->nprobes = 0;
  sh->nfaults = 0;
  sh->runFaults = 0;
  sh->ntrace = 0;
}

/// Returns true if the run ended without violation
bool runOne(const Property& p, const std::function<Scenario()>& make, int wallLimit) {
  resetShared();
  pid_t pid = fork();
  if (pid < 0) {
    std::perror("fork");
    std::exit(2);
  }
  if (pid == 0) {
    alarm(wallLimit);
    static Scenario s;
    s = make();
    const auto txt = s.text();
    sh->scnHash = fnv(txt.data(), txt.size());
    childRun(p, s);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    return true;
  }
  if (sh->status != 2) {
    sh->status = 2;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
      std::snprintf(sh->cls, sizeof sh->cls, "hang-wall");
      std::snprintf(sh->msg, sizeof sh->msg, "the run did not end within %d s", wallLimit);
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      std::fprintf(stderr, "run killed\n");
      std::exit(2);
    } else {
      std::snprintf(sh->cls, sizeof sh->cls, "died");
      std::snprintf(sh->msg, sizeof sh->msg, "the process ended abnormally (status %#x)", st);
    }
  }
  return false;
}

void dumpCounters(FILE* f, const char* key, const std::map<std::string, u64>& m) {
  std::fprintf(f, "\"%s\":{", key);
  bool first = true;
  for (auto& e : m) {
    std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", e.first.c_str(), (unsigned long long)e.second);
    first = false;
  }
  std::fprintf(f, "}");
}

std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if ((unsigned char)c < 32) {
      o += ' ';
    } else {
      o += c;
    }
  }
  return o + "\"";
}

double wall() {
  timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

} // namespace
} // namespace sim

using namespace sim;

/// sim run PROP SEED FIRST STRIDE MAXRUNS SECONDS TIER OUTPREFIX
/// sim exec FILE [-v]
/// sim gen PROP SEED INDEX TIER
int main(int argc, char** argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  initMaps();
  if (mode == "gen" && argc >= 6) {
    auto* p = findProp(argv[2]);
    std::fputs(makeScenario(*p, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5])).text().c_str(), stdout);
    return 0;
  }
  if (mode == "exec" && argc >= 3) {
    FILE* f = std::fopen(argv[2], "r");
    if (!f) {
      std::perror(argv[2]);
      return 2;
    }
    std::string txt;
    char b[4096];
    std::size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0) {
      txt.append(b, n);
    }
    std::fclose(f);
    auto s = Scenario::parse(txt);
    auto* p = findProp(s.prop);
    if (!p) {
      std::fprintf(stderr, "unknown property %s\n", s.prop.c_str());
      return 2;
    }
    verbose_ = argc >= 4 && !std::strcmp(argv[3], "-v");
    bool ok = runOne(*p, [&] { return s; }, 60);
    if (verbose_) {
      fwrite(sh->traceBuf, 1, sh->ntrace, stderr);
    }
    std::printf(
        "{\"ok\":%s,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"nswitch\":%d,\"ops\":%d,"
        "\"switches\":[",
        ok ? "true" : "false",
        jsonStr(sh->cls).c_str(),
        jsonStr(sh->msg).c_str(),
        (unsigned long long)sh->hash,
        (unsigned long long)sh->schedHash,
        (unsigned long long)sh->steps,
        sh->nsw,
        sh->ops);
    for (int i = 0; i < sh->nsw; ++i) {
      std::printf("%s[%d,%llu,%d]", i ? "," : "", sh->sw[i].from, (unsigned long long)sh->sw[i].key, sh->sw[i].to);
    }
    std::printf("]}\n");
    return ok ? 0 : 1;
  }
  if (mode == "run" && argc >= 10) {
    auto* p = findProp(argv[2]);
    if (!p) {
      std::fprintf(stderr, "unknown property %s\n", argv[2]);
      return 2;
    }
    const u64 seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
              maxRuns = strtoull(argv[6], 0, 10);
    const double seconds = atof(argv[7]);
    const int tier = atoi(argv[8]);
    const std::string out = argv[9];
    {
      cpu_set_t cs;
      if (!sched_getaffinity(0, sizeof cs, &cs)) {
        int n = CPU_COUNT(&cs), k = int(first % u64(std::max(n, 1)));
        for (int c = 0; c < CPU_SETSIZE; ++c) {
          if (CPU_ISSET(c, &cs) && k-- == 0) {
            cpu_set_t one;
            CPU_ZERO(&one);
            CPU_SET(c, &one);
            sched_setaffinity(0, sizeof one, &one);
            break;
          }
        }
      }
    }
    const double t0 = wall();
    u64 runs = 0, i = first, steps = 0, switches = 0, ops = 0, allocs = 0, faulted = 0, switched = 0, maxSteps = 0;
    double simS = 0;
    std::map<std::string, u64> probes, faults;
    FILE* hf = std::fopen((out + ".hashes").c_str(), "wb");
    bool violated = false;
    while (runs < maxRuns && wall() - t0 < seconds) {
      bool ok = runOne(*p, [&] { return makeScenario(*p, seed, i, tier); }, 60);
      ++runs;
      steps += sh->steps;
      maxSteps = std::max(maxSteps, sh->allSteps);
      switches += u64(sh->nsw);
      ops += u64(sh->ops);
      allocs += sh->allocs;
      simS += double(sh->simNs) * 1e-9;
      faulted += sh->runFaults > 0;
      switched += sh->nsw > 1;
      for (int k = 0; k < sh->nprobes; ++k) {
        probes[sh->probes[k].name] += sh->probes[k].n;
      }
      for (int k = 0; k < sh->nfaults; ++k) {
        faults[sh->faults[k].name] += sh->faults[k].n;
      }
      u64 rec[5] = {
          sh->scnHash,
          sh->schedHash,
          sh->hash,
          u64(sh->runFaults > 0) | u64(sh->nsw > 1) << 1 | u64(std::min(sh->ops, 255)) << 8,
          i};
      fwrite(rec, sizeof rec, 1, hf);
      if (!ok) {
        violated = true;
        auto s = makeScenario(*p, seed, i, tier);
        s.explicitSchedule = true;
        s.switches.assign(sh->sw, sh->sw + sh->nsw);
        FILE* f = std::fopen((out + ".scn").c_str(), "w");
        std::fputs(s.text().c_str(), f);
        std::fclose(f);
        break;
      }
      i += stride;
    }
    std::fclose(hf);
    FILE* f = std::fopen((out + ".json").c_str(), "w");
    std::fprintf(
        f,
        "{\"runs\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"switches\":%llu,\"ops\":%llu,\"allocs\":%llu,\"faulted_runs\":%llu,"
        "\"switched_runs\":%llu,\"sim_seconds\":%.9g,\"wall\":%.3f,",
        (unsigned long long)runs,
        (unsigned long long)steps,
        (unsigned long long)maxSteps,
        (unsigned long long)switches,
        (unsigned long long)ops,
        (unsigned long long)allocs,
        (unsigned long long)faulted,
        (unsigned long long)switched,
        simS,
        wall() - t0);
    dumpCounters(f, "probes", probes);
    std::fprintf(f, ",");
    dumpCounters(f, "faults", faults);
    std::fprintf(
        f,
        ",\"violated\":%s,\"index\":%llu,\"class\":%s,\"msg\":%s}\n",
        violated ? "true" : "false",
        (unsigned long long)i,
        jsonStr(violated ? sh->cls : "").c_str(),
        jsonStr(violated ? sh->msg : "").c_str());
    std::fclose(f);
    return violated ? 1 : 0;
  }
  std::fprintf(stderr, "usage\n");
  return 2;
}

// --- Allocation seam

static inline bool inLib() {
  return self_ && self_->lib;
}

static void* newImpl(std::size_t n) {
  if (inLib()) {
    tick(self_);
    return arenaAlloc(n, 0, 16, 0, true);
  }
  return __real_malloc(n ? n : 1);
}
static void deleteImpl(void* p, void* pc) {
  if (!p) {
    return;
  }
  if (isArena(p)) {
    arenaFree(p, 0, pc);
  } else {
    __real_free(p);
  }
}

void* operator new(std::size_t n) {
  void* p = newImpl(n);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new[](std::size_t n) {
  void* p = newImpl(n);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return newImpl(n);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return newImpl(n);
}
void operator delete(void* p) noexcept {
  deleteImpl(p, RET());
}
void operator delete[](void* p) noexcept {
  deleteImpl(p, RET());
}
void operator delete(void* p, std::size_t) noexcept {
  deleteImpl(p, RET());
}
void operator delete[](void* p, std::size_t) noexcept {
  deleteImpl(p, RET());
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
  deleteImpl(p, RET());
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  deleteImpl(p, RET());
}

extern "C" {

void* __wrap_malloc(std::size_t n) {
  if (inLib()) {
    tick(self_);
    void* p = arenaAlloc(n, 1, 16, 0, true);
    if (!p) {
      errno = ENOMEM;
    }
    return p;
  }
  return __real_malloc(n);
}
void __wrap_free(void* p) {
  if (p && isArena(p)) {
    arenaFree(p, 1, RET());
  } else {
    __real_free(p);
  }
}
void* __wrap_calloc(std::size_t a, std::size_t b) {
  if (inLib()) {
    void* p = a && b > (std::size_t(-1) / a) ? nullptr : __wrap_malloc(a * b);
    if (p) {
      __real_memset(p, 0, a * b);
    }
    return p;
  }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* p, std::size_t n) {
  if ((p && isArena(p)) || inLib()) {
    if (!p) {
      return __wrap_malloc(n);
    }
    if (!isArena(p)) {
      return __real_realloc(p, n);
    }
    const Block* b = find(p);
    if (!b || b->addr != std::uintptr_t(p) || !b->live || b->kind != 1) {
      arenaFree(p, 1, RET()); // Reports
    }
    void* q = __wrap_malloc(n);
    if (q) {
      __real_memcpy(q, p, std::min(n, b->size));
      arenaFree(p, 1, RET());
    }
    return q;
  }
  return __real_realloc(p, n);
}
void* __wrap_aligned_alloc(std::size_t a, std::size_t n) {
  if (inLib()) {
    tick(self_);
    return arenaAlloc(n, 1, std::max<std::size_t>(a, 16), 0, true);
  }
  return __real_malloc(n);
}
int __wrap_posix_memalign(void** out, std::size_t a, std::size_t n) {
  if (inLib()) {
    tick(self_);
    void* p = arenaAlloc(n, 1, std::max<std::size_t>(a, 16), 0, true);
    if (!p) {
      return ENOMEM;
    }
    *out = p;
    return 0;
  }
  *out = __real_malloc(n);
  return *out ? 0 : ENOMEM;
}

// --- Bulk memory functions

void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
  if (inLib() && n) {
    access(s, n, false, RET());
    access(d, n, true, RET());
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
  if (inLib() && n) {
    access(s, n, false, RET());
    access(d, n, true, RET());
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n) {
  if (inLib() && n) {
    access(d, n, true, RET());
  }
  return __real_memset(d, c, n);
}

// --- Instrumentation entry points (g++ -fsanitize=thread, linked without libtsan)

void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (inLib()) {
    budgetCheck();
  }
}
void __tsan_func_exit() {}
void __tsan_read1(void* p) {
  access(p, 1, false, RET());
}
void __tsan_read2(void* p) {
  access(p, 2, false, RET());
}
void __tsan_read4(void* p) {
  access(p, 4, false, RET());
}
void __tsan_read8(void* p) {
  access(p, 8, false, RET());
}
void __tsan_read16(void* p) {
  access(p, 16, false, RET());
}
void __tsan_write1(void* p) {
  access(p, 1, true, RET());
}
void __tsan_write2(void* p) {
  access(p, 2, true, RET());
}
void __tsan_write4(void* p) {
  access(p, 4, true, RET());
}
void __tsan_write8(void* p) {
  access(p, 8, true, RET());
}
void __tsan_write16(void* p) {
  access(p, 16, true, RET());
}
void __tsan_unaligned_read2(void* p) {
  access(p, 2, false, RET());
}
void __tsan_unaligned_read4(void* p) {
  access(p, 4, false, RET());
}
void __tsan_unaligned_read8(void* p) {
  access(p, 8, false, RET());
}
void __tsan_unaligned_read16(void* p) {
  access(p, 16, false, RET());
}
void __tsan_unaligned_write2(void* p) {
  access(p, 2, true, RET());
}
void __tsan_unaligned_write4(void* p) {
  access(p, 4, true, RET());
}
void __tsan_unaligned_write8(void* p) {
  access(p, 8, true, RET());
}
void __tsan_unaligned_write16(void* p) {
  access(p, 16, true, RET());
}
void __tsan_read_range(void* p, std::size_t n) {
  access(p, n, false, RET());
}
void __tsan_write_range(void* p, std::size_t n) {
  access(p, n, true, RET());
}
void __tsan_vptr_update(void** p, void*) {
  access(p, 8, true, RET());
}
void __tsan_vptr_read(void** p) {
  access(p, 8, false, RET());
}

} // extern "C"

namespace {
void atomicAccess(const volatile void* p, std::size_t n, int o, bool loads, bool stores, void* pc) {
  Th* t = self_;
  if (!t || !t->lib) {
    return;
  }
  budgetCheck();
  tick(t);
  if (++t->spins >= 64) { // As in a spin lock
    t->spins = 0;
    yieldStep(t);
  }
  liveCheck(t, std::uintptr_t(p), n, false, pc);
  if (multi) {
    order(t, (const void*)p, o, loads, stores);
  }
}
} // namespace

extern "C" {
#define SIM_RMW(BITS, T, NAME) \
  T __tsan_atomic##BITS##_##NAME(volatile T* a, T v, int o) { \
    atomicAccess(a, sizeof(T), o, true, true, RET()); \
    return __atomic_##NAME(a, v, __ATOMIC_SEQ_CST); \
  }
#define SIM_ATOMIC(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* a, int o) { \
    atomicAccess(a, sizeof(T), o, true, false, RET()); \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int o) { \
    atomicAccess(a, sizeof(T), o, false, true, RET()); \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int o) { \
    atomicAccess(a, sizeof(T), o, true, true, RET()); \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  SIM_RMW(BITS, T, fetch_add) \
  SIM_RMW(BITS, T, fetch_sub) \
  SIM_RMW(BITS, T, fetch_and) \
  SIM_RMW(BITS, T, fetch_or) \
  SIM_RMW(BITS, T, fetch_xor) \
  SIM_RMW(BITS, T, fetch_nand) \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int) { \
    atomicAccess(a, sizeof(T), o, true, true, RET()); \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int) { \
    atomicAccess(a, sizeof(T), o, true, true, RET()); \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }
SIM_ATOMIC(8, std::uint8_t)
SIM_ATOMIC(16, std::uint16_t)
SIM_ATOMIC(32, std::uint32_t)
SIM_ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int o) {
  Th* t = self_;
  if (t && t->lib) {
    tick(t);
    fence(t, o);
  }
}
void __tsan_atomic_signal_fence(int) {}

// --- Synchronisation seam

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)());

static void wakeWaiters(const void* p) {
  for (int i = 0; i < nth; ++i) {
    if (ths[i].state == Blocked && ths[i].waitOn == p) {
      ths[i].state = Ready;
    }
  }
}
static void blockOn(Th* t, const void* p) {
  t->waitOn = p; // Cleared below
  t->state = Blocked;
  if (!multi) {
    fail("deadlock", "the only thread blocks on a lock");
  }
  forced(t, true);
  t->waitOn = nullptr;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_mutex_lock(m);
  }
  tick(t);
  while (syncOf(m).owner >= 0) {
    if (syncOf(m).owner == t->id) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        ++syncOf(m).depth;
        return 0;
      }
      fail("deadlock", "a thread locks a mutex it holds");
    }
    blockOn(t, m);
  }
  syncOf(m).owner = t->id;
  syncOf(m).depth = 1;
  acquire(t, m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_mutex_trylock(m);
  }
  tick(t);
  if (syncOf(m).owner == t->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++syncOf(m).depth;
    return 0;
  }
  if (syncOf(m).owner >= 0) {
    if (++t->spins >= 16) {
      t->spins = 0;
      yieldStep(t);
    }
    return EBUSY;
  }
  syncOf(m).owner = t->id;
  syncOf(m).depth = 1;
  acquire(t, m);
  return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
// The depth counts the readers; what they release is kept apart, for the next writer only
static bool tryRead(Th* t, pthread_rwlock_t* l) {
  auto& s = syncOf(l);
  if (s.owner >= 0) {
    return false;
  }
  ++s.depth;
  acquire(t, l);
  return true;
}
static bool tryWrite(Th* t, pthread_rwlock_t* l) {
  auto& s = syncOf(l);
  if (s.owner >= 0 || s.depth > 0) {
    return false;
  }
  s.owner = t->id;
  acquire(t, l);
  acquire(t, (char*)l + 1);
  return true;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_rwlock_rdlock(l);
  }
  tick(t);
  while (!tryRead(t, l)) {
    if (syncOf(l).owner == t->id) {
      fail("deadlock", "a thread locks a mutex it holds");
    }
    blockOn(t, l);
  }
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_rwlock_tryrdlock(l);
  }
  tick(t);
  return tryRead(t, l) ? 0 : EBUSY;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_rwlock_wrlock(l);
  }
  tick(t);
  while (!tryWrite(t, l)) {
    if (syncOf(l).owner == t->id) {
      fail("deadlock", "a thread locks a mutex it holds");
    }
    blockOn(t, l);
  }
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_rwlock_trywrlock(l);
  }
  tick(t);
  return tryWrite(t, l) ? 0 : EBUSY;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_rwlock_unlock(l);
  }
  auto& s = syncOf(l);
  if (s.owner == t->id) {
    s.owner = -1;
    release(t, l);
  } else if (s.owner >= 0 || s.depth == 0) {
    fail("bad-unlock", "a thread unlocks a mutex it does not hold");
  } else {
    --s.depth;
    release(t, (char*)l + 1);
  }
  wakeWaiters(l);
  tick(t);
  return 0;
}
int __real_sched_yield();
int __wrap_sched_yield() {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_sched_yield();
  }
  tick(t);
  yieldStep(t);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_mutex_unlock(m);
  }
  auto& s = syncOf(m);
  if (s.owner != t->id) {
    fail("bad-unlock", "a thread unlocks a mutex it does not hold");
  }
  if (--s.depth > 0) {
    return 0;
  }
  s.owner = -1;
  release(t, m);
  wakeWaiters(m);
  tick(t);
  return 0;
}
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*run)(void*), void* object, void* dso) {
  Th* t = self_;
  if (!t || t->id == 0 || t->nexits == 64) {
    return __real___cxa_thread_atexit(run, object, dso);
  }
  t->exits[t->nexits].run = run;
  t->exits[t->nexits].object = object;
  ++t->nexits;
  return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  Th* t = self_;
  if (!t || !t->lib) {
    return __real_pthread_once(o, f);
  }
  tick(t);
  while (*o == 1) {
    blockOn(t, o);
  }
  if (*o == 2) {
    acquire(t, o);
    return 0;
  }
  *o = 1;
  try {
    f();
  } catch (...) {
    *o = 0;
    wakeWaiters(o);
    throw;
  }
  *o = 2;
  release(t, o);
  wakeWaiters(o);
  return 0;
}

int __cxa_guard_acquire(long long* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  Th* t = self_;
  if (t && t->lib) {
    tick(t);
    while (!b[0] && b[1]) {
      blockOn(t, (const void*)g);
    }
    if (b[0]) {
      acquire(t, (const void*)g);
      return 0;
    }
    b[1] = 1;
    return 1;
  }
  if (b[0]) {
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  b[0] = 1;
  b[1] = 0;
  Th* t = self_;
  if (t) {
    release(t, (const void*)g);
    wakeWaiters((const void*)g);
  }
}
void __cxa_guard_abort(long long* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  b[1] = 0;
  if (self_) {
    wakeWaiters((const void*)g);
  }
}

// --- Clock seam

std::int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
std::int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!self_) {
    return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  }
  clockRead();
  return clk.steady;
}
std::int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!self_) {
    return __real__ZNSt6chrono3_V212system_clock3nowEv();
  }
  clockRead();
  return clk.system;
}
int __wrap_clock_gettime(clockid_t c, timespec* ts) {
  if (!self_) {
    return __real_clock_gettime(c, ts);
  }
  clockRead();
  const i64 v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? clk.system : clk.steady;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
time_t __wrap_time(time_t* out) {
  time_t v = time_t(clk.system / 1000000000);
  clockRead();
  if (out) {
    *out = v;
  }
  return v;
}
int __wrap_gettimeofday(timeval* tv, void*) {
  clockRead();
  tv->tv_sec = clk.system / 1000000000;
  tv->tv_usec = (clk.system % 1000000000) / 1000;
  return 0;
}
clock_t __wrap_clock() {
  clockRead();
  return clock_t(step); // Processor time: unrelated to the time which passes
}
int __wrap_nanosleep(const timespec* ts, timespec*) {
  advance(i64(ts->tv_sec) * 1000000000 + ts->tv_nsec);
  return 0;
}
unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void*) {
  return (unsigned int)heapRng.next();
}
int __wrap_rand() {
  return int(heapRng.next() & 0x7fffffff);
}
}
