// Deterministic simulation runtime for kabasset/Raster: public interface for the scenario files.
//
// One run = one forked process. Everything the run can observe is decided by the scenario text:
// client operations, thread interleaving, heap layout and garbage, clock, allocation failures,
// disk faults, FFT planner choices.
#ifndef SIMRT_H
#define SIMRT_H

#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

using i64 = std::int64_t;
using u64 = std::uint64_t;

/// Seeded generator (splitmix64): the only source of randomness of scenario generation.
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  /// Uniform in [lo, hi]
  i64 range(i64 lo, i64 hi) {
    return hi <= lo ? lo : lo + i64(next() % u64(hi - lo + 1));
  }
  bool chance(int num, int den) {
    return i64(next() % u64(den)) < num;
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + next() % l.size());
  }
};

struct Op {
  std::string name;
  std::vector<i64> a;
  i64 arg(std::size_t i, i64 def = 0) const {
    return i < a.size() ? a[i] : def;
  }
  /// Argument folded into [lo, hi], whatever its value (so that shrunk scenarios stay valid)
  i64 in(std::size_t i, i64 lo, i64 hi) const {
    i64 v = arg(i, lo);
    if (v >= lo && v <= hi) {
      return v;
    }
    u64 n = u64(hi - lo + 1);
    return lo + i64((u64(v) - u64(lo)) % n);
  }
};

struct Fault {
  std::string kind;
  std::vector<i64> a;
  i64 arg(std::size_t i, i64 def = 0) const {
    return i < a.size() ? a[i] : def;
  }
};

/// Thread `from` hands over to thread `to` before its access number key / 2 (even key),
/// or when it ends or blocks after access number key / 2 (odd key).
struct Switch {
  int from;
  u64 key;
  int to;
};

struct Scenario {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, std::vector<i64>> params;
  std::vector<std::vector<Op>> clients;
  std::vector<Fault> faults;
  bool explicitSchedule = false;
  u64 schedSeed = 0;
  i64 schedGap = 50; ///< Mean number of steps between two preemptions (0: none)
  std::vector<Switch> switches;

  i64 param(const std::string& k, i64 def = 0, std::size_t i = 0) const {
    auto it = params.find(k);
    return it == params.end() || i >= it->second.size() ? def : it->second[i];
  }
  i64 in(const std::string& k, i64 lo, i64 hi, std::size_t i = 0) const {
    Op o;
    o.a = {param(k, lo, i)};
    return o.in(0, lo, hi);
  }
  void set(const std::string& k, std::vector<i64> v) {
    params[k] = std::move(v);
  }
  Op& op(std::size_t client, const std::string& name, std::vector<i64> a = {}) {
    if (clients.size() <= client) {
      clients.resize(client + 1);
    }
    clients[client].push_back({name, std::move(a)});
    return clients[client].back();
  }
  void fault(const std::string& kind, std::vector<i64> a) {
    faults.push_back({kind, std::move(a)});
  }
  std::string text() const;
  static Scenario parse(const std::string& text);
};

struct Property {
  const char* id;
  void (*generate)(Scenario&, Rng&, int tier);
  void (*execute)(const Scenario&);
};

void registerProperty(const Property& p);
struct Register {
  Register(const char* id, void (*g)(Scenario&, Rng&, int), void (*e)(const Scenario&)) {
    registerProperty({id, g, e});
  }
};

/// Code of the library under test runs in this scope: its memory accesses are schedule points,
/// its allocations go to the simulated heap (and may fail).
struct Lib {
  Lib();
  ~Lib();
  Lib(const Lib&) = delete;
};

/// Harness code called back by the library runs in this scope.
struct Pause {
  Pause();
  ~Pause();
  Pause(const Pause&) = delete;
  int saved;
};

/// Run `body(client)` on n simulated threads under the seeded scheduler, and wait for all.
void runClients(int n, const std::function<void(int)>& body);
/// Simulated thread id: 0 for the main one, client + 1 for clients.
int self();
/// An explicit schedule point
void yieldPoint();

/// Begin an operation: arms the allocation faults "alloc client op nth count" of the scenario.
void opBegin(const Scenario& s, int client, int op);
/// End an operation: disarms, returns the number of allocation faults which fired meanwhile.
int opEnd();
/// Number of allocations made by the current thread since opBegin.
int opAllocs();

[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void check(bool ok, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void probe(const char* name);
void countFault(const char* kind);
void noteFault(); ///< A fault fired in this run
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// Mix observable outcome into the run hash
void mix(u64 v);
void mixDouble(double v);
void mixBytes(const void* p, std::size_t n);

/// Simulated heap
struct Block {
  std::uintptr_t addr;
  std::size_t size;
  int kind; ///< 0: new, 1: malloc
  bool live;
  u64 id;
};
bool isArena(const void* p);
/// Live block which contains p, or null
const Block* blockOf(const void* p);
const Block* anyBlockOf(const void* p);
std::size_t liveBlocks();
/// Check that no simulated heap block is live, but those reachable from static variables
void checkNoLeak(const char* what);
/// Allocate a harness-owned buffer in the simulated heap (never fails, not counted as a leak)
void* userAlloc(std::size_t size, std::size_t align, std::size_t offset = 0);
void userFree(void* p);
u64 garbageSeed();
/// Called for range accesses made by uninstrumented libraries on behalf of the code under test
void noteRange(const void* p, std::size_t n, bool write);

/// Simulated clocks, in nanoseconds
struct Clock {
  i64 steady;
  i64 system;
};
Clock& simClock();
/// Time passes: both clocks advance
void advance(i64 ns);
/// The system clock is adjusted
void jump(i64 ns);
u64 clockReads();
/// Time which passes at each step of the library
void setStepCost(i64 ns);
// Fault "clockjump n ns": the system clock is adjusted just before the n-th clock reading

u64 steps();
int switchesDone();
/// True in the replay/verbose mode
bool verbose();
/// Limits the number of steps of the run
void setBudget(u64 steps);

u64 fnv(const void* p, std::size_t n, u64 h = 1469598103934665603ull);

} // namespace sim

#endif
