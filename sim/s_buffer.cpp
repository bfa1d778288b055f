// SIM_PARTS 1
// C04: ownership histories of aligned buffers and aligned rasters, with failing allocations.
#include "LitlContainer/AlignedBuffer.h"
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace {

constexpr int Slots = 5;
constexpr i64 MaxWidth = 3000;
constexpr int UserBlocks = 3;
constexpr std::size_t UserBytes = 2048;

template <typename T>
struct BufferKind {
  using Object = Litl::AlignedBuffer<T>;
  static std::size_t size(i64 w, i64 h) {
    return std::size_t(w * h);
  }
  static void make(void* at, i64 w, i64 h, T* data, std::size_t align, bool useDefault) {
    if (useDefault && !data) {
      new (at) Object(size(w, h));
    } else if (useDefault) {
      new (at) Object(size(w, h), data);
    } else {
      new (at) Object(size(w, h), data, align);
    }
  }
  static void checkShape(const Object&, i64, i64) {}
};

template <typename T>
struct RasterKind {
  using Object = Litl::AlignedRaster<T, 2>;
  static std::size_t size(i64 w, i64 h) {
    return std::size_t(w * h);
  }
  static void make(void* at, i64 w, i64 h, T* data, std::size_t align, bool useDefault) {
    if (useDefault && !data) {
      new (at) Object({w, h});
    } else if (useDefault) {
      new (at) Object({w, h}, data);
    } else {
      new (at) Object({w, h}, data, align);
    }
  }
  static void checkShape(const Object& o, i64 w, i64 h) {
    check(o.shape()[0] == w && o.shape()[1] == h, "shape", "the shape is (%ld, %ld), should be (%ld, %ld)", o.shape()[0], o.shape()[1], w, h);
  }
};

template <typename T, typename K>
struct World {
  using O = typename K::Object;

  enum State { None, Valid, Hollow, Dangling };
  struct Slot {
    State state = None;
    O* o = nullptr;
    bool owns = false;
    i64 w = 0, h = 0;
    std::size_t as = 1;
    std::vector<T> v;
    T* shared = nullptr;
    std::size_t n() const {
      return v.size();
    }
  };
  struct Released {
    void* p;
    std::uintptr_t lo, hi;
  };

  const Scenario& s;
  int client;
  Slot slots[Slots];
  char* user[UserBlocks];
  std::vector<Released> released;
  i64 counter = 1;

  World(const Scenario& sc, int c) : s(sc), client(c) {
    for (auto& u : user) {
      u = static_cast<char*>(userAlloc(UserBytes, 64));
      std::memset(u, 0, UserBytes);
    }
  }

  void syncShared(const Slot& from) {
    // A write through one object is seen by those sharing the same memory
    for (auto& t : slots) {
      if (t.state == Valid && !t.owns && t.n()) {
        for (std::size_t i = 0; i < t.n(); ++i) {
          for (std::size_t j = 0; j < from.n(); ++j) {
            if (t.shared + i == from.shared + j) {
              t.v[i] = from.v[j];
            }
          }
        }
      }
    }
  }

  void readBack(Slot& t) {
    // User memory was written behind: take the values from the user's memory itself
    for (std::size_t i = 0; i < t.n(); ++i) {
      t.v[i] = t.shared[i];
    }
  }

  void verify() {
    for (int i = 0; i < Slots; ++i) {
      auto& t = slots[i];
      if (t.state == Hollow) {
        Lib lib;
        const bool owns = t.o->owns();
        check(!owns, "ownership", "slot %d owns memory after it was moved, reset or its assignment failed", i);
      }
      if (t.state != Valid) {
        continue;
      }
      const T* d;
      std::size_t n, as;
      bool owns;
      {
        Lib lib;
        d = t.o->data();
        n = t.o->size();
        as = t.o->alignmentReq();
        owns = t.o->owns();
      }
      check(n == t.n(), "size", "slot %d has size %zu, should be %zu", i, n, t.n());
      if (!n) {
        continue;
      }
      check(d, "null-data", "slot %d has no data but size %zu", i, n);
      check(owns == t.owns, "ownership", "slot %d: owns() is %d, should be %d", i, owns, t.owns);
      check(as == t.as, "alignment-req", "slot %d: alignment requirement is %zu, should be %zu", i, as, t.as);
      if (i == 0) {
        std::size_t actual;
        {
          Lib lib;
          actual = t.o->alignment();
        }
        check(actual == (std::uintptr_t(d) & -std::uintptr_t(d)), "alignment", "slot %d: actual alignment is said to be %zu", i, actual);
      }
      check(std::uintptr_t(d) % t.as == 0, "misaligned", "slot %d: data is not %zu-byte aligned", i, t.as);
      if (t.owns) {
        auto* b = blockOf(d);
        check(b && b->live && b->kind == 1, "owner-memory", "slot %d: the data is not in a live block allocated by malloc", i);
        check(std::uintptr_t(d + n) <= b->addr + b->size, "owner-memory", "slot %d: the data does not fit in its block", i);
        for (int j = 0; j < i; ++j) {
          if (slots[j].state == Valid && slots[j].owns && slots[j].n()) {
            check(blockOf(slots[j].o->data()) != b, "shared-ownership", "slots %d and %d own the same memory", j, i);
          }
        }
      } else {
        check(d == t.shared, "view-moved", "slot %d does not point at the shared data", i);
      }
      {
        Lib lib;
        K::checkShape(*t.o, t.w, t.h);
        for (std::size_t k = 0; k < n; ++k) {
          check(d[k] == t.v[k], "values", "slot %d: element %zu has changed", i, k);
        }
      }
    }
  }

  void drop(Slot& t) {
    if (t.state != None) {
      {
        Lib lib;
        t.o->~O();
      }
      userFree(t.o);
    }
    t = Slot();
  }

  void fillNew(Slot& t) {
    // Fresh values through the object
    T* d = const_cast<T*>(t.o->data());
    Lib lib;
    for (std::size_t k = 0; k < t.n(); ++k) {
      const T v = val<T>((counter * 7 + i64(k)) % 100);
      d[k] = v;
      t.v[k] = v;
    }
    ++counter;
  }

  /// What slot d should be once it has copied slot e
  void modelCopy(Slot& d, const Slot& e) {
    d.owns = e.owns;
    d.w = e.w;
    d.h = e.h;
    d.as = e.as;
    d.v = e.v;
    d.shared = e.shared;
    d.state = Valid;
  }
  void hollow(Slot& t) {
    t.state = Hollow;
    t.v.clear();
    t.owns = false;
    t.shared = nullptr;
  }

  void expect(Res r, int fired, const char* what, const std::string& msg) {
    check(r == Res::Ok || fired, "spurious-exception", "%s threw without any failure: %s", what, msg.c_str());
    check(r != Res::Error, "wrong-exception", "%s: an allocation failure is reported as '%s'", what, msg.c_str());
    if (r == Res::Oom) {
      probe("oom_reported");
    }
  }

  void run(const Op& op, int index) {
    auto& a = slots[op.in(0, 0, Slots - 1)];
    auto& b = slots[op.in(1, 0, Slots - 1)];
    std::string msg;
    const std::string& k = op.name;
    opBegin(s, client, index);
    trace("%s", k.c_str());
    if (k == "make" || k == "share") {
      drop(a);
      const i64 w = op.in(2, 0, k == "make" ? MaxWidth : 7), h = op.in(3, 0, 4);
      const int lg = int(op.in(4, 0, 12)); // 0: align 0, 1: -1, 2: default argument, 3..: 2^(lg-3)
      const std::size_t align = lg == 0 || lg == 2 ? 0 : lg == 1 ? std::size_t(-1) : std::size_t(1) << (lg - 3);
      T* data = nullptr;
      if (k == "share") {
        data = reinterpret_cast<T*>(user[op.in(1, 0, UserBlocks - 1)]) + op.in(5, 0, 5);
      }
      const std::size_t as = lg <= 2 ? (lg == 1 || !data ? 64 : 1) : align;
      const bool bad = data && std::uintptr_t(data) % as;
      a.o = static_cast<O*>(userAlloc(sizeof(O), 16));
      auto r = guarded(
          [&] {
            K::make(a.o, w, h, data, align, lg == 2);
          },
          &msg);
      const int fired = opEnd();
      if (bad) {
        check(r != Res::Ok, "alignment-accepted", "misaligned user data was accepted");
        check(r == Res::Error || fired, "wrong-exception", "misaligned user data is reported as '%s'", msg.c_str());
        probe("misaligned_rejected");
      } else {
        expect(r, fired, "construction", msg);
      }
      if (r == Res::Ok) {
        a.state = Valid;
        a.owns = !data;
        a.w = w;
        a.h = h;
        a.as = as;
        a.shared = data;
        a.v.assign(K::size(w, h), T());
        if (a.owns) {
          check(a.o->size() == a.n(), "size", "the size of a new buffer is %zu, should be %zu", a.o->size(), a.n());
          check(a.o->data() || !a.n(), "null-data", "a new buffer of %zu elements has no data", a.n());
          fillNew(a);
        } else {
          readBack(a);
        }
        probe(a.owns ? "made_owner" : "made_view");
      } else {
        userFree(a.o);
        a = Slot();
      }
    } else if (k == "copyctor" || k == "movector") {
      const bool move = k == "movector";
      if (&a == &b || b.state != Valid) {
        opEnd();
        return;
      }
      drop(a);
      a.o = static_cast<O*>(userAlloc(sizeof(O), 16));
      auto r = guarded(
          [&] {
            if (move) {
              new (a.o) O(std::move(*b.o));
            } else {
              new (a.o) O(*b.o);
            }
          },
          &msg);
      expect(r, opEnd(), k.c_str(), msg);
      if (r == Res::Ok) {
        const T* before = b.o ? a.o->data() : nullptr;
        (void)before;
        modelCopy(a, b);
        if (move) {
          hollow(b);
        }
        probe(move ? "moved" : "copied");
      } else {
        userFree(a.o);
        a = Slot();
      }
    } else if (k == "copyassign" || k == "moveassign") {
      const bool move = k == "moveassign";
      if (a.state == None || b.state != Valid) {
        opEnd();
        return;
      }
      auto r = guarded(
          [&] {
            if (move) {
              *a.o = std::move(*b.o);
            } else {
              *a.o = *b.o;
            }
          },
          &msg);
      expect(r, opEnd(), k.c_str(), msg);
      if (r == Res::Ok) {
        if (&a != &b) {
          probe(a.state == Valid && a.owns ? (move ? "move_over_owner" : "copy_over_owner") : "assign_over_other");
          modelCopy(a, b);
          if (move) {
            hollow(b);
          }
        } else {
          probe("self_assign");
        }
      } else if (&a != &b && a.o->size() == 0 && !a.o->owns()) {
        hollow(a);
      } // Otherwise must be unchanged: verified below
    } else if (k == "swap") {
      if (&a == &b || a.state != Valid || b.state != Valid) {
        opEnd();
        return;
      }
      auto r = guarded(
          [&] {
            using std::swap;
            swap(*a.o, *b.o);
          },
          &msg);
      expect(r, opEnd(), "swap", msg);
      if (r == Res::Ok) {
        Slot t;
        modelCopy(t, a);
        modelCopy(a, b);
        modelCopy(b, t);
        probe("swapped");
      } else { // Whatever the state, only destruction and reassignment are expected to work
        if (a.o->size() == 0 && !a.o->owns()) {
          hollow(a);
        }
        if (b.o->size() == 0 && !b.o->owns()) {
          hollow(b);
        }
      }
    } else if (k == "release") {
      if (a.state != Valid || !a.n()) {
        opEnd();
        return;
      }
      void* p = nullptr;
      T* d = const_cast<T*>(a.o->data());
      guarded([&] {
        p = a.o->release();
      });
      opEnd();
      check(bool(p) == a.owns, "release", "release() returned %s for %s", p ? "memory" : "null", a.owns ? "an owner" : "a view");
      if (p) {
        auto* blk = blockOf(p);
        check(blk && blk->addr == std::uintptr_t(p), "release", "release() did not return the pointer to free");
        released.push_back({p, blk->addr, blk->addr + blk->size});
        a.owns = false;
        a.shared = d;
        probe("released");
      }
    } else if (k == "freerel") {
      opEnd();
      if (released.empty()) {
        return;
      }
      auto r = released[std::size_t(op.in(2, 0, i64(released.size()) - 1))];
      released.erase(
          std::find_if(released.begin(), released.end(), [&](const Released& e) {
            return e.p == r.p;
          }));
      for (auto& t : slots) {
        if (t.state == Valid && !t.owns && std::uintptr_t(t.shared) >= r.lo && std::uintptr_t(t.shared) < r.hi) {
          t.state = Dangling;
        }
      }
      {
        Lib lib;
        std::free(r.p);
      }
      probe("released_freed");
    } else if (k == "reset") {
      opEnd();
      if (a.state == None) {
        return;
      }
      guarded([&] {
        a.o->reset();
      });
      check(a.o->size() == 0 && !a.o->data(), "reset", "a buffer is not empty after reset()");
      check(a.o->alignmentReq() == 1, "reset", "the alignment requirement is not 1 after reset()");
      probe(a.state == Valid && a.owns ? "reset_owner" : "reset_other");
      hollow(a);
    } else if (k == "destroy") {
      drop(a);
      opEnd();
    } else if (k == "write") {
      opEnd();
      if (a.state != Valid || !a.n()) {
        return;
      }
      const auto i = std::size_t(op.in(2, 0, i64(a.n()) - 1));
      const T v = val<T>(op.in(3, 0, 99));
      {
        Lib lib;
        const_cast<T*>(a.o->data())[i] = v;
      }
      a.v[i] = v;
      if (!a.owns) {
        syncShared(a);
      }
    } else if (k == "huge") {
      // More elements than there are addresses: the size in bytes does not fit in an integer
      const int lg = int(op.in(4, 0, 12));
      const std::size_t align = lg == 0 || lg == 2 ? 0 : lg == 1 ? std::size_t(-1) : std::size_t(1) << (lg - 3);
      const std::size_t n = std::size_t(-1) / sizeof(T) * std::size_t(op.in(3, 1, 4)) / 4 - std::size_t(op.in(2, 0, 7)) + std::size_t(op.in(5, 0, 5));
      if (n < std::size_t(-1) / sizeof(T) / 8) { // Wrapped
        opEnd();
        return;
      }
      const auto r = guarded(
          [&] {
            Litl::AlignedBuffer<T> huge(n, nullptr, align);
          },
          &msg);
      opEnd();
      check(r != Res::Ok, "size", "a buffer of %zu elements of %zu bytes was made", n, sizeof(T));
      check(r == Res::Oom, "wrong-exception", "a lack of memory is reported as '%s'", msg.c_str());
      probe("huge");
    } else if (k == "vector") {
      // Growth of a container of buffers
      if (b.state != Valid) {
        opEnd();
        return;
      }
      const int n = int(op.in(2, 1, 6));
      bool same = true;
      auto r = guarded(
          [&] {
            std::vector<O> vs;
            for (int i = 0; i < n; ++i) {
              vs.push_back(*b.o);
            }
            for (auto& o : vs) {
              const T* d = o.data();
              same = same && o.size() == b.n();
              for (std::size_t i = 0; same && i < b.n(); ++i) {
                same = d[i] == b.v[i];
              }
            }
          },
          &msg);
      expect(r, opEnd(), "vector growth", msg);
      check(same, "values", "an element of a vector of buffers has lost its values");
    }
    verify();
  }

  void finish() {
    for (auto& t : slots) {
      drop(t);
    }
    for (auto& r : released) {
      Lib lib;
      std::free(r.p);
    }
    for (auto& u : user) {
      userFree(u);
    }
  }
};

template <typename T, typename K>
void body(const Scenario& s, int client) {
  World<T, K> w(s, client);
  int i = 0;
  for (auto& op : s.clients[client]) {
    w.run(op, i++);
    for (auto& t : w.slots) {
      mix(u64(t.state) * 31 + t.n() + t.owns * 7);
    }
  }
  w.finish();
}

template <typename T>
void pickKind(const Scenario& s, int client, bool raster) {
  if (raster) {
    body<T, RasterKind<T>>(s, client);
  } else {
    body<T, BufferKind<T>>(s, client);
  }
}

void execute(const Scenario& s) {
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    const int t = int(s.in("type", 0, 9, c));
    switch (t) {
      case 0:
      case 1:
        return pickKind<char>(s, c, t & 1); // INST
      case 2:
      case 3:
        return pickKind<int>(s, c, t & 1); // INST
      case 4:
      case 5:
        return pickKind<double>(s, c, t & 1); // INST
      case 6:
      case 7:
        return pickKind<std::complex<double>>(s, c, t & 1); // INST
      default:
        return pickKind<std::int16_t>(s, c, t & 1); // INST
    }
  });
  checkNoLeak("after all buffers are destroyed");
}

void generate(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 4) ? 2 : 1;
  std::vector<i64> types;
  for (int c = 0; c < n; ++c) {
    types.push_back(r.range(0, 9));
    const int len = int(r.range(4, tier ? 60 : 30));
    s.op(c, "make", {0, 0, r.range(0, 7), r.range(0, 4), r.range(0, 12), 0});
    s.op(c, r.chance(1, 2) ? "make" : "share", {1, r.range(0, 2), r.range(1, 7), r.range(1, 4), r.range(0, 8), r.range(0, 3)});
    static const char* names[] = {"make", "share", "copyctor", "movector", "copyassign", "moveassign", "copyassign", "moveassign",
                                  "swap", "release", "freerel", "reset", "destroy", "write", "vector", "write", "huge"};
    for (int i = 0; i < len; ++i) {
      const auto name = names[r.next() % 17];
      const bool large = r.chance(1, 20);
      s.op(
          c,
          name,
          {r.range(0, Slots - 1), r.range(0, Slots - 1), r.range(0, large ? MaxWidth : 7), r.range(0, 4), r.range(0, 12), r.range(0, 5)});
    }
    if (r.chance(2, 3)) {
      const int nf = int(r.range(1, 5));
      for (int i = 0; i < nf; ++i) {
        s.fault("alloc", {c, r.range(0, len + 1), r.range(0, r.chance(1, 2) ? 0 : 6), r.range(1, 3)});
      }
    }
  }
  s.set("type", types);
}

Register reg("C04", generate, execute);

} // namespace
