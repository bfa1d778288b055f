// SIM_PARTS 5
// C06: generate() and apply() with user functions which fail at any call.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace simapply {

using Litl::Index;

struct Boom {
  i64 a, b;
};
struct BoomError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

template <typename T>
i64 asInt(T v) {
  return i64(v);
}
template <typename T>
i64 asInt(std::complex<T> v) {
  return i64(v.real()) * 1000 + i64(v.imag());
}

/// The function given to the library: checks how it is called and what it sees.
template <typename T>
struct Probe {
  const T* data; ///< Of the container
  std::size_t n;
  std::vector<T> old; ///< Values of the container before
  std::vector<T>* now; ///< Values which the container should have
  bool applying;
  std::vector<const i64*> inputs; ///< Expected inputs (as integers); null: the container; else
  std::vector<int> kinds; ///< 0: inputs, 1: self, 2: shifted self (the element before)
  i64 throwAt, throwHow, salt;
  std::size_t calls;
  const T* before; ///< The element before the first one

  template <typename... A>
  T operator()(A... a) {
    Pause p;
    const std::vector<i64> got {asInt(a)...};
    check(calls < n, "too-many-calls", "the function was called more than %zu times", n);
    const std::size_t i = calls++;
    // What the container holds at this point
    const bool all = n < 64 || i % 97 == 0 || i64(i) == throwAt; // Else, around this call
    for (std::size_t j = all || i < 4 ? 0 : i - 4; j < n && (all || j < i + 4); ++j) {
      check(data[j] == (*now)[j], j < i ? "not-stored" : "touched-early",
            j < i ? "at call %zu, element %zu does not hold its new value" : "at call %zu, element %zu has changed already", i, j);
    }
    std::vector<i64> want;
    if (applying) {
      want.push_back(asInt(old[i]));
    }
    for (std::size_t k = 0; k < kinds.size(); ++k) {
      want.push_back(kinds[k] == 0 ? inputs[k][i] : kinds[k] == 1 ? asInt(old[i]) : i ? asInt((*now)[i - 1]) : asInt(*before));
    }
    check(got == want, "wrong-arguments", "call %zu got the elements %s, should be %s", i, vec(got).c_str(), vec(want).c_str());
    if (i64(i) == throwAt) {
      countFault("throw");
      noteFault();
      switch (throwHow) {
        case 0:
          throw Boom {i64(i), salt};
        case 1:
          throw BoomError("boom " + std::to_string(salt));
        case 2:
          throw int(salt);
        default:
          throw std::bad_alloc();
      }
    }
    const T out = val<T>((salt + i64(i) * 7) % 100);
    (*now)[i] = out;
    return out;
  }
};

template <typename C, typename T>
struct World {
  struct Shared {
    Obj<Litl::Sequence<int>> ints;
    Obj<Litl::Raster<double, 1>> reals;
    std::vector<i64> intValues, realValues;
  };
  const Scenario& s;
  int client;
  Shared& shared;
  C& c;
  T* before; ///< Element before the data, if any
  std::vector<T> model;

  World(const Scenario& sc, int cl, Shared& sh, C& co, T* b) : s(sc), client(cl), shared(sh), c(co), before(b) {
    for (std::size_t i = 0; i < c.size(); ++i) {
      const_cast<T*>(const_cast<const C&>(c).data())[i] = val<T>(i64(i));
      model.push_back(val<T>(i64(i)));
    }
    if (before) {
      *before = val<T>(77);
    }
  }

  template <typename F>
  void call(F& f, bool applying, int form, bool rvalue) {
    using ISeq = Litl::Sequence<const int, Litl::PtrHolder<const int>>;
    using RSeq = Litl::PtrRaster<const double, 1>;
    using SSeq = Litl::Sequence<const T, Litl::PtrHolder<const T>>;
    const ISeq a(f.n, shared.ints->data());
    const RSeq b({Index(f.n)}, shared.reals->data());
    const SSeq z(f.n, before ? before : f.data);
    auto set = [&](std::initializer_list<int> k, std::initializer_list<const i64*> in) {
      f.kinds = k;
      f.inputs = in;
    };
    const i64* ia = shared.intValues.data();
    const i64* ib = shared.realValues.data();
    const int shift = before ? 2 : 1;
    switch (form) {
      case 0:
        break;
      case 1:
        set({0}, {ia});
        break;
      case 2:
        set({0, 0}, {ib, ia});
        break;
      case 3:
        set({1}, {nullptr});
        break;
      case 4:
        set({0, 1, 0}, {ia, nullptr, ib});
        break;
      case 5:
        set({shift}, {nullptr});
        break;
      default:
        set({shift, 1}, {nullptr, nullptr});
    }
    Lib lib;
#define CALL(...) \
  (applying ? (rvalue ? (void)c.apply([&](auto... e) { return f(e...); } __VA_ARGS__) : (void)c.apply(f __VA_ARGS__)) : \
              (rvalue ? (void)c.generate([&](auto... e) { return f(e...); } __VA_ARGS__) : (void)c.generate(f __VA_ARGS__)))
#define COMMA ,
    switch (form) {
      case 0:
        CALL();
        break;
      case 1:
        CALL(COMMA a);
        break;
      case 2:
        CALL(COMMA b COMMA a);
        break;
      case 3:
        CALL(COMMA c);
        break;
      case 4:
        CALL(COMMA a COMMA c COMMA b);
        break;
      case 5:
        CALL(COMMA z);
        break;
      default:
        CALL(COMMA z COMMA c);
    }
  }

  void run(const Op& op, int index) {
    Probe<T> f;
    f.data = const_cast<const C&>(c).data();
    f.n = model.size();
    f.old = model;
    f.now = &model;
    f.applying = op.name == "apply";
    f.throwAt = -1;
    f.throwHow = op.in(3, 0, 3);
    f.salt = op.in(2, 0, 99);
    f.calls = 0;
    f.before = before;
    for (auto& t : s.faults) {
      if (t.kind == "throw" && t.arg(0) == client && t.arg(1) == index) {
        f.throwAt = t.arg(2);
      }
    }
    const bool throws = f.throwAt >= 0 && f.throwAt < i64(f.n);
    trace("%s form %ld %s at %ld", op.name.c_str(), op.arg(0), throws ? "throws" : "never throws", f.throwAt);
    bool threw = false, unchanged = false;
    try {
      call(f, f.applying, int(op.in(0, 0, 6)), op.arg(1) % 2);
    } catch (const Boom& e) {
      threw = true;
      unchanged = f.throwHow == 0 && e.a == f.throwAt && e.b == f.salt;
    } catch (const BoomError& e) {
      threw = true;
      unchanged = f.throwHow == 1 && e.what() == "boom " + std::to_string(f.salt);
    } catch (int e) {
      threw = true;
      unchanged = f.throwHow == 2 && e == f.salt;
    } catch (const std::bad_alloc&) {
      threw = true;
      unchanged = f.throwHow == 3;
    } catch (...) {
      threw = true;
    }
    check(threw == throws, throws ? "swallowed" : "exception", throws ? "the exception of the function was lost" : "an exception came out of nowhere");
    check(!threw || unchanged, "exception-changed", "the exception of the function came out changed");
    check(f.calls == (throws ? std::size_t(f.throwAt + 1) : f.n), "call-count", "the function was called %zu times for %zu elements", f.calls, f.n);
    for (std::size_t i = 0; i < f.n; ++i) {
      check(f.data[i] == model[i], throws && i64(i) >= f.throwAt ? "not-old-value" : "not-new-value",
            "element %zu of %zu is wrong after the function %s", i, f.n, throws ? "threw" : "was applied");
    }
    check(!before || *before == val<T>(77), "input-changed", "an element before the container was changed");
    probe(throws ? "threw" : "completed");
    probe(op.name.c_str());
  }

  void runAll() {
    int i = 0;
    for (auto& op : s.clients[std::size_t(client)]) {
      opBegin(s, client, i);
      run(op, i++);
      opEnd();
    }
  }
};

template <typename T, typename C>
struct Kind {
  static constexpr bool view = false;
  static void make(Obj<C>& o, std::size_t n, T*, int) {
    o.makeBy([&] {
      return C(n);
    });
  }
};
template <typename T, Index N, typename H>
struct Kind<T, Litl::Raster<T, N, H>> {
  static constexpr bool view = false;
  using C = Litl::Raster<T, N, H>;
  static void make(Obj<C>& o, std::size_t n, T*, int) {
    const Index w = n % 3 ? n % 2 ? Index(n) : 2 : 3;
    Litl::Position<N> shape = Litl::Position<N>(N == -1 ? 2 : N);
    shape.fill(1);
    shape[0] = w;
    shape[shape.size() - 1] = n / w;
    if (shape.size() == 1) {
      shape[0] = n;
    }
    o.makeBy([&] {
      return C(shape);
    });
  }
};
template <typename T, Index N>
struct Kind<T, Litl::PtrRaster<T, N>> {
  static constexpr bool view = true;
  using C = Litl::PtrRaster<T, N>;
  static void make(Obj<C>& o, std::size_t n, T* data, int) {
    Litl::Position<N> shape;
    shape.fill(1);
    shape[0] = n;
    o.makeBy([&] {
      return C(shape, data);
    });
  }
};
template <typename T>
struct Kind<T, Litl::Sequence<T, Litl::PtrHolder<T>>> {
  static constexpr bool view = true;
  using C = Litl::Sequence<T, Litl::PtrHolder<T>>;
  static void make(Obj<C>& o, std::size_t n, T* data, int) {
    o.makeBy([&] {
      return C(n, data);
    });
  }
};

constexpr i64 MaxSize = 3000;

template <typename T, typename C>
void go(const Scenario& s, std::size_t fixed = 0) {
  using W = World<C, T>;
  typename W::Shared shared;
  const int n = int(std::min<std::size_t>(s.clients.size(), 3));
  std::vector<std::size_t> sizes;
  std::size_t most = 15;
  for (int k = 0; k < n; ++k) {
    sizes.push_back(fixed ? fixed : std::size_t(s.in("size", 1, MaxSize, std::size_t(k))));
    most = std::max(most, sizes.back());
  }
  const int capacity = int(most) + 1;
  shared.ints.make(std::size_t(capacity));
  shared.reals.make(Litl::Position<1> {capacity});
  for (int i = 0; i < capacity; ++i) {
    (*shared.ints)[std::size_t(i)] = 3 * i + 1;
    (*shared.reals)[std::size_t(i)] = 5 * i + 2;
    shared.intValues.push_back(3 * i + 1);
    shared.realValues.push_back(5 * i + 2);
  }
  std::vector<T*> buffers;
  std::unique_ptr<Obj<C>[]> c(new Obj<C>[std::size_t(n)]);
  T* all = (T*)userAlloc(sizeof(T) * std::size_t(capacity) * std::size_t(n), 16);
  for (int k = 0; k < n; ++k) {
    // Neighbours in memory, for views
    T* data = all + capacity * k + 1;
    buffers.push_back(Kind<T, C>::view ? data - 1 : nullptr);
    Kind<T, C>::make(c[std::size_t(k)], sizes[std::size_t(k)], data, k);
  }
  runClients(n, [&](int k) {
    W w(s, k, shared, *c[std::size_t(k)], buffers[std::size_t(k)]);
    w.runAll();
  });
  for (int i = 0; i < capacity; ++i) {
    check((*shared.ints)[std::size_t(i)] == 3 * i + 1 && (*shared.reals)[std::size_t(i)] == 5 * i + 2, "input-changed", "an input was changed");
  }
  c.reset();
  userFree(all);
  shared.ints.reset();
  shared.reals.reset();
  checkNoLeak("generate and apply");
}

constexpr int KindCount = 14;
bool part1(const Scenario& s, int k);
bool part2(const Scenario& s, int k);
bool part3(const Scenario& s, int k);
bool part4(const Scenario& s, int k);
using Litl::StdHolder;

#if SIM_PART == 1
bool part1(const Scenario& s, int k) {
  switch (k) {
    case 0:
      return go<int, Litl::Sequence<int>>(s), true; // INST
    case 1:
      return go<double, Litl::Sequence<double>>(s), true; // INST
    case 2:
      return go<int, Litl::Sequence<int, Litl::PtrHolder<int>>>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int k) {
  switch (k) {
    case 3:
      return go<unsigned char, Litl::Sequence<unsigned char, Litl::PtrHolder<unsigned char>>>(s), true; // INST
    case 4:
      return go<double, Litl::Raster<double, 2>>(s), true; // INST
    case 5:
      return go<std::complex<float>, Litl::Raster<std::complex<float>, 3>>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 3
bool part3(const Scenario& s, int k) {
  switch (k) {
    case 6:
      return go<int, Litl::Raster<int, -1>>(s), true; // INST
    case 7:
      return go<float, Litl::AlignedRaster<float, 2>>(s), true; // INST
    case 8:
      return go<int, Litl::PtrRaster<int, 1>>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 4
bool part4(const Scenario& s, int k) {
  switch (k) {
    case 9:
      return go<std::complex<double>, Litl::PtrRaster<std::complex<double>, 2>>(s), true; // INST
    case 10:
      return go<int, Litl::Sequence<int, StdHolder<std::array<int, 7>>>>(s, 7), true; // INST
    case 11:
      return go<std::int16_t, Litl::ValRaster<std::int16_t, 2>>(s), true; // INST
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, KindCount - 1));
  if (part1(s, k) || part2(s, k) || part3(s, k) || part4(s, k)) {
    return;
  }
  switch (k) {
    case 12:
      return go<Index, Litl::Vector<Index, 4>>(s, 4); // INST
    default:
      return go<double, Litl::Vector<double, -1>>(s); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KindCount - 1)});
  std::vector<i64> sizes;
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    sizes.push_back(r.chance(1, 20) ? r.range(16, MaxSize) : r.range(1, 15));
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(1, tier ? 10 : 5));
    for (int i = 0; i < len; ++i) {
      s.op(cc, r.chance(1, 2) ? "apply" : "generate", {r.range(0, 6), r.range(0, 1), r.range(0, 99), r.range(0, 3)});
      if (r.chance(1, 2)) {
        s.fault("throw", {c, i, r.chance(1, 3) ? r.range(0, 1) : r.range(0, sizes.back())});
      }
    }
  }
  s.set("size", sizes);
}

Register reg("C06", generate, execute);
#endif

} // namespace simapply
