// SIM_PARTS 6
// C05: any operation which runs out of memory, at any allocation.
#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"

#include "img.h"
#include "simfftw.h"

using namespace sim;

namespace simoom {

/// What can be read from objects
struct Digest {
  std::string b;
  void raw(const void* p, std::size_t n) {
    b.append(static_cast<const char*>(p), n);
  }
  void num(i64 v) {
    raw(&v, sizeof(v));
  }
};

template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value> describe(Digest& d, const T& v, const char*) {
  d.raw(&v, sizeof(v));
}
template <typename T>
void describe(Digest& d, const std::complex<T>& v, const char*) {
  d.raw(&v, sizeof(v));
}

/// The memory which an object says it holds must be there
template <typename T>
void describeData(Digest& d, const T* p, std::size_t n, const char* what) {
  d.num(i64(n));
  if (n == 0) {
    return;
  }
  check(p, "unreadable", "%s: null data of size %zu", what, n);
  if (isArena(p)) {
    const Block* b = blockOf(p);
    check(b && std::uintptr_t(p) + n * sizeof(T) <= b->addr + b->size, "unreadable", "%s: %zu values of data are not in live memory", what, n);
  }
  for (std::size_t i = 0; i < n; ++i) {
    describe(d, p[i], what);
  }
}

template <typename T>
void describe(Digest& d, const std::vector<T>& v, const char* what) {
  d.num(i64(v.size()));
  for (const auto& e : v) {
    describe(d, e, what);
  }
}
template <typename T, std::size_t N>
void describe(Digest& d, const std::array<T, N>& v, const char* what) {
  for (const auto& e : v) {
    describe(d, e, what);
  }
}
template <typename T, Index N>
void describe(Digest& d, const Litl::Vector<T, N>& v, const char* what) {
  describeData(d, v.data(), v.size(), what);
}
template <typename T, typename H>
void describe(Digest& d, const Litl::Sequence<T, H>& v, const char* what) {
  describeData(d, v.data(), v.size(), what);
}
template <typename T>
void describe(Digest& d, const Litl::LineKernel<T>& v, const char* what) {
  describeData(d, v.data(), v.size(), what);
  d.num(v.origin());
}
template <typename T, Index N, typename H>
void describe(Digest& d, const Litl::Raster<T, N, H>& v, const char* what) {
  describe(d, v.shape(), what);
  i64 n = v.shape().size() ? 1 : 0;
  for (std::size_t i = 0; i < v.shape().size(); ++i) {
    n *= v.shape().data()[i];
  }
  check(n == i64(v.size()), "inconsistent", "%s: the shape has %lld elements and there are %zu values", what, (long long)n, std::size_t(v.size()));
  describeData(d, v.data(), v.size(), what);
}
template <Index N>
void describe(Digest& d, const Litl::Box<N>& v, const char* what) {
  check(v.front().size() == v.back().size(), "inconsistent", "%s: the box has bounds of dimensions %zu and %zu", what, std::size_t(v.front().size()), std::size_t(v.back().size()));
  describe(d, v.front(), what);
  describe(d, v.back(), what);
}
template <typename T, Index N>
void describe(Digest& d, const Litl::Kernel<T, N>& v, const char* what) {
  describe(d, v.window(), what);
  describe(d, v.raster(), what);
}
template <typename T, Index... Is>
void describe(Digest& d, const Litl::SeparableKernel<T, Is...>& v, const char* what) {
  for (const auto& k : v) {
    d.num(k.first);
    describe(d, k.second, what);
  }
}

/// Values computed by an operation
struct Values {
  std::size_t n = 0;
  double v[256];
  void push(double x) {
    if (n < 256) {
      v[n++] = x;
    }
  }
};
inline void describe(Digest& d, const Values& v, const char*) {
  d.raw(v.v, v.n * sizeof(double));
}

/// One operation under test
struct Ctx {
  const Scenario& s;
  int index;
  std::function<void(Digest&)> inputs; ///< Which must not change
  bool assignFirst; ///< Give a new value to the object before trying again

  Digest inputDigest() const {
    Digest d;
    inputs(d);
    return d;
  }
  int begin(bool faulty) const {
    opBegin(s, 0, faulty ? index : -1);
    fftwBegin(s, 0, faulty ? index : -1);
    return 0;
  }
  int end() const {
    return fftwEnd() + opEnd();
  }
};

inline void outcome(Res r, int fired, const std::string& message, bool refOk, const std::string& refMessage, const char* what) {
  if (r == Res::Oom) {
    check(fired, "unexpected-exception", "%s: std::bad_alloc although no allocation failed", what);
    probe("oom_reported");
  } else if (r == Res::Error && !fired) {
    check(!refOk && message == refMessage, "unexpected-exception", "%s: %s", what, message.c_str());
  } else if (r == Res::Ok) {
    check(refOk, "missing-exception", "%s: should throw %s", what, refMessage.c_str());
    if (fired) {
      probe("oom_survived");
    }
  }
}

/// Operation f(memory) which builds a T
template <typename T, typename F>
void construct(const Ctx& c, const char* what, F&& f) {
  const Digest before = c.inputDigest();
  std::size_t blocks = 0;
  Digest ref;
  std::string refMessage;
  Res refRes = Res::Ok;
  for (int attempt = 0; attempt < 3; ++attempt) { // Without fault, with faults, without faults again
    Obj<T> o;
    std::string message;
    c.begin(attempt == 1);
    const Res r = guarded([&] {
      o.makeBy2(f);
    }, &message);
    const int fired = c.end();
    Digest got;
    if (r == Res::Ok) {
      describe(got, *o, what);
    }
    if (attempt == 0) {
      check(r != Res::Oom, "unexpected-exception", "%s: std::bad_alloc although no allocation failed", what);
      ref = got;
      refMessage = message;
      refRes = r;
    } else {
      outcome(r, fired, message, refRes == Res::Ok, refMessage, what);
      if (r == Res::Ok) {
        check(got.b == ref.b, attempt == 1 ? "wrong-result" : "wrong-retry", "%s: %s", what, attempt == 1 ? "returned a wrong result when memory ran out" : "wrong result once memory is available again");
      }
    }
    o.reset();
    if (attempt == 0) {
      blocks = liveBlocks(); // Something may be cached
    }
    check(liveBlocks() == blocks, "leak", "%s: %zu blocks leaked", what, liveBlocks() - blocks);
    check(c.inputDigest().b == before.b, "input-changed", "%s: an input changed", what);
    mixBytes(got.b.data(), got.b.size());
  }
}

template <typename T>
std::enable_if_t<std::is_copy_assignable<T>::value> reassign(T& t, T& u) {
  t = u;
}
template <typename T>
std::enable_if_t<!std::is_copy_assignable<T>::value> reassign(T& t, T& u) {
  t = std::move(u);
}

/// Operation f(t) which changes a T built by make(memory)
enum Kind { Change, Idempotent, Assign }; ///< Idempotent ones may be called twice, assignments are done or not

template <typename T, typename M, typename F>
void mutate(const Ctx& c, const char* what, Kind kind, M&& make, F&& f) {
  const Digest before = c.inputDigest();
  std::size_t blocks = 0;
  Digest ref;
  std::string refMessage;
  Res refRes = Res::Ok;
  for (int attempt = 0; attempt < 2; ++attempt) {
    Obj<T> t;
    c.begin(false);
    t.makeBy2(make);
    c.end();
    Digest old;
    describe(old, *t, what);
    for (int again = 0; again < 2; ++again) { // On the same object once memory is available
      std::string message;
      c.begin(attempt == 1 && again == 0);
      const Res r = guarded([&] {
        f(*t);
      }, &message);
      const int fired = c.end();
      Digest got;
      describe(got, *t, what);
      mixBytes(got.b.data(), got.b.size());
      if (attempt == 0) {
        check(r != Res::Oom, "unexpected-exception", "%s: std::bad_alloc although no allocation failed", what);
        ref = got;
        refMessage = message;
        refRes = r;
        break;
      }
      outcome(r, fired, message, refRes == Res::Ok, refMessage, what);
      if (r == Res::Ok) {
        check(got.b == ref.b, again ? "wrong-retry" : "wrong-result", "%s: %s", what, again ? "wrong result once memory is available again" : "returned a wrong result when memory ran out");
        break;
      }
      if (kind == Assign && r == Res::Oom) {
        check(got.b == old.b || got.b == ref.b, "half-assigned", "%s: the object has neither its old value nor the new one", what);
      }
      if (kind == Change || c.assignFirst) { // Assign a new value first
        Obj<T> fresh;
        c.begin(false);
        fresh.makeBy2(make);
        Digest want, now;
        describe(want, *fresh, what);
        const Res a = guarded([&] {
          reassign(*t, *fresh);
        });
        c.end();
        check(a == Res::Ok, "not-reassignable", "%s: the object cannot be assigned after the failure", what);
        describe(now, *t, what);
        check(want.b == now.b, "not-reassignable", "%s: wrong value assigned after the failure", what);
        probe("reassigned");
      }
    }
    t.reset();
    if (attempt == 0) {
      blocks = liveBlocks();
    }
    check(liveBlocks() == blocks, "leak", "%s: %zu blocks leaked", what, liveBlocks() - blocks);
    check(c.inputDigest().b == before.b, "input-changed", "%s: an input changed", what);
  }
}

template <typename T>
T valueOf(u64 seed, u64 i) {
  return Num<T>::make(hashValue(seed, i, 1, 9, Num<T>::IsComplex));
}

/// Functor for generate() and apply()
template <typename T>
struct Next {
  T v;
  T operator()() {
    v = v + T(1);
    return v;
  }
  T operator()(T a) {
    v = v + T(1);
    return a + v;
  }
  T operator()(T a, T b) {
    return a + b;
  }
};

template <typename T, typename R>
void setValues(R& r, u64 seed) {
  T* d = const_cast<T*>(r.data());
  for (std::size_t i = 0; i < std::size_t(r.size()); ++i) {
    d[i] = valueOf<T>(seed, i);
  }
}

/// Rasters

template <typename H>
struct HolderTraits {
  static constexpr bool Fixed = false, Movable = false, View = false, Pointer = true;
};
template <typename C>
struct HolderTraits<Litl::StdHolder<C>> {
  static constexpr bool Fixed = false, Movable = true, View = false, Pointer = true;
};
template <typename T, std::size_t N>
struct HolderTraits<Litl::StdHolder<std::array<T, N>>> {
  static constexpr bool Fixed = true, Movable = true, View = false, Pointer = true;
};
template <typename T>
struct HolderTraits<Litl::PtrHolder<T>> {
  static constexpr bool Fixed = false, Movable = false, View = true, Pointer = true;
};

template <typename T, bool Complex>
struct ComplexParts {
  template <typename R>
  static void run(const Ctx& c, const R& a, int which) {
    using Out = Litl::Raster<typename T::value_type, R::Dimension>;
    construct<Out>(c, "part of a complex raster", [&](void* m) {
      switch (which % 4) {
        case 0:
          new (m) Out(Litl::real(a));
          break;
        case 1:
          new (m) Out(Litl::imag(a));
          break;
        case 2:
          new (m) Out(Litl::norm(a));
          break;
        default:
          new (m) Out(Litl::abs(a));
      }
    });
  }
};
template <typename T>
struct ComplexParts<T, false> {
  template <typename R>
  static void run(const Ctx& c, const R& a, int which) {
    construct<R>(c, "math function of a raster", [&](void* m) {
      switch (which % 4) {
        case 0:
          new (m) R(Litl::abs(a));
          break;
        case 1:
          new (m) R(Litl::fdim(a, a));
          break;
        case 2:
          new (m) R(Litl::fmod(a, T(4)));
          break;
        default:
          new (m) R(Litl::pow(a, T(2)));
      }
    });
  }
};

template <typename V>
auto sized(std::size_t n, int) -> decltype(V(n)) {
  return V(n);
}
template <typename V>
V sized(std::size_t, long) {
  return V {};
}

template <typename H, bool Movable>
struct MoveContainer {
  template <typename R, typename P>
  static void run(const Ctx& c, const P& shape, u64 seed) {
    using V = typename H::Container;
    using T = typename V::value_type;
    construct<R>(c, "raster of a moved container", [&](void* m) {
      V v = sized<V>(std::size_t(count(shape)), 0);
      for (std::size_t i = 0; i < v.size(); ++i) {
        v[i] = valueOf<T>(seed, i);
      }
      new (m) R(position<R::Dimension>(shape), std::move(v));
    });
    construct<Values>(c, "moving the container out", [&](void* m) {
      auto out = new (m) Values;
      R r(position<R::Dimension>(shape));
      setValues<T>(r, seed);
      V v = sized<V>(3, 0);
      r.moveTo(v);
      for (std::size_t i = 0; i < v.size(); ++i) {
        out->push(std::abs(v[i]));
      }
      r = R(position<R::Dimension>(shape), std::move(v));
      out->push(std::abs(*r.begin()));
    });
  }
};
template <typename H>
struct MoveContainer<H, false> {
  template <typename R, typename P>
  static void run(const Ctx&, const P&, u64) {}
};

template <typename T, Index N, typename H>
struct RasterOps {
  using R = Litl::Raster<T, N, H>;
  using Tr = HolderTraits<H>;
  using P = Litl::Position<N>;

  /// Initialized raster
  static std::function<void(void*)> maker(const Pos& shape, u64 seed, T* view) {
    return [=](void* m) {
      make(m, shape, view, std::integral_constant<bool, Tr::View> {});
      if (!Tr::View) {
        setValues<T>(*static_cast<R*>(m), seed);
      }
    };
  }
  static void make(void* m, const Pos& shape, T*, std::false_type) {
    new (m) R(position<N>(shape));
  }
  static void make(void* m, const Pos& shape, T* view, std::true_type) {
    new (m) R(position<N>(shape), view);
  }

  static Pos shapeOf(const Op& op, int first, int dim) {
    Pos out;
    for (int i = 0; i < dim; ++i) {
      out.push_back(Tr::Fixed ? (dim == 1 ? 12 : i == 0 ? 3 : i == 1 ? 4 : 1) : op.in(std::size_t(first + i), 1, 5));
    }
    return out;
  }

  static void run(const Scenario& s, const Op& op, int index) {
    const u64 seed = u64(op.in(2, 0, 1000));
    const int dimA = N >= 0 ? int(N) : int(op.in(4, 1, 4)), dimB = N >= 0 ? int(N) : int(op.in(5, 1, 4));
    const Pos sa = shapeOf(op, 6, dimA), sb = shapeOf(op, 10, dimB);
    const std::size_t na = std::size_t(count(sa)), nb = std::size_t(count(sb));
    T* va = static_cast<T*>(userAlloc(na * sizeof(T), 64));
    T* vb = static_cast<T*>(userAlloc(nb * sizeof(T), 64));
    for (std::size_t i = 0; i < na; ++i) {
      va[i] = valueOf<T>(seed, i);
    }
    for (std::size_t i = 0; i < nb; ++i) {
      vb[i] = valueOf<T>(seed + 1, i);
    }
    {
      Obj<R> a, a2, b;
      opBegin(s, 0, -1);
      a.makeBy2(maker(sa, seed, va));
      a2.makeBy2(maker(sa, seed + 2, va));
      b.makeBy2(maker(sb, seed + 1, vb));
      opEnd();
      Ctx c {s, index, [&](Digest& d) {
        describe(d, *a, "input");
        describe(d, *a2, "input");
        describe(d, *b, "input");
      }, op.in(3, 0, 1) == 1};
      run(c, op, sa, sb, seed, va, *a, *a2, *b, std::integral_constant<bool, Tr::View> {});
    }
    userFree(va);
    userFree(vb);
  }

  /// Views: which cannot be built without data
  static void run(const Ctx& c, const Op& op, const Pos& sa, const Pos& sb, u64 seed, T* va, R& a, R& a2, R& b, std::true_type) {
    common(c, op, sa, sb, seed, va, a, b);
  }
  static void run(const Ctx& c, const Op& op, const Pos& sa, const Pos& sb, u64 seed, T* va, R& a, R& a2, R& b, std::false_type) {
    const int which = int(op.in(1, 0, 23));
    switch (which) {
      case 12:
        return construct<R>(c, "raster from its shape", [&](void* m) {
          auto r = new (m) R(position<N>(sa));
          r->fill(T(3));
        });
      case 13:
        return construct<R>(c, "raster from a list", [&](void* m) {
          Pos shape(sa.size(), 1);
          shape[0] = 3;
          shape.back() *= seed % 5 == 0 ? 5 : 4; // Wrong size, or not
          if (shape.size() == 1) {
            shape[0] = seed % 5 == 0 ? 11 : 12;
          }
          new (m) R(position<N>(shape), {T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11), T(12)});
        });
      case 14:
        return construct<R>(c, "raster from an iterable", [&](void* m) {
          std::vector<T> v(std::size_t(count(sa)) + (seed % 7 == 0 && !Tr::Fixed));
          for (std::size_t i = 0; i < v.size(); ++i) {
            v[i] = valueOf<T>(seed, i);
          }
          new (m) R(position<N>(sa), v);
        });
      case 15:
        return construct<R>(c, "raster from a pointer", [&](void* m) {
          new (m) R(position<N>(sa), va);
        });
      case 16:
        return MoveContainer<H, Tr::Movable>::template run<R>(c, sa, seed);
      case 17:
        return construct<R>(c, "raster arithmetic", [&](void* m) {
          switch (seed % 5) {
            case 0:
              new (m) R(a + a2);
              break;
            case 1:
              new (m) R(a * a2 - a);
              break;
            case 2:
              new (m) R(-a);
              break;
            case 3:
              new (m) R(a * T(3) + T(1));
              break;
            default:
              new (m) R(a / a2 - T(7));
          }
        });
      case 18:
        return ComplexParts<T, Num<T>::IsComplex>::run(c, a, int(seed));
      case 19:
        return mutate<R>(c, "arithmetic in place", Change, maker(sa, seed, va), [&](R& r) {
          r += a;
          r *= a + a2;
          r -= T(1);
        });
      case 20:
        return mutate<R>(c, "generate", Idempotent, maker(sa, seed, va), [&](R& r) {
          const R copy = a;
          r.generate(Next<T> {T(2)}, copy, a2);
        });
      case 21:
        return mutate<R>(c, "apply", Change, maker(sa, seed, va), [&](R& r) {
          r.apply(Next<T> {T(2)}, a);
          r.apply(Next<T> {T(5)});
        });
      default:
        common(c, op, sa, sb, seed, va, a, b);
    }
  }

  static void common(const Ctx& c, const Op& op, const Pos& sa, const Pos& sb, u64 seed, T* va, R& a, R& b) {
    switch (op.in(1, 0, 11)) {
      case 0:
        return construct<R>(c, "copy", [&](void* m) {
          new (m) R(a);
        });
      case 1:
        return mutate<R>(c, "copy assignment", Assign, maker(sa, seed, va), [&](R& r) {
          r = b;
        });
      case 2:
        return mutate<R>(c, "copy assignment to itself", Assign, maker(sa, seed, va), [&](R& r) {
          const R& same = r;
          r = same;
        });
      case 3:
        return mutate<R>(c, "move assignment", Assign, maker(sa, seed, va), [&](R& r) {
          R copy(b);
          r = std::move(copy);
        });
      case 4:
        return construct<R>(c, "move", [&](void* m) {
          R copy(b);
          R moved(std::move(copy));
          copy = a;
          new (m) R(std::move(moved));
        });
      case 5:
        return construct<Values>(c, "loop over the domain", [&](void* m) {
          auto v = new (m) Values;
          for (const auto& p : a.domain()) {
            v->push(std::abs(a[p]));
            v->push(std::abs(a.at(p)));
          }
        });
      case 6:
        return construct<Values>(c, "at() out of bounds", [&](void* m) {
          auto v = new (m) Values;
          auto p = position<N>(sa);
          p[0] -= 1 + i64(seed % 2);
          v->push(std::abs(a.at(p)));
          p[0] = 0;
          p[0] -= sa[0] + i64(seed % 3 == 0);
          v->push(std::abs(a.at(p)));
        });
      case 7:
        return construct<Values>(c, "section", [&](void* m) {
          auto v = new (m) Values;
          const i64 last = sa.back() - 1, f = i64(seed) % sa.back();
          const auto part = a.section(f, last);
          for (auto e : part) {
            v->push(std::abs(e));
          }
          const R& constant = a;
          const auto one = constant.section(f);
          for (auto e : one) {
            v->push(std::abs(e));
          }
          auto copy = part;
          copy = a.section(0, f);
          v->push(std::abs(copy[0]));
        });
      case 8:
        return construct<Values>(c, "subraster", [&](void* m) {
          auto v = new (m) Values;
          Pos front, back;
          for (std::size_t i = 0; i < sa.size(); ++i) {
            front.push_back(i64(seed >> i) % sa[i]);
            back.push_back(sa[i] - 1);
          }
          const R& constant = a;
          const auto sub = constant.subraster({position<N>(front), position<N>(back)});
          for (const auto& e : sub) {
            v->push(std::abs(e));
          }
          const auto copy = sub;
          for (const auto& e : copy) {
            v->push(std::abs(e));
          }
        });
      case 9:
        return construct<Values>(c, "slice", [&](void* m) {
          auto v = new (m) Values;
          Pos front(sa.size(), 0), back(sa.size(), 0);
          back[0] = sa[0] - 1 - i64(seed % 2 && sa[0] > 1);
          const auto line = a.template slice<1>({position<N>(front), position<N>(back)});
          for (const auto& e : line) {
            v->push(std::abs(e));
          }
          if (seed % 3 == 0) {
            back.back() = sa.back(); // Not contiguous, unless 1D
            v->push(a.template slice<1>({position<N>(front), position<N>(back)}).size());
          }
        });
      case 10:
        return construct<Values>(c, "comparison", [&](void* m) {
          auto v = new (m) Values;
          v->push(a == b);
          v->push(a != a);
          v->push(a.contains(position<N>(Pos(sa.size(), 2))));
        });
      default:
        return mutate<R>(c, "assign several times", Idempotent, maker(sa, seed, va), [&](R& r) {
          R other(b);
          r = other;
          other = a;
          r = other;
          r = b;
        });
    }
  }
};

/// Raster statistics

template <typename T>
struct StatOps {
  static void run(const Scenario& s, const Op& op, int index) {
    const u64 seed = u64(op.in(2, 0, 1000));
    const std::size_t n = std::size_t(op.in(4, 2, 20));
    Obj<Litl::Sequence<T>> seq;
    Obj<std::vector<T>> bins;
    using D = Litl::DataDistribution<T>;
    using S = Litl::Sequence<T>;
    opBegin(s, 0, -1);
    seq.make(n);
    setValues<T>(*seq, seed);
    if (seed % 3 == 0) {
      std::sort(seq->begin(), seq->end());
    }
    bins.make();
    {
      Lib lib;
      *bins = {T(0), T(3), T(4), T(9)};
    }
    opEnd();
    Ctx c {s, index, [&](Digest& d) {
      describe(d, *seq, "input");
      describe(d, *bins, "input");
    }, op.in(3, 0, 1) == 1};
    const auto query = [&](D& d, Values& v) {
      switch (op.in(5, 0, 5)) {
        case 0:
          v.push(d.median());
          v.push(d.mean());
          break;
        case 1:
          v.push(d.mad());
          break;
        case 2:
          for (auto e : d.histogram(*bins)) {
            v.push(double(e));
          }
          break;
        case 3:
          v.push(d.min());
          v.push(d.max());
          v.push(double(d.size()));
          break;
        case 4:
          v.push(d.quantile(.3));
          v.push(d.mad());
          for (auto e : d.histogram(*bins)) {
            v.push(double(e));
          }
          break;
        default:
          v.push(d.sum());
          v.push(d.variance());
          d.sort();
          v.push(d.nth(n / 2));
      }
    };
    switch (op.in(1, 0, 7)) {
      case 0:
        return construct<Values>(c, "statistics", [&](void* m) {
          auto v = new (m) Values;
          D d(*seq);
          query(d, *v);
        });
      case 1: { // The same distribution after the failure
        for (int attempt = 0; attempt < 2; ++attempt) {
          Obj<D> d;
          opBegin(s, 0, -1);
          d.makeBy2([&](void* m) {
            new (m) D(seq->distribution());
          });
          opEnd();
          Values v[3], w;
          opBegin(s, 0, attempt ? index : -1);
          Res r = guarded([&] {
            query(*d, v[0]);
          });
          const int fired = opEnd();
          outcome(r, fired, "", true, "", "query");
          check(d->size() == n, "unreadable", "the distribution has %zu values instead of %zu", d->size(), n);
          opBegin(s, 0, -1);
          r = guarded([&] {
            query(*d, v[1]);
            v[1].push(d->sum());
            v[1].push(d->quantile(.5));
            v[1].push(d->max());
          });
          D fresh(*seq);
          guarded([&] {
            query(fresh, w);
            w.push(fresh.sum());
            w.push(fresh.quantile(.5));
            w.push(fresh.max());
          });
          opEnd();
          Digest got, want;
          describe(got, v[1], "");
          describe(want, w, "");
          check(got.b == want.b, "wrong-retry", "the distribution gives other values after the failure");
        }
        return;
      }
      case 2:
        return construct<S>(c, "sequence arithmetic", [&](void* m) {
          const S other = *seq + T(2);
          new (m) S(other * *seq - other);
        });
      case 3:
        return mutate<S>(c, "sequence assignment", Assign, [&](void* m) {
          auto r = new (m) S(std::size_t(seed % 30));
          setValues<T>(*r, seed + 3);
        }, [&](S& r) {
          r = *seq;
        });
      case 4:
        return construct<S>(c, "sequence from an iterable", [&](void* m) {
          std::vector<T> v(seq->begin(), seq->end());
          new (m) S(v);
        });
      case 5:
        return construct<S>(c, "sequence from a list", [&](void* m) {
          new (m) S({T(1), T(4), T(2)});
        });
      case 6:
        return construct<S>(c, "math function of a sequence", [&](void* m) {
          const S other = Litl::fdim(*seq, T(4));
          new (m) S(Litl::hypot(other, *seq));
        });
      default:
        return construct<Values>(c, "at() of a sequence", [&](void* m) {
          auto v = new (m) Values;
          v->push(seq->at(-1));
          v->push(seq->at(i64(n) - 1 + i64(seed % 2)));
        });
    }
  }
};

/// Random values: impulse noise allocates

template <typename T>
void runRandom(const Scenario& s, const Op& op, int index) {
  const u64 seed = u64(op.in(2, 0, 1000));
  Obj<std::map<T, double>> probas;
  Obj<Litl::Raster<T>> in;
  opBegin(s, 0, -1);
  probas.make();
  in.make(Litl::Position<2> {4, 5});
  setValues<T>(*in, seed);
  {
    Lib lib;
    for (i64 i = op.in(4, 1, 4); i > 0; --i) {
      (*probas)[T(i * 10)] = .2;
    }
  }
  opEnd();
  Ctx c {s, index, [&](Digest& d) {
    describe(d, *in, "input");
    for (const auto& e : *probas) {
      d.num(i64(e.first));
    }
  }, op.in(3, 0, 1) == 1};
  using R = Litl::Raster<T>;
  switch (op.in(1, 0, 3)) {
    case 0:
      return construct<R>(c, "impulse noise", [&](void* m) {
        Litl::ImpulseNoise<T> noise(*probas, seed);
        auto r = new (m) R(*in);
        try {
          Litl::ImpulseNoise<T> copy(noise);
          r->apply(copy);
        } catch (...) {
          r->~R();
          throw;
        }
      });
    case 1:
      return mutate<Litl::ImpulseNoise<T>>(c, "noise assignment", Idempotent, [&](void* m) {
        new (m) Litl::ImpulseNoise<T>(T(3), .5, seed);
      }, [&](Litl::ImpulseNoise<T>& noise) {
        noise = Litl::ImpulseNoise<T>::saltAndPepper(.1, .2, T(100), T(0), seed);
      });
    case 2:
      return construct<R>(c, "noise", [&](void* m) {
        R copy(*in);
        copy.apply(Litl::UniformNoise<T>(T(0), T(50), seed));
        copy.apply(Litl::GaussianNoise<T>(T(0), T(1), seed));
        new (m) R(copy + *in);
      });
    default:
      return construct<R>(c, "stable noise", [&](void* m) {
        R copy(*in);
        copy.apply(Litl::StablePoissonNoise<T>(T(0), seed));
        new (m) R(std::move(copy));
      });
  }
}
template <typename T>
void describe(Digest& d, const Litl::ImpulseNoise<T>& v, const char*) {
  auto copy = v;
  for (int i = 0; i < 20; ++i) {
    d.num(i64(copy(T(1))));
  }
}

/// Positions and boxes

template <Index N>
void runBox(const Scenario& s, const Op& op, int index) {
  using B = Litl::Box<N>;
  using P = Litl::Position<N>;
  const u64 seed = u64(op.in(2, 0, 1000));
  const int dim = N >= 0 ? int(N) : int(op.in(4, 1, 4)), dim2 = N >= 0 ? int(N) : int(op.in(5, 1, 4));
  Pos front, back, margin, front2, back2;
  for (int i = 0; i < dim; ++i) {
    front.push_back(op.in(std::size_t(6 + i), -3, 3));
    back.push_back(front.back() + op.in(std::size_t(10 + i), 0, 4));
    margin.push_back(op.in(std::size_t(14 + i), 0, 2));
  }
  for (int i = 0; i < dim2; ++i) {
    front2.push_back(-i);
    back2.push_back(i + 2);
  }
  Obj<B> a, b, m;
  opBegin(s, 0, -1);
  a.make(position<N>(front), position<N>(back));
  b.make(position<N>(front2), position<N>(back2));
  m.makeBy2([&](void* p) {
    new (p) B(-position<N>(margin), position<N>(margin));
  });
  opEnd();
  Ctx c {s, index, [&](Digest& d) {
    describe(d, *a, "input");
    describe(d, *b, "input");
    describe(d, *m, "input");
  }, op.in(3, 0, 1) == 1};
  const auto copyOfA = [&](void* p) {
    new (p) B(*a);
  };
  switch (op.in(1, 0, 13)) {
    case 0:
      return construct<B>(c, "box copy", copyOfA);
    case 1:
      return mutate<B>(c, "box copy assignment", Assign, copyOfA, [&](B& x) {
        x = *b;
      });
    case 2:
      return mutate<B>(c, "box move assignment", Assign, copyOfA, [&](B& x) {
        B copy(*b);
        x = std::move(copy);
      });
    case 3:
      return construct<std::vector<B>>(c, "surround", [&](void* p) {
        new (p) std::vector<B>(a->surround(*m));
      });
    case 4:
      return construct<B>(c, "box arithmetic", [&](void* p) {
        B x = *a + *m - a->front();
        x += 3;
        ++x;
        new (p) B(Litl::project(x + x.back()));
      });
    case 5:
      return mutate<B>(c, "box shift", Change, copyOfA, [&](B& x) {
        x += x.front();
        x -= *m;
        x -= 2;
      });
    case 6:
      return construct<std::vector<P>>(c, "positions of a box", [&](void* p) {
        std::vector<P> out;
        for (const auto& q : *a) {
          if (out.size() > 10) {
            break;
          }
          out.push_back(q);
        }
        new (p) std::vector<P>(std::move(out));
      });
    case 7:
      return construct<Values>(c, "box properties", [&](void* p) {
        auto v = new (p) Values;
        v->push(double(a->size()));
        v->push(double(a->length(0)));
        v->push(*a == *b);
        v->push(Litl::shapeSize(a->shape()));
        v->push(B::fromShape(a->front(), a->shape()) == *a);
      });
    case 8:
      return construct<P>(c, "position arithmetic", [&](void* p) {
        P x = a->front() * 2 + a->back() - 1;
        ++x;
        new (p) P(-x + a->shape());
      });
    case 9:
      return mutate<P>(c, "position assignment", Assign, [&](void* p) {
        new (p) P(a->front());
      }, [&](P& x) {
        x = b->back();
      });
    case 10:
      return construct<P>(c, "position from values", [&](void* p) {
        if (seed % 2 && (N == -1 || N == 3)) {
          new (p) P {1, 2, 3};
        } else {
          std::vector<Index> v(front.begin(), front.end());
          new (p) P(v);
        }
      });
    case 11:
      return mutate<P>(c, "position arithmetic in place", Change, [&](void* p) {
        new (p) P(a->front());
      }, [&](P& x) {
        x += a->back();
        x -= a->shape() * 2;
        x *= 3;
      });
    case 12:
      return construct<P>(c, "clamped position", [&](void* p) {
        const auto shape = a->shape();
        new (p) P(Litl::clamp(a->front() - 1, shape));
      });
    default:
      return construct<P>(c, "slice or extension of a position", [&](void* p) {
        if (seed % 2) {
          const Litl::Position<5> one = a->front().template extend<5>(Litl::Position<5>::one());
          P x = P(Index(dim));
          std::copy_n(one.begin(), dim, x.begin());
          new (p) P(x);
        } else {
          const Litl::Position<1> one = a->front().template slice<1>();
          P x(a->back());
          x[0] = one[0];
          new (p) P(std::move(x));
        }
      });
  }
}

/// Filters and interpolation

template <typename T, Index N>
struct FilterOps {
  using R = Litl::Raster<T, N>;
  using K = Litl::Kernel<T, N>;
  using F = Litl::MedianFilter<T, N>;
  using L = Litl::LineKernel<T>;
  using S = Litl::SeparableKernel<T, 0, (N == 1 ? 0 : 1)>;

  static void run(const Scenario& s, const Op& op, int index) {
    const u64 seed = u64(op.in(2, 0, 1000));
    Pos shape, window, shape2;
    for (int i = 0; i < int(N); ++i) {
      shape.push_back(op.in(std::size_t(6 + i), 1, 5));
      window.push_back(op.in(std::size_t(10 + i), 1, 3));
      shape2.push_back(op.in(std::size_t(10 + i), 1, 4));
    }
    Obj<R> in, values, other;
    Obj<K> k;
    Obj<S> sep;
    opBegin(s, 0, -1);
    sep.makeBy2([&](void* m) {
      new (m) S(seed % 2 ? S::scharr(-1) : seed % 3 ? S::sobel() : S::laplacian());
    });
    in.makeBy2([&](void* m) {
      setValues<T>(*new (m) R(position<N>(shape)), seed);
    });
    values.makeBy2([&](void* m) {
      setValues<T>(*new (m) R(position<N>(window)), seed + 1);
    });
    other.makeBy2([&](void* m) {
      setValues<T>(*new (m) R(position<N>(shape2)), seed + 1);
    });
    k.makeBy2([&](void* m) {
      new (m) K(Litl::kernelize(*values));
    });
    opEnd();
    Ctx c {s, index, [&](Digest& d) {
      describe(d, *in, "input");
      describe(d, *values, "input");
      describe(d, *other, "input");
      describe(d, *k, "input");
      describe(d, *sep, "input");
    }, op.in(3, 0, 1) == 1};
    const auto result = [&](void* m) {
      setValues<T>(*new (m) R(position<N>(shape)), seed + 9);
    };
    switch (op.in(1, 0, 15)) {
      case 0:
        return construct<K>(c, "kernel", [&](void* m) {
          if (seed % 2) {
            new (m) K(Litl::kernelize(*values));
          } else {
            new (m) K(Litl::kernelize(*values, Litl::Position<N>::zero()));
          }
        });
      case 1:
        return mutate<K>(c, "kernel copy assignment", Assign, [&](void* m) {
          new (m) K(*k);
        }, [&](K& x) {
          const K y = Litl::kernelize(*other);
          x = y;
        });
      case 2:
        return construct<R>(c, "correlation with a constant outside", [&](void* m) {
          new (m) R(*k * Litl::extrapolate(*in, T(3)));
        });
      case 3:
        return construct<R>(c, "correlation with the nearest outside", [&](void* m) {
          new (m) R(*k * Litl::extrapolate(*in));
        });
      case 4:
        return construct<R>(c, "correlation with periodic images", [&](void* m) {
          new (m) R(*k * Litl::extrapolate<Litl::Periodic>(*in));
        });
      case 5:
        return mutate<R>(c, "correlateTo()", Idempotent, result, [&](R& out) {
          k->correlateTo(Litl::extrapolate(*in), out);
        });
      case 6:
        return construct<R>(c, "median", [&](void* m) {
          F f(k->window());
          new (m) R(f.apply(Litl::extrapolate(*in)));
        });
      case 7:
        return mutate<R>(c, "median in a region", Idempotent, result, [&](R& out) {
          F f(Index(seed % 2));
          f.applyTo(Litl::extrapolate<Litl::Periodic>(*in), out, in->domain());
        });
      case 8:
        return construct<Values>(c, "interpolation", [&](void* m) {
          auto v = new (m) Values;
          const auto e = Litl::extrapolate(*in);
          const auto nearest = Litl::interpolate(e);
          const auto linear = Litl::interpolate<Litl::Linear>(e);
          const auto cubic = Litl::interpolate<Litl::Cubic>(e);
          for (int i = 0; i < 5; ++i) {
            Litl::Vector<double, N> p;
            for (int j = 0; j < int(N); ++j) {
              p[j] = double((seed >> j) % 7) * .75 + i * .5 - 1;
            }
            v->push(double(nearest(p)));
            v->push(double(linear(p)));
            v->push(double(cubic(p)));
          }
        });
      case 9:
        return construct<L>(c, "line kernel", [&](void* m) {
          std::vector<T> v {T(1), T(2), T(seed)};
          if (seed % 2) {
            new (m) L(v);
          } else {
            new (m) L(v, 0);
          }
        });
      // Separable kernels are built without fault: g++ 9 leaks the elements of initializer lists
      // which are not completely built (GCC bug 66139)
      case 10:
        return construct<S>(c, "separable kernel copy", [&](void* m) {
          S copy(static_cast<const S&>(*sep));
          new (m) S(std::move(copy));
        });
      case 11:
        return construct<R>(c, "separable correlation", [&](void* m) {
          new (m) R(*sep * *in);
        });
      case 12:
        return construct<Litl::Kernel<T, S::Dimension>>(c, "composition", [&](void* m) {
          new (m) Litl::Kernel<T, S::Dimension>(sep->compose());
        });
      case 13:
        return mutate<S>(c, "separable kernel assignment", Idempotent, [&](void* m) {
          new (m) S(S::laplacian());
        }, [&](S& x) {
          const S y = static_cast<const S&>(*sep);
          x = y;
        });
      case 14:
        return mutate<R>(c, "separable correlation to a raster", Idempotent, [&](void* m) {
          setValues<T>(*new (m) R(position<N>(shape2)), seed + 9);
        }, [&](R& out) {
          sep->correlateTo(*in, out);
        });
      default:
        return mutate<L>(c, "line kernel assignment", Assign, [&](void* m) {
          new (m) L({T(1), T(4)});
        }, [&](L& x) {
          const L y({T(1), T(2), T(seed)}, 0);
          x = y;
        });
    }
  }
};

/// Kernels of variable dimension

template <typename T>
void runVariable(const Scenario& s, const Op& op, int index) {
  using R = Litl::Raster<T, -1>;
  using K = Litl::Kernel<T, -1>;
  using F = Litl::MedianFilter<T, -1>;
  const u64 seed = u64(op.in(2, 0, 1000));
  const int dim = int(op.in(4, 1, 3)), dim2 = int(op.in(5, 1, 3));
  Pos shape, window, shape2;
  for (int i = 0; i < dim; ++i) {
    shape.push_back(op.in(std::size_t(6 + i), 1, 4));
    window.push_back(op.in(std::size_t(9 + i), 1, 3));
  }
  for (int i = 0; i < dim2; ++i) {
    shape2.push_back(op.in(std::size_t(12 + i), 1, 3));
  }
  Obj<R> in, values, other;
  Obj<K> k, k2;
  const auto raster = [](const Pos& p, u64 seed) {
    return [=](void* m) {
      setValues<T>(*new (m) R(position<-1>(p)), seed);
    };
  };
  opBegin(s, 0, -1);
  in.makeBy2(raster(shape, seed));
  values.makeBy2(raster(window, seed + 1));
  other.makeBy2(raster(shape2, seed + 2));
  k.makeBy2([&](void* m) {
    new (m) K(Litl::kernelize(*values));
  });
  k2.makeBy2([&](void* m) {
    new (m) K(Litl::kernelize(*other));
  });
  opEnd();
  Ctx c {s, index, [&](Digest& d) {
    describe(d, *in, "input");
    describe(d, *values, "input");
    describe(d, *other, "input");
    describe(d, *k, "input");
    describe(d, *k2, "input");
  }, op.in(3, 0, 1) == 1};
  switch (op.in(1, 0, 5)) {
    case 0:
      return construct<K>(c, "kernel of variable dimension", [&](void* m) {
        new (m) K(Litl::kernelize(*values));
      });
    case 1:
    case 2:
      return mutate<K>(c, "kernel assignment", Assign, [&](void* m) {
        new (m) K(*k);
      }, [&](K& x) {
        x = *k2;
      });
    case 3:
      return mutate<K>(c, "kernel moves", Idempotent, [&](void* m) {
        new (m) K(*k);
      }, [&](K& x) {
        K y(*k2);
        x = std::move(y);
        y = x;
        x = y;
      });
    case 4:
      return construct<Values>(c, "kernel properties", [&](void* m) {
        auto v = new (m) Values;
        for (auto e : k->shape()) {
          v->push(double(e));
        }
        for (auto e : k->raster()) {
          v->push(double(e));
        }
      });
    default:
      return construct<R>(c, "median of variable dimension", [&](void* m) {
        F f(k->window());
        F g(f);
        new (m) R(g.apply(Litl::extrapolate(*in)));
      });
  }
}

/// Transforms

struct Spectra {
  std::vector<std::complex<double>> v;
};
/// FFTW may round differently: values are multiples of 1/16 here
inline void describe(Digest& d, const Spectra& x, const char*) {
  for (const auto& e : x.v) {
    d.num(std::llround(e.real() * 16));
    d.num(std::llround(e.imag() * 16));
  }
}

template <Index N>
void runDft(const Scenario& s, const Op& op, int index) {
  using C = std::complex<double>;
  const u64 seed = u64(op.in(2, 0, 1000));
  Pos shape;
  for (int i = 0; i < int(N); ++i) {
    shape.push_back(1 << op.in(std::size_t(6 + i), 0, 2)); // Exact roots of unity
  }
  Obj<Litl::Raster<double, N>> real;
  Obj<Litl::Raster<C, N>> complex;
  Pos half = shape;
  half[0] = half[0] / 2 + 1;
  opBegin(s, 0, -1);
  real.make(position<N>(shape));
  setValues<double>(*real, seed);
  complex.make(position<N>(shape));
  setValues<C>(*complex, seed + 1);
  opEnd();
  Ctx c {s, index, [&](Digest& d) {
    describe(d, *real, "input");
    describe(d, *complex, "input");
  }, op.in(3, 0, 1) == 1};
  const auto copy = [](const auto& r) {
    Spectra out;
    out.v.assign(r.begin(), r.end());
    return out;
  };
  const std::size_t plans = livePlans();
  switch (op.in(1, 0, 6)) {
    case 0:
      construct<Spectra>(c, "realDft()", [&](void* m) {
        new (m) Spectra(copy(Litl::realDft(*real)));
      });
      break;
    case 1:
      construct<Spectra>(c, "complexDft()", [&](void* m) {
        new (m) Spectra(copy(Litl::complexDft(*complex)));
      });
      break;
    case 2:
      construct<Spectra>(c, "inverseComplexDft()", [&](void* m) {
        new (m) Spectra(copy(Litl::inverseComplexDft(Litl::complexDft(*complex))));
      });
      break;
    case 3:
      construct<Spectra>(c, "inverseRealDft()", [&](void* m) {
        new (m) Spectra(copy(Litl::inverseRealDft(Litl::realDft(*real), position<N>(shape))));
      });
      break;
    case 4:
      construct<Spectra>(c, "composition of plans", [&](void* m) {
        Litl::RealDft<N> forward(position<N>(shape));
        auto backward = forward.inverse();
        std::copy(real->begin(), real->end(), forward.in().begin());
        forward.transform();
        backward.transform().normalize();
        new (m) Spectra(copy(backward.out()));
      });
      break;
    case 5:
      construct<Spectra>(c, "moved plan", [&](void* m) {
        Litl::ComplexDft<N> plan(position<N>(shape));
        Litl::ComplexDft<N> moved(std::move(plan));
        std::copy(complex->begin(), complex->end(), moved.in().begin());
        moved.transform();
        new (m) Spectra(copy(moved.out()));
      });
      break;
    default: // The same plan after the failure
      construct<Spectra>(c, "arithmetic on the buffers of a plan", [&](void* m) {
        Litl::ComplexDft<N> plan(position<N>(shape));
        std::copy(complex->begin(), complex->end(), plan.in().begin());
        plan.transform();
        Litl::ComplexDftBuffer<N> buffer = plan.out() + plan.out();
        buffer = buffer - plan.out();
        new (m) Spectra(copy(buffer));
      });
  }
  check(livePlans() == plans, "leak", "%zu plans leaked", livePlans() - plans);
}

#ifndef SIM_PART
#define SIM_PART 0
#endif

#define PART(k) void part##k(const Scenario& s, const Op& op, int index)
PART(1);
PART(2);
PART(3);
PART(4);
PART(5);

template <typename T, Index N, typename H = Litl::StdHolder<std::vector<T>>>
void raster(const Scenario& s, const Op& op, int index) {
  RasterOps<T, N, H>::run(s, op, index);
}

#if SIM_PART == 1
PART(1) {
  switch (op.in(0, 0, 2)) {
    case 0:
      return raster<int, 2>(s, op, index); // INST
    case 1:
      return raster<int, -1>(s, op, index); // INST
    default:
      return raster<std::complex<double>, -1>(s, op, index); // INST
  }
}
#elif SIM_PART == 2
PART(2) {
  switch (op.in(0, 0, 2)) {
    case 0:
      return raster<double, -1, Litl::AlignedBuffer<double>>(s, op, index); // INST
    case 1:
      return raster<int, 3, Litl::AlignedBuffer<int>>(s, op, index); // INST
    default:
      return raster<int, -1, Litl::PtrHolder<int>>(s, op, index); // INST
  }
}
#elif SIM_PART == 3
PART(3) {
  switch (op.in(0, 0, 2)) {
    case 0:
      return raster<double, -1, Litl::StdHolder<std::valarray<double>>>(s, op, index); // INST
    case 1:
      return raster<short, -1, Litl::StdHolder<std::array<short, 12>>>(s, op, index); // INST
    default:
      return raster<std::complex<float>, 1>(s, op, index); // INST
  }
}
#elif SIM_PART == 4
PART(4) {
  switch (op.in(0, 0, 2)) {
    case 0:
      return FilterOps<int, 2>::run(s, op, index); // INST
    case 1:
      return FilterOps<double, 3>::run(s, op, index); // INST
    default:
      return FilterOps<float, 2>::run(s, op, index); // INST
  }
}
#elif SIM_PART == 5
PART(5) {
  switch (op.in(0, 0, 2)) {
    case 0:
      return runDft<1>(s, op, index); // INST
    case 1:
      return runDft<2>(s, op, index); // INST
    default:
      return runDft<3>(s, op, index); // INST
  }
}
#else

void run(const Scenario& s, const Op& op, int index) {
  if (op.name == "raster") {
    return part1(s, op, index);
  }
  if (op.name == "aligned") {
    return part2(s, op, index);
  }
  if (op.name == "holder") {
    return part3(s, op, index);
  }
  if (op.name == "filter") {
    return part4(s, op, index);
  }
  if (op.name == "dft") {
    return part5(s, op, index);
  }
  if (op.name == "stat") {
    switch (op.in(0, 0, 2)) {
      case 0:
        return StatOps<int>::run(s, op, index); // INST
      case 1:
        return StatOps<double>::run(s, op, index); // INST
      default:
        return StatOps<short>::run(s, op, index); // INST
    }
  }
  if (op.name == "random") {
    switch (op.in(0, 0, 1)) {
      case 1:
        return runRandom<int>(s, op, index); // INST
      default:
        return runRandom<double>(s, op, index); // INST
    }
  }
  if (op.name == "variable") {
    switch (op.in(0, 0, 1)) {
      case 1:
        return runVariable<int>(s, op, index); // INST
      default:
        return runVariable<double>(s, op, index); // INST
    }
  }
  switch (op.in(0, 0, 2)) {
    case 0:
      return runBox<2>(s, op, index); // INST
    case 1:
      return runBox<3>(s, op, index); // INST
    default:
      return runBox<-1>(s, op, index); // INST
  }
}

void execute(const Scenario& s) {
  setBudget(40000000);
  fftwSeed(u64(s.in("seed", 0, 1000)));
  if (!s.clients.empty()) {
    const auto& ops = s.clients[0];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      run(s, ops[i], int(i));
    }
  }
  checkNoLeak("at the end");
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("seed", {r.range(0, 1000)});
  const int len = int(r.range(1, 3));
  int i = 0;
  for (int j = 0; j < len; ++j) {
    std::vector<i64> a = {r.range(0, 2), r.range(0, 23), r.range(0, 1000), r.range(0, 1)};
    for (int k = 0; k < 16; ++k) {
      a.push_back(r.range(0, 5));
    }
    const int name = int(r.range(0, 13));
    const char* names[] = {"raster", "raster", "raster", "aligned", "aligned", "holder", "filter", "filter", "dft", "stat", "box", "box", "random", "variable"};
    const i64 first = r.chance(1, 2) ? 0 : r.range(0, 12);
    const int sweep = int(r.range(1, tier ? 8 : 4));
    for (int k = 0; k < sweep; ++k, ++i) { // Each allocation in turn
      s.op(0, names[name], a);
      if (!r.chance(1, 12)) {
        s.fault("alloc", {0, i, first + k, r.chance(2, 3) ? 1 : r.range(2, 4)});
      }
      if (name == 8 && r.chance(1, 6)) {
        s.fault("refuse", {0, i, r.range(0, 2)});
      }
    }
  }
}

Register reg("C05", generate, execute);
#endif

} // namespace simoom
