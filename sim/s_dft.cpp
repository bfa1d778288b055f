// SIM_PARTS 4
// C12, C13: DFT plans, their buffers, and their life cycle, by several threads.
#include "LitlTransforms/Dft.h"

#include "img.h"
#include "simfftw.h"

using namespace sim;

namespace simdft {

using C = std::complex<double>;
using Values = std::vector<C>;

/// Kinds of transforms
enum Kind { Real = 0, InvReal = 1, Complex = 2, InvComplex = 3, KindCount = 4 };
constexpr i64 MaxCount = 400; ///< Pixels of the largest transforms

inline Pos halved(Pos shape) {
  shape[0] = shape[0] / 2 + 1;
  return shape;
}
inline Pos inShapeOf(int kind, const Pos& logical) {
  return kind == InvReal ? halved(logical) : logical;
}
inline Pos outShapeOf(int kind, const Pos& logical) {
  return kind == Real ? halved(logical) : logical;
}
inline bool inIsComplex(int kind) {
  return kind != Real;
}
inline bool outIsComplex(int kind) {
  return kind != InvReal;
}

/// Unscaled DFT by definition, axis by axis
inline Values naive(Values v, const Pos& shape, double sign) {
  i64 stride = 1;
  const i64 total = i64(v.size());
  for (std::size_t a = 0; a < shape.size(); ++a) {
    const i64 n = shape[a];
    std::vector<C> w;
    for (i64 k = 0; k < n; ++k) {
      const double t = sign * 2 * M_PI * double(k) / double(n);
      w.emplace_back(std::cos(t), std::sin(t));
    }
    Values o(v.size());
    for (i64 i = 0; i < total; ++i) {
      const i64 k = i / stride % n;
      const i64 base = i - k * stride;
      C sum = 0;
      for (i64 j = 0; j < n; ++j) {
        sum += v[std::size_t(base + j * stride)] * w[std::size_t(j * k % n)];
      }
      o[std::size_t(i)] = sum;
    }
    v = o;
    stride *= n;
  }
  return v;
}

/// Half spectrum of a real signal
inline Values halve(const Values& full, const Pos& logical) {
  const Pos h = halved(logical);
  Values out;
  for (i64 i = 0; i < count(h); ++i) {
    out.push_back(full[std::size_t(indexOf(logical, unindex(h, i)))]);
  }
  return out;
}

/// Full spectrum from the half one
inline Values unhalve(const Values& half, const Pos& logical) {
  const Pos h = halved(logical);
  Values out;
  for (i64 i = 0; i < count(logical); ++i) {
    Pos p = unindex(logical, i);
    const bool mirror = p[0] >= h[0];
    if (mirror) {
      for (std::size_t a = 0; a < p.size(); ++a) {
        p[a] = (logical[a] - p[a]) % logical[a];
      }
    }
    const C v = half[std::size_t(indexOf(h, p))];
    out.push_back(mirror ? std::conj(v) : v);
  }
  return out;
}

inline Values expected(int kind, const Values& in, const Pos& logical) {
  switch (kind) {
    case Real:
      return halve(naive(in, logical, -1), logical);
    case InvReal: {
      Values v = naive(unhalve(in, logical), logical, 1);
      for (auto& e : v) {
        e = e.real();
      }
      return v;
    }
    case Complex:
      return naive(in, logical, -1);
    default:
      return naive(in, logical, 1);
  }
}

inline double magnitude(const Values& v) {
  double out = 0;
  for (auto& e : v) {
    out += std::abs(e);
  }
  return out;
}

/// Random values of the input of a transform (Hermitian for the inverse real one)
inline Values inputOf(int kind, const Pos& logical, u64 seed) {
  Values v;
  for (i64 i = 0; i < count(logical); ++i) {
    const Z z = hashValue(seed, u64(i), -9, 9, kind >= Complex);
    v.emplace_back(double(z.re), double(z.im));
  }
  return kind == InvReal ? halve(naive(v, logical, -1), logical) : v;
}

struct Buffer {
  bool complex;
  Pos shape;
  bool known = false, alive = true;
  Values v;
  Pos hermitian; ///< Logical shape for which this is a half spectrum, if any
  const void* data = nullptr;
};
using BufPtr = std::shared_ptr<Buffer>;

template <Index N>
struct Slot {
  int kind = -1; ///< -1: nothing
  bool movedFrom = false;
  Pos logical;
  BufPtr in, out;
  bool ownsIn = false, ownsOut = false;
  Obj<Litl::RealDft<N>> real;
  Obj<typename Litl::RealDft<N>::Inverse> invReal;
  Obj<Litl::ComplexDft<N>> complex;
  Obj<typename Litl::ComplexDft<N>::Inverse> invComplex;
};

template <int K, Index N>
struct At;
template <Index N>
struct At<Real, N> {
  using Plan = Litl::RealDft<N>;
  static Obj<Plan>& of(Slot<N>& s) {
    return s.real;
  }
};
template <Index N>
struct At<InvReal, N> {
  using Plan = typename Litl::RealDft<N>::Inverse;
  static Obj<Plan>& of(Slot<N>& s) {
    return s.invReal;
  }
};
template <Index N>
struct At<Complex, N> {
  using Plan = Litl::ComplexDft<N>;
  static Obj<Plan>& of(Slot<N>& s) {
    return s.complex;
  }
};
template <Index N>
struct At<InvComplex, N> {
  using Plan = typename Litl::ComplexDft<N>::Inverse;
  static Obj<Plan>& of(Slot<N>& s) {
    return s.invComplex;
  }
};
constexpr int inverseKind(int k) {
  return k ^ 1;
}

template <Index N>
class Client {
public:
  Client(const Scenario& sc, int c, int d) : s(sc), client(c), dim(d) {}

  ~Client() {
    for (auto* u : users) {
      userFree(u);
    }
  }

  void run(std::size_t from, std::size_t to) {
    const auto& ops = s.clients[std::size_t(client)];
    for (std::size_t i = from; i < to && i < ops.size(); ++i) {
      trace("client %d op %zu %s", client, i, ops[i].name.c_str());
      step(ops[i], int(i));
      if (s.clients.size() == 1) {
        check(livePlans() == livePlanCount(), "plan-leak", "%zu plans are live in FFTW, %zu objects own one", livePlans(), livePlanCount());
      }
    }
  }

  std::size_t livePlanCount() const {
    std::size_t n = 0;
    for (auto& t : slots) {
      n += t.kind >= 0 && !t.movedFrom;
    }
    return n;
  }

  /// Destroys what is left, in any order
  void finish() {
    Rng r(u64(s.param("seed")) + u64(client));
    for (int n = 0; n < 3 * SlotCount; ++n) {
      destroy(slots[r.range(0, SlotCount - 1)]);
    }
    for (auto& t : slots) {
      destroy(t);
    }
  }

  void checkAll(const char* when) {
    for (auto& t : slots) {
      if (t.kind >= 0 && !t.movedFrom) {
        look(t, when);
      }
    }
  }

private:
  static constexpr int SlotCount = 4;
  const Scenario& s;
  int client;
  int dim;
  Slot<N> slots[SlotCount];
  std::vector<void*> users;

  /// Runs f, which may throw because of the faults of the operation; retries without fault
  template <typename F>
  void robust(int index, const char* what, F&& f) {
    std::string msg;
    opBegin(s, client, index);
    fftwBegin(s, client, index);
    const std::size_t blocks = liveBlocks();
    Res res = guarded(f, &msg);
    const int refused = fftwEnd();
    const int failed = opEnd();
    if (res != Res::Ok) {
      check(refused + failed > 0, "unexpected-exception", "%s threw %s", what, msg.c_str());
      check(res != Res::Error || refused, "unexpected-exception", "%s threw %s when out of memory", what, msg.c_str());
      probe(refused ? "creation_refused" : "creation_oom");
      if (s.clients.size() == 1) {
        check(liveBlocks() == blocks, "leak", "%s failed and leaked %zd blocks", what, ssize_t(liveBlocks()) - ssize_t(blocks));
        check(livePlans() == livePlanCount(), "plan-leak", "%s failed: %zu plans are live in FFTW, %zu objects own one", what, livePlans(), livePlanCount());
      }
      opBegin(s, client, -1);
      fftwBegin(s, client, -1);
      res = guarded(f, &msg);
      fftwEnd();
      opEnd();
      check(res == Res::Ok, "no-recovery", "%s throws %s although the cause of its failure is gone", what, msg.c_str());
    } else {
      check(refused == 0, "swallowed-refusal", "%s succeeded although FFTW refused to plan", what);
    }
  }

  template <typename F>
  void dispatch(int kind, F&& f) {
    switch (kind) {
      case Real:
        return f(std::integral_constant<int, Real> {});
      case InvReal:
        return f(std::integral_constant<int, InvReal> {});
      case Complex:
        return f(std::integral_constant<int, Complex> {});
      case InvComplex:
        return f(std::integral_constant<int, InvComplex> {});
    }
  }

  Slot<N>& slotOf(const Op& op, std::size_t i) {
    return slots[op.in(i, 0, SlotCount - 1)];
  }

  Pos shapeOf(const Op& op, std::size_t i) {
    Pos p;
    i64 left = MaxCount;
    for (int k = 0; k < dim; ++k) {
      i64 n = op.in(i + std::size_t(k), 1, MaxCount);
      if (n <= 12) {
        n = 1 + (n - 1) % (dim == 1 ? 12 : dim == 2 ? 6 : 4);
      }
      p.push_back(1 + (n - 1) % left);
      left /= p.back();
    }
    return p;
  }

  void destroy(Slot<N>& t) {
    if (t.kind < 0) {
      return;
    }
    dispatch(t.kind, [&](auto k) {
      At<decltype(k)::value, N>::of(t).reset();
    });
    if (!t.movedFrom) {
      t.in->alive = t.in->alive && !t.ownsIn;
      t.out->alive = t.out->alive && !t.ownsOut;
    }
    t.kind = -1;
    t.in.reset();
    t.out.reset();
  }

  BufPtr buffer(int kind, const Pos& logical, bool out) {
    auto b = std::make_shared<Buffer>();
    b->complex = out ? outIsComplex(kind) : inIsComplex(kind);
    b->shape = out ? outShapeOf(kind, logical) : inShapeOf(kind, logical);
    return b;
  }

  static std::size_t bytes(const Buffer& b) {
    return std::size_t(count(b.shape)) * (b.complex ? 16 : 8);
  }

  /// Where the plan says that its data is
  void locate(Slot<N>& t) {
    const void *in = nullptr, *out = nullptr;
    dispatch(t.kind, [&](auto k) {
      Lib lib;
      auto& p = *At<decltype(k)::value, N>::of(t);
      in = p.in().data();
      out = p.out().data();
    });
    auto place = [&](Buffer& b, const void* data, const char* what) {
      if (b.data) {
        check(b.data == data, "wrong-buffer", "the %s data is not at the given place", what);
      } else {
        b.data = data;
        check(blockOf(data), "wrong-buffer", "the %s data is not in a live block", what);
      }
      check(blockOf(data) && std::uintptr_t(data) + bytes(b) <= blockOf(data)->addr + blockOf(data)->size, "wrong-buffer", "the %s data does not fit in its block", what);
    };
    place(*t.in, in, "input");
    place(*t.out, out, "output");
  }

  Values actual(const Buffer& b) {
    Values v(std::size_t(count(b.shape)));
    const auto* d = static_cast<const double*>(b.data);
    for (std::size_t i = 0; i < v.size(); ++i) {
      v[i] = b.complex ? C(d[2 * i], d[2 * i + 1]) : C(d[i], 0);
    }
    return v;
  }

  void compareBuffer(const Buffer& b, const char* what, const char* when) {
    if (!b.known) {
      return;
    }
    const Values v = actual(b);
    for (std::size_t i = 0; i < v.size(); ++i) {
      check(v[i] == b.v[i], "interference", "%s: the %s buffer changed at %s: %.17g%+.17gi instead of %.17g%+.17gi", when, what, str(unindex(b.shape, i64(i))).c_str(), v[i].real(), v[i].imag(), b.v[i].real(), b.v[i].imag());
    }
  }

  template <typename P>
  static bool sameShape(const P& p, const Pos& q) {
    bool ok = p.size() == q.size();
    for (std::size_t i = 0; ok && i < q.size(); ++i) {
      ok = p[Index(i)] == q[i];
    }
    return ok;
  }

  bool usable(const Slot<N>& t) const {
    return t.kind >= 0 && !t.movedFrom && t.in->alive && t.out->alive;
  }

  void look(Slot<N>& t, const char* when) {
    bool ok = true;
    double factor = 0;
    const bool data = usable(t);
    dispatch(t.kind, [&](auto k) {
      Lib lib;
      auto& p = *At<decltype(k)::value, N>::of(t);
      const auto& cp = p;
      ok = sameShape(cp.logicalShape(), t.logical) && sameShape(cp.inShape(), t.in->shape) && sameShape(cp.outShape(), t.out->shape);
      ok = ok && sameShape(cp.in().shape(), t.in->shape) && sameShape(cp.out().shape(), t.out->shape);
      ok = ok && cp.in().data() == t.in->data && cp.out().data() == t.out->data && p.in().data() == t.in->data && p.out().data() == t.out->data;
      factor = cp.normalizationFactor();
    });
    check(ok, "wrong-shape", "%s: shapes or data addresses of the plan are wrong", when);
    check(factor == double(count(t.logical)), "wrong-shape", "%s: normalization factor %g", when, factor);
    if (data) {
      compareBuffer(*t.in, "input", when);
      compareBuffer(*t.out, "output", when);
    }
  }

  /// Everything but the target is dead or lives on: check what may have changed
  void adopt(Slot<N>& t, int kind, const Pos& logical, BufPtr in, BufPtr out, bool ownsIn, bool ownsOut) {
    t.kind = kind;
    t.movedFrom = false;
    t.logical = logical;
    t.in = in;
    t.out = out;
    t.ownsIn = ownsIn;
    t.ownsOut = ownsOut;
    in->known = out->known = false; // Planning leaves garbage
    in->hermitian = out->hermitian = Pos();
    locate(t);
    look(t, "creation");
  }

  void step(const Op& op, int index) {
    const std::string& k = op.name;
    Slot<N>& a = slotOf(op, 0);
    if (k == "create" || (a.kind < 0 && k != "helper")) {
      return create(a, op, index);
    }
    if (k == "destroy") {
      return destroy(a);
    }
    if (k == "helper") {
      return helper(op, index);
    }
    if (a.movedFrom) {
      return;
    }
    Slot<N>& b = slotOf(op, 1);
    if (k == "read") {
      look(a, "reading");
      return;
    }
    if (k == "move") {
      return move(a, b);
    }
    if (!usable(a)) {
      probe("dangling");
      return;
    }
    if (k == "inverse") {
      return inverse(a, b, index);
    }
    if (k == "compose") {
      return compose(a, b, op, index);
    }
    if (k == "fill") {
      return fill(a, u64(op.arg(1)));
    }
    if (k == "transform") {
      return transform(a, index);
    }
    if (k == "normalize") {
      return normalize(a, index);
    }
    if (k == "round") { // Fill, forward, inverse, normalise
      fill(a, u64(op.arg(2)));
      transform(a, index);
      if (&a != &b) {
        inverseIfNeeded(a, b, index);
        if (b.kind >= 0 && usable(b)) {
          transform(b, index);
          normalize(b, index);
        }
      }
    }
  }

  void inverseIfNeeded(Slot<N>& a, Slot<N>& b, int index) {
    if (b.kind >= 0 && usable(b) && b.in == a.out && b.out == a.in && b.kind == inverseKind(a.kind)) {
      return;
    }
    if (b.kind >= 0) {
      return;
    }
    inverse(a, b, index);
    fill(a, 3);
    transform(a, index);
  }

  void create(Slot<N>& a, const Op& op, int index) {
    destroy(a);
    const int kind = int(op.in(1, 0, KindCount - 1));
    const Pos logical = shapeOf(op, 4);
    auto in = buffer(kind, logical, false), out = buffer(kind, logical, true);
    const i64 mode = op.in(2, 0, 4); // Own buffers, user input, user output, both, in place
    const std::size_t align = std::size_t(16) << op.in(3, 0, 3);
    bool ownsIn = true, ownsOut = true;
    if (mode == 4 && kind >= Complex) {
      in->data = user(bytes(*in), align);
      out = in;
      ownsIn = ownsOut = false;
    } else {
      if (mode == 1 || mode == 3) {
        in->data = user(bytes(*in), align);
        ownsIn = false;
      }
      if (mode == 2 || mode == 3) {
        out->data = user(bytes(*out), align);
        ownsOut = false;
      }
    }
    dispatch(kind, [&](auto k) {
      using A = At<decltype(k)::value, N>;
      using P = typename A::Plan;
      auto* i = static_cast<typename P::InValue*>(const_cast<void*>(in->data));
      auto* o = static_cast<typename P::OutValue*>(const_cast<void*>(out->data));
      this->robust(index, "creation", [&] {
        const auto shape = position<N>(logical);
        A::of(a).makeBy2([&](void* m) {
          if (!i && !o) {
            new (m) P(shape);
          } else if (!o) {
            new (m) P(shape, i);
          } else {
            new (m) P(shape, i, o);
          }
        });
      });
    });
    adopt(a, kind, logical, in, out, ownsIn, ownsOut);
  }

  void* user(std::size_t n, std::size_t align) {
    users.push_back(userAlloc(n, align));
    return users.back();
  }

  void inverse(Slot<N>& a, Slot<N>& b, int index) {
    if (&a == &b) {
      return;
    }
    destroy(b);
    if (!usable(a)) {
      return;
    }
    dispatch(a.kind, [&](auto k) {
      using A = At<decltype(k)::value, N>;
      using B = At<inverseKind(decltype(k)::value), N>;
      this->robust(index, "inversion", [&] {
        B::of(b).makeBy([&] {
          return A::of(a)->inverse();
        });
      });
    });
    adopt(b, inverseKind(a.kind), a.logical, a.out, a.in, false, false);
  }

  void compose(Slot<N>& a, Slot<N>& b, const Op& op, int index) {
    if (&a == &b) {
      return;
    }
    destroy(b);
    if (!usable(a)) {
      return;
    }
    Pos logical = a.out->shape;
    int kind = Real;
    if (a.out->complex) {
      kind = int(op.in(2, 1, 3));
      if (kind == InvReal) {
        const bool odd = op.in(3, 0, 1) || logical[0] == 1;
        logical[0] = 2 * (logical[0] - 1) + (odd ? 1 : 0);
      }
    }
    auto out = buffer(kind, logical, true);
    dispatch(a.kind, [&](auto k) {
      using A = At<decltype(k)::value, N>;
      this->dispatch(kind, [&](auto l) {
        using B = At<decltype(l)::value, N>;
        this->composeTo<A, B>(a, b, logical, index, std::is_same<typename A::Plan::OutValue, typename B::Plan::InValue> {});
      });
    });
    adopt(b, kind, logical, a.out, out, false, true);
  }

  template <typename A, typename B>
  void composeTo(Slot<N>& a, Slot<N>& b, const Pos& logical, int index, std::true_type) {
    robust(index, "composition", [&] {
      const auto shape = position<N>(logical);
      B::of(b).makeBy([&] {
        return A::of(a)->template compose<typename B::Plan>(shape);
      });
    });
  }
  template <typename A, typename B>
  void composeTo(Slot<N>&, Slot<N>&, const Pos&, int, std::false_type) {}

  void fill(Slot<N>& t, u64 seed) {
    const Values v = inputOf(t.kind, t.logical, seed);
    dispatch(t.kind, [&](auto k) {
      using A = At<decltype(k)::value, N>;
      this->fillWith(*A::of(t), v);
    });
    t.in->known = true;
    t.in->v = v;
    t.in->hermitian = t.kind == InvReal ? t.logical : Pos();
    if (t.in != t.out) {
      compareBuffer(*t.out, "output", "filling");
    }
  }
  static void put(double& d, C v) {
    d = v.real();
  }
  static void put(C& d, C v) {
    d = v;
  }
  template <typename P>
  void fillWith(P& plan, const Values& v) {
    Lib lib;
    std::size_t i = 0;
    for (auto& e : plan.in()) {
      put(e, v[i++]);
    }
  }

  void transform(Slot<N>& t, int index) {
    (void)index;
    look(t, "before transform");
    const Values in = t.in->known ? t.in->v : Values();
    bool ok = true;
    std::string msg;
    dispatch(t.kind, [&](auto k) {
      auto& p = *At<decltype(k)::value, N>::of(t);
      ok = guarded([&] {
             auto* q = &p.transform();
             if (q != &p) {
               throw std::runtime_error("transform() does not return the plan");
             }
           }, &msg) == Res::Ok;
    });
    check(ok, "unexpected-exception", "transform threw %s", msg.c_str());
    const bool defined = !in.empty() && (t.kind != InvReal || t.in->hermitian == t.logical);
    const Values out = actual(*t.out);
    if (defined) {
      const Values want = expected(t.kind, in, t.logical);
      const double tol = 1e-12 * magnitude(in) + 1e-300;
      for (std::size_t i = 0; i < out.size(); ++i) {
        check(std::abs(out[i] - want[i]) <= tol, "wrong-transform", "transform of kind %d, shape %s: %.17g%+.17gi at %s, should be %.17g%+.17gi", t.kind, str(t.logical).c_str(), out[i].real(), out[i].imag(), str(unindex(t.out->shape, i64(i))).c_str(), want[i].real(), want[i].imag());
        mixDouble(out[i].real());
      }
      probe(t.ownsIn && t.ownsOut ? "transformed_own" : t.in == t.out ? "transformed_in_place" : "transformed_shared");
    }
    t.in->known = false;
    t.out->known = defined && std::isfinite(magnitude(out)) && magnitude(out) < 1e200;
    t.out->v = out;
    t.out->hermitian = t.kind == Real && defined ? t.logical : Pos();
    if (t.out->known && !t.out->hermitian.empty()) {
      // Exactly Hermitian up to rounding errors, which the next transform may see
    }
  }

  void normalize(Slot<N>& t, int index) {
    (void)index;
    look(t, "before normalization");
    std::string msg;
    Res r = Res::Ok;
    dispatch(t.kind, [&](auto k) {
      auto& p = *At<decltype(k)::value, N>::of(t);
      r = guarded([&] {
        if (&p.normalize() != &p) {
          throw std::runtime_error("normalize() does not return the plan");
        }
      }, &msg);
    });
    check(r == Res::Ok, "unexpected-exception", "normalize threw %s", msg.c_str());
    if (t.out->known) {
      const Values out = actual(*t.out);
      const double n = double(count(t.logical));
      for (std::size_t i = 0; i < out.size(); ++i) {
        const C want = t.out->v[i] / n;
        check(std::abs(out[i] - want) <= 1e-14 * std::abs(want), "wrong-normalization", "normalization gives %.17g at %zu, should be %.17g", out[i].real(), i, want.real());
      }
      t.out->v = out;
    }
    if (t.in != t.out) {
      compareBuffer(*t.in, "input", "normalization");
    }
  }

  void move(Slot<N>& a, Slot<N>& b) {
    if (&a == &b) {
      return;
    }
    const bool assign = b.kind == a.kind;
    if (!assign) {
      destroy(b);
    } else if (!b.movedFrom) {
      b.in->alive = b.in->alive && !b.ownsIn;
      b.out->alive = b.out->alive && !b.ownsOut;
      probe("move_assigned");
    }
    dispatch(a.kind, [&](auto k) {
      using A = At<decltype(k)::value, N>;
      if (assign) {
        Lib lib;
        *A::of(b) = std::move(*A::of(a));
      } else {
        A::of(b).make(std::move(*A::of(a)));
      }
    });
    b.kind = a.kind;
    b.movedFrom = false;
    b.logical = a.logical;
    b.in = a.in;
    b.out = a.out;
    b.ownsIn = a.ownsIn;
    b.ownsOut = a.ownsOut;
    a.movedFrom = true;
    a.ownsIn = a.ownsOut = false;
    look(b, "move");
  }

  void helper(const Op& op, int index) {
    const int kind = int(op.in(1, 0, KindCount - 1));
    const Pos logical = shapeOf(op, 4);
    const Pos inShape = inShapeOf(kind, logical), outShape = outShapeOf(kind, logical);
    const Values v = inputOf(kind, logical, u64(op.arg(2)));
    Values got;
    Pos gotShape;
    if (kind == Real) {
      Obj<Litl::Raster<double, N>> in;
      in.make(position<N>(inShape));
      for (std::size_t i = 0; i < v.size(); ++i) {
        const_cast<double*>(in->data())[i] = v[i].real();
      }
      result(index, got, gotShape, [&] {
        return Litl::realDft(*in);
      });
      for (std::size_t i = 0; i < v.size(); ++i) {
        check(in->data()[i] == v[i].real(), "input-changed", "a transform function changed its input");
      }
    } else {
      Obj<Litl::Raster<C, N>> in;
      in.make(position<N>(inShape));
      for (std::size_t i = 0; i < v.size(); ++i) {
        const_cast<C*>(in->data())[i] = v[i];
      }
      if (kind == InvReal) {
        result(index, got, gotShape, [&] {
          return Litl::inverseRealDft(*in, position<N>(logical));
        });
      } else if (kind == Complex) {
        result(index, got, gotShape, [&] {
          return Litl::complexDft(*in);
        });
      } else {
        result(index, got, gotShape, [&] {
          return Litl::inverseComplexDft(*in);
        });
      }
      for (std::size_t i = 0; i < v.size(); ++i) {
        check(in->data()[i] == v[i], "input-changed", "a transform function changed its input");
      }
    }
    check(gotShape == outShape, "wrong-shape", "a transform function gave the shape %s", str(gotShape).c_str());
    Values want = expected(kind, v, logical);
    const double n = kind == InvReal || kind == InvComplex ? double(count(logical)) : 1;
    for (std::size_t i = 0; i < got.size(); ++i) {
      check(std::abs(got[i] - want[i] / n) <= 1e-12 * magnitude(v) + 1e-300, "wrong-transform", "transform function of kind %d, shape %s: %.17g%+.17gi at %zu, should be %.17g%+.17gi", kind, str(logical).c_str(), got[i].real(), got[i].imag(), i, want[i].real() / n, want[i].imag() / n);
    }
    probe("helper");
  }

  template <typename F>
  void result(int index, Values& got, Pos& shape, F&& f) {
    using R = std::decay_t<decltype(f())>;
    Obj<R> out;
    robust(index, "a transform function", [&] {
      out.makeBy(f);
    });
    for (auto e : out->shape()) {
      shape.push_back(e);
    }
    for (i64 i = 0; i < count(shape); ++i) {
      got.push_back(C(out->data()[i]));
    }
  }
};

template <Index N>
void go(const Scenario& s, int dim = N) {
  const int n = int(std::min<std::size_t>(s.clients.size(), 3));
  fftwSeed(u64(s.param("planner")));
  {
    std::vector<std::unique_ptr<Client<N>>> clients;
    std::vector<std::size_t> pre;
    for (int c = 0; c < n; ++c) {
      clients.push_back(std::make_unique<Client<N>>(s, c, dim));
      pre.push_back(std::size_t(s.in("pre", 0, 100, std::size_t(c))));
      clients.back()->run(0, pre.back());
    }
    runClients(n, [&](int c) {
      auto& client = *clients[std::size_t(c)];
      client.run(pre[std::size_t(c)], 1000);
      client.checkAll("end");
      if (s.in("finish", 0, 1, std::size_t(c))) {
        client.finish();
      }
    });
    std::size_t live = 0;
    for (auto& c : clients) {
      live += c->livePlanCount();
    }
    check(livePlans() == live, "plan-leak", "%zu plans are live in FFTW, %zu objects own one", livePlans(), live);
    for (auto& c : clients) {
      c->checkAll("after all threads");
      c->finish();
    }
    check(livePlans() == 0, "plan-leak", "%zu plans are live after the destruction of all objects", livePlans());
  }
  checkNoLeak("DFT");
}

void part1(const Scenario& s);
void part2(const Scenario& s);
void part3(const Scenario& s);

#if SIM_PART == 1
void part1(const Scenario& s) {
  go<1>(s); // INST
}
#elif SIM_PART == 2
void part2(const Scenario& s) {
  go<3>(s); // INST
}
#elif SIM_PART == 3
void part3(const Scenario& s) {
  go<-1>(s, int(s.in("dim", 1, 3))); // INST
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  switch (s.in("type", 0, 3)) {
    case 0:
      return part1(s);
    case 1:
      return part2(s);
    case 2:
      return part3(s);
    default:
      return go<2>(s); // INST
  }
}

void shapeArgs(std::vector<i64>& a, Rng& r) {
  const i64 large = r.chance(1, 30) ? r.range(0, 2) : 3; // This axis
  for (int i = 0; i < 3; ++i) {
    a.push_back(i == large ? r.range(13, MaxCount) : r.range(1, large < 3 ? 2 : 12));
  }
}

/// bias: 12 values and concurrency, 13 life cycle and faults
void generate(Scenario& s, Rng& r, int tier, int bias) {
  s.set("type", {r.range(0, 3)});
  s.set("dim", {r.range(1, 3)});
  s.set("seed", {r.range(0, 1000)});
  s.set("planner", {r.range(0, 100000)});
  const int n = r.chance(bias == 12 ? 4 : 1, 5) ? int(r.range(2, 3)) : 1;
  std::vector<i64> pre, finish;
  for (int c = 0; c < n; ++c) {
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(2, tier ? 20 : n > 1 ? 9 : 14));
    pre.push_back(r.chance(1, 2) ? r.range(0, 3) : 0);
    finish.push_back(r.range(0, 1));
    for (int i = 0; i < len; ++i) {
      const i64 a = r.range(0, 3), b = r.range(0, 3);
      const i64 w = i == 0 ? 0 : r.range(0, bias == 12 ? 11 : 13);
      switch (w) {
        case 0: {
          std::vector<i64> v = {i == 0 ? 0 : a, r.range(0, 3), r.chance(1, 2) ? 0 : r.range(0, 4), r.range(0, 3)};
          shapeArgs(v, r);
          s.op(cc, "create", v);
          break;
        }
        case 1:
        case 2:
          s.op(cc, "inverse", {a, b});
          break;
        case 3:
          s.op(cc, "compose", {a, b, r.range(1, 3), r.range(0, 1)});
          break;
        case 4:
          s.op(cc, "fill", {r.chance(1, 2) ? 0 : a, r.range(0, 1000)});
          break;
        case 5:
        case 6:
          s.op(cc, bias == 12 && r.chance(1, 2) ? "round" : "transform", {r.chance(1, 2) ? 0 : a, b, r.range(0, 1000)});
          break;
        case 7:
          s.op(cc, "normalize", {a});
          break;
        case 8:
          s.op(cc, "read", {a});
          break;
        case 9: {
          std::vector<i64> v = {0, r.range(0, 3), r.range(0, 1000), 0};
          shapeArgs(v, r);
          s.op(cc, "helper", v);
          break;
        }
        case 10:
          s.op(cc, "round", {a, b, r.range(0, 1000)});
          break;
        case 11:
        case 12:
          s.op(cc, "move", {a, b});
          break;
        default:
          s.op(cc, "destroy", {a});
      }
      if (r.chance(bias == 12 ? 1 : 3, 12)) {
        if (r.chance(1, 3)) {
          s.fault("refuse", {c, i, r.range(0, 1)});
        } else {
          s.fault("alloc", {c, i, r.range(0, 6), r.range(1, 2)});
        }
      }
    }
  }
  s.set("pre", pre);
  s.set("finish", finish);
}

Register reg12("C12", [](Scenario& s, Rng& r, int tier) { generate(s, r, tier, 12); }, execute);
Register reg13("C13", [](Scenario& s, Rng& r, int tier) { generate(s, r, tier, 13); }, execute);
#endif

} // namespace simdft
