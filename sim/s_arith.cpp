// SIM_PARTS 7
// C23: histories of element-wise operators and functions of containers which share operands, with allocation failures.
#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlTypes/Exceptions.h"

#include "img.h"

using namespace sim;

namespace simarith {

constexpr int Own = 3; ///< Containers of a client
constexpr int Shared = 2; ///< Constant containers of all clients

template <typename T>
struct IsComplex : std::false_type {};
template <typename T>
struct IsComplex<std::complex<T>> : std::true_type {};

/// 0: integer, 1: real, 2: complex
template <typename T>
using Sort = std::integral_constant<int, IsComplex<T>::value ? 2 : std::is_floating_point<T>::value ? 1 : 0>;
using Integer = std::integral_constant<int, 0>;
using Real = std::integral_constant<int, 1>;
using Complex = std::integral_constant<int, 2>;

template <typename T>
T valueAs(i64 v, Integer) {
  if (sizeof(T) == 8) { // Far positions
    return T(v % 5 == 0 ? v * 1000003 : v % 7 == 1 ? v << 40 : v);
  }
  return std::is_signed<T>::value ? T(v) : T(v < 0 ? -v : v);
}
template <typename T>
T valueAs(i64 v, Real) {
  const auto m = ((v % 16) + 16) % 16;
  return m == 7 ? T(v) * T(1e-9) : m == 3 ? T(v) * T(1024) : m == 5 ? T(v) / 3 : T(v) / 4;
}
template <typename T>
T valueAs(i64 v, Complex) {
  return T(typename T::value_type(v) / 4, typename T::value_type(v % 7));
}

/// Whether a result is representable and every intermediate one too
template <typename T>
bool fits(__int128 v) {
  const __int128 one = 1;
  return sizeof(T) == 8 ? v < (one << 62) && v > -(one << 62) : v < (one << 30) && v > -(one << 30);
}

#define SIM_OPERATOR(NAME, OP, ASSIGN) \
  struct NAME { \
    static const char* name() { \
      return #OP; \
    } \
    template <typename A, typename B> \
    static auto f(const A& a, const B& b) { \
      return a OP b; \
    } \
    template <typename A, typename B> \
    static bool in(A& a, const B& b) { \
      return &(a ASSIGN b) == &a; \
    } \
  };
SIM_OPERATOR(Plus, +, +=)
SIM_OPERATOR(Minus, -, -=)
SIM_OPERATOR(Times, *, *=)
SIM_OPERATOR(Over, /, /=)
SIM_OPERATOR(Modulo, %, %=)

/// Scalar operators, false if undefined
template <typename Op, typename T>
bool scalar(const T& a, const T& b, T& out, Integer) {
  const bool division = std::is_same<Op, Over>::value || std::is_same<Op, Modulo>::value;
  if (division && b == 0) {
    return false;
  }
  if (!division && !fits<T>(std::is_same<Op, Plus>::value      ? __int128(a) + b
                                : std::is_same<Op, Minus>::value ? __int128(a) - b
                                                                 : __int128(a) * b)) {
    return false;
  }
  out = T(Op::f(a, b));
  return true;
}
template <typename Op, typename T>
bool scalar(const T& a, const T& b, T& out, Real) {
  out = Op::f(a, b);
  return true;
}
template <typename Op, typename T>
bool scalar(const T& a, const T& b, T& out, Complex) {
  if (std::is_same<Op, Over>::value && b == T(0)) {
    return false;
  }
  out = Op::f(a, b);
  return std::isfinite(std::abs(out));
}

template <typename T>
bool closeTo(T got, T want, Integer) {
  return got == want;
}
template <typename T>
bool closeTo(T got, T want, Real) {
  if (std::isnan(want) || std::isnan(got)) {
    return std::isnan(want) && std::isnan(got);
  }
  if (std::isinf(want) || std::isinf(got)) {
    return want == got;
  }
  return std::fabs(got - want) <= std::numeric_limits<T>::epsilon() * 16 * std::fabs(want) + std::numeric_limits<T>::min();
}
template <typename T>
bool closeTo(T got, T want, Complex) {
  const auto m = std::abs(want);
  return std::isfinite(m) ? std::abs(got - want) <= std::numeric_limits<typename T::value_type>::epsilon() * 32 * m : true;
}

template <typename T>
double magnitude(T v, Integer) {
  return std::fabs(double(v));
}
template <typename T, typename S>
double magnitude(T v, S) {
  return double(std::abs(v));
}

template <typename T>
std::string show(T v, Integer) {
  return std::to_string(v);
}
template <typename T>
std::string show(T v, Real) {
  char b[64];
  std::snprintf(b, sizeof(b), "%.17g", double(v));
  return b;
}
template <typename T>
std::string show(T v, Complex) {
  return show(v.real(), Real()) + "+i" + show(v.imag(), Real());
}
template <typename T>
std::string show(T v) {
  return show(v, Sort<T>());
}

/// Containers
template <typename C>
struct Kind;
template <typename T, typename H>
struct Kind<Litl::Sequence<T, H>> {
  using C = Litl::Sequence<T, H>;
  static constexpr bool Euclid = true;
  static constexpr bool Flat = true;
  static i64 count(const Pos& shape) {
    return sim::count(shape);
  }
  static void make(Obj<C>& o, const Pos& shape) {
    o.makeBy([&] {
      return C(std::size_t(count(shape)));
    });
  }
};
template <typename T, Index N, typename H>
struct Kind<Litl::Raster<T, N, H>> {
  using C = Litl::Raster<T, N, H>;
  static constexpr bool Euclid = true;
  static constexpr bool Flat = false;
  static i64 count(const Pos& shape) {
    return sim::count(shape);
  }
  static void make(Obj<C>& o, const Pos& shape) {
    o.makeBy([&] {
      return C(position<N>(shape));
    });
  }
};
template <typename T, Index N>
struct Kind<Litl::Vector<T, N>> {
  using C = Litl::Vector<T, N>;
  static constexpr bool Euclid = false;
  static constexpr bool Flat = true;
  static i64 count(const Pos& shape) {
    return N == -1 ? sim::count(shape) : N;
  }
  static void make(Obj<C>& o, const Pos& shape) {
    o.makeBy([&] {
      return C(T(count(shape)));
    });
  }
};

// Functions: name, as method and as free function
#define SIM_UNARY_ALL(X) X(abs)
#define SIM_UNARY_REAL(X) X(ceil) X(floor) X(trunc) X(round) X(sqrt)
#define SIM_UNARY_FLOAT(X) \
  X(cos) \
  X(sin) \
  X(tan) \
  X(acos) \
  X(asin) \
  X(atan) X(cosh) X(sinh) X(tanh) X(acosh) X(asinh) X(atanh) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(logb) X(ilogb) X(log1p) X( \
      cbrt) X(erf) X(erfc) X(tgamma) X(lgamma)
#define SIM_UNARY_COMPLEX(X) X(exp) X(log) X(sqrt) X(sin) X(cos)
#define SIM_BINARY_REAL(X) X(max) X(min) X(fdim) X(fmod) X(pow)
#define SIM_BINARY_FLOAT(X) X(atan2) X(hypot)
#define SIM_BINARY_COMPLEX(X) X(pow)

static const char* const functionNames[] = {"abs",  "ceil", "floor", "trunc", "round", "sqrt",  "cos",   "sin",  "tan",   "acos",
                                            "asin", "atan", "cosh",  "sinh",  "tanh",  "acosh", "asinh", "atanh", "exp",  "exp2",
                                            "expm1", "log", "log2",  "log10", "logb",  "ilogb", "log1p", "cbrt", "erf",   "erfc",
                                            "tgamma", "lgamma"};
static const char* const binaryNames[] = {"max", "min", "fdim", "fmod", "pow", "atan2", "hypot"};

#define SIM_UNARY_CASE(F) \
  if (name == #F) { \
    return v.template unary<T>( \
        [](T e) { \
          return std::F(e); \
        }, \
        [](auto& c) -> auto& { \
          return c.F(); \
        }, \
        [](const auto& c) { \
          return Litl::F(c); \
        }); \
  }
#define SIM_BINARY_CASE(F) \
  if (name == #F) { \
    return v.template binary<T>( \
        [](T e, T f) { \
          return std::F(e, f); \
        }, \
        [](auto& c, const auto& o) -> auto& { \
          return c.F(o); \
        }, \
        [](const auto& c, const auto& o) { \
          return Litl::F(c, o); \
        }); \
  }

template <typename T, typename V>
bool unary(const std::string& name, V&& v, Integer) {
  SIM_UNARY_ALL(SIM_UNARY_CASE)
  SIM_UNARY_REAL(SIM_UNARY_CASE)
  return false;
}
template <typename T, typename V>
bool unary(const std::string& name, V&& v, Real) {
  SIM_UNARY_ALL(SIM_UNARY_CASE)
  SIM_UNARY_REAL(SIM_UNARY_CASE)
  SIM_UNARY_FLOAT(SIM_UNARY_CASE)
  return false;
}
template <typename T, typename V>
bool unary(const std::string& name, V&& v, Complex) {
  SIM_UNARY_COMPLEX(SIM_UNARY_CASE)
  return false;
}
template <typename T, typename V>
bool binary(const std::string& name, V&& v, Integer) {
  SIM_BINARY_REAL(SIM_BINARY_CASE)
  return false;
}
template <typename T, typename V>
bool binary(const std::string& name, V&& v, Real) {
  SIM_BINARY_REAL(SIM_BINARY_CASE)
  SIM_BINARY_FLOAT(SIM_BINARY_CASE)
  return false;
}
template <typename T, typename V>
bool binary(const std::string& name, V&& v, Complex) {
  SIM_BINARY_COMPLEX(SIM_BINARY_CASE)
  return false;
}

/// Convert the output of a function, false if undefined
template <typename T, typename R>
bool converted(R r, T& out, Integer) {
  if (!(std::fabs(double(r)) < (sizeof(T) == 8 ? 4e18 : sizeof(T) == 4 ? 1e9 : 2e9))) {
    return false;
  }
  if (sizeof(T) < 4 && !(double(r) > double(std::numeric_limits<T>::lowest()) - 1 && double(r) < double(std::numeric_limits<T>::max()) + 1)) {
    return false; // Undefined if from a floating point number
  }
  out = T(r);
  return true;
}
template <typename T, typename R>
bool converted(R r, T& out, Real) {
  out = T(r);
  return true;
}
template <typename T, typename R>
bool converted(R r, T& out, Complex) {
  out = T(r);
  return std::isfinite(std::abs(out));
}

template <typename C>
struct World {
  using T = typename C::value_type;
  using K = Kind<C>;
  using S = Sort<T>;
  using Model = std::vector<T>;

  const Scenario& s;
  int client;
  Pos shape;
  std::size_t n;
  Obj<C> own[Own];
  const Obj<C>* shared; ///< Read by all
  Model models[Own + Shared];
  Op op;
  int index = 0;

  World(const Scenario& sc, int c, const Pos& sh) : s(sc), client(c), shape(sh), n(std::size_t(K::count(sh))) {}

  C& mine(int i) {
    return *own[i];
  }
  const C& at(int i) {
    return i < Own ? *own[i] : *shared[i - Own];
  }

  /// Compare container number i with the model, and adopt the (close) values
  void verify(int i, const char* what) {
    const C& c = at(i);
    auto& m = models[i];
    check(c.size() == n, "size", "after %s, the size is %zu, should be %zu", what, std::size_t(c.size()), n);
    const T* d = c.data();
    for (std::size_t k = 0; k < n; ++k) {
      if (!closeTo(d[k], m[k], S())) {
        fail(i < Own && i == changed ? "value" : "operand-changed", "after %s, element %zu of %zu is %s, should be %s", what, k, n,
             show(d[k]).c_str(), show(m[k]).c_str());
      }
      m[k] = d[k];
    }
  }
  int changed = -1;

  void verifyAll(const char* what) {
    if (n <= 64) {
      for (int i = 0; i < Own + Shared; ++i) {
        verify(i, what);
      }
    } else if (changed >= 0) {
      verify(changed, what);
    }
  }

  /// Run library code; true if done, false if it ran out of memory, and then nothing has changed
  template <typename F>
  bool lib(const char* what, F&& f) {
    opBegin(s, client, index);
    std::string msg;
    const auto r = guarded(f, &msg);
    const int fired = opEnd();
    check(r == Res::Ok || (r == Res::Oom && fired), "exception", "%s threw %s", what, msg.c_str());
    if (r != Res::Ok) {
      probe("oom");
    }
    return r == Res::Ok;
  }

  void apply(int dst, const char* what, bool done, const Model& want) {
    changed = dst;
    if (done) {
      models[dst] = want;
      probe(what);
    }
    verifyAll(what);
    changed = -1;
  }

  // Operators

  template <typename O>
  bool elementwise(const Model& a, const Model& b, Model& out) {
    out.resize(n);
    for (std::size_t k = 0; k < n; ++k) {
      if (!simarith::scalar<O>(a[k], b[k], out[k], S())) {
        return false;
      }
    }
    return true;
  }

  template <typename O>
  void inplaceVector(int d, int b, std::true_type) {
    Model want;
    if (!elementwise<O>(models[d], models[b], want)) {
      return;
    }
    bool self = false;
    auto& c = mine(d);
    const auto& o = at(b);
    const bool done = lib(O::name(), [&] {
      self = O::in(c, o);
    });
    check(!done || self, "return", "operator %s= does not return the container", O::name());
    apply(d, d == b ? "in_place_self" : "in_place_container", done, want);
  }
  template <typename O>
  void inplaceVector(int, int, std::false_type) {}

  template <typename O>
  void newVector(int d, int a, int b, std::true_type) {
    Model want;
    if (!elementwise<O>(models[a], models[b], want)) {
      return;
    }
    auto& c = mine(d);
    const auto& l = at(a);
    const auto& r = at(b);
    const bool done = lib(O::name(), [&] {
      c = O::f(l, r);
    });
    apply(d, "new_container", done, want);
  }
  template <typename O>
  void newVector(int, int, int, std::false_type) {}

  template <typename O>
  void leftScalar(int d, int a, const T& v, std::true_type) {
    Model want;
    if (!elementwise<O>(Model(n, v), models[a], want)) {
      return;
    }
    auto& c = mine(d);
    const auto& r = at(a);
    const bool done = lib(O::name(), [&] {
      c = O::f(v, r);
    });
    apply(d, "left_scalar", done, want);
  }
  template <typename O>
  void leftScalar(int, int, const T&, std::false_type) {}

  template <typename O, bool Vectors, bool Left>
  void operate() {
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const int b = int(op.in(3, 0, Own + Shared - 1));
    const T value = valueAs<T>(op.arg(5), S());
    const std::size_t k = n ? std::size_t(op.in(5, 0, i64(n) - 1)) : 0;
    const bool element = n && op.arg(4) % 2;
    trace("%s mode %ld: %d <- %d, %d, %s", O::name(), op.in(1, 0, 4), d, a, b, element ? ("element " + std::to_string(k)).c_str() : show(value).c_str());
    switch (op.in(1, 0, 4)) {
      case 0:
        return inplaceVector<O>(d, b, std::integral_constant<bool, Vectors>());
      case 1: {
        const T& v = element ? static_cast<const T&>(mine(d)[k]) : value;
        Model want;
        if (!elementwise<O>(models[d], Model(n, v), want)) {
          return;
        }
        bool self = false;
        auto& c = mine(d);
        const bool done = lib(O::name(), [&] {
          self = O::in(c, v);
        });
        check(!done || self, "return", "operator %s= does not return the container", O::name());
        return apply(d, element ? "in_place_own_element" : "in_place_scalar", done, want);
      }
      case 2:
        return newVector<O>(d, a, b, std::integral_constant<bool, Vectors>());
      case 3: {
        const T& v = element ? at(a)[k] : value;
        Model want;
        if (!elementwise<O>(models[a], Model(n, v), want)) {
          return;
        }
        auto& c = mine(d);
        const auto& l = at(a);
        const bool done = lib(O::name(), [&] {
          c = O::f(l, v);
        });
        return apply(d, "right_scalar", done, want);
      }
      default:
        return leftScalar<O>(d, a, element ? at(a)[k] : value, std::integral_constant<bool, Left>());
    }
  }

  void modulo(Integer) {
    operate<Modulo, true, false>();
  }
  template <typename X>
  void modulo(X) {}

  /// Increment, decrement, signs
  void signs() {
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const int o = (d + 1) % Own;
    const i64 mode = op.in(1, 0, 5);
    trace("sign mode %ld: %d <- %d", mode, d, a);
    steps(d, a, o, mode, S());
  }
  void steps(int d, int a, int o, i64 mode, Complex) {
    unaryOperators(d, a, 4 + mode % 2);
  }
  template <typename X>
  void steps(int d, int a, int o, i64 mode, X) {
    if (mode >= 4) {
      return unaryOperators(d, a, mode);
    }
    Model want;
    const T one(1);
    if (!(mode % 2 ? elementwise<Minus>(models[d], Model(n, one), want) : elementwise<Plus>(models[d], Model(n, one), want))) {
      return;
    }
    auto& c = mine(d);
    auto& old = mine(o);
    bool self = true;
    if (mode < 2) {
      const bool done = lib("++", [&] {
        self = &(mode % 2 ? --c : ++c) == &c;
      });
      check(!done || self, "return", "the prefix operator does not return the container");
      return apply(d, "prefix", done, want);
    }
    const Model before = models[d];
    const bool done = lib("++", [&] {
      if (mode % 2) {
        old = c--;
      } else {
        old = c++;
      }
    });
    if (done) {
      models[o] = before;
    }
    apply(d, "postfix", done, want);
  }
  void unaryOperators(int d, int a, i64 mode) {
    Model want = models[a];
    if (mode % 2 && !elementwise<Minus>(Model(n, T(0)), models[a], want)) {
      return;
    }
    auto& c = mine(d);
    const auto& r = at(a);
    const bool done = lib("sign", [&] {
      if (mode % 2) {
        c = -r;
      } else {
        c = +r;
      }
    });
    apply(d, mode % 2 ? "opposite" : "plus", done, want);
  }

  /// An expression with temporaries
  void chain() {
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const int b = int(op.in(3, 0, Own + Shared - 1));
    const int e = int(op.in(4, 0, Own + Shared - 1));
    const T v = valueAs<T>(op.arg(5), S());
    Model x, y, z, want;
    if (!elementwise<Plus>(models[a], models[b], x) || !elementwise<Times>(models[e], Model(n, v), y) || !elementwise<Minus>(x, y, z) ||
        !elementwise<Minus>(Model(n, v), z, want)) {
      return;
    }
    if (!std::is_same<S, Integer>::value) { // Cancellations
      for (std::size_t k = 0; k < n; ++k) {
        if (magnitude(want[k], S()) * 1000 < magnitude(x[k], S()) + magnitude(y[k], S()) + magnitude(v, S())) {
          return;
        }
      }
    }
    trace("chain: %d <- %s - ((%d + %d) - %d * %s)", d, show(v).c_str(), a, b, e, show(v).c_str());
    auto& c = mine(d);
    const auto& ca = at(a);
    const auto& cb = at(b);
    const auto& ce = at(e);
    const bool done = lib("expression", [&] {
      c = v - ((ca + cb) - ce * v);
    });
    apply(d, "expression", done, want);
  }

  // Functions

  struct UnaryCall {
    World& w;
    template <typename V, typename F, typename M, typename G>
    bool unary(F&& f, M&& method, G&& function) {
      return w.unaryCall(f, method, function);
    }
    template <typename V, typename F, typename M, typename G>
    bool binary(F&& f, M&& method, G&& function) {
      return w.binaryCall(f, method, function);
    }
  };

  template <typename F, typename M, typename G>
  bool unaryCall(F&& f, M&& method, G&& function) {
    const int d = int(op.in(0, 0, Own - 1));
    const bool fresh = op.arg(1) % 2;
    const int a = fresh ? int(op.in(2, 0, Own + Shared - 1)) : d;
    Model want(n);
    for (std::size_t k = 0; k < n; ++k) {
      if (negative(models[a][k], S()) || !converted(f(models[a][k]), want[k], S())) {
        return true;
      }
    }
    auto& c = mine(d);
    const auto& r = at(a);
    bool self = true;
    const bool done = lib(op.name.c_str(), [&] {
      if (fresh) {
        c = function(r);
      } else {
        self = &method(c) == &c;
      }
    });
    check(!done || self, "return", "%s() does not return the container", op.name.c_str());
    apply(d, op.name.c_str(), done, want);
    return true;
  }
  bool negative(T v, Integer) {
    return op.name == "sqrt" && v < 0;
  }
  template <typename X>
  bool negative(T v, X) {
    return false;
  }

  template <typename F, typename M, typename G>
  bool binaryCall(F&& f, M&& method, G&& function) {
    const int d = int(op.in(0, 0, Own - 1));
    const bool fresh = op.arg(1) % 2;
    const bool container = op.arg(1) % 4 / 2;
    const int a = fresh ? int(op.in(2, 0, Own + Shared - 1)) : d;
    const int b = int(op.in(3, 0, Own + Shared - 1));
    const bool element = n && op.arg(4) % 2;
    const T value = valueAs<T>(op.arg(5), S());
    const T& v = element ? at(a)[std::size_t(op.in(5, 0, i64(n) - 1))] : value;
    Model want(n);
    for (std::size_t k = 0; k < n; ++k) {
      const T x = models[a][k], y = container ? models[b][k] : v;
      if (undefined(x, y, S()) || !converted(f(x, y), want[k], S())) {
        return true;
      }
    }
    auto& c = mine(d);
    const auto& r = at(a);
    const auto& o = at(b);
    bool self = true;
    const bool done = lib(op.name.c_str(), [&] {
      if (fresh && container) {
        c = function(r, o);
      } else if (fresh) {
        c = function(r, v);
      } else if (container) {
        self = &method(c, o) == &c;
      } else {
        self = &method(c, v) == &c;
      }
    });
    check(!done || self, "return", "%s() does not return the container", op.name.c_str());
    apply(d, op.name.c_str(), done, want);
    return true;
  }
  bool undefined(T x, T y, Integer) {
    return (op.name == "fmod" && y == 0) || (op.name == "pow" && (x == 0 || y < 0));
  }
  bool undefined(T x, T y, Real) {
    return (op.name == "max" || op.name == "min") && (std::isnan(x) || std::isnan(y));
  }
  bool undefined(T x, T, Complex) {
    return x == T(0);
  }

  // Values

  void modifiers(Complex) {
    modifiersButLinspace();
  }
  template <typename X>
  void modifiers(X) {
    if (op.name != "linspace") {
      return modifiersButLinspace();
    }
    const int d = int(op.in(0, 0, Own - 1));
    auto& c = mine(d);
    const T v0 = valueAs<T>(op.arg(4), S()), v1 = valueAs<T>(op.arg(5), S());
    const i64 mode = op.in(1, 0, 3);
    const bool element = n && mode == 1;
    const T& lo = element ? static_cast<const T&>(c[std::size_t(op.in(4, 0, i64(n) - 1))]) : v0;
    const T& hi = element ? static_cast<const T&>(c[std::size_t(op.in(5, 0, i64(n) - 1))]) : v1;
    const T first = mode == 2 ? T(0) : lo, last = mode >= 2 ? T(1) : hi;
    if (!spaceable(first, last, S())) {
      return;
    }
    trace("linspace %d from %s to %s", d, show(first).c_str(), show(last).c_str());
    const bool done = lib("linspace", [&] {
      if (mode == 2) {
        c.linspace();
      } else if (mode == 3) {
        c.linspace(lo);
      } else {
        c.linspace(lo, hi);
      }
    });
    Model want = models[d];
    if (done && n) {
      for (std::size_t k = 0; k < n; ++k) {
        want[k] = spaced(first, last, k, c[k], S());
      }
      if (n > 1) {
        check(c[0] == first && c[n - 1] == last, "linspace", "linspace from %s to %s goes from %s to %s", show(first).c_str(), show(last).c_str(),
              show(T(c[0])).c_str(), show(T(c[n - 1])).c_str());
      }
    }
    apply(d, element ? "linspace_own_element" : "linspace", done, want);
  }
  bool spaceable(T a, T b, Integer) {
    return fits<T>(__int128(a) * 2) && fits<T>(__int128(b) * 2);
  }
  bool spaceable(T a, T b, Real) {
    return std::fabs(a) < T(1e30) && std::fabs(b) < T(1e30);
  }
  T spaced(T first, T last, std::size_t k, T got, Integer) {
    if (n == 1) {
      return got == first ? first : last;
    }
    if (k == n - 1) {
      return last;
    }
    return T(i64(first) + (i64(last) - i64(first)) / i64(n - 1) * i64(k));
  }
  T spaced(T first, T last, std::size_t k, T got, Real) {
    if (n == 1) {
      return got == first ? first : last;
    }
    const long double want = first + (static_cast<long double>(last) - first) * k / (n - 1);
    const long double tol = std::numeric_limits<T>::epsilon() * 8 * (std::fabs(first) + std::fabs(last));
    return std::fabs(got - want) <= tol ? got : T(want); // Which is then wrong
  }

  void modifiersButLinspace() {
    const int d = int(op.in(0, 0, Own - 1));
    auto& c = mine(d);
    const T v0 = valueAs<T>(op.arg(4), S()), v1 = valueAs<T>(op.arg(5), S());
    const i64 mode = op.in(1, 0, 3);
    const bool element = n && mode == 1;
    const T& x = element ? static_cast<const T&>(c[std::size_t(op.in(4, 0, i64(n) - 1))]) : v0;
    const T& y = element ? static_cast<const T&>(c[std::size_t(op.in(5, 0, i64(n) - 1))]) : v1;
    Model want(n, x);
    bool done;
    if (op.name == "fill") {
      trace("fill %d with %s", d, show(x).c_str());
      done = lib("fill", [&] {
        c.fill(x);
      });
    } else {
      const T first = mode == 2 ? Litl::Limits<T>::zero() : x, step = mode >= 2 ? Litl::Limits<T>::one() : y;
      trace("range %d from %s by %s", d, show(first).c_str(), show(step).c_str());
      T v = first;
      for (std::size_t k = 0; k < n; ++k) {
        want[k] = v;
        if (!simarith::scalar<Plus>(v, step, v, S())) {
          return;
        }
      }
      done = lib("range", [&] {
        if (mode == 2) {
          c.range();
        } else if (mode == 3) {
          c.range(x);
        } else {
          c.range(x, y);
        }
      });
      if (done) {
        for (std::size_t k = 1; k < n; ++k) {
          T next;
          simarith::scalar<Plus>(T(c[k - 1]), step, next, S());
          check(c[k] == next || !(next == next), "range", "element %zu is %s, should be exactly %s + %s", k, show(T(c[k])).c_str(), show(T(c[k - 1])).c_str(),
                show(step).c_str());
        }
        if (n) {
          check(c[0] == first || !(first == first), "range", "the first element is %s, should be %s", show(T(c[0])).c_str(), show(first).c_str());
        }
        want.assign(c.begin(), c.end());
      }
    }
    apply(d, op.name.c_str(), done, want);
  }

  /// generate() and apply(), with 0, 1 or 2 inputs
  void functions() {
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const int b = int(op.in(3, 0, Own + Shared - 1));
    auto& c = mine(d);
    const auto& x = at(a);
    const auto& y = at(b);
    const i64 mode = op.in(1, 0, 2);
    const bool gen = op.name == "generate";
    trace("%s mode %ld: %d <- %d, %d", op.name.c_str(), mode, d, a, b);
    Model want(n);
    std::size_t calls = 0;
    const T v = valueAs<T>(op.arg(5), S());
    for (std::size_t k = 0; k < n; ++k) {
      const T& p = models[d][k];
      const T& q = models[a][k];
      const T& r = models[b][k];
      bool ok = true;
      if (gen) {
        ok = mode == 0 ? simarith::scalar<Plus>(v, T(k % 100), want[k], S()) :
            mode == 1  ? simarith::scalar<Minus>(v, q, want[k], S()) :
                         simarith::scalar<Minus>(q, r, want[k], S());
      } else {
        ok = mode == 0 ? simarith::scalar<Minus>(v, p, want[k], S()) :
            mode == 1  ? simarith::scalar<Minus>(q, p, want[k], S()) :
                         simarith::scalar<Minus>(p, q, want[k], S()) && simarith::scalar<Minus>(want[k], r, want[k], S());
      }
      if (!ok) {
        return;
      }
    }
    bool self = false;
    const bool done = lib(op.name.c_str(), [&] {
      C* out = nullptr;
      if (gen && mode == 0) {
        out = &c.generate([&] {
          return T(v + T(calls++ % 100));
        });
      } else if (gen && mode == 1) {
        out = &c.generate(
            [&](auto e) {
              ++calls;
              return T(v - e);
            },
            x);
      } else if (gen) {
        out = &c.generate(
            [&](auto e, auto f) {
              ++calls;
              return T(e - f);
            },
            x, y);
      } else if (mode == 0) {
        out = &c.apply([&](auto e) {
          ++calls;
          return T(v - e);
        });
      } else if (mode == 1) {
        out = &c.apply(
            [&](auto e, auto f) {
              ++calls;
              return T(f - e);
            },
            x);
      } else {
        out = &c.apply(
            [&](auto e, auto f, auto g) {
              ++calls;
              return T(T(e - f) - g);
            },
            x, y);
      }
      self = out == &c;
    });
    check(!done || calls == n, "calls", "%s called the function %zu times for %zu elements", op.name.c_str(), calls, n);
    check(!done || self, "return", "%s does not return the container", op.name.c_str());
    apply(d, op.name.c_str(), done, want);
  }

  // Observers

  bool ordered(const Model&, Complex) {
    return false;
  }
  bool ordered(const Model&, Integer) {
    return n > 0;
  }
  bool ordered(const Model& m, Real) {
    for (auto e : m) {
      if (std::isnan(e)) {
        return false;
      }
    }
    return n > 0;
  }

  void extrema(Complex) {}
  template <typename X>
  void extrema(X) {
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const auto& m = models[a];
    if (!ordered(m, S())) {
      return;
    }
    const auto& c = at(a);
    std::size_t lo = 0, hi = 0;
    for (std::size_t k = 0; k < n; ++k) {
      lo = m[k] < m[lo] ? k : lo;
      hi = m[hi] < m[k] ? k : hi;
    }
    const T *l = nullptr, *h = nullptr, *ll = nullptr, *hh = nullptr;
    if (!lib("extrema", [&] {
          l = &c.min();
          h = &c.max();
          const auto both = c.minmax();
          ll = &both.first;
          hh = &both.second;
        })) {
      return;
    }
    const T* d = c.data();
    check(l == d + lo, "min", "min() is element %td, should be element %zu", l - d, lo);
    check(h == d + hi, "max", "max() is element %td, should be element %zu", h - d, hi);
    check(ll >= d && ll < d + n && hh >= d && hh < d + n, "minmax", "minmax() refers to elements out of the container");
    check(*ll == m[lo] && *hh == m[hi], "minmax", "minmax() is (%s, %s), should be (%s, %s)", show(*ll).c_str(), show(*hh).c_str(),
          show(m[lo]).c_str(), show(m[hi]).c_str());
    probe("extrema");
    verifyAll("extrema");
  }

  void compareTwo() {
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const int b = int(op.in(3, 0, Own + Shared - 1));
    bool want = true;
    for (std::size_t k = 0; k < n; ++k) {
      want = want && models[a][k] == models[b][k];
    }
    const auto& x = at(a);
    const auto& y = at(b);
    bool eq = false, ne = false;
    if (lib("==", [&] {
          eq = x == y;
          ne = x != y;
        })) {
      check(eq == want, "equality", "containers %d and %d compare %d, should compare %d", a, b, int(eq), int(want));
      check(ne == !want, "equality", "containers %d and %d compare different: %d, should be %d", a, b, int(ne), int(!want));
      probe(want ? "equal" : "different");
    }
    verifyAll("==");
  }

  void almostEqual() { // Two containers which differ by one element
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(2, 0, Own + Shared - 1));
    auto& c = mine(d);
    const auto& r = at(a);
    const bool done = d == a || lib("copy", [&] {
      c = r;
    });
    if (done) {
      models[d] = models[a];
    }
    changed = d;
    verify(d, "copy");
    if (n && op.arg(1) % 2) {
      const std::size_t k = std::size_t(op.in(5, 0, i64(n) - 1));
      T v;
      if (simarith::scalar<Plus>(models[d][k], T(1), v, S())) {
        const bool ok = lib("[]", [&] {
          c[k] = v;
        });
        apply(d, "element", ok, [&] {
          auto m = models[d];
          m[k] = v;
          return m;
        }());
      }
    }
    changed = -1;
    op.a.resize(6);
    op.a[3] = d;
    op.a[2] = a;
    compareTwo();
  }

  void elements(std::true_type) {
    const int d = int(op.in(0, 0, Own - 1));
    auto& c = mine(d);
    const C& k = c;
    const i64 i = op.in(5, -i64(n) - 2, i64(n) + 1);
    const bool in = i >= -i64(n) && i < i64(n);
    const T* got = nullptr;
    bool thrown = false, sizes = false;
    const bool done = lib("at", [&] {
      try {
        got = op.arg(1) % 2 ? &c.at(i) : &k.at(i);
      } catch (const Litl::OutOfBoundsError&) {
        thrown = true;
      }
      sizes = k.emtpy() == (n == 0) && k.end() - k.begin() == std::ptrdiff_t(n) && c.end() - c.begin() == std::ptrdiff_t(n) &&
          c.cend() - c.cbegin() == std::ptrdiff_t(n) && k.begin() == k.data() && c.begin() == k.data();
      if (n && sizes) {
        sizes = &k.front() == k.data() && &c.front() == k.data() && &k.back() == k.data() + (n - 1) && &c.back() == k.data() + (n - 1);
      }
    });
    if (!done) {
      return;
    }
    check(sizes, "access", "the iterators or bounds of the container are wrong");
    check(thrown == !in, "at", "at(%ld) of %zu elements %s", i, n, thrown ? "threw" : "did not throw");
    check(thrown || got == k.data() + (i >= 0 ? i : i + i64(n)), "at", "at(%ld) of %zu elements is element %td", i, n, got - k.data());
    probe(thrown ? "at_out_of_bounds" : "at");
    verifyAll("at");
  }
  void elements(std::false_type) {}

  /// From other values
  void convert(std::true_type, Complex) {}
  template <typename X>
  void convert(std::true_type, X) {
    const int d = int(op.in(0, 0, Own - 1));
    std::vector<double> values;
    Model want;
    for (std::size_t k = 0; k < n; ++k) {
      const double v = double((op.arg(5) + i64(k) * 37) % 41) / 2 * (std::is_unsigned<T>::value ? 1 : op.arg(4) % 2 ? -1 : 1);
      values.push_back(v < 0 && std::is_unsigned<T>::value ? -v : v);
      want.push_back(T(values.back()));
    }
    auto& c = mine(d);
    const bool done = lib("conversion", [&] {
      c = C(values);
    });
    apply(d, "conversion", done, want);
  }
  template <typename X>
  void convert(std::false_type, X) {}

  /// Real rasters from complex ones, the constant pi
  template <typename F, typename X>
  void parts(std::false_type, Complex, const char* name, F&& f, X&& model) {
    const int a = int(op.in(2, 0, Own + Shared - 1));
    const auto& c = at(a);
    trace("%s %d", name, a);
    using R = decltype(f(c));
    Obj<R> out;
    if (!lib(name, [&] {
          out.makeBy([&] {
            return f(c);
          });
        })) {
      return;
    }
    check(out->size() == n && out->dimension() == c.dimension(), "shape", "%s() of %zu elements has %zu", name, n, out->size());
    for (Litl::Index i = 0; i < Litl::Index(c.dimension()); ++i) {
      check(out->shape()[std::size_t(i)] == c.shape()[std::size_t(i)], "shape", "%s() has not the shape of its input", name);
    }
    using V = typename R::value_type;
    for (std::size_t k = 0; k < n; ++k) {
      const V want = model(models[a][k]);
      check(closeTo<V>(out->data()[k], want, Real()), "function", "%s(%s) is %s, should be %s", name, show(models[a][k]).c_str(),
            show(out->data()[k], Real()).c_str(), show(want, Real()).c_str());
    }
    probe("complex_to_real");
    verifyAll(name);
  }
  void part(std::false_type flat, Complex z) {
#define SIM_PARTS_CASE(K, F) \
  case K: \
    return parts( \
        flat, z, #F, \
        [](const C& c) { \
          return Litl::F(c); \
        }, \
        [](const T& e) { \
          return std::F(e); \
        });
    switch (op.in(5, 0, 4)) {
      SIM_PARTS_CASE(0, real)
      SIM_PARTS_CASE(1, imag)
      SIM_PARTS_CASE(2, abs)
      SIM_PARTS_CASE(3, arg)
      SIM_PARTS_CASE(4, norm)
    }
  }
  template <typename Flat>
  void part(Flat, Real) {
    const T pi = Litl::pi<T>();
    check(closeTo<T>(pi, std::acos(T(-1)), Real()), "pi", "pi is %s", show(pi, Real()).c_str());
  }
  template <typename Flat, typename X>
  void part(Flat, X) {}

  void run(const Op& o, int i) {
    op = o;
    index = i;
    const auto& k = op.name;
    if (k == "+") {
      operate<Plus, true, true>();
    } else if (k == "-") {
      operate<Minus, true, true>();
    } else if (k == "*") {
      operate<Times, K::Euclid, true>();
    } else if (k == "/") {
      operate<Over, K::Euclid, false>();
    } else if (k == "%") {
      modulo(S());
    } else if (k == "sign") {
      signs();
    } else if (k == "chain") {
      chain();
    } else if (k == "fill" || k == "range" || k == "linspace") {
      modifiers(S());
    } else if (k == "generate" || k == "apply") {
      functions();
    } else if (k == "extrema") {
      extrema(S());
    } else if (k == "eq") {
      compareTwo();
    } else if (k == "almost") {
      almostEqual();
    } else if (k == "at") {
      elements(std::integral_constant<bool, K::Flat>());
    } else if (k == "part") {
      part(std::integral_constant<bool, K::Flat>(), S());
    } else if (k == "convert") {
      convert(std::integral_constant<bool, K::Flat>(), S());
    } else {
      trace("%s mode %ld: %ld <- %ld, %ld", k.c_str(), op.arg(1), op.arg(0), op.arg(2), op.arg(3));
      simarith::unary<T>(k, UnaryCall {*this}, S()) || simarith::binary<T>(k, UnaryCall {*this}, S());
    }
  }

  void runAll() {
    const auto& ops = s.clients[std::size_t(client)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      run(ops[i], int(i));
    }
    for (int i = 0; i < Own + Shared; ++i) {
      changed = i;
      verify(i, "the end");
      mixBytes(at(i).data(), std::min<std::size_t>(n, 50) * sizeof(T));
    }
  }
};

template <typename C>
void go(const Scenario& s) {
  using T = typename C::value_type;
  using K = Kind<C>;
  Pos shape = shapeParam(s, "shape", int(s.in("dim", 1, 3)), 8);
  if (s.in("empty", 0, 1) && K::Flat) {
    shape = {0};
  }
  const i64 n = K::count(shape);
  const auto fill = [&](Obj<C>& o, int c, int i) {
    K::make(o, shape);
    for (i64 k = 0; k < n; ++k) {
      const i64 v = s.param("data", 5, std::size_t(k + 7 * i + 3 * c) % 24);
      (*o)[std::size_t(k)] = valueAs<T>(v + (k > 24 ? (k * 7 + i) % 5 : 0), Sort<T>());
    }
  };
  Obj<C> shared[Shared];
  for (int i = 0; i < Shared; ++i) {
    fill(shared[i], 0, i + Own);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    World<C> w(s, c, shape);
    w.shared = shared;
    for (int i = 0; i < Own; ++i) {
      fill(w.own[i], c, i);
    }
    for (int i = 0; i < Own + Shared; ++i) {
      w.models[i].assign(w.at(i).data(), w.at(i).data() + n);
    }
    w.runAll();
  });
  for (auto& e : shared) {
    e.reset();
  }
  checkNoLeak("the containers");
}

constexpr int KindCount = 21;
bool part1(const Scenario& s, int kind);
bool part2(const Scenario& s, int kind);
bool part3(const Scenario& s, int kind);
bool part4(const Scenario& s, int kind);
bool part5(const Scenario& s, int kind);
bool part6(const Scenario& s, int kind);

// Raster of shape dimension N
template <typename C, int N>
void goRaster(const Scenario& s) {
  Scenario t = s;
  t.set("dim", {N});
  go<C>(t);
}

#if SIM_PART == 1
bool part1(const Scenario& s, int kind) {
  switch (kind) {
    case 3:
      go<Litl::Sequence<unsigned char>>(s); // INST
      return true;
    case 4:
      go<Litl::Sequence<std::complex<double>>>(s); // INST
      return true;
    case 5:
      goRaster<Litl::Raster<int, 2>, 2>(s); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int kind) {
  switch (kind) {
    case 6:
      goRaster<Litl::Raster<double, 3>, 3>(s); // INST
      return true;
    case 7:
      go<Litl::Raster<float, -1>>(s); // INST
      return true;
    case 8:
      go<Litl::Position<-1>>(s); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 3
bool part3(const Scenario& s, int kind) {
  switch (kind) {
    case 9:
      go<Litl::Position<3>>(s); // INST
      return true;
    case 10:
      go<Litl::Vector<double, -1>>(s); // INST
      return true;
    case 11:
      go<Litl::Vector<double, 2>>(s); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 4
bool part4(const Scenario& s, int kind) {
  switch (kind) {
    case 12:
      go<Litl::Sequence<std::int64_t>>(s); // INST
      return true;
    case 13:
      goRaster<Litl::AlignedRaster<int, 2>, 2>(s); // INST
      return true;
    case 14:
      goRaster<Litl::Raster<std::uint16_t, 2>, 2>(s); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 5
bool part5(const Scenario& s, int kind) {
  switch (kind) {
    case 15:
      goRaster<Litl::AlignedRaster<double, 2>, 2>(s); // INST
      return true;
    case 16:
      go<Litl::Position<4>>(s); // INST
      return true;
    case 17:
      goRaster<Litl::Raster<std::complex<float>, 2>, 2>(s); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 6
bool part6(const Scenario& s, int kind) {
  switch (kind) {
    case 18:
      go<Litl::Sequence<std::int16_t>>(s); // INST
      return true;
    case 19:
      go<Litl::Sequence<long double>>(s); // INST
      return true;
    case 20:
      goRaster<Litl::Raster<std::complex<long double>, 2>, 2>(s); // INST
      return true;
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int kind = int(s.in("kind", 0, KindCount - 1));
  if (part1(s, kind) || part2(s, kind) || part3(s, kind) || part4(s, kind) || part5(s, kind) || part6(s, kind)) {
    return;
  }
  switch (kind) {
    case 1:
      return go<Litl::Sequence<double>>(s); // INST
    case 2:
      return go<Litl::Sequence<float>>(s); // INST
    default:
      return go<Litl::Sequence<int>>(s); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  const int kind = int(r.range(0, KindCount - 1));
  s.set("kind", {kind});
  s.set("dim", {r.range(1, 3)});
  const i64 big = r.chance(1, 3) ? 6 : 3;
  s.set("shape", {r.range(1, big), r.range(1, big), r.range(1, 4)});
  maybeLong(s, r, 25);
  if (r.chance(1, 30)) {
    s.set("empty", {1});
  }
  std::vector<i64> data;
  const i64 range = r.pick({3, 10, 10, 40, 120});
  for (int i = 0; i < 24; ++i) {
    data.push_back(r.range(-range, range));
  }
  s.set("data", data);
  const int clients = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  static const char* const ops[] = {"+", "-", "*", "/", "%"};
  static const char* const others[] = {"sign", "sign", "chain", "fill", "range", "linspace", "generate", "apply", "extrema", "eq", "almost", "at", "convert", "part"};
  const bool real = kind == 1 || kind == 2 || kind == 6 || kind == 7 || kind == 10 || kind == 11 || kind == 15 || kind == 19;
  for (int c = 0; c < clients; ++c) {
    const int len = int(r.range(2, tier ? 24 : 12));
    for (int i = 0; i < len; ++i) {
      const i64 what = r.range(0, 9);
      std::string name;
      i64 modes = 4;
      if (what < 4) {
        name = ops[r.range(0, 4)];
      } else if (what < 7) {
        name = (kind == 17 || kind == 20) && r.chance(1, 5) ? "part" : others[r.range(0, 13)];
        modes = 5;
      } else if (what < 9) {
        name = real || r.chance(1, 4) ? functionNames[r.range(0, 31)] : functionNames[r.range(0, 5)];
      } else {
        name = binaryNames[r.range(0, real ? 6 : 4)];
      }
      s.op(std::size_t(c), name,
           {r.range(0, Own - 1), r.range(0, modes), r.range(0, Own + Shared - 1), r.range(0, Own + Shared - 1), r.chance(1, 2) ? r.range(0, 1) : r.range(-20, 20),
            r.chance(1, 2) ? r.range(0, 20) : r.chance(1, 2) ? r.range(-5, 5) : r.range(-120, 120)});
      if (r.chance(1, 5)) {
        s.fault("alloc", {c, i64(s.clients[std::size_t(c)].size()) - 1, r.chance(2, 3) ? 0 : r.range(0, 3), r.range(1, 2)});
      }
    }
  }
}

Register reg("C23", generate, execute);
#endif

} // namespace simarith
