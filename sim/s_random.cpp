// SIM_PARTS 5
// C07, C08: histories of random generators, several at once, under any clock and interleaving.
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace simrandom {

struct Spec {
  int kind; ///< 0: uniform, 1: Gaussian, 2: Poisson, 3: stable Poisson, 4: impulse, 5: impulses, 6: salt and pepper
  i64 a, b;
  i64 seed; ///< -1: from the clock
  i64 created; ///< System clock at creation
};
constexpr int KindCount = 7;

struct Call {
  bool hasInput;
  double in;
};

template <typename T>
struct Raw {
  using Scalar = typename Litl::TypeTraits<T>::Scalar;
  static T make(double v) {
    return T(Scalar(v));
  }
};
template <typename T>
struct Raw<std::complex<T>> {
  static std::complex<T> make(double v) {
    return {T(v), T(v / 2 + 1)};
  }
};

/// The interval of all values, which has no difference in overflow
template <typename T>
struct Whole {
  static T lo() {
    return T(std::numeric_limits<T>::lowest() / 2);
  }
  static T hi() {
    return T(std::numeric_limits<T>::max() / 2 + std::is_integral<T>::value);
  }
};
template <typename T>
struct Whole<std::complex<T>> {
  static std::complex<T> lo() {
    return {Whole<T>::lo(), Whole<T>::lo()};
  }
  static std::complex<T> hi() {
    return {Whole<T>::hi(), Whole<T>::hi()};
  }
};

/// The default uniform noise, which real types only have
template <typename G, typename T>
struct Default {
  static G make() {
    return G();
  }
};
template <typename G, typename T>
struct Default<G, std::complex<T>> {
  static G make() {
    return G(Whole<std::complex<T>>::lo(), Whole<std::complex<T>>::hi());
  }
};

/// Random containers, of real types
template <typename T>
struct Randoms {
  static void check(i64 w, i64 h, i64 how) {
    std::vector<T> v;
    {
      Lib lib;
      if (how == 0) {
        const auto r = Litl::random<T>(std::size_t(w));
        Pause pause;
        v.assign(r.begin(), r.end());
        h = 1;
      } else if (how == 1) {
        w = w % 60 + 1;
        const auto r = Litl::random<T>(Litl::Position<2> {w, h});
        Pause pause;
        v.assign(r.begin(), r.end());
        sim::check(r.shape() == Litl::Position<2> {w, h}, "shape", "a random raster has not the requested shape");
      } else {
        w = w % 20 + 1;
        h = h % 10 + 1;
        const auto r = Litl::random<T, 3>(Litl::Position<3> {w, 2, h});
        Pause pause;
        v.assign(r.begin(), r.end());
        sim::check(r.shape() == Litl::Position<3> {w, 2, h}, "shape", "a random raster has not the requested shape");
        h *= 2;
      }
    }
    sim::check(i64(v.size()) == w * h, "shape", "there are %zu random values, should be %ld", v.size(), w * h);
    long double sum = 0, half = (long double)(Whole<T>::hi()) / 2;
    for (auto e : v) {
      sim::check(e >= Whole<T>::lo() && e <= Whole<T>::hi(), "uniform-range", "a random value is out of the interval from half min to half max");
      sum += e / half;
    }
    const long double middle = std::is_unsigned<T>::value ? 1 : 0;
    if (v.size() > 30) {
      sim::check(std::fabs(sum / v.size() - middle) <= 0.05L + 10 / std::sqrt((long double)(v.size())) && (v[0] != v[1] || v[1] != v[2] || v[2] != v[3]), "law", "the mean of random values is %Lg half bounds", sum / v.size());
      probe("random_law");
    }
    probe("random");
  }
};
template <typename T>
struct Randoms<std::complex<T>> {
  static void check(i64, i64, i64) {}
};

/// Type-erased generator
template <typename T>
struct Noise {
  virtual ~Noise() {}
  virtual T draw() = 0;
  virtual T draw(T in) = 0;
  virtual Noise* clone() = 0;
  virtual void generate(Litl::Raster<T, 2>& r) = 0;
  virtual void apply(Litl::Raster<T, 2>& r) = 0;
};
template <typename T, typename G>
struct NoiseOf : Noise<T> {
  Obj<G> g;
  template <typename F>
  explicit NoiseOf(F&& f) {
    g.makeBy(f);
  }
  T draw() override {
    Lib lib;
    return (*g)();
  }
  T draw(T in) override {
    Lib lib;
    return (*g)(in);
  }
  Noise<T>* clone() override {
    return new NoiseOf([&] {
      return G(*g);
    });
  }
  void generate(Litl::Raster<T, 2>& r) override {
    Lib lib;
    r.generate(*g);
  }
  void apply(Litl::Raster<T, 2>& r) override {
    Lib lib;
    r.apply(*g);
  }
};

/// Seeds: any small one and the bounds of the integral types
constexpr i64 MaxSeed = 1000012;
inline i64 seedOf(i64 v) {
  constexpr i64 special[] = {65535, 65536, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 2, (1ll << 32) - 1, 1ll << 32, (1ll << 33) - 1, 0x7FFFFFFFFFFFFFFFll, -2, -(1ll << 31), -(1ll << 32) - 1};
  return v <= 1000000 ? v : special[v - 1000001];
}

template <typename T>
struct IsComplex : std::false_type {};
template <typename T>
struct IsComplex<std::complex<T>> : std::true_type {};

template <typename T, bool Complex = IsComplex<T>::value>
struct Impulses {
  static Noise<T>* make(const Spec& s) {
    using G = Litl::ImpulseNoise<T>;
    const double p = double(s.a % 11) / 10.;
    const double q = double(s.b < 0 ? 0 : s.b % 11) / 10.;
    const std::size_t seed = std::size_t(s.seed);
    if (s.kind == 4) {
      return new NoiseOf<T, G>([&] {
        return s.seed == -1 ? G(T(100), p) : G(T(100), p, seed);
      });
    }
    if (s.kind == 5) {
      const std::map<T, double> m {{T(100), p}, {T(101), q}, {T(102), 0.25}};
      return new NoiseOf<T, G>([&] {
        return s.seed == -1 ? G(m) : G(m, seed);
      });
    }
    if (s.seed == -1) { // Default values
      return new NoiseOf<T, G>([&] {
        return G::saltAndPepper(p, q);
      });
    }
    return new NoiseOf<T, G>([&] {
      return G::saltAndPepper(p, q, T(101), T(100), seed);
    });
  }
  /// The possible values
  static T value(const Spec& s, int k) {
    if (s.kind == 6 && s.seed == -1) {
      return k == 0 ? std::numeric_limits<T>::lowest() : k == 1 ? std::numeric_limits<T>::max() : T(102);
    }
    return T(100 + k);
  }
  static void check(const Spec& s, const Call& c, T v) {
    const T v0 = value(s, 0), v1 = value(s, 1), v2 = value(s, 2);
    const double p = double(s.a % 11) / 10., q = double(s.b < 0 ? 0 : s.b % 11) / 10.;
    const T in = c.hasInput ? Raw<T>::make(c.in) : T(0);
    const bool one = v == v0, two = v == v1 && s.kind != 4, three = v == v2 && s.kind == 5;
    sim::check(one || two || three || v == in, "impulse", "an impulse noise gave neither an impulse nor the input");
    double total = s.kind == 4 ? p : s.kind == 5 ? p + q + 0.25 : p + q;
    if (total > 1.001 && in != v0 && in != v1 && in != v2) {
      sim::check(v != in, "impulse", "an impulse noise of total probability over 1 left the input");
    }
    const double p1 = s.kind == 6 ? q : p, p2 = s.kind == 6 ? p : q; // Pepper is v0
    sim::check(!(one && in != v0) || p1 > 0, "impulse", "an impulse of probability 0 was generated");
    sim::check(!(two && in != v1) || p2 > 0, "impulse", "an impulse of probability 0 was generated");
  }
};
template <typename T>
struct Impulses<T, true> {
  static Noise<T>* make(const Spec&) {
    return nullptr;
  }
  static T value(const Spec&, int) {
    return T();
  }
  static void check(const Spec&, const Call&, T) {}
};

template <typename T>
bool inside(T v, T lo, T hi) {
  return v >= lo && v <= hi;
}
template <typename T>
bool inside(std::complex<T> v, std::complex<T> lo, std::complex<T> hi) {
  return inside(v.real(), lo.real(), hi.real()) && inside(v.imag(), lo.imag(), hi.imag());
}

inline double part(double v, int) {
  return v;
}
template <typename T>
double part(std::complex<T> v, int k) {
  return double(k ? v.imag() : v.real());
}

constexpr i64 Many = 1500; ///< Values in one operation, at most

template <typename T>
struct World {
  static T lo(const Spec& s) {
    return Raw<T>::make(double(s.a % 21) - (std::is_unsigned<T>::value ? 0 : 40));
  }
  static T hi(const Spec& s) {
    return Raw<T>::make(double(s.a % 21) - (std::is_unsigned<T>::value ? 0 : 40) + double(s.b % 60));
  }
  /// The mean, such that unsigned Gaussian values are not negative
  static double meanOf(const Spec& s) {
    if (std::is_unsigned<T>::value && s.kind == 1) {
      return sizeof(T) == 1 ? 120 : double(s.a % 5000 + 1000);
    }
    return double(s.a % (sizeof(T) == 1 ? 60 : 5000));
  }
  static Noise<T>* make(const Spec& s) {
    const std::size_t seed = std::size_t(s.seed);
    const T mean = Raw<T>::make(meanOf(s));
    const T stdev = Raw<T>::make(double(s.b % (std::is_unsigned<T>::value && sizeof(T) == 1 ? 10 : 50)) + 1);
    if (IsComplex<T>::value && s.kind >= 4) {
      Spec t = s;
      t.kind = 1;
      return make(t);
    }
    switch (s.kind) {
      case 0: {
        using G = Litl::UniformNoise<T>;
        return new NoiseOf<T, G>([&] {
          if (s.b < 0) {
            return s.seed == -1 ? Default<G, T>::make() : G(Whole<T>::lo(), Whole<T>::hi(), seed);
          }
          return s.seed == -1 ? G(lo(s), hi(s)) : G(lo(s), hi(s), seed);
        });
      }
      case 1: {
        using G = Litl::GaussianNoise<T>;
        return new NoiseOf<T, G>([&] {
          return s.seed == -1 ? G(mean, stdev) : G(mean, stdev, seed);
        });
      }
      case 2: {
        using G = Litl::PoissonNoise<T>;
        return new NoiseOf<T, G>([&] {
          return s.seed == -1 ? G(mean) : G(mean, seed);
        });
      }
      case 3: {
        using G = Litl::StablePoissonNoise<T>;
        return new NoiseOf<T, G>([&] {
          return s.seed == -1 ? G(mean) : G(mean, seed);
        });
      }
      default:
        return Impulses<T>::make(s);
    }
  }
  static void range(const Spec& s, const Call& c, T v) {
    if (s.kind == 0 && !c.hasInput) {
      if (s.b >= 0) {
        check(inside(v, lo(s), hi(s)), "uniform-range", "a uniform value is out of the requested interval");
      } else {
        check(inside(v, Whole<T>::lo(), Whole<T>::hi()), "uniform-range", "a uniform value is out of the interval");
      }
    } else if (s.kind >= 4 && s.kind <= 6) {
      Impulses<T>::check(s, c, v);
    }
  }

  struct Slot {
    std::unique_ptr<Noise<T>> g;
    Spec spec = {};
    std::vector<Call> calls;
    std::vector<T> out;
  };
  static constexpr int Slots = 4;
  const Scenario& s;
  int client;
  std::unique_ptr<Slot[]> slots;

  World(const Scenario& sc, int c) : s(sc), client(c), slots(new Slot[Slots]) {}

  void record(Slot& t, Call c, T v) {
    t.calls.push_back(c);
    t.out.push_back(v);
    range(t.spec, c, v);
  }

  /// Mean and standard deviation, or probabilities, of many values of the generator
  void law(Slot& t, bool hasInput, double in) {
    const Spec& p = t.spec;
    if (sizeof(T) == 1 || (p.kind == 0 && (p.b < 0 || hasInput))) { // Narrow types overflow
      return;
    }
    constexpr int n = 250;
    std::vector<T> v;
    const T x = Raw<T>::make(in);
    for (int i = 0; i < n; ++i) {
      v.push_back(hasInput ? t.g->draw(x) : t.g->draw());
      record(t, {hasInput, in}, v.back());
    }
    if (IsComplex<T>::value || p.kind < 4) {
      const bool integral = std::is_integral<T>::value;
      const int kind = p.kind >= 4 ? 1 : p.kind;
      const T m = Raw<T>::make(meanOf(p)), d = Raw<T>::make(double(p.b % 50) + 1);
      for (int k = 0; k < 1 + IsComplex<T>::value; ++k) {
        double mean = part(m, k), stdev = part(d, k);
        if (kind == 0) {
          const double a = part(lo(p), k), b = part(hi(p), k);
          mean = (a + b) / 2;
          stdev = (b - a + integral) / std::sqrt(12.);
        } else if (kind >= 2) {
          mean = hasInput ? part(x, k) : mean;
          stdev = std::sqrt(mean);
        } else if (hasInput) {
          mean += part(x, k);
        }
        double sum = 0, squares = 0;
        for (auto e : v) {
          sum += part(e, k) - mean;
          squares += (part(e, k) - mean) * (part(e, k) - mean);
        }
        const double slack = kind == 1 && integral ? 1 : 1e-3; // Rounding to integers
        check(std::abs(sum / n) <= slack + 8 * stdev / std::sqrt(double(n)), "law", "kind %d: the mean of %d values is %g, should be near %g", kind, n,
              mean + sum / n, mean);
        const double s2 = std::sqrt(squares / n);
        check(s2 <= 1 + 2 * stdev && 2 * s2 + 1 >= stdev, "law", "kind %d: the deviation of %d values is %g, should be near %g", kind, n, s2, stdev);
      }
      probe("law_moments");
      return;
    }
    const double pa = double(p.a % 11) / 10., pb = double(p.b < 0 ? 0 : p.b % 11) / 10.;
    const double weight[3] = {p.kind == 6 ? pb : pa, p.kind == 4 ? 0 : p.kind == 6 ? pa : pb, p.kind == 5 ? .25 : 0};
    const double total = std::max(1., weight[0] + weight[1] + weight[2]);
    const T zero = hasInput ? x : T(0);
    for (int k = 0; k < 3; ++k) {
      const T value = Impulses<T>::value(p, k);
      if (value == zero) {
        continue;
      }
      const double w = weight[k] / total;
      const double count = double(std::count(v.begin(), v.end(), value));
      check(std::abs(count / n - w) <= 8 * std::sqrt(w * (1 - w) / n) + 1e-9, "law", "impulse %d has probability %g but was drawn %g times of %d", k, w,
            count, n);
    }
    probe("law_impulses");
  }

  /// Do the values tell which seed made them?
  bool distinctive(const Slot& t) {
    const auto& p = t.spec;
    if (p.kind == 0) {
      return p.b < 0 && sizeof(T) > 2 && t.calls.size() > 5;
    } else if (p.kind == 1) {
      return p.b % (std::is_unsigned<T>::value && sizeof(T) == 1 ? 10 : 50) >= 8 && t.calls.size() > 9;
    } else if (p.kind == 2) {
      return meanOf(p) >= 100 && t.calls.size() > 9;
    } else if (p.kind == 3 || IsComplex<T>::value) { // Not seeded from the clock by default
      return false;
    }
    std::size_t n = 0;
    for (const auto& c : t.calls) {
      const T in = c.hasInput ? Raw<T>::make(c.in) : T(0);
      n += in != Impulses<T>::value(p, 0) && in != Impulses<T>::value(p, 1) && in != Impulses<T>::value(p, 2);
    }
    return p.a % 11 > 2 && p.a % 11 < 8 && (p.b < 0 || p.b % 11 < 8) && n > 50;
  }

  /// The same calls by another generator at another time and place
  void replay(Slot& t) {
    if (!t.g) {
      return;
    }
    Clock& k = simClock();
    const i64 now = k.system;
    if (t.spec.seed == -1) { // Seeded from the clock
      k.system = t.spec.created;
    }
    std::unique_ptr<Noise<T>> g(make(t.spec));
    k.system = now + 123456789;
    for (std::size_t i = 0; i < t.calls.size(); ++i) {
      const auto& c = t.calls[i];
      const T v = c.hasInput ? g->draw(Raw<T>::make(c.in)) : g->draw();
      check(v == t.out[i], t.spec.seed == -1 ? "clock-after-creation" : "not-reproducible",
            "value %zu of a generator of kind %d with seed %ld differs from the one of another generator with the same parameters", i,
            t.spec.kind, t.spec.seed);
    }
    if (t.spec.seed == -1 && distinctive(t)) { // Another time, another seed
      k.system = t.spec.created + 98765432101234;
      std::unique_ptr<Noise<T>> later(make(t.spec));
      bool same = true;
      for (std::size_t i = 0; i < t.calls.size() && same; ++i) {
        const auto& c = t.calls[i];
        same = (c.hasInput ? later->draw(Raw<T>::make(c.in)) : later->draw()) == t.out[i];
      }
      k.system = now;
      check(!same, "clock-seed", "two generators seeded from the clock at different times give the same values");
      probe("clock_seeds");
    }
    if (t.calls.size()) {
      probe(t.spec.seed == -1 ? "replayed_clock_seed" : "replayed");
    }
    k.system = now;
  }

  void run(const Op& op) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s slot %ld", k.c_str(), op.arg(0));
    if (k == "advance") {
      advance(op.in(1, 0, 3600000000000ll));
      return;
    }
    if (k == "jump") {
      jump(op.arg(1));
      return;
    }
    if (k == "random") {
      Randoms<T>::check(op.in(1, 1, Many), op.in(2, 1, 40), op.in(3, 0, 2));
      return;
    }
    if (k == "make" || !t.g) {
      replay(t);
      t.g.reset();
      t.spec.kind = int(op.in(1, 0, KindCount - 1));
      t.spec.a = op.in(2, 0, 1000000);
      t.spec.b = op.in(3, -1, 1000000);
      t.spec.seed = seedOf(op.in(4, -1, MaxSeed));
      t.spec.created = simClock().system;
      if (t.spec.seed == -1 && s.clients.size() > 1) {
        t.spec.seed = 5; // The clock is shared
      }
      t.g.reset(make(t.spec));
      t.calls.clear();
      t.out.clear();
    } else if (k == "copy") {
      auto& u = slots[op.in(1, 0, Slots - 1)];
      if (&u == &t) {
        return;
      }
      replay(u);
      u.g.reset(t.g->clone());
      u.spec = t.spec;
      u.calls = t.calls;
      u.out = t.out;
      probe("copied");
    } else if (k == "law") {
      const bool hasInput = op.in(1, 0, 1);
      law(t, hasInput, double(op.in(2, 0, 90)));
    } else if (k == "draw") {
      for (i64 i = 0; i < op.in(1, 1, Many); ++i) {
        record(t, {false, 0}, t.g->draw());
      }
    } else if (k == "noise") {
      for (i64 i = 0; i < op.in(1, 1, Many); ++i) {
        const double in = double((op.in(2, 0, 90) + i) % 95);
        record(t, {true, in}, t.g->draw(Raw<T>::make(in)));
      }
    } else if (k == "generate" || k == "apply") {
      Litl::Raster<T, 2> r({op.in(1, 1, 60), op.in(2, 1, 40)});
      std::vector<double> in;
      for (std::size_t i = 0; i < r.size(); ++i) {
        in.push_back(double((op.in(3, 0, 60) + i64(i)) % 90));
        r.data()[i] = Raw<T>::make(in.back());
      }
      if (k == "generate") {
        t.g->generate(r);
      } else {
        t.g->apply(r);
      }
      for (std::size_t i = 0; i < r.size(); ++i) {
        record(t, {k == "apply", in[i]}, r.data()[i]);
      }
    }
  }

  void runAll() {
    int n = 0;
    for (auto& op : s.clients[std::size_t(client)]) {
      opBegin(s, client, n++);
      run(op);
      opEnd();
    }
    for (int i = 0; i < Slots; ++i) {
      replay(slots[i]);
      mix(slots[i].out.size());
    }
  }

  /// C08
  void runStable() {
    const auto& ops = s.clients[std::size_t(client)];
    const i64 seed = seedOf(s.in("seed", 0, MaxSeed, std::size_t(client)));
    Spec spec = {3, s.in("mean", 0, 1000), 0, seed, 0};
    std::unique_ptr<Noise<T>> f(make(spec)), g(make(spec)), other;
    int n = 0;
    for (auto& op : ops) {
      trace("%s", op.name.c_str());
      opBegin(s, client, n++);
      if (op.name == "advance") {
        advance(op.in(0, 0, 3600000000000ll));
      } else if (op.name == "jump") {
        jump(op.arg(0));
      } else if (op.name == "other") {
        Spec o = {int(op.in(0, 0, 3)), op.in(1, 0, 1000), 3, op.in(2, 0, 3) ? op.in(2, 0, 3) : seed, 0};
        other.reset(make(o));
        other->draw();
        other->draw(Raw<T>::make(3));
      } else if (op.name == "draw") {
        f->draw();
        g->draw();
      } else if (op.name == "clone") {
        g.reset(g->clone());
      } else { // row: values, then which are changed
        const bool many = op.name == "many"; // Number of values, seed, one in how many is changed, how
        const std::size_t n = many ? std::size_t(op.in(0, 1, Many)) : op.a.size() / 2;
        if (!n) {
          continue;
        }
        const bool viaRaster = op.name == "raster" || (many && op.in(3, 0, 1));
        Rng hash(u64(op.arg(1)) + 11);
        std::vector<double> x, y;
        const i64 most = sizeof(T) == 1 ? 100 : sizeof(T) == 2 ? 20000 : 1000000;
        for (std::size_t i = 0; i < n; ++i) {
          x.push_back(many ? double(hash.range(0, std::min<i64>(most, 5000))) : double(op.in(i, 0, most)));
          const i64 d = many ? hash.range(1, op.in(2, 1, 1000)) == 1 ? hash.range(1, 50) : 0 : op.arg(n + i);
          y.push_back(d == 0 ? x.back() : double((i64(x.back()) + d % most + most) % most));
        }
        std::vector<T> u, v;
        for (int side = 0; side < 2; ++side) {
          auto& noise = side ? g : f;
          const auto& in = side ? y : x;
          auto& out = side ? v : u;
          if (viaRaster) {
            Litl::Raster<T, 2> r({Litl::Index(n), 1});
            for (std::size_t i = 0; i < n; ++i) {
              r.data()[i] = Raw<T>::make(in[i]);
            }
            noise->apply(r);
            out.assign(r.data(), r.data() + n);
          } else {
            for (double e : in) {
              out.push_back(noise->draw(Raw<T>::make(e)));
            }
          }
          if (other) {
            other->draw();
          }
        }
        bool changed = false;
        for (std::size_t i = 0; i < n; ++i) {
          if (Raw<T>::make(x[i]) == Raw<T>::make(y[i])) {
            check(u[i] == v[i], "unstable", "pixel %zu has changed although its input, %g, has not%s", i, x[i],
                  changed ? " (others have before)" : "");
            probe(changed ? "unchanged_after_change" : "unchanged");
          } else {
            changed = true;
          }
        }
      }
    }
  }
};

template <typename T>
void go(const Scenario& s, int c) {
  World<T> w(s, c);
  if (s.prop == "C08") {
    w.runStable();
  } else {
    w.runAll();
  }
}

void part1(const Scenario& s, int c, int type);
void part2(const Scenario& s, int c, int type);
void part3(const Scenario& s, int c, int type);
void part4(const Scenario& s, int c, int type);
#if SIM_PART == 1
void part1(const Scenario& s, int c, int type) {
  switch (type) {
    case 0:
      return go<int>(s, c); // INST
    case 1:
      return go<std::int16_t>(s, c); // INST
    default:
      return go<double>(s, c); // INST
  }
}
#elif SIM_PART == 2
void part2(const Scenario& s, int c, int type) {
  switch (type) {
    case 0:
      return go<float>(s, c); // INST
    case 1:
      return go<std::complex<double>>(s, c); // INST
    default:
      return go<signed char>(s, c); // INST
  }
}
#elif SIM_PART == 3
void part3(const Scenario& s, int c, int type) {
  switch (type) {
    case 0:
      return go<std::uint32_t>(s, c); // INST
    case 1:
      return go<std::int64_t>(s, c); // INST
    default:
      return go<unsigned char>(s, c); // INST
  }
}
#elif SIM_PART == 4
void part4(const Scenario& s, int c, int type) {
  switch (type) {
    case 0:
      return go<long double>(s, c); // INST
    case 1:
      return go<std::complex<float>>(s, c); // INST
    default:
      return go<std::uint64_t>(s, c); // INST
  }
}
#else

void execute(const Scenario& s) {
  setBudget(100000000);
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    const int type = int(s.in("type", 0, 11, std::size_t(c)));
    (type < 3 ? part1 : type < 6 ? part2 : type < 9 ? part3 : part4)(s, c, type % 3);
  });
}

void generate7(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  std::vector<i64> types;
  for (int c = 0; c < n; ++c) {
    types.push_back(c && r.chance(1, 2) ? types[0] : r.range(0, 11));
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(3, tier ? 24 : 12));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.range(0, 2);
      switch (i == 0 ? 0 : r.range(0, 9)) {
        case 0:
        case 1:
          s.op(cc, "make", {slot, r.range(0, KindCount - 1), r.range(0, 100), r.chance(1, 8) ? -1 : r.range(0, 100),
                            r.chance(1, 3) ? -1 : r.chance(1, 4) ? r.range(1000001, MaxSeed) : r.range(0, 3)});
          break;
        case 2:
          s.op(cc, "copy", {slot, r.range(0, 3)});
          break;
        case 3:
          if (r.chance(1, 4)) {
            s.op(cc, "random", {0, r.range(1, Many), r.range(1, 40), r.range(0, 2)});
            break;
          }
          s.op(cc, r.chance(1, 2) ? "advance" : "jump", {0, r.range(0, 10000000000ll)});
          break;
        case 4:
        case 5:
          s.op(cc, "noise", {slot, r.chance(1, 25) ? r.range(5, Many) : r.range(1, 4), r.range(0, 90)});
          break;
        case 6:
        case 7:
          s.op(cc, r.chance(1, 2) ? "generate" : "apply", {slot, r.range(1, r.chance(1, 20) ? 60 : 3), r.range(1, r.chance(1, 20) ? 40 : 2), r.range(0, 60)});
          break;
        default:
          if (r.chance(1, 4)) {
            s.op(cc, "law", {slot, r.range(0, 1), r.range(0, 90)});
            break;
          }
          s.op(cc, "draw", {slot, r.chance(1, 25) ? r.range(7, Many) : r.range(1, 6)});
      }
    }
  }
  s.set("type", types);
}

void generate8(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 3) ? 2 : 1;
  std::vector<i64> types, seeds;
  for (int c = 0; c < n; ++c) {
    types.push_back(r.range(0, 11));
    seeds.push_back(c && r.chance(1, 2) ? seeds[0] : r.chance(1, 6) ? r.range(1000001, MaxSeed) : r.range(0, r.chance(1, 4) ? 1 : 1000000));
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(1, tier ? 8 : 4));
    for (int i = 0; i < len; ++i) {
      switch (i == 0 ? 9 : r.range(0, 9)) {
        case 0:
          s.op(cc, "other", {r.range(0, 3), r.range(0, 1000), r.range(0, 3)});
          break;
        case 1:
          s.op(cc, r.chance(1, 2) ? "advance" : "jump", {r.range(0, 10000000000ll)});
          break;
        case 2:
          s.op(cc, "draw");
          break;
        case 3:
          s.op(cc, "clone");
          break;
        default: {
          if (r.chance(1, 25)) {
            s.op(cc, "many", {r.range(8, Many), r.range(0, 1000), r.range(1, 100), r.range(0, 1)});
            break;
          }
          std::vector<i64> a;
          const i64 k = r.range(2, 7);
          const i64 scale = r.pick<i64>({3, 15, 100, 5000, 1000000});
          for (i64 j = 0; j < k; ++j) {
            a.push_back(r.chance(1, 5) ? 0 : r.range(0, scale));
          }
          for (i64 j = 0; j < k; ++j) {
            a.push_back(r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 3) : r.range(0, scale));
          }
          s.op(cc, r.chance(1, 2) ? "raster" : "row", a);
        }
      }
    }
  }
  s.set("type", types);
  s.set("seed", seeds);
  s.set("mean", {r.range(0, 100)});
}

Register reg7("C07", generate7, execute);
Register reg8("C08", generate8, execute);
#endif

} // namespace simrandom
