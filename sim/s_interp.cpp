// SIM_PARTS 5
// C17: interpolators and extrapolators shared by several threads.
#include "LitlTransforms/Interpolation.h"

#include "img.h"

using namespace sim;

namespace siminterp {

using Real = std::vector<double>;

inline std::string str(const Real& p) {
  std::string o = "(";
  for (std::size_t i = 0; i < p.size(); ++i) {
    char b[64];
    std::snprintf(b, sizeof b, "%s%.17g", i ? "," : "", p[i]);
    o += b;
  }
  return o + ")";
}

/// Source of pixels: an image with or without extrapolation (mode 3: none)
struct Source {
  const Image* image;
  int mode;
  Z outside;
  double at(const Pos& p) const {
    return double(image->at(p, mode == 3 ? 0 : mode, outside).re);
  }
  bool has(const Pos& lo, const Pos& hi) const {
    for (std::size_t i = 0; i < lo.size(); ++i) {
      if (mode == 3 && (lo[i] < 0 || hi[i] >= image->shape[i])) {
        return false;
      }
    }
    return true;
  }
};

/// Values that interpolation may give (two at most per axis in case of ties), and whether it must be exact
struct Expected {
  std::vector<double> values;
  bool defined = true, exact = true;
};

inline double cubicWeight(int k, double d) {
  // Catmull-Rom weights of the pixels at -1, 0, 1, 2
  switch (k) {
    case -1:
      return .5 * (-d + 2 * d * d - d * d * d);
    case 0:
      return .5 * (2 - 5 * d * d + 3 * d * d * d);
    case 1:
      return .5 * (d + 4 * d * d - 3 * d * d * d);
    default:
      return .5 * (-d * d + d * d * d);
  }
}

/// method: 0 nearest, 1 linear, 2 cubic
inline Expected interpolated(const Source& src, int method, const Real& p) {
  Expected e;
  const std::size_t n = p.size();
  Pos f(n);
  Real d(n);
  Pos lo(n), hi(n);
  for (std::size_t i = 0; i < n; ++i) {
    f[i] = i64(std::floor(p[i]));
    d[i] = p[i] - double(f[i]);
    e.exact = e.exact && d[i] == 0;
    lo[i] = hi[i] = f[i];
    if (method == 0) {
      lo[i] = d[i] > .5 ? f[i] + 1 : f[i];
      hi[i] = d[i] >= .5 ? f[i] + 1 : f[i];
    } else if (d[i] != 0) {
      lo[i] = method == 1 ? f[i] : f[i] - 1;
      hi[i] = method == 1 ? f[i] + 1 : f[i] + 2;
    }
  }
  if (!src.has(lo, hi)) {
    e.defined = false;
    return e;
  }
  Pos q = lo;
  double sum = 0;
  while (true) {
    double w = 1;
    for (std::size_t i = 0; i < n; ++i) {
      const int k = int(q[i] - f[i]);
      w *= d[i] == 0 || method == 0 ? 1 : method == 1 ? (k ? d[i] : 1 - d[i]) : cubicWeight(k, d[i]);
    }
    const double v = src.at(q);
    if (method == 0) {
      e.values.push_back(v);
    } else {
      sum += w * v;
    }
    std::size_t i = 0;
    for (; i < n; ++i) {
      if (++q[i] <= hi[i]) {
        break;
      }
      q[i] = lo[i];
    }
    if (i == n) {
      break;
    }
  }
  if (method == 0) {
    e.exact = true;
  } else {
    e.values.push_back(sum);
  }
  return e;
}

template <typename T, Index N, typename H>
struct Shared {
  using In = Litl::Raster<T, N, H>;
  using Const = decltype(Litl::extrapolate(std::declval<const In&>(), T()));
  using Near = Litl::Extrapolator<In, Litl::NearestNeighbor>;
  using Peri = Litl::Extrapolator<In, Litl::Periodic>;
  Obj<In> in;
  Obj<Const> constant;
  Obj<Near> near;
  Obj<Peri> periodic;
  Image image;
  Z outside;
  i64 factor = 1;
};

// Interpolation does not exist for variable dimensions and complex numbers
template <typename T, Index N, typename H, bool = (N > 0) && !Num<T>::IsComplex>
struct Interpolators {
  using Sh = Shared<T, N, H>;
  template <typename S>
  struct Of {
    Obj<Litl::Interpolator<S, Litl::NearestNeighbor>> nearest;
    Obj<Litl::Interpolator<S, Litl::Linear>> linear;
    Obj<Litl::Interpolator<S, Litl::Cubic>> cubic;
    void make(const S& source) {
      nearest.makeBy([&] {
        return Litl::interpolate(source);
      });
      linear.makeBy([&] {
        return Litl::interpolate<Litl::Linear>(source);
      });
      cubic.makeBy([&] {
        return Litl::interpolate<Litl::Cubic>(source);
      });
    }
    void reset() {
      nearest.reset();
      linear.reset();
      cubic.reset();
    }
    double at(int method, const Real& p) {
      Litl::Vector<double, N> v;
      for (std::size_t i = 0; i < p.size(); ++i) {
        v[i] = p[i];
      }
      return method == 0 ? (*nearest)(v) : method == 1 ? (*linear)(v) : (*cubic)(v);
    }
    T at(int method, const Litl::Position<N>& p) {
      return method == 0 ? (*nearest)[p] : method == 1 ? (*linear)[p] : (*cubic)[p];
    }
    Litl::Box<N> domain(int method) {
      return method == 0 ? nearest->domain() : method == 1 ? linear->domain() : cubic->domain();
    }
    Litl::Position<N> shape(int method) {
      return method == 0 ? nearest->shape() : method == 1 ? linear->shape() : cubic->shape();
    }
    const typename Sh::In* raster(int method) {
      return method == 0 ? &nearest->raster() : method == 1 ? &linear->raster() : &cubic->raster();
    }
  };
  Of<typename Sh::In> raw;
  Of<typename Sh::Const> constant;
  Of<typename Sh::Near> near;
  Of<typename Sh::Peri> periodic;
  void make(Sh& sh) {
    raw.make(*sh.in);
    constant.make(*sh.constant);
    near.make(*sh.near);
    periodic.make(*sh.periodic);
  }
  void reset() {
    raw.reset();
    constant.reset();
    near.reset();
    periodic.reset();
  }
  template <typename S>
  void look(S& of, const Sh& sh, int method, const Source& src, const Real& p) {
    const auto e = interpolated(src, method, p);
    if (!e.defined) {
      probe("outside_raster");
      return;
    }
    double got;
    {
      Lib lib;
      got = of.at(method, p);
    }
    bool ok = false;
    const double eps = std::is_same<T, float>::value ? 1e-5 : 1e-11;
    for (double v : e.values) {
      ok = ok || (e.exact ? got == v : std::abs(got - v) <= eps * 200 * double(sh.factor));
    }
    check(ok, e.exact ? "wrong-at-pixel" : "wrong-interpolation", "method %d, extrapolation %d: the value at %s is %.17g, should be %.17g", method, src.mode, str(p).c_str(), got, e.values[0]);
    mixDouble(got);
    if (e.exact) {
      Pos q;
      for (auto x : p) {
        q.push_back(i64(std::floor(x)));
      }
      if (src.has(q, q)) {
        T direct;
        {
          Lib lib;
          direct = of.at(method, position<N>(q));
        }
        check(direct == T(src.at(q)), "wrong-at-pixel", "operator[] gives %.17g at %s", double(direct), sim::str(q).c_str());
      }
    }
    bool same = true;
    {
      Lib lib;
      const auto d = of.domain(method);
      const auto shape = of.shape(method);
      same = of.raster(method) == sh.in.get();
      for (Index i = 0; i < N; ++i) {
        same = same && d.front()[i] == 0 && d.back()[i] == sh.image.shape[std::size_t(i)] - 1 && shape[i] == sh.image.shape[std::size_t(i)];
      }
    }
    check(same, "wrong-domain", "the interpolator does not have the raster, shape and domain of its input");
  }
  void run(const Sh& sh, int mode, int method, const Real& p) {
    const Source src {&sh.image, mode, sh.outside};
    switch (mode) {
      case 0:
        return look(constant, sh, method, src, p);
      case 1:
        return look(near, sh, method, src, p);
      case 2:
        return look(periodic, sh, method, src, p);
      default:
        return look(raw, sh, method, src, p);
    }
  }
};
template <typename T, Index N, typename H>
struct Interpolators<T, N, H, false> {
  void make(Shared<T, N, H>&) {}
  void reset() {}
  void run(const Shared<T, N, H>&, int, int, const Real&) {
    probe("no_interpolation");
  }
};

/// Real coordinate, in eighths, from anywhere to far outside
inline double coordinate(const Op& op, std::size_t i, i64 length) {
  const i64 kind = op.in(3 * i + 3, 0, 5);
  const i64 v = op.arg(3 * i + 4), frac = op.in(3 * i + 5, -2, 7);
  double base;
  switch (kind) {
    case 0:
    case 1:
      base = double(((v % length) + length) % length); // Inside
      break;
    case 2:
      base = -1;
      break;
    case 3:
      base = double(length - 1);
      break;
    case 4:
      base = double(v % 40);
      break;
    default:
      base = double(v) * 1000003.; // Far
  }
  return frac <= 0 ? base : base + double(frac) / 8.;
}

template <typename T, Index N, typename H>
void look(const Scenario& s, int client, Shared<T, N, H>& sh, Interpolators<T, N, H>& inter, const Op& op, int index) {
  const int mode = int(op.in(0, 0, 3));
  Real p;
  for (std::size_t i = 0; i < sh.image.shape.size(); ++i) {
    p.push_back(coordinate(op, i, sh.image.shape[i]));
  }
  opBegin(s, client, index);
  if (op.name == "inter") {
    inter.run(sh, mode, int(op.in(1, 0, 2)), p);
  } else {
    Pos q;
    for (auto e : p) {
      q.push_back(i64(std::floor(e)));
    }
    const int m = mode % 3;
    const Z want = sh.image.at(q, m, sh.outside);
    T got;
    bool same;
    {
      Lib lib;
      const auto pos = position<N>(q);
      got = m == 0 ? (*sh.constant)[pos] : m == 1 ? (*sh.near)[pos] : (*sh.periodic)[pos];
      const auto& r = m == 0 ? sh.constant->raster() : m == 1 ? sh.near->raster() : sh.periodic->raster();
      const auto d = m == 0 ? sh.constant->domain() : m == 1 ? sh.near->domain() : sh.periodic->domain();
      const auto& shape = m == 0 ? sh.constant->shape() : m == 1 ? sh.near->shape() : sh.periodic->shape();
      same = &r == sh.in.get();
      for (std::size_t i = 0; i < q.size(); ++i) {
        same = same && d.front()[i] == 0 && d.back()[i] == sh.image.shape[i] - 1 && shape[i] == sh.image.shape[i];
      }
    }
    check(Num<T>::same(got, want), "wrong-extrapolation", "extrapolation %d: wrong value at %s, should be %lld%+lldi", m, sim::str(q).c_str(), (long long)want.re, (long long)want.im);
    check(same, "wrong-domain", "the extrapolator does not have the raster, shape and domain of its input");
  }
  opEnd();
}

template <typename T, Index N, typename H = Litl::StdHolder<std::vector<T>>>
void go(const Scenario& s, int dim = N) {
  constexpr bool View = std::is_same<H, Litl::PtrHolder<T>>::value;
  const int count = s.in("second", 0, 1) ? 2 : 1;
  Shared<T, N, H> all[2];
  Interpolators<T, N, H> inters[2];
  T* externals[2] = {};
  for (int k = 0; k < count; ++k) {
    auto& sh = all[k];
    const u64 seed = u64(s.param("seed") + k * 1000);
    const int d = k && N == -1 ? 1 + dim % 4 : dim;
    sh.image = makeImage<T>(shapeParam(s, k ? "shape2" : "shape", d, d < 3 ? 7 : 4), seed);
    sh.outside = hashValue(5, seed, lowest<T>(), 9, Num<T>::IsComplex);
    if (s.in("big", 0, 1)) {
      sh.factor = Factor<T>::value;
      enlarge(sh.image, sh.factor);
      sh.outside.re *= sh.factor;
      sh.outside.im *= sh.factor;
      probe("large_values");
    }
    externals[k] = View ? static_cast<T*>(userAlloc(sh.image.v.size() * sizeof(T), 16)) : nullptr;
    makeRaster<T, N>(sh.in, sh.image.shape, externals[k]);
    fill<T>(*sh.in, sh.image);
    sh.constant.makeBy([&] {
      if (sh.outside.re == 0 && sh.outside.im == 0) { // By default
        return Litl::extrapolate<Litl::OutOfBoundsConstant<T>>(*sh.in);
      }
      return Litl::extrapolate(*sh.in, Num<T>::make(sh.outside));
    });
    sh.near.makeBy([&] {
      return Litl::extrapolate(*sh.in);
    });
    sh.periodic.makeBy([&] {
      return Litl::extrapolate<Litl::Periodic>(*sh.in);
    });
    inters[k].make(sh);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    for (std::size_t i = 0; i < s.clients[std::size_t(c)].size(); ++i) {
      const auto& op = s.clients[std::size_t(c)][i];
      const auto k = op.in(2, 0, count - 1);
      look<T, N, H>(s, c, all[k], inters[k], op, int(i));
    }
  });
  for (int k = 0; k < count; ++k) {
    auto& sh = all[k];
    compare<T>(*sh.in, sh.image, "input-changed", "the raster");
    inters[k].reset();
    sh.constant.reset();
    sh.near.reset();
    sh.periodic.reset();
    sh.in.reset();
    if (externals[k]) {
      userFree(externals[k]);
    }
  }
  if (count > 1) {
    probe("two_images");
  }
  checkNoLeak("interpolation");
}

constexpr int KindCount = 12;
bool part1(const Scenario& s, int k);
bool part2(const Scenario& s, int k);
bool part3(const Scenario& s, int k);
bool part4(const Scenario& s, int k);

#if SIM_PART == 1
bool part1(const Scenario& s, int k) {
  switch (k) {
    case 0:
      return go<int, 1>(s), true; // INST
    case 1:
      return go<double, 2>(s), true; // INST
    case 9:
      return go<std::uint32_t, 2>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int k) {
  switch (k) {
    case 2:
      return go<unsigned char, 3>(s), true; // INST
    case 3:
      return go<float, 2, Litl::PtrHolder<float>>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 3
bool part3(const Scenario& s, int k) {
  switch (k) {
    case 4:
      return go<float, 1>(s), true; // INST
    case 10:
      return go<std::uint64_t, 1>(s), true; // INST
    case 5:
      return go<std::int16_t, 4>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 4
bool part4(const Scenario& s, int k) {
  switch (k) {
    case 6:
      return go<std::int64_t, 2>(s), true; // INST
    case 7:
      return go<double, 3>(s), true; // INST
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, KindCount - 1));
  if (part1(s, k) || part2(s, k) || part3(s, k) || part4(s, k)) {
    return;
  }
  switch (k) {
    case 8:
      return go<int, -1>(s, int(s.in("dim", 1, 4))); // INST
    default:
      return go<std::complex<float>, 2>(s); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KindCount - 1)});
  s.set("dim", {r.range(1, 4)});
  s.set("big", {r.chance(1, 4)});
  s.set("seed", {r.range(0, 1000)});
  std::vector<i64> shape;
  for (int i = 0; i < 4; ++i) {
    shape.push_back(r.chance(1, 5) ? 1 : r.range(2, 7));
  }
  s.set("shape", shape);
  for (auto& e : shape) {
    e = r.chance(1, 5) ? 1 : r.range(2, 7);
  }
  s.set("shape2", shape);
  s.set("second", {r.chance(1, 3)});
  maybeLong(s, r, 16);
  const bool long_ = s.in("long", 0, 400, 1) > 0;
  const int n = r.chance(2, 3) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(1, tier ? 20 : 12));
    for (int i = 0; i < len; ++i) {
      std::vector<i64> a = {r.range(0, 3), r.range(0, 2), r.range(0, 1)};
      const int kinds = int(r.range(0, 2)); // Mostly inside, anywhere, or far
      for (int j = 0; j < 4; ++j) {
        a.push_back(kinds == 0 ? r.range(0, 1) : kinds == 1 ? r.range(0, 4) : r.range(0, 5));
        a.push_back(long_ ? r.range(-500, 500) : r.range(-50, 50));
        a.push_back(r.range(-2, 7));
      }
      s.op(std::size_t(c), r.chance(1, 3) ? "extra" : "inter", a);
    }
  }
}

Register reg("C17", generate, execute);
#endif

} // namespace siminterp
