// SIM_PARTS 3
// C16: median filters shared by several threads, over the same or different images.
#include "LitlTransforms/MedianFilter.h"

#include "img.h"

using namespace sim;

namespace simmedian {

/// Twice the median
inline i64 median2(std::vector<i64> v) {
  std::sort(v.begin(), v.end());
  const std::size_t n = v.size();
  return n % 2 ? 2 * v[n / 2] : v[n / 2 - 1] + v[n / 2];
}

/// The mean of two values, converted to the pixel type
template <typename T>
T fromMedian2(i64 m) {
  return std::is_integral<T>::value ? T(m / 2) : T(double(m) * .5);
}

template <typename T, Index N, typename H>
struct World {
  using In = Litl::Raster<T, N, H>;
  using F = Litl::MedianFilter<T, N>;
  using Const = decltype(Litl::extrapolate(std::declval<const In&>(), T()));
  using Near = Litl::Extrapolator<In, Litl::NearestNeighbor>;
  using Peri = Litl::Extrapolator<In, Litl::Periodic>;
  struct Picture {
    Obj<In> in;
    Obj<Const> constant;
    Obj<Near> near;
    Obj<Peri> periodic;
    Image image;
    Z outside;
    std::vector<i64> expected[3]; ///< Twice the median, for each extrapolation
    Pos innerFront, innerBack; ///< Where the window does not need extrapolation
    T* external = nullptr;
    bool outlier = false;
  };
  struct Shared {
    Obj<F> filter;
    Pos front, back; ///< Window
    Picture pictures[2];
  };
  const Scenario& s;
  int client;
  Shared& sh;

  static void expect(Shared& sh, Picture& p) {
    Pos window;
    for (std::size_t i = 0; i < sh.front.size(); ++i) {
      window.push_back(sh.back[i] - sh.front[i] + 1);
      p.innerFront.push_back(std::max<i64>(0, -sh.front[i]));
      p.innerBack.push_back(p.image.shape[i] - 1 - std::max<i64>(0, sh.back[i]));
    }
    for (int mode = 0; mode < 3; ++mode) {
      for (i64 i = 0; i < count(p.image.shape); ++i) {
        const Pos at = unindex(p.image.shape, i);
        std::vector<i64> v;
        for (i64 j = 0; j < count(window); ++j) {
          Pos q = unindex(window, j);
          for (std::size_t a = 0; a < q.size(); ++a) {
            q[a] += at[a] + sh.front[a];
          }
          v.push_back(p.image.at(q, mode, p.outside).re);
        }
        p.expected[mode].push_back(median2(v));
      }
    }
  }

  /// Can all the medians be converted to U?
  template <typename U>
  static bool fits(const Picture& p, int mode) {
    for (const i64 m : p.expected[mode]) {
      if (std::is_integral<U>::value && (m / 2 < i64(std::numeric_limits<U>::min()) || m / 2 > i64(std::numeric_limits<U>::max()))) {
        return false;
      }
    }
    return true;
  }

  template <typename U, typename R>
  void compareRegion(const R& out, const Picture& p, int mode, const Pos& front, const Pos& back, i64 background, const char* what) {
    for (std::size_t i = 0; i < p.expected[mode].size(); ++i) {
      const Pos at = unindex(p.image.shape, i64(i));
      bool in = true;
      for (std::size_t a = 0; a < at.size(); ++a) {
        in = in && at[a] >= front[a] && at[a] <= back[a];
      }
      const U want = in ? fromMedian2<U>(p.expected[mode][i]) : U(background);
      check(out.data()[i] == want, in ? "wrong-median" : "outside-region", "%s: pixel %s is %.17g, should be %.17g", what, str(at).c_str(), double(out.data()[i]), double(want));
    }
  }

  /// Region inside the given bounds
  static void region(const Op& op, const Pos& lo, const Pos& hi, Pos& front, Pos& back) {
    for (std::size_t i = 0; i < lo.size(); ++i) {
      front.push_back(op.in(3 + 2 * i, lo[i], hi[i]));
      back.push_back(op.in(4 + 2 * i, front[i], hi[i]));
    }
  }

  /// Filter into a raster of another type
  template <typename E>
  void filterAs(const E& in, Picture& p, int mode, int how, const Op& op, int index, const Pos& lo, const Pos& hi) {
    const int out = how ? int(op.in(11, 0, 2)) : 0;
    if (out == 1) {
      probe("double_output");
      filter<double>(in, p, mode, how, op, index, lo, hi);
    } else if (out == 2 && fits<std::int16_t>(p, mode)) {
      probe(p.outlier ? "narrow_output_outliers" : "narrow_output");
      filter<std::int16_t>(in, p, mode, how, op, index, lo, hi);
    } else {
      filter<T>(in, p, mode, how, op, index, lo, hi);
    }
  }

  template <typename U, typename E>
  void filter(const E& in, Picture& p, int mode, int how, const Op& op, int index, const Pos& lo, const Pos& hi) {
    const F& f = *sh.filter;
    const Pos shape = p.image.shape;
    Pos whole(shape.size(), 0), end = shape;
    for (auto& e : end) {
      --e;
    }
    for (int attempt = 0; attempt < 2; ++attempt) {
      Res res;
      int fired = 0;
      if (how == 0) {
        Obj<Litl::Raster<T, N>> out;
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          out.makeBy([&] {
            return f.apply(in);
          });
        });
        fired = opEnd();
        if (res == Res::Ok) {
          for (std::size_t i = 0; i < shape.size(); ++i) {
            check(out->shape()[i] == shape[i], "wrong-median", "wrong output shape");
          }
          compareRegion<T>(*out, p, mode, whole, end, 0, "apply()");
        }
      } else {
        const std::size_t n = p.image.v.size();
        U* data = static_cast<U*>(userAlloc(n * sizeof(U), 16));
        for (std::size_t i = 0; i < n; ++i) {
          data[i] = U(101);
        }
        Obj<Litl::PtrRaster<U, N>> out;
        out.make(position<N>(shape), data);
        Pos front, back;
        if (how == 1) {
          front = whole;
          back = end;
        } else {
          region(op, lo, hi, front, back);
        }
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          if (how == 1) {
            f.applyTo(in, *out);
          } else {
            f.applyTo(in, *out, Litl::Box<N>(position<N>(front), position<N>(back)));
          }
        });
        fired = opEnd();
        if (res == Res::Ok) {
          compareRegion<U>(*out, p, mode, front, back, 101, how == 1 ? "applyTo() everywhere" : "applyTo() a region");
        }
        out.reset();
        userFree(data);
      }
      check(res == Res::Ok || (res == Res::Oom && fired), "unexpected-exception", "the filter threw %s", sim::str(res));
      if (res == Res::Ok) {
        return;
      }
    }
  }

  void run(const Op& op, int index) {
    if (op.name == "median") { // Of any values
      const i64 n = op.in(0, 1, 400);
      Obj<std::vector<T>> v;
      v.make(std::size_t(n));
      std::vector<i64> w;
      for (i64 i = 0; i < n; ++i) {
        const i64 scale = op.in(2, 0, 1) && sizeof(T) >= 4 && std::is_integral<T>::value ? 200000000 : 1; // Sums may overflow
      w.push_back(hashValue(u64(op.arg(1)), u64(i), lowest<T>(), 9, false).re * scale);
        (*v)[std::size_t(i)] = T(w.back());
      }
      double got = 0;
      opBegin(s, client, index);
      guarded([&] {
        got = F::template median<double>(*v);
      });
      opEnd();
      check(got == double(median2(w)) * .5, "wrong-median", "the median of %s is %.17g", vec(w).c_str(), got);
      std::vector<i64> sorted = w, after;
      for (auto e : *v) {
        after.push_back(i64(e));
      }
      std::sort(sorted.begin(), sorted.end());
      std::sort(after.begin(), after.end());
      check(after == sorted, "wrong-median", "values were lost");
      return;
    }
    auto& p = sh.pictures[op.in(0, 0, 1)];
    const int mode = int(op.in(1, 0, 3));
    const int how = int(op.in(2, 0, 2));
    Pos lo(p.image.shape.size(), 0), hi = p.image.shape;
    for (auto& e : hi) {
      --e;
    }
    if (mode == 3) { // No extrapolation: where the window is inside
      for (std::size_t i = 0; i < lo.size(); ++i) {
        if (p.innerBack[i] < p.innerFront[i]) {
          return;
        }
      }
      probe("no_extrapolation");
      filterAs(*p.in, p, 0, 2, op, index, p.innerFront, p.innerBack);
    } else if (mode == 0) {
      filterAs(*p.constant, p, 0, how, op, index, lo, hi);
    } else if (mode == 1) {
      filterAs(*p.near, p, 1, how, op, index, lo, hi);
    } else {
      filterAs(*p.periodic, p, 2, how, op, index, lo, hi);
    }
  }
};

template <typename T, Index N, typename H = Litl::StdHolder<std::vector<T>>>
void go(const Scenario& s, int dim = N) {
  using W = World<T, N, H>;
  constexpr bool View = std::is_same<H, Litl::PtrHolder<T>>::value;
  typename W::Shared sh;
  const bool centred = s.in("centred", 0, 1);
  const i64 radius = s.in("radius", 0, dim > 2 ? 1 : dim > 1 ? 4 : 12);
  for (int i = 0; i < dim; ++i) {
    const i64 n = s.in("window", 1, dim == 1 ? 25 : dim == 2 ? 9 : 3, std::size_t(i));
    sh.front.push_back(centred ? -radius : -s.in("origin", -2, n + 1, std::size_t(i)));
    sh.back.push_back(centred ? radius : sh.front.back() + n - 1);
  }
  if (centred && N != -1) {
    if (radius == 1 && s.param("seed") % 2) { // By default
      sh.filter.make();
    } else {
      sh.filter.make(Index(radius));
    }
  } else {
    sh.filter.makeBy([&] {
      return typename W::F(Litl::Box<N>(position<N>(sh.front), position<N>(sh.back)));
    });
  }
  for (int k = 0; k < 2; ++k) {
    auto& p = sh.pictures[k];
    p.image = makeImage<T>(shapeParam(s, k ? "shape2" : "shape", dim, dim < 3 ? 7 : dim == 3 ? 4 : 3), u64(s.param("seed") + k * 31));
    p.outside = hashValue(5, u64(s.param("seed") + k), lowest<T>(), 9, false);
    if (s.in("big", 0, 1)) {
      enlarge(p.image, Factor<T>::value);
      p.outside.re *= Factor<T>::value;
      probe("large_values");
    }
    const i64 outlier = s.in("outlier", 0, 2); // None, one which does not fit in 16 bits, or one which is close to the others modulo 2^16
    if (outlier && sizeof(T) >= 4) {
      p.image.v[u64(s.param("seed")) % p.image.v.size()].re = outlier == 1 ? 1000000 : 65536 + p.image.v[0].re;
      p.outlier = true;
    }
    if (View) {
      p.external = static_cast<T*>(userAlloc(p.image.v.size() * sizeof(T), 16));
    }
    makeRaster<T, N>(p.in, p.image.shape, p.external);
    fill<T>(*p.in, p.image);
    p.constant.makeBy([&] {
      if (p.outside.re == 0) { // By default
        return Litl::extrapolate<Litl::OutOfBoundsConstant<T>>(*p.in);
      }
      return Litl::extrapolate(*p.in, T(p.outside.re));
    });
    p.near.makeBy([&] {
      return Litl::extrapolate(*p.in);
    });
    p.periodic.makeBy([&] {
      return Litl::extrapolate<Litl::Periodic>(*p.in);
    });
    W::expect(sh, p);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    W w {s, c, sh};
    for (std::size_t i = 0; i < s.clients[std::size_t(c)].size(); ++i) {
      w.run(s.clients[std::size_t(c)][i], int(i));
    }
  });
  for (auto& p : sh.pictures) {
    compare<T>(*p.in, p.image, "input-changed", "the input");
    p.constant.reset();
    p.near.reset();
    p.periodic.reset();
    p.in.reset();
    if (p.external) {
      userFree(p.external);
    }
  }
  sh.filter.reset();
  checkNoLeak("median filtering");
}

constexpr int KindCount = 10;
bool part1(const Scenario& s, int k, int dim);
bool part2(const Scenario& s, int k, int dim);

#if SIM_PART == 1
bool part1(const Scenario& s, int k, int) {
  switch (k) {
    case 0:
      return go<double, 1>(s), true; // INST
    case 1:
      return go<unsigned char, 3>(s), true; // INST
    case 2:
      return go<float, 2, Litl::PtrHolder<float>>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int k, int dim) {
  switch (k) {
    case 3:
      return go<std::int16_t, 2>(s), true; // INST
    case 8:
      return go<std::uint32_t, 1>(s), true; // INST
    case 4:
      return go<double, 2>(s), true; // INST
    case 5:
      return go<int, -1>(s, dim), true; // INST
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, KindCount - 1)), dim = int(s.in("dim", 1, 3));
  if (part1(s, k, dim) || part2(s, k, dim)) {
    return;
  }
  switch (k) {
    case 6:
      return go<std::int64_t, 3>(s); // INST
    case 7:
      return go<int, 4>(s); // INST
    default:
      return go<int, 2>(s); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KindCount - 1)});
  s.set("dim", {r.range(1, 3)});
  s.set("big", {r.chance(1, 4)});
  s.set("seed", {r.range(0, 1000)});
  s.set("outlier", {r.range(0, 2)});
  s.set("centred", {r.chance(1, 3)});
  const bool large = r.chance(1, 16);
  maybeLong(s, r, 16, 150);
  s.set("radius", {r.range(0, large ? 12 : 2)});
  std::vector<i64> shape, shape2, window, origin;
  for (int i = 0; i < 4; ++i) {
    shape.push_back(r.chance(1, 4) ? 1 : r.range(1, 7));
    shape2.push_back(r.chance(1, 4) ? 1 : r.range(1, 7));
    window.push_back(r.range(1, large ? 25 : 5));
    origin.push_back(r.chance(1, 4) ? r.range(-2, 6) : r.range(0, window.back() - 1));
  }
  s.set("shape", shape);
  s.set("shape2", shape2);
  s.set("window", window);
  s.set("origin", origin);
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(1, tier ? 5 : 3));
    for (int i = 0; i < len; ++i) {
      if (r.chance(1, 6)) {
        s.op(std::size_t(c), "median", {r.range(1, r.chance(1, 10) ? 400 : 12), r.range(0, 1000), r.range(0, 1)});
      } else {
        std::vector<i64> a = {r.range(0, 1), r.range(0, 3), r.range(0, 2)};
        for (int j = 0; j < 9; ++j) {
          a.push_back(r.range(0, s.in("long", 6, 400, 1)));
        }
        s.op(std::size_t(c), "filter", a);
      }
      if (r.chance(1, 4)) {
        s.fault("alloc", {c, i, r.range(1, 4), r.range(1, 2)});
      }
    }
  }
}

Register reg("C16", generate, execute);
#endif

} // namespace simmedian
