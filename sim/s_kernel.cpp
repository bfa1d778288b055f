// SIM_PARTS 7
// C14: kernels shared by several threads, over extrapolated images, with allocation failures.
// C15: separable and one-dimensional kernels.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/SeparableKernel.h"

#include "img.h"

using namespace sim;

namespace simkernel {

/// The description of another kernel and another image
inline Scenario another(const Scenario& s) {
  Scenario out;
  out.params = s.params;
  for (const char* k : {"shape", "kernel", "origin", "line"}) {
    auto& v = out.params[k];
    for (auto& e : v) {
      e += i64(&e - &v[0]) % 2 ? 1 : 2;
    }
    std::reverse(v.begin(), v.end());
  }
  out.set("seed", {s.param("seed") + 1000});
  out.set("how", {s.param("how") + 1});
  return out;
}

// ---------------------------------------------------------------- C14

template <typename T, typename TIn, Index N, typename H>
struct KernelWorld {
  using In = Litl::Raster<TIn, N, H>;
  using K = Litl::Kernel<T, N>;
  using Const = decltype(Litl::extrapolate(std::declval<const In&>(), TIn()));
  using Near = Litl::Extrapolator<In, Litl::NearestNeighbor>;
  using Peri = Litl::Extrapolator<In, Litl::Periodic>;

  struct Shared {
    Obj<K> kernel;
    Obj<In> in;
    Obj<Const> constant;
    Obj<Near> near;
    Obj<Peri> periodic;
    Image image, weights;
    Pos front; ///< Of the kernel window
    Z outside;
    std::vector<Z> expected[3];
  };
  const Scenario& s;
  int client;
  Shared& sh;

  static void expect(Shared& sh) {
    const i64 n = count(sh.image.shape), m = count(sh.weights.shape);
    for (int mode = 0; mode < 3; ++mode) {
      for (i64 i = 0; i < n; ++i) {
        Z sum {0, 0};
        const Pos p = unindex(sh.image.shape, i);
        for (i64 j = 0; j < m; ++j) {
          Pos q = unindex(sh.weights.shape, j);
          for (std::size_t a = 0; a < q.size(); ++a) {
            q[a] += p[a] + sh.front[a];
          }
          sum = sum + sh.weights.v[std::size_t(j)] * sh.image.at(q, mode, sh.outside);
        }
        sh.expected[mode].push_back(sum);
      }
    }
  }

  template <typename E>
  void correlate(const E& extra, int mode, const Op& op, int index) {
    const Image want {sh.image.shape, sh.expected[mode]};
    const int how = int(op.in(1, 0, 3));
    const K& k = *sh.kernel;
    for (int attempt = 0; attempt < 2; ++attempt) {
      Res res;
      int fired = 0;
      if (how == 0) {
        Obj<Litl::Raster<T, N>> out;
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          out.makeBy([&] {
            return k * extra;
          });
        });
        fired = opEnd();
        if (res == Res::Ok) {
          compare<T>(*out, want, "wrong-pixel", "kernel * image");
        }
      } else {
        // An output with some previous contents, possibly external
        const std::size_t n = want.v.size();
        Obj<Litl::Raster<T, N>> own;
        Obj<Litl::PtrRaster<T, N>> view;
        T* data = nullptr;
        if (how == 1) {
          own.make(position<N>(want.shape));
          data = own->data();
        } else {
          data = static_cast<T*>(userAlloc(n * sizeof(T), 16));
          view.make(position<N>(want.shape), data);
        }
        for (std::size_t i = 0; i < n; ++i) {
          data[i] = Num<T>::make({77, 0});
        }
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          if (how == 1) {
            k.correlateTo(extra, *own);
          } else {
            k.correlateTo(extra, *view);
          }
        });
        fired = opEnd();
        if (res == Res::Ok) {
          if (how == 1) {
            compare<T>(*own, want, "wrong-pixel", "correlateTo()");
          } else {
            compare<T>(*view, want, "wrong-pixel", "correlateTo() a view");
          }
        }
        view.reset();
        if (how > 1) {
          userFree(data);
        }
      }
      check(res == Res::Ok || (res == Res::Oom && fired), "unexpected-exception", "correlation threw %s", sim::str(res));
      if (res == Res::Ok) {
        mix(u64(mode));
        break;
      }
    }
  }

  void run(const Op& op, int index) {
    const int mode = int(op.in(0, 0, 2));
    if (op.name == "look") {
      opBegin(s, client, index);
      const K& k = *sh.kernel;
      bool ok = true;
      {
        Lib lib;
        const auto shape = k.shape();
        const auto& w = k.window();
        const auto r = k.raster();
        for (Index i = 0; i < N; ++i) {
          ok = ok && shape[i] == sh.weights.shape[std::size_t(i)] && w.front()[i] == sh.front[std::size_t(i)];
        }
        for (std::size_t i = 0; i < sh.weights.v.size(); ++i) {
          ok = ok && Num<T>::same(r.data()[i], sh.weights.v[i]);
        }
      }
      check(ok, "kernel-changed", "the kernel does not have its window and values");
      opEnd();
    } else if (mode == 0) {
      correlate(*sh.constant, 0, op, index);
    } else if (mode == 1) {
      correlate(*sh.near, 1, op, index);
    } else {
      correlate(*sh.periodic, 2, op, index);
    }
  }
};

template <typename T, typename TIn, Index N, typename H = Litl::StdHolder<std::vector<TIn>>>
void goKernel(const Scenario& s) {
  using W = KernelWorld<T, TIn, N, H>;
  constexpr bool View = std::is_same<H, Litl::PtrHolder<TIn>>::value;
  typename W::Shared all[2];
  TIn* externals[2] = {};
  const int count = s.in("second", 0, 1) ? 2 : 1;
  const auto setup = [&](const Scenario& s, typename W::Shared& sh, TIn*& external) {
  sh.image = makeImage<TIn>(shapeParam(s, "shape", N, N < 3 ? 9 : N == 3 ? 5 : 3), u64(s.param("seed")));
  sh.weights = makeImage<T>(shapeParam(s, "kernel", N, N == 1 ? 40 : N == 2 ? 12 : 3), u64(s.param("seed")) + 1);
  sh.outside = hashValue(5, u64(s.param("seed")), lowest<TIn>(), 9, Num<TIn>::IsComplex);
  if (s.in("big", 0, 1)) { // As large as sums are exact
    const i64 factor = std::min<i64>(Factor<TIn>::value, sizeof(T) >= 8 ? 1000000000 : std::is_integral<T>::value ? 10000 : 100);
    enlarge(sh.image, factor);
    sh.outside.re *= factor;
    sh.outside.im *= factor;
    probe("large_values");
  }
  const int centred = int(s.in("how", 0, 3));
  for (std::size_t i = 0; i < std::size_t(N); ++i) {
    const i64 n = sh.weights.shape[i];
    sh.front.push_back(centred == 0 ? -(n / 2) : centred == 1 ? -s.in("origin", -3, n + 2, i) : -s.in("origin", 0, n - 1, i));
  }
  if (View) {
    external = static_cast<TIn*>(userAlloc(sh.image.v.size() * sizeof(TIn), 16));
  }
  makeRaster<TIn, N>(sh.in, sh.image.shape, external);
  fill<TIn>(*sh.in, sh.image);
  {
    Obj<Litl::Raster<T, N>> values;
    values.make(position<N>(sh.weights.shape));
    fill<T>(*values, sh.weights);
    sh.kernel.makeBy([&] {
      Litl::Position<N> origin = position<N>(sh.front);
      for (auto& e : origin) {
        e = -e;
      }
      return centred == 0 ? Litl::kernelize(*values) :
          centred == 3    ? Litl::kernelize(values->data(), Litl::Box<N>(values->domain() - origin)) :
                            Litl::kernelize(*values, origin);
    });
  }
  sh.constant.makeBy([&] {
    if (sh.outside.re == 0 && sh.outside.im == 0) { // By default
      return Litl::extrapolate<Litl::OutOfBoundsConstant<TIn>>(*sh.in);
    }
    return Litl::extrapolate(*sh.in, Num<TIn>::make(sh.outside));
  });
  sh.near.makeBy([&] {
    return Litl::extrapolate(*sh.in);
  });
  sh.periodic.makeBy([&] {
    return Litl::extrapolate<Litl::Periodic>(*sh.in);
  });
  W::expect(sh);
  };
  for (int k = 0; k < count; ++k) {
    setup(k ? another(s) : s, all[k], externals[k]);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    for (std::size_t i = 0; i < s.clients[std::size_t(c)].size(); ++i) {
      const auto& op = s.clients[std::size_t(c)][i];
      W w {s, c, all[op.in(2, 0, count - 1)]};
      w.run(op, int(i));
    }
  });
  for (int k = 0; k < count; ++k) {
  auto& sh = all[k];
  compare<TIn>(*sh.in, sh.image, "input-changed", "the input");
  compare<T>(static_cast<const typename W::K&>(*sh.kernel).raster(), sh.weights, "kernel-changed", "the kernel");
  sh.constant.reset();
  sh.near.reset();
  sh.periodic.reset();
  sh.kernel.reset();
  sh.in.reset();
  if (externals[k]) {
    userFree(externals[k]);
  }
  }
  if (count > 1) {
    probe("two_kernels");
  }
  checkNoLeak("correlation");
}

// ---------------------------------------------------------------- C15

/// Correlate lines along an axis, cropping
inline Image along(const Image& in, std::size_t axis, const std::vector<Z>& k, i64 origin) {
  Image out {in.shape, {}};
  for (i64 i = 0; i < count(in.shape); ++i) {
    const Pos p = unindex(in.shape, i);
    Z sum {0, 0};
    for (std::size_t j = 0; j < k.size(); ++j) {
      Pos q = p;
      q[axis] += i64(j) - origin;
      if (q[axis] >= 0 && q[axis] < in.shape[axis]) {
        sum = sum + k[j] * in.v[std::size_t(indexOf(in.shape, q))];
      }
    }
    out.v.push_back(sum);
  }
  return out;
}

struct Line {
  std::vector<Z> v;
  i64 origin;
};

template <typename T>
std::vector<T> values(const Line& l) {
  std::vector<T> out;
  for (auto z : l.v) {
    out.push_back(Num<T>::make(z));
  }
  return out;
}

inline Line makeLine(const Scenario& s, int index, bool complex, i64 max) {
  const i64 n = s.in("line", 1, max, std::size_t(2 * index));
  Line l;
  for (i64 i = 0; i < n; ++i) {
    l.v.push_back(hashValue(u64(s.param("seed")) + 17, u64(index * 100 + i), -3, 3, complex));
  }
  l.origin = s.in("line", 0, n - 1, std::size_t(2 * index + 1));
  return l;
}

/// What a separable kernel is expected to do
struct Steps {
  std::vector<std::pair<std::size_t, Line>> lines;
  Image apply(Image im) const {
    for (auto& l : lines) {
      im = along(im, l.first, l.second.v, l.second.origin);
    }
    return im;
  }
  /// With one line per axis
  Steps merged() const {
    Steps res;
    for (auto& l : lines) {
      Line* found = nullptr;
      for (auto& m : res.lines) {
        if (m.first == l.first) {
          found = &m.second;
        }
      }
      if (not found) {
        res.lines.push_back(l);
        continue;
      }
      Line c {std::vector<Z>(found->v.size() + l.second.v.size() - 1, Z {0, 0}), found->origin + l.second.origin};
      for (std::size_t i = 0; i < found->v.size(); ++i) {
        for (std::size_t j = 0; j < l.second.v.size(); ++j) {
          c.v[i + j] = c.v[i + j] + found->v[i] * l.second.v[j];
        }
      }
      *found = c;
    }
    return res;
  }
};

template <typename T, typename TIn, Index N, Index I0, Index... Is>
struct SeparableWorld {
  static constexpr i64 MaxLine = N == 1 ? 40 : N == 2 ? 24 : 6;
  using K = Litl::SeparableKernel<T, I0, Is...>;
  using L = Litl::LineKernel<T>;
  using In = Litl::Raster<TIn, N>;
  struct Shared {
    Obj<K> kernel;
    Obj<Litl::Kernel<T, K::Dimension>> composed;
    Obj<In> in;
    Image image, want, composition;
    Steps steps, merged;
  };
  const Scenario& s;
  int client;
  Shared& sh;

  static void make(const Scenario& s, Shared& sh) {
    const i64 how = s.in("how", 0, 5);
    const i64 sign = s.in("sign", 0, 1) ? -1 : 1;
    const bool byDefault = sign == 1 && s.param("seed") % 2;
    auto same = [&](const Line& l) {
      for (std::size_t axis : {std::size_t(I0), std::size_t(Is)...}) {
        sh.steps.lines.push_back({axis, l});
      }
    };
    auto derive = [&](i64 a, i64 b) {
      same({{{a, 0}, {b, 0}, {a, 0}}, 1});
      sh.steps.lines[0].second = {{{sign, 0}, {0, 0}, {-sign, 0}}, 1};
    };
    switch (how) {
      case 0: {
        const auto l = makeLine(s, 0, Num<T>::IsComplex, MaxLine);
        same(l);
        Obj<L> line;
        line.make(values<T>(l), Index(l.origin));
        sh.kernel.makeBy([&] {
          return line->template along<I0, Is...>();
        });
        break;
      }
      case 1: {
        const auto a = makeLine(s, 0, Num<T>::IsComplex, MaxLine);
        const auto b = makeLine(s, 1, Num<T>::IsComplex, MaxLine);
        same(b);
        sh.steps.lines[0].second = a;
        Obj<L> la, lb;
        la.make(values<T>(a), Index(a.origin));
        lb.make(values<T>(b), Index(b.origin));
        sh.kernel.makeBy([&] {
          return Product<sizeof...(Is)>::make(*la, *lb);
        });
        break;
      }
      case 2:
        derive(1, 1);
        sh.kernel.makeBy([&] {
          return byDefault ? Product<sizeof...(Is)>::prewitt() : Product<sizeof...(Is)>::prewitt(T(sign));
        });
        break;
      case 3:
        derive(1, 2);
        sh.kernel.makeBy([&] {
          return byDefault ? Product<sizeof...(Is)>::sobel() : Product<sizeof...(Is)>::sobel(T(sign));
        });
        break;
      case 4:
        derive(3, 10);
        sh.kernel.makeBy([&] {
          return byDefault ? Product<sizeof...(Is)>::scharr() : Product<sizeof...(Is)>::scharr(T(sign));
        });
        break;
      default:
        same({{{sign, 0}, {-2 * sign, 0}, {sign, 0}}, 1});
        sh.kernel.makeBy([&] {
          return byDefault ? K::laplacian() : K::laplacian(T(sign));
        });
    }
    sh.want = sh.steps.apply(sh.image);
    sh.merged = sh.steps.merged();
    sh.composition = sh.merged.apply(sh.image);
  }

  template <std::size_t Others, typename = void>
  struct Product {
    static K make(const L& a, const L& b) {
      return a.template along<I0>() * b.template along<Is...>();
    }
    static K prewitt(T sign) {
      return K::prewitt(sign);
    }
    static K sobel(T sign) {
      return K::sobel(sign);
    }
    static K scharr(T sign) {
      return K::scharr(sign);
    }
    static K prewitt() {
      return K::prewitt();
    }
    static K sobel() {
      return K::sobel();
    }
    static K scharr() {
      return K::scharr();
    }
  };
  template <typename Dummy>
  struct Product<0, Dummy> {
    static K make(const L& a, const L&) {
      return a.template along<I0>();
    }
    static K derive(T sign = 1) {
      return L(std::vector<T> {sign, T(0), T(-sign)}).template along<I0>();
    }
    static K prewitt(T sign = 1) {
      return derive(sign);
    }
    static K sobel(T sign = 1) {
      return derive(sign);
    }
    static K scharr(T sign = 1) {
      return derive(sign);
    }
  };

  /// Only if the raster has exactly the axes of the kernel
  template <Index M>
  std::enable_if_t<M == K::Dimension, void> composed(int index, int attempt, Res& res, int& fired) {
    Obj<Litl::Raster<T, N>> out;
    opBegin(s, client, attempt ? -1 : index);
    res = guarded([&] {
      const K& k = *sh.kernel;
      const auto c = k.compose();
      const auto extra = Litl::extrapolate(*sh.in, TIn());
      out.makeBy([&] {
        return c * extra;
      });
    });
    fired = opEnd();
    if (res == Res::Ok) {
      compare<T>(*out, sh.composition, "wrong-composition", "the composed kernel times the image");
    }
  }
  template <Index M>
  std::enable_if_t<M != K::Dimension, void> composed(int index, int attempt, Res& res, int& fired) {
    opBegin(s, client, index);
    res = guarded([&] {
      const K& k = *sh.kernel;
      const auto c = k.compose();
    });
    fired = opEnd();
  }

  void properties() {
    const K& k = *sh.kernel;
    for (int composed = 0; composed < 2; ++composed) {
      Obj<Litl::Box<K::Dimension>> box;
      Res res = guarded([&] {
        box.makeBy([&] {
          return composed ? k.compose().window() : k.window();
        });
      });
      check(res == Res::Ok, "unexpected-exception", "window() threw %s", sim::str(res));
      for (i64 axis = 0; axis < i64(K::Dimension); ++axis) {
        i64 front = 0, back = 0;
        for (auto& l : sh.merged.lines) {
          if (i64(l.first) == axis) {
            front = -l.second.origin;
            back = front + i64(l.second.v.size()) - 1;
          }
        }
        check(
            box->front()[std::size_t(axis)] == front && box->back()[std::size_t(axis)] == back,
            "wrong-window",
            "the window of the %skernel is %ld..%ld along axis %ld (expected %ld..%ld)",
            composed ? "composed " : "separable ",
            long(box->front()[std::size_t(axis)]),
            long(box->back()[std::size_t(axis)]),
            long(axis),
            long(front),
            long(back));
      }
    }
    for (auto& l : sh.steps.lines) {
      const Line* first = nullptr;
      for (auto& m : sh.steps.lines) {
        if (m.first == l.first && not first) {
          first = &m.second;
        }
      }
      const auto& line = k[Index(l.first)];
      bool ok = line.size() == first->v.size() && line.origin() == first->origin;
      for (std::size_t i = 0; ok && i < first->v.size(); ++i) {
        ok = Num<T>::same(line.data()[i], first->v[i]);
      }
      check(ok, "wrong-line", "kernel[%ld] is not the first kernel along the axis", long(l.first));
    }
  }

  void run(const Op& op, int index) {
    const K& k = *sh.kernel;
    if (op.name == "properties") {
      properties();
      return;
    }
    for (int attempt = 0; attempt < 2; ++attempt) {
      Res res = Res::Ok;
      int fired = 0;
      if (op.name == "to") {
        Obj<Litl::Raster<T, N>> out;
        out.make(position<N>(sh.image.shape));
        for (std::size_t i = 0; i < sh.want.v.size(); ++i) {
          out->data()[i] = Num<T>::make({55, 0});
        }
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          k.correlateTo(*sh.in, *out);
        });
        fired = opEnd();
        if (res == Res::Ok) {
          compare<T>(*out, sh.want, "wrong-pixel", "correlateTo()");
        }
      } else if (op.name == "compose") {
        composed<N>(index, attempt, res, fired);
      } else {
        Obj<Litl::Raster<T, N>> out;
        opBegin(s, client, attempt ? -1 : index);
        res = guarded([&] {
          out.makeBy([&] {
            return k * *sh.in;
          });
        });
        fired = opEnd();
        if (res == Res::Ok) {
          compare<T>(*out, sh.want, "wrong-pixel", "kernel * image");
        }
      }
      check(res == Res::Ok || (res == Res::Oom && fired), "unexpected-exception", "correlation threw %s", sim::str(res));
      if (res == Res::Ok) {
        return;
      }
    }
  }
};

template <typename T, typename TIn, Index N, Index I0, Index... Is>
void goSeparable(const Scenario& s) {
  using W = SeparableWorld<T, TIn, N, I0, Is...>;
  typename W::Shared all[2];
  const int count = s.in("second", 0, 1) ? 2 : 1;
  for (int k = 0; k < count; ++k) {
    const auto d = k ? another(s) : s;
    auto& sh = all[k];
    sh.image = makeImage<TIn>(shapeParam(d, "shape", N, N < 3 ? 9 : N == 3 ? 5 : 3), u64(d.param("seed")));
    sh.in.make(position<N>(sh.image.shape));
    fill<TIn>(*sh.in, sh.image);
    W::make(d, sh);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    for (std::size_t i = 0; i < s.clients[std::size_t(c)].size(); ++i) {
      const auto& op = s.clients[std::size_t(c)][i];
      W w {s, c, all[op.in(0, 0, count - 1)]};
      w.run(op, int(i));
    }
  });
  for (int k = 0; k < count; ++k) {
    auto& sh = all[k];
    compare<TIn>(*sh.in, sh.image, "input-changed", "the input");
    std::size_t n = 0;
    bool ok = true;
    std::vector<bool> used(sh.steps.lines.size());
    for (const auto& e : static_cast<const typename W::K&>(*sh.kernel)) {
      ++n;
      const Line* l = nullptr;
      for (std::size_t i = 0; i < sh.steps.lines.size() && not l; ++i) {
        if (i64(sh.steps.lines[i].first) == e.first && not used[i]) {
          l = &sh.steps.lines[i].second;
          used[i] = true;
        }
      }
      ok = ok && l && l->v.size() == e.second.size() && l->origin == e.second.origin();
      for (std::size_t i = 0; ok && i < l->v.size(); ++i) {
        ok = Num<T>::same(e.second.data()[i], l->v[i]);
      }
    }
    check(ok && n == sh.steps.lines.size(), "kernel-changed", "the line kernels were changed");
    sh.kernel.reset();
    sh.in.reset();
  }
  if (count > 1) {
    probe("two_kernels");
  }
  checkNoLeak("separable correlation");
}

/// One-dimensional kernels over samples of lines
template <typename T, typename TIn, typename TOut>
struct LineWorld {
  using L = Litl::LineKernel<T>;
  using K1 = Litl::Kernel1d<T>;
  struct Shared {
    Obj<L> line;
    Obj<K1> kernel;
    Obj<std::vector<TIn>> in;
    Obj<Litl::Raster<TIn, 2>> raster, other;
    std::vector<Z> model;
    Image image, otherImage;
    Line l;
  };
  const Scenario& s;
  int client;
  Shared& sh;

  void samples(const Op& op, int index) {
    // Input line: offset + stride * [0, n)
    const i64 total = i64(sh.model.size());
    const i64 stride = op.in(0, 1, 3);
    const i64 offset = op.in(1, 0, 4);
    const i64 n = op.in(2, 1, (total - offset - 1) / stride + 1);
    const i64 step = op.in(3, 1, 4);
    const i64 front = op.in(4, 0, n - 1);
    const bool toEnd = op.in(6, 0, 1);
    const i64 back = toEnd ? n - 1 : op.in(5, front, n - 1);
    const i64 outStride = op.in(7, 1, 3), outStep = op.in(8, 1, 3), outFront = op.in(9, 0, 3);
    const bool line = op.in(10, 0, 1);
    const i64 samplesCount = (back - front) / step + 1;
    const i64 size = outFront + (samplesCount - 1) * outStep + 1;
    std::vector<Z> want(std::size_t((size - 1) * outStride + 1), Z {66, 0});
    for (i64 i = front, o = outFront; i <= back; i += step, o += outStep) {
      Z sum {0, 0};
      for (i64 j = 0; j < i64(sh.l.v.size()); ++j) {
        const i64 q = i + j - sh.l.origin;
        if (q >= 0 && q < n) {
          sum = sum + sh.l.v[std::size_t(j)] * sh.model[std::size_t(offset + q * stride)];
        }
      }
      want[std::size_t(o * outStride)] = sum;
    }
    TOut* out = static_cast<TOut*>(userAlloc(want.size() * sizeof(TOut), 16));
    for (std::size_t i = 0; i < want.size(); ++i) {
      out[i] = Num<TOut>::make({66, 0});
    }
    opBegin(s, client, index);
    const Res res = guarded([&] {
      Litl::IndexSampling si, so;
      si.front = front;
      si.step = step;
      if (!toEnd) {
        si.back = back;
      }
      so.front = outFront;
      so.step = outStep;
      const Litl::DataSamples<const TIn> is(sh.in->data() + offset, std::size_t(n), si, stride);
      Litl::DataSamples<TOut> os(out, std::size_t(size), so, outStride);
      if (line) {
        const L& k = *sh.line;
        k.correlate(is, os);
      } else {
        const K1& k = *sh.kernel;
        k.sparseCorrelate1dTo(is, os);
      }
    });
    const int fired = opEnd();
    check(res == Res::Ok || (res == Res::Oom && fired), "unexpected-exception", "correlation threw %s", sim::str(res));
    if (res == Res::Ok) {
      for (std::size_t i = 0; i < want.size(); ++i) {
        check(Num<TOut>::same(out[i], want[i]), "wrong-sample", "wrong value at element %zu of the output: should be %lld (line of %lld, samples %lld:%lld:%lld)", i,
              (long long)want[i].re, (long long)n, (long long)front, (long long)back, (long long)step);
      }
    }
    userFree(out);
  }

  template <typename F>
  void image(const Image& want, int index, const char* what, F&& f) {
    for (int attempt = 0; attempt < 2; ++attempt) {
      Obj<Litl::Raster<TOut, 2>> out;
      opBegin(s, client, attempt ? -1 : index);
      const Res res = guarded([&] {
        f(out);
      });
      const int fired = opEnd();
      check(res == Res::Ok || (res == Res::Oom && fired), "unexpected-exception", "%s threw %s", what, sim::str(res));
      if (res == Res::Ok) {
        compare<TOut>(*out, want, "wrong-pixel", what);
        return;
      }
    }
  }

  void run(const Op& op, int index) {
    const K1& k = *sh.kernel;
    const bool second = op.in(9, 0, 2) == 2;
    const auto& raster = second ? sh.other : sh.raster;
    const auto& model = second ? sh.otherImage : sh.image;
    if (op.name == "along") {
      const i64 axis = op.in(0, 0, 1);
      image(along(model, std::size_t(axis), sh.l.v, sh.l.origin), index, "correlateAlong()", [&](Obj<Litl::Raster<TOut, 2>>& out) {
        out.makeBy([&] {
          return axis ? k.template correlateAlong<1, TOut>(*raster) : k.template correlateAlong<0, TOut>(*raster);
        });
      });
    } else if (op.name == "2d") {
      const auto full = along(along(model, 0, sh.l.v, sh.l.origin), 1, sh.l.v, sh.l.origin);
      i64 front[2], back[2], step[2];
      Pos shape;
      for (int i = 0; i < 2; ++i) {
        step[i] = op.in(std::size_t(3 * i), 1, 3);
        front[i] = op.in(std::size_t(3 * i + 1), 0, model.shape[std::size_t(i)] - 1);
        back[i] = op.in(std::size_t(3 * i + 2), front[i], model.shape[std::size_t(i)] - 1);
        shape.push_back((back[i] - front[i]) / step[i] + 1);
      }
      const bool dense = op.in(6, 0, 2) == 0;
      Image want {dense ? full.shape : shape, {}};
      if (dense) {
        want = full;
      } else {
        for (i64 y = front[1]; y <= back[1]; y += step[1]) {
          for (i64 x = front[0]; x <= back[0]; x += step[0]) {
            want.v.push_back(full.v[std::size_t(indexOf(full.shape, {x, y}))]);
          }
        }
      }
      bool sampled = true;
      image(want, index, "2D correlation", [&](Obj<Litl::Raster<TOut, 2>>& out) {
        out.make(position<2>(want.shape));
        if (dense && op.in(0, 0, 3) == 2) {
          K1 own = k;
          own.correlate2dTo(*raster, *out);
        } else if (dense) {
          const Litl::PositionSampling<2> all(raster->domain());
          k.sparseCorrelate2dTo(*raster, all, *out);
        } else {
          const Litl::PositionSampling<2> some(
              Litl::Box<2>({front[0], front[1]}, {back[0], back[1]}),
              Litl::Position<2>({step[0], step[1]}));
          k.sparseCorrelate2dTo(*raster, some, *out);
          const auto size = some.shape();
          sampled = size[0] == want.shape[0] && size[1] == want.shape[1];
        }
      });
      check(sampled, "sampling", "the shape of a sampling is not the number of samples along each axis");
    } else {
      samples(op, index);
    }
  }
};

template <typename T, typename TIn, typename TOut>
void goLine(const Scenario& s) {
  using W = LineWorld<T, TIn, TOut>;
  typename W::Shared sh;
  sh.l = makeLine(s, 0, false, 40);
  const i64 making = s.in("making", 0, 6);
  if (making == 1 || making == 2) { // Centred by default
    sh.l.origin = i64(sh.l.v.size()) / 2;
  }
  {
    Obj<Litl::Sequence<T>> sequence;
    sequence.makeBy([&] {
      auto v = values<T>(sh.l);
      return Litl::Sequence<T>(v);
    });
    sh.line.makeBy([&] {
      switch (making) {
        case 1:
          return Litl::LineKernel<T>(values<T>(sh.l));
        case 2:
          return Litl::kernelize(*sequence);
        case 3:
          return Litl::kernelize(*sequence, Index(sh.l.origin));
        case 4:
          return Litl::kernelize(sequence->data(), Litl::Segment(-sh.l.origin, i64(sh.l.v.size()) - 1 - sh.l.origin));
        case 5:
          return Litl::kernelize(Litl::Sequence<T, Litl::PtrHolder<T>>(sh.l.v.size(), sequence->data()), Index(sh.l.origin));
        default:
          return Litl::LineKernel<T>(values<T>(sh.l), Index(sh.l.origin));
      }
    });
    probe(making == 1 || making == 2 ? "line_default_origin" : making > 2 && making < 6 ? "line_kernelize" : "line_constructor");
  }
  sh.kernel.make(values<T>(sh.l), Index(sh.l.origin));
  const auto flat = makeImage<TIn>({s.in("total", 12, 900)}, u64(s.param("seed")));
  sh.model = flat.v;
  sh.in.make(std::size_t(flat.v.size()));
  for (std::size_t i = 0; i < flat.v.size(); ++i) {
    (*sh.in)[i] = Num<TIn>::make(flat.v[i]);
  }
  Pos shape = shapeParam(s, "shape", 2, 9);
  if (s.in("wide", 0, 9) == 9) {
    shape[0] += 130 * s.in("shape", 1, 2); // Wider than what small pixel types represent
  }
  sh.image = makeImage<TIn>(shape, u64(s.param("seed")));
  sh.raster.make(position<2>(sh.image.shape));
  fill<TIn>(*sh.raster, sh.image);
  sh.otherImage = makeImage<TIn>({s.in("shape", 1, 9, 1), s.in("total", 1, 9)}, u64(s.param("seed")) + 1);
  sh.other.make(position<2>(sh.otherImage.shape));
  fill<TIn>(*sh.other, sh.otherImage);
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    W w {s, c, sh};
    for (std::size_t i = 0; i < s.clients[std::size_t(c)].size(); ++i) {
      w.run(s.clients[std::size_t(c)][i], int(i));
    }
  });
  compare<TIn>(*sh.raster, sh.image, "input-changed", "the input raster");
  check(sh.kernel->backward() == sh.l.origin && sh.kernel->forward() == i64(sh.l.v.size()) - 1 - sh.l.origin, "window",
        "a kernel of size %zu and origin %ld goes %ld backward and %ld forward", sh.l.v.size(), sh.l.origin, i64(sh.kernel->backward()), i64(sh.kernel->forward()));
  for (std::size_t i = 0; i < sh.model.size(); ++i) {
    check(Num<TIn>::same((*sh.in)[i], sh.model[i]), "input-changed", "the input line was changed");
  }
  const auto w = sh.line->window();
  const i64 taps = i64(sh.l.v.size());
  check(w.front() == -sh.l.origin && w.back() == taps - 1 - sh.l.origin && i64(w.size()) == taps, "window",
        "the window of a line kernel of size %ld and origin %ld is from %ld to %ld", taps, sh.l.origin, i64(w.front()), i64(w.back()));
  for (std::size_t i = 0; i < sh.l.v.size(); ++i) {
    check(Num<T>::same(sh.line->data()[i], sh.l.v[i]) && Num<T>::same(sh.kernel->data()[i], sh.l.v[i]), "kernel-changed", "the kernel was changed");
  }
  sh.line.reset();
  sh.kernel.reset();
  sh.in.reset();
  sh.raster.reset();
  sh.other.reset();
  checkNoLeak("line correlation");
}

// ---------------------------------------------------------------- Dispatch

constexpr int KernelKinds = 8, SeparableKinds = 14;
bool kernels1(const Scenario& s, int k);
bool kernels2(const Scenario& s, int k);
bool separables1(const Scenario& s, int k);
bool separables2(const Scenario& s, int k);
bool separables3(const Scenario& s, int k);
bool separables4(const Scenario& s, int k);

#if SIM_PART == 1
bool kernels1(const Scenario& s, int k) {
  switch (k) {
    case 0:
      return goKernel<int, int, 2>(s), true; // INST
    case 1:
      return goKernel<float, unsigned char, 3>(s), true; // INST
    case 2:
      return goKernel<double, double, 1>(s), true; // INST
    case 3:
      return goKernel<std::int64_t, int, 4>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 2
bool kernels2(const Scenario& s, int k) {
  switch (k) {
    case 4:
      return goKernel<std::complex<double>, std::complex<double>, 2>(s), true; // INST
    case 5:
      return goKernel<int, std::int16_t, 2, Litl::PtrHolder<std::int16_t>>(s), true; // INST
    case 6:
      return goKernel<double, int, 3>(s), true; // INST
    case 7:
      return goKernel<float, float, 2>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 3
bool separables1(const Scenario& s, int k) {
  switch (k) {
    case 0:
      return goSeparable<int, int, 2, 0, 1>(s), true; // INST
    case 1:
      return goSeparable<double, unsigned char, 2, 1, 0>(s), true; // INST
    case 2:
      return goSeparable<int, int, 2, 1>(s), true; // INST
    case 3:
      return goSeparable<int, int, 1, 0>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 4
bool separables2(const Scenario& s, int k) {
  switch (k) {
    case 4:
      return goSeparable<float, std::int16_t, 3, 2, 0, 1>(s), true; // INST
    case 5:
      return goSeparable<std::int64_t, int, 3, 1, 2>(s), true; // INST
    case 6:
      return goSeparable<std::int64_t, std::int64_t, 4, 3, 0>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 5
bool separables3(const Scenario& s, int k) {
  switch (k) {
    case 7:
      return goLine<int, int, int>(s), true; // INST
    case 8:
      return goLine<float, unsigned char, double>(s), true; // INST
    case 9:
      return goLine<int, signed char, std::int16_t>(s), true; // INST
    case 10:
      return goLine<double, float, double>(s), true; // INST
  }
  return false;
}
#elif SIM_PART == 6
/// Several kernels along an axis
bool separables4(const Scenario& s, int k) {
  switch (k) {
    case 11:
      return goSeparable<int, int, 2, 0, 0>(s), true; // INST
    case 12:
      return goSeparable<double, unsigned char, 2, 1, 0, 1>(s), true; // INST
    case 13:
      return goSeparable<std::int64_t, int, 1, 0, 0, 0>(s), true; // INST
  }
  return false;
}
#else

void executeKernel(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, KernelKinds - 1));
  kernels1(s, k) || kernels2(s, k);
}

void executeSeparable(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, SeparableKinds - 1));
  separables1(s, k) || separables2(s, k) || separables3(s, k) || separables4(s, k);
}

void common(Scenario& s, Rng& r) {
  s.set("seed", {r.range(0, 1000)});
  std::vector<i64> shape, kernel, origin, line;
  const bool thin = r.chance(1, 3), large = r.chance(1, 16);
  maybeLong(s, r, 16);
  for (int i = 0; i < 4; ++i) {
    shape.push_back(thin ? r.range(1, 3) : r.range(1, 9));
    kernel.push_back(r.range(1, large ? 12 : 5));
    origin.push_back(r.chance(1, 4) ? r.range(-3, 7) : r.range(0, kernel.back() - 1));
    line.push_back(r.range(large ? 1 : 0, large ? 40 : 5));
  }
  s.set("shape", shape);
  s.set("kernel", kernel);
  s.set("origin", origin);
  s.set("line", line);
  s.set("how", {r.range(0, 5)});
  s.set("second", {r.chance(1, 4)});
}

void generateKernel(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KernelKinds - 1)});
  common(s, r);
  s.set("how", {r.range(0, 3)});
  s.set("big", {r.chance(1, 4)});
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(1, tier ? 6 : 3));
    for (int i = 0; i < len; ++i) {
      s.op(std::size_t(c), r.chance(1, 8) ? "look" : "correlate", {r.range(0, 2), r.range(0, 2), r.range(0, 1)});
      if (r.chance(1, 4)) {
        s.fault("alloc", {c, i, r.range(1, 6), r.range(1, 2)});
      }
    }
  }
}

void generateSeparable(Scenario& s, Rng& r, int tier) {
  const i64 kind = r.range(0, SeparableKinds - 1);
  s.set("kind", {kind});
  common(s, r);
  s.set("sign", {r.range(0, 1)});
  s.set("total", {r.range(12, r.chance(1, 10) ? 900 : 40)});
  s.set("wide", {r.range(0, 9)});
  s.set("making", {r.range(0, 6)});
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(1, tier ? 6 : 3));
    for (int i = 0; i < len; ++i) {
      if (kind < 7 || kind > 10) {
        s.op(std::size_t(c), r.chance(1, 8) ? "properties" : r.chance(1, 2) ? "star" : r.chance(1, 2) ? "to" : "compose", {r.range(0, 1)});
      } else if (r.chance(1, 3)) {
        s.op(std::size_t(c), "along", {r.range(0, 1), 0, 0, 0, 0, 0, 0, 0, 0, r.range(0, 2)});
      } else if (r.chance(1, 2)) {
        s.op(std::size_t(c), "2d", {r.range(1, 3), r.range(0, 8), r.range(0, 8), r.range(1, 3), r.range(0, 8), r.range(0, 8), r.range(0, 2), 0, 0, r.range(0, 2)});
      } else {
        s.op(std::size_t(c), "samples", {r.range(1, 3), r.range(0, 4), r.chance(1, 2) ? r.range(1, 40) : r.range(1, 900), r.range(1, 4), r.chance(1, 2) ? 0 : r.range(0, 20), r.chance(1, 2) ? r.range(0, 40) : r.range(0, 900), r.range(0, 1), r.range(1, 3), r.range(1, 3),
                                         r.range(0, 3), r.range(0, 1)});
      }
      if (r.chance(1, 4)) {
        s.fault("alloc", {c, i, r.range(1, 8), r.range(1, 2)});
      }
    }
  }
}

Register reg14("C14", generateKernel, executeKernel);
Register reg15("C15", generateSeparable, executeSeparable);
#endif

} // namespace simkernel
