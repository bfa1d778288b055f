// SIM_PARTS 7
// C18: views of rasters of any dimension, holder and type; threads writing through disjoint regions.
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace simviews {

using Pos = std::vector<i64>;
using Litl::Index;

template <Index N>
Litl::Position<N> position(const Pos& p) {
  Litl::Position<N> out = Litl::Position<N>(Index(p.size()));
  for (std::size_t i = 0; i < p.size(); ++i) {
    out[i] = p[i];
  }
  return out;
}

inline std::vector<Pos> positions(const Pos& front, const Pos& back) {
  std::vector<Pos> out;
  Pos p = front;
  while (true) {
    out.push_back(p);
    std::size_t i = 0;
    for (; i < p.size(); ++i) {
      if (++p[i] <= back[i]) {
        break;
      }
      p[i] = front[i];
    }
    if (i == p.size()) {
      return out;
    }
  }
}

/// What is common to the clients
template <typename T>
struct Common {
  Pos shape;
  int axis; ///< Along which the raster is shared out
  std::vector<i64> cuts; ///< Slab of client c: [cuts[c], cuts[c + 1]); the last slab is read-only
  std::vector<T> model;

  std::size_t index(const Pos& p) const {
    std::size_t out = 0;
    for (std::size_t i = p.size(); i-- > 0;) {
      out = out * std::size_t(shape[i]) + std::size_t(p[i]);
    }
    return out;
  }
  /// -1: shared
  int owner(const Pos& p) const {
    for (std::size_t c = 0; c + 2 < cuts.size(); ++c) {
      if (p[std::size_t(axis)] < cuts[c + 1]) {
        return int(c);
      }
    }
    return -1;
  }
};

template <typename R>
struct IsMutable {
  static constexpr bool value =
      !std::is_const<R>::value && !std::is_const<std::remove_pointer_t<decltype(std::declval<R&>().begin())>>::value;
};

template <typename T, typename R>
struct Client {
  const Scenario& s;
  int client;
  Common<T>& common;
  R& raster;
  const Op* op;
  std::size_t cursor;
  i64 counter = 0;

  Client(const Scenario& sc, int c, Common<T>& co, R& r) : s(sc), client(c), common(co), raster(r) {}

  i64 next(i64 lo, i64 hi) {
    return op->in(cursor++, lo, hi);
  }
  T fresh() {
    ++counter;
    return val<T>(client * 40 + counter % 40 + 1);
  }

  /// Position in the raster of a position in a view
  static Pos map(const Pos& base, const Pos& p) {
    Pos out = base;
    for (std::size_t i = 0; i < p.size(); ++i) {
      out[i] += p[i];
    }
    return out;
  }

  /// 2: can be written, 1: can be read, 0: none
  int rights(const std::vector<Pos>& region) {
    int out = 2;
    for (auto& p : region) {
      const int o = common.owner(p);
      out = std::min(out, o == client ? 2 : o == -1 ? 1 : 0);
    }
    return out;
  }

  template <typename V>
  static Pos shapeOf(const V& view) {
    Pos out;
    Lib lib;
    const auto& shape = view.shape();
    for (std::size_t i = 0; i < shape.size(); ++i) {
      out.push_back(shape[i]);
    }
    return out;
  }

  /// Positions, in the raster, of the pixels of a view
  static std::vector<Pos> regionOf(const Pos& base, const Pos& shape) {
    Pos back = base;
    for (std::size_t i = 0; i < shape.size(); ++i) {
      back[i] += shape[i] - 1;
    }
    return positions(base, back);
  }

  void checkValue(const T& got, const Pos& p, const char* how) {
    const T want = common.model[common.index(p)];
    if (!(got == want)) {
      fail("wrong-pixel", "the pixel at %s, seen %s, is not the last one written there", vec(p).c_str(), how);
    }
  }

  template <Index N, typename V>
  void readView(V& view, const Pos& base, const Pos& shape, int mode) {
    const auto all = regionOf(base, shape);
    const auto local = positions(Pos(shape.size(), 0), [&] {
      Pos b = shape;
      for (auto& e : b) {
        --e;
      }
      return b;
    }());
    std::vector<T> got;
    {
      Lib lib;
      if (mode == 0) {
        for (auto& p : local) {
          got.push_back(const_cast<const V&>(view)[position<N>(p)]);
        }
      } else {
        for (const auto& e : view) {
          got.push_back(e);
        }
      }
    }
    check(got.size() == all.size(), "view-size", "a view of %zu pixels gives %zu", all.size(), got.size());
    for (std::size_t i = 0; i < all.size(); ++i) {
      checkValue(got[i], all[i], mode == 0 ? "by position in a view" : "in the iteration over a view");
    }
    probe("read_view");
  }

  template <Index N, typename V>
  std::enable_if_t<IsMutable<V>::value> writeView(V& view, const Pos& base, const Pos& shape, int mode) {
    const auto all = regionOf(base, shape);
    Pos zero(shape.size(), 0), back = shape;
    for (auto& e : back) {
      --e;
    }
    const auto local = positions(zero, back);
    if (mode == 0) {
      for (std::size_t i = 0; i < all.size(); ++i) {
        const T v = fresh();
        {
          Lib lib;
          view[position<N>(local[i])] = v;
        }
        common.model[common.index(all[i])] = v;
      }
    } else {
      std::vector<T> values;
      for (auto& p : all) {
        values.push_back(fresh());
        common.model[common.index(p)] = values.back();
      }
      Lib lib;
      std::size_t i = 0;
      for (auto& e : view) {
        e = values[std::min(i++, values.size() - 1)];
      }
    }
    probe("write_view");
  }
  template <Index N, typename V>
  std::enable_if_t<!IsMutable<V>::value> writeView(V&, const Pos&, const Pos&, int) {}

  template <typename V>
  std::enable_if_t<IsMutable<V>::value> writeContiguous(V& view, const Pos& base, const Pos& shape, int mode) {
    const auto all = regionOf(base, shape);
    T v = fresh();
    if (mode == 2) {
      Lib lib;
      view.fill(v);
    } else {
      std::size_t i = 0;
      Lib lib;
      view.generate([&] {
        Pause p;
        ++i;
        return val<T>(i64(i));
      });
    }
    std::size_t i = 0;
    for (auto& p : all) {
      common.model[common.index(p)] = mode == 2 ? v : val<T>(i64(++i));
    }
    probe("write_contiguous");
  }
  template <typename V>
  std::enable_if_t<!IsMutable<V>::value> writeContiguous(V&, const Pos&, const Pos&, int) {}

  /// The raster gives back what was written through the views, in the client's own part
  void verify() {
    const Pos zero(common.shape.size(), 0);
    Pos back = common.shape;
    for (auto& e : back) {
      --e;
    }
    for (auto& p : positions(zero, back)) {
      const int o = common.owner(p);
      if (o == client || o == -1) {
        const T got = const_cast<const R&>(raster).data()[common.index(p)];
        checkValue(got, p, "in the raster");
      }
    }
  }

  /// The pixels of a contiguous view (a raster)
  template <Index N, typename V>
  void touch(V& view, const Pos& base) {
    const auto shape = shapeOf(view);
    const auto region = regionOf(base, shape);
    const int can = rights(region);
    std::size_t size;
    bool contains, outside;
    {
      Lib lib;
      size = view.size();
      auto p = position<N>(shape);
      outside = !view.contains(p);
      for (auto& e : p) {
        e = 0;
      }
      contains = view.contains(p);
      p[0] = -1;
      outside &= !view.contains(p);
    }
    check(size == region.size(), "view-size", "a view of shape %s has size %zu", vec(shape).c_str(), size);
    check(contains && outside, "contains", "contains() is wrong for shape %s", vec(shape).c_str());
    const int mode = int(next(0, 5));
    if (can == 2 && mode < 4 && IsMutable<V>::value) {
      if (mode < 2) {
        writeView<N>(view, base, shape, mode);
      } else {
        writeContiguous(view, base, shape, mode);
      }
      verify();
    }
    if (can) {
      readView<N>(view, base, shape, mode % 2);
      elements<N>(view, base, shape, int(next(0, 7)));
    }
    domain<N>(view, shape);
  }

  /// Other ways to reach one pixel
  template <Index N, typename V>
  void elements(V& view, const Pos& base, const Pos& shape, int mode) {
    const auto all = regionOf(base, shape);
    const auto i = std::size_t(next(0, i64(all.size()) - 1));
    Pos local = all[i], negative, beyond;
    for (std::size_t j = 0; j < shape.size(); ++j) {
      local[j] -= base[j];
      negative.push_back(mode >> (j % 2) & 1 ? local[j] : local[j] - shape[j]);
    }
    beyond = negative;
    const auto axis = std::size_t(next(0, i64(shape.size()) - 1));
    beyond[axis] = next(0, 1) ? shape[axis] : -shape[axis] - 1;
    if (mode < 4) {
      std::string msg;
      T got;
      auto r = guarded(
          [&] {
            got = mode < 2 ? const_cast<const V&>(view).at(position<N>(negative)) : view.at(position<N>(negative));
          },
          &msg);
      check(r == Res::Ok, "at", "at(%s) threw %s in a view of shape %s", vec(negative).c_str(), msg.c_str(), vec(shape).c_str());
      checkValue(got, all[i], "with at()");
      r = guarded([&] {
        got = const_cast<const V&>(view).at(position<N>(beyond));
      });
      check(r == Res::Error, "at", "at(%s) does not throw in a view of shape %s", vec(beyond).c_str(), vec(shape).c_str());
      probe("at");
      return;
    }
    T front, back, index, data;
    bool end;
    {
      Lib lib;
      const auto& c = const_cast<const V&>(view);
      front = mode == 4 ? view.front() : c.front();
      back = mode == 4 ? view.back() : c.back();
      index = mode == 5 ? view[i] : c[i];
      data = *(c.data() + i);
      end = c.end() - c.begin() == std::ptrdiff_t(all.size()) && view.end() - view.begin() == std::ptrdiff_t(all.size());
    }
    checkValue(front, all.front(), "as front()");
    checkValue(back, all.back(), "as back()");
    checkValue(index, all[i], "by index");
    checkValue(data, all[i], "in the data");
    check(end, "view-size", "the range of a view of shape %s has a wrong size", vec(shape).c_str());
    probe("elements");
  }

  template <Index N, typename V>
  void domain(V& view, const Pos& shape) {
    Pos f, b;
    Index size, dim;
    bool ok = true;
    {
      Lib lib;
      const auto d = view.domain();
      for (std::size_t i = 0; i < d.front().size(); ++i) {
        f.push_back(d.front()[i]);
      }
      for (std::size_t i = 0; i < d.back().size(); ++i) {
        b.push_back(d.back()[i] + 1);
      }
      size = d.size();
      dim = view.dimension();
      Index i = 0;
      for (const auto& p : d) { // Storage order
        ok &= view.index(p) == i++;
      }
      ok &= i == size;
      for (Index j = 0; j < dim; ++j) {
        ok &= view.length(j) == shape[std::size_t(j)];
      }
    }
    check(f == Pos(shape.size(), 0) && b == shape && dim == i64(shape.size()), "domain", "the domain of a raster of shape %s is wrong",
          vec(shape).c_str());
    check(ok && size == Index(view.size()), "index", "the indices of the positions of shape %s are not in order", vec(shape).c_str());
  }

  /// A random region within the own part of the client, or the readable one, or anywhere
  void region(const Pos& base, const Pos& shape, Pos& front, Pos& back, bool mine) {
    front.clear();
    back.clear();
    for (std::size_t i = 0; i < shape.size(); ++i) {
      i64 lo = 0, hi = shape[i] - 1;
      if (mine && i == std::size_t(common.axis)) {
        const i64 l = common.cuts[std::size_t(client)] - base[i], h = common.cuts[std::size_t(client) + 1] - 1 - base[i];
        if (std::max(l, lo) <= std::min(h, hi)) {
          lo = std::max(l, lo);
          hi = std::min(h, hi);
        }
      }
      const i64 f = next(lo, hi);
      front.push_back(f);
      back.push_back(next(f, hi));
    }
  }

  template <Index N, typename V>
  void subraster(V& view, const Pos& base) {
    const auto shape = shapeOf(view);
    Pos front, back;
    region(base, shape, front, back, next(0, 3) > 0);
    Lib lib;
    auto&& sub = view.subraster({position<N>(front), position<N>(back)});
    Pause p;
    Pos size = back;
    for (std::size_t i = 0; i < size.size(); ++i) {
      size[i] += 1 - front[i];
    }
    check(shapeOf(sub) == size, "view-shape", "the subraster %s-%s has a wrong shape", vec(front).c_str(), vec(back).c_str());
    const Pos origin = map(base, front);
    const auto all = regionOf(origin, size);
    const auto& constant = sub;
    check(&sub.raster() == &view && &constant.raster() == &view, "view-parent", "the parent of a subraster is not the raster it comes from");
    check(constant.region().front() == position<N>(front) && constant.region().back() == position<N>(back), "view-region", "the region of a subraster is not the requested one");
    check(sub.size() == all.size(), "view-size", "a subraster of %zu pixels has size %zu", all.size(), sub.size());
    const int can = rights(all), mode = int(next(0, 3));
    if (can == 2 && mode < 3 && IsMutable<V>::value) {
      writeSub<N, V>(sub, origin, size, mode % 2);
      verify();
    }
    if (can) {
      readView<N>(sub, origin, size, mode % 2);
    }
    probe("subraster");
  }
  template <Index N, typename V, typename S>
  std::enable_if_t<IsMutable<V>::value> writeSub(S& sub, const Pos& base, const Pos& shape, int mode) {
    writeSubView<N>(sub, base, shape, mode);
  }
  template <Index N, typename V, typename S>
  std::enable_if_t<!IsMutable<V>::value> writeSub(S&, const Pos&, const Pos&, int) {}
  template <Index N, typename S>
  void writeSubView(S& sub, const Pos& base, const Pos& shape, int mode) {
    const auto all = regionOf(base, shape);
    Pos zero(shape.size(), 0), back = shape;
    for (auto& e : back) {
      --e;
    }
    const auto local = positions(zero, back);
    std::vector<T> values;
    for (auto& p : all) {
      values.push_back(fresh());
      common.model[common.index(p)] = values.back();
    }
    Lib lib;
    if (mode == 0) {
      for (std::size_t i = 0; i < all.size(); ++i) {
        sub[position<N>(local[i])] = values[i];
      }
    } else {
      std::size_t i = 0;
      for (auto& e : sub) {
        e = values[std::min(i++, values.size() - 1)];
      }
    }
    probe("write_subraster");
  }

  template <Index N, typename V>
  std::enable_if_t<N != 1> sectionAt(V& view, const Pos& base, int depth) {
    const auto shape = shapeOf(view);
    if (shape.size() < 2) {
      return touch<N>(view, base);
    }
    const i64 i = ownIndex(base, shape);
    Lib lib;
    auto&& v = view.section(i);
    Pause p;
    Pos b = base;
    b[shape.size() - 1] += i;
    Pos want(shape.begin(), shape.end() - 1);
    check(shapeOf(v) == want, "view-shape", "section %ld of shape %s has shape %s", i, vec(shape).c_str(), vec(shapeOf(v)).c_str());
    probe("section_at");
    use < N == -1 ? -1 : N - 1 > (v, b, depth + 1);
  }
  template <Index N, typename V>
  std::enable_if_t<N == 1> sectionAt(V& view, const Pos& base, int) {
    touch<N>(view, base);
  }

  i64 ownIndex(const Pos& base, const Pos& shape) {
    const std::size_t a = shape.size() - 1;
    i64 lo = 0, hi = shape[a] - 1;
    if (i64(a) == common.axis && next(0, 3)) {
      const i64 l = common.cuts[std::size_t(client)] - base[a], h = common.cuts[std::size_t(client) + 1] - 1 - base[a];
      if (std::max(l, lo) <= std::min(h, hi)) {
        lo = std::max(l, lo);
        hi = std::min(h, hi);
      }
    }
    return next(lo, hi);
  }

  template <Index N, typename V>
  void sectionOf(V& view, const Pos& base, int depth) {
    const auto shape = shapeOf(view);
    const i64 f = ownIndex(base, shape), b = next(f, shape.back() - 1);
    Lib lib;
    auto&& v = view.section(f, b);
    Pause p;
    Pos o = base, want = shape;
    o[shape.size() - 1] += f;
    want.back() = b - f + 1;
    check(shapeOf(v) == want, "view-shape", "section (%ld, %ld) of shape %s has shape %s", f, b, vec(shape).c_str(), vec(shapeOf(v)).c_str());
    probe("section");
    use<N>(v, o, depth + 1);
  }

  template <Index N, Index M, typename V>
  void sliceOf(V& view, const Pos& base, int depth) {
    const auto shape = shapeOf(view);
    if (i64(shape.size()) < M) {
      return touch<N>(view, base);
    }
    Pos front, back;
    region(base, shape, front, back, next(0, 3) > 0);
    const bool want = next(0, 3) > 0; // Contiguous
    if (want) {
      for (std::size_t i = 0; i < shape.size(); ++i) {
        if (i64(i) < M - 1) {
          front[i] = 0;
          back[i] = shape[i] - 1;
        } else if (i64(i) >= M) {
          back[i] = front[i];
        }
      }
    }
    bool contiguous = true; // As defined: the first axes in full, then a range, then single indices
    for (std::size_t i = 0; i < shape.size(); ++i) {
      contiguous &= i64(i) < M - 1 ? front[i] == 0 && back[i] == shape[i] - 1 : i64(i) < M || front[i] == back[i];
    }
    bool threw = false, said;
    {
      Lib lib;
      const Litl::Box<N> box(position<N>(front), position<N>(back));
      said = view.template isContiguous<M>(box);
    }
    check(said == contiguous, "contiguous", "isContiguous() is %d for %s-%s in %s", said, vec(front).c_str(), vec(back).c_str(), vec(shape).c_str());
    try {
      Lib lib;
      const Litl::Box<N> box(position<N>(front), position<N>(back));
      auto&& v = view.template slice<M>(box);
      Pause p;
      check(contiguous, "contiguous", "a region which is not contiguous, %s-%s in %s, was sliced", vec(front).c_str(), vec(back).c_str(),
            vec(shape).c_str());
      Pos size;
      for (std::size_t i = 0; i < std::size_t(M); ++i) {
        size.push_back(back[i] - front[i] + 1);
      }
      check(shapeOf(v) == size, "view-shape", "the slice %s-%s has shape %s", vec(front).c_str(), vec(back).c_str(), vec(shapeOf(v)).c_str());
      probe("slice");
      use<M>(v, map(base, front), depth + 1);
    } catch (const Litl::Exception&) {
      threw = true;
      probe("slice_rejected");
    }
    check(threw != contiguous, "contiguous", "slice() threw for the contiguous region %s-%s", vec(front).c_str(), vec(back).c_str());
  }

  template <Index N, typename V>
  void atOf(V& view, const Pos& base) {
    const auto shape = shapeOf(view);
    Pos p, q;
    bool inside = true;
    for (auto e : shape) {
      p.push_back(next(-e - 1, e));
      inside &= p.back() >= -e && p.back() < e;
      q.push_back(p.back() < 0 ? p.back() + e : p.back());
    }
    if (inside && !rights({map(base, q)})) {
      return;
    }
    T got = T();
    bool threw = false;
    try {
      Lib lib;
      got = const_cast<const V&>(view).at(position<N>(p));
    } catch (const Litl::OutOfBoundsError&) {
      threw = true;
    }
    check(threw == !inside, "bounds", "at(%s) in shape %s %s", vec(p).c_str(), vec(shape).c_str(), threw ? "threw" : "returned");
    if (inside) {
      checkValue(got, map(base, q), "with at()");
      probe("at");
    } else {
      probe("at_out_of_bounds");
    }
  }

  template <Index N, typename V>
  void use(V& view, const Pos& base, int depth) {
    const i64 how = depth > 2 ? next(0, 2) : next(0, 9);
    switch (how) {
      case 0:
        return touch<N>(view, base);
      case 1:
        return subraster<N>(view, base);
      case 2:
        return atOf<N>(view, base);
      case 3:
      case 4:
        return deeper<N>(view, base, depth, 0, std::integral_constant<bool, true>());
      case 5:
      case 6:
        return deeper<N>(view, base, depth, 1, std::integral_constant<bool, true>());
      default:
        return deeper<N>(view, base, depth, int(how) - 5, std::integral_constant<bool, true>());
    }
  }
  template <Index N, typename V>
  void deeper(V& view, const Pos& base, int depth, int how, std::true_type) {
    switch (how) {
      case 0:
        return sectionOf<N>(view, base, depth);
      case 1:
        return sectionAt<N>(view, base, depth);
      case 2:
        return sliceOf<N, 1>(view, base, depth);
      case 3:
        return sliceOf < N, N == 1 ? 1 : 2 > (view, base, depth);
      default:
        return sliceOf < N, (N == 1 || N == 2) ? 1 : 3 > (view, base, depth);
    }
  }

  void run(const Op& o) {
    op = &o;
    cursor = 1;
    trace("%s", o.name.c_str());
    const Pos zero(common.shape.size(), 0);
    if (o.name == "const") {
      const R& r = raster;
      use<R::Dimension>(r, zero, 0);
    } else if (o.name == "view") {
      use<R::Dimension>(raster, zero, 0);
    } else if (o.name == "direct") {
      touch<R::Dimension>(raster, zero);
    } else if (o.name == "write" && rights({ownPosition()}) == 2) {
      cursor = 1;
      const Pos p = ownPosition();
      const T v = fresh();
      T got;
      {
        Lib lib;
        raster[position<R::Dimension>(p)] = v;
        got = const_cast<const R&>(raster)[raster.index(position<R::Dimension>(p))];
      }
      common.model[common.index(p)] = v;
      checkValue(got, p, "by index");
      probe("write_pixel");
    }
    verify();
  }
  Pos ownPosition() {
    Pos p;
    for (std::size_t i = 0; i < common.shape.size(); ++i) {
      const bool own = i == std::size_t(common.axis);
      p.push_back(own ? next(common.cuts[std::size_t(client)], std::max(common.cuts[std::size_t(client)], common.cuts[std::size_t(client) + 1] - 1)) :
                        next(0, common.shape[i] - 1));
    }
    return p;
  }
};

// Rasters

template <typename T, Index N, typename THolder>
struct Maker {
  using R = Litl::Raster<T, N, THolder>;
  static void make(Obj<R>& r, const Pos& shape, T*, int) {
    r.makeBy([&] {
      return R(position<N>(shape));
    });
  }
};
template <typename T, Index N>
struct Maker<T, N, Litl::PtrHolder<T>> {
  using R = Litl::PtrRaster<T, N>;
  static void make(Obj<R>& r, const Pos& shape, T* data, int) {
    r.makeBy([&] {
      return R(position<N>(shape), data);
    });
  }
};
template <typename T, Index N>
struct Maker<T, N, Litl::AlignedBuffer<T>> {
  using R = Litl::AlignedRaster<T, N>;
  static void make(Obj<R>& r, const Pos& shape, T* data, int own) {
    r.makeBy([&] {
      return own ? R(position<N>(shape), nullptr, 64) : R(position<N>(shape), data, 1);
    });
  }
};

template <typename T, Index N, typename THolder>
void go(const Scenario& s, int dim, i64 capacity = 0) {
  using R = Litl::Raster<T, N, THolder>;
  Common<T> common;
  const int n = int(std::min<std::size_t>(s.clients.size(), 3));
  std::size_t size = 1;
  for (int i = 0; i < dim; ++i) {
    common.shape.push_back(s.in("shape", 1, dim > 3 ? 3 : dim > 2 ? 4 : 8, std::size_t(i)));
  }
  const i64 extra = s.in("long", 0, 400, 1);
  if (extra && !capacity) { // One long axis
    for (auto& e : common.shape) {
      e = 1 + (e - 1) % 3;
    }
    common.shape[std::size_t(s.in("long", 0, dim - 1, 0))] += dim > 2 ? extra / 4 : extra;
  }
  if (capacity) { // Fixed size
    static const i64 f[] = {1, 2, 3, 4, 6, 8, 12, 24};
    i64 left = 24;
    for (int i = 0; i + 1 < dim; ++i) {
      i64 d = f[s.in("shape", 0, 7, std::size_t(i))];
      while (left % d) {
        --d;
      }
      common.shape[std::size_t(i)] = d;
      left /= d;
    }
    common.shape.back() = left;
  }
  for (auto e : common.shape) {
    size *= std::size_t(e);
  }
  common.axis = int(s.in("axis", 0, dim - 1));
  const i64 len = common.shape[std::size_t(common.axis)];
  common.cuts.push_back(0);
  for (int c = 0; c < n; ++c) {
    common.cuts.push_back(s.in("cut", common.cuts.back(), len, std::size_t(c)));
    if (n == 1) {
      common.cuts.back() = s.param("cut") % 3 ? len : common.cuts.back();
    }
  }
  common.cuts.push_back(len);
  T* user = (T*)userAlloc(size * sizeof(T), 64);
  Obj<R> raster;
  Maker<T, N, THolder>::make(raster, common.shape, user, int(s.in("own", 0, 1)));
  for (std::size_t i = 0; i < size; ++i) {
    common.model.push_back(val<T>(i64(i % 100)));
    raster->data()[i] = common.model.back();
  }
  // Who waits for whom is up to the scheduler; the model of each part is only touched by its owner
  runClients(n, [&](int c) {
    Client<T, R> client(s, c, common, *raster);
    int i = 0;
    for (auto& op : s.clients[std::size_t(c)]) {
      opBegin(s, c, i++);
      client.run(op);
      opEnd();
    }
  });
  for (std::size_t i = 0; i < size; ++i) {
    check(raster->data()[i] == common.model[i], "wrong-pixel", "pixel %zu is not the last one written there", i);
  }
  mixBytes(raster->data(), size * sizeof(T));
  raster.reset();
  userFree(user);
  checkNoLeak("the views");
}

constexpr int KindCount = 21;
using Litl::AlignedBuffer;
using Litl::PtrHolder;
using Litl::StdHolder;
template <typename T>
using Vec = StdHolder<std::vector<T>>;

#define PARTS bool part1(const Scenario&, int, int); \
  bool part2(const Scenario&, int, int); \
  bool part3(const Scenario&, int, int); \
  bool part4(const Scenario&, int, int); \
  bool part5(const Scenario&, int, int); \
  bool part6(const Scenario&, int, int);
PARTS

#if SIM_PART == 1
bool part1(const Scenario& s, int k, int) {
  switch (k) {
    case 0:
      return go<int, 1, Vec<int>>(s, 1), true; // INST
    case 1:
      return go<int, 2, Vec<int>>(s, 2), true; // INST
    case 2:
      return go<int, 3, Vec<int>>(s, 3), true; // INST
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int k, int dim) {
  switch (k) {
    case 3:
      return go<int, 4, Vec<int>>(s, 4), true; // INST
    case 4:
      return go<int, -1, Vec<int>>(s, dim), true; // INST
    case 5:
      return go<unsigned char, 2, Vec<unsigned char>>(s, 2), true; // INST
  }
  return false;
}
#elif SIM_PART == 3
bool part3(const Scenario& s, int k, int dim) {
  switch (k) {
    case 6:
      return go<unsigned char, 3, Vec<unsigned char>>(s, 3), true; // INST
    case 7:
      return go<std::complex<float>, 2, Vec<std::complex<float>>>(s, 2), true; // INST
    case 8:
      return go<double, -1, AlignedBuffer<double>>(s, dim), true; // INST
  }
  return false;
}
#elif SIM_PART == 4
bool part4(const Scenario& s, int k, int) {
  switch (k) {
    case 9:
      return go<int, 2, AlignedBuffer<int>>(s, 2), true; // INST
    case 10:
      return go<double, 3, AlignedBuffer<double>>(s, 3), true; // INST
    case 11:
      return go<float, 3, PtrHolder<float>>(s, 3), true; // INST
  }
  return false;
}
#elif SIM_PART == 5
bool part5(const Scenario& s, int k, int dim) {
  switch (k) {
    case 12:
      return go<unsigned char, 2, PtrHolder<unsigned char>>(s, 2), true; // INST
    case 13:
      return go<float, -1, PtrHolder<float>>(s, dim), true; // INST
    case 14:
      return go<int, 2, StdHolder<std::valarray<int>>>(s, 2), true; // INST
  }
  return false;
}
#elif SIM_PART == 6
bool part6(const Scenario& s, int k, int) {
  switch (k) {
    case 15:
      return go<int, 2, StdHolder<std::array<int, 24>>>(s, 2, 24), true; // INST
    case 16:
      return go<std::int16_t, 3, StdHolder<std::array<std::int16_t, 24>>>(s, 3, 24), true; // INST
    case 17:
      return go<std::int64_t, 3, StdHolder<std::valarray<std::int64_t>>>(s, 3), true; // INST
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int k = int(s.in("kind", 0, KindCount - 1)), dim = int(s.in("dim", 1, 4));
  if (part1(s, k, dim) || part2(s, k, dim) || part3(s, k, dim) || part4(s, k, dim) || part5(s, k, dim) || part6(s, k, dim)) {
    return;
  }
  switch (k) {
    case 18:
      return go<std::complex<float>, -1, Vec<std::complex<float>>>(s, dim); // INST
    case 19:
      return go<std::int16_t, 3, Vec<std::int16_t>>(s, 3); // INST
    default:
      return go<float, 1, Vec<float>>(s, 1); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KindCount - 1)});
  s.set("dim", {r.range(1, 4)});
  s.set("own", {r.range(0, 1)});
  std::vector<i64> shape;
  for (int i = 0; i < 4; ++i) {
    shape.push_back(r.chance(1, 8) ? 1 : r.range(2, 8));
  }
  s.set("shape", shape);
  s.set("axis", {r.range(0, 3)});
  const bool large = r.chance(1, 16);
  if (large) {
    s.set("long", {r.range(0, 3), r.range(1, 300)});
  }
  const int n = r.chance(2, 3) ? int(r.range(2, 3)) : 1;
  std::vector<i64> cuts;
  for (int c = 0; c < n; ++c) {
    cuts.push_back((c + 1) * r.range(1, large ? 100 : 3));
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(1, tier ? 12 : 6));
    for (int i = 0; i < len; ++i) {
      std::vector<i64> a = {0};
      for (int j = 0; j < 24; ++j) {
        a.push_back(r.range(0, large && r.chance(1, 2) ? 300 : 11));
      }
      s.op(cc, r.chance(2, 3) ? "view" : r.chance(1, 2) ? "const" : r.chance(1, 2) ? "direct" : "write", a);
    }
  }
  s.set("cut", cuts);
}

Register reg("C18", generate, execute);
#endif

} // namespace simviews
