// SIM_PARTS 3
// C24: histories of operations on boxes, balls, positions and samplings shared by clients, with allocation failures.
#include "LitlRaster/Ball.h"
#include "LitlRaster/Box.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "LitlTypes/Segment.h"

#include "img.h"

using namespace sim;

namespace simregion {

constexpr int Own = 3; ///< Regions of a client
constexpr int Shared = 2; ///< Constant regions of all clients

template <Index N>
inline Pos posOf(const Litl::Position<N>& p) {
  Pos out;
  for (std::size_t i = 0; i < std::size_t(p.size()); ++i) {
    out.push_back(p[i]);
  }
  return out;
}

inline Pos plus(Pos a, const Pos& b, i64 sign = 1) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += sign * b[i];
  }
  return a;
}

/// A box as the harness knows it
struct Region {
  Pos f, b;
  bool operator==(const Region& o) const {
    return f == o.f && b == o.b;
  }
  i64 length(std::size_t i) const {
    return b[i] - f[i] + 1;
  }
  bool proper() const { // Lengths are not negative
    for (std::size_t i = 0; i < f.size(); ++i) {
      if (length(i) < 0) {
        return false;
      }
    }
    return true;
  }
  bool filled() const {
    for (std::size_t i = 0; i < f.size(); ++i) {
      if (length(i) <= 0) {
        return false;
      }
    }
    return true;
  }
  __int128 size() const {
    __int128 n = 1;
    for (std::size_t i = 0; i < f.size(); ++i) {
      n *= length(i);
    }
    return n;
  }
  bool in(const Region& o) const {
    for (std::size_t i = 0; i < f.size(); ++i) {
      if (f[i] < o.f[i] || b[i] > o.b[i]) {
        return false;
      }
    }
    return true;
  }
  bool meets(const Region& o) const {
    for (std::size_t i = 0; i < f.size(); ++i) {
      if (b[i] < o.f[i] || f[i] > o.b[i]) {
        return false;
      }
    }
    return true;
  }
  bool far() const {
    for (std::size_t i = 0; i < f.size(); ++i) {
      for (auto v : {f[i], b[i]}) {
        if (v > (i64(1) << 50) || v < -(i64(1) << 50)) {
          return true;
        }
      }
    }
    return false;
  }
};

inline std::string str(const Region& r) {
  return vec(r.f) + "-" + vec(r.b);
}

/// Run library code; true if done, false if it ran out of memory
template <typename F>
bool lib(const Scenario& s, int client, int index, const char* what, F&& f) {
  opBegin(s, client, index);
  std::string msg;
  const auto r = guarded(f, &msg);
  const int fired = opEnd();
  check(r == Res::Ok || (r == Res::Oom && fired), "exception", "%s threw %s", what, msg.c_str());
  if (r != Res::Ok) {
    probe("oom");
  }
  return r == Res::Ok;
}

template <Index N>
struct BoxWorld {
  using B = Litl::Box<N>;
  using P = Litl::Position<N>;
  const Scenario& s;
  int client;
  std::size_t dim;
  Obj<B> own[Own];
  const Obj<B>* shared;
  Region models[Own + Shared];
  Op op;
  int index = 0;

  BoxWorld(const Scenario& sc, int c, std::size_t d) : s(sc), client(c), dim(d) {}

  const B& at(int i) {
    return i < Own ? *own[i] : *shared[i - Own];
  }
  static Region regionOf(const B& b) {
    return {posOf(b.front()), posOf(b.back())};
  }
  void verify(const char* what) {
    for (int i = 0; i < Own + Shared; ++i) {
      const auto got = regionOf(at(i));
      check(got == models[i], "region", "after %s, box %d is %s, should be %s", what, i, str(got).c_str(), str(models[i]).c_str());
    }
  }
  /// Position in the arguments
  Pos position_(std::size_t from) {
    Pos out;
    for (std::size_t i = 0; i < dim; ++i) {
      out.push_back(op.arg(from + i));
    }
    return out;
  }
  template <typename F>
  bool lib(F&& f) {
    return simregion::lib(s, client, index, op.name.c_str(), f);
  }
  void set(int d, bool done, const Region& want) {
    if (done) {
      models[d] = want;
      probe(op.name.c_str());
    }
    verify(op.name.c_str());
  }

  void run(const Op& o, int i) {
    op = o;
    index = i;
    const auto& k = op.name;
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(1, 0, Own + Shared - 1));
    const int b = int(op.in(2, 0, Own + Shared - 1));
    const i64 v = op.in(3, -1000, 1000);
    const i64 mode = op.in(4, 0, 9);
    const std::size_t axis = std::size_t(op.in(3, 0, i64(dim) - 1));
    const Pos p = position_(5);
    Pos q = position_(9);
    trace("%s: %d <- %d, %d, %ld, mode %ld, %s %s", k.c_str(), d, a, b, v, mode, vec(p).c_str(), vec(q).c_str());
    auto& x = *own[d];
    const auto& y = at(a);
    const auto& z = at(b);
    const P lp = position<N>(p), lq = position<N>(q);
    auto want = models[d];
    const auto& ma = models[a];
    const auto& mb = models[b];
    if (ma.far() || mb.far() || want.far()) {
      if (k != "new") {
        return;
      }
    }
    if (k == "new") {
      create(d, p, q, lp, lq, v, mode);
    } else if (k == "shift") { // By a vector, which may be a bound of the box
      const bool alias = mode % 3 == 1;
      const Pos& by = alias ? mode % 2 ? want.f : want.b : p;
      const P& lby = alias ? mode % 2 ? x.front() : x.back() : lp;
      const i64 sign = mode >= 5 ? -1 : 1;
      const Region w {plus(want.f, by, sign), plus(want.b, by, sign)};
      bool self = false;
      const bool done = lib([&] {
        self = &(sign > 0 ? x += lby : x -= lby) == &x;
      });
      check(!done || self, "return", "the operator does not return the box");
      set(d, done, w);
    } else if (k == "grow") {
      const i64 sign = mode % 2 ? -1 : 1;
      const Region w {plus(want.f, ma.f, sign), plus(want.b, ma.b, sign)};
      bool self = false;
      const bool done = lib([&] {
        self = &(sign > 0 ? x += y : x -= y) == &x;
      });
      check(!done || self, "return", "the operator does not return the box");
      set(d, done, w);
    } else if (k == "add") { // Scalar
      const i64 by = mode % 4 == 2 ? 1 : mode % 4 == 3 ? -1 : mode % 4 == 1 ? -v : v;
      const Pos c(dim, by);
      bool self = false;
      const bool done = lib([&] {
        switch (mode % 4) {
          case 0:
            self = &(x += v) == &x;
            break;
          case 1:
            self = &(x -= v) == &x;
            break;
          case 2:
            self = &++x == &x;
            break;
          default:
            self = &--x == &x;
        }
      });
      check(!done || self, "return", "the operator does not return the box");
      set(d, done, {plus(want.f, c), plus(want.b, c)});
    } else if (k == "expression") {
      Region w = ma;
      const Pos c(dim, v);
      const bool done = lib([&] {
        switch (mode) {
          case 0:
            x = y + z;
            break;
          case 1:
            x = y - z;
            break;
          case 2:
            x = y + lp;
            break;
          case 3:
            x = y - lp;
            break;
          case 4:
            x = lp + y;
            break;
          case 5:
            x = y + v;
            break;
          case 6:
            x = y - v;
            break;
          case 7:
            x = v + y;
            break;
          case 8:
            x = +y;
            break;
          default:
            x = -y;
        }
      });
      switch (mode) {
        case 0:
          w = {plus(ma.f, mb.f), plus(ma.b, mb.b)};
          break;
        case 1:
          w = {plus(ma.f, mb.f, -1), plus(ma.b, mb.b, -1)};
          break;
        case 2:
        case 4:
          w = {plus(ma.f, p), plus(ma.b, p)};
          break;
        case 3:
          w = {plus(ma.f, p, -1), plus(ma.b, p, -1)};
          break;
        case 5:
        case 7:
          w = {plus(ma.f, c), plus(ma.b, c)};
          break;
        case 6:
          w = {plus(ma.f, c, -1), plus(ma.b, c, -1)};
          break;
        case 9:
          w = {plus(Pos(dim, 0), ma.f, -1), plus(Pos(dim, 0), ma.b, -1)};
      }
      set(d, done, w);
    } else if (k == "project") {
      const bool fresh = mode % 2;
      Region w = fresh ? ma : want;
      w.b[axis] = w.f[axis];
      bool self = true;
      const bool done = lib([&] {
        if (fresh && mode > 6 && axis == 0) {
          x = project(y);
        } else if (fresh) {
          x = project(y, Index(axis));
        } else {
          self = &(axis == 0 && mode > 5 ? x.project() : x.project(Index(axis))) == &x;
        }
      });
      check(!done || self, "return", "project() does not return the box");
      set(d, done, w);
    } else if (k == "copy") {
      const bool done = lib([&] {
        x = y;
      });
      set(d, done, ma);
    } else if (k == "surround") {
      surround(a, p, q, lp, lq);
    } else if (k == "clamp") {
      clampTo(a, q, lq, v);
    } else if (k == "query") {
      query(a, b);
    } else if (k == "position") {
      positions(p, q, lp, lq, mode);
    }
  }

  void create(int d, const Pos& p, const Pos& q, const P& lp, const P& lq, i64 v, i64 mode) {
    const i64 far = s.in("far", 0, i64(1) << 40);
    Region w;
    Pos shape;
    for (auto e : q) {
      shape.push_back(e < 0 ? -e : e);
    }
    const i64 r = v < 0 ? -v : v;
    Obj<B> fresh;
    const P lshape = position<N>(shape), lfar = position<N>(plus(p, Pos(dim, far)));
    bool done = true;
    opBegin(s, client, index);
    try {
      fresh.makeBy([&] {
        switch (mode) {
          case 0:
          case 1:
          case 2:
            return B::fromShape(lfar, lshape);
          case 3:
          case 4:
            return B::fromCenter(r, lfar);
          case 5:
            return N == -1 ? B::fromShape(lp, lshape) : B::fromCenter(r);
          case 6:
            return N == -1 ? B::fromShape(lp, lshape) : B::fromCenter();
          case 7:
            return N == -1 ? B::fromShape(lp, lshape) : B::whole();
          default:
            return B(lp, lq);
        }
      });
    } catch (const std::bad_alloc&) {
      done = false;
    }
    const int fired = opEnd();
    check(done || fired, "exception", "the construction threw");
    if (!done) {
      probe("oom");
      return verify("construction");
    }
    const Pos one(dim, 1);
    if (mode < 3) {
      w = {plus(p, Pos(dim, far)), plus(plus(plus(p, Pos(dim, far)), shape), one, -1)};
    } else if (mode < 5) {
      w = {plus(p, Pos(dim, far - r)), plus(p, Pos(dim, far + r))};
    } else if (mode < 8 && N == -1) {
      w = {p, plus(plus(p, shape), one, -1)};
    } else if (mode < 7) {
      const i64 rr = mode == 5 ? r : 1;
      w = {Pos(dim, -rr), Pos(dim, rr)};
    } else if (mode == 7) {
      w = {Pos(dim, 0), Pos(dim, std::numeric_limits<Index>::max())};
    } else {
      w = {p, q};
    }
    own[d] = std::move(fresh);
    set(d, true, w);
  }

  void surround(int a, const Pos& p, const Pos& q, const P& lp, const P& lq) {
    const auto& m = models[a];
    if (!m.filled()) {
      return;
    }
    Region margin {p, q};
    for (std::size_t i = 0; i < dim; ++i) {
      margin.f[i] = p[i] > 0 ? p[i] > 3 ? 0 : -p[i] : p[i];
      margin.b[i] = q[i] < 0 ? q[i] < -3 ? 0 : -q[i] : q[i];
    }
    Obj<B> lm;
    lm.makeBy([&] {
      return B(position<N>(margin.f), position<N>(margin.b));
    });
    std::vector<Region> parts;
    const auto& y = at(a);
    const bool done = lib([&] {
      const auto out = y.surround(*lm);
      Pause pause;
      for (const auto& e : out) {
        parts.push_back(regionOf(e));
      }
    });
    if (!done) {
      return verify("surround");
    }
    const Region all {plus(m.f, margin.f), plus(m.b, margin.b)};
    __int128 size = 0;
    for (std::size_t i = 0; i < parts.size(); ++i) {
      const auto& e = parts[i];
      check(e.filled(), "surround", "the surroundings of %s contain the empty box %s", str(m).c_str(), str(e).c_str());
      check(e.in(all), "surround", "part %s of the surroundings of %s is not in %s", str(e).c_str(), str(m).c_str(), str(all).c_str());
      check(!e.meets(m), "surround", "part %s of the surroundings of %s meets it", str(e).c_str(), str(m).c_str());
      for (std::size_t j = 0; j < i; ++j) {
        check(!e.meets(parts[j]), "surround", "parts %s and %s of the surroundings of %s meet", str(e).c_str(), str(parts[j]).c_str(), str(m).c_str());
      }
      size += e.size();
    }
    check(size == all.size() - m.size(), "surround", "the surroundings of %s in %s cover %lld positions, should cover %lld", str(m).c_str(),
          str(all).c_str(), (long long)size, (long long)(all.size() - m.size()));
    std::size_t count = 0;
    for (std::size_t i = 0; i < dim; ++i) {
      count += (margin.f[i] < 0) + (margin.b[i] > 0);
    }
    check(parts.size() <= count, "surround", "there are %zu surroundings, should be at most %zu", parts.size(), count);
    probe("surround");
    mix(parts.size());
    verify("surround");
  }

  template <typename T>
  void clampOne(int a, const Pos& q, i64 v, bool shape) {
    const auto& m = models[a];
    if (!m.filled()) {
      return;
    }
    Obj<Litl::Vector<T, N>> in, out;
    in.makeBy([&] {
      return Litl::Vector<T, N>(T(dim));
    });
    std::vector<T> want;
    for (std::size_t i = 0; i < dim; ++i) {
      const i64 lo = shape ? 0 : m.f[i], hi = shape ? m.b[i] - m.f[i] : m.b[i];
      const T e = T(lo) + T(q[i]) + (std::is_floating_point<T>::value ? T(v % 8) / 8 : T(0)) + (v % 5 == 0 ? T(hi - lo) : T(0));
      (*in)[i] = e;
      want.push_back(e < T(lo) ? T(lo) : e > T(hi) ? T(hi) : e);
    }
    const auto& y = at(a);
    const P sh = position<N>(plus(plus(m.b, m.f, -1), Pos(dim, 1)));
    const bool done = lib([&] {
      out.makeBy([&] {
        return shape ? clamp(*in, sh) : clamp(*in, y);
      });
    });
    if (done) {
      check(out->size() == dim, "clamp", "the clamped position has %zu coordinates, should have %zu", std::size_t(out->size()), dim);
      for (std::size_t i = 0; i < dim; ++i) {
        check((*out)[i] == want[i], "clamp", "coordinate %zu is clamped to %g, should be clamped to %g", i, double((*out)[i]), double(want[i]));
      }
      probe("clamp");
    }
    verify("clamp");
  }
  void clampTo(int a, const Pos& q, const P&, i64 v) {
    if (v % 2) {
      clampOne<double>(a, q, v, op.arg(4) % 2);
    } else {
      clampOne<Index>(a, q, v, op.arg(4) % 2);
    }
  }

  template <bool B1>
  void query1(int a, std::integral_constant<bool, B1>) {
    const auto& m = models[a];
    const auto& y = at(a);
    i64 l0 = 0, l1 = 0;
    lib([&] {
      l0 = y.template length<0>();
      l1 = y.template length<N == -1 ? 0 : N - 1>();
    });
    check(l0 == m.length(0), "length", "the length along axis 0 is %ld, should be %ld", l0, m.length(0));
    check(l1 == m.length(N == -1 ? 0 : N - 1), "length", "the length along the last axis is %ld", l1);
  }

  void query(int a, int b) {
    const auto& m = models[a];
    const auto& y = at(a);
    const auto& z = at(b);
    Pos shape;
    i64 dimension = -1, size = -1;
    Pos lengths(dim, -1);
    bool eq = false, ne = false;
    const bool done = lib([&] {
      const auto sh = y.shape();
      {
        Pause p;
        shape = posOf(sh);
      }
      dimension = y.dimension();
      size = y.size();
      for (std::size_t i = 0; i < dim; ++i) {
        lengths[i] = y.length(Index(i));
      }
      eq = y == z;
      ne = y != z;
    });
    if (!done) {
      return verify("query");
    }
    check(dimension == i64(dim), "dimension", "the dimension is %ld, should be %zu", dimension, dim);
    for (std::size_t i = 0; i < dim; ++i) {
      check(lengths[i] == m.length(i), "length", "the length of %s along axis %zu is %ld", str(m).c_str(), i, lengths[i]);
      check(shape.size() == dim && shape[i] == m.length(i), "shape", "the shape of %s is %s", str(m).c_str(), vec(shape).c_str());
    }
    if (m.proper() && m.size() < (__int128(1) << 62)) {
      check(size == i64(m.size()), "size", "the size of %s is %ld, should be %lld", str(m).c_str(), size, (long long)m.size());
    }
    const bool same = models[a] == models[b];
    check(eq == same && ne == !same, "equality", "%s == %s is %d and != is %d", str(models[a]).c_str(), str(models[b]).c_str(), int(eq), int(ne));
    query1(a, std::integral_constant<bool, true>());
    probe(same ? "same" : "query");
    verify("query");
  }

  /// Positions: strides and sizes of shapes, lower and higher dimensions, named vectors
  void positions(const Pos& p, const Pos& q, const P& lp, const P& lq, i64 mode) {
    Pos shape;
    for (auto e : p) {
      shape.push_back((e < 0 ? -e : e) << (mode > 5 ? dim == 1 ? 40 : 36 / dim : 0)); // Large images
    }
    const P lshape = position<N>(shape);
    Pos strides(dim + 1, 0);
    i64 size = -1, first = -1, second = -1, index0 = -1, rasterSize = -1;
    Pos at, lengths(dim, -1);
    for (std::size_t i = 0; i < dim; ++i) {
      at.push_back(shape[i] > 0 ? shape[i] - 1 - (q[i] < 0 ? -q[i] : q[i]) % shape[i] : 0);
    }
    const P lat = position<N>(at);
    char pixel = 0;
    bool zero = false, one = false, inf = false, constants = false;
    Pos cut, longer;
    const bool done = lib([&] {
      for (std::size_t i = 0; i <= dim; ++i) {
        strides[i] = Litl::shapeStride(lshape, Index(i));
      }
      first = Litl::shapeStride<0>(lshape);
      second = Litl::shapeStride<1>(lshape);
      {
        const Litl::PtrRaster<char, N> large(lshape, &pixel); // No pixel is accessed
        index0 = large.index(lat);
        rasterSize = i64(large.size());
        for (std::size_t i = 0; i < dim; ++i) {
          lengths[i] = large.length(Index(i));
        }
      }
      size = Litl::shapeSize(lshape);
      zero = lq.isZero();
      one = lq.isOne();
      inf = lq.isInf();
      constants = P::zero().isZero() && P::one().isOne() && P::inf().isInf() && !P::zero().isOne() && !P::one().isZero() && !P::inf().isZero();
      const auto c = lq.template slice<1>();
      Litl::Position<5> padding;
      for (Index i = 0; i < 5; ++i) {
        padding[i] = 100 + i;
      }
      const auto l = mode % 2 ? lq.template extend<5>() : lq.template extend<5>(padding);
      Pause pause;
      cut = posOf(c);
      longer = posOf(l);
    });
    if (!done) {
      return;
    }
    if (mode % 2) { // No axis, no pixel
      i64 none = -1;
      lib([&] {
        none = Litl::shapeSize(Litl::Position<-1>(0));
      });
      check(none == 0 || none == -1, "size", "the size of an empty shape is %ld", none);
    }
    i64 want = 1;
    for (std::size_t i = 0; i <= dim; ++i) {
      check(strides[i] == want, "stride", "stride %zu of shape %s is %ld, should be %ld", i, vec(shape).c_str(), strides[i], want);
      want *= i < dim ? shape[i] : 1;
    }
    check(first == 1, "stride", "the first stride is %ld", first);
    check(second == shape[0], "stride", "the second stride of shape %s is %ld", vec(shape).c_str(), second);
    i64 wantIndex = 0;
    for (std::size_t i = dim; i-- > 0;) {
      wantIndex = wantIndex * shape[i] + at[i];
    }
    check(index0 == wantIndex, "index", "the index of %s in an image of shape %s is %ld, should be %ld", vec(at).c_str(), vec(shape).c_str(), index0, wantIndex);
    check(lengths == shape && rasterSize == want, "raster-shape", "an image of shape %s has lengths %s and %ld pixels", vec(shape).c_str(), vec(lengths).c_str(), rasterSize);
    check(size == want, "shape-size", "the size of shape %s is %ld, should be %ld", vec(shape).c_str(), size, want);
    check(zero == (q == Pos(dim, 0)) && one == (q == Pos(dim, 1)) && !inf && constants, "named", "%s is zero: %d, one: %d, infinite: %d", vec(q).c_str(),
          int(zero), int(one), int(inf));
    check(cut == Pos {q[0]}, "slice", "the first coordinate of %s is %s", vec(q).c_str(), vec(cut).c_str());
    Pos ext = q;
    for (i64 i = i64(dim); i < 5; ++i) {
      ext.push_back(mode % 2 ? 0 : 100 + i);
    }
    check(longer == ext, "extend", "the extension of %s is %s, should be %s", vec(q).c_str(), vec(longer).c_str(), vec(ext).c_str());
    probe("position");
  }

  void runAll() {
    const auto& ops = s.clients[std::size_t(client)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      run(ops[i], int(i));
    }
    for (auto& m : models) {
      for (auto e : m.f) {
        mix(u64(e));
      }
    }
  }
};

template <Index N>
void goBox(const Scenario& s, std::size_t dim) {
  using B = Litl::Box<N>;
  Obj<B> shared[Shared];
  Region models[Shared];
  const auto describe = [&](int c, int i) {
    Region r;
    for (std::size_t k = 0; k < dim; ++k) {
      const std::size_t at = std::size_t(c * 7 + i * 3) + k * 2;
      r.f.push_back(s.in("data", -6, 6, at % 20) + s.in("far", 0, i64(1) << 40) * (i % 2));
      r.b.push_back(r.f.back() + s.in("data", -1, 6, (at + 1) % 20));
    }
    return r;
  };
  const auto fill = [&](Obj<B>& o, const Region& r) {
    o.makeBy([&] {
      return B(position<N>(r.f), position<N>(r.b));
    });
  };
  for (int i = 0; i < Shared; ++i) {
    models[i] = describe(0, i + Own);
    fill(shared[i], models[i]);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    BoxWorld<N> w(s, c, dim);
    w.shared = shared;
    for (int i = 0; i < Own + Shared; ++i) {
      w.models[i] = i < Own ? describe(c, i) : models[i - Own];
      if (i < Own) {
        fill(w.own[i], w.models[i]);
      }
    }
    w.runAll();
  });
  for (auto& e : shared) {
    e.reset();
  }
  checkNoLeak("the boxes");
}

template <Index N, Index Norm>
struct BallWorld {
  using B = Litl::Ball<N, Norm>;
  using P = Litl::Position<N>;
  const Scenario& s;
  int client;
  Obj<B> own[Own];
  const Obj<B>* shared;
  struct Model {
    double r;
    Pos c;
    bool operator==(const Model& o) const {
      return r == o.r && c == o.c;
    }
  } models[Own + Shared];

  BallWorld(const Scenario& sc, int c) : s(sc), client(c) {}
  const B& at(int i) {
    return i < Own ? *own[i] : *shared[i - Own];
  }
  void verify(const char* what) {
    for (int i = 0; i < Own + Shared; ++i) {
      const Model got {at(i).radius(), posOf(at(i).center())};
      check(got == models[i], "region", "after %s, ball %d has radius %g and center %s, should have %g and %s", what, i, got.r, vec(got.c).c_str(),
            models[i].r, vec(models[i].c).c_str());
    }
  }

  void run(const Op& op, int index) {
    const auto& k = op.name;
    const int d = int(op.in(0, 0, Own - 1));
    const int a = int(op.in(1, 0, Own + Shared - 1));
    const int b = int(op.in(2, 0, Own + Shared - 1));
    const i64 v = op.in(3, -1000, 1000);
    const i64 mode = op.in(4, 0, 9);
    Pos p;
    for (std::size_t i = 0; i < std::size_t(N); ++i) {
      p.push_back(op.arg(5 + i));
    }
    trace("%s: %d <- %d, %d, %ld, mode %ld, %s", k.c_str(), d, a, b, v, mode, vec(p).c_str());
    const P lp = position<N>(p);
    auto& x = *own[d];
    const auto& y = at(a);
    const auto& z = at(b);
    auto want = models[d];
    const auto& m = models[a];
    const auto run = [&](auto&& f) {
      return lib(s, client, index, k.c_str(), f);
    };
    for (auto& e : models) {
      for (auto c : e.c) {
        if (k != "new" && (c > (i64(1) << 50) || c < -(i64(1) << 50))) {
          return;
        }
      }
    }
    const Pos c(std::size_t {N}, v);
    if (k == "new") {
      double r = double(v < 0 ? -v : v) / 4;
      if (op.arg(1) % 3 == 0) { // Just inside or outside of positions
        r = N == 2 && Norm == 2 ? std::sqrt(double(i64(4 * r))) : double(i64(r));
        r += op.arg(2) % 2 ? 1e-9 : r >= 1 ? -1e-9 : 0;
        probe("ball_limit");
      }
      own[d].makeBy([&] {
        return mode ? B(r, lp) : B(r);
      });
      models[d] = {r, mode ? p : Pos(std::size_t {N}, 0)};
      probe("new");
    } else if (k == "shift") {
      const bool alias = mode % 3 == 1;
      const Pos by = alias ? want.c : p;
      const P& lby = alias ? x.center() : lp;
      bool self = false;
      if (run([&] {
            self = &(mode >= 5 ? x -= lby : x += lby) == &x;
          })) {
        check(self, "return", "the operator does not return the ball");
        models[d].c = plus(want.c, by, mode >= 5 ? -1 : 1);
        probe("shift");
      }
    } else if (k == "add") {
      bool self = false;
      if (run([&] {
            self = &(mode % 4 == 0 ? x += v : mode % 4 == 1 ? x -= v : mode % 4 == 2 ? ++x : --x) == &x;
          })) {
        check(self, "return", "the operator does not return the ball");
        const i64 by = mode % 4 == 0 ? v : mode % 4 == 1 ? -v : mode % 4 == 2 ? 1 : -1;
        models[d].c = plus(want.c, Pos(std::size_t {N}, by));
        probe("add");
      }
    } else if (k == "expression") {
      Model w = m;
      if (run([&] {
            switch (mode) {
              case 0:
              case 1:
                x = y + lp;
                break;
              case 2:
                x = lp + y;
                break;
              case 3:
                x = y - lp;
                break;
              case 4:
                x = y + v;
                break;
              case 5:
                x = v + y;
                break;
              case 6:
                x = y - v;
                break;
              case 7:
                x = +y;
                break;
              default:
                x = -y;
            }
          })) {
        w.c = mode <= 2 ? plus(m.c, p) : mode == 3 ? plus(m.c, p, -1) : mode <= 5 ? plus(m.c, c) : mode == 6 ? plus(m.c, c, -1) : mode == 7 ? m.c : plus(Pos(std::size_t {N}, 0), m.c, -1);
        models[d] = w;
        probe("expression");
      }
    } else if (k == "copy") {
      if (run([&] {
            x = y;
          })) {
        models[d] = m;
      }
    } else if (k == "query") {
      const i64 r = i64(m.r);
      Region box;
      Pos shape;
      i64 l0 = 0, l1 = 0, dimension = 0, size = -1;
      bool eq = false, ne = false;
      if (run([&] {
            const auto bb = y.box();
            const auto sh = y.shape();
            {
              Pause pause;
              box = {posOf(bb.front()), posOf(bb.back())};
              shape = posOf(sh);
            }
            l0 = y.template length<0>();
            l1 = y.length(N - 1);
            dimension = y.dimension();
            size = m.r <= 6 ? y.size() : -1;
            eq = y == z;
            ne = y != z;
          })) {
        const Pos rr(std::size_t {N}, r);
        check(box == Region {plus(m.c, rr, -1), plus(m.c, rr)}, "box", "the bounding box of the ball of radius %g centered in %s is %s", m.r, vec(m.c).c_str(),
              str(box).c_str());
        check(shape == Pos(std::size_t {N}, 2 * r + 1) && l0 == 2 * r + 1 && l1 == l0, "shape", "the shape of the ball of radius %g is %s, the lengths %ld and %ld",
              m.r, vec(shape).c_str(), l0, l1);
        check(dimension == N, "dimension", "the dimension is %ld", dimension);
        const bool same = m == models[b];
        check(eq == same && ne == !same, "equality", "balls %d and %d compare %d and %d", a, b, int(eq), int(ne));
        if (size >= 0) {
          i64 n = 0;
          const Pos cube(std::size_t {N}, 2 * r + 1);
          for (i64 i = 0; i < count(cube); ++i) {
            double dist = 0;
            for (auto e : unindex(cube, i)) {
              dist += Norm == 1 ? std::fabs(double(e - r)) : double((e - r) * (e - r));
            }
            n += dist <= (Norm == 1 ? m.r : m.r * m.r);
          }
          check(size == n, "ball-size", "the ball of radius %g has size %ld, should have %ld", m.r, size, n);
        }
        probe("query");
      }
    }
    verify(k.c_str());
  }

  void runAll() {
    const auto& ops = s.clients[std::size_t(client)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      run(ops[i], int(i));
    }
    for (auto& m : models) {
      mix(u64(m.c[0]));
    }
  }
};

template <Index N, Index Norm>
void goBall(const Scenario& s) {
  using B = Litl::Ball<N, Norm>;
  using W = BallWorld<N, Norm>;
  Obj<B> shared[Shared];
  const auto make = [&](Obj<B>& o, int c, int i) {
    Pos p;
    for (std::size_t k = 0; k < std::size_t(N); ++k) {
      p.push_back(s.in("data", -6, 6, (std::size_t(c * 7 + i * 3) + k) % 20) + s.in("far", 0, i64(1) << 40) * (i % 2));
    }
    const double r = double(s.in("data", 0, 20, std::size_t(c * 5 + i) % 20)) / 4;
    o.makeBy([&] {
      return B(r, position<N>(p));
    });
    return typename W::Model {r, p};
  };
  typename W::Model models[Shared];
  for (int i = 0; i < Shared; ++i) {
    models[i] = make(shared[i], 0, i + Own);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    W w(s, c);
    w.shared = shared;
    for (int i = 0; i < Own; ++i) {
      w.models[i] = make(w.own[i], c, i);
    }
    for (int i = 0; i < Shared; ++i) {
      w.models[Own + i] = models[i];
    }
    w.runAll();
  });
  for (auto& e : shared) {
    e.reset();
  }
  checkNoLeak("the balls");
}

/// One-dimensional samplings
template <typename> // Instantiated on demand
struct SamplingWorld {
  using S = Litl::IndexSampling;
  const Scenario& s;
  int client;
  const S* shared;

  void segment(const Op& op, int index, i64 front, i64 back) {
    i64 f = 0, b = 0, sized = 0;
    std::size_t n = 0;
    if (back >= front && lib(s, client, index, "segment", [&] {
          const Litl::Segment x(front, back);
          const auto y = Litl::Segment::fromSize(front, x.size());
          f = x.front();
          b = x.back();
          n = x.size();
          sized = y.front() == front ? y.back() : front - 1;
        })) {
      check(f == front && b == back && i64(n) == back - front + 1 && sized == back, "segment", "the segment from %ld to %ld goes from %ld to %ld, has size %zu; from its size it ends at %ld",
            front, back, f, b, n, sized);
    }
  }

  /// Samplings of a box
  template <Index N>
  void grid(const Op& op, int index, i64 first, i64 dim) {
    Pos front, back, step, shape;
    for (std::size_t i = 0; i < std::size_t(dim); ++i) {
      front.push_back(first + i64(i) * op.in(7, -9, 9));
      back.push_back(front[i] + op.in(8 + i, 0, 40));
      step.push_back(op.arg(0) % 2 ? op.in(3 + i, 1, 5) : 1);
      shape.push_back((back[i] - front[i]) / step[i] + 1);
    }
    Pos got, f, b, st, afb;
    if (!lib(s, client, index, "position sampling", [&] {
          const Litl::Box<N> box(position<N>(front), position<N>(back));
          const auto x = op.arg(0) % 2 ? Litl::PositionSampling<N>(box, position<N>(step)) : Litl::PositionSampling<N>(box);
          const auto sh = x.shape();
          Pause pause;
          got = posOf(sh);
          const auto& a0 = x.template along<0>();
          const auto& a1 = x.template along<(N < 0 ? 2 : N) - 1>();
          afb = {a0.front, a0.back, a0.step, a1.front, a1.back, a1.step};
          for (Index i = 0; i < dim; ++i) {
            const auto& e = x.along(i);
            f.push_back(e.front);
            b.push_back(e.back);
            st.push_back(e.step);
          }
        })) {
      return;
    }
    check(got == shape, "grid-shape", "the sampling of %s by %s has shape %s, should have %s", str(Region {front, back}).c_str(), vec(step).c_str(), vec(got).c_str(), vec(shape).c_str());
    check(f == front && b == back && st == step, "grid-axis", "the sampling of %s by %s goes from %s to %s by %s", str(Region {front, back}).c_str(), vec(step).c_str(),
          vec(f).c_str(), vec(b).c_str(), vec(st).c_str());
    const std::size_t l = std::size_t((N < 0 ? 2 : N) - 1);
    check(afb == Pos {front[0], back[0], step[0], front[l], back[l], step[l]}, "grid-axis", "the axes of the sampling of %s by %s are wrong", str(Region {front, back}).c_str(), vec(step).c_str());
    probe("grid");
  }

  void run(const Op& op, int index) {
    const i64 first = op.in(5, -20, 20) + s.in("far", 0, i64(1) << 40) * (op.arg(1) % 2);
    S own {Index(first), Index(first + op.in(6, -3, 60)), Index(op.in(3, 1, 9))};
    if (op.arg(2) % 4 == 1) {
      segment(op, index, own.front, own.back);
      const i64 axes = op.in(8, 0, 5);
      return axes == 0 ? this->template grid<1>(op, index, first, 1) : axes < 3 ? this->template grid<2>(op, index, first, 2) : axes < 5 ? this->template grid<3>(op, index, first, 3) : this->template grid<-1>(op, index, first, op.in(7, 2, 4));
    }
    const S& x = op.arg(0) % 3 == 2 ? *shared : own;
    Pos want;
    for (i64 v = x.front; v <= x.back; v += x.step) {
      want.push_back(v);
    }
    std::size_t n = 0, visited = 0;
    bool right = true, ended = false;
    Pos all;
    const bool done = lib(s, client, index, "sampling", [&] {
      n = x.size();
      auto it = x.begin();
      const auto end = x.end();
      const i64 mode = op.in(4, 0, 9);
      while (it != end && visited < want.size()) {
        right = right && *it == want[visited];
        if (mode == 0) { // Back and forth
          it += 1;
          it -= 1;
          right = right && *it == want[visited];
        }
        ++visited;
        if (mode % 2) {
          const auto old = it++;
          right = right && *(S::Iterator(old)) == want[visited - 1];
        } else {
          ++it;
        }
      }
      ended = it == end;
      const auto v = x.vector();
      Pause pause;
      all.assign(v.begin(), v.end());
    });
    if (!done) {
      return;
    }
    check(n == want.size(), "sampling-size", "the sampling from %ld to %ld by %ld has size %zu, should have %zu", x.front, x.back, x.step, n, want.size());
    check(visited == want.size() && ended, "sampling", "the iteration visits %zu of %zu samples%s", visited, want.size(), ended ? "" : " and does not end");
    check(right && all == want, "sampling", "the sampling from %ld to %ld by %ld visits wrong samples", x.front, x.back, x.step);
    probe("sampling");
    mix(n);
  }
};

template <typename Any>
void goSampling(const Scenario& s) {
  const Litl::IndexSampling shared {s.in("data", -9, 9, 0), s.in("data", 0, 40, 1), s.in("data", 1, 5, 2)};
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    SamplingWorld<Any> w {s, c, &shared};
    const auto& ops = s.clients[std::size_t(c)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      w.run(ops[i], int(i));
    }
  });
  checkNoLeak("the samplings");
}

/// Strided samples of some data
template <typename>
struct SamplesWorld {
  const Scenario& s;
  int client;
  const std::vector<int>* shared; // Also data which nobody writes

  void run(const Op& op, int index) {
    const i64 stride = op.in(3, 1, 4);
    const i64 n = op.in(6, 0, 40); // Number of elements with this stride
    const bool own = op.arg(0) % 3 != 2;
    std::vector<int> data(own ? std::size_t(n * stride) : 0);
    const i64 count = own ? n : i64(shared->size()) / stride;
    for (std::size_t i = 0; i < data.size(); ++i) {
      data[i] = int(i * 7 + 3);
    }
    const int* d = own ? data.data() : shared->data();
    Litl::IndexSampling x;
    x.front = Index(op.in(5, 0, count));
    x.step = Index(op.in(7, 1, 9));
    const bool full = op.arg(8) % 3 == 0; // Up to the end of the data
    if (!full) {
      x.back = Index(op.in(8, 0, std::max<i64>(count - 1, 0)));
    }
    const i64 back = full || !count ? count - 1 : x.back;
    if (!count) {
      x.back = Litl::Limits<Index>::inf();
    }
    const i64 shift = op.in(9, 0, stride - 1); // Start from another element, e.g. another row
    Pos want;
    for (i64 i = x.front; i <= back; i += x.step) {
      want.push_back(i * stride + shift);
    }
    const i64 mode = op.in(4, 0, 9);
    std::size_t n0 = 0, visited = 0, samples = 0;
    bool right = true, ended = false, moved = true, values = true;
    const bool done = lib(s, client, index, "samples", [&] {
      const auto step = [&](auto& x) {
        if (mode % 3 == 0) {
          x += Index(shift);
        } else {
          for (i64 i = 0; i < shift; ++i) {
            if (mode % 3 == 1) {
              ++x;
            } else {
              const auto* before = x.data();
              const auto old = x++;
              moved = moved && old.data() == before && x.data() == before + 1;
            }
          }
        }
        if (mode == 9) {
          x += 2;
          x -= 2;
        }
      };
      const auto visit = [&](auto& x, auto&& func) {
        auto it = x.begin();
        const auto end = x.end();
        while (it != end && visited < want.size()) {
          right = right && &*it == d + want[visited] && it.operator->() == &*it;
          if (mode % 4 == 0) { // Back and forth
            const i64 k = std::min<i64>(2, i64(visited));
            it -= Index(k);
            right = right && &*it == d + want[visited - std::size_t(k)];
            it += Index(k);
            right = right && &*it == d + want[visited];
          }
          func(*it);
          ++visited;
          if (mode % 2) {
            const auto old = it++;
            right = right && &*std::decay_t<decltype(it)>(old) == d + want[visited - 1];
          } else {
            ++it;
          }
        }
        ended = it == end;
        auto at = x.begin();
        if (want.size() > 2 && mode % 3 == 0) { // From a pointer
          const auto p = &*it; // The end
          at += 2;
          const auto q = &*at;
          auto other = x.begin();
          right = (other = q) == at && &*other == q && q == d + want[2] && right;
          right = (other = p) == it && right;
        }
        samples = x.count();
        n0 = x.size();
      };
      if (own && mode > 4) {
        Litl::DataSamples<int> out(data.data(), std::size_t(count), x, stride);
        step(out);
        visit(out, [](int& v) {
          v = -v;
        });
      } else {
        Litl::DataSamples<const int> in(d, std::size_t(count), x, stride);
        step(in);
        const auto& cin = in;
        visit(cin, [](const int&) {});
        if (own) { // Constant data cannot be made a vector
          Litl::DataSamples<int> all(data.data(), std::size_t(count), x, stride);
          all += Index(shift);
          const auto v = all.vector();
          values = v.size() == want.size();
          for (std::size_t i = 0; values && i < v.size(); ++i) {
            values = v[i] == d[want[i]];
          }
        }
      }
    });
    if (!done) {
      return;
    }
    check(moved, "samples-increment", "the increment of samples does not move them by one element, or the post-increment does not return the former ones");
    check(samples == want.size() && n0 == std::size_t(count), "samples-size", "there are %zu samples of %zu elements, should be %zu of %zu", samples, n0, want.size(), std::size_t(count));
    check(visited == want.size() && ended, "samples", "the iteration visits %zu of %zu samples%s", visited, want.size(), ended ? "" : " and does not end");
    check(right && values, "samples", "the samples are not those from %ld to %ld by %ld with stride %ld", long(x.front), long(back), long(x.step), long(stride));
    if (own) {
      std::size_t k = 0;
      for (std::size_t i = 0; i < data.size(); ++i) {
        const int initial = int(i * 7 + 3);
        const bool written = mode > 4 && k < want.size() && want[k] == i64(i);
        k += written;
        check(data[i] == (written ? -initial : initial), "samples-data", "element %zu is %d after samples were %s", i, data[i], mode > 4 ? "negated" : "read");
      }
    }
    probe("samples");
    mix(visited);
  }
};

template <typename Any>
void goSamples(const Scenario& s) {
  std::vector<int> shared(std::size_t(s.in("data", 0, 80, 1)));
  for (std::size_t i = 0; i < shared.size(); ++i) {
    shared[i] = int(i) * 5 - 40;
  }
  const auto copy = shared;
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    SamplesWorld<Any> w {s, c, &shared};
    const auto& ops = s.clients[std::size_t(c)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      w.run(ops[i], int(i));
    }
  });
  check(shared == copy, "samples-data", "data were changed by their samples");
}

constexpr int KindCount = 14;
bool part1(const Scenario& s, int kind, std::size_t dim);
bool part2(const Scenario& s, int kind, std::size_t dim);

#if SIM_PART == 1
bool part1(const Scenario& s, int kind, std::size_t dim) {
  switch (kind) {
    case 3:
      goBox<4>(s, 4); // INST
      return true;
    case 4:
    case 5:
      goBox<-1>(s, dim); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int kind, std::size_t) {
  switch (kind) {
    case 6:
      goBall<1, 1>(s); // INST
      return true;
    case 7:
      goBall<2, 1>(s); // INST
      return true;
    case 8:
      goBall<3, 1>(s); // INST
      return true;
    case 9:
      goBall<1, 2>(s); // INST
      return true;
    case 10:
      goBall<2, 2>(s); // INST
      return true;
    case 11:
      goBall<3, 2>(s); // INST
      return true;
    case 12:
      goSampling<void>(s); // INST
      return true;
    case 13:
      goSamples<void>(s); // INST
      return true;
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int kind = int(s.in("kind", 0, KindCount - 1));
  const std::size_t dim = std::size_t(s.in("dim", 1, 4));
  if (part1(s, kind, dim) || part2(s, kind, dim)) {
    return;
  }
  switch (kind) {
    case 1:
      return goBox<2>(s, 2); // INST
    case 2:
      return goBox<3>(s, 3); // INST
    default:
      return goBox<1>(s, 1); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  const int kind = int(r.range(0, KindCount - 1));
  s.set("kind", {kind});
  s.set("dim", {r.range(1, 4)});
  if (r.chance(1, 4)) {
    s.set("far", {r.range(0, i64(1) << r.range(3, 40))});
  }
  std::vector<i64> data;
  for (int i = 0; i < 20; ++i) {
    data.push_back(r.range(-6, 6));
  }
  s.set("data", data);
  const int clients = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  static const char* const ops[] = {"new", "new", "shift", "shift", "grow", "add", "expression", "expression", "project", "copy", "surround", "surround", "clamp", "query", "query", "position"};
  for (int c = 0; c < clients; ++c) {
    const int len = int(r.range(2, tier ? 30 : 14));
    for (int i = 0; i < len; ++i) {
      const i64 range = kind <= 3 && r.chance(1, 10) ? 1000 : r.chance(1, 10) ? 60 : r.chance(1, 2) ? 3 : 6;
      std::vector<i64> a = {r.range(0, Own - 1), r.range(0, Own + Shared - 1), r.range(0, Own + Shared - 1), r.range(-range, range), r.range(0, 9)};
      const bool zeros = r.chance(1, 8);
      for (int k = 0; k < 8; ++k) {
        a.push_back(zeros ? r.range(0, 1) : r.range(-range, range));
      }
      s.op(std::size_t(c), ops[r.range(0, 15)], a);
      if (r.chance(1, 4)) {
        s.fault("alloc", {c, i64(s.clients[std::size_t(c)].size()) - 1, r.chance(1, 2) ? 0 : r.range(0, 9), r.range(1, 2)});
      }
    }
  }
}

Register reg("C24", generate, execute);
#endif

} // namespace simregion
