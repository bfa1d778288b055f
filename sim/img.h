// Images as the harness knows them, with exact (integral) pixels (compiled with instrumentation).
#ifndef IMG_H
#define IMG_H

#include "LitlRaster/Raster.h"

#include "scn.h"

namespace sim {

using Litl::Index;
using Pos = std::vector<i64>;

template <Index N>
Litl::Position<N> position(const Pos& p) {
  Litl::Position<N> out = Litl::Position<N>(Index(p.size()));
  for (std::size_t i = 0; i < p.size(); ++i) {
    out[i] = p[i];
  }
  return out;
}

inline i64 count(const Pos& shape) {
  i64 n = 1;
  for (auto e : shape) {
    n *= e;
  }
  return n;
}

inline i64 indexOf(const Pos& shape, const Pos& p) {
  i64 out = 0;
  for (std::size_t i = p.size(); i-- > 0;) {
    out = out * shape[i] + p[i];
  }
  return out;
}

inline Pos unindex(const Pos& shape, i64 k) {
  Pos out;
  for (auto e : shape) {
    out.push_back(k % e);
    k /= e;
  }
  return out;
}

/// Exact values: integers, or pairs of integers (complex numbers)
struct Z {
  i64 re, im;
  Z operator*(const Z& o) const {
    return {re * o.re - im * o.im, re * o.im + im * o.re};
  }
  Z operator+(const Z& o) const {
    return {re + o.re, im + o.im};
  }
};

template <typename T>
struct Num {
  static T make(Z z) {
    return T(z.re);
  }
  static bool same(T v, Z z) {
    return v == T(z.re);
  }
  static constexpr bool IsComplex = false;
};
template <typename T>
struct Num<std::complex<T>> {
  static std::complex<T> make(Z z) {
    return {T(z.re), T(z.im)};
  }
  static bool same(std::complex<T> v, Z z) {
    return v == make(z);
  }
  static constexpr bool IsComplex = true;
};

inline Z hashValue(u64 seed, u64 i, i64 lo, i64 hi, bool complex) {
  Rng r(seed * 7919 + i * 104729 + 3);
  const i64 re = r.range(lo, hi);
  return {re, complex ? r.range(lo, hi) : 0};
}

/// Image known by the harness
struct Image {
  Pos shape;
  std::vector<Z> v;
  /// mode: 0 constant, 1 nearest, 2 periodic
  Z at(Pos p, int mode, Z constant) const {
    for (std::size_t i = 0; i < p.size(); ++i) {
      const i64 n = shape[i];
      if (p[i] >= 0 && p[i] < n) {
        continue;
      }
      if (mode == 0) {
        return constant;
      }
      p[i] = mode == 1 ? (p[i] < 0 ? 0 : n - 1) : ((p[i] % n) + n) % n;
    }
    return v[std::size_t(indexOf(shape, p))];
  }
};

inline std::string str(const Pos& p) {
  return vec(p);
}

/// Compare a raster with what is expected
template <typename T, typename R>
void compare(const R& got, const Image& want, const char* cls, const char* what) {
  for (std::size_t i = 0; i < want.shape.size(); ++i) {
    check(got.shape()[i] == want.shape[i], cls, "%s: wrong shape", what);
  }
  const T* d = got.data();
  for (std::size_t i = 0; i < want.v.size(); ++i) {
    if (!Num<T>::same(d[i], want.v[i])) {
      fail(cls, "%s: wrong value at %s: should be %lld%+lldi", what, str(unindex(want.shape, i64(i))).c_str(), (long long)want.v[i].re, (long long)want.v[i].im);
    }
  }
}

template <typename T, typename R>
void fill(R& raster, const Image& im) {
  T* d = const_cast<T*>(raster.data());
  for (std::size_t i = 0; i < im.v.size(); ++i) {
    d[i] = Num<T>::make(im.v[i]);
  }
}

/// Integral pixels may be unsigned
template <typename T>
i64 lowest() {
  return std::is_unsigned<T>::value ? 0 : -9;
}

/// What digits can be multiplied by such that values remain exact
template <typename T>
struct Factor {
  static constexpr i64 value = std::is_integral<T>::value ? (sizeof(T) < 8 ? i64(std::numeric_limits<T>::max()) / 10 : 100000000000000) : sizeof(T) == 4 ? 1 << 19 : i64(1) << 40;
};
template <typename T>
struct Factor<std::complex<T>> : Factor<T> {};

inline void enlarge(Image& im, i64 factor) {
  for (auto& e : im.v) {
    e.re *= factor;
    e.im *= factor;
  }
}

template <typename T>
Image makeImage(const Pos& shape, u64 seed) {
  Image im {shape, {}};
  for (i64 i = 0; i < count(shape); ++i) {
    im.v.push_back(hashValue(seed, u64(i), lowest<T>(), 9, Num<T>::IsComplex));
  }
  return im;
}

inline Pos shapeParam(const Scenario& s, const char* name, int dim, i64 max) {
  Pos out;
  for (int i = 0; i < dim; ++i) {
    out.push_back(s.in(name, 1, max, std::size_t(i)));
  }
  const i64 extra = s.in("long", 0, 400, 1);
  if (extra && name[0] == 's' && dim) { // One long axis
    for (auto& e : out) {
      e = 1 + (e - 1) % 3;
    }
    out[std::size_t(s.in("long", 0, dim - 1, 0))] += dim > 3 ? extra / 10 : dim > 2 ? extra / 3 : extra;
  }
  return out;
}

template <typename TIn, Index N>
void makeRaster(Obj<Litl::Raster<TIn, N>>& o, const Pos& shape, TIn*) {
  o.make(position<N>(shape));
}
template <typename TIn, Index N>
void makeRaster(Obj<Litl::PtrRaster<TIn, N>>& o, const Pos& shape, TIn* data) {
  o.make(position<N>(shape), data);
}

} // namespace sim

#endif
