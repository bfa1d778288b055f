// SIM_PARTS 3
// C25: wrong calls are refused by an exception which changes nothing and tells what was wrong.
// C26: containers and lists of arguments written to streams which may fail at any character;
// functions applied to the elements of sequences and tuples, which may throw at any call.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlTypes/SeqUtils.h"

#include "img.h"

#include <iomanip>
#include <sstream>

using namespace sim;

namespace simerrors {

enum class Kind { None, Oom, Size, Bounds, Null, Alignment, Litl, Other };

inline const char* name(Kind k) {
  constexpr const char* names[] = {"nothing", "bad_alloc", "SizeError", "OutOfBoundsError", "NullPtrError", "AlignmentError", "Litl::Exception",
                                   "another exception"};
  return names[int(k)];
}

/// Runs library code and gives what it throws
template <typename F>
Kind caught(F&& f, std::string& what) {
  try {
    Lib lib;
    f();
    return Kind::None;
  } catch (const std::bad_alloc&) {
    return Kind::Oom;
  } catch (const Litl::SizeError& e) {
    what = e.what();
    return Kind::Size;
  } catch (const Litl::OutOfBoundsError& e) {
    what = e.what();
    return Kind::Bounds;
  } catch (const Litl::AlignmentError& e) {
    what = e.what();
    return Kind::Alignment;
  } catch (const Litl::NullPtrError& e) {
    what = e.what();
    return Kind::Null;
  } catch (const Litl::Exception& e) {
    what = e.what();
    return Kind::Litl;
  } catch (const std::exception& e) {
    what = e.what();
    return Kind::Other;
  }
}

template <typename T>
T value(i64 seed, std::size_t i) {
  return Num<T>::make(hashValue(u64(seed), i, lowest<T>(), 99, Num<T>::IsComplex));
}

template <typename T>
std::vector<T> values(i64 seed, std::size_t n) {
  std::vector<T> out;
  for (std::size_t i = 0; i < n; ++i) {
    out.push_back(value<T>(seed, i));
  }
  return out;
}

template <typename C, typename T>
void same(const C& c, const std::vector<T>& v, const char* what) {
  check(c.size() == v.size(), "size", "%s has %zu elements, should have %zu", what, std::size_t(c.size()), v.size());
  const T* d = c.data();
  for (std::size_t i = 0; i < v.size(); ++i) {
    check(d[i] == v[i], "values", "element %zu of %s is wrong", i, what);
  }
}

/// Numbers of a message
inline bool tells(const std::string& what, i64 v) {
  const auto n = std::to_string(v);
  for (auto p = what.find(n); p != std::string::npos; p = what.find(n, p + 1)) {
    const char before = p ? what[p - 1] : ' ', after = p + n.size() < what.size() ? what[p + n.size()] : ' ';
    if (!std::isdigit(before) && !std::isdigit(after)) {
      return true;
    }
  }
  return false;
}

/// What is read by all clients
struct Common {
  Obj<Litl::Sequence<int>> sequence;
  Obj<Litl::Raster<double, -1>> variable;
  Obj<Litl::Exception> error;
  Obj<Litl::Exception> shared; ///< A copy of it, which shares its text maybe
  std::vector<int> v;
  std::vector<double> w;
  Pos shape;
  std::string text;
};

struct Base {
  const Scenario& s;
  int client;
  Common& common;
  /// The outcome of an operation which should be refused by an exception of kind `want`, or not
  static void judge(Kind got, Kind want, int fired, const std::string& what, const char* op) {
    trace("%s: %s %s", op, name(got), what.c_str());
    if (got == Kind::Oom) {
      check(fired, "spurious-exception", "%s threw bad_alloc without any failure", op);
      probe("oom");
      return;
    }
    check(got == want || (want == Kind::Other && got != Kind::None), got == Kind::None ? "accepted" : want == Kind::None ? "refused" : "wrong-exception", "%s threw %s (%s), should throw %s", op, name(got),
          what.c_str(), name(want));
    probe(want == Kind::None ? "accepted" : fired ? "refused_with_failures" : "refused");
  }
  static void judgeSize(Kind got, const std::string& what, i64 in, i64 ref) {
    if (got == Kind::Size) {
      check(tells(what, in) && tells(what, ref), "message", "the error about sizes %ld and %ld says: %s", long(in), long(ref), what.c_str());
    }
  }
  static void judgeBounds(Kind got, const std::string& what, const std::string& v, const std::string& lo, const std::string& hi) {
    if (got == Kind::Bounds) {
      const std::string form = ": " + v + " not in [" + lo + ", " + hi + "]";
      check(what.size() >= form.size() && what.substr(what.size() - form.size()) == form, "message", "the error should end with \"%s\" but says \"%s\"",
            form.c_str(), what.c_str());
    }
  }
};

template <typename T>
std::initializer_list<T> listOf(std::initializer_list<T> l) {
  return l;
}

/// Calls f with a list of n values
template <typename T, typename F>
void withList(i64 seed, std::size_t n, F&& f) {
  const auto v = values<T>(seed, 6);
  switch (n) {
    case 0:
      return f(std::initializer_list<T> {});
    case 1:
      return f({v[0]});
    case 2:
      return f({v[0], v[1]});
    case 3:
      return f({v[0], v[1], v[2]});
    case 4:
      return f({v[0], v[1], v[2], v[3]});
    case 5:
      return f({v[0], v[1], v[2], v[3], v[4]});
    default:
      return f({v[0], v[1], v[2], v[3], v[4], v[5]});
  }
}

template <typename T>
struct Typed : Base {
  Typed(const Scenario& sc, int c, Common& m) : Base {sc, c, m} {}

  /// Holders
  template <typename R, Index N>
  void build(const Op& op, int index, const Pos& shape, std::size_t n) {
    const i64 seed = op.arg(5);
    const std::size_t size = std::size_t(count(shape));
    const auto v = values<T>(seed, n);
    const bool list = op.in(4, 0, 1);
    if (list && n > 6) {
      return;
    }
    std::vector<T> source = v;
    std::string what;
    Obj<R> o;
    Kind k;
    const auto p = position<N>(shape);
    opBegin(s, client, index);
    if (list) {
      k = Kind::None;
      withList<T>(seed, n, [&](std::initializer_list<T> l) {
        k = caught(
            [&] {
              o.makeBy2([&](void* m) {
                new (m) R(p, std::initializer_list<T>(l));
              });
            },
            what);
      });
    } else {
      k = caught(
          [&] {
            o.makeBy2([&](void* m) {
              new (m) R(p, source);
            });
          },
          what);
    }
    const int fired = opEnd();
    judge(k, n == size ? Kind::None : Kind::Size, fired, what, list ? "construction from a list" : "construction from a vector");
    judgeSize(k, what, i64(n), i64(size));
    check(source == v, "source", "the source of a construction has changed");
    if (k == Kind::None) {
      same(*o, v, "a new raster");
    }
    check(p == position<N>(shape), "source", "the shape given has changed");
  }

  /// Views and aligned rasters of user memory
  template <typename R>
  void userMemory(const Op& op, int index, const Pos& shape, std::size_t n) {
    const std::size_t size = std::size_t(count(shape));
    const i64 seed = op.arg(5);
    T* user = static_cast<T*>(userAlloc(sizeof(T) * size, 64));
    const auto old = values<T>(seed + 1, size);
    std::copy(old.begin(), old.end(), user);
    const auto v = values<T>(seed, n);
    std::vector<T> source = v;
    std::string what;
    Kind k = Kind::None;
    const auto p = position<2>(shape);
    Obj<R> o;
    opBegin(s, client, index);
    k = caught(
        [&] {
          o.makeBy2([&](void* m) {
            new (m) R(p, source, user);
          });
        },
        what);
    const int fired = opEnd();
    judge(k, n == size ? Kind::None : Kind::Size, fired, what, "construction in user memory");
    judgeSize(k, what, i64(n), i64(size));
    const auto& want = k == Kind::None ? v : old;
    for (std::size_t i = 0; i < size; ++i) {
      check(user[i] == want[i], "user-memory", "the user's memory is wrong after a construction which threw %s", name(k));
    }
    o.reset();
    userFree(user);
  }

  template <typename R, typename C>
  void moved(const Op& op, int index, const Pos& shape, std::size_t n, bool fixed) {
    const auto v = values<T>(op.arg(5), n);
    Obj<C> c;
    c.makeBy2([&](void* m) {
      auto* e = new (m) C;
      resize(*e, n);
      for (std::size_t i = 0; i < n; ++i) {
        (*e)[i] = v[i];
      }
    });
    const std::size_t size = std::size_t(count(shape));
    const auto p = position<2>(shape);
    std::string what;
    Obj<R> o;
    opBegin(s, client, index);
    const bool function = op.in(4, 0, 1);
    const auto k = caught(
        [&] {
          o.makeBy2([&](void* m) {
            function ? new (m) R(Litl::rasterize(std::move(*c), Litl::Index(shape[0]), Litl::Index(shape[1]))) : new (m) R(p, std::move(*c));
          });
        },
        what);
    const int fired = opEnd();
    judge(k, n == size ? Kind::None : fixed ? Kind::Other : Kind::Size, fired, what, function ? "rasterize()" : "construction from a moved container");
    judgeSize(k, what, i64(n), i64(size));
    if (k == Kind::None) {
      same(*o, v, "a raster made of a moved container");
      check(o->shape() == p, "shape", "a raster made of a moved container has not the requested shape");
      const auto& inside = static_cast<const R&>(*o).container();
      check(std::size_t(inside.size()) == n && (!n || &inside[0] == o->data()), "container", "container() is not the container of the raster");
      if (op.in(5, 0, 1)) {
        Obj<C> out;
        out.makeBy([] {
          return C();
        });
        C* back = nullptr;
        std::string ignored;
        const auto done = caught(
            [&] {
              back = &o->moveTo(*out);
            },
            ignored);
        if (done == Kind::None) {
          check(back == &*out, "return", "moveTo() does not return its destination");
          check(std::size_t(out->size()) == n, "size", "a container which %zu elements were moved to has %zu", n, std::size_t(out->size()));
          for (std::size_t i = 0; i < n; ++i) {
            check((*out)[i] == v[i], "values", "element %zu of a container moved to is wrong", i);
          }
          probe("moved_to");
        }
        check(done == Kind::None || done == Kind::Oom, "wrong-exception", "moveTo() threw %s", name(done));
      }
      o.reset();
    }
    (*c) = C(); // Can be reassigned
  }
  static void resize(std::vector<T>& c, std::size_t n) {
    c.resize(n);
  }
  static void resize(std::valarray<T>& c, std::size_t n) {
    c.resize(n);
  }
  template <std::size_t N>
  static void resize(std::array<T, N>&, std::size_t) {}

  void array(const Op& op, int index, std::size_t n) {
    using S = Litl::Sequence<T, Litl::StdHolder<std::array<T, 6>>>;
    const auto v = values<T>(op.arg(5), std::max<std::size_t>(n, 6));
    std::string what;
    Obj<S> o;
    const bool data = op.in(4, 0, 1);
    opBegin(s, client, index);
    const auto k = caught(
        [&] {
          o.makeBy2([&](void* m) {
            data ? new (m) S(n, v.data()) : new (m) S(n);
          });
        },
        what);
    const int fired = opEnd();
    judge(k, n == 6 || n == 0 ? Kind::None : Kind::Other, fired, what, "construction of a sequence of fixed size");
    if (k == Kind::None && n) {
      if (data) {
        same(*o, values<T>(op.arg(5), 6), "a sequence of fixed size");
      } else {
        same(*o, std::vector<T>(6), "a sequence of fixed size");
      }
    }
  }

  void at(const Op& op, int index, std::size_t n) {
    using S = Litl::Sequence<T>;
    const auto v = values<T>(op.arg(5), n);
    Obj<S> o;
    if (n <= 6 && op.in(1, 0, 1)) {
      withList<T>(op.arg(5), n, [&](std::initializer_list<T> l) {
        o.makeBy2([&](void* m) {
          new (m) S(static_cast<const std::initializer_list<T>&>(l));
        });
      });
    } else {
      o.makeBy2([&](void* m) {
        new (m) S(n, v.data());
      });
    }
    same(*o, v, "a new sequence");
    const i64 far = op.in(4, 0, 9);
    const i64 size = i64(n);
    const i64 menu[10] = {0, size - 1, size, -size, -size - 1, -1, 1ll << 32, -(1ll << 32), std::numeric_limits<i64>::max(), std::numeric_limits<i64>::min()};
    const i64 i = menu[far];
    std::string what;
    T got = T();
    T* where = nullptr;
    opBegin(s, client, index);
    const auto k = caught(
        [&] {
          got = const_cast<const S&>(*o).at(i);
          where = &o->at(i);
        },
        what);
    const int fired = opEnd();
    const bool ok = i >= -size && i < size;
    judge(k, ok ? Kind::None : Kind::Bounds, fired, what, "at()");
    judgeBounds(k, what, std::to_string(i), std::to_string(-size), std::to_string(size - 1));
    if (k == Kind::None) {
      const std::size_t j = std::size_t(i < 0 ? i + size : i);
      check(got == v[j] && where == o->data() + j, "at", "at(%ld) of %ld elements is not element %zu", long(i), long(size), j);
    }
    same(*o, v, "a sequence read by at()");
  }

  /// Positions which have not the dimension of the raster
  void dimension(const Op& op, int index, const Pos& shape, std::size_t n) {
    using R = Litl::Raster<T, -1>;
    const auto v = values<T>(op.arg(5), std::size_t(count(shape)));
    Obj<R> o;
    const auto size = position<-1>(shape);
    o.makeBy2([&](void* m) {
      new (m) R(size, v.data());
    });
    Pos p;
    for (std::size_t i = 0; i < n; ++i) {
      p.push_back(i < shape.size() && op.arg(5) % 2 ? shape[i] - 1 : 0);
    }
    const auto q = position<-1>(p);
    std::string what;
    T got = T();
    const i64 how = op.in(4, 0, 3);
    opBegin(s, client, index);
    const auto k = caught(
        [&] {
          switch (how) {
            case 0:
              got = const_cast<const R&>(*o)[q];
              break;
            case 1:
              got = (*o)[q];
              break;
            case 2:
              got = const_cast<const R&>(*o).at(q);
              break;
            default:
              got = o->at(q);
          }
        },
        what);
    const int fired = opEnd();
    judge(k, n == shape.size() ? Kind::None : Kind::Size, fired, what, how < 2 ? "indexing" : "at()");
    judgeSize(k, what, i64(n), i64(shape.size()));
    if (k == Kind::None) {
      check(got == v[std::size_t(indexOf(shape, p))], "at", "the value at %s in shape %s is wrong", sim::str(p).c_str(), sim::str(shape).c_str());
    }
    same(*o, v, "a raster which was read");
  }

  /// Regions which are not contiguous
  template <Index N, Index M>
  void slice(const Op& op, int index, const Pos& shape) {
    using R = Litl::Raster<T, N>;
    const auto v = values<T>(op.arg(5), std::size_t(count(shape)));
    Obj<R> o;
    const auto size = position<N>(shape);
    o.makeBy2([&](void* m) {
      new (m) R(size, v.data());
    });
    Pos front, back;
    bool contiguous = true;
    Rng r(u64(op.arg(5)) * 31 + 7);
    for (std::size_t i = 0; i < shape.size(); ++i) {
      const bool full = i + 1 < std::size_t(M), flat = i >= std::size_t(M);
      i64 a = full ? 0 : r.range(0, shape[i] - 1);
      i64 b = full ? shape[i] - 1 : flat ? a : r.range(a, shape[i] - 1);
      if (r.chance(1, 4)) { // Whatever
        a = r.range(0, shape[i] - 1);
        b = r.range(a, shape[i] - 1);
      }
      contiguous &= (!full || (a == 0 && b == shape[i] - 1)) && (!flat || a == b);
      front.push_back(a);
      back.push_back(b);
    }
    const Litl::Box<N> box(position<N>(front), position<N>(back));
    std::string what;
    i64 got = 0;
    const T* where = nullptr;
    Pos lengths;
    const bool constant = op.in(4, 0, 1);
    opBegin(s, client, index);
    const auto k = caught(
        [&] {
          if (constant) {
            const auto view = const_cast<const R&>(*o).template slice<M>(box);
            got = i64(view.size());
            where = view.data();
            lengths.assign(view.shape().begin(), view.shape().end());
          } else {
            auto view = o->template slice<M>(box);
            got = i64(view.size());
            where = view.data();
            lengths.assign(view.shape().begin(), view.shape().end());
          }
        },
        what);
    const int fired = opEnd();
    judge(k, contiguous ? Kind::None : Kind::Litl, fired, what, "slice()");
    if (k == Kind::None) {
      i64 n = 1;
      for (std::size_t i = 0; i < shape.size(); ++i) {
        const i64 l = back[i] - front[i] + 1;
        n *= l;
        if (i < std::size_t(M)) {
          check(lengths[i] == l, "slice", "length %zu of the slice %s-%s is %ld", i, sim::str(front).c_str(), sim::str(back).c_str(), long(lengths[i]));
        }
      }
      check(got == n && where == o->data() + indexOf(shape, front), "slice", "the slice %s-%s of shape %s is wrong", sim::str(front).c_str(),
            sim::str(back).c_str(), sim::str(shape).c_str());
    }
    same(*o, v, "a raster which was sliced");
  }

  void alignment(const Op& op, int index) {
    T* user = static_cast<T*>(userAlloc(sizeof(T) * 64, 64));
    const i64 offset = op.in(2, -1, 40);
    const T* p = offset < 0 ? nullptr : user + offset;
    const std::size_t as = std::size_t(1) << op.in(3, 0, 8);
    std::string what;
    bool got = false;
    std::size_t highest = 0;
    opBegin(s, client, index);
    auto k = caught(
        [&] {
          got = Litl::isAligned(p, as);
          highest = Litl::alignment(p);
        },
        what);
    if (!p && k == Kind::Null) { // Any of the two
      k = caught(
          [&] {
            if (op.in(4, 0, 1)) {
              Litl::alignment(p);
            } else {
              got = Litl::isAligned(p, as);
            }
          },
          what);
    }
    int fired = opEnd();
    judge(k, p ? Kind::None : Kind::Null, fired, what, "alignment of a pointer");
    if (k == Kind::None) {
      check(got == (std::uintptr_t(p) % as == 0), "alignment", "isAligned() is %d for %zu", got, as);
      check(highest == (std::uintptr_t(p) & -std::uintptr_t(p)), "alignment", "alignment() is %zu", highest);
    }
    if (p) {
      opBegin(s, client, index);
      k = caught(
          [&] {
            Litl::AlignmentError::mayThrow(p, as);
          },
          what);
      fired = opEnd();
      judge(k, std::uintptr_t(p) % as ? Kind::Alignment : Kind::None, fired, what, "the check of an alignment");
      check(k != Kind::Alignment || tells(what, i64(as)), "message", "the error about alignment %zu says: %s", as, what.c_str());
    }
    opBegin(s, client, index);
    k = caught(
        [&] {
          Litl::NullPtrError("").mayThrow(p, "nothing there");
        },
        what);
    fired = opEnd();
    judge(k, p ? Kind::None : Kind::Null, fired, what, "the check of a pointer");
    check(k != Kind::Null || what.find("nothing there") != std::string::npos, "message", "the error about a null pointer says: %s", what.c_str());
    userFree(user);
  }

  /// Rasters which are views of pointers
  void view(const Op& op, int index, const Pos& shape) {
    const std::size_t size = std::size_t(count(shape));
    T* user = static_cast<T*>(userAlloc(sizeof(T) * size, 16));
    auto v = values<T>(op.arg(5), size);
    std::copy(v.begin(), v.end(), user);
    Obj<Litl::PtrRaster<T, 2>> o;
    Obj<Litl::PtrRaster<const T, 2>> c;
    std::string what;
    opBegin(s, client, index);
    const auto k = caught(
        [&] {
          o.makeBy([&] {
            return Litl::rasterize(user, Litl::Index(shape[0]), Litl::Index(shape[1]));
          });
          c.makeBy([&] {
            return Litl::rasterize(static_cast<const T*>(user), Litl::Index(shape[0]), Litl::Index(shape[1]));
          });
        },
        what);
    const int fired = opEnd();
    judge(k, Kind::None, fired, what, "rasterize()");
    if (k == Kind::None) {
      check(o->data() == user && c->data() == user, "view", "a view of a pointer has another pointer");
      check(o->shape() == position<2>(shape) && c->shape() == position<2>(shape), "shape", "a view of a pointer has not the requested shape");
      const i64 x = op.in(3, 0, shape[0] - 1), y = op.in(4, 0, shape[1] - 1);
      const std::size_t i = std::size_t(x + y * shape[0]);
      v[i] = value<T>(op.arg(5) + 1, i);
      {
        Lib lib;
        (*o)[{x, y}] = v[i];
      }
      check((*c)[{x, y}] == v[i], "view", "a view does not show what was written through another one");
      for (std::size_t j = 0; j < size; ++j) {
        check(user[j] == v[j], "user-memory", "element %zu of the user's memory is wrong after element %zu was written through a view", j, i);
      }
    }
    o.reset();
    c.reset();
    userFree(user);
  }

  void go(const Op& op, int index) {
    const i64 k = op.in(0, 0, 99);
    Pos shape;
    const i64 dim = k == 9 || k >= 20 ? op.in(1, 1, 4) : 2;
    Rng r(u64(op.in(2, -1, 100000)) + 5);
    for (i64 i = 0; i < dim; ++i) {
      shape.push_back(r.range(1, 3));
    }
    const i64 n = op.in(3, 0, 9);
    switch (k) {
      case 0:
        return build<Litl::VecRaster<T, 2>, 2>(op, index, shape, std::size_t(n));
      case 1:
        return build<Litl::VecRaster<T, -1>, -1>(op, index, shape, std::size_t(n));
      case 2:
        return build<Litl::AlignedRaster<T, 2>, 2>(op, index, shape, std::size_t(n));
      case 3:
        return build<Litl::Raster<T, 2, Litl::StdHolder<std::valarray<T>>>, 2>(op, index, shape, std::size_t(n));
      case 4:
        return userMemory<Litl::PtrRaster<T, 2>>(op, index, shape, std::size_t(n));
      case 5:
        return userMemory<Litl::AlignedRaster<T, 2>>(op, index, shape, std::size_t(n));
      case 6:
        return moved<Litl::VecRaster<T, 2>, std::vector<T>>(op, index, shape, std::size_t(n), false);
      case 7:
        return moved<Litl::Raster<T, 2, Litl::StdHolder<std::valarray<T>>>, std::valarray<T>>(op, index, shape, std::size_t(n), false);
      case 8:
        return moved<Litl::Raster<T, 2, Litl::StdHolder<std::array<T, 4>>>, std::array<T, 4>>(op, index, shape, 4, true);
      case 9:
        return dimension(op, index, shape, std::size_t(n % 5));
      case 10:
        return array(op, index, std::size_t(n));
      case 11:
        return at(op, index, std::size_t(n));
      case 12:
        return alignment(op, index);
      case 13:
        return view(op, index, shape);
      default:
        switch (dim) {
          case 1:
            return slice<1, 1>(op, index, shape);
          case 2:
            return n % 2 ? slice<2, 1>(op, index, shape) : slice<2, 2>(op, index, shape);
          case 3:
            return n % 3 == 0 ? slice<3, 1>(op, index, shape) : n % 3 == 1 ? slice<3, 2>(op, index, shape) : slice<-1, 2>(op, index, shape);
          default:
            return n % 2 ? slice<4, 3>(op, index, shape) : slice<4, 2>(op, index, shape);
        }
    }
  }
};

/// Characters accepted before the failure
struct Sink : std::streambuf {
  std::string text;
  i64 capacity;
  bool throws;
  bool failed = false;
  Sink(i64 c, bool t) : capacity(c), throws(t) {}
  int_type overflow(int_type c) override {
    Pause pause;
    if (capacity >= 0 && i64(text.size()) >= capacity) {
      if (!failed) {
        countFault(throws ? "stream_throws" : "stream_refuses");
        noteFault();
      }
      failed = true;
      if (throws) {
        throw std::runtime_error("the stream failed");
      }
      return traits_type::eof();
    }
    text.push_back(char(c));
    return c;
  }
  std::streamsize xsputn(const char* c, std::streamsize n) override {
    std::streamsize i = 0;
    while (i < n && overflow(traits_type::to_int_type(c[i])) != traits_type::eof()) {
      ++i;
    }
    return i;
  }
};

inline void format(std::ostream& os, i64 f) {
  os.precision(f % 9 + 1);
  switch (f / 9 % 4) {
    case 1:
      os << std::fixed;
      break;
    case 2:
      os << std::scientific << std::showpos;
      break;
    case 3:
      os << std::hex << std::showbase << std::uppercase;
  }
  os.fill(f % 2 ? '*' : ' ');
}

/// Elements written one by one
template <typename T>
std::string expected(const T* d, std::size_t n, i64 f) {
  std::ostringstream os;
  format(os, f);
  os << "[";
  for (std::size_t i = 0; i < n; ++i) {
    if (n > 7 && i == 3) {
      os << " ... ";
      i = n - 3;
    } else if (i) {
      os << ", ";
    }
    os << d[i];
  }
  os << "]";
  return os.str();
}

/// Prints by f to a stream which fails
template <typename F>
void print(const Scenario& s, int client, int index, const Op& op, const std::string& want, F&& f) {
  const i64 capacity = op.in(4, -1, 200);
  const i64 how = op.in(5, 0, 3); // Throwing sink, throwing stream
  Sink sink(capacity, how & 1);
  std::ostream os(&sink);
  format(os, op.in(3, 0, 71));
  if (how & 2) {
    os.exceptions(std::ios::badbit);
  }
  const auto flags = os.flags();
  const auto precision = os.precision();
  const auto fill = os.fill();
  std::string what;
  bool back = true;
  opBegin(s, client, index);
  const auto r = guarded(
      [&] {
        back = f(os) == &os;
      },
      &what);
  const int fired = opEnd();
  trace("printed %s", sink.text.c_str());
  check(os.flags() == flags && os.precision() == precision && os.fill() == fill, "format", "the format of the stream has changed");
  if (fired && (r != Res::Ok || !os.good())) {
    check(want.substr(0, sink.text.size()) == sink.text, "text", "the text is \"%s\", should begin as \"%s\"", sink.text.c_str(), want.c_str());
    probe("oom");
    return;
  }
  if (capacity >= 0 && capacity < i64(want.size())) {
    check(sink.failed, "text", "the text is \"%s\", should begin with \"%s\"", sink.text.c_str(), want.substr(0, std::size_t(capacity)).c_str());
    check(sink.text == want.substr(0, std::size_t(capacity)), "text", "the text is \"%s\", should begin as \"%s\"", sink.text.c_str(), want.c_str());
    check((r != Res::Ok) == bool(how & 2), "failure", "the failure of a stream which %s was %s", how & 2 ? "throws" : "does not throw",
          r == Res::Ok ? "not thrown" : "thrown");
    check(!os.good(), "failure", "the failure of the stream was cleared");
    probe("failed_stream");
    return;
  }
  check(r == Res::Ok && back, "exception", "printing failed: %s", what.c_str());
  check(os.good(), "failure", "printing broke the stream");
  check(sink.text == want, "text", "the text is \"%s\", should be \"%s\"", sink.text.c_str(), want.c_str());
  probe("printed");
}

template <typename T>
struct Printed {
  const Scenario& s;
  int client;

  template <typename C>
  void container(const C& c, const std::vector<T>& v, const Op& op, int index) {
    const auto want = expected(v.data(), v.size(), op.in(3, 0, 71));
    print(s, client, index, op, want, [&](std::ostream& os) {
      return &(os << c);
    });
    same(c, v, "a printed container");
    if (op.in(4, -1, 200) >= 0) { // Again, without failures
      Op again = op;
      again.a[4] = -1;
      print(s, client, -1, again, want, [&](std::ostream& os) {
        return &(os << c);
      });
    }
  }

  template <Index N>
  void vector(std::vector<T> v, const Op& op, int index) {
    using R = Litl::Vector<T, N>;
    v.resize(std::size_t(N));
    Obj<R> o;
    o.makeBy2([&](void* m) {
      auto* p = new (m) R;
      std::copy(v.begin(), v.end(), p->begin());
    });
    container(*o, v, op, index);
  }

  void go(const Op& op, int index) {
    if (Num<T>::IsComplex) { // The standard library's output of complex numbers ignores lack of memory
      index = -1;
    }
    const std::size_t n = std::size_t(op.in(2, 0, 40));
    const auto v = values<T>(op.arg(6), n);
    switch (op.in(0, 0, 4)) {
      case 0: {
        Obj<Litl::Sequence<T>> o;
        o.makeBy2([&](void* m) {
          new (m) Litl::Sequence<T>(n, v.data());
        });
        return container(*o, v, op, index);
      }
      case 1: {
        using R = Litl::Raster<T, 2>;
        const auto shape = position<2>({n % 2 ? i64(n) : 2, n % 2 ? 1 : i64(n / 2)});
        Obj<R> o;
        o.makeBy2([&](void* m) {
          new (m) R(shape, v.data());
        });
        return container(*o, v, op, index);
      }
      case 2: {
        using R = Litl::PtrRaster<const T, 1>;
        std::vector<T> copy = v;
        copy.push_back(T());
        const auto shape = position<1>({i64(n)});
        Obj<R> o;
        o.makeBy2([&](void* m) {
          new (m) R(shape, static_cast<const T*>(copy.data()));
        });
        const auto want = expected(v.data(), n, op.in(3, 0, 71));
        return print(s, client, index, op, want, [&](std::ostream& os) {
          return &(os << *o);
        });
      }
      case 3: {
        return n % 2 ? vector<3>(v, op, index) : n % 4 ? vector<8>(v, op, index) : vector<7>(v, op, index);
      }
      default: {
        // Heterogeneous arguments
        const T a = value<T>(op.arg(6), 0);
        const std::string b = n % 2 ? "text" : std::string(n, 'x');
        const int c = int(op.arg(6) % 1000);
        std::ostringstream want;
        const i64 f = op.in(3, 0, 71);
        format(want, f);
        want << a;
        if (n % 4 > 0) {
          want << ", " << b;
        }
        if (n % 4 > 1) {
          want << ", " << c;
        }
        if (n % 4 > 2) {
          want << ", " << a << ", " << 2.5;
        }
        return print(s, client, index, op, want.str(), [&](std::ostream& os) {
          switch (n % 4) {
            case 0:
              Litl::serialize(os, a);
              break;
            case 1:
              Litl::serialize(os, a, b);
              break;
            case 2:
              Litl::serialize(os, a, b, c);
              break;
            default:
              Litl::serialize(os, a, b, c, a, 2.5);
          }
          return &os;
        });
      }
    }
  }
};

template <typename T>
void run(const Scenario& s, int c, Common& m, const Op& op, int index) {
  if (op.name == "print") {
    Printed<T> {s, c}.go(op, index);
  } else {
    Typed<T> t(s, c, m);
    t.go(op, index);
  }
}

void run1(const Scenario& s, int c, Common& m, const Op& op, int index, int type);
void run2(const Scenario& s, int c, Common& m, const Op& op, int index, int type);

#if SIM_PART == 1
void run1(const Scenario& s, int c, Common& m, const Op& op, int index, int type) {
  switch (type) {
    case 0:
      return run<int>(s, c, m, op, index); // INST
    default:
      return run<unsigned char>(s, c, m, op, index); // INST
  }
}
#elif SIM_PART == 2
void run2(const Scenario& s, int c, Common& m, const Op& op, int index, int type) {
  switch (type) {
    case 0:
      return run<double>(s, c, m, op, index); // INST
    default:
      return run<std::complex<float>>(s, c, m, op, index); // INST
  }
}
#else

/// Exceptions of our own: prefix, message, lines
struct Errors : Base {
  struct Slot {
    Obj<Litl::Exception> e;
    std::string text;
  };
  Slot slots[3];
  Errors(const Scenario& sc, int c, Common& m) : Base {sc, c, m} {}

  static std::string words(i64 v) {
    return std::string(std::size_t(v % 5 ? v % 20 : v % 300), char('a' + v % 26));
  }

  void verify() {
    for (auto& t : slots) {
      if (t.e) {
        const char* text;
        {
          Lib lib;
          text = t.e->what();
        }
        check(t.text == text, "message", "the message is \"%s\", should be \"%s\"", text, t.text.c_str());
      }
    }
  }

  void go(const Op& op, int index) {
    auto& t = slots[op.in(1, 0, 2)];
    auto& u = slots[op.in(2, 0, 2)];
    std::string what;
    const i64 how = op.in(0, 0, 7);
    const std::string a = words(op.arg(3)), b = words(op.arg(4));
    if (how < 2 || !t.e) {
      t.e.reset();
      opBegin(s, client, index);
      const auto k = caught(
          [&] {
            t.e.makeBy2([&](void* m) {
              how % 2 ? new (m) Litl::Exception(a, b) : new (m) Litl::Exception(b);
            });
          },
          what);
      judge(k, Kind::None, opEnd(), what, "the construction of an exception");
      if (how % 2) {
        t.text = a + ": " + b;
      } else if (k == Kind::None) {
        t.text = t.e->what();
        check(t.text.size() >= b.size() && t.text.substr(t.text.size() - b.size()) == b, "message", "the message %s is not in the exception", b.c_str());
      }
    } else if (how < 4) {
      const std::size_t indent = std::size_t(op.arg(4) % 4);
      opBegin(s, client, index);
      const auto k = caught(
          [&] {
            indent ? t.e->append(a, indent) : t.e->append(a);
          },
          what);
      judge(k, Kind::None, opEnd(), what, "appending a line");
      const std::string after = t.text + "\n" + std::string(2 * indent, ' ') + a;
      if (k == Kind::None) {
        t.text = after;
        probe("appended");
      } else {
        const std::string now = t.e->what();
        check(after.substr(0, now.size()) == now && now.size() >= t.text.size(), "message", "the message is \"%s\" after a failure", now.c_str());
        t.text = now;
      }
    } else if (how == 4) {
      if (&t == &u) {
        return;
      }
      u.e.reset();
      opBegin(s, client, index);
      const auto k = caught(
          [&] {
            u.e.makeBy2([&](void* m) {
              new (m) Litl::Exception(*t.e);
            });
          },
          what);
      judge(k, Kind::None, opEnd(), what, "the copy of an exception");
      u.text = t.text;
      probe("copied");
    } else if (how == 5) {
      // Thrown by the library's checks, with several types
      const i64 lo = op.in(3, -1000000, 1000000) % 100, hi = lo + op.in(4, 0, 1000000) % 10;
      const i64 v = lo + op.arg(3) % 30 - 10;
      const i64 type = op.arg(4) % 3;
      opBegin(s, client, index);
      const auto k = caught(
          [&] {
            switch (type) {
              case 0:
                return Litl::OutOfBoundsError::mayThrow("index", v, {lo, hi});
              case 1:
                return Litl::OutOfBoundsError::mayThrow("int", int(v), {int(lo), int(hi)});
              default:
                return Litl::OutOfBoundsError::mayThrow("real", double(v), {double(lo), double(hi)});
            }
          },
          what);
      judge(k, v >= lo && v <= hi ? Kind::None : Kind::Bounds, opEnd(), what, "the check of bounds");
      if (type < 2) {
        judgeBounds(k, what, std::to_string(v), std::to_string(lo), std::to_string(hi));
      } else {
        judgeBounds(k, what, std::to_string(double(v)), std::to_string(double(lo)), std::to_string(double(hi)));
      }
    } else {
      // Read by all
      const char* text;
      {
        Lib lib;
        text = (how == 6 ? *common.error : *common.shared).what();
      }
      check(common.text == text, "message", "the message of a shared exception is \"%s\"", text);
      const i64 n = i64(common.v.size());
      const i64 i = op.arg(3) % (4 * n) - 2 * n;
      int got = 0;
      opBegin(s, client, index);
      auto k = caught(
          [&] {
            got = const_cast<const Litl::Sequence<int>&>(*common.sequence).at(i);
          },
          what);
      judge(k, i >= -n && i < n ? Kind::None : Kind::Bounds, opEnd(), what, "at() of a shared sequence");
      check(k != Kind::None || got == common.v[std::size_t(i < 0 ? i + n : i)], "at", "at(%ld) of a shared sequence is wrong", long(i));
      judgeBounds(k, what, std::to_string(i), std::to_string(-n), std::to_string(n - 1));
      Pos p, q;
      std::size_t axis = 9;
      for (std::size_t j = 0; j < common.shape.size(); ++j) {
        const i64 l = common.shape[j];
        p.push_back((op.arg(4) + i64(j) * 7) % (2 * l + 2) - l - 1);
        q.push_back(p.back() < 0 ? p.back() + l : p.back());
        if ((p.back() < -l || p.back() >= l) && axis == 9) {
          axis = j;
        }
      }
      const auto pos = position<-1>(p);
      double w = 0;
      opBegin(s, client, index);
      k = caught(
          [&] {
            w = const_cast<const Litl::Raster<double, -1>&>(*common.variable).at(pos);
          },
          what);
      judge(k, axis == 9 ? Kind::None : Kind::Bounds, opEnd(), what, "at() of a shared raster");
      if (axis == 9) {
        check(k != Kind::None || w == common.w[std::size_t(indexOf(common.shape, q))], "at", "at(%s) of a shared raster is wrong", sim::str(p).c_str());
      } else {
        judgeBounds(k, what, std::to_string(p[axis]), std::to_string(-common.shape[axis]), std::to_string(common.shape[axis] - 1));
      }
      probe("shared");
    }
    verify();
  }
};

struct Stop {
  int at;
};

struct Triple {
  double a, b, c;
};

/// Helpers which call a function at each element of a sequence or tuple
struct Helpers {
  const Scenario& s;
  int client;
  const std::vector<int>& shared;

  /// What the function saw; it throws at some call
  struct Log {
    i64 stop;
    std::vector<double> seen;
    double see(double v) {
      Pause pause;
      if (i64(seen.size()) == stop) {
        seen.push_back(v);
        countFault("callback_throws");
        noteFault();
        throw Stop {int(stop)};
      }
      seen.push_back(v);
      return 3 * v + 1;
    }
    double operator()(int v) {
      return see(v);
    }
    double operator()(double v) {
      return see(v);
    }
    double operator()(const std::string& v) {
      return see(double(v.size()));
    }
  };
  /// A function which writes
  struct Writer {
    Log& log;
    void operator()(int& v) {
      v = int(log(v));
    }
    void operator()(double& v) {
      v = log(v);
    }
    void operator()(std::string& v) {
      const auto n = std::size_t(log(v));
      Pause pause;
      v.assign(n, 'y');
    }
  };

  void verify(const Log& log, const std::vector<double>& all, bool threw, bool oom, const char* what) {
    trace("%s: %zu calls of %zu, %s", what, log.seen.size(), all.size(), threw ? "threw" : oom ? "bad_alloc" : "ok");
    const bool stops = log.stop < i64(all.size());
    check(oom || threw == stops, stops ? "swallowed" : "exception", "%s: the exception of the function %s", what, stops ? "was lost" : "came out of nowhere");
    const std::size_t n = oom ? log.seen.size() : stops ? std::size_t(log.stop + 1) : all.size();
    check(log.seen.size() == n && n <= all.size(), "call-count", "%s: %zu calls for %zu elements", what, log.seen.size(), all.size());
    for (std::size_t i = 0; i < n; ++i) {
      check(log.seen[i] == all[i], "call-order", "%s: call %zu got %g, should be %g", what, i, log.seen[i], all[i]);
    }
    probe(threw ? "helper_threw" : "helper");
  }

  template <typename F>
  void call(int index, const std::vector<double>& all, Log& log, const char* what, bool& done, F&& f) {
    bool threw = false, oom = false;
    opBegin(s, client, index);
    try {
      Lib lib;
      f();
    } catch (const Stop& e) {
      threw = true;
      check(e.at == log.stop, "exception", "%s: another exception came", what);
    } catch (const std::bad_alloc&) {
      oom = true;
    }
    const int fired = opEnd();
    check(!oom || fired, "spurious-exception", "%s: bad_alloc without any failure", what);
    verify(log, all, threw, oom, what);
    done = !threw && !oom;
  }

  void go(const Op& op, int index) {
    const i64 seed = op.arg(1);
    Log log {op.in(2, 0, 9), {}};
    Writer writer {log};
    bool done = false;
    const auto v = values<int>(seed, std::size_t(op.in(3, 0, 9)));
    std::vector<double> all(v.begin(), v.end());
    const int a = int(seed % 100);
    const double b = double(seed % 77) + .5;
    const std::string c(std::size_t(seed % 50), 'x');
    const std::vector<double> three {double(a), b, double(c.size())};
    std::tuple<int, double, std::string> t(a, b, c);
    const auto& k = t;
    std::array<int, 4> array {{a, a + 1, a + 2, a + 3}};
    const std::vector<double> four {a + 0., a + 1., a + 2., a + 3.};
    std::vector<int> w = v;
    switch (op.in(0, 0, 9)) {
      case 0:
        call(index, all, log, "seqForeach of a constant vector", done, [&] {
          Litl::seqForeach(v, log);
        });
        return;
      case 1:
        call(index, all, log, "seqForeach of a vector", done, [&] {
          Litl::seqForeach(w, writer);
        });
        for (std::size_t i = 0; i < w.size(); ++i) {
          check(w[i] == (i64(i) < log.stop ? 3 * v[i] + 1 : v[i]), "values", "element %zu is wrong after seqForeach", i);
        }
        return;
      case 2:
        call(index, three, log, "seqForeach of a constant tuple", done, [&] {
          Litl::seqForeach(k, log);
        });
        check(k == std::make_tuple(a, b, c), "values", "seqForeach changed a constant tuple");
        return;
      case 3:
        call(index, three, log, "seqForeach of a tuple", done, [&] {
          Litl::seqForeach(t, writer);
        });
        check(std::get<0>(t) == (log.stop > 0 ? 3 * a + 1 : a) && std::get<1>(t) == (log.stop > 1 ? 3 * b + 1 : b) &&
                  std::get<2>(t).size() == (log.stop > 2 ? 3 * c.size() + 1 : c.size()),
              "values", "the tuple is wrong after seqForeach");
        return;
      case 4:
        call(index, four, log, "seqForeach of an array", done, [&] {
          Litl::seqForeach(array, writer);
        });
        for (int i = 0; i < 4; ++i) {
          check(array[std::size_t(i)] == (i < log.stop ? 3 * (a + i) + 1 : a + i), "values", "element %d is wrong after seqForeach", i);
        }
        return;
      case 5: {
        Obj<std::vector<double>> out;
        call(index, all, log, "seqTransform of a vector", done, [&] {
          out.makeBy2([&](void* m) {
            new (m) std::vector<double>(Litl::seqTransform<std::vector<double>>(v, [&](int e) {
              return log(e);
            }));
          });
        });
        if (done) {
          check(out->size() == v.size(), "size", "seqTransform gives %zu elements of %zu", out->size(), v.size());
          for (std::size_t i = 0; i < v.size(); ++i) {
            check((*out)[i] == 3 * v[i] + 1, "values", "element %zu is wrong after seqTransform", i);
          }
        }
        return;
      }
      case 6: {
        Triple out {};
        call(index, three, log, "seqTransform of a tuple", done, [&] {
          out = Litl::seqTransform<Triple>(k, log);
        });
        check(!done || (out.a == 3 * a + 1 && out.b == 3 * b + 1 && out.c == 3. * double(c.size()) + 1), "values", "seqTransform of a tuple is wrong");
        return;
      }
      case 7: {
        // A variadic function, by reference
        const std::vector<double> one {a + b + double(c.size())};
        double out = 0;
        call(index, one, log, "tupleApply", done, [&] {
          out = Litl::tupleApply(t, [&](int& x, double& y, std::string& z) {
            const double r = log(x + y + double(z.size()));
            x = 1;
            y = 2;
            return r;
          });
        });
        check(!done || out == 3 * one[0] + 1, "values", "tupleApply gives %g", out);
        check(t == (done ? std::make_tuple(1, 2., c) : std::make_tuple(a, b, c)), "values", "the tuple is wrong after tupleApply");
        return;
      }
      case 8: {
        // Iterators
        const auto& x = shared;
        std::vector<double> y(x.size());
        auto it = std::make_tuple(x.begin(), y.begin());
        std::vector<double> seen(x.begin(), x.end());
        std::size_t calls = 0;
        call(index, seen, log, "iteratorTupleApply", done, [&] {
          for (; calls < x.size(); ++calls) {
            Litl::iteratorTupleApply(it, [&](const int& e, double& out) {
              out = log(e);
            });
          }
        });
        check(!done || (std::get<0>(it) == x.end() && std::get<1>(it) == y.end()), "iterators", "the iterators are not at the end");
        for (std::size_t i = 0; i < x.size(); ++i) {
          check(y[i] == (i < calls ? 3. * x[i] + 1 : 0.), "values", "element %zu is wrong after iteratorTupleApply", i);
        }
        return;
      }
      default: {
        const std::tuple<double, int, float> source(b, a, 2.5f);
        Triple out {};
        Litl::seqForeach(std::make_tuple(1, 2), [&](int) {});
        {
          Lib lib;
          out = Litl::tupleAs<Triple>(std::make_tuple(b, double(a), 2.5));
        }
        check(out.a == b && out.b == a && out.c == 2.5, "values", "tupleAs is wrong");
        probe("tuple_as");
      }
    }
  }
};

void execute(const Scenario& s) {
  setBudget(40000000);
  {
    Common m;
    const i64 seed = s.in("seed", 0, 100000);
    m.v = values<int>(seed, std::size_t(seed % 9 + 1));
    m.shape = {seed % 3 + 1, seed / 3 % 3 + 1, seed / 9 % 3 + 1};
    m.w = values<double>(seed, std::size_t(count(m.shape)));
    m.text = "Prefix " + std::to_string(seed) + ": a message\n  and a line of it";
    const auto shape = position<-1>(m.shape);
    m.sequence.makeBy2([&](void* p) {
      new (p) Litl::Sequence<int>(m.v.size(), m.v.data());
    });
    m.variable.makeBy2([&](void* p) {
      new (p) Litl::Raster<double, -1>(shape, m.w.data());
    });
    const std::string prefix = "Prefix " + std::to_string(seed);
    m.error.makeBy2([&](void* p) {
      auto* e = new (p) Litl::Exception(prefix, "a message");
      e->append("and a line of it", 1);
    });
    m.shared.makeBy2([&](void* p) {
      new (p) Litl::Exception(*m.error);
    });
    runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
      Errors errors(s, c, m);
      const auto& ops = s.clients[std::size_t(c)];
      for (std::size_t i = 0; i < ops.size(); ++i) {
        const auto& op = ops[i];
        const int type = int(op.a.size() > 7 ? op.in(7, 0, 3) : s.in("type", 0, 3, std::size_t(c)));
        trace("%s %ld %ld %ld %ld", op.name.c_str(), op.arg(0), op.arg(1), op.arg(2), op.arg(3));
        if (op.name == "helper") {
          Helpers {s, c, m.v}.go(op, int(i));
        } else if (op.name == "error") {
          errors.go(op, int(i));
        } else if (op.name == "common") {
          Op p = op;
          p.a.resize(7);
          const auto want = expected(m.v.data(), m.v.size(), p.in(3, 0, 71));
          print(s, c, int(i), p, want, [&](std::ostream& os) {
            return &(os << *m.sequence);
          });
          probe("shared");
        } else {
          type < 2 ? run1(s, c, m, op, int(i), type) : run2(s, c, m, op, int(i), type - 2);
        }
      }
    });
    same(*m.sequence, m.v, "the shared sequence");
    same(*m.variable, m.w, "the shared raster");
  }
  checkNoLeak("the wrong calls");
}

void faults(Scenario& s, Rng& r) {
  for (std::size_t c = 0; c < s.clients.size(); ++c) {
    if (r.chance(1, 2)) {
      for (std::size_t i = 0; i < s.clients[c].size(); ++i) {
        if (r.chance(1, 3)) {
          s.fault("alloc", {i64(c), i64(i), r.range(0, 8), r.range(1, 3)});
        }
      }
    }
  }
}

void generate25(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 3) ? int(r.range(2, 3)) : 1;
  s.set("seed", {r.range(0, 100000)});
  std::vector<i64> types;
  for (int c = 0; c < n; ++c) {
    types.push_back(r.range(0, 3));
    const int len = int(r.range(2, tier ? 40 : 16));
    for (int i = 0; i < len; ++i) {
      if (r.chance(1, 3)) {
        s.op(std::size_t(c), "error", {r.range(0, 7), r.range(0, 2), r.range(0, 2), r.range(0, 100000), r.range(0, 100000)});
      } else {
        const i64 k = r.range(0, 17);
        const i64 a = r.range(k == 12 ? -1 : 0, k == 12 ? 40 : 100000);
        s.op(std::size_t(c), "call", {k > 13 ? 20 : k, r.range(1, 4), a, r.range(0, 9), r.range(0, k == 11 ? 9 : 3), r.range(0, 100000)});
      }
    }
  }
  s.set("type", types);
  faults(s, r);
}

void generate26(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 3) ? int(r.range(2, 3)) : 1;
  s.set("seed", {r.range(0, 100000)});
  std::vector<i64> types;
  for (int c = 0; c < n; ++c) {
    types.push_back(r.range(0, 3));
    const int len = int(r.range(1, tier ? 30 : 12));
    for (int i = 0; i < len; ++i) {
      if (r.chance(1, 3)) {
        s.op(std::size_t(c), "helper", {r.range(0, 9), r.range(0, 100000), r.chance(1, 2) ? 9 : r.range(0, 8), r.range(0, 9)});
        continue;
      }
      const i64 capacity = r.chance(1, 2) ? -1 : r.range(0, r.chance(1, 2) ? 10 : 60);
      s.op(std::size_t(c), r.chance(1, 6) ? "common" : "print",
           {r.range(0, 4), 0, r.chance(1, 5) ? r.range(0, 40) : r.range(0, 9), r.range(0, 71), capacity, r.range(0, 3), r.range(0, 100000)});
    }
  }
  s.set("type", types);
  faults(s, r);
}

Register reg25("C25", generate25, execute);
Register reg26("C26", generate26, execute);
#endif

} // namespace simerrors
