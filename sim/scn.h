// Shared helpers of the scenario files (compiled with instrumentation).
#ifndef SCN_H
#define SCN_H

#include "simrt.h"

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

enum class Res { Ok, Oom, Error };

inline const char* str(Res r) {
  return r == Res::Ok ? "ok" : r == Res::Oom ? "bad_alloc" : "exception";
}

/// Run library code; translate exceptions.
template <typename F>
Res guarded(F&& f, std::string* what = nullptr) {
  try {
    Lib lib;
    f();
    return Res::Ok;
  } catch (const std::bad_alloc& e) {
    if (what) {
      *what = "std::bad_alloc";
    }
    return Res::Oom;
  } catch (const std::exception& e) {
    if (what) {
      *what = e.what();
    }
    return Res::Error;
  }
}

/// Library object living in the simulated heap, in memory owned by the harness.
template <typename T>
class Obj {
public:
  Obj() : p(nullptr) {}
  ~Obj() {
    reset();
  }
  Obj(const Obj&) = delete;
  Obj(Obj&& o) : p(o.p) {
    o.p = nullptr;
  }
  Obj& operator=(Obj&& o) {
    reset();
    p = o.p;
    o.p = nullptr;
    return *this;
  }
  /// Constructs; may throw what the constructor throws
  template <typename... A>
  T& make(A&&... a) {
    reset();
    void* m = userAlloc(sizeof(T), std::max<std::size_t>(alignof(T), 16));
    try {
      Lib lib;
      p = new (m) T(std::forward<A>(a)...);
    } catch (...) {
      p = nullptr;
      userFree(m);
      throw;
    }
    return *p;
  }
  /// Constructs from what f returns
  template <typename F>
  T& makeBy(F&& f) {
    reset();
    void* m = userAlloc(sizeof(T), std::max<std::size_t>(alignof(T), 16));
    try {
      Lib lib;
      p = new (m) T(f());
    } catch (...) {
      p = nullptr;
      userFree(m);
      throw;
    }
    return *p;
  }
  /// Constructs in place by f(memory)
  template <typename F>
  T& makeBy2(F&& f) {
    reset();
    void* m = userAlloc(sizeof(T), std::max<std::size_t>(alignof(T), 16));
    try {
      Lib lib;
      f(m);
      p = static_cast<T*>(m);
    } catch (...) {
      p = nullptr;
      userFree(m);
      throw;
    }
    return *p;
  }
  void reset() {
    if (p) {
      {
        Lib lib;
        p->~T();
      }
      userFree((void*)p);
      p = nullptr;
    }
  }
  explicit operator bool() const {
    return p;
  }
  T& operator*() const {
    return *p;
  }
  T* operator->() const {
    return p;
  }
  T* get() const {
    return p;
  }

private:
  T* p;
};

template <typename T>
struct ValueOf {
  static T make(i64 v) {
    return T(v);
  }
};
template <typename T>
struct ValueOf<std::complex<T>> {
  static std::complex<T> make(i64 v) {
    return {T(v), T(v * 3 + 1)};
  }
};
template <typename T>
T val(i64 v) {
  return ValueOf<T>::make(v);
}

/// Make images long, sometimes
inline void maybeLong(Scenario& s, Rng& r, int chance, i64 max = 300) {
  if (r.chance(1, chance)) {
    s.set("long", {r.range(0, 3), r.range(1, max)});
  }
}

inline std::string vec(const std::vector<i64>& v) {
  std::string o = "(";
  for (std::size_t i = 0; i < v.size(); ++i) {
    o += (i ? "," : "") + std::to_string(v[i]);
  }
  return o + ")";
}

} // namespace sim

#endif
