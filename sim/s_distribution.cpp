// SIM_PARTS 3
// C19: histories of queries of data distributions, several of the same data, with allocation failures.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace simdistribution {

constexpr int Slots = 3;

template <typename T>
T valueOf(i64 v) {
  return T(v);
}
template <> inline
double valueOf<double>(i64 v) {
  return double(v) / 4;
}
template <> inline
float valueOf<float>(i64 v) {
  return float(v) / 4;
}
template <> inline
unsigned char valueOf<unsigned char>(i64 v) {
  return (unsigned char)(((v % 256) + 256) % 256);
}
template <> inline
signed char valueOf<signed char>(i64 v) {
  return (signed char)(v % 128);
}
template <> inline
std::int16_t valueOf<std::int16_t>(i64 v) {
  return std::int16_t(v % 32768);
}
template <> inline
std::uint16_t valueOf<std::uint16_t>(i64 v) {
  return std::uint16_t(((v % 65536) + 65536) % 65536);
}
template <> inline
std::uint32_t valueOf<std::uint32_t>(i64 v) {
  return std::uint32_t(u64(v));
}
template <> inline
std::int64_t valueOf<std::int64_t>(i64 v) {
  return (v % 1000000) * 1000000007ll;
}
template <> inline
std::uint64_t valueOf<std::uint64_t>(i64 v) {
  return u64(v) % (1ull << 50);
}
template <> inline
long double valueOf<long double>(i64 v) {
  return (long double)(v) / 3;
}

/// Value number i of large samples
inline i64 many(i64 i) {
  return i64((u64(i) * 2654435761u >> 7) % 241) - 120;
}

template <typename T>
struct World {
  using Dist = Litl::DataDistribution<T>;
  using Ref = long double;
  using Floating = typename Litl::TypeTraits<T>::Floating;

  struct Slot {
    Obj<Dist> o;
    std::vector<T> sorted;
  };
  const Scenario& s;
  int client;
  Slot slots[Slots];
  const Litl::Raster<T, 2>* raster;
  const std::vector<T>* source;

  World(const Scenario& sc, int c) : s(sc), client(c) {}

  static Ref quantileOf(const std::vector<Ref>& v, Ref q) {
    const Ref n = q * Ref(v.size() - 1);
    const std::size_t f = std::size_t(n);
    return f + 1 >= v.size() ? v.back() : v[f] + (n - Ref(f)) * (v[f + 1] - v[f]);
  }

  void close(const char* what, Ref got, Ref want, Ref scale) {
    const Ref eps = std::is_same<Floating, float>::value ? std::max(1e-5L, Ref(n) * 1.2e-7L) : std::max(1e-12L, Ref(n) * 2.3e-16L);
    check(std::isfinite(got) && std::fabs(got - want) <= eps * (scale + 1e-6L), what, "%s of %zu values is %.12Lg, should be %.12Lg", what, n,
          got, want);
  }
  std::size_t n = 0;

  void run(const Op& op, int index) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s slot %ld %ld", k.c_str(), op.arg(0), op.arg(1));
    const bool fresh = k == "new" || k == "fill" || !t.o;
    opBegin(s, client, index);
    if (fresh) {
      std::vector<T> values;
      bool shared = false;
      Res r = Res::Ok;
      try {
        const i64 how = op.in(1, 0, 3);
        if (k == "fill") { // Many values
          for (i64 i = 0; i < op.in(2, 1, 5000); ++i) {
            values.push_back(valueOf<T>(many(i + op.arg(3))));
          }
          t.o.makeBy([&] {
            return Dist(std::vector<T>(values));
          });
        } else if (how == 0 && k == "new") { // Values in the operation itself
          for (std::size_t i = 2; i < op.a.size(); ++i) {
            values.push_back(valueOf<T>(op.a[i]));
          }
          if (values.empty()) {
            values.push_back(valueOf<T>(3));
          }
          t.o.makeBy([&] {
            return Dist(std::vector<T>(values));
          });
        } else { // The shared raster
          shared = true;
          values = *source;
          if (how == 1) {
            t.o.makeBy([&] {
              return raster->distribution();
            });
          } else {
            t.o.makeBy([&] {
              return Dist(*raster);
            });
          }
        }
      } catch (const std::bad_alloc&) {
        r = Res::Oom;
      }
      const int fired = opEnd();
      check(r == Res::Ok || fired, "exception", "construction threw");
      if (r != Res::Ok) {
        t.o.reset();
        probe("construction_oom");
        return;
      }
      probe(shared ? "of_shared_raster" : "of_values");
      t.sorted = values;
      std::sort(t.sorted.begin(), t.sorted.end());
      return;
    }
    if (k == "copy") {
      auto& u = slots[op.in(1, 0, Slots - 1)];
      bool ok = &u != &t;
      if (ok) {
        u.o.reset();
        try {
          u.o.makeBy([&] {
            return Dist(*t.o);
          });
        } catch (const std::bad_alloc&) {
          ok = false;
        }
      }
      const int fired = opEnd();
      check(ok || fired || &u == &t, "exception", "copy threw");
      if (ok) {
        u.sorted = t.sorted;
        probe("copied");
      }
      return;
    }
    const auto& v = t.sorted;
    n = v.size();
    std::vector<Ref> x(v.begin(), v.end());
    Ref sum = 0, big = 0;
    for (auto e : x) {
      sum += e;
      big = std::max(big, std::fabs(e));
    }
    const Ref mean = sum / Ref(n);
    Ref dev = 0;
    for (auto e : x) {
      dev += (e - mean) * (e - mean);
    }
    const double q = double(op.in(1, 0, 64)) / 64.;
    const std::size_t nth = std::size_t(op.in(1, 0, i64(n) - 1));
    const bool unbiased = op.arg(1) % 2 && n > 1;
    std::vector<double> bins;
    if (k == "histogram") {
      double b = double(op.in(1, -50, 50));
      for (i64 i = 0; i < op.in(2, 2, 8); ++i) {
        bins.push_back(b);
        b += double(op.in(3 + std::size_t(i % 2), 1, 200)) / 4;
      }
      if (op.arg(5) % 2) {
        bins.back() = std::max(bins[bins.size() - 2], double(x.back())); // Ends at the maximum
      }
    }
    T value = T(0);
    Floating real = 0;
    std::vector<std::size_t> hist;
    std::string msg;
    Res r = guarded(
        [&] {
          auto& d = *t.o;
          if (k == "min") {
            value = d.min();
          } else if (k == "max") {
            value = d.max();
          } else if (k == "nth") {
            value = d.nth(nth);
          } else if (k == "sum") {
            value = d.sum();
          } else if (k == "mean") {
            real = d.mean();
          } else if (k == "median") {
            real = d.median();
          } else if (k == "quantile") {
            real = d.quantile(q);
          } else if (k == "variance") {
            real = unbiased ? d.variance() : d.variance(false);
          } else if (k == "mad") {
            real = d.mad();
          } else if (k == "histogram") {
            hist = d.histogram(bins);
          } else if (k == "sort") {
            d.sort();
          }
        },
        &msg);
    const int fired = opEnd();
    check(r == Res::Ok || (r == Res::Oom && fired), "exception", "%s threw %s", k.c_str(), msg.c_str());
    if (r != Res::Ok) {
      probe("query_oom");
      return;
    }
    probe(k.c_str());
    check(t.o->size() == n, "size", "the distribution of %zu values has size %zu", n, t.o->size());
    if (k == "min") {
      check(value == v[0], "min", "min is %Lg, should be %Lg", Ref(value), x[0]);
    } else if (k == "max") {
      check(value == v[n - 1], "max", "max is %Lg, should be %Lg", Ref(value), x[n - 1]);
    } else if (k == "nth") {
      check(value == v[nth], "nth", "value %zu is %Lg, should be %Lg", nth, Ref(value), x[nth]);
    } else if (k == "sum") {
      checkSum(value, v, sum, big);
    } else if (k == "mean") {
      close("mean", real, mean, big);
    } else if (k == "median") {
      close("median", real, quantileOf(x, 0.5L), big);
    } else if (k == "quantile") {
      close("quantile", real, quantileOf(x, Ref(q)), big);
    } else if (k == "variance") {
      close("variance", real, dev / Ref(n - unbiased), big * big);
      check(real >= 0, "variance", "the variance is %Lg", Ref(real));
    } else if (k == "mad") {
      const Ref m = quantileOf(x, 0.5L);
      std::vector<Ref> a;
      for (auto e : x) {
        a.push_back(std::fabs(e - m));
      }
      std::sort(a.begin(), a.end());
      close("mad", real, quantileOf(a, 0.5L), big);
    } else if (k == "histogram") {
      check(hist.size() == bins.size() - 1, "histogram", "the histogram has %zu bins, should have %zu", hist.size(), bins.size() - 1);
      for (std::size_t i = 0; i + 1 < bins.size(); ++i) {
        std::size_t want = 0;
        for (auto e : x) {
          want += (e >= bins[i] && e < bins[i + 1]) || (i + 2 == bins.size() && e == bins[i + 1]);
        }
        check(hist[i] == want, "histogram", "bin %zu, [%g, %g%c has %zu values, should have %zu", i, bins[i], bins[i + 1],
              i + 2 == bins.size() ? ']' : '[', hist[i], want);
      }
    }
  }

  /// Integral sums are those of the type, whatever the order
  void checkSum(T value, const std::vector<T>& v, Ref sum, Ref big) {
    if (std::is_floating_point<T>::value) {
      check(std::fabs(Ref(value) - sum) <= Ref(std::numeric_limits<T>::epsilon()) * 2 * Ref(v.size()) * Ref(v.size()) * big, "sum", "sum is %Lg, should be %Lg", Ref(value), sum);
    } else {
      T want = T(0);
      for (auto e : v) {
        want = T(u64(want) + u64(e));
      }
      check(value == want, "sum", "sum is %Lg, should be %Lg", Ref(value), Ref(want));
    }
  }

  void runAll() {
    const auto& ops = s.clients[std::size_t(client)];
    for (std::size_t i = 0; i < ops.size(); ++i) {
      run(ops[i], int(i));
    }
    const char* last[] = {"min", "max", "sum", "mean", "median", "mad", "variance"};
    for (i64 i = 0; i < Slots; ++i) {
      if (slots[i].o) {
        for (auto k : last) {
          run({k, {i, 0}}, -1);
        }
        mix(slots[i].sorted.size());
      }
    }
  }
};

template <typename T>
void go(const Scenario& s) {
  const auto w = s.in("shape", 1, 99, 0), h = s.in("shape", 1, 99, 1);
  Obj<Litl::Raster<T, 2>> raster;
  raster.makeBy([&] {
    return Litl::Raster<T, 2>({w, h});
  });
  std::vector<T> source;
  for (i64 i = 0; i < w * h; ++i) {
    source.push_back(valueOf<T>(s.param("data", many(i), std::size_t(i))));
    raster->data()[i] = source.back();
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    World<T> w(s, c);
    w.raster = raster.get();
    w.source = &source;
    w.runAll();
  });
  for (i64 i = 0; i < w * h; ++i) {
    check(raster->data()[i] == source[std::size_t(i)], "source-changed", "value %ld of the source container was changed", i);
  }
  raster.reset();
  checkNoLeak("the distributions");
}

void part1(const Scenario& s, int type);
void part2(const Scenario& s, int type);
#if SIM_PART == 1
void part1(const Scenario& s, int type) {
  switch (type) {
    case 0:
      return go<double>(s); // INST
    case 1:
      return go<float>(s); // INST
    default:
      return go<std::uint16_t>(s); // INST
  }
}
#elif SIM_PART == 2
void part2(const Scenario& s, int type) {
  switch (type) {
    case 7:
      return go<std::uint32_t>(s); // INST
    case 8:
      return go<std::int64_t>(s); // INST
    case 9:
      return go<std::uint64_t>(s); // INST
    default:
      return go<long double>(s); // INST
  }
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int type = int(s.in("type", 0, 10));
  switch (type) {
    case 3:
      return go<int>(s); // INST
    case 4:
      return go<signed char>(s); // INST
    case 5:
      return go<unsigned char>(s); // INST
    case 6:
      return go<std::int16_t>(s); // INST
    default:
      (type < 3 ? part1 : part2)(s, type);
  }
}

i64 someValue(Rng& r, int kind) {
  switch (kind) {
    case 0:
      return r.range(-3, 3);
    case 1:
      return r.range(-120, 120);
    case 2:
      return r.range(0, 2);
    case 3:
      return r.range(-30000, 30000);
    default:
      return r.chance(1, 2) ? 7 : r.range(-1000, 1000);
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  static const char* queries[] = {"min", "max", "nth", "sum", "mean", "median", "quantile", "variance", "mad", "histogram", "sort"};
  const int type = int(r.range(0, 10));
  s.set("type", {type});
  const bool large = r.chance(1, 25);
  s.set("shape", {r.range(1, large ? 80 : 6), r.range(1, large ? 50 : 5)});
  std::vector<i64> data;
  const int kind = int(r.range(0, 4));
  for (int i = 0; i < 30; ++i) {
    data.push_back(someValue(r, kind));
  }
  s.set("data", data);
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(3, tier ? 30 : 15));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.range(0, Slots - 1);
      const i64 what = i == 0 ? 0 : r.range(0, 14);
      if (what == 1 && r.chance(1, 20)) {
        s.op(cc, "fill", {slot, 0, r.range(1, 3000), r.range(0, 999)});
      } else if (what < 2) {
        std::vector<i64> a = {slot, r.range(0, 3)};
        if (a[1] == 0) {
          const int kk = int(r.range(0, 4));
          const i64 count = r.chance(1, 5) ? r.range(30, 60) : r.range(1, 12);
          for (i64 j = 0; j < count; ++j) {
            a.push_back(someValue(r, kk));
          }
          if (r.chance(1, 8)) {
            std::sort(a.begin() + 2, a.end());
          }
        }
        s.op(cc, "new", a);
      } else if (what == 2) {
        s.op(cc, "copy", {slot, r.range(0, Slots - 1)});
      } else {
        const char* k = queries[r.next() % 11];
        if (k == std::string("sort") && r.chance(2, 3)) {
          k = "nth";
        }
        s.op(cc, k, {slot, r.range(k == std::string("histogram") ? -50 : 0, 64), r.range(2, 7), r.range(1, 200), r.range(1, 60), r.range(0, 1)});
        if (r.chance(1, 4)) {
          s.fault("alloc", {c, i64(s.clients[cc].size()) - 1, r.chance(2, 3) ? 0 : r.range(0, 2), r.range(1, 2)});
        }
      }
    }
  }
}

Register reg("C19", generate, execute);
#endif

} // namespace simdistribution
