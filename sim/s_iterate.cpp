// SIM_PARTS 3
// C21: several live iterators over shared or own regions, copied in mid-course, on several threads.
#include "LitlRaster/Ball.h"
#include "LitlRaster/Raster.h"

#include "scn.h"

using namespace sim;

namespace simiterate {

constexpr int Slots = 4;
constexpr int MaxRegions = 3;

/// One dimensional position as the harness sees it
using Pos = std::vector<i64>;

template <Litl::Index N>
Litl::Position<N> position(const Pos& p) {
  Litl::Position<N> out = Litl::Position<N>(Litl::Index(p.size()));
  for (std::size_t i = 0; i < p.size(); ++i) {
    out[i] = p[i];
  }
  return out;
}

/// All the positions of a box, first axis fastest
inline std::vector<Pos> positions(const Pos& front, const Pos& back) {
  std::vector<Pos> out;
  Pos p = front;
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (back[i] < front[i]) {
      return out;
    }
  }
  while (true) {
    out.push_back(p);
    std::size_t i = 0;
    for (; i < p.size(); ++i) {
      if (++p[i] <= back[i]) {
        break;
      }
      p[i] = front[i];
    }
    if (i == p.size()) {
      return out;
    }
  }
}

/// Description of a region in the scenario
struct Desc {
  int dim;
  Pos front, back; ///< Of the box
  double radius;
  i64 limit; ///< For balls just smaller or larger than the distance of some position: the sign
};

inline Desc describe(const Scenario& s, int index, int dim) {
  Desc d;
  d.dim = dim;
  const std::string k = "region" + std::to_string(index);
  for (std::size_t i = 0; i < std::size_t(dim); ++i) {
    d.front.push_back(s.in(k, -50, 50, 2 * i));
    d.back.push_back(d.front.back() + s.in(k, -1, dim > 2 ? 3 : 7, 2 * i + 1));
  }
  const i64 extra = s.in("long", 0, 400, 1);
  if (extra) { // One long axis
    for (std::size_t i = 0; i < std::size_t(dim); ++i) {
      d.back[i] = std::min(d.back[i], d.front[i] + 2);
    }
    d.back[std::size_t(s.in("long", 0, dim - 1, 0))] += extra;
  }
  const i64 far = s.in("far", -6000000000, 6000000000); // Beyond 32 bits
  for (std::size_t i = 0; i < std::size_t(dim); ++i) {
    d.front[i] += i % 2 ? -far : far;
    d.back[i] += i % 2 ? -far : far;
  }
  d.radius = double(s.in(k, 0, dim == 3 ? 14 : dim == 2 ? 64 : 600, 8)) / 4.;
  d.limit = s.in("limit", -1, 1, std::size_t(index) % 4);
  return d;
}

// Region kinds: how to make, expected positions, how to look at an iterator

template <Litl::Index N>
struct BoxKind {
  using Region = Litl::Box<N>;
  using Iterator = typename Region::Iterator;
  static Region make(const Desc& d) {
    return Region(position<N>(d.front), position<N>(d.back));
  }
  static std::vector<Pos> expected(const Desc& d) {
    return positions(d.front, d.back);
  }
  static bool same(const Litl::Position<N>& got, const Pos& want) {
    if (got.size() != want.size()) {
      return false;
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
      if (got[i] != want[i]) {
        return false;
      }
    }
    return true;
  }
  static bool same(const Region&, const Iterator& it, const Pos& want) {
    return same(*it, want) && same(*it.operator->(), want);
  }
  template <typename R>
  static bool same(const R&, const Litl::Position<N>* p, const Pos& want) { // In case ++ returns no iterator
    return same(*p, want);
  }
  static bool reset(Iterator& it) {
    it.reset();
    return true;
  }
};

template <Litl::Index N>
struct LineKind : BoxKind<N> {
  using Region = Litl::Box<N>;
  static Region make(const Desc& d) {
    const Region box(position<N>(d.front), position<N>(d.back));
    return Litl::project(box, d.dim - 1);
  }
  static std::vector<Pos> expected(const Desc& d) {
    Pos back = d.back;
    back[std::size_t(d.dim - 1)] = d.front[std::size_t(d.dim - 1)];
    return positions(d.front, back);
  }
};

template <Litl::Index N, Litl::Index P>
struct BallKind {
  using Region = Litl::Ball<N, P>;
  using Iterator = typename Region::Iterator;
  static double radius(const Desc& d) {
    const i64 r = i64(d.radius);
    if (d.limit == 0 || r == 0) {
      return d.radius;
    }
    return (P == 2 ? std::sqrt(double(r * r + r / 2)) : double(r)) + double(d.limit) * 1e-9;
  }
  static Region make(const Desc& d) {
    return Region(radius(d), position<N>(d.front));
  }
  static std::vector<Pos> expected(const Desc& d) {
    Pos f = d.front, b = d.front;
    for (auto& e : f) {
      e -= i64(d.radius) + 2;
    }
    for (auto& e : b) {
      e += i64(d.radius) + 2;
    }
    std::vector<Pos> out;
    const i64 r4 = i64(d.radius * 4), r = i64(d.radius);
    const i64 limit = (P == 1 ? r : r * r + r / 2) * 16; // Square of the radius, or radius, times 16
    for (auto& p : positions(f, b)) {
      i64 n = 0;
      for (std::size_t i = 0; i < p.size(); ++i) {
        const i64 e = std::abs(p[i] - d.front[i]) * 4;
        n += P == 1 ? e : e * e;
      }
      const bool in = d.limit == 0 || r == 0 ? n <= (P == 1 ? r4 : r4 * r4) : P == 1 ? 4 * n <= limit - (d.limit < 0) : n <= limit - (d.limit < 0);
      if (in) {
        out.push_back(p);
      }
    }
    return out;
  }
  static bool same(const Region&, const Iterator& it, const Pos& want) {
    return BoxKind<N>::same(*it, want) && BoxKind<N>::same(*it.operator->(), want);
  }
  static bool same(const Region& r, const Litl::Position<N>* p, const Pos& want) {
    return BoxKind<N>::same(r, p, want);
  }
  static bool reset(Iterator&) {
    return false;
  }
};

template <Litl::Index N, bool Const>
struct SubrasterKind {
  using Raster = Litl::Raster<int, N>;
  using Parent = std::conditional_t<Const, const Raster, Raster>;
  using Region = Litl::Subraster<Parent, std::conditional_t<Const, const int, int>>;
  using Iterator = typename Region::Iterator;
  static Pos shape(const Desc& d) {
    Pos out;
    for (std::size_t i = 0; i < d.front.size(); ++i) {
      out.push_back((d.back[i] - d.front[i] + 1) + (d.front[i] % 3 + 3) % 3 + (d.front[i] / 3 % 2 + 2) % 2);
    }
    return out;
  }
  static Pos front(const Desc& d) {
    Pos out;
    for (auto e : d.front) {
      out.push_back((e % 3 + 3) % 3);
    }
    return out;
  }
  static Pos back(const Desc& d) {
    Pos out = front(d);
    for (std::size_t i = 0; i < out.size(); ++i) {
      out[i] += d.back[i] - d.front[i];
    }
    return out;
  }
  static Region make(const Desc& d) {
    // The parent lives as long as the run
    void* m = userAlloc(sizeof(Raster), 16);
    Pause p;
    auto* raster = (Raster*)m;
    {
      Lib lib;
      new (raster) Raster(position<N>(shape(d)));
    }
    for (std::size_t i = 0; i < raster->size(); ++i) {
      raster->data()[i] = int(i);
    }
    Lib lib;
    Parent& parent = *raster;
    return parent.subraster({position<N>(front(d)), position<N>(back(d))});
  }
  static std::vector<Pos> expected(const Desc& d) {
    return positions(front(d), back(d));
  }
  static bool same(const Region& region, const Iterator& it, const Pos& want) {
    return same(region, &*it, want) && it.operator->() == &*it;
  }
  static bool same(const Region& region, const int* p, const Pos& want) {
    i64 index = 0;
    const auto& s = region.raster().shape();
    for (std::size_t i = want.size(); i-- > 0;) {
      index = index * s[i] + want[i];
    }
    return p == region.raster().data() + index && *p == int(index);
  }
  static bool reset(Iterator&) {
    return false;
  }
};

template <typename K>
struct World {
  using Region = typename K::Region;
  using Iterator = typename K::Iterator;
  struct Shared {
    Obj<Region> region;
    std::vector<Pos> expected;
  };
  struct Slot {
    Obj<Iterator> it;
    int region = 0;
    std::size_t at = 0;
  };
  const Scenario& s;
  int client;
  Shared* shared;
  Slot slots[Slots];

  World(const Scenario& sc, int c, Shared* sh) : s(sc), client(c), shared(sh) {}

  void verify(Slot& t) {
    if (!t.it) {
      return;
    }
    auto& r = shared[t.region];
    bool over, alsoOver, ok = true;
    {
      Lib lib;
      const auto e = end(*r.region);
      over = !(*t.it != e);
      alsoOver = *t.it == e;
      if (!over && !r.expected.empty()) {
        ok = K::same(*r.region, *t.it, r.expected[std::min(t.at, r.expected.size() - 1)]);
      }
    }
    check(over == alsoOver, "equality", "an iterator is both equal to and different from the end");
    check(over == (t.at == r.expected.size()), over ? "early-end" : "no-end", "the iteration is %s after %zu of %zu positions",
          over ? "over" : "not over", t.at, r.expected.size());
    check(ok, "wrong-position", "position %zu of %zu is not the expected one", t.at, r.expected.size());
  }

  void run(const Op& op) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s slot %ld", k.c_str(), op.arg(0));
    if (k == "begin" || !t.it) {
      t.region = int(op.in(1, 0, MaxRegions - 1));
      t.it.makeBy([&] {
        return begin(*shared[t.region].region);
      });
      t.at = 0;
    } else if (k == "copy") {
      auto& u = slots[op.in(1, 0, Slots - 1)];
      if (&u == &t) {
        return;
      }
      u.it.makeBy([&] {
        return Iterator(*t.it);
      });
      u.region = t.region;
      u.at = t.at;
      probe(t.at == 0 ? "copied_at_begin" : t.at == shared[t.region].expected.size() ? "copied_at_end" : "copied_in_course");
    } else if (k == "drop") {
      t.it.reset();
      probe("dropped");
    } else if (k == "next") {
      const auto n = shared[t.region].expected.size();
      if (n == 0) {
        probe("empty");
      }
      for (i64 i = 0; i < op.in(1, 1, 400) && t.at < n; ++i) {
        bool ok = true;
        {
          Lib lib;
          if (op.arg(2) % 2) {
            const auto& r = shared[t.region];
            ok = K::same(*r.region, (*t.it)++, r.expected[t.at]);
          } else {
            ++*t.it;
          }
        }
        check(ok, "post-increment", "the iterator returned by post-increment is not at position %zu of %zu", t.at, n);
        ++t.at;
        verify(t);
      }
      probe("next");
    } else if (k == "reset") {
      bool done;
      {
        Lib lib;
        done = K::reset(*t.it);
      }
      if (done) {
        t.at = 0;
        probe(shared[t.region].expected.empty() ? "reset_empty" : "reset");
      }
    } else if (k == "loop") { // A whole range-based loop
      auto& r = shared[op.in(1, 0, MaxRegions - 1)];
      std::size_t n = 0;
      {
        Lib lib;
        for (auto it = begin(*r.region); it != end(*r.region); ++it) {
          bool ok = n < r.expected.size() && K::same(*r.region, it, r.expected[n]);
          Pause p;
          check(ok, "wrong-position", "position %zu of %zu in a loop is not the expected one", n, r.expected.size());
          ++n;
        }
      }
      check(n == r.expected.size(), "early-end", "a loop visited %zu of %zu positions", n, r.expected.size());
      probe("loop");
    }
    for (auto& u : slots) {
      verify(u);
    }
  }

  void runAll() {
    int i = 0;
    for (auto& op : s.clients[std::size_t(client)]) {
      opBegin(s, client, i++);
      run(op);
      opEnd();
    }
    for (auto& t : slots) {
      mix(t.at);
    }
  }
};

template <typename K>
void go(const Scenario& s, int dim) {
  using W = World<K>;
  std::unique_ptr<typename W::Shared[]> shared(new typename W::Shared[MaxRegions]);
  for (int i = 0; i < MaxRegions; ++i) {
    const auto d = describe(s, i, dim);
    shared[i].region.makeBy([&] {
      return K::make(d);
    });
    shared[i].expected = K::expected(d);
  }
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    W w(s, c, shared.get());
    w.runAll();
  });
}

constexpr int KindCount = 20;
bool part1(const Scenario& s, int kind, int dim);
bool part2(const Scenario& s, int kind, int dim);

#if SIM_PART == 1
bool part1(const Scenario& s, int kind, int) {
  switch (kind) {
    case 7:
      go<BallKind<1, 1>>(s, 1); // INST
      return true;
    case 8:
      go<BallKind<2, 1>>(s, 2); // INST
      return true;
    case 9:
      go<BallKind<3, 1>>(s, 3); // INST
      return true;
    case 10:
      go<BallKind<1, 2>>(s, 1); // INST
      return true;
    case 11:
      go<BallKind<2, 2>>(s, 2); // INST
      return true;
    case 12:
      go<BallKind<3, 2>>(s, 3); // INST
      return true;
  }
  return false;
}
#elif SIM_PART == 2
bool part2(const Scenario& s, int kind, int dim) {
  switch (kind) {
    case 13:
      go<SubrasterKind<1, true>>(s, 1); // INST
      return true;
    case 14:
      go<SubrasterKind<2, false>>(s, 2); // INST
      return true;
    case 15:
      go<SubrasterKind<2, true>>(s, 2); // INST
      return true;
    case 16:
      go<SubrasterKind<3, false>>(s, 3); // INST
      return true;
    case 17:
      go<SubrasterKind<4, true>>(s, 4); // INST
      return true;
    case 18:
      go<SubrasterKind<-1, false>>(s, dim); // INST
      return true;
  }
  return false;
}
#else

void execute(const Scenario& s) {
  setBudget(40000000);
  const int kind = int(s.in("kind", 0, KindCount - 1));
  const int dim = int(s.in("dim", 1, 4));
  if (part1(s, kind, dim) || part2(s, kind, dim)) {
    return;
  }
  switch (kind) {
    case 0:
      return go<BoxKind<1>>(s, 1); // INST
    case 1:
      return go<BoxKind<2>>(s, 2); // INST
    case 2:
      return go<BoxKind<3>>(s, 3); // INST
    case 3:
      return go<BoxKind<4>>(s, 4); // INST
    case 4:
    case 19:
      return go<BoxKind<-1>>(s, dim); // INST
    case 5:
      return go<LineKind<2>>(s, 2); // INST
    default:
      return go<LineKind<3>>(s, 3); // INST
  }
}

void generate(Scenario& s, Rng& r, int tier) {
  s.set("kind", {r.range(0, KindCount - 1)});
  s.set("dim", {r.range(1, 4)});
  for (int i = 0; i < MaxRegions; ++i) {
    std::vector<i64> d;
    for (int j = 0; j < 4; ++j) {
      d.push_back(r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(-5, 5) : r.range(-50, 50));
      d.push_back(r.chance(1, 30) ? -1 : r.chance(1, 6) ? 0 : r.chance(1, 3) ? r.range(0, 2) : r.range(0, 7));
    }
    d.push_back(r.chance(1, 10) ? r.range(17, 300) : r.range(0, 16));
    s.set("region" + std::to_string(i), d);
  }
  maybeLong(s, r, 16);
  std::vector<i64> limit;
  for (int i = 0; i < 4; ++i) {
    limit.push_back(r.chance(1, 2) ? 0 : r.range(-1, 1));
  }
  s.set("limit", limit);
  s.set("far", {r.chance(1, 8) ? (r.range(0, 1) ? 1 : -1) * r.range(1000, 5900000000) : 0});
  const int n = r.chance(1, 2) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const std::size_t cc = std::size_t(c);
    const int len = int(r.range(2, tier ? 25 : 12));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.range(0, Slots - 1);
      switch (i == 0 ? 0 : r.range(0, 12)) {
        case 0:
        case 1:
          s.op(cc, "begin", {slot, r.range(0, MaxRegions - 1)});
          break;
        case 2:
        case 3:
          s.op(cc, "copy", {slot, r.range(0, Slots - 1)});
          break;
        case 4:
          s.op(cc, "drop", {slot});
          break;
        case 5:
          s.op(cc, "loop", {0, r.range(0, MaxRegions - 1)});
          break;
        case 6:
          s.op(cc, "reset", {slot});
          break;
        default:
          s.op(cc, "next", {slot, r.chance(1, 6) ? r.range(5, 40) : r.chance(1, 10) ? r.range(40, 400) : r.range(1, 4), r.range(0, 1)});
      }
    }
  }
}

Register reg("C21", generate, execute);
#endif

} // namespace simiterate
