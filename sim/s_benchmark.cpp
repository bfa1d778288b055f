// C20: histories of iteration strategies of the benchmark under simulated clocks.
#include "LitlRun/IterationBenchmark.h"

#include "scn.h"

using namespace sim;

namespace {

class Bench : public Litl::IterationBenchmark {
public:
  explicit Bench(Litl::Index side) : Litl::IterationBenchmark(side) {}
  auto& a() {
    return m_a;
  }
  auto& b() {
    return m_b;
  }
  auto& c() {
    return m_c;
  }
};

constexpr int Slots = 2;

struct World {
  struct Slot {
    Obj<Bench> o;
    i64 side = 0;
    std::vector<char> a, b;
  };
  const Scenario& s;
  int client;
  bool alone;
  Slot slots[Slots];

  World(const Scenario& sc, int c) : s(sc), client(c), alone(sc.clients.size() == 1) {}

  std::vector<char> copy(const Litl::Raster<char, 3>& r) {
    std::vector<char> v;
    Lib lib;
    const char* d = r.data();
    const std::size_t n = r.size();
    Pause pause;
    v.assign(d, d + n);
    return v;
  }

  void run(const Op& op) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s", k.c_str());
    if (k == "advance") {
      advance(op.in(1, 0, 3600000000000ll));
      return;
    }
    if (k == "jump") {
      jump(op.arg(1));
      return;
    }
    if (!t.o || k == "new") {
      t.side = op.in(1, 1, 20);
      t.o.make(t.side);
      t.a = copy(t.o->a());
      t.b = copy(t.o->b());
      const std::size_t n = std::size_t(t.side * t.side * t.side);
      check(t.a.size() == n && t.b.size() == n && t.o->c().size() == n, "size", "the rasters of a benchmark of side %ld do not have %zu pixels",
            t.side, n);
      mixBytes(t.a.data(), t.a.size());
      return;
    }
    if (k == "spoil") { // Whatever was in the output before
      Lib lib;
      char* d = t.o->c().data();
      for (std::size_t i = 0; i < t.a.size(); ++i) {
        d[i] = char(op.arg(1) + i64(i));
      }
      return;
    }
    const i64 before = simClock().steady;
    Litl::IterationBenchmark::Duration got(0);
    const int which = int(op.in(1, 0, 7));
    setStepCost(s.in("stepcost", 0, 5000000));
    guarded([&] {
      switch (which) {
        case 0:
          got = t.o->loopOverXyz();
          break;
        case 1:
          got = t.o->loopOverZyx();
          break;
        case 2:
          got = t.o->iterateOverPositions();
          break;
        case 3:
          got = t.o->iterateOverPositionsOptimized();
          break;
        case 4:
          got = t.o->loopOverIndices();
          break;
        case 5:
          got = t.o->iterateOverValues();
          break;
        case 6:
          got = t.o->callOperator();
          break;
        default:
          got = t.o->callGenerate();
      }
    });
    const i64 took = simClock().steady - before;
    if (alone) {
      setStepCost(0);
    }
    static const char* names[] = {"strategy_xyz", "strategy_zyx", "strategy_positions", "strategy_positions_optimized",
                                  "strategy_indices", "strategy_values", "strategy_operator", "strategy_generate"};
    probe(names[which]);
    const double ms = double(got.count());
    check(ms >= 0 && ms <= double(took) * 1e-6, "time", "%s took %g ms, more than the %g ms it ran", names[which], ms, double(took) * 1e-6);
    if (alone) { // But a few steps to call and return
      const double least = double(took - 200 * s.in("stepcost", 0, 5000000)) * 1e-6 - 1;
      check(ms >= least, "time", "%s took %g ms, less than the %g ms it ran", names[which], ms, least);
    }
    const auto a = copy(t.o->a()), b = copy(t.o->b()), c = copy(t.o->c());
    check(a == t.a && b == t.b, "inputs", "%s has changed the inputs", names[which]);
    check(c.size() == a.size(), "size", "%s has changed the size of the output", names[which]);
    for (std::size_t i = 0; i < a.size(); ++i) {
      check(c[i] == char(a[i] + b[i]), "sum", "%s: pixel %zu is %d, should be %d", names[which], i, c[i], char(a[i] + b[i]));
    }
    mix(c.size());
  }
};

void execute(const Scenario& s) {
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    World w(s, c);
    for (auto& op : s.clients[std::size_t(c)]) {
      opBegin(s, c, 0);
      w.run(op);
    }
  });
}

void generate(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 3) ? int(r.range(2, 3)) : 1;
  for (int c = 0; c < n; ++c) {
    const std::size_t cc = std::size_t(c);
    s.op(cc, "new", {0, r.range(1, 5)});
    s.op(cc, "new", {1, r.range(1, 5)});
    const int len = int(r.range(3, tier ? 40 : 14));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.range(0, 1);
      switch (r.range(0, 9)) {
        case 0:
          s.op(cc, "advance", {0, r.range(0, 100000000)});
          break;
        case 1:
          s.op(cc, "jump", {0, r.range(-100000000, 1000000000)});
          break;
        case 2:
          s.op(cc, "spoil", {slot, r.range(-100, 100)});
          break;
        case 3:
          s.op(cc, "new", {slot, r.range(1, r.chance(1, 10) ? 20 : 5)});
          break;
        default:
          s.op(cc, "run", {slot, r.range(0, 7)});
      }
    }
  }
  for (int i = 0; i < int(r.range(0, 3)); ++i) {
    s.fault("clockjump", {r.range(0, 30), (r.chance(1, 2) ? -1 : 1) * r.range(0, 10000000000ll)});
  }
  s.set("stepcost", {r.chance(1, 4) ? 0 : r.range(100, 5000000)});
}

Register reg("C20", generate, execute);

} // namespace
