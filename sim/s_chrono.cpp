// C09: histories of chronometers under simulated clocks.
#include "LitlRun/Chronometer.h"

#include "scn.h"

using namespace sim;

namespace {

constexpr int Slots = 3;

template <typename TUnit>
struct World {
  using Chrono = Litl::Chronometer<TUnit>;
  struct Slot {
    Obj<Chrono> o;
    TUnit elapsed = TUnit();
    std::vector<TUnit> inc;
    bool running = false;
    i64 tic = 0;
  };
  const Scenario& s;
  int client;
  bool alone;
  Slot slots[Slots];

  World(const Scenario& sc, int c) : s(sc), client(c), alone(sc.clients.size() == 1) {}

  TUnit offset(const Op& op) {
    return TUnit(typename TUnit::rep(op.in(1, -5, 1000)));
  }

  void close(const char* what, double got, long double want, long double tol) {
    check(std::isfinite(got) && std::fabs((long double)got - want) <= tol, what, "%s is %.17g, should be %.17Lg", what, got, want);
  }

  /// Integral units are exact, others may be rounded
  static bool same(TUnit a, TUnit b) {
    const double x = double(a.count()), y = double(b.count());
    return std::is_floating_point<typename TUnit::rep>::value ? std::fabs(x - y) <= 1e-11 * (std::fabs(x) + std::fabs(y)) + 1e-9 : a == b;
  }

  bool quiet = false;

  void verify(Slot& t, bool stats) {
    if (!t.o) {
      return;
    }
    bool running;
    std::size_t count;
    TUnit elapsed, last;
    double mn = 0, mx = 0, mean = 0, sd = 0;
    bool ok;
    {
      Lib lib;
      running = t.o->isRunning();
      count = t.o->count();
      elapsed = t.o->elapsed();
      ok = t.o->increments().size() == t.inc.size();
      for (std::size_t i = 0; ok && i < t.inc.size(); ++i) {
        ok = t.o->increments()[i] == double(t.inc[i].count());
      }
      if (t.inc.size()) {
        last = t.o->last();
      }
      if (t.inc.size() && stats) {
        mn = t.o->min();
        mx = t.o->max();
        mean = t.o->mean();
        sd = t.o->stdev();
      }
    }
    check(running == t.running, "running", "isRunning() is %d, should be %d", running, t.running);
    check(count == t.inc.size(), "count", "there are %zu increments, should be %zu", count, t.inc.size());
    check(same(elapsed, t.elapsed), "elapsed", "the elapsed time is %.17g, should be %.17g", double(elapsed.count()), double(t.elapsed.count()));
    check(ok, "increments", "the list of increments is not the one of the times between starts and stops");
    if (t.inc.empty()) {
      return;
    }
    check(same(last, t.inc.back()), "last", "the last increment is %.17g, should be %.17g", double(last.count()), double(t.inc.back().count()));
    if (!stats) {
      return;
    }
    long double sum = 0, lo = 0, hi = 0, big = 0;
    for (std::size_t i = 0; i < t.inc.size(); ++i) {
      const long double v = t.inc[i].count();
      sum += v;
      lo = i ? std::min(lo, v) : v;
      hi = i ? std::max(hi, v) : v;
      big = std::max(big, std::fabs(v));
    }
    const long double m = sum / t.inc.size();
    long double s2 = 0;
    for (auto i : t.inc) {
      s2 += ((long double)i.count() - m) * ((long double)i.count() - m);
    }
    close("min", mn, lo, 0);
    close("max", mx, hi, 0);
    close("mean", mean, m, 1e-12L * big);
    const long double ref = std::sqrt(s2 / t.inc.size());
    close("stdev", sd, ref, 1e-9L * ref + 1e-12L * big);
    check(sd >= 0, "stdev", "the standard deviation is %g", sd);
    probe("statistics");
  }

  void run(const Op& op, int index) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s %ld", k.c_str(), op.arg(1));
    if (k == "advance") {
      advance(op.in(1, 0, 86400000000000ll));
      return;
    }
    if (k == "jump") {
      jump(op.arg(1));
      return;
    }
    if (k == "cycles" && t.o) { // Many measures
      Rng hash(u64(op.arg(3)) + 5);
      quiet = true;
      for (i64 i = 0; i < op.in(1, 1, 1500); ++i) {
        run({"start", {op.arg(0)}}, -1);
        run({"advance", {0, hash.range(0, op.in(2, 1, 3600000000000ll))}}, -1);
        run({"stop", {op.arg(0)}}, -1);
      }
      quiet = false;
    }
    if (!t.o || k == "new") {
      if (op.arg(2) % 2 == 0) {
        t.o.make();
        t.elapsed = TUnit();
      } else {
        t.o.make(offset(op));
        t.elapsed = offset(op);
      }
      t.inc.clear();
      t.running = false;
    } else if (k == "copy") {
      auto& u = slots[op.in(1, 0, Slots - 1)];
      if (&u == &t) {
        return;
      }
      u.o.makeBy([&] {
        return Chrono(*t.o);
      });
      u.elapsed = t.elapsed;
      u.inc = t.inc;
      u.running = t.running;
      u.tic = t.tic;
    } else if (k == "start") {
      const i64 before = simClock().steady;
      guarded([&] {
        t.o->start();
      });
      t.tic = alone ? simClock().steady : before; // Otherwise the exact time is unknown: see stop
      t.running = true;
      probe("start");
    } else if (k == "stop") {
      if (!t.running) {
        return;
      }
      TUnit got;
      const i64 before = simClock().steady;
      opBegin(s, client, index);
      std::string msg;
      const auto r = guarded(
          [&] {
            got = t.o->stop();
          },
          &msg);
      const int fired = opEnd();
      check(r == Res::Ok || (r == Res::Oom && fired), "exception", "stop() threw %s", msg.c_str());
      t.running = false;
      if (r == Res::Ok) {
        const auto most = std::chrono::duration_cast<TUnit>(std::chrono::nanoseconds(simClock().steady - t.tic));
        if (alone) {
          check(same(got, most), "increment", "the increment is %.17g, should be %.17g", double(got.count()), double(most.count()));
        } else { // Others let time pass meanwhile
          check((got <= most || same(got, most)) && got >= TUnit(), "increment", "the increment is %.17g, more than %.17g", double(got.count()), double(most.count()));
          (void)before;
        }
        t.inc.push_back(got);
        t.elapsed += got;
        probe("stop");
      } else {
        probe("stop_oom");
      }
    } else if (k == "reset") {
      guarded([&] {
        if (op.arg(2) % 2 == 0) {
          t.o->reset();
        } else {
          t.o->reset(offset(op));
        }
      });
      t.elapsed = op.arg(2) % 2 == 0 ? TUnit() : offset(op);
      t.inc.clear();
      t.running = false;
      probe("reset");
    }
    for (auto& u : slots) {
      if (quiet) {
        break;
      }
      verify(u, k == "query" || &u == &t);
    }
  }
};

template <typename TUnit>
void body(const Scenario& s, int client) {
  World<TUnit> w(s, client);
  int i = 0;
  for (auto& op : s.clients[std::size_t(client)]) {
    w.run(op, i++);
  }
  for (auto& t : w.slots) {
    w.verify(t, true);
    mix(t.inc.size());
  }
}

void execute(const Scenario& s) {
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    switch (s.in("unit", 0, 6, std::size_t(c))) {
      case 0:
        return body<std::chrono::nanoseconds>(s, c); // INST
      case 1:
        return body<std::chrono::microseconds>(s, c); // INST
      case 2:
        return body<std::chrono::milliseconds>(s, c); // INST
      case 3:
        return body<std::chrono::seconds>(s, c); // INST
      case 4:
        return body<std::chrono::duration<double, std::milli>>(s, c); // INST
      case 5:
        return body<std::chrono::duration<double>>(s, c); // INST
      default:
        return body<std::chrono::minutes>(s, c); // INST
    }
  });
}

i64 someTime(Rng& r) {
  static const i64 scale[] = {10, 1000, 100000, 10000000, 1000000000ll, 60000000000ll, 3600000000000ll, 86400000000000ll};
  return r.range(0, scale[r.next() % 8]);
}

void generate(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 5) ? 2 : 1;
  std::vector<i64> units;
  for (int c = 0; c < n; ++c) {
    units.push_back(r.range(0, 6));
    const int len = int(r.range(5, tier ? 120 : 50));
    const i64 common = someTime(r); // Nearly equal increments are a hard case for the deviation
    const bool near = r.chance(1, 3);
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.chance(1, 2) ? 0 : r.range(0, Slots - 1);
      switch (r.range(0, 15)) {
        case 0:
          s.op(std::size_t(c), "reset", {slot, r.range(-5, 1000), r.range(0, 1)});
          break;
        case 1:
          s.op(std::size_t(c), "new", {slot, r.range(-5, 1000), r.range(0, 1)});
          break;
        case 2:
          s.op(std::size_t(c), "copy", {slot, r.range(0, Slots - 1)});
          break;
        case 3:
          s.op(std::size_t(c), "jump", {0, r.range(-1, 1) * someTime(r)});
          break;
        case 4:
        case 5:
          s.op(std::size_t(c), "start", {slot});
          break;
        case 6:
        case 7:
          s.op(std::size_t(c), "stop", {slot});
          break;
        case 8:
          if (r.chance(1, 20)) {
            s.op(std::size_t(c), "cycles", {slot, r.range(2, 1500), someTime(r), r.range(0, 1000)});
          }
          s.op(std::size_t(c), "query", {slot});
          break;
        default:
          s.op(std::size_t(c), "start", {slot});
          s.op(std::size_t(c), "advance", {0, near ? common + r.range(0, 3) : someTime(r)});
          s.op(std::size_t(c), "stop", {slot});
      }
    }
    if (r.chance(1, 4)) {
      s.fault("alloc", {c, r.range(0, len), 0, 1});
    }
  }
  if (r.chance(1, 2)) {
    for (int i = 0; i < int(r.range(1, 4)); ++i) {
      s.fault("clockjump", {r.range(0, 40), (r.chance(1, 2) ? -1 : 1) * someTime(r)});
    }
  }
  s.set("unit", units);
}

Register reg("C09", generate, execute);

} // namespace
