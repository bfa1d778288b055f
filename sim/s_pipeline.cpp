// C10, C11: histories of product requests over stepper pipelines of several shapes, with failing steps and clock jumps.
#include "LitlRun/StepperPipeline.h"

#include "scn.h"

#include <memory>

using namespace sim;

namespace {

struct StepFailure {
  i64 tag;
};

/// What a pipeline object does when asked by the library
struct Bench {
  i64 cost[8] = {}; ///< Time spent in each step
  i64 failIn[8] = {}; ///< The n-th evaluation from now of the step fails (0: none)
  i64 jumpIn[8] = {}; ///< The system clock is adjusted inside the step
};

constexpr int MaxSteps = 8;

struct Eval {
  int id;
  bool ok;
};

struct Graph {
  int n;
  std::vector<std::vector<int>> pre;
};

template <typename TGraph>
class Pipe : public Litl::StepperPipeline<Pipe<TGraph>> {
public:
  Bench* bench = nullptr;
  std::vector<Eval>* log = nullptr;
  i64* serial = nullptr;
  i64 value[MaxSteps] = {};

  void restart() {
    this->reset();
  }

protected:
  template <typename S>
  void doEvaluate() {
    Pause pause;
    auto& b = *bench;
    const i64 before = simClock().steady;
    (void)before;
    advance(b.cost[S::Id] / 2);
    if (b.jumpIn[S::Id]) {
      jump(b.jumpIn[S::Id]);
    }
    if (b.failIn[S::Id] > 0 && --b.failIn[S::Id] == 0) {
      log->push_back({S::Id, false});
      countFault("step_failure");
      throw StepFailure {S::Id};
    }
    advance(b.cost[S::Id] - b.cost[S::Id] / 2);
    value[S::Id] = ++*serial * 10 + S::Id;
    log->push_back({S::Id, true});
  }
  template <typename S>
  typename S::Return doGet() {
    return S::make(value[S::Id]);
  }
};

template <int I, typename P>
struct Step : Litl::PipelineStep<P, i64> {
  static constexpr int Id = I;
  static i64 make(i64 v) {
    return v;
  }
};
/// A step which returns something else than a number
template <int I, typename P>
struct StringStep : Litl::PipelineStep<P, std::string> {
  static constexpr int Id = I;
  static std::string make(i64 v) {
    return std::to_string(v);
  }
};
template <int I, typename P>
struct RefStep : Litl::PipelineStep<P, const i64&> {
  static constexpr int Id = I;
  static const i64& make(const i64& v) {
    return v;
  }
};

i64 number(i64 v) {
  return v;
}
i64 number(const std::string& v) {
  return std::atoll(v.c_str());
}

struct Single {
  using S0 = Step<0, void>;
  static Graph graph() {
    return {1, {{}}};
  }
  using All = std::tuple<S0>;
};
struct Chain {
  using S0 = Step<0, void>;
  using S1 = RefStep<1, S0>;
  using S2 = StringStep<2, S1>;
  using S3 = Step<3, S2>;
  using S4 = Step<4, S3>;
  static Graph graph() {
    return {5, {{}, {0}, {1}, {2}, {3}}};
  }
  using All = std::tuple<S0, S1, S2, S3, S4>;
};
struct Diamond {
  using S0 = Step<0, void>;
  using S1 = Step<1, S0>;
  using S2 = RefStep<2, S0>;
  using S3 = StringStep<3, std::tuple<S1, S2>>;
  using S4 = Step<4, S3>;
  static Graph graph() {
    return {5, {{}, {0}, {0}, {1, 2}, {3}}};
  }
  using All = std::tuple<S0, S1, S2, S3, S4>;
};
struct Fan {
  using S0 = Step<0, void>;
  using S1 = StringStep<1, void>;
  using S2 = Step<2, void>;
  using S3 = Step<3, std::tuple<S0, S1, S2>>;
  using S4 = RefStep<4, std::tuple<S2, S0>>;
  using S5 = Step<5, std::tuple<S3, S4, S1>>;
  static Graph graph() {
    return {6, {{}, {}, {}, {0, 1, 2}, {2, 0}, {3, 4, 1}}};
  }
  using All = std::tuple<S0, S1, S2, S3, S4, S5>;
};
struct Lattice {
  using S0 = Step<0, void>;
  using S1 = Step<1, S0>;
  using S2 = Step<2, std::tuple<S0, S1>>;
  using S3 = StringStep<3, std::tuple<S1, S2>>;
  using S4 = Step<4, std::tuple<S3, S2, S0>>;
  using S5 = Step<5, S2>;
  using S6 = RefStep<6, std::tuple<S5, S4>>;
  static Graph graph() {
    return {7, {{}, {0}, {0, 1}, {1, 2}, {3, 2, 0}, {2}, {5, 4}}};
  }
  using All = std::tuple<S0, S1, S2, S3, S4, S5, S6>;
};

template <typename P, typename All, std::size_t I = 0, bool Stop = (I >= std::tuple_size<All>::value)>
struct Dispatch {
  using S = std::tuple_element_t<I, All>;
  static i64 get(P& p, int id) {
    if (id == int(I)) {
      return number(p.template get<S>());
    }
    return Dispatch<P, All, I + 1>::get(p, id);
  }
  static bool evaluated(const P& p, int id) {
    return id == int(I) ? p.template evaluated<S>() : Dispatch<P, All, I + 1>::evaluated(p, id);
  }
  static double milliseconds(const P& p, int id) {
    return id == int(I) ? p.template milliseconds<S>() : Dispatch<P, All, I + 1>::milliseconds(p, id);
  }
};
template <typename P, typename All, std::size_t I>
struct Dispatch<P, All, I, true> {
  static i64 get(P&, int) {
    return -1;
  }
  static bool evaluated(const P&, int) {
    return false;
  }
  static double milliseconds(const P&, int) {
    return -2;
  }
};

template <typename TGraph>
struct World {
  using P = Pipe<TGraph>;
  using D = Dispatch<P, typename TGraph::All>;
  static constexpr int Slots = 2;

  struct Slot {
    Obj<P> o;
    bool done[MaxSteps] = {};
    i64 value[MaxSteps] = {};
    i64 ns[MaxSteps] = {};
  };

  const Scenario& s;
  int client;
  bool timing, alone;
  Graph g;
  Bench bench;
  std::vector<Eval> log;
  i64 serial = 0;
  Slot slots[Slots];

  World(const Scenario& sc, int c) : s(sc), client(c), timing(sc.prop == "C11"), alone(sc.clients.size() == 1), g(TGraph::graph()) {
    for (auto& t : slots) {
      t.o.make();
      wire(t);
    }
  }
  void wire(Slot& t) {
    t.o->bench = &bench;
    t.o->log = &log;
    t.o->serial = &serial;
  }

  /// The steps which must be evaluated to get a step
  void needed(const Slot& t, int id, bool (&out)[MaxSteps]) {
    for (int p : g.pre[std::size_t(id)]) {
      needed(t, p, out);
    }
    if (!t.done[id]) {
      out[id] = true;
    }
  }

  void verify(Slot& t) {
    double total = 0, wanted = 0;
    for (int i = 0; i < g.n; ++i) {
      bool ev;
      double ms;
      {
        Lib lib;
        ev = D::evaluated(*t.o, i);
        ms = D::milliseconds(*t.o, i);
      }
      if (!timing) {
        check(ev == t.done[i], "evaluated", "step %d is said %sevaluated", i, ev ? "" : "not ");
        continue;
      }
      if (!t.done[i]) {
        check(ms == -1, "time-unevaluated", "the time of step %d, not evaluated, is %g instead of -1", i, ms);
        continue;
      }
      const double ref = double(t.ns[i]) * 1e-6;
      const double tol = 1e-9 * ref + 1e-9;
      if (alone) {
        check(std::fabs(ms - ref) <= tol, "time", "the time of step %d is %.17g ms, should be %.17g", i, ms, ref);
      } else {
        check(ms >= ref - tol, "time", "the time of step %d is %.17g ms, less than the %.17g it took", i, ms, ref);
        check(ms <= double(simClock().steady) * 1e-6, "time", "the time of step %d is %.17g ms, more than the run took", i, ms);
      }
      wanted += ms;
    }
    if (timing) {
      {
        Lib lib;
        total = t.o->milliseconds();
      }
      check(std::fabs(total - wanted) <= 1e-9 * std::fabs(wanted) + 1e-9, "total-time", "the total time is %.17g ms, should be %.17g", total, wanted);
    }
  }

  void run(const Op& op) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const int id = int(op.in(1, 0, g.n - 1));
    const std::string& k = op.name;
    trace("%s step %d", k.c_str(), id);
    if (k == "cost") {
      bench.cost[id] = op.in(2, 0, 86400000000000ll);
    } else if (k == "failnext") {
      bench.failIn[id] = op.in(2, 0, 3);
    } else if (k == "jumpnext") {
      bench.jumpIn[id] = op.arg(2);
    } else if (k == "advance") {
      advance(op.in(2, 0, 86400000000000ll));
    } else if (k == "jump") {
      jump(op.arg(2));
    } else if (k == "reset") {
      {
        Lib lib;
        t.o->restart();
      }
      std::fill(t.done, t.done + MaxSteps, false);
      probe("reset");
    } else if (k == "new") {
      t.o.make();
      wire(t);
      std::fill(t.done, t.done + MaxSteps, false);
    } else if (k == "copy") {
      auto& u = slots[1 - op.in(0, 0, Slots - 1)];
      u.o.makeBy([&] {
        return P(*t.o);
      });
      std::copy(t.done, t.done + MaxSteps, u.done);
      std::copy(t.value, t.value + MaxSteps, u.value);
      std::copy(t.ns, t.ns + MaxSteps, u.ns);
      probe("copy");
      verify(u);
    } else if (k == "get") {
      bool need[MaxSteps] = {};
      needed(t, id, need);
      log.clear();
      i64 got = -1;
      int failed = -1;
      bool other = false;
      try {
        Lib lib;
        got = D::get(*t.o, id);
      } catch (const StepFailure& e) {
        failed = int(e.tag);
      } catch (...) {
        other = true;
      }
      bool now[MaxSteps] = {};
      int failures = 0;
      for (auto& e : log) {
        const bool again = now[e.id] || t.done[e.id];
        if (!timing) {
          check(!again, "evaluated-again", "step %d was evaluated again", e.id);
          check(need[e.id], "evaluated-needlessly", "step %d was evaluated, which is not needed for step %d", e.id, id);
          for (int p : g.pre[std::size_t(e.id)]) {
            check(t.done[p], "prerequisite", "step %d was evaluated before its prerequisite %d", e.id, p);
          }
          check(failures == 0, "after-failure", "step %d was evaluated after a failed one", e.id);
        }
        now[e.id] = true;
        if (e.ok) {
          t.done[e.id] = true;
          t.ns[e.id] = bench.cost[e.id];
          t.value[e.id] = t.o->value[e.id];
        } else {
          ++failures;
          check(failed == e.id || timing, "exception-lost", "the failure of step %d did not reach the caller", e.id);
        }
      }
      if (!timing) {
        check(!other, "exception", "an exception which no step threw was thrown");
        check((failed >= 0) == (failures > 0), "exception", "step %d threw %s", failed, failed >= 0 ? "without failing" : "silently");
        if (failed < 0) {
          for (int i = 0; i < g.n; ++i) {
            check(!need[i] || t.done[i], "not-evaluated", "step %d, needed by step %d, was not evaluated", i, id);
          }
          check(got == t.value[id], "value", "the value of step %d is %ld, should be %ld", id, got, t.value[id]);
          probe("get_ok");
        } else {
          probe("get_failed");
        }
      }
      mix(u64(got) + u64(failed) * 17 + log.size());
    }
    verify(t);
  }
};

template <typename TGraph>
void body(const Scenario& s, int client) {
  World<TGraph> w(s, client);
  for (auto& op : s.clients[std::size_t(client)]) {
    opBegin(s, client, 0);
    w.run(op);
  }
}

void execute(const Scenario& s) {
  runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
    switch (s.in("graph", 0, 4, std::size_t(c))) {
      case 0:
        return body<Single>(s, c); // INST
      case 1:
        return body<Chain>(s, c); // INST
      case 2:
        return body<Diamond>(s, c); // INST
      case 3:
        return body<Fan>(s, c); // INST
      default:
        return body<Lattice>(s, c); // INST
    }
  });
}

i64 someTime(Rng& r) {
  static const i64 scale[] = {10, 1000, 100000, 10000000, 1000000000ll, 60000000000ll, 3600000000000ll, 86400000000000ll};
  return r.range(0, scale[r.next() % 8]);
}

void generate(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 4) ? 2 : 1;
  std::vector<i64> graphs;
  for (int c = 0; c < n; ++c) {
    graphs.push_back(r.range(0, 4));
    if (c && r.chance(1, 2)) {
      graphs[1] = graphs[0];
    }
    const std::size_t cc = std::size_t(c);
    for (int i = 0; i < MaxSteps; ++i) {
      s.op(cc, "cost", {0, i, someTime(r)});
    }
    const int len = int(r.range(5, tier ? 80 : 35));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.chance(2, 3) ? 0 : 1;
      const i64 id = r.range(0, 7);
      switch (r.range(0, 14)) {
        case 0:
          s.op(cc, "reset", {slot});
          break;
        case 1:
        case 2:
          s.op(cc, "failnext", {0, id, r.range(1, 2)});
          break;
        case 3:
          s.op(cc, "jumpnext", {0, id, r.range(-1, 1) * someTime(r)});
          break;
        case 4:
          s.op(cc, "cost", {0, id, someTime(r)});
          break;
        case 5:
          s.op(cc, r.chance(1, 2) ? "advance" : "jump", {0, 0, someTime(r)});
          break;
        case 6:
          s.op(cc, r.chance(2, 3) ? "copy" : "new", {slot});
          break;
        default:
          s.op(cc, "get", {slot, id});
      }
    }
  }
  if (r.chance(1, 2)) {
    for (int i = 0; i < int(r.range(1, 4)); ++i) {
      s.fault("clockjump", {r.range(0, 40), (r.chance(1, 2) ? -1 : 1) * someTime(r)});
    }
  }
  s.set("graph", graphs);
}

Register reg1("C10", generate, execute);
Register reg2("C11", generate, execute);

} // namespace
