// C22: histories of declarations, command lines, copies and queries of program options, with lack of memory.
#include "LitlRun/ProgramOptions.h"

#include "scn.h"

using namespace sim;

namespace {

using Options = Litl::ProgramOptions;

constexpr int Slots = 3;

enum Kind { Positional, Named, Flag };
enum Type { Int, Long, Real, Text, Bool, List };

/// What may be declared: name, short form, has a default
struct Menu {
  const char* name;
  char brief;
  Kind kind;
  Type type;
  bool def;
};
const Menu menu[] = {{"input", 0, Positional, Int, false},    {"output", 0, Positional, Text, true}, {"mode", 0, Positional, Real, false},
                     {"quantity", 'q', Named, Int, false},    {"ratio", 'r', Named, Real, true},     {"size", 0, Named, Long, false},
                     {"title", 't', Named, Text, true},       {"verbose", 'v', Flag, Bool, true},    {"yes", 0, Flag, Bool, true},
                     {"width", 'w', Named, Long, true},       {"axes", 'a', Named, List, false},     {"kind", 0, Named, Text, false},
                     {"epsilon", 'e', Named, Real, false},    {"zoom", 0, Flag, Bool, true},         {"level", 0, Positional, Int, true}};
constexpr int Count = 15;

struct Value {
  bool set = false, final = false;
  std::vector<std::string> words;
};

std::string word(const Menu& m, i64 v) {
  switch (m.type) {
    case Int:
      return std::to_string(v % 1000);
    case Long:
      return std::to_string(v * 1000003);
    case Real:
      return std::to_string(v % 1000) + (v % 2 ? ".5" : "");
    case Bool:
      return "1";
    default: // Long enough to be allocated, sometimes
      return std::string(v % 3 ? 3 : v % 7 ? 40 : 300, char('a' + v % 26)) + std::to_string(v);
  }
}

std::string defaultWord(const Menu& m) {
  return m.type == Bool ? "0" : m.type == Text ? "the default text of the option" : word(m, 42);
}

struct Model {
  std::vector<int> declared; ///< Indices in the menu, in order
  Value values[Count];
  bool has(int i) const {
    return std::find(declared.begin(), declared.end(), i) != declared.end();
  }
};

/// What a command line asks for
struct Line {
  std::vector<std::string> args;
  std::vector<std::pair<int, std::string>> given; ///< In order
  bool wrong = false; ///< Refused whatever the values
  std::vector<int> bad; ///< Options with a value of the wrong type
};

struct Slot {
  Obj<Options> o;
  Model m;
};

template <typename T>
bool equal(const Options& o, const char* name, T want) {
  return o.as<T>(name) == want;
}

/// Compares an option which is set; run by the library
bool same(const Options& o, const Menu& m, const Value& v) {
  switch (m.type) {
    case Int:
      return equal<int>(o, m.name, std::stoi(v.words[0]));
    case Long:
      return equal<long>(o, m.name, std::stol(v.words[0]));
    case Real:
      return equal<double>(o, m.name, std::stod(v.words[0]));
    case Text:
      return equal<std::string>(o, m.name, v.words[0]);
    case Bool:
      return equal<bool>(o, m.name, v.words[0] == "1");
    default:
      return equal<std::vector<std::string>>(o, m.name, v.words);
  }
}

struct World {
  const Scenario& s;
  int client;
  Slot slots[Slots];
  World(const Scenario& sc, int c) : s(sc), client(c) {}

  static void verify(const Options& o, const Model& m, const char* when) {
    for (int i = 0; i < Count; ++i) {
      const auto& e = menu[i];
      const auto& v = m.values[i];
      bool has = false, ok = true;
      std::string msg;
      auto r = guarded(
          [&] {
            has = o.has(e.name);
          },
          &msg);
      check(r == Res::Ok, "exception", "has(%s) threw %s %s", e.name, msg.c_str(), when);
      check(has == v.set, "has", "option %s is %s, should %sbe, %s", e.name, has ? "set" : "not set", v.set ? "" : "not ", when);
      if (v.set) {
        r = guarded(
            [&] {
              ok = same(o, e, v);
            },
            &msg);
        check(r == Res::Ok, "exception", "reading option %s threw %s %s", e.name, msg.c_str(), when);
        check(ok, "value", "option %s has not the value %s %s", e.name, v.words[0].c_str(), when);
        mix(u64(i));
      } else {
        r = guarded([&] {
          o.as<int>(e.name);
        });
        check(r == Res::Error, "unset", "option %s is not set but reading it does not throw %s", e.name, when);
      }
    }
  }

  void declare(Slot& t, int i, bool custom) {
    const auto& e = menu[i];
    if (t.m.has(i)) {
      return;
    }
    std::string name = e.name;
    if (e.brief) {
      name += std::string(",") + e.brief;
    }
    const auto r = guarded([&] {
      auto& o = *t.o;
      namespace po = boost::program_options;
      if (e.kind == Flag) {
        o.flag(name.c_str(), "A flag");
        return;
      }
      const char* n = e.kind == Positional ? e.name : name.c_str();
      const bool pos = e.kind == Positional;
      const auto w = defaultWord(e);
      switch (e.type) {
        case Int:
          if (custom) {
            auto* v = po::value<int>();
            if (e.def) {
              v->default_value(std::stoi(w));
            }
            pos ? o.positional(n, v, "custom") : o.named(n, v, "custom");
          } else if (e.def) {
            pos ? o.positional(n, "int", std::stoi(w)) : o.named(n, "int", std::stoi(w));
          } else {
            pos ? o.positional<int>(n, "int") : o.named<int>(n, "int");
          }
          break;
        case Long:
          e.def ? o.named(n, "long", std::stol(w)) : o.named<long>(n, "long");
          break;
        case Real:
          if (pos) {
            e.def ? o.positional(n, "real", std::stod(w)) : o.positional<double>(n, "real");
          } else {
            e.def ? o.named(n, "real", std::stod(w)) : o.named<double>(n, "real");
          }
          break;
        case List:
          o.named(n, po::value<std::vector<std::string>>()->multitoken(), "list");
          break;
        default:
          if (pos) {
            e.def ? o.positional(n, "text", w) : o.positional<std::string>(n, "text");
          } else {
            e.def ? o.named(n, "text", w) : o.named<std::string>(n, "text");
          }
      }
    });
    check(r == Res::Ok, "exception", "declaring option %s threw", e.name);
    t.m.declared.push_back(i);
    probe("declared");
  }

  /// Some texts have spaces or signs, where arguments are given one by one
  static std::string decorate(const Menu& e, const Op& op, i64 v, std::string w) {
    if ((e.type == Text || e.type == List) && op.in(3, 0, 3) != 3 && v % 3 == 0) {
      static const char* const tails[] = {" two words", "\tor more  ", "=x=y", " --wrong", " "};
      w += tails[v % 5];
      probe("text_with_spaces");
    }
    return w;
  }

  /// Command line number v: positional arguments first, so that no option takes them
  Line line(const Model& m, const Op& op) {
    Line l;
    Rng r(u64(op.arg(1)) * 77 + 5);
    const i64 fault = op.in(2, 0, 11);
    std::vector<int> pos, named;
    for (int i : m.declared) {
      (menu[i].kind == Positional ? pos : named).push_back(i);
    }
    const i64 np = r.range(0, i64(pos.size()));
    for (i64 i = 0; i < np; ++i) {
      const auto& e = menu[pos[std::size_t(i)]];
      const i64 v = r.range(0, 5000);
      auto w = decorate(e, op, v, word(e, v));
      if (fault == 1 && i == np - 1 && e.type != Text) {
        w = "word";
        l.bad.push_back(pos[std::size_t(i)]);
      }
      l.args.push_back(w);
      l.given.push_back({pos[std::size_t(i)], w});
    }
    if (fault == 2 && np == i64(pos.size())) {
      l.args.push_back("toomany");
      l.wrong = true;
    }
    for (std::size_t i = named.size(); i > 1; --i) {
      std::swap(named[i - 1], named[std::size_t(r.range(0, i64(i) - 1))]);
    }
    const i64 nn = r.range(0, i64(named.size()));
    for (i64 i = 0; i < nn; ++i) {
      const int k = named[std::size_t(i)];
      const auto& e = menu[k];
      const bool brief = e.brief && r.chance(1, 2);
      const std::string flag = brief ? std::string("-") + e.brief : std::string("--") + e.name;
      if (e.kind == Flag) {
        l.args.push_back(flag);
        l.given.push_back({k, "1"});
        continue;
      }
      const int words = e.type == List ? int(r.chance(1, 12) ? r.range(4, 80) : r.range(1, 3)) : 1;
      std::vector<std::string> w;
      for (int j = 0; j < words; ++j) {
        const i64 v = r.range(0, 5000);
        w.push_back(decorate(e, op, v, word(e, v)));
      }
      if (fault == 3 && i == nn - 1 && e.type != Text && e.type != List) {
        w[0] = r.chance(1, 2) ? "word" : "1x";
        l.bad.push_back(k);
      }
      if (words == 1 && r.chance(1, 2)) {
        l.args.push_back(flag + (brief ? "" : "=") + w[0]);
      } else {
        l.args.push_back(flag);
        l.args.insert(l.args.end(), w.begin(), w.end());
      }
      for (auto& x : w) {
        l.given.push_back({k, x});
      }
    }
    if (fault == 4) {
      l.args.push_back(r.chance(1, 2) ? "--unknown" : "-u");
      l.wrong = true;
    } else if (fault == 5) {
      for (int i : named) {
        if (std::find_if(l.given.begin(), l.given.end(), [&](const std::pair<int, std::string>& g) {
              return g.first == i;
            }) == l.given.end() &&
            menu[i].kind == Named) {
          l.args.push_back(std::string("--") + menu[i].name); // Its value is missing
          l.wrong = true;
          break;
        }
      }
    }
    return l;
  }

  void parse(Slot& t, const Op& op, int index) {
    const auto l = line(t.m, op);
    Model after = t.m;
    bool refused = l.wrong;
    for (int i : l.bad) {
      refused |= !t.m.values[i].final; // Otherwise ignored
    }
    for (int i : t.m.declared) {
      auto& v = after.values[i];
      if (!v.set && menu[i].def) {
        v.set = true;
        v.words = {defaultWord(menu[i])};
      }
    }
    for (auto& g : l.given) {
      if (!t.m.values[g.first].final) {
        auto& v = after.values[g.first];
        if (!v.final) {
          v.words.clear();
        }
        v.set = v.final = true;
        v.words.push_back(g.second);
      }
    }
    std::string all = "program";
    std::vector<std::string> strings {"program"};
    const i64 blank = op.in(4, 0, 5); // Separators of the single string
    static const char* const blanks[] = {"  ", "\t", " \n", "\t \r "};
    if (blank == 5) {
      all = " " + all;
    }
    for (auto& a : l.args) {
      all += (blank > 1 ? blanks[blank - 2] : " ") + a;
      strings.push_back(a);
    }
    std::vector<const char*> raw;
    for (auto& a : strings) {
      raw.push_back(a.c_str());
    }
    trace("parse %s%s", all.c_str(), refused ? " (wrong)" : "");
    const i64 form = op.in(3, 0, 3);
    std::string msg;
    opBegin(s, client, index);
    const auto r = guarded(
        [&] {
          switch (form) {
            case 0:
              return t.o->parse(int(raw.size()), raw.data());
            case 1:
              return t.o->parse(raw);
            case 2:
              return t.o->parse(strings);
            default:
              return t.o->parse(blank == 4 ? all + "\n " : all);
          }
        },
        &msg);
    const int fired = opEnd();
    if (r == Res::Ok) {
      check(!refused, "accepted", "the wrong command line \"%s\" was accepted", all.c_str());
      t.m = after;
      probe("parsed");
    } else {
      check(refused || fired, "refused", "the command line \"%s\" was refused: %s", all.c_str(), msg.c_str());
      probe(fired ? "parse_oom" : "parse_refused");
    }
    verify(*t.o, t.m, r == Res::Ok ? "after parsing" : "after a failure");
  }

  void run(const Op& op, int index) {
    auto& t = slots[op.in(0, 0, Slots - 1)];
    const std::string& k = op.name;
    trace("%s %ld", k.c_str(), op.arg(1));
    if (!t.o || k == "new") {
      t.o.reset();
      t.o.makeBy2([&](void* m) {
        op.arg(2) % 2 ? new (m) Options("A program which does something") : new (m) Options;
      });
      t.m = Model();
    }
    if (k == "declare") {
      declare(t, int(op.in(1, 0, Count - 1)), op.arg(2) % 3 == 0);
      verify(*t.o, t.m, "after a declaration");
    } else if (k == "parse") {
      parse(t, op, index);
    } else if (k == "copy") {
      auto& u = slots[op.in(1, 0, Slots - 1)];
      if (&u == &t) {
        return;
      }
      u.o.reset();
      u.m = t.m;
      opBegin(s, client, index);
      bool ok = true;
      try {
        u.o.makeBy2([&](void* m) {
          op.arg(2) % 2 ? new (m) Options(std::move(*t.o)) : new (m) Options(*t.o);
        });
      } catch (const std::bad_alloc&) {
        ok = false;
      }
      check(opEnd() || ok, "exception", "copying threw");
      if (!ok) {
        probe("copy_oom");
        return;
      }
      probe("copied");
      verify(*u.o, u.m, "in a copy");
      if (op.arg(2) % 2) {
        t.o.reset(); // Moved
        probe("moved");
      } else {
        verify(*t.o, t.m, "in the original of a copy");
      }
    } else if (k == "drop") {
      t.o.reset();
      probe("dropped");
    } else if (k == "pair") {
      std::size_t count = 0, found = 0, most = 0, want = 0;
      guarded([&] {
        const auto p = t.o->asPair();
        count = p.first.options().size();
        for (int i : t.m.declared) {
          found += p.first.find_nothrow(menu[i].name, false) != nullptr;
        }
        most = p.second.max_total_count();
      });
      for (int i : t.m.declared) {
        want += menu[i].kind == Positional;
      }
      check(count == t.m.declared.size() && found == count, "pair", "%zu options and %zu found by name, should be %zu", count, found, t.m.declared.size());
      check(most == want, "pair", "%zu positional options, should be %zu", most, want);
      probe("pair");
    }
    for (auto& u : slots) {
      if (u.o && &u != &t) {
        verify(*u.o, u.m, "after operations on another object");
      }
    }
  }
};

void execute(const Scenario& s) {
  setBudget(40000000);
  {
    // Options read by everybody
    World common(s, 0);
    auto& t = common.slots[0];
    t.o.make("shared");
    for (int i = 0; i < Count; ++i) {
      if (s.in("declared", 0, (1 << Count) - 1) >> i & 1) {
        common.declare(t, i, false);
      }
    }
    Op op {"parse", {0, s.param("line"), 0, 3}};
    common.parse(t, op, -1);
    runClients(int(std::min<std::size_t>(s.clients.size(), 3)), [&](int c) {
      World w(s, c);
      const auto& ops = s.clients[std::size_t(c)];
      for (std::size_t i = 0; i < ops.size(); ++i) {
        if (ops[i].name == "shared") {
          World::verify(*t.o, t.m, "in shared options");
          probe("shared");
        } else {
          w.run(ops[i], int(i));
        }
      }
    });
  }
  checkNoLeak("the options");
}

void generate(Scenario& s, Rng& r, int tier) {
  const int n = r.chance(1, 4) ? int(r.range(2, 3)) : 1;
  s.set("declared", {r.range(0, (1 << Count) - 1)});
  s.set("line", {r.range(0, 1000)});
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(4, tier ? 40 : 20));
    for (int i = 0; i < len; ++i) {
      const i64 slot = r.chance(2, 3) ? 0 : r.range(0, Slots - 1);
      const i64 k = r.range(0, 19);
      if (k < 9) {
        s.op(std::size_t(c), "declare", {slot, r.range(0, Count - 1), r.range(0, 2)});
      } else if (k < 14) {
        s.op(std::size_t(c), "parse", {slot, r.range(0, 100000), r.range(0, 11), r.range(0, 3), r.range(0, 5)});
      } else if (k < 16) {
        s.op(std::size_t(c), "copy", {slot, r.range(0, Slots - 1), r.range(0, 1)});
      } else if (k == 16) {
        s.op(std::size_t(c), "new", {slot, 0, r.range(0, 1)});
      } else if (k == 17) {
        s.op(std::size_t(c), "drop", {slot});
      } else if (k == 18) {
        s.op(std::size_t(c), "pair", {slot});
      } else {
        s.op(std::size_t(c), n > 1 ? "shared" : "pair", {slot});
      }
    }
    if (r.chance(1, 2)) {
      const auto& ops = s.clients[std::size_t(c)];
      for (int i = 0; i < len; ++i) {
        if ((ops[std::size_t(i)].name == "parse" || ops[std::size_t(i)].name == "copy") && r.chance(1, 3)) {
          s.fault("alloc", {c, i, r.range(0, r.chance(1, 2) ? 60 : 500), r.range(1, 2)});
        }
      }
    }
  }
}

Register reg("C22", generate, execute);

} // namespace
