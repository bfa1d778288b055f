// SIM_PARTS 5
// C01-C03: histories of FITS reads and writes over several files and objects, on a simulated disk, with process crashes,
// disk faults, allocation failures, damaged files.
#include "LitlContainer/AlignedBuffer.h"
#include "LitlIo/Fits.h"
#include "LitlRaster/Raster.h"

#include "scn.h"
#include "simdisk.h"

using namespace sim;

namespace simfits {

constexpr int FileCount = 3;
constexpr int ObjectCount = 4;
constexpr int TypeCount = 11;
constexpr int KindCount = 7; // 1..4: fixed dimension, 0: variable, 5: aligned 2D, 6: pointer 3D (write) / aligned 3D (read)

enum State { Absent, Good, Maybe, Bad, NoAxis };
constexpr int MaxAxes = 6;
struct Rec {
  int state;
  int type;
  int n;
  i64 shape[MaxAxes];
  u64 seed;
};

inline u64 hash(u64 a, u64 b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ b);
  r.next();
  return r.next();
}

template <typename T>
T pix(u64 seed, u64 i) {
  const u64 h = hash(seed, i);
  if (std::is_floating_point<T>::value) {
    T v;
    std::memcpy(&v, &h, sizeof(T));
    switch ((h >> 59) & 15) {
      case 0:
        return T(0);
      case 1:
        return T(-1.5);
      case 2:
        return std::numeric_limits<T>::infinity();
      case 3:
        return std::numeric_limits<T>::denorm_min();
      case 4:
        return std::numeric_limits<T>::quiet_NaN();
      case 5:
        return T(-0.);
      default:
        return v == v ? v : T(i);
    }
  }
  switch ((h >> 59) & 15) {
    case 0:
      return std::numeric_limits<T>::max();
    case 1:
      return std::numeric_limits<T>::lowest();
    case 2:
      return T(0);
    default:
      return T(h);
  }
}

inline i64 count(const Rec& r) {
  i64 n = 1;
  for (int i = 0; i < r.n; ++i) {
    n *= r.shape[i];
  }
  return n;
}

/// Outcome of a read
struct Got {
  Res res = Res::Error;
  std::string msg;
  int n = 0;
  i64 shape[MaxAxes] = {};
  bool sameShape = false;
  bool sameValues = false;
  i64 firstBad = -1;
};

struct Io {
  std::size_t (*bytes)();
  void (*write)(Litl::Fits&, const Rec&, int kind, Got&, bool& unchanged);
  void (*read)(Litl::Fits&, const Rec&, int kind, Got&);
  bool (*readDouble)(Litl::Fits&, const Rec&, Got&);
};

template <typename T>
std::enable_if_t<std::is_floating_point<T>::value, bool> sameValue(T a, T b) {
  return a == a ? a == b && std::signbit(a) == std::signbit(b) : b != b;
}
template <typename T>
std::enable_if_t<not std::is_floating_point<T>::value, bool> sameValue(T a, T b) {
  return a == b;
}

template <typename TRaster, typename T>
void compare(const TRaster& out, const Rec& rec, Got& g) {
  const auto& shape = out.shape();
  g.n = int(shape.size());
  g.sameShape = g.n == rec.n && out.dimension() == rec.n;
  for (int i = 0; i < g.n && i < MaxAxes; ++i) {
    g.shape[i] = shape[i];
    g.sameShape = g.sameShape && i < rec.n && shape[i] == rec.shape[i];
  }
  if (!g.sameShape || i64(out.size()) != count(rec)) {
    g.sameShape = false;
    return;
  }
  const auto* d = out.data();
  g.sameValues = true;
  for (i64 i = 0; i < i64(out.size()); ++i) {
    const T v = pix<T>(rec.seed, u64(i));
    if (!sameValue(decltype(*d + 0)(d[i]), decltype(*d + 0)(v))) {
      g.sameValues = false;
      g.firstBad = i;
      return;
    }
  }
}

template <typename T, Litl::Index N>
Litl::Position<N> position(const Rec& r) {
  Litl::Position<N> p(N == -1 ? r.n : N);
  for (std::size_t i = 0; i < p.size(); ++i) {
    p[i] = i < MaxAxes ? r.shape[i] : 1;
  }
  return p;
}

template <typename T, typename TRaster>
void writeAs(Litl::Fits& f, const Rec& rec, TRaster& in, Got& g, bool& unchanged) {
  for (i64 i = 0; i < i64(in.size()); ++i) {
    in.data()[i] = pix<T>(rec.seed, u64(i));
  }
  g.res = guarded(
      [&] {
        f.write(in);
      },
      &g.msg);
  Got c;
  compare<TRaster, T>(in, rec, c);
  unchanged = c.sameShape && c.sameValues;
}

template <typename T, typename TRaster>
void readAs(Litl::Fits& f, const Rec& rec, Got& g) {
  g.res = guarded(
      [&] {
        TRaster out = f.read<TRaster>();
        compare<TRaster, T>(out, rec, g);
      },
      &g.msg);
}

template <typename T>
struct IoOf {
  static std::size_t bytes() {
    return sizeof(T);
  }
  template <Litl::Index N>
  static void writeN(Litl::Fits& f, const Rec& rec, Got& g, bool& u) {
    Litl::Raster<T, N> in(position<T, N>(rec));
    writeAs<T>(f, rec, in, g, u);
  }
  static void write(Litl::Fits& f, const Rec& rec, int kind, Got& g, bool& u) {
    if (kind == 5 && rec.n == 2) {
      Litl::AlignedRaster<T, 2> in(position<T, 2>(rec));
      return writeAs<T>(f, rec, in, g, u);
    }
    if (kind == 6 && rec.n == 3) {
      std::vector<T> d(std::size_t(count(rec)));
      Litl::PtrRaster<T, 3> in(position<T, 3>(rec), d.data());
      return writeAs<T>(f, rec, in, g, u);
    }
    if (kind == 0) {
      return writeN<-1>(f, rec, g, u);
    }
    switch (rec.n) {
      case 1:
        return writeN<1>(f, rec, g, u);
      case 2:
        return writeN<2>(f, rec, g, u);
      case 3:
        return writeN<3>(f, rec, g, u);
      default:
        return writeN<4>(f, rec, g, u);
    }
  }
  static void read(Litl::Fits& f, const Rec& rec, int kind, Got& g) {
    switch (kind) {
      case 0:
        return readAs<T, Litl::Raster<T, -1>>(f, rec, g);
      case 1:
        return readAs<T, Litl::Raster<T, 1>>(f, rec, g);
      case 2:
        return readAs<T, Litl::Raster<T, 2>>(f, rec, g);
      case 3:
        return readAs<T, Litl::Raster<T, 3>>(f, rec, g);
      case 4:
        return readAs<T, Litl::Raster<T, 4>>(f, rec, g);
      case 5:
        return readAs<T, Litl::AlignedRaster<T, 2>>(f, rec, g);
      default:
        return readAs<T, Litl::AlignedRaster<T, 3>>(f, rec, g);
    }
  }
  static bool readDouble(Litl::Fits& f, const Rec& rec, Got& g) {
    if (sizeof(T) > 4 || std::is_same<T, char>::value) {
      return false;
    }
    readAs<T, Litl::Raster<double, -1>>(f, rec, g);
    return true;
  }
  static Io io() {
    return {bytes, write, read, readDouble};
  }
};

inline int dimOf(int kind, int n) { // Dimension of the raster type, -1 if variable
  return kind == 0 ? -1 : kind == 5 ? 2 : kind == 6 ? 3 : kind;
}

Io part0(int);
Io part1(int);
Io part2(int);
Io part3(int);
Io part4(int);

#if SIM_PART == 1
Io part1(int k) {
  switch (k) {
    case 0:
      return IoOf<char>::io(); // INST return Io{};
    case 1:
      return IoOf<signed char>::io(); // INST return Io{};
    default:
      return IoOf<unsigned char>::io(); // INST return Io{};
  }
}
#elif SIM_PART == 2
Io part2(int k) {
  switch (k) {
    case 0:
      return IoOf<std::int16_t>::io(); // INST return Io{};
    case 1:
      return IoOf<std::uint16_t>::io(); // INST return Io{};
    default:
      return IoOf<std::int32_t>::io(); // INST return Io{};
  }
}
#elif SIM_PART == 3
Io part3(int k) {
  switch (k) {
    case 0:
      return IoOf<std::uint32_t>::io(); // INST return Io{};
    case 1:
      return IoOf<std::int64_t>::io(); // INST return Io{};
    default:
      return IoOf<std::uint64_t>::io(); // INST return Io{};
  }
}
#elif SIM_PART == 4
Io part4(int k) {
  switch (k) {
    case 0:
      return IoOf<float>::io(); // INST return Io{};
    default:
      return IoOf<double>::io(); // INST return Io{};
  }
}
#else

Io ioOf(int type) {
  switch (type / 3) {
    case 0:
      return part1(type % 3);
    case 1:
      return part2(type % 3);
    case 2:
      return part3(type % 3);
    default:
      return part4(type % 3);
  }
}

/// The first type from the given one which the library compiles for
int usable(int type) {
  for (int k = 0; k < TypeCount; ++k) {
    if (ioOf((type + k) % TypeCount).bytes) {
      return (type + k) % TypeCount;
    }
  }
  return type;
}

Io io(int type) {
  return ioOf(usable(type));
}

constexpr int MaxClients = 2;

struct Durable {
  int next[MaxClients]; ///< Next operation of each client
  int inWrite[MaxClients]; ///< File being written, or -1
  Rec writing[MaxClients];
  Rec files[MaxClients][FileCount];
};
Durable* durable;

int prop; // 1, 2, 3

/// File names, some of which differ only after many characters
inline std::string fileName(const Scenario& s, int client, int file) {
  const std::string id = std::to_string(client) + "_" + std::to_string(file);
  switch (s.in("names", 0, 7)) {
    case 1:
      return "/sim/" + std::string(180, 'n') + id + ".fits";
    case 2:
      return "/sim/some.directory/with-dashes_" + id + ".v1.fits";
    case 3:
      return "/sim/two words " + id + ".fit";
    case 4:
      return "/sim/NOEXTENSION" + id;
    case 5:
      return "/sim/" + std::string(61, 'd') + "/" + std::string(61, 'e') + "/" + id + ".FITS";
    default:
      return "/sim/c" + id + ".fits";
  }
}

struct Session {
  const Scenario& s;
  int client;
  std::unique_ptr<Obj<Litl::Fits>[]> objects;
  std::vector<std::string> names;
  std::string given;

  Session(const Scenario& sc, int c) : s(sc), client(c), objects(new Obj<Litl::Fits>[ObjectCount]) {
    for (int i = 0; i < FileCount; ++i) {
      names.push_back(fileName(s, c, i));
    }
  }

  Litl::Fits& object(int o) {
    if (!objects[o]) {
      given = names[std::size_t(o % FileCount)];
      objects[o].make(given);
      given.replace(5, given.size() - 5, "given.fits"); // The name was copied
    }
    return *objects[o];
  }

  Rec recipe(const Op& op) const {
    Rec r = {};
    r.state = Good;
    r.type = usable(int(op.in(1, 0, TypeCount - 1)));
    const int kind = int(op.in(2, 0, KindCount - 1));
    r.n = kind == 0 ? int(op.in(3, 1, MaxAxes)) : dimOf(kind, 0);
    for (int i = 0; i < r.n; ++i) {
      r.shape[i] = i < 4 ? op.in(std::size_t(4 + i), 1, 9) : op.in(std::size_t(7 + i), 1, 3);
    }
    if (op.arg(9) > 0) { // A large one
      r.shape[0] = op.in(9, 1, r.n == 1 ? 20000 : r.n == 2 ? 2000 : r.n == 3 ? 200 : 20);
    }
    r.seed = u64(op.arg(8));
    return r;
  }

  void afterOperation(const char* what) {
    if (prop == 3) {
      check(disk::openStreams() == 0, "open-file", "%s left %d file(s) open", what, disk::openStreams());
    }
  }

  void run(const Op& op, int index) {
    const int o = int(op.in(0, 0, ObjectCount - 1));
    const int fi = o % FileCount;
    const std::string& name = names[std::size_t(fi)];
    Rec& rec = durable->files[client][fi];
    const std::string& k = op.name;
    trace("client %d %s object %d file %d (state %d)", client, k.c_str(), o, fi, rec.state);
    if (k == "newobject") {
      objects[o].reset();
      return;
    }
    if (k == "delete") {
      disk::drop(name);
      rec.state = Absent;
      return;
    }
    if (k == "damage") { // 0: truncate, 1: replace with garbage, 2: empty, 3: no axis
      const int how = int(op.in(1, 0, 3));
      if (!disk::exists(name) || rec.state == Absent) {
        return;
      }
      std::string c = disk::content(name);
      if (how == 0) {
        if (c.empty()) {
          return;
        }
        const std::size_t keep = std::size_t(u64(op.arg(2)) % c.size());
        if (rec.state == Good) {
          const std::size_t data = std::size_t(count(rec)) * io(rec.type).bytes();
          const std::size_t padded = (data + 2879) / 2880 * 2880;
          check(c.size() >= padded + 2880, "file-size", "a file of %zu bytes of data has %zu bytes", data, c.size());
          rec.state = keep < c.size() - padded + data ? Bad : Maybe;
        }
        c.resize(keep);
        probe("truncated");
      } else if (how == 1) {
        for (std::size_t i = 0; i < c.size(); ++i) {
          c[i] = char(hash(u64(op.arg(2)), i));
        }
        rec.state = Bad;
        probe("garbage");
      } else if (how == 2) {
        c.clear();
        rec.state = Bad;
        probe("emptied");
      } else {
        c = "SIMPLE  =                    T                                                  "
            "BITPIX  =                    8                                                  "
            "NAXIS   =                    0                                                  "
            "END";
        c.resize(2880, ' ');
        rec.state = NoAxis;
        probe("no_axis");
      }
      disk::put(name, c);
      return;
    }
    Litl::Fits& f = object(o);
    std::string before;
    const bool existed = disk::exists(name);
    if (existed) {
      before = disk::content(name);
    }
    if (k == "write") {
      Rec wanted = recipe(op);
      const int kind = int(op.in(2, 0, KindCount - 1));
      durable->inWrite[client] = existed ? -1 : fi;
      durable->writing[client] = wanted;
      if (op.arg(10) > 0 && s.clients.size() == 1) {
        disk::setCapacity(op.in(10, 1, 40000));
      }
      Got g;
      bool unchanged = true;
      disk::arm(s, client, index);
      opBegin(s, client, index);
      io(wanted.type).write(f, wanted, kind, g, unchanged);
      const int ooms = opEnd();
      const int fired = disk::disarm();
      disk::setCapacity(-1);
      durable->inWrite[client] = -1;
      mix(u64(g.res));
      trace("write -> %s %s", str(g.res), g.msg.c_str());
      if (prop == 1 || prop == 2) {
        check(unchanged, "raster-changed", "writing has changed the raster");
      }
      if (existed) {
        if (prop == 2) {
          check(g.res != Res::Ok, "silent-existing", "writing to an existing file did not throw");
        }
        check(disk::exists(name) && disk::content(name) == before, "file-changed", "an existing file was changed by a failed write");
        probe("write_existing");
      } else if (g.res == Res::Ok) {
        check(disk::exists(name), "silent-write", "a write returned but there is no file");
        rec = wanted;
        rec.state = Good;
        probe(fired + ooms ? "write_ok_with_faults" : "write_ok");
      } else {
        if (!fired && !ooms && prop != 2) {
          fail("spurious-exception", "writing a new file threw without any failure: %s", g.msg.c_str());
        }
        rec = wanted;
        rec.state = disk::exists(name) ? Maybe : Absent;
        if (prop == 3) {
          check(rec.state == Absent, "left-over", "a failed write left a partial file, so that it cannot be tried again");
        }
        probe("write_failed");
      }
      afterOperation("write");
    } else if (k == "read" || k == "readdouble") {
      const int type = rec.state == Absent ? usable(int(op.in(1, 0, TypeCount - 1))) : rec.type;
      int kind = int(op.in(2, 0, KindCount - 1));
      if (op.arg(3) > 0 && rec.state != Absent) { // The right dimension
        kind = rec.n;
      }
      Rec wanted = rec;
      wanted.type = type;
      Got g;
      disk::arm(s, client, index);
      opBegin(s, client, index);
      bool done = true;
      if (k == "readdouble") {
        done = io(type).readDouble(f, wanted, g);
        kind = 0;
      } else {
        io(type).read(f, wanted, kind, g);
      }
      const int ooms = opEnd();
      const int fired = disk::disarm();
      if (!done) {
        return;
      }
      mix(u64(g.res) + 8 * g.sameValues);
      trace("read kind %d -> %s %s", kind, str(g.res), g.msg.c_str());
      check(disk::exists(name) == existed && (!existed || disk::content(name) == before), "file-changed", "a read has changed the file");
      const int dim = dimOf(kind, 0);
      const bool mismatch = rec.state != Absent && dim != -1 && (dim != rec.n || rec.state == NoAxis);
      const bool faulty = fired || ooms;
      if (g.res == Res::Ok) {
        if (prop != 3 || !faulty) {
          check(rec.state != Absent, "silent-missing", "reading a missing file did not throw");
          check(rec.state != Bad, "silent-damaged", "reading a damaged file did not throw");
          if (rec.state == NoAxis && dim == -1) {
            return; // An empty raster is fine
          }
          check(!mismatch, "silent-dimension", "reading a file with %d axes as a raster of dimension %d did not throw", rec.n, dim);
          check(g.sameShape, "shape", "the shape read has %d axes (%ld, %ld, %ld, %ld), not the one written", g.n, g.shape[0], g.shape[1],
                g.shape[2], g.shape[3]);
          check(g.sameValues, "values", "pixel %ld is not the one written", g.firstBad);
        }
        probe(faulty ? "read_ok_with_faults" : "read_ok");
      } else {
        if (rec.state == Good && !mismatch && !faulty && prop != 2) {
          fail("spurious-exception", "reading a valid file threw without any failure: %s", g.msg.c_str());
        }
        probe(rec.state == Absent ? "read_missing" : rec.state == Bad ? "read_damaged" : mismatch ? "read_mismatch" : "read_failed");
      }
      afterOperation("read");
    }
  }

  void finish() {
    objects.reset();
    if (prop == 3 && s.clients.size() == 1) {
      checkNoLeak("after the FITS objects are destroyed");
    }
  }
};

void incarnationBody(const Scenario& s, int client) {
  Session session(s, client);
  auto& next = durable->next[client];
  const auto& ops = s.clients[std::size_t(client)];
  while (next < int(ops.size())) {
    const auto& op = ops[std::size_t(next)];
    const int index = next++;
    if (op.name == "restart") {
      probe("restart");
      session.objects.reset();
      return;
    }
    session.run(op, index);
  }
  session.finish();
}

/// Whatever happened before, all that was written is there
void epilogue(const Scenario& s, int client) {
  Session session(s, client);
  for (int f = 0; f < FileCount; ++f) {
    Op op;
    op.name = "read";
    op.a = {f, 0, 0, 0};
    session.run(op, 1000000);
    op.a = {f, 0, 2, 1};
    session.run(op, 1000000);
  }
  if (prop == 3) {
    for (int f = 0; f < FileCount; ++f) {
      Op op;
      op.name = "delete";
      op.a = {f};
      session.run(op, 1000000);
      op.name = "write";
      op.a = {f, f, 2, 2, 3, 4, 1, 1, 77, 0, 0};
      session.run(op, 1000000);
      op.name = "read";
      op.a = {f, 0, 0, 0};
      session.run(op, 1000000);
    }
  }
  session.finish();
}

void recover(const Scenario& s, int client) {
  const int f = durable->inWrite[client];
  if (f >= 0) {
    durable->files[client][f] = durable->writing[client];
    durable->files[client][f].state = Maybe;
    durable->inWrite[client] = -1;
    probe("crash_in_write");
    // The file may have not been created yet: same as a partial one
    if (!disk::exists(fileName(s, client, f))) {
      durable->files[client][f].state = Absent;
    }
  } else {
    probe("crash_elsewhere");
  }
}

void execute(const Scenario& s) {
  prop = s.prop == "C01" ? 1 : s.prop == "C02" ? 2 : 3;
  disk::init();
  durable = static_cast<Durable*>(disk::durable(sizeof(Durable)));
  for (auto& i : durable->inWrite) {
    i = -1;
  }
  const int n = int(std::min<std::size_t>(s.clients.size(), MaxClients));
  if (n > 1) {
    runClients(n, [&](int c) {
      incarnationBody(s, c);
      while (durable->next[c] < int(s.clients[std::size_t(c)].size())) {
        incarnationBody(s, c);
      }
    });
    for (int c = 0; c < n; ++c) {
      epilogue(s, c);
    }
    if (prop == 3) {
      checkNoLeak("after the FITS objects are destroyed");
    }
    return;
  }
  int lives = 0;
  while (durable->next[0] < int(s.clients[0].size()) && ++lives < 100) {
    const bool crashed = disk::incarnation([&] {
      runClients(1, [&](int) {
        incarnationBody(s, 0);
      });
    });
    if (crashed) {
      recover(s, 0);
    }
  }
  disk::incarnation([&] {
    runClients(1, [&](int) {
      epilogue(s, 0);
    });
  });
}

void randomWrite(Scenario& s, Rng& r, int c, int o, int tier) {
  const int type = int(r.range(0, TypeCount - 1));
  const int kind = int(r.range(0, KindCount - 1));
  const bool large = r.chance(1, tier ? 12 : 25);
  s.op(
      std::size_t(c),
      "write",
      {o, type, kind, r.chance(1, 8) ? r.range(5, MaxAxes) : r.range(1, 4), r.range(1, 9), r.range(1, 9), r.range(1, 6), r.range(1, 4), r.range(0, 1000000),
       large ? r.range(100, 20000) : 0, prop == 1 || !r.chance(1, 8) ? 0 : r.range(1, 9000), r.range(1, 3), r.range(1, 3)});
}

void generate(Scenario& s, Rng& r, int tier) {
  prop = s.prop == "C01" ? 1 : s.prop == "C02" ? 2 : 3;
  s.set("names", {r.range(0, 7)});
  const int n = r.chance(1, 4) ? 2 : 1;
  for (int c = 0; c < n; ++c) {
    const int len = int(r.range(4, tier ? 24 : 14));
    for (int i = 0; i < len; ++i) {
      const int o = int(r.range(0, ObjectCount - 1));
      const auto what = r.range(0, 19);
      if (i == 0 || what < 5) {
        randomWrite(s, r, c, o, tier);
      } else if (what < 13) {
        s.op(std::size_t(c), "read", {o, r.range(0, TypeCount - 1), r.range(0, KindCount - 1), r.chance(4, 5)});
      } else if (what < 14) {
        s.op(std::size_t(c), "readdouble", {o});
      } else if (what < 15) {
        s.op(std::size_t(c), "newobject", {o});
      } else if (what < 17) {
        s.op(std::size_t(c), "delete", {o});
      } else if (what < 18) {
        s.op(std::size_t(c), "restart");
      } else if (prop != 1) {
        s.op(std::size_t(c), "damage", {o, r.range(0, 3), r.range(0, 100000)});
      }
    }
    const int ops = int(s.clients[std::size_t(c)].size());
    if (prop == 1) {
      if (n == 1 && r.chance(3, 4)) {
        const int nf = int(r.range(1, 2));
        for (int i = 0; i < nf; ++i) {
          const bool torn = r.chance(1, 3);
          s.fault("disk", {c, r.range(0, ops - 1), torn ? disk::CrashTorn : disk::Crash, r.range(0, torn ? 3 : 14), r.range(0, 9000)});
        }
      }
      if (r.chance(1, 3)) {
        s.fault("disk", {c, r.range(0, ops - 1), disk::ShortRead, r.range(0, 5), r.range(1, 3000)});
      }
    } else if (r.chance(9, 10)) {
      const int nf = int(r.range(1, 5));
      for (int i = 0; i < nf; ++i) {
        if (r.chance(1, 5)) {
          s.fault("alloc", {c, r.range(0, ops - 1), r.range(0, 8), r.range(1, 3)});
        } else {
          int kind = int(r.range(0, disk::FaultKinds - 1));
          if (n > 1 && (kind == disk::Crash || kind == disk::CrashTorn)) {
            kind = disk::WriteError;
          }
          s.fault("disk", {c, r.range(0, ops - 1), kind, r.range(0, r.chance(2, 3) ? 2 : 12), r.range(0, 9000)});
        }
      }
    }
  }
}

Register reg1("C01", generate, execute);
Register reg2("C02", generate, execute);
Register reg3("C03", generate, execute);

#endif

} // namespace simfits
