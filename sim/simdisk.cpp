#include "simdisk.h"

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

// Provided by simrt.cpp
void saveProgress();
void restoreProgress();
void armAlarm(int s);

namespace disk {
namespace {

constexpr int MaxFiles = 16;
constexpr std::size_t Cap = 256u << 10;

struct File {
  char name[256];
  int used;
  std::size_t size;
  unsigned char data[Cap];
};
struct Store {
  i64 capacity;
  File files[MaxFiles];
};

Store* store = nullptr;
struct Armed {
  int kind;
  i64 nth, arg;
};
/// Faults and counters of the current operation of a client
struct Context {
  int nreq = 0, nread = 0, nwrite = 0, nopen = 0, nseek = 0, nclose = 0;
  int fired = 0, openErrno = 0;
  bool armed = false, full = false, closed = false;
  int streams = 0;
  Armed faults[16];
  int nfaults = 0;
};
Context contexts[16];
Context& ctx() {
  return contexts[self() & 15];
}

const char* kindName[] = {"disk_open_fails", "disk_read_error", "disk_short_read", "disk_write_error", "disk_torn_write", "disk_full",
                          "disk_seek_error", "disk_close_error", "crash", "crash_torn_write", "disk_early_eof"};

const Armed* hit(int kind, int n) {
  auto& c = ctx();
  for (int i = 0; c.armed && i < c.nfaults; ++i) {
    if (c.faults[i].kind == kind && c.faults[i].nth == n) {
      c.fired += kind != ShortRead;
      countFault(kindName[kind]);
      trace("disk fault %s", kindName[kind]);
      noteFault();
      return &c.faults[i];
    }
  }
  return nullptr;
}

[[noreturn]] void die() {
  saveProgress();
  _exit(77);
}

void request() {
  const int n = ctx().nreq++;
  if (hit(Crash, n)) {
    die();
  }
}

File* find(const char* name) {
  for (auto& f : store->files) {
    if (f.used && !std::strcmp(f.name, name)) {
      return &f;
    }
  }
  return nullptr;
}

File* create(const char* name) {
  if (File* f = find(name)) {
    return f;
  }
  for (auto& f : store->files) {
    if (!f.used) {
      std::snprintf(f.name, sizeof f.name, "%s", name);
      f.used = 1;
      f.size = 0;
      return &f;
    }
  }
  return nullptr;
}

std::size_t usedBytes() {
  std::size_t n = 0;
  for (auto& f : store->files) {
    n += f.used ? f.size : 0;
  }
  return n;
}

struct Stream {
  File* f; // An unlinked file is only forgotten
  std::size_t pos;
  bool append;
  int owner;
};

ssize_t onRead(void* c, char* buf, size_t n) {
  Pause pause; // Called by CFITSIO, which may hold its global lock: no schedule point
  auto& s = *static_cast<Stream*>(c);
  request();
  const int k = ctx().nread++;
  if (hit(ReadError, k)) {
    errno = EIO;
    return -1;
  }
  if (hit(EarlyEof, k)) {
    return 0;
  }
  if (s.pos >= s.f->size) {
    return 0;
  }
  n = std::min(n, s.f->size - s.pos);
  if (auto* a = hit(ShortRead, k)) {
    n = std::max<std::size_t>(1, std::min<std::size_t>(n, std::size_t(a->arg)));
  }
  std::memcpy(buf, s.f->data + s.pos, n);
  s.pos += n;
  return ssize_t(n);
}

ssize_t onWrite(void* c, const char* buf, size_t n) {
  Pause pause; // Called by CFITSIO, which may hold its global lock: no schedule point
  auto& s = *static_cast<Stream*>(c);
  request();
  const int k = ctx().nwrite++;
  const std::size_t asked = n;
  bool dieAfter = false;
  int err = 0;
  if (hit(WriteError, k)) {
    errno = EIO;
    return 0;
  }
  if (auto* a = hit(TornWrite, k)) {
    n = std::min<std::size_t>(n, std::size_t(a->arg));
    err = EIO;
  }
  if (auto* a = hit(NoSpace, k)) {
    n = std::min<std::size_t>(n, std::size_t(a->arg));
    ctx().full = true;
    err = ENOSPC;
  } else if (ctx().full && ctx().armed) {
    n = 0;
    err = ENOSPC;
  }
  if (auto* a = hit(CrashTorn, k)) {
    n = std::min<std::size_t>(n, std::size_t(a->arg));
    dieAfter = true;
  }
  if (s.append) {
    s.pos = s.f->size;
  }
  if (store->capacity >= 0 && s.pos + n > s.f->size) {
    const i64 room = std::max<i64>(0, store->capacity - i64(usedBytes()));
    const std::size_t grow = s.pos + n - s.f->size;
    if (i64(grow) > room) {
      n = n > grow - std::size_t(room) ? n - (grow - std::size_t(room)) : 0;
      err = ENOSPC;
      ++ctx().fired;
      countFault("disk_capacity");
      noteFault();
    }
  }
  if (s.pos + n > Cap) {
    n = s.pos < Cap ? Cap - s.pos : 0;
    err = ENOSPC;
    countFault("disk_cap");
    ++ctx().fired;
  }
  if (s.pos > s.f->size && n) {
    std::memset(s.f->data + s.f->size, 0, s.pos - s.f->size);
  }
  std::memcpy(s.f->data + s.pos, buf, n);
  s.pos += n;
  s.f->size = std::max(s.f->size, s.pos);
  if (dieAfter) {
    die();
  }
  if (err) {
    errno = err;
    return n < asked ? 0 : ssize_t(n);
  }
  return ssize_t(n);
}

int onSeek(void* c, off64_t* off, int whence) {
  Pause pause; // Called by CFITSIO, which may hold its global lock: no schedule point
  auto& s = *static_cast<Stream*>(c);
  request();
  if (hit(SeekError, ctx().nseek++)) {
    errno = EIO;
    return -1;
  }
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off64_t(s.pos) : off64_t(s.f->size);
  if (base + *off < 0) {
    errno = EINVAL;
    return -1;
  }
  s.pos = std::size_t(base + *off);
  *off = off64_t(s.pos);
  return 0;
}

int onClose(void* c) {
  Pause pause; // Called by CFITSIO, which may hold its global lock: no schedule point
  request();
  --contexts[static_cast<Stream*>(c)->owner & 15].streams;
  delete static_cast<Stream*>(c);
  if (hit(CloseError, ctx().nclose++)) {
    errno = EIO;
    return -1;
  }
  return 0;
}

FILE* simOpen(const char* path, const char* mode) {
  Pause pause; // Called by CFITSIO, which may hold its global lock: no schedule point
  request();
  if (auto* a = hit(FailOpen, ctx().nopen++)) { // Whatever its cause, it lasts until the end of the operation
    ctx().closed = true;
    ctx().openErrno = a->arg % 3 == 0 ? EACCES : a->arg % 3 == 1 ? EMFILE : EIO;
  }
  if (ctx().closed && ctx().armed) {
    errno = ctx().openErrno;
    return nullptr;
  }
  File* f = find(path);
  if (mode[0] == 'r' && !f) {
    errno = ENOENT;
    return nullptr;
  }
  if (!f) {
    f = create(path);
    if (!f) {
      errno = ENOSPC;
      return nullptr;
    }
  }
  if (mode[0] == 'w') {
    f->size = 0;
  }
  cookie_io_functions_t io = {onRead, onWrite, onSeek, onClose};
  auto* s = new Stream {f, 0, mode[0] == 'a', self()};
  FILE* out = fopencookie(s, mode, io);
  if (!out) {
    delete s;
    return nullptr;
  }
  ++ctx().streams;
  trace("open %s mode %s", path, mode);
  return out;
}

} // namespace

void init() {
  store = static_cast<Store*>(durable(sizeof(Store)));
  store->capacity = -1;
}

void arm(const Scenario& s, int client, int op) {
  auto& c = ctx();
  const int streams = c.streams;
  c = Context();
  c.streams = streams;
  c.armed = true;
  for (auto& f : s.faults) {
    if (f.kind == "disk" && f.arg(0) == client && f.arg(1) == op && c.nfaults < 16) {
      const i64 k = f.arg(2);
      c.faults[c.nfaults++] = {int(((k % FaultKinds) + FaultKinds) % FaultKinds), f.arg(3), std::max<i64>(0, f.arg(4))};
    }
  }
}
int disarm() {
  ctx().armed = false;
  return ctx().fired;
}
int openStreams() {
  return ctx().streams;
}
int requests() {
  return ctx().nreq;
}
bool exists(const std::string& p) {
  return find(p.c_str());
}
std::string content(const std::string& p) {
  File* f = find(p.c_str());
  return f ? std::string((const char*)f->data, f->size) : std::string();
}
void put(const std::string& p, const std::string& c) {
  File* f = create(p.c_str());
  if (!f) {
    fail("harness", "too many files");
  }
  f->size = std::min(c.size(), Cap);
  std::memcpy(f->data, c.data(), f->size);
}
void drop(const std::string& p) {
  if (File* f = find(p.c_str())) {
    f->used = 0;
    f->size = 0;
  }
}
void moveTo(const std::string& from, const std::string& to) {
  if (from != to) {
    const std::string c = content(from);
    drop(from);
    put(to, c);
  }
}
void setCapacity(i64 b) {
  store->capacity = b < 0 ? -1 : i64(usedBytes()) + b;
}

void* durable(std::size_t size) {
  void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    fail("harness", "no durable memory");
  }
  return p;
}

bool incarnation(const std::function<void()>& f) {
  saveProgress();
  pid_t pid = fork();
  if (pid < 0) {
    fail("harness", "fork failed");
  }
  if (pid == 0) {
    armAlarm(50);
    f();
    saveProgress();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  restoreProgress();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    return false;
  }
  if (WIFSIGNALED(st)) {
    fail(WTERMSIG(st) == SIGALRM ? "hang-wall" : "died", "the process was killed by signal %d", WTERMSIG(st));
  }
  _exit(3); // The violation is already recorded
}

} // namespace disk
} // namespace sim

extern "C" {

FILE* fopen64(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*); // No initialiser: its guard would be a schedule point
  if (std::strncmp(path, "/sim/", 5) == 0) {
    return sim::disk::simOpen(path, mode);
  }
  if (!real) {
    real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  }
  return real(path, mode);
}

int remove(const char* path) {
  static int (*real)(const char*);
  if (std::strncmp(path, "/sim/", 5) == 0) {
    sim::Pause pause;
    sim::disk::request();
    if (!sim::disk::exists(path)) {
      errno = ENOENT;
      return -1;
    }
    sim::disk::drop(path);
    return 0;
  }
  if (!real) {
    real = (int (*)(const char*))dlsym(RTLD_NEXT, "remove");
  }
  return real(path);
}
int unlink(const char* path) noexcept {
  static int (*real)(const char*);
  if (std::strncmp(path, "/sim/", 5) == 0) {
    return remove(path);
  }
  if (!real) {
    real = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink");
  }
  return real(path);
}
FILE* fopen(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*);
  if (std::strncmp(path, "/sim/", 5) == 0) {
    return sim::disk::simOpen(path, mode);
  }
  if (!real) {
    real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  }
  return real(path, mode);
}

int rename(const char* from, const char* to) noexcept {
  static int (*real)(const char*, const char*);
  if (std::strncmp(from, "/sim/", 5) == 0 && std::strncmp(to, "/sim/", 5) == 0) {
    sim::Pause pause;
    sim::disk::request();
    if (!sim::disk::exists(from)) {
      errno = ENOENT;
      return -1;
    }
    sim::disk::moveTo(from, to);
    return 0;
  }
  if (!real) {
    real = (int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename");
  }
  return real(from, to);
}

int access(const char* path, int mode) noexcept {
  static int (*real)(const char*, int);
  if (std::strncmp(path, "/sim/", 5) == 0) {
    sim::Pause pause;
    if (!sim::disk::exists(path)) {
      errno = ENOENT;
      return -1;
    }
    return 0;
  }
  if (!real) {
    real = (int (*)(const char*, int))dlsym(RTLD_NEXT, "access");
  }
  return real(path, mode);
}

int stat(const char* path, struct stat* st) noexcept {
  static int (*real)(const char*, struct stat*);
  if (std::strncmp(path, "/sim/", 5) == 0) {
    sim::Pause pause;
    if (!sim::disk::exists(path)) {
      errno = ENOENT;
      return -1;
    }
    std::memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = 1;
    st->st_size = off_t(sim::disk::content(path).size());
    return 0;
  }
  if (!real) {
    real = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat");
  }
  return real(path, st);
}

int stat64(const char* path, struct stat64* st) noexcept {
  return stat(path, reinterpret_cast<struct stat*>(st)); // Same layout
}
}
