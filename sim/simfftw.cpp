#include "simfftw.h"

#include <cmath>
#include <complex>
#include <cstring>
#include <fftw3.h>
#include <limits>
#include <map>

namespace sim {

namespace {

struct Plan {
  void* in;
  void* out;
  std::size_t inSize, outSize;
  bool destroysInput;
  bool live;
  int id;
  u64 word; ///< Stands for the memory of the plan
};

std::map<fftw_plan, Plan> plans; // Dead plans are kept, so that addresses are unique
u64 seed = 0;
int planCount = 0;
std::size_t live = 0;
u64 plannerWord = 0; ///< Stands for the global state of the planner
int plannerUser = -1;

struct Refusals {
  int nth[4] = {-1, -1, -1, -1};
  int count = 0, calls = 0, fired = 0;
} refusals[16];

Rng rng(int salt) {
  return Rng(seed * 1000003ull + u64(planCount) * 7919 + u64(salt));
}

void scribble(void* p, std::size_t bytes, int salt) {
  Rng r = rng(salt);
  auto* d = static_cast<double*>(p);
  const i64 mode = r.range(0, 2);
  for (std::size_t i = 0; i < bytes / sizeof(double); ++i) {
    d[i] = mode == 0 ? 0 : mode == 1 ? double(r.range(-1000, 1000)) : std::numeric_limits<double>::quiet_NaN();
  }
}

struct PlannerScope {
  PlannerScope() {
    yieldPoint();
    enter();
    noteRange(&plannerWord, sizeof plannerWord, true);
    yieldPoint();
    enter();
    plannerUser = self();
  }
  ~PlannerScope() {
    plannerUser = -1;
  }
  void enter() {
    if (plannerUser >= 0 && plannerUser != self()) {
      fail("planner-race", "two threads are in the FFTW planner at once");
    }
    plannerUser = self();
  }
};

unsigned choose(unsigned flags) {
  Rng r = rng(1);
  unsigned f = (flags & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
  for (int bit : {9, 11, 12, 14, 15, 16, 17}) {
    if (r.chance(1, 4)) {
      f |= 1u << bit;
    }
  }
  if (r.chance(1, 4)) {
    f |= FFTW_UNALIGNED;
  }
  return f;
}

template <typename F>
fftw_plan makePlan(F&& f, int rank, const int* n, void* in, std::size_t inSize, void* out, std::size_t outSize, unsigned flags, bool c2r) {
  auto& ref = refusals[self()];
  const int k = ref.calls++;
  PlannerScope scope;
  ++planCount;
  for (int i = 0; i < ref.count; ++i) {
    if (ref.nth[i] == k) {
      ++ref.fired;
      noteFault();
      countFault("refused_plan");
      return nullptr;
    }
  }
  if (!in || !out) {
    fail("bad-plan", "plan with a null buffer");
  }
  for (int i = 0; i < rank; ++i) {
    if (n[i] <= 0) {
      return nullptr;
    }
  }
  if (!(flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY))) { // Measuring overwrites the buffers
    noteRange(in, inSize, true);
    noteRange(out, outSize, true);
    scribble(in, inSize, 2);
    scribble(out, outSize, 3);
  }
  fftw_plan p = f(choose(flags));
  if (!p) {
    p = f((flags & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE);
  } else {
    probe("planner_variant");
  }
  if (!p) {
    probe("planner_no_plan");
    return nullptr;
  }
  Pause pause;
  plans[p] = {in, out, inSize, outSize, (flags & FFTW_DESTROY_INPUT) || (c2r && !(flags & FFTW_PRESERVE_INPUT)), true, planCount, 0};
  ++live;
  return p;
}

std::size_t product(int rank, const int* n) {
  std::size_t out = 1;
  for (int i = 0; i < rank; ++i) {
    out *= n[i] > 0 ? std::size_t(n[i]) : 0;
  }
  return out;
}

std::size_t half(int rank, const int* n) {
  if (!rank || n[rank - 1] <= 0) {
    return rank ? 0 : 1;
  }
  return product(rank, n) / std::size_t(n[rank - 1]) * std::size_t(n[rank - 1] / 2 + 1);
}

Plan* find(fftw_plan p, const char* what) {
  auto it = plans.find(p);
  if (it == plans.end()) {
    fail("bad-plan", "%s of something which is not a plan", what);
  }
  return &it->second;
}

template <typename F>
void executePlan(fftw_plan p, void* in, void* out, F&& f) {
  if (!p) {
    fail("bad-plan", "execution of a null plan");
  }
  Plan* plan = find(p, "execution");
  if (!plan->live) {
    fail("dead-plan", "execution of plan %d, which was destroyed", plan->id);
  }
  noteRange(&plan->word, sizeof plan->word, false);
  in = in ? in : plan->in;
  out = out ? out : plan->out;
  noteRange(in, plan->inSize, plan->destroysInput);
  noteRange(out, plan->outSize, true);
  if (!plan->live) {
    fail("dead-plan", "plan %d is destroyed while it is executed", plan->id);
  }
  f();
  if (plan->destroysInput && in != out) {
    scribble(in, plan->inSize, 4);
  }
  yieldPoint();
}

} // namespace

void fftwSeed(u64 s) {
  seed = s;
}
void fftwBegin(const Scenario& s, int client, int op) {
  auto& r = refusals[self()];
  r = Refusals();
  for (auto& f : s.faults) {
    if (f.kind == "refuse" && f.arg(0) == client && f.arg(1) == op && r.count < 4) {
      r.nth[r.count++] = int(f.arg(2));
    }
  }
}
int fftwEnd() {
  auto& r = refusals[self()];
  const int out = r.fired;
  r = Refusals();
  return out;
}
std::size_t livePlans() {
  return live;
}

} // namespace sim

using namespace sim;

#define REAL(R, name, args) R __real_##name args

extern "C" {

REAL(fftw_plan, fftw_plan_dft, (int, const int*, fftw_complex*, fftw_complex*, int, unsigned));
REAL(fftw_plan, fftw_plan_dft_r2c, (int, const int*, double*, fftw_complex*, unsigned));
REAL(fftw_plan, fftw_plan_dft_c2r, (int, const int*, fftw_complex*, double*, unsigned));
REAL(void, fftw_destroy_plan, (fftw_plan));
REAL(void, fftw_execute, (const fftw_plan));
REAL(void, fftw_execute_dft, (const fftw_plan, fftw_complex*, fftw_complex*));
REAL(void, fftw_execute_dft_r2c, (const fftw_plan, double*, fftw_complex*));
REAL(void, fftw_execute_dft_c2r, (const fftw_plan, fftw_complex*, double*));

fftw_plan __wrap_fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  const auto size = product(rank, n) * sizeof(fftw_complex);
  return makePlan(
      [&](unsigned f) {
        return __real_fftw_plan_dft(rank, n, in, out, sign, f);
      },
      rank, n, in, size, out, size, flags, false);
}
fftw_plan __wrap_fftw_plan_dft_r2c(int rank, const int* n, double* in, fftw_complex* out, unsigned flags) {
  return makePlan(
      [&](unsigned f) {
        return __real_fftw_plan_dft_r2c(rank, n, in, out, f);
      },
      rank, n, in, product(rank, n) * sizeof(double), out, half(rank, n) * sizeof(fftw_complex), flags, false);
}
fftw_plan __wrap_fftw_plan_dft_c2r(int rank, const int* n, fftw_complex* in, double* out, unsigned flags) {
  return makePlan(
      [&](unsigned f) {
        return __real_fftw_plan_dft_c2r(rank, n, in, out, f);
      },
      rank, n, in, half(rank, n) * sizeof(fftw_complex), out, product(rank, n) * sizeof(double), flags, true);
}

fftw_plan __wrap_fftw_plan_dft_1d(int a, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  return __wrap_fftw_plan_dft(1, &a, in, out, sign, flags);
}
fftw_plan __wrap_fftw_plan_dft_2d(int a, int b, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  const int n[] = {a, b};
  return __wrap_fftw_plan_dft(2, n, in, out, sign, flags);
}
fftw_plan __wrap_fftw_plan_dft_3d(int a, int b, int c, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  const int n[] = {a, b, c};
  return __wrap_fftw_plan_dft(3, n, in, out, sign, flags);
}
fftw_plan __wrap_fftw_plan_dft_r2c_1d(int a, double* in, fftw_complex* out, unsigned flags) {
  return __wrap_fftw_plan_dft_r2c(1, &a, in, out, flags);
}
fftw_plan __wrap_fftw_plan_dft_r2c_2d(int a, int b, double* in, fftw_complex* out, unsigned flags) {
  const int n[] = {a, b};
  return __wrap_fftw_plan_dft_r2c(2, n, in, out, flags);
}
fftw_plan __wrap_fftw_plan_dft_r2c_3d(int a, int b, int c, double* in, fftw_complex* out, unsigned flags) {
  const int n[] = {a, b, c};
  return __wrap_fftw_plan_dft_r2c(3, n, in, out, flags);
}
fftw_plan __wrap_fftw_plan_dft_c2r_1d(int a, fftw_complex* in, double* out, unsigned flags) {
  return __wrap_fftw_plan_dft_c2r(1, &a, in, out, flags);
}
fftw_plan __wrap_fftw_plan_dft_c2r_2d(int a, int b, fftw_complex* in, double* out, unsigned flags) {
  const int n[] = {a, b};
  return __wrap_fftw_plan_dft_c2r(2, n, in, out, flags);
}
fftw_plan __wrap_fftw_plan_dft_c2r_3d(int a, int b, int c, fftw_complex* in, double* out, unsigned flags) {
  const int n[] = {a, b, c};
  return __wrap_fftw_plan_dft_c2r(3, n, in, out, flags);
}

void __wrap_fftw_destroy_plan(fftw_plan p) {
  if (!p) {
    return; // As FFTW does
  }
  PlannerScope scope; // Shares the state of the planner
  Plan* plan = find(p, "destruction");
  if (!plan->live) {
    fail("double-destroy", "plan %d is destroyed twice", plan->id);
  }
  noteRange(&plan->word, sizeof plan->word, true);
  plan->live = false;
  --live;
}
void __wrap_fftw_execute(const fftw_plan p) {
  executePlan(p, nullptr, nullptr, [&] {
    __real_fftw_execute(p);
  });
}
void __wrap_fftw_execute_dft(const fftw_plan p, fftw_complex* in, fftw_complex* out) {
  executePlan(p, in, out, [&] {
    __real_fftw_execute_dft(p, in, out);
  });
}
void __wrap_fftw_execute_dft_r2c(const fftw_plan p, double* in, fftw_complex* out) {
  executePlan(p, in, out, [&] {
    __real_fftw_execute_dft_r2c(p, in, out);
  });
}
void __wrap_fftw_execute_dft_c2r(const fftw_plan p, fftw_complex* in, double* out) {
  executePlan(p, in, out, [&] {
    __real_fftw_execute_dft_c2r(p, in, out);
  });
}
void __wrap_fftw_cleanup() {
  if (livePlans()) { // Plans would be undefined
    trace("fftw_cleanup with live plans");
  }
}
}
