#!/usr/bin/env python3
"""Deterministic-simulation checks of kabasset/Raster.

run_check.py PROP             search for violations (tier from VERIF_TIER, seed from VERIF_SEED)
run_check.py --replay FILE    rebuild and replay one scenario file exactly
"""
import array
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("SIM_CXX", "g++-9")
MODULES = ["LitlTypes", "LitlContainer", "LitlRaster", "LitlTransforms", "LitlIo", "LitlRun"]

# property -> (scenario file, extra sources, libraries)
GROUPS = {
    "fits": ("s_fits.cpp", ["simdisk.cpp"], [], ["-lcfitsio"]),
    "buffer": ("s_buffer.cpp", [], [], []),
    "oom": ("s_oom.cpp", ["simfftw.cpp"], [], ["-lfftw3"]),
    "apply": ("s_apply.cpp", [], [], []),
    "random": ("s_random.cpp", [], [], []),
    "chrono": ("s_chrono.cpp", [], [], []),
    "pipeline": ("s_pipeline.cpp", [], [], []),
    "dft": ("s_dft.cpp", ["simfftw.cpp"], [], ["-lfftw3"]),
    "kernel": ("s_kernel.cpp", [], [], []),
    "median": ("s_median.cpp", [], [], []),
    "interp": ("s_interp.cpp", [], [], []),
    "views": ("s_views.cpp", [], [], []),
    "distribution": ("s_distribution.cpp", [], [], []),
    "benchmark": ("s_benchmark.cpp", [], ["LitlRun/src/lib/*.cpp"], ["-lboost_program_options"]),
    "iterate": ("s_iterate.cpp", [], [], []),
    "options": ("s_options.cpp", [], [], ["-lboost_program_options"]),
    "arith": ("s_arith.cpp", [], [], []),
    "region": ("s_region.cpp", [], [], []),
    "errors": ("s_errors.cpp", [], [], []),
}
PROPS = {
    "C01": "fits", "C02": "fits", "C03": "fits",
    "C04": "buffer", "C05": "oom", "C06": "apply",
    "C07": "random", "C08": "random",
    "C09": "chrono", "C10": "pipeline", "C11": "pipeline",
    "C12": "dft", "C13": "dft",
    "C14": "kernel", "C15": "kernel", "C16": "median", "C17": "interp",
    "C18": "views", "C19": "distribution", "C20": "benchmark", "C21": "iterate", "C22": "options",
    "C23": "arith", "C24": "region", "C25": "errors", "C26": "errors",
}
WRAPS = """malloc free calloc realloc aligned_alloc posix_memalign memcpy memmove memset
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once sched_yield
pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv clock_gettime time
gettimeofday clock nanosleep _ZNSt13random_device9_M_getvalEv rand __cxa_thread_atexit""".split()
FFTW_WRAPS = """fftw_plan_dft fftw_plan_dft_1d fftw_plan_dft_2d fftw_plan_dft_3d fftw_plan_dft_r2c fftw_plan_dft_r2c_1d
fftw_plan_dft_r2c_2d fftw_plan_dft_r2c_3d fftw_plan_dft_c2r fftw_plan_dft_c2r_1d fftw_plan_dft_c2r_2d
fftw_plan_dft_c2r_3d fftw_destroy_plan fftw_execute fftw_execute_dft fftw_execute_dft_r2c fftw_execute_dft_c2r
fftw_cleanup""".split()
REAL = {
    "fits": "real: LitlIo Fits, Raster, libcfitsio 4.3.1; simulated: file storage (in-memory disk behind fopen/fread/fwrite/...), heap, scheduler",
    "buffer": "real: AlignedBuffer, Raster; simulated: heap, scheduler",
    "oom": "real: all container, raster and transform headers, libfftw3; simulated: heap, planner choice",
    "dft": "real: Dft, DftPlan, DftMemory, libfftw3 (planning and execution); simulated: planner choice and refusals, heap, scheduler",
    "options": "real: ProgramOptions, libboost_program_options 1.83; simulated: heap, scheduler",
    "benchmark": "real: IterationBenchmark (headers and compiled sources), Chronometer; simulated: clocks, heap, scheduler",
}
ASSUME = [
    "memory accesses are sequentially consistent at the granularity of one instrumented access; weak-memory reorderings are covered by the vector-clock race check only",
    "code in precompiled libraries (libstdc++, libfftw3, libcfitsio, libboost_program_options) runs atomically between schedule points",
    "the library is compiled by g++-9 -std=c++14 -O1 as in the project's own build, with instrumentation",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(group):
    h = hashlib.sha256()
    files = []
    for m in MODULES:
        for d, _, fs in os.walk(os.path.join(REPO, m)):
            if "/tests" in d:
                continue
            files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".cpp"))]
    files += glob.glob(SIM + "/*.h") + [os.path.join(SIM, f) for f in ["simrt.cpp", GROUPS[group][0]] + GROUPS[group][1]]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build(group):
    t0 = time.time()
    key = tree_hash(group)
    out = os.path.join(BUILD, group)
    exe = os.path.join(out, "sim-" + key)
    if os.path.exists(exe):
        return exe, time.time() - t0
    os.makedirs(out, exist_ok=True)
    for old in glob.glob(out + "/*"):
        if not os.path.isdir(old):
            os.unlink(old)
    scn, rt, repo_src, libs = GROUPS[group]
    inc = ["-I" + os.path.join(REPO, m) for m in MODULES] + ["-I" + SIM, "-I/usr/include/eigen3"]
    base = [CXX, "-std=c++14", "-fno-pie", "-g1", "-pthread"]
    jobs = []
    objs = []

    def job(src, flags, tag):
        obj = os.path.join(out, tag + "-" + key + ".o")
        objs.append(obj)
        jobs.append((src, subprocess.Popen(base + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True)))
    inst = ["-O1", "-fsanitize=thread", "-w"] + inc
    # A scenario file may be compiled in several parts, for speed
    text = open(os.path.join(SIM, scn)).read()
    m = re.search(r"SIM_PARTS\s+(\d+)", text)
    for k in range(int(m.group(1)) if m else 1):
        job(os.path.join(SIM, scn), inst + ["-DSIM_PART=%d" % k], "scn%d" % k)
    for pat in repo_src:
        for k, f in enumerate(sorted(glob.glob(os.path.join(REPO, pat)))):
            job(f, inst, "lib%d" % k)
    job(os.path.join(SIM, "simrt.cpp"), ["-O2", "-w"], "rt")
    for f in rt:
        job(os.path.join(SIM, f), ["-O2", "-w"] + inc, f.split(".")[0])
    bad = []
    skipped = []
    for (src, p), obj in zip(jobs, objs):
        o, _ = p.communicate()
        if p.returncode:
            part = re.match(r"scn(\d+)-", os.path.basename(obj))
            lost = salvage(src, base + inst, int(part.group(1)), obj) if part and not os.environ.get("SIM_NOSALVAGE") else None
            if lost is None:
                bad.append(src + ":\n" + o[:6000])
            else:
                skipped += lost
    if bad:
        die("build failed\n" + "\n".join(bad))
    wraps = WRAPS + (FFTW_WRAPS if "simfftw.cpp" in rt else [])
    cmd = [CXX, "-no-pie", "-pthread", "-rdynamic", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in wraps] + libs
    r = sh(cmd)
    if r.returncode: # Some code may be in the sources of the libraries instead of the headers
        archive = os.path.join(out, "lib-" + key + ".a")
        more = []
        jobs = []
        for k, f in enumerate(sorted(glob.glob(os.path.join(REPO, "*/src/lib/*.cpp")))):
            obj = os.path.join(out, "more%d-" % k + key + ".o")
            more.append(obj)
            jobs.append(subprocess.Popen(base + inst + ["-c", f, "-o", obj], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        more = [o for o, j in zip(more, jobs) if j.wait() == 0]
        if more and sh(["ar", "rcs", archive] + more).returncode == 0:
            objs += more + [archive]
            extra = [l for l in ["-lboost_program_options", "-lfftw3", "-lcfitsio"] if l not in libs]
            again = sh(cmd[:len(cmd) - len(libs)] + [archive] + libs + ["-Wl,--as-needed"] + extra)
            r = again if again.returncode == 0 else r
    if r.returncode:
        die("link failed\n" + r.stdout[:6000])
    for o in objs:
        os.unlink(o)
    json.dump(skipped, open(exe + ".skipped", "w"))
    os.rename(exe + ".tmp", exe)
    return exe, time.time() - t0


def skipped_instances(exe):
    """Instantiations the library does not compile for on this tree."""
    try:
        return json.load(open(exe + ".skipped"))
    except (OSError, ValueError):
        return []


def salvage(src, cmd, part, obj):
    """Compile a scenario part without the template instantiations which the tree does not compile for.

    A change may compile for the types the library's own build uses and not for others; that says nothing
    about the property for the former. Lines marked INST each instantiate the library for one type: those
    which do not compile alone are replaced with a no-op. Returns the list of dropped lines, or None
    if the part does not compile for any type."""
    lines = open(src).read().splitlines()
    inst = [k for k, l in enumerate(lines) if "// INST" in l]
    if not inst:
        return None
    gen = os.path.join(os.path.dirname(obj), "gen%d-%s" % (part, os.path.basename(src)[:-4]))
    os.makedirs(gen, exist_ok=True)

    def variant(dropped, name):
        out = list(lines)
        for k in dropped:
            code, _, alt = lines[k].partition("// INST")
            alt = alt.strip()
            if not alt:
                alt = ";" if "return" not in code else "return true;" if code.rstrip().endswith(", true;") else "return;"
            out[k] = alt
        path = os.path.join(gen, name + ".cpp")
        open(path, "w").write('#line 1 "%s"\n' % src + "\n".join(out) + "\n")
        return path

    def compiles(path, extra):
        return subprocess.Popen(cmd + ["-DSIM_PART=%d" % part] + extra + [path], stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL)
    lost = []
    done = None
    if compiles(variant(inst, "none"), ["-fsyntax-only"]).wait() == 0:
        todo, running = list(inst), []
        while todo or running:
            while todo and len(running) < 8:
                k = todo.pop(0)
                running.append((k, compiles(variant([i for i in inst if i != k], "i%d" % k), ["-fsyntax-only"])))
            k, p = running.pop(0)
            if p.wait():
                lost.append(k)
        if lost and len(lost) < len(inst) and compiles(variant(lost, "kept"), ["-c", "-o", obj]).wait() == 0:
            done = [lines[k].partition("//")[0].strip() for k in lost]
    shutil.rmtree(gen)
    return done


# --- Scenario files as lists of lines, for minimisation

class Scn:
    def __init__(self, text):
        self.head, self.clients, self.faults, self.switches = [], [], [], []
        cur = None
        for line in text.splitlines():
            w = line.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "client":
                cur = []
                self.clients.append(cur)
            elif w[0] == "op":
                cur.append(w[1:])
            elif w[0] == "fault":
                self.faults.append(w[1:])
            elif w[0] == "switch":
                self.switches.append((int(w[1]), int(w[2]), int(w[3])))
            elif w[0] == "sched":
                pass
            else:
                self.head.append(w)

    def copy(self):
        s = Scn("")
        s.head = [list(x) for x in self.head]
        s.clients = [[list(o) for o in c] for c in self.clients]
        s.faults = [list(f) for f in self.faults]
        s.switches = list(self.switches)
        return s

    def text(self):
        o = [" ".join(h) for h in self.head]
        for i, c in enumerate(self.clients):
            o.append("client %d" % i)
            o += ["op " + " ".join(x) for x in c]
        o += ["fault " + " ".join(f) for f in self.faults]
        o.append("sched explicit")
        o += ["switch %d %d %d" % s for s in self.switches]
        return "\n".join(o) + "\n"

    def size(self):
        return sum(len(c) for c in self.clients) + len(self.faults) + len(self.switches)


class Runner:
    def __init__(self, exe, scratch):
        self.exe, self.path, self.n = exe, os.path.join(scratch, "try.scn"), 0

    def __call__(self, text, verbose=False):
        open(self.path, "w").write(text)
        self.n += 1
        p = subprocess.run([self.exe, "exec", self.path] + (["-v"] if verbose else []), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return {"ok": False, "class": "error", "msg": "exit %d %s" % (p.returncode, p.stderr[-300:]), "hash": "", "switches": []}
        r["trace"] = p.stderr
        return r


def minimise(scn, run, cls, seconds):
    """Delta debugging over operations, faults, preemptions and numbers; keeps the violation class."""
    end = time.time() + seconds
    best = scn

    def ok(c):
        if time.time() > end:
            return None
        r = run(c.text())
        if not r["ok"] and r["class"] == cls:
            return c
        return None

    def ddmin(get, put):
        nonlocal best
        n = 2
        while time.time() < end:
            items = get(best)
            if not items:
                return
            size = max(1, len(items) // n)
            done = False
            for k in range(0, len(items), size):
                c = best.copy()
                put(c, items[:k] + items[k + size:])
                r = ok(c)
                if r:
                    best = r
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if size == 1:
                    return
                n = min(len(items), n * 2)

    def renumber(c, client, kept):
        # Faults name operations by index
        m = {old: new for new, old in enumerate(kept)}
        out = []
        for f in c.faults:
            if f[0] in ("alloc", "throw", "jump", "refuse") and len(f) > 2 and int(f[1]) == client:
                if int(f[2]) not in m:
                    continue
                f = f[:2] + [str(m[int(f[2])])] + f[3:]
            out.append(f)
        c.faults = out

    def reduce_ops(ci):
        def get(s):
            return list(range(len(s.clients[ci]))) if ci < len(s.clients) else []

        def put(c, kept):
            c.clients[ci] = [c.clients[ci][k] for k in kept]
            renumber(c, ci, kept)
        ddmin(get, put)

    for _ in range(3):
        before = best.text()
        ddmin(lambda s: list(s.switches), lambda c, v: setattr(c, "switches", v))
        if len(best.clients) > 1:  # A whole client at once, the last one first
            for ci in reversed(range(len(best.clients))):
                c = best.copy()
                c.clients[ci] = []
                renumber(c, ci, [])
                best = ok(c) or best
        for ci in reversed(range(len(best.clients))):
            reduce_ops(ci)
        ddmin(lambda s: list(s.faults), lambda c, v: setattr(c, "faults", v))
        # Numbers towards small ones
        spots = [("c", i, j, k) for i, c in enumerate(best.clients) for j, o in enumerate(c) for k in range(1, len(o))]
        spots += [("h", i, 0, k) for i, h in enumerate(best.head) if h[0] == "param" for k in range(2, len(h))]
        for kind, i, j, k in spots:
            if time.time() > end:
                break
            for v in ("0", "1", "2", "3"):
                tgt = best.clients[i][j] if kind == "c" else best.head[i]
                if k >= len(tgt) or tgt[k] == v or abs(int(tgt[k])) <= int(v):
                    break
                c = best.copy()
                (c.clients[i][j] if kind == "c" else c.head[i])[k] = v
                r = ok(c)
                if r:
                    best = r
                    break
        if best.text() == before:
            break
    return best


def symbolise(exe, msg):
    out = []
    for pc in sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", msg))):
        r = sh(["addr2line", "-Cfsie", exe, hex(int(pc, 16) - 1)])
        lines = [x for x in r.stdout.splitlines()[:12]]
        out.append("%s: %s" % (pc, " <- ".join("%s (%s)" % (lines[i][:160], lines[i + 1] if i + 1 < len(lines) else "?")
                                              for i in range(0, len(lines), 2))))
    return out


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m:
                known.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return known


def report(prop, exe, run, text, seconds):
    """Gate, minimise, write the replay file. Returns (path, class, msg)."""
    a = run(text)
    b = run(text)
    if a["ok"] or b["ok"] or a["class"] != b["class"] or a["hash"] != b["hash"] or a["class"] in ("error", "harness"):
        die("%s: a violation did not reproduce exactly: %s / %s\n%s" % (prop, a, b, text[:3000]))
    scn = Scn(text)
    scn.switches = [tuple(x) for x in a["switches"]]
    best = minimise(scn, run, a["class"], seconds)
    fin = run(best.text(), True)
    again = run(best.text())
    if fin["ok"] or again["ok"] or fin["class"] != a["class"] or again["class"] != a["class"] or fin["hash"] != again["hash"]:
        best = scn
        fin = run(best.text(), True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = best.text()
    path = os.path.join(VERIF, "replays", "%s-%s.scn" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    notes = ["# violation class: " + fin["class"], "# " + fin["msg"].replace("\n", " ")]
    notes += ["# at " + x for x in symbolise(exe, fin["msg"])]
    notes += ["# outcome hash: " + fin["hash"], "# replay: python3 run_check.py --replay " + os.path.relpath(path, VERIF)]
    notes += ["# minimised from %d to %d operations+faults+switches" % (Scn(text).size(), best.size()), "# trace:"]
    notes += ["#   " + x for x in fin.get("trace", "").splitlines()[:200]]
    open(path, "w").write("\n".join(notes) + "\n" + body)
    return path, fin["class"], fin["msg"]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        prop = re.search(r"^scenario (\S+)", text, re.M).group(1)
        exe, _ = build(PROPS[prop])
        scratch = os.path.join(BUILD, "replay-%d" % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        try:
            r = Runner(exe, scratch)(text, True)
        finally:
            shutil.rmtree(scratch)
        print(r.pop("trace"))
        r.pop("switches")
        print(json.dumps(r))
        for x in symbolise(exe, r["msg"]):
            print(x)
        sys.exit(0 if r["ok"] else 1)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    group = PROPS[prop]
    t0 = time.time()
    exe, tbuild = build(group)
    seconds = float(os.environ.get("SIM_SECONDS", "12" if tier == "quick" else "600"))
    max_runs = int(os.environ.get("SIM_RUNS", "1000000000"))
    workers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 1))))
    scratch = os.path.join(BUILD, "%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        code = search(prop, tier, seed, group, exe, tbuild, t0, seconds, max_runs, workers, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def search(prop, tier, seed, group, exe, tbuild, t0, seconds, max_runs, workers, scratch):
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, "w%d" % w)
        procs.append((out, subprocess.Popen(
            [exe, "run", prop, str(seed), str(w), str(workers), str(max(1, max_runs // workers)), str(seconds),
             "1" if tier == "thorough" else "0", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    live = dict(procs)
    stop = None
    while live:
        for out, p in list(live.items()):
            if p.poll() is not None:
                del live[out]
                if p.returncode == 1 and stop is None:
                    stop = time.time() + 2
                elif p.returncode not in (0, 1) and not (stop and p.returncode == -15):
                    for q in live.values():
                        q.kill()
                    die("worker failed (%s): " % p.returncode + p.stderr.read()[-2000:])
        if stop and time.time() > stop:
            for q in live.values():
                q.terminate()
        time.sleep(0.02)
    tot = {k: 0 for k in ["runs", "steps", "switches", "ops", "allocs", "faulted_runs", "switched_runs"]}
    probes, faults, sim_s, max_steps = {}, {}, 0.0, 0
    scns, scheds, outcomes, nontrivial = set(), set(), set(), set()
    viol = []
    search_wall = 0
    for out, p in procs:
        if not os.path.exists(out + ".json"):
            continue
        try:
            d = json.load(open(out + ".json"))
        except ValueError:
            continue
        for k in tot:
            tot[k] += d[k]
        max_steps = max(max_steps, d["max_steps"])
        search_wall = max(search_wall, d["wall"])
        sim_s += d["sim_seconds"]
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        a = array.array("Q")
        raw = open(out + ".hashes", "rb").read()
        a.frombytes(raw[:len(raw) // 40 * 40])
        for i in range(0, len(a), 5):
            scns.add(a[i])
            key = (a[i], a[i + 1])
            if a[i + 3] & 2:
                scheds.add(key)
            outcomes.add(a[i + 2])
            if (a[i + 3] & 3) or (a[i + 3] >> 8) >= 2:
                nontrivial.add(key)
        if d["violated"]:
            viol.append((d["index"], open(out + ".scn").read(), d["class"], d["msg"]))
    run = Runner(exe, scratch)
    known = load_known()
    code, nviol = 0, 0
    for k in known:
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    seen = set()
    for index, text, cls, msg in sorted(viol):
        if any(k[0] == prop and k[1].search(cls + ": " + msg) for k in known):
            continue
        if cls in seen:
            continue
        seen.add(cls)
        path, c, m = report(prop, exe, run, text,
                            float(os.environ.get("SIM_MINSEC", "40" if tier == "quick" else "120")))
        nviol += 1
        code = 1
        print("%s: %s" % (c, m))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    lost = skipped_instances(exe)
    for l in lost:
        print("NOTE: not compiled on this tree, left out: " + l)
    samples = []
    for i in range(2):
        r = sh([exe, "gen", prop, str(seed), str(i), "1" if tier == "thorough" else "0"])
        samples.append(r.stdout[:3000])
    hours = max(search_wall, 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": "one case = one seeded scenario (operations of each client, faults, heap layout, clock) with one schedule; "
                    "distinct = different scenario text or different executed interleaving; non-trivial = at least one fault "
                    "fired, or at least two context switches between clients, or at least two library operations",
            "samples": samples,
            "seeds": tot["runs"], "runs_per_hour": int(tot["runs"] / hours), "seeds_per_hour": int(tot["runs"] / hours),
            "simulated_time_s": sim_s,
            "steps": tot["steps"], "max_steps_in_a_run": max_steps,
            "operations": tot["ops"], "allocations_intercepted": tot["allocs"],
            "context_switches": tot["switches"], "runs_with_context_switches": tot["switched_runs"],
            "runs_with_faults_fired": tot["faulted_runs"], "faults_fired_by_kind": faults,
            "distinct_scenarios": len(scns), "distinct_interleavings": len(scheds),
            "distinct_interleavings_measure": "hash of the sequence (thread left, its own step number, thread entered)",
            "distinct_outcomes": len(outcomes),
            "probes": probes, "instances_left_out": lost,
            "components": REAL.get(group, "real: all library code involved; simulated: heap, scheduler, clocks"),
            "build_s": round(tbuild, 2), "search_s": search_wall, "workers": workers,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    where = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(where, exist_ok=True)
    tmp = os.path.join(where, "%s.json.%d.tmp" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(where, prop + ".json"))
    if not code and not viol and tot["runs"] == 0:
        die("no run completed")
    print("%s: %d runs in %.1f s (%d nontrivial distinct, %d interleavings, %d faulted), build %.1f s, violations: %d"
          % (prop, tot["runs"], search_wall, len(nontrivial), len(scheds), tot["faulted_runs"], tbuild, nviol))
    return code


if __name__ == "__main__":
    main()
