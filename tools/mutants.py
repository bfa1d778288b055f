#!/usr/bin/env python3
"""Mutation campaign: textual mutants of the library's headers, run against the checks in scratch copies.

mutants.py OUT.jsonl [-n MAX] [-s SEED] [-j JOBS] [FILE...]
Only lines of the original repository are mutated. One line of OUT per mutant: file, line, old, new, verdict
("killed C14 ...", "survived", "nocompile", "noanswer C14 ..."). Mutants already in OUT are not run again.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
BASE = "661b734"
T = "LitlTransforms/LitlTransforms/"
R = "LitlRaster/LitlRaster/"
C = "LitlContainer/LitlContainer/"
CHECKS = {
    C + "AlignedBuffer.h": "C25 C04 C05", C + "Arithmetic.h": "C23 C05 C15 C14 C12 C09", C + "ContiguousContainer.h": "C26 C06 C18 C23 C05 C04",
    C + "DataContainer.h": "C25 C06 C18 C23 C05 C04", C + "DataDistribution.h": "C19", C + "Holders.h": "C25 C06 C18 C05 C04 C01",
    C + "Math.h": "C23 C05 C06 C09 C19", C + "Random.h": "C07 C08 C05", C + "Sequence.h": "C25 C23 C06 C19 C05",
    "LitlIo/LitlIo/Fits.h": "C01 C02 C03", R + "Ball.h": "C24 C21", R + "BallIterator.h": "C21", R + "Box.h": "C24 C21 C18 C14 C16 C05",
    R + "BoxIterator.h": "C21 C18 C14", R + "Raster.h": "C25 C23 C18 C06 C05 C01 C14", R + "Sampling.h": "C24 C15 C21 C14",
    R + "Subraster.h": "C18 C21 C16", R + "SubrasterIterator.h": "C21 C18 C16", R + "Vector.h": "C23 C24 C21 C18 C06 C05 C01",
    R + "impl/Raster.hpp": "C25 C18 C21 C01 C05 C20", "LitlRun/LitlRun/Chronometer.h": "C09 C20",
    "LitlRun/LitlRun/IterationBenchmark.h": "C20", "LitlRun/src/lib/IterationBenchmark.cpp": "C20",
    "LitlRun/LitlRun/ProgramOptions.h": "C22", "LitlRun/LitlRun/StepperPipeline.h": "C10 C11", T + "Convolution.h": "C15", T + "Dft.h": "C12 C13 C05",
    T + "DftMemory.h": "C12 C13 C05", T + "DftPlan.h": "C12 C13 C05", T + "Interpolation.h": "C17 C14 C16 C15",
    T + "InterpolationMethods.h": "C17 C14 C16", T + "Kernel.h": "C14 C15 C05", T + "LineKernel.h": "C15 C14",
    T + "MedianFilter.h": "C16 C05", T + "SeparableKernel.h": "C15 C05", "LitlTypes/LitlTypes/Exceptions.h": "C25 C02 C05 C12",
    "LitlTypes/LitlTypes/Segment.h": "C15 C14", "LitlTypes/LitlTypes/SeqUtils.h": "C26 C01 C18 C06",
    "LitlTypes/LitlTypes/TypeUtils.h": "C23 C07 C04 C12 C19 C01",
}
SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=>\w:])|(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"==", "!="), (r"!=", "=="),
         (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"\+=", "-="), (r"-=", "+="),
         (r"\*=", "/="), (r"&&(?= )(?=[^>]*$)", "||"), (r"\|\|", "&&"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"),
         (r"\bfront\b", "back"), (r"\bback\b", "front"), (r"\bbegin\(", "end("), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
         (r"\bauto&", "auto"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"if \((.*)\) \{$", r"if (not (\1)) {"), (r"\bif \((.*)\) \{$", r"if (false) {"), (r"\bif \((.*)\) \{$", r"if (true) {"),
         (r"\? (.*) : (.*);", r"? \2 : \1;"), (r"\+\+(\w)", r"--\1"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"),
         (r"\b(\w+)\(\) \+ 1", r"\1()"), (r" - 1\b", ""), (r" \+ 1\b", ""),
         (r"(?<=^)(\s+)(auto|const auto|T|Index|double) (\w+) = ", r"\1static \2 \3 = "), (r"\bm_(\w+) = ", r"auto m_\1 = "),
         (r"\bIndex (?=\w+( =|;|\)| :|,|\())", "int "), (r"std::size_t (?=\w+( =|;|\)| :|,|\())", "unsigned "), (r"\bdouble\b", "float"),
         (r"\blong\b", "int"), (r"std::move\((\w+)\)", r"\1"), (r"\bstd::int64_t\b", "int"), (r"\bint(?= \w+ =)", "char"),
         (r"^(\s+)((?:const )?(?:std::vector|std::array|Position|Vector|Raster|VecRaster|TRasterOut|TRaster|Box|TOut|Value|DataSamples|std::\w+)\b[^()=]* \w+(?:\(.*\)| ?\{.*\}| = .*)?;)$",
          r"\1static \2"),
         (r"^(\s+)((?:const )?(?:std::vector|std::array|Position|Vector|Raster|VecRaster|TRasterOut|TRaster|Box|TOut|Value|DataSamples|std::\w+)\b[^()=]* (\w+)(?:\(.*\)| ?\{.*\}| = .*)?;)$",
          r"\1thread_local \2"), (r"(?<=^)(\s+)(auto) (\w+) = ", r"\1thread_local auto \3 = "), (r"\bstd::abs\b", ""),
         (r"\bsize\(\)", "size() / 2 * 2"), (r"< (\w+);", r"< \1 - 1;"), (r" = 0;", " = 1;"), (r"\+\+(\w+);", r"\1 += 2;")]


def code_lines(path):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "--abbrev=7", path], stdout=subprocess.PIPE, text=True).stdout
    res = []
    for k, l in enumerate(out.splitlines()):
        m = re.match(r"(\S+)\s+(?:\S+\s+)?\d+\) ?(.*)$", l)
        res.append((m.group(1).startswith("^") or m.group(1).startswith(BASE), m.group(2)))
    return res


def mutants(path, first=0):
    lines = code_lines(path)
    text = open(os.path.join(REPO, path)).read().splitlines()
    assert len(text) == len(lines), path
    comment = False
    for k, l in enumerate(text):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        inside = comment
        if "*/" in s:
            comment = False
        if inside or not s or s.startswith(("//", "#", "*", "template", "using", "static_assert", "namespace", "struct ", "class ", "@", "friend")):
            continue
        if not lines[k][0]:
            continue
        seen = set()
        for a, b in SWAPS[first:]:
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if new != l and new not in seen and "//" not in l[:m.start()]:
                    seen.add(new)
                    yield k, l, new
        if first:
            continue
        if re.match(r"[A-Za-z_:*+(].*;$", s) and not re.match(r"(return|const|auto|static|using|throw|case|T |Index |std::\w+<.*> \w|break|continue|default)", s) \
                and re.search(r"\(|=|\+\+|--", s) and not re.search(r"= (default|delete)", s):
            yield k, l, re.match(r"\s*", l).group(0) + ";"
        if re.match(r"throw .*;$", s):
            yield k, l, re.match(r"\s*", l).group(0) + ";"


def judge(path, k, old, new, slot):
    root = "/tmp/mut%d" % slot
    if os.path.exists(root + "/repo"):
        shutil.rmtree(root + "/repo")
    os.makedirs(root + "/repo")
    subprocess.run("git -C %s archive HEAD | tar -x -C %s/repo" % (REPO, root), shell=True, check=True)
    p = root + "/repo/" + path
    lines = open(p).read().splitlines()
    assert lines[k] == old
    lines[k] = new
    open(p, "w").write("\n".join(lines) + "\n")
    env = dict(os.environ, VERIF_REPO=root + "/repo", SIM_BUILD=root + "/build", SIM_SECONDS=os.environ.get("SECS", "3"), SIM_WORKERS="2",
               SIM_MINSEC="0", SIM_EVIDENCE=root + "/evidence", SIM_NOSALVAGE="1")
    last = "survived"
    for c in CHECKS[path].split()[:int(os.environ.get("MAXCHECKS", "9"))]:
        try:
            r = subprocess.run(["python3", "/verif/run_check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return "noanswer %s timeout" % c
        if r.returncode == 1:
            m = re.search(r"^(\S+): (.*)\nVIOLATION", r.stdout, re.M)
            return "killed %s %s" % (c, m.group(0)[:120] if m else "")
        if r.returncode == 2:
            if "build failed" in r.stdout:
                if last == "survived":
                    last = "nocompile"
                if "error:" in r.stdout:
                    return "nocompile"
            else:
                return "noanswer %s %s" % (c, r.stdout[-400:])
    return last


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    opt = {"-n": "200", "-s": "1", "-j": "4", "-f": "0"}  # -f: first operator
    while args and args[0] in opt:
        opt[args[0]] = args[1]
        args = args[2:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["old"], d["new"]))
    todo = []
    for f in args or CHECKS:
        todo += [(f,) + m for m in mutants(f, int(opt["-f"]))]
    random.Random(int(opt["-s"])).shuffle(todo)
    todo = [t for t in todo if (t[0], t[2].strip(), t[3]) not in done]
    print("%d candidates" % len(todo), flush=True)
    todo = todo[:int(opt["-n"])]
    slots = list(range(int(opt["-j"])))

    def one(t):
        slot = slots.pop()
        try:
            v = judge(*t, slot)
        finally:
            slots.append(slot)
        with open(out, "a") as f:
            f.write(json.dumps({"file": t[0], "line": t[1] + 1, "old": t[2].strip(), "new": t[3], "verdict": v}) + "\n")
    with ThreadPoolExecutor(len(slots)) as ex:
        list(ex.map(one, todo))
    for s in range(int(opt["-j"])):
        shutil.rmtree("/tmp/mut%d" % s, ignore_errors=True)


if __name__ == "__main__":
    main()
