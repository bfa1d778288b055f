"""Writes /verif/MANIFEST.json from the list of built checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
READY = open(V + "/tools/ready.txt").read().split()
NOTE = {
    "C01": "seeded search over histories of writes, reads, restarts and crash points on a simulated disk, with the real cfitsio; oracle: the rasters written",
    "C02": "seeded search over disk fault sequences below the real cfitsio; oracle: reference model of the disk; a fault may be tolerated by cfitsio, in which case the result must be right",
    "C03": "as C02 with recovery phases, counting open handles and simulated-heap blocks after every operation",
    "C04": "seeded search over ownership histories with failing allocations on a simulated heap which detects leaks, double frees, use after free and out-of-bounds accesses; oracle: ownership model",
    "C05": "seeded failure of the k-th allocation of each operation of random programs; oracle: the same operation run without failure, snapshots of the inputs, leak accounting",
    "C06": "seeded search over programs with throwing functors and interleaved clients; oracle: call log and expected prefix",
    "C07": "two executions of the same generator under different clocks, heap layouts, neighbours and interleavings must agree; ranges checked",
    "C08": "relational oracle (same seed, two inputs) under interleaved neighbours and simulated clock",
    "C09": "histories of chronometer calls on a simulated clock; oracle: exact integer accounting",
    "C10": "histories of requests with failing steps; oracle: reference model of lazy evaluation over the dependency graph",
    "C11": "histories on simulated monotonic and system clocks with jumps; oracle: exact durations",
    "C12": "interleaved execution of real FFTW plans with seeded planner choices and scribbled buffers; oracle: direct DFT summation with tolerance, race detection",
    "C13": "plan and buffer life cycles with failing allocations and refused plans; oracle: counts of created and destroyed plans, simulated heap",
    "C14": "interleaved clients sharing kernels and inputs; oracle: direct summation on integer-valued data, race detection",
    "C15": "interleaved clients sharing separable kernels; oracle: successive direct summations, race detection",
    "C16": "interleaved clients sharing a filter; oracle: sort-based median, race and out-of-bounds detection",
    "C17": "interleaved clients sharing decorators; oracle: independent formulas, race detection",
    "C18": "interleaved clients on disjoint views; oracle: model array indexed independently, race and out-of-bounds detection",
    "C19": "query histories with failing allocations; oracle: statistics recomputed from a sorted copy",
    "C20": "histories of strategies on simulated clocks; oracle: element-wise sum and exact durations",
    "C22": "histories of declarations, command lines, copies and queries with failing allocations, over the real Boost.ProgramOptions; oracle: reference model of the options set",
    "C23": "operation histories with aliased and shared operands and failing allocations; oracle: the scalar operation on a copy of the values, race detection",
    "C24": "operation histories on regions with aliased and shared operands and failing allocations; oracle: integer bounds and position counts, race detection",
    "C25": "histories of right and wrong calls with failing allocations; oracle: which calls are right, snapshots of every operand, race and out-of-bounds detection",
    "C26": "streams which fail or throw at a seeded character, functions which throw at a seeded call, failing allocations; oracle: the text and calls expected, of which the outcome must be the beginning",
    "C21": "interleaved and copied iterators; oracle: independent enumeration of the region",
}
TECH = "deterministic simulation with fault injection: seeded search over histories, schedules and faults, exact replay"
checks, na = [], []
NA = {
    "N04": "pure linear algebra on values, without environment behaviour to simulate; most of it does not compile yet or is unfinished (Matrix.h, Affinity.h)",
    "N05": "compile-time constants and types, nothing nondeterministic to simulate",
}
for p in props:
    i = p["id"]
    if i in READY:
        checks.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="python3 run_check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="exploration",
                           level_note=NOTE[i] + ". Assurance is that of the runs explored (see evidence), not exhaustive; trusts the simulator in sim/ and g++-9."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check registered yet in this commit (planned, see DESIGN.md)")))
m = dict(version=1, setup_cmd="python3 --version && g++-9 --version", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is at compile or link level (see DESIGN.md). Checks build from /repo's working tree into /verif/build.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks", len(na), "not applicable")
