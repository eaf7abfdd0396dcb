#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ (the notes live here)."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
E2E = "runtime monitoring: offline checker over input and output files of generated runs"
LIB = "runtime monitoring: online oracle around calls of the real library in a generated workload"
SAMPLED = " Explored inputs only: random, seeded by VERIF_SEED; nothing is claimed about inputs not generated."
T = {
 "C01": (E2E, "exploration", "A harness re-evaluates the complete system of equations on every saved state of simulations with random, also starved, solver settings and compares its norm with the tolerance; runs that fail must end in an error without results."),
 "C02": (E2E, "exploration", "Structure, times and initial states of all result files are compared with an independent reading of the input."),
 "C03": (LIB, "exploration", "Jacobians of random networks at random states against Richardson-extrapolated differences of the evaluated functions, away from kinks."),
 "C04": (E2E, "exploration", "Flow balance and pressure equality at every node and time are recomputed from the result file, to solver tolerance and rounding."),
 "C05": (E2E, "exploration", "AC power flow formulas and boundary conditions are recomputed in Python from the result file."),
 "C06": (E2E, "exploration", "The conversion and the gas balance of coupled nodes are recomputed from the result file in all three regimes."),
 "C07": (E2E, "exploration", "Box scheme and friction law are recomputed independently in Python for every cell and step."),
 "C08": (LIB, "exploration", "Dense random sweeps of the balance law against independent formulas, monotonicity, smoothness and round trips."),
 "C09": (LIB, "exploration", "Random series and queries against an exact rational model."),
 "C10": (LIB, "exploration", "Random grids and time settings against an exact rational model, plus runs of the executable."),
 "C11": (LIB, "exploration", "All units x prefixes x numeric factors against an independent table, plus malformed units, which must be refused."),
 "C12": (E2E, "exploration", "Cut-offs, seed reproducibility, independence, and the exact recursion for zero volatility are checked on result files; the process itself with a recording harness."),
 "C13": (E2E, "exploration", "Valid problem directories are corrupted in one or more places with known consequence; the outcome of the executable is classified."),
 "C14": (E2E, "exploration", "Pairs of runs that must agree: defaults against written-out values."),
 "C15": (E2E, "exploration", "Pairs of runs that must agree: permuted, reformatted and enriched files; missing and duplicate entries must be refused."),
 "C16": ("runtime monitoring: concurrent runs under injected delays and write faults, checker over the output tree", "fault_enumeration", "Many processes on one directory, and a write fault at every write of a run by an interposed C library; interleavings are sampled, write faults are enumerated."),
 "C17": ("runtime monitoring: fault and crash injection at every system call, checker over the files left", "fault_enumeration", "Every file-system call of the command is once made to fail and once made the last one; all files must be old or new."),
 "C18": ("runtime monitoring: differential check of generated schemas against real runs by an independent validator", "exploration", "Python jsonschema judges; the run's own verdict is the oracle."),
 "C19": (LIB, "exploration", "Objective recomputed from the simulated trajectory, gradient against extrapolated differences, on random networks and grids."),
 "C20": (LIB, "exploration", "Random call sequences against a fresh optimizer per call."),
 "C21": (LIB, "exploration", "Structure, order, causality and difference quotients of the constraint Jacobian on random networks and grids."),
 "C22": (LIB, "exploration", "Random operation sequences against a dense model."),
 "C23": ("AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions under generated workloads", "exploration", "Valid, extreme and malformed problems through all commands of an instrumented executable. Red zones of ASan do not see every overrun inside one allocation."),
 "C24": (E2E, "exploration", "Equations of active elements are recomputed from result, control and settings files."),
 "C25": (E2E, "exploration", "Optimizations of random networks; bounds, constraints, cost and trajectory are recomputed from the published files."),
 "C26": (E2E, "exploration", "The tools are compiled and run on generated results; their outputs are recomputed in Python."),
 "C27": (LIB, "exploration", "Index ranges of all components and the pattern of written equations on random networks."),
 "C28": (E2E, "exploration", "Metamorphic pairs of runs: restart, time shift, horizon, Newton variant, repetition."),
 "C30": (E2E, "exploration", "The tools draw random networks with results of real runs and invented ones in their layout; the TeX files are read back and compared with the inputs, colours with the scale in the same picture."),
 "C29": (E2E, "exploration", "Metamorphic pairs of runs: the same network described in another way, e.g. with reversed edges."),
}
NA = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i not in NA:
        t, lvl, note = T[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} quick",
                       "thorough_cmd": f"python3-vt check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lvl,
                       "level_note": note + SAMPLED})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1,
     "setup_cmd": "python3-vt tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor works on public interfaces, files and processes. "
              "Checks build /repo's working tree into /verif/build (ignored by git)."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
import re
core = V / "lib" / "core.py"
s = core.read_text()
s = re.sub(r"LEVELS = \{.*?\}", "LEVELS = " + json.dumps({k: v[1] for k, v in T.items() if v[1] != "exploration"}), s, flags=re.S)
core.write_text(s)
