#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED maps the claimed properties to technique and note."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "Random search, no proof: only the generated cases are decided. "
C = {
 "P01": ("property-based testing against a ball-arithmetic reference model, all builds", GEN + "Tolerance is a rigorous rounding bound; trusts double precision libm in the oracle."),
 "P02": ("differential property-based testing of seven builds and elementwise oracles", GEN + "Needs the CPU features of each build; builds the CPU cannot run are left out."),
 "P03": ("metamorphic property-based testing: batch versus single predictions, guard pages", GEN + "Both sides come from the code under test; P01 ties single prediction to the definition."),
 "P04": ("property-based testing against long double definitions, sweeps over float space", GEN + "Error bounds are fixed multiples of float32 rounding."),
 "P05": ("property-based testing against a ball-arithmetic gradient model", GEN + "Kinks of the losses and activations are intervals."),
 "P06": ("property-based testing against textbook definitions in double precision", GEN + "Rounding of exactly one half is left open."),
 "P07": ("property-based testing with recording metric functions", GEN + "The mean is compared within float32 rounding bounds."),
 "P08": ("model-based testing with a recording loss function; chi-square tests of sample orders", GEN + "Randomness of orders is judged statistically at z < 7."),
 "P09": ("model-based lockstep testing against the published update rules", GEN + "The model starts every batch from the parameters observed before it, with its own state."),
 "P10": ("model-based random interleavings of object histories versus each object alone, all builds", GEN + "An object's history alone, in a fresh process, is the oracle."),
 "P11": ("differential property-based testing over thread counts and concurrent callers, with ThreadSanitizer builds", GEN + "Schedules are those the machine produces under load; TSan generalises over the observed synchronisation."),
 "P12": ("property-based testing (Hypothesis) with numpy as the independent reader and writer", GEN + "numpy and zipfile are the trusted reference for the format."),
 "P13": ("structured mutation fuzzing of model files under ASan and UBSan against a reference validator, and coverage-guided fuzzing (libFuzzer)", GEN + "Refusal is demanded only for files with canonical headers whose arrays the oracle classes as inconsistent."),
 "P14": ("property-based testing (Hypothesis): round trips and exchange with numpy in both directions", GEN + "numpy and zipfile are the trusted reference for the format."),
 "P15": ("structured mutation fuzzing and coverage-guided fuzzing (libFuzzer) of npy and npz files under ASan and UBSan", GEN + "Malformed means by numpy's format or by lengths the header announces."),
 "P16": ("fault enumeration: every system call of generated saves is failed or the process killed there, every byte limit", "Faults are enumerated completely per generated save; the saves are generated. Process death, not power loss."),
 "P17": ("model-based testing of generated monitored histories", GEN + "Monitored values are finite."),
 "P18": ("model-based testing of generated monitored histories, the file read back after every epoch", GEN + "Monitored values are finite."),
 "P19": ("model-based testing of generated logs, restarts and previous file contents", GEN + "Time of day is checked against the clock before and after."),
 "P20": ("property-based testing against the layout definition, all builds", GEN),
 "P21": ("property-based testing with statistical tests of the drawn weights", GEN + "Distributions are judged at significance far below false-alarm rates (z > 6)."),
 "P22": ("random API histories under ASan and UBSan with leak accounting; metamorphic runs with different memory contents", GEN + "Networks of up to some hundred units; failing allocations are P26's."),
 "P23": ("property-based testing with generated activation libraries against a ball-arithmetic model, and fuzzed names", GEN + "Names that resolve to symbols of the process itself are outside the domain."),
 "P24": ("property-based testing on pseudo terminals of generated widths", GEN),
 "P25": ("model-based testing (Hypothesis) of append and prepend sequences with zipfile as the reader", GEN + "Names libzip refuses are outside the domain."),
 "P26": ("fault injection with generated inputs: each allocation of a generated call fails, once or for good, against an all-or-nothing oracle", GEN + "Of calls with very many allocations a random selection fails. Leaks are judged only when the library's own allocations fail, because libzip leaks by itself."),
 "P27": ("model-based and differential property-based testing of generated user-written optimizers, callbacks, losses and metrics against built-in ones", GEN + "Twin optimizers are compared within 1e-3 over epochs on smooth losses with small steps."),
}
REST = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        t, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "fault_enumeration" if i == "P16" else "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": REST.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
