#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ trace validation: TLC checks sessions recorded from the real library, step by step, against %s"
T = {
 "P01": TRACE % "Binary32/FloatOps (exact IEEE arithmetic over the reals)",
 "P02": TRACE % "IntOps/Bits32 (integers of unbounded width, bit operations by definition)",
 "P03": TRACE % "BoolOps, every Boolean argument enumerated",
 "P04": TRACE % "Zcm with the state of all live values (frame condition at every step)",
 "P05": TRACE % "Layout (every view of one object is a function of its lanes)",
 "P06": TRACE % "Layout (every name of every vector); SwizzleTable for the printed tables",
 "P07": TRACE % "FloatOps/IntOps/BoolOps; TLC-generated container histories replayed on std::set and std::map",
 "P08": TRACE % "Common (rounding defined over the reals)",
 "P09": TRACE % "Common (GLSL selection functions)",
 "P10": TRACE % "Common (classification, relations, reductions)",
 "P11": TRACE % "Elementary (real exponential functions, error balls)",
 "P12": TRACE % "Elementary (real trigonometric functions, error balls)",
 "P13": TRACE % "LinAlg (Euclidean definitions over the reals, error balls)",
 "P14": TRACE % "LinAlg (GLSL optics, error balls)",
 "P15": TRACE % "LinAlg (contracts of orthogonal and octahedral)",
 "P16": TRACE % "LinAlg/FloatOps (column-major products)",
 "P17": TRACE % "LinAlg (Laplace expansion over the reals)",
 "P18": TRACE % "Transform (affine maps and view matrices)",
 "P19": TRACE % "Transform (projections)",
 "P20": TRACE % "Transform (decomposition)",
 "P21": TRACE % "Quaternions (Hamilton algebra)",
 "P22": TRACE % "Quaternions (conversions)",
 "P23": TRACE % "Quaternions (interpolation)",
 "P24": TRACE % "Color (sRGB curves)",
 "P25": "TLA+: TLC-generated histories of sets and maps replayed on std::unordered_*; recorded hashes and histories validated against Hash and ContainerTrace",
 "P26": "TLA+ trace validation: observations of the same calls from concurrent threads and several builds against Pure (first observation fixes the result)",
 "P27": TRACE % "Constants (real numbers rounded to nearest)",
 "P28": "TLA+: TLC-enumerated histories of generator runs replayed; the trees they leave validated against BenchTrace",
}
NOTE = ("Model checking of the specification over small domains, and of every recorded session of the code; the conclusion about the code covers the "
        "sessions executed (all arguments where the domain is finite and small, otherwise specials, boundaries and seeded samples). "
        "Trusts TLC, the Java arithmetic overrides (checked against their TLA+ definitions by MC_Arith), and the recording driver.")
EXTRA = {
 "P26": " Schedules are those the machine produces, not enumerated: the library has no shared state to interleave, so what is looked for is any state at all.",
 "P28": " Every generated source of the checked runs is compiled, one program is linked and run.",
}
checks = [{"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p, "technique": t,
           "level": "model_checking", "level_note": NOTE + EXTRA.get(p, "")} for p, t in T.items()]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the library's API exposes its whole state, so /repo carries only fix: commits. known_findings.txt lists what was found and repaired."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
