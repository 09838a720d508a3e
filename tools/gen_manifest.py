#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("property-based testing: random programs against a reference interpreter with running rounding bounds", "Values of every register of random straight-line programs (all operations, operand forms, f32/f64, recorded or not, odd derivative seeds). Trusts the plain float functions of std and the rounding bounds of the reference (harness/src/ir.rs)."),
 "C02": ("property-based testing: differential against the underlying float", "Every method of the generic numeric interface on arbitrary bit patterns; operations without derivative rule must panic. Trusts num's implementation for f32/f64."),
 "C03": ("property-based testing: random programs against independent derivative rules", "Directional derivatives of every register against an independent propagation with rounding bounds, away from singularities. Trusts the partial derivatives written in the reference."),
 "C04": ("property-based testing: random replay histories against a reference interpreter", "Recordings at arbitrary points, replayed at sequences of valid and invalid points."),
 "C05": ("model-based testing of recording histories", "Random histories of declarations, operations, tapes, clones and replays against frozen copies and a model of the recording."),
 "C06": ("property-based testing: reference derivatives, linearity, tapeless differential", "Forward sweeps of differentiable programs."),
 "C07": ("property-based testing: reference gradients and adjoint identity", "Reverse sweeps of differentiable programs, including repeated, constant and input outputs."),
 "C08": ("property-based testing: entrywise comparison with reference Jacobian", "Both drivers up to 40 x 40 in thread pools of 1, 2 and 6 workers."),
 "C09": ("property-based testing: independent piecewise linearization, exact dyadic arithmetic", "Increments of every register; exact equality for dyadic piecewise linear programs; second-order bound of the error against f."),
 "C10": ("property-based testing: reference partial derivatives and forward substitution", "All entries, shapes and the evaluated form; exact in dyadic programs."),
 "C11": ("property-based testing: differential against a dense matrix", "All products, rows, columns and sizes of the four blocks; the switching tape itself."),
 "C12": ("property-based testing: independent evaluation of the selected piece", "Matrix and offset, and the increment they give; exact in dyadic programs. Floating-point cases with a switching variable within rounding of zero are discarded and counted."),
 "C13": ("property-based testing: generated exact ties and sign strings against a bit-consuming reference", "Exact comparison in dyadic programs."),
 "C14": ("property-based testing: composition of affine pieces", "Random downstream parts with 0-4 rows."),
 "C15": ("property-based testing: composed program as reference, metamorphic over budgets", "Random nested chains with every kind of budget."),
 "C16": ("property-based testing with an exhaustive grid: plain fold as reference", "All lengths and budgets of a grid, random larger ones."),
 "C17": ("property-based testing with an exhaustive grid: counting live states", "Live elements are counted by instrumented element values at every callback."),
 "C18": ("property-based testing with an exhaustive grid: binomial optimum as oracle", "Forward steps are counted and compared with the closed-form optimum, which is itself checked against dynamic programming."),
 "C19": ("property-based testing: composed program as reference", "Random nested chains, wrappers delegating their chain structure, unfitting functions."),
 "C20": ("property-based testing: generated definitions compiled and compared with a reference", "Definitions are generated as source, compiled in a generated crate, and checked on plain floats, active numbers and as objects. Trusts rustc to compile the generated source form."),
 "C21": ("model-based testing of histories over several recordings", "Each recording is compared with the same recording made alone; registry and refusals are checked after every step."),
 "C22": ("randomized concurrent stress with sequential reference (recordings on 2-6 threads)", "Schedules are those of the operating system; thousands of cases per run, results checked against the sequential ones. A race with a very small window can be missed."),
 "C23": ("property-based testing of the C++ classes through a driver, against the reference", "Expressions are executed by C++ code and the recordings examined from Rust, under AddressSanitizer."),
 "C24": ("model-based testing of C++ object histories under AddressSanitizer", "Random histories in lockstep with a Rust model; memory errors are caught by AddressSanitizer, leaks by counting allocations in both languages."),
 "C26": ("property-based testing: generated arguments of wrong sizes, panic expected", "Functions that do not look at their input length themselves; every entry point with one argument too short or too long."),
 "C27": ("property-based testing against an independent jet arithmetic (nested numbers, recorded derivative computations)", "Two levels over f64 and f32, three over f64; values, replays and sweeps of recorded derivatives; running rounding bounds."),
 "C25": ("property-based testing: hand-built tapes against the program they spell out", "Permuted value ids, no-ops, constants, spare slots."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": T[i][0],
        "level": "exploration",
        "level_note": T[i][1],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [],
     "notes": "check.sh builds the harness against /repo's working tree; no hooks are needed. './check.sh --replay FILE' runs a stored case."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
