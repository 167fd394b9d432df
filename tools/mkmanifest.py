#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ and the properties in properties.jsonl."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
T = {  # property: (technique, level, note)
 "I01": ("explicit enumeration of run inputs (all single and pairwise field deviations) through every conversion chain of the real code", "exploration", "bounded-exhaustive over fields, value alphabets, symmetries and resolutions"),
 "I03": ("explicit enumeration of JSON documents x reader types on the real code (ASan/UBSan)", "exploration", "bounded-exhaustive over document shapes, value kinds and numeric limits"),
 "I04": ("explicit enumeration of netCDF variable types x ranks x shapes x readers on the real code (ASan/UBSan)", "exploration", "bounded-exhaustive"),
 "I05": ("explicit enumeration of container contents and write/read histories on the real code (ASan/UBSan)", "exploration", "bounded-exhaustive over kinds, shapes and receiving states; complete run results"),
 "I06": ("exhaustive fault enumeration: every system call of a read/write failed or shortened, all short contents", "fault_enumeration", "every libc I/O call of the operation is a fault point"),
 "N02": ("explicit enumeration of equilibria x input deviations on the real solver; every output relation recomputed from the reported geometry by an independent reference", "exploration", "bounded-exhaustive over the stated grid of runs, all relations of every run"),
 "S01": ("stateless exploration of the real solver's thread schedules under a controlled OpenMP runtime (deviation-bounded, all schedules within the bound), with happens-before race detection, against the single-threaded run", "model_checking", "all schedules within the deviation bound of three base schedules; every schedule is an execution of the implementation"),
 "N05": ("explicit enumeration of systems and partitions on the real solvers (ASan/UBSan) and exploration of all thread schedules of the parallel solver within the deviation bound", "model_checking", "bounded-exhaustive over sizes, start rows, partitions and schedules"),
 "N07": ("explicit enumeration of equilibria x input deviations x every variation (harmonic, surface) of the converged state on the real solver against an independent energy functional and vacuum field", "exploration", "bounded-exhaustive over runs, surfaces and harmonics"),
 "N03": ("explicit enumeration of resolutions, grids, unit modes and unit grid values through the real basis tables, conversions and both transform paths against direct evaluation", "exploration", "bounded-exhaustive; linear maps decided on a complete basis of their input space"),
 "S03": ("explicit enumeration of all histories of run kinds to the length bound in one process of the real solver, each outcome compared with the run alone in a fresh process; memory fill patterns", "model_checking", "all histories within the bound are executed on the implementation"),
 "F01": ("explicit enumeration of coils documents (all short line sequences over an alphabet, all single-token mutations), operation sequences and filament geometries on the real code against an independent parser, model and field formulas", "model_checking", "all sequences to the stated depth; every model trace is replayed on the implementation"),
 "F02": ("explicit enumeration of grids, tables, files, symmetries and query points on the real code against independently computed fields", "exploration", "bounded-exhaustive over the stated grids"),
 "N04": ("explicit enumeration of profile parameterisations, coefficients, knots and radii on the real evaluators against independent formulas", "exploration", "bounded-exhaustive over a coefficient/knot lattice"),
 "R01": ("explicit enumeration of run configurations (equilibria x tolerances x iteration limits x stage lists x policies) on the real solver; outcome predicted from the trace of the strictest run", "exploration", "bounded-exhaustive over the stated grid; every predicted trace is compared bit for bit with the implementation's"),
 "R02": ("explicit enumeration of all chains of input changes to the depth bound, executed as hot restarts on the real solver against cold starts, plus every single mismatch", "exploration", "bounded-exhaustive over the stated chains"),
 "S02": ("explicit enumeration of thread counts x radial resolutions x stage ladders on the real solver against the single-threaded run, and of all work partitions", "exploration", "bounded-exhaustive over the stated grid"),
 "Y01": ("explicit enumeration of array models, shapes, dtypes and values through every dump/validate path of the real code", "exploration", "bounded-exhaustive"),
 "Y02": ("explicit enumeration of coefficient tables, resolutions and conversion sequences on the real code", "exploration", "bounded-exhaustive"),
 "Y03": ("exhaustive fault enumeration: every audited file operation of each helper failed in turn, over inputs and nestings", "fault_enumeration", "every file operation of the helper is a fault point"),
 "Y05": ("explicit-state exploration of all report sequences on the real logger against a reference display model", "model_checking", "all sequences to the stated depth; every model trace is replayed on the implementation"),
 "N01": ("explicit enumeration of equilibria x equivalent descriptions (all transformations, pairs, grids and stage lists) on the real solver, results compared after transforming them back", "exploration", "bounded-exhaustive over the stated set; exact equivalences are compared to rounding including the number of time steps"),
 "R03": ("explicit-state exploration of all force-model answer sequences to the depth bound on the real scripted iteration against a control model, and conformance runs of the scripted against the native iteration", "model_checking", "all answer sequences within the bound are executed on the implementation; the model's trace is compared at every step"),
 "N06": ("explicit enumeration of radial grids (all pairs), schemes, fields and unit vectors through the real grid-change code against exact polynomials and independent interpolation", "exploration", "bounded-exhaustive; linear maps decided on a complete basis of their input space"),
 "N08": ("explicit enumeration of equilibria x geometry limits x stages x threads on the real solver against the unrestricted and the truncated-boundary run", "exploration", "bounded-exhaustive over the stated grid"),
 "I07": ("exhaustive fault enumeration: every file-changing libc call of a save failed, shortened or made the last one (process death); plus explicit enumeration of contents, shapes, special values and missing variables", "fault_enumeration", "every libc I/O call of the save is a fault and crash point; contents bounded-exhaustive"),
 "I02": ("explicit enumeration of documents (every field x every defect, all prefixes and one-byte changes, coupled sizes) through the real readers and the solver (ASan/UBSan, one process per document) against a reference reader", "exploration", "bounded-exhaustive over fields, defect alphabet and document positions"),
}
N = {}  # not applicable
exec((R / "tools" / "manifest_extra.py").read_text()) if (R / "tools" / "manifest_extra.py").exists() else None
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
have = {p.name.split("_")[0].upper() for p in (R / "checks").glob("*_*.py")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in N:
        t, l, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": N.get(i, "check not built yet")})
doc = {"version": 1, "setup_cmd": "/opt/vp/venv/bin/python -B -c 'import numpy, pydantic'",
       "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources out of tree (cmake/CMakeLists.txt) and control them from outside", "source_commits": []},
       "checks": checks, "not_applicable": na}
(R / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
