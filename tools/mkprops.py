#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
C = "src/vmecpp/cpp/"
V = C + "vmecpp/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("S01", "Every thread schedule of a solve terminates with the same answer",
 "However the operating system interleaves the worker threads of one equilibrium solve, the solve terminates, contains no data race and no deadlock, and produces the same iteration history and the same equilibrium up to floating-point rounding. This holds for fixed and free boundary, with and without stellarator symmetry.",
 ["schedules"], "all interleavings of the worker threads at synchronisation points, for every small solve in the driver set",
 "A test observes the one schedule the machine happens to produce; a missing barrier or an unprotected shared accumulator only shows under a rare interleaving.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"common/util/util.cc", V+"free_boundary/laplace_solver/laplace_solver.cc", V+"free_boundary/nestor/nestor.cc"],
 [("parallel force iteration", V+"vmec/vmec/vmec.cc"), ("residual reductions, barriers, single sections", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"), ("parallel tridiagonal solve", V+"common/util/util.cc"), ("vacuum solve hand-over", V+"free_boundary/laplace_solver/laplace_solver.cc")])

prop("S02", "The result does not depend on the number of threads",
 "For every radial resolution and every requested thread count, including more threads than there is work and the automatic choice, each flux surface and each boundary grid point is worked on by exactly one worker and the run gives the same equilibrium, up to rounding, as a single-threaded run. A thread count of zero or below is rejected.",
 ["configurations"], "all radial resolutions x thread counts x boundary kinds within the bound",
 "Tests fix one thread count and one resolution; remainders, empty partitions and off-by-one boundaries only appear for particular pairs.",
 [V+"vmec/radial_partitioning/radial_partitioning.cc", V+"free_boundary/tangential_partitioning/tangential_partitioning.cc", V+"common/util/util.cc", V+"vmec/vmec/vmec.cc"],
 [("radial work split", V+"vmec/radial_partitioning/radial_partitioning.cc"), ("tangential work split", V+"free_boundary/tangential_partitioning/tangential_partitioning.cc"), ("thread count adjustment", V+"vmec/vmec/vmec.cc")])

prop("S03", "A run depends only on its inputs, not on what ran before",
 "In one process, the outcome of a run (result or error) is identical to running it alone in a fresh process, whatever sequence of runs preceded it: successful, failing, non-converged, interrupted, hot-restarted or with another thread count. A run never modifies the input, the restart state or the magnetic-field table passed to it.",
 ["histories"], "all sequences of run operations up to the length bound over the operation alphabet",
 "Unit tests run each case once from a fresh state; leaked global or cached state needs a particular order of runs to show.",
 ["src/vmecpp/__init__.py", V+"vmec/vmec/vmec.cc", V+"vmec/pybind11/pybind_vmec.cc"],
 [("Python run entry point", "src/vmecpp/__init__.py"), ("solver entry point", V+"vmec/vmec/vmec.cc")])

prop("R01", "A run reports convergence if and only if the tolerance was met",
 "A run returns a normal result only when all force residuals of the last radial stage are at or below the requested tolerance; otherwise it reports an error, unless the caller asked for non-converged output, in which case the result is flagged as not converged. The recorded residual, restart and energy histories have one entry per time step taken, are consistent with the reported final residuals and stage structure, and the iteration limits of every stage are respected.",
 ["configurations"], "all combinations of tolerance, iteration limit, stage list and non-converged policy within the grid, for several equilibria",
 "Tests use settings that converge; the boundary between converged and not, limits of one iteration and skipped stages are not sampled.",
 [V+"vmec/vmec/vmec.cc", V+"common/flow_control/flow_control.cc", "src/vmecpp/__init__.py"],
 [("convergence test and multigrid loop", V+"vmec/vmec/vmec.cc"), ("result assembly", V+"vmec/output_quantities/output_quantities.cc")])

prop("R02", "Hot restart continues from the supplied state and reaches the same solution",
 "Restarting from a converged result with unchanged inputs converges at once and reproduces that equilibrium; restarting with changed inputs converges to the equilibrium a cold start of those inputs gives, within the force and discretisation tolerance (the choice of the poloidal angle may differ). Going through a wout file changes nothing. A restart whose resolution or symmetry does not match is rejected with an error and no result.",
 ["histories", "configurations"], "all chains of restarts up to the depth bound over the set of input changes, plus all single mismatches",
 "Tests try one restart; chains of restarts and each kind of mismatch are not covered.",
 [V+"vmec/vmec/vmec.cc", "src/vmecpp/__init__.py", V+"vmec/output_quantities/output_quantities.cc"],
 [("restart set-up", V+"vmec/vmec/vmec.cc"), ("restart conversion and checks", "src/vmecpp/__init__.py")])

prop("R03", "The scripted iteration follows the documented control and matches the native one",
 "For every sequence of answers the force model can give, the scripted iteration declares convergence exactly when the three residuals are finite and within tolerance, restores only states it saved, cuts the time step by the documented factors, re-guesses the axis at most once, gives up after the documented number of resets and never exceeds the iteration limit. In the styles the native solver also has, it reproduces the native solver's residual history step by step.",
 ["histories", "fault_sequences"], "all sequences of force-model answers up to the depth bound, plus all configurations of the conformance grid",
 "The reverting, re-guessing and escalation branches need specific residual sequences that the few converging test cases never produce.",
 ["src/vmecpp/_iteration.py", V+"vmec/vmec/vmec.cc", V+"vmec/pybind11/pybind_vmec.cc"],
 [("scripted iteration control", "src/vmecpp/_iteration.py"), ("native iteration control", V+"vmec/vmec/vmec.cc")])

prop("N01", "Equivalent descriptions of one plasma give equivalent equilibria",
 "Describing the same plasma in an equivalent way (more field periods folded into one, symmetric shape solved without assuming symmetry, mirrored or rotated in the toroidal direction, poloidal angle reversed, uniformly scaled length or field, extra zero Fourier modes in the boundary list, other but sufficient real-space grid, direct or intermediate radial stages) gives the equilibrium transformed in the same way, within discretisation-independent tolerance.",
 ["inputs", "configurations"], "all equilibria in the set x all listed transformations (and pairs in the thorough tier)",
 "A reference value for one case cannot reveal a branch that is wrong only for asymmetric, reversed, scaled or many-period inputs.",
 [V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"vmec/boundaries/boundaries.cc", V+"vmec/boundaries/guess_magnetic_axis.cc", V+"vmec/ideal_mhd_model/fft_toroidal.cc", V+"vmec/output_quantities/output_quantities.cc"],
 [("force model", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"), ("boundary conversion", V+"vmec/boundaries/boundaries.cc"), ("output computation", V+"vmec/output_quantities/output_quantities.cc")])

prop("N02", "Reported output quantities agree with the reported geometry and field",
 "The scalar and profile outputs of every converged run (volume, aspect ratio, radii, beta, energies, fluxes, rotational transform, enclosed currents, axis, magnetic field and Jacobian spectra) satisfy their defining relations when recomputed independently from the reported flux-surface geometry, stream function and input profiles. The input's prescribed profiles, total flux and current are the ones realised in the output.",
 ["inputs", "configurations"], "all equilibria in the set x all output relations",
 "Tests compare stored numbers for a few cases on which a wrong normalisation, sign or half-grid shift may cancel.",
 [V+"vmec/output_quantities/output_quantities.cc", "src/vmecpp/__init__.py"],
 [("output computation", V+"vmec/output_quantities/output_quantities.cc")])

prop("N03", "Fourier conversions are exact inverses and both transform paths agree",
 "For every spectral resolution, field-period count and real-space grid size, conversions between combined and separated Fourier bases are lossless, the mode tables list every resolved mode exactly once, and the fast and the direct toroidal transforms give the same real-space fields and the same projected forces. Grid sizes chosen by the code always resolve the requested modes.",
 ["configurations", "inputs"], "all resolutions and grid sizes up to the bound, every unit mode as input (linearity covers the rest)",
 "Tests use a handful of grid sizes; a specialised codelet or an edge mode is only exercised at specific sizes.",
 [V+"common/fourier_basis/fourier_basis.cc", V+"common/sizes/sizes.cc", V+"vmec/ideal_mhd_model/dft_toroidal.cc", V+"vmec/ideal_mhd_model/fft_toroidal.cc"],
 [("basis tables and conversions", V+"common/fourier_basis/fourier_basis.cc"), ("fast transforms", V+"vmec/ideal_mhd_model/fft_toroidal.cc"), ("direct transforms", V+"vmec/ideal_mhd_model/dft_toroidal.cc")])

prop("N04", "Radial profiles follow their documented formulas everywhere",
 "For every profile parameterisation and every coefficient set, the pressure, rotational-transform and enclosed-current profiles equal the documented formula at every radius in [0, 1], including knots, the axis and the edge; interpolating profiles reproduce the given points and current-derivative profiles are integrated from the axis. A parameterisation is accepted exactly for the profile kinds it is documented for.",
 ["inputs"], "all parameterisations x profile kinds x coefficient patterns x radii in the grid, against an independent implementation",
 "Tests evaluate a few parameterisations at a few points; knots, end points, short coefficient lists and integrated variants are not covered.",
 [V+"vmec/radial_profiles/radial_profiles.cc", V+"vmec/profile_parameterization_data/profile_parameterization_data.cc", "src/vmecpp/__init__.py"],
 [("profile evaluation", V+"vmec/radial_profiles/radial_profiles.cc"), ("profile table", V+"vmec/profile_parameterization_data/profile_parameterization_data.cc")])

prop("N05", "The radial linear solves are exact for every size and thread split",
 "For every radial size, starting surface, number of right-hand sides and number of workers, the block of tridiagonal systems solved each iteration yields the solution of the original systems to rounding accuracy, and never touches memory outside its arrays.",
 ["configurations", "schedules"], "all sizes x start rows x worker counts x schedules within the bound",
 "Tests solve one system size with one split; hand-over rows between workers depend on the exact split.",
 [V+"common/util/util.cc", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"],
 [("serial and parallel tridiagonal solver", V+"common/util/util.cc")])

prop("N06", "Radial interpolation between stages preserves the represented surfaces",
 "Moving a solution to a finer radial grid, with any interpolation scheme and any pair of grid sizes, keeps the boundary exactly and reproduces, at surfaces common to both grids, the original values; profiles that the scheme represents exactly are reproduced on every new surface. Moving to the same grid changes nothing.",
 ["configurations"], "all grid pairs x schemes x Fourier modes within the bound",
 "Tests refine between one or two grid pairs only.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/fourier_geometry/fourier_geometry.cc", "src/vmecpp/_continuation.py"],
 [("multigrid interpolation", V+"vmec/vmec/vmec.cc"), ("Fourier-resolution continuation", "src/vmecpp/_continuation.py")])

prop("N07", "A converged result is a magnetohydrodynamic equilibrium",
 "The flux surfaces and the stream function of a converged result make the plasma energy stationary, for the prescribed flux, pressure and rotational transform or current: no Fourier harmonic of any inner surface or of the stream function can be changed to lower the energy beyond the requested force tolerance and the discretisation error. With a free boundary, total pressure also balances across the plasma boundary with a vacuum field that is consistent with the coils, their currents and the plasma current. Published reference equilibria are reproduced.",
 ["inputs", "configurations"], "all equilibria in the set x parameter changes x every Fourier harmonic and every surface; all reference equilibria shipped with the code",
 "Tests compare a few stored runs; a wrong force term that vanishes for those symmetries, profiles or resolutions converges to something that is no equilibrium without any residual showing it.",
 [V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"free_boundary/nestor/nestor.cc", V+"free_boundary/singular_integrals/singular_integrals.cc", V+"free_boundary/regularized_integrals/regularized_integrals.cc", V+"free_boundary/laplace_solver/laplace_solver.cc", V+"free_boundary/external_magnetic_field/external_magnetic_field.cc"],
 [("plasma forces", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"), ("vacuum field", V+"free_boundary/nestor/nestor.cc")])

prop("N08", "A geometry resolution limit restricts exactly the geometry",
 "With a reduced resolution requested for the geometry, no surface of the result, on any stage, thread count or symmetry, contains R or Z harmonics beyond it, while the stream function keeps the full resolution. Boundary harmonics beyond the limit have no effect on the converged result. A limit at or above the full resolution, or none, gives the unrestricted result exactly.",
 ["inputs", "configurations"], "all equilibria in the set x all limits in both directions x stages x thread counts",
 "Tests run one limit on one equilibrium; a harmonic that escapes the limit on one path (interpolation, restart, non-symmetric part, other threads) only shows in the combination using that path.",
 [V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"common/sizes/sizes.cc", V+"vmec/vmec/vmec.cc"],
 [("geometry limit", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc")])

prop("I01", "Run inputs survive every conversion unchanged",
 "Writing any valid run input to JSON or to the binary container and reading it back, or converting it between the scripting and the native representation, yields the same input: every scalar, option, array and Fourier coefficient, for symmetric and non-symmetric cases alike. Changing the Fourier resolution keeps all coefficients that still fit and zero-fills the rest.",
 ["inputs"], "every field x representative values x both symmetries x all small resolutions, through every conversion chain up to the length bound",
 "Tests round-trip one or two example files in which most fields hold defaults.",
 [V+"common/vmec_indata/vmec_indata.cc", "src/vmecpp/__init__.py", "src/vmecpp/_util.py", V+"vmec/pybind11/pybind_vmec.cc"],
 [("native input reader/writer", V+"common/vmec_indata/vmec_indata.cc"), ("scripting input model", "src/vmecpp/__init__.py")])

prop("I02", "Malformed or unsupported input is refused cleanly",
 "Any input document or input object that is malformed, of wrong type, out of range, inconsistent in size or that requests an unsupported option leads to an error that the caller can handle; it never crashes or aborts the process, reads or writes out of bounds, hangs, or yields a result computed from something else than what was asked. Optional settings left out take their documented defaults.",
 ["inputs"], "every single mutation of every field of the base inputs from the mutation alphabet (pairs in the thorough tier)",
 "Tests check a few known-bad fields; the space of field x defect is only covered by enumeration.",
 [V+"common/vmec_indata/vmec_indata.cc", V+"common/vmec_indata/boundary_from_json.cc", "src/vmecpp/__init__.py", V+"vmec/pybind11/pybind_vmec.cc"],
 [("input parsing", V+"common/vmec_indata/vmec_indata.cc"), ("consistency checks", V+"common/vmec_indata/vmec_indata.cc")])

prop("I03", "Typed JSON reading is exact or an error",
 "Reading a named value of a given type from a JSON document returns exactly the stored value when it is present with that type, returns 'absent' when the name is missing, and returns an error naming the problem in every other case; it never converts, truncates or substitutes silently and never crashes.",
 ["inputs"], "all document shapes x JSON value kinds (incl. nesting, numbers at type limits) x requested types",
 "Tests read well-formed values of the right type; the off-diagonal type matrix and numeric limits are not covered.",
 [C+"util/json_io/json_io.cc"], [("typed JSON readers", C+"util/json_io/json_io.cc")])

prop("I04", "Typed netCDF reading is exact or an error",
 "Reading a variable of a given type and rank from a netCDF file returns exactly the stored value or array, with its shape and element order, and reports an error when the variable is missing, has another rank or a type whose values cannot be represented, or the file is unusable; text is returned without padding artefacts. No case crashes or yields uninitialised data.",
 ["inputs"], "all variable types x ranks x small shapes x readers x file formats",
 "Tests read one file with one variable per type and mostly symmetric shapes.",
 [C+"util/netcdf_io/netcdf_io.cc"], [("typed netCDF readers", C+"util/netcdf_io/netcdf_io.cc")])

prop("I05", "Binary containers return what was written",
 "Everything written to the HDF5 output container (scalars, flags, text, vectors, matrices, tensors and the complete result of a run) is read back identical in value and shape, for empty, single-element and asymmetric shapes alike; writing a name twice, or reading a missing name or one of another rank, is reported and leaves what was stored before intact.",
 ["inputs", "histories"], "all types x small shapes x write/read sequences into fresh and used objects, plus complete run results of both symmetries and boundary kinds",
 "Tests round-trip a few shapes and one run; transposition and stale-size errors need asymmetric shapes or overwrites.",
 [C+"util/hdf5_io/hdf5_io.h", C+"util/hdf5_io/hdf5_io.cc", V+"vmec/output_quantities/output_quantities.cc"],
 [("HDF5 helpers", C+"util/hdf5_io/hdf5_io.h"), ("result container", V+"vmec/output_quantities/output_quantities.cc")])

prop("I06", "Text files are written and read back byte for byte, failures are reported",
 "Writing a text file and reading it back returns exactly the same bytes, whatever they are, and replaces earlier content completely. If the file cannot be opened, written completely or read completely, the operation reports an error instead of success.",
 ["inputs", "fault_sequences"], "all short contents over a byte alphabet x previous contents, and every single failing system call",
 "Tests write one short text; embedded special bytes, overwrites of longer files and I/O failures are not exercised.",
 [C+"util/file_io/file_io.cc"], [("file read/write helpers", C+"util/file_io/file_io.cc")])

prop("I07", "Result files round-trip and are never left half-written under their name",
 "Saving a result to a wout file and loading it gives back every quantity with the same value, shape and type, for any grid size and symmetry, in the layout other VMEC tools expect. If saving fails or the process dies at any point, the target path holds either the complete old or the complete new file, the failure is reported, and no other file is left behind after a reported failure.",
 ["inputs", "crash_points", "fault_sequences"], "all field patterns and small shapes, and every system call of the save as crash or failure point",
 "Tests save one result to a healthy disk; failures mid-save and unusual shapes are not exercised.",
 ["src/vmecpp/__init__.py"], [("wout writer/reader", "src/vmecpp/__init__.py")])

prop("F01", "Coil geometry files and coil descriptions are interpreted faithfully",
 "Parsing a coils file yields exactly the circuits, coils, currents, windings and vertices written in it, for every grouping of filaments; filaments that are closed are closed exactly once and relative currents within a circuit keep their ratios. Setting circuit currents, scaling and serialising keep everything else unchanged, and malformed files are reported as errors.",
 ["inputs", "histories"], "all small coils files over the line alphabet x circuit groupings x current assignments",
 "Tests parse two or three machine files; grouping order, repeated circuits, current ratios and malformed lines are not covered.",
 [V+"common/magnetic_configuration_lib/magnetic_configuration_lib.cc", V+"common/composed_types_lib/composed_types_lib.cc"],
 [("coils file parser", V+"common/magnetic_configuration_lib/magnetic_configuration_lib.cc")])

prop("F02", "Tabulated coil fields equal the field of the coils at the grid points",
 "The magnetic-field table computed for a coil set contains, for every circuit and every grid point, the field and vector potential of that circuit at unit or actual current as requested, whether or not the symmetry shortcut is used and for any number of grid points. Fields superpose linearly in the circuit currents, and writing the table to an mgrid file and loading it back, or passing it in memory, gives the same field to the free-boundary solve.",
 ["inputs", "configurations"], "all small grids x symmetry options x normalisation options x circuit sets, against an independent field evaluation",
 "Tests compare a few stored grids; odd/even toroidal sizes, single-plane grids and mirrored planes are where the shortcut can go wrong.",
 [V+"common/makegrid_lib/makegrid_lib.cc", V+"free_boundary/mgrid_provider/mgrid_provider.cc", V+"common/magnetic_field_provider/magnetic_field_provider_lib.cc", "src/vmecpp/_free_boundary.py"],
 [("response table", V+"common/makegrid_lib/makegrid_lib.cc"), ("table interpolation", V+"free_boundary/mgrid_provider/mgrid_provider.cc")])

prop("Y01", "Models holding arrays serialise and validate without loss",
 "For every model with array fields, dumping to JSON or to plain data and validating it again gives arrays equal in value, shape and type, including not-a-number, infinities, negative zero, empty float vectors and arrays nested in containers; anything that has no faithful text form is refused when its type is declared, and data with a wrong shape, type or unsupported element kind is rejected. Dumping never changes the model.",
 ["inputs"], "all annotations (dtype x rank x optional/union/nesting) x all small arrays over the special-value alphabet x serialisation modes",
 "Tests use a few fixed arrays; the combination of container, shape and special value is where conversions are lossy.",
 ["src/vmecpp/_pydantic_numpy.py"], [("array serialisation", "src/vmecpp/_pydantic_numpy.py")])

prop("Y02", "Fourier coefficient containers convert without loss",
 "Converting Fourier coefficients between the sparse list form and the dense table form, in either direction and for any resolution, keeps every coefficient at its mode and drops only what is documented to be dropped; resizing a table keeps common modes, zero-fills new ones and cuts only modes beyond the new resolution. Inputs are not modified and impossible requests are rejected.",
 ["inputs"], "all coefficient tables over a value alphabet and all resolutions up to the bound",
 "Tests convert one or two tables; edge modes and asymmetric resolution changes are not covered.",
 ["src/vmecpp/_util.py", "src/vmecpp/__init__.py"], [("coefficient conversions", "src/vmecpp/_util.py")])

prop("Y03", "Helpers restore the process environment and clean up after themselves",
 "Helpers that switch the working directory, convert input files or create temporary files leave the working directory, the original input files and the surrounding directories as they found them apart from the documented result, whether they finish normally, fail at any step or are nested. The converted file holds the same input as the original.",
 ["fault_sequences", "histories"], "all nestings and all failing steps of the conversion helpers within the bound",
 "Tests run the happy path; the clean-up on each failing step is not exercised.",
 ["src/vmecpp/_util.py", "src/vmecpp/__init__.py"], [("working directory and conversion helpers", "src/vmecpp/_util.py")])

prop("Y04", "The optimisation-framework wrapper never serves stale or foreign results",
 "After any sequence of changes to degrees of freedom, boundary shape or resolution and of queries, the wrapper's answers equal those of a fresh solve of the current shape and parameters; queries without a change do not re-run the solver. Shapes written to and read from the wrapper keep every Fourier coefficient, and a failed solve is reported as an objective failure and not as a value.",
 ["histories"], "all operation sequences up to the depth bound over the operation alphabet",
 "Tests call one query after one change; stale caches need specific sequences.",
 ["src/vmecpp/simsopt_compat.py", V+"simsopt_compat/_indata_to_surfacerzfourier.py"], [("wrapper object", "src/vmecpp/simsopt_compat.py")])

prop("Y05", "Progress output reflects the run and stays well-formed",
 "For every sequence of stage and iteration reports, the progress display prints nothing in silent mode, one table line per report with the reported numbers in table mode, and otherwise a bar between 0 and 100 percent that never overflows, follows the larger of iteration and residual progress, is full for finished stages, and redraws exactly the lines it drew without leftovers. The final summary states converged exactly when the run converged, with all rows equally wide.",
 ["histories"], "all sequences of reports up to the depth bound over a residual alphabet, in all output modes",
 "Tests do not execute the display for out-of-order stages, zero, huge or not-a-number residuals.",
 [V+"vmec/iteration_logger/iteration_logger.cc"], [("progress logger", V+"vmec/iteration_logger/iteration_logger.cc")])

prop("Y06", "Interrupted, threaded and command-line use leave a consistent outcome",
 "Running from the command line gives the same result file as the scripting interface for the same input and options, exits non-zero with a message on every failure, and never overwrites the input. A run interrupted by the user stops promptly with the interruption reported, and leaves the process able to run again.",
 ["configurations", "fault_sequences"], "all option combinations x input kinds x failure kinds, and interruption at every iteration of a small run",
 "Tests do not launch the command line with failing inputs or interrupt a run at each iteration.",
 ["src/vmecpp/__main__.py", "src/vmecpp/__init__.py", V+"vmec/vmec_standalone/vmec_standalone.cc"], [("command line", "src/vmecpp/__main__.py"), ("interrupt handling", V+"vmec/vmec/vmec.cc")])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
