#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 meta.py  rewrites both."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, text, why, files, mech, observe=None, technique="", note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe or [], technique=technique, note=note)


PROPS = [
    P("C01", "A converged run has reached the ground state",
      "When the optimiser reports convergence on a variational problem with a monotone smearing (Fermi-Dirac, Gauss, "
      "Gaussian spline), the orbitals and occupations left in the host are a minimiser of the free energy: the occupied "
      "residual vanishes and, if no band is empty, the free energy functional is at its minimum within a bound set by the "
      "requested tolerance. Started near the eigenvectors, the overwhelming majority of such runs does converge.",
      ["inputs", "configurations"],
      "all Hamiltonians, overlap and preconditioner operators, k-point sets and weights, spins, electron counts, "
      "temperatures, smearings and CG parameters",
      "No existing test runs the optimiser at all; they exercise BLAS wrappers, containers and print smearing tables.",
      ["src/nlcglib.cpp", "src/mvp2/descent_direction_impl.hpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/geodesic.hpp"],
      [("CG loop", "src/nlcglib.cpp nlcg_us"), ("gradients", "src/mvp2/mvp2.hpp, src/pseudo_hamiltonian/grad_eta.hpp"),
       ("geodesic step", "src/geodesic.hpp")],
      ["state of the host after the run", "nlcg_info"],
      "property-based testing, duality-gap oracle",
      "random Kohn-Sham problems solved through the public entry point; independent eigensolver computes the duality gap of the final density"),
    P("C02", "The free energy never rises from one accepted step to the next",
      "Whatever energies the host reports, the free energy of the state the optimiser continues from (logged per iteration and "
      "returned at the end) never increases along a run. However the run ends (convergence, iteration limit, failed "
      "line search), the state left in the host is one whose free energy does not exceed that of the starting point.",
      ["inputs", "fault_sequences"],
      "all problems and all sequences of reported energies, including energies that make any line search fail",
      "No existing test performs a line search; failing searches need adversarial energies at a chosen evaluation.",
      ["src/linesearch/linesearch.hpp", "src/nlcglib.cpp"],
      [("quadratic search, backtracking, reset", "src/linesearch/linesearch.hpp"), ("accept step", "src/nlcglib.cpp nlcg_us")],
      ["nlcg.json", "sequence of host evaluations", "nlcg_info.F"],
      "property-based testing with adversarial host energies",
      "random problems, energies of chosen evaluations raised or perturbed; history invariant"),
    P("C03", "Every state handed to the host is a physical state",
      "Whenever the optimiser asks the host for an energy, the orbitals it has stored are orthonormal with respect to the "
      "overlap operator, the occupations lie on the smearing function of a single chemical potential and sum (with k-point "
      "weights) to the number of electrons, for every k-point and spin it owns. Occupations are supplied before the "
      "evaluation and the chemical potential belonging to them right after it.",
      ["inputs", "histories"],
      "every evaluation of every run: all trial steps, backtracking steps and resets",
      "Existing tests never run the optimiser against a host.",
      ["src/free_energy.hpp", "src/geodesic.hpp", "src/smearing.hpp", "src/la/lapack.hpp"],
      [("loewdin orthogonalisation", "src/geodesic.hpp advance_x, src/la/lapack.hpp loewdin"),
       ("chemical potential search", "src/smearing.hpp"), ("state upload", "src/free_energy.hpp compute")],
      ["EnergyBase::compute/set_fn/set_chemical_potential, buffers of get_C"],
      "property-based testing, invariant over the call history",
      "every evaluation of random runs is checked against independent orthonormality/occupation oracles"),
    P("C04", "The result describes the state left in the host",
      "The returned free energy and entropy term equal the energy of the orbitals and occupations left in the host plus the entropy of "
      "exactly those occupations; the reported slope is that of this state. Convergence is reported iff that "
      "slope is below the tolerance at an iteration before the limit, the iteration count never exceeds the limit, "
      "and a start that is already converged is returned unchanged after zero iterations.",
      ["inputs", "configurations"],
      "all problems, tolerances and iteration limits (0, 1, few, many), all ways a run can end",
      "Existing tests never obtain an nlcg_info.",
      ["src/nlcglib.cpp", "include/interface.hpp"],
      [("info", "src/nlcglib.cpp print_info, nlcg_us"), ("free energy", "src/free_energy.hpp compute")],
      ["nlcg_info", "host state"],
      "property-based testing, recomputation oracle",
      "result of random runs with random limits recomputed from the recorded host state"),
    P("C05", "The slope is the derivative of the free energy along the search path",
      "The slope reported for an iteration is the derivative, at zero step, of the free energy (with occupations re-determined at "
      "constant electron number) along the path the optimiser then moves on, for steepest-descent and conjugated directions alike. It is "
      "never positive when a step is attempted.",
      ["inputs", "histories"],
      "all problems, all smearings, every iteration number and restart interval",
      "A derivative consistency needs evaluations of the real functional along the real path; tests have neither.",
      ["src/mvp2/mvp2.hpp", "src/mvp2/descent_direction.hpp", "src/mvp2/descent_direction_impl.hpp", "src/pseudo_hamiltonian/grad_eta.hpp"],
      [("gradient in X", "src/mvp2/mvp2.hpp"), ("gradient in eta", "src/pseudo_hamiltonian/grad_eta.hpp"),
       ("slope of conjugated direction", "src/mvp2/descent_direction.hpp conjugated")],
      ["nlcg.json slope_x", "energies recorded along backtracking"],
      "property-based testing, Richardson finite-difference oracle",
      "the host forces backtracking at a chosen iteration and differentiates its own energies along the path"),
    P("C06", "Iterates follow the documented CG algorithm",
      "Starting from the same state the sequence of evaluated states equals that of the preconditioned nonlinear CG of Freysoldt, "
      "Boeck and Neugebauer: steepest descent at start and at every restart interval, Fletcher-Reeves conjugation with transported direction "
      "otherwise, trial step 0.2, quadratic line search, backtracking by tau, kappa scaling of the pseudo-Hamiltonian direction. Parameters kappa, tau, restart and "
      "tolerance each take effect exactly there.",
      ["inputs", "configurations"],
      "all problems and all values of kappa, tau, restart, tolerance",
      "No test runs a CG step.",
      ["src/nlcglib.cpp", "src/mvp2", "src/linesearch/linesearch.hpp", "src/geodesic.hpp"],
      [("CG loop", "src/nlcglib.cpp nlcg_us"), ("directions", "src/mvp2/descent_direction.hpp"), ("line search", "src/linesearch/linesearch.hpp")],
      ["sequence of host evaluations"],
      "differential testing against an independent reference implementation",
      "reference CG in naive linear algebra, compared evaluation by evaluation over the first iterations of random runs"),
    P("C07", "Results do not depend on how k-points are distributed over MPI ranks",
      "Running the same problem with its k-points distributed in any way over any number of ranks (ranks may own different numbers of "
      "k-points, in any order) gives the serial trajectory: same energies, chemical potential, occupations and orbitals of every k-point, same result "
      "on every rank, and no deadlock. Log files contain the complete data once.",
      ["inputs", "configurations", "schedules"],
      "all problems and all assignments of k-points to 1-4 ranks",
      "The existing np2 tests only run a gather of a container and a smearing print-out.",
      ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/smearing.hpp", "src/mvp2/descent_direction.hpp", "src/pseudo_hamiltonian/grad_eta.hpp"],
      [("reductions", "src/la/mvector.hpp sum/allgather"), ("mu", "src/smearing.hpp"), ("slope", "src/mvp2/descent_direction.hpp")],
      ["per-rank host state", "nlcg_info on each rank", "nlcg.json"],
      "property-based testing, serial differential oracle under mpirun",
      "random distributions on 2-4 ranks compared with a serial run of the same case"),
    P("C08", "Results are invariant under physically irrelevant transformations",
      "Renaming k-point/spin labels, rotating the plane-wave basis, shifting all energies by a constant, changing leading dimensions or storage "
      "order, splitting a k-point into two of the same total weight, or rotating the band phases changes the results only in the way physics prescribes.",
      ["inputs"],
      "all problems and all transformations of these families",
      "Metamorphic relations need the optimiser run twice on related inputs.",
      ["src/nlcglib.cpp", "src/free_energy.hpp", "src/la/mvector.hpp", "src/smearing.hpp"],
      [("whole algorithm", "src/nlcglib.cpp nlcg_us")],
      ["host evaluations", "nlcg_info"],
      "metamorphic property-based testing",
      "two short runs on related problems compared evaluation by evaluation"),
    P("C09", "Smearing functions are mutually consistent and finite everywhere",
      "For every smearing, the occupation is the integral of the broadened delta, runs from 0 to the maximum occupancy, the delta's derivative and the entropy "
      "belong to the same function (entropy' = -x delta), all scale with the maximum occupancy, and all are finite for every argument "
      "up to 1e150 in magnitude.",
      ["inputs"],
      "all real arguments (zero, denormal, core, tails, up to 1e150), all maximum occupancies",
      "Existing test prints values without asserting them.",
      ["src/smearing.hpp", "src/la/utils.hpp"],
      [("smearing functions", "src/smearing.hpp")],
      [],
      "property-based testing against long-double reference formulas",
      "generated arguments with special values against closed forms and against numerical derivatives"),
    P("C10", "Chemical potential and occupations conserve the electron number",
      "For any levels, weights, temperature, occupancy and electron number the chemical potential found fills exactly the requested "
      "electrons (to 1e-10 for monotone smearings; to 1e-2 otherwise, and then only at an extremum of the filling), every occupation is the smearing function at that potential, the entropy is "
      "the sum of the same levels' entropies; the optional bisection mode agrees. If no chemical potential is found an exception is raised, never a wrong filling.",
      ["inputs", "configurations"],
      "all level structures: degenerate, clustered, gapped, far from zero; all fillings; Newton enabled or disabled",
      "The existing smearing test uses one fixed set of levels and asserts nothing about the result.",
      ["src/smearing.hpp", "src/dft/newton_minimization_smearing.hpp", "src/utils/env.hpp"],
      [("find_chemical_potential", "src/smearing.hpp"), ("newton", "src/dft/newton_minimization_smearing.hpp")],
      ["set_fn / set_chemical_potential / nlcg_info.S of a zero-iteration run"],
      "property-based testing, conservation oracle",
      "generated level structures passed through a zero-iteration run of the public entry point"),
    P("C11", "Dense kernels compute what they state, for any shape and leading dimension",
      "Matrix products, linear combinations, column/scalar scaling, Hermitian eigenproblem, positive-definite solve, diagonal extraction, norms and traces equal "
      "their mathematical definition for every shape, leading dimension and alpha/beta, leave padding and inputs untouched, do not read a destination that "
      "is to be overwritten (beta = 0), and reject row-major storage and non-positive-definite matrices by an exception.",
      ["inputs"],
      "all shapes (including single rows/columns), paddings, scalars, matrix spectra",
      "Existing tests use one or two fixed square sizes with alpha=1, beta=0 and mostly no padding.",
      ["src/la/lapack_cpu.hpp", "src/la/lapack.hpp", "src/la/cblas.hpp", "src/la/utils.hpp", "src/la/dvector.hpp"],
      [("kernels", "src/la/lapack_cpu.hpp, src/la/lapack.hpp"), ("BLAS wrappers", "src/la/cblas.hpp")],
      [],
      "property-based testing against naive reference kernels",
      "generated shapes/strides/scalars vs triple loops, with canaries in the padding"),
    P("C12", "Orthogonalisation and geodesic steps stay on the manifold",
      "Löwdin orthogonalisation returns the closest orthonormal basis of the same subspace, with or without overlap, without touching its input; a geodesic step of any length from any "
      "state gives overlap-orthonormal orbitals, the eigenvalues of the advanced pseudo-Hamiltonian and the unitary that diagonalises it, and a zero step changes nothing but a rotation. "
      "Gradient-projection helpers produce tangent directions.",
      ["inputs"],
      "all states, directions, overlaps and step lengths",
      "No existing test touches them (the loewdin test has no assertion run here).",
      ["src/la/lapack.hpp", "src/geodesic.hpp", "src/mvp2/mvp2.hpp"],
      [("loewdin", "src/la/lapack.hpp"), ("geodesic", "src/geodesic.hpp"), ("projection", "src/mvp2/mvp2.hpp")],
      [],
      "property-based testing, algebraic invariants and reference",
      "generated states, directions and overlaps against naive linear algebra"),
    P("C13", "Distributed containers and collectives keep every entry",
      "Gathering or reducing a container whose entries are spread over any number of ranks (including none on some) yields exactly the union / "
      "the sum over all ranks, on every rank, keyed as before; element-wise application, zip/unzip and copies keep keys, order and values and do not alias.",
      ["inputs", "configurations"],
      "all key sets, distributions, sizes, value types, 1-4 ranks",
      "Existing tests gather one fixed two-rank layout of equal sizes.",
      ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/mpi/mpi_type.hpp", "src/la/utils.hpp", "src/la/lapack.hpp"],
      [("allgather, sum, unzip", "src/la/mvector.hpp"), ("typed collectives", "src/mpi/communicator.hpp, src/mpi/mpi_type.hpp")],
      [],
      "model-based property-based testing under mpirun",
      "random containers on 1-4 ranks against a std::map model known to every rank"),
    P("C14", "The line search honours its contract on any function",
      "For any one-dimensional free-energy profile the line search either returns a point it has just evaluated whose energy does not exceed the starting one, "
      "or returns/leaves the system at step zero with a restart requested, or reports failure; an exactly quadratic profile is minimised in one "
      "step, a positive slope is refused before anything is evaluated, and the number of backtracking evaluations is bounded by tau (no value of tau makes the search endless).",
      ["inputs", "histories"],
      "all profiles (smooth, rough, increasing, flat), slopes, trial steps, tau and restart flags, sequences of searches",
      "There is no test of the line search.",
      ["src/linesearch/linesearch.hpp"],
      [("qline, bt_search", "src/linesearch/linesearch.hpp")],
      [],
      "property-based testing with generated profiles",
      "stateful test with a recording function object"),
    P("C15", "Only the host memory that may be written is written",
      "A run writes to the orbital buffers only, within the declared sizes and strides, and reads nothing but the declared elements (of matrices and vectors); Hamiltonian, occupation, level and weight buffers are never "
      "modified, and operators get well-formed, non-aliased host buffers of the right shape and a key the host declared.",
      ["inputs", "configurations"],
      "all shapes, strides, paddings and offsets of host buffers",
      "No test provides host buffers with padding to the optimiser.",
      ["src/free_energy.hpp", "src/la/mvector.hpp", "src/la/dvector.hpp", "src/operator.hpp", "include/interface.hpp"],
      [("buffer views", "src/la/mvector.hpp make_mmatrix"), ("applicator", "src/operator.hpp")],
      ["host buffers incl. canaries", "operator calls"],
      "property-based testing with canaries (and sanitizers in the thorough tier)",
      "padded canary buffers, checksums of read-only buffers around every callback"),
    P("C16", "The step log is complete and equals the states of the run",
      "After any run nlcg.json holds one record per iteration, in order and for this run only, whose free energy, energy, entropy, slope and chemical potential equal "
      "those of that iteration's state; every tenth record holds the levels and occupations of every k-point and spin.",
      ["inputs", "histories"],
      "all runs, all ways to end, consecutive runs in one process",
      "No test reads nlcg.json.",
      ["src/nlcglib.cpp", "src/utils/step_logger.hpp"],
      [("cg_write_step_json", "src/nlcglib.cpp"), ("StepLogger", "src/utils/step_logger.hpp")],
      ["nlcg.json"],
      "property-based testing, log versus recorded history",
      "log of random runs compared with the host's own record"),
    P("C17", "Invalid requests are refused before the host state is touched",
      "A non-positive or NaN temperature, an unknown smearing, a non-positive restart interval, an unknown memory type of an orbital or level buffer or a call to an entry point not available in this build throws, "
      "leaving the host's orbitals, occupations and chemical potential exactly as they were, and the library stays usable.",
      ["inputs", "configurations"],
      "all invalid parameter combinations on all problems",
      "Only valid parameters are tested.",
      ["src/nlcglib.cpp", "src/smearing.hpp", "src/la/mvector.hpp"],
      [("checks", "src/nlcglib.cpp, src/smearing.hpp Smearing::Smearing, src/la/mvector.hpp")],
      ["exceptions", "host state"],
      "property-based testing with invalid parameters",
      "generated invalid calls followed by a valid run that must equal a fresh one"),
    P("C18", "Runs are reproducible and independent of what ran before",
      "The result and the complete sequence of host interactions of a run depend only on its inputs: repeating it, or preceding it by any other runs (other smearings, "
      "sizes, failed or aborted runs), gives bit-identical results.",
      ["histories"],
      "all sequences of runs in one process",
      "Tests execute each path once per process.",
      ["src/nlcglib.cpp", "src/utils/logger.hpp", "src/csingleton.hpp", "src/utils/env.hpp"],
      [("no state between runs", "src/nlcglib.cpp, src/csingleton.hpp")],
      ["sequence of host interactions"],
      "stateful property-based testing, replay comparison",
      "random histories of runs, then the same run compared bitwise with its first execution"),
    P("C19", "The kinetic preconditioner is the documented diagonal filter",
      "The Teter preconditioner multiplies each plane-wave coefficient by 1/(1 + 16 T^4/(27 + 18 T + 12 T^2 + 8 T^3)) of that coefficient's kinetic energy, lies in (0,1], decreases with T, acts "
      "identically in place and out of place on every band, for any number of k-points.",
      ["inputs"],
      "all kinetic energies, shapes and k-point sets",
      "There is no test of the preconditioner.",
      ["src/preconditioner.hpp"],
      [("PreconditionerTeter", "src/preconditioner.hpp")],
      [],
      "property-based testing against the closed form",
      "generated kinetic energies and matrices against the formula"),
    P("C20", "A host exception reaches the caller and leaves the library usable",
      "If any host callback (energy, buffers, occupations, operators, logging) throws, that very exception reaches the caller of the optimiser, no further evaluation is started, and a subsequent "
      "run on a healthy host gives exactly the result it would have given without the failed one.",
      ["fault_sequences", "histories"],
      "every callback number of every run as failure point",
      "No fault is ever injected in tests.",
      ["src/nlcglib.cpp", "src/linesearch/linesearch.hpp", "src/free_energy.hpp", "src/la/utils.hpp"],
      [("exception handling of the CG loop", "src/nlcglib.cpp nlcg_us"), ("line search", "src/linesearch/linesearch.hpp")],
      ["exception at the entry point", "callbacks after the fault"],
      "fault injection driven by property-based testing",
      "a fault at a drawn callback number, then a healthy run compared bitwise with the reference"),
    P("C21", "The text log is truthful, complete on return and survives a crash",
      "When a call returns, nlcg.out and the console hold, for this run only, the parameters used, for every iteration its number, free energy, slope, entropy, chemical "
      "potential and energy, a success message exactly if the run converged and (in nlcg.out) an error message exactly if a line search failed; ranks other than the first write "
      "nothing. Wherever the process dies, nlcg.json holds complete records of all iterations begun and nlcg.out those of all iterations finished.",
      ["inputs", "histories", "crash_points"],
      "all runs, all ways to end, all preceding runs in the process, a crash in any evaluation",
      "No test reads nlcg.out.",
      ["src/nlcglib.cpp", "src/utils/logger.hpp", "src/utils/step_logger.hpp"],
      [("print_info, header, messages", "src/nlcglib.cpp"), ("Logger", "src/utils/logger.hpp"), ("StepLogger", "src/utils/step_logger.hpp")],
      ["nlcg.out", "standard output", "nlcg.json"],
      "property-based testing, log versus recorded history, files inspected at drawn crash points",
      "text log and console of random runs parsed and compared with the host's own record; files read during drawn evaluations"),
    P("C22", "A run gives back what it takes",
      "When a call has returned or thrown, however it ended, nlcglib holds none of the host's buffer objects, and repeating the same call leaves behind no further "
      "memory, MPI object or open file. The data of vectors and weights handed out by the host is used only while the object handed out is alive.",
      ["inputs", "histories", "fault_sequences"],
      "all runs, all ways to end (result, exception of the host at any callback, refusal), any number of repetitions, 1 and more ranks",
      "A leak shows only over many calls in one process; the tests make one run each.",
      ["src/mpi/mpi_type.hpp", "src/mpi/communicator.hpp", "src/nlcglib.cpp", "src/la/mvector.hpp", "src/utils/logger.hpp"],
      [("mpi_type", "src/mpi/mpi_type.hpp"), ("make_mmatrix, make_mmvector", "src/la/mvector.hpp"), ("FreeEnergy", "src/free_energy.hpp"), ("Logger", "src/utils/logger.hpp")],
      ["buffer objects of the host", "heap", "MPI handles", "file descriptors"],
      "property-based testing, metamorphic (repetition) with counted allocations, MPI objects and host buffers",
      "identical random runs repeated in one process; live host buffers must be none, live blocks/bytes/MPI objects/files must not grow with every repetition"),
]

ASSUME = {}


def main():
    import sys
    sys.path.insert(0, V)
    from checks import CHECKS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"]})
    na = [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]


if __name__ == "__main__":
    main()
