"""Table of checks: which harness, how many cases, what counts as non-trivial."""

LIB = ["-O1", "-DNDEBUG"]
HAR = ["-O2"]
# only what is wrong whatever the author meant (no null/nonnull/alignment checks: empty ranges are fine)
SANS = "address,signed-integer-overflow,bounds,integer-divide-by-zero,shift,return,float-cast-overflow,bool"
SAN = ["-O1", "-g1", "-fsanitize=" + SANS, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def bb(harness, quick, thorough, np=1, env=None, name="", **kw):
    """black-box harness linked against the library"""
    def make(tier):
        return dict(harness=harness, libflags=LIB, hflags=HAR, use_lib=True, np=np, env=env or {},
                    count=quick if tier == "quick" else thorough, name=name, **kw)
    return make


def wb(harness, quick, thorough, np=1, env=None, name="", **kw):
    """white-box harness: includes the library's headers; skipped (and reported) if it does not compile"""
    # headers define a few functions that are not inline
    kw.setdefault("link", ["-Wl,--allow-multiple-definition"])
    return bb(harness, quick, thorough, np=np, env=env, name=name or "white-box", optional=True, **kw)


def fb(harness, quick, thorough, np=1, **kw):
    """black-box stand-in that runs when a white-box harness of the check could not be built"""
    return bb(harness, quick, thorough, np=np, name="stand-in " + harness, fallback=True, **kw)


def san(maker, thorough_only=True):
    """the same cases in a build with AddressSanitizer and UndefinedBehaviorSanitizer"""
    def make(tier):
        v = maker(tier)
        if tier == "quick" and thorough_only:
            return None
        v.update(libflags=SAN, hflags=SAN, link=list(v.get("link", [])) + ["-fsanitize=" + SANS],
                 name=(v["name"] + ", " if v["name"] else "") + "sanitizers")
        return v
    return make


def variants(*makers):
    return lambda tier: [v for v in (m(tier) for m in makers) if v]


def ratio(labels, evals, bad, of, limit, what):
    b, n = labels.get(bad, 0), sum(labels.get(o, 0) for o in of)
    if n >= 100 and b > limit * n:
        return "%s: %d of %d (at most %.1f%% expected)" % (what, b, n, 100 * limit)
    return None


CHECKS = {
    "C01": dict(
        variants=variants(bb("C01.cpp", 7000, 150000)),
        rule="random synthetic Kohn-Sham problem (1-6 k-points/spins, overlap, preconditioner, interaction, smearing, "
             "temperature); non-trivial: the run converged after at least one step and its duality gap was computed",
        aggregate=lambda l, n: ratio(l, n, "not-converged", ["converged", "not-converged"], 0.06, "runs that did not converge")
        or ratio(l, n, "no-mu", ["converged", "not-converged", "no-mu"], 0.004, "runs that lost the chemical potential")
        or ratio(l, n, "slope-cancellation", ["converged"], 0.004, "runs that stopped away from a stationary point"),
    ),
    "C02": dict(
        variants=variants(bb("C02.cpp", 12000, 200000)),
        rule="random problem, host energies honest or adversarial (cusp/corridor around a chosen iterate, ripples); non-trivial: the "
             "free energy fell at least once and (energies adversarial or >= 2 iterations)",
    ),
    "C03": dict(
        variants=variants(bb("C03.cpp", 12000, 200000)),
        rule="random problem, honest or adversarial energies; every evaluation is checked; non-trivial: at least 5 evaluations",
        aggregate=lambda l, n: ratio(l, n, "ill-conditioned-trial", ["ill-conditioned-trial", "all-trials-orthonormal"], 0.01,
                                     "runs with a trial state that is not orthonormal to 1e-10"),
    ),
    "C04": dict(
        variants=variants(bb("C04.cpp", 16000, 250000)),
        rule="random problem, tolerance and iteration limit; non-trivial: a step was made, or the run ended with zero iterations as it must",
    ),
    "C05": dict(
        variants=variants(bb("C05.cpp", 14000, 200000)),
        rule="random problem; from a drawn iteration on the host rejects every step, so the search backtracks along its path; non-trivial: "
             "|slope| > 1e-8 and the derivative of the recorded free energies is resolved to 1e-4",
        aggregate=lambda l, n: ratio(l, n, "unresolved", ["unresolved", "later", "steepest-descent"], 0.2, "unresolved derivatives"),
    ),
    "C06": dict(
        variants=variants(bb("C06.cpp", 14000, 150000), bb("C06long.cpp", 3000, 60000, name="long runs")),
        rule="random problem and CG parameters, honest/adversarial energies, lockstep with a reference CG; non-trivial: a conjugated direction "
             "or a backtracking search was followed",
    ),
    "C07": dict(
        variants=variants(bb("C07.cpp", 900, 20000, np=2, name="2 ranks", shards=4), bb("C07.cpp", 900, 20000, np=3, name="3 ranks", shards=4),
                          bb("C07.cpp", 900, 20000, np=4, name="4 ranks", shards=4),
                          bb("C07.cpp", 200, 6000, np=6, name="6 ranks", shards=1),
                          san(bb("C07.cpp", 0, 2000, np=3, name="3 ranks", shards=2))),
        rule="random problem, random owner and storage order of every k-point, optionally empty ranks, independent groups of ranks, late ranks, common directory; "
             "non-trivial: more than one rank and at least one iteration",
    ),
    "C08": dict(
        variants=variants(bb("C08.cpp", 6000, 100000)),
        rule="random problem and 1-3 random transformations (labels, storage order, plane-wave basis, energy zero, padding, k-point splitting, "
             "phases/order of bands, conjugation, energy unit, spin-degenerate description); non-trivial: at least 4 evaluations compared",
    ),
    "C09": dict(
        variants=variants(wb("C09.cpp", 1000000, 20000000, name="functions"), bb("C05.cpp", 1500, 40000, name="slopes (black-box)"),
                          bb("C10.cpp", 4000, 100000, name="fillings (black-box)")),
        rule="arguments in the core, the tails, next to possible cut-offs, tiny, up to 1e150; maximum occupancies 0.1-10; sums over 0-7 levels; the black-box parts see the "
             "functions through slopes, fillings and entropies of runs; non-trivial: 1e-3 < |x| < 40, resp. the rule of C05/C10",
    ),
    "C10": dict(
        variants=variants(bb("C10.cpp", 30000, 1000000, name="newton"),
                          bb("C10.cpp", 10000, 400000, env={"NLCGLIB_DISABLE_NEWTON_EFERMI": "1"}, name="bisection"),
                          bb("C10.cpp", 4000, 100000, env={"NLCGLIB_DISABLE_NEWTON_EFERMI": "true"}, name="bisection, variable set to true"),
                          bb("C10.cpp", 4000, 100000, env={"NLCGLIB_DISABLE_NEWTON_EFERMI": "01"}, name="bisection, variable set to 01"),
                          bb("C10.cpp", 2000, 50000, env={"NLCGLIB_DISABLE_NEWTON_EFERMI": "0"}, name="newton, variable set to 0")),
        rule="random level structures (random, equidistant, degenerate, clustered, gapped, all equal; offset up to 1e5), weights, temperature, "
             "electron number from none to more than fit; non-trivial: partially filled",
        aggregate=lambda l, n: ratio(l, n, "refused-though-resolvable", ["refused-though-resolvable", "found-non-monotone"], 0.03,
                                     "non-monotone smearing: no chemical potential found"),
    ),
    "C11": dict(
        variants=variants(wb("C11.cpp", 1500000, 20000000, name="kernels"), fb("C06.cpp", 3000, 100000),
                          san(wb("C11.cpp", 60000, 2000000, name="kernels"), False)),
        rule="kernel, shape (1-70), padding/offset/memory layout of each operand, scalars incl. 0, +-1, complex; destination NaN-filled if beta = 0; spectra random, degenerate, "
             "singular, indefinite; non-trivial: more than one element",
    ),
    "C12": dict(
        variants=variants(wb("C12.cpp", 1000000, 6000000, name="steps"), fb("C06.cpp", 3000, 100000),
                          san(wb("C12.cpp", 0, 400000, name="steps"))),
        rule="Loewdin on matrices with chosen singular values, geodesic steps (length 0 to 200, tangent and general directions, degenerate pseudo-Hamiltonians), projections, "
             "transports and rotations on random overlap-orthonormal states; non-trivial: more than one band, resp. non-zero step",
    ),
    "C13": dict(
        variants=variants(wb("C13.cpp", 40000, 1000000, np=1, name="1 rank", shards=2), wb("C13.cpp", 40000, 1000000, np=2, name="2 ranks", shards=4),
                          wb("C13.cpp", 40000, 1000000, np=3, name="3 ranks", shards=4), wb("C13.cpp", 40000, 1000000, np=4, name="4 ranks", shards=4),
                          wb("C13.cpp", 10000, 200000, np=7, name="7 ranks", shards=1), fb("C07.cpp", 400, 10000, np=3, shards=2),
                          san(wb("C13.cpp", 0, 100000, np=3, name="3 ranks", shards=4))),
        rule="0-25 keys spread over the ranks (round robin, random, all on one; groups, reversed rank order), containers of scalars, arrays, matrices and host buffers, typed "
             "collectives; non-trivial: at least one key and more than one rank",
    ),
    "C14": dict(
        variants=variants(wb("C14.cpp", 400000, 10000000, name="profiles"), fb("C02.cpp", 3000, 100000),
                          san(wb("C14.cpp", 0, 1000000, name="profiles"))),
        rule="sequences of 1-5 searches with one line_search object on generated profiles (parabola, concave first, ripples, increasing, flat, wall, rough, NaN/inf "
             "beyond a point, narrow valley, jump), slopes, trial steps, tau and restart flags; non-trivial: more than 2 evaluations or a later search",
    ),
    "C15": dict(
        variants=variants(bb("C15.cpp", 12000, 150000),
                          san(bb("C15.cpp", 1200, 30000), False)),
        rule="random problem, padding/offset of every buffer, storage and operator key order, honest/adversarial energies; every callback checks canaries and "
             "read-only buffers; non-trivial: a padded orbital buffer and at least 4 evaluations",
    ),
    "C16": dict(
        variants=variants(bb("C16.cpp", 4000, 120000), wb("C16wb.cpp", 40000, 1000000, name="format and logger"),
                          san(bb("C16.cpp", 0, 10000)), san(wb("C16wb.cpp", 8000, 200000, name="format and logger"), False)),
        rule="1-3 consecutive runs with random limits, adversarial energies and host faults; non-trivial: a run with at least 2 iterations; "
             "format(): text and field widths up to 3000 characters; StepLogger: sequences of records; non-trivial: > 20 characters, a record written",
    ),
    "C17": dict(
        variants=variants(bb("C17.cpp", 16000, 100000)),
        rule="random problem, 1-3 invalid requests (temperature, restart, smearing, entry point, memory type), then a valid run; every case is non-trivial",
    ),
    "C18": dict(
        variants=variants(bb("C18.cpp", 4800, 120000, shards=96),
                          san(bb("C18.cpp", 0, 8000))),
        rule="random run, 0-3 other runs (adversarial, aborted), the same run again; non-trivial: at least one run in between and 4 evaluations",
    ),
    "C19": dict(
        variants=variants(wb("C19.cpp", 200000, 1000000, name="filter"), fb("C06.cpp", 500, 20000)),
        rule="1-5 k-points with 1-12 kinetic energies in [0, 1e6], padded or strided matrices, in place and out of place; non-trivial: more than one k-point",
    ),
    "C20": dict(
        variants=variants(bb("C20.cpp", 5000, 150000),
                          san(bb("C20.cpp", 0, 20000))),
        rule="random run, 1-3 repetitions with an exception (runtime_error, bad_alloc, non-std) at a drawn callback, then a healthy run; non-trivial: run has iterations",
    ),
    "C21": dict(
        variants=variants(bb("C21.cpp", 5000, 150000, name="1 rank"), bb("C21.cpp", 800, 20000, np=3, name="3 ranks", shards=4)),
        rule="1-3 consecutive runs with random limits and tolerances, adversarial energies, host faults, 0-3 looks at the files during the run; non-trivial: a run "
             "with at least one iteration",
    ),
    "C22": dict(
        variants=variants(bb("C22.cpp", 3000, 60000, name="1 rank"), bb("C22.cpp", 400, 10000, np=3, name="3 ranks", shards=2)),
        rule="a random run (to the end, aborted by an exception of the host at a drawn callback, or a request that must be refused) repeated six times; "
             "non-trivial: at least two evaluations, or aborted/refused",
    ),
}
