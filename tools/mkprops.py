"""Regenerates /verif/properties.jsonl (committed; run by hand)."""
import json, os
S = "src/microjax/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(obs), hook_needed=hook)))

p("C01", "Overlapping callers do not disturb each other",
  "When several threads of one process call the library's magnification, image, caustic, parallax, finite-source calculator and likelihood routines at overlapping times, each call returns the value it returns when it runs alone, wherever the threads happen to be preempted. "
  "This includes callers that share one finite-source calculator object, one parallax reference state, one compiled-function cache or the same input arrays, and callers that are still tracing or compiling while others execute.",
  ["schedules", "inputs"], "all interleavings of the Python-level steps of 2-4 overlapping calls, over all pairs of public routines and arguments",
  "Every test makes one call at a time from one thread; no schedule other than 'one after the other' is ever executed.",
  ["point_source.py", "inverse_ray/lightcurve.py", "caustics/lightcurve.py", "fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "trajectory/parallax.py", "likelihood.py", "poly_solver.py"],
  [("no module-level mutable state; intermediates live in locals, closures and fresh arrays", "every routine"), ("calculator objects written only while being constructed", S+"fastlens/mag_fft.py magnification.__init__")],
  [("k, apk, Aext0", "precomputed Fourier tables shared by every caller of one calculator", S+"fastlens/mag_fft.py")], ["return values", "traced programs"])
p("C02", "An interrupted or failed call leaves nothing behind",
  "If a call is cut short at any point (keyboard interrupt, memory exhaustion, an error raised for bad arguments, a failing dependency), it ends with an ordinary exception in its caller and never ends the process, and every call made afterwards in the same process - the same call retried, or any other - returns exactly what it would have returned had the interrupted call never been made. "
  "Calculator objects and reference states that existed before the interruption stay usable and unchanged.",
  ["crash_points", "fault_sequences", "histories"], "every line of the library at which a call can be interrupted, every fault kind, every follow-up call",
  "Tests only run calls to completion; the few error tests raise on argument checks at the top of a function and never call again afterwards.",
  ["point_source.py", "inverse_ray/lightcurve.py", "caustics/lightcurve.py", "fastlens/fftlog.py", "fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "trajectory/parallax.py", "likelihood.py"],
  [("results are built in locals and returned; nothing is published before it is complete", "every routine"), ("argument errors are raised as ValueError", S+"fastlens/fftlog.py, "+S+"point_source.py")], [], ["exceptions", "results of later calls"])
p("C03", "A result depends only on the arguments of its own call",
  "For every history of earlier calls in the process, every routine returns, for given arguments, the value that a freshly started process returns for the same arguments: earlier calls with other (even nearly equal) arguments, other batch sizes, other precision or debugging modes, cleared compilation caches, refilled input buffers or restarts never show through. "
  "That holds for each argument separately: two calls that differ in any single argument, including optional ones such as the limb-darkening coefficient, third-lens parameters, orbital elements or calculator configuration, each get their own correct answer.",
  ["histories", "configurations", "inputs"], "all histories of public calls, restarts and mode switches, over arguments that differ in one component",
  "Tests evaluate a handful of fixed arguments, each once, in one order; the order and the neighbours of a call are never varied.",
  ["point_source.py", "inverse_ray/lightcurve.py", "inverse_ray/extended_source.py", "caustics/lightcurve.py", "caustics/extended_source/mag.py", "fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "fastlens/special.py", "trajectory/parallax.py", "likelihood.py", "multipole.py", "poly_solver.py"],
  [("compilation caches are keyed on every static argument and on argument types", "jax.jit static_argnames"), ("no memoisation of numerical results", "whole library")],
  [("jit caches", "compiled programs reused across calls", "jax.jit decorated routines")], ["return values compared between a long-lived and a restarted replica, and with independent models"])
p("C04", "Calls leave the caller's data and the process's settings untouched",
  "No call modifies the arrays, containers or objects it is given, and no call changes process-wide state: random-number generators, floating-point error handling, numerical-library configuration, warning filters, environment, working directory, standard output or error handling. "
  "What a call returns is the caller's own: overwriting it, or overwriting or reusing the inputs after the call, changes no later result and no object's internal state.",
  ["histories", "inputs"], "all histories of calls interleaved with a caller that overwrites every writable input and output between calls",
  "Tests discard inputs and outputs after one assertion and never inspect process-wide settings.",
  ["fastlens/mag_fft.py", "fastlens/fftlog.py", "fastlens/mag_fft_jax.py", "point_source.py", "trajectory/parallax.py", "likelihood.py", "caustics/extended_source/limb.py"],
  [("inputs are copied before in-place work", S+"fastlens/mag_fft.py, "+S+"fastlens/fftlog.py"), ("private random keys instead of the global generators", S+"caustics/extended_source/limb.py")], [], ["inputs before/after", "process settings before/after", "later results"])
p("C05", "Refinement budget and batch size never change which value a point gets",
  "In the adaptive finite-source light-curve routines for binary and triple lenses, with k points needing refinement and a budget of B full calculations, the first min(k, B) of those points in trajectory order carry exactly the full finite-source value for their own position, and every other point carries exactly the multipole value for its own position; when the budget covers all of them the light curve agrees with the true extended-source magnification up to the resolution of the integrator. "
  "The batch (chunk) size used for the full calculations, a batch size or budget that does not divide or exceeds the number of points, and an out-of-memory failure followed by a retry with smaller batches never change any value.",
  ["configurations", "fault_sequences", "inputs"], "all trajectories, lens parameters, source profiles, budgets 0..n+, batch sizes, and memory limits that force a retry",
  "Tests use one budget and one batch size per case, always larger than the number of points and evenly dividing.",
  ["inverse_ray/lightcurve.py", "inverse_ray/extended_source.py", "inverse_ray/cond_extended.py", "multipole.py"],
  [("stable ordering of failing points, padded chunks, scatter back by index", S+"inverse_ray/lightcurve.py mag_binary / mag_triple"), ("multipole accepted only where the tests pass", S+"inverse_ray/cond_extended.py")], [], ["returned light curve"])
p("C06", "Image tracking finds every image, whatever the path or starting guess",
  "Following the images of a source along any finite path - including jumps, reversals, repeated epochs, caustic crossings and motion exactly along the lens axis - yields at every epoch the same complete set of images as solving that epoch from scratch, so no image is lost or invented because of where the source was before. "
  "Re-solving from carried-over guesses that are stale, reordered, perturbed, partly corrupted or from another epoch gives the same set, and following critical curves around the full phase circle yields at every phase all solutions for that phase, on branches that only permute them.",
  ["histories", "fault_sequences", "inputs"], "all paths of source positions and all stale, reordered or corrupted (finite, mutually distinct) starting guesses",
  "Tests track one or two smooth paths that stay off the lens axis and start every epoch from the immediately preceding solution.",
  ["point_source.py", "poly_solver.py", "utils.py"],
  [("warm-started simultaneous root iteration with mask by the lens equation", S+"point_source.py _images_point_source_sequential"), ("greedy matching is a permutation", S+"utils.py match_points")],
  [("carried image positions", "the previous epoch's roots used as the next guess", S+"point_source.py")], ["image positions and masks", "critical/caustic curves"])
p("C07", "Contour magnification does not depend on its internal random jitter",
  "The contour-based extended-source magnification (single, binary and triple lenses; uniform or limb-darkened source) perturbs its limb sampling with pseudo-random numbers to avoid degenerate points; for every outcome of those draws the result is finite, results for different outcomes agree with each other, and for single lenses and for sources at least two radii away from every caustic it agrees with the true magnification of the extended source. "
  "Closer to the caustics of a binary lens it does so for nearly all positions. "
  "The same holds however the random generator misbehaves within its range (constant, extreme or repeated draws).",
  ["fault_sequences", "inputs"], "all seeds and all outcomes of the internal random draws, over source positions near and far from caustics",
  "The random key is hard-wired, so tests only ever see one draw.",
  ["caustics/extended_source/limb.py", "caustics/extended_source/mag.py", "caustics/extended_source/segments.py", "caustics/extended_source/contours.py", "caustics/integrate.py", "caustics/lightcurve.py"],
  [("jitter of 1e-6 / 1e-9 on warm-start guesses and duplicate images", S+"caustics/extended_source/limb.py"), ("segment stitching tolerant to it", S+"caustics/extended_source/segments.py")],
  [("random key", "fixed key from which the jitter is drawn", S+"caustics/extended_source/limb.py")], ["returned magnification"])
p("C08", "Finite-source calculators serve any mix of requests and instances",
  "A precomputed single-lens finite-source calculator (uniform disk, and limb-darkened disk of order one and two, in both the NumPy and the JAX implementation) answers every request in any sequence - any order, any array sizes including single values, repeated, negative and zero separations, any source radius on either side of its small-source switch - with the true magnification for its own source profile and configuration. "
  "Other calculators created, used, reconfigured or discarded in the same process, clients sharing one instance in any interleaving, and saving and restoring an instance never change its answers.",
  ["schedules", "histories", "configurations"], "all sequences and interleavings of requests from several clients over several instances and configurations",
  "Tests build one instance of a calculator and query a fixed grid once.",
  ["fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "fastlens/fftlog.py", "fastlens/fftlog_jax.py", "fastlens/special.py"],
  [("tables are attributes of the instance", S+"fastlens/mag_fft.py magnification"), ("each transform builds its own object and padded copies", S+"fastlens/fftlog.py")],
  [("k, apk, Aext0", "Fourier tables precomputed per instance", S+"fastlens/mag_fft.py")], ["returned magnification"])
p("C09", "A parallax reference state is a complete, durable snapshot",
  "Evaluating the annual-parallax offsets from a reference state depends only on that state and the requested times: a state that is saved, restored in another process, shared, or used after other states were created gives at every time the offsets of an independent model of the projected orbital motion, minus its position and velocity at the reference epoch, scaled and rotated by the two parallax components. "
  "Splitting the times into batches of any size, in any order, with duplicates, or resuming after a crash never changes the offset of any epoch, for explicit or automatically selected perihelion and equinox times.",
  ["crash_points", "histories", "inputs"], "all reference epochs, targets, orbital elements, and all ways of batching, reordering, duplicating and resuming the evaluation",
  "Tests build a state and evaluate it immediately, on one array, for one or two targets and default orbital elements.",
  ["trajectory/parallax.py"],
  [("the state tuple carries every orbital element needed", S+"trajectory/parallax.py set_parallax"), ("element-wise evaluation", S+"trajectory/parallax.py compute_parallax")],
  [("parallax_params", "reference position, velocity, rotation, basis, epochs", S+"trajectory/parallax.py")], ["returned offsets"])
p("C10", "Flux-marginalised likelihoods compose over any arrival of the data",
  "For independent batches of photometry, using the posterior of the source and blend fluxes after one batch as the prior for the next and adding up the negative log-likelihoods gives the same total as one evaluation over all data, for every way of partitioning, ordering, delaying or de-duplicating the batches and for every crash that resumes from a saved posterior. "
  "The diagonal and general forms agree wherever both apply, correlated noise and non-zero prior means included in the general form, and the weighted straight-line fit is invariant under reordering, equals the exact weighted least-squares solution, and treats zero errors as unit weights.",
  ["histories", "crash_points", "inputs"], "all partitions, orders, duplications and crash points of a data stream, over data sizes, noise levels and priors",
  "Tests evaluate one small data set in one piece.",
  ["likelihood.py"],
  [("closed-form Gaussian marginalisation including every determinant term", S+"likelihood.py nll_ulens, nll_ulens_general"), ("weighted normal equations", S+"likelihood.py linear_chi2")], [], ["returned likelihoods and fits"])
p("C11", "One bad epoch never contaminates the others, and batching is irrelevant",
  "In every routine that evaluates many epochs at once, the value of an epoch depends only on that epoch: replacing other epochs by NaN, infinite, huge or singular positions, reordering or duplicating epochs, or splitting a batch into smaller batches leaves every other epoch's value unchanged up to rounding (for the adaptive light curves, while the refinement budget covers all points). "
  "The result always has one value per input epoch, in input order.",
  ["fault_sequences", "inputs", "configurations"], "all corruptions of a subset of the epochs and all permutations, duplications and splits of a batch",
  "Tests pass clean batches of one shape in one order.",
  ["point_source.py", "inverse_ray/lightcurve.py", "caustics/lightcurve.py", "multipole.py", "fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "trajectory/parallax.py", "poly_solver.py"],
  [("vectorised root iteration freezes each epoch on its own convergence", S+"poly_solver.py"), ("per-epoch map over points", S+"caustics/lightcurve.py, "+S+"inverse_ray/lightcurve.py")], [], ["returned arrays"])

p("C12", "How a program executes a call does not change its answer",
  "Every JAX routine of the library - point-source, hexadecapole, inverse-ray, contour and adaptive magnifications, critical curves, tracked images, lens maps, root finder, special functions, finite-source calculators, parallax and likelihoods - returns for given arguments the same values (up to rounding, and to single integration-grid cells for extended sources) however the calling program executes it: directly or compiled, with any subset of its arguments constant, traced or mapped, inside vectorised calls, loops, scans, conditionals and checkpoints nested in any way, in any lane or iteration, whatever requests or non-finite values the other lanes hold, and after an execution that was cut short while being traced. "
  "Derivatives obey the same rule: for the smooth routines, forward and reverse mode and every such execution agree with each other and with the differences of the returned values.",
  ["schedules", "configurations", "fault_sequences", "inputs"], "all nestings of executors around a call, all subsets of traced or mapped arguments, all lanes and contents of the other lanes",
  "Tests call a routine directly, or through one fixed jit or vmap, on clean lanes.",
  ["point_source.py", "multipole.py", "poly_solver.py", "inverse_ray/extended_source.py", "inverse_ray/lightcurve.py", "caustics/lightcurve.py", "fastlens/mag_fft_jax.py", "fastlens/special.py", "trajectory/parallax.py", "likelihood.py"],
  [("pure functions of their arguments, traced without value-dependent Python branches", "every routine"), ("custom derivative rules", S+"poly_solver.py, "+S+"fastlens/special.py")], [], ["return values and derivatives under each execution"])

# ---- properties of pure functions: listed, not claimed
def na(id, title, st, files, where):
    p(id, title, st, ["inputs"], "all inputs in the documented domain",
      "Tests sample a few parameter sets; the statement is over a continuum of inputs.", files, [(title, where)], [], ["return values"])
na("P01", "Point-source magnification is the sum over all solutions of the lens equation",
   "For every source position off the caustics and every single, binary or triple lens, the returned images are exactly the solutions of the lens equation and the magnification is the sum of their inverse absolute Jacobian determinants.",
   ["point_source.py", "coeffs.py", "poly_solver.py"], S+"point_source.py mag_point_source")
na("P02", "Inverse-ray magnification converges to the true extended-source value",
   "For every source position, radius, limb-darkening coefficient and lens, the inverse-ray magnification converges to the exact area (brightness) ratio as the resolutions grow.",
   ["inverse_ray/extended_source.py", "inverse_ray/merge_area.py", "inverse_ray/boundary.py"], S+"inverse_ray/extended_source.py")
na("P03", "Contour and multipole magnifications are accurate within their stated domains",
   "For every source position the contour integral equals the extended-source magnification within its sampling error, and the multipole expansion differs from it by no more than its own error estimate where it is accepted.",
   ["multipole.py", "caustics/integrate.py", "inverse_ray/cond_extended.py"], S+"multipole.py")
na("P04", "Derivatives equal the true derivatives of the returned values",
   "Forward- and reverse-mode derivatives of every differentiable routine equal the derivative of the mathematical function it evaluates.",
   ["poly_solver.py", "trajectory/parallax.py", "inverse_ray/boundary.py"], S+"poly_solver.py custom_jvp")
na("P05", "Special functions, root finder and transforms are accurate over their domains",
   "Bessel, gamma and elliptic functions, the polynomial root finder and the logarithmic Hankel transform agree with their mathematical definitions within their stated accuracy over their whole domain.",
   ["fastlens/special.py", "fastlens/fftlog.py", "fastlens/fftlog_jax.py", "poly_solver.py"], S+"fastlens/special.py")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
