"""Writes MANIFEST.json from properties.jsonl and the simulators that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dst"))
NOTE = {
 "C01": "real library code in 2-4 threads; every switch is chosen by the seeded scheduler at library source lines (switches inside C code of JAX/NumPy are not explored); values compared with a run alone and with independent references",
 "C02": "interrupts, allocation failures and bad arguments injected at seeded library lines and at the seams to NumPy/SciPy/JAX; later calls compared with an undisturbed replica and independent references",
 "C03": "seeded histories of calls in one process replayed against fresh processes and independent references",
 "C04": "adversarial caller: inputs and outputs overwritten, ambient process state snapshotted around every call",
 "C05": "budget/batch configurations generated from a seed and simulated allocation failures; values compared point by point with direct evaluations of each solver",
 "C06": "seeded trajectories and carried-over guesses; oracle is an independent polynomial solve per epoch",
 "C07": "the random generator is a simulator seam: seeded and adversarial draws; oracle VBMicrolensing or quadrature",
 "C08": "seeded request mixes, instance lifetimes and client interleavings; oracle Gauss quadrature",
 "C09": "seeded stores, restarts and deliveries of epochs; oracle independent Kepler model",
 "C10": "seeded delivery of photometry with loss, duplication, delay and crash of the fitter; oracle direct Gaussian marginal",
 "C11": "seeded corruption and reordering of epochs; oracle the same epochs in a clean batch plus independent references",
 "C12": "the executor is simulated: seeded nestings of jit, vmap, scan, loops, conditionals, checkpoints and derivatives around the real routine, corrupted neighbouring lanes, faults while tracing; oracle the direct call (itself judged against independent references in C03-C11) and finite differences",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i.startswith("C") and os.path.exists(os.path.join(V, "dst", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique="deterministic simulation with fault injection", level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason={
            "P01": "a pure function of its arguments: no schedule, clock, I/O, history or party for a simulator to control; only input sampling would be left",
            "P02": "a pure numerical convergence statement: nothing for a simulator to schedule or to fail",
            "P03": "a pure numerical accuracy statement over inputs: nothing for a simulator to schedule or to fail",
            "P04": "derivatives of pure functions: nothing for a simulator to schedule or to fail",
            "P05": "accuracy of pure functions over their domain: nothing for a simulator to schedule or to fail"}.get(i, "simulator not built yet")))
json.dump(dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
