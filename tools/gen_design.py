"""DESIGN.md = the text below + what each check module says about itself + tools/catches.tsv."""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = os.environ.get("REPO", "/repo")

HEAD = """# How the semantic properties of HydraxMPM are decided here

HydraxMPM is a material-point-method simulator written with JAX: a *builder* wires material points, grids, laws, forces and
obstacles together; a *solver* (`usl`, `usl_aflip`) is a function from simulation state to simulation state; recorders save,
load and export states.  Its stable tests construct a few laws and point sets; they never run a step, a transfer, a force,
a contact, a save or an export.  So nearly every guarantee of the package is undecided by them.

## Approach

A HydraxMPM program has no threads and no protocol: it is a deterministic transition system.  `state -> solver(state)` is the
transition function, and the environment's choices are the initial state (where points are relative to the grid, how fast,
how stressed), the wiring (which calls built the scene, in which order), the schedule of operations (steps of several
simulations, time-step choices, obstacle motions, strain increments, save/load/export calls) and the faults (process death and
write errors at any byte).  Model checking here means: fix a finite alphabet for each of these, enumerate **all** of them up to
a stated bound, execute the **real code** on every one, and judge every state and transition reached.  Nothing is sampled and no
random generator decides what is run (keys of the random filling are themselves part of the alphabet).

Four kinds of exploration are used:

* **Breadth-first search over histories of real steps** (`mc/bfs.py`, `mc/scenes.py`): the frontier is a batch of states, every
  state is extended by every action (time step, force), successors are deduplicated on the rounded properties that the
  invariant can observe, and the invariant is evaluated on every transition.  The batch goes through `vmap(solver)`, so one
  run covers 10^5..10^6 transitions in seconds.  C08 shows that a batched step is the plain step.
* **Enumeration of words** (histories of operations: strain increments, obstacle motions, recorder or export calls, builder
  programs) up to a depth, with a reference model stepped alongside.
* **Fault enumeration** (C32): the real process doing the real save is killed, or its write refused, after every byte.
* **Products of input alphabets** for the stateless parts (kernels, distances, filling, helpers, creation), whose alphabets
  contain every boundary the code distinguishes (nodes, faces, kernel knots and their floating-point neighbours, centres, edges,
  zero speeds, exactly-yielding stresses).

### How the models are bound to the code

The deciding object is always the implementation itself; there is no model whose verdict is believed on its own.  Where an
independent model supplies the expected value (`mc/refmpm.py`: a numpy MPM step with its own kernels; `mc/sdflib.py`:
closest-point geometry; `mc/lawlib.py` and the relations in c24..c28; the registry model in c13; the record model in c31/c36)
every explored transition is executed on both and compared, so each of them is a trace validation: the evidence field
`traces_validated_against_impl` counts them.  Where possible the oracle is the implementation itself under a transformation
(symmetry C09, split C12, alone C11, unlimited twin C07, own process C08, interrupted/uninterrupted C31), which needs no model.

### Observing without touching

Grid arrays are observed by *probing user forces* (`mc/scenes.add_probe`): the package lets users register forces, which are
handed the grid arrays between transfers.  No hook in /repo was needed (MANIFEST.json `hooks` is empty).

### Determinism

`check.sh` fixes CPU, float64 (one C10 pass in float32), one thread per worker, hash seed and warnings; workers are spawned
processes; the compile cache is shared, written atomically and removed at the end.  The check result does not depend on
VERIF_SEED (nothing is random).  A task that does not come back within the time limit is itself reported (`hang`).

## Files

`check.sh` runs `python -m mc <ID> <tier>`; `mc/core.py` schedules the tasks, matches violations against KNOWN_FINDINGS.txt,
writes `replays/` and `evidence/`; `mc/checks/cNN.py` is one property each; `./check.sh --replay replays/X.json` re-runs
the task that failed.  `tools/gen_props.py`, `tools/gen_manifest.py`, `tools/gen_design.py` write properties.jsonl,
MANIFEST.json and this file.

## Properties
"""

WHY = {
"C01": "Independent kernel sums give the mass of every node; mass of the points must be bit-identical after any history. Reaches points on nodes, faces and kernel knots, several bodies on a grid, and loss after several steps.",
"C02": "Known impulses (gravity, a user force) are the only allowed change; stresses and affine state are arbitrary members of an alphabet, so any force that does not sum to zero, or any lost external force, shows in some state.",
"C03": "Closed form v0 + n g dt for every lattice placement: errors that appear only when points cross cell faces need the histories.",
"C04": "The affine field itself is the oracle: grid velocity at nodes, gradient, affine matrix (both update formulas), moments about the origin before and after.",
"C05": "Kinematic invariants on every transition relative to the step's own velocity gradient, for every law that keeps or discards shear, with and without stored deformation, including one-point bodies.",
"C06": "Energy of every step of every history against the previous one; the two pure limits are compared with an independent interpolation and with the points' own velocities.",
"C07": "The same solver with an unreachable limit is the oracle; speeds sit below, at and above the limit in a sphere of directions.",
"C08": "Every interleaving of steps of three simulations (two of equal sizes, everything else different) must give each its solo history, which is computed in a process of its own; every execution mode (eager, jit, scan, fori, while, remat, vmap) gives the same; every midway state continues the same.",
"C09": "The full symmetry group of the grid is enumerated; the step must commute with each element. A preferred axis or index anywhere in the step shows.",
"C10": "Every transition recomputed by the numpy reference step from the same pre-state and compared field by field; options (blend, dynamic blending, update formula, padding, number of bodies) enumerated.",
"C11": "Every registration order of every registry, rigid bodies at every position, every split over solvers; each body must move as if alone.",
"C12": "All ordered partitions of the points into bodies must give the unsplit motion.",
"C13": "Builder programs (call orders x force calls x index lists) are executed on the real builder and on a list registry; two real steps must agree with the model.",
"C14": "Interior positions on a lattice containing every knot and its floating-point neighbours; identities and independent closed-form kernels; eager and compiled.",
"C15": "A dense weight matrix computed independently is compared entry by entry, for scalars, vectors and tensors, with and without normalisation, at every cutoff situation.",
"C16": "Integer arithmetic for node counts; a stray point at every position of a lattice that covers rim, outside, corners and far away must not change the others.",
"C17": "Exact impulses for every tuple of gravity forces over every sub-list of bodies in both modes.",
"C18": "The force change is observed on every node and point directly and must equal -alpha |f| sign(v); programs of several forces fix the order semantics.",
"C19": "Momentum before and after every obstacle is observed on every node; invariants (non-penetration, Coulomb, no reversal, dissipation, locality) and an independent rule; several obstacles, two different grids, shape centres, histories.",
"C20": "Independent closest-point geometry over lattices that contain surfaces, edges, axes, centres and the far field; then a step along the normal by the distance must reach the surface.",
"C21": "Every schedule of velocity/spin/step choices on the real pose update; exact rigid-motion references; surface points must be carried along to first order.",
"C22": "Parts evaluated separately; tables interpolated independently; all pairs, triples and nestings.",
"C23": "The whole candidate lattice (and every Gauss point) is compared one by one with independent geometry; every call of the product of shapes, poses, bounds, cell sizes and points per cell.",
"C24": "All increment words; every state checked for symmetry and finiteness, every transition for isotropy (rotated twin history), locality (shuffled, alone, next to broken neighbours), rest and co-rotation.",
"C25": "The compliance form of Hooke's law on the accumulated strain of every word; reversed, split and retimed words.",
"C26": "Scalar relations evaluated in numpy for the full product of density ratios, rates, amplitudes, previous stresses and parameters, and for words of rates.",
"C27": "Defining relations on every transition (trial, consistency, flow rule, hardening, apex, separation), recovered from stresses before and after only.",
"C28": "Defining relations on every transition of every word; initialisations round-tripped. Increments beyond the return mapping's reach are explored separately (known finding).",
"C29": "All multisets of points and all single changes of each, against the Courant limit from masses and volumes.",
"C30": "All gradient words on the real driver against scipy's matrix exponential; every triaxial programme's recorded history replayed step by step.",
"C31": "Every sequence of recorder operations on the real file system with a reference model of the records, all records re-read bit for bit after every operation; every scene of a catalogue saved, loaded and resumed.",
"C32": "The real save is interrupted (killed by a file-size limit, refused with an error, or cut afterwards) after every byte; the load must raise or return the saved state; other records must not change; a repeated save must repair.",
"C33": "All tensors over a small alphabet, all words of rotations; independent references and defining identities; batched form against single form.",
"C34": "All subsets of the creation arguments on both entry points against an independent reference.",
"C35": "Every entry of the Jacobian of the real steps, forward and reverse, against two-sided difference quotients; switching points recognised by disagreeing one-sided quotients and counted.",
"C37": "The same program in the reference units is the oracle: an absolute threshold anywhere in step, law, obstacle or estimate makes two unit systems differ. Powers of two keep the arithmetic exact.",
"C38": "The same scene seen by the resting observer is the oracle; whole-cell frame velocities make even histories exactly comparable, obstacles in contact included.",
"C39": "The unperturbed twin is the oracle and the comparison is bitwise, so any leak shows whatever its size; the cone is grown from the stencil widths by the checker.",
"C40": "Every degenerate placement x velocity x stress x contrast is stepped for real and judged on every transition; transitions that strain a point by more than a fifth, and states after such, are the caller's time step and not judged (rates that are no numbers always are).",
"C36": "All sequences of export calls; every file re-read with pyvista after every call; boundary exports against the distance function.",
}

FALSE_ALARMS = """## False alarms met while building, and what was corrected

* C14/C09: the linear kernel's gradient has no unique value on cell faces: comparisons of gradients stay off them; statements say so.
* C19: nodes within one cell of an obstacle are in contact by design (contact layer): the statement was adapted; nodes exactly on the
  edge of the layer, on shape centres and ridges (no normal) are only asked to stay finite.
* C20/C22: the package's square roots are regularised by 1e-6: distances are compared to within it.
* C21/C24/C27/C28: pose and spin integration is first order in the step: compared to the square of the turned angle.
* C27: the shear-stress floor of 1e-6 and starting stresses outside the cone (returned by the first increment) are legal.
* C32: a *silent* loss was first reported for writes that numpy's buffered `fclose` loses on a full disk. That happens after the write
  call succeeded, outside the repository's control; only refused calls must surface. Loading such a record still has to raise or be exact.
* C40: the first version judged steps from states that earlier steps had blown up (|L| dt far above one: near-empty cut cells with huge
  stresses). That is the caller's time step, not the package: the check now judges steps that start moderate and strain moderately.
* C35: derivatives across a switching point (yield, contact, limiter, kernel knot) have no value; they are recognised and counted, not judged.
* C23: candidates closer than 1e-5 to the surface may go either way (regularised distances).
"""

NOTES = """## Not claimed, and why

* Visual windows, example scripts and plots: no statement beyond C36.
* `GridContact` (`add_body_contact`) and 1D mappings cannot be run at all with the current interfaces (they refer
  to attributes that no longer exist): there is no behaviour to explore. Recorded here as defects; no property depends on them.
* `CompositeSDF` is not exported by the package's `__init__`; the checks import it from its module.
* Modified Cam-Clay has no time-step estimate; C29 covers the laws that offer one.
* Every property is decided on CPU float64 (C10 also float32): GPU kernels are out of reach here.

Model checking applies to every listed property because each quantifies over states, histories, programs or faults that can be
bounded; `not_applicable` is empty. What lies outside the bounds (larger scenes, longer histories, values between the alphabet's)
is not decided. The alphabets were chosen so that each *boundary the code distinguishes* is met; see the RULE of each check.
"""


def main():
    props = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l); props[d["id"]] = d
    out = [HEAD]
    for pid, d in sorted(props.items()):
        m = importlib.import_module("mc.checks." + pid.lower())
        out.append("### %s %s\n" % (pid, d["title"]))
        out.append("%s\n" % d["statement"])
        out.append("* **Decided by** %s." % m.TECHNIQUE)
        out.append("* **Explored**: %s." % m.RULE)
        out.append("* **Oracle and reach**: %s" % WHY[pid])
        b = m.BOUNDS
        fmt = lambda x: ", ".join("%s: %s" % kv for kv in x.items())
        out.append("* **Bounds**: quick: %s; thorough: %s." % (fmt(b["quick"]), fmt(b["thorough"])))
        out.append("* **Assumes**: %s." % "; ".join(m.ASSUMPTIONS))
        try:
            c = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools", "costs.tsv"))]
            c = [r for r in c if r[0] == pid]
            out.append("* **Cost** (8 cores): %s." % "; ".join("%s %s s, %s states, %s transitions" % tuple(r[1:]) for r in c))
        except FileNotFoundError:
            pass
        out.append("")
    out.append("## Defects found in the unmodified tree\n\nKNOWN_FINDINGS.txt is the machine-readable list. Repaired (one `fix:` commit each):\n")
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        if l.startswith("fixed:"):
            p = l.split(None, 3); out.append("* %s (%s): %s" % (p[1].split("=")[1], p[2], p[3].strip()))
    out.append("\nRecorded, not repaired (the check prints KNOWN-FINDING and stays quiet; any other key or configuration is still reported):\n")
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        if l.startswith("known:"):
            a, _, t = l.partition("::"); out.append("* `%s`: %s" % (a[6:].strip(), t.strip()))
    out.append("\nThe four C30 findings have small repairs, but `hydraxmpm/element_tests/` counts as test files for this task, which commits may not change. "
               "The C28 findings would need another return-mapping algorithm or a redefinition of the pressure floor: a maintainer's decision.\n")
    out.append(FALSE_ALARMS)
    out.append("## Planted bugs\n\nEach lives in `seeded/<id>/` (patch, demonstration, what it needs). Outcome of the property's quick check with the patch applied:\n")
    out.append("| planted bug | needs | caught by | history |\n|---|---|---|---|")
    try:
        cat = dict((r[0], r[1:]) for r in (l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools", "catches.tsv"))))
    except FileNotFoundError:
        cat = {}
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        i = os.path.basename(d); mj = json.load(open(d + "/meta.json"))
        c = cat.get(i, ["not run", ""])
        out.append("| %s | %s | %s | %s |" % (i, mj["needs"].replace("|", "/"), c[0], c[1] if len(c) > 1 else ""))
    out.append("")
    out.append(NOTES)
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


main()
