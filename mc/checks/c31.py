"""C31 saving and resuming."""
PROPERTY = "C31"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over all sequences of recorder operations (step, save, change and save again, load the first / the last record and go on, re-open, re-open with overwriting, save in a neighbouring recorder) on the real simulation and the real file system, against a reference model of the records; and save / load / resume of every scene of a catalogue"
RULE = "all operation sequences up to the depth, files restored when backtracking; after every operation all records are loaded back and compared bit for bit; non-trivial = distinct sequence"
ASSUMPTIONS = ["JAX CPU float64", "the skeletons come from the same scene code with other numbers", "one process writes one folder"]
NOTE = "every transition runs the real save/load on disk in a scratch folder; destructive calls are confined to it"
BOUNDS = {"quick": dict(operations=8, depth=4, scenes=8), "thorough": dict(operations=8, depth=5, scenes=20)}


def tasks(tier):
    out = []
    for scheme, law in (("usl", "elastic"), ("usl_aflip", "mcc")):
        for first in range(8):
            out.append(("sequences", dict(scheme=scheme, law=law, first=first, depth=4 if tier == "quick" else 5)))
    for scheme in ("usl", "usl_aflip"):
        for law in ("elastic", "newton", "mui", "dp", "mcc"):
            for dim in (2, 3):
                if tier == "thorough" or (len(law) + dim + len(scheme)) % 2 == 0 or law == "mcc":
                    out.append(("scenes_", dict(scheme=scheme, law=law, dim=dim)))
    out.append(("folders", dict(tier=tier)))
    return out


def leaves(t, np):
    import jax
    return [(np.asarray(x).dtype.str, np.asarray(x).shape, np.asarray(x).tobytes(), type(x).__name__ if isinstance(x, (bool, int, float)) else "array") for x in jax.tree_util.tree_leaves(t) if hasattr(x, "dtype") or isinstance(x, (bool, int, float, complex))]


def build(scheme, law, dim=2, shift=0):
    """The scene, and the same code with other numbers (the skeletons)."""
    from mc.env import jax, jnp, eqx
    from mc import scenes as S
    from mc.checks import c08
    solver, st = c08.sim(scheme, dim, 0, law)
    st = S.strong(st)
    if shift:
        bump = lambda x: x + jnp.asarray(1 + shift, x.dtype) if eqx.is_inexact_array(x) else x
        st = jax.tree_util.tree_map(bump, st)
        solver = jax.tree_util.tree_map(lambda x: bump(x) if eqx.is_array(x) else (x * 3 + 1.0 if isinstance(x, float) else x), solver)
    return solver, st


class World:
    def __init__(self, scheme, law, dim=2):
        import tempfile, os
        from mc.env import jax, jnp, eqx, np
        self.solver, self.st0 = build(scheme, law, dim)
        self.sk = build(scheme, law, dim, 1)
        f = jax.jit(lambda st: self.solver(st))
        self.step = lambda st: f(st)
        self.root = tempfile.mkdtemp(prefix="mc_c31_")
        self.base = os.path.join(self.root, "deep", "er")
        os.makedirs(self.base)
        self.out, self.side = os.path.join(self.base, "out"), os.path.join(self.base, "out_side")
        with open(os.path.join(self.base, "keep.txt"), "w") as g:
            g.write("keep")
        self.memo = {(): self.st0}

    def state(self, key):
        from mc.env import eqx
        if key not in self.memo:
            prev = self.state(key[:-1])
            if key[-1] == "step":
                self.memo[key] = self.step(prev)
            else:
                v = prev.world.material_points[0].velocity_stack
                self.memo[key] = eqx.tree_at(lambda s: s.world.material_points[0].velocity_stack, prev, v * 1.5 + .01)
        return self.memo[key]


def quiet(f, *a, **k):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


OPS = ("step", "save", "change_save", "load_first", "load_last", "reopen", "reopen_overwrite", "side_save")


def sequences(cfg, rec):
    import os, shutil
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import guard
    from hydraxmpm.common.sim_io import SimIO, load_simulation
    w = World(cfg["scheme"], cfg["law"])
    L = {}
    lv = lambda key: L.setdefault(key, leaves(w.state(key), np))
    sol = leaves(w.solver, np)
    nstep = lambda key: int(w.state(key).step)

    def check(model, hist):
        for folder, recs in ((w.out, model["out"]), (w.side, model["side"])):
            for n in range(0, 6):
                if n in recs:
                    try:
                        s, st = load_simulation(folder, w.sk[0], w.sk[1], step=n)
                    except Exception as e:
                        rec.fail("load", "a saved step cannot be loaded: " + type(e).__name__, operations=hist, step=n, folder=os.path.basename(folder)); continue
                    if leaves(st, np) != lv(recs[n]):
                        rec.fail("exact", "a loaded step is not the saved state, bit for bit", operations=hist, step=n, folder=os.path.basename(folder))
                    if leaves(s, np) != sol:
                        rec.fail("solver", "the loaded solver is not the saved solver, bit for bit", operations=hist, step=n)
                else:
                    try:
                        load_simulation(folder, w.sk[0], w.sk[1], step=n)
                        rec.fail("ghost", "a step that was never saved (or was removed) can be loaded", operations=hist, step=n, folder=os.path.basename(folder))
                    except Exception:
                        pass
                rec.count(traces=1)
        try:
            with open(os.path.join(w.base, "keep.txt")) as f:
                ok = f.read() == "keep"
        except OSError:
            ok = False
        if not ok:
            rec.fail("neighbours", "files next to the output folder are changed or removed", operations=hist)

    def apply(op, model, io):
        """-> new recorder, new model (or None when the operation does not apply)"""
        m = dict(cur=model["cur"], out=dict(model["out"]), side=dict(model["side"]))
        before = leaves(w.state(m["cur"]), np)
        if op == "step":
            if nstep(m["cur"]) >= 4:
                return None
            m["cur"] += ("step",)
        elif op in ("save", "change_save"):
            if op == "change_save":
                if sum(k == "change" for k in m["cur"]) >= 2:
                    return None
                m["cur"] += ("change",)
            quiet(io[0].save_step, w.state(m["cur"]), **({} if len(m["cur"]) % 2 else dict(verbose=False)))
            m["out"][nstep(m["cur"])] = m["cur"]
        elif op in ("load_first", "load_last"):
            if not m["out"]:
                return None
            n = (min if op == "load_first" else max)(m["out"])
            s, st = load_simulation(w.out, w.sk[0], w.sk[1], step=n)
            m["cur"] = m["out"][n]
            # continuing from what was loaded is the uninterrupted run
            a, b = w.step(st), w.state(m["cur"] + ("step",))
            if leaves(a, np) != leaves(b, np):
                rec.fail("resume", "continuing from a loaded step is not the uninterrupted run", step=n)
        elif op in ("reopen", "reopen_overwrite"):
            io = (quiet(SimIO, output_dir=w.out, overwrite=op != "reopen"), io[1])
            if op != "reopen":
                m["out"] = {}
                quiet(io[0].save_solver, w.solver, meta_info=dict(note="x"))
        elif op == "side_save":
            quiet(io[1].save_step, w.state(m["cur"]))
            m["side"][nstep(m["cur"])] = m["cur"]
        if op.endswith("save") and leaves(w.state(m["cur"]), np) != lv(m["cur"]):
            rec.fail("pure", "saving alters the simulation", operation=op)
        return io, m

    def explore(model, io, hist, depth):
        if depth == 0:
            return
        snap = guard.snapshot(w.root)
        for i, op in enumerate(OPS):
            if not hist and i != cfg["first"]:
                continue
            guard.restore(w.root, snap)
            r = apply(op, model, io)
            if r is None:
                continue
            rec.count(states=1, transitions=1, evals=1, distinct=1)
            check(r[1], hist + [op])
            explore(r[1], r[0], hist + [op], depth - 1)

    try:
        with guard.contained(w.root) as escaped:
            io = (quiet(SimIO, output_dir=w.out), quiet(SimIO, output_dir=w.side))
            for q in io:
                quiet(q.save_solver, w.solver)
            # the search starts after a step and a save when the first operation needs records
            model = dict(cur=(), out={}, side={})
            if OPS[cfg["first"]].startswith("load"):
                quiet(io[0].save_step, w.state(())); model["out"][0] = ()
                model["cur"] = ("step",)
            explore(model, io, [], cfg["depth"])
            rec.sample(operations=list(OPS), first=OPS[cfg["first"]])
            if escaped:
                rec.fail("escape", "the recorder touches files outside its folder", paths=escaped[:5])
    finally:
        shutil.rmtree(w.root, ignore_errors=True)


def scenes_(cfg, rec):
    """Every law, scheme and dimension: save along a run, load each step, resume from each."""
    import os, shutil
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import guard
    from hydraxmpm.common.sim_io import SimIO, load_simulation
    w = World(cfg["scheme"], cfg["law"], cfg["dim"])
    try:
        with guard.contained(w.root):
            io = quiet(SimIO, output_dir=w.out)
            quiet(io.save_solver, w.solver, meta_info=dict(a=1, b="two"))
            run = [w.st0]
            for _ in range(4):
                run.append(w.step(run[-1]))
            for st in run[:3]:
                quiet(io.save_step, st)
            for n in range(3):
                s, st = load_simulation(w.out, w.sk[0], w.sk[1], step=n)
                if leaves(st, np) != leaves(run[n], np):
                    rec.fail("exact", "a loaded step is not the saved state, bit for bit", step=n, **cfg)
                if leaves(s, np) != leaves(w.solver, np):
                    rec.fail("solver", "the loaded solver is not the saved solver, bit for bit", step=n, **cfg)
                g = jax.jit(lambda x: s(x))
                for k in range(n, 4):
                    st = g(st)
                    for a, b in zip(leaves(st, np), leaves(run[k + 1], np)):
                        if a != b and not np.allclose(np.frombuffer(a[2], a[0]), np.frombuffer(b[2], b[0]), rtol=1e-12, atol=1e-12):
                            rec.fail("resume", "the loaded solver and state do not continue the run", loaded=n, step=k + 1, **cfg); break
                    rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
            # large step numbers have their own records
            for n in (99999, 100000, 123456, 1234567):
                big = eqx.tree_at(lambda q: q.step, run[1], jnp.asarray(n, run[1].step.dtype))
                quiet(io.save_step, big)
            for n in (99999, 100000, 123456, 1234567):
                _, st = load_simulation(w.out, w.sk[0], w.sk[1], step=n)
                if int(st.step) != n:
                    rec.fail("number", "a large step number does not have its own record", step=n, got=int(st.step))
                for bad in (n + 1, n // 10, n % 100000):
                    if bad in (0, 1, 2, 99999, 100000, 123456, 1234567):
                        continue
                    try:
                        load_simulation(w.out, w.sk[0], w.sk[1], step=bad); rec.fail("ghost", "a step that was never saved can be loaded", step=bad)
                    except Exception:
                        pass
            rec.sample(**cfg)
    finally:
        shutil.rmtree(w.root, ignore_errors=True)


def folders(cfg, rec):
    """Where the folder is, and what opening it removes: all combinations of previous content, option and form of the path."""
    import os, shutil, tempfile, json, itertools
    from mc.env import np, jnp, jax, hdx
    from mc import guard
    from hydraxmpm.common.sim_io import SimIO, load_simulation
    root = tempfile.mkdtemp(prefix="mc_c31f_")
    cwd = os.getcwd()
    try:
        with guard.contained(root) as escaped:
            for form, over, content, nested in itertools.product(("absolute", "relative_to_file", "cwd"), (None, True, False), ("missing", "empty", "records"), (False, True)):
                base = os.path.join(root, "b", "c")
                if os.path.isdir(base):
                    shutil.rmtree(base)
                os.makedirs(base)
                name = "run" if not nested else os.path.join("all", "run")
                target = os.path.join(base, name)
                others = {"run2/state_00001.eqx": b"x", "state_00000.eqx": b"y", "script.py": b"z"}
                if nested:
                    others["all/other/state_00000.eqx"] = b"q"
                for p, b in others.items():
                    os.makedirs(os.path.dirname(os.path.join(base, p)), exist_ok=True)
                    with open(os.path.join(base, p), "wb") as f:
                        f.write(b)
                mine = {}
                if content != "missing":
                    os.makedirs(target)
                if content == "records":
                    mine = {"state_00001.eqx": b"1", "state_00002.eqx": b"2", "solver_config.eqx": b"s", "vtk/body/step_00001.vtp": b"v"}
                    for p, b in mine.items():
                        os.makedirs(os.path.dirname(os.path.join(target, p)), exist_ok=True)
                        with open(os.path.join(target, p), "wb") as f:
                            f.write(b)
                kw = {} if over is None else dict(overwrite=over)
                os.chdir(base)
                if form == "absolute":
                    io = quiet(SimIO, output_dir=target, **kw)
                elif form == "cwd":
                    io = quiet(SimIO, output_dir=name, **kw)
                else:
                    os.chdir(root)
                    io = quiet(SimIO, output_dir=name, relative_dir=os.path.join(base, "script.py"), **kw)
                case = dict(path=form, overwrite=over, before=content, nested=nested)
                if not os.path.isdir(target) or os.path.realpath(io.output_dir) != os.path.realpath(target):
                    rec.fail("place", "the output folder is not where it was asked for", got=io.output_dir, **case)
                now = {k.replace(os.sep, "/"): v for k, v in guard.snapshot(base).items() if v is not None}
                exp = dict(others)
                if over is False:
                    exp.update({name.replace(os.sep, "/") + "/" + p: b for p, b in mine.items()})
                if now != exp:
                    rec.fail("clean", "opening removes more or less than its own previous records", missing=sorted(set(exp) - set(now))[:4], left=sorted(set(now) - set(exp))[:4], **case)
                rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
                # metadata is readable and complete
                quiet(io.save_solver, dict(a=jnp.ones(2)), meta_info=dict(description="d", n=3))
                with open(os.path.join(target, "metadata.json")) as f:
                    md = json.load(f)
                if md.get("description") != "d" or md.get("n") != 3:
                    rec.fail("meta", "the metadata is not what was given", got=md, **case)
            if escaped:
                rec.fail("escape", "opening a folder touches files outside", paths=escaped[:5])
        rec.sample(**case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
