"""C36 exported data is the simulation's data."""
PROPERTY = "C36"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over all sequences of export calls up to a depth on the real writers, the exported files read back after every call and compared with a reference model of the frames; every quantity of every state, both dimensions; boundary exports against the distance function"
RULE = "all call sequences over the alphabet; every frame file re-read after every call; non-trivial = distinct sequence or distinct (quantity, state)"
ASSUMPTIONS = ["files are read back with pyvista", "9-component tensors follow the VTK component order", "boundary surfaces within the resolution of the sampling grid"]
NOTE = "the writers of the repository write real files in a scratch folder; the rerun calls are recorded instead of sent"
BOUNDS = {"quick": dict(calls=10, depth=3, sizes=[1, 2, 5], dims=[2, 3]), "thorough": dict(calls=10, depth=4, sizes=[1, 2, 5, 40], dims=[2, 3])}
PROPS = ("velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "position_stack", "L_stack", "stress_stack", "F_stack", "pressure_stack", "q_stack", "eps_stack", "eps_v_stack", "deps_dt_stack", "density_stack", "KE_stack", "shear_strain_stack", "shear_strain_rate_stack")


def tasks(tier):
    th = tier == "thorough"
    out = [("sequences", dict(first=i, depth=4 if th else 3)) for i in range(10)]
    out += [("quantities", dict(dim=d, n=n)) for d in (2, 3) for n in ((1, 2, 5) if not th else (1, 2, 3, 5, 40))]
    out += [("boundaries", dict(dim=d, part=i, res=(24, 48) if not th else (12, 24, 48, 96 if d == 2 else 64))) for d in (2, 3) for i in range(3)]
    out += [("viewer", dict(dim=d)) for d in (2, 3)]
    out += [("places", {})]
    return out


def body(n, dim, seed):
    from mc.env import np, jnp, hdx
    r = lambda *s: np.sin(1.7 * np.arange(int(np.prod(s))) + seed).reshape(s) * (1 + seed)
    A = .2 * r(n, 3, 3)
    return hdx.MaterialPointState.create(position_stack=jnp.asarray(r(n, dim) * 3 + (4.5e5 if seed > 2 else 0)), velocity_stack=jnp.asarray(r(n, dim)), force_stack=jnp.asarray(-r(n, dim)), mass_stack=jnp.asarray(1 + r(n) ** 2), volume_stack=jnp.asarray(.1 + r(n) ** 2),
                                         volume0_stack=jnp.asarray(.2 + np.cos(r(n)) ** 2), L_stack=jnp.asarray(A), stress_stack=jnp.asarray(50 * r(n, 3, 3)), F_stack=jnp.asarray(np.eye(3) + A * .5))


def quiet(f, *a, **k):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def frame(mp, prop, scale, time):
    """What a frame has to contain."""
    from mc.env import np
    x = np.asarray(mp.position_stack); n, dim = x.shape
    v0 = np.asarray(mp.volume0_stack)
    pad = lambda a: np.hstack([a, np.zeros((len(a), 1))]) if a.ndim == 2 and a.shape[1] == 2 else a
    f = dict(points=pad(x), Radius=scale * (np.sqrt(v0 / np.pi) if dim == 2 else (3 * v0 / 4 / np.pi) ** (1 / 3)))
    if prop is not None:
        f[prop] = pad(np.asarray(getattr(mp, prop)))
    if time is not None:
        f["TimeValue"] = np.array([float(time)])
    return f


def read(path):
    import pyvista as pv
    from mc.env import np
    m = pv.read(path)
    f = dict(points=np.asarray(m.points))
    for k in m.point_data.keys():
        f[k] = np.asarray(m.point_data[k])
    for k in m.field_data.keys():
        f[k] = np.asarray(m.field_data[k])
    return f


def differs(got, exp):
    """None, or what differs."""
    from mc.env import np
    if set(got) != set(exp):
        return "contents %s, expected %s" % (sorted(got), sorted(exp))
    for k, e in exp.items():
        g = got[k]
        if e.ndim == 3:
            if g.shape != (len(e), 9) and g.shape != e.shape:
                return "%s has shape %s" % (k, g.shape)
            g = g.reshape(len(e), 3, 3)
            if got[k].ndim == 2:
                g = np.swapaxes(g, 1, 2)
        if g.shape != e.shape:
            return "%s has shape %s, expected %s" % (k, g.shape, e.shape)
        if not np.allclose(g.astype(float), e, rtol=1e-13, atol=0):     # exactly: nothing is rounded to single precision
            return "%s has other values" % k
    return None


def sequences(cfg, rec):
    import os, shutil, tempfile
    from mc.env import np, jnp, hdx
    from mc import guard
    from hydraxmpm.common.vtk_io import VTKVisualizer
    root = tempfile.mkdtemp(prefix="mc_c36_")
    B = [body(n, dim, s) for n, dim, s in ((1, 2, .1), (5, 3, .2), (2, 2, .3))]
    # (label, body, property, step, time, scale)
    OPS = [("a", 0, "velocity_stack", 0, 0., 1.), ("a", 2, "stress_stack", 1, .5, 1.), ("b", 1, "velocity_stack", 1, .5, 2.), ("a", 1, "mass_stack", 0, .25, 1.), ("a/b", 0, None, 3, 1., 1.), ("b", 1, "pressure_stack", 123456, 7., .5),
           ("a", 2, "velocity_stack", None, None, 1.), ("b", 0, "F_stack", 12345, 1e3, 1.), ("b", 2, "volume_stack", jnp.asarray(10), jnp.asarray(2.), 1.), (None, 1, None, 5, None, 1.)]
    try:
        with guard.contained(root) as escaped:
            out = os.path.join(root, "x", "vtk")
            viz = VTKVisualizer(output_dir=out)

            def check(model, hist):
                have = {k for k, v in guard.snapshot(root).items() if v is not None}
                want = {os.path.join("x", "vtk", l, "step_%05d.vtp" % s) for l, s in model}
                if have != want:
                    rec.fail("frames", "the exported frames are not the exported calls, one file each", operations=hist, missing=sorted(want - have)[:3], unexpected=sorted(have - want)[:3]); return
                for (l, s), f in model.items():
                    d = differs(read(os.path.join(out, l, "step_%05d.vtp" % s)), f)
                    rec.count(traces=1)
                    if d:
                        rec.fail("frame", "an exported frame is not the state that was exported: " + d, operations=hist, label=l, step=s)

            def explore(model, hist, depth):
                if not depth:
                    return
                snap = guard.snapshot(root)
                for i, (l, b, p, s, t, sc) in enumerate(OPS):
                    if not hist and i != cfg["first"]:
                        continue
                    guard.restore(root, snap)
                    kw = {} if l is None else dict(label=l)
                    quiet(viz.log_particles, B[b], property_name=p, scale_radius=sc, time=t, step=s, **kw)
                    m = dict(model); m["material_points" if l is None else l, int(s) if s is not None else 0] = frame(B[b], p, sc, t)
                    rec.count(states=1, transitions=1, evals=1, distinct=1)
                    check(m, hist + [i])
                    explore(m, hist + [i], depth - 1)
            explore({}, [], cfg["depth"])
            if escaped:
                rec.fail("escape", "exporting touches files outside its folder", paths=escaped[:5])
        rec.sample(first=cfg["first"])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def quantities(cfg, rec):
    """Every quantity, scale and time of several states; saving does not alter the state."""
    import os, shutil, tempfile
    from mc.env import np, jax
    from mc import guard
    from hydraxmpm.common.vtk_io import VTKVisualizer
    root = tempfile.mkdtemp(prefix="mc_c36q_")
    try:
        with guard.contained(root):
            viz = VTKVisualizer(output_dir=root)
            for seed in (.1, .7, 2.3):
                mp = body(cfg["n"], cfg["dim"], seed)
                before = [np.asarray(x).tobytes() for x in jax.tree_util.tree_leaves(mp)]
                for p in PROPS + (None,):
                    for scale in (1., .25, 3.):
                        for t in (None, 0., 1e-7, 12.5):
                            quiet(viz.log_particles, mp, property_name=p, scale_radius=scale, time=t, step=4)
                            d = differs(read(os.path.join(root, "material_points", "step_00004.vtp")), frame(mp, p, scale, t))
                            rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
                            if d:
                                rec.fail("quantity:%s" % p, "an exported quantity is not that of the state: " + d, scale=scale, time=t, **cfg)
                if before != [np.asarray(x).tobytes() for x in jax.tree_util.tree_leaves(mp)]:
                    rec.fail("pure", "exporting alters the state", **cfg)
                # asked for something the state does not have: no made-up data
                try:
                    quiet(viz.log_particles, mp, property_name="nonexistent_stack", step=9)
                    f = read(os.path.join(root, "material_points", "step_00009.vtp"))
                    if "nonexistent_stack" in f or differs({k: f[k] for k in ("points", "Radius")}, frame(mp, None, 1., None)):
                        rec.fail("missing", "a quantity the state does not have is exported", contents=sorted(f), **cfg)
                except Exception:
                    pass
        rec.sample(**cfg)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shapes(dim, part):
    from mc.env import np, jnp, hdx
    out = []
    for k, (lo, hi) in enumerate((((0.,) * dim, (1.,) * dim), ((-2.,) * dim, (-1.,) * dim), ((-.5, 2., 1.)[:dim], (1., 3., 2.5)[:dim]))):
        if k != part:
            continue
        lo, hi = np.array(lo), np.array(hi); L = (hi - lo).min(); c = (lo + hi) / 2
        out.append(("sphere", hdx.SphereSDF(.3 * L), c, None, lo, hi))
        out.append(("edge", hdx.SphereSDF(.17 * L), hi - .2 * L, None, lo, hi))
        out.append(("box", hdx.BoxSDF(size=tuple([.5 * L, .3 * L, .4 * L][:dim])), c, .3 if dim == 2 else None, lo, hi))
        out.append(("capsule", hdx.CapsuleSDF(.12 * L, .3 * L), lo + .45 * L, None, lo, hi))
    return out


def boundaries(cfg, rec):
    import os, shutil, tempfile
    import pyvista as pv
    from mc.env import np, jnp, hdx
    from mc import guard
    from hydraxmpm.common.vtk_io import VTKVisualizer
    dim = cfg["dim"]
    root = tempfile.mkdtemp(prefix="mc_c36b_")
    try:
        with guard.contained(root):
            viz = VTKVisualizer(output_dir=root)
            for name, lg, c, rot, lo, hi in shapes(dim, cfg["part"]):
                st = lg.create_state(center_of_mass=jnp.asarray(c), **({} if rot is None else dict(rotation=rot)))
                for res in cfg["res"]:
                    for step, t in ((None, None), (0, .5), (123456, 2.)):
                        if step is not None and res != cfg["res"][0]:
                            continue
                        case = dict(shape=name, resolution=res, step=step, start=lo.tolist(), end=hi.tolist())
                        quiet(viz.log_sdf, lg, st, lo, hi, resolution=res, label=name, step=step, time=t)
                        files = [k for k, v in guard.snapshot(os.path.join(root, name)).items() if v is not None]
                        if step is not None and "step_%05d.vtp" % step not in files or len(files) != 1:
                            rec.fail("boundary_file", "a boundary export is not one file named by its step", files=files, **case); continue
                        m = pv.read(os.path.join(root, name, files[0]))
                        os.unlink(os.path.join(root, name, files[0]))
                        P = np.asarray(m.points)
                        if dim == 2 and np.abs(P[:, 2]).max() > 0:
                            rec.fail("boundary_plane", "a plane boundary leaves the plane", **case)
                        d = np.abs(np.asarray(lg.get_signed_distance_stack(st, jnp.asarray(P[:, :dim], float))))
                        h = 1.05 * (hi - lo).max() / res * 1.3
                        if not (d <= h * .5).all():
                            rec.fail("boundary", "an exported boundary point is not on the boundary", worst=float(d.max()), step_size=h, **case)
                        # complete: boundary points found by bisection along rays have a vertex nearby
                        Q = rays(lg, st, c, dim)
                        miss = np.array([np.linalg.norm(P[:, :dim] - q, axis=1).min() for q in Q])
                        if not (miss <= 2 * h).all():
                            rec.fail("boundary_gap", "part of the boundary inside the domain is missing from the export", worst=float(miss.max()), at=Q[int(miss.argmax())], step_size=h, **case)
                        if (t is not None) != ("TimeValue" in m.field_data.keys()) or t is not None and float(m.field_data["TimeValue"][0]) != t:
                            rec.fail("boundary_time", "a boundary export has another time", **case)
                        rec.count(states=len(P), transitions=1, traces=len(P) + len(Q), evals=1, distinct=1)
                # a shape outside the domain exports nothing
                far = lg.create_state(center_of_mass=jnp.asarray(c + 50.))
                quiet(viz.log_sdf, lg, far, lo, hi, resolution=cfg["res"][0], label=name + "far", step=1)
                if os.path.isdir(os.path.join(root, name + "far")) and os.listdir(os.path.join(root, name + "far")):
                    rec.fail("boundary_outside", "a shape outside the domain has an exported boundary", shape=name)
        rec.sample(**cfg)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def rays(lg, st, c, dim):
    from mc.env import np, jnp
    if dim == 2:
        a = np.linspace(0, 2 * np.pi, 60, endpoint=False); D = np.stack([np.cos(a), np.sin(a)], axis=1)
    else:
        import itertools
        D = np.array([v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(v)], float); D /= np.linalg.norm(D, axis=1)[:, None]
    a, b = np.zeros(len(D)), np.full(len(D), 2.)
    f = lambda r: np.asarray(lg.get_signed_distance_stack(st, jnp.asarray(c + r[:, None] * D)))
    for _ in range(40):
        m = (a + b) / 2; inside = f(m) < 0
        a, b = np.where(inside, m, a), np.where(inside, b, m)
    return c + a[:, None] * D


def viewer(cfg, rec):
    """What is handed to the rerun viewer (recorded, not sent): points, radii, boundaries and their normals."""
    from mc.env import np, jnp, hdx
    try:
        from hydraxmpm.common import rerun as R
    except ImportError:
        rec.sample(skipped="rerun is not installed"); return
    dim = cfg["dim"]
    calls, times = [], []
    old = R.rr.log, R.rr.set_time
    R.rr.log = lambda *a, **k: calls.append((a, k))
    R.rr.set_time = lambda *a, **k: times.append((a, k))
    flip = np.array([1., -1.]) if dim == 2 else np.ones(3)
    arr = lambda b: np.asarray(b.as_arrow_array().to_pylist(), float)
    try:
        v = R.RerunVisualizer.__new__(R.RerunVisualizer)
        v.root_path = "top"
        for n in (1, 2, 5):
            for seed in (.1, .9):
                mp = body(n, dim, seed)
                for p in ("velocity_stack", "stress_stack", "pressure_stack", "no_such"):
                    for scale in (1., 2.):
                        calls.clear()
                        quiet(v.log_material_points, mp, label="pts", property_name=p, scale_radius=scale)
                        case = dict(points=n, quantity=p, scale=scale, dim=dim)
                        if len(calls) != 1 or calls[0][0][0] != "top/pts":
                            rec.fail("viewer_call", "points are not logged once under their label", got=[c[0][0] for c in calls], **case); continue
                        m = calls[0][0][1]
                        e = frame(mp, None, scale, None)
                        if not np.allclose(arr(m.positions), np.asarray(mp.position_stack) * flip, rtol=1e-6, atol=1e-6):
                            rec.fail("viewer_points", "the points shown are not the points of the state", **case)
                        if not np.allclose(arr(m.radii), e["Radius"], rtol=1e-5):
                            rec.fail("viewer_radius", "the radii shown are not those of the volumes", **case)
                        rec.count(states=1, transitions=1, traces=2, evals=1, distinct=1)
        # the colours are monotone in the quantity: extreme values get the ends of the colour map
        for k, (name, lg, c, rot, lo, hi) in enumerate(s for part in range(3) for s in shapes(dim, part)):
            st = lg.create_state(center_of_mass=jnp.asarray(c), **({} if rot is None else dict(rotation=rot)))
            for res in (24, 40):
                calls.clear()
                quiet(v.log_sdf, lg, st, resolution=res, label="wall", start=lo, end=hi)
                case = dict(shape=name, resolution=res, dim=dim, start=lo.tolist())
                if len(calls) != 1:
                    rec.fail("viewer_wall_call", "a boundary is not logged once", **case); continue
                m = calls[0][0][1]
                P = np.concatenate([np.asarray(s, float).reshape(-1, 2) for s in m.strips.as_arrow_array().to_pylist()]) * flip if dim == 2 else arr(m.vertex_positions)
                d = np.abs(np.asarray(lg.get_signed_distance_stack(st, jnp.asarray(P))))
                h = 1.05 * (hi - lo).max() / res * 1.3
                Q = rays(lg, st, c, dim)
                miss = np.array([np.linalg.norm(P - q, axis=1).min() for q in Q])
                if not (d <= .5 * h).all():
                    rec.fail("viewer_wall", "a boundary point shown is not on the boundary", worst=float(d.max()), **case)
                if not (miss <= 2 * h).all():
                    rec.fail("viewer_gap", "part of the boundary is not shown", worst=float(miss.max()), **case)
                if dim == 3:
                    N = arr(m.vertex_normals); G = np.asarray(lg.get_normal_stack(st, jnp.asarray(P)))
                    al = np.abs((N * G).sum(axis=1)) / np.maximum(np.linalg.norm(N, axis=1), 1e-12)
                    if name in ("sphere", "capsule", "edge") and not (al > .9).all():
                        rec.fail("viewer_normals", "the normals shown are not those of the boundary", worst=float(al.min()), **case)
                rec.count(states=len(P), transitions=1, traces=len(P) + len(Q), evals=1, distinct=1)
        times.clear()
        v.log_time(7, .35)
        flat = [(a[0], k.get("sequence", k.get("timestamp", k.get("duration")))) for a, k in times]
        if ("step", 7) not in flat or ("sim_time", .35) not in flat:
            rec.fail("viewer_time", "step and time are not handed to the viewer", got=flat)
        rec.sample(**cfg)
    finally:
        R.rr.log, R.rr.set_time = old


def places(cfg, rec):
    """Where the files go: all forms of the folder."""
    import os, shutil, tempfile, itertools
    from mc import guard
    from hydraxmpm.common.vtk_io import VTKVisualizer
    root = os.path.realpath(tempfile.mkdtemp(prefix="mc_c36p_"))
    cwd = os.getcwd()
    mp = body(2, 2, .5)
    try:
        with guard.contained(root) as escaped:
            for form, name, step in itertools.product(("absolute", "relative_to_file", "cwd"), ("vtk", "a/b/vtk"), (0, 99999, 100000)):
                base = os.path.join(root, "base")
                if os.path.isdir(base):
                    shutil.rmtree(base)
                os.makedirs(base); os.chdir(base)
                if form == "absolute":
                    v = VTKVisualizer(output_dir=os.path.join(base, name))
                elif form == "cwd":
                    v = VTKVisualizer(output_dir=name)
                else:
                    os.chdir(root); v = VTKVisualizer(output_dir=name, relative_dir=os.path.join(base, "script.py"))
                quiet(v.log_particles, mp, step=step)
                have = sorted(k for k, b in guard.snapshot(root).items() if b is not None)
                want = [os.path.join("base", name, "material_points", "step_%05d.vtp" % step)]
                if have != want:
                    rec.fail("place", "the exported file is not where it was asked for", got=have, expected=want, path=form)
                rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
            if escaped:
                rec.fail("escape", "exporting touches files outside its folder", paths=escaped[:5])
        rec.sample(forms=3)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
