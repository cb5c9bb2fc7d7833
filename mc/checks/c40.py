"""C40 a step never makes numbers out of range from finite, admissible states."""
PROPERTY = "C40"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real steps (several time steps) from an exhaustive product of degenerate but admissible states; every reached state must be finite everywhere, keep each mass and a positive volume"
RULE = ("initial states: placements (on nodes, edges, faces, coinciding points, rim and outside of the grid, inside, on the surface and at the centre of an obstacle) x velocities (zero, tiny, fast) x stresses (zero, tension, hydrostatic, shear, huge) x "
        "mass and volume contrasts x scheme x kernel x dimension x law x force sets x obstacle shapes; transitions: real steps with time steps including zero; non-trivial = distinct rounded state")
ASSUMPTIONS = ["JAX CPU float64", "states are admissible: positive masses and volumes, finite values; strains of a step stay moderate"]
NOTE = "no model: finiteness and positivity are judged on every transition"
BOUNDS = {"quick": dict(depth=2, time_steps=3), "thorough": dict(depth=4, time_steps=3)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    th = tier == "thorough"
    k = 0
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            obs = ("none", "sphere", "box", "capsule", "plane", "star", "ring") if dim == 2 else ("none", "sphere", "box", "cylinder", "torus", "pipe", "plane")
            for law in ("elastic", "newton", "mui", "dp", "mcc"):
                for ob in obs:
                    kernel = ("linear", "quadratic", "cubic")[k % 3]; k += 1
                    for kn in ("linear", "quadratic", "cubic") if th else (kernel,):
                        if th or dim == 2 or k % 2:
                            out.append(("degenerate", dict(scheme=scheme, dim=dim, kernel=kn, law=law, obstacle=ob, tier=tier)))
    return out


def degenerate(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import scenes as S, lawlib as W
    from mc.bfs import bfs
    dim, name, ob = cfg["dim"], cfg["law"], cfg["obstacle"]
    th = cfg["tier"] == "thorough"
    h, cells = .25, 4
    law, ls, mp = W.ready(name, dim, 2, V0=.01)
    law2, ls2, _ = W.ready(name, dim, 1, V0=.01)
    shape = dict(sphere=lambda: hdx.SphereSDF(radius=.25), box=lambda: hdx.BoxSDF(size=(.5, .25, .5)[:dim]), capsule=lambda: hdx.CapsuleSDF(radius=.125, height=.25),
                 plane=lambda: hdx.PlaneSDF(normal=(0., 1., 0.)[:dim]), star=lambda: hdx.StarSDF(points=5, outer_radius=.4, inner_radius=.2),
                 ring=lambda: hdx.HollowCylinderSDF(height=.5, outer_radius=.5, inner_radius=.25, is_2d_ring=True), cylinder=lambda: hdx.CylinderSDF(radius=.25, height=.5),
                 torus=lambda: hdx.TorusSDF(major_r=.3, minor_r=.1), pipe=lambda: hdx.HollowCylinderSDF(height=.5, outer_radius=.5, inner_radius=.25))

    def setup(b):
        b.add_gravity(gravity=jnp.array([0.0, -9.81, 0.0][:dim]))
        b.add_damping(alpha=.3)
        if ob != "none":
            b.add_sdf_object(sdf_logic=shape[ob](), center_of_mass=jnp.full((dim,), .5), velocity=jnp.zeros(dim), angular_velocity=jnp.zeros(3) if dim == 3 else 0.0)
            b.add_sdf_collider(friction=0.0 if cfg["kernel"] == "linear" else .5)
            b.add_damping(alpha=.1, is_apply_on_grid=False)
    kw = dict(alpha=1.0) if cfg["scheme"] == "usl" else dict(alpha=1.0, use_mls_update=name != "dp")
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2, 1], kernel=cfg["kernel"], h=h, cells=cells, padding=2, laws=[("obj", law, ls), ("obj", law2, ls2)], setup=setup, probe=False, solver_kw=kw)
    c = np.full(dim, 2.0)
    e = np.eye(dim)
    P0 = np.array([c, c + .5, c + e[0], c + e[1] * .5, c - 1.0 * e[0] + .5 * e[1], np.zeros(dim), np.full(dim, -1.9), np.full(dim, 6.0), np.full(dim, 40.0), np.full(dim, -3.5), c + .25])
    D = np.array([np.zeros(dim), 1e-13 * e[0], .5 * e[0], np.ones(dim), 1e-6 * np.ones(dim), -2.0 * e[1]])
    soft = 1e-2 if name == "mcc" else 1.0
    V = soft * np.array([[0, 0, 0], [1e-300, 0, 0], [1e-9, -1e-9, 0], [1.0, -2.0, .5], [-20.0, 5.0, 3.0]])[:, :dim]
    ip, jd, iv, ic = S.product_idx(len(P0), len(D), len(V), 6)
    if not th:
        keep = (ip + 2 * jd + 3 * iv + ic) % (2 if dim == 2 else 4) == 0
        ip, jd, iv, ic = ip[keep], jd[keep], iv[keep], ic[keep]
    n = len(ip)
    x = np.stack([P0[ip], P0[ip] + D[jd]], 1) * h
    y = np.stack([P0[(ip + jd) % len(P0)]], 1) * h
    ms = float(np.asarray(mp.mass_stack)[0]); sig = np.asarray(mp.stress_stack)
    mass = np.array([[1, 1, 1], [1e-10, 1, 1], [1, 1e6, 1e-3], [1, 1, 1], [1e-5, 1e-5, 1e-5], [1, 1, 1]])[ic] * ms
    vol = np.array([[1, 1, 1], [1, 1, 1], [1, 1, 1], [.6, 1.7, 1], [1, 1, 1], [1e-6, 1, 1]])[ic] * .01
    if name == "mcc":       # density far from the compression line is no admissible state there
        mass, vol = np.full((n, 3), ms), np.full((n, 3), .01)
    sg = np.stack([sig, 0 * sig, -.2 * sig, sig + np.array([[0, 5., 0], [5, 0, 0], [0, 0, 0]]), sig * (1.0 if name == "mcc" else 1e4), sig])[ic]
    v = np.stack([V[iv], -V[iv]], 1)
    d = m.init(n, pos0=x, pos1=y, vel0=v, vel1=V[(iv + 1) % len(V)][:, None], mass0=mass[:, :2], mass1=mass[:, 2:], stress0=sg, stress1=sg[:, :1])
    d["vol0"] = vol[:, :2].copy(); d["vol1"] = vol[:, 2:].copy(); d["vol00"] = vol[:, :2].copy(); d["vol01"] = vol[:, 2:].copy()
    d["L0"], d["L1"] = np.zeros((n, 2, 3, 3)), np.zeros((n, 1, 3, 3))

    def moderate(s):
        """states a caller may be in: finite, no point flying, no element turned inside out or blown up by earlier steps"""
        ok = np.ones(len(s["pos0"]), bool)
        for i in (0, 1):
            with np.errstate(all="ignore"):
                ok &= (np.abs(s["vel%d" % i]) < 100).all((1, 2)) & (np.abs(s["L%d" % i]) * 2e-3 < .25).all((1, 2, 3)) & (np.abs(s["stress%d" % i]) < 1e9).all((1, 2, 3))
                q = s["vol%d" % i] / s["vol0%d" % i]
                ok &= ((q > .5) & (q < 2)).all(1)
        return ok

    def check(pre, ev, post, case):
        # the step is judged when it starts from a state that is moderate and does not itself strain a point by more than a fifth (a large finite rate is the caller's time step; a rate that is no number is always judged)
        ok = moderate(pre)
        for i in (0, 1):
            L = np.abs(post["L%d" % i]) * float(ev[3:])
            ok &= ~(np.isfinite(L) & (L > .2)).any((1, 2, 3))
        rec.count(nontrivial=int(ok.sum()))
        sel = np.flatnonzero(ok)
        if not len(sel):
            return
        pre, post = {k: q[sel] for k, q in pre.items()}, {k: q[sel] for k, q in post.items()}
        full, case = case, (lambda r, f=case, sel=sel: f(int(sel[r])) if callable(f) else f)
        for k, q in post.items():
            rec.true("finite", "a step from a finite state gives numbers that are not finite (%s)" % k, np.isfinite(q).reshape(len(q), -1).all(1), got=q, case=case)
        for i in (0, 1):
            rec.close("mass", "a step changes a mass", post["mass%d" % i], pre["mass%d" % i], 0, case=case)
            rec.true("volume", "a step gives a volume that is not positive", (post["vol%d" % i] > 0).all(1), got=post["vol%d" % i], case=case)
            if ev.endswith("=0"):
                rec.close("zero", "a step of no duration moves points", post["pos%d" % i], pre["pos%d" % i], 0, case=case)
        rec.count(traces=len(pre["pos0"]))
    evs = [("dt=%g" % t, m.stepper(t, chunk=4000)) for t in (0.0, 1e-4, 2e-3)]
    bfs(rec, d, evs, 4 if th else 2, ["pos0", "pos1", "vel0", "vel1"], check, max_states=(20000 if th else 4000))
    rec.sample(pos0=x[-1].tolist(), law=name, obstacle=ob)
