"""C38 independence of the observer: moving frames, other origins, turned scenes with obstacles."""
PROPERTY = "C38"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive product of observers (uniform velocities, origins, quarter turns) and scene states on real steps with moving, turning obstacles; histories as seen by every observer must be the same history"
RULE = ("moving: every frame velocity of the alphabet for one step, every combination of whole-cell velocities for histories; origin: every shift of grid, points and obstacles; turn: all quarter turns of the whole scene, obstacles "
        "included; x scheme x kernel x dimension x law x obstacle set x lattice of placements and velocities, a quarter of them at rest in front of moving obstacles; non-trivial = distinct (observer, scene, state)")
ASSUMPTIONS = ["JAX CPU float64", "no damping and no velocity limit (both refer to the grid's own frame)", "points off the cell faces, where round-off decides the cell", "obstacle surfaces away from points' ridges of the distance"]
NOTE = "the oracle is the same scene seen by the resting observer; no model needed"
BOUNDS = {"quick": dict(steps=3, frames=9), "thorough": dict(steps=5, frames=27)}
FAST_COMPILE = True
K3 = ("linear", "quadratic", "cubic")


def tasks(tier):
    out = []
    th = tier == "thorough"
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for i, kernel in enumerate(K3):
                for ob in ("none", "box", "ball") if th or dim == 2 else (("none", "ball", "box")[i], "none"):
                    for law in ("elastic", "newton", "mui", "dp", "mcc") if th and dim == 2 else (("elastic", "dp", "newton")[i],):
                        c = dict(scheme=scheme, dim=dim, kernel=kernel, law=law, obstacle=ob, tier=tier)
                        out.append(("frames", c))
                        out.append(("origins", c))
                        if ob != "none":
                            out.append(("turns", c))
    seen, res = set(), []
    for t in out:
        k = repr(t)
        if k not in seen:
            seen.add(k); res.append(t)
    return res


H = .25
DT = 2.0 ** -8
CELLS = 10


def build(cfg, org=0.0, h=H):
    """One scene with two bodies; returns (simulation, run).  run(d, obs, gravity, steps) -> outputs, obstacle poses."""
    from mc.env import np, jnp, eqx, jax, hdx
    from mc import scenes as S, lawlib as W
    dim = cfg["dim"]
    law, ls, mp = W.ready(cfg["law"], dim, 2, V0=.004)
    law2, ls2, _ = W.ready(cfg["law"], dim, 2, V0=.004)
    o = np.zeros(dim) + org

    def setup(b):
        b.add_gravity(gravity=jnp.zeros(dim))
        kw = dict(center_of_mass=jnp.zeros(dim) + 1.0, velocity=jnp.zeros(dim), angular_velocity=jnp.zeros(3) if dim == 3 else 0.0, rotation=jnp.array([1.0, 0, 0, 0]) if dim == 3 else 0.0)
        if cfg["obstacle"] == "box":
            b.add_sdf_object(sdf_logic=hdx.BoxSDF(size=(.5, .3, .4)[:dim]), **kw)
        elif cfg["obstacle"] == "ball":
            b.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=.22), **kw)
        if cfg["obstacle"] != "none":
            b.add_sdf_collider(friction=.35, gap=0.0)
    kw = dict(alpha=.9) if cfg["scheme"] == "usl" else dict(alpha=.95, cfl_limit=1e9, small_mass_cutoff=1e-13, use_mls_update=cfg["law"] != "newton")
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2, 2], kernel=cfg["kernel"], h=h, cells=CELLS, origin=tuple(o), padding=2, laws=[("obj", law, ls), ("obj", law2, ls2)],
                setup=setup, probe=False, solver_kw=kw)
    cache = {}

    def run(d, obs, grav, steps, chunk=1500):
        if steps not in cache:
            def one(dd, ob, g):
                st = S.put(m.put(dd), dt=DT)
                fs = list(st.mechanics.forces)
                fs[0] = eqx.tree_at(lambda q: q.gravity, fs[0], g)
                st = eqx.tree_at(lambda q: q.mechanics.forces, st, tuple(fs))
                if ob:
                    s = st.world.sdfs[0]
                    s = eqx.tree_at(lambda q: (q.center_of_mass, q.rotation, q.velocity, q.angular_velocity), s, (ob["com"], ob["rot"], ob["vel"], ob["om"]))
                    st = eqx.tree_at(lambda q: q.world.sdfs, st, (s,))
                st = S.strong(st)
                for _ in range(steps):
                    st = m.solver(st)
                r = m.out(st)
                if ob:
                    r["com_"] = st.world.sdfs[0].center_of_mass
                return r
            cache[steps] = jax.jit(jax.vmap(one))
        f = cache[steps]
        n = len(grav)
        res = []
        for a in range(0, n, chunk):
            k = min(chunk, n - a); want = chunk if n > chunk else k
            pad = lambda q: jnp.asarray(np.concatenate([q[a:a + k], np.repeat(q[-1:], want - k, 0)]))
            r = f({x: pad(v) for x, v in d.items() if x[:-1] in m.IN}, {x: pad(v) for x, v in obs.items()}, pad(grav))
            res.append({x: np.asarray(v)[:k] for x, v in r.items()})
        return {x: np.concatenate([r[x] for r in res]) for x in res[0]}
    return m, run, mp


def states(cfg, m, mp, centre):
    """Lattice of scenes around the point `centre`."""
    from mc.env import np
    from mc import scenes as S
    dim = cfg["dim"]
    th = cfg["tier"] == "thorough"
    A = S.lattice(*[[.13, .37, .61, .87] if dim == 2 else [.17, .63]] * dim)
    V = np.array([[0, 0, 0], [.8, -.5, .3], [-2.0, 1.5, 4.0], [0, -3.0, 0]])[:, :dim]
    ia, ib, iv = S.product_idx(len(A), len(A), len(V))
    keep = (ia + 2 * ib + iv) % (2 if dim == 2 else 1 if th else 3) == 0
    ia, ib, iv = ia[keep], ib[keep], iv[keep]
    n = len(ia)
    x0, x1 = A[ia] - 1.0, A[ib] + .0
    off = np.array([.41, -.27, .19])[:dim]
    pos = [np.stack([x0, x1], 1), np.stack([.5 * (x0 + x1) + .03, x1[:, ::-1] + off - .5], 1)]
    pos = [centre + p * H for p in pos]
    # away from faces and knots
    u = np.concatenate(pos, 1) / H * 2
    ok = (np.abs(u - np.round(u)) > .02).all((1, 2))
    vol = float(np.asarray(mp.volume_stack)[0]); ms = float(np.asarray(mp.mass_stack)[0])
    sig = np.asarray(mp.stress_stack)
    rng = np.array([[[.2, .1, 0], [.1, -.3, .05], [0, .05, .1]], [[-.1, .3, .2], [.3, .1, 0], [.2, 0, .05]]])
    if cfg["law"] in ("elastic", "dp"):
        sig = sig + 3.0 * rng
    v = V[iv]
    d = m.init(n, pos0=pos[0], pos1=pos[1], vel0=np.stack([v, -.5 * v + .1], 1), vel1=np.stack([.3 * v[:, ::-1], v], 1), mass0=np.full((n, 2), ms), mass1=np.full((n, 2), ms) * np.array([1.0, 1.0]), stress0=sig, stress1=sig)
    for i in (0, 1):
        d["vol%d" % i][:] = vol; d["vol0%d" % i][:] = vol
        if m.aff:
            B = np.zeros((n, 2, 3, 3)); B[..., :dim, :dim] = (.5 * rng / H)[:, :dim, :dim] * (iv % 2)[:, None, None, None]
            d["Bp%d" % i] = B
    # a quarter of the scenes are wholly at rest (only obstacles move); laws that read their stress keep it
    rest = (np.arange(n) % 4 == 3)
    for i in (0, 1):
        d["vel%d" % i][rest] = 0.0
        if m.aff:
            d["Bp%d" % i][rest] = 0.0
        if cfg["law"] in ("elastic", "newton", "mui"):
            d["stress%d" % i][rest] = 0.0
    d = {k: q[ok] for k, q in d.items()}
    rest = rest[ok]
    n = int(ok.sum())
    k = np.arange(n)
    om2 = np.array([0.0, 3.0, -5.0])[k % 3]
    obs = {} if cfg["obstacle"] == "none" else dict(
        com=np.tile(centre, (n, 1)) + (np.array([.15, -.1, .05])[:dim] + .02 * (k % 3)[:, None]) * 1.0, vel=np.array([[0., 0, 0], [2.0, 1.0, -1.0], [-.5, 3.0, .4]])[k // 3 % 3][:, :dim],
        rot=(.3 + .4 * (k % 4)) if dim == 2 else np.stack([np.cos(.2 + .3 * (k % 4)), *(np.sin(.2 + .3 * (k % 4)) * np.array([[.6], [0.], [.8]]))], 1),
        om=om2 if dim == 2 else om2[:, None] * np.array([.5, -.4, 1.0]))
    grav = np.array([[0, 0, 0], [3.0, -9.0, 1.0]])[k // 2 % 2][:, :dim] * ~rest[:, None]
    return d, obs, grav.astype(float), n


FIELDS = ("pos", "vel", "L", "F", "stress", "vol", "mass")


def compare(rec, key, what, m, got, exp, tol, case, shift=0.0, V=0.0):
    from mc.env import np
    for i in (0, 1):
        for f in FIELDS + (("Bp",) if m.aff else ()):
            a, b = got[f + str(i)], exp[f + str(i)]
            if f == "pos":
                a = a - shift
            if f == "vel":
                a = a - V
            s = max(1.0, np.abs(b).max()) if f != "pos" else 1.0
            rec.close(key, "%s (%s)" % (what, f), a / s, b / s, tol, case=case)


def kept(o):
    """States worth comparing: finite, not flung out of the grid."""
    from mc.env import np
    return np.isfinite(o["pos0"]).all((1, 2)) & np.isfinite(o["pos1"]).all((1, 2))


def frames(cfg, rec):
    from mc.env import np
    from mc import scenes as S
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    m, run, mp = build(cfg)
    c = np.full(dim, CELLS * H / 2)
    d, obs, grav, n = states(cfg, m, mp, c)
    base = run(d, obs, grav, 1)
    U = np.array([[7.3, 0, 0], [0, -11.1, 0], [-3.3, 5.7, 2.9], [1e-3, 2e-4, -5e-4], [0, 0, 4.4]])
    U = [u[:dim] for u in U if np.abs(u[:dim]).max() > 0]

    def seen(V):
        dd = dict(d)
        for i in (0, 1):
            dd["vel%d" % i] = d["vel%d" % i] + V
        oo = dict(obs)
        if obs:
            oo["vel"] = obs["vel"] + V
            oo["com"] = obs["com"] - V * DT     # obstacles move first in a step: contact is made at their new place
        return dd, oo
    for V in U:
        dd, oo = seen(V)
        o = run(dd, oo, grav, 1)
        case = lambda q: dict(frame=V.tolist(), pos0=d["pos0"][q].tolist(), pos1=d["pos1"][q].tolist(), vel0=d["vel0"][q].tolist(), obstacle={k: x[q].tolist() for k, x in obs.items()})
        compare(rec, "frame", "a step depends on the uniform velocity of the observer", m, o, base, 1e-9, case, V * DT, V)
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    steps = 5 if th else 3
    ref = run(d, obs, grav, steps)
    ks = S.lattice(*[[-1, 0, 1]] * dim) if th or dim == 2 else np.array([[1, 0, 0], [0, -1, 0], [0, 0, 1], [-1, 1, -1], [1, 1, 1]])
    for k in ks:
        if not np.abs(k).max():
            continue
        V = k * H / DT                     # a whole cell per step
        start = -np.round(k * steps / 2) * H   # keeps away from the rim
        dd, oo = seen(V)
        for i in (0, 1):
            dd["pos%d" % i] = d["pos%d" % i] + start
        if obs:
            oo["com"] = oo["com"] + start
        o = run(dd, oo, grav, steps)
        case = lambda q: dict(cells_per_step=k.tolist(), steps=steps, pos0=d["pos0"][q].tolist(), pos1=d["pos1"][q].tolist(), vel0=d["vel0"][q].tolist(), obstacle={k_: x[q].tolist() for k_, x in obs.items()})
        compare(rec, "history", "a history depends on the uniform velocity of the observer", m, o, ref, 1e-7, case, start + V * DT * steps, V)
        if obs:
            rec.close("obstacle", "an obstacle's path depends on the uniform velocity of the observer", o["com_"] - start - V * DT * (steps - 1), ref["com_"], 1e-10, case=case)
        rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n)
    rec.sample(**case(0))


def origins(cfg, rec):
    from mc.env import np
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    steps = 4 if th else 2
    c = np.full(dim, CELLS * H / 2)
    ref = None
    for org in [np.zeros(3), np.array([.37, -1.21, 5.13]), np.array([-40.0, 7.7, .01]), np.array([-1.25, -1.25, -1.25])] + ([np.array([1000.3, 0.0, -2e3])] if th else []):
        org = org[:dim]
        m, run, mp = build(cfg, org)
        d, obs, grav, n = states(cfg, m, mp, c)
        for i in (0, 1):
            d["pos%d" % i] = d["pos%d" % i] + org
        if obs:
            obs["com"] = obs["com"] + org
        o = run(d, obs, grav, steps)
        if ref is None:
            ref = o
        else:
            case = lambda q: dict(origin=org.tolist(), pos0=d["pos0"][q].tolist(), pos1=d["pos1"][q].tolist(), vel0=d["vel0"][q].tolist(), obstacle={k: x[q].tolist() for k, x in obs.items()})
            compare(rec, "origin", "a simulation depends on where the origin is", m, o, ref, 1e-7, case, org)
        rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n)
    rec.sample(**case(0))


def turns(cfg, rec):
    from mc.env import np
    from mc import sdflib as D
    import itertools
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    steps = 4 if th else 2
    c = np.full(dim, CELLS * H / 2)
    m, run, mp = build(cfg)
    d, obs, grav, n = states(cfg, m, mp, c)
    ref = run(d, obs, grav, steps)
    if dim == 2:
        G = [(D.rot2(k * np.pi / 2).round(), k * np.pi / 2) for k in (1, 2, 3)]
    else:
        qs = [D.axis_quat(a, t) for a, t in (((1, 0, 0), np.pi / 2), ((0, 1, 0), np.pi / 2), ((0, 0, 1), -np.pi / 2), ((1, 1, 1), 2 * np.pi / 3), ((1, 1, 0), np.pi), ((0, 0, 1), np.pi))]
        G = [(D.quat_mat(q).round(), q) for q in qs]

    def qmul(a, b):
        w, x, y, z = a; W_, X, Y, Z = b.T
        return np.stack([w * W_ - x * X - y * Y - z * Z, w * X + x * W_ + y * Z - z * Y, w * Y - x * Z + y * W_ + z * X, w * Z + x * Y - y * X + z * W_], 1)
    for R, q in G:
        R3 = np.eye(3); R3[:dim, :dim] = R
        v = lambda a: a @ R.T
        T = lambda a: np.einsum("ij,...jk,lk->...il", R3, a, R3)
        dd = dict(d)
        for i in (0, 1):
            dd["pos%d" % i] = c + v(d["pos%d" % i] - c); dd["vel%d" % i] = v(d["vel%d" % i])
            for f in ("stress", "F", "Bp"):
                if f + str(i) in d:
                    dd[f + str(i)] = T(d[f + str(i)])
        oo = dict(com=c + v(obs["com"] - c), vel=v(obs["vel"]), rot=obs["rot"] + q if dim == 2 else qmul(q, obs["rot"]), om=obs["om"] if dim == 2 else obs["om"] @ R3.T)
        o = run(dd, oo, v(grav), steps)
        exp = {}
        for i in (0, 1):
            for f in FIELDS + (("Bp",) if m.aff else ()):
                a = ref[f + str(i)]
                exp[f + str(i)] = c + v(a - c) if f == "pos" else v(a) if f == "vel" else T(a) if a.ndim == 4 else a
        case = lambda j: dict(turn=R.tolist(), pos0=d["pos0"][j].tolist(), pos1=d["pos1"][j].tolist(), vel0=d["vel0"][j].tolist(), obstacle={k: x[j].tolist() for k, x in obs.items()})
        compare(rec, "turn", "a scene turned as a whole moves differently", m, o, exp, 1e-6, case)
        rec.close("turn_obstacle", "an obstacle of a turned scene moves differently", o["com_"], c + v(ref["com_"] - c), 1e-10, case=case)
        rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n)
    rec.sample(**case(0))
