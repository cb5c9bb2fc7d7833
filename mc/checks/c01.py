"""C01 mass conservation: explicit-state exploration of scenes x histories on the real solvers."""
import itertools
PROPERTY = "C01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real solver steps, kernel-sum reference model for the grid"
NOTE = "every transition is a step of the real solver; node masses compared with an independent model; interior placements, depth-bounded histories"
RULE = ("initial states: every placement of 1-3 points on a sub-cell lattice (nodes, faces, kernel knots and their "
        "neighbours, region corners) x masses x velocities; transitions: one real solver step with each dt; a state is "
        "non-trivial when it differs from all others in positions/velocities after rounding to 1e-9")
ASSUMPTIONS = ["JAX CPU float64 execution", "grid arrays observed through a user force hook"]
BOUNDS = {"quick": dict(points="1-3", depth=3, dts=2), "thorough": dict(points="1-3", depth=5, dts=3)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                for bodies in (1, 2):
                    for h in (0.25, 0.1):
                        if dim == 3 and h == 0.1 and bodies == 2 and tier == "quick":
                            continue
                        out.append(("explore", dict(scheme=scheme, kernel=kernel, dim=dim, bodies=bodies, h=h, tier=tier)))
                out.append(("large", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier)))
    return out


def explore(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import scenes as S, refmpm as R
    from mc.bfs import bfs
    dim, kernel, scheme, h, nb = cfg["dim"], cfg["kernel"], cfg["scheme"], cfg["h"], cfg["bodies"]
    thorough = cfg["tier"] == "thorough"
    org = (0.0, -1.0, 2.0)[:dim]
    cells = 4
    b = S.hdx.SimBuilder()
    b.add_grid(origin=org, end=tuple(o + cells * h for o in org), cell_size=h, padding=3)
    sizes = [2] if nb == 1 else [1, 2]
    for n in sizes:
        b.add_material_points(position_stack=jnp.tile(jnp.array(org) + 1.5 * h, (n, 1)), mass_stack=jnp.ones(n), volume_stack=jnp.ones(n))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=3.0, nu=.2, requires_F_reset=False))
    for i in range(nb):
        b.couple(p_idx=i, g_idx=0, c_idx=0, shapefunction=kernel)
    pr = S.add_probe(b)
    b.set_solver(scheme=scheme, **({} if scheme == "usl" else dict(alpha=.9)))
    solver, st0 = b.build(dt=.01)

    def one(d, dt):
        st = S.put(st0, dt=dt)
        for i in range(nb):
            st = S.put(st, p=i, pos=d["pos%d" % i], vel=d["vel%d" % i], mass=d["mass%d" % i], stress=d["stress%d" % i], F=d["F%d" % i],
                       **({"Bp": d["Bp%d" % i], "s": i} if scheme != "usl" else {}))
        st = solver(st)
        o = {}
        for i in range(nb):
            for k in ("pos", "vel", "mass", "stress", "F"):
                o[k + str(i)] = S.get(st, k, i)
            if scheme != "usl":
                o["Bp%d" % i] = st.mechanics.solvers[i].Bp_stack
        o["gmass"] = st.mechanics.forces[pr].mass[0]
        return o
    stepf = jax.jit(jax.vmap(one, in_axes=(0, None)))

    d = 1e-6
    if dim == 2:
        A = [0, .25, .5 - d, .5, .5 + d, .7, 1 - d, 1, 2.5, 4 - d] + ([.125, 1 / 3, 3.2, 4.0] if thorough else [])
        A1 = [0.0, .3, .5, 1.0, 4.0]
    else:
        A = [0, .5, .7, 1 - d, 2.5] + ([.25, .5 - d, .5 + d, 4 - d] if thorough else [])
        A1 = [0.3, 4.0] + ([.5] if thorough else [])
    P1 = S.lattice(*[A] * dim)
    P2 = S.lattice(*[A1] * dim)
    masses = [(1.0, 2.0), (1e-3, 5.0)]
    vels = [(0.0, 0.0), (1.0, -1.0)]
    i1, i2, im, iv = S.product_idx(len(P1), len(P2), len(masses), len(vels))
    n = len(i1)
    p1 = np.array(org) + P1[i1] * h
    p2 = np.array(org) + P2[i2] * h
    m = np.array(masses)[im]
    v1 = np.stack([np.array(vels)[iv, 0] * s for s in (1, .5, -.25)[:dim]], -1)
    v2 = np.stack([np.array(vels)[iv, 1] * s for s in (.5, 1, .75)[:dim]], -1)
    init = {}
    if nb == 1:
        parts = [(np.stack([p1, p2], 1), np.stack([v1, v2], 1), m)]
    else:
        parts = [(p1[:, None], v1[:, None], m[:, :1]),
                 (np.stack([p2, .5 * (p1 + p2)], 1), np.stack([v2, v1], 1), np.stack([m[:, 1], m[:, 0]], 1))]
    keys = []
    for i, (P, V, M) in enumerate(parts):
        N = P.shape[1]
        init.update({"pos%d" % i: P, "vel%d" % i: V, "mass%d" % i: M, "stress%d" % i: np.zeros((n, N, 3, 3)), "F%d" % i: np.tile(np.eye(3), (n, N, 1, 1))})
        if scheme != "usl":
            init["Bp%d" % i] = np.zeros((n, N, 3, 3))
        keys += ["pos%d" % i, "vel%d" % i, "mass%d" % i]
    grid = R.Grid(org, tuple(o + cells * h for o in org), h, 3)

    def check(pre, ev, post, case):
        g = post["gmass"]
        M = np.concatenate([pre["mass%d" % i] for i in range(nb)], 1)
        rec.close("total", "grid mass differs from the points' mass", g.sum(1), M.sum(1), 1e-10, 1e-10, case)
        rec.true("negative", "negative grid mass", (g >= -1e-12).all(1), g.min(1), case)
        ref = np.zeros((len(M), grid.num))
        rows = np.arange(len(M))
        for i in range(nb):
            for q in range(pre["pos%d" % i].shape[1]):
                for node, w, _, _ in R.weights(grid, kernel, pre["pos%d" % i][:, q]):
                    np.add.at(ref, (rows, node), w * pre["mass%d" % i][:, q])
        rec.close("nodal", "a node does not carry the kernel-weighted mass of its points", g, ref, 1e-8, 1e-8, case)
        for i in range(nb):
            rec.close("point-mass", "a step changed a point's mass", post["mass%d" % i], pre["mass%d" % i], 0, 0, case)
        rec.count(traces=len(M))
        rec.sample(pos0=pre["pos0"][0], mass0=pre["mass0"][0], event=ev, grid_total=float(g[0].sum()))

    dts = (.01, .03 * h) if not thorough else (.01, .03 * h, .2 * h)
    CH = 4000 if dim == 3 else 20000

    def mk(dt):
        def f(d):
            n = len(d["pos0"]); res = []
            for a in range(0, n, CH):
                k = min(CH, n - a)
                part = {x: np.concatenate([v[a:a + k], np.repeat(v[-1:], (CH if n > CH else k) - k, 0)]) for x, v in d.items()}
                res.append({x: np.asarray(v)[:k] for x, v in stepf(part, dt).items()})
            return {x: np.concatenate([r[x] for r in res]) for x in res[0]}
        return f
    bfs(rec, init, [("dt=%g" % dt, mk(dt)) for dt in dts], 3 if not thorough else 4, keys, check,
        max_states=(12000 if dim == 2 else 6000) * (8 if thorough else 1))


def large(cfg, rec):
    """Grids with many nodes (index arithmetic range) and larger bodies."""
    from mc.env import np, jnp, jax, hdx
    from mc import scenes as S, refmpm as R
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    cells = 300 if dim == 2 else 44
    h = 0.5
    org = (-3.0, 1.0, 0.0)[:dim]
    n = 27 if dim == 3 else 25
    solver, st0, pr = S.simple_scene(dim=dim, kernel=kernel, scheme=scheme, npts=n, h=h, origin=org, cells=cells, probe=True)
    grid = R.Grid(org, tuple(o + cells * h for o in org), h, 3)
    f = S.batched(solver, st0, names=("pos", "mass"), probe=pr)
    k = 5 if dim == 2 else 3
    local = S.lattice(*[np.linspace(0, 1.4, k)] * dim)
    corners = S.lattice(*[[0.3, cells / 2 - .7, cells - 2.1]] * dim)
    pos = np.array(org) + (corners[:, None] + local[None]) * h
    B = len(corners)
    mass = np.tile(1.0 + .25 * np.arange(n), (B, 1))
    o = f(pos=pos, mass=mass, chunk=9)
    case = lambda i: dict(corner=corners[i].tolist())
    rec.close("total", "grid mass differs from the points' mass", o["g_mass"][0].sum(1), mass.sum(1), 1e-9, 0, case)
    ref = np.zeros((B, grid.num)); rows = np.arange(B)
    for q in range(n):
        for node, w, _, _ in R.weights(grid, kernel, pos[:, q]):
            np.add.at(ref, (rows, node), w * mass[:, q])
    rec.close("nodal", "a node does not carry the kernel-weighted mass of its points", o["g_mass"][0], ref, 1e-8, 1e-8, case)
    rec.count(states=B, transitions=B, traces=B, evals=B, distinct=B)
    rec.sample(corner=corners[0], nodes=grid.num)
