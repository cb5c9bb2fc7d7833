"""C12 splitting a body on one grid changes nothing."""
PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all ordered partitions of the points into bodies, each run as a real multi-body scene and compared point by point"
RULE = ("all 13 ordered partitions of three points into bodies x placements x velocities x stresses, several steps with gravity on the grid, gravity on the points, "
        "damping and an obstacle; oracle: the unsplit body; non-trivial = every partition other than the identity")
ASSUMPTIONS = ["JAX CPU float64", "laws without cross-point data (as all laws are)"]
NOTE = "partition lattice is covered completely for 3 points (thorough: also all 75 of 4 points for the linear kernel)"
BOUNDS = {"quick": dict(points=3, partitions=13, steps=2), "thorough": dict(points=4, partitions=75, steps=3)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                if tier == "quick" and dim == 3 and kernel != "quadratic":
                    continue
                out.append(("parts", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier, npts=3)))
                if tier == "thorough" and dim == 2:
                    out.append(("parts", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier, npts=4)))
    return out


def ordered_partitions(items):
    """All sequences of disjoint non-empty blocks covering items."""
    items = list(items)
    if not items:
        yield []
        return
    import itertools
    for k in range(1, len(items) + 1):
        for block in itertools.combinations(items, k):
            rest = [i for i in items if i not in block]
            for p in ordered_partitions(rest):
                yield [list(block)] + p


def parts(cfg, rec):
    from mc.env import np, jnp, hdx
    from mc import scenes as S
    dim, kernel, scheme, N = cfg["dim"], cfg["kernel"], cfg["scheme"], cfg["npts"]
    th = cfg["tier"] == "thorough"
    steps = 3 if th else 2
    h = .25
    law = ("elastic", dict(E=50.0, nu=.3, requires_F_reset=False)) if (dim + len(kernel)) % 2 else ("newton", dict(K=30.0, viscosity=1.0, beta=2.0, rho0=50.0))

    def setup(b):
        b.add_gravity(gravity=jnp.array([.4, -1.0, .7][:dim]))
        b.add_gravity(gravity=jnp.array([-.8, .5, .2][:dim]), is_apply_on_grid=False)
        b.add_damping(alpha=.2)
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(.21), center_of_mass=jnp.full((dim,), 1.1))
        b.add_sdf_collider(friction=.3)
    A = S.lattice(*[[.12, .47, .81]] * dim)
    V = np.array([[0, .2, -.1], [1, -2, .5], [-.4, .3, 2]])[:, :dim]
    i1, i2, iv = S.product_idx(len(A), len(A), 2)
    if dim == 3 and not th:
        i1, i2, iv = i1[::5], i2[::5], iv[::5]
    n = len(i1)
    k = np.arange(n)
    X = np.stack([(1.2 + A[(i1 if q % 2 == 0 else i2)] + (0, .4, 1.15, .7)[q] * np.array([1, -.3, .6])[:dim]) * h for q in range(N)], 1)
    U = np.stack([V[(iv + q) % 3] for q in range(N)], 1)
    s0 = np.array([[2, .5, .1], [.5, 1, .3], [.1, .3, 1.5]])
    Sg = np.stack([s0 * (1, -.7, 2, .4)[q] for q in range(N)], 0) * np.ones((n, 1, 1, 1))
    F = np.stack([np.eye(3) + (q - 1) * .03 * np.diag([1, -1, 0]) for q in range(N)], 0) * np.ones((n, 1, 1, 1))
    B = np.stack([(q - .6) * np.array([[1, 2, 0], [-1, .5, 0], [0, 0, 0.]]) for q in range(N)], 0) * np.ones((n, 1, 1, 1))
    mass = np.array([1.0, 2.0, .5, 1.5])[:N]
    ref = None
    for P in ordered_partitions(range(N)):
        ms = S.Multi(dim=dim, scheme=scheme, sizes=[len(b) for b in P], kernel=kernel, h=h, cells=6, law=law, setup=setup, probe=True)
        d = ms.init(n)
        for i, b in enumerate(P):
            d["pos%d" % i], d["vel%d" % i], d["stress%d" % i], d["F%d" % i] = X[:, b], U[:, b], Sg[:, b], F[:, b]
            d["mass%d" % i] = np.tile(mass[b], (n, 1)); d["vol0%d" % i] = d["mass%d" % i] / 50.0
            d["vol%d" % i] = d["vol0%d" % i] * np.linalg.det(F[:, b])
            if ms.aff:
                d["Bp%d" % i] = B[:, b]
        f = ms.stepper(2e-3, chunk=100000)
        cur = d
        for s in range(steps):
            o = f(cur)
            cur = {q: o.get(q, cur[q]) for q in cur}
        got = {}
        for q in ("pos", "vel", "stress", "F", "L", "vol") + (("Bp",) if ms.aff else ()):
            full = np.empty((n, N) + o[q + "0"].shape[2:])
            for i, b in enumerate(P):
                full[:, b] = o[q + str(i)]
            got[q] = full
        got["gmass"], got["gmom"], got["gmomn"] = o["gmass0"], o["gmom0"], o["gmomn0"]
        if ref is None or len(P) == 1:
            if ref is None:
                base = S.Multi(dim=dim, scheme=scheme, sizes=[N], kernel=kernel, h=h, cells=6, law=law, setup=setup, probe=True)
                dd = base.init(n, pos0=X, vel0=U)
                dd["stress0"], dd["F0"] = Sg.copy(), F.copy()
                dd["mass0"] = np.tile(mass, (n, 1)); dd["vol00"] = dd["mass0"] / 50.0; dd["vol0"] = dd["vol00"] * np.linalg.det(F)
                if base.aff:
                    dd["Bp0"] = B.copy()
                g = base.stepper(2e-3, chunk=100000)
                cur = dd
                for s in range(steps):
                    o = g(cur)
                    cur = {q: o.get(q, cur[q]) for q in cur}
                ref = {q: o[q + "0"] for q in got}
        for q in got:
            sc = max(1.0, float(np.abs(ref[q]).max()))
            rec.close("split", "a split body moves differently (%s)" % q, got[q], ref[q], 1e-9 * sc, 0,
                      case=lambda i: dict(partition=P, pos=X[i].tolist(), vel=U[i].tolist()))
        rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n, partitions=1)
        rec.sample(partition=P, pos=X[0])
