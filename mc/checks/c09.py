"""C09 grid symmetries: all signed axis permutations, cell translations, point orders."""
PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the grid symmetry group x scenes on real steps (simulation commutes with symmetry)"
RULE = ("all 8 (2D) / 48 (3D) symmetries, all cell translations up to one cell, all orders of three points, for every scene of the alphabet; "
        "non-trivial = the transformed scene differs from the original")
ASSUMPTIONS = ["JAX CPU float64", "linear-kernel placements stay off the cell faces, where its gradient has no unique value"]
NOTE = "commutation of the real step with every symmetry; no model needed"
BOUNDS = {"quick": dict(points=3, steps=2), "thorough": dict(points=3, steps=4)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for kernel in ("linear", "quadratic", "cubic"):
                laws = ("elastic", "newton", "mui", "dp", "mcc") if tier == "thorough" else dict(linear=("elastic", "mcc"), quadratic=("dp",), cubic=("mui", "newton"))[kernel]
                for law in laws:
                    out.append(("sym", dict(scheme=scheme, dim=dim, kernel=kernel, law=law, tier=tier, obstacle=int(law in ("elastic", "dp")))))
    return out


def group(dim, np):
    import itertools
    out = []
    for p in itertools.permutations(range(dim)):
        for s in itertools.product([1, -1], repeat=dim):
            R = np.eye(3)
            R[:dim, :dim] = 0
            for i in range(dim):
                R[i, p[i]] = s[i]
            out.append(R)
    return out


def sym(cfg, rec):
    from mc.env import np, jnp, hdx
    from mc import scenes as S, lawlib
    import itertools
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    h, cells = .25, 6
    steps = 4 if th else 2
    law, ls, mp = lawlib.ready(cfg["law"], dim, 3, V0=.01)

    def setup(b):
        if cfg["obstacle"]:
            b.add_sdf_object(sdf_logic=hdx.SphereSDF(.13), center_of_mass=jnp.full((dim,), cells * h / 2))
            b.add_sdf_collider(sdf_idx=0, friction=.3)
    kw = {} if scheme == "usl" else dict(use_mls_update=cfg["law"] != "newton")
    ms = S.Multi(dim=dim, scheme=scheme, sizes=[3], kernel=kernel, h=h, cells=cells, law=("obj", law, ls), probe=False, setup=setup, store_F=True, solver_kw=kw)
    A = [.1, .5, .75, 1.0] if kernel != "linear" else [.1, .4, .75]
    if dim == 3:
        A = A[:3] if kernel == "linear" else [.1, .5, 1.0]
    P = 2 + S.lattice(*[A] * dim)
    i1, i2 = S.product_idx(len(P), len(P))
    if dim == 3 and not th:
        keep = (i1 + 3 * i2) % 12 == 0
        i1, i2 = i1[keep], i2[keep]
    n = len(i1)
    base = np.asarray(mp.stress_stack)[0]
    s = max(1.0, np.abs(base).max())
    T = np.array([[1, .5, .2], [.5, -2, .3], [.2, .3, 1.5]]); G = np.array([[.02, .1, -.03], [-.05, .04, .02], [.01, .06, -.03]])
    Bm = np.array([[1, -2, .5], [.3, .7, -.4], [.6, -.2, .9]])
    if dim == 2:
        m = np.outer([1, 1, 0], [1, 1, 0]); T = T * (m + np.diag([0, 0, 1])); G = G * m; Bm = Bm * m
    p1, p2 = P[i1] * h, P[i2] * h
    # generic third point, distinct from its mirror images
    p3 = (.37 * p1 + .63 * p2) + h * np.array([.05, -.11, .07])[:dim]
    k = np.arange(n)
    V = np.array([[1, -.5, .3], [-.7, 1.2, -.4], [.1, .6, -1.5]])[:, :dim]
    d = ms.init(n, pos0=np.stack([p1, p2, p3], 1))
    d["vel0"] = np.stack([V[(k + q) % 3] * (1 + .1 * q) for q in range(3)], 1)
    d["mass0"][:] = np.asarray(mp.mass_stack); d["vol00"][:] = np.asarray(mp.volume0_stack)
    d["stress0"] = np.stack([base + .02 * s * (q + 1) * T for q in range(3)], 0) * np.ones((n, 1, 1, 1))
    d["F0"] = np.stack([np.eye(3) + (q - 1) * G for q in range(3)], 0) * np.ones((n, 1, 1, 1))
    d["Fs0"] = d["F0"].copy()
    d["vol0"] = d["vol00"] * np.linalg.det(d["F0"])
    if ms.aff:
        d["Bp0"] = np.stack([Bm * (1, -.5, 2)[q] for q in range(3)], 0) * np.ones((n, 1, 1, 1))
    c = cells * h / 2
    f = ms.stepper(1e-3, chunk=4000, steps=steps)

    def tr(R, x):
        o = dict(x)
        r = R[:dim, :dim]
        for q in x:
            if q[:-1] == "pos":
                o[q] = c + (x[q] - c) @ r.T
            elif q[:-1] in ("vel", "force"):
                o[q] = x[q] @ r.T
            elif q[:-1] in ("stress", "F", "Fs", "Bp", "L"):
                o[q] = R @ x[q] @ R.T
        return o
    ref = f(d)
    outs = ("pos", "vel", "vol", "stress", "F", "Fs", "L") + (("Bp",) if ms.aff else ())

    def cmp(key, what, got, want, info):
        for q in outs:
            sc = max(1.0, float(np.abs(want[q + "0"]).max()))
            rec.close(key, what + " (" + q + ")", got[q + "0"], want[q + "0"], 1e-8 * sc, 0,
                      case=lambda i: dict(info, pos=d["pos0"][i].tolist(), vel=d["vel0"][i].tolist()))
        rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n)
    for R in group(dim, np):
        cmp("symmetry", "stepping does not commute with a grid symmetry", f(tr(R, d)), tr(R, ref), dict(matrix=R[:dim, :dim].tolist()))
    for perm in itertools.permutations(range(3)):
        pm = list(perm)
        dd = {q: v[:, pm] for q, v in d.items()}
        got = f(dd)
        cmp("point-order", "the result depends on the order of the points", got, {q: v[:, pm] for q, v in ref.items() if v.ndim > 1 and v.shape[1] == 3}, dict(order=pm))
    if not cfg["obstacle"]:
        sh = [-1, 0, 1, 2] if dim == 2 else [-1, 1]
        for off in itertools.product(sh, repeat=dim):
            o = np.array(off) * h
            dd = dict(d); dd["pos0"] = d["pos0"] + o
            want = dict(ref); want["pos0"] = ref["pos0"] + o
            cmp("translation", "the result depends on which cell the scene is in", f(dd), want, dict(cells=list(off)))
    rec.sample(cfg=cfg, pos=d["pos0"][0], after=ref["pos0"][0])
