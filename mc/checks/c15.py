"""C15 mapping point data to the grid and back."""
PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of placements x data ranks x masses x cutoffs on the real mapping operators, dense weight matrix as oracle"
RULE = ("all placements of up to 3 points on a sub-cell lattice incl. knots and the grid edge x masses (ordinary, tiny, zero) x data (scalar, vector, tensor; "
        "a basis of each) x normalisation x cutoffs x kernels x dimensions; non-trivial = distinct (placement, mass, data)")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "both operators compared with an independent dense weight matrix and with each other (transposition), entry by entry"
BOUNDS = {"quick": dict(points="1-3"), "thorough": dict(points="1-4")}
FAST_COMPILE = True
TASKS_PER_CHILD = 40


def tasks(tier):
    return [("mapping", dict(kernel=k, dim=d, n=n, tier=tier)) for k in ("linear", "quadratic", "cubic") for d in (2, 3)
            for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]


def mapping(cfg, rec):
    from mc.env import np, jnp, jax, hdx
    from mc import refmpm as R, scenes as S
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    dim, kernel, n = cfg["dim"], cfg["kernel"], cfg["n"]
    h = .2
    o, end = (0.0, -.1, .3)[:dim], tuple(a + c * h for a, c in zip((0.0, -.1, .3), (3, 2, 2)))[:dim]
    dom = hdx.GridDomain.create(o, end, h, padding=1)
    ref = R.Grid(o, end, h, 1)
    m = ShapeFunctionMapping(shapefunction=kernel, dim=dim)
    fr = [0.0, .5, .31, .82] if dim == 2 or n == 1 else [0.0, .5, .31]
    P1 = np.concatenate([S.lattice(*[[o[a] + (1 + f) * h for f in fr] for a in range(dim)]),
                         S.lattice(*[[o[a] + (-.9) * h, o[a] + .4 * h] for a in range(dim)])])   # second block: stencil cut by the grid edge
    step = 1 if n == 1 else 7
    X = np.stack([P1[(np.arange(len(P1)) * (1 + q * (q + step)) + 3 * q) % len(P1)] for q in range(n)], 1)
    if n == 2:
        i, j = S.product_idx(len(P1), len(P1)); X = np.stack([P1[i], P1[j]], 1)[:: 1 if cfg["tier"] == "thorough" else 5]
    M = S.lattice(*[[1.0, 2.5, 1e-10, 0.0][:4 if n < 3 else 5]] * n)
    ix, im = S.product_idx(len(X), len(M))
    if cfg["tier"] == "quick" and len(ix) > 4000:
        ix, im = ix[::3], im[::3]
    x, mass = X[ix], M[im]
    B = len(x)
    cache = lambda xx: m.compute(xx, origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size)
    num = ref.num
    # dense reference weights
    W = np.zeros((B, n, num)); rows = np.arange(B)
    for q in range(n):
        for node, w, g, r in R.weights(ref, kernel, x[:, q]):
            np.add.at(W, (rows, q, node), w)
    rank_data = {}
    k = np.arange(n)
    rank_data["scalar"] = np.stack([np.ones(n), (k + 1.0) * np.where(k % 2, -1, 1)])
    e = np.eye(dim)
    rank_data["vector"] = np.stack([np.ones((n, dim)), (k[:, None] + 1) * np.array([1., -2., .5])[:dim]] + [np.tile(e[a], (n, 1)) for a in range(dim)])
    t = np.zeros((2, n, 3, 3)); t[0] = np.arange(9).reshape(3, 3) - 4.0; t[1] = (k[:, None, None] - .7) * np.array([[1, 2, 0], [-1, 0, 3], [.5, 0, 2.]])
    rank_data["tensor"] = t
    for rank, D in rank_data.items():
        for dd in D:
            data = np.tile(dd, (B,) + (1,) * dd.ndim)
            for norm, cut in ((False, 1e-9), (True, 1e-9), (True, 1e-3), (True, 1e-12))[:4 if dim == 2 or cfg["tier"] == "thorough" else 2]:
                f = jax.jit(jax.vmap(lambda xx, mm, da: m.scatter_to_grid(cache(xx), da, mm, num, small_mass_cutoff=cut, normalize=norm)))
                got = np.asarray(f(x, mass, data)) if (rank, norm, cut) not in _C else np.asarray(_C[rank, norm, cut](x, mass, data))
                _C.setdefault((rank, norm, cut), f)
                G = np.einsum("bqn,bq,bq...->bn...", W, mass, data)
                if norm:
                    A = np.einsum("bqn,bq->bn", W, mass)
                    A_ = A.reshape(A.shape + (1,) * (dd.ndim - 1))
                    edge = np.abs(A - cut) < 1e-6 * cut + 1e-16
                    G = np.where(A_ > cut, G / np.where(A_ > cut, A_, 1.0), 0.0)
                    keep = ~(edge & (A > 0)).any(1)
                else:
                    keep = None
                case = lambda q: dict(x=x[q].tolist(), mass=mass[q].tolist(), data=dd.tolist(), normalize=norm, cutoff=cut)
                if norm:
                    rec.true("empty", "a node without mass is not zero", (A_ > cut) | (got == 0), got, case, mask=keep)
                    got, G = got * A_, G * A_      # nodes reached only by round-off weights carry round-off information
                rec.close("scatter", "projection to the grid (%s, normalize=%s)" % (rank, norm), got, G, 1e-13, 1e-9, case=case, mask=keep)
                if not norm:
                    inside = W.sum((1, 2)) > n - 1e-9
                    rec.close("total", "total is not conserved (%s)" % rank, got.sum(1), np.einsum("bq,bq...->b...", mass, data), 1e-11 * 10, case=case, mask=inside)
                rec.count(states=B, transitions=B, traces=B, evals=B, distinct=B)
            if cfg["tier"] == "quick" and rank == "tensor":
                break
    # interpolation: the nodes' data weighted, for a general field, a constant and unit fields
    ids = np.arange(num)
    fields = {"scalar": [np.ones(num), np.sin(ids * .7) * (ids % 5)], "vector": [np.ones((num, dim)), np.stack([np.cos(ids * (a + .3)) for a in range(dim)], 1)],
              "tensor": [np.ones((num, 3, 3)), np.cos(ids[:, None, None] * .31 + np.arange(9).reshape(3, 3))]}
    for rank, fs in fields.items():
        f = jax.jit(jax.vmap(lambda xx, gd: m.gather_from_grid(cache(xx), gd), in_axes=(0, None)))
        for j, gd in enumerate(fs):
            ux = X
            got = np.asarray(f(ux, gd))
            idx = np.unique(ix, return_index=True)[1]
            exp = np.einsum("bqn,n...->bq...", W[idx], gd)
            ux = X[np.unique(ix)]
            got = got[np.unique(ix)]
            case = lambda q: dict(x=ux[q].tolist(), rank=rank, field=j)
            rec.close("gather", "interpolation from the grid (%s)" % rank, got, exp, 1e-10, 1e-10, case=case)
            if j == 0:
                inside = W[idx].sum((1, 2)) > n - 1e-9
                rec.close("constant", "constant grid data is not returned (%s)" % rank, got, 1.0, 1e-11, case=case, mask=inside)
            rec.count(states=len(ux), transitions=len(ux), traces=len(ux), evals=len(ux), distinct=len(ux))
    # transposition and round trip of constants
    def both(xx, mm, u, v):
        c = cache(xx)
        a = jnp.sum(m.scatter_to_grid(c, u, mm, num, normalize=False) * v)
        b = jnp.sum(m.gather_from_grid(c, v) * u * mm[:, None])
        nm = m.scatter_to_grid(c, jnp.ones_like(u) * 3.25, mm, num, normalize=True, small_mass_cutoff=0.0)
        return a, b, m.gather_from_grid(c, nm)
    v = fields["vector"][1]; u = rank_data["vector"][1]
    a, b, rt = map(np.asarray, jax.jit(jax.vmap(both, in_axes=(0, 0, None, None)))(x, mass, u, v))
    case = lambda q: dict(x=x[q].tolist(), mass=mass[q].tolist())
    rec.close("transpose", "interpolation is not the transpose of projection", a, b, 1e-11, 1e-10, case=case)
    ok = (mass > 0).all(1) & (W.sum((1, 2)) > n - 1e-9)
    rec.close("roundtrip", "constant point data does not survive the round trip", rt, 3.25, 1e-8, case=case, mask=ok)
    rec.count(states=B, transitions=2 * B, traces=B, evals=B)
    rec.sample(x=x[0].tolist(), mass=mass[0].tolist(), kernel=kernel)
    _C.clear()


_C = {}
