"""C14 kernels: partition of unity, linear reproduction, gradients, indices."""
PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of a position lattice (all knots, faces, nodes, their floating-point neighbours) over every interior cell, independent kernel formulas as oracle"
RULE = ("positions: cartesian product over axes of in-cell offsets {node, node+-ulp, +-1e-7, interior, half-cell knot +-ulp, face-} in every interior cell; x kernels x "
        "dimensions x cell sizes x origins x non-square grids; non-trivial = distinct position")
ASSUMPTIONS = ["JAX CPU float64", "linear-kernel gradients not compared within 1e-6 of a face, where they are discontinuous"]
NOTE = "all stated identities evaluated on the real stencil output, and compared node by node with independent closed-form kernels and difference quotients"
BOUNDS = {"quick": dict(offsets_per_axis="13 (2D), 7 (3D)", cells="all interior"), "thorough": dict(offsets_per_axis="25 (2D), 13 (3D)", cells="all interior")}
FAST_COMPILE = False

GEOM = [dict(h=.25, o=0.0), dict(h=.1, o=-.3), dict(h=1 / 3, o=1.7), dict(h=2.0, o=-11.0)]


def tasks(tier):
    out = []
    for kernel in ("linear", "quadratic", "cubic"):
        for dim in (2, 3):
            for g in range(len(GEOM)):
                out.append(("lattice", dict(kernel=kernel, dim=dim, geom=g, tier=tier)))
        out.append(("one_d", dict(kernel=kernel, tier=tier)))
    out.append(("walls", dict(tier=tier)))
    return out


def offsets(n):
    from mc.env import np
    u = np.finfo(float).eps
    base = [0.0, .5, .25, .81, 4 * u, 1 - u, .5 + 2 * u, .5 - u, 1e-7, 1 - 1e-7, .5 + 1e-7, .5 - 1e-7, .37]
    extra = [.05, .1, .15, .2, .3, .45, .55, .6, .7, .75, .9, .95]
    return (base + extra)[:n]


def lattice(cfg, rec):
    from mc.env import np, jnp, jax, hdx
    from mc import refmpm as R
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    dim, kernel, G = cfg["dim"], cfg["kernel"], GEOM[cfg["geom"]]
    th = cfg["tier"] == "thorough"
    h = G["h"]
    cells = (3, 2, 2)[:dim]
    o = tuple(G["o"] + .5 * a * h for a in range(dim))
    end = tuple(a + c * h for a, c in zip(o, cells))
    dom = hdx.GridDomain.create(o, end, h, padding=2)
    ref = R.Grid(o, end, h, 2)
    if tuple(dom.grid_size) != ref.n:
        return rec.fail("size", "grid has %s nodes, expected %s" % (dom.grid_size, ref.n))
    off = offsets((25 if th else 13) if dim == 2 else (13 if th else 7))
    axes = [np.array([o[a] + (c + f) * h for c in range(cells[a]) for f in off]) for a in range(dim)]
    X = np.stack(np.meshgrid(*axes, indexing="ij"), -1).reshape(-1, dim)
    m = ShapeFunctionMapping(shapefunction=kernel, dim=dim)
    f = jax.jit(lambda x: m.compute(x, origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size))
    W = m.window_size
    nodes = ref.nodes()
    CH = 20000
    for a0 in range(0, len(X), CH):
        x = X[a0:a0 + CH]
        xx = x if len(x) == CH or len(X) <= CH else np.concatenate([x, np.repeat(x[-1:], CH - len(x), 0)])
        c = f(jnp.asarray(xx))
        B = len(x)
        pid = np.asarray(c.point_ids).reshape(-1, W)[:B]
        hsh = np.asarray(c.node_hashes).reshape(-1, W)[:B].astype(int)
        w = np.asarray(c.shape_vals).reshape(-1, W)[:B]
        g = np.asarray(c.shape_grads).reshape(-1, W, 3)[:B]
        rel = np.asarray(c.rel_dist).reshape(-1, W, 3)[:B]
        case = lambda q: dict(x=x[q].tolist(), cell=((x[q] - np.array(o)) / h).tolist())
        if not (pid == np.arange(B)[:, None]).all():
            rec.fail("points", "stencil entries are attributed to the wrong points")
        rec.true("nonneg", "negative weight", w >= -1e-14, w, case)
        rec.close("unity", "weights do not sum to one", w.sum(1), 1.0, 1e-12, case=case)
        rec.close("gradzero", "weight gradients do not sum to zero", g.sum(1), 0.0, 1e-10 / h, case=case)
        rec.close("linear", "weights do not reproduce the position", np.einsum("bw,bwd->bd", w, nodes[hsh]), x, 1e-11 * max(1, abs(G["o"])) , case=case)
        rec.close("plane", "gradient has a component outside the plane", g[:, :, dim:], 0.0, 0, case=case)
        rec.close("plane", "relative distance has a component outside the plane", rel[:, :, dim:], 0.0, 0, case=case)
        rec.close("rel", "relative distance is not the distance to the reported node", rel[:, :, :dim] * h, x[:, None] - nodes[hsh], 1e-10 * max(1, abs(G["o"])), case=case)
        rec.true("distinct", "a node appears twice in a stencil", np.diff(np.sort(hsh, 1), axis=1) > 0, hsh, case)
        fr = (x - np.array(o)) / h
        face = np.abs(fr - np.round(fr)).min(1) < 1e-6
        away = ~face if kernel == "linear" else np.ones(B, bool)
        rec.close("gradlinear", "weight gradients do not reproduce a linear field", np.einsum("bwi,bwd->bid", g[:, :, :dim], nodes[hsh]),
                  np.eye(dim)[None], 1e-9 * max(1, abs(G["o"])), case=case, mask=away)
        # node by node against independent closed forms (dense, so the choice of stencil does not matter)
        dw = np.zeros((B, ref.num)); dg = np.zeros((B, ref.num, 3)); ew = dw.copy(); eg = dg.copy()
        rows = np.arange(B)
        for k in range(W):
            np.add.at(dw, (rows, hsh[:, k]), w[:, k]); np.add.at(dg, (rows, hsh[:, k]), g[:, k])
        for node, ww, gg, rr in R.weights(ref, kernel, x):
            np.add.at(ew, (rows, node), ww); np.add.at(eg, (rows, node), gg)
        rec.close("kernel", "weight differs from the kernel function", dw, ew, 1e-11, case=case)
        rec.close("dkernel", "gradient differs from the kernel derivative", dg, eg, 1e-9 / h, case=case, mask=away)
        rec.count(states=B, traces=B, evals=B, distinct=B)
    # gradients are the derivatives of the weights the code itself reports
    if True:
        x = X[:: max(1, len(X) // 3000)]
        fr = (x - np.array(o)) / h
        knot = np.abs(2 * fr - np.round(2 * fr)).min(1) < 1e-3
        x = x[~knot]
        dense = lambda c: np.asarray(jnp.zeros((len(x), ref.num)).at[c.point_ids, c.node_hashes].add(c.shape_vals))
        c0 = f(jnp.asarray(x))
        dg = np.asarray(jnp.zeros((len(x), ref.num, 3)).at[c0.point_ids, c0.node_hashes].add(c0.shape_grads))
        e = 1e-5 * h
        for a in range(dim):
            d = np.zeros(dim); d[a] = e
            fd = (dense(f(jnp.asarray(x + d))) - dense(f(jnp.asarray(x - d)))) / (2 * e)
            rec.close("difference", "gradient is not the derivative of the weight", dg[:, :, a], fd, 1e-6 / h, case=lambda q: dict(x=x[q].tolist(), axis=a))
        rec.count(transitions=2 * dim * len(x), evals=2 * dim * len(x))
    rec.sample(kernel=kernel, dim=dim, x=X[1].tolist(), h=h)


def one_d(cfg, rec):
    """The kernel functions themselves along a line: every knot from both sides, beyond the support."""
    from mc.env import np, jnp, jax
    from mc import refmpm as R
    from hydraxmpm.shapefunctions.mapping import kernels
    fn = kernels[cfg["kernel"]][0]
    u = 1e-12
    r = {"linear": 1, "quadratic": 1.5, "cubic": 2}[cfg["kernel"]]
    n = 4001 if cfg["tier"] == "thorough" else 801
    d = np.concatenate([np.linspace(-r, r, n), [k + s * u for k in np.arange(-2, 2.01, .5) for s in (-1, 0, 1)]])
    d = d[np.abs(d) <= r]
    for dim in (1, 2, 3):
        for h in (1.0, .25):
            D = np.zeros((len(d), dim)); D[:, -1] = d
            other = .25
            if dim > 1:
                D[:, :-1] = other
            v, g = jax.vmap(lambda x: fn(x, 1 / h, dim, (0, 3 - dim), intr_node_type=0))(jnp.asarray(D))
            n1 = R.N1(cfg["kernel"], D); dn = R.dN1(cfg["kernel"], D) / h
            case = lambda q: dict(distance=D[q].tolist(), h=h)
            rec.close("value", "kernel value", v, np.prod(n1, 1), 1e-10, case=case)
            smooth = np.ones(len(d), bool) if cfg["kernel"] != "linear" else (np.abs(d) > 1e-9) & (np.abs(d) < 1 - 1e-9)
            for a in range(dim):
                e = dn[:, a] * np.prod(np.delete(n1, a, 1), 1)
                rec.close("derivative", "kernel derivative", np.asarray(g)[:, a], e, 1e-9 / h, case=case, mask=smooth)
            rec.close("pad", "padding of the gradient", np.asarray(g)[:, dim:], 0.0, 0, case=case)
            rec.count(states=len(d), traces=len(d), evals=len(d), distinct=len(d))
    rec.sample(kernel=cfg["kernel"], distances=[float(d[0]), float(d[1])])


def walls(cfg, rec):
    """The cubic kernel's wall variants (node types 1 edge, 2 next to the lower edge, 3 next to the upper edge) close the row: constants and linear fields up to the walls."""
    from mc.env import np, jnp, jax
    from hydraxmpm.shapefunctions.mapping import kernels
    fn = kernels["cubic"][0]
    n = 401 if cfg["tier"] == "quick" else 4001
    for N in (4, 5, 7):
        types = np.zeros(N + 1, int); types[[0, N]] = 1; types[1], types[N - 1] = 2, 3
        x = np.concatenate([np.linspace(0, N, n * N)[:-1], np.arange(N)[:, None].repeat(4, 1).ravel() + np.tile([0.0, 1e-12, 1e-7, 1 - 1e-9], N)])
        for h in (1.0, .25, 3.0):
            W, G = [], []
            for dim in (1, 2, 3):
                # along the last axis; the other axes at a fixed distance of the same node type
                v, g = [], []
                for k in range(N + 1):
                    D = np.full((len(x), dim), .25); D[:, -1] = x - k
                    a, b = jax.vmap(lambda q: fn(q, 1 / h, dim, (0, 3 - dim), intr_node_type=int(types[k])))(jnp.asarray(D))
                    # the factor of the other axes, from the same kernel in one dimension
                    e = float(fn(jnp.array([.25]), 1 / h, 1, (0, 2), intr_node_type=int(types[k]))[0]) ** (dim - 1)
                    v.append(np.asarray(a) / e); g.append(np.asarray(b)[:, dim - 1] / e)
                v, g = np.array(v), np.array(g)
                case = lambda i: dict(nodes=N + 1, h=h, dim=dim, position=float(x[i]))
                rec.true("sign", "a wall kernel is negative", v.min(0) >= -1e-12, got=v.T, case=case)
                rec.close("sum", "wall kernels do not sum to one", v.sum(0), np.ones(len(x)), 1e-6, case=case)
                rec.close("linear", "wall kernels do not reproduce a linear field", (v * np.arange(N + 1)[:, None]).sum(0), x, 1e-6 * N, case=case)
                rec.close("gsum", "gradients of wall kernels do not sum to zero", g.sum(0) * h, np.zeros(len(x)), 1e-6, case=case)
                rec.close("glinear", "gradients of wall kernels do not reproduce a linear field", (g * np.arange(N + 1)[:, None]).sum(0) * h, np.ones(len(x)), 1e-6 * N, case=case)
                d = np.diff(v[:, :n * N - 1], axis=1) / np.diff(x[:n * N - 1]) / h
                mid = .5 * (g[:, 1:n * N - 1] + g[:, :n * N - 2])
                rec.close("derivative", "a wall kernel's gradient is not its derivative", mid.T, d.T, 3.0 / n / h * 4, case=case)
                rec.count(states=len(x), traces=len(x), evals=len(x) * (N + 1), transitions=len(x), distinct=len(x))
    rec.sample(nodes=N + 1, position=float(x[1]))
