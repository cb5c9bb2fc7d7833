"""C16 grid geometry and points outside the grid."""
PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of grid requests and of stray-point positions on the real grid and solver steps"
RULE = ("requests: all origins x cell sizes x cell counts (1..40) x paddings per axis; node numbering: every node of non-square grids; stray points: a lattice of "
        "positions covering the grid, its rim, up to three cells outside, corners and far away, with every resident placement; non-trivial = distinct request or position")
ASSUMPTIONS = ["JAX CPU float64", "extents that are whole cells reach the end exactly; other extents to within a cell"]
NOTE = "node counts against integer arithmetic; stray points against the same scene without them and against an independent step model"
BOUNDS = {"quick": dict(cells="1-40", stray_positions="~150 (2D), ~300 (3D)", steps=2), "thorough": dict(cells="1-200", stray_positions="~400 (2D), ~900 (3D)", steps=4)}
FAST_COMPILE = True


def tasks(tier):
    out = [("sizes", dict(o=i, tier=tier)) for i in range(6)]
    for dim in (2, 3):
        out.append(("numbering", dict(dim=dim, tier=tier)))
        for kernel in ("linear", "quadratic", "cubic"):
            for scheme in ("usl", "usl_aflip"):
                out.append(("stray", dict(dim=dim, kernel=kernel, scheme=scheme, tier=tier)))
    return out


def sizes(cfg, rec):
    from mc.env import np, jnp, hdx
    import itertools
    th = cfg["tier"] == "thorough"
    o0 = (0.0, -1.0, .1, 1 / 3, -7.3, 100.0)[cfg["o"]]
    for h in (1.0, .25, .1, .2, .3, 1 / 3, .05, .07, .0125, .001, 3.0):
        for pad in range(0, 5):
            for i in range(1, 201 if th else 41):
                for j, dim in ((1, 2), (i, 3)) if i % 5 == 0 else ((i + 1, 2),):
                    cells = (i, j, 2)[:dim]
                    o = (o0, o0 * .5 + .1, 0.0)[:dim]
                    end = tuple(a + c * h for a, c in zip(o, cells))
                    how = (i + j + pad) % 3
                    if how == 0:
                        d = hdx.GridDomain.create(o, end, h, padding=pad)
                    elif how == 1:
                        d = hdx.GridDomain.create(jnp.array(o), jnp.array(end), h, padding=pad)
                    else:
                        b = hdx.SimBuilder(); g = b.add_grid(origin=o, end=end, cell_size=h, padding=pad); d = b.grid_domains[g]
                    case = dict(origin=o, end=end, h=h, padding=pad, got=d.grid_size)
                    if tuple(d.grid_size) != tuple(c + 2 * pad + 1 for c in cells):
                        rec.fail("count", "grid of %s cells with padding %d has %s nodes" % (cells, pad, d.grid_size), **case)
                    if not np.allclose(d.origin, [a - pad * h for a in o], atol=1e-12 * (1 + abs(o0))) or not np.allclose(d.end, [a + pad * h for a in end], atol=1e-12 * (1 + abs(o0))):
                        rec.fail("extent", "padded region is not the requested one plus the padding", **case, o=d.origin, e=d.end)
                    if d.dim != dim or d.num_cells != int(np.prod([c + 2 * pad + 1 for c in cells])) or d.cell_size != h or d.padding != pad:
                        rec.fail("count", "dimension, node count, cell size or padding", **case)
                    rec.count(states=1, transitions=1, evals=1, distinct=1)
            # extents that are not whole cells: the region is still covered to within a cell
            for i in (3, 7):
                for f in (.2, .5, .9):
                    d = hdx.GridDomain.create((o0, 0.0), (o0 + (i + f) * h, (i + f) * h), h, padding=pad)
                    last = np.array(d.origin) + (np.array(d.grid_size) - 1) * h
                    want = np.array([o0, 0.0]) + (i + f) * h + pad * h
                    if (last > want + h + 1e-9).any() or (last < want - h - 1e-9).any():
                        rec.fail("cover", "grid does not reach the requested end to within a cell", last=last, want=want, h=h)
                    rec.count(states=1, transitions=1, evals=1, distinct=1)
    rec.sample(origin=o0, h=.3, cells=40)


def numbering(cfg, rec):
    """Listed node positions are the nodes the transfer addresses; arrays are sized for them."""
    from mc.env import np, jnp, jax, hdx
    from mc import refmpm as R
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    dim = cfg["dim"]
    for o, cells, h, pad in (((0.0, 1.0, -2.0), (5, 2, 3), .25, 1), ((.3, -.2, .1), (2, 6, 4), .1, 2), ((-1.0, 0.0, 0.0), (4, 3, 6), 1 / 3, 3), ((0.0, 0.0, 0.0), (3, 4, 5), 2.0, 0)):
        o, cells = o[:dim], cells[:dim]
        end = tuple(a + c * h for a, c in zip(o, cells))
        d = hdx.GridDomain.create(o, end, h, padding=pad)
        ref = R.Grid(o, end, h, pad)
        nodes = np.asarray(d.position_stack, dtype=float)
        case = lambda q: dict(node=q, origin=o, cells=cells, h=h, padding=pad)
        if nodes.shape != (ref.num, dim):
            rec.fail("nodes", "node list has shape %s for %d nodes" % (nodes.shape, ref.num)); continue
        rec.close("nodes", "listed node position", nodes, ref.nodes(), 1e-5 * h, case=case)
        if np.asarray(d.position_mesh).shape != ref.n + (dim,):
            rec.fail("nodes", "node mesh has shape %s" % (np.asarray(d.position_mesh).shape,))
        from hydraxmpm.grid.grid import GridArrays
        a = GridArrays.new(d)
        if a.mass_stack.shape != (ref.num,) or a.moment_stack.shape != (ref.num, dim) or a.force_stack.shape != (ref.num, dim) or a.moment_nt_stack.shape != (ref.num, dim):
            rec.fail("arrays", "grid arrays are not sized for the grid")
        for kernel in ("linear", "quadratic", "cubic"):
            m = ShapeFunctionMapping(shapefunction=kernel, dim=dim)
            c = jax.jit(lambda x: m.compute(x, origin=d.origin, grid_size=d.grid_size, inv_cell_size=d._inv_cell_size))(jnp.asarray(ref.nodes()))
            W = np.asarray(jnp.zeros((ref.num, ref.num)).at[c.point_ids, c.node_hashes].add(c.shape_vals))
            E = np.zeros_like(W); rows = np.arange(ref.num)
            for node, w, g, r in R.weights(ref, kernel, ref.nodes()):
                np.add.at(E, (rows, node), w)
            rec.close("address", "a point on a node is not attributed to that node (%s)" % kernel, W, E, 1e-9, case=case)
            rec.count(states=ref.num, transitions=ref.num, traces=ref.num, evals=ref.num, distinct=ref.num)
    rec.sample(dim=dim, nodes=ref.n)


def stray(cfg, rec):
    from mc.env import np, jnp
    from mc import scenes as S, refmpm as R
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    h = .25
    opt = {} if scheme == "usl" else dict(use_dynamic_alpha=False, alpha=.9, cfl_limit=50.0, small_mass_cutoff=1e-12)
    m = S.Multi(dim=dim, scheme=scheme, sizes=[3], kernel=kernel, h=h, cells=4, padding=1, solver_kw=opt, law=("elastic", dict(E=40.0, nu=.2, requires_F_reset=False)))
    solo = S.Multi(dim=dim, scheme=scheme, sizes=[2], kernel=kernel, h=h, cells=4, padding=1, solver_kw=opt, law=("elastic", dict(E=40.0, nu=.2, requires_F_reset=False)))
    a = [-7.0, -2.6, -1.5, -1.0, -.5, 0.0, 1.3, 3.0, 4.5, 5.0, 5.4, 6.2, 9.0] if dim == 2 or th else [-2.6, -1.2, -.5, 2.3, 5.0, 5.6, 8.0]
    if th:
        a = a + [-1.5 - 1e-9, -1.5 + 1e-9, 5.5, 6.5, 7.5, -3.5]
    st = S.lattice(*[[q * h for q in a]] * dim)
    far = []
    for mag in (1e3, 1e6, 4e8, 1e10, 1e13):
        for s in S.lattice(*[[-1, 0, 1]] * dim):
            if np.any(s):
                far.append(s * mag + .3)
    st = np.concatenate([st, np.array(far)])
    res = np.array([[[1.3, 1.6, 1.4], [2.45, 1.9, 1.8]], [[.1, .2, .4], [3.9, 3.7, 3.8]], [[2.0, 2.0, 2.0], [2.5, 2.25, 2.1]]])[:, :, :dim] * h
    ip, ir = S.product_idx(len(st), len(res))
    B = len(ip)
    x = np.concatenate([res[ir], st[ip][:, None]], 1)
    v = np.array([[1.0, -.5, .2], [-.7, .3, .9], [.4, .8, -.6]])[:, :dim]
    s = np.array([[[3., 1, 0], [1, -2, 0], [0, 0, 1]], [[-1., 2, 0], [2, 4, 0], [0, 0, 2]], [[9., -3, 0], [-3, 5, 0], [0, 0, 0]]])
    mass, vol = np.array([1.0, 2.0, 5.0]), np.array([.3, .2, .4])
    d = m.init(B, pos0=x, vel0=np.tile(v, (B, 1, 1)), stress0=np.tile(s, (B, 1, 1, 1)), mass0=mass, vol0=vol, vol00=vol) if False else \
        m.init(B, pos0=x, vel0=np.tile(v, (B, 1, 1)), stress0=np.tile(s, (B, 1, 1, 1)), mass0=np.tile(mass, (B, 1)))
    d2 = solo.init(len(res), pos0=res, vel0=np.tile(v[:2], (len(res), 1, 1)), stress0=np.tile(s[:2], (len(res), 1, 1, 1)), mass0=np.tile(mass[:2], (len(res), 1)))
    dt = 2e-3
    f, fs = m.stepper(dt), solo.stepper(dt)
    g = m.refgrid()
    case = lambda q: dict(stray_cells=(st[ip[q]] / h).tolist(), residents_cells=(res[ir[q]] / h).tolist(), kernel=kernel)
    apart = None
    for k in range(4 if th else 2):
        # nodes every point touches now (independent)
        T = []
        for q in range(3):
            t = np.zeros((B, g.num), bool); rows = np.arange(B)
            for node, w, gr, r in R.weights(g, kernel, d["pos0"][:, q]):
                np.logical_or.at(t, (rows, node), (w > 0) | (np.abs(gr).sum(1) > 0))
            T.append(t)
        share = (T[2] & (T[0] | T[1])).any(1)
        apart = ~share if apart is None else apart & ~share
        o, os_ = f(d), fs(d2)
        exp, gss = R.step([g], [(0, 0, kernel)], [{n[:-1]: d[n] for n in d if n[:-1] in ("pos", "vel", "mass", "vol", "vol0", "stress", "F", "Bp")} | dict(L=np.zeros((B, 3, 3, 3)))],
                          dt, scheme, opt, law=lambda b, t: R.law_elastic(b, t, 40.0, .2), cutoff=1e-12)
        near = np.abs(d["pos0"][:, 2]).max(1) < 1e5   # node mass of far points: exactly the residents'
        rec.close("gridmass", "grid mass with a stray point", o["gmass0"], gss[0].m, 1e-11, case=case)
        rec.close("gridmom", "grid momentum with a stray point", o["gmom0"], gss[0].p, 1e-9, case=case)
        rec.close("gridforce", "grid force with a stray point", o["gforce0"], gss[0].f, 1e-8, 1e-10, case=case)
        for n in ("pos", "vel", "F", "L", "vol", "stress"):
            got = o[n + "0"][:, :2]
            rec.close("disturbed", "a point that shares no node with a stray point is disturbed by it (%s)" % n, got, os_[n + "0"][ir], 1e-10, 1e-10, case=case, mask=apart)
            if n != "L" or True:
                rec.close("step", "step with a stray point (%s)" % n, got, exp[0][n][:, :2], 1e-8, 1e-9, case=case)
            if not np.isfinite(o[n + "0"]).all():
                rec.true("finite", "a stray point becomes not-a-number (%s)" % n, np.isfinite(o[n + "0"]), o[n + "0"], case=case)
        rec.close("mass", "mass of points", o["mass0"], d["mass0"], 0, case=case)
        rec.count(states=B, transitions=B, traces=B, evals=B, distinct=B, apart=int(apart.sum()))
        for dd, oo in ((d, o), (d2, os_)):
            for n in ("pos", "vel", "F", "vol", "stress") + (("Bp",) if scheme != "usl" else ()):
                dd[n + "0"] = np.array(oo[n + "0"])
    rec.sample(**case(0))
