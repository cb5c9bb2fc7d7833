"""C17 gravity."""
PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of gravity programs (modes x targets, up to three forces) and of scene states; exact impulse oracle and mode equivalence over histories"
RULE = ("programs: every tuple of one, two (thorough: three) gravity forces, each in {grid, points} mode on every sub-list of the two or three bodies, on separate or shared grids; states: lattice of "
        "placements x masses x velocities x gravity vectors; non-trivial = distinct (program, state)")
ASSUMPTIONS = ["JAX CPU float64", "small-mass cutoff below the smallest loaded node, velocity limit not reached"]
NOTE = "velocity change must equal dt times the sum of the assigned accelerations exactly; both modes must give the same history"
BOUNDS = {"quick": dict(forces=2, bodies=3, steps=3), "thorough": dict(forces=3, bodies=3, steps=4)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                out.append(("states", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier)))
        for shared in (0, 1):
            parts = 4 if tier == "quick" else 12
            for k in range(parts):
                out.append(("programs", dict(scheme=scheme, shared=shared, part=k, of=parts, tier=tier)))
    return out


OPT = dict(use_dynamic_alpha=True, alpha=.9, cfl_limit=100.0, small_mass_cutoff=1e-13)


def states(cfg, rec):
    """One body: both modes add exactly g*dt, whatever mass, placement, velocity, stress; histories of the modes agree."""
    from mc.env import np, jnp, eqx, jax
    from mc import scenes as S
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    dt, h = 4e-3, .25
    kw = {} if cfg["scheme"] == "usl" else OPT
    law = ("elastic", dict(E=30.0, nu=.2, requires_F_reset=False))

    def scene(mode):
        def setup(b):
            if mode is not None:
                b.add_gravity(gravity=(0.0,) * dim if dim == 2 else jnp.zeros(3), is_apply_on_grid=mode)
        return S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[3], kernel=cfg["kernel"], h=h, law=law, solver_kw=kw, setup=setup, probe=False)
    A = S.lattice(*[[1.0, 1.5, 1.27] if dim == 2 else [1.0, 1.4]] * dim)
    G = np.array([[0, -9.81, 0], [3., 0, 0], [0, 0, 5.], [-1.5, 2.5, 4.0], [0, 0, 0], [0, -1e-3, 0], [100., -200., 50.]])[:, :dim]
    MS = np.array([[1., 1, 1], [1e-3, 1, 1e3], [2.5, .1, 7]])
    ia, ib, ig, im = S.product_idx(len(A), 3 if not th else 9, len(G), len(MS))
    offs = S.lattice(*[[.2, .45, .77]] * dim)
    x = np.stack([A[ia], A[(ia + ib + 1) % len(A)] + offs[(3 * ib) % len(offs)] * h, A[(ia * 2 + ib) % len(A)] + .5 * h], 1) * 1.0
    x = np.concatenate([A[ia][:, None], (A[(ia + ib + 1) % len(A)] + offs[(3 * ib) % len(offs)])[:, None], (A[(ia * 2 + ib) % len(A)] + .5)[:, None]], 1) * h
    B = len(x)
    v = np.tile(np.array([[1.0, -.5, .2], [-.7, .3, .9], [.4, .8, -.6]])[:, :dim], (B, 1, 1)) * (1 + (ib % 3))[:, None, None]
    s = np.tile(np.array([[[3., 1, 0], [1, -2, 0], [0, 0, 1]]] * 3), (B, 1, 1, 1))
    g = G[ig]
    m0 = scene(None)
    d = m0.init(B, pos0=x, vel0=v, stress0=s, mass0=MS[im])
    case = lambda q: dict(x_cells=(x[q] / h).tolist(), gravity=g[q].tolist(), mass=MS[im[q]].tolist())

    def run(m, mode):
        def one(dd, gg):
            st = m.put(dd)
            st = S.put(st, dt=dt)
            if mode is not None:
                fs = list(st.mechanics.forces)
                fs[0] = eqx.tree_at(lambda q: q.gravity, fs[0], gg)
                st = eqx.tree_at(lambda q: q.mechanics.forces, st, tuple(fs))
            st = S.strong(st)
            hist = []
            return jax.lax.scan(lambda c, _: ((lambda n: (S.strong(n), m.out(n)))(m.solver(c))), st, None, length=3)[1]
        return jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))({k: jnp.asarray(q) for k, q in d.items()}, jnp.asarray(g)))
    o0, og, op = run(m0, None), run(scene(True), True), run(scene(False), False)
    for name, o in (("grid", og), ("points", op)):
        rec.close("impulse", "gravity on the %s does not add g*dt to every velocity" % name, o["vel0"][:, 0], o0["vel0"][:, 0] + dt * g[:, None], 1e-10, 1e-10, case=case)
        rec.close("position", "gravity on the %s moves points wrongly in its first step" % name, o["pos0"][:, 0], o0["pos0"][:, 0] + dt * dt * g[:, None], 1e-10, 1e-10, case=case)
        for n in ("L", "F", "stress", "vol"):
            rec.close("deforms", "uniform gravity on the %s deforms the body in one step (%s)" % (name, n), o[n + "0"][:, 0], o0[n + "0"][:, 0], 1e-8, 1e-10, case=case)
        rec.close("mass", "gravity changes mass", o["mass0"], np.broadcast_to(MS[im][:, None], o["mass0"].shape), 0, case=case)
    # later steps only of histories that start away from cell faces and with like masses: there round-off is not amplified
    fr = np.abs(x / h - np.round(x / h)).min((1, 2))
    smooth = (fr > .05) & (im != 1)
    for n in ("pos", "vel", "L", "F", "stress", "vol"):
        a, b_ = og[n + "0"], op[n + "0"]
        sc = max(1.0, np.abs(b_[:, 0]).max())
        rec.close("modes", "gravity on the grid and on the points move the body differently (%s)" % n, a[:, 0], b_[:, 0], 1e-9 * sc, 1e-9, case=case)
        sc = max(1.0, np.abs(b_[smooth]).max())
        rec.close("modes", "gravity on the grid and on the points move the body differently in later steps (%s)" % n, a[smooth], b_[smooth], 1e-8 * sc, 1e-8, case=lambda q: case(np.flatnonzero(smooth)[q]))
    rec.count(states=3 * B, transitions=9 * B, traces=2 * B, evals=3 * B, distinct=B)
    rec.sample(**case(0))


def programs(cfg, rec):
    """Assignments of several forces to three bodies (one of them free of any), separate or shared grids."""
    import itertools
    from mc.env import np, jnp, hdx
    from mc import scenes as S
    th = cfg["tier"] == "thorough"
    dim = 2
    h, dt = .25, 4e-3
    shared = bool(cfg["shared"])
    gval = [np.array([1.0, -9.0]), np.array([-4.0, 2.5]), np.array([.3, 30.0])]
    x = [np.array([[.61, .55], [.8, .7]]), np.array([[.45, .9]]), np.array([[.7, .66], [.52, .61], [.9, .88]])]
    v = [np.array([[.5, .2], [-.3, .1]]), np.array([[1., -1.]]), np.array([[0., .3], [.2, .2], [-.6, -.1]])]
    mass = [np.array([1.0, 3.0]), np.array([.5]), np.array([2.0, .1, 4.0])]

    def run(forces):
        b = hdx.SimBuilder()
        for i in range(1 if shared else 3):
            b.add_grid(origin=(0., 0.), end=(1.5, 1.5), cell_size=h, padding=2)
        for i in range(3):
            b.add_material_points(position_stack=jnp.array(x[i]), velocity_stack=jnp.array(v[i]), mass_stack=jnp.array(mass[i]), volume_stack=jnp.full(len(x[i]), .01))
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=30.0, nu=.2, requires_F_reset=False))
        for i in range(3):
            b.couple(p_idx=i, g_idx=0 if shared else i, c_idx=0, shapefunction="linear")
        for k, (mode, ids) in enumerate(forces):
            if mode == "grid":
                b.add_gravity(gravity=jnp.array(gval[k]), g_idx_list=list(ids), is_apply_on_grid=True)
            else:
                b.add_gravity(gravity=jnp.array(gval[k]), p_idx_list=list(ids), is_apply_on_grid=False)
        b.set_solver(scheme=cfg["scheme"], **({} if cfg["scheme"] == "usl" else OPT))
        s, st = b.build(dt=dt)
        st = s(st)
        return [(np.asarray(m.position_stack), np.asarray(m.velocity_stack), np.asarray(m.stress_stack), np.asarray(m.L_stack)) for m in st.world.material_points]
    base = run([])
    subs = [s for r in range(4) for s in itertools.combinations(range(3), r)]
    if shared:   # on one grid only all-or-none makes the exact impulse per body; point mode on sub-lists is compared with the model below
        single = [("grid", ()), ("grid", (0,)), ("points", (0, 1, 2)), ("points", ())]
    else:
        single = [("grid", s) for s in subs] + [("points", s) for s in subs]
    progs = [(a,) for a in single] + list(itertools.product(single, repeat=2))
    if th:
        red = [a for a in single if len(a[1]) in (1, 2)] if not shared else single
        progs += list(itertools.product(red, repeat=3))
    elif shared:
        progs += [t for t in itertools.product(single, repeat=3) if sum(len(a[1]) for a in t) in (3, 5, 7)]
    else:
        lone = [(m, s) for m in ("grid", "points") for s in ((0,), (1,), (2,), (0, 2))]
        progs += [t for t in itertools.product(lone, repeat=3) if len({a[0] for a in t}) == 1 or t[0][1] == t[2][1]]
        progs = progs[:16] + [p for p in progs[16:] if len(p) == 3 or (len(p[0][1]) in (1, 2) and len(p[1][1]) in (1, 3))]
    for pr in progs[cfg["part"]::cfg["of"]]:
        got = run(pr)
        for i in range(3):
            on = lambda mode, ids: ((0 in ids) if shared else (i in ids)) if mode == "grid" else (i in ids)
            g = sum([gval[k] for k, (mode, ids) in enumerate(pr) if on(mode, ids)], np.zeros(2))
            e = (base[i][0] + dt * dt * g, base[i][1] + dt * g, base[i][2], base[i][3])
            for nm, a, b_ in zip(("position", "velocity", "stress", "gradient"), got[i], e):
                if not np.allclose(a, b_, rtol=1e-9, atol=1e-9):
                    rec.fail("assignment", "gravity acts on body %d differently than assigned (%s)" % (i, nm), program=pr, got=a, expected=b_)
        rec.count(states=2, transitions=1, traces=1, evals=1, distinct=1, programs=1)
    # point mode on part of the bodies of one grid: momentum balance per program
    if shared and cfg["part"] == 0:
        P0 = sum((mass[i][:, None] * base[i][1]).sum(0) for i in range(3))
        for s in subs:
            got = run([("points", s)])
            P = sum((mass[i][:, None] * got[i][1]).sum(0) for i in range(3))
            e = P0 + dt * sum([mass[i].sum() * gval[0] for i in s], np.zeros(2))
            if cfg["scheme"] == "usl" and not np.allclose(P, e, atol=1e-10):
                rec.fail("impulse", "gravity on points of part of the bodies gives the wrong total impulse", program=s, got=P, expected=e)
            rec.count(states=2, transitions=1, traces=1, evals=1, distinct=1, programs=1)
    rec.sample(program=progs[-1])
