"""C18 local damping."""
PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of sign patterns of force and velocity on the real step (forces observed before and after damping by a probing user force), and of force programs compared with an independent step model"
RULE = ("states: every sign/zero/tiny pattern of point velocity x every sign/zero pattern of gravity x stress sign patterns x damping coefficients x placements (on a node, on an edge, inside a cell); "
        "programs: every tuple of up to two (thorough: three) forces of {gravity, damping} x {grid, points} x target sub-lists over two bodies on one or two grids; non-trivial = distinct (program, state)")
ASSUMPTIONS = ["JAX CPU float64", "sign of a grid velocity is that of the grid momentum"]
NOTE = "the force change caused by damping is observed directly on every node and must equal -alpha |f| sign(v) component by component"
BOUNDS = {"quick": dict(forces=2, bodies=2), "thorough": dict(forces=3, bodies=2)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for kernel in (("linear", "cubic") if tier == "quick" else ("linear", "quadratic", "cubic")):
                out.append(("rule", dict(scheme=scheme, dim=dim, kernel=kernel, tier=tier)))
            out.append(("points_rule", dict(scheme=scheme, dim=dim, tier=tier)))
        for shared in (0, 1):
            parts = 3 if tier == "quick" else 10
            for k in range(parts):
                out.append(("programs", dict(scheme=scheme, shared=shared, part=k, of=parts, tier=tier)))
    return out


def rule(cfg, rec):
    from mc.env import np, jnp, eqx, jax
    from mc import scenes as S, refmpm as R
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    h, dt = .25, 2e-3
    opt = dict(use_dynamic_alpha=False, alpha=.9)
    pr = []

    def setup(b):
        b.add_gravity(gravity=(0.0,) * dim if dim == 2 else jnp.zeros(3))
        pr.append(S.add_probe(b))
        b.add_damping(alpha=.5)
        pr.append(S.add_probe(b))
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2], kernel=cfg["kernel"], h=h, setup=setup, probe=False, dt=dt, padding=2,
                solver_kw={} if cfg["scheme"] == "usl" else opt)
    V = [-2.0, 0.0, 1e-12, 3.0]
    G = [-9.0, 0.0, 4.0]
    VEL = S.lattice(*[V] * dim)
    GR = S.lattice(*[G] * dim) if dim == 2 or th else np.array([[a, b, c] for a in G for b in G for c in G if (a, b, c).count(0.0) != 1])
    ALPHA = np.array([0.0, .3, 1.0])
    PL = np.array([[1., 1, 1], [1.5, 2, 1], [1.5, 1.25, 1.75]])[:, :dim]
    SIG = [np.zeros((3, 3)), np.array([[5., 2, 0], [2, -3, 1], [0, 1, 4]])]
    iv, ig, ia, ip, isg = S.product_idx(len(VEL), len(GR), len(ALPHA), len(PL), len(SIG))
    if not th and dim == 3:
        keep = (iv + ig + ia + ip + isg) % 4 == 0
        iv, ig, ia, ip, isg = [q[keep] for q in (iv, ig, ia, ip, isg)]
    B = len(iv)
    x = np.stack([PL[ip], np.broadcast_to([2.0] * dim, PL[ip].shape)], 1) * h
    v = np.stack([VEL[iv], -VEL[iv][:, ::-1]], 1)
    s = np.stack([np.array(SIG)[isg], np.array(SIG)[isg] * -.5], 1)
    d = m.init(B, pos0=x, vel0=v, stress0=s, mass0=np.array([2.0, .5]))
    g, al = GR[ig], ALPHA[ia]

    def one(dd, gg, aa):
        st = S.put(m.put(dd), dt=dt)
        fs = list(st.mechanics.forces)
        fs[0] = eqx.tree_at(lambda q: q.gravity, fs[0], gg)
        fs[2] = eqx.tree_at(lambda q: q.alpha, fs[2], aa)
        st = m.solver(eqx.tree_at(lambda q: q.mechanics.forces, st, tuple(fs)))
        a, b = st.mechanics.forces[pr[0]], st.mechanics.forces[pr[1]]
        return dict(m.out(st), fa=a.force[0], ma=a.mass[0], pa=a.moment[0], fb=b.force[0], mb=b.mass[0], pb=b.moment[0], pn=b.moment_nt[0])
    f = jax.jit(jax.vmap(one))
    outs = []
    C = 6000
    for a in range(0, B, C):
        n = min(C, B - a)
        want = C if B > C else n
        pad = lambda q: np.concatenate([q[a:a + n], np.repeat(q[-1:], want - n, 0)])
        r = f({k: jnp.asarray(pad(q)) for k, q in d.items()}, jnp.asarray(pad(g)), jnp.asarray(pad(al)))
        outs.append({k: np.asarray(q)[:n] for k, q in r.items()})
    o = {k: np.concatenate([q[k] for q in outs]) for k in outs[0]}
    case = lambda q: dict(v=v[q].tolist(), gravity=g[q].tolist(), alpha=float(al[q]), place=PL[ip[q]].tolist(), stress=int(isg[q]))
    df = o["fb"] - o["fa"]
    sc = np.abs(o["fa"]).max()
    rec.close("rule", "damping is not -alpha*|force|*sign(velocity)", df, -al[:, None, None] * np.abs(o["fa"]) * np.sign(o["pa"]), 1e-12 * sc, 1e-10, case=case)
    rec.true("power", "damping feeds power", df * o["pa"] <= 1e-13 * sc, got=df, case=case)
    rec.true("rest", "damping acts on a resting or unforced component", (df == 0) | ((o["fa"] != 0) & (o["pa"] != 0)), got=df, case=case)
    rec.true("zero", "a zero coefficient changes the force", (al[:, None, None] > 0) | (df == 0), got=df, case=case)
    rec.close("other", "damping changes grid mass", o["mb"], o["ma"], 0, case=case)
    rec.close("other", "damping changes grid momentum", o["pb"], o["pa"], 0, case=case)
    rec.close("update", "the damped force is not the one that moves the grid", o["pn"], o["pa"] + dt * o["fb"], 1e-12 * max(1, sc), 1e-12, case=case)
    # whole step against the model
    grid = m.refgrid()
    body = m.refbodies(d)
    gb = [("gravity", g[:, None, :], [0]), ("damping", al[:, None, None], [0])]
    nb, gs = R.step([grid], [(0, 0, cfg["kernel"])], body, dt, cfg["scheme"], opt if cfg["scheme"] != "usl" else {}, gb)
    # a momentum that is zero up to round-off has no sign to compare
    same = ((np.sign(gs[0].p) == np.sign(o["pa"])) | (np.abs(gs[0].p) > 1e-9)).all((1, 2))
    for n in ("pos", "vel"):
        rec.close("step", "a damped step gives the wrong %s" % n, o[n + "0"], nb[0][n], 1e-9, 1e-9, case=case, mask=same)
    rec.count(signs_comparable=int(same.sum()))
    rec.count(states=2 * B, transitions=B, traces=B, evals=B, distinct=B)
    rec.sample(**case(B // 2))


def points_rule(cfg, rec):
    """Point mode: gravity on the points, then damping on the points."""
    from mc.env import np, jnp, eqx, jax
    from mc import scenes as S, refmpm as R
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    h, dt = .25, 2e-3
    opt = dict(use_dynamic_alpha=False, alpha=.9)

    def setup(b):
        b.add_gravity(gravity=(0.0,) * dim if dim == 2 else jnp.zeros(3), is_apply_on_grid=False)
        b.add_damping(alpha=.5, is_apply_on_grid=False)
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2], kernel="linear", h=h, setup=setup, probe=False, dt=dt, padding=2, solver_kw={} if cfg["scheme"] == "usl" else opt)
    VEL = S.lattice(*[[-2.0, 0.0, 1e-12, 3.0]] * dim)
    GR = S.lattice(*[[-9.0, 0.0, 4.0]] * dim)
    ALPHA = np.array([0.0, .3, 1.0])
    iv, ig, ia = S.product_idx(len(VEL), len(GR), 3)
    B = len(iv)
    v = np.stack([VEL[iv], -.5 * VEL[iv][:, ::-1]], 1)
    x = np.array([[1.0, 1.0, 1.0], [2.5, 2.25, 2.75]])[:, :dim] * h   # one on a node, one inside a far cell
    d = m.init(B, pos0=x, vel0=v, mass0=np.array([2.0, .5]))
    g, al = GR[ig], ALPHA[ia]

    def one(dd, gg, aa):
        st = S.put(m.put(dd), dt=dt)
        fs = list(st.mechanics.forces)
        fs[0] = eqx.tree_at(lambda q: q.gravity, fs[0], gg)
        fs[1] = eqx.tree_at(lambda q: q.alpha, fs[1], aa)
        st = m.solver(eqx.tree_at(lambda q: q.mechanics.forces, st, tuple(fs)))
        return m.out(st)
    o = {k: np.asarray(q) for k, q in jax.jit(jax.vmap(one))({k: jnp.asarray(q) for k, q in d.items()}, jnp.asarray(g), jnp.asarray(al)).items()}
    case = lambda q: dict(v=v[q].tolist(), gravity=g[q].tolist(), alpha=float(al[q]))
    acc = g[:, None] - al[:, None, None] * np.abs(g[:, None]) * np.sign(v)
    rec.close("points", "gravity and damping on points give the wrong velocity", o["vel0"], v + dt * acc, 1e-11, 1e-10, case=case)
    rec.true("power", "damping of points speeds one up", np.abs(o["vel0"]) <= np.abs(v + dt * g[:, None]) + dt * 9 * 1e-9 + np.where(v * g[:, None] < 0, dt * np.abs(g[:, None]), 0), got=o["vel0"], case=case)
    nb, _ = R.step([m.refgrid()], [(0, 0, "linear")], m.refbodies(d), dt, cfg["scheme"], opt if cfg["scheme"] != "usl" else {},
                   [("gravity_pts", g[:, None, :], [0]), ("damping_pts", al[:, None, None], [0])])
    for n in ("pos", "vel"):
        rec.close("step", "a step with damped points gives the wrong %s" % n, o[n + "0"], nb[0][n], 1e-9, 1e-9, case=case)
    rec.count(states=2 * B, transitions=B, traces=B, evals=B, distinct=B)
    rec.sample(**case(B // 2))


def programs(cfg, rec):
    """Tuples of gravity and damping forces with explicit targets, two bodies, one or two grids: two steps against the model."""
    import itertools
    from mc.env import np, jnp, hdx
    from mc import refmpm as R
    th = cfg["tier"] == "thorough"
    h, dt = .25, 4e-3
    shared = bool(cfg["shared"])
    opt = {} if cfg["scheme"] == "usl" else dict(use_dynamic_alpha=False, alpha=.9)
    x = [np.array([[.61, .55], [.8, .7]]), np.array([[.45, .9]])]
    v = [np.array([[.5, .2], [-.3, .1]]), np.array([[1., -1.]])]
    mass = [np.array([1.0, 3.0]), np.array([.5])]
    st = [np.array([[[9., 2, 0], [2, -4, 0], [0, 0, 1.]], [[-3., 1, 0], [1, 6, 0], [0, 0, 2.]]]), np.array([[[5., -2, 0], [-2, 7, 0], [0, 0, 1.]]])]
    gval = [np.array([1.0, -9.0]), np.array([-4.0, 2.5]), np.array([.3, 30.0])]
    aval = [.25, .6, .1]
    grid = R.Grid((0., 0.), (1.5, 1.5), h, 2)
    ng = 1 if shared else 2
    goals = {"g": [s for r in range(1, ng + 1) for s in itertools.combinations(range(ng), r)], "p": [(0,), (1,), (0, 1)]}
    calls = [(k, w, s) for k in ("gravity", "damping") for w in "gp" for s in goals[w]]
    progs = [(a,) for a in calls] + list(itertools.product(calls, repeat=2))
    if th:
        progs += list(itertools.product(calls, repeat=3))
    elif not shared:
        progs = [p for p in progs if len(p) == 1 or p[0][:2] != p[1][:2] or len(p[0][2]) == 1]
    for pr in progs[cfg["part"]::cfg["of"]]:
        b = hdx.SimBuilder()
        for i in range(ng):
            b.add_grid(origin=(0., 0.), end=(1.5, 1.5), cell_size=h, padding=2)
        for i in range(2):
            b.add_material_points(position_stack=jnp.array(x[i]), velocity_stack=jnp.array(v[i]), mass_stack=jnp.array(mass[i]), volume_stack=jnp.full(len(x[i]), .02), stress_stack=jnp.array(st[i]))
        b.add_constitutive_law(law=hdx.LinearElasticLaw(E=0.0, nu=0.0, requires_F_reset=False))
        for i in range(2):
            b.couple(p_idx=i, g_idx=0 if shared else i, c_idx=0, shapefunction="linear")
        seq = []
        for k, (kind, where, ids) in enumerate(pr):
            kw = dict(is_apply_on_grid=where == "g", **({"g_idx_list": list(ids)} if where == "g" else {"p_idx_list": list(ids)}))
            if kind == "gravity":
                b.add_gravity(gravity=jnp.array(gval[k]), **kw)
            else:
                b.add_damping(alpha=aval[k], **kw)
            seq.append((kind + ("" if where == "g" else "_pts"), gval[k] if kind == "gravity" else aval[k], list(ids)))
        b.set_solver(scheme=cfg["scheme"], **opt)
        s, state = b.build(dt=dt)
        B = [dict(pos=x[i][None], vel=v[i][None], mass=mass[i][None], vol=np.full((1, len(x[i])), .02), vol0=np.full((1, len(x[i])), .02), stress=st[i][None],
                  F=np.tile(np.eye(3), (1, len(x[i]), 1, 1)), L=np.zeros((1, len(x[i]), 3, 3)), Bp=np.zeros((1, len(x[i]), 3, 3))) for i in range(2)]
        steps = 1 if len(pr) > 1 and not th else 2
        for k in range(steps):
            state = s(state)
            B, _ = R.step([grid] * ng, [(i, 0 if shared else i, "linear") for i in range(2)], B, dt, cfg["scheme"], opt, seq,
                          law=lambda q, dt: q["stress"])
            for i, mp in enumerate(state.world.material_points):
                for nm, a, e in (("position", mp.position_stack, B[i]["pos"][0]), ("velocity", mp.velocity_stack, B[i]["vel"][0])):
                    if not np.allclose(np.asarray(a), e, rtol=1e-9, atol=1e-9):
                        rec.fail("program", "forces act differently than assigned (%s of body %d after step %d)" % (nm, i, k + 1), program=pr, got=np.asarray(a), expected=e)
        rec.count(states=steps + 1, transitions=steps, traces=steps, evals=steps, distinct=1, programs=1)
    rec.sample(program=progs[-1])
