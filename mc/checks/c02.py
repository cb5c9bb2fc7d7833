"""C02 linear momentum balance."""
PROPERTY = "C02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real solver steps, impulse-momentum balance on every transition"
NOTE = "every transition is a step of the real solver; impulses are known exactly; interior placements, depth-bounded histories"
RULE = ("initial states: placements x velocities x stresses x affine matrices x volumes of 1-3 points in 1-2 bodies; transitions: "
        "real steps (two time steps) with a constant-acceleration user force and gravity; non-trivial = distinct after rounding")
ASSUMPTIONS = ["JAX CPU float64", "grid arrays observed through a user force hook", "points at least a kernel support away from the padded grid edge",
               "uniform blend (support-dependent blending off, speed limit not reached) where point momentum is compared"]
BOUNDS = {"quick": dict(points="1-3", depth=2), "thorough": dict(points="1-3", depth=4)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                for bodies in (1, 2):
                    out.append(("explore", dict(scheme=scheme, kernel=kernel, dim=dim, bodies=bodies, tier=tier)))
                out.append(("pointforce", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier)))
    return out


CUT = dict(usl=1e-12, usl_aflip=1e-7)
SYM = lambda np, a: np.array([[a[0], a[3], a[5]], [a[3], a[1], a[4]], [a[5], a[4], a[2]]], dtype=float)


def explore(cfg, rec):
    from mc.env import np, jnp
    from mc import scenes as S
    from mc.bfs import bfs
    dim, kernel, scheme, nb = cfg["dim"], cfg["kernel"], cfg["scheme"], cfg["bodies"]
    th = cfg["tier"] == "thorough"
    h = 0.25
    sizes = [2] if nb == 1 else [1, 2]
    al = dict(usl=dict(alpha=.7), usl_aflip=dict(alpha=.7, use_dynamic_alpha=False, cfl_limit=1e9))[scheme]
    grav = np.array([1.0, -3.0, 2.0])[:dim]
    ms = S.Multi(dim=dim, scheme=scheme, sizes=sizes, kernel=kernel, h=h, solver_kw=al,
                 setup=lambda b: b.add_gravity(gravity=jnp.array(grav)))
    A = [.0, .3, .5, 1 - 1e-6] + ([.75, .5 - 1e-6] if th else []) if dim == 2 else [.0, .3, .5]
    A2 = [.1, .5, 1.0, 1.6] if dim == 2 else [.1, 1.0]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[A2] * dim)
    stresses = [SYM(np, a) for a in ([0, 0, 0, 0, 0, 0], [1, 2, 3, 0, 0, 0], [5, -4, 1, 2, -3, 1], [0, 0, 0, 7, 0, 0])]
    affs = [np.zeros((3, 3)), np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 0.]]), np.array([[1, 2, -1], [.5, -3, 4], [2, 1, 1.]])]
    if dim == 2:
        affs = [a * np.outer([1, 1, 0], [1, 1, 0]) for a in affs]
    if scheme == "usl":
        affs = affs[:1]
    V = [np.zeros(dim), np.array([1.0, -.5, .25])[:dim], np.array([-2.0, 1.0, 3.0])[:dim]]
    i1, i2, js, ja, jv = S.product_idx(len(P1), len(P2), len(stresses), len(affs), len(V))
    n = len(i1)
    p1, p2 = P1[i1] * h, P2[i2] * h
    s1 = np.array(stresses)[js]; s2 = np.array(stresses)[(js + 1) % len(stresses)]
    a1 = np.array(affs)[ja]; a2 = np.array(affs)[(ja + 1) % len(affs)]
    v1 = np.array(V)[jv]; v2 = np.array(V)[(jv + 1) % 3]
    if nb == 1:
        kw = dict(pos0=np.stack([p1, p2], 1), stress0=np.stack([s1, s2], 1), vel0=np.stack([v1, v2], 1), mass0=np.tile([1., 2.5], (n, 1)), vol0=np.tile([.02, .03], (n, 1)))
        if ms.aff: kw["Bp0"] = np.stack([a1, a2], 1)
    else:
        p3 = .5 * (p1 + p2)
        kw = dict(pos0=p1[:, None], stress0=s1[:, None], vel0=v1[:, None], mass0=np.full((n, 1), 1.), vol0=np.full((n, 1), .02),
                  pos1=np.stack([p2, p3], 1), stress1=np.stack([s2, s1], 1), vel1=np.stack([v2, v1], 1), mass1=np.tile([2.5, .5], (n, 1)), vol1=np.tile([.03, .01], (n, 1)))
        if ms.aff: kw.update(Bp0=a1[:, None], Bp1=np.stack([a2, a1], 1))
    init = ms.init(n, **{k: v for k, v in kw.items() if not k.startswith("vol")})
    for i in range(nb):
        init["vol%d" % i] = kw["vol%d" % i]; init["vol0%d" % i] = kw["vol%d" % i].copy()

    def check(pre, ev, post, case):
        dt = float(ev.split("=")[1])
        M = np.concatenate([pre["mass%d" % i] for i in range(nb)], 1)
        Pm = lambda d: sum((pre["mass%d" % i][:, :, None] * d["vel%d" % i]).sum(1) for i in range(nb))
        scale = 1e-8
        rec.close("grid-momentum", "grid momentum differs from the points' momentum", post["gmom0"].sum(1), Pm(pre), scale, 1e-9, case)
        # the grid force seen before integration includes gravity
        rec.close("net-force", "net grid force differs from the external force", post["gforce0"].sum(1), M.sum(1)[:, None] * grav, 1e-7, 1e-9, case)
        rec.close("integration", "grid momentum after integration is not momentum + force*dt", post["gmomn0"], post["gmom0"] + dt * post["gforce0"], 1e-9, 1e-9, case)
        # documented small-mass cutoff: nodes with less mass are excluded from the transfer back
        small = (post["gmass0"] <= CUT[scheme] * 1.000001)[..., None]
        lost = (np.abs(post["gmomn0"]) * small + np.abs(post["gmom0"]) * small).sum(1)
        rec.close("point-momentum", "the points' momentum changed by something other than the external impulse", Pm(post),
                  Pm(pre) + M.sum(1)[:, None] * grav * dt, 1e-8 + 2 * lost, 1e-9, case)
        rec.count(traces=len(M))
        rec.sample(pos0=pre["pos0"][0], stress0=pre["stress0"][0], before=Pm(pre)[0], after=Pm(post)[0], event=ev)
    keys = [k for k in init if k[:3] in ("pos", "vel", "str")]
    dts = (.002, .01)
    # dt is part of the alphabet only while points stay inside the region (speeds <= 4, depth <= 4)
    bfs(rec, init, [("dt=%g" % t, ms.stepper(t, chunk=4000 if dim == 3 else 20000)) for t in dts], 2 if not th else 3, keys, check,
        max_states=(15000 if dim == 2 else 6000) * (6 if th else 1))


def pointforce(cfg, rec):
    """External forces put on the points by a user force arrive on the grid in full."""
    from mc.env import np, jnp, eqx, hdx, jax
    from mc import scenes as S
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    h = 0.25

    class Push(hdx.Force):
        def apply_pre_p2g(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
            mps = list(world.material_points)
            # acceleration-like external force encoded in the initial velocity tag: f = 3*m*(v+1)
            mps = [eqx.tree_at(lambda m: m.force_stack, m, m.force_stack + 3.0 * m.mass_stack[:, None] * (m.velocity_stack + 1.0)) for m in mps]
            return eqx.tree_at(lambda w: w.material_points, world, tuple(mps)), mechanics, sim_cache

    def setup(b):
        b.force_logics.append(Push()); b.force_states.append(None)
    al = dict(usl=dict(alpha=.4), usl_aflip=dict(alpha=.4, use_dynamic_alpha=False, cfl_limit=1e9, small_mass_cutoff=1e-30))[scheme]
    ms = S.Multi(dim=dim, scheme=scheme, sizes=[1, 2], kernel=kernel, h=h, solver_kw=al, setup=setup)
    A = [0, .4, .5, 1 - 1e-6]
    P1 = 1 + S.lattice(*[A] * dim)
    P2 = 1 + S.lattice(*[[.25, 1.5]] * dim)
    V = S.lattice(*[[-1, 0, 2]] * dim)
    # units of mass and velocity are the user's choice: light and heavy, slow and fast bodies
    MU = np.array([1.0, 1e-7, 1e-4, 1e5])
    VU = np.array([1.0, 1e-9, 1e-3, 50.0])
    i1, i2, iv = S.product_idx(len(P1), len(P2), len(V))
    n = len(i1)
    unit = (MU[np.arange(n) % 4], VU[np.arange(n) // 4 % 4])
    mu, vu = unit[0][:, None, None], unit[1][:, None, None]
    d = ms.init(n, pos0=P1[i1][:, None] * h, vel0=V[iv][:, None] * vu, pos1=np.stack([P2[i2], P1[i1]], 1) * h,
                vel1=np.stack([V[(iv + 1) % len(V)], V[(iv + 2) % len(V)]], 1) * vu, mass0=np.ones((n, 1)) * mu[:, 0], mass1=np.tile([2., .5], (n, 1)) * mu[:, 0])
    dt = .004
    o = ms.stepper(dt, chunk=4000)(d)
    ext = sum((3 * d["mass%d" % i][:, :, None] * (d["vel%d" % i] + 1)).sum(1) for i in (0, 1))
    mom = lambda x: sum((d["mass%d" % i][:, :, None] * x["vel%d" % i]).sum(1) for i in (0, 1))
    case = lambda i: dict(pos0=d["pos0"][i].tolist(), pos1=d["pos1"][i].tolist(), vel0=d["vel0"][i].tolist(), vel1=d["vel1"][i].tolist(), mass0=d["mass0"][i].tolist())
    mu, vu = mu[:, 0], np.maximum(vu[:, 0], 1.0)
    rec.close("ext-force", "external point forces did not arrive on the grid in full", o["gforce0"].sum(1) / mu, ext / mu, 1e-8 * vu, 1e-9, case)
    small = (o["gmass0"] <= dict(usl=1e-12, usl_aflip=1e-30)[scheme] * 1.000001)[..., None]
    lost = ((np.abs(o["gmomn0"]) + np.abs(o["gmom0"])) * small).sum(1)
    rec.close("ext-impulse", "momentum did not change by the external impulse", mom(o) / mu, (mom(d) + dt * ext) / mu, 1e-8 * vu + 2 * lost / mu, 1e-9, case)
    # a second step must not see leftover forces of the first
    o2 = ms.stepper(dt, chunk=4000, steps=2)(d)
    o1b = ms.stepper(dt, chunk=4000)({k: v for k, v in o.items() if k[:-1] in ms.IN} | {k: d[k] for k in d if k.startswith("vol0")})
    for k in ("vel0", "vel1", "pos0", "pos1"):
        rec.close("carry-over", "forces of a previous step act again", o2[k], o1b[k], 1e-9, 1e-9, case)
    rec.count(states=n, transitions=3 * n, traces=n, evals=3 * n, distinct=n)
    rec.sample(case=case(0), ext=ext[0])
