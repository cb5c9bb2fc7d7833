"""C03 uniform translation and uniform gravity."""
PROPERTY = "C03"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real solver steps, closed-form oracle"
RULE = ("initial states: every placement of 1-3 points on a sub-cell lattice x every common velocity; transitions: real steps with two time "
        "steps; BFS over all step sequences up to the depth; a state counts once per rounded position/velocity")
ASSUMPTIONS = ["JAX CPU float64", "small-mass cutoff set below the smallest kernel weight of the alphabet"]
NOTE = "closed form v=v0+n*g*dt is the oracle; interior placements; depth-bounded histories"
BOUNDS = {"quick": dict(points="1-3", depth=3, dts=2), "thorough": dict(points="1-3", depth=6, dts=2)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                for g in (0, 1):
                    for law in (("elastic", "newton") if dim == 2 or tier == "thorough" else ("elastic",)):
                        out.append(("explore", dict(scheme=scheme, kernel=kernel, dim=dim, gravity=g, law=law, tier=tier)))
    return out


def explore(cfg, rec):
    from mc.env import np, jnp
    from mc import scenes as S
    from mc.bfs import bfs
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    h = 0.25
    org = (0.5, -1.0, 2.0)[:dim]
    sizes = [1, 2]
    g = (np.array([.5, -2.0, 1.0])[:dim] if cfg["gravity"] else np.zeros(dim))
    kw = dict(usl=dict(alpha=.6), usl_aflip=dict(alpha=.9, small_mass_cutoff=1e-16))[scheme]
    law = ("elastic", dict(E=50.0, nu=.2, requires_F_reset=True)) if cfg["law"] == "elastic" else ("newton", dict(K=50.0, viscosity=1.0, beta=7.0, rho0=64.0 if dim == 3 else 16.0))
    ms = S.Multi(dim=dim, scheme=scheme, sizes=sizes, kernel=kernel, h=h, origin=org, law=law, solver_kw=kw, probe=False,
                 setup=(lambda b: b.add_gravity(gravity=jnp.array(g))) if cfg["gravity"] else None)
    A = [0, .3, .5, .75] + ([.125, .9] if th else []) if dim == 2 else [0, .3, .5]
    B = [0.0, .7, 1.6] if dim == 2 else [0.0, .7]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[B] * dim)
    Vx = [0, 1.0, -.5]
    V = S.lattice(*[Vx] * dim) if dim == 2 else np.array([[0, 0, 0], [1, 0, 0], [0, -.5, 0], [0, 0, 1], [1, 1, -.5], [-.5, 1, .25]])
    # slow and fast motions, and motions with one small component
    t = np.array([1.0, -.7, .4])[:dim]
    V = np.concatenate([V, [1e-5 * t, 1e-9 * t, t * np.array([1.0, 1e-5, 1e-7])[:dim], t * np.array([1e-6, 1.0, 1e-3])[:dim]]])
    i1, i2, iv = S.product_idx(len(P1), len(P2), len(V))
    n = len(i1)
    vol = h ** dim
    o = np.array(org)
    # slow points stay off the faces, where nodes lighter than the cutoff are left out by design
    o = o + .06 * h * (iv >= len(V) - 4)[:, None]
    p1, p2 = o + P1[i1] * h, o + P2[i2] * h
    p3 = o + (3.5 - P1[i1]) * h
    v = V[iv][:, None]
    d = ms.init(n, pos0=p1[:, None], pos1=np.stack([p2, p3], 1), vel0=v, vel1=np.repeat(v, 2, 1))
    for i in (0, 1):
        d["vol%d" % i][:] = vol; d["vol0%d" % i][:] = vol
    d["t"] = np.zeros(n)
    d["vinit"] = V[iv]

    def step(dt):
        f = ms.stepper(dt, chunk=3000 if dim == 3 else 20000)
        return lambda s: {**f(s), "t": s["t"] + dt}

    def check(pre, ev, post, case):
        dt = float(ev.split("=")[1])
        for i in range(2):
            ve = pre["vel%d" % i] + g * dt
            want = pre["vinit"][:, None] + g * post["t"][:, None, None]
            size = np.abs(want).max((1, 2), keepdims=True)      # relative to the speed, however slow
            rec.close("velocity", "velocity is not v0 + g*t", post["vel%d" % i], np.broadcast_to(want, ve.shape), 1e-12 + 1e-8 * size, 0, case)
            rec.close("position", "position did not move by v*dt", post["pos%d" % i] - pre["pos%d" % i], dt * ve, 2e-14 + 1e-8 * dt * size, 0, case)
            rec.close("gradient", "a uniformly moving body sees a velocity gradient", post["L%d" % i], 0 * post["L%d" % i], 1e-6, 0, case)
            rec.close("F", "a uniformly moving body deforms", post["F%d" % i], np.broadcast_to(np.eye(3), post["F%d" % i].shape), 1e-8, 0, case)
            rec.close("volume", "a uniformly moving body changes volume", post["vol%d" % i], 0 * post["vol%d" % i] + vol, 1e-9, 0, case)
            rec.close("stress", "a uniformly moving body develops stress", post["stress%d" % i], 0 * post["stress%d" % i], 1e-6, 0, case)
            if ms.aff:
                rec.close("affine", "a uniformly moving body develops affine velocity", post["Bp%d" % i], 0 * post["Bp%d" % i], 1e-6, 0, case)
        rec.count(traces=len(pre["t"]))
        rec.sample(pos0=pre["pos0"][-1], vel0=pre["vel0"][-1], gravity=g, event=ev, vel_after=post["vel0"][-1])
    keys = ["pos0", "pos1", "vel0", "t"]
    bfs(rec, d, [("dt=0.01", step(.01)), ("dt=0.003", step(.003))], 5 if th else 3, keys, check, max_states=60000 if th else (20000 if dim == 2 else 8000))
