"""C06 velocity transfer, kinetic energy and blends."""
PROPERTY = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of point states x blends on the real transfer, plus BFS histories, energy monotonicity oracle"
RULE = ("every placement of 2-3 points x velocity assignment x mass assignment x blend; single steps compared with the pure limits, "
        "and histories of steps for the energy; non-trivial = velocities not all equal")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "the two pure limits are measured on the real code and compared with an independent interpolation"
BOUNDS = {"quick": dict(points="2-3", blends=5, depth=2), "thorough": dict(points="2-3", blends=9, depth=5)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                out.append(("blend", dict(scheme=scheme, kernel=kernel, dim=dim, tier=tier)))
    for kernel in ("linear", "quadratic", "cubic"):
        for dim in (2, 3):
            out.append(("dynamic", dict(kernel=kernel, dim=dim, tier=tier)))
    return out


def scene(cfg, alpha, **kw):
    from mc import scenes as S
    sk = dict(usl=dict(alpha=alpha), usl_aflip=dict(alpha=alpha, use_dynamic_alpha=False, cfl_limit=1e9, **kw))[cfg.get("scheme", "usl_aflip")]
    return S.Multi(dim=cfg["dim"], scheme=cfg.get("scheme", "usl_aflip"), sizes=[1, 2], kernel=cfg["kernel"], h=.25, solver_kw=sk, probe=False)


def states(cfg, ms):
    from mc.env import np
    from mc import scenes as S
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    h = .25
    A = [.05, .5, .8] + ([.3, 1.0] if th else []) if dim == 2 else [.05, .6]
    B = [.2, 1.0, 1.7] if dim == 2 else [.2, 1.3]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[B] * dim)
    vs = [np.array(v, dtype=float)[:dim] for v in ([0, 0, 0], [1, 0, 0], [-1, 2, .5], [0, -3, 1])]
    ms_ = [(1., 1., 1.), (5., .1, 1.), (.2, 1., 4.)]
    i1, i2, a, b, c, im = S.product_idx(len(P1), len(P2), 4, 4, 2, 3)
    keep = ~((a == b) & (b == c)) & (th | ((i1 + i2 + im) % 2 == 0))
    i1, i2, a, b, c, im = [x[keep] for x in (i1, i2, a, b, c, im)]
    V = np.array(vs); M = np.array(ms_)[im]
    p1, p2 = P1[i1] * h, P2[i2] * h
    d = ms.init(len(i1), pos0=p1[:, None], pos1=np.stack([p2, .3 * p1 + .7 * p2], 1), vel0=V[a][:, None], vel1=np.stack([V[b], V[c]], 1))
    d["mass0"] = M[:, :1].copy(); d["mass1"] = M[:, 1:].copy()
    return d


def blend(cfg, rec):
    from mc.env import np
    from mc import refmpm as R
    th = cfg["tier"] == "thorough"
    dt = 1e-3
    d, res = None, {}
    alphas = [0.0, .25, .5, .99, 1.0] + ([.1, .37, .75, .9] if th else [])
    E = lambda s: sum((.5 * d["mass%d" % i] * (s["vel%d" % i] ** 2).sum(-1)).sum(-1) for i in (0, 1))
    for al in alphas:
        ms = scene(cfg, al)
        if d is None:
            d = states(cfg, ms)
        f = ms.stepper(dt, chunk=4000)
        res[al] = f(d)
        case = lambda i: dict(alpha=al, **{k: d[k][i].tolist() for k in ("pos0", "pos1", "vel0", "vel1", "mass0", "mass1")})
        e0, e1 = E(d), E(res[al])
        rec.true("energy", "kinetic energy increased in a free transfer", e1 <= e0 * (1 + 1e-10) + 1e-12, got=e1 - e0, case=case)
        # histories: the energy keeps falling (affine state is zeroed between steps: no affine velocity)
        cur = res[al]
        for k in range(5 if th else 1):
            nxt = {**{x: cur[x] for x in cur if x[:-1] in ("pos", "vel", "mass", "vol", "F")}, **{x: d[x] for x in d if x.startswith("vol0") or x.startswith("stress") or x.startswith("Bp")}}
            nx = f(nxt)
            rec.true("energy-history", "kinetic energy increased in a later free step", E(nx) <= E(cur) * (1 + 1e-10) + 1e-12, got=E(nx) - E(cur), case=case)
            cur = nx
            rec.count(transitions=len(e0), states=len(e0))
        rec.count(states=len(e0), transitions=len(e0), evals=len(e0), distinct=len(e0), traces=len(e0))
        rec.sample(case=case(7), before=e0[7], after=e1[7])
    # pure limits
    ms = scene(cfg, 0.0)
    rg = ms.refgrid(); B = len(d["pos0"])
    gs = R.GridState(rg, B)
    for b in ms.refbodies(d):
        R.p2g(rg, gs, cfg["kernel"], b, None)
    gs.pn = gs.p
    for i, b in enumerate(ms.refbodies(d)):
        pic = R.g2p(rg, gs, cfg["kernel"], b, dt, "usl", dict(alpha=0.0), 1e-12 if cfg["scheme"] == "usl" else 1e-7)["vel"]
        rec.close("flip-limit", "the pure-difference limit changed a velocity", res[1.0]["vel%d" % i], d["vel%d" % i], 1e-9, 1e-9, case)
        rec.close("pic-limit", "the pure-interpolation limit is not the interpolated grid velocity", res[0.0]["vel%d" % i], pic, 1e-9, 1e-9, case)
        for al in alphas:
            case = lambda j: dict(alpha=al, **{k: d[k][j].tolist() for k in ("pos0", "pos1", "vel0", "vel1", "mass0", "mass1")})
            rec.close("mean", "an intermediate blend is not the weighted mean of the limits", res[al]["vel%d" % i],
                      (1 - al) * res[0.0]["vel%d" % i] + al * res[1.0]["vel%d" % i], 1e-9, 1e-9, case)


def dynamic(cfg, rec):
    """Support-dependent blending: the share of the difference part never grows beyond the fixed blend, and equals it at full support."""
    from mc.env import np
    from mc import scenes as S
    dt = 1e-3
    al = .8
    mk = lambda **kw: S.Multi(dim=cfg["dim"], scheme="usl_aflip", sizes=[1, 2], kernel=cfg["kernel"], h=.25, solver_kw=dict(cfl_limit=1e9, **kw), probe=True)
    d = states(cfg, mk())
    pic = mk(alpha=0.0, use_dynamic_alpha=False).stepper(dt, chunk=4000)(d)
    fix = mk(alpha=al, use_dynamic_alpha=False).stepper(dt, chunk=4000)(d)
    dyn = mk(alpha=al, use_dynamic_alpha=True).stepper(dt, chunk=4000)(d)
    case = lambda j: {k: d[k][j].tolist() for k in ("pos0", "pos1", "vel0", "vel1", "mass0", "mass1")}
    from mc import refmpm as R
    ms = mk(); rg = ms.refgrid()
    for i in (0, 1):
        full = fix["vel%d" % i] - pic["vel%d" % i]
        got = dyn["vel%d" % i] - pic["vel%d" % i]
        nf = (full ** 2).sum(-1)
        share = np.where(nf > 1e-16, (got * full).sum(-1) / np.where(nf > 1e-16, nf, 1), 0)
        rec.close("dyn-direction", "support-dependent blending changed the direction of the difference part", got, share[..., None] * full, 1e-8, 1e-8, case)
        rec.true("dyn-share", "support-dependent blending raised the share of the difference part", (share <= 1 + 1e-9) & (share >= -1e-9), got=share, case=case)
        # documented scaling with support
        gm = dyn["gmass0"]; rows = np.arange(len(gm)); sup = np.zeros(d["mass%d" % i].shape)
        for q in range(sup.shape[1]):
            for node, w, g, rel in R.weights(rg, cfg["kernel"], d["pos%d" % i][:, q]):
                sup[:, q] += w * gm[rows, node]
        want = np.clip((sup / d["mass%d" % i] - 1.1) / .4, 0, 1)
        rec.close("dyn-scale", "the share is not the documented function of the support", np.where(nf > 1e-12, share, want), want, 1e-6, 0, case)
    n = len(d["pos0"])
    rec.count(states=n, transitions=3 * n, evals=3 * n, distinct=n, traces=n)
    rec.sample(case=case(3), share=share[3])
