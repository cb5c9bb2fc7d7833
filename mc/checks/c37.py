"""C37 independence of the system of units."""
PROPERTY = "C37"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive product of unit systems and scene states, obstacle shapes and increment words on the real code: every history is run in every unit system and must be the same history"
RULE = ("units: powers of two for length, mass and time, one at a time, all together and mixed; scenes: scheme x kernel x dimension x law with gravity on grid and points, damping, a moving round obstacle and walls, over a lattice of "
        "placements, velocities and steps; laws: all words of increments up to the depth from every start; obstacles: every shape x pose x point lattice; time step estimates and element-wise mapping; non-trivial = distinct (unit system, scene, state)")
ASSUMPTIONS = ["JAX CPU float64", "units are powers of two, so that only absolute constants in the code can tell them apart; guards against division by zero (1e-6 Pa, 1e-7 mass and smaller) are stayed clear of",
               "documented absolute options (mass cutoff, contact gap, floors) are given in the same units"]
NOTE = "the oracle is the same program in the reference units; absolute guards of the code are tolerated to 1e-6 of the largest value"
BOUNDS = {"quick": dict(units=7, steps=3, word=2), "thorough": dict(units=14, steps=6, word=3)}
FAST_COMPILE = True
K3 = ("linear", "quadratic", "cubic")


def units(tier, few=False):
    e = [(6, 0, 0), (-6, 0, 0), (0, 7, 5), (0, -7, -5), (-4, 5, 3)] if few else [(6, 0, 0), (-6, 0, 0), (0, 7, 0), (0, -7, 0), (0, 0, 5), (0, 0, -5), (-4, 5, 3)]
    if tier == "thorough":
        e += [(5, -5, -3), (8, 8, 0), (-8, -8, 0), (0, 10, 5), (3, 0, 3), (-3, 2, -5), (1, 1, 1)]
    return [tuple(2.0 ** q for q in u) for u in e]


def tasks(tier):
    out = []
    th = tier == "thorough"
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for i, kernel in enumerate(K3):
                laws = ("elastic", "newton", "mui", "dp", "mcc") if th or (dim == 2 and i == 0) else (("elastic", "dp", "newton")[i],)
                for law in laws:
                    out.append(("scenes", dict(scheme=scheme, dim=dim, kernel=kernel, law=law, tier=tier)))
    for law in ("elastic", "newton", "mui", "dp", "mcc"):
        out.append(("laws", dict(law=law, tier=tier)))
    for dim in (2, 3):
        out.append(("shapes", dict(dim=dim, tier=tier)))
    return out


def law_of(name, u, p0=None):
    """Law parameters in the units u = (length, mass, time), with the pressure unit."""
    l, m, t = u
    S, R = m / (l * t * t), m / l ** 3
    kw = dict(elastic=dict(E=60.0 * S, nu=.3), newton=dict(K=80.0 * S, viscosity=.5 * S * t, beta=7.0),
              mui=dict(mu_s=.3, mu_d=.6, I_0=.3, d_p=.01 * l, K=900.0 * S, rho_p=2650.0 * R, alpha=1e-3 / t),
              dp=dict(K=1000.0 * S, nu=.3, mu_1=.4, mu_2=1.0, c0=10.0 * S, mu_1_hat=.1, H=20.0 * S, rho_0=500.0 * R, requires_F_reset=True),
              mcc=dict(nu=.2, M=.9, lam=.1, kap=.02, N=1.9, p_ref=1000.0 * S, rho_p=2650.0 * R, p_min_calc=10.0 * S))[name]
    return kw, S, R


def close(rec, key, what, a, b, tol, case, floor=0.0):
    from mc.env import np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    size = max(np.abs(b).max(), floor, 1e-300)
    rec.close(key, what, a / size, b / size, tol, case=case)


def scenes(cfg, rec):
    from mc.env import np, jnp, hdx
    from mc import scenes as S, lawlib as W
    dim, name, scheme = cfg["dim"], cfg["law"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    sizes = [2, 2]
    steps = 6 if th else 3
    A = S.lattice(*[[1.0, 1.3, 1.5] if dim == 2 else [1.0, 1.45]] * dim)
    V = np.array([[0, 0, 0], [.4, -.3, .2], [-1.5, 2.0, 1.0], [1e-3, 1e-4, 0]])[:, :dim]
    ia, ib, iv = S.product_idx(len(A), len(A), len(V))
    keep = (ia + 2 * ib) % (2 if dim == 2 else 3) == 0
    ia, ib, iv = ia[keep], ib[keep], iv[keep]
    n = len(ia)
    h0, dt0 = .25, 2e-3 if name != "mcc" else 4e-4
    base = None
    for u in [(1.0, 1.0, 1.0)] + units(cfg["tier"], not th):
        l, m, t = u
        kw, Sg, R = law_of(name, u)
        h = h0 * l

        def law(q):
            lw, ls, mp = W.ready(name, dim, 2, p0=(2000.0 if name == "mcc" else 20.0) * Sg, **kw) if name == "mcc" else ready(name, dim, 2, 20.0 * Sg, 1000.0 * R, kw)
            return lw, ls, mp
        lw, ls, mp = law(0)
        lw2, ls2, _ = law(1)

        def setup(b):
            b.add_gravity(gravity=jnp.array(([1.5, -9.0, 3.0])[:dim]) * l / t ** 2)
            b.add_gravity(gravity=jnp.array(([-.5, 2.0, 1.0])[:dim]) * l / t ** 2, p_idx_list=[1], is_apply_on_grid=False)
            b.add_damping(alpha=.2)
            ball = b.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=.2 * l), center_of_mass=jnp.array((.3, .1, .3)[:dim]) * l,
                                    velocity=jnp.array((.3, .5, -.2)[:dim]) * l / t)
            b.add_sdf_collider(friction=.4, gap=.01 * l)
        m0 = S.Multi(dim=dim, scheme=scheme, sizes=sizes, kernel=cfg["kernel"], h=h, laws=[("obj", lw, ls), ("obj", lw2, ls2)], setup=setup, probe=True,
                     solver_kw=dict(alpha=.9) if scheme == "usl" else dict(alpha=.95, use_dynamic_alpha=True, small_mass_cutoff=1e-6 * m, cfl_limit=.5))
        vol = h ** 3 * .25
        rho = float(np.asarray(mp.mass_stack / mp.volume_stack)[0])
        st = np.asarray(mp.stress_stack)
        x0 = A[ia] * h
        x1 = (A[ib] + .4) * h
        x = [np.stack([x0, x1], 1), np.stack([.5 * (x0 + x1), x1 + .3 * h], 1)]
        v = V[iv] * l / t
        d = m0.init(n, pos0=x[0], pos1=x[1], vel0=np.stack([v, -.5 * v], 1), vel1=np.stack([.5 * v, v], 1),
                    mass0=np.array([rho * vol, rho * vol]), mass1=np.array([rho * vol, rho * vol]), stress0=st, stress1=st)
        for i in (0, 1):
            d["vol%d" % i][:] = vol; d["vol0%d" % i][:] = vol
        unit = dict(pos=l, vel=l / t, mass=m, vol=l ** 3, stress=Sg, F=1.0, L=1 / t, force=m * l / t ** 2, Bp=1 / t, gmass=m, gmom=m * l / t, gforce=m * l / t ** 2, gmomn=m * l / t)
        o = m0.stepper(dt0 * t, steps=1)(d)
        o = dict(o, **{"later_" + k: q for k, q in m0.stepper(dt0 * t, steps=steps)(d).items()})
        res = {k: np.asarray(q) / unit[k.removeprefix("later_")[:-1]] for k, q in o.items()}
        if base is None:
            base = res
        else:
            case = lambda i: dict(units=dict(length=l, mass=m, time=t), pos0=(x[0][i] / l).tolist(), vel=V[iv[i]].tolist(), law=name)
            for k in base:
                tol = 1e-6 if name != "mcc" else 1e-4
                close(rec, "first" if "later" not in k else "history", "a simulation depends on the system of units (%s)" % k, res[k], base[k], tol, case, floor=1e-3)
        rec.count(states=n, transitions=n * (1 + steps), traces=n, evals=n, distinct=n)
    rec.sample(**case(0))


def ready(name, dim, n, p, rho, kw):
    from mc.env import np, jnp
    from mc import lawlib as W
    from mc.env import hdx
    cls = dict(elastic=hdx.LinearElasticLaw, newton=hdx.NewtonFluid, mui=hdx.MuI_LC, dp=hdx.DruckerPrager)[name]
    law = cls(**kw)
    s = jnp.asarray(np.tile(p * np.eye(3), (n, 1, 1)))
    ls = None if name == "elastic" else law.create_state(s) if name == "dp" else law.create_state_from_density(density_stack=jnp.full((n,), rho), pressure_stack=jnp.full((n,), float(p)))
    return law, ls, W.points(dim, n, s, rho=rho)


def laws(cfg, rec):
    """All words of increments from every start, in every system of units; estimates of the time step too."""
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    name = cfg["law"]
    th = cfg["tier"] == "thorough"
    names, Ls = W.rate_alphabet(True)
    k = len(names)
    depth = 3 if th else 2
    for amp in (1e-4, 4e-3) if name == "mcc" else (1e-5, 1e-3, 3e-2):
        base = None
        for u in [(1.0, 1.0, 1.0)] + units(cfg["tier"]):
            l, m, t = u
            kw, Sg, R = law_of(name, u)
            if name == "mcc":
                law = hdx.ModifiedCamClay(**kw)
                p, ocr, q = [jnp.asarray(z) for z in ([1e5, 1e5, 1e5, 3e4], [1.0, 1.5, 6.0, 2.0], [0., 30000., 40000., 1000.])]
                ls, s, rho = law.create_state_from_ocr(p_stack=p * Sg, ocr_stack=ocr, q_stack=q * Sg)
                mp = W.points(2, 4, s)
                mp = eqx.tree_at(lambda a: (a.mass_stack, a.volume_stack, a.volume0_stack), mp, (rho * l ** 3, jnp.full(4, l ** 3), jnp.full(4, l ** 3)))
            else:
                pp = np.array([5., 50., 200., 800.])
                qq = np.array([0., 0., 20., 60.]) if name in ("elastic", "dp") else np.zeros(4)
                s = np.stack([(a * np.eye(3) + b * np.array([[.4, .5, 0], [.5, -.7, .3], [0, .3, .3]])) * Sg for a, b in zip(pp, qq)])
                law, ls, mp = ready(name, 2, 4, 1.0, 1000.0 * R, kw)
                if name in ("newton", "mui"):
                    ls = law.create_state_from_density(density_stack=jnp.full((4,), 1000.0 * R), pressure_stack=jnp.asarray(pp * Sg))
                if name == "dp":
                    ls = law.create_state(jnp.asarray(s))
                mp = W.points(2, 4, s, rho=1000.0 * R, V0=l ** 3)
            dt = 1e-2 * t
            res = []
            for d, pre, L, (mm, ss) in W.words(law, mp, ls, Ls * amp / dt, depth, dt):
                res.append((np.asarray(mm.stress_stack) / Sg, mm))
            n = len(res[-1][0])
            if name != "mcc":
                est = [float(law.get_dt_crit(eqx.tree_at(lambda a: a.velocity_stack, mp, jnp.full((4, 2), w * l / t)), .25 * l, .5)) / t for w in (0.0, .3, 4.0)]
            else:
                est = [0.0]
            if base is None:
                base = (res, est)
            else:
                for d in range(depth):
                    def case(i, d=d):
                        w, st = W.letters(i, d, k, names)
                        return dict(law=name, units=dict(length=l, mass=m, time=t), amplitude=amp, start=int(st), word=w)
                    b = base[0][d][0]
                    size = np.maximum(np.abs(b).reshape(len(b), -1).max(1), 1.0)[:, None, None]
                    rec.close("law", "a material law depends on the system of units", res[d][0] / size, b / size, 1e-4 if name == "mcc" else 1e-5 + (2e-6 / Sg if name == "dp" else 0), case=case)
                rec.close("estimate", "a time step estimate depends on the system of units", np.array(est), np.array(base[1]), 0, 1e-6, case=lambda i: dict(law=name, units=dict(length=l, mass=m, time=t)))
            rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    rec.sample(**case(0))


def shapes(cfg, rec):
    """Distances, normals and surface velocities of every obstacle shape."""
    from mc.env import np, jnp, hdx
    from mc import sdflib as D, scenes as S
    dim = cfg["dim"]
    two = dim == 2
    mk = dict(sphere=lambda l: hdx.SphereSDF(radius=.3 * l), box=lambda l: hdx.BoxSDF(size=tuple(q * l for q in (.5, .2, .8)[:dim])),
              plane=lambda l: hdx.PlaneSDF(normal=((3., 4.) if two else (1., 2., -2.))),
              capsule=lambda l: hdx.CapsuleSDF(radius=.3 * l, height=.5 * l),
              domain=lambda l: hdx.DomainSDF(origin=(-.5 * l,) * dim, end=(.75 * l,) * dim))
    if two:
        mk.update(ring=lambda l: hdx.HollowCylinderSDF(height=1.0 * l, outer_radius=1.0 * l, inner_radius=.5 * l, is_2d_ring=True),
                  walls=lambda l: hdx.HollowCylinderSDF(height=1.0 * l, outer_radius=1.0 * l, inner_radius=.5 * l, is_2d_ring=False),
                  star=lambda l: hdx.StarSDF(points=5, outer_radius=1.0 * l, inner_radius=.5 * l))
    else:
        mk.update(cylinder=lambda l: hdx.CylinderSDF(radius=.5 * l, height=1.0 * l), torus=lambda l: hdx.TorusSDF(major_r=.7 * l, minor_r=.2 * l),
                  pipe=lambda l: hdx.HollowCylinderSDF(height=1.0 * l, outer_radius=1.0 * l, inner_radius=.5 * l))
    pts = S.lattice(*[np.linspace(-1.4, 1.4, 15 if two else 8) + .017] * dim)
    for nm, f in mk.items():
        for ip, (com, rot) in enumerate(D.poses(dim)[:6]):
            base = None
            for l, m, t in [(1.0, 1.0, 1.0)] + units(cfg["tier"]):
                if (l, t) == (1.0, 1.0) and m != 1:
                    continue
                lg = f(l)
                st = D.state(lg, dim, np.array(com) * l, rot, vel=np.array([.3, -.4, .2])[:dim] * l / t, om=1.5 / t if two else np.array([.5, -1.0, 2.0]) / t)
                dd, nn, vv, _ = D.evaluate(lg, st, (pts + np.array(com)) * l, dt=1e-3 * t)
                r = (dd / l, nn, vv * t / l)
                if base is None:
                    base = r
                else:
                    case = lambda i: dict(shape=nm, pose=ip, units=dict(length=l, time=t), point=pts[i].tolist())
                    rec.close("distance", "a signed distance depends on the unit of length", r[0], base[0], 3e-6 * max(1.0, 1 / l), 1e-7, case=case)
                    smooth = np.abs(base[0]) > 1e-3
                    rec.close("normal", "a surface normal depends on the unit of length", r[1], base[1], 1e-4, case=case, mask=smooth)
                    close(rec, "velocity", "a surface velocity depends on the system of units", r[2], base[2], 1e-6, case)
                rec.count(states=len(pts), transitions=len(pts), traces=1, evals=len(pts), distinct=len(pts))
    rec.sample(**case(0))
