"""C29 time step estimates."""
PROPERTY = "C29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of point sets (all multisets of up to three points over stiffness-free properties: density, volume, velocity) for every law, cell size and factor on the real estimates, compared with the Courant limit and with one another under every single-step change (add, stiffen, speed up, lighten)"
RULE = "all point multisets of the alphabet up to the size, all single changes of each; non-trivial = distinct (law, parameters, point set)"
ASSUMPTIONS = ["JAX CPU float64", "the guard of 1e-9 in the denominator is tolerated", "Cam-Clay offers no estimate"]
NOTE = "oracle: factor times cell size over the largest (wave speed + speed), computed from masses and volumes in numpy"
BOUNDS = {"quick": dict(points=3, properties=12), "thorough": dict(points=4, properties=18)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for law in ("elastic", "newton", "mui", "dp"):
        for dim in (2, 3):
            out.append(("sets", dict(law=law, dim=dim, tier=tier)))
    return out


def laws(name):
    from mc.env import hdx
    import itertools
    if name == "elastic":
        for E, nu in ((1000.0, .3), (1e7, 0.0), (5.0, .45)):
            K = E / 3 / (1 - 2 * nu); G = E / 2 / (1 + nu)
            yield dict(E=E, nu=nu), hdx.LinearElasticLaw(E=E, nu=nu), K + 4 * G / 3
    if name == "newton":
        for K, b, mu in ((1000.0, 7.0, 1.0), (2e6, 1.0, 0.0), (3.0, 3.0, 100.0)):
            yield dict(K=K, beta=b, viscosity=mu), hdx.NewtonFluid(K=K, beta=b, viscosity=mu), K * b
    if name == "mui":
        for K in (1000.0, 1e6, 2.0):
            yield dict(K=K), hdx.MuI_LC(mu_s=.3, mu_d=.6, I_0=.3, d_p=.01, K=K), K
    if name == "dp":
        for K, nu in ((1000.0, .3), (1e6, 0.0), (4.0, .45)):
            G = 3 * K * (1 - 2 * nu) / 2 / (1 + nu)
            yield dict(K=K, nu=nu), hdx.DruckerPrager(K=K, nu=nu, mu_1=.4), K + 4 * G / 3


def sets(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax, eqx, hdx
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    v = [np.zeros(dim), np.eye(dim)[0] * -.5, np.full(dim, 3.0)] + ([np.eye(dim)[-1] * 90.0] if th else [])
    props = [(rho, V, q) for rho, V in ((1.0, 1.0), (1000.0, 1.0), (1000.0, 1e-4), (2650.0, .3)) for q in range(len(v))]
    N = 4 if th else 3
    estimate = {}
    for P, law, mod in laws(cfg["law"]):
        for n in range(1, N + 1):
            combos = list(itertools.combinations_with_replacement(range(len(props)), n))
            if n == 4:
                combos = combos[::5]
            pr = np.array([[props[i][:2] for i in c] for c in combos]); vel = np.array([[v[props[i][2]] for i in c] for c in combos])
            mk = lambda rho, V, vv: hdx.MaterialPointState.create(position_stack=jnp.zeros((n, dim)), mass_stack=rho * V, volume_stack=V, velocity_stack=vv)
            est = lambda r, V, vv, h, a: jax.vmap(lambda r, V, vv: law.get_dt_crit(mk(r, V, vv), h, a))(r, V, vv)
            case = lambda i: dict(law=cfg["law"], parameters=P, points=[dict(density=props[q][0], volume=props[q][1], velocity=v[props[q][2]].tolist()) for q in combos[i]])
            speed = (np.sqrt(mod / pr[..., 0]) + np.linalg.norm(vel, axis=2)).max(1)
            for h, a in ((1.0, .5), (.01, .5), (.25, .1), (3.0, 1.0)):
                g = np.asarray(est(jnp.asarray(pr[..., 0]), jnp.asarray(pr[..., 1]), jnp.asarray(vel), h, a))
                rec.true("finite", "a time step estimate is not positive and finite", np.isfinite(g) & (g > 0), got=g, case=case)
                rec.close("courant", "a time step estimate is not the Courant limit of the fastest point", g * speed / h / a, np.ones(len(g)), 1e-7, case=lambda i: dict(cell_size=h, factor=a, **case(i)))
                rec.count(states=len(g), transitions=len(g), traces=len(g), evals=len(g), distinct=len(g))
                if (h, a) == (1.0, .5):
                    estimate[(cfg["law"], str(P), n)] = dict(zip(combos, g))
            base = np.asarray(est(jnp.asarray(pr[..., 0]), jnp.asarray(pr[..., 1]), jnp.asarray(vel), 1.0, .5))
            # the default factor is one half; the order of points is irrelevant; direction of motion is irrelevant
            i = len(combos) // 2
            mp = mk(jnp.asarray(pr[i, ::-1, 0]), jnp.asarray(pr[i, ::-1, 1]), -jnp.asarray(vel[i, ::-1]))
            rec.close("default", "the default factor or the order of the points matters", float(law.get_dt_crit(mp, 1.0)) / base[i], 1.0, 1e-9, case=case(i))
            for k in range(n):      # one point faster, lighter, larger (same mass)
                for nm, dr, dV, dvv in (("faster", 1, 1, 2.0), ("lighter", .3, 1, 1.0), ("larger", 1 / 3, 3.0, 1.0)):
                    r2, V2, w2 = pr[..., 0].copy(), pr[..., 1].copy(), vel.copy()
                    r2[:, k] *= dr; V2[:, k] *= dV; w2[:, k] *= dvv
                    g = np.asarray(est(jnp.asarray(r2), jnp.asarray(V2), jnp.asarray(w2), 1.0, .5))
                    rec.true("monotone", "the estimate grows when a point gets " + nm, g <= base * (1 + 1e-9), got=g / base, case=case)
                    rec.count(states=len(g), transitions=len(g), evals=len(g))
            if n > 1:     # adding a point never enlarges it
                prev = estimate[(cfg["law"], str(P), n - 1)]
                for c, g in zip(combos, base):
                    for k in range(n):
                        sub = c[:k] + c[k + 1:]
                        if sub in prev and g > prev[sub] * (1 + 1e-9):
                            rec.fail("add", "the estimate grows when a point is added", points=c, added=k)
        # a stiffer material
    stiff = {"elastic": [dict(E=E, nu=.3) for E in (1., 10., 1e5)], "newton": [dict(K=K, beta=7.0) for K in (1., 50., 1e6)], "mui": [dict(K=K, mu_s=.3, mu_d=.6, I_0=.3, d_p=.01) for K in (1., 50., 1e6)], "dp": [dict(K=K, nu=.3, mu_1=.4) for K in (1., 50., 1e6)]}
    cls = dict(elastic=hdx.LinearElasticLaw, newton=hdx.NewtonFluid, mui=hdx.MuI_LC, dp=hdx.DruckerPrager)[cfg["law"]]
    for rho, V, q in props:
        mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, dim)), mass_stack=jnp.array([rho * V]), volume_stack=jnp.array([V]), velocity_stack=jnp.asarray(v[q])[None])
        g = [float(cls(**kw).get_dt_crit(mp, 1.0)) for kw in stiff[cfg["law"]]]
        if not g[0] > g[1] > g[2]:
            rec.fail("stiffer", "the estimate does not shrink with stiffness", estimates=g)
        rec.count(states=3, transitions=3, evals=3)
    rec.sample(**case(3))
