"""C26 fluid laws."""
PROPERTY = "C26"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of (density ratio x rate x amplitude x previous stress x parameters x initial pressure) states of the real fluid laws and all rate words up to a depth, each result compared with the relations evaluated independently"
RULE = "the full product of the alphabets; every word over the rates up to the depth; non-trivial = distinct (law, parameters, initial state, density, rate)"
ASSUMPTIONS = ["JAX CPU float64", "no stability floor on the granular pressure unless stated", "densities away from the exact reference by more than round-off where a branch changes"]
NOTE = "oracle: scalar formulas in numpy; the granular friction is read from the stress invariants (shear stress / pressure against the inertial number)"
BOUNDS = {"quick": dict(ratios=11, rates=12, amplitudes=5, depth=3), "thorough": dict(ratios=31, rates=12, amplitudes=9, depth=4)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    th = tier == "thorough"
    for K in (1e3, 2e6, 10.0):
        for mu in (0.0, 1e-3, 5.0, 300.0):
            for beta in (1.0, 7.0) + ((3.5, 2.0) if th else ()):
                out.append(("newton", dict(K=K, mu=mu, beta=beta, tier=tier)))
    for mus, mud in ((.3, .6), (.5, .5), (.1, .9), (.6, .3), (0.0, .7), (.4, 0.0)) + (((.38, .64),) if th else ()):
        for I0, dp in ((.3, .01), (.05, 1e-3)) + (((1.0, .2),) if th else ()):
            for K in (1e3, 1e6):
                for alpha in (1e-6, 1e-2):
                    out.append(("granular", dict(mus=mus, mud=mud, I0=I0, dp=dp, K=K, alpha=alpha, tier=tier)))
    return out + [("histories", dict(law=l, tier=tier)) for l in ("newton", "mui")]


def grid(cfg, extra):
    """ratios (rows), rates; the product of both"""
    import numpy as np
    from mc import lawlib as W
    names, Ls = W.rate_alphabet(True)
    r = [1e-7, .01, .5, .9, .999, 1 - 1e-6, 1 + 1e-6, 1.001, 1.02, 1.3, 3.0]
    amps = [0.0, 1e-6, 1e-2, 1.0, 100.0]
    if cfg["tier"] == "thorough":
        r += list(np.linspace(.8, 1.2, 21)[1::2] + .00037) + [1.9, 10.0]; amps += [1e-9, 1e-4, .1, 1e4]
    A = [(a, b, c) for a in r for b in range(len(names)) for c in amps]
    R = np.array([a for a, _, _ in A]); L = np.stack([Ls[b] * c for _, b, c in A])
    return R, L, (lambda i: dict(density_ratio=A[i][0], rate=names[A[i][1]], amplitude=A[i][2]))


def newton(cfg, rec):
    from mc.env import np, jnp, eqx, hdx
    from mc import lawlib as W
    law = hdx.NewtonFluid(K=cfg["K"], viscosity=cfg["mu"], beta=cfg["beta"])
    R, L, lab = grid(cfg, None)
    n = len(R)
    D = (L + np.swapaxes(L, 1, 2)) / 2
    dev = D - np.trace(D, axis1=1, axis2=2)[:, None, None] * np.eye(3) / 3
    for rho0 in (1.0, 1000.0, 2650.0):
        for pf in (0.0, .01, .7, 4.0):        # initial pressure / bulk modulus
            p0 = pf * cfg["K"]
            ls = law.create_state_from_density(density_stack=jnp.full((n,), rho0), pressure_stack=jnp.full((n,), p0))
            for V, junk in ((1.0, 0.0), (3e-4, 1e5)):
                case = lambda i: dict(parameters={k: v for k, v in cfg.items() if k != "tier"}, initial_density=rho0, initial_pressure=p0, **lab(i))
                mp = W.points(2, n, np.full((n, 3, 3), junk))
                mp = eqx.tree_at(lambda m: (m.mass_stack, m.volume_stack, m.L_stack), mp, (jnp.asarray(R * rho0 * V), jnp.full((n,), V), jnp.asarray(L)))
                o, ls2 = W.apply(law, mp, ls, jnp.asarray(L), 0.0)
                s = np.asarray(o.stress_stack)
                # ratio to the reference density: (1 + p0/K)^(1/beta) times the ratio to the initial density
                p = cfg["K"] * ((R ** cfg["beta"]) * (1 + pf) - 1)
                p = np.maximum(p, 0)
                got = np.trace(s, axis1=1, axis2=2) / 3
                rec.close("pressure", "a Newtonian fluid's pressure does not follow its equation of state", got / cfg["K"], p / cfg["K"], 1e-9, 1e-9, case=case)
                rec.true("suction", "a Newtonian fluid sucks", got >= -1e-9 * cfg["K"] - 1e-12 * cfg["mu"] * np.abs(L).max(), got=got, case=case)
                sh = s - got[:, None, None] * np.eye(3)
                rec.close("shear", "a Newtonian fluid's shear stress is not twice viscosity times the deviatoric rate", sh / (1 + p)[:, None, None], 2 * cfg["mu"] * dev / (1 + p)[:, None, None], 1e-9, 1e-9, case=case)
                rec.true("resist", "a Newtonian fluid's shear stress helps the flow", (sh * dev).sum((1, 2)) >= -1e-6 * (1 + p), case=case)
                # initial state: the asked pressure at the asked density
                at = np.asarray(W.apply(law, eqx.tree_at(lambda m: m.mass_stack, mp, jnp.full((n,), rho0 * V)), ls, jnp.zeros((n, 3, 3)), 0.0)[0].stress_stack)[0]
                rec.close("initial", "a fluid initialised at a pressure has another", at / cfg["K"], pf * np.eye(3), 1e-9, case=lambda i: case(0))
                rec.count(states=n, transitions=n, traces=n, evals=n + 1, distinct=n)
            # the same through a point set
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((2, 2)), mass_stack=jnp.array([rho0 * 2, rho0]), volume_stack=jnp.array([2.0, 1.0]), stress_stack=jnp.tile(p0 * jnp.eye(3), (2, 1, 1)))
            o, _ = law.update(mp, law.create_state(mp), 0.0)
            rec.close("initial", "a fluid initialised from points has another pressure", np.asarray(o.stress_stack) / cfg["K"], np.tile(pf * np.eye(3), (2, 1, 1)), 1e-9, case=dict(p0=p0, rho0=rho0))
    ls = law.create_state_from_density(density_stack=jnp.full((2,), 7.0))
    rec.close("default", "without a pressure a fluid is not initialised at zero pressure", ls.density_ref_stack, np.full(2, 7.0), 1e-12, case=dict())
    rec.sample(**case(7))


def granular(cfg, rec):
    from mc.env import np, jnp, eqx, hdx
    from mc import lawlib as W
    rp = 2650.0
    law = hdx.MuI_LC(mu_s=cfg["mus"], mu_d=cfg["mud"], I_0=cfg["I0"], d_p=cfg["dp"], K=cfg["K"], rho_p=rp, alpha=cfg["alpha"])
    R, L, lab = grid(cfg, None)
    n = len(R)
    D = (L + np.swapaxes(L, 1, 2)) / 2
    dev = D - np.trace(D, axis1=1, axis2=2)[:, None, None] * np.eye(3) / 3
    gam = np.sqrt(2 * (dev * dev).sum((1, 2)))
    gam = np.where(gam < 1e-10 * np.abs(L).max((1, 2)), 0.0, gam)      # pure volume change
    for rho0 in (1.0, 1600.0):
        for pf in (0.0, .01, .7):
            p0 = pf * cfg["K"]
            ls = law.create_state_from_density(density_stack=jnp.full((n,), rho0), pressure_stack=jnp.full((n,), p0))
            case = lambda i: dict(parameters={k: v for k, v in cfg.items() if k != "tier"}, initial_density=rho0, initial_pressure=p0, **lab(i))
            mp = W.points(2, n, np.full((n, 3, 3), 77.0))
            mp = eqx.tree_at(lambda m: (m.mass_stack, m.volume_stack), mp, (jnp.asarray(R * rho0 * .02), jnp.full((n,), .02)))
            o, _ = W.apply(law, mp, ls, jnp.asarray(L), 0.0)
            s = np.asarray(o.stress_stack)
            p = cfg["K"] * (R * (1 + pf) - 1)
            loose = p <= 0
            p = np.maximum(p, 0)
            got = np.trace(s, axis1=1, axis2=2) / 3
            rec.true("loose", "granular material looser than its reference carries stress", np.abs(s).max((1, 2)) == 0, got=s, case=case, mask=loose)
            rec.close("pressure", "a granular pressure does not follow its equation of state", got / cfg["K"], p / cfg["K"], 1e-9, 1e-9, case=case)
            sh = s - got[:, None, None] * np.eye(3)
            tau = np.sqrt(.5 * (sh * sh).sum((1, 2)))
            mob = tau / np.where(loose, 1, p)
            I = gam * cfg["dp"] / np.sqrt(np.where(loose, 1, p) / rp)
            mu = cfg["mus"] * gam / np.sqrt(gam ** 2 + cfg["alpha"] ** 2) + (cfg["mud"] - cfg["mus"]) * I / (cfg["I0"] + I)
            rec.close("friction", "granular shear stress over pressure is not mu(I)", mob, mu, 1e-7, 1e-7, case=case, mask=~loose)
            rec.true("limits", "granular friction leaves its static and limit values", (mob <= max(cfg["mud"], cfg["mus"]) + 1e-9) & ((gam < 1e3 * cfg["alpha"]) | (mob >= min(cfg["mus"], cfg["mud"]) * (1 - 1e-6))), got=mob, case=case, mask=~loose)
            ok = ~loose & (gam > 1e-12)
            cosang = (sh * dev).sum((1, 2)) / np.where(ok, np.sqrt((sh * sh).sum((1, 2)) * (dev * dev).sum((1, 2))), 1)
            rec.close("along", "granular shear stress is not along the shear rate", cosang, np.ones(n), 1e-6, case=case, mask=ok & (tau > 1e-9 * p))
            rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
            if rho0 > 1:
                mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((2, 2)), mass_stack=jnp.array([rho0 * 2, rho0]), volume_stack=jnp.array([2.0, 1.0]), stress_stack=jnp.tile(p0 * jnp.eye(3), (2, 1, 1)))
                o, _ = law.update(mp, law.create_state(mp), 0.0)
                rec.close("initial", "a granular material initialised from points has another pressure", np.asarray(o.stress_stack) / cfg["K"], np.tile(pf * np.eye(3), (2, 1, 1)), 1e-9, case=dict(p0=p0))
    rec.sample(**case(7))


def histories(cfg, rec):
    """Only density and rate matter: the stress after any history is the stress of a fresh material at that density and rate."""
    from mc.env import np, jnp, eqx, hdx
    from mc import lawlib as W
    names, Ls = W.rate_alphabet(cfg["tier"] == "thorough")
    k = len(names)
    law, ls, mp = W.starts(cfg["law"])
    for amp in (1e-4, .05):
        L0 = jnp.asarray(Ls * amp / 1e-2)
        for d, pre, L, (m, s) in W.words(law, mp, ls, L0, 3 if cfg["tier"] == "quick" else 4, 1e-2):
            n = m.mass_stack.shape[0]
            def case(i, d=d):
                w, st = W.letters(i, d, k, names)
                return dict(law=cfg["law"], amplitude=amp, start=int(st), word=w)
            fresh = W.points(2, n, np.zeros((n, 3, 3)))
            fresh = eqx.tree_at(lambda q: (q.mass_stack, q.volume_stack), fresh, (m.mass_stack / m.volume_stack * .37, jnp.full((n,), .37)))
            st = W.take(ls, np.arange(n) // k ** (d + 1), 3)
            for dt in (0.0,):
                o, _ = W.chunked(law, fresh, st, L, dt)
                sc = 1 + np.abs(np.asarray(o.stress_stack)).max()
                rec.close("history", "a fluid's stress depends on more than its density and rate", np.asarray(m.stress_stack) / sc, np.asarray(o.stress_stack) / sc, 1e-9, case=case)
            rec.close("state", "a fluid's reference density changes", s.density_ref_stack, st.density_ref_stack, 0, case=case)
            rec.count(states=n, transitions=n, traces=n, evals=2 * n, distinct=n)
    rec.sample(**case(n - 4))
