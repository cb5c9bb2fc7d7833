"""C27 Drucker-Prager."""
PROPERTY = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all strain words up to a depth from a set of starting states on the real law; every transition is compared with the defining relations of the law (elastic trial, consistency, flow rule, hardening, apex, separation) and every reached state with the yield surface"
RULE = "all words over the increments up to the depth for every parameter set and amplitude; non-trivial = distinct (parameters, start, word)"
ASSUMPTIONS = ["JAX CPU float64", "spin may be integrated to first order", "the law's round-off floor on the shear stress (1e-6) is tolerated", "starting stresses need not be inside the cone: then the first increment returns them"]
NOTE = "relations are evaluated from stresses before and after only; the plastic multiplier is recovered from the shear stress"
BOUNDS = {"quick": dict(letters=8, depth=4, parameters=7), "thorough": dict(letters=12, depth=5, parameters=11)}
FAST_COMPILE = True
PARS = [dict(), dict(H=0.0), dict(c0=0.0, H=0.0, mu_2=0.0), dict(mu_1_hat=0.0), dict(mu_1_hat=.4), dict(mu_1=.8, mu_2=.3, nu=.45, rho_0=995.0), dict(H=-5.0, c0=30.0)]
MORE = [dict(nu=0.0, mu_1=.1), dict(c0=200.0, H=300.0), dict(mu_1_hat=.25, mu_1=.25), dict(K=20.0, mu_1=1.2)]


def tasks(tier):
    out = []
    for kw in PARS + (MORE if tier == "thorough" else []):
        for amp in (1e-3, 2e-2, .2) + ((1e-5, 4e-3) if tier == "thorough" else ()):
            out.append(("histories", dict(kw=kw, amp=amp, depth=4, full=tier == "thorough")))
            if tier == "thorough":
                out.append(("histories", dict(kw=kw, amp=amp, depth=5, full=False)))
        out.append(("splitting", dict(kw=kw, tier=tier)))
    return out


def inv(s):
    import numpy as np
    p = np.trace(s, axis1=1, axis2=2) / 3
    dev = s - p[:, None, None] * np.eye(3)
    return p, dev, np.sqrt(.5 * (dev * dev).sum((1, 2)))


def histories(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    P = dict(K=1000.0, nu=.3, mu_1=.4, mu_2=1.0, c0=10.0, mu_1_hat=.1, H=20.0, rho_0=500.0); P.update(cfg["kw"])
    K, nu, m1, m2, c0, mh, H, r0 = [P[q] for q in ("K", "nu", "mu_1", "mu_2", "c0", "mu_1_hat", "H", "rho_0")]
    G = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    law, ls, mp = W.starts("dp", **cfg["kw"])
    names, Ls = W.rate_alphabet(cfg["full"])
    k = len(names)
    dt = 1e-2
    amp = cfg["amp"]
    spin = np.abs(Ls - np.swapaxes(Ls, 1, 2)).max((1, 2)) / 2 * amp
    for d, pre, L, (m, s) in W.words(law, mp, ls, jnp.asarray(Ls * amp / dt), cfg["depth"], dt):
        n = m.mass_stack.shape[0]
        def case(i, d=d):
            w, st = W.letters(i, d, k, names)
            return dict(parameters=P, amplitude=amp, start=int(st), word=w)
        s0, s1 = np.asarray(pre[0].stress_stack), np.asarray(m.stress_stack)
        a0, a1 = np.asarray(pre[1].eps_p_acc_stack), np.asarray(s.eps_p_acc_stack)
        th = np.tile(spin, n // k)
        Lx = np.asarray(L) * dt
        Wm = -(Lx - np.swapaxes(Lx, 1, 2)) / 2
        De = (Lx + np.swapaxes(Lx, 1, 2)) / 2
        dv = np.trace(De, axis1=1, axis2=2)
        tr = s0 + Wm @ s0 - s0 @ Wm + K * dv[:, None, None] * np.eye(3) + 2 * G * (De - dv[:, None, None] * np.eye(3) / 3)
        size = 1 + np.abs(tr).max((1, 2))
        slack = 1e-9 * size + 3e-6 + 4 * th ** 2 * np.abs(s0).max((1, 2))
        rho = np.asarray(m.density_stack)
        loose = rho < r0 * (1 - 1e-9); dense = rho > r0 * (1 + 1e-9)
        p, dev, t = inv(s1)
        pt, devt, tt = inv(tr)
        c = c0 + H * a1
        f = t - m1 * p - m2 * c
        ft = tt - m1 * pt - m2 * (c0 + H * a0)
        rec.true("yield", "the stress leaves the yield surface", f <= slack * (1 + m1), got=f, case=case, mask=dense)
        rec.true("apex", "the pressure exceeds the tensile apex", m1 * p >= -m2 * c - slack, got=p, case=case, mask=dense)
        rec.true("loose", "material looser than its reference density carries stress", np.abs(s1).max((1, 2)) == 0, got=s1, case=case, mask=loose)
        rec.true("growth", "the accumulated plastic strain decreases", a1 >= a0 - 1e-12, got=a1 - a0, case=case)
        el = dense & (ft < -slack)
        rec.close("elastic", "an increment inside the yield surface is not elastic", s1 / size[:, None, None], tr / size[:, None, None], (slack / size)[:, None, None], case=case, mask=el)
        rec.close("elastic", "an elastic increment hardens", a1, a0, 1e-12, case=case, mask=el)
        pl = dense & (ft > slack)
        # where does the cone return end?
        dg = ft / (G + K * m1 * mh + H * m2 * m2)
        cone = pl & (tt - G * dg > slack)
        apex = pl & (tt - G * dg < -slack)
        rec.close("consistent", "a plastic stress is not on the yield surface", f / size, 0 * f, (slack * (1 + m1) / size), case=case, mask=cone | apex)
        g = (tt - t) / G
        gs = slack * (1 + abs(K * mh / G)) * 2
        rec.close("direction", "the return changes the direction of the shear stress", dev * tt[:, None, None] / size[:, None, None] ** 2, devt * t[:, None, None] / size[:, None, None] ** 2, (slack / size)[:, None, None] * 4, case=case, mask=cone)
        rec.close("flow", "the pressure does not follow the flow rule", (p - pt) / size, K * mh * g / size, gs / size, case=case, mask=cone)
        rec.close("harden", "the accumulated plastic strain does not follow the hardening rule", a1 - a0, m2 * g, gs / G * (1 + m2), case=case, mask=cone)
        rec.close("apex_stress", "a stress at the apex has shear", t / size, 0 * t, slack / size, case=case, mask=apex)
        if m1 > 0:
            rec.close("apex_harden", "the apex return does not follow the hardening rule", a1 - a0, m2 / m1 * (p - pt) / K, slack / K * (1 + m2 / m1) * 2, case=case, mask=apex)
        # the stored elastic strain carries the stress
        ee = np.asarray(s.eps_e_stack); ev = np.trace(ee, axis1=1, axis2=2); p0 = np.asarray(s.p_0_stack)
        back = (p0 + K * ev)[:, None, None] * np.eye(3) + 2 * G * (ee - ev[:, None, None] * np.eye(3) / 3)
        rec.close("strain", "the stored elastic strain does not carry the stress", back / size[:, None, None], s1 / size[:, None, None], 1e-8, case=case)
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n, elastic=el.sum(), cone=cone.sum(), apex=apex.sum(), loose=loose.sum())
    rec.sample(**case(n - 6))


def splitting(cfg, rec):
    """A proportional elastic path gives the same stress in any number of parts and any time step; changing only the time step and rate changes nothing."""
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    kw = {**cfg["kw"], "c0": 1e5, "mu_2": 1.0, "H": abs(cfg["kw"].get("H", 20.0))}       # stays elastic
    names, Ls = W.rate_alphabet(True)
    sym = [i for i in range(len(names)) if np.abs(Ls[i] - Ls[i].T).max() == 0]
    law, ls, mp = W.starts("dp", **kw)
    n = 4
    for i in range(len(names)):
        for amp in (1e-4, .03):
            one = W.apply(law, mp, ls, jnp.tile(jnp.asarray(Ls[i] * amp / 1e-2), (n, 1, 1)), 1e-2)
            case = dict(parameters=kw, increment=names[i], amplitude=amp)
            sc = 1 + np.abs(np.asarray(one[0].stress_stack)).max()
            for dt in (1e-6, 3.0):
                o = W.apply(law, mp, ls, jnp.tile(jnp.asarray(Ls[i] * amp / dt), (n, 1, 1)), dt)
                rec.close("rate", "the stress depends on the rate", np.asarray(o[0].stress_stack) / sc, np.asarray(one[0].stress_stack) / sc, 1e-10, case=lambda _: dict(dt=dt, **case))
            for cuts in ((.5, .5), (.1, .6, .3), (.125,) * 8):
                cur = (mp, ls)
                for c in cuts:
                    cur = W.apply(law, *cur, jnp.tile(jnp.asarray(Ls[i] * amp * c / 1e-2), (n, 1, 1)), 1e-2)
                tol = 1e-9 if i in sym else 1e-9 + 4 * (2 * amp) ** 2
                rec.close("split", "an elastic increment in parts gives another stress", np.asarray(cur[0].stress_stack) / sc, np.asarray(one[0].stress_stack) / sc, tol, case=lambda _: dict(parts=cuts, **case))
                rec.count(states=len(cuts), transitions=n * len(cuts), traces=n, evals=n * len(cuts), distinct=1)
    rec.sample(**case)
