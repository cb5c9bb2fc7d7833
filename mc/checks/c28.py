"""C28 Modified Cam-Clay."""
PROPERTY = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all strain words up to a depth from a set of starting states on the real law; every transition is compared with the defining relations (hypoelastic trial, consistency, associated flow, hardening, separation) and every reached state with the yield ellipse and the compression lines"
RULE = "all words over the increments up to the depth for every parameter set and amplitude; all initialisations of the alphabet round-tripped; non-trivial = distinct (parameters, start, word)"
ASSUMPTIONS = ["JAX CPU float64", "strain increments up to a quarter of kappa for the exact relations (fixed number of Newton iterations); larger ones are examined separately", "relations are judged above the law's stability pressure p_min_calc", "spin may be integrated to first order"]
NOTE = "relations are evaluated from stresses and preconsolidation pressures before and after only"
BOUNDS = {"quick": dict(letters=8, depth=4, parameters=5), "thorough": dict(letters=12, depth=5, parameters=8)}
FAST_COMPILE = True
PARS = [dict(), dict(M=1.3, lam=.2, kap=.05), dict(nu=0.0), dict(nu=.45, M=.6), dict(K_min=5e4, K_max=4e5)]
MORE = [dict(lam=.03, kap=.015), dict(p_ref=1.0, N=3.0), dict(M=1.7, rho_p=2000.0)]


def tasks(tier):
    out = []
    for kw in PARS + (MORE if tier == "thorough" else []):
        kap = kw.get("kap", .02)
        for amp in (.005 * kap, .05 * kap, .25 * kap) + ((.1 * kap,) if tier == "thorough" else ()):
            if "K_min" in kw and amp > .1 * kap:
                continue
            out.append(("histories", dict(kw=kw, amp=amp, depth=4, full=tier == "thorough")))
            if tier == "thorough":
                out.append(("histories", dict(kw=kw, amp=amp, depth=5, full=False)))
        out.append(("initial", dict(kw=kw, tier=tier)))
    for f in (1.0, 2.0, 5.0):
        out.append(("large", dict(over_kappa=f)))
    return out


def inv(s):
    import numpy as np
    p = np.trace(s, axis1=1, axis2=2) / 3
    dev = s - p[:, None, None] * np.eye(3)
    return p, dev, np.sqrt(1.5 * (dev * dev).sum((1, 2)))


def pars(kw):
    P = dict(nu=.2, M=.9, lam=.1, kap=.02, N=1.9, p_ref=1000.0, rho_p=2650.0, K_min=None, K_max=None)
    P.update(kw)
    return P


def histories(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    P = pars(cfg["kw"])
    M, lam, kap, N, nu = P["M"], P["lam"], P["kap"], P["N"], P["nu"]
    law, ls, mp = W.starts("mcc", **cfg["kw"])
    names, Ls = W.rate_alphabet(cfg["full"])
    k = len(names)
    dt = 1e-2
    amp = cfg["amp"]
    spin = np.abs(Ls - np.swapaxes(Ls, 1, 2)).max((1, 2)) / 2 * amp
    modulus = lambda p: np.clip(p / kap, P["K_min"], P["K_max"]) if P["K_min"] else p / kap
    sh = lambda p: 3 * (1 - 2 * nu) / (2 * (1 + nu)) * modulus(p)
    clean = np.array([True] * 4 + [False])      # never separated, never below the floor (the last start is stress free)
    for d, pre, L, (m, s) in W.words(law, mp, ls, jnp.asarray(Ls * amp / dt), cfg["depth"], dt):
        n = m.mass_stack.shape[0]
        def case(i, d=d):
            w, st = W.letters(i, d, k, names)
            return dict(parameters=P, amplitude=amp, start=int(st), word=w)
        s0, s1 = np.asarray(pre[0].stress_stack), np.asarray(m.stress_stack)
        c0, c1 = np.asarray(pre[1].p_c_stack), np.asarray(s.p_c_stack)
        th = np.tile(spin, n // k)
        Lx = np.asarray(L) * dt
        Wm = -(Lx - np.swapaxes(Lx, 1, 2)) / 2
        De = (Lx + np.swapaxes(Lx, 1, 2)) / 2
        dv = np.trace(De, axis1=1, axis2=2)
        s0r = s0 + Wm @ s0 - s0 @ Wm
        p0, dev0, q0 = inv(s0r)
        p, dev, q = inv(s1)
        v = P["rho_p"] / np.asarray(m.density_stack)
        loose = v > N * (1 + 1e-9); dense = v < N * (1 - 3e-6)
        rec.true("loose", "loose material carries stress", np.abs(s1).max((1, 2)) == 0, got=s1, case=case, mask=loose)
        rec.close("loose", "loose material changes its preconsolidation pressure", c1, c0, 1e-9, case=case, mask=loose)
        clean = np.repeat(clean, k)
        above = dense & (p0 > 10.5) & (p > 10.5)
        f = (q / M) ** 2 / c1 ** 2 + (p / c1) ** 2 - p / c1
        tol = 1e-5 + 4 * th ** 2
        rec.true("yield", "the stress leaves the yield ellipse", f <= tol, got=f, case=case, mask=above)
        rec.true("yield_floor", "a nearly stress-free point leaves the yield ellipse by more than a few times the stability pressure", f <= tol + 20 * 10.0 / c1, got=f, case=case, mask=dense & ~above)
        rec.true("tension_below_floor", "a nearly stress-free point comes under tension", p >= -1e-6 * c1, got=p, case=case, mask=dense & ~above)
        rec.true("tension", "a compressed point comes under tension", p >= -1e-9 * c1, got=p, case=case, mask=above)
        pt = p0 * np.exp(dv / kap)
        devt = dev0 + 2 * sh(pt)[:, None, None] * (De - dv[:, None, None] * np.eye(3) / 3)
        qt = np.sqrt(1.5 * (devt * devt).sum((1, 2)))
        ft = (qt / M) ** 2 / c0 ** 2 + (pt / c0) ** 2 - pt / c0
        size = np.maximum(np.maximum(pt, p), qt)
        el = above & (ft < -tol)
        tr = devt + pt[:, None, None] * np.eye(3)
        rec.close("elastic", "an increment inside the ellipse is not elastic along the swelling line", s1 / size[:, None, None], tr / size[:, None, None], (1e-9 + 8 * th ** 2)[:, None, None], case=case, mask=el)
        rec.close("elastic", "an elastic increment changes the preconsolidation pressure", c1 / c0, np.ones(n), 1e-12, case=case, mask=el)
        pl = above & (ft > tol)
        rec.close("consistent", "a plastic stress is not on the yield ellipse", f, 0 * f, tol, case=case, mask=pl)
        # hardening: total = elastic + plastic volume change
        dep = (lam - kap) * np.log(c1 / c0)
        rec.close("volume", "the volume change is not the sum of the swelling and the hardening line", (dep + kap * np.log(p / np.where(above, p0, p))) / amp, dv / amp, 1e-6 + 8 * th ** 2 / amp, case=case, mask=pl)
        wet = 2 * p > c1
        rec.true("grow", "the preconsolidation pressure falls while the material compacts plastically", (c1 - c0 >= -1e-7 * c0), got=c1 / c0, case=case, mask=pl & wet)
        rec.true("shrink", "the preconsolidation pressure grows while the material dilates plastically", (c1 - c0 <= 1e-7 * c0), got=c1 / c0, case=case, mask=pl & ~wet)
        rec.close("direction", "the return changes the direction of the shear stress", dev * qt[:, None, None] / size[:, None, None] ** 2, devt * q[:, None, None] / size[:, None, None] ** 2, (1e-8 + 8 * th ** 2)[:, None, None], case=case, mask=pl)
        sheared = pl & (q > 1e-2 * p)
        lamb = (qt / np.where(sheared, q, 1) - 1) / (6 * sh(p))
        rec.close("flow", "plastic volume and shear strain do not follow the associated flow rule", dep / amp, lamb * (2 * p - c1) * M * M / amp, 2e-4 + 30 * th ** 2 / amp, 1e-4, case=case, mask=sheared)
        # the stored elastic strain: adds up in elastic increments, is the secant strain of the stress after a return, stays with loose material
        e0, e1 = np.asarray(pre[1].eps_e_stack), np.asarray(s.eps_e_stack)
        e0r = e0 + Wm @ e0 - e0 @ Wm
        es = (np.abs(e0).max((1, 2)) + amp)[:, None, None]
        rec.close("strain", "an elastic increment does not add to the stored elastic strain", e1 / es, (e0r + De) / es, (1e-9 + 8 * th ** 2)[:, None, None], case=case, mask=el)
        rec.close("strain", "loose material changes its stored elastic strain beyond turning it", e1 / es, e0r / es, (1e-9 + 8 * th ** 2)[:, None, None], case=case, mask=loose)
        r0, rd, _ = inv(np.asarray(s.stress_ref_stack))
        sec = (dev - rd) / (2 * sh(p))[:, None, None] + ((p - r0) / modulus(p) / 3)[:, None, None] * np.eye(3)
        rec.close("strain", "the stored elastic strain does not carry the stress after a return", e1, sec, 1e-9, 1e-9, case=case, mask=pl)
        # whatever the path, density, pressure and preconsolidation stay on the compression lines
        line = np.log(N) + lam * np.log(P["p_ref"] / c1) + kap * np.log(c1 / np.where(p > 0, p, 1))
        clean = clean & above
        rec.close("line", "density leaves the compression lines of its pressure and preconsolidation", np.log(v), line, 2e-6 * (d + 1) + 8 * (th.max() ** 2) * (d + 1), case=case, mask=clean)
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n, elastic=el.sum(), plastic=pl.sum(), loose=loose.sum(), dry=(pl & ~wet).sum())
    rec.sample(**case(n - 6))


def large(cfg, rec):
    """Increments beyond a quarter of kappa: the stress has to be on the ellipse all the same."""
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    P = pars({})
    law, ls, mp = W.starts("mcc")
    names, Ls = W.rate_alphabet(True)
    k = len(names)
    amp = cfg["over_kappa"] * P["kap"]
    for d, pre, L, (m, s) in W.words(law, mp, ls, jnp.asarray(Ls * amp / 1e-2), 3, 1e-2):
        n = m.mass_stack.shape[0]
        def case(i, d=d):
            w, st = W.letters(i, d, k, names)
            return dict(amplitude=amp, start=int(st), word=w)
        s1, c1 = np.asarray(m.stress_stack), np.asarray(s.p_c_stack)
        p, dev, q = inv(s1)
        v = P["rho_p"] / np.asarray(m.density_stack)
        above = (v < P["N"] * (1 - 3e-6)) & (np.trace(np.asarray(pre[0].stress_stack), axis1=1, axis2=2) / 3 > 10.5)
        f = (q / P["M"]) ** 2 / c1 ** 2 + (p / c1) ** 2 - p / c1
        rec.true("yield", "the stress leaves the yield ellipse", ~(f > 1e-4), got=f, case=case, mask=above)
        rec.true("finite", "the stress is not a number", np.isfinite(s1).all((1, 2)), got=f, case=case)
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    rec.sample(**case(n - 6))


def initial(cfg, rec):
    """States from overconsolidation, stress and density are consistent and convert into each other."""
    import itertools
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    P = pars(cfg["kw"])
    law = hdx.ModifiedCamClay(**{**W.MCC, **cfg["kw"]})
    M, lam, kap, N = P["M"], P["lam"], P["kap"], P["N"]
    A = list(itertools.product([10., 500., 1e4, 3e5, 2e6], [1.0, 1.0001, 1.3, 2.0, 8.0, 50.0], [0.0, .1, .5, .9, 1.0, 1.7, 5.0]))
    p = np.array([a for a, _, _ in A]); ocr = np.array([b for _, b, _ in A]); eta = np.array([c for _, _, c in A])
    case = lambda i: dict(parameters=P, p=A[i][0], ocr=A[i][1], q_over_p=A[i][2] * M)
    q = eta * M * p
    n = len(A)
    lim = M * np.sqrt(ocr - 1)
    for given in (True, False):
        st, sig, rho = law.create_state_from_ocr(p_stack=jnp.asarray(p), ocr_stack=jnp.asarray(ocr), **(dict(q_stack=jnp.asarray(q)) if given else {}))
        pp, dev, qq = inv(np.asarray(sig))
        rec.close("ocr_p", "the stress does not have the asked pressure", pp / p, np.ones(n), 1e-10, case=case)
        e = np.minimum(q / p, lim) if given else 0 * p
        rec.close("ocr_q", "the stress does not have the asked shear (cut at the yield ellipse)", qq / p, e, 1e-7, case=case)
        rec.close("ocr_pc", "the preconsolidation pressure is not the overconsolidation ratio times the pressure", np.asarray(st.p_c_stack) / p, ocr, 1e-10, case=case)
        rec.close("ocr_ref", "the reference stress is not the initial stress", st.stress_ref_stack, sig, 0, case=case)
        lnv = np.log(N) + lam * np.log(P["p_ref"] / (p * ocr)) + kap * np.log(ocr)
        rec.close("ocr_rho", "the density is not on the swelling line of the state", np.log(P["rho_p"] / np.asarray(rho)), lnv, 1e-10, case=case)
        # back from density
        st2, v2 = law.create_state_from_density(p_stack=jnp.asarray(p), density_stack=rho)
        rec.close("density", "a state from density has another preconsolidation pressure", np.asarray(st2.p_c_stack) / (p * ocr), np.ones(n), 1e-8, case=case)
        rec.close("density", "a state from density has another specific volume", np.asarray(v2), P["rho_p"] / np.asarray(rho), 1e-10, case=case)
        rec.close("density", "a state from density has another pressure", inv(np.asarray(st2.stress_ref_stack))[0] / p, np.ones(n), 1e-10, case=case)
        rec.count(states=n, transitions=n, traces=n, evals=2 * n, distinct=n)
    # one number for all points
    for o in (1.0, 3.0):
        st, sig, rho = law.create_state_from_ocr(p_stack=jnp.asarray(p), ocr_stack=o)
        rec.close("ocr_scalar", "one overconsolidation ratio does not serve all points", np.asarray(st.p_c_stack), p * o, 1e-10, 1e-10, case=case)
    # on the ellipse
    st, rho = law.create_state_from_stress(p_stack=jnp.asarray(p), q_stack=jnp.asarray(q))
    pp, dev, qq = inv(np.asarray(st.stress_ref_stack)); c = np.asarray(st.p_c_stack)
    rec.close("stress", "a state from stress does not have that stress", np.stack([pp / p, qq / p], 1), np.stack([np.ones(n), q / p], 1), 1e-9, case=case)
    rec.close("stress", "a state from stress is not on the yield ellipse", (qq / M / c) ** 2 + (pp / c) ** 2 - pp / c, np.zeros(n), 1e-10, case=case)
    rec.close("stress", "the density of a state from stress is not on its swelling line", np.log(P["rho_p"] / np.asarray(rho)), np.log(N) + lam * np.log(P["p_ref"] / c) + kap * np.log(c / p), 1e-10, case=case)
    # from points: normally consolidated at their pressure
    mp = W.points(3, n, np.asarray(sig))
    st = law.create_state(mp)
    rec.close("points", "a state from points is not normally consolidated", st.p_c_stack, p, 1e-9, 1e-9, case=case)
    # the user-facing relations
    for a in (50., 1e3, 7e4):
        for o in (1.0, 2.0, 9.0):
            pc = a * o
            ncl = N * (P["p_ref"] / pc) ** lam
            got = [law.get_v_ncl(pc, P["p_ref"], N, lam), law.get_v_sl(pc, a, P["p_ref"], N, lam, kap), law.get_v_csl(a, P["p_ref"], N, lam, kap), law.get_v_f_kappa(pc, a, kap), law.get_qp_ys(pc, a, M),
                   law.yield_function(a, pc, 0.0, M), law.yield_function(pc / 2, pc, M * pc / 2, M) / pc ** 2]
            # critical state line: the swelling line through p = p_c / 2
            csl = N * (P["p_ref"] / (2 * a)) ** lam * 2 ** kap
            exp = [ncl, ncl * o ** kap, csl, o ** kap, M * np.sqrt(o - 1), a * a - pc * a, 0.0]
            rec.close("relations", "a compression line or yield helper disagrees with its definition", np.array([float(g) for g in got])[None], np.array(exp)[None], 1e-10, 1e-10, case=dict(p=a, ocr=o))
            rec.count(states=1, transitions=7, evals=7, distinct=1)
    rec.sample(**case(11))
