"""C24 isotropy, symmetry, locality, rest and objectivity of every law."""
PROPERTY = "C24"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all increment words up to a depth from a set of admissible starting states on the real laws; every reached state is checked for symmetry and finiteness, and every transition for isotropy (all histories rotated), locality (shuffled, alone, and next to broken points), rest and co-rotation"
RULE = "all words over the increment alphabet up to the depth, for every law, amplitude and parameter set; every reached state is one state of the search; non-trivial = distinct (law, start, word)"
ASSUMPTIONS = ["JAX CPU float64", "volumes follow the trace of the increments", "a spin step may be integrated to first order: co-rotation within the square of the spin"]
NOTE = "the laws themselves are stepped; the oracle is the law applied to the transformed history"
BOUNDS = {"quick": dict(letters=8, depth=4, amplitudes=3), "thorough": dict(letters="12 to depth 4, 8 to depth 5", amplitudes=4)}
FAST_COMPILE = True
PAR = dict(elastic=[{}, dict(nu=0.0)], newton=[{}, dict(viscosity=0.0)], mui=[{}, dict(mu_s=.5, mu_d=.5)],
           dp=[{}, dict(H=0.0, c0=0.0, mu_1_hat=.4)], mcc=[{}, dict(M=1.3, lam=.2, kap=.05)])
PAR_MORE = dict(elastic=[dict(nu=.45)], newton=[dict(beta=1.0)], mui=[dict(alpha=1e-6, d_p=.1)], dp=[dict(mu_1=.8, mu_2=.3, nu=.45)], mcc=[dict(nu=0.0, K_min=1e5, K_max=1e6)])


def tasks(tier):
    out = []
    for name in PAR:
        par = PAR[name] + (PAR_MORE[name] if tier == "thorough" else [])
        for kw in par:
            amps = (1e-4, 3e-3, 4e-2) + ((.15,) if tier == "thorough" else ())
            if name == "mcc":      # the fixed number of Newton iterations resolves a quarter of kappa (C28 looks further)
                amps = (1e-4, 1e-3, .25 * kw.get("kap", .02)) + ((1e-5,) if tier == "thorough" else ())
                amps = amps if "K_min" not in kw else (1e-4, 1e-5)
            for amp in amps:
                out.append(("histories", dict(law=name, kw=kw, amp=amp, depth=4, full=tier == "thorough")))
                if tier == "thorough":
                    out.append(("histories", dict(law=name, kw=kw, amp=amp, depth=5, full=False)))
    return sorted(out, key=lambda t: t[1]["law"] != "mcc")


def rotations():
    import numpy as np
    a = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
    b = np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]])
    t = np.array([.3, -.7, 1.1]); th = np.linalg.norm(t); k = t / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    g = np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K
    return [a, b, g]


def parts(ls):
    import jax, numpy as np
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(ls)]


def histories(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    law, ls, mp = W.starts(cfg["law"], **cfg["kw"])
    n0 = mp.mass_stack.shape[0]
    names, Ls = W.rate_alphabet(cfg["full"])
    k = len(names)
    dt = 1e-2
    L0 = jnp.asarray(Ls * cfg["amp"] / dt)
    rotT = lambda R, t: jax.tree_util.tree_map(lambda a: jnp.einsum("ij,njk,lk->nil", R, a, R) if getattr(a, "ndim", 0) == 3 else a, t)
    soft = cfg["law"] == "mcc"
    relax = {'mcc': 2e-4, 'dp': 1e-5}.get(cfg['law'], 1e-8)
    rtol = 1e-6 if soft else 1e-9
    atol0 = 1e-3 if soft else 1e-8
    rng = np.random.default_rng(0)
    depth = cfg["depth"]
    paths = [W.words(law, mp, ls, L0, depth, dt)] + [W.words(law, eqx.tree_at(lambda m: m.stress_stack, mp, jnp.einsum("ij,njk,lk->nil", R, mp.stress_stack, R)), rotT(R, ls),
                                                             jnp.einsum("ij,njk,lk->nil", R, L0, R), depth - 1, dt) for R in rotations()]
    its = [iter(p) for p in paths]
    rate_free = cfg["law"] not in ("newton", "mui")
    for d in range(depth):
        _, pre, L, (m, s) = next(its[0])
        n = m.mass_stack.shape[0]
        sig = np.asarray(m.stress_stack)
        size = np.abs(sig).reshape(n, -1).max(1)
        def case(i, d=d):
            w, st = W.letters(i, d, k, names)
            return dict(law=cfg["law"], parameters=cfg["kw"], amplitude=cfg["amp"], start=int(st), word=w)
        rec.true("finite", "a law gives a stress or history that is not a number", np.isfinite(sig).reshape(n, -1).all(1) & np.stack([np.isfinite(q).reshape(n, -1).all(1) for q in parts(s)] + [np.ones(n, bool)]).all(0), got=sig, case=case)
        rec.close("symmetric", "a law gives an unsymmetric stress", sig, np.swapaxes(sig, 1, 2), 1e-9, 1e-9, case=case)
        scale = np.maximum(size, 1.0)[:, None, None]
        # isotropy
        for R, it in zip(rotations(), its[1:]):
            if d >= depth - 1:
                break
            _, _, _, (m2, s2) = next(it)
            rec.close("isotropic", "a rotated history does not give the rotated stress", np.asarray(m2.stress_stack) / scale, np.einsum("ij,njk,lk->nil", R, sig, R) / scale, max(rtol, 1e-9) * 10, case=case)
            for a, b in zip(parts(rotT(jnp.asarray(R), s)), parts(s2)):
                sc = max(1e-3, np.abs(a).max()) if not soft else np.maximum(1e-3, np.abs(a).max())
                rec.close("isotropic_state", "a rotated history does not give the rotated history variables", b / sc, a / sc, 1e-6 if soft else 1e-8, case=case)
        # rest: one more increment without deformation
        if rate_free:
            r, rs = W.chunked(law, m, s, jnp.zeros((n, 3, 3)), dt)
            # the return mappings leave (and later close) a small residual
            rec.close("rest", "an increment without deformation changes the stress", np.asarray(r.stress_stack) / scale, sig / scale, relax, case=case)
            for a, b in zip(parts(s), parts(rs)):
                sc = np.maximum(.1, np.abs(a).reshape(n, -1).max(1)).reshape((n,) + (1,) * (a.ndim - 1))
                if soft and a.ndim == 3:
                    continue        # stored elastic strain is informational there
                rec.close("rest_state", "an increment without deformation changes the history variables", b / sc, a / sc, relax, case=case)
        else:
            r, rs = W.chunked(law, m, s, jnp.zeros((n, 3, 3)), dt)
            p = np.trace(sig, axis1=1, axis2=2) / 3
            rec.close("rest", "an increment without deformation does not leave exactly the pressure", np.asarray(r.stress_stack) / scale, p[:, None, None] * np.eye(3) / scale, 1e-9, case=case)
            for a, b in zip(parts(s), parts(rs)):
                rec.close("rest_state", "an increment without deformation changes the history variables", b, a, 1e-12, case=case)
        # locality: shuffled, and next to points that are broken
        if d <= 2:
            perm = rng.permutation(n)
            pm, psx = W.take(pre, perm, n)
            o, os_ = W.chunked(law, pm, psx, L[perm], dt)
            rec.close("local", "a point's stress depends on the order of the points", np.asarray(o.stress_stack) / scale[perm], sig[perm] / scale[perm], 1e-11 if not soft else 1e-9, case=lambda i: case(int(perm[i])))
            bad = jnp.arange(n) % 2 == 0
            pb = eqx.tree_at(lambda q: (q.stress_stack, q.volume_stack, q.mass_stack), pre[0], (jnp.where(bad[:, None, None], 1e7, pre[0].stress_stack), jnp.where(bad, 1e-3, pre[0].volume_stack), jnp.where(bad, 7e3, pre[0].mass_stack)))
            o, os_ = W.chunked(law, pb, pre[1], jnp.where(bad[:, None, None], 900.0, L), dt)
            good = ~np.asarray(bad)
            rec.close("local", "a point's stress depends on the other points", np.asarray(o.stress_stack) / scale, sig / scale, 1e-11 if not soft else 1e-9, case=case, mask=good)
            for a, b in zip(parts(s), parts(os_)):
                rec.close("local_state", "a point's history depends on the other points", b, a, 1e-9, 1e-9, case=case, mask=good)
            # the same far from the initial volume
            for J in (.25, 4.0):
                far = eqx.tree_at(lambda q: q.volume0_stack, pre[0], pre[0].volume0_stack / J)
                o1, os1 = W.chunked(law, far, pre[1], L, dt)
                o2, os2 = W.chunked(law, eqx.tree_at(lambda q: (q.stress_stack, q.volume_stack, q.volume0_stack), far, (
                    jnp.where(bad[:, None, None], -3e3, far.stress_stack), jnp.where(bad, far.volume_stack * 1.5, far.volume_stack), jnp.where(bad, 9.0, far.volume0_stack))),
                    pre[1], jnp.where(bad[:, None, None], -7.0, L), dt)
                a = np.asarray(o1.stress_stack); sc = np.maximum(np.abs(a).reshape(n, -1).max(1), 1.0)[:, None, None]
                rec.close("local", "a point's stress depends on the other points when the body is far from its initial volume", np.asarray(o2.stress_stack) / sc, a / sc, 1e-11 if not soft else 1e-9, case=lambda i: dict(volume_ratio=J, **case(i)), mask=good)
        if d <= 1:
            for i in range(0, n, max(1, n // 12)):
                a1, s1 = W.take(pre, np.array([i]), n)
                o, os_ = W.apply(law, a1, s1, L[i:i + 1], dt)
                rec.close("alone", "a point alone behaves differently than among others", np.asarray(o.stress_stack)[0][None] / scale[i], sig[i][None] / scale[i], 1e-10 if not soft else 1e-8, case=lambda _: case(i))
        # co-rotation: a small rigid spin of an objective law turns the stress with it (volume unchanged)
        if cfg["law"] in ("dp", "mcc"):
            for w in ((0, 0, 1.0), (.6, -.8, 0), (.3, .5, -.7)):
                th = 1e-4
                w = np.array(w)
                Om = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]) * th
                o, os_ = W.chunked(law, m, s, jnp.tile(jnp.asarray(-Om / dt), (n, 1, 1)), dt)
                R = np.eye(3) + Om + Om @ Om / 2
                rec.close("corotate", "a rigid spin does not turn the stress with the material", np.asarray(o.stress_stack) / scale, np.einsum("ij,njk,lk->nil", R, sig, R) / scale, 20 * th * th + relax, case=lambda i: dict(spin=w.tolist(), **case(i)))
        rec.count(states=n, transitions=n, traces=n, evals=n * (6 if d < depth - 1 else 3), distinct=n)
    rec.sample(**case(n - 3))
