"""C25 Hooke's law, whatever the path."""
PROPERTY = "C25"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all strain words up to a depth on the real law, every reached state compared with the compliance form of Hooke's law applied to the total strain; every word also reversed, split and retimed"
RULE = "all words over the strain increments up to the depth for every modulus pair, amplitude, time step and starting stress; non-trivial = distinct (moduli, start, word)"
ASSUMPTIONS = ["JAX CPU float64", "small strain: increments are the symmetric part of the gradient times the time step, whatever their size"]
NOTE = "oracle: the compliance relation (1+nu)/E s - nu/E tr(s) I = e, written independently"
BOUNDS = {"quick": dict(letters=12, depth=4, moduli=7), "thorough": dict(letters=12, depth=5, moduli=9)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    mods = [(1000.0, .3), (1e6, 0.0), (50.0, .49), (1000.0, -.4), (2e9, .2), (1.0, .3), (3e4, .45)] + ([(1e-3, .1), (7e5, .35)] if tier == "thorough" else [])
    for E, nu in mods:
        for amp in (1e-11, 1e-5, 1e-2) if tier == "quick" else (1e-11, 1e-9, 1e-7, 1e-5, 1e-2, .5):
            out.append(("words_", dict(E=E, nu=nu, amp=amp, depth=4 if tier == "quick" else 5)))
    return out + [("moduli", dict(tier=tier))]


def words_(cfg, rec):
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    E, nu = cfg["E"], cfg["nu"]
    names, Ls = W.rate_alphabet(True)
    k = len(names)
    law, ls, mp = W.starts("elastic", E=E, nu=nu)
    mp = eqx.tree_at(lambda m: m.stress_stack, mp, mp.stress_stack * E / 1000)
    n0 = 4
    s0 = np.asarray(mp.stress_stack)
    comp = lambda s: ((1 + nu) * s - nu * np.trace(s, axis1=1, axis2=2)[:, None, None] * np.eye(3)) / E
    ends = {}
    for dt in (1e-3, .7):
        strain = np.zeros((n0, 3, 3))
        L = jnp.asarray(Ls * cfg["amp"] / dt)
        for d, pre, Lx, (m, s) in W.words(law, mp, ls, L, cfg["depth"] if dt < .1 else cfg["depth"] - 1, dt):
            n = m.mass_stack.shape[0]
            strain = np.repeat(strain, k, 0) + np.tile((Ls + np.swapaxes(Ls, 1, 2)) / 2 * cfg["amp"], (n // k, 1, 1))
            start = np.arange(n) // k ** (d + 1)
            def case(i, d=d):
                w, st = W.letters(i, d, k, names)
                return dict(E=E, nu=nu, amplitude=cfg["amp"], dt=dt, start=int(st), word=w)
            sig = np.asarray(m.stress_stack)
            rec.close("hooke", "the stress change is not Hooke's law applied to the total strain", comp(sig - s0[start]) / cfg["amp"], strain / cfg["amp"], 1e-8 + 2e-15 * np.abs(s0).max() / E / cfg["amp"], case=case)
            rec.close("kept", "an elastic step changes something else", np.concatenate([np.asarray(m.position_stack), np.asarray(m.velocity_stack), np.asarray(m.force_stack)], 1), 0 * np.concatenate([np.asarray(m.position_stack)] * 3, 1), 0, case=case)
            rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
            if d == 2 and dt < .1:
                # back along the reversed word
                idx = np.arange(n)
                cur = (m, s)
                for _ in range(3):
                    cur = W.chunked(law, *cur, -L[idx % k], dt); idx = idx // k
                rec.close("reverse", "a strain path and its reverse do not return the initial stress", np.asarray(cur[0].stress_stack) / (E * cfg["amp"]), s0[start] / (E * cfg["amp"]), 1e-8 + 1e-14 * np.abs(s0).max() / E / cfg["amp"], case=case)
                rec.count(transitions=3 * n, evals=3 * n)
            if d == 1 and dt < .1:
                # each increment cut in parts, also unequal ones
                for cuts in ((.5, .5), (.1, .2, .7), (3.0, -2.0)):
                    cur = (W.take(mp, start, n0), None)
                    for q in (np.arange(n) // k % k, np.arange(n) % k):
                        for c in cuts:
                            cur = W.chunked(law, *cur, L[q] * c, dt)
                    rec.close("split", "cutting a strain step in parts changes the stress", np.asarray(cur[0].stress_stack) / (E * cfg["amp"]), sig / (E * cfg["amp"]), 1e-8 + 1e-14 * np.abs(s0).max() / E / cfg["amp"], case=lambda i: dict(parts=cuts, **case(i)))
                    rec.count(transitions=2 * len(cuts) * n, evals=2 * len(cuts) * n)
    rec.sample(**case(n - 5))


def moduli(cfg, rec):
    """Moduli from Young's modulus and Poisson's ratio; sign convention; both kinds of number; the state keeps what it is given."""
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    for E in (1e-3, 1.0, 1e3, 2.5e7, 2e11):
        for nu in (-.9, -.2, 0.0, .1, .25, 1 / 3, .45, .499):
            for kind in (float, lambda x: jnp.asarray(x)):
                for reset in (True, False):
                    law = hdx.LinearElasticLaw(E=kind(E), nu=kind(nu), requires_F_reset=reset)
                    K, G, lam = float(law.K), float(law.G), float(law.lam)
                    # defining relations, rearranged
                    got = np.array([9 * K * G / (3 * K + G) / E, (3 * K - 2 * G) / (2 * (3 * K + G)), (K - 2 * G / 3) / E])
                    rec.close("moduli", "moduli do not agree with Young's modulus and Poisson's ratio", got[None], np.array([1.0, nu, lam / E])[None], 1e-9, 1e-9, case=dict(E=E, nu=nu))
                    if law.requires_F_reset is not reset:
                        rec.fail("option", "the reset option is ignored", reset=reset)
                    rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
            # compression positive: all-round compression pushes outward; axial compression without lateral strain
            mp = W.points(2, 3)
            L = jnp.stack([jnp.eye(3), -jnp.eye(3), jnp.diag(jnp.array([0., 1., 0.]))])
            o, _ = law.update(eqx.tree_at(lambda m: m.L_stack, mp, L), None, 1e-4)
            s = np.asarray(o.stress_stack) / E / 1e-4
            rec.close("sign", "compression does not give positive pressure", np.trace(s[:2], axis1=1, axis2=2) / 3, np.array([1.0, -1.0]) / (1 - 2 * nu), 1e-9, 1e-9, case=dict(E=E, nu=nu))
            rec.close("oedometer", "confined compression does not give the confined modulus", s[2, 1, 1][None], np.array([(1 - nu) / (1 + nu) / (1 - 2 * nu)]), 1e-9, 1e-9, case=dict(E=E, nu=nu))
    sig = jnp.asarray(np.arange(18.0).reshape(2, 3, 3))
    law = hdx.LinearElasticLaw(E=1.0, nu=.2)
    mp = W.points(3, 2, sig)
    for st, e in ((law.create_state(material_points=mp), sig), (law.create_state(stress_ref_stack=sig), sig), (law.create_state(density_stack=jnp.ones(2)), jnp.zeros((2, 3, 3)))):
        rec.close("state", "the law's state is not the given reference stress", st.stress_ref_stack, e, 0, case=dict())
        o, s2 = law.update(mp, st, .1)
        rec.close("state", "the law's state changes", s2.stress_ref_stack, e, 0, case=dict())
        rec.close("state", "a rest step changes the stress", o.stress_stack, sig, 1e-12, case=dict())
    rec.sample(E=E, nu=nu)
