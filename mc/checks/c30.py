"""C30 element tests."""
PROPERTY = "C30"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all gradient words up to a depth on the real driver against an independent kinematic reference, and of all triaxial programmes of the alphabet (law x drainage x target x rate form x stride x static start) whose recorded histories are replayed step by step"
RULE = "all words x laws x deformation maps; all programmes of the product; non-trivial = distinct word or programme"
ASSUMPTIONS = ["JAX CPU float64", "Cam-Clay steps small enough for its Newton iterations (C28)"]
NOTE = "matrix exponentials come from scipy; the laws themselves are judged by C24-C28 and called directly here"
BOUNDS = {"quick": dict(depth=3, letters=8, steps=12), "thorough": dict(depth=4, letters=8, steps=24)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for law in ("elastic", "newton", "mui", "dp", "mcc"):
        for lin in (0, 1, 2):
            out.append(("driver", dict(law=law, linear=lin, depth=3 if tier == "quick" else 4)))
    for law in ("elastic", "dp", "mcc"):
        for mode in ("drained", "pconst", "undrained"):
            out.append(("triaxial", dict(law=law, mode=mode, tier=tier)))
    return sorted(out, key=lambda t: t[0] != "triaxial")


def driver(cfg, rec):
    """linear: 0 exponential, 1 linear by option of the driver, 2 linear by option of the step (overriding)"""
    from scipy.linalg import expm
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    names, Ls = W.rate_alphabet(False)
    k = len(names)
    amp = .004 if cfg["law"] == "mcc" else .05
    for dt in (1e-2, .5):
        law, ls, mp = W.starts(cfg["law"])
        n = mp.mass_stack.shape[0]
        mp = eqx.tree_at(lambda m: (m.volume_stack, m.volume0_stack, m.mass_stack), mp, (mp.volume_stack * .3, mp.volume0_stack * .3, mp.mass_stack * .3))
        L0 = Ls * amp / dt
        drv = hdx.ElementTestDriver(law, is_F_linear_approx=cfg["linear"] == 1)
        opt = {} if cfg["linear"] < 2 else dict(is_F_linear_approx=True)
        go = eqx.filter_jit(lambda m, s, L: drv.step(m, s, L, dt, **opt))
        ref = eqx.filter_jit(lambda m, s: law.update(m, s, dt))
        if cfg["linear"] == 0:       # a step option beats the driver's, either way
            d2 = hdx.ElementTestDriver(law, is_F_linear_approx=True)
            a = d2.step(mp, ls, jnp.tile(jnp.asarray(L0[7]), (n, 1, 1)), dt, is_F_linear_approx=False)[0]
            b = drv.step(mp, ls, jnp.tile(jnp.asarray(L0[7]), (n, 1, 1)), dt)[0]
            rec.close("option", "the step's choice of the deformation map does not win", a.F_stack, b.F_stack, 1e-14, case=dict())
        inc = np.stack([expm(-q * dt) if cfg["linear"] == 0 else np.eye(3) - q * dt for q in L0])
        F = np.asarray(mp.F_stack).copy()
        cur = (mp, ls)
        for d in range(cfg["depth"]):
            pre = W.rep(cur, k, n)
            F = np.repeat(F, k, 0); n *= k
            L = jnp.asarray(np.tile(L0, (n // k, 1, 1)))
            F = np.tile(inc, (n // k, 1, 1)) @ F
            cur = go(*pre, L)
            m, s = cur
            def case(i, d=d):
                w, st = W.letters(i, d, k, names)
                return dict(law=cfg["law"], linear=cfg["linear"], dt=dt, start=int(st), word=w)
            if cfg["linear"] == 1 and d == 0:     # a driver without its option: then judge everything else by the map it uses
                ex = np.tile(np.stack([expm(-q * dt) for q in L0]), (n // k, 1, 1)) @ np.asarray(pre[0].F_stack)
                if np.abs(np.asarray(m.F_stack) - ex).max() < 1e-12 < np.abs(F - ex).max():
                    rec.fail("option_ignored", "the driver uses the exponential map although asked for the linear one", **case(k - 1))
                    F, inc = ex, np.stack([expm(-q * dt) for q in L0])
            rec.close("map", "the deformation does not advance by the map of the prescribed gradient", m.F_stack, F, 1e-12, 1e-11, case=case)
            V = np.linalg.det(F) * np.asarray(pre[0].volume0_stack)
            rec.close("volume", "the volume does not follow the deformation", m.volume_stack, V, 1e-12, 1e-10, case=case)
            rec.close("density", "the density is not mass over volume", np.asarray(m.density_stack) * V / np.asarray(mp.mass_stack)[np.arange(n) // k ** (d + 1)], np.ones(n), 1e-10, case=case)
            rec.close("gradient", "the prescribed gradient is not recorded", m.L_stack, L, 0, case=case)
            seen = eqx.tree_at(lambda q: (q.L_stack, q.F_stack, q.volume_stack), pre[0], (L, jnp.asarray(F), jnp.asarray(V)))
            e, es = ref(seen, pre[1])
            sc = 1 + np.abs(np.asarray(e.stress_stack)).max((1, 2))[:, None, None]
            if np.abs(np.asarray(m.stress_stack) / sc - np.asarray(e.stress_stack) / sc).max() > 1e-8:
                o, os_ = ref(eqx.tree_at(lambda q: q.volume_stack, seen, pre[0].volume_stack), pre[1])
                so = 1 + np.abs(np.asarray(o.stress_stack)).max((1, 2))[:, None, None]
                if np.abs((np.asarray(m.stress_stack) - np.asarray(o.stress_stack)) / so).max() < 1e-8:
                    i = int(np.abs(np.asarray(m.stress_stack) / sc - np.asarray(e.stress_stack) / sc).max((1, 2)).argmax())
                    rec.fail("previous_density", "the law is evaluated at the density of the previous step", got=np.asarray(m.stress_stack[i]), expected=np.asarray(e.stress_stack[i]), **case(i))
                    e, es, sc = o, os_, so
            rec.close("law", "the law is not evaluated on the updated kinematics", np.asarray(m.stress_stack) / sc, np.asarray(e.stress_stack) / sc, 1e-8, case=case)
            for a, b in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(es)):
                rec.close("history", "the history variables are not the law's", a, b, 1e-9, 1e-8, case=case)
            for nm in ("position_stack", "velocity_stack", "force_stack", "mass_stack", "volume0_stack"):
                rec.close("kept", "an element step changes " + nm, getattr(m, nm), getattr(pre[0], nm), 0, case=case)
            rec.count(states=n, transitions=n, traces=n, evals=2 * n, distinct=n)
    rec.sample(**case(n - 5))


def start(law):
    from mc.env import np, jnp, eqx, hdx
    from mc import lawlib as W
    if law == "mcc":
        l, ls, mp = W.ready("mcc", 3, 1, ocr=1.6)
        return l, ls, mp, 1e4, 2e-4
    l, ls, mp = W.ready(law, 3, 1, p0=50.0)
    return l, ls, mp, 50.0, 4e-3


def label(rec, test, strain, rate, dt, T, q, case):
    """The reported axial strains. Known defect: values that do not belong to the snapshots (first of each stride, from zero for a constant step), or none at all."""
    from mc.env import np
    if np.ndim(dt):
        old = np.cumsum(rate * dt)[::q]
    elif test.num_steps is None:
        old = None
    else:
        old = np.linspace(0, rate * dt * T, T)[::q]
    try:
        got = np.asarray(test.axial_strain_stack)
    except TypeError:
        if old is not None:
            raise
        rec.fail("label_formula", "the axial strains of a run with a rate per step and a constant time step cannot be computed", **case(0))
        return
    if got.shape != strain.shape or np.abs(got - strain).max() > 1e-9:
        if old is not None and got.shape == old.shape and np.abs(got - old).max() < 1e-12:
            rec.fail("label_formula", "the reported axial strains are not those of the records", got=got[:3], expected=strain[:3], **case(0))
            return
    if got.shape != strain.shape:
        rec.fail("label", "the number of reported axial strains is not that of the records", got=got.shape, expected=strain.shape, **case(0))
        return
    rec.close("label", "the reported axial strains are not those of the records", got, strain, 1e-12, 1e-9, case=case)


def triaxial(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax, eqx, hdx
    from mc import lawlib as W
    law, ls, mp, p0, amp = start(cfg["law"])
    drv = hdx.ElementTestDriver(law)
    T = 12 if cfg["tier"] == "quick" else 24
    go = eqx.filter_jit(lambda t, a, b: t.run(a, b))
    step = eqx.filter_jit(lambda a, b, L, dt: drv.step(a, b, L, dt))
    for sign, target, form, static in itertools.product((1.0, -.5), (1.0, 1.02) if cfg["mode"] != "undrained" else (1.0,), ("scalar", "array", "arrays"), (False, True)):
        if cfg["tier"] == "quick" and (static and form == "scalar" and sign < 0):
            continue
        case = dict(law=cfg["law"], mode=cfg["mode"], direction=sign, target=target, rates=form, start_static=static)
        w = np.where(np.arange(T) % 3 == 1, -.4, 1.0) if form != "scalar" else np.ones(T)      # loading with unloading
        dts = np.full(T, .1) if form != "arrays" else .05 + .01 * np.arange(T)
        rates = sign * amp / .1 * w
        confine = jnp.asarray(p0 * target)
        kw = dict(solver=drv, confine=confine, axial_rate=jnp.asarray(rates[0] if form == "scalar" else rates), dt=jnp.asarray(dts[0] if form != "arrays" else dts),
                  is_undrained=cfg["mode"] == "undrained", is_p_constant=cfg["mode"] == "pconst", num_steps=T if form == "scalar" else None, start_static=static)
        test = hdx.TriaxialTest(**kw)
        m, s = go(test, mp, ls)
        sig = np.asarray(m.stress_stack); Fs = np.asarray(m.F_stack); Ls = np.asarray(m.L_stack)
        if sig.shape != (T, 3, 3):
            rec.fail("shape", "the history does not have one record per step", shape=sig.shape, **case); continue
        at = lambda i: dict(step=int(i), **case)
        live = np.ones(T, bool); live[0] = not static
        tol = 1e-7 * p0 + (2e-5 * p0 if cfg["law"] == "mcc" else 0)
        if cfg["mode"] == "drained":
            rec.close("confine", "a drained run does not keep the confinement at its target", sig[:, 0, 0], confine, tol, case=at, mask=live)
            rec.close("confine", "the lateral stresses differ", sig[:, 1, 1], sig[:, 0, 0], tol, case=at)
        if cfg["mode"] == "pconst":
            rec.close("mean", "a constant mean pressure run does not keep it at its target", np.trace(sig, axis1=1, axis2=2) / 3, confine, tol, case=at, mask=live)
        if cfg["mode"] == "undrained":
            rec.close("volume", "an undrained run changes volume", np.asarray(m.volume_stack).reshape(T) / float(mp.volume0_stack[0]), np.ones(T), 1e-12, case=at)
        strain = np.cumsum(rates * dts * live)
        rec.close("axial", "the prescribed axial strain is not imposed", -np.log(Fs[:, 2, 2]), strain, 1e-12, 1e-9, case=at)
        label(rec, test, strain, rates if form != "scalar" else rates[0], dts if form == "arrays" else dts[0], T, 1, at)
        off = Fs.copy(); off[:, range(3), range(3)] = 0
        rec.close("shape", "a triaxial run shears or is not axisymmetric", np.concatenate([off.reshape(T, 9), (Fs[:, 0, 0] - Fs[:, 1, 1])[:, None]], 1), np.zeros((T, 10)), 1e-12, case=at)
        if cfg["law"] == "elastic" and cfg["mode"] == "drained" and target == 1.0:
            lat = -np.log(Fs[:, 0, 0])
            rec.close("elastic", "an elastic drained run does not follow Young's modulus and Poisson's ratio", np.stack([(sig[:, 2, 2] - p0) / 1000.0, lat], 1), np.stack([strain, -.3 * strain], 1), 1e-9, 1e-7, case=at)
        # replaying the recorded gradients gives the recorded history
        cur = (mp, ls)
        for i in range(T):
            if live[i]:
                cur = step(*cur, jnp.asarray(Ls[i])[None], jnp.asarray(dts[i]))
            a = np.concatenate([np.asarray(x).ravel() for x in (cur[0].stress_stack, cur[0].F_stack, cur[0].volume_stack)] + [np.asarray(x).ravel() for x in jax.tree_util.tree_leaves(cur[1])])
            b = np.concatenate([sig[i].ravel(), Fs[i].ravel(), np.asarray(m.volume_stack).reshape(T, -1)[i]] + [np.asarray(x).reshape(T, -1)[i] for x in jax.tree_util.tree_leaves(s)])
            rec.close("replay", "a recorded step does not follow from the one before", b[None], a[None], 1e-8, 1e-7 if cfg["law"] != "mcc" else 1e-6, case=lambda _: at(i))
        # a stride picks records of the full history
        strides = {("scalar", False): (2,), ("scalar", True): (5,), ("array", False): (3,), ("array", True): (T,), ("arrays", False): (5,), ("arrays", True): (1, 4)}[form, static]
        for q in strides if T == 12 else (1, 2, 3, 5, 7, T):
            t2 = hdx.TriaxialTest(**{**kw, "stride": q})
            pick = np.arange(q - 1, T, q)
            label(rec, t2, strain[pick], rates if form != "scalar" else rates[0], dts if form == "arrays" else dts[0], T, q, lambda i: dict(stride=q, snapshot=int(i), **case))
            try:
                m2, s2 = go(t2, mp, ls)
            except TypeError as e:
                if T % q == 0 or "reshape" not in str(e):
                    raise
                rec.fail("stride_remainder", "a stride that does not divide the number of steps is refused", stride=q, error=str(e)[:100], **case)
                continue
            for x, y in zip(jax.tree_util.tree_leaves((m, s)), jax.tree_util.tree_leaves((m2, s2))):
                x, y = np.asarray(x), np.asarray(y)
                if y.shape[0] != T // q:
                    rec.fail("stride", "a stride gives the wrong number of snapshots", stride=q, got=y.shape[0], **case); break
                rec.close("stride", "the snapshots of a stride are not records of the full history", y, x[pick], 1e-8, 1e-7 if cfg["law"] != "mcc" else 1e-6, case=lambda i: dict(stride=q, snapshot=int(i), **case))
            rec.count(states=T // q, transitions=T, traces=T // q, evals=T, distinct=1)
        rec.count(states=T, transitions=2 * T, traces=T, evals=2 * T, distinct=1)
    rec.sample(**case)
