"""C08 purity, repeatability, composition: all interleavings of operations on several simulations."""
PROPERTY = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all interleavings of step operations on concurrent simulations and of all execution modes"
RULE = ("operations: step simulation A/B/C (eager call, compiled call), rebuild the scene, batch step; every interleaving up to the depth is executed "
        "and every simulation compared bit for bit with its solo history; a case is one interleaving")
ASSUMPTIONS = ["JAX CPU float64", "bit-for-bit within one execution mode; 1e-12 relative between modes (compilers may fuse)"]
NOTE = "all interleavings of the stated operation counts; execution modes: eager, jit, scan, fori_loop, while, vmap, thread interleavings at step granularity"
BOUNDS = {"quick": dict(sims=3, ops=6, interleavings=90), "thorough": dict(sims=3, ops=9, interleavings=1680)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            out.append(("interleave", dict(scheme=scheme, dim=dim, tier=tier)))
            for law in (("elastic", "newton", "mcc", "dp", "mui") if tier == "thorough" else dict(usl=("elastic", "mcc"), usl_aflip=("newton", "dp") if dim == 2 else ("mui",))[scheme]):
                out.append(("modes", dict(scheme=scheme, dim=dim, law=law, tier=tier)))
    out.append(("rebuild", dict(tier=tier)))
    out.append(("midway", dict(tier=tier)))
    return out


def sim(scheme, dim, which, law="elastic", kernel="quadratic"):
    """A small scene with gravity, an obstacle and a deforming body; `which` varies all parameters.
    0 and 2 agree in every size (points, nodes, cells), so that anything remembered by size would be shared."""
    from mc.env import np, jnp, hdx
    from mc import lawlib
    h = .25
    b = hdx.SimBuilder()
    o = -.0375 * which
    b.add_grid(origin=(o,) * dim, end=(o + 1.5,) * dim, cell_size=h)
    rng = 1 + .13 * which
    n = 5 if which == 1 else 4
    pos = np.array([[.5 + .11 * ((i * (3 + k)) % 5) + .01 * which for k in range(dim)] for i in range(n)])
    vel = np.array([[.3 * ((i + k) % 3 - 1) * rng for k in range(dim)] for i in range(n)])
    l, ls, mp = lawlib.ready(law, dim, n, V0=.01, **OTHER[law] if which == 2 else {})
    b.add_material_points(position_stack=jnp.array(pos), velocity_stack=jnp.array(vel), mass_stack=mp.mass_stack, volume_stack=mp.volume_stack, stress_stack=mp.stress_stack)
    b.add_constitutive_law(law=l, law_state=ls)
    b.couple(p_idx=0, shapefunction=kernel)
    b.add_gravity(gravity=jnp.array([0., -9.8 * rng, 1.0][:dim]))
    if dim == 2 and which != 1:
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(.2 * rng), center_of_mass=jnp.array([.6, .3]) + o, velocity=jnp.array([.1, .2]), angular_velocity=jnp.array(.5))
        b.add_sdf_collider(sdf_idx=0, friction=.4 * rng)
    b.set_solver(scheme=scheme)
    return b.build(dt=1e-3 * rng)


OTHER = dict(elastic=dict(E=1500.0, nu=.2), newton=dict(K=1500.0), mui=dict(mu_s=.4), dp=dict(mu_1=.5), mcc=dict(M=1.1))


def alone(scheme, dim, which, k):
    """The history of one simulation in a process of its own."""
    import subprocess, sys, pickle
    p = subprocess.run([sys.executable, "-c", "from mc.checks import c08; c08.alone_main(%r, %d, %d, %d)" % (scheme, dim, which, k)], capture_output=True)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-2000:])
    return pickle.loads(p.stdout[p.stdout.index(b"HISTORY") + 7:])


def alone_main(scheme, dim, which, k):
    import sys, pickle
    from mc.env import np, jax
    s, st = sim(scheme, dim, which)
    f = jax.jit(lambda x: s(x))
    out = [leaves(st, np)]
    for _ in range(k):
        st = f(st); out.append(leaves(st, np))
    sys.stdout.flush()
    sys.stdout.buffer.write(b"HISTORY" + pickle.dumps(out)); sys.stdout.buffer.flush()


def leaves(st, np):
    import jax
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(st)]


def same(a, b, np):
    return len(a) == len(b) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def perms(counts):
    """All interleavings of a multiset."""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            for r in perms(counts[:i] + (c - 1,) + counts[i + 1:]):
                yield (i,) + r


def interleave(cfg, rec):
    from mc.env import np, eqx, jax
    scheme, dim = cfg["scheme"], cfg["dim"]
    k = 3 if cfg["tier"] == "thorough" else 2
    sims = [sim(scheme, dim, w) for w in range(3)]
    jitted = [jax.jit(lambda st, s=s: s(st)) for s, _ in sims]
    solo, snaps = [], []
    for (s, st), f in zip(sims, jitted):
        hist = [st]
        for _ in range(k):
            hist.append(f(hist[-1]))
        solo.append([leaves(x, np) for x in hist]); snaps.append(hist)
    for w in range(3):      # what each does in a process of its own
        for m, (a, x) in enumerate(zip(alone(scheme, dim, w, k), solo[w])):
            for p, q in zip(a, x):
                rec.close("process", "a simulation that shares its process with others behaves differently", q, p, 1e-12 * max(1.0, float(np.max(np.abs(p))) if p.size else 1.0), 0, case=lambda _: dict(sim=w, step=m))
            rec.true("process", "a simulation that shares its process with others has another state", np.array(len(a) == len(x)))
    for order in perms((k, k, k)):
        cur = [st for _, st in sims]
        cnt = [0, 0, 0]
        for i in order:
            before = leaves(cur[i], np)
            nxt = jitted[i](cur[i])
            if not same(leaves(cur[i], np), before, np):
                rec.fail("input-mutated", "stepping changed the given state", order=order)
            cnt[i] += 1
            cur[i] = nxt
            if not same(leaves(nxt, np), solo[i][cnt[i]], np):
                rec.fail("interleaving", "a simulation depends on what other simulations do", order=order, sim=i, step=cnt[i])
        rec.count(states=1, transitions=len(order), evals=len(order), distinct=1, traces=len(order))
    for i, h in enumerate(snaps):
        for m, x in enumerate(h):
            if not same(leaves(x, np), solo[i][m], np):
                rec.fail("history-mutated", "a past state changed", sim=i, step=m)
    rec.sample(order=order, sims=3, steps_each=k)


def modes(cfg, rec):
    from mc.env import np, eqx, jax, jnp
    scheme, dim = cfg["scheme"], cfg["dim"]
    k = 5 if cfg["tier"] == "thorough" else 3
    s, st = sim(scheme, dim, 0, cfg["law"])
    f = jax.jit(lambda x: s(x))
    hist = [st]
    for _ in range(k):
        hist.append(f(hist[-1]))
    for m, x in enumerate(hist):
        rec.close("clock", "time did not advance by one step", np.asarray(x.time), m * float(st.dt), 1e-12, 1e-12)
        rec.close("steps", "the step counter did not advance by one", np.asarray(x.step), m, 0)
        rec.close("dt", "the time step changed", np.asarray(x.dt), float(st.dt), 0)
    ref = [leaves(x, np) for x in hist]

    def cmp(mode, got, want):
        g = leaves(got, np)
        if len(g) != len(want):
            rec.fail("mode:" + mode, "%s execution returns a different state structure" % mode)
            return
        for a, b in zip(g, want):
            sc = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
            rec.close("mode:" + mode, "%s execution gives another result" % mode, a, b, 1e-9 * sc, 0)
        rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
    # repeatability, bit for bit
    again = st
    for m in range(k):
        again = f(again)
        if not same(leaves(again, np), ref[m + 1], np):
            rec.fail("repeat", "the same history computed twice differs", step=m + 1)
    fresh = jax.jit(lambda x: s(x))
    if not same(leaves(fresh(st), np), ref[1], np):
        rec.fail("recompile", "compiling again changes the result")
    # eager; composed compilation; loops; batches of equal and different states; float and array clocks
    e = st
    for m in range(2):
        b4 = leaves(e, np)
        n = s(e)
        if not same(leaves(e, np), b4, np):
            rec.fail("input-mutated", "stepping changed the given state (eager)")
        e = n
        cmp("eager", e, ref[m + 1])
    cmp("composed", jax.jit(lambda x: s(s(x)))(st), ref[2])
    arr = jax.tree_util.tree_map(jnp.asarray, st)
    cmp("scan", jax.jit(lambda x: jax.lax.scan(lambda c, _: (s(c), None), x, None, length=k)[0])(f(arr)), leaves(f(hist[-1]), np))
    cmp("fori", jax.jit(lambda x: jax.lax.fori_loop(0, k, lambda i, c: s(c), x))(f(arr)), leaves(f(hist[-1]), np))
    cmp("while", jax.jit(lambda x: jax.lax.while_loop(lambda c: c.step < k + 1, lambda c: s(c), x))(f(arr)), leaves(f(hist[-1]), np))
    cmp("eqx.filter_jit", eqx.filter_jit(s)(st), ref[1])
    cmp("remat", jax.jit(jax.checkpoint(lambda x: s(x)))(arr), ref[1])
    batch = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[jax.tree_util.tree_map(jnp.asarray, h) for h in hist[:3]])
    out = jax.jit(jax.vmap(lambda x: s(x)))(batch)
    for m in range(3):
        cmp("batch", jax.tree_util.tree_map(lambda x: x[m], out), leaves(f(hist[m]), np))
    # the step size belongs to the state
    for scale in (.5, 2.0):
        st2 = eqx.tree_at(lambda x: x.dt, st, st.dt * scale)
        o = f(st2)
        rec.close("dt-state", "the clock ignores the state's own time step", np.asarray(o.time), float(st.dt) * scale, 1e-15)
    rec.sample(cfg=cfg, steps=k, modes=["eager", "jit", "scan", "fori", "while", "filter_jit", "remat", "vmap"])


def rebuild(cfg, rec):
    """Building other scenes in between, or the same one again, changes nothing."""
    from mc.env import np, jax
    import itertools
    kinds = [("usl", 2, 0), ("usl_aflip", 2, 1), ("usl", 2, 2)]
    want = {}
    for kd in kinds:
        s, st = sim(*kd)
        want[kd] = leaves(jax.jit(lambda x: s(s(x)))(st), np)
    for order in itertools.product(kinds, repeat=3 if cfg["tier"] == "thorough" else 2):
        built = [sim(*kd) for kd in order]
        for kd, (s, st) in zip(order, built):
            if not same(leaves(jax.jit(lambda x: s(s(x)))(st), np), want[kd], np):
                rec.fail("rebuild", "a scene built after others behaves differently", order=order, kind=kd)
            rec.count(states=1, transitions=2, traces=1, evals=1, distinct=1)
    rec.sample(order=order)


def midway(cfg, rec):
    """Every intermediate state continues like the uninterrupted run, also after a host round trip."""
    from mc.env import np, jax, jnp, hdx
    k = 12 if cfg["tier"] == "thorough" else 6
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            s, st = sim(scheme, dim, 0)
            f = jax.jit(lambda x: s(x))
            hist = [f(st)]
            for _ in range(k):
                hist.append(f(hist[-1]))
            for a in range(k):
                x = jax.tree_util.tree_map(lambda v: jnp.asarray(np.array(v)), hist[a])
                for b in range(a + 1, k + 1):
                    x = f(x)
                    if not same(leaves(x, np), leaves(hist[b], np), np):
                        rec.fail("midway", "a state reached midway does not continue like the uninterrupted run", start=a, at=b, scheme=scheme)
                    rec.count(states=1, transitions=1, traces=1, evals=1, distinct=1)
    rec.sample(steps=k)
