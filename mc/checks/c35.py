"""C35 a step is differentiable."""
PROPERTY = "C35"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive comparison of the full Jacobian of one and several real steps (forward and reverse mode), for every input component and output component, with two-sided difference quotients of the same steps, over all schemes, kernels, laws, dimensions and starting situations"
RULE = "every (output component, input component) pair of every configuration; finite everywhere; equal to the difference quotient wherever the left and right quotients agree (elsewhere: a switching point, counted); non-trivial = pair with a non-zero derivative"
ASSUMPTIONS = ["JAX CPU float64", "difference quotients with relative increments of 1e-6: agreement to 1e-4 of the pair or 1e-6 of the largest pair of the same two quantities", "starting situations off the kernel knots"]
NOTE = "the steps are the real ones; the oracle is the steps themselves at shifted inputs"
BOUNDS = {"quick": dict(situations=["moving", "rest", "weightless", "apart", "floor", "ball", "walls"], steps=[2], dims=[2, 3]),
          "thorough": dict(situations=["moving", "rest", "weightless", "apart", "floor", "ball", "walls"], steps=[1, 2, 4], dims=[2, 3])}
FAST_COMPILE = True
TASKS_PER_CHILD = 3
CONTACT = ("floor", "ball", "walls")
SITUATIONS = ("moving", "rest", "weightless", "apart") + CONTACT
LAWS = ("elastic", "newton", "mui", "dp", "mcc")


def tasks(tier):
    out = []
    th = tier == "thorough"
    kernels = ("linear", "quadratic", "cubic")
    for scheme in ("usl", "usl_aflip"):
        for law in LAWS:
            for kernel in kernels:
                for dim in (2, 3):
                    for where in SITUATIONS:
                        for k in ((1, 2, 4) if th else (2,)):
                            i, w = kernels.index(kernel) + LAWS.index(law), SITUATIONS.index(where)
                            if th:      # both dimensions and all numbers of steps for one kernel each, two steps in the plane for all
                                if (i + w) % 3 and (dim == 3 or k != 2):
                                    continue
                            else:       # every law with every situation; kernels, schemes and dimensions in a covering rotation
                                if (i + w) % 3 or (scheme == "usl") != ((w + LAWS.index(law)) % 2 == 0):
                                    continue
                                if law == "mcc" and where in ("apart", "weightless", "ball"):
                                    continue
                                if (dim == 3) != (where in ("moving", "floor") and scheme == "usl" and law in ("newton", "mui")):
                                    continue
                            out.append(("jacobian", dict(scheme=scheme, law=law, kernel=kernel, dim=dim, where=where, steps=k)))
    return out


def scene(cfg):
    from mc.env import jnp, np, eqx, hdx, jax
    from mc import scenes as S, lawlib
    where, dim = cfg["where"], cfg["dim"]
    b = hdx.SimBuilder()
    b.add_grid(origin=(0.,) * dim, end=(1.5,) * dim, cell_size=.25)
    n = 3
    pos = np.array([[.53 + .117 * ((i * (3 + k)) % 5) + .0137 * (i % 3) for k in range(dim)] for i in range(n)])
    if where in CONTACT:
        pos[:, 1] -= .2
    vel = np.array([[.37 * ((i + k) % 3 - 1) + .05 for k in range(dim)] for i in range(n)])
    if where in CONTACT:         # straight into the obstacle, nothing along it
        vel = vel * 0; vel[:, 1] = -.5 - .1 * np.arange(n)
    elif where != "moving":
        vel = vel * 0
    l, ls, mp = lawlib.ready(cfg["law"], dim, n, V0=.01)
    b.add_material_points(position_stack=jnp.array(pos), velocity_stack=jnp.array(vel), mass_stack=mp.mass_stack, volume_stack=mp.volume_stack, stress_stack=mp.stress_stack * (0 if where == "apart" else 1))
    b.add_constitutive_law(law=l, law_state=ls)
    b.couple(p_idx=0, shapefunction=cfg["kernel"])
    b.add_gravity(gravity=jnp.array([.3, -9.8, 1.0][:dim]) * (0 if where in ("weightless", "apart") else 1))
    up = jnp.array([0., 1., 0.][:dim]); zero = jnp.zeros(dim); spin = jnp.array(0.) if dim == 2 else jnp.zeros(3)
    if where == "floor":
        b.add_sdf_object(sdf_logic=hdx.PlaneSDF(up), center_of_mass=jnp.full(dim, .41), velocity=zero, angular_velocity=spin)
    elif where == "ball":        # resting, off the nodes: the normal jumps at the centre
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(.3), center_of_mass=jnp.array([.71, .27, .73][:dim]), velocity=zero, angular_velocity=spin)
    elif where == "walls":
        b.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=[.4] * dim, end=[1.2] * dim, frictions=.3), velocity=zero, angular_velocity=spin)
    elif where == "moving":
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(.2), center_of_mass=jnp.array([.6, .3, .6][:dim]), velocity=jnp.array([.1, .2, 0.][:dim]), angular_velocity=jnp.array(.5) if dim == 2 else jnp.array([.1, .2, .5]))
    if where in CONTACT + ("moving",):
        b.add_sdf_collider(sdf_idx=0, friction=.4)
    kw = {}
    if cfg["scheme"] == "usl_aflip":      # blending between its limits, and both affine updates
        if where in ("moving", "floor", "walls"):
            kw.update(alpha_support_min=.05, alpha_support_max=3.0)
        if where in ("ball", "rest") and cfg["kernel"] != "linear":
            kw.update(use_mls_update=False)
    b.set_solver(scheme=cfg["scheme"], **kw)
    solver, st = b.build(dt=1e-3)
    return solver, S.strong(st)


def jacobian(cfg, rec):
    import jax.flatten_util
    from mc.env import jax, jnp, np, eqx
    solver, st = scene(cfg)
    isf = lambda x: (eqx.is_array(x) and jnp.issubdtype(x.dtype, jnp.floating))
    # the inputs: every number of the state and of the law
    law = jax.tree_util.tree_map(lambda x: jnp.asarray(x) if isinstance(x, float) else x, solver.constitutive_laws)
    dyn, sta = eqx.partition((st, law), isf)
    paths = [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(dyn)[0]]
    leaves, tree = jax.tree_util.tree_flatten(dyn)
    big = [float(jnp.max(jnp.abs(l))) for l in leaves]
    floor = {"velocity": .3, "stress": 1e3, "position": .1, "gravity": 1., "Bp": .01, "L_stack": 1., "force": .1, "eps": 1e-2, "F_stack": .1, "p_": 1e3, "angular": .5, "center": .1, "time": 1.}
    unit = []
    for p, b in zip(paths, big):
        f = next((v for k, v in floor.items() if k in p), 0.)
        unit.append(max(b, f) if max(b, f) > 0 else 1.)
    sizes = [l.size for l in leaves]
    names = np.repeat(np.arange(len(leaves)), sizes)
    base = jnp.concatenate([l.ravel() for l in leaves]); scale = jnp.concatenate([jnp.full(n, u) for n, u in zip(sizes, unit)])

    def un(v):
        out, k = [], 0
        for l, n in zip(leaves, sizes):
            out.append(v[k:k + n].reshape(l.shape)); k += n
        return eqx.combine(jax.tree_util.tree_unflatten(tree, out), sta)

    def f(a):
        s0, lw = un(base + scale * a)
        sv = eqx.tree_at(lambda q: q.constitutive_laws, solver, lw)
        s1, _ = jax.lax.scan(lambda s, _: (sv(s), None), s0, None, length=cfg["steps"])
        o = [l for l in jax.tree_util.tree_leaves(eqx.filter(s1, isf))]
        return jnp.concatenate([l.ravel() for l in o])
    f = jax.jit(f)       # traced once
    s1 = jax.eval_shape(lambda: eqx.filter(solver(st), isf))
    onames = [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(s1)[0]]
    osz = [int(np.prod(l.shape)) for l in jax.tree_util.tree_leaves(s1)]
    oid = np.repeat(np.arange(len(osz)), osz)
    z = jnp.zeros_like(base); n = base.size
    b = jax.jit(lambda m: jax.lax.map(f, m, batch_size=64))
    e = 1e-6
    # probes: every component but the stress-free duplicates of size one
    I = np.eye(n)
    C = np.asarray(b(jnp.asarray(I[:1] * 0)))[0]
    P, M = np.asarray(b(jnp.asarray(I * e))), np.asarray(b(jnp.asarray(-I * e)))
    dr, dl = ((P - C) / e).T, ((C - M) / e).T
    fd = (dr + dl) / 2
    e2 = 5e-6        # a second increment shows how much of the quotient is rounding
    fd2 = (np.asarray(b(jnp.asarray(I * e2))) - np.asarray(b(jnp.asarray(-I * e2)))).T / 2 / e2
    rough = np.abs(fd - fd2)
    m = C.size
    _, push = jax.linearize(f, z)
    Jf = np.asarray(jax.jit(lambda T: jax.lax.map(push, T, batch_size=64))(jnp.asarray(I))).T
    pull = jax.linear_transpose(push, z)         # what jax.vjp does
    Jr = np.asarray(jax.jit(lambda T: jax.lax.map(lambda t: pull(t)[0], T, batch_size=64))(jnp.asarray(np.eye(m))))
    if not np.isfinite(C).all() or not np.isfinite(fd).all():
        rec.fail("step", "the step itself is not finite", **cfg); return
    # size of the derivatives between each pair of quantities, in natural units
    pair = np.zeros((len(osz), len(sizes)))
    for i in range(len(osz)):
        for j in range(len(sizes)):
            blk = np.abs(fd[oid == i][:, names == j])
            pair[i, j] = blk.max() if blk.size else 0
    ounit = np.array([max([np.abs(C[oid == i]).max(initial=0), 1e-12] + [v for k, v in floor.items() if k in onames[i]]) for i in range(len(osz))])
    modulus = max([abs(float(x)) for x in jax.tree_util.tree_leaves(law)] + [1.])      # pressures are differences of terms of this size
    ounit = np.array([max(u, modulus) if "stress" in o else u for u, o in zip(ounit, onames)])
    ref = np.maximum(pair[oid][:, names], 0)
    noise = 4e-16 * np.maximum(np.abs(C), ounit[oid])[:, None] / e * 8
    tol = 1e-4 * np.abs(fd) + 1e-5 * ref + noise
    smooth = np.abs(dr - dl) <= 2e-3 * np.abs(fd) + 2e-4 * ref + 4 * noise
    for name, J in (("forward", Jf), ("reverse", Jr)):
        bad = ~np.isfinite(J)
        if bad.any():
            o, i = np.argwhere(bad)[0]
            rec.fail("finite:" + name, "a derivative is not finite", output=onames[oid[o]], input=paths[names[i]], failing=int(bad.sum()), of=int(bad.size), **cfg)
            continue
        bad = smooth & ~(np.abs(J - fd) <= tol + .6 * np.abs(dr - dl) + 2 * rough)
        if bad.any():
            w = np.abs(J - fd) / tol; w[~bad] = 0
            o, i = np.unravel_index(np.argmax(w), w.shape)
            rec.fail("slope:" + name, "a derivative is not that of the steps", output=onames[oid[o]], input=paths[names[i]], got=J[o, i], expected=fd[o, i], left=dl[o, i], right=dr[o, i], failing=int(bad.sum()), largest=ref[o, i], **cfg)
    rec.count(states=n, transitions=2 * n * cfg["steps"], traces=2 * n * m, evals=2 * n * m, distinct=int((np.abs(fd) > noise).sum()), switching_points=int((~smooth).sum()))
    rec.sample(inputs=n, outputs=m, **cfg)
