"""C23 filling shapes with points."""
PROPERTY = "C23"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of filling calls (shape x pose x bounds x cell size x points per cell) on the real generator; the whole candidate lattice is compared point by point with an independent one"
RULE = "every filling call of the alphabet; every lattice candidate is either in the result once or outside the shape; random filling for every key and count of the alphabet; non-trivial = distinct call"
ASSUMPTIONS = ["JAX CPU float64", "bounds whose ratio to the cell size is not within round-off of a whole number unless exactly representable", "candidates closer than 1e-5 to the surface may go either way (regularised distances)"]
NOTE = "inside/outside is decided by the independent closest-point geometry, not by the package"
BOUNDS = {"quick": dict(shapes="catalogue", poses=3, cells=3, ppc=5), "thorough": dict(shapes="catalogue", poses=7, cells=5, ppc=8)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for dim in (2, 3):
        for n in ["sphere", "plane", "box", "capsule"] + (["ring", "walls", "star"] if dim == 2 else ["cylinder", "torus", "pipe"]):
            out.append(("regular", dict(dim=dim, name=n, tier=tier)))
        out.append(("random", dict(dim=dim, tier=tier)))
    out.append(("refuse", dict(tier=tier)))
    return out


def regular(cfg, rec):
    from mc.env import np, jnp, hdx
    from mc import sdflib as D, scenes as S
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    v = D.catalogue(dim)[cfg["name"]]
    v = [x for x in v if .1 < x[2] < 3][:2 if not th else 4]
    bnds = [((0., 0., 0.), (1., 1., 1.)), ((-.55, -.3, -.8), (.6, .7, .45))]
    hs = (.25, .1, .37) if not th else (.25, .1, .37, .5, .06)
    if dim == 3:
        hs = (.25, .4) if not th else (.25, .4, .15, .3)
    ppcs = (1, 2, 4, 5, 9) if dim == 2 else (1, 2, 8, 9, 27)
    for k, (make, oracle, size) in enumerate(v):
        lg = make()
        for com, rot in [p for p in D.poses(dim) if abs(p[0][0]) < 2][:3 if not th else None]:
            A = D.pose_mat(dim, rot)
            for lo, hi in bnds:
                lo, hi = np.array(lo[:dim]) * (1 if com[0] == 0 else 1), np.array(hi[:dim])
                lo, hi = (lo + com, hi + com) if abs(com[0]) > 1 else (lo, hi)
                for h in hs:
                    for ppc in (ppcs if (dim == 2 or h > .2) else ppcs[:3]):
                        case = dict(shape=cfg["name"], variant=k, centre=list(com), rotation=np.asarray(rot).tolist(), bounds=[lo.tolist(), hi.tolist()], cell_size=h, ppc=ppc)
                        kw = dict(sdf_obj=lg, sdf_state=D.state(lg, dim, com, rot), bounds_min=jnp.asarray(lo), bounds_max=jnp.asarray(hi), cell_size=h, ppc=ppc)
                        got = np.asarray(hdx.generate_particles_in_sdf(mode="regular", **kw))
                        n = next(m for m in range(1, 50) if m ** dim >= ppc)
                        if ppc in (4, 8, 9):
                            gauss(np.asarray(hdx.generate_particles_in_sdf(mode="gauss_legendre", **kw)), n, h, lo, hi, lambda x: oracle((x - np.array(com)) @ A)[0], case, rec)
                            if ppc == 4 and not np.array_equal(got, np.asarray(hdx.generate_particles_in_sdf(**kw))):
                                rec.fail("default", "filling without a mode is not the regular filling", **case)
                        a = [np.arange(np.floor(lo[i] / h + 1e-9), np.ceil(hi[i] / h - 1e-9)) for i in range(dim)]
                        cand = S.lattice(*[(q[:, None] + (np.arange(n) + .5) / n).reshape(-1) * h for q in a])
                        d = oracle((cand - np.array(com)) @ A)[0]
                        fine = h / n
                        key = lambda x: np.round(x / fine * 2).astype(int)
                        have = {}
                        for t in map(tuple, key(got)):
                            have[t] = have.get(t, 0) + 1
                        ck = [tuple(t) for t in key(cand)]
                        if got.size and np.abs(got / fine * 2 - key(got)).max() > 1e-6:
                            rec.fail("lattice", "regular filling returns points off the sub-cell centres", **case)
                        if any(c > 1 for c in have.values()):
                            rec.fail("repeat", "regular filling repeats a point", **case)
                        miss = [c for c, t, q in zip(cand.tolist(), ck, d) if q < -1e-5 and t not in have]
                        extra = [c for c, t, q in zip(cand.tolist(), ck, d) if q > 1e-5 and t in have]
                        if miss:
                            rec.fail("missing", "regular filling leaves out %d points inside the shape" % len(miss), point=miss[0], **case)
                        if extra:
                            rec.fail("outside", "regular filling returns %d points outside the shape" % len(extra), point=extra[0], **case)
                        cs = set(ck)
                        if any(t not in cs for t in have):
                            rec.fail("beyond", "regular filling returns points beyond the cells of the bounds", **case)
                        rec.count(states=1 + len(cand), transitions=1, traces=len(cand), evals=len(cand), distinct=1, calls=1, points=len(got), empty=int(len(got) == 0))
    rec.sample(**case)


def gauss(got, n, h, lo, hi, dist, case, rec):
    """Quadrature filling: exactly the inside ones of the tensor Gauss points of every cell."""
    from mc.env import np
    from mc import scenes as S
    dim = len(lo)
    a = [np.arange(np.floor(lo[i] / h + 1e-9), np.ceil(hi[i] / h - 1e-9)) for i in range(dim)]
    # nodes of the n point rule on [0, 1]: the roots of the Legendre polynomial, by bisection of its sign changes
    P = lambda x: {1: x, 2: 1.5 * x ** 2 - .5, 3: 2.5 * x ** 3 - 1.5 * x}[n]
    g = {1: [0.], 2: [-3 ** -.5, 3 ** -.5], 3: [-.6 ** .5, 0., .6 ** .5]}[n]
    assert all(abs(P(x)) < 1e-14 for x in g)
    cand = S.lattice(*[(q[:, None] + (np.array(g) + 1) / 2).reshape(-1) * h for q in a])
    d = dist(cand)
    inside = cand[d < -1e-5]
    maybe = cand[abs(d) <= 1e-5]
    key = lambda x: {tuple(t) for t in np.round(np.asarray(x).reshape(-1, dim) / h * 1e6).astype(int).tolist()}
    near = lambda K, t: any(tuple(np.add(t, o)) in K for o in S.lattice(*[[0, -1, 1]] * dim).astype(int))
    H, I, M = key(got), key(inside), key(maybe)
    if len(H) != len(got):
        rec.fail("repeat", "quadrature filling repeats a point", **case)
    miss = [t for t in I - H if not near(H, t)]
    extra = [t for t in H - I - M if not near(I | M, t)]
    if miss or extra:
        rec.fail("gauss", "quadrature filling leaves out %d points and adds %d" % (len(miss), len(extra)), **case)
    rec.count(states=1 + len(cand), transitions=1, traces=len(cand), evals=len(cand), distinct=1, calls=1, points=len(got), empty=int(len(got) == 0))


def random(cfg, rec):
    from mc.env import np, jnp, jax, hdx
    from mc import sdflib as D
    dim = cfg["dim"]
    nkeys = 8 if cfg["tier"] == "quick" else 60
    cat = D.catalogue(dim)
    for name in cat:
        make, oracle, size = cat[name][0]
        lg = make()
        for com, rot in D.poses(dim)[:3]:
            A = D.pose_mat(dim, rot)
            st = D.state(lg, dim, com, rot)
            for lo, hi in (((-1.,) * dim, (1.,) * dim), ((-.3, .1, -.2)[:dim], (1.4, .6, .9)[:dim])):
                for n in (1, 7, 200):
                    for k in range(nkeys if n == 200 else 2):
                        kw = dict(bounds_min=jnp.array(lo), bounds_max=jnp.array(hi), num_particles=n, key=jax.random.PRNGKey(k), mode="random")
                        case = dict(shape=name, centre=list(com), bounds=[lo, hi], n=n, key=k)
                        got = np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, sdf_state=st, **kw))
                        if got.size:
                            if (got < np.array(lo) - 1e-12).any() or (got > np.array(hi) + 1e-12).any():
                                rec.fail("bounds", "random filling leaves the bounds", **case)
                            if (oracle((got - np.array(com)) @ A)[0] > 1e-5).any():
                                rec.fail("outside", "random filling returns points outside the shape", **case)
                        if len(np.unique(got, axis=0)) != len(got):
                            rec.fail("repeat", "random filling repeats a point", **case)
                        if n == 7 and not np.array_equal(got, np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, sdf_state=st, **{**kw, "mode": "rejection"}))):
                            rec.fail("alias", "rejection filling is not the random filling", **case)
                        again = np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, sdf_state=st, **kw))
                        if not np.array_equal(got, again):
                            rec.fail("reproducible", "random filling differs for the same key", **case)
                        rec.count(states=2, transitions=2, traces=1, evals=2, distinct=1, calls=2, points=len(got))
    # inside a half space, its complement and everything: the parts of the same candidates
    last = {}
    for k in range(nkeys):
        for nrm in ((1.0, .2, -.4), (0., 1., 0.)):
            f = lambda lg: np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, center_of_mass=jnp.full(dim, .1), bounds_min=jnp.full(dim, -1.0), bounds_max=jnp.full(dim, 1.0), num_particles=150, key=jax.random.PRNGKey(k), mode="random"))
            a, b = f(hdx.PlaneSDF(normal=nrm[:dim])), f(hdx.PlaneSDF(normal=tuple(-q for q in nrm[:dim])))
            c = f(hdx.BoxSDF(size=(9.0,) * dim))
            srt = lambda x: x[np.lexsort(x.T)]
            if len(c) != 150 or not np.array_equal(srt(np.concatenate([a, b])), srt(c)):
                rec.fail("keep", "random filling loses or invents candidates", key_=k, normal=nrm)
            if last.get(nrm) is not None and np.array_equal(c, last[nrm]):
                rec.fail("key", "random filling ignores its key", key_=k)
            last[nrm] = c
            w = c.min(0), c.max(0)
            if k == 0 and ((w[0] > -.7).any() or (w[1] < .7).any()):
                rec.fail("spread", "random filling does not use the bounds", lo=w[0], hi=w[1])
        rec.count(states=3, transitions=3, traces=1, evals=3, distinct=1, calls=3)
    rec.sample(**case)


def refuse(cfg, rec):
    """Random filling without a count or a key is refused; without a state the shape is placed at the given centre, else in the middle of the bounds."""
    from mc.env import np, jnp, jax, hdx
    for kw in (dict(num_particles=5), dict(key=jax.random.PRNGKey(0)), dict()):
        try:
            hdx.generate_particles_in_sdf(sdf_obj=hdx.SphereSDF(radius=1.0), bounds_min=jnp.zeros(2), bounds_max=jnp.ones(2), mode="random", **kw)
            rec.fail("refuse", "random filling works without a count or a key", given=sorted(kw))
        except ValueError:
            pass
    for dim in (2, 3):
        for h in (.25, .125):
            lo, hi = jnp.zeros(dim), jnp.asarray([1.0, 2.0, 1.5][:dim])
            for com in (None, jnp.full(dim, .375)):
                for rot in (None, .5 if dim == 2 else jnp.array([.8, .6, 0., 0.])):
                    lg = hdx.BoxSDF(size=(.6, .9, .7)[:dim])
                    a = np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, bounds_min=lo, bounds_max=hi, mode="regular", cell_size=h, ppc=4, center_of_mass=com, rotation=rot))
                    st = lg.create_state(center_of_mass=(lo + hi) / 2 if com is None else com, rotation=rot)
                    b = np.asarray(hdx.generate_particles_in_sdf(sdf_obj=lg, bounds_min=lo, bounds_max=hi, mode="regular", cell_size=h, ppc=4, sdf_state=st))
                    if a.shape != b.shape or not np.array_equal(a, b) or not len(a):
                        rec.fail("place", "a shape given by centre and rotation is placed elsewhere than by its state", centre=None if com is None else np.asarray(com), got=len(a), expected=len(b))
                    rec.count(states=2, transitions=2, traces=1, evals=2, distinct=1, calls=2)
    rec.sample(size=[.6, .9, .7])
