"""C34 created point sets."""
PROPERTY = "C34"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all subsets of the creation arguments, sizes, dimensions and entry points on the real code, against an independent reference; derived quantities on all states of an alphabet"
RULE = "every subset of the optional arguments x volume defaults x sizes x dimensions x (class, builder); non-trivial = distinct creation call"
ASSUMPTIONS = ["JAX CPU float64", "volumes above 1e-6 (densities are regularised by 1e-16)", "K0 between 0 and 1.5, slopes below 45 degrees"]
NOTE = "the real constructors and properties run on every case"
BOUNDS = {"quick": dict(arguments="2^8 subsets x store_F x 5 volume/density variants", sizes=[1, 2, 3], dims=[2, 3], entries=["class", "builder"]),
          "thorough": dict(arguments="2^8 subsets x store_F x 5 volume/density variants", sizes=[1, 2, 3, 7], dims=[2, 3], entries=["class", "builder"])}

NAMES = ("velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "L_stack", "stress_stack", "F_stack")
VARIANTS = (dict(), dict(density_stack=True), dict(cell_size=.5), dict(cell_size=.25, ppc=8), dict(cell_size=2., points_per_cell=9, density_stack=True))


def tasks(tier):
    out = []
    for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 7)):
        for dim in (2, 3):
            for via in ("class", "builder"):
                for s in (False, True):
                    out.append(("created", dict(n=n, dim=dim, via=via, store=s, full=tier == "thorough" or n == 2)))
    out += [("derived", dict(dim=d, k=k)) for d in (2, 3) for k in range(2)]
    out += [("rigid", {}), ("lithostatic", dict(tier=tier))]
    return out


def values(n, dim, np, seed):
    """Distinct values everywhere, so that swapped or scaled arrays show."""
    r = lambda *s: (np.arange(int(np.prod(s)), dtype=float).reshape(s) * .37 + 1. + seed) * 1.0
    return dict(velocity_stack=r(n, dim), force_stack=-2 * r(n, dim), mass_stack=3 * r(n), volume_stack=.5 * r(n), volume0_stack=.75 * r(n), L_stack=.1 * r(n, 3, 3), stress_stack=-7 * r(n, 3, 3), F_stack=np.eye(3) + .01 * r(n, 3, 3))


def build(via, kw):
    from mc.env import hdx
    if via == "class":
        return hdx.MaterialPointState.create(**kw)
    b = hdx.SimBuilder()
    i = b.add_material_points(**kw)
    return list(b.particle_states)[i]


def created(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax, hdx
    n, dim = cfg["n"], cfg["dim"]
    pos = np.linspace(-1, 2, n * dim).reshape(n, dim)
    val = values(n, dim, np, 0.)
    rho = 1500. + 10 * np.arange(n)
    for var in VARIANTS:
        for bits in range(256):
            if not cfg["full"] and bits % 3 and bin(bits).count("1") not in (0, 1, 7, 8):
                continue
            given = [NAMES[k] for k in range(8) if bits >> k & 1]
            kw = {k: jnp.asarray(val[k]) for k in given}
            kw.update({k: (jnp.asarray(rho) if k == "density_stack" else v) for k, v in var.items()})
            if cfg["store"]:
                kw["store_F"] = True
            case = dict(given=given, variant={k: (v if v is not True else "array") for k, v in var.items()}, **{k: cfg[k] for k in ("n", "dim", "via", "store")})
            st = build(cfg["via"], dict(position_stack=jnp.asarray(pos), **kw))
            vol = val["volume_stack"] if "volume_stack" in given else np.full(n, var.get("cell_size", 1.) ** dim / var.get("points_per_cell", var.get("ppc", 4)))
            exp = dict(position_stack=pos, velocity_stack=np.zeros((n, dim)), force_stack=np.zeros((n, dim)), volume_stack=vol, volume0_stack=vol,
                       mass_stack=vol * (rho if "density_stack" in var else 1000.), L_stack=np.zeros((n, 3, 3)), stress_stack=np.zeros((n, 3, 3)), F_stack=np.tile(np.eye(3), (n, 1, 1)))
            exp.update({k: val[k] for k in given})
            exp["F_store_stack"] = exp["F_stack"] if cfg["store"] else None
            for k, e in exp.items():
                g = getattr(st, k)
                if (e is None) != (g is None):
                    rec.fail("optional:" + k, "an optional quantity is there although not asked for, or missing", **case); continue
                if e is None:
                    continue
                g = np.asarray(g)
                if g.shape != e.shape or not (np.array_equal(g, e) if k in given or k == "position_stack" else np.allclose(g, e, rtol=1e-14, atol=0)):
                    rec.fail(("given:" if k in given else "default:") + k, "a created quantity is not the given one / the default", got=g, expected=e, **case)
            if st.num_points != n or st.dim != dim:
                rec.fail("size", "number of points or dimension is wrong", got=[st.num_points, st.dim], **case)
            if not np.allclose(np.asarray(st.density_stack), exp["mass_stack"] / exp["volume_stack"], rtol=1e-9) or not np.allclose(np.asarray(st.density_ref_stack), exp["mass_stack"] / exp["volume0_stack"], rtol=1e-9):
                rec.fail("density", "density is not mass by volume", **case)
            rec.count(states=1, transitions=1, traces=len(exp) + 2, evals=1, distinct=1)
    # without positions: one point at the origin in three dimensions
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = hdx.MaterialPointState.create()
    if np.asarray(st.position_stack).tolist() != [[0., 0., 0.]] or st.num_points != 1:
        rec.fail("no_position", "without positions there is not one point at the origin", got=np.asarray(st.position_stack))
    rec.sample(n=n, dim=dim)


def derived(cfg, rec):
    """Derived quantities of all states over an alphabet of tensors, in batches."""
    import itertools
    from mc.env import np, jnp, hdx
    from mc.checks import c33
    dim = cfg["dim"]
    T = c33.sym(c33.SYM[5])[cfg["k"]::2]
    n = len(T)
    F = np.eye(3) + .1 * np.roll(T, 31, axis=0) + .05 * np.array([[0, 1, 0], [0, 0, 1], [0, 0, 0]])
    det = np.linalg.det(F); keep = det > .05
    T, F, det = T[keep], F[keep], det[keep]; n = len(T)
    L = np.roll(T, 57, axis=0) + np.array([[0, 2., 0], [-1, 0, .5], [0, 0, 0]])
    v = np.array(list(itertools.product((-2., 0., 1.5), repeat=dim)))[np.arange(n) % 3 ** dim]
    m = 1. + np.arange(n) % 7; vol = .5 + np.arange(n) % 5
    st = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, dim)), velocity_stack=jnp.asarray(v), mass_stack=jnp.asarray(m), volume_stack=jnp.asarray(vol), volume0_stack=jnp.asarray(vol * 2),
                                       L_stack=jnp.asarray(L), stress_stack=jnp.asarray(T), F_stack=jnp.asarray(F), store_F=True)
    # the stored gradient may differ from the present one
    import equinox as eqx
    F2 = F @ np.array([[1.1, .2, 0], [0, .9, 0], [0, 0, 1.]])
    st = eqx.tree_at(lambda s: s.F_store_stack, st, jnp.asarray(F2))

    def hk(F):
        w, q = np.linalg.eigh(F @ np.swapaxes(F, 1, 2))
        return -np.einsum("nik,nk,njk->nij", q, .5 * np.log(w), q)
    def vm(e):
        d = e - np.einsum("nii->n", e)[:, None, None] / 3 * np.eye(3)
        return np.sqrt(2 / 3 * np.einsum("nij,nij->n", d, d) + 1e-16)
    p = np.einsum("nii->n", T) / 3
    s = T - p[:, None, None] * np.eye(3)
    D = .5 * (L + np.swapaxes(L, 1, 2))
    eps, eps2 = hk(F), hk(F2)
    exp = dict(density_stack=m / vol, density_ref_stack=m / (2 * vol), pressure_stack=p, q_stack=np.sqrt(1.5 * np.einsum("nij,nij->n", s, s)), KE_stack=.5 * m * (v ** 2).sum(axis=1),
               eps_stack=eps, stored_eps_stack=eps2, eps_v_stack=-np.log(det), deps_dt_stack=D, shear_strain_rate_stack=vm(D), shear_strain_stack=vm(eps), stored_shear_strain_stack=vm(eps2))
    for k, e in exp.items():
        rec.close(k, "the derived quantity %s does not follow from the stored ones" % k, getattr(st, k), e, 1e-9, 1e-9, case=lambda i: dict(stress=T[i].tolist(), F=F[i].tolist(), L=L[i].tolist(), v=v[i].tolist()))
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    rec.sample(stress=T[100].tolist(), F=F[100].tolist())


def rigid(cfg, rec):
    import itertools
    from mc.env import np, jnp, hdx
    from hydraxmpm.material_points.material_points import RigidMaterialPointState
    for n, dim, normals, via in itertools.product((1, 2, 5), (2, 3), (False, True), ("class", "builder")):
        pos = np.linspace(0, 3, n * dim).reshape(n, dim); nor = np.ones((n, dim)) * np.arange(1, n + 1)[:, None]
        kw = dict(position_stack=jnp.asarray(pos), **(dict(normal_stack=jnp.asarray(nor)) if normals else {}))
        if via == "class":
            st = RigidMaterialPointState.create(**kw)
        else:
            b = hdx.SimBuilder()
            i = b.add_material_points(is_rigid=True, **kw)
            st = list(b.particle_states)[i]
        case = dict(n=n, dim=dim, normals=normals, via=via)
        for k, e in (("position_stack", pos), ("normal_stack", nor if normals else np.zeros((n, dim))), ("velocity_stack", np.zeros((n, dim))), ("mass_stack", np.ones(n))):
            g = np.asarray(getattr(st, k))
            if g.shape != e.shape or not np.array_equal(g, e):
                rec.fail("rigid:" + k, "a created rigid point set is not what was asked for", got=g, expected=e, **case)
        if not isinstance(st, RigidMaterialPointState) or isinstance(st, hdx.MaterialPointState):
            rec.fail("rigid:type", "the rigid point set has the wrong type", **case)
        rec.count(states=1, transitions=1, traces=4, evals=1, distinct=1)
    rec.sample(sizes=[1, 2, 5])


def lithostatic(cfg, rec):
    """Columns of layers: stresses are the weight above, in the ratio K0, and the shear of the slope."""
    import itertools
    from mc.env import np, jnp, hdx
    depths = np.array([0., .1, 1., 2.5, 40.])
    for g, k0, slope, rho in itertools.product((0., 1.62, 9.81), (0., .3, .5, 1., 1.5), (0., 10., 30., -20.), ("uniform", "layered")):
        r = np.full(5, 1800.) if rho == "uniform" else 1500. + 100 * np.arange(5)
        p, q = (np.asarray(x) for x in hdx.precondition_from_lithostatic(jnp.asarray(r), jnp.asarray(depths), g, slope, k0))
        t = np.radians(slope)
        sv, tau = r * g * depths * np.cos(t), r * g * depths * np.sin(t)
        S = np.zeros((5, 3, 3))
        S[:, 0, 0] = S[:, 1, 1] = k0 * sv; S[:, 2, 2] = sv; S[:, 0, 2] = S[:, 2, 0] = tau
        pr = np.einsum("nii->n", S) / 3
        d = S - pr[:, None, None] * np.eye(3)
        qr = np.sqrt(1.5 * np.einsum("nij,nij->n", d, d))
        case = lambda i: dict(gravity=g, k0=k0, slope=slope, depth=depths[i], density=r[i])
        rec.close("weight", "the pressure is not that of the column above", p, pr, 1e-9, 1e-12, case=case)
        rec.close("shear", "the shear stress is not that of the column above", q, qr, 1e-9, 1e-12, case=case)
        if slope == 0 and k0 <= 1:
            st = np.asarray(hdx.reconstruct_stress_from_triaxial(jnp.asarray(p), jnp.asarray(q)))
            rec.close("rebuilt", "the rebuilt stress does not carry the column above in the ratio K0", st, S, 1e-8, 1e-12, case=case)
        rec.count(states=5, transitions=5, traces=15, evals=5, distinct=5)
    a = [np.asarray(x) for x in hdx.precondition_from_lithostatic(jnp.asarray([2000.]), jnp.asarray([3.]), 10.)]
    rec.close("defaults", "without slope and K0 the ground is level and K0 is one half", np.array(a).ravel(), [60000 * 2 / 3, 30000.], 1e-8, case=None)
    rec.sample(depths=depths.tolist())
