"""Laws with admissible starting states, shared by several checks."""
from mc.env import jax, jnp, np, eqx, hdx

MCC = dict(nu=.2, M=.9, lam=.1, kap=.02, N=1.9, p_ref=1000.0, rho_p=2650.0)


def points(dim, n, stress=None, rho=1000.0, V0=1.0, **kw):
    z = jnp.zeros((n, dim))
    return hdx.MaterialPointState.create(position_stack=z, mass_stack=jnp.full((n,), rho * V0), volume_stack=jnp.full((n,), float(V0)),
                                         **({"stress_stack": jnp.asarray(stress)} if stress is not None else {}), **kw)


def ready(name, dim, n, p0=None, ocr=1.5, V0=1.0, **kw):
    """-> law, law_state, material points in an admissible, stress-consistent state."""
    if name in ("elastic", "elastic_reset"):
        law = hdx.LinearElasticLaw(**{**dict(E=1000.0, nu=.3, requires_F_reset=name == "elastic_reset"), **kw})
        s = None if p0 is None else np.tile(p0 * np.eye(3), (n, 1, 1))
        return law, None, points(dim, n, s, V0=V0)
    if name == "newton":
        law = hdx.NewtonFluid(**{**dict(K=1000.0, viscosity=2.0, beta=7.0), **kw})
        p = 50.0 if p0 is None else p0
        ls = law.create_state_from_density(density_stack=jnp.full((n,), 1000.0), pressure_stack=jnp.full((n,), float(p)))
        return law, ls, points(dim, n, np.tile(p * np.eye(3), (n, 1, 1)), V0=V0)
    if name == "mui":
        law = hdx.MuI_LC(**{**dict(mu_s=.3, mu_d=.6, I_0=.3, d_p=.01, K=1000.0, rho_p=2650.0, alpha=1e-3), **kw})
        p = 50.0 if p0 is None else p0
        ls = law.create_state_from_density(density_stack=jnp.full((n,), 1000.0), pressure_stack=jnp.full((n,), float(p)))
        return law, ls, points(dim, n, np.tile(p * np.eye(3), (n, 1, 1)), V0=V0)
    if name == "dp":
        p = 50.0 if p0 is None else p0
        s = jnp.asarray(np.tile(p * np.eye(3), (n, 1, 1)))
        law = hdx.DruckerPrager(**{**dict(K=1000.0, nu=.3, mu_1=.4, mu_2=1.0, c0=10.0, mu_1_hat=.1, H=20.0, rho_0=500.0, requires_F_reset=True), **kw})
        return law, law.create_state(s), points(dim, n, s, V0=V0)
    if name == "mcc":
        p = 10000.0 if p0 is None else p0
        law = hdx.ModifiedCamClay(**{**MCC, **kw})
        ls, s, rho = law.create_state_from_ocr(p_stack=jnp.full((n,), float(p)), ocr_stack=jnp.full((n,), float(ocr)))
        return law, ls, points(dim, n, s, rho=float(rho[0]), V0=V0)
    raise ValueError(name)


NAMES = ("elastic", "newton", "mui", "dp", "mcc")


def rate_alphabet(full=True):
    """Velocity gradients (compression positive), unit size."""
    z = np.zeros((3, 3))
    def m(**k):
        a = z.copy()
        for q, v in k.items():
            a[int(q[1]), int(q[2])] = v
        return a
    out = [
        ("rest", z), ("compress", np.eye(3) / 3), ("extend", -np.eye(3) / 3), ("shear", m(s01=1.0)),
        ("unshear", m(s01=-1.0)), ("axial", m(s11=1.0)), ("spin", m(s01=1.0, s10=-1.0)),
        ("mixed", np.array([[.3, .7, -.2], [-.4, -.5, .6], [.1, .25, .4]])),
    ]
    if full:
        out += [("axial_ext", m(s11=-1.0)), ("shear3", m(s12=.8, s20=-.5)), ("pure", np.diag([1.0, -.5, -.5])),
                ("mixed2", np.array([[-.6, .1, .3], [.8, -.2, -.1], [-.35, .45, -.3]]))]
    return [a for a, _ in out], np.stack([b for _, b in out])


def rep(tree, k, n):
    """Every point k times in a row (leaves with leading dimension n)."""
    return jax.tree_util.tree_map(lambda a: jnp.repeat(a, k, axis=0) if getattr(a, "ndim", 0) and a.shape[0] == n else a, tree)


def take(tree, idx, n):
    return jax.tree_util.tree_map(lambda a: a[idx] if getattr(a, "ndim", 0) and a.shape[0] == n else a, tree)


def _apply(law, mp, ls, L, dt):
    vol = mp.volume_stack * jnp.exp(-jnp.trace(L, axis1=1, axis2=2) * dt)
    mp = eqx.tree_at(lambda m: (m.L_stack, m.volume_stack), mp, (L, vol))
    return law.update(mp, ls, dt)


apply = eqx.filter_jit(_apply)


def chunked(law, mp, ls, L, dt, size=20000):
    n = mp.mass_stack.shape[0]
    if n <= size:
        return apply(law, mp, ls, L, dt)
    out = []
    for a in range(0, n, size):
        idx = np.minimum(np.arange(a, a + size), n - 1)
        keep = min(size, n - a)
        m, s = apply(law, take(mp, idx, n), take(ls, idx, n), L[idx], dt)
        out.append(take((m, s), np.arange(keep), size))
    return jax.tree_util.tree_map(lambda *x: jnp.concatenate(x) if getattr(x[0], "ndim", 0) else x[0], *out)


def words(law, mp, ls, Ls, depth, dt):
    """All words over the increments `Ls` (k,3,3) up to `depth`, breadth first.
    Yields (level, before, L, after) with before/after = (points, law state) of all words of that length;
    the word of entry i at level d is the base-k expansion of i (its last letter is i mod k)."""
    Ls = jnp.asarray(Ls); k = Ls.shape[0]
    cur = (mp, ls)
    n = mp.mass_stack.shape[0]
    for d in range(depth):
        pre = rep(cur, k, n)
        L = jnp.tile(Ls, (n, 1, 1))
        n *= k
        cur = chunked(law, pre[0], pre[1], L, dt)
        yield d, pre, L, cur


def letters(i, d, k, names):
    out = []
    for _ in range(d + 1):
        out.append(names[i % k]); i //= k
    return out[::-1], i


def starts(name, **kw):
    """law, law state, points: a row of admissible starting states (pressures, shear, history)."""
    def stress(p, q):
        return np.stack([pp * np.eye(3) + qq * np.array([[.4, .5, 0], [.5, -.7, .3], [0, .3, .3]]) for pp, qq in zip(p, q)])
    if name == "elastic":
        s = stress([0, 50., 0, -30.], [0, 0, 20., 15.])
        law = hdx.LinearElasticLaw(**{**dict(E=1000.0, nu=.3), **kw})
        return law, None, points(2, 4, s)
    if name in ("newton", "mui"):
        p = np.array([0., 5., 200.])
        law = ready(name, 2, 1, **kw)[0]
        ls = law.create_state_from_density(density_stack=jnp.full((3,), 1000.0), pressure_stack=jnp.asarray(p))
        return law, ls, points(2, 3, stress(p, 0 * p))
    if name == "dp":
        s = jnp.asarray(stress([0., 50., 50., 300.], [0, 0, 20., 60.]))
        law = ready(name, 2, 1, **kw)[0]
        return law, law.create_state(s), points(2, 4, s)
    if name == "mcc":
        p, ocr, q = [jnp.asarray(z) for z in ([1e4, 1e4, 1e4, 500.], [1.0, 1.5, 6.0, 2.0], [0., 3000., 4000., 100.])]
        law = ready(name, 2, 1, **kw)[0]
        ls, s, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=ocr, q_stack=q)
        # a fifth point: consolidated, but free of stress (free surface)
        ls = eqx.tree_at(lambda q: (q.p_c_stack, q.stress_ref_stack, q.eps_e_stack), ls, (jnp.append(ls.p_c_stack, 1e4), jnp.concatenate([ls.stress_ref_stack, ls.stress_ref_stack[:1]]), jnp.zeros((5, 3, 3))))
        mp = points(2, 5, jnp.concatenate([s, jnp.zeros((1, 3, 3))]))
        return law, ls, eqx.tree_at(lambda m: m.mass_stack, mp, jnp.append(rho, rho[0]))
    raise ValueError(name)
