"""C39 domain of dependence: influence travels by at most one shared node per step."""
PROPERTY = "C39"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of scenes x perturbed point x perturbed quantity on real steps; after every step of the history the points outside the independently computed cone of influence must be bit for bit unchanged"
RULE = ("scenes: every arrangement of the alphabet of distances (sharing nodes, just not sharing, far, at opposite rims and neighbouring rows) of four points in two bodies; perturbations: each point x each quantity (position, velocity, mass, "
        "volume, stress, deformation, affine matrix, and making the point explode); x scheme x kernel x dimension x law; non-trivial = distinct (scene, perturbation)")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "oracle: the unperturbed twin; the cone is grown from the positions of both runs and the kernel's stencil"
BOUNDS = {"quick": dict(points=4, steps=3), "thorough": dict(points=4, steps=6)}
FAST_COMPILE = True
WIDTH = dict(linear=2, quadratic=3, cubic=4)
KINDS = ("pos", "vel", "mass", "vol", "stress", "F", "Bp", "blast")


def tasks(tier):
    out = []
    th = tier == "thorough"
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for i, kernel in enumerate(("linear", "quadratic", "cubic")):
                for law in ("elastic", "newton", "mui", "dp", "mcc") if th or dim == 2 else (("mui", "dp", "elastic")[i],):
                    out.append(("cone", dict(scheme=scheme, dim=dim, kernel=kernel, law=law, tier=tier)))
    return out


def cone(cfg, rec):
    from mc.env import np, jnp, jax, hdx
    from mc import scenes as S, lawlib as W
    dim, kernel, name = cfg["dim"], cfg["kernel"], cfg["law"]
    th = cfg["tier"] == "thorough"
    h, cells, dt = .25, 12, 1e-3
    w = WIDTH[kernel]
    law, ls, mp = W.ready(name, dim, 2, V0=.01)
    law2, ls2, _ = W.ready(name, dim, 2, V0=.01)

    def setup(b):
        b.add_gravity(gravity=jnp.array([1.0, -9.0, 2.0][:dim]))
        b.add_damping(alpha=.1)
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=.3), center_of_mass=jnp.full((dim,), 1.5), velocity=jnp.full((dim,), .2))
        b.add_sdf_collider(friction=.3)
    kw = dict(alpha=.95) if cfg["scheme"] == "usl" else dict(alpha=.95, use_mls_update=name in ("elastic", "mcc"))
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2, 2], kernel=kernel, h=h, cells=cells, padding=2, laws=[("obj", law, ls), ("obj", law2, ls2)], setup=setup, probe=False, solver_kw=kw)
    # arrangements: the first point, and the other three at these distances (in cells) along one axis or the diagonal
    D = [.35, w - .9, w - .1, w + .05, w + 1.2, 2 * w + .3]
    dirs = [np.eye(dim)[0], np.eye(dim)[-1], np.ones(dim)]
    starts = [np.full(dim, 5.2), np.full(dim, .1)]
    sc = []
    for x0 in starts:
        for u in dirs:
            for a in D:
                for b in D:
                    if (int(a * 7) + int(b * 5)) % (3 if not th else 1) == 0:
                        x1 = x0 + a * u
                        # the fourth point: one row up at the far rim, where a stencil that runs over wraps to
                        x3 = np.array(x0); x3[-1] = x0[-1] + 1.0 if x0[-1] < 10 else x0[-1] - 1; x3[0] = cells - .15
                        sc.append([x0, x1, x0 + min(a + b, 11.5 - x0.max()) * u, x3])
    sc = np.clip(np.array(sc), .02, cells - .02)
    n = len(sc)
    v = np.array([[.5, -.3, .2], [-.4, .6, .1], [.3, .3, -.5], [-.2, -.1, .4]])[:, :dim]
    ms, vol = float(np.asarray(mp.mass_stack)[0]), float(np.asarray(mp.volume_stack)[0])
    sig = np.asarray(mp.stress_stack)
    base = dict(pos0=sc[:, :2] * h, pos1=sc[:, 2:] * h, vel0=np.tile(v[:2], (n, 1, 1)), vel1=np.tile(v[2:], (n, 1, 1)), stress0=sig, stress1=sig)
    d = m.init(n, **base, mass0=np.full(2, ms), mass1=np.full(2, ms))
    for i in (0, 1):
        d["vol%d" % i][:] = vol; d["vol0%d" % i][:] = vol
    T = 6 if th else 3

    def one(dd):
        st = S.strong(S.put(m.put(dd), dt=dt))
        return jax.lax.scan(lambda c, _: ((lambda q: (S.strong(q), m.out(q)))(m.solver(c))), st, None, length=T)[1]
    f = jax.jit(jax.vmap(one))
    ref = {k: np.asarray(q) for k, q in f({k: jnp.asarray(q) for k, q in d.items() if k[:-1] in m.IN}).items()}
    cat = lambda o, k: np.concatenate([o[k + "0"], o[k + "1"]], 2)
    X0 = np.concatenate([d["pos0"][:, None], d["pos1"][:, None]], 2)

    def first(x):
        base = (x - (-2 * h)) / h
        return np.floor(base) if w == 2 else np.floor(base - .5) if w == 3 else np.floor(base) - 1

    def share(x, y):     # (n, 4) x (n, 4): may point a of run x and point b of run y meet on a node (with a margin for round-off on faces)
        a, b = first(x)[:, :, None], first(y)[:, None, :]
        return (np.abs(a - b) <= w).all(-1)      # one more than needed: generous by a node
    for q in range(4):
        for kind in KINDS:
            if kind == "Bp" and not m.aff:
                continue
            e = {k: z.copy() for k, z in d.items()}
            i, j = q // 2, q % 2
            mul = lambda k, s: e[k + str(i)].__setitem__((slice(None), j), e[k + str(i)][:, j] * s)
            add = lambda k, s: e[k + str(i)].__setitem__((slice(None), j), e[k + str(i)][:, j] + s)
            if kind == "pos": add("pos", .06 * h)
            if kind == "vel": add("vel", np.array([3.0, -2.0, 1.0])[:dim])
            if kind == "mass": mul("mass", 1.7)
            if kind == "vol": mul("vol", 1.3)
            if kind == "stress": add("stress", np.array([[40., 5, 0], [5, -20, 3], [0, 3, 10]]))
            if kind == "F": add("F", .1 * np.eye(3))
            if kind == "Bp": add("Bp", np.diag([2.0, -1.0, 0.0]))
            if kind == "blast":
                add("vel", np.array([4e3, -1e3, 2e3])[:dim]); add("stress", 1e9 * np.eye(3))
            o = {k: np.asarray(z) for k, z in f({k: jnp.asarray(z) for k, z in e.items() if k[:-1] in m.IN}).items()}
            hit = np.zeros((n, 4), bool); hit[:, q] = True
            xa = np.concatenate([X0, cat(ref, "pos")], 1)
            xb = np.concatenate([np.concatenate([e["pos0"][:, None], e["pos1"][:, None]], 2), cat(o, "pos")], 1)
            for t in range(T):
                a, b = xa[:, t], xb[:, t]
                with np.errstate(all="ignore"):
                    g = share(a, a) | share(b, b) | share(a, b) | ~np.isfinite(b).all(-1)[:, None, :]
                hit = hit | (g & hit[:, None, :]).any(2)
                free = ~hit
                def case(s):
                    return dict(points_in_cells=sc[s].tolist(), perturbed_point=q, perturbed=kind, step=t + 1)
                for k in ("pos", "vel", "vol", "stress", "F", "L", "mass") + (("Bp",) if m.aff else ()):
                    r, s = cat(ref, k)[:, t], cat(o, k)[:, t]
                    rec.close("cone", "a point is influenced by another it shares no grid node with (%s)" % k, s, r, 0.0, 1e-13, case=case, mask=free)
                rec.count(untouched=int(free.sum()))
            rec.count(states=n * T, transitions=n * T, traces=n, evals=n * T, distinct=n)
    rec.sample(**case(0))
