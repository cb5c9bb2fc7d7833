"""C11 bodies on separate grids do not influence each other, whatever the registration order."""
PROPERTY = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of builder programs (registration orders, rigid bodies, solver splits) run on a lattice of states; solo runs as oracle"
RULE = ("all registration orders of each registry (and all combinations of orders for two bodies), a rigid body inserted at every position, every split of the bodies "
        "over solvers; each program runs a lattice of start states for several steps and every body is compared with the same body alone")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "each program is a real build; oracle is the solo run of the real code (body alone)"
BOUNDS = {"quick": dict(bodies=3, steps=2, orders="every other order of each registry (3 bodies); one, two or all five registries swapped (2 bodies)"), "thorough": dict(bodies=3, steps=4, orders="all pairs of registries, 3 bodies")}

FAST_COMPILE = True
REG = ("points", "grids", "laws", "couplings", "forces")


def tasks(tier):
    import itertools
    out = []
    perms = list(itertools.permutations(range(3)))
    for scheme in ("usl", "usl_aflip"):
        for dim in ((2, 3) if tier == "thorough" else (2,)):
            out.append(("orders", dict(scheme=scheme, dim=dim, tier=tier, vary=[], three=1)))
            for r in range(5):
                out.append(("orders", dict(scheme=scheme, dim=dim, tier=tier, vary=[r], three=1)))
            for k in range(4):
                out.append(("orders", dict(scheme=scheme, dim=dim, tier=tier, vary=[0, 1, 2, 3, 4], three=0, part=k)))
            if tier == "thorough":
                for a, b in itertools.combinations(range(5), 2):
                    out.append(("orders", dict(scheme=scheme, dim=dim, tier=tier, vary=[a, b], three=1)))
            out.append(("rigid", dict(scheme=scheme, dim=dim, tier=tier)))
            out.append(("split", dict(scheme=scheme, dim=dim, tier=tier)))
    if tier == "quick":
        for scheme in ("usl", "usl_aflip"):
            out.append(("orders", dict(scheme=scheme, dim=3, tier=tier, vary=[], three=1, one=1)))
    return out


def bodies(dim, np):
    return [dict(n=2, kernel="linear", law="elastic", h=.25, o=0.0, cells=4, g=[.5, -1.0, .3], damp=None),
            dict(n=1, kernel="quadratic", law="newton", h=.2, o=.1, cells=5, g=[-2.0, .7, 1.0], damp=.3),
            dict(n=3, kernel="cubic", law="dp", h=.3, o=-.2, cells=4, g=[.1, 3.0, -1.0], damp=None)]


def build(bl, ids, order, scheme, dim, rigid=(), split=None):
    """ids: bodies present; order: registry -> permutation of positions.  Returns solvers, state, where-map."""
    from mc.env import jnp, np, hdx
    from mc import lawlib
    b = hdx.SimBuilder()
    P, G, C, K = {}, {}, {}, {}
    for j in order["grids"]:
        i = ids[j]; B = bl[i]
        G[i] = b.add_grid(origin=(B["o"],) * dim, end=tuple(B["o"] + B["cells"] * B["h"] for _ in range(dim)), cell_size=B["h"], padding=3)
    nr = 0

    def add_rigid(slot):
        for r in rigid:
            if r == slot:
                x = jnp.asarray(np.random.default_rng(5).uniform(.2, .9, (2, dim)))
                b.add_material_points(position_stack=x, is_rigid=True)
    made = {}
    for k, j in enumerate(order["points"]):
        i = ids[j]; B = bl[i]
        add_rigid(k)
        law, ls, mp = lawlib.ready(B["law"], dim, B["n"], V0=.01)
        made[i] = (law, ls, mp)
        P[i] = b.add_material_points(position_stack=jnp.zeros((B["n"], dim)) + B["o"] + 1.5 * B["h"], mass_stack=mp.mass_stack,
                                     volume_stack=mp.volume_stack, stress_stack=mp.stress_stack)
    add_rigid(len(ids))
    for j in order["laws"]:
        i = ids[j]
        C[i] = b.add_constitutive_law(law=made[i][0], law_state=made[i][1])
    rig = [q for q, m in enumerate(b.particle_states) if not hasattr(m, "stress_stack")]
    for k, j in enumerate(order["couplings"]):
        i = ids[j]
        if k < len(rig):
            b.couple(p_idx=rig[k], g_idx=G[ids[0]], shapefunction="linear")
        K[i] = b.couple(p_idx=P[i], g_idx=G[i], c_idx=C[i], shapefunction=bl[i]["kernel"])
    for j in order["forces"]:
        i = ids[j]; B = bl[i]
        b.add_gravity(gravity=jnp.array(B["g"][:dim]), g_idx_list=[G[i]], is_apply_on_grid=i != 1, p_idx_list=[P[i]])
        if B["damp"]:
            b.add_damping(alpha=B["damp"], g_idx_list=[G[i]])
    for grp in (split or [None]):
        if grp is None:
            b.set_solver(scheme=scheme)
        else:
            b.set_solver(scheme=scheme, b_idx_list=[K[i] for i in grp if i in K])
    solver, st = b.build(dt=2e-3)
    return (solver if isinstance(solver, list) else [solver]), st, P, K, C


def states(bl, dim, th):
    """Lattice of start states per body."""
    from mc.env import np
    from mc import scenes as S
    A = S.lattice(*[[.1, .5, .8]] * dim)
    V = np.array([[0, 0, 0], [1.5, -.7, .4], [-.6, 1.1, -1]])[:, :dim]
    ia, iv = S.product_idx(len(A), len(V))
    d = {}
    for i, B in enumerate(bl):
        x = np.stack([B["o"] + B["h"] * (1.2 + .33 * q + A[(ia + q * 2 + i) % len(A)]) for q in range(B["n"])], 1)
        v = np.stack([V[(iv + q + i) % len(V)] for q in range(B["n"])], 1)
        d[i] = (x, v)
    return d


def runner(solvers, st, P, K, C, ids, scheme, steps):
    from mc.env import jax, jnp, np, eqx
    from mc import scenes as S

    def start(d):
        s = st
        for i in ids:
            s = S.put(s, p=P[i], pos=d["x%d" % i], vel=d["v%d" % i])
        return S.strong(s)

    def out(s):
        o = {}
        for i in ids:
            for q in ("pos", "vel", "stress", "F", "L", "vol"):
                o[q + str(i)] = S.get(s, q, P[i])
            if scheme == "usl_aflip":
                o["Bp%d" % i] = s.mechanics.solvers[K[i]].Bp_stack
            ls = s.mechanics.constitutive_laws[C[i]]
            for j, leaf in enumerate(jax.tree_util.tree_leaves(ls)):
                o["law%d_%d" % (j, i)] = jnp.asarray(leaf, dtype=float)
        return o

    def one(s):
        for sol in solvers:
            s = sol(s)
        return S.strong(s)
    step = jax.jit(jax.vmap(one))

    def run(d):
        s = jax.vmap(start)({k: jnp.asarray(v) for k, v in d.items()})
        for _ in range(steps):
            s = step(s)
        return {k: np.asarray(v) for k, v in jax.vmap(out)(s).items()}
    return run


def ident(ids):
    return {r: tuple(range(len(ids))) for r in REG}


_SOLO = {}


def setup(cfg):
    from mc.env import np
    dim, scheme = cfg["dim"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    steps = 4 if th else 2
    bl = bodies(dim, np)
    st = states(bl, dim, th)
    d = {}
    for i in st:
        d["x%d" % i], d["v%d" % i] = st[i]
    solo = _SOLO.setdefault((scheme, dim, steps), {})
    for i in (range(3) if not solo else ()):
        s, s0, P, K, C = build(bl, [i], ident([i]), scheme, dim)
        solo.update(runner(s, s0, P, K, C, [i], scheme, steps)({k: d[k + str(i)] for k in ()} | {"x%d" % i: d["x%d" % i], "v%d" % i: d["v%d" % i]}))
    return bl, d, solo, steps


def compare(rec, key, cfg, got, solo, ids, d, steps, info):
    from mc.env import np
    n = len(d["x0"])
    for k in got:
        sc = max(1.0, float(np.nanmax(np.abs(solo[k]))))
        rec.close(key, "body %s behaves differently in company (%s)" % (k[-1], k), got[k], solo[k], 1e-10 * sc, 1e-10,
                  case=lambda q: dict(info, x=d["x" + k[-1]][q].tolist(), v=d["v" + k[-1]][q].tolist()))
    rec.count(states=n, transitions=n * steps, traces=n, evals=n, distinct=n, programs=1)
    rec.sample(program=info, scheme=cfg["scheme"])


def orders(cfg, rec):
    import itertools
    bl, d, solo, steps = setup(cfg)
    ids = [0, 1, 2] if cfg["three"] else [0, 1]
    perms = list(itertools.permutations(range(len(ids))))
    combos = list(itertools.product(*[perms if r in cfg["vary"] else [tuple(range(len(ids)))] for r in range(5)]))
    if cfg["tier"] == "quick" and cfg["three"] and cfg["vary"]:
        combos = combos[1::2]
    if cfg["tier"] == "quick" and not cfg["three"]:
        combos = [c for c in combos if sum(p != perms[0] for p in c) in (1, 2, 5)]
    if "part" in cfg:
        combos = combos[cfg["part"]::4]
    for combo in combos:
        order = dict(zip(REG, combo))
        for pair in ([ids] if cfg["three"] else [[0, 1], [2, 0]]):
            s, s0, P, K, C = build(bl, pair, order, cfg["scheme"], cfg["dim"])
            use = {k: v for k, v in d.items() if int(k[1:]) in pair}
            got = runner(s, s0, P, K, C, pair, cfg["scheme"], steps)(use)
            compare(rec, "company", cfg, got, solo, pair, d, steps, dict(bodies=pair, order=order))
            if cfg["tier"] == "quick" and len(cfg["vary"]) == 5:
                break


def rigid(cfg, rec):
    bl, d, solo, steps = setup(cfg)
    for slots in ((0,), (1,), (2,), (3,), (0, 2)) if cfg['tier'] != 'quick' else ((0,), (2,), (3,)):
        s, s0, P, K, C = build(bl, [0, 1, 2], ident([0, 1, 2]), cfg["scheme"], cfg["dim"], rigid=slots)
        got = runner(s, s0, P, K, C, [0, 1, 2], cfg["scheme"], steps)(d)
        compare(rec, "rigid", cfg, got, solo, [0, 1, 2], d, steps, dict(rigid_slots=slots))


def split(cfg, rec):
    bl, d, solo, steps = setup(cfg)
    for grp in ([[0], [1, 2]], [[2], [0, 1]], [[1], [0, 2]], [[2, 1], [0]], [[0], [1], [2]], [[2], [1], [0]], [[2, 0, 1]])[::1 if cfg['tier'] != 'quick' else 2]:
        s, s0, P, K, C = build(bl, [0, 1, 2], ident([0, 1, 2]), cfg["scheme"], cfg["dim"], split=grp)
        got = runner(s, s0, P, K, C, [0, 1, 2], cfg["scheme"], steps)(d)
        compare(rec, "split", cfg, got, solo, [0, 1, 2], d, steps, dict(solvers=grp))
    # forces shared by two solvers act in both; listing the bodies of one solver in any order is the same solver
