"""C13 every scene-building program wires exactly what it describes."""
PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of builder call sequences, each executed on the real builder/solver and on an independent registry + step model"
RULE = ("programs: base call orders for two bodies (sequential, phase-grouped, shared grid with default couple, reversed with explicit handles, rigid body in front, "
        "couplings before later registrations) x every slot x every force call of the alphabet {gravity, damping on grids/points with default/explicit lists, obstacle + "
        "collider default/explicit}, ordered pairs of force calls; solver index lists; every program is stepped and compared with the model; non-trivial = distinct program")
ASSUMPTIONS = ["JAX CPU float64", "index lists refer to handles already returned", "2D scenes of one-point bodies (the wiring is structural)"]
NOTE = "each program runs the real builder and two real solver steps; the model is an independent list registry plus numpy MPM step"
BOUNDS = {"quick": dict(bodies=2, rigid=1, force_calls=2, steps=2), "thorough": dict(bodies=2, rigid=1, force_calls=3, steps=3)}
TASKS_PER_CHILD = 100

BASES = {
    "seq": ["G0", "P0", "L0", "K", "G1", "P1", "L1", "K"],
    "phased": ["G0", "G1", "P0", "P1", "L0", "L1", ("K", "P0", "G0", "L0"), ("K", "P1", "G1", "L1")],
    "shared": ["G0", "P0", "P1", "L1", "L0", ("K", "P1", None, "L1"), ("K", "P0", "G0", None)],
    "reversed": ["G1", "G0", "L1", "L0", "P1", "P0", ("K", "P0", "G0", "L0"), ("K", "P1", "G1", "L1")],
    "crossed": ["L1", "G0", "P1", "L0", ("K", "P1", "G0", "L1"), "G1", "P0", ("K", "P0", "G1", "L0")],
    "rigid": ["R", "G0", "P0", "L0", ("K", "R", None, None), "K1", "G1", "P1", "L1", "K"],
}
FORCES = ["gg", "gge", "gp", "gpe", "dg", "dge", "dp", "c", "ce"]


def tasks(tier):
    th = tier == "thorough"
    out = []
    for base in BASES:
        n = len(BASES[base]) + 1
        for k in range(2 if not th else 4):
            out.append(("singles", dict(base=base, scheme="usl", part=k, of=2 if not th else 4, tier=tier)))
        if not th and base not in ("shared", "rigid"):
            continue
        parts = 6 if not th else 12
        for k in range(parts):
            out.append(("pairs", dict(base=base, scheme="usl_aflip" if base == "shared" else "usl", part=k, of=parts, tier=tier)))
        if th:
            for k in range(12):
                out.append(("triples", dict(base=base, scheme="usl", part=k, of=12, tier=tier)))
    for scheme in ("usl", "usl_aflip"):
        for k in range(3):
            out.append(("force_lists", dict(scheme=scheme, part=k, of=3, tier=tier)))
        out.append(("body_lists", dict(scheme=scheme, tier=tier)))
        out.append(("sdf_lists", dict(scheme=scheme, tier=tier)))
    out.append(("laws", dict(tier=tier)))
    out.append(("start", dict(tier=tier)))
    return out


GRIDS = {"G0": dict(o=(0.0, 0.0), cells=3, h=.5, pad=2), "G1": dict(o=(.2, -.2), cells=4, h=.4, pad=3)}
BODY = {"P0": dict(x=[[.62, .81]], v=[[1.5, -.9]], m=[2.0], V=[.3], s=[[[30., 7, 0], [7, -11, 0], [0, 0, 4]]], k="linear"),
        "P1": dict(x=[[.73, .55]], v=[[-.8, -1.7]], m=[.7], V=[.2], s=[[[-5., 2, 0], [2, 21, 0], [0, 0, 9]]], k="linear")}
LAW = {"L0": dict(E=60.0, nu=.3), "L1": dict(E=250.0, nu=.1)}
PLANE = dict(n=(.6, .8), com=(.4, .1), vel=(.3, .2))
SPHERE = dict(r=.4, com=(.9, 1.2), vel=(-.5, .4))
DT = 5e-3


class Prog:
    """Executes one call sequence on the real builder and, in parallel, on a list model."""

    def __init__(self):
        from mc.env import hdx
        self.b = hdx.SimBuilder()
        self.grids, self.bodies, self.laws, self.couplings, self.forces, self.sdfs = [], [], [], [], [], []
        self.handle = {}
        self.errors = []

    def ret(self, kind, name, got, want):
        if got != want:
            self.errors.append("%s: returned handle %r, is registered at %r" % (kind, got, want))
        self.handle[name] = got

    def do(self, op):
        from mc.env import jnp, np, hdx
        b = self.b
        a = op if isinstance(op, tuple) else (op,)
        k = a[0]
        val = 1.0 + .37 * len(self.forces)
        if k in GRIDS:
            g = GRIDS[k]
            self.grids.append(k)
            self.ret("grid", k, b.add_grid(origin=g["o"], end=tuple(o + g["cells"] * g["h"] for o in g["o"]), cell_size=g["h"], padding=g["pad"]), len(self.grids) - 1)
        elif k in BODY:
            p = BODY[k]
            self.bodies.append(k)
            self.ret("body", k, b.add_material_points(position_stack=jnp.array(p["x"]), velocity_stack=jnp.array(p["v"]), mass_stack=jnp.array(p["m"]),
                                                      volume_stack=jnp.array(p["V"]), stress_stack=jnp.array(p["s"])), len(self.bodies) - 1)
        elif k == "R":
            self.bodies.append("R")
            self.ret("body", "R", b.add_material_points(position_stack=jnp.array([[.7, .7], [.8, .8]]), is_rigid=True), len(self.bodies) - 1)
        elif k in LAW:
            self.laws.append(k)
            self.ret("law", k, b.add_constitutive_law(law=hdx.LinearElasticLaw(requires_F_reset=False, **LAW[k])), len(self.laws) - 1)
        elif k in ("K", "K1"):
            if k == "K1":   # couple the last deformable body
                a = ("K", [x for x in self.bodies if x != "R"][-1], None, None)
            names = list(a[1:]) + [None] * (4 - len(a))
            kw = {}
            for key, nm, reg in (("p_idx", names[0], self.bodies), ("g_idx", names[1], self.grids), ("c_idx", names[2], self.laws)):
                if nm is not None:
                    kw[key] = self.handle[nm]
            pn = names[0] or self.bodies[-1]
            gn = names[1] or self.grids[-1]
            ln = None if pn == "R" else (names[2] or self.laws[-1])
            kern = BODY[pn]["k"] if pn != "R" else "linear"
            if pn == "P1" and len(self.couplings) == 0 and names[1] is not None:
                kern = "quadratic"
            self.couplings.append((pn, gn, ln, kern))
            self.ret("coupling", "K" + pn, b.couple(shapefunction=kern, **kw), len(self.couplings) - 1)
        elif k[0] in "gd":
            kw = dict(is_apply_on_grid=k[1] == "g")
            gl, pl = list(self.grids), [x for x in self.bodies if x != "R"]
            if k.endswith("e"):
                if k[1] == "g":
                    gl = self.grids[:1]
                    kw["g_idx_list"] = [self.handle[x] for x in gl]
                else:
                    pl = pl[-1:]
                    kw["p_idx_list"] = [self.handle[x] for x in pl]
            kind = "gravity" if k[0] == "g" else "damping"
            if k[0] == "g":
                value = np.array([val, -2.0 * val])
                h = b.add_gravity(gravity=jnp.asarray(value), **kw)
            else:
                value = .2 * val
                h = b.add_damping(alpha=value, **kw)
            self.forces.append((kind if k[1] == "g" else kind + "_pts", value, gl if k[1] == "g" else pl))
            self.ret("force", "F%d" % (len(self.forces) - 1), h, len(self.forces) - 1)
        elif k == "S":
            i = len(self.sdfs)
            if i % 2 == 0:
                lg = hdx.PlaneSDF(normal=PLANE["n"]); q = PLANE
            else:
                lg = hdx.SphereSDF(radius=SPHERE["r"]); q = SPHERE
            self.sdfs.append(i % 2)
            h = b.add_sdf_object(sdf_logic=lg, center_of_mass=jnp.array(q["com"]) + .05 * i, velocity=jnp.array(q["vel"]))
            self.ret("obstacle", "S%d" % i, h, i)
        elif k == "C":
            fr = .1 * val
            if len(a) > 1:
                s, gl = a[1], self.grids[-1:]
                h = b.add_sdf_collider(sdf_idx=self.handle["S%d" % s], g_idx_list=[self.handle[x] for x in gl], friction=fr)
            else:
                s, gl = len(self.sdfs) - 1, list(self.grids)
                h = b.add_sdf_collider(friction=fr)
            self.forces.append(("collider", (s, fr), gl))
            self.ret("collider", "F%d" % (len(self.forces) - 1), h, len(self.forces) - 1)
        elif k == "c":
            self.do("S"); self.do("C")
        elif k == "ce":
            self.do("S"); self.do("S"); self.do(("C", len(self.sdfs) - 2))
        else:
            raise ValueError(op)

    def sdf(self, i, t):
        """(nodes, grid) -> dist, normal, wall velocity at time t (the obstacle moves with its own velocity)."""
        from mc.env import np
        q = (PLANE, SPHERE)[self.sdfs[i]]
        com = np.array(q["com"]) + .05 * i + np.array(q["vel"]) * t
        def f(nodes):
            if self.sdfs[i] == 0:
                n = np.array(q["n"]); return (nodes - com) @ n, np.broadcast_to(n, nodes.shape), np.broadcast_to(q["vel"], nodes.shape)
            d = nodes - com; r = np.linalg.norm(d, axis=1)
            return r - q["r"], d / r[:, None], np.broadcast_to(q["vel"], nodes.shape)
        return f

    def model(self, steps, scheme, opt, forces=None, couplings=None, moving=None, dt=DT):
        """Expected bodies (by name) after the steps."""
        from mc.env import np
        from mc import refmpm as R
        grids = {}
        for n in self.grids:
            g = GRIDS[n]; grids[n] = R.Grid(g["o"], tuple(o + g["cells"] * g["h"] for o in g["o"]), g["h"], g["pad"])
        names = [n for n in self.bodies if n != "R"]
        gl = list(self.grids)
        B = []
        for n in names:
            p = BODY[n]
            d = dict(pos=np.array([p["x"]]), vel=np.array([p["v"]]), mass=np.array([p["m"]]), vol=np.array([p["V"]]), vol0=np.array([p["V"]]),
                     stress=np.array([p["s"]]), F=np.eye(3)[None, None].copy(), L=np.zeros((1, 1, 3, 3)))
            if scheme != "usl":
                d["Bp"] = np.zeros((1, 1, 3, 3))
            B.append(d)
        cpl = [c for c in (self.couplings if couplings is None else [self.couplings[i] for i in couplings]) if c[0] != "R"]
        laws = [None] * len(names)
        for p, g, l, k in cpl:
            laws[names.index(p)] = (lambda l: lambda b, dt: R.law_elastic(b, dt, **LAW[l]))(l)
        fo = self.forces if forces is None else [self.forces[i] for i in forces]
        pos = [0.0] * len(self.sdfs)
        for s in range(steps):
            for i in range(len(pos)):
                if moving is None or i in moving:
                    pos[i] += dt
            seq = []
            for kind, val, ids in fo:
                if kind.endswith("_pts"):
                    seq.append((kind, val, [names.index(x) for x in ids]))
                elif kind == "collider":
                    if val[0] < 0:
                        continue
                    geo = self.sdf(val[0], pos[val[0]])
                    def fn(nodes, grid, geo=geo, mu=val[1]):
                        d, n, vw = geo(nodes)
                        return d - grid.h, n, vw, mu
                    seq.append((kind, fn, [gl.index(x) for x in ids]))
                else:
                    seq.append((kind, val, [gl.index(x) for x in ids]))
            B, _ = R.step([grids[n] for n in gl], [(names.index(p), gl.index(g), k) for p, g, l, k in cpl], B, dt, scheme, opt, seq, law=laws)
        return names, B

    def handles_ok(self, st, rec, info):
        from mc.env import np
        for e in self.errors:
            rec.fail("handle", e, program=info)
        for n in self.bodies:
            mp = st.world.material_points[self.handle[n]]
            want = [[.7, .7], [.8, .8]] if n == "R" else BODY[n]["x"]
            if not np.allclose(np.asarray(mp.position_stack), want):
                rec.fail("handle", "body handle %s addresses another body" % n, program=info)
        for i, (kind, val, ids) in enumerate(self.forces):
            fs = st.mechanics.forces[self.handle["F%d" % i]]
            if kind.startswith("gravity") and not np.allclose(np.asarray(fs.gravity), val):
                rec.fail("handle", "gravity handle addresses another force's state", program=info)
            if kind.startswith("damping") and not np.allclose(np.asarray(fs.alpha), val):
                rec.fail("handle", "damping handle addresses another force's state", program=info)
        for i in range(len(self.sdfs)):
            q = (PLANE, SPHERE)[self.sdfs[i]]
            if not np.allclose(np.asarray(st.world.sdfs[self.handle["S%d" % i]].center_of_mass), np.array(q["com"]) + .05 * i):
                rec.fail("handle", "obstacle handle addresses another obstacle", program=info)

    def check(self, rec, info, scheme="usl", steps=2, key="wiring", forces=None, couplings=None, moving=None, solver_kw=None, time=0.0, step=0, dt=DT):
        from mc.env import np, jnp
        opt = {} if scheme == "usl" else dict(use_dynamic_alpha=False, alpha=.9)
        self.b.set_solver(scheme=scheme, **opt, **(solver_kw or {}))
        solver, st = self.b.build(dt=dt, time=time, step=step)
        self.handles_ok(st, rec, info)
        s0 = st
        for _ in range(steps):
            st = solver(st)
        names, B = self.model(steps, scheme, opt, forces, couplings, moving, dt)
        bad = []
        for n, e in zip(names, B):
            mp = st.world.material_points[self.bodies.index(n)]
            for q, f in (("pos", "position_stack"), ("vel", "velocity_stack"), ("stress", "stress_stack"), ("F", "F_stack"), ("vol", "volume_stack")):
                got, exp = np.asarray(getattr(mp, f)), e[q][0]
                if not np.allclose(got, exp, rtol=1e-6, atol=1e-6 * max(1.0, np.abs(exp).max())):
                    bad.append((n, q, got.tolist(), exp.tolist()))
        if "R" in self.bodies:
            mp = st.world.material_points[self.bodies.index("R")]
            if not np.array_equal(np.asarray(mp.position_stack), [[.7, .7], [.8, .8]]):
                bad.append(("R", "pos", np.asarray(mp.position_stack).tolist(), "unmoved"))
        if len(st.world.sdfs) != len(self.sdfs):
            bad.append(("obstacles", "count", len(st.world.sdfs), len(self.sdfs)))
        else:
            for i in range(len(self.sdfs)):
                q = (PLANE, SPHERE)[self.sdfs[i]]
                t = steps * dt if moving is None or i in moving else 0.0
                got = np.asarray(st.world.sdfs[i].center_of_mass); exp = np.array(q["com"]) + .05 * i + np.array(q["vel"]) * t
                if not np.allclose(got, exp, atol=1e-12):
                    bad.append(("obstacle%d" % i, "center", got.tolist(), exp.tolist()))
        if abs(float(st.time) - (time + steps * dt)) > 1e-12 or int(st.step) != step + steps or float(st.dt) != dt:
            bad.append(("clock", "time/step/dt", [float(st.time), int(st.step), float(st.dt)], [time + steps * dt, step + steps, dt]))
        if bad:
            rec.fail(key, "the scene does not do what its program describes: %s of %s" % (bad[0][1], bad[0][0]), program=info, got=bad[0][2], expected=bad[0][3])
        rec.count(states=steps + 1, transitions=steps, traces=1, evals=1, distinct=1, programs=1)
        rec.sample(program=info)
        return st


def run_ops(ops, rec, scheme, steps, **kw):
    p = Prog()
    for o in ops:
        p.do(o)
    return p.check(rec, [o if isinstance(o, str) else list(o) for o in ops], scheme=scheme, steps=steps, **kw)


def insert(base, items):
    """items: (slot, op) inserted before the base call of that slot, in the given order."""
    ops = []
    for i in range(len(base) + 1):
        ops += [o for s, o in items if s == i]
        if i < len(base):
            ops.append(base[i])
    return ops


def explicit_ok(base, slot, f):
    """Explicit lists need an object to name."""
    before = [o for o in base[:slot]]
    if f in ("gge", "dge", "ce"):
        return any(o in GRIDS for o in before)
    if f == "gpe":
        return any(o in BODY for o in before)
    return True


def singles(cfg, rec):
    base = BASES[cfg["base"]]
    progs = [(s, f) for s in range(len(base) + 1) for f in FORCES if explicit_ok(base, s, f)]
    if cfg["tier"] == "quick" and cfg["base"] in ("phased", "reversed", "crossed"):
        progs = [x for x in progs if x[0] % 3 == len(base) % 3]
    for s, f in progs[cfg["part"]::cfg["of"]]:
        run_ops(insert(base, [(s, f)]), rec, cfg["scheme"], 3 if cfg["tier"] != "quick" else 2 if s == len(base) else 1)


def pairs(cfg, rec):
    import itertools
    base = BASES[cfg["base"]]
    n = len(base)
    if cfg["tier"] == "quick":
        slots = [(n, n)] if cfg["base"] in ("reversed", "crossed", "shared") else [(n // 2 + 1, n)]
    else:
        slots = [(i, j) for i in range(2, n + 1) for j in range(i, n + 1)]
    progs = [((i, f), (j, g)) for i, j in slots for f, g in itertools.product(FORCES, FORCES) if explicit_ok(base, i, f) and explicit_ok(base, j, g)]
    for it in progs[cfg["part"]::cfg["of"]]:
        run_ops(insert(base, it), rec, cfg["scheme"], 1 if cfg["tier"] == "quick" else 2)


def triples(cfg, rec):
    import itertools
    base = BASES[cfg["base"]]
    n = len(base)
    progs = list(itertools.product(FORCES, repeat=3))
    for t in progs[cfg["part"]::cfg["of"]]:
        run_ops(insert(base, [(n // 2 + 1, t[0]), (n, t[1]), (n, t[2])]), rec, cfg["scheme"], 2)


def force_lists(cfg, rec):
    """Every ordered sub-list of the registered forces given to the solver."""
    import itertools
    calls = ["gg", "dg", "gp", "c"]
    lists = [l for r in range(5) for l in itertools.permutations(range(4), r)]
    for l in lists[cfg["part"]::cfg["of"]]:
        ops = insert(BASES["phased"], [(8, c) for c in calls])
        p = Prog()
        for o in ops:
            p.do(o)
        p.check(rec, dict(ops=calls, f_idx_list=l), scheme=cfg["scheme"], forces=list(l), solver_kw=dict(f_idx_list=list(l)), key="f_idx_list")


def body_lists(cfg, rec):
    for base in ("phased", "shared", "rigid"):
        K = [i for i, c in enumerate(BASES[base]) if (c[0] if isinstance(c, tuple) else c) in ("K", "K1")]
        m = len(K)
        subs = [[i for i in range(m) if q >> i & 1] for q in range(1, 2 ** m)]
        subs += [list(reversed(s)) for s in subs if len(s) > 1]
        for s in subs:
            p = Prog()
            for o in insert(BASES[base], [(len(BASES[base]), "gg"), (len(BASES[base]), "c")]):
                p.do(o)
            p.check(rec, dict(base=base, b_idx_list=s), scheme=cfg["scheme"], couplings=s, solver_kw=dict(b_idx_list=s), key="b_idx_list")


def sdf_lists(cfg, rec):
    """A solver advances exactly the obstacles it was given; colliders keep addressing the right one."""
    for sub in ([], [0], [1], [0, 1], [1, 0], [2], [0, 2], [2, 1, 0]):
        for coll in (0, 1, 2):
            p = Prog()
            for o in insert(BASES["seq"], [(8, "S"), (8, "S"), (8, "S"), (8, ("C", coll)), (8, "C")]):
                p.do(o)
            p.check(rec, dict(sdf_idx_list=sub, collider_on=coll), scheme=cfg["scheme"], moving=sub, solver_kw=dict(sdf_idx_list=sub), key="sdf_idx_list")


def laws(cfg, rec):
    """Laws that need a state are refused without one and get exactly the one given otherwise."""
    from mc.env import jnp, np, hdx, jax
    from mc import lawlib
    for name in lawlib.NAMES:
        law, ls, mp = lawlib.ready(name, 2, 2)
        for given in (True, False):
            for pre in (0, 1, 2):   # laws registered before
                b = hdx.SimBuilder()
                for i in range(pre):
                    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0 + i, nu=.1))
                err = None
                try:
                    h = b.add_constitutive_law(law=law, law_state=ls) if given else b.add_constitutive_law(law=law)
                except Exception as e:
                    err = e
                rec.count(states=1, transitions=1, evals=1, distinct=1)
                needs = name != "elastic"
                if given or not needs:
                    if err is not None:
                        rec.fail("refused", "law %s was refused with an admissible state: %r" % (name, err))
                        continue
                    st = b.law_states[h] if True else None
                    b.set_solver(scheme="usl")
                    _, s = b.build()
                    if h != pre or len(s.mechanics.constitutive_laws) != pre + 1:
                        rec.fail("handle", "law handle %r after %d laws" % (h, pre))
                    got = s.mechanics.constitutive_laws[h]
                    if needs:
                        A, B = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(ls)
                        if len(A) != len(B) or not all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(A, B)):
                            rec.fail("state", "law %s: the initial state given is not the one registered" % name)
                elif err is None:
                    rec.fail("accepted", "law %s needs an initial state but was accepted without one" % name)
    # fluids may be given their densities instead
    for name in ("newton", "mui"):
        law, ls, mp = lawlib.ready(name, 2, 2)
        b = hdx.SimBuilder()
        h = b.add_constitutive_law(law=law, density_stack=jnp.array([900.0, 1100.0]))
        want = law.create_state_from_density(density_stack=jnp.array([900.0, 1100.0]))
        if not all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(jax.tree_util.tree_leaves(b.law_states[h]), jax.tree_util.tree_leaves(want))):
            rec.fail("state", "fluid law %s: state differs from the given densities" % name)
        rec.count(states=1, transitions=1, evals=1, distinct=1)


def start(cfg, rec):
    """Initial time, step and time-step choice, gravity as tuple, unnamed defaults."""
    import itertools
    for t, s, dt in itertools.product((0.0, 1.25), (0, 7), (1e-3, 2e-2)):
        for base in ("seq", "shared"):
            p = Prog()
            for o in insert(BASES[base], [(len(BASES[base]), "gg"), (len(BASES[base]), "c")]):
                p.do(o)
            p.check(rec, dict(base=base, time=t, step=s, dt=dt), time=t, step=s, dt=dt, key="start")
