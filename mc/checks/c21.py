"""C21 obstacles move as rigid bodies."""
PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of poses and of all motion schedules (sequences of velocity, spin and step-size choices) on the real obstacle kinematics, with exact rigid-motion oracles and first-order convergence of material points"
RULE = ("frames: every shape x pose x local point, world against local frame; schedules: every sequence up to the depth over an alphabet of (velocity, spin, step) choices from every start pose; "
        "solver: the same schedules driven through real solver steps; non-trivial = distinct (shape, pose, point) or schedule")
ASSUMPTIONS = ["JAX CPU float64", "pose integration is first order in the step: turning errors are bounded by the square of the turned angle per step"]
NOTE = "all schedules of the alphabet up to the depth are executed on the real update, states are compared after every step"
BOUNDS = {"quick": dict(schedule_depth=4, alphabet=6), "thorough": dict(schedule_depth=6, alphabet=8)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for dim in (2, 3):
        for n in ["sphere", "plane", "box", "capsule", "union"] + (["ring", "walls", "star"] if dim == 2 else ["cylinder", "torus", "pipe"]):
            out.append(("frames", dict(dim=dim, name=n, tier=tier)))
            out.append(("carry", dict(dim=dim, name=n, tier=tier)))
        out.append(("schedules", dict(dim=dim, tier=tier)))
        for scheme in ("usl", "usl_aflip"):
            out.append(("solver", dict(dim=dim, scheme=scheme, tier=tier)))
    return out


def makers(dim, name):
    from mc import sdflib as D
    from mc.env import hdx
    if name == "union":
        return [lambda: D.CompositeSDF([hdx.BoxSDF(size=(.5, .2, .8)[:dim]), hdx.CapsuleSDF(radius=.3, height=1.0)], [.2, .9])]
    return [m for m, _, _ in D.catalogue(dim)[name][:2]]


def motions(dim):
    from mc.env import np
    if dim == 2:
        return [((0., 0.), 0.0), ((1., -2.), 0.0), ((0., 0.), 3.0), ((-.5, .4), -1.5), ((30., 7.), 20.0)]
    return [((0., 0., 0.), (0., 0., 0.)), ((1., -2., .5), (0., 0., 0.)), ((0., 0., 0.), (0., 0., 3.)), ((-.5, .4, .2), (1., -2., .5)), ((30., 7., 1.), (0., 15., 10.))]


def frames(cfg, rec):
    """The world frame shows the local frame, moved rigidly; velocities are those of the rigid motion."""
    from mc.env import np, jnp
    from mc import sdflib as D, scenes as S
    dim = cfg["dim"]
    n = 9 if dim == 3 else 25
    loc = S.lattice(*[np.linspace(-1.5, 1.5, n) + q for q in (.013, .0271, -.0194)[:dim]])
    for make in makers(dim, cfg["name"]):
        lg = make()
        com0, rot0 = D.poses(dim, 1)[0]
        d0, n0, _, f0 = D.evaluate(lg, D.state(lg, dim, com0, rot0), loc)
        grad_ok = np.abs(np.linalg.norm(n0, axis=1) - 1) < 1e-6
        for com, rot in D.poses(dim):
            A = D.pose_mat(dim, rot)
            P = loc @ A.T + np.array(com)
            for vel, om in motions(dim):
                st = D.state(lg, dim, com, rot, vel, om)
                case = lambda q: dict(shape=cfg["name"], centre=list(com), rotation=np.asarray(rot).tolist(), velocity=list(vel), spin=om, local_point=loc[q].tolist())
                d, nr, v, f = D.evaluate(lg, st, P)
                rr = P - np.array(com)
                ev = np.array(vel) + (om * np.stack([-rr[:, 1], rr[:, 0]], 1) if dim == 2 else np.cross(np.broadcast_to(np.array(om), rr.shape), rr))
                rec.close("velocity", "the surface velocity is not that of the rigid motion", v, ev, 1e-10, 1e-12, case=case)
                rec.close("distance", "placing the obstacle changes its distances", d, d0, 1e-9, case=case)
                rec.close("normal", "placing the obstacle changes its normals", nr, n0 @ A.T, 1e-6, case=case, mask=grad_ok)
                rec.close("friction", "placing the obstacle changes its friction", f, f0, 0, case=case)
                rec.count(states=len(P), transitions=len(P), traces=len(P), evals=len(P), distinct=len(P))
    rec.sample(**case(3))


def carry(cfg, rec):
    """Material points of the surface stay on it and move with the reported velocity, to first order in the step."""
    from mc.env import np, jnp, jax
    from mc import sdflib as D, scenes as S
    dim = cfg["dim"]
    n = 7 if dim == 3 else 15
    loc = S.lattice(*[np.linspace(-1.1, 1.1, n) + .017] * dim)
    for make in makers(dim, cfg["name"])[:1]:
        lg = make()
        for com, rot in D.poses(dim)[:4]:
            A = D.pose_mat(dim, rot)
            P = loc @ A.T + np.array(com)
            for vel, om in motions(dim)[1:]:
                err = []
                for dt in (1e-2, 1e-3, 1e-4):
                    st = D.state(lg, dim, com, rot, vel, om)
                    d, nr, v, f = D.evaluate(lg, st, P, dt)
                    s1 = lg.update_kinematics(st, dt)
                    B = D.pose_mat(dim, np.asarray(s1.rotation))
                    Q = loc @ B.T + np.asarray(s1.center_of_mass)
                    d1 = D.evaluate(lg, s1, Q, dt)[0]
                    case = lambda q: dict(shape=cfg["name"], centre=list(com), rotation=np.asarray(rot).tolist(), velocity=list(vel), spin=om, dt=dt, local_point=loc[q].tolist())
                    rec.close("stays", "a moving obstacle changes its shape", d1, d, 1e-9, case=case)
                    w = np.linalg.norm(om)
                    R = np.linalg.norm(loc, axis=1)
                    rec.true("carry", "material points do not move with the reported velocity", np.linalg.norm((Q - P) / dt - v, axis=1) <= 1.0 * w * w * dt * R + 1e-9 / dt * 1e-3 + 1e-8, got=np.linalg.norm((Q - P) / dt - v, axis=1), case=case)
                    rec.count(states=2 * len(P), transitions=len(P), traces=len(P), evals=len(P), distinct=len(P))
    rec.sample(**case(3))


def alphabet(dim, tier):
    if dim == 2:
        a = [((0., 0.), 0.0, 1e-2), ((1., -2.), 0.0, 1e-2), ((0., 0.), 3.0, 1e-2), ((-.5, .4), -1.5, 2e-3), ((3., 7.), 20.0, 1e-3), ((.2, .1), 1.0, 5e-2), ((-4., 0.), -2.0, 1e-1), ((1e-6, 0.), 1e-6, 1.0)]
    else:
        a = [((0., 0., 0.), (0., 0., 0.), 1e-2), ((1., -2., .5), (0., 0., 0.), 1e-2), ((0., 0., 0.), (0., 0., 3.), 1e-2), ((-.5, .4, .2), (1., -2., .5), 2e-3), ((3., 7., 1.), (0., 15., 10.), 1e-3), ((.2, .1, .3), (-1., 0., 0.), 5e-2),
             ((-4., 0., 1.), (0., -2., 0.), 1e-1), ((1e-6, 0., 0.), (1e-6, 0., 0.), 1.0)]
    return a[:6] if tier == "quick" else a


def schedules(cfg, rec):
    """Every schedule of motions up to the depth, from every start pose, as a tree: each prefix is visited once."""
    from mc.env import np, jnp, jax, hdx
    import equinox as eqx
    from mc import sdflib as D
    dim = cfg["dim"]
    al = alphabet(dim, cfg["tier"])
    depth = BOUNDS[cfg["tier"]]["schedule_depth"]
    lg = hdx.BoxSDF(size=(.5, .2, .8)[:dim])
    V = np.array([a[0] for a in al]); W = np.array([a[1] for a in al], dtype=float); T = np.array([a[2] for a in al])
    s0 = D.state(lg, dim, *D.poses(dim, 1)[0])

    def one(com, rot, v, w, dt):
        st = eqx.tree_at(lambda s: (s.center_of_mass, s.rotation, s.velocity, s.angular_velocity), s0, (com, rot, v, w))
        n = lg.update_kinematics(st, dt)
        return n.center_of_mass, n.rotation, n.velocity, n.angular_velocity
    f = jax.jit(jax.vmap(one))
    P = D.poses(dim)
    com = np.array([p[0] for p in P]); rot = np.array([p[1] for p in P], dtype=float)
    ecom, eR = com.copy(), D.pose_mat(dim, rot)
    bound = np.zeros(len(P))
    hist = np.zeros((len(P), 0), int)
    start = np.arange(len(P))
    dist0 = len(P)
    for k in range(depth):
        n, m = len(com), len(al)
        i, j = np.repeat(np.arange(n), m), np.tile(np.arange(m), n)
        c, r, v1, w1 = [np.asarray(q) for q in f(jnp.asarray(com[i]), jnp.asarray(rot[i]), jnp.asarray(V[j]), jnp.asarray(W[j]), jnp.asarray(T[j]))]
        hist = np.concatenate([hist[i], j[:, None]], 1)
        start = start[i]
        case = lambda q: dict(start=start[q], schedule=[al[t] for t in hist[q]])
        ecom = ecom[i] + T[j][:, None] * V[j]
        wdt = W[j] * (T[j] if dim == 2 else T[j][:, None])
        if dim == 2:
            eR = D.rot2(wdt) @ eR[i]
            bound = np.zeros(len(i))
        else:
            eR = D.rotvec_mat(wdt) @ eR[i]
            a = np.linalg.norm(wdt, axis=1)
            bound = bound[i] + a ** 3 / 10          # tan-type integration error of one normalised step
        rec.close("centre", "the centre does not move with the velocity", c, ecom, 1e-11, 1e-12, case=case)
        A = D.pose_mat(dim, r)
        if dim == 3:
            rec.true("proper", "the orientation does not stay a unit quaternion", np.abs(np.linalg.norm(r, axis=1) - 1) < 1e-10, got=r, case=case)
        err = np.abs(A - eR).max((1, 2))
        rec.true("turn", "the obstacle does not turn with its spin", err <= 2 * bound + 1e-10, got=err, case=case)
        rec.close("inputs", "moving the obstacle changes its velocity", np.concatenate([v1, w1.reshape(len(v1), -1)], 1), np.concatenate([V[j], W[j].reshape(len(j), -1)], 1), 0, case=case)
        rec.count(states=len(c), transitions=len(c), traces=len(c), evals=len(c), distinct=len(c))
        com, rot = c, r
    rec.sample(**case(len(com) // 2))


def solver(cfg, rec):
    """Schedules driven through real solver steps with three obstacles at once; a container never moves."""
    import itertools
    from mc.env import np, jnp, jax, hdx
    import equinox as eqx
    from mc import sdflib as D
    dim = cfg["dim"]
    b = hdx.SimBuilder()
    b.add_grid(origin=(0.0,) * dim, end=(1.0,) * dim, cell_size=.5, padding=1)
    b.add_material_points(position_stack=jnp.full((1, dim), .55), mass_stack=jnp.ones(1), volume_stack=jnp.ones(1))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=.2))
    b.couple(shapefunction="linear")
    P = D.poses(dim)
    for lg, (com, rot) in ((hdx.BoxSDF(size=(.5, .2, .8)[:dim]), P[3]), (hdx.DomainSDF(origin=(0.,) * dim, end=(1.,) * dim), P[1]), (hdx.PlaneSDF(normal=(0., 1., 0.)[:dim]), P[2])):
        b.add_sdf_object(sdf_logic=lg, center_of_mass=jnp.asarray(np.array(com, dtype=float)), rotation=float(rot) if dim == 2 else jnp.asarray(rot),
                         velocity=jnp.zeros(dim), angular_velocity=0.0 if dim == 2 else jnp.zeros(3))
    b.set_solver(scheme=cfg["scheme"])
    s, st0 = b.build(dt=1e-2)
    al = alphabet(dim, "quick")
    depth = 3 if cfg["tier"] == "quick" else 4
    V = np.array([a[0] for a in al]); W = np.array([a[1] for a in al], dtype=float); T = np.array([a[2] for a in al])
    seqs = np.array(list(itertools.product(range(len(al)), repeat=depth)))

    def one(js):
        st = st0
        out = []
        for k in range(depth):
            j = js[k]
            o = [eqx.tree_at(lambda q: (q.center_of_mass, q.rotation, q.velocity, q.angular_velocity), x, (jnp.asarray(x.center_of_mass), jnp.asarray(x.rotation), jnp.asarray(V)[(j + i) % len(al)], jnp.asarray(W)[(j + i) % len(al)])) for i, x in enumerate(st.world.sdfs)]
            st = eqx.tree_at(lambda q: (q.world.sdfs, q.dt), st, (tuple(o), jnp.asarray(T)[j]))
            st = s(st)
            out.append(tuple((x.center_of_mass, x.rotation) for x in st.world.sdfs))
        return out
    res = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))(jnp.asarray(seqs)))
    starts = [P[3], P[1], P[2]]
    for i in range(3):
        c = np.tile(np.array(starts[i][0], dtype=float), (len(seqs), 1)); A = np.tile(D.pose_mat(dim, starts[i][1]), (len(seqs), 1, 1))
        bound = np.zeros(len(seqs))
        for k in range(depth):
            j = (seqs[:, k] + i) % len(al); t = T[seqs[:, k]]
            if i != 1:
                c = c + t[:, None] * V[j]
                w = W[j] * (t if dim == 2 else t[:, None])
                A = (D.rot2(w) if dim == 2 else D.rotvec_mat(w)) @ A
                bound = bound + (0 if dim == 2 else np.linalg.norm(w, axis=1) ** 3 / 5)
            case = lambda q: dict(obstacle=("box", "container", "plane")[i], schedule=seqs[q].tolist(), step=k + 1)
            rec.close("solver", "the solver does not move the centre with the velocity", res[k][i][0], c, 1e-11, 1e-12, case=case)
            rec.true("solver", "the solver does not turn the obstacle with its spin", np.abs(D.pose_mat(dim, res[k][i][1]) - A).max((1, 2)) <= bound + 1e-10, got=res[k][i][1], case=case)
    rec.count(states=len(seqs) * (depth + 1), transitions=len(seqs) * depth, traces=len(seqs), evals=len(seqs) * depth, distinct=len(seqs))
    rec.sample(schedule=[al[t] for t in seqs[-1]])
