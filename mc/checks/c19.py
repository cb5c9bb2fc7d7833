"""C19 obstacle contact."""
PROPERTY = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of contact configurations on the real step; grid momentum is observed before and after every obstacle by probing user forces and judged by the contact invariants and an independent rule"
RULE = ("rule: plane poses (normal x offset x tilt) x plane motions x point velocities x surface frictions x collider coefficients; scenes: every shape x motion x kernel grid list, ordered pairs of obstacles, "
        "bodies of one and several points on one or two grids, nodes at shape centres, several steps; non-trivial = node within the contact layer carrying mass")
ASSUMPTIONS = ["JAX CPU float64", "contact layer of one cell as documented in the code", "no node exactly on the edge of the layer", "shape distances themselves are checked by C20-C22"]
NOTE = "every loaded node of every enumerated scene is judged"
BOUNDS = {"quick": dict(obstacles=2, steps=2), "thorough": dict(obstacles=3, steps=3)}
FAST_COMPILE = True
TASKS_PER_CHILD = 100


def tasks(tier):
    out = []
    for dim in (2, 3):
        for scheme in ("usl", "usl_aflip"):
            for mu in (0.0, .3, 1.0) if tier == "quick" else (0.0, .05, .3, 1.0, 4.0):
                out.append(("rule", dict(dim=dim, scheme=scheme, mu=mu, tier=tier)))
            out.append(("domain", dict(dim=dim, scheme=scheme, tier=tier)))
            n = 2 if tier == "quick" else 6
            for k in range(n):
                out.append(("scenes", dict(dim=dim, scheme=scheme, part=k, of=n, tier=tier)))
                out.append(("pairs", dict(dim=dim, scheme=scheme, part=k, of=n, tier=tier)))
    return out


def judge(rec, before, after, mass, dist, nrm, vw, mu, case, tag=""):
    """Invariants and the exact rule.  Arrays: (B, nodes, dim), (B, nodes)."""
    from mc.env import np
    from mc import refmpm as R
    rec.true("empty", tag + "an empty node gets momentum", np.abs(after).max(-1) <= np.where(mass == 0, 0.0, np.where(mass < 1e-14, 1e-10, np.inf)), got=after, case=case)
    ok = mass > 1e-14
    M = np.where(ok, mass, 1.0)[..., None]
    rec.true("finite", tag + "contact gives a momentum that is not a number", np.isfinite(after), got=after, case=case)
    vb, va = np.where(ok[..., None], before / M, 0.0), np.where(ok[..., None], after / M, 0.0)
    ok = ok & (np.abs(dist) > 1e-9)                    # a node exactly on the edge of the layer may go either way
    mass = np.where(ok, mass, 0.0)
    before, after = before * ok[..., None], after * ok[..., None]
    touch = ok & (dist <= 0)
    sc = max(1.0, np.abs(vb).max(), np.abs(vw).max())
    t = 1e-9 * sc
    rb, ra = vb - vw, va - vw
    nb, na = (rb * nrm).sum(-1), (ra * nrm).sum(-1)
    tb, ta = rb - nb[..., None] * nrm, ra - na[..., None] * nrm
    lb, la = np.linalg.norm(tb, axis=-1), np.linalg.norm(ta, axis=-1)
    mu = np.broadcast_to(mu, nb.shape)
    rec.true("penetration", tag + "a node inside the obstacle still moves into it", ~touch | (na >= -t), got=na, case=case)
    rec.true("slip", tag + "the tangential slip is reduced by more than friction allows", ~touch | (lb - la <= mu * (na - nb) + t), got=lb - la, case=case)
    rec.true("slip", tag + "the tangential slip grows", ~touch | (la <= lb + t), got=la - lb, case=case)
    rec.true("reversal", tag + "friction reverses or turns the slip", ~touch | (np.abs((ta * tb).sum(-1) - la * lb) <= t * sc), got=ta, case=case)
    rec.true("separating", tag + "a separating node is changed", ~(touch & (nb > t)) | (np.abs(va - vb).max(-1) <= t), got=va - vb, case=case)
    rec.true("energy", tag + "contact feeds kinetic energy relative to the surface", ~touch | ((ra ** 2).sum(-1) <= (rb ** 2).sum(-1) + t * sc), got=(ra ** 2).sum(-1) - (rb ** 2).sum(-1), case=case)
    rec.true("away", tag + "a node away from the obstacle is changed", ~(ok & (dist > 0)) | (np.abs(va - vb).max(-1) <= t), got=va - vb, case=case)
    exp = R.contact(vb, dist, nrm, vw, mu) * np.where(ok, mass, 0.0)[..., None]
    ms = max(1.0, np.abs(mass).max())
    rec.close("rule", tag + "contact gives the wrong velocity", after, exp, 1e-9 * sc * ms, 1e-9, case=case)
    rec.count(touching=touch.sum(), closing=(touch & (nb < 0)).sum(), sticking=(touch & (nb < 0) & (la < 1e-9)).sum(), sliding=(touch & (nb < 0) & (la >= 1e-9) & (la < lb - 1e-9)).sum())
    return int(touch.sum())


def rot2(a):
    from mc.env import np
    c, s = np.cos(a), np.sin(a)
    return np.stack([np.stack([c, -s], -1), np.stack([s, c], -1)], -2)


def quat_mat(q):
    from mc.env import np
    q = np.asarray(q, dtype=float)
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    w, x, y, z = np.moveaxis(q, -1, 0)
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
                     np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], -1),
                     np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1)], -2)


def rotvec_mat(w):
    """Rotation matrix exp([w]x), w (..., 3)."""
    from mc.env import np
    t = np.linalg.norm(w, axis=-1)[..., None, None]
    K = np.zeros(w.shape[:-1] + (3, 3))
    K[..., 0, 1], K[..., 0, 2], K[..., 1, 2] = -w[..., 2], w[..., 1], -w[..., 0]
    K[..., 1, 0], K[..., 2, 0], K[..., 2, 1] = w[..., 2], -w[..., 1], w[..., 0]
    a = np.where(t > 1e-12, np.sin(t) / np.where(t > 1e-12, t, 1), 1.0)
    b = np.where(t > 1e-12, (1 - np.cos(t)) / np.where(t > 1e-12, t, 1) ** 2, .5)
    return np.eye(3) + a * K + b * K @ K


def rule(cfg, rec):
    """A plane of every pose and motion against one loaded cell."""
    from mc.env import np, jnp, eqx, jax, hdx
    from mc import scenes as S
    dim, th = cfg["dim"], cfg["tier"] == "thorough"
    h, dt = .25, 1e-3
    from hydraxmpm.sdf.sdfcollection import CompositeSDF
    pr = []
    N0 = (.6, .8) if dim == 2 else (.48, .6, .64)

    def setup(b):
        b.add_sdf_object(sdf_logic=CompositeSDF([hdx.PlaneSDF(normal=N0)], [.5]), center_of_mass=jnp.zeros(dim),
                         velocity=jnp.zeros(dim), angular_velocity=0.0 if dim == 2 else jnp.zeros(3), rotation=0.0 if dim == 2 else jnp.array([1., 0, 0, 0]))
        pr.append(S.add_probe(b))
        b.add_sdf_collider(friction=cfg["mu"])
        pr.append(S.add_probe(b))
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[2], kernel="linear", h=h, setup=setup, probe=False, dt=dt, padding=1, cells=3)
    V = S.lattice(*[[-3.0, 0.0, 2.0]] * dim)
    VW = np.array([[0, 0, 0], [1.0, -.5, .7], [-4., 2., -1.]])[:, :dim]
    OFF = [-.93, -.31, .07, .37]           # plane offset along its normal from the loaded cell centre, in units of h
    SF = [0.0, .5, 2.0]
    if dim == 2:
        ROT = np.array([0.0, .7, 2.1, -1.5])
        W = np.array([0.0, 3.0])
    else:
        ROT = np.array([[1., 0, 0, 0], [.8, .6, 0, 0], [.5, -.5, .5, .5]])
        W = np.array([[0., 0, 0], [1., -2., 3.]])
    iv, iw, io, isf, ir, ia = S.product_idx(len(V), len(VW), len(OFF), len(SF), len(ROT), len(W))
    if not th and dim == 3:
        k = (iv + iw + io + isf + ir + ia) % 3 == 0
        iv, iw, io, isf, ir, ia = [q[k] for q in (iv, iw, io, isf, ir, ia)]
    B = len(iv)
    x = np.tile(np.array([[1.37, 1.62, 1.55], [1.5, 1.25, 1.3]])[:, :dim] * h, (B, 1, 1))
    v = np.stack([V[iv], .5 * V[iv][:, ::-1]], 1)
    d = m.init(B, pos0=x, vel0=v, mass0=np.array([2.0, .7]))
    Rm = rot2(ROT[ir]) if dim == 2 else quat_mat(ROT[ir])
    n0 = np.einsum("bij,j->bi", Rm, np.array(N0))
    com = np.full(dim, 1.5 * h) + n0 * (np.array(OFF)[io] * h)[:, None]
    vel, om, rot, sf = VW[iw], W[ia], ROT[ir], np.array(SF)[isf]

    def one(dd, com, vel, om, rot, sf):
        st = S.put(m.put(dd), dt=dt)
        o = eqx.tree_at(lambda s: (s.center_of_mass, s.velocity, s.angular_velocity, s.rotation), st.world.sdfs[0], (com, vel, om, rot))
        st = eqx.tree_at(lambda s: s.world.sdfs, st, (o,))
        sol = eqx.tree_at(lambda s: s.sdf_logics[0].frictions, m.solver, sf[None])
        st = sol(st)
        a, b = st.mechanics.forces[pr[0]], st.mechanics.forces[pr[1]]
        return a.moment_nt[0], b.moment_nt[0], a.mass[0], st.world.sdfs[0]
    pb, pa, mass, o = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))({k: jnp.asarray(q) for k, q in d.items()}, *map(jnp.asarray, (com, vel, om, rot, sf))))
    # pose after one step, independently
    com1 = com + dt * vel
    R1 = rot2(rot + dt * om) if dim == 2 else rotvec_mat(om * dt) @ Rm
    R2 = rot2(o.rotation) if dim == 2 else quat_mat(o.rotation)
    n1 = np.einsum("bij,j->bi", R2, np.array(N0))   # the pose in force; pose integration itself is first order (C21)
    nodes = m.refgrid().nodes()
    rel = nodes[None] - com1[:, None]
    dist = np.einsum("bnd,bd->bn", rel, n1) - h
    if dim == 2:
        vw = vel[:, None] + np.stack([-om[:, None] * rel[..., 1], om[:, None] * rel[..., 0]], -1)
    else:
        vw = vel[:, None] + np.cross(np.broadcast_to(om[:, None], rel.shape), rel)
    case = lambda q: dict(v=V[iv[q]].tolist(), plane_velocity=vel[q].tolist(), spin=om[q].tolist(), rotation=rot[q].tolist(), offset_cells=OFF[io[q]], surface_friction=float(sf[q]), collider=cfg["mu"])
    rec.close("pose", "the obstacle moved wrongly", o.center_of_mass, com1, 1e-12, case=case)
    rec.close("pose", "the obstacle turned wrongly", R2, R1, 1e-12 if dim == 2 else 20 * dt ** 2, case=case)
    n = judge(rec, pb, pa, mass, dist, n1[:, None], vw, cfg["mu"] * sf[:, None], case)
    rec.count(states=2 * B, transitions=B, traces=B, evals=n, distinct=n)
    rec.sample(**case(B // 2))


def domain(cfg, rec):
    """A container: every wall with its own friction and its inward normal."""
    from mc.env import np, jnp, eqx, jax, hdx
    from mc import scenes as S
    dim = cfg["dim"]
    h, dt = .25, 1e-3
    pr = []
    FR = np.array([.1, .7, .3, 1.5, .2, .9])[:2 * dim]
    lo, hi = np.array([.3, .35, .25])[:dim], np.array([1.2, 1.15, 1.25])[:dim]
    mu = .8

    def setup(b):
        b.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=tuple(lo.tolist()), end=tuple(hi.tolist()), frictions=FR.tolist()), center_of_mass=jnp.zeros(dim))
        pr.append(S.add_probe(b))
        b.add_sdf_collider(friction=mu)
        pr.append(S.add_probe(b))
    m = S.Multi(dim=dim, scheme=cfg["scheme"], sizes=[1], kernel="cubic", h=h, setup=setup, probe=False, dt=dt, padding=1, cells=6)
    V = S.lattice(*[[-3.0, 0.0, 2.0]] * dim)
    X = S.lattice(*[np.linspace(.31, 1.13, 6 if dim == 2 or cfg["tier"] != "quick" else 4)] * dim)
    iv, ix = S.product_idx(len(V), len(X))
    B = len(iv)
    d = m.init(B, pos0=X[ix][:, None], vel0=V[iv][:, None])

    def one(dd):
        st = m.solver(S.put(m.put(dd), dt=dt))
        a, b = st.mechanics.forces[pr[0]], st.mechanics.forces[pr[1]]
        return a.moment_nt[0], b.moment_nt[0], a.mass[0]
    pb, pa, mass = [np.asarray(q) for q in jax.jit(jax.vmap(one))({k: jnp.asarray(q) for k, q in d.items()})]
    nodes = m.refgrid().nodes()
    walls = np.concatenate([nodes - lo, hi - nodes], -1)
    k = walls.argmin(-1)
    srt = np.sort(walls, -1)
    clear = srt[:, 1] - srt[:, 0] > 1e-9     # corner bisectors have no unique nearest wall
    nrm = np.zeros_like(nodes)
    nrm[np.arange(len(nodes)), k % dim] = np.where(k < dim, 1.0, -1.0)
    case = lambda q: dict(v=V[iv[q]].tolist(), x=X[ix[q]].tolist())
    z = clear[None, :, None]
    dist = np.broadcast_to(walls.min(-1) - h, mass.shape)
    n = judge(rec, pb * z, pa * z, mass * clear, dist, nrm, np.zeros(dim), mu * FR[k], case, "container: ")
    rec.count(states=2 * B, transitions=B, traces=B, evals=n, distinct=n, unclear_nodes=int((~clear).sum()))
    rec.sample(**case(B // 2))


def shapes(dim):
    from mc.env import hdx
    from hydraxmpm.sdf.sdfcollection import CompositeSDF
    s = dict(plane=lambda: hdx.PlaneSDF(normal=(.6, .8) if dim == 2 else (.48, .6, .64)), sphere=lambda: hdx.SphereSDF(radius=.3), box=lambda: hdx.BoxSDF(size=(.5, .3) if dim == 2 else (.5, .3, .4)),
             capsule=lambda: hdx.CapsuleSDF(radius=.2, height=.4),
             union=lambda: CompositeSDF([hdx.SphereSDF(radius=.2), hdx.BoxSDF(size=(.2, .7) if dim == 2 else (.2, .7, .3))], [.3, 1.2]))
    if dim == 2:
        s.update(ring=lambda: hdx.HollowCylinderSDF(height=1.0, outer_radius=.5, inner_radius=.2, is_2d_ring=True),
                 walls=lambda: hdx.HollowCylinderSDF(height=1.0, outer_radius=.5, inner_radius=.2, is_2d_ring=False),
                 star=lambda: hdx.StarSDF(points=5, outer_radius=.5, inner_radius=.25))
    else:
        s.update(cylinder=lambda: hdx.CylinderSDF(radius=.3, height=.5), torus=lambda: hdx.TorusSDF(major_r=.3, minor_r=.1),
                 pipe=lambda: hdx.HollowCylinderSDF(height=.6, outer_radius=.5, inner_radius=.2))
    return s


def motions(dim):
    import numpy as np
    if dim == 2:
        return [dict(), dict(velocity=(1.0, -.5)), dict(velocity=(-.4, .3), angular_velocity=2.0, rotation=.6)]
    return [dict(), dict(velocity=(1.0, -.5, .3)), dict(velocity=(-.4, .3, .2), angular_velocity=(1.0, -2.0, .5), rotation=(.8, .6, 0.0, 0.0))]


def run(rec, dim, scheme, obstacles, nbody, npts, twogrids, steps, kernel, place):
    """obstacles: [(shape, motion index, center, friction, grids)]; every obstacle is bracketed by probes."""
    from mc.env import np, jnp, eqx, jax, hdx
    from mc import scenes as S
    h, dt = .25, 2e-3
    b = hdx.SimBuilder()
    ng = 2 if twogrids else 1
    top = 1.5 if dim == 2 else 1.0
    o, hs = [(0.0,) * dim, [(-.11, .04, -.07)[:dim], (-.2, -.15, -.1)[:dim]][place]], [h, [h, .22][place]]     # a second grid elsewhere: as many nodes, or another cell size
    for i in range(ng):
        b.add_grid(origin=o[i], end=tuple(x + top for x in o[i]), cell_size=hs[i], padding=1)
    rngx = [np.array([[.52, .61, .55], [.7, .45, .62], [.33, .8, .45]])[:npts, :dim], np.array([[.61, .43, .5], [.4, .66, .7], [.72, .71, .31]])[:npts, :dim]]
    for i in range(nbody):
        b.add_material_points(position_stack=jnp.array(rngx[i]), velocity_stack=jnp.array(np.array([[2., -3., 1.], [-1., .5, -2.], [3., 2., .5]])[:npts, :dim] * (1 - 1.6 * i)),
                              mass_stack=jnp.array([2.0, .5, 1.0][:npts]), volume_stack=jnp.full(npts, .01))
    b.add_constitutive_law(law=hdx.LinearElasticLaw(E=50.0, nu=.2, requires_F_reset=False))
    for i in range(nbody):
        b.couple(p_idx=i, g_idx=i if twogrids else 0, c_idx=0, shapefunction=kernel)
    sh, mo = shapes(dim), motions(dim)
    logics = []
    for s, mi, com, mu, gl in obstacles:
        lg = sh[s]()
        logics.append(lg)
        b.add_sdf_object(sdf_logic=lg, center_of_mass=jnp.array(com[:dim], dtype=float), **{k: (jnp.array(q) if isinstance(q, tuple) else q) for k, q in mo[mi].items()})
    pr = [S.add_probe(b)]
    for i, (s, mi, com, mu, gl) in enumerate(obstacles):
        b.add_sdf_collider(sdf_idx=i, friction=mu, **({} if gl is None else dict(g_idx_list=list(gl))))
        pr.append(S.add_probe(b))
    b.set_solver(scheme=scheme)
    solver, st = b.build(dt=dt)
    grids = [np.asarray(q.position_stack) for q in b.grid_domains]
    case = lambda q: dict(place=place, obstacles=obstacles, bodies=nbody, points=npts, grids=ng, kernel=kernel)
    com = [np.array(o[2][:dim], dtype=float) for o in obstacles]
    rot = [(np.float64(mo[o[1]].get("rotation", 0.0)) if dim == 2 else quat_mat(np.array(mo[o[1]].get("rotation", (1., 0, 0, 0))))) for o in obstacles]
    n = 0
    for k in range(steps):
        st = solver(st)
        for i, (s, mi, c0, mu, gl) in enumerate(obstacles):
            w = mo[mi].get("angular_velocity", 0.0 if dim == 2 else (0., 0, 0))
            vv = np.array(mo[mi].get("velocity", (0.0,) * dim))
            com[i] = com[i] + dt * vv
            rot[i] = rot[i] + dt * w if dim == 2 else rotvec_mat(np.array(w) * dt) @ rot[i]
            # geometry in the obstacle's own frame, from its local distance and friction
            A = rot2(rot[i]) if dim == 2 else quat_mat(np.asarray(st.world.sdfs[i].rotation))
            if dim == 3 and not np.allclose(A, rot[i], atol=20 * dt ** 2 * (k + 1)):
                rec.fail("pose", "the obstacle turned wrongly", got=A, expected=rot[i], **case(0))
            lg, s0 = logics[i], st.world.sdfs[i]
            if not np.allclose(np.asarray(s0.center_of_mass), com[i], atol=1e-12):
                rec.fail("pose", "the obstacle moved wrongly", got=s0.center_of_mass, expected=com[i], **case(0))
            fa, fb = st.mechanics.forces[pr[i]], st.mechanics.forces[pr[i + 1]]
            for g in range(ng):
                nodes = grids[g]
                loc = jnp.asarray((nodes - com[i]) @ A)
                D = np.asarray(jax.vmap(lambda p: lg.signed_distance_local(s0, p))(loc))
                G = np.asarray(jax.vmap(jax.grad(lambda p: lg.signed_distance_local(s0, p)))(loc))
                F = np.array(jax.vmap(lambda p: jnp.asarray(lg.get_surface_friction_local(s0, p), dtype=float))(loc))
                if getattr(lg, "frictions", None) is None and getattr(lg, "friction", None) is None and not (F == 1.0).all():
                    rec.fail("own", "an obstacle without a friction of its own does not leave the collider's friction as it is", got=F, expected=1.0, **case(0))
                gn = np.linalg.norm(G, axis=-1, keepdims=True)
                N = (G / (gn + 1e-12)) @ A.T
                rel = nodes - com[i]
                vw = vv + (np.stack([-w * rel[:, 1], w * rel[:, 0]], -1) if dim == 2 else np.cross(np.broadcast_to(np.array(w), rel.shape), rel))
                sharp = (np.abs(gn[:, 0] - 1) < 1e-6) & (np.abs(D - hs[g]) > 1e-9)
                a, e, mass = np.asarray(fa.moment_nt[g]), np.asarray(fb.moment_nt[g]), np.asarray(fb.mass[g])
                if gl is not None and g not in gl:
                    if not np.array_equal(a, e):
                        rec.fail("grids", "an obstacle acts on a grid it was not assigned to", **case(0))
                    continue
                if not np.isfinite(e).all():
                    rec.fail("finite", "contact gives a momentum that is not a number", **case(0))
                z = sharp[:, None]    # centres and ridges have no normal: only finiteness is asked there
                n += judge(rec, (a * z)[None], (e * z)[None], (mass * sharp)[None], (D - hs[g])[None], N[None], vw[None], (mu * F)[None], case, "scene: ")
    for mp in st.world.material_points:
        if not (np.isfinite(np.asarray(mp.position_stack)).all() and np.isfinite(np.asarray(mp.velocity_stack)).all() and np.isfinite(np.asarray(mp.stress_stack)).all()):
            rec.fail("finite", "contact makes points not-a-number", **case(0))
    rec.count(states=steps + 1, transitions=steps, traces=steps, evals=n, distinct=1, programs=1)
    return n


NODE = (.5, .5, .5)                 # exactly a grid node
OFFN = (.43, .37, .58)


def scenes(cfg, rec):
    dim = cfg["dim"]
    progs = []
    for s in shapes(dim):
        for mi in range(3):
            for ci, com in enumerate((NODE, OFFN)):
                if cfg["tier"] == "quick" and (mi + ci + len(s)) % 2 and mi:
                    continue
                progs.append(dict(obstacles=[(s, mi, com, .4, None)], nbody=1, npts=3, twogrids=False, steps=2 if cfg["tier"] == "quick" else 4, kernel="linear", place=0))
        progs.append(dict(obstacles=[(s, 1, OFFN, .7, (0,))], nbody=2, npts=1, twogrids=True, steps=1, kernel="quadratic", place=0))
        progs.append(dict(obstacles=[(s, 2, OFFN, .7, (1,))], nbody=2, npts=2, twogrids=True, steps=1, kernel="cubic", place=1))
    for p in progs[cfg["part"]::cfg["of"]]:
        run(rec, dim, cfg["scheme"], **p)
    rec.sample(program=progs[-1])


def pairs(cfg, rec):
    """Two (thorough: also three) obstacles at once, each with its own motion, friction and grids."""
    import itertools
    dim = cfg["dim"]
    names = list(shapes(dim))
    progs = []
    two = list(itertools.permutations(names, 2))
    if cfg["tier"] == "quick":
        two = [q for i, q in enumerate(two) if i % 5 == 0]
    for i, (a, b) in enumerate(two):
        progs.append(dict(obstacles=[(a, i % 3, OFFN, .2, None if i % 2 else (0,)), (b, (i + 1) % 3, (.8, .7, .4), .9, (1,) if i % 4 == 0 else None)], nbody=2, npts=2, twogrids=True, steps=1, kernel="linear", place=i // 2 % 2))
    if cfg["tier"] != "quick":
        for i, t in enumerate(itertools.permutations(names, 3)):
            if i % 4 == 0:
                progs.append(dict(obstacles=[(t[0], 0, OFFN, .2, None), (t[1], 1, (.8, .7, .4), .9, (1,)), (t[2], 2, (.6, .2, .5), 2.0, (0,))], nbody=2, npts=2, twogrids=True, steps=1, kernel="linear", place=i // 4 % 2))
    for p in progs[cfg["part"]::cfg["of"]]:
        run(rec, dim, cfg["scheme"], **p)
    rec.sample(program=progs[-1])
