"""C20 signed distances."""
PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query points over a dense lattice (surfaces, edges, axes, centres, far field) x shape parameters x poses, compared with independent closest-point geometry"
RULE = "every shape x every parameter set x every pose x every lattice point; then the step along the normal by the distance; non-trivial = distinct (shape, parameters, pose, point)"
ASSUMPTIONS = ["JAX CPU float64", "the package's regularised norm adds at most 2e-6 to a distance", "normals are compared where the nearest surface point is unique"]
NOTE = "closest points are computed by polygon, profile and clamping geometry that shares nothing with the package's formulas"
BOUNDS = {"quick": dict(lattice_2d="49^2", lattice_3d="17^3", poses=3), "thorough": dict(lattice_2d="161^2", lattice_3d="41^3", poses=7)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for dim in (2, 3):
        names = ["sphere", "plane", "box", "capsule"] + (["ring", "walls", "star"] if dim == 2 else ["cylinder", "torus", "pipe"])
        for n in names:
            out.append(("shape", dict(dim=dim, name=n, tier=tier)))
        out.append(("domain", dict(dim=dim, tier=tier)))
    return out


def grid(dim, tier, size):
    from mc.env import np
    from mc import scenes as S
    n = {2: 49, 3: 17}[dim] if tier == "quick" else {2: 161, 3: 41}[dim]
    a = np.linspace(-1.6, 1.6, n) * size
    extra = np.array([-40.0, -1.0, -.5, 1e-4, .25, .5, 1.0, 7.0]) * size if dim == 2 else np.array([-30.0, -1.0, .5, 1.0]) * size
    return S.lattice(*[np.unique(np.concatenate([a, extra]))] * dim)


def shape(cfg, rec):
    from mc.env import np
    from mc import sdflib as D
    dim, name = cfg["dim"], cfg["name"]
    for k, (make, oracle, size) in enumerate(D.catalogue(dim)[name]):
        lg = make()
        loc = grid(dim, cfg["tier"], size)
        d, near, uniq = oracle(loc)
        for com, rot in D.poses(dim, 3 if cfg["tier"] == "quick" else None):
            com = np.array(com) * size
            A = D.pose_mat(dim, rot)
            st = D.state(lg, dim, com, rot)
            P = loc @ A.T + com
            case = lambda q: dict(shape=name, variant=k, centre=com.tolist(), rotation=np.asarray(rot).tolist(), local_point=loc[q].tolist())
            sd, nr, _, _ = D.evaluate(lg, st, P)
            tol = 2.2e-6 + 1e-11 * np.abs(loc).max() + 1e-12 * np.abs(com).max()
            rec.close("distance", "%s: the signed distance is not the distance to the surface" % name, sd, d, tol, 1e-12, case=case)
            rec.true("sign", "%s: inside and outside are confused" % name, (np.abs(d) < 2e-6) | (np.sign(sd) == np.sign(d)), got=sd, case=case)
            rec.true("finite", "%s: a normal is not a number" % name, np.isfinite(nr), got=nr, case=case)
            far = uniq & (np.abs(d) > 1e-3 * size)
            exp = (loc - near) / np.where(np.abs(d) > 0, d, 1.0)[:, None] @ A.T
            rec.close("normal", "%s: the normal is not the direction away from the nearest surface point" % name, nr, exp, 1e-5 + 2e-6 / (1e-3 * size), case=case, mask=far)
            rec.true("unit", "%s: the normal has no unit length" % name, np.abs(np.linalg.norm(nr, axis=1) - 1) < 1e-6, got=nr, case=case, mask=far)
            # walking the distance along the normal reaches the surface
            back = P - sd[:, None] * nr
            sd2 = D.evaluate(lg, st, back)[0]
            lever = 1e-5 + 2e-6 / (1e-3 * size)
            rec.true("walk", "%s: moving by the distance along the normal misses the surface" % name, np.abs(sd2) <= 5e-6 + 1e-10 * np.abs(loc).max() + np.abs(d) * min(lever, 1e-4), got=sd2, case=case, mask=far)
            rec.count(states=2 * len(P), transitions=len(P), traces=len(P), evals=2 * len(P), distinct=len(P), unique_nearest=far.sum(), inside=(d < 0).sum())
        rec.sample(**case(len(P) // 3))


def domain(cfg, rec):
    from mc.env import np, hdx
    from mc import sdflib as D
    dim = cfg["dim"]
    for lo, hi in (((0., 0., 0.), (1., 1., 1.)), ((-1.0, .5, -2.), (.4, .7, 3.)), ((10., -20., 5.), (11., -10., 7.))):
        lo, hi = lo[:dim], hi[:dim]
        mid, sz = (np.array(lo) + hi) / 2, max(np.array(hi) - lo) / 2
        P = grid(dim, cfg["tier"], sz) + mid
        d, near, uniq = D.o_domain(P, lo, hi)
        for fr in (.5, [.1 * (i + 1) for i in range(2 * dim)]):
            lg = hdx.DomainSDF(origin=lo, end=hi, frictions=fr)
            for com, rot in D.poses(dim, 3):
                st = D.state(lg, dim, com, rot)   # a container ignores its pose
                case = lambda q: dict(lo=lo, hi=hi, point=P[q].tolist(), centre=list(com))
                sd, nr, _, _ = D.evaluate(lg, st, P)
                rec.close("distance", "container: the signed distance is not the distance to the nearest wall", sd, d, 1e-12, 1e-12, case=case)
                ok = uniq & (np.abs(d) > 1e-9)
                rec.close("normal", "container: the normal is not the inward normal of the nearest wall", nr, (P - near) / np.where(d == 0, 1, d)[:, None], 1e-6, case=case, mask=ok)
                rec.true("unit", "container: the normal has no unit length", np.abs(np.linalg.norm(nr, axis=1) - 1) < 1e-9, got=nr, case=case)
                rec.count(states=len(P), transitions=len(P), traces=len(P), evals=len(P), distinct=len(P))
    rec.sample(**case(len(P) // 3))
