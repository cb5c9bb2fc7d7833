"""C07 speed limit of the affine scheme."""
PROPERTY = "C07"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real affine steps with an unlimited twin as the oracle"
RULE = ("speeds below/at/above the limit x a sphere of directions x placements x limits x time steps; transitions: real steps; every transition is "
        "compared with the same step of a solver without limit")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "points stay inside the grid; the unlimited twin is the same code with a limit of 1e9"
BOUNDS = {"quick": dict(depth=2), "thorough": dict(depth=4)}


def tasks(tier):
    out = []
    for kernel in ("linear", "quadratic", "cubic"):
        for dim in (2, 3):
            for lim in (.5, .1, 2.0):
                if tier == "thorough" or dim == 2 or lim == .5:
                    out.append(("limit", dict(kernel=kernel, dim=dim, limit=lim, tier=tier)))
    return out


def limit(cfg, rec):
    from mc.env import np, jnp
    from mc import scenes as S
    from mc.bfs import bfs
    dim, kernel, lim = cfg["dim"], cfg["kernel"], cfg["limit"]
    th = cfg["tier"] == "thorough"
    h = .25
    mk = lambda l: S.Multi(dim=dim, scheme="usl_aflip", sizes=[2], kernel=kernel, h=h, cells=8, solver_kw=dict(alpha=.9, cfl_limit=l), probe=False,
                           setup=lambda b: b.add_gravity(gravity=jnp.array([3.0, -40.0, 10.0][:dim])))
    a, u = mk(lim), mk(1e9)
    dts = (.01, .002)
    dirs = S.lattice(*[[-1, 0, 1]] * dim)
    dirs = dirs[(dirs ** 2).sum(1) > 0]; dirs = dirs / np.linalg.norm(dirs, axis=1, keepdims=True)
    top = lim * h / np.array(dts)
    speeds = [0.0, 1e-9, .9 * top[0], top[0], 1.001 * top[0], 1.2 * top[1], 20 * top[1]]
    P = 4 + S.lattice(*[[0, .3, .75] if dim == 2 else [.3, .5]] * dim)
    i1, j, k, k2 = S.product_idx(len(P), len(dirs), len(speeds), 3)
    sp = np.array(speeds)
    p = P[i1] * h
    v = dirs[j] * sp[k][:, None]
    v2 = dirs[(j + 3) % len(dirs)] * sp[(k + k2) % len(sp)][:, None]
    n = len(i1)
    d = a.init(n, pos0=np.stack([p, np.clip(p + .4 * h, 0, 8 * h)], 1), vel0=np.stack([v, v2], 1))

    cache = {}

    def mkev(dt):
        fa, fu = a.stepper(dt), u.stepper(dt)

        def ev(s):
            o = fa(s)
            o["free0"] = fu(s)["vel0"]
            # keep the points in the middle so that histories stay comparable
            o["pos0"] = np.clip(o["pos0"], 3 * h, 5 * h)
            return o
        return ev
    d["free0"] = d["vel0"].copy()

    def check(pre, ev, post, case):
        dt = float(ev.split("=")[1])
        top = lim * h / dt
        got, free = np.linalg.norm(post["vel0"], axis=-1), np.linalg.norm(post["free0"], axis=-1)
        rec.true("limit", "a point is faster than the limit", got <= top * (1 + 1e-9) + 1e-9, got=got, case=case)
        below = free <= top * (1 - 1e-9)
        rec.close("below", "a point below the limit was changed", np.where(below[..., None], post["vel0"], 0), np.where(below[..., None], post["free0"], 0), 1e-9, 1e-9, case)
        unit = post["free0"] / np.where(free > 0, free, 1)[..., None]
        rec.close("direction", "a limited point changed its direction or lost more speed than needed", np.where(below[..., None], 0, post["vel0"]),
                  np.where(below[..., None], 0, unit * top), 1e-7 * max(1, top), 1e-7, case)
        rec.count(traces=len(got))
        rec.sample(pre=pre["vel0"][-1], free=post["free0"][-1], limited=post["vel0"][-1], top=top)
    bfs(rec, d, [("dt=%g" % t, mkev(t)) for t in dts], 4 if th else 2, ["pos0", "vel0", "Bp0"], check, max_states=40000 if th else 8000)
