"""C10 conformance of whole steps to an independent reference model, along explored histories."""
PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS of real steps; every transition replayed on an independent reference model and compared field by field"
RULE = ("initial states: placements x velocities x stresses x affine matrices of 3 points in two bodies on a shared grid; transitions: real steps with "
        "two time steps; each transition is recomputed by the numpy reference step from the same pre-state")
ASSUMPTIONS = ["JAX CPU float64 (and a float32 pass)", "reference model mc/refmpm.py written from the documented scheme"]
NOTE = "model and implementation are bound on every explored transition; bounded alphabet and depth"
BOUNDS = {"quick": dict(points=3, depth=2, options=9), "thorough": dict(points=3, depth=4, options=9)}

OPTS = {
    "usl": [dict(alpha=.99), dict(alpha=0.0), dict(alpha=1.0), dict(alpha=.35)],
    "usl_aflip": [dict(), dict(alpha=.5, use_dynamic_alpha=False), dict(alpha=.9, use_mls_update=False), dict(alpha=1.0, beta_min=.3, beta_max=.8),
                  dict(alpha=.7, beta_min=1.0, beta_max=0.0, cfl_limit=.02, alpha_support_min=.9, alpha_support_max=2.5, small_mass_cutoff=1e-4)],
}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for kernel in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                for o in range(len(OPTS[scheme])):
                    if dim == 3 and tier == "quick" and o % 3 != ("linear", "quadratic", "cubic").index(kernel):
                        continue
                    out.append(("explore", dict(scheme=scheme, kernel=kernel, dim=dim, opt=o, tier=tier, law=("elastic", "newton")[(o + dim) % 2])))
            out.append(("single", dict(scheme=scheme, kernel=kernel, tier=tier)))
    return out


def explore(cfg, rec, f32=False):
    from mc.env import np, jnp
    from mc import scenes as S, refmpm as R
    from mc.bfs import bfs
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    opt = OPTS[scheme][cfg["opt"]]
    h = .25
    org = (-.5, .25, 1.0)[:dim]
    g = np.array([.6, -2.0, 1.1])[:dim]
    rho = 100.0
    lw = dict(elastic=("elastic", dict(E=30.0, nu=.25, requires_F_reset=False)), newton=("newton", dict(K=20.0, viscosity=.5, beta=3.0, rho0=rho)))[cfg["law"]]
    ref_law = (lambda b, dt: R.law_elastic(b, dt, 30.0, .25)) if cfg["law"] == "elastic" else (lambda b, dt: R.law_newton(b, dt, 20.0, .5, 3.0, rho))
    damp = cfg["opt"] in (1, 3)

    def setup(b):
        b.add_gravity(gravity=jnp.array(g))
        if damp:
            b.add_damping(alpha=.4)
    ms = S.Multi(dim=dim, scheme=scheme, sizes=[1, 2], kernel=kernel, h=h, origin=org, law=lw, setup=setup, probe=False, solver_kw=opt)
    A = [.03, .2, .5, .8] if dim == 2 else [.2, .5]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[[.1, .97, 1.6] if dim == 2 else [.1, 1.6]] * dim)
    V = np.array([[0, 0, 0], [1, -2, .5], [-.4, .3, 2]])[:, :dim]
    St = np.array([np.zeros((3, 3)), [[3, 1, .5], [1, -2, .2], [.5, .2, 4]], [[-1, .3, 0], [.3, 5, 1], [0, 1, 2.]]])
    Bs = np.array([np.zeros((3, 3)), [[1, 2, -1], [.5, -1, .3], [.2, .8, 1.5]]])
    Fs = np.array([np.eye(3), [[1.1, .2, .1], [-.1, .9, .05], [.02, .1, 1.05]]])
    if dim == 2:
        m = np.outer([1, 1, 0], [1, 1, 0]).astype(float); z = np.diag([0, 0, 1.0])
        Bs = Bs * m; Fs = Fs * m + z; St = St * (m + z)
    i1, i2, iv, js, jb = S.product_idx(len(P1), len(P2), 3, 3, 2)
    n = len(i1)
    o = np.array(org)
    p1, p2 = o + P1[i1] * h, o + P2[i2] * h
    d = ms.init(n, pos0=p1[:, None], pos1=np.stack([p2, .6 * p1 + .4 * p2], 1), vel0=V[iv][:, None], vel1=np.stack([V[(iv + 1) % 3], V[(iv + 2) % 3]], 1))
    d["stress0"] = St[js][:, None].copy(); d["stress1"] = np.stack([St[(js + 1) % 3], St[(js + 2) % 3]], 1)
    d["F0"] = Fs[jb][:, None].copy(); d["F1"] = np.stack([Fs[1 - jb], Fs[jb]], 1)
    if ms.aff:
        d["Bp0"] = Bs[jb][:, None].copy(); d["Bp1"] = np.stack([Bs[1 - jb], -Bs[jb]], 1)
    mm = [np.array([1.0]), np.array([2., .5])]
    for i in (0, 1):
        d["mass%d" % i][:] = mm[i]; d["vol0%d" % i][:] = mm[i] / rho
        d["vol%d" % i] = d["vol0%d" % i] * np.linalg.det(d["F%d" % i])
    rg = ms.refgrid()
    forces = [("gravity", g, [0])] + ([("damping", .4, [0])] if damp else [])
    at, rt = (1e-8, 1e-8) if not f32 else (2e-3, 2e-3)

    def check(pre, ev, post, case):
        dt = float(ev.split("=")[1])
        tot = len(pre["pos0"])
        for a in range(0, tot, 3000):
            sl = slice(a, a + 3000)
            ref, gs = R.step([rg], [(0, 0, kernel), (1, 0, kernel)], ms.refbodies({k: v[sl] for k, v in pre.items()}), dt, scheme, opt, gravity=forces, law=ref_law)
            # a node whose momentum vanishes to round-off has no sign for the damping rule to act on, and a node
            # whose mass is at round-off or at the small-mass cutoff has no velocity both sides could agree on
            m, mom, gf = gs[0].m, np.abs(gs[0].p), np.abs(gs[0].f)
            cut = 1e-12 if scheme == "usl" else opt.get("small_mass_cutoff", 1e-7)
            amb = (m > 0) & (m < 3e-4) if f32 else ((m > 0) & (m < 1e-14)) | (np.abs(m - cut) < .3 * cut)
            bad = amb.any(1)
            if damp:
                bad |= ((m[..., None] > 0) & (mom < (1e-4 if f32 else 1e-11)) & (gf > (1e-5 if f32 else 1e-11))).any((1, 2))
            rec.count(skipped_roundoff_cases=int(bad.sum()))
            for i in (0, 1):
                if cfg["law"] == "newton":
                    ref[i]["F"] = R.reset_shear(ref[i]["F"], dim)
                for k in ("vel", "pos", "L", "F", "vol", "stress") + (("Bp",) if ms.aff else ()):
                    sc = max(1.0, float(np.abs(ref[i][k]).max()))
                    rec.close("step-" + k, "a step differs from the documented step in " + k, post[k + str(i)][sl], ref[i][k], at * sc, rt, lambda q: case(a + q), mask=~bad)
        rec.count(traces=tot)
        rec.sample(pos=pre["pos1"][-1], vel=pre["vel1"][-1], event=ev, got=post["vel1"][-1], reference=ref[1]["vel"][-1])
    keys = [k for k in d if k[:3] in ("pos", "vel", "str") or k[:2] == "Bp"]
    bfs(rec, d, [("dt=0.004", ms.stepper(.004, chunk=3000)), ("dt=0.0015", ms.stepper(.0015, chunk=3000))], 4 if th else 2, keys, check,
        max_states=30000 if th else (5000 if dim == 2 else 2500))


def single(cfg, rec):
    """The same transitions in the default single precision, and stray-free small scenes of one point."""
    import jax
    with jax.enable_x64(False) if hasattr(jax, "enable_x64") else jax.experimental.disable_x64():
        explore(dict(cfg, dim=2, opt=1, law="elastic"), rec, f32=True)
