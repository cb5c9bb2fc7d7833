"""C05 deformation / volume / density kinematics."""
PROPERTY = "C05"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state BFS over histories of real solver steps, kinematic invariants on every transition"
RULE = ("initial states: placements x velocity assignments x initial deformations (incl. sheared, compressed) of bodies of 1 and 3 points; transitions: "
        "steps with two time steps; every transition compares deformation, stored deformation, volume, density with the step's own velocity gradient")
ASSUMPTIONS = ["JAX CPU float64"]
NOTE = "the step's velocity gradient itself is decided by C10/C04; here all kinematic fields must tell the same motion as it"
BOUNDS = {"quick": dict(points="1 and 3", depth=3), "thorough": dict(points="1 and 3", depth=6)}


def tasks(tier):
    out = []
    for scheme in ("usl", "usl_aflip"):
        for dim in (2, 3):
            for law in ("elastic", "elastic_reset", "newton", "mui"):
                for kernel in (("linear", "quadratic", "cubic") if tier == "thorough" else ("linear", "cubic") if law == "elastic" else ("quadratic",)):
                    out.append(("explore", dict(scheme=scheme, kernel=kernel, dim=dim, law=law, tier=tier)))
    for dim in (2, 3):
        for law in ("elastic_reset", "newton", "mui", "dp", "mcc"):
            out.append(("reset", dict(dim=dim, law=law, tier=tier)))
    return out


def laws(name, dim):
    from mc.env import hdx
    rho = 1 / .25 ** dim
    return dict(elastic=("elastic", dict(E=20.0, nu=.3, requires_F_reset=False)), elastic_reset=("elastic", dict(E=20.0, nu=.3, requires_F_reset=True)),
                newton=("newton", dict(K=20.0, viscosity=1.0, beta=7.0, rho0=rho)),
                mui=("mui", dict(mu_s=.3, mu_d=.6, I_0=.3, d_p=.01, alpha=1e-3, K=20.0, rho_p=rho / .6, rho0=rho)))[name]


def explore(cfg, rec):
    from mc.env import np, hdx
    from mc import scenes as S
    from mc.bfs import bfs
    dim, kernel, scheme = cfg["dim"], cfg["kernel"], cfg["scheme"]
    th = cfg["tier"] == "thorough"
    h = .25
    resets = cfg["law"] != "elastic"
    kw = dict(usl=dict(alpha=.9), usl_aflip=dict(alpha=.9, use_mls_update=True))[scheme]
    ms = S.Multi(dim=dim, scheme=scheme, sizes=[1, 3], kernel=kernel, h=h, law=laws(cfg["law"], dim), solver_kw=kw, probe=False, store_F=True)
    A = [.05, .3, .5, .75] if dim == 2 else [.3, .5]
    P = 1 + S.lattice(*[A] * dim)
    V = [np.array(v, dtype=float)[:dim] for v in ([1, 0, 0], [-1, 2, 1], [0, -1.5, 2])]
    Fs = [np.eye(3), np.diag([1.2, .9, 1.1]), np.array([[1, .4, .2], [-.1, 1, .3], [.2, 0, .8]])]
    if dim == 2:
        Fs = [f * np.array([[1, 1, 0], [1, 1, 0], [0, 0, 0]]) + np.diag([0, 0, 1.0]) for f in Fs]
    ip, iq, iv, jf = S.product_idx(len(P), len(P), 3, len(Fs))
    n = len(ip)
    V = np.array(V); F = np.array(Fs)
    p0, p1 = P[ip] * h, P[iq] * h
    d = ms.init(n, pos0=p0[:, None], pos1=np.stack([p1, p1 + .4 * h, p1[:, ::-1] * .5 + h], 1), vel0=V[iv][:, None],
                vel1=np.stack([V[(iv + 1) % 3], -V[iv], V[(iv + 2) % 3]], 1))
    for i in (0, 1):
        N = (1, 3)[i]
        d["F%d" % i] = np.stack([F[(jf + q) % len(F)] for q in range(N)], 1)
        d["Fs%d" % i] = np.stack([F[(jf + q + 1) % len(F)] for q in range(N)], 1)
        d["vol0%d" % i][:] = h ** dim
        d["vol%d" % i] = d["vol0%d" % i] * np.linalg.det(d["F%d" % i])
        if ms.aff:
            d["Bp%d" % i] = np.broadcast_to(np.array([[0, 2, 0], [1, -1, 0], [0, 0, 0.]]), d["F%d" % i].shape).copy()

    def step(dt):
        f = ms.stepper(dt, chunk=3000 if dim == 3 else 10000)
        return f

    def check(pre, ev, post, case):
        dt = float(ev.split("=")[1])
        for i in (0, 1):
            L = post["L%d" % i]
            inc = np.eye(3) - L * dt
            Fe = inc @ pre["F%d" % i]
            if dim == 2:
                rec.close("plane-L", "2D: out-of-plane velocity gradient", np.concatenate([L[..., 2, :], L[..., :, 2]], -1), 0, 1e-12, 0, case)
                rec.close("plane-F", "2D: out-of-plane stretch is not one", post["F%d" % i][..., 2, 2], 1.0, 1e-12, 0, case)
            Je = np.linalg.det(Fe)
            J = np.linalg.det(post["F%d" % i])
            rec.close("det", "the deformation's determinant is not the advanced one", J, Je, 1e-10, 1e-9, case)
            if not resets:
                rec.close("F", "F is not (I - L dt) F_old", post["F%d" % i], Fe, 1e-10, 1e-9, case)
            rec.close("F-stored", "the stored deformation is not (I - L dt) F_stored_old", post["Fs%d" % i], inc @ pre["Fs%d" % i], 1e-10, 1e-9, case)
            rec.close("volume", "volume is not initial volume times determinant", post["vol%d" % i], pre["vol0%d" % i] * Je, 1e-10, 1e-9, case)
        rec.count(traces=len(pre["vel0"]))
        rec.sample(F_before=pre["F0"][-1], L=post["L0"][-1], F_after=post["F0"][-1], event=ev)
    keys = [k for k in d if k[:3] in ("pos", "vel", "vol") or k[0] == "F"]
    bfs(rec, d, [("dt=0.02", step(.02)), ("dt=0.004", step(.004))], 5 if th else 3, keys, check, max_states=20000 if th else 5000)
    # density property of real states
    st = ms.put({k: v[n // 2] for k, v in d.items()})
    for k in range(3):
        st = ms.solver(st)
        for mp in st.world.material_points:
            rec.close("density", "density times volume is not the mass", np.asarray(mp.density_stack) * np.asarray(mp.volume_stack), np.asarray(mp.mass_stack), 1e-12, 1e-12)


def reset(cfg, rec):
    """Each law with shear removal, driven directly: determinant kept, isotropic result, for 1 and several points."""
    from mc.env import np, jnp, hdx, eqx, jax
    from mc import scenes as S, lawlib
    dim = cfg["dim"]
    th = cfg["tier"] == "thorough"
    ent = [-1, 0, 1] if not th else [-2, -1, 0, 1, 2]
    T = S.lattice(*[ent] * (4 if dim == 2 else 6))
    F = np.tile(np.eye(3), (len(T), 1, 1))
    if dim == 2:
        F[:, 0, 0] += .2 * T[:, 0]; F[:, 0, 1] += .3 * T[:, 1]; F[:, 1, 0] += .3 * T[:, 2]; F[:, 1, 1] += .2 * T[:, 3]
    else:
        F[:, 0, 0] += .2 * T[:, 0]; F[:, 0, 1] += .3 * T[:, 1]; F[:, 2, 0] += .3 * T[:, 2]; F[:, 1, 1] += .2 * T[:, 3]; F[:, 1, 2] += .3 * T[:, 4]; F[:, 2, 2] += .1 * T[:, 5]
    F = F[np.linalg.det(F) > .2]
    h = .25
    for scheme in ("usl", "usl_aflip"):
        for npts in (1, 3):
            law, ls, mp = lawlib.ready(cfg["law"], dim, npts, V0=.01)
            ms = S.Multi(dim=dim, scheme=scheme, sizes=[npts], kernel="quadratic", h=h, law=("obj", law, ls), probe=False, store_F=True)
            n = len(F)
            d = ms.init(n)
            d["F0"] = np.stack([np.roll(F, q, 0) for q in range(npts)], 1)
            d["Fs0"] = d["F0"].copy()
            d["vol00"][:] = np.asarray(mp.volume0_stack); d["mass0"][:] = np.asarray(mp.mass_stack)
            d["vol0"] = d["vol00"] * np.linalg.det(d["F0"])
            d["stress0"][:] = 0.0
            o = ms.stepper(1e-3)(d)
            case = lambda i: dict(F=d["F0"][i].tolist())
            J = np.linalg.det(d["F0"])
            Fo = o["F0"]
            rec.close("reset-det", "shear removal changes the determinant", np.linalg.det(Fo), J, 1e-9, 1e-9, case)
            rec.close("reset-volume", "a step without motion changed the volume", o["vol0"], d["vol00"] * J, 1e-10, 1e-9, case)
            rec.close("reset-stored", "shear removal changed the stored deformation", o["Fs0"], d["Fs0"], 1e-9, 1e-9, case)
            s = Fo[..., 0, 0]
            want = np.zeros_like(Fo); want[..., 0, 0] = s; want[..., 1, 1] = s; want[..., 2, 2] = 1.0 if dim == 2 else s
            rec.close("reset-shear", "shear is not removed", Fo, want, 1e-9, 1e-9, case)
            rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    rec.sample(F=F[-1], F_after=Fo[-1])
