"""C04 affine motion and angular momentum."""
PROPERTY = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of affine fields x placements on the real transfers; BFS of repeated steps"
RULE = ("every velocity gradient built from a basis alphabet x every placement lattice x kernels x update formulas; general (non-affine) point states "
        "for the angular-momentum balance; non-trivial = gradient or point state not all zero")
ASSUMPTIONS = ["JAX CPU float64", "grid arrays observed through a user force hook", "small-mass cutoff below the smallest kernel weight of the alphabet"]
NOTE = "oracle: the affine field itself evaluated at the nodes, and moments taken about the origin"
BOUNDS = {"quick": dict(points=3, depth=1), "thorough": dict(points=3, depth=3)}


def tasks(tier):
    out = []
    for kernel in ("linear", "quadratic", "cubic"):
        for dim in (2, 3):
            for mls in (1, 0):
                if kernel != "linear" or mls:
                    out.append(("affine", dict(kernel=kernel, dim=dim, mls=mls, tier=tier)))
                out.append(("angular", dict(kernel=kernel, dim=dim, mls=mls, tier=tier)))
    return out


def gradients(np, dim, th):
    out = [np.zeros((3, 3))]
    for i in range(dim):
        for j in range(dim):
            e = np.zeros((3, 3)); e[i, j] = 1.0
            out += [e, -2 * e]
    W = np.zeros((3, 3)); W[0, 1], W[1, 0] = 1, -1
    out.append(W)
    G = np.array([[1, 2, -1], [.5, -3, 4], [2, 1, 1.]]); m = np.zeros((3, 3)); m[:dim, :dim] = G[:dim, :dim]
    out += [m, m.T, -m]
    if th:
        for i in range(dim):
            for j in range(dim):
                for k in range(dim):
                    for l in range(dim):
                        if (i, j) < (k, l):
                            e = np.zeros((3, 3)); e[i, j] = 1; e[k, l] = -1.5; out.append(e)
    return np.array(out)


def scene(cfg, **kw):
    from mc import scenes as S
    ck = dict(alpha=.8, use_mls_update=bool(cfg["mls"]), small_mass_cutoff=1e-18, cfl_limit=1e9, use_dynamic_alpha=False); ck.update(kw)
    return S.Multi(dim=cfg["dim"], scheme="usl_aflip", sizes=[1, 2], kernel=cfg["kernel"], h=.25, origin=(0.5, -1.0, 2.0)[:cfg["dim"]], solver_kw=ck)


def affine(cfg, rec):
    from mc.env import np
    from mc import scenes as S
    dim, kernel = cfg["dim"], cfg["kernel"]
    th = cfg["tier"] == "thorough"
    ms = scene(cfg); h = .25; o = np.array(ms.origin)
    A = [0, .2, .5, .75] + ([.125, .95] if th else []) if kernel != "linear" else [.2, .5, .75, .95]
    if dim == 3:
        A = A[:3] if not th else A[:4]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[[.3, 1.6]] * dim)
    Gs = gradients(np, dim, th)
    v0s = np.array([[0, 0, 0], [1, -.5, 2.0]])[:, :dim]
    i1, i2, ig, iv = S.product_idx(len(P1), len(P2), len(Gs), len(v0s))
    n = len(i1)
    p1, p2 = o + P1[i1] * h, o + P2[i2] * h
    p3 = o + (3.37 - .7 * P1[i1]) * h
    xc = o + 2 * h
    field = lambda x, G, v: v[:, None] + np.einsum("bij,bnj->bni", G[:, :dim, :dim], x - xc)
    d = ms.init(n, pos0=p1[:, None], pos1=np.stack([p2, p3], 1))
    masses = [np.array([1.0]), np.array([2.0, .5])]
    for i in (0, 1):
        d["mass%d" % i][:] = masses[i]
        d["vel%d" % i] = field(d["pos%d" % i], Gs[ig], v0s[iv])
        d["Bp%d" % i] = np.repeat(-Gs[ig][:, None], d["pos%d" % i].shape[1], 1)
    dt = 1e-3
    st = ms.stepper(dt, chunk=2000 if dim == 3 else 20000)
    G, v = Gs[ig], v0s[iv]
    rg = ms.refgrid(); nodes = rg.nodes()
    nodes = np.asarray(ms.b.grid_domains[0].position_stack)
    depth = 3 if th else 2
    pre = d
    for k in range(depth):
        case = lambda i: dict(step=k, pos0=d["pos0"][i].tolist(), pos1=d["pos1"][i].tolist(), gradient=G[i].tolist(), v0=v[i].tolist())
        post = st(pre)
        nf = np.empty((n,) + nodes.shape)
        for a in range(0, n, 4000):
            nf[a:a + 4000] = field(np.broadcast_to(nodes, (len(G[a:a + 4000]),) + nodes.shape), G[a:a + 4000], v[a:a + 4000])
        m = post["gmass0"]
        rec.close("node-field", "nodes do not carry the affine velocity field", post["gmom0"], m[..., None] * nf, 1e-9, 1e-9, case)
        for i in (0, 1):
            N = post["pos%d" % i].shape[1]
            rec.close("gradient", "the returned velocity gradient is not the field's", post["L%d" % i], np.repeat(-G[:, None], N, 1), 1e-6, 1e-6, case)
            rec.close("affine", "the returned affine matrix is not the field's", post["Bp%d" % i], np.repeat(-G[:, None], N, 1), 1e-6, 1e-6, case)
            rec.close("velocity", "the point velocity left the affine field", post["vel%d" % i], pre["vel%d" % i], 1e-8, 1e-8, case)
            rec.close("position", "the point did not follow the field", post["pos%d" % i], pre["pos%d" % i] + dt * pre["vel%d" % i], 1e-9, 1e-9, case)
        rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
        rec.sample(case=case(n - 1), L=post["L0"][n - 1])
        # free flight: positions moved, velocities are material; re-impose the moved affine field G' = G (I + dt G)^-1
        Gi = G[:, :dim, :dim] @ np.linalg.inv(np.eye(dim) + dt * G[:, :dim, :dim])
        G = np.zeros_like(G); G[:, :dim, :dim] = Gi
        # v(x) = v0' + G'(x-xc) must agree with the carried velocities
        xnew = post["pos0"][:, :1]
        v = (post["vel0"][:, 0] - np.einsum("bij,bj->bi", Gi, xnew[:, 0] - xc))
        pre = {**{k2: post[k2] for k2 in post if k2[:-1] in ms.IN}, **{k2: d[k2] for k2 in d if k2.startswith("vol0")}}
        for i in (0, 1):
            pre["Bp%d" % i] = np.repeat(-G[:, None], pre["pos%d" % i].shape[1], 1)
    rec.count()


def cross2(x, v, np):
    if x.shape[-1] == 2:
        return x[..., 0] * v[..., 1] - x[..., 1] * v[..., 0]
    return np.cross(x, v)


def skew(M, dim, np):
    """sum_{ij} eps_kij M_ij-type moment of rel (outer) vel, M[a,b] = rel_a vel_b"""
    if dim == 2:
        return M[..., 0, 1] - M[..., 1, 0]
    return np.stack([M[..., 1, 2] - M[..., 2, 1], M[..., 2, 0] - M[..., 0, 2], M[..., 0, 1] - M[..., 1, 0]], -1)


def angular(cfg, rec):
    """General point states: the particle-to-grid transfer carries all angular momentum (B-splines: also the affine part),
    the classic formula with pure interpolation hands all of it back."""
    from mc.env import np
    from mc import scenes as S, refmpm as R
    dim, kernel, mls = cfg["dim"], cfg["kernel"], cfg["mls"]
    th = cfg["tier"] == "thorough"
    ms = scene(cfg, alpha=0.0); h = .25; o = np.array(ms.origin)
    A = [.2, .5, .75] if dim == 3 else [0, .2, .5, .75]
    P1, P2 = 1 + S.lattice(*[A] * dim), 1 + S.lattice(*[[.3, 1.6] if dim == 3 else [.3, 1.0, 1.6]] * dim)
    Gs = gradients(np, dim, th)
    V = np.array([[0, 0, 0], [1, -.5, 2.0], [0, 3, -1]])[:, :dim]
    i1, i2, ig, iv = S.product_idx(len(P1), len(P2), len(Gs), len(V))
    n = len(i1)
    p1, p2 = o + P1[i1] * h, o + P2[i2] * h
    d = ms.init(n, pos0=p1[:, None], pos1=np.stack([p2, .5 * (p1 + p2)], 1), vel0=V[iv][:, None],
                vel1=np.stack([V[(iv + 1) % 3], V[(iv + 2) % 3]], 1))
    d["Bp0"] = Gs[ig][:, None].copy(); d["Bp1"] = np.stack([Gs[(ig + 3) % len(Gs)], Gs[(ig * 5 + 1) % len(Gs)]], 1)
    mm = [np.array([1.0]), np.array([2.0, .5])]
    for i in (0, 1):
        d["mass%d" % i][:] = mm[i]
    dt = 1e-3
    o1 = ms.stepper(dt, chunk=2000 if dim == 3 else 20000)(d)
    nodes = np.asarray(ms.b.grid_domains[0].position_stack)
    J = lambda x, p: cross2(x, p, np).sum(1)
    # independent second moments of the kernel about each point (linear kernel: position dependent)
    rg = R.Grid(ms.origin, tuple(q + ms.cells * h for q in ms.origin), h, ms.padding)

    def pts(s, which):
        tot = 0
        for i in (0, 1):
            x = d["pos%d" % i]
            tot = tot + J(x, mm[i][None, :, None] * s["vel%d" % i])
            for q in range(x.shape[1]):
                D = np.zeros((n, 3, 3))
                for node, w, g, rel in R.weights(rg, kernel, x[:, q]):
                    D += w[:, None, None] * np.einsum("bi,bj->bij", rel, rel)
                C = -s["Bp%d" % i][:, q]
                M = np.einsum("bak,bck->bac", D, C) * mm[i][q]   # rel_a * (C rel)_b
                tot = tot + skew(M[:, :dim, :dim], dim, np)
        return tot
    case = lambda i: dict(pos0=d["pos0"][i].tolist(), pos1=d["pos1"][i].tolist(), vel0=d["vel0"][i].tolist(), Bp0=d["Bp0"][i].tolist())
    grid_before = J(np.broadcast_to(nodes, o1["gmom0"].shape), o1["gmom0"])
    rec.close("p2g-angular", "angular momentum is lost on the way to the grid", grid_before, pts(d, 0), 1e-8, 1e-9, case)
    if kernel != "linear" and not mls:
        rec.close("g2p-angular", "angular momentum is lost on the way back to the points", pts(o1, 1), grid_before, 1e-8, 1e-9, case)
    rec.count(states=n, transitions=n, traces=n, evals=n, distinct=n)
    rec.sample(case=case(n - 1), grid_angular=grid_before[n - 1])
