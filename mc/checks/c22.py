"""C22 unions, containers and sampled obstacles."""
PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of unions (all pairs, triples, nestings of the shape catalogue), wall-friction assignments and sampled tables over dense query lattices, compared with the parts and with independent interpolation"
RULE = "every union of the catalogue x pose x lattice point; every wall x friction assignment; every table (resolution, extent, pattern) x scale x thickness x lattice point; non-trivial = distinct (object, point)"
ASSUMPTIONS = ["JAX CPU float64", "single parts are judged by C20", "no query exactly equidistant from two parts where friction is compared"]
NOTE = "parts are evaluated separately; tables are interpolated by an independent multilinear formula"
BOUNDS = {"quick": dict(parts=3, tables=10), "thorough": dict(parts=3, tables=40)}
FAST_COMPILE = True


def tasks(tier):
    out = []
    for dim in (2, 3):
        for k in range(4):
            out.append(("unions", dict(dim=dim, part=k, of=4, tier=tier)))
        out.append(("walls", dict(dim=dim, tier=tier)))
        out.append(("clouds", dict(dim=dim, tier=tier)))
    for k in range(4):
        out.append(("tables", dict(part=k, of=4, tier=tier)))
    return out


def unions(cfg, rec):
    import itertools
    from mc.env import np, jnp, hdx
    from mc import sdflib as D, scenes as S
    dim = cfg["dim"]
    cat = D.catalogue(dim)
    parts = [(n, v) for n in cat for v in (0, 1)]
    lists = [[p] for p in parts[::2]] + [list(q) for q in itertools.permutations(parts, 2)]
    if cfg["tier"] == "quick":
        lists = lists[:8] + lists[8::3]
    lists += [list(q) for i, q in enumerate(itertools.combinations(parts, 3)) if i % (9 if cfg["tier"] == "quick" else 1) == 0]
    n = 21 if dim == 2 else 9
    loc = S.lattice(*[np.linspace(-1.5, 1.5, n) + q for q in (.013, .0271, -.0194)[:dim]])
    com0, rot0 = D.poses(dim, 1)[0]
    alone = {}
    for p in parts:
        lg = cat[p[0]][p[1]][0]()
        alone[p] = D.evaluate(lg, D.state(lg, dim, com0, rot0), loc)
    for li, names in list(enumerate(lists))[cfg["part"]::cfg["of"]]:
        fr = [.1, .7, 1.3][:len(names)]
        shapes = [cat[a][b][0]() for a, b in names]
        lg = D.CompositeSDF(shapes, fr)
        if li % 5 == 4:      # a union of unions
            lg = D.CompositeSDF([D.CompositeSDF(shapes[:1], fr[:1]), *shapes[1:]], fr)
        com, rot = D.poses(dim)[li % 4]
        A = D.pose_mat(dim, rot)
        d, nr, v, f = D.evaluate(lg, D.state(lg, dim, com, rot), loc @ A.T + np.array(com))
        case = lambda q: dict(parts=names, centre=list(com), rotation=np.asarray(rot).tolist(), local_point=loc[q].tolist())
        DD = np.stack([alone[p][0] for p in names])
        k = DD.argmin(0)
        rec.close("min", "a union's distance is not the smallest of its parts'", d, DD.min(0), 1e-9, case=case)
        srt = np.sort(DD, 0)
        clear = (srt[1] - srt[0] > 1e-7) if len(names) > 1 else np.ones(len(loc), bool)
        rec.close("friction", "a union's friction is not that of its nearest part", f, np.array(fr)[k], 1e-12, case=case, mask=clear)
        nn = np.stack([alone[p][1] for p in names])[k, np.arange(len(loc))]
        ok = clear & (np.abs(np.linalg.norm(nn, axis=1) - 1) < 1e-6)
        rec.close("normal", "a union's normal is not that of its nearest part", nr, nn @ A.T, 1e-6, case=case, mask=ok)
        rec.true("finite", "a union's normal is not a number", np.isfinite(nr), got=nr, case=case)
        rec.count(states=len(loc), transitions=len(loc), traces=len(loc), evals=len(loc), distinct=len(loc), unions=1)
    rec.sample(**case(5))


def clouds(cfg, rec):
    """A cloud of points is the union of balls of the points' first volumes; smoothing only rounds the gaps, by a bounded amount."""
    import itertools
    from mc.env import np, jnp, eqx, hdx
    from mc import scenes as S
    dim, quick = cfg["dim"], cfg["tier"] == "quick"
    n = 25 if dim == 2 else 11
    q = S.lattice(*[np.linspace(-1.5, 1.5, n) + o for o in (.013, .0271, -.0194)[:dim]])
    P = np.array([[0, 0, 0], [.5, 0, 0], [.3, -.4, .2], [-.6, .7, -.5], [1.2, .1, .9]])[:, :dim]
    V = [1.0, .01, .2, 1e-4]
    from hydraxmpm import MaterialPointCloudSDF
    for size in (1, 2, 3, 5):
        for pts in itertools.combinations(range(len(P)), size):
            for vs in list(itertools.product(V, repeat=min(size, 2)))[(sum(pts) % 3 if quick and size > 1 else 0)::(3 if quick and size > 1 else 1)]:
                v0 = np.array([vs[i % len(vs)] * (1 + .5 * (i // len(vs))) for i in range(size)])
                r = np.sqrt(v0 / np.pi) if dim == 2 else np.cbrt(3 * v0 / (4 * np.pi))
                mp = hdx.MaterialPointState.create(position_stack=jnp.array(P[list(pts)]), mass_stack=jnp.ones(size), volume_stack=jnp.array(v0))
                mp = eqx.tree_at(lambda s: s.volume_stack, mp, mp.volume_stack * 1.7)      # the points have since expanded
                D = q[:, None] - P[list(pts)]
                R = np.linalg.norm(D, axis=2)
                dist = R - r
                k = dist.argmin(1); best = dist.min(1)
                srt = np.sort(dist, 1)
                clear = (R.min(1) > 1e-3) & ((srt[:, 1] - srt[:, 0] > 1e-7) if size > 1 else True)
                want = D[np.arange(len(q)), k] / np.maximum(R[np.arange(len(q)), k], 1e-9)[:, None]
                for sk in (0.0, 2.0, 60.0):
                    c = MaterialPointCloudSDF(smooth_k=sk)
                    d, nr = np.asarray(c.get_signed_distance_stack(jnp.asarray(q), mp)), np.asarray(c.get_normal_stack(jnp.asarray(q), mp))
                    case = lambda i: dict(points=P[list(pts)].tolist(), volumes=v0.tolist(), smooth_k=sk, query=q[i].tolist())
                    if sk == 0:
                        rec.close("cloud", "a cloud's distance is not that of its nearest ball", d, best, 1e-7, case=case)
                        rec.close("cloud_normal", "a cloud's normal is not that of its nearest ball", nr, want, 1e-6, case=case, mask=clear)
                    else:
                        rec.true("cloud_smooth", "a smoothed cloud leaves its band [nearest - ln(n)/k, nearest]", (d <= best + 1e-7) & (d >= best - np.log(size) / sk - 1e-7), got=np.stack([d, best], 1), case=case)
                        w = np.exp(-sk * (dist - best[:, None])); w /= w.sum(1, keepdims=True)
                        g = (w[:, :, None] * D / np.maximum(R, 1e-9)[:, :, None]).sum(1)
                        L = np.linalg.norm(g, axis=1)
                        rec.close("cloud_smooth_normal", "a smoothed cloud's normal is not the unit mean of the balls' normals by closeness", nr, g / np.maximum(L, 1e-9)[:, None], 1e-6, case=case, mask=(R.min(1) > 1e-3) & (L > 1e-3))
                    rec.count(states=len(q), transitions=len(q), traces=len(q), evals=len(q), distinct=len(q), clouds=1)
    rec.sample(**case(3))


def walls(cfg, rec):
    """A container's friction is that of its nearest wall; a single number serves all walls."""
    import itertools
    from mc.env import np, jnp, hdx
    from mc import sdflib as D, scenes as S
    dim = cfg["dim"]
    n = 33 if dim == 2 else 13
    for lo, hi in (((0., 0., 0.), (1., 1., 1.)), ((-1.0, .5, -2.), (.4, .7, 3.))):
        lo, hi = np.array(lo[:dim]), np.array(hi[:dim])
        P = (S.lattice(*[np.linspace(-.3, 1.3, n) + q for q in (.0013, .00271, -.00194)[:dim]])) * (hi - lo) + lo
        w = np.concatenate([P - lo, hi - P], 1)
        srt = np.sort(w, 1); clear = srt[:, 1] - srt[:, 0] > 1e-9
        base = [.1, .2, .3, .4, .5, .6][:2 * dim]
        perms = list(itertools.permutations(base)) if dim == 2 else list(itertools.permutations(base))[::(37 if cfg["tier"] == "quick" else 3)]
        for fr in [list(q) for q in perms] + [.25, 1, 0.0] + [[(i + 1) % 3 for i in range(2 * dim)]]:
            lg = hdx.DomainSDF(origin=tuple(lo.tolist()), end=tuple(hi.tolist()), frictions=fr)
            d, nr, v, f = D.evaluate(lg, D.state(lg, dim, *D.poses(dim)[1]), P)
            case = lambda q: dict(frictions=fr, point=P[q].tolist())
            e = np.array(fr)[w.argmin(1)] if isinstance(fr, list) else np.full(len(P), float(fr))
            rec.close("wall", "a container's friction is not that of its nearest wall", f, e, 1e-12, case=case, mask=clear)
            rec.count(states=len(P), transitions=len(P), traces=len(P), evals=len(P), distinct=len(P))
        for bad in ([.1], base + [.9]):
            try:
                hdx.DomainSDF(origin=tuple(lo.tolist()), end=tuple(hi.tolist()), frictions=bad)
                rec.fail("reject", "a container takes the wrong number of wall frictions", frictions=bad)
            except ValueError:
                pass
    rec.sample(**case(5))


def tables(cfg, rec):
    import itertools, os, tempfile, shutil
    from mc.env import np, jnp, hdx
    from mc import sdflib as D, scenes as S
    th = cfg["tier"] == "thorough"
    res = [(2, 2, 2), (3, 4, 5), (5, 2, 3), (6, 6, 6), (2, 7, 3)]
    ext = [((0., 0., 0.), (1., 1., 1.)), ((-.7, -.2, .1), (.5, .8, .4))]
    par = [(1.0, 0.0), (2.5, .1), (.4, -.05), (1.0, 1e-7)]
    combos = list(itertools.product(range(len(res)), range(len(ext)), range(3) if th else range(1)))
    if th:
        res = res + [(9, 3, 4)]
    tmp = tempfile.mkdtemp(prefix="mc_c22_")
    try:
        for q, (ir, ie, ip) in list(enumerate(combos))[cfg["part"]::cfg["of"]]:
            r = res[ir]; lo, hi = np.array(ext[ie][0]), np.array(ext[ie][1])
            idx = np.stack(np.meshgrid(*[np.arange(k) for k in r], indexing="ij"), -1)
            tab = [lambda i: np.cos(1.7 * i[..., 0] + .3) * np.sin(2.3 * i[..., 1] + .5) + .7 * np.cos(3.1 * i[..., 2]), lambda i: i[..., 0] - 2.0 * i[..., 1] + .5 * i[..., 2] - .7,
                   lambda i: ((i[..., 0] * 7 + i[..., 1] * 5 + i[..., 2] * 3) % 4) - 1.5][(ip + q) % 3](idx).astype(float)
            path = os.path.join(tmp, "t%d.npz" % q)
            np.savez(path, sdf=tab, min=lo, max=hi)
            for sc, thick in par:
                lg = hdx.GridSDF(path, thickness=thick, scale=sc)
                # queries in table units: samples, midpoints, generic points, outside
                ax = [np.unique(np.concatenate([np.arange(k), np.arange(k - 1) + .5, np.arange(k - 1) + .23])) for k in r]
                Q = S.lattice(*ax)
                inside = len(Q)
                Q = np.concatenate([Q, S.lattice(*[[-.8, .4 * (k - 1), k - .4] for k in r])])
                pts = (lo + Q / (np.array(r) - 1) * (hi - lo)) * sc
                C = np.clip(Q, 0, np.array(r) - 1)
                i0 = np.minimum(C.astype(int), np.array(r) - 2); t = C - i0
                e = np.zeros(len(Q))
                for c in itertools.product((0, 1), repeat=3):
                    wgt = np.prod(np.where(np.array(c) == 1, t, 1 - t), 1)
                    e += wgt * tab[tuple((i0 + np.array(c)).T)]
                e = e * sc - thick
                com, rot = D.poses(3)[(q + ir) % 4]
                A = D.pose_mat(3, rot)
                d, nr, v, f = D.evaluate(lg, D.state(lg, 3, com, rot), pts @ A.T + np.array(com))
                case = lambda k: dict(resolution=list(r), extent=ext[ie], scale=sc, thickness=thick, table_point=Q[k].tolist())
                rec.close("lookup", "a sampled obstacle does not return its interpolated samples", d, e, 1e-9 * max(1, sc), 1e-9, case=case)
                rec.true("finite", "a sampled obstacle's normal is not a number", np.isfinite(nr), got=nr, case=case)
                # gradient inside cells
                gen = np.zeros(len(Q), bool); gen[:inside] = (np.abs(Q[:inside] - np.round(Q[:inside])) > .1).all(1)
                g = np.zeros((len(Q), 3))
                for a in range(3):
                    for c in itertools.product((0, 1), repeat=3):
                        o = [b for b in range(3) if b != a]
                        wgt = np.prod(np.where(np.array(c)[o] == 1, t[:, o], 1 - t[:, o]), 1) * (1 if c[a] else -1)
                        g[:, a] += wgt * tab[tuple((i0 + np.array(c)).T)]
                g *= (np.array(r) - 1) / (hi - lo)
                gn = np.linalg.norm(g, axis=1, keepdims=True)
                rec.close("normal", "a sampled obstacle's normal is not the direction of increasing distance", nr, g / np.where(gn > 0, gn, 1) @ A.T, 1e-6, case=case, mask=gen & (gn[:, 0] > 1e-3))
                bl, bh = [np.asarray(z) for z in lg.get_local_bounds()]
                rec.close("bounds", "a sampled obstacle's bounds do not follow scale and thickness", np.stack([bl, bh])[None], np.stack([lo * sc - thick, hi * sc + thick])[None], 1e-12, case=case)
                rec.count(states=len(Q), transitions=len(Q), traces=len(Q), evals=len(Q), distinct=len(Q), tables=1)
        rec.sample(**case(3))
    finally:
        shutil.rmtree(tmp)
