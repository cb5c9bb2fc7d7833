"""Independent float64 numpy model of one MPM step (vectorised over a batch of scenes).

It is written from the documented scheme, shares no code with the package, and is the oracle of the
conformance checks.  Conventions: stress and velocity gradient are compression positive.
"""
import numpy as np
import itertools


def N1(kernel, d):
    """1D kernel value at normalised distance d = (xp - xg)/h."""
    a = np.abs(d)
    if kernel == "linear":
        return np.where(a < 1, 1 - a, 0.0)
    if kernel == "quadratic":
        return np.where(a <= .5, .75 - a * a, np.where(a <= 1.5, .5 * (1.5 - a) ** 2, 0.0))
    if kernel == "cubic":
        return np.where(a < 1, .5 * a ** 3 - a * a + 2 / 3, np.where(a < 2, (2 - a) ** 3 / 6, 0.0))
    raise ValueError(kernel)


def dN1(kernel, d):
    """d/dxi of N1 (multiply by 1/h for the physical derivative)."""
    a, s = np.abs(d), np.sign(d)
    if kernel == "linear":
        return np.where(a < 1, -s, 0.0)
    if kernel == "quadratic":
        return np.where(a <= .5, -2 * d, np.where(a <= 1.5, -s * (1.5 - a), 0.0))
    if kernel == "cubic":
        return np.where(a < 1, s * (1.5 * a * a - 2 * a), np.where(a < 2, -s * .5 * (2 - a) ** 2, 0.0))


def stencil(kernel, base):
    """First node index and number of nodes for base coordinate (in cells)."""
    if kernel == "linear":
        return np.floor(base), 2
    if kernel == "quadratic":
        return np.floor(base - .5), 3
    return np.floor(base) - 1, 4


class Grid:
    def __init__(self, origin, end, h, padding):
        self.h = float(h)
        self.o = np.array([a - padding * h for a in origin], dtype=float)
        self.n = tuple(int(round((b - a) / h)) + 2 * padding + 1 for a, b in zip(origin, end))
        self.dim = len(self.n)
        self.num = int(np.prod(self.n))

    def nodes(self):
        ix = np.stack(np.meshgrid(*[np.arange(k) for k in self.n], indexing="ij"), -1).reshape(-1, self.dim)
        return self.o + ix * self.h


def weights(grid, kernel, x):
    """x (B,dim) -> list of (node (B,), w (B,), grad (B,3), rel (B,3) [x_node - x_p]) ; invalid nodes have w=0."""
    B, dim = x.shape
    base = (x - grid.o) / grid.h
    first, k = stencil(kernel, base)
    out = []
    for off in itertools.product(range(k), repeat=dim):
        idx = first + np.array(off)
        valid = np.all((idx >= 0) & (idx < np.array(grid.n)), axis=1)
        d = base - idx
        n1 = N1(kernel, d)
        dn = dN1(kernel, d) / grid.h
        w = np.prod(n1, axis=1)
        g = np.zeros((B, 3))
        for a in range(dim):
            t = dn[:, a].copy()
            for b in range(dim):
                if b != a:
                    t = t * n1[:, b]
            g[:, a] = t
        ii = np.clip(idx, 0, np.array(grid.n) - 1).astype(int)
        node = np.zeros(B, dtype=int)
        for a in range(dim):
            node = node * grid.n[a] + ii[:, a]
        rel = np.zeros((B, 3))
        rel[:, :dim] = -d * grid.h
        out.append((node, np.where(valid, w, 0.0), np.where(valid[:, None], g, 0.0), rel))
    return out


class GridState:
    def __init__(self, grid, B):
        self.m = np.zeros((B, grid.num)); self.p = np.zeros((B, grid.num, grid.dim))
        self.f = np.zeros((B, grid.num, grid.dim)); self.pn = None


def p2g(grid, gs, kernel, body, affine=None):
    """Adds one body to a grid state.  body arrays: pos vel mass vol stress force, each (B,N,...)."""
    B, N, dim = body["pos"].shape
    rows = np.arange(B)
    for q in range(N):
        m, v, V, s = body["mass"][:, q], body["vel"][:, q], body["vol"][:, q], body["stress"][:, q]
        fx = body["force"][:, q] if "force" in body else np.zeros_like(v)
        for node, w, g, rel in weights(grid, kernel, body["pos"][:, q]):
            vel = v
            if affine is not None:
                vel = v - np.einsum("bij,bj->bi", affine[:, q], rel)[:, :dim]
            np.add.at(gs.m, (rows, node), w * m)
            np.add.at(gs.p, (rows, node), (w * m)[:, None] * vel)
            np.add.at(gs.f, (rows, node), V[:, None] * np.einsum("bij,bj->bi", s, g)[:, :dim] + w[:, None] * fx)


def grid_vel(mom, m, cutoff):
    ok = m > cutoff
    return np.where(ok[..., None], mom / np.where(ok, m, 1.0)[..., None], 0.0)


def g2p(grid, gs, kernel, body, dt, scheme, opt, cutoff):
    """Returns dict of new body arrays (pos vel vol F L [Bp])."""
    B, N, dim = body["pos"].shape
    rows = np.arange(B)
    vo, vn = grid_vel(gs.p, gs.m, cutoff), grid_vel(gs.pn, gs.m, cutoff)
    out = {k: np.array(v, dtype=float, copy=True) for k, v in body.items()}
    Bp = np.zeros((B, N, 3, 3))
    for q in range(N):
        po, pn, L, supp = np.zeros((B, dim)), np.zeros((B, dim)), np.zeros((B, 3, 3)), np.zeros(B)
        C = np.zeros((B, 3, 3))
        for node, w, g, rel in weights(grid, kernel, body["pos"][:, q]):
            a, b = vo[rows, node], vn[rows, node]
            po += w[:, None] * a
            pn += w[:, None] * b
            b3 = np.zeros((B, 3)); b3[:, :dim] = b
            L -= np.einsum("bi,bj->bij", b3, g)
            C -= w[:, None, None] * np.einsum("bi,bj->bij", b3, rel)
            supp += w * gs.m[rows, node]
        v = body["vel"][:, q]
        if scheme == "usl":
            al = opt.get("alpha", .99)
            vel = (1 - al) * pn + al * (v + (pn - po))
            pos = body["pos"][:, q] + dt * pn
        else:
            if not opt.get("use_mls_update", True):
                L = C / ((1 / 3 if kernel == "cubic" else 1 / 4) * grid.h ** 2)
            Bp[:, q] = L
            al = np.full(B, opt.get("alpha", .99))
            if opt.get("use_dynamic_alpha", True):
                lo, hi = opt.get("alpha_support_min", 1.1), opt.get("alpha_support_max", 1.5)
                al = al * np.clip((supp / (body["mass"][:, q] + 1e-9) - lo) / (hi - lo), 0, 1)
            vel = pn + al[:, None] * (v - po)
            top = opt.get("cfl_limit", .5) * grid.h / dt
            sp = np.linalg.norm(vel, axis=1, keepdims=True)
            vel = vel * np.minimum(1.0, top / (sp + 1e-12))
        if dim == 2:
            L = L.copy(); L[:, 2, 2] = 0
        F = np.einsum("bij,bjk->bik", np.eye(3) - L * np.reshape(dt, (-1, 1, 1)), body["F"][:, q])
        if dim == 2:
            F[:, 2, 2] = 1
        J = np.linalg.det(F)
        if scheme != "usl":
            beta = np.where(J < 1, opt.get("beta_min", 0.0), opt.get("beta_max", .5))
            pos = body["pos"][:, q] + dt * (pn + opt.get("alpha", .99) * beta[:, None] * (v - po))
        out["vel"][:, q], out["pos"][:, q], out["F"][:, q], out["L"][:, q] = vel, pos, F, L
        out["vol"][:, q] = J * body["vol0"][:, q]
    out["Bp"] = Bp
    return out


# ---- laws ---------------------------------------------------------------------------------
def law_elastic(body, dt, E, nu):
    lam, G = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    D = .5 * (body["L"] + np.swapaxes(body["L"], -1, -2)) * dt
    tr = np.trace(D, axis1=-2, axis2=-1)
    return body["stress"] + lam * tr[..., None, None] * np.eye(3) + 2 * G * D


def law_newton(body, dt, K, viscosity, beta, rho0):
    D = .5 * (body["L"] + np.swapaxes(body["L"], -1, -2))
    D = D - np.trace(D, axis1=-2, axis2=-1)[..., None, None] / 3 * np.eye(3)
    r = np.maximum(body["mass"] / body["vol"] / rho0, 1e-6)
    p = np.maximum(K * (r ** beta - 1), 0)
    return p[..., None, None] * np.eye(3) + 2 * viscosity * D


def reset_shear(F, dim):
    J = np.linalg.det(F)
    out = np.zeros_like(F)
    if dim == 2:
        s = np.sqrt(J)
        out[..., 0, 0] = s; out[..., 1, 1] = s; out[..., 2, 2] = 1
    else:
        out = np.cbrt(J)[..., None, None] * np.eye(3)
    return out


def contact(v, dist, n, vw, mu):
    """Velocity after frictional contact with a surface (rows are nodes); no change where dist > 0."""
    rel = v - vw
    vn = np.sum(rel * n, -1, keepdims=True)
    dv = np.maximum(0.0, -vn)
    rel2 = rel + dv * n
    nrm = np.sum(rel2 * n, -1, keepdims=True) * n
    vt = rel2 - nrm
    t = np.linalg.norm(vt, axis=-1, keepdims=True)
    mu = np.asarray(mu)
    mu = mu[..., None] if mu.ndim else mu
    k = np.where(t > 1e-12, np.maximum(0.0, 1 - mu * dv / np.where(t > 1e-12, t, 1.0)), 1.0)
    return np.where((dist <= 0)[..., None], vw + nrm + k * vt, v)


def step(grids, couplings, bodies, dt, scheme, opt, gravity=None, damping=None, law=None, cutoff=None):
    """couplings: list of (body index, grid index, kernel).
    gravity: all forces in order: ("gravity"|"damping", value, grid ids), ("gravity_pts"|"damping_pts", value, body ids),
    ("collider", fn(nodes, grid) -> (dist, normal, wall velocity, friction), grid ids).
    law(body, dt) -> stress or None, or a list with one entry per body. Returns (new bodies, grid states)."""
    cutoff = (opt.get("small_mass_cutoff", 1e-7) if scheme != "usl" else 1e-12) if cutoff is None else cutoff
    B = bodies[0]["pos"].shape[0]
    gss = [GridState(g, B) for g in grids]
    bodies = [dict(b) for b in bodies]
    for b in bodies:
        b["force"] = np.zeros_like(b["vel"])
    for kind, val, ids in (gravity or []):
        if kind.endswith("_pts"):
            for p in ids:
                b = bodies[p]
                if kind == "gravity_pts":
                    b["force"] = b["force"] + b["mass"][..., None] * np.asarray(val, dtype=float)
                else:
                    b["force"] = b["force"] - val * np.abs(b["force"]) * np.sign(b["vel"])
    for p, g, k in couplings:
        p2g(grids[g], gss[g], k, bodies[p], bodies[p].get("Bp") if scheme != "usl" else None)
    for kind, val, ids in (gravity or []):
        if kind not in ("gravity", "damping"):
            continue
        for g in ids:
            if kind == "gravity":
                gss[g].f = gss[g].f + gss[g].m[..., None] * np.asarray(val, dtype=float)
            else:
                v = gss[g].p / (gss[g].m[..., None] + 1e-22)
                gss[g].f = gss[g].f - val * np.abs(gss[g].f) * np.sign(v)
    for gs in gss:
        gs.pn = gs.p + gs.f * np.reshape(dt, (-1, 1, 1))
    for kind, val, ids in (gravity or []):
        if kind == "collider":
            for g in ids:
                gs = gss[g]
                ok = gs.m > 1e-14
                v = np.where(ok[..., None], gs.pn / np.where(ok, gs.m, 1.0)[..., None], 0.0)
                dist, nrm, vw, mu = val(grids[g].nodes(), grids[g])
                gs.pn = contact(v, np.broadcast_to(dist, gs.m.shape), nrm, vw, mu) * gs.m[..., None]
    new = []
    done = {}
    for p, g, k in couplings:
        b = g2p(grids[g], gss[g], k, bodies[p], dt, scheme, opt, cutoff)
        lw = law[p] if isinstance(law, (list, tuple)) else law
        if lw is not None:
            b["stress"] = lw(b, dt)
        done[p] = b
    for i, b in enumerate(bodies):
        new.append(done.get(i, b))
    return new, gss
