"""Obstacle shapes with independent geometric oracles (numpy), shared by the obstacle checks."""
import numpy as np
from mc.env import hdx, jnp, jax
from hydraxmpm.sdf.sdfcollection import CompositeSDF


def rot2(a):
    a = np.asarray(a, dtype=float)
    c, s = np.cos(a), np.sin(a)
    return np.stack([np.stack([c, -s], -1), np.stack([s, c], -1)], -2)


def quat_mat(q):
    q = np.asarray(q, dtype=float)
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    w, x, y, z = np.moveaxis(q, -1, 0)
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
                     np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], -1),
                     np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1)], -2)


def axis_quat(axis, ang):
    a = np.asarray(axis, dtype=float)
    a = a / np.linalg.norm(a)
    return np.concatenate([[np.cos(ang / 2)], np.sin(ang / 2) * a])


def rotvec_mat(w):
    w = np.asarray(w, dtype=float)
    t = np.linalg.norm(w, axis=-1)[..., None, None]
    K = np.zeros(w.shape[:-1] + (3, 3))
    K[..., 0, 1], K[..., 0, 2], K[..., 1, 2] = -w[..., 2], w[..., 1], -w[..., 0]
    K[..., 1, 0], K[..., 2, 0], K[..., 2, 1] = w[..., 2], -w[..., 1], w[..., 0]
    a = np.where(t > 1e-12, np.sin(t) / np.where(t > 1e-12, t, 1), 1.0)
    b = np.where(t > 1e-12, (1 - np.cos(t)) / np.where(t > 1e-12, t, 1) ** 2, .5)
    return np.eye(3) + a * K + b * K @ K


def pose_mat(dim, rot):
    return rot2(rot) if dim == 2 else quat_mat(rot)


# ---- oracles: each returns (signed distance, nearest surface point, is the nearest point unique) for points (n, dim) ----
def _unit(v):
    n = np.linalg.norm(v, axis=-1, keepdims=True)
    return np.where(n > 1e-14, v / np.where(n > 0, n, 1), 0.0), n[:, 0]


def o_sphere(p, r):
    u, n = _unit(p)
    return n - r, u * r, n > 1e-9


def o_plane(p, nrm):
    n = np.asarray(nrm, dtype=float); n = n / np.linalg.norm(n)
    d = p @ n
    return d, p - d[:, None] * n, np.ones(len(p), bool)


def polygon(p, V):
    """Closed polygon with vertices V (k,2), any orientation."""
    V = np.asarray(V, dtype=float)
    A, B = V, np.roll(V, -1, 0)
    E = B - A
    w = p[:, None] - A
    t = np.clip((w * E).sum(-1) / (E * E).sum(-1), 0, 1)
    c = A + t[..., None] * E
    d = np.linalg.norm(p[:, None] - c, axis=-1)
    k = d.argmin(1)
    near = c[np.arange(len(p)), k]
    dm = d.min(1)
    # unique: every edge as near as this one is nearest at the same point
    same = np.linalg.norm(c - near[:, None], axis=-1) < 1e-7
    uniq = (same | (d > dm[:, None] + 1e-7)).all(1)
    # inside: crossing number on y
    ya, yb = A[:, 1], B[:, 1]
    py = p[:, 1:2]
    cond = (ya <= py) != (yb <= py)
    xs = A[:, 0] + (py - ya) / np.where(yb == ya, 1.0, yb - ya) * E[:, 0]
    inside = ((cond & (xs > p[:, :1])).sum(1) % 2) == 1
    return np.where(inside, -dm, dm), near, uniq


def rect(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def o_box(p, size):
    hs = np.asarray(size, dtype=float) / 2
    out = (np.abs(p) > hs).any(1)
    c_out = np.clip(p, -hs, hs)
    g = hs - np.abs(p)
    k = g.argmin(1)
    c_in = p.copy()
    s = np.where(p >= 0, 1.0, -1.0)
    c_in[np.arange(len(p)), k] = (s * hs)[np.arange(len(p)), k]
    srt = np.sort(g, 1)
    uniq = out | ((srt[:, 1] - srt[:, 0] > 1e-7) & (np.abs(p)[np.arange(len(p)), k] > 1e-7))
    c = np.where(out[:, None], c_out, c_in)
    d = np.linalg.norm(p - c, axis=1)
    return np.where(out, d, -d), c, uniq


def o_capsule(p, r, height):
    q = np.zeros_like(p)
    q[:, 1] = np.clip(p[:, 1], -height / 2, height / 2)
    u, n = _unit(p - q)
    return n - r, q + u * r, n > 1e-9


def revolve(p, prof):
    """Solid of revolution about y of a 2D oracle in (rho, y)."""
    rho = np.hypot(p[:, 0], p[:, 2])
    d, c, uq = prof(np.stack([rho, p[:, 1]], 1))
    e = np.stack([p[:, 0], p[:, 2]], 1) / np.where(rho > 1e-14, rho, 1)[:, None]
    near = np.stack([c[:, 0] * e[:, 0], c[:, 1], c[:, 0] * e[:, 1]], 1)
    return d, near, uq & ((rho > 1e-9) | (np.abs(c[:, 0]) < 1e-12))


def o_cylinder(p, r, height):
    return revolve(p, lambda q: polygon(q, rect(-r, r, -height / 2, height / 2)))


def o_pipe(p, ri, ro, height):
    return revolve(p, lambda q: polygon(q, rect(ri, ro, -height / 2, height / 2)))


def o_torus(p, R, r):
    def prof(q):
        u, n = _unit(q - [R, 0])
        return n - r, [R, 0] + u * r, n > 1e-9
    return revolve(p, prof)


def o_ring(p, ri, ro):
    u, n = _unit(p)
    d = np.maximum(n - ro, ri - n)
    rr = np.where(n - ro > ri - n, ro, ri)
    return d, u * rr[:, None], (n > 1e-9) & (np.abs((n - ro) - (ri - n)) > 1e-7)


def o_walls(p, ri, ro, height):
    s = np.where(p[:, 0] >= 0, 1.0, -1.0)
    d, c, uq = polygon(np.stack([np.abs(p[:, 0]), p[:, 1]], 1), rect(ri, ro, -height / 2, height / 2))
    return d, np.stack([c[:, 0] * s, c[:, 1]], 1), uq & (np.abs(p[:, 0]) > 1e-9)


def star_vertices(n, ro, ri):
    V = []
    for k in range(n):
        a = 2 * np.pi * k / n
        V.append((ro * np.sin(a), ro * np.cos(a)))
        b = a + np.pi / n
        V.append((ri * np.sin(b), ri * np.cos(b)))
    return V


def o_star(p, n, ro, ri):
    return polygon(p, star_vertices(n, ro, ri))


def o_domain(p, lo, hi):
    lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
    w = np.concatenate([p - lo, hi - p], 1)
    k = w.argmin(1)
    dim = p.shape[1]
    c = p.copy()
    c[np.arange(len(p)), k % dim] = np.concatenate([lo, hi])[k]
    srt = np.sort(w, 1)
    return w.min(1), c, srt[:, 1] - srt[:, 0] > 1e-7


# ---- the catalogue: name -> list of (constructor, oracle, characteristic size) ----
def catalogue(dim, big=False):
    S = lambda *a: list(a)
    out = {
        "sphere": [(lambda r=r: hdx.SphereSDF(radius=r), lambda p, r=r: o_sphere(p, r), r) for r in (.3, 1.0, .02, 25.0)],
        "plane": [(lambda n=n: hdx.PlaneSDF(normal=n), lambda p, n=n: o_plane(p, n), 1.0) for n in ([(0., 1.), (3., 4.), (-1., .2), (0., -.01)] if dim == 2 else [(0., 1., 0.), (0., 0., 1.), (1., 2., -2.), (-.3, .1, 0.)])],
        "box": [(lambda s=s: hdx.BoxSDF(size=s), lambda p, s=s: o_box(p, s), max(s) / 2) for s in ([(1., 1.), (.5, .2), (.05, 2.), (30., 40.)] if dim == 2 else [(1., 1., 1.), (.5, .2, .8), (.05, 2., .7), (30., 40., 10.)])],
        "capsule": [(lambda r=r, h=h: hdx.CapsuleSDF(radius=r, height=h), lambda p, r=r, h=h: o_capsule(p, r, h), r + h / 2) for r, h in ((.3, 1.0), (.5, .2), (.05, 2.0), (8.0, 20.0))],
    }
    if dim == 2:
        out["ring"] = [(lambda a=a, b=b: hdx.HollowCylinderSDF(height=1.0, outer_radius=b, inner_radius=a, is_2d_ring=True), lambda p, a=a, b=b: o_ring(p, a, b), b) for a, b in ((.5, 1.0), (.2, .25), (4.0, 20.0))]
        out["walls"] = [(lambda a=a, b=b, h=h: hdx.HollowCylinderSDF(height=h, outer_radius=b, inner_radius=a, is_2d_ring=False), lambda p, a=a, b=b, h=h: o_walls(p, a, b, h), max(b, h / 2))
                        for a, b, h in ((.5, 1.0, 1.0), (.2, .25, 2.0), (4.0, 20.0, 6.0))]
        out["star"] = [(lambda n=n, a=a, b=b: hdx.StarSDF(points=n, outer_radius=b, inner_radius=a), lambda p, n=n, a=a, b=b: o_star(p, n, b, a), b)
                       for n, a, b in ((5, .5, 1.0), (3, .4, .6), (8, .2, .9), (6, 9.0, 20.0), (4, .05, .5))]
    else:
        out["cylinder"] = [(lambda r=r, h=h: hdx.CylinderSDF(radius=r, height=h), lambda p, r=r, h=h: o_cylinder(p, r, h), max(r, h / 2)) for r, h in ((.5, 1.0), (1.0, .1), (.05, 2.0), (8., 20.))]
        out["torus"] = [(lambda a=a, b=b: hdx.TorusSDF(major_r=a, minor_r=b), lambda p, a=a, b=b: o_torus(p, a, b), a + b) for a, b in ((.7, .2), (.3, .25), (15., 1.0))]
        out["pipe"] = [(lambda a=a, b=b, h=h: hdx.HollowCylinderSDF(height=h, outer_radius=b, inner_radius=a), lambda p, a=a, b=b, h=h: o_pipe(p, a, b, h), max(b, h / 2))
                       for a, b, h in ((.5, 1.0, 1.0), (.2, .25, 2.0), (4.0, 20.0, 6.0))]
    return out


def poses(dim, n=None):
    """(centre, rotation) list; the first is the identity."""
    if dim == 2:
        P = [((0., 0.), 0.0), ((.7, -.4), 0.0), ((0., 0.), .9), ((-1.3, 2.1), -2.4), ((10., -20.), 5.0), ((.1, .2), np.pi / 2), ((0., 0.), np.pi)]
    else:
        P = [((0., 0., 0.), axis_quat((1, 0, 0), 0.0)), ((.7, -.4, .2), axis_quat((1, 0, 0), 0.0)), ((0., 0., 0.), axis_quat((0, 0, 1), .9)), ((-1.3, 2.1, .4), axis_quat((1, 2, -1), 2.1)),
             ((10., -20., 5.), axis_quat((-1, .3, .5), 4.0)), ((.1, .2, .3), axis_quat((0, 1, 0), np.pi / 2)), ((0., 0., 0.), axis_quat((1, 1, 0), np.pi))]
    return P[:n]


def state(lg, dim, com, rot, vel=None, om=None):
    return lg.create_state(center_of_mass=jnp.asarray(np.asarray(com, dtype=float)), rotation=jnp.asarray(float(rot)) if dim == 2 else jnp.asarray(np.asarray(rot, dtype=float)),
                           velocity=jnp.zeros(dim) if vel is None else jnp.asarray(np.asarray(vel, dtype=float)),
                           angular_velocity=(jnp.asarray(0.0) if dim == 2 else jnp.zeros(3)) if om is None else (jnp.asarray(float(om)) if dim == 2 else jnp.asarray(np.asarray(om, dtype=float))))


_cache = {}


def evaluate(lg, st, pts, dt=1e-3):
    """Distances, normals, velocities and friction of the real object at many points (one compilation per shape class and size of batch)."""
    f = _cache.get("f")
    if f is None:
        import equinox as eqx
        @eqx.filter_jit
        def f(lg, st, pts, dt):
            return (lg.get_signed_distance_stack(st, pts), lg.get_normal_stack(st, pts), lg.get_velocity_stack(st, pts, dt), jnp.broadcast_to(jnp.asarray(lg.get_surface_friction_stack(st, pts), dtype=float), pts.shape[:1]))
        _cache["f"] = f
    return [np.asarray(q) for q in f(lg, st, jnp.asarray(pts), jnp.asarray(float(dt)))]
