"""Scene construction through the public builder, batched execution, and a probing user force."""
from mc.env import jax, jnp, np, eqx, hdx
from typing import Any


class GridProbeState(hdx.BaseForceState):
    mass: Any
    moment: Any
    force: Any
    moment_nt: Any


class GridProbe(hdx.Force):
    """A user force (public extension point) that changes nothing and records the grids it is shown."""
    f_idx: int = eqx.field(static=True, default=0)
    g_ids: tuple = eqx.field(static=True, default=())

    def _store(self, mechanics, **kw):
        st = mechanics.forces[self.f_idx]
        st = GridProbeState(**{**{k: getattr(st, k) for k in ("mass", "moment", "force", "moment_nt")}, **kw})
        fs = list(mechanics.forces)
        fs[self.f_idx] = st
        return eqx.tree_at(lambda m: m.forces, mechanics, tuple(fs))

    def apply_grid_forces(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        g = [sim_cache.grids[i] for i in self.g_ids]
        mechanics = self._store(mechanics, mass=tuple(x.mass_stack for x in g),
                                moment=tuple(x.moment_stack for x in g), force=tuple(x.force_stack for x in g))
        return world, mechanics, sim_cache

    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        g = [sim_cache.grids[i] for i in self.g_ids]
        mechanics = self._store(mechanics, moment_nt=tuple(x.moment_nt_stack for x in g))
        return world, mechanics, sim_cache


def add_probe(b):
    """Registers a GridProbe over all grids registered so far; returns its force index."""
    f = max(len(b.force_logics), len(b.force_states))
    while len(b.force_logics) < f:
        b.force_logics.append(hdx.Force())
    while len(b.force_states) < f:
        b.force_states.append(None)
    doms = list(b.grid_domains)
    z = lambda d: tuple(jnp.zeros((g.num_cells, g.dim)) if d else jnp.zeros((g.num_cells,)) for g in doms)
    b.force_logics.append(GridProbe(f_idx=f, g_ids=tuple(range(len(doms)))))
    b.force_states.append(GridProbeState(mass=z(0), moment=z(1), force=z(1), moment_nt=z(1)))
    return f


def make_law(spec, n=None, density=None):
    """spec: (name, kwargs) -> (law, law_state or None)"""
    if spec[0] == "obj":
        return spec[1], spec[2]
    name, kw = spec[0], dict(spec[1])
    if name == "elastic":
        return hdx.LinearElasticLaw(**kw), None
    if name == "newton":
        law = hdx.NewtonFluid(**{k: v for k, v in kw.items() if k != "rho0"})
        return law, hdx.NewtonFluidState(density_ref_stack=jnp.full((n,), float(kw.get("rho0", 1000.0))))
    if name == "mui":
        law = hdx.MuI_LC(**{k: v for k, v in kw.items() if k != "rho0"})
        return law, law.create_state_from_density(density_stack=jnp.full((n,), float(kw.get("rho0", 1000.0))))
    raise ValueError(name)


def simple_scene(*, dim, kernel, scheme, npts, h=0.25, origin=None, cells=4, padding=3, law=("elastic", dict(E=0.0, nu=0.0, requires_F_reset=False)),
                 gravity=None, gravity_on_grid=True, probe=False, solver_kw=None, dt=0.01, mp_kw=None, post=None):
    """One body, one grid.  Default law: no stiffness (stress stays as given)."""
    origin = tuple(origin) if origin is not None else (0.0,) * dim
    b = hdx.SimBuilder()
    b.add_grid(origin=origin, end=tuple(o + cells * h for o in origin), cell_size=h, padding=padding)
    pos = jnp.tile(jnp.asarray(origin) + 2.3 * h, (npts, 1))
    kw = dict(mass_stack=jnp.ones(npts), volume_stack=jnp.ones(npts) * h ** dim)
    kw.update(mp_kw or {})
    p = b.add_material_points(position_stack=pos, **kw)
    lw, ls = make_law(law, npts)
    b.add_constitutive_law(law=lw, law_state=ls)
    b.couple(p_idx=p, shapefunction=kernel)
    if gravity is not None:
        b.add_gravity(gravity=jnp.asarray(gravity, dtype=float), is_apply_on_grid=gravity_on_grid)
    if post:
        post(b)
    f = add_probe(b) if probe else None
    b.set_solver(scheme=scheme, **(solver_kw or {}))
    solver, state = b.build(dt=dt)
    return (solver, state, f) if probe else (solver, state)


FIELDS = ("position_stack", "velocity_stack", "mass_stack", "volume_stack", "volume0_stack", "stress_stack",
          "F_stack", "L_stack", "force_stack", "F_store_stack")
SHORT = dict(pos="position_stack", vel="velocity_stack", mass="mass_stack", vol="volume_stack", vol0="volume0_stack",
             stress="stress_stack", F="F_stack", L="L_stack", force="force_stack", Fs="F_store_stack")


def put(state, p=0, Bp=None, s=0, dt=None, **kw):
    """Replace fields of body p (short names) and the affine matrix of solver state s."""
    if kw:
        mp = state.world.material_points[p]
        names = [SHORT[k] for k in kw]
        mp = eqx.tree_at(lambda m: [getattr(m, n) for n in names], mp, [jnp.asarray(v, dtype=float) for v in kw.values()])
        mps = list(state.world.material_points)
        mps[p] = mp
        state = eqx.tree_at(lambda st: st.world.material_points, state, tuple(mps))
    if Bp is not None:
        state = eqx.tree_at(lambda st: st.mechanics.solvers[s].Bp_stack, state, jnp.asarray(Bp, dtype=float))
    if dt is not None:
        state = eqx.tree_at(lambda st: st.dt, state, dt)
    return state


def strong(state):
    """All leaves as strongly typed arrays, so that a state can be fed back into the same compiled step."""
    return jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype=jnp.asarray(x).dtype), state)


def get(state, name, p=0):
    return getattr(state.world.material_points[p], SHORT[name])


def outs(state, names, p=0, probe=None, s=None):
    """Collects named arrays of a state."""
    o = {n: get(state, n, p) for n in names}
    if s is not None:
        o["Bp"] = state.mechanics.solvers[s].Bp_stack
    if probe is not None:
        pr = state.mechanics.forces[probe]
        o.update(g_mass=pr.mass, g_moment=pr.moment, g_force=pr.force, g_moment_nt=pr.moment_nt)
    return o


def batched(solver, state0, names=("pos", "vel", "vol", "F", "L", "stress"), probe=None, p=0, s=None, steps=1):
    """Returns f(**batched fields) -> dict of batched outputs after `steps` steps."""
    def one(kw):
        st = put(state0, p=p, s=s or 0, **kw)
        for _ in range(steps):
            st = solver(st)
        return outs(st, names, p=p, probe=probe, s=s)
    f = jax.jit(jax.vmap(one))

    def call(chunk=20000, **kw):
        kw = {k: jnp.asarray(np.asarray(v, dtype=float)) for k, v in kw.items()}
        n = next(iter(kw.values())).shape[0]
        res = []
        for a in range(0, n, chunk):
            part = {k: v[a:a + chunk] for k, v in kw.items()}
            m = next(iter(part.values())).shape[0]
            if m < chunk and n > chunk:  # pad: keeps one compiled shape
                part = {k: jnp.concatenate([v, jnp.repeat(v[-1:], chunk - m, axis=0)]) for k, v in part.items()}
            r = jax.tree_util.tree_map(lambda x: np.asarray(x)[:m], f(part))
            res.append(r)
        return jax.tree_util.tree_map(lambda *xs: np.concatenate(xs), *res) if len(res) > 1 else res[0]
    return call


def lattice(*axes):
    """Cartesian product of 1D lists -> (B, len(axes)) float array, first axis slowest."""
    m = np.meshgrid(*[np.asarray(a, dtype=float) for a in axes], indexing="ij")
    return np.stack([x.reshape(-1) for x in m], axis=-1)


def product_idx(*sizes):
    """All index tuples -> list of int arrays."""
    m = np.meshgrid(*[np.arange(s) for s in sizes], indexing="ij")
    return [x.reshape(-1) for x in m]


class Multi:
    """A scene of several bodies, run as a batched function over dicts with keys <field><body>."""

    def __init__(self, *, dim, scheme, sizes, kernel="linear", kernels=None, grids=None, h=0.25, cells=4, origin=None, padding=3,
                 law=("elastic", dict(E=0.0, nu=0.0, requires_F_reset=False)), laws=None, c_of=None, g_of=None, solver_kw=None,
                 setup=None, probe=True, mp_kw=None, dt=0.01, store_F=False, pre=None):
        self.dim, self.scheme, self.nb = dim, scheme, len(sizes)
        self.sizes = sizes
        origin = tuple(origin) if origin is not None else (0.0,) * dim
        self.h, self.origin, self.cells, self.padding = h, origin, cells, padding
        b = self.b = hdx.SimBuilder()
        ng = 1 if grids is None else grids
        for _ in range(ng):
            b.add_grid(origin=origin, end=tuple(o + cells * h for o in origin), cell_size=h, padding=padding)
        for n in sizes:
            b.add_material_points(position_stack=jnp.tile(jnp.asarray(origin) + 1.5 * h, (n, 1)),
                                  mass_stack=jnp.ones(n), volume_stack=jnp.ones(n), store_F=store_F, **(mp_kw or {}))
        for i, l in enumerate(laws or [law] * self.nb):
            lw, ls = make_law(l, sizes[i])
            b.add_constitutive_law(law=lw, law_state=ls)
        self.kernels = kernels or [kernel] * self.nb
        for i in range(self.nb):
            b.couple(p_idx=i, g_idx=(g_of or [0] * self.nb)[i], c_idx=(c_of or list(range(self.nb)))[i], shapefunction=self.kernels[i])
        if setup:
            setup(b)
        self.pr = add_probe(b) if probe else None
        b.set_solver(scheme=scheme, **(solver_kw or {}))
        self.solver, self.st0 = b.build(dt=dt)
        self.aff = scheme != "usl"
        self._f = {}

    IN = ("pos", "vel", "mass", "vol", "vol0", "stress", "F", "force", "Bp")
    OUT = ("pos", "vel", "mass", "vol", "stress", "F", "L", "force")

    def put(self, d, dt=None):
        st = self.st0 if dt is None else put(self.st0, dt=dt)
        for i in range(self.nb):
            kw = {k: d[k + str(i)] for k in self.IN + ("Fs",) if k + str(i) in d and k != "Bp"}
            if kw:
                st = put(st, p=i, **kw)
            if self.aff and "Bp%d" % i in d:
                st = put(st, Bp=d["Bp%d" % i], s=i)
        return st

    def out(self, st):
        o = {}
        for i in range(self.nb):
            for k in self.OUT:
                o[k + str(i)] = get(st, k, i)
            if get(st, "Fs", i) is not None:
                o["Fs%d" % i] = get(st, "Fs", i)
            if self.aff:
                o["Bp%d" % i] = st.mechanics.solvers[i].Bp_stack
        if self.pr is not None:
            p = st.mechanics.forces[self.pr]
            for j in range(len(p.mass)):
                o.update({"gmass%d" % j: p.mass[j], "gmom%d" % j: p.moment[j], "gforce%d" % j: p.force[j], "gmomn%d" % j: p.moment_nt[j]})
        return o

    def stepper(self, dt, chunk=20000, steps=1):
        def one(d, dt):
            st = self.put(d, dt)
            for _ in range(steps):
                st = self.solver(st)
            return self.out(st)
        if steps not in self._f:
            self._f[steps] = jax.jit(jax.vmap(one, in_axes=(0, None)))
        f = self._f[steps]

        def call(d):
            d = {k: np.asarray(v, dtype=float) for k, v in d.items() if k[:-1] in self.IN + ("Fs",)}
            n = len(next(iter(d.values()))); res = []
            for a in range(0, n, chunk):
                k = min(chunk, n - a)
                want = chunk if n > chunk else k
                part = {x: np.concatenate([v[a:a + k], np.repeat(v[-1:], want - k, 0)]) if want > k else v[a:a + k] for x, v in d.items()}
                res.append({x: np.asarray(v)[:k] for x, v in f(part, dt).items()})
            return {x: np.concatenate([r[x] for r in res]) for x in res[0]} if len(res) > 1 else res[0]
        return call

    def init(self, n, **kw):
        """Batch of n default states; kw gives <field><body> arrays (broadcast over the batch)."""
        d = {}
        for i, N in enumerate(self.sizes):
            dflt = dict(pos=np.tile(np.asarray(self.origin) + 1.5 * self.h, (N, 1)), vel=np.zeros((N, self.dim)), mass=np.ones(N),
                        vol=np.ones(N), vol0=np.ones(N), stress=np.zeros((N, 3, 3)), F=np.tile(np.eye(3), (N, 1, 1)))
            if self.aff:
                dflt["Bp"] = np.zeros((N, 3, 3))
            for k, v in dflt.items():
                v = np.asarray(kw.pop(k + str(i), v), dtype=float)
                d[k + str(i)] = v if (v.shape[:1] == (n,) and v.ndim == np.asarray(dflt[k]).ndim + 1) else np.broadcast_to(v, (n,) + v.shape).copy()
            if "vol%d" % i in kw:
                pass
        assert not kw, kw
        return d

    def refgrid(self):
        from mc import refmpm as R
        return R.Grid(self.origin, tuple(o + self.cells * self.h for o in self.origin), self.h, self.padding)

    def refbodies(self, d):
        out = []
        for i in range(self.nb):
            out.append({k: np.asarray(d[k + str(i)], dtype=float) for k in ("pos", "vel", "mass", "vol", "vol0", "stress", "F", "Bp") if k + str(i) in d})
            out[-1].setdefault("L", np.zeros_like(out[-1]["F"]))
        return out
