"""C33 tensor, strain, rotation and conversion helpers."""
PROPERTY = "C33"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive evaluation of every helper on all tensors over a small alphabet and on all words of rotations up to a depth, against independent references and defining identities"
RULE = "every element of the stated finite input sets, single and batched forms; non-trivial = distinct input"
ASSUMPTIONS = ["JAX CPU float64", "tensor entries in the alphabet; invertible deformation gradients for logarithmic strains", "regularisations of 1e-6 in norms, 1e-8 in equivalent strains and 1e-20 in inverses are part of the helpers"]
NOTE = "the helpers themselves are executed on every input"
BOUNDS = {"quick": dict(general="3^9 tensors over {-1,0,2}", symmetric="5^6 tensors over {-2,-1,0,1,3}", quaternions="5^4-1", rotation_words="9 letters, depth 4"),
          "thorough": dict(general="4^9 tensors over {-1,0,2,0.5}", symmetric="7^6 tensors", quaternions="7^4-1", rotation_words="9 letters, depth 5")}
FAST_COMPILE = False


def tasks(tier):
    th = tier == "thorough"
    out = [("stress", dict(n=n, part=0)) for n in ((5,) if not th else (5, 7))]
    out += [("strain", dict(k=k)) for k in ((3,) if not th else (3, 4))]
    out += [("hencky", dict(k=k, part=i)) for k in ((3,) if not th else (3, 4)) for i in range(3)]
    out += [("inverse", dict(k=k)) for k in ((3,) if not th else (3, 4))]
    out += [("gradients", {}), ("conversions", {}), ("plane", {}), ("norms", {})]
    out += [("quaternions", dict(m=2 if not th else 3))]
    out += [("rotation_words", dict(depth=4 if not th else 5))]
    return out


SYM = {5: (-2., -1., 0., 1., 3.), 7: (-2., -1., -.5, 0., 1., 1.5, 3.)}
GEN = {3: (-1., 0., 2.), 4: (-1., 0., 2., .5)}


def sym(vals):
    import itertools
    import numpy as np
    c = np.array(list(itertools.product(vals, repeat=6)))
    t = np.empty((len(c), 3, 3))
    for k, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
        t[:, i, j] = t[:, j, i] = c[:, k]
    return t


def gen(vals):
    import itertools
    import numpy as np
    return np.array(list(itertools.product(vals, repeat=9))).reshape(-1, 3, 3)


def cube_rotations():
    import itertools
    import numpy as np
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            r = np.zeros((3, 3))
            for i in range(3):
                r[i, p[i]] = s[i]
            if np.linalg.det(r) > 0:
                out.append(r)
    c, s = np.cos(.7), np.sin(.7)
    out.append(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, c, -s], [0, s, c]]))
    return out


def each(f, *a):
    """The single-point form mapped over the points."""
    import jax
    return jax.jit(jax.vmap(f))(*a)


def stress(cfg, rec):
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    T = sym(SYM[cfg["n"]]); t = jnp.asarray(T)
    if cfg["n"] == 7:
        T = T[:: 1]
    p = np.einsum("nii->n", T) / 3
    s = T - p[:, None, None] * np.eye(3)
    j2 = .5 * np.einsum("nij,nij->n", s, s)
    case = lambda i: dict(tensor=T[i].tolist())
    cl = lambda k, what, g, e, tol=1e-12: rec.close(k, what, g, e, tol * 20, tol, case=case)
    for name, f, e in (("pressure", M.get_pressure, p), ("dev", M.get_dev_stress, s), ("j2", M.get_J2, j2), ("q", M.get_q_vm, np.sqrt(3 * j2))):
        cl(name, name + " of a tensor is not its definition", each(f, t), e)
        cl(name + "_stack", "the batched %s differs from the single-point one" % name, getattr(M, {"pressure": "get_pressure_stack", "dev": "get_dev_stress_stack", "j2": "get_J2_stack", "q": "get_q_vm_stack"}[name])(t), e)
        cl(name + "_ranks", "%s over one more axis differs" % name, f(t.reshape((5, -1, 3, 3)) if len(T) % 5 == 0 else t[None]), e.reshape((5, -1) + e.shape[1:]) if len(T) % 5 == 0 else e[None])
    cl("tau", "scalar shear stress is not the root of J2", each(lambda x: M.get_scalar_shear_stress(x, None, None), t), np.sqrt(j2))
    cl("tau_stack", "the batched scalar shear stress differs", M.get_scalar_shear_stress_stack(t), np.sqrt(j2))
    # given a pressure or a deviator, it is used
    p2 = p + 1.5
    cl("given_p", "a given pressure is not the one removed", each(M.get_dev_stress, t, jnp.asarray(p2)), T - p2[:, None, None] * np.eye(3))
    cl("given_p_stack", "a given pressure is not the one removed", M.get_dev_stress_stack(t, jnp.asarray(p2)), T - p2[:, None, None] * np.eye(3))
    d2 = s * 2
    for k, g in (("J2", M.get_J2_stack(t, jnp.asarray(d2))), ("q", M.get_q_vm_stack(t, jnp.asarray(d2)) ** 2 / 3), ("tau", M.get_scalar_shear_stress_stack(t, jnp.asarray(d2)) ** 2)):
        cl("given_dev", "a given deviator is not the one used (%s)" % k, g, 4 * j2)
    # splitting and recombining, rotation invariance
    P, S = np.asarray(M.get_pressure(t)), np.asarray(M.get_dev_stress(t))
    cl("recombine", "pressure and deviator do not recombine to the tensor", S + P[:, None, None] * np.eye(3), T, 1e-14)
    cl("traceless", "the deviator has a trace", np.einsum("nii->n", S), 0., 1e-13)
    for R in cube_rotations():
        q = jnp.asarray(np.einsum("ij,njk,lk->nil", R, T, R))
        cl("rotate_p", "pressure depends on the frame", M.get_pressure(q), p, 1e-11)
        cl("rotate_q", "the equivalent stress depends on the frame", M.get_q_vm(q), np.sqrt(3 * j2), 1e-7)
        rec.count(evals=2 * len(T))
    # a known value: uniaxial / triaxial states
    rec.count(states=len(T), transitions=len(T) * 14, traces=len(T) * 14, evals=len(T) * 14, distinct=len(T))
    # reconstruction from triaxial invariants
    pq = np.array([(a, b) for a in np.linspace(-3, 5, 33) for b in np.linspace(0, 7, 29)])
    st = np.asarray(M.reconstruct_stress_from_triaxial(jnp.asarray(pq[:, 0]), jnp.asarray(pq[:, 1])))
    c2 = lambda i: dict(p=pq[i, 0], q=pq[i, 1])
    rec.close("triaxial_p", "the reconstructed stress has another pressure", np.asarray(M.get_pressure(jnp.asarray(st))), pq[:, 0], 1e-12, 1e-12, case=c2)
    rec.close("triaxial_q", "the reconstructed stress has another shear stress", np.asarray(M.get_q_vm(jnp.asarray(st))), pq[:, 1], 1e-12, 1e-12, case=c2)
    rec.true("triaxial_form", "the reconstructed stress is not triaxial about the last axis", (st[:, 0, 0] == st[:, 1, 1]) & (st[:, 2, 2] >= st[:, 0, 0] - 1e-12) & (np.abs(st - st * np.eye(3)).max(axis=(1, 2)) == 0), case=c2)
    rec.count(states=len(pq), traces=3 * len(pq))
    rec.sample(tensor=T[1234].tolist(), pressure=p[1234])


def strain(cfg, rec):
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    T = gen(GEN[cfg["k"]]); t = jnp.asarray(T)
    tr = np.einsum("nii->n", T)
    TT = np.swapaxes(T, 1, 2)
    sy, sk = .5 * (T + TT), .5 * (T - TT)
    dev = T - tr[:, None, None] / 3 * np.eye(3)
    ee = np.einsum("nij,nij->n", dev, dev)
    case = lambda i: dict(tensor=T[i].tolist())

    def cl(k, what, g, e, tol=1e-12):
        rec.close(k, what, g, e, tol * 20, tol, case=case); rec.count(evals=len(T), transitions=len(T), traces=len(T))
    for name, f, fs, e in (("sym", M.get_sym_tensor, M.get_sym_tensor_stack, sy), ("skew", M.get_skew_tensor, M.get_skew_tensor_stack, sk), ("spin", M.get_spin_tensor, None, sk),
                           ("rate", M.get_strain_rate_tensor, M.get_strain_rate_tensor_stack, sy), ("volumetric", M.get_volumetric_strain, M.get_volumetric_strain_stack, tr),
                           ("dev_strain", M.get_dev_strain, M.get_dev_strain_stack, dev), ("small", M.get_small_strain, M.get_small_strain_stack, sy - np.eye(3)),
                           ("shear_strain", M.get_shear_strain_vm, M.get_shear_strain_vm_stack, np.sqrt(2 / 3 * ee + 1e-16))):
        cl(name, "%s is not its definition" % name, each(f, t), e)
        if fs is not None:
            cl(name + "_stack", "the batched %s differs from the single-point one" % name, fs(t), e)
    cl("scalar_shear", "the scalar shear strain is not its definition", each(lambda x: M.get_scalar_shear_strain(x), t), np.sqrt(.5 * ee))
    cl("scalar_shear_stack", "the batched scalar shear strain differs", M.get_scalar_shear_strain_stack(t), np.sqrt(.5 * ee))
    cl("split", "symmetric and skew parts do not recombine", np.asarray(each(M.get_sym_tensor, t)) + np.asarray(each(M.get_skew_tensor, t)), T)
    d2 = jnp.asarray(dev * 3)
    cl("given_dev", "a given deviator is not the one used", M.get_shear_strain_vm_stack(t, d2), np.sqrt(6 * ee + 1e-16))
    cl("given_dev_scalar", "a given deviator is not the one used", each(lambda a, b: M.get_scalar_shear_strain(a, b), t, d2), np.sqrt(4.5 * ee))
    v2 = jnp.asarray(tr + 3.)
    cl("given_vol", "a given volumetric strain is not the one removed", each(M.get_dev_strain, t, v2), T - (tr + 3.)[:, None, None] / 3 * np.eye(3))
    # pairs: contraction, plastic strain, Jaumann increment
    for k, sh in (("a", 1), ("b", 777)):
        O = np.roll(T, sh, axis=0) + .25; o = jnp.asarray(O)
        dc = np.einsum("nij,nij->n", T, O)
        cl("contraction", "the double contraction is not the sum of the products", each(M.get_double_contraction, t, o), dc)
        cl("contraction_stack", "the batched double contraction differs", M.get_double_contraction_stack(t, o), dc)
        cl("plastic", "plastic strain is not total minus elastic", each(M.get_plastic_strain, t, o), T - O)
        cl("plastic_stack", "the batched plastic strain differs", M.get_plastic_strain_stack(t, o), T - O)
        S = .5 * (O + np.swapaxes(O, 1, 2)); s = jnp.asarray(S)
        inc = np.asarray(each(lambda a, w: M.get_jaumann_increment(a, M.get_spin_tensor(w), jnp.asarray(.01)), s, t))
        cl("jaumann", "the objective increment is not the rotation of the tensor by the spin", inc, S + .01 * (sk @ S - S @ sk))
        cl("jaumann_sym", "the objective increment of a symmetric tensor is not symmetric", inc, np.swapaxes(inc, 1, 2))
        cl("jaumann_trace", "the objective increment changes the trace", np.einsum("nii->n", inc), np.einsum("nii->n", S))
        # first order in dt it is the rotated tensor
        dt = 1e-4
        W = sk; th = np.eye(3) + dt * W + dt ** 2 / 2 * (W @ W)
        rot = np.einsum("nij,njk,nlk->nil", th, S, th)
        g = np.asarray(each(lambda a, w: M.get_jaumann_increment(a, w, jnp.asarray(dt)), s, jnp.asarray(W)))
        cl("jaumann_rotation", "the objective increment is not a rotation to first order", (g - rot) / dt, 0., 4e-4)
    rec.count(states=len(T), distinct=len(T))
    rec.sample(tensor=T[7777].tolist())


def hencky(cfg, rec):
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    T = gen(GEN[cfg["k"]])[cfg["part"]::3] + .5 * np.eye(3)
    det = np.linalg.det(T)
    T = T[np.abs(det) > .05]; det = np.linalg.det(T)
    # a finite number of nearly rigid and nearly singular ones as well
    E = np.array([np.eye(3) + s * t for t in T[:300] for s in (1e-9, 1e-5)] + [np.eye(3) * s for s in (1e-3, 1., 1e3)])
    T = np.concatenate([T, E]); det = np.linalg.det(T)
    b = T @ np.swapaxes(T, 1, 2)
    w, v = np.linalg.eigh(b)
    ref = -np.einsum("nik,nk,njk->nij", v, .5 * np.log(w), v)
    cond = w[:, -1] / w[:, 0]
    case = lambda i: dict(F=T[i].tolist())
    H = np.asarray(each(M.get_hencky_strain, jnp.asarray(T)))
    tol = (1e-12 + 1e-15 * cond)
    ok = lambda d: np.abs(d).reshape(len(T), -1).max(axis=1) <= tol * 50
    rec.true("hencky", "the logarithmic strain is not minus half the logarithm of F F^T", ok(H - ref), got=H, case=case)
    rec.true("hencky_stack", "the batched logarithmic strain differs", ok(np.asarray(M.get_hencky_strain_stack(jnp.asarray(T))) - H), case=case)
    rec.true("volume", "the trace of the logarithmic strain is not minus the logarithm of the volume ratio", ok(np.einsum("nii->n", H) + np.log(np.abs(det))), got=H, case=case)
    rec.count(states=len(T), transitions=3 * len(T), traces=3 * len(T), evals=3 * len(T), distinct=len(T))
    f = jax.jit(jax.vmap(M.get_hencky_strain))
    for R in cube_rotations():
        rec.true("objective", "the logarithmic strain does not rotate with a rotation", ok(np.asarray(f(jnp.asarray(R @ T))) - np.einsum("ij,njk,lk->nil", R, H, R)), case=case)
        rec.true("reference_frame", "the logarithmic strain depends on a rotation of the reference frame", ok(np.asarray(f(jnp.asarray(T @ R))) - H), case=case)
        rec.count(evals=2 * len(T), traces=2 * len(T), transitions=2 * len(T))
    # undone: exp(-2 eps) = F F^T
    w2, v2 = np.linalg.eigh(.5 * (H + np.swapaxes(H, 1, 2)))
    back = np.einsum("nik,nk,njk->nij", v2, np.exp(-2 * w2), v2)
    rec.true("undo", "the exponential of the logarithmic strain is not the deformation", np.abs(back - b).reshape(len(T), -1).max(axis=1) <= 1e-10 * (1 + w[:, -1]) * (1 + 1e-3 * cond), case=case)
    rec.sample(F=T[5].tolist(), eps=H[5].tolist())


def inverse(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    for k, T, f in (("inv3", gen(GEN[cfg["k"]]), M.inv_3x3_robust), ("inv2", np.array(list(itertools.product((-3., -2., -1., 0., .5, 1., 4.), repeat=4))).reshape(-1, 2, 2), M.inv_2x2_robust)):
        n = T.shape[1]
        det = np.linalg.det(T)
        g = np.asarray(each(f, jnp.asarray(T)))
        case = lambda i: dict(matrix=T[i].tolist())
        reg = np.abs(det) > 1e-6
        rec.close(k, "inverse times matrix is not the identity", (g @ T)[reg], np.broadcast_to(np.eye(n), T[reg].shape), 1e-11, case=lambda i: dict(matrix=T[reg][i].tolist()))
        rec.close(k + "_right", "matrix times inverse is not the identity", (T @ g)[reg], np.broadcast_to(np.eye(n), T[reg].shape), 1e-11, case=lambda i: dict(matrix=T[reg][i].tolist()))
        rec.true(k + "_singular", "the inverse of a singular matrix is not finite", np.isfinite(g).all(axis=(1, 2)), case=case)
        rec.count(states=len(T), transitions=2 * len(T), traces=2 * len(T), evals=len(T), distinct=len(T))
        for s in (1e-3, 1e3):
            gs = np.asarray(each(f, jnp.asarray(T * s)))
            rec.close(k + "_scale", "the inverse of a scaled matrix is not the scaled inverse", gs[reg] * s, g[reg], 1e-9, 1e-9, case=lambda i: dict(matrix=T[reg][i].tolist(), scale=s))
            rec.count(evals=len(T), traces=len(T))
    d = np.array([s * 10. ** e for s in (1, -1) for e in range(-12, 13)])
    rec.close("scalar", "the clamped inverse of a scalar is not its inverse", np.asarray(each(lambda x: M.safe_inv_scalar_clamped(x), jnp.asarray(d))), 1 / d, 0, 1e-7, case=lambda i: dict(d=d[i]))
    rec.true("scalar0", "the clamped inverse of zero is not finite", np.isfinite(float(M.safe_inv_scalar_clamped(jnp.asarray(0.)))))
    for mode in ("grad", "jacfwd"):
        D = np.array([s * 10. ** e for s in (1, -1) for e in (-2.9, -2, -1, 0, 1, 3)])
        g = np.asarray(jax.vmap(getattr(jax, mode)(lambda x: M.safe_inv_scalar_clamped(x)))(jnp.asarray(D)))
        rec.close("scalar_slope", "the slope of the clamped inverse is not the true one below the clamp", g, -1 / D ** 2, 0, 1e-6, case=lambda i: dict(d=D[i], mode=mode))
        D2 = np.array([0., 1e-4, -1e-4, 1e-9, -1e-12])
        g = np.asarray(jax.vmap(getattr(jax, mode)(lambda x: M.safe_inv_scalar_clamped(x)))(jnp.asarray(D2)))
        rec.true("scalar_clamp", "the slope of the clamped inverse exceeds the clamp", np.isfinite(g) & (np.abs(g) <= 1e6 * (1 + 1e-9)), got=g, case=lambda i: dict(d=D2[i], mode=mode))
        rec.count(traces=len(D) + len(D2), evals=len(D) + len(D2))
    rec.sample(matrices="all")


def gradients(cfg, rec):
    """Derivatives of the inverses equal the known ones, in both modes."""
    import itertools
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    for k, T, f in (("inv3", gen((-1., 0., 2.))[::7] + .1 * np.eye(3), M.inv_3x3_robust), ("inv2", np.array(list(itertools.product((-3., -1., 0., .5, 4.), repeat=4))).reshape(-1, 2, 2) + .1 * np.eye(2), M.inv_2x2_robust)):
        n = T.shape[1]
        T = T[np.abs(np.linalg.det(T)) > .05]
        inv = np.linalg.inv(T)
        ref = -np.einsum("nij,nkl->njkil", np.swapaxes(inv, 1, 2), np.swapaxes(inv, 1, 2))      # d inv[a,b] / d m[c,d] = -inv[a,c] inv[d,b]
        ref = -np.einsum("nac,ndb->nabcd", inv, inv)
        for mode in ("jacfwd", "jacrev"):
            g = np.asarray(jax.jit(jax.vmap(getattr(jax, mode)(f)))(jnp.asarray(T)))
            rec.close(k + "_slope", "the derivative of the inverse is not the true one", g, ref, 1e-9, 1e-9, case=lambda i: dict(matrix=T[i].tolist(), mode=mode))
            rec.count(states=len(T), transitions=len(T), traces=len(T), evals=len(T), distinct=len(T))
    rec.sample(mode="both")


def conversions(cfg, rec):
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    phi = np.concatenate([np.linspace(.01, 1., 397), [1e-6, 1e-3]]); ph = jnp.asarray(phi)
    e = 1 / phi - 1
    case = lambda i: dict(phi=phi[i])
    cl = lambda k, what, g, x: (rec.close(k, what, g, x, 1e-13, 1e-12, case=case), rec.count(states=len(phi), traces=len(phi), evals=len(phi), transitions=len(phi), distinct=len(phi)))
    cl("phi_e", "void ratio of a solid fraction", each(M.phi_to_e, ph), e); cl("phi_e_stack", "batched", M.phi_to_e_stack(ph), e)
    cl("e_phi", "solid fraction of a void ratio", each(M.e_to_phi, jnp.asarray(e)), phi); cl("e_phi_stack", "batched", M.e_to_phi_stack(jnp.asarray(e)), phi)
    cl("round", "solid fraction to void ratio and back", M.e_to_phi_stack(M.phi_to_e_stack(ph)), phi)
    for rho in (1., 1400., 2650.):
        bulk = jnp.asarray(phi * rho)
        cl("bulk_e", "void ratio of a bulk density", each(lambda b: M.get_e_from_bulk_density(rho, b), bulk), e)
        cl("bulk_phi", "solid fraction of a bulk density", each(lambda b: M.get_phi_from_bulk_density(rho, b), bulk), phi)
        cl("bulk_phi_stack", "batched", M.get_phi_from_bulk_density_stack(rho, bulk), phi)
    # mass balance: the solid fraction follows the volume
    L = gen((-1., 0., 2.))[::5]; tr = np.einsum("nii->n", L)
    for dt in (1e-3, .05):
        for p0 in (.3, .64):
            g = np.asarray(each(lambda l: M.get_phi_from_L(l, p0, dt), jnp.asarray(L)))
            c = lambda i: dict(L=L[i].tolist(), dt=dt, phi=p0)
            rec.true("balance_sign", "the solid fraction grows in expansion or falls in compression", np.sign(np.round(p0 - g, 12)) == np.sign(tr), got=g, case=c)
            rec.true("balance", "the solid fraction does not follow the volume", np.abs(g - p0 * np.exp(-tr * dt)) <= p0 * (tr * dt) ** 2 * np.exp(np.abs(tr * dt) * 2) + 1e-13, got=g, case=c)
            # shear keeps it
            rec.count(states=len(L), traces=2 * len(L), evals=len(L), transitions=len(L), distinct=len(L))
    # kinetic energy, inertial number
    vals = (-2., 0., .5, 3.)
    import itertools
    for dim in (2, 3):
        V = np.array(list(itertools.product(vals, repeat=dim))); m = 1. + np.arange(len(V))
        ref = .5 * m * (V ** 2).sum(axis=1)
        rec.close("ke", "kinetic energy of a point", np.asarray(each(M.get_KE, jnp.asarray(m), jnp.asarray(V))), ref, 1e-12)
        rec.close("ke_stack", "batched kinetic energy", np.asarray(M.get_KE_stack(jnp.asarray(m), jnp.asarray(V))), ref, 1e-12)
        rec.count(traces=2 * len(V), evals=2 * len(V), states=len(V), distinct=len(V))
    P, G = [a.ravel() for a in np.meshgrid([1e-3, 1., 50., 1e5], [0., 1e-4, 1., 30.])]
    for d in (1e-3, .02):
        for rho in (1000., 2650.):
            ref = G * d / np.sqrt(P / rho)
            rec.close("inertial", "the inertial number is not rate times diameter over root of pressure by density", np.asarray(each(lambda p, g: M.get_inertial_number(p, g, d, rho), jnp.asarray(P), jnp.asarray(G))), ref, 1e-13, 1e-12)
            rec.close("inertial_stack", "batched inertial number", np.asarray(M.get_inertial_number_stack(jnp.asarray(P), jnp.asarray(G), d, rho)), ref, 1e-13, 1e-12)
            z = np.asarray(each(lambda p, g: M.get_inertial_number(p, g, d, rho), jnp.asarray(P * 0 - 1.), jnp.asarray(G)))
            rec.true("inertial_free", "the inertial number without pressure is not finite", np.isfinite(z) & (z >= 0))
            rec.count(traces=3 * len(P), evals=3 * len(P), states=len(P), distinct=len(P))
    rec.sample(phi=phi[:3].tolist())


def plane(cfg, rec):
    """Rotations in the plane."""
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    th = np.linspace(-7, 7, 113); vs = np.array([(a, b) for a in (-2., 0., 1.) for b in (-1., 0., 3.)])
    A, I = [a.ravel() for a in np.meshgrid(th, np.arange(len(vs)))]
    V = vs[I]; a, v = jnp.asarray(A), jnp.asarray(V)
    case = lambda i: dict(theta=A[i], v=V[i].tolist())
    ref = np.stack([np.cos(A) * V[:, 0] - np.sin(A) * V[:, 1], np.sin(A) * V[:, 0] + np.cos(A) * V[:, 1]], axis=1)
    g = np.asarray(each(M.rotation_2d, a, v))
    cl = lambda k, what, g, e: (rec.close(k, what, g, e, 1e-13, case=case), rec.count(states=len(A), traces=len(A), evals=len(A), transitions=len(A), distinct=len(A)))
    cl("plane", "a plane rotation is not counter-clockwise by its angle", g, ref)
    cl("plane_inv", "the inverse plane rotation does not undo it", np.asarray(each(M.rotation_2d_inv, a, jnp.asarray(g))), V)
    cl("plane_inv2", "the plane rotation does not undo the inverse", np.asarray(each(M.rotation_2d, a, each(M.rotation_2d_inv, a, v))), V)
    for b in np.linspace(-3, 3, 13):
        cl("plane_compose", "plane rotations do not compose by adding angles", np.asarray(each(lambda x, y: M.rotation_2d(x + b, y), a, v)), np.asarray(each(lambda x, y: M.rotation_2d(b, M.rotation_2d(x, y)), a, v)))
        cl("plane_update", "the angle does not advance by rate times time", np.asarray(each(lambda x: M.rotate_2d_update(x, b, .25), a)), A + .25 * b)
    rec.sample(theta=A[5], v=V[5].tolist())


def norms(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    for dim in (1, 2, 3):
        V = np.array(list(itertools.product((-3., -1e-3, 0., 1e-9, .5, 4.), repeat=dim)))
        n = np.linalg.norm(V, axis=1)
        g = np.asarray(each(lambda x: M.safe_norm(x), jnp.asarray(V)))
        case = lambda i: dict(v=V[i].tolist())
        rec.true("norm", "the safe norm is not the norm within its regularisation", (g >= n) & (g <= n + 1e-6 * (1 + 1e-9)) & (np.abs(g - n) <= 5.1e-13 / np.maximum(n, 1e-7) + 1e-15 * n), got=g, case=case)
        rec.close("norm_axis", "the safe norm along an axis differs", np.asarray(M.safe_norm(jnp.asarray(V), axis=-1)), g, 1e-15, 1e-14, case=case)
        s = np.asarray(each(jax.grad(lambda x: M.safe_norm(x)), jnp.asarray(V)))
        rec.close("norm_slope", "the slope of the safe norm is not the direction", s, V / np.sqrt(n ** 2 + 1e-12)[:, None], 1e-12, case=case)
        rec.count(states=len(V), traces=3 * len(V), evals=3 * len(V), transitions=3 * len(V), distinct=len(V))
    rec.sample(v=V[3].tolist())


def qmat(q):
    import numpy as np
    w, x, y, z = np.moveaxis(q, -1, 0)
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
                     np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], -1),
                     np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1)], -2)


def rodrigues(axis_angle):
    import numpy as np
    a = np.linalg.norm(axis_angle)
    if a == 0:
        return np.eye(3)
    k = axis_angle / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def quaternions(cfg, rec):
    import itertools
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    m = cfg["m"]
    Q = np.array([q for q in itertools.product(range(-m, m + 1), repeat=4) if any(q)], float)
    Q /= np.linalg.norm(Q, axis=1)[:, None]
    R = qmat(Q)
    rot, inv, integ = (jax.jit(jax.vmap(f, in_axes=i)) for f, i in ((M.quaternion_rotate, (0, None)), (M.quaternion_inv, 0), (M.integrate_quaternion, (0, None, None))))
    case = lambda i: dict(q=Q[i].tolist())
    V = [np.array(v, float) for v in itertools.product((-1, 0, 2), repeat=3)]
    qi = np.asarray(inv(jnp.asarray(Q)))
    for v in V:
        g = np.asarray(rot(jnp.asarray(Q), jnp.asarray(v)))
        rec.close("rotate", "rotating by a quaternion is not its rotation", g, R @ v, 1e-13, case=case)
        rec.close("length", "rotating changes the length", np.linalg.norm(g, axis=1), np.linalg.norm(v), 1e-13, case=case)
        back = np.asarray(jax.vmap(M.quaternion_rotate)(jnp.asarray(qi), jnp.asarray(g)))
        rec.close("inverse", "the inverse quaternion does not undo the rotation", back, np.broadcast_to(v, back.shape), 1e-13, case=case)
        rec.count(states=len(Q), traces=3 * len(Q), evals=2 * len(Q), transitions=2 * len(Q), distinct=len(Q))
    cr = np.asarray(rot(jnp.asarray(Q), jnp.asarray(np.array([1., 0, 0]))))
    cs = np.asarray(rot(jnp.asarray(Q), jnp.asarray(np.array([0., 1, 0]))))
    ct = np.asarray(rot(jnp.asarray(Q), jnp.asarray(np.array([0., 0, 1]))))
    rec.close("proper", "the rotation is not proper", np.cross(cr, cs), ct, 1e-13, case=case)
    # one integration step: the rotation about the spin, after the present one
    for w in itertools.product((-1., 0., 2.), repeat=3):
        w = np.array(w)
        for dt in (0., 1e-3, .05, .3):
            n = np.asarray(integ(jnp.asarray(Q), jnp.asarray(w), jnp.asarray(dt)))
            c = lambda i: dict(q=Q[i].tolist(), w=w.tolist(), dt=dt)
            rec.close("unit", "an integrated quaternion is not a unit quaternion", np.linalg.norm(n, axis=1), 1., 1e-11, case=c)
            x = np.linalg.norm(w) * dt
            ref = rodrigues(w * dt) @ R
            rec.close("integrate", "integrating the spin is not the rotation by spin times time", qmat(n), ref, x ** 3 / 6 + 1e-11, case=c)
            rec.count(states=len(Q), traces=2 * len(Q), evals=len(Q), transitions=len(Q), distinct=len(Q))
    rec.sample(q=Q[17].tolist())


def rotation_words(cfg, rec):
    """All sequences of spins up to the depth: the integrated quaternion is the product of the rotations."""
    import itertools
    from mc.env import np, jnp, jax
    from hydraxmpm.utils import math_helpers as M
    letters = [(np.array(w, float), dt) for w, dt in (((1, 0, 0), .2), ((0, 1, 0), .2), ((0, 0, 1), .2), ((0, 0, -1), .2), ((-2, 1, 0), .1), ((0, 3, -1), .05), ((1, 1, 1), .3), ((0, 0, 0), .1), ((5, 0, 0), .02))]
    f = jax.jit(jax.vmap(M.integrate_quaternion))
    q = np.array([[1., 0, 0, 0], [.5, -.5, .5, .5], [0, .6, 0, .8]]); R = qmat(q); err = np.zeros(len(q)); hist = [()] * len(q)
    for d in range(cfg["depth"]):
        W = np.concatenate([np.tile(w, (len(q), 1)) for w, _ in letters]); DT = np.concatenate([np.full(len(q), dt) for _, dt in letters])
        A = np.stack([rodrigues(w * dt) for w, dt in letters])
        E = np.concatenate([err + (np.linalg.norm(w) * dt) ** 3 / 6 + 1e-11 for w, dt in letters])
        R = np.concatenate([a @ R for a in A]); hist = [h + (i,) for i in range(len(letters)) for h in hist]
        q = np.asarray(f(jnp.asarray(np.tile(q, (len(letters), 1))), jnp.asarray(W), jnp.asarray(DT))); err = E
        case = lambda i: dict(word=list(hist[i]))
        rec.close("word_unit", "a word of spins leaves the unit quaternions", np.linalg.norm(q, axis=1), 1., 1e-11, case=case)
        rec.true("word", "a word of spins is not the product of its rotations", np.abs(qmat(q) - R).reshape(len(q), -1).max(axis=1) <= err, case=case)
        rec.count(states=len(q), transitions=len(q), traces=2 * len(q), evals=len(q), distinct=len(q))
    rec.sample(word=list(hist[-1]))
