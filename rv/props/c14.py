"""C14: covariance equalization and principal components."""
import numpy as np
from rv.core import Registry
from rv import gen
from resippy.spectral import spectral_image_processing_1d as s1
from resippy.spectral import spectral_image_processing_2d as s2

P = Registry("C14", "Pairs of well-conditioned scenes of different sizes with optional masks (masked pixels may hold "
                    "garbage); the monitor checks L*C1*L' = C2, that the output image is L applied to every pixel, "
                    "and principal components against an eigendecomposition (up to sign).", boost=40)


def pair(ctx):
    r = ctx.rng
    nb = int(r.choice([1, 2, 3, 5] if not ctx.big else [1, 4, 12, 40, 100]))
    out = []
    for name in ("input", "match"):
        ny, nx = ctx.shape(2, 11, 1e6 / nb, 10 * nb)
        while ny * nx < 5 * nb + 8:
            ny, nx = ny + 1, nx + 2
        sc = 10.0 ** r.uniform(-1, 2)
        c = gen.samples(r, ny * nx, nb, scale=sc, offset=np.zeros(nb)).reshape(ny, nx, nb)
        m = None
        if r.random() < 0.5:
            m = gen.mask_for(r, ny, nx, 4 * nb + 6)[0]
            if r.random() < 0.5:
                c[m.astype(bool)] = 50 * sc
            ctx.cover(name, "masked")
        else:
            ctx.cover(name, "unmasked")
        keep = np.ones((ny, nx), bool) if m is None else m == 0
        mode = r.random() < 0.7
        c = c - c[keep].mean(axis=0) if mode else c
        out.append((c, m, keep))
    ctx.given(scene=out[0][0], match=out[1][0], mask=out[0][1], match_mask=out[1][1])
    ctx.cover("bands", nb)
    return out, nb


def cov(c, keep):
    x = c[keep]
    d = x - x.mean(axis=0)
    return d.T @ d / (len(x) - 1)


@P.scenario(quick=120, thorough=1500, monitors=("transform", "equalized", "agree-1d-2d"), big=16)
def equalization(ctx):
    ((c1, m1, k1), (c2, m2, k2)), nb = pair(ctx)
    cv1, cv2 = cov(c1, k1), cov(c2, k2)
    f1, f2 = c1.reshape(-1, nb), c2.reshape(-1, nb)
    v1 = None if m1 is None else m1.ravel()
    v2 = None if m2 is None else m2.ravel()
    scale = np.max(np.abs(cv2))
    for dim, mod, a, b, ma, mb in (("2d", s2, c1, c2, m1, m2), ("1d", s1, f1, f2, v1, v2)):
        big_l = np.asarray(ctx.call(mod.compute_cov_eq_linear_transform_matrix, a, b, ma, mb))
        ctx.close("transform", big_l @ cv1 @ big_l.T, cv2, dim + " transform does not map one covariance on the other",
                  atol=1e-6 * scale, rtol=0)
        eq = np.asarray(ctx.call(mod.covariance_equalization_mean_centered, a, b, ma, mb))
        ctx.equal("equalized", eq.shape, a.shape, dim + " output shape")
        ctx.close("equalized", eq.reshape(-1, nb), f1 @ big_l.T, dim + " output is not the transform of every pixel",
                  atol=1e-8 * max(1, np.max(np.abs(eq))), rtol=1e-8)
        ctx.close("equalized", cov(eq.reshape(c1.shape), k1), cv2,
                  dim + " equalized scene does not have the target covariance", atol=1e-6 * scale, rtol=0)
    l1 = np.asarray(s1.compute_cov_eq_linear_transform_matrix(f1, f2, v1, v2))
    ctx.close("agree-1d-2d", big_l, l1, "1-D and 2-D transforms differ", atol=1e-8 * np.max(np.abs(l1)), rtol=0)
    # Eq. 15 with q = I: C2^(1/2) C1^(-1/2)
    w1, e1 = np.linalg.eigh(cv1)
    w2, e2 = np.linalg.eigh(cv2)
    want = (e2 * np.sqrt(w2)) @ e2.T @ ((e1 / np.sqrt(w1)) @ e1.T)
    ctx.close("transform", l1, want, "transform is not C2^1/2 C1^-1/2", atol=1e-6 * np.max(np.abs(want)), rtol=0)


@P.scenario(quick=60, thorough=600, monitors=("identity",))
def equalize_to_itself(ctx):
    """A scene equalized to itself is unchanged; equalizing to a scaled copy scales."""
    ((c1, m1, k1), _), nb = pair(ctx)
    eq = np.asarray(ctx.call(s2.covariance_equalization_mean_centered, c1, c1.copy(), m1, m1))
    s = np.max(np.abs(c1))
    ctx.close("identity", eq, c1, "equalizing a scene to itself changes it", atol=1e-7 * s, rtol=0)
    g = float(ctx.rng.choice([0.5, 3.0]))
    eq = np.asarray(ctx.call(s2.covariance_equalization_mean_centered, c1, c1 * g, m1, m1))
    ctx.close("identity", eq, c1 * g, "equalizing to a scaled copy does not scale", atol=1e-6 * s, rtol=0)


@P.scenario(quick=100, thorough=1000, monitors=("pca",), big=12)
def pca(ctx):
    r = ctx.rng
    nb = int(r.choice([2, 3, 4, 6] if not ctx.big else [3, 8, 12, 40]))
    ny, nx = ctx.shape(4, 14, 1e6 / nb if nb < 40 else 150000, 1 if nb < 40 else int(r.choice([1600, 105000])))
    while ny * nx < 6 * nb:
        ny, nx = ny + 1, nx + 1
    q, _ = np.linalg.qr(r.normal(size=(nb, nb)))
    sd = 2.0 ** np.arange(nb)[::-1] if nb <= 6 else np.geomspace(32.0, 1.0, nb)
    z = r.normal(size=(ny * nx, nb))
    z -= z.mean(axis=0)
    z = np.linalg.qr(z)[0] * np.sqrt(ny * nx - 1)
    x = (z * sd) @ q.T + r.normal(size=nb) * 10
    c = x.reshape(ny, nx, nb)
    lay = str(r.choice(["C", "F", "strided"] if ctx.big else ["C", "F", "f4", "strided"]))
    if lay == "F":
        c = np.asfortranarray(c)
    elif lay == "f4":
        c = c.astype(np.float32)
    elif lay == "strided":
        big = np.zeros((ny, nx, 2 * nb))
        big[:, :, ::2] = c
        c = big[:, :, ::2]
    ncomp = None if r.random() < 0.5 else int(r.integers(1, nb + 1))
    whiten = bool(r.random() < 0.4)
    ctx.given(cube=c, n_components=ncomp, whiten=whiten)
    ctx.cover(lay, "all" if ncomp is None else "some", whiten)
    got = np.asarray(ctx.call(s2.compute_image_cube_pca, c.copy(order="K"), n_components=ncomp, whiten=whiten))
    k = nb if ncomp is None else ncomp
    ctx.equal("pca", got.shape, (ny, nx, k), "PCA cube shape")
    d = x - x.mean(axis=0)
    w, e = np.linalg.eigh(d.T @ d / (ny * nx - 1))
    w, e = w[::-1], e[:, ::-1]
    want = d @ e
    if whiten:
        want = want / np.sqrt(w)
    want = want.reshape(ny, nx, nb)[:, :, :k]
    t = 2e-3 if lay == "f4" else 1e-6
    for j in range(k):
        s = np.sign(np.sum(got[:, :, j] * want[:, :, j])) or 1.0
        ctx.close("pca", got[:, :, j] * s, want[:, :, j], "component %d is not the projection on eigenvector" % j,
                  atol=t * np.max(np.abs(want[:, :, j])), rtol=0)
