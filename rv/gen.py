"""Seeded input generators shared by the scenarios."""
import numpy as np


def random_cov(rng, n, lo=0.5, hi=3.0):
    """Well-conditioned symmetric positive-definite matrix with separated eigenvalues."""
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = np.linspace(lo, hi, n) ** 2 * rng.uniform(0.95, 1.05, n)
    return q @ np.diag(ev) @ q.T


def samples(rng, m, n, scale=None, offset=None):
    """m samples of an n-band correlated Gaussian-ish cloud (well conditioned when m > 3n)."""
    scale = 10.0 ** rng.uniform(-2, 3) if scale is None else scale
    offset = rng.normal(size=n) * scale * rng.choice([0.0, 1.0, 5.0]) if offset is None else offset
    l = np.linalg.cholesky(random_cov(rng, n))
    return (rng.normal(size=(m, n)) @ l.T) * scale + offset


def cube(rng, ny, nx, nb, kind=None):
    """An image cube of one of several dtypes / memory layouts."""
    kind = kind or rng.choice(["f8", "f8", "f4", "u2", "i2", "u1", "fortran", "strided"])
    base = samples(rng, ny * nx, nb, scale=1.0, offset=np.zeros(nb))
    if kind in ("u2", "i2", "u1"):
        amp = {"u2": 9000.0, "i2": 4000.0, "u1": 30.0}[kind]
        off = {"u2": 30000.0, "i2": 0.0, "u1": 128.0}[kind]
        hi = {"u2": 65535, "i2": 32767, "u1": 255}[kind]
        lo = {"u2": 0, "i2": -32768, "u1": 0}[kind]
        base = np.clip(np.round(base * amp / 3 + off), lo, hi).astype(kind)
        return base.reshape(ny, nx, nb), str(kind)
    base = base * 10.0 ** rng.uniform(-2, 3) + rng.normal(size=nb) * rng.choice([0.0, 3.0])
    base = base.reshape(ny, nx, nb)
    if kind == "f4":
        base = base.astype(np.float32)
    elif kind == "fortran":
        base = np.asfortranarray(base)
    elif kind == "strided":
        big = np.zeros((ny * 2, nx, nb))
        big[::2] = base
        base = big[::2]
    return base, str(kind)


def mask_for(rng, ny, nx, need, kind=None):
    """Mask (nonzero = excluded) leaving at least ``need`` pixels."""
    n = ny * nx
    kind = kind or rng.choice(["none_set", "random", "block", "one_masked", "most", "checker"])
    m = np.zeros((ny, nx), dtype=int)
    if kind == "random":
        m = (rng.random((ny, nx)) < rng.uniform(0.05, 0.6)).astype(int)
    elif kind == "block":
        y, x = int(rng.integers(0, ny)), int(rng.integers(0, nx))
        m[y:y + max(1, ny // 2), x:x + max(1, nx // 2)] = 1
    elif kind == "one_masked":
        m[int(rng.integers(0, ny)), int(rng.integers(0, nx))] = 1
    elif kind == "most":
        m[:] = 1
        m.ravel()[rng.permutation(n)[:need]] = 0
    elif kind == "checker":
        m[::2, ::2] = 1
    if n - m.sum() < need:
        free = rng.permutation(n)[:need]
        m.ravel()[free] = 0
    dt = rng.choice(["int", "bool", "uint8", "float"])
    m = m.astype({"int": int, "bool": bool, "uint8": np.uint8, "float": float}[str(dt)])
    if str(dt) != "bool" and rng.random() < 0.3:
        # masks that come from images mark pixels with 255, classes with any number
        m[m != 0] = rng.choice([255, 2, 7], int((m != 0).sum()))
    return m, str(kind)


LAYOUTS = ["C", "C", "F", "strided", "reversed", "transposed", "read-only"]


def layout(rng, a, kind=None):
    """The same values, laid out in memory in another way."""
    a = np.asarray(a)
    kind = kind or str(rng.choice(LAYOUTS))
    if a.ndim == 0 or kind == "C":
        return np.array(a)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        big[1::2] = a
        return big[1::2]
    if kind == "reversed":
        return np.array(a[::-1], order="C")[::-1]
    if kind == "transposed":
        return np.ascontiguousarray(a.T).T
    b = np.array(a)
    b.flags.writeable = False
    return b
