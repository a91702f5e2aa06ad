"""Input fields (families) used by the batteries.  Everything is a function of its arguments and of the generator given.
Values are zero or of magnitude within the domain (2^-30 .. 2^30)."""
import numpy as np


def grid(shape):
    return np.meshgrid(*[np.arange(s, dtype=float) for s in shape], indexing='ij')


def _wave(shape, r, c):
    n = [max(s, 2) for s in shape]
    out = np.ones(shape)
    for k, (x, m) in enumerate(zip(grid(shape), n)):
        p = r.uniform(0.5, 4) * x / m * 3.1 + r.uniform(0, 6)
        out = out * np.sin(p)
    return out + r.uniform(-0.2, 0.2)


def _lin(shape, r, c):
    return sum(r.uniform(-1, 1) * (x - r.uniform(0, max(s - 1, 1))) for x, s in zip(grid(shape), shape))


def comp(fam, shape, r, c):
    g = grid(shape)
    n = [max(s, 2) for s in shape]
    N = int(np.prod(shape))
    if fam == 'wave':
        return _wave(shape, r, c)
    if fam == 'waves':
        return _wave(shape, r, c) + 0.4 * _wave(shape, r, c) + 0.2 * _wave(shape, r, c)
    if fam == 'noise':
        return r.uniform(-1, 1, shape)
    if fam == 'smallint':
        return r.integers(-3, 4, shape).astype(float)
    if fam == 'tinyint':
        return r.integers(-1, 2, shape).astype(float)
    if fam == 'signs':
        return r.choice([-1.0, 1.0], shape)
    if fam == 'linear':
        return _lin(shape, r, c)
    if fam == 'intlinear':      # zeros at vertices, on edges; equal cross products
        return sum(float(r.integers(-3, 4)) * (x - float(r.integers(0, max(s, 1)))) for x, s in zip(g, shape))
    if fam == 'bilinear':
        out = _lin(shape, r, c)
        return out + r.uniform(-1, 1) * (g[0] - r.uniform(0, n[0])) * (g[-1] - r.uniform(0, n[-1])) / max(n)
    if fam == 'saddle':
        x = g[0] - (n[0] - 1) * 0.47 - 0.13
        y = g[-1] - (n[-1] - 1) * 0.53 + 0.21
        z = g[1] - (n[1] - 1) * 0.41 if len(shape) == 3 else 0
        return [x + 0.5 * y, y - 0.25 * x + 0.1 * z, (z - x) * 0.5 + 0.3 * y][c] * 0.37
    if fam == 'vortex':
        x = g[0] - (n[0] - 1) * 0.47 - 0.13
        y = g[-1] - (n[-1] - 1) * 0.53 + 0.21
        q = np.exp(-(x * x + y * y) / (0.1 * n[0] * n[-1] + 1))
        return [-y * q, x * q, q - 0.4][c] + 0.01 * (c - 0.5)
    if fam == 'vortices':
        out = np.zeros(shape)
        q = np.random.default_rng(N + len(shape))     # the same vortices for all components
        for _ in range(6):
            x0, y0, s = q.uniform(0, n[0]), q.uniform(0, n[-1]), q.choice([-1, 1])
            x, y = g[0] - x0, g[-1] - y0
            e = np.exp(-(x * x + y * y) / (0.03 * n[0] * n[-1] + 1)) * s
            out = out + [-y * e, x * e, e][c]
        return out + r.uniform(-0.02, 0.02)
    if fam == 'zeros':
        return np.zeros(shape)
    if fam == 'onezero':        # one component is identically zero
        return np.zeros(shape) if c == 0 else r.uniform(-1, 1, shape)
    if fam == 'const':
        return np.full(shape, [1.5, -0.75, 0.3][c])
    if fam == 'sparse':
        a = r.uniform(-1, 1, shape)
        a[r.uniform(0, 1, shape) < 0.7] = 0
        return a
    if fam == 'spikes':
        a = _wave(shape, r, c) * 0.1
        k = r.uniform(0, 1, shape) < 0.03
        a[k] = r.uniform(-1000, 1000, int(k.sum()))
        return a
    if fam == 'hugerange':
        return r.choice([-1, 1], shape) * 10.0 ** r.uniform(-8.5, 8.5, shape)
    if fam == 'widerange':
        return r.choice([-1, 1], shape) * 10.0 ** r.uniform(-3, 3, shape)
    if fam == 'widezero':
        a = r.choice([-1, 1], shape) * 10.0 ** r.uniform(-4, 4, shape)
        a[r.uniform(0, 1, shape) < 0.2] = 0
        return a
    if fam == 'positive':
        return r.uniform(0.5, 1.5, shape)
    if fam == 'negative':
        return -r.uniform(0.5, 1.5, shape) * (1 + c)
    if fam == 'big':
        return r.uniform(-1, 1, shape) * 1e6 + 3e5 * c
    if fam == 'steps':
        return np.where(np.sin(g[0] * 0.9 + c) * np.cos(g[-1] * 0.7 - c) > 0, 1.0, -1.0) * (1 + c) + 0.25 * np.floor(g[-1] / 3)
    if fam == 'smooth_noise':
        return _wave(shape, r, c) + 0.02 * r.uniform(-1, 1, shape)
    if fam == 'deep':           # many critical points at the scale of a cell
        return r.uniform(-1, 1, shape) * np.where(r.uniform(0, 1, shape) < 0.5, 1.0, 0.01)
    if fam == 'halves':         # smooth half, noisy half
        return np.where(g[0] < n[0] / 2, _wave(shape, r, c), r.uniform(-2, 2, shape))
    if fam == 'zeroborder':
        a = r.uniform(0.2, 1, shape) * r.choice([-1, 1])
        a[0] = 0
        a[..., -1] = 0
        return a
    if fam == 'quad':
        return sum(r.uniform(-1, 1) * (x - r.uniform(0, m)) ** 2 / m for x, m in zip(g, n)) - r.uniform(0, 1)
    if fam == 'rot':            # rigid rotation about a grid vertex or an edge midpoint
        x = g[0] - (n[0] // 2)
        y = g[-1] - (n[-1] // 2) - 0.5 * (N % 2)
        return [-y, x, x + y][c]
    if fam == 'growth':         # jumps of growing size: quantization codes up to and beyond the capacity
        return np.cumsum(r.uniform(-1, 1, N) * 2.0 ** r.uniform(-4, 12, N)).reshape(shape)
    if fam == 'walk':
        return np.cumsum(r.uniform(-1, 1, N)).reshape(shape)
    if fam == 'ulps':           # values one rounding apart
        return 1.0 + r.integers(-3, 4, shape) * 2.0 ** -23
    raise ValueError(fam)


def simplices(shape):
    """a sample of the triangles or tetrahedra of a grid, as lists of raster positions"""
    if len(shape) == 2:
        r1, r2 = shape
        return [t for i in range(r1 - 1) for j in range(r2 - 1) for a in [i * r2 + j]
                for t in ((a, a + r2, a + r2 + 1), (a, a + 1, a + r2 + 1))]
    r1, r2, r3 = shape
    six = [((0, 0, 1), (0, 1, 1)), ((0, 1, 0), (0, 1, 1)), ((0, 0, 1), (1, 0, 1)), ((1, 0, 0), (1, 0, 1)), ((0, 1, 0), (1, 1, 0)),
           ((1, 0, 0), (1, 1, 0))]
    o = lambda d: d[0] + d[1] * r3 + d[2] * r2 * r3
    return [(a, a + o(p), a + o(q), a + o((1, 1, 1))) for i in range(r1 - 1) for j in range(r2 - 1) for k in range(r3 - 1)
            for a in [i * r2 * r3 + j * r3 + k] for p, q in six]


def near(shape, r, ncomp):
    """random vectors; in some simplices the zero lies just inside or just outside"""
    n, m = int(np.prod(shape)), len(shape) + 1
    a = r.uniform(-1, 1, (n, ncomp))
    sp = simplices(shape)
    for _ in range(max(1, n // 6) if sp else 0):
        q = r.permutation(sp[r.integers(len(sp))])
        w = r.uniform(.1, 1, m)
        w[0] = r.choice([-1, 1]) * 10.0 ** r.uniform(-3.5, -0.7)
        a[q[1]] = -(w[0] * a[q[0]] + sum(w[k] * a[q[k]] for k in range(2, m))) / w[1]
    if r.integers(0, 3) == 0:
        a *= 10.0 ** r.uniform(-1.5, 1.5, (n, 1))
    return [a[:, c].reshape(shape) for c in range(ncomp)]


def nearedge(shape, r, ncomp):
    """as near, but the zero lies close to an edge or a vertex of the simplex"""
    n, m = int(np.prod(shape)), len(shape) + 1
    a = r.uniform(-1, 1, (n, ncomp))
    sp = simplices(shape)
    for _ in range(max(1, n // 6) if sp else 0):
        q = r.permutation(sp[r.integers(len(sp))])
        w = r.uniform(.1, 1, m)
        for k in range(int(r.integers(1, m))):
            w[0 if k == 0 else m - k] = r.choice([-1, 1]) * 10.0 ** r.uniform(-2, -0.3)
        a[q[1]] = -(w[0] * a[q[0]] + sum(w[k] * a[q[k]] for k in range(2, m))) / w[1]
    return [a[:, c].reshape(shape) for c in range(ncomp)]


def nearkind(shape, r, ncomp):
    """a linear field whose critical point is about to change its kind, slightly disturbed"""
    b, c, d = r.uniform(-1, 1, 3)
    t = r.choice([-1, 1]) * 10.0 ** r.uniform(-3, -0.5)
    k = r.integers(0, 3)
    if k == 0:
        a = -d + t                                   # trace about 0
    elif k == 1:
        a = b * c / d if abs(d) > .1 else b * c      # determinant about 0
        a = a + t
    else:
        c = -((t + d) ** 2) / (4 * b) if abs(b) > .05 else c      # discriminant about 0: (a-d)^2 + 4bc
        a = t + 2 * d
        c = c * (1 + r.choice([-1, 1]) * 10.0 ** r.uniform(-3, -0.7))
    g = grid(shape)
    x, y = g[-1] - r.uniform(0, max(shape[-1] - 1, 1)), g[0] - r.uniform(0, max(shape[0] - 1, 1))
    e = 10.0 ** r.uniform(-5, -1.5)
    out = [a * x + b * y, c * x + d * y, x - y][:ncomp]
    return [o + e * r.uniform(-1, 1, shape) for o in out]


def nearcell(shape, r, ncomp):
    """bilinear interpolant with a zero close to the side of the first cell, or two zeros about to merge"""
    a = [r.uniform(-1, 1, shape) for _ in range(ncomp)]
    g = grid(shape)
    p, q = r.uniform(0.05, .95, 2)
    if r.integers(0, 2):
        t = r.choice([-1, 1]) * 10.0 ** r.uniform(-3, -0.7)
        p = [t, 1 + t][r.integers(0, 2)]
        if r.integers(0, 2):
            p, q = q, p
        for c in range(ncomp):
            k = a[c].ravel()
            w = a[c].shape[-1]
            if min(shape) < 2 or len(shape) != 2:
                continue
            f = (1 - p) * (1 - q) * k[0] + p * (1 - q) * k[1] + (1 - p) * q * k[w] + p * q * k[w + 1]
            a[c] = a[c] - f
    else:
        x, y = g[-1] - p, g[0] - q
        gx, gy, k = r.uniform(-1, 1, 3)
        a[0] = gx * x + gy * y + r.uniform(-1, 1) * x * y
        a[1] = k * (gx * x + gy * y) + r.uniform(-1, 1) * x * y + r.choice([-1, 1]) * 10.0 ** r.uniform(-3, -1)
    return a


JOINT = dict(near=near, nearedge=nearedge, nearkind=nearkind, nearcell=nearcell)


def field(fam, shape, r, ncomp, typ, scale=1.0):
    if fam in JOINT:
        out = [a * scale for a in JOINT[fam](shape, r, ncomp)] if ncomp > 1 else [r.uniform(-1, 1, shape) * scale]
    else:
        out = [comp(fam, shape, r, c) * scale for c in range(ncomp)]
    if typ == 'float':
        out = [a.astype(np.float32).astype(np.float64) for a in out]
    out = [np.where(np.abs(a) < 2.0 ** -30, 0.0, np.clip(a, -2.0 ** 30, 2.0 ** 30)) for a in out]
    return out


ALL = ['wave', 'waves', 'noise', 'smallint', 'tinyint', 'signs', 'linear', 'intlinear', 'bilinear', 'saddle', 'vortex', 'vortices',
       'zeros', 'onezero', 'const', 'sparse', 'spikes', 'hugerange', 'widerange', 'widezero', 'positive', 'negative', 'big', 'steps',
       'smooth_noise', 'deep', 'halves', 'zeroborder', 'quad', 'rot', 'growth', 'walk', 'ulps', 'near', 'nearkind', 'nearcell']
