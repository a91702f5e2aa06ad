"""What is asked of the library, property by property: lists of calls, each a function of the seed."""
import itertools
import numpy as np
import fields
from h import Call, Job, F_BI, F_TRANSPOSE, F_ZSTD, F_DIRTY, F_NODEC, F_FRESH, F_TAIL

ABS2 = ['sz3_abs', 'online_abs', 'relax']
REL2 = ['online', 'online_log', 'offline', 'offline_log']
VEC3 = ['off3', 'log3', 'unst3', 'abs3']
SCAL = ['sz2d', 'sz3d']
PWR = ['pwr2d', 'pwr2d_eb']
FLOAT_ONLY = {'sz2d', 'pwr2d', 'pwr2d_eb'}
FAM = fields.ALL


def types(op):
    return ('float',) if op in FLOAT_ONLY else ('float', 'double')


def shape2(r, big=True):
    k = r.integers(0, 10)
    if k < 2:
        return tuple(int(x) for x in r.integers(1, 6, 2))
    if k < 5:
        return tuple(int(x) for x in r.integers(2, 14, 2))
    if k < 7:
        s = (int(r.integers(1, 4)), int(r.integers(2, 150)))
        return s if r.integers(0, 2) else s[::-1]
    if k < 9 or not big:
        return tuple(int(x) for x in r.integers(10, 48, 2))
    return tuple(int(x) for x in r.integers(48, 110, 2))


def shape3(r, big=True):
    k = r.integers(0, 10)
    if k < 3:
        return tuple(int(x) for x in r.integers(1, 5, 3))
    if k < 6:
        return tuple(int(x) for x in r.integers(2, 9, 3))
    if k < 8:
        s = [int(r.integers(1, 3)), int(r.integers(1, 9)), int(r.integers(2, 30))]
        return tuple(s[i] for i in r.permutation(3))
    return tuple(int(x) for x in r.integers(5, 17 if big else 12, 3))


def scale(r):
    return 1.0 if r.integers(0, 3) else float(2.0 ** r.integers(-10, 11))


def span(arrays):
    m = max(float(np.abs(a).max()) for a in arrays)
    return m if m > 0 else 1.0


def abs_eb(r, arrays):
    k = r.integers(0, 8)
    m = span(arrays)
    if k == 0:
        return m * 10.0 ** r.uniform(0, 1.5)       # larger than the values
    if k == 1:
        return m * 10.0 ** r.uniform(-7, -5)
    return m * 10.0 ** r.uniform(-5, -0.3)


def rel_eb(r):
    k = r.integers(0, 8)
    if k == 0:
        return float(r.uniform(0.5, 0.999))
    if k == 1:
        return float(10.0 ** r.uniform(-5, -3.5))
    return float(10.0 ** r.uniform(-3.5, -0.3))


# six tetrahedra of each cell, offsets (column, row, layer)
TC = [[(0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1)], [(0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 1)],
      [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)], [(0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1)],
      [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)], [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)]]


def tets(s):
    r1, r2, r3 = s
    if min(s) < 2:
        return np.zeros((0, 4), int)
    i, j, k = np.meshgrid(np.arange(r1 - 1), np.arange(r2 - 1), np.arange(r3 - 1), indexing='ij')
    a = (i * r2 * r3 + j * r3 + k).ravel()
    return np.concatenate([np.stack([a + z * r2 * r3 + y * r3 + x for (x, y, z) in t], 1) for t in TC])


def vec2(op, typ, fam, shape, r, eb=None, flags=0, sc=None):
    a = fields.field(fam, shape, r, 2, typ, scale(r) if sc is None else sc)
    rel = op in REL2 or op == 'bilinear'
    e = eb if eb is not None else rel_eb(r) if rel else abs_eb(r, a)
    return Call(op, typ, shape, e, a, flags=flags, fam=fam)


def vec3(op, typ, fam, shape, r, eb=None, flags=0, sc=None):
    a = fields.field(fam, shape, r, 3, typ, scale(r) if sc is None else sc)
    e = eb if eb is not None else abs_eb(r, a) if op == 'abs3' else rel_eb(r)
    if op != 'unst3':
        return Call(op, typ, shape, e, a, flags=flags, fam=fam)
    t = tets(shape)
    n = int(np.prod(shape))
    perm = r.permutation(n)
    d = np.stack([x.ravel() for x in a], 1)
    dp = np.empty_like(d)
    dp[perm] = d
    t2 = perm[t]
    if len(t2):
        t2 = t2[r.permutation(len(t2))]
        if r.integers(0, 2):      # a mesh with holes, and vertices in any order within a tetrahedron
            t2 = t2[: max(1, int(len(t2) * r.uniform(0.3, 1)))]
            t2 = np.array([x[r.permutation(4)] for x in t2])
    return Call(op, typ, (n, 1, 1), e, [np.zeros(3 * n), dp, t2.astype(float)], flags=flags, fam=fam)


def scal(op, typ, fam, shape, r, eb=None, flags=None, bsize=None, sc=None):
    a = fields.field(fam, shape, r, 1, typ, scale(r) if sc is None else sc)
    if bsize is None:
        bsize = int(r.choice([4, 5, 6, 8, 10, 16, 20])) if '2d' in op else int(r.choice([4, 5, 6, 7, 8]))
    if flags is None:
        flags = F_BI * int(r.integers(0, 2))
    n = int(np.prod(shape))
    if op in ('pwr2d', 'pwr2d_eb'):
        e = eb if eb is not None else rel_eb(r)
    else:
        e = eb if eb is not None else abs_eb(r, a)
    if op.endswith('_eb'):
        k = r.integers(0, 8)
        top = e
        if k == 0:
            v = np.full(n, top)
        elif k == 1:
            v = top * r.choice([0, 1e-3, 0.1, 1], n, p=[.1, .2, .3, .4])
        elif k == 2:
            v = top * 2.0 ** r.uniform(-20, 0, n)
        elif k == 3:
            v = top * (np.arange(n) % 7 != 0)
        elif k == 4:
            v = top * (0.05 + 0.95 * (np.arange(n) / max(n - 1, 1)))
        elif k == 5:
            v = top * (1 - 0.95 * (np.arange(n) / max(n - 1, 1)))
        elif k == 6:      # slowly varying, by very little or much
            v = top * (1 - 10.0 ** r.uniform(-5, 0) * 0.5 * (1 + np.sin(np.arange(n) * 10.0 ** r.uniform(-3, 0))))
        else:             # the same in each row, column or block
            q = np.arange(n)
            w = shape[-1]
            u = q // w if r.integers(0, 2) else q % w
            v = top * r.choice([1, .5, .25, .1, .01, 0], 7)[(u // int(r.choice([1, 2, 6]))) % 7]
        a = a + [v]
    return Call(op, typ, shape, e, a, bsize=bsize, flags=flags, fam=fam)


def make(op, typ, fam, r, big=True, flags=0):
    if op in ABS2 + REL2 + ['bilinear']:
        return vec2(op, typ, fam, shape2(r, big), r, flags=flags)
    if op in VEC3:
        return vec3(op, typ, fam, shape3(r, big), r, flags=flags)
    return scal(op, typ, fam, shape2(r, big) if '2d' in op else shape3(r, big), r, flags=flags | F_BI * int(r.integers(0, 2)))


def cost(c):
    return sum(a.size for a in c.arrays)


def sweep(ops, r, budget, fams=FAM, big=True, flags=0):
    """every (method, type, family) in turn, with random shapes, bounds and modes, until the budget of values is spent"""
    out, spent = [], 0
    while spent < budget:
        for fam in fams:
            for op in ops:
                for typ in types(op):
                    c = make(op, typ, fam, r, big, flags)
                    out.append(c)
                    spent += cost(c)
    return out


def tiny(ops, r, count, fams):
    """many fields of a few cells, where a single delicate simplex decides; bounds are large"""
    out = []
    while len(out) < count:
        for fam in fams:
            for op in ops:
                for typ in types(op):
                    if op in VEC3:
                        s = [(2, 2, 2), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2), (3, 3, 3)][r.integers(0, 6)]
                        a = fields.field(fam, s, r, 3, typ, 1.0)
                        e = span(a) * 10.0 ** r.uniform(-1.5, .5) if op == 'abs3' else float(r.uniform(.1, .98))
                        out.append(vec3(op, typ, fam, s, r, eb=e, sc=1.0) if op == 'unst3' else Call(op, typ, s, e, a, fam=fam))
                    else:
                        s = [(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)][r.integers(0, 6)]
                        a = fields.field(fam, s, r, 2, typ, 1.0)
                        e = span(a) * 10.0 ** r.uniform(-1.5, .5) if op in ABS2 else float(r.uniform(.05, .98))
                        out.append(Call(op, typ, s, e, a, fam=fam))
    return out


def large2(ops, r, shapes, fams=('waves', 'vortices', 'smooth_noise', 'noise')):
    return [vec2(op, types(op)[int(r.integers(0, 2))], fam, s, r, sc=1.0)
            for op, fam, s in zip(itertools.cycle(ops), itertools.cycle(fams), [s for s in shapes for _ in ops])]


def rng(prop, tier, seed):
    return np.random.default_rng([seed, sum(ord(ch) * 257 ** i for i, ch in enumerate(prop)), 1 if tier == 'thorough' else 0])


# ---- symbol sequences -------------------------------------------------------------------------------------------
def fib_counts(total):
    f = [1, 1]
    while sum(f) < total:
        f.append(f[-1] + f[-2])
    return f


def huff(states, sym, **m):
    return Call('huffman', 'float', (states, 1, 1), 0, [np.asarray(sym, float)], flags=F_TAIL, **m)


def canonical(op, d, vals, counts):
    """a sequence as runs; adjacent runs differ"""
    v, c = [], []
    for a, b in zip(vals, counts):
        if b <= 0:
            continue
        if v and v[-1] == a:
            c[-1] += int(b)
        else:
            v.append(int(a)); c.append(int(b))
    return Call(op, 'float', (d, 1, 1), 0, [np.array(v, float), np.array(c, float)], flags=F_TAIL)


def runs(r, thorough=False):
    """code words longer than 32 bits (16 million symbols), more than 2^24 symbols, long runs between rare symbols"""
    out = []
    big = [15 * 10 ** 6] + ([70 * 10 ** 6] if thorough else [])
    for total in [500, 3000] + [int(10 ** r.uniform(2, 6.3)) for _ in range(40 if thorough else 8)] + big:
        f = fib_counts(total)
        k = len(f)
        a = list(range(k))
        out.append(canonical('runs', k, a, f))
        if total < 2 * 10 ** 6 or thorough:
            out.append(canonical('runs', 1024, [3 * x + 2 for x in a[::-1]], f[::-1]))
        # the rare ones everywhere between pieces of the others
        pieces = [(a[i], c) for i, f1 in enumerate(f) for c in r.multinomial(f1, np.ones(min(f1, 9)) / min(f1, 9)) if c]
        o = r.permutation(len(pieces))
        out.append(canonical('runs', 65536, [1000 * pieces[i][0] + 17 for i in o], [pieces[i][1] for i in o]))
    out.append(canonical('runs', 65536, [4, 65535, 4, 0, 4], [2 ** 24, 1, 5, 2, 2 ** 23 + 1]))
    out.append(canonical('runs', 512, [9], [2 ** 24 + 1]))
    for total in (10 ** 5, 2 ** 24 + 3):
        n = 400
        c = r.multinomial(total - n, r.dirichlet(np.full(n, .1))) + 1
        out.append(canonical('flagruns', 1, [i % 2 for i in range(n)], c))
        out.append(canonical('flagruns', 1, [1 - i % 2 for i in range(n)], c))
    return out


def huffman(r, budget):
    out = [huff(512, []), huff(1, [0, 0]), huff(1, [0]), huff(2, [0, 1, 1]), huff(512, [7]), huff(512, [7] * 1000),
           huff(512, [0, 511] * 9), huff(65536, [65535]), huff(131072, [131071, 0, 131071])]
    for k in (1, 2, 3, 4, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000, 4000):
        for st in {k, k + 1, 2 * k, 1024 * ((k + 1023) // 1024), 65536}:
            s = np.concatenate([np.arange(k), r.integers(0, k, r.integers(1, 400))])
            m = max(1, st // k)
            s = r.permutation(s) * m
            out.append(huff(st, s, k=k))
    for k in (32766, 32767, 32768, 32769, 32770, 33000, 40000):
        s = np.concatenate([np.arange(k), r.integers(0, k, 500)])
        out.append(huff(65536 if k < 65536 else 131072, s, k=k))
        out.append(huff(131072, s * 3 % 131072, k=k))
    for total in (20, 100, 1000, 20000, 120000):
        f = fib_counts(total)
        s = np.repeat(np.arange(len(f)), f)
        out += [huff(len(f), s), huff(1024, r.permutation(s)), huff(1024, s[::-1] * 3 + 5)]
    for n in (66000, 300000):      # more than 2^16 of several symbols
        out.append(huff(64, r.choice([3, 9, 27, 60], n, p=[.5, .2, .16, .14])))
    spent = sum(cost(c) for c in out)
    while spent < budget:
        st = int(2 ** r.uniform(0, 17))
        k = max(1, int(min(st, 2 ** r.uniform(0, 12))))
        n = int(2 ** r.uniform(0, 12))
        alpha = r.choice(st, k, replace=False)
        w = r.dirichlet(np.full(k, 10.0 ** r.uniform(-2, 2)))
        c = huff(st, alpha[r.choice(k, n, p=w)], k=k)
        out.append(c)
        spent += n + 64
    return out


def bits(r, budget):
    out = []
    for n in range(1, 70):
        for pat in (np.zeros(n), np.ones(n), np.arange(n) % 2, r.integers(0, 2, n), (np.arange(n) == n - 1) * 1.0, (np.arange(n) == 0) * 1.0):
            out.append(Call('bits', 'float', (n, 1, 1), 0, [np.asarray(pat, float)]))
    for n in (65536, 65537, 140003):
        out.append(Call('bits', 'float', (n, 1, 1), 0, [(r.uniform(0, 1, n) < .5) * 1.0]))
    spent = sum(cost(c) for c in out)
    while spent < budget:
        n = int(2 ** r.uniform(0, 15))
        out.append(Call('bits', 'float', (n, 1, 1), 0, [(r.uniform(0, 1, n) < r.uniform(0, 1)) * 1.0]))
        spent += n
    return out


def lossless(r, budget):
    out, spent = [], 0
    ns = [0, 1, 2, 3, 50, 82, 83, 84, 85, 98, 99, 100, 101, 102, 200, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 131072, 200000]
    for n in ns:
        for lv in (1, 3, 19, 22):
            out.append(Call('lossless', 'float', (n, 1, 1), lv, [r.integers(0, 256, n)]))
            out.append(Call('lossless', 'float', (n, 1, 1), lv, [(np.arange(n) // 7) % 5]))
    for n, lv, noise in ((5000001, 3, 1), (5000001, 3, 0), (1 << 22, 1, 1), (1000000, 19, 0)):
        out.append(Call('lossless', 'float', (n, 1, 1), lv, [r.integers(0, 256, n) if noise else np.arange(n) // 7 % 251]))
    while spent < budget:
        n = int(2 ** r.uniform(0, 16))
        kind = r.integers(0, 3)
        a = r.integers(0, 256, n) if kind == 0 else np.repeat(r.integers(0, 256, n // 9 + 1), 9)[:n] if kind == 1 else np.zeros(n)
        out.append(Call('lossless', 'float', (n, 1, 1), int(r.integers(1, 23)), [a]))
        spent += n
    return out


def files(r, budget):
    out, spent = [], 0
    for n in list(range(0, 20)) + [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65536, 65537]:
        for t in ('float', 'double'):
            for tail in {0, 1, (8 if t == 'double' else 4) - 1, int(r.integers(0, 4))}:
                out.append(Call('file', t, (n, 1, 1), 0, [r.uniform(-1, 1, n).astype(np.float32)], bsize=tail, flags=F_DIRTY * int(r.integers(0, 2))))
    for t, n, tail in (('float', 262145, 0), ('double', 131073, 3), ('float', 1048579, 2), ('double', 600000, 0)):
        out.append(Call('file', t, (n, 1, 1), 0, [r.uniform(-1, 1, n).astype(np.float32)], bsize=tail, flags=F_DIRTY * int(n % 2)))
    while spent < budget:
        n = int(2 ** r.uniform(0, 14))
        t = ['float', 'double'][r.integers(0, 2)]
        a = fields.field(str(r.choice(FAM)), (n,), r, 1, t) if n > 1 else [np.ones(1)]
        out.append(Call('file', t, (n, 1, 1), 0, a, bsize=int(r.integers(0, 8 if t == 'double' else 4)), flags=F_DIRTY * int(r.integers(0, 2))))
        spent += n + 50
    return out


def stats(r, budget):
    out, spent = [], 0
    while spent < budget:
        n = int(r.integers(1, 6)) if r.integers(0, 2) else int(2 ** r.uniform(0, 10.5))
        t = ['float', 'double'][r.integers(0, 2)]
        s = (n,) if n > 1 else (2,)
        a = fields.field(str(r.choice(FAM)), s, r, 1, t, scale(r))[0][:n]
        k = r.integers(0, 6)
        m = span([a])
        if k == 0:
            d = a.copy()
        elif k == 1:
            d = a + m * 10.0 ** r.uniform(-6, 0) * r.uniform(-1, 1, n)
        elif k == 2:
            d = a.copy(); d[r.integers(0, n)] += m * r.uniform(-2, 2)
        elif k == 3:
            d = r.permutation(a)
        elif k == 4:
            d = -a
        else:
            d = a.copy(); d[[0, -1][r.integers(0, 2)]] -= m * 10.0 ** r.uniform(-4, 0)
        if t == 'float':
            d = d.astype(np.float32).astype(np.float64)
        d = np.where(np.abs(d) < 2.0 ** -30, 0.0, np.clip(d, -2.0 ** 30, 2.0 ** 30))
        out.append(Call('verify', t, (n, 1, 1), 0, [a, d]))
        spent += n + 20
    for n in (65536, 66000, 300000):
        a = r.uniform(-5, 5, n).astype(np.float32).astype(float)
        d = a.copy()
        d[-1 if n == 66000 else 5] += 0.5
        out.append(Call('verify', ['float', 'double'][n == 66000], (n, 1, 1), 0, [a, d]))
    return out


# ---- groups of related calls ----------------------------------------------------------------------------------
ALLOPS = ABS2 + REL2 + ['bilinear'] + VEC3 + ['sz2d', 'sz2d_eb', 'sz3d', 'pwr2d', 'pwr2d_eb']


def again(c, flags=None, group=0):
    d = Call.__new__(Call)
    d.__dict__.update(c.__dict__)
    d.flags = (c.flags & (F_BI | F_TRANSPOSE)) | (flags or 0)
    d.group = group
    return d


def decoy(r):
    op = str(r.choice(ALLOPS + ['sz3d_eb']))
    return make(op, types(op)[-1], str(r.choice(FAM)), r, big=False)


def kin(op, r):
    """calls that differ from one another in one respect each"""
    t = types(op)[int(r.integers(0, len(types(op))))]
    fam = str(r.choice(['waves', 'noise', 'smallint', 'walk']))
    x = make(op, t, fam, r, big=False)
    out = [x]

    def alter(**k):
        d = again(x)
        d.__dict__.update(k)
        out.append(d)
    if op != 'unst3':
        q = x.dims
        if op in VEC3 + ['sz3d', 'sz3d_eb']:
            alter(dims=(q[1], q[2], q[0]))
            alter(dims=(q[2], q[0] * q[1], 1))
        else:
            alter(dims=(q[1], q[0], 1))
            alter(dims=(1, q[0] * q[1], 1))
    alter(eb=x.eb / 2)
    alter(flags=x.flags ^ F_BI)
    if op in SCAL or x.bsize:
        alter(bsize=x.bsize + 1)
    a = [np.array(v) for v in x.arrays]
    k = 1 if op == 'unst3' else 0
    a[k] = a[k] * .5
    alter(arrays=a)
    if len(types(op)) > 1:
        y = again(x)
        y.typ = [u for u in types(op) if u != t][0]
        y.arrays = [v.astype(np.float32).astype(float) if v.size == x.arrays[k].size else v for v in x.arrays]
        out.append(y)
    out.append(make(op, t, fam, r, big=False))
    return out


def pack(calls, maxcalls=16, maxcost=30000, timeout=60):
    """jobs of consecutive calls"""
    jobs, cur, spent = [], [], 0
    for c in calls:
        if cur and (len(cur) >= maxcalls or spent + cost(c) > maxcost):
            jobs.append(Job(cur, timeout))
            cur, spent = [], 0
        cur.append(c)
        spent += cost(c)
    if cur:
        jobs.append(Job(cur, timeout))
    return jobs


def place(op, typ, shape, r):
    """a field whose elements are all further apart than the bound, in raster order or shuffled"""
    n = int(np.prod(shape))
    nc = 3 if op in VEC3 else 2 if op in ABS2 + REL2 + ['bilinear'] else 1
    rel = op in REL2 + ['bilinear', 'off3', 'log3', 'unst3'] + PWR
    arrs = []
    for c in range(nc):
        order = np.arange(n) if r.integers(0, 2) else r.permutation(n)
        arrs.append((1.0 + order + 0.25 * c).reshape(shape))
    eb = 0.1 / (n + 2) if rel else 0.2
    if op in PWR or rel:
        eb = max(eb, 2.0 ** -12)
    if op == 'unst3':
        c = vec3(op, typ, 'zeros', shape, r)
        d = np.stack([a.ravel() for a in arrs], 1)
        return Call(op, typ, (n, 1, 1), eb, [c.arrays[0], d, c.arrays[2]], fam='place')
    bs = int(r.choice([4, 5, 6, 8, 10])) if nc == 1 else 0
    if op.endswith('_eb'):
        arrs.append(np.full(n, eb))
    return Call(op, typ, shape, eb, arrs, bsize=bs, flags=F_BI * int(r.integers(0, 2)) if nc == 1 else 0, fam='place')


MARKS = [1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768,
         65535, 65536, 131072]      # sizes of tables and of alphabets, their halves and doubles


def quantum(op, typ, shape, r):
    """values that differ by a whole number of bounds (or nearly): residuals that reach the last bin of a quantizer, and beyond"""
    n = int(np.prod(shape))
    nc = 3 if op in VEC3 else 2 if op in ABS2 + REL2 + ['bilinear'] else 1
    rel = op in REL2 + ['bilinear', 'off3', 'log3', 'unst3'] + PWR
    eb = float(2.0 ** r.integers(-12, -1)) if rel else float(2.0 ** r.integers(-6, 7))
    step = 2 * np.log2(1 + eb) if rel else eb
    top = 12 / step if rel else 1e9
    arrs = []
    for c in range(nc):
        marks = np.array([m for m in MARKS if m < top] or [1.0], float)
        if r.integers(0, 2):
            marks = marks[r.integers(0, len(marks))] * np.ones(1)
        k = r.choice(marks, n) * r.choice([-1, 1, 1, -2], n, p=[.4, .3, .2, .1]) + r.choice([0, .5, -.5, 1, -1, 1e-3], n)
        k = np.where(r.uniform(0, 1, n) < r.choice([0.02, 0.2, 0.5, 1]), k, r.choice([0, 0, 0, .3, -.7], n))
        b = float(r.choice([0, 1, 7, -3]))
        v = r.choice([-1, 1]) * 2.0 ** np.clip(b + k * step, -28, 28) if rel else (b + k) * eb
        arrs.append(np.asarray(v).reshape(shape))
    if typ == 'float':
        arrs = [a.astype(np.float32).astype(np.float64) for a in arrs]
    arrs = [np.where(np.abs(a) < 2.0 ** -30, 0.0, np.clip(a, -2.0 ** 30, 2.0 ** 30)) for a in arrs]
    if op == 'unst3':
        c = vec3(op, typ, 'zeros', shape, r)
        return Call(op, typ, (n, 1, 1), eb, [c.arrays[0], np.stack([a.ravel() for a in arrs], 1), c.arrays[2]], fam='quantum')
    bs = int(r.choice([4, 5, 6, 8, 10, 20])) if nc == 1 else 0
    if op.endswith('_eb'):
        arrs.append(np.full(n, eb) if r.integers(0, 2) else eb * r.choice([1, 1, .5, 0], n))
    return Call(op, typ, shape, eb, arrs, bsize=bs, flags=F_BI * int(r.integers(0, 2)) if nc == 1 else 0, fam='quantum')


def quanta(ops, r, budget):
    out, spent = [], 0
    while spent < budget:
        for op in ops:
            for t in types(op):
                k = r.integers(0, 3)
                s = (shape3 if op in VEC3 + ['sz3d', 'sz3d_eb'] else shape2)(r) if k else (12, 14, 15) if op in VEC3 + ['sz3d', 'sz3d_eb'] else (40, 44)
                c = quantum(op, t, s, r)
                out.append(c)
                spent += cost(c)
    return out


def mean_walk(s):
    """positions from which the mean of a 3D array is estimated (Sampling.tla)"""
    n, d, p, c1, c2, out = s[0] * s[1] * s[2], max(int(np.sqrt(s[0] * s[1] * s[2])), 3), 0, 0, 0, []
    while p < n:
        out.append(p)
        c1, c2, p = c1 + d, c2 + d, p + d
        if c1 >= s[2]:
            c1, p = 0, p - 1
        if c2 >= s[1] * s[2]:
            c2, p = 0, p - 1
    return out


def edges3(r, reps):
    """3D data of one value, with values a certain number of bounds away from it where the mean is not sampled: the ends of the
    sampled histograms"""
    out = []
    for m in [x for x in MARKS if x >= 1023]:
        for k in range(reps):
            s, eb, b = (20, 20, 20), float(2.0 ** r.integers(-4, 3)), float(r.choice([0, 5]))
            hit = r.uniform(0, 1, 8000) < 0.1
            hit[mean_walk(s)] = False
            a = np.where(hit, b + (m + [0.5, -0.5, 0.25, 1.0][k % 4]) * [1, -1][k // 4 % 2], b).reshape(s) * eb
            op, t = ['sz3d', 'sz3d_eb'][int(r.integers(0, 4) == 0)], ['float', 'double'][r.integers(0, 2)]
            out.append(Call(op, t, s, eb, [a] + ([np.full(s, eb)] if op == 'sz3d_eb' else []), bsize=int(r.choice([4, 6, 8])), fam='edges'))
    return out


def shapes_upto(k2, k3):
    s2 = [(a, b) for a in range(1, k2 + 1) for b in range(1, k2 + 1)]
    s3 = [(a, b, c) for a in range(1, k3 + 1) for b in range(1, k3 + 1) for c in range(1, k3 + 1)]
    return s2, s3


def extremes(ops, r, rounds, fams=('waves', 'noise', 'walk', 'smallint', 'smallint', 'const', 'zeros', 'growth', 'hugerange', 'near')):
    """magnitudes far from one, bounds far below and above the data, block sizes from 1 to beyond the field"""
    out = []
    for _ in range(rounds):
        for op in ops:
            rel = op in REL2 + PWR + ['bilinear', 'off3', 'log3', 'unst3']
            for t in types(op):
                for f in fams:
                    if op in PWR:       # the rounding of a logarithm grows with the logarithm
                        sc = 1.0 if f == 'hugerange' else float(2.0 ** r.integers(-25, 26))
                    else:
                        sc = float(2.0 ** r.integers(-18, 19)) if f == 'hugerange' else float(2.0 ** (r.integers(-60, 61) // (2 if t == 'float' and op in VEC3 + ABS2 + REL2 + ['bilinear'] else 1))) if r.integers(0, 2) else 1.0
                    e = float(10.0 ** r.uniform(-14, -4)) if rel else sc * float(10.0 ** r.uniform(-16, 10))
                    if not rel and f == 'smallint':
                        e = sc * float(10.0 ** r.uniform(-12, -8))
                    if op in VEC3:
                        out.append(vec3(op, t, f, shape3(r, False), r, eb=e, sc=sc))
                    elif op in ABS2 + REL2 + ['bilinear']:
                        out.append(vec2(op, t, f, shape2(r, False), r, eb=e, sc=sc))
                    else:
                        out.append(scal(op, t, f, shape2(r, False) if '2d' in op else shape3(r, False), r, eb=e, sc=sc,
                                        bsize=int(r.choice([1, 2, 3, 4, 6, 12, 31, 32, 33, 64, 100, 128, 200]))))
    return out


def long(ops, r, n):
    """two rows, columns or layers, the other side very long"""
    out = []
    for i, op in enumerate(ops):
        t = types(op)[(i + n) % len(types(op))]
        f = str(r.choice(['waves', 'noise', 'smallint']))
        if op in VEC3 + ['sz3d', 'sz3d_eb']:
            q = [2, 2, n // 4]
            s = (q[i % 3], q[(i + 1) % 3], q[(i + 2) % 3])
        else:
            s = (2, n // 2) if i % 2 else (n // 2, 2)
        out.append(vec2(op, t, f, s, r) if op in ABS2 + REL2 + ['bilinear'] else vec3(op, t, f, s, r) if op in VEC3 else scal(op, t, f, s, r))
    return out


def broad(r):
    """one larger field per method, whose stream is longer than the blocks of buffers and coders"""
    out = []
    for op in ALLOPS:
        t = types(op)[int(r.integers(0, len(types(op))))]
        if op in VEC3:
            out.append(vec3(op, t, 'noise', (21, 22, 23), r, sc=1.0))
        elif op in ABS2 + REL2 + ['bilinear']:
            out.append(vec2(op, t, 'noise', (171, 180), r, sc=1.0))
        else:
            out.append(scal(op, t, 'noise', (31, 32, 33) if op == 'sz3d' else (171, 180), r, sc=1.0))
    return out


def jobs_for(prop, tier, seed):
    r = rng(prop, tier, seed)
    k = 12 if tier == 'thorough' else 1
    M = 1000000
    P = pack
    if prop in ('P01', 'P02', 'P03'):
        ops = ABS2 + (['abs3'] if prop == 'P02' else [])
        c = sweep(ops, r, int(1.6 * M) * k)
        c += large2(ABS2, r, [(257, 259), (120, 260)] * (1 if k == 1 else 4))
        c += extremes(ops, r, 3 * k) + long(ABS2, r, 66000) + long(ABS2[::-1], r, 9000)
        c += quanta(ops, r, 200000 * k)
        t = tiny(ABS2, r, 3000 * k, ['near', 'near', 'noise', 'nearkind', 'nearedge'])
        if prop == 'P02':
            t = t[::2] + tiny(['abs3'], r, 1500 * k, ['near', 'noise'])
        return P(c) + P(t, maxcalls=100)
    if prop in ('P04', 'P05'):
        c = sweep(REL2 + (['bilinear'] if prop == 'P05' else []), r, int((1.1 if prop == 'P04' else 1.8) * M) * k)
        c += quanta(REL2 + (['bilinear'] if prop == 'P05' else []), r, 200000 * k)
        c += large2(REL2, r, [(260, 255)] * (1 if k == 1 else 4))
        c += extremes(REL2 + (['bilinear'] if prop == 'P05' else []), r, 3 * k) + long(REL2, r, 66000) + long(REL2[::-1], r, 9000)
        return P(c) + P(tiny(REL2, r, 6000 * k, ['near', 'nearkind', 'nearedge', 'noise']) if prop == 'P04' else [], maxcalls=100)
    if prop == 'P06':
        return P(sweep(['bilinear'], r, int(0.3 * M) * k) + extremes(['bilinear'], r, 3 * k) + long(['bilinear'] * 2, r, 3000)) + P(tiny(['bilinear'], r, 4000 * k, ['nearcell', 'nearcell', 'noise', 'near']), maxcalls=100)
    if prop == 'P07':
        return P(sweep(VEC3, r, int(0.4 * M) * k) + quanta(VEC3, r, 50000 * k) + [vec3(op, types(op)[-1], 'noise', (42, 40, 41), r, sc=1.0) for op in VEC3] + extremes(VEC3, r, 2 * k) + long(VEC3, r, 3000)) + P(tiny(VEC3, r, 9000 * k, ['near', 'nearedge', 'noise']) + tiny(['abs3', 'log3', 'abs3', 'log3', 'unst3'], r, 16000 * min(k, 6), ['nearedge', 'nearedge', 'near']), maxcalls=100)
    if prop == 'P08':
        c = sweep(SCAL, r, int(5 * M) * k)
        c += quanta(SCAL, r, 900000 * k)
        c += extremes(SCAL, r, 8 * k) + long(SCAL * 3, r, 140000)
        c += [scal('sz2d', 'float', f, (300, 277), r, sc=1.0) for f in ('waves', 'noise', 'walk', 'growth')]
        c += [scal('sz3d', t, f, (41, 41, 40), r, sc=1.0) for f in ('waves', 'noise', 'walk', 'growth') for t in types('sz3d')]
        return P(c)
    if prop == 'P09':
        return P(sweep(['sz2d_eb'], r, 12 * M * k) + quanta(['sz2d_eb'], r, 600000 * k) + extremes(['sz2d_eb'], r, 8 * k) + long(['sz2d_eb'] * 2, r, 140000) + [scal('sz2d_eb', t, f, (258, 257), r, sc=1.0) for f in ('waves', 'noise', 'walk', 'growth') for t in ('float', 'double')])
    if prop == 'P10':
        return P(sweep(PWR, r, int(9 * M) * k) + quanta(PWR, r, 400000 * k) + extremes(PWR, r, 8 * k) + long(PWR * 2, r, 140000) + [scal(o, 'float', f, (258, 257), r, sc=1.0) for f in ('waves', 'noise', 'walk', 'widezero') for o in PWR])
    if prop == 'P11':
        return P(huffman(r, int(1.5 * M) * k), maxcalls=8) + P([c for c in runs(r, k > 1) if c.op == 'runs'], maxcalls=2)
    if prop == 'P12':
        return P(bits(r, int(1.0 * M) * k), maxcalls=60) + P([c for c in runs(r, k > 1) if c.op == 'flagruns'], maxcalls=2)
    if prop == 'P13':
        c = sweep(ALLOPS, r, int(0.4 * M) * k, big=False) + broad(r)
        jobs = []
        for i, x in enumerate(c):
            # first a pristine decoder, then the same process, then other bytes behind the stream, then the lossless stage
            jobs.append(Job([again(x, F_FRESH | F_TAIL, 1), again(x, F_TAIL, 2), again(x)], 60))
        return jobs
    if prop == 'P14':
        c = sweep(ALLOPS + ['sz3d_eb'], r, int(0.25 * M) * k, big=False)
        jobs = []
        for i in range(0, len(c), 4):
            seq = []
            for x in c[i:i + 4]:
                seq += [x, decoy(r), again(x, F_DIRTY)]
            seq += [again(x, F_DIRTY) for x in reversed(c[i:i + 4])]
            jobs.append(Job(seq, 60))
        # the same calls after different histories
        for n in range(2 * k):
            for op in ALLOPS + ['sz3d_eb']:
                c = kin(op, r)
                two = [Job(c + c[:1], 60), Job(c[::-1], 60)]
                for j in two:
                    j.tie = (op, n)
                jobs += two
        return jobs
    if prop == 'P15':
        c = sweep(ALLOPS + ['sz3d_eb'], r, int(1.2 * M) * k)
        c += quanta(ALLOPS + ['sz3d_eb'], r, 600000 * k) + edges3(r, 8 * k) + extremes(ALLOPS + ['sz3d_eb'], r, k) + long(ALLOPS + ['sz3d_eb'], r, 9000)
        s2, s3 = shapes_upto(9 if k == 1 else 24, 4 if k == 1 else 9)
        for op in ALLOPS + ['sz3d_eb']:
            for s in (s3 if op in VEC3 + ['sz3d', 'sz3d_eb'] else s2):
                f = str(r.choice(['noise', 'const', 'waves', 'hugerange', 'zeros', 'smallint']))
                t = types(op)[int(r.integers(0, len(types(op))))]
                c.append(vec2(op, t, f, s, r) if op in ABS2 + REL2 + ['bilinear'] else vec3(op, t, f, s, r) if op in VEC3 else scal(op, t, f, s, r))
        c += [x for x in runs(r) if x.op == 'flagruns' or x.dims[0] <= 36 or x.arrays[1].sum() < 10 ** 6]
        c += huffman(r, 200000) + bits(r, 50000) + lossless(r, 50000)
        return P(c, maxcalls=24, maxcost=60000)
    if prop == 'P16':
        c = sweep(ALLOPS, r, int(0.3 * M) * k, big=False)
        c += broad(r)
        two = []
        for x in c:
            two += [x, again(x, F_ZSTD)]
        return P(lossless(r, int(1.5 * M) * k), maxcalls=8, maxcost=10 ** 6) + P(two)
    if prop == 'P17':
        s2, s3 = shapes_upto(13 if k == 1 else 26, 5 if k == 1 else 9)
        s2 += [(1, n) for n in (31, 32, 33, 64, 65, 100)] + [(n, 1) for n in (31, 32, 33, 64, 65, 100)] + [(17, 33), (33, 17), (40, 3), (3, 40), (64, 64), (65, 63)]
        s3 += [(7, 8, 9), (12, 13, 6), (6, 12, 14), (13, 1, 7), (1, 13, 7), (13, 7, 1), (2, 3, 19), (19, 2, 3), (3, 19, 2)]
        c = []
        for op in ALLOPS:
            for s in (s3 if op in VEC3 + ['sz3d'] else s2):
                c.append(place(op, types(op)[int(r.integers(0, len(types(op))))], s, r))
            for s in ((2, 2, 17000), (17000, 2, 2)) if op in VEC3 + ['sz3d'] else ((2, 66000), (66000, 2)):
                c.append(place(op, types(op)[int(r.integers(0, len(types(op))))], s, r))
        return P(c)
    if prop == 'P18':
        c = sweep(ALLOPS, r, int(1.2 * M) * k)
        for op in ALLOPS:
            for t in types(op):
                shp = [(28, 30, 31)] if op in VEC3 + ['sz3d'] else [(150, 170)]
                for s in shp:
                    x = make(op, t, 'const', r)
                    x = vec2(op, t, 'const', s, r) if op in ABS2 + REL2 + ['bilinear'] else vec3(op, t, 'const', s, r) if op in VEC3 else scal(op, t, 'const', s, r)
                    x.flags |= F_ZSTD
                    x.eb = max(x.eb, 2.0 ** -8 if op in REL2 + ['bilinear', 'off3', 'log3', 'unst3'] or op.startswith('pwr') else max(abs(float(a.max())) for a in x.arrays) / 256)
                    if op.endswith('_eb'):
                        x.arrays[-1][:] = x.eb
                    c.append(x)
        return P(c) + P([h for h in huffman(r, int(0.8 * M) * k) if len(h.arrays[0]) <= 30000 or len(h.arrays[0]) == 300000], maxcalls=8) + P([h for h in runs(r, k > 1) if h.op == 'runs'], maxcalls=2)
    if prop == 'P19':
        return P(files(r, int(0.6 * M) * k), maxcalls=40)
    if prop == 'P20':
        return P(stats(r, int(0.25 * M) * k), maxcalls=40)
    if prop == 'ALL':           # a little of everything, for trying out changes to the code
        j = []
        for q in ('P01', 'P04', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18'):
            x = jobs_for(q, 'quick', seed)
            m = {'P11': 6, 'P12': 30, 'P16': 6, 'P15': 5, 'P18': 8, 'P17': 2, 'P13': 6}.get(q, 4)
            j += x[::m]
        return j
    raise ValueError(prop)


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:] or ['P%02d' % i for i in range(1, 21)]:
        j = jobs_for(p, 'quick', 1)
        print(p, len(j), sum(len(x.calls) for x in j), sum(cost(c) for x in j for c in x.calls))
