"""Job files for the conformance harness, and its results."""
import struct, subprocess, os, tempfile
import numpy as np

MAGIC = 0x4A4F4221
F_BI, F_TRANSPOSE, F_ZSTD, F_DIRTY, F_NODEC, F_FRESH, F_TAIL = 1, 2, 4, 8, 16, 32, 64
OPS = dict(sz3_abs=1, online_abs=2, relax=3, online=4, online_log=5, offline=6, offline_log=7, bilinear=8,
           off3=10, log3=11, abs3=12, unst3=13,
           sz2d=20, sz2d_eb=21, sz3d=22, sz3d_eb=23, pwr2d=24, pwr2d_eb=25,
           huffman=30, bits=31, lossless=32, file=33, verify=34, runs=35, flagruns=36)
NAMES = {v: k for k, v in OPS.items()}


class Call:
    def __init__(self, op, typ, dims, eb, arrays, bsize=0, flags=0, group=0, **meta):
        self.op, self.typ, self.eb, self.bsize, self.flags, self.group = op, typ, float(eb), bsize, flags, group
        self.dims = tuple(dims) + (1,) * (3 - len(dims))
        self.arrays = [np.ascontiguousarray(a, dtype=np.float64).ravel() for a in arrays]
        self.meta = meta

    def pack(self):
        b = [struct.pack('<8id', OPS[self.op], 1 if self.typ == 'double' else 0, *self.dims, self.bsize, self.flags, self.group,
                         self.eb), struct.pack('<i', len(self.arrays))]
        for a in self.arrays:
            b.append(struct.pack('<Q', a.size))
            b.append(a.tobytes())
        return b''.join(b)

    def describe(self):
        return f"{self.op}<{self.typ}> dims={self.dims} eb={self.eb!r} bsize={self.bsize} flags={self.flags} {self.meta}"


class Job:
    """A sequence of calls made one after another in one process."""
    def __init__(self, calls, timeout=20):
        self.calls = calls if isinstance(calls, list) else [calls]
        self.timeout = timeout

    def pack(self):
        return struct.pack('<3i', MAGIC, len(self.calls), self.timeout) + b''.join(c.pack() for c in self.calls)


class Out:
    __slots__ = ('size', 'digest', 'aux', 'input_ok', 'arr')


class Result:
    __slots__ = ('status', 'stage', 'call', 'st', 'report', 'outs')


def parse(path, jobs):
    res = []
    b = open(path, 'rb').read()
    p = 0
    for j in jobs:
        magic, status, stage, call, st, rl = struct.unpack_from('<6i', b, p)
        assert magic == MAGIC
        p += 24
        r = Result()
        r.status, r.stage, r.call, r.st = status, stage, call, st
        r.report = b[p:p + rl].decode(errors='replace')
        p += rl
        sz, = struct.unpack_from('<Q', b, p)
        p += 8
        end = p + sz
        r.outs = []
        while p < end:
            o = Out()
            o.size, o.digest, o.aux, o.input_ok, na = struct.unpack_from('<3Q2i', b, p)
            p += 32
            o.arr = []
            for _ in range(na):
                n, = struct.unpack_from('<Q', b, p)
                p += 8
                o.arr.append(np.frombuffer(b, dtype=np.float64, count=n, offset=p).copy())
                p += 8 * n
            r.outs.append(o)
        assert p == end
        res.append(r)
    return res


def run(jobs, harness, workdir, nproc=8, env=None, tag='j'):
    """Run jobs in nproc harness processes; results in job order."""
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_malloc_fill_size=0'
    if env:
        e.update(env)
    chunks = [list(range(i, len(jobs), nproc)) for i in range(nproc)]
    procs = []
    for i, c in enumerate(chunks):
        if not c:
            continue
        jf, rf = f"{workdir}/{tag}{i}.job", f"{workdir}/{tag}{i}.res"
        with open(jf, 'wb') as f:
            for k in c:
                f.write(jobs[k].pack())
        procs.append((c, jf, rf, subprocess.Popen([harness, jf, rf], env=e, stdout=subprocess.DEVNULL,
                                                  stderr=subprocess.DEVNULL)))
    out = [None] * len(jobs)
    for c, jf, rf, p in procs:
        rc = p.wait()
        if rc:
            raise RuntimeError(f"harness exited {rc}")
        for k, r in zip(c, parse(rf, [jobs[k] for k in c])):
            out[k] = r
        os.unlink(jf)
        os.unlink(rf)
    return out
