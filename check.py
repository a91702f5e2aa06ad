#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE PROPERTY | --setup
Decides one property: its models with TLC, then recorded executions of /repo's current code against the specification."""
import concurrent.futures, sys, os, time, json, re, tempfile, shutil, subprocess, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import build, tlc
import battery
from h import Job, NAMES, MAGIC
import props as PR

VERIF = build.VERIF
NPROC = 8


def env_for(run):
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    fill = [0xbe, 0x3c][run % 2]
    e['ASAN_OPTIONS'] = f'detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:malloc_fill_byte={fill}:allocator_may_return_null=0'
    e['MALLOC_PERTURB_'] = str([0x41, 0xd6][run % 2])
    return e


def write_jobs(path, jobs):
    with open(path, 'wb') as f:
        for j in jobs:
            f.write(j.pack())


def record(exe, jobfile, resfiles):
    ps = [subprocess.Popen([exe, jobfile, r], env=env_for(i), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
          for i, r in enumerate(resfiles)]
    return ps


def trace_cfg(p, path):
    cl = ', '.join(f'"{c}"' for c in p['clauses'])
    open(path, 'w').write('SPECIFICATION TraceSpec\nCONSTANTS\n  Clauses = {%s}\n  JudgeCrash = TRUE\n'
                          'POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' % cl)


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\d+),\s*"(\w+)",\s*(\{.*?\})\s*>>')


class Infra(Exception):
    pass


def validate(work, spec, jdir, p, jobs, exe, nproc, tag=''):
    """records the jobs and validates the recordings; returns rejections [(jobindex, run, call, phase, why)], states, events"""
    # chunks of about the same amount of work, consecutive calls kept together
    w = [sum(battery.cost(c) for c in j.calls) + 300 * len(j.calls) for j in jobs]
    tied = {}       # jobs whose answers are to be compared go to the same trace
    for i, j in enumerate(jobs):
        tied.setdefault(getattr(j, 'tie', None) or ('job', i), []).append(i)
    chunks = [[] for _ in range(nproc)]
    load = [0] * nproc
    for t in sorted(tied.values(), key=lambda t: -sum(w[i] for i in t)):
        k = load.index(min(load))
        chunks[k] += t
        load[k] += sum(w[i] for i in t)
    chunks = [sorted(c) for c in chunks if c]
    runs = []
    cfg = os.path.join(spec, f'Trace{tag}.cfg')
    trace_cfg(p, cfg)
    for k, c in enumerate(chunks):
        jf = os.path.join(work, f'{tag}{k}.job')
        write_jobs(jf, [jobs[i] for i in c])
        rfs = [os.path.join(work, f'{tag}{k}.{r}.res') for r in range(p['runs'])]
        runs.append((c, jf, rfs, record(exe, jf, rfs)))
    hs = []
    for k, (c, jf, rfs, ps) in enumerate(runs):
        for q in ps:
            if q.wait():
                raise Infra(f'harness exited {q.returncode}')
        hs.append((c, jf, rfs, tlc.start(spec, 'TraceCodec', cfg, jdir, 1, [f'-Dcpsz.jobs={jf}', '-Dcpsz.results=' + ':'.join(rfs)],
                                         heap='3g', tag=f'{tag}{k}')))
    rej, states, gen = [], 0, 0
    for c, jf, rfs, h in hs:
        tlc.finish(h)
        t = h['text']
        if '"TRACE"' not in t:
            m = [l for l in t.split('\n') if 'rror' in l or 'xception' in l][:8]
            raise Infra('TLC did not finish a trace: ' + ' | '.join(m) + t[-1500:])
        flat = t.replace('\n', ' ')
        found = REJ.findall(flat)
        n = int(re.search(r'"rejected",\s*(\d+)\s*>>', flat).group(1))
        cnt = int(re.search(r'"states",\s*(\d+)', flat).group(1))
        want = 1 + sum(consumed(jobs[i], r) for i, r in endings(jobs, c, rfs))
        if cnt != want:
            raise Infra(f'TLC stopped inside a trace: {cnt} of {want} states ' + t[-1500:])
        if n != len(found):
            raise Infra(f'{n} rejections, {len(found)} reported')
        for j, r, call, ph, why in found:
            rej.append((c[int(j) - 1], int(r), int(call), ph, why))
        states += h['distinct']
        gen += h['generated']
        if not p.get('keep'):
            for f in [jf] + rfs:
                os.unlink(f)
    return rej, states, gen


def endings(jobs, c, rfs):
    """(job, number of answered calls) for each recorded process, read back from the result files"""
    import struct
    out = []
    for rf in rfs:
        with open(rf, 'rb') as f:
            for i in c:
                hd = struct.unpack('<6i', f.read(24))
                f.seek(hd[5], 1)
                size, = struct.unpack('<Q', f.read(8))
                end = f.tell() + size
                n = 0
                while f.tell() < end:
                    f.seek(28, 1)
                    na, = struct.unpack('<i', f.read(4))
                    for _ in range(na):
                        m, = struct.unpack('<Q', f.read(8))
                        f.seek(8 * m, 1)
                    n += 1
                out.append((i, n))
    return out


def consumed(job, answered):
    """states the trace specification takes for one process: two per answered call, one for the lost one if any, one for the end"""
    return 2 * answered + (1 if answered < len(job.calls) else 0) + 1


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'KNOWN-FINDING: property=(\w+) match=(\S+) (.*)', l)
        if m:
            out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        build.java(); build.harness('plain'); build.harness('asan')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    if '--replay' in args:
        i = args.index('--replay'); replay = os.path.abspath(args[i + 1]); del args[i:i + 2]
    prop = args[0]
    p = dict(PR.PROPS[prop])
    p.setdefault('runs', 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f'cpsz-{prop}-')
    try:
        return decide(prop, p, tier, seed, replay, work, t0)
    except Infra as e:
        print(f'check of {prop} could not be completed: {e}', file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, p, tier, seed, replay, work, t0):
    jdir = build.java()
    spec = tlc.spec_copy(os.path.join(work, 'spec'))
    exe = build.harness(p['build'])
    violations = []
    cov = {}
    if replay:
        jobs = [RawJob(open(replay, 'rb').read())]
        rej, _, _ = validate_raw(work, spec, jdir, p, replay, exe)
        for r in rej:
            print('REJECT', r)
        print(f'VIOLATION property={prop} replay={replay}' if rej else 'accepted')
        return 1 if rej else 0
    # 1. models, beside the recordings
    models = []
    todo = []
    for m in p['models']:
        cfg = m[1]
        if tier == 'thorough' and os.path.exists(os.path.join(spec, cfg.replace('.cfg', '_deep.cfg'))):
            cfg = cfg.replace('.cfg', '_deep.cfg')
        todo.append((m[0], cfg, None))
    if tier == 'thorough':      # variants of the models with a mistake in them: TLC has to find it
        todo += [(m[0], v, 'violated') for m in p['models'] for v in (m[2] if len(m) > 2 else ())]

    def run_model(m):
        h = tlc.finish(tlc.start(spec, m[0], m[1], jdir, workers=4 if tier == 'thorough' else 3, heap='6g' if tier == 'thorough' else '3g', tag='.' + m[1]))
        h['expect'] = m[2]
        return h
    mpool = concurrent.futures.ThreadPoolExecutor(2)
    mh = [mpool.submit(run_model, m) for m in todo]
    # 2. recorded executions
    jobs = battery.jobs_for(prop, tier, seed)
    gen_jobs, gen_info = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        made = list(ex.map(lambda g: PR.generated(g, tier, seed, spec, jdir, prop), p.get('gens', [])))
    for js, info in made:
        gen_jobs += js
        gen_info.append(info)
    jobs = jobs + gen_jobs
    t1 = time.time()
    rej, states, gen = validate(work, spec, jdir, p, jobs, exe, NPROC)
    t2 = time.time()
    for f in mh:
        h = f.result()
        if h['ok'] if h['expect'] else not h['ok']:
            raise Infra(f"model {h['module']} ({h['cfg']}): " + h['text'][-2500:])
        if h['expect'] and not re.search(r'Error: (Invariant|Action property|Temporal prop|Property|Assumption)|is violated|is false|properties were violated', h['text']):
            raise Infra(f"model {h['module']} ({h['cfg']}) failed for another reason: " + h['text'][-2500:])
        models.append(dict(module=h['module'], config=h['cfg'], states=h['distinct'], transitions=h['generated'],
                           outcome='the planted mistake was found' if h['expect'] else 'no error'))
    # 3. confirm what was rejected, in a recording of its own
    kf = known()
    seen_kf = set()
    byjob = {}
    for r in rej:
        byjob.setdefault(r[0], []).append(r)
    rdir = os.path.join(VERIF, 'replay')
    shown = 0
    for ji in sorted(byjob)[:12]:
        job = jobs[ji]
        p2 = dict(p); p2['keep'] = True
        mates = [j for j in jobs if getattr(job, 'tie', None) and getattr(j, 'tie', None) == job.tie] or [job]
        again, _, _ = validate(work, spec, jdir, p2, [Job(j.calls, max(j.timeout, 120)) for j in mates], exe, 1, tag=f'c{ji}_')
        hang_only = all('hang' in r[4] for r in byjob[ji])
        if not again and hang_only:
            print(f'note: job {ji} was slow once and answered when run alone', file=sys.stderr)
            continue
        for r in (again or byjob[ji])[:3]:
            call = job.calls[min(r[2], len(job.calls)) - 1]     # for a crash: the first call without an answer
            desc = f'{call.describe()} run {r[1]} call {r[2]} {r[3]}: {r[4]}'
            k = [x for x in kf if x[0] == prop and x[1] in desc.replace(' ', '')]
            if k:
                seen_kf.add(k[0])
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{prop}-{ji}.job')
            write_jobs(path, mates)
            open(path + '.txt', 'w').write(desc + '\n' + ('reproduced\n' if again else 'recorded once; not reproduced by running the job again\n'))
            violations.append(dict(replay=path, what=desc))
            if shown < 5:
                print(f'  {desc[:600]}')
                print(f'VIOLATION property={prop} replay={path}')
                shown += 1
    for k in kf:
        if k[0] == prop:
            print(f'KNOWN-FINDING: property={prop} {k[2]}')
    calls = [c for j in jobs for c in j.calls]
    rnd = random.Random(seed)
    ops = {}
    for c in calls:
        ops[f'{c.op}<{c.typ}>'] = ops.get(f'{c.op}<{c.typ}>', 0) + 1
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=sum(m['states'] for m in models) + states, transitions=sum(m['transitions'] for m in models) + gen,
                            traces_validated_against_impl=len(jobs) * p['runs'],
                            samples=[c.describe() for c in rnd.sample(calls, min(6, len(calls)))],
                            calls_recorded=len(calls) * p['runs'], values_judged=int(sum(battery.cost(c) for c in calls)) * p['runs'],
                            trace_states=states, models=models, calls_by_method=ops, clauses=p['clauses'], generated=gen_info,
                            harness_and_trace_s=round(t2 - t1, 1)),
              wall_s=round(time.time() - t0, 2), assumptions=p.get('assumptions', []) + PR.COMMON_ASSUMPTIONS, violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {len(calls)} calls in {len(jobs)} jobs x {p["runs"]} runs, {states} trace states, '
          f'{sum(m["states"] for m in models)} model states, {len(violations)} violations, {ev["wall_s"]} s')
    return 1 if violations else 0


class RawJob:
    def __init__(self, b):
        self.b = b

    def pack(self):
        return self.b


def validate_raw(work, spec, jdir, p, jobfile, exe):
    rfs = [os.path.join(work, f'r.{r}.res') for r in range(p['runs'])]
    for q in record(exe, jobfile, rfs):
        q.wait()
    cfg = os.path.join(spec, 'TraceR.cfg')
    trace_cfg(p, cfg)
    h = tlc.finish(tlc.start(spec, 'TraceCodec', cfg, jdir, 1, [f'-Dcpsz.jobs={jobfile}', '-Dcpsz.results=' + ':'.join(rfs)]))
    return REJ.findall(h['text'].replace('\n', ' ')), 0, 0


if __name__ == '__main__':
    sys.exit(main())
