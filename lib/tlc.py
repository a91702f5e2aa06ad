"""Running TLC: models (exhaustive) and trace validation."""
import os, re, subprocess, shutil, tempfile
from build import CP, VERIF

SPEC = os.path.join(VERIF, 'spec')


def spec_copy(d):
    """a private copy of the specification, with the override-free copies that ExactRealTest and Huffman compare with"""
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(SPEC, f), d)
    for m in ('ExactReal', 'EntropyCost'):
        s = open(os.path.join(SPEC, m + '.tla')).read()
        open(os.path.join(d, m + 'Def.tla'), 'w').write(s.replace(f'MODULE {m} ', f'MODULE {m}Def '))
    return d


def start(d, module, cfg, java_dir, workers=1, props=(), heap='2g', extra=(), tag=''):
    """d: directory with the specification"""
    meta = tempfile.mkdtemp(prefix='md', dir=d)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-XX:TieredStopAtLevel=4'] + list(props)
    cmd += ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:cpsz.Overrides', '-cp', f'{java_dir}:{CP}', 'tlc2.TLC',
            '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    out = open(os.path.join(d, f'{module}{tag}.out'), 'w+')
    p = subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT)
    return dict(p=p, out=out, module=module, cfg=cfg)


def finish(h, timeout=None):
    try:
        h['p'].wait(timeout)
    except subprocess.TimeoutExpired:
        h['p'].kill()
        h['p'].wait()
    h['out'].seek(0)
    t = h['out'].read()
    h['out'].close()
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', t)
    h['text'] = t
    h['generated'], h['distinct'] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    h['ok'] = h['p'].returncode == 0 and 'No error has been found' in t
    return h
