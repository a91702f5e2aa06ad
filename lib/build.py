"""Builds what a check needs from /repo's current working tree, into /verif/build (ignored by git), keyed by content."""
import hashlib, os, glob, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CPSZ_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


class Locked:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def harness(kind):
    """kind: plain (as users build it) or asan; returns the executable"""
    src = sorted(glob.glob(f'{REPO}/src/*.cpp'))
    own = [f'{VERIF}/harness/harness.cpp'] + glob.glob(f'{VERIF}/harness/stub/**/*.hh', recursive=True)
    deps = src + glob.glob(f'{REPO}/src/*.h*') + glob.glob(f'{REPO}/include/**/*', recursive=True) + own
    deps = [d for d in deps if os.path.isfile(d)]
    flags = ['-std=c++11', f'-I{REPO}/include', f'-I{VERIF}/harness/stub', '-include', 'cassert', '-include', 'cstdint', '-w', '-fno-strict-aliasing']
    flags += {'plain': ['-O2'], 'asan': ['-O1', '-g1', '-fsanitize=address']}[kind]
    key = digest(deps, kind + ' '.join(flags))
    d = os.path.join(BUILD, f'h-{kind}-{key}')
    exe = os.path.join(d, 'harness')
    with Locked(f'h-{kind}'):
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(BUILD, f'h-{kind}-*/')), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        ps = []
        for s in src + [own[0]]:
            o = os.path.join(d, os.path.basename(s)[:-4] + '.o')
            ps.append((s, o, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
        objs = []
        for s, o, p in ps:
            err = p.communicate()[1]
            if p.returncode:
                print(f'build of {s} failed:\n{err[:3000]}', file=sys.stderr)
                sys.exit(2)
            objs.append(o)
        r = subprocess.run(['g++'] + (['-fsanitize=address'] if kind == 'asan' else []) + objs + ['-lzstd', '-o', exe + '.tmp'],
                           stderr=subprocess.PIPE, text=True)
        if r.returncode:
            print(f'link failed:\n{r.stderr[:3000]}', file=sys.stderr)
            sys.exit(2)
        for o in objs:
            os.unlink(o)
        os.rename(exe + '.tmp', exe)
    return exe


def java():
    src = sorted(glob.glob(f'{VERIF}/java/cpsz/*.java'))
    key = digest(src)
    d = os.path.join(BUILD, f'java-{key}')
    with Locked('java'):
        if not os.path.exists(os.path.join(d, 'ok')):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(['javac', '-cp', CP, '-d', d] + src, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                print(r.stderr, file=sys.stderr)
                sys.exit(2)
            open(os.path.join(d, 'ok'), 'w').close()
    return d


if __name__ == '__main__':
    print(harness('plain'), harness('asan'), java())
