"""Authoring aid for planted bugs.
  python3 tools/seed.py make FILE.py [id ...]   FILE.py defines SEEDS=[dict(id,prop,edits=[(file,old,new)],demo,needs,breaks)]
  python3 tools/seed.py test id ...             build-free confirmation in a scratch copy: demo, tests, check
"""
import json, os, shutil, subprocess, sys, runpy, tempfile
V, R = '/verif/seeded', '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def make(s):
    w = tempfile.mkdtemp(prefix='sd_', dir='/tmp')
    try:
        sh(f'git -C {R} archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm base')
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p).read()
            n = t.count(old)
            assert n == 1, (s['id'], f, n, old)
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', w)
        d = os.path.join(V, s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository under test\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
                                        'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(w)


def test(i, tests=True, check=True):
    d = os.path.join(V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='sd_', dir='/tmp')
    out = [i, prop]
    try:
        sh(f'git -C {R} archive HEAD | tar x -C {w}; echo "__version__=\\"0.7.3\\"" > {w}/diffmah/_version.py; cd {w} && git init -q')
        rc0, o0 = sh(f'bash {d}/demo.sh', w)
        rc, o = sh(f'git apply {d}/patch.diff', w)
        assert rc == 0, o
        rc1, o1 = sh(f'bash {d}/demo.sh', w)
        out.append(f'demo {rc0}->{rc1}')
        if rc0 or not rc1:
            out.append('DEMO BAD: ' + (o0 if rc0 else o1)[-600:])
        if tests:
            rc, o = sh(f'{PY} -m pytest -q -x -p no:cacheprovider -n 6 --timeout=300 diffmah 2>&1 | tail -3', w,
                       dict(PYTHONPATH=w, JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
            out.append('tests: ' + o.strip().splitlines()[-1][:100])
        if check:
            rc, o = sh(f'bash /verif/run.sh {prop}', '/verif', dict(VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
            cl = sorted({l.split('[')[1].split(']')[0] for l in o.splitlines() if l.startswith('VIOLATION') and '[' in l})
            out.append(f'check rc={rc} {cl}' + ('' if rc == 1 else ' MISSED ' + o[-300:]))
    finally:
        shutil.rmtree(w)
    print(' | '.join(out), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in runpy.run_path(sys.argv[2])['SEEDS']:
            if len(sys.argv) == 3 or s['id'] in sys.argv[3:]:
                make(s); print('made', s['id'])
    else:
        fl = [a for a in sys.argv[2:] if a.startswith('-')]
        for i in [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(V)):
            test(i, '-notests' not in fl, '-nocheck' not in fl)
