#!/usr/bin/env python3
"""Make and confirm planted changes (development tool).

usage: mkseed.py [--notest] ID ...     definitions: tools/seeds/*.py
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONPYCACHEPREFIX='/opt/venv/no-pycache', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1')


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.update(m.SEEDS)
    return out


def sh(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, timeout=timeout,
                          capture_output=True, text=True)


def make(sid, s, test=True):
    wt = '/tmp/seed_%s' % sid
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    msg = []
    try:
        for rel, old, new in s['edits']:
            p = os.path.join(wt, 'symfit', rel)
            src = open(p).read()
            if src.count(old) != 1:
                return sid, ['EDIT: %d matches of %r in %s' % (src.count(old), old[:50], rel)]
            open(p, 'w').write(src.replace(old, new))
        d = os.path.join(HERE, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', wt).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg\n'
            'export PYTHONPATH="$PWD"\n'
            'exec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        demo = 'bash %s/demo.sh' % d
        r0 = sh(demo, '/repo')
        r1 = sh(demo, wt)
        msg.append('demo clean=%d patched=%d' % (r0.returncode, r1.returncode))
        if r0.returncode:
            msg.append(r0.stderr[-600:])
        if not r1.returncode:
            msg.append('PATCHED DEMO PASSES')
        if test:
            base = json.load(open('/opt/vp/BASELINE.json'))
            r = sh('%s -m pytest -q -p no:cacheprovider -p no:xdist --timeout=200 '
                   ' 2>&1 | grep -a "^FAILED\\|^ERROR\\| passed" | '
                   'grep -v "::test_custom_objective "' % PY, wt)
            msg.append(r.stdout.strip()[-1500:])
        k = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), s['property']],
                           cwd=HERE, env=dict(os.environ, SYMFIT_ROOT=wt,
                                              VERIF_EVIDENCE=wt), capture_output=True,
                           text=True)
        msg.append('check exit %d' % k.returncode)
        if k.returncode != 1:
            msg.append(k.stdout[-700:])
            others = []
            for f in sorted(os.listdir(os.path.join(HERE, 'sa', 'props'))):
                if f.startswith('C') and f[:-3] != s['property']:
                    k = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), f[:-3]],
                                       cwd=HERE, env=dict(os.environ, SYMFIT_ROOT=wt,
                                                          VERIF_EVIDENCE=wt),
                                       capture_output=True, text=True)
                    if k.returncode:
                        others.append('%s:%d' % (f[:-3], k.returncode))
            msg.append('MISSED; others: ' + ' '.join(others))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return sid, msg


if __name__ == '__main__':
    a = sys.argv[1:]
    test = '--notest' not in a
    seeds = load()
    ids = [x for x in a if not x.startswith('-')] or list(seeds)
    with ThreadPoolExecutor(7) as ex:
        for sid, msg in ex.map(lambda i: make(i, seeds[i], test), ids):
            print('==', sid)
            for m in msg:
                print('   ', m)
