#!/usr/bin/env python3
"""Regression suite of the checks: source edits with the expected verdict.

usage: selftest/run.py [-v] [-k substring] [case-file ...]
"""
import glob
import importlib.util
import io
import multiprocessing
import os
import importlib
import sys
import contextlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.environ.get('SYMFIT_ROOT', '/repo')


def apply(edits):
    out = {}
    for f, old, new in edits:
        rel = 'symfit/' + f
        src = out.get(rel)
        if src is None:
            src = open(os.path.join(ROOT, rel)).read()
        n = src.count(old)
        if n != 1:
            return None, '%s: %d matches of %r' % (f, n, old[:60])
        out[rel] = src.replace(old, new)
    return out, None


def one(job):
    name, prop, expect, edits, verbose = job
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        import warnings
        warnings.simplefilter('ignore')
        try:
            res.append(_one(job))
        except BaseException as e:
            import traceback
            res.append((job[0], job[1], job[2], 'CRASH', traceback.format_exc()))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return res[0]


def _one(job):
    name, prop, expect, edits, verbose = job
    ov, err = apply(edits)
    if err:
        return name, prop, expect, 'EDIT-ERROR ' + err, ''
    try:
        for k, v in ov.items():
            compile(v, k, 'exec')
    except SyntaxError as e:
        return name, prop, expect, 'SYNTAX %s' % e, ''
    from sa import world, check
    world.OVERRIDES.clear()
    world.OVERRIDES.update(ov)
    import tempfile
    d = tempfile.mkdtemp()
    mod = importlib.import_module('sa.props.' + prop)
    buf = io.StringIO()
    ev = os.path.join(d)
    check.EVID = ev
    with contextlib.redirect_stdout(buf):
        s = check.check(prop, mod.DRIVER, mod.OBLIGATIONS, 'quick',
                        getattr(mod, 'CUSTOM', None), '', verbose=verbose)
    import shutil
    shutil.rmtree(d)
    txt = buf.getvalue()
    got = {0: 'ok', 1: 'bad', 2: 'broken'}.get(s, str(s))
    und = txt.count('UNDECIDED')
    return name, prop, expect, got + ('+undecided%d' % und if und else ''), txt


def main(argv):
    verbose = '-v' in argv
    sub = None
    if '-k' in argv:
        i = argv.index('-k')
        sub = argv[i + 1]
        del argv[i:i + 2]
    files = [a for a in argv if not a.startswith('-')] or \
        sorted(glob.glob(os.path.join(HERE, 'cases_*.py')))
    jobs = []
    for f in files:
        if not f.endswith('.py'):
            f = os.path.join(HERE, 'cases_%s.py' % f)
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for c in m.CASES:
            name, props, expect, edits = c
            if isinstance(props, str):
                props = props.split()
            for p in props:
                if sub is None or sub in name or sub in p:
                    jobs.append((name, p, expect, edits, verbose))
    bad = 0
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for name, prop, expect, got, txt in pool.imap(one, jobs, chunksize=1):
            ok = got.split('+')[0] == expect
            if not ok:
                bad += 1
            if not ok or verbose or '+' in got:
                print('%-5s %-4s %-45s expect %-4s got %s' % (
                    'ok' if ok else 'FAIL', prop, name, expect, got))
                if verbose:
                    print(txt)
    print('%d cases, %d unexpected' % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
