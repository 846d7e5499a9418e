#!/usr/bin/env python3
"""run.py C02 [C03 ...] [--verbose]: decide properties of /repo's source."""
import copy
import fnmatch
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def obligations(mod):
    """the obligations of a property, with those which other properties share
    with it: ALSO = {property: names of specification functions, or '*'}"""
    out = list(mod.OBLIGATIONS)
    for other, names in getattr(mod, 'ALSO', {}).items():
        om = importlib.import_module('sa.props.' + other)
        found = set()
        for o in om.OBLIGATIONS:
            hits = [n for n in names if fnmatch.fnmatch(o.got, n)]
            if hits:
                found.update(hits)
                o = copy.copy(o)
                o.driver = om.DRIVER
                out.append(o)
        if set(names) - found:
            raise KeyError(set(names) - found)
    return out


def main(argv):
    verbose = '--verbose' in argv or '-v' in argv
    only = [a[2:] for a in argv if a.startswith('-o')]
    ids = [a for a in argv if not a.startswith('-')]
    from sa import check
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    status = 0
    for i in ids:
        mod = importlib.import_module('sa.props.' + i)
        obls = [o for o in obligations(mod)
                if not only or any(k in o.name or k in o.got for k in only)]
        s = check.check(i, mod.DRIVER, obls, tier,
                        getattr(mod, 'CUSTOM', None),
                        getattr(mod, 'EXPLANATION', ''), verbose=verbose)
        status = max(status, s) if 1 not in (status, s) else 1
    return status


if __name__ == '__main__':
    res = []

    def go():
        try:
            res.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(3)
    th = threading.Thread(target=go)
    th.start()
    from sa import watch
    while th.is_alive():
        th.join(0.25)
        watch.look(th.ident)
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
