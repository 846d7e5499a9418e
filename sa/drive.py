"""Running a driver snippet through the value-numbering engine."""
import ast

from . import terms as t
from .terms import mk, sym
from .world import World
from .interp import Interp, Budget, Anchor


class Result(object):
    pass


SPEC = [0]


def annotation(w, m, node, I, s):
    """types of symbolic inputs, read off the annotation of the driver"""
    if node is None:
        return
    if isinstance(node, ast.Constant):
        n = node.value
    else:
        n = ast.unparse(node)
    for part in str(n).split('&'):
        part = part.strip()
        if part == 'Seq':
            I.seqsyms.add(s)
        elif part == 'Dict':
            I.dictsyms.add(s)
        elif part == 'notNone':
            pass
        else:
            r = w.lookup(m, part)
            if r is not None and r[0] == 'class':
                I.types[s] = r[1]
            else:
                raise Anchor('class %s' % part)


class Program(object):
    """a driver module, loaded beside the analysed package"""

    def __init__(self, world, src):
        SPEC[0] += 1
        self.w = world
        self.m = world.add_source('spec%d' % SPEC[0], src)

    def run(self, fname, boundary=None, opaque=(), seconds=60.0, assume=(),
            given=None, defs=None):
        w, m = self.w, self.m
        I = Interp(w, boundary=boundary, opaque=opaque, seconds=seconds)
        I.seqsyms, I.dictsyms = set(), set()
        kind = w.lookup(m, fname)
        if kind is None or kind[0] != 'func':
            raise Anchor('driver ' + fname)
        fi = kind[1]
        args = []
        for a in fi.node.args.args:
            s = sym(a.arg)
            annotation(w, m, a.annotation, I, s)
            args.append((given or {}).get(a.arg, s))
        res = Result()
        res.I = I
        try:
            f = I.global_fun(fi)
            v = I.call(f, args, [])
            if I.dead():
                v = t.UNDEF
            res.val = I.reify(v)
            res.raw = v
        finally:
            res.events = I.events
            res.unmodelled = I.unmodelled
            res.visited = I.visited
        res.raises = [(e.cond, e.val) for e in I.exits
                      if e.kind == 'raise' and e.cond is not t.FALSE]
        return res
