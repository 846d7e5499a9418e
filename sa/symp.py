"""A small theory of symbolic expressions.

Atoms: named symbols (``t.SYMBOLS``), opaque expressions with known free symbols
(``t.EXPRS``), their formal partial derivatives ``spd(e, vars)``, substitution
instances ``ssub(base, ((key, value), ...))``, applied undefined functions
``sfun(name, args)`` and unevaluated derivatives ``sder(expr, vars)``; sums and
products of atoms are the engine's polynomials.
"""
import hashlib

from . import terms as t
from .terms import mk, const, seq, ext, TRUE, FALSE, NONE, ZERO, ONE

ATOMS = ('spd', 'ssub', 'sfun', 'sder', 'schain')
CLASSES = {
    'sfun': {'sympy.Expr', 'sympy.Basic', 'sympy.Function',
             'sympy.core.function.AppliedUndef'},
    'sder': {'sympy.Expr', 'sympy.Basic', 'sympy.Derivative'},
}
OTHER = {'sympy.Expr', 'sympy.Basic'}


def is_atom(x):
    return x in t.SYMBOLS or x in t.EXPRS or x.op in ATOMS


def is_expr(x):
    if is_atom(x):
        return True
    if x.op == 'poly':
        return any(m for m, c in x.args[0]) and all(
            is_expr(a) and e.denominator == 1 for m, c in x.args[0] for a, e in m)
    return False


def exprlike(x):
    return is_expr(x) or x.op == 'num'


def isa(I, x, c):
    """isinstance(x, c) of an expression; None when unknown"""
    if c.op == 'cls':
        ty = I.typeof(x)
        return bool(t.isa(ty.term, c)) if ty is not None else False
    if c.op != 'ext':
        return None
    n = c.args[0]
    if x in t.SYMBOLS:
        return n in ('sympy.Symbol', 'sympy.Expr', 'sympy.Basic', 'object') or (
            n == 'sympy.Dummy' and x.args[0].startswith('dummy:'))
    if n.split('.')[0] not in ('sympy', 'object') or \
            n in CLASSES.get(x.op, OTHER):
        return n in CLASSES.get(x.op, OTHER) or n == 'object'
    if x in t.EXPRS or x.op in ('spd', 'ssub'):
        # an opaque expression is a sum, a product, ...; not one of these
        if n in ('sympy.Symbol', 'sympy.Derivative', 'sympy.Idx', 'sympy.Relational',
                 'sympy.MatrixExpr', 'sympy.Eq', 'sympy.Ge', 'sympy.Le',
                 'sympy.Dummy'):
            return False
        return None
    return False


def free(x):
    if x in t.SYMBOLS:
        return {x}
    if x in t.EXPRS:
        return set(t.EXPRS[x].args[0])
    if x.op == 'spd':
        return free(x.args[0])
    if x.op == 'ssub':
        pairs = dict(x.args[1])
        out = set()
        for k in free(x.args[0]):
            out |= free(pairs[k]) if k in pairs else {k}
        return out
    if x.op == 'sfun':
        return set().union(*[free(a) for a in x.args[1]]) if x.args[1] else set()
    if x.op in ('sder', 'schain'):
        return free(x.args[0])
    if x.op == 'poly':
        out = set()
        for m, c in x.args[0]:
            for a, e in m:
                out |= free(a)
        return out
    return set()


def xreplace(x, m):
    """replace whole subexpressions, outermost first"""
    if x in m:
        return m[x]
    if x in t.SYMBOLS or x.op == 'num':
        return x
    if x in t.EXPRS or x.op in ('spd', 'ssub'):
        base = x.args[0] if x.op == 'ssub' else x
        old = dict(x.args[1]) if x.op == 'ssub' else {}
        new = {}
        for k in free(base):
            v = xreplace(old[k], m) if k in old else m.get(k, k)
            if v is not k:
                new[k] = v
        if not new:
            return base
        return mk('ssub', base, tuple(sorted(new.items(), key=lambda p: p[0].key)))
    if x.op == 'sfun':
        return mk('sfun', x.args[0], tuple(xreplace(a, m) for a in x.args[1]))
    if x.op == 'sder':
        return derivative(xreplace(x.args[0], m),
                          tuple(xreplace(a, m) for a in x.args[1]))
    if x.op == 'poly':
        r = ZERO
        for mono, c in x.args[0]:
            p = mk('num', c)
            for a, e in mono:
                p = t.mul(p, t.pow_(xreplace(a, m), e))
            r = t.add(r, p)
        return r
    return x


def derivative(e, vs):
    """an unevaluated derivative; derivatives of derivatives merge"""
    if not vs:
        return e
    return mk('sder', e, tuple(vs))


def nested(x):
    return any(a.op == 'sfun' for a in x.args[1])


def diff(x, p):
    if x is p:
        return ONE
    if x in t.SYMBOLS or x.op == 'num' or p not in free(x):
        return ZERO
    if x in t.EXPRS:
        return mk('spd', x, (p,))
    if x.op == 'spd':
        return mk('spd', x.args[0], tuple(sorted(
            x.args[1] + (p,), key=lambda v: v.key)))
    if x.op == 'ssub':
        base, pairs = x.args[0], dict(x.args[1])
        r = ZERO
        for k in sorted(free(base), key=lambda v: v.key):
            inner = diff(pairs.get(k, k), p)
            if inner is not ZERO:
                r = t.add(r, t.mul(xreplace(diff(base, k), pairs), inner))
        return r
    if x.op == 'sfun':
        if nested(x):
            # sympy applies the chain rule with its own dummy symbols
            return mk('schain', x, (p,))
        return mk('sder', x, (p,))
    if x.op == 'sder':
        if x.args[0].op == 'sfun' and nested(x.args[0]):
            return mk('schain', x, (p,))
        return mk('sder', x.args[0], tuple(sorted(
            x.args[1] + (p,), key=lambda v: v.key)))
    if x.op == 'schain':
        return mk('schain', x.args[0], x.args[1] + (p,))
    if x.op == 'poly':
        r = ZERO
        for mono, c in x.args[0]:
            for j, (a, e) in enumerate(mono):
                d = diff(a, p)
                if d is ZERO:
                    continue
                term = t.mul(mk('num', c * e), t.mul(t.pow_(a, e - 1), d))
                for i, (b, g) in enumerate(mono):
                    if i != j:
                        term = t.mul(term, t.pow_(b, g))
                r = t.add(r, term)
        return r
    return mk('schain', x, (p,))


def derivatives(x):
    return [y for y in sorted(t.subterms(x), key=lambda q: q.key)
            if y.op == 'sder'] if exprlike(x) else []


def _vars(args):
    out = []
    for a in args:
        if a.op == 'seq' and len(a.args[0]) == 2 and a.args[0][1].op == 'num':
            out += [a.args[0][0]] * int(a.args[0][1].args[0])
        elif a.op == 'num' and out:
            out += [out[-1]] * (int(a.args[0]) - 1)
        else:
            out.append(a)
    return tuple(out)


def counts(x):
    out = []
    for v in x.args[1]:
        if out and out[-1][0] is v:
            out[-1] = (v, out[-1][1] + 1)
        else:
            out.append((v, 1))
    return out


def attribute(I, x, name):
    """attribute of an expression; None when it is not modelled"""
    if name == 'free_symbols':
        return t.setof(seq(*sorted(free(x), key=lambda v: v.key)))
    if name in METHODS:
        return mk('meth', x, name)
    if x.op == 'sder':
        if name == 'expr':
            return x.args[0]
        if name == 'variables':
            return seq(*x.args[1])
        if name == 'variable_count':
            return seq(*[seq(v, const(n)) for v, n in counts(x)])
        if name == 'derivative_count':
            return const(len(x.args[1]))
    if x.op == 'sfun':
        if name == 'args':
            return seq(*x.args[1])
        if name in ('func', '__class__'):
            return mk('sfuncls', x.args[0])
        if name == 'name':
            return const(x.args[0])
    if name == 'is_Derivative':
        return const(x.op == 'sder')
    return patched(I, x, name)


def patched(I, x, name):
    """attributes the package itself adds to sympy's classes"""
    for cls in (['sympy.Derivative'] if x.op == 'sder' else []) + \
            ['sympy.Expr', 'sympy.Basic']:
        p = I.w.patches().get((cls, name))
        if p is not None:
            m, node = p
            v = I.patch_value(cls, name, m, node)
            if v.op == 'prop':
                return I.call(v.args[0], [x], [])
            if v.op in ('fun', 'lam'):
                return mk('bm', v, x)
            return v
    return None


METHODS = {'xreplace', 'subs', 'diff', 'atoms', 'has', 'expand', 'doit',
           'simplify', 'as_independent', 'replace'}


def method(I, x, name, args, kwargs):
    """result of a method, None when it is not modelled"""
    kw = dict(kwargs)
    if any(isinstance(a, tuple) for a in args):
        return None
    args = [I.reify(I.simp(a)) for a in args]
    if name in ('xreplace', 'subs') and args:
        if name == 'subs' and len(args) == 2:
            return xreplace(x, {args[0]: args[1]})
        m = I.simp(I.reify(I.dict_of(args[0])))
        if m.op != 'dict' or m.args[0].op != 'seq':
            return None
        m = dict((p.args[0], p.args[1]) for p in m.args[0].args[0])
        return xreplace(x, m)
    if name == 'diff' and args:
        for p in _vars(args):
            if p not in t.SYMBOLS:
                return None
            x = diff(x, p)
        return x
    if name == 'atoms' and len(args) == 1 and args[0] is ext('sympy.Derivative'):
        return t.setof(seq(*derivatives(x)))
    if name == 'has' and all(a in t.SYMBOLS for a in args):
        return const(any(a in free(x) for a in args))
    if name == 'expand' and not args:
        return expand(x)
    return None


def expand(x):
    """multiplied out; an opaque expression becomes another one"""
    if x in t.EXPRS:
        if x.args[0].startswith('expanded:'):
            return x
        e = t.sym('expanded:' + x.args[0])
        t.TYPED.add(e)
        t.EXPRS[e] = t.EXPRS[x]
        return e
    if x.op == 'poly':
        out = ZERO
        for m, c in x.args[0]:
            p = const(c)
            for a, n in m:
                p = t.mul(p, t.pow_(expand(a), const(n)))
            out = t.add(out, p)
        return out
    return x


def text(I, x):
    """str(x)"""
    if x in t.SYMBOLS:
        return t.SYMBOLS[x]
    if x.op == 'sfun':
        return '%s(%s)' % (x.args[0], ', '.join(text(I, a) for a in x.args[1]))
    if x.op == 'sder':
        return 'Derivative(%s, %s)' % (text(I, x.args[0]), ', '.join(
            text(I, v) if n == 1 else '(%s, %d)' % (text(I, v), n)
            for v, n in counts(x)))
    return t.show(x, 30)


def ident(x):
    return 'id' + hashlib.sha1(t.show(x, 40).encode()).hexdigest()[:8]


def call(I, d, args, kwargs):
    """calls into sympy; None when not modelled"""
    if any(isinstance(a, tuple) for a in args):
        a2 = []
        for a in args:
            if isinstance(a, tuple) and a[0] == '*':
                s = I.simp(I.reify(I.seq_of(a[1])))
                if s.op != 'seq':
                    return None
                a2 += list(s.args[0])
            elif isinstance(a, tuple):
                return None
            else:
                a2.append(a)
        args = a2
    args = [I.simp(a) for a in args]
    if d == 'sympy.Derivative' and args and exprlike(I.reify(args[0])):
        e = I.reify(args[0])
        vs = _vars([I.reify(a) for a in args[1:]])
        if all(v in t.SYMBOLS for v in vs):
            if dict(kwargs).get('evaluate') is TRUE:
                for v in vs:
                    e = diff(e, v)
                return e
            if e.op == 'sder':
                return None         # sympy does not merge these correctly
            return derivative(e, vs)
    if d == 'sympy.diff' and args and exprlike(I.reify(args[0])):
        return method(I, I.reify(args[0]), 'diff', args[1:], kwargs)
    if d == 'sympy.Function' and len(args) == 1 and t.is_str(args[0]):
        return mk('sfuncls', args[0].args[1])
    if d in ('sympy.Eq', 'sympy.Ge', 'sympy.Le', 'sympy.Gt', 'sympy.Lt', 'sympy.Ne') \
            and len(args) == 2 and all(exprlike(I.reify(a)) for a in args) and \
            any(is_expr(I.reify(a)) for a in args):
        return mk('new', ext(d), (), (('lhs', I.reify(args[0])),
                                      ('rhs', I.reify(args[1]))))
    if d == 'sympy.lambdify' and len(args) >= 2:
        s = I.simp(I.reify(I.seq_of(args[0])))
        e = I.reify(args[1])
        if s.op == 'seq' and exprlike(e) and all(a in t.SYMBOLS for a in s.args[0]):
            return mk('slam', s.args[0], e)
    return None


def apply_lambda(I, f, args, kwargs):
    """call of a lambdified expression"""
    names = [t.SYMBOLS[a] for a in f.args[0]]
    vals = {}
    pos = []
    for a in args:
        if isinstance(a, tuple):
            s = I.simp(I.reify(I.seq_of(a[1])))
            if s.op != 'seq':
                return None
            pos += list(s.args[0])
        else:
            pos.append(a)
    for k, v in kwargs:
        if k == '**':
            d = I.simp(I.reify(I.dict_of(v)))
            if d.op != 'dict' or d.args[0].op != 'seq':
                return None
            for p in d.args[0].args[0]:
                if not t.is_str(p.args[0]):
                    return None
                vals[p.args[0].args[1]] = p.args[1]
        else:
            vals[k] = v
    if len(pos) > len(names) or any(n in vals for n in names[:len(pos)]):
        I.raise_type('TypeError')
        return t.UNDEF
    vals.update(zip(names, pos))
    if set(vals) != set(names):
        I.raise_type('TypeError')
        return t.UNDEF
    m = dict((a, I.reify(vals[t.SYMBOLS[a]])) for a in f.args[0])
    if [s for s in free(f.args[1]) if s not in m] or derivatives(f.args[1]):
        I.raise_type('NameError')
        return t.UNDEF
    return xreplace(f.args[1], m)


t.TEXT = text
