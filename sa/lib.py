"""Meaning of builtins, container methods, numpy/scipy/sympy/inspect calls for
the value-flow analysis.  Only rewriting of terms; nothing is executed."""
import keyword
import ast
import math
import re

from . import terms as t
from . import symp
from . import larr
from .terms import (mk, const, ext, ite, and_, or_, not_, truth, TRUE, FALSE,
                    NONE, UNDEF, ZERO, ONE, MINUS1, seq, cat, attr, at)

SEQ_ATTRS = {'independent_vars', 'dependent_vars', 'interdependent_vars', 'params',
             'vars', 'free_params', 'parameters', 'ordered_symbols', 'args',
             'minimizers', 'constraints', 'variables', 'shape'}
SEQ_OPS = {'seq', 'map', 'cat', 'flat', 'slice', 'rev', 'unordered', 'pairs'}
STR_FNS = {'format', 'join'}

BUILTINS = {
    'len', 'range', 'zip', 'enumerate', 'map', 'filter', 'sum', 'any', 'all',
    'min', 'max', 'abs', 'sorted', 'reversed', 'list', 'tuple', 'dict', 'set',
    'frozenset', 'iter', 'next', 'isinstance', 'issubclass', 'hasattr',
    'getattr', 'setattr', 'delattr', 'callable', 'type', 'print', 'id', 'hash',
    'str', 'repr', 'int', 'float', 'bool', 'complex', 'vars', 'round', 'super',
    'object', 'property', 'staticmethod', 'classmethod', 'slice', 'pow',
    'divmod', 'ord', 'chr', 'bytes', 'globals', 'locals', 'dir', 'format',
    'open', 'input', 'exec', 'eval'}
TYPES = {'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'float',
         'bool', 'complex', 'object', 'bytes', 'type', 'slice', 'property'}

SIGS = {
    'scipy.optimize.minimize': ['fun', 'x0', 'args', 'method', 'jac', 'hess',
                                'hessp', 'bounds', 'constraints', 'tol',
                                'callback', 'options'],
    'scipy.optimize.differential_evolution': ['func', 'bounds', 'args',
                                              'strategy', 'maxiter', 'popsize',
                                              'tol', 'mutation', 'recombination',
                                              'seed', 'callback', 'disp',
                                              'polish', 'init'],
    'scipy.optimize.basinhopping': ['func', 'x0', 'niter', 'T', 'stepsize',
                                    'minimizer_kwargs', 'take_step',
                                    'accept_test', 'callback'],
    'scipy.optimize.least_squares': ['fun', 'x0', 'jac', 'bounds', 'method'],
    'scipy.optimize.NonlinearConstraint': ['fun', 'lb', 'ub', 'jac', 'hess'],
    'scipy.integrate.solve_ivp': ['fun', 't_span', 'y0', 'method', 't_eval',
                                  'dense_output', 'events', 'vectorized', 'args'],
    'numpy.broadcast_to': ['array', 'shape', 'subok'],
    'numpy.expand_dims': ['a', 'axis'],
    'numpy.linspace': ['start', 'stop', 'num'],
    'numpy.concatenate': ['arrays', 'axis'],
    'numpy.allclose': ['a', 'b', 'rtol', 'atol'],
    'numpy.percentile': ['a', 'q'],
    'numpy.nextafter': ['x1', 'x2'],
    'sympy.lambdify': ['args', 'expr', 'modules', 'printer', 'use_imps',
                       'dummify'],
    'sympy.symbols': ['names'],
    'inspect.Parameter': ['name', 'kind', 'default', 'annotation'],
    'inspect.Signature': ['parameters'],
}
DEFAULTS = {
    ('numpy.concatenate', 'axis'): ZERO,
    ('numpy.linspace', 'num'): const(50),
}
# functions of one expression, without normal form
SYMFUNCS = {'sympy.' + f for f in (
    'Abs sin cos tan log sinh cosh tanh asin acos atan erf erfc gamma sign '
    'Heaviside re im conjugate floor ceiling').split()}
NEWLIKE = {'inspect.Parameter', 'scipy.optimize.NonlinearConstraint',
           'scipy.optimize.BFGS', 'inspect.Signature'}
IDENT = {'numpy.asarray', 'numpy.asanyarray'}
t.NEVER_NONE |= {'numpy.' + n for n in (
    'array', 'zeros', 'ones', 'concatenate', 'linspace', 'stack',
    'broadcast_to', 'squeeze', 'atleast_1d', 'atleast_2d')} | {
        'scipy.integrate.solve_ivp', 'sympy.lambdify', 'sympy.Derivative'}

for _a, _b in (('OrderedDict', 'dict'), ('Counter', 'dict'),
               ('defaultdict', 'dict')):
    t.EXTISA['collections.' + _a] = {'dict', 'collections.abc.Mapping'}
t.EXTISA['dict'] = {'collections.abc.Mapping'}
t.EXTISA['list'] = {'collections.abc.Sequence', 'collections.abc.Iterable'}
t.EXTISA['tuple'] = {'collections.abc.Sequence', 'collections.abc.Iterable'}
t.EXTISA['str'] = {'collections.abc.Sequence', 'collections.abc.Iterable'}
t.EXTISA['set'] = {'collections.abc.Set', 'collections.abc.Iterable'}


# intrinsics of driver modules
SPEC = {'spec_words', 'spec_injective', 'spec_code', 'spec_sym', 'spec_note', 'spec_same_length', 'spec_row_length',
        'spec_number', 'spec_array', 'spec_assume', 'spec_size', 'spec_intseq', 'spec_unknown', 'spec_typed',
        'spec_var', 'spec_par', 'spec_expr', 'spec_lambdify', 'spec_scalar'}


def spec_call(I, name, a, kw):
    if name == 'spec_sym':
        s = t.sym(a[0].args[1])
        if len(a) > 1:
            c = a[1]
            if t.is_str(c):
                (I.seqsyms if c.args[1] == 'Seq' else I.dictsyms).add(s)
            else:
                I.types[s] = I.w.classes[c.args[0]]
                t.TYPED.add(s)
        return s
    if name == 'spec_scalar':
        s = t.sym(a[0].args[1])
        t.SCALARS.add(s)
        return s
    if name in ('spec_var', 'spec_par'):
        # a named Variable / Parameter; differently named ones are distinct
        n = a[0].args[1]
        s = t.sym('%s:%s' % (name[5:], n))
        I.types[s] = I.w.cls('symfit.core.argument.' + {
            'spec_var': 'Variable', 'spec_par': 'Parameter'}[name])
        t.TYPED.add(s)
        t.SYMBOLS[s] = n
        return s
    if name == 'spec_expr':
        # an expression with exactly the given free symbols
        s = t.sym('expr:' + a[0].args[1])
        t.TYPED.add(s)
        t.EXPRS[s] = I.reify(as_seq(I, a[1]))
        return s
    if name == 'spec_lambdify':
        return symp.call(I, 'sympy.lambdify', list(a), {})
    if name == 'spec_typed':
        I.types[a[0]] = I.w.classes[a[1].args[0]]
        t.TYPED.add(a[0])
        return a[0]
    if name == 'spec_note':
        I.event('note', *[I.reify(x) for x in a])
        return NONE
    if name == 'spec_code':
        # what a piece of program text means, however it is parenthesised
        x = I.reify(I.simp(a[0]))
        if not t.is_str(x):
            I.unmodelled.append('spec_code')
            return t.call(ext('spec_code'), (x,), ())
        try:
            return const(ast.dump(ast.parse(x.args[1], mode='eval')))
        except SyntaxError:
            return const('no program: ' + x.args[1])
    if name == 'spec_words':
        # a text however it is laid out and its numbers are formatted
        return words(I.reify(I.simp(a[0])))
    if name == 'spec_injective':
        # a mapping which gives different values to different keys
        t.INJECTIVE.add(I.reify(a[0]))
        return NONE
    if name == 'spec_same_length':
        rep = I.reify(as_seq(I, a[0]))
        for x in a[1:]:
            t.LEN_EQ[I.reify(as_seq(I, x))] = t.LEN_EQ.get(rep, rep)
        return NONE
    if name == 'spec_row_length':
        rep = I.reify(as_seq(I, a[1]))
        t.LEN_ROW[I.reify(as_seq(I, a[0]))] = t.LEN_EQ.get(rep, rep)
        return NONE
    if name == 'spec_assume':
        c = t.truth(a[0])
        I.assumed = t.and_(I.assumed, c)
        I.assume(c)
        return NONE
    if name == 'spec_size':
        if I.size is not None:
            x = I.reify(a[0])
            if x.op in ('attr', 'call', 'sym', 'item', 'at'):
                n = I.size if len(a) < 2 else a[1].args[0]
                n = int(n)
                items = [mk('at', x, const(j)) for j in range(n)]
                t.DISTINCT.update(items)
                I.litmap[x] = seq(*items)
        return NONE
    if name in ('spec_number', 'spec_array'):
        # an opaque result which is a number / an array
        s = I.reify(a[0])
        for y in t.leafset(s) | {s}:
            (t.SCALARS if name == 'spec_number' else t.ARRAYS).add(y)
        return s
    if name == 'spec_unknown':
        return I.unk(*[x.args[1] for x in a])
    raise KeyError(name)


def words(x):
    if x.op == 'ite':
        return ite(x.args[0], words(x.args[1]), words(x.args[2]))
    out = []
    for q in x.args[0] if x.op == 'fmt' else (x,):
        if t.is_str(q):
            q = const(re.sub(r'\s+', ' ', q.args[1]))
        elif q.op == 'strm' and len(q.args) == 2:
            q = t.strm(q.args[0])
        out.append(q)
    if out and t.is_str(out[0]):
        out[0] = const(out[0].args[1].lstrip())
    if out and t.is_str(out[-1]):
        out[-1] = const(out[-1].args[1].rstrip())
    x = t.fmt(out)
    return const(' '.join(x.args[1].split())) if t.is_str(x) else x


def builtin_name(I, name):
    if name in TYPES:
        return ext(name)
    if name in BUILTINS:
        return mk('builtin', name)
    if name == 'NotImplemented':
        return ext('NotImplemented')
    if name in ('True', 'False', 'None'):
        return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
    if name in SPEC:
        return mk('builtin', name)
    if name == '__name__':
        return const('module')
    if name == 'Ellipsis':
        return t.ELLIPSIS
    if name[:1].isupper() or name in t.EXTISA:
        return ext(name)
    return ext(name)


def ext_value(I, dotted):
    d = I.w.alias(dotted)
    if d == 'numpy.newaxis':
        return NONE
    if d in ('sympy.S.Zero', 'sympy.S.One', 'sympy.S.NegativeOne'):
        return const({'Zero': 0, 'One': 1, 'NegativeOne': -1}[d.rsplit('.', 1)[1]])
    if d in ('numpy.inf', 'math.inf', 'numpy.Inf'):
        return const(float('inf'))
    if d == 'sympy.printing.precedence.PRECEDENCE':
        return t.dict_(seq(*[t.pair(const(k), const(v)) for k, v in PRECEDENCE]))
    if d.startswith('builtins.'):
        return builtin_name(I, d[9:])
    return ext(d)


PRECEDENCE = (
    ('Lambda', 1), ('Xor', 10), ('Or', 20), ('And', 30), ('Relational', 35),
    ('Add', 40), ('Mul', 50), ('Pow', 60), ('Func', 70), ('Not', 100), ('Atom', 1000),
    ('BitwiseOr', 36), ('BitwiseXor', 37), ('BitwiseAnd', 38))


def ext_attr(I, dotted, name):
    if name == '__name__':
        return const(dotted.split('.')[-1])
    if dotted in ('str', 'dict', 'list', 'set', 'tuple', 'object'):
        return mk('unbound', dotted, name)
    p = I.w.patches().get((dotted, name))
    if p is not None:
        return I.patch_value(dotted, name, *p)
    r = I.w.resolve_dotted(dotted + '.' + name)
    if r[0] != 'ext':
        return I._resolved(r)
    return ext_value(I, dotted + '.' + name)


def fun_attr(I, v, name, default):
    if v.op == 'bm' and name == '__self__':
        return v.args[1]
    if v.op == 'bm' and name == '__func__':
        return v.args[0]
    if v.op in ('fun', 'bm') and name in ('__name__', '__qualname__'):
        f = v if v.op == 'fun' else v.args[0]
        if f.op == 'fun':
            return const(I.w.funcs[f.args[0]].name)
    if v.op == 'partial' and name in ('func', 'args', 'keywords'):
        if name == 'func':
            return v.args[0]
        if name == 'args':
            return seq(*v.args[1])
        return t.dict_(seq(*[t.pair(const(a), b) for a, b in v.args[2]]))
    if v.op == 'builtin' and v.args[0] in ('dict', 'str'):
        return mk('unbound', v.args[0], name)
    if default is not None:
        return ite(mk('hasattr', v, name), attr(v, name), default)
    if v.op == 'fun' and name == '__get__':
        return attr(v, name)
    return attr(v, name)


def term_attr(I, v, name):
    if v.op == 'new' and v.args[0] is ext('inspect.Signature') and \
            name == 'parameters':
        ps = dict(v.args[2]).get('parameters', seq())
        return t.dict_(t.seq_map(ps, lambda p: t.pair(I.getattr(p, 'name'), p)))
    if v.op == 'new':
        c = v.args[0]
        for n, x in v.args[2]:
            if n == name:
                return x
        if c.op == 'ext' and c.args[0] == 'inspect.Parameter':
            if name == 'default':
                return ext('inspect.Parameter.empty')
            if name == 'kind':
                return ext('inspect.Parameter.POSITIONAL_OR_KEYWORD')
        if c.op == 'ntuple' and name in c.args[1]:
            return attr(v, name)
    if v.op == 'new' and name == '__class__':
        return v.args[0]
    if v.op in ('seq', 'map', 'cat', 'pair', 'flat'):
        if name == '__class__':
            return ext('tuple')
        return mk('meth', v, name)
    if v.op == 'dict':
        if name == '__class__':
            return ext('dict')
        return mk('meth', v, name)
    if t.is_str(v) or v.op in ('fmt', 'strm'):
        if name == '__class__':
            return ext('str')
        return mk('meth', v, name)
    if v.op in ('setof',):
        return mk('meth', v, name)
    if name in ('shape', 'ndim', 'size', 'T') and larr.isarr(v):
        sh = larr.shape(v)
        if name == 'shape':
            return seq(*[const(k) for k in sh])
        if name in ('ndim', 'size'):
            return larr.call(I, name, [v], {})
        if len(sh) < 2:
            return v
        return larr.call(I, 'transpose', [v], {})
    if name == 'size' and v.op in ('npop', 'poly', 'sym'):
        return t.npop('prod', attr(v, 'shape'))
    if name == 'shape' and v.op == 'call' and v.args[0] is ext('numpy.broadcast') and \
            not v.args[2] and v.args[1]:
        if all(y is v.args[1][0] for y in v.args[1]):
            return attr(v.args[1][0], 'shape')
        sh = common_shape(v.args[1])
        if isinstance(sh, tuple):
            return seq(*[const(k) for k in sh])
    return None


def common_shape(arrays):
    """the shape numpy broadcasts arrays of known shapes to, False if it refuses"""
    shapes = [larr.shape(y) if larr.isarr(y) or larr.scalar(y) else None for y in arrays]
    if None in shapes:
        return None
    out = []
    for k in range(max(len(s) for s in shapes)):
        ns = set(s[-1 - k] for s in shapes if k < len(s)) - {1}
        if len(ns) > 1:
            return False
        out.insert(0, ns.pop() if ns else 1)
    return tuple(out)


def mixin_attr(I, c, exts, v, name):
    if any('Mapping' in e for e in exts):
        if name in ('keys', 'values', 'items', 'get', '__contains__'):
            return mk('meth', v, name)
    return None


# ------------------------------------------------------------------ helpers
def deref(I, v):
    """value of an array object"""
    if v.op == 'ref' and I.kindof(v) == 'arr':
        return I.simp(I.rget(v, '$val'))
    if v.op == 'ite' and any(x.op == 'ref' and I.kindof(x) == 'arr'
                             for x in t.leafset(v)):
        return t.mapleaves(v, lambda x: deref(I, x))
    return v


def is_list(I, v):
    return v.op == 'ref' and I.kindof(v) in ('list',)


def seqlike(I, v):
    if v.op in SEQ_OPS:
        return True
    if v.op == 'ref' and I.kindof(v) in ('list',):
        return True
    if v.op == 'attr' and v.args[1] in SEQ_ATTRS:
        return True
    if v.op == 'sym' and v in getattr(I, 'seqsyms', ()):
        return True
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in (
            'sorted', 'list', 'tuple'):
        return True
    return False


def iterable(I, v):
    """certainly not a scalar"""
    if v.op == 'npop' and v.args[0] in ('array', 'asarr') and len(v.args) == 2:
        return iterable(I, v.args[1])
    return seqlike(I, v) or setlike(I, v)


def setlike(I, v):
    if v.op == 'setof' or (v.op == 'ref' and I.kindof(v) == 'set'):
        return True
    if v.op == 'attr' and v.args[1] in ('free_symbols',):
        return True
    if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] in ('atoms',):
        return True
    return False


def set_term(I, v):
    """setof/sequence term of the elements of a set-like value"""
    if v.op == 'ref':
        return I.simp(I.rget(v, '$seq')) if I.kindof(v) == 'set' else I.seq_of(v)
    if v.op == 'setof':
        return v.args[0]
    return I.seq_of(v)


def strlike(v):
    return t.is_str(v) or v.op in ('fmt', 'strm') or \
        (v.op == 'attr' and v.args[1] in ('name', '__name__'))


# ------------------------------------------------------------------ operators
def binop(I, op, a, b):
    a, b = I.simp(deref(I, a)), I.simp(deref(I, b))
    if I.dead():
        return UNDEF
    for x in (a, b):
        if x.op == 'ite' and any(l.op == 'ref' or l.op in SEQ_OPS or strlike(l) or
                                 I.typeof(l) is not None or larr.isarr(l)
                                 for l in t.leafset(x)):
            if x is a:
                return I.branch_leaves(a, lambda y: binop(I, op, y, b))
            return I.branch_leaves(b, lambda y: binop(I, op, a, y))
    r = _dunder(I, op, a, b)
    if r is not None:
        return r
    if op == 'Add':
        if strlike(a) and strlike(b):
            return t.fmt([a, b])
        if strlike(a) or strlike(b):
            return t.fmt([t.strm(a), t.strm(b)])
        if seqlike(I, a) and seqlike(I, b):
            s = cat(I.seq_of(a), I.seq_of(b))
            if is_list(I, a) or is_list(I, b) or not (
                    a.op in SEQ_OPS and b.op in SEQ_OPS):
                return I.new_list(s)
            return s
        if (seqlike(I, a) and is_list(I, a)) or (is_list(I, b)):
            if a.op in ('attr', 'item', 'call', 'sym', 'ref') and \
                    b.op in ('attr', 'item', 'call', 'sym', 'ref'):
                return I.new_list(cat(I.seq_of(a), I.seq_of(b)))
    if setlike(I, a) or setlike(I, b):
        if op in ('BitOr', 'Sub', 'BitAnd', 'BitXor'):
            return I.new_set(_setop(I, op, set_term(I, a), set_term(I, b)))
    if op == 'BitOr' and (_isdict(I, a) or _isdict(I, b)):
        return I.new_dict(t.dict_(cat(dpairs(I, a), dpairs(I, b))))
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if t.is_str(x) and y.op == 'num':
                return const(x.args[1] * int(y.args[0]))
            if seqlike(I, x):
                s = I.seq_of(x)
                if y.op == 'num' and y.args[0].denominator == 1 and \
                        s.op == 'seq' and not (is_arr(s)):
                    return I.new_list(seq(*(list(s.args[0]) *
                                            max(0, int(y.args[0])))))
                if t.is_index(y):
                    if s.op == 'seq' and len(s.args[0]) == 1:
                        return I.new_list(t.map_(t.range_dom(y), t.fresh(), TRUE,
                                                 s.args[0][0]))
                    return I.new_list(mk('repeat', s, y))
                return elementwise(I, op, a, b)
    if op == 'Mod' and strlike(a):
        return percent(I, a, b)
    for x, y in ((a, b), (b, a)):
        if x is NONE and op in DUNDER and (
                y is NONE or y.op == 'num' or t.is_str(y) or is_list(I, y)):
            I.raise_type('TypeError')
            return UNDEF
        if op in ('Sub', 'Div', 'Pow') and y.op == 'num' and (
                x.op in SEQ_OPS or is_list(I, x)):
            I.raise_type('TypeError')
            return UNDEF
    if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
        if a.op in SEQ_OPS or b.op in SEQ_OPS or is_list(I, a) or is_list(I, b):
            return elementwise(I, op, a, b)
        ra, rb = rowarray(a), rowarray(b)
        if ra is not None or rb is not None:
            if ra is not None and rb is not None:
                return elementwise(I, op, ra, rb)
            return elementwise(I, op, ra if ra is not None else a,
                               rb if rb is not None else b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'attr' and x.args[1] == 'T' and y.op == 'num' and \
                    rowarray(x.args[0]) is not None:
                z = rowarray(x.args[0])
                return attr(elementwise(I, op, *((z, y) if x is a else (y, z))), 'T')
    a, b = num(I, a), num(I, b)
    if op == 'Add':
        return t.add(a, b)
    if op == 'Sub':
        return t.sub(a, b)
    if op == 'Mult':
        return t.mul(a, b)
    if op == 'Div':
        return t.div(a, b)
    if op == 'Pow':
        return t.pow_(a, b)
    if op == 'MatMult':
        return mk('call', ext('matmul'), (a, b), ())
    if op in ('BitAnd', 'BitOr'):
        if t.is_bool(a) and t.is_bool(b):
            return and_(a, b) if op == 'BitAnd' else or_(a, b)
    if op == 'FloorDiv' and a.op == 'num' and b.op == 'num' and b.args[0]:
        return const(a.args[0] // b.args[0])
    if op == 'Mod' and a.op == 'num' and b.op == 'num' and b.args[0]:
        return const(a.args[0] % b.args[0])
    return t.call(ext('op.' + op), (I.reify(a), I.reify(b)), ())


DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
          'Div': '__truediv__', 'Pow': '__pow__'}


def _dunder(I, op, a, b):
    m = DUNDER.get(op)
    if m is None:
        return None
    if a.op == 'ref' and I.kindof(a) == 'obj':
        cls = I.rget(a, '$cls')
        if cls.op == 'cls':
            f = I.lookup_method(cls, m, a)
            if f is not None:
                return I.call(f, [b], [])
    return None


def rowarray(a):
    if a.op == 'npop' and a.args[0] == 'array' and len(a.args) == 2 and \
            a.args[1].op in ('map', 'seq'):
        return a.args[1]
    return None


def is_arr(s):
    return False


def num(I, v):
    v = deref(I, v)
    if v.op == 'ref':
        return I.reify(v)
    return t.numeric_guard(v)


def elementwise(I, op, a, b):
    """sequence treated as an array"""
    sa = I.seq_of(a) if (a.op == 'ref' or a.op in SEQ_OPS) else None
    sb = I.seq_of(b) if (b.op == 'ref' or b.op in SEQ_OPS) else None
    if sa is not None and sb is not None:
        z = _zip(I, [sa, sb])
        return t.npop('array', I.map_seq(z, lambda e: binop(
            I, op, at(e, ZERO), at(e, ONE))))
    s, o = (sa, b) if sa is not None else (sb, a)
    if s.op == 'map':
        r = _rowsums(s)
        if r is not None:
            return binop(I, op, *((r, o) if sa is not None else (o, r)))
    if sa is not None:
        return t.npop('array', I.map_seq(sa, lambda e: binop(I, op, e, b)))
    return t.npop('array', I.map_seq(sb, lambda e: binop(I, op, a, e)))


def _setop(I, op, a, b):
    if op == 'BitOr':
        return t.setof(cat(a, b)).args[0]
    if op == 'Sub':
        return I.filter_seq(a, lambda e: not_(t.in_(e, b)))
    if op == 'BitAnd':
        return I.filter_seq(a, lambda e: t.in_(e, b))
    x = I.filter_seq(a, lambda e: not_(t.in_(e, b)))
    return cat(x, I.filter_seq(b, lambda e: not_(t.in_(e, a))))


def _isdict(I, v):
    return v.op == 'dict' or (v.op == 'ref' and I.kindof(v) == 'dict')


def dpairs(I, v):
    d = I.dict_of(v)
    return t.lift(lambda x: x.args[0] if x.op == 'dict' else mk('pairs', x, ()), d)


def unop(I, op, v):
    v = I.simp(deref(I, v))
    if op == 'USub':
        if v.op == 'ref' or I.typeof(v) is not None or (
                v.op == 'ite' and any(x.op == 'ref' or I.typeof(x) is not None
                                      for x in t.leafset(v))):
            def f(x):
                ty = None
                if x.op == 'ref' and I.kindof(x) == 'obj':
                    c = I.rget(x, '$cls')
                    ty = c if c.op == 'cls' else None
                elif I.typeof(x) is not None:
                    ty = I.typeof(x).term
                if ty is not None:
                    m = I.lookup_method(ty, '__neg__', x)
                    if m is not None:
                        return I.call(m, [], [])
                return t.neg(num(I, x))
            return I.branch_leaves(v, f)
        if v.op in SEQ_OPS:
            return elementwise(I, 'Mult', MINUS1, v)
        if rowarray(v) is not None:
            return elementwise(I, 'Mult', MINUS1, rowarray(v))
        if v.op == 'attr' and v.args[1] == 'T' and rowarray(v.args[0]) is not None:
            return attr(elementwise(I, 'Mult', MINUS1, rowarray(v.args[0])), 'T')
        return t.neg(num(I, v))
    if op == 'UAdd':
        return v
    if op == 'Not':
        return not_(I.truth(v))
    if op == 'Invert' and t.is_bool(v):
        return not_(v)
    if op == 'Invert' and v.op == 'npop' and v.args[0] in ('mask', 'unmask'):
        return unmask(v)
    return t.call(ext('op.' + op), (I.reify(v),), ())


def eq_values(I, a, b):
    a, b = I.simp(deref(I, a)), I.simp(deref(I, b))
    for x in (a, b):
        if x.op == 'ite' and any(l.op == 'ref' or I.typeof(l) is not None
                                 for l in t.leafset(x)):
            if x is a:
                return I.branch_leaves(a, lambda y: eq_values(I, y, b))
            return I.branch_leaves(b, lambda y: eq_values(I, a, y))
    for x, y in ((a, b), (b, a)):
        ty = None
        if x.op == 'ref' and I.kindof(x) == 'obj':
            c = I.rget(x, '$cls')
            ty = c if c.op == 'cls' else None
        elif I.typeof(x) is not None:
            ty = I.typeof(x).term
        if ty is not None:
            if y is NONE:
                return FALSE
            m = I.lookup_method(ty, '__eq__', x)
            if m is not None:
                r = I.call(m, [y], [])
                ni = ext('NotImplemented')
                if ni not in t.leafset(r):
                    return r
                return I.branch_leaves(r, lambda l: reflected(I, x, y)
                                       if l is ni else l)
    if a.op == 'ref' and b.op == 'ref' and I.kindof(a) == 'obj' and \
            I.kindof(b) == 'obj':
        return const(a is b)
    if _isset(I, a) and _isset(I, b):
        return t.eq(t.setof(set_term(I, a)), t.setof(set_term(I, b)))
    a2 = I.seq_of(a) if seqlike(I, a) else I.reify(a)
    b2 = I.seq_of(b) if seqlike(I, b) else I.reify(b)
    a2, b2 = I.reify(a2), I.reify(b2)
    if a2.op in ('map', 'cat', 'flat') and b2.op == 'seq' and not b2.args[0]:
        return not_(truth(a2))
    if b2.op in ('map', 'cat', 'flat') and a2.op == 'seq' and not a2.args[0]:
        return not_(truth(b2))
    if a.op == 'ref' and b.op == 'ref' and I.kindof(a) != I.kindof(b):
        return FALSE
    return t.eq(a2, b2)


def reflected(I, x, y):
    """x == y where x declines"""
    ty = None
    if y.op == 'ref' and I.kindof(y) == 'obj':
        c = I.rget(y, '$cls')
        ty = c if c.op == 'cls' else None
    elif I.typeof(y) is not None:
        ty = I.typeof(y).term
    if ty is not None:
        m = I.lookup_method(ty, '__eq__', y)
        if m is not None:
            ni = ext('NotImplemented')
            return I.branch_leaves(I.call(m, [x], []), lambda l: const(x is y)
                                   if l is ni else l)
    if x is y or (x.op == 'ref' and I.kindof(x) == 'obj' and (
            y.op == 'const' or y.op == 'ref')):
        return const(x is y)
    return t.eq(I.reify(x), I.reify(y))


def _isset(I, v):
    return v.op == 'setof' or (v.op == 'ref' and I.kindof(v) == 'set')


ARRAYCALLS = {'numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.linspace',
              'numpy.arange', 'numpy.sort', 'numpy.unique'}


def arraylike(I, x):
    """certainly an array of at least one dimension"""
    if x.op == 'npop':
        if x.args[0] in ('asarr', 'array'):
            y = x.args[1] if len(x.args) > 1 else x
            return y.op in SEQ_OPS or y in I.seqsyms
        return x.args[0] in ('mask', 'unmask')
    if x.op == 'rev':
        return arraylike(I, x.args[0])
    if x.op == 'item':
        return arraylike(I, x.args[0]) and arraylike(I, x.args[1])
    if x.op == 'call' and x.args[0].op == 'ext':
        return x.args[0].args[0] in ARRAYCALLS
    return False


def mask(I, op, a, b):
    """elementwise comparison of arrays"""
    if op in ('Gt', 'GtE'):
        a, b = b, a
    if op in ('Lt', 'Gt'):
        return t.npop('mask', const('lt'), a, b)
    if op in ('LtE', 'GtE'):
        return unmask(t.npop('mask', const('lt'), b, a))
    a, b = sorted((a, b), key=lambda q: q.key)
    r = t.npop('mask', const('eq'), a, b)
    return r if op == 'Eq' else unmask(r)


def unmask(x):
    if x.op == 'npop' and x.args[0] == 'unmask':
        return x.args[1]
    return t.npop('unmask', x)


def compare(I, op, a, b):
    if op in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE'):
        x, y = I.simp(deref(I, a)), I.simp(deref(I, b))
        if arraylike(I, x) or arraylike(I, y):
            return mask(I, op, I.reify(x), I.reify(y))
    if op == 'Eq':
        return eq_values(I, a, b)
    if op == 'NotEq':
        r = eq_values(I, a, b)
        return not_(I.truth(r))
    if op in ('Is', 'IsNot'):
        a, b = I.simp(a), I.simp(b)

        def f(x, y):
            if x.op == 'ref' and y.op == 'ref':
                if x.args[0] != y.args[0]:
                    return FALSE
                return const(x is y) if x is y else t.is_(x, y)
            if x.op == 'ref' or y.op == 'ref':
                return FALSE if x is not y else TRUE
            return t.is_(x, y)
        r = t.lift(f, a, b)
        return r if op == 'Is' else not_(r)
    if op in ('In', 'NotIn'):
        r = contains(I, I.simp(b), I.simp(a))
        return r if op == 'In' else not_(truth(r))
    a, b = I.simp(deref(I, a)), I.simp(deref(I, b))
    if _isset(I, a) or _isset(I, b):
        sa, sb = set_term(I, a), set_term(I, b)
        if op in ('GtE', 'Gt'):
            sa, sb = sb, sa
        bad = I.filter_seq(sa, lambda e: not_(t.in_(e, sb)))
        sub = not_(truth(bad))
        if op in ('LtE', 'GtE'):
            return sub
        return and_(sub, not_(t.eq(t.setof(sa), t.setof(sb))))
    a, b = num(I, a), num(I, b)
    if op == 'Lt':
        return t.lt(a, b)
    if op == 'Gt':
        return t.lt(b, a)
    if op == 'LtE':
        return t.le(a, b)
    return t.le(b, a)


def contains(I, o, x):
    if o.op == 'ite':
        return I.branch_leaves(o, lambda y: contains(I, y, x))
    x = I.reify(x) if x.op == 'ref' and I.kindof(x) != 'obj' else x
    if o.op == 'ref':
        k = I.kindof(o)
        if k in ('list', 'set'):
            return t.in_(x, I.simp(I.rget(o, '$seq')))
        if k == 'dict':
            d = I.simp(I.rget(o, '$dict'))
            return t.lift(lambda y: t.in_(x, y if y.op != 'dict' else
                                          _dkeys(y)), d)
        if k == 'iter':
            return t.in_(x, I.seq_of(o))
        cls = I.rget(o, '$cls')
        if cls.op == 'cls':
            m = I.lookup_method(cls, '__contains__', o)
            if m is not None:
                return I.truth(I.call(m, [x], []))
            if own_getitem(I, o):
                return I.truth(I.attempt(lambda: (I.getitem(o, x), TRUE)[1],
                                         [ext('KeyError')], lambda: FALSE))
        return t.in_(x, I.seq_of(o))
    if o.op == 'vars':
        if t.is_str(x):
            v = I.rget(o.args[0], x.args[1])
            return t.mapleaves(v, lambda l: FALSE if l is UNDEF else TRUE)
        return t.in_(x, I.seq_of(o))
    ov = I.st.heap.get((o, '$dict'))
    if ov is not None:
        return t.lift(lambda y: t.in_(x, y if y.op != 'dict' else _dkeys(y)), ov)
    ov = I.st.heap.get((o, '$seq'))
    if ov is not None:
        return t.in_(x, ov)
    ty = I.typeof(o)
    if ty is not None:
        m = I.lookup_method(ty.term, '__contains__', o)
        if m is not None:
            return I.truth(I.call(m, [x], []))
        return t.in_(x, I.seq_of(o))
    if t.is_str(o) and t.is_str(x):
        return const(x.args[1] in o.args[1])
    if o.op == 'dict':
        return t.in_(x, _dkeys(o))
    return t.in_(x, o)


def _dkeys(d):
    """key sequence where opaque splices stay opaque mappings"""
    parts = d.args[0].args[0] if d.args[0].op == 'cat' else (d.args[0],)
    out = []
    for p in parts:
        if p.op == 'pairs':
            out.append(p if p.args[1] else p.args[0])
        elif p.op == 'dictdel':
            out.append(p)
        else:
            out.append(t.dict_keys(mk('dict', p)))
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


# ------------------------------------------------------------------ strings
def fmt_value(I, x, spec, conv):
    x = I.reify(I.simp(x))
    if spec is not None and spec is not const('') and not (
            t.is_str(spec) and spec.args[1] == ''):
        if t.is_str(spec) and t.is_str(x) and not conv:
            try:
                return const(format(x.args[1], spec.args[1]))
            except ValueError:
                I.raise_type('ValueError')
                return UNDEF
        return mk('strm', x, spec, const(conv)) if conv else mk('strm', x, spec)
    if conv == 'r':
        return mk('strm', x, const(''), const('r'))
    return t.strm(x)


def str_format(I, s, args, kwargs):
    """'...'.format(...) with a constant template"""
    import string
    out = []
    auto = 0
    kw = dict((n, v) for n, v in kwargs if n != '**')
    splat = [v for n, v in kwargs if n == '**']
    pos = [a for a in args]
    if any(isinstance(a, tuple) for a in pos):
        return None
    try:
        pieces = list(string.Formatter().parse(s))
    except ValueError:
        return None
    for lit, field, spec, conv in pieces:
        if lit:
            out.append(const(lit))
        if field is None:
            continue
        name, _, rest = field.partition('.')
        idx = None
        if '[' in name:
            return None
        if name == '':
            idx = auto
            auto += 1
        elif name.isdigit():
            idx = int(name)
        if idx is not None:
            if idx >= len(pos):
                return None
            v = pos[idx]
        elif name in kw:
            v = kw[name]
        elif splat:
            v = t.dict_get(I.dict_of(splat[0]), const(name), t.MISSING)
        else:
            return None
        if rest:
            v = I.getattr(v, rest)
        out.append(fmt_value(I, v, const(spec) if spec else None, conv or ''))
    return t.fmt(out)


def percent(I, a, b):
    import re
    if not t.is_str(a):
        return t.call(ext('op.percent'), (a, I.reify(b)), ())
    items = list(b.args[0]) if b.op == 'seq' else [b]
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)([sdrfeg%])', a.args[1]):
        out.append(const(a.args[1][pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            out.append(const('%'))
            continue
        if k >= len(items):
            return t.call(ext('op.percent'), (a, I.reify(b)), ())
        if m.group(2) in 'sd' and not m.group(1):
            out.append(fmt_value(I, items[k], None, ''))
        else:
            spec = m.group(1) + m.group(2)
            if m.group(2) == 's':
                spec = spec[1:-1] if spec[0] == '-' else '>' + spec[:-1]
            out.append(fmt_value(I, items[k], const(spec), ''))
        k += 1
    out.append(const(a.args[1][pos:]))
    return t.fmt(out)


def str_of(I, x):
    x = I.simp(x)
    if x.op == 'ite':
        return I.branch_leaves(x, lambda y: str_of(I, y))
    if x.op == 'ref' and I.kindof(x) == 'obj':
        c = I.rget(x, '$cls')
        if c.op == 'cls':
            m = I.lookup_method(c, '__str__', x)
            if m is not None:
                return I.call(m, [], [])
    if x.op == 'new' and x.args[0] is ext('inspect.Parameter'):
        n, d = term_attr(I, x, 'name'), I.simp(term_attr(I, x, 'default'))
        if d.op == 'ite':
            return I.branch_leaves(d, lambda y: param_text(I, n, y, x))
        return param_text(I, n, d, x)
    return t.strm(I.reify(x))


def param_text(I, n, d, x):
    n = I.simp(n)
    if n is not None and t.is_str(n) and d is ext('inspect.Parameter.empty'):
        return n
    if n is not None and t.is_str(n) and d is NONE:
        return const(n.args[1] + '=None')
    return t.strm(I.reify(x))


# ------------------------------------------------------------------ sequences
def slice_seq(v, lo, hi, step):
    return t.slice_(v, lo, hi, step)


def unordered(s):
    return t.unordered(s)


def _zip(I, seqs):
    seqs = [I.simp(s) for s in seqs]
    if any(s.op == 'ite' for s in seqs):
        return t.lift(lambda *ss: _zip2(I, list(ss)), *seqs)
    return _zip2(I, seqs)


def lit_len(s):
    return len(s.args[0]) if s.op == 'seq' else None


def _zip2(I, seqs):
    if not seqs:
        return seq()
    ns = [lit_len(s) for s in seqs if lit_len(s) is not None]
    if ns:
        n = min(ns)
        return seq(*[seq(*[at(s, const(k)) for s in seqs]) for k in range(n)])
    ds = t.dom_join(*[t.dom_of(s) if not (s.op == 'map' and s.args[2] is TRUE)
                      else s.args[0] for s in seqs])
    v = t.fresh()
    return t.map_(ds, v, TRUE, seq(*[at(s, v) for s in seqs]))


def enumerate_(I, s, start=ZERO):
    s = I.simp(s)
    if s.op == 'ite':
        return t.leafwise(lambda x: enumerate_(I, x, start), s)
    if s.op == 'seq':
        return seq(*[seq(t.add(const(k), start), x)
                     for k, x in enumerate(s.args[0])])
    v = t.fresh()
    d = s.args[0] if s.op == 'map' and s.args[2] is TRUE else t.dom_of(s)
    return t.map_(d, v, TRUE, seq(t.add(v, start), at(s, v)))


def any_(I, s):
    return _quant(I, s, True)


def _quant(I, s, isany):
    s = I.simp(s)
    if s.op == 'ite':
        return t.leafwise(lambda x: _quant(I, x, isany), s)
    if s.op == 'seq':
        f = or_ if isany else and_
        return f(*[I.truth(x) for x in s.args[0]])
    if s.op == 'cat':
        f = or_ if isany else and_
        return f(*[_quant(I, x, isany) for x in s.args[0]])
    if s.op == 'map':
        D, v, c, b = t.opened_u(s)
        tb = truth(b)
        if isany:
            return t.exists(D, v, and_(c, tb))
        return not_(t.exists(D, v, and_(c, not_(tb))))
    if s.op == 'flat':
        v, c, b = t.opened(s.args[0])
        x = _quant(I, b, isany)
        if isany:
            return t.exists(s.args[0].args[0], v, and_(c, x))
        return not_(t.exists(s.args[0].args[0], v, and_(c, not_(x))))
    v = t.fresh()
    if isany:
        return t.exists(t.dom(s), v, truth(at(s, v)))
    return not_(t.exists(t.dom(s), v, not_(truth(at(s, v)))))


def sum_seq(I, s, start=ZERO):
    s = I.simp(s)
    if s.op == 'ite':
        return t.leafwise(lambda x: sum_seq(I, x, start), s)
    if s.op == 'seq':
        r = start
        for x in s.args[0]:
            r = t.add(r, num(I, x))
        return r
    if s.op == 'cat':
        r = start
        for x in s.args[0]:
            r = sum_seq(I, x, r)
        return r
    if s.op == 'map':
        D, v, c, b = t.opened_u(s)
        return t.add(start, t.sum_(D, v, c, b))
    if s.op == 'flat':
        v, c, b = t.opened(s.args[0])
        return t.add(start, t.sum_(s.args[0].args[0], v, c, sum_seq(I, b)))
    v = t.fresh()
    return t.add(start, t.sum_(t.dom_of(s), v, TRUE, at(s, v)))


def plain_key(x):
    """a literal sort key as a value, None when it is not literal"""
    if t.is_str(x):
        return x.args[1]
    if x.op == 'num':
        return x.args[0]
    if x is TRUE or x is FALSE:
        return int(x is TRUE)
    if x.op == 'seq':
        r = tuple(plain_key(e) for e in x.args[0])
        return None if None in r else r
    return None


def key_shape(v):
    if isinstance(v, tuple):
        return tuple(key_shape(e) for e in v)
    return isinstance(v, str)


def _listed(I, D, v, c, b):
    """what is picked from a set of known items, in no order; or None"""
    src = D.args[0] if D.op == 'dom' else ()
    if len(src) != 1 or src[0].op != 'unordered' or src[0].args[0].op != 'seq':
        return None
    out = []
    for e in src[0].args[0].args[0]:
        m = {mk('at', src[0], v): e}
        ce, be = t.subst(c, m), t.subst(b, m)
        known = {q: type_isa(I, *q.args) for q in t.subterms(ce)
                 if q.op == 'isinstance' and q.args[0] is e}
        ce = I.simp(t.subst(ce, known))
        if ce is FALSE:
            continue
        if ce is not TRUE or v in t.subterms(be) or be is v:
            return None
        out.append(be)
    return t.unordered(seq(*out)) if len(out) > 1 else seq(*out)


def sort_(I, s, key, reverse):
    s = I.simp(s)
    if s.op == 'ite':
        return I.branch_leaves(s, lambda x: sort_(I, x, key, reverse))
    loose = False
    if s.op == 'unordered':
        s = s.args[0]
        loose = True
    if reverse is UNDEF or reverse is None:
        reverse = FALSE

    def k(e):
        if key is None or key is NONE:
            return e
        r = I.call(key, [e], [])
        return I.reify(r)
    if s.op == 'seq':
        if len(s.args[0]) <= 1:
            return s
        ks = [k(e) for e in s.args[0]]
        vs = [plain_key(x) for x in ks]
        if (None in vs or len({key_shape(x) for x in vs}) != 1) and \
                all(x.op == 'seq' and x.args[0] for x in ks):
            # tuples which differ in their first items
            fs = [plain_key(x.args[0][0]) for x in ks]
            if None not in fs and len(set(fs)) == len(fs):
                vs = fs
        if None not in vs and t.is_bool(reverse) and reverse.op == 'const' \
                and len({key_shape(x) for x in vs}) == 1:
            # equal keys keep the order of the input, which has to be known
            if not loose or len(set(vs)) == len(vs):
                o = sorted(range(len(vs)), key=lambda j: vs[j],
                           reverse=reverse is TRUE)
                return seq(*[s.args[0][j] for j in o])
        v = t.fresh()
        kk = k(v)
        return mk('sortedlit', s, t.bound('lam', mk('dom', ()), v, kk), reverse)
    if s.op == 'flat' or s.op == 'cat' or s.op == 'pairs':
        if s.op == 'pairs' and not s.args[1]:
            s = t.dict_pairs(s.args[0])
        else:
            v = t.fresh()
            return t.sorted_(t.dom(s), v, TRUE, k(at(s, v)), at(s, v), reverse)
    if s.op == 'map':
        D, v, c, b = t.opened_u(s)
        u = _listed(I, D, v, c, b)
        if u is not None:
            return sort_(I, u, key, reverse)
        return t.sorted_(D, v, c, k(b), b, reverse)
    v = t.fresh()
    return t.sorted_(t.dom_of(s), v, TRUE, k(at(s, v)), at(s, v), reverse)


# ------------------------------------------------------------------ items
def getitem(I, o, k):
    if o is UNDEF:
        return UNDEF
    if o.op == 'ref':
        kd = I.kindof(o)
        if kd == 'arr':
            return getitem(I, deref(I, o), k)
        if kd == 'list':
            return _seq_item(I, I.simp(I.rget(o, '$seq')), k, True)
        if kd == 'dict':
            return _dict_item(I, o, I.simp(I.rget(o, '$dict')), k)
        cls = I.rget(o, '$cls')
        if cls.op == 'cls':
            m = I.lookup_method(cls, '__getitem__', o)
            if m is not None:
                return I.call(m, [k], [])
        return t.item(o, I.reify(k))
    if o.op == 'vars':
        return t.dict_get(I.vars_dict(o), k, t.MISSING)
    ov = I.st.heap.get((o, '$dict'))
    if ov is not None:
        return _dict_item(I, o, I.simp(ov), k)
    ov = I.st.heap.get((o, '$seq'))
    if ov is not None:
        return _seq_item(I, I.simp(ov), k)
    ty = I.typeof(o)
    if ty is not None:
        m = I.lookup_method(ty.term, '__getitem__', o)
        if m is not None:
            return I.call(m, [k], [])
    if o.op == 'pair':
        return at(o, k)
    if o.op == 'dict':
        return _dict_item(I, None, o, k)
    if o.op in SEQ_OPS:
        return _seq_item(I, o, k)
    return _opaque_item(I, o, k)


def _opaque_item(I, o, k):
    k = deref(I, k)
    if o.op in ('cls', 'fun', 'bm', 'partial') or o is NONE or (
            o.op == 'const' and not t.is_str(o)) or (
            o.op == 'ext' and o.args[0] in TYPES and
            o.args[0] not in ('list', 'dict', 'tuple', 'set', 'type')):
        I.raise_type('TypeError', TRUE, (const('not subscriptable'),))
        return UNDEF
    k = I.reify(k)
    if t.is_str(o):
        if k.op == 'num' and -len(o.args[1]) <= k.args[0] < len(o.args[1]):
            return const(o.args[1][int(k.args[0])])
        if k.op == 'sl' and all(x is NONE or x.op == 'num' for x in k.args):
            return const(o.args[1][slice(*[None if x is NONE else int(x.args[0])
                                           for x in k.args])])
    if larr.isarr(o):
        r = larr.get(o, k)
        if r is not None:
            return I.alloc('arr', [('$val', r)]) if larr.isarr(r) else r
    if o.op == 'npop' and o.args[0] == 'array' and (t.is_index(k)):
        return at(o, k)
    if o in t.SCALARS:
        # a Python number or a numpy scalar
        I.raise_type('TypeError', mk('raises', 'TypeError', t.item(o, k)))
        I.raise_type('IndexError')
        return UNDEF
    if k.op == 'sl':
        return t.slice_(o, *k.args)
    if arraylike(I, o) and arraylike(I, k):
        return t.item(o, k)
    if arraylike(I, o) and k.op == 'num':
        if k in (ZERO, MINUS1):
            if I.handlers:
                I.raise_type('IndexError', not_(t.lt(ZERO, t.length(o))))
            return t.item(o, k)
        r = t.item(o, k)
        I.may_raise(r, ('IndexError',))
        return r
    if k is NONE and o.op in ('npop', 'poly', 'item', 'at', 'call'):
        k = seq(NONE)
    if k.op == 'seq' and len(k.args[0]) > 0:
        ks = list(k.args[0])
        if ks[-1] is t.ELLIPSIS:
            if all(x is NONE for x in ks[:-1]):
                return o
            if len(ks) > 2 or ks[0].op == 'sl':
                ks = ks[:-1]
        # leading new axes before an ellipsis-free full index
        while len(ks) > 1 and ks[-1].op == 'sl' and all(
                x is NONE for x in ks[-1].args):
            ks = ks[:-1]          # trailing full slices
        if all(x is NONE for x in ks) and o.op in ('npop', 'poly', 'item', 'at', 'call'):
            return o
        ks = [mk('fullsl') if (x.op == 'sl' and all(y is NONE for y in x.args))
              else x for x in ks]
        if len(ks) == 1 and ks[0].op != 'fullsl':
            return _opaque_item(I, o, ks[0])
        k = seq(*ks)
    r = t.item(o, k)
    I.may_raise(r, ('KeyError', 'IndexError', 'TypeError', 'AttributeError'))
    return r


def _seq_item(I, s, k, islist=False):
    k = deref(I, k)

    def outside(x):
        return x.op == 'seq' and k.op == 'num' and \
            not -len(x.args[0]) <= k.args[0] < len(x.args[0])

    if s.op == 'ite':
        if any(outside(x) for x in t.leafset(s)):
            return I.branch_leaves(s, lambda x: _seq_item(I, x, k, islist))
        return t.leafwise(lambda x: _seq_item(I, x, k), s)
    if outside(s):
        I.raise_type('IndexError', TRUE, (const('index out of range'),))
        return UNDEF
    if k.op == 'ite':
        return I.branch_leaves(k, lambda x: _seq_item(I, s, x))
    if k.op == 'sl':
        r = t.slice_(s, *k.args)
        return I.new_list(r) if islist else r
    if k.op == 'seq' or k.op in ('call',):
        return t.item(s, I.reify(k))
    if k.op in ('map', 'npop', 'ref'):
        return t.item(s, I.reify(k))
    return at(s, k)


def _dict_item(I, ref, d, k):
    k = I.reify(k) if k.op == 'ref' and I.kindof(k) != 'obj' else k
    if I.handlers:
        present = t.lift(lambda y: t.in_(k, y if y.op != 'dict' else _dkeys(y)), d)
        present = I.simp(present)
        if present is not TRUE and any(
                h is not None and h.op == 'ext' and h.args[0] in (
                    'KeyError', 'LookupError', 'Exception', 'BaseException')
                for hs in I.handlers for h in hs):
            I.raise_type('KeyError', not_(present), (k,))
            if I.dead():
                return UNDEF
    default = t.MISSING
    if ref is not None and ref.op == 'ref':
        dd = I.rget(ref, '$default')
        if dd is not UNDEF:
            default = dd
    r = t.dict_get(d, k, default)
    return _nomissing(I, r, d, k)


def _nomissing(I, r, d, k):
    if r is t.MISSING:
        I.raise_type('KeyError', TRUE, (k,))
        return UNDEF
    if r.op == 'ite' and t.MISSING in t.leafset(r):
        return t._drop_dontcare(t.mapleaves(
            r, lambda l: t.DONTCARE if l is t.MISSING else l))
    return r


def setitem(I, o, k, v):
    if o.op == 'ref':
        kd = I.kindof(o)
        k = I.reify(k) if k.op == 'ref' and I.kindof(k) != 'obj' else k
        if kd == 'dict':
            d = I.simp(I.rget(o, '$dict'))
            I.rset(o, '$dict', _dict_set(d, k, v))
            return
        if kd == 'list':
            s = I.simp(I.rget(o, '$seq'))
            I.rset(o, '$seq', t.lift(lambda x: _seq_set(I, x, k, v), s))
            return
        if kd == 'arr':
            cur = I.simp(I.rget(o, '$val'))
            if cur.op == 'ite' and any(larr.isarr(l) for l in t.leafset(cur)):
                I.split(cur.args[0], lambda: setitem(I, o, k, v),
                        lambda: setitem(I, o, k, v))
                return
            kk, vv, r = I.reify(deref(I, k)), I.reify(deref(I, v)), None
            if larr.isarr(cur) and all(larr.set_(cur, kk, l) is not None
                                       for l in t.leafset(vv)):
                r = t.lift(lambda y: larr.set_(cur, kk, y), vv)
            if r is not None:
                I.rset(o, '$val', r)
                return
            I.rset(o, '$val', mk('setitem', cur, I.reify(k),
                                 I.reify(deref(I, v))))
            return
        cls = I.rget(o, '$cls')
        if cls.op == 'cls':
            m = I.lookup_method(cls, '__setitem__', o)
            if m is not None:
                I.call(m, [k, v], [])
                return
        I.unmodelled.append('setitem on object')
        return
    if o.op == 'vars':
        if t.is_str(k):
            I.setattr(o.args[0], k.args[1], v)
            return
        I.unmodelled.append('setitem on vars')
        return
    I.event('write', o, '[]', k, v)
    ov = I.st.heap.get((o, '$seq'))
    if ov is not None or (t.is_index(k) and I.st.heap.get((o, '$dict')) is None):
        cur = ov if ov is not None else o
        I.st.heap[(o, '$seq')] = _seq_set(I, cur, k, v)
        return
    cur = I.st.heap.get((o, '$dict')) or mk('dict', mk('pairs', o, ()))
    I.st.heap[(o, '$dict')] = _dict_set(cur, k, v)


def _dict_set(d, k, v):
    def f(x):
        ps = x.args[0] if x.op == 'dict' else mk('pairs', x, ())
        return t.dict_(cat(ps, seq(t.pair(k, v))))
    return t.lift(f, d)


def _seq_set(I, s, k, v):
    if s.op == 'seq' and k.op == 'num':
        n = len(s.args[0])
        j = int(k.args[0])
        if -n <= j < n:
            items = list(s.args[0])
            items[j] = v
            return mk('seq', tuple(items))
    if s.op == 'cat' and k.op == 'num' and int(k.args[0]) == -1 and \
            s.args[0][-1].op == 'seq':
        return cat(*(list(s.args[0][:-1]) + [_seq_set(I, s.args[0][-1], k, v)]))
    return mk('setitem', s, k, v)


def delitem(I, o, k):
    if o.op == 'ite':
        I.branch_leaves(o, lambda x: (delitem(I, x, k), NONE)[1])
        return
    if o.op == 'ref' and I.kindof(o) == 'dict':
        d = I.simp(I.rget(o, '$dict'))
        I.rset(o, '$dict', t.lift(lambda x: _dict_del(x, k), d))
        return
    if o.op == 'ref' and I.kindof(o) == 'list':
        s = I.simp(I.rget(o, '$seq'))
        if s.op == 'seq' and k.op == 'num':
            items = list(s.args[0])
            del items[int(k.args[0])]
            I.rset(o, '$seq', seq(*items))
            return
        if s.op == 'cat' and k.op == 'num':
            if k is ZERO:
                I.rset(o, '$seq', t.slice_(s, ONE, NONE, NONE))
                return
            if k is MINUS1:
                I.rset(o, '$seq', t.slice_(s, NONE, MINUS1, NONE))
                return
        I.rset(o, '$seq', mk('seqdel', s, I.reify(k)))
        return
    if o.op == 'vars' and t.is_str(k):
        I.delattr(o.args[0], k.args[1])
        return
    I.event('write', o, 'del[]', k)
    cur = I.st.heap.get((o, '$dict')) or mk('dict', mk('pairs', o, ()))
    I.st.heap[(o, '$dict')] = t.lift(lambda x: _dict_del(x, k), cur)


def _dict_del(d, k):
    """d without key k"""
    if d.op != 'dict':
        d = mk('dict', mk('pairs', d, ()))
    parts = d.args[0].args[0] if d.args[0].op == 'cat' else (d.args[0],)
    out = []
    for p in parts:
        if p.op == 'seq':
            keep = seq()
            for q in p.args[0]:
                e = t.eq(q.args[0], k)
                keep = cat(keep, ite(e, seq(), seq(q)))
            out.append(keep)
        elif p.op == 'pairs' and t.is_str(k):
            out.append(mk('pairs', p.args[0],
                          tuple(sorted(set(p.args[1]) | {k.args[1]}))))
        elif p.op == 'map':
            v, c, b = t.opened(p)
            if b.op == 'pair':
                out.append(t.map_(p.args[0], v,
                                  and_(c, not_(t.eq(b.args[0], k))), b))
            else:
                out.append(mk('dictdel', p, k))
        else:
            out.append(mk('dictdel', p, k))
    return t.dict_(cat(*out)) if out else mk('dict', seq())


# ------------------------------------------------------------------ builtins
def as_seq(I, v):
    return I.consume(deref(I, v))


def items_of(I, v):
    """the elements of what a constructor iterates over; the TypeError of what is
    not iterable"""
    s = I.simp(deref(I, v))
    if s.op == 'ref' or s.op in SEQ_OPS or s.op == 'dict':
        return I.consume(s)
    if s.op == 'ite':
        return I.branch_leaves(s, lambda y: items_of(I, y))
    if never_iterable(I, s):
        I.raise_type('TypeError')
        return UNDEF
    out = I.consume(s)
    if not iterable(I, s):
        I.may_raise(t.call(ext('iter'), (I.reify(s),), ()), ('TypeError',))
    return out


def never_iterable(I, s):
    return s is NONE or s.op in ('num', 'cls', 'fun') or s in (TRUE, FALSE) or \
        s in t.SCALARS or symp.exprlike(I.reify(s))


def type_isa(I, x, c):
    """isinstance(x, c) for one class term"""
    if c.op == 'seq':
        return or_(*[type_isa(I, x, d) for d in c.args[0]])
    if symp.is_expr(x):
        r = symp.isa(I, x, c)
        return const(r) if r is not None else t.isinstance_(x, c)
    if x.op in ('slam', 'sfuncls') and c.op in ('cls', 'ext'):
        if c.op == 'cls' or c.args[0].split('.')[0] in ('sympy', 'str', 'list'):
            return FALSE
    if x.op == 'ite':
        return I.branch_leaves(x, lambda y: type_isa(I, y, c))
    if x.op == 'ref':
        k = I.kindof(x)
        if k in ('list', 'dict', 'set'):
            if c.op == 'ext':
                return const(c.args[0] == k or c.args[0] in t.EXTISA.get(k, ())
                             or c.args[0] == 'object' or
                             (k == 'dict' and c.args[0] == 'collections.OrderedDict'))
            return FALSE
        if k == 'obj':
            cls = I.rget(x, '$cls')
            if cls.op == 'cls':
                r = t.isa(cls, c)
                if r is None or r is False:
                    if c.op == 'ext' and c.args[0] in [
                            e.replace('builtins.', '') for e in
                            I.w.ext_bases(I.w.classes[cls.args[0]])]:
                        return TRUE
                return const(bool(r))
            return mk('isinstance', x, c)
        if k == 'arr':
            return const(c.op == 'ext' and c.args[0] == 'numpy.ndarray')
    ty = I.typeof(x)
    if ty is not None and c.op in ('cls', 'ext'):
        r = t.isa(ty.term, c)
        return const(bool(r))
    if x.op in ('seq', 'map', 'cat', 'flat', 'rev', 'slice') and c.op == 'ext':
        return const(c.args[0] in ('tuple', 'object') or
                     c.args[0] in t.EXTISA['tuple'])
    if x.op in ('cls', 'ext') and c.op == 'cls':
        return FALSE
    if x.op == 'cls' and c.op == 'ext' and c.args[0] in (
            'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'bytes', 'int', 'float',
            'bool', 'type', 'object', 'collections.abc.Sequence', 'collections.abc.Iterable',
            'collections.abc.Mapping', 'collections.OrderedDict', 'numpy.ndarray'):
        return const(c.args[0] in ('type', 'object'))
    if x.op == 'num' and c.op == 'ext':
        if c.args[0] in ('int', 'float'):
            return const((x.args[0].denominator == 1) == (c.args[0] == 'int'))
        if c.args[0] in ('numbers.Number',):
            return TRUE
        if c.args[0] in ('str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset'):
            return FALSE
    return t.isinstance_(x, c)


def has_attr(I, v, name):
    v = I.simp(v)
    if v.op == 'ite':
        return I.branch_leaves(v, lambda x: has_attr(I, x, name))
    if v.op == 'ref' and I.kindof(v) == 'obj':
        cur = I.rget(v, name)
        cls = I.rget(v, '$cls')
        st = FALSE
        if cls.op == 'cls':
            c = I.w.classes[cls.args[0]]
            o, m = I.w.find_member(c, name)
            if m is not None:
                # a property that raises AttributeError is not modelled
                return TRUE
            if I.lookup_method(cls, '__getattr__', v) is not None and cur is UNDEF:
                st = mk('hasattr', v, name)
                no = mk('const', 'absent', name)
                r = I.getattr(v, name, no)
                if not I.dead():
                    return t.mapleaves(I.simp(r), lambda l: FALSE if l is no
                                       else TRUE)
        return t.mapleaves(cur, lambda l: st if l is UNDEF else TRUE)
    if v.op == 'ref':
        return TRUE
    if (v, name) in I.st.heap:
        return TRUE
    ty = I.typeof(v)
    if ty is not None:
        o, m = I.w.find_member(ty, name)
        if m is not None:
            return TRUE
        if name == '__self__':
            return FALSE
        if v in t.SYMBOLS:
            # the slots of a Parameter are filled by its constructor
            for k in I.w.mro(ty):
                m = None if isinstance(k, str) else k.members.get('__slots__')
                if m is not None and m[0] == 'expr' and any(
                        isinstance(n, ast.Constant) and n.value == name
                        for n in ast.walk(m[1])):
                    return TRUE
    if v.op == 'bm' and name == '__self__':
        return TRUE
    if v.op == 'fun' and name == '__self__':
        return FALSE
    if v.op == 'cls':
        c = I.w.classes[v.args[0]]
        return const(I.w.find_member(c, name)[1] is not None)
    if v.op == 'new' and v.args[0].op == 'ext' and v.args[0].args[0] in RELATIONS and \
            name in ('constraint_type', 'model_dict', 'dependent_vars', 'params', 'model',
                     '__self__', 'objective', 'parameters'):
        return FALSE       # a relation of sympy, nothing of the package
    return I.simp(mk('hasattr', v, name))


RELATIONS = {'sympy.Eq', 'sympy.Ge', 'sympy.Le', 'sympy.Gt', 'sympy.Lt', 'sympy.Ne'}


def call_builtin(I, name, args, kwargs):
    kw = dict(kwargs)
    if name in SPEC:
        return spec_call(I, name, args, kw)
    if any(isinstance(a, tuple) for a in args):
        fl, _ = [], None
        for a in args:
            if isinstance(a, tuple):
                s = I.simp(I.seq_of(a[1]))
                if s.op == 'seq':
                    fl.extend(s.args[0])
                elif name in ('zip',) and s.op == 'map':
                    # zip(*X): transposition
                    return t.call(ext('zip*'), (I.reify(s),), ())
                else:
                    return I.opaque_call(ext(name), args, kwargs, 'star ' + name)
            else:
                fl.append(a)
        args = fl
    a = args
    n = len(a)
    if name == 'noop':
        return NONE
    if name == 'identity':
        return a[0]
    if name == 'len':
        return len_(I, a[0])
    if name == 'range':
        if n == 1:
            return t.range_(num(I, a[0]))
        if n == 2:
            lo, hi = a
            m = t.sub(hi, lo)
            if m.op == 'num':
                return seq(*[t.add(lo, const(k)) for k in range(int(m.args[0]))])
            v = t.fresh()
            return t.map_(t.range_dom(m), v, TRUE, t.add(v, lo))
        if all(x.op == 'num' for x in a):
            return seq(*[const(k) for k in range(*[int(x.args[0]) for x in a])])
        return I.opaque_call(ext('range'), a, kwargs, None)
    if name == 'zip':
        return _zip(I, [as_seq(I, x) for x in a])
    if name == 'enumerate':
        return enumerate_(I, as_seq(I, a[0]), a[1] if n > 1 else
                          kw.get('start', ZERO))
    if name == 'map':
        z = as_seq(I, a[1]) if n == 2 else _zip(I, [as_seq(I, x) for x in a[1:]])
        if n == 2:
            return I.map_seq(z, lambda e: I.call(a[0], [e], []))
        return I.map_seq(z, lambda e: I.call(a[0], [('*', e)], []))
    if name == 'filter':
        return I.filter_seq(as_seq(I, a[1]), lambda e: I.truth(
            e if a[0] is NONE else I.call(a[0], [e], [])))
    if name == 'sum':
        x = I.simp(deref(I, a[0]))
        st = a[1] if n > 1 else kw.get('start', ZERO)
        if seqlike(I, st):
            s = I.seq_of(x)
            if s.op == 'seq':
                return I.new_list(cat(I.seq_of(st), *[I.seq_of(e) for e in s.args[0]]))
        return sum_seq(I, as_seq(I, x), num(I, st))
    if name in ('any', 'all'):
        return _quant(I, as_seq(I, a[0]), name == 'any')
    if name in ('min', 'max') and n > 1 and not kw and len(set(a)) == 1:
        return a[0]
    if name in ('min', 'max') and n > 0 and set(kw) <= {'key'}:
        s = as_seq(I, a[0]) if n == 1 else None
        among = a if s is None else s.args[0] if s.op == 'seq' else []
        if 0 < len(among) <= 6:
            key = kw.get('key', NONE)
            rank = [e if key is NONE else I.call(key, [e], []) for e in among]
            best, least = among[0], rank[0]
            for e, r in zip(among[1:], rank[1:]):
                c = I.truth(compare(I, 'Lt' if name == 'min' else 'Gt', r, least))
                best, least = ite(c, e, best), ite(c, r, least)
            return best
    if name in ('min', 'max') and n == 2 and all(x.op == 'num' for x in a):
        f = min if name == 'min' else max
        return const(f(a[0].args[0], a[1].args[0]))
    if name == 'abs' and n == 1:
        if a[0].op == 'num':
            return const(abs(a[0].args[0]))
        return t.call(ext('abs'), (num(I, a[0]),), ())
    if name == 'sorted':
        return I.new_list(sort_(I, as_seq(I, a[0]), kw.get('key'),
                                kw.get('reverse')))
    if name == 'reversed':
        return t.rev(as_seq(I, a[0]))
    if name == 'iter':
        s = I.simp(deref(I, a[0]))
        if s.op == 'ref' and I.kindof(s) == 'iter':
            return s
        if s.op == 'ref' or s.op in SEQ_OPS or s.op == 'dict':
            s2 = I.seq_of(s)
        else:
            if s.op == 'ite':
                return I.branch_leaves(s, lambda y: call_builtin(
                    I, name, [y], kwargs))
            if never_iterable(I, s):
                I.raise_type('TypeError')       # not iterable
                return UNDEF
            s2 = I.seq_of(s)
            if not iterable(I, s):
                I.may_raise(t.call(ext('iter'), (I.reify(s),), ()), ('TypeError',))
        return I.alloc('iter', [('$src', s2), ('$pos', ZERO)])
    if name == 'next':
        it = I.simp(a[0])
        if it.op == 'ref' and I.kindof(it) == 'iter':
            p = I.rget(it, '$pos')
            r = at(I.rget(it, '$src'), p)
            I.rset(it, '$pos', t.add(p, ONE))
            return r
        if it.op in SEQ_OPS:      # generator expression
            r = at(it, ZERO)
            if n > 1:
                return ite(truth(it), r, a[1])
            return r
        return I.opaque_call(ext('next'), a, kwargs, 'next')
    if name == 'id' and len(a) == 1 and (
            I.reify(a[0]).op == 'fun' or symp.exprlike(I.reify(a[0]))):
        return mk('const', 'id', symp.ident(I.reify(a[0])))
    if name == 'isinstance':
        return type_isa(I, I.simp(a[0]), class_arg(I, a[1]))
    if name == 'issubclass':
        x = I.simp(a[0])
        if x.op == 'ite':
            return I.branch_leaves(x, lambda y: call_builtin(
                I, name, [y] + list(args[1:]), kwargs))
        if x.op in ('ref', 'new', 'const', 'num', 'seq', 'dict', 'fun', 'bm') or \
                I.typeof(x) is not None:
            I.raise_type('TypeError')
            return UNDEF
        r = t.lift(t.issubclass_, x, class_arg(I, a[1]))
        if x.op not in ('cls', 'dyncls'):
            I.may_raise(r, ('TypeError',))
        return I.simp(r)
    if name == 'hasattr':
        if t.is_str(a[1]):
            return has_attr(I, a[0], a[1].args[1])
        return mk('hasattr', I.reify(a[0]), I.reify(a[1]))
    if name == 'getattr':
        if t.is_str(a[1]):
            return I.getattr(a[0], a[1].args[1], a[2] if n > 2 else None)
        return getattr_dyn(I, a)
    if name == 'setattr':
        if t.is_str(a[1]):
            I.setattr(a[0], a[1].args[1], a[2])
            return NONE
        I.event('write', I.reify(a[0]), '$dyn', I.reify(a[1]), a[2])
        return NONE
    if name == 'delattr':
        if t.is_str(a[1]):
            I.delattr(a[0], a[1].args[1])
            return NONE
        I.event('write', I.reify(a[0]), '$dyndel', I.reify(a[1]))
        return NONE
    if name == 'callable':
        v = I.simp(a[0])
        if v.op in ('fun', 'bm', 'cls', 'partial', 'builtin', 'meth', 'ext'):
            return TRUE
        if v.op in ('const', 'seq', 'map', 'cat', 'dict', 'pair'):
            return FALSE
        if v.op == 'ite':
            return t.lift(lambda x: call_builtin(I, 'callable', [x], []), v)
        return mk('callable', v)
    if name == 'print':
        return NONE
    if name in ('id', 'hash', 'repr', 'round', 'ord', 'chr', 'pow', 'divmod',
                'dir', 'format', 'min', 'max', 'complex'):
        if name == 'repr':
            x = I.simp(a[0])
            if x.op == 'ref' and I.kindof(x) == 'obj' and I.rget(x, '$cls').op == 'cls':
                m = I.lookup_method(I.rget(x, '$cls'), '__repr__', x)
                if m is not None:
                    return I.call(m, [], [])
            return mk('strm', I.reify(a[0]), const(''), const('r'))
        if name == 'pow' and n == 2:
            return binop(I, 'Pow', a[0], a[1])
        return t.call(ext(name), tuple(I.reify(deref(I, x)) for x in a),
                      tuple((k, I.reify(v)) for k, v in kwargs))
    if name == 'vars' and n == 1:
        return mk('vars', a[0])
    return I.opaque_call(ext(name), args, kwargs, 'builtin ' + name)


def class_arg(I, c):
    c = I.simp(c)
    if c.op == 'ref':
        c = I.seq_of(c)
    if c.op == 'builtin':
        return ext(c.args[0])
    return c


def getattr_dyn(I, a):
    o, n = I.simp(a[0]), I.simp(a[1])
    if n.op == 'ite':
        return I.branch_leaves(n, lambda x: getattr_dyn(I, [o, x] + list(a[2:]))
                               if not t.is_str(x) else
                               I.getattr(o, x.args[1], a[2] if len(a) > 2 else None))
    if o.op == 'ref' and I.kindof(o) == 'obj':
        cls = I.rget(o, '$cls')
        if cls.op == 'cls':
            m = I.lookup_method(cls, '__getattr__', o)
            if m is not None:
                return I.call(m, [n], [])
    ty = I.typeof(o)
    r = t.call(ext('getattr'), (I.reify(o), n), ())
    if len(a) > 2:
        return ite(mk('hasattr', o, n), r, a[2])
    I.may_raise(r, ('AttributeError',))
    return r


def len_(I, v):
    v = I.simp(deref(I, v))
    if v.op == 'ite':
        return I.branch_leaves(v, lambda x: len_(I, x))
    if v.op == 'ref':
        k = I.kindof(v)
        if k == 'list':
            return t.length(I.seq_of(v))
        if k == 'iter':
            I.raise_type('TypeError')       # no length
            return UNDEF
        if k == 'set':
            return t.length(t.setof(I.simp(I.rget(v, '$seq'))))
        if k == 'dict':
            d = I.simp(I.rget(v, '$dict'))
            return t.lift(lambda x: t.length(t.dict_keys(x)) if x.op == 'dict'
                          and x.args[0].op != 'pairs' else
                          t.length(x.args[0].args[0] if x.op == 'dict' and
                                   not x.args[0].args[1] else x), d)
        cls = I.rget(v, '$cls')
        if cls.op == 'cls':
            m = I.lookup_method(cls, '__len__', v)
            if m is not None:
                return I.call(m, [], [])
        return I.unk('len of object')
    ov = I.st.heap.get((v, '$dict'))
    if ov is not None:
        return t.length(ov)
    ov = I.st.heap.get((v, '$seq'))
    if ov is not None:
        return t.length(ov)
    ty = I.typeof(v)
    if ty is not None:
        m = I.lookup_method(ty.term, '__len__', v)
        if m is not None:
            return I.call(m, [], [])
    if v.op == 'dict':
        return t.length(t.dict_keys(v))
    if larr.isarr(v):
        return const(larr.shape(v)[0])
    if v.op not in ('seq', 'map', 'cat', 'flat', 'sorted', 'setof', 'pairs'):
        I.may_raise(mk('len', v), ('TypeError',))
    return t.length(v)


# ------------------------------------------------------------------ constructors
def make_dict(I, args, kwargs):
    ps = seq()
    if args:
        x = I.simp(args[0])
        if x.op == 'ite':
            ps = t.lift(lambda y: y, I.branch_leaves(x, lambda y: dpairs(I, y)))
        elif x.op in SEQ_OPS or (x.op == 'ref' and I.kindof(x) in (
                'list', 'iter', 'set')):
            ps = I.pairs_from(I.seq_of(x))
        else:
            ps = dpairs(I, x)
    for n, v in kwargs:
        if n == '**':
            ps = cat(ps, dpairs(I, v))
        else:
            ps = cat(ps, seq(t.pair(const(n), v)))
    return t.dict_(ps)


def construct(I, name, args, kwargs):
    """calls of builtin and collections types"""
    if name in ('list',):
        return I.new_list(items_of(I, args[0]) if args else seq())
    if name == 'tuple':
        return items_of(I, args[0]) if args else seq()
    if name == 'set':
        return I.new_set(items_of(I, args[0]) if args else seq())
    if name == 'frozenset':
        return t.setof(items_of(I, args[0]) if args else seq())
    if name in ('dict', 'collections.OrderedDict'):
        return I.new_dict(make_dict(I, args, kwargs))
    if name == 'collections.Counter':
        if args:
            s = as_seq(I, args[0])
            if s.op == 'seq':
                d = mk('dict', seq())
                for e in s.args[0]:
                    cur = t.dict_get(d, e, ZERO)
                    d = _dict_set(d, e, t.add(cur, ONE))
                r = I.new_dict(d)
            else:
                r = I.new_dict(mk('dict', mk('pairs', t.call(
                    ext('collections.Counter'), (I.reify(s),), ()), ())))
        else:
            r = I.new_dict(mk('dict', seq()))
        I.rset(r, '$default', ZERO)
        return r
    if name == 'collections.defaultdict':
        r = I.new_dict(mk('dict', seq()))
        if args and args[0] is ext('int'):
            I.rset(r, '$default', ZERO)
        else:
            I.unmodelled.append('defaultdict')
        return r
    if name == 'str':
        return str_of(I, args[0]) if args else const('')
    if name == 'bool':
        return I.truth(args[0])
    if name == 'int' and args:
        x = I.simp(args[0])
        if t.is_index(x):
            return x
        return t.call(ext('int'), (I.reify(deref(I, x)),), ())
    if name == 'float' and args:
        x = I.simp(args[0])
        if t.is_str(x) and x.args[1].lower().strip('+-') in ('inf', 'infinity'):
            return const(float(x.args[1]))
        if x.op == 'num':
            return x
        return t.call(ext('float'), (I.reify(deref(I, x)),), ())
    if name == 'type' and len(args) == 1:
        return I.getattr(args[0], '__class__')
    if name == 'type' and len(args) == 3:
        b = as_seq(I, args[1])
        d = I.dict_of(args[2])
        mem = ()
        if d.op == 'dict' and d.args[0].op == 'seq':
            mem = tuple(seq(q.args[0], q.args[1]) for q in d.args[0].args[0])
        return t.lift(lambda x: I.dyncls(x, list(mem)), b)
    if name == 'object':
        return mk('new', ext('object'), (const(I.nref),), ())
    if name == 'slice':
        a = list(args)
        if len(a) == 1:
            return mk('sl', NONE, a[0], NONE)
        return mk('sl', *(a + [NONE] * (3 - len(a))))
    return None


CONSTRUCT = {'list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'bool', 'int',
             'float', 'type', 'object', 'slice', 'collections.OrderedDict',
             'collections.Counter', 'collections.defaultdict'}


# ------------------------------------------------------------------ methods
LISTM = {'append', 'extend', 'insert', 'pop', 'index', 'count', 'sort',
         'reverse', 'remove', 'copy', 'clear', '__len__', '__iter__',
         '__getitem__', '__contains__'}
MUT = {'append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'remove', 'clear',
       'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'resize',
       '__setitem__', '__delitem__', 'move_to_end', 'itemset', 'put'}


def call_method(I, recv, name, args, kwargs):
    recv = I.simp(recv)
    if recv.op == 'ite':
        return I.branch_leaves(
            recv, lambda r: I.call(I.getattr(r, name), args, kwargs))
    if recv.op == 'ref':
        k = I.kindof(recv)
        if k == 'list':
            return list_method(I, recv, name, args, kwargs)
        if k == 'dict':
            return dict_method(I, recv, name, args, kwargs)
        if k == 'set':
            return set_method(I, recv, name, args, kwargs)
        if k == 'arr':
            return call_method(I, deref(I, recv), name, args, kwargs)
        if k == 'obj':
            return obj_method(I, recv, name, args, kwargs)
    if recv.op == 'vars':
        if name == 'update':
            d = make_dict(I, args, kwargs)
            return vars_update(I, recv.args[0], d)
        if name in ('items', 'keys', 'values', 'copy', 'get', '__contains__'):
            tmp = I.new_dict(I.vars_dict(recv))
            return dict_method(I, tmp, name, args, kwargs)
        if name == 'pop' and t.is_str(args[0]):
            cur = I.rget(recv.args[0], args[0].args[1])
            I.rset(recv.args[0], args[0].args[1], UNDEF)
            return cur if cur is not UNDEF or len(args) < 2 else args[1]
    if symp.exprlike(recv):
        r = symp.method(I, recv, name, args, kwargs)
        if r is not None:
            return r
    if recv.op == 'super':
        return super_method(I, recv, name, args, kwargs)
    if recv.op == 'const' and recv.args[0] == 'bytes' and name == 'decode' and \
            not args and not kwargs:
        try:
            return const(recv.args[1].decode())
        except UnicodeDecodeError:
            pass
    if t.is_str(recv) or recv.op in ('fmt', 'strm'):
        return str_method(I, recv, name, args, kwargs)
    if (recv, '$dict') in I.st.heap and name not in MUT:
        tmp = I.new_dict(I.st.heap[(recv, '$dict')])
        if name in ('items', 'keys', 'values', 'copy', 'get', '__contains__'):
            return dict_method(I, tmp, name, args, kwargs)
    if (recv, '$seq') in I.st.heap and name in ('index', 'count', 'copy'):
        tmp = I.new_list(I.st.heap[(recv, '$seq')])
        return list_method(I, tmp, name, args, kwargs)
    if recv.op in ('seq', 'map', 'cat', 'flat', 'rev'):
        if name in ('index', 'count'):
            return list_method(I, I.new_list(recv), name, args, kwargs)
    if recv.op == 'dict':
        if name not in MUT:
            return dict_method(I, I.new_dict(recv), name, args, kwargs)
    if recv.op == 'setof':
        return set_method(I, I.new_set(recv.args[0]), name, args, kwargs)
    if recv.op == 'new' and recv.args[0] is ext('inspect.Signature'):
        return sig_method(I, recv, name, args, kwargs)
    if recv.op == 'new' and recv.args[0] is ext('inspect.Parameter') and \
            name == 'replace':
        kw = dict(recv.args[2])
        kw.update(dict(kwargs))
        return mk('new', recv.args[0], (), tuple(sorted(kw.items())))
    ty = I.typeof(recv)
    if ty is not None and name in ('items', 'keys', 'values', 'get', '__contains__'):
        return obj_method(I, recv, name, args, kwargs)
    return opaque_method(I, recv, name, args, kwargs)


def vars_update(I, ref, d):
    d = I.simp(d)
    if d.op == 'ite':
        I.branch_leaves(d, lambda x: (vars_update(I, ref, x), NONE)[1])
        return NONE
    if d.op == 'dict':
        for p in (d.args[0].args[0] if d.args[0].op == 'cat' else (d.args[0],)):
            if p.op == 'ite':
                I.branch_leaves(p, lambda x: (vars_update(
                    I, ref, mk('dict', x)), NONE)[1])
                continue
            if p.op == 'seq' and all(q.op == 'pair' and t.is_str(q.args[0])
                                     for q in p.args[0]):
                for q in p.args[0]:
                    I.rset(ref, q.args[0].args[1], q.args[1])
            else:
                I.unmodelled.append('vars update')
                I.event('vars_update', ref, p)
    else:
        I.rset(ref, '$state', d)
        I.event('vars_update', ref, d)
    return NONE


def list_method(I, r, name, a, kwargs):
    s = I.simp(I.rget(r, '$seq'))
    kw = dict(kwargs)
    if name == 'append':
        I.rset(r, '$seq', cat(s, seq(a[0])))
        return NONE
    if name == 'extend':
        I.rset(r, '$seq', cat(s, as_seq(I, a[0])))
        return NONE
    if name == 'insert':
        k = a[0]
        if k is ZERO:
            I.rset(r, '$seq', cat(seq(a[1]), s))
        elif s.op == 'seq' and k.op == 'num':
            it = list(s.args[0])
            it.insert(int(k.args[0]), a[1])
            I.rset(r, '$seq', seq(*it))
        else:
            I.rset(r, '$seq', mk('insert', s, I.reify(k), I.reify(a[1])))
            I.unmodelled.append('list.insert')
        return NONE
    if name == 'pop':
        k = a[0] if a else MINUS1
        v = at(s, k)
        if s.op == 'seq' and k.op == 'num':
            it = list(s.args[0])
            if not it:
                I.raise_type('IndexError')
                return UNDEF
            it.pop(int(k.args[0]))
            I.rset(r, '$seq', seq(*it))
        elif k is ZERO:
            I.rset(r, '$seq', t.slice_(s, ONE, NONE, NONE))
        elif k is MINUS1:
            I.rset(r, '$seq', t.slice_(s, NONE, MINUS1, NONE))
        else:
            I.rset(r, '$seq', mk('seqdel', s, I.reify(k)))
        return v
    if name == 'index':
        rest = tuple(I.reify(x) for x in a[1:])
        if s.op == 'seq' and len(a) <= 2:
            hit = [t.eq(y, a[0]) for y in s.args[0]]
            if len(a) == 2:
                # only from the given position on
                lo = I.simp(a[1])
                lo = ite(t.lt(lo, ZERO), t.add(lo, const(len(hit))), lo)
                hit = [and_(h, t.le(lo, const(k))) for k, h in enumerate(hit)]
            found = or_(*hit)
            if found is FALSE or I.handlers or len(a) == 2:
                I.raise_type('ValueError', not_(found))
                if I.dead():
                    return UNDEF
            res = mk('index', s, I.reify(a[0]), *rest)
            for k in reversed(range(len(s.args[0]))):
                res = ite(hit[k], const(k), res)
            return res
        return mk('index', s, I.reify(a[0]), *rest)
    if name == 'count':
        return t.call(ext('count'), (I.reify(s), I.reify(a[0])), ())
    if name == 'sort':
        I.rset(r, '$seq', sort_(I, s, kw.get('key'), kw.get('reverse')))
        return NONE
    if name == 'reverse':
        I.rset(r, '$seq', t.rev(s))
        return NONE
    if name == 'copy':
        return I.new_list(s)
    if name == 'clear':
        I.rset(r, '$seq', seq())
        return NONE
    if name == 'remove':
        x = a[0]
        if s.op == 'seq':
            out = []
            done = FALSE
            for e in s.args[0]:
                c = t.eq(e, x)
                out.append(ite(and_(c, not_(done)), seq(), seq(e)))
                done = or_(done, c)
            I.rset(r, '$seq', cat(*out) if out else seq())
        else:
            I.rset(r, '$seq', mk('remove', s, I.reify(x)))
            I.unmodelled.append('list.remove')
        return NONE
    if name == '__len__':
        return t.length(s)
    if name == '__getitem__':
        return getitem(I, r, a[0])
    if name == '__contains__':
        return contains(I, r, a[0])
    if name == '__iter__':
        return s
    return I.opaque_call(mk('attr', I.reify(r), name), a, kwargs, 'list.' + name)


def pair2(p):
    if p.op == 'pair':
        return seq(p.args[0], p.args[1])
    return p


def dict_method(I, r, name, a, kwargs):
    d = I.simp(I.rget(r, '$dict'))
    if name == 'items':
        return t.lift(lambda x: t.seq_map(t.dict_pairs(x), pair2), d)
    if name == 'keys' or name == '__iter__':
        return t.lift(t.dict_keys, d)
    if name == 'values':
        return t.lift(t.dict_vals, d)
    if name in ('get',):
        df = a[1] if len(a) > 1 else NONE
        return t.dict_get(d, I.reify(a[0]) if a[0].op == 'ref' and
                          I.kindof(a[0]) != 'obj' else a[0], df)
    if name == '__getitem__':
        return getitem(I, r, a[0])
    if name == '__contains__':
        return contains(I, r, a[0])
    if name == 'update':
        ps = seq()
        if a:
            ps = make_dict(I, a, [])
            ps = t.lift(lambda x: x.args[0] if x.op == 'dict' else
                        mk('pairs', x, ()), ps)
        if kwargs:
            m = make_dict(I, [], kwargs)
            ps = cat(ps, t.lift(lambda x: x.args[0] if x.op == 'dict' else
                                mk('pairs', x, ()), m))
        I.rset(r, '$dict', t.lift(lambda x, y: t.dict_(cat(
            x.args[0] if x.op == 'dict' else mk('pairs', x, ()), y)), d, ps))
        return NONE
    if name == 'copy':
        n = I.new_dict(d)
        dd = I.rget(r, '$default')
        if dd is not UNDEF:
            I.rset(n, '$default', dd)
        return n
    if name == 'pop':
        present = t.lift(lambda y: t.in_(a[0], y if y.op != 'dict' else _dkeys(y)), d)
        df = a[1] if len(a) > 1 else t.MISSING
        v = t.dict_get(d, a[0], df)
        if df is t.MISSING:
            if I.handlers:
                I.raise_type('KeyError', not_(I.simp(present)), (a[0],))
            v = _nomissing(I, v, d, a[0])
        I.rset(r, '$dict', t.lift(lambda x: _dict_del(x, a[0]), d))
        return v
    if name == 'setdefault':
        present = t.lift(lambda y: t.in_(a[0], y if y.op != 'dict' else _dkeys(y)), d)
        df = a[1] if len(a) > 1 else NONE
        v = t.dict_get(d, a[0], df)
        I.rset(r, '$dict', ite(present, d, _dict_set(d, a[0], df)))
        return v
    if name == 'clear':
        I.rset(r, '$dict', mk('dict', seq()))
        return NONE
    if name == '__len__':
        return len_(I, r)
    if name in ('move_to_end', 'popitem'):
        I.unmodelled.append('dict.' + name)
    return I.opaque_call(mk('attr', I.reify(r), name), a, kwargs, 'dict.' + name)


def set_method(I, r, name, a, kwargs):
    s = I.simp(I.rget(r, '$seq'))
    if name == 'add':
        I.rset(r, '$seq', cat(s, seq(a[0])))
        return NONE
    if name == 'update':
        for x in a:
            s = cat(s, as_seq(I, x))
        I.rset(r, '$seq', s)
        return NONE
    if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
        op = {'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd',
              'symmetric_difference': 'BitXor'}[name]
        for x in a:
            s = _setop(I, op, s, set_term(I, x))
        return I.new_set(s)
    if name in ('issubset', 'issuperset'):
        o = set_term(I, a[0])
        x, y = (s, o) if name == 'issubset' else (o, s)
        return not_(truth(I.filter_seq(x, lambda e: not_(t.in_(e, y)))))
    if name == 'isdisjoint':
        o = set_term(I, a[0])
        return not_(truth(I.filter_seq(s, lambda e: t.in_(e, o))))
    if name == 'copy':
        return I.new_set(s)
    if name in ('discard', 'remove'):
        I.rset(r, '$seq', I.filter_seq(s, lambda e: not_(t.eq(e, a[0]))))
        return NONE
    if name == '__contains__':
        return contains(I, r, a[0])
    if name in ('difference_update', 'intersection_update'):
        op = 'Sub' if name[0] == 'd' else 'BitAnd'
        I.rset(r, '$seq', _setop(I, op, s, set_term(I, a[0])))
        return NONE
    return I.opaque_call(mk('attr', I.reify(r), name), a, kwargs, 'set.' + name)


def own_getitem(I, r):
    """an object of a mapping class of the program, whose mixins use its lookup"""
    cls = I.rget(r, '$cls') if r.op == 'ref' and I.kindof(r) == 'obj' else NONE
    if cls.op != 'cls':
        return False
    c = I.w.classes[cls.args[0]]
    return any('Mapping' in str(e) for e in I.w.ext_bases(c)) and \
        I.lookup_method(cls, '__getitem__', r) is not None


def obj_method(I, r, name, a, kwargs):
    """Mapping mixins on objects of the analysed program"""
    if name in ('get', '__contains__') and a and own_getitem(I, r):
        if name == '__contains__':
            return contains(I, r, a[0])
        d = a[1] if len(a) > 1 else dict(
            (k, v) for k, v in kwargs if k is not None).get('default', NONE)
        return I.attempt(lambda: I.getitem(r, a[0]), [ext('KeyError')], lambda: d)
    ks = I.seq_of(r)
    if name == 'keys' or name == '__iter__':
        return ks
    if name == 'values':
        return I.map_seq(ks, lambda e: I.getitem(r, e))
    if name == 'items':
        return I.map_seq(ks, lambda e: seq(e, I.getitem(r, e)))
    if name == '__contains__':
        return t.in_(a[0], ks)
    if name == 'get':
        c = t.in_(a[0], ks)
        d = a[1] if len(a) > 1 else NONE
        return I.split(c, lambda: I.getitem(r, a[0]), lambda: d)
    return I.opaque_call(mk('attr', r, name), a, kwargs, 'object.' + name)


def call_unbound(I, cls, name, args, kwargs):
    """a method of a builtin type called through the type"""
    a = list(args)
    if not a or isinstance(a[0], tuple):
        return None
    if cls == 'object':
        if name == '__new__' and a[0].op == 'cls' and I.bkey(
                I.w.classes[a[0].args[0]]) is None:
            return I.alloc('obj', [('$cls', a[0])])
        if name in ('__setattr__', '__delattr__') and len(a) > 1 and \
                t.is_str(a[1]):
            if name == '__setattr__':
                I.setattr(a[0], a[1].args[1], a[2], True)
            else:
                I.delattr(a[0], a[1].args[1])
            return NONE
        if name == '__init__':
            return NONE
        if name == '__getattribute__' and len(a) == 2 and t.is_str(a[1]):
            return I.getattr(a[0], a[1].args[1])
        return None
    if cls == 'property' and name == '__init__':
        pos, kws = I.norm_args(a, kwargs)
        a, kd = list(pos), dict(kws)
        if any(x.op == 'star' for x in a) or None in kd:
            return None
        for i, f in enumerate(('fget', 'fset', 'fdel', 'doc')):
            I.setattr(a[0], f if f != 'doc' else '__doc__',
                      a[i + 1] if len(a) > i + 1 else kd.get(f, NONE))
        return NONE
    if cls == 'tuple' and name == '__new__' and a[0].op == 'cls' and not kwargs:
        return I.alloc('obj', [('$cls', a[0]), (
            '$tuple', I.simp(I.seq_of(a[1])) if len(a) > 1 else seq())])
    if name.startswith('__') and name not in ('__getitem__', '__setitem__',
                                              '__contains__', '__len__'):
        return None
    return call_method(I, a[0], name, a[1:], kwargs)


def super_method(I, v, name, args, kwargs):
    """method of an external base class"""
    cterm, recv = v.args
    if recv.op == 'ref' and I.kindof(recv) == 'obj' and name in (
            '__getitem__', '__len__', '__contains__', 'index', 'count', '__iter__'):
        tup = I.rget(recv, '$tuple')
        if tup is not UNDEF:
            return call_method(I, tup, name, args, kwargs)
    g = I.intercept.get('sympy.Symbol.' + name)
    if g is not None:
        c = I.w.classes.get(cterm.args[0])
        if c is not None and any(b.split('.')[0] == 'sympy'
                                 for b in I.w.ext_bases(c)):
            return I.call(g, list(args) if name == '__new__' and recv.op == 'cls'
                          else [recv] + list(args), kwargs)
    if name in ('__eq__', '__ne__') and len(args) == 1 and recv in t.SYMBOLS and \
            args[0] in t.SYMBOLS:
        return const((recv is args[0]) == (name == '__eq__'))
    if name == '__getstate__':
        c = I.w.classes.get(cterm.args[0])
        if c is not None and any(b.split('.')[0] == 'sympy'
                                 for b in I.w.ext_bases(c)):
            return NONE         # sympy keeps no state of its own
        return mk('unk', 'object.__getstate__')
    return I.opaque_call(mk('attr', mk('superof', cterm), name),
                         [recv] + list(args) if recv.op != 'cls' or
                         name != '__new__' else list(args), kwargs, None)


def str_method(I, s, name, args, kwargs):
    if name == 'format' and t.is_str(s):
        r = str_format(I, s.args[1], args, kwargs)
        if r is not None:
            return r
    if name == 'join' and len(args) == 1:
        x = I.simp(as_seq(I, args[0]))
        return t.lift(lambda y: _join(I, s, y), x)
    if t.is_str(s):
        vals = [a.args[1] for a in args if not isinstance(a, tuple) and t.is_str(a)]
        if len(vals) == len(args) and name in (
                'startswith', 'endswith', 'upper', 'lower', 'strip', 'lstrip',
                'rstrip', 'isidentifier', 'isdigit', 'title', 'capitalize',
                'split', 'replace', 'partition', 'find'):
            r = getattr(s.args[1], name)(*vals)
            if isinstance(r, (list, tuple)):
                x = seq(*[const(q) for q in r])
                return I.new_list(x) if isinstance(r, list) else x
            return const(r)
    if t.is_str(s) and name in ('ljust', 'rjust', 'center', 'zfill') and args and \
            not isinstance(args[0], tuple) and args[0].op == 'num':
        fill = [a.args[1] for a in args[1:] if t.is_str(a)]
        if len(fill) == len(args) - 1:
            if name != 'zfill' or len(args) == 1:
                return const(getattr(s.args[1], name)(int(args[0].args[0]), *fill))
    if name == 'startswith' and s.op == 'fmt' and t.is_str(args[0]) and \
            t.is_str(s.args[0][0]) and len(s.args[0][0].args[1]) >= \
            len(args[0].args[1]):
        return const(s.args[0][0].args[1].startswith(args[0].args[1]))
    a, k = I.norm_args(args, kwargs)
    return t.call(mk('attr', s, name), tuple(I.reify(x) for x in a),
                  tuple((n, I.reify(v)) for n, v in k))


def _join(I, s, x):
    if x.op == 'seq':
        out = []
        for k, e in enumerate(x.args[0]):
            if k:
                out.append(s)
            out.append(t.strm(I.reify(e)) if not strlike(e) else e)
        return t.fmt(out) if out else const('')
    return mk('strm', mk('join', s, I.reify(x)))


def sig_method(I, sg, name, args, kwargs):
    params = dict(sg.args[2]).get('parameters', seq())
    if name in ('bind', 'bind_partial'):
        a, k = I.norm_args(args, kwargs)
        a = tuple(I.reify(x) for x in a)
        k = tuple((n, I.reify(v)) for n, v in k)
        d = _bind_literal(I, params, a, k, name == 'bind')
        if d == 'TypeError':
            I.raise_type('TypeError', TRUE)
            return UNDEF
        if d is None:
            r = t.call(attr(sg, 'bind'), a, k)
            I.may_raise(r, ('TypeError',))
            d = mk('dict', mk('pairs', r, ()))
        o = I.alloc('obj', [('$cls', ext('inspect.BoundArguments')),
                            ('arguments', NONE)])
        I.rset(o, 'arguments', I.new_dict(d))
        I.rset(o, 'signature', sg)
        return o
    if name == 'replace':
        kw = dict(sg.args[2])
        kw.update(dict(kwargs))
        return mk('new', sg.args[0], (), tuple(sorted(
            (n, I.reify(v)) for n, v in kw.items())))
    return opaque_method(I, sg, name, args, kwargs)


def _bind_literal(I, params, a, k, full):
    """binding of literal parameters with literal arguments"""
    if params.op != 'seq' or any(x.op == 'star' for x in a):
        return None
    if any(n == '**' for n, _ in k):
        return None
    names, kinds, required = [], [], []
    for p in params.args[0]:
        n = term_attr(I, p, 'name')
        if n is None or not t.is_str(n):
            return None
        names.append(n.args[1])
        kinds.append(term_attr(I, p, 'kind'))
        d = term_attr(I, p, 'default')
        if d is not None and d.op == 'ite':
            return None
        if d is ext('inspect.Parameter.empty'):
            required.append(n.args[1])
    known = [ext('inspect.Parameter.' + q) for q in
             ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY')]
    if any(q not in known for q in kinds):
        return None
    out = {}
    pos = [n for n, q in zip(names, kinds) if q is known[0]]
    if len(a) > len(pos):
        return 'TypeError'
    for n, v in zip(pos, a):
        out[n] = v
    for n, v in k:
        if n in out or n not in names:
            return 'TypeError'
        out[n] = v
    if full and any(n not in out for n in required):
        return 'TypeError'
    return t.dict_(seq(*[t.pair(const(n), out[n]) for n in names if n in out]))


def opaque_method(I, recv, name, args, kwargs):
    if name in ('items', 'keys', 'values') and not args and not kwargs:
        if name == 'items':
            return t.seq_map(t.dict_pairs(recv), pair2)
        if name == 'keys':
            return recv
        return t.dict_vals(recv)
    if name == 'get' and args and not kwargs and len(args) <= 2:
        return t.dict_get(recv, I.reify(args[0]), args[1] if len(args) > 1 else NONE)
    if name == 'sum':
        return np_sum(I, 'sum', [recv] + list(args), dict(kwargs))
    if name in ('flatten', 'ravel') and not args:
        return t.npop('flatten', recv)
    if name in ('mean', 'max', 'min', 'squeeze', 'dot', 'transpose') and not kwargs:
        return np_call(I, name, [recv] + list(args), {})
    if name == 'copy' and not args and recv in getattr(I, 'dictsyms', ()) or (
            name == 'copy' and recv.op == 'attr' and recv.args[1] in DICT_ATTRS):
        return I.new_dict(mk('dict', mk('pairs', recv, ())))
    if name in MUT:
        a, k = I.norm_args(args, kwargs)
        I.event('write', recv, '.' + name,
                tuple(I.reify(x) for x in a), tuple((n, I.reify(v)) for n, v in k))
        cur = I.st.heap.get((recv, '$dict'))
        if name in ('update', 'pop', 'setdefault') and (cur is not None or
                                                        name != 'pop' or
                                                        (args and t.is_str(args[0]))):
            tmp = I.new_dict(cur or mk('dict', mk('pairs', recv, ())))
            r = dict_method(I, tmp, name, args, kwargs)
            I.st.heap[(recv, '$dict')] = I.rget(tmp, '$dict')
            return r
        if name in ('append', 'extend', 'sort', 'reverse', 'pop', 'insert'):
            cur = I.st.heap.get((recv, '$seq'), recv)
            tmp = I.new_list(cur)
            r = list_method(I, tmp, name, args, kwargs)
            I.st.heap[(recv, '$seq')] = I.rget(tmp, '$seq')
            return r
    ty = I.typeof(recv)
    return I.opaque_call(mk('attr', recv, name) if recv.op != 'ite' else
                         attr(recv, name), args, kwargs, None)


DICT_ATTRS = {'model_dict', 'connectivity_mapping', 'data', 'initial',
              'integrator_kwargs', 'dependent_derivatives', 'sigmas',
              'output_dict'}


# ------------------------------------------------------------------ externals
def named(I, dotted, args, kwargs):
    """-> (positional rest, dict of named)"""
    a, k = I.norm_args(args, kwargs)
    kd = dict(k)
    names = SIGS.get(dotted)
    rest = []
    for j, x in enumerate(a):
        if names is not None and j < len(names) and x.op != 'star' and \
                names[j] not in kd and '**' not in kd:
            kd[names[j]] = x
        elif names is not None and j < len(names) and x.op != 'star' and \
                '**' in kd:
            d = kd['**']
            kd['**'] = t.dict_(cat(
                t.lift(lambda y: y.args[0], d), seq(t.pair(const(names[j]), x))))
        else:
            rest.append(x)
    for (dn, pn), dv in DEFAULTS.items():
        if dn == dotted and kd.get(pn) is dv:
            del kd[pn]
    if '**' in kd and len(kd) > 1:
        d = kd.pop('**')
        extra = seq(*[t.pair(const(n), v) for n, v in sorted(kd.items())])
        kd = {'**': t.dict_(cat(t.lift(lambda y: y.args[0], d), extra))}
    return rest, kd


def canon_kwargs_dict(d):
    """order of explicit string keys in a ** dict does not matter"""
    if d.op == 'ite':
        return ite(d.args[0], canon_kwargs_dict(d.args[1]),
                   canon_kwargs_dict(d.args[2]))
    if d.op != 'dict':
        return d
    parts = list(d.args[0].args[0]) if d.args[0].op == 'cat' else [d.args[0]]
    lit = []
    other = []
    for p in parts:
        if p.op == 'seq' and all(q.op == 'pair' and t.is_str(q.args[0])
                                 for q in p.args[0]):
            lit.append(p)
        else:
            other.append(p)
    if len(other) == 0:
        qs = [q for p in lit for q in p.args[0]]
        return mk('dict', seq(*sorted(qs, key=lambda q: q.args[0].args[1])))
    return d


def call_ext(I, dotted, args, kwargs):
    d = dotted
    if d in I.intercept:
        return I.call(I.intercept[d], args, kwargs)
    if d in CONSTRUCT:
        r = construct(I, d, args, kwargs)
        if r is not None:
            return r
    if d in t.EXTISA and 'Exception' in (t.EXTISA[d] | {d}):
        a, k = I.norm_args(args, kwargs)
        return mk('new', ext(d), tuple(I.reify(x) for x in a), ())
    if d == 'Exception':
        return mk('new', ext(d), (), ())
    if d in ('keyword.iskeyword', 'keyword.issoftkeyword') and len(args) == 1 and \
            t.is_str(I.simp(args[0])):
        return const(getattr(keyword, d[8:])(I.simp(args[0]).args[1]))
    if d == 'sympy.symbols' and I.raw_symbols and len(args) == 1 and \
            t.is_str(I.simp(args[0])):
        names = I.simp(args[0]).args[1].replace(',', ' ').split()
        kw = dict(kwargs)
        cls, sq = kw.pop('cls', ext('sympy.Symbol')), kw.pop('seq', FALSE)
        if names and not any(c in n for n in names for c in ':()[]\\') and \
                sq in (TRUE, FALSE):
            r = [I.call(cls, [const(n)], list(kw.items())) for n in names]
            return seq(*r) if sq is TRUE or len(r) > 1 or \
                args[0].args[1].rstrip().endswith(',') else r[0]
    if d == 'functools.partial':
        return make_partial(I, args, kwargs)
    if d == 'functools.wraps':
        return mk('builtin', 'identity')
    if d in ('functools.lru_cache', 'functools.cache'):
        return mk('builtin', 'identity')
    if d == 'functools.reduce':
        return reduce_(I, args)
    if d in ('operator.attrgetter', 'operator.itemgetter'):
        return mk('getter', 'attr' if d.endswith('attrgetter') else 'item',
                  tuple(args))
    if d.startswith('operator.') and d[9:] in OPS and len(args) == 2:
        return OPS[d[9:]](I, args[0], args[1])
    if d == 'operator.neg':
        return unop(I, 'USub', args[0])
    if d == 'itertools.chain':
        if args and isinstance(args[0], tuple):
            s = I.seq_of(args[0][1])
            return _chain_seq(I, s)
        return cat(*[as_seq(I, x) for x in args]) if args else seq()
    if d == 'itertools.chain.from_iterable':
        return _chain_seq(I, as_seq(I, args[0]))
    if d == 'itertools.product' and len(args) == 2:
        x, y = as_seq(I, args[0]), as_seq(I, args[1])
        return _product(I, x, y)
    if d == 'itertools.islice' and len(args) == 2:
        return t.slice_(as_seq(I, args[0]), NONE, args[1], NONE)
    if d == 'itertools.repeat' and len(args) == 2:
        return t.map_(t.range_dom(args[1]), t.fresh(), TRUE, args[0])
    if d in ('copy.copy', 'copy.deepcopy'):
        x = I.simp(args[0])
        if x.op == 'ref' and I.kindof(x) in ('list', 'dict', 'set'):
            kd = I.kindof(x)
            slot = '$dict' if kd == 'dict' else '$seq'
            return I.alloc(kd, [(slot, I.rget(x, slot))])
        return x if d == 'copy.copy' and x.op in SEQ_OPS else \
            I.opaque_call(ext(d), args, kwargs, None)
    if d == 'collections.namedtuple':
        f = args[1]
        if t.is_str(f):
            names = tuple(f.args[1].replace(',', ' ').split())
        else:
            s = as_seq(I, f)
            names = tuple(x.args[1] for x in s.args[0]) if s.op == 'seq' else ()
        return mk('ntuple', args[0], names)
    if d.startswith('warnings.') or d.startswith('logging.'):
        for x in args:
            if not isinstance(x, tuple):
                pass
        return NONE
    if d.startswith('collections.') and d.split('.')[-1] in CONSTRUCT:
        pass
    if d == 'inspect.signature':
        f = I.simp(args[0])
        if f.op == 'slam':
            return mk('new', ext('inspect.Signature'), (), (('parameters', seq(*[
                mk('new', ext('inspect.Parameter'), (), (
                    ('name', const(t.SYMBOLS[a])),)) for a in f.args[0]])),))
        if f.op == 'ref' and I.kindof(f) == 'obj':
            sg = I.rget(f, '__signature__')
            if sg is not UNDEF:
                return sg
        sg = I.st.heap.get((f, '__signature__'))
        if sg is not None and sg is not UNDEF:
            return sg
        return t.call(ext(d), (I.reify(f),), ())
    if d.startswith('numpy.'):
        return np_ext(I, d[6:], args, kwargs)
    if d.startswith('math.') and d[5:] in ('sqrt', 'exp', 'log', 'ceil', 'floor'):
        return np_ext(I, d[5:], args, kwargs)
    if d == 'sympy.sqrt':
        return t.sqrt(num(I, args[0]))
    if d == 'sympy.Rational' and len(args) == 2 and not kwargs and all(
            I.simp(x).op == 'num' for x in args if not isinstance(x, tuple)):
        return t.div(I.simp(args[0]), I.simp(args[1]))
    if d in ('sympy.S', 'sympy.sympify', 'sympy.Integer', 'sympy.Float') and \
            len(args) == 1 and args[0].op == 'num':
        return args[0]
    if d == 'toposort.toposort' and len(args) == 1:
        r = toposort(I, args[0])
        if r is not None:
            return r
    if d in ('sympy.Dummy', 'sympy.core.symbol.Dummy') and not I.ivs:
        I.dummies += 1
        s = t.sym('dummy:%d' % I.dummies)
        t.TYPED.add(s)
        t.SYMBOLS[s] = '_Dummy_%d' % I.dummies
        return s
    if d in SYMFUNCS and len(args) == 1 and not kwargs and \
            not isinstance(args[0], tuple) and symp.exprlike(I.reify(args[0])):
        e = num(I, args[0])
        if d == 'sympy.Abs':
            if e.op == 'num':
                return const(abs(e.args[0]))
            if I.typeof(e) is not None and I.typeof(e).name == 'Parameter':
                return e            # as sqrt(sigma**2): widths are positive
        return t.call(ext(d), (e,), ())
    if d.startswith('sympy.'):
        r = symp.call(I, d, args, kwargs)
        if r is not None:
            return r
    if d == 'sympy.diff':
        return opaque_method(I, args[0], 'diff', args[1:], kwargs)
    rest, kd = named(I, d, args, kwargs)
    rest = tuple(I.reify(deref(I, x)) for x in rest)
    kd = tuple(sorted((n, canon_kwargs_dict(I.reify(deref(I, v))))
                      for n, v in kd.items()))
    if d in NEWLIKE:
        r = t.rebuild('new', (ext(d), rest, kd))
        I.event('new', r)
        return r
    r = t.call(ext(d), rest, kd)
    I.event('call', r)
    I.may_raise(r, ('*',))
    return r


def toposort(I, d):
    """layers of a literal dependency mapping"""
    d = I.simp(I.reify(I.dict_of(d)))
    if d.op != 'dict' or d.args[0].op != 'seq':
        return None
    data = {}
    for p in d.args[0].args[0]:
        if p.op != 'pair':
            return None
        k, v = p.args
        if v.op == 'setof':
            v = v.args[0]
        if v.op != 'seq':
            return None
        data[k] = set(v.args[0]) - {k}
    for v in list(data.values()):
        for k in v:
            data.setdefault(k, set())
    if not all(k in t.SYMBOLS or t.is_const(k) for k in data) and len(data) > 1:
        for a in data:
            for b in data:
                if a is not b and t.eq(a, b) is not FALSE:
                    return None
    out = []
    while data:
        free = [k for k in data if not data[k]]
        if not free:
            I.raise_type('toposort.CircularDependencyError')
            return UNDEF
        out.append(t.setof(seq(*free)))
        for k in free:
            del data[k]
        for k in data:
            data[k] = data[k] - set(free)
    return seq(*out)


def _chain_seq(I, s):
    s = I.simp(s)
    if s.op == 'seq':
        return cat(*[I.seq_of(x) for x in s.args[0]]) if s.args[0] else s
    if s.op == 'ite':
        return t.leafwise(lambda x: _chain_seq(I, x), s)
    v = t.fresh()
    if s.op == 'map':
        _, c, b = t.opened(s, v)
        return t.flatmap(s.args[0], v, c, I.reify(b))
    return t.flatmap(t.dom_of(s), v, TRUE, at(s, v))


def _product(I, x, y):
    def f(e):
        return I.map_seq(y, lambda g: seq(e, g))
    return _chain_seq(I, I.map_seq(x, f))


OPS = {}
for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'),
               ('truediv', 'Div'), ('pow', 'Pow')):
    OPS[_n] = (lambda o: lambda I, a, b: binop(I, o, a, b))(_o)
OPS['eq'] = lambda I, a, b: compare(I, 'Eq', a, b)


def reduce_(I, args):
    f, s = args[0], as_seq(I, args[1])
    if f.op == 'ext' and f.args[0] == 'operator.add':
        return sum_seq(I, s, args[2] if len(args) > 2 else ZERO)
    if s.op == 'seq':
        it = list(s.args[0])
        acc = args[2] if len(args) > 2 else it.pop(0)
        for e in it:
            acc = I.call(f, [acc, e], [])
        return acc
    box = I.new_list(seq(args[2] if len(args) > 2 else ZERO))

    def body(e):
        cur = I.rget(box, '$val')
        I.rset(box, '$val', I.call(f, [cur, e], []))
    I.rset(box, '$val', args[2] if len(args) > 2 else ZERO)
    I.loop(s, body)
    return I.rget(box, '$val')


def make_partial(I, args, kwargs):
    f = I.simp(args[0])
    pa = []
    for x in args[1:]:
        if isinstance(x, tuple):
            s = I.simp(I.seq_of(x[1]))
            if s.op == 'seq':
                pa.extend(s.args[0])
            else:
                pa.append(mk('star', s))
        else:
            pa.append(x)
    kw = []
    for n, v in kwargs:
        if n == '**':
            I.unmodelled.append('partial **')
        kw.append((n, v))

    def g(f):
        if f.op == 'partial':
            k2 = dict(f.args[2])
            k2.update(dict(kw))
            return mk('partial', f.args[0], f.args[1] + tuple(pa),
                      tuple(sorted(k2.items())))
        return mk('partial', f, tuple(pa), tuple(sorted(kw)))
    return t.lift(g, f)


# ------------------------------------------------------------------ numpy
NP_ARGS = {
    'squeeze': 1, 'atleast_1d': 1, 'atleast_2d': 1, 'array': 1, 'asarray': 1,
}


def scalar_like(x):
    if x.op == 'num':
        return True
    if x.op == 'npop' and x.args[0] in ('total', 'nantotal', 'prod') and \
            len(x.args) == 2:
        return True
    if x in t.SCALARS:
        return True
    if x.op == 'poly':
        return all(scalar_like(y) for m, _ in x.args[0] for y, _ in m)
    if x.op == 'ite':
        return all(scalar_like(y) for y in t.leafset(x))
    if x.op == 'sum':
        return scalar_like(x.args[3])
    if x.op == 'len':
        return True
    return False


def total(x, nan):
    """sum over all elements of one array-like element"""
    if scalar_like(x):
        return x
    return t.npop('nantotal' if nan else 'total', x)


def np_sum(I, name, args, kw):
    x = I.simp(deref(I, args[0]))
    nan = name.startswith('nan')
    axis = args[1] if len(args) > 1 else kw.get('axis', NONE)
    kd = kw.get('keepdims', FALSE)
    if x.op == 'ite' and any(l.op == 'ref' or l.op in SEQ_OPS
                             for l in t.leafset(x)):
        return I.branch_leaves(x, lambda y: np_sum(I, name, [y] + list(args[1:]), kw))
    isseq = x.op in SEQ_OPS or (x.op == 'ref' and I.kindof(x) == 'list') or \
        (x.op == 'npop' and x.args[0] == 'array')
    if isseq:
        s = I.seq_of(x) if x.op != 'npop' else x.args[1]
        if axis is NONE:
            m = I.map_seq(s, lambda e: total(I.reify(deref(I, e)), nan))
            return sum_seq(I, m)
        if axis is ZERO and not nan:
            def arr(e):
                e = I.reify(e)
                return t.npop('array', e) if e.op in SEQ_OPS else e
            return sum_seq(I, I.map_seq(s, arr))
        if axis.op == 'num':
            x = I.reify(s)
    x = I.reify(x)
    if axis is NONE:
        return total(x, nan)
    ax = I.reify(axis)
    k = _tail_axes(ax, x)
    if k is not None and kd is FALSE:
        return t.npop('nansumtail' if nan else 'sumtail', x, k)
    return t.npop('nansum' if nan else 'sum', x, ax, kd)


def _tail_axes(ax, x):
    """k when ax enumerates all axes from k on"""
    if ax.op == 'map' and ax.args[2] is TRUE:
        v, c, b = t.opened(ax)
        d = t.sub(b, v)
        if d.op == 'num' and len(ax.args[0].args[0]) == 1:
            r = ax.args[0].args[0][0]
            if r.op == 'range' and not _fewer_axes(r, d, x):
                return d
    return None


def ranks(x, k=0, out=None):
    """lower bounds for the number of axes of x: {(base, extra axes)}"""
    out = set() if out is None else out
    if x.op == 'poly':
        for m, _ in x.args[0]:
            for a, _ in m:
                ranks(a, k, out)
    elif x.op == 'npop' and x.args[0] == 'outer':
        ranks(x.args[1], k + 1, out)
    elif x.op not in ('num', 'str'):
        out.add((x, k))
    return out


def _fewer_axes(r, d, x):
    """the range counts the axes of an array that has fewer than x"""
    stop = t.add(r.args[0], d)
    if stop.op != 'len' or stop.args[0].op != 'attr' or \
            stop.args[0].args[1] != 'shape':
        return False
    y = ranks(stop.args[0].args[0])
    z = ranks(x)
    if not any(b is c for c, k in z for b, j in y):
        return True             # the axes of something else
    return all(any(b is c and j < k for c, k in z) for b, j in y)


def np_ext(I, name, args, kwargs):
    kw = dict(kwargs)
    dt = I.simp(kw['dtype']) if 'dtype' in kw else NONE
    if dt is NONE or dt.args[-1] in ('float', 'numpy.float64', 'numpy.double'):
        kw.pop('dtype', None)
    if '**' in kw or any(isinstance(a, tuple) for a in args):
        return I.opaque_call(ext('numpy.' + name), args, kwargs, None)
    return np_call(I, name, args, kw)


larr_calls = set('''zeros ones empty full eye identity squeeze atleast_1d atleast_2d
    ravel transpose zeros_like ones_like empty_like diag diagonal array asarray
    asanyarray copy delete size ndim arange'''.split())


def ground_value(x):
    """a constant built of roots and rational numbers"""
    if x.op == 'num':
        return float(x.args[0])
    if x.op != 'poly':
        return None
    r = 0.
    for m, c in x.args[0]:
        p = float(c)
        for a, e in m:
            if a.op != 'num' or a.args[0] <= 0:
                return None
            p *= float(a.args[0]) ** float(e)
        r += p
    return r


def np_call(I, name, args, kw):
    if args:
        x = I.simp(deref(I, args[0]))
    if name in ('sum', 'nansum'):
        if kw.get('a') is not None:
            args = [kw.pop('a')] + list(args)
        return np_sum(I, name, args, kw)
    if name in ('sqrt', 'exp', 'log', 'abs', 'mean') and args and x is NONE:
        I.raise_type('TypeError')
        return UNDEF
    if name in ('diagonal', 'diag', 'trace') and args and x is NONE:
        I.raise_type('ValueError')
        return UNDEF
    if name == 'mean' and args and t.is_(x, NONE) is not FALSE:
        I.raise_type('TypeError', t.is_(I.reify(x), NONE))
    if name in ('sqrt', 'exp', 'log', 'abs') and args and x.op == 'ite' and \
            NONE in t.leafset(x):
        return I.branch_leaves(x, lambda y: np_call(I, name, [y] + list(args[1:]), kw))
    if name == 'sqrt':
        return t.sqrt(num(I, x))
    if name == 'square':
        return t.pow_(num(I, x), const(2))
    if name == 'power' and len(args) == 2:
        return binop(I, 'Pow', args[0], args[1])
    if name in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and \
            len(args) == 2 and not kw:
        return binop(I, {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult'}.get(
            name, 'Div'), args[0], args[1])
    if name == 'negative':
        return unop(I, 'USub', x)
    if name == 'reciprocal':
        return t.div(ONE, num(I, x))
    if name in ('ceil', 'floor') and len(args) == 1 and not kw:
        v = ground_value(x)
        if v is not None:
            n = round(v)
            if abs(v - n) > 1e-9:
                n = (math.ceil if name == 'ceil' else math.floor)(v)
            return const(n)
    if name in ('logical_not', 'invert') and len(args) == 1 and not kw:
        return unop(I, 'Invert', x)
    if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal') \
            and len(args) == 2 and not kw:
        return compare(I, {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt',
                           'greater_equal': 'GtE', 'equal': 'Eq',
                           'not_equal': 'NotEq'}[name], args[0], args[1])
    if name in ('flip', 'flipud') and len(args) == 1 and not kw:
        return getitem(I, args[0], mk('sl', NONE, NONE, MINUS1))
    if name in larr_calls and args:
        ys = [I.reify(deref(I, a)) for a in args]
        kk = {k: I.reify(deref(I, v)) for k, v in kw.items()}
        if name in ('zeros', 'ones', 'empty', 'full') and 'shape' in kk:
            ys.insert(0, kk.pop('shape'))
        if name == 'delete' and 'axis' in kk:
            ys.append(kk.pop('axis'))
        if any(y.op == 'ite' for y in ys[:1]):
            return I.branch_leaves(I.simp(ys[0]), lambda y: np_call(
                I, name, [y] + list(args[1:]), dict(kw)))
        r = larr.call(I, name, ys, kk)
        if r is not None:
            return I.alloc('arr', [('$val', r)]) if larr.isarr(r) else r
    if name in ('array', 'asarray', 'asanyarray'):
        y = I.reify(x)
        return _nparray(y)
    if name in ('zeros_like', 'ones_like', 'zeros', 'ones') and len(args) == 1 and \
            set(kw) <= {'dtype'} and dict(kw).get('dtype', NONE) in (
                NONE, mk('builtin', 'float')):
        y = I.reify(x)
        y = attr(y, 'shape') if name.endswith('_like') else y
        v = t.call(ext('numpy.broadcast_to'), (), (
            ('array', ZERO if name.startswith('zeros') else ONE), ('shape', y)))
        return I.alloc('arr', [('$val', v)])
    if name == 'full' and len(args) == 2 and not kw:
        v = t.call(ext('numpy.broadcast_to'), (), (
            ('array', I.reify(deref(I, args[1]))), ('shape', I.reify(x))))
        return I.alloc('arr', [('$val', v)])
    if name in ('zeros', 'empty', 'zeros_like', 'ones_like', 'full'):
        v = t.call(ext('numpy.' + name), tuple(I.reify(deref(I, a)) for a in args),
                   tuple((k, I.reify(v)) for k, v in sorted(kw.items())))
        return I.alloc('arr', [('$val', v)])
    if name in ('squeeze', 'atleast_1d', 'atleast_2d', 'nan_to_num', 'log', 'exp',
                'mean', 'stack', 'max', 'min', 'abs', 'isnan', 'ravel', 'flatten',
                'expand_dims', 'transpose'):
        ys = [I.reify(deref(I, a)) for a in args]
        if name in ('squeeze', 'atleast_1d', 'atleast_2d', 'max', 'min', 'mean',
                    'stack'):
            ys[0] = _unarray(ys[0])
        if name == 'stack':
            ax = ys[1] if len(ys) > 1 else kw.get('axis', ZERO)
            if ax is ZERO:
                return t.npop('array', ys[0]) if ys[0].op == 'call' else \
                    _nparray(ys[0])
            return t.npop('stack', ys[0], ax)
        if name == 'ravel':
            name = 'flatten'
        if name == 'transpose' and len(ys) == 1:
            return attr(ys[0], 'T')
        if name == 'expand_dims':
            ax = ys[1] if len(ys) > 1 else kw.get('axis')
            return t.npop('expand_dims', ys[0], ax)
        return t.npop(name, *(ys + [I.reify(v) for k, v in sorted(kw.items())]))
    if name in ('compress', 'take') and len(args) == 2 and \
            kw.get('axis', ZERO) is ZERO and set(kw) <= {'axis'}:
        k, y = (args[0], args[1]) if name == 'compress' else (args[1], args[0])
        idx = t.index_list(I.reify(deref(I, k)))
        if idx is not None:
            return t.take(I.reify(deref(I, y)), idx)
    if name == 'einsum':
        s = args[0]
        ops = [I.reify(deref(I, a)) for a in args[1:]]
        if t.is_str(s):
            sp = s.args[1].replace(' ', '')
            import re
            m = re.fullmatch(r'([a-z])\.\.\.,([a-z])\.\.\.->([a-z])([a-z])\.\.\.', sp)
            if m and len(ops) == 2 and m.group(1) != m.group(2):
                p, q, r1, r2 = m.groups()
                if (r1, r2) == (p, q):
                    return t.npop('outer', ops[0], ops[1])
                if (r1, r2) == (q, p):
                    return t.npop('outer', ops[1], ops[0])
        return t.npop('einsum', s, *ops)
    if name == 'product':
        name = 'prod'
    if name == 'prod':
        return t.npop('prod', I.reify(x), *[I.reify(v) for k, v in sorted(kw.items())])
    if name == 'errstate':
        return NONE
    if name == 'broadcast_arrays' and not kw:
        ys = I.norm_args(args, [])[0]
        ys = [I.reify(y) for y in ys]
        return t.call(ext('numpy.broadcast_arrays'), tuple(I.reify(y) for y in ys), ())
    if name == 'array_equal' and not kw:
        ys = [I.reify(deref(I, y)) for y in I.norm_args(args, [])[0]]
        if len(ys) == 2 and (ys[0] is NONE or ys[1] is NONE):
            # nothing but None, as an array, equals None
            return t.lift(lambda p, q: t.is_(p, q), *ys)
        if len(ys) == 2 and ys[0] is ys[1]:
            return TRUE
    if name == 'broadcast' and not kw:
        ys = [I.reify(deref(I, y)) for y in I.norm_args(args, [])[0]]
        if ys and not any(isinstance(y, tuple) for y in ys) and \
                common_shape(ys) is False:
            I.raise_type('ValueError')
            return UNDEF
    d = 'numpy.' + name
    rest, kd = named(I, d, args, sorted(kw.items()))
    rest = tuple(I.reify(deref(I, x)) for x in rest)
    kd = tuple(sorted((n, I.reify(deref(I, v))) for n, v in kd.items()))
    if name == 'broadcast_to':
        k2 = dict(kd)
        a_, sh = k2.get('array'), k2.get('shape')
        if a_ is not None and a_.op == 'call' and not a_.args[1] and \
                a_.args[0] is ext('numpy.broadcast_to') and \
                dict(a_.args[2]).get('array', NONE).op == 'num':
            a_ = k2['array'] = dict(a_.args[2])['array']
            kd = tuple(sorted(k2.items()))
        if a_ is not None and sh is not None and a_.op == 'npop' and \
                a_.args[0] == 'atleast_1d' and len(a_.args) == 2 and \
                sh.op == 'attr' and sh.args[1] == 'shape' and \
                sh.args[0].op == 'npop' and sh.args[0].args[0] == 'atleast_1d':
            k2['array'] = a_.args[1]
            kd = tuple(sorted(k2.items()))
        elif a_ is not None and sh is not None and larr.isarr(a_) and \
                larr.shape(a_) == (1,) and sh.op == 'attr' and \
                sh.args[1] == 'shape' and sh.args[0].op == 'npop' and \
                sh.args[0].args[0] == 'atleast_1d':
            k2['array'] = larr.rows(a_)[0]
            kd = tuple(sorted(k2.items()))
    r = t.call(ext(d), rest, kd)
    I.event('call', r)
    if name in ('linalg.inv', 'linalg.pinv') and rest:
        I.may_raise(r, ('numpy.linalg.LinAlgError',))
        sh = larr.shape(rest[0])
        if sh is not None and len(sh) == 2 and sh[0] == sh[1] and not kd:
            return I.alloc('arr', [('$val', larr.inverse(r, sh[0]))])
        return r
    if name not in ('ix_', 'nonzero', 'flatnonzero', 'where', 'shape', 'ndim', 'isnan', 'ones',
                    'any', 'all', 'isfinite', 'isinf', 'full_like', 'nextafter'):
        I.may_raise(r, ('*',))
    return r


def _nparray(y):
    if y.op in SEQ_OPS:
        return mk('npop', 'array', y)
    if y.op == 'ite':
        return t.mapleaves(y, _nparray)
    if y.op in ('npop', 'poly', 'num', 'call', 'item', 'at', 'sum'):
        return y
    return t.npop('asarr', y)


def _unarray(y):
    if y.op == 'ite':
        return t.mapleaves(y, _unarray)
    if y.op == 'npop' and y.args[0] in ('array', 'asarr'):
        return y.args[1]
    return y


def _rowsums(m):
    """[sum of x[k] * w, for k over the rows of x] as sum of x * w over all axes but
    the first; None when m is nothing like that"""
    v, c, b = t.opened(m)
    D = m.args[0]
    if c is not TRUE or D.op != 'dom':
        return None
    rows = [(A, mk('at', A, v)) for A in D.args[0]]
    r = ZERO
    for mono, k in t._aspoly(b).items():
        if len(mono) != 1:
            return None
        (x, e), = mono
        if e != 1 or x.op != 'npop' or x.args[0] not in ('total', 'nantotal') or \
                len(x.args) != 2:
            return None
        inner = t._aspoly(x.args[1])
        new = {}
        for m2, k2 in inner.items():
            f = dict(m2)
            A = next((A for A, row in rows if f.get(row) == 1), None)
            if A is None:
                return None
            del f[mk('at', A, v)]
            if any(v in y.fv for y in f):
                return None
            f[A] = f.get(A, 0) + 1
            new[tuple(sorted(f.items(), key=lambda q: q[0].key))] = k2
        r = t.add(r, t.mul(mk('num', k), t.npop(
            'sumtail' if x.args[0] == 'total' else 'nansumtail', t._frompoly(new), ONE)))
    return r


def _npfinal(name, args):
    if name == 'array' and len(args) == 1 and args[0].op == 'map':
        return _rowsums(args[0])
    if name == 'nan_to_num' and len(args) == 1 and args[0].op in ('map', 'seq'):
        args = (t.npop('array', args[0]),)
    # outer(a, a) etc. stay; squeeze(squeeze(x))
    if name in ('squeeze', 'flatten', 'nan_to_num') and len(args) == 1 and \
            args[0].op == 'npop' and args[0].args[0] == name and \
            len(args[0].args) == 2:
        return args[0]
    if name in ('flatten', 'nan_to_num') and len(args) == 1 and \
            args[0].op == 'poly' and len(args[0].args[0]) == 1:
        (m, c), = args[0].args[0]
        k = c if name == 'flatten' else (-1 if c < 0 else 1)
        if k != 1:
            return t.mul(const(k), t.npop(name, t._frompoly({m: c / k})))
    if name == 'nan_to_num' and len(args) == 1 and rowarray(args[0]) is not None:
        return t.npop('array', t.seq_map(rowarray(args[0]), lambda y: t.npop(name, y)))
    if name in ('total', 'sumtail', 'nantotal', 'nansumtail'):
        x = args[0]
        # linearity: constants and sums move out (finite sums)
        p = t._aspoly(x)
        if not p:
            return ZERO
        nan = name.startswith('nan')
        if (len(p) > 1 and not nan) or (len(p) == 1 and list(p.values())[0] != 1):
            r = ZERO
            for m, c in p.items():
                inner = t._frompoly({m: t.Fraction(1)})
                inner = t.npop(name, inner, *args[1:]) if not (
                    name == 'total' and False) else inner
                r = t.add(r, t.mul(mk('num', c), inner))
            return r
        if len(p) == 1 and name in ('total', 'sumtail'):
            (m, c), = p.items()
            sc = [(y, e) for y, e in m if scalar_like(y)]
            if sc:
                rest = [(y, e) for y, e in m if not scalar_like(y)]
                if rest:
                    return t.mul(t._frompoly({tuple(sc): t.Fraction(1)}),
                                 t.npop(name, t._frompoly({tuple(rest): t.Fraction(1)}),
                                        *args[1:]))
    return None


t.NPFINAL[0] = _npfinal
