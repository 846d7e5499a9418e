"""Literal arrays: nested numpy arrays of known shape with scalar entries.

A literal array is the term npop('array', seq(rows)) whose rows are literal
arrays of one shape, down to entries which are known to be scalars. Operations
on shapes (squeeze, atleast_2d, transposes, masks, np.ix_) are carried out on
them, so that differently written selections have the same normal form.
"""
from . import terms as t
from .terms import mk, const, ext, seq, ZERO, ONE, NONE


def scalar(x):
    if x.op == 'num' or x in t.SCALARS:
        return True
    if x.op == 'const':
        return x in (t.TRUE, t.FALSE)
    if x.op == 'poly':
        return all(scalar(y) for m, _ in x.args[0] for y, _ in m)
    if x.op == 'ite':
        return scalar(x.args[1]) and scalar(x.args[2])
    if x.op == 'at' and x.args[1].op == 'num':
        b, d = x.args[0], 1
        while b.op == 'at' and b.args[1].op == 'num':
            b, d = b.args[0], d + 1
        return t.NDIM.get(b) == d
    if x.op == 'npop':
        if x.args[0] in ('total', 'nantotal', 'prod'):
            return True
        if x.args[0] in ('sqrt', 'abs', 'log', 'exp') and len(x.args) == 2:
            return scalar(x.args[1])
        return False
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in (
            'sqrt', 'abs', 'float', 'numpy.sqrt', 'numpy.abs'):
        return all(scalar(y) for y in x.args[1])
    return t.is_bool(x)


def shape(x):
    """tuple of ints, or None"""
    if x.op == 'npop' and x.args[0] in ('array', 'asarr') and len(x.args) == 2:
        x = x.args[1]
    if x.op == 'seq':
        if not x.args[0]:
            return (0,)
        ss = [shape(y) for y in x.args[0]]
        if ss[0] is None or any(s != ss[0] for s in ss):
            return None
        return (len(ss),) + ss[0]
    return () if scalar(x) else None


def isarr(x):
    return x.op == 'npop' and x.args[0] == 'array' and len(x.args) == 2 and \
        x.args[1].op == 'seq' and shape(x) is not None


def rows(x):
    """python list of the first axis"""
    if x.op == 'npop':
        x = x.args[1]
    return list(x.args[0])


def nest(x):
    s = shape(x)
    if not s:
        return x if x.op != 'npop' or x.args[0] not in ('array', 'asarr') else nest(x.args[1])
    return [nest(y) for y in rows(x)]


def build(n):
    if isinstance(n, list):
        return t.npop('array', seq(*[build(y) for y in n]))
    return n


def canon(x):
    """the literal array of a nested sequence, or None"""
    s = shape(x)
    if s is None or s == ():
        return None
    return build(nest(x))


def flat(n):
    if isinstance(n, list):
        return [z for y in n for z in flat(y)]
    return [n]


def fold(leaves, shp):
    leaves = list(leaves)

    def go(s):
        if not s:
            return leaves.pop(0)
        return [go(s[1:]) for _ in range(s[0])]
    return go(tuple(shp))


def full(shp, v):
    n = 1
    for k in shp:
        n *= k
    return build(fold([v] * n, shp)) if shp else v


def shape_arg(x):
    """literal shape out of a term"""
    if x.op == 'num' and x.args[0].denominator == 1:
        return (int(x.args[0]),)
    if x.op == 'npop' and x.args[0] == 'array' and len(x.args) == 2:
        x = x.args[1]
    if x.op == 'seq' and all(y.op == 'num' and y.args[0].denominator == 1
                             for y in x.args[0]):
        return tuple(int(y.args[0]) for y in x.args[0])
    return None


def transpose(n):
    return [list(r) for r in zip(*n)]


def call(I, name, ys, kw):
    """value of a numpy function on literal arrays, or None"""
    if name in ('zeros', 'ones', 'empty') and len(ys) == 1 and not kw:
        s = shape_arg(ys[0])
        if s is not None:
            return full(s, ZERO if name == 'zeros' else ONE if name == 'ones'
                        else t.sym('$uninitialised'))
        return None
    if name == 'full' and len(ys) == 2 and scalar(ys[1]):
        s = shape_arg(ys[0])
        return None if s is None else full(s, ys[1])
    if name in ('eye', 'identity') and len(ys) == 1 and not kw:
        s = shape_arg(ys[0])
        if s is not None and len(s) == 1:
            return build([[ONE if i == j else ZERO for j in range(s[0])]
                          for i in range(s[0])])
        return None
    if name == 'arange' and 1 <= len(ys) <= 3 and not kw and all(
            y.op == 'num' and y.args[0].denominator == 1 for y in ys):
        r = range(*[int(y.args[0]) for y in ys])
        return build([const(k) for k in r]) if 0 < len(r) < 20 else None
    if not ys:
        return None
    x = ys[0]
    s = shape(x)
    if s is None:
        return None
    if kw:
        return None
    n = nest(x)
    if name == 'squeeze' and len(ys) == 1:
        return _b(fold(flat(n), [k for k in s if k != 1]))
    if name in ('atleast_1d', 'atleast_2d') and len(ys) == 1:
        want = 1 if name == 'atleast_1d' else 2
        return _b(fold(flat(n), (1,) * (want - len(s)) + s))
    if name in ('ravel', 'flatten') and len(ys) == 1 and s:
        return _b(flat(n))
    if name == 'transpose' and len(ys) == 1 and len(s) == 2:
        return _b(transpose(n))
    if name in ('zeros_like', 'ones_like', 'empty_like'):
        return full(s, ONE if name == 'ones_like' else ZERO)
    if name in ('diag', 'diagonal') and len(ys) == 1:
        if len(s) == 2:
            return _b([n[k][k] for k in range(min(s))])
        if len(s) == 1 and name == 'diag':
            return _b([[n[i] if i == j else ZERO for j in range(s[0])]
                       for i in range(s[0])])
        return None
    if name in ('array', 'asarray', 'copy', 'asanyarray') and s:
        return _b(n)
    if name == 'size' and len(ys) == 1:
        return const(len(flat(n)))
    if name == 'ndim':
        return const(len(s))
    if name == 'delete' and len(ys) == 3 and ys[2].op == 'num':
        ks = index_positions(ys[1], s[int(ys[2].args[0])])
        if ks is None:
            return None
        if ys[2] is ZERO:
            return _b([r for k, r in enumerate(n) if k not in ks])
        if ys[2] is ONE and len(s) == 2:
            return _b([[v for k, v in enumerate(r) if k not in ks] for r in n])
    return None


def _b(n):
    return build(n) if isinstance(n, list) else n


def index_positions(k, n):
    """list of positions of an index of one axis, an int for a scalar one"""
    if k.op == 'num' and k.args[0].denominator == 1:
        p = int(k.args[0])
        return p + n if p < 0 else p
    if k.op == 'fullsl':
        return list(range(n))
    if k.op == 'sl' and all(y is NONE or y.op == 'num' for y in k.args):
        lo, hi, st = [None if y is NONE else int(y.args[0]) for y in k.args]
        return list(range(n))[slice(lo, hi, st)]
    idx = t.index_list(k)
    if idx is not None and idx.op == 'seq' and all(y.op == 'num' for y in idx.args[0]):
        return [int(y.args[0]) + (n if y.args[0] < 0 else 0) for y in idx.args[0]]
    return None


def axes(k, s):
    """list of positions per axis for an index, or None"""
    if k.op == 'call' and k.args[0].op == 'ext' and \
            k.args[0].args[0] == 'numpy.ix_' and not k.args[2]:
        ks = [index_positions(y, n) for y, n in zip(k.args[1], s)]
        if len(k.args[1]) != len(s) or any(not isinstance(y, list) for y in ks):
            return None
        return ks
    if k.op == 'seq':
        if len(k.args[0]) > len(s):
            return None
        ks = [index_positions(y, n) for y, n in zip(k.args[0], s)]
        if any(y is None for y in ks):
            return None
        lists = [y for y, z in zip(ks, k.args[0]) if isinstance(y, list) and
                 z.op not in ('fullsl', 'sl')]
        if len(lists) > 1:
            return None           # paired indices, not a block
        return ks + [list(range(n)) for n in s[len(ks):]]
    p = index_positions(k, s[0])
    if p is None:
        return None
    return [p] + [list(range(n)) for n in s[1:]]


def get(x, k):
    s = shape(x)
    if not s:
        return None
    ks = axes(k, s)
    if ks is None:
        return None
    n = nest(x)

    def go(v, ks):
        if not ks:
            return v
        if isinstance(ks[0], int):
            return go(v[ks[0]], ks[1:]) if -len(v) <= ks[0] < len(v) else None
        return [go(v[p], ks[1:]) for p in ks[0]]
    try:
        return _b(go(n, ks))
    except IndexError:
        return None


def set_(x, k, v):
    s = shape(x)
    if not s:
        return None
    ks = axes(k, s)
    if ks is None:
        return None
    n = nest(x)
    tgt = [len(p) for p in ks if isinstance(p, list)]
    vs = shape(v)
    if vs is None:
        return None
    if vs == ():
        vn = fold([v] * _prod(tgt), tgt)
    elif list(vs) == tgt:
        vn = nest(v)
    else:
        return None

    def put(dst, src, ks):
        if isinstance(ks[0], int):
            if len(ks) == 1:
                dst[ks[0]] = src
            else:
                put(dst[ks[0]], src, ks[1:])
            return
        for j, p in enumerate(ks[0]):
            if len(ks) == 1:
                dst[p] = src[j]
            else:
                put(dst[p], src[j], ks[1:])
    put(n, vn, ks)
    return _b(n)


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def inverse(call, n):
    """entries of an opaque n x n matrix"""
    t.NDIM[call] = 2
    return build([[t.at(t.at(call, const(i)), const(j)) for j in range(n)]
                  for i in range(n)])
