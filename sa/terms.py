"""Hash-consed value-flow terms with a canonical normal form.

A term denotes a value as a function of the inputs of the analysed entry point.
Terms are built only through the smart constructors below, which keep them in
normal form, so that two pieces of code that compute the same value in a
different way (loop or comprehension, helper or inline, reordered statements,
rearranged arithmetic, inverted conditions) end up as the *same* object.

Nothing here runs the analysed program: the constructors only rewrite terms.
"""
import hashlib
from fractions import Fraction

_table = {}


class T(object):
    __slots__ = ('op', 'args', 'key', 'hb', 'fv', '_sub', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


def _argkey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_argkey(x) for x in a) + ')'
    return repr(a)


EMPTY = frozenset()


def _walk_args(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in _walk_args(a):
                yield x


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = args
    s = op + '[' + ';'.join(_argkey(a) for a in args) + ']'
    t.key = hashlib.sha1(s.encode()).hexdigest()[:20]
    hb = 0
    fv = EMPTY
    for a in _walk_args(args):
        if a.hb > hb:
            hb = a.hb
        if a.fv:
            fv = fv | a.fv
    if op in BINDERS:
        hb = max(hb, args[1])
    if op in ('iv', 'acc', 'fresh'):
        fv = fv | frozenset([t])
    t.hb = hb
    t.fv = fv
    t._sub = None
    _table[k] = t
    return t


_base = {}


def remember():
    """the terms made at import, which module constants refer to"""
    _base.update(_table)


def forget():
    """drop every other term; all objects holding terms must be made anew"""
    _table.clear()
    _table.update(_base)
    for d in (LEN_EQ, LEN_ROW, NDIM, SYMBOLS, EXPRS):
        d.clear()
    for t in _base.values():
        t._sub = None


# binder terms: args = (dom, height, body...)   bound variable is bv(height)
BINDERS = {'map', 'sum', 'prod', 'exists', 'first', 'last', 'psum', 'fold',
           'lam', 'gather', 'scatter', 'rekey', 'perm'}


def subterms(t):
    """All subterms (frozenset), cached."""
    if t._sub is None:
        acc = set([t])
        for a in _walk_args(t.args):
            acc |= subterms(a)
        t._sub = frozenset(acc)
    return t._sub


# ---------------------------------------------------------------- atoms
def const(v):
    if v is True or v is False or v is None or isinstance(v, (str, bytes)):
        return mk('const', type(v).__name__, v)
    if isinstance(v, (int, Fraction)):
        return mk('num', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', 'float', repr(v))
        return mk('num', Fraction(repr(v)))
    if isinstance(v, complex):
        return mk('const', 'complex', repr(v))
    if v is Ellipsis:
        return mk('const', 'ellipsis', '...')
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
MINUS1 = const(-1)
UNDEF = mk('undef')
ELLIPSIS = const(Ellipsis)


def sym(name):
    return mk('sym', name)


def ext(name):
    return mk('ext', name)


def is_const(t):
    return t.op in ('const', 'num')


def is_num(t):
    return t.op == 'num'


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


def constval(t):
    return t.args[1] if t.op == 'const' else t.args[0]


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """Replace terms (keys of m) by terms, renormalising on the way up."""
    if not m:
        return t
    return _subst(t, m, {})


def _touch(t, m):
    s = subterms(t)
    if len(m) < len(s):
        return any(k in s for k in m)
    return any(x in m for x in s)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not _touch(t, m):
        memo[t] = t
        return t
    if t.op in BINDERS:
        dom = t.args[0]
        h = t.args[1]
        v = fresh()
        body = [_subst_arg(a, {mk('bv', h): v}, {}) for a in t.args[2:]]
        body = [_subst_arg(a, m, memo) for a in body]
        r = rebind(t.op, _subst(dom, m, memo) if isinstance(dom, T) else
                   _subst_arg(dom, m, memo), v, body)
    else:
        r = rebuild(t.op, tuple(_subst_arg(a, m, memo) for a in t.args))
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m, memo) for x in a)
    return a


_fresh_n = [0]


def fresh():
    _fresh_n[0] += 1
    return mk('fresh', _fresh_n[0])


def bound(op, dom, var, *bodies):
    """Close ``var`` in bodies and build the binder term (no simplification)."""
    h = 0
    for a in _walk_args(bodies):
        h = max(h, a.hb)
    h += 1
    b = mk('bv', h)
    bodies = tuple(_subst_arg(x, {var: b}, {}) for x in bodies)
    # renormalisation may have changed inner heights
    h2 = 0
    for a in _walk_args(bodies):
        h2 = max(h2, a.hb)
    if h2 + 1 != h:
        b2 = mk('bv', h2 + 1)
        bodies = tuple(_subst_arg(x, {b: b2}, {}) for x in bodies)
        h = h2 + 1
    return mk(op, dom, h, *bodies)


def opened(t, var=None):
    """bodies of a binder term with the bound variable replaced by var."""
    var = var or fresh()
    b = mk('bv', t.args[1])
    return (var,) + tuple(_subst_arg(a, {b: var}, {}) for a in t.args[2:])


def rebind(op, dom, v, body):
    if op == 'map':
        return map_(dom, v, body[0], body[1])
    if op == 'sum':
        return sum_(dom, v, body[0], body[1])
    if op == 'exists':
        return exists(dom, v, body[0])
    if op == 'first':
        return first(dom, v, body[0])
    if op == 'psum':
        return psum(dom, v, body[0], body[1], body[2])
    if op == 'last':
        return last(dom, v, body[0], body[1], body[2])
    return bound(op, dom, v, *body)


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op in LIFTED:
        return mkl(op, *args)
    return mk(op, *args)


# ---------------------------------------------------------------- conditions
MAXLEAVES = 96


def leaves(t):
    if t.op != 'ite':
        return 1
    return leaves(t.args[1]) + leaves(t.args[2])


def leafset(t, acc=None):
    acc = set() if acc is None else acc
    if t.op == 'ite':
        leafset(t.args[1], acc)
        leafset(t.args[2], acc)
    else:
        acc.add(t)
    return acc


def _cof(t, atom, val):
    """cofactor of a decision tree at its root (deeper for ordered trees)."""
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


_ite_memo = {}


def is_atom_cond(c):
    return c.op != 'ite' and c is not TRUE and c is not FALSE


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'lt' and c.args[0] is ZERO and _touching(c, a, b):
        return ite(lt(c.args[1], ZERO), b, a)
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    cands = []
    if c.op == 'ite':
        cands.append(c.args[0])
    else:
        cands.append(c)
    if a.op == 'ite':
        cands.append(a.args[0])
    elif a.op in COND_OPS:
        cands.append(a)
    if b.op == 'ite':
        cands.append(b.args[0])
    elif b.op in COND_OPS:
        cands.append(b)
    top = min(cands, key=lambda x: x.key)

    def cofc(v):
        if c is top:
            return TRUE if v else FALSE
        return _cof(c, top, v)
    hi = ite(_sc(cofc(True), top, True), _sc(_cof(a, top, True), top, True),
             _sc(_cof(b, top, True), top, True))
    lo = ite(_sc(cofc(False), top, False), _sc(_cof(a, top, False), top, False),
             _sc(_cof(b, top, False), top, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = top
    else:
        r = None
        # `x == v ? v : x` and the like
        if top.op == 'eq' or top.op == 'is':
            x, y = top.args
            if (subst_eq(lo, x, y) is hi):
                r = lo
        if r is None:
            r = mk('ite', top, hi, lo)
    _ite_memo[k] = r
    return r


def subst_eq(t, x, y):
    """t with x replaced by y when x is the non-constant side"""
    if is_const(x) and not is_const(y):
        x, y = y, x
    if t is x:
        return y
    return t


def _sc(t, atom, val):
    return assume(t, atom, val)


_assume_memo = {}


def condatoms(t):
    """atomic conditions occurring in t as ite conditions or boolean leaves"""
    return [s for s in subterms(t) if s.op in COND_OPS]


COND_OPS = {'eq', 'is', 'lt', 'in', 'truthy', 'isinstance', 'issubclass',
            'hasattr', 'exists', 'raises', 'callable', 'cond'}


def assume(t, atom, val):
    """Simplify t knowing that the atomic condition has the given value."""
    if t.op in ('const', 'num', 'sym', 'ext', 'cls', 'fun', 'bv', 'iv'):
        if t is atom:
            return TRUE if val else FALSE
        return t
    k = (t, atom, val)
    r = _assume_memo.get(k)
    if r is not None:
        return r
    m = {}
    for s in condatoms(t):
        if s is atom:
            m[s] = TRUE if val else FALSE
        else:
            v = implied(atom, val, s)
            if v is not None:
                m[s] = TRUE if v else FALSE
    # x is/== constant known: replace x by the constant in decision leaves only
    r = subst(t, m) if m else t
    _assume_memo[k] = r
    return r


ISA = {}      # class name -> set of base names; filled by the world


def isa(c, d):
    """subclass relation between class terms: True / False / None unknown"""
    if c is d:
        return True
    if c.op == 'cls':
        bases = ISA.get(c.args[0])
        if bases is None:
            return None
        if d.op in ('cls', 'ext'):
            return d.args[0] in bases
    if c.op == 'ext' and d.op == 'ext':
        b = EXTISA.get(c.args[0])
        if b is not None:
            return d.args[0] in b
    if c.op == 'ext' and d.op == 'cls':
        return False
    return None


EXTISA = {
    'sympy.Eq': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'sympy.Ge': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'sympy.Le': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'sympy.Gt': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'sympy.Lt': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'sympy.Ne': {'sympy.Relational', 'sympy.Rel', 'sympy.Basic'},
    'toposort.CircularDependencyError': {'ValueError', 'Exception', 'BaseException'},
    'sympy.Derivative': {'sympy.Expr', 'sympy.Basic'},
    'sympy.Expr': {'sympy.Basic'},
    'sympy.Symbol': {'sympy.Expr', 'sympy.Basic'},
}


def implied(atom, val, other):
    """truth of `other` given atom==val, or None"""
    ao, bo = atom.op, other.op
    if ao in ('isinstance', 'issubclass') and bo == ao:
        if atom.args[0] is other.args[0]:
            c, d = atom.args[1], other.args[1]
            if val and isa(c, d):
                return True
            if not val and isa(d, c):
                return False
        return None
    if val and ao == 'is' and bo == 'is':
        # x is A  =>  not x is B for distinct constants/classes
        for i in (0, 1):
            for j in (0, 1):
                if atom.args[i] is other.args[j]:
                    p, q = atom.args[1 - i], other.args[1 - j]
                    if p is not q and ground(p) and ground(q):
                        return False
        return None
    if val and ao in ('eq', 'is') and bo in ('eq', 'is'):
        for i in (0, 1):
            for j in (0, 1):
                if atom.args[i] is other.args[j]:
                    p, q = atom.args[1 - i], other.args[1 - j]
                    if p is not q and is_const(p) and is_const(q):
                        return False
                    if p is q and bo == 'eq':
                        return True
        return None
    if ao == 'is' and val:
        x, y = atom.args
        for p, q in ((x, y), (y, x)):
            if q is NONE:
                if bo == 'truthy' and other.args[0] is p:
                    return False
                if bo == 'isinstance' and other.args[0] is p:
                    return False
                if bo == 'issubclass' and other.args[0] is p:
                    return False
            if q.op in ('cls', 'ext') and bo == 'issubclass' and \
                    other.args[0] is p:
                return isa(q, other.args[1])
            if q.op in ('cls', 'ext') and bo == 'isinstance' and \
                    other.args[0] is p:
                # x is a class, so not an instance of a repository class
                if other.args[1].op == 'cls':
                    return False
    if bo == 'is' and val:
        x, y = other.args
        for p, q in ((x, y), (y, x)):
            if q is NONE and atom.args[0] is p and \
                    ao in ('truthy', 'isinstance', 'issubclass'):
                return False
            if q.op in ('cls', 'ext') and ao == 'isinstance' and \
                    atom.args[0] is p and atom.args[1].op == 'cls':
                return False
    if ao == 'issubclass' and not val and bo == 'is':
        x, y = other.args
        for p, q in ((x, y), (y, x)):
            if p is atom.args[0] and q.op in ('cls', 'ext') and \
                    isa(q, atom.args[1]):
                return False
    if ao == 'issubclass' and val and bo == 'isinstance' and \
            other.args[0] is atom.args[0] and other.args[1].op == 'cls':
        return False
    if ao == 'isinstance' and val and bo == 'issubclass' and \
            other.args[0] is atom.args[0] and atom.args[1].op == 'cls':
        return False
    if ao == 'exists' and bo == 'truthy' and False:
        return None
    if ao == 'lt' and bo == 'lt' and val:
        # a<b  =>  not b<a
        if atom.args[0] is other.args[1] and atom.args[1] is other.args[0]:
            return False
    if ao == 'lt' and bo == 'eq' and val:
        if set(atom.args) == set(other.args):
            return False
    if ao == 'eq' and bo == 'lt' and val:
        if set(atom.args) == set(other.args):
            return False
    return None


def ground(t):
    return is_const(t) or t.op in ('cls', 'ext')


def assume_all(t, lits):
    """lits: dict atom->bool"""
    if not lits:
        return t
    if t.op in ('const', 'num', 'sym', 'ext', 'cls', 'bv', 'iv', 'ref'):
        return t
    for a, v in lits.items():
        t = assume(t, a, v)
    return t


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def literals(c):
    """literals that must hold for c to be true: list of (atom, bool)"""
    out = []
    while True:
        if c is TRUE or c is FALSE:
            return out
        if c.op != 'ite':
            out.append((c, True))
            return out
        a, hi, lo = c.args
        if lo is FALSE:
            out.append((a, True))
            c = hi
        elif hi is FALSE:
            out.append((a, False))
            c = lo
        else:
            return out


BOOL_OPS = COND_OPS


def is_bool(t):
    if t is TRUE or t is FALSE or t.op in BOOL_OPS:
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


TRUTHY_OPS = {'fun', 'cls', 'ext', 'bm', 'new', 'partial', 'lam'}


def truth(t):
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if is_bool(t):
        return t
    if t.op == 'const':
        return const(bool(t.args[1]) if t.args[0] in ('str', 'bytes', 'NoneType')
                     else True)
    if t.op == 'num':
        return const(t.args[0] != 0)
    if t.op == 'seq':
        return const(len(t.args[0]) > 0)
    if t.op == 'map':
        v, c, b = opened(t)
        return exists(t.args[0], v, c)
    if t.op == 'cat':
        return or_(*[truth(x) for x in t.args[0]])
    if t.op == 'flat' and t.args[0].op == 'map':
        v, c, b = opened(t.args[0])
        return exists(t.args[0].args[0], v, and_(c, truth(b)))
    if t.op == 'dict':
        return truth(t.args[0])
    if t.op == 'setof':
        return truth(t.args[0])
    if t.op == 'len':
        return truth(t.args[0]) if t.args[0].op in ('map', 'seq', 'cat', 'dict', 'flat') \
            else mk('truthy', t.args[0])
    if t.op == 'sum' and False:
        return t
    if t.op in TRUTHY_OPS:
        return TRUE
    if t.op == 'ref':
        return TRUE
    return mk('truthy', t)


# ---------------------------------------------------------------- lifting
def leafwise(f, s):
    """apply f to every leaf of a decision tree of any size"""
    if s.op == 'ite':
        return ite(s.args[0], leafwise(f, s.args[1]), leafwise(f, s.args[2]))
    return f(s)


def lift(f, *args):
    """apply f to decision-tree arguments leafwise"""
    its = [a for a in args if isinstance(a, T) and a.op == 'ite']
    if not its:
        return f(*args)
    n = 1
    for a in its:
        n *= leaves(a)
    if n > MAXLEAVES:
        return f(*args)
    top = min((a.args[0] for a in its), key=lambda x: x.key)
    hi = [_cofdeep(a, top, True) if isinstance(a, T) else a for a in args]
    lo = [_cofdeep(a, top, False) if isinstance(a, T) else a for a in args]
    return ite(top, lift(f, *hi), lift(f, *lo))


def _cofdeep(a, top, v):
    if a.op == 'ite':
        return assume(_cof(a, top, v), top, v)
    return a


def lift_seqargs(f, args):
    """like lift but args is a tuple passed as one tuple"""
    return lift(lambda *a: f(tuple(a)), *args)


# generic strict operators whose arguments are lifted
LIFTED = {'attr', 'item', 'call', 'at', 'len', 'pair', 'new', 'fmt', 'npop',
          'sorted', 'seq', 'cat', 'with', 'keys', 'vals',
          'bm', 'partial', 'obj'}


def _flatten_T(args, out):
    for a in args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            _flatten_T(a, out)


def _replace_T(args, it):
    res = []
    for a in args:
        if isinstance(a, T):
            res.append(next(it))
        elif isinstance(a, tuple):
            res.append(_replace_T(a, it))
        else:
            res.append(a)
    return tuple(res)


def mkl(op, *args):
    """mk with ite-lifting over all (nested) term arguments"""
    ts = []
    _flatten_T(args, ts)
    if not any(t.op == 'ite' for t in ts):
        f = FINAL.get(op)
        return f(*args) if f else mk(op, *args)

    def go(*vals):
        a = _replace_T(args, iter(vals))
        f = FINAL.get(op)
        return f(*a) if f else mk(op, *a)
    return lift(go, *ts)


# ---------------------------------------------------------------- polynomials
def _mono_mul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    for x in list(d):
        # x[:, None] * x is the outer product of x with itself
        if x.op == 'item' and x.args[1].op == 'seq' and d[x] == 1 and \
                len(x.args[1].args[0]) == 2 and x.args[1].args[0][1] is NONE and \
                x.args[1].args[0][0].op == 'fullsl' and d.get(x.args[0], 0) >= 1:
            y = x.args[0]
            del d[x]
            d[y] -= 1
            z = npop('outer', y, y)
            d[z] = d.get(z, 0) + 1
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0),
                        key=lambda p: p[0].key))


def _aspoly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _order(m):
    """graded order of monomials with positive exponents"""
    return (sum(e for _, e in m),
            tuple((x.key, e) for x, e in m))


def _divide(d):
    """x / (x + y) is 1 - y / (x + y): a fraction whose numerator has the
    leading monomial of its denominator as a factor is divided out"""
    for _ in range(60):
        hit = None
        for m in d:
            for x, e in m:
                if x.op == 'poly' and e <= -1 and e.denominator == 1:
                    lead = max((n for n, _c in x.args[0]), key=_order)
                    dm = dict(m)
                    if lead and all(k > 0 and dm.get(y, 0) >= k
                                    for y, k in lead):
                        hit = (m, x, lead)
                        break
            if hit:
                break
        if hit is None:
            return d
        m, x, lead = hit
        c = d.pop(m)
        p = dict(x.args[0])
        rest = _mono_mul(m, tuple((y, -k) for y, k in lead))
        up = _mono_mul(rest, ((x, Fraction(1)),))
        d[up] = d.get(up, 0) + c / p[lead]
        for n, q in p.items():
            if n is not lead:
                k = _mono_mul(rest, n)
                d[k] = d.get(k, 0) - c * q / p[lead]
        d = {k: v for k, v in d.items() if v != 0}
    return d


def _frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    d = _divide(d)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: _argkey(kv[0])))
    return mk('poly', items)


def _rebuild_poly(items):
    r = ZERO
    for m, c in items:
        term = mk('num', c) if not isinstance(c, T) else c
        for x, e in m:
            term = mul(term, pow_(x, e))
        r = add(r, term)
    return r


def numeric_guard(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _add2(a, b):
    a, b = numeric_guard(a), numeric_guard(b)
    d = _aspoly(a)
    for m, c in _aspoly(b).items():
        d[m] = d.get(m, 0) + c
    return _frompoly(d)


def add(a, b):
    return lift(_add2, a, b)


def _mul2(a, b):
    a, b = numeric_guard(a), numeric_guard(b)
    pa, pb = _aspoly(a), _aspoly(b)
    if len(pa) * len(pb) > 400:
        return mk('mulx', *sorted((a, b), key=lambda x: x.key))
    d = {}
    for m, c in pa.items():
        for n, e in pb.items():
            k = _mono_mul(m, n)
            d[k] = d.get(k, 0) + c * e
    return _fixmono(d)


def _fixmono(d):
    """expand atoms that are polynomials with small positive integer power"""
    out = {}
    again = False
    for m, c in d.items():
        for x, e in m:
            if x.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
                again = True
        out[m] = c
    if not again:
        return _frompoly(out)
    r = ZERO
    for m, c in out.items():
        t = mk('num', c)
        for x, e in m:
            if x.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
                for _ in range(int(e)):
                    t = _mul2(t, x)
            else:
                t = _mul2(t, mk('poly', ((((x, e),), Fraction(1)),))
                          if e != 1 else x)
        r = _add2(r, t)
    return r


def mul(a, b):
    return lift(_mul2, a, b)


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    return add(a, neg(b))


def _pow_frac(c, e):
    """c**e for Fraction c: exact value or None"""
    if e.denominator == 1:
        if c == 0 and e < 0:
            return None
        return c ** int(e)
    if e.denominator == 2 and c > 0:
        import math
        n = math.isqrt(c.numerator)
        d = math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** int(e * 2)
    return None


def _pow2(a, e):
    """e: Fraction exponent"""
    a = numeric_guard(a)
    if e == 1:
        return a
    if e == 0:
        return ONE
    p = _aspoly(a)
    if not p:
        return ZERO if e > 0 else mk('poly', ((((ZERO, e),), Fraction(1)),))
    if len(p) == 1:
        (m, c), = p.items()
        cc = _pow_frac(c, e)
        d = {}
        for x, ex in m:
            d[x] = d.get(x, 0) + ex * e
        if cc is None:
            x = mk('num', abs(c))
            d[x] = d.get(x, 0) + e
            cc = Fraction(1)
            if c < 0:
                y = MINUS1
                d[y] = d.get(y, 0) + e
        mono = tuple(sorted(((x, ex) for x, ex in d.items() if ex != 0),
                            key=lambda q: q[0].key))
        # atoms that are polys may now have integer exponents
        return _fixmono({mono: cc})
    if e.denominator == 1 and 1 < e <= 4 and len(p) <= 8:
        r = a
        for _ in range(int(e) - 1):
            r = _mul2(r, a)
        return r
    # factor content
    items = sorted(p.items(), key=lambda kv: _argkey(kv[0]))
    common = None
    for m, c in items:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            common = {x: min(common[x], dm[x]) for x in common if x in dm}
    lead = items[0][1]
    base = {}
    inv = tuple((x, -ex) for x, ex in (common or {}).items())
    for m, c in items:
        base[_mono_mul(m, inv)] = c / lead
    sgn = 1
    if lead < 0 and e.denominator != 1:
        # keep the sign inside for roots
        base = {m: -c for m, c in base.items()}
        lead = -lead
    b = _frompoly(base)
    r = mk('poly', ((((b, e),), Fraction(1)),))
    for x, ex in (common or {}).items():
        r = _mul2(r, _pow2(x, ex * e))
    cc = _pow_frac(lead, e)
    if cc is None:
        r = _mul2(r, mk('poly', ((((mk('num', lead), e),), Fraction(1)),)))
    else:
        r = _mul2(r, mk('num', cc))
    return r


def pow_(a, e):
    if isinstance(e, Fraction):
        return lift(lambda x: _pow2(x, e), a)
    if isinstance(e, T):
        if e.op == 'num':
            return lift(lambda x: _pow2(x, e.args[0]), a)
        if a is ONE:
            return ONE
        if a.op == 'ext' and a.args[0] == 'sympy.E':
            return mkl('call', ext('sympy.exp'), (e,), ())
        return mkl('call', ext('pow'), (a, e), ())
    return lift(lambda x: _pow2(x, Fraction(e)), a)


def div(a, b):
    return mul(a, pow_(b, Fraction(-1)))


def sqrt(a):
    return pow_(a, Fraction(1, 2))


# ---------------------------------------------------------------- comparisons
def _eq2(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == 'num' and b.op == 'num':
            return const(a.args[0] == b.args[0])
        return const(False) if a is not b else TRUE
    if a.op == 'seq' and b.op == 'seq':
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if ground(a) and ground(b):
        return FALSE
    if a.op == 'new' and b.op == 'new' and a.args[0] is b.args[0] and \
            a.args[0].op == 'ext' and a.args[0].args[0] == 'inspect.Parameter':
        ka, kb = dict(a.args[2]), dict(b.args[2])
        if set(ka) == set(kb) and not a.args[1] and not b.args[1]:
            return and_(*[eq(ka[n], kb[n]) for n in sorted(ka)])
        if not a.args[1] and not b.args[1] and any(
                n in kb and eq(ka[n], kb[n]) is FALSE for n in ka):
            return FALSE
        if not a.args[1] and not b.args[1]:
            free = mk('ext', 'inspect.Parameter.empty')
            return and_(*[eq(ka.get(n, free), kb.get(n, free))
                          for n in sorted(set(ka) | set(kb))])
    if symbolic(a) and symbolic(b) or distinct_syms(a, b):
        return FALSE
    if (a.op == 'poly' or b.op == 'poly') and symbolicpoly(a) and symbolicpoly(b):
        return FALSE
    if a.op == 'obj' and symbolicpoly(b) or b.op == 'obj' and symbolicpoly(a):
        return FALSE
    if a.op == b.op and a.op in ('dict', 'setof') and \
            a.args[0].op == b.args[0].op == 'seq':
        r = _eqmembers(a, b)
        if r is not None:
            return r
    if a in IDENT and b in IDENT and a.args[0] != b.args[0]:
        return FALSE
    if a in SYMBOLS and (b in SYMBOLS or b in SCALARS or ground(b)) or \
            b in SYMBOLS and (a in SCALARS or ground(a)):
        return FALSE
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else not_(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else not_(b)
    if a is NONE or b is NONE:
        return is_(a, b)
    if a.op in ('cls', 'ext') or b.op in ('cls', 'ext'):
        return is_(a, b)
    for x, y in ((a, b), (b, a)):
        # comparing a length with zero is (non)emptiness
        if y is ZERO and x.op == 'len':
            return not_(truth(x.args[0]) if x.args[0].op in
                        ('map', 'cat', 'dict', 'setof') else mk('truthy', x.args[0]))
        if y is ZERO and x.op == 'sum' and x.args[3] is ONE:
            v, c, body = opened(x)
            return not_(exists(x.args[0], v, c))
    if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
        # canonical difference: a-b = 0 with positive lead
        d = sub(a, b)
        if d.op == 'num':
            return const(d.args[0] == 0)
        if d.op == 'poly':
            items = d.args[0]
            if all(len(m) <= 1 for m, c in items) and len(items) <= 2:
                pass
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk('eq', x, y)


def _eqmembers(a, b):
    """equality of dictionaries or sets; None when their members may coincide"""
    p, q = a.args[0].args[0], b.args[0].args[0]
    if a.op == 'dict':
        if any(x.op != 'pair' for x in p + q):
            return None
        kp, kq = [x.args[0] for x in p], [x.args[0] for x in q]
    else:
        kp, kq = p, q
    for x in kp + kq:
        for y in kp + kq:
            if eq(x, y) not in (TRUE, FALSE):
                return None
    if set(kp) != set(kq):
        return FALSE
    if a.op == 'setof':
        return TRUE
    if len(set(kp)) != len(kp) or len(set(kq)) != len(kq):
        return None
    d = {x.args[0]: x.args[1] for x in q}
    return and_(*[eq(x.args[1], d[x.args[0]]) for x in p])


def symbolicpoly(a):
    """expressions with a normal form"""
    if a.op != 'poly':
        return symbolic(a) or a.op == 'num'
    return all(symbolic(x) or x.op in ('spd', 'ssub', 'schain')
               for m, c in a.args[0] for x, e in m)


def symbolic(a):
    """expressions which compare by structure"""
    return a in SYMBOLS or a in EXPRS or a.op in ('sder', 'sfun')


def eq(a, b):
    return lift(_eq2, a, b)


def _is2(a, b):
    if a is b:
        return TRUE
    if a in (TRUE, FALSE) and is_bool(b):
        return b if a is TRUE else not_(b)
    if b in (TRUE, FALSE) and is_bool(a):
        return a if b is TRUE else not_(a)
    if ground(a) and ground(b):
        return FALSE
    if a in SYMBOLS and b in SYMBOLS:
        return FALSE
    for p, q in ((a, b), (b, a)):
        if p in TYPED and (q is NONE or q.op in ('cls', 'num', 'fmt', 'ext')):
            return FALSE
    for p, q in ((a, b), (b, a)):
        if (is_bool(p) or p in SCALARS) and (q is NONE or q.op in ('ext', 'cls')):
            return FALSE
    nn = {'seq', 'map', 'cat', 'dict', 'ref', 'fun', 'bm', 'cls', 'ext', 'new',
          'num', 'poly', 'partial', 'lam', 'fmt', 'strm', 'setof', 'sorted',
          'eq', 'lt', 'in', 'isinstance', 'exists', 'sum', 'len', 'truthy',
          'slice'}
    for p, q in ((a, b), (b, a)):
        if q is NONE and p.op in nn:
            return FALSE
        if q.op == 'cls' and p.op in nn and p.op not in ('ext', 'cls'):
            return FALSE
        if q is NONE and p.op == 'call' and p.args[0].op == 'ext' and \
                p.args[0].args[0] in NEVER_NONE:
            return FALSE
        if q is NONE and p.op == 'npop' and p.args[0] in ('array', 'asarr'):
            return FALSE
        if q is NONE and p.op == 'item' and p.args[1].op in ('eq', 'lt') and \
                not is_const(p.args[1]):
            return FALSE       # the elements a comparison selects
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk('is', x, y)


NEVER_NONE = {'numpy.ones', 'numpy.zeros', 'numpy.array', 'numpy.asarray',
              'numpy.atleast_1d', 'numpy.eye'}
SYMBOLS = {}     # named symbols of the modelled package: symbol -> name
EXPRS = {}       # expression symbols: symbol -> their free symbols
TEXT = None
IDENT = set()      # instances which compare by identity
ARRAYS = set()     # opaque terms which stand for arrays
SCALARS = set()    # symbols which stand for numbers
NDIM = {}          # opaque arrays of known dimension
TYPED = set()      # symbols which stand for instances of package classes


def is_(a, b):
    return lift(_is2, a, b)


def _lt2(a, b):
    if a is b:
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return const(a.args[0] < b.args[0])
    if a is ZERO and b.op == 'len':
        return truth(b.args[0]) if b.args[0].op in ('map', 'cat', 'dict', 'setof') \
            else mk('truthy', b.args[0])
    if b is ONE and a.op == 'len':
        return not_(_lt2(ZERO, a))
    if a is ZERO and b.op == 'sum' and b.args[3] is ONE:
        v, c, body = opened(b)
        return exists(b.args[0], v, c)
    # integers: n < len(x)+... leave
    for p, q, left in ((a, b, True), (b, a, False)):
        if p is ZERO and q.op == 'poly' and len(q.args[0]) == 1:
            (m, k), = q.args[0]
            if k not in (0, 1):
                q = _frompoly({m: Fraction(1)})
                return _lt2(ZERO, q) if left == (k > 0) else _lt2(q, ZERO)
    return mk('lt', a, b)


def _touching(c, a, b):
    """a choice between numbers which agree where x is zero, by the sign of x: the
    condition under which b is chosen, written as x < 0"""
    x = c.args[1]
    if not all(y.op in ('num', 'poly', 'attr', 'sym', 'var', 'item') for y in (a, b)):
        return False
    pa, pb, px = _aspoly(a), _aspoly(b), _aspoly(x)
    d = {m: pa.get(m, 0) - pb.get(m, 0) for m in set(pa) | set(pb)}
    d = {m: k for m, k in d.items() if k != 0}
    if set(d) != set(px) or not px:
        return False
    return len(set(k / px[m] for m, k in d.items())) == 1


def lt(a, b):
    return lift(_lt2, a, b)


def le(a, b):
    # a <= b  ==  not (b < a)   (NaN ignored)
    return not_(lt(b, a))


def _in2(x, s):
    if s.op == 'seq' or (s.op == 'setof' and s.args[0].op == 'seq'):
        items = s.args[0] if s.op == 'seq' else s.args[0].args[0]
        return or_(*[eq(x, i) for i in items])
    if s.op == 'setof' or s.op == 'sorted' or s.op == 'keys':
        return _in2(x, s.args[0])
    if s.op == 'cat':
        return or_(*[in_(x, p) for p in s.args[0]])
    if s.op == 'dict':
        return in_(x, dict_keys(s))
    if s.op == 'unordered' or s.op == 'rev':
        return in_(x, s.args[0])
    if s.op == 'flat':
        v, c, b = opened(s.args[0])
        return exists(s.args[0].args[0], v, and_(c, in_(x, b)))
    if s.op == 'pairs':
        e = in_(x, s.args[0])
        return and_(e, *[not_(eq(x, const(n))) for n in s.args[1]])
    if s.op == 'dictdel':
        return and_(in_(x, seq_map(s.args[0], lambda q: q.args[0]) if
                        s.args[0].op != 'pairs' else s.args[0]),
                    not_(eq(x, s.args[1])))
    if s.op == 'map':
        SD, v, c, b = opened_u(s)
        # x among { b(i) | c(i) } with b(i) = at(A,i) and x = at(A,j): c(j)
        if b.op == 'at' and b.args[1] is v and x.op == 'at' and \
                x.args[0] is b.args[0] and SD is dom_of(b.args[0]):
            return subst(c, {v: x.args[1]})
        u = unify_index(b, x, v)
        if u is not None:
            return subst(c, {v: u})
        if c is TRUE and b.op == 'at' and b.args[1] is v and \
                dom_of(b.args[0]) is SD:
            return mk('in', x, b.args[0])
        if is_const(x) and is_const(b):
            return and_(exists(SD, v, c), eq(x, b))
        # filtered opaque sequence: x in A and c[x]
        if b.op == 'at' and b.args[1] is v and SD is dom_of(b.args[0]):
            ph = fresh()
            c2 = subst(c, {b: ph})
            if v not in c2.fv:
                return and_(in_(x, b.args[0]), subst(c2, {ph: x}))
        return mk('in', x, s)
    if x.op == 'at' and x.args[0] is s:
        return TRUE
    return mk('in', x, s)


def perm_of(d):
    """the permutation term P when d is the domain of P"""
    if len(d.args[0]) == 1 and d.args[0][0].op == 'perm':
        return d.args[0][0]
    return None


def unperm(d, v, *bodies):
    """(D, v, c, bodies) without a reordering of the domain: for operations
    that do not depend on the order"""
    P = perm_of(d)
    if P is None:
        return (d, v, TRUE) + bodies
    w = fresh()
    ap = mk('at', P, v)
    bs = tuple(subst(b, {ap: w}) for b in bodies)
    if any(v in b.fv for b in bs):
        return (d, v, TRUE) + bodies
    c = opened(P, w)[1]
    return (P.args[0], w, c) + bs


def opened_u(m):
    """like opened for a map, without a reordering: D, v, c, body"""
    v, c, b = opened(m)
    D, w, c0, c1, b1 = unperm(m.args[0], v, c, b)
    return D, w, and_(c0, c1), b1


def sorted_(D, v, c, key, body, reverse):
    P = bound('perm', D, v, c, key, reverse)
    i = fresh()
    return map_(dom(P), i, TRUE, subst(body, {v: mk('at', P, i)}))


def unify_index(pattern, t, v):
    """index term u with pattern[v:=u] is t, for injective-looking patterns"""
    if pattern is v:
        return None
    if pattern.op != t.op:
        return None
    cand = []

    def go(p, q):
        if p is q:
            return True
        if p is v:
            cand.append(q)
            return True
        if isinstance(p, T) and isinstance(q, T):
            if p.op != q.op or len(p.args) != len(q.args):
                return False
            return all(go(a, b) for a, b in zip(p.args, q.args))
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(go(a, b) for a, b in zip(p, q))
        return p == q
    if not go(pattern, t):
        return None
    if not cand or any(c is not cand[0] for c in cand):
        return None
    if subst(pattern, {v: cand[0]}) is t:
        return cand[0]
    return None


def in_(x, s):
    return lift(_in2, x, s)


# ---------------------------------------------------------------- sequences
LEN_ROW = {}     # facts: sequence of rows -> representative of each row
LEN_EQ = {}      # facts: seq term -> representative seq term of equal length


def dom(*seqs):
    reps = set()
    for s in seqs:
        if s.op in ('at', 'item') and s.args[0] in LEN_ROW:
            s = LEN_ROW[s.args[0]]
        reps.add(LEN_EQ.get(s, s))
    return mk('dom', tuple(sorted(reps, key=lambda t: t.key)))


def dom_of(a):
    """the index domain of an (unfiltered) sequence term"""
    if a.op == 'npop' and a.args[0] == 'array':
        return dom_of(a.args[1])
    if a.op == 'rev':
        return dom_of(a.args[0])
    if a.op == 'map' and a.args[2] is TRUE:
        return a.args[0]
    return dom(a)


def dom_join(*doms):
    s = set()
    for d in doms:
        s |= set(d.args[0])
    return mk('dom', tuple(sorted(s, key=lambda t: t.key)))


def range_dom(n):
    """domain of range(n)"""
    if n.op == 'len':
        return dom_of(n.args[0])
    return dom(mk('range', n))


def seq(*items):
    return mkl('seq', tuple(items))


def _seq_final(items):
    return mk('seq', items)


def _as_parts(s):
    if s.op == 'cat':
        return list(s.args[0])
    return [s]


def _cat_final(parts):
    out = []
    for p in parts:
        for q in _as_parts(p):
            if q.op == 'seq' and not q.args[0]:
                continue
            if out and q.op == 'seq' and out[-1].op == 'seq':
                out[-1] = mk('seq', out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return mk('seq', ())
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def cat(*parts):
    return mkl('cat', tuple(parts))


def map_(d, v, c, body):
    """[body(v) for v in d if c(v)]; body may not be a decision tree over
    sequences (see flatmap)."""
    if c is FALSE:
        return mk('seq', ())
    for a, val in literals(c):
        body = assume(body, a, val)
    # loop-invariant decision in body or condition: lift out
    if body.op == 'ite' and v not in body.args[0].fv:
        a = body.args[0]
        return ite(a, map_(d, v, assume(c, a, True), body.args[1]),
                   map_(d, v, assume(c, a, False), body.args[2]))
    if c.op == 'ite' and v not in c.args[0].fv:
        a = c.args[0]
        return ite(a, map_(d, v, c.args[1], assume(body, a, True)),
                   map_(d, v, c.args[2], assume(body, a, False)))
    if c is not TRUE and c.op != 'ite' and v not in c.fv:
        return ite(c, map_(d, v, TRUE, assume(body, c, True)), mk('seq', ()))
    n = _dom_len_const(d)
    if n is not None and n <= 64:
        out = []
        for k in range(n):
            m = {v: const(k)}
            cc = subst(c, m)
            e = mk('seq', (subst(body, m),))
            out.append(ite(cc, e, mk('seq', ())))
        return cat(*out)
    if len(d.args[0]) == 1 and d.args[0][0].op == 'cat' and False:
        pass
    return bound('map', d, v, c, body)


def _dom_len_const(d):
    if len(d.args[0]) == 1:
        a = d.args[0][0]
        if a.op == 'range' and a.args[0].op == 'num':
            return int(a.args[0].args[0])
        if a.op == 'seq':
            return len(a.args[0])
    return None


def flatmap(d, v, c, body):
    """concatenation over v in d with c of the sequence body(v)"""
    if c is FALSE:
        return mk('seq', ())
    for a, val in literals(c):
        body = assume(body, a, val)
    if body.op == 'seq':
        if len(body.args[0]) == 0:
            return body
        if len(body.args[0]) == 1:
            return map_(d, v, c, body.args[0][0])
    if body.op == 'ite':
        # leaves: singletons and empties -> filter
        ls = leafset(body)
        if all(l.op == 'seq' and len(l.args[0]) <= 1 for l in ls):
            cc = _mapleaves(body, lambda l: TRUE if l.args[0] else FALSE)
            if len([l for l in ls if l.args[0]]) == 0:
                return mk('seq', ())
            filler = [l for l in ls if l.args[0]][0].args[0][0]
            bb = _mapleaves(body, lambda l: l.args[0][0] if l.args[0] else DONTCARE)
            bb = _drop_dontcare(bb)
            return map_(d, v, and_(c, cc), bb)
        a = body.args[0]
        if v not in a.fv:
            return ite(a, flatmap(d, v, assume(c, a, True), body.args[1]),
                       flatmap(d, v, assume(c, a, False), body.args[2]))
    return mk('flat', map_(d, v, c, body))


DONTCARE = mk('dontcare')


def _drop_dontcare(t):
    """remove branches whose value does not matter"""
    if t.op == 'ite':
        a, hi, lo = t.args
        hi, lo = _drop_dontcare(hi), _drop_dontcare(lo)
        if hi is DONTCARE:
            return lo
        if lo is DONTCARE:
            return hi
        return ite(a, hi, lo)
    return t


def _mapleaves(t, f):
    if t.op == 'ite':
        return ite(t.args[0], _mapleaves(t.args[1], f), _mapleaves(t.args[2], f))
    return f(t)


mapleaves = _mapleaves


def sum_(d, v, c, body):
    if c is FALSE or body is ZERO:
        return ZERO
    if perm_of(d) is not None:
        D, w, c0, c1, b1 = unperm(d, v, c, body)
        if D is not d:
            return sum_(D, w, and_(c0, c1), b1)
    for a, val in literals(c):
        body = assume(body, a, val)
    if body.op == 'ite':
        # sum of ite(q, x, 0) -> filtered sum ; invariant lifted
        a = body.args[0]
        if v not in a.fv:
            return ite(a, sum_(d, v, assume(c, a, True), body.args[1]),
                       sum_(d, v, assume(c, a, False), body.args[2]))
        ls = leafset(body)
        if ZERO in ls:
            cc = _mapleaves(body, lambda l: FALSE if l is ZERO else TRUE)
            bb = _drop_dontcare(_mapleaves(
                body, lambda l: DONTCARE if l is ZERO else l))
            return sum_(d, v, and_(c, cc), bb)
    if c.op == 'ite' and v not in c.args[0].fv:
        a = c.args[0]
        return ite(a, sum_(d, v, c.args[1], assume(body, a, True)),
                   sum_(d, v, c.args[2], assume(body, a, False)))
    if c is not TRUE and c.op != 'ite' and v not in c.fv:
        return ite(c, sum_(d, v, TRUE, assume(body, c, True)), ZERO)
    if c is TRUE and body is ONE:
        return dom_len(d)
    n = _dom_len_const(d)
    if n is not None and n <= 64:
        r = ZERO
        for k in range(n):
            m = {v: const(k)}
            r = add(r, ite(subst(c, m), subst(body, m), ZERO))
        return r
    # linearity: constant factors out, polynomials split
    p = _aspoly(body)
    if len(p) > 1 or (len(p) == 1 and list(p.values())[0] != 1):
        r = ZERO
        for m, coef in p.items():
            inv = tuple((x, e) for x, e in m if v not in x.fv)
            dep = tuple((x, e) for x, e in m if v in x.fv)
            t = _frompoly({dep: Fraction(1)})
            r = add(r, mul(_frompoly({inv: coef}), sum_(d, v, c, t)))
        return r
    (m, coef), = p.items()
    inv = tuple((x, e) for x, e in m if v not in x.fv)
    if inv:
        dep = tuple((x, e) for x, e in m if v in x.fv)
        return mul(_frompoly({inv: coef}),
                   sum_(d, v, c, _frompoly({dep: Fraction(1)})))
    return bound('sum', d, v, c, body)


def dom_len(d):
    P = perm_of(d)
    if P is not None:
        w, c = opened(P)[:2]
        if c is TRUE:
            return dom_len(P.args[0])
        return sum_(P.args[0], w, c, ONE)
    if len(d.args[0]) == 1:
        return length(d.args[0][0])
    return mk('minlen', d.args[0])


def exists(d, v, c):
    if c is FALSE:
        return FALSE
    if perm_of(d) is not None:
        D, w, c0, c1 = unperm(d, v, c)
        if D is not d:
            return exists(D, w, and_(c0, c1))
    if c is TRUE:
        n = _dom_len_const(d)
        if n is not None:
            return const(n > 0)
        return and_(*[mk('truthy', a) if a.op != 'range' else lt(ZERO, a.args[0])
                      for a in d.args[0]])
    if v not in c.fv:
        return and_(c, exists(d, v, TRUE))
    n = _dom_len_const(d)
    if n is not None and n <= 64:
        return or_(*[subst(c, {v: const(k)}) for k in range(n)])
    # distribute over disjunction of cubes is not canonical; only pull out
    # invariant root decisions
    if c.op == 'ite' and v not in c.args[0].fv:
        a = c.args[0]
        return ite(a, exists(d, v, c.args[1]), exists(d, v, c.args[2]))
    # exists i: at(A,i) == x   ->  x in A
    if c.op == 'eq' and len(d.args[0]) == 1:
        A = d.args[0][0]
        for p, q in (c.args, c.args[::-1]):
            if p.op == 'at' and p.args[0] is A and p.args[1] is v and v not in q.fv:
                return in_(q, A)
    return bound('exists', d, v, c)


def first(d, v, c):
    """index of the first v in d with c (only meaningful when it exists)"""
    if c is TRUE:
        return ZERO
    if v not in c.fv:
        return ZERO
    n = _dom_len_const(d)
    if n is not None and n <= 64:
        r = const(n - 1)
        for k in reversed(range(n)):
            r = ite(subst(c, {v: const(k)}), const(k), r)
        return r
    return bound('first', d, v, c)


def psum(d, v, c, body, upto):
    """sum of body over indices v before `upto` with c"""
    if c is FALSE or body is ZERO:
        return ZERO
    if body.op == 'ite':
        ls = leafset(body)
        if ZERO in ls:
            cc = _mapleaves(body, lambda l: FALSE if l is ZERO else TRUE)
            bb = _drop_dontcare(_mapleaves(
                body, lambda l: DONTCARE if l is ZERO else l))
            return psum(d, v, and_(c, cc), bb, upto)
    if v not in c.fv and c is not TRUE:
        return ite(c, psum(d, v, TRUE, body, upto), ZERO)
    if c is TRUE and v not in body.fv:
        return mul(body, upto)
    if body.op == 'num' and body is not ONE:
        return mul(body, psum(d, v, c, ONE, upto))
    return bound('psum', d, v, c, body, upto)


def last(d, v, c, body, default):
    """value of body at the last v in d with c, or default if there is none"""
    if c is FALSE:
        return default
    for a, val in literals(c):
        body = assume(body, a, val)
    if v not in body.fv:
        return ite(exists(d, v, c), body, default)
    n = _dom_len_const(d)
    if n is not None and n <= 64:
        r = default
        for k in range(n):
            r = ite(subst(c, {v: const(k)}), subst(body, {v: const(k)}), r)
        return r
    return bound('last', d, v, c, body, default)


def length(s):
    return mkl('len', s)


def _len_final(s):
    if s.op == 'seq':
        return const(len(s.args[0]))
    if s.op == 'cat':
        r = ZERO
        for p in s.args[0]:
            r = add(r, length(p))
        return r
    if s.op == 'map':
        v, c, b = opened(s)
        if c is TRUE:
            return dom_len(s.args[0])
        return sum_(s.args[0], v, c, ONE)
    if s.op == 'dict':
        return _len_final(s.args[0]) if s.args[0].op in ('seq',) else mk('len', s)
    if s.op == 'range':
        return s.args[0]
    if s.op == 'const' and s.args[0] == 'str':
        return const(len(s.args[1]))
    if s.op == 'sorted':
        return length(s.args[0]) if s.args[0].op != 'setof' else \
            mk('len', s.args[0])
    if s.op in ('rev', 'unordered', 'setof'):
        return length(s.args[0]) if s.op != 'setof' else mk('len', s)
    if s.op == 'pair':
        return const(2)
    if s.op == 'npop' and s.args[0] == 'array':
        return length(s.args[1])
    if s.op in ('at', 'item') and s.args[0] in LEN_ROW:
        s = LEN_ROW[s.args[0]]
    s2 = LEN_EQ.get(s, s)
    return mk('len', s2)


INT_OPS = {'iv', 'bv', 'fresh', 'num', 'psum', 'first', 'len', 'sum'}


def is_index(t):
    if t.op in INT_OPS:
        return True
    if t.op == 'poly':
        return all(is_index(x) and e == 1 for m, c in t.args[0] for x, e in m)
    return False


def at(s, i):
    return mkl('at', s, i)


def _at_final(s, i):
    if s.op == 'seq' and i.op == 'num' and i.args[0].denominator == 1:
        k = int(i.args[0])
        n = len(s.args[0])
        if -n <= k < n:
            return s.args[0][k]
    if s.op == 'map':
        if s.args[2] is TRUE:
            if i.op == 'num' and i.args[0] < 0:
                i2 = add(dom_len(s.args[0]), i)
            else:
                i2 = i
            v, c, b = opened(s)
            return subst(b, {v: i2})
        if i.op == 'psum' and i.args[0] is s.args[0] and i.args[3] is ONE:
            v, c, _, upto = opened(i)
            v2, c2, b2 = opened(s, v)
            if c is c2:
                return subst(b2, {v2: upto})
        if i is ZERO:
            v, c, b = opened(s)
            return subst(b, {v: first(s.args[0], v, c)})
    if s.op == 'cat' and i.op == 'num':
        k = int(i.args[0])
        if k >= 0:
            for p in s.args[0]:
                if p.op != 'seq':
                    break
                if k < len(p.args[0]):
                    return p.args[0][k]
                k -= len(p.args[0])
        else:
            p = s.args[0][-1]
            if p.op == 'seq' and -k <= len(p.args[0]):
                return p.args[0][k]
    if s.op == 'range':
        return i
    if s.op == 'pair' and i.op == 'num':
        return s.args[int(i.args[0])]
    if s.op == 'dict':
        return dict_get(s, i, MISSING)
    if s.op == 'rev':
        return at(s.args[0], sub(sub(length(s.args[0]), ONE), i))
    if s.op == 'npop' and s.args[0] in ('array', 'asarray'):
        return at(s.args[1], i)
    return mk('at', s, i)


# ---------------------------------------------------------------- dicts
# dict(pairs): pairs is a sequence term of pair(k, v); later pairs win
def pair(k, v):
    return mkl('pair', k, v)


def dict_(pairs):
    return lift(_dict_final, pairs)


def _dict_final(pairs):
    parts = _as_parts(pairs)
    # constant keys: later override earlier in place
    out = []
    for p in parts:
        if p.op == 'seq':
            for q in p.args[0]:
                if q.op == 'pair' and is_const(q.args[0]):
                    for n, e in enumerate(out):
                        if e[0] == 'p' and e[1].args[0] is q.args[0]:
                            # only if nothing non-constant in between
                            if all(x[0] == 'p' for x in out[n:]):
                                out[n] = ('p', q)
                                break
                            del out[n]
                            out.append(('p', q))
                            break
                    else:
                        out.append(('p', q))
                else:
                    if q.op == 'pair':
                        for n, e in enumerate(out):
                            if e[0] == 'p' and e[1].args[0] is q.args[0]:
                                del out[n]
                                break
                    out.append(('p', q))
        else:
            out.append(('s', p))
    res = []
    for kind, x in out:
        if kind == 's' and x.op == 'map' and res and res[-1].op == 'map':
            m = _merge_maps(res[-1], x)
            if m is not None:
                res[-1] = m
                continue
        res.append(mk('seq', (x,)) if kind == 'p' else x)
    ps = _cat_final(tuple(res))
    return mk('dict', ps)


def _merge_maps(a, b):
    """stores under the same keys over the same domain"""
    if a.args[0] is not b.args[0]:
        return None
    v, c1, q1 = opened(a)
    _, c2, q2 = opened(b, v)
    if q1.op != 'pair' or q2.op != 'pair' or q1.args[0] is not q2.args[0]:
        return None
    if c1 is TRUE or c1 is c2:
        return map_(a.args[0], v, c1, pair(q1.args[0], ite(c2, q2.args[1], q1.args[1])))
    if c2 is TRUE:
        return b
    return None


def dict_pairs(d):
    """pairs sequence of a dict-like term"""
    if d.op == 'ite':
        return ite(d.args[0], dict_pairs(d.args[1]), dict_pairs(d.args[2]))
    if d.op == 'dict':
        return d.args[0]
    v = fresh()
    k = at(d, v)
    return map_(dom(d), v, TRUE, pair(k, item(d, k)))


def dict_keys(d):
    if d.op == 'ite':
        return ite(d.args[0], dict_keys(d.args[1]), dict_keys(d.args[2]))
    if d.op != 'dict':
        return d
    return seq_map(d.args[0], lambda p: p.args[0] if p.op == 'pair' else
                   item(p, ZERO))


def dict_vals(d):
    if d.op == 'ite':
        return ite(d.args[0], dict_vals(d.args[1]), dict_vals(d.args[2]))
    if d.op != 'dict':
        v = fresh()
        return map_(dom(d), v, TRUE, item(d, at(d, v)))
    return seq_map(d.args[0], lambda p: p.args[1] if p.op == 'pair' else
                   item(p, ONE))


def seq_map(s, f):
    """apply python function f elementwise over a sequence term"""
    if s.op == 'ite':
        return ite(s.args[0], seq_map(s.args[1], f), seq_map(s.args[2], f))
    if s.op == 'seq':
        return seq(*[f(x) for x in s.args[0]])
    if s.op == 'cat':
        return cat(*[seq_map(p, f) for p in s.args[0]])
    if s.op == 'map':
        v, c, b = opened(s)
        return map_(s.args[0], v, c, f(b))
    if s.op == 'flat':
        v, c, b = opened(s.args[0])
        return flatmap(s.args[0].args[0], v, c, seq_map(b, f))
    if s.op == 'pairs' and not s.args[1]:
        return seq_map(dict_pairs(s.args[0]), f)
    v = fresh()
    return map_(dom(s), v, TRUE, f(at(s, v)))


MISSING = mk('missing')


def dict_get(d, k, default):
    """value for key k or default"""
    return lift(lambda d, k: _dict_get(d, k, default), d, k)


def _dict_get(d, k, default):
    if d.op != 'dict':
        if default is MISSING:
            return mkl('item', d, k)
        return ite(in_(k, d), mkl('item', d, k), default)
    parts = _as_parts(d.args[0])
    res = []
    for p in reversed(parts):
        if p.op == 'seq':
            for q in reversed(p.args[0]):
                if q.op != 'pair':
                    return _dict_opaque_get(d, k, default)
                e = eq(q.args[0], k)
                if e is TRUE:
                    return _chain(res, q.args[1])
                if e is FALSE:
                    continue
                if distinct_syms(q.args[0], k):
                    continue
                res.append((e, q.args[1]))
                if len(res) > 12:
                    return _dict_opaque_get(d, k, default)
        elif p.op == 'map':
            D, v, c, b = opened_u(p)
            if b.op != 'pair':
                return _dict_opaque_get(d, k, default)
            kk = b.args[0]
            u = unify_index(kk, k, v)
            if u is not None:
                cond = subst(c, {v: u})
                val = subst(b.args[1], {v: u})
                if cond is TRUE:
                    return _chain(res, val)
                res.append((cond, val))
                continue
            if kk.op == 'at' and kk.args[1] is v and kk.args[0].op == 'map' and c is TRUE:
                # keys are the selected elements: the value has their rank
                _, v2, c2, b2 = opened_u(kk.args[0])
                u = unify_index(b2, k, v2)
                if u is not None:
                    w = fresh()
                    r = psum(kk.args[0].args[0], w, subst(c2, {v2: w}), ONE, u)
                    res.append((subst(c2, {v2: u}), subst(b.args[1], {v: r})))
                    continue
            # key equals element of an opaque sequence: k in keys
            ks = map_(D, v, c, kk)
            present = in_(k, ks)
            if present is FALSE:
                continue
            # value as function of key only?
            ph = fresh()
            val = subst(b.args[1], {kk: ph})
            if v not in val.fv:
                res.append((present, subst(val, {ph: k})))
                continue
            return _dict_opaque_get(d, k, default)
        else:
            # spliced opaque mapping
            if p.op == 'pairs':
                if is_str(k) and k.args[1] in p.args[1]:
                    continue
                e = in_(k, p.args[0])
                val = mkl('item', p.args[0], k)
                if e is TRUE:
                    return _chain(res, val)
                res.append((e, val))
                continue
            return _dict_opaque_get(d, k, default)
    return _chain(res, default)


def distinct_syms(a, b):
    """differently named constants or input symbols declared distinct"""
    if a in SYMBOLS and b in SYMBOLS:
        return a is not b
    if a.op == b.op == 'item' and a.args[0] is b.args[0] and a.args[0] in INJECTIVE:
        a, b = a.args[1], b.args[1]
    return a in DISTINCT and b in DISTINCT and a is not b


DISTINCT = set()
INJECTIVE = set()


def _chain(res, last_):
    for c, v in reversed(res):
        last_ = ite(c, v, last_)
    return last_


def _dict_opaque_get(d, k, default):
    if default is MISSING:
        return mk('item', d, k)
    return mk('dget', d, k, default)


def item(d, k):
    return mkl('item', d, k)


def index_list(k):
    """sequence of the positions selected by a boolean or integer index"""
    if k.op == 'npop' and k.args[0] in ('array', 'asarr') and len(k.args) == 2:
        k = k.args[1]
    if k.op == 'ite':
        a, b = index_list(k.args[1]), index_list(k.args[2])
        return None if a is None or b is None else ite(k.args[0], a, b)
    if k.op == 'map':
        v, c, b = opened(k)
        if is_index(b):
            return k
        if c is TRUE and is_bool(b):
            return map_(k.args[0], v, b, v)
    if k.op == 'seq' and k.args[0]:
        if all(x.op == 'num' for x in k.args[0]):
            return k
        if all(is_bool(x) for x in k.args[0]):
            return cat(*[ite(x, seq(const(j)), seq())
                         for j, x in enumerate(k.args[0])])
    if k.op == 'item' and k.args[1] is ZERO and k.args[0].op == 'call' and \
            k.args[0].args[0].op == 'ext' and k.args[0].args[0].args[0] in (
                'numpy.nonzero', 'numpy.where') and len(k.args[0].args[1]) == 1:
        return index_list(k.args[0].args[1][0])
    if k.op == 'call' and k.args[0].op == 'ext' and k.args[0].args[0] in (
            'numpy.flatnonzero',) and len(k.args[1]) == 1:
        return index_list(k.args[1][0])
    return None


def take(x, idx, f=None):
    """array of the selected rows"""
    f = f or (lambda y: y)
    if idx.op == 'ite':
        return ite(idx.args[0], take(x, idx.args[1], f), take(x, idx.args[2], f))
    return npop('array', seq_map(idx, lambda i: f(at(x, i))))


def array_index(x, ks):
    """x[ks] for a tuple of full slices and index lists, or None"""
    if not ks:
        return x
    if ks[0].op == 'fullsl':
        if len(ks) == 1:
            return x
        if x.op == 'npop' and x.args[0] == 'array' and len(x.args) == 2 and \
                x.args[1].op == 'map':
            _, v, c, b = opened_u(x.args[1])
            r = array_index(b, ks[1:])
            return None if r is None else npop('array', map_(x.args[1].args[0], v, c, r))
        v = fresh()
        r = array_index(at(x, v), ks[1:])
        if r is None:
            return None
        return npop('array', map_(dom_of(x), v, TRUE, r))
    idx = index_list(ks[0])
    if idx is None:
        return None
    if len(ks) > 1 and (any(k.op != 'fullsl' for k in ks[1:])):
        return None
    return take(x, idx)


def _item_final(d, k):
    if d.op == 'dict':
        r = _dict_get(d, k, MISSING)
        # a missing key raises: drop that branch of the value
        if r.op == 'ite':
            ls = leafset(r)
            if MISSING in ls and len(ls) > 1:
                r = _drop_dontcare(_mapleaves(
                    r, lambda l: DONTCARE if l is MISSING else l))
        return r
    if d.op in ('seq', 'cat', 'map') and is_index(k):
        return at(d, k)
    if is_index(k):
        return at(d, k)
    if d.op == 'pair' and k.op == 'num':
        return d.args[int(k.args[0])]
    if k.op in ('map', 'npop') or (k.op == 'call' and k.args[0].op == 'ext') or (
            k.op == 'item' and k.args[1] is ZERO):
        idx = index_list(k)
        if idx is not None:
            return take(d, idx)
        if k.op == 'call' and k.args[0].args[0] == 'numpy.ix_' and \
                len(k.args[1]) == 2 and not k.args[2]:
            i1, i2 = index_list(k.args[1][0]), index_list(k.args[1][1])
            if i1 is not None and i2 is not None:
                return take(d, i1, lambda r: take(r, i2))
    if k.op == 'seq' and any(x.op == 'fullsl' for x in k.args[0]):
        r = array_index(d, list(k.args[0]))
        if r is not None:
            return r
    return mk('item', d, k)


def _attr_final(x, name):
    return mk('attr', x, name)


def attr(x, name):
    return mkl('attr', x, name)


def call(f, args=(), kwargs=()):
    """kwargs: iterable of (name, T)"""
    kwargs = tuple(sorted(kwargs, key=lambda p: p[0]))
    return mkl('call', f, tuple(args), kwargs)


# string templates: fmt(parts) with str constants and values
def fmt(parts):
    return mkl('fmt', tuple(parts))


def _fmt_final(parts):
    out = []
    for p in parts:
        ps = p.args[0] if p.op == 'fmt' else (p,)
        for q in ps:
            if is_str(q) and q.args[1] == '':
                continue
            if out and is_str(q) and is_str(out[-1]):
                out[-1] = const(out[-1].args[1] + q.args[1])
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk('fmt', tuple(out))


def _pair_final(k, v):
    return mk('pair', k, v)


def _flat_final(s):
    return mk('flat', s)


FINAL = {
    'seq': _seq_final, 'cat': _cat_final, 'len': _len_final, 'at': _at_final,
    'item': _item_final, 'attr': _attr_final, 'fmt': _fmt_final,
    'pair': _pair_final,
}

NPFINAL = [None]       # hook: normaliser of npop terms, set by lib


def npop(name, *args):
    return mkl('npop', name, *args)


def _npop_final(name, *args):
    f = NPFINAL[0]
    if f is not None:
        r = f(name, args)
        if r is not None:
            return r
    return mk('npop', name, *args)


FINAL['npop'] = _npop_final


def _call_final(f, a, k):
    if f.op == 'ext' and f.args[0] == 'numpy.broadcast_arrays' and a and not k:
        s = [dict(x.args[2]).get('shape') if x.op == 'call' and x.args[0].op == 'ext'
             and x.args[0].args[0] == 'numpy.broadcast_to' else None for x in a]
        if s[0] is not None and all(x is s[0] for x in s):
            return seq(*a)              # nothing left to broadcast
    return CALLFINAL[0](f, a, k) if CALLFINAL[0] else mk('call', f, a, k)


FINAL['call'] = _call_final
CALLFINAL = [None]

REBUILD = {
    'ite': ite,
    'poly': _rebuild_poly,
    'eq': eq, 'is': is_, 'lt': lt, 'in': in_,
    'truthy': truth,
    'dict': dict_,
    'dom': lambda seqs: _redom(seqs),
    'flat': lambda s: _reflat(s),
    'isinstance': lambda x, c: lift(lambda y, d: _isinst(y, d), x, c),
    'issubclass': lambda x, c: lift(lambda y, d: _issub(y, d), x, c),
    'range': lambda n: range_(n),
    'setof': lambda x: setof(x),
    'unordered': lambda x: unordered(x),
    'rev': lambda x: rev(x),
    'strm': lambda *a: strm(*a),
    'hasattr': lambda x, n: lift(lambda y: mk('hasattr', y, n), x),
    'slice': lambda s, a, b, c: slice_(s, a, b, c),
    'dget': lambda d, k, x: dict_get(d, k, x),
}


def range_(n):
    if n.op == 'num':
        return mk('seq', tuple(const(k) for k in range(int(n.args[0])))) \
            if n.args[0] <= 64 else mk('range', n)
    return mk('range', n)


def setof(x):
    if x.op == 'setof':
        return x
    if x.op in ('unordered', 'rev'):
        return setof(x.args[0])
    if x.op == 'ite':
        return ite(x.args[0], setof(x.args[1]), setof(x.args[2]))
    if x.op == 'seq':
        out = []
        for e in x.args[0]:
            if e not in out:
                out.append(e)
        return mk('setof', mk('seq', tuple(sorted(out, key=lambda q: q.key))))
    if x.op == 'cat':
        ps = []
        for p in x.args[0]:
            if p.op == 'seq':
                ps.extend(mk('seq', (e,)) for e in p.args[0])
            else:
                ps.append(p.args[0] if p.op in ('setof', 'unordered') else p)
        ps = sorted(set(ps), key=lambda q: q.key)
        return mk('setof', _cat_final(tuple(ps)))
    if x.op == 'map':
        D, v, c, b = opened_u(x)
        if D is not x.args[0]:
            return setof(map_(D, v, c, b))
        if c is TRUE and b.op == 'at' and b.args[1] is v and \
                D is dom_of(b.args[0]):
            return setof(b.args[0])
    return mk('setof', x)


def unordered(x):
    if x.op == 'seq' and len(x.args[0]) <= 1:
        return x
    if x.op == 'ite':
        return ite(x.args[0], unordered(x.args[1]), unordered(x.args[2]))
    if x.op == 'unordered':
        return x
    s = setof(x)
    if s.op == 'setof' and s.args[0].op == 'seq' and len(s.args[0].args[0]) <= 1:
        return s.args[0]
    return mk('unordered', s.args[0])


def rev(x):
    if x.op == 'ite':
        return ite(x.args[0], rev(x.args[1]), rev(x.args[2]))
    if x.op == 'rev':
        return x.args[0]
    if x.op == 'seq':
        return mk('seq', tuple(reversed(x.args[0])))
    if x.op == 'cat':
        return cat(*[rev(p) for p in reversed(x.args[0])])
    if x.op == 'map' and x.args[2] is TRUE:
        v, c, b = opened(x)
        n = dom_len(x.args[0])
        return map_(x.args[0], v, TRUE, subst(b, {v: sub(sub(n, ONE), v)}))
    return mk('rev', x)


def strm(x, *spec):
    if x in SYMBOLS and not spec:
        return const(SYMBOLS[x])
    if TEXT is not None and not spec and (x in EXPRS or x.op in ('sder', 'sfun')):
        return const(TEXT(None, x))
    if x.op == 'const' and x.args[0] == 'id' and not spec:
        return const(x.args[1])
    if x.op == 'ite':
        return ite(x.args[0], strm(x.args[1], *spec), strm(x.args[2], *spec))
    if not spec:
        if is_str(x) or x.op in ('fmt', 'strm'):
            return x
        if x.op == 'attr' and x.args[1] in ('name', '__name__'):
            return x
        if x.op == 'num' and x.args[0].denominator == 1:
            return const(str(int(x.args[0])))
        if x is NONE or x is TRUE or x is FALSE:
            return const({NONE: 'None', TRUE: 'True', FALSE: 'False'}[x])
    return mk('strm', x, *spec)


def slice_(s, lo, hi, step):
    if s.op == 'ite':
        return ite(s.args[0], slice_(s.args[1], lo, hi, step),
                   slice_(s.args[2], lo, hi, step))
    if lo is NONE and hi is NONE and step is NONE:
        return s
    if lo is ZERO:
        lo = NONE
    if step is ONE:
        step = NONE
    if lo is NONE and hi is NONE and step is MINUS1:
        return rev(s)
    ok = all(x is NONE or x.op == 'num' for x in (lo, hi, step))
    if ok:
        iv = [None if x is NONE else int(x.args[0]) for x in (lo, hi, step)]
        if s.op == 'seq':
            return mk('seq', s.args[0][slice(*iv)])
        if s.op == 'cat' and iv[2] is None:
            ps = list(s.args[0])
            if (iv[0] or 0) >= 0 and iv[1] is None and ps[0].op == 'seq' and \
                    len(ps[0].args[0]) >= (iv[0] or 0):
                return cat(mk('seq', ps[0].args[0][iv[0]:]), *ps[1:])
            if iv[0] is None and iv[1] is not None and iv[1] < 0 and \
                    ps[-1].op == 'seq' and len(ps[-1].args[0]) >= -iv[1]:
                return cat(*(ps[:-1] + [mk('seq', ps[-1].args[0][:iv[1]])]))
    return mk('slice', s, lo, hi, step)


def _redom(seqs):
    ds = []
    for s in seqs:
        if s.op == 'map' and s.args[2] is TRUE:
            ds.append(s.args[0])
        elif s.op == 'range' and s.args[0].op == 'len':
            ds.append(dom_of(s.args[0].args[0]))
        else:
            ds.append(dom(s))
    return dom_join(*ds)


def _reflat(s):
    if s.op == 'map':
        v, c, b = opened(s)
        return flatmap(s.args[0], v, c, b)
    if s.op == 'seq':
        return cat(*s.args[0])
    if s.op == 'ite':
        return ite(s.args[0], _reflat(s.args[1]), _reflat(s.args[2]))
    return mk('flat', s)


NEVER_INSTANCE = {'seq', 'map', 'cat', 'dict', 'num', 'poly', 'fmt', 'fun',
                  'cls', 'lam', 'partial', 'setof', 'sum'}


def _isinst(x, c):
    if c.op == 'seq':
        return or_(*[_isinst(x, d) for d in c.args[0]])
    if x.op in ('new', 'obj'):
        r = isa(x.args[0], c)
        if r is not None:
            return const(r)
    if x.op in ('cls', 'fun', 'bm') and c.op == 'ext' and \
            c.args[0].startswith('collections.abc.') and \
            c.args[0].split('.')[-1] not in ('Callable', 'Hashable'):
        return FALSE
    if c.op == 'cls' and (x.op in NEVER_INSTANCE or x.op == 'const'):
        return FALSE
    if x is NONE:
        return FALSE
    if x in SCALARS and (c.op == 'cls' or c.op == 'ext' and c.args[0].startswith(
            ('sympy.', 'scipy.', 'collections.'))):
        return FALSE
    if c.op == 'ext' and c.args[0].split('.')[0] in ('scipy', 'sympy') and x.op in (
            'fun', 'bm', 'lam', 'partial', 'const', 'dict', 'seq', 'fmt', 'cls'):
        return FALSE
    if c.op == 'ext' and c.args[0] in ('str', 'builtins.str', 'bytes', 'builtins.bytes'):
        if x.op == 'const':
            return const(x.args[0] == c.args[0].split('.')[-1])
        if x.op == 'fmt':
            return const(c.args[0].endswith('str'))
    return mk('isinstance', x, c)


def _issub(x, c):
    if c.op == 'seq':
        return or_(*[_issub(x, d) for d in c.args[0]])
    if x.op in ('cls', 'ext'):
        r = isa(x, c)
        if r is not None:
            return const(r)
    return mk('issubclass', x, c)


def isinstance_(x, c):
    return lift(_isinst, x, c)


def issubclass_(x, c):
    return lift(_issub, x, c)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1])
    if o == 'num':
        return str(a[0])
    if o in ('sym', 'ext'):
        return a[0]
    if o == 'cls':
        return a[0].split('.')[-1]
    if o == 'bv':
        return '$%d' % a[0]
    if o == 'iv':
        return 'i{%s}%s' % (s(a[0]), a[1] or '')
    if o == 'fresh':
        return '?%d' % a[0]
    if o == 'ite':
        if is_bool(t):
            if a[2] is FALSE:
                return '(%s and %s)' % (s(a[0]), s(a[1]))
            if a[1] is TRUE:
                return '(%s or %s)' % (s(a[0]), s(a[2]))
            if a[1] is FALSE and a[2] is TRUE:
                return 'not %s' % s(a[0])
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o in ('call', 'new'):
        parts = [s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]
        return '%s%s(%s)' % ('new ' if o == 'new' else '', s(a[0]), ', '.join(parts))
    if o == 'npop':
        return 'np.%s(%s)' % (a[0], ', '.join(
            s(x) if isinstance(x, T) else repr(x) for x in a[1:]))
    if o == 'seq':
        return '[%s]' % ', '.join(s(x) for x in a[0])
    if o == 'cat':
        return ' ++ '.join(s(x) for x in a[0])
    if o == 'pair':
        return '%s: %s' % (s(a[0]), s(a[1]))
    if o == 'dict':
        return '{%s}' % s(a[0])
    if o == 'map':
        c = '' if a[2] is TRUE else ' if %s' % s(a[2])
        return '[%s for $%d in %s%s]' % (s(a[3]), a[1], s(a[0]), c)
    if o == 'sum':
        c = '' if a[2] is TRUE else ' if %s' % s(a[2])
        return 'SUM(%s for $%d in %s%s)' % (s(a[3]), a[1], s(a[0]), c)
    if o == 'exists':
        return 'any($%d in %s: %s)' % (a[1], s(a[0]), s(a[2]))
    if o == 'first':
        return 'first($%d in %s: %s)' % (a[1], s(a[0]), s(a[2]))
    if o == 'psum':
        return 'rank($%d in %s: %s; %s before %s)' % (
            a[1], s(a[0]), s(a[2]), s(a[3]), s(a[4]))
    if o == 'dom':
        return 'dom(%s)' % ','.join(s(x) for x in a[0])
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'is':
        return '%s is %s' % (s(a[0]), s(a[1]))
    if o == 'lt':
        return '%s < %s' % (s(a[0]), s(a[1]))
    if o == 'in':
        return '%s in %s' % (s(a[0]), s(a[1]))
    if o == 'truthy':
        return 'bool(%s)' % s(a[0])
    if o in ('isinstance', 'issubclass'):
        return '%s(%s, %s)' % (o, s(a[0]), s(a[1]))
    if o == 'hasattr':
        return 'hasattr(%s, %r)' % (s(a[0]), a[1])
    if o == 'poly':
        ms = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for x, e in m:
                b = s(x)
                if x.op in ('poly', 'ite'):
                    b = '(%s)' % b
                f.append(b if e == 1 else '%s^%s' % (b, e))
            ms.append('*'.join(f))
        return '(' + ' + '.join(ms) + ')'
    if o == 'ref':
        return 'obj%s%s' % (a[0], '[%s]' % ','.join(s(x) for x in a[1]) if a[1] else '')
    if o == 'fun':
        return '<fun %s>' % (a[0],)
    if o == 'fmt':
        return 'f"%s"' % ''.join(x.args[1] if is_str(x) else '{%s}' % s(x)
                                 for x in a[0])
    parts = []
    for x in a:
        if isinstance(x, T):
            parts.append(s(x))
        elif isinstance(x, tuple):
            parts.append('(%s)' % ', '.join(
                s(y) if isinstance(y, T) else str(y) for y in x))
        else:
            parts.append(str(x))
    return '%s(%s)' % (o, ', '.join(parts))
