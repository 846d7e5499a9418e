"""Interprocedural gated value-flow analysis of Python source.

Every function is traversed once per calling context over its syntax tree; at
joins the values of all variables and heap slots are merged with gates (no path
enumeration), loops are summarised in closed form over a symbolic index, calls
to functions of the analysed program are followed through resolved callees
(MRO, super(), closures, descriptors) and everything else stays opaque.
Nothing of the analysed program is imported or run.
"""
import ast
import time

from . import terms as t
from . import symp
from .terms import (T, mk, const, ext, ite, and_, or_, not_, truth, TRUE, FALSE,
                    NONE, UNDEF, ZERO, ONE, seq, cat, attr, item, at)
from .world import ClassInfo, FuncInfo


from .watch import Budget


class Anchor(Exception):
    """an entry point the property needs does not exist any more"""


class St(object):
    __slots__ = ('heap', 'pc', 'lits')

    def __init__(self, heap, pc, lits):
        self.heap = heap
        self.pc = pc
        self.lits = lits

    def copy(self):
        return St(dict(self.heap), self.pc, dict(self.lits))


class Exit(object):
    __slots__ = ('kind', 'cond', 'val', 'st')

    def __init__(self, kind, cond, val, st):
        self.kind, self.cond, self.val, self.st = kind, cond, val, st


class Env(object):
    """static scope of a frame"""
    __slots__ = ('names', 'fi', 'module', 'comp')

    def __init__(self, names, fi, module, comp=False):
        self.names, self.fi, self.module, self.comp = names, fi, module, comp


# builtin exceptions
_EXC = {
    'Exception': ['BaseException'],
    'ArithmeticError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError'],
    'AssertionError': ['Exception'], 'AttributeError': ['Exception'],
    'LookupError': ['Exception'], 'IndexError': ['LookupError'],
    'KeyError': ['LookupError'], 'NameError': ['Exception'],
    'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'],
    'StopIteration': ['Exception'], 'TypeError': ['Exception'],
    'ValueError': ['Exception'], 'Warning': ['Exception'],
    'DeprecationWarning': ['Warning'], 'RuntimeWarning': ['Warning'],
    'UserWarning': ['Warning'], 'OSError': ['Exception'],
    'ImportError': ['Exception'],
    'numpy.linalg.LinAlgError': ['ValueError'],
}


def _close():
    for k in list(_EXC):
        out, todo = set(), list(_EXC[k])
        while todo:
            b = todo.pop()
            if b not in out:
                out.add(b)
                todo.extend(_EXC.get(b, []))
        t.EXTISA[k] = t.EXTISA.get(k, set()) | out


_close()

CONTAINER_SLOTS = ('$seq', '$dict', '$set')


class Interp(object):
    def __init__(self, world, boundary=None, opaque=(), types=None,
                 seconds=100.0, modelled=None):
        self.w = world
        self.setorder = None
        self.raw_symbols = False
        self.dummies = 0
        self.boundary = dict(boundary or {})     # class qual/name -> field names
        self.opaque = set(opaque)                # 'Class.method' kept opaque
        self.types = dict(types or {})           # sym term -> ClassInfo
        self.st = St({}, TRUE, {})
        self.base_heap = {}
        self.ctx = []
        self.exits = []
        self.ivs = []
        self.stack = []
        self.rids = []             # their frames
        self.formals = {}      # rid -> tuple of ivs
        self.kind = {}         # rid -> kind
        self.envs = {}         # rid -> Env
        self.nref = 0
        self.nacc = 0
        self.events = []
        self.visited = {}
        self.handlers = []     # active try handlers (list of list of type names)
        self.unmodelled = []
        self.deadline = time.time() + seconds
        self.dyn = {}
        self.gl = {}
        self.calls = 0
        self.curfn = []
        self.pending = set()
        self.assumed = TRUE
        self.litmap = {}       # opaque sequence -> literal sequence (bounded mode)
        self.size = None
        self.lacking = set()   # attributes stand-ins of the driver do not have
        self.intercept = {}    # ext name or Class.method -> fun of the driver
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ heap
    def alloc(self, kind, slots=()):
        self.nref += 1
        rid = self.nref
        self.formals[rid] = tuple(self.ivs)
        self.kind[rid] = kind
        for k, v in slots:
            self.st.heap[(rid, k)] = v
        return mk('ref', rid, tuple(self.ivs))

    def rget(self, ref, key, default=UNDEF):
        if ref.op != 'ref':
            v = self.st.heap.get((ref, key))
            if v is None:
                v = self.base_heap.get((ref, key), default)
            return v
        rid, idx = ref.args
        v = self.st.heap.get((rid, key))
        if v is None:
            v = self.base_heap.get((rid, key))
            if v is None:
                return default
        f = self.formals[rid]
        if f != idx and f:
            m = {a: b for a, b in zip(f, idx) if a is not b}
            if m:
                v = t.subst(v, m)
        return v

    def rset(self, ref, key, val):
        if ref.op != 'ref':
            self.st.heap[(ref, key)] = val
            return
        rid, idx = ref.args
        f = self.formals[rid]
        if f == idx or not f:
            self.st.heap[(rid, key)] = val
            return
        old = self.st.heap.get((rid, key), UNDEF)
        m = {}
        conds = []
        for a, b in zip(f, idx):
            if a is b:
                continue
            if b.op == 'iv' and b.args[0] is a.args[0]:
                m[b] = a
            else:
                conds.append(t.eq(a, b))
        if m:
            val = t.subst(val, m)
        self.st.heap[(rid, key)] = ite(and_(*conds), val, old)

    def slots(self, ref):
        rid = ref.args[0] if ref.op == 'ref' else ref
        out = []
        for h in (self.base_heap, self.st.heap):
            for (r, k) in h:
                if r == rid and k not in out:
                    out.append(k)
        return out

    def kindof(self, v):
        if v.op == 'ref':
            return self.kind[v.args[0]]
        return None

    def new_list(self, s):
        return self.alloc('list', [('$seq', s)])

    def new_dict(self, d):
        return self.alloc('dict', [('$dict', d)])

    def new_set(self, s):
        return self.alloc('set', [('$seq', s)])

    # ------------------------------------------------------------ state
    def dead(self):
        return self.st.pc is FALSE

    def simp(self, v):
        if isinstance(v, T) and self.st.lits and v.op not in (
                'const', 'num', 'sym', 'ref', 'ext', 'cls'):
            return t.assume_all(v, self.st.lits)
        return v

    def assume(self, c):
        """restrict the current state to c"""
        st = self.st
        st.pc = and_(st.pc, c)
        for a, v in t.literals(c):
            st.lits[a] = v

    def split(self, c, f1, f2):
        """run f1 under c and f2 otherwise; gated merge; returns value"""
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        self.tick()
        s0 = self.st
        s1 = s0.copy()
        s2 = s0.copy()
        self.st = s1
        self.assume(c)
        v1 = f1()
        e1 = self.st
        self.st = s2
        self.assume(not_(c))
        v2 = f2()
        e2 = self.st
        self.st = self.merge(c, e1, e2)
        if e1.pc is FALSE:
            return v2
        if e2.pc is FALSE:
            return v1
        if v1 is v2:
            return v1
        return ite(c, v1, v2)

    def merge(self, c, s1, s2):
        if s1.pc is FALSE:
            return s2
        if s2.pc is FALSE:
            return s1
        h1, h2 = s1.heap, s2.heap
        heap = dict(h1)
        # an object which exists on one side only keeps its state
        n1 = set(k[0] for k in h1 if isinstance(k[0], int))
        n2 = set(k[0] for k in h2 if isinstance(k[0], int))
        for k, b in h2.items():
            a = h1.get(k)
            if a is b:
                continue
            if a is None:
                if isinstance(k[0], int) and k[0] not in n1:
                    heap[k] = b
                    continue
                a = self._missing(k, h1)
            heap[k] = ite(c, a, b)
        for k, a in h1.items():
            if k not in h2:
                if isinstance(k[0], int) and k[0] not in n2:
                    continue
                heap[k] = ite(c, a, self._missing(k, h2))
        lits = {a: v for a, v in s1.lits.items() if s2.lits.get(a) is v}
        return St(heap, or_(s1.pc, s2.pc), lits)

    def _missing(self, k, h):
        v = self.base_heap.get(k)
        if v is not None:
            return v
        r = k[0]
        if isinstance(r, T):
            if k[1] in CONTAINER_SLOTS:
                return self._opaque_container(r, k[1])
            if not k[1].startswith('$') and not k[1].startswith('_cached'):
                return attr(r, k[1])
        return UNDEF

    def _opaque_container(self, x, slot):
        if slot == '$dict':
            return mk('dict', mk('pairs', x, ()))
        return x

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def pointwise(self, d):
        """gated dicts with the same literal keys become one dict"""
        if d.op != 'ite':
            return d
        a, b = self.pointwise(d.args[1]), self.pointwise(d.args[2])
        if a.op == b.op == 'dict' and a.args[0].op == b.args[0].op == 'seq':
            pa, pb = a.args[0].args[0], b.args[0].args[0]
            if len(pa) == len(pb) and all(
                    x.op == y.op == 'pair' and x.args[0] is y.args[0]
                    for x, y in zip(pa, pb)):
                return t.dict_(seq(*[t.pair(x.args[0], ite(d.args[0], x.args[1], y.args[1]))
                                     for x, y in zip(pa, pb)]))
        return d

    def branch_leaves(self, v, f):
        """apply f to each gated alternative of v, splitting the state"""
        v = self.simp(v)
        if v.op == 'ite':
            return self.split(v.args[0],
                              lambda: self.branch_leaves(v.args[1], f),
                              lambda: self.branch_leaves(v.args[2], f))
        if v is UNDEF and False:
            return UNDEF
        return f(v)

    # ------------------------------------------------------------ raising
    def raise_(self, exc, cond=TRUE):
        """raise under cond (within the current state)"""
        c = self.simp(cond)
        if c is FALSE or self.dead():
            return
        st = self.st.copy()
        st.pc = and_(st.pc, c)
        self.exits.append(Exit('raise', st.pc, exc, st))
        self.assume(not_(c))

    def raise_type(self, name, cond=TRUE, args=()):
        self.raise_(mk('new', ext(name), tuple(args), ()), cond)

    def may_raise(self, term, types):
        """an opaque operation inside try: it may raise one of the types the
        enclosing handlers catch"""
        if not self.handlers or self.dead():
            return
        for hs in reversed(self.handlers):
            for h in hs:
                if h is None:
                    continue
                hn = h.args[0] if h.op in ('ext', 'cls') else None
                for ty in types:
                    if ty == hn or hn in t.EXTISA.get(ty, ()):
                        at_ = mk('raises', ty, term)
                        self.raise_(mk('exc', ty, term), at_)
                        break
                else:
                    if hn and h.op == 'ext' and hn not in ('AttributeError',
                                                          'KeyError',
                                                          'IndexError',
                                                          'StopIteration',
                                                          'AssertionError') \
                            and '*' in types:
                        self.raise_(mk('exc', hn, term), mk('raises', hn, term))
                    elif hn and '*' in types and hn == 'AttributeError':
                        self.raise_(mk('exc', hn, term), mk('raises', hn, term))

    def event(self, kind, *data):
        if self.dead():
            return
        cond = and_(*(self.ctx + [self.st.pc]))
        self.events.append((kind, cond, tuple(self.ivs),
                            self.curfn[-1] if self.curfn else None) + data)

    def unk(self, why, *args):
        self.unmodelled.append(why)
        return mk('unk', why, *args)

    # ------------------------------------------------------------ functions
    def fun_term(self, fi, frame=NONE, defaults=(), kwdefaults=()):
        return mk('fun', fi.fid, frame, tuple(defaults), tuple(kwdefaults))

    def global_fun(self, fi):
        k = ('fun', fi.fid)
        if k not in self.gl:
            self.gl[k] = self._in_base(lambda: self._mkfun(fi, NONE,
                                                           self._modenv(fi.module)))
        return self.gl[k]

    def _in_base(self, f):
        """evaluate once in the global context; allocations go to base heap"""
        s, e, iv, ctx, h = self.st, self.exits, self.ivs, self.ctx, self.handlers
        self.st = St({}, TRUE, {})
        self.exits, self.ivs, self.ctx, self.handlers = [], [], [], []
        try:
            v = f()
            self.base_heap.update(self.st.heap)
        finally:
            self.st, self.exits, self.ivs, self.ctx, self.handlers = s, e, iv, ctx, h
        return v

    def _modenv(self, m):
        k = ('modenv', m.name)
        if k not in self.gl:
            self.nref += 1
            rid = self.nref
            self.formals[rid] = ()
            self.kind[rid] = 'frame'
            self.envs[rid] = Env(set(), None, m)
            self.gl[k] = mk('ref', rid, ())
        return self.gl[k]

    def _mkfun(self, fi, frame, env):
        a = fi.node.args
        defaults = [self.expr(d, env) for d in a.defaults]
        kw = [self.expr(d, env) if d is not None else UNDEF
              for d in a.kw_defaults]
        return self.fun_term(fi, frame, defaults, kw)

    def call_fun(self, fn, args, kwargs, first=()):
        """fn: fun term. args: list of T / ('*', T); kwargs: list (name, T) or
        ('**', T)"""
        fi = self.w.funcs[fn.args[0]]
        if self.dead():
            return UNDEF
        self.tick()
        if len(self.stack) > 70 or self.stack.count(fi) > 3:
            return self.opaque_call(fn, list(first) + list(args), kwargs,
                                    'recursion')
        args = list(first) + list(args)
        for k, (n, v) in enumerate(kwargs):
            if n == '**':
                d = self.pointwise(self.simp(self.dict_of(v)))
                if d.op == 'ite':
                    kw = list(kwargs)

                    def alt(x):
                        kw[k] = ('**', x)
                        return self.call_fun(fn, args, list(kw))
                    return self.split(d.args[0], lambda: alt(d.args[1]),
                                      lambda: alt(d.args[2]))
                if d.op == 'dict':
                    kwargs = list(kwargs)
                    kwargs[k] = ('**', d)
        b = self.bind(fi, fn, args, kwargs)
        if b is None:
            if self.dead():
                return UNDEF
            return self.opaque_call(fn, args, kwargs, 'binding ' + fi.name)
        self.visited[fi.where] = self.visited.get(fi.where, 0) + 1
        self.calls += 1
        frame = self.alloc('frame')
        rid = frame.args[0]
        self.envs[rid] = Env(fi.locals, fi, fi.module)
        for k, v in b.items():
            self.st.heap[(rid, k)] = v
        self.st.heap[(rid, '$parent')] = fn.args[1]
        if fi.is_gen:
            # run eagerly: the values are collected in order
            gen = self.new_list(seq())
            self.st.heap[(rid, '$yields')] = gen
        outer_exits, outer_pc = self.exits, self.st.pc
        self.exits = []
        self.ctx.append(outer_pc)
        self.st.pc = TRUE
        self.stack.append(fi)
        self.rids.append(rid)
        self.curfn.append(fi.where)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.expr(fi.node.body, frame)
                self.exits.append(Exit('return', self.st.pc, v, self.st))
            else:
                self.block(fi.node.body, frame)
                if not self.dead():
                    self.exits.append(Exit('return', self.st.pc, NONE, self.st))
        finally:
            self.stack.pop()
            self.rids.pop()
            self.curfn.pop()
            self.ctx.pop()
        rets = [e for e in self.exits if e.kind == 'return' and e.cond is not FALSE]
        raises = [e for e in self.exits if e.kind == 'raise' and e.cond is not FALSE]
        self.exits = outer_exits
        for e in raises:
            e.st.pc = and_(outer_pc, e.cond)
            self.exits.append(Exit('raise', e.st.pc, e.val, e.st))
        if not rets:
            self.st = St({}, FALSE, {}) if not raises else self.st
            self.st.pc = FALSE
            return UNDEF
        val, st = self.merge_exits(rets)
        self.st = st
        if fi.is_gen:
            val = self.alloc('iter', [('$src', self.rget(gen, '$seq')),
                                      ('$pos', ZERO)])
        if raises:
            rc = or_(*[e.cond for e in raises])
            self.st.pc = outer_pc
            self.assume(not_(rc))
        else:
            self.st.pc = outer_pc
        if not fi.nested:
            for k in fi.locals:
                self.st.heap.pop((rid, k), None)
            self.st.heap.pop((rid, '$parent'), None)
        return self.simp(val) if val.op == 'ite' else val

    def merge_exits(self, exits):
        """exclusive exits -> (value, state); their conditions are relative"""
        exits = list(exits)
        last = exits[-1]
        val, st = last.val, last.st
        for e in reversed(exits[:-1]):
            c = e.cond
            v0, s0 = val, st
            val = ite(c, e.val, v0) if e.val is not v0 else v0
            st = self.merge(c, e.st, s0)
        return val, st

    def bind(self, fi, fn, args, kwargs):
        """python argument binding; None when it can not be decided"""
        names = fi.posonly + fi.pos
        defaults = fn.args[2]
        kwdefaults = fn.args[3]
        out = {}
        # flatten star args
        flat = []
        for a in args:
            if isinstance(a, tuple):
                s = self.simp(self.seq_of(a[1]))
                for p in (s.args[0] if s.op == 'cat' else (s,)):
                    if p.op == 'seq':
                        flat.extend(p.args[0])
                    else:
                        flat.append(('*', p))
            else:
                flat.append(a)
        pos = []
        rest = None
        for k, a in enumerate(flat):
            if isinstance(a, tuple):
                rest = flat[k:]
                break
            pos.append(a)
        if rest is not None and len(pos) < len(names):
            # an opaque star sequence feeding named parameters
            if fi.vararg is None or True:
                r2 = rest[0][1]
                need = len(names) - len(pos)
                free = [n for n in names[len(pos):]
                        if n not in [k for k, _ in kwargs]]
                if len(rest) == 1 and free and not kwargs and fi.vararg is None:
                    for j in range(need):
                        pos.append(at(r2, const(j)))
                    rest = None
                else:
                    return None
        for n, v in zip(names, pos):
            out[n] = v
        extra = pos[len(names):]
        va = []
        if extra or rest:
            if fi.vararg is None:
                self.raise_type('TypeError')
                return None
            if extra:
                va.append(seq(*extra))
            for a in rest or ():
                va.append(a[1] if isinstance(a, tuple) else seq(a))
        if fi.vararg is not None:
            out[fi.vararg] = cat(*va) if va else seq()
        # keywords
        kwpairs = []      # for **kw
        splices = []
        for n, v in kwargs:
            if n == '**':
                d = self.simp(self.dict_of(v))
                if d.op == 'ite':
                    return self._bind_ite(fi, fn, args, kwargs, d)
                if d.op != 'dict':
                    d = mk('dict', mk('pairs', d, ()))
                for p in (d.args[0].args[0] if d.args[0].op == 'cat'
                          else (d.args[0],)):
                    if p.op == 'seq':
                        for q in p.args[0]:
                            if q.op == 'pair' and t.is_str(q.args[0]):
                                n2 = q.args[0].args[1]
                                if n2 in out and n2 in fi.pos + fi.kwonly:
                                    self.raise_type('TypeError')
                                    return None
                                if n2 in fi.pos or n2 in fi.kwonly:
                                    out[n2] = q.args[1]
                                else:
                                    kwpairs.append(seq(q))
                            else:
                                kwpairs.append(seq(q))
                    else:
                        splices.append(p)
                        kwpairs.append(p)
            else:
                if n in fi.pos or n in fi.kwonly:
                    if n in out:
                        self.raise_type('TypeError')
                        return None
                    out[n] = v
                else:
                    kwpairs.append(seq(t.pair(const(n), v)))
        nd = len(defaults)
        for k, n in enumerate(names):
            if n not in out:
                j = k - (len(names) - nd)
                dv = defaults[j] if j >= 0 else None
                if splices and n in fi.pos:
                    got = self._from_splices(splices, n, dv)
                    if got is None:
                        return None
                    out[n] = got
                elif dv is not None:
                    out[n] = dv
                else:
                    self.raise_type('TypeError')
                    return None
        for k, n in enumerate(fi.kwonly):
            if n not in out:
                dv = kwdefaults[k]
                if splices:
                    got = self._from_splices(splices, n,
                                             None if dv is UNDEF else dv)
                    if got is None:
                        return None
                    out[n] = got
                elif dv is UNDEF:
                    self.raise_type('TypeError')
                    return None
                else:
                    out[n] = dv
        if fi.kwarg is not None:
            ps = []
            for p in kwpairs:
                if p in splices:
                    p = self._splice_minus(p, [n for n in fi.pos + fi.kwonly])
                ps.append(p)
            out[fi.kwarg] = self.new_dict(t.dict_(cat(*ps)))
        elif kwpairs:
            if splices and all(p in splices for p in kwpairs):
                pass
            else:
                self.raise_type('TypeError')
                return None
        return out

    def _bind_ite(self, fi, fn, args, kwargs, d):
        return None

    def _from_splices(self, splices, n, dv):
        r = dv if dv is not None else t.MISSING
        k = const(n)
        for p in splices:
            if p.op == 'pairs':
                if n in p.args[1]:
                    continue
                if dv is None:
                    r = item(p.args[0], k)
                else:
                    r = ite(t.in_(k, p.args[0]), item(p.args[0], k), r)
            elif p.op == 'map':
                r2 = t.dict_get(mk('dict', p), k, r)
                if r2.op == 'dget':
                    # keyed by non-constant names: assume parameter names do
                    # not clash with python-level option names
                    continue
                r = r
            else:
                return None
        if r is t.MISSING:
            return None
        return r

    def _splice_minus(self, p, names):
        if p.op == 'pairs':
            return mk('pairs', p.args[0], tuple(sorted(set(p.args[1]) | set(names))))
        return p

    # ------------------------------------------------------------ calling
    def call(self, f, args=(), kwargs=()):
        args, kwargs = list(args), list(kwargs)
        if self.dead():
            return UNDEF
        f = self.simp(f)
        op = f.op
        if op == 'ite':
            return self.branch_leaves(f, lambda g: self.call(g, args, kwargs))
        for i, a in enumerate(args):
            if isinstance(a, tuple):
                s = self.simp(self.seq_of(a[1]))
                if s.op == 'ite' and all(l.op == 'seq' for l in t.leafset(s)):
                    return self.branch_leaves(s, lambda x: self.call(
                        f, args[:i] + [(a[0], x)] + args[i + 1:], kwargs))
        if op == 'fun':
            fi = self.w.funcs[f.args[0]]
            if self.intercept:
                g = self.intercepted(fi)
                if g is not None:
                    return self.call(g, args, kwargs)
            key = self.opaque_key(fi)
            if key is not None:
                return self.opaque_call(ext('fn:' + key), args, kwargs,
                                        None, sig=fi)
            return self.call_fun(f, args, kwargs)
        if op == 'bm':
            fn, recv = f.args
            if fn.op == 'fun':
                fi = self.w.funcs[fn.args[0]]
                if self.intercept:
                    g = self.intercepted(fi)
                    if g is not None:
                        return self.call(g, [recv] + args, kwargs)
                key = self.opaque_key(fi)
                if key is not None:
                    return self.opaque_call(ext('fn:' + key), [recv] + args,
                                            kwargs, None, sig=fi)
                return self.call_fun(fn, args, kwargs, first=(recv,))
            return self.call(fn, [recv] + args, kwargs)
        if op == 'partial':
            g, pa, pk = f.args
            kw = dict((k, v) for k, v in pk)
            merged = [(k, v) for k, v in pk if k not in [n for n, _ in kwargs]]
            return self.call(g, [('*', x.args[0]) if x.op == 'star' else x
                                 for x in pa] + args, merged + kwargs)
        if op == 'cls':
            g = self.intercept.get(self.w.classes[f.args[0]].name)
            if g is not None:
                return self.call(g, args, kwargs)
            return self.instantiate(f, args, kwargs)
        if op == 'dyncls':
            return self.instantiate_dyn(f, args, kwargs)
        if op == 'getter':
            kind, names = f.args
            x = args[0]
            vals = []
            for n in names:
                v = x
                if kind == 'attr':
                    for part in n.args[1].split('.'):
                        v = self.getattr(v, part)
                else:
                    v = self.getitem(v, n)
                vals.append(v)
            return vals[0] if len(vals) == 1 else seq(*vals)
        if op == 'builtin':
            return self.lib.call_builtin(self, f.args[0], args, kwargs)
        if op == 'meth':
            return self.lib.call_method(self, f.args[0], f.args[1], args, kwargs)
        if op == 'ext':
            return self.lib.call_ext(self, f.args[0], args, kwargs)
        if op == 'undef':
            return UNDEF
        if op == 'slam':
            r = symp.apply_lambda(self, f, args, kwargs)
            if r is not None:
                return r
        if op == 'sfuncls' and not kwargs and not any(
                isinstance(a, tuple) for a in args):
            return mk('sfun', f.args[0], tuple(self.reify(a) for a in args))
        if op == 'sfuncls' and len(args) == 1 and isinstance(args[0], tuple):
            s = self.simp(self.reify(self.seq_of(args[0][1])))
            if s.op == 'seq':
                return mk('sfun', f.args[0], s.args[0])
        if symp.is_expr(f):
            ty = self.typeof(f)
            m = self.lookup_method(ty.term, '__call__', f) if ty is not None else None
            m = m or symp.patched(self, f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
            self.raise_type('TypeError')
            return UNDEF
        if op == 'unbound':
            r = self.lib.call_unbound(self, f.args[0], f.args[1], args, kwargs)
            if r is not None:
                return r
        if op == 'ntuple':
            a, k = self.norm_args(args, kwargs)
            names = list(f.args[1]) if len(f.args) > 1 and isinstance(f.args[1], tuple) else []
            kd = dict(k)
            if not any(x.op == 'star' for x in a) and len(a) <= len(names):
                kd.update(zip(names, a))
                a = ()
            return t.rebuild('new', (f, a, tuple(sorted(kd.items()))))
        if op == 'ref':
            cls = self.rget(f, '$cls')
            if cls.op == 'cls':
                m = self.lookup_method(cls, '__call__', f)
                if m is not None:
                    return self.call(m, args, kwargs)
            return self.opaque_call(f, args, kwargs, 'call of object')
        ty = self.typeof(f)
        if ty is not None:
            m = self.lookup_method(ty.term, '__call__', f)
            if m is not None:
                return self.call(m, args, kwargs)
        if op == 'attr':
            # method of an opaque object
            return self.lib.call_method(self, f.args[0], f.args[1], args, kwargs)
        return self.opaque_call(f, args, kwargs, None)

    def intercepted(self, fi):
        if fi.cls is not None:
            return self.intercept.get(fi.cls.name + '.' + fi.name)
        if fi.module.name.startswith('spec'):
            return None
        return self.intercept.get(fi.name)

    def opaque_key(self, fi):
        if not self.opaque:
            return None
        n = (fi.cls.name + '.' + fi.name) if fi.cls else fi.name
        if n in self.opaque:
            return n
        if fi.cls is None and fi.name in self.opaque:
            return fi.name
        return None

    def norm_args(self, args, kwargs):
        """-> (tuple of T, tuple of (name, T)) canonical"""
        out = []
        for a in args:
            if isinstance(a, tuple):
                s = self.simp(self.seq_of(a[1]))
                for p in (s.args[0] if s.op == 'cat' else (s,)):
                    if p.op == 'seq':
                        out.extend(p.args[0])
                    else:
                        out.append(mk('star', p))
            else:
                out.append(a)
        parts = []
        if all(n != '**' for n, v in kwargs) and \
                len({n for n, v in kwargs}) == len(kwargs):
            return tuple(out), tuple(sorted(kwargs, key=lambda x: x[0]))
        for n, v in kwargs:
            if n == '**':
                d = self.simp(self.dict_of(v))
                if d.op == 'dict':
                    parts.append(d.args[0])
                elif d.op == 'ite':
                    parts.append(t.lift(lambda x: x.args[0] if x.op == 'dict'
                                        else mk('pairs', x, ()), d))
                else:
                    parts.append(mk('pairs', d, ()))
            else:
                parts.append(seq(t.pair(const(n), v)))
        ps = cat(*parts) if parts else seq()
        d = t.dict_(ps)
        if d.op == 'dict' and d.args[0].op == 'seq' and all(
                q.op == 'pair' and t.is_str(q.args[0]) for q in d.args[0].args[0]):
            kw = tuple(sorted(((q.args[0].args[1], q.args[1])
                               for q in d.args[0].args[0]), key=lambda x: x[0]))
            return tuple(out), kw
        return tuple(out), (('**', d),)

    def opaque_call(self, f, args, kwargs, why=None, sig=None, recv=None):
        if why:
            self.unmodelled.append(why)
        a, k = self.norm_args(args, kwargs)
        if len(k) == 1 and k[0][0] == '**' and k[0][1].op == 'ite':
            d = k[0][1]
            return self.split(
                d.args[0],
                lambda: self.opaque_call(f, args, [('**', d.args[1])], None, sig, recv),
                lambda: self.opaque_call(f, args, [('**', d.args[2])], None, sig, recv))
        if sig is not None and not any(x.op == 'star' for x in a):
            # named arguments, so that f(x) and f(p=x) agree
            names = sig.posonly + sig.pos
            kd = dict(k)
            if len(a) <= len(names):
                d = kd.pop('**', None)
                for n, v in zip(names, a):
                    kd[n] = v
                if d is not None and d.op == 'dict':
                    ps, bound_ = [], tuple(kd)
                    parts = d.args[0]
                    for q in (parts.args[0] if parts.op == 'cat' else (parts,)):
                        ps.append(self._splice_minus(q, bound_))
                    d = t.dict_(cat(*ps))
                a, k = (), tuple(sorted(kd.items()))
                if d is not None:
                    k += (('**', d),)
        a = tuple(self.reify(x) for x in a)
        k = tuple((n, self.reify(v)) for n, v in k)
        r = t.call(self.reify(f), a, k)
        self.event('call', r)
        self.may_raise(r, ('*',))
        return self.litmap.get(r, r)

    def reified_recv(self, v):
        return self.reify(v)

    # ------------------------------------------------------------ classes
    def bkey(self, c):
        if c.qual in self.boundary:
            return self.boundary[c.qual]
        return self.boundary.get(c.name)

    def instantiate(self, cterm, args, kwargs):
        c = self.w.classes[cterm.args[0]]
        fields = self.bkey(c)
        if fields is not None:
            a, k = self.norm_args(args, kwargs)
            kd = dict(k)
            rest = []
            for j, x in enumerate(a):
                if j < len(fields) and x.op != 'star' and fields[j] not in kd:
                    kd[fields[j]] = x
                else:
                    rest.append(x)
            r = mk('new', cterm, tuple(self.reify(x) for x in rest),
                   tuple(sorted((n, self.reify(v)) for n, v in kd.items())))
            r = t.rebuild('new', r.args)
            self.event('new', r)
            self.may_raise(r, ('*',))
            return r
        if t.EXTISA and any(b in ('Exception', 'builtins.Exception')
                            for b in self.w.ext_bases(c)):
            a, k = self.norm_args(args, kwargs)
            return mk('new', cterm, a, k)
        if c.qual == 'symfit.core.argument.Variable' and not self.raw_symbols:
            n = args[0] if len(args) == 1 and not kwargs else \
                dict(kwargs).get('name') if len(kwargs) == 1 and not args else None
            n = self.simp(n) if n is not None and not isinstance(n, tuple) else None
            if n is not None and t.is_str(n):
                return self.lib.spec_call(self, 'spec_var', [n], {})
        o, m = self.w.find_member(c, '__new__')
        if m is not None and m[0] == 'func':
            if not self.raw_symbols and \
                    any(b.split('.')[0] == 'sympy' for b in self.w.ext_bases(c)):
                return self.opaque_call(cterm, args, kwargs,
                                        '__new__ of ' + c.name)
            ref = self.call(self.member_fun(m[1]), [cterm] + list(args), kwargs)
            if self.dead():
                return UNDEF
            k = self.rget(ref, '$cls') if ref.op == 'ref' and \
                self.kindof(ref) == 'obj' else None
            if k is None or not t.isa(k, cterm):
                return ref
        else:
            ref = self.alloc('obj', [('$cls', cterm)])
            if cterm.op == 'cls' and self.lookup_method(cterm, '__eq__', ref) is None:
                t.IDENT.add(ref)
            if any(b in ('builtins.tuple', 'tuple') for b in self.w.ext_bases(c)):
                self.rset(ref, '$tuple', self.seq_of(args[0]) if args else seq())
        o, m = self.w.find_member(c, '__init__')
        if m is not None and m[0] == 'func':
            self.call(mk('bm', self.member_fun(m[1]), ref), args, kwargs)
        return ref if not self.dead() else UNDEF

    def instantiate_dyn(self, f, args, kwargs):
        a, k = self.norm_args(args, kwargs)
        a = tuple(self.reify(x) for x in a)
        k = tuple((n, self.reify(v)) for n, v in k)
        r = t.rebuild('new', (f, a, k))
        self.event('new', r)
        self.may_raise(r, ('*',))
        return r

    def member_fun(self, fi):
        return self.global_fun(fi)

    def decorators(self, fi):
        out = []
        for d in getattr(fi.node, 'decorator_list', []):
            out.append(d)
        return out

    def member_kind(self, c, owner, fi):
        """'property' | 'cached' | 'class' | 'static' | 'method' | 'other'"""
        kind = 'method'
        if fi.name in ('__init_subclass__', '__class_getitem__'):
            kind = 'class'
        if fi.name == '__new__':
            kind = 'static'
        for d in self.decorators(fi):
            n = None
            if isinstance(d, ast.Name):
                n = d.id
            elif isinstance(d, ast.Attribute):
                n = d.attr
            if n in ('abstractmethod', 'wraps'):
                continue
            if n == 'property':
                kind = 'property'
            elif n == 'staticmethod':
                kind = 'static'
            elif n == 'classmethod':
                kind = 'class'
            elif n in ('setter', 'deleter', 'getter'):
                kind = 'property'
            elif n is not None:
                r = self.w.lookup(fi.module, n) if isinstance(d, ast.Name) else None
                if r and r[0] == 'class' and n == 'cached_property':
                    kind = 'cached'
                elif r and r[0] == 'class' and 'property' in str(
                        self.w.ext_bases(r[1])):
                    kind = 'cached'
                elif n == 'cached_property':
                    kind = 'cached'
                else:
                    kind = 'other'
            else:
                kind = 'other' if not isinstance(d, ast.Call) else kind
        return kind

    def lookup_method(self, cterm, name, recv, after=None):
        """bound special/regular method of class for receiver or None"""
        c = self.w.classes.get(cterm.args[0])
        if c is None:
            return None
        o, m = self.w.find_member(c, name, after)
        if m is None or m[0] != 'func':
            return None
        if '%s.%s' % (c.name, name) in self.opaque:
            return None
        return mk('bm', self.member_fun(m[1]), recv)

    def typeof(self, v):
        """ClassInfo of the static type of a value, or None"""
        ty = self.types.get(v)
        if ty is not None:
            return ty
        if v.op == 'new' and v.args[0].op == 'cls':
            return self.w.classes.get(v.args[0].args[0])
        return None

    def getattr(self, v, name, default=None):
        if self.dead():
            return UNDEF
        v = self.simp(v)
        if v.op == 'ite':
            return self.branch_leaves(v, lambda x: self.getattr(x, name, default))
        if v is UNDEF:
            return UNDEF
        if v.op == 'ref':
            return self._getattr_ref(v, name, default)
        # overlay writes on opaque objects
        ov = self.st.heap.get((v, name))
        if ov is not None:
            if t.UNDEF in t.leafset(ov):
                ov = t.mapleaves(ov, lambda l: attr(v, name) if l is UNDEF else l)
            return ov
        if v.op == 'super':
            return self._getattr_super(v, name)
        if v.op == 'cls':
            return self._getattr_cls(v, name, default)
        if v.op == 'module':
            return self._getattr_module(v, name)
        if v.op == 'ext':
            return self.lib.ext_attr(self, v.args[0], name)
        if v.op in ('fun', 'bm', 'partial', 'builtin', 'dyncls'):
            return self.lib.fun_attr(self, v, name, default)
        if v in t.SYMBOLS and name == 'name':
            return const(t.SYMBOLS[v])
        ty = self.typeof(v)
        if ty is not None:
            r = self._class_attr(ty, ty, v, name)
            if r is not None:
                return r
            if name == '__class__' and v in t.SYMBOLS:
                return ty.term
            if name == '__class__':
                return attr(v, '__class__')
        if symp.exprlike(v):
            r = symp.attribute(self, v, name)
            if r is not None:
                return r
        if ty is not None:
            pass
        elif v.op == 'attr' and v.args[1] == '__class__':
            # the class of an object of known type: its methods, bound to it
            ty = self.typeof(v.args[0])
            o, m = self.w.find_member(ty, name) if ty is not None else (None, None)
            if m is not None and m[0] == 'func' and \
                    self.opaque_key(m[1]) is None:
                k = self.member_kind(ty, o, m[1])
                if k == 'class':
                    return mk('bm', self.member_fun(m[1]), v)
                if k in ('static', 'method'):
                    return self.member_fun(m[1])
        r = self.lib.term_attr(self, v, name)
        if r is not None:
            return r
        r = attr(v, name)
        if r in self.litmap:
            return self.litmap[r]
        if default is not None:
            return ite(self.simp(self.lib.has_attr(self, v, name)), r, default)
        self.may_raise(r, ('AttributeError',))
        return r

    def _class_attr(self, c, ty, v, name, after=None):
        o, m = self.w.find_member(c, name, after)
        if m is None:
            return None
        if '%s.%s' % (o.name, name) in self.opaque or \
                '%s.%s' % (ty.name, name) in self.opaque:
            if m[0] == 'func' and self.opaque_key(m[1]) is not None and \
                    self.member_kind(c, o, m[1]) in ('method', 'other'):
                return mk('bm', self.member_fun(m[1]), v)
            return None
        if m[0] == 'func':
            fi = m[1]
            k = self.member_kind(c, o, fi)
            if k == 'property':
                return self.call(mk('bm', self.member_fun(fi), v), [], [])
            if k == 'cached':
                return self.cached(fi, v)
            if k == 'static':
                return self.member_fun(fi)
            if k == 'class':
                return mk('bm', self.member_fun(fi), ty.term)
            if k == 'other':
                g = self.decorated(fi)
                return mk('bm', g, v)
            return mk('bm', self.member_fun(fi), v)
        return self.class_expr(o, name, m[1])

    def decorated(self, fi):
        k = ('dec', fi.fid)
        if k not in self.gl:
            def go():
                g = self.global_fun(fi)
                env = self._modenv(fi.module)
                for d in reversed(self.decorators(fi)):
                    n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
                    if n == 'abstractmethod':
                        continue
                    g = self.call(self.expr(d, env), [g], [])
                return g
            self.gl[k] = self._in_base(go)
        return self.gl[k]

    def patch_value(self, cls, name, module, node):
        """value of an attribute the package adds to a foreign class"""
        k = ('patch', cls, name)
        if k not in self.gl:
            def go():
                env = self._modenv(module)
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                        and node.func.id == 'property' and len(node.args) == 1:
                    return mk('prop', self.expr(node.args[0], env))
                return self.expr(node, env)
            self.gl[k] = self._in_base(go)
        return self.gl[k]

    def class_expr(self, owner, name, node):
        k = ('cexpr', owner.qual, name)
        if k not in self.gl:
            self.gl[k] = self._in_base(
                lambda: self.expr(node, self._modenv(owner.module)))
        return self.gl[k]

    def cached(self, fi, v):
        slot = '_cached_' + fi.name
        cur = self.rget(v, slot)
        if cur is not UNDEF and UNDEF not in t.leafset(cur):
            return cur
        if cur is UNDEF:
            val = self._cached_in_base(fi, v, slot)
            if val is not None:
                return val
            val = self.call(mk('bm', self.member_fun(fi), v), [], [])
            if not self.dead():
                self.rset(v, slot, val)
            return val
        c = t.mapleaves(cur, lambda l: FALSE if l is UNDEF else TRUE)

        def compute():
            val = self.call(mk('bm', self.member_fun(fi), v), [], [])
            if not self.dead():
                self.rset(v, slot, val)
            return val
        return self.split(c, lambda: self.simp(cur), compute)

    def _cached_in_base(self, fi, v, slot):
        """evaluate a cached property once, outside of the loops around its
        first use, when its value does not depend on them"""
        if any(x.op == 'iv' for x in v.fv) or slot in self.pending:
            return None
        st, exits, ivs, ctx, n = self.st, self.exits, self.ivs, self.ctx, self.nref
        nev = len(self.events)
        self.st = St(dict(st.heap), TRUE, {})
        self.exits, self.ivs, self.ctx = [], [], []
        self.pending.add(slot)
        ok = True
        try:
            val = self.call(mk('bm', self.member_fun(fi), v), [], [])
            end = self.st
            if self.dead():
                ok = False
            raised = [e for e in self.exits if e.kind == 'raise'
                      and e.cond is not FALSE]
        finally:
            self.pending.discard(slot)
            self.st, self.exits, self.ivs, self.ctx = st, exits, ivs, ctx
        if ok:
            new = {}
            for k, x in end.heap.items():
                if x is st.heap.get(k):
                    continue
                if isinstance(k[0], int) and k[0] > n:
                    new[k] = x
                elif k[1].startswith('_cached_'):
                    new[k] = x
                else:
                    ok = False
                    break
            for x in [val] + list(new.values()):
                if any(y.op in ('iv', 'acc') for y in x.fv):
                    ok = False
        if not ok:
            del self.events[nev:]
            return None
        for e in raised:
            c = self.simp(e.cond)
            if c is not FALSE:
                self.raise_(e.val, c)
        self.base_heap.update(new)
        self.base_heap[(v.args[0] if v.op == 'ref' else v, slot)] = val
        return val

    def _getattr_ref(self, v, name, default):
        kind = self.kind[v.args[0]]
        if kind in ('list', 'dict', 'set', 'iter'):
            if name == '__class__':
                return ext({'list': 'list', 'dict': 'dict', 'set': 'set',
                            'iter': 'iterator'}[kind])
            return mk('meth', v, name)
        if name == '__dict__':
            return mk('vars', v)
        cls = self.rget(v, '$cls')
        if name == '__class__':
            return cls
        if kind == 'arr':
            return self.getattr(self.rget(v, '$val'), name, default)
        if cls.op != 'cls':
            cur = self.rget(v, name)
            if cur is not UNDEF:
                return self.simp(cur)
            return attr(v, name)
        c = self.w.classes[cls.args[0]]
        o, m = self.w.find_member(c, name)
        if m is not None and m[0] == 'func':
            k = self.member_kind(c, o, m[1])
            if k in ('property', 'cached'):
                return self._class_attr(c, c, v, name)
        cur = self.rget(v, name)
        if cur is UNDEF:
            return self._attr_fallback(c, v, name, default)
        cur = self.simp(cur)
        if cur is UNDEF:
            return self._attr_fallback(c, v, name, default)
        if cur.op == 'ite' and UNDEF in t.leafset(cur):
            cond = t.mapleaves(cur, lambda l: FALSE if l is UNDEF else TRUE)
            return self.split(cond, lambda: self.simp(cur),
                              lambda: self._attr_fallback(c, v, name, default))
        return cur

    def _attr_fallback(self, c, v, name, default):
        r = self._class_attr(c, c, v, name)
        if r is not None:
            return r
        if name == '__class__':
            return self.rget(v, '$cls')
        exts = self.w.ext_bases(c)
        r = self.lib.mixin_attr(self, c, exts, v, name)
        if r is not None:
            return r
        g = self.lookup_method(c.term, '__getattr__', v)
        if g is not None and not name.startswith('__'):
            if default is not None:
                ex = self.exits
                self.exits = []
                r = self.call(g, [const(name)], [])
                mine, self.exits = self.exits, ex
                rc = [e for e in mine if e.kind == 'raise']
                if self.dead() and rc:
                    self.st = rc[-1].st
                    return default
                return r
            return self.call(g, [const(name)], [])
        if default is not None:
            return default
        if name in ('__init__', '__setstate__', '__init_subclass__'):
            return mk('builtin', 'noop')
        if name == '__getstate__':
            return mk('meth', v, name)
        ty = self.rget(v, '$cls')
        ty = self.w.classes.get(ty.args[0]) if ty.op == 'cls' else None
        if ty is not None and ty.module.name.startswith('spec'):
            self.lacking.add('%s.%s' % (ty.name, name))
        self.raise_type('AttributeError', TRUE, (const(name),))
        return UNDEF

    def _getattr_super(self, v, name):
        cterm, recv = v.args
        rc = recv
        after = self.w.classes.get(cterm.args[0])
        if recv.op == 'cls':
            ty = self.w.classes.get(recv.args[0])
        elif recv.op == 'ref':
            k = self.rget(recv, '$cls')
            ty = self.w.classes.get(k.args[0]) if k.op == 'cls' else None
        else:
            ty = self.typeof(recv) or after
        if ty is None or after is None:
            return attr(v, name)
        if after not in self.w.mro(ty):
            ty = after
        o, m = self.w.find_member(ty, name, after)
        if m is None:
            if name == '__init__' and recv.op == 'ref' and any(
                    b.split('.')[-1] == 'property' for b in self.w.ext_bases(ty)):
                return mk('partial', mk('unbound', 'property', name), (recv,), ())
            r = self.lib.mixin_attr(self, ty, self.w.ext_bases(ty), recv, name)
            if r is not None:
                return r
            if name in ('__init__', '__setstate__'):
                return mk('builtin', 'noop')
            if name == '__new__' and not [b for b in self.w.ext_bases(ty)
                                          if b.split('.')[-1] not in
                                          ('object', 'ABC')]:
                return mk('unbound', 'object', '__new__')
            if name == '__setattr__' and recv.op == 'ref':
                return mk('partial', mk('unbound', 'object', name), (recv,), ())
            return mk('meth', v, name)
        if m[0] == 'func':
            fi = m[1]
            k = self.member_kind(ty, o, fi)
            if '%s.%s' % (o.name, name) in self.opaque:
                return mk('bm', self.member_fun(fi), recv)
            if k == 'property':
                return self.call(mk('bm', self.member_fun(fi), recv), [], [])
            if k == 'cached':
                return self.cached(fi, recv)
            if k == 'static':
                return self.member_fun(fi)
            if k == 'class':
                return mk('bm', self.member_fun(fi),
                          recv if recv.op == 'cls' else ty.term)
            return mk('bm', self.member_fun(fi), recv)
        return self.class_expr(o, name, m[1])

    def _getattr_cls(self, v, name, default):
        c = self.w.classes[v.args[0]]
        if name == '__name__':
            return const(c.name)
        if name == '__qualname__':
            return const(c.name)
        if name == '__mro__':
            return seq(*[k.term if isinstance(k, ClassInfo) else ext(k)
                         for k in self.w.mro(c)])
        o, m = self.w.find_member(c, name)
        if m is None:
            if default is not None:
                return default
            if name == '__init__':
                return mk('builtin', 'noop')
            if self.w.ext_bases(c):
                return attr(v, name)
            if name == '__new__':
                return mk('unbound', 'object', '__new__')
            if name in ('__class__', '__dict__', '__module__'):
                return attr(v, name)
            self.raise_type('AttributeError', TRUE, (const(name),))
            return UNDEF
        if m[0] == 'func':
            k = self.member_kind(c, o, m[1])
            if k == 'class':
                return mk('bm', self.member_fun(m[1]), v)
            if k in ('property', 'cached'):
                return mk('descr', o.qual, name)
            if k == 'other':
                return self.decorated(m[1])
            return self.member_fun(m[1])
        return self.class_expr(o, name, m[1])

    def _getattr_module(self, v, name):
        m = self.w.modules[v.args[0]]
        return self.global_name(m, name)

    def setattr(self, v, name, val, raw=False):
        if self.dead():
            return
        v = self.simp(v)
        if v.op == 'ite':
            self.branch_leaves(v, lambda x: (self.setattr(x, name, val), NONE)[1])
            return
        if v.op == 'ref':
            cls = self.rget(v, '$cls')
            if cls.op == 'cls':
                c = self.w.classes[cls.args[0]]
                if not raw:
                    m = self.lookup_method(cls, '__setattr__', v)
                    if m is not None:
                        self.call(m, [const(name), val], [])
                        return
                o, m = self.w.find_member(c, name)
                if m is not None and m[0] == 'func':
                    k = self.member_kind(c, o, m[1])
                    if k == 'property' or k == 'cached':
                        o2, m2 = self.w.find_member(c, name + '$setter')
                        if m2 is not None and self._setter_applies(c, o, o2):
                            self.call(mk('bm', self.member_fun(m2[1]), v), [val], [])
                            return
                        self.raise_type('AttributeError', TRUE, (const(name),))
                        return
            self.rset(v, name, val)
            return
        ty = self.typeof(v)
        if ty is not None:
            o, m = self.w.find_member(ty, name + '$setter')
            if m is not None and '%s.%s' % (o.name, name) not in self.opaque:
                self.call(mk('bm', self.member_fun(m[1]), v), [val], [])
                return
        self.event('write', v, name, val)
        self.st.heap[(v, name)] = val

    def _setter_applies(self, c, getter_owner, setter_owner):
        """a property redefined in a subclass hides the setter of its base"""
        mro = self.w.mro(c)
        return mro.index(setter_owner) <= mro.index(getter_owner)

    def delattr(self, v, name):
        v = self.simp(v)
        if v.op == 'ref':
            cls = self.rget(v, '$cls')
            cur = self.rget(v, name)
            if cur is UNDEF:
                self.raise_type('AttributeError', TRUE, (const(name),))
                return
            if cur.op == 'ite' and UNDEF in t.leafset(cur):
                cond = t.mapleaves(cur, lambda l: TRUE if l is UNDEF else FALSE)
                self.raise_type('AttributeError', cond, (const(name),))
            self.rset(v, name, UNDEF)
            return
        self.event('write', v, name, UNDEF)

    # ------------------------------------------------------------ containers
    def seq_of(self, v):
        """sequence term of an iterable value"""
        v = self.simp(v)
        if v.op == 'ite':
            return self.branch_leaves(v, self.seq_of)
        if t.is_str(v):
            return seq(*[const(c) for c in v.args[1]])
        if v.op == 'ref':
            k = self.kind[v.args[0]]
            if k == 'list':
                return self.simp(self.rget(v, '$seq'))
            if k == 'arr':
                return self.seq_of(self.rget(v, '$val'))
            if k == 'set':
                return self.set_iter(self.simp(self.rget(v, '$seq')))
            if k == 'dict':
                return t.dict_keys(self.simp(self.rget(v, '$dict')))
            if k == 'iter':
                s = self.rget(v, '$src')
                p = self.rget(v, '$pos')
                if p is ZERO:
                    return s
                if p is t.length(s):
                    return seq()
                return mk('slice', s, p, NONE, NONE)
            cls = self.rget(v, '$cls')
            if cls.op == 'cls':
                m = self.lookup_method(cls, '__iter__', v)
                if m is not None:
                    return self.seq_of(self.call(m, [], []))
                tup = self.rget(v, '$tuple')
                if tup is not UNDEF:
                    return tup
            return self.unk('iteration over object')
        ov = self.st.heap.get((v, '$seq'))
        if ov is not None:
            return ov
        ov = self.st.heap.get((v, '$dict'))
        if ov is not None:
            return t.dict_keys(ov)
        ty = self.typeof(v)
        if ty is not None:
            m = self.lookup_method(ty.term, '__iter__', v)
            if m is not None:
                return self.seq_of(self.call(m, [], []))
        if v.op == 'dict':
            return t.dict_keys(v)
        if v.op == 'setof':
            return self.set_iter(v.args[0])
        if t.is_str(v) and len(v.args[1]) <= 64:
            return seq(*[const(ch) for ch in v.args[1]])
        if v.op == 'npop' and v.args[0] == 'array' and len(v.args) == 2 and \
                v.args[1].op == 'seq':
            return v.args[1]
        if v.op == 'vars':
            return seq(*[const(k) for k in self.slots(v.args[0])
                         if not k.startswith('$')])
        if v.op == 'call' and v.args[0].op == 'ext' and \
                v.args[0].args[0] in ('view.keys',):
            return v.args[1][0]
        return v

    def consume(self, v):
        """sequence of the values of an iterable, which exhausts an iterator"""
        v = self.simp(v)
        if v.op == 'ref' and self.kind[v.args[0]] == 'iter':
            s = self.seq_of(v)
            self.rset(v, '$pos', t.length(self.rget(v, '$src')))
            return s
        if v.op == 'ite' and any(x.op == 'ref' and self.kind[x.args[0]] == 'iter'
                                 for x in t.leafset(v)):
            return self.branch_leaves(v, self.consume)
        return self.seq_of(v)

    def lazy(self, node, v):
        """the value of an expression which makes an iterator, when it is kept"""
        if v is UNDEF or self.dead():
            return v
        if isinstance(node, ast.GeneratorExp) or (
                isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and
                node.func.id in ('zip', 'map', 'filter', 'enumerate', 'reversed')):
            v = self.simp(v)
            if v.op != 'ite' and v.op != 'ref':
                return self.alloc('iter', [('$src', v), ('$pos', ZERO)])
        return v

    def set_iter(self, s):
        if s.op == 'ite':
            return ite(s.args[0], self.set_iter(s.args[1]), self.set_iter(s.args[2]))
        if self.setorder and s.op == 'seq':
            s = t.setof(s).args[0]
            return s if self.setorder == 'f' else t.rev(s)
        return self.lib.unordered(s)

    def dict_of(self, v):
        """dict term of a mapping value"""
        v = self.simp(v)
        if v.op == 'ite':
            return self.branch_leaves(v, self.dict_of)
        if v.op == 'ref':
            k = self.kind[v.args[0]]
            if k == 'dict':
                return self.simp(self.rget(v, '$dict'))
            if k in ('list', 'set', 'iter'):
                return t.dict_(self.pairs_from(self.seq_of(v)))
            cls = self.rget(v, '$cls')
            if cls.op == 'cls':
                c = self.w.classes[cls.args[0]]
                o, m = self.w.find_member(c, '__getitem__')
                if m is not None:
                    ks = self.seq_of(v)
                    return t.dict_(self.map_seq(
                        ks, lambda e: t.pair(e, self.getitem(v, e))))
        if v.op == 'vars':
            return self.vars_dict(v)
        ov = self.st.heap.get((v, '$dict'))
        if ov is not None:
            return ov
        ty = self.typeof(v)
        if ty is not None and ty.name not in ('Parameter', 'Variable'):
            o, m = self.w.find_member(ty, '__getitem__')
            if m is not None and '%s.__getitem__' % o.name not in self.opaque:
                ks = self.seq_of(v)
                return t.dict_(self.map_seq(
                    ks, lambda e: t.pair(e, self.getitem(v, e))))
        if v.op in ('seq', 'map', 'cat'):
            return t.dict_(self.pairs_from(v))
        return v

    def vars_dict(self, v):
        ref = v.args[0]
        ps = []
        for k in self.slots(ref):
            if k.startswith('$'):
                continue
            val = self.rget(ref, k)
            if val is UNDEF:
                continue
            if UNDEF in t.leafset(val):
                present = t.mapleaves(val, lambda l: FALSE if l is UNDEF else TRUE)
                vv = t._drop_dontcare(t.mapleaves(
                    val, lambda l: t.DONTCARE if l is UNDEF else l))
                ps.append(ite(present, seq(t.pair(const(k), vv)), seq()))
            else:
                ps.append(seq(t.pair(const(k), val)))
        return t.dict_(cat(*ps)) if ps else mk('dict', seq())

    def pairs_from(self, s):
        """pairs sequence from a sequence of 2-tuples"""
        def f(e):
            if e.op == 'pair':
                return e
            return t.pair(self.getitem(e, ZERO), self.getitem(e, ONE))
        return self.map_seq(s, f)

    def map_seq(self, s, f):
        """elementwise through the loop machinery (f may have effects)"""
        out = self.new_list(seq())

        def body(e):
            r = f(e)
            if not self.dead():
                self.rset(out, '$seq', cat(self.rget(out, '$seq'), seq(r)))
        self.loop(s, body)
        if self.dead():
            return seq()
        return self.rget(out, '$seq')

    def filter_seq(self, s, f):
        out = self.new_list(seq())

        def body(e):
            c = truth(f(e))
            cur = self.rget(out, '$seq')
            self.rset(out, '$seq', cat(cur, ite(c, seq(e), seq())))
        self.loop(s, body)
        return self.rget(out, '$seq')

    # ------------------------------------------------------------ loops
    def iv_for(self, D):
        n = sum(1 for v in self.ivs if v.args[0] is D)
        return mk('iv', D, n)

    def loop(self, s, body, breakable=True):
        """for e in s: body(e).  Handles break/continue exits raised in body.
        Returns the condition under which the loop was left by break."""
        if self.dead():
            return FALSE
        s = self.simp(s)
        if s.op == 'ite':
            return self.split(s.args[0], lambda: self.loop(s.args[1], body),
                              lambda: self.loop(s.args[2], body))
        if s.op == 'seq':
            return self.loop_literal(s.args[0], body)
        if s.op == 'cat':
            return self.loop_parts(list(s.args[0]), body)
        if s.op == 'flat':
            inner = s.args[0]
            if inner.op == 'map':
                return self.loop_general(
                    inner, lambda e: self._inner_loop(e, body))
            return self.loop_general(s, body)
        if s.op == 'pairs' and not s.args[1]:
            return self.loop_general(t.dict_pairs(s.args[0]), body)
        return self.loop_general(s, body)

    def _inner_loop(self, e, body):
        b = self.loop(self.seq_of(e), body)
        if b is not FALSE:
            # break of the flattened loop leaves the outer one as well
            self.exit_if(b, 'break')

    def exit_if(self, c, kind):
        c = self.simp(c)
        if c is FALSE:
            return
        st = self.st.copy()
        st.pc = and_(st.pc, c)
        self.exits.append(Exit(kind, st.pc, NONE, st))
        self.assume(not_(c))

    def loop_parts(self, parts, body):
        if not parts:
            return FALSE
        b = self.loop(parts[0], body)
        if self.dead():
            return b
        if b is FALSE:
            return self.loop_parts(parts[1:], body)
        if b is TRUE:
            return TRUE
        return self.split(b, lambda: TRUE, lambda: self.loop_parts(parts[1:], body))

    def loop_literal(self, items, body):
        if not items or self.dead():
            return FALSE
        outer = self.exits
        self.exits = []
        pc0 = self.st.pc
        body(items[0])
        ex, self.exits = self.exits, outer
        brk, cont = [], []
        for e in ex:
            if e.cond is FALSE:
                continue
            if e.kind == 'break':
                brk.append(e)
            elif e.kind == 'continue':
                cont.append(e)
            else:
                self.exits.append(e)
        normal = [] if self.dead() else [Exit('n', self.st.pc, NONE, self.st)]
        allc = cont + normal
        if brk:
            if allc:
                bc = or_(*[e.cond for e in brk])
                _, bst = self.merge_exits(brk)
                _, cst = self.merge_exits(allc)
                bst.pc = bc
                cst.pc = or_(*[e.cond for e in allc])
                rel = bc
                self.st = cst
                r = self.loop_literal(items[1:], body)
                c2 = self.st
                self.st = self.merge(rel, bst, c2)
                return ite(self.simp(rel), TRUE, r) if c2.pc is not FALSE else rel
            _, bst = self.merge_exits(brk)
            bst.pc = or_(*[e.cond for e in brk])
            self.st = bst
            return TRUE
        if not allc:
            self.st.pc = FALSE
            return FALSE
        if cont:
            _, cst = self.merge_exits(allc)
            cst.pc = or_(*[e.cond for e in allc])
            self.st = cst
        return self.loop_literal(items[1:], body)

    def loop_general(self, s, body):
        if s.op == 'map':
            D = s.args[0]
            iv = self.iv_for(D)
            _, guard, elem = t.opened(s, iv)
        elif s.op == 'range':
            D = t.range_dom(s.args[0])
            iv = self.iv_for(D)
            guard, elem = TRUE, iv
        elif s.op == 'unordered':
            D = t.dom(s)
            iv = self.iv_for(D)
            guard, elem = TRUE, mk('at', s, iv)
        else:
            D = t.dom_of(s)
            iv = self.iv_for(D)
            guard, elem = TRUE, at(s, iv)
        entry = self.st
        pc0 = entry.pc
        outer_exits = self.exits
        mark = self.nref
        M = {}
        self.nacc += 1
        loopid = self.nacc
        nev = len(self.events)
        for attempt in range(8):
            self.tick()
            st = entry.copy()
            st.pc = TRUE
            for slot, a in M.items():
                st.heap[slot] = a
            self.st = st
            self.exits = []
            self.ivs.append(iv)
            self.ctx.append(pc0)
            del self.events[nev:]
            try:
                if guard is TRUE:
                    body(elem)
                else:
                    self.split(guard, lambda: (body(elem), NONE)[1], lambda: NONE)
            finally:
                self.ivs.pop()
                self.ctx.pop()
            ex, self.exits = self.exits, outer_exits
            conts = [e for e in ex if e.kind == 'continue' and e.cond is not FALSE]
            outs = [e for e in ex if e.kind != 'continue' and e.cond is not FALSE]
            if not self.dead():
                conts.append(Exit('n', self.st.pc, NONE, self.st))
            if conts:
                _, end = self.merge_exits(conts)
            else:
                end = None
            new = {}
            for hst in ([end] if end is not None else []) + [
                    e.st for e in outs if e.kind != 'raise']:
                for slot, v in hst.heap.items():
                    if slot in M or slot in new:
                        continue
                    rid = slot[0]
                    if isinstance(rid, int):
                        if rid > mark:
                            continue
                        if iv in self.formals[rid]:
                            continue       # pointwise update of a family
                    elif iv in rid.fv:
                        continue           # overlay on a per-element object
                    old = entry.heap.get(slot)
                    if old is None:
                        old = self._missing(slot, entry.heap)
                    if v is not old:
                        new[slot] = mk('acc', loopid, len(M) + len(new))
            if not new:
                break
            M.update(new)
        else:
            self.unmodelled.append('loop fixpoint')
        return self.close_loop(D, iv, entry, pc0, M, end, outs)

    def close_loop(self, D, iv, entry, pc0, M, end, outs):
        inits = {}
        for slot in M:
            v = entry.heap.get(slot)
            inits[slot] = v if v is not None else self._missing(slot, entry.heap)
        acc2slot = {a: s for s, a in M.items()}
        accs = set(acc2slot)
        outs = self._alike(outs)
        trans = {}
        if end is not None:
            for slot, a in M.items():
                trans[slot] = end.heap.get(slot, UNDEF)
        else:
            for slot, a in M.items():
                trans[slot] = a
        # conditions under which the loop is left
        exit_c = or_(*[e.cond for e in outs]) if outs else FALSE
        if exit_c is not FALSE:
            lits = t.literals(not_(exit_c))
            for slot in trans:
                for a, v in lits:
                    trans[slot] = t.assume(trans[slot], a, v)
        at_iter = {}      # acc -> value at the start of iteration iv
        closed = {}       # slot -> value after the loop
        todo = dict(trans)
        progress = True

        def has_acc(x):
            return any(a in accs for a in x.fv)
        while progress and todo:
            progress = False
            for slot in list(todo):
                a = M[slot]
                f = t.subst(todo[slot], at_iter) if at_iter else todo[slot]
                todo[slot] = f
                if f is a:
                    at_iter[a] = inits[slot]
                    closed[slot] = inits[slot]
                    del todo[slot]
                    progress = True
                    continue
                d = self._delta(f, a, accs)
                if d is not None:
                    closed[slot] = t.add(inits[slot], t.sum_(D, iv, TRUE, d))
                    w = t.fresh()
                    at_iter[a] = t.add(inits[slot], t.psum(
                        D, w, TRUE, t.subst(d, {iv: w}), iv))
                    del todo[slot]
                    progress = True
        # remaining: appends, last values, dict stores
        for slot in list(todo):
            a = M[slot]
            f = t.subst(todo[slot], at_iter)
            todo[slot] = f
        prefix = {}
        for slot in list(todo):
            a = M[slot]
            f = todo[slot]
            r = self._closed_form(D, iv, f, a, accs, inits[slot], slot)
            if r is not None:
                closed[slot] = r
                prefix[a] = mk('prefix', r, iv)
                del todo[slot]
        if todo:
            r = self._flag_loops(D, iv, todo, M, accs, inits)
            for slot, v in r.items():
                closed[slot] = v
                del todo[slot]
        if todo:
            # generic fold over the remaining mutually dependent slots
            for names in self._sccs(todo, M):
                ren = {M[s]: t.sym('$acc%d' % k) for k, s in enumerate(names)}
                for s2 in M:
                    if M[s2] not in ren:
                        ren[M[s2]] = mk('prefix', closed[s2], iv) \
                            if s2 in closed else mk('prefix', UNDEF, iv)
                tr = seq(*[t.subst(todo[s], ren) for s in names])
                ini = seq(*[inits[s] for s in names])
                for k, s in enumerate(names):
                    closed[s] = t.bound('fold', D, iv, ini, tr, const(k))
            self.unmodelled.append('fold')
        # build the state after normal completion
        def build(base):
            st = base.copy()
            return st
        st = entry.copy()
        if end is not None:
            for slot, v in end.heap.items():
                if slot not in M:
                    st.heap[slot] = v
        for slot, v in closed.items():
            st.heap[slot] = v
        st.pc = pc0
        if exit_c is FALSE:
            self.st = st
            return FALSE
        sub = dict(at_iter)
        sub.update(prefix)
        for s2 in M:
            if M[s2] not in sub:
                sub[M[s2]] = mk('prefix', closed.get(s2, UNDEF), iv)
        E = t.subst(exit_c, sub)
        found = t.exists(D, iv, E)
        j = t.first(D, iv, E)
        jm = {iv: j}
        brk_c = FALSE
        brk = []
        for e in outs:
            c = t.subst(t.subst(e.cond, sub), jm)
            val = t.subst(t.subst(e.val, sub), jm)
            if e.kind == 'raise' and exit_c is e.cond:
                c = TRUE
            es = St(dict(entry.heap), TRUE, dict(entry.lits))
            for slot, v in e.st.heap.items():
                rid = slot[0]
                if slot in M or (isinstance(rid, int) and entry.heap.get(slot) is not v):
                    if isinstance(rid, int) and iv in self.formals.get(rid, ()):
                        es.heap[slot] = v
                        continue
                    es.heap[slot] = t.subst(t.subst(v, sub), jm)
            cc = and_(found, c) if len(outs) > 1 else found
            es.pc = and_(pc0, cc)
            if e.kind == 'break':
                brk.append((cc, es))
                brk_c = or_(brk_c, cc)
            else:
                self.exits.append(Exit(e.kind, es.pc, val, es))
        self.st = st
        others = found if not brk else None
        if brk:
            notfound = not_(found)
            st.pc = and_(pc0, notfound)
            for a, v in t.literals(notfound):
                st.lits[a] = v
            cur = st
            for cc, es in reversed(brk):
                cur = self.merge(cc, es, cur)
            self.st = cur
            return brk_c
        self.assume(not_(found))
        return FALSE

    def _alike(self, outs):
        """exits of a loop which leave it in the same way count as one"""
        res = []

        def lasting(e):
            if e.kind != 'return' or not self.rids or self.stack[-1].nested:
                return e.st.heap
            fi, rid = self.stack[-1], self.rids[-1]     # its locals end here
            return {k: v for k, v in e.st.heap.items()
                    if k[0] != rid or k[1] not in fi.locals}
        for e in outs:
            for k, f in enumerate(res):
                if e.kind == f.kind and e.kind != 'raise' and e.val is f.val and \
                        lasting(e) == lasting(f):
                    res[k] = Exit(f.kind, or_(f.cond, e.cond), f.val, f.st)
                    break
            else:
                res.append(e)
        return res

    def _sccs(self, todo, M):
        slots = sorted(todo, key=lambda s: M[s].args[1])
        dep = {s: set(r for r in slots if M[r] in todo[s].fv) for s in slots}
        reach = {}
        for s in slots:
            seen, work = set(), [s]
            while work:
                for r in dep[work.pop()]:
                    if r not in seen:
                        seen.add(r)
                        work.append(r)
            reach[s] = seen
        out, done = [], set()
        # callees first
        for s in sorted(slots, key=lambda s: (len(reach[s]), M[s].args[1])):
            if s in done:
                continue
            comp = [s] + [r for r in slots if r is not s and r in reach[s]
                          and s in reach[r]]
            comp.sort(key=lambda r: M[r].args[1])
            done.update(comp)
            out.append(comp)
        return out

    def _delta(self, f, a, accs):
        """f = a + delta with delta free of accumulators, else None"""
        ls = t.leafset(f)
        # conditions must not depend on accumulators
        if any(x in accs and x is not a for x in f.fv):
            return None
        ok = False
        for l in ls:
            if l is a:
                continue
            if l.op != 'poly':
                return None
            d = t.sub(l, a)
            if a in d.fv:
                return None
            ok = True
        if not ok:
            return None
        if self._cond_acc(f, accs):
            return None
        return t.mapleaves(f, lambda l: t.sub(l, a))

    def _cond_acc(self, f, accs):
        if f.op == 'ite':
            return any(x in accs for x in f.args[0].fv) or \
                self._cond_acc(f.args[1], accs) or self._cond_acc(f.args[2], accs)
        return False

    def _closed_form(self, D, iv, f, a, accs, init, slot):
        if self._cond_acc(f, accs):
            return None
        ls = t.leafset(f)

        def free(x):
            return not any(y in accs for y in x.fv)
        # last value
        if all(l is a or free(l) for l in ls):
            cond = t.mapleaves(f, lambda l: FALSE if l is a else TRUE)
            val = t._drop_dontcare(t.mapleaves(
                f, lambda l: t.DONTCARE if l is a else l))
            return t.last(D, iv, cond, val, init)

        # append
        def app(l):
            if l is a:
                return seq()
            if l.op == 'cat' and l.args[0][0] is a:
                x = cat(*l.args[0][1:])
                return x if free(x) else None
            return None
        if all(app(l) is not None for l in ls):
            x = t.mapleaves(f, app)
            return cat(init, t.flatmap(D, iv, TRUE, x))

        # prepend
        # dict stores
        def dst(l):
            if l is a:
                return seq()
            if l.op == 'dict':
                p = l.args[0]
                if p.op == 'pairs' and p.args[0] is a and not p.args[1]:
                    return seq()
                if p.op == 'cat' and p.args[0][0].op == 'pairs' and \
                        p.args[0][0].args[0] is a and not p.args[0][0].args[1]:
                    x = cat(*p.args[0][1:])
                    return x if free(x) else None
            return None
        if slot[1] == '$dict' and all(dst(l) is not None for l in ls):
            x = t.mapleaves(f, dst)
            ip = init.args[0] if init.op == 'dict' else mk('pairs', init, ())
            if init.op == 'ite':
                return t.lift(lambda i0: t.dict_(cat(
                    i0.args[0] if i0.op == 'dict' else mk('pairs', i0, ()),
                    t.flatmap(D, iv, TRUE, x))), init)
            return t.dict_(cat(ip, t.flatmap(D, iv, TRUE, x)))

        # pointwise stores into a sequence: acc[iv] = x
        def pst(l):
            if l is a:
                return t.DONTCARE
            if l.op == 'setitem' and l.args[0] is a and l.args[1] is iv:
                x = l.args[2]
                # may read its own old element
                x = t.subst(x, {mk('at', a, iv): at(init, iv)})
                return x if free(x) else None
            return None
        if all(pst(l) is not None for l in ls):
            cond = t.mapleaves(f, lambda l: FALSE if l is a else TRUE)
            x = t._drop_dontcare(t.mapleaves(f, pst))
            full = t.dom_of(init)
            val = ite(cond, x, at(init, iv))
            if D is full or t.LEN_EQ.get(D) is full or \
                    set(full.args[0]) <= set(D.args[0]):
                return t.map_(D, iv, TRUE, val)
            return t.bound('scatter', D, iv, init, val)
        # elementwise accumulation by an inner loop: acc[j] += g(i, j)
        def scat(l):
            if l is a:
                return True
            if l.op != 'scatter' or l.args[2] is not a:
                return False
            w = t.fresh()
            val = t.opened(l, w)[-1]
            own = mk('at', a, w)
            d = t.sub(val, own)
            return free(d)
        if any(l is not a for l in ls) and all(scat(l) for l in ls):
            full = t.dom_of(init)
            w = mk('iv', full, sum(1 for v in self.ivs + [iv] if v.args[0] is full))

            def delta(l):
                if l is a:
                    return t.ZERO
                val = t.opened(l, w)[-1]
                return t.sub(val, mk('at', a, w))
            g = t.mapleaves(f, delta)
            return t.map_(full, w, TRUE, t.add(at(init, w), t.sum_(D, iv, TRUE, g)))
        # product
        return None

    def _flag_loops(self, D, iv, todo, M, accs, inits):
        """dictionary re-keying: acc' = acc with key k(i) moved to v(i)"""
        out = {}
        for slot in todo:
            a, f = M[slot], todo[slot]
            if slot[1] != '$dict' or any(x in accs and x is not a for x in f.fv):
                continue
            r = self._rekey(D, iv, f, a, inits[slot], accs)
            if r is not None:
                out[slot] = r
        return out

    def _rekey(self, D, iv, f, a, init, accs):
        # ite(k in acc, dict(pairs(acc, minus k) ++ [v: acc[k]]), acc)
        if f.op != 'ite':
            return None
        c, hi, lo = f.args
        if lo is not a and not (lo.op == 'dict' and lo.args[0].op == 'pairs'
                                and lo.args[0].args[0] is a):
            return None
        if c.op != 'in' or c.args[1] is not a:
            return None
        k = c.args[0]
        if hi.op != 'dict' or hi.args[0].op != 'cat':
            return None
        ps = hi.args[0].args[0]
        if len(ps) != 2 or ps[1].op != 'seq' or len(ps[1].args[0]) != 1:
            return None
        q = ps[1].args[0][0]
        if ps[0].op != 'dictdel' or ps[0].args[1] is not k:
            return None
        if q.op != 'pair' or any(x in accs for x in q.args[0].fv):
            return None
        if q.args[1] is not mk('item', a, k):
            return None
        return t.bound('rekey', D, iv, init, k, q.args[0])

    # ------------------------------------------------------------ names
    def load_name(self, name, frame):
        fr = frame
        while fr is not NONE and fr.op == 'ref':
            env = self.envs[fr.args[0]]
            if name in env.names:
                v = self.rget(fr, name)
                if v is UNDEF:
                    if env.comp:
                        fr = self.rget(fr, '$parent')
                        continue
                    self.raise_type('NameError', TRUE, (const(name),))
                    return UNDEF
                return v
            nxt = self.rget(fr, '$parent', None)
            if nxt is not None and nxt.op == 'ite':
                nxt = self.simp(nxt)
                ls = [l for l in t.leafset(nxt) if l is not UNDEF]
                if len(ls) == 1:
                    nxt = ls[0]
            if nxt is None or nxt is NONE:
                return self.global_name(env.module, name)
            fr = nxt
        return UNDEF

    def global_name(self, m, name):
        k = ('g', m.name, name)
        if k in self.gl:
            return self.gl[k]
        r = self.w.lookup(m, name)
        if r is None:
            v = self.lib.builtin_name(self, name)
        elif r[0] == 'class':
            v = r[1].term
        elif r[0] == 'func':
            fi = r[1]
            if fi.node.decorator_list:
                v = self.decorated(fi)
            else:
                v = self.global_fun(fi)
        elif r[0] == 'ext':
            v = self.lib.ext_value(self, r[1])
        elif r[0] == 'module':
            v = mk('module', r[1].name)
        elif r[0] == 'expr':
            v = self._in_base(lambda: self.expr(r[1], self._modenv(r[2])))
        else:
            v = UNDEF
        self.gl[k] = v
        return v

    def store_name(self, name, frame, val):
        fr = frame
        env = self.envs[fr.args[0]]
        while name not in env.names:
            nxt = self.rget(fr, '$parent', None)
            if nxt is None or nxt is NONE:
                self.rset(frame, name, val)
                return
            fr = nxt
            env = self.envs[fr.args[0]]
        self.rset(fr, name, val)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            if self.dead():
                return
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unmodelled.append('statement ' + type(s).__name__)
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            nm = (a.asname or a.name).split('.')[0]
            r = self.w.resolve_dotted(a.name if a.asname else a.name.split('.')[0])
            self.store_name(nm, fr, self._resolved(r))

    def _resolved(self, r):
        if r[0] == 'class':
            return r[1].term
        if r[0] == 'func':
            return self.global_fun(r[1])
        if r[0] == 'module':
            return mk('module', r[1].name)
        if r[0] == 'expr':
            return self._in_base(lambda: self.expr(r[1], self._modenv(r[2])))
        return self.lib.ext_value(self, r[1])

    def s_ImportFrom(self, s, fr):
        f = fr
        env = self.envs[fr.args[0]]
        src = self.w._absname(env.module, s)
        for a in s.names:
            r = self.w.resolve_dotted(src + '.' + a.name if src else a.name)
            self.store_name(a.asname or a.name, fr, self._resolved(r))

    def s_Global(self, s, fr):
        self.unmodelled.append('global')

    def s_Nonlocal(self, s, fr):
        pass

    def s_FunctionDef(self, s, fr):
        env = self.envs[fr.args[0]]
        fi = self.w.func(s, env.module)
        if not fi.fid.startswith(env.module.name):
            pass
        g = self._mkfun(fi, fr, fr)
        for d in reversed(s.decorator_list):
            dv = self.expr(d, fr)
            g = self.call(dv, [g], [])
        self.store_name(s.name, fr, g)

    def s_ClassDef(self, s, fr):
        bases = [self.expr(b, fr) for b in s.bases]
        members = []
        for n in s.body:
            if isinstance(n, ast.FunctionDef):
                fi = self.w.func(n, self.envs[fr.args[0]].module)
                members.append(seq(const(n.name), self._mkfun(fi, fr, fr)))
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        members.append(seq(const(x.id), self.expr(n.value, fr)))
        b = seq(*bases)
        v = t.lift(lambda x: self.dyncls(x, members), b)
        self.store_name(s.name, fr, v)

    def dyncls(self, b, members):
        if not members and b.op == 'seq' and b.args[0] and all(
                x.op == 'cls' for x in b.args[0]):
            return self.w.dynclass([self.w.classes[x.args[0]] for x in b.args[0]]).term
        return mk('dyncls', b, tuple(members))

    def s_Return(self, s, fr):
        v = self.lazy(s.value, self.expr(s.value, fr)) if s.value is not None else NONE
        if self.dead():
            return
        st = self.st
        self.exits.append(Exit('return', st.pc, v, st))
        self.st = St(st.heap, FALSE, st.lits)

    def s_Raise(self, s, fr):
        if s.exc is None:
            v = self.cur_exc[-1] if getattr(self, 'cur_exc', None) else \
                mk('exc', 'reraise', NONE)
        else:
            v = self.expr(s.exc, fr)
            if v.op == 'cls' or v.op == 'ext':
                v = mk('new', v, (), ())
        if self.dead():
            return
        self.raise_(v)
        self.st.pc = FALSE

    def s_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        if self.dead():
            return
        self.raise_type('AssertionError', not_(c))

    def s_Delete(self, s, fr):
        for x in s.targets:
            if isinstance(x, ast.Attribute):
                self.delattr(self.expr(x.value, fr), x.attr)
            elif isinstance(x, ast.Subscript):
                o = self.expr(x.value, fr)
                k = self.expr(x.slice, fr)
                self.lib.delitem(self, o, k)
            elif isinstance(x, ast.Name):
                self.store_name(x.id, fr, UNDEF)

    def s_Assign(self, s, fr):
        v = self.lazy(s.value, self.expr(s.value, fr))
        for x in s.targets:
            if self.dead():
                return
            self.assign(x, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        x = s.target
        if isinstance(x, ast.Name):
            cur = self.load_name(x.id, fr)
            v = self.augop(s.op, cur, self.expr(s.value, fr))
            self.store_name(x.id, fr, v)
        elif isinstance(x, ast.Attribute):
            o = self.expr(x.value, fr)
            cur = self.getattr(o, x.attr)
            v = self.augop(s.op, cur, self.expr(s.value, fr))
            self.setattr(o, x.attr, v)
        elif isinstance(x, ast.Subscript):
            o = self.expr(x.value, fr)
            k = self.expr(x.slice, fr)
            cur = self.getitem(o, k)
            v = self.augop(s.op, cur, self.expr(s.value, fr))
            self.setitem(o, k, v)

    def augop(self, op, cur, val):
        cur = self.simp(cur)
        if cur.op == 'ref' and self.kindof(cur) == 'list' and \
                isinstance(op, ast.Add):
            self.rset(cur, '$seq', cat(self.rget(cur, '$seq'), self.consume(val)))
            return cur
        if cur.op == 'ref' and self.kindof(cur) == 'dict' and \
                isinstance(op, ast.BitOr):
            self.lib.call_method(self, cur, 'update', [val], [])
            return cur
        if cur.op == 'ref' and self.kindof(cur) == 'set' and \
                isinstance(op, ast.BitOr):
            self.lib.call_method(self, cur, 'update', [val], [])
            return cur
        return self.lib.binop(self, type(op).__name__, cur, val)

    def assign(self, x, v, fr):
        if isinstance(x, ast.Name):
            self.store_name(x.id, fr, v)
        elif isinstance(x, ast.Attribute):
            self.setattr(self.expr(x.value, fr), x.attr, v)
        elif isinstance(x, ast.Subscript):
            o = self.expr(x.value, fr)
            k = self.expr(x.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(x, (ast.Tuple, ast.List)):
            self.unpack(x.elts, v, fr)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v, fr)

    def unpack(self, elts, v, fr):
        v = self.simp(v)
        if v.op == 'ref' or v.op in ('dict', 'setof'):
            v = self.consume(v)
        if v.op == 'pair':
            v = seq(*v.args)
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if stars:
            k = stars[0]
            after = n - k - 1
            for j in range(k):
                self.assign(elts[j], self.getitem(v, const(j)), fr)
            mid = self.lib.slice_seq(v, const(k),
                                     const(-after) if after else NONE, NONE)
            self.assign(elts[k], self.new_list(mid), fr)
            for j in range(after):
                self.assign(elts[n - after + j],
                            self.getitem(v, const(j - after)), fr)
            return
        for j, e in enumerate(elts):
            if isinstance(v, T) and v.op == 'ite':
                vv = t.lift(lambda z: self._unpack_item(z, j), v)
            else:
                vv = self._unpack_item(v, j)
            self.assign(e, vv, fr)

    def _unpack_item(self, v, j):
        if v.op == 'pair':
            return v.args[j]
        if v.op == 'ref':
            v = self.seq_of(v)
        return at(v, const(j))

    def s_If(self, s, fr):
        c = self.cond(s.test, fr)
        if self.dead():
            return
        self.split(c, lambda: (self.block(s.body, fr), NONE)[1],
                   lambda: (self.block(s.orelse, fr), NONE)[1])

    def cond(self, e, fr):
        v = self.expr(e, fr)
        return self.truth(v)

    def truth(self, v):
        v = self.simp(v)
        if v.op == 'ite' and any(l.op in ('ref', 'undef') or
                                 self.typeof(l) is not None
                                 for l in t.leafset(v)):
            return self.branch_leaves(v, self.truth)
        if v.op == 'ref':
            k = self.kind[v.args[0]]
            if k in ('list', 'set'):
                return truth(self.simp(self.rget(v, '$seq')))
            if k == 'dict':
                return truth(self.simp(self.rget(v, '$dict')))
            cls = self.rget(v, '$cls')
            if cls.op == 'cls':
                m = self.lookup_method(cls, '__bool__', v)
                if m is not None:
                    return self.truth(self.call(m, [], []))
                m = self.lookup_method(cls, '__len__', v)
                if m is not None:
                    return truth(self.call(m, [], []))
            return TRUE
        ov = self.st.heap.get((v, '$dict')) or self.st.heap.get((v, '$seq'))
        if ov is not None:
            return truth(ov)
        return self.simp(truth(v))

    def s_For(self, s, fr):
        it = self.expr(s.iter, fr)
        if self.dead():
            return
        sq = self.consume(it)

        def body(e):
            self.assign(s.target, e, fr)
            self.block(s.body, fr)
        b = self.loop(sq, body)
        if s.orelse and not self.dead():
            if b is FALSE:
                self.block(s.orelse, fr)
            elif b is not TRUE:
                self.split(b, lambda: NONE,
                           lambda: (self.block(s.orelse, fr), NONE)[1])

    def s_While(self, s, fr):
        # finite unrolling when the condition is decided; otherwise opaque
        for n in range(64):
            c = self.cond(s.test, fr)
            if self.dead():
                return
            c = self.simp(c)
            if c is FALSE:
                self.block(s.orelse, fr)
                return
            if c is not TRUE:
                break
            outer = self.exits
            self.exits = []
            self.block(s.body, fr)
            ex, self.exits = self.exits, outer
            stop = [e for e in ex if e.kind == 'break' and e.cond is not FALSE]
            cont = [e for e in ex if e.kind == 'continue' and e.cond is not FALSE]
            for e in ex:
                if e.kind in ('return', 'raise'):
                    self.exits.append(e)
            if stop:
                if len(stop) == 1 and self.dead() and not cont:
                    self.st = stop[0].st
                    return
                break
            if cont:
                if not self.dead():
                    cont.append(Exit('n', self.st.pc, NONE, self.st))
                _, self.st = self.merge_exits(cont)
                self.st.pc = or_(*[e.cond for e in cont])
            if self.dead():
                return
        conv = self._while_as_for(s, fr)
        if conv:
            return
        self.unmodelled.append('while')
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for n in names:
            self.store_name(n, fr, self.unk('while'))
        # objects mutated in the body are unknown as well
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name):
                v = self.load_name(n.func.value.id, fr)
                if v.op == 'ref':
                    for k in CONTAINER_SLOTS:
                        if (v.args[0], k) in self.st.heap:
                            self.st.heap[(v.args[0], k)] = self.unk('while')

    def _while_as_for(self, s, fr):
        """i = 0; while i < n: ...; i += 1"""
        te = s.test
        if not (isinstance(te, ast.Compare) and len(te.ops) == 1 and
                isinstance(te.ops[0], (ast.Lt, ast.NotEq)) and
                isinstance(te.left, ast.Name)):
            return False
        i = te.left.id
        incs = [n for n in s.body if isinstance(n, ast.AugAssign) and
                isinstance(n.target, ast.Name) and n.target.id == i and
                isinstance(n.op, ast.Add) and
                isinstance(n.value, ast.Constant) and n.value.value == 1]
        stores = [n for n in ast.walk(s) if isinstance(n, ast.Name) and
                  n.id == i and isinstance(n.ctx, ast.Store)]
        if len(incs) != 1 or len(stores) != 1 or s.body[-1] is not incs[0]:
            return False
        if any(isinstance(n, ast.Continue) for n in ast.walk(s)):
            return False
        if self.simp(self.load_name(i, fr)) is not ZERO:
            return False
        n = self.expr(te.comparators[0], fr)
        sq = mk('range', n)
        if n.op == 'num':
            return False

        def body(e):
            self.store_name(i, fr, e)
            self.block(s.body[:-1], fr)
        b = self.loop(sq, body)
        if b is FALSE:
            self.store_name(i, fr, n)
        return True

    def s_Break(self, s, fr):
        st = self.st
        self.exits.append(Exit('break', st.pc, NONE, st))
        self.st = St(st.heap, FALSE, st.lits)

    def s_Continue(self, s, fr):
        st = self.st
        self.exits.append(Exit('continue', st.pc, NONE, st))
        self.st = St(st.heap, FALSE, st.lits)

    def s_With(self, s, fr):
        for i in s.items:
            v = self.expr(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        self.block(s.body, fr)

    def _handler_types(self, h, fr):
        if h.type is None:
            return [ext('BaseException')]
        v = self.expr(h.type, fr)
        if v.op == 'seq':
            return list(v.args[0])
        return [v]

    def s_Try(self, s, fr):
        hts = [(h, self._handler_types(h, fr)) for h in s.handlers]
        outer = self.exits
        self.exits = []
        self.handlers.append([x for _, ts in hts for x in ts])
        try:
            self.block(s.body, fr)
        finally:
            self.handlers.pop()
        ex, self.exits = self.exits, outer
        ends = []
        pend = []
        if not self.dead():
            if s.orelse:
                o2 = self.exits
                self.exits = []
                self.block(s.orelse, fr)
                mine, self.exits = self.exits, o2
                pend.extend(mine)
            if not self.dead():
                ends.append(Exit('n', self.st.pc, NONE, self.st))
        for e in ex:
            if e.cond is FALSE:
                continue
            if e.kind != 'raise':
                pend.append(e)
                continue
            handled = False
            for h, ts in hts:
                m = self._matches(e.val, ts)
                if m is False:
                    continue
                if m is None:
                    self.unmodelled.append('exception match')
                handled = True
                ends.extend(self._run_handler(h, e, fr, pend))
                break
            if not handled:
                pend.append(e)
        if s.finalbody:
            ends = self._finally(s.finalbody, ends, fr, pend, outer)
            pend = self._finally(s.finalbody, pend, fr, None, outer)
        self.exits = outer
        self.exits.extend(pend)
        if not ends:
            self.st = St(self.st.heap, FALSE, self.st.lits)
            return
        _, st = self.merge_exits(ends)
        st.pc = or_(*[e.cond for e in ends])
        self.st = st

    def attempt(self, f, types, g):
        """the value of f(), or that of g() where f raises one of the types"""
        outer, self.exits = self.exits, []
        self.handlers.append(types)
        try:
            v = f()
        finally:
            self.handlers.pop()
        ex, self.exits = self.exits, outer
        ends = []
        if not self.dead():
            ends.append(Exit('n', self.st.pc, v, self.st))
        for e in ex:
            if e.cond is FALSE:
                continue
            if e.kind != 'raise' or not self._matches(e.val, types):
                self.exits.append(e)
                continue
            self.st = e.st.copy()
            self.st.pc = e.cond
            v = g()
            if not self.dead():
                ends.append(Exit('n', self.st.pc, v, self.st))
        if not ends:
            self.st = St(self.st.heap, FALSE, self.st.lits)
            return UNDEF
        v, st = self.merge_exits(ends)
        st.pc = or_(*[e.cond for e in ends])
        self.st = st
        return v

    def _run_handler(self, h, e, fr, pend):
        save = self.exits
        self.exits = []
        self.st = e.st.copy()
        self.st.pc = e.cond
        if not hasattr(self, 'cur_exc'):
            self.cur_exc = []
        self.cur_exc.append(e.val)
        if h.name:
            self.store_name(h.name, fr, e.val)
        self.block(h.body, fr)
        self.cur_exc.pop()
        mine, self.exits = self.exits, save
        pend.extend(mine)
        if self.dead():
            return []
        return [Exit('n', self.st.pc, NONE, self.st)]

    def _finally(self, body, exits, fr, pend, outer):
        out = []
        for e in exits:
            self.st = e.st.copy()
            self.st.pc = e.cond
            save = self.exits
            self.exits = []
            self.block(body, fr)
            mine, self.exits = self.exits, save
            if pend is not None:
                pend.extend(mine)
            else:
                out.extend(mine)
            if not self.dead():
                out.append(Exit(e.kind, self.st.pc, e.val, self.st))
        return out

    def _matches(self, exc, types):
        """does an exception value match one of the handler types"""
        if exc.op == 'new':
            c = exc.args[0]
        elif exc.op == 'exc':
            c = ext(exc.args[0])
        else:
            return None
        for h in types:
            if h.op == 'ext' and h.args[0] in ('Exception', 'BaseException'):
                return True
            r = t.isa(c, h)
            if r:
                return True
            if c.op == 'cls' and h.op == 'ext':
                bases = t.ISA.get(c.args[0], ())
                if h.args[0] in bases or 'builtins.' + h.args[0] in bases:
                    return True
        return False

    # ------------------------------------------------------------ expressions
    def expr(self, e, fr):
        if self.dead():
            return UNDEF
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression ' + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return const(e.value)

    def e_Name(self, e, fr):
        v = self.load_name(e.id, fr)
        if v.op == 'ite' and self.st.lits:
            v = self.simp(v)
        if v.op == 'ite' and UNDEF in t.leafset(v):
            v = t._drop_dontcare(t.mapleaves(
                v, lambda l: t.DONTCARE if l is UNDEF else l))
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.expr(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return self._elements(e.elts, fr)

    def _elements(self, elts, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.consume(self.expr(x.value, fr)))
            else:
                parts.append(seq(self.expr(x, fr)))
        if self.dead():
            return UNDEF
        return cat(*parts) if parts else seq()

    def e_List(self, e, fr):
        s = self._elements(e.elts, fr)
        return self.new_list(s) if not self.dead() else UNDEF

    def e_Set(self, e, fr):
        return self.new_set(self._elements(e.elts, fr))

    def e_Dict(self, e, fr):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.dict_of(self.expr(v, fr))
                parts.append(t.lift(lambda x: x.args[0] if x.op == 'dict'
                                    else mk('pairs', x, ()), d))
            else:
                kk = self.expr(k, fr)
                parts.append(seq(t.pair(kk, self.expr(v, fr))))
        if self.dead():
            return UNDEF
        return self.new_dict(t.dict_(cat(*parts)) if parts else mk('dict', seq()))

    def e_Lambda(self, e, fr):
        env = self.envs[fr.args[0]]
        fi = self.w.func(e, env.module)
        return self._mkfun(fi, fr, fr)

    def e_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        return self.split(c, lambda: self.expr(e.body, fr),
                          lambda: self.expr(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.expr(vals[0], fr)
            if len(vals) == 1 or self.dead():
                return v
            c = self.truth(v)
            if isand:
                return self.split(c, lambda: go(vals[1:]), lambda: self._falsy(v, c))
            return self.split(c, lambda: self.simp(v), lambda: go(vals[1:]))
        return go(e.values)

    def _falsy(self, v, c):
        return self.simp(v)

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, fr))
        v = self.expr(e.operand, fr)
        return self.lib.unop(self, type(e.op).__name__, v)

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        if self.dead():
            return UNDEF
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, fr)
            if self.dead():
                return UNDEF
            res.append(self.lib.compare(self, type(op).__name__, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return and_(*[truth(r) for r in res])

    def e_Call(self, e, fr):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            return self.e_super(e, fr)
        fv = self.expr(f, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.expr(a.value, fr)))
            else:
                args.append(self.passed(fv, a, self.expr(a, fr)))
        kw = []
        for k in e.keywords:
            kw.append((k.arg or '**', self.passed(fv, k.value, self.expr(k.value, fr))))
        if self.dead():
            return UNDEF
        if fv.op == 'builtin' and fv.args[0] == 'vars' and not args:
            return self.unk('vars()')
        return self.call(fv, args, kw)

    def passed(self, fv, node, v):
        """an iterator handed to a function of the package"""
        if isinstance(node, (ast.GeneratorExp, ast.Call)) and fv is not UNDEF and \
                fv.op in ('fun', 'cls', 'bound', 'bm', 'partial'):
            return self.lazy(node, v)
        return v

    def e_super(self, e, fr):
        if e.args:
            c = self.expr(e.args[0], fr)
            s = self.expr(e.args[1], fr)
        else:
            f = fr
            env = self.envs[f.args[0]]
            while env.comp or env.fi is None or env.fi.cls is None:
                nxt = self.rget(f, '$parent', None)
                if nxt is None or nxt is NONE:
                    return self.unk('super')
                f = nxt
                env = self.envs[f.args[0]]
            c = env.fi.cls.term
            names = env.fi.posonly + env.fi.pos
            s = self.rget(f, names[0])
        return self.branch_leaves(c, lambda cc: mk('super', cc, s))

    def e_Subscript(self, e, fr):
        o = self.expr(e.value, fr)
        k = self.expr(e.slice, fr)
        if self.dead():
            return UNDEF
        return self.getitem(o, k)

    def e_Slice(self, e, fr):
        lo = self.expr(e.lower, fr) if e.lower is not None else NONE
        hi = self.expr(e.upper, fr) if e.upper is not None else NONE
        st = self.expr(e.step, fr) if e.step is not None else NONE
        return mk('sl', lo, hi, st)

    def e_Index(self, e, fr):
        return self.expr(e.value, fr)

    def e_Starred(self, e, fr):
        return self.consume(self.expr(e.value, fr))

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.store_name(e.target.id, fr, v)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.expr(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.expr(v.format_spec, fr)
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ''
                parts.append(self.lib.fmt_value(self, x, spec, conv))
        return t.fmt(parts)

    def e_FormattedValue(self, e, fr):
        return self.lib.fmt_value(self, self.expr(e.value, fr), None, '')

    def _comp(self, e, fr, emit, out):
        gens = e.generators
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cf = self.alloc('frame')
        self.envs[cf.args[0]] = Env(names, None, self.envs[fr.args[0]].module,
                                    comp=True)
        self.st.heap[(cf.args[0], '$parent')] = fr

        def run(k, frame):
            if k == len(gens):
                emit(frame)
                return
            g = gens[k]
            it = self.expr(g.iter, frame)
            if self.dead():
                return
            sq = self.consume(it)

            def body(x):
                # a fresh scope per iteration: comprehension variables do not
                # outlive it except through closures (late binding below)
                self.assign(g.target, x, frame)

                def conds(cs):
                    if not cs:
                        run(k + 1, frame)
                        return
                    c = self.cond(cs[0], frame)
                    if self.dead():
                        return
                    self.split(c, lambda: (conds(cs[1:]), NONE)[1], lambda: NONE)
                conds(g.ifs)
            self.loop(sq, body)
        run(0, cf)
        if not self._has_lambda(e):
            rid = cf.args[0]
            for n in names:
                self.st.heap.pop((rid, n), None)
            self.st.heap.pop((rid, '$parent'), None)
        return out

    def _has_lambda(self, e):
        return any(isinstance(n, ast.Lambda) for n in ast.walk(e))

    def _comp_seq(self, e, fr):
        out = self.new_list(seq())

        def emit(frame):
            v = self.expr(e.elt, frame)
            if not self.dead():
                self.rset(out, '$seq', cat(self.rget(out, '$seq'), seq(v)))
        self._comp(e, fr, emit, out)
        return out

    def e_ListComp(self, e, fr):
        r = self._comp_seq(e, fr)
        return r if not self.dead() else UNDEF

    def e_GeneratorExp(self, e, fr):
        r = self._comp_seq(e, fr)
        return self.rget(r, '$seq') if not self.dead() else UNDEF

    def e_SetComp(self, e, fr):
        r = self._comp_seq(e, fr)
        return self.new_set(self.rget(r, '$seq')) if not self.dead() else UNDEF

    def e_DictComp(self, e, fr):
        out = self.new_dict(mk('dict', seq()))

        def emit(frame):
            k = self.expr(e.key, frame)
            v = self.expr(e.value, frame)
            if not self.dead():
                self.setitem(out, k, v)
        self._comp(e, fr, emit, out)
        return out if not self.dead() else UNDEF

    def e_Await(self, e, fr):
        return self.unk('await')

    def _yields(self, fr):
        f = fr
        while f.op == 'ref':
            g = self.st.heap.get((f.args[0], '$yields'))
            if g is not None:
                return g
            f = self.st.heap.get((f.args[0], '$parent'), NONE)
        return None

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value is not None else NONE
        g = self._yields(fr)
        if g is None:
            return self.unk('yield')
        if not self.dead():
            self.lib.call_method(self, g, 'append', [v], [])
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.expr(e.value, fr)
        g = self._yields(fr)
        if g is None:
            return self.unk('yield')
        if not self.dead():
            self.lib.call_method(self, g, 'extend', [v], [])
        return NONE

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if self.dead():
            return UNDEF
        o = self.simp(o)
        k = self.simp(k)
        if o.op == 'ite':
            return self.branch_leaves(o, lambda x: self.getitem(x, k))
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        if self.dead():
            return
        o = self.simp(o)
        k = self.simp(k)
        if o.op == 'ite':
            self.branch_leaves(o, lambda x: (self.setitem(x, k, v), NONE)[1])
            return
        self.lib.setitem(self, o, k, v)

    # ------------------------------------------------------------ reify
    def reify(self, v, depth=0, seen=()):
        """replace references by what they contain"""
        if not isinstance(v, T):
            return v
        refs = [x for x in t.subterms(v) if x.op == 'ref']
        if v.op in ('ext', 'const', 'num', 'sym', 'cls', 'builtin'):
            return v
        v0 = v
        if refs:
            v = self._reify(v, depth, seen, {})
        over = self._overlays(v)
        if over:
            v = t.subst(v, over)
        return v

    def _overlays(self, v):
        """opaque objects whose attributes were assigned"""
        objs = {}
        for (r, k) in self.st.heap:
            if isinstance(r, T) and not k.startswith('$') and \
                    not k.startswith('_cached'):
                objs.setdefault(r, []).append(k)
        if not objs:
            return None
        sub = t.subterms(v)
        return None

    def _reify(self, v, depth, seen, memo):
        if v in memo:
            return memo[v]
        if not any(x.op == 'ref' for x in t.subterms(v)):
            memo[v] = v
            return v
        if v.op == 'ref':
            r = self._reify_ref(v, depth, seen, memo)
        elif v.op in ('fun',):
            r = v
        elif v.op in t.BINDERS:
            w = t.fresh()
            opened = t.opened(v, w)
            body = [self._reify_arg(a, depth, seen, {}) for a in opened[1:]]
            r = t.rebind(v.op, self._reify(v.args[0], depth, seen, memo), w, body)
        else:
            args = tuple(self._reify_arg(a, depth, seen, memo) for a in v.args)
            r = t.rebuild(v.op, args)
        memo[v] = r
        return r

    def _reify_arg(self, a, depth, seen, memo):
        if isinstance(a, T):
            return self._reify(a, depth, seen, memo)
        if isinstance(a, tuple):
            return tuple(self._reify_arg(x, depth, seen, memo) for x in a)
        return a

    def _reify_ref(self, v, depth, seen, memo):
        if v in seen or depth > 12:
            return mk('cyclic')
        seen = seen + (v,)
        k = self.kind[v.args[0]]
        if k == 'list':
            return self._reify(self.simp(self.rget(v, '$seq')), depth + 1, seen, {})
        if k == 'set':
            return mk('setof', self._reify(self.simp(self.rget(v, '$seq')),
                                           depth + 1, seen, {}))
        if k == 'dict':
            return self._reify(self.simp(self.rget(v, '$dict')), depth + 1, seen, {})
        if k == 'arr':
            return self._reify(self.simp(self.rget(v, '$val')), depth + 1, seen, {})
        if k == 'iter':
            return self.seq_of(v)
        if k == 'frame':
            return v
        cls = self.rget(v, '$cls')
        names = sorted(n for n in self.slots(v) if not n.startswith('$')
                       and not n.startswith('_cached'))
        return mk('obj', cls, tuple(
            (n, self._reify(self.simp(self.rget(v, n)), depth + 1, seen, {}))
            for n in names))
