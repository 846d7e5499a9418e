#!/usr/bin/env python3
"""Behaviour preserving rewrites of the package, to see that the checks stay
quiet (development tool).

usage: refactor.py [-j N] [-f FUNCTION] [-p PID,PID] [--each] KIND ...
       KIND: a name of KINDS, or all
"""
import ast
import warnings
import copy
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['core/argument.py', 'core/fit.py', 'core/fit_results.py',
         'core/minimizers.py', 'core/models.py', 'core/objectives.py',
         'core/support.py', 'core/operators.py', 'core/printing.py',
         'distributions.py', 'contrib/interactive_guess/interactive_guess.py']
FUN = (ast.FunctionDef,)
N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return '_%s%d' % (p, N[0])


def nm(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def assign(x, v):
    return ast.Assign([nm(x, ast.Store())], v)


def has(node, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


def stmts(body, f):
    """map every statement list below"""
    out = []
    for s in body:
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(s, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                    not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, field, stmts(b, f))
        for h in getattr(s, 'handlers', []):
            h.body = stmts(h.body, f)
        out += f(s)
    return out


def doc(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and \
            isinstance(b[0].value.value, str):
        return 1
    return 0


# ------------------------------------------------------------------ kinds
def noop(fn):
    i = doc(fn)
    fn.body[i:i] = [ast.parse('None').body[0], ast.parse('_noop = 0').body[0]]


def returnvar(fn):
    def f(s):
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)):
            v = fresh('result')
            return [assign(v, s.value), ast.Return(nm(v))]
        return [s]
    fn.body = stmts(fn.body, f)


def invert(fn):
    def f(s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]
    fn.body = stmts(fn.body, f)


def ends(body):
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and ends(s.body) and ends(s.orelse)


def elseless(fn):
    """no else after return"""
    def f(s):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return [s]
    fn.body = stmts(fn.body, f)


def elseful(fn):
    """what follows an if that leaves becomes its else"""
    def g(body):
        for i, s in enumerate(body):
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, field, g(b))
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and body[i + 1:]:
                s.orelse = g(body[i + 1:])
                return body[:i + 1]
        return body
    fn.body = g(fn.body)


def ifexp(fn):
    """conditional expressions as statements"""
    def f(s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Assign(s.targets, e.body)],
                           [ast.Assign(copy.deepcopy(s.targets), e.orelse)])]
        return [s]
    fn.body = stmts(fn.body, f)


def toifexp(fn):
    """two assignments to one name as a conditional expression"""
    def f(s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    len(a.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) \
                    and isinstance(a.targets[0], ast.Name) and len(b.targets) == 1:
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
        return [s]
    fn.body = stmts(fn.body, f)


def loop_of(gens, inner):
    """comprehension clauses as nested statements"""
    for g in reversed(gens):
        b = inner
        for c in reversed(g.ifs):
            b = [ast.If(c, b, [])]
        inner = [ast.For(g.target, g.iter, b, [])]
    return inner


def shadows(node, fn):
    """comprehension variables also used elsewhere in the function"""
    names = set()
    for g in node.generators:
        names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    inside = {id(n) for n in ast.walk(node)}
    for n in ast.walk(fn):
        if id(n) in inside:
            continue
        if isinstance(n, ast.Name) and n.id in names or \
                isinstance(n, ast.arg) and n.arg in names:
            return True
    return any(isinstance(n, (ast.Lambda, ast.GeneratorExp)) for n in ast.walk(node)
               if n is not node)


def unroll(fn):
    """comprehensions as loops"""
    def first(s):
        """a comprehension evaluated first, with a setter"""
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign)) and v is not None:
            if isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
                return v, lambda x: setattr(s, 'value', x)
            if isinstance(v, ast.Call) and v.args and isinstance(v.func, ast.Name) and \
                    isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                    v.func.id in ('list', 'tuple', 'set', 'sum', 'all', 'sorted', 'OrderedDict',
                                  'dict', 'max', 'min'):
                return v.args[0], lambda x: v.args.__setitem__(0, x)
            if isinstance(v, ast.Call) and v.args and isinstance(v.func, ast.Attribute) and \
                    isinstance(v.func.value, ast.Name) and v.func.value.id == 'np' and \
                    isinstance(v.args[0], ast.ListComp):
                return v.args[0], lambda x: v.args.__setitem__(0, x)
        return None, None

    def f(s):
        c, put = first(s)
        if c is None or shadows(c, fn):
            return [s]
        r = fresh('acc')
        if isinstance(c, ast.DictComp):
            init = ast.Dict([], [])
            add = ast.Assign([ast.Subscript(nm(r), c.key, ast.Store())], c.value)
        elif isinstance(c, ast.SetComp):
            init = ast.Call(nm('set'), [], [])
            add = ast.Expr(ast.Call(ast.Attribute(nm(r), 'add', ast.Load()), [c.elt], []))
        else:
            init = ast.List([], ast.Load())
            add = ast.Expr(ast.Call(ast.Attribute(nm(r), 'append', ast.Load()), [c.elt], []))
        put(nm(r))
        return [assign(r, init)] + loop_of(c.generators, [add]) + [s]
    fn.body = stmts(fn.body, f)


def roll(fn):
    """append loops as comprehensions"""
    def g(body):
        out = []
        for s in body:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, field, g(b))
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and isinstance(p, ast.Assign) and \
                    isinstance(p.value, ast.List) and not p.value.elts and \
                    len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                n = p.targets[0].id
                b, ifs = s.body, []
                while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                    ifs.append(b[0].test)
                    b = b[0].body
                tn = {q.id for q in ast.walk(s.target) if isinstance(q, ast.Name)}
                ins = {id(q) for q in ast.walk(s)}
                if any(isinstance(q, ast.Name) and q.id in tn and id(q) not in ins
                       for q in ast.walk(fn)):
                    out.append(s)
                    continue
                if len(b) == 1 and isinstance(b[0], ast.Expr) and \
                        isinstance(b[0].value, ast.Call) and \
                        isinstance(b[0].value.func, ast.Attribute) and \
                        b[0].value.func.attr == 'append' and \
                        isinstance(b[0].value.func.value, ast.Name) and \
                        b[0].value.func.value.id == n and \
                        not any(isinstance(q, ast.Name) and q.id == n
                                for y in [b[0].value.args[0], s.iter] + ifs
                               for q in ast.walk(y)):
                    out[-1] = assign(n, ast.ListComp(b[0].value.args[0], [
                        ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
            out.append(s)
        return out
    fn.body = g(fn.body)


def hoist(fn):
    """what is evaluated first gets a name"""
    def inner(e):
        """(expression evaluated first, setter) strictly inside e"""
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and not isinstance(
                    e.func.value, (ast.Name, ast.Constant)):
                return e.func.value, lambda x: setattr(e.func, 'value', x)
            if isinstance(e.func, ast.Name) and e.func.id == 'super':
                return None
            if isinstance(e.func, (ast.Name, ast.Attribute)) and e.args and \
                    not isinstance(e.args[0], (ast.Name, ast.Constant, ast.Starred,
                                               ast.GeneratorExp, ast.Lambda)):
                return e.args[0], lambda x: e.args.__setitem__(0, x)
        if isinstance(e, ast.BinOp) and not isinstance(e.left, (ast.Name, ast.Constant)):
            return e.left, lambda x: setattr(e, 'left', x)
        if isinstance(e, ast.Subscript) and not isinstance(e.value, (ast.Name, ast.Constant)):
            return e.value, lambda x: setattr(e, 'value', x)
        if isinstance(e, (ast.Tuple, ast.List)) and e.elts and isinstance(e.ctx, ast.Load) \
                and not isinstance(e.elts[0], (ast.Name, ast.Constant, ast.Starred)):
            return e.elts[0], lambda x: e.elts.__setitem__(0, x)
        if isinstance(e, ast.Compare) and not isinstance(e.left, (ast.Name, ast.Constant)):
            return e.left, lambda x: setattr(e, 'left', x)
        return None

    def f(s):
        e = None
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.AugAssign)):
            e = s.value
            if isinstance(s, ast.AugAssign):
                return [s]
        elif isinstance(s, ast.If):
            e = s.test
        elif isinstance(s, ast.For):
            e = s.iter
        if e is None:
            return [s]
        i = inner(e)
        if i is None or (isinstance(i[0], ast.Call) and isinstance(i[0].func, ast.Name) and
                         i[0].func.id == 'super') or has(i[0], ast.Yield):
            return [s]
        v = fresh('part')
        i[1](nm(v))
        return [assign(v, i[0]), s]
    def wrap(s):
        if isinstance(s, ast.If) and getattr(s, '_elif', False):
            return [s]
        return f(s)
    fn.body = stmts(fn.body, wrap)


def cond(fn):
    """conditions get a name"""
    def f(s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            v = fresh('cond')
            return [assign(v, s.test), ast.If(nm(v), s.body, s.orelse)]
        return [s]
    fn.body = stmts(fn.body, f)


def demorgan(fn):
    class T(ast.NodeTransformer):
        def visit_If(self, s):
            self.generic_visit(s)
            s.test = ast.UnaryOp(ast.Not(), neg(s.test))
            return s

        def visit_IfExp(self, e):
            self.generic_visit(e)
            return ast.IfExp(neg(e.test), e.orelse, e.body)

    def neg(e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return e.operand
        if isinstance(e, ast.BoolOp):
            return ast.BoolOp(ast.And() if isinstance(e.op, ast.Or) else ast.Or(),
                              [neg(v) for v in e.values])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            o = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
                 ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(e.ops[0]))
            if o:
                return ast.Compare(e.left, [o()], e.comparators)
        return ast.UnaryOp(ast.Not(), e)
    T().visit(fn)


def nestif(fn):
    """and as nested ifs"""
    def f(s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and \
                isinstance(s.test.op, ast.And):
            b = s.body
            for c in reversed(s.test.values):
                b = [ast.If(c, b, [])]
            return b
        return [s]
    fn.body = stmts(fn.body, f)


def flatif(fn):
    def f(s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
                isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]
        return [s]
    fn.body = stmts(fn.body, f)


def counters(fn):
    """enumerate as a counter"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and \
                len(s.iter.args) == 1 and not s.orelse and not has(s, ast.Continue) and \
                isinstance(s.target, ast.Tuple):
            i, x = s.target.elts
            c = fresh('count')
            return [assign(c, ast.Constant(0)),
                    ast.For(x, s.iter.args[0],
                            [ast.Assign([i], nm(c))] + s.body +
                            [ast.AugAssign(nm(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return [s]
    fn.body = stmts(fn.body, f)


def itemloops(fn):
    """for k, v in d.items() as for k in d"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == 'items' and \
                isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and \
                isinstance(s.iter.func.value, (ast.Name, ast.Attribute)):
            k, v = s.target.elts
            d = s.iter.func.value
            return [ast.For(k, d, [ast.Assign([v], ast.Subscript(
                copy.deepcopy(d), nm(k.id), ast.Load()))] + s.body, s.orelse)]
        return [s]
    fn.body = stmts(fn.body, f)


def guards(fn):
    """if c: body  in a loop as  if not c: continue; body"""
    def f(s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and \
                not s.body[0].orelse:
            i = s.body[0]
            s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return [s]
    fn.body = stmts(fn.body, f)


def locals_of(fn):
    """names local to this function only (not shared with nested scopes)"""
    stored, other = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stored.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            other |= set(n.names)
        if isinstance(n, ast.FunctionDef) and n is not fn:
            other |= {q.id for q in ast.walk(n) if isinstance(q, ast.Name)}
            other.add(n.name)
        if isinstance(n, (ast.Lambda,)):
            other |= {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            other |= {a.asname or a.name for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            other.add(n.name)
    a = fn.args
    other |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            other.add(x.arg)
    return stored - other


def rename(fn):
    ren = {n: n + '_renamed' for n in locals_of(fn)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ren:
            n.id = ren[n.id]


def helper(fn, cls=None):
    """the body moves to a method / function of its own"""
    if fn.decorator_list or fn.name.startswith('__') and fn.name not in ('__init__', '__call__') \
            or has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal):
        return None
    i = doc(fn)
    if not fn.body[i:] or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                              n.func.id == 'super' and not n.args for n in ast.walk(fn)):
        return None
    a = fn.args
    if cls is not None and not a.args:
        return None
    new = copy.deepcopy(fn)
    new.name = ('_impl_' + (cls.name.lower() if cls else '') + fn.name).replace('__', '_')
    new.body = fn.body[i:]
    new.args.defaults = []
    new.args.kw_defaults = [None for _ in a.kwonlyargs]
    call = [nm(x.arg) for x in a.posonlyargs + a.args]
    kws = [ast.keyword(x.arg, nm(x.arg)) for x in a.kwonlyargs]
    if a.vararg:
        call.append(ast.Starred(nm(a.vararg.arg), ast.Load()))
    if a.kwarg:
        kws.append(ast.keyword(None, nm(a.kwarg.arg)))
    if cls is not None:
        f = ast.Attribute(call[0], new.name, ast.Load())
        call = call[1:]
    else:
        f = nm(new.name)
    fn.body = fn.body[:i] + [ast.Return(ast.Call(f, call, kws))]
    return new


def kwcalls(fn):
    """super(C, self) as super()"""
    if fn.args.args:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'super' and len(n.args) == 2:
                ok = isinstance(n.args[1], ast.Name) and n.args[1].id == fn.args.args[0].arg
                if ok and not any(isinstance(q, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                                                 ast.GeneratorExp, ast.DictComp))
                                  and q is not fn and n in list(ast.walk(q))
                                  for q in ast.walk(fn)):
                    n.args = []


def augment(fn):
    """x += e as x = x + e, for numbers and strings only"""
    def f(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Sub, ast.Mult, ast.Div)):
            load = copy.deepcopy(s.target)
            for n in ast.walk(load):
                if hasattr(n, 'ctx') and n is load:
                    n.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(load, s.op, s.value))]
        return [s]
    fn.body = stmts(fn.body, f)


def tryelse(fn):
    """assignments after a dict get with default: d.get(k, None) as d.get(k)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'get' and len(n.args) == 2 and \
                isinstance(n.args[1], ast.Constant) and n.args[1].value is None:
            n.args.pop()


def lambdas(fn):
    """local lambdas as functions"""
    def f(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.FunctionDef(name=s.targets[0].id, args=s.value.args,
                                    body=[ast.Return(s.value.body)], decorator_list=[],
                                    type_params=[])]
        return [s]
    fn.body = stmts(fn.body, f)


def fstrings(fn):
    """'..{}..'.format(a) as an f-string"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                    isinstance(n.func.value, ast.Constant) and not n.keywords and \
                    isinstance(n.func.value.value, str):
                parts = n.func.value.value.split('{}')
                if len(parts) == len(n.args) + 1 and not any(
                        '{' in p or '}' in p for p in parts) and \
                        not any(isinstance(a, ast.Starred) for a in n.args):
                    v = []
                    for p, a in zip(parts, list(n.args) + [None]):
                        if p:
                            v.append(ast.Constant(p))
                        if a is not None:
                            v.append(ast.FormattedValue(a, -1, None))
                    return ast.JoinedStr(v)
            return n
    T().visit(fn)


def walrusless(fn):
    """arguments after the first become names, in order of evaluation"""
    simple = (ast.Name, ast.Constant, ast.Attribute, ast.Lambda, ast.GeneratorExp)

    def f(s):
        e = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(e, ast.Call) and \
                isinstance(e.func, (ast.Name, ast.Attribute)) and (
                    isinstance(e.func, ast.Name) or isinstance(e.func.value, ast.Name)) \
                and not any(isinstance(a, ast.Starred) for a in e.args) \
                and not (isinstance(e.func, ast.Name) and e.func.id in ('super',)):
            pre = []
            for i, a in enumerate(e.args):
                if not isinstance(a, simple):
                    v = fresh('arg')
                    pre.append(assign(v, a))
                    e.args[i] = nm(v)
            for k in e.keywords:
                if k.arg and not isinstance(k.value, simple):
                    v = fresh('arg')
                    pre.append(assign(v, k.value))
                    k.value = nm(v)
            return pre + [s]
        return [s]
    fn.body = stmts(fn.body, f)


def names_in(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            (ctx is None or isinstance(n.ctx, ctx))}


def inline(fn):
    """a name used once, in the next statement, is replaced by its value"""
    loc = locals_of(fn)

    def g(body):
        out = []
        for s in body:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, field, g(b))
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and \
                    isinstance(p.targets[0], ast.Name) and p.targets[0].id in loc and \
                    isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                n = p.targets[0].id
                uses = [q for q in ast.walk(fn) if isinstance(q, ast.Name) and q.id == n]
                here = [q for q in ast.walk(s.value) if isinstance(q, ast.Name) and q.id == n]
                if len(uses) == 2 and len(here) == 1 and not has(
                        s.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                        ast.IfExp, ast.BoolOp):
                    # nothing may be evaluated before it
                    order = [q for q in ast.walk(s.value) if isinstance(q, (ast.Call, ast.Subscript))
                             and here[0] not in list(ast.walk(q))]
                    if not order:
                        class T(ast.NodeTransformer):
                            def visit_Name(self, q):
                                return p.value if q is here[0] else q
                        s.value = T().visit(s.value)
                        out[-1] = s
                        continue
            out.append(s)
        return out
    fn.body = g(fn.body)


def swap(fn):
    """independent neighbouring assignments change places"""
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Name) and not has(s.value, ast.Yield)

    def pure(s):
        return not any(isinstance(n, ast.Call) and not (
            isinstance(n.func, ast.Name) and n.func.id in (
                'list', 'dict', 'set', 'len', 'tuple', 'sorted', 'zip', 'OrderedDict') or
            isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'items', 'copy', 'values',
                                                                 'keys', 'format'))
            for n in ast.walk(s))

    def g(body):
        for s in body:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, field, g(b))
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if simple(a) and simple(b) and (pure(a) or pure(b)) and \
                    a.targets[0].id not in names_in(b) and b.targets[0].id not in names_in(a):
                body[i], body[i + 1] = b, a
                i += 1
            i += 1
        return body
    fn.body = g(fn.body)


def split(fn):
    """a, b = x, y as two assignments"""
    def f(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                len(s.value.elts) == len(s.targets[0].elts) and \
                all(isinstance(x, ast.Name) for x in s.targets[0].elts):
            vs = [fresh('val') for _ in s.value.elts]
            return [assign(v, e) for v, e in zip(vs, s.value.elts)] + \
                [ast.Assign([x], nm(v)) for v, x in zip(vs, s.targets[0].elts)]
        return [s]
    fn.body = stmts(fn.body, f)


def targets(fn):
    """for a, b in it  as  for t in it: a, b = t"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            v = fresh('item')
            return [ast.For(nm(v, ast.Store()), s.iter,
                            [ast.Assign([s.target], nm(v))] + s.body, s.orelse)]
        return [s]
    fn.body = stmts(fn.body, f)


def indexed(fn):
    """for a, b in zip(x, y)  by index; over names and attributes only"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'zip' and \
                isinstance(s.target, ast.Tuple) and len(s.iter.args) == 2 and \
                all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.iter.args):
            i = fresh('index')
            pre, ls = [], []
            for x in s.iter.args:
                v = fresh('list')
                pre.append(assign(v, ast.Call(nm('list'), [x], [])))
                ls.append(v)
            n = ast.Call(nm('min'), [ast.Call(nm('len'), [nm(v)], []) for v in ls], [])
            return pre + [ast.For(nm(i, ast.Store()), ast.Call(nm('range'), [n], []), [
                ast.Assign([x], ast.Subscript(nm(v), nm(i), ast.Load()))
                for x, v in zip(s.target.elts, ls)] + s.body, s.orelse)]
        return [s]
    fn.body = stmts(fn.body, f)


def aslist(fn):
    """generator arguments as lists, list comprehensions as list(generator)"""
    class T(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            return ast.Call(nm('list'), [ast.GeneratorExp(n.elt, n.generators)], [])

        def visit_GeneratorExp(self, n):
            self.generic_visit(n)
            return ast.ListComp(n.elt, n.generators)
    T().visit(fn)


def mapped(fn):
    """[f(x) for x in xs] as list(map(lambda x: f(x), xs))"""
    class T(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            g = n.generators
            if len(g) == 1 and isinstance(g[0].target, ast.Name):
                a = ast.arguments(posonlyargs=[], args=[ast.arg(g[0].target.id)], kwonlyargs=[],
                                  kw_defaults=[], defaults=[])
                it = g[0].iter
                for c in g[0].ifs:
                    it = ast.Call(nm('filter'), [ast.Lambda(copy.deepcopy(a), c), it], [])
                return ast.Call(nm('list'), [ast.Call(nm('map'), [ast.Lambda(a, n.elt), it], [])], [])
            return n
    T().visit(fn)


def dictcomp(fn):
    """OrderedDict(pairs) and dict(pairs) of a generator; {k: v for ...}"""
    class T(ast.NodeTransformer):
        def visit_DictComp(self, n):
            self.generic_visit(n)
            return ast.Call(nm('dict'), [ast.GeneratorExp(
                ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])
    T().visit(fn)


def localfun(fn):
    """comprehension elements by a local function"""
    def f(s):
        pre = []
        if not isinstance(s, (ast.Return, ast.Assign)) or s.value is None:
            return [s]

        class T(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n

            def visit_ListComp(self, n):
                if len(n.generators) == 1 and isinstance(n.elt, (ast.Call, ast.BinOp, ast.IfExp)) \
                        and not has(n.elt, ast.ListComp, ast.GeneratorExp, ast.Lambda):
                    vs = sorted(names_in(n.generators[0].target))
                    h = fresh('element')
                    pre.append(ast.FunctionDef(
                        name=h, args=ast.arguments(
                            posonlyargs=[], args=[ast.arg(v) for v in vs], kwonlyargs=[],
                            kw_defaults=[], defaults=[]),
                        body=[ast.Return(n.elt)], decorator_list=[], type_params=[]))
                    n.elt = ast.Call(nm(h), [nm(v) for v in vs], [])
                return n
            visit_GeneratorExp = visit_ListComp
        s.value = T().visit(s.value)
        return pre + [s]
    fn.body = stmts(fn.body, f)


def loopbody(fn):
    """the body of a loop without jumps moves to a local function when it only
    changes objects"""
    def f(s):
        if isinstance(s, ast.For) and not has(s, ast.Return, ast.Break, ast.Continue, ast.Yield,
                                              ast.AugAssign, ast.FunctionDef):
            st = set()
            for b in s.body:
                st |= names_in(b, ast.Store)
            ins = {id(q) for q in ast.walk(s)}
            if any(isinstance(q, ast.Name) and q.id in st and id(q) not in ins
                   for q in ast.walk(fn)) or {a.arg for a in fn.args.args} & st:
                return [s]
            vs = sorted(names_in(s.target))
            if set(vs) & st or any(isinstance(q, ast.Name) and q.id in vs and id(q) not in ins
                                   for q in ast.walk(fn)):
                return [s]
            h = fresh('step')
            d = ast.FunctionDef(name=h, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(v) for v in vs], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=s.body, decorator_list=[], type_params=[])
            s.body = [ast.Expr(ast.Call(nm(h), [nm(v) for v in vs], []))]
            return [d, s]
        return [s]
    fn.body = stmts(fn.body, f)


def walrus(fn):
    """x = e; if x ...: as if (x := e) ...:"""
    def g(body):
        out = []
        for s in body:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, field, g(b))
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and \
                    isinstance(p.targets[0], ast.Name):
                n = p.targets[0].id
                e = s.test
                while True:
                    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and \
                            e.left.id == n:
                        e.left = ast.NamedExpr(nm(n, ast.Store()), p.value)
                        out[-1] = s
                        break
                    if isinstance(e, ast.BoolOp):
                        e = e.values[0]
                        continue
                    if isinstance(e, ast.UnaryOp):
                        e = e.operand
                        continue
                    out.append(s)
                    break
                continue
            out.append(s)
        return out
    fn.body = g(fn.body)


def keys(fn):
    """k in d as k in d.keys(); for k in d as for k in list(d)"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)):
            s.iter = ast.Call(nm('list'), [s.iter], [])
        return [s]
    fn.body = stmts(fn.body, f)


def excepts(fn):
    """try: x = f() ... as a try with else"""
    def f(s):
        if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and len(s.body) == 1 and \
                isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
            v = fresh('tried')
            return [ast.Try([assign(v, s.body[0].value)], s.handlers, [ast.Return(nm(v))], [])]
        return [s]
    fn.body = stmts(fn.body, f)


def selfname(fn):
    """attributes read twice get a name, when nothing can change them"""
    if not fn.args.args or fn.args.args[0].arg != 'self':
        return
    import collections
    c = collections.Counter()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            c[n.attr] += 1 if isinstance(n.ctx, ast.Load) else 1000
    for k in ('model', 'objective', 'params', 'constraints', 'data'):
        if 2 <= c[k] < 1000 and fn.name not in ('__init__', '__setstate__', '__getattr__'):
            i = doc(fn)
            first = [n for n in ast.walk(ast.Module(fn.body[i:i + 1], []))
                     if isinstance(n, ast.Attribute) and n.attr == k]
            if not first or isinstance(fn.body[i], (ast.If, ast.For, ast.Try)):
                continue

            class T(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    if n.attr == k and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        return nm('_own_' + k)
                    return self.generic_visit(n)
            for j in range(i, len(fn.body)):
                fn.body[j] = T().visit(fn.body[j])
            fn.body.insert(i, assign('_own_' + k, ast.Attribute(nm('self'), k, ast.Load())))


def mixin(tree):
    """methods move to a base class of their own"""
    for s in list(tree.body):
        if not isinstance(s, ast.ClassDef):
            continue
        mv = [m for m in s.body if isinstance(m, ast.FunctionDef) and not m.name.startswith('__')
              and not m.decorator_list and not any(
                  isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super'
                  for n in ast.walk(m))]
        # a class attribute of the same name must stay in front
        if not mv or any(isinstance(b, ast.Starred) for b in s.bases):
            continue
        base = ast.ClassDef(name='_%sMethods' % s.name, bases=[nm('object')], keywords=[],
                            body=mv, decorator_list=[], type_params=[])
        s.body = [m for m in s.body if m not in mv] or [ast.Pass()]
        s.bases = [nm(base.name)] + [b for b in s.bases
                                     if not (isinstance(b, ast.Name) and b.id == 'object')]
        tree.body.insert(tree.body.index(s), base)


def imports(tree):
    """np.x as numpy.x"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == 'numpy' and a.asname == 'np':
                    a.asname = None
        if isinstance(n, ast.Name) and n.id == 'np':
            n.id = 'numpy'


PRIVATE = {}


def privates(tree):
    """private functions, methods and attributes get other names; needs the
    names of all files, see make"""
    for n in ast.walk(tree):
        for f in ('id', 'attr', 'name', 'arg'):
            v = getattr(n, f, None)
            if isinstance(v, str) and v in PRIVATE:
                setattr(n, f, PRIVATE[v])
        if isinstance(n, ast.Constant) and n.value in PRIVATE:
            n.value = PRIVATE[n.value]


TREES = {'privates': privates, 'mixin': mixin, 'imports': imports}
KINDS = {f.__name__: f for f in (
    noop, returnvar, invert, elseless, elseful, ifexp, toifexp, unroll, roll, hoist, cond,
    demorgan, nestif, flatif, counters, itemloops, guards, rename, helper, kwcalls, augment,
    tryelse, lambdas, fstrings, walrusless, inline, swap, split, targets, indexed, aslist,
    mapped, dictcomp, localfun, loopbody, walrus, keys, excepts, selfname)}


def mark_elif(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n.orelse[0]._elif = True


def functions(tree):
    out = []

    def go(body, cls):
        for s in list(body):
            if isinstance(s, ast.ClassDef):
                go(s.body, s)
            elif isinstance(s, ast.FunctionDef):
                out.append((cls, s, body))
    go(tree.body, None)
    return out


def rewrite(src, kinds, only=None):
    tree = ast.parse(src)
    mark_elif(tree)
    names = []
    for k in kinds:
        if k in TREES:
            TREES[k](tree)
            names.append('all')
    kinds = [k for k in kinds if k not in TREES]
    for cls, fn, body in functions(tree):
        q = (cls.name + '.' if cls else '') + fn.name
        if only is not None and q not in only:
            continue
        before = ast.dump(fn)
        for k in kinds:
            if k == 'helper':
                new = helper(fn, cls)
                if new is not None:
                    body.insert(body.index(fn), new)
            else:
                KINDS[k](fn)
        if ast.dump(fn) != before:
            names.append(q)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), names


def make(kinds, only, tag):
    wt = '/tmp/ref_%s' % tag
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    changed = []
    if 'privates' in kinds:
        for rel in FILES:
            p = os.path.join(wt, 'symfit', rel)
            for n in ast.walk(ast.parse(open(p).read())) if os.path.exists(p) else ():
                x = getattr(n, 'name', None) if isinstance(n, ast.FunctionDef) else (
                    n.attr if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) else None)
                if x and x.startswith('_') and not x.startswith('__') and x not in ('_asdict', '_doprint'):
                    PRIVATE[x] = x + '_other'
    for rel in FILES:
        p = os.path.join(wt, 'symfit', rel)
        if not os.path.exists(p):
            continue
        src = open(p).read()
        new, names = rewrite(src, kinds, only)
        if names:
            open(p, 'w').write(new)
            changed += names
    return wt, changed


def check(wt, pids):
    def one(pid):
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), pid], cwd=HERE,
                               env=dict(os.environ, SYMFIT_ROOT=wt, VERIF_EVIDENCE=wt),
                               capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return pid, 'TIMEOUT'
        first = r.stdout.split('\n')[0]
        if r.returncode == 0 and ' 0 undecided' in first:
            return None
        return pid, 'rc=%d %s\n' % (r.returncode, first) + '\n'.join(
            '      ' + x[:260] for x in (r.stdout.split('\n')[1:] + r.stderr.split('\n')[-3:])
            if x.startswith(('UNDECIDED', '  [', '    at')) or r.returncode > 1)
    with ThreadPoolExecutor(8) as ex:
        return [x for x in ex.map(one, pids) if x]


def main():
    a = sys.argv[1:]
    only = None
    pids = None
    each = '--each' in a
    test = '--test' in a
    a = [x for x in a if x not in ('--each', '--test')]
    if '-f' in a:
        i = a.index('-f')
        only = set(a[i + 1].split(','))
        del a[i:i + 2]
    if '-p' in a:
        i = a.index('-p')
        pids = a[i + 1].split(',')
        del a[i:i + 2]
    if pids is None:
        pids = sorted(x[:-3] for x in os.listdir(os.path.join(HERE, 'sa', 'props'))
                      if x.startswith('C') and x.endswith('.py'))
    kinds = list(KINDS) + list(TREES) if a == ['all'] else a
    for k in kinds:
        ks = k.split('+')
        if each:
            _, changed = make(ks, only, k)
            todo = [{c} for c in changed]
        else:
            todo = [only]
        for o in todo:
            tag = '%s_%d' % (k, os.getpid())
            wt, changed = make(ks, o, tag)
            try:
                if test:
                    env = dict(os.environ, MPLBACKEND='Agg', PYTHONHASHSEED='0')
                    r = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 '
                                       '--deselect tests/test_minimizers.py::test_custom_objective | tail -8',
                                       shell=True, cwd=wt, env=env, capture_output=True, text=True)
                    print(k, 'TEST', r.stdout[-700:], flush=True)
                    continue
                bad = check(wt, pids) if changed else []
                print('%-10s %s %d functions: %s' % (k, sorted(o) if o and each else '',
                                                     len(changed), 'quiet' if not bad else ''),
                      flush=True)
                for pid, m in bad:
                    print('   ', pid, m, flush=True)
            finally:
                shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    main()
