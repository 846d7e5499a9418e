#!/usr/bin/env python3
"""Small changes to the package, to find what the checks do not see
(development tool).

usage: mutate.py OUT.jsonl [-f FILE] [-q QUALNAME] [-n MAX] [-s SEED] [--shapes] [-x WHAT,...]
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from refactor import FILES, functions, doc

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
       ast.Pow: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}
PAIRS = [('independent_vars', 'dependent_vars'), ('dependent_vars', 'interdependent_vars'),
         ('params', 'free_params'), ('independent_data', 'dependent_data'), ('min', 'max'),
         ('jac', 'hess'), ('lhs', 'rhs'), ('keys', 'values'), ('append', 'extend'),
         ('model', 'objective'), ('sigma_data', 'dependent_data'), ('update', 'setdefault'),
         ('popt', 'initial_guesses'), ('fun', 'jac'), ('initial_guesses', 'bounds'),
         ('initial_params', 'model_params'), ('model_params', 'params'), ('sum', 'mean'),
         ('nansum', 'sum'), ('zeros', 'ones'), ('eval_jacobian', 'eval_hessian'),
         ('wrapped_jacobian', 'wrapped_hessian'), ('Ge', 'Le'), ('T', 'real'), ('row', 'col')]


def sites(fn):
    """(description, apply) on a copy of the function"""
    out = []
    nodes = list(ast.walk(fn))
    body0 = doc(fn)

    def add(desc, i, f):
        out.append((desc, i, f))

    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                add('compare %s' % op.__name__, i, lambda m, op=op: m.ops.__setitem__(0, op()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for op in BIN.get(type(n.op), []):
                if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and \
                        isinstance(n.left.value, str):
                    continue
                add('operator %s' % op.__name__, i, lambda m, op=op: setattr(m, 'op', op()))
        if isinstance(n, ast.BoolOp):
            add('and/or', i, lambda m: setattr(
                m, 'op', ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    add('drop operand %d' % k, i, lambda m, k=k: m.values.pop(k))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add('drop unary', i, lambda m: setattr(m, 'op', ast.UAdd())
                if isinstance(m.op, ast.USub) else setattr(
                    m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add('%r' % (not v), i, lambda m: setattr(m, 'value', not m.value))
            elif v is None:
                pass
            elif isinstance(v, (int, float)):
                add('%r + 1' % v, i, lambda m: setattr(m, 'value', m.value + 1))
                if v:
                    add('- %r' % v, i, lambda m: setattr(m, 'value', -m.value))
            elif isinstance(v, str) and v and i > 2 and len(v) < 30:
                add('text %r' % v, i, lambda m: setattr(m, 'value', m.value + 'x'))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add('if True', i, lambda m: setattr(m, 'test', ast.Constant(True)))
            add('if False', i, lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.comprehension) and n.ifs:
            add('drop filter', i, lambda m: setattr(m, 'ifs', []))
        if isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            if len(pos) > 1 and len(pos) == len(n.args):
                add('swap arguments', i, lambda m: m.args.__setitem__(
                    slice(0, 2), [m.args[1], m.args[0]]))
            for k, kw in enumerate(n.keywords):
                add('drop keyword %s' % kw.arg, i, lambda m, k=k: m.keywords.pop(k))
            if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
                    'sorted', 'list', 'set', 'tuple', 'OrderedDict', 'reversed', 'abs', 'len'):
                if n.func.id == 'sorted':
                    add('unsorted', i, lambda m: setattr(m, 'func', ast.Name('list', ast.Load()))
                        or setattr(m, 'keywords', []))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                add('no copy', i, lambda m: setattr(m, 'func', ast.Name('_same', ast.Load()))
                    or setattr(m, 'args', [m.func.value]) if False else _nocopy(m))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    if n.attr == x:
                        add('%s for %s' % (y, x), i, lambda m, y=y: setattr(m, 'attr', y))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(
                getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) > 1:
            add('drop last element', i, lambda m: m.elts.pop())
            if not isinstance(n, ast.Set):
                add('swap elements', i, lambda m: m.elts.__setitem__(
                    slice(0, 2), [m.elts[1], m.elts[0]]))
        if isinstance(n, ast.Dict) and n.keys:
            add('drop entry', i, lambda m: (m.keys.pop(), m.values.pop()))
        if isinstance(n, ast.Slice):
            add('full slice', i, lambda m: (setattr(m, 'lower', None), setattr(m, 'upper', None),
                                            setattr(m, 'step', None)))
        if isinstance(n, ast.ExceptHandler):
            add('handler raises', i, lambda m: setattr(m, 'body', [ast.Raise()]))
        if isinstance(n, ast.Raise):
            add('no raise', i, None)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign, ast.Delete)) and i and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add('drop statement', i, None)
        if isinstance(n, (ast.Continue, ast.Break)):
            add('drop jump', i, None)
            add('break/continue', i, 'jump')
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            add('return None', i, lambda m: setattr(m, 'value', ast.Constant(None)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            pass
    # names in the place of other local names of the same function
    loc = sorted({a.arg for a in fn.args.args if a.arg != 'self'} | {
        n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    rnd = random.Random(fn.name)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and len(loc) > 1:
            o = rnd.choice([x for x in loc if x != n.id])
            add('%s for %s' % (o, n.id), i, lambda m, o=o: setattr(m, 'id', o))
    return out

def parsed(text):
    return ast.parse(text).body[0]


def become(n, e):
    """node `n` turns into the expression `e` in place"""
    n.__class__ = e.__class__
    n.__dict__.clear()
    n.__dict__.update(e.__dict__)


def shapes(fn):
    """Changes of the kind people make: a truth value for `is None`, a loop cut short, an exact
    type, a wider handler, a value kept for the next call, a copy not made, another order"""
    out = []
    nodes = list(ast.walk(fn))

    def add(desc, i, f):
        out.append((desc, i, f))

    def wrap(fmt):
        return lambda m: become(m, parsed(fmt.format(ast.unparse(m))).value)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            r = n.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                if isinstance(n.ops[0], ast.Is):
                    add('not x for is None', i, lambda m: become(m, ast.UnaryOp(ast.Not(), m.left)))
                if isinstance(n.ops[0], ast.IsNot):
                    add('x for is not None', i, lambda m: become(m, m.left))
            elif isinstance(n.ops[0], ast.Eq):
                add('is for ==', i, lambda m: m.ops.__setitem__(0, ast.Is()))
            elif isinstance(n.ops[0], ast.NotEq):
                add('is not for !=', i, lambda m: m.ops.__setitem__(0, ast.IsNot()))
        if isinstance(n, ast.For) and i:
            add('only the first', i, lambda m: m.body.append(ast.Break()))
            add('not the last', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[:-1]' % ast.unparse(m.iter)).value))
            add('not the first', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[1:]' % ast.unparse(m.iter)).value))
            add('reversed', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[::-1]' % ast.unparse(m.iter)).value))
        if isinstance(n, ast.comprehension):
            add('not the last', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[:-1]' % ast.unparse(m.iter)).value))
            add('not the first', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[1:]' % ast.unparse(m.iter)).value))
            add('reversed', i, lambda m: setattr(m, 'iter', parsed(
                'list(%s)[::-1]' % ast.unparse(m.iter)).value))
            add('sorted by text', i, lambda m: setattr(m, 'iter', parsed(
                'sorted(%s, key=str)' % ast.unparse(m.iter)).value))
            if isinstance(n.target, ast.Name):
                add('only true ones', i, lambda m: m.ifs.append(ast.Name(m.target.id, ast.Load())))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            add('no repeats', i, wrap('list(dict.fromkeys({}))'))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id == 'isinstance' and len(n.args) == 2 \
                    and not isinstance(n.args[1], ast.Tuple):
                add('exact type', i, lambda m: become(m, ast.Compare(
                    parsed('type(%s)' % ast.unparse(m.args[0])).value, [ast.Is()], [m.args[1]])))
            if isinstance(f, ast.Name) and f.id == 'sorted' and n.keywords:
                add('sorted by str', i, lambda m: setattr(m, 'keywords', [
                    ast.keyword('key', ast.Name('str', ast.Load()))]))
                add('sorted by length', i, lambda m: setattr(m, 'keywords', [
                    ast.keyword('key', parsed('lambda s: (len(str(s)), str(s))').value)]))
            if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) and not (
                    isinstance(f, ast.Name) and f.id in ('isinstance', 'super', 'len', 'range')):
                add('unwrapped', i, lambda m: become(m, m.args[0]))
            if isinstance(f, ast.Attribute) and not n.args and not n.keywords and not isinstance(
                    f.value, ast.Call):
                add('method dropped', i, lambda m: become(m, m.func.value))
            for k, kw in enumerate(n.keywords):
                if kw.arg is None:
                    add('drop **', i, lambda m, k=k: m.keywords.pop(k))
            for k, x in enumerate(n.args):
                if isinstance(x, ast.Starred):
                    add('drop *', i, lambda m, k=k: m.args.pop(k))
            if isinstance(f, ast.Name) and f.id == 'zip' and len(n.args) == 2:
                add('zip reversed', i, lambda m: m.args.__setitem__(1, parsed(
                    'list(%s)[::-1]' % ast.unparse(m.args[1])).value))
            if isinstance(f, ast.Name) and f.id == 'getattr' and len(n.args) == 2:
                add('getattr default', i, lambda m: m.args.append(ast.Constant(None)))
            if isinstance(f, ast.Attribute) and f.attr == 'items':
                add('sorted items', i, wrap('sorted({}, key=str)'))
            if isinstance(f, ast.Attribute) and f.attr == 'get' and len(n.args) == 2:
                add('get or', i, lambda m: become(m, ast.BoolOp(ast.Or(), [
                    parsed('%s.get(%s)' % (ast.unparse(m.func.value), ast.unparse(m.args[0]))).value,
                    m.args[1]])))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(
                n.slice, ast.Constant) and n.slice.value == 0:
            add('last for first', i, lambda m: setattr(m, 'slice', ast.Constant(-1)))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add('any exception', i, lambda m: setattr(m, 'type', ast.Name('Exception', ast.Load())))
            add('no such exception', i, lambda m: setattr(
                m, 'type', ast.Name('MemoryError', ast.Load())))
        if isinstance(n, ast.Raise) and i:
            add('returns', i, 'return')
        if isinstance(n, ast.Return) and n.value is not None and fn.args.args \
                and fn.args.args[0].arg == 'self':
            add('kept for next time', i, lambda m: setattr(m, 'value', parsed(
                'self.__dict__.setdefault("_kept", %s)' % ast.unparse(m.value)).value))
        if isinstance(n, ast.Return) and n.value is not None:
            add('abs', i, lambda m: setattr(m, 'value', parsed(
                'abs(%s)' % ast.unparse(m.value)).value))
            if isinstance(n.value, ast.Name):
                pass
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and i:
            t = n.targets[0]
            if isinstance(t, ast.Attribute):
                add('set once', i, lambda m: become(m, parsed('if not hasattr(%s, %r): %s' % (
                    ast.unparse(m.targets[0].value), m.targets[0].attr, ast.unparse(m)))))
            if isinstance(t, ast.Subscript):
                add('set default', i, lambda m: become(m, parsed('if %s not in %s: %s' % (
                    ast.unparse(m.targets[0].slice), ast.unparse(m.targets[0].value),
                    ast.unparse(m)))))
            if isinstance(n.value, ast.BinOp) and ast.unparse(n.value.left) == ast.unparse(t):
                add('in place', i, lambda m: become(m, ast.AugAssign(
                    m.targets[0], m.value.op, m.value.right)))
        if isinstance(n, ast.If) and n.orelse and i:
            add('else always', i, lambda m: become(m, ast.If(
                ast.Constant(True), [ast.If(m.test, m.body, [])] + m.orelse, [])))
        if isinstance(n, ast.IfExp):
            add('or for if', i, lambda m: become(m, ast.BoolOp(ast.Or(), [m.body, m.orelse])))
        if isinstance(n, ast.BoolOp):
            add('other order', i, lambda m: m.values.reverse())
    if fn.args.defaults:
        add('default []', 0, 'defaults')
    return out


def _nocopy(m):
    m.func = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('x')], kwonlyargs=[],
                                      kw_defaults=[], defaults=[]), ast.Name('x', ast.Load()))
    m.args = [copy.deepcopy(m._orig)] if hasattr(m, '_orig') else m.args


def replace_stmt(root, node, new):
    for p in ast.walk(root):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(p, f, None)
            if isinstance(b, list) and node in b:
                b[b.index(node)] = new
                return


def mutants(rel, qual=None, sites=None):
    sites = sites or globals()['sites']
    src = open(os.path.join('/repo/symfit', rel)).read()
    tree = ast.parse(src)
    plain = ast.unparse(tree)
    for fi, (cls, fn, body) in enumerate(functions(tree)):
        q = (cls.name + '.' if cls else '') + fn.name
        if qual and q != qual or fn.name in ('__str__', '__repr__'):
            continue
        for desc, i, f in sites(fn):
            if desc == 'no copy':
                pass
            t2 = ast.parse(src)
            fn2 = functions(t2)[fi][1]
            n = list(ast.walk(fn2))[i]
            line = getattr(n, 'lineno', fn.lineno)
            before = ast.unparse(n) if not isinstance(n, (ast.comprehension,)) else ''
            try:
                if desc == 'no copy':
                    v = n.func.value
                    n.func, n.args = ast.Name('id_', ast.Load()), [v]
                    n.func = ast.parse('(lambda x: x)').body[0].value
                elif f is None:
                    replace_stmt(fn2, n, ast.Pass())
                elif f == 'return':
                    replace_stmt(fn2, n, ast.Return(None))
                elif f == 'defaults':
                    ds = fn2.args.defaults
                    ds[:] = [ast.List([], ast.Load()) if isinstance(d, ast.Constant)
                             and d.value is None else d for d in ds]
                elif f == 'jump':
                    replace_stmt(fn2, n, ast.Break() if isinstance(n, ast.Continue)
                                 else ast.Continue())
                else:
                    f(n)
                ast.fix_missing_locations(t2)
                new = ast.unparse(t2)
                if new == plain:
                    continue
                compile(new, rel, 'exec')
            except Exception:
                continue
            yield {'file': rel, 'fn': q, 'line': line, 'what': desc, 'src': before[:110]}, new


def main():
    a = sys.argv[1:]
    out = a.pop(0)

    def opt(x, d=None):
        if x in a:
            i = a.index(x)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return d
    kind = sites
    if '--shapes' in a:
        a.remove('--shapes')
        kind = shapes
    files = opt('-f')
    qual = opt('-q')
    cap = int(opt('-n', '100000'))
    seed = int(opt('-s', '1'))
    files = files.split(',') if files else FILES
    visits = {}
    for p in os.listdir(os.path.join(HERE, 'evidence')):
        if p.startswith('C') and p.endswith('.json') and 'violation' not in p:
            e = json.load(open(os.path.join(HERE, 'evidence', p)))
            visits[p[:-5]] = json.dumps(e)
    pids = sorted(visits)
    todo = []
    for rel in files:
        if os.path.exists(os.path.join('/repo/symfit', rel)):
            todo += list(mutants(rel, qual, kind))
    for w in opt('-x', '').split(','):
        todo = [x for x in todo if x[0]['what'] != w]
    random.Random(seed).shuffle(todo)
    todo = todo[:cap]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['fn'], d['line'], d['what'], d['src']))
    todo = [x for x in todo if (x[0]['file'], x[0]['fn'], x[0]['line'], x[0]['what'],
                                x[0]['src']) not in done]
    print(len(todo), 'mutants', flush=True)

    def one(k):
        d, new = todo[k]
        wt = '/tmp/mut_%d_%d' % (os.getpid(), k)
        os.makedirs(wt)
        shutil.copytree('/repo/symfit', wt + '/symfit',
                        ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(wt, 'symfit', d['file']), 'w').write(new)
        d['caught'], d['undecided'] = [], []
        order = [p for p in pids if '"%s"' % d['fn'] in visits[p] or '.%s"' % d['fn'] in visits[p]
                 or d['fn'] in visits[p]]
        d['visited'] = len(order)
        for p in order:
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), p], cwd=HERE,
                                   env=dict(os.environ, SYMFIT_ROOT=wt, VERIF_EVIDENCE=wt,
                                            SA_SECONDS='10', SA_MEMORY='2000'),
                                   capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                d['undecided'].append(p + ':timeout')
                continue
            if r.returncode == 1:
                d['caught'].append(p)
                break
            if r.returncode != 0:
                d['undecided'].append('%s:rc%d' % (p, r.returncode))
            elif ' 0 undecided' not in r.stdout.split('\n')[0]:
                d['undecided'].append(p)
        shutil.rmtree(wt, ignore_errors=True)
        return d
    with ThreadPoolExecutor(8) as ex, open(out, 'a') as f:
        for d in ex.map(one, range(len(todo))):
            f.write(json.dumps(d) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
