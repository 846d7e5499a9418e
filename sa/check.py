"""Obligations: two driver functions whose results must be equal terms.

``got`` calls the analysed package; ``want`` states what it has to compute.
Both are evaluated by the same gated value-numbering engine on the same
symbolic inputs; an obligation is discharged when the canonical terms coincide.
"""
import hashlib
import json
import ast
import os
import sys
import time
import traceback

from . import terms as t
from .terms import T, mk, show, FALSE, TRUE, UNDEF
from .world import World
from . import watch
from .interp import Interp, Budget, Anchor

ROOT = os.environ.get('SYMFIT_ROOT', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(os.environ.get('VERIF_EVIDENCE', HERE), 'evidence')

# operators for which the canonical form does not decide equality: two terms
# containing them may differ and still mean the same
WEAK_OPS = {'fold', 'unk', 'cyclic', 'gather', 'prefix', 'undef', 'acc', 'rekey',
            'scatter', 'unbound', 'descr', 'dontcare', 'super'}


class Obl(object):
    def __init__(self, name, got, want, rule, anchors, opaque=(), boundary=None,
                 intercept=None, raises=False, notes=False, events=(),
                 seconds=60.0, weak=(), variants=None, orders=False):
        self.name = name
        self.got = got
        self.want = want
        self.rule = rule
        self.anchors = anchors if isinstance(anchors, (list, tuple)) else [anchors]
        self.opaque = opaque
        self.boundary = boundary
        self.intercept = intercept or {}
        self.raises = raises
        self.notes = notes
        self.events = events
        self.seconds = seconds
        self.weak = set(weak)      # extra operators that make a mismatch weak
        # sets of literal elements are iterated forwards and backwards: any
        # dependence on the order of two elements shows in one of the two
        self.orders = orders
        self.variants = variants   # accepted known deviations: {name: driver}


class Run(object):
    pass


class Prop(object):
    def __init__(self, pid, driver, obls, tier='quick', custom=None):
        self.pid, self.driver, self.obls = pid, driver, obls
        self.custom = custom


def _annot(w, m, node, I, s):
    import ast
    if node is None:
        return
    n = node.value if isinstance(node, ast.Constant) else ast.unparse(node)
    for part in str(n).split('&'):
        part = part.strip()
        if part == 'Seq':
            I.seqsyms.add(s)
        elif part == 'Dict':
            I.dictsyms.add(s)
        elif part == 'Int':
            I.intsyms.add(s)
        else:
            r = w.lookup(m, part)
            if r is not None and r[0] == 'class':
                I.types[s] = r[1]
                t.TYPED.add(s)
            else:
                raise Anchor('class %s' % part)


NSPEC = [0]


def load(w, src):
    NSPEC[0] += 1
    return w.add_source('spec%d' % NSPEC[0], src)


def definers(w, key):
    """where Class.method is defined now, when that is a base class"""
    c, _, name = key.partition('.')
    out = []
    if name and '.' not in name:
        for k in w.classes.values():
            if k.name == c and name not in k.members:
                owner, _ = w.find_member(k, name)
                if owner is not None:
                    out.append(owner.name + '.' + name)
    return out


def evaluate(w, m, fname, o, size=None, order=None):
    """run one driver function"""
    t.LEN_EQ.clear()
    t.LEN_ROW.clear()
    t.TYPED.clear()
    t.SYMBOLS.clear()
    t.EXPRS.clear()
    t.SCALARS.clear()
    t.ARRAYS.clear()
    t.IDENT.clear()
    t.NDIM.clear()
    I = Interp(w, boundary=o.boundary, opaque=o.opaque, seconds=o.seconds)
    watch.DEADLINE[0] = I.deadline
    I.seqsyms, I.dictsyms, I.intsyms = set(), set(), set()
    I.size = size
    I.setorder = order
    t.DISTINCT.clear()
    t.INJECTIVE.clear()
    I.raw_symbols = 'sympy.Symbol.__new__' in o.intercept
    for k, v in o.intercept.items():
        r = w.lookup(m, v)
        I.intercept[k] = I.global_fun(r[1]) if r[0] == 'func' else r[1].term
        for d in definers(w, k):
            I.intercept.setdefault(d, I.intercept[k])
    for k in list(I.opaque):
        I.opaque.update(definers(w, k))
    r = w.lookup(m, fname)
    if r is None or r[0] != 'func':
        raise Anchor('driver ' + fname)
    fi = r[1]
    args = []
    for a in fi.node.args.args:
        s = t.sym(a.arg)
        _annot(w, m, a.annotation, I, s)
        args.append(s)
    run = Run()
    run.I = I
    v = I.call(I.global_fun(fi), args, [])
    run.dead = I.dead()
    run.pc = I.st.pc
    run.assumed = I.assumed
    run.val = I.reify(v) if not run.dead else UNDEF
    rs = {}
    for e in I.exits:
        if e.kind == 'raise' and e.cond is not FALSE:
            n = exc_name(e.val)
            rs[n] = t.or_(rs.get(n, FALSE), e.cond)
    run.raises = rs
    run.notes = [(e[1], e[2], e[3], e[4:]) for e in I.events if e[0] == 'note']
    run.events = I.events
    run.weak = list(I.unmodelled)
    return run


def exc_name(v):
    if v.op == 'new':
        c = v.args[0]
        if c.op in ('ext', 'cls'):
            return c.args[0].split('.')[-1]
    if v.op in ('ext', 'cls'):
        return v.args[0].split('.')[-1]
    return show(v, 4)


def ops_of(x):
    return set(y.op for y in t.subterms(x))


# library functions which certainly differ from anything else in meaning
DISTINCT_CALLS = set('''numpy.mean numpy.max numpy.min numpy.abs numpy.log numpy.exp
numpy.zeros numpy.ones numpy.eye numpy.inf numpy.median numpy.prod
scipy.optimize.minimize scipy.optimize.least_squares numpy.isclose numpy.allclose
sympy.Abs sympy.sin sympy.cos sympy.tan sympy.erf sympy.erfc sympy.gamma sympy.sign
sympy.Heaviside op.Invert numpy.any numpy.all numpy.isnan numpy.isfinite numpy.isinf
numpy.full_like numpy.linalg.inv numpy.linalg.pinv numpy.triu numpy.tril
numpy.broadcast keyword.iskeyword'''.split())
DISTINCT_METHODS = set('''startswith endswith isupper islower'''.split())


def heads(x):
    """uninterpreted library functions and methods applied in a term"""
    out = set()
    for y in t.subterms(x):
        if y.op == 'call':
            f = y.args[0]
            if f.op == 'ext' and not f.args[0].startswith('fn:') and \
                    f.args[0] not in DISTINCT_CALLS:
                out.add(f.args[0])
            elif f.op in ('attr', 'meth') and f.args[1] not in DISTINCT_METHODS:
                out.add('.' + str(f.args[1]))
    return out


def layers(notes, assumed):
    """the effects as the k-th effect of every execution, k = 0, 1, ...

    Effects under exclusive conditions have no order, so the sequence is kept
    per condition: layer k gates the k-th effect that happens.
    """
    out = []
    for c, iv, fn, vals in notes:
        rest = t.and_(assumed, c)
        ivs = t.seq(*iv)
        v = t.mapleaves(t.seq(*vals), lambda l: mk('note', ivs, l))
        k = 0
        while rest is not FALSE:
            if k == len(out):
                out.append((FALSE, NOTHING))
            occ, term = out[k]
            here = t.and_(rest, t.not_(occ))
            if here is not FALSE:
                out[k] = (t.or_(occ, here), t.ite(here, v, term))
            rest = t.and_(rest, occ)
            k += 1
    return mk('effects', *[x[1] for x in out])


NOTHING = t.sym('$nothing')


def difference(a, b, path=''):
    """smallest differing pair of subterms"""
    if a is b:
        return None
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('poly', 'sum'):
        ds = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    ds.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return (a, b)
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T):
                        if p is not q:
                            ds.append((p, q))
                    elif isinstance(p, tuple) and isinstance(q, tuple):
                        if len(p) == len(q) == 2 and p[0] == q[0] and \
                                isinstance(p[1], T) and isinstance(q[1], T):
                            if p[1] is not q[1]:
                                ds.append((p[1], q[1]))
                        elif p != q:
                            return (a, b)
                    elif p != q:
                        return (a, b)
            elif x != y:
                return (a, b)
        if len(ds) == 1:
            return difference(*ds[0])
        if ds:
            return (a, b)
    return (a, b)


def compare(o, g, w_):
    """-> None when equal, else (kind, got, want) texts + weak flag"""
    pairs = []
    a, b = g.val, w_.val
    if o.raises and not g.dead and not w_.dead:
        a = t.ite(t.and_(g.assumed, g.pc), a, t.sym('$raised'))
        b = t.ite(t.and_(w_.assumed, w_.pc), b, t.sym('$raised'))
    elif g.assumed is not TRUE or w_.assumed is not TRUE:
        a = t.ite(g.assumed, a, t.sym('$excluded'))
        b = t.ite(w_.assumed, b, t.sym('$excluded'))
    pairs.append(('value', a, b))
    if o.raises:
        for n in sorted(set(g.raises) | set(w_.raises)):
            pairs.append(('raises ' + n, t.and_(g.assumed, g.raises.get(n, FALSE)),
                          t.and_(w_.assumed, w_.raises.get(n, FALSE))))
    if o.notes:
        gn = layers(g.notes, g.assumed)
        wn = layers(w_.notes, w_.assumed)
        pairs.append(('effects', gn, wn))
    out = []
    for kind, a, b in pairs:
        if a is b:
            continue
        d = difference(a, b)
        weak = (ops_of(a) - ops_of(b) | ops_of(d[0])) & (WEAK_OPS | o.weak)
        weak |= heads(d[0]) - heads(b)
        out.append((kind, a, b, d, sorted(weak)))
    return out


EXTERNAL = {'sympy', 'numpy', 'scipy', 'matplotlib', 'inspect', 'toposort', 'functools',
            'itertools', 'warnings', 'object'}


def package_names(w):
    """every name the package itself defines"""
    if not hasattr(w, '_names'):
        w._names = set()
        for n, mod in w.modules.items():
            if n.startswith('spec'):
                continue
            for x in ast.walk(mod.tree):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    w._names.add(x.name)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    w._names.add(x.attr)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    w._names.add(x.id)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and \
                        x.value.isidentifier():
                    w._names.add(x.value)
    return w._names


# private names of sympy's printers and of namedtuples
FOREIGN = {'_asdict', '_module_format', '_print', '_print_Pow', '_print_MatPow',
           '_numpycode', '_lambdacode', '_pythoncode', '_sympystr', '_print_Symbol'}


def vanished(w, m, o):
    """internal names the obligation is phrased with which are no more: it
    cannot be decided, nothing is known to be wrong"""
    out = []
    for k in list(o.intercept) + list(o.opaque):
        if k.split('.')[0] in EXTERNAL:
            continue
        c, _, name = k.partition('.')
        if not name:
            if c not in package_names(w) and not w.lookup(m, c):
                out.append(k)
            continue
        found = False
        for q, ci in list(w.classes.items()):
            if ci.name == c and (w.find_member(ci, name)[0] is not None or
                                 name in ('__init__', '__new__')):
                found = True
        if not found:
            out.append(k)
    # private names in the driver functions used
    funs = {x.name: x for x in m.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    todo, seen = [o.got, o.want] + list(o.intercept.values()), set()
    while todo:
        f = todo.pop()
        if f in seen or f not in funs:
            continue
        seen.add(f)
        for x in ast.walk(funs[f]):
            if isinstance(x, ast.Name):
                todo.append(x.id)
            n = x.attr if isinstance(x, ast.Attribute) else (
                x.name if isinstance(x, ast.FunctionDef) and x.name not in funs
                else None)
            if n and n.startswith('_') and not n.startswith('__') and \
                    n not in package_names(w) and n not in FOREIGN:
                out.append(n)
    return sorted(set(out))


def state(o):
    return {'rule': o.rule, 'anchors': o.anchors}


t.remember()


def check(pid, driver, obls, tier='quick', custom=None, explanation='',
          minimum=None, verbose=False):
    """Run all obligations of one property; returns process exit status."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    known = load_known(pid)
    rep = {'obligations': 0, 'discharged': 0, 'undecided': [], 'violations': [],
           'known': [], 'bounded': [], 'functions': {}, 'detail': []}
    try:
        w = World(ROOT)
        m = load(w, driver)
    except Anchor as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    broken = []
    main, loaded = driver, {driver: (w, m)}
    def one(o):
        nonlocal w, m
        rep['obligations'] += 1
        driver = getattr(o, 'driver', None) or main
        try:
            if driver not in loaded:
                w2 = World(ROOT)
                loaded[driver] = w2, load(w2, driver)
            w, m = loaded[driver]
        except Anchor as e:
            broken.append('%s: vanished anchor %s' % (o.name, e))
            return
        s0 = time.time()
        if rep['violations'] and s0 - t0 > 120:
            rep['undecided'].append({'obligation': o.name,
                                     'why': 'not run: a violation is known and time is short'})
            return
        o.seconds = min(o.seconds, float(os.environ.get('SA_SECONDS', 1e9)))
        if s0 - t0 > 420:
            o.seconds = min(o.seconds, 5.0)
        watch.DEADLINE[0] = None
        if watch.rss() > watch.LIMIT // 2:
            # start anew after an obligation which filled the memory
            gr = wr = gr2 = diffs = strong = None
            t.forget()
            w = World(ROOT)
            m = load(w, driver)
            loaded.clear()
            loaded[driver] = w, m
        try:
            diffs = []
            for order in ('f', 'r') if o.orders else (None,):
                wr = evaluate(w, m, o.want, o, None, order)
                gr = evaluate(w, m, o.got, o, None, order)
                for k, n in gr.I.visited.items():
                    if not k.startswith('spec'):
                        rep['functions'][k] = rep['functions'].get(k, 0) + n
                diffs += compare(o, gr, wr)
        except Anchor as e:
            broken.append('%s: vanished anchor %s' % (o.name, e))
            return
        except Budget as e:
            rep['undecided'].append({'obligation': o.name, 'why': 'budget'})
            return
        except RecursionError:
            rep['undecided'].append({'obligation': o.name, 'why': 'recursion'})
            if os.environ.get("SA_TRACE"): import traceback; traceback.print_exc()
        except Exception as e:
            if verbose:
                traceback.print_exc()
            rep['undecided'].append({'obligation': o.name, 'why': 'engine: %r' % e})
            return
        watch.DEADLINE[0] = None
        if not diffs:
            rep['discharged'] += 1
            rep['detail'].append({
                'obligation': o.name, 'rule': o.rule, 'verdict': 'equal',
                'term': hashlib.sha1(show(gr.val, 40).encode()).hexdigest()[:12],
                'functions': len(gr.I.visited), 's': round(time.time() - s0, 2)})
            return
        strong = [d for d in diffs if not d[4]]
        if not strong and 'spec_size' in driver:
            # the canonical form is too weak for arbitrary lengths: decide the
            # obligation for collections of one, two and three elements
            ok = True
            for size in (2, 3, 1):
                try:
                    wr = evaluate(w, m, o.want, o, size)
                    gr2 = evaluate(w, m, o.got, o, size)
                    d2 = compare(o, gr2, wr)
                except (Budget, Anchor, RecursionError):
                    ok = False
                    continue
                if d2 and not all(d[4] for d in d2):
                    diffs, gr = d2, gr2
                    strong = [d for d in d2 if not d[4]]
                    break
                if d2:
                    ok = False
            watch.DEADLINE[0] = None
            if ok and not strong:
                rep['discharged'] += 1
                rep['bounded'].append(o.name)
                rep['detail'].append({
                    'obligation': o.name, 'rule': o.rule,
                    'verdict': 'equal for collections of 1..3 elements',
                    's': round(time.time() - s0, 2)})
                return
        if strong and o.variants:
            for kn, fn in o.variants.items():
                if kn not in known:
                    continue
                vr = evaluate(w, m, fn, o)
                watch.DEADLINE[0] = None
                if not compare(o, gr, vr):
                    rep['known'].append((kn, known[kn]))
                    strong = diffs = []
                    break
            if not diffs:
                rep['discharged'] += 1
                return
        if strong and gr.I.lacking and (
                gr.raises.get('AttributeError', FALSE)
                is not wr.raises.get('AttributeError', FALSE)):
            rep['undecided'].append({
                'obligation': o.name, 'why': 'a stand-in of the specification lacks %s' %
                ', '.join(sorted(gr.I.lacking))})
            return
        if strong and vanished(w, m, o):
            rep['undecided'].append({
                'obligation': o.name, 'why': 'internal names are gone: %s' %
                ', '.join(vanished(w, m, o))})
            return
        if strong:
            kind, a, b, d, _ = strong[0]
            rep['violations'].append({
                'obligation': o.name, 'rule': o.rule, 'what': kind,
                'where': where(w, o, gr), 'anchors': o.anchors,
                'found': show(d[0], 14)[:3000], 'expected': show(d[1], 14)[:3000],
                'found_full': show(a, 30)[:20000],
                'expected_full': show(b, 30)[:20000]})
        else:
            rep['undecided'].append({
                'obligation': o.name, 'why': 'unmodelled: %s' %
                ','.join(sorted(set(x for d in diffs for x in d[4]))),
                'found': show(diffs[0][3][0], 10)[:1500],
                'expected': show(diffs[0][3][1], 10)[:1500]})
    for o in obls:
        n = rep['discharged'] + len(rep['undecided']) + len(rep['violations']) + len(broken)
        try:
            one(o)
            watch.DEADLINE[0] = None
        except Budget:
            watch.DEADLINE[0] = None
            if n == rep['discharged'] + len(rep['undecided']) + \
                    len(rep['violations']) + len(broken):
                rep['undecided'].append({'obligation': o.name, 'why': 'budget'})
    for c in custom or ():
        try:
            w = loaded[main][0] if main in loaded else World(ROOT)
            r = c(w)
        except Anchor as e:
            broken.append('%s: vanished anchor %s' % (c.__name__, e))
            continue
        except Exception as e:
            if verbose:
                traceback.print_exc()
            rep['obligations'] += 1
            rep['undecided'].append({'obligation': c.__name__, 'why': 'engine: %r' % e})
            continue
        rep['obligations'] += r['obligations']
        rep['discharged'] += r['discharged']
        rep['violations'] += r.get('violations', [])
        rep['undecided'] += r.get('undecided', [])
        rep['detail'] += r.get('detail', [])
        for k, n in r.get('functions', {}).items():
            rep['functions'][k] = rep['functions'].get(k, 0) + n
        for kn in r.get('known', ()):
            if kn in known:
                rep['known'].append((kn, known[kn]))
    return report(pid, rep, broken, w, tier, seed, t0, explanation, verbose)


def where(w, o, gr):
    """file:line of the anchored functions, as analysed"""
    out = []
    names = set(o.anchors)
    for k in gr.I.visited:
        parts = k.split(':')
        if parts[-1] in names:
            out.append(k)
    return out or [k for k in gr.I.visited if not k.startswith('spec')][:4]


def load_known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out[key] = text
    return out


def report(pid, rep, broken, w, tier, seed, t0, explanation, verbose):
    nviol = len(rep['violations'])
    cov = {
        'explanation': explanation,
        'rule': 'interprocedural gated value numbering of the package source; '
                'each obligation compares the canonical term of a driver over '
                'the package with the canonical term of its specification',
        'obligations': rep['obligations'],
        'discharged': rep['discharged'],
        'undecided': rep['undecided'],
        'decided_for_lengths_1_to_3_only': rep['bounded'],
        'violations': nviol,
        'functions_analysed': sorted(rep['functions']),
        'function_instances': sum(rep['functions'].values()),
        'samples': rep['detail'][:400],
        'source_digest': w.digest.hexdigest(),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; '
          '%d functions, %.1fs' % (
              pid, rep['obligations'], rep['discharged'], len(rep['undecided']),
              nviol, len(rep['functions']), time.time() - t0))
    for u in rep['undecided']:
        print('UNDECIDED property=%s %s (%s)' % (pid, u['obligation'], u['why']))
        if verbose and 'found' in u:
            print('   found   ', u['found'])
            print('   expected', u['expected'])
    for kn, text in sorted(set(rep['known'])):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if nviol:
        p = os.path.join(EVID, pid + '.violation.json')
        with open(p, 'w') as f:
            json.dump(rep['violations'], f, indent=1)
        LIM = 1200 if verbose else 400
        for v in rep['violations']:
            print('  [%s] %s (%s)' % (v['obligation'], v['rule'], v.get('what', '')))
            print('    at       %s' % ', '.join(map(str, v['where'])))
            print('    found    %s' % v['found'][:LIM])
            print('    expected %s' % v['expected'][:LIM])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
        return 2
    if rep['discharged'] == 0:
        print('ANALYSIS-BROKEN property=%s nothing was decided' % pid)
        return 2
    return 0
