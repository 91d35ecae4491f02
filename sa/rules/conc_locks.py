"""C01, C02, C03: lock balance, guarded state, deadlock freedom."""
import ast

from ..q import *
from ..project import Cls, Func

LOCKISH = {'acquire', 'release', '__enter__', '__exit__', 'lock', 'locked', 'synchronized'}


def mentions_locks(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return True
        if isinstance(n, ast.Attribute) and (n.attr in LOCKISH or n.attr.startswith('synchronize')):
            return True
    return False


def is_private(name):
    return name.startswith('_') and not (name.startswith('__') and name.endswith('__'))


def net(path, kinds=('lock', 'rlock')):
    """net number of holds per lock at the end of the path"""
    d, k = {}, {}
    for e in path.events:
        if e.kind == 'acquire':
            k[e.lock] = e.lkind
            if e.ok:
                d[e.lock] = d.get(e.lock, 0) + 1
        elif e.kind == 'release':
            d[e.lock] = d.get(e.lock, 0) - 1
    return {l: n for l, n in d.items() if n and k.get(l, 'lock') in kinds}


def has_nested(func):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not func.node for n in ast.walk(func.node))


def lock_norm(l):
    return norm(l)


def lock_balance(ctx):
    """Every exit of every function leaves the locks as it found them"""
    r = ctx.rule('lock-balance', 'on every path of every function, acquired locks are released exactly once '
                                 'before the function returns or raises (context-manager halves are judged as a pair)')
    opts = dict(budget=3000)
    for f in ctx.p.all_funcs:
        if not mentions_locks(f.node):
            continue
        if any(d.endswith('abstractmethod') for d in f.deco_names()):
            continue
        if f.name in ('__enter__', '__exit__', '__aenter__', '__aexit__'):
            continue
        if is_private(f.name):
            # judged where it is inlined; on its own it may rely on the caller's lock
            continue
        with ctx.item(r, f.where):
            ps = [(None, p) for p in ctx.paths(f, cls=f.cls, **opts)]
            if has_nested(f):
                from ..engine import Interp
                it = Interp(ctx.p, **opts)
                cp = it.closure_paths(f)
                ctx.npaths += len(cp)
                ps += cp
            bad = None
            for _, p in ps:
                if p.kind == 'cut':
                    continue
                n = net(p)
                if f.name in ('acquire', 'lock') and p.kind == 'ret' and all(v == 1 for v in n.values()):
                    continue
                if f.name in ('release', 'unlock') and all(v == -1 for v in n.values()):
                    continue
                if n:
                    bad = (p, n)
                    break
            if bad:
                p, n = bad
                l, v = sorted(n.items(), key=repr)[0]
                ctx.bad(r, f.where, 'lock %s is left with %+d holds when the call %s' % (
                    show(l), v, 'returns' if p.kind == 'ret' else 'raises %s' % show(p.val)),
                    f.where, last_line(p), p)
            else:
                ctx.ok(r, f.where)


def last_line(p):
    for e in reversed(p.events):
        if e.line:
            return e.line
    return 0


def cm_pairs(ctx):
    """__enter__/__exit__ of lock-taking context managers undo each other on every path"""
    r = ctx.rule('lock-cm-pair', "a context manager's exit gives back exactly the locks its entry took, on every "
                                 "path, also when the body raised; a failed entry keeps nothing")
    for c in ctx.p.all_classes:
        ent, ext = c.find_repo('__enter__'), c.find_repo('__exit__')
        if ent is None or ext is None:
            continue
        if not any(mentions_locks(x.node) for x in (ent, ext)):
            continue
        name = c.fq
        with ctx.item(r, name):
            pe, px = ctx.paths(ent, cls=c), ctx.paths(ext, cls=c)
            ne = {frozenset((lock_norm(l), v) for l, v in net(p).items()) for p in pe if p.kind == 'ret'}
            nx = {frozenset((lock_norm(l), -v) for l, v in net(p).items()) for p in px if p.kind == 'ret'}
            if not any(ne) and not any(nx):
                continue
            for p in pe:
                if p.kind == 'raise' and net(p) and not is_bookkeeping(p):
                    ctx.bad(r, name + '.__enter__', 'entry raises while keeping %s' % ', '.join(show(l) for l in net(p)),
                            ent.where, last_line(p), p)
                    break
            for p in px:
                if p.kind == 'raise' and frozenset((lock_norm(l), -v) for l, v in net(p).items()) not in ne \
                        and not is_bookkeeping(p):
                    ctx.bad(r, name + '.__exit__', 'exit raises without giving the lock back', ext.where, last_line(p), p)
                    break
            if len(ne) == 1 and ne == nx:
                ctx.ok(r, name)
            else:
                ctx.bad(r, name, 'entry takes %s but exit gives back %s' % (fmt(ne), fmt(nx)), ext.where, ext.node.lineno)


def is_bookkeeping(p):
    """an exception of reading the object's own attributes, which cannot happen on an initialised object"""
    v = p.val
    return v[0] == 'exc' and isinstance(v[4], tuple) and v[4] and v[4][0] == 'call' and \
        isinstance(v[4][1], tuple) and v[4][1][0] == 'super' and v[4][1][2] in ('__getattribute__', '__setattr__')


def fmt(s):
    return '{' + '; '.join(', '.join('%s%+d' % (show(l), v) for l, v in x) or 'nothing' for x in s) + '}'


def relock(ctx):
    r = ctx.rule('no-relock', 'no path acquires a non-reentrant lock its own thread already holds')
    for f in ctx.p.all_funcs:
        if not mentions_locks(f.node) or is_private(f.name):
            continue
        classes = [f.cls]
        if f.cls is not None:
            classes += [c for c in ctx.p.all_classes if c is not f.cls and f.cls in c.mro() and c.find_repo(f.name) is f]
        for c in classes[:6]:
            name = f.where if c is f.cls else f.where + ' as ' + c.name
            with ctx.item(r, name):
                bad = None
                ps = list(ctx.paths(f, cls=c, budget=3000))
                if has_nested(f) and c is f.cls:
                    from ..engine import Interp
                    ps += [p for _, p in Interp(ctx.p, budget=3000).closure_paths(f)]
                for p in ps:
                    e = first(p, 'relock')
                    if e is not None and f.name != '__exit__':
                        bad = (p, e)
                        break
                if bad:
                    ctx.bad(r, name, 'acquires %s which the same thread already holds' % show(bad[1].lock),
                            f.where, bad[1].line, bad[0])
                else:
                    ctx.ok(r, name)


def lock_ident(l, cls):
    """type-level identity of a lock term"""
    if l[0] == 'a':
        if l[1] == SELF and cls is not None:
            return (cls.fq, l[2])
        return ('*', l[2])
    if l == SELF and cls is not None:
        return (cls.fq, '')
    if l[0] == 'g':
        return ('global', l[1])
    return ('*', show(l))


def lock_order(ctx):
    """The union of the acquisition orders of all operations is acyclic"""
    r = ctx.rule('lock-order', 'locks taken while another one is held form an acyclic order; two instances of one '
                               'class are never locked inside each other')
    edges = {}
    for f in ctx.p.all_funcs:
        if not mentions_locks(f.node) or is_private(f.name):
            continue
        with ctx.item(r, f.where):
            ps = list(ctx.paths(f, cls=f.cls, budget=3000))
            bad = None
            for p in ps:
                for e in p.events:
                    if e.kind != 'acquire' or e.lkind == 'sem':
                        continue
                    for l, n in e.locks:
                        if n <= 0 or l == e.lock:
                            continue
                        a, b = lock_ident(l, f.cls), lock_ident(e.lock, f.cls)
                        if l[0] == 'a' and e.lock[0] == 'a' and l[2] == e.lock[2] and l[1] != e.lock[1] and (
                                a[0] == '*' or b[0] == '*'):
                            bad = bad or (p, e, l)
                        edges.setdefault(a, {}).setdefault(b, (f.where, e.line, p))
            if bad:
                p, e, l = bad
                ctx.bad(r, f.where, 'takes %s while holding %s: the same operation with the objects swapped takes them '
                                    'in the opposite order' % (show(e.lock), show(l)), f.where, e.line, p)
            else:
                ctx.ok(r, f.where)
    for a in edges:
        seen, todo = set(), list(edges[a])
        while todo:
            b = todo.pop()
            if b == a:
                w = sorted(edges[a].values(), key=lambda x: x[:2])[0]
                ctx.bad(r, 'order of %s.%s' % a, 'is taken both before and after another lock', w[0], w[1], w[2])
                break
            if b not in seen:
                seen.add(b)
                todo += edges.get(b, {})


ENGINE_TECH = 'path-sensitive dataflow/typestate analysis over the AST'

PROPS = {
    'C01': {
        'title': 'Locks are released on every way out',
        'statement': 'Whatever a public function, method, decorator or context manager of satella acquires (a lock, a '
                     'monitor, a condition) it has released exactly once when the call ends, whether it returns or '
                     'raises, including exceptions coming from user callbacks and bodies of with-blocks. A '
                     'context-managed lock holder gives back on exit exactly what entry took, and a failed entry '
                     'or a failed non-blocking acquire keeps nothing.',
        'over': (['inputs', 'fault_sequences', 'schedules'],
                 'every call, every exception any callback may raise, every interleaving'),
        'why': 'Tests take the normal exits; a lock leaked on one exceptional exit only shows when a callback raises at '
               'that very point and another thread arrives afterwards.',
        'files': ['satella/coding/concurrent', 'satella/coding/structures', 'satella/coding/resources', 'satella/instrumentation',
                  'satella/db.py'],
        'mechanism': [('with-statements and try/finally around acquire/release', 'satella/coding/concurrent/monitor.py'),
                      ('LockedDataset entry/exit', 'satella/coding/concurrent/locked_dataset.py'),
                      ('LockedStructure', 'satella/coding/concurrent/locked_structure.py')],
        'technique': ENGINE_TECH + ': lock balance',
        'explain': 'Every function of the package that mentions a lock is abstracted to its paths (normal and exceptional); '
                   'the net number of holds of every lock term must be zero at each exit, and entry/exit pairs must cancel.',
        'rules': [lock_balance, cm_pairs],
    },
    'C03': {
        'title': 'No self-deadlock and no lock-order inversion',
        'statement': 'No operation of satella acquires a non-reentrant lock that the same call already holds, also when the '
                     'operation is inherited by a subclass or an object is combined with itself (a == a). '
                     'No two operations take two of the library\'s locks in opposite orders.',
        'over': (['schedules', 'inputs'], 'every call and every interleaving of calls'),
        'why': 'A deadlock needs one particular call shape or interleaving; the suite runs a handful of sequential calls.',
        'files': ['satella/coding/concurrent', 'satella/coding/structures', 'satella/instrumentation'],
        'mechanism': [('lock ownership per object', 'satella/coding/concurrent/monitor.py'),
                      ('AtomicNumber comparisons', 'satella/coding/concurrent/atomic.py')],
        'technique': ENGINE_TECH + ': held-lock sets, relock and order graph',
        'explain': 'On every path of every lock-using function (for every subclass inheriting it) the set of held locks is '
                   'tracked; acquiring a held non-reentrant lock, or a cycle in the union of acquisition orders, is reported.',
        'rules': [relock, lock_order],
    },
}
