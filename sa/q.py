"""Queries over abstract paths."""
from .terms import *
from .project import Cls, Func, AnchorMissing
from .engine import LOCKTYPES
from .core import Undecided

ANYP = object()


def ret(paths):
    return [p for p in paths if p.kind == 'ret']


def raised(paths):
    return [p for p in paths if p.kind == 'raise']


def ended(paths):
    return [p for p in paths if p.kind in ('ret', 'raise')]


def evs(path, *kinds, **kw):
    """events of the path of the given kinds whose fields equal kw (values may be predicates)"""
    for e in path.events:
        if kinds and e.kind not in kinds:
            continue
        for k, v in kw.items():
            x = e.d.get(k)
            if callable(v):
                if not v(x):
                    break
            elif x != v:
                break
        else:
            yield e


def has(path, *kinds, **kw):
    return next(evs(path, *kinds, **kw), None) is not None


def first(path, *kinds, **kw):
    return next(evs(path, *kinds, **kw), None)


def index(path, ev):
    for i, e in enumerate(path.events):
        if e is ev:
            return i
    return -1


def fact(path, cond, upto=None):
    """truth value a path assumed for the (normalised) condition term; None when never tested"""
    a, pol = atom(cond)
    r = None
    for e in path.events:
        if e is upto:
            break
        if e.kind == 'assume' and e.cond == a:
            r = e.truth == pol
    return r


def truth_of(path, term, upto=None):
    return fact(path, ('truthy', term), upto)


def exc_of(path):
    """names an escaping exception may have, None = anything"""
    return path.val[2] if path.val and path.val[0] == 'exc' else None


def short(n):
    return n.split('.')[-1]


def raises_only(path, *names):
    n = exc_of(path)
    return n is not None and all(short(x) in names for x in n)


def is_opaque_exc(path):
    """exception originating from an unmodelled operation (user code or container)"""
    v = path.val
    return v[0] == 'exc' and (v[2] is None or (isinstance(v[4], tuple) and v[4] and isinstance(v[4][0], str) and v[4][0] in (
        'call', 'getitem', 'delitem', 'iterate', 'enter', 'next', 'getattr', 'arith', 'wait', 'await', 'yield', 'import')))


def lock_fields(interp_ctx, cls):
    """fields of the class that hold a lock"""
    out = []
    for f, ts in cls.field_types().items():
        for t in ts:
            c = interp_ctx.p.lookup(t)
            if isinstance(c, Cls):
                if any(isinstance(m, str) and m in LOCKTYPES for m in c.mro()):
                    out.append(f)
            elif t in LOCKTYPES:
                out.append(f)
    return sorted(set(out))


def show_ev(e):
    return '%s (line %d)' % (e.kind, e.line)


def fa(base, *attrs):
    """('a', ('a', base, x), y)"""
    for a in attrs:
        base = ('a', base, a)
    return base


P = lambda n: ('p', n)
S = SELF


def eqv(a, b):
    """semantic equality of two value terms modulo call identity and linear arithmetic"""
    if a == b:
        return True
    a, b = norm(a), norm(b)
    if a == b:
        return True
    try:
        return lin_equal(a, b)
    except Exception:
        return False


COMM = {'Mult', 'BitAnd', 'BitOr', 'BitXor'}


def norm(t):
    """drop identities (uids) of calls and elements so that two evaluations of the same expression agree"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'c':
        return t
    if k == 'call' and len(t) == 5:
        return ('call', norm(t[1]), tuple(norm(x) for x in t[2]), tuple((n, norm(v)) for n, v in t[3]))
    if k == 'call':
        return ('call', norm(t[1]), tuple(norm(x) for x in t[2]), tuple((n, norm(v)) for n, v in t[3]))
    if k in ('elem', 'key', 'val', 'celem'):
        return (k, norm(t[1]))
    if k == 'new':
        return ('new', t[1])
    if k in ('list', 'set', 'dict') and len(t) == 3 and isinstance(t[2], int):
        if k == 'dict':
            return (k, tuple((norm(a) if a else None, norm(b)) for a, b in t[1]))
        return (k, tuple(norm(x) for x in t[1]))
    if k == 'exc':
        return ('exc', t[2])
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)
