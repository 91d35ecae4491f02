"""Value terms of the abstract domain, and their normal forms."""


def C(v):
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
SELF = ('self',)


def is_c(t):
    return t[0] == 'c'


def cval(t):
    return t[2]


def walk(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x:
            yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x == sub for x in walk(t))


def any_sub(t, pred):
    return any(pred(x) for x in walk(t) if x and isinstance(x[0], str))


def mentions_attr(t, attr):
    return any(x[0] == 'a' and x[2] == attr for x in walk(t) if x and isinstance(x[0], str) and len(x) > 2)


PREC = {}
OPSYM = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%',
         'Pow': '**', 'LShift': '<<', 'RShift': '>>', 'BitOr': '|', 'BitAnd': '&',
         'BitXor': '^', 'MatMult': '@'}


def show(t):
    """Human readable rendition of a term"""
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    k = t[0]
    try:
        if k == 'c':
            return repr(t[2])
        if k == 'self':
            return 'self'
        if k in ('p', 'va', 'kwa'):
            return {'p': '', 'va': '*', 'kwa': '**'}[k] + t[1]
        if k == 'a':
            return '%s.%s' % (show(t[1]), t[2])
        if k == 'g':
            return t[1]
        if k == 'fn' or k == 'cls':
            return t[1].split('.')[-1]
        if k == 'new':
            return '%s(..)' % t[1].split('.')[-1]
        if k == 'call':
            return '%s(%s)' % (show(t[1]), ', '.join([show(x) for x in t[2]] + [
                ('%s=%s' % (n, show(v)) if n else '**' + show(v)) for n, v in t[3]]))
        if k == 'op':
            return '(%s %s %s)' % (show(t[2]), OPSYM.get(t[1], t[1]), show(t[3]))
        if k == 'un':
            return '%s(%s)' % (t[1], show(t[2]))
        if k == 'not':
            return 'not ' + show(t[1])
        if k == 'cmp':
            return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
        if k == 'lt0':
            return '(%s%s < 0)' % (' + '.join('%s*%s' % (c, show(x)) for x, c in t[1]),
                                   ' + %s' % t[2] if t[2] else '')
        if k == 'truthy':
            return 'bool(%s)' % show(t[1])
        if k == 'sub':
            return '%s[%s]' % (show(t[1]), show(t[2]))
        if k == 'elem':
            return 'elem(%s)' % show(t[1])
        if k in ('tup', 'list', 'set'):
            return '%s(%s)' % (k, ', '.join(show(x) for x in t[1]))
        if k == 'star':
            return '*' + show(t[1])
        if k == 'clo':
            return '<closure %s>' % (t[2],)
        if k == 'exc':
            return '<exc %s>' % (t[2],)
        if k == 'unk':
            return '?'
    except Exception:
        pass
    return repr(t)[:200]


# -- linear normal form ------------------------------------------------------------------------
def lin(t):
    """term -> (dict term->coeff, const) """
    if t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
        return {}, t[2]
    if t[0] == 'op' and t[1] in ('Add', 'Sub'):
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        s = 1 if t[1] == 'Add' else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v != 0}, ca + s * cb
    if t[0] == 'un' and t[1] == 'USub':
        a, ca = lin(t[2])
        return {k: -v for k, v in a.items()}, -ca
    if t[0] == 'op' and t[1] == 'Mult':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] == 'c' and isinstance(x[2], (int, float)) and not isinstance(x[2], bool):
                a, ca = lin(y)
                return {k: v * x[2] for k, v in a.items() if v * x[2] != 0}, ca * x[2]
    return {t: 1}, 0


def lin_key(a, b):
    """canonical representation of a - b"""
    x, cx = lin(a)
    y, cy = lin(b)
    out = dict(x)
    for k, v in y.items():
        out[k] = out.get(k, 0) - v
    return tuple(sorted(((k, v) for k, v in out.items() if v != 0), key=repr)), cx - cy


def lin_equal(a, b):
    k, c = lin_key(a, b)
    return not k and c == 0


def atom(t):
    """Normalise a condition term into (atom, polarity) """
    pol = True
    while True:
        k = t[0]
        if k == 'not':
            t, pol = t[1], not pol
            continue
        if k == 'call' and t[1] == ('g', 'builtins.bool') and len(t[2]) == 1:
            t = t[2][0]
            continue
        break
    if k == 'truthy':
        return t, pol
    if k == 'cmp':
        op, a, b = t[1], t[2], t[3]
        if op == 'NotEq':
            op, pol = 'Eq', not pol
        elif op == 'IsNot':
            op, pol = 'Is', not pol
        elif op == 'NotIn':
            op, pol = 'In', not pol
        elif op == 'Gt':
            op, a, b = 'Lt', b, a
        elif op == 'GtE':                   # a >= b  <=> not a < b
            op, pol = 'Lt', not pol
        elif op == 'LtE':                   # a <= b  <=> not b < a
            op, a, b, pol = 'Lt', b, a, not pol
        if op == 'Lt':
            k2, c = lin_key(a, b)
            # 0 < len(x)  -> truthy(x) ;  len(x) < 1 -> not truthy
            if len(k2) == 1 and is_len(k2[0][0]):
                x = k2[0][0][2][0]
                if k2[0][1] == -1 and c == 0:
                    return ('truthy', x), pol
                if k2[0][1] == 1 and c == -1:
                    return ('truthy', x), not pol
            return ('lt0', k2, c), pol
        if op in ('Eq', 'Is'):
            if op == 'Eq':
                for x, y in ((a, b), (b, a)):
                    if is_len(x) and y == C(0):
                        return ('truthy', x[2][0]), not pol
                    if y == C(True) and x[0] in ('cmp', 'not'):
                        z, p2 = atom(x)
                        return z, pol == p2
            if repr(a) > repr(b):
                a, b = b, a
            return ('cmp', op, a, b), pol
        return ('cmp', op, a, b), pol
    if t[0] == 'lt0':
        return t, pol
    return ('truthy', t), pol


def is_len(t):
    return t[0] == 'call' and t[1] == ('g', 'builtins.len') and len(t[2]) == 1
